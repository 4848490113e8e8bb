#!/opt/veriftools/pyvenv/bin/python
import json,jsonschema,os,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    r=json.loads(l); jsonschema.validate(r,s); ids.append(r['id'])
    for f in r['anchors']['files']+[m['where'] for m in r['anchors']['mechanism']]:
        if not os.path.exists('/repo/'+f): print('missing',r['id'],f)
    n=r['statement'].count('. ')+1
    if n>3: print('sentences',r['id'],n)
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]+[x['property'] for x in m.get('not_applicable',[])]
    print('unlisted',set(ids)-set(c),'unknown',set(c)-set(ids))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)),e)
    if os.path.getsize(f)>64000: print('big',f)
print('ok',len(ids))
