#!/usr/bin/env python3
"""Development tool (no check uses it): plants bugs in scratch copies of /repo.
  seed.py make FILE...    turns authoring files into /verif/seeded/<id>/
  seed.py verify ID...    builds, tests, runs the demo (with and without) and the property's check for each
Authoring file: blocks starting '@@ id property' with lines 'needs: ...', 'breaks: ...', then '--- path', OLD, '=====', NEW,
repeated, then '--- demo' and JavaScript (load, assert in scope; async allowed)."""
import json, os, re, shutil, subprocess as sp, sys, tempfile, concurrent.futures as cf
V = '/verif'; S = V + '/seeded'; W = '/tmp/sw'
def sh(c, cwd=None, env=None, timeout=900):
    try:
        p = sp.run(c, shell=True, cwd=cwd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, errors='replace', timeout=timeout, env={**os.environ, **(env or {})})
        return p.returncode, p.stdout
    except sp.TimeoutExpired as e: return 124, 'timeout'
def copy(name):
    d = f'{W}/{name}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(W, exist_ok=True)
    sp.check_call(['cp', '-a', '/repo', d]); sh('git checkout -q -- . && git clean -fdq', d)
    return d
def make(f):
    for b in re.split(r'^@@ ', open(f).read(), flags=re.M)[1:]:
        head, rest = b.split('\n', 1); id_, prop = head.split()
        needs = re.search(r'^needs: (.*)$', rest, re.M).group(1); brk = re.search(r'^breaks: (.*)$', rest, re.M).group(1)
        parts = re.split(r'^--- (\S+)\n', rest, flags=re.M)[1:]
        d = copy('make_' + id_); demo = None; good = True
        for path, text in zip(parts[::2], parts[1::2]):
            if path == 'demo': demo = text; continue
            old, new = text.split('\n=====\n', 1); new = new.rstrip('\n'); 
            p = f'{d}/packages/{path}'; src = open(p).read()
            if src.count(old) != 1: print(id_, path, 'occurrences', src.count(old)); good = False; continue
            open(p, 'w').write(src.replace(old, new))
        if not good: continue
        _, diff = sh('git diff', d); o = f'{S}/{id_}'; os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.js', 'w').write("'use strict';\nconst assert = require('assert'), load = require('./load.js');\n(async () => {\n" + demo.strip('\n') + "\n})().then(() => process.exit(0), e => { console.error(e); process.exit(1); });\n")
        shutil.copy(V + '/tools/seedkit/load.js', o + '/load.js')
        open(o + '/demo.sh', 'w').write('#!/bin/bash\n# run in the root of the repository; every effect stays in memory or in a scratch directory\nexec timeout 60 node "$(dirname "$0")/demo.js"\n'); os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': brk}, open(o + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        shutil.rmtree(d); print('made', id_)
def verify(id_, tests=True):
    o = f'{S}/{id_}'; prop = json.load(open(o + '/meta.json'))['property']; d = copy('v_' + id_); r = {'id': id_, 'prop': prop}
    try:
        r['demo_clean'] = sh(f'bash {o}/demo.sh', d)[0]
        c, out = sh(f'git apply {o}/patch.diff', d); r['apply'] = c
        if c: return r
        r['demo_bug'] = sh(f'bash {o}/demo.sh', d)[0]
        cfg = f'{d}/.cfg'; os.makedirs(cfg)
        for n in os.listdir('/opt/vp/config'):
            if n.endswith('.js') or n.endswith('.json') and n.startswith('ts'):
                open(f'{cfg}/{n}', 'w').write(open('/opt/vp/config/' + n).read().replace('/repo', d).replace('/opt/vp/config', cfg))
        _, out = sh(f'/opt/veriftools/node/node_modules/.bin/tsc -p {cfg}/tsconfig.json --pretty false | grep -v "^[[:space:]]" | sed "/^$/d" | sed -E "s/\\([0-9]+,[0-9]+\\): / /; s/OutgoingHttpHeaders \\| readonly string\\[\\]/readonly string[] | OutgoingHttpHeaders/" | grep -vxFf /opt/vp/config/known-diagnostics.txt', d)
        r['build'] = 'ok' if not out.strip() else out[:300]
        if tests:
            sh(f'/opt/veriftools/node/node_modules/.bin/jest --ci -w 4 -c {cfg}/jest.config.js --no-cache --json --outputFile={cfg}/out.json', d, {'CI': '1', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8'})
            j = json.load(open(cfg + '/out.json')); passed = set()
            for s in j['testResults']:
                for a in s['assertionResults']:
                    if a['status'] == 'passed': passed.add(os.path.relpath(s['name'], d) + '::' + a['fullName'])
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            r['lost'] = [t for t in st if t not in passed and 'timeoutMsResolve 测试2' not in t and 'arallel' not in t][:3]
        c, out = sh(f'node {V}/run.js {prop}', V, {'VERIF_REPO': d, 'VERIF_EVIDENCE': d + '/.ev'})
        r['check'] = c; r['viol'] = [l for l in out.splitlines() if l.startswith('VIOLATION')][:1] or out[-200:]
        r['ok'] = r['demo_clean'] == 0 and r['demo_bug'] not in (0, 124) and r['build'] == 'ok' and not r.get('lost'); r['caught'] = c == 1
    finally: shutil.rmtree(d, ignore_errors=True)
    return r
if sys.argv[1] == 'make': [make(f) for f in sys.argv[2:]]
else:
    ids = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(S)); tests = '--no-tests' not in sys.argv
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda i: verify(i, tests), ids):
            cj = V + '/tools/caught.json'; m = json.load(open(cj)) if os.path.exists(cj) else {}
            m[r['id']] = r['prop'] if r.get('caught') else 'missed'; json.dump(dict(sorted(m.items())), open(cj, 'w'), indent=0)
            print(('OK ' if r.get('ok') else 'BAD') + (' caught ' if r.get('caught') else ' MISSED ') + r['id'], '' if r.get('ok') and r.get('caught') else json.dumps(r, ensure_ascii=False)[:700], flush=True)
