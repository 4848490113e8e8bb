'use strict';
// Independence of calls that overlap in time: every call, whatever else is under way, has the outcome it has alone.
// nested:  a second call runs to its end inside the k-th callback of the first one (synchronous functions)
// overlap: two calls under the controlled scheduler, every order in which their operations can settle
// overlapFs: two calls on disjoint trees, every order of their file-system calls with one switch at any place, with two for short ones
const { explore } = require('./sched');
const { eq, ok, show, same, Broken } = require('./util');
const value = (f, hook) => { try { return ['value', f(hook)]; } catch (e) { return ['error', e]; } };
// calls: { n, run: hook => outcome } where run makes its own arguments and its callbacks call hook() first
function nested(t, suite, calls, { max = 6 } = {}) {
    const solo = new Map(); const alone = c => { if (!solo.has(c)) { let k = 0; solo.set(c, [value(c.run, () => { k++; }), k]); } return solo.get(c); };
    t.cases(suite, (function* () { for (const a of calls) for (const b of calls) for (let k = 0; k < Math.min(max, alone(a)[1]); k++) for (const twice of [false, true]) { if (twice && !alone(b)[1]) continue; yield [a, b, k, twice]; } })(), ([a, b, k, twice]) => {
        let n = 0, inner; const l = () => `${a.n}, with ${b.n} inside its callback ${k + 1}${twice ? ' and once more inside that one' : ''}`;
        const r = value(a.run, () => { if (n++ === k) { let m = 0; inner = value(b.run, () => { if (twice && m++ === 0) { const x = value(a.run, () => {}); eq(x, alone(a)[0], () => `${l()}: the innermost call`); } }); } });
        eq(inner, alone(b)[0], () => `${l()}: the inner call`); eq(r, alone(a)[0], () => `${l()}: the outer call`); return `${a.n} ${b.n} ${k} ${twice}`;
    }, { key: ([a, b, k]) => `${a.n} / ${b.n} / ${k}` });
}
// calls: { n, run: (lib, gate, s) => promise }; gate(v, { at, any }): a promise of v that the explorer settles ({ throw: e }
// rejects, any: both), at this very instant unless o.at says later (in every order with what else is due then). The outcome of each call is one of those it can have alone.
async function overlap(t, suite, fresh, calls, opts = {}) {
    const settle = p => Promise.resolve(p).then(v => ['value', v], e => ['error', e]);
    const start = (s, lib, c, who, out) => {
        let k = 0, p; const t0 = s.now;
        const gate = (v, o = {}) => { const i = k++, bad = v && typeof v === 'object' && 'throw' in v; return s.op(`${who}${i}`, o.any ? [['ok', v], ['err', o.any]] : [bad ? ['err', v.throw] : ['ok', v]], { at: 0, ...o }); };
        try { p = c.run(lib, gate, s, () => s.now - t0); } catch (e) { p = Promise.reject(e); }
        settle(p).then(r => { out[who] = [...r, s.now - t0]; s.log('end', who); });
    };
    const solo = new Map(), one = c => solo.get(c) ?? (solo.set(c, []), solo.get(c));
    for (const c of calls) { const out = {}; await explore(s => { delete out.A; start(s, fresh(s), c, 'A', out); return () => {}; }, { opts: { maxSteps: 200 }, max: 5000, onExec: s => { const r = s.horizon ? ['no end'] : out.A ?? ['never settles']; if (!one(c).some(x => same(x, r))) one(c).push(r); } }); }
    const pairs = opts.pairs ?? calls.flatMap(a => calls.map(b => [a, b]));
    await t.explore(suite, pairs.map(([a, b]) => ({ a, b, n: `${a.n} and ${b.n}` })), (s, { a, b, n }) => {
        const lib = fresh(s), out = {}; start(s, lib, a, 'A', out); if (opts.late) s.event('start', () => start(s, lib, b, 'B', out)); else start(s, lib, b, 'B', out);
        const check = (c, w, l) => { const r = s.horizon ? ['no end'] : out[w] ?? ['never settles']; ok(one(c).some(x => same(x, r)), () => `${n}: ${l} call gave ${show(r)}, alone ${one(c).map(x => show(x)).join(' or ')}`); };
        return () => { check(a, 'A', 'the first'); check(b, 'B', 'the second'); };
    }, { maxSteps: 200, key: c => c.n, ...opts.explore });
}
// calls: { n, tree, run: (F, abs) => promise, result? } on trees under a/ and b/
async function overlapFs(t, suite, fx, F, calls, { deep = 14, pairs, chunks = null } = {}) {
    const settle = p => Promise.resolve(p).then(v => ['value', v], e => ['error', e]);
    const tick = () => new Promise(r => setImmediate(r));
    const once = async (list, choose, pick = (w, d) => w.findIndex(x => x.d === d)) => { // list: [[call, 'a'], [call, 'b']]; returns outcomes and trees
        fx.clean(); for (const [c, d] of list) { fx.build(d, {}); for (const k of Object.keys(c.tree)) fx.build(d + '/' + k, typeof c.tree[k] === 'object' && '->' in c.tree[k] ? { '->': c.tree[k]['->'] } : c.tree[k]); }
        fx.reset(); fx.chunks = chunks; const wait = []; let busy = 0, left = list.length; const out = {};
        fx.gate = async p => { const d = list.length === 1 ? list[0][1] : String(p ?? '').startsWith(fx.abs('b')) ? 'b' : 'a'; await new Promise(go => wait.push({ d, go })); busy++; return () => { busy--; }; };
        try {
            for (const [c, d] of list) settle((async () => c.run(F, p => fx.abs(d + '/' + p)))()).then(r => { out[d] = r; left--; });
            for (let idle = 0; left;) {
                for (let i = 0; i < 4; i++) await tick();
                if (busy) continue;
                if (!wait.length) { if (++idle > 2000) throw new Broken('a call never settles'); await new Promise(r => setTimeout(r, idle > 50 ? 2 : 0)); continue; }
                idle = 0; const who = [...new Set(wait.map(w => w.d))].sort(); const d = choose(who); const i = pick(wait, d); wait.splice(i, 1)[0].go();
            }
        } finally { fx.gate = null; fx.chunks = null; }
        fx.noEscape(); wait.splice(0).forEach(w => w.go()); for (let i = 0; fx.handles && i < 200; i++) await (i < 50 ? tick() : new Promise(r => setTimeout(r, 2))); eq(fx.handles, 0, 'files left open');
        const res = {}; for (const [, d] of list) { const v = out[d]; res[d] = [v[0] === 'error' ? 'error' : v, fx.snap(d)]; }
        return JSON.stringify(res, (k, v) => typeof v === 'string' ? v.split(fx.abs('b')).join('@').split(fx.abs('a')).join('@') : v === undefined ? '<undefined>' : v);
    };
    const solo = new Map(); for (const c of calls) { let n = 0; try { solo.set(c, [JSON.parse(await once([[c, 'a']], w => (n++, w[0]))).a, n]); } catch (e) { solo.set(c, [e, 1, true]); } }
    // one call alone: operations of its own that are under way together, in every order of up to two deviations, or always the latest first
    const ways = function* () { for (const c of calls) { if (solo.get(c)[2]) continue; yield [c, 'last']; for (let i = 0; i < solo.get(c)[1]; i++) yield [c, i]; } };
    await t.casesAsync(`${suite}: order of its own operations`, ways(), async ([c, way]) => {
        let step = 0, more = 0; const r = JSON.parse(await once([[c, 'a']], w => w[0], w => { if (w.length > 1) more++; return way === 'last' ? w.length - 1 : step++ === way ? w.length - 1 : 0; })).a;
        eq(r, solo.get(c)[0], () => `${c.n}, operations ${way === 'last' ? 'latest first' : `with the latest at turn ${way} first`}`); return `${c.n} ${way} ${more}`;
    }, { key: ([c, w]) => `${c.n} ${w}` });
    const many = function* () { for (const [a, b] of pairs ?? calls.flatMap(a => calls.map(b => [a, b]))) { const n = solo.get(a)[1] + solo.get(b)[1]; for (const first of ['a', 'b']) { yield [a, b, first]; for (let i = 1; i < n; i++) { yield [a, b, first, i]; if (n <= deep || t.thorough && n <= 3 * deep) for (let k = i + 1; k < n; k++) yield [a, b, first, i, k]; } } } };
    const label = ([a, b, first, ...at]) => `${a.n} and ${b.n}, ${first} first${at.length ? `, turns at ${at}` : ''}`;
    await t.casesAsync(suite, many(), async c => {
        const [a, b, first, ...at] = c; let step = 0, cur = first; for (const x of [a, b]) if (solo.get(x)[2]) throw solo.get(x)[0];
        const r = JSON.parse(await once([[a, 'a'], [b, 'b']], who => { if (at.includes(step++)) cur = cur === 'a' ? 'b' : 'a'; return who.includes(cur) ? cur : who[0]; }));
        eq(r.a, solo.get(a)[0], () => `${label(c)}: the first call`); eq(r.b, solo.get(b)[0], () => `${label(c)}: the second call`); return label(c);
    }, { key: label });
}
module.exports = { nested, overlap, overlapFs };
