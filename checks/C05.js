'use strict';
const { ok, eq, fail, show } = require('../lib/util');
const { overlap } = require('../lib/overlap');
exports.technique = 'stateless model checking: all call histories interleaved with all completion orders and failures, against a reference cache';
exports.bounds = 'histories of up to 5 operations (thorough 6) over 2-3 keys (undefined, NaN, -0, objects), delete and clear at every point, expiry under a virtual clock, failing computations, custom cache containers; re-entrant computations over every acyclic graph of 4 keys; up to 1025 keys; two overlapping calls in every order of their settlements';
exports.assumptions = ['delete and clear concern stored entries: a computation in flight at that moment may or may not be stored afterwards'];
exports.run = async t => {
    const base = t.world(); base.load('@curong/function');
    const isFn = f => /packages\/function\//.test(f);
    let shared;
    const load = (s, own) => { if (!own && shared) return shared; const w = base.fork({ fresh: isFn, mocks: s ? s.timerMocks : {} }); const r = { sync: w.fn('function', 'memoizeWith', 'cache/memoizeWith.ts'), async: w.fn('function', 'memoizeWithAsync', 'cache/memoizeWithAsync.ts') }; if (!own) shared = r; return r; };
    const obj = { o: 1 }, obj2 = { o: 1 };
    const sameKey = (a, b) => a === b || (a !== a && b !== b);
    // ---- synchronous form
    const KEYSETS = [[1, 2, '1'], [undefined, null, 'undefined'], [NaN, 0, -0], [obj, obj2, '[object Object]'], ['__proto__', 'constructor', 'toString']];
    const runSync = (ops, { keys, multi, container, vals, throwAt = -1 }) => {
        const { sync: memoizeWith } = load(null, container);
        if (container) memoizeWith.cacheInitializer = container;
        let runs = 0; const log = [];
        const f = memoizeWith((...a) => { runs++; log.push(a); if (runs - 1 === throwAt) throw 'boom' + runs; return vals ? vals[runs % vals.length] : { run: runs, a }; }, multi ? (a, b) => keys[a] : a => a);
        const model = []; // [key, value]
        const find = k => model.findIndex(e => sameKey(e[0], k));
        let mruns = 0;
        ops.forEach((op, i) => {
            if (op.t === 'clear') { f.clear(); model.length = 0; return; }
            const k = keys[op.k]; const args = multi ? [op.k, i] : [k];
            if (op.t === 'del') { eq(f.delete(...args), undefined, 'delete()'); const j = find(k); if (j >= 0) model.splice(j, 1); return; }
            const j = find(k); const r = t.attempt(() => f(...args));
            if (j >= 0) { ok(runs === mruns, `op ${i}: computed again for key ${show(k)}`); ok(r.ok && Object.is(r.value, model[j][1]), `op ${i}: got ${show(r)}, cached ${show(model[j][1])}`); return; }
            mruns++;
            ok(runs === mruns, `op ${i}: ${runs} computations, expected ${mruns}`);
            eq(log.at(-1), args, 'arguments of the computation');
            if (throwAt === mruns - 1) { ok(!r.ok && r.error === 'boom' + mruns, `op ${i}: ${show(r)}`); return; }
            ok(r.ok, `op ${i}: threw ${show(r.error)}`);
            if (vals) ok(Object.is(r.value, vals[mruns % vals.length]), `op ${i}: value`); else ok(r.value.run === mruns, `op ${i}: value of run ${r.value.run}`);
            model.push([k, r.value]);
        });
        eq(f.cache.size, model.length, 'entries in the cache');
        model.forEach(([k]) => ok(f.cache.has(k), 'cache.has'));
        return `${ops.map(o => o.t + (o.k ?? '')).join()} ${mruns}`;
    };
    const OPS = [{ t: 'call', k: 0 }, { t: 'call', k: 1 }, { t: 'call', k: 2 }, { t: 'del', k: 0 }, { t: 'del', k: 1 }, { t: 'clear' }];
    const W = [...t.words(OPS, 1, t.thorough ? 6 : 5)];
    t.cases('sync', W, ops => runSync(ops, { keys: KEYSETS[0] }));
    const W3 = W.filter(w => w.length <= 4);
    for (const [i, keys] of KEYSETS.entries()) if (i) t.cases('sync-keys' + i, W3, ops => runSync(ops, { keys }));
    t.cases('sync-harsher', W3, ops => runSync(ops, { keys: [7, 8, 7], multi: true }));
    t.cases('sync-falsy', W3, ops => runSync(ops, { keys: KEYSETS[0], vals: [undefined, 0, null, NaN, ''] }));
    t.cases('sync-throw', t.product(W3.filter(w => w.length > 1), [0, 1, 2]), ([ops, throwAt]) => runSync(ops, { keys: KEYSETS[0], throwAt }));
    class MyMap extends Map {}
    t.cases('sync-container', W3.filter(w => w.length <= 3), ops => runSync(ops, { keys: KEYSETS[0], container: MyMap }));
    const wm = load(null, 1).sync; wm.cacheInitializer = MyMap; t.cases('container-used', [0], () => ok(wm(x => x, x => x).cache instanceof MyMap, 'custom container not used'));
    t.cases('independent', W3.filter(w => w.length <= 3 && w.every(o => o.t === 'call')), ops => {
        const { sync } = load(); let n = 0; const a = sync(x => ['a', x, ++n], x => x), b = sync(x => ['b', x, ++n], x => x);
        for (const o of ops) { eq(a(o.k)[0], 'a'); eq(b(o.k)[0], 'b'); ok(a(o.k) === a(o.k)); }
        a.clear(); const before = n; for (const o of ops) b(o.k); eq(n, before, 'clearing one cache affected another');
    });
    // ---- expiry (sync and async), virtual clock
    const EX = [];
    for (const kind of ['sync', 'async']) for (const ttl of [undefined, -1, 0, 1, 5, 5.5, NaN, '5']) for (const gaps of t.words([0, 1, 4, 5, 6], 2, 3)) EX.push({ kind, ttl, gaps });
    await t.explore('expiry', EX, (s, { kind, ttl, gaps }) => {
        let runs = 0, now = 0, exp = null, stepNo = 0; const bad = [];
        const f = load(s)[kind](() => ++runs, x => x, ttl);
        const timed = Number.isInteger(ttl);
        const calls = [];
        const go = () => { const r0 = runs; const p = f('k'); calls.push([s.now, r0, runs]); return p; };
        let at = 0; gaps = [0, ...gaps];
        gaps.forEach((g, i) => { at += g; s.event('call' + i, () => { const p = go(); Promise.resolve(p).then(v => calls[i].push(v)); }, { at, enabled: () => calls.length === i }); });
        return () => {
            let stored = null, n = 0;
            calls.forEach(([now, r0, r1, v], i) => {
                if (stored && (!timed || now <= stored.until)) { ok(r0 === r1, `call ${i} at ${now} computed again (stored at ${stored.at}, ttl ${show(ttl)})`); eq(v, stored.v, `call ${i}`); }
                else { ok(r1 === r0 + 1, `call ${i} at ${now} returned an expired value (stored at ${stored && stored.at}, ttl ${show(ttl)})`); stored = { v: r1, at: now, until: now + ttl }; eq(v, r1, `call ${i}`); }
            });
            eq(calls.length, gaps.length);
        };
    });
    // ---- expiry of the asynchronous form: overlapping callers while a value is computed anew
    const EA = [];
    for (const ttl of [-1, 0, 4]) for (const d of [2, 5]) for (const gaps of t.words([0, 1, 3, 7], 2, t.thorough ? 4 : 3)) EA.push({ ttl, d, gaps });
    await t.explore('async-expiry', EA, (s, { ttl, d, gaps }) => {
        const runs = [], calls = [], bad = [];
        const f = load(s).async(() => {
            if (runs.some(r => r.end === undefined)) bad.push('two computations of the same key at the same time');
            const r = { start: s.now, v: { n: runs.length } }; runs.push(r);
            return s.op('c' + runs.length, [['ok', r.v], ['err', r.v]], { at: d, onSettle: kind => { r.end = s.now; r.kind = kind; } });
        }, x => x, ttl);
        let at = 0; [0, ...gaps].forEach((g, i) => { at += g; s.event('call' + i, () => {
            const c = { now: s.now, n: runs.length, flying: runs.find(r => r.end === undefined), done: runs.filter(r => r.kind === 'ok').at(-1) }; calls.push(c);
            f('k').then(v => { c.out = ['ok', v]; }, v => { c.out = ['err', v]; }); c.own = runs[c.n];
        }, { at, enabled: () => calls.length === i }); });
        return () => {
            if (bad.length) fail(bad[0]);
            calls.forEach((c, i) => {
                ok(c.out, `call ${i} never settles`);
                const fresh = c.done && c.now <= c.done.end + ttl, src = fresh ? c.done : c.flying ?? c.own;
                ok(!(fresh || c.flying) || !c.own, () => `call ${i} at ${c.now} computes anew (${fresh ? 'a fresh value is stored' : 'a computation is in flight'})`);
                ok(src, `call ${i} at ${c.now} computes nothing although nothing fresh is stored (ttl ${ttl})`);
                ok(c.out[0] === src.kind && c.out[1] === src.v, () => `call ${i}: got ${show(c.out)}, expected ${show([src.kind, src.v])}`);
            });
        };
    });
    // ---- asynchronous form
    const AOPS = [{ t: 'call', k: 0 }, { t: 'call', k: 1 }, { t: 'del', k: 0 }, { t: 'clear' }];
    const scenario = cfg => s => {
        const { ops, keys = ['x', 'y'], fails = true, sync, falsy } = cfg;
        const runs = []; const bad = [];
        const m = load(s, cfg.container).async;
        if (cfg.container) m.cacheInitializer = cfg.container;
        const f = m((...a) => {
            const k = a[0]; const r = { k, id: runs.length, done: false }; 
            if (runs.some(x => !x.done && sameKey(x.k, k))) bad.push(`two computations of key ${show(k)} at the same time`);
            // an entry that is surely stored must not be computed again
            const st = surely(k); if (st) bad.push(`key ${show(k)} computed again although it is cached`);
            runs.push(r); cause.push(r.id);
            const v = falsy ? [undefined, null, 0][r.id % 3] : { run: r.id };
            r.v = v;
            if (sync) { r.done = true; r.ok = s.choose(fails ? 2 : 1, 'sync') === 0; if (!r.ok) { throw (r.e = 'syncfail' + r.id); } r.sure = !tainted(r); return v; }
            return s.op('c' + r.id, fails ? [['ok', v], ['err', 'fail' + r.id]] : [['ok', v]], { onSettle: (kind, x) => { r.done = true; r.ok = kind === 'ok'; r.e = x; r.at = ++clock; } });
        }, a => a);
        let clock = 0, cause = []; const calls = []; const wipes = [];
        const tainted = () => false;
        // computations whose value must still be stored: succeeded, and no delete/clear since the computation began
        const surely = k => { const r = runs.filter(x => sameKey(x.k, k) && x.done && x.ok).at(-1); return r && !r.wiped ? r : null; };
        let nextI = 0;
        ops.forEach((op, i) => s.event('op' + i, () => {
            nextI = i + 1;
            const wipe = r => { r.wiped = true; if (r.done) r.gone = true; };
            if (op.t === 'clear') { runs.forEach(wipe); f.clear(); if (f.cache.size) bad.push('entries left after clear()'); return; }
            const k = keys[op.k];
            if (op.t === 'del') { runs.forEach(r => { if (sameKey(r.k, k)) wipe(r); }); f.delete(k); if (f.cache.has(k)) bad.push(`entry of ${show(k)} left after delete()`); return; }
            const n0 = runs.length; const c = { i, k, inflight: runs.find(r => !r.done && sameKey(r.k, k)), stored: surely(k), maybe: runs.filter(r => sameKey(r.k, k) && r.done && r.ok && !r.gone) };
            if (c.stored && !f.cache.has(k)) bad.push(`no entry of ${show(k)} although its value is stored`);
            c.p = f(k); c.own = runs.length > n0 ? runs[n0] : null;
            c.p.then(v => c.out = ['ok', v], e => c.out = ['err', e]); calls.push(c);
        }, { enabled: () => nextI === i }));
        return () => {
            if (bad.length) fail(bad[0]);
            for (const c of calls) {
                ok(c.out, `call ${c.i} never settles`);
                const from = r => r.ok ? ['ok', r.v] : ['err', r.e];
                const is = r => { const [k, v] = from(r); return c.out[0] === k && Object.is(c.out[1], v); };
                if (c.own) ok(is(c.own), `call ${c.i} gave ${show(c.out)} but its computation gave ${show(from(c.own))}`);
                else if (c.inflight && !c.stored) ok(is(c.inflight) || c.maybe.some(is), `call ${c.i} gave ${show(c.out)} but the computation in flight gave ${show(from(c.inflight))}`);
                else if (c.stored) ok(is(c.stored), `call ${c.i} gave ${show(c.out)} instead of the cached ${show(c.stored.v)}`);
                else ok(c.maybe.some(is), `call ${c.i} gave ${show(c.out)} without computing`);
                if (c.inflight) ok(!c.own || c.inflight.wiped, 'computed while in flight');
            }
            return;
        };
    };
    // ---- computations that call the cached function again: every acyclic graph of keys over 4 nodes, each node computed once whoever asks
    const EDGES = [[1, 0], [2, 0], [2, 1], [3, 0], [3, 1], [3, 2]], GRAPHS = [...t.subsets(EDGES)].map(es => [0, 1, 2, 3].map(n => es.filter(e => e[0] === n).map(e => e[1])));
    const reach = (g, n, o = new Set()) => { if (!o.has(n)) { o.add(n); g[n].forEach(d => reach(g, d, o)); } return o; }, total = (g, n) => 1 + g[n].reduce((x, d) => x + total(g, d), 0);
    t.cases('recursive', t.product(GRAPHS, [...t.words([0, 1, 2, 3], 1, t.thorough ? 4 : 3)], [undefined, 1000]), ([g, roots, ttl]) => {
        const runs = [0, 0, 0, 0], want = new Set(); const f = load().sync(n => { runs[n]++; return g[n].reduce((x, d) => x + f(d), 1); }, n => n, ttl);
        for (const r of roots) { eq(f(r), total(g, r), `value of ${r} in ${show(g)}`); reach(g, r, want); }
        eq(runs, [0, 1, 2, 3].map(n => +want.has(n)), `computations for calls of ${roots} in ${show(g)}`); eq(f.cache.size, want.size); return show([g, roots]);
    });
    await t.explore('recursive-async', [...t.product(GRAPHS.filter(g => g[3].length || g[2].length), [...t.words([3, 2], 1, 2)])].map(([g, roots]) => ({ g, roots })), (s, { g, roots }) => {
        const runs = [0, 0, 0, 0], out = []; const f = load(s).async(async n => { runs[n]++; let x = 1; for (const v of await Promise.all(g[n].map(d => f(d)))) x += v; if (g[n].length < 2) await s.op('n' + n, [['ok', 0]]); return x; }, n => n);
        roots.forEach((r, i) => s.event('call' + i, () => f(r).then(v => { out[i] = v; })));
        return () => { const want = new Set(); roots.forEach((r, i) => { eq(out[i], total(g, r), `value of ${r} in ${show(g)}`); reach(g, r, want); }); eq(runs, [0, 1, 2, 3].map(n => +want.has(n)), `computations for calls of ${roots} in ${show(g)}`); };
    });
    // ---- many keys at the same time
    t.cases('many', t.product([9, 17, 33, 65, 130, 1025], [undefined, 1000], ['n', 's', 'o']), ([n, ttl, kind]) => {
        const keys = t.range(0, n - 1).map(i => kind === 'n' ? i : kind === 's' ? 'k' + i : { i }), runs = new Map(); const f = load().sync(k => { runs.set(k, (runs.get(k) || 0) + 1); return { k, n: runs.get(k) }; }, k => k, ttl), first = keys.map(k => f(k));
        eq(f.cache.size, n); for (let r = 0; r < 2; r++) keys.forEach((k, i) => ok(f(k) === first[i] && first[i].k === k, `key ${i} of ${n}`)); keys.forEach(k => eq(runs.get(k), 1, 'computations'));
        const gone = keys.filter((_, i) => i % 3 === 1); gone.forEach(k => f.delete(k)); eq(f.cache.size, n - gone.length); keys.forEach((k, i) => { const v = f(k); if (i % 3 === 1) ok(v !== first[i] && v.n === 2); else ok(v === first[i]); }); f.clear(); eq(f.cache.size, 0); keys.forEach(k => { const before = runs.get(k); f(k); eq(runs.get(k), before + 1); });
    });
    await t.casesAsync('many-async', t.product([9, 17, 33, 65, 130, 1025], ['n', 'o'], ['all', 'reverse', 'fail']), async ([n, kind, how]) => {
        const keys = t.range(0, n - 1).map(i => kind === 'n' ? i : { i }), runs = keys.map(() => 0), done = [];
        const f = load().async(k => { const i = kind === 'n' ? k : k.i; runs[i]++; return new Promise((a, b) => { done[i] = how === 'fail' && i % 2 ? () => b(i) : () => a({ i }); }); }, k => k);
        const calls = [...keys, ...keys].map(k => f(k)), all = Promise.allSettled(calls); await null; eq(runs, keys.map(() => 1), 'computations while all are in flight');
        (how === 'reverse' ? done.slice().reverse() : done).forEach(d => d()); const r = await all; r.forEach((x, j) => { const i = j % n, bad = how === 'fail' && i % 2; if (bad) ok(x.status === 'rejected' && x.reason === i); else ok(x.status === 'fulfilled' && x.value.i === i && x.value === r[i].value); });
        const again = await Promise.all(keys.filter((_, i) => !(how === 'fail' && i % 2)).map(k => f(k))); ok(again.every(v => v === r[v.i].value)); eq(runs.reduce((a, b) => a + b), n, 'computations in all');
    });
    const go = (suite, cfgs) => t.explore(suite, cfgs, (s, c) => scenario(c)(s), { maxSteps: 60 });
    const words = (n, m) => [...t.words(AOPS, n, m)].filter(w => w.some(o => o.t === 'call') && w[0].t === 'call' && w.at(-1).t === 'call');
    await go('async', words(1, t.thorough ? 5 : 4).map(ops => ({ ops })));
    await go('async-calls', [...t.words(AOPS.slice(0, 2), 5, t.thorough ? 6 : 5)].filter(w => w[0].k === 0).map(ops => ({ ops, fails: true })));
    await go('async-falsy', words(1, 3).map(ops => ({ ops, falsy: true })));
    await go('async-sync', words(1, 4).map(ops => ({ ops, sync: true })));
    for (const keys of [[NaN, undefined], [obj, obj2], [0, '0'], ['__proto__', 'constructor']]) await go('async-keys ' + show(keys), words(2, 3).map(ops => ({ ops, keys })));
    await go('async-container', words(2, 3).map(ops => ({ ops, container: MyMap })));
    // ---- two caches of asynchronous functions in use at the same time, same keys, calls at any moment
    const pair = (n, ttl, keys, bad) => ({ n, run: async (lib, gate, s) => {
        const runs = []; const f = lib(k => { const i = runs.push(k) - 1; return gate(bad === i ? { throw: n } : [n, k, i]); }, k => k, ttl);
        const log = await Promise.allSettled(keys.map(k => f(k))); const more = await Promise.allSettled(keys.map(k => f(k))); f.delete(keys[0]); return [log, more, runs, [...f.cache.keys()]];
    } });
    await overlap(t, 'async-independent', s => load(s, 1).async, [pair('a', undefined, [1, 1]), pair('b', 1000, [1, 2]), pair('c', undefined, [2, 1], 0), pair('d', 1000, [1])], { late: true });
    t.cases('independent-many', t.words([0, 1, 2], 1, t.thorough ? 8 : 6), w => {
        const { sync } = load(null, 1), runs = [0, 0, 0], fs = [sync(k => ['a', k, ++runs[0]], k => k), sync(k => ['b', k, ++runs[1]], k => k, 1000), sync(k => ['c', k, ++runs[2]], k => k)];
        w.forEach((i, at) => { const v = fs[i](at % 2); eq(v.slice(0, 2), ['abc'[i], at % 2], `call ${at} of ${w}`); ok(v[2] <= 2, `computed again at call ${at} of ${w}`); }); fs[w[0]].clear(); fs.forEach((f, i) => { if (i !== w[0]) eq(f.cache.size, new Set(w.flatMap((x, at) => x === i ? [at % 2] : [])).size, `keys of ${i} after ${w}`); else eq(f.cache.size, 0); });
    });
};
