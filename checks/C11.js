'use strict';
const { ok, eq, show } = require('../lib/util');
const { overlap } = require('../lib/overlap');
exports.technique = 'stateless model checking: every completion order and failure subset of the started callbacks under a controlled scheduler';
exports.bounds = 'arrays of length 0-4 (all 24 completion orders x failure subsets), lengths up to 101 (257 in thorough) with every choice of the one callback that is still running, holes and duplicates included; callbacks that are sync, promises or thenables; thorough adds length 5; two overlapping calls in every order of their settlements; every call of one inside each callback of another; up to 4100 callbacks settled in four orders';
exports.assumptions = ['the callback does not change the array while it is being walked'];
exports.run = async t => {
    const base = t.world(); base.load('@curong/array');
    const isArr = f => /packages\/array\//.test(f);
    const hole = n => { const h = Array.from({ length: n }, (_, i) => [null, 0, undefined, NaN][i % 4]); delete h[0]; h.length = n; return h; };
    const cfgs = function* () {
        for (let n = 0; n <= 4; n++) for (const arr of [Array.from({ length: n }, (_, i) => 'v' + i), ...(n ? [hole(n), Array(n).fill('dup')] : [])]) {
            const ks = n <= 2 ? [...t.words(['op', 'sync', 'thenable', 'throw'], n, n)] : n === 3 ? [...t.words(['op', 'sync'], n, n), ['op', 'thenable', 'op'], ['op', 'op', 'throw']] : [Array(n).fill('op')];
            for (const kinds of ks) { if (n === 4 && arr[0] !== 'v0') continue; yield { arr, kinds, fail: n < 4 || t.thorough }; }
            if (n === 4 && arr[0] === 'v0') { yield { arr, kinds: ['op', 'op', 'op', 'op'], fail: false }; yield { arr, kinds: ['op', 'sync', 'op', 'op'], fail: true }; }
        }
        // long arrays: every choice of the one callback that is still running when all others are done
        for (const n of t.thorough ? [5, 6, 7, 8, 9, 10, 11, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 129, 257] : [5, 6, 8, 9, 10, 11, 16, 17, 21, 33, 65, 101])
            for (let j = 0; j < n; j++) yield { arr: Array.from({ length: n }, (_, i) => i), kinds: Array.from({ length: n }, (_, i) => i === j ? 'op' : 'sync'), fail: true };
        if (t.thorough) yield { arr: [1, 2, 3, 4, 5], kinds: Array(5).fill('op'), fail: false };
    };
    const names = { eachParallel: [1, false], eachRightParallel: [-1, false], mapParallel: [1, true], mapRightParallel: [-1, true] };
    for (const [name, [dir, map]] of Object.entries(names)) await t.explore(name, cfgs(), (s, { arr, kinds, fail }) => {
        const f = base.fork({ fresh: isArr, mocks: s.timerMocks }).load('@curong/array')[name];
        const n = arr.length, problems = []; const want = (c, m) => { if (!c) problems.push(m); };
        let k = 0, pending = 0, first = null, settledOps = 0; const res = []; const thrower = kinds.includes('throw');
        const p = f(arr, (v, i, a) => {
            const wi = dir > 0 ? k : n - 1 - k; const slot = k; const kind = kinds[k]; k++;
            s.log('call', i); want(i === wi, `call ${slot} got index ${i}, expected ${wi}`); want(Object.is(v, arr[wi]), `value of call ${slot}`); want(a === arr, 'third argument'); want(settledOps === 0, `call ${slot} waited for another callback`);
            const val = [`r${i}`, undefined, 0, null, true][i % 5];
            if (kind === 'throw') { const e = new Error('t' + i); first = first ?? { e }; throw e; }
            if (kind === 'sync') { res[slot] = val; return val; }
            pending++; const e = i % 2 ? new Error('e' + i) : undefined;
            const q = s.op('c' + i, fail && !thrower ? [['ok', val], ['err', e]] : [['ok', val]], { onSettle: (kd, x) => { pending--; settledOps++; if (kd === 'err') first = first ?? { e: x }; else res[slot] = x; } });
            return kind === 'thenable' ? { then: (x, y) => q.then(x, y) } : q;
        });
        if (!thrower) want(k === n, `only ${k} of ${n} callbacks were started at once`);
        let settled = null;
        p.then(v => { settled = ['ok', v]; want(!pending, 'resolved while a callback is unsettled'); want(!first, 'resolved although a callback failed'); }, e => { settled = ['err', e]; });
        return () => {
            ok(!problems.length, problems[0]); ok(settled, 'never settled'); eq(s.unhandled, [], 'unhandled rejections');
            if (first) ok(settled[0] === 'err' && Object.is(settled[1], first.e), `first failure ${show(first.e)} not reported: ${show(settled)}`);
            else { ok(settled[0] === 'ok', show(settled)); if (map) { eq(settled[1], res, 'result'); eq(settled[1].length, n); } }
        };
    }, { maxSteps: 30 });
    // ---- two calls under way at the same time: every order in which their callbacks can settle
    const go = (name, arr, bad) => ({ n: `${name} of ${arr.length}${bad === undefined ? '' : ' failing'}`, run: async (lib, gate) => { const log = []; const r = await lib[name](arr.slice(), async (v, i, a) => { log.push([v, i, a.length]); return gate(bad === i ? { throw: arr } : 'r' + v); }); return [r, log]; } });
    for (const name of Object.keys(names)) {
        const C = [go(name, ['a', 'b', 'c']), go(name, ['p', 'q']), go(name, ['s', 't'], 1), go(name, [])];
        await overlap(t, `two ${name}`, s => base.fork({ fresh: isArr, mocks: s.timerMocks }).load('@curong/array'), C, { late: true, pairs: C.slice(0, 3).flatMap((a, i) => C.map(b => [a, b]).slice(i === 0 ? 1 : 0)) });
    }
    // ---- a call made inside a callback of another one, before or after that callback's own work
    const list = Object.keys(names);
    await t.explore('inside', t.product(list, list, [2, 3], [0, 1, 2], [1, 2]).filter(c => c[3] < c[2]).map(([outer, inner, n, k, m]) => ({ outer, inner, n, k, m })), (s, { outer, inner, n, k, m }) => {
        const lib = base.fork({ fresh: isArr, mocks: s.timerMocks }).load('@curong/array'), A = ['a', 'b', 'c'].slice(0, n), B = ['p', 'q'].slice(0, m), seen = []; let calls = 0, x = null, y = null, openIn = 0, openOut = 0, bad = null;
        lib[outer](A, (v, i) => {
            seen.push(v); openOut++; const own = () => s.op('o' + i, [['ok', 'r' + v]], { onSettle: () => { openOut--; } });
            if (calls++ !== k) return own();
            const q = lib[inner](B, (w, j) => { openIn++; seen.push(w); return s.op('i' + j, [['ok', 's' + w]], { onSettle: () => { openIn--; } }); }); q.then(r => { y = ['ok', r]; if (openIn) bad = 'the inner call ends too early'; }, e => { y = ['err', e]; });
            return own().then(async r => { await q; return r; });
        }).then(r => { x = ['ok', r]; if (openOut || !y) bad = 'the outer call ends too early'; }, e => { x = ['err', e]; });
        const l = `${inner} of ${m} inside callback ${k + 1} of ${outer} of ${n}`, dir = (a, nm) => names[nm][0] > 0 ? a.slice() : a.slice().reverse(), all = dir(A, outer); all.splice(k + 1, 0, ...dir(B, inner)); eq(seen, all, `${l}: callbacks started at once`);
        return () => { ok(!bad, `${l}: ${bad}`); eq(y, ['ok', names[inner][1] ? dir(B, inner).map(w => 's' + w) : undefined], `${l}: the inner call`); eq(x, ['ok', names[outer][1] ? dir(A, outer).map(w => 'r' + w) : undefined], `${l}: the outer call`); };
    }, { maxSteps: 30, key: c => JSON.stringify(c) });
    // ---- very many callbacks: all started at once, settled in four orders, with or without failures
    const L = base.load('@curong/array'), ORD = { forward: n => t.range(0, n - 1), backward: n => t.range(0, n - 1).reverse(), mixed: n => t.range(0, n - 1).map(i => (i * 7919) % n), halves: n => [...t.range(n >> 1, n - 1), ...t.range(0, (n >> 1) - 1)] };
    await t.casesAsync('many-far', Object.keys(names).flatMap(n => [260, 1025, 4100, ...(t.thorough ? [70000] : [])].flatMap(k => Object.keys(ORD).flatMap(o => [[], [k - 1], [k >> 1, 3], [0]].map(f => [n, k, o, f])))), async ([name, n, o, fails]) => {
        const [dir, m] = names[name], arr = t.range(0, n - 1), gates = [], l = `${name} of ${n}, settled ${o}, failing ${fails}`; let k = 0, bad = null, out = null, left = n;
        L[name](arr, (v, i, a) => { const w = dir > 0 ? k : n - 1 - k; k++; if (i !== w || v !== w || a !== arr) bad ??= `call ${k - 1} got ${v} at ${i}`; return new Promise((y, z) => { gates[i] = [y, z]; }); }).then(v => { out = ['ok', v, left]; }, e => { out = ['err', e, left]; });
        ok(!bad, `${l}: ${bad}`); eq(k, n, `${l}: callbacks started at once`); let first = null;
        for (const i of ORD[o](n)) { if (!first) { left--; } if (fails.includes(i)) { first ??= 'e' + i; gates[i][1]('e' + i); } else gates[i][0](i * 3); if (i % 257 === 0) { await null; await null; if (out && !first) ok(left === 0, `${l}: ended with ${left} callbacks unsettled`); } }
        for (let i = 0; i < 8; i++) await null; ok(out, `${l}: never ends`); if (first) return ok(out[0] === 'err' && out[1] === first, `${l}: ${show(out, 1)}`); eq(out[0], 'ok', l); eq(out[2], 0, `${l}: ended early`); if (m) { eq(out[1].length, n, l); for (let j = 0; j < n; j++) if (out[1][j] !== (dir > 0 ? j : n - 1 - j) * 3) ok(false, `${l}: result ${j} is ${out[1][j]}`); }
    });
};
