'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { nested, overlap } = require('../lib/overlap');
exports.technique = 'stateless model checking: every settlement schedule of the callbacks under a controlled scheduler, plus bounded exhaustive enumeration for the synchronous forms';
exports.bounds = 'arrays of length 0-4 (thorough 5) with holes, undefined and falsy elements; every per-element callback kind (sync value, explorer-settled promise, thenable, sync throw, rejection) and answer (true, truthy, falsy); long inputs (up to 130-1025 parts) in every simple arrangement; two overlapping calls in every order of their settlements; calls inside callbacks; arrays of up to 4100 (asynchronous) and 300000 (synchronous) elements, ending at six places';
exports.assumptions = ['the callback does not change the array while it is being walked'];
exports.run = async t => {
    const base = t.world(); base.load('@curong/array');
    const isArr = f => /packages\/array\//.test(f);
    const boom = [new Error('boom'), undefined, 'str'];
    const ARR = n => { const out = [Array.from({ length: n }, (_, i) => 'v' + i)]; if (n) { const h = Array.from({ length: n }, (_, i) => [0, undefined, NaN, null, ''][i % 5]); delete h[0]; if (n > 2) delete h[2]; h.length = n; out.push(h); const d = Array.from({ length: n }, () => 'dup'); out.push(d); } return out; };
    const ANS = [undefined, true, false, 1, 'true', null, {}, 0];
    const MAPV = [undefined, true, false, null, '', 'x', [1]];
    // ---- synchronous forms
    const A = base.load('@curong/array');
    const sync = { each: [1, false], eachRight: [-1, false], mapRight: [-1, true] };
    const N = t.thorough ? 5 : 4;
    for (const [name, [dir, map]] of Object.entries(sync)) t.cases(name, (function* () {
        for (let n = 0; n <= N; n++) for (const a of ARR(n)) for (const w of t.words(map ? [undefined, true, null, 'x', 'THROW'] : [undefined, true, 1, 'THROW'], n, n)) yield [a, w];
        for (const a of ANS) yield [[1, 2], [a, undefined]];
        if (A[name]) for (const n of [8, 33]) yield [Array.from({ length: n }, (_, i) => i), Array(n).fill(undefined)];
    })(), ([arr, answers]) => {
        const copy = arr.slice(); const log = []; const e = boom[arr.length % 3];
        const r = attempt(() => A[name](arr, (v, i, a) => { log.push([v, i]); ok(a === arr, 'third argument is not the array'); const x = answers[log.length - 1]; if (x === 'THROW') throw e; return x; }));
        const exp = []; let stop = false, threw = false;
        const n = arr.length;
        for (let k = 0; k < n && !stop; k++) { const i = dir > 0 ? k : n - 1 - k; exp.push([arr[i], i]); const x = answers[k]; if (x === 'THROW') { stop = threw = true; } else if (!map && x === true) stop = true; }
        eq(log, exp, 'calls');
        if (threw) ok(!r.ok && Object.is(r.error, e), `error lost: ${show(r)}`);
        else if (map) { ok(r.ok && Array.isArray(r.value), show(r)); eq(r.value, answers.slice(0, n), 'result'); ok(r.value !== arr, 'result is the input array'); }
        else ok(r.ok, show(r));
        eq(Object.keys(arr), Object.keys(copy), 'input array keys'); eq(arr, copy, 'input array');
    });
    // ---- asynchronous serial forms
    const asy = { eachAsync: [1, false], eachRightAsync: [-1, false], mapAsync: [1, true], mapRightAsync: [-1, true] };
    const cfgs = function* (map) {
        for (let n = 0; n <= (t.thorough ? 4 : 3); n++) for (const arr of ARR(n)) for (const kinds of t.words(['op', 'sync', 'thenable'], n, n)) {
            if (!t.thorough && n === 3 && new Set(kinds).size === 3 && arr[0] !== 'v0') continue;
            yield { arr, kinds };
        }
        yield { arr: ['a', 'b', 'c', 'd'], kinds: ['op', 'op', 'op', 'op'] };
        if (t.thorough) yield { arr: [1, 2, 3, 4, 5], kinds: ['op', 'op', 'op', 'op', 'op'] };
    };
    for (const [name, [dir, map]] of Object.entries(asy)) await t.explore(name, cfgs(map), (s, { arr, kinds }) => {
        const f = base.fork({ fresh: isArr, mocks: s.timerMocks }).load('@curong/array')[name];
        const n = arr.length, problems = []; const want = (c, m) => { if (!c) problems.push(m); };
        let k = 0, inflight = 0, over = null; const answers = []; const err = boom[n % 3];
        const done = (kind, v) => { inflight--; answers.push(kind === 'err' ? ['err'] : ['ok', v]); if (kind === 'err') over = 'err'; else if (!map && v === true) over = 'stop'; };
        const outs = map ? [['ok', undefined], ['ok', 'x'], ['err', err]] : [['ok', undefined], ['ok', true], ['ok', 1], ['err', err]];
        const p = f(arr, (v, i, a) => {
            const want_i = dir > 0 ? k : n - 1 - k;
            s.log('call', i); want(i === want_i, `call ${k} got index ${i}, expected ${want_i}`); want(Object.is(v, arr[want_i]), `call ${k} got ${show(v)}`); want(a === arr, 'third argument');
            want(inflight === 0, `call ${k} starts while the previous one is unsettled`); want(!over, `call ${k} after ${over}`); want(k < n, 'too many calls');
            const kind = kinds[k]; k++; inflight++;
            if (kind === 'sync') { const o = outs[s.choose(outs.length, 'sync' + i)]; done(o[0], o[1]); if (o[0] === 'err') throw o[1]; return o[1]; }
            const q = s.op('c' + i, outs, { onSettle: done });
            return kind === 'thenable' ? { then: (x, y) => q.then(x, y) } : q;
        });
        let settled = null; ok(p && typeof p.then === 'function', 'no promise');
        p.then(v => { settled = ['ok', v]; want(!inflight, 'resolved while a call is unsettled'); }, e => { settled = ['err', e]; });
        return () => {
            ok(!problems.length, problems[0]); ok(settled, 'never settled'); eq(s.unhandled, [], 'unhandled rejections');
            if (over === 'err') ok(settled[0] === 'err' && Object.is(settled[1], err), `failure lost: ${show(settled)}`);
            else { ok(settled[0] === 'ok', show(settled)); ok(over === 'stop' || k === n, `only ${k} of ${n} calls`); if (map) eq(settled[1], answers.map(x => x[1]), 'result'); }
        };
    }, { maxSteps: 30 });
    // long arrays, each call settling in its own step, a stop or a failure anywhere
    for (const [name, [dir, map]] of Object.entries(asy)) await t.explore(name + '-long', [9, 33, 130].flatMap(n => [-1, 0, 7, n >> 1, n - 1].flatMap(at => (map ? ['err'] : ['err', 'stop']).map(how => ({ n, at, how })))), (s, { n, at, how }) => {
        const f = base.fork({ fresh: isArr, mocks: s.timerMocks }).load('@curong/array')[name], arr = t.range(1, n), log = []; let flying = 0, bad = null, out = null;
        f(arr, (v, i, a) => { const k = log.length; log.push(i); if (flying++) bad = `call ${k} overlaps`; if (v !== i + 1 || a !== arr) bad = `call ${k} got ${v}, ${i}`; return s.op('c' + k, [k === at ? (how === 'err' ? ['err', boom[0]] : ['ok', true]) : ['ok', map ? 'r' + k : undefined]], { onSettle: () => { flying--; } }); }).then(v => { out = ['ok', v]; }, e => { out = ['err', e]; });
        return () => { ok(!bad, bad); const calls = at < 0 ? n : at + 1; eq(log, Array.from({ length: calls }, (_, k) => dir > 0 ? k : n - 1 - k), 'calls'); ok(out, 'never settles'); if (at >= 0 && how === 'err') ok(out[0] === 'err' && out[1] === boom[0], show(out)); else { eq(out[0], 'ok'); if (map) eq(out[1], Array.from({ length: n }, (_, k) => 'r' + k)); } };
    }, { maxSteps: 400 });
    // ---- a call inside the callback of another one, and two calls under way at the same time
    const walk = (name, arr, stop) => ({ n: `${name} of ${arr.length}`, run: hook => { const log = []; const r = A[name](arr.slice(), (v, i, a) => { log.push([v, i, a.length]); hook(); log.push([v, i]); if (stop === i) return true; return map(name) ? [v, i] : undefined; }); return [r, log]; } });
    const map = n => /^map/.test(n);
    nested(t, 'inside', ['each', 'eachRight', 'mapRight'].flatMap(n => [walk(n, ['a', 'b', 'c']), walk(n, ['p', 'q'], 1), walk(n, [])]), { max: 3 });
    const go = (name, arr, err) => ({ n: `${name} of ${arr.length}${err ? ' failing' : ''}`, run: async (lib, gate) => { const log = []; const r = await lib[name](arr.slice(), async (v, i, a) => { log.push([v, i, a.length]); const x = await gate(err === i ? { throw: boom[0] } : map(name) ? 'r' + v : i === err - 10 ? true : undefined); log.push([v, i]); return x; }); return [r, log]; } });
    for (const name of Object.keys(asy)) await overlap(t, `two ${name}`, s => base.fork({ fresh: isArr, mocks: s.timerMocks }).load('@curong/array'), [go(name, ['a', 'b', 'c']), go(name, ['p', 'q']), go(name, ['x', 'y', 'z'], 1), go(name, ['s', 't', 'u'], 11)], { late: true });
    // ---- very long arrays: every form, stopping or failing near the start, in the middle, near the end or not at all
    const far = n => [-1, 1, n >> 1, n - 130, n - 2, n - 1];
    const walkLong = (name, n, at, how, sync) => {
        const arr = Array.from({ length: n }, (_, i) => i * 2), right = /Right/.test(name), m = map(name); let k = 0, bad = null, over = false;
        const cb = (v, i, a) => { const w = right ? n - 1 - k : k; if (over) bad ??= `call ${k} after the end`; if (i !== w || v !== w * 2 || a !== arr) bad ??= `call ${k} got ${show(v)} at ${i}`; const here = k++ === at; if (here) { over = true; if (how === 'err') throw boom[0]; if (!m) return true; over = false; } return m ? -i : undefined; };
        const check = r => { const l = `${name} of ${n}, ${how} at ${at}`; ok(!bad, `${l}: ${bad}`); eq(k, at < 0 || m && how === 'stop' ? n : at + 1, `${l}: calls`); if (at >= 0 && how === 'err') return ok(!r.ok && r.error === boom[0], `${l}: ${show(r.ok)}`); ok(r.ok, `${l}: ${show(r.error)}`); if (m) { eq(r.value.length, n, `${l}: results`); for (let j = 0; j < n; j++) if (r.value[j] !== -(right ? n - 1 - j : j)) ok(false, `${l}: result ${j} is ${show(r.value[j])}`); } };
        return sync ? check(attempt(() => A[name](arr, cb))) : A[name](arr, async (v, i, a) => cb(v, i, a)).then(value => check({ ok: true, value }), error => check({ ok: false, error }));
    };
    const LENS = [260, 1025, 4100, ...(t.thorough ? [20000, 70000] : [])];
    t.cases('sync-far', Object.keys(sync).flatMap(n => [...LENS, 70000, 300000].flatMap(k => far(k).flatMap(at => ['err', 'stop'].map(how => [n, k, at, how])))), c => walkLong(...c, true));
    await t.casesAsync('async-far', Object.keys(asy).flatMap(n => LENS.flatMap(k => far(k).flatMap(at => ['err', 'stop'].map(how => [n, k, at, how])))), c => walkLong(...c, false));
};
