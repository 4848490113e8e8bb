'use strict';
const { ok, eq, fail, show, attempt } = require('../lib/util');
const { overlap } = require('../lib/overlap');
exports.technique = 'stateless model checking: all schedules of timers, settlements and clears of the real code under a virtual clock';
exports.bounds = 'up to 3 concurrent timers with every clear point; timeoutOr with every settlement time around the limit, all outcome kinds and same-time ties; durations at every boundary of the 32-bit range and every form of a duration; nextTick in 5 host environments with nested calls; up to 1025 nextTick callbacks in five arrangements; two overlapping calls in every order of their settlements';
exports.assumptions = ['the host clamps timer delays as Node does and fires timers in due order', 'local time zone has no offset change between 2000-01-01 and 2000-01-26'];
const MAX = 2147483647;
exports.run = async t => {
    const base = t.world(); base.load('@curong/function');
    const fresh = s => base.fork({ fresh: f => /packages\/function\//.test(f), mocks: s.timerMocks }).load('@curong/function');
    // -- setTimeout: fires once, at the due time, with its arguments; clearing is final
    const T = [];
    const durs = [0, 1, 2, 1000, MAX - 1, MAX];
    for (const a of durs) T.push([{ d: a, args: [] }], [{ d: a, args: [1, undefined, 'x'] }]);
    for (const a of [0, 1, 3]) for (const b of [0, 1, 3, 4]) T.push([{ d: a, args: ['a'] }, { d: b, args: ['b'] }]);
    for (const a of [1, 2]) for (const b of [1, 2]) for (const c of [1, 2]) T.push([{ d: a, args: ['a'] }, { d: b, args: ['b'] }, { d: c, args: ['c'] }]);
    await t.explore('timers', T, (s, list) => {
        const f = fresh(s); const log = list.map(() => []);
        const cleared = list.map(() => null);
        list.forEach((x, i) => {
            const h = f.setTimeout((...a) => log[i].push([s.now, a]), x.d, ...x.args);
            s.event('clear' + i, () => { if (log[i].length === 0) cleared[i] = s.now; clearTimeout(h); }, list.length < 3 || i === 0 ? { at: Math.min(2, x.d) } : { enabled: () => false });
        });
        return () => list.forEach((x, i) => {
            if (cleared[i] !== null) eq(log[i], [], `timer ${i} fired after being cleared`);
            else eq(log[i], [[Math.max(1, x.d), x.args]], `firings of timer ${i} of ${x.d} ms`);
        });
    });
    // -- durations: every form resolves to the documented number or throws a TypeError, and no timer is set then
    const R = [0, 0.5, 0.9999999999];
    const NUMS = [0, 1, 999, 1000, MAX - 1, MAX, -1, -1000, -0, '0', '1', '1000', String(MAX), '-5', ' 7 '];
    const BAD = [MAX + 1, 2 ** 32, 2 ** 31 + 5, Number.MAX_SAFE_INTEGER, 1.5, -1.5, NaN, Infinity, -Infinity, 'x', '1.5', 'NaN', null, undefined, true, Symbol('s'), {}, 2 ** 53, 10n, [], ['x'], { start: NaN }, { start: 0, end: NaN }, { start: NaN, end: 3 }, { start: MAX + 1, end: MAX + 1 }];
    const val = x => Number(x) < 0 ? 0 : Math.max(0, Number(x));
    const good = [];
    for (const n of NUMS) good.push([n, [val(n), val(n)]], [() => n, [val(n), val(n)]], [[n], [val(n), val(n)]], [[n, n], [val(n), val(n)]]);
    for (const [a, b] of [[0, 3], [3, 0], [2, 2], [0, 1], [5, 9], [MAX - 3, MAX], [-5, -1], [-3, 3]]) for (const w of [x => x, x => [x], x => () => x]) good.push([w({ start: a, end: b }), [val(Math.min(a, b)), val(Math.max(a, b))]]);
    good.push([{ start: 4 }, [0, 4]], [{ end: 4 }, [0, 4]], [[1, 5], [1, 5], [1, 5]], [[1, 5, 9], [1, 9], [1, 5, 9]]);
    const { timeoutMsResolve } = base.load('@curong/function');
    t.cases('resolve', t.product(good, R), ([[d, [lo, hi], set], r]) => {
        const save = Math.random; Math.random = () => r;
        try {
            const v = timeoutMsResolve(d);
            ok(Number.isInteger(v) && v >= lo && v <= hi, `${show(d)} resolves to ${v}, expected ${lo}..${hi}`);
            if (set) ok(set.includes(v), `${v} is not an element of ${show(d)}`);
            return String(v);
        } finally { Math.random = save; }
    });
    t.cases('range-ends', [[{ start: 0, end: 3 }, [0, 1, 2, 3]], [{ start: 3, end: 0 }, [0, 1, 2, 3]], [[7, 8], [7, 8]], [[4, 5, 6], [4, 5, 6]]], ([d, want]) => {
        const save = Math.random; const got = new Set();
        try { for (let i = 0; i < 240; i++) { Math.random = () => i / 240; got.add(timeoutMsResolve(d)); } } finally { Math.random = save; }
        eq([...got].sort(), want, `values reachable from ${show(d)}`);
    });
    const bad = [];
    for (const b of BAD) { if (b === undefined || (typeof b === 'object' && b && !Array.isArray(b) && !Object.keys(b).length)) { if (b === undefined) bad.push([() => b], [[b]]); continue; } bad.push([b]); if (!Array.isArray(b)) bad.push([[b]]); bad.push([() => b]); }
    await t.explore('invalid', bad, (s, [d]) => {
        const f = fresh(s);
        const a = attempt(() => f.timeoutMsResolve(d)); ok(!a.ok, () => `${show(d)} resolves to ${show(a.value)}`);
        const b = attempt(() => f.setTimeout(() => fail('fired'), d)); ok(!b.ok, 'setTimeout accepts it');
        let c, e, fb = 0; f.timeoutOr(d, () => new Promise(() => {}), () => { fb++; }).then(v => c = ['ok', v], x => c = ['err']);
        f.delay(d).then(v => e = ['ok', v], x => e = ['err']);
        return () => { ok(!fb, 'fallback ran'); eq(c, ['err'], 'timeoutOr'); eq(e, ['err'], 'delay'); ok(s.now === 0, 'a timer was set'); };
    });
    // -- timeoutOr
    const O = [];
    for (const limit of [0, 1, 2, 5, MAX]) for (const at of limit === MAX ? [MAX - 1, MAX, undefined] : [0, limit, limit - 1, limit + 1, undefined]) for (const kind of ['fn', 'prom']) for (const fb of ['none', 'null', 'value', 'zero', 'fn', 'throw', 'prom', 'async']) if (at === undefined || at >= 0) O.push({ limit, at, kind, fb });
    for (const kind of ['sync', 'syncthrow', 'never']) for (const limit of [0, 3]) for (const fb of ['none', 'value', 'fn', 'throw', 'async']) O.push({ kind, limit, fb });
    await t.explore('timeoutOr', O, (s, { limit, at, kind, fb }) => {
        const f = fresh(s); const calls = [], fbs = []; let first = null, settled = null, err = new Error('task'), fberr = new Error('fb');
        const mk = () => s.op('task', [['ok', 0], ['err', err]], { at, onSettle: (k, v) => { first ||= { who: 'task', k, v, at: s.now }; } });
        const argv = [1, undefined, 'z'];
        const task = kind === 'fn' ? (...a) => { calls.push(a); return mk(); } : kind === 'prom' ? mk() : kind === 'sync' ? (...a) => { calls.push(a); first = { who: 'task', k: 'ok', v: null, at: 0 }; return null; } : kind === 'never' ? (...a) => { calls.push(a); return new Promise(() => {}); } : (...a) => { calls.push(a); first = { who: 'task', k: 'err', v: err, at: 0 }; throw err; };
        const F = { none: [undefined], null: [null], value: ['alt'], zero: [0], fn: [(...a) => { fbs.push([s.now, a]); return 'fbv'; }], throw: [(...a) => { fbs.push([s.now, a]); throw fberr; }], prom: [Promise.resolve('pv')], async: [(...a) => { fbs.push([s.now, a]); return s.op('fb', [['ok', 'fbv'], ['err', fberr]], { onSettle: (k, v) => s.fb = [k, v] }); }] }[fb];
        f.timeoutOr(limit, task, F[0], ...argv).then(v => settled = ['ok', v, s.now], e => settled = ['err', e, s.now]);
        return () => {
            ok(settled, 'timeoutOr never settles');
            if (kind !== 'prom') eq(calls, [argv], 'calls of the task');
            const trace = s.trace.map(x => x[1]);
            const lim = Math.max(1, limit);
            // the task wins iff it settled before the limit passed (at the same instant: whichever came first)
            const ti = s.trace.findIndex(x => x[1] === 'settle' && x[2] === 'task'), li = s.trace.findIndex(x => x[1] === 'timer');
            const taskFirst = first && (kind === 'sync' || kind === 'syncthrow' || (first.at < lim || (first.at === lim && (li < 0 || ti < li))));
            if (taskFirst) {
                ok(settled[0] === first.k && Object.is(settled[1], first.v) && settled[2] === first.at, `task settled ${show(first)} but timeoutOr gave ${show(settled)}`);
                eq(fbs, [], 'fallback calls');
                eq(s.timers.length, 0, 'timers left behind');
                ok(li < 0, 'the timer was not cleared: it fired');
            } else {
                const exp = { none: ['ok', undefined], null: ['ok', null], value: ['ok', 'alt'], zero: ['ok', 0], fn: ['ok', 'fbv'], throw: ['err', fberr], prom: ['ok', 'pv'], async: s.fb }[fb];
                ok(settled[0] === exp[0] && Object.is(settled[1], exp[1]), `after the limit: got ${show(settled)}, expected ${show(exp)}`);
                ok(settled[2] >= lim && (fb === 'async' || settled[2] === lim), `settled at ${settled[2]} with limit ${limit}`);
                if (['fn', 'throw', 'async'].includes(fb)) eq(fbs, [[lim, argv]], 'fallback calls');
                eq(s.timers.length, 0, 'timers left behind');
            }
        };
    });
    // -- clearTimeoutAll on a host with numeric timer ids
    await t.explore('clearAll', [...t.words([0, 1, 5], 0, 3)], (s, list) => {
        const f = fresh(s); const fired = []; let after = 0;
        const g = globalThis.setTimeout; globalThis.setTimeout = (...a) => g(...a).id;
        list.forEach((d, i) => f.setTimeout(() => fired.push(i), d));
        let clearedAt = -1; const before = () => fired.length;
        let n = -1;
        s.event('clearAll', () => { n = fired.length; f.clearTimeoutAll(); f.setTimeout(() => after++, 2); }, { at: 1 });
        return () => { ok(fired.length === n, 'a timer fired after clearTimeoutAll'); eq(after, 1, 'firings of a timer set afterwards'); };
    });
    // -- timeoutLog
    const { timeoutLog } = base.load('@curong/function');
    const H = 36e5, D = 864e5, two = n => String(n).padStart(2, '0');
    const ds = t.thorough ? [0, 1, 2, 9, 10, 99, 100, 999] : [0, 1, 10, 999];
    const L = [];
    for (const day of t.range(0, 24)) for (const h of [0, 1, 9, 10, 12, 20, 23]) for (const m of [0, 1, 10, 59]) for (const sec of [0, 1, 30, 59]) for (const ms of ds) { const v = day * D + h * H + m * 6e4 + sec * 1e3 + ms; if (v <= MAX) L.push(v); }
    t.cases('log', t.concat(L, t.range(0, 1100), [MAX, MAX - 1]), v => {
        const out = []; const save = console.log; console.log = (...a) => out.push(a);
        try { timeoutLog(v, '<{}|{}>'); timeoutLog(v); } finally { console.log = save; }
        const day = Math.floor(v / D), r = v % D, hh = Math.floor(r / H), mm = Math.floor(r / 6e4) % 60, ss = Math.floor(r / 1e3) % 60, ms = v % 1000;
        const tail = ms ? '.' + String(ms).padStart(3, '0') : '', clock = `${two(hh)}:${two(mm)}:${two(ss)}`;
        const exp = v < 1000 ? `${v}ms` : !day ? clock + tail : r - ms === 0 ? (ms ? null : `${day}天`) : `${day}天 ${clock}${tail}`;
        if (exp !== null) eq(out, [[`<${exp}|${exp}>`], [`等待 ${exp}`]], `log of ${v}`); else ok(String(out[1]).startsWith(`等待 ${day}天`), String(out[1]));
    });
    t.cases('log-invalid', [-1, 1.5, NaN, Infinity, -Infinity, MAX + 1, '5', null, undefined, {}, 5n], v => {
        const out = []; const save = console.log; console.log = (...a) => out.push(a);
        let a; try { a = attempt(() => timeoutLog(v)); } finally { console.log = save; }
        ok(!a.ok, `${show(v)} accepted`); eq(out, []);
    });
    // -- nextTick: asynchronous, once each, in order, in every host environment
    class MO {
        constructor(cb) { this.cb = cb; }
        observe(n) { let d = n.data; Object.defineProperty(n, 'data', { get: () => d, set: v => { d = String(v); if (!this.q) { this.q = true; Promise.resolve().then(() => { this.q = false; try { this.cb([]); } catch (e) { MO.thrown.push(e); } }); } } }); }
    }
    const ENVS = { node: {}, micro: { process: undefined }, observer: { process: undefined, queueMicrotask: undefined, MutationObserver: MO, document: { createTextNode: d => ({ data: d }) } }, webkit: { process: undefined, queueMicrotask: undefined, WebKitMutationObserver: MO, document: { createTextNode: d => ({ data: d }) } }, immediate: { process: undefined, queueMicrotask: undefined }, timeout: { process: undefined, queueMicrotask: undefined, setImmediate: undefined } };
    // a program is a forest of callbacks: nested[i] lists the callbacks scheduled from inside callback i
    const shapes = [];
    const build = n => { const out = []; const rec = (i, parent) => { if (i === n) return out.push(parent.slice()); for (let p = -1; p < i; p++) { parent.push(p); rec(i + 1, parent); parent.pop(); } }; rec(0, []); return out; };
    for (const n of [1, 2, 3, 4, ...(t.thorough ? [5] : [])]) shapes.push(...build(n));
    const scene = (s, [env, parent, bad]) => {
        const g = globalThis; const saved = {};
        for (const k of Object.keys(ENVS[env])) { saved[k] = Object.getOwnPropertyDescriptor(g, k); Object.defineProperty(g, k, { value: ENVS[env][k], configurable: true, writable: true }); }
        let nextTick;
        try { nextTick = fresh(s).nextTick; } finally { for (const k of Object.keys(saved)) { if (saved[k]) Object.defineProperty(g, k, saved[k]); else delete g[k]; } }
        const order = [], asked = [], boom = new Error('callback'); let depth = 0; MO.thrown = [];
        const ask = i => { asked.push(i); nextTick(() => { if (depth++) fail('callbacks nest'); order.push(i); kids(i); depth--; if (i === bad) throw boom; }); };
        const kids = p => parent.forEach((q, i) => { if (q === p) ask(i); });
        const saveMO = [g.MutationObserver, g.document];
        kids(-1);
        eq(order, [], 'a callback ran synchronously');
        return () => { ok(!s.errors.length, String(s.errors[0])); eq(order, asked, 'order of callbacks'); eq(MO.thrown, bad < 0 ? [] : [boom], 'errors reported by the observer'); eq(order.length, parent.length, 'callbacks run'); };
    };
    await t.explore('nextTick', [...[...t.product(Object.keys(ENVS), shapes)].map(c => [...c, -1]), ...shapes.flatMap(sh => sh.flatMap((_, i) => ['observer', 'webkit'].map(e => [e, sh, i])))], scene);
    // many at once, one after the other, and bursts asked for from inside
    const SH = [n => Array(n).fill(-1), n => t.range(-1, n - 2), n => t.range(0, n - 1).map(i => i ? 0 : -1), n => t.range(0, n - 1).map(i => i < n / 2 ? -1 : i - Math.ceil(n / 2)), n => t.range(0, n - 1).map(i => ((i - 1) >> 1))].flatMap(f => [9, 17, 33, 65, 130, 1025].map(n => f(n)));
    await t.explore('nextTick-many', [...t.product(Object.keys(ENVS), SH, [-1])], scene, { maxSteps: 3000, key: ([e, p]) => `${e} ${p.length} ${p[1]} ${p.at(-1)}` });
    // ---- two timeoutOr calls under way at the same time
    const late = (n, limit, at, fb) => ({ n, run: (lib, gate) => { const log = []; return lib.timeoutOr(limit, (...a) => { log.push(['task', ...a]); return gate(n + 'v', { at }); }, fb && ((...a) => { log.push(['instead', ...a]); return n + 'f'; }), n, 1).then(v => [v, log.slice()]); } });
    await overlap(t, 'two timeoutOr', fresh, [late('a', 5, 1), late('b', 3, 9, true), late('c', 2, 7), late('d', 50, 4, true), late('e', 4, 20, true)], { late: true });
    const pause = (n, ...ds) => ({ n, run: async (lib, gate, s, time) => { const log = []; await Promise.all(ds.map((d, i) => new Promise(r => lib.setTimeout((...a) => { log.push([i, a, time()]); r(); }, d, n, i)))); return log; } });
    await overlap(t, 'two setTimeout', fresh, [pause('a', 5, 1), pause('b', 3, 9), pause('c', 4), pause('d', 2, 2)], { late: true });
    const tick = (n, k) => ({ n, run: lib => new Promise(r => { const log = []; for (let i = 0; i < k; i++) lib.nextTick(() => { log.push(i); if (i === 0) lib.nextTick(() => { log.push('in'); }); if (i === k - 1) lib.nextTick(() => { r(log); }); }); }) });
    await overlap(t, 'two nextTick', fresh, [tick('a', 1), tick('b', 3), tick('c', 6)], { late: true });
};
