'use strict';
const { ok, eq, fail, show, attempt } = require('../lib/util');
exports.technique = 'explicit-state exploration: all call histories of the real objects against reference counters';
exports.bounds = 'limits 0-5 and every call history up to length 8 with a throw at any call, and with calls made from inside the callback; two wrappers interleaved in every way; toggle with all action words up to length 6 over value pairs incl. NaN and signed zero';
exports.assumptions = ['once: a call that throws does not count as executed'];
exports.run = async t => {
    const w = t.world(); const F = w.load('@curong/function');
    const boom = new Error('boom');
    // behaviour of the wrapped function at each call: value or throw
    const mk = (script, log) => function (...a) { log.push(a); const x = script[log.length - 1] ?? 'v' + log.length; if (x === boom) throw boom; return x === 'UNDEF' ? undefined : x; };
    const scripts = [...t.words(['a', boom, 'UNDEF', 0], 1, 3)];
    const len = t.thorough ? 10 : 8;
    t.cases('runOnlyNTimes', t.product(t.range(0, 5), scripts, [[], ['p'], [undefined, 0]], [0, 1, 2]), ([n, script, pre, k]) => {
        const log = []; const f = F.runOnlyNTimes(n, mk(script, log), ...pre);
        for (let i = 0; i < len; i++) {
            const args = Array.from({ length: k }, (_, j) => `c${i}.${j}`); const r = attempt(() => f(...args));
            if (i >= n) { ok(r.ok && r.value === undefined, `call ${i + 1} of limit ${n}: ${show(r)}`); eq(log.length, n, 'executions'); continue; }
            eq(log.length, i + 1, `executions after call ${i + 1}`); eq(log[i], [...pre, ...args], 'arguments');
            const x = script[i] ?? 'v' + (i + 1);
            if (x === boom) ok(!r.ok && r.error === boom, 'error lost'); else ok(r.ok && Object.is(r.value, x === 'UNDEF' ? undefined : x), `call ${i + 1}: ${show(r)}`);
        }
    });
    t.cases('runAfterTimes', t.product(t.range(0, 5), scripts.filter(s => s.length < 3), [[], ['p'], [undefined, 0]], [false, true]), ([n, script, pre, chain]) => {
        const log = []; const f = F.runAfterTimes(n, mk(script, log), ...pre); let g = f;
        for (let i = 1; i <= Math.max(1, n); i++) {
            const r = attempt(() => (chain ? g : f)());
            if (i < n) { ok(r.ok && typeof r.value === 'function', `call ${i} of ${n}: ${show(r)}`); eq(log, [], `executions after call ${i} of ${n}`); g = r.value; continue; }
            eq(log, [pre], `executions at call ${i} of ${n}`);
            const x = script[0];
            if (x === boom) ok(!r.ok && r.error === boom, 'error lost'); else ok(r.ok && Object.is(r.value, x === 'UNDEF' ? undefined : x), `call ${i}: ${show(r)}`);
        }
    });
    const BAD = [-1, 1.5, NaN, Infinity, '2', null, undefined, 2 ** 53, {}, 2n];
    t.cases('counts-invalid', BAD, v => { for (const k of ['runOnlyNTimes', 'runAfterTimes']) ok(!attempt(() => F[k](v, () => fail('ran'))).ok, `${k} accepts ${show(v)}`); });
    t.cases('callbacks-invalid', [undefined, null, 1, 'x', {}, async () => {}], v => { for (const k of ['runOnlyNTimes', 'runAfterTimes']) ok(!attempt(() => F[k](2, v)).ok, `${k} accepts ${show(v)}`); });
    t.cases('large-counts', [20, 100, 1000, ...t.literals('function/src/limit/runOnlyNTimes.ts', 'function/src/limit/runAfterTimes.ts', 'function/src/limit/once.ts').near.filter(x => x > 5 && x < 5000 && Number.isInteger(x))], n => {
        let a = 0, b = 0; const f = F.runOnlyNTimes(n, () => ++a), g = F.runAfterTimes(n, () => ++b);
        for (let i = 1; i <= n + 3; i++) { f(); if (i <= n) { g(); eq([a, b], [i, i === n ? 1 : 0], `after ${i} calls with ${n}`); } }
        eq(a, n);
    });
    t.cases('once', t.product(scripts, [[], ['p'], [undefined, 0]], [0, 1, 2]), ([script, pre, k]) => {
        const log = []; const f = F.once(mk(script, log), ...pre); let done = null, n = 0;
        for (let i = 0; i < len; i++) {
            const args = Array.from({ length: k }, (_, j) => `c${i}.${j}`); const r = attempt(() => f(...args));
            if (done) { ok(r.ok && Object.is(r.value, done.v), `call ${i + 1}: ${show(r)}, first result ${show(done.v)}`); eq(log.length, n, 'executions'); continue; }
            n++; eq(log.length, n, 'executions'); eq(log[n - 1], [...pre, ...args], 'arguments');
            const x = script[n - 1] ?? 'v' + n;
            if (x === boom) ok(!r.ok && r.error === boom, 'error lost'); else { done = { v: x === 'UNDEF' ? undefined : x }; ok(r.ok && Object.is(r.value, done.v), show(r)); }
        }
    });
    // callbacks that call the wrapper again while they run: calls are counted in the order in which they begin
    t.cases('reentrant', t.product(t.range(0, 4), [...t.words([0, 1, 2], 1, 4)], [...t.words([0, 1], 0, 2)]), ([n, nested, throws]) => {
        let begun = 0, runs = 0, kept = 0; const ran = [];
        const f = F.runOnlyNTimes(n, id => { const i = runs++; ran.push(id); for (let k = 0; k < (nested[i] ?? 0) && begun < 40; k++) attempt(() => f(begun++)); if (throws[i]) throw boom; return id; });
        for (let i = 0; i < 4; i++) { const id = begun++, r = attempt(() => f(id)); if (id < n) { kept++; ok(ran.includes(id), `call ${id + 1} of limit ${n} was not executed`); } else ok(r.ok && r.value === undefined, show(r)); }
        eq(ran, t.range(0, Math.min(n, begun) - 1), 'executed calls');
    });
    t.cases('once-reentrant', t.product([0, 1, 2, 3], [0, 1, 2]), ([nested, throwing]) => {
        let runs = 0, bad = throwing; const f = F.once(() => { const i = runs++; if (runs < 20) for (let k = 0; k < nested; k++) f(); if (bad-- > 0) throw boom; return 'r' + i; });
        for (let i = 0; i < throwing; i++) { ok(!attempt(f).ok, 'error lost'); eq(runs, i + 1, 'executions'); }
        const r = f(); eq(runs, throwing + 1, `executions with ${nested} nested calls`); ok(f() === r && f() === r, 'later results');
    });
    // two wrappers of the same function, all interleavings of their calls
    t.cases('independent', t.product([...t.words([0, 1], 1, t.thorough ? 8 : 6)], [[1, 2], [2, 2], [0, 3]]), ([seq, lim]) => {
        const log = []; const fn = x => { log.push(x); return x; };
        const N = lim.map(n => F.runOnlyNTimes(n, fn)), A = lim.map(n => F.runAfterTimes(n, () => 'fired')), O = lim.map(() => F.once(fn)); const cnt = [0, 0]; const first = [];
        seq.forEach((k, i) => {
            cnt[k]++;
            eq(N[k](`${k}.${i}`), cnt[k] <= lim[k] ? `${k}.${i}` : undefined, 'runOnlyNTimes');
            if (cnt[k] <= Math.max(1, lim[k])) { const r = A[k](); eq(r === 'fired', cnt[k] >= lim[k], 'runAfterTimes'); }
            first[k] ??= `${k}.${i}`; eq(O[k](`${k}.${i}`), first[k], 'once');
        });
    });
    const o1 = {}, VALS = [[false, true], [1, 2], ['a', 'b'], [null, undefined], [undefined, 0], [NaN, 1], [1, NaN], [0, -0], [-0, 0], ['', 0], [o1, {}], [[], []], ['x', 'x']];
    t.cases('toggle', t.product(VALS, [...t.words(['t', 'l', 'r', 'v'], 0, t.thorough ? 7 : 5)]), ([[L, R], seq]) => {
        const g = F.toggle(L, R), other = F.toggle(L, R); let cur = 0;
        ok(Object.is(g.value, L), 'initial value');
        for (const a of seq) {
            if (a === 't') { cur ^= 1; const r = g.toggle(); ok(Object.is(r, cur ? R : L), `toggle() gave ${show(r)}, expected ${show(cur ? R : L)}`); }
            if (a === 'l') { cur = 0; g.setLeft(); } if (a === 'r') { cur = 1; g.setRight(); }
            if (!Object.is(g.value, cur ? R : L)) fail(`value is ${show(g.value)}, expected ${show(cur ? R : L)}`);
        }
        ok(Object.is(other.value, L), 'another toggle changed');
    });
    const singletonClass = w.fn('function', 'singletonClass', 'class/singletonClass.ts');
    t.cases('singleton', t.words(['A', 'A2', 'B', 'SB', 'T', 'C', 'N'], 1, t.thorough ? 6 : 5), seq => {
        const made = [];
        class A { constructor(x) { this.x = x; made.push(['A', x]); } hi() { return this.x; } static s = 5; }
        const SA = singletonClass(A), SA2 = singletonClass(A);
        class B extends SA { } class D extends A { } const SB = singletonClass(D); class C { constructor(...a) { this.a = a; } } const SC = singletonClass(C); class N { constructor() { this.nt = new.target; } } const SN = singletonClass(N);
        const first = {};
        seq.forEach((k, i) => {
            if (k === 'A' || k === 'A2') { const o = new (k === 'A' ? SA : SA2)(i); first.A ??= [o, i]; ok(o === first.A[0] && o.x === first.A[1] && o.hi() === o.x && o instanceof A && o instanceof SA, `instance of call ${i}: ${show(o)}`); }
            if (k === 'B') { const o = new B(i); ok(o instanceof B && o.x === i && (!first.A || o !== first.A[0]), 'a subclass instance is not of its own class'); }
            if (k === 'SB') { const o = new SB(i); first.D ??= [o, i]; ok(o === first.D[0] && o.x === first.D[1] && o instanceof D, `singleton of a subclass: ${show(o)}`); }
            if (k === 'C') { const o = new SC(i, 'y'); first.C ??= [o, i]; ok(o === first.C[0] && o instanceof C, 'C'); eq(o.a, [first.C[1], 'y']); }
            if (k === 'N') { const o = Reflect.construct(SN, [i], SN); first.N ??= [o, i]; ok(o === first.N[0] && o.nt === SN && o instanceof N, `new.target of the singleton: ${show(o)}`); }
            if (k === 'T') eq([SA.s, SA.name], [5, 'A'], 'static members');
        });
    });
};
