'use strict';
const { ok, eq, fail, show, attempt } = require('../lib/util');
const { nested } = require('../lib/overlap');
exports.technique = 'bounded exhaustive enumeration of call sequences on the real code against reference combinators';
exports.bounds = 'chains of 0-10 parts, a throw in any part, every split of up to 5 arguments over calls, every reuse order of partial applications, argument lists 0-3; chains of up to 257 parts and functions of up to 33 parameters; a second and third call made inside any callback of the first';
exports.assumptions = [];
exports.run = async t => {
    const F = t.world().load('@curong/function');
    const boom = [new Error('b'), undefined];
    const VAL = [undefined, null, 0, '', 'v', { a: 1 }, [1]];
    t.cases('compose', t.product(t.range(1, 10), t.range(-1, 9), VAL, [0, 1]), ([n, bad, v0, e]) => {
        if (bad >= n) return 'skip';
        const log = []; const fns = t.range(0, n - 1).map(i => (...a) => { log.push([i, ...a]); if (i === bad) throw boom[e]; return i === 1 ? undefined : [i, a[0]]; });
        const p = F.compose(...fns); eq(log, [], 'ran before being called');
        for (let rep = 0; rep < 2; rep++) {
            log.length = 0; const r = attempt(() => p(v0)); let v = v0; const exp = [];
            for (let i = 0; i < n; i++) { exp.push([i, v]); if (i === bad) break; v = i === 1 ? undefined : [i, v]; }
            eq(log, exp, 'calls'); if (bad >= 0) ok(!r.ok && Object.is(r.error, boom[e]), `error lost: ${show(r)}`); else ok(r.ok && t.same(r.value, v), `result ${show(r)}`);
        }
    });
    t.cases('compose-long', t.product([17, 33, 50, 64, 65, 130, 257], [-1, 0, 8, 16, 32, 49, 63, 64, 129]), ([n, bad]) => {
        if (bad >= n) return 'skip';
        const log = [], fns = t.range(0, n - 1).map(i => v => { log.push([i, v]); if (i === bad) throw boom[0]; return v + i; }), p = F.compose(...fns);
        for (const v0 of [1, 5]) { log.length = 0; const r = attempt(() => p(v0)); let v = v0; const e = []; for (let i = 0; i < n; i++) { e.push([i, v]); if (i === bad) break; v += i; } eq(log, e, `calls of ${n} parts`); if (bad >= 0) ok(!r.ok && r.error === boom[0], show(r)); else eq(r.value, v); }
    });
    t.cases('currying-wide', t.product([8, 12, 17, 33], [1, 2, 5, 7]), ([n, step]) => {
        const log = []; const c = F.currying(Object.defineProperty((...a) => { log.push(a); return 'r'; }, 'length', { value: n })); const vals = t.range(1, n);
        for (let rep = 0; rep < 2; rep++) { log.length = 0; let f = c; for (let i = 0; i < n; i += step) { ok(typeof f === 'function', `call ${i} returned ${show(f)}`); f = f(...vals.slice(i, i + step)); } eq(f, 'r'); eq(log, [vals]); }
    });
    t.cases('compose-identity', VAL, v => { if (F.compose.length === 0) { const r = attempt(() => F.compose()(v)); ok(!r.ok || Object.is(r.value, v), show(r)); } });
    // hooks: [name, who first, result of, hook args, target args]
    const HOOKS = {
        before: { pre: true, ret: 't', hookArgs: (h, ta, tr) => h, targetArgs: (ta, hr) => ta },
        after: { pre: false, ret: 't', hookArgs: h => h, targetArgs: ta => ta },
        applyAfter: { pre: false, ret: 'h', hookArgs: (h, tr) => [tr, ...h], targetArgs: ta => ta },
        withAfter: { pre: false, ret: 't', hookArgs: (h, tr) => [tr, ...h], targetArgs: ta => ta },
        applyBefore: { pre: true, ret: 't', own: true }, withBefore: { pre: true, ret: 'h', own: true }
    };
    const AR = [[], [1], [undefined, 0], ['a', { b: 1 }, [2]]];
    for (const [name, h] of Object.entries(HOOKS)) t.cases(name, t.product(AR, AR, VAL, VAL, ['none', 'hook', 'target'], [0, 1]), ([ha, ta, hr, tr, thrower, e]) => {
        const log = []; const hook = (...a) => { log.push(['h', a]); if (thrower === 'hook') throw boom[e]; return hr; }; const target = (...a) => { log.push(['t', a]); if (thrower === 'target') throw boom[e]; return tr; };
        const f = h.own ? F[name](hook) : F[name](hook, ...ha); eq(log, [], 'ran too early');
        for (let rep = 0; rep < 2; rep++) {
            log.length = 0; const r = attempt(() => f(target, ...ta));
            const H = ['h', h.own ? ta : h.pre ? ha : h.hookArgs(ha, tr)], T = ['t', h.own ? [hr] : ta];
            const order = h.pre ? [H, T] : [T, H]; const stop = order.findIndex(x => x[0] === thrower[0]);
            eq(log, thrower === 'none' ? order : order.slice(0, stop + 1), 'calls');
            if (thrower === 'none') ok(r.ok && Object.is(r.value, h.ret === 't' ? tr : hr), `result ${show(r)}`); else ok(!r.ok && Object.is(r.error, boom[e]), `error lost: ${show(r)}`);
        }
    });
    // currying: every split of the arguments into calls, empty calls included, and reuse of every prefix
    const splits = n => { const out = []; const rec = (left, acc, empties) => { if (!left) return out.push(acc); for (let k = 1; k <= left; k++) rec(left - k, [...acc, k], empties); if (empties) rec(left, [...acc, 0], empties - 1); }; rec(n, [], n < 4 ? 2 : 1); return out; };
    const mkFn = (n, log) => [(...a) => 0, a => 0, (a, b) => 0, (a, b, c) => 0, (a, b, c, d) => 0, (a, b, c, d, e) => 0, (a, b, c, d, e, f) => 0].slice(n, n + 1).map(f => { const g = { 0: () => { log.push([]); return 'r'; }, 1: (a) => { log.push([a]); return 'r'; }, 2: (a, b) => { log.push([a, b]); return 'r'; }, 3: (a, b, c) => { log.push([a, b, c]); return 'r'; }, 4: (a, b, c, d) => { log.push([a, b, c, d]); return 'r'; }, 5: (a, b, c, d, e) => { log.push([a, b, c, d, e]); return 'r'; }, 6: (a, b, c, d, e, f) => { log.push([a, b, c, d, e, f]); return 'r'; } }[n]; return g; })[0];
    for (const n of t.range(1, 6)) t.cases('currying' + n, splits(n), split => {
        const log = []; const c = F.currying(mkFn(n, log)); const vals = Array.from({ length: n }, (_, i) => i === 1 ? undefined : 'a' + i);
        const go = (f, tag) => { let i = 0; const stages = [f]; split.forEach((k, j) => { const last = j === split.length - 1; const a = vals.slice(i, i + k).map(x => x === undefined ? x : tag + x); i += k; const r = stages.at(-1)(...a); if (last) { ok(r === 'r', `call ${j} returned ${show(r)}`); } else { ok(typeof r === 'function', `call ${j} of ${split} returned ${show(r)}`); stages.push(r); } }); return stages; };
        const exp = tag => vals.map(x => x === undefined ? x : tag + x);
        const st = go(c, 'x'); eq(log, [exp('x')], 'calls after one complete application');
        // reuse every intermediate stage with fresh arguments: nothing collected before may change
        st.forEach((f, j) => { const used = split.slice(0, j).reduce((a, b) => a + b, 0); log.length = 0; const rest = vals.slice(used).map((x, q) => 'n' + q); const r = f(...rest); ok(r === 'r', `reuse of stage ${j}`); eq(log, [[...exp('x').slice(0, used), ...rest]], `arguments on reuse of stage ${j}`); });
        log.length = 0; go(c, 'y'); eq(log, [exp('y')], 'second complete application');
    });
    t.cases('currying-none', t.words([1, undefined, 'x'], 0, 3), as => { const log = []; const c = F.currying((...a) => { log.push(a); return 'r'; }), d = F.currying((a = 5, b) => [a, b]); for (let i = 1; i < 3; i++) { eq(c(...as), 'r'); eq(log.length, i); eq(log[i - 1], as); eq(d(...as), [as[0] === undefined ? 5 : as[0], as[1]]); } });
    t.cases('currying-errors', t.range(0, 1), e => { const c = F.currying((a, b) => { throw boom[e]; }); const p = c(1); for (let i = 0; i < 2; i++) { const r = attempt(() => p(2)); ok(!r.ok && Object.is(r.error, boom[e]), show(r)); } });
    t.cases('bind', t.product(AR, [{}, null, 5, 'str', [1]], [0, 1, 2]), ([args, ctx, mode]) => {
        const log = []; const b = F.bind(function (...a) { log.push([this, a]); if (mode === 2) throw boom[0]; return [a]; }, ctx);
        for (let i = 0; i < 2; i++) { const r = attempt(() => mode === 1 ? b.call({ other: 1 }, ...args) : b(...args)); ok(Object.is(log[i][0], ctx), `this is ${show(log[i][0])}`); eq(log[i][1], args, 'arguments'); if (mode === 2) ok(!r.ok && r.error === boom[0]); else eq(r.value, [args]); }
    });
    // runs in a function that uses its own this is not required of the other helpers
    // ---- several of them made before one is used, and a call inside the functions of another one
    const made = (n, make, ...calls) => ({ n, run: hook => { const log = []; const fs = make((w, ...a) => { log.push([w, ...a]); hook(); log.push('after ' + w); return [n, w, a.length]; }); return [calls.map(c => c(fs)), log]; } });
    const L2 = [
        made('compose', h => F.compose((a, b) => h('f', a, b), v => h('g', v), v => h('h', v)), f => f(1, 2), f => f(3)), ...Object.keys(HOOKS).map(k => made(k, h => HOOKS[k].own ? F[k]((...a) => h('hook', ...a)) : F[k]((...a) => h('hook', ...a), 'p', 'q'), f => f((...a) => [n1, a.length], 5, 6))),
        made('currying 2', h => F.currying((a, b) => h('c', a, b)), f => f(1)(2), f => f(1, 2)), made('currying 3', h => F.currying((a, b, c) => h('d', a, b, c)), f => f(1)(2)(3), f => f(1)(2, 3)), made('bind', h => F.bind(function (...a) { return h(this, ...a); }, 'ctx'), f => f(1), f => f()),
    ]; const n1 = 'inner';
    nested(t, 'inside', L2, { max: 3 });
    const USE = { 'compose 1': [() => F.compose(v => v + 1), f => f(1), 2], 'compose 2': [() => F.compose(v => v + 1, v => v * 2), f => f(3), 8], 'currying 1': [() => F.currying(a => ['1', a]), f => f('x'), ['1', 'x']], 'currying 2': [() => F.currying((a, b) => ['2', a, b]), f => f('x')('y'), ['2', 'x', 'y']], 'currying 3': [() => F.currying((a, b, c) => ['3', a, b, c]), f => f('x')('y')('z'), ['3', 'x', 'y', 'z']], 'bind a': [() => F.bind(function (x) { return [this.v, x]; }, { v: 1 }), f => f(2), [1, 2]], 'bind b': [() => F.bind(function (x) { return ['b', this.v, x]; }, { v: 3 }), f => f(4), ['b', 3, 4]] };
    for (const k of Object.keys(HOOKS)) { USE[k + ' a'] = [() => F[k](...(HOOKS[k].own ? [(...a) => ['ha', a.length]] : [() => 'ha'])), f => JSON.stringify(f(() => 'ta')), HOOKS[k].ret === 't' ? '"ta"' : HOOKS[k].own ? null : '"ha"']; USE[k + ' b'] = [() => F[k](() => 'hb'), f => JSON.stringify(f(() => 'tb')), HOOKS[k].ret === 't' ? '"tb"' : '"hb"']; }
    t.cases('made-first', t.product(Object.keys(USE), Object.keys(USE), Object.keys(USE)), ks => { const made = ks.map(k => USE[k][0]()); for (let r = 0; r < 2; r++) ks.forEach((k, i) => { const v = USE[k][1](made[i]); if (USE[k][2] !== null) eq(v, USE[k][2], () => `${k}, made ${i + 1}. of ${ks.join(', ')}`); }); });
};
