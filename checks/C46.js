'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { universe, OPTS } = require('./C45');
exports.technique = 'bounded exhaustive enumeration: every assertion on every value of a fixed universe with every option, compared with the predicate of the same name';
exports.bounds = 'all assertions x more than 600 values x option values; every name form of the variable';
exports.assumptions = ['what the predicates themselves answer is the subject of C45; where a predicate throws, its assertion must throw too', 'assertions about the environment and about comparisons take no variable name, so none is required in their message'];
exports.run = async t => {
    const w = t.world(), types = w.load('@curong/types'), asserts = w.load('@curong/asserts'), U = universe();
    const SPECIAL = { assertOwnProperty: 'hasOwnProperty', assertTagEqual: 'getTagEqual', assertTypeofEqual: 'typeofEqual' };
    const NONAME = new Set(['assertEqual', 'assertNotEqual', 'assertEvery', 'assertSome', 'assertBrowser', 'assertDeno', 'assertNodejs', 'assertWebWorker', 'assertPrototypeOf']);
    const names = Object.keys(asserts).filter(k => /^assert/.test(k)), pred = a => SPECIAL[a] ?? a.replace(/^assert/, 'is');
    // every predicate has its assertion
    t.cases('pairs', Object.keys(types).filter(k => typeof types[k] === 'function'), k => {
        if (k === 'getTag') return k;
        const a = Object.keys(SPECIAL).find(x => SPECIAL[x] === k) ?? k.replace(/^is/, 'assert');
        ok(typeof asserts[a] === 'function', `there is no ${a} for ${k}`); return k;
    });
    const plain = names.filter(a => !NONAME.has(a));
    const opts = a => { const o = OPTS[pred(a)] ?? [[]]; return o.filter(x => x.length <= asserts[a].length - 2 || pred(a) !== 'isArrayLike').filter(x => !(pred(a) === 'isArrayLike' && x.length > 1)); };
    t.cases('assertions', (function* () { for (const a of plain) for (const o of opts(a)) yield { a, o }; })(), ({ a, o }) => {
        const f = asserts[a], p = types[pred(a)]; ok(typeof p === 'function', `${a} has no predicate`);
        let n = 0;
        for (const e of U) {
            const want = attempt(() => p(e.v, ...o)), got = attempt(() => f(e.v, 'theVariable', ...o));
            const at = () => `${a}(${e.name}${o.length ? ', ' + show(o) : ''})`;
            ok(got.ok === !!(want.ok && want.value), () => `${at()} ${got.ok ? 'accepts' : 'rejects'} although ${pred(a)} answers ${show(want.ok ? want.value : want.error)}`);
            if (got.ok) { n++; ok(got.value === undefined, at); }
            else if (want.ok) { ok(got.error instanceof TypeError, () => `${at()} throws ${show(got.error)}`); ok(got.error.message.includes('theVariable'), () => `${at()}: the message does not name the variable: ${got.error.message}`); }
        }
        return `${a} ${show(o)} ${n}`;
    }, { calls: U.length, key: ({ a, o }) => a + show(o) });
    t.cases('names', t.product(plain, ['a', 'user.name', 'list[0]', '$&', '变量', '']), ([a, name]) => {
        for (const e of U.slice(0, 40)) { const r = attempt(() => asserts[a](e.v, name, ...(opts(a)[0] ?? []))); if (!r.ok && r.error instanceof TypeError && attempt(() => types[pred(a)](e.v, ...(opts(a)[0] ?? []))).ok) ok(r.error.message.includes(`${name}`), () => `${a}: ${r.error.message}`); }
        return `${a} ${name}`;
    });
    // comparisons
    const V = [undefined, null, true, 0, -0, 1, NaN, '', 'a', [], [1], {}, 1n, Symbol.iterator, Object(1), () => 1, Object.create(null)];
    t.cases('assertEqual', t.product(V, [...t.words(V.slice(0, 9), 0, t.thorough ? 3 : 2), ...V.map(v => [v]), ...V.map(v => [v, v])]), ([v, a]) => {
        for (const [f, p] of [['assertEqual', 'isEqual'], ['assertNotEqual', 'isNotEqual']]) {
            const r = attempt(() => asserts[f](v, ...a)), want = types[p](v, ...a);
            ok(r.ok === want, () => `${f}(${show(v)}, ${show(a)}) ${r.ok ? 'accepts' : 'rejects'} although ${p} answers ${want}`); ok(r.ok || r.error instanceof TypeError, () => `${f}: ${show(r.error)}`);
        }
        return `${show(v)} ${show(a)} ${types.isEqual(v, ...a)}`;
    });
    const C = [v => v === 1, v => !!v, v => typeof v === 'number', () => false, () => true];
    t.cases('assertEvery', t.product([1, 0, 'a', [], [1], [0], [1, 2], [1, 0], ['a', 1], [[1], 1]], [...C, ...t.words(C, 0, 2)]), ([v, p]) => {
        for (const k of ['Every', 'Some']) { const r = attempt(() => asserts['assert' + k](v, p)), want = types['is' + k](v, p); ok(r.ok === want, () => `assert${k}(${show(v)}) ${r.ok ? 'accepts' : 'rejects'} although the predicate answers ${want}`); ok(r.ok || r.error instanceof TypeError); }
        return `${show(v)} ${[p].flat().map(f => C.indexOf(f))}`;
    });
    const PROTOS = [Object.prototype, Array.prototype, Function.prototype, Error.prototype, Map.prototype, RegExp.prototype, Uint8Array.prototype, Object.getPrototypeOf(Uint8Array.prototype), {}, null, undefined, 1, 'a', Function];
    t.cases('assertPrototypeOf', t.product(PROTOS, U), ([a, e]) => {
        const r = attempt(() => asserts.assertPrototypeOf(a, 'theVariable', e.v)), want = attempt(() => types.isPrototypeOf(a, e.v));
        ok(r.ok === !!(want.ok && want.value), () => `assertPrototypeOf(${show(a, 1)}, name, ${e.name}) ${r.ok ? 'accepts' : 'rejects'} although the predicate answers ${show(want.value)}`);
        if (want.ok) { const p = (typeof a === 'object' && a !== null) || typeof a === 'function' ? attempt(() => Object.prototype.isPrototypeOf.call(a, e.v)) : { ok: true, value: false }; if (p.ok) ok(p.value === want.value, () => `isPrototypeOf(${show(a, 1)}, ${e.name}) answers ${want.value}`); }
        if (!r.ok && want.ok) ok(r.error instanceof TypeError && r.error.message.includes('theVariable'), () => `${show(r.error)}`);
        return `${PROTOS.indexOf(a)} ${e.name} ${r.ok}`;
    });
    // environments
    const G = ['window', 'Deno', 'self', 'HTMLImageElement', 'HTMLCanvasElement', 'HTMLVideoElement'], tagged = tg => ({ [Symbol.toStringTag]: tg }), fnv = function () {};
    const browser = { window: Object.assign(tagged('Window'), { document: tagged('HTMLDocument'), history: tagged('History'), navigator: tagged('Navigator') }), HTMLImageElement: fnv, HTMLCanvasElement: fnv, HTMLVideoElement: fnv };
    t.cases('environment', [{}, browser, { window: {} }, { Deno: { version: {}, core: {} } }, { Deno: {} }, { self: new (class DedicatedWorkerGlobalScope {})() }, { self: {} }], g => {
        const old = G.map(k => Object.getOwnPropertyDescriptor(globalThis, k)), out = [];
        try {
            for (const k of G) { delete globalThis[k]; if (k in g) Object.defineProperty(globalThis, k, { value: g[k], configurable: true, writable: true }); }
            for (const k of ['Browser', 'Deno', 'WebWorker', 'Nodejs']) { const r = attempt(() => asserts['assert' + k]()); out.push(r.ok, !!types['is' + k](), r.ok || r.error instanceof TypeError); }
        } finally { G.forEach((k, i) => { delete globalThis[k]; if (old[i]) Object.defineProperty(globalThis, k, old[i]); }); }
        for (let i = 0; i < 4; i++) ok(out[3 * i] === out[3 * i + 1] && out[3 * i + 2], `environment ${Object.keys(g)}: assertion ${out[3 * i]}, predicate ${out[3 * i + 1]}`);
        return show(out);
    });
};
