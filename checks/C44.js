'use strict';
const { again } = require('../lib/again');
const { ok, eq, show, attempt } = require('../lib/util');
const { nested, overlap } = require('../lib/overlap');
exports.technique = 'bounded exhaustive enumeration of value graphs, the text evaluated and compared with the value by an independent walk; controlled-scheduler exploration of every settlement order for the asynchronous form';
exports.bounds = 'every graph of 1 and 2 nodes over 22 kinds with two slots each, every graph of 3 nodes over containers, all arrays with holes up to length 6 and the sparse form, all strings up to length 3 over hostile characters; asynchronous: 12 shapes of up to 3 promises, all settlement orders, outcomes and timer moments; chains and cycles of up to 130 nodes, containers of up to 513 members, strings up to 1025 characters; two overlapping asynchronous calls; the same value turned into text repeatedly around every settlement; calls made inside serializers; 20 settled values, fulfilled and rejected, in 6 containers beside another promise; every ordered pair of representative calls, results and arguments changed in between';
exports.assumptions = [
    'what the documentation declares lost is not judged: additional properties of arrays and built-ins, non-enumerable properties, the class of instances, error names, causes and stacks, identity of unique symbols, sharing, names of methods; method definitions as property values are printed as their source and not evaluated (pinned by the tests)',
    'a promise that settles after the waiting of the call has begun may be reported either way once virtual time has passed'
];
exports.shards = 4;
exports.run = async t => {
    const U = t.world().load('@curong/util/src/stringify'), { stringify } = U;
    const NONE = Symbol('none'), FOR = Symbol.for('key'), UNI = Symbol('u"x');
    const isObj = v => (typeof v === 'object' && v !== null) || typeof v === 'function';
    const def = (o, k, v) => { if (v !== NONE) o[k] = v; };
    class K { m() { return 1; } }
    const kinds = {
        obj: [() => ({ z: 0 }), (o, a, b) => { def(o, 'a b', a); def(o, '2', b); }],
        sym: [() => ({}), (o, a, b) => { def(o, FOR, a); def(o, Symbol.iterator, b); }],
        nul: [() => Object.create(null), (o, a, b) => { def(o, 'a', a); def(o, '__proto__', b); }],
        pro: [() => ({}), (o, a, b) => { def(o, 'b', b); if (a !== NONE) Object.defineProperty(o, '__proto__', { value: a, enumerable: true, writable: true, configurable: true }); }],
        get: [() => ({}), (o, a, b) => { if (a !== NONE) Object.defineProperty(o, 'g', { get: () => a, enumerable: true }); def(o, 'b', b); Object.defineProperty(o, 'hidden', { value: o }); }],
        cls: [() => new K(), (o, a, b) => { def(o, 'a', a); def(o, 'b', b); }],
        arr: [() => [], (o, a, b) => { o.length = 3; def(o, 0, a); def(o, 1, b); }],
        arg: [() => (function () { return arguments; })(NONE, NONE), (o, a, b) => { o[0] = a === NONE ? 1 : a; o[1] = b === NONE ? 2 : b; }],
        spa: [() => Array(60), (o, a, b) => { def(o, 3, a); def(o, 59, b); }],
        map: [() => new Map(), (o, a, b) => { o.set(a === NONE ? 'k' : a, b === NONE ? 'v' : b); o.set('last', 1); }],
        set: [() => new Set(), (o, a, b) => { for (const v of [a, 's', b]) if (v !== NONE) o.add(v); }],
        agg: [() => new AggregateError([], 'm"'), (o, a, b) => { for (const v of [a, b]) if (v !== NONE) o.errors.push(v); }],
        err: [() => new RangeError('x\n')], er0: [() => new TypeError()], date: [() => new Date(86400001)], bad: [() => new Date(NaN)], re: [() => /a(b)?\/[/"]/gi],
        str: [() => new String('a"b')], num: [() => new Number(-0)], bool: [() => new Boolean(false)], big: [() => Object(-5n)], fn: [() => function f(x) { return x + 1; }],
        buf: [() => Buffer.from([1, 2, 255])], f64: [() => new Float64Array([1.5, -0, NaN, Infinity])], b64: [() => new BigInt64Array([-3n])], url: [() => new URL('http://u:p@h:81/a"?b=c#d')], usp: [() => new URLSearchParams('a=1&a=%26"')]
    };
    // the reference: compares the evaluation of the text (Circular stands for the marker of a cycle) with the value
    const MARK = { mark: 'Circular' };
    const evaluate = (v, text, pre = '') => { const r = attempt(() => new Function('Circular', pre + 'return (' + text + ')')(MARK)); ok(r.ok, () => `the text does not evaluate: ${text}`); return r.value; };
    const tagOf = v => Object.prototype.toString.call(v).slice(8, -1);
    const walk = (v, w, path, at) => {
        if (!isObj(v)) { if (typeof v === 'symbol') { ok(w === v || (typeof w === 'symbol' && Symbol.keyFor(v) === undefined && Symbol.keyFor(w) === undefined && w.description === v.description && !Object.values(Object.getOwnPropertyDescriptors(Symbol)).some(d => d.value === v || d.value === w)), () => `${at}: symbol ${show(v)} as ${show(w)}`); return; } ok(Object.is(v, w), () => `${at}: ${show(v)} evaluates to ${show(w)}`); return; }
        if (path.includes(v)) { ok(Array.isArray(w) && w.length === 1 && w[0] === MARK, () => `${at}: a cyclic reference is not reported: ${show(w)}`); return; }
        ok(isObj(w) && !(Array.isArray(w) && w[0] === MARK), () => `${at}: ${show(v, 2)} evaluates to ${show(w, 2)}`);
        const p = [...path, v], tag = tagOf(v);
        if (tag === 'Arguments') { ok(Array.isArray(w)); eq(w.length, v.length); for (let i = 0; i < v.length; i++) walk(v[i], w[i], p, `${at}[${i}]`); return; }
        if (typeof v === 'function') { eq(typeof w, 'function', at); eq(String(w), String(v), at); return; }
        eq(tagOf(w), tag, at);
        switch (tag) {
            case 'Array': eq(w.length, v.length, at); eq(Object.keys(w), Object.keys(v).filter(k => /^\d+$/.test(k)), at); for (const k of Object.keys(w)) walk(v[k], w[k], p, `${at}[${k}]`); return;
            case 'Map': { const x = [...v], y = [...w]; eq(y.length, x.length, at); x.forEach(([k, u], i) => { walk(k, y[i][0], p, `${at}.key${i}`); walk(u, y[i][1], p, `${at}.val${i}`); }); return; }
            case 'Set': { const x = [...v], y = [...w]; eq(y.length, x.length, at); x.forEach((u, i) => walk(u, y[i], p, `${at}.el${i}`)); return; }
            case 'Error': eq(w.message, v.message, at); ok(Object.getPrototypeOf(w) === Object.getPrototypeOf(v), at); if (v instanceof AggregateError) { eq(w.errors.length, v.errors.length, at); v.errors.forEach((u, i) => walk(u, w.errors[i], p, `${at}.err${i}`)); } return;
            case 'DOMException': eq(w.message, v.message, at); return;
            case 'Date': ok(Object.is(v.getTime(), w.getTime()), at); return;
            case 'RegExp': eq(w.source, v.source, at); eq(w.flags, v.flags, at); return;
            case 'String': case 'Number': case 'Boolean': case 'BigInt': ok(Object.is(v.valueOf(), w.valueOf()), at); return;
            case 'URL': case 'URLSearchParams': eq(String(w), String(v), at); return;
        }
        if (ArrayBuffer.isView(v)) { ok(Object.getPrototypeOf(w) === Object.getPrototypeOf(v), at); eq([...w].map(x => Object.is(x, -0) ? '-0' : String(x)), [...v].map(x => Object.is(x, -0) ? '-0' : String(x)), at); return; }
        eq(Object.getPrototypeOf(w) === null, Object.getPrototypeOf(v) === null, `${at}: null prototype`);
        const en = o => Reflect.ownKeys(o).filter(k => Object.prototype.propertyIsEnumerable.call(o, k));
        eq(en(w).length, en(v).length, `${at}: properties`);
        for (const k of en(v)) { ok(Object.hasOwn(w, k), () => `${at}: property ${String(k)} lost`); walk(v[k], w[k], p, `${at}.${String(k)}`); }
    };
    const check = v => { const s = stringify(v); eq(typeof s, 'string'); walk(v, evaluate(v, s), [], 'value'); eq(stringify(v), s, 'a second call'); return s.length; };
    const names = Object.keys(kinds), two = names.filter(k => kinds[k][1]);
    const leaves = [undefined, null, NaN, -0, 'q"\n', true, -7n, 1e21, FOR, Symbol.iterator];
    const build = (ks, refs) => { const ns = ks.map(k => kinds[k][0]()); ks.forEach((k, i) => kinds[k][1]?.(ns[i], ...refs(i, ns))); return ns[0]; };
    t.cases('primitives', [...leaves, Infinity, -Infinity, 0, 0.1, 5e-324, 2 ** 53, 123456789012345680000, 0n, 10n ** 30n, false, '', Symbol.asyncIterator, Symbol.for('')], v => check(v));
    t.cases('symbols', [undefined, '', 'a', 'Symbol.iterator', 'Symbol.foo', 'Symbol.', 'a"b\n', 'Symbol.length', 'Symbol.for', ')'], d => { const s = Symbol(d); const w = evaluate(s, stringify(s)); ok(typeof w === 'symbol' && Symbol.keyFor(w) === undefined && w !== Symbol.iterator); eq(w.description, d); const f = Symbol.for(String(d)); ok(evaluate(f, stringify(f)) === f); const o = evaluate(0, stringify({ [s]: 1, [f]: 2 })); eq(o[f], 2); eq(Object.getOwnPropertySymbols(o).length, 2); });
    t.cases('strings', t.strings(['a', '"', "'", '\\', '\n', '\u2028', '\ud800', '`', '$', '{', '\0', ']'], 0, 3), s => { check(s); check({ [s]: s }); check([s]); check(new Error(s)); check(new String(s)); });
    t.cases('one-node', t.product(names, [...leaves.map((v, i) => i), 'none', 'self'], [0, 2, 4, 8, 'none', 'self']), ([k, a, b]) => { if (!kinds[k][1] && (a !== 0 || b !== 0)) return; return check(build([k], (i, ns) => [a, b].map(x => x === 'none' ? NONE : x === 'self' ? ns[0] : leaves[x]))); });
    t.cases('two-nodes', t.product(two, names, ['-', 0, 1], ['-', 0, 1], ['-', 0, 1], ['-', 0, 1]), ([k0, k1, ...r]) => { if ((r[0] !== 1 && r[1] !== 1) || (!kinds[k1][1] && (r[2] !== '-' || r[3] !== '-'))) return; return check(build([k0, k1], (i, ns) => [r[2 * i], r[2 * i + 1]].map(x => x === '-' ? NONE : ns[x]))); });
    const cont = t.thorough ? two : ['obj', 'arr', 'map', 'set', 'agg', 'nul'];
    t.cases('three-nodes', t.product(cont, cont, cont, [1, 2], t.thorough ? [0, 2] : [0, 1, 2], t.thorough ? [0, 2] : [0, 1, 2, '-'], [0, 1, 2], t.thorough ? [1, '-'] : [0, 1, '-'], [0, 1, 2]), ([k0, k1, k2, ...r]) => check(build([k0, k1, k2], (i, ns) => [r[2 * i], r[2 * i + 1]].map(x => x === '-' ? NONE : ns[x]))));
    t.cases('shared', t.product(names, ['arr', 'map', 'set', 'obj', 'agg']), ([k, c]) => { const x = kinds[k][0](); kinds[k][1]?.(x, 1, 2); for (const v of [[x, x], { a: x, b: { c: x } }, new Map([[x, x]]), [[x], [x]]]) { check(v); ok(!stringify(v).includes('[Circular]'), `a shared ${k} is reported as circular`); } });
    t.cases('holes', t.words([NONE, undefined, 0], 0, 6), w => { const a = []; a.length = w.length; w.forEach((v, i) => def(a, i, v)); return check(a); });
    t.cases('sparse', t.product([48, 49, 50, 51, 10000, 4294967295], [[], [0], [1, 47], [0, 1, 2], [46]]), ([n, ks]) => { if (n > 1e6 && ks.some(k => k === 0 && false)) return; const a = Array(n); for (const k of ks) a[k] = k ? [k] : undefined; return check(a); });
    t.cases('dense', [0, 1, 49, 50, 51, 200], n => { check(Array.from({ length: n }, (x, i) => i)); check(Array.from({ length: n }, () => undefined)); });
    t.cases('chains', t.product(['obj', 'arr', 'map', 'set', 'agg', 'nul'], ['obj', 'arr', 'map', 'set'], [9, 17, 33, 65, 130], ['none', 0, 'mid', 'last']), ([k0, k1, n, back]) => { const ks = t.range(0, n - 1).map(i => i % 2 ? k1 : k0); return check(build(ks, (i, ns) => i === n - 1 ? [back === 'none' ? NONE : ns[back === 0 ? 0 : back === 'mid' ? n >> 1 : n - 1], 1] : [ns[i + 1], NONE])); });
    t.cases('wide', t.product(['obj', 'arr', 'map', 'map-key', 'set', 'agg'], [9, 17, 33, 65, 130, 513], ['same', 'fresh', 'self', 'leaf', 'mixed']), ([kind, n, what]) => {
        const s = { s: [1] }; let root; const el = i => what === 'same' ? s : what === 'fresh' ? { i } : what === 'self' ? (i % 3 ? i : root) : what === 'mixed' ? [i, 'q"', [i], { i }, undefined, null, () => 1][i % 7] : i;
        if (kind === 'map' || kind === 'map-key') { root = new Map(); for (let i = 0; i < n; i++) kind === 'map' ? root.set(i, el(i)) : root.set({ k: el(i) }, i); } else if (kind === 'set') { root = new Set(); for (let i = 0; i < n; i++) root.add({ e: el(i) }); } else if (kind === 'agg') { root = new AggregateError([], 'm'); for (let i = 0; i < n; i++) root.errors.push(el(i)); } else { root = kind === 'arr' ? [] : {}; for (let i = 0; i < n; i++) root[kind === 'arr' ? i : 'k ' + i] = el(i); }
        return check(root);
    });
    t.cases('strings-long', t.longs(['a', '"', '\\', '\n', '\u2028', '\ud800', '中', '${', '\0'], [33, 130, 1025]), w => { const s = w.join(''); check(s); check({ [s]: [s] }); check(new Error(s)); });
    t.cases('typed', [Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array, BigInt64Array, BigUint64Array, Buffer], C => { for (const n of [0, 1, 3, 60]) { const v = C === Buffer ? Buffer.alloc(n, 7) : C.from({ length: n }, (x, i) => C.name.startsWith('Big') ? BigInt(i * 9) : i * 99); check(v); check({ v }); } });
    t.cases('errors', t.product([Error, EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError, DOMException], ['', 'm', '"\n']), ([C, m]) => { const e = new C(m), w = evaluate(e, stringify(e)); eq(w.message, m); ok(Object.getPrototypeOf(w) === Object.getPrototypeOf(e)); });
    t.cases('aggregate-shapes', t.words([0, 1, 2, 3], 0, 3), w => check(new AggregateError(w.map(i => [1, new Error('e'), new AggregateError([2], 'in'), [null]][i]), 'top')));
    t.cases('functions', [[0, () => 1], [1, function () { return 1; }], [2, async () => 1], [3, function* g() { yield 1; }], [4, class A { x() { return 1; } }], [5, x => ({ x })]], ([, f]) => { check(f); check([f, { f }]); check(new Map([[f, f]])); }, { key: ([i]) => i });
    t.cases('prototypes', ['Object', 'Array', 'Function', 'Map', 'Set', 'Date', 'RegExp', 'Error', 'Promise', 'Number', 'String', 'Boolean', 'Symbol', 'BigInt', 'Uint8Array', 'WeakMap', 'TypeError', 'URL'], n => { const P = globalThis[n].prototype; ok(evaluate(P, stringify(P)) === P, `${n}.prototype`); ok(evaluate(0, stringify([P]))[0] === P); });
    // ---- options and custom serializers
    t.cases('nearest-date', t.product([undefined, false, true], [0, 1, 999, 1000, -1, 500, 86400000]), ([near, off]) => { const real = Date.now, T = 1700000000000; Date.now = () => T; try { const s = stringify(new Date(T + off), near === undefined ? undefined : { nearestDate: near }); eq(s === 'new Date()', near === true && off >= 0 && off < 1000, s); if (s !== 'new Date()') eq(evaluate(0, s).getTime(), T + off); } finally { Date.now = real; } });
    const wrap = [[v => v, s => s], [v => [v], s => `[${s}]`], [v => ({ a: v }), s => `{"a":${s}}`], [v => new Map([[1, v]]), s => `new Map([[1,${s}]])`], [v => new Set([v]), s => `new Set([${s}])`], [v => [v, v], s => `[${s},${s}]`]];
    t.cases('custom', t.product([0, 1, 2, 3, 4, 5], wrap.map((w, i) => i)), ([k, i]) => { const [mk, ex] = wrap[i], S = U.toStringMethod; const v = [{ [S]: () => 'T1' }, Object.defineProperty([], S, { value: () => 'T2' }), Object.assign(() => 1, { [S]: () => 'T3' }), Object.create({ [S]() { return 'T4'; } }), { toString: () => 'T5' }, new (class { toString() { return 'T6'; } })()][k]; eq(stringify(mk(v)), ex('T' + (k + 1))); });
    t.cases('custom-this', [0], () => { const o = { n: 5, [U.toStringMethod]() { return 'n' + this.n; } }; eq(stringify(o), 'n5'); eq(stringify({ toString() { return 's' + this.q; }, q: 1 }), 's1'); const bad = { a: 1, [U.toStringMethod]: 5 }; eq(evaluate(0, stringify(bad)).a, 1); const thr = Object.defineProperty({ a: 1 }, U.toStringMethod, { value() { throw 1; } }); check(thr); });
    t.cases('error-handler', t.product([0, 1, 2], wrap.map((w, i) => i), [false, true]), ([k, i, withH]) => { const E = new Error('boom'); const v = [{ toString() { throw E; } }, Object.create(null, { toString: { get() { throw E; } } }), { [Symbol.toStringTag]: 'X', toString() { throw E; } }][k]; const [mk, ex] = wrap[i], got = []; const r = attempt(() => stringify(mk(v), withH ? { errorHandler: e => { got.push(e); return 'H'; } } : {})); if (withH) { ok(r.ok && got.length && got.every(e => e === E)); eq(r.value, ex('H')); } else ok(!r.ok && r.error === E); });
    t.cases('sync-promises', wrap.map((w, i) => i), i => { const [mk, ex] = wrap[i]; for (const p of [Promise.resolve(1), new Promise(() => {})]) eq(stringify(mk(p)).replace(/\/\*.*?\*\//g, '').replace(/\s+/g, ''), ex('newPromise(()=>{})').replace(/\s+/g, '')); });
    // ---- asynchronous form on values without promises is the synchronous text
    await t.casesAsync('async-plain', t.product(names, two), async ([k0, k1]) => { const v = build([k1, k0], (i, ns) => [ns[1 - i], 5]); eq(await U.asyncStringify(v), stringify(v)); });
    await t.casesAsync('async-options', t.product([undefined, {}, { nearestDate: false }, { nearestDate: true }], [0, 500, 1000], wrap.map((w, i) => i)), async ([o, off, i]) => { const real = Date.now, T = 1700000000000; Date.now = () => T; try { const v = wrap[i][0](new Date(T + off)), s = await (o ? U.asyncStringify(v, o) : U.asyncStringify(v)); eq(s, stringify(v, o)); eq(/new Date\(\)/.test(s), !!(o && o.nearestDate) && off < 1000); } finally { Date.now = real; } });
    await t.casesAsync('async-error-handler', t.product([0, 1, 2], wrap.map((w, i) => i), [false, true, 'empty']), async ([k, i, withH]) => { const E = new Error('boom'), v = [{ toString() { throw E; } }, Object.create(null, { toString: { get() { throw E; } } }), { [Symbol.toStringTag]: 'X', toString() { throw E; } }][k], [mk, ex] = wrap[i], got = []; const r = await U.asyncStringify(mk(v), withH === true ? { errorHandler: e => { got.push(e); return 'H'; } } : withH ? {} : undefined).then(value => ({ value }), error => ({ error })); if (withH === true) { eq(r.value, ex('H')); ok(got.length && got.every(e => e === E)); } else ok(r.error === E, show(r)); });
    // ---- settlement orders
    // a shape is a template: numbers are promises; deps: promise -> template of its value
    const shapes = [
        [() => 0, {}], [() => [0], {}], [() => [0, 1], {}], [() => ({ a: 0, b: [0] }), {}], [() => new Map([[0, 1]]), {}], [() => new Set([0, 1]), {}], [() => [0, 1, 2], {}],
        [() => 0, { 0: () => [1] }], [() => [0, 1], { 0: () => ({ x: 1 }) }], [() => 0, { 0: () => ({ x: 1 }), 1: () => [2] }], [() => [0, 2], { 0: () => [1, 1] }], [() => [0, 1], { 0: () => 'loop0', 1: () => [0] }]
    ];
    const modes = ['op', 'ok', 'err', 'never'];
    const cfgs = [];
    shapes.forEach((s, i) => { const n = i >= 6 && i !== 7 && i !== 8 && i !== 11 ? 3 : [2, 4, 5, 7, 8, 11].includes(i) ? 2 : 1; for (const m of t.product(...Array(n).fill(modes))) cfgs.push({ i, m: [...m] }); });
    await t.explore('async-orders', cfgs, (s, { i, m }) => {
        const w = U, [tpl, deps] = shapes[i];
        const ps = [], settled = [];
        const inst = x => typeof x === 'number' ? ps[x] : Array.isArray(x) ? x.map(inst) : x instanceof Map ? new Map([...x].map(([a, b]) => [inst(a), inst(b)])) : x instanceof Set ? new Set([...x].map(inst)) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([k, y]) => [k, inst(y)])) : x;
        const vals = [];
        for (let k = m.length - 1; k >= 0; k--) {
            const v = vals[k] = deps[k] ? (deps[k]() === 'loop0' ? { self: null } : deps[k]()) : 'v' + k;
            const E = new Error('e' + k); const done = kind => { settled[k] = { kind, at: s.now }; };
            let val; const fill = () => { val = deps[k] ? (deps[k]() === 'loop0' ? { self: ps[0] } : inst(v)) : v; return val; };
            if (m[k] === 'op') ps[k] = s.op('p' + k, [['ok', null], ['err', E]], { onSettle: kind => done(kind) }).then(() => fill());
            else if (m[k] === 'ok') { ps[k] = Promise.resolve().then(() => fill()); done('ok'); }
            else if (m[k] === 'err') { ps[k] = Promise.reject(E); done('err'); } else ps[k] = new Promise(() => {});
            ps[k].catch(() => {});
        }
        const value = inst(tpl()); let out;
        const at0 = s.now; let end;
        w.asyncStringify(value).then(v => { out = { v }; end = settled.map(x => x && { ...x }); s.log('result', v.replace(/\s+/g, ' ')); }, e => { out = { e }; });
        return () => {
            ok(out && !out.e, `asyncStringify ${out ? 'rejected: ' + show(out.e) : 'never settled'}`); eq(s.unhandled, [], 'unhandled rejections');
            ok(!out.v.includes('unknown'), out.v);
            // evaluate: promises become records
            const F = class { constructor() { this.st = 'pending'; } }; F.resolve = v => Object.assign(new F(), { st: 'ok', v }); F.reject = v => Object.assign(new F(), { st: 'err', v });
            const r = attempt(() => new Function('Promise', 'Circular', `return (${out.v})`)(F, MARK)); ok(r.ok, out.v);
            const found = new Map(), cmp = (x, y, path, since) => {
                if (typeof x === 'number') {
                    if (found.has(x)) since = Math.min(since, found.get(x)); found.set(x, since);
                    if (path.includes(x)) { ok(Array.isArray(y) && y[0] === MARK, `cycle through p${x}: ${out.v}`); return; }
                    ok(y instanceof F, `p${x} is not shown as a promise: ${out.v}`); const z = end[x];
                    if (!z) { eq(y.st, 'pending', `p${x} in ${out.v}`); return; }
                    if (y.st === 'pending') { ok(z.at > since, `p${x} settled in time but is shown as pending: ${out.v}`); return; }
                    eq(y.st, z.kind, `p${x} in ${out.v}`); if (z.kind === 'err') { eq(y.v.message, 'e' + x); return; }
                    const d = deps[x]; if (!d) eq(y.v, 'v' + x); else cmp(d() === 'loop0' ? { self: 0 } : d(), y.v, [...path, x], Math.max(since, z.at));
                    return;
                }
                if (x instanceof Map) { cmp([...x].flat(), [...y].flat(), path, since); return; } if (x instanceof Set) { cmp([...x], [...y], path, since); return; }
                eq(Object.keys(y), Object.keys(x)); for (const k of Object.keys(x)) cmp(x[k], y[k], path, since);
            };
            cmp(tpl(), r.value, [], at0);
        };
    }, { maxSteps: 40 });
    await t.explore('async-custom', t.product([0, 1, 2, 3, 4], wrap.map((w, i) => i), [false, true]), (s, [k, i, both]) => {
        const w = U, A = w.asyncToStringMethod, S = w.toStringMethod, [mk, ex] = wrap[i]; let st;
        const f = [() => s.op('ser', [['ok', 'A1'], ['err', new Error('no')]], { onSettle: kind => { st = { kind, at: s.now }; } }), () => 'A1', () => Promise.resolve('A1'), () => { throw new Error('no'); }, () => new Promise(() => {})][k];
        const v = Object.defineProperty({ q: 1 }, A, { value: f }); if (both) Object.defineProperty(v, S, { value: () => 'S1' });
        let out, end; w.asyncStringify(mk(v)).then(x => { out = { x }; end = st && { ...st }; s.log('result', x); }, e => { out = { e }; });
        return () => { ok(out && !out.e, 'did not resolve'); const fb = ex(both ? 'S1' : '{"q":1}'), good = ex('A1'); if (k === 1 || k === 2) eq(out.x, good); else if (k >= 3) eq(out.x, fb); else if (!end || end.kind === 'err') eq(out.x, fb); else if (end.at === 0) eq(out.x, good); else ok([fb, good].includes(out.x), out.x); };
    }, { maxSteps: 30 });
    // ---- a text made while another one is under way (by a serializer of the value)
    nested(t, 'inside', [[v => [v, 1, [v]]], [v => ({ a: { b: v }, c: 2 })], [v => new Map([[v, { v }]])], [v => new Set([[v], 'x'])], [v => { const o = { q: [v] }; o.q.push(o); return o; }], [v => new AggregateError([v, [v]], 'm')]].map(([mk], i) => ({ n: `shape ${i}`, run: h => stringify(mk(i % 2 ? { toString: () => { h(); return 'T' + i; } } : Object.defineProperty({}, U.toStringMethod, { value: () => { h(); return 'S' + i; } })), i % 3 ? undefined : { nearestDate: false }) })));
    const G = (n, mk) => ({ n, run: (lib, gate) => lib.asyncStringify(mk(gate)) });
    await overlap(t, 'two-at-once', () => U, [
        G('list', g => [g('a'), 1, g({ throw: new Error('no') })]), G('nested', g => ({ p: g(['in', 2]).then(v => [v]) })), G('late', g => [g('x', { at: 3000 }), g('y')]), G('cycle', g => { const o = { k: g('v') }; o.self = o; return o; }),
        G('map', g => { const p = g('m'); return new Map([[p, p], ['q', new Set([p])]]); }), G('own', g => [Object.defineProperty({}, U.asyncToStringMethod, { value: () => g('OWN') }), g(7)]), G('date', () => [new Date(5), { a: [] }])
    ], { late: true });
    // ---- the same value turned into text again: nothing of an earlier text is remembered
    const AG = [g => g('v'), g => [g('a'), { k: g({ throw: 7 }) }], g => { const p = g(['in']); return new Map([[p, p]]); }, g => ({ o: Object.defineProperty({}, U.asyncToStringMethod, { value: () => g('OWN') }), z: g(0) }), g => { let n = 0; return [Object.defineProperty({}, U.asyncToStringMethod, { value: () => 'N' + n++ }), g(1)]; }];
    await t.explore('again', t.product(t.range(0, AG.length - 1), t.range(0, 2), [2, 3]), (s, [i, shift, n]) => {
        let k = 0; const ps = new Map(), gate = v => { const id = k++, bad = v && typeof v === 'object' && 'throw' in v, p = s.op('p' + id, [bad ? ['err', v.throw] : ['ok', v]], { at: id % 2 ? 2000 : 1000 }); p.catch(() => {}); return p; }, value = AG[i](gate); const out = [];
        // calls at 0, between and after the settlements; a fresh equal value, settled as far as the first one is, must give the same text
        const at = [0, 500, 1500, 3000].slice(shift, shift + n); at.forEach((tm, j) => s.event('call' + j, () => { let kk = 0; const mirror = v => { const id = kk++, bad = v && typeof v === 'object' && 'throw' in v; if (s.now < (id % 2 ? 2000 : 1000)) return new Promise(() => {}); const p = bad ? Promise.reject(v.throw) : Promise.resolve(v); p.catch(() => {}); return p; };
            const rec = { tm: s.now, j }; out.push(rec); U.asyncStringify(value).then(x => { rec.x = x; }, e => { rec.e = e; }); if (i < 3) U.asyncStringify(AG[i](mirror)).then(x => { rec.y = x; }, e => { rec.e = e; }); }, { at: tm }));
        return () => { eq(out.length, at.length); for (const r of out) { ok(!r.e && r.x !== undefined, `text ${r.j} of shape ${i}: ${show(r.e ?? 'never settled')}`); if (i < 3) eq(r.x, r.y, `text ${r.j} of shape ${i} made at ${r.tm} after earlier texts, and of an equal value`); } if (i === 4) out.forEach((r, j) => ok(r.x.includes(`N${j}`), `text ${j}: ${r.x}`)); if (i === 3) { const last = out.at(-1); if (last.tm >= 3000) ok(last.x.includes('Promise.resolve(0)'), last.x); } };
    }, { maxSteps: 60, key: c => 'again ' + c.join() });
    // ---- every kind of settled value, fulfilled or rejected, shown as the text of that value, wherever the promise stands and whatever stands beside it
    const OUT = [undefined, null, 0, -0, NaN, '', 'x', false, true, 5n, Symbol.iterator, [], [undefined], {}, { a: 1 }, new Error('e'), new Date(5), /x/g, new Map(), new Set([0])];
    const flat = s => s.replace(/\s+/g, ' ');
    await t.casesAsync('settled-values', t.product(OUT.map((v, i) => i), ['resolve', 'reject'], wrap.map((w, i) => i), [null, 'resolve', 'reject']), async ([k, how, w, other]) => {
        const mk = (h, v) => { const p = Promise[h](v); p.catch(() => {}); return p; }, p = mk(how, OUT[k]), [build, ex] = wrap[w];
        const one = await U.asyncStringify(p), l = `a promise ${how}d with ${show(OUT[k])}`;
        eq(flat(one), flat(`Promise.${how}(${stringify(OUT[k])})`), l); eq(flat(await U.asyncStringify(build(p))), flat(ex(one)), `${l} in a container`);
        if (other) { const q = mk(other, OUT[(k + 1) % OUT.length]), two = await U.asyncStringify(q); eq(flat(await U.asyncStringify([q, build(p), q])), flat(`[${two},${ex(one)},${two}]`), `${l} beside another one`); }
        const T = { [U.asyncToStringMethod]: () => mk(how, how === 'resolve' ? 'own' : OUT[k]) };
        if (how === 'resolve') eq(flat(await U.asyncStringify(build(T))), flat(ex('own')), 'own asynchronous form');
    }, { key: c => c.join() });
    await again(t, [['stringify', stringify, () => [{ a: [1, new Map([[1, new Set([2])]])], d: new Date(5) }]], ['stringify', stringify, () => [{ a: new Date() }, { nearestDate: true }]], ['stringify', stringify, () => [[{ toString() { throw 1; } }], { errorHandler: () => 'H' }]], ['stringify', stringify, () => [[{ toString() { throw 1; } }]]], ['stringify', stringify, () => [(() => { const o = [1]; o.push(o); return o; })()]], ['asyncStringify', U.asyncStringify, () => [[Promise.resolve({ a: 1 })]]], ['asyncStringify', U.asyncStringify, () => [[Promise.resolve(1), new Promise(() => {})], { nearestDate: true }]], ['asyncStringify', U.asyncStringify, () => [{ x: (() => { const p = Promise.reject(5); p.catch(() => {}); return p; })() }]], ['asyncStringify', U.asyncStringify, () => [[{ toString() { throw 1; } }], { errorHandler: () => 'H' }]]], 'equal-calls');
};
