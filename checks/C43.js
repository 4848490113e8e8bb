'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
const { nested } = require('../lib/overlap');
exports.technique = 'bounded exhaustive enumeration of object graphs (every kind of node, every sharing and cycle) copied by the real code and compared by an independent isomorphism walk';
exports.bounds = 'every graph of 1 and 2 nodes over 24 kinds of object with two reference slots each (absent, a leaf, any node), every graph of 3 nodes over the container kinds, all property-attribute combinations, 40 forms of functions, every unsupported type at every position; all attribute lists up to length 3 for the attribute helpers; chains and cycles of up to 130 nodes, containers of up to 513 members, binary data up to 64 KiB; a second and third call made inside any callback of the first; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = [
    'functions are judged when their source needs no outer variable (the copy is made from the source text); the inferred name of an anonymous function is not judged, nor is the identity of prototype objects of functions',
    'a primitive symbol stored in a property is copied to an object wrapping the same symbol (pinned by the tests); generators are copied to a generator function (pinned); arguments objects become array-likes with the same elements; streams, frozen state, subclasses of built-ins and objects that lie about their toStringTag are not judged',
    'instances of user classes (listed as not supported) are judged only when the constructor takes no arguments and creates no own property: a property that the constructor creates keeps the value of the constructor'
];
exports.shards = 4;
exports.run = async t => {
    const U = t.world().load('@curong/util'), { copy } = U;
    class K { m() { return 1; } }
    const tagOf = v => Object.prototype.toString.call(v);
    // slots a and b hold: undefined (absent) or a value
    const def = (o, k, v) => { if (v !== NONE) o[k] = v; };
    const NONE = Symbol('none');
    const kinds = {
        obj: [() => ({ z: 0 }), (o, a, b) => { def(o, 'a', a); def(o, 'b', b); }],
        nul: [() => Object.create(null), (o, a, b) => { def(o, 'a', a); def(o, SYM, b); }],
        cls: [() => new K(), (o, a, b) => { def(o, 'a', a); def(o, 'b', b); }],
        arr: [() => [], (o, a, b) => { o.length = 3; def(o, 0, a); def(o, 1, b); }],
        map: [() => new Map(), (o, a, b) => { o.set(a === NONE ? 'k' : a, b === NONE ? 'v' : b); o.set('last', 1); }],
        set: [() => new Set(), (o, a, b) => { for (const v of [a, 's', b]) if (v !== NONE) o.add(v); }],
        date: [() => new Date(86400000), (o, a, b) => { def(o, 'a', a); def(o, 'b', b); }],
        bad: [() => new Date(NaN), (o, a) => def(o, 'a', a)],
        re: [() => { const r = /a(b)?/gy; r.lastIndex = 2; return r; }, (o, a) => def(o, 'a', a)],
        err: [() => new TypeError('m'), (o, a, b) => { if (a !== NONE) Object.defineProperty(o, 'cause', { value: a, writable: true, configurable: true }); def(o, 'b', b); }],
        agg: [() => new AggregateError([], 'm'), (o, a, b) => { for (const v of [a, b]) if (v !== NONE) o.errors.push(v); }],
        str: [() => new String('ab'), (o, a) => def(o, 'a', a)],
        num: [() => new Number(-0), (o, a) => def(o, 'a', a)],
        bool: [() => new Boolean(false), (o, a) => def(o, 'a', a)],
        big: [() => Object(5n), (o, a) => def(o, 'a', a)],
        fn: [() => function f(x) { return x + 1; }, (o, a, b) => { def(o, 'a', a); def(o, 'b', b); }],
        buf: [() => Buffer.from([1, 2, 255]), (o, a) => def(o, 'a', a)],
        ab: [() => new Uint8Array([3, 0, 9]).buffer, (o, a) => def(o, 'a', a)],
        u8: [() => new Uint8Array([1, 0, 255]), (o, a) => def(o, 'a', a)],
        i16: [() => new Int16Array([-300, 7]), (o, a) => def(o, 'a', a)],
        f64: [() => new Float64Array([1.5, -0, NaN]), (o, a) => def(o, 'a', a)],
        b64: [() => new BigInt64Array([-3n]), (o, a) => def(o, 'a', a)],
        dv: [() => new DataView(new Uint8Array([9, 8, 7, 6]).buffer, 1, 2), (o, a) => def(o, 'a', a)],
        url: [() => new URL('http://u:p@h:81/a?b=c#d'), (o, a) => def(o, 'a', a)],
        usp: [() => new URLSearchParams('a=1&a=%26'), (o, a) => def(o, 'a', a)]
    };
    const SYM = Symbol('key');
    const isObj = v => (typeof v === 'object' && v !== null) || typeof v === 'function';
    const bytes = v => v instanceof ArrayBuffer || v instanceof SharedArrayBuffer ? new Uint8Array(v) : new Uint8Array(v.buffer, v.byteOffset, v.byteLength);
    const skipFn = new Set(['name', 'prototype', 'arguments', 'caller']);
    // independent check: b is an isomorphic image of a that shares no object with it
    const iso = (a0, b0) => {
        const to = new Map(), back = new Map();
        const go = (a, b, at) => {
            if (!isObj(a)) {
                if (typeof a === 'symbol') { ok(b === a || (typeof b === 'object' && b.valueOf() === a), `${at}: symbol`); return; }
                ok(Object.is(a, b), () => `${at}: ${show(a)} copied to ${show(b)}`); return;
            }
            ok(isObj(b), () => `${at}: an object copied to ${show(b)}`);
            if (to.has(a)) { ok(to.get(a) === b, `${at}: sharing or cycle not kept`); return; }
            if (typeof a === 'function' && /\{ \[native code\] \}$/.test(Function.prototype.toString.call(a))) { ok(a === b, `${at}: native function`); return; }
            ok(a !== b, `${at}: the copy shares the ${tagOf(a)} with the original`);
            ok(!back.has(b), `${at}: two different objects copied to the same one`);
            to.set(a, b); back.set(b, a);
            eq(typeof b, typeof a, at);
            eq(tagOf(b), tagOf(a), at);
            ok(typeof a === 'function' || Object.getPrototypeOf(a) === Object.getPrototypeOf(b), `${at}: prototype`);
            if (a instanceof Date) ok(Object.is(a.getTime(), b.getTime()), `${at}: date`);
            if (a instanceof RegExp) eq([b.source, b.flags, b.lastIndex], [a.source, a.flags, a.lastIndex], at);
            if (a instanceof Error) { eq(b.stack, a.stack, `${at}: stack`); eq([b.name, b.message], [a.name, a.message], at); }
            if (['[object String]', '[object Number]', '[object Boolean]', '[object BigInt]'].includes(tagOf(a)) && !Object.hasOwn(a, Symbol.toStringTag)) ok(Object.is(a.valueOf(), b.valueOf()), `${at}: boxed value`);
            if (a instanceof URL || a instanceof URLSearchParams) eq(String(b), String(a), at);
            if (typeof a === 'function') eq(String(b), String(a), at);
            if (ArrayBuffer.isView(a) || a instanceof ArrayBuffer || a instanceof SharedArrayBuffer) {
                const x = bytes(a), y = bytes(b); eq([...y], [...x], `${at}: bytes`);
                if (ArrayBuffer.isView(a)) { eq(b.byteLength, a.byteLength, at); if (!(a instanceof DataView)) eq(b.length, a.length, at); }
                if (x.length) { const o = x[0], c = y[0]; x[0] ^= 1; eq(y[0], c, `${at}: memory shared`); x[0] = o; y[0] ^= 1; eq(x[0], o, `${at}: memory shared`); y[0] = c; }
            }
            if (a instanceof Map) { const x = [...a], y = [...b]; eq(y.length, x.length, `${at}: entries`); x.forEach(([k, v], i) => { go(k, y[i][0], `${at}.key${i}`); go(v, y[i][1], `${at}.value${i}`); }); }
            if (a instanceof Set) { const x = [...a], y = [...b]; eq(y.length, x.length, `${at}: elements`); x.forEach((v, i) => go(v, y[i], `${at}.elem${i}`)); }
            const index = ArrayBuffer.isView(a) && !(a instanceof DataView);
            const keys = o => Reflect.ownKeys(o).filter(k => !(typeof o === 'function' && skipFn.has(k)) && !(o instanceof Error && k === 'stack') && !(index && /^\d+$/.test(String(k))));
            const ks = keys(a); eq(new Set(keys(b)), new Set(ks), `${at}: own keys`);
            for (const k of ks) {
                const x = Object.getOwnPropertyDescriptor(a, k), y = Object.getOwnPropertyDescriptor(b, k), p = `${at}.${String(k)}`;
                eq([y.writable, y.enumerable, y.configurable, 'value' in y], [x.writable, x.enumerable, x.configurable, 'value' in x], `${p}: attributes`);
                if ('value' in x) go(x.value, y.value, p); else { go(x.get, y.get, p + '[get]'); go(x.set, y.set, p + '[set]'); }
            }
        };
        go(a0, b0, 'root');
    };
    // structural signature of the original, to see that copying leaves it alone
    const sig = v0 => {
        const ids = new Map(), out = [];
        const go = v => {
            if (!isObj(v)) return out.push(typeof v, typeof v === 'symbol' ? v.description : Object.is(v, -0) ? '-0' : String(v));
            if (ids.has(v)) return out.push('#' + ids.get(v));
            ids.set(v, ids.size); out.push(tagOf(v));
            if (v instanceof Date) out.push(v.getTime()); if (v instanceof RegExp) out.push(String(v), v.lastIndex);
            if (v instanceof ArrayBuffer || ArrayBuffer.isView(v)) out.push(bytes(v).join());
            if (v instanceof Map) for (const [k, x] of v) { go(k); go(x); } if (v instanceof Set) for (const x of v) go(x);
            if (v instanceof URLSearchParams || v instanceof URL) out.push(String(v));
            for (const k of Reflect.ownKeys(v)) if (!(typeof v === 'function' && skipFn.has(k))) { const d = Object.getOwnPropertyDescriptor(v, k); out.push(String(k), `${d.writable}${d.enumerable}${d.configurable}`); 'value' in d ? go(d.value) : out.push(typeof d.get, typeof d.set); }
        };
        go(v0); return out.join('|');
    };
    const check = v => { const s = sig(v), c = copy(v); iso(v, c); eq(sig(v), s, 'copying changed the original'); };
    const names = Object.keys(kinds);
    const leaves = [undefined, null, NaN, -0, 'q', true, 7n, 1];
    const build = (ks, refs) => { const ns = ks.map(k => kinds[k][0]()); ks.forEach((k, i) => kinds[k][1](ns[i], ...refs(i, ns))); return ns[0]; };

    t.cases('primitives', [...leaves, Infinity, '', 'x', false, 0, 10n, 2 ** 53], v => ok(Object.is(copy(v), v), `copy(${show(v)})`));
    t.cases('one-node', t.product(names, [0, 1, 2, 3, 4, 5, 6, 7, 'none', 'self'], [0, 3, 4, 6, 'none', 'self']), ([k, a, b]) => check(build([k], (i, ns) => [a, b].map(x => x === 'none' ? NONE : x === 'self' ? ns[0] : leaves[x]))));
    t.cases('two-nodes', t.product(names, names, ['-', 0, 1], ['-', 0, 1], ['-', 0, 1], ['-', 0, 1]), ([k0, k1, ...r]) => {
        if (r[0] !== 1 && r[1] !== 1) return;
        check(build([k0, k1], (i, ns) => [r[2 * i], r[2 * i + 1]].map(x => x === '-' ? NONE : ns[x])));
    });
    const cont = t.thorough ? ['obj', 'arr', 'map', 'set', 'agg', 'fn', 'nul', 'err'] : ['obj', 'arr', 'map', 'set'];
    t.cases('three-nodes', t.product(cont, cont, cont, [1, 2], [0, 1, 2], [0, 1, 2, '-'], [0, 1, 2], [0, 1, 2, '-'], [0, 1, 2]), ([k0, k1, k2, ...r]) => {
        check(build([k0, k1, k2], (i, ns) => [r[2 * i], r[2 * i + 1]].map(x => x === '-' ? NONE : ns[x])));
    });
    if (t.thorough) t.cases('four-nodes', t.product(cont, cont, cont, cont, [1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]), ([k0, k1, k2, k3, ...r]) => check(build([k0, k1, k2, k3], (i, ns) => [ns[r[i]], ns[(r[i] + 1) % 4]])));
    // ---- property attributes
    const bools = [true, false];
    t.cases('attributes', t.product(['obj', 'nul', 'arr', 'fn', 'date', 'map', 'err'], ['a', SYM, '__proto__', 'constructor', '5'], bools, bools, bools, ['leaf', 'node', 'self', 'get', 'set', 'both', 'same']), ([k, key, w, e, c, what]) => {
        if (key === 'constructor' && k !== 'fn' && k !== 'nul' && k !== 'obj') return;
        const o = kinds[k][0](), v = { n: [] };
        if (what === 'leaf' || what === 'node' || what === 'self') Object.defineProperty(o, key, { value: what === 'leaf' ? 1 : what === 'node' ? v : o, writable: w, enumerable: e, configurable: c });
        else { if (!w) return; const g = function () { return 'got'; }, s = function (x) { this.seen = x; }; Object.defineProperty(o, key, { ...(what !== 'set' && { get: g }), ...(what !== 'get' && { set: what === 'same' ? g : s }), enumerable: e, configurable: c }); }
        o.other = v; check(o);
    });
    // ---- functions: same source and same behaviour
    const forms = [
        () => 5, function () { return 5; }, function f() { return 5; }, x => x, (a, b) => a + b, (a, ...r) => r.length, ({ a } = {}) => a, () => ({ a: 1 }), (a, b) => { return [a, b]; },
        { m() { return 5; } }.m, { 'a b'() { return 5; } }['a b'], { 0() { return 5; } }[0], { get() { return 5; } }.get, { set() { return 6; } }.set, { async() { return 5; } }.async, { function() { return 5; } }.function, { return() { return 5; } }.return,
        { [Symbol.iterator]() { return 5; } }[Symbol.iterator], { ['x' + 1]() { return 5; } }.x1, { m: function () { return 5; } }.m, { 'get x': function () { return 5; } }['get x'], { 'set y': () => 7 }['set y'], { m(a, b = 2) { return a + b; } }.m, { $() { return 1; } }.$, { o() { return typeof o; } }.o, { d() { return typeof d + typeof __$$INNER$$__; } }.d
    ];
    t.cases('functions', forms.map((f, i) => [i, f]), ([, f]) => { for (const w of [x => x, x => ({ f: x, g: x }), x => [x], x => new Map([[x, x]])]) check(w(f)); const c = copy(f); for (const a of [[], [1], [1, 2, 3], [{ a: 9 }]]) eq(c.apply({}, a), f.apply({}, a), `copy of ${f}`); }, { key: ([i]) => i });
    const gens = [function* () { yield 1; yield 2; }, { *m() { yield 1; } }.m, { *[Symbol.iterator]() { yield 3; } }[Symbol.iterator]];
    t.cases('generator-functions', gens.map((f, i) => [i, f]), ([, f]) => { check({ f }); eq([...copy(f)()], [...f()], String(f)); }, { key: ([i]) => i });
    await t.casesAsync('async-functions', [[0, async () => 5], [1, async function () { return 5; }], [2, { async m() { return 5; } }.m], [3, { async [Symbol.iterator]() { return 5; } }[Symbol.iterator]], [4, async function* () { yield 5; }], [5, { async *m() { yield 5; } }.m], [6, async x => x]], async ([i, f]) => { check({ f }); const c = copy(f); if (i === 4 || i === 5) eq(await c().next(), await f().next()); else eq(await c(1), await f(1)); }, { key: ([i]) => i });
    t.cases('accessors', [[0, { get x() { return 5; } }], [1, { get x() { return this.y; }, set x(v) { this.y = v; } }], [2, { set x(v) { this.y = v; } }], [3, { get 'a b'() { return 1; } }], [4, { get 0() { return 1; } }], [5, { get "it's"() { return 1; } }], [6, { get ['c' + 'd']() { return 2; } }], [7, { get get() { return 3; }, set set(v) { this.z = v; } }], [8, Object.defineProperty({}, 'x', { get() { return 3; }, enumerable: true })], [9, Object.defineProperty({}, 'x', { get: () => 3, set: () => {} })], [10, { get [Symbol.iterator]() { return 4; } }], [11, { get static() { return 1; } }], [12, { get async() { return 1; }, get: 1, set: 2 }]], ([, o]) => {
        check(o); check([o, { o }]); const c = copy(o);
        const act = v => { const r = []; for (const k of Reflect.ownKeys(v)) { r.push(v[k]); attempt(() => { v[k] = 9; }); r.push(v[k]); } r.push(v.y, v.z); return r; };
        const b = copy(o); eq(act(c), act(b)); eq(act(c), (act(o), act(o)));
    }, { key: ([i]) => i });
    t.cases('native-functions', [Math.max, Array.prototype.map, parseInt, Symbol, Object, Map], f => { ok(copy(f) === f); ok(copy({ f }).f === f); });
    // ---- values in every kind of built-in, at every place
    const place = [v => v, v => [v], v => ({ a: v }), v => new Map([['k', v]]), v => new Map([[v, 1]]), v => new Set([v]), v => Object.assign(new Date(0), { v }), v => Object.assign(() => 1, { v }), v => new AggregateError([v]), v => new Error('x', { cause: v }), v => Object.create(null, { v: { value: v } })];
    const good = [() => [], () => [,], () => [, 1, ,], () => Object.assign([1], { length: 4 }), () => Object.assign([1, 2], { x: 1, '-1': 2 }), () => new Error('m'), () => new RangeError(), () => new EvalError('q'), () => new URIError('q'), () => new SyntaxError('q'), () => new ReferenceError('q'), () => Object.assign(new Error('m'), { name: 'N', code: 5 }), () => new Error('a', { cause: new Error('b') }), () => new AggregateError([1, new Error('x')], 'agg'), () => new AggregateError([]), () => new Uint8ClampedArray([300, 1]), () => new Int8Array([-1]), () => new Uint16Array([65535]), () => new Int32Array([-1]), () => new Uint32Array([2 ** 32 - 1]), () => new Float32Array([0.5, NaN]), () => new BigUint64Array([5n]), () => new Uint8Array([1, 2, 3, 4]).subarray(1, 3), () => new Int16Array(new ArrayBuffer(8), 2, 2), () => Buffer.from('abcdef').subarray(2, 4), () => Buffer.alloc(0), () => new ArrayBuffer(0), () => new DataView(new ArrayBuffer(8), 3), () => new DataView(new ArrayBuffer(0)), () => Object(Symbol.for('s')) && Object('x'), () => new String(''), () => new Number(NaN), () => new Boolean(true), () => Object(0n), () => new Map(), () => new Map([[NaN, 1], [-0, 2], [null, 3]]), () => new Set([undefined, NaN, '']), () => new RegExp('/', 'u'), () => /(?:)/, () => /a/dgimsuy, () => new Date(8.64e15), () => new URL('file:///a%20b'), () => new URLSearchParams([['a&b', '='], ['é', '+ ']]), () => ({}), () => Object.create(null), () => new K(), () => ({ __proto__: null, a: 1 }), () => JSON.parse('{"__proto__":{"a":[1]}}'), () => ({ length: 2, 0: 1 }), () => ({ then: null }), () => ({ [Symbol.iterator]: 1, [Symbol.for('x')]: [] }), () => ({ toString: 1, valueOf: 2, hasOwnProperty: 3 })];
    t.cases('values-in-places', t.product(good.map((g, i) => i), place.map((p, i) => i)), ([g, p]) => { const v = good[g](); check(place[p](v)); check({ x: place[p](v), y: v }); });
    t.cases('symbols', t.product([Symbol('a'), Symbol.for('b'), Symbol.iterator], [0, 1]), ([s, boxed]) => { const r = copy(boxed ? Object(s) : s); eq(typeof r, 'object'); ok(r.valueOf() === s); const m = copy(new Map([[s, s]])); ok(m.get(s) === s); ok(copy(new Set([s])).has(s)); }, { key: ([s, b]) => [String(s), b] });
    t.cases('dom-exception', t.product(['m', ''], ['AbortError', 'Error', 'X']), ([m, n]) => { const o = new DOMException(m, n), c = copy({ o }).o; ok(c !== o && c instanceof DOMException); eq([c.message, c.name, c.code, c.stack], [m, n, o.code, o.stack]); });
    await t.casesAsync('web-values', [0, 1, 2], async i => {
        if (i === 0) { const f = new FormData(); f.append('a', '1'); f.append('b', 'x'); f.append('a', '2'); const c = copy(f); ok(c !== f && c instanceof FormData); eq([...c], [['a', '1'], ['b', 'x'], ['a', '2']]); c.append('z', '1'); ok(!f.has('z')); }
        if (i === 1) { const f = new Blob(['ab', 'c'], { type: 'text/plain' }), c = copy(f); ok(c !== f && c instanceof Blob); eq([await c.text(), c.type, c.size], ['abc', 'text/plain', 3]); }
        if (i === 2) { const f = new File(['ab'], 'n', { type: 'a/b', lastModified: 5 }), c = copy(f); ok(c !== f && c instanceof File); eq([await c.text(), c.name, c.type, c.lastModified], ['ab', 'n', 'a/b', 5]); }
    });
    const bad = [() => Promise.resolve(), () => new WeakMap(), () => new WeakSet(), () => new WeakRef({}), () => [][Symbol.iterator](), () => new Map().entries(), () => new Event('x'), () => Atomics, () => ({ get [Symbol.toStringTag]() { return 'Custom'; } })];
    t.cases('unsupported', t.product(bad.map((g, i) => i), place.map((p, i) => i)), ([g, p]) => { const v = bad[g](), o = { first: [], o: place[p](v) }; ok(!attempt(() => copy(o)).ok, 'an unsupported value was copied'); ok(!attempt(() => copy(place[p](v))).ok, 'an unsupported value was copied'); });
    // ---- repeated copies of the same cyclic value are independent
    t.cases('independent-copies', t.product(names, names), ([k0, k1]) => { const o = build([k0, k1], (i, ns) => i ? [ns[0], NONE] : [ns[1], ns[0]]), a = copy(o), b = copy(o); iso(o, a); iso(o, b); iso(a, b); iso(a, copy(a)); });
    // ---- deep chains, long cycles and wide containers
    const chainKinds = ['obj', 'arr', 'map', 'set', 'nul', 'agg', 'fn', 'err'];
    t.cases('chains', t.product(chainKinds, chainKinds.slice(0, 4), [9, 17, 33, 65, 130], ['none', 0, 'mid', 'last']), ([k0, k1, n, back]) => { const ks = t.range(0, n - 1).map(i => i % 2 ? k1 : k0); check(build(ks, (i, ns) => i === n - 1 ? [back === 'none' ? NONE : ns[back === 0 ? 0 : back === 'mid' ? n >> 1 : n - 1], 1] : [ns[i + 1], i % 5 === 3 ? ns[0] : NONE])); });
    t.cases('wide', t.product(['obj', 'arr', 'map', 'map-key', 'set', 'agg', 'date', 'fn'], [9, 17, 33, 65, 130, 513], ['same', 'fresh', 'two', 'self', 'leaf', 'funcs']), ([kind, n, what]) => {
        const s = [{}, []]; let root; const el = i => what === 'same' ? s[0] : what === 'fresh' ? { i } : what === 'two' ? s[i % 2] : what === 'self' ? (i % 3 ? i : root) : what === 'funcs' ? (i % 2 ? () => 1 : s[0]) : i % 4 ? i : undefined;
        if (kind === 'map' || kind === 'map-key') { root = new Map(); for (let i = 0; i < n; i++) kind === 'map' ? root.set(i, el(i)) : root.set(what === 'fresh' ? el(i) : { k: el(i) }, i); } else if (kind === 'set') { root = new Set(); for (let i = 0; i < n; i++) root.add(what === 'fresh' ? el(i) : { e: el(i) }); } else if (kind === 'agg') { root = new AggregateError([], 'm'); for (let i = 0; i < n; i++) root.errors.push(el(i)); } else { root = kind === 'arr' ? [] : kind === 'date' ? new Date(5) : kind === 'fn' ? () => 1 : {}; for (let i = 0; i < n; i++) root[kind === 'arr' ? i : 'k' + i] = el(i); }
        check(root);
    });
    t.cases('large-binary', t.product(['buf', 'u8', 'ab', 'dv', 'f64', 'str', 'usp'], [255, 256, 4095, 4096, 8191, 8192, 65537]), ([k, n]) => { const u = Uint8Array.from({ length: n }, (_, i) => i * 7 % 251), text = 'é'.repeat(n >> 3); check({ v: k === 'buf' ? Buffer.from(u) : k === 'u8' ? u : k === 'ab' ? u.buffer : k === 'dv' ? new DataView(u.buffer, 3, n - 5) : k === 'f64' ? Float64Array.from(u.subarray(0, 4096)) : k === 'str' ? text : new URLSearchParams({ a: text, b: text }) }); });
    // ---- attribute helpers
    const vals = [undefined, null, 1, 'ab', true, Symbol('s'), 5n, {}, { a: 1 }, [5], [, 1], Object.create({ inh: 1 }, { hid: { value: 1 } }), { [SYM]: 1, b: 2 }, () => 1, Object.freeze({ f: 1 })];
    t.cases('allAttrs', vals.map((v, i) => i), i => { const v = vals[i]; eq(U.allAttrs(v), isObj(v) ? Reflect.ownKeys(v) : []); });
    const pool = ['a', 'b', 'length', 0, '0', SYM, 'hid', 'inh', 'toString'];
    t.cases('lackAttrs', t.product(vals.map((v, i) => i), [...t.words(pool, 0, 3)]), ([i, ks]) => { const v = vals[i]; if (typeof v === 'string') return; const k0 = ks.slice(); eq(U.lackAttrs(v, ks), v == null ? [] : ks.filter(k => !isObj(v) || !Object.hasOwn(v, k)), `lackAttrs(${show(v)}, ${show(ks)})`); eq(ks, k0); });
    const srcs = [() => ({}), () => ({ a: { n: 1 } }), () => ({ a: 1, b: [2], [SYM]: new Map([[1, {}]]) }), () => { const o = { a: 1 }; o.self = o; return o; }, () => [1, [2]], () => Object.create({ inh: 1 }, { hid: { value: [1] } }), () => null, () => undefined], dests = [() => ({}), () => ({ a: { keep: 1 }, z: [] }), () => ({ b: 0, hid: 2, [SYM]: 3 }), () => [7, 8, 9], () => Object.create({ a: 0 }), () => null, () => undefined];
    t.cases('copyAttrs', t.product(srcs.map((s, i) => i), dests.map((s, i) => i), [undefined, false, true]), ([i, j, lack]) => {
        const s = srcs[i](), d = dests[j](), s0 = sig(s), had = isObj(d) ? new Map(Reflect.ownKeys(d).map(k => [k, d[k]])) : null, r = U.copyAttrs(s, d, lack);
        ok(r === d); eq(sig(s), s0, 'the source changed'); if (!isObj(s) || !isObj(d)) return;
        const take = new Set(Reflect.ownKeys(s).filter(k => !(lack && had.has(k))));
        for (const k of take) { if (Array.isArray(d) && k === 'length') continue; iso(s[k], d[k]); }
        for (const k of Reflect.ownKeys(d)) if (!take.has(k)) ok(had.has(k) && Object.is(had.get(k), d[k]), `copyAttrs touched ${String(k)}`);
    });
    // ---- a copy made while another one is under way (by a constructor that the copying calls)
    const hooked = h => { class H { constructor() { h(); } } return H; };
    nested(t, 'inside', [
        { n: 'instances', run: h => { const H = hooked(h), a = new H(), m = [a, { a, b: new H() }]; const c = copy(m); return [c[0] instanceof H, c[0] !== a, c[1].a === c[0], c[1].b instanceof H, c[1].b !== c[0], c.length]; } },
        { n: 'map', run: h => { const H = hooked(h), a = new H(); a.x = [1]; const m = new Map([[a, 1], ['k', a], ['z', new Set([a, 5])]]), c = copy(m); const k = [...c.keys()]; return [k.length, k[0] instanceof H, c.get('k') === k[0], c.get(k[0]), [...c.get('z')][0] === k[0], k[0].x[0], k[0].x !== a.x]; } },
        { n: 'cycle', run: h => { const H = hooked(h), a = { p: new H(), q: 0 }; a.self = a; a.p.up = a; const c = copy(a); return [c.self === c, c.p.up === c, c !== a, c.q, c.p !== a.p]; } },
        { n: 'attributes', run: h => { const H = hooked(h), a = [new H(), 2]; Object.defineProperty(a, 'ro', { value: new H(), enumerable: false }); const c = copy(a); return [c.length, Object.getOwnPropertyDescriptor(c, 'ro').enumerable, c.ro instanceof H, c.ro !== a.ro, c[1]]; } }
    ]);
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    { const v = () => ({ a: [1, { b: new Map([['k', [1]]]) }], d: new Date(5), s: new Set([{ x: 1 }]), u: new Uint8Array([1, 2]), r: /a/g }); await again(t, [['copy', copy, () => [v()]], ['copy of an array', copy, () => [[v(), [1]]]], ['copy of a map', copy, () => [new Map([['a', v()]])]], ['copy of bytes', copy, () => [new Uint8Array([1, 2, 3])]], ['copy of a date', copy, () => [new Date(9)]], ['copy of an expression', copy, () => [/x/gi]], ['copy of nothing', copy, () => [{}]], ['copy of an empty list', copy, () => [[]]]]); }
};
