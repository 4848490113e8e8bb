'use strict';
const { ok, eq, show, attempt, same } = require('../lib/util');
const { again } = require('../lib/again');
const { nested } = require('../lib/overlap');
exports.technique = 'bounded exhaustive enumeration of objects and arguments on the real code against direct property-level reference definitions';
exports.bounds = 'all objects of up to 3 properties over 7 keys (names, integer-like, symbols, __proto__) with 5 descriptor kinds and 3 prototypes, all key lists up to 3, all option values; nested and cyclic objects for sorting; all pairs of small objects for comparison; objects of up to 1025 keys and chains of depth 400; a second and third call made inside any callback of the first; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = ['symbol-keyed properties and holes are outside the domain of sortKeys', 'isInstanceOf is judged on direct instances and unrelated values only'];
exports.run = async t => {
    const w = t.world();
    const O = w.load('@curong/object');
    const S1 = Symbol('s1'), S2 = Symbol('s2');
    const KEYS = ['b', 'a', 'B', '1', '0', '__proto__', S1];
    const KINDS = {
        data: v => ({ value: v, enumerable: true, configurable: true, writable: true }),
        hidden: v => ({ value: v, enumerable: false, configurable: true, writable: true }),
        frozen: v => ({ value: v, enumerable: true, configurable: false, writable: false }),
        getter: v => ({ get: () => v, set: undefined, enumerable: true, configurable: true }),
        accessor: v => ({ get: () => v, set() {}, enumerable: false, configurable: true })
    };
    class K { m() {} } const PROTO = { inherited: 1, a: 'pa' };
    const PROTOS = { plain: Object.prototype, nul: null, custom: PROTO };
    const make = ([proto, props]) => { const o = Object.create(PROTOS[proto]); props.forEach(([k, kind], i) => Object.defineProperty(o, k, KINDS[kind]([i, 'v', undefined, null, NaN, -0][(i * 2 + String(kind).length) % 6]))); return o; };
    const snap = o => [Object.getPrototypeOf(o), Reflect.ownKeys(o).map(k => [k, Object.getOwnPropertyDescriptor(o, k)])];
    const sameSnap = (a, b) => a[0] === b[0] && a[1].length === b[1].length && a[1].every(([k, d], i) => { const [k2, d2] = b[1][i]; return k === k2 && ['value', 'get', 'set', 'enumerable', 'configurable', 'writable'].every(f => Object.is(d[f], d2[f])); });
    const unchanged = (o, s, what) => ok(sameSnap(snap(o), s), () => `${what} changed its argument: ${show(snap(o))} from ${show(s)}`);
    function* specs(n, kinds, protos = ['plain'], keys = KEYS) {
        for (const p of protos) for (const ks of t.words(keys, 0, n)) { if (new Set(ks).size !== ks.length) continue; for (const kd of t.words(kinds, ks.length, ks.length)) yield [p, ks.map((k, i) => [k, kd[i]])]; }
    }
    const LEVEL = [Object.keys, Object.getOwnPropertyNames, Object.getOwnPropertySymbols, Reflect.ownKeys];
    t.cases('keys-values', specs(t.thorough ? 3 : 2, Object.keys(KINDS), ['plain', 'nul', 'custom']), sp => {
        const o = make(sp), s = snap(o);
        for (const lv of [undefined, 0, 1, 2, 3]) {
            const ks = LEVEL[lv ?? 0](o);
            const a = lv === undefined ? [] : [lv];
            eq(O.keys(o, ...a), ks, 'keys'); eq(O.values(o, ...a), ks.map(k => o[k]), 'values');
            const calls = []; const conv = (...x) => { calls.push(x); return { k: x[0] }; };
            eq(O.toArray(o, undefined, ...a), ks.map(k => [k, o[k]]), 'toArray');
            const r = O.toArray(o, conv, ...a); eq(calls.map(c => c.slice(0, 2)), ks.map(k => [k, o[k]]), 'converter calls'); eq(r, ks.map(k => ({ k })), 'converted');
        }
        for (const bad of [-1, 4, 1.5, NaN, '1', null, '0', Infinity]) for (const f of [() => O.keys(o, bad), () => O.values(o, bad), () => O.toArray(o, undefined, bad)]) { const r = attempt(f); ok(!r.ok && r.error instanceof TypeError, `methodLevel ${show(bad)}: ${show(r)}`); }
        unchanged(o, s, 'reading');
        return show([sp, 'ok'], 5);
    });
    t.cases('keys-arraylike', [[], ['x'], ['x', undefined, null], { length: 2, 0: 'p' }], a => { for (const lv of [0, 1, 3]) { const o = Object(a); const ks = LEVEL[lv](o); eq(O.keys(a, lv), ks); eq(O.values(a, lv), ks.map(k => a[k])); } });
    const QUERY = [...KEYS, S2, 'zz', 'length', 'toString'];
    t.cases('isKeysIncludes', t.product([...specs(2, ['data', 'hidden'])], [...QUERY, ...t.words(QUERY.slice(0, 9).filter(k => k !== 'B'), 0, 2)]), ([sp, q]) => {
        const o = make(sp); const list = Array.isArray(q) ? q : [q]; const before = Array.isArray(q) ? q.slice() : null;
        for (const lv of [undefined, 0, 1, 2, 3]) for (const any of [undefined, false, true]) {
            const has = k => LEVEL[lv ?? 0](o).includes(k); const e = any ? list.some(has) : list.every(has);
            eq(O.isKeysIncludes(o, q, lv, any), e, `isKeysIncludes(${show(o)}, ${show(q)}, ${lv}, ${any})`);
            if (lv === undefined && any !== undefined) eq(O.isKeysIncludes(o, q, any), e, 'overload with useAny only');
        }
        if (before) eq(q, before);
    });
    const VALS = [0, -0, NaN, '0', undefined, null, 'a', S1]; const OBJ = {}, ARR = [1];
    t.cases('isValuesIncludes', t.product([...t.words([0, -0, NaN, undefined, 'a', OBJ, S1], 0, 2)], [...VALS, OBJ, {}, ...t.words([0, NaN, undefined, 'a', OBJ], 0, 2)], [undefined, false, true], [true, false]), ([vs, q, any, arr]) => {
        const o = arr ? vs : Object.assign({}, ...vs.map((v, i) => ({ ['k' + i]: v }))); if (!arr) Object.defineProperty(o, 'hid', { value: 'hidden' });
        const has = x => vs.some(v => v === x || (v !== v && x !== x)); const list = Array.isArray(q) ? q : [q];
        eq(O.isValuesIncludes(o, q, any), any ? list.some(has) : list.every(has), `isValuesIncludes(${show(o)}, ${show(q)}, ${any})`); ok(!O.isValuesIncludes(o, 'hidden'), 'hidden value');
    });
    // ---- many keys: sizes around powers of two
    const LCG = n => { const a = t.range(0, n - 1); let x = 7; for (let i = n - 1; i > 0; i--) { x = (x * 1103515245 + 12345) % 2147483648; const j = x % (i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; };
    t.cases('many-keys', t.product([9, 16, 17, 33, 64, 65, 130, 257, 1025], ['k', '', 'K']), ([n, pre]) => {
        const mix = LCG(n), o = {}; for (const i of mix) o[pre === '' ? 'x' + i + 'y' : pre + i] = i; const ks = Object.keys(o), s = snap(o);
        for (const lv of [undefined, 0, 1, 3]) { eq(O.keys(o, lv), ks); eq(O.values(o, lv), mix); eq(O.toArray(o, undefined, lv), ks.map((k, i) => [k, mix[i]])); eq(O.toArray(o, (k, v) => k + v, lv), ks.map((k, i) => k + mix[i])); }
        ok(O.isKeysIncludes(o, ks)); ok(O.isValuesIncludes(o, mix)); eq(O.keys(O.derive(o)), ks);
        for (const [cmp, e] of [[undefined, ks.slice().sort()], [(a, b) => o[a] - o[b], ks.slice().sort((a, b) => o[a] - o[b])], [(a, b) => a.length - b.length, ks.slice().sort((a, b) => a.length - b.length)]]) for (const deep of [false, true]) { const r = O.sortKeys(o, { compare: cmp, deep }); eq(Object.keys(r), e); eq(Object.values(r), e.map(k => o[k])); }
        ok(O.shallowEqual(o, { ...o })); const lc = O.toLowerCaseKey(o); eq(Object.keys(lc), ks.map(k => k.toLowerCase())); eq(Object.values(lc), mix);
        for (const i of [0, n >> 1, n - 1]) { const k = ks[i]; ok(!O.isKeysIncludes({ ...o, [k]: 0 }, [...ks, 'zz'])); ok(O.isKeysIncludes(o, [...ks, 'zz'], undefined, true)); ok(O.isKeysIncludes(o, [...t.range(1, n).map(j => 'no' + j), k], undefined, true)); ok(!O.isKeysIncludes(o, [...ks.slice(0, i), 'zz', ...ks.slice(i)])); ok(!O.isValuesIncludes(o, [...mix.slice(0, i), -1, ...mix.slice(i)])); ok(O.isValuesIncludes(o, [...t.range(1, n).map(j => -j), mix[i]], true)); ok(!O.shallowEqual(o, { ...o, [k]: 'x' })); }
        unchanged(o, s, 'reading');
        const del = ks.filter((_, i) => i % 3 !== 1), left = ks.filter((_, i) => i % 3 === 1); eq(Object.keys(O.derive(o, del)), left); eq(Object.keys(O.deleteAttrs(o, del)), left); eq(Object.keys(o), left); eq(Object.keys(O.deleteAttrs(o, left)), []);
    });
    t.cases('deep-chains', t.product([9, 17, 33, 65, 130, 400], ['obj', 'arr', 'mix']), ([n, kind]) => {
        const mk = (rev) => { let v = { b: 1, a: 2 }; if (!rev) v = { a: 2, b: 1 }; for (let i = 0; i < n; i++) v = kind === 'arr' || kind === 'mix' && i % 2 ? [v, i] : rev ? { z: i, y: v } : { y: v, z: i }; return v; };
        const v = mk(true), e = JSON.stringify(mk(false)), before = JSON.stringify(v); eq(JSON.stringify(O.sortKeys(v, { deep: true })), e); eq(JSON.stringify(v), before);
        let path = [], x = v; while (typeof x === 'object') { const k = Array.isArray(x) ? 0 : 'y' in x ? 'y' : 'b'; path.push(k); x = x[k]; } for (const own of [undefined, true]) { eq(O.getFromPaths(v, path, own), 1); eq(O.getFromPaths(v, [...path, 'zz', 'q'], own), undefined); }
    });
    // ---- derive / deleteAttrs
    const DEL = ['a', 'b', '1', '__proto__', S1, 'zz'];
    t.cases('derive', t.product([...specs(2, Object.keys(KINDS), ['plain', 'nul', 'custom'])], [undefined, [], ['a'], ['b', '1'], ['__proto__'], [S1, 'a'], ['zz'], [1, 0], ['inherited']]), ([sp, del]) => {
        const o = make(sp), s = snap(o), d0 = del && del.slice(); const r = O.derive(o, del); ok(r !== o, 'not a new object'); const dk = new Set((del || []).map(k => typeof k === 'number' ? String(k) : k));
        const e = [s[0], s[1].filter(([k]) => !dk.has(k))]; ok(sameSnap(snap(r), e), () => `derive(${show(s)}, ${show(del)}) = ${show(snap(r))}`);
        if (del) eq(del, d0, 'deleteKeys'); unchanged(o, s, 'derive'); return show([sp, del], 5);
    });
    t.cases('derive-class', [new K(), Object.assign(new K(), { x: 1 }), Object.create(new K())], o => { const r = O.derive(o); ok(Object.getPrototypeOf(r) === Object.getPrototypeOf(o), 'prototype'); eq(Reflect.ownKeys(r), Reflect.ownKeys(o)); });
    t.cases('deleteAttrs', t.product([...specs(3, ['data', 'frozen'], ['plain', 'custom'], ['b', 'a', '1', '__proto__', S1])], [...t.words(DEL, 0, 2), ['a', 'b', S1], [1], ['a', '1', 'b']]), ([sp, del]) => {
        const o = make(sp), s = snap(o), d0 = del.slice(); const dk = new Set(del.map(k => typeof k === 'number' ? String(k) : k));
        const blocked = s[1].some(([k, d]) => dk.has(k) && !d.configurable);
        const r = O.deleteAttrs(o, del); eq(del, d0, 'deleteKeys');
        const e = [s[0], s[1].filter(([k]) => !dk.has(k))]; ok(sameSnap(snap(r), e), () => `deleteAttrs(${show(s)}, ${show(del)}) = ${show(snap(r))}`);
        if (!blocked) ok(r === o, 'a copy was returned although every key could be deleted');
        return show([sp, del], 5);
    });
    // ---- toLowerCaseKey
    t.cases('toLowerCaseKey', t.product([...specs(3, ['data'], ['plain'], ['b', 'B', 'Ab', 'aB', '1', S1, 'É', '__PROTO__', '__proto__'])], [undefined, true, false]), ([sp, cover]) => {
        const o = make(sp), s = snap(o); const e = new Map();
        for (const k of Reflect.ownKeys(o)) { const n = typeof k === 'string' ? k.toLowerCase() : k; if (cover === false && e.has(n)) continue; e.set(n, Object.getOwnPropertyDescriptor(o, k).value); }
        const r = O.toLowerCaseKey(o, cover); ok(r !== o, 'not a new object'); unchanged(o, s, 'toLowerCaseKey');
        const got = Reflect.ownKeys(r); ok(got.length === e.size && got.every(k => e.has(k) && Object.is(Object.getOwnPropertyDescriptor(r, k).value, e.get(k))), () => `toLowerCaseKey(${show(o)}, ${cover}) = ${show(r)}`);
        for (const k of got) { const d = Object.getOwnPropertyDescriptor(r, k); ok(d.writable && d.enumerable && d.configurable, () => `toLowerCaseKey: ${String(k)} is no ordinary property: ${show(d)}`); }
        return show([sp, cover], 5);
    });
    // ---- sortKeys
    const CMP = [undefined, (a, b) => a < b ? 1 : a > b ? -1 : 0, (a, b) => a.length - b.length, () => 0];
    t.cases('sortKeys-flat', t.product([...specs(3, ['data', 'getter', 'frozen'], ['plain'], ['b', 'a', 'B', 'aa', '__proto__'])], CMP, [undefined, false, true]), ([sp, compare, deep]) => {
        const o = make(sp), s = snap(o); const r = O.sortKeys(o, { compare, deep }); ok(r !== o, 'same object'); unchanged(o, s, 'sortKeys');
        eq(Object.keys(r), Object.keys(o).sort(compare), 'order of keys');
        for (const k of Object.keys(o)) { const a = Object.getOwnPropertyDescriptor(o, k), b = Object.getOwnPropertyDescriptor(r, k); ok(['value', 'get', 'set', 'enumerable', 'configurable', 'writable'].every(f => Object.is(a[f], b[f])), () => `descriptor of ${String(k)}: ${show(b)} from ${show(a)}`); }
        return show([sp, CMP.indexOf(compare), deep], 5);
    });
    t.cases('sortKeys-accessors', t.product(['get', 'set', 'both'], ['get', 'set', 'both'], [undefined, true], [true, false]), ([x, y, deep, configurable]) => { const o = {}, mk = (n, k) => ({ ...(k !== 'set' ? { get: () => n } : {}), ...(k !== 'get' ? { set: v => { o[Symbol.for(n)] = v; } } : {}), enumerable: true, configurable }); Object.defineProperties(o, { b: mk('b', x), a: mk('a', y) }); const r = O.sortKeys(o, { deep }); eq(Object.keys(r), ['a', 'b']); for (const k of ['a', 'b']) { const d = Object.getOwnPropertyDescriptor(o, k), e = Object.getOwnPropertyDescriptor(r, k); ok(d.get === e.get && d.set === e.set && e.configurable === configurable, () => `${k}: ${show(e)}`); } });
    t.cases('sortKeys-new', t.product([[], [2, 1], [{ b: 1, a: 2 }]], [undefined, {}, { deep: true }]), ([a, o]) => { const r = O.sortKeys(a, o); ok(Array.isArray(r) && r !== a && r.length === a.length, 'an array sorted by its keys is a new array'); });
    t.cases('sortKeys-hidden', [0], () => { const o = { b: 1, a: 2 }; Object.defineProperty(o, 'h', { value: 3 }); eq(Object.keys(O.sortKeys(o)), ['a', 'b']); eq(Object.keys(O.sortKeys(Object.assign(Object.create({}), {}).constructor === Object ? { z: 1, y: 2 } : {})), ['y', 'z']); });
    const isPlain = v => typeof v === 'object' && v !== null && Object.getPrototypeOf(v) === Object.prototype;
    const sorted = (v, cmp, deep) => { const seen = new Map(); const go = (x, top) => { if (seen.has(x)) return seen.get(x); if (Array.isArray(x)) { if (!deep) return top ? x.slice() : x; const r = []; seen.set(x, r); for (const y of x) r.push(go(y)); return r; } if (isPlain(x) && (deep || top)) { const r = {}; seen.set(x, r); for (const k of Object.keys(x).sort(cmp)) r[k] = deep ? go(x[k]) : x[k]; return r; } return x; }; return go(v, true); };
    const order = v => { const seen = new Map(); const go = x => { if (typeof x !== 'object' || x === null) return x; if (seen.has(x)) return `#${seen.get(x)}`; seen.set(x, seen.size); return Array.isArray(x) ? ['A', ...x.map(go)] : isPlain(x) ? Object.keys(x).map(k => [k, go(x[k])]) : x; }; return go(v); };
    function* trees(d) { // nested values, as builders so each case owns its graph
        yield () => 1; yield () => new Date(5); yield () => Object.assign(new K(), { z: 1, a: 2 });
        if (d === 0) return; const sub = [...trees(d - 1)];
        yield () => ({}); yield () => [];
        for (const a of sub) { yield () => ({ b: a() }); yield () => [a()]; for (const b of sub) { yield () => ({ b: a(), a: b() }); yield () => [a(), b()]; } }
    }
    t.cases('sortKeys-deep', t.product([...trees(t.thorough ? 3 : 2)].slice(0, t.thorough ? 40000 : 8000), CMP.slice(0, 2), [undefined, false, true]), ([mk, compare, deep], i) => {
        const v = mk(); const before = order(v); const r = attempt(() => O.sortKeys(v, { compare, deep }));
        if (!isPlain(v) && !Array.isArray(v)) { ok(!r.ok && r.error instanceof TypeError, `accepted ${show(v)}`); return 'rejected'; }
        ok(r.ok, () => `sortKeys(${show(v)}) threw ${show(r.error)}`); eq(order(v), before, 'argument after the call'); eq(order(r.value), order(sorted(v, compare, deep)), `sortKeys(${show(v)}, deep ${deep})`);
        // without deep nested values are the same objects
        if (!deep && isPlain(v)) for (const k of Object.keys(v)) ok(r.value[k] === v[k], `nested value of ${k} replaced`);
        if (deep) { const shared = (x, y) => { if (typeof x === 'object' && x && (isPlain(x) || Array.isArray(x))) { ok(x !== y, 'nested object shared with the argument'); for (const k of Object.keys(x)) shared(x[k], y[k]); } else ok(Object.is(x, y), 'leaf value'); }; shared(v, r.value); }
        return show([order(r.value), deep], 9);
    });
    t.cases('sortKeys-cycles', t.product([0, 1, 2, 3, 4], [undefined, true]), ([n, deep]) => {
        const o = { b: 1, a: { d: 1, c: 2 } };
        if (n === 0) o.self = o; else if (n === 1) o.a.up = o; else if (n === 2) o.list = [o, o.a]; else if (n === 3) { o.z = o.a; } else { const l = [o]; l.push(l); o.l = l; }
        const r = O.sortKeys(o, { deep }); eq(order(r), order(sorted(o, undefined, deep)), 'cyclic graph');
    });
    t.cases('sortKeys-rejects', [null, undefined, 1, 'a', Symbol.iterator, () => 1, new Map(), new Date(), new K()], v => { if (typeof v === 'symbol') { ok(!attempt(() => O.sortKeys(v)).ok); return; } const r = attempt(() => O.sortKeys(v)); ok(!r.ok && r.error instanceof TypeError, `${show(v)}: ${show(r)}`); });
    // ---- shallowEqual
    const small = [...t.words([['a', 0], ['a', -0], ['a', NaN], ['b', undefined], ['b', OBJ], ['c', undefined], ['toString', 1]], 0, 2)].filter(ps => new Set(ps.map(p => p[0])).size === ps.length).map(ps => Object.fromEntries(ps));
    const hid = Object.defineProperty({ a: 0 }, 'b', { value: 1 });
    const OTHER = [null, undefined, 0, -0, NaN, 'a', [], [0], [NaN], Object.create({ a: 0 }), hid];
    const ref = (a, b, cmp) => { if (cmp(a, b)) return true; if (typeof a !== 'object' || !a || typeof b !== 'object' || !b) return false; const ka = Object.keys(a), kb = Object.keys(b); return ka.length === kb.length && ka.every(k => Object.hasOwn(b, k) && cmp(a[k], b[k], k)); };
    t.cases('shallowEqual', t.product([...small, ...OTHER], [...small, ...OTHER], [undefined, (a, b) => a === b, () => false, (a, b, k) => k === 'a' || Object.is(a, b), (a, b) => typeof a === typeof b && typeof a !== 'object', (a, b) => show(a) < show(b), (a, b) => a === 0 || a === b, (a, b) => b === undefined || Object.is(a, b) && typeof a !== 'object']), ([a, b, cmp]) => {
        eq(O.shallowEqual(a, b, cmp), ref(a, b, cmp || Object.is), `shallowEqual(${show(a)}, ${show(b)})`);
        if (!cmp) eq(O.shallowEqual(a, { ...Object(a) }), ref(a, { ...Object(a) }, Object.is));
    });
    t.cases('shallowEqual-large', t.range(0, 6), n => { const a = {}, b = {}; for (let i = 0; i < n; i++) { a['k' + i] = i; b['k' + (n - 1 - i)] = n - 1 - i; } ok(O.shallowEqual(a, b), 'order of keys matters'); for (let i = 0; i < n; i++) { ok(!O.shallowEqual(a, { ...b, ['k' + i]: 'x' }), `difference at ${i} missed`); const { ['k' + i]: _, ...rest } = b; ok(!O.shallowEqual(a, rest) && !O.shallowEqual(rest, a) && !O.shallowEqual(a, { ...rest, zz: i }), `missing key ${i}`); } });
    // ---- reading properties
    const TARGETS = [null, undefined, 0, 'abc', true, [], ['x'], () => 1, {}, { a: 1 }, Object.create({ a: 'inh' }), Object.create(null), { a: undefined }, { [S1]: 's', 0: 'zero' }, new K(), Symbol.iterator, 5n];
    t.cases('getProperty', t.product(TARGETS, ['a', 0, '0', S1, 'length', 'toString', 'constructor', 'm', '__proto__']), ([o, k]) => {
        const e = o === null || o === undefined ? undefined : o[k];
        ok(Object.is(O.getProperty(o, k), e), `getProperty(${show(o)}, ${String(k)})`); const g = O.getPropertyGetter(k); ok(Object.is(g(o), e) && Object.is(g(o), e), `getPropertyGetter(${String(k)})(${show(o)})`);
        if (typeof k === 'string') eq(O.isPrototypeProperty(o, k), typeof o === 'object' && o !== null ? !Object.hasOwn(o, k) && k in o : typeof o === 'function' ? O.isPrototypeProperty(o, k) : false, `isPrototypeProperty(${show(o)}, ${k})`);
    });
    t.cases('getter-getProperty-throws', [0], () => { const o = { get a() { throw new RangeError(); } }; ok(!attempt(() => O.getProperty(o, 'a')).ok); });
    const deepO = { a: { b: { c: 1, n: null }, u: undefined, s: 'str', 0: ['x'] }, n: null, z: 0, f: false, e: '' }; Object.setPrototypeOf(deepO.a, { inh: { y: 2 } }); deepO[S1] = { q: 1 };
    t.cases('getFromPaths', t.product([...t.words(['a', 'b', 'c', 'u', 'n', 's', 0, 'inh', 'y', 'length', S1, 'q', 'e'], 0, 3)], [undefined, false, true]), ([ps, own]) => {
        let e = deepO; for (const p of ps) { if (e === null || e === undefined) { e = undefined; break; } if (own && !Object.hasOwn(Object(e), p)) { e = undefined; break; } e = e[p]; }
        const c = ps.slice(); ok(Object.is(O.getFromPaths(deepO, ps, own), e), () => `getFromPaths(${show(ps)}, ${own}) = ${show(O.getFromPaths(deepO, ps, own))}, expected ${show(e)}`); eq(ps, c);
    });
    t.cases('getFromPaths-root', t.product([null, undefined, 0, '', 'ab'], [[], ['length'], [0]]), ([o, ps]) => ok(Object.is(O.getFromPaths(o, ps), ps.length ? o?.[ps[0]] : o), `${show(o)} ${show(ps)} = ${show(O.getFromPaths(o, ps))}`));
    // ---- constructors
    const anon = class {}; Object.defineProperty(anon, 'name', { value: '' }); const own = { constructor: 1 }; const noC = Object.create({ constructor: undefined }); const nullC = Object.create({ constructor: null });
    t.cases('constructor', [null, undefined, 0, 'a', true, 5n, S1, {}, [], () => 1, new K(), Object.create(null), new Map(), new anon(), Object.create(new K()), own, noC, nullC, Object.create({ constructor: K })], v => {
        const p = v === null || v === undefined ? null : Object.getPrototypeOf(v); const e = p ? p.constructor ?? null : null;
        ok(Object.is(O.constructor(v), e), `constructor(${show(v)})`); eq(O.constructorName(v), e === null ? null : e.name, `constructorName(${show(v)})`);
    });
    t.cases('createWithNull', [undefined, {}, { a: { value: 1 } }, { a: { get: () => 2, enumerable: true }, b: { value: 3, writable: true } }], d => { const r = O.createWithNull(d); eq(Object.getPrototypeOf(r), null); const e = Object.create(null, d ?? {}); eq(Reflect.ownKeys(r), Reflect.ownKeys(e)); for (const k of Reflect.ownKeys(e)) eq(Object.getOwnPropertyDescriptor(r, k), Object.getOwnPropertyDescriptor(e, k)); ok(O.createWithNull(d) !== r, 'shared object'); });
    t.cases('isInstanceOf', t.product([null, undefined, 0, 'a', {}, [], new K(), new Map(), new anon(), new Date(), Object.create(null), K, /x/], [Object, Array, K, Map, anon, Date, RegExp, Function]), ([v, C]) => { const p = v === null || v === undefined ? null : Object.getPrototypeOf(v); if (p && p !== C.prototype && Object(v) instanceof C) return 'subclass'; eq(O.isInstanceOf(v, C), !!p && p === C.prototype, `isInstanceOf(${show(v)}, ${C.name})`); });
    // ---- calls inside the comparator or a getter of another call
    const tick = (h, o) => Object.defineProperties({}, Object.fromEntries(Object.keys(o).map(k => [k, { get() { h(); return o[k]; }, enumerable: true, configurable: true }])));
    nested(t, 'inside', [
        ...[[{ a: 1, b: 2 }, { a: 1, b: 2 }], [{ a: 1, b: 2, c: 3 }, { a: 1, b: 3, c: 3 }], [{ x: 1 }, { x: '1' }], [5, 5]].map(([x, y], i) => ({ n: `shallowEqual ${i}`, run: h => O.shallowEqual(x, y, (a, b, k) => { h(); return Object.is(a, b) || (k === 'x' && a == b); }) })),
        ...[[{ c: 1, a: 2, b: 3 }, false], [{ b: { z: 1, y: 2 }, a: [{ d: 1, c: 2 }] }, true], [[{ q: 1, p: 2 }], true]].map(([v, deep], i) => ({ n: `sortKeys ${i}`, run: h => show(O.sortKeys(v, { deep, compare: (a, b) => { h(); return a < b ? 1 : a > b ? -1 : 0; } }), 5) })),
        ...[[{ A: 1, a: 2, B: 3 }, true], [{ A: 1, a: 2, B: 3 }, false], [{ C: 5, d: 6 }, false]].map(([v, c], i) => ({ n: `toLowerCaseKey ${i}`, run: h => O.toLowerCaseKey(tick(h, v), c) }))
    ], { max: 5 });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    { const o = () => ({ b: 1, a: { c: [1] }, C: 'x' }); await again(t, [['values', O.values, () => [o()]], ['keys', O.keys, () => [o()]], ['keys of an array', O.keys, () => [['a', 'b']]], ['values of an array', O.values, () => [['a', 'b']]], ['toArray', O.toArray, () => [o()]], ['sortKeys', O.sortKeys, () => [o()]], ['toLowerCaseKey', O.toLowerCaseKey, () => [o()]], ['createWithNull', O.createWithNull, () => [o()]], ['createWithNull', O.createWithNull, () => []], ['deleteAttrs', O.deleteAttrs, () => [o(), ['a']], 'in place'], ['derive', O.derive, () => [o()]], ['shallowEqual', O.shallowEqual, () => [o(), o()]], ['getProperty', O.getProperty, () => [o(), 'a']], ['isKeysIncludes', O.isKeysIncludes, () => [o(), ['a']]], ['isValuesIncludes', O.isValuesIncludes, () => [o(), [1]]]]); }
};
