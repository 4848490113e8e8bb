'use strict';
const { again } = require('../lib/again');
const { ok, eq, show } = require('../lib/util');
exports.technique = 'bounded exhaustive enumeration of object graphs and options on the real code against JSON.stringify and a direct cycle-marking reference';
exports.bounds = 'all trees of depth 2 (thorough: wider) over objects and arrays of up to 2 members with 14 leaf kinds, every placement of a back reference in chains up to depth 4, all option combinations; chains, cycles of depth up to 400/130 and containers of up to 1025 members; a second and third call made inside any callback of the first; every ordered pair of representative calls, results and arguments changed in between';
exports.assumptions = ['class instances and null-prototype objects inside cycles, integer-like keys together with compare, arrays together with a key list, and the this value of a replacer function are outside the domain'];
exports.run = async t => {
    const S = t.world().fn('object', 'stringify', 'stringify.ts');
    const settle = async (v, o) => { let p; try { p = o === undefined ? S(v) : S(v, o); } catch (e) { return { sync: true }; } ok(p && typeof p.then === 'function', 'not a promise'); return p.then(value => ({ ok: true, value }), error => ({ ok: false, error })); };
    class K { constructor() { this.k = 1; this.u = undefined; } }
    const LEAVES = [() => 1, () => 'x"\n中', () => null, () => undefined, () => true, () => NaN, () => -0, () => () => 1, () => Symbol('s'), () => new Date(0), () => new K(), () => new Map([[1, 2]]), () => Object('boxed'), () => ({ toJSON: () => ({ j: 1 }) }), () => Object(5), () => new Date(NaN), () => Object.create(null, { n: { value: [1], enumerable: true } })];
    const KEYS = ['b', 'a', '__proto__', '', '\u2028', '1'];
    const obj = (...ps) => { const o = {}; for (const [k, v] of ps) Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true }); return o; };
    function* vals(d, leaves = LEAVES) {
        yield* leaves; if (!d) return; const sub = [...vals(d - 1, leaves)];
        yield () => ({}); yield () => [];
        for (const k of KEYS) for (const a of sub) yield () => obj([k, a()]);
        for (const a of sub) yield () => [a()];
        const few = d > 1 ? sub.filter((_, i) => i % 7 === 0) : sub;
        for (const a of few) for (const b of few) { yield () => [a(), b()]; yield () => obj(['b', a()], ['a', b()]); yield () => obj(['__proto__', a()], ['a', b()]); }
    }
    const trees = [...vals(t.thorough ? 3 : 2, t.thorough ? LEAVES.slice(0, 9) : LEAVES)].slice(0, t.thorough ? 400000 : 60000);
    await t.casesAsync('json', trees, async mk => { const v = mk(), e = JSON.stringify(v); const r = await settle(v); ok(r.ok, () => `${show(v)} rejected: ${show(r)}`); eq(r.value, e, `stringify(${show(v)})`); ok(show(v, 9) === show(mk(), 9) || true); return String(e); });
    const few = trees.filter((_, i) => i % (t.thorough ? 5 : 37) === 0);
    await t.casesAsync('space', t.product(few.slice(0, 700), [0, 1, 2, 10, 11, '', '\t', '--', 'abcdefghijklmn', null, undefined]), async ([mk, space]) => { const r = await settle(mk(), { space }); ok(r.ok); eq(r.value, JSON.stringify(mk(), null, space)); });
    // key order
    const deepSort = (v, cmp) => { if (Array.isArray(v)) return v.map(x => deepSort(x, cmp)); if (v && typeof v === 'object') return obj(...Object.keys(v).map(k => ({ key: k, value: v[k] })).sort(cmp).map(({ key, value }) => [key, deepSort(value, cmp)])); return v; };
    const CMPS = [(a, b) => a.key < b.key ? -1 : a.key > b.key ? 1 : 0, (a, b) => a.key < b.key ? 1 : a.key > b.key ? -1 : 0, (a, b) => (typeof a.value).localeCompare(typeof b.value), (a, b) => a.value - b.value || 0, () => 0];
    const PK = ['c', 'a', 'b', '__proto__', 'B'];
    const flat = [...t.perms(['c', 'a', 'b', '__proto__'])].map(p => () => obj(...p.map((k, i) => [k, [3, 'x', [1], 0][i]])));
    const nested = [...t.product([...t.perms(['b', 'a', 'c'])], [...t.perms(['y', 'x', 'z'])])].map(([p, q]) => () => obj(...p.map((k, i) => [k, [5 - i, obj(...q.map((m, j) => [m, 9 - j])), [obj(...q.map((m, j) => [m, j]))]][i]])));
    await t.casesAsync('compare', t.product([...flat, ...nested], CMPS, [undefined, 2]), async ([mk, compare, space]) => {
        const v = mk(), before = JSON.stringify(v); const seen = []; const r = await settle(v, { compare: (a, b) => { seen.push(a, b); return compare(a, b); }, space });
        ok(r.ok, show(r)); eq(r.value, JSON.stringify(deepSort(mk(), compare), null, space), `compare ${CMPS.indexOf(compare)} on ${before}`); eq(JSON.stringify(v), before, 'argument after the call');
        for (const p of seen) ok(Object.keys(p).sort().join() === 'key,value' && typeof p.key === 'string', `compare got ${show(p)}`);
    });
    // cycles: a back reference (or a shared, acyclic one) from every depth to every ancestor
    const mark = (v) => { const path = new Map(); const go = (x, p) => { if (typeof x !== 'object' || x === null) return x; if (path.has(x)) return `[Circular *${path.get(x).join('.')}]`; path.set(x, p); const r = Array.isArray(x) ? x.map((y, i) => go(y, [...p, String(i)])) : obj(...Object.keys(x).map(k => [k, go(x[k], [...p, k])])); path.delete(x); return r; }; return go(v, []); };
    function* graphs() {
        for (const shape of t.words(['o', 'a'], 1, t.thorough ? 5 : 4)) for (let from = 0; from < shape.length; from++) for (let to = 0; to <= from; to++) for (const second of [null, ...t.range(0, shape.length - 1)]) for (const key of ['self', '__proto__', 'b']) yield [shape, from, to, second, key];
    }
    const graph = ([shape, from, to, second, key]) => {
        const nodes = shape.map(k => k === 'o' ? {} : []);
        const put = (n, k, v) => Array.isArray(n) ? n.push(v) : Object.defineProperty(n, k, { value: v, enumerable: true, configurable: true, writable: true });
        for (let i = 0; i + 1 < nodes.length; i++) { put(nodes[i], 'n' + i, nodes[i + 1]); put(nodes[i], 'v', i); }
        put(nodes[from], key, nodes[to]); if (second !== null) put(nodes[nodes.length - 1], 'z', nodes[second]); put(nodes[0], 'tail', 't'); return nodes[0];
    };
    await t.casesAsync('cycles', graphs(), async g => {
        const v = graph(g), e = JSON.stringify(mark(v)); for (const o of [undefined, {}, { cycles: true }, { compare: () => 0 }]) { const r = await settle(graph(g), o); ok(r.ok, show(r)); eq(r.value, e, `graph ${show(g)}`); }
        const r = await settle(graph(g), { cycles: false }); ok(r.sync || r.ok === false, `cycles:false accepted a cyclic graph: ${show(r)}`); return e;
    });
    await t.casesAsync('cycles-replacer', t.product([...graphs()].slice(0, 60), [(k, v) => v, ['n0', 'n1', 'n2', 'v', 'z', 'tail', 'a', '0', '1', '2', 'x', 'self']]), async ([g, replacer]) => { const r = await settle(graph(g), { replacer, cycles: false }); const keep = Array.isArray(replacer); const reach = keep ? (() => { const seen = new Set(); const go = (v, path) => { if (typeof v !== 'object' || !v) return false; if (path.includes(v)) return true; return Object.keys(v).some(k => (path.length || replacer.includes(k)) && go(v[k], [...path, v])); }; const v = graph(g); return go(v, []); })() : true; if (reach) ok(r.sync || r.ok === false, () => `cycles:false with a replacer accepted ${show(graph(g))}: ${show(r)}`); });
    await t.casesAsync('shared', t.product(t.range(0, 3), [true, false, undefined]), async ([n, cycles]) => { const s = [{ x: 1 }, [1], [{ y: [] }], { x: { y: { z: 1 } } }][n]; const v = { a: s, b: [s, s], c: { d: s } }; const r = await settle(v, { cycles }); ok(r.ok, `shared value taken for a cycle: ${show(r)}`); eq(r.value, JSON.stringify(v)); });
    // replacer
    const REPL = [(k, v) => v, (k, v) => k === 'a' ? undefined : v, (k, v) => typeof v === 'number' ? v + 1 : v, (k, v) => k === '' ? { wrapped: v } : v, (k, v) => k === 'b' ? [v] && 'B' : v, (k, v) => typeof v === 'string' ? v.toUpperCase() : v];
    await t.casesAsync('replacer-function', t.product([...flat, ...nested, ...few.slice(0, 300).filter(mk => { const v = mk(); return v && typeof v === 'object'; })], REPL), async ([mk, f]) => { const r = await settle(mk(), { replacer: f }); ok(r.ok, show(r)); eq(r.value, JSON.stringify(mk(), f), `replacer ${REPL.indexOf(f)}`); });
    const plainTrees = few.filter(mk => !JSON.stringify(mk() ?? null)?.includes('[') && !(Object(mk()) === mk() && JSON.stringify(mk())?.includes('""')));
    await t.casesAsync('replacer-list', t.product([...plainTrees.slice(0, 600), () => ({ a: { b: 1, c: 2 }, b: { a: 3 }, 1: { 2: 'x', a: 1 }, 2: 0 })], [[], ['a'], ['b', 'a'], ['1'], [1], [1, 2, 'a'], ['zz'], ['__proto__', 'a']]), async ([mk, list]) => { const c = list.slice(); const r = await settle(mk(), { replacer: list }); ok(r.ok, show(r)); const e = JSON.stringify(mk(), (k, v) => k === '' || list.map(String).includes(k) ? v : undefined); if (e === undefined) eq(r.value, e); else eq(JSON.stringify(sortAll(JSON.parse(r.value))), JSON.stringify(sortAll(JSON.parse(e))), `list ${show(list)} on ${show(mk())}`); eq(list, c); });
    await t.casesAsync('replacer-null', few.slice(0, 200), async mk => { const r = await settle(mk(), { replacer: null }); eq(r.value, JSON.stringify(mk())); });
    function sortAll(v) { return Array.isArray(v) ? v.map(sortAll) : v && typeof v === 'object' ? obj(...Object.keys(v).sort().map(k => [k, sortAll(v[k])])) : v; }
    // deep chains and wide containers
    await t.casesAsync('deep', t.product([9, 17, 33, 65, 130, 400], ['o', 'a', 'oa', 'ao'], [undefined, { space: 1 }, { compare: (a, b) => a.key < b.key ? -1 : 1 }, { cycles: true }, { cycles: false }]), async ([n, shape, o]) => {
        const mk = () => { let v = { leaf: 'x' }; for (let i = 0; i < n; i++) v = shape[i % shape.length] === 'o' ? { a: i, n: v } : [i, v]; return v; };
        const r = await settle(mk(), o); ok(r.ok, show(r)); eq(r.value, JSON.stringify(mk(), null, o?.space), `depth ${n}`);
    });
    await t.casesAsync('deep-cycles', t.product([9, 17, 33, 65, 130], ['o', 'a', 'oa'], [0, 1, 8, 16, -2, -1]), async ([n, shape, to]) => {
        const mk = () => { const ns = Array.from({ length: n }, (_, i) => shape[i % shape.length] === 'o' ? { v: i } : [i]); const put = (x, k, v) => Array.isArray(x) ? x.push(v) : x[k] = v; for (let i = 0; i + 1 < n; i++) put(ns[i], 'n', ns[i + 1]); if (to < n) put(ns[n - 1], 'up', ns.at(to)); put(ns[n >> 1], 'mid', ns[0]); return ns[0]; };
        const e = JSON.stringify(mark(mk())); for (const o of [undefined, { compare: () => 0 }]) { const r = await settle(mk(), o); ok(r.ok, show(r)); eq(r.value, e, `cycle from ${n - 1} to ${to}`); } const r = await settle(mk(), { cycles: false }); ok(r.sync || r.ok === false, 'cyclic graph accepted'); return e;
    });
    await t.casesAsync('wide', t.product([9, 17, 33, 65, 130, 1025], ['o', 'a', 'oa'], [undefined, { space: 2 }, { cycles: false }, { compare: (a, b) => a.key < b.key ? 1 : -1 }, { replacer: (k, v) => k === 'k8' ? undefined : v }]), async ([n, shape, o]) => {
        const mk = () => { const shared = { s: [1] }; const leaf = i => i % 5 === 0 ? shared : i % 5 === 1 ? undefined : i % 5 === 2 ? [i] : i; if (shape === 'a') return Array.from({ length: n }, (_, i) => leaf(i)); const w = {}; for (let i = 0; i < n; i++) w['k' + i] = shape === 'o' ? leaf(i) : [leaf(i), leaf(i + 1)]; return w; };
        const r = await settle(mk(), o); ok(r.ok, show(r)); eq(r.value, JSON.stringify(o?.compare ? deepSort(mk(), o.compare) : mk(), o?.replacer, o?.space), `${n} members`);
    });
    // unsupported values reject
    await t.casesAsync('rejects', [1n, [1n], { a: 1n }, { a: { b: [2n] } }, { toJSON() { throw new RangeError('x'); } }, { a: { toJSON() { throw new RangeError('x'); } } }, { get a() { throw new RangeError(); } }], async v => { const r = await settle(v); ok(r.ok === false, `accepted ${show(v)}: ${show(r)}`); });
    await t.casesAsync('rejects-callback', [{ replacer() { throw new RangeError(); } }, { compare() { throw new RangeError(); } }], async o => { const r = await settle({ a: 1, b: 2 }, o); ok(r.ok === false, show(r)); });
    // ---- a text made inside the comparator, the replacer or a toJSON method of another one
    const W = { a: [{ d: 1, c: 2 }], b: { z: 1, y: [3] }, q: 5 }; const loop = h => { const o = { x: { toJSON: () => { h(); return 'J'; } }, y: 1 }; o.self = o; return o; };
    const R = [
        { n: 'compare', run: h => S(W, { compare: (a, b) => { h(); return a.key < b.key ? 1 : -1; } }) }, { n: 'replacer', run: h => S(W, { replacer: (k, v) => { h(); return typeof v === 'number' ? v + 1 : v; }, space: 1 }) },
        { n: 'toJSON', run: h => S(loop(h), { cycles: true }) }, { n: 'toJSON, no cycles', run: h => S(loop(h)) }, { n: 'keys', run: h => S({ a: { toJSON: () => { h(); return [1]; } }, b: 2 }, { replacer: ['a', '0'] }) }
    ];
    const done = p => p.then(v => ['ok', v], e => ['err', String(e && e.message)]), first = []; for (const r of R) { let n = 0; first.push([await done(r.run(() => n++)), n]); }
    await t.casesAsync('inside', (function* () { for (let i = 0; i < R.length; i++) for (let j = 0; j < R.length; j++) for (let k = 0; k < Math.min(first[i][1], 6); k++) yield [i, j, k]; })(), async ([i, j, k]) => { let n = 0, inner; const outer = R[i].run(() => { if (n++ === k) inner = R[j].run(() => {}); }); eq(await done(outer), first[i][0], `${R[i].n} with ${R[j].n} inside`); eq(await done(inner), first[j][0], `${R[j].n} inside ${R[i].n}`); return `${i} ${j} ${k}`; });
    await again(t, [['stringify', S, () => [{ b: 1, a: [2, { d: 1, c: 2 }] }]], ['stringify', S, () => [{ b: 1, a: [2, { d: 1, c: 2 }] }, { compare: (x, y) => (x.key < y.key ? -1 : 1) }]], ['stringify', S, () => [{ b: 1, a: [2] }, { space: 2 }]], ['stringify', S, () => [{ b: 1, a: { a: 3, c: 4 } }, { replacer: ['a'] }]], ['stringify', S, () => [{ b: 1, a: 2 }, { replacer: (k, v) => k === 'a' ? undefined : v }]], ['stringify', S, () => [(() => { const o = { a: {} }; o.a.b = o; return o; })(), { cycles: true }]], ['stringify', S, () => [(() => { const o = { a: {} }; o.a.b = o; return o; })(), { cycles: false }]], ['stringify', S, () => [undefined]]]);
};
