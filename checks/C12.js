'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
exports.technique = 'bounded exhaustive enumeration of inputs on the real code against reference definitions';
exports.bounds = 'all arrays up to length 8 for every step/chunk/index argument, value alphabets with duplicates, NaN, -0, undefined, holes and nested arrays up to 3 levels, boundaries widened by literals of the source; long lists up to 257, nesting up to depth 400 and width 1025; lists of 1025 to 300000 elements (flat: 4100) with the deciding element at four places; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = [];
exports.run = async t => {
    const A = t.world().load('@curong/array');
    const MAX = t.thorough ? 12 : 8;
    const arrs = n => { const out = [Array.from({ length: n }, (_, i) => 'e' + i)]; if (n) out.push(Array.from({ length: n }, (_, i) => [undefined, NaN, 0, -0, null, '', [1]][i % 7]), Array(n).fill('d')); return out; };
    const BAD = [0, -1, -0, 1.5, NaN, Infinity, -Infinity, '2', null, undefined, true, [1], {}, 1n];
    const near = t.literals('array/src').near || [];
    const unchanged = (a, c) => { eq(Object.keys(a), Object.keys(c), 'input keys'); eq(a, c, 'input changed'); };
    const BIG = [50, 128, 257];
    // ---- splitting
    t.cases('splitByStep', (function* () { for (const n of [...t.range(0, MAX), ...BIG]) for (const a of arrs(n)) for (const s of n > MAX ? [1, 2, 7, n - 1, n, n + 1, n >> 1] : [...t.range(1, n + 2), 100, Number.MAX_SAFE_INTEGER]) yield [a, s]; })(), ([a, step]) => {
        const c = a.slice(); const r = A.splitByStep(a, step); unchanged(a, c);
        const exp = []; for (let i = 0; i < c.length; i += step) exp.push(c.slice(i, i + step)); if (!exp.length) exp.push([]);
        eq(r, exp);
    });
    t.cases('splitChunk', (function* () { for (const n of [...t.range(0, MAX), ...BIG]) for (const a of arrs(n)) for (const k of n > MAX ? [1, 2, 3, 7, n - 1, n, n + 1, n >> 1] : t.range(1, n + 2)) for (const p of [undefined, 'start', 'end', 'ABSENT']) yield [a, k, p]; })(), ([a, k, p]) => {
        const c = a.slice(); const r = p === 'ABSENT' ? A.splitChunk(a, k) : A.splitChunk(a, k, p); unchanged(a, c);
        if (k >= c.length) return eq(r, [c]);
        const f = Math.floor(c.length / k), d = c.length % k; let sizes;
        if (p === 'start') sizes = t.range(0, k - 1).map(i => i < d ? f + 1 : f);
        else if (p === 'end') sizes = t.range(0, k - 1).map(i => i >= k - d ? f + 1 : f);
        else sizes = [...Array(k).fill(f), ...(d ? [d] : [])];
        const exp = []; let i = 0; for (const s of sizes) { exp.push(c.slice(i, i + s)); i += s; }
        eq(r, exp);
    });
    t.cases('split-invalid', t.product(['splitByStep', 'splitChunk'], BAD, [[], [1], [1, 2, 3]]), ([f, b, a]) => { const r = attempt(() => A[f](a, b)); ok(!r.ok && r.error instanceof TypeError, `accepted ${show(b)}: ${show(r)}`); });
    t.cases('splitChunk-position', t.product(['middle', '', 'START', 1, {}], [[1, 2, 3]], [2]), ([p, a, k]) => { const r = attempt(() => A.splitChunk(a, k, p)); ok(!r.ok && r.error instanceof TypeError, `accepted ${show(p)}: ${show(r)}`); });
    // ---- move
    t.cases('move', (function* () { for (let n = 0; n <= Math.min(MAX, 7); n++) for (const a of arrs(n)) for (let i = -n - 2; i <= n + 1; i++) for (let j = -n - 2; j <= n + 1; j++) yield [a, i, j]; yield [Array.from({ length: 60 }, (_, i) => i), 3, -2]; yield [Array.from({ length: 60 }, (_, i) => i), -1, 0]; })(), ([a0, i, j]) => {
        const a = a0.slice(), n = a.length; const r = attempt(() => A.move(a, i, j)); const s = i < 0 ? n + i : i, e = j < 0 ? n + j : j;
        if (s < 0 || s >= n || e < 0 || e >= n) { ok(!r.ok && r.error instanceof RangeError, `move(${i},${j}) of ${n}: ${show(r)}`); eq(a, a0, 'array changed by a rejected move'); return 'rej'; }
        const rest = a0.filter((_, k) => k !== s); const exp = [...rest.slice(0, e), a0[s], ...rest.slice(e)];
        ok(r.ok, show(r)); eq(r.value, exp); ok(r.value === a, 'not the array itself');
    });
    // ---- range
    t.cases('range', t.product(t.range(-6, 7), t.range(-6, 7), ['ABSENT', undefined, 1, 2, 3, 5, 20, -1, -2, -4, -20]), ([from, to, step]) => {
        const r = attempt(() => step === 'ABSENT' ? A.range(from, to) : A.range(from, to, step)); const s = typeof step === 'number' ? step : 1;
        if ((from > to && s > 0) || (from < to && s < 0)) { ok(!r.ok && r.error instanceof TypeError, show(r)); return 'rej'; }
        const exp = []; for (let v = from, k = 0; s > 0 ? v <= to : v >= to; v = from + ++k * s) exp.push(v);
        ok(r.ok, show(r)); eq(r.value.map(x => x + 0), exp.map(x => x + 0));
    });
    t.cases('range-big', [[0, 1000, 1], [2 ** 52, 2 ** 52 + 5, 2], [-(2 ** 53) + 1, -(2 ** 53) + 9, 4], [100, -1000, -7], [0, 1e15, 1e14]], ([f, to, s]) => { const exp = []; for (let v = f; s > 0 ? v <= to : v >= to; v += s) exp.push(v); eq(A.range(f, to, s), exp); });
    t.cases('range-invalid', t.product([0, -0, NaN, Infinity, -Infinity, '1', null, {}], [[1, 5], [5, 1], [2, 2]]), ([s, [f, to]]) => { const r = attempt(() => A.range(f, to, s)); ok(!r.ok && r.error instanceof TypeError, `step ${show(s)}: ${show(r)}`); });
    // ---- nested arrays: leaves and empty arrays, up to 3 levels
    const HOLE = Symbol('hole');
    const build = (depth, leaves, width) => { let lvl = leaves.slice(); for (let d = 0; d < depth; d++) { const next = []; for (const w of t.words(lvl, 0, width)) next.push(w); lvl = d === depth - 1 ? next : [...leaves, ...next]; if (lvl.length > 60 && d < depth - 1) lvl = lvl.filter((_, i) => i % Math.ceil(lvl.length / 60) === 0); } return lvl; };
    const holes = v => { if (!Array.isArray(v)) return v; const o = []; v.forEach((x, i) => { if (x !== HOLE) o[i] = holes(x); }); o.length = v.length; return o; };
    const nests = [...build(1, [1, 'x', undefined, HOLE], 3), ...build(2, [1, HOLE], 3), ...build(3, [1, undefined], 2), ...build(3, [HOLE, 2], 3).slice(0, 20000), [[[[[1]]]]], [[[[[]]]]], [[[[[]]]], 1]].map(holes);
    const hasHole = v => Array.isArray(v) && (Object.keys(v).length !== v.length || v.some(hasHole));
    const dense = nests.filter(v => !hasHole(v));   // whether an empty slot counts as an element is not documented
    const model = v => { const leaves = []; let deepest = 0; const rec = (a, d) => { deepest = Math.max(deepest, d); a.forEach(x => Array.isArray(x) ? rec(x, d + 1) : leaves.push(d)); }; rec(v, 1); return { leaves, deepest, level: leaves.length ? Math.min(...leaves) : deepest, maxLeaf: leaves.length ? Math.max(...leaves) : 0 }; };
    const snapshot = v => show(v, 10);
    t.cases('flat', nests, v => { const b = snapshot(v); const exp = []; const rec = a => a.forEach(x => Array.isArray(x) ? rec(x) : exp.push(x)); rec(v); const r = A.flat(v); eq(r, exp); eq(snapshot(v), b, 'input'); ok(r !== v, 'returned the input'); });
    t.cases('flat-values', t.words([0, '', null, undefined, NaN, { length: 1, 0: 'x' }, 'str', [undefined], [[null]], new Set([1])], 1, 3), w => { const exp = []; const rec = a => a.forEach(x => Array.isArray(x) ? rec(x) : exp.push(x)); rec(w); const r = A.flat(w); eq(r.length, exp.length); r.forEach((x, i) => ok(Object.is(x, exp[i]), `element ${i}`)); });
    t.cases('dimensionLevel', dense, v => { const b = snapshot(v); eq(A.dimensionLevel(v), model(v).level); eq(snapshot(v), b, 'input'); });
    t.cases('isMultiDimensional', t.product(dense.filter((_, i) => t.thorough || i < 800 || i % 7 === 0), ['ABSENT', undefined, 2, 3, 4, 6], ['ABSENT', false, true]), ([v, d, s]) => {
        const r = A.isMultiDimensional(v, ...(d === 'ABSENT' ? [] : s === 'ABSENT' ? [d] : [d, s])); const L = model(v).level; const strict = d !== 'ABSENT' && s === true;
        eq(r, L > 1 && (typeof d !== 'number' || (strict ? L === d : L >= d)));
    });
    t.cases('isMultiDimensional-other', [null, undefined, 1, 'ab', '', {}, { length: 2, 0: [], 1: [] }, () => 0, new Set([[1]]), Symbol('x')], v => eq(A.isMultiDimensional(v), false));
    t.cases('isMultiDimensional-invalid', t.product([1, 0, -1, 2.5, NaN, Infinity, '2', null, {}], [[[[1]]], [], 5]), ([d, v]) => { const r = attempt(() => A.isMultiDimensional(v, d)); ok(!r.ok && r.error instanceof TypeError, `dimension ${show(d)}: ${show(r)}`); });
    t.cases('maxRecursionDepth', t.product(nests, ['ABSENT', true, false]), ([v, e]) => { const b = snapshot(v); const r = e === 'ABSENT' ? A.maxRecursionDepth(v) : A.maxRecursionDepth(v, e); const m = model(v); eq(r, e === false ? m.maxLeaf : m.deepest); eq(snapshot(v), b, 'input'); });
    t.cases('maxRecursionDepth-other', t.product([null, undefined, 'abc', 1, {}, { length: 1 }], [true, false]), ([v, e]) => eq(A.maxRecursionDepth(v, e), 0));
    // ---- uniqueness: SameValueZero, first occurrence kept
    const o1 = {}, s1 = Symbol('a'), s2 = Symbol('a');
    const norm = a => a.map(x => Object.is(x, -0) ? 0 : x);
    const AL = [1, '1', NaN, 0, -0, undefined, null, s1, s2, true, 1n];
    t.cases('isUnique', t.words([1, '1', NaN, 0, -0, undefined, o1, s1, s2], 0, 4), w => { const n = norm(w); eq(A.isUnique(w), n.every((x, i) => !n.slice(0, i).some(y => Object.is(x, y)))); });
    t.cases('isUnique-edge', [[[, undefined], false], [[,], true], [[, ,], false], [[[], []], true], [[o1, o1], false], [Array.from({ length: 500 }, (_, i) => i), true], [[...Array.from({ length: 500 }, (_, i) => i), 250], false]], ([a, e]) => eq(A.isUnique(a), e));
    t.cases('uniqueFromPrimitive', t.words(AL, 0, 4), w => {
        const c = w.slice(); const exp = []; for (const x of norm(w)) if (!exp.some(y => Object.is(x, y))) exp.push(x);
        for (const args of [[w], w, w.length > 1 ? [w.slice(0, 1), ...w.slice(1)] : [w, []], [w.slice(0, 2), w.slice(2)]]) eq(norm(A.uniqueFromPrimitive(...args)), exp, show(args));
        eq(w, c, 'input changed');
    });
    // ---- long and deep
    t.cases('unique-long', t.longs([1, '1', NaN, 0, undefined, s1], [17, 33, 65, 130, 257]), w => { const exp = []; for (const x of w) if (!exp.some(y => Object.is(x, y))) exp.push(x); for (const args of [[w], w, [w.slice(0, 9), w.slice(9)]]) eq(A.uniqueFromPrimitive(...args), exp); eq(A.isUnique(w), false); const many = w.map((x, i) => i % 3 ? 'k' + i : i); ok(A.isUnique(many)); eq(A.uniqueFromPrimitive(many, many), many); eq(A.uniqueFromPrimitive(...many.map(x => [x, x])), many); for (const k of [0, many.length >> 1, many.length - 2]) ok(!A.isUnique([...many.slice(0, -1), many[k]]), `duplicate of ${k} missed`); });
    t.cases('nested-deep', t.product([9, 17, 33, 65, 130, 400], [0, 1, 2], [[], [7], [7, 8]]), ([n, side, leaf]) => {
        let v = leaf.slice(); const exp = leaf.slice(); for (let i = 0; i < n; i++) { if (side === 0) v = [v]; else if (side === 1) { v = [i, v]; exp.unshift(i); } else { v = [v, i, [i]]; exp.push(i, i); } }
        eq(A.flat(v), exp); const m = model(v); eq(A.dimensionLevel(v), m.level); eq(A.maxRecursionDepth(v), m.deepest); eq(A.maxRecursionDepth(v, false), m.maxLeaf);
    });
    t.cases('nested-wide', t.product([17, 33, 130, 1025], [0, 8, 16, 32, 129, 1024], [1, 2, 3]), ([n, at, d]) => {
        if (at >= n) return 'skip'; let x = ['x']; for (let i = 1; i < d; i++) x = [x]; const v = Array.from({ length: n }, (_, i) => i === at ? x : [i]); const exp = v.flat(9);
        eq(A.flat(v), exp); const m = model(v); eq(A.dimensionLevel(v), m.level); eq(A.maxRecursionDepth(v), m.deepest); eq(A.maxRecursionDepth(v, false), m.maxLeaf); v[at] = 'leaf'; eq(A.flat(v), v.flat(9)); eq(A.dimensionLevel(v), 1); eq(A.isMultiDimensional(v), false);
    });
    // ---- array likes
    const argsOf = function () { return arguments; };
    t.cases('fromArrayLike', [[argsOf(1, undefined, 'x'), [1, undefined, 'x']], ['a中', ['a', '中']], ['', []], [{ length: 2, 0: 'a', 1: 'b' }, ['a', 'b']], [{ length: 0 }, []], [new Uint8Array([1, 255]), [1, 255]], [[1, [2]], [1, [2]]], [argsOf(), []], ['😀', ['\ud83d', '\ude00']]], ([v, exp]) => { const r = A.fromArrayLike(v); ok(Array.isArray(r), 'not an array'); eq(r, exp); ok(r !== v, 'same array'); });
    t.cases('fromArrayLike-holes', t.subsets([0, 1, 2, 3]), ks => { const v = { length: 4 }; ks.forEach(k => { v[k] = 'k' + k; }); const r = A.fromArrayLike(v); eq(r.length, 4); for (let i = 0; i < 4; i++) eq(r[i], v[i]); });
    // ---- extreme lengths
    for (const [name, better] of [['maxLengthIndex', (x, y) => x > y], ['minLengthIndex', (x, y) => x < y]])
        t.cases(name, t.words(['', 'a', 'b', 'aa', '中文', 'long string', '😀'], 0, 4), w => { let exp = null; w.forEach((x, i) => { if (exp === null || better(x.length, w[exp].length)) exp = i; }); const c = w.slice(); eq(A[name](w), exp); eq(w, c, 'input'); });
    // ---- far beyond the small scopes
    const FAR = [1025, 4100, 70000, 300000], seq = n => Array.from({ length: n }, (_, i) => 'e' + i), same = (a, b, l) => { eq(a.length, b.length, `${l}: length`); for (let i = 0; i < b.length; i++) if (a[i] !== b[i]) ok(false, `${l}: element ${i} is ${show(a[i])} instead of ${show(b[i])}`); };
    t.cases('split-far', FAR.flatMap(n => [1, 2, 1000, 1001, 2049, n >> 1, n - 1, n, n + 1].flatMap(k => ['step', 'ABSENT', 'start', 'end', undefined].map(p => [n, k, p]))), ([n, k, p]) => {
        const a = seq(n), l = `${n} elements by ${k}, ${p}`, r = p === 'step' ? A.splitByStep(a, k) : p === 'ABSENT' ? A.splitChunk(a, k) : A.splitChunk(a, k, p); let sizes;
        if (p === 'step') sizes = Array.from({ length: Math.ceil(n / k) }, (_, i) => Math.min(k, n - i * k)); else if (k >= n) sizes = [n]; else { const f = Math.floor(n / k), d = n % k; sizes = Array.from({ length: k }, (_, i) => f + (p === 'start' ? +(i < d) : p === 'end' ? +(i >= k - d) : 0)); if (d && p !== 'start' && p !== 'end') sizes.push(d); }
        same(r.map(x => x.length), sizes, l); let i = 0; for (const x of r) for (const y of x) if (y !== 'e' + i++) ok(false, `${l}: element ${i - 1} is ${y}`); eq(a.length, n, `${l}: input`);
    });
    t.cases('move-far', FAR.slice(0, 3).flatMap(n => [...t.product([0, 1, n >> 1, 1001, n - 2, n - 1, -1, -n, -1002], [0, 1, n >> 1, 1001, n - 1, -1, -n, -1002])].map(([i, j]) => [n, i, j])), ([n, i, j]) => { const a = seq(n), s = i < 0 ? n + i : i, e = j < 0 ? n + j : j, exp = seq(n); exp.splice(s, 1); const want = [...exp.slice(0, e), 'e' + s, ...exp.slice(e)]; const r = A.move(a, i, j); ok(r === a, 'not the array itself'); same(r, want, `move(${i}, ${j}) of ${n}`); });
    t.cases('unique-far', t.product(FAR.slice(0, 3), [0, 1, 2], ['s', 'n', 'mix']), ([n, at, kind]) => {
        const a = Array.from({ length: n }, (_, i) => kind === 's' ? 'k' + i : kind === 'n' ? i - 5 : i % 2 ? i : 'k' + i), l = `${n} of ${kind}`; ok(A.isUnique(a), l); same(A.uniqueFromPrimitive(a), a, l); same(A.uniqueFromPrimitive(a, a), a, `${l} twice`); const d = [...a, a[[0, n >> 1, n - 1][at]]]; ok(!A.isUnique(d), `${l}: duplicate missed`); same(A.uniqueFromPrimitive(d), a, `${l} and a duplicate`); same(A.uniqueFromPrimitive([d[n], ...a]), [d[n], ...a.filter(x => x !== d[n])], `${l}: the first occurrence counts`); const k = n >> 1; same(A.uniqueFromPrimitive(a.slice(0, k), a.slice(0, k + 9), a.slice(k - 9)), a, `${l} in three lists`);
        if (n < 9000) same(A.uniqueFromPrimitive(...d), a, `${l} spread`);
    });
    t.cases('nested-far', t.product([4100, 70000, 300000], [0, 1, 2, 3], [1, 2, 5]), ([n, pos, d]) => {
        const at = [0, 1, n >> 1, n - 1][pos]; let x = ['x']; for (let i = 1; i < d; i++) x = [x]; const l = `depth ${d} at ${at} of ${n}`, v = Array.from({ length: n }, (_, i) => i === at ? x : [i]), w = v.slice(); if (n < 9000) same(A.flat(v), Array.from({ length: n }, (_, i) => i === at ? 'x' : i), l); eq(A.dimensionLevel(v), 2, l); ok(A.isMultiDimensional(v)); eq(A.maxRecursionDepth(v), d + 1, l); eq(A.maxRecursionDepth(v, false), d + 1, l); same(v, w, `${l}: input`);
        const f = Array.from({ length: n }, (_, i) => i === at ? x : i); eq(A.dimensionLevel(f), 1, `${l} among leaves`); eq(A.maxRecursionDepth(f), d + 1, `${l} among leaves`); if (n < 9000) same(A.flat(f), Array.from({ length: n }, (_, i) => i === at ? 'x' : i), `${l} among leaves`); const e = Array.from({ length: n }, (_, i) => i === at ? [[]] : i); eq(A.maxRecursionDepth(e), 3, `${l}: an empty list`); eq(A.maxRecursionDepth(e, false), 1, `${l}: an empty list`);
    });
    t.cases('length-far', t.product([1025, 4100, 70000], [0, 1, 2, 3]), ([n, pos]) => { const at = [0, 1, n >> 1, n - 1][pos], a = Array(n).fill('mid'); a[at] = 'the longest'; eq(A.maxLengthIndex(a), at, `longest of ${n}`); a[at] = 'm'; eq(A.minLengthIndex(a), at, `shortest of ${n}`); eq(A.maxLengthIndex(a), at ? 0 : 1, `first of the longest of ${n}`); });
    t.cases('arraylike-far', [4100, 70000, 300000], n => { const o = { length: n }; for (let i = 0; i < n; i++) o[i] = 'e' + i; same(A.fromArrayLike(o), seq(n), `array like of ${n}`); same(A.fromArrayLike('ab'.repeat(n)), [...'ab'.repeat(n)], `text of ${2 * n}`); });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    await again(t, [['flat', A.flat, () => [[1, [2, [3]], { a: [1] }]]], ['fromArrayLike', A.fromArrayLike, () => [{ 0: 'a', 1: 'b', length: 2 }]], ['fromArrayLike', A.fromArrayLike, () => [['a', ['b']]]], ['move', A.move, () => [[1, 2, 3], 0, 2], 'in place'], ['range', A.range, () => [1, 4]], ['splitByStep', A.splitByStep, () => [[1, 2, 3, 4, 5], 2]], ['splitByStep', A.splitByStep, () => [[1, 2, 3, 4, 5], 3]], ['splitChunk', A.splitChunk, () => [[1, 2, 3, 4, 5], 2]], ['splitChunk', A.splitChunk, () => [[1, 2, 3, 4, 5], 2, 'start']], ['splitChunk', A.splitChunk, () => [[1, 2, 3, 4, 5], 9]], ['unique', A.uniqueFromPrimitive, () => [['a', 'b', 'a']]], ['unique', A.uniqueFromPrimitive, () => ['a', 'b', 'a']], ['toArray', A.toArray, () => [['a']]], ['toArray', A.toArray, () => ['a']], ['isUnique', A.isUnique, () => [['a', 'b']]], ['maxLengthIndex', A.maxLengthIndex, () => [['a', 'bb']]], ['minLengthIndex', A.minLengthIndex, () => [['aa', 'b']]], ['depth', A.maxRecursionDepth, () => [[[1]]]], ['dimension', A.dimensionLevel, () => [[[1]]]]]);
};
