'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
exports.technique = 'bounded exhaustive enumeration of row lists on the real code against a reference forest';
exports.bounds = 'all lists of up to 4 rows over 8 id alphabets, every parent assignment (each id, root values, null, undefined, absent, unknown), every row order, all option combinations; toObject/toArray over colliding keys and all value kinds; five shapes of up to 1025 rows in four orders; ten shapes of 1500 and 20000 rows in three orders; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = ['ids are unique within a list; ids that differ only in type (1 and "1") denote the same row'];
exports.run = async t => {
    const A = t.world().load('@curong/array');
    const ALPH = { num: [1, 2, 3, 4], str: ['a', 'b', 'c', 'd'], proto: ['constructor', '__proto__', 'toString', 'hasOwnProperty'], mixed: [1, 'x', -1, 'a.b'], desc: [40, 30, 20, 10], words: ['children', 'data', 'id', 'parentId'], frac: [1.5, 'true', 'null', 'undefined'], length: ['length', 'valueOf', '00', ' '] };
    const defaults = { id: 'id', parentId: 'parentId', dataField: 'data', childrenField: 'children', throwIfOrphans: false, rootParentIds: { '': true, 0: true }, nestedIds: true, assign: false };
    const ABSENT = Symbol('absent');
    const set = (o, path, v, nested) => { if (v === ABSENT) return; const ks = nested ? path.split('.') : [path]; let c = o; ks.slice(0, -1).forEach(k => { c = c[k] = c[k] ?? {}; }); c[ks.at(-1)] = v; };
    class Row { get kind() { return 'row'; } }
    function check(rows, opts, proto, stale) {
        const o = { ...defaults, ...opts };
        const items = rows.map(([id, pid], i) => { const x = proto ? new Row() : {}; x.tag = 't' + i; set(x, o.id, id, o.nestedIds); set(x, o.parentId, pid, o.nestedIds); if (stale) x[o.childrenField] = stale(i); return x; });
        const before = items.map(x => show(x)); const list = items.slice();
        // reference
        const root = v => v === ABSENT || v === null || v === undefined || o.rootParentIds[v] === true && Object.hasOwn(o.rootParentIds, v);
        const forbidden = rows.some(([id]) => Object.hasOwn(o.rootParentIds, id) && o.rootParentIds[id]);
        const byId = new Map(rows.map(([id], i) => [String(id), i]));
        const kids = rows.map(() => []), roots = [];
        rows.forEach(([, pid], i) => { if (root(pid)) roots.push(i); else if (byId.has(String(pid))) kids[byId.get(String(pid))].push(i); });
        const placed = new Set(); const walk = l => l.forEach(i => { placed.add(i); walk(kids[i]); }); walk(roots);
        const lost = rows.length - placed.size;
        const r = attempt(() => Object.keys(opts).length || proto ? A.toTree(items, opts) : A.toTree(items));
        eq(items, list, 'input list');
        if (forbidden) { ok(!r.ok && r.error instanceof Error, `a row whose id is a root id was accepted: ${show(r)}`); return 'forbidden'; }
        if (o.throwIfOrphans && lost) { ok(!r.ok && r.error instanceof Error, `${lost} rows are lost silently: ${show(r)}`); return 'orphans ' + lost; }
        ok(r.ok, `failed: ${show(r)}`);
        const dump = (ns, level = 0) => { ok(Array.isArray(ns), `children is ${show(ns)}`); ok(level < 9, 'endless tree'); return ns.map(n => {
            const row = o.dataField ? n[o.dataField] : n; const i = items.findIndex(x => o.dataField || o.assign ? x === row : x.tag === row.tag); ok(i >= 0, `unknown node ${show(n)}`);
            if (!o.dataField) { if (o.assign) ok(row instanceof Row === !!proto); else { ok(row !== items[i], 'row object reused'); eq({ ...row, [o.childrenField]: 0 }, { ...items[i], [o.childrenField]: 0 }, 'row fields'); } } else eq(Object.keys(n).sort(), [o.dataField, o.childrenField].sort(), 'node fields');
            return [i, dump(n[o.childrenField], level + 1)]; }); };
        const exp = l => l.map(i => [i, exp(kids[i])]);
        eq(show(dump(r.value), 12), show(exp(roots), 12), 'tree');
        if (o.dataField || !o.assign) eq(items.map(x => show(x)), before, 'rows changed');
        return show(exp(roots), 12);
    }
    const lists = function* (ids, n, parents) { for (const perm of t.perms(ids.slice(0, n))) for (const ps of t.words(parents(ids.slice(0, n)), n, n)) yield perm.map((id, i) => [id, ps[i]]); };
    const key = ([n, rows, o]) => n + ' ' + show(rows) + ' ' + show(o);
    for (const [name, ids] of Object.entries(ALPH)) {
        const parents = xs => [...xs, null, name === 'num' ? '' : 0, 'nowhere'];
        t.cases('toTree-' + name, (function* () { for (let n = 0; n <= 3; n++) for (const rows of lists(ids, n, parents)) for (const o of [{}, { throwIfOrphans: true }, { dataField: null }]) yield [name, rows, o]; })(), ([, rows, o]) => check(rows, o), { key });
    }
    t.cases('toTree-4', (function* () { const parents = xs => [...xs, null, ...(t.thorough ? ['zz', 0] : ['zz'])]; for (const rows of lists(ALPH.num, 4, parents)) for (const o of [{}, { throwIfOrphans: true }]) yield ['4', rows, o]; })(), ([, rows, o]) => check(rows, o), { key });
    t.cases('toTree-types', (function* () { for (const rows of lists([1, '2', 3], 3, () => [1, '1', 2, '2', 3, '3', null])) for (const o of [{}, { throwIfOrphans: true }]) yield ['types', rows, o]; })(), ([, rows, o]) => check(rows, o), { key });
    const optSpace = [...t.options({ id: ['uid', 'a.id'], parentId: ['up', 'a.p'], childrenField: ['kids'], dataField: [null, 'payload'], throwIfOrphans: [true, false], nestedIds: [true, false], assign: [true], rootParentIds: [{ root: true }, {}, { '': true, b: false }] })];
    const shapes = [[], [['a', null]], [['a', 'b'], ['b', undefined]], [['a', ABSENT], ['b', 'a'], ['c', 'a']], [['c', 'b'], ['b', 'a'], ['a', '']], [['a', 'root'], ['b', 'a'], ['c', 'nowhere']], [['a', 'b'], ['b', 'a'], ['c', 0]], [['b', 'b'], ['a', 'root']], [['root', null], ['a', 'root']], [['b', 0], ['a', 'b']]];
    t.cases('toTree-options', t.product(shapes, optSpace, [false, true]), ([rows, o, proto]) => check(rows, o, proto));
    // rows that already carry the field for the children, as rows of an earlier tree do
    const STALE = [() => [], i => [{ tag: 'old' + i }], () => null, () => 'x', i => i ? [] : undefined, () => ({ length: 1 })];
    t.cases('toTree-stale-children', (function* () { for (let n = 1; n <= 3; n++) for (const rows of lists(['a', 'b', 'c'], n, xs => [...xs, null, ...(n < 3 ? ['zz'] : [])])) for (const o of [{}, { dataField: null }, { dataField: null, assign: true }, { dataField: null, assign: true, throwIfOrphans: true }, { dataField: null, childrenField: 'kids' }]) for (const st of STALE) yield [rows, o, st]; })(), ([rows, o, st]) => check(rows, o, false, st));
    t.cases('toTree-again', (function* () { for (let n = 1; n <= 3; n++) for (const rows of lists(['a', 'b', 'c'], n, xs => [...xs, null])) for (const assign of [true, false]) yield [rows, assign]; })(), ([rows, assign]) => {
        const items = rows.map(([id, parentId]) => ({ id, parentId })), run = () => show(A.toTree(items, { dataField: null, assign }), 12);
        const a = run(); eq(run(), a, 'tree of the same rows built again'); eq(show(A.toTree(items.map(({ id, parentId }) => ({ id, parentId })), { dataField: null, assign }), 12), a, 'tree of fresh rows');
    });
    t.cases('toTree-nested', t.product([[['a', null], ['b', 'a']], [['b', 'a'], ['a', null]]], ['m.n.id', 'm.id', 'id'], ['m.n.pid', 'x.pid', 'pid'], [true, false], [null, 'data']), ([rows, id, parentId, nestedIds, dataField]) => check(rows, { id, parentId, nestedIds, dataField }));
    t.cases('toTree-nested-missing', [{ m: null }, {}, { m: {} }, { m: undefined }], x => { const r = A.toTree([{ id: 1, ...x }], { parentId: 'm.p' }); eq(r.length, 1); eq(r[0].data.id, 1); });
    t.cases('toTree-chain', [30, 200], n => { const rows = Array.from({ length: n }, (_, i) => ({ id: i + 1, parentId: i ? i : null })); for (const l of [rows, rows.slice().reverse()]) for (const throwIfOrphans of [true, false]) { let c = A.toTree(l, { throwIfOrphans }), k = 0; while (c.length) { eq(c.length, 1); eq(c[0].data.id, ++k); c = c[0].children; } eq(k, n); } });
    // many rows: wide, binary, comb-shaped and forests, in several orders, with and without lost rows
    const PAR = { wide: i => i ? 0 : -1, binary: i => i ? (i - 1) >> 1 : -1, comb: i => i % 2 ? i - 1 : i - 2, forest: i => i % 8 ? i - i % 8 : -1, lost: i => i % 9 === 4 ? -2 : i ? (i * 7) % i : -1 }, MIXES = [x => x, x => x.slice().reverse(), x => x.map((_, i) => x[(i * 7919) % x.length]), x => [...x.filter((_, i) => i % 2), ...x.filter((_, i) => !(i % 2))]];
    t.cases('toTree-many', t.product(Object.keys(PAR), [9, 17, 33, 65, 130, 1025], [0, 1, 2, 3], ['num', 'str'], [{}, { throwIfOrphans: true }, { dataField: null }, { dataField: null, assign: true }]), ([sh, n, mi, ids, o]) => {
        const id = i => ids === 'num' ? i + 1 : 'r' + i, rows = MIXES[mi](t.range(0, n - 1)).map(i => { const p = PAR[sh](i); return { id: id(i), parentId: p === -1 ? null : p < 0 ? 'zz' : id(p) }; }), by = new Map(), roots = []; rows.forEach(r => { if (r.parentId === null) roots.push(r.id); else by.set(r.parentId, [...(by.get(r.parentId) || []), r.id]); });
        const placed = []; const go = l => l.map(x => (placed.push(x), [x, go(by.get(x) || [])])), want = go(roots), r = attempt(() => A.toTree(rows, o)); if (o.throwIfOrphans && placed.length < n) { ok(!r.ok, 'rows are lost silently'); return 'orphans'; }
        ok(r.ok, show(r.error)); const got = l => l.map(x => [o.dataField === null ? x.id : x.data.id, got(x.children)]); ok(JSON.stringify(got(r.value)) === JSON.stringify(want), () => `${sh} tree of ${n} rows: ${JSON.stringify(got(r.value)).slice(0, 300)} instead of ${JSON.stringify(want).slice(0, 300)}`); return `${sh} ${n} ${mi}`;
    });
    t.cases('toObject-many', [9, 17, 33, 65, 130, 1025], n => { const arr = t.range(0, n - 1).map(i => ({ k: 'k' + i % (n - 3), i })); const r = A.toObject(arr, x => x.k, x => x.i); eq(Object.keys(r).length, n - 3); for (let i = 0; i < n - 3; i++) eq(r['k' + i], i < 3 ? n - 3 + i : i); });
    // ---- toObject
    const KEYS = ['a', 'b', '__proto__', 'constructor', '', 1, 'toString'];
    t.cases('toObject', t.words(KEYS, 0, 4), ks => {
        const arr = ks.map((k, i) => ({ k, i })); const seen = []; const r = A.toObject(arr, x => { seen.push(x.i); return x.k; }, x => x.i % 2 ? x.i : [x.i]);
        eq(seen.slice().sort(), ks.map((_, i) => i), 'elements keyed'); const exp = new Map(); ks.forEach((k, i) => exp.set(String(k), i % 2 ? i : [i]));
        eq(Object.getOwnPropertyNames(r).sort(), [...exp.keys()].sort(), 'keys'); for (const [k, v] of exp) eq(Object.getOwnPropertyDescriptor(r, k).value, v, `value of ${k}`);
    });
    t.cases('toObject-values', t.product([undefined, null, 0, NaN, 'x', {}, [1]], [undefined, null, 0, NaN, 'x']), ([v, w]) => { const r = A.toObject([v, w], x => 'k' + String(x), x => x); ok(Object.is(r['k' + String(w)], w)); if (String(v) !== String(w)) ok(Object.is(r['k' + String(v)], v)); });
    // ---- toArray
    t.cases('toArray', t.product([null, undefined, 0, '', 'abc', NaN, false, [], [null], [[1]], { length: 1 }, new Set([1]), () => 0], ['ABSENT', {}, ...t.options({ allowNull: [true, false, undefined], allowUndefined: [true, false, undefined] })]), ([v, o]) => {
        const r = o === 'ABSENT' ? A.toArray(v) : A.toArray(v, o); const oo = o === 'ABSENT' ? {} : o;
        if (Array.isArray(v)) return ok(r === v, 'not the array itself'); ok(Array.isArray(r)); ok(v !== null || oo.allowNull || !r.length); 
        if ((v === null && !oo.allowNull) || (v === undefined && !oo.allowUndefined)) eq(r, []); else { eq(r.length, 1); ok(Object.is(r[0], v)); }
    });
    // ---- huge forests: only the shape that a parent table gives counts
    const FARP = { ...PAR, roots: () => -1, 'roots with one lost': i => i === 700 ? -2 : -1, 'two levels': i => i % 3 ? i - i % 3 : -1, 'chain': i => i - 1, 'chain with one lost': i => i === 3 ? -2 : i - 1 };
    t.cases('toTree-far', t.product(Object.keys(FARP), [1500, 20000, ...(t.thorough ? [200000] : [])], [0, 1, 2], [{}, { throwIfOrphans: true }, { dataField: null, throwIfOrphans: true }]), ([sh, n, mi, o]) => {
        const l = `${sh} of ${n}, order ${mi}`, rows = MIXES[mi](t.range(0, n - 1)).map(i => { const p = FARP[sh](i); return { id: i + 1, parentId: p === -1 ? null : p < 0 ? 'zz' : p + 1 }; }), kids = new Map([[null, []]]); for (const r of rows) { if (!kids.has(r.parentId)) kids.set(r.parentId, []); kids.get(r.parentId).push(r.id); }
        let reached = 0; { const st = [null]; while (st.length) for (const id of kids.get(st.pop()) || []) { reached++; st.push(id); } }
        const r = attempt(() => A.toTree(rows, o)); if (o.throwIfOrphans && reached < n) { ok(!r.ok && r.error instanceof Error && !(r.error instanceof RangeError), `${l}: ${n - reached} rows are lost silently`); return 'orphans'; } ok(r.ok, `${l}: ${show(r.error)}`);
        let seen = 0; const st = [[null, r.value]]; while (st.length) { const [id, ns] = st.pop(), want = kids.get(id) || []; if (ns.length !== want.length) ok(false, `${l}: ${ns.length} children of ${id} instead of ${want.length}`); for (let i = 0; i < want.length; i++) { const x = o.dataField === null ? ns[i] : ns[i].data; if (x.id !== want[i]) ok(false, `${l}: child ${i} of ${id} is ${x.id} instead of ${want[i]}`); seen++; st.push([x.id, ns[i].children]); } } eq(seen, reached, `${l}: nodes`); return l;
    });
    t.cases('toObject-far', [4100, 70000], n => { const arr = Array.from({ length: n }, (_, i) => ({ k: 'k' + i % (n - 3), i })), r = A.toObject(arr, x => x.k, x => x.i); eq(Object.keys(r).length, n - 3); for (let i = 0; i < n - 3; i++) if (r['k' + i] !== (i < 3 ? n - 3 + i : i)) ok(false, `k${i} of ${n} is ${r['k' + i]}`); });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    { const A = t.world().load('@curong/array'), rows = () => [{ id: 1, parentId: null }, { id: 2, parentId: 1 }, { id: 3, parentId: 1, x: { y: 1 } }]; await again(t, [[], [{ dataField: null }], [{ dataField: null, assign: true }], [{ throwIfOrphans: true }], [{ rootParentIds: { root: true } }], [{ childrenField: 'kids' }]].map(o => ['toTree', A.toTree, () => [rows(), ...structuredClone(o)], o[0]?.assign ? 'in place' : '']).concat([['toTree of others', A.toTree, () => [[{ id: 'a', parentId: '' }, { id: 'b', parentId: 'a' }]]], ['toTree of none', A.toTree, () => [[]]], ['toObject', A.toObject, () => [rows(), v => v.id]], ['toObject', A.toObject, () => [['a', 'b'], v => v]]])); }
};
