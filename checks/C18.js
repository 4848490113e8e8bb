'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
exports.technique = 'bounded exhaustive enumeration of key lists, dotted texts and objects cut at every depth, on the real code, against a direct property walk and a hand-written reader of the notation';
exports.bounds = 'all key lists up to 4 keys over 20 names and 3 indexes (thorough 5 over a smaller set), all notations of each key in texts of up to 3 keys, objects where the path exists or is cut at each depth by undefined/null, all texts up to length 6 over 8 characters, hostile names over 10 code fragments; every chain of up to 3 own, inherited, hidden, getter, absent ... steps (5 over three kinds) for key lists; long inputs (up to 130-1025 parts) in every simple arrangement; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = ['string keys in lists are non-empty and free of quotes, brackets, backslashes, dots at the edge of bracket notation and edge blanks, except in the hostile-name suite'];
exports.run = async t => {
    const w = t.world();
    const { cascade, fromCascadeKeys: from, toCascadeKeys: to } = w.load('@curong/object');
    const NAMES = ['a', 'key', 'constructor', '__proto__', 'a-b', 'a b', '5x', '0', '12', '中', '中文', '中a', '😀', '$', '_', 'if', 'a.b', 'é', 'A1', 'null', ...t.literals('object/src/cascade').strs.filter(s => /^[^'"[\]\\.\s](?:[^'"[\]\\\r\n]*[^'"[\]\\.\s])?$/.test(s) && s.length < 12).slice(0, 6)];
    const IDX = [0, 1, 10];
    const ALL = [...NAMES, ...IDX];
    const nest = (keys, leaf) => { let v = leaf; for (let i = keys.length - 1; i >= 0; i--) { const o = Object.create(null); o[keys[i]] = v; v = o; } return v; };
    const LEAF = { leaf: 1 };
    const build = (keys, leaf, cutAt, cut) => { let v = leaf; for (let i = keys.length - 1; i >= 0; i--) { if (i + 1 === cutAt) v = cut; const o = typeof keys[i] === 'number' ? [] : {}; Object.defineProperty(o, keys[i], { value: v, enumerable: true, configurable: true, writable: true }); v = o; } return v; };
    const one = ks => {
        const copy = ks.slice(); let out = '';
        for (const startDot of [false, true]) for (const optional of [false, true]) {
            const txt = from(ks, { startDot, optional }); eq(ks, copy, 'list of keys after the call');
            ok(typeof txt === 'string', `not a string: ${show(txt)}`);
            if (startDot) { // valid code after an identifier
                const o = nest(ks, LEAF); const got = attempt(() => new Function('o', `return o${txt}`)(o));
                ok(got.ok && got.value === LEAF, `text ${show(txt)} of ${show(ks)} does not reach the value: ${show(got)}`);
            }
            if (!optional) eq(to(txt), ks, `keys read back from ${show(txt)}`);
            out += txt;
        }
        eq(from(ks), from(ks, { startDot: false, optional: false }), 'defaults');
        eq(from(ks, {}), from(ks), 'empty options');
        return out;
    };
    // names and indexes that need no quoting are written as documented, the optional mark before every name but the first
    const PLAIN = ['a', 'key', '$', '_', 'A1', 'constructor', '中'];
    t.cases('lists-text', t.product([...t.words([...PLAIN, 0, 1, 10], 1, t.thorough ? 4 : 3)], [undefined, false, true], [undefined, false, true]), ([ks, startDot, optional]) => {
        const e = ks.map((k, i) => typeof k === 'number' ? `[${k}]` : (i ? (optional ? '?.' : '.') : startDot ? '.' : '') + k).join('');
        eq(from(ks, { startDot, optional }), e, `fromCascadeKeys(${show(ks)}, ${show({ startDot, optional })})`); return e;
    });
    t.cases('lists-optional', t.product([...t.words(['a', 'b', '中', 0], 2, 4)], [undefined, null], [1, 2, 3]), ([ks, cut, at]) => {
        if (at >= ks.length || typeof ks[at] === 'number') return 'skip'; const o = build(ks, LEAF, at, cut), run = optional => attempt(() => new Function('o', 'return o' + from(ks, { startDot: true, optional }))(o));
        const a = run(true), b = run(false); ok(a.ok && a.value === undefined, `optional text of ${show(ks)} cut at ${at}: ${show(a)}`); ok(!b.ok && b.error instanceof TypeError, `plain text of ${show(ks)} cut at ${at}: ${show(b)}`);
    });
    t.cases('lists', t.words(ALL, 1, t.thorough ? 4 : 3), one);
    t.cases('lists-long', t.words(['a', 'a-b', 0, '0', '中', '__proto__'], 4, t.thorough ? 6 : 5), one);
    t.cases('lists-deep', t.longs(['a', 'a-b', 0, '0'], [9, 17, 33]), one);
    t.cases('empty', [[], undefined], ks => { eq(from(ks ?? []), ''); eq(to(''), []); });
    // ---- reading texts in every notation of every key
    const deps = Object.assign(Object.create(null), { d: 'origin', n: 7, zero: 0, blank: '' });
    const notes = [];
    for (const n of ['a', 'key', '$b', '中', '__proto__', 'constructor']) notes.push([`.${n}`, n], [`["${n}"]`, n], [`['${n}']`, n], [`.["${n}"]`, n], [`[ '${n}' ]`, n]);
    for (const n of [0, 2, 10]) notes.push([`[${n}]`, n], [`[ ${n} ]`, n], [`.[${n}]`, n]);
    for (const [d, v] of Object.entries(deps)) notes.push([`[${d}]`, v], [`.[${d}]`, v]);
    notes.push(["['a b']", 'a b'], ['["a.b"]', 'a.b'], ["['d']", 'd'], ["['0']", '0']);
    t.cases('notations', t.words(notes, 1, t.thorough ? 4 : 3), ws => {
        const txt = ws.map(x => x[0]).join(''), ks = ws.map(x => x[1]);
        eq(to(txt, { ...deps }), ks, txt);
        if (txt[0] === '.' && txt[1] !== '[') eq(to(txt.slice(1), { ...deps }), ks, txt.slice(1));
        return txt;
    });
    t.cases('bracket-then-name', t.product([0, 3], ['a', 'bc'], ['', '.x', '[1]']), ([n, k, rest]) => eq(to(`[${n}]${k}${rest}`), [n, k, ...(rest === '.x' ? ['x'] : rest ? [1] : [])]));
    // every short text against a reader of the notation: brackets pair up, a bracket holds a quoted name, an index or a dependency
    const read = (s, deps) => {
        const out = []; let i = 0, cur = '';
        const flush = () => { const k = cur.trimEnd(); if (k) out.push(k); cur = ''; };
        while (i < s.length) {
            const c = s[i];
            if (c === '.') { flush(); i++; } else if (c === ']') return null; else if (c === '[') {
                const e = s.indexOf(']', i + 1); if (e < 0) return null; flush();
                const body = s.slice(i + 1, e).trim(); if (!body) return null;
                const q = body[0]; let m;
                if ((q === '"' || q === "'") && body.length > 2 && body.at(-1) === q && !body.slice(1, -1).includes(q)) { m = body.slice(1, -1); if (!m.trim()) return null; out.push(m.trim() === m ? m : { blank: m }); } else if (!/^\d+$/.test(body) && body.trim() && Number(body) >= 0) return [{ blank: 1 }]; else if (/^\d+$/.test(body)) out.push(Number(body)); else if (Object.hasOwn(deps, body)) out.push(deps[body]); else return null;
                i = e + 1;
            } else { cur += c; i++; }
        }
        flush(); return out;
    };
    t.cases('texts', t.strings('a0.[]"d', 0, t.thorough ? 7 : 6), s => {
        const d = { d: 'D' }; const e = read(s, d); if (e && e.some(x => x.blank)) return 'skip'; const r = attempt(() => to(s, d));
        if (e === null) ok(!r.ok, `accepted ${show(s)}: ${show(r)}`); else { ok(r.ok, `${show(s)} threw ${show(r.error?.message)}`); eq(r.value, e, s); }
        return s;
    });
    t.cases('undefined-dependency', t.product(['[x]', 'a[x]', 'a[x].b', '[0][x]', '[toString]', 'a[constructor]', '[__proto__]', '[-1]', '[1.5]'], [undefined, {}, { y: 1 }, { x: undefined }, { x: null }, Object.create({ x: 'inherited' })]), ([s, d]) => {
        const r = attempt(() => to(s, d)); ok(!r.ok, `${s} with ${show(d)}: ${show(r)}`);
    });
    t.cases('malformed', ['[', ']', 'a[', 'a]', 'a[0', 'a0]', '[]', 'a[]', "['']", '[""]', "[' ']", '[ ]', 'a.b[', 'a]b[', '[0]]', '😀[', '😀]'], s => { const r = attempt(() => to(s)); ok(!r.ok, `accepted ${s}: ${show(r)}`); const r2 = attempt(() => cascade({ a: 1 }, s)); ok(!r2.ok, `cascade accepted ${s}: ${show(r2)}`); });
    // ---- cascade
    const walk = (o, ks) => { for (const k of ks) o = o[k]; return o; };
    const SAFE = NAMES.filter(k => !['5x'].includes(k)).slice(0, 14);
    t.cases('cascade-reaches', t.product([...t.words([...SAFE, 0, 10], 1, 3)], [true, false]), ([ks, startDot]) => {
        for (const leaf of [1, 0, '', null, undefined, false, LEAF, NaN]) { const o = build(ks, leaf, -1), txt = from(ks, { startDot }); for (const th of [undefined, true, false]) eq(cascade(o, txt, undefined, th), leaf, txt); }
        return ks.join('/');
    });
    t.cases('cascade-cut', t.product([...t.words(['a', 'b-c', 0, '中文'], 2, 4)], [undefined, null], [0, 1, 2, 3]), ([ks, cut, at]) => {
        if (at >= ks.length - 0 || at === 0) { if (at !== 0) return 'skip'; } const o = at === 0 ? cut : build(ks, LEAF, at, cut), txt = from(ks);
        const off = attempt(() => cascade(o, txt, undefined, false)); ok(off.ok && off.value === undefined, `isThrow false, ${txt} cut at ${at} by ${cut}: ${show(off)}`);
        const on = attempt(() => cascade(o, txt)); ok(!on.ok || on.value === undefined, `${txt} cut at ${at} by ${cut}: ${show(on)}`);
        const said = attempt(() => cascade(o, txt, undefined, true)); ok(said.ok === on.ok, `${txt} cut at ${at} by ${cut}: isThrow is true when it is not given: ${show(on)} and ${show(said)}`);
        return txt + at + cut;
    });
    t.cases('cascade-getter-throws', [true, undefined, false], th => { const o = { get a() { throw new RangeError('g'); } }; const r = attempt(() => cascade(o, 'a', undefined, th)); if (th !== false) ok(!r.ok && r.error instanceof RangeError, show(r)); else ok(r.ok && r.value === undefined, show(r)); });
    t.cases('cascade-dependency', t.product(['origin', 'x\r\ry\r', 'x\n\ny\n', "''", 'a b', ' a', 'a ', ' ', '\ta', 'a\n', '\r', '\u2028', '\u00a0', 'a.b', 'a]b', '[0]', 'a\\b', '\\', "it's", 'say "x', '0', '-1', '__proto__', 0, 3, 'constructor'], ['k[d]', '.k.[d]', 'k[ d ].z']), ([v, s]) => { const ks = ['k', v, ...(s.endsWith('z') ? ['z'] : [])]; const d = { d: v }; eq(cascade(build(ks, LEAF, -1), s, d), LEAF); eq(d, { d: v }); });
    // ---- getFromPaths against a stepwise walk; every step own, inherited, non-enumerable, a getter, absent, or a primitive's
    const { getFromPaths } = w.load('@curong/object'); const SY = Symbol('s');
    const holder = (kind, k, v) => { switch (kind) {
        case 'own': return { [k]: v }; case 'null': { const o = Object.create(null); o[k] = v; return o; }
        case 'inh': return Object.create({ [k]: v }); case 'hidden': return Object.defineProperty({}, k, { value: v, enumerable: false });
        case 'getter': return Object.defineProperty({}, k, { get() { return v; }, enumerable: true }); case 'inhget': return Object.create(Object.defineProperty({}, k, { get() { return v; } }));
        case 'fn': return Object.assign(() => 0, { [k]: v }); case 'arr': return Object.assign([7, 8], { [k]: v }); case 'absent': return { other: v }; case 'frozen': return Object.freeze({ [k]: v }); case 'proxy': return new Proxy({ [k]: v }, {}); } };
    const KINDS = ['own', 'null', 'inh', 'hidden', 'getter', 'inhget', 'fn', 'arr', 'absent', 'frozen', 'proxy'];
    t.cases('paths-chain', t.product([...t.words(KINDS, 1, 3), ...t.words(['own', 'inh', 'absent'], 4, t.thorough ? 6 : 5)], [0, 1, 2], [undefined, false, true]), ([ks, kk, priv]) => {
        const keys = ks.map((_, i) => [['a', 'b', 'c', 'd', 'e', 'f'], [3, SY, 'x.y', '__proto_', '', -1], ['toString', 'k', 0, SY, 'constructor', 'z']][kk][i]); let out = '';
        for (const leaf of [LEAF, undefined, null, 0]) {
            let o = leaf; for (let i = ks.length - 1; i >= 0; i--) o = holder(ks[i], keys[i], o);
            let e = o; for (let i = 0; i < ks.length; i++) { if (e === undefined || e === null || priv && !Object.hasOwn(e, keys[i])) { e = undefined; break; } e = e[keys[i]]; }
            const kc = keys.slice(); const r = getFromPaths(o, keys, priv); ok(Object.is(r, e), () => `${show(ks)} keys ${show(keys)} onlyPrivate ${priv}: ${show(r)}, expected ${show(e)}`); eq(keys, kc); out += typeof r;
        }
        return ks.join() + kk + out;
    });
    t.cases('paths-primitive-step', t.product(['ab', '', 5, true, Symbol.iterator, 3n, null, undefined, () => 0], [['length'], [0], ['toString'], ['constructor', 'name'], ['length', 'x'], ['x', 'y'], []], [undefined, false, true]), ([v, rest, priv]) => {
        const step = (x, k) => x === null || x === undefined || priv && !Object.hasOwn(Object(x), k) ? undefined : x[k];
        let e = v; for (const k of rest) e = step(e, k);
        for (const [o, ks] of [[v, rest], [{ p: v }, ['p', ...rest]]]) { const r = getFromPaths(o, ks, priv); ok(Object.is(r, e), () => `${show(o)} ${show(ks)} ${priv}: ${show(r)} instead of ${show(e)}`); }
    });
    t.cases('paths-getter-throws', t.product([true, false], [1, 2]), ([priv, n]) => { const er = new RangeError('g'); let o = { get a() { throw er; } }; if (n === 2) o = { z: o }; const r = attempt(() => getFromPaths(o, n === 2 ? ['z', 'a'] : ['a'], priv)); ok(!r.ok && r.error === er, show(r)); });
    t.cases('cascade-invalid-key', ['', undefined, null, 0, {}, []], k => { for (const th of [true, false]) { const r = attempt(() => cascade({ a: 1 }, k, undefined, th)); ok(!r.ok, show(r)); } });
    // hostile property names are looked up, never run
    const FR = ["'", "'a'", '"a"', '\\', '\n', '\r', '\u2028', '`', '${1}', '+(globalThis.__pwn=1)+', ';globalThis.__pwn=1;', '//', ']', 'a'];
    t.cases('hostile-names', t.words(FR, 1, t.thorough ? 4 : 3), fs => {
        const key = fs.join(''); if (/^(?:'[^'\\\r\n]+'|"[^"\\\r\n]+")$/.test(key)) return 'skip'; if (key.trim() !== key) return 'skip';
        globalThis.__pwn = 0;
        for (const mk of [k => ['o[d]', { d: k }], ...(/[\]"]/.test(key) || !key.trim() ? [] : [k => [`["${k}"]`, undefined]])]) {
            const [txt, d] = mk(key); const o = { o: { [key]: LEAF }, [key]: LEAF };
            const r = attempt(() => cascade(o, txt, d));
            ok(!globalThis.__pwn, `code in the name ${show(key)} was run`);
            ok(r.ok && r.value === LEAF, `name ${show(key)}: ${show(r)}`);
            const r2 = attempt(() => cascade({ o: {} }, txt, d)); ok(!globalThis.__pwn && r2.ok && r2.value === undefined, `absent name ${show(key)}: ${show(r2)}`);
        }
        return key;
    });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    { const O = t.world().load('@curong/object'); await again(t, [['toCascadeKeys', O.toCascadeKeys, () => ['a.b[0].c']], ['toCascadeKeys', O.toCascadeKeys, () => ["['x y'].z"]], ['toCascadeKeys', O.toCascadeKeys, () => ['a']], ['fromCascadeKeys', O.fromCascadeKeys, () => [['a', 'b', '0']]], ['cascade', O.cascade, () => [{ a: { b: [{ c: 1 }] } }, 'a.b[0].c']], ['cascade', O.cascade, () => [{ a: { b: [{ c: 2 }] } }, 'a.b[0]']], ['getFromPaths', O.getFromPaths, () => [{ a: { b: [1] } }, ['a', 'b']]], ['getFromPaths', O.getFromPaths, () => [{ a: { b: [1] } }, ['a', 'b'], true]]]); }
};
