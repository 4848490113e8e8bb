'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
const { nested } = require('../lib/overlap');
exports.technique = 'bounded exhaustive enumeration of cookie strings, pair lists and attribute combinations on the real code against a direct splitter and the round trip';
exports.bounds = 'all strings up to length 8 over {a,b,=,;,blank,"} (thorough 9), all lists of up to 3 pairs over 6 names x 16 values x 4 separators, all attribute option combinations; long inputs (up to 130-1025 parts) in every simple arrangement; a second and third call made inside any callback of the first; values and names of up to 70000 characters; up to 5000 pairs; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = ['a lone double quote as value is outside the domain', 'names given to createCookie are free of = ; and edge blanks'];
exports.run = async t => {
    const w = t.world(); const { parseCookie: P, createCookie: C } = w.load('@curong/cookie');
    const ref = (s, dec = x => x) => { const r = []; for (const part of s.split(';')) { const i = part.indexOf('='); if (i < 0) continue; let v = part.slice(i + 1).trim(); if (v.length > 1 && v[0] === '"' && v.at(-1) === '"') v = v.slice(1, -1).trim(); r.push([part.slice(0, i).trim(), dec(v)]); } return Object.fromEntries(r); };
    const lone = s => s.split(';').some(p => p.slice(p.indexOf('=') + 1).trim() === '"');
    t.cases('strings', t.strings('ab=; "', 0, t.thorough ? 9 : 7), s => {
        if (lone(s)) return 'skip';
        const r = attempt(() => P(s));
        if (!s.includes('=')) { ok(!r.ok && r.error instanceof TypeError, `accepted ${show(s)}: ${show(r)}`); return 'rejected'; }
        ok(r.ok, `${show(s)} threw ${show(r.error)}`); eq(r.value, ref(s), `parseCookie(${show(s)})`); return show(r.value);
    });
    t.cases('strings-special', t.strings('a=;\n%\t中', 0, t.thorough ? 7 : 6), s => { if (!s.includes('=')) return 'skip'; eq(P(s), ref(s), `parseCookie(${show(s)})`); });
    const NAMES = ['a', 'sid', 'b-c', 'toString', '__proto__', 'A', 'x.y'], VALS = ['', '1', 'b=c', '==', 'a%3Db', '"q"', '" q "', 'v v', '中', '%E4%B8%AD', '{"a":1}', 'a,b', 'x=1=', '=', '%', '""', ...t.literals('cookie/src/cookie').strs.filter(s => s && !/[;\n]/.test(s) && s.trim() === s && s.length < 9 && s !== '"').slice(0, 6)];
    const unq = v => v.length > 1 && v[0] === '"' && v.at(-1) === '"' ? v.slice(1, -1).trim() : v;
    const DEC = [undefined, decodeOr, v => v + '!'];
    function decodeOr(v) { try { return decodeURIComponent(v); } catch { return v; } }
    t.cases('pairs', t.product([...t.words([...t.product(NAMES, VALS)].filter((_, i) => t.thorough || i % 3 !== 1), 1, 2)], [';', '; ', ' ; ', ';\n'], ['', ';', '; ', '\n']), ([ps, sep, end]) => {
        const s = ps.map(([n, v]) => `${n}=${v}`).join(sep) + end; const e = Object.fromEntries(ps.map(([n, v]) => [n, unq(v)]));
        eq(P(s), e, `parseCookie(${show(s)})`); return s;
    });
    t.cases('pairs-three', t.product(t.perms(['a', 'b', 'c']), [...t.words(['', '1', 'b=c', '"q"', 'a%3Db'], 3, 3)], DEC), ([ns, vs, dec]) => {
        const s = ns.map((n, i) => `${n}=${vs[i]}`).join('; '); const e = {}; ns.forEach((n, i) => { e[n] = (dec || (x => x))(unq(vs[i])); }); const seen = []; const d = dec && (v => { seen.push(v); return dec(v); });
        eq(P(s, d), e, `parseCookie(${show(s)}, ${dec})`); if (dec) eq(seen, vs.map(unq), 'decoded values'); return s + DEC.indexOf(dec);
    });
    t.cases('pairs-many', t.product([5, 9, 21, 50, 51, 130], [...t.words(['', '1', 'b=c', '"q"', 'x'.repeat(300)], 1, 2)], [';', '; ']), ([n, vs, sep]) => { const ps = t.range(1, n).map(i => ['n' + i, vs[i % vs.length] + (vs[i % vs.length] && vs[i % vs.length] !== '"q"' ? i : '')]); const s = ps.map(p => p.join('=')).join(sep); eq(P(s), Object.fromEntries(ps.map(([k, v]) => [k, unq(v)])), s.slice(0, 200)); });
    t.cases('decode-invalid', t.product([null, undefined, 1, {}], ['a=1', 'a=1; b=2', 'a=1;']), ([bad, s]) => { const r = attempt(() => P(s, v => bad)); ok(!r.ok && r.error instanceof TypeError, show(r)); });
    t.cases('rejects', ['', 'abc', 'a;b', null, undefined, 1, {}, []], s => { const r = attempt(() => P(s)); ok(!r.ok && r.error instanceof TypeError, `${show(s)}: ${show(r)}`); });
    // ---- creating
    const D = new Date('2020-01-01T00:00:00Z');
    const attrs = o => { const out = []; if (o.maxAge !== undefined) out.push(`Max-Age=${Math.floor(o.maxAge)}`); if (o.domain) out.push(`Domain=${o.domain}`); if (o.path) out.push(`Path=${o.path}`); if (o.expires) out.push(`Expires=${o.expires.toUTCString()}`); if (o.httpOnly === true) out.push('HttpOnly'); if (o.secure === true) out.push('Secure'); const ss = o.sameSite === true ? 'Strict' : { lax: 'Lax', strict: 'Strict', none: 'None' }[String(o.sameSite).toLowerCase()]; if (ss) out.push(`SameSite=${ss}`); return out; };
    t.cases('create-options', t.options({ maxAge: [0, 10, 1.9, -1, -0.5, 1e15, undefined], domain: ['a.b', ''], path: ['/', '/x y'], expires: [D, undefined], httpOnly: [true, false], secure: [true, false], sameSite: [true, 'lax', 'Strict', 'NONE', 'other', undefined] }), o => {
        const c = { ...o }; const s = C('n', 'v', o); eq(o, c, 'options after the call'); const [first, ...rest] = s.split('; '); eq(first, 'n=v'); eq(rest.sort(), attrs(o).sort(), `createCookie('n','v',${show(o)})`); return s;
    });
    t.cases('create-age-odd', [NaN, Infinity, -Infinity, 1e16, 2 ** 53, -0], v => { const s = C('n', 'v', { maxAge: v, path: '/' }); ok(/^n=v; Max-Age=-?\d+; Path=\/$/.test(s), `maxAge ${v}: ${s} is not a well-formed attribute`); return s; });
    t.cases('create-defaults', t.product(['n', 'a b', 'é'], ['v', 'a b']), ([n, v]) => { const e = `${n}=${encodeURIComponent(v)}`; eq(C(n, v), e); eq(C(n, v, {}), e); eq(C(n, v, undefined), e); });
    t.cases('round-trip', t.product(NAMES, [...t.strings('a=;, %"\n中\\', 1, t.thorough ? 4 : 3), '😀', '\u0000', '\u0080ÿ', 'x'.repeat(50)], [undefined, { path: '/' }]), ([n, v, o]) => { const s = C(n, v, o); const p = P(s, decodeURIComponent); eq(Object.getOwnPropertyDescriptor(p, n)?.value, v, `round trip of ${show(v)} through ${show(s)}`); eq(Object.keys(p).length, o ? 2 : 1); return v; });
    t.cases('round-trip-list', t.words([...t.product(['a', 'b', '__proto__'], ['1', 'x=y', '; b=2', '"'])], 1, 3), ps => { if (new Set(ps.map(p => p[0])).size < ps.length) return 'skip'; const s = ps.map(([n, v]) => C(n, v)).join('; '); eq(P(s, decodeURIComponent), Object.fromEntries(ps), s); return s; });
    t.cases('encode', ['v', 'a b', 'é', ''], v => { const calls = []; eq(C('n', v, { encode: x => (calls.push(x), '<' + x + '>') }), `n=<${v}>`); eq(calls, [v]); });
    // a character outside the printable Latin-1 range anywhere makes name and value invalid
    const bad = c => !(c === 9 || (c >= 32 && c <= 126) || (c >= 128 && c <= 255));
    t.cases('characters', [...t.range(0, 0x101), 0x2028, 0x4e2d, 0xfeff, 0xffff], c => { const ch = String.fromCharCode(c); for (const s of [ch, 'a' + ch, ch + 'a', 'a' + ch + 'a']) { const r = attempt(() => C(s, 'v', {})), q = attempt(() => C('n', s, { encode: x => x })); for (const [x, what] of [[r, 'name'], [q, 'value']]) { if (bad(c)) ok(!x.ok && x.error instanceof TypeError, `${what} ${show(s)} accepted`); else ok(x.ok, `${what} ${show(s)} rejected: ${show(x.error)}`); } for (const k of ['domain', 'path']) eq(C('n', 'v', { [k]: s }), bad(c) ? 'n=v' : `n=v; ${k === 'path' ? 'Path' : 'Domain'}=${s}`); } });
    t.cases('create-rejects', t.product([['', 'v'], [undefined, 'v'], [null, 'v'], [1, 'v'], ['n', 'v', { encode: 1 }], ['n', 'v', { encode: () => 'x' }], ['n', 'v', { encode: v => 1 }], ['n', 'v', { encode: v => '' }], ['n', '', {}]], [0]), ([a]) => { const r = attempt(() => C(...a)); ok(!r.ok && r.error instanceof TypeError, `${show(a)}: ${show(r)}`); });
    // ---- a cookie made or parsed while another one is encoded or decoded
    nested(t, 'inside', [
        ...[['n', 'v', { path: '/', maxAge: 5 }], ['m', 'a b', { secure: true, httpOnly: true, domain: 'd' }], ['o', 'é', {}]].map(([n, v, o]) => ({ n: 'create ' + n, run: h => C(n, v, { ...o, encode: x => { h(); return encodeURIComponent(x); } }) })),
        ...['a=1; b=2; c="3"', 'x=%41; y=', ' p = q ; r=s;t', 'z=1;'].map(s => ({ n: 'parse ' + s, run: h => P(s, v => { h(); return decodeURIComponent(v); }) })),
        { n: 'parse, bad', run: h => P('k=1; l=2', v => { h(); return v === '2' ? 2 : v; }) }
    ]);
    // ---- long names and values, wherever they stand
    t.cases('far', t.product([300, 4097, 70000], ['x', 'é', '=', '%41', 'a b', '"q'], [0, 1, 2], [';', '; ', '  ;  ']), ([n, u, at, sep]) => { if (n > 9000 && (u === 'a b' || sep !== '; ')) return 'skip';
        const v = u.repeat(Math.ceil(n / u.length)) + 'z', e = ['1', '2', '3'], f = e.slice(); f[at] = v; const s = ['a', 'b', 'c'].map((k, i) => `${k}=${f[i]}`).join(sep), l = `value of ${v.length} as number ${at}`; const r = P(s); eq(Object.keys(r).join(), 'a,b,c', l); ok('abc'.split('').every((k, i) => r[k] === f[i]), () => `${l}: ${Object.values(r).map(x => x.length)} characters`); const d = []; P(s, x => (d.push(x), x)); ok(d.length === 3 && d.every((x, i) => x === f[i]), `${l}: decoded`); const q = P(s.replace(v, `"${v}"`)); ok(q['abc'[at]] === v, `${l}: quoted`);
        const nm = 'n'.repeat(n), r2 = P(`x=1${sep}${nm}=${v}${sep}y=2`); ok(r2[nm] === v && r2.x === '1' && r2.y === '2', `name of ${n}`); for (const o of [{}, { path: '/' }]) { const c = C(nm, v, o); ok(c === `${nm}=${encodeURIComponent(v)}${o.path ? '; Path=/' : ''}`, `create ${l}`); ok(P(c, decodeURIComponent)[nm] === v, `round trip of a ${l}`); } const pd = C('n', 'v', { path: '/' + 'p'.repeat(n), domain: 'd'.repeat(n) }); ok(pd.includes('Path=/' + 'p'.repeat(n)) && pd.includes('Domain=' + 'd'.repeat(n)), `path of ${n}`);
    });
    t.cases('many-far', [1025, 5000], n => { const ps = t.range(1, n).map(i => ['n' + i, 'v' + i * 3]), r = P(ps.map(p => p.join('=')).join('; ')); eq(Object.keys(r).length, n); for (const [k, v] of ps) if (r[k] !== v) ok(false, `${k} of ${n} is ${show(r[k])}`); });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    await again(t, [['parse', P, () => ['a=1; b="2"; c=%41']], ['parse', P, () => ['a=1; b="2"; c=%41', decodeURIComponent]], ['parse', P, () => ['a=1']], ['create', C, () => ['a', 'b c']], ['create', C, () => ['a', 'b c', { path: '/', maxAge: 5, secure: true }]], ['create', C, () => ['a', 'b c', { encode: v => v }]], ['create', C, () => ['a', 'é', { expires: new Date(0) }]]]);
};
