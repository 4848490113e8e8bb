'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
exports.technique = 'bounded exhaustive enumeration of Set-Cookie headers built from known cookies, on the real code, against the cookies they were built from';
exports.bounds = 'all cookies with up to 3 attributes (every subset and order of 7 kinds, 3 spellings), all headers of up to 3 cookies joined by 5 comma styles, all strings up to length 6 over {a,=,;,comma,blank,tab} for termination and conservation; long inputs (up to 130-1025 parts) in every simple arrangement; values of up to 70000 characters; up to 5000 cookies or attributes; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = ['attribute values contain = only outside comma lists, as in the notation of the header', 'names and values are free of blanks next to ='];
exports.run = async t => {
    const w = t.world({ mocks: {} }); const { parseSetCookie: P, splitSetCookie: S, joinSetCookie: J, parseCookie } = w.load('@curong/cookie');
    const D1 = 'Tue, 07 Jun 2022 11:49:38 GMT', D2 = 'Tue, 07-Jun-22 11:49:38 GMT', D3 = 'Wed, 31-Dec-2025 23:59:59 GMT';
    const A = [['Expires=' + D1, { expires: new Date(D1) }], ['expires=' + D2, { expires: new Date('2022-06-07T11:49:38Z') }], ['Max-Age=60', { maxAge: 60 }], ['max-age=-1', { maxAge: -1 }], ['Path=/', { path: '/' }], ['PATH=/a=b', { path: '/a=b' }], ['Domain=.x.org', { domain: '.x.org' }], ['Secure', { secure: true }], ['HttpOnly', { httpOnly: true }], ['SameSite=Lax', { sameSite: 'Lax' }], ['secure', { secure: true }], ['HTTPONLY', { httpOnly: true }], ['samesite=none', { sameSite: 'none' }], ['Max-Age=0', { maxAge: 0 }]];
    const kind = a => Object.keys(a[1])[0];
    const sets = [...t.words(A, 0, 3)].filter(w => new Set(w.map(kind)).size === w.length);
    const NV = [['a', '1'], ['SID', ''], ['b', 'x=y=='], ['k', '%E4%B8%AD%3D'], ['t', '%'], ['c.d', '"q"'], ['toString', 'v'], ['__proto__', 'p']];
    const dec = v => { try { return decodeURIComponent(v); } catch { return v; } };
    const logs = []; const quiet = f => { const e = console.error; console.error = (...a) => logs.push(a); try { return f(); } finally { console.error = e; } };
    const text = ([n, v], as, sep = '; ') => [`${n}=${v}`, ...as.map(a => a[0])].join(sep);
    const want = ([n, v], as, decode = true) => Object.assign({ name: n, value: decode ? dec(v) : v }, ...as.map(a => a[1]));
    t.cases('parse-one', t.product(NV, sets, ['; ', ';', ' ; '], [undefined, true, false]), ([nv, as, sep, decode]) => {
        const r = attempt(() => quiet(() => P([text(nv, as, sep)], decode === undefined ? undefined : { decode }))); ok(r.ok, () => `${text(nv, as, sep)} threw ${show(r.error?.message)}`);
        eq(r.value, [want(nv, as, decode !== false)], text(nv, as, sep)); return text(nv, as, sep) + decode;
    });
    const some = [[], [A[0]], [A[8]], [A[0], A[4]], [A[4], A[1]], [A[7], A[8], A[1]], [A[6], A[4], A[2]]];
    t.cases('parse-many', t.product([...t.words([...t.product([...NV.slice(0, 4), NV.at(-1)], some.slice(0, 5))], 2, 2)], [undefined, false, true], [undefined, false]), ([cs, map, decode]) => {
        const list = cs.map(c => text(...c)); const copy = list.slice(); const r = quiet(() => P(list, { map, decode })); eq(list, copy, 'argument');
        const e = cs.map(c => want(...c, decode !== false)); if (map) eq(r, Object.fromEntries(e.map(x => [x.name, x]))); else eq(r, e);
    });
    t.cases('parse-end', t.product(NV.slice(0, 3), some, [';', '; ']), ([nv, as, end]) => eq(P([text(nv, as) + end]), [want(nv, as)]));
    // an attribute that happens to be called like a field of the result is no other name or value for the cookie
    t.cases('parse-clash', t.product(NV, ['name', 'value', 'NAME', 'Value'], ['x', '', 'y=z'], [[], [A[0]], [A[8], A[4]]], [undefined, true]), ([nv, k, v, as, map]) => { const l = [text(nv, [...as, [`${k}=${v}`]]), text(nv, [[`${k}=${v}`], ...as])]; for (const h of l) { const r = quiet(() => P([h], { map })); const c = map ? Object.getOwnPropertyDescriptor(r, nv[0])?.value : r[0]; eq([c?.name, c?.value], [nv[0], dec(nv[1])], h); for (const a of as) eq(c[kind(a)], a[1][kind(a)], h); if (nv[1] === dec(nv[1])) eq(J(r), `${nv[0]}=${nv[1]}`, h); } });
    t.cases('parse-empty', [0], () => { eq(P([]), []); eq(P([], { map: true }), {}); });
    t.cases('parse-invalid', ['', ';', 'abc', 'Secure', 'abc; Path=/', '; ;', 'a=1; =', 'a=1; Path'].slice(0, 6).concat('a=1; Path', 'a=1; Domain', 'a=1; xSecure', 'a=1; Secure1', 'a=1; HttpOnlyx', 'a=1; x HttpOnly', 'a=1; Secure x'), s => { const r = attempt(() => P([s])); ok(!r.ok && r.error instanceof Error, `${show(s)}: ${show(r)}`); });
    // ---- splitting
    const COMMA = [',', ', ', ',  ', ' , ', ',\t'];
    t.cases('split', t.product([...t.words([...t.product(NV.slice(0, 5), some)], 1, 2)], COMMA), ([cs, comma]) => {
        const list = cs.map(c => text(...c)); const r = S(list.join(comma)); eq(r.map(x => x.trim()), list, list.join(comma)); eq(r.map(x => x.trimStart()), r, 'blanks after a comma'); return list.join(comma);
    });
    t.cases('split-three', t.product([...t.words([...t.product(NV.slice(0, 2), [[], [A[0]], [A[4], A[1]], [A[0], A[8]]])], 3, 3)], [',', ', ']), ([cs, comma]) => {
        const list = cs.map(c => text(...c)); eq(S(list.join(comma)), list, list.join(comma)); const parsed = quiet(() => P(S(list.join(comma)))); eq(parsed, cs.map(c => want(...c)));
    });
    t.cases('split-many', t.product([4, 5, 9, 20, 21, 55, 130], [...t.words([[], [A[0]], [A[4], A[1]], [A[7], A[8], A[1]]], 1, 2)], [',', ', ', ' , ']), ([n, ass, comma]) => {
        const cs = t.range(1, n).map(i => [['n' + i, ['', 'v', 'x=y', '%41'][i % 4] + (i % 4 ? i : '')], ass[i % ass.length]]), list = cs.map(c => text(...c)); eq(S(list.join(comma)).map(x => x.trim()), list); for (const map of [false, true]) { const e = cs.map(c => want(...c)), r = P(list, { map }); eq(r, map ? Object.fromEntries(e.map(x => [x.name, x])) : e); eq(J(r), e.map(c => `${c.name}=${c.value}`).join('; ')); }
    });
    t.cases('split-dates', t.product([D1, D2, D3, 'Thu, 01-Jan-1970 00:00:01 GMT', 'a,b,c'], [D1, D2, D3], ['; ', ';']), ([a, b, sep]) => { const l = [`a=1${sep}Expires=${a}`, `b=2${sep}Path=/${sep}Expires=${b}${sep}Secure`, `c=3`]; eq(S(l.join(',')), l); eq(S(l.join(', ')), l); });
    t.cases('split-single', t.product(NV, some, ['', ' ', '\t ', ';']), ([nv, as, end]) => { const r = S(text(nv, as) + end); eq(r.map(x => x.trim()), [(text(nv, as) + end).trim()]); });
    t.cases('split-none', ['', undefined, null, 1, {}, []], v => eq(S(v), []));
    // a comma separates cookies exactly if a name and = follow before any other separator
    const refSplit = s => { const out = []; let start = 0; for (let i = 0; i < s.length; i++) if (s[i] === ',' && /^\s*[^=;,]*=/.test(s.slice(i + 1)) ) { out.push(s.slice(start, i)); start = i + 1; } out.push(s.slice(start)); return out.map(x => x.trim()).filter(Boolean); };
    t.cases('split-strings', t.strings('a=;, \t', 1, t.thorough ? 8 : 6), s => { const r = S(s); eq(r.map(x => x.trim()).filter(Boolean), refSplit(s), `splitSetCookie(${show(s)})`); return r.join('|'); });
    // ---- joining
    t.cases('join', t.product([...t.words([...t.product([['a', '1'], ['b', 'x=y'], ['c', ''], ['__proto__', 'v']], [[], [A[0], A[8]]])], 1, 3)], [false, true]), ([cs, map]) => {
        if (new Set(cs.map(c => c[0][0])).size < cs.length) return 'skip';
        const parsed = P(cs.map(c => text(...c)), { map }); const before = show(parsed); const s = J(parsed); eq(s, cs.map(c => c[0].join('=')).join('; ')); eq(parseCookie(s), Object.fromEntries(cs.map(c => c[0]))); eq(show(parsed), before, 'argument');
    });
    t.cases('join-invalid', [[], {}, null, undefined, '', 1], v => { const r = attempt(() => J(v)); ok(!r.ok && r.error instanceof Error, show(r)); });
    // ---- long values and attributes, very many cookies
    t.cases('far', t.product([300, 4097, 70000], [0, 1, 2], ['x', 'é', 'a=', '%41'], [',', ', ']), ([n, at, u, comma]) => {
        const big = u.repeat(Math.ceil(n / u.length)) + 'z', f = ['1', '2', '3']; f[at] = big; const list = f.map((v, i) => `n${i}=${v}; Path=/p${i}; Expires=${D1}; HttpOnly`), l = `value of ${big.length} as number ${at}`, r = S(list.join(comma)); ok(r.length === 3 && r.every((x, i) => x.trim() === list[i]), () => `${l}: split into ${r.map(x => x.length)}`);
        const p = quiet(() => P(list)); p.forEach((c, i) => { ok(c.name === 'n' + i && c.value === dec(f[i]) && c.path === '/p' + i && c.httpOnly === true && +c.expires === +new Date(D1), `${l}: cookie ${i}`); }); ok(J(p) === f.map((v, i) => `n${i}=${dec(v)}`).join('; '), `${l}: joined`);
        const path = '/' + u.repeat(n >> 1), q = quiet(() => P([`a=1; Secure; Path=${path}; Max-Age=60; x${'y'.repeat(n)}=k; HttpOnly`]))[0]; ok(q.path === path && q.maxAge === 60 && q.secure && q.httpOnly && q['x' + 'y'.repeat(n)] === 'k', `path of ${path.length}`);
    });
    t.cases('many-far', t.product([300, 1025, 5000], [',', ', ']), ([n, comma]) => { const list = t.range(1, n).map(i => `n${i}=v${i}` + (i % 3 ? `; Path=/${i}; Expires=${D1}` : '')), r = S(list.join(comma)); eq(r.length, n); r.forEach((x, i) => { if (x.trim() !== list[i]) ok(false, `cookie ${i} of ${n}: ${show(x)}`); }); for (const map of [false, true]) { const p = P(list, { map }), a = Object.values(p); eq(a.length, n); a.forEach((c, i) => { if (c.value !== 'v' + (i + 1)) ok(false, `cookie ${i} of ${n}: ${show(c)}`); }); eq(J(p), t.range(1, n).map(i => `n${i}=v${i}`).join('; ')); } const as = `a=1; ` + t.range(1, n).map(i => `k${i}=w${i}`).join('; '), c = P([as])[0]; for (let i = 1; i <= n; i++) if (c['k' + i] !== 'w' + i) ok(false, `attribute ${i} of ${n} is ${show(c['k' + i])}`); });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    { const h = 'a=1; Path=/; Expires=Wed, 21 Oct 2015 07:28:00 GMT, b=%41; Secure, c=3', l = () => ['a=%41; Path=/; Max-Age=5', 'b=2; HttpOnly']; await again(t, [['split', S, () => [h]], ['split', S, () => ['a=1']], ['split', S, () => ['']], ['parse', P, () => [l()]], ['parse', P, () => [l(), { decode: false }]], ['parse', P, () => [l(), { map: true }]], ['parse', P, () => [[h.split(', b')[0]]]], ['join', J, () => [[{ name: 'a', value: '1' }, { name: 'b', value: '2' }]]], ['join', J, () => [{ a: { name: 'a', value: '1' } }]]]); }
};
