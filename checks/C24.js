'use strict';
const { again } = require('../lib/again');
const { ok, eq, show, attempt } = require('../lib/util');
const { nested } = require('../lib/overlap');
exports.technique = 'bounded exhaustive enumeration of strings over representatives of every character class, all options, and every code unit, on the real code against run-removal definitions';
exports.bounds = 'all strings up to length 5 (thorough 6) over 7 representatives x every helper, all 81 option combinations on strings up to length 3, every BMP code unit in 4 positions, extras over all ASCII punctuation and astral characters; long inputs (up to 130-1025 parts) in every simple arrangement; a second and third call made inside any callback of the first; runs of up to 1025 characters (thorough 4097); every ordered pair of representative calls, results and arguments changed in between';
exports.assumptions = ['with every class switched off and no extras isSpaceString is judged on non-empty strings only'];
exports.run = async t => {
    const S = t.world().load('@curong/string');
    const ZW = [...'\uFEFF\u200B\u200C\u200D\u200E\u200F\u202A\u202B\u202C\u202D\u202E\u2060\u2061\u2062\u2063\u2064\u2066\u2067\u2068\u2069\u206A\u206B\u206C\u206D\u206E\u206F'];
    const LS = [...'\u00A0\u205F\u202F\u3000\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200A'];
    const CT = [...'\u2028\u2029\t\r\n\f\v\b\u0085'];
    const set = (o = {}, extras) => new Set([...(o.space ?? true ? [' '] : []), ...(o.zeroWidth ?? true ? ZW : []), ...(o.likeSpace ?? true ? LS : []), ...(o.control ?? true ? CT : []), ...[...[extras ?? []].flat().join('')]]);
    const start = (s, X) => { const a = [...s]; while (a.length && X.has(a[0])) a.shift(); return a.join(''); };
    const end = (s, X) => { const a = [...s]; while (a.length && X.has(a.at(-1))) a.pop(); return a.join(''); };
    const all = (s, X) => [...s].filter(c => !X.has(c)).join('');
    const z = new Set(ZW), l = new Set(LS), c = new Set(CT);
    const REF = { rmControl: s => all(s, c), rmControlStart: s => start(s, c), rmControlEnd: s => end(s, c), rmZeroWidth: s => all(s, z), rmZeroWidthStart: s => start(s, z), rmZeroWidthEnd: s => end(s, z), rmLikeSpaceStart: s => start(s, l), rmLikeSpaceEnd: s => end(s, l), rmLikeSpace: s => [...start(end(s, l), l)].map(x => l.has(x) ? ' ' : x).join(''), startSpacesLength: s => /^ */.exec(s)[0].length, startTabsLength: s => /^\t*/.exec(s)[0].length };
    const four = (s, o, x) => {
        const X = set(o, x), a = o === undefined && x === undefined ? [] : x === undefined ? [o] : [o, x]; const w = () => `(${show(s)}, ${show(o)}, ${show(x)})`;
        eq(S.trimStart(s, ...a), start(s, X), 'trimStart' + w()); eq(S.trimEnd(s, ...a), end(s, X), 'trimEnd' + w()); eq(S.trim(s, ...a), start(end(s, X), X), 'trim' + w()); eq(S.trimAll(s, ...a), all(s, X), 'trimAll' + w());
        if (s) eq(S.isSpaceString(s, ...a), [...s].every(ch => X.has(ch)), 'isSpaceString' + w());
        if (s === '' && !a.length) eq(S.isSpaceString(''), false, 'isSpaceString of nothing');
    };
    const rest = s => { for (const k in REF) eq(S[k](s), REF[k](s), `${k}(${show(s)})`); };
    const REPS = [' ', '\u200B', '\u3000', '\n', 'a', '\t', '中'];
    t.cases('strings', t.words(REPS, 0, t.thorough ? 6 : 5), w => { const s = w.join(''); four(s); rest(s); return s; });
    t.cases('long', t.longs(REPS, [9, 33, 130]), w => { const s = w.join(''); four(s); rest(s); });
    t.cases('strings-rare', t.words(['\u2028', '\uFEFF', '\u00A0', '\u0085', '\ud83d', '\ude00', 'b'], 0, 4), w => { const s = w.join(''); four(s); rest(s); return s; });
    t.cases('code-units', t.range(0, 255), hi => { for (let i = hi * 256; i < hi * 256 + 256; i++) { const ch = String.fromCharCode(i); for (const s of [ch, ch + ch, 'a' + ch + 'b', ch + 'a' + ch, 'a' + ch, ch + 'a']) { four(s); rest(s); } } });
    const OPTS = [...t.options({ space: [true, false], zeroWidth: [true, false], likeSpace: [true, false], control: [true, false] })];
    t.cases('options', t.product(OPTS, [...t.words(REPS, 0, 3)].map(w => w.join(''))), ([o, s]) => { const cp = { ...o }; four(s, o); eq(o, cp); return s + show(o); });
    t.cases('extras', t.product([...'!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~', 'a', '中', '😀', 'a-c', '^a', ']a', '\\d', 'ab', '.*', '[a]', '(a|b)'], [undefined, { space: false }, OPTS.find(o => Object.keys(o).length === 4 && !Object.values(o).some(Boolean))], [false, true]), ([x, o, arr]) => {
        const mk = arr ? [...x] : x; const cp = arr ? mk.slice() : mk; const chars = [...new Set([...x, 'a', 'b', 'd', ' ', ']', '\\', '😁', '😀', '-', '^'])];
        for (const w of t.words(chars, 0, 2)) four(w.join(''), o, mk); four('b' + x + 'b' + x, o, mk); four(x + 'b', o, mk); eq(mk, cp);
    });
    t.cases('extras-none', t.product(['', ' a ', 'a', '\n'], [undefined, '', []]), ([s, x]) => { if (s === '') { eq(S.trim('', {}, x), ''); return; } four(s, {}, x); });
    // ---- blanks put around matches
    const PUN = [...'，。！？、；：,.!?;:()[]"\'-（）'], WORD = ['a', 'Z', '9', '中', 'é', 'の'];
    t.cases('subSpaces', t.product([...t.words(['x', 'a', '，', ' ', '中', '.'], 1, t.thorough ? 6 : 5)].map(w => w.join('')), [[/x/, 0], [/x/g, 1], [/(x)/g, 1], [/(?<n>x)/g, 1], [/x+/g, 2], [/(?<n>x)(y)?/, 0]], [false, true]), ([s, [re, mode], h]) => {
        const X = new RegExp(mode === 2 ? 'x+' : 'x', mode ? 'g' : ''); let e = '', last = 0; const pun = c2 => c2 === ' ' || PUN.includes(c2);
        for (const m of mode ? s.matchAll(X) : [X.exec(s)].filter(Boolean)) { const L = s[m.index - 1], R = s[m.index + m[0].length]; let sub = h ? `<${m[0]}>` : m[0]; if (L && !pun(L)) sub = ' ' + sub; if (R && !pun(R)) sub += ' '; e += s.slice(last, m.index) + sub; last = m.index + m[0].length; }
        e += s.slice(last); const seen = []; const r = S.subSpaces(s, re, h ? (sub, ms) => { seen.push([sub, ms[0]]); return `<${sub}>`; } : undefined);
        eq(r, e, `subSpaces(${show(s)}, ${re}, ${h})`); for (const [a, b] of seen) eq(a, b); return r;
    });
    t.cases('subSpaces-neighbours', t.product([...PUN, ...WORD, ' ', ''], [...PUN, ...WORD, ' ', '']), ([a, b]) => { const P = c2 => c2 === '' || c2 === ' ' || PUN.includes(c2); eq(S.subSpaces(`${a}x${b}`, /x/g), `${a}${P(a) ? '' : ' '}x${P(b) ? '' : ' '}${b}`, `neighbours ${show([a, b])}`); });
    nested(t, 'inside', [['有100本书20', /\d+/g], ['abc中def', /[a-z]+/g], ['x1y', /\d/], ['中', /b/g], ['你a(b)好', /[ab]/g]].map(([s, re]) => ({ n: `${s} ${re}`, run: h => S.subSpaces(s, re, (m, all) => { h(); return `<${m}${all.length}>`; }) })));
    // ---- long runs at both ends, inside, and long texts between
    t.cases('far', t.product(t.thorough ? [300, 1025, 4097] : [300, 1025], REPS, [[1, 1, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]]), ([n, u, [a, b, m]]) => {
        const s = (a ? u.repeat(n) : '') + 'b' + (m ? u.repeat(n) : 'x'.repeat(n)) + 'b' + (b ? u.repeat(n) : ''), X = set(), l = `${n} of ${show(u)} at ${[a, b, m]}`, is = (got, w, f) => ok(got === w, () => `${f} of ${l}: ${typeof got === 'string' ? got.length : got} instead of ${typeof w === 'string' ? w.length : w}`);
        const fast = X.has(u) ? { start: s.slice(a ? n : 0), end: b ? s.slice(0, -n) : s, all: (m ? 'bb' : 'b' + 'x'.repeat(n) + 'b') } : { start: s, end: s, all: s }; is(S.trimStart(s), fast.start, 'trimStart'); if (n < 9000 || b) is(S.trimEnd(s), fast.end, 'trimEnd'); is(S.trimAll(s), fast.all, 'trimAll'); if (n < 9000 || b) is(S.trim(s), X.has(u) ? s.slice(a ? n : 0, b ? -n : undefined) : s, 'trim'); is(S.isSpaceString(s), false, 'isSpaceString'); is(S.isSpaceString(u.repeat(n)), X.has(u), 'isSpaceString of a run'); is(S.isSpaceString(u.repeat(n) + 'b'), false, 'isSpaceString of a run and a letter'); if (n < 9000) for (const k in REF) is(S[k](s), REF[k](s), k); else { is(S.startSpacesLength(s), u === ' ' && a ? n : 0, 'startSpacesLength'); is(S.startTabsLength(s), u === '\t' && a ? n : 0, 'startTabsLength'); }
    });
    t.cases('subSpaces-far', t.product([300, 4097], [0, 0.5, 1], ['a', '中', '，']), ([n, f, u]) => { const k = Math.floor(n * f), P = PUN.includes(u), s = u.repeat(k) + 'x' + u.repeat(n - k); const e = u.repeat(k) + (k && !P ? ' ' : '') + 'x' + (n - k && !P ? ' ' : '') + u.repeat(n - k); ok(S.subSpaces(s, /x/g) === e && S.subSpaces(s, /x/) === e, `x after ${k} of ${n} ${u}`); const all = t.range(1, n).map(() => 'x1').join('，'); ok(S.subSpaces(all, /x/g) === all.replaceAll('x', 'x '), `${n} matches`); });
    await again(t, [['trim', S.trim, () => [' \u200b\u00a0a b\x01 ']], ['trim', S.trim, () => [' \u200b\u00a0a b\x01 ', { likeSpace: true, zeroWidth: true, control: true, space: false }]], ['trim', S.trim, () => ['-x a x-', {}, ['-', 'x']]], ['trim', S.trim, () => ['-x a x-', undefined, '-x']], ['trimStart', S.trimStart, () => [' \u200b\u00a0a b\x01 ']], ['trimStart', S.trimStart, () => [' \u200b\u00a0a b\x01 ', { likeSpace: true, zeroWidth: true, control: true, space: false }]], ['trimStart', S.trimStart, () => ['-x a x-', {}, ['-', 'x']]], ['trimStart', S.trimStart, () => ['-x a x-', undefined, '-x']], ['trimEnd', S.trimEnd, () => [' \u200b\u00a0a b\x01 ']], ['trimEnd', S.trimEnd, () => [' \u200b\u00a0a b\x01 ', { likeSpace: true, zeroWidth: true, control: true, space: false }]], ['trimEnd', S.trimEnd, () => ['-x a x-', {}, ['-', 'x']]], ['trimEnd', S.trimEnd, () => ['-x a x-', undefined, '-x']], ['trimAll', S.trimAll, () => [' \u200b\u00a0a b\x01 ']], ['trimAll', S.trimAll, () => [' \u200b\u00a0a b\x01 ', { likeSpace: true, zeroWidth: true, control: true, space: false }]], ['trimAll', S.trimAll, () => ['-x a x-', {}, ['-', 'x']]], ['trimAll', S.trimAll, () => ['-x a x-', undefined, '-x']], ['isSpaceString', S.isSpaceString, () => [' \u200b\u00a0a b\x01 ']], ['isSpaceString', S.isSpaceString, () => [' \u200b\u00a0a b\x01 ', { likeSpace: true, zeroWidth: true, control: true, space: false }]], ['isSpaceString', S.isSpaceString, () => ['-x a x-', {}, ['-', 'x']]], ['isSpaceString', S.isSpaceString, () => ['-x a x-', undefined, '-x']], ['rmControl', S.rmControl, () => [' \u200b\x01\u00a0a\u00a0\x01\u200b ']], ['rmLikeSpace', S.rmLikeSpace, () => [' \u200b\x01\u00a0a\u00a0\x01\u200b ']], ['rmZeroWidth', S.rmZeroWidth, () => [' \u200b\x01\u00a0a\u00a0\x01\u200b ']]]);
};
