'use strict';
const { ok, eq, show } = require('../lib/util');
const { again } = require('../lib/again');
const { nested } = require('../lib/overlap');
exports.technique = 'bounded exhaustive enumeration of texts on the real code against left-to-right (or, where documented, right-to-left) reference scanners';
exports.bounds = 'all texts up to length 7 (thorough 8) over quotes, brackets, backslash, letter and blank in several alphabets; every default pair of marks; custom marks; all pairs of small regular expressions; long inputs (up to 130-1025 parts) in every simple arrangement; a second and third call made inside any callback of the first; texts of up to 5000 parts; every ordered pair of a table of calls, results and arguments changed in between; every form of leaving out the options over all texts of up to 5 (thorough: 6) marks, letters and escapes';
exports.assumptions = ["an apostrophe between a letter and two or more letters is outside the domain of the quote and pair scanners"];
exports.run = async t => {
    const S = t.world().load('@curong/string');
    const apos = s => /[a-zA-Z]'[a-zA-Z]{2}/.test(s);
    // the open quote at the end of a text, read from the left
    const pair = s => { let tok = ''; for (let i = 0; i < s.length; i++) { const c = s[i]; if (c === '\\') { if (tok && s[i + 1] === tok) i++; } else if (c === "'" && tok === "'" && /^[a-zA-Z]'[a-zA-Z][^a-zA-Z]/.test(s.slice(Math.max(0, i - 1)))) { if (i > 0) i++; else tok = ''; } else if ('\'"`'.includes(c)) { if (!tok) tok = c; else if (tok === c) tok = ''; } } return tok; };
    // the same read from the right, up to a bracket or semicolon outside quotes
    const closed = s => { let tok = ''; for (let i = s.length - 1; i >= 0; i--) { const c = s[i]; if ('{};()[]'.includes(c)) { if (!tok) break; } else if ('\'"`'.includes(c)) { if (c === "'" && tok === c && i > 0 && /^[a-zA-Z]'[a-zA-Z] /.test(s.slice(i - 1))) { i--; continue; } if (s[i - 1] === '\\') { if (c === tok) i--; } else if (!tok) tok = c; else if (tok === c) tok = ''; } } return tok; };
    const D = t.thorough ? 1 : 0;
    t.cases('quotes', t.strings('"\'\\a`', 0, 6 + D), s => { if (apos(s)) return 'skip'; eq(S.quotePair(s), pair(s), `quotePair(${show(s)})`); eq(S.quoteClosed(s), closed(s), `quoteClosed(${show(s)})`); return s; });
    t.cases('quotes-words', t.strings("\"'a ;(", 0, 6 + D), s => { if (apos(s)) return 'skip'; eq(S.quotePair(s), pair(s), `quotePair(${show(s)})`); eq(S.quoteClosed(s), closed(s), `quoteClosed(${show(s)})`); return s; });
    t.cases('quotes-stop', t.product([...'{};()[]a,<\n'], ['"', "'", '`', ''], ['"', "'", '`', ''], ['', 'b', '"b"']), ([c, a, b, m]) => { const s = `x${a}${m}${c}${m}${b}`; if (apos(s)) return; eq(S.quoteClosed(s), closed(s), `quoteClosed(${show(s)})`); eq(S.quotePair(s), pair(s), `quotePair(${show(s)})`); });
    // ---- inside / outside of pairs
    const MARKS = { "'": "'", '"': '"', '`': '`', '‹': '›', '«': '»', '(': ')', '[': ']', '{': '}', '⦅': '⦆', '⦗': '⦘', '⟦': '⟧', '⟨': '⟩', '⟪': '⟫', '⟬': '⟭', '⟮': '⟯', '〘': '〙', '〚': '〛', '<': '>', '‘': '’', '“': '”', '〝': '〞', '（': '）', '［': '］', '｛': '｝', '｟': '｠', '〈': '〉', '《': '》', '「': '」', '『': '』', '【': '】', '〔': '〕', '〖': '〗', '＜': '＞' };
    // segments [inside?, text]; an unclosed pair is not inside
    const scan = (s, marks, escape) => {
        const segs = []; let from = 0, head = '', depth = 0, open = -1; const get = c => Object.hasOwn(marks, c ?? '') ? marks[c] : '';
        for (let i = 0; i < s.length; i++) {
            const c = s[i], tail = head && marks[head];
            if (escape && c === '\\') { if (!head || s[i + 1] === tail || s[i + 1] === head) i++; continue; }
            if (c === "'" && i > 0 && /^[a-zA-Z]'[a-zA-Z][^a-zA-Z]/.test(s.slice(i - 1))) { i++; continue; }
            if (!head) { if (get(c)) { if (from < i) segs.push([false, s.slice(from, i)]); from = i; head = c; depth = 1; } continue; }
            if (c === tail) { if (--depth === 0) { const nx = s[i + 1]; if (get(nx)) { head = nx; depth = 1; i++; } else { segs.push([true, s.slice(from, i + 1)]); from = i + 1; head = ''; } } } else if (c === head) depth++;
        }
        if (from < s.length) segs.push([false, s.slice(from), !!head]); return segs;
    };
    const both = (s, marks, escape) => {
        const o = marks || escape !== undefined ? { ...(marks ? { marks } : {}), ...(escape !== undefined ? { escape } : {}) } : undefined; const segs = scan(s, marks || MARKS, escape === true);
        for (const [f, inside] of [['bindInside', true], ['bindOutside', false]]) {
            const seen = []; const cb = (...a) => { seen.push(a); return `<${a[0]}>`.toUpperCase(); };
            const r = o ? S[f](s, o, cb) : S[f](s, cb); const e = segs.filter(x => x[0] === inside).map(x => x[1]);
            eq(seen.map(a => a[0]), e, `${f}(${show(s)}, ${show(o)}) handed over`); eq(r, segs.map(x => x[0] === inside ? `<${x[1]}>`.toUpperCase() : x[1]).join(''), `${f}(${show(s)}, ${show(o)})`);
            for (const a of seen) { ok(a[2] === s, 'third argument'); ok(Number.isInteger(a[1]) && a[1] >= 0 && a[1] <= s.length + 1, 'index'); }
            const idf = x => x; eq(o ? S[f](s, o, idf) : S[f](s, idf), s, `${f} with the identity`); eq(S[f](s, o, idf), s);
        }
        return show(segs);
    };
    t.cases('pairs', t.strings('()"a[]', 0, 6 + D), s => both(s));
    t.cases('pairs-quotes', t.strings('"\'`a ', 0, 6 + D), s => apos(s) ? 'skip' : both(s));
    t.cases('pairs-escape', t.product([...t.strings('()"\\a', 0, 6 + D)], [true, false]), ([s, e]) => both(s, undefined, e));
    t.cases('pairs-mixed', t.strings('(<)>b《》', 0, 5 + D), s => both(s));
    t.cases('marks', Object.entries(MARKS), ([a, b]) => { for (const w of t.words([a, b, 'x', '('], 0, 4)) if (!apos(w.join(''))) both(w.join('')); });
    t.cases('marks-custom', t.product([{ '%': '%' }, { '<': '/' }, { a: 'b', '|': '|' }, {}], [...t.strings('<%/ab|(', 0, 4)], [undefined, true]), ([m, s, e]) => both(s, m, e));
    t.cases('marks-long', t.product(t.range(1, 6), ['(', '"']), ([n, q]) => { const c = MARKS[q]; both(`x${q.repeat(n)}y${c.repeat(n)}z`); both(`x${`${q}y${c}`.repeat(n)}z`); both(`x${`${q}y${c} `.repeat(n)}z`); });
    const LONG = [9, 33, 130];
    t.cases('quotes-long', t.longs(['"', "'", '\\', 'a', '(', '`'], LONG), w => { const s = w.join(''); if (apos(s)) return 'skip'; eq(S.quotePair(s), pair(s), `quotePair(${show(s)})`); eq(S.quoteClosed(s), closed(s), `quoteClosed(${show(s)})`); });
    t.cases('pairs-long', t.longs(['(', ')', '"', 'a', '()', '[x]', '(a(b)c)', '“', '”'], LONG), w => both(w.join('')));
    // ---- matching
    const RES = [/a/, /b/g, /ab|b/, /(a)(b)?/, /x/, /(?:)/, /b$/, /^b/, /a*/g, /[^a]/i, /(?<n>b)/, /B/i, /B/gi];
    t.cases('matchOrder', t.product([...t.strings('abx', 0, 3)], [...t.words(RES, 0, 2)]), ([s, rs]) => { let e = null; if (s) for (const r of rs) { e = s.match(r); if (e) break; } const cp = rs.slice(); const g = S.matchOrder(s, rs); eq(g && [...g, g.index], e && [...e, e.index], `matchOrder(${show(s)}, ${show(rs)})`); eq(rs, cp); });
    t.cases('matchSplit', t.product([...t.strings('abx\n', 0, 5)], RES), ([s, r]) => { const li = r.lastIndex; const m = s && s.match(new RegExp(r.source, r.flags.replace('g', ''))); const e = m ? [s.slice(0, m.index), m[0], s.slice(m.index + m[0].length)] : []; eq(S.matchSplit(s, r), e, `matchSplit(${show(s)}, ${r})`); if (m) eq(S.matchSplit(s, r).join(''), s); eq(r.lastIndex, li); });
    t.cases('matchSplit-invalid', [undefined, null, 'a', {}, 1], r => eq(S.matchSplit('abc', r), []));
    nested(t, 'inside', ['bindInside', 'bindOutside'].flatMap(f => ['a "b" c (d) e', '(x)', "'p' 'q'", 'plain', '[a(b)c] d'].map((s, i) => ({ n: `${f} ${s}`, run: h => (i % 2 ? S[f](s, { escape: true }, v => { h(); return v.toUpperCase() + i; }) : S[f](s, v => { h(); return v.toUpperCase() + i; })) }))));
    // ---- long texts
    const far = (n, u, k) => { const a = u.repeat(k), b = u.repeat(n - k); return [a, b]; };
    t.cases('quotes-far', t.product([300, 5000], ['a', ' ', '\\', '<', '中', '""', '"a"', "''"], ['"', "'", '`', '(', ';'], [0, 0.5, 1]), ([n, u, c, f]) => { const [a, b] = far(n, u, Math.floor(n * f)), s = a + c + b; if (apos(s)) return 'skip'; eq(S.quotePair(s), pair(s), `quotePair of ${show(c)} after ${a.length} of ${show(u)}`); eq(S.quoteClosed(s), closed(s), `quoteClosed of ${show(c)} after ${a.length} of ${show(u)}`); });
    t.cases('pairs-far', t.product([300, 2500], ['a', ' ', '(', '"', '(b)', '"b" ', '[](', '“b”'], ['(x)', '"x"', '(', ')', '《'], [0, 0.5, 1], [undefined, true]), ([n, u, c, f, esc]) => {
        const [a, b] = far(n, u, Math.floor(n * f)), s = a + c + b; if (apos(s)) return 'skip'; const segs = scan(s, MARKS, esc === true), l = `${show(c)} after ${a.length} of ${show(u)}`;
        for (const [nm, inside] of [['bindInside', true], ['bindOutside', false]]) { const seen = [], r = S[nm](s, esc ? { escape: true } : {}, x => { seen.push(x); return `<${x}>`; }), e = segs.filter(x => x[0] === inside).map(x => x[1]); ok(seen.length === e.length && seen.every((x, i) => x === e[i]), () => `${nm}: ${l}: ${seen.length} parts handed over instead of ${e.length}`); ok(r === segs.map(x => x[0] === inside ? `<${x[1]}>` : x[1]).join(''), `${nm}: ${l}`); }
    });
    t.cases('match-far', t.product([300, 70000], [0, 0.5, 1], ['a', '\n', 'ü']), ([n, f, u]) => { const [a, b] = far(n, u, Math.floor(n * f)), s = a + 'xy' + b; for (const r of [/xy?/, /x(y)/g]) { const p = S.matchSplit(s, r); ok(p.length === 3 && p[0] === a && p[1] === 'xy' && p[2] === b, `matchSplit after ${a.length}`); const m = S.matchOrder(s, [/none/, r, /./]); ok(m && m[0] === 'xy', `matchOrder after ${a.length}`); } ok(S.matchOrder(s, [...Array(200).fill(/none/), /xy/])[0] === 'xy', 'the 201st expression'); });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    await again(t, [['quoteClosed', S.quoteClosed, () => [`a 'b' "c`]], ['quoteClosed', S.quoteClosed, () => [`'b'`]], ['quotePair', S.quotePair, () => [`a 'b' "c"`]], ['quotePair', S.quotePair, () => [`x`]], ['quotePair', S.quotePair, () => [`'b' 'c'`]]]);
    // every way to hand in the options: left out, undefined, empty, partial; the callback second or third
    t.cases('inside-forms', t.product(['bindInside', 'bindOutside'], [...t.strings("\\'(a)", 0, t.thorough ? 6 : 5)]), ([n, s]) => {
        const go = (...o) => { const calls = []; const r = S[n](s, ...o, (v, i, a) => { calls.push([v, i, a]); return `<${v}>`; }); return [r, calls]; }, e = go({ escape: false });
        for (const o of [[], [undefined], [{}], [{ escape: undefined }], [{ marks: undefined }]]) eq(go(...o), e, () => `${n} ${show(s)} with options ${show(o)}`);
        eq(go({ escape: true, marks: undefined }), go({ escape: true }), () => `${n} ${show(s)}, escaping`);
    });
};
