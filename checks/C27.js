'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
exports.technique = 'bounded exhaustive enumeration of texts, markers and options on the real code against slice-level reference functions';
exports.bounds = 'all texts up to length 4 over several alphabets (letters, blanks, regular-expression metacharacters, case pairs of unequal length); all markers up to length 2; every position from 0 to past the end; all matcher lists up to length 3; all texts of up to 3 sentences over a word list; long inputs (up to 130-1025 parts) in every simple arrangement; every ordered pair of a table of calls, results and arguments changed in between; 22 documented abbreviations in 4 case forms; chunks up to 5000 characters; every set of regexp flags';
exports.run = async t => {
    const S = t.world().load('@curong/string');
    const D = t.thorough ? 1 : 0;
    const up = s => [...Array(s.length).keys()].map(i => { const c = s[i], u = c.toUpperCase(); return u.length !== 1 || (c.charCodeAt(0) > 127 && u.charCodeAt(0) < 128) ? c : u; }).join('');
    const has = (s, c, cs) => cs ? s.includes(c) : up(s).includes(up(c));
    const at = (s, c, p, cs) => cs ? s.startsWith(c, p) : up(s).startsWith(up(c), p);
    const opts = n => { const r = [undefined]; for (let p = -1; p <= n + 1; p++) for (const cs of [undefined, true, false]) r.push({ ...(p >= 0 && { position: p }), ...(cs !== undefined && { caseSensitivity: cs }) }); return r; };
    const one = (s, ch) => {
        for (const o of opts(s.length)) {
            const cs = o?.caseSensitivity !== false, p = o?.position, cp = ch.slice(), at0 = `(${show(s)}, ${show(ch)}, ${show(o)})`;
            const none = !s || !ch.length;
            eq(S.frontOf(s, ch, o), !none && ch.some(c => has(p !== undefined && p < s.length ? s.slice(0, p + 1) : s, c, cs)), `frontOf${at0}`);
            eq(S.behindOf(s, ch, o), !none && ch.some(c => has(s.slice(p ?? 0), c, cs)), `behindOf${at0}`);
            const r = attempt(() => S.notStarts(s, ch, o));
            if (!none && (p ?? 0) > s.length) ok(!r.ok, `notStarts${at0} accepts a position beyond the text`);
            else { ok(r.ok, `notStarts${at0} throws`); eq(r.value, none || !ch.some(c => at(s, c, p ?? 0, cs)), `notStarts${at0}`); }
            eq(ch, cp);
        }
    };
    const slice = (s, c) => {
        for (const o of opts(s.length)) for (const pr of [undefined, false, true]) {
            const op = pr === undefined ? o : { ...o, preserve: pr }, p = op?.position ?? 0, r = attempt(() => S.startsSlice(s, c, op)), l = `startsSlice(${show(s)}, ${show(c)}, ${show(op)})`;
            if (p > s.length) ok(!r.ok, `${l} accepts a position beyond the text`);
            else { ok(r.ok, `${l} throws`); eq(r.value, at(s, c, p, op?.caseSensitivity !== false) ? (pr ? s.slice(0, p) : '') + s.slice(p + c.length) : s, l); }
        }
    };
    for (const [name, al] of [['letters', 'abB'], ['meta', '.a*'], ['meta2', '\\[-'], ['meta3', '^$|'], ['meta4', '(?+'], ['meta5', '{})]'], ['fold', 'ßsİ'], ['fold2', 'éÉi'], ['astral', '😀x']]) {
        const texts = [...t.strings(al, 0, 4 + D)], marks = [...t.strings(al, 0, 2)];
        t.cases(`find-${name}`, t.product(texts, marks), ([s, c]) => { one(s, [c]); slice(s, c); });
    }
    t.cases('find-long', t.product([...t.longs(['a', 'B', '.'], [17, 65])].map(w => w.join('')), ['a', 'B', 'b.', '.a.', 'x', 'a'.repeat(17), 'b'.repeat(64)], [undefined, 0, 1, 8, 16, 33, 64], [undefined, true, false]), ([s, c, p, k]) => {
        if (p > s.length) return 'skip'; const o = { ...(p !== undefined && { position: p }), ...(k !== undefined && { caseSensitivity: k }) }, cs = k !== false, l = `(${show(s)}, ${show(c)}, ${show(o)})`;
        eq(S.frontOf(s, [c], o), has(p !== undefined && p < s.length ? s.slice(0, p + 1) : s, c, cs), 'frontOf' + l); eq(S.behindOf(s, [c], o), has(s.slice(p ?? 0), c, cs), 'behindOf' + l); eq(S.notStarts(s, [c], o), !at(s, c, p ?? 0, cs), 'notStarts' + l); for (const preserve of [false, true]) eq(S.startsSlice(s, c, { ...o, preserve }), at(s, c, p ?? 0, cs) ? (preserve ? s.slice(0, p ?? 0) : '') + s.slice((p ?? 0) + c.length) : s, 'startsSlice' + l);
    });
    t.cases('find-many', t.product(t.range(4, 40), [true, false]), ([n, hit]) => { const ch = t.range(1, n).map(i => 'q' + i + '.'), s = hit ? ch.at(-1) : 'zz'; eq(S.frontOf(s, ch), hit); eq(S.behindOf(s, ch), hit); eq(S.notStarts(s, ch), !hit); });
    t.cases('find-lists', t.product([...t.strings('aB.', 0, 3)], [...t.words(['a', 'b', '.', 'aB', ''], 0, 3)]), ([s, ch]) => one(s, ch));
    t.cases('find-literals', t.product([...new Set(['ss', 'SS', 'ſ', 'K', 'k', 'ſs', 'ﬁ', 'fi', 'ǆ', 'ǅ', 'Ǆ', 'ς', 'σ', 'Σ', 'µ', 'μ', '/', 'a/b', '\n', '-', 'a-z', 'b', '\\d', '1', '\\'])], ['', 'x', 'X/']), ([c, pre]) => { for (const s of [pre + c, pre + c + 'y', pre + up(c) + 'y', pre + c.toLowerCase(), c + pre, pre]) { one(s, [c]); slice(s, c); } });
    t.cases('position-domain', t.product(['', 'ab'], [-1, 1.5, NaN, Infinity, '1', null]), ([s, p]) => { ok(!attempt(() => S.startsSlice(s, 'a', { position: p })).ok, `startsSlice position ${show(p)}`); if (s) ok(!attempt(() => S.notStarts(s, ['a'], { position: p })).ok, `notStarts position ${show(p)}`); for (const f of ['word', 'wordStart', 'wordEnd']) ok(!attempt(() => S[f](s, p)).ok, `${f} position ${show(p)}`); });
    // ---- words
    const words = s => { for (let p = 0; p <= s.length + 1; p++) {
        let l = null, r = null; for (let i = s.length - 1; i >= p; i--) if (!/\s/.test(s[i])) { r = i; break; } for (let i = p; i < s.length; i++) if (!/\s/.test(s[i])) { l = i; break; }
        const a = `(${show(s)}, ${p})`; eq(S.wordStart(s, p), l, `wordStart${a}`); eq(S.wordEnd(s, p), r, `wordEnd${a}`); eq(S.word(s, p), l === null ? null : { left: l, right: r }, `word${a}`); if (!p) eq(S.word(s), l === null ? null : { left: l, right: r }, `word(${show(s)})`);
    } };
    t.cases('words', t.strings('a b', 0, 7 + D), words);
    t.cases('words-blanks', t.strings('a\n\t\u3000', 0, 5 + D), words);
    t.cases('words-blanks2', t.strings('a\u00a0\ufeff\u2028\u200b', 0, 4 + D), words);
    t.cases('words-long', t.product([0, 1, 999, 1000, 5000], [0, 1, 1000, 70000], ['', 'x', 'ab']), ([n, m, w]) => { const s = ' '.repeat(n) + w + ' '.repeat(m); eq(S.word(s), w ? { left: n, right: n + w.length - 1 } : null); });
    // ---- plain text to regular expression
    const plain = (s, hay) => { for (const fl of ['', 'g', 'i', 'gi', 'm', 'u', 'gu', 'gimu']) {
        const r = S.toRegExp(s, fl); eq([...r.flags].sort().join(''), [...fl].sort().join('')); const i = fl.includes('i') ? up(hay).indexOf(up(s)) : hay.indexOf(s); r.lastIndex = 0; const m = r.exec(hay);
        eq(m ? m.index : -1, i, `${show(hay)} searched for ${show(s)} with ${r}`); if (m) eq(m[0].length, s.length);
    } eq(S.toRegExp(s).flags, 'g'); ok(new RegExp(`^[${S.toRegExpSource(s) || 'a'}]*$`).test(s), `toRegExpSource(${show(s)}) within a class`); ok(new RegExp(`^${S.toRegExpSource(s)}$`).test(s)); ok(new RegExp(`^${S.toRegExpSource(s)}$`, 'u').test(s)); };
    const ascii = []; for (let i = 32; i < 127; i++) ascii.push(String.fromCharCode(i));
    t.cases('toRegExp-pairs', t.product(ascii, ascii), ([a, b]) => { plain(a + b, `x${a}${b}y`); plain(a + b, b + a); plain(a + b, a); });
    t.cases('toRegExp', t.strings('a.\\-d', 0, 4 + D), s => { for (const h of [s, `aa${s}`, 'a.d', 'add\\d', s.slice(1)]) plain(s, h); });
    t.cases('toRegExp-flags', t.words(['g', 'i', 'm', 'u', 'y', 's', 'd', 'v', 'x', 'G', ' '], 0, 2), f => { const v = f.join(''), r = attempt(() => S.toRegExp('a', v)), good = /^[gimuy]*$/.test(v) && new Set(v).size === v.length; eq(r.ok, good, `toRegExp('a', ${show(v)})`); if (good) eq([...r.value.flags].sort(), [...v].sort()); });
    // ---- sequential replacement
    const MR = [['a', 'b'], ['b', '$&$&'], [/a/g, 'b'], [/b/, ''], ['', 'c'], ['.', 'a'], [/(a)(b)/g, '$2$1'], ['c', (m, i) => `<${m}${i}>`], [/$/g, 'a']];
    t.cases('multiReplace', t.product([...t.strings('ab.', 0, 4)], [...t.words([...MR.keys()], 0, 3)]), ([s, ks]) => { const ms = ks.map(k => MR[k]), e = ms.reduce((m, [a, b]) => m.replace(a, b), s); eq(S.multiReplace(s, ms), e, `multiReplace(${show(s)}, ${show(ms)})`); eq(S.multiReplace(s, ms.map(([match, replacer]) => ({ match, replacer }))), e); });
    t.cases('multiReplace-many', t.range(4, 60), n => { const ms = t.range(1, n).map(i => [`<${i - 1}>`, `<${i}>`]); eq(S.multiReplace('x<0>y<0>', ms), `x<${n}>y<0>`); eq(S.multiReplace('<0><0>', ms.map(([a, b]) => [new RegExp(a, 'g'), b])), `<${n}><${n}>`); });
    t.cases('toRegExp-long', t.longs(['a', '.', '\\', '-', '[', ')', '$'], [9, 65, 300]), w => { const s = w.join(''); plain(s, 'x' + s + 'y'); plain(s, s.slice(1)); });
    // ---- JSON
    await t.casesAsync('parseJson', t.product(['1', '{"a":[1,{"b":null}]}', '"x"', '', '{', 'undefined', '[1,]', ' 1 ', '{"__proto__":1}', 'NaN', '"\u2028"', '01'], [undefined, (k, v) => typeof v === 'number' ? v + 1 : v, function (k, v) { if (k === 'b') return undefined; return v; }, () => { throw new Error('r'); }]), async ([v, f]) => {
        let e, bad = false; try { e = JSON.parse(v, f); } catch { bad = true; } let p; ok(attempt(() => { p = S.parseJson(v, f); }).ok, 'throws instead of rejecting'); let g, rej = false; try { g = await p; } catch { rej = true; } eq(rej, bad, `parseJson(${show(v)}) rejection`); if (!bad) eq(g, e);
    });
    // ---- sentences
    const keep = (s, o) => { const r = S.toSentences(s, o); ok(r.every(x => !x.includes('\n')), 'a sentence contains a line break'); const l = `toSentences(${show(s)}, ${show(o)}) is ${show(r)}, which changes the text`; if (s.includes('\n')) eq(r.join('').replace(/\s/g, ''), s.replace(/\s/g, ''), l); else { let i = 0; for (const x of r) { while (s[i] === ' ' && !s.startsWith(x, i)) i++; ok(s.startsWith(x, i), l); i += x.length; } ok(!s.slice(i).trim(), l); } return r; };
    const OPT = [undefined, {}, { ellipsis: false }, { ellipsis: true }, { escape: true }];
    t.cases('sentences-keep', t.strings('a. 我。', 0, 6 + D), s => { for (const o of OPT) keep(s, o); });
    t.cases('sentences-keep2', t.strings('a.( )"', 0, 6 + D), s => { for (const o of OPT) keep(s, o); });
    t.cases('sentences-keep3', t.words(['it is', ' ', '. ', '! ', '...', '? ', '; ', 'e.g. ', '。', '(', ')', '\n', '`', '我', '\\'], 0, 4), w => { for (const o of OPT) keep(w.join(''), o); });
    const W = ['it is', 'we go', 'a b x']; const END = ['.', '!', '?', ';', '?!'];
    const sent = []; for (const w of W) for (const e of END) sent.push(w + e); sent.push('see (it is. we go) ok.', 'see `a. b c. d` ok.', 'use e.g. that one.', 'at 5 p.m. we go.', 'use 1.5 of it!', 'see "it is? no" ok?');
    t.cases('sentences-split', t.words(sent, 1, 3), l => { for (const o of OPT) eq(keep(l.join(' '), o), l, `toSentences(${show(l.join(' '))}, ${show(o)})`); });
    t.cases('sentences-many', t.product([...t.words(sent, 1, 2)], [5, 11, 33]), ([l, n]) => { const x = t.range(1, n).map(i => l[i % l.length]); for (const o of OPT) eq(keep(x.join(' '), o), x, `toSentences of ${n} sentences ${show(l)}, ${show(o)}`); });
    t.cases('sentences-open', t.product([...t.words(sent.slice(0, 7), 1, 2)], ['it is', 'it', '(a. b', 'e.g. x']), ([l, x]) => eq(keep([...l, x].join(' ')), [...l, x]));
    const zh = []; for (const w of ['我', '我爱中国', '（我。你）好', '“我。你”好']) for (const e of '。！？；') zh.push(w + e);
    t.cases('sentences-zh', t.words(zh, 1, 3), l => eq(keep(l.join('')), l, `toSentences(${show(l.join(''))})`));
    t.cases('sentences-ellipsis', t.words(['it is...', 'we go......', 'a b...'], 1, 4), l => { eq(keep(l.join(' '), { ellipsis: false }), [l.join(' ')]); eq(keep(l.join(' ')), l); });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    await again(t, [['toSentences', S.toSentences, () => ['One. Two? Three']], ['toSentences', S.toSentences, () => ['']], ['matchOrder', S.matchOrder, () => ['abcab', ['a', 'b']]], ['matchSplit', S.matchSplit, () => ['a1b2c', /\d/g]], ['matchSplit', S.matchSplit, () => ['a1b2c', /\d/]], ['multiReplace', S.multiReplace, () => ['abc', [['a', 'x'], ['b', 'y']]]], ['word', S.word, () => ['foo bar', 1]], ['behindOf', S.behindOf, () => ['abc', 'b']], ['frontOf', S.frontOf, () => ['abc', 'b']], ['notStarts', S.notStarts, () => ['abc', 'b']], ['startsSlice', S.startsSlice, () => ['abc', 'a']]]);
    // the documented abbreviations, in every case form, never end a sentence; the same word without its meaning does
    t.cases('abbreviations', t.product(['e.g.', 'i.e.', 'i.a.', 'etc.', 'ca.', 'cf.', 'ff.', 'C.V.', 'P.S.', 'A.D.', 'p.m.', 'p.a.', 'LL.B.', 'id.', 'viz.', 'vs.', 'ibid.', 'Ph.D.', 'q.v.', 'N.B.', 'sc.', 'lb.'], [x => x, x => x.toLowerCase(), x => x.toUpperCase(), x => x[0].toUpperCase() + x.slice(1)], ['see', 'zz zz', '中'], ['this', 'This one', 'to it. y']), ([a, f, pre, post]) => {
        const w = f(a), r = S.toSentences(`${pre} ${w} ${post}`), e = post.split(/(?<=\.) /); eq(r, [`${pre} ${w} ${e[0]}`, ...e.slice(1)], `after ${w}`);
        eq(S.toSentences(`${pre} zq${w} ${post}`), [`${pre} zq${w}`, ...e], `after zq${w}`);
    });
    // long chunks, met only at their very end or not at all, with and without regard to case
    t.cases('long-chunks', t.product([31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000], [0, 1, 70], [undefined, true, false], ['', 'end'], [0, 1, 2]), ([n, position, caseSensitivity, tail, k]) => {
        const u = 'Ab.'.repeat(Math.ceil(n / 3)).slice(0, n - 1), chunk = u + 'X', text = 'q'.repeat(position) + u + ['X', 'x', 'Y'][k] + tail, o = { position, caseSensitivity }, is = k === 0 || k === 1 && caseSensitivity === false, l = `${n} characters at ${position}, ${show(o)}`;
        eq(S.notStarts(text, [chunk], o), !is, `notStarts: ${l}`); eq(S.notStarts(text, ['zz', chunk], o), !is, `notStarts: ${l}, second of two`);
        eq(S.startsSlice(text, chunk, o), is ? tail : text, `startsSlice: ${l}`); eq(S.behindOf(text, [chunk], o), is, `behindOf: ${l}`); eq(S.frontOf(text, [chunk], { caseSensitivity }), is, `frontOf: ${l}`);
    });
    // every set of flags
    t.cases('split-flags', t.product([...t.strings('aAb\n', 0, 4)], ['b', 'a', '^a', 'b$', 'a.', 'aa?', '(?=b)'], ['', 'g', 'i', 'y', 's', 'm', 'u', 'gi', 'gy', 'gm', 'iy', 'gimsuy']), ([s, src, flags]) => {
        const m = s.length ? new RegExp(src, flags.replace('g', '')).exec(s) : null, r = new RegExp(src, flags), e = m ? [s.slice(0, m.index), m[0], s.slice(m.index + m[0].length)] : [];
        eq(S.matchSplit(s, r), e, () => `matchSplit ${show(s)} by ${r}`);
    });
};
