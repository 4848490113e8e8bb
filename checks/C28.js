'use strict';
const { ok, eq, show } = require('../lib/util');
exports.technique = 'bounded exhaustive enumeration of token sequences through the real corrector, judged by invariants (skeleton, lines, fixpoint) and by the documented spacing and punctuation rules';
exports.bounds = 'all sequences up to length 3 over 45 tokens and up to length 5 over eight-token alphabets, with every combination of options; all BMP characters between ideographs and between letters; long inputs (up to 130-1025 parts) in every simple arrangement; texts of up to 5000 words (thorough 20000) and 1100 lines';
exports.assumptions = ['the fixpoint is claimed for texts of letters, digits, ideographs, blanks and sentence punctuation (with the enhancement) and for all tested texts (without it)'];
exports.shards = 4;
exports.run = async t => {
    const S = t.world().load('@curong/string');
    const D = t.thorough ? 1 : 0;
    const half = s => s.replace(/[\uff01-\uff5e]/g, c => String.fromCharCode(c.charCodeAt(0) - 65248)).replace(/\u3000/g, ' ');
    const skel = s => half(s).replace(/[^\p{L}\p{N}]/gu, '');
    const lines = s => s.split('\n').map(skel);
    const OPT = []; for (const enhanceRule of [undefined, true, false]) for (const toHalfWith of [undefined, true, false]) OPT.push({ ...(enhanceRule !== undefined && { enhanceRule }), ...(toHalfWith !== undefined && { toHalfWith }) });
    const FOUR = OPT.filter(o => 'enhanceRule' in o && 'toHalfWith' in o);
    const inv = (s, o) => {
        const r = S.corrector(s, o), l = `corrector(${show(s)}, ${show(o)}) is ${show(r)}`;
        eq(lines(r), lines(s.trim()), `${l}: letters, digits and ideographs of the lines`);
        if (o?.toHalfWith === false) { const w = x => x.replace(/[^\p{L}\p{N}]/gu, ''); eq(w(r), w(s), `${l}: converts full-width letters`); }
        else ok(!/[\uff10-\uff19\uff21-\uff3a\uff41-\uff5a]/.test(r), `${l}: a full-width letter or digit is left`);
        eq(r, r.trim(), `${l}: blanks at the ends`);
        return r;
    };
    const fix = (s, o, r) => eq(S.corrector(r, o), r, `corrector of ${show(r)}, the correction of ${show(s)} with ${show(o)}`);
    const T = ['中', '国', 'x', 'Ab', '0', '12', ' ', '  ', '，', '。', '.', ',', '!', '?', ':', '"', '“', '”', '(', ')', '（', '%', '+', '-', '*', '#', '/', '…', '...', '・', '·', '~', 'Ａ', '１', '\n', '_', '<', '>', '`', "'s", '\u3000', '&', '=', '$', 'é', '\\', '！', 'あ', '㈱', '℃'];
    t.cases('tokens', t.words(T, 0, 2), w => { const s = w.join(''); for (const o of [undefined, ...OPT]) { const r = inv(s, o); if (o?.enhanceRule === false) fix(s, o, r); } eq(S.corrector(s), S.corrector(s, { enhanceRule: true, toHalfWith: true })); });
    t.cases('tokens3', t.words(T, 3, 3), w => { const s = w.join(''); for (const o of FOUR) { const r = inv(s, o); if (!o.enhanceRule) fix(s, o, r); } });
    for (const [k, al] of [['中', 'x', '0', ' ', '，', '.', ',', '!'], ['中', 'x', ' ', '。', '.', '?', ';', ':'], ['中', '国', 'x', '1', ' ', '！', ':', ',']].entries())
        t.cases(`fixpoint-${k}`, t.words(al, 1, 5 + D), w => { const s = w.join(''); for (const o of [undefined, FOUR[3]]) fix(s, o, inv(s, o)); });
    for (const [k, al] of [['中', 'x', ' ', '"', '“', '”', '(', ')'], ['中', '0', ' ', '+', '-', '*', '%', '='], ['中', 'x', ' ', '/', '.', '_', '…', '...'], ['中', 'x', ' ', '<', '>', '`', '#', '\n'], ['中', 'x', ' ', '&', '|', '^', '?', '·']].entries())
        t.cases(`marks-${k}`, t.words(al, 4, 4 + D), w => { const s = w.join(''); inv(s, undefined); fix(s, FOUR[3], inv(s, FOUR[3])); });
    // every character between ideographs and between letters
    t.cases('characters', t.range(0x80), i => { for (let c = i * 512; c < (i + 1) * 512; c++) { const ch = String.fromCharCode(c); if (/[\s]/.test(ch) && ch !== '\n' && ch !== ' ') continue; for (const s of [`中${ch}中`, `x${ch}y`, `中${ch}x`, `${ch}中`]) for (const o of [undefined, FOUR[3]]) inv(s, o); } });
    // ---- documented rules: one blank between ideographs and letters or digits, none before punctuation, none added elsewhere
    const H = ['中', '国', '爱']; const A = ['x', 'Ab', '0', '42', 'a1'];
    t.cases('spacing', t.words([...H, ...A], 1, 4), w => {
        let e = ''; w.forEach((x, i) => { const p = w[i - 1]; if (p && H.includes(p) !== H.includes(x)) e += ' '; e += x; });
        for (const s of [w.join(''), e]) for (const o of FOUR) eq(S.corrector(s, o), e, `corrector(${show(s)}, ${show(o)})`);
        for (const [n, z] of [[',', '，'], ['!', '！'], ['?', '？'], [';', '；']]) if (H.includes(w.at(-1))) { eq(S.corrector(w.join('') + n), e + z, `final ${n}`); eq(S.corrector(w.join('') + n + ' '), e + z); }
        for (const z of '，。！？；：') for (const x of ['中', 'x']) for (const o of FOUR) eq(S.corrector(w.join('') + z + x, o), e + z + x, `corrector(${show(w.join('') + z + x)}, ${show(o)})`);
    });
    t.cases('spacing-long', t.longs(['中', '国家', 'x', '42', 'Ab'], [9, 33, 130]), w => { const isH = x => /[\u4e00-\u9fff]/.test(x); let e = ''; w.forEach((x, i) => { const p = w[i - 1]; if (p && isH(p) !== isH(x)) e += ' '; e += x; }); for (const s of [w.join(''), e]) for (const o of FOUR) eq(S.corrector(s, o), e, `corrector(${show(s)}, ${show(o)})`); });
    t.cases('lines-many', t.product(t.range(1, 40), ['中x', '中，国', 'x, y', '0中']), ([n, l]) => { const s = Array(n).fill(l).join('\n'); const one = S.corrector(l); eq(S.corrector(s).split('\n').length, n, `lines of ${n} times ${show(l)}`); inv(s, undefined); fix(s, FOUR[3], inv(s, FOUR[3])); });
    t.cases('between-ideographs', t.product([...t.words(H, 1, 3)], ['.', ':', ' ', '  ', ' . ', ' .', '. ']), ([w, m]) => { const z = m.trim() === '.' ? '。' : m.trim() === ':' ? '：' : '，'; eq(S.corrector(w.join(m)), w.join(z), `corrector(${show(w.join(m))})`); });
    t.cases('half-width', t.range(0xff01, 0xff5e), c => { const ch = String.fromCharCode(c), keep = '，？！：；（）'.includes(ch), a = String.fromCharCode(c - 65248); const r = S.corrector(`a${ch}b`), q = S.corrector(`a${keep ? ch : a}b`); eq(r, q, `full-width ${show(ch)}`); ok(S.corrector(`a${ch}b`, { toHalfWith: false }).includes(ch), `${show(ch)} converted although toHalfWith is false`); });
    t.cases('middle-dot', t.product(['·', '•', '‧'], ['', ' ', '  '], ['', ' '], ['中', 'x'], ['国', 'y']), ([d, l, r, a, b]) => eq(S.corrector(a + l + d + r + b), `${a}・${b}`));
    t.cases('blank', t.strings(' \n\t\u3000', 0, 3), s => { for (const o of [undefined, ...OPT]) eq(S.corrector(s, o), ''); });
    // ---- long texts: the rules hold as far as the text goes
    t.cases('spacing-far', t.product([['中', 'x'], ['中国', '42', 'Ab'], ['x', '中', '爱'], ['0', '中'], ['中', '国', '爱']], [600, 2001, ...(t.thorough ? [20000] : [5000])]), ([u, n]) => {
        const w = Array.from({ length: n }, (_, i) => u[i % u.length]), isH = x => /[\u4e00-\u9fff]/.test(x); let e = ''; w.forEach((x, i) => { const p = w[i - 1]; if (p && isH(p) !== isH(x)) e += ' '; e += x; }); const s = w.join('');
        for (const x of [s, e]) for (const o of [undefined, ...FOUR]) { const r = S.corrector(x, o); ok(r === e, () => { let i = 0; while (r[i] === e[i]) i++; return `corrector of ${n} times ${show(u)}: ${r.length} characters instead of ${e.length}, differs at ${i}: ${show(r.slice(Math.max(0, i - 10), i + 10))}`; }); }
        if (isH(w.at(-1))) ok(S.corrector(s + ',') === e + '，' && S.corrector(s + '!') === e + '！', `mark after ${n} times ${show(u)}`);
    });
    t.cases('lines-far', t.product([300, 1100], ['中x', '中，国', 'x, y', '0中', '中.国', 'ａb', '我,你']), ([n, l]) => { const one = S.corrector(l), r = S.corrector(Array(n).fill(l).join('\n')).split('\n'); eq(r.length, n, `lines of ${n} times ${show(l)}`); const skels = lines(Array(n).fill(l).join('\n')); r.forEach((x, i) => { if (skel(x) !== skels[i]) ok(false, `line ${i} of ${n} times ${show(l)} is ${show(x)}`); }); const q = S.corrector(Array(9).fill(l).join('\n')).split('\n'); r.forEach((x, i) => { const e = i < 4 ? q[i] : i > n - 5 ? q[8 - (n - 1 - i)] : q[4]; if (x !== e) ok(false, `line ${i} of ${n} times ${show(l)} is ${show(x)}, in a short text ${show(e)}`); }); return one; });
};
