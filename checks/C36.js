'use strict';
const { again } = require('../lib/again');
const { ok, eq, show } = require('../lib/util');
exports.technique = 'exhaustive enumeration of all code points (in several contexts) and of all short texts over representatives of every class, surrogate halves included, against the Unicode properties named in the documentation';
exports.bounds = 'all 1114112 code points alone and in context; all texts up to length 5 over twelve representatives; one deciding character at five places of texts up to 1.1 million characters, and runs of 8.5 million; every ordered pair of representative calls, results and arguments changed in between';
exports.assumptions = ['code points assigned after Unicode 12.1 are not judged (the sets were generated from that version)', 'characters of the CJK punctuation blocks that are not punctuation by general category are not judged for inChkPunctuation'];
exports.shards = 4;
const LATER = new Set(); for (const r of `61d-61d 870-88f 897-89f 8b5-8b5 8be-8d2 b55-b55 c3c-c3c c5c-c5d cdc-cdd cf3-cf3 d04-d04 d81-d81 ece-ece 170d-170d 1715-1715 171f-171f 180f-180f 1abf-1add 1ae0-1aeb 1b4c-1b4c
1b4e-1b4f 1b7d-1b7f 1c89-1c8a 1dfa-1dfa 20c0-20c1 2427-2429 2b96-2b97 2c2f-2c2f 2c5f-2c5f 2e50-2e5d 2ffc-2fff 31bb-31bf 31e4-31e5 31ef-31ef 4db6-4dbf 9ff0-9fff a7c0-a7c1 a7c7-a7dc
a7f1-a7f6 a82c-a82c ab68-ab6b fbc2-fbd2 fd40-fd4f fd90-fd91 fdc8-fdcf fdfe-fdff 1019c-1019c 10570-1057a 1057c-1058a 1058c-10592 10594-10595 10597-105a1 105a3-105b1 105b3-105b9
105bb-105bc 105c0-105f3 10780-10785 10787-107b0 107b2-107ba 10940-10959 10d40-10d65 10d69-10d85 10d8e-10d8f 10e80-10ea9 10eab-10ead 10eb0-10eb1 10ec2-10ec7 10ed0-10ed8 10efa-10eff
10f70-10f89 10fb0-10fcb 11070-11075 110c2-110c2 11147-11147 111ce-111cf 1123f-11241 11380-11389 1138b-1138b 1138e-1138e 11390-113b5 113b7-113c0 113c2-113c2 113c5-113c5 113c7-113ca
113cc-113d5 113d7-113d8 113e1-113e2 1145a-1145a 11460-11461 116b9-116b9 116d0-116e3 11740-11746 11900-11906 11909-11909 1190c-11913 11915-11916 11918-11935 11937-11938 1193b-11946
11950-11959 11ab0-11abf 11b00-11b09 11b60-11b67 11bc0-11be1 11bf0-11bf9 11db0-11ddb 11de0-11de9 11f00-11f10 11f12-11f3a 11f3e-11f5a 11fb0-11fb0 12f90-12ff2 1342f-1342f 13440-13455
13460-143fa 16100-16139 16a70-16abe 16ac0-16ac9 16d40-16d79 16ea0-16eb8 16ebb-16ed3 16fe4-16fe4 16ff0-16ff6 187f8-187ff 18af3-18cd5 18cff-18d1e 18d80-18df2 1aff0-1aff3 1aff5-1affb
1affd-1affe 1b11f-1b122 1b132-1b132 1b155-1b155 1cc00-1ccfc 1cd00-1ceb3 1ceba-1ced0 1cee0-1cef0 1cf00-1cf2d 1cf30-1cf46 1cf50-1cfc3 1d1e9-1d1ea 1d2c0-1d2d3 1df00-1df1e 1df25-1df2a
1e030-1e06d 1e08f-1e08f 1e290-1e2ae 1e4d0-1e4f9 1e5d0-1e5fa 1e5ff-1e5ff 1e6c0-1e6de 1e6e0-1e6f5 1e6fe-1e6ff 1e7e0-1e7e6 1e7e8-1e7eb 1e7ed-1e7ee 1e7f0-1e7fe 1f10d-1f10f 1f16d-1f16f
1f1ad-1f1ad 1f6d6-1f6d8 1f6dc-1f6df 1f6fb-1f6fc 1f774-1f77f 1f7d9-1f7d9 1f7f0-1f7f0 1f8b0-1f8bb 1f8c0-1f8c1 1f8d0-1f8d8 1f90c-1f90c 1f972-1f972 1f977-1f979 1f9a3-1f9a4 1f9ab-1f9ad
1f9cb-1f9cc 1fa54-1fa57 1fa74-1fa77 1fa7b-1fa7c 1fa83-1fa8a 1fa8e-1fa8f 1fa96-1fac6 1fac8-1fac8 1facd-1fadc 1fadf-1faea 1faef-1faf8 1fb00-1fb92 1fb94-1fbfa 2a6d7-2a6df 2b735-2b73f
2cea2-2cead 2ebf0-2ee5d 30000-3134a 31350-33479`.trim().split(/\s+/)) { const [a, b] = r.split('-').map(x => parseInt(x, 16)); for (let c = a; c <= b; c++) LATER.add(c); }
exports.run = async t => {
    const w = t.world(); const F = w.load('@curong/regexp'), S = F.source; const D = t.thorough ? 1 : 0;
    const inr = (c, ...rs) => rs.some(([a, b]) => c >= a && c <= b);
    const cp = c => String.fromCodePoint(c);
    // expected answer for one code point; undefined: not judged
    const ideo = c => /\p{Unified_Ideograph}/u.test(cp(c));
    const hira = c => inr(c, [0x3041, 0x3096], [0x3099, 0x309f]) ? true : c < 0x10000 ? false : undefined;
    const kata = c => inr(c, [0x30a0, 0x30ff], [0x31f0, 0x31ff]) ? true : c > 0xffff ? undefined : /\p{Script=Katakana}/u.test(cp(c));
    const jap = c => c > 0xffff ? undefined : /[\p{Script=Han}\p{Script=Hiragana}\p{Script=Katakana}]/u.test(cp(c));
    const BLOCKS = [[0x2000, 0x206f], [0x2e00, 0x2e7f], [0x3000, 0x303f], [0xff00, 0xffef], [0xfe30, 0xfe4f], [0xfe10, 0xfe1f]];
    const chk = c => !inr(c, ...BLOCKS) ? false : /\p{P}/u.test(cp(c)) ? true : undefined;
    const han = c => inr(c, [0x3200, 0x33ff]) ? true : c === 0x2e9a || c > 0xffff ? undefined : /\p{Script=Han}/u.test(cp(c));
    const SRC = { ascii: c => c < 128, blank: c => /\p{Z}/u.test(cp(c)), control: c => /\p{C}/u.test(cp(c)), korean: c => /\p{Script=Hangul}/u.test(cp(c)), punctuation: c => /[\p{P}<>~～`^$]/u.test(cp(c)), han, hiragana: hira, katakana: kata, japanese: jap, unifiedIdeograph: ideo, chkPunctuation: chk };
    const surrogate = c => c >= 0xd800 && c <= 0xdfff;
    const CTX = [['', ''], ['a', ''], ['', 'a'], ['x ', ' y'], ['\n', '\n'], ['a'.repeat(50), 'b'.repeat(50)]];
    t.cases('code-points', t.range(0, 0x10ff), h => {
        for (let c = h * 256; c < h * 256 + 256; c++) {
            if (LATER.has(c) || surrogate(c)) continue; const i = ideo(c), k = hira(c) || kata(c), j = jap(c), p = chk(c), U = c.toString(16);
            for (const [a, b] of c < 0x10000 ? CTX : CTX.slice(0, 4)) {
                const s = a + cp(c) + b, l = `U+${U} in ${show(a)}, ${show(b)}`;
                eq(F.inChinese(s), i, `inChinese: ${l}`); eq(F.inChinese(s, false), i, `inChinese with kana: ${l}`); if (k !== undefined) { eq(F.inChinese(s, true), i && !k, `inChinese without kana: ${l}`); eq(F.inChinese('我' + s, true), !k, `inChinese without kana, after an ideograph: ${l}`); eq(F.inChinese(s + '国'), true, `inChinese before an ideograph: ${l}`); }
                if (j !== undefined) eq(F.inJapanese(s), j, `inJapanese: ${l}`); if (p !== undefined) eq(F.inChkPunctuation(s), p, `inChkPunctuation: ${l}`);
            }
        }
    });
    t.cases('sources', t.product(Object.keys(SRC), t.range(0, 0x10ff)), ([n, h]) => {
        const r = new RegExp(S[n]), whole = new RegExp(`^(?:${S[n]})$`);
        for (let c = h * 256; c < h * 256 + 256; c++) { if (LATER.has(c) || surrogate(c)) continue; const e = SRC[n](c); if (e === undefined) continue; const l = `U+${c.toString(16)} in ${n}`; eq(r.test(cp(c)), e, l); if (n !== 'control') eq(r.test(`${n === 'ascii' ? 'é' : 'a'}${cp(c)}`), e, l); if (n !== 'control' || !surrogate(c)) eq(whole.test(cp(c)), e, `${l}, whole`); }
    });
    const REP = ['a', '我', 'あ', 'ｱ', 'ー', '。', '𠮷', '\ud840', '\udc00', ' ', '가', '㐀'];
    t.cases('texts', t.words(REP, 0, 4 + D), x => {
        const s = x.join(''), cs = [...s].map(c => c.codePointAt(0)), any = f => cs.some(c => f(c) === true); const i = any(ideo), k = any(hira) || any(kata);
        for (let n = 0; n < 2; n++) { eq(F.inChinese(s), i, `inChinese(${show(s)})`); eq(F.inChinese(s, true), i && !k, `inChinese(${show(s)}, true)`); if (!cs.some(c => jap(c) === undefined && !surrogate(c)) || any(jap)) eq(F.inJapanese(s), any(jap), `inJapanese(${show(s)})`); if (!cs.some(c => chk(c) === undefined)) eq(F.inChkPunctuation(s), any(chk), `inChkPunctuation(${show(s)})`); }
        return [i, k];
    });
    t.cases('halves', t.words(['a', '\ud83d', '\ude00', '\ud840', '\udc00', '\0'], 0, 4 + D), x => { const s = x.join(''); eq(new RegExp(S.control).test(s), /\p{C}/u.test(s), `control in ${show(s)}`); });
    t.cases('long', t.product([1, 1000, 100000], ['a', 'あ', '。', ' ']), ([n, u]) => { for (const [a, b] of [['我', ''], ['', '我'], ['', '']]) { const s = a + u.repeat(n) + b; eq(F.inChinese(s), !!(a || b)); eq(F.inChinese(s, true), !!(a || b) && u !== 'あ'); eq(F.inChkPunctuation(s), u === '。'); eq(F.inJapanese(s), u === 'あ' || !!(a || b)); } });
    // one deciding character anywhere in a very long text
    t.cases('far', t.product(['我', 'あ', '、', 'カ', '가', 'é', '國'], ['a', ' ', '0\n'], [600, 5000, 70000, 1100000], [0, 0.1, 0.5, 0.9, 1]), ([c, u, n, f]) => {
        if (n > 1e6 && f % 0.5) return 'skip'; const m = Math.ceil(n / u.length), k = Math.floor(m * f), s = u.repeat(k) + c + u.repeat(m - k), p = c.codePointAt(0), i = ideo(p), kana = hira(p) || kata(p), l = `${c} after ${k} of ${m} ${show(u)}`;
        eq(F.inChinese(s), i, `inChinese: ${l}`); eq(F.inChinese(s, true), i && !kana, `inChinese without kana: ${l}`); eq(F.inJapanese(s), jap(p), `inJapanese: ${l}`); eq(F.inChkPunctuation(s), chk(p), `inChkPunctuation: ${l}`);
        eq(F.inChinese('我' + s, true), !kana, `inChinese without kana, after an ideograph: ${l}`); eq(F.inChinese(s + '我'), true, `inChinese before an ideograph: ${l}`);
    });
    t.cases('far-runs', t.product(['我', 'あ', '、', 'カ', '가'], [1000, 1e6, 8.5e6]), ([c, n]) => { const s = c.repeat(n), p = c.codePointAt(0), l = `${n} times ${c}`; eq(F.inChinese(s), ideo(p), `inChinese: ${l}`); eq(F.inChinese(s, true), ideo(p), `inChinese without kana: ${l}`); eq(F.inJapanese(s), jap(p), `inJapanese: ${l}`); eq(F.inChkPunctuation(s), chk(p), `inChkPunctuation: ${l}`); });
    await again(t, [['inChinese', F.inChinese, () => ['我']], ['inChinese', F.inChinese, () => ['あ']], ['inChinese', F.inChinese, () => ['a、']], ['inChinese', F.inChinese, () => ['']], ['inChinese', F.inChinese, () => ['我', true]], ['inChinese', F.inChinese, () => ['あ', true]], ['inChinese', F.inChinese, () => ['a、', true]], ['inChinese', F.inChinese, () => ['', true]], ['inJapanese', F.inJapanese, () => ['我']], ['inJapanese', F.inJapanese, () => ['あ']], ['inJapanese', F.inJapanese, () => ['a、']], ['inJapanese', F.inJapanese, () => ['']], ['inChkPunctuation', F.inChkPunctuation, () => ['我']], ['inChkPunctuation', F.inChkPunctuation, () => ['あ']], ['inChkPunctuation', F.inChkPunctuation, () => ['a、']], ['inChkPunctuation', F.inChkPunctuation, () => ['']]]);
};
