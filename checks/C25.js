'use strict';
const { again } = require('../lib/again');
const { ok, eq, show } = require('../lib/util');
exports.technique = 'bounded exhaustive enumeration of entity names, points and texts on the real code against the published entity list and a single-pass decoder';
exports.bounds = 'every entity of the list in every position, every pair of entities, all texts up to length 6 over the fragments & # ; amp lt 38 60 x a, every BMP code unit; long inputs (up to 130-1025 parts) in every simple arrangement; texts of up to 70000 characters; every ordered pair of representative calls, results and arguments changed in between';
exports.assumptions = ['the names lang and rang denote U+2329 and U+232A as in HTML 4', 'entities outside the list are text'];
exports.run = async t => {
    const w = t.world(); const S = w.load('@curong/string');
    // HTML 4 entity list (and apos), grouped as in the recommendation
    const LIST = {};
    'nbsp iexcl cent pound curren yen brvbar sect uml copy ordf laquo not shy reg macr deg plusmn sup2 sup3 acute micro para middot cedil sup1 ordm raquo frac14 frac12 frac34 iquest Agrave Aacute Acirc Atilde Auml Aring AElig Ccedil Egrave Eacute Ecirc Euml Igrave Iacute Icirc Iuml ETH Ntilde Ograve Oacute Ocirc Otilde Ouml times Oslash Ugrave Uacute Ucirc Uuml Yacute THORN szlig agrave aacute acirc atilde auml aring aelig ccedil egrave eacute ecirc euml igrave iacute icirc iuml eth ntilde ograve oacute ocirc otilde ouml divide oslash ugrave uacute ucirc uuml yacute thorn yuml'.split(' ').forEach((n, i) => LIST[n] = 160 + i);
    Object.assign(LIST, { quot: 34, amp: 38, apos: 39, lt: 60, gt: 62, OElig: 338, oelig: 339, Scaron: 352, scaron: 353, Yuml: 376, fnof: 402, circ: 710, tilde: 732, thetasym: 977, upsih: 978, piv: 982, ensp: 8194, emsp: 8195, thinsp: 8201, zwnj: 8204, zwj: 8205, lrm: 8206, rlm: 8207, ndash: 8211, mdash: 8212, lsquo: 8216, rsquo: 8217, sbquo: 8218, ldquo: 8220, rdquo: 8221, bdquo: 8222, dagger: 8224, Dagger: 8225, bull: 8226, hellip: 8230, permil: 8240, prime: 8242, Prime: 8243, lsaquo: 8249, rsaquo: 8250, oline: 8254, frasl: 8260, euro: 8364, image: 8465, weierp: 8472, real: 8476, trade: 8482, alefsym: 8501, larr: 8592, uarr: 8593, rarr: 8594, darr: 8595, harr: 8596, crarr: 8629, lArr: 8656, uArr: 8657, rArr: 8658, dArr: 8659, hArr: 8660, forall: 8704, part: 8706, exist: 8707, empty: 8709, nabla: 8711, isin: 8712, notin: 8713, ni: 8715, prod: 8719, sum: 8721, minus: 8722, lowast: 8727, radic: 8730, prop: 8733, infin: 8734, ang: 8736, and: 8743, or: 8744, cap: 8745, cup: 8746, int: 8747, there4: 8756, sim: 8764, cong: 8773, asymp: 8776, ne: 8800, equiv: 8801, le: 8804, ge: 8805, sub: 8834, sup: 8835, nsub: 8836, sube: 8838, supe: 8839, oplus: 8853, otimes: 8855, perp: 8869, sdot: 8901, lceil: 8968, rceil: 8969, lfloor: 8970, rfloor: 8971, lang: 9001, rang: 9002, loz: 9674, spades: 9824, clubs: 9827, hearts: 9829, diams: 9830 });
    'Alpha Beta Gamma Delta Epsilon Zeta Eta Theta Iota Kappa Lambda Mu Nu Xi Omicron Pi Rho _ Sigma Tau Upsilon Phi Chi Psi Omega'.split(' ').forEach((n, i) => { if (n !== '_') { LIST[n] = 913 + i; LIST[n.toLowerCase()] = 945 + i; } }); LIST.sigmaf = 962;
    // lang/rang may be listed as the CJK-looking HTML 4 characters or their HTML 5 form
    const VAL = {}; const flexible = new Set(['lang', 'rang']);
    for (const [n, p] of Object.entries(LIST)) VAL[n] = String.fromCodePoint(p);
    for (const n of flexible) { const v = S.decodeEntityByName(`&${n};`); ok(['\u2329', '\u232a', '\u27e8', '\u27e9', '\u3008', '\u3009'].includes(v), `&${n}; = ${show(v)}`); VAL[n] = v; }
    const names = Object.keys(LIST); const byP = Object.fromEntries(names.map(n => [LIST[n], n])); const byV = Object.fromEntries(names.map(n => [VAL[n], n]));
    const supported = n => S.decodeEntityByName(`&${n};`) !== `&${n};`;
    t.cases('list', names, n => {
        const p = LIST[n], v = VAL[n];
        ok(supported(n), `&${n}; is not decoded`);
        eq(S.decodeEntityByName(`&${n};`), v, `&${n};`); eq(S.decodeEntityByPoint(`&#${p};`), v, `&#${p};`);
        eq(S.encodeEntityToName(v), `&${n};`, `name of ${show(v)}`); eq(S.encodeEntityToPoint(v), `&#${p};`, `point of ${show(v)}`);
        for (const f of [`&${n};`, `&#${p};`]) for (const [a, b] of [['', ''], ['x', 'y'], ['&', ';'], ['&#', ';'], [f.slice(0, -1), '']]) eq(S.decodeEntity(a + f + b), a + v + b, `decodeEntity(${a + f + b})`);
        for (const bad of [`&${n}`, `${n};`, `& ${n};`, `&${n} ;`, `&#${p}`, `#${p};`, `&${p};`, `&#${n};`, `&#x${p.toString(16)};`, `&${n};`.toUpperCase(), `&#0${p};`, `&#${p}0;`]) { if (bad === `&${n};` || LIST[bad.slice(1, -1)] || /^&#(\d+);$/.test(bad) && byP[bad.slice(2, -1)]) continue; eq(S.decodeEntity(bad), bad, `not an entity: ${bad}`); }
    });
    const dec = (s, nm, pt) => s.replace(/&(?:([A-Za-z]+\d*)|#(\d+));/g, (m, n, p) => n !== undefined ? (nm && Object.hasOwn(VAL, n) ? VAL[n] : m) : (pt && Object.hasOwn(byP, p) ? VAL[byP[p]] : m));
    const enc = (s, f) => [...s].map(c => Object.hasOwn(byV, c) ? f(byV[c]) : c).join('');
    const one = s => {
        eq(S.decodeEntity(s), dec(s, true, true), `decodeEntity(${show(s)})`); eq(S.decodeEntityByName(s), dec(s, true, false), `decodeEntityByName(${show(s)})`); eq(S.decodeEntityByPoint(s), dec(s, false, true), `decodeEntityByPoint(${show(s)})`);
        const a = S.encodeEntityToName(s), b = S.encodeEntityToPoint(s); eq(a, enc(s, n => `&${n};`), `encodeEntityToName(${show(s)})`); eq(b, enc(s, n => `&#${LIST[n]};`), `encodeEntityToPoint(${show(s)})`);
        for (const [e, f] of [[a, 'decodeEntity'], [b, 'decodeEntity'], [a, 'decodeEntityByName'], [b, 'decodeEntityByPoint']]) eq(S[f](e), s, `${f} of ${show(e)}`); return s;
    };
    t.cases('texts', t.words(['&', '#', ';', 'amp', 'lt', '38', '60', 'x', ' '], 0, t.thorough ? 7 : 5), w2 => one(w2.join('')));
    t.cases('composed', t.words(['&amp;', '&#38;', '&lt;', '#60;', 'lt;', '&quot;', '&nbsp;', '&', '中', '<'], 0, t.thorough ? 5 : 4), w2 => one(w2.join('')));
    t.cases('long', t.longs(['&amp;', '&#38;', '&lt;', '&', '<', '中', 'amp;', '&nbsp;'], [9, 33, 130]), w2 => one(w2.join('')));
    t.cases('pairs', t.product(names, ['amp', 'lt', 'quot', 'sup2', 'zwj', 'nbsp']), ([a, b]) => { one(VAL[a] + VAL[b]); one(`&${a};&${b};`); one(`&#${LIST[a]};${b};`); one(`&amp;${a};&#38;#${LIST[b]};`); });
    t.cases('code-units', t.range(0, 255), hi => { for (let i = hi * 256; i < hi * 256 + 256; i++) { const ch = String.fromCharCode(i); for (const s of [ch, 'a' + ch + ch]) { const a = S.encodeEntityToName(s), b = S.encodeEntityToPoint(s); eq(a, enc(s, n => `&${n};`), `encodeEntityToName(U+${i.toString(16)})`); eq(b, enc(s, n => `&#${LIST[n]};`)); eq(S.decodeEntity(a), s); eq(S.decodeEntity(b), s); } } });
    // ---- long texts: an entity anywhere, entities throughout
    t.cases('far', t.product([300, 4097, 10001, 70000], ['a', ' ', '&', '中', '<', '&amp;', '&x;'], ['&lt;', '&#60;', '<', '&amp;lt;'], [0, 0.5, 1]), ([n, u, c, f]) => { const m = Math.ceil(n / u.length), k = Math.floor(m * f), s = u.repeat(k) + c + u.repeat(m - k), l = `${c} after ${k} of ${m} ${u}`, is = (g, w, nm) => ok(g === w, () => `${nm}: ${l}: ${g.length} characters instead of ${w.length}`); is(S.decodeEntity(s), dec(s, true, true), 'decodeEntity'); is(S.decodeEntityByName(s), dec(s, true, false), 'decodeEntityByName'); is(S.decodeEntityByPoint(s), dec(s, false, true), 'decodeEntityByPoint'); const a = S.encodeEntityToName(s), b = S.encodeEntityToPoint(s); is(a, enc(s, x => `&${x};`), 'encodeEntityToName'); is(b, enc(s, x => `&#${LIST[x]};`), 'encodeEntityToPoint'); is(S.decodeEntity(a), s, 'decodeEntity of the names'); is(S.decodeEntity(b), s, 'decodeEntity of the points'); });
    await again(t, [['decodeEntityByName', S.decodeEntityByName, () => ['&amp;lt;&#60;&bogus;']], ['decodeEntityByName', S.decodeEntityByName, () => ['<a&"\'>中']], ['decodeEntityByName', S.decodeEntityByName, () => ['']], ['decodeEntityByPoint', S.decodeEntityByPoint, () => ['&amp;lt;&#60;&bogus;']], ['decodeEntityByPoint', S.decodeEntityByPoint, () => ['<a&"\'>中']], ['decodeEntityByPoint', S.decodeEntityByPoint, () => ['']]]);
};
