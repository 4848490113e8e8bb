'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const net = require('net');
exports.technique = 'bounded exhaustive enumeration of texts over the token alphabet of each grammar, of every single-character insertion into accepted texts, and of all lengths around the documented limits, against reference parsers';
exports.bounds = 'all words of up to 6 tokens per grammar; all splits of an IPv6 address; all ports; every 16-bit character inserted at every place of sample values; lengths 60-66, 250-258, 316-324 and 1990-2010';
exports.assumptions = ["a plain IPv4 address and the address '::' are not judged (code and name differ)", 'an embedded IPv4 part is judged only where the expression has a place for it'];
exports.shards = 4;
exports.run = t => {
    const w = t.world(); const F = w.load('@curong/regexp'); const D = t.thorough ? 1 : 0;
    const ask = (n, e, ...a) => { const r = attempt(() => F[n](...a)); ok(r.ok, `${n}(${show(a)}) throws ${show(r.error)}`); if (e !== undefined) eq(r.value, e, `${n}(${a.map(x => show(x)).join(', ')})`); return r.value; };
    // ---- IP addresses
    const H = /^[0-9a-fA-F]{1,4}$/, O = /^(25[0-5]|2[0-4]\d|1\d\d|\d{1,2})$/;
    const v4 = s => { const p = s.split('.'); return p.length === 4 && p.every(x => O.test(x)); };
    const v6 = s => {                                   // true, false or undefined (not judged)
        const i = s.indexOf('::');
        const groups = x => x === '' ? [] : x.split(':');
        if (i < 0) { const g = groups(s); if (g.length === 8 && g.every(x => H.test(x))) return true; if (g.length === 7 && g.slice(0, 6).every(x => H.test(x)) && v4(g[6])) return true; return false; }
        if (s.indexOf('::', i + 1) >= 0) return false;
        const a = groups(s.slice(0, i)), b = groups(s.slice(i + 2));
        if (!a.every(x => H.test(x))) return false;
        if (b.length && b.at(-1).includes('.')) { if (!v4(b.at(-1)) || !b.slice(0, -1).every(x => H.test(x))) return false; const n = a.length + b.length + 1; if (n > 7) return n === 8 ? undefined : false; if (b.length === 1 && a.length <= 5) return true; if (!a.length && b.length <= 6) return true; return undefined; }
        if (!b.every(x => H.test(x))) return false; const n = a.length + b.length; if (n === 0) return undefined; return n <= 7 && !(a.length > 0 && b.length > 0 && false) ? true : false;
    };
    const ip = s => {
        if (v4(s)) return undefined;
        if (s[0] === '[') { const m = /^\[([^\]]*)\](?::(.*))?$/s.exec(s); if (!m) return false; if (m[2] !== undefined && !(/^(0|[1-9]\d{0,4})$/.test(m[2]) && +m[2] <= 65535)) return false; return v6(m[1]); }
        return v6(s);
    };
    const isIp = s => ask('isIp', ip(s), s);
    const key = { key: s => 'isIp ' + JSON.stringify(s).slice(0, 80) };
    t.cases('ip-words', t.words(['1', 'fFfF', ':', '::', '1.2.3.4', '[', ']', ':80', 'g', '\n'], 0, 5 + D), x => isIp(x.join('')));
    const hs = ['0', 'a1', 'FFFF'];
    t.cases('ip-splits', t.product(t.range(0, 9), t.range(0, 9), [':', '::'], ['', '.v4', ':v4'], hs, ['', '[]', '[]:1']), ([i, j, mid, tail, h, br]) => {
        const a = Array(i).fill(h).join(':'), b = Array(j).fill(h).join(':'); let s = a + mid + b; if (tail === '.v4') s += '1.2.3.255'; if (tail === ':v4') s += (j ? ':' : '') + '10.0.99.0'; if (br) s = `[${s}]${br.slice(2)}`; isIp(s); isIp(s + ':'); isIp(':' + s); isIp(s + '::'); isIp('::' + s); isIp(s + ' '); isIp(' ' + s); isIp(s + '\n'); isIp('\n' + s); isIp('x' + s); isIp(s + 'x'); isIp(s + s); isIp('[' + s); isIp(s + ']');
        // nothing Node itself refuses is accepted (but for leading zeros and brackets)
        if (!br && F.isIp(s) && !/(^|[:.])0\d+\./.test(s)) ok(net.isIPv6(s), `isIp(${show(s)}) is true`);
    });
    t.cases('ip-ports', t.range(0, 70000), p => { isIp(`[::1]:${p}`); if (p % 50 === 0) { isIp(`[::1]:0${p}`); isIp(`[::1]:${p}0`); isIp(`::1:${p}`); isIp(`[::1]:-${p}`); isIp(`[::1]${p}`); isIp(`[::1]:${p} `); } });
    t.cases('ip-octets', t.range(0, 1300), n => { for (const s of [`::${n}.0.0.1`, `::1.2.3.${n}`, `1:2:3:4:5:6:9.${n}.9.9`, `1::0${n}.1.1.1`, `::ffff:1.1.${n}.1`]) isIp(s); });
    t.cases('ip-groups', t.range(0, 5000), n => { const h = n.toString(16); for (const s of [`::${h}`, `${h}::`, `1:2:3:4:5:6:7:${h}0`, `[1::0${h}]`, `1::00${h}`]) isIp(s); });
    t.cases('ip-insertion', t.product(['2409:8054:48::1006', '[240e:e0::abcd]:65533', '1:2:3:4:5:6:7:8', '::1.2.3.4', '1:2:3:4:5:6:1.2.3.4', '[::1]', '1::'], t.range(0, 0xff)), ([v, h]) => { ok(F.isIp(v), v); for (let c = h * 256; c < h * 256 + 256; c++) { const x = String.fromCharCode(c); for (const i of h === 0 ? t.range(0, v.length) : [0, 1, v.length]) { const s = v.slice(0, i) + x + v.slice(i); isIp(s); if (h === 0 && i < v.length) isIp(v.slice(0, i) + x + v.slice(i + 1)); } } });
    // ---- e-mail addresses
    const LC = /^[-+*={}`~%&|^!?#'$\w/]+$/;
    const email = s => {
        if (s.length > 320) return false; const i = s.lastIndexOf('@'); if (i < 0) return false; const l = s.slice(0, i), d = s.slice(i + 1);
        if (l.length > 64 || d.length > 255) return false;
        const quoted = l.length >= 3 && l[0] === '"' && l.at(-1) === '"' && !/[\n\r\u2028\u2029]/.test(l);
        if (!quoted && !l.split('.').every(x => LC.test(x))) return false;
        if (d[0] === '[') return /^\[(\d{1,3})(\.\d{1,3}){3}\]$/.test(d) && !d.includes('\n');
        const ls = d.split('.'), last = ls.pop(); return ls.every(x => x.length <= 64 && /^[0-9a-zA-Z]/.test(x) && [...x].every(c => /[-\w]/.test(c))) && last.length >= 2 && last.length <= 64 && /^[a-zA-Z]/.test(last) && /[a-zA-Z]$/.test(last) && [...last].every(c => /[-\w]/.test(c));
    };
    const isEmail = s => ask('isEmail', email(s), s);
    t.cases('email-words', t.words(['a', '1', '.', '@', '"', '-', '[1.2.3.4]', ' ', '\n', 'co'], 0, 5 + D), x => isEmail(x.join('')));
    t.cases('email-parts', t.product(['a', 'a.b', '"a"', '"', '""', '"a@b"', '"@"', '"a" ', '.a', 'a.', 'a..b', '_', 'é', '" "', '"\n"', 'a"b', ''], ['x.co', 'co', 'c', '1.co', '-x.co', 'x-.co', 'x.1o', 'x.o1', 'x.c-o', 'x.c_o', '.co', 'x..co', 'x.co.', '[1.2.3.4]', '[1.2.3]', '[1.2.3.4.5]', '[1111.2.3.4]', '[999.0.0.0]', 'x_y.co', 'é.co', 'x.é', 'X.CO', '', 'x.co\n', ' x.co', 'x.co '], ['@', '', '@@', ' @', '@ ']), ([l, d, at]) => isEmail(l + at + d));
    t.cases('email-characters', t.range(0, 0xff), h => { for (let c = h * 256; c < h * 256 + 256; c++) { const x = String.fromCharCode(c); for (const s of [`${x}@x.co`, `a${x}b@x.co`, `"${x}"@x.co`, `a@x${x}.co`, `a@${x}.co`, `a@x.c${x}o`, `a@x.co${x}`, `${x}a@x.co`, `a@[1.2.3.4${x}]`]) isEmail(s); } });
    t.cases('email-lengths', t.product([...t.range(1, 3), ...t.range(60, 68)], [...t.range(5, 7), ...t.range(240, 260)], ['plain', 'quoted', 'dots', 'quoted-at']), ([n, m, k]) => {
        const l = k === 'plain' ? 'x'.repeat(n) : k === 'quoted' ? `"${'q'.repeat(Math.max(1, n - 2))}"` : k === 'quoted-at' ? `"@${'q'.repeat(Math.max(0, n - 3))}"` : 'a.'.repeat(n >> 1) + 'ab'.slice(0, n & 1 || 2);
        const labels = []; let rest = m - 3; while (rest > 0) { const q = Math.min(rest, 33); labels.push('d'.repeat(Math.max(1, q - 1))); rest -= q; } const d = labels.join('.') + '.co'; isEmail(`${l}@${d}`); isEmail(`${l}@x@${d}`); });
    t.cases('email-labels', t.range(60, 68), n => { for (const s of [`a@${'x'.repeat(n)}.co`, `a@x.${'c'.repeat(n)}`, `a@1${'x'.repeat(n)}.${'y'.repeat(n)}.co`]) isEmail(s); });
    t.cases('email-time', t.product(['a', 'a.', 'a-', '.', '"', '@', 'a@', 'x.', 'x-'], [16, 24, 30, 60, 150, 319, 100000], ['', 'a@', '"']), ([u, n, h]) => { const t0 = process.hrtime.bigint(); isEmail(h + u.repeat(n)); isEmail(h + u.repeat(n) + '!'); ok(Number(process.hrtime.bigint() - t0) < 2.5e9, `isEmail of ${show(u)} x ${n} takes too long`); });
    // ---- links
    const BODY = /^[- ?!#$@&|^+/*~%=.,:;(){}<>\\`'"[\]\w]$/, LAST = /^[+&@#/%=~|\w]$/;
    const uri = s => { const m = /^(https?|ftp|file):\/\//.exec(s); if (!m) return false; const r = s.slice(m[0].length); if (r.length < 2 || !LAST.test(r.at(-1)) || ![...r].slice(0, -1).every(c => BODY.test(c))) return false; const d = attempt(() => encodeURI(decodeURI(s))); return d.ok && d.value.length <= 2000; };
    const isURI = s => ask('isURI', uri(s), s);
    t.cases('uri-words', t.words(['http://', 'a', '%', '41', ' ', '/', '.', 'E4', '\n', '?x=1', '\\'], 0, 5 + D), x => isURI(x.join('')));
    t.cases('uri-after-scheme', t.words(['a', '%', '2', 'F', 'E4', 'B8', 'AD', '/', '#', ' '], 0, 4 + D), x => { for (const sc of ['https://', 'ftp://a', 'file:///']) isURI(sc + x.join('')); });
    t.cases('uri-characters', t.range(0, 0xff), h => { for (let c = h * 256; c < h * 256 + 256; c++) { const x = String.fromCharCode(c); for (const s of [`http://${x}`, `http://a${x}`, `http://a${x}b`, `http://${x}a`, `${x}http://ab`, `http${x}://ab`, `http:/${x}/ab`, `http://ab${x}${x}`]) isURI(s); } });
    t.cases('uri-schemes', t.product(['http', 'https', 'httpss', 'ftp', 'ftps', 'file', 'HTTP', 'data', 'mailto', '', 'ws'], ['://', ':', '//', ':/', ':///', '://////'], ['ab', 'a', '', 'localhost:80/x', '[::1]/']), x => isURI(x.join('')));
    t.cases('uri-escapes', t.product(t.range(0, 255), ['', '%80', '%AD', '%BF%BF', 'x']), ([n, tail]) => isURI(`http://a/%${n.toString(16).padStart(2, '0')}${tail}/b`));
    t.cases('uri-lengths', t.product(t.range(1990, 2010), ['a', '%20', ' ', '/']), ([n, u]) => { const k = u.length === 1 ? n - 9 : Math.floor((n - 9) / 3); const s = 'http://a' + u.repeat(k) + 'b'; ask('isURI', encodeURI(decodeURI(s)).length <= 2000, s); });
    t.cases('uri-time', t.product(['a', '/', '%', '(', ' ', '%41'], [24, 30, 1000, 1e6], ['', '!', '\n']), ([u, n, e]) => { const t0 = process.hrtime.bigint(); isURI('http://' + u.repeat(n) + e); ok(Number(process.hrtime.bigint() - t0) < 5e9, `isURI of ${show(u)} x ${n} takes too long`); });
    // ---- phone numbers
    const SECOND = { 3: '0123456789', 4: '5679', 5: '012356789', 6: '567', 7: '012345678', 8: '0123456789', 9: '01256789' };
    const phone = (v, lv = 1) => { const s = String(v).replace(/^(\+|00)86/, ''); if (s.length !== 11 || ![...s].every(c => c >= '0' && c <= '9') || s[0] !== '1') return false; return lv === 0 ? true : lv === 1 ? s[1] >= '3' : !!SECOND[s[1]] && SECOND[s[1]].includes(s[2]); };
    const isPhone = v => { ask('isChinaPhoneNumber', phone(v), v); for (const lv of [0, 1, 2]) ask('isChinaPhoneNumber', phone(v, lv), v, lv); };
    t.cases('phone-prefixes', t.product(t.range(0, 1999), ['12345678', '00000000', '1234567', '123456789'], ['', '+86', '0086', '86', '+0086', '+86+86', ' ']), ([n, rest, p]) => { isPhone(p + n + rest); if (p === '') isPhone(Number(`${n}${rest}`)); });
    t.cases('phone-insertion', t.range(0, 0xff), h => { for (let c = h * 256; c < h * 256 + 256; c++) { const x = String.fromCharCode(c); for (const v of ['13812345678', '+8613812345678']) for (const i of [0, 1, 5, v.length]) { isPhone(v.slice(0, i) + x + v.slice(i)); isPhone(v.slice(0, i) + x + v.slice(i + 1)); } } });
    t.cases('phone-lengths', t.product(t.range(0, 30), ['', '+86', '0086']), ([n, p]) => isPhone(p + '13812345678901234567890123456789'.slice(0, n)));
    t.cases('phone-others', ['', 'abcdefghijk', 0, -13812345678, 13812345678.5, NaN, Infinity, 1.3812345678e10, '1381234567８', '138 1234 5678', '+86-13812345678', '13812345678\n', '\n13812345678', '13812345678,13812345678'], isPhone);
};
