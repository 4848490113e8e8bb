'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
exports.technique = 'bounded exhaustive enumeration of strings over every UTF-8 byte class and of all code points on the real code against the platform encoder';
exports.bounds = 'all strings up to length 5 (thorough 6) over 8 code units of 1-4 bytes incl. lone surrogates, every code point, all byte limits 1-9 and around 4096, sizes around every unit boundary with 0-3 decimals; long inputs (up to 130-1025 parts) in every simple arrangement; texts of up to 70000 characters; every ordered pair of a table of calls, results and arguments changed in between';
exports.run = async t => {
    const S = t.world().load('@curong/string');
    const ALPHA = ['a', '\u007f', 'é', '\u0800', '中', '\ud83d', '\ude00', '\uffff'];
    const one = s => { const b = Buffer.from(s); eq(S.bytesLength(s), b.length, `bytesLength(${show(s)})`); eq(S.bytesArray(s), [...b], `bytesArray(${show(s)})`); };
    t.cases('strings', t.words(ALPHA, 0, t.thorough ? 6 : 5), w => { const s = w.join(''); one(s); eq(S.chars(s), [...s]); eq(S.fromChars(S.chars(s)), s); return s; });
    t.cases('code-points', t.range(0, 0x1100), hi => { for (let c = hi * 256; c < hi * 256 + 256 && c <= 0x10ffff; c++) { const ch = String.fromCodePoint(c); one(ch); one('a' + ch + 'é'); eq(S.codePointAt(ch), c); eq(S.codePointAt('x' + ch, 1), c); } });
    t.cases('codePointAt', t.product([...t.words(ALPHA.slice(4), 0, 3)].map(w => w.join('')), [undefined, 0, 1, 2, 3, '1', -1, 1.5, NaN, 'x', Infinity]), ([s, i]) => { const n = i === undefined ? 0 : Number(i); const e = Number.isInteger(n) && n >= 0 && n < s.length ? s.codePointAt(n) : null; eq(S.codePointAt(s, i), e, `codePointAt(${show(s)}, ${show(i)})`); });
    t.cases('codePointAt-default', [0], () => eq(S.codePointAt(), null));
    const greedy = (s, n) => { const out = []; let cur = '', b = 0; for (const c of s) { const k = Buffer.byteLength(c); if (cur && b + k > n) { out.push(cur); cur = ''; b = 0; } cur += c; b += k; } if (cur) out.push(cur); return out; };
    t.cases('split', t.product([...t.words(['a', 'é', '中', '😀', '\ud83d'], 0, t.thorough ? 6 : 5)].map(w => w.join('')), t.range(1, 9)), ([s, n]) => {
        const r = S.splitByBytes(s, n); ok(Array.isArray(r) && Object.keys(r).length === r.length, () => `holes in ${show(r)}`); eq(r.join(''), s, `pieces of ${show(s)} by ${n}`);
        for (const p of r) { ok(typeof p === 'string' && p !== '', `piece ${show(p)}`); ok(Buffer.byteLength(p) <= n || [...p].length === 1, `piece ${show(p)} exceeds ${n}`); }
        eq(r.flatMap(p => [...p]), [...s], 'characters cut'); eq(r, greedy(s, n), `splitByBytes(${show(s)}, ${n})`);
    });
    t.cases('long', t.longs(['a', 'é', '中', '😀', '\ud83d', '\ude00'], [9, 33, 65, 257, 1025]), w => { const s = w.join(''); one(s); eq(S.chars(s), [...s]); eq(S.fromChars(S.chars(s)), s); });
    t.cases('split-long', t.product([...t.longs(['a', 'é', '中', '😀'], [17, 33, 130, 300])].map(w => w.join('')), [1, 3, 4, 7, 10, 16, 33, 64, 255, 1024]), ([s, n]) => eq(S.splitByBytes(s, n), greedy(s, n), `splitByBytes(${show(s)}, ${n})`));
    t.cases('split-default', t.product(['a', 'é', '中', '😀'], [4094, 4095, 4096, 4097, 8192, 8193, ...t.literals('string/src/bytes/splitByBytes.ts').near.filter(n => n > 0 && n < 20000 && Number.isInteger(n))]), ([c, n]) => { const s = 'x'.repeat(n % 7) + c.repeat(Math.ceil(n / Buffer.byteLength(c))); eq(S.splitByBytes(s), greedy(s, 4096)); eq(S.splitByBytes(s, n), greedy(s, n)); });
    t.cases('split-invalid', [0, -1, 1.5, NaN, '4', null, Infinity, {}], n => ok(!attempt(() => S.splitByBytes('abc', n)).ok, `limit ${show(n)} accepted`));
    // sizes
    const U = { true: ['KB', 'MB', 'GB', 'TB', 'PB', 'EB', 'ZB', 'YB'], false: ['KiB', 'MiB', 'GiB', 'TiB', 'PiB', 'EiB', 'ZiB', 'YiB'] };
    const size = (n, si, dp) => {
        const a = []; if (si !== undefined || dp !== undefined) a.push(si); if (dp !== undefined) a.push(dp); const txt = S.formatBytes(n, ...a); const th = si === false ? 1024 : 1000, d = dp ?? 1;
        ok(typeof txt === 'string', show(txt)); const m = /^(-?[\d.]+(?:e[+-]\d+)?) (\w+)$/.exec(txt); ok(m, `formatBytes(${n}) = ${show(txt)}`);
        if (Math.abs(n) < th) { eq(txt, `${n} B`); return txt; }
        const u = U[si !== false].indexOf(m[2]); ok(u >= 0, `unit of ${txt}`); const unit = th ** (u + 1), v = Number(m[1]);
        eq(m[1].includes('.') ? m[1].split('.')[1].length : 0, d, `decimals of ${txt}`);
        ok(Math.abs(v - n / unit) <= 0.5 * 10 ** -d * (1 + 1e-9) + Math.abs(n / unit) * 1e-12, `formatBytes(${n}, ${si}, ${d}) = ${txt}`);
        ok(Math.sign(v) === Math.sign(n) || v === 0, `sign of ${txt}`);
        if (u < 7) ok(Math.abs(v) < th, `formatBytes(${n}, ${si}, ${d}) = ${txt}: a larger unit fits`);
        if (u > 0) ok(Math.abs(n) / th ** u >= th - 0.5 * 10 ** -d - 1e-6 * th, `formatBytes(${n}, ${si}, ${d}) = ${txt}: the unit is too large`);
        return txt;
    };
    const near = th => { const out = []; for (let p = 1; p <= 8; p++) for (const f of [1, 1.5, 9.94, 9.96, 99.949, 99.951, 999.94, 999.949, 999.96, 1023.9, 1023.94, 1023.96, 500.05]) { const n = Math.floor(th ** p * f); out.push(n, n - 1, n + 1, -n); } return out; };
    t.cases('sizes', t.product([...t.range(0, 1100), ...near(1000), ...near(1024), 1e27, 1e28, 1.5, 999.5, ...t.literals('string/src/bytes/formatBytes.ts').near], [undefined, true, false], [undefined, 0, 1, 2, 3]), ([n, si, dp]) => typeof n === 'number' && Number.isFinite(n) ? size(n, si, dp) : 'skip');
    // ---- long texts: one wider character anywhere
    const sameBytes = (s, l) => { const b = Buffer.from(s), r = S.bytesArray(s); eq(S.bytesLength(s), b.length, `bytesLength of ${l}`); eq(r.length, b.length, `bytesArray of ${l}`); for (let i = 0; i < b.length; i++) if (r[i] !== b[i]) ok(false, `byte ${i} of ${l} is ${r[i]} instead of ${b[i]}`); };
    t.cases('far', t.product([4096, 8193, 70000], ['a', 'é', '中', '😀'], ['a', 'é', '\u0800', '😀', '\ud83d', '\ude00'], [0, 0.5, 1]), ([n, u, c, f]) => { const m = Math.ceil(n / u.length), k = Math.floor(m * f), s = u.repeat(k) + c + u.repeat(m - k), l = `${show(c)} after ${k} of ${m} ${u}`; sameBytes(s, l); const ch = S.chars(s); eq(ch.length, m + 1, `chars of ${l}`); ok(ch[k] === c && S.fromChars(ch) === s, `chars of ${l}`); eq(S.codePointAt(s, k * u.length), c.codePointAt(0), `codePointAt of ${l}`); });
    t.cases('split-far', [...t.product([5000], ['a', 'é', '中', '😀', 'a中'], [3, 1000, 4999], [0, 0.5, 1]), ...t.product([20000], ['a', '中'], [10001, 15000], [0.5])], ([n, u, w, f]) => { const m = Math.ceil(n / u.length), k = Math.floor(m * f), s = u.repeat(k) + '😀' + u.repeat(m - k), r = S.splitByBytes(s, w), e = greedy(s, w); ok(r.length === e.length && r.every((x, i) => x === e[i]), () => `${m} of ${u} by ${w}: ${r.length} pieces, ${r.slice(0, 3).map(x => x.length)} instead of ${e.length}, ${e.slice(0, 3).map(x => x.length)}`); });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    await again(t, [['bytesArray', S.bytesArray, () => ['aé中😀']], ['bytesArray', S.bytesArray, () => ['']], ['bytesLength', S.bytesLength, () => ['aé中😀']], ['splitByBytes', S.splitByBytes, () => ['aé中😀b', 4]], ['splitByBytes', S.splitByBytes, () => ['aé中😀b', 6]], ['splitByBytes', S.splitByBytes, () => ['', 4]], ['chars', S.chars, () => ['a中😀']], ['formatBytes', S.formatBytes, () => [2048]]]);
};
