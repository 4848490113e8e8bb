'use strict';
const nodeUtil = require('util');
class Broken extends Error { constructor(msg, detail) { super(msg); this.name = 'Broken'; this.detail = detail; } }
const show = (v, depth = 6) => {
    try {
        return nodeUtil.inspect(v, { depth, breakLength: Infinity, maxArrayLength: 60, maxStringLength: 400, compact: true });
    } catch (e) { return '<uninspectable>'; }
};
const same = (a, b) => Object.is(a, b) || (nodeUtil.isDeepStrictEqual(a, b));
const fail = (msg, detail) => { throw new Broken(msg, detail); };
const eq = (actual, expected, what = 'result') => {
    if (!same(actual, expected)) fail(`${typeof what === 'function' ? what() : what}: got ${show(actual)}, expected ${show(expected)}`);
};
const ok = (c, msg) => { if (!c) fail(typeof msg === 'function' ? msg() : msg); };
// outcome of a call as data
const attempt = f => { try { return { ok: true, value: f() }; } catch (error) { return { ok: false, error }; } };
const hash = s => {
    let h1 = 0xdeadbeef, h2 = 0x41c6ce57;
    for (let i = 0; i < s.length; i++) {
        const c = s.charCodeAt(i);
        h1 = Math.imul(h1 ^ c, 2654435761); h2 = Math.imul(h2 ^ c, 1597334677);
    }
    h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909);
    h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909);
    return 4294967296 * (2097151 & h2) + (h1 >>> 0);
};
// ---- enumerators -------------------------------------------------------------------------------
function* words(alphabet, min, max) {           // all sequences (as arrays), shortest first
    for (let n = min; n <= max; n++) {
        const idx = new Array(n).fill(0);
        for (;;) {
            yield idx.map(i => alphabet[i]);
            let k = n - 1;
            while (k >= 0 && ++idx[k] === alphabet.length) idx[k--] = 0;
            if (k < 0) break;
        }
    }
}
function* strings(alphabet, min, max) { for (const w of words([...alphabet], min, max)) yield w.join(''); }
function* product(...doms) {
    if (!doms.length) { yield []; return; }
    const [d, ...rest] = doms;
    const tail = [...product(...rest)];
    for (const x of d) for (const t of tail) yield [x, ...t];
}
function* lazyProduct(d, f) { for (const x of d) for (const y of f(x)) yield [x, y]; }
function* perms(a) {
    if (a.length < 2) { yield a.slice(); return; }
    for (let i = 0; i < a.length; i++) for (const p of perms([...a.slice(0, i), ...a.slice(i + 1)])) yield [a[i], ...p];
}
function* subsets(a) { for (let m = 0; m < 1 << a.length; m++) yield a.filter((_, i) => m >> i & 1); }
// long texts and lists: few parts in every simple arrangement, at sizes around powers of two and past likely buffers
function* longs(parts, sizes = [9, 17, 33, 64, 65, 130, 257]) {
    for (const n of sizes) { yield Array.from({ length: n }, (_, i) => parts[i % parts.length]); for (const p of parts) for (const q of parts) { const b = Array(n).fill(p); if (p === q) { yield b; continue; } yield b.map((x, i) => i % 2 ? q : x); for (const k of [0, n >> 1, n - 1]) { const c = b.slice(); c[k] = q; yield c; } } }
}
const range = (a, b) => Array.from({ length: Math.max(0, b - a + 1) }, (_, i) => a + i);
function* concat(...its) { for (const i of its) yield* i; }
// options objects: every combination of every key being absent or one of its values
function* options(spec) {
    const ks = Object.keys(spec);
    const ABS = {};
    for (const c of product(...ks.map(k => [ABS, ...spec[k]]))) {
        const o = {};
        ks.forEach((k, i) => { if (c[i] !== ABS) o[k] = c[i]; });
        yield o;
    }
}
const uniq = a => { const s = []; for (const x of a) if (!s.some(y => Object.is(x, y))) s.push(x); return s; };
module.exports = { Broken, show, same, fail, eq, ok, attempt, hash, words, strings, product, lazyProduct, perms, subsets, longs, range, concat, options, uniq };
