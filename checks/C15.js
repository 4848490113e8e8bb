'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
exports.technique = 'exhaustive enumeration of the outputs of the random source (scripted Math.random and crypto) on the real code, over a grid that includes the extreme values';
exports.bounds = 'source values j/2520 and the extreme doubles for single draws; all 12^n scripts for shuffles of up to 4 elements; every byte value and all-extreme byte fills for the secure source; ranges of up to 12 integers at every sign and at the safe-integer bounds; lists of up to 300 elements (thorough 1025): every element reaches five positions under a fixed family of 24 n scripts; picks among up to 70000';
exports.assumptions = ['Math.random yields doubles in [0,1); getRandomValues fills typed arrays of up to 65536 bytes'];
exports.run = async t => {
    const log = { rnd: 0, sec: 0 }; let script = [], bytes = [], fill = null;
    const realRandom = Math.random;
    const fake = { getRandomValues(a) { if (a.byteLength > 65536) throw new Error('QuotaExceededError'); log.sec++; const u = new Uint8Array(a.buffer, a.byteOffset, a.byteLength); for (let i = 0; i < u.length; i++) u[i] = fill ? fill(i, log.sec) : bytes[(i + (log.sec - 1) * 3) % bytes.length]; return a; } };
    const w = (() => { const d = Object.getOwnPropertyDescriptor(globalThis, 'crypto'); Object.defineProperty(globalThis, 'crypto', { value: fake, configurable: true, writable: true }); try { const x = t.world({ mocks: { crypto: { ...require('crypto'), webcrypto: fake, getRandomValues: a => fake.getRandomValues(a) } } }); x.load('@curong/number'); x.load('@curong/string'); x.load('@curong/array'); return x; } finally { Object.defineProperty(globalThis, 'crypto', d); } })();
    const N = w.load('@curong/number'), S = w.load('@curong/string'), A = w.load('@curong/array');
    const withSource = (s, f, secure) => { script = s; log.rnd = log.sec = 0; bytes = s; let k = 0; Math.random = () => { log.rnd++; return k < script.length ? script[k++] : (((k++ - script.length) * 0.61803398875) % 1); }; try { const r = f(); if (secure === true) ok(log.rnd === 0, 'a secure value drawn from Math.random'); return r; } finally { Math.random = realRandom; } };
    const MAXR = 1 - 2 ** -53; const GRID = 2520;
    const grid = [...t.range(0, GRID - 1).map(j => j / GRID), MAXR, 2 ** -53, 0.5 - 2 ** -54, 0.5];
    const words32 = [0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, ...t.range(0, 255).map(i => Math.floor(i * 2 ** 24 + 12345)), ...t.range(0, 239).map(j => Math.floor(j / 240 * 2 ** 32))];
    const b32 = v => [v & 255, v >>> 8 & 255, v >>> 16 & 255, v >>> 24 & 255];
    // ---- floats
    t.cases('random', grid, r => { const x = withSource([r], () => N.random()); ok(typeof x === 'number' && x >= 0 && x < 1, show(x)); });
    t.cases('randomSafe', words32, v => { const x = withSource(b32(v), () => N.randomSafe(), true); ok(typeof x === 'number' && x >= 0 && x < 1, show(x)); });
    // ---- integers: inside, everything reachable, equally often on an even grid
    const spans = []; for (const s of [-7, -1, 0, 1, 5, 100]) for (const k of [0, 1, 2, 3, 5, 6, 9, 11]) spans.push([s, s + k]);
    const wide = [[-(2 ** 53) + 1, 2 ** 53 - 1], [0, 2 ** 53 - 1], [-(2 ** 53) + 1, 0], [2 ** 53 - 3, 2 ** 53 - 1], [-5, 2 ** 32]];
    t.cases('range', spans, ([a, b]) => { const n = b - a + 1; const count = new Map(); for (const r of grid) { const x = withSource([r], () => N.range(a, b)); ok(Number.isInteger(x) && x >= a && x <= b, `range(${a},${b}) with ${r}: ${x}`); count.set(x, (count.get(x) || 0) + 1); } eq([...count.keys()].sort((p, q) => p - q).map(x => x + 0), t.range(a, b).map(x => x + 0), 'reached values'); if (GRID % n === 0) { const c = [...count.values()]; ok(Math.max(...c) - Math.min(...c) <= 4, `uneven: ${c}`); } });
    t.cases('rangeSafe', spans, ([a, b]) => { const seen = new Set(); for (const v of words32) { const x = withSource(b32(v), () => N.rangeSafe(a, b), true); ok(Number.isInteger(x) && x >= a && x <= b, `rangeSafe(${a},${b}) with ${v}: ${x}`); seen.add(x + 0); } eq([...seen].sort((p, q) => p - q), t.range(a, b).map(x => x + 0), 'reached values'); });
    t.cases('range-wide', wide, ([a, b]) => { for (const r of grid) { const x = withSource([r], () => N.range(a, b)); ok(Number.isSafeInteger(x) && x >= a && x <= b, `${a},${b},${r}: ${x}`); } for (const v of words32) { const x = withSource(b32(v), () => N.rangeSafe(a, b), true); ok(Number.isSafeInteger(x) && x >= a && x <= b, `${a},${b},${v}: ${x}`); } });
    t.cases('range-invalid', t.product(['range', 'rangeSafe'], [NaN, Infinity, -Infinity, 1.5, 2 ** 53, -(2 ** 53), '1', null, undefined, [1]], [0, 1]), ([f, bad, pos]) => { const r = attempt(() => withSource([0.5], () => pos ? N[f](1, bad) : N[f](bad, 3))); ok(!r.ok && r.error instanceof TypeError, `accepted ${show(bad)}: ${show(r)}`); });
    // ---- arrays
    t.cases('pick', [1, 2, 3, 5, 7, 8, 10], n => { const a = Array.from({ length: n }, (_, i) => ({ i })); const c = Array(n).fill(0); for (const r of grid) { const x = withSource([r], () => A.random(a)); const i = a.indexOf(x); ok(i >= 0, `picked ${show(x)} with ${r}`); c[i]++; } ok(Math.min(...c) > 0, `never picked: ${c}`); ok(Math.max(...c) - Math.min(...c) <= 4, `uneven: ${c}`); eq(a.length, n); });
    t.cases('shuffle', [0, 1, 2, 3, 4, 'dup', 'hole'], n => {
        const base = n === 'dup' ? ['x', 'x', 'y'] : n === 'hole' ? [undefined, null, NaN] : Array.from({ length: n }, (_, i) => 'e' + i); const len = base.length;
        const even = t.range(0, 11).map(j => j / 12 + 1e-9); const seen = new Set(); const pos = base.map(() => base.map(() => 0)); let total = 0;
        for (const s of t.words(even, len, len)) { const a = base.slice(); const r = withSource(s, () => A.shuffle(a)); eq(a, base, 'input changed'); ok(Array.isArray(r) && r.length === len, show(r)); if (len) ok(r !== a, 'input returned'); eq(r.map(String).sort(), base.map(String).sort(), 'not a permutation'); seen.add(r.join()); total++; if (typeof n === 'number') r.forEach((x, i) => { pos[base.indexOf(x)][i]++; }); }
        for (const s of t.words([0, MAXR, 0.5, 2 ** -53], len, len)) { const r = withSource(s, () => A.shuffle(base.slice())); eq(r.map(String).sort(), base.map(String).sort(), 'not a permutation (extreme draws)'); }
        if (typeof n === 'number') { eq(seen.size, [1, 1, 2, 6, 24][n], 'reachable permutations'); pos.forEach((row, i) => row.forEach((c, j) => ok(c === total / len, `element ${i} lands at ${j} in ${c} of ${total} draws`))); }
        return `${n} ${seen.size}`;
    });
    t.cases('shuffle-long', [16, 53], n => { const base = Array.from({ length: n }, (_, i) => i); for (const s of [[0], [MAXR], Array(n).fill(0), Array(n).fill(MAXR), Array.from({ length: n }, (_, i) => i % 2 ? 0 : MAXR)]) eq(withSource(s, () => A.shuffle(base.slice())).sort((a, b) => a - b), base); });
    // ---- strings
    const letters = (name, first) => {
        const all = t.range(0, 25).map(i => String.fromCharCode(first + i)).join('');
        t.cases(name, ['ABSENT', false, undefined], safe => { const seen = new Set(); for (const r of grid) { const x = withSource([r], () => safe === 'ABSENT' ? S[name]() : S[name](safe)); ok(typeof x === 'string' && x.length === 1 && all.includes(x), `${show(x)} with ${r}`); seen.add(x); } eq([...seen].sort().join(''), all, 'reached letters'); });
        t.cases(name + '-safe', [true], () => { const seen = new Set(); for (let b = 0; b < 256; b++) { const x = withSource([b], () => S[name](true), true); ok(typeof x === 'string' && x.length === 1 && all.includes(x), `${show(x)} with byte ${b}`); ok(log.sec > 0, 'crypto not used'); seen.add(x); } eq([...seen].sort().join(''), all, 'reached letters'); });
    };
    letters('randomLower', 97); letters('randomUpper', 65);
    t.cases('randomBoolean', ['ABSENT', false, true], safe => { const seen = [0, 0]; for (const s of safe === true ? t.range(0, 255) : grid) { const x = withSource([s], () => safe === 'ABSENT' ? S.randomBoolean() : S.randomBoolean(safe), safe === true); ok(typeof x === 'boolean', show(x)); seen[+x]++; } ok(Math.abs(seen[0] - seen[1]) <= 4, `uneven: ${seen}`); });
    t.cases('randomHexColor', (function* () { for (const r of [...grid, ...t.range(0, 23).map(k => 2 ** k / 2 ** 24), ...t.range(0, 23).map(k => (2 ** k - 1) / 2 ** 24), ...t.range(1, 23).map(k => 1 - 2 ** k / 2 ** 24)]) yield [false, [r]]; for (const b of t.words([0, 1, 9, 10, 15, 16, 127, 255], 3, 3)) yield [true, b]; for (let b = 0; b < 256; b++) yield [true, [b, 255 - b, b ^ 0x55]]; })(), ([safe, s]) => { const x = withSource(s, () => safe ? S.randomHexColor(true) : S.randomHexColor(), safe); ok(/^#[0-9A-F]{6}$/.test(x), `${show(x)} from ${s}`); return x; });
    t.cases('randomHexColor-span', [0], () => { const seen = new Set(); for (let v = 0; v < 256; v++) seen.add(withSource([v, v, v], () => S.randomHexColor(true), true).slice(1, 3)); eq(seen.size, 256, 'values of one channel'); eq(withSource([0], () => S.randomHexColor()), '#000000'); eq(withSource([MAXR], () => S.randomHexColor()), '#FFFFFF'); });
    t.cases('randomNumber', t.product(['ABSENT', ...t.range(1, 40), 255, 256, 1000, 65535, 65536, 65537, 131071, 131072, 131073], [0, 9, 10, 99, 100, 255, 'mix']), ([len, b]) => { const s = b === 'mix' ? [3, 255, 0, 17, 100, 8] : [b]; const x = withSource(s, () => len === 'ABSENT' ? S.randomNumber() : S.randomNumber(len), true); ok(typeof x === 'string' && /^\d*$/.test(x), show(x).slice(0, 80)); eq(x.length, len === 'ABSENT' ? 15 : len, 'length'); return `${len} ${b}`; });
    t.cases('randomNumber-digits', [0], () => { const seen = new Set(); for (let b = 0; b < 256; b++) for (const c of withSource([b], () => S.randomNumber(3), true)) seen.add(c); eq([...seen].sort().join(''), '0123456789', 'digits reached'); });
    // ---- long lists: every element can come first, in the middle and last, and stays in the list
    t.cases('shuffle-far', [40, 130, 300, ...(t.thorough ? [1025] : [])], n => {
        const base = t.range(0, n - 1), spots = [0, 1, n >> 1, n - 2, n - 1], seen = spots.map(() => new Set());
        const put = s => { const r = withSource(s, () => A.shuffle(base.slice())), c = new Uint8Array(n); ok(r.length === n, 'length'); for (const x of r) { ok(Number.isInteger(x) && x >= 0 && x < n && !c[x], `not a permutation of ${n}: ${x}`); c[x] = 1; } spots.forEach((p, i) => seen[i].add(r[p])); };
        let z = 12345; const next = () => (z = (Math.imul(z, 1664525) + 1013904223) >>> 0) / 2 ** 32;   // a fixed family of 24 n scripts
        for (let k = 0; k < n; k++) put(Array(n).fill((k + .5) / n)); for (let k = 0; k < 24 * n; k++) put(t.range(1, n).map(next));
        spots.forEach((p, i) => { if (seen[i].size < n) { const miss = base.filter(x => !seen[i].has(x)); ok(false, `in a list of ${n}, ${miss.length} elements never reach position ${p}: ${miss.slice(0, 8)}`); } }); return 'n' + n;
    });
    t.cases('shuffle-end', [2, 3, 5, 8, 17, 33, 65, 130, 257, 1025, 5000], n => { const base = t.range(0, n - 1), at = new Set([0, 1, n >> 1, n - 1]), where = new Map([...at].map(x => [x, new Set()])); for (let k = 0; k < n; k += Math.max(1, Math.floor(n / 300))) for (const s of [Array(n).fill((k + .5) / n), [(k + .5) / n]]) { const r = withSource(s, () => A.shuffle(base.slice())); eq(new Set(r).size, n); for (const x of at) where.get(x).add(r.indexOf(x)); } for (const [x, w] of where) ok(w.size > 1, `element ${x} of ${n} always lands at ${[...w]}`); });
    t.cases('pick-far', [257, 1025, 4100, 70000], n => { const a = t.range(0, n - 1), c = new Uint8Array(n); for (let k = 0; k < n; k++) { const x = withSource([(k + .5) / n], () => A.random(a)); if (!(Number.isInteger(x) && x >= 0 && x < n)) ok(false, `picked ${show(x)} of ${n}`); if (c[x]++) ok(false, `element ${x} of ${n} is picked twice as often as others`); } });
    t.cases('range-far', [[0, 999], [-500, 500], [1, 4096], [-70000, 70000]], ([a, b]) => { const n = b - a + 1, c = new Uint8Array(n); for (let k = 0; k < n; k++) { const x = withSource([(k + .5) / n], () => N.range(a, b)); if (!(Number.isInteger(x) && x >= a && x <= b)) ok(false, `range(${a}, ${b}) gives ${x}`); if (c[x - a]++) ok(false, `${x} is drawn twice as often as other values of ${a}..${b}`); } });
};
