'use strict';
const { ok, eq, show } = require('../lib/util');
const { again } = require('../lib/again');
exports.technique = 'bounded exhaustive enumeration of input orders on the real code against the ordering definition';
exports.bounds = 'all word lists up to length 5 (thorough 6) over colliding alphabets, every permutation of lists up to length 7, lists of 8-40 words in sorted, reversed, rotated and interleaved order; long inputs (up to 130-1025 parts) in every simple arrangement; common beginnings of up to 70000 characters; up to 4200 words (thorough 30000); every UTF-16 unit as an initial against six others; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = ['the collation order of words is the one of the host (String.prototype.localeCompare)'];
exports.run = async t => {
    const A = t.world().load('@curong/array');
    const multiset = a => a.map((x, i) => x).sort((x, y) => x < y ? -1 : x > y ? 1 : 0);
    const cmp = (x, y) => x < y ? -1 : x > y ? 1 : 0;
    const ENG = ['', 'a', 'ab', 'b', 'B', 'aa', 'Z', '10', '9', 'é'];
    const LONG = [...t.product(['word', 'Word', 'worD', 'WORD', 'wörd', 'words', 'wor-d', 'wor d', 'word_', '10000', '9000x'].map(x => x), ['', 'x', 'X', 'xxxxxxxx'])].map(([a, b]) => a + b);
    const NONE = ['a', 'ab', 'b', 'B', 'ba', '_', 'Ab', 'bb'];
    const CN = ['中', '国', '啊', 'a', 'B', 'b', '中国', '1', '阿'];
    const LINES = ['', 'a', 'b', 'aa', '中文', 'ccc', '0123456789', 'b'];
    const N = t.thorough ? 6 : 5;
    function* inputs(alph) {
        yield* t.words(alph, 0, 3);
        for (const w of t.words(alph.slice(0, 6), 4, N - (t.thorough ? 0 : 1))) yield w;
        yield* t.words(alph.slice(0, 4), 5, N);
        yield* t.perms(alph.slice(0, 7));
        if (alph !== LINES) for (const a of LONG) for (const b of LONG) if (a !== b) { yield [a, b]; if (a.length === b.length) yield [b, a, b.slice(0, 4), a]; }
        for (const n of [8, 11, 20, 40, ...(alph === CN ? [130] : [130, 1100])]) { const l = Array.from({ length: n }, (_, i) => alph[i % alph.length] + (alph[(i * 7 + 3) % alph.length])); yield l; yield l.slice().reverse(); for (let k = 1; k < n; k += 5) yield [...l.slice(k), ...l.slice(0, k)]; yield l.slice().sort(); yield l.slice().sort().reverse(); }
    }
    const suites = {
        sortByEng: [ENG, (x, y) => cmp(x, y), false],
        sortByEngInitials: [NONE, (x, y) => x.charCodeAt(0) - y.charCodeAt(0), true],
        sortWords: [CN, (x, y) => x.localeCompare(y), false]
    };
    for (const [name, [alph, c, stable]] of Object.entries(suites)) for (const rev of [undefined, false, true]) t.cases(`${name}-${rev}`, inputs(alph), w => {
        const a = w.slice(); const r = rev === undefined ? A[name](a) : A[name](a, rev);
        ok(Array.isArray(r), show(r)); eq(multiset(r), multiset(w), 'not a permutation');
        for (let i = 1; i < r.length; i++) ok((rev ? -c(r[i - 1], r[i]) : c(r[i - 1], r[i])) <= 0, `out of order: ${show(r)}`);
        if (stable) eq(r, w.map((x, i) => [x, i]).sort((p, q) => (rev ? -c(p[0], q[0]) : c(p[0], q[0])) || p[1] - q[1]).map(p => p[0]), 'words with the same initial do not keep their order');
        const again = rev === undefined ? A[name](r.slice()) : A[name](r.slice(), rev); eq(again, r, 'sorting a sorted list changes it');
        return r.join('|').slice(0, 80);
    });
    t.cases('sortToIndexes', inputs(LINES), w => {
        const c = w.slice(); const r = A.sortToIndexes(w); eq(w, c, 'input changed');
        eq(r, w.map((x, i) => i).sort((i, j) => w[i].length - w[j].length || i - j));
    });
    // ---- long words and lines: what decides the order comes after a long common beginning
    const PREF = [63, 64, 255, 1000, 5000, 70000];
    t.cases('long-words', t.product(PREF, ['a', 'Z', 'é', '中', '1'], [[1, 0, 2], [2, 1, 0], [0, 1, 2], [2, 0, 1]], [undefined, false, true]), ([n, u, o, rev]) => {
        const p = u.repeat(n), l = `after ${n} common ${u}, order ${o}, ${rev}`; for (const name of ['sortByEng', 'sortWords']) { const c = suites[name][1], w = o.map(i => p + ['a', 'b', 'bb'][i]), r = rev === undefined ? A[name](w.slice()) : A[name](w.slice(), rev); eq(r.length, 3); ok(r.every(x => w.includes(x)) && new Set(r).size === 3, `${name} ${l}: not a permutation`); for (let i = 1; i < 3; i++) ok((rev ? -c(r[i - 1], r[i]) : c(r[i - 1], r[i])) <= 0, () => `${name} ${l}: out of order, ends in ${r.map(x => x.slice(n))}`); }
        const lines = o.map(i => u.repeat(n + i)); eq(A.sortToIndexes(lines), [0, 1, 2].sort((i, j) => o[i] - o[j]), `sortToIndexes ${l}`); eq(A.sortToIndexes([...lines, u.repeat(3), ...lines]), [3, ...[0, 1, 2, 4, 5, 6].sort((i, j) => o[i % 4] - o[j % 4] || i - j)], `sortToIndexes ${l}, twice`);
    });
    t.cases('many-words', t.product([1100, ...(t.thorough ? [5000, 30000] : [4200])], ['up', 'down', 'mixed', 'equal']), ([n, how]) => {
        const at = i => how === 'up' ? i : how === 'down' ? n - 1 - i : how === 'mixed' ? (i * 7919) % n : 7, pad = i => String.fromCharCode(97 + i % 26) + String(i).padStart(6, '0'), w = t.range(0, n - 1).map(i => pad(at(i)));
        for (const rev of [false, true]) { for (const name of n > 6000 ? ['sortByEng', 'sortByEngInitials'] : Object.keys(suites)) { const c = suites[name][1], r = A[name](w.slice(), rev), e = w.map((x, i) => [x, i]).sort((p, q) => (rev ? -c(p[0], q[0]) : c(p[0], q[0])) || p[1] - q[1]).map(p => p[0]); ok(r.length === n && r.every((x, i) => x === e[i]), () => `${name} of ${n} words ${how}, ${rev}: position ${r.findIndex((x, i) => x !== e[i])}`); } }
        const L = w.map((_, i) => 'x'.repeat(at(i) % 997)), r = A.sortToIndexes(L), e = t.range(0, n - 1).sort((i, j) => L[i].length - L[j].length || i - j); ok(r.length === n && r.every((x, i) => x === e[i]), () => `sortToIndexes of ${n} lines ${how}`);
    });
    // ---- every UTF-16 unit against a few others, in both orders and both directions
    t.cases('every-unit', t.product(t.range(0, 255), ['a', 'Z', '\0', '\u4e00', '\uffff', '\u0100']), ([h, b]) => {
        for (const [name, [, c]] of Object.entries(suites)) for (let u = h * 256; u < h * 256 + 256; u++) for (const rev of [false, true]) { const x = String.fromCharCode(u) + '1', y = b + '2', k = rev ? c(y, x) : c(x, y); if (k === 0) continue; for (const w of [[x, y], [y, x]]) { const r = A[name](w.slice(), rev); ok(r.length === 2 && r[0] === (k < 0 ? x : y) && r[1] === (k < 0 ? y : x), () => `${name}(${show(w)}, ${rev}) gives ${show(r)}`); } }
    });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    await again(t, [...Object.keys(suites).flatMap(n => [[n, A[n], () => [['b', 'a', 'c']], 'in place'], [n, A[n], () => [['b', 'a', 'c'], true], 'in place'], [n, A[n], () => [[]]]]), ['sortToIndexes', A.sortToIndexes, () => [['bbb', 'a', 'cc']]], ['sortToIndexes', A.sortToIndexes, () => [[]]], ['sortToIndexes', A.sortToIndexes, () => [['a', 'b', 'c']]]]);
};
