'use strict';
const { again } = require('../lib/again');
const { ok, eq, show, attempt } = require('../lib/util');
exports.technique = 'bounded exhaustive enumeration of numbers, digit strings and options on the real code against exact reference definitions';
exports.bounds = 'all digit strings of length 1-9 over a two-digit alphabet (a fixed set at every length to 40), group sizes 1-9, all pairs/triples of 30 boundary numbers, several hundred convertible and non-convertible values; every ordered pair of representative calls, results and arguments changed in between';
exports.assumptions = ['withDelimiter is given plain decimal notation'];
exports.run = async t => {
    const N = t.world().load('@curong/number');
    const lit = (t.literals('number/src').nums || []).filter(Number.isFinite);
    const NUM = [0, -0, 1, -1, 2, -2, 0.5, -0.5, 1.5, -1.5, 5, 10, -10, 1e21, -1e21, 1e-7, 2 ** 31, 2 ** 32, 2 ** 53 - 1, -(2 ** 53) + 1, 2 ** 53, Number.MAX_VALUE, Number.MIN_VALUE, -Number.MIN_VALUE, Number.EPSILON, Infinity, -Infinity, 99.99999999999999, 4.999999999999999];
    const BADN = [NaN, '1', null, true, [], {}, 1n, 'x', new Date(0)];
    // ---- inRange: the interval is closed and its ends may be swapped
    t.cases('inRange', t.product(NUM, NUM, ['ABSENT', undefined, ...NUM]), ([v, a, b]) => { const r = b === 'ABSENT' ? N.inRange(v, a) : N.inRange(v, a, b); const [s, e] = typeof b === 'number' ? [a, b] : [0, a]; eq(r, s <= e ? s <= v && v <= e : e <= v && v <= s); });
    t.cases('inRange-ints', t.product(t.range(-4, 4), t.range(-3, 3), t.range(-3, 3)), ([v, a, b]) => eq(N.inRange(v, a, b), Math.min(a, b) <= v && v <= Math.max(a, b)));
    t.cases('inRange-invalid', t.product(BADN, [0, 1, 2]), ([b, pos]) => { const a = [1, 2, 3]; a[pos] = b; const r = attempt(() => N.inRange(...a)); ok(!r.ok && r.error instanceof TypeError, `${show(a)}: ${show(r)}`); });
    t.cases('inRange-missing', [[undefined, 1], [1, undefined], [undefined, 1, 2], [1, undefined, 2]], a => { const r = attempt(() => N.inRange(...a)); ok(!r.ok && r.error instanceof TypeError, `${show(a)}: ${show(r)}`); });
    // ---- stringify: reads back as the very same number
    t.cases('stringify', [...NUM, NaN, ...lit, ...t.range(-40, 40).map(k => 10 ** k), ...t.range(0, 60).map(k => -(2 ** k) + 0.5), 0.1 + 0.2, 1 / 3], v => { const s = N.stringify(v); ok(typeof s === 'string'); eq(s, Object.is(v, -0) ? '-0' : `${v}`); ok(Object.is(Number(s), v), `${s} reads back as another number`); });
    // ---- integers
    const STR = ['0', '-0', '1', '-1', '42.8', '-42.8', ' 7 ', '\t-3.5\n', '+5', '1e3', '1e-3', '-1e-3', '0x10', '0b11', '.5', '-.5', '5.', '9007199254740993', '1'.repeat(30), '00012', '-00.9'];
    const BADS = ['', ' ', '\t\n', '\u00a0', 'abc', '1a', 'NaN', 'Infinity', '-Infinity', '1,000', '--1', '1 2', '0x', '1e', '１', NaN, Infinity, -Infinity, '1e999'];
    t.cases('toInt', [...NUM.filter(Number.isFinite), ...STR, ...lit, ...t.range(-30, 30).map(k => k / 4), ...t.range(-30, 30).map(k => String(k / 4)), 2 ** 52 + 0.5, -(2 ** 52) - 0.5, 2147483648.7, -2147483649.2, 4294967296.5], v => { const r = N.toInt(v); eq(r + 0, Math.floor(Number(v)) + 0); });
    t.cases('toInt-invalid', BADS, v => { const r = attempt(() => N.toInt(v)); ok(!r.ok && r.error instanceof TypeError, `${show(v)}: ${show(r)}`); });
    // ---- finite or default
    const VALS = [...NUM, ...STR, ...BADS.filter(x => typeof x === 'string'), null, undefined, true, false, [], [5], ['6'], [1, 2], {}, { valueOf: () => 9 }, { valueOf: () => NaN }, { toString: () => '8' }, new Date(5), new Date(NaN), () => 0, Symbol('s'), 7n, new Number(4), new String('3'), new Boolean(true), Object.create(null)];
    t.cases('toFiniteNumber', t.product(VALS, [0, -1, 99, NaN, undefined, null, 'dflt']), ([v, d]) => { let n; try { n = Number(v); } catch { n = NaN; } const r = N.toFiniteNumber(v, d); const e = Number.isFinite(n) ? n : d; ok(Object.is(r, e) || r === e && r === 0, `${show(v)}: got ${show(r)}, expected ${show(e)}`); });
    // ---- delimiter
    const group = (digits, cap, del) => { let o = ''; for (let i = 0; i < digits.length; i++) { if (i && (digits.length - i) % cap === 0) o += del; o += digits[i]; } return o; };
    const DEL = [',', '', ' ', '.', '$', '$&', '$1', '$$', "$'", '$`', '__', '\\', '，', '1', '-'];
    const check = (sign, int, frac, cap, del) => { const src = sign + int + (frac ? '.' + frac : ''); const o = {}; if (cap !== undefined) o.capacity = cap; if (del !== undefined) o.delimiter = del; const exp = sign + group(int, cap ?? 3, del ?? ',') + (frac ? '.' + frac : ''); eq(Object.keys(o).length ? N.withDelimiter(src, o) : N.withDelimiter(src), exp, `withDelimiter(${src}, ${show(o)})`); const n = Number(src); if (String(n) === src) eq(Object.keys(o).length ? N.withDelimiter(n, o) : N.withDelimiter(n), exp, 'number form'); return exp; };
    t.cases('withDelimiter-digits', (function* () { for (const int of t.strings('19', 1, t.thorough ? 12 : 9)) for (const cap of [undefined, 1, 2, 3, 4]) yield [int, cap]; })(), ([int, cap]) => check('', int, '', cap, undefined));
    t.cases('withDelimiter-length', t.product(t.range(1, 40), ['', '-'], ['', '0', '5', '123', '1234', '1234567', '0000'], [undefined, 1, 2, 3, 4, 5, 7, 9, 20], [undefined, ',', ' ', '$&', '']), ([n, sign, frac, cap, del]) => check(sign, '1234567890'.repeat(4).slice(0, n), frac, cap, del));
    t.cases('withDelimiter-delimiters', t.product(['1', '1234', '1000000', '123456789'], ['', '-'], ['', '12345'], [undefined, 1, 2, 3], DEL), ([int, sign, frac, cap, del]) => check(sign, int, frac, cap, del));
    t.cases('withDelimiter-capacity-invalid', t.product([0, -1, 1.5, NaN, Infinity, '3', null, {}, true], [0, 1234, '12345.6']), ([c, v]) => { const r = attempt(() => N.withDelimiter(v, { capacity: c })); ok(!r.ok && r.error instanceof TypeError, `capacity ${show(c)}: ${show(r)}`); });
    t.cases('withDelimiter-invalid', ['abc', NaN, Infinity, -Infinity, 'Infinity', '1,000', '1.2.3', 'NaN', '12a'], v => { const r = attempt(() => N.withDelimiter(v)); ok(!r.ok && r.error instanceof TypeError, `${show(v)}: ${show(r)}`); });
    await again(t, [['toInt', N.toInt, () => ['12.9px']], ['toInt', N.toInt, () => [-1.5]], ['inRange', N.inRange, () => [3, 1, 5]], ['inRange', N.inRange, () => [3, 2]], ['stringify', N.stringify, () => [1e21]], ['stringify', N.stringify, () => [1e-7]], ['toFiniteNumber', N.toFiniteNumber, () => ['x', 5]], ['toFiniteNumber', N.toFiniteNumber, () => ['7', 5]], ['withDelimiter', N.withDelimiter, () => [1234567.891]], ['withDelimiter', N.withDelimiter, () => [1234567.891, { delimiter: '_' }]], ['withDelimiter', N.withDelimiter, () => ['1234567.891', { delimiter: ',' }]], ['withDelimiter', N.withDelimiter, () => [1234567.891, {}]]]);
};
