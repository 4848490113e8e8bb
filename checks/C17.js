'use strict';
const { again } = require('../lib/again');
const { ok, eq, show, attempt } = require('../lib/util');
exports.technique = 'bounded exhaustive enumeration of amounts on the real code against a generator of the accepted readings of the standard';
exports.bounds = 'every digit pattern over {0,1,5} to 9 digits (thorough 10) and over {0,1} to 14 digits, every decimal pattern over {0,5} to 4 digits on 18 integer parts, every digit in every place, signs, leading zeros, number and string form, all options; every ordered pair of representative calls, results and arguments changed in between';
exports.assumptions = ['where the rules allow a 零 to be written or left out, both are accepted'];
exports.run = async t => {
    const F = t.world().fn('number', 'amountInWords', 'amount/amountInWords.ts');
    const D = '零壹贰叁肆伍陆柒捌玖', U = ['', '拾', '佰', '仟'], G = ['', '万', '亿', '兆'], X = ['角', '分', '厘', '毫'];
    // a regular expression source accepting exactly the correct texts of a non-negative amount
    const reading = (int, frac) => {
        int = int.replace(/^0+/, ''); frac = frac.replace(/0+$/, ''); const L = int.length; let out = '';
        for (let i = 0; i < L; i++) {
            const p = L - 1 - i, d = +int[i];
            if (d) {
                let j = i; while (j > 0 && int[j - 1] === '0') j--;
                if (j < i && j > 0) { // zero run at digits j..i-1 with places L-1-j .. p+1
                    const hi = L - 1 - j, lo = p + 1; let endsAtUnit = false, whole = false;
                    for (let q = lo; q <= hi; q++) if (q % 4 === 0) endsAtUnit = true;
                    for (let g = 0; g < 4; g++) if (lo <= 4 * g && hi >= 4 * g + 3) whole = true;
                    out += endsAtUnit && !whole && p % 4 === 3 ? '零?' : '零';
                }
                out += D[d] + U[p % 4];
            }
            if (p % 4 === 0 && Number(int.slice(Math.max(0, i - 3), i + 1))) out += G[p / 4];
        }
        const whole = L > 0;
        if (!whole && !frac) return '零元整';
        if (whole) out += '元';
        if (!frac) return out + '整';
        for (let k = 0; k < frac.length; k++) if (+frac[k]) { const z = k > 0 && frac[k - 1] === '0'; const before = whole || /[1-9]/.test(frac.slice(0, k)); if (z && before) out += '零'; else if (k === 0 && whole && int.endsWith('0')) out += '零?'; out += D[+frac[k]] + X[k]; }
        return out + (frac.length === 1 ? '整' : '');
    };
    const check = (int, frac, form, sign = '', opts) => {
        const src = sign + int + (frac !== null ? '.' + frac : ''); const v = form === 'number' ? Number(src) : src; if (form === 'number' && String(v) !== src) return 'not representable';
        const r = opts ? F(v, opts) : F(v); const pre = opts?.prefix ?? '', neg = sign ? opts?.negative ?? '负' : '';
        ok(typeof r === 'string' && r.startsWith(pre + neg), `${src}: ${show(r)}`);
        const body = r.slice((pre + neg).length); const e = reading(int, frac ?? '');
        ok(new RegExp('^' + e + '$').test(body), `${src}: got ${body}, expected ${e}`); return body;
    };
    t.cases('digits', t.strings('015', 1, t.thorough ? 10 : 9), s => check(s, null, 'string'));
    t.cases('digits-long', t.strings('01', 10, 14), s => check(s, null, 'string'));
    t.cases('each-digit', t.product(t.range(1, 14), t.range(0, 9), ['0', '9']), ([n, d, fill]) => { for (let i = 0; i < n; i++) { const a = fill.repeat(n).split(''); a[i] = String(d); for (const form of ['string', 'number']) check(a.join(''), null, form); check(a.join(''), '05', 'string'); } });
    const INTS = ['0', '1', '5', '10', '11', '20', '100', '101', '110', '1000', '1001', '1010', '10000', '10010', '100000', '1000000000000', '20000000000005', '90909090909090'];
    t.cases('decimals', t.product(INTS, [...t.strings('05', 1, 4), ...t.range(0, 9).map(d => `${d}`), ...t.range(1, 9).map(d => `0${d}`), ...t.range(1, 9).map(d => `00${d}`), ...t.range(1, 9).map(d => `000${d}`), '1234', '9876'], ['string', 'number'], ['', '-']), ([i, f, form, sign]) => { if (sign && !/[1-9]/.test(i + f)) return 'skip'; return check(i, f, form, sign); });
    t.cases('ints-number', t.product([...t.range(0, 2100), ...t.range(0, 9).map(k => 10 ** k), ...t.range(0, 13).map(k => 10 ** k + 1), ...t.range(0, 13).map(k => 10 ** k - 1), ...t.range(0, 12).map(k => 10 ** k * 10 + 10), 99999999999999], ['', '-']), ([n, sign]) => sign && !n ? 'skip' : check(String(n), null, 'number', sign));
    t.cases('forms', t.product(['0', '00', '007', '0010', '000000000000000', '0'.repeat(20) + '12', '1', '1200'], [null, '', '0', '00', '50', '0500', '000000', '500000'], ['', '-']), ([i, f, sign]) => { if (sign && !/[1-9]/.test(i + (f ?? ''))) return 'skip'; if (f !== null && f.length > 4 && /[1-9]/.test(f)) return 'skip'; return check(i, f, 'string', sign); });
    // a plus sign and a missing integer part are other spellings of the same amount
    t.cases('forms-plus', t.product([...t.range(0, 13).flatMap(k => [10 ** k, 10 ** k * 5 + 5]), 0, 7], [null, '05', '5']), ([n, f]) => { const s = n + (f ? '.' + f : ''); if (String(n).length > 14) return 'skip'; eq(F('+' + s), F(s), '+' + s); return s; });
    t.cases('forms-point', t.product(['5', '05', '1234', '0'], ['', '+', '-']), ([f, sign]) => { if (sign === '-' && f === '0') return 'skip'; eq(F(`${sign}.${f}`), F(`${sign}0.${f}`), `${sign}.${f}`); eq(F(`${sign}12.`), F(`${sign}12`)); });
    t.cases('forms-blank', ['12', '1.05', '-3'], s => eq(F(` ${s} `), F(s)));
    t.cases('options', t.product(['0', '5', '10.5', '1001'], ['', '-'], [...t.options({ prefix: ['', '人民币', 'RMB ', undefined], negative: ['', '负', '欠', undefined] })]), ([s, sign, o]) => { const [i, f] = s.split('.'); if (sign && s === '0') return 'skip'; return check(i, f ?? null, 'string', sign, { ...o }); });
    t.cases('rejected', ['abc', '', 'NaN', NaN, Infinity, -Infinity, 'Infinity', '1,000', '1.2.3', '12a', '100000000000000', 1e14, '123456789012345', '-100000000000000', '1.00001', 0.00001, '0.12345', 1.343453534534, '1.000010', 1e21, -1e21, 1e-7, '1e3', '0x10', '0b1', '1e-2', '.', '+', '-', '+.', '-.', '+-1', '--1', '1-', '1+'].filter(x => x !== ''), v => { const r = attempt(() => F(v)); ok(!r.ok && r.error instanceof TypeError, `accepted ${show(v)}: ${show(r)}`); });
    await again(t, [['amountInWords', F, () => ['100200.35']], ['amountInWords', F, () => ['100200.35', {}]], ['amountInWords', F, () => [105, { prefix: 'P' }]], ['amountInWords', F, () => ['-0.05']], ['amountInWords', F, () => ['x']]]);
};
