'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
const { nested } = require('../lib/overlap');
exports.technique = 'bounded exhaustive enumeration of regular expressions (built from a grammar of atoms, quantifiers, groups and assertions, with all flag sets) and texts, and of all short histories of calls sharing the same expression objects, against String.prototype.matchAll and stateless reference testers';
exports.bounds = 'about 500 expressions times 12 flag sets times all texts up to length 4 over four characters; all histories of three calls on shared expressions; every lastIndex; long inputs (up to 130-1025 parts) in every simple arrangement; a second and third call made inside any callback of the first; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = ['callbacks declare at least one parameter', 'testing the empty text against expressions that match it is not judged (code and documentation differ)'];
exports.shards = 4;
exports.run = t => {
    const w = t.world(); const F = w.load('@curong/regexp'); const D = t.thorough ? 1 : 0;
    const ATOMS = ['', 'a', 'b', '.', 'a*', 'a+?', '(a)?', '(a)|(b)', '^', '$', '\\b', '(?=a)', '(?<!a)', '(?<x>a)|b', '[^a]', '\\n', '(?:ab)*', '(b*)(a*)', '😀', '\\ud83d'];
    const PATTERNS = [...new Set([...ATOMS, ...[...t.product(ATOMS, ATOMS)].flatMap(([x, y]) => [`${x}${y}`, `${x}|${y}`])])].filter(p => attempt(() => new RegExp(p)).ok);
    const FLAGS = ['', 'g', 'gi', 'gm', 'gu', 'gs', 'gy', 'y', 'gd', 'gv', 'i', 'guy'];
    const TEXTS = [...t.words(['a', 'b', '\n', '😀'], 0, 3 + D)].map(x => x.join(''));
    const shape = m => m.map(x => [[...x], x.index, x.input, x.groups && { ...x.groups }, x.indices && [...x.indices]]);
    const expected = (p, f, s, li = 0) => { const r = new RegExp(p, f); r.lastIndex = li; if (f.includes('g')) return [...s.matchAll(r)]; const m = r.exec(s); return m ? [m] : []; };
    t.cases('execAll', t.product(PATTERNS, FLAGS), ([p, f]) => {
        if (!attempt(() => new RegExp(p, f)).ok) return; const shared = new RegExp(p, f); let sum = 0;
        for (const s of TEXTS) {
            const e = shape(expected(p, f, s)), l = `execAll(/${p}/${f}, ${show(s)})`;
            let n = 0; const r = F.execAll(new RegExp(p, f), s, m => { if (++n > 2 * s.length + 2) throw new Error(`${l}: no end`); return m; }); eq(shape(r), e, l); sum += r.length;
            if (f !== 'y') eq(shape(F.execAll(shared, s)), e, `${l} on a shared expression`);
        }
        return p + '/' + f + sum;
    });
    const G = ['g', 'gu', 'gy', 'gim'];
    t.cases('execAll-lastIndex', t.product(PATTERNS.filter((_, i) => t.thorough || i % 3 === 0), G, t.range(0, 5)), ([p, f, li]) => { if (!attempt(() => new RegExp(p, f)).ok) return; for (const s of ['', 'ab', 'aab', 'a😀a', 'b\na']) { const r = new RegExp(p, f); r.lastIndex = li; eq(shape(F.execAll(r, s)), shape(expected(p, f, s, li)), `execAll(/${p}/${f} from ${li}, ${show(s)})`); } });
    // the characters at the borders of the two planes
    t.cases('execAll-borders', t.product(['', 'a*', '(?:)', 'z?', '(?=.)', '$'], FLAGS, [...t.words(['\u{10000}', '\uffff', '\u{10ffff}', '\ud800', '\udc00', '\udfff', '\ud7ff', '\ue000'], 1, 2)]), ([p, f, ws]) => { const s = ws.join('') + 'a'; eq(shape(F.execAll(new RegExp(p, f), s)), shape(expected(p, f, s)), `execAll(/${p}/${f}, ${show(s)})`); });
    t.cases('execAll-long', t.product(['a', 'a*', '(a)|(b)', '', 'ab', '[^a]', '^a', '$', '(?<x>a+)b', '\\b'], FLAGS, [10, 33, 100, 257, 1500], ['a', 'ab', 'aab\n', '😀a']), ([p, f, n, u]) => { const s = u.repeat(n), e = shape(expected(p, f, s)).map(m => [m[0], m[1]]); const r = F.execAll(new RegExp(p, f), s); ok(r.length === e.length && r.every((m, i) => m.index === e[i][1] && m.length === e[i][0].length && m.every((x, k) => x === e[i][0][k])), `execAll(/${p}/${f}, ${n} times ${show(u)}): ${r.length} of ${e.length} matches, or different ones`); });
    t.cases('many-expressions', t.product([5, 9, 17, 33, 70], [0, 1, 2]), ([n, k]) => { const s = t.range(1, n).map(i => `<${i}>`).join(''), hitAll = t.range(1, n).map(i => new RegExp(`<${i}>`, k === 1 ? 'g' : '')), miss = hitAll.slice(); miss[n - 1] = /zz/; for (let rep = 0; rep < 2; rep++) { eq(F.testEvery(hitAll, s), true); eq(F.testEvery(miss, s), false); eq(F.testSome([...Array(n).fill(/zz/), /<1>/], s), true); eq(F.testSome(Array(n).fill(/zz/g), s), false); } eq(F.mapReplace(t.range(1, n).map(i => new RegExp(`<${i}>`)), s, 'x'), 'x'.repeat(n)); });
    // what is collected
    const KEYS = [...t.range(0, 101), '0', '1', '7', '99', '100', '-1', -1, 1.5, NaN, Infinity, '', ' ', '1 ', 'index', 'input', 'groups', 'length', 'Index', 'lengthx', 'index\n', '\nindex', 'x\nlength', '1\n', 'constructor', 'lastIndex', '__proto__', 'map', '1e1', '0x1', -0];
    t.cases('execAll-keys', t.product(KEYS, ['(a)(?<n>b)?', 'a', '(?:)', 'z'], ['g', '', 'gi']), ([k, p, f]) => { for (const s of ['ab', 'aAxab', '']) {
        const r = attempt(() => F.execAll(new RegExp(p, f), s, k)), id = String(k); const good = /^(\d{1,2}|index|input|groups|length)$/.test(id);
        if (id === 'NaN') return; ok(r.ok === good, `key ${show(k)}: ${show(r)}`); if (good) { const e = expected(p, f, s).map(m => m[id]); eq(r.value.map(x => x && typeof x === 'object' ? { ...x } : x), e.map(x => x && typeof x === 'object' ? { ...x } : x), `execAll(/${p}/${f}, ${show(s)}, ${show(k)})`); } } });
    t.cases('execAll-callback', t.product(['a', 'a*', '(a)|b', ''], ['g', '', 'gu'], ['aba', 'aa', 'b', ''], [undefined, null, 0, false, '', NaN, 'x']), ([p, f, s, ret]) => { const seen = []; const r = F.execAll(new RegExp(p, f), s, m => { seen.push(m); return ret; }); const e = expected(p, f, s); eq(shape(seen), shape(e)); eq(r, e.map(() => ret)); });
    // a callback that throws, and one that uses the same expression again, leave later (and outer) calls alone
    t.cases('execAll-history', t.product(['a', 'a*', '[ab]', '(a)|b', '', '(?<x>b)', '.'], ['g', 'gu', 'gy', 'gi', ''], ['aba', 'aaaa', 'b', 'ba'], t.range(0, 4)), ([p, f, s, at]) => {
        const reg = new RegExp(p, f), e = shape(expected(p, f, s)), l = `/${p}/${f} on ${show(s)}`; let n = 0; const boom = new Error('boom');
        const r = attempt(() => F.execAll(reg, s, m => { if (n++ === at) throw boom; return m; })); if (at < e.length) ok(r.error === boom, `${l}: the error of the callback is lost`);
        eq(shape(F.execAll(reg, s)), e, `${l} after a callback threw at match ${at}`);
        if (e.length) { let d = 0, c = 0; const out = F.execAll(reg, s, m => { if (++c > 20) throw new Error(`${l}: no end`); if (d++ === at) eq(shape(F.execAll(reg, s)), e, `${l} inside its own callback`); return m; }); eq(shape(out), e, `${l}: outer call around an inner one`); }
    });
    // ---- testers: the same answer for the same arguments, whatever came before
    const TP = ['a', '^a', 'a$', 'ab', '^b*$', '[^a]', '\\bb', '', '^$'], TF = ['', 'g', 'y', 'gy', 'gi', 'gm', 'u'];
    const POOL = [...t.product(TP, TF)].map(([p, f]) => ({ p, f }));
    const TT = ['a', 'b', 'ab', 'ba', 'aab', 'a\nb', 'A', ''];
    const hit = (x, s) => new RegExp(x.p, x.f).test(s);
    const judge = (name, xs, regs, s, l) => { if (!s && (!xs.length || xs.some(x => hit(x, s)))) { if (!xs.length) ok(!attempt(() => F[name](regs, s)).ok, `${l}: nothing to test`); return; } eq(F[name](regs, s), name === 'testEvery' ? xs.every(x => hit(x, s)) : xs.some(x => hit(x, s)), l); };
    t.cases('test-single', t.product(POOL, TT, TT, ['testEvery', 'testSome'], [0, 1, 2, 9]), ([x, s1, s2, n, li]) => { const r = new RegExp(x.p, x.f); r.lastIndex = li; const l = `${n}([/${x.p}/${x.f}] from ${li}: ${show(s1)}, ${show(s2)}, ${show(s1)})`; for (const s of [s1, s2, s1, s1]) judge(n, [x], [r], s, l); });
    t.cases('test-pairs', t.product(POOL, POOL.filter((_, i) => t.thorough || i % 2 === 0)), ([x, y]) => { const regs = [new RegExp(x.p, x.f), new RegExp(y.p, y.f)]; for (const s1 of TT) for (const s2 of TT) for (const n of ['testEvery', 'testSome', 'testEvery']) { const l = `${n}([/${x.p}/${x.f}, /${y.p}/${y.f}], ${show(s2)}) after ${show(s1)}`; judge(n, [x, y], regs, s1, l); judge(n, [x, y], regs, s2, l); } });
    t.cases('test-triples', t.words(POOL.filter(x => ['a', '^a', 'a$', ''].includes(x.p) && ['', 'g', 'y'].includes(x.f)), 3, 3), xs => { const regs = xs.map(x => new RegExp(x.p, x.f)); for (const s of TT) for (const n of ['testEvery', 'testSome', 'testEvery']) judge(n, xs, regs, s, `${n}([${xs.map(x => `/${x.p}/${x.f}`)}], ${show(s)})`); });
    t.cases('test-same-object', t.product(POOL, TT, [2, 3, 5]), ([x, s, n]) => { const r = new RegExp(x.p, x.f); for (const f of ['testEvery', 'testSome', 'testEvery']) judge(f, Array(n).fill(x), Array(n).fill(r), s, `${f}(${n} times /${x.p}/${x.f}, ${show(s)})`); });
    t.cases('test-none', t.product(['testEvery', 'testSome'], ['x', ' ', '0', '']), ([n, s]) => judge(n, [], [], s, `${n}([], ${show(s)})`));
    t.cases('test-bad', t.product(['testEvery', 'testSome'], [[], [undefined, 'a'], [[/a/], undefined]]), ([n, a]) => ok(!attempt(() => F[n](...a)).ok, `${n}(${show(a)}) accepted`));
    // ---- mapReplace: the expressions one after the other, each on the result of the one before
    const RP = ['a', 'b', 'a*', '(a)(b)?', '^', 'x', '[ab]', '(?<n>b)'], RF = ['g', '', 'gi'];
    const REP = ['x', '', 'a', '$1', '$&$&', '$$', 'ab', '$<n>', "$`$'"];
    t.cases('mapReplace', t.product([...t.words(RP, 0, 2 + D)], RF, RF, REP), ([ps, f1, f2, rep]) => { const regs = ps.map((p, i) => new RegExp(p, i & 1 ? f2 : f1)); for (const s of ['', 'a', 'ab', 'bab', 'Aab']) { let e = s; ps.forEach((p, i) => { e = e.replace(new RegExp(p, i & 1 ? f2 : f1), rep); }); for (let k = 0; k < 2; k++) eq(F.mapReplace(regs, s, rep), e, `mapReplace([${regs}], ${show(s)}, ${show(rep)})`); } });
    t.cases('mapReplace-function', t.product([...t.words(RP, 0, 2)], RF, ['', 'ab', 'bab', 'aab']), ([ps, f, s]) => { const mk = log => (...a) => { log.push(a); return `<${a[0]}>`; }; const l1 = [], l2 = []; const r = F.mapReplace(ps.map(p => new RegExp(p, f)), s, mk(l1)); let e = s; const m = mk(l2); for (const p of ps) e = e.replace(new RegExp(p, f), m); eq(r, e); eq(l1, l2, 'arguments of the replacer'); });
    t.cases('matchNextIndex', t.product(PATTERNS.filter((_, i) => i % 2 === 0), TEXTS), ([p, s]) => { for (const m of s.matchAll(new RegExp(p, 'g'))) eq(F.matchNextIndex(m), m.index + m[0].length); const x = new RegExp(p).exec(s); if (x) eq(F.matchNextIndex(x), x.index + x[0].length); });
    nested(t, 'inside', [[/a(.)/g, 'abacad'], [/\d/g, '123'], [/x/, 'xyx'], [/(?:)/g, 'pq'], [/z/g, 'abc']].map(([re, s]) => ({ n: `${re} ${s}`, run: h => F.execAll(re, s, m => { h(); return m[0] + m.index; }) })));
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    return again(t, [['execAll', F.execAll, () => [/a(.)/g, 'abacad']], ['execAll', F.execAll, () => [/a(?<n>.)/g, 'abacad']], ['execAll', F.execAll, () => [/a/, 'aa']], ['execAll', F.execAll, () => [/z/g, 'aa']], ['execAll with a callback', F.execAll, () => [/a(.)/g, 'abac', m => [m[0]]]], ['mapReplace', F.mapReplace, () => ['abc', [/a/g, /b/], 'x']], ['mapReplace', F.mapReplace, () => ['abc', [/a/g], 'x']], ['testEvery', F.testEvery, () => [[/a/g, /b/y], 'ab']], ['testSome', F.testSome, () => [[/a/g, /b/], 'ab']], ['matchNextIndex', F.matchNextIndex, () => [/b/.exec('abc')]]]);
};
