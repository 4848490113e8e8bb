'use strict';
const { ok, eq, fail, show } = require('../lib/util');
const { overlap } = require('../lib/overlap');
exports.technique = 'stateless model checking: all histories of submissions interleaved with all settlement orders, against a reference collector';
exports.bounds = 'histories of up to 5 submissions (thorough 6), total 1-4 or explicit done, restart/accumulate in every combination, every interleaving with settlement of the submitted promises, one rejecting promise at any place; two overlapping calls in every order of their settlements; up to 5000 submissions held back';
exports.assumptions = ['submissions are promises, as the signature requires; in done-flag mode non-promises are ignored'];
exports.run = async t => {
    const base = t.world(); const { collectItems } = base.load('@curong/function');
    const scenario = cfg => s => {
        const { opts, n, flags = [], rejectAt = -1, nonPromise = [] } = cfg;
        const c = cfg.noOpts ? collectItems() : collectItems(opts);
        const subs = []; let over = false, buf = [], next = 0; const outs = [];
        const submit = i => {
            const plain = nonPromise.includes(i);
            const p = plain ? `plain${i}` : s.op('p' + i, [i === rejectAt ? ['err', 'bad' + i] : ['ok', i % 2 ? 'v' + i : undefined]]);
            if (!plain) { p.catch(() => {}); buf.push(i); }
            let exp = { done: false };
            const hit = opts.total === undefined ? !!flags[i] : !plain && buf.length % opts.total === 0;
            if (!over && hit) { exp = { done: true, items: buf.slice() }; if (!opts.isRestart) over = true; if (!opts.isAccumulate) buf = []; }
            const r = { exp, at: null }; outs.push(r);
            r.p = (flags[i] === undefined ? c(p) : c(p, flags[i])).then(v => r.got = ['ok', v], e => r.got = ['err', e]);
        };
        // the submissions happen in order, at moments chosen by the explorer
        for (let i = 0; i < n; i++) s.event('submit' + i, () => { next = i + 1; submit(i); }, { enabled: () => next === i });
        return () => outs.forEach((r, i) => {
            ok(r.got, `submission ${i} never answered`);
            if (!r.exp.done) return eq(r.got, ['ok', { done: false, value: undefined }], `answer to submission ${i}`);
            if (r.exp.items.includes(rejectAt)) return eq(r.got, ['err', 'bad' + rejectAt], `answer to submission ${i}`);
            eq(r.got, ['ok', { done: true, value: r.exp.items.map(k => k % 2 ? 'v' + k : undefined) }], `answer to submission ${i}`);
        });
    };
    const go = (suite, cfgs, o) => t.explore(suite, cfgs, (s, c) => scenario(c)(s), { maxSteps: 80, ...o });
    const RA = [...t.options({ isRestart: [true, false], isAccumulate: [true, false] })];
    const A = [];
    for (const o of RA) for (const total of [1, 2, 3, 4]) A.push({ opts: { ...o, total }, n: 4 });
    for (const o of RA.filter(o => o.isRestart !== false && o.isAccumulate !== false)) for (const total of t.thorough ? [1, 2, 3] : [2, 3]) A.push({ opts: { ...o, total }, n: t.thorough ? 6 : 5 });
    await go('totals', A);
    const B = [];
    for (const o of RA) for (const fl of t.words([undefined, true], 1, 4)) B.push({ opts: o, n: fl.length, flags: fl });
    for (const fl of t.words([undefined, false, true], 1, 3)) B.push({ opts: {}, n: fl.length, flags: fl, noOpts: true });
    for (const o of RA.filter(o => o.isRestart)) for (const fl of t.words([undefined, true], 3, 3)) for (const np of [[0], [1], [2], [0, 1], [0, 1, 2]]) B.push({ opts: o, n: 3, flags: fl, nonPromise: np });
    await go('done-flag', B);
    const C = [];
    for (const o of [{ isRestart: true }]) for (const total of [1, 2]) for (const r of [0, 1, 2]) C.push({ opts: { ...o, total }, n: 4, rejectAt: r });
    for (const r of [0, 1, 2, 3]) C.push({ opts: { isRestart: true }, n: 4, flags: [undefined, true, undefined, true], rejectAt: r });
    await go('rejections', C);
    await go('total-ignores-flag', [...t.words([undefined, true], 3, 3)].map(fl => ({ opts: { total: 2, isRestart: true }, n: 3, flags: fl })));
    // large totals, submitted back to back
    const lit = t.literals('function/src/control/collectItems.ts').near.filter(x => Number.isInteger(x) && x > 4 && x < 200);
    await t.explore('sizes', [...new Set([5, 7, 10, 33, ...lit])], (s, total) => { s.choose = () => 0; return scenario({ opts: { total, isRestart: true }, n: total * 2 + 1 })(s); }, { maxSteps: 2000 });
    t.cases('invalid-total', [-1, 1.5, 'x', NaN * 1 || -2, Infinity, {}, true, '3'], v => ok(!t.attempt(() => collectItems({ total: v })).ok, `total ${show(v)} accepted`));
    // ---- two collectors in use at the same time
    const two = (n, o, ...pay) => ({ n, run: async (lib, gate) => { const c = lib.collectItems(o), log = []; await Promise.all(pay.map((p, i) => (async () => { for (let k = 0; k < i; k++) await gate(0); const r = await c(gate(n + i), p); log[i] = r; })())); return log; } });
    await overlap(t, 'two collectors', s => base.fork({ fresh: f => /packages\/function\//.test(f), mocks: s.timerMocks }).load('@curong/function'), [two('a', { total: 2, isRestart: true }, 0, 0), two('b', {}, false, true), two('c', { total: 1 }, 0, 0), two('d', { total: 2, isRestart: true, isAccumulate: true }, 0, 0)], { late: true });
    // ---- very many submissions held back until the total or the done flag
    await t.casesAsync('sizes-far', t.product([130, 1025, 5000], ['flag', 'total'], [false, true], [false, true], [-1, 0, 0.5, 1]), async ([n, how, isRestart, isAccumulate, bad]) => {
        const c = collectItems({ ...(how === 'total' ? { total: n } : {}), isRestart, isAccumulate }), at = bad < 0 ? -1 : Math.floor((n - 1) * bad), l = `${n} submissions until the ${how}, ${show({ isRestart, isAccumulate })}, failing ${at}`, outs = [];
        for (let i = 0; i < n; i++) { const p = i === at ? Promise.reject('bad' + i) : Promise.resolve(i); p.catch(() => {}); outs.push((how === 'flag' ? c(p, i === n - 1) : c(p)).then(v => ['ok', v], e => ['err', e])); }
        const r = await Promise.all(outs); for (let i = 0; i < n - 1; i++) if (r[i][0] !== 'ok' || r[i][1].done !== false || r[i][1].value !== undefined) ok(false, `${l}: answer to submission ${i} is ${show(r[i], 1)}`); const z = r[n - 1];
        if (at >= 0) ok(z[0] === 'err' && z[1] === 'bad' + at, `${l}: ${show(z, 1).slice(0, 200)}`); else { ok(z[0] === 'ok' && z[1].done === true, l); eq(z[1].value.length, n, `${l}: items`); for (let i = 0; i < n; i++) if (z[1].value[i] !== i) ok(false, `${l}: item ${i} is ${show(z[1].value[i])}`); }
    });
};
