'use strict';
const { ok, eq, fail, show } = require('../lib/util');
const { overlap } = require('../lib/overlap');
exports.technique = 'stateless model checking: all failure histories and schedules of the real code under a controlled scheduler and virtual clock';
exports.bounds = 'maxRetry -1..3 (thorough 5), every success/failure sequence, every callback answer, fixed and ranged waits with the random source driven by the explorer; async, sync, promise and value tasks; two overlapping calls in every order of their settlements';
exports.assumptions = ['time advances only through timers', 'Math.random is the only source of randomness'];
exports.run = async t => {
    const base = t.world(); base.load('@curong/function');
    const ANS = { value: 'alt', zero: 0, undef: undefined, null: null, false: false, nan: NaN, empty: '' };
    const scenario = cfg => s => {
        const { maxRetry, wait, kind = 'async', stop, onError, onRetry = true } = cfg;
        const retry = base.fork({ fresh: f => /packages\/function\//.test(f), mocks: s.timerMocks }).load('@curong/function').retry;
        Math.random = () => s.pick([0, 0.5, 0.999999999], 'rnd');
        const errs = [], retries = [], finals = [], starts = [], ends = [];
        let inflight = 0, runs = 0, succeeded = null, settled = null, probs = [];
        const E = i => cfg.err === 'undef' ? undefined : cfg.err === 'false' ? false : new Error('e' + i);
        const vals = [['ok', 'v'], ['ok', undefined], ['ok', 0]];
        let task;
        const note = (k, v) => { inflight--; ends.push(s.now); if (k === 'ok') succeeded = { v }; else errs.push(v); };
        if (kind === 'async') task = (...a) => {
            starts.push(s.now); runs++; if (a.length) probs.push('task called with arguments');
            if (inflight) probs.push('attempts overlap'); if (succeeded) probs.push('runs again after success');
            inflight++;
            return s.op('a' + runs, [...(cfg.vals ? vals : vals.slice(0, 1)), ['err', E(runs)]], { ...(cfg.dur ? { at: cfg.dur } : {}), onSettle: note });
        };
        else if (kind === 'sync') task = () => {
            starts.push(s.now); runs++; inflight++;
            const k = s.choose(2, 'sync');
            if (k) { const e = E(runs); note('err', e); throw e; }
            note('ok', 'v'); return 'v';
        };
        else if (kind === 'promise') { starts.push(0); task = s.op('p', [['ok', 'v'], ['err', E(1)]], { onSettle: (k, v) => { if (k === 'ok') succeeded = { v }; else for (let i = 0; i <= maxRetry; i++) { errs.push(v); } } }); }
        else task = () => { runs++; starts.push(s.now); return s.pick([0, 'v', null, undefined], 'val'); };
        const opts = {};
        if (wait !== undefined) opts.retryWait = wait;
        if (onError !== undefined) opts.onError = (...a) => { finals.push(a[0]); if (onError === 'throw') throw 'onErrorThrew'; return ANS[onError]; };
        if (onRetry) opts.onRetry = (...a) => { retries.push([a[0], a[1]]); return stop !== undefined && a[1] >= stop ? true : stop === undefined ? s.pick([undefined, false, 1], 'ans') : undefined; };
        retry(maxRetry, task, ...(cfg.noOpts ? [] : [opts])).then(v => settled = { ok: 1, v, at: s.now }, e => settled = { e, at: s.now });
        return () => {
            if (probs.length) fail(probs[0]);
            ok(settled, 'retry never settles');
            if (kind === 'value') return;
            const stopped = onRetry && stop !== undefined && stop <= maxRetry && errs.length > stop;
            const limit = Math.max(0, stopped ? stop + 1 : maxRetry + 1);
            if (kind !== 'promise') ok(runs <= limit, `${runs} runs with maxRetry ${maxRetry}`);
            if (kind === 'promise' && stopped) errs.length = stop + 1;
            if (onRetry) eq(retries, errs.slice(1).map((e, i) => [e, i + 1]), 'onRetry calls');
            if (succeeded) {
                ok(settled.ok && Object.is(settled.v, succeeded.v), `settled ${show(settled)} but the task returned ${show(succeeded.v)}`);
                eq(finals, [], 'onError calls');
            } else if (maxRetry < 0) ok(runs === 0, 'ran with a negative retry count');
            else {
                if (kind !== 'promise') eq(runs, limit, 'number of runs');
                if (onError !== undefined) {
                    eq(finals, [errs.at(-1)], 'onError calls');
                    if (onError === 'throw') ok(!settled.ok && settled.e === 'onErrorThrew', `settled ${show(settled)}`);
                    else ok(settled.ok && Object.is(settled.v, ANS[onError]), `settled ${show(settled)}`);
                } else if (stopped) ok(settled.ok && settled.v === undefined, `settled ${show(settled)}`);
                else {
                    ok(!settled.ok && settled.e instanceof AggregateError, `settled ${show(settled)}`);
                    ok(settled.e.errors.length === errs.length && errs.every((e, i) => Object.is(e, settled.e.errors[i])), `AggregateError.errors ${show(settled.e.errors)}`);
                }
            }
            if (kind === 'async' || kind === 'sync') {
                const [lo, hi] = typeof wait === 'object' ? [wait.start, wait.end] : [Math.max(0, wait || 0), Math.max(0, wait || 0)];
                for (let i = 1; i < starts.length; i++) {
                    const w = starts[i] - ends[i - 1];
                    ok(w >= lo && w <= hi, `waited ${w} ms before retry ${i}, expected ${lo}..${hi}`);
                }
                ok(!starts.length || starts[0] === 0, 'waited before the first attempt');
                ok(settled.at === (ends.at(-1) ?? 0), `settled at ${settled.at}, last attempt ended at ${ends.at(-1)}`);
                ok(s.timers.length === 0, 'a timer is left behind');
            }
        };
    };
    const go = (suite, cfgs) => t.explore(suite, cfgs, (s, c) => scenario(c)(s), { maxSteps: 100 });
    const lit = t.literals('function/src/catch/retry.ts').near.filter(x => Number.isInteger(x) && x > 3 && x < 40);
    const A = [];
    for (const maxRetry of [-1, 0, 1, 2, 3, ...(t.thorough ? [4, 5] : [])]) for (const kind of ['async', 'sync']) for (const onError of [undefined, 'value', 'zero', 'undef', 'throw']) for (const stop of [9, 1, 2, 3]) if (stop === 9 || stop <= maxRetry) A.push({ maxRetry, kind, onError, stop, vals: maxRetry < 3 });
    await go('histories', A);
    const B = [];
    for (const maxRetry of [0, 1, 2]) for (const err of ['undef', 'false', 'error']) for (const onError of [undefined, 'value', 'null', 'false', 'nan', 'empty', 'zero']) { B.push({ maxRetry, err, onError }); B.push({ maxRetry, err, onError, onRetry: false }); }
    await go('falsy-errors-and-answers', B);
    const W = [];
    for (const maxRetry of [1, 2]) for (const wait of [0, 1, 5, 1000, { start: 2, end: 4 }, { start: 0, end: 1 }, { start: 3, end: 3 }, { start: 1000, end: 2000 }]) for (const dur of [0, 3]) W.push({ maxRetry, wait, dur, stop: 9 }, { maxRetry, wait, dur, stop: 9, onError: 'value' }, { maxRetry, wait, kind: 'sync', stop: 1 });
    await go('waits', W);
    const K = [];
    for (const maxRetry of [0, 1, 2]) for (const kind of ['promise', 'value']) for (const onError of [undefined, 'value']) for (const stop of [9, 1]) K.push({ maxRetry, kind, onError, stop });
    for (const maxRetry of [0, 1, 2]) K.push({ maxRetry, noOpts: true, onRetry: false });
    await go('kinds', K);
    // two retries of the same task at once do not influence each other
    await t.explore('independent', [[1, 1], [1, 2]], (s, [m1, m2]) => {
        const retry = base.fork({ fresh: f => /packages\/function\//.test(f), mocks: s.timerMocks }).load('@curong/function').retry;
        const rs = [m1, m2].map((m, w) => {
            const r = { errs: [], runs: 0 };
            retry(m, () => { r.runs++; const e = new Error(`e${w}.${r.runs}`); return s.op(`w${w}.${r.runs}`, [['ok', w], ['err', e]], { onSettle: k => { if (k === 'err') r.errs.push(e); else r.done = true; } }); }).then(v => r.out = ['ok', v], e => r.out = ['err', e]);
            return r;
        });
        return () => rs.forEach((r, w) => {
            ok(r.out, 'never settles');
            if (r.done) eq(r.out, ['ok', w]); else { ok(r.out[1] instanceof AggregateError && r.out[1].errors.length === r.errs.length && r.errs.every((e, i) => e === r.out[1].errors[i]) && r.errs.length === [m1, m2][w] + 1, `errors of ${w}`); }
        });
    });
    await t.explore('counts', [...new Set([7, 10, 20, ...lit])], (s, m) => {
        s.choose = (n, l) => /a\d+:ok/.test(l) ? n - 1 : 0;
        return scenario({ maxRetry: m, stop: 99 })(s);
    }, { maxSteps: 200 });
    // ---- two calls with different options under way at the same time, the second started at any moment of the first
    const two = (n, max, o = {}, x = {}) => ({ n, run: async (lib, gate, s, time) => {
        const log = [], at = []; const on = {}; if (x.err) on.onError = e => { log.push(['error', e.message]); return x.err[0]; }; if (x.re) on.onRetry = (e, k) => { log.push(['retry', e.message, k]); return k >= x.re; };
        return lib.retry(max, () => { const k = at.length; at.push(time()); return gate(k < x.fails ? { throw: new Error(n + k) } : n + 'v'); }, { ...o, ...on }).then(v => [v, log, at], e => ['failed', e.message, e.errors.map(y => y.message), e.cause.attempts, log, at]);
    } });
    const R2 = [two('a', 1, {}, { fails: 9 }), two('b', 1, { retryWait: 3 }, { fails: 1 }), two('c', 2, { retryWait: { start: 5, end: 5 } }, { fails: 9, re: 1 }), two('d', 0, {}, { fails: 9, err: ['dd'] }), two('e', 1, {}, { fails: 9, re: 9, err: [undefined] }), two('f', 1, { retryWait: 2 }, { fails: 9 }), two('g', 0, {}, { fails: 0 })];
    await overlap(t, 'two calls', s => base.fork({ fresh: f => /packages\/function\//.test(f), mocks: s.timerMocks }).load('@curong/function'), R2, { late: true });
};
