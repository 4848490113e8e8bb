'use strict';
const { ok, eq, same, show } = require('../lib/util');
const { overlap } = require('../lib/overlap');
exports.bounds = 'tasks 0-3 (4 for one-shot async tasks; thorough: 4 with retry), every concurrency 1..n+1 and default, maxRetry 0-2, all settlement orders and outcomes; 8-257 tasks under 11 limits in four fixed settlement orders, with and without a fixed pattern of failures; two overlapping calls in every order of their settlements';
exports.technique = 'stateless model checking: exhaustive exploration of all schedules of the real code under a controlled scheduler';
exports.assumptions = ['promise reactions run in FIFO order as specified by ECMAScript', 'time advances only through timers'];

exports.run = async t => {
    const base = t.world();
    base.load('@curong/function');
    const isFn = f => /packages\/function\//.test(f);
    const NONE = Symbol('none');

    const scenario = cfg => s => {
        const { kinds, concurrency, maxRetry = 0, retryWait, onError, stopAt, err, few } = cfg;
        const parallel = base.fork({ fresh: isFn, mocks: s.timerMocks }).load('@curong/function').parallel;
        const n = kinds.length;
        const T = kinds.map((k, i) => ({ i, k, runs: 0, inflight: 0, errors: [], started: 0, datas: [], onErr: [], onRetry: [], final: NONE, lastRunAt: 0, settledAt: -1, next: null }));
        const limit = concurrency === undefined ? n : concurrency;
        let seq = -1, settled = null;
        const problems = [];
        const want = (c, m) => { if (!c) problems.push(m); };
        const mkErr = (i, a) => err === 'string' ? `e${i}.${a}` : err === 'undef' ? undefined : new Error(`e${i}.${a}`);
        const slots = () => T.filter(x => x.started && x.final === NONE && !x.dead).length;
        const finish = (x, kind, v) => {
            x.inflight--; x.settledAt = s.now;
            if (kind === 'ok') { x.final = v; x.success = true; return; }
            x.errors.push(v);
            if (x.errors.length === maxRetry + 1 || (stopAt !== undefined && x.errors.length - 1 >= stopAt && x.errors.length > 1)) {
                x.failed = true;
                if (onError === undefined && !(stopAt !== undefined && x.errors.length - 1 >= stopAt && x.errors.length > 1)) x.dead = true;
                else x.final = onError === 'value' ? `alt${x.i}` : undefined;
            }
        };
        const start = x => {
            x.runs++;
            s.log('run', x.i, x.runs);
            want(x.inflight === 0, `task ${x.i} runs twice at the same time`);
            want(!x.success, `task ${x.i} runs again after it succeeded`);
            want(x.runs <= maxRetry + 1, `task ${x.i} runs ${x.runs} times with maxRetry ${maxRetry}`);
            if (x.runs === 1 && x.k !== 'prom' && x.k !== 'val') { want(x.i > seq, `task ${x.i} starts after task ${seq}`); seq = x.i; }
            if (x.runs > 1) { const w = s.now - x.settledAt, [lo, hi] = typeof retryWait === 'object' ? [retryWait.start, retryWait.end] : [retryWait ?? 0, retryWait ?? 0]; want(w >= lo && w <= hi, `task ${x.i} is retried ${w} ms after its failure, retryWait is ${show(retryWait)}`); }
            x.inflight++;
            const fly = T.filter(y => y.inflight && y.k !== 'prom').length;
            want(fly <= limit, `${fly} tasks in flight with concurrency ${limit}`);
        };
        const tasks = kinds.map((k, i) => {
            const x = T[i];
            if (k === 'val') { x.k = 'val'; return [0, '', null, false][i] ?? `v${i}`; }
            if (k === 'prom') return s.op('p' + i, [['ok', `r${i}`]], { onSettle: () => {} });
            if (k === 'sync') return () => {
                start(x);
                if (s.choose(2, `sync${i}`)) { const e = mkErr(i, x.runs); finish(x, 'err', e); throw e; }
                finish(x, 'ok', `r${i}`); return `r${i}`;
            };
            return () => {
                start(x);
                const outs = [['ok', few ? `r${i}` : [`r${i}`, 0, undefined][i % 3] ?? `r${i}`], ['err', mkErr(i, x.runs)]];
                return s.op(`t${i}.${x.runs}`, k === 'okonly' ? outs.slice(0, 1) : outs, { onSettle: (kind, v) => finish(x, kind, v) });
            };
        });
        const options = { };
        if (concurrency !== undefined) options.concurrency = concurrency;
        if (cfg.maxRetry !== undefined) options.maxRetry = maxRetry;
        if (retryWait !== undefined) options.retryWait = retryWait;
        options.onStart = (...a) => { const x = T[a[0]]; s.log('onStart', a[0]); want(x && a[1] === tasks[a[0]], `onStart got ${show(a)}`); if (!x) return; want(x.runs === 0, `onStart after task ${x.i} ran`); x.started++; want(x.started === 1, `onStart twice for ${x.i}`); };
        options.onData = (...a) => { s.log('onData', a[0], a[1]); const x = T[a[0]]; want(!!x, `onData index ${show(a[0])}`); if (x) x.datas.push(a[1]); };
        if (onError !== undefined) options.onError = (...a) => { s.log('onError', a[0]); const x = T[a[0]]; want(!!x, `onError index ${show(a[0])}`); if (x) x.onErr.push(a[1]); return onError === 'value' ? `alt${a[0]}` : undefined; };
        options.onRetry = (...a) => { s.log('onRetry', a[0], a[2]); const x = T[a[0]]; want(!!x, `onRetry index ${show(a[0])}`); if (!x) return; x.onRetry.push([a[1], a[2]]); return stopAt !== undefined && a[2] >= stopAt ? true : undefined; };
        if (cfg.bare) { delete options.onStart; delete options.onData; delete options.onRetry; }
        s.opts.onQuiet = () => {
            if (problems.length) t.fail(problems[0]);
            if (cfg.bare || settled) return;
            // no slot idle while tasks remain (value/promise tasks hold a slot until they settle)
            const startedN = T.filter(x => x.started).length;
            const act = T.filter(x => x.started && !x.datas.length && !x.dead).length;
            ok(act <= limit, `${act} tasks are active with concurrency ${limit}`);
            if (!T.some(x => x.dead)) ok(startedN === n || act >= limit, `a slot is idle: ${act} active, ${n - startedN} not started, concurrency ${limit}`);
        };
        parallel(tasks, options).then(
            v => { settled = { ok: true, v, at: s.now }; s.log('resolved'); },
            e => { settled = { ok: false, e, at: s.now }; s.log('rejected'); });
        return () => {
            if (problems.length) t.fail(problems[0]);
            ok(settled, 'parallel() never settles');
            const dead = T.filter(x => x.dead);
            if (settled.ok) {
                ok(!dead.length, 'resolved although a task failed for good and there is no onError');
                ok(Array.isArray(settled.v) && settled.v.length <= n, `result is ${show(settled.v)}`);
                T.forEach((x, i) => {
                    const exp = x.k === 'val' ? tasks[i] : x.k === 'prom' ? `r${i}` : x.final;
                    ok(exp !== NONE, `resolved before task ${i} finished`);
                    ok(Object.is(settled.v[i], exp), `result[${i}] is ${show(settled.v[i])}, expected ${show(exp)}`);
                    if (!cfg.bare && !x.failed) eq(x.datas, [exp], `onData calls of task ${i}`);
                    if (!cfg.bare) ok(x.started === 1 && x.datas.length <= 1, `callbacks of task ${i}`);
                });
            } else {
                ok(dead.length > 0, `rejected although no task failed for good: ${show(settled.e)}`);
                ok(settled.e instanceof AggregateError, `rejected with ${show(settled.e)} instead of an AggregateError`);
                ok(dead.some(x => x.errors.length === settled.e.errors.length && x.errors.every((e, j) => Object.is(e, settled.e.errors[j]))), `AggregateError.errors is ${show(settled.e.errors, 1)}`);
            }
            T.forEach(x => {
                if (x.k === 'val' || x.k === 'prom') return;
                if (settled.ok) ok(x.success ? x.runs === x.errors.length + 1 : x.failed, `task ${x.i} ran ${x.runs} times`);
                if (onError !== undefined) eq(x.onErr, x.failed ? [x.errors.at(-1)] : [], `onError calls of task ${x.i}`);
                if (!cfg.bare) eq(x.onRetry, x.errors.slice(1).map((e, j) => [e, j + 1]), `onRetry calls of task ${x.i}`);
            });
        };
    };
    const go = (suite, cfgs, o) => t.explore(suite, cfgs, (s, c) => scenario(c)(s), o);
    const rep = (k, n) => Array(n).fill(k);
    const concs = n => [undefined, ...t.range(1, n + 1)];
    const lit = t.literals('function/src/control/parallel.ts').near.filter(x => Number.isInteger(x) && x > 5 && x <= 64);

    // order of completion, successes only, up to 4 (5) tasks
    const A = [];
    for (const n of t.range(0, t.thorough ? 5 : 4)) for (const c of concs(n)) A.push({ kinds: rep('okonly', n), concurrency: c });
    await go('orders', A);
    // successes and failures without retry
    const B = [];
    for (const n of t.range(1, 3)) for (const c of concs(n)) for (const onError of [undefined, 'value', 'undef']) for (const err of ['error', 'string', 'undef']) B.push({ kinds: rep('async', n), concurrency: c, onError, err });
    await go('failures', B);
    // retries
    const C = [];
    for (const n of t.range(1, t.thorough ? 3 : 2)) for (const c of [1, 2]) for (const maxRetry of n === 3 ? [1] : [1, 2]) for (const onError of [undefined, 'value']) for (const stopAt of [undefined, 1]) C.push({ kinds: rep('async', n), concurrency: c, maxRetry, onError, stopAt, few: true });
    await go('retries', C);
    const W = [];
    for (const n of [1, 2]) for (const c of [1, 2]) for (const retryWait of [0, 1, 7, { start: 2, end: 4 }, { start: 3, end: 3 }]) for (const onError of [undefined, 'value']) W.push({ kinds: rep('async', n), concurrency: c, maxRetry: 1, retryWait, onError, few: true });
    await go('retry-waits', W);
    // mixed kinds of tasks
    const M = [];
    for (const ks of t.words(['val', 'prom', 'sync', 'async'], 2, 3)) for (const c of [undefined, 1, 2]) M.push({ kinds: ks, concurrency: c, onError: 'value', few: true }, { kinds: ks, concurrency: c, few: true, bare: ks.length === 2 });
    await go('kinds', M);
    // steps taken back to back within one tick
    const S = [];
    for (const n of [2, 3]) for (const c of concs(n)) S.push({ kinds: rep(n === 3 ? 'okonly' : 'async', n), concurrency: c, onError: 'value', few: true });
    await go('same-tick', S, { sameTick: true });
    // sizes the code mentions: sequential completion only
    if (lit.length) await t.explore('sizes', lit.flatMap(n => [{ n, c: 2 }, { n, c: n - 1 }]), (s, { n, c }) => {
        s.choose = () => 0;
        return scenario({ kinds: rep('okonly', n), concurrency: c, few: true })(s);
    }, { maxSteps: 2000 });
    // many tasks: every list length and limit below, settled in one fixed order each, with a fixed pattern of failures
    const L = [];
    for (const n of [8, 16, 17, 33, 64, 65, 100, 129, 257]) for (const c of [undefined, 1, 2, 3, 7, 8, 16, 31, n - 1, n, n + 1]) for (const policy of ['first', 'last', 'middle', 'turn']) for (const bad of [0, 1]) {
        if (n > 100 && !(c === 3 || c === 31 || c >= n - 1 || c === undefined)) continue;
        L.push({ n, c, policy, bad });
    }
    await t.explore('many', L, (s, { n, c, policy, bad }) => {
        let turn = 0;
        s.choose = (k, label) => {
            const by = new Map();
            label.split('|').forEach((l, i) => { const [o, r] = l.split(':'); if (!by.has(o)) by.set(o, {}); by.get(o)[r ?? 'ok'] = i; });
            const all = [...by.keys()], at = policy === 'first' ? 0 : policy === 'last' ? all.length - 1 : policy === 'middle' ? all.length >> 1 : turn++ % all.length;
            const m = /^t(\d+)\.(\d+)$/.exec(all[at]), o = by.get(all[at]);
            // every seventh task fails once, every 19th twice (and so for good)
            return bad && m && (+m[1] % 19 === 5 ? 2 : +m[1] % 7 === 3 ? 1 : 0) >= +m[2] ? o.err ?? o.ok : o.ok;
        };
        return scenario({ kinds: rep(bad ? 'async' : 'okonly', n), concurrency: c, few: true, ...(bad ? { maxRetry: 1, onError: 'value' } : {}) })(s);
    }, { maxSteps: 4000 });
    // ---- two calls under way at the same time, each with options and callbacks of its own
    const two = (n, N, o = {}, x = {}) => ({ n, run: async (lib, gate, s, time) => {
        const log = [], runs = Array(N).fill(0), on = {}; if (x.cb) for (const k of ['onStart', 'onData', 'onRetry', 'onError']) on[k] = (...a) => { log.push([k, a[0], k === 'onData' ? a[1] : 0]); if (k === 'onError') return x.fallback; };
        const tasks = Array.from({ length: N }, (_, i) => () => { const k = runs[i]++; return gate(x.bad === i && k < (x.times ?? 9) ? { throw: new Error(`${n} ${i}.${k}`) } : `${n} ${i}`); });
        return lib.parallel(tasks, { ...o, ...on }).then(r => [r, runs, log, time()], e => ['error', e.name, String(e.message), (e.errors ?? []).map(z => z.message), e.cause?.index, x.rest ? 0 : runs]);
    } });
    const P2 = [two('a', 2, {}, { cb: true }), two('b', 3, { concurrency: 1 }), two('c', 2, { concurrency: 1, maxRetry: 1 }, { bad: 0, times: 1, cb: true }), two('d', 1, { maxRetry: 1, retryWait: 2 }, { bad: 0 }), two('e', 2, { concurrency: 2, maxRetry: 0 }, { bad: 1, cb: true, fallback: 'f' }), two('f', 0)];
    await overlap(t, 'two calls', s => base.fork({ fresh: f => /packages\/function\//.test(f), mocks: s.timerMocks }).load('@curong/function'), P2, { late: true, pairs: P2.flatMap((a, i) => P2.map((b, j) => [a, b]).slice(t.thorough ? 0 : i)) });
};
