'use strict';
const { ok, eq, fail, show, attempt } = require('../lib/util');
const { overlap } = require('../lib/overlap');
exports.technique = 'stateless model checking: all schedules of settlement, timers and cancellation of the real code under a virtual clock';
exports.bounds = 'durations 0-5 and 1000, work that is sync/async/promise/value with success or failure settling at every time around the duration (ties in both orders), abort with every payload kind before/after/with settlement, all settle sequences of length 3 of a deferred; two overlapping calls in every order of their settlements; sleep with zero, positive and negative durations';
exports.assumptions = ['time advances only through timers'];
exports.run = async t => {
    const base = t.world(); base.load('@curong/function');
    const fresh = s => base.fork({ fresh: f => /packages\/function\//.test(f), mocks: s.timerMocks }).load('@curong/function');
    const outcome = (p, s) => { const r = {}; p.then(v => r.out = ['ok', v, s.now], e => r.out = ['err', e, s.now]); return r; };
    const ERR = [new Error('x'), undefined, 0];
    const argv = [1, undefined, 'z'];
    await t.explore('delay', [0, 1, 2, 1000, 2147483647, '5', () => 3, [4], -1, { start: 2, end: 2 }], (s, d) => {
        const want = Math.max(0, typeof d === 'function' ? 3 : Array.isArray(d) ? 4 : typeof d === 'object' ? 2 : Number(d));
        const r = outcome(fresh(s).delay(d), s);
        return () => { eq(r.out, ['ok', undefined, want], `delay(${show(d)})`); eq(s.timers.length, 0); };
    });
    const basep = t.world(); basep.load('@curong/process');
    await t.explore('sleep', t.product([0, 1, 2, 7, 1000, 2147483647], [null, 0, 1, 7]), (s, [d, d2]) => {
        const { sleep } = basep.fork({ fresh: f => /packages\/process\//.test(f), mocks: s.timerMocks }).load('@curong/process');
        const r = outcome(sleep(d), s), q = d2 === null ? null : outcome(sleep(d2), s);
        const right = (o, d, l) => ok(o && o[0] === 'ok' && o[1] === undefined && (o[2] === d || o[2] === Math.max(1, d)), () => `${l}: ${show(o)}`); // the host makes 1 ms of 0
        return () => { right(r.out, d, `sleep(${d})`); if (q) right(q.out, d2, `sleep(${d2}) at the same time`); eq(s.timers.length, 0); };
    });
    const D = [];
    for (const d of [0, 1, 3, 5, 1000]) for (const kind of ['async', 'sync', 'promise']) for (const at of kind === 'sync' ? [0] : [0, 1, d - 1, d, d + 1, 2 * d].filter((x, i, a) => x >= 0 && a.indexOf(x) === i)) for (const e of [0, 1, 2]) for (const form of [x => x, x => () => x]) D.push({ d, kind, at, e, form });
    const work = (s, { kind, at, e }, log) => {
        const outs = [['ok', e === 1 ? undefined : 'v'], ['err', ERR[e]]];
        const set = (k, v) => { log.res = [k, v, s.now]; };
        if (kind === 'promise') { const p = s.op('w', outs, { at, onSettle: set }); p.catch(() => {}); return p; }
        return (...a) => {
            log.calls.push([s.now, a]);
            if (kind === 'async') return s.op('w', outs, { at, onSettle: set });
            const k = s.choose(2, 'sync'); set(...outs[k]); if (k) throw outs[k][1]; return outs[k][1];
        };
    };
    await t.explore('delayRun', D.filter(x => x.kind !== 'promise'), (s, c) => {
        const log = { calls: [] };
        const r = outcome(fresh(s).delayRun(c.form(c.d), work(s, c, log), ...argv), s);
        return () => {
            eq(log.calls, [[c.d, argv]], 'calls of the task (time, arguments)');
            ok(r.out && r.out[0] === log.res[0] && Object.is(r.out[1], log.res[1]), `got ${show(r.out)}, task gave ${show(log.res)}`);
            eq(r.out[2], log.res[2], 'time of settlement'); eq(s.timers.length, 0);
        };
    });
    await t.explore('delayReturn', D, (s, c) => {
        const log = { calls: [] };
        const r = outcome(fresh(s).delayReturn(c.form(c.d), work(s, c, log), ...argv), s);
        return () => {
            if (c.kind !== 'promise') eq(log.calls, [[0, argv]], 'calls of the task (time, arguments)');
            ok(r.out, 'never settles');
            ok(r.out[0] === log.res[0] && Object.is(r.out[1], log.res[1]), `got ${show(r.out)}, task gave ${show(log.res)}`);
            const want = Math.max(c.d, log.res[2]);
            ok(r.out[2] === want, `settled at ${r.out[2]}, expected ${want} (task settled at ${log.res[2]}, duration ${c.d})`);
        };
    });
    await t.explore('padding', D.filter(x => x.d === 1).concat([{ kind: 'value', v: 0 }, { kind: 'value', v: null }, { kind: 'value', v: 'x' }]), (s, c) => {
        const log = { calls: [] };
        const r = outcome(fresh(s).padding(c.kind === 'value' ? c.v : work(s, c, log), ...argv), s);
        return () => {
            ok(r.out, 'never settles'); ok(r.out[0] === 'ok', 'rejected');
            if (c.kind === 'value') return eq(r.out[1], [c.v, null]);
            if (c.kind !== 'promise') eq(log.calls, [[0, argv]], 'calls');
            const [k, v] = log.res;
            ok(Array.isArray(r.out[1]) && r.out[1].length === 2, show(r.out[1]));
            ok(k === 'ok' ? Object.is(r.out[1][0], v) && r.out[1][1] === null : r.out[1][0] === null && Object.is(r.out[1][1], v), `got ${show(r.out[1])} for ${show(log.res)}`);
        };
    });
    // deferred: settles as first told
    const acts = ['resolve', 'resolve2', 'reject', 'reject2', 'resolveP', 'resolveR'];
    await t.explore('deferred', [...t.words(acts, 0, 3)], (s, seq) => {
        const { deferred } = fresh(s); const d = deferred(), other = deferred(); let n = 0; const errs = [new Error('r1'), undefined];
        const r = outcome(d.promise, s), r2 = outcome(other.promise, s); ok(r2.out === undefined);
        let locked = null;
        seq.forEach((a, i) => s.event(a + i, () => {
            n = i + 1;
            let v;
            if (a === 'resolve') v = ['ok', 'a']; if (a === 'resolve2') v = ['ok', undefined]; if (a === 'reject') v = ['err', errs[0]]; if (a === 'reject2') v = ['err', errs[1]];
            if (a === 'resolveP') { v = ['ok', 'late']; d.resolve(s.op('late' + i, [['ok', 'late']])); } else if (a === 'resolveR') { v = ['err', 'lateE']; const p = s.op('late' + i, [['err', 'lateE']]); p.catch(() => {}); d.resolve(p); } else v[0] === 'ok' ? d.resolve(v[1]) : d.reject(v[1]);
            locked ||= v;
        }, { enabled: () => n === i }));
        return () => { ok(!r2.out, 'another deferred settled'); if (!locked) ok(!r.out, 'settled by itself'); else ok(r.out && r.out[0] === locked[0] && Object.is(r.out[1], locked[1]), `settled ${show(r.out)}, first told ${show(locked)}`); };
    });
    // cancelExec
    const P = { none: [], undef: [undefined], null: [null], value: ['stop'], zero: [0], fn: 'fn', throw: 'throw', prom: 'prom', rejprom: 'rej', async: 'async' };
    const C = [];
    for (const kind of ['async', 'sync', 'promise', 'never']) for (const e of [0, 1, 2]) for (const pay of ['noabort', ...Object.keys(P)]) for (const twice of [false, true]) if (!(pay === 'noabort' && (twice || kind === 'never'))) C.push({ kind, e, pay, twice });
    await t.explore('cancelExec', C, (s, c) => {
        const log = { calls: [] }, plog = []; const perr = new Error('p');
        const task = c.kind === 'never' ? (...a) => { log.calls.push([s.now, a]); return new Promise(() => {}); } : work(s, { ...c, at: undefined }, log);
        const [promise, abort] = fresh(s).cancelExec(task, ...argv);
        const r = outcome(promise, s); let first = null, sawAbort = 0;
        s.unhandledExpected = ['throw', 'async'].includes(c.pay); // a payload that fails after the outcome is settled is nobody's
        if (log.res) first = 'work';
        const doAbort = n => {
            sawAbort++; if (!first) first = log.res ? 'work' : 'abort';
            if (n) return abort('second');
            const p = P[c.pay];
            if (Array.isArray(p)) abort(...p);
            else if (p === 'fn') abort((...a) => { plog.push(a); return 'pv'; });
            else if (p === 'throw') abort((...a) => { plog.push(a); throw perr; });
            else if (p === 'prom') abort(Promise.resolve('pv'));
            else if (p === 'rej') { const q = Promise.reject(perr); q.catch(() => {}); abort(q); }
            else abort((...a) => { plog.push(a); return s.op('pay', [['ok', 'pv'], ['err', perr]], { onSettle: (k, v) => log.pay = [k, v] }); });
        };
        if (c.pay !== 'noabort') { s.event('abort', () => doAbort(0)); if (c.twice) s.event('abort2', () => doAbort(1), { enabled: () => sawAbort === 1 }); }
        return () => {
            if (c.kind !== 'promise') eq(log.calls, [[0, argv]], 'calls of the task');
            ok(r.out, 'never settles');
            if (first === 'work' || !first) { ok(r.out[0] === log.res[0] && Object.is(r.out[1], log.res[1]), `got ${show(r.out)}, the work finished first with ${show(log.res)}`); return; }
            const exp = { none: ['ok', undefined], undef: ['ok', undefined], null: ['ok', null], value: ['ok', 'stop'], zero: ['ok', 0], fn: ['ok', 'pv'], throw: ['err', perr], prom: ['ok', 'pv'], rejprom: ['err', perr], async: log.pay }[c.pay];
            ok(r.out[0] === exp[0] && Object.is(r.out[1], exp[1]), `aborted before the work finished: got ${show(r.out)}, expected ${show(exp)}`);
            if (['fn', 'throw', 'async'].includes(c.pay)) eq(plog, [argv], 'calls of the abort payload');
        };
    });
    // delaySync: blocks until the time has passed, no longer
    t.cases('delaySync', t.product([0, 1, 2, 5, 1000], [1, 2, 7]), ([d, step]) => {
        const RD = Date; let now = 5000; const g = globalThis; const pn = performance.now; let reads = 0;
        const V = function (...a) { return a.length ? new RD(...a) : new RD(now += step); }; V.now = () => { if (++reads > 1e5) fail('does not stop'); return now += step; }; V.prototype = RD.prototype;
        g.Date = V; performance.now = () => now += step;
        try { const start = now; base.load('@curong/function').delaySync(d); ok(now - start >= d, `returned after ${now - start} ms of ${d}`); ok(now - start <= d + 3 * step, `returned after ${now - start} ms of ${d}`); } finally { g.Date = RD; performance.now = pn; }
    });
    // ---- two calls under way at the same time, the second started at any moment of the first
    const two = (n, run) => ({ n, run });
    const D2 = [
        two('delay 3', async (lib, g, s, time) => { await lib.delay(3); return time(); }), two('delay 5', async (lib, g, s, time) => { await lib.delay(5); return time(); }),
        two('delayRun', async (lib, g, s, time) => { const log = []; const v = await lib.delayRun(4, (...a) => { log.push([a, time()]); return g('x', { at: 2 }); }, 'p'); return [v, log, time()]; }),
        two('delayReturn short', async (lib, g, s, time) => { const log = []; const v = await lib.delayReturn(6, (...a) => { log.push([a, time()]); return g('y', { at: 1 }); }, 'q'); return [v, log, time()]; }),
        two('delayReturn long', async (lib, g, s, time) => { const v = await lib.delayReturn(2, () => g('z', { at: 7 })); return [v, time()]; }),
        two('padding', async (lib, g) => lib.padding((...a) => g([a, 'w']), 'r')), two('padding failing', async (lib, g) => lib.padding(() => g({ throw: 'bad' }))),
        two('cancelExec', async (lib, g, s) => { const [p, abort] = lib.cancelExec(() => g('late', { at: 9 }), 1); s.event('stop', () => abort('stopped'), { at: 2 }); return p; }), two('cancelExec done', async (lib, g) => lib.cancelExec((...a) => g(['early', a], { at: 1 }), 2)[0]),
        two('deferred', async (lib, g, s) => { const d = lib.deferred(); s.event('res', () => d.resolve('mine'), { at: 3 }); return d.promise; }), two('deferred failing', async (lib, g, s) => { const d = lib.deferred(); s.event('rej', () => d.reject('his'), { at: 1 }); return d.promise; }),
    ];
    await overlap(t, 'two calls', fresh, D2, { late: true });
};
