'use strict';
const { ok, eq, fail, show } = require('../lib/util');
const { overlap } = require('../lib/overlap');
exports.technique = 'stateless model checking: every callable kind, outcome and settlement order of the real code under a controlled scheduler';
exports.bounds = 'every callable/value kind (sync, async, late promise, thenable, plain and falsy values, nested promises) x success/failure incl. falsy results and errors x fallback kinds x argument lists of length 0-3; two overlapping calls in every order of their settlements; argument lists of up to 5000';
exports.assumptions = [];
exports.run = async t => {
    const F = t.world().load('@curong/function');
    const errs = { error: new Error('e'), undef: undefined, zero: 0, nul: null, str: 'bad', falsy: false };
    const vals = { v: 'v', undef: undefined, nul: null, zero: 0, nan: NaN, empty: '', obj: { a: 1 }, arr: [], fals: false, fn: () => fail('a result that is a function was called') };
    const ARGS = [[], [1], [undefined, 0], [{ a: 1 }, [2], 'z']];
    // kinds of "task": returns {task, calls, expected()}
    const KINDS = ['plain', 'promise', 'lateP', 'sync', 'asyncfn', 'lateFn', 'retThenable', 'thenable', 'nested'];
    const make = (s, kind, ok_, key, name) => {
        const v = ok_ ? vals[key] : errs[key]; const calls = []; const out = [ok_ ? 'ok' : 'err', v];
        const th = { then(a, b) { ok_ ? a(v) : b(v); } };
        const late = () => s.op(name, [out]);
        const P = () => { const p = ok_ ? Promise.resolve(v) : Promise.reject(v); p.catch(() => {}); return p; };
        const rec = f => (...a) => { calls.push(a); return f(); };
        const task = { plain: v, promise: kind === 'promise' && P(), lateP: kind === 'lateP' && (() => { const p = late(); p.catch(() => {}); return p; })(), sync: rec(() => { if (!ok_) throw v; return v; }), asyncfn: async (...a) => { calls.push(a); if (!ok_) throw v; return v; }, lateFn: rec(late), retThenable: rec(() => th), thenable: th, nested: rec(() => Promise.resolve(P())) }[kind];
        return { task, calls, out, callable: typeof task === 'function' };
    };
    const doms = fnOnly => { const r = []; for (const k of KINDS) { if (fnOnly && ['plain', 'promise', 'lateP', 'thenable'].includes(k)) continue; for (const key of Object.keys(vals)) if (!(k === 'plain' && key === 'fn')) r.push([k, true, key]); if (k !== 'plain') for (const key of Object.keys(errs)) r.push([k, false, key]); } return r; };
    const is = (got, want, what) => ok(got && got[0] === want[0] && Object.is(got[1], want[1]), () => `${what}: got ${show(got)}, expected ${show(want)}`);
    const watch = p => { const r = {}; ok(p && typeof p.then === 'function', `returned ${show(p)}, not a promise`); Promise.resolve(p).then(v => r.out = ['ok', v], e => r.out = ['err', e]); return r; };
    const run = async (name, cfgs, call, expect, fnOnly) => t.explore(name, cfgs, (s, [[kind, o, key], args]) => {
        const m = make(s, kind, o, key, 'task'); const r = watch(call(m.task, args));
        return () => {
            is(r.out, expect(m.out), name);
            eq(m.calls, m.callable ? [args] : [], 'calls');
            ok(!s.unhandled.length, 'an unhandled rejection is left behind');
        };
    });
    const all = [...t.product(doms(false), ARGS)], fns = [...t.product(doms(true), ARGS)];
    await run('executeToPromise', all, (f, a) => F.executeToPromise(f, a), o => o);
    await run('toPromise', all, (f, a) => F.toPromise(f, a), o => o);
    await run('executeToPromise-noargs', all.filter(([, a]) => !a.length), f => F.executeToPromise(f), o => o);
    await run('toPromise-noargs', all.filter(([, a]) => !a.length), f => F.toPromise(f), o => o);
    await run('tryCatch', fns, (f, a) => F.tryCatch(f, ...a), o => o);
    await run('noCatch', all, (f, a) => F.noCatch(f, ...a), o => o[0] === 'ok' ? o : ['ok', undefined]);
    t.cases('toPromise-identity', [Promise.resolve(1), (async () => 1)()], p => ok(F.toPromise(p) === p, 'toPromise wrapped a promise'));
    // ifThrow: task kinds x fallback kinds
    const small = [['plain', true, 'v'], ['sync', true, 'undef'], ['lateFn', true, 'zero'], ['promise', true, 'nul'], ...['sync', 'asyncfn', 'lateFn', 'promise', 'lateP', 'nested', 'retThenable'].flatMap(k => ['error', 'undef', 'zero'].map(e => [k, false, e]))];
    const fb = [['none'], ...doms(false).filter(([k]) => k !== 'nested')];
    await t.explore('ifThrow', [...t.product(small, fb, ARGS.slice(0, 1).concat(ARGS.slice(2, 3)))], (s, [[k1, o1, e1], f, args]) => {
        const m = make(s, k1, o1, e1, 'task'), b = f[0] === 'none' ? { task: undefined, calls: [], out: ['ok', undefined] } : make(s, f[0], f[1], f[2], 'fallback');
        const r = watch(F.ifThrow(m.task, b.task, ...args));
        return () => {
            is(r.out, o1 ? m.out : b.out, 'ifThrow'); eq(m.calls, m.callable ? [args] : [], 'calls of the task');
            eq(b.calls, b.callable && !o1 ? [[m.out[1], ...args]] : [], 'calls of the fallback');
        };
    });
    // select
    const conds = [['plain', true, 'v'], ['plain', true, 'zero'], ['plain', true, 'nan'], ['plain', true, 'empty'], ...['sync', 'asyncfn', 'lateFn', 'promise', 'lateP', 'nested'].flatMap(k => [[k, true, 'v'], [k, true, 'fals'], [k, true, 'undef'], [k, true, 'arr'], [k, false, 'error'], [k, false, 'undef']])];
    const br = [['plain', true, 'nul'], ['sync', true, 'zero'], ['sync', false, 'error'], ['lateFn', true, 'v'], ['lateFn', false, 'undef'], ['lateP', true, 'v'], ['promise', true, 'undef'], ['thenable', true, 'v']];
    await t.explore('select', [...t.product(conds, br, [['none'], ...br], [[], [1, undefined]])], (s, [[kc, oc, ec], i, e, args]) => {
        const c = make(s, kc, oc, ec, 'cond'), A = make(s, ...i, 'if'), B = e[0] === 'none' ? { task: undefined, calls: [], out: ['ok', undefined] } : make(s, ...e, 'else');
        const r = watch(F.select(c.task, A.task, B.task, ...args));
        return () => {
            eq(c.calls, c.callable ? [args] : [], 'calls of the condition');
            const pick = !oc ? null : c.out[1] ? A : B;
            is(r.out, pick ? pick.out : c.out, 'select');
            for (const x of [A, B]) eq(x.calls, x === pick && x.callable ? [args] : [], x === A ? 'calls of doIf' : 'calls of doElse');
        };
    });
    // ---- two calls under way at the same time
    const two = (n, run) => ({ n, run });
    const fails = (g, n) => () => g({ throw: n }), works = (g, n) => () => g(n);
    await overlap(t, 'two calls', () => F, [
        two('tryCatch', async (lib, g) => lib.tryCatch((...a) => g({ throw: ['t', a] }), 1)), two('tryCatch fine', async (lib, g) => lib.tryCatch((...a) => g(['u', a]), 2)),
        two('ifThrow', async (lib, g) => lib.ifThrow(fails(g, 'bad'), (...a) => g(['instead', a]), 3)), two('ifThrow fine', async (lib, g) => lib.ifThrow(works(g, 'good'), () => g('never'), 4)),
        two('noCatch', async (lib, g) => lib.noCatch(fails(g, 'n1'), 5)), two('noCatch fine', async (lib, g) => lib.noCatch(works(g, 'n2'), 6)),
        two('select yes', async (lib, g) => lib.select(() => g(true), (...a) => g(['yes', a]), (...a) => g(['no', a]), 7)), two('select no', async (lib, g) => lib.select(() => g(false), (...a) => g(['y', a]), (...a) => g(['n', a]), 8)),
        two('toPromise', async (lib, g) => lib.toPromise((...a) => g(['p', a]), [9])), two('executeToPromise', async (lib, g) => lib.executeToPromise((...a) => g({ throw: ['e', a] }), [10])),
    ], { late: true });
    // ---- long argument lists reach every kind of task
    await t.casesAsync('arguments-far', t.product([4, 9, 17, 33, 130, 1025, 5000], ['executeToPromise', 'toPromise', 'tryCatch', 'noCatch', 'ifThrow', 'ifThrow-else', 'select-if', 'select-else'], [false, true]), async ([n, how, late]) => {
        const a = t.range(1, n), got = [], rec = (nm, f) => late ? async (...x) => { got.push([nm, x]); return f(x); } : (...x) => { got.push([nm, x]); return f(x); }, len = x => x.length; let r, want;
        if (how === 'executeToPromise' || how === 'toPromise') { r = await F[how](rec('t', len), a); want = ['t']; } else if (how === 'tryCatch' || how === 'noCatch') { r = await F[how](rec('t', len), ...a); want = ['t']; if (how === 'noCatch') r = n; }
        else if (how === 'ifThrow') { r = await F.ifThrow(rec('t', len), rec('e', len), ...a); want = ['t']; } else if (how === 'ifThrow-else') { r = await F.ifThrow(rec('t', () => { throw 'bad'; }), rec('e', x => x.length - 1), ...a); want = ['t', 'e']; }
        else { const yes = how === 'select-if'; r = await F.select(rec('c', () => yes), rec('i', len), rec('o', len), ...a); want = ['c', yes ? 'i' : 'o']; }
        eq(r, n, `${how}: result`); eq(got.map(x => x[0]), want, `${how}: calls`); if (how !== 'noCatch') for (const [nm, x] of got) { const e = nm === 'e' ? ['bad', ...a] : a; ok(x.length === e.length && x.every((y, i) => y === e[i]), () => `${how}: ${x.length} arguments of ${e.length} for ${nm}`); }
    });
};
