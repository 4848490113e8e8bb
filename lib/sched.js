'use strict';
// Controlled host: virtual clock and timers, explorer-settled operations, and a depth-first explorer that
// replays every choice sequence from a fresh start. All sources of asynchrony of the code under test go
// through one Sched; promise reactions run to quiescence between steps (or, with sameTick, steps may be
// taken back to back before they run).
const real = {
    setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout,
    setInterval: globalThis.setInterval, clearInterval: globalThis.clearInterval,
    setImmediate: globalThis.setImmediate, clearImmediate: globalThis.clearImmediate,
    Date: globalThis.Date, random: Math.random, performanceNow: globalThis.performance.now
};
const BASE = Date.UTC(2024, 0, 15, 12, 0, 0);
const drain = () => new Promise(r => real.setImmediate(r));

class Timeout {
    constructor(s, kind, fn, ms, args) {
        this.s = s; this.kind = kind; this.fn = fn; this.args = args;
        ms = kind === 'immediate' ? 0 : +ms;
        this.raw = ms;
        // the rule of the host (Node): anything outside 1..2^31-1 becomes 1
        if (kind !== 'immediate' && !(ms >= 1 && ms <= 2147483647)) ms = 1;
        this.ms = Math.trunc(ms); this.id = ++s.timerId; this.seq = ++s.seq;
        this.due = s.now + this.ms; this.dead = false;
    }
    ref() { return this; } unref() { return this; } hasRef() { return !this.dead; }
    refresh() { this.due = this.s.now + this.ms; this.seq = ++this.s.seq; return this; }
    close() { this.s.clear(this); return this; }
    [Symbol.toPrimitive]() { return this.id; }
    [Symbol.dispose ?? Symbol('dispose')]() { this.s.clear(this); }
}

class Sched {
    constructor(prefix, opts = {}) {
        this.prefix = prefix; this.opts = opts; this.choices = []; this.now = 0; this.seq = 0; this.timerId = 0;
        this.timers = []; this.ops = []; this.trace = []; this.unhandled = []; this.steps = 0; this.cleared = [];
        this.errors = [];
    }
    choose(n, label) {
        if (n <= 1) return 0;
        const i = this.choices.length;
        let c = 0;
        if (i < this.prefix.length) {
            c = this.prefix[i];
            if (c >= n) throw new Error(`replay diverged at choice ${i} (${label}): ${c} >= ${n}`);
        }
        this.choices.push({ c, n, label });
        return c;
    }
    pick(arr, label) { return arr[this.choose(arr.length, label)]; }
    log(...e) { this.trace.push([this.now, ...e]); }
    // an operation whose outcome and moment the explorer decides. outcomes: [[ 'ok', v ] | [ 'err', e ]]
    op(label, outcomes = [['ok', label]], o = {}) {
        return new Promise((res, rej) => {
            const due = o.at === undefined ? this.now : this.now + o.at;
            this.ops.push({ label, due, exact: o.at !== undefined, seq: ++this.seq, outcomes,
                run: k => { const [kind, v] = outcomes[k]; this.log('settle', label, kind); if (o.onSettle) o.onSettle(kind, v); kind === 'ok' ? res(v) : rej(v); } });
        });
    }
    // an event of the environment (a user action, a stream event): runs once, when the explorer picks it
    event(label, fn, o = {}) {
        const due = o.at === undefined ? this.now : this.now + o.at;
        const e = { label, due, exact: o.at !== undefined, seq: ++this.seq, outcomes: [0], after: o.after, enabled: o.enabled, run: () => { this.log('event', label); fn(); } };
        this.ops.push(e);
        return e;
    }
    clear(t) {
        if (t == null) return;
        if (typeof t !== 'object') t = this.timers.find(x => x.id === Number(t));
        if (!t || t.s !== this) return;
        t.dead = true;
        const i = this.timers.indexOf(t);
        if (i >= 0) this.timers.splice(i, 1);
    }
    install() {
        const s = this, g = globalThis;
        const mk = kind => (fn, ms, ...args) => {
            if (typeof fn !== 'function') throw new TypeError('The "callback" argument must be of type function');
            const t = new Timeout(s, kind, fn, ms, args);
            s.timers.push(t);
            return t;
        };
        g.setTimeout = mk('timeout'); g.setInterval = mk('interval');
        g.setImmediate = (fn, ...args) => mk('immediate')(fn, 0, ...args);
        g.clearTimeout = g.clearInterval = g.clearImmediate = t => s.clear(t);
        const RD = real.Date;
        const VDate = function (...a) {
            if (!new.target) return new RD(BASE + s.now).toString();
            return a.length ? Reflect.construct(RD, a, new.target) : Reflect.construct(RD, [BASE + s.now], new.target);
        };
        Object.setPrototypeOf(VDate, RD); VDate.prototype = RD.prototype;
        VDate.now = () => BASE + s.now;
        g.Date = VDate;
        g.performance.now = () => 1000 + s.now;
        const P = (ms, v) => new Promise(r => g.setTimeout(r, ms, v));
        this.timerMocks = {
            timers: { setTimeout: g.setTimeout, setInterval: g.setInterval, setImmediate: g.setImmediate, clearTimeout: g.clearTimeout, clearInterval: g.clearTimeout, clearImmediate: g.clearTimeout },
            'timers/promises': { setTimeout: P, setImmediate: v => new Promise(r => g.setImmediate(r, v)) }
        };
    }
    uninstall() {
        const g = globalThis;
        Object.assign(g, { setTimeout: real.setTimeout, clearTimeout: real.clearTimeout, setInterval: real.setInterval, clearInterval: real.clearInterval, setImmediate: real.setImmediate, clearImmediate: real.clearImmediate, Date: real.Date });
        g.performance.now = real.performanceNow;
        Math.random = real.random;
    }
    enabled() {
        const timers = this.timers.slice().sort((a, b) => a.due - b.due || a.seq - b.seq);
        const ops = this.ops.filter(o => !o.enabled || o.enabled());
        const nextT = timers.length ? timers[0].due : Infinity;
        const nextExact = Math.min(Infinity, ...ops.filter(o => o.exact).map(o => o.due));
        const lim = Math.max(this.now, Math.min(nextT, nextExact));
        const out = [];
        for (const o of ops) if (o.due <= lim) o.outcomes.forEach((_, k) => out.push({ o, k, label: o.label + (o.outcomes.length > 1 ? ':' + o.outcomes[k][0] : '') }));
        if (timers.length && nextT <= Math.max(this.now, nextExact)) out.push({ t: timers[0], label: 'timer@' + timers[0].due });
        return out;
    }
    async run() {
        const max = this.opts.maxSteps ?? 200;
        for (;;) {
            await drain();
            if (this.opts.onQuiet) this.opts.onQuiet(this);
            let more = true;
            while (more) {
                const en = this.enabled();
                if (!en.length) return;
                if (++this.steps > max) { this.horizon = true; return; }
                const e = en[this.choose(en.length, en.map(x => x.label).join('|'))];
                if (e.t) {
                    const t = e.t;
                    this.timers.splice(this.timers.indexOf(t), 1);
                    this.now = Math.max(this.now, t.due);
                    if (t.kind === 'interval') { t.due = this.now + t.ms; t.seq = ++this.seq; this.timers.push(t); } else t.dead = true;
                    this.log('timer', t.due);
                    try { t.fn.apply(t, t.args); } catch (x) { this.errors.push(x); this.log('uncaught', String(x && x.message || x)); }
                } else {
                    this.ops.splice(this.ops.indexOf(e.o), 1);
                    if (e.o.exact) this.now = Math.max(this.now, e.o.due);
                    try { e.o.run(e.k); } catch (x) { this.errors.push(x); this.log('uncaught', String(x && x.message || x)); }
                }
                more = this.opts.sameTick && this.enabled().length ? this.choose(2, 'tick') === 1 : false;
            }
        }
    }
}

let current = null;
process.on('unhandledRejection', (e, p) => { if (current) current.unhandled.push(e); });

// Runs scenario(s) under every choice sequence. scenario sets things up and returns a function
// `finish()` that is called at quiescence and throws if the property is broken.
async function explore(scenario, { opts = {}, replay, max = Infinity, onExec, stop } = {}) {
    let prefix = replay ? replay.slice() : [];
    const stat = { executions: 0, transitions: 0, capped: false };
    for (;;) {
        const s = new Sched(prefix, opts);
        current = s;
        s.install();
        let err = null;
        try {
            const finish = await scenario(s);
            await s.run();
            await drain();
            if (s.choices.length < prefix.length) throw new Error('replay diverged: execution ended early');
            if (finish) await finish();
            if (s.errors.length && !s.errorsExpected) throw new Error('uncaught: ' + String((s.errors[0] && s.errors[0].stack) || s.errors[0]));
            if (s.unhandled.length && !s.unhandledExpected) throw new Error('unhandled rejection: ' + String((s.unhandled[0] && s.unhandled[0].stack) || s.unhandled[0]));
        } catch (e) { err = e; } finally { s.uninstall(); current = null; }
        stat.executions++; stat.transitions += s.steps;
        if (onExec) onExec(s, err);
        if (replay) return stat;
        if (stop && stop()) { stat.capped = true; return stat; }
        let i = s.choices.length - 1;
        while (i >= 0 && s.choices[i].c + 1 >= s.choices[i].n) i--;
        if (i < 0) return stat;
        prefix = s.choices.slice(0, i).map(x => x.c);
        prefix.push(s.choices[i].c + 1);
        if (stat.executions >= max) { stat.capped = true; return stat; }
    }
}
module.exports = { Sched, explore, drain, real, BASE };
