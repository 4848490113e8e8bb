'use strict';
// What a check module works with: suites of enumerated cases and explored scenarios, counting what ran.
const { World, literals, REPO } = require('./loader');
const { explore } = require('./sched');
const U = require('./util');

class Ctx {
    constructor(o) {
        Object.assign(this, { id: o.id, tier: o.tier, thorough: o.tier === 'thorough', shard: o.shard || 0, shards: o.shards || 1, only: o.only || null, beat: o.beat || (() => {}), deadline: o.deadline || Infinity });
        this.suites = []; this.violations = []; this.seen = new Set(); this.samples = []; this.known = o.known || new Map(); this.knownHit = new Map();
        this.stats = { evaluations: 0, transitions: 0, traces: 0, capped: [] };
        this.maxViolations = Number(process.env.VERIF_MAX_VIOLATIONS || 5); this.assumptions = [];
        Object.assign(this, U);
    }
    world(opts) { return new World(opts); }
    literals(...p) { return literals(...p); }
    get repo() { return REPO; }
    get full() { return this.violations.length >= this.maxViolations; }
    note(suite, digest) {
        const k = suite + '\u0001' + digest;
        const h = U.hash(k);
        if (!this.seen.has(h)) { if (this.seen.size < 3e6) this.seen.add(h); return true; }
        return false;
    }
    report(suite, key, message, artefact) {
        const kf = this.known.get(`${suite}/${key}`) ?? this.known.get(key);
        if (kf !== undefined) { this.knownHit.set(kf.key, (this.knownHit.get(kf.key) || 0) + 1); return; }
        if (this.violations.length < this.maxViolations) this.violations.push({ suite, key, message: String(message).slice(0, 4000), ...artefact });
    }
    // Exhaustive enumeration: fn(case) throws if the property is broken on it; its return value is the observed
    // outcome (used to count distinct states). opts.key(case): stable id of a failing case for the findings file.
    cases(suite, iterable, fn, opts = {}) {
        if (this.only && this.only.suite !== suite) return;
        const row = { suite, cases: 0, kind: 'cases' };
        this.suites.push(row);
        const si = this.suites.length;
        const t0 = process.hrtime.bigint();
        let i = -1, bad = 0;
        for (const c of iterable) {
            i++;
            if (this.shards > 1 && i % this.shards !== this.shard) continue;
            if (this.only && this.only.index !== undefined && this.only.index !== i && !this.only.through) continue;
            this.beat(si, i);
            row.cases++;
            this.stats.evaluations++;
            try {
                const out = fn(c, i);
                const d = typeof out === 'string' ? out : out === undefined ? '#' + i : U.show(out, 4);
                this.stats.transitions += opts.calls || 1;
                this.stats.traces++;
                if (this.note(suite, d) && row.cases <= 4000 && this.samples.length < 12 && (this.samples.filter(s => s.suite === suite).length < 1 || (row.cases & 255) === 7))
                    if (this.samples.filter(s => s.suite === suite).length < 2) this.samples.push({ suite, case: U.show(c, 4).slice(0, 300), outcome: d.slice(0, 300) });
            } catch (e) {
                this.stats.traces++;
                const key = opts.key ? opts.key(c) : U.show(c, 5).slice(0, 200);
                const before = this.violations.length;
                this.report(suite, key, e instanceof U.Broken ? e.message : (e && e.stack) || String(e), { index: i, case: U.show(c, 8).slice(0, 2000) });
                if (this.violations.length > before && ++bad >= 2) break;
            }
            if (this.full) break;
            if ((i & 63) === 0 && Date.now() > this.deadline) { this.stats.capped.push(`${suite} at case ${i}`); row.capped = true; break; }
        }
        row.ms = Number((process.hrtime.bigint() - t0) / 1000000n);
    }
    async casesAsync(suite, iterable, fn, opts = {}) {
        if (this.only && this.only.suite !== suite) return;
        const row = { suite, cases: 0, kind: 'cases' };
        this.suites.push(row);
        const si = this.suites.length;
        const t0 = process.hrtime.bigint();
        let i = -1, bad = 0;
        for (const c of iterable) {
            i++;
            if (this.shards > 1 && i % this.shards !== this.shard) continue;
            if (this.only && this.only.index !== undefined && this.only.index !== i && !this.only.through) continue;
            this.beat(si, i);
            row.cases++; this.stats.evaluations++;
            try {
                const out = await fn(c, i);
                const d = typeof out === 'string' ? out : out === undefined ? '#' + i : U.show(out, 4);
                this.stats.transitions += opts.calls || 1; this.stats.traces++;
                if (this.note(suite, d) && this.samples.length < 12 && this.samples.filter(s => s.suite === suite).length < 2) this.samples.push({ suite, case: U.show(c, 4).slice(0, 300), outcome: d.slice(0, 300) });
            } catch (e) {
                this.stats.traces++;
                const key = opts.key ? opts.key(c) : U.show(c, 5).slice(0, 200);
                const before = this.violations.length;
                this.report(suite, key, e instanceof U.Broken ? e.message : (e && e.stack) || String(e), { index: i, case: U.show(c, 8).slice(0, 2000) });
                if (this.violations.length > before && ++bad >= 2) break;
            }
            if (this.full) break;
            if (Date.now() > this.deadline) { this.stats.capped.push(`${suite} at case ${i}`); row.capped = true; break; }
        }
        row.ms = Number((process.hrtime.bigint() - t0) / 1000000n);
    }
    // Exhaustive exploration of all schedules of scenario(s, config) for every configuration.
    async explore(suite, configs, scenario, opts = {}) {
        if (this.only && this.only.suite !== suite) return;
        const row = { suite, cases: 0, executions: 0, steps: 0, kind: 'schedules' };
        this.suites.push(row);
        const si = this.suites.length;
        const t0 = process.hrtime.bigint();
        let ci = -1, bad = 0;
        for (const cfg of configs) {
            ci++;
            if (this.shards > 1 && ci % this.shards !== this.shard) continue;
            if (this.only && this.only.index !== undefined && this.only.index !== ci) continue;
            row.cases++;
            let hit = false;
            const st = await explore(s => scenario(s, cfg), {
                opts: { maxSteps: 60, ...opts }, replay: this.only && this.only.choices, max: opts.maxExec,
                stop: () => hit || this.full || Date.now() > this.deadline,
                onExec: (s, err) => {
                    this.beat(si, ci);
                    row.executions++; row.steps += s.steps; this.stats.evaluations++; this.stats.transitions += s.steps; this.stats.traces++;
                    if (s.horizon && !err && !opts.allowHorizon) err = new U.Broken(`no quiescence within ${opts.maxSteps || 60} steps`);
                    const d = s.trace.map(e => e.map(x => typeof x === 'string' ? x : U.show(x, 2)).join(' ')).join('; ');
                    if (this.note(suite, d) && !err && this.samples.length < 12 && this.samples.filter(x => x.suite === suite).length < 2 && s.choices.length) this.samples.push({ suite, config: U.show(cfg, 3).slice(0, 200), schedule: s.choices.map(c => c.label.split('|')[c.c] ?? c.c).join(' ').slice(0, 250), trace: d.slice(0, 300) });
                    if (err) {
                        const before = this.violations.length;
                        const key = opts.key ? opts.key(cfg, s) : U.show(cfg, 5).slice(0, 160);
                        this.report(suite, key, err instanceof U.Broken ? err.message : (err && err.stack) || String(err), { index: ci, config: U.show(cfg, 5).slice(0, 1500), choices: s.choices.map(c => c.c), schedule: s.choices.map(c => c.label.split('|')[c.c] ?? c.c), trace: d.slice(0, 3000) });
                        if (this.violations.length > before) hit = true;
                    }
                }
            });
            if (st.capped && !hit && !this.full) { this.stats.capped.push(`${suite} config ${ci}`); row.capped = true; }
            if (hit && ++bad >= 2) break;
            if (this.full || Date.now() > this.deadline) break;
        }
        row.ms = Number((process.hrtime.bigint() - t0) / 1000000n);
    }
}
module.exports = { Ctx };
