#!/usr/bin/env node
'use strict';
// node run.js <ID> [--tier quick|thorough] [--replay FILE] [--list]
// Exit 0: the property held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');
const fs = require('fs'), path = require('path');
const HERE = __dirname;
const HANG_MS = Number(process.env.VERIF_HANG_MS || 90000);

function readKnown(id) {
    const m = new Map();
    let text = '';
    try { text = fs.readFileSync(path.join(HERE, 'known-findings.txt'), 'utf8'); } catch {}
    for (const l of text.split('\n')) {
        const r = /^KNOWN property=(\S+) key=(\S+) (.*)$/.exec(l);
        if (r && r[1] === id) { const key = decodeURIComponent(r[2]); m.set(key, { key, text: r[3] }); }
    }
    return m;
}

if (!isMainThread) {
    const { id, tier, shard, shards, only, sab, deadline } = workerData;
    const view = new Int32Array(sab);
    const { Ctx } = require('./lib/ctx');
    const check = require(path.join(HERE, 'checks', id + '.js'));
    const ctx = new Ctx({ id, tier, shard, shards, only, deadline, known: readKnown(id), beat: (s, i) => { view[0] = s; view[1] = i; view[2]++; } });
    (async () => {
        try {
            await check.run(ctx);
            parentPort.postMessage({ done: true, violations: ctx.violations, stats: ctx.stats, distinct: ctx.seen.size, samples: ctx.samples, suites: ctx.suites, known: [...ctx.knownHit.keys()], assumptions: check.assumptions || [], rule: check.rule || '' });
        } catch (e) { parentPort.postMessage({ done: true, error: (e && e.stack) || String(e), violations: ctx.violations, stats: ctx.stats, distinct: ctx.seen.size, samples: ctx.samples, suites: ctx.suites, known: [], assumptions: [], rule: '' }); }
    })();
    return;
}

const args = process.argv.slice(2);
const id = args[0];
const opt = n => { const i = args.indexOf('--' + n); return i > 0 ? args[i + 1] : undefined; };
const tier = opt('tier') || process.env.VERIF_TIER || 'quick';
const seed = Number(process.env.VERIF_SEED || 1) || 1;
const started = Date.now();
const check = require(path.join(HERE, 'checks', id + '.js'));
let only = null;
if (opt('replay')) only = JSON.parse(fs.readFileSync(opt('replay'), 'utf8'));
else if (opt('suite')) only = { suite: opt('suite') };
const shards = only ? 1 : Number(opt('shards') || (tier === 'thorough' ? check.shardsThorough || check.shards || 8 : check.shards || 1));
const budget = Number(process.env.VERIF_BUDGET_MS || (tier === 'thorough' ? 3600e3 : 600e3));

async function oneShard(shard) {
    const sab = new SharedArrayBuffer(16);
    const view = new Int32Array(sab);
    const w = new Worker(__filename, { workerData: { id, tier, shard, shards, only, sab, deadline: started + budget }, resourceLimits: { maxOldGenerationSizeMb: shards > 1 ? 3000 : 6000, stackSizeMb: check.stackMb || 4 } });
    return await new Promise(resolve => {
        let last = -1, lastAt = Date.now(), names = [];
        const iv = setInterval(() => {
            if (view[2] !== last) { last = view[2]; lastAt = Date.now(); }
            else if (Date.now() - lastAt > HANG_MS) {
                clearInterval(iv);
                w.terminate();
                resolve({ hang: { suiteNo: view[0], index: view[1] }, beats: view[2] });
            }
        }, 500);
        w.on('message', m => { clearInterval(iv); resolve(m); w.terminate(); });
        w.on('error', e => { clearInterval(iv); resolve({ crash: (e && e.stack) || String(e), at: { suiteNo: view[0], index: view[1] }, beats: view[2] }); });
        w.on('exit', c => { clearInterval(iv); resolve({ crash: 'worker exited ' + c, at: { suiteNo: view[0], index: view[1] }, beats: view[2] }); });
    });
}

(async () => {
    const rs = await Promise.all(Array.from({ length: shards }, (_, i) => oneShard(i)));
    let violations = [], err = null;
    const tot = { evaluations: 0, transitions: 0, traces: 0, distinct: 0, capped: [] };
    const suites = new Map(); const samples = []; const known = new Set(); let assumptions = [], rule = '';
    rs.forEach((r, sh) => {
        if (r.hang) { if (r.beats > 0) violations.push({ suite: '#' + r.hang.suiteNo, key: 'hang', message: `no progress for ${HANG_MS} ms: the code under test does not terminate`, index: r.hang.index, hang: true }); else err = 'no progress before the first case'; return; }
        const own = x => /[\\/]packages[\\/][a-z]+[\\/]src[\\/]/.test(x); // thrown by the code under test, outside of the calls a case watches
        if (r.crash) {
            const what = r.crash === 'worker exited 0' ? 'a promise never settles: nothing is left that could settle it' : /memory|heap|stack/i.test(r.crash) ? 'the code under test exhausted memory: ' + r.crash : own(r.crash) ? 'the code under test fails outside of its calls: ' + r.crash : null;
            if (r.beats > 0 && what) violations.push({ suite: '#' + r.at.suiteNo, key: 'crash', message: what, index: r.at.index }); else err = r.crash;
            return;
        }
        if (r.error) { if (own(r.error) && r.suites.length) violations.push({ suite: r.suites.at(-1).suite, key: 'error', message: 'the code under test fails between two cases: ' + r.error, index: 0 }); else err = r.error; }
        violations.push(...r.violations);
        for (const k of ['evaluations', 'transitions', 'traces']) tot[k] += r.stats[k];
        tot.capped.push(...r.stats.capped); tot.distinct += r.distinct;
        for (const s of r.suites) { const o = suites.get(s.suite) || { suite: s.suite, kind: s.kind, cases: 0, ...(s.executions !== undefined ? { executions: 0, steps: 0 } : {}), ms: 0 }; o.cases += s.cases; if (s.executions !== undefined) { o.executions += s.executions; o.steps += s.steps; } o.ms = Math.max(o.ms, s.ms || 0); suites.set(s.suite, o); }
        if (sh === 0) samples.push(...r.samples);
        r.known.forEach(k => known.add(k)); if (r.assumptions.length) assumptions = r.assumptions; if (r.rule) rule = r.rule;
    });
    const kf = readKnown(id);
    for (const k of known) console.log(`KNOWN-FINDING: property=${id} ${kf.get(k).text}`);
    if (args.includes('--list') || process.env.VERIF_VERBOSE) for (const s of suites.values()) console.log(`  ${s.suite}: ${s.cases} ${s.kind === 'schedules' ? `configurations, ${s.executions} executions, ${s.steps} steps` : 'cases'} (${s.ms} ms)`);
    const wall = (Date.now() - started) / 1000;
    if (!only) {
        fs.mkdirSync(path.join(HERE, 'evidence'), { recursive: true });
        const level = check.level || 'model_checking';
        const cover = { exhaustive: tot.capped.length === 0 && !err, capped: tot.capped.slice(0, 20), shards, suites: [...suites.values()].slice(0, 120), samples: samples.slice(0, 12), bounds: check.bounds || '' };
        if (level === 'model_checking') Object.assign(cover, { states: tot.distinct, transitions: tot.transitions, traces_validated_against_impl: tot.traces, how_validated: 'every trace is an execution of the real code of /repo compared step by step with the reference model; states are distinct observed (suite, outcome/trace) digests' });
        else Object.assign(cover, { evaluations: tot.evaluations, distinct_nontrivial: tot.distinct, rule: rule || 'distinct observed outcomes' });
        const ev = { property: id, tier: tier === 'thorough' ? 'thorough' : 'quick', seed, level, coverage: cover, assumptions, wall_s: wall, violations: violations.length };
        let text = JSON.stringify(ev, null, 1);
        if (text.length > 60000) { cover.suites = cover.suites.slice(0, 40); cover.samples = cover.samples.slice(0, 4); text = JSON.stringify(ev); }
        fs.writeFileSync(path.join(HERE, 'evidence', id + '.json'), text + '\n');
    }
    if (violations.length) {
        const dir = path.join(HERE, 'replays');
        fs.mkdirSync(dir, { recursive: true });
        const names = [...suites.keys()];
        violations.slice(0, 5).forEach((v, n) => {
            const f = path.join(dir, `${id}-${n + 1}.json`);
            if (!only) fs.writeFileSync(f, JSON.stringify({ property: id, tier, ...v }, null, 1) + '\n');
            console.log(`-- ${v.suite} [${v.index}] ${v.case || v.config || ''}\n   ${v.message}${v.schedule ? '\n   schedule: ' + v.schedule.join(' ') : ''}${v.trace ? '\n   trace: ' + v.trace.slice(0, 800) : ''}`);
            console.log(`VIOLATION property=${id} replay=${f}`);
        });
        process.exit(1);
    }
    if (err) { console.error(err); process.exit(2); }
    console.log(`OK ${id} ${tier}: ${tot.evaluations} executions, ${tot.transitions} transitions, ${tot.distinct} distinct states, ${wall.toFixed(1)} s${tot.capped.length ? ' CAPPED ' + tot.capped.length : ''}`);
    process.exit(0);
})();
