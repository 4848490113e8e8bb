'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const cp = require('child_process'), os = require('os'), nodeUtil = require('util'), { EventEmitter } = require('events'), { Readable, Writable } = require('stream');
exports.technique = 'exhaustive enumeration of all interleavings of the events of a scripted child process (output chunks of both streams, their ends and errors, exit, error, close) fed to the real code, against the result the interleaving demands';
exports.bounds = 'every spawn option beside eight event orders; all interleavings of up to three chunks per stream with ends, a failure of any one stream or of the process at any point, exit and close; all standard-stream settings; plus runs of real child processes';
exports.assumptions = ["the operating system reports 'close' only after both streams have ended or failed", 'in text form surrounding white space may be removed, as the code does'];
exports.shards = 4;
const tick = () => new Promise(r => setImmediate(r));
exports.run = async t => {
    let last = null, next = null;
    const mk = stdio => {
        const c = new EventEmitter(); const has = fd => stdio === undefined || stdio === null || stdio === 'pipe' || Array.isArray(stdio) && (stdio[fd] === undefined || stdio[fd] === null || stdio[fd] === 'pipe');
        c.stdout = has(1) ? new Readable({ read() {} }) : null; c.stderr = has(2) ? new Readable({ read() {} }) : null; c.stdin = has(0) ? new Writable({ write(b, e, cb) { cb(); } }) : null; c.stdio = [c.stdin, c.stdout, c.stderr]; c.pid = 4242; c.exitCode = null; c.signalCode = null; c.kill = () => true; c.ref = c.unref = () => {}; return c;
    };
    const fake = { ...cp, spawn: (cmd, args, opts) => { if (next) { const e = next; next = null; throw e; } last = { cmd, args, opts, child: mk(opts && opts.stdio) }; return last.child; } }; fake.default = fake;
    const P = t.world({ mocks: { child_process: fake } }).load('@curong/process');
    const uncaught = []; const on = e => { uncaught.push(e); }; process.on('uncaughtException', on); process.on('unhandledRejection', on);
    const begin = (opts, cmd = 'prog', args = ['a']) => { const p = P.spawn(cmd, args, opts); const run = { ...last, n: 0, p }; run.settled = null; p.then(v => { run.n++; run.settled = { ok: true, value: v }; }, e => { run.n++; run.settled = { ok: false, error: e }; }); return run; };
    const text = (got, bytes, l) => ok(got === bytes.toString() || got === bytes.toString().trim(), `${l}: got ${show(got)}, the child wrote ${show(bytes.toString())}`);
    const streams = (r, run, opts, out, l) => { for (const [k, fd] of [['stdout', 1], ['stderr', 2]]) { const e = Buffer.concat(out[fd]); if (!run.child[k]) eq(r[k], null, `${l}: ${k}, which is no pipe`); else if (opts && opts.isToString === false) { ok(Buffer.isBuffer(r[k]), `${l}: ${k} is no buffer`); eq(r[k].toString('hex'), e.toString('hex'), `${l}: ${k}`); } else text(r[k], e, `${l}: ${k}`); } };
    // one run: events is a list of strings o0.. e0.. (chunks), oe ee (ends), oX eX (stream errors), x (exit), c (close), E (error)
    const play = async (events, opts, data, status, signal) => {
        const run = begin(opts), out = { 1: [], 2: [] }, l = `events ${events.join(' ')}`; let want = null;
        ok(run.p.process === run.child, `${l}: the process is not available`); ok(run.p.stdin === run.child.stdin, `${l}: the input stream is not available`);
        const boom = new Error('boom');
        for (const ev of events) {
            const s = ev[0] === 'o' ? run.child.stdout : run.child.stderr, fd = ev[0] === 'o' ? 1 : 2;
            if (/^[oe]\d$/.test(ev)) { const b = data[ev]; if (s) { s.push(b); if (!want) out[fd].push(b); } }
            else if (/^[oe]e$/.test(ev)) { if (s) s.push(null); }
            else if (/^[oe]X$/.test(ev)) { if (s) { s.destroy(boom); if (!want) want = 'reject'; } }
            else if (ev === 'x') run.child.emit('exit', status, signal);
            else if (ev === 'E') { run.child.emit('error', boom); if (!want) want = 'reject'; }
            else if (ev === 'c') { run.child.emit('close', status, signal); if (!want) want = 'resolve'; }
            await tick(); await tick();
            if (!want) ok(!run.settled, `${l}: settled at ${ev}: ${show(run.settled)}`); else ok(run.settled, `${l}: not settled after ${ev}`);
        }
        eq(run.n, 1, `${l}: number of settlements`); eq(run.settled.ok, want === 'resolve', `${l}: outcome ${show(run.settled)}`);
        const r = run.settled.ok ? run.settled.value : run.settled.error; ok(r && typeof r === 'object', `${l}: result`);
        if (run.settled.ok) { eq(r.status, status, `${l}: status`); eq(r.signal, signal, `${l}: signal`); } else { ok(r.error === boom, `${l}: the error is ${show(r.error)}`); }
        eq(r.cmd, run.cmd, `${l}: command`); eq(r.args, run.args, `${l}: arguments`); streams(r, run, opts, out, l);
        ok(!uncaught.length, `${l}: uncaught ${show(uncaught[0])}`); return show(r, 2);
    };
    const zhong = Buffer.from('中😀');
    const DATA = { o0: Buffer.from('out '), o1: zhong.subarray(0, 2), o2: zhong.subarray(2), e0: zhong.subarray(0, 4), e1: zhong.subarray(4), e2: Buffer.from('\nerr\0') };
    function* merge(...ls) { if (ls.every(l => !l.length)) { yield []; return; } for (let i = 0; i < ls.length; i++) if (ls[i].length) for (const r of merge(...ls.map((l, k) => k === i ? l.slice(1) : l))) yield [ls[i][0], ...r]; }
    const D = t.thorough ? 1 : 0;
    // every interleaving of the two streams and the exit; close comes last
    const scripts = function* () {
        for (const [no, ne] of t.product(t.range(0, 2 + D), t.range(0, 2))) { const o = ['o0', 'o1', 'o2'].slice(0, no), e = ['e0', 'e1', 'e2'].slice(0, ne); for (const w of merge([...o, 'oe'], [...e, 'ee'], ['x'])) yield [...w, 'c']; }
        for (const k of ['o0', 'o1', 'o2']) yield [k, 'oe', 'ee', 'x', 'c'];
    };
    await t.casesAsync('interleavings', scripts(), ev => play(ev, undefined, DATA, 0, null));
    await t.casesAsync('interleavings-bytes', scripts(), async (ev, i) => { if (i % 3 && !t.thorough) return; return play(ev, { isToString: false }, DATA, 3, null); });
    // a stream fails, or the process reports an error, at any point; later events are ignored
    const failing = function* () {
        for (const [no, ne] of t.product(t.range(0, 2), t.range(0, 1 + D))) { const o = ['o0', 'o1'].slice(0, no), e = ['e0', 'e1'].slice(0, ne);
            for (const w of merge([...o, 'oX'], [...e, 'ee'], ['x'])) yield [...w, 'c']; for (const w of merge([...o, 'oe'], [...e, 'eX'], ['x'])) yield [...w, 'c'];
            for (const w of merge([...o, 'oe'], [...e, 'ee'], ['E'])) { yield [...w, 'c']; yield w; } for (const w of merge([...o, 'oX'], [...e, 'eX'])) yield [...w, 'x', 'c']; }
    };
    await t.casesAsync('failures', failing(), ev => play(ev, undefined, DATA, null, 'SIGKILL'));
    await t.casesAsync('failures-bytes', failing(), async (ev, i) => { if (i % 4 && !t.thorough) return; return play(ev, { isToString: false }, DATA, 1, null); });
    await t.casesAsync('late-error', [['x', 'oe', 'ee', 'c', 'E'], ['o0', 'oe', 'ee', 'c', 'E'], ['E', 'E'], ['E', 'c', 'c'], ['oe', 'ee', 'x', 'c', 'c'], ['E', 'o0', 'e0', 'oe', 'ee', 'c']], ev => play(ev, undefined, DATA, 0, null));
    await t.casesAsync('status', t.product([0, 1, 2, 127, 255, null, -2], [null, 'SIGTERM', 'SIGKILL', 'SIGINT'], [true, false]), ([s, g, str]) => play(['o0', 'e0', 'e1', 'x', 'oe', 'ee', 'c'], { isToString: str }, DATA, s, g));
    const STDIO = [undefined, null, 'pipe', 'inherit', 'ignore', [], ['pipe'], ['pipe', 'pipe', 'pipe'], ['ignore', 'pipe', 'ignore'], ['pipe', 'ignore', 'pipe'], ['ignore', null, undefined], ['pipe', 'inherit', null], [0, 1, 2], [0, 'pipe', 2], ['pipe', 1, 'pipe'], ['inherit', 'pipe', 'inherit'], ['pipe', 'pipe', 'pipe', 'ipc'], ['ignore', 'ignore', 'pipe', 'pipe']];
    await t.casesAsync('stdio', t.product(STDIO, [true, false, undefined], [['o0', 'e0', 'e1', 'oe', 'ee', 'x', 'c'], ['x', 'c'], ['o1', 'o2', 'E'], ['oe', 'ee', 'c']]), ([stdio, str, ev]) => { const o = {}; if (stdio !== undefined) o.stdio = stdio; if (str !== undefined) o.isToString = str; return play(ev, o, DATA, 0, null); });
    const BESIDE = [{ detached: true }, { detached: false }, { cwd: '/' }, { env: { A: '1' } }, { argv0: 'q' }, { windowsHide: true }, { timeout: 5 }, { killSignal: 'SIGKILL' }, { serialization: 'advanced' }, { shell: false }, { shell: true }, { shell: '/bin/sh' }, { signal: new AbortController().signal }, { windowsVerbatimArguments: true }, { uid: 1, gid: 1 }, { detached: true, shell: true, cwd: '/', env: {} }];
    const LATE = [['o0', 'e0', 'e1', 'oe', 'ee', 'x', 'c'], ['x', 'o0', 'e0', 'e1', 'oe', 'ee', 'c'], ['o0', 'x', 'o1', 'o2', 'oe', 'ee', 'c'], ['x', 'c'], ['o0', 'E'], ['o1', 'o2', 'oX', 'x', 'c'], ['e0', 'e1', 'x', 'eX', 'c'], ['oe', 'x', 'e2', 'ee', 'c']];
    await t.casesAsync('beside', t.product(BESIDE, LATE, [undefined, true, false], [undefined, 'pipe', ['ignore', 'pipe', 'ignore'], ['pipe', 'ignore', 'pipe']], [[0, null], [null, 'SIGTERM'], [3, null]]), ([x, ev, str, stdio, [st, sg]]) => { const o = { ...x }; if (str !== undefined) o.isToString = str; if (stdio !== undefined) o.stdio = stdio; return play(ev, o, DATA, st, sg); }, { key: c => show(c) });
    await t.casesAsync('many-chunks', [1, 50, 400], async n => { const ev = [], d = {}; const run = begin({ isToString: false }); const out = { 1: [], 2: [] }; for (let i = 0; i < n; i++) { const b = Buffer.from(`chunk ${i} ${'x'.repeat(i)}\n`); run.child.stdout.push(b); out[1].push(b); if (i % 3 === 0) { run.child.stderr.push(b); out[2].push(b); } if (i % 7 === 0) await tick(); } run.child.stdout.push(null); run.child.stderr.push(null); await tick(); await tick(); run.child.emit('close', 0, null); await tick(); ok(run.settled && run.settled.ok); streams(run.settled.value, run, { isToString: false }, out, `${n} chunks`); });
    await t.casesAsync('concurrent', [...t.perms(['a', 'b', 'c'])], async order => { const runs = { a: begin({}, 'A'), b: begin({ isToString: false }, 'B'), c: begin({}, 'C') }; for (const k of ['a', 'b', 'c']) { runs[k].child.stdout.push('out-' + k); await tick(); } for (const k of order) { runs[k].child.stdout.push(null); runs[k].child.stderr.push(null); await tick(); runs[k].child.emit('close', order.indexOf(k), null); await tick(); ok(runs[k].settled && runs[k].settled.ok); const v = runs[k].settled.value; eq([v.cmd, String(v.stdout), v.status], [k.toUpperCase(), 'out-' + k, order.indexOf(k)]); for (const q of order.slice(order.indexOf(k) + 1)) ok(!runs[q].settled, 'another run settles with it'); } });
    // the child cannot even be created
    await t.casesAsync('throws', [new TypeError('bad argument'), Object.assign(new Error('EAGAIN'), { code: 'EAGAIN' })], async e => { next = e; const p = attempt(() => P.spawn('x')); ok(p.ok, 'spawn throws instead of rejecting'); const r = await p.value.then(v => ({ v }), error => ({ error })); ok(r.error === e || r.error && r.error.error === e, `rejected with ${show(r)}`); await tick(); await new Promise(r => setTimeout(r, 5)); ok(!uncaught.length, `uncaught ${show(uncaught[0])}`); });
    await t.casesAsync('handles', t.product(['pipe', 'ignore', ['ignore', 'pipe', 'pipe'], undefined], [0, 1, 3]), async ([stdio, n]) => { const run = begin({ stdio }); for (let i = 0; i <= n; i++) { ok(run.p.process === run.child, 'process'); ok((run.p.stdin ?? null) === run.child.stdin, 'stdin'); await new Promise(r => setTimeout(r, 1)); } if (run.child.stdout) run.child.stdout.push(null); run.child.emit('close', 0, null); await tick(); });
    // ---- open
    const osFake = { ...os, release: () => osFake.rel, rel: '5.0' }; osFake.default = osFake; const O = t.world({ mocks: { child_process: { ...fake, default: fake, spawnSync: () => ({ status: 1, stdout: '' }) }, os: osFake } }).load('@curong/process').open;
    const platform = Object.getOwnPropertyDescriptor(process, 'platform'), com = process.env.ComSpec;
    await t.casesAsync('open', t.product([['linux', '5.4.0-generic'], ['darwin', '20'], ['win32', '10'], ['linux', '5.10-Microsoft-standard-WSL2'], ['freebsd', '13']], [undefined, 'my viewer', 'v'], ['a.txt', "it's", ['x y', '$z'], [], ['']], [{}, { cwd: '/c', env: { A: '1' } }, { isToString: false }]), async ([[pf, rel], command, args, o]) => {
        osFake.rel = rel; Object.defineProperty(process, 'platform', { ...platform, value: pf }); process.env.ComSpec = 'C:\\Windows\\system32\\cmd.exe';
        const opts = { ...o }; if (command) opts.command = command; const keep = JSON.stringify([opts, args]); let p;
        try { p = O(args, opts); await tick(); } finally { Object.defineProperty(process, 'platform', platform); if (com === undefined) delete process.env.ComSpec; else process.env.ComSpec = com; }
        const run = last, win = pf === 'win32' || /microsoft/i.test(rel), name = command || (win ? 'start ""' : pf === 'darwin' ? 'open' : 'xdg-open'), list = [].concat(args), l = `open(${show(args)}) on ${pf} ${rel}`;
        eq(JSON.stringify([opts, args]), keep, `${l}: arguments of the caller`); for (const k of ['cwd', 'env']) eq(run.opts[k], o[k], `${l}: option ${k}`); const script = run.args.at(-1); ok(script === name || script.startsWith(name + ' '), `${l}: command line ${show(script)}`);
        if (!win && (run.cmd === 'sh')) { const r = cp.spawnSync('/bin/sh', ['-c', `pa() { printf '%s\\000' "$@"; }\n[ $# -ge 0 ] && pa END ${script.slice(name.length)}`]); eq(r.stdout.toString().split('\0').slice(1, -1), list, `${l}: arguments`); } else if (win && !command) { ok(/cmd\.exe$/i.test(run.cmd), `${l}: shell ${run.cmd}`); }
        if (run.child.stdout) { run.child.stdout.push('done'); run.child.stdout.push(null); } await tick(); run.child.emit('close', 7, null); const r = await p; eq(r.status, 7, `${l}: result`); eq(String(r.stdout), 'done', `${l}: output`);
    });
    // ---- exec
    let ex = null, how = null; const fakeExec = (c, o, cb) => { if (typeof o === 'function') { cb = o; o = undefined; } ex = { c, o }; setImmediate(() => how instanceof Error ? cb(how, 'o', 'e') : cb(null, 'OUT', 'ERR')); return new EventEmitter(); };
    fakeExec[nodeUtil.promisify.custom] = (c, o) => { ex = { c, o }; return how instanceof Error ? Promise.reject(how) : Promise.resolve({ stdout: 'OUT', stderr: 'ERR' }); };
    const X = t.world({ mocks: { child_process: { ...cp, exec: fakeExec, default: { ...cp, exec: fakeExec } } } }).load('@curong/process').exec;
    await t.casesAsync('exec', t.product(['ls', 'a b', ['a', 'b c', '-d'], ['x'], []], [undefined, {}, { cwd: '/x', encoding: 'buffer', timeout: 3 }], [null, new Error('failed')]), async ([c, o, h]) => { how = h; const keep = JSON.stringify([c, o]); const r = await X(c, o).then(value => ({ value }), error => ({ error })); eq(ex.c, Array.isArray(c) ? c.join(' ') : c, 'command'); if (o) eq({ ...ex.o }, o, 'options'); eq(JSON.stringify([c, o]), keep, 'arguments of the caller'); if (h) ok(r.error === h, 'the error'); else eq({ ...r.value }, { stdout: 'OUT', stderr: 'ERR' }); });
    // ---- real children
    const R = t.world().load('@curong/process');
    await t.casesAsync('real', t.product([0, 1, 65535, 65536, 65537, 300000], [0, 3], [true, false]), async ([n, st, str]) => { const r = await R.spawn(process.execPath, ['-e', `process.stdout.write('o'.repeat(${n}));process.stderr.write('e'.repeat(${n >> 1}));process.exitCode=${st}`], { isToString: str }); eq([r.status, r.signal], [st, null]); eq(String(r.stdout), 'o'.repeat(n)); eq(String(r.stderr), 'e'.repeat(n >> 1)); });
    await t.casesAsync('real-others', [0], async () => { const p = R.spawn('cat', [], {}); p.stdin.end('through stdin'); eq((await p).stdout, 'through stdin'); const k = R.spawn('sleep', ['30']); k.process.kill('SIGKILL'); const r = await k; eq([r.status, r.signal], [null, 'SIGKILL']); const e = await R.spawn('/nonexistent/program').then(() => null, x => x); ok(e && e.error && e.error.code === 'ENOENT', `missing program: ${show(e)}`); const x = await R.exec(['printf', 'a; printf b >&2']); eq({ ...x }, { stdout: 'a', stderr: 'b' }); const f = await R.exec('printf q; exit 3').then(() => null, z => z); ok(f && f.code === 3 && f.stdout === 'q', `exec: ${show(f)}`); const b = await R.exec('printf q', { encoding: 'buffer' }); ok(Buffer.isBuffer(b.stdout)); });
    await t.casesAsync('uncaught', [0], async () => { await tick(); ok(!uncaught.length, `uncaught ${show(uncaught[0])}`); });
    process.off('uncaughtException', on); process.off('unhandledRejection', on);
};
