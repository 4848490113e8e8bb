'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const fs = require('fs'), cp = require('child_process'), os = require('os'), nodeUtil = require('util'), { EventEmitter } = require('events');
exports.technique = 'stateless model checking of the real code: every order in which the listing commands of a process tree can answer (in pieces, empty, failing, not starting), for every small process tree, with signals recorded by a stand-in; plus enumeration of task tables';
exports.bounds = 'all process trees of up to five processes with several pid numberings, all answer orders, all splits of a listing, one failing or vanishing process anywhere; all task tables up to three rows from a pool; five shapes of trees of up to 130 processes in three fixed orders of answers; two kills at once; the exact listing commands, also against the real ps on real process trees; shortcut sources, folders and outcomes; platform flags';
exports.assumptions = ['a listing names the direct children that exist when it is answered', 'in the task list of Windows columns are separated as tasklist formats them'];
exports.shards = 4;
exports.run = async t => {
    let sig = [], S = null, env = null; const realKill = process.kill;
    process.kill = (pid, s) => { sig.push([pid, s]); const e = env && env.killError && env.killError(Number(pid)); if (e) throw e; return true; };       // never the real one
    const platform = Object.getOwnPropertyDescriptor(process, 'platform');
    let execs = [], execHow = null;
    const fakeSpawn = (cmd, args = []) => {
        const pid = Number((args.join(' ').match(/\d+/g) || []).at(-1)); const ps = new EventEmitter(); ps.stdout = new EventEmitter(); ps.stderr = new EventEmitter(); ps.stdout.setEncoding = () => {}; ps.kill = () => true; ps.pid = 1e6;
        env.asked.push(pid); (env.cmds ||= []).push([cmd, ...args]); env.list(pid, ps, cmd); return ps;
    };
    const fakeExec = (c, o, cb) => { if (typeof o === 'function') { cb = o; o = undefined; } execs.push(c); const h = execHow; if (h && cb) queueMicrotask(() => h.error ? cb(h.error, '', 'ERR') : cb(null, h.stdout, h.stderr)); return new EventEmitter(); };
    fakeExec[nodeUtil.promisify.custom] = (c, o) => { execs.push(c); const h = execHow; return h.error ? Promise.reject(h.error) : Promise.resolve({ stdout: h.stdout, stderr: h.stderr }); };
    const mocks = { child_process: { ...cp, spawn: fakeSpawn, exec: fakeExec } }; mocks.child_process.default = mocks.child_process;
    const on = (pf, type, more = {}) => { Object.defineProperty(process, 'platform', { ...platform, value: pf }); const o = { ...os, type: () => type, release: () => '1' }; o.default = o; try { return t.world({ mocks: { ...mocks, os: o, ...more } }).load('@curong/os'); } finally { Object.defineProperty(process, 'platform', platform); } };
    const OS = { linux: on('linux', 'Linux'), darwin: on('darwin', 'Darwin'), win32: on('win32', 'Windows_NT'), sunos: on('sunos', 'SunOS') };
    const esrch = Object.assign(new Error('kill ESRCH'), { code: 'ESRCH' }), eperm = Object.assign(new Error('kill EPERM'), { code: 'EPERM' });
    // trees as parent arrays: node i > 0 hangs under parent p[i] < i
    const shapes = n => [...t.product(...t.range(1, n - 1).map(i => t.range(0, i - 1)))];
    const PIDS = [[10, 11, 12, 13, 14], [50, 7, 300, 21, 8], [9, 8, 5, 4, 2]];
    const base = (cfg, s, extra = {}) => {
        const pids = cfg.pids, kids = p => pids.filter((q, i) => i > 0 && i < cfg.n && pids[cfg.shape[i - 1]] === p);
        env = { asked: [], open: 0, kids, killError: cfg.kill, list: (pid, ps) => {
            env.open++; const l = kids(pid), text = l.map(x => `${String(x).padStart(cfg.pad || 0)}\n`).join('');
            const answer = () => { env.open--; ps.emit('exit', l.length ? 0 : 1, null); ps.emit('close', l.length ? 0 : 1, null); };
            if (cfg.fail === pid) { s.event('fail ' + pid, () => { const e = new Error('spawn ENOENT'); env.failed = e; env.open--; ps.emit('error', e); if (cfg.close) ps.emit('close', -2, null); }); return; }
            if (cfg.split && text.length > 1) { const k = s.choose(text.length - 1, 'cut') + 1; s.event('data ' + pid, () => { ps.stdout.emit('data', Buffer.from(text.slice(0, k))); s.event('more ' + pid, () => { ps.stdout.emit('data', Buffer.from(text.slice(k))); s.event('close ' + pid, answer); }); }); return; }
            s.event('list ' + pid, () => { if (text) ps.stdout.emit('data', Buffer.from(text)); if (cfg.apart) s.event('close ' + pid, answer); else answer(); });
        }, ...extra };
        sig = [];
    };
    const scene = (cfgs, name, o = {}) => t.explore(name, cfgs, (s, cfg) => {
        s.errorsExpected = s.unhandledExpected = cfg.form === 'none';
        base(cfg, s); const all0 = cfg.pids.slice(0, cfg.n), calls = [], K = OS[cfg.pf || 'linux'], root = cfg.pids[0], l = `kill of ${cfg.pids.slice(0, cfg.n)} (parents ${cfg.shape})`;
        const cb = (...a) => { calls.push(a); s.log('callback', show(a[0] && a[0].message)); if (sig.length < cfg.n && !cfg.fail && !cfg.kill) ok(false, `${l}: completion is reported after ${sig.length} signals`); };
        const signal = cfg.signal; let thrown = null; const arg = cfg.text ? String(root) : root;
        const run = () => { if (cfg.form === 'promise') K.asyncKill(arg, signal).then(v => calls.push([v]), e => calls.push([e])); else if (cfg.form === 'second') K.kill(arg, cb); else if (cfg.form === 'none') K.kill(arg, signal); else K.kill(arg, signal, cb); };
        const r = attempt(run); if (!r.ok) thrown = r.error; const early = sig.length;
        return () => {
            for (const c of env.cmds || []) { const line = c.join(' '), n = (line.match(/(?:--ppid[ =]?|-P ?)(\d+)\b/) || [])[1]; ok(n && all0.includes(Number(n)), `${l}: listing asked with ${show(c)}`); ok(cfg.pf === 'darwin' ? c[0] === 'pgrep' : c[0] === 'ps' && /(-o|--format)[ =]?pid\b/.test(line) && /(--no-headers?\b|pid=)/.test(line), `${l}: listing asked with ${show(c)}`); }
            ok(!thrown, `${l}: throws ${show(thrown)}`); eq(early, 0, `${l}: signals sent before the tree is known`);
            const all = cfg.pids.slice(0, cfg.n), sent = sig.map(x => Number(x[0]));
            if (cfg.form !== 'none') { eq(calls.length, 1, `${l}: number of reports (signals so far ${show(sig)})`); ok(!s.errors.length && !s.unhandled.length, `${l}: uncaught ${show(s.errors[0] || s.unhandled[0])}`); }
            ok(sent.every(p => all.includes(p)), `${l}: signalled ${sent}`); ok(new Set(sent).size === sent.length, `${l}: signalled ${sent}, some twice`);
            for (const x of sig) eq(x[1], cfg.form === 'second' ? undefined : signal, `${l}: signal sent to ${x[0]}`);
            const rep = calls[0] && calls[0][0];
            if (cfg.fail && env.failed) { if (cfg.form !== 'none') ok(rep === env.failed, `${l}: the listing of ${cfg.fail} fails, reported is ${show(rep)}`); else ok(s.errors.includes(env.failed), `${l}: failure lost`); return; }
            if (cfg.perm) { if (cfg.form !== 'none') ok(rep === eperm, `${l}: not permitted for ${cfg.perm}, reported is ${show(rep)}`); else ok(s.errors.includes(eperm), `${l}: failure lost`); return; }
            ok(!rep, `${l}: reports ${show(rep)}`); eq(sent.slice().sort((a, b) => a - b), all.slice().sort((a, b) => a - b), `${l}: signalled processes`); ok(env.open === 0, `${l}: listings still open`);
        };
    }, { maxSteps: 60, key: cfg => `${name} ${cfg.pids} ${cfg.shape}`, ...o });
    const trees = (max, pids = PIDS) => t.range(1, max).flatMap(n => shapes(n).flatMap(shape => pids.map(p => ({ n, shape, pids: p }))));
    await scene(trees(5, t.thorough ? PIDS : PIDS.slice(1, 2)), 'orders');
    await scene(trees(4).flatMap(c => ['linux', 'darwin'].map(pf => ({ ...c, pf, pad: 7, apart: true }))), 'orders-apart');
    await scene(trees(t.thorough ? 4 : 3, [[123, 45, 6789, 10]]).map(c => ({ ...c, split: true, pad: 5 })), 'pieces');
    await scene(trees(4, PIDS.slice(1)).flatMap(c => [undefined, 'SIGKILL', 'SIGTERM', 9, 0].flatMap(signal => ['callback', 'promise', 'none'].map(form => ({ ...c, signal, form })))).concat(trees(3).map(c => ({ ...c, form: 'second' })), trees(3).map(c => ({ ...c, text: true }))), 'forms');
    // large trees in a few fixed orders of answers
    const BIG = { wide: n => i => 0, deep: n => i => i - 1, binary: n => i => (i - 1) >> 1, comb: n => i => i % 2 ? i - 1 : Math.max(0, i - 2), two: n => i => i <= n / 2 ? 0 : i - Math.floor(n / 2) };
    await t.casesAsync('large', t.product(Object.keys(BIG), [9, 12, 17, 33, 65, 130], ['fifo', 'lifo', 'middle'], ['linux', 'darwin']), async ([sh, n, order, pf]) => {
        const par = t.range(0, n - 1).map(i => i ? BIG[sh](n)(i) : -1), pid = i => 1000 + i * 37 % 8191, kids = t.range(0, n - 1).map(() => []); par.forEach((p, i) => { if (i) kids[p].push(i); }); const at = new Map(t.range(0, n - 1).map(i => [pid(i), i]));
        sig = []; const q = []; env = { asked: [], list: (p, ps) => q.push(() => { const l = kids[at.get(p)]; const text = l.map(i => `${pid(i)}\n`).join(''); for (let k = 0; k < text.length; k += 64) ps.stdout.emit('data', Buffer.from(text.slice(k, k + 64))); ps.emit('exit', l.length ? 0 : 1, null); ps.emit('close', l.length ? 0 : 1, null); }) };
        const calls = []; OS[pf].kill(pid(0), 'SIGTERM', (...a) => { calls.push([sig.length, a]); });
        for (let i = 0; i < 5 && q.length || i < 1; i++) { while (q.length) { const f = order === 'fifo' ? q.shift() : order === 'lifo' ? q.pop() : q.splice(q.length >> 1, 1)[0]; f(); } await new Promise(r => setImmediate(r)); if (q.length) i = -1; }
        eq(calls.map(c => c[0]), [n], `signals sent when completion is reported, ${sh} tree of ${n}`); ok(!calls[0][1][0], show(calls[0][1][0])); eq(sig.map(x => Number(x[0])).sort((a, b) => a - b), [...at.keys()].sort((a, b) => a - b), 'signalled processes');
        const pos = new Map(sig.map((x, i) => [at.get(Number(x[0])), i])); ok(pos.size === n); return `${sh} ${n} ${order}`;
    });
    // processes that have vanished when their signal comes; one that may not be signalled
    await scene(trees(4, PIDS.slice(0, 2)).flatMap(c => t.range(1, (1 << c.n) - 1).map(m => ({ ...c, gone: m, kill: p => m >> c.pids.indexOf(p) & 1 ? esrch : null }))), 'vanished');
    await scene(trees(4, PIDS.slice(0, 2)).flatMap(c => t.range(0, c.n - 1).flatMap(i => ['callback', 'promise', 'none'].map(form => ({ ...c, form, perm: c.pids[i], kill: p => p === c.pids[i] ? eperm : null })))), 'not-permitted');
    // a listing command that cannot be started
    await scene(trees(4, PIDS.slice(0, 2)).flatMap(c => t.range(0, c.n - 1).flatMap(i => [true, false].flatMap(close => ['callback', 'promise', 'none'].map(form => ({ ...c, form, fail: c.pids[i], close }))))), 'no-listing');
    // listings that disagree: a process found twice (it moved meanwhile), an empty one that ends well, a vanished one
    await t.explore('moving', t.range(0, 5).flatMap(k => [0, 1].map(z => ({ k, z }))), (s, { k, z }) => {
        const lists = [{ 1: [2, 3], 2: [4], 3: [4] }, { 1: [2, 3], 2: [3], 3: [] }, { 1: [2], 2: [] }, { 1: [] }, { 1: [2, 3, 4], 2: [], 3: [5], 5: [4] }, { 1: [2, 2] }][k]; sig = []; const calls = [];
        env = { asked: [], list: (pid, ps) => s.event('list ' + pid, () => { const l = lists[pid] || []; if (l.length) ps.stdout.emit('data', Buffer.from(l.join('\n') + '\n')); ps.emit('close', l.length || z ? 0 : 1, null); }) };
        OS.linux.kill(1, 'SIGTERM', (...a) => { calls.push(a); });
        return () => { const all = new Set([1, ...Object.values(lists).flat()]); eq(calls.length, 1, `number of reports for ${show(lists)}`); ok(!calls[0][0], `reports ${show(calls[0][0])}`); eq(sig.map(x => x[0]).sort(), [...all].sort(), `signalled for ${show(lists)}`); ok(!s.errors.length, show(s.errors[0])); };
    });
    // the stand-in for the listing command against the real one: real trees of own processes, the signals recorded only
    if (fs.existsSync('/usr/bin/ps') || fs.existsSync('/bin/ps')) await t.casesAsync('real-listing', ['', 'sleep 60 &', 'sleep 60 & sleep 60 &', 'sh -c "sleep 60 & wait" &', 'sh -c "sleep 60 & sleep 60 & wait" & sleep 60 & sh -c "sh -c \'sleep 60 & wait\' & wait" &'], async sub => {
        const want = 1 + (sub.match(/sleep/g) || []).length + (sub.match(/sh -c/g) || []).length, child = cp.spawn('/bin/sh', ['-c', `${sub} echo up; read x`], { stdio: ['pipe', 'pipe', 'ignore'], detached: true });
        try {
            await new Promise(r => child.stdout.once('data', r)); const kidsOf = p => { try { return fs.readFileSync(`/proc/${p}/task/${p}/children`, 'utf8').trim().split(' ').filter(Boolean).map(Number); } catch { return []; } }, walk = p => [p, ...kidsOf(p).flatMap(walk)];
            let tree = []; for (let i = 0; i < 400 && (tree = walk(child.pid)).length < want; i++) await new Promise(r => setTimeout(r, 5)); if (tree.length !== want) return 'not up';
            sig = []; const real = t.world({}).load('@curong/os'), got = await new Promise(r => real.kill(child.pid, 'SIGTERM', (...a) => r([sig.length, a]))); ok(!got[1][0], show(got[1][0])); eq(got[0], want, 'signals when completion is reported'); eq(sig.map(x => Number(x[0])).sort((a, b) => a - b), tree.sort((a, b) => a - b), 'signalled processes'); return 'tree of ' + want;
        } finally { try { realKill.call(process, -child.pid, 'SIGKILL'); } catch {} }
    });
    await t.explore('two-kills', t.range(0, 8), (s, x) => {
        const k = x % 3, apart = Math.floor(x / 3);
        sig = []; const calls = []; const kids = { 1: [2], 2: [], 5: [6, 7], 6: [], 7: [] }; env = { asked: [], list: (pid, ps) => s.event('list ' + pid, () => { const end = () => ps.emit('close', kids[pid].length ? 0 : 1, null), say = t => ps.stdout.emit('data', Buffer.from(t)), all = kids[pid].join('\n'); if (!apart || !all) { if (all) say(all); end(); } else if (apart === 1) { say(all); s.event('close ' + pid, end); } else { say(all.slice(0, 1)); s.event('more ' + pid, () => { if (all.length > 1) say(all.slice(1)); end(); }); } }) };
        OS.linux.kill(1, 'SIGTERM', e => { calls.push([1, e]); }); OS.linux.kill(k === 1 ? 2 : 5, 'SIGKILL', e => { calls.push([5, e]); });
        return () => { eq(calls.length, 2, 'reports'); ok(calls.every(c => !c[1])); eq(sig.filter(x => x[1] === 'SIGTERM').map(x => x[0]).sort(), [1, 2]); eq(sig.filter(x => x[1] === 'SIGKILL').map(x => x[0]).sort(), k === 1 ? [2] : [5, 6, 7]); };
    });
    // ---- arguments and platforms
    t.cases('bad-pid', t.product(['abc', '', NaN, -1, 1.5, Infinity, '1x', '12 34', undefined, {}, 2 ** 53, '-5', 0, '0'], ['linux', 'darwin', 'win32'], ['callback', 'second', 'none']), ([pid, pf, form]) => { sig = []; execs = []; execHow = null; env = { asked: [], list: () => {} }; const calls = []; const cb = (...a) => calls.push(a); const r = attempt(() => form === 'callback' ? OS[pf].kill(pid, 'SIGTERM', cb) : form === 'second' ? OS[pf].kill(pid, cb) : OS[pf].kill(pid)); eq(sig, [], 'signals'); eq(execs, [], 'commands'); eq(env.asked, [], 'listings'); if (form === 'none') ok(!r.ok, `kill(${show(pid)}) does not throw`); else { eq(calls.length, 1, 'reports'); ok(calls[0][0] instanceof Error, `reports ${show(calls[0])}`); } });
    await t.casesAsync('windows', t.product([5, '77', 123456], [null, new Error('exit 128')], ['callback', 'second', 'promise', 'none']), async ([pid, err, form]) => { execs = []; execHow = { error: err, stdout: 'SUCCESS', stderr: '' }; const calls = []; const cb = e => { calls.push(e); }; const K = OS.win32; let v; if (form === 'callback') K.kill(pid, 'SIGTERM', cb); else if (form === 'second') K.kill(pid, cb); else if (form === 'none') K.kill(pid); else v = await K.asyncKill(pid).then(x => x, x => x); await new Promise(r => setImmediate(r)); eq(execs.length, 1, 'commands'); const c = execs[0]; ok(/^taskkill(\.exe)?\s/i.test(c) && /\/T\b/i.test(c) && /\/F\b/i.test(c) && new RegExp(`/PID\\s+${Number(pid)}$`, 'i').test(c.trim()) , `command ${c}`); if (form === 'promise') eq(v || null, err); else if (form !== 'none') { eq(calls.length, 1, 'reports'); eq(calls[0] || null, err); } });
    t.cases('unsupported', [1], () => { env = { asked: [], list: () => {} }; sig = []; ok(!attempt(() => OS.sunos.kill(5)).ok, 'an unknown system is accepted'); eq(sig, []); });
    // ---- Windows tasks
    const row = r => `${r.name.padEnd(25)} ${String(r.pid).padStart(8)} ${r.sess.padEnd(16)} ${String(r.id).padStart(11)} ${r.mem.padStart(12)}`;
    const POOL = [{ name: 'System Idle Process', pid: 0, sess: 'Services', id: 0, mem: '8 K' }, { name: 'cmd.exe', pid: 4321, sess: 'Console', id: 1, mem: '4,096 K' }, { name: 'cmd.exe', pid: 99, sess: 'RDP-Tcp#12', id: 12, mem: '1,234,567 K' }, { name: 'CMD.EXE', pid: 7, sess: 'Console', id: 1, mem: '512 K' }, { name: 'x'.repeat(25), pid: 654321, sess: 'Services', id: 0, mem: '1,000 K' }, { name: 'my app (2).exe', pid: 12, sess: 'Console', id: 3, mem: '0 K' }, { name: 'cmd.exe.exe', pid: 8, sess: 'Console', id: 1, mem: '16 K' }, { name: '中文.exe', pid: 31337, sess: 'Console', id: 65536, mem: '99,999 K' }];
    const info = r => ({ imageName: r.name, pid: String(r.pid), memusage: r.mem.replace(/[, K]/g, ''), session: { name: r.sess, id: String(r.id) } });
    await t.casesAsync('task-list', t.product([...t.words(POOL, 1, 3)], ['\r\n', '\n']), async ([rows, nl]) => { execs = []; execHow = { stdout: nl + rows.map(row).join(nl) + nl, stderr: '' }; const T = OS.win32; eq(await T.windowsTaskList(), rows.map(info), 'task list'); ok(execs.length === 1 && /^tasklist\b/i.test(execs[0]), `command ${execs}`); for (const n of ['cmd.exe', 'CMD.EXE', 'cmd', 'none.exe', rows[0].name]) eq(await T.findWindowsTask(n), rows.filter(r => r.name === n).map(info), `tasks named ${n}`); });
    await t.casesAsync('task-kill', t.product(['cmd.exe', 'my app.exe'], [{ stdout: 'SUCCESS: The process "cmd.exe" with PID 1 has been terminated.\r\n', stderr: '' }, { stdout: '', stderr: 'ERROR: The process "x" not found.\r\n' }, { error: new Error('exit 128') }]), async ([n, h]) => { execs = []; execHow = h; const r = await OS.win32.killWindowsTask(n); eq(r, !h.error && !h.stderr, `killWindowsTask(${n}) with ${show(h)}`); ok(execs.length === 1 && /^taskkill\b/i.test(execs[0]) && /\/F\b/i.test(execs[0]) && /\/T\b/i.test(execs[0]) && execs[0].includes(`/IM "${n}"`), `command ${execs}`); });
    await t.casesAsync('elsewhere', ['linux', 'darwin'], async pf => { execs = []; env = { asked: [], list: () => {} }; eq(await OS[pf].windowsLocal(), null, 'windowsLocal'); const r = await OS[pf].windowsMakeShortcut('/x').then(() => null, e => e); ok(r instanceof Error, 'windowsMakeShortcut succeeds'); eq(execs, []); eq(env.asked, []); eq(OS[pf].appendCmd('npm'), 'npm'); eq(OS.win32.appendCmd('npm'), 'npm.cmd'); });
    await t.casesAsync('locale', ['zh-CN', 'en-US', 'de-DE'], async l => { execHow = { stdout: `\nLCID             Name             DisplayName\n----             ----             -----------\n2052             ${l}            xx\n\n`, stderr: '' }; execs = []; eq(await OS.win32.windowsLocal(), l); ok(execs.length === 1 && /^powershell(\.exe)?\s.*Get-UICulture$/i.test(execs[0]), `command ${execs}`); });
    await t.casesAsync('shortcut', t.product(['C:/apps/tool.exe', '/x/a.b.c', '/x/plain'], [{}, { name: 'N', args: '--a "b"', description: 'D', cwd: '/w', hotkey: 'CTRL+A', windowMode: 3, icon: '/i.ico', dirPath: '/d' }, { dirPath: '/d' }]), async ([p, o]) => {
        let got = null; const spawn = (c, a, so) => { got = { c, a, so }; const ch = new EventEmitter(); ch.stdin = ch.stdout = ch.stderr = null; setImmediate(() => ch.emit('close', 0, null)); return ch; };
        const M = on('win32', 'Windows_NT', { child_process: { ...cp, spawn, default: { ...cp, spawn } } }); await M.windowsMakeShortcut(p, { ...o, force: true }); ok(got && /^wscript(\.exe)?$/i.test(got.c), 'program'); const b = p.split('/').pop(), dot = b.lastIndexOf('.'); eq(got.a.slice(1), [p, o.dirPath ?? '', o.name ?? (dot < 0 ? b : b.slice(0, dot)), o.args ?? '', o.description ?? '', o.cwd ?? '', o.icon ?? p, String(o.windowMode ?? 4), o.hotkey ?? ''], 'arguments of the script'); ok(/shortcut\.vbs$/.test(got.a[0])); const bad = await M.windowsMakeShortcut('/definitely/not/here.exe', {}).then(() => null, e => e); ok(bad instanceof Error, 'a missing source is accepted'); });
    // ---- a shortcut to what exists, what does not, into what is or is not a directory, with and without force; the script may fail, end late or not start
    const dir = t.tmp ? t.tmp() : fs.mkdtempSync('/dev/shm/vfs-os-'); fs.writeFileSync(dir + '/a file.exe', ''); fs.writeFileSync(dir + '/.bashrc', ''); fs.writeFileSync(dir + '/a.', ''); fs.mkdirSync(dir + '/d.e'); fs.symlinkSync('d.e', dir + '/ld'); fs.symlinkSync('nowhere', dir + '/dangling');
    const SRC = { 'a file.exe': 'a file', '.bashrc': '', 'a.': 'a', 'd.e': 'd', none: null, dangling: null }, DIR = { '': true, 'd.e': true, ld: null, none: false, 'a file.exe': false };
    await t.casesAsync('shortcut-source', t.product(Object.keys(SRC), [undefined, ...Object.keys(DIR)], [undefined, false, true], ['close0', 'close1', 'error', 'late']), async ([src, d, force, how]) => {
        if (d === 'ld') return; let got = [], ended = false; const spawn = (c, a, so) => { got.push({ c, a, so }); const ch = new EventEmitter(); ch.stdin = ch.stdout = ch.stderr = null; const fin = () => { ended = true; if (how === 'error') ch.emit('error', new Error('spawn wscript ENOENT')); else ch.emit('close', how === 'close1' ? 1 : 0, null); }; if (how === 'late') setTimeout(fin, 2); else setImmediate(fin); return ch; };
        const M = on('win32', 'Windows_NT', { child_process: { ...cp, spawn, default: { ...cp, spawn } } }); const o = {}; if (d !== undefined) o.dirPath = d && dir + '/' + d; if (force !== undefined) o.force = force;
        const l = `windowsMakeShortcut(${show(src)}, ${show(o)}), ${how}`, frozen = JSON.stringify(o), r = await M.windowsMakeShortcut(dir + '/' + src, o).then(() => null, e => e ?? 'x');
        eq(JSON.stringify(o), frozen, `${l}: options changed`);
        const legal = force || SRC[src] !== null && (d === undefined || DIR[d]);
        if (!legal) { ok(r, `${l} succeeds`); eq(got, [], `${l}: the script is run`); return; }
        eq(got.length, 1, `${l}: runs`); ok(ended, `${l}: settled before the script ended`); if (how === 'close0' || how === 'late') ok(!r, `${l}: ${show(r)}`); if (how === 'error') ok(r, `${l}: failure lost`);
        eq(got[0].a.slice(1, 3), [dir + '/' + src, o.dirPath ?? ''], `${l}: arguments`); if (SRC[src]) eq(got[0].a[3], SRC[src], `${l}: name`); const st = got[0].so && got[0].so.stdio; ok(Array.isArray(st) ? st[2] === 'inherit' : st === 'inherit', `${l}: errors are not printed (stdio ${show(st)})`);
    });
    for (const k of ['/a file.exe', '/.bashrc', '/a.', '/ld', '/dangling']) fs.unlinkSync(dir + k); fs.rmdirSync(dir + '/d.e'); fs.rmdirSync(dir);
    await t.casesAsync('shortcut-elsewhere', ['linux', 'darwin', 'sunos'], async pf => { let n = 0; const spawn = () => { n++; const ch = new EventEmitter(); setImmediate(() => ch.emit('close', 0, null)); return ch; }; const M = on(pf, { linux: 'Linux', darwin: 'Darwin', sunos: 'SunOS' }[pf], { child_process: { ...cp, spawn, default: { ...cp, spawn } } }); for (const o of [undefined, {}, { force: true }]) ok(await M.windowsMakeShortcut(__filename, o).then(() => null, e => e ?? 'x'), `succeeds on ${pf}`); eq(n, 0, 'programs run'); });
    // ---- platform flags, for every kind and release name
    t.cases('platform', t.product(['Linux', 'Darwin', 'Windows_NT', 'SunOS', 'FreeBSD', 'linux', 'windows_nt', ''], ['4.4.0-19041-Microsoft', '10.0.19041', '5.15.90.1-generic', 'Microsoft', '20.6.0', '']), ([ty, rel]) => { const o = { ...os, type: () => ty, release: () => rel }; o.default = o; const M = t.world({ mocks: { os: o } }).load('@curong/os'); eq([M.isWindows, M.isMacOS, M.isLinux, M.isWSL], [ty === 'Windows_NT', ty === 'Darwin', ty === 'Linux', ty === 'Linux' && rel.endsWith('Microsoft')], `flags on ${ty} ${rel}`); eq(M.appendCmd('npm'), ty === 'Windows_NT' ? 'npm.cmd' : 'npm', `appendCmd on ${ty}`); });
    process.kill = realKill;
};
