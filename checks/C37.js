'use strict';
const { ok, eq, show, attempt, fail } = require('../lib/util');
const cp = require('child_process'), fs = require('fs'), path = require('path'), os = require('os'), { EventEmitter } = require('events');
exports.technique = 'bounded exhaustive enumeration of argument lists; the command line the code hands to the operating system is captured and run by the real shells (in an empty scratch directory with an empty search path), and what the program receives is compared with what was asked for';
exports.bounds = 'all pairs of ASCII characters; all strings up to length 6 over quotes, backslash, blank and letter; all pairs (thorough: triples) of shell-relevant tokens; lists of up to four arguments; sh (dash) and bash; a decoder of the cmd.exe and C runtime rules for Windows command lines; the Windows look-up of batch files';
exports.assumptions = ['arguments contain no NUL character', 'cmd.exe itself cannot run here; its rules are modelled: one level of caret removal (two for batch files), then the C runtime argument parser'];
exports.shards = 4;
exports.run = t => {
    let call = null, which = { status: 1, stdout: '' }, asked = null;
    const child = () => { const c = new EventEmitter(); c.stdin = null; c.stdout = new EventEmitter(); c.stderr = new EventEmitter(); return c; };
    const fake = { ...cp, spawn: (...a) => { call = a; return child(); }, spawnSync: (c, a, o) => { asked = { c, a, o }; return typeof which === 'function' ? which(c, a, o) : which; } }; fake.default = fake;
    const spawn = t.world({ mocks: { child_process: fake } }).load('@curong/process').spawn;
    const line = (cmd, args, opts) => { call = null; const keep = JSON.stringify([args, opts]); spawn(cmd, args, opts).catch(() => {}); ok(call, 'nothing is spawned'); eq(JSON.stringify([args, opts]), keep, 'arguments of the caller after the call'); return call; };
    const dir = fs.mkdtempSync(path.join(fs.existsSync('/dev/shm') ? '/dev/shm' : os.tmpdir(), 'c37-'));
    const reset = () => { fs.rmSync(dir, { recursive: true, force: true }); fs.mkdirSync(dir + '/bin', { recursive: true }); for (const f of ['a', 'ab', 'a b', 'b', 'x', '-n', 'ax', 'é']) fs.writeFileSync(path.join(dir, f), ''); };
    reset();
    const PA = `pa() { printf '%s\\000' "$#"; for i in "$@"; do printf '%s\\000' "$i"; done; }\n`;
    const env = { PATH: dir + '/bin', HOME: '/HOMEX', a: 'VAR', x: 'X Y', LC_ALL: 'C.UTF-8' };
    const run = (sh, text) => cp.spawnSync(sh, ['-c', text], { cwd: dir, env, stdio: ['ignore', 'pipe', 'ignore'], timeout: 20000, maxBuffer: 1 << 28 }).stdout;
    const parse = out => { const f = out.toString('utf8').split('\0'); const r = []; let i = 0; while (i < f.length - 1) { const n = Number(f[i++]); if (!Number.isInteger(n) || n > f.length) return null; r.push(f.slice(i, i + n)); i += n; } return r; };
    const SHELLS = [['sh', true, '/bin/sh'], ['bash', 'bash', '/bin/bash'], ['/bin/sh', '/bin/sh', '/bin/sh']].filter(([, , p]) => fs.existsSync(p));
    const batch = (lists, shells = SHELLS.slice(0, 2)) => {
        for (const [name, opt, real] of shells) {
            const scripts = lists.map(l => { const [c, a, o] = line('pa', l, { shell: opt }); eq(c, name, 'shell'); ok(Array.isArray(a) && a.length === 2 && a[0] === '-c', `arguments of the shell: ${show(a)}`); ok(!o || !o.shell, 'the shell is started by a shell'); return a[1]; });
            const got = parse(run(real, PA + scripts.join('\n') + '\n'));
            const good = got && got.length === lists.length && got.every((g, i) => g.length === lists[i].length && g.every((x, k) => x === lists[i][k]));
            if (good) continue;
            reset(); lists.forEach((l, i) => { const g = parse(run(real, PA + scripts[i])); if (!g || g.length !== 1 || JSON.stringify(g[0]) !== JSON.stringify(l)) { const m = `arguments ${show(l)} reach the program under ${name} as ${show(g)}; command line: ${show(scripts[i])}`; reset(); fail(m); } });
            fail(`a batch of ${lists.length} command lines goes wrong under ${name}, though each alone does not: ${show(lists.slice(0, 3))}`);
        }
    };
    const chunk = function* (it, n) { let b = []; for (const x of it) { b.push(x); if (b.length === n) { yield b; b = []; } } if (b.length) yield b; };
    const suite = (name, it, n = 400, shells) => t.cases(name, chunk(it, n), lists => batch(lists, shells), { key: l => show(l).slice(0, 80) });
    const map = function* (it, f) { for (const x of it) yield f(x); };
    const ch = t.range(1, 127).map(c => String.fromCharCode(c));
    const keepable = s => s.isWellFormed() && !s.includes('\0');
    suite('characters', map(ch, c => [c, `a${c}`, `${c}a`, `a${c}a`, `${c}${c}`, `'${c}'`, `"${c}"`, `${c} `]), 40, SHELLS);
    suite('pairs', map(t.product(ch, ch), ([a, b]) => [a + b]), 1000, t.thorough ? SHELLS : SHELLS.slice(0, 1));
    suite('pairs-inside', map(t.product(ch.filter(c => !/[b-zB-Z1-9]/.test(c)), ch.filter(c => !/[b-zB-Z1-9]/.test(c))), ([a, b]) => [`x${a}b${b}`, `${a}x${b}`]), 600);
    suite('quoting', map(t.strings("'\\ a", 0, t.thorough ? 7 : 6), s => [s]), 800);
    suite('quoting-2', map(t.strings("'\"\\$`\n", 0, t.thorough ? 5 : 4), s => [s, s + "'"]), 500);
    const TOK = ['', 'a', ' ', "'", '"', '\\', '$', '$a', '`', '$(', ')', '(', '*', '?', '[', ']', '[ab]', '{a,b}', '{', '}', ',', '..', '~', '~/', '!', '!!', '#', '&', '&&', '|', '||', ';', ';;', '<', '>', '>>', '\n', '\r', '\t', '=', 'a=b', '%', '^', '@', '+', '-', '--', '-n', '\\n', "''", "\\''", '\u007f', '\u001b', 'é', '中', '😀', '\u00a0', '\u2028', '/', ':', '.'];
    suite('token-pairs', map(t.product(TOK, TOK), ([a, b]) => [a + b, a, b]), 400, SHELLS);
    suite('token-triples', map(t.product(t.thorough ? TOK : TOK.filter((_, i) => i % 2 === 0), TOK, t.thorough ? TOK : TOK.filter((_, i) => i % 3 === 0)), ([a, b, c]) => [a + b + c]), 1500, SHELLS.slice(0, t.thorough ? 2 : 1));
    const NASTY = ['', ' ', "'", '\\', '*', '$a', 'a b', '"', ';', '#', '[a]', '{a,b}', '~', '\n', '-n', '&'];
    suite('lists', map(t.words(NASTY, 0, t.thorough ? 4 : 3), x => x), 500);
    suite('characters-beyond-ascii', map(t.range(0x80, 0x7ff), c => [String.fromCharCode(c), `a${String.fromCharCode(c)}b`]), 300, SHELLS);
    suite('characters-more', (function* () { for (let c = 0x800; c < 0x10000; c += t.thorough ? 1 : 7) { const s = String.fromCharCode(c); if (keepable(s)) yield [s + 'x' + s]; } for (let c = 0x10000; c < 0x110000; c += 4099) yield [String.fromCodePoint(c)]; })(), 3000);
    suite('long', [[...Array(500).keys()].map(i => `a ${i}'`), ['x'.repeat(60000)], ["'".repeat(9999)], [' '.repeat(9999)], ['\\'.repeat(9999) + "'"]], 1);
    // the command itself may carry arguments of its own
    t.cases('command-words', t.product(['pa', 'pa x', "pa 'q r'", 'pa ""', 'pa -n'], NASTY), ([c, v]) => { const own = { pa: [], 'pa x': ['x'], "pa 'q r'": ['q r'], 'pa ""': [''], 'pa -n': ['-n'] }[c]; for (const args of [[], [v], [v, v]]) { const [, a] = line(c, args, { shell: true }); eq(parse(run('/bin/sh', PA + a[1])), [[...own, ...args]], `${c} with ${show(args)}`); } });
    // ---- options and plain runs
    const OPTS = [{}, { cwd: '/x' }, { env: { A: '1' } }, { stdio: 'ignore' }, { detached: true, uid: 5 }, { isToString: false }, { timeout: 5, windowsHide: true, argv0: 'q' }, { shell: false }, { shell: '' }];
    t.cases('without-shell', t.product(['pa', '/bin/x y', 'a;b', ''], [[], ['a b', "'"], ['$a', '*', '']], OPTS), ([c, a, o]) => { const [c2, a2, o2] = line(c, a, o); eq(c2, c, 'command'); eq(a2, a, 'arguments'); for (const k of Object.keys(o)) eq(o2[k], o[k], `option ${k}`); ok(!o2.shell, 'a shell is started'); });
    t.cases('defaults', [1], () => { call = null; spawn('pa').catch(() => {}); eq(call.slice(0, 2), ['pa', []]); ok(!call[2] || !call[2].shell); call = null; spawn('pa', ['x']).catch(() => {}); eq(call[1], ['x']); });
    // the same options object and argument list, handed in again: nothing of an earlier call sticks to them
    t.cases('reused', t.product(OPTS.slice(0, 7), [true, 'sh', 'bash', 'cmd.exe', false, undefined], [['x y', "'"], [], ['a']]), ([o, shell, args]) => { const opts = { ...o }; if (shell !== undefined) opts.shell = shell; const before = show(opts), first = show(line('pa', [...args], { ...opts })), list = [...args]; for (let i = 0; i < 3; i++) { eq(show(line('pa', list, opts)), first, () => `call ${i + 1} with the same options ${before}`); eq(show(opts), before, 'options after the call'); eq(list, args, 'arguments after the call'); } eq(show(line('pa', Object.freeze([...args]), Object.freeze({ ...opts }))), first, 'frozen options'); });
    t.cases('options-with-shell', t.product(OPTS.slice(0, 7), [true, 'sh', 'bash', '/usr/bin/bash', '/opt/my cmd/sh', 'cmdx', 'xcmd']), ([o, sh]) => { const full = { ...o, shell: sh }; const [c, a, o2] = line('pa', ['x y'], full); eq(c, sh === true ? 'sh' : sh, 'shell'); eq(a[0], '-c'); for (const k of Object.keys(o)) eq(o2[k], o[k], `option ${k}`); ok(!o2.shell, 'the shell is started by a shell'); ok(!o2.windowsVerbatimArguments, 'verbatim'); });
    // ---- Windows command lines, decoded by a model of cmd.exe and of the C runtime
    const uncaret = s => { let r = ''; for (let i = 0; i < s.length; i++) { if (s[i] === '^') { i++; if (i < s.length) r += s[i]; } else { if ('|&()<>"%!'.includes(s[i])) fail(`unprotected ${s[i]} in ${show(s)}`); r += s[i]; } } return r; };
    const crt = s => { const out = []; let i = 0; while (i < s.length) { while (i < s.length && ' \t'.includes(s[i])) i++; if (i >= s.length) break; let cur = '', q = false; for (; i < s.length; i++) { let b = 0; while (s[i] === '\\') { b++; i++; } if (s[i] === '"') { cur += '\\'.repeat(b >> 1); if (b & 1) cur += '"'; else if (q && s[i + 1] === '"') { cur += '"'; i++; } else q = !q; } else { cur += '\\'.repeat(b); if (i >= s.length) break; if (!q && ' \t'.includes(s[i])) break; cur += s[i]; } } out.push(cur); } return out; };
    const win = (lists, bat, sh) => { for (const l of lists) { which = bat === null ? { status: 1, stdout: '' } : { status: 0, stdout: bat + '\r\n' }; const dbl = bat !== null && /\.(cmd|bat)$/i.test(bat); const [c, a, o] = line('prog', l, { shell: sh }); eq(c, sh, 'shell'); eq(a.slice(0, -1).map(x => x.toLowerCase()), ['/d', '/s', '/c'], 'switches'); ok(o.windowsVerbatimArguments, 'the arguments are quoted a second time'); const text = a.at(-1); ok(text.startsWith('prog'), 'program'); let rest = text.slice(4);
        if (l.some(x => x === '')) rest = rest.replace(/(^| )""(?= |$)/g, '$1^"^"'.repeat(1)); if (dbl && l.some(x => x === '')) rest = rest.replace(/(^| )\^"\^"(?= |$)/g, '$1^^^"^^^"'); rest = uncaret(rest); if (dbl) rest = uncaret(rest); eq(crt(rest), l, `arguments ${show(l)} in the Windows command line ${show(text)}${dbl ? ' of a batch file' : ''}`); } };
    const WB = [null, 'C:\\x\\prog.exe', 'C:\\x\\prog.cmd', 'C:\\x\\PROG.BAT'];
    t.cases('windows', t.product(['cmd.exe', 'C:\\Windows\\System32\\cmd.exe', 'cmd', 'CMD.EXE'], WB), ([sh, bat]) => win([...map(t.strings('"\\ a', 0, 6), s => [s]), ...map(t.product(ch.filter(c => !'\n\r\v\f'.includes(c)), ch.filter(c => '\\" a^%&|'.includes(c))), ([a, b]) => [a + b, b + a])], bat, sh));
    t.cases('windows-lists', t.product(WB, t.words(['', ' ', '"', '\\', 'a b', '^', '&', 'a"b\\', '%a%'], 0, 3)), ([bat, l]) => win([l], bat, 'cmd.exe'));
    // the program that is looked up to learn whether it is a batch file
    const platform = Object.getOwnPropertyDescriptor(process, 'platform'), keepEnv = { ComSpec: process.env.ComSpec, PATHEXT: process.env.PATHEXT };
    const PROG = [['prog', 'prog'], ['prog -x', 'prog'], ['"my prog" -x', 'my prog'], ['"C:\\a b\\p"', 'C:\\a b\\p'], ["'q r' s", 'q r'], ['a.b c "d e"', 'a.b'], ['x"y z"w v', 'xy zw'], ['p  q', 'p']];
    t.cases('windows-lookup', t.product(PROG, ['win32', 'linux'], ['plain.exe', 'batch.cmd', 'batch.BAT', 'acmd', 'x.cmd.exe', null], [undefined, {}, { PATH: '/own' }, { PATH: '/own', PATHEXT: '.Q' }], [true, 'cmd.exe']), ([[cmd, name], pf, found, env, sh]) => {
        if (sh === true && pf !== 'win32') return 'skip';
        const strip = s => s.replace(/["']/g, ''), dbl = found !== null && /\.(cmd|bat)$/i.test(found); asked = null;
        which = (c, a) => strip(String((a || []).join(' '))) === name ? found === null ? { status: 1, stdout: found = null, stderr: '' } : { status: 0, stdout: `C:\\d\\${found}\r\n`, stderr: '' } : { status: 1, stdout: 'C:\\other.cmd', stderr: '' };
        Object.defineProperty(process, 'platform', { ...platform, value: pf }); process.env.ComSpec = 'C:\\Windows\\system32\\cmd.exe'; process.env.PATHEXT = '.HOST'; let c, a;
        try { [c, a] = line(cmd, ['a b'], { shell: sh, ...(env && { env }) }); } finally { Object.defineProperty(process, 'platform', platform); for (const k of Object.keys(keepEnv)) if (keepEnv[k] === undefined) delete process.env[k]; else process.env[k] = keepEnv[k]; }
        const l = `${cmd} on ${pf}, found ${found}`; eq(c, sh === true ? 'C:\\Windows\\system32\\cmd.exe' : sh, `${l}: shell`);
        eq(a.at(-1), cmd + (dbl ? ' ^^^"a^^^ b^^^"'.replace('^^^ ', '^^^ ') : ' ^"a^ b^"'), () => `${l}: command line`);
        if (asked) { const e = asked.o && asked.o.env || {}; eq(e.PATH, env && env.PATH || process.env.PATH, `${l}: search path`); eq(e.PATHEXT, env && env.PATHEXT || '.HOST', `${l}: extensions`); eq(asked.c, pf === 'win32' ? 'where' : 'which', `${l}: look-up`); }
        which = { status: 1, stdout: '' }; return l + show(env) + sh;
    });
    // ---- the whole way with a real child process
    const real = t.world().load('@curong/process').spawn;
    fs.rmSync(dir, { recursive: true, force: true }); fs.mkdirSync(dir);
    return t.casesAsync('real', t.product([true, 'bash', false], NASTY, NASTY.slice(0, t.thorough ? 16 : 4)), async ([sh, a, b]) => { const r = await real('printf', ['%s\\000', a, b, '.'], { cwd: dir, shell: sh, isToString: false }); eq(r.stdout.toString().split('\0'), [a, b, '.', ''], `printf ${show([a, b])} with shell ${sh}`); eq(r.status, 0); }).finally(() => fs.rmSync(dir, { recursive: true, force: true }));
};
