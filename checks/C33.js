'use strict';
const { again } = require('../lib/again');
const { ok, eq, show, attempt } = require('../lib/util');
const path = require('path'), os = require('os');
exports.technique = 'bounded exhaustive enumeration of paths (as words over separators, dots, prefixes, names, reserved words and wildcards) and of home directories, each decided by a reference parser of the path grammar and a reference resolver';
exports.bounds = 'all words of up to 6 tokens; all strings up to length 8 over the separator alphabet; lengths around 248, 260, 32755 and 32767; POSIX and Windows path rules; every ordered pair of representative calls, results and arguments changed in between';
exports.assumptions = ['control characters and white space other than the blank are outside the domain of Windows-path recognition', "whether a Windows path may end in '..' is not judged"];
exports.shards = 4;
exports.run = async t => {
    const w = t.world(); const F = w.load('@curong/path'); const D = t.thorough ? 1 : 0;
    const RES = new Set(['CON', 'PRN', 'AUX', 'NUL', ...t.range(1, 9).flatMap(i => ['COM' + i, 'LPT' + i])]);
    const ref = (p, ext) => {                            // undefined: not judged
        const size = ext ? 32767 : 260; if (p.length > size) return false;
        let s = p; const long = s.startsWith('\\\\?\\'); if (long) s = s.slice(4);
        let rest;
        if (/^[A-Za-z]:/.test(s)) rest = s.slice(2); else if (long) return false;
        else if (s.startsWith('..')) rest = s.slice(2); else if (s.startsWith('.')) rest = s.slice(1); else return false;
        if (rest[0] !== '\\') return false; rest = rest.slice(1); if (rest === '') return true;
        const closed = rest.endsWith('\\'); const names = (closed ? rest.slice(0, -1) : rest).split('\\');
        for (const n of names) { if (n === '..') continue; if (n === '' || n.length > size - 12 || RES.has(n) || /[<>:"/|?*]/.test(n) || n.endsWith('.') || n.endsWith(' ')) return false; }
        return !closed && names.at(-1) === '..' ? undefined : true;
    };
    const HEAD = '\\\\?\\';
    const isWin = p => {
        for (const ext of [undefined, false, true]) { const e = ref(p, ext); for (let i = 0; i < 2; i++) { const r = ext === undefined ? F.isWindowsPath(p) : F.isWindowsPath(p, ext); ok(typeof r === 'boolean', 'not a boolean'); if (e !== undefined) eq(r, e, `isWindowsPath(${show(p)}, ${ext}), call ${i + 1}`); } }
        const e = ref(p, true); const l = F.isWindowsExtendedLengthPath(p); if (e !== undefined || !p.startsWith(HEAD)) eq(l, p.startsWith(HEAD) && e, `isWindowsExtendedLengthPath(${show(p)})`);
        const u = F.unifiedSeparator(p); eq(u, l ? p : p.split('\\').join('/'), `unifiedSeparator(${show(p)})`); eq(F.unifiedSeparator(u), u, `unifiedSeparator again on ${show(u)}`);
        return [e, l];
    };
    const key = { key: p => 'path ' + JSON.stringify(p).slice(0, 100) };
    t.cases('windows-chars', t.strings('\\.c:?', 0, 7 + D), isWin, key);
    t.cases('windows-chars-2', t.strings('\\. a/', 0, 5 + D), s => { isWin('c:' + s); isWin('.' + s); isWin(HEAD + 'c:' + s); isWin(HEAD + s); isWin(s); }, key);
    const TOK = ['\\', '/', '.', '..', 'a', ' ', 'COM1', 'CON', 'LPT0', '*'];
    t.cases('windows-words', t.words(TOK, 0, 4 + D), x => { const s = x.join(''); for (const h of ['c:\\', HEAD + 'Z:\\', '..\\']) isWin(h + s); });
    t.cases('windows-names', t.product([...RES, 'COM0', 'LPT0', 'COM10', 'CON1', 'CONTENT', 'con', 'CO', 'NUL.txt', 'aCON', 'PRN ', 'AUXx', 'NULL', '中国', 'a b', ' a', '.a', 'a.b', '...', '~', '😀', 'a<', 'a>', 'a:', 'a"', 'a|', 'a?', 'a*', '<a', '>', 'x?y', '$&', '%', '#'], ['c:\\', 'Q:\\', '.\\', '..\\', HEAD + 'a:\\', HEAD, '', '\\', '\\\\', 'c:', 'ab:\\', '1:\\', '中:\\'], ['', 'x\\', 'x\\y\\', '..\\'], ['', '\\', '\\z', '\\\\', '\\..', '/']), ([n, a, b, c]) => isWin(a + b + n + c));
    t.cases('windows-drive-letters', t.range(0, 300), c => { isWin(String.fromCharCode(c) + ':\\a'); isWin(HEAD + String.fromCharCode(c) + ':\\a'); });
    t.cases('windows-lengths', t.product([...t.range(240, 264), ...t.range(32750, 32770)], ['c:\\', '.\\', HEAD + 'c:\\'], ['one', 'many', 'two']), ([n, h, k]) => { const len = n; const body = k === 'one' ? 'a'.repeat(len - h.length) : k === 'two' ? 'x\\' + 'a'.repeat(len - h.length - 2) : 'ab\\'.repeat(Math.ceil(len / 3)).slice(0, len - h.length - 1) + 'a'; isWin(h + body); isWin(h + 'a'.repeat(n)); });
    t.cases('windows-blank-end', t.product(['c:\\', '.\\', HEAD + 'c:\\'], ['a', 'a\\b', '..\\a', 'x.y'], ['\t', '\n', '\r\n', '\u00a0', '\u3000', ' \t']), ([h, n, e]) => { ok(F.isWindowsPath(h + n), 'without'); for (const ext of [false, true]) eq(F.isWindowsPath(h + n + e, ext), false, show(h + n + e)); });
    // time: a path that is refused at its very end (or not at all) must not cost more than a moment
    t.cases('windows-time', t.product(['a', 'a.', 'a\\', 'ab', ' ', '.', '\\', 'a a', '..\\', 'CON'], ['', '.', ' ', '/', '?', '\\.', 'a. '], ['c:\\', '.\\', HEAD + 'c:\\'], [12, 16, 18, 20, 24, 30, 60, 120, 1000, 15000]), ([u, end, h, n]) => {
        const p = h + u.repeat(n) + end; const t0 = process.hrtime.bigint(); F.isWindowsPath(p); F.isWindowsPath(p, true); const ms = Number(process.hrtime.bigint() - t0) / 1e6; ok(ms < 2500, `isWindowsPath of ${show(h)} + ${show(u)} x ${n} + ${show(end)} takes ${Math.round(ms)} ms`);
    });
    t.cases('windows-source', t.strings('\\.ac:/', 0, 6), s => { const r = new RegExp(`^${F.windowsPathSource}$`).test(s); if (ref(s, true) === true) ok(r, `windowsPathSource does not match ${show(s)}`); });
    // ---- separators: no other character is touched
    t.cases('separators', t.range(0, 0xff), h => { for (let c = h * 256; c < h * 256 + 256; c++) { const x = String.fromCharCode(c); eq(F.unifiedSeparator(`a${x}b\\${x}`), `a${x === '\\' ? '/' : x}b/${x === '\\' ? '/' : x}`); } });
    t.cases('separators-words', t.words(['\\', '/', 'a', 'c:', HEAD, '.', '\n', '$&'], 0, 5 + D), x => { const s = x.join(''), l = F.isWindowsExtendedLengthPath(s); if (!s.includes('\n')) isWin(s); eq(F.unifiedSeparator(s), l ? s : s.split('\\').join('/'), `unifiedSeparator(${show(s)})`); });
    // ---- normalize, POSIX rules
    const posix = s => {
        if (s === '') return '.'; const abs = s[0] === '/', tail = s.at(-1) === '/'; const out = [];
        for (const p of s.split('/')) { if (p === '' || p === '.') continue; if (p === '..') { if (out.length && out.at(-1) !== '..') out.pop(); else if (!abs) out.push('..'); } else out.push(p); }
        let r = out.join('/'); if (abs) return '/' + r + (tail && r ? '/' : ''); if (r === '') return tail ? './' : '.'; return r + (tail ? '/' : '');
    };
    const HOMES = ['/home/u', '/', '/h$&$1$$/x', '/a b', '/r/', '/x/..y', ''];
    const load = (home, p) => t.world({ mocks: { os: { ...os, homedir: () => home, default: { ...os, homedir: () => home } }, path: p } }).load('@curong/path').normalize;
    const expand = (s, home) => s === '~' || s.startsWith('~/') || s.startsWith('~\\') ? home + s.slice(1) : s;
    const PIECES = ['~', '/', '.', '..', 'a', '\\', 'b~'];
    for (const home of HOMES.slice(0, t.thorough ? 7 : 6)) {
        const N = load(home, path.posix); const tag = `normalize-posix:${home}`;
        t.cases(tag, t.words(PIECES, 0, home === '/home/u' ? 6 : 4 + D), x => {
            const s = x.join(''), e = posix(expand(s, home)), r = N(s); eq(r, e, `normalize(${show(s)}) with home ${show(home)}`);
            eq(path.posix.resolve('/p/q/r', r), path.posix.resolve('/p/q/r', expand(s, home)), `location of ${show(s)}`);
            if (!/^~([/\\]|$)/.test(r)) eq(N(r), r, `normalize again on ${show(r)}`); return r;
        });
        t.cases(tag + ':chars', t.range(0, 0xff), h => { for (let c = h * 256; c < h * 256 + 256; c++) { const x = String.fromCharCode(c); for (const s of [`~${x}`, `${x}~`, `a/${x}/..`, `${x}`]) eq(N(s), posix(expand(s, home)), `normalize(${show(s)})`); } });
    }
    // ---- normalize, Windows rules
    for (const home of ['C:\\Users\\u', 'D:\\', 'C:\\h$&x']) {
        const N = load(home, path.win32);
        t.cases(`normalize-windows:${home}`, t.words(['~', '/', '.', '..', 'a', '\\', 'c:'], 0, 5 + D), x => {
            const s = x.join(''), e = path.win32.normalize(expand(s, home)), r = N(s); eq(r, e, `normalize(${show(s)}) on Windows with home ${show(home)}`); if (path.win32.normalize(e) === e && !/^~([/\\]|$)/.test(r)) eq(N(r), r, `normalize again on ${show(r)}`);
            return r;
        });
    }
    t.cases('bad', [undefined, null, 1, {}, [], true], v => { ok(!attempt(() => F.normalize(v)).ok, `normalize(${show(v)}) accepted`); });
    await again(t, [['normalize', F.normalize, () => ['a/../b//c']], ['normalize', F.normalize, () => ['~/x']], ['normalize', F.normalize, () => ['C:\\\\a/b']], ['normalize', F.normalize, () => ['\\\\\\\\?\\\\C:\\\\a']], ['normalize', F.normalize, () => ['']], ['unifiedSeparator', F.unifiedSeparator, () => ['a/../b//c']], ['unifiedSeparator', F.unifiedSeparator, () => ['~/x']], ['unifiedSeparator', F.unifiedSeparator, () => ['C:\\\\a/b']], ['unifiedSeparator', F.unifiedSeparator, () => ['\\\\\\\\?\\\\C:\\\\a']], ['unifiedSeparator', F.unifiedSeparator, () => ['']], ['isWindowsPath', F.isWindowsPath, () => ['a/../b//c']], ['isWindowsPath', F.isWindowsPath, () => ['~/x']], ['isWindowsPath', F.isWindowsPath, () => ['C:\\\\a/b']], ['isWindowsPath', F.isWindowsPath, () => ['\\\\\\\\?\\\\C:\\\\a']], ['isWindowsPath', F.isWindowsPath, () => ['']], ['isWindowsExtendedLengthPath', F.isWindowsExtendedLengthPath, () => ['a/../b//c']], ['isWindowsExtendedLengthPath', F.isWindowsExtendedLengthPath, () => ['~/x']], ['isWindowsExtendedLengthPath', F.isWindowsExtendedLengthPath, () => ['C:\\\\a/b']], ['isWindowsExtendedLengthPath', F.isWindowsExtendedLengthPath, () => ['\\\\\\\\?\\\\C:\\\\a']], ['isWindowsExtendedLengthPath', F.isWindowsExtendedLengthPath, () => ['']]]);
};
