'use strict';
const { ok, eq, show } = require('../lib/util');
const { overlapFs } = require('../lib/overlap');
const { Fsx, isDirT, isLinkT } = require('../lib/fsx');
exports.technique = 'explicit enumeration of source and destination trees, executed on the real code over a scratch file system with every file-system call failing in turn (before or half-way through its effect), against a tree-overlay model';
exports.bounds = 'sources with up to 3 entries and 3 levels over files, directories and links; destinations absent, empty, partly or completely present, of another kind; both values of forcibly; one failing call at every position and all calls from a position on; two overlapping calls on separate trees with a switch at any file-system call (any two for short ones), and every single call with its own simultaneous operations in deviating orders';
exports.assumptions = ['a link copied onto a directory is outside the domain of the overlay model', 'a destination file that is a link is outside the domain of the overlay model (only the safety of the source is claimed there)'];
exports.shards = 4;
exports.run = async t => {
    const fx = new Fsx(); const w = t.world({ mocks: fx.mocks }); const F = w.load('@curong/fs');
    const settle = p => p.then(v => ({ ok: true, value: v }), e => ({ ok: false, error: e }));
    const OUT = { out: { f: 'outside', d: { g: 'deep' } } };
    // what the destination becomes: undefined when the copy cannot be made
    const FAIL = Symbol('fail');
    const overlay = (src, dst, force) => {
        if (isDirT(src)) {
            if (dst !== undefined && !isDirT(dst)) return FAIL;
            const r = { ...dst }; for (const k of Object.keys(src)) { const x = overlay(src[k], dst?.[k], force); if (x === FAIL) return FAIL; r[k] = x; } return r;
        }
        if (isDirT(dst)) return FAIL; // a directory is in the way
        if (dst !== undefined && !force) return dst;
        return src;
    };
    const hasLinkUnder = (src, dst) => isLinkT(dst) ? typeof src === 'string' : isLinkT(src) && isDirT(dst) ? true : isDirT(src) && isDirT(dst) && Object.keys(src).some(k => k in dst && hasLinkUnder(src[k], dst[k]));
    const one = async ({ src, dst, o, plan, deep }) => {
        fx.clean(); fx.build('out', OUT.out); if (src !== undefined) fx.build('src', src); const to = deep ? 'p/q/dst' : 'dst'; if (dst !== undefined) fx.build('dst', dst);
        const before = fx.snap('.'); fx.reset(plan && { ...plan });
        const l = `copy(${show(src)}) to ${show(dst)}, ${show(o)}${plan ? ` with ${show(plan)}` : ''}`;
        const r = await settle(o === undefined ? F.copy(fx.abs('src'), fx.abs(to)) : F.copy(fx.abs('src'), fx.abs(to), o)); const calls = fx.calls.length, hit = fx.plan?.hit || 0; fx.plan = null; fx.noEscape();
        const after = fx.snap('.');
        eq(after.src, before.src, `${l}: the source`);
        const force = o?.forcibly !== false;
        const got = deep ? after.p?.q?.dst : after.dst;
        const kept = (a, b) => isDirT(a) ? isDirT(b) && Object.keys(a).every(k => k in b && kept(a[k], b[k])) : JSON.stringify(a) === JSON.stringify(b);
        if (hasLinkUnder(src, dst)) { if (!force) { eq(after.out, before.out, `${l}: what a link in the destination points to`); ok(kept(before.dst, after.dst), `${l}: existing content changed although forcibly is false: ${show(after.dst)}`); } return { calls }; }
        eq(after.out, before.out, `${l}: something else`);
        const e = src === undefined ? FAIL : overlay(src, deep ? undefined : dst, force);
        if (e === FAIL) { ok(!r.ok, `${l}: reports success`); return { calls }; }
        if (!hit) ok(r.ok, `${l}: fails with ${String(show(r.error)).slice(0, 500)}`);
        if (r.ok) eq(got, e, `${l}: reports success, destination`);
        if (!r.ok && !force && dst !== undefined) { // what was there is still there
            ok(kept(dst, got), `${l}: existing content changed although forcibly is false: ${show(got)}`);
        }
        return { calls };
    };
    const leaf = ['x', '', {}, { '->': '@/out' }, { '->': '@/out/f' }, { '->': 'nowhere' }, { '->': 'a' }];
    const sub = [{ a: 'y' }, { a: { '->': '../..' } }, { a: {}, b: 'z' }, { c: { d: { e: 'deep', l: { '->': '@/out/d' } } } }];
    const all = [...leaf, ...sub];
    const srcs = [...all]; for (const a of all) { srcs.push({ a }); for (const b of all) srcs.push({ a, b }); }
    srcs.push({ a: 'x', b: { c: 'y', d: { e: 'z' } }, f: { '->': 'a' } });
    const O = [undefined, { forcibly: true }, { forcibly: false }];
    await t.casesAsync('fresh', srcs, async src => { for (const o of O) await one({ src, o }); await one({ src, deep: true }); });
    await t.casesAsync('missing', [undefined], async () => { for (const o of O) for (const dst of [undefined, 'x', { a: '1' }]) await one({ src: undefined, dst, o }); });
    const dsts = ['old', {}, { a: 'old' }, { a: {} }, { a: 'old', z: 'other' }, { a: { a: 'old', q: 'other' }, b: 'old' }, { b: { c: 'old', d: { e: 'old', x: 'other' } } }, { c: { d: { e: 'old' } } }, { a: { '->': '@/out' } }, { '->': '@/out' }, { '->': 'nowhere' }];
    await t.casesAsync('overlay', t.product(srcs.filter((x, i) => t.thorough || i < 60 || i % 2 === 0), dsts), async ([src, dst]) => { for (const o of O) await one({ src, dst, o }); });
    const fsrc = [...all, ...srcs.slice(-40)], fdst = t.thorough ? [undefined, ...dsts] : [undefined, { a: 'old', z: 'other' }, { b: { c: 'old', d: { e: 'old' } } }];
    await t.casesAsync('faults', t.product(fsrc, fdst), async ([src, dst]) => { for (const o of [undefined, { forcibly: false }]) { const { calls } = await one({ src, dst, o }); for (let k = 0; k < calls; k++) { for (const torn of [false, true]) await one({ src, dst, o, plan: { at: k, torn } }); await one({ src, dst, o, plan: { from: k } }); } } });
    await t.casesAsync('codes', t.product([{ a: 'x', b: { c: 'y' }, l: { '->': 'a' } }, 'x', { '->': 'a' }], ['ENOSPC', 'EACCES', 'ENOENT', 'EEXIST', 'EPERM', 'EMFILE']), async ([src, code]) => { const { calls } = await one({ src }); for (let k = 0; k < calls; k++) { const before = fx.calls[k]; if (code === 'ENOENT' || code === 'EEXIST') { if (!['copyFile', 'symlink', 'readdir', 'readlink'].includes(before?.name)) { await one({ src }); continue; } } await one({ src, plan: { at: k, code } }); await one({ src }); } });
    // wide trees: every subset of the entries is there already; deep trees: the destination reaches to every depth; every short name
    await t.casesAsync('wide', t.product(t.range(2, t.thorough ? 6 : 5).flatMap(n => t.range(0, (1 << n) - 1).map(m => [n, m])), [false, true]), async ([[n, m], nested]) => {
        const mk = (v, f) => Object.fromEntries(t.range(0, n - 1).filter(f).map(i => ['e' + i, nested && i % 2 ? { a: v + i } : v + i]));
        for (const o of O) { await one({ src: mk('new', () => true), dst: mk('old', i => m >> i & 1), o }); await one({ src: { d: mk('new', () => true), z: 'n' }, dst: { d: mk('old', i => m >> i & 1) }, o }); }
    });
    await t.casesAsync('wide-fresh', [8, 17, 40], async n => { const src = Object.fromEntries(t.range(0, n - 1).map(i => ['e' + i, i % 3 ? 'v' + i : { '->': 'e1' }])); await one({ src }); await one({ src: { d: src } }); });
    await t.casesAsync('deep', t.product(t.range(2, 10), t.range(0, 10)), async ([n, k]) => { if (k > n) return; const mk = (v, m) => { let x = { leaf: v }; for (let i = 0; i < m; i++) x = { d: x, f: v }; return x; }; let dst = { f: 'old' }; for (let i = 1; i < k; i++) dst = { d: dst, f: 'old' }; if (k === n) dst = mk('old', n); for (const o of O) await one({ src: mk('new', n), dst: k ? dst : undefined, o }); });
    await t.casesAsync('short-names', [...t.words(['.', 'a', '-', '~'], 1, 3)].map(x => x.join('')).filter(n => n !== '.' && n !== '..'), async n => { await one({ src: { [n]: 'v', d: { [n]: { [n]: 'w' } } } }); await one({ src: { [n]: 'v' }, dst: { [n]: 'old' }, o: { forcibly: false } }); });
    // into itself, onto itself
    await t.casesAsync('itself', t.product([{ a: 'x', b: { c: 'y' }, l: { '->': 'a' } }, { b: {} }, {}], ['src/n', 'src/..n', 'src/b/...n', 'src/.n', 'src/b/n', 'src/n/m', 'src']), async ([src, to]) => { for (const o of O) { fx.clean(); fx.build('src', src); const before = fx.snap('src'); const r = await settle(F.copy(fx.abs('src'), fx.abs(to), o)); fx.noEscape(); eq(fx.snap('src'), before, `copy of src to ${to}: the source`); if (to !== 'src') ok(!r.ok, `copy of src to ${to} reports success`); } });
    await t.casesAsync('onto-itself', ['x', { '->': 'a' }, { '->': '@/out' }], async src => { for (const o of O) { fx.clean(); fx.build('out', OUT.out); fx.build('src', src); await settle(F.copy(fx.abs('src'), fx.abs('src'), o)); eq(fx.snap('src'), src, 'copy onto itself'); } });
    await t.casesAsync('onto-itself-spelt', t.product(['x', { '->': 'a' }, { '->': '@/out' }, { '->': 'src' }], ['q/../src', './src', 'q//..//src', 'q/./../src'], [false, true]), async ([src, to, back]) => { for (const o of O) { fx.clean(); fx.build('out', OUT.out); fx.build('q', {}); fx.build('src', src); const a = fx.abs('src'), b = fx.root + '/' + to; await settle(F.copy(back ? b : a, back ? a : b, o)); eq(fx.snap('src'), src, `copy onto itself, spelt ${to}`); eq(fx.snap('out'), OUT.out); } });
    await t.casesAsync('link-in-the-way', t.product(['x', '', { '->': 'a' }], ['@/out/f', '@/out/new', '@/out', '@/out/d', 'dst', 'nowhere'], [0, 1, 2]), async ([src, at, depth]) => { let a = src, b = { '->': at }; for (let i = 0; i < depth; i++) { a = { n: a, z: '1' }; b = { n: b }; } await one({ src: a, dst: b, o: { forcibly: false } }); await one({ src: a, dst: b, o: {} }); });
    await t.casesAsync('prefix', ['src2', 'srcx/y', 'sr'], async to => { fx.clean(); fx.build('src', { a: 'x', b: { c: 'y' } }); await F.copy(fx.abs('src'), fx.abs(to)); eq(fx.snap(to), { a: 'x', b: { c: 'y' } }); });
    const NAMES = ['.hidden', '..x', '...', ' ', 'a b', '*', 'a\\b', '\n', '名字', '😀', '~', '%2e', '#', 'a.lnk', 'x'.repeat(255), "'", '__proto__', '-rf'];
    await t.casesAsync('names', NAMES, async n => { const mk = v => Object.defineProperty({ z: '1' }, n, { value: v, enumerable: true, writable: true, configurable: true }); for (const v of ['v', {}, { q: 'v' }, { '->': '@/out' }]) { fx.clean(); fx.build('out', OUT.out); fx.build('src', mk(v)); await F.copy(fx.abs('src'), fx.abs('dst')); eq(fx.snap('dst'), fx.snap('src'), `name ${show(n)}`); fx.noEscape(); } });
    await t.casesAsync('bytes', [Buffer.from([0, 255, 128, 10, 13]), Buffer.alloc(70000, 1), Buffer.alloc(1 << 20, 'ab'), Buffer.from('\ufeffx')], async b => { fx.clean(); fx.build('src', { f: b }); await F.copy(fx.abs('src'), fx.abs('dst')); eq(fx.snap('dst'), fx.snap('src')); });
    // ---- links
    await t.casesAsync('copySymbolicLink', t.product([{ '->': '@/out' }, { '->': '@/out/f' }, { '->': 'nowhere' }, { '->': 'a' }, 'x', {}, undefined], [undefined, 'old', { a: 'old' }, { '->': '@/out' }], ['dst', 'p/q/dst']), async ([src, dst, to]) => {
        for (let k = -1, n = 0; k <= n; k++) {
            fx.clean(); fx.build('out', OUT.out); if (src !== undefined) fx.build('src', src); if (dst !== undefined) fx.build('dst', dst); const before = fx.snap('.'); fx.reset(k >= 0 ? { at: k } : null);
            const r = await settle(F.copySymbolicLink(fx.abs('src'), fx.abs(to))); if (k < 0) n = fx.calls.length - 1; const hit = fx.plan?.hit; fx.plan = null; fx.noEscape(); const after = fx.snap('.'); const l = `copySymbolicLink(${show(src)}) to ${to}, existing ${show(dst)}, failing call ${k}`;
            eq(after.src, before.src, `${l}: source`); eq(after.out, before.out, l); if (dst !== undefined) eq(after.dst, before.dst, `${l}: existing destination`);
            const good = isLinkT(src) && (to !== 'dst' || dst === undefined); if (!good) ok(!r.ok, `${l}: reports success`); else if (!hit) ok(r.ok, `${l}: ${show(r.error)}`);
            if (r.ok) eq(to === 'dst' ? after.dst : after.p.q.dst, src, l);
        }
    });
    await t.casesAsync('symbolicLink', [{ '->': '@/out' }, { '->': 'nowhere' }, { '->': 'a b/../c' }, 'x', {}, undefined], async src => { fx.clean(); if (src !== undefined) fx.build('src', src); const v = await F.symbolicLink(fx.abs('src')); eq(v, isLinkT(src) ? src['->'].replace('@', fx.root) : null); });
    // ---- one file into the same place below another directory
    const FT = ['new', '', 'x'.repeat(600)];
    await t.casesAsync('copyFile', t.product(FT, [undefined, 'new', 'old', 'new\0', 'x'.repeat(599), {}], ['f', 'd/f', 'd/e/f.txt'], [undefined, { forcibly: true }, { forcibly: false }]), async ([c, dst, rel, o]) => {
        const mk = v => rel.split('/').reverse().reduce((m, k) => ({ [k]: m }), v);
        const run = async plan => {
            fx.clean(); fx.build('src', { ...mk(c), other: 'o' }); fx.build('dst', dst === undefined ? {} : mk(dst)); const before = fx.snap('.'); fx.reset(plan && { ...plan });
            const r = await settle(F.copyFile(fx.abs('src/' + rel), fx.abs('src'), fx.abs('dst'), o)); const calls = fx.calls.length, hit = fx.plan?.hit || 0, hitName = fx.plan?.hitName; fx.plan = null; fx.noEscape(); const after = fx.snap('.'); const l = `copyFile(${rel}, ${show(c).slice(0, 30)}) onto ${show(dst).slice(0, 30)}, ${show(o)}, ${show(plan)}`;
            eq(after.src, before.src, `${l}: source`); if (plan?.from === undefined && hitName !== 'close') ok(fx.handles === 0, `${l}: a file is left open`);
            if (dst && isDirT(dst)) { ok(!r.ok, `${l}: reports success`); eq(after.dst, before.dst, `${l}: destination directory`); return calls; }
            if (!hit || plan.nth === 0 && plan.name === 'copyFile' && o?.forcibly !== false) ok(r.ok, `${l}: ${show(r.error)}`);
            if (r.ok) { eq(r.value, fx.abs('dst/' + rel), `${l}: result`); eq(after.dst, mk(c), `${l}: reports success`); }
            return calls;
        };
        const n = await run(null);
        for (let k = 0; k < n; k++) { for (const torn of [false, true]) await run({ at: k, torn }); await run({ from: k }); }
        await run({ name: 'copyFile' }); await run({ name: 'copyFile', torn: true }); await run({ name: 'copyFile', nth: 0, torn: true }); await run({ name: 'copyFile', nth: 0, code: 'EACCES' });
    });
    // ---- two copies on different trees under way at the same time
    const op = (n, tree, run) => ({ n, tree, run });
    await overlapFs(t, 'at once', fx, F, [
        op('copy tree', { s: { a: '1', b: { c: '2' }, l: { '->': 'a' } } }, (F, p) => F.copy(p('s'), p('to/deep'))), op('copy onto', { s: { a: 'new', q: { r: 'new' } }, d: { a: 'old', q: { z: 'old' } } }, (F, p) => F.copy(p('s'), p('d'))),
        op('copy beside', { s: { a: 'new', n: 'new', q: { r: 'new' } }, d: { a: 'old', q: { r: 'old' } } }, (F, p) => F.copy(p('s'), p('d'), { forcibly: false })), op('copy file', { f: 'text' }, (F, p) => F.copy(p('f'), p('g'))), op('copy file below', { f: 'text' }, (F, p) => F.copy(p('f'), p('x/y/g'))), op('copy link', { k: 'v', l: { '->': 'k' } }, (F, p) => F.copy(p('l'), p('m'))), op('copy none', { f: 'x' }, (F, p) => F.copy(p('n'), p('m'))),
        op('copyFile', { s: { x: { f: 'text' } }, d: {} }, (F, p) => F.copyFile(p('s/x/f'), p('s'), p('d'))), op('copyFile over', { s: { f: 'text' }, d: { f: 'older text' } }, (F, p) => F.copyFile(p('s/f'), p('s'), p('d'))), op('copySymbolicLink', { k: { v: '' }, l: { '->': 'k' } }, (F, p) => F.copySymbolicLink(p('l'), p('q/m'))),
    ]);
    fx.dispose();
};
