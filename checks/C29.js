'use strict';
const { ok, eq, show } = require('../lib/util');
const { overlapFs } = require('../lib/overlap');
const { Fsx, isDirT, path } = require('../lib/fsx');
exports.technique = 'explicit enumeration of all small directory trees and link configurations, executed on the real code over a scratch file system with every file-system call failing in turn (before or half-way through its effect)';
exports.bounds = 'all trees with up to 3 entries at the top and 2 below, over files, directories, and links to files, directories, dangling names and outside trees; unusual names; one failing call at every position, and every call from a position on; two overlapping calls on separate trees with a switch at any file-system call (any two for short ones), and every single call with its own simultaneous operations in deviating orders';
exports.assumptions = ['the path is given without a trailing separator'];
exports.run = async t => {
    const fx = new Fsx(); const w = t.world({ mocks: fx.mocks }); const F = w.load('@curong/fs');
    const OUT = { keep: { f: 'outside', d: { g: 'deep' } }, other: 'o', target: { a: '1', s: { b: '2' } } };
    const settle = p => p.then(v => ({ ok: true, value: v }), e => ({ ok: false, error: e }));
    const leaf = ['x', '', {}, { '->': '@/keep' }, { '->': '@/keep/f' }, { '->': 'nowhere' }, { '->': '../target' }];
    const sub = [{ a: 'y' }, { a: { '->': '@/target' } }, { a: {}, b: 'z' }, { a: { '->': '@/keep/d' }, b: { '->': '..' } }, { c: { d: { e: { '->': '@/target/s' } } } }];
    const all = [...leaf, ...sub];
    const trees = []; for (const a of all) { trees.push({ a }); for (const b of all) trees.push({ a, b }); }
    for (const a of leaf) for (const b of sub) for (const c of all) trees.push({ a, b, c });
    const roots = [...all, ...trees];
    const one = async (tree, plan, op) => {
        fx.clean(); for (const k in OUT) fx.build(k, OUT[k]); if (tree !== undefined) fx.build('named', tree);
        const before = fx.snap('.'); const p = fx.abs('named');
        const dirLike = tree !== undefined && (isDirT(tree) || tree && ['@/keep', '../target'].includes(tree['->']) && require('fs').statSync(p, { throwIfNoEntry: false })?.isDirectory());
        fx.reset(plan && { ...plan });
        const r = await settle(F[op](p)); const hit = fx.plan?.hit || 0, calls = fx.calls.length; const l = `${op}(${show(tree)})${plan ? ` with ${show(plan)}` : ''}`;
        fx.plan = null; fx.noEscape();
        const after = fx.snap('.');
        const { named: _, ...rest } = before, { named, ...arest } = after;
        if (op === 'clearDir' && tree && tree['->']) { // a link to a directory: the content of that directory is what is named
            const k = { '@/keep': 'keep', '../target': 'target' }[tree['->']];
            if (k && dirLike) { delete rest[k]; if (!hit) eq(arest[k], {}, `${l}: content left`); delete arest[k]; }
            eq(named, before.named, `${l}: changes the link`);
        }
        eq(arest, rest, `${l}: something outside the named tree changed`);
        if (tree === undefined || op === 'clearDir' && !dirLike) { ok(!r.ok, `${l}: reports success`); eq(after, before, `${l}: changes something`); return { calls, hit }; }
        if (!hit) ok(r.ok, `${l}: fails with ${show(r.error)}`);
        if (r.ok && !(op === 'clearDir' && tree['->'])) eq(named, op === 'deleteOne' ? undefined : {}, `${l}: reports success, left`);
        if (op === 'clearDir' && isDirT(tree)) ok(isDirT(named), `${l}: the directory itself is gone`);
        // a failed deletion does not leave anything that was not there
        const within = (a, b) => a === undefined || (isDirT(a) ? isDirT(b) && Object.keys(a).every(k => k in b && within(a[k], b[k])) : JSON.stringify(a) === JSON.stringify(b));
        ok(within(named, before.named), `${l}: the remaining tree has new content ${show(named)}`);
        return { calls, hit };
    };
    for (const op of ['deleteOne', 'clearDir']) {
        await t.casesAsync(op, roots, async tree => { await one(tree, null, op); });
        await t.casesAsync(`${op}-missing`, [undefined], async () => { await one(undefined, null, op); });
        await t.casesAsync(`${op}-faults`, t.thorough ? roots : roots.filter((x, i) => i < 170 || i % 3 === 0), async tree => {
            const { calls } = await one(tree, null, op);
            for (let k = 0; k < calls; k++) for (const torn of [false, true]) await one(tree, { at: k, torn }, op);
            for (let k = 0; k < calls; k++) await one(tree, { from: k }, op);
        });
        await t.casesAsync(`${op}-codes`, t.product([{ a: 'x', b: { c: 'y' } }, 'x', {}, { '->': '@/keep' }], ['EPERM', 'EBUSY', 'ENOTEMPTY', 'ENOENT', 'EMFILE', 'ELOOP']), async ([tree, code]) => { const { calls } = await one(tree, null, op); for (let k = 0; k < calls; k++) await one(tree, { at: k, code }, op); });
        const NAMES = ['.hidden', '..x', '...', '-rf', ' ', ' lead', 'trail ', 'a b', '*', '?', '[a]', '{a,b}', 'a\\b', '\n', '名字', '😀', '~', '$HOME', '%2e', '#', 'a.lnk', 'x'.repeat(255), "'", '"', '&', ';', '0', 'null', 'undefined', '__proto__', 'constructor'];
        await t.casesAsync(`${op}-names`, t.product(NAMES, ['v', {}, { q: 'v' }, { '->': '@/target' }]), async ([n, v]) => { const tree = Object.create(null); Object.defineProperty(tree, n, { value: v, enumerable: true, writable: true, configurable: true }); const o = { ...{ z: '1' } }; await one(Object.defineProperty(o, n, { value: v, enumerable: true, writable: true, configurable: true }), null, op); });
    }
    // every short name, wide and deep trees
    const short = [...t.words(['.', 'a', '-', '~', 'B'], 1, 3)].map(x => x.join('')).filter(n => n !== '.' && n !== '..');
    for (const op of ['deleteOne', 'clearDir']) {
        await t.casesAsync(`${op}-short-names`, short, async n => { await one({ [n]: 'v', zz: { [n]: 'w' } }, null, op); await one({ [n]: { [n]: 'w', y: { '->': '@/target' } } }, null, op); });
        await t.casesAsync(`${op}-wide`, t.product([3, 4, 5, 8, 17, 65], ['x', {}, { a: 'y' }, { '->': '@/keep' }]), async ([n, v]) => { const tree = Object.fromEntries(t.range(1, n).map(i => ['e' + i, v])); await one(tree, null, op); await one({ d: tree, f: 'x' }, null, op); });
        await t.casesAsync(`${op}-deep`, t.range(2, 14), async n => { let v = 'leaf'; for (let i = 0; i < n; i++) v = { d: v, f: 'x', l: { '->': '@/keep' } }; await one(v, null, op); });
    }
    // siblings whose names extend the name of the tree stay
    await t.casesAsync('siblings', t.product(['deleteOne', 'clearDir'], ['d', 'd.txt', '.d', 'd d']), async ([op, n]) => {
        fx.clean(); for (const k of ['d', 'd.txt', '.d', 'd d', 'd1']) fx.build(k, { f: k }); await F[op](fx.abs(n));
        const s = fx.snap('.'); for (const k of ['d', 'd.txt', '.d', 'd d', 'd1']) eq(s[k], k !== n ? { f: k } : op === 'deleteOne' ? undefined : {}, `${op} ${n}`); fx.noEscape();
    });
    // every pair of operations started together on different trees keeps them apart
    await t.casesAsync('together', t.product(['deleteOne', 'clearDir'], ['deleteOne', 'clearDir']), async ([a, b]) => {
        fx.clean(); for (const k of ['p', 'q', 'r']) fx.build(k, { f: k, d: { g: k, l: { '->': '@/r' } } }); await Promise.all([F[a](fx.abs('p')), F[b](fx.abs('q'))]);
        const s = fx.snap('.'); eq(s.p, a === 'deleteOne' ? undefined : {}); eq(s.q, b === 'deleteOne' ? undefined : {}); eq(s.r, { f: 'r', d: { g: 'r', l: { '->': '@/r' } } }); fx.noEscape();
    });
    // ---- two calls on different trees under way at the same time
    const op = (n, tree, run) => ({ n, tree, run });
    await overlapFs(t, 'at once', fx, F, [
        op('clearDir', { d: { a: 'x', s: { b: 'y' }, l: { '->': '../keep' } }, keep: { k: 'v' } }, (F, p) => F.clearDir(p('d'))), op('clearDir other', { e: { one: '1', two: {} } }, (F, p) => F.clearDir(p('e'))),
        op('deleteOne dir', { d: { a: 'x' }, z: 'z' }, (F, p) => F.deleteOne(p('d'))), op('deleteOne file', { f: 'x', g: 'y' }, (F, p) => F.deleteOne(p('f'))), op('deleteOne link', { l: { '->': 'keep' }, keep: { k: 'v' } }, (F, p) => F.deleteOne(p('l'))), op('deleteOne none', { f: 'x' }, (F, p) => F.deleteOne(p('n'))), op('clearDir none', { f: 'x' }, (F, p) => F.clearDir(p('f'))),
    ]);
    fx.dispose();
};
