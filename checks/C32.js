'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { overlapFs } = require('../lib/overlap');
const { Fsx, isDirT, isLinkT } = require('../lib/fsx');
const fs = require('fs');
exports.technique = 'explicit enumeration of file contents, trees, options and path kinds, executed on the real code over a scratch file system with every file-system call failing in turn, against a model of the tree';
exports.bounds = 'file pairs of every length up to 8 and around 512, 1024 and 64 Ki with a difference at every tested position; all trees of the generator (3 levels, links included); every kind of value, option and failing call for reading and writing; two overlapping calls on separate trees with a switch at any file-system call (any two for short ones), and every single call with its own simultaneous operations in deviating orders; directories of up to 130000 entries and 130 levels, files of up to 32 MiB';
exports.assumptions = ['names ending in .lnk are shortcuts and outside the domain of listing on this host'];
exports.shards = 2;
exports.run = async t => {
    const fx = new Fsx(); const w = t.world({ mocks: fx.mocks }); const F = w.load('@curong/fs');
    const settle = p => p.then(v => ({ ok: true, value: v }), e => ({ ok: false, error: e }));
    // ---- comparing
    const A = fx.abs('a'), B = fx.abs('b');
    const cmp = async (x, y) => { fs.writeFileSync(A, x); fs.writeFileSync(B, y); fx.reset(); const e = Buffer.from(x).equals(Buffer.from(y)); const l = () => `diffFile of ${show(x).slice(0, 60)} (${x.length}) and ${show(y).slice(0, 60)} (${y.length})`; eq(await F.diffFile(A, B), e, l()); eq(await F.diffFile(B, A), e, l()); ok(fx.handles === 0, `${l()}: a file is left open`); fx.noEscape(); };
    await t.casesAsync('diff-small', t.product([...t.strings('a\0', 0, 4)], [...t.strings('a\0', 0, 4)]), ([x, y]) => cmp(x, y));
    const SIZES = [1, 2, 255, 256, 511, 512, 513, 514, 1023, 1024, 1025, 1535, 1536, 1537, 4095, 4096, 4097];
    await t.casesAsync('diff-sizes', t.product(SIZES, SIZES, [0, 97]), ([n, m, f]) => cmp(Buffer.alloc(n, f), Buffer.alloc(m, f)));
    await t.casesAsync('diff-position', t.product([513, 1025, 1536, 2000], [0, 1, 7, 255, 256, 510, 511, 512, 513, 767, 1023, 1024, 1025, 1535, 1536, 1999], [0, 128]), async ([n, p, f]) => { if (p >= n) return; const x = Buffer.alloc(n, f), y = Buffer.alloc(n, f); y[p] ^= 1; await cmp(x, y); await cmp(x, Buffer.from(x)); });
    await t.casesAsync('diff-large', t.product([65535, 65536, 65537, 200000], [0, 65535, 65536, 199999]), async ([n, p]) => { const x = Buffer.alloc(n, 7), y = Buffer.alloc(n, 7); await cmp(x, y); if (p < n) { y[p] = 0; await cmp(x, y); } await cmp(x, x.subarray(0, n - 1)); });
    await t.casesAsync('diff-paths', t.product(['file', 'dir', 'none', 'link', 'dangling'], ['file', 'dir', 'none', 'link', 'dangling']), async ([x, y]) => { fx.clean(); fx.build('file', 'v'); fx.build('dir', {}); fx.build('link', { '->': 'file' }); fx.build('dangling', { '->': 'no' }); fx.reset(); const r = await settle(F.diffFile(fx.abs(x), fx.abs(y))); const real = n => n === 'file' || n === 'link'; if (real(x) && real(y)) eq(r.value, true); else ok(!r.ok || r.value === false, `diffFile(${x}, ${y}) is true`); ok(fx.handles === 0, `diffFile(${x}, ${y}): a file is left open`); });
    await t.casesAsync('diff-faults', t.product([600, 3], t.range(0, 12)), async ([n, k]) => { fx.clean(); fs.writeFileSync(A, Buffer.alloc(n)); fs.writeFileSync(B, Buffer.alloc(n)); fx.reset({ at: k }); const r = await settle(F.diffFile(A, B)); if (fx.plan.hit && fx.plan.hitName !== 'close') { ok(!r.ok || r.value === false, `call ${k} fails, the files are reported as equal`); ok(fx.handles === 0, `call ${k} fails: a file is left open`); } else if (!fx.plan.hit) eq(r.value, true); });
    // ---- reading and writing
    const f = fx.abs('f');
    const TEXTS = ['', 'a', 'a\r\nb', '\ufeffbom', 'é😀', '\0', 'x'.repeat(70000), '{"a":1}'];
    await t.casesAsync('write-read', t.product(TEXTS, ['utf8', 'utf16le', 'latin1', 'base64', 'hex', undefined], [undefined, 'old content that is longer'], [undefined, true, false], [undefined, true, false]), async ([s, encoding, old, isFormat, isMkdir]) => {
        fx.clean(); if (old !== undefined) fx.build('f', old); const o = {}; if (encoding) o.encoding = encoding; if (isFormat !== undefined) o.isFormat = isFormat; if (isMkdir !== undefined) o.isMkdir = isMkdir; const oc = JSON.stringify(o);
        if (encoding === 'latin1' && /[^\0-\xff]/.test(s)) return; if (encoding === 'base64' && Buffer.from(s, 'base64').toString('base64') !== s) return; if (encoding === 'hex' && Buffer.from(s, 'hex').toString('hex') !== s) return;
        eq(await F.writeFile(f, s, o), undefined); eq(JSON.stringify(o), oc, 'options'); ok(fs.readFileSync(f).equals(Buffer.from(s, encoding)), `bytes of ${show(s).slice(0, 50)} in ${encoding}`); eq(await F.readFile(f, encoding && { encoding }), s, 'read back'); eq(fs.readdirSync(fx.root), ['f']); fx.noEscape();
    });
    const cyc = {}; cyc.a = cyc;
    await t.casesAsync('write-values', t.product([{ a: 1 }, {}, [], [1, [2]], { a: { b: 'é' } }, Buffer.from([0, 255]), new Uint8Array([1, 2]), 'null', [undefined], { u: undefined }], [true, undefined]), async ([v, isFormat]) => { fx.clean(); await F.writeFile(f, v, isFormat === undefined ? undefined : { isFormat }); const e = typeof v === 'string' || ArrayBuffer.isView(v) ? Buffer.from(v) : Buffer.from(JSON.stringify(v)); ok(fs.readFileSync(f).equals(e), `writeFile(${show(v)}) writes ${show(fs.readFileSync(f, 'latin1'))}`); });
    await t.casesAsync('write-bad-values', [cyc, [cyc], { toJSON() { throw new Error('x'); } }, { a: 1n }], async v => { fx.clean(); fx.build('f', 'old'); const r = await settle(F.writeFile(f, v)); ok(!r.ok, 'a value that cannot be serialised'); eq(fs.readFileSync(f, 'utf8'), 'old'); });
    await t.casesAsync('write-flags', t.product(['w', 'a', 'wx', 'w+', 'a+'], [undefined, 'old'], ['new', '']), async ([flag, old, s]) => { fx.clean(); if (old !== undefined) fx.build('f', old); const r = await settle(F.writeFile(f, s, { flag })); if (flag === 'wx' && old !== undefined) { ok(!r.ok); eq(fx.snap('f'), old); } else { ok(r.ok, show(r.error)); eq(fx.snap('f'), flag[0] === 'a' ? (old ?? '') + s : s); } });
    await t.casesAsync('write-mode', t.product([undefined, 0o600, 0o640, 0o700, 0o755, 0o777, 0o444], ['f', 'd/f'], [undefined, true, false]), async ([mode, p, isFormat]) => { fx.clean(); const mask = process.umask(); const o = {}; if (mode !== undefined) o.mode = mode; if (isFormat !== undefined) o.isFormat = isFormat; await F.writeFile(fx.abs(p), 'v', o); eq((fs.statSync(fx.abs(p)).mode & 0o777).toString(8), ((mode ?? 0o755) & ~mask).toString(8), 'permissions of the new file'); await F.writeFile(fx.abs(p), 'w', { mode: 0o711 }).catch(() => {}); eq((fs.statSync(fx.abs(p)).mode & 0o777).toString(8), ((mode ?? 0o755) & ~mask).toString(8), 'permissions after writing again'); });
    await t.casesAsync('write-mkdir', t.product(['d/f', 'd/e/f', 'd/e/g/h'], [undefined, true, false], [{}, { d: {} }, { d: 'file' }]), async ([p, isMkdir, pre]) => { fx.clean(); for (const k in pre) fx.build(k, pre[k]); const before = fx.snap('.'); const r = await settle(F.writeFile(fx.abs(p), 'v', isMkdir === undefined ? {} : { isMkdir })); const can = !!(pre.d !== 'file' && (isMkdir !== false || p === 'd/f' && isDirT(pre.d))); eq(r.ok, can, `writeFile(${p}) ${isMkdir} ${show(pre)}: ${show(r.error)}`); if (can) eq(fs.readFileSync(fx.abs(p), 'utf8'), 'v'); else eq(fx.snap('.'), before); });
    await t.casesAsync('write-faults', t.product(['f', 'd/f'], t.range(0, 4), [false, true]), async ([p, k, torn]) => { fx.clean(); fx.build('f', 'old'); fx.reset({ at: k, torn }); const r = await settle(F.writeFile(fx.abs(p), 'content')); const hit = fx.plan.hit; fx.plan = null; if (hit && r.ok) eq(fs.readFileSync(fx.abs(p), 'utf8'), 'content', 'reports success'); if (!hit) ok(r.ok, show(r.error)); });
    await t.casesAsync('write-none', ['write', 'mkdir', 'read'], async n => { fx.clean(); fx.reset({ from: 0 }); const r = await settle(n === 'write' ? F.writeFile(f, 'x') : n === 'mkdir' ? F.mkdir(f) : F.readFile(f)); ok(!r.ok, `${n} reports success although nothing can be done`); });
    await t.casesAsync('read-missing', t.product(['none', 'dir', 'dangling', 'f/x'], [undefined, { encoding: 'utf8' }, { flag: 'r' }]), async ([p, o]) => { fx.clean(); fx.build('dir', {}); fx.build('dangling', { '->': 'no' }); fx.build('f', 'x'); const before = fx.snap('.'); ok(!(await settle(F.readFile(fx.abs(p), o))).ok, `readFile(${p})`); eq(fx.snap('.'), before); });
    await t.casesAsync('read-faults', [0, 1], async k => { fx.clean(); fx.build('f', 'abc'); fx.reset({ at: k }); const r = await settle(F.readFile(f)); if (fx.plan.hit) ok(!r.ok, 'a failing read'); else eq(r.value, 'abc'); });
    // ---- directories
    await t.casesAsync('mkdir', t.product(['a', 'a/b', 'a/b/c/d', 'a/./b', 'x/../a/b', 'a//b', '名/字'], [undefined, {}, { recursive: true }, { recursive: false }, { mode: 0o700 }], [{}, { a: {} }, { a: { b: { k: 'v' } } }, { a: 'file' }]), async ([p, o, pre]) => {
        fx.clean(); for (const k in pre) fx.build(k, pre[k]); const before = fx.snap('.'); const a = fx.root + '/' + p;
        const r = await settle(F.mkdir(a, o)); fx.noEscape(); const l = `mkdir(${p}, ${show(o)}) in ${show(pre)}`;
        const np = require('path').normalize(a), parts = np.slice(fx.root.length + 1).split('/'); const parent = parts.length === 1 || (pre.a && parts[0] === 'a' && isDirT(pre.a) && (parts.length === 2 || parts.length === 3 && pre.a.b)); const exists = parts.reduce((n, k) => isDirT(n) && Object.hasOwn(n, k) ? n[k] : undefined, pre);
        const rec = o?.recursive !== false, should = p.includes('x/..') && (!rec || pre.a === 'file') ? null : pre.a === 'file' && parts[0] === 'a' ? false : rec ? true : exists === undefined && !!parent;
        if (should === null) return; eq(r.ok, should, `${l}: ${show(r.error)}`);
        if (r.ok) { ok(fs.statSync(np).isDirectory()); let q = fx.root; for (const x of parts) { q += '/' + x; const rel = q.slice(fx.root.length + 1).split('/'); const was = rel.reduce((n, k) => isDirT(n) && Object.hasOwn(n, k) ? n[k] : undefined, pre); if (was === undefined) eq((fs.statSync(q).mode & 0o700).toString(8), (0o700 & ~process.umask()).toString(8), `${l}: the owner cannot use ${q.slice(fx.root.length)}, mode`); } if (exists !== undefined) { const s = fx.snap('.'); delete s.x; eq(s, before, `${l}: existing content`); } }
        else eq(fx.snap('.'), before, `${l}: fails and changes the tree`);
    });
    // ---- listing, searching, kinds
    const leaf = ['x', {}, { '->': '@/out' }, { '->': '@/out/f' }, { '->': 'nowhere' }];
    const sub = [{ a: 'y' }, { a: { '->': '..' } }, { a: {}, b: 'z' }, { c: { a: { a: 'e', b: {} } }, d: {} }];
    const trees = [{}]; for (const a of [...leaf, ...sub]) { trees.push({ a }); for (const b of [...leaf, ...sub]) { trees.push({ a, b }, { c: a, 'x.txt': b, '.h': 'v' }); } }
    const files = (n, p) => Object.keys(n).flatMap(k => isDirT(n[k]) ? files(n[k], `${p}/${k}`) : [`${p}/${k}`]);
    const find = (n, p, set) => Object.keys(n).flatMap(k => !isDirT(n[k]) ? [] : set.includes(k) ? [`${p}/${k}`] : find(n[k], `${p}/${k}`, set));
    const kinds = (n, p) => [[p, n], ...(isDirT(n) ? Object.keys(n).flatMap(k => kinds(n[k], `${p}/${k}`)) : [])];
    await t.casesAsync('trees', trees, async tree => {
        fx.clean(); fx.build('out', { f: 'o' }); fx.build('top', tree); const before = fx.snap('.'); const top = fx.abs('top');
        for (const o of [undefined, {}, { depthOnce: false }]) eq((await F.fileList(top, o)).sort(), files(tree, top).sort(), `fileList of ${show(tree)}, ${show(o)}`);
        eq((await F.fileList(top, { depthOnce: true })).sort(), Object.keys(tree).sort(), `fileList of ${show(tree)}, one level`);
        for (const s of ['a', ['a'], ['a', 'b'], ['c', 'd'], ['b', 'x.txt', '.h'], [], ['']]) eq((await F.findDir(top, s)).sort(), find(tree, top, [].concat(s)).sort(), `findDir of ${show(s)} in ${show(tree)}`);
        for (const [p, n] of kinds(tree, top)) {
            const st = fs.statSync(p, { throwIfNoEntry: false });
            eq([await F.isDir(p), await F.isFile(p), await F.isSymbolicLink(p)], [!!st?.isDirectory(), !!st?.isFile(), isLinkT(n)], `kinds of ${p.slice(fx.root.length)} in ${show(tree)}`);
        }
        for (const p of ['none', 'top/none/x']) eq([await F.isDir(fx.abs(p)), await F.isFile(fx.abs(p)), await F.isSymbolicLink(fx.abs(p))], [false, false, false]);
        eq(fx.snap('.'), before, 'the tree'); fx.noEscape();
    });
    await t.casesAsync('list-faults', trees.filter((x, i) => i % 2 === 0), async tree => { fx.clean(); fx.build('out', { f: 'o' }); fx.build('top', tree); fx.reset(); await F.fileList(fx.abs('top')); const n = fx.calls.length; for (let k = 0; k < n; k++) { fx.reset({ at: k }); const r = await settle(F.fileList(fx.abs('top'))); if (fx.plan.hit) ok(!r.ok, `fileList of ${show(tree)}: call ${k} fails, result ${show(r.value)}`); } fx.reset({ at: 0 }); ok(!(await settle(F.fileList(fx.abs('top'), { depthOnce: true }))).ok); });
    await t.casesAsync('list-bad', ['none', 'file', 'dangling'], async p => { fx.clean(); fx.build('file', 'x'); fx.build('dangling', { '->': 'no' }); ok(!(await settle(F.fileList(fx.abs(p)))).ok, `fileList of ${p}`); });
    await t.casesAsync('list-wide', [0, 1, 40], async n => { fx.clean(); const tree = {}; for (let i = 0; i < n; i++) tree['n' + i] = i % 3 ? 'v' : { k: 'v', m: { q: 'v' } }; fx.build('top', tree); eq((await F.fileList(fx.abs('top'))).sort(), files(tree, fx.abs('top')).sort()); });
    await t.casesAsync('list-names', ['.hidden', '..x', ' ', '\n', '名字', '😀', '*', 'a\\b', '-rf', '%2e', 'x'.repeat(255), '__proto__', 'constructor', 'a.b.c', 'noext', '.lnkx', 'lnk'], async n => { for (const v of ['v', { q: 'v' }, {}]) { fx.clean(); const tree = Object.defineProperty({ z: '1' }, n, { value: v, enumerable: true, configurable: true, writable: true }); fx.build('top', tree); eq((await F.fileList(fx.abs('top'))).sort(), files(tree, fx.abs('top')).sort(), `name ${show(n)}`); eq((await F.findDir(fx.abs('top'), n)).sort(), find(tree, fx.abs('top'), [n]).sort()); } });
    await t.casesAsync('find-bad', ['', undefined, null, 1], async p => ok(!(await settle(F.findDir(p, 'a'))).ok, `findDir(${show(p)})`));
    // ---- directories with very many entries
    await t.casesAsync('list-far', t.product([130, 1500, 130000], [0, 1]), async ([n, deep]) => {
        fx.clean(); const top = fx.abs('top'), d = deep ? top + '/s' : top; fs.mkdirSync(d, { recursive: true }); if (deep) { fs.writeFileSync(top + '/z', ''); fs.mkdirSync(top + '/t'); fs.writeFileSync(top + '/t/z', ''); } const dirs = n > 9000 ? 0 : Math.floor(n / 3);
        for (let i = 0; i < n - dirs; i++) fs.linkSync(i ? d + '/f0' : (fs.writeFileSync(d + '/f0', ''), d + '/f0'), d + '/f' + (i || 'first')); for (let i = 0; i < dirs; i++) { fs.mkdirSync(`${d}/d${i}/m`, { recursive: true }); fs.writeFileSync(`${d}/d${i}/q`, ''); }
        const e = [d + '/f0', ...t.range(0, n - dirs - 1).map(i => d + '/f' + (i || 'first')), ...t.range(0, dirs - 1).map(i => `${d}/d${i}/q`), ...(deep ? [top + '/z', top + '/t/z'] : [])].sort(), r = (await F.fileList(top)).sort(), l = `${n} entries${deep ? ' one level down' : ''}`;
        ok(r.length === e.length && r.every((x, i) => x === e[i]), () => `fileList of ${l}: ${r.length} files instead of ${e.length}`); const one = await F.fileList(top, { depthOnce: true }); eq(one.length, deep ? 3 : n + 1, `fileList of ${l}, one level`);
        if (dirs) { const all = (await F.findDir(top, ['m', ...t.range(0, dirs - 1).map(i => 'd' + i)])).sort(), w = t.range(0, dirs - 1).map(i => `${d}/d${i}`).sort(); eq(all, w, `findDir in ${l}`); eq((await F.findDir(top, 'm')).sort(), w.map(x => x + '/m').sort(), `findDir of m in ${l}`); for (const i of [0, dirs >> 1, dirs - 1]) eq(await F.findDir(top, 'd' + i), [`${d}/d${i}`], `findDir of d${i} in ${l}`); }
        fx.clean();
    });
    await t.casesAsync('list-deep', [9, 40, 130], async n => { fx.clean(); let p = fx.abs('top'), e = []; for (let i = 0; i < n; i++) { p += '/d'; e.push(p + '/f'); } fs.mkdirSync(p, { recursive: true }); fs.mkdirSync(p + '/goal'); for (const x of e) fs.writeFileSync(x, ''); eq((await F.fileList(fx.abs('top'))).sort(), e.sort(), `fileList ${n} levels deep`); eq(await F.findDir(fx.abs('top'), 'goal'), [p + '/goal'], `findDir ${n} levels deep`); fx.clean(); });
    await t.casesAsync('write-far', [70000, 3e6, 2 ** 25 + 1], async n => { fx.clean(); const b = Buffer.alloc(n, 'aé中'); await F.writeFile(f, b); ok(fs.readFileSync(f).equals(b), `${n} bytes written`); const s = 'é'.repeat(n >> 1); await F.writeFile(f, s); const r = await F.readFile(f); ok(r === s, `${n} bytes read: ${r.length}`); fx.clean(); });
    // ---- destination of a file below another directory
    await t.casesAsync('destPath', t.product(['f', 'd/f', 'd/e/f.txt', 'd/../f', './f', 'd//f', 'src/f', 'dst/f', '..f', '.h/f'], ['src', 'src/', 'src/.', 'src/d/..'], ['dst', 'dst/', 'dst/x', 'src/dst'], [undefined, { isMakeDir: false }, { isMakeDir: true }]), async ([rel, s, d, o]) => {
        fx.clean(); fx.build('src', { f: 'v', d: { e: {} } }); const before = fx.snap('.'); const P = require('path'); const v = await F.destPath(fx.root + '/src/' + rel, fx.root + '/' + s, fx.root + '/' + d, o); const e = P.join(fx.root, d, rel);
        eq(v, e, `destPath(${rel}, ${s}, ${d})`); if (o?.isMakeDir) { ok(fs.statSync(P.dirname(e)).isDirectory()); ok(!fs.existsSync(e) || d === 'src/dst'); } else eq(fx.snap('.'), before); fx.noEscape();
    });
    await t.casesAsync('destPath-bad', t.product([0, 1, 2], ['', undefined, null]), async ([i, v]) => { const a = [fx.abs('src/f'), fx.abs('src'), fx.abs('dst')]; a[i] = v; ok(!(await settle(F.destPath(...a))).ok); });
    // ---- shortcuts (another platform)
    const lnk = (platform, out) => { const cmds = []; const exec = (c, o, cb) => { if (typeof o === 'function') cb = o; cmds.push(c); setImmediate(() => out instanceof Error ? cb(out, '', '') : cb(null, out[0], out[1])); return {}; }; exec[require('util').promisify.custom] = (c, o) => new Promise((res, rej) => exec(c, o, (e, stdout, stderr) => e ? rej(e) : res({ stdout, stderr }))); const pr = Object.create(process, { platform: { value: platform } }); const ww = t.world({ mocks: { ...fx.mocks, process: pr, child_process: { ...require('child_process'), exec } } }); return { F: ww.load('@curong/fs'), cmds }; };
    await t.casesAsync('readLnk', t.product(['C:\\x y\\z.txt', '/t', 'D:\\'], ['', '\n', '\r\n']), async ([target, nl]) => { const { F: G, cmds } = lnk('win32', [target + nl, '']); eq(await G.readLnk('/q/a.lnk'), target); eq(cmds.length, 1); ok(cmds[0].includes('a.lnk')); });
    await t.casesAsync('readLnk-fails', ['stderr', 'error', 'platform'], async k => { const { F: G, cmds } = lnk(k === 'platform' ? 'linux' : 'win32', k === 'error' ? new Error('x') : ['C:\\x', k === 'stderr' ? 'bad' : '']); ok(!(await settle(G.readLnk('/q/a.lnk'))).ok, `readLnk with ${k} reports success`); if (k === 'platform') eq(cmds, []); });
    await t.casesAsync('lists-with-shortcuts', t.product([true, false]), async ([dir]) => { fx.clean(); fx.build('out', { f: 'v', g: { h: 'v' }, 'k.txt': 'q' }); fx.build('top', { 'a.lnk': 'x', b: 'y' }); const target = fx.abs(dir ? 'out' : 'out/k.txt'); const { F: G } = lnk('win32', [target + '\r\n', '']); eq((await G.fileList(fx.abs('top'))).sort(), [fx.abs('top/b'), ...(dir ? ['out/f', 'out/g/h', 'out/k.txt'].map(x => fx.abs(x)) : [target])].sort()); if (dir) eq(await G.findDir(fx.abs('top'), 'g'), [fx.abs('out/g')]); });
    // ---- two calls on different trees under way at the same time
    const op = (n, tree, run) => ({ n, tree, run }), TREE = { a: 'x', b: { c: 'y', n: { o: {} } }, n: {}, l: { '->': 'a' } }; const long = (n, x) => 'z'.repeat(n) + x;
    await overlapFs(t, 'at once', fx, F, [
        op('fileList', { d: TREE }, async (F, p) => (await F.fileList(p('d'))).sort()), op('fileList once', { d: { q: { r: '' }, s: '' } }, async (F, p) => (await F.fileList(p('d'), { depthOnce: true })).sort()), op('findDir', { d: TREE }, async (F, p) => (await F.findDir(p('d'), 'n')).sort()), op('findDir two', { d: { b: { m: {} }, m: { n: {} }, z: { y: { n: {} } } } }, async (F, p) => (await F.findDir(p('d'), ['n', 'm'])).sort()), op('fileList none', {}, (F, p) => F.fileList(p('d'))),
        op('diffFile same', { f: long(1100, 'a'), g: long(1100, 'a') }, (F, p) => F.diffFile(p('f'), p('g'))), op('diffFile other', { f: long(20, 'a'), g: long(20, 'b') }, (F, p) => F.diffFile(p('f'), p('g'))), op('diffFile none', { f: 'a' }, (F, p) => F.diffFile(p('f'), p('g'))),
        op('readFile', { f: 'text of one' }, (F, p) => F.readFile(p('f'))), op('writeFile', {}, (F, p) => F.writeFile(p('n/f'), 'written')), op('writeFile over', { f: 'before' }, (F, p) => F.writeFile(p('f'), { v: 1 })), op('mkdir', { d: {} }, (F, p) => F.mkdir(p('d/e/f'))), op('mkdir again', { d: { e: 'x' } }, (F, p) => F.mkdir(p('d'))),
        op('kinds', TREE, async (F, p) => { const r = []; for (const k of ['a', 'b', 'l', 'q']) r.push(await F.isDir(p(k)), await F.isFile(p(k)), await F.isSymbolicLink(p(k))); return r; }), op('symbolicLink', { d: { k: '' } }, (F, p) => F.symbolicLink(p('d'), p('l'))), op('destPath', { s: {} }, (F, p) => F.destPath(p('s/x/y.js'), p('s'), p('d'), { isMakeDir: true })), op('destPath plain', { s: {} }, (F, p) => F.destPath(p('s/v.js'), p('s'), p('d/e'))),
    ]);
    fx.dispose();
};
