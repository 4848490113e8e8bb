'use strict';
// A window on the real file system for the code under test: every call is confined to a scratch directory,
// counted, logged and can be made to fail (before or half-way through its effect). Trees are plain data.
const fs = require('fs'), os = require('os'), path = require('path');
const { Broken } = require('./util');
const real = { ...fs }, rp = { ...fs.promises };
const TWO = new Set(['copyFile', 'rename', 'link', 'cp']);
const LINK = new Set(['symlink']);
const NOPATH = new Set(['read', 'write', 'close', 'readv', 'writev', 'fstat', 'fsync', 'fdatasync', 'ftruncate', 'futimes', 'fchmod', 'fchown', 'constants', 'Stats', 'Dirent', 'ReadStream', 'WriteStream', 'FileReadStream', 'FileWriteStream', 'promises', 'unwatchFile', 'watch', 'watchFile', 'glob']);
const MUT = new Set(['copyFile', 'rename', 'link', 'cp', 'symlink', 'unlink', 'rm', 'rmdir', 'mkdir', 'writeFile', 'appendFile', 'truncate', 'chmod', 'lchmod', 'chown', 'lchown', 'utimes', 'lutimes', 'mkdtemp']);
const err = (code, name, p) => Object.assign(new Error(`${code}: injected, ${name} '${p}'`), { code, errno: -5, syscall: name, path: p });
const base = n => n.replace(/Sync$/, '');

class Fsx {
    constructor() {
        const shm = fs.existsSync('/dev/shm') ? '/dev/shm' : os.tmpdir();
        let dir; try { dir = fs.mkdtempSync(path.join(shm, 'vfs-')); } catch { dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vfs-')); }
        this.root = fs.realpathSync(dir); this.plan = null; this.left = new Set(); this.reset();
        process.on('exit', () => this.dispose());
        this.mocks = { fs: this.wrapFs(), 'fs/promises': this.promises };
    }
    reset(plan = null) { this.calls = []; this.plan = plan; this.escapes = []; this.handles = 0; this.chunks = null; this.readDelay = null; }
    dispose() { if (this.root) { const r = this.root; this.root = null; try { fs.rmSync(r, { recursive: true, force: true, maxRetries: 2 }); } catch {} } }
    // one call is about to happen: check the paths, log, decide the fault
    enter(name, args) {
        const b = base(name), ps = NOPATH.has(b) ? [] : TWO.has(b) ? [args[0], args[1]] : LINK.has(b) ? [args[1]] : [args[0]];
        const flag = b === 'open' || b.startsWith('create') ? JSON.stringify(args[1] ?? 'r') : '';
        const mut = MUT.has(b) || /[wa+]/.test(flag.replace(/"[a-z]{3,}"/gi, ''));
        for (const [i, p0] of ps.entries()) {
            if (typeof p0 === 'number') continue;
            const p = p0 instanceof URL ? p0.pathname : String(p0);
            let abs = path.resolve(p);
            if (mut) { let d = path.dirname(abs), rest = path.basename(abs); for (;;) { try { abs = path.join(fs.realpathSync(d), rest); break; } catch { rest = path.join(path.basename(d), rest); const u = path.dirname(d); if (u === d) break; d = u; } } }
            if (abs !== this.root && !abs.startsWith(this.root + path.sep)) { this.escapes.push([name, p]); throw err('EACCES', name, p); }
        }
        const k = this.calls.length;
        this.calls.push({ name: b, mut, paths: ps.map(String) });
        const pl = this.plan;
        if (pl && (pl.at === k || pl.from !== undefined && k >= pl.from || pl.name === b && (pl.nth === undefined || this.calls.filter(c => c.name === b).length - 1 === pl.nth))) { pl.hit = (pl.hit || 0) + 1; pl.hitName = b; return { fault: err(pl.code || 'EIO', b, ps[0]), torn: !!pl.torn, b }; }
        return null;
    }
    tear(b, a) { // half of the effect
        try {
            if (b === 'copyFile') { const d = fs.readFileSync(a[0]); fs.writeFileSync(a[1], d.subarray(0, d.length >> 1)); }
            else if (b === 'writeFile') { const d = Buffer.from(a[1]); fs.writeFileSync(a[0], d.subarray(0, d.length >> 1)); }
            else if (b === 'rm' || b === 'rmdir') { const l = fs.readdirSync(a[0]).sort(); for (const x of l.slice(0, (l.length + 1) >> 1)) fs.rmSync(path.join(a[0], x), { recursive: true, force: true }); }
        } catch {}
    }
    handle(h, path) {
        const s = this; s.handles++; let open = true; s.left.add(h);
        return new Proxy(h, { get(t, p) {
            const v = t[p];
            if (p === 'close') return async () => { const end = s.gate ? await s.gate(path) : null; try { const f = s.enter('close', []); if (open) { open = false; s.handles--; s.left.delete(h); await t.close(); } if (f) throw f.fault; } finally { if (end) end(); } };
            if (p === Symbol.asyncDispose) return async () => { if (open) { open = false; s.handles--; s.left.delete(h); await t.close(); } };
            if (typeof v !== 'function' || typeof p === 'symbol') return v;
            return async (...a) => { const end = s.gate ? await s.gate(path) : null; try { const f = s.enter('read', []); if (f) throw f.fault; return await v.apply(t, a); } finally { if (end) end(); } };
        } });
    }
    wrapPromises() {
        const s = this;
        return new Proxy({}, { get(_, p) {
            const v = rp[p]; if (typeof v !== 'function') return v;
            return async (...a) => {
                const end = s.gate ? await s.gate(LINK.has(p) ? a[1] : a[0]) : null;
                try {
                    const f = s.enter(p, a);
                    if (f) { if (f.torn) s.tear(f.b, a); throw f.fault; }
                    const r = await v.apply(fs.promises, a);
                    return p === 'open' ? s.handle(r, a[0]) : r;
                } finally { if (end) end(); }
            };
        }, has: (_, p) => p in rp, ownKeys: () => Reflect.ownKeys(rp), getOwnPropertyDescriptor: (_, p) => p in rp ? { value: rp[p], configurable: true, enumerable: true, writable: true } : undefined });
    }
    stream(kind, a) {
        const s = this; const o = typeof a[1] === 'string' ? { encoding: a[1] } : { ...a[1] };
        const flags = o.flags ?? (kind === 'createReadStream' ? 'r' : 'w');
        try { s.enter(kind === 'createReadStream' ? 'openr' : 'openw', [a[0]]); } catch (e) { o.fs = { open: (...x) => x.at(-1)(e), read: (...x) => x.at(-1)(e), write: (...x) => x.at(-1)(e), close: (fd, cb) => cb(null) }; return real[kind](a[0], o); }
        let n = 0;
        if (kind === 'createReadStream') o.fs = {
            open: s.gated(a[0], (p, fl, m, cb) => { const f = s.faultOf('streamOpen'); if (f) return setImmediate(cb, f); if (s.readonly && /[wa+]/.test(String(flags))) return setImmediate(cb, err('EACCES', 'open', p)); s.handles++; real.open(p, fl, m, (e, fd) => { if (e) s.handles--; cb(e, fd); }); }),
            read: s.gated(a[0], (fd, buf, off, len, pos, cb) => { const f = s.faultOf('streamRead', n); const want = s.chunks ? (s.chunks[n] ?? len) : len; const d = s.readDelay ? s.readDelay[n] : 0; n++; if (f) return setImmediate(cb, f); const go = () => real.read(fd, buf, off, Math.min(len, want), pos, cb); d ? setTimeout(go, d) : go(); }),
            close: s.gated(a[0], (fd, cb) => { s.handles--; real.close(fd, cb); })
        };
        return real[kind](a[0], o);
    }
    gated(path, f) { return (...a) => { if (!this.gate) return f(...a); const cb = a.pop(); this.gate(path).then(end => f(...a, (...r) => { end(); cb(...r); })); }; }
    faultOf(name, n) { const k = this.calls.length; this.calls.push({ name, paths: [] }); const pl = this.plan; if (pl && (pl.at === k || pl.name === name && (pl.nth === undefined || pl.nth === n))) { pl.hit = (pl.hit || 0) + 1; return err(pl.code || 'EIO', name, ''); } return null; }
    wrapFs() {
        const s = this; s.promises = s.wrapPromises();
        return new Proxy({}, { get(_, p) {
            if (p === 'promises') return s.promises;
            const v = real[p]; if (typeof v !== 'function' || typeof p === 'symbol' || /^[A-Z]/.test(p) || p.startsWith('_')) return v;
            if (p === 'createReadStream' || p === 'createWriteStream') return (...a) => s.stream(p, a);
            return (...a) => {
                if (p.endsWith('Sync')) { const f = s.enter(p, a); if (f) { if (f.torn) s.tear(f.b, a); throw f.fault; } if (p === 'existsSync') { return v(...a); } return v.apply(fs, a); }
                const cb = a.at(-1);
                if (typeof cb !== 'function') { s.enter(p, a); return v.apply(fs, a); }
                let f; try { f = s.enter(p, a); } catch (e) { return void setImmediate(cb, e); }
                if (f) { if (f.torn) s.tear(f.b, a); return void setImmediate(cb, f.fault); }
                return v.apply(fs, a);
            };
        }, has: (_, p) => p in real });
    }
    // ---- trees as data: 'text' is a file, {name: tree} a directory, {'->': target} a link, {'|': 1} a fifo is not used
    abs(p) { return path.join(this.root, p); }
    build(p, n) {
        const a = path.isAbsolute(p) ? p : this.abs(p);
        if (typeof n === 'string' || Buffer.isBuffer(n)) fs.writeFileSync(a, n);
        else if ('->' in n) fs.symlinkSync(n['->'].replace(/^@/, this.root), a);
        else { if (!fs.existsSync(a)) fs.mkdirSync(a); for (const k of Object.keys(n)) this.build(path.join(a, k), n[k]); }
    }
    snap(p) {
        const a = path.isAbsolute(p) ? p : this.abs(p);
        let st; try { st = fs.lstatSync(a); } catch { return undefined; }
        if (st.isSymbolicLink()) return { '->': fs.readlinkSync(a).replace(this.root, '@') };
        if (st.isDirectory()) { const r = {}; for (const k of fs.readdirSync(a).sort()) Object.defineProperty(r, k, { value: this.snap(path.join(a, k)), enumerable: true, writable: true, configurable: true }); return r; }
        const b = fs.readFileSync(a); const s = b.toString('utf8'); return Buffer.from(s).equals(b) ? s : 'hex:' + b.toString('hex');
    }
    clean() { for (const h of this.left) h.close().catch(() => {}); this.left.clear(); for (const k of fs.readdirSync(this.root)) fs.rmSync(path.join(this.root, k), { recursive: true, force: true }); this.reset(); }
    noEscape() { if (this.escapes.length) throw new Broken('a call reaches a path outside of the named trees: ' + JSON.stringify(this.escapes[0])); }
}
const isDirT = n => n && typeof n === 'object' && !Buffer.isBuffer(n) && !('->' in n);
const isLinkT = n => n && typeof n === 'object' && '->' in n;
module.exports = { Fsx, isDirT, isLinkT, path };
