'use strict';
// Loads the TypeScript sources of /repo's working tree in memory (nothing is written), one CommonJS
// module per source file, with replaceable host modules. A World is one set of module instances.
const fs = require('fs'), path = require('path'), Module = require('module');
const TOOLS = '/opt/veriftools/node/node_modules';
const REPO = process.env.VERIF_REPO || '/repo';
let transform;
try {
    const esbuild = require(path.join(TOOLS, 'esbuild'));
    transform = (code, file) => esbuild.transformSync(code, {
        loader: 'ts', format: 'cjs', target: 'node20', sourcefile: file, charset: 'utf8',
        tsconfigRaw: { compilerOptions: { useDefineForClassFields: false } }
    }).code;
    transform('let a: number = 1', 'x.ts');
} catch {
    const ts = require(path.join(TOOLS, 'typescript'));
    transform = (code, file) => ts.transpileModule(code, {
        fileName: file,
        compilerOptions: { module: 'CommonJS', target: 'ES2022', useDefineForClassFields: false, esModuleInterop: true }
    }).outputText;
}
const texts = new Map(), compiled = new Map();
const jsText = file => {
    let t = texts.get(file);
    if (t === undefined) texts.set(file, (t = transform(fs.readFileSync(file, 'utf8'), file)));
    return t;
};
const compile = file => {
    let f = compiled.get(file);
    if (!f) {
        if (file.endsWith('.json')) {
            const v = JSON.parse(fs.readFileSync(file, 'utf8'));
            f = (exports, require, module) => { module.exports = v; };
        } else
            f = new Function('exports', 'require', 'module', '__filename', '__dirname',
                jsText(file) + '\n//# sourceURL=' + file);
        compiled.set(file, f);
    }
    return f;
};
const isFile = p => { try { return fs.statSync(p).isFile(); } catch { return false; } };
const rcache = new Map();
const resolveTs = p => {
    let r = rcache.get(p);
    if (r === undefined) {
        r = [p, p + '.ts', p + '/index.ts', p + '.json', p + '.js'].find(isFile) || null;
        rcache.set(p, r);
    }
    return r;
};
const pkgRoot = id => path.join(REPO, 'packages', id.slice(8));
const resolve = (id, from) => {
    if (id.startsWith('@curong/')) {
        const [, name, ...rest] = id.split('/');
        return rest.length ? resolveTs(path.join(REPO, 'packages', name, ...rest)) : resolveTs(path.join(REPO, 'packages', name, 'src'));
    }
    if (id.startsWith('.') || id.startsWith('/')) return resolveTs(path.resolve(path.dirname(from), id));
    return null;
};
const hostRequire = Module.createRequire(path.join(REPO, 'packages', 'x.js'));
const toolRequire = Module.createRequire(path.join(TOOLS, 'x.js'));

class World {
    // opts.mocks: host modules by name; opts.parent + opts.fresh(file): share the other modules with parent
    constructor(opts = {}) {
        this.mocks = opts.mocks || {};
        this.parent = opts.parent || null;
        this.fresh = opts.fresh || (() => true);
        this.cache = new Map();
    }
    fork(opts = {}) { return new World({ mocks: this.mocks, ...opts, parent: this }); }
    host(id) {
        const n = id.startsWith('node:') ? id.slice(5) : id;
        if (Object.prototype.hasOwnProperty.call(this.mocks, n)) {
            const m = this.mocks[n];
            return m;
        }
        try { return hostRequire(id); } catch (e) {
            if (e.code !== 'MODULE_NOT_FOUND') throw e;
            return toolRequire(id);
        }
    }
    file(file) {
        if (this.parent && !this.fresh(file)) return this.parent.file(file);
        let m = this.cache.get(file);
        if (m) return m.exports;
        m = { exports: {} };
        this.cache.set(file, m);
        const req = id => {
            const f = resolve(id, file);
            if (f) return this.file(f);
            if (id.startsWith('@curong/') || id.startsWith('.')) throw new Error(`cannot resolve ${id} from ${file}`);
            return this.host(id);
        };
        try { compile(file)(m.exports, req, m, file, path.dirname(file)); } catch (e) { this.cache.delete(file); throw e; }
        return m.exports;
    }
    // '@curong/x' (index) or 'x/src/y.ts'
    load(id) {
        const f = id.startsWith('@') ? resolve(id, '') : resolveTs(path.join(REPO, 'packages', id));
        if (!f) throw new Error('no such source: ' + id);
        return this.file(f);
    }
    // exported function `name`: from the package index if it is there, else the default export of `file`
    fn(pkg, name, file) {
        const m = this.load('@curong/' + pkg);
        if (name in m && m[name] !== undefined) return m[name];
        const d = this.load(pkg + '/src/' + file);
        return name in d ? d[name] : d.default;
    }
}
// Literals of the sources (comments stripped): the alphabets of the checks are widened by them, so a
// value that the code itself treats specially is always among the enumerated ones.
const listTs = p => {
    const abs = path.join(REPO, 'packages', p);
    if (isFile(abs)) return [abs];
    const out = [];
    const walk = d => {
        for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
            if (e.name === '__tests__' || e.name === 'node_modules') continue;
            const q = path.join(d, e.name);
            if (e.isDirectory()) walk(q); else if (/\.ts$/.test(e.name) && !/\.(test|d)\.ts$/.test(e.name)) out.push(q);
        }
    };
    if (fs.existsSync(abs)) walk(abs);
    return out;
};
function literals(...paths) {
    const nums = new Set(), strs = new Set(), regs = new Set();
    for (const p of paths) for (const f of listTs(p)) {
        const code = jsText(f);
        const body = code.split('\n').filter(l => !/^(var|const) import_|require\(|__export|__toESM|__toCommonJS|sourceMappingURL|^ *[\w$]+: \(\) => /.test(l)).join('\n');
        const re = /'((?:[^'\\\n]|\\.)*)'|"((?:[^"\\\n]|\\.)*)"|`((?:[^`\\]|\\.)*)`|(?<![\w$.])(0x[\da-fA-F_]+|0b[01_]+|\d[\d_]*(?:\.\d+)?(?:e[+-]?\d+)?)n?(?![\w$])|([=(,:\[!&|?{};]\s*)\/((?:[^/\\\n\[]|\\.|\[(?:[^\]\\\n]|\\.)*\])+)\/[a-z]*/g;
        for (let m; (m = re.exec(body));) {
            const s = m[1] ?? m[2] ?? m[3];
            if (s !== undefined) {
                let v = s; try { v = JSON.parse('"' + s.replace(/\\(['`$])/g, '$1').replace(/\\x(..)/g, '\\u00$1').replace(/(?<!\\)"/g, '\\"') + '"'); } catch {}
                strs.add(v);
                if (m[3] !== undefined) for (const k of m[3].matchAll(/(?<![\w$.])\d+(?![\w$])/g)) nums.add(Number(k[0]));
            } else if (m[4]) { const n = Number(m[4].replace(/_/g, '')); if (!Number.isNaN(n)) nums.add(n); }
            else if (m[6]) regs.add(m[6]);
        }
        // thresholds are often products or shifts of literals
        for (const m of body.matchAll(/(\d+)\s*(\*\*|<<|\*)\s*(\d+)/g)) {
            const a = +m[1], b = +m[3], v = m[2] === '**' ? a ** b : m[2] === '<<' ? a * 2 ** b : a * b;
            if (Number.isFinite(v)) nums.add(v);
        }
    }
    const chars = new Set();
    for (const s of strs) if (s.length <= 40) for (const c of s) chars.add(c);
    for (const r of regs) if (r.length <= 80) for (const c of r) chars.add(c);
    const near = [...new Set([...nums].flatMap(n => [n - 1, n, n + 1, -n]))].sort((a, b) => a - b);
    return { nums: [...nums].sort((a, b) => a - b), near, strs: [...strs], regs: [...regs], chars: [...chars] };
}
module.exports = { World, REPO, literals, listTs, jsText };
