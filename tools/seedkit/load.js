'use strict';
// Loads the TypeScript sources of the repository in the current directory, in memory; optional stand-ins for host modules.
const fs = require('fs'), path = require('path'), Module = require('module');
const ROOT = process.cwd(), esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const isFile = p => { try { return fs.statSync(p).isFile(); } catch { return false; } };
const file = p => [p, p + '.ts', p + '/index.ts', p + '.json'].find(isFile);
const host = Module.createRequire(path.join(ROOT, 'x.js')), tool = Module.createRequire('/opt/veriftools/node/node_modules/x.js');
module.exports = (id, mocks = {}) => {
    const cache = new Map();
    const run = f => {
        if (cache.has(f)) return cache.get(f).exports;
        const m = { exports: {} }; cache.set(f, m);
        if (f.endsWith('.json')) return (m.exports = JSON.parse(fs.readFileSync(f, 'utf8')));
        const js = esbuild.transformSync(fs.readFileSync(f, 'utf8'), { loader: 'ts', format: 'cjs', target: 'node20', sourcefile: f, tsconfigRaw: { compilerOptions: { useDefineForClassFields: false } } }).code;
        new Function('exports', 'require', 'module', '__filename', '__dirname', js)(m.exports, r => req(r, f), m, f, path.dirname(f));
        return m.exports;
    };
    const req = (r, from) => {
        if (r.startsWith('@curong/')) { const [, n, ...x] = r.split('/'); return run(file(path.join(ROOT, 'packages', n, ...(x.length ? x : ['src'])))); }
        if (r.startsWith('.')) return run(file(path.resolve(path.dirname(from), r)));
        const n = r.replace(/^node:/, '');
        if (Object.hasOwn(mocks, n)) return mocks[n];
        try { return host(r); } catch (e) { if (e.code !== 'MODULE_NOT_FOUND') throw e; return tool(r); }
    };
    return req(id, ROOT + '/x');
};
