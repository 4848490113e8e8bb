'use strict';
const { ok, eq } = require('../lib/util');
const cp = require('child_process'), path = require('path');
exports.technique = 'exhaustive enumeration of host limits: the real code runs on a host stand-in for every limit on the number of arguments, and in real hosts with every stack size of a list';
exports.bounds = 'every limit from 1 to 2100 arguments, and every limit within 3 of a power of two, of three quarters and of two thirds of one up to 2^24; limits that hold only from the second call on; call stacks of 100 to 900 KiB in interpreted code, measured at three depths';
exports.assumptions = ['a measured stack is compared with an independent recursion within a factor of two, since frames differ in size', 'a host limit on arguments can only be simulated where the arguments are passed by apply or Reflect.apply'];
exports.run = async t => {
    const U = t.world().load('@curong/util');
    const apply = Function.prototype.apply, rapply = Reflect.apply;
    const withLimit = (limit, f) => {
        let n = 0, most = 0; const see = l => { n++; if (l > limit) throw new RangeError('Maximum call stack size exceeded'); most = Math.max(most, l); };
        const len = a => a === null || a === undefined ? 0 : Math.min(Math.max(Math.trunc(Number(a.length)) || 0, 0), 2 ** 53 - 1);
        // the arguments themselves are not passed on: their number is what counts
        Function.prototype.apply = function (self, a) { const l = len(a); see(l); return rapply(this, self, l > 64 ? [] : a ?? []); };
        Reflect.apply = (g, self, a) => { const l = len(a); see(l); return rapply(g, self, l > 64 ? [] : a ?? []); };
        try { return { value: f(), n, most }; } finally { Function.prototype.apply = apply; Reflect.apply = rapply; }
    };
    const L = new Set(t.range(1, 2100)); for (let k = 10; k <= 24; k++) for (const b of [2 ** k, 3 * 2 ** (k - 2), Math.floor(2 ** (k + 1) / 3)]) for (let d = -3; d <= 3; d++) L.add(b + d);
    t.cases('arguments', [...L], limit => { for (let i = 0; i < 2; i++) { const r = withLimit(limit, () => U.maxArgsLength()); if (!r.n) return 'not observable'; eq(r.value, limit, `maxArgsLength() where ${limit} arguments are the most a call accepts, call ${i + 1}`); ok(r.n <= 200, `${r.n} calls to find a limit of ${limit}`); } return limit; });
    t.cases('arguments-changing', t.product(t.range(1, 40), t.range(1, 40)), ([a, b]) => { const x = withLimit(a, () => U.maxArgsLength()), y = withLimit(b, () => U.maxArgsLength()); if (!x.n) return 'not observable'; eq([x.value, y.value], [a, b], `limits ${a} and then ${b}`); });
    t.cases('arguments-real', [1], () => { const r = U.maxArgsLength(); ok(Number.isInteger(r) && r > 0, `maxArgsLength() is ${r}`); (function () {}).apply(null, { length: Math.floor(r / 2) }); });
    // ---- the call stack, in hosts of several sizes
    t.cases('stack', [100, 200, 300, 450, 600, 900], kb => {
        const code = `const { World } = require(${JSON.stringify(path.join(__dirname, '../lib/loader.js'))}); const U = new World().load('@curong/util'); function ref() { try { return ref() + 1; } catch { return 1; } } const at = (d, f) => d ? at(d - 1, f) : f(); console.log(JSON.stringify([0, 50, 300].map(d => [at(d, U.maxCallStackSize), at(d, ref)])));`;
        const r = cp.spawnSync(process.execPath, ['--jitless', `--stack-size=${kb}`, '-e', code], { encoding: 'utf8', timeout: 60000 }); ok(r.status === 0, `a host with a stack of ${kb} KiB ends with ${r.status} ${r.stderr.slice(0, 300)}`);
        for (const [n, m] of JSON.parse(r.stdout.trim().split('\n').at(-1))) { ok(Number.isInteger(n) && n > 0, `maxCallStackSize() is ${n}`); ok(n > m * 0.5 && n < m * 1.95, `maxCallStackSize() is ${n} where a plain recursion reaches ${m}, stack of ${kb} KiB`); }
        return kb;
    });
};
