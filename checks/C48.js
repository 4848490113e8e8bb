'use strict';
const { ok, eq, show, attempt, product, words } = require('../lib/util');
exports.technique = 'explicit-state exploration of all operation histories of the real progress bar against a reference counter, its output run through a terminal model (cursor, lines, visibility)';
exports.bounds = 'all histories of push, write and end up to length 6 (thorough: 8) for totals 1-4 and unlimited forms with all 81 option settings; every point of every total up to 120 (thorough: 400) and of larger ones';
exports.assumptions = [
    'histories are judged up to the first push after completion and, for plain writes after end(), only by the text shown; a total of zero is not judged',
    'the bar starts below another line, as documented (only one bar at a time); values contain no control characters or line feeds'
];
exports.shards = 4;
exports.run = async t => {
    let sink = () => {};
    const stdout = { write(s) { ok(typeof s === 'string', () => `writes ${show(s)}`); sink(s); return true; } };
    const proc = new Proxy(process, { get: (o, k) => k === 'stdout' ? stdout : o[k] });
    const W = t.world({ mocks: { process: { __esModule: true, default: proc, stdout, platform: process.platform, env: process.env, cwd: () => process.cwd() } } });
    const { ProgressBar } = W.load('@curong/term');
    class Term { // rows of text, cursor, visibility
        constructor() { this.rows = ['title']; this.r = 1; this.c = 0; this.visible = true; this.hid = false; }
        feed(s) {
            for (let i = 0; i < s.length;) {
                const m = /^\u001b\[(\??[\d;]*)([A-Za-z])/.exec(s.slice(i));
                if (m) {
                    i += m[0].length; const n = parseInt(m[1], 10);
                    const k = Number.isNaN(n) ? 1 : n;
                    switch (m[2]) {
                        case 'A': this.r = Math.max(0, this.r - k); break;
                        case 'B': this.r += k; break;
                        case 'E': this.r += k; this.c = 0; break;
                        case 'F': this.r = Math.max(0, this.r - k); this.c = 0; break;
                        case 'G': this.c = k - 1; break;
                        case 'K': { const l = this.rows[this.r] || ''; const z = Number.isNaN(n) ? 0 : n; this.rows[this.r] = z === 0 ? l.slice(0, this.c) : z === 1 ? ' '.repeat(Math.min(this.c + 1, l.length)) + l.slice(this.c + 1) : ''; break; }
                        case 'l': eq(m[1], '?25'); this.visible = false; this.hid = true; break;
                        case 'h': eq(m[1], '?25'); this.visible = true; break;
                        default: ok(false, () => `unexpected sequence ${show(m[0])}`);
                    }
                } else if (s[i] === '\r') { this.c = 0; i++; } else {
                    ok(s[i] >= ' ', () => `unexpected character ${show(s[i])}`);
                    const l = (this.rows[this.r] || '').padEnd(this.c); this.rows[this.r] = l.slice(0, this.c) + s[i] + l.slice(this.c + 1); this.c++; i++;
                }
            }
        }
        get line() { return this.rows[this.r] || ''; }
    }
    const isUint = v => typeof v === 'number' && Number.isInteger(v) && v >= 0;
    const text = (o, k, value) => {
        const p = [], on = x => o[x] !== false;
        if (isUint(o.total)) {
            if (on('picture')) p.push(`[${'#'.repeat(Math.floor(k * 10 / o.total)).padEnd(10)}]`);
            if (on('percentage')) p.push(`${Math.floor(k * 100 / o.total)}%`);
            if (on('count')) p.push(`(${k}/${o.total})`);
        } else p.push('RUNNING:');
        return `${p.join(' ')} ${value}`;
    };
    const runAll = (o, ops, given) => {
        const term = new Term(); sink = s => term.feed(s);
        const snap = JSON.stringify(given), bar = new ProgressBar(given);
        eq(JSON.stringify(given), snap, 'options unchanged');
        eq(term.rows, ['title'], 'the bar shows nothing before it is used'); eq(term.visible, true);
        let k = 0, closed = false;
        const hides = o.hiddenCursor !== false, lim = isUint(o.total);
        let n = 0;
        for (const [op, v] of ops) {
            const value = v === undefined ? '' : v, at = () => `step ${n} ${op}(${show(v)}) of ${show(ops)} with ${show(given)}`;
            n++;
            if (op === 'push') { if (lim && k >= o.total) return; k++; }
            let r, shown = null, hid = null;
            sink = s => { term.feed(s); if (shown === null) { shown = term.line; hid = !term.visible; } };
            r = op === 'end' ? bar.end() : op === 'push' ? (v === undefined ? bar.pushWrite() : bar.pushWrite(v)) : v === undefined ? bar.write() : bar.write(v);
            eq(term.rows[0], 'title', at); eq(term.r, 1, at); eq(term.rows.slice(2).join(''), '', at);
            if (op === 'end') { eq(r, true, at); eq(term.line, '', at); eq(term.visible, true, at); eq(term.c, 0, at); closed = true; continue; }
            eq(shown, text(o, k, value), at);
            const done = lim && k === o.total;
            eq(r, done, at);
            if (done) { eq(term.line, '', at); eq(term.visible, true, at); } else { eq(term.line, text(o, k, value), at); if (!closed) eq(term.visible, !hides, at); if (!hides) eq(term.visible, true, at); }
        }
    };
    const TRI = [undefined, true, false];
    const settings = [...product(TRI, TRI, TRI, TRI)].map(v => Object.fromEntries(['percentage', 'count', 'picture', 'hiddenCursor'].map((k, i) => [k, v[i]]).filter(([, x]) => x !== undefined)));
    const VALUES = ['x', undefined, 'longer text', '', '[#] 5% (1/2)'];
    const totals = [1, 2, 3, 4, undefined, NaN, -1, 1.5];
    const hist = function* () { const max = t.thorough ? 8 : 6; for (const w of words(['push', 'write', 'end'], 0, max)) for (const total of totals) yield [w, total]; };
    let q = 0;
    t.cases('histories', hist(), ([w, total]) => {
        const ops = w.map((x, i) => [x, x === 'end' ? undefined : VALUES[(i * 2 + w.length + q) % 5]]);
        for (let i = 0; i < settings.length; i++) { if (w.length > 4 && (i + q) % 9) continue; const o = total === undefined ? settings[i] : { total, ...settings[i] }; runAll(o, ops, o); }
        q++;
    }, { calls: 81 });
    t.cases('default', words(['push', 'write', 'end'], 0, 6), w => { runAll({}, w.map(x => [x, 'v']), undefined); runAll({ total: undefined }, w.map(x => [x, undefined]), { total: undefined }); });
    // every point of a total; plain writes between
    const TOT = [...Array(t.thorough ? 400 : 120).keys()].map(x => x + 1).concat([999, 1000, 1001, 4096, 10007]);
    t.cases('totals', product(TOT, [0, 1]), ([total, w]) => { const ops = []; for (let i = 0; i < total; i++) { ops.push(['push', 'a']); if (w && i % 3 === 0) ops.push(['write', 'bb']); } runAll({ total }, ops, { total }); }, { calls: 100 });
    // one bar after another on the same terminal, each counting for itself
    t.cases('successive', product([1, 2, 3, undefined], [1, 2, 3, undefined], words(['push', 'write'], 0, 3), words(['push', 'write'], 0, 3)), ([a, b, w1, w2]) => {
        const oa = a === undefined ? {} : { total: a }, ob = b === undefined ? {} : { total: b };
        runAll(oa, [...w1.map(x => [x, 'p']), ['end']], oa); runAll(ob, [...w2.map(x => [x, 'p']), ['end']], ob);
    });
};
