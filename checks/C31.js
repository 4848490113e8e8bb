'use strict';
const { ok, eq, show, attempt } = require('../lib/util');
const { again } = require('../lib/again');
const { nested, overlapFs } = require('../lib/overlap');
const { Fsx } = require('../lib/fsx');
const fs = require('fs');
exports.technique = 'bounded exhaustive enumeration of texts and, for the stream reader, of all ways the bytes can be cut into chunks (with delays and failing reads injected under the real stream), against a reference splitter';
exports.bounds = 'all texts up to length 7 over letters and terminators; all byte-level chunkings of all texts up to 6 bytes; every failing read position; texts around the 64 KiB buffer size; two overlapping calls on separate trees with a switch at any file-system call (any two for short ones), and every single call with its own simultaneous operations in deviating orders; every ordered pair of a table of calls, results and arguments changed in between';
exports.assumptions = ['callbacks declare at least one parameter', 'U+2028 and U+2029 are outside the domain of the stream reader'];
exports.shards = 4;
exports.run = async t => {
    const fx = new Fsx(); const w = t.world({ mocks: fx.mocks }); const F = w.load('@curong/fs'); const D = t.thorough ? 1 : 0;
    const T1 = /\r\n|\r|\n/, T2 = /\r\n|[\r\n\u2028\u2029\u0085]/;
    const one = (name, re) => s => {
        const e = s.split(re), l = `${name}(${show(s)})`;
        eq(F[name](s), e, l); eq(F[name](s, 'utf8'), e, `${l} with encoding`);
        const got = []; const r = F[name](s, 'utf8', (v, d) => { got.push([v, d]); }); eq(r, null, `${l}: result with a callback`); eq(got, e.map((v, i) => [v, i === e.length - 1]), `${l}: callback`);
        const g2 = []; F[name](s, (v, d) => { g2.push([v, d]); }); eq(g2, got, `${l}: callback as second argument`);
        if (s.isWellFormed()) for (const enc of ['utf8', 'utf16le', undefined]) { const b = Buffer.from(s, enc); eq(F[name](b, enc), e, `${l}: as a buffer in ${enc}`); }
        const g3 = []; F[name](Buffer.from(s), null, (v, d) => { g3.push([v, d]); }); if (s.isWellFormed()) eq(g3, got, `${l}: buffer callback`);
        return JSON.stringify(e);
    };
    t.cases('readline', t.strings('a\r\nb', 0, 6 + D), one('readline', T1));
    t.cases('readlineFromCode', t.strings('a\r\n\u2028\u0085', 0, 5 + D), one('readlineFromCode', T2));
    t.cases('readline-others', t.strings('é\n\u2028\u000b\0', 0, 5 + D), s => { one('readline', T1)(s); one('readlineFromCode', T2)(s); });
    t.cases('readline-more', t.strings('😀\u2029\f\r\u0a0d\u0d0a', 0, 4 + D), s => { one('readline', T1)(s); one('readlineFromCode', T2)(s); });
    t.cases('readline-every-char', t.range(0, 255), h => { for (let i = h * 256; i < h * 256 + 256; i++) { const c = String.fromCharCode(i); eq(F.readline(`x${c}y`), `x${c}y`.split(T1)); eq(F.readlineFromCode(`x${c}y`), `x${c}y`.split(T2)); } });
    t.cases('readline-latin1', t.strings('\u00e9\r\n\u0085', 0, 4), s => { for (const enc of ['latin1', 'hex', 'base64']) { const b = Buffer.from(s, 'latin1'), d = b.toString(enc); eq(F.readline(b, enc), d.split(T1), enc); eq(F.readlineFromCode(b, enc), d.split(T2), enc); } });
    t.cases('readline-bad', t.product(['readline', 'readlineFromCode'], [1, null, undefined, {}, ['a'], new String('a'), new Uint16Array(2)]), ([n, v]) => { if (v instanceof String) return; ok(!attempt(() => F[n](v)).ok, `${n}(${show(v)}) accepted`); });
    t.cases('readline-long', t.product([0, 1, 1000, 100000], ['\n', '\r\n', '\r'], ['', 'z']), ([n, e, tail]) => { const s = ('line' + e).repeat(n) + tail; eq(F.readline(s).length, n + 1); eq(F.readline(s).join(e), s); eq(F.readline('q'.repeat(n) + e + tail), ['q'.repeat(n), tail]); });
    // ---- byte-order mark
    t.cases('stripBOM', t.strings('\ufeffa\ufffe', 0, 4), s => { eq(F.stripBOM(s), s[0] === '\ufeff' ? s.slice(1) : s); });
    // ---- streams
    const lines = s => { const e = s.split(T1); if (e.at(-1) === '') e.pop(); return e; };
    const file = fx.abs('f'); const settle = p => p.then(v => ({ ok: true, value: v }), e => ({ ok: false, error: e }));
    const stream = async (s, chunks, o = {}) => {
        fx.reset(o.plan); fx.chunks = chunks; fx.readDelay = o.delay;
        const l = `readlineStream of ${show(s).slice(0, 200)} in chunks ${show(chunks)}`;
        const r = await settle(F.readlineStream(file, ...(o.enc ? [o.enc] : []))); fx.noEscape();
        ok(r.ok, `${l}: ${show(r.error)}`); eq(r.value, lines(s), l);
    };
    const cuts = n => { const r = []; for (let m = 0; m < 1 << Math.max(0, n - 1); m++) { const c = []; let k = 1; for (let i = 0; i < n - 1; i++) if (m >> i & 1) { c.push(k); k = 1; } else k++; if (n) c.push(k); r.push(c); } return r; };
    const texts = [...t.strings('a\r\n', 0, 5 + D)];
    await t.casesAsync('stream-chunks', texts, async s => { fs.writeFileSync(file, s); for (const c of cuts(Buffer.byteLength(s))) await stream(s, c); });
    await t.casesAsync('stream-utf8', t.words(['é', '😀', 'a', '\n', '\r\n'], 1, 2 + D), async w => { const s = w.join(''); fs.writeFileSync(file, s); for (const c of cuts(Buffer.byteLength(s))) await stream(s, c); });
    await t.casesAsync('stream-callback', t.strings('a\n\r文', 0, 3), async s => {
        fs.writeFileSync(file, s); for (const form of [0, 1, 2, 3]) for (const ch of [undefined, Array(16).fill(1)]) { fx.reset(); if (ch) fx.chunks = ch; const got = []; const cb = v => { got.push(v); }; const r = await (form === 0 ? F.readlineStream(file, cb) : form === 1 ? F.readlineStream(file, 'utf8', cb) : form === 2 ? F.readlineStream(file, undefined, cb) : F.readlineStream(file, 'latin1', cb)); eq(got, lines(form === 3 ? Buffer.from(s).toString('latin1') : s), `callback lines of ${show(s)}`); eq(r, true, 'result with a callback'); } });
    await t.casesAsync('stream-encoding', t.product(['a\né\r\nb', 'x', ''], ['utf8', 'utf16le', 'latin1']), async ([s, enc]) => { const b = Buffer.from(s, enc); fs.writeFileSync(file, b); for (const c of cuts(Math.min(b.length, 9))) await stream(s, c, { enc }); });
    // a pair of terminators whose halves arrive far apart
    await t.casesAsync('stream-delay', [['a\r\nb', [2, 9]], ['\r\n\r\n', [1, 2, 9]], ['a\r\n', [2, 9]], ['a\r\rb', [2, 9]]], async ([s, c]) => { fs.writeFileSync(file, s); await stream(s, c, { delay: [0, 250, 0] }); });
    // failing reads: rejection, never a short list that passes for the whole file
    await t.casesAsync('stream-faults', t.product(['a\nb\nc', 'x', 'a\r\n'], [[1, 1, 1, 1, 1, 1], [9]], t.range(0, 6)), async ([s, c, nth]) => {
        fs.writeFileSync(file, s); for (const [n, cb] of [['streamRead', false], ['streamOpen', false], ['streamRead', true]]) { fx.reset({ name: n, nth: n === 'streamRead' ? nth : undefined }); fx.chunks = c; let late = null; const on = e => { late = e; }; process.on('uncaughtException', on);
            const got = []; const r = await Promise.race([settle(cb ? F.readlineStream(file, v => { got.push(v); }) : F.readlineStream(file)), new Promise(r => setTimeout(r, 3000, 'never'))]); await new Promise(r => setImmediate(r)); process.off('uncaughtException', on);
            ok(!late, `a failing read crashes the process: ${show(late)}`); ok(r !== 'never', 'a failing read is never reported');
            if (fx.plan.hit) ok(!r.ok, `${n} ${nth} fails, but the result is ${show(r.value)}`); else if (!cb) eq(r.value, lines(s)); else eq(got, lines(s)); }
    });
    // histories of equal calls: changing an earlier result or earlier arguments changes no later call
    fx.clean(); fx.reset(); fs.writeFileSync(file, 'a\n中\n'); await again(t, [['readline', F.readline, () => ['a\r\nb']], ['readline', F.readline, () => [Buffer.from('a\r\nb')]], ['readlineFromCode', F.readlineFromCode, () => ['a\r\nb']], ['readlineFromCode', F.readlineFromCode, () => [Buffer.from('q\nr')]], ['readline', F.readline, () => ['']], ['stream', F.readlineStream, () => [file]], ['stream', F.readlineStream, () => [file, 'latin1']], ['fragment', F.readFragment, () => [file, { start: 0, end: 3 }]], ['fragment', F.readFragment, () => [file, { start: 0, end: 3, firstLine: true }]], ['stripBOM', F.stripBOM, () => ['\ufeffx']]]);
    await t.casesAsync('stream-bad-path', ['missing', 'dir', 'dangling', 'f/x'], async p => { fx.clean(); fx.build('f', 'a'); fx.build('dir', {}); fx.build('dangling', { '->': 'nowhere' }); const r = await settle(F.readlineStream(fx.abs(p))); ok(!r.ok, `readlineStream of ${p} gives ${show(r.value)}`); });
    await t.casesAsync('stream-readonly', ['a\nb'], async s => { fs.writeFileSync(file, s); fx.reset(); fx.readonly = true; const r = await Promise.race([settle(F.readlineStream(file)), new Promise(r => setTimeout(r, 2000, { ok: false, error: 'never' }))]); fx.readonly = false; ok(r.ok, `a file without write permission cannot be read: ${show(r.error)}`); eq(r.value, lines(s)); });
    await t.casesAsync('stream-large', t.product([65534, 65535, 65536, 65537, 131072], ['\n', '\r\n', 'é', '😀']), async ([n, x]) => { const s = 'q'.repeat(n - 1) + x + 'tail' + x; fs.writeFileSync(file, s); await stream(s, null); });
    await t.casesAsync('stream-many', [1000, 50000], async n => { const s = Array.from({ length: n }, (_, i) => 'l' + i).join('\n'); fs.writeFileSync(file, s); await stream(s, null); });
    await t.casesAsync('stream-parallel', [3], async n => { const texts = ['a\nb', 'c\r\nd\r\n', '']; const ps = texts.map((s, i) => { fs.writeFileSync(fx.abs('p' + i), s); return F.readlineStream(fx.abs('p' + i)); }); eq(await Promise.all(ps), texts.map(lines)); });
    // ---- fragments
    await t.casesAsync('readFragment', t.product(['', 'abc', 'a\nb\r\nc', '\n\n', 'a\rb', 'é😀x', 'abcdefghij'], t.range(0, 11), t.range(0, 11), [undefined, false, true]), async ([s, start, end, firstLine]) => {
        fs.writeFileSync(file, s); fx.reset(); const b = Buffer.from(s); if (start > end) { const r = await Promise.race([settle((async () => F.readFragment(file, { start, end, firstLine }))()), new Promise(r => setTimeout(r, 2000, 'never'))]); if (end > 0) ok(r !== 'never', 'never settles'); return; }
        const o = { start, end }; if (firstLine !== undefined) o.firstLine = firstLine; const v = await F.readFragment(file, o); let e = end === 0 ? undefined : b.subarray(start, end + 1).toString('utf8'); if (firstLine && e !== undefined) e = e.split(T1)[0]; if (e === '' && v === undefined) return; eq(v, e, `readFragment(${show(s)}, ${show(o)})`);
        for (const c of [[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], [2, 3, 9]]) { fx.reset(); fx.chunks = c; const v2 = await F.readFragment(file, o); eq(v2, v, `in chunks ${c}`); }
    });
    await t.casesAsync('readFragment-bad', t.product([-1, 1.5, NaN, Infinity, '1', null], ['start', 'end']), async ([v, k]) => { fs.writeFileSync(file, 'abc'); const r = await settle((async () => F.readFragment(file, { start: 0, end: 2, [k]: v }))()); ok(!r.ok, `${k} ${show(v)} accepted: ${show(r.value)}`); });
    await t.casesAsync('readFragment-faults', t.range(0, 4), async nth => { fs.writeFileSync(file, 'abcdef'); for (const n of ['streamRead', 'streamOpen']) { fx.reset({ name: n, nth: n === 'streamRead' ? nth : undefined }); fx.chunks = [1, 1, 1, 1, 1, 1, 1]; const r = await settle(F.readFragment(file, { end: 5 })); if (fx.plan.hit) ok(!r.ok, `failing read gives ${show(r.value)}`); else eq(r.value, 'abcdef'); } fx.reset(); ok(!(await settle(F.readFragment(fx.abs('none'), { end: 3 }))).ok, 'a missing file'); });
    // ---- two readers under way at the same time, each getting its bytes piece by piece
    const rd = (n, f, run) => ({ n, tree: { f }, run });
    await overlapFs(t, 'at once', fx, F, [
        rd('lines', 'ab\r\ncd\nef', (F, p) => F.readlineStream(p('f'))), rd('lines one by one', 'uv\n\nwx', async (F, p) => { const g = []; return [await F.readlineStream(p('f'), v => { g.push(v); }), g]; }), rd('lines in utf16', Buffer.from('k\nm', 'utf16le'), (F, p) => F.readlineStream(p('f'), 'utf16le')), rd('lines of nothing', '', (F, p) => F.readlineStream(p('f'))), rd('lines of none', 'x', (F, p) => F.readlineStream(p('g'))),
        rd('fragment', '0123456789', (F, p) => F.readFragment(p('f'), { start: 2, end: 6 })), rd('first line', 'xy\nzw', (F, p) => F.readFragment(p('f'), { end: 5, firstLine: true })), rd('no fragment', 'xy', (F, p) => F.readFragment(p('g'), { end: 5 })),
    ], { chunks: [3, 3, 3, 3, 3] });
    const inside = (n, s, ...as) => ({ n, run: hook => { const g = []; const r = F[n](s, ...as, (v, d) => { hook(); g.push([v, d]); }); return [r, g]; } }), plain = (n, s, ...as) => ({ n: n + ' plain', run: hook => [F[n](s, ...as), hook()] });
    for (const n of ['readline', 'readlineFromCode']) nested(t, `${n} inside`, [inside(n, 'a\nb\r\nc'), inside(n, Buffer.from('x\n\ny'), 'utf8'), inside(n, 'p\rq', null), plain(n, 'one\ntwo'), plain(n, Buffer.from('u\nv', 'utf16le'), 'utf16le')]);
    fx.dispose();
};
