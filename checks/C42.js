'use strict';
process.env.UV_THREADPOOL_SIZE = '1';
const zlib = require('zlib');
const { ok, eq, show, words } = require('../lib/util');
const { Net, settle, turn } = require('../lib/net');
exports.technique = 'stateless exploration of all orders of transport events: the real request function over the real HTTP client and decompressors, on an in-memory wire driven event by event, with a reference state after every event';
exports.bounds = 'more than 60 response kinds (framing x encoding x status x method, corrupt and empty ones); every split of each response into up to 3 pieces and byte by byte; end, error and time-out of the connection at every point and in every pair; every answer of each handler at every call; two responses received at the same time in every order of their pieces';
exports.assumptions = [
    'between two events the client is left to become idle (only pieces also arrive at once), so the order of events is unambiguous',
    'truncated compressed data inside a complete response is passed on as far as it goes (the code asks the decompressor for it), garbage after compressed data is not judged',
    'whether the part received so far includes the chunk at which the data handler stopped is not judged'
];
exports.shards = 8;
exports.run = async t => {
    const net = new Net(), W = t.world({ mocks: net.mocks }), { request } = W.load('@curong/request');
    const stray = []; process.on('uncaughtException', e => stray.push(e)); process.on('unhandledRejection', e => stray.push(e));
    const TEXT = 'hello, wörld! '.repeat(3), BIG = Buffer.from(Array.from({ length: 70000 }, (_, i) => (i * 7919 + (i >> 5)) & 255));
    const raw = Buffer.from(TEXT);
    const ENC = {
        '': b => b, gzip: b => zlib.gzipSync(b), 'x-gzip': b => zlib.gzipSync(b), GZip: b => zlib.gzipSync(b), compress: b => zlib.gzipSync(b), 'x-compress': b => zlib.deflateSync(b),
        deflate: b => zlib.deflateSync(b), Deflate: b => zlib.deflateRawSync(b), br: b => zlib.brotliCompressSync(b), BR: b => zlib.brotliCompressSync(b), identity: b => b, foo: b => b
    };
    const frame = { length: b => [`Content-Length: ${b.length}\r\n`, b], close: b => ['', b], chunked: b => { const out = []; for (let i = 0; i < b.length; i += 11) { const c = b.subarray(i, i + 11); out.push(Buffer.from(c.length.toString(16) + '\r\n'), c, Buffer.from('\r\n')); } out.push(Buffer.from('0\r\n\r\n')); return ['Transfer-Encoding: chunked\r\n', Buffer.concat(out)]; } };
    const kind = (name, { enc = '', body = raw, coded, framing = 'length', status = '200 OK', method = 'GET', pre = '', extra = '', none = false, bad = false }) => {
        coded = coded || ENC[enc](body);
        const [h, b] = none ? [framing === 'length' ? `Content-Length: ${coded.length}\r\n` : '', Buffer.alloc(0)] : frame[framing](coded);
        const head = Buffer.from(`${pre}HTTP/1.1 ${status}\r\n${enc ? `Content-Encoding: ${enc}\r\n` : ''}${h}${extra}\r\n`, 'latin1');
        return { name, head: head.length, bytes: Buffer.concat([head, b]), body: none ? Buffer.alloc(0) : body, close: framing === 'close' && !none, method, status: parseInt(status), text: status.slice(4), bad, coded: coded.length, chunky: enc === '' || enc === 'identity' || enc === 'foo' };
    };
    const KINDS = [];
    for (const enc of Object.keys(ENC)) for (const framing of Object.keys(frame)) KINDS.push(kind(`${enc || 'plain'}/${framing}`, { enc, framing }));
    for (const enc of ['', 'gzip', 'deflate', 'br']) {
        KINDS.push(kind(`${enc} empty`, { enc, coded: Buffer.alloc(0), body: Buffer.alloc(0) }), kind(`${enc} nothing`, { enc, body: Buffer.alloc(0) }));
        KINDS.push(kind(`${enc} HEAD`, { enc, method: 'HEAD', none: true }), kind(`${enc} 204`, { enc, status: '204 No Content', none: true, framing: 'close' }), kind(`${enc} 304`, { enc, status: '304 Not Modified', none: true }));
        KINDS.push(kind(`${enc} one`, { enc, body: Buffer.from('x') }));
        KINDS.push(kind(`${enc} 404`, { enc, status: '404 Not Found' }), kind(`${enc} 500`, { enc, status: '500 Oops a b', method: 'POST' }));
        KINDS.push(kind(`${enc} continue`, { enc, pre: 'HTTP/1.1 100 Continue\r\n\r\n' }));
        KINDS.push(kind(`${enc} redirect`, { enc, status: '302 Found', extra: 'Location: http://elsewhere/\r\n' }));
        if (enc) KINDS.push(kind(`${enc} corrupt`, { enc, coded: Buffer.from('\u0007not compressed data at all: \u0000\u0001\u0002 x', 'latin1'), bad: true }));
    }
    for (const w of [9, 10, 11, 12, 13, 14, 15]) KINDS.push(kind(`zlib window ${w}`, { enc: 'deflate', coded: zlib.deflateSync(raw, { windowBits: w }) }));
    for (const [n, o] of Object.entries({ stored: { level: 0 }, fixed: { strategy: zlib.constants.Z_FIXED }, best: { level: 9 }, huffman: { strategy: zlib.constants.Z_HUFFMAN_ONLY } })) {
        KINDS.push(kind(`raw deflate ${n}`, { enc: 'deflate', coded: zlib.deflateRawSync(raw, o) }), kind(`zlib ${n}`, { enc: 'deflate', coded: zlib.deflateSync(raw, o) }), kind(`gzip ${n}`, { enc: 'gzip', coded: zlib.gzipSync(raw, o) }));
    }
    KINDS.push(kind('gzip members', { enc: 'gzip', coded: Buffer.concat([zlib.gzipSync(raw.subarray(0, 9)), zlib.gzipSync(raw.subarray(9))]) }));
    // the reference: the state after each event
    const done = (k, fed, fin) => k.close ? fin && fed >= k.head : fed >= k.bytes.length;
    const run = async (k, events, h = {}, opts = {}) => {
        net.requests.length = 0; stray.length = 0;
        const seen = { header: [], data: [] }, sentCfg = {}; let out = null, stopAt = null, threw = null;
        const handlers = {};
        if (h.header) handlers.header = (res, o) => { seen.header.push([res, o]); if (h.header === 'throw') { threw = new Error('handler'); throw threw; } return h.header === 'stop' ? true : h.header === 'false' ? false : undefined; };
        if (h.data) handlers.data = (chunk, res, o) => { seen.data.push([chunk, res, o]); if (seen.data.length === h.at) { if (h.data === 'throw') { threw = new Error('handler'); throw threw; } if (h.data === 'stop') { stopAt = seen.data.length; return true; } } return h.data === 'false' ? false : undefined; };
        const options = { hostname: 'h.test', https: false, path: '/p', method: k.method, timeout: 5000, maxRedirects: 0, ...opts };
        if (k.method === 'POST') options.body = 'q=1';
        let count = 0;
        const p = Object.keys(h).length ? request(options, handlers) : request(options);
        p.then(v => { count++; out = ['ok', v]; }, e => { count++; out = ['err', e]; });
        for (let i = 0; !net.requests.length && i < 4000 && !out; i++) await turn();
        eq(net.requests.length, 1, () => `requests made ${out ? show(out[1]) : ''}`);
        const { wire } = net.requests[0];
        await settle(1, false);
        eq(wire.timeoutMs, 5000, 'time limit of the connection');
        let fed = 0, fin = false, finAt = Infinity, want = null, why = '', dead = false;
        const at = i => `${k.name}: after event ${i + 1} of ${show(events.map(e => typeof e === 'number' ? e : e))} with ${show(h)}`;
        for (let i = 0; i < events.length; i++) {
            const e = events[i];
            if (typeof e === 'number') { wire.feed(k.bytes.subarray(fed, fed + e)); if (!dead && !fin) fed += e; } else if (e === 'fin') { wire.fin(); } else if (e === 'err') wire.break(); else if (e === 'timeout') wire.expire(); else if (e === 'now') continue;
            if (typeof e === 'number' && events[i + 1] === 'now') continue;
            await settle(2);
            const stopHeader = h.header === 'stop' && fed >= k.head, throwHeader = h.header === 'throw' && fed >= k.head;
            if (!want) {
                if (e === 'fin') { fin = true; finAt = fed; }
                // the decompressor may need several steps before the handler is called
                if (/stop|throw/.test(h.data) && done(k, fed, fin)) for (let j = 0; !out && j < 400; j++) await settle(1);
                if (throwHeader || (h.data === 'throw' && threw)) { want = 'err'; why = 'the handler threw'; } else if (stopHeader) { want = 'header'; why = 'the header handler stopped'; } else if (stopAt) { want = 'data'; why = 'the data handler stopped'; } else if (k.bad && fed >= k.bytes.length && done(k, fed, fin || !k.close)) { want = 'err'; why = 'the data is corrupt'; } else if (done(k, fed, fin)) { want = 'ok'; why = 'the response is complete'; } else if (typeof e !== 'number') { want = 'err'; why = e; }
                // corrupt data may be noticed before all of it has arrived
                if (!want && k.bad && out && out[0] === 'err') { want = 'err'; why = 'corrupt data'; }
            }
            if (want) { for (let j = 0; !out && j < 400; j++) { await settle(1); if (j > 50) await new Promise(r => setTimeout(r, 5)); } ok(out, () => `${at(i)}: not settled although ${why}`); dead = true; } else ok(!out, () => `${at(i)}: settled as ${show(out, 2)} although nothing has ended`);
        }
        if (!want) { wire.break(); await settle(3); ok(out && out[0] === 'err', () => `${at(events.length)}: not rejected after a final break`); want = 'err'; }
        await settle(1);
        ok(!stray.length, () => `${at(events.length)}: stray ${stray[0] && stray[0].stack}`);
        eq(count, 1, 'settled'); ok(wire.destroyed, () => `${at(events.length)}: the connection is left open`);
        const [how, v] = out, name = () => at(events.length - 1);
        if (want === 'err') {
            eq(how, 'err', () => `${name()}: ${why}`);
            ok(v && typeof v === 'object' && typeof v.then !== 'function' && (v instanceof Error || v.error instanceof Error || Object.prototype.toString.call(v) === '[object Error]'), () => `${name()}: rejected with ${show(v, 1)}`);
        } else {
            eq(how, 'ok', () => `${name()}: ${why}, but rejected with ${show(v, 2)}`);
            eq(v.status, k.status); eq(v.statusText, k.text); eq(v.error, null); ok(Buffer.isBuffer(v.data), 'data is a buffer');
            ok(v.response && v.response.statusCode === k.status && v.request === net.requests[0].req, 'request and response'); eq(v.config.hostname, 'h.test');
            const body = k.close && finAt < k.bytes.length ? (k.chunky ? k.bytes.subarray(k.head, finAt) : k.body.subarray(0, v.data.length)) : k.body;
            if (want === 'ok') ok(v.data.equals(body), () => `${name()}: body ${show(v.data.toString().slice(0, 60))} (${v.data.length}) instead of ${show(k.body.toString().slice(0, 60))} (${k.body.length})`);
            if (want === 'header') eq(v.data.length, 0, 'data before the header handler stopped');
            if (want === 'data') { const all = seen.data.slice(0, stopAt).map(c => c[0]), before = Buffer.concat(all.slice(0, -1)), incl = Buffer.concat(all); ok(v.data.equals(before) || v.data.equals(incl), () => `${name()}: ${show(v.data.toString())} instead of what was received: ${show(incl.toString())}`); }
            if (v.response) for (const [r] of seen.header) ok(r === v.response, 'the header handler gets another response');
        }
        eq(seen.header.length, h.header && fed >= k.head && !(k.status < 200) ? 1 : 0, () => `${name()}: calls of the header handler`);
        if (h.header && seen.header.length) { eq(seen.header[0][0].statusCode, k.status); eq(seen.header[0][1].hostname, 'h.test'); }
        if (stopAt !== null) eq(seen.data.length, stopAt, () => `${name()}: the data handler is called after it stopped`);
        const got = Buffer.concat(seen.data.map(c => Buffer.from(c[0])));
        if (!k.bad) ok(k.body.subarray(0, got.length).equals(got), () => `${name()}: the data handler gets ${show(got.toString())}`);
        if (want === 'ok' && h.data) ok(got.equals(v.data), () => `${name()}: the data handler gets ${show(got.toString())} of ${show(k.body.toString())}`);
        if (h.data === 'stop' && h.at === 1 && k.body.length && done(k, fed, true) && !k.bad && !(h.header === 'stop' || h.header === 'throw') && events.every(e => typeof e === 'number')) ok(stopAt === 1, () => `${name()}: the data handler is not called`);
        return `${k.name} ${events.join()} ${show(h)} ${how} ${why}`;
    };
    const T = ['fin', 'err', 'timeout'];
    // pieces: cut positions of the response
    const cutsOf = (k, n) => { const L = k.bytes.length, pts = t.thorough ? [...Array(L - 1).keys()].map(i => i + 1) : [1, k.head - 2, k.head - 1, k.head, k.head + 1, k.head + 2, Math.floor((k.head + L) / 2), L - 5, L - 1]; return [...new Set(pts)].filter(p => p > 0 && p < L).sort((a, b) => a - b); };
    const pieces = (k, cuts) => { const out = []; let p = 0; for (const c of [...cuts, k.bytes.length]) { out.push(c - p); p = c; } return out; };
    const withTerm = function* (ps) {
        yield ps;
        for (let i = 0; i <= ps.length; i++) for (const a of T) { const l = [...ps.slice(0, i), a, ...ps.slice(i)]; yield l; }
    };
    const pairs = function* (ps) { for (let i = 0; i <= ps.length; i++) for (const a of T) for (let j = i; j <= ps.length; j++) for (const b of T) yield [...ps.slice(0, i), a, ...ps.slice(i, j), b, ...ps.slice(j)]; };
    const schedules = function* () {
        for (const k of KINDS) {
            for (const ps of [[k.bytes.length], ...cutsOf(k).map(c => pieces(k, [c]))]) for (const ev of withTerm(ps)) yield [k, ev];
            for (const ev of pairs([k.bytes.length])) yield [k, ev];
            yield [k, [...Array(k.bytes.length).keys()].map(() => 1).concat(k.close ? ['fin'] : [])];
            yield [k, [...Array(k.bytes.length).keys()].flatMap(() => [1, 'now']).slice(0, -1).concat(k.close ? ['fin'] : [])];
        }
    };
    await t.casesAsync('schedules', schedules(), ([k, ev]) => run(k, ev), { key: ([k, ev]) => `${k.name} ${ev}` });
    const few = KINDS.filter(k => /^(plain|gzip|deflate|br)\/|corrupt| 204|HEAD| empty/.test(k.name));
    const three = function* () {
        for (const k of few) { const c = cutsOf(k).filter(x => t.thorough ? (x - k.head) % 3 === 0 || x >= k.head - 1 && x <= k.head + 1 : true); for (let i = 0; i < c.length; i++) for (let j = i + 1; j < c.length; j++) { if (!t.thorough && (i + j) % 2) continue; for (const ev of withTerm(pieces(k, [c[i], c[j]]))) yield [k, ev]; } }
    };
    await t.casesAsync('three-pieces', three(), ([k, ev]) => run(k, ev), { key: ([k, ev]) => `${k.name} ${ev}` });
    const HANDLERS = [];
    for (const header of [undefined, 'none', 'false', 'stop', 'throw']) for (const [data, at] of [[undefined, 0], ['none', 0], ['false', 0], ['stop', 1], ['stop', 2], ['stop', 3], ['throw', 1], ['throw', 2]]) { if (header || data) HANDLERS.push({ ...(header && { header }), ...(data && { data, at }) }); }
    const handled = function* () {
        for (const k of few.filter(x => !/corrupt/.test(x.name)))
            for (const h of HANDLERS) {
                const mid = Math.floor((k.head + k.bytes.length) / 2), lists = [[k.bytes.length]];
                if (k.bytes.length > k.head) { lists.push(pieces(k, [k.head])); if (mid > k.head + 1) lists.push(pieces(k, [k.head, mid]), pieces(k, [k.head + 1, mid]), pieces(k, [mid])); }
                for (const ps of lists) for (const ev of t.thorough ? [...withTerm(ps), ...pairs(ps)] : withTerm(ps)) yield [k, ev, h];
            }
    };
    await t.casesAsync('handlers', handled(), ([k, ev, h]) => run(k, ev, h), { key: ([k, ev, h]) => `${k.name} ${ev} ${show(h)}` });
    // bodies that need several decompressor calls
    const large = ['', 'gzip', 'deflate', 'br'].flatMap(enc => ['length', 'chunked'].map(framing => kind(`large ${enc}/${framing}`, { enc, framing, body: BIG })));
    const bigSplits = function* () { for (const k of large) for (const n of [1, 2, 3, 7]) for (const burst of [0, 1]) { const ps = []; let p = 0; for (let i = 1; i <= n; i++) { const e = Math.floor(k.bytes.length * i / n); ps.push(e - p); p = e; } const ev = burst ? ps.flatMap(x => [x, 'now']).slice(0, -1) : ps; for (const h of [{}, { data: 'none', at: 0 }, { data: 'stop', at: 2 }]) yield [k, ev, h]; } };
    await t.casesAsync('large', bigSplits(), ([k, ev, h]) => run(k, ev, h), { key: ([k, ev]) => `${k.name} ${ev}` });
    // no response at all: garbage, a switched protocol, a tunnel; and a cancelled request
    const odd = { garbage: ['nonsense'], 'half head': ['HTTP/1.1 200 OK\r\nA: b'], upgrade: ['HTTP/1.1 101 Switching\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\n'], 'upgrade data': ['HTTP/1.1 101 Switching\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\nabc'] };
    await t.casesAsync('no-response', [...Object.keys(odd).flatMap(n => ['GET', 'HEAD', 'POST', 'CONNECT'].flatMap(m => T.map(x => [n, m, x]))), ...['200 OK', '403 No', '407 Auth'].flatMap(s => T.map(x => ['tunnel ' + s, 'CONNECT', x]))], async ([n, method, term]) => {
        net.requests.length = 0; stray.length = 0; let out = null;
        request({ hostname: 'h.test', https: false, method, timeout: 5000 }).then(v => { out = ['ok', v]; }, e => { out = ['err', e]; });
        for (let i = 0; !net.requests.length && i < 4000 && !out; i++) await turn();
        const { wire } = net.requests[0];
        for (const x of odd[n] || [`HTTP/1.1 ${n.slice(7)}\r\nContent-Length: 0\r\n\r\n`]) wire.feed(Buffer.from(x));
        await settle(2);
        if (term === 'fin') wire.fin(); else if (term === 'err') wire.break(); else wire.expire();
        for (let j = 0; !out && j < 100; j++) { await settle(1); if (j > 50) await new Promise(r => setTimeout(r, 5)); }
        ok(out, `${n} ${method} ${term}: never settles`); eq(out[0], 'err', `${n} ${method} ${term}`); ok(out[1] instanceof Error || out[1].error instanceof Error || /Error/.test(Object.prototype.toString.call(out[1])), show(out[1], 1));
        ok(!stray.length, () => stray[0].stack); ok(wire.destroyed, 'the connection is left open');
    });
    await t.casesAsync('cancel', [0, 1, 2, 3].flatMap(at => [0, 1].map(early => [at, early])), async ([at, early]) => {
        net.requests.length = 0; stray.length = 0; let out = null; const ac = new AbortController();
        if (early) ac.abort();
        request({ hostname: 'h.test', https: false, timeout: 5000, signal: ac.signal }).then(v => { out = ['ok', v]; }, e => { out = ['err', e]; });
        for (let i = 0; !net.requests.length && i < 4000 && !out; i++) await turn();
        const ps = ['HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\n', 'a', 'bc'];
        for (let i = 0; i <= ps.length; i++) { if (!early && i === at) { ac.abort(); await settle(2); } if (i < ps.length && net.requests[0]) net.requests[0].wire.feed(Buffer.from(ps[i])); await settle(1); }
        for (let j = 0; !out && j < 60; j++) await settle(1);
        ok(out, 'a cancelled request never settles'); eq(out[0], early || at < 3 ? 'err' : 'ok'); ok(!stray.length, () => stray[0].stack);
    });
    // two requests under way at the same time, every order of their starts and of the pieces of their answers; each ends as it does alone
    const by = n => KINDS.find(k => k.name === n), OV = [[by('plain/length')], [by('plain/chunked'), { data: 'go' }], [by('gzip/chunked')], [by('gzip/length'), { header: 'go', data: 'stop', at: 1 }], [by('Deflate/close')], [by('deflate/length'), { data: 'go' }], [by('br/length')], [by('gzip corrupt')], [by('plain/length'), {}, 'err'], [by('gzip/chunked'), {}, 'timeout'], [by('plain/length'), { header: 'stop' }], [by('gzip 500')]].map(([k, h = {}, term], i) => ({ k, h, term, n: `${i} ${k.name} ${term || ''}` }));
    const both = async (list, order) => {
        net.requests.length = 0; stray.length = 0; const at = list.map(() => 0), fed = list.map(() => 0), outs = list.map(() => null), hear = list.map(() => []), N = list.map(({ k, term }) => { const L = k.bytes.length, m = (k.head + L) >> 1; return term ? ['start', m, term] : ['start', k.head + 3 > L ? L : k.head + 3, L, 'fin']; });
        const wire = i => net.requests.find(r => r.options.hostname === `h${i}.test`);
        for (let n = 0; n < order.length; n++) {
            const i = order[n], { k, h } = list[i], e = N[i][at[i]++]; if (e === undefined) continue;
            if (e === 'start') {
                const handlers = {}; for (const w of ['header', 'data']) if (h[w]) handlers[w] = (...a) => { hear[i].push(w === 'data' ? Buffer.from(a[0]) : a[0].statusCode, (a[2] || a[1]).hostname === `h${i}.test`); return h[w] === 'stop'; };
                const o = { hostname: `h${i}.test`, https: false, path: '/p', method: k.method, timeout: 5000, maxRedirects: 0, headers: { 'x-call': 'same' } }; if (k.method === 'POST') o.body = 'q=1';
                request(o, handlers).then(v => { outs[i] = ['ok', v.status, v.statusText, v.data.toString('hex'), v.error, v.response.statusCode, v.request === wire(i).req, v.config.hostname === `h${i}.test`]; }, x => { outs[i] = ['err', (x.error || x).message, (x.error || x).code]; });
                if (N[order[n + 1]]?.[at[order[n + 1]]] === 'start') continue;
                for (let j = 0; j < 4000 && order.slice(0, n + 1).some(x => !wire(x)); j++) await turn();
            } else if (typeof e === 'number') { wire(i).wire.feed(k.bytes.subarray(fed[i], e)); fed[i] = e; } else if (e === 'fin') { if (k.close) wire(i).wire.fin(); } else if (e === 'err') wire(i).wire.break(); else wire(i).wire.expire();
            await settle(2);
        }
        for (let j = 0; outs.some(o => !o) && j < 400; j++) { await settle(1); if (j > 50) await new Promise(r => setTimeout(r, 5)); }
        ok(!stray.length, () => `stray ${stray[0] && stray[0].stack}`);
        return list.map((c, i) => ({ out: outs[i], heard: hear[i].map(x => Buffer.isBuffer(x) ? x.toString('hex') : x), sent: wire(i).wire.sent.toString('latin1').split(`h${i}.test`).join('HOST'), open: !wire(i).wire.destroyed }));
    };
    const alone = new Map(); for (const c of OV) alone.set(c, (await both([c], [0, 0, 0, 0]))[0]);
    const mixes = [...words([0, 1], 8, 8)].filter(w => w.filter(x => x).length === 4), ovPairs = OV.flatMap((a, i) => OV.slice(t.thorough ? 0 : i).map(b => [a, b]));
    await t.casesAsync('overlapping', (function* () { for (const p of ovPairs) for (const w of mixes) if (t.thorough || w[0] === 0) yield [p, w]; })(), async ([p, w]) => { const got = await both(p, w); p.forEach((c, i) => eq(got[i], alone.get(c), () => `${p[0].n} and ${p[1].n} in order ${w}: call ${i + 1}`)); return `${p[0].n} / ${p[1].n} ${w}`; }, { key: ([p, w]) => `${p[0].n} / ${p[1].n} / ${w}` });
};
