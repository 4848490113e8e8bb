'use strict';
// An in-memory network under the real HTTP client of the host: every request gets its own wire, whose far end is
// driven by the check. Nothing reaches a socket.
const http = require('http'), https = require('https'), zlib = require('zlib'), { urlToHttpOptions } = require('url'), { Duplex } = require('stream');

class Wire extends Duplex {
    constructor() { super({ allowHalfOpen: true, autoDestroy: true }); this.out = []; this.ended = false; this.connecting = false; }
    _read() {}
    _write(c, e, cb) { this.out.push(Buffer.from(c)); cb(); if (this.onSent) this.onSent(); }
    _final(cb) { this.ended = true; cb(); }
    setTimeout(ms, cb) { this.timeoutMs = ms; if (cb) this.once('timeout', cb); return this; }
    setNoDelay() { return this; }
    setKeepAlive() { return this; }
    ref() { return this; }
    unref() { return this; }
    get sent() { return Buffer.concat(this.out); }
    // the far end
    feed(b) { if (!this.destroyed) this.push(b); }
    fin() { if (!this.destroyed) this.push(null); }
    break(e) { if (!this.destroyed) this.destroy(e || Object.assign(new Error('read ECONNRESET'), { code: 'ECONNRESET' })); }
    expire() { if (!this.destroyed) this.emit('timeout'); }
}
class Net {
    constructor() {
        this.requests = []; this.onRequest = null;
        const make = secure => (...a) => {
            let cb = typeof a[a.length - 1] === 'function' ? a.pop() : undefined, o = {};
            if (typeof a[0] === 'string' || a[0] instanceof URL) { o = { ...urlToHttpOptions(new URL(a[0])), ...a[1] }; } else o = a[0];
            const proto = secure ? 'https:' : 'http:';
            if (o.protocol && o.protocol !== proto) throw new TypeError(`Protocol "${o.protocol}" not supported. Expected "${proto}"`);
            const wire = new Wire(), entry = { secure, options: o, wire, ts: this.requests.length };
            const opt = { ...o, agent: undefined, createConnection: co => { if (co && co.timeout) wire.setTimeout(co.timeout); return wire; } };
            delete opt.protocol; delete opt.lookup; delete opt.socketPath;
            if (secure && opt.defaultPort === undefined) opt.defaultPort = 443;
            entry.req = http.request(opt, cb);
            this.requests.push(entry);
            if (this.onRequest) this.onRequest(entry);
            return entry.req;
        };
        const h = { ...http, request: make(false) }, s = { ...https, request: make(true) };
        this.mocks = { http: { __esModule: true, ...h, default: h }, https: { __esModule: true, ...s, default: s } };
    }
}
// what was put on the wire: request line, header list, body (chunked coding removed)
const parseRequest = raw => {
    const end = raw.indexOf('\r\n\r\n'); if (end < 0) return null;
    const lines = raw.subarray(0, end).toString('latin1').split('\r\n'), m = /^(\S+) (.*) HTTP\/1\.1$/.exec(lines[0]);
    const headers = lines.slice(1).map(l => { const i = l.indexOf(':'); return [l.slice(0, i).toLowerCase(), l.slice(i + 1).trim()]; });
    const get = k => headers.filter(h => h[0] === k).map(h => h[1]);
    let body = raw.subarray(end + 4);
    if (get('transfer-encoding').join() === 'chunked') {
        const out = []; let p = 0;
        for (;;) { const e = body.indexOf('\r\n', p); if (e < 0) break; const n = parseInt(body.subarray(p, e).toString(), 16); if (!n) break; out.push(body.subarray(e + 2, e + 2 + n)); p = e + 2 + n + 2; }
        body = Buffer.concat(out);
    }
    return { method: m && m[1], path: m && m[2], headers, get, body, line: lines[0] };
};
const turn = () => new Promise(r => setImmediate(r));
const pool = () => new Promise(r => zlib.deflate('x', () => r()));
// lets everything that is under way finish (the thread pool has one thread, so its work is done in order)
const settle = async (rounds = 3, viaPool = true) => { for (let i = 0; i < rounds; i++) { await turn(); await turn(); if (viaPool) await pool(); } await turn(); };
module.exports = { Net, Wire, parseRequest, settle, turn };
