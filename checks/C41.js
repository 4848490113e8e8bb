'use strict';
const qs = require('querystring');
const { ok, eq, show, product, words } = require('../lib/util');
const { Net, settle, turn, parseRequest } = require('../lib/net');
exports.technique = 'bounded exhaustive enumeration of request descriptions on the real request function over the real HTTP client and an in-memory wire: the bytes sent are parsed back and compared with a reference reading of the description';
exports.bounds = 'multipart parts that echo line-delimiter-like text derived from the boundary; all combinations of scheme, credentials, host, port, path, query string, fragment and query object; all pairs of query parameters over separators and non-ASCII text; all header spellings in pairs; all body kinds x content types x methods; multipart bodies of up to three fields parsed back; all pairs of calls sharing one options object; up to 400 fields, headers and parameters of every kind; two requests and two look-ups under way at the same time; lengths given by the caller; every other option beside them';
exports.assumptions = [
    'the values of the default headers are those of the first plain request; which headers exist by default, and which of them follow the host, is judged',
    'a path given together with a query string in the URL, bodies that no documented content type describes, nested objects in a form-encoded body and undefined header values are not judged',
    'names of multipart fields with line breaks or quotes are judged up to the escapes of the HTML standard'
];
exports.shards = 8;
const snap = v => {
    if (v === null || typeof v !== 'object') return typeof v + ':' + String(v);
    if (Buffer.isBuffer(v) || ArrayBuffer.isView(v)) return `${v.constructor.name}(${Buffer.from(v.buffer, v.byteOffset, v.byteLength).toString('hex').slice(0, 4000)})`;
    if (v instanceof ArrayBuffer) return `AB(${Buffer.from(v).toString('hex')})`;
    if (v instanceof Date) return 'D' + v.getTime();
    if (v instanceof URL) return 'U' + v.href;
    if (typeof FormData !== 'undefined' && v instanceof FormData) return 'F' + [...v.keys()].join();
    if (Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype || Object.getPrototypeOf(v) === null) return `{${Reflect.ownKeys(v).map(k => `${String(k)}=${snap(v[k])}`).join()}}`;
    return Object.prototype.toString.call(v);
};
const parseMultipart = (buf, type) => {
    const m = /^multipart\/form-data; *boundary=("?)([^"]+)\1$/i.exec(type || ''); ok(m, () => `content type ${show(type)} names no boundary`);
    const b = m[2]; ok(/^[0-9A-Za-z'()+_,\-./:=? ]{1,70}$/.test(b) && !/ $/.test(b), () => `boundary ${b} is not allowed`);
    const out = [], delim = Buffer.from('--' + b), at = p => buf.subarray(p, p + delim.length).equals(delim);
    let p = 0; ok(at(0), 'the body does not begin with the boundary');
    for (;;) {
        p += delim.length;
        if (buf.subarray(p, p + 2).toString() === '--') { ok(/^(\r\n)?$/.test(buf.subarray(p + 2).toString('latin1')), 'text after the end of the multipart body'); break; }
        ok(buf.subarray(p, p + 2).toString() === '\r\n', 'no line break after the boundary');
        const end = buf.indexOf('\r\n\r\n', p); ok(end >= p, 'part without header end');
        const part = { data: null };
        for (const l of buf.subarray(p + 2, end).toString('utf8').split('\r\n')) {
            const [, k, v] = /^([\w-]+): (.*)$/.exec(l) || []; ok(k, () => `part header ${show(l)}`);
            if (k.toLowerCase() === 'content-disposition') { const d = /^form-data; name="([^"\r\n]*)"(?:; filename="([^"\r\n]*)")?$/.exec(v); ok(d, () => `disposition ${show(v)}`); part.name = d[1]; if (d[2] !== undefined) part.filename = d[2]; } else if (k.toLowerCase() === 'content-type') part.type = v;
        }
        let q = end + 4;
        for (;;) { q = buf.indexOf('\r\n--' + b, q); ok(q >= 0, 'part without end'); break; }
        part.data = buf.subarray(end + 4, q); out.push(part); p = q + 2;
    }
    return out;
};
const esc = s => String(s).replace(/\r\n|\r|\n/g, '%0D%0A').replace(/"/g, '%22');
const unesc = s => s.replace(/(?:%0D%0A|%0D|%0A)/g, '%0D%0A');
exports.run = async t => {
    const net = new Net(), W = t.world({ mocks: net.mocks }), { request, queryDNS, publicIP } = W.load('@curong/request');
    const stray = []; process.on('uncaughtException', e => stray.push(e)); process.on('unhandledRejection', e => stray.push(e));
    const OK = Buffer.from('HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n');
    const call = async args => {
        net.requests.length = 0; stray.length = 0; let out = null;
        request(...args).then(v => { out = ['ok', v]; }, e => { out = ['err', e]; });
        for (let i = 0; !net.requests.length && i < 2000 && !out; i++) await turn();
        if (!net.requests.length) return { out };
        const { wire } = net.requests[0];
        for (let i = 0; i < 50 && !(parseRequest(wire.sent) && wire.ended); i++) { await turn(); if (i > 2 && parseRequest(wire.sent)) break; }
        wire.feed(OK);
        for (let i = 0; !out && i < 300; i++) await turn();
        eq(net.requests.length, 1, 'number of requests made');
        ok(out, 'the request never settles'); ok(!stray.length, () => stray[0].stack);
        return { out, entry: net.requests[0], sent: parseRequest(wire.sent) };
    };
    // the defaults, as a plain request shows them
    const plain = await call([{ hostname: 'h.test' }]);
    const DEF = plain.sent ? Object.fromEntries(plain.sent.headers.filter(([k]) => !['host', 'origin', 'referer', 'content-length'].includes(k))) : {};
    const DEFAULT_NAMES = ['dnt', 'connection', 'cache-control', 'content-type', 'accept', 'accept-encoding', 'accept-language', 'x-requested-with', 'user-agent'];
    // x: what must be on the wire
    const judge = async (args, x, name) => {
        const before = args.map(snap), { out, entry, sent } = await call(args);
        args.forEach((a, i) => eq(snap(a), before[i], () => `${name()}: argument ${i} after the call`));
        if (x.rejects) { ok(!entry, () => `${name()}: a request was made to ${entry.options.hostname}`); eq(out && out[0], 'err', () => `${name()}`); return 'rejected'; }
        ok(entry, () => `${name()}: no request was made, ${show(out && out[1])}`); eq(out[0], 'ok', () => `${name()}: ${show(out[1], 2)}`);
        ok(sent, () => `${name()}: nothing on the wire`);
        eq(entry.secure, x.secure, () => `${name()}: secure`); eq(entry.options.hostname, x.hostname, () => `${name()}: connects to`);
        eq(Number(entry.options.port ?? (x.secure ? 443 : 80)), x.port, () => `${name()}: port`);
        eq(sent.method, x.method || 'GET', () => `${name()}: method`);
        ok(/^[\x21-\x7e]+$/.test(sent.path), () => `${name()}: request target ${show(sent.path)}`);
        const pre = x.path; ok(sent.path.startsWith(pre), () => `${name()}: target ${sent.path} does not start with ${pre}`);
        if (x.query.length) {
            eq(sent.path[pre.length], pre.includes('?') ? '&' : '?', () => `${name()}: separator in ${sent.path}`);
            eq([...new URLSearchParams(sent.path.slice(pre.length + 1))], x.query, () => `${name()}: query in ${sent.path}`); ok(!/[#]/.test(sent.path), () => `${name()}: fragment sent: ${sent.path}`);
            eq([...new URL('http://x' + sent.path).searchParams], [...new URLSearchParams(pre.includes('?') ? pre.slice(pre.indexOf('?') + 1) : ''), ...x.query], () => `${name()}: whole query of ${sent.path}`);
        } else eq(sent.path, pre, () => `${name()}: target`);
        const host = (x.hostname.includes(':') ? `[${x.hostname}]` : x.hostname) + (x.port === (x.secure ? 443 : 80) ? '' : ':' + x.port), own = x.headers || {};
        const H = { ...DEF, host, ...own };
        const origin = `${x.secure ? 'https' : 'http'}://${H.host}`; H.origin ??= origin; H.referer ??= origin;
        if (x.auth !== undefined && H.authorization === undefined) H.authorization = 'Basic ' + Buffer.from(x.auth).toString('base64');
        const got = Object.create(null); for (const [k, v] of sent.headers) { ok(!(k in got) || Array.isArray(own[k]), () => `${name()}: header ${k} is sent twice`); got[k] = k in got ? [].concat(got[k], v) : v; }
        const body = x.body || Buffer.alloc(0);
        if (x.multipart) { H['content-type'] = got['content-type']; }
        if (x.body && !x.multipart) eq(sent.body.toString('latin1').slice(0, 300), body.toString('latin1').slice(0, 300), () => `${name()}: body`);
        if (x.body && !x.multipart) ok(sent.body.equals(body), () => `${name()}: body`);
        if (!x.body && !x.multipart && !x.fields) eq(sent.body.length, 0, () => `${name()}: body`);
        if (x.body || x.multipart || x.fields) { eq(got['content-length'], String(sent.body.length), () => `${name()}: content-length`); ok(!('transfer-encoding' in got), () => `${name()}: transfer coding`); } else ok(!('transfer-encoding' in got) && (got['content-length'] === undefined || got['content-length'] === '0'), () => `${name()}: framing of an absent body`);
        delete got['content-length'];
        for (const k of Object.keys(H)) if (H[k] !== undefined) H[k] = Array.isArray(H[k]) ? H[k].map(String) : String(H[k]);
        eq(Object.fromEntries(Object.entries(got).sort()), Object.fromEntries(Object.entries(H).filter(e => e[1] !== undefined).sort()), () => `${name()}: headers`);
        if (x.fields) eq(x.fields(sent.body.toString()), x.want, () => `${name()}: body ${show(sent.body.toString())}`);
        if (x.multipart) {
            const parts = parseMultipart(sent.body, got['content-type']);
            eq(parts.map(p => unesc(p.name)), x.multipart.map(p => esc(p.name)), () => `${name()}: field names`);
            parts.forEach((p, i) => {
                const w = x.multipart[i];
                if (w.filename === undefined) { eq(p.filename, undefined, () => `${name()}: file name of a text field`); eq(p.type, undefined, () => `${name()}: type of a text field`); } else { eq(unesc(p.filename), esc(w.filename), () => `${name()}: file name`); eq(p.type, w.type || 'application/octet-stream', () => `${name()}: type of the file`); }
                ok(p.data.equals(w.data), () => `${name()}: field ${i} is ${show(p.data.toString('latin1').slice(0, 200))} instead of ${show(w.data.toString('latin1').slice(0, 200))}`);
            });
        }
        if (x.more) x.more(entry, sent, out[1]);
        return `${entry.secure} ${entry.options.hostname} ${sent.line} ${JSON.stringify(got)} ${sent.body.length}`;
    };
    await t.casesAsync('defaults', [0, 1, 2], async i => {
        eq(Object.keys(DEF).sort(), DEFAULT_NAMES.slice().sort(), 'default headers');
        ok(/^application\/x-www-form-urlencoded/.test(DEF['content-type']), DEF['content-type']); eq(DEF['x-requested-with'], 'XMLHttpRequest'); eq(DEF.connection, 'close'); eq(DEF['cache-control'], 'no-store'); eq(DEF.dnt, '1');
        for (const e of DEF['accept-encoding'].split(/, */)) ok(['gzip', 'compress', 'deflate', 'br', 'identity'].includes(e), e + ' cannot be decoded');
        return judge([[{ hostname: 'h.test' }], ['https://h.test'], [new URL('https://h.test'), {}]][i], { secure: true, hostname: 'h.test', port: 443, path: '/', query: [] }, () => 'plain');
    });
    const full = t.thorough;
    // ---- URLs
    const CRED = ['', 'u@', 'u:p@', 'u%40x:p%3Aq%2F@', ':p@', ...(full ? ['u%zz:%E4%BD@', 'ü:ö@'] : [])];
    const HOSTS = ['h.test', 'H.TEST', '10.0.0.1', '[::1]', 'bücher.test'], PORTS = ['', ':80', ':443', ':8080'];
    const PATHS = ['', '/', '/a b', '/a%20b', '/ä', '/a/../b', '/a+b&c=d', ...(full ? ['/a%2Fb', "/'\"<>", '//x', '/;p=1', '/%', '/😀'] : [])], SEARCH = ['', '?', '?q=1', '?q=a b&r=ü', '?a=1&a=2&', ...(full ? ['?a?b', '?=', '?q=%26%23+x', '?q=a/b'] : [])], HASH = ['', '#f', '#f?x=1'];
    const QUERIES = [[undefined, []], [{}, []], [{ s: 'x y' }, [['s', 'x y']]], [{ a: [1, 2], 'b&': '#=ü+' }, [['a', '1'], ['a', '2'], ['b&', '#=ü+']]], [{ n: null, u: undefined, e: [] }, []]];
    const dec = s => { try { return decodeURIComponent(s); } catch { return s; } };
    const urls = function* () {
        for (const s of ['http', 'https']) for (const c of CRED) for (const h of HOSTS) for (const p of PORTS) {
            if (!full && (CRED.indexOf(c) + HOSTS.indexOf(h) + PORTS.indexOf(p)) % 2) continue;
            for (const pa of PATHS) for (const se of SEARCH) for (const ha of HASH) for (const asURL of [0, 1]) for (const q of QUERIES) { if (!full && (PATHS.indexOf(pa) * 3 + SEARCH.indexOf(se) + HASH.indexOf(ha) * 2 + asURL + QUERIES.indexOf(q)) % 5) continue; yield [`${s}://${c}${h}${p}${pa}${se}${ha}`, asURL, q]; }
        }
    };
    await t.casesAsync('urls', urls(), ([href, asURL, [q, want]]) => {
        const u = new URL(href), opts = q === undefined ? undefined : { query: q };
        return judge(opts ? [asURL ? u : href, opts] : [asURL ? u : href], { secure: u.protocol === 'https:', hostname: u.hostname.replace(/^\[(.*)\]$/, '$1'), port: Number(u.port || (u.protocol === 'https:' ? 443 : 80)), path: u.pathname + u.search, query: want, auth: u.username || u.password ? `${dec(u.username)}:${dec(u.password)}` : undefined }, () => `${href} ${asURL ? 'as a URL object' : ''} with ${show(q)}`);
    });
    // ---- query objects
    const KEYS = ['a', '&', '=', 'ü ', 'x[]', '', '#', '+', '?'], D = new Date(86400000 * 366);
    const VALS = [['', ['']], [' ', [' ']], ['+', ['+']], ['a&b=c', ['a&b=c']], ['#x?', ['#x?']], ['100%', ['100%']], ['%20', ['%20']], ['ü', ['ü']], ['😀', ['😀']], ['\r\n', ['\r\n']], ['[a],$:@', ['[a],$:@']], [0, ['0']], [-1.5, ['-1.5']], [true, ['true']], [false, ['false']], [null, []], [undefined, []], [[], []], [[1], ['1']], [['a&', 'b c'], ['a&', 'b c']], [[true, 'x', 3], ['true', 'x', '3']], [D, [D.toISOString()]], [[D], [D.toISOString()]], [{ k: 'v&' }, ['{"k":"v&"}']], [[{ k: [1] }, 'z'], ['{"k":[1]}', 'z']], ["'!()*~", ["'!()*~"]], [10n, ['10']]];
    const BASES = [['/', '/'], ['/p?x=1', '/p?x=1'], ['/p#f', '/p'], ['/p?#f', '/p?'], ['', '/'], [undefined, '/'], ['#f', '/'], ['/p?x=1#f?y', '/p?x=1']];
    const queries = function* () {
        for (const b of BASES) for (const k of KEYS) for (const v of VALS) yield [b, [[k, v]]];
        for (const b of full ? BASES : BASES.slice(0, 2)) for (const k of full ? KEYS : ['a', '&', 'ü ']) for (const v of VALS) for (const k2 of KEYS) for (const v2 of VALS) { if (k2 === k) continue; if (!full && (VALS.indexOf(v) + VALS.indexOf(v2)) % 3) continue; yield [b, [[k, v], [k2, v2]]]; }
    };
    await t.casesAsync('queries', queries(), ([[path, pre], kv]) => judge([{ hostname: 'h.test', https: false, ...(path === undefined ? {} : { path }), query: Object.fromEntries(kv.map(([k, v]) => [k, v[0]])) }], { secure: false, hostname: 'h.test', port: 80, path: pre, query: kv.flatMap(([k, v]) => v[1].map(x => [k, x])) }, () => `path ${show(path)} query ${show(Object.fromEntries(kv.map(([k, v]) => [k, v[0]])))}`));
    // ---- options form
    const optCases = product(['h.test', '10.0.0.1', '::1', 'H.Test'], [undefined, 80, 443, 8443], [undefined, true, false], [undefined, '/', '/p?x=1', '/p#f', ' /p '], [undefined, 'v.test', 'v.test:99'], [undefined, 'u:p', 'ü:p:q'], [undefined, { a: 'b' }]);
    await t.casesAsync('options', optCases, ([hostname, port, https, path, host, auth, query]) => {
        const o = { hostname }; if (port !== undefined) o.port = port; if (https !== undefined) o.https = https; if (path !== undefined) o.path = path; if (host !== undefined) o.headers = { Host: host }; if (auth !== undefined) o.auth = auth; if (query) o.query = query;
        const secure = https ?? true;
        return judge([o], { secure, hostname, port: port ?? (secure ? 443 : 80), path: { '/': '/', '/p?x=1': '/p?x=1', '/p#f': '/p', ' /p ': '/p' }[path] || '/', query: query ? [['a', 'b']] : [], auth, headers: host ? { host } : {} }, () => show(o));
    });
    // options next to a URL win over the URL
    await t.casesAsync('override', product(['http://h.test/p', 'https://u:p@h.test:8080/p', 'http://[::2]'], [0, 1], [undefined, 'g.test'], [undefined, 81], [undefined, true, false], [undefined, '/q', '/q?z=1'], [undefined, 'a:b'], [undefined, { k: 'v w' }]), ([href, asURL, hostname, port, https, path, auth, query]) => {
        const u = new URL(href), o = {}; if (hostname) o.hostname = hostname; if (port) o.port = port; if (https !== undefined) o.https = https; if (path) o.path = path; if (auth) o.auth = auth; if (query) o.query = query;
        const secure = https ?? u.protocol === 'https:';
        return judge([asURL ? u : href, o], { secure, hostname: hostname || u.hostname.replace(/[[\]]/g, ''), port: port || Number(u.port) || (secure ? 443 : 80), path: path || u.pathname, query: query ? [['k', 'v w']] : [], auth: auth || (u.username ? 'u:p' : undefined) }, () => `${href} ${show(o)}`);
    });
    // ---- methods and headers
    const METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'PATCH', 'OPTIONS', 'TRACE', 'LINK', 'UNLINK'];
    const spell = [k => k, k => k.toUpperCase(), k => k.replace(/(^|-)(.)/g, (m, a, b) => a + b.toUpperCase())];
    const HV = [...DEFAULT_NAMES, 'host', 'origin', 'referer', 'cookie', 'authorization', 'x-own', 'if-match', 'range'];
    const val = k => k === 'host' ? 'v.test:7' : k === 'connection' ? 'Close' : k === 'content-type' ? 'text/plain' : 'own ' + k;
    const headerCases = function* () {
        for (const a of HV) for (const s of [0, 1, 2]) { yield [[a, s]]; for (const b of HV) if (b !== a) for (const r of full ? [0, 1, 2] : [(s + 1) % 3]) yield [[a, s], [b, r]]; }
    };
    await t.casesAsync('headers', headerCases(), hs => { const headers = {}, want = {}; for (const [k, s] of hs) { headers[spell[s](k)] = val(k); want[k] = val(k); } return judge(['https://u:p@h.test/x', { headers }], { secure: true, hostname: 'h.test', port: 443, path: '/x', query: [], headers: want, auth: 'u:p' }, () => `headers ${show(headers)}`); });
    await t.casesAsync('header-values', [['x-n', 5, '5'], ['X-N', 0, '0'], ['Cookie', ['a=1', 'b=2'], 'a=1; b=2'], ['x-list', ['a', 'b'], ['a', 'b']], ['x-empty', '', ''], ['X-Latin', 'é', 'é'], ['user-agent', '', ''], ['__proto__x', 'y', 'y'], ['constructor', 'y', 'y']], ([k, v, w]) => judge([{ hostname: 'h.test', headers: { [k]: v } }], { secure: true, hostname: 'h.test', port: 443, path: '/', query: [], headers: { [k.toLowerCase()]: w } }, () => `header ${k}: ${show(v)}`));
    await t.casesAsync('methods', product(METHODS, [0, 1, 2], [0, 1, 2]), ([m, s, form]) => { const method = [m, m.toLowerCase(), m[0] + m.slice(1).toLowerCase()][s]; return judge(form ? [form === 1 ? 'http://h.test/m' : new URL('http://h.test/m'), { method }] : [{ hostname: 'h.test', path: '/m', https: false, method }], { secure: false, hostname: 'h.test', port: 80, path: '/m', query: [], method: m }, () => method); });
    // ---- bodies
    const long = 'é'.repeat(40000), bytes = Buffer.from([0, 255, 13, 10, 45, 45, 128]), pool = Buffer.from('xxhello yy');
    const RAW = [['text', 'a b', Buffer.from('a b')], ['non-ASCII', 'ü😀\r\n', Buffer.from('ü😀\r\n')], ['looks encoded', 'a=1&b=%20', Buffer.from('a=1&b=%20')], ['long', long, Buffer.from(long)], ['buffer', bytes, bytes], ['slice of a buffer', pool.subarray(2, 7), Buffer.from('hello')], ['Uint8Array', new Uint8Array(bytes), bytes], ['view', new Uint8Array(new Uint8Array([1, 2, 3, 4]).buffer, 1, 2), Buffer.from([2, 3])], ['ArrayBuffer', new Uint8Array(bytes).buffer, bytes], ['number', 42, Buffer.from('42')], ['true', true, Buffer.from('true')], ['empty', '', null], ['null', null, null], ['undefined', undefined, null], ['empty buffer', Buffer.alloc(0), Buffer.alloc(0)]];
    const TYPES = [undefined, 'application/json', 'text/plain; charset=utf-8', 'application/octet-stream', 'application/x-www-form-urlencoded'];
    await t.casesAsync('raw-bodies', product(RAW, TYPES, ['GET', 'POST', 'PUT', 'DELETE', 'PATCH'], ['Content-Type', 'content-type'], [0, 1]), ([[label, body, want], type, method, key, form]) => {
        const o = { method, body }; if (type) o.headers = { [key]: type };
        return judge(form ? ['http://h.test/b', o] : [{ hostname: 'h.test', https: false, path: '/b', ...o }], { secure: false, hostname: 'h.test', port: 80, path: '/b', query: [], method, body: want && want.length ? want : null, headers: type ? { 'content-type': type } : {} }, () => `${label} body as ${type} ${method}`);
    }, { key: ([[l], ty, m, k]) => `${l} ${ty} ${m} ${k}` });
    const FORM_V = ['', 'a b', '&=+%', 'ü😀', '\r\n', 0, 1.5, true, false, ['x', 'y&'], [1]], FK = ['a', 'ü &', '=', '', '[]'];
    const formVal = v => Array.isArray(v) ? v.length === 1 ? String(v[0]) : v.map(String) : String(v);
    const formCases = function* () { for (const k of FK) for (const v of FORM_V) { for (const ty of [undefined, 'application/x-www-form-urlencoded', 'Application/X-WWW-Form-Urlencoded;charset=utf-8']) for (const key of ['content-type', 'CONTENT-TYPE', 'Content-Type']) yield [{ [k]: v }, ty, key]; for (const k2 of FK) if (k2 !== k) for (const v2 of FORM_V) yield [{ [k]: v, [k2]: v2 }, undefined, 'content-type']; } };
    await t.casesAsync('form-bodies', formCases(), ([body, ty, key]) => judge([{ hostname: 'h.test', https: false, method: 'post', body, ...(ty && { headers: { [key]: ty } }) }], { secure: false, hostname: 'h.test', port: 80, path: '/', query: [], method: 'POST', headers: ty ? { 'content-type': ty } : {}, fields: s => ({ ...qs.parse(s) }), want: Object.fromEntries(Object.entries(body).map(([k, v]) => [k, formVal(v)])) }, () => `form body ${show(body)} as ${ty}`));
    const JSONS = [{}, { a: 1 }, { a: { b: [1, null, 'ü'] } }, [1, 'x'], [], { 'k"': 'v\n' }, { d: D }, { u: undefined, z: 1 }, [[{}]], { a: 'x'.repeat(20000) }];
    await t.casesAsync('json-bodies', product(JSONS, ['application/json', 'Application/JSON; charset=utf-8', 'application/json;charset=UTF-8'], ['content-type', 'Content-Type', 'CONTENT-TYPE'], ['POST', 'PUT', 'GET']), ([body, ty, key, method]) => judge([{ hostname: 'h.test', https: false, method, body, headers: { [key]: ty } }], { secure: false, hostname: 'h.test', port: 80, path: '/', query: [], method, headers: { 'content-type': ty }, fields: s => JSON.parse(s), want: JSON.parse(JSON.stringify(body)) }, () => `JSON body ${show(body).slice(0, 100)} as ${ty}`));
    // ---- multipart
    const fd = l => { const f = new FormData(); for (const [k, v] of l) f.append(k, v); return f; };
    const MK = ['a', 'ü', 'q"x', 'a\r\nb', '', 'x; name=y', '%22', '"a"\n\r\n"b"\r"'], text = s => Buffer.from(s.replace(/\r\n|\r|\n/g, '\r\n'));
    const MV = ['', 'v', 'ü😀', 'a\r\nb', 'a\nb', 'a\nb\r\nc\rd\n\n\re', '\r\n--form-data-boundary', '--', '\r\n'].map(s => [s, { data: text(s) }]).concat([
        [new File([bytes], 'f.bin', { type: 'image/png' }), { data: bytes, filename: 'f.bin', type: 'image/png' }], [new File(['x\ny'], 'ü"\n.txt'), { data: Buffer.from('x\ny'), filename: 'ü"\n.txt' }], [new File(['e'], ''), { data: Buffer.from('e'), filename: '' }], [new Blob([bytes, 'z']), { data: Buffer.concat([bytes, Buffer.from('z')]), filename: 'blob' }], [new File([], 'empty', { type: 'text/plain' }), { data: Buffer.alloc(0), filename: 'empty', type: 'text/plain' }], [new File([long], 'long'), { data: Buffer.from(long), filename: 'long' }]]);
    const multi = function* () {
        for (const n of [0, 1]) for (const l of words(MK.flatMap(k => MV.map(v => [k, v])), n, n)) for (const h of [undefined, 'multipart/form-data', 'Multipart/Form-Data; boundary=zz', 'application/json']) yield [l, h];
        const some = full ? MV : MV.filter((_, i) => i % 3 !== 1);
        for (const a of MK) for (const v of some) for (const b of ['a', 'ü']) for (const w of some) yield [[[a, v], [b, w]], undefined];
        for (const l of words([['a', MV[1]], ['a', MV[3]], ['b', MV[8]], ['', MV[10]]], 3, full ? 5 : 3)) yield [l, undefined];
    };
    await t.casesAsync('form-data', multi(), ([l, h]) => judge([{ hostname: 'h.test', https: false, method: 'POST', body: fd(l.map(([k, v]) => [k, v[0]])), ...(h && { headers: { 'Content-Type': h } }) }], { secure: false, hostname: 'h.test', port: 80, path: '/', query: [], method: 'POST', multipart: l.map(([k, v]) => ({ name: k, ...v[1] })) }, () => `form data ${show(l.map(([k, v]) => [k, v[0]]), 2).slice(0, 300)} as ${h}`), { key: ([l, h]) => show([l.map(([k, v]) => [k, v[0]]), h], 2).slice(0, 200) });
    // a value that repeats the delimiter of an earlier body is data as any other
    await t.casesAsync('boundary-echo', product(['--', '\r\n--', ''], ['', '--', '\r\n', '--\r\n', '\r\nContent-Disposition: form-data; name="x"\r\n\r\ny'], [1, 2, 3], [0, 1]), async ([a, b, n, file]) => {
        let echo = '', type = ''; for (let i = 0; i <= n; i++) { const l = [['a', 'v'], ['b', echo], ['c', 'w']]; await judge([{ hostname: 'h.test', https: false, method: 'POST', body: fd(l.map(([k, v]) => [k, file && k === 'b' ? new Blob([v]) : v])) }], { secure: false, hostname: 'h.test', port: 80, path: '/', query: [], method: 'POST', multipart: l.map(([k, v]) => file && k === 'b' ? { name: k, data: Buffer.from(v), filename: 'blob' } : { name: k, data: text(v) }), more: (e, sent) => { type = sent.get('content-type')[0]; } }, () => `form data number ${i + 1} holding ${show(echo)}`); const bd = /boundary=("?)([^";]+)\1/i.exec(type)[2]; echo = a + bd + b; }
    });
    // objects as multipart: nested names
    const leaf = ['x', 'ü\n', 0, true, new File(['q'], 'q.txt')], flat = (v, p, out) => { if (Array.isArray(v)) v.forEach((e, i) => flat(e, `${p}[${i}]`, out)); else if (v && typeof v === 'object' && !(v instanceof Blob)) for (const k of Object.keys(v)) flat(v[k], p ? `${p}.${k}` : k, out); else out.push({ name: p, ...(v instanceof File ? { data: Buffer.from('q'), filename: 'q.txt' } : { data: text(String(v)) }) }); return out; };
    const nested = d => d === 0 ? leaf : [...nested(d - 1), ...(d > 1 ? nested(d - 1).slice(-8) : leaf).flatMap(x => [{ k: x }, [x], [x, 'y'], { k: x, 'l.m': 'z' }]), {}, []];
    await t.casesAsync('object-as-multipart', product(nested(full ? 4 : 3), nested(1), ['content-type', 'Content-Type']), ([a, b, key]) => { const body = { a, b }; return judge([{ hostname: 'h.test', https: false, method: 'POST', body, headers: { [key]: 'multipart/form-data' } }], { secure: false, hostname: 'h.test', port: 80, path: '/', query: [], method: 'POST', multipart: flat(body, '', []) }, () => `object ${show(body, 5)}`); }, { key: c => show(c, 6).slice(0, 200) });
    // ---- many fields of every kind, long values
    await t.casesAsync('many', product([9, 17, 33, 65, 130, 400], ['query', 'query-list', 'form', 'form-list', 'form-data', 'files', 'object', 'list', 'json', 'headers', 'value'], [0, 1]), ([n, kind, https]) => {
        const ks = Array.from({ length: n }, (_, i) => (i % 5 ? 'k' : 'ü &') + i), vs = ks.map((_, i) => ['v' + i, 'a b&=' + i, '', 'é😀', String(i)][i % 5]), o = Object.fromEntries(ks.map((k, i) => [k, vs[i]])), x = { secure: !!https, hostname: 'h.test', port: https ? 443 : 80, path: '/', query: [], method: 'POST' }, c = { hostname: 'h.test', https: !!https, method: 'POST' };
        const big = 'ab&é'.repeat(n * 50);
        if (kind === 'query') { c.query = o; x.query = ks.map((k, i) => [k, vs[i]]); } else if (kind === 'query-list') { c.query = { l: vs, z: 1 }; x.query = [...vs.map(v => ['l', v]), ['z', '1']]; } else if (kind === 'form') { c.body = o; x.fields = s => ({ ...qs.parse(s, '&', '=', { maxKeys: 0 }) }); x.want = { ...o }; } else if (kind === 'form-list') { c.body = { l: vs, z: 'q' }; x.fields = s => ({ ...qs.parse(s, '&', '=', { maxKeys: 0 }) }); x.want = { l: vs, z: 'q' }; } else if (kind === 'form-data') { c.body = fd(ks.map((k, i) => [k, vs[i]])); x.multipart = ks.map((k, i) => ({ name: k, data: Buffer.from(vs[i]) })); } else if (kind === 'files') { c.body = fd(ks.map((k, i) => [k, i % 3 ? new File([vs[i], bytes], `f${i}.bin`) : vs[i]])); x.multipart = ks.map((k, i) => ({ name: k, ...(i % 3 ? { data: Buffer.concat([Buffer.from(vs[i]), bytes]), filename: `f${i}.bin` } : { data: Buffer.from(vs[i]) }) })); } else if (kind === 'object') { c.body = o; c.headers = { 'Content-Type': 'multipart/form-data' }; x.multipart = ks.map((k, i) => ({ name: k, data: Buffer.from(vs[i]) })); } else if (kind === 'list') { let d = { end: 'x' }; for (let i = 0; i < n % 40; i++) d = i % 2 ? [d] : { k: d }; c.body = { l: vs, d }; c.headers = { 'Content-Type': 'multipart/form-data' }; x.multipart = flat(c.body, '', []); } else if (kind === 'json') { c.body = { o, l: vs }; c.headers = { 'Content-Type': 'application/json' }; x.headers = { 'content-type': 'application/json' }; x.body = Buffer.from(JSON.stringify(c.body)); } else if (kind === 'headers') { c.method = 'GET'; x.method = 'GET'; c.headers = Object.fromEntries(ks.map((_, i) => ['X-Own-' + i, 'v' + i])); x.headers = Object.fromEntries(ks.map((_, i) => ['x-own-' + i, 'v' + i])); } else { c.query = { q: 'é& '.repeat(n), z: 'last' }; x.query = [['q', 'é& '.repeat(n)], ['z', 'last']]; c.body = fd([['a', big], ['f', new File([big, big], 'n.txt')], ['last', 'z']]); x.multipart = [{ name: 'a', data: Buffer.from(big) }, { name: 'f', filename: 'n.txt', data: Buffer.from(big + big) }, { name: 'last', data: Buffer.from('z') }]; }
        return judge([c], x, () => `${n} of ${kind}`);
    });
    // ---- handed through unchanged, returned configuration
    const agent = new (require('http').Agent)(), lookup = () => {}, ac = new AbortController();
    await t.casesAsync('handed-through', product([0, 1], [0, 1], [['agent', agent], ['lookup', lookup], ['timeout', 1234], ['signal', ac.signal], ['rejectUnauthorized', true], ['rejectUnauthorized', false], ['localAddress', '127.0.0.1'], ['servername', 's.test'], ['ca', [bytes]], ['maxHeaderSize', 9000], ['family', 6]]), ([form, https, [k, v]]) => judge(form ? [`http${https ? 's' : ''}://h.test/`, { [k]: v }] : [{ hostname: 'h.test', https: !!https, [k]: v }], { secure: !!https, hostname: 'h.test', port: https ? 443 : 80, path: '/', query: [], more: (entry, sent, res) => { ok(entry.options[k] === v, () => `${k} is handed on as ${show(entry.options[k], 1)}`); if (k !== 'rejectUnauthorized') eq(entry.options.rejectUnauthorized, false, 'rejectUnauthorized'); ok(res.config && res.config[k] === v, 'config of the result'); for (const x of ['https', 'query', 'body', 'delay', 'maxRedirects']) ok(!(x in entry.options), x + ' reaches the client'); } }, () => `${k} ${form}`), { key: ([f, h, [k]]) => `${f} ${h} ${k}` });
    // ---- refused
    const BAD = [[{}], [{ hostname: '' }], [{ hostname: null }], [{ hostname: undefined, path: '/' }], [{ hostname: 'h.test', path: null }], [''], ['nonsense'], ['/path'], ['//h.test/'], ['ftp://h.test/'], ['file:///etc/x'], ['data:,x'], ['ws://h.test/'], ['http://'], ['http:///'], [new URL('ftp://h.test')], [new URL('file:///x')], ['javascript:1'], ['http://h.test:99999/'], [{ hostname: 'h.test', headers: { 'x-a': 'a\r\nb: c' } }], [{ hostname: 'h.test', headers: { 'x\r\na': 'v' } }], [{ hostname: 'h.test', method: 'GET /x HTTP/1.1\r\nX:' }], [{ hostname: 'h.test', path: '/a b' }], [{ hostname: 'h.test', path: '/a\r\nX: y' }], [{ hostname: 'h.test', path: '/a\u0000' }]];
    await t.casesAsync('refused', BAD.flatMap(a => [[a, undefined], [a, { query: { a: 1 } }], [a, { method: 'POST', body: { a: 1 } }]]), async ([a, extra]) => { let args = a; if (extra) args = a[0] && typeof a[0] === 'object' && !(a[0] instanceof URL) ? [{ ...extra, ...a[0] }] : [a[0], { ...extra }]; return judge(args, { rejects: true }, () => show(args)); });
    // every short path either goes out as it is or is refused
    await t.casesAsync('paths', words(['/', 'a', '?', '#', '%', ' ', '\n', 'ü', '&'], 1, full ? 5 : 4), async w => {
        const p = '/' + w.join(''), { out, entry, sent } = await call([{ hostname: 'h.test', https: false, path: p }]), clean = p.trim().split('#')[0];
        if (/[^\x21-\xff]/.test(clean)) { eq(out && out[0], 'err', () => `path ${show(p)}`); ok(!entry || !sent, 'something was sent'); return 'refused'; }
        ok(entry, () => `path ${show(p)}: ${show(out && out[1])}`); eq(sent.line, `GET ${clean} HTTP/1.1`, () => `path ${show(p)}`); return clean;
    });
    // ---- histories: calls sharing one options object, one after the other and at the same time
    const SHARED = [{ hostname: 'h.test', https: false }, { hostname: 'g.test', https: false, headers: { Accept: 'x', 'Content-Type': 'application/json', Host: 'v.test' }, method: 'post', body: { a: 1 }, query: { q: [1, 2] } }, { hostname: 'k.test', https: false, port: 81, auth: 'u:p', headers: { 'USER-AGENT': 'ua' }, body: 'text', method: 'PUT' }];
    const one = (i, n) => { const s = SHARED[i]; return { line: `${(s.method || 'get').toUpperCase()} /${n}${s.query ? '?q=1&q=2' : ''} HTTP/1.1`, host: i === 1 ? 'v.test' : s.hostname + (s.port ? ':81' : ''), accept: i === 1 ? 'x' : DEF.accept, ua: i === 2 ? 'ua' : DEF['user-agent'], ct: i === 1 ? 'application/json' : DEF['content-type'], auth: i === 2 ? 'Basic ' + Buffer.from('u:p').toString('base64') : undefined, body: i === 1 ? '{"a":1}' : i === 2 ? 'text' : '' }; };
    const seen = e => { const s = parseRequest(e.wire.sent), g = k => s.get(k)[0]; return { line: s.line, host: g('host'), accept: g('accept'), ua: g('user-agent'), ct: g('content-type'), auth: g('authorization'), body: s.body.toString() }; };
    await t.casesAsync('histories', words([0, 1, 2], 1, full ? 6 : 4), async seq => {
        const outs = []; net.requests.length = 0;
        for (const together of [0, 1]) {
            net.requests.length = 0; const objs = SHARED.map(s => ({ ...s })), ps = [];
            for (let n = 0; n < seq.length; n++) {
                const o = objs[seq[n]]; o.path = '/' + n;
                const p = request(o); p.then(v => outs.push(v), e => outs.push(e)); ps.push(p);
                if (!together) { for (let k = 0; net.requests.length <= n && k < 500; k++) await turn(); await settle(1, false); net.requests[n].wire.feed(OK); await p; }
            }
            if (together) { for (let k = 0; net.requests.length < seq.length && k < 500; k++) await turn(); await settle(1, false); for (const e of net.requests) e.wire.feed(OK); await Promise.all(ps); }
            const got = net.requests.map(seen), want = seq.map((i, n) => one(i, n)), by = a => a.map(x => JSON.stringify(x)).sort();
            eq(together ? by(got) : got, together ? by(want) : want, () => `${together ? 'concurrent' : 'successive'} calls ${seq}`);
            objs.forEach((o, i) => { delete o.path; eq(snap(o), snap(SHARED[i]), 'shared options after the calls'); });
        }
        return seq.join();
    });
    // ---- a delayed request goes out when its time has come, not before
    await t.casesAsync('delay', product([undefined, 0, 1, 50, 3000], [undefined, 0, 7], [0, 1]), async ([d, d2, form]) => {
        const q = [], real = globalThis.setTimeout; globalThis.setTimeout = (fn, ms, ...a) => { q.push({ fn: () => fn(...a), ms }); return q.length; };
        try {
            net.requests.length = 0; const ds = d2 === undefined ? [d] : [d, d2], outs = [];
            ds.forEach((x, i) => { const o = { path: '/' + i, https: false, ...(x === undefined ? {} : { delay: x }) }; (form ? request('http://h.test', o) : request({ hostname: 'h.test', ...o })).then(v => outs.push(v), e => outs.push(e)); });
            for (let i = 0; i < 8; i++) await turn();
            const early = ds.filter(x => !x).length; eq(net.requests.length, early, () => `requests with delays ${show(ds)} before any time has passed`);
            eq(q.map(x => x.ms), ds.filter(x => x), 'delays waited for');
            const order = q.slice().sort((a, b) => a.ms - b.ms); let n = early;
            for (const x of order) { x.fn(); for (let i = 0; i < 8; i++) await turn(); eq(net.requests.length, ++n, () => `requests after ${x.ms} ms with delays ${show(ds)}`); }
            await settle(1, false); for (const e of net.requests) e.wire.feed(OK);
            for (let i = 0; outs.length < ds.length && i < 100; i++) await turn();
            ok(outs.length === ds.length && outs.every(o => o.status === 200), () => show(outs, 1));
        } finally { globalThis.setTimeout = real; }
    });
    // ---- requests of every kind made at the same moment: each is sent as it is when made alone
    const files = (n, x) => fd([['a' + x, 'v' + x], ['f' + x, new File([x.repeat(n)], x + '.txt', { type: 'text/' + x })], ['g', new Blob([x + x])]]);
    const MIX = [
        () => ({ query: { q: ['1', 'a b'] } }), () => ({ method: 'POST', body: { a: 'b', c: ['d', 'é'] } }), () => ({ method: 'POST', body: { j: [1, { k: 2 }] }, headers: { 'Content-Type': 'application/json' } }), () => ({ method: 'PUT', body: 'raw text' }), () => ({ method: 'PUT', body: Buffer.from([0, 255, 13, 10]) }), () => ({ method: 'POST', body: new Uint8Array([1, 2]).buffer }),
        () => ({ method: 'POST', body: files(3, 'x') }), () => ({ method: 'POST', body: files(5000, 'y') }), () => ({ method: 'POST', body: { p: ['u', { v: new File(['zz'], 'z.bin') }], q: true }, headers: { 'content-type': 'multipart/form-data' } }), () => ({ auth: 'u:p', headers: { 'X-A': '1', Accept: 'x/y' } }), () => ({ method: 'HEAD', https: true, port: 8443 }), () => ({ method: 'DELETE', timeout: 77, agent })
    ];
    const fire = async list => {
        net.requests.length = 0; stray.length = 0; const outs = []; list.forEach((f, i) => request({ hostname: `h${i}.test`, https: false, path: '/p', ...f() }).then(v => { outs[i] = [v.status, v.config.hostname === `h${i}.test`, v.request === net.requests.find(r => r.options.hostname === `h${i}.test`)?.req]; }, e => { outs[i] = ['err', String(e && e.message)]; }));
        for (let k = 0; net.requests.length < list.length && k < 3000; k++) await turn(); await settle(1, false);
        const got = list.map((f, i) => { const es = net.requests.filter(r => r.options.hostname === `h${i}.test`); eq(es.length, 1, () => `requests to h${i}.test`); const e = es[0]; let s = e.wire.sent.toString('latin1').split(`h${i}.test`).join('HOST'); const b = /boundary=([^\r\n]+)/.exec(s); if (b) s = s.split(b[1]).join('BOUNDARY'); return { s, secure: e.secure, port: e.options.port, timeout: e.options.timeout, agent: e.options.agent === agent }; });
        for (const e of net.requests.slice().reverse()) { e.wire.feed(OK); await settle(1, false); }
        for (let k = 0; outs.filter(x => x).length < list.length && k < 300; k++) await turn();
        ok(!stray.length, () => stray[0].stack); return got.map((g, i) => ({ ...g, out: outs[i] }));
    };
    const lone = []; for (const f of MIX) lone.push((await fire([f]))[0]);
    const ix = MIX.map((f, i) => i), groups = [...product(ix, ix), ...product(ix, ix, full ? ix : [2, 6, 9])].filter(g => full || g.length < 3 || g[0] < g[1]);
    await t.casesAsync('at-once', groups, async g => { const got = await fire(g.map(i => MIX[i])); g.forEach((i, n) => eq(got[n], lone[i], () => `requests ${g} at the same moment: number ${n + 1}`)); return g.join(); });
    // ---- the two services built on it
    const serve = async (p, answers) => {
        let out = null; p.then(v => { out = ['ok', v]; }, e => { out = ['err', e]; });
        const reqs = []; let n = 0;
        for (let i = 0; !out && i < 3000; i++) { await turn(); while (n < net.requests.length) { const e = net.requests[n]; await settle(1, false); reqs.push(`${e.secure ? 'https' : 'http'}://${e.options.hostname} ${parseRequest(e.wire.sent).line}`); e.wire.feed(answers(n, e)); n++; } }
        return { out, reqs };
    };
    const answer = (status, body) => { const b = Buffer.isBuffer(body) ? body : Buffer.from(body); return Buffer.concat([Buffer.from(`HTTP/1.1 ${status} X\r\nContent-Length: ${b.length}\r\n\r\n`), b]); };
    await t.casesAsync('queryDNS', [...words(['a.test', 'b c&d', 'ü.test', 'a.test'], 0, 3)].flatMap(h => [...words([[200, '1.1.1.1'], [200, '1.1.1.1;2.2.2.2'], [500, 'oops']], h.length, h.length)].map(a => [h, a])), async ([hosts, ans]) => {
        net.requests.length = 0; const one = hosts.length === 1 ? hosts[0] : hosts.slice();
        const { out, reqs } = await serve(queryDNS(one), n => answer(...ans[n]));
        eq(reqs.map(r => new URLSearchParams(r.split('?')[1].split(' ')[0]).get('dn')), hosts, 'names asked for');
        const want = {}; hosts.forEach((h, i) => { want[h] = ans[i][0] === 200 ? ans[i][1].split(';') : []; });
        eq(out && out[0], 'ok', () => show(out)); eq(out[1], want, () => `answers ${show(ans)}`);
        return reqs.join() + show(out[1]);
    });
    // two queries at the same time, every order of the answers
    await t.casesAsync('two-queries', [...words([0, 1], 4, 4)].flatMap(w => [[['a.test', 'b.test'], ['c.test', 'd.test']], [['a.test'], ['b.test', 'c.test', 'd.test']], [['a.test', 'b.test'], ['a.test']], ['a.test', 'ip']].map((l, i) => [w, l, i])), async ([w, l]) => {
        net.requests.length = 0; stray.length = 0; const outs = []; l.forEach((h, i) => (h === 'ip' ? publicIP() : queryDNS(h)).then(v => { outs[i] = ['ok', v]; }, e => { outs[i] = ['err', e]; }));
        const mine = e => { const m = /dn=([^&]*)$/.exec(e.options.path), n = m && decodeURIComponent(m[1]); return n; }, done = new Set();
        const step = async k => { for (let j = 0; j < 40; j++) await turn(); const open = net.requests.filter(e => !done.has(e)), e = open.length > 1 ? open[k] : open[0]; if (!e) return; done.add(e); const n = mine(e); await settle(1, false); e.wire.feed(answer(200, n ? 'ip-of-' + n : 'var returnCitySN = {"cip": "1.2.3.4", "cid": "1", "cname": "x"};')); for (let j = 0; j < 40; j++) await turn(); };
        for (const k of w) await step(k); for (let k = 0; k < 6; k++) await step(0);
        l.forEach((h, i) => { eq(outs[i]?.[0], 'ok', () => show(outs[i])); eq(outs[i][1], h === 'ip' ? { ip: '1.2.3.4', city: { id: '1', name: 'x' } } : Object.fromEntries([h].flat().map(x => [x, ['ip-of-' + x]])), () => `query ${i + 1} of ${show(l)}`); });
        ok(!stray.length, () => stray[0].stack); return w.join() + show(l);
    });
    const GBK = Buffer.from([0xb1, 0xb1, 0xbe, 0xa9]);
    await t.casesAsync('publicIP', [[200, 'var returnCitySN = {"cip": "1.2.3.4", "cid": "110000", "cname": "%"};', 1], [200, 'var returnCitySN = {"cip": "::1", "cid": "", "cname": ""};', 1], [200, '<html>', 0], [200, '', 0], [404, 'var returnCitySN = {"cip": "1.2.3.4"};', 0], [500, '', 0]], async ([status, text, good]) => {
        net.requests.length = 0; const i = text.indexOf('%'), b = i < 0 ? Buffer.from(text) : Buffer.concat([Buffer.from(text.slice(0, i)), GBK, Buffer.from(text.slice(i + 1))]);
        const { out, reqs } = await serve(publicIP(), () => answer(status, b));
        eq(out && out[0], good ? 'ok' : 'err', () => show(out)); eq(reqs.length, 1);
        if (good) eq(out[1], i < 0 ? { ip: '::1', city: { id: '', name: '' } } : { ip: '1.2.3.4', city: { id: '110000', name: '北京' } });
        return reqs.join();
    });
    // ---- a length given by the caller never wins over the length of the body
    const BODIES41 = [['abc', {}], ['', {}], ['é中😀', {}], [{ a: 'b c' }, {}], [{ a: 1 }, { 'content-type': 'application/json' }], [Buffer.from([0, 255, 13, 10]), {}], [new Uint8Array([1, 2, 3, 200]), {}]];
    await t.casesAsync('length-given', product(BODIES41, ['Content-Length', 'content-length', 'CONTENT-LENGTH'], [0, 1, '2', '999', 100000], ['POST', 'put', 'PATCH', 'DELETE']), async ([[body, h], spelling, given, method]) => {
        const solo = await call([{ hostname: 'h.test', method, body, headers: { ...h } }]); ok(solo.sent, 'nothing on the wire'); const args = [{ hostname: 'h.test', method, body, headers: { ...h, [spelling]: given } }], before = snap(args), r = await call(args), l = `${method} ${show(body)} with ${spelling}: ${given}`;
        ok(r.sent, `${l}: nothing on the wire`); eq(snap(args), before, `${l}: options after the call`); ok(r.sent.body.equals(solo.sent.body), () => `${l}: body ${show(r.sent.body.toString())} instead of ${show(solo.sent.body.toString())}`);
        if (r.sent.body.length) eq(r.sent.headers.filter(x => x[0] === 'content-length'), [['content-length', String(r.sent.body.length)]], l);
    }, { key: c => show(c) });
    // ---- every other option beside them changes nothing of what is sent
    const EXTRA = [{ delay: 0 }, { delay: 1 }, { timeout: 50 }, { family: 4 }, { maxRedirects: 0 }, { rejectUnauthorized: true }, { rejectUnauthorized: false }, { agent: undefined }, { localAddress: undefined }, { setHost: true }, { maxHeaderSize: 9999 }, { insecureHTTPParser: false }, { delay: 1, timeout: 50, maxRedirects: 3 }];
    await t.casesAsync('beside', product(EXTRA, [['http://u:p@h.test:8080/a?x=1', {}], [{ hostname: 'h.test', path: '/p', https: false }], ['https://h.test/b', { query: { q: 'ü' } }]], ['GET', 'POST', 'DELETE'], [undefined, ...BODIES41], [{}, { Cookie: 'c=1', 'X-Own': 'o' }]), async ([x, form, method, b, h]) => {
        const mk = e => { const a = form.map(v => typeof v === 'object' ? { ...v } : v), o = a[a.length - 1]; Object.assign(o, { method, headers: { ...h, ...(b ? b[1] : {}) } }, e); if (b) o.body = b[0]; return a; };
        const a = await call(mk({})), args = mk(x), before = snap(args), r = await call(args), l = `${show(args)}`; eq(snap(args), before, `${l}: options after the call`); ok(a.sent && r.sent, () => `${l}: nothing on the wire, ${show(r.out)}`);
        eq([r.entry.secure, r.entry.options.hostname, r.sent.line, r.sent.headers, r.sent.body.toString('latin1')], [a.entry.secure, a.entry.options.hostname, a.sent.line, a.sent.headers, a.sent.body.toString('latin1')], () => `${l}, compared with the call without it`); eq(r.out[0], 'ok', l);
    }, { key: c => show(c, 3) });
};
