'use strict';
const vm = require('vm'), stream = require('stream');
const { ok, eq, show, attempt } = require('../lib/util');
const { nested } = require('../lib/overlap');
exports.technique = 'bounded exhaustive enumeration: every predicate and option on every value of a fixed universe, compared with an independent reference classification';
exports.bounds = 'over 400 values: every built-in class (also of another realm), boundary numbers, strings and identifiers, functions of every kind, errors, iterables, streams, proxies, null-prototype, sparse, boxed and spoofed objects, arrays of 1-2 of them; every option value; each call repeated, in two orders; array predicates on arrays up to 130 with one element of any other kind; a second and third call made inside any callback of the first; arrays, objects and texts of up to 5000 parts with one deciding place';
exports.assumptions = [
    'values whose own property reads throw (throwing getters, revoked proxies) are outside the property, as are objects without a usable valueOf that claim to be a boxed value',
    'an object that merely claims a tag through Symbol.toStringTag, or a proxy of a built-in, may be classified by its tag or by its real class, except where the documentation says that the tag decides',
    'single non-BMP characters (isChar), the class of a File as a Blob, plain objects with an own "constructor", null-prototype objects with constructor, iterator or tag, descriptors with a non-function get or set or with get/set and writable, undefined with allowNaN, and native functions hidden behind proxies are not judged'
];
// ---------------------------------------------------------------- the universe, shared with C46
const universe = exports.universe = () => {
    const U = [], F = {};
    const add = (name, v, flag) => U.push({ name, v, flag });
    const SPOOF = 'spoof';
    const prim = { undefined: undefined, null: null, true: true, false: false, 'symbol': Symbol('s'), 'Symbol.for': Symbol.for('x'), 'Symbol.iterator': Symbol.iterator, '0n': 0n, '1n': 1n, '-1n': -1n, 'big': 2n ** 70n };
    for (const k in prim) add(k, prim[k]);
    const P = n => 2 ** n;
    const nums = [0, -0, 1, -1, 0.5, -0.5, 1.5, 2, 3, 4, 5, 9, 25, 49, 97, 100, 121, 127, 128, -127, -128, -129, 255, 256, 400, 1900, 2000, 2024, 2023, 2047, 2048, -2047, -2048, 32767, 32768, -32768, -32769, 65503.5, 65504, 65504.5, 65505, 65535, 65536, -65504.5, 7919, 7921, P(24) - 1, P(24), -(P(24) - 1), -P(24), P(31) - 1, P(31), -P(31), -P(31) - 1, P(32) - 2, P(32) - 1, P(32), P(32) - 0.5, 0.1 + 0.2, P(53) - 1, P(53), P(53) + 2, -(P(53) - 1), -P(53), 8.64e15, 8.64e15 + 1, -8.64e15, 1e21, 3.4028234663852886e38, 3.4028234663852889e38, 1e300, Number.MAX_VALUE, -Number.MAX_VALUE, Number.MIN_VALUE, -Number.MIN_VALUE, Number.EPSILON, NaN, Infinity, -Infinity];
    for (const n of nums) add('n' + (Object.is(n, -0) ? '-0' : n), n);
    const strs = ['', ' ', '\t\n\u00a0\ufeff', 'a', '0', '-1', ' 12 ', '1e3', '0x10', '1n', 'NaN', 'Infinity', 'true', 'ab', ' ab ', 'abc', '好', '😀', '\ud800', 'length', 'constructor', '__proto__', 'http://a', 'http://a b', 'mailto:x', 'a:b', '//a', 'https://u:p@h:1/p?q#f', '2024-02-30', '2024-13-01', '2024-01-15T00:00:00Z', 'not a date',
        'a b', 'a=1', 'a = 1', 'a,b', 'a, b', 'a;b', 'a\nb', 'a//', 'a/**/', '/**/a', '{a}=fn', '[a]=fn', '{}', 'a;', 'fn', '$', '_', '$_1', '1a', 'a-b', 'a.b', 'a[0]', 'a()', 'ñ', '变量', 'ª', 'a\u200d', '\u200da', '\\u0061', '\\u{61}', '\\u0031', '\\x61', 'a\\u0020b', '#a', '@a', 'let', 'static', 'yield', 'await', 'async', 'of', 'get', 'eval', 'arguments', 'undefined', 'implements', 'package', 'this', 'null', 'false', 'if', 'class', 'enum', 'var', 'function', 'typeof', 'new', 'super', 'import', 'export', 'default', 'delete', 'with', 'debugger', 'in', 'instanceof', 'void', 'while', 'do', 'yield*', 'a\u2028', '\u00a0a', 'a}', '}; {', 'x; while(0){'];
    for (const s of strs) add('s' + JSON.stringify(s), s);
    for (const v of [0, -1, 1.5, NaN, Infinity, '', ' ', 'a', 'ab', true, false, 0n, 1n, -1n, Symbol('box')]) add('boxed ' + show(v), Object(v));
    // functions
    class A { constructor(x) { this.x = x; } m() {} static s(a) {} get g() { return 1; } }
    class B extends A {}
    const fns = {
        'function': function () {}, 'named(1)': function f(a) {}, 'arrow': () => {}, 'arrow(2)': (a, b) => {}, 'async': async function () {}, 'async(1)': async function (a) {}, 'async arrow': async a => {}, 'gen': function* () {}, 'gen(1)': function* (a) {}, 'agen': async function* () {}, 'agen(1)': async function* (a) {},
        'class': A, 'class B': B, 'anon class': class {}, 'tight class': vm.runInThisContext('(class{})'), 'comment class': vm.runInThisContext('(class/*x*/C{})'), 'nl class': vm.runInThisContext('(class\nC{})'), 'class name5': class { static name = 5; }, 'class name(': class { static name = '('; }, 'class name fn': class { static name() {} },
        'method': ({ m(a) {} }).m, 'method class': vm.runInThisContext('({ class (a) {} }).class'), 'method classy': vm.runInThisContext('({ classy(a) {} }).classy'), 'async method': ({ async m() {} }).m, 'getter': Object.getOwnPropertyDescriptor(A.prototype, 'g').get, 'method sym': ({ [Symbol.iterator]() {} })[Symbol.iterator],
        'bound': function f(a, b) {}.bind(null), 'bound1': function f(a, b) {}.bind(null, 1), 'bound arrow': (() => {}).bind(), 'bound class': A.bind(null), 'bound async': (async () => {}).bind(), 'bound bound': function f() {}.bind().bind(), 'not bound': Object.defineProperty(function () {}, 'name', { value: 'bound x' }), 'named native code': Object.defineProperty(() => {}, 'name', { value: 'function f() { [native code] }' }),
        'parseInt': parseInt, 'Object': Object, 'Array.from': Array.from, 'Symbol.match': RegExp.prototype[Symbol.match], 'species': Object.getOwnPropertyDescriptor(Array, Symbol.species).get, 'get size': Object.getOwnPropertyDescriptor(Map.prototype, 'size').get, 'get $1': Object.getOwnPropertyDescriptor(RegExp, '$1').get, 'get $&': Object.getOwnPropertyDescriptor(RegExp, '$&').get, 'Function.prototype': Function.prototype, 'toString': Object.prototype.toString, 'values': Array.prototype[Symbol.iterator], 'Proxy': Proxy, 'Symbol': Symbol, 'Date': Date, 'Promise': Promise,
        'name number': Object.defineProperty(function () {}, 'name', { value: 7 }), 'name symbol': Object.defineProperty(function () {}, 'name', { value: Symbol('n') }), 'name undefined': Object.defineProperty(() => {}, 'name', { value: undefined }), 'name re': Object.defineProperty(() => {}, 'name', { value: '(((' }), 'toString own': Object.assign(function () {}, { toString() { return 'class X {}'; } }),
        'cross function': vm.runInNewContext('(function (a) {})'), 'cross class': vm.runInNewContext('(class {})'), 'cross async': vm.runInNewContext('(async () => {})'), 'proto null fn': Object.setPrototypeOf(function (a) {}, null)
    };
    for (const k in fns) add('fn ' + k, fns[k]);
    // objects
    class Tagged { get [Symbol.toStringTag]() { return 'Validator'; } }
    const objs = {
        '{}': {}, '{a}': { a: 1 }, 'null proto': Object.create(null), 'null proto {a}': Object.assign(Object.create(null), { a: 1 }), 'create({})': Object.create({ a: 1 }), 'create(Object)': Object.create(Object), 'instance': new A(1), 'instance empty': new (class {})(), 'prototype': A.prototype, 'B.prototype': B.prototype, 'Object.prototype': Object.prototype, 'Array.prototype': Array.prototype, 'hidden': Object.defineProperty({}, 'h', { value: 1 }), 'symbol key': { [Symbol('k')]: 1 }, 'hidden symbol': Object.defineProperty({}, Symbol('h'), { value: 1 }), 'own constructor': { constructor: 1 }, 'np constructor': Object.assign(Object.create(null), { constructor: 1 }), 'ctor Object': Object.assign(Object.create({}), { constructor: Object }), 'frozen': Object.freeze({ a: 1 }), 'Math': Math, 'JSON': JSON, 'Reflect': Reflect, 'Atomics': Atomics, 'globalThis': globalThis, 'process': process, 'Intl': Intl, 'Tagged': new Tagged(),
        'arguments': (function () { return arguments; })(), 'arguments 2': (function () { return arguments; })(1, 2), 'strict arguments': (function () { 'use strict'; return arguments; })(1),
        'cross {}': vm.runInNewContext('({a: 1})'), 'cross np': vm.runInNewContext('Object.create(null)'), 'size 0': { size: 0 }, 'size 2': { size: 2 }, 'size -1': { size: -1 }, 'size s': { size: '2' }, 'size big': { size: P(53) },
        'then': { then() {} }, 'then no': { then: 1 }, 'then inherited': Object.create({ then() {} }), 'next': { next() {} }, 'next no': { next: true }, 'iterable': { [Symbol.iterator]() {} }, 'iterable no': { [Symbol.iterator]: 1 }, 'aiterable': { [Symbol.asyncIterator]() {} }, 'iterable inherited': Object.create({ [Symbol.iterator]() {} }), 'react': { $$typeof: Symbol.for('react.element') }, 'react no': { $$typeof: Symbol('react.element') }, 'react number': { $$typeof: 60103 },
        'errorlike': { name: 'E', message: '', stack: 's' }, 'errorlike no stack': { name: 'E', message: '' }, 'errorlike no name': { name: '', message: 'm', stack: 's' }, 'errorlike bad': { name: 'E', message: 1, stack: 's' }, 'valueOf': { valueOf: () => 5 }, 'toString 12': { toString: () => '12' }, 'valueOf throws not': { valueOf: () => NaN }, 'ctor Buffer': { constructor: Buffer }, 'ctor none': { constructor: undefined }, 'ctor null': { constructor: null }, 'append': { append() {} }
    };
    for (const k in objs) add('obj ' + k, objs[k]);
    // array-likes and their kin
    const likes = [{ length: 0 }, { length: 1 }, { length: -1 }, { length: 1.5 }, { length: '1' }, { length: P(32) - 1 }, { length: P(32) }, { length: P(53) - 1 }, { length: P(53) }, { length: NaN }, { 0: 'a', length: 1 }, { 0: 'a', 1: 'b', length: 2 }, { 0: 'a', 2: 'c', length: 2 }, { 1: 'b', length: 1 }, { 0: 'a', 1: 'b', x: 1, length: 2 }, { 0: 'a', length: 2 }, { 0: 'a', 1: 'b', length: 1 }, { '': 'a', length: 1 }, { '01': 'a', length: 1 }, { ' 1': 'a', length: 1 }, { '-1': 'a', length: 1 }, { '1.5': 'a', length: 1 }, { '1e0': 'a', length: 1 }, { 4294967295: 'a', length: 1 }, { 4294967296: 'a', length: 1 }, { x: 1, length: 1 }, { 0: 1, '': 1, length: 1 },
        Object.defineProperty({ 0: 'a' }, 'length', { value: 1 }), Object.defineProperty({ length: 1 }, '0', { value: 'a' }), Object.create({ length: 0 }), Object.create({ length: 1, 0: 'a' }), Object.assign(Object.create(null), { 0: 'a', length: 1 })];
    likes.forEach((o, i) => add('like' + i + show(o), o));
    // property descriptors
    const g = () => 1, s = v => {};
    const descs = [{ value: 1 }, { value: undefined }, { get: g }, { set: s }, { get: g, set: s }, { get: undefined }, { set: undefined }, { get: 1 }, { value: 1, get: g }, { value: undefined, set: s }, { value: 1, writable: true, enumerable: false, configurable: true }, { value: 1, writable: 1 }, { value: 1, enumerable: 'true' }, { value: 1, configurable: null }, { get: g, enumerable: undefined }, { writable: true }, { enumerable: true, configurable: true }, { value: 1, x: 1 }, { get: g, x: 1 }, { x: 1 }, { get: g, enumerable: true, configurable: false }, { get: g, writable: true }, { get: g, set: 1 }, { value: 1, get: 1 }, Object.create({ value: 1 }), Object.assign(Object.create(null), { value: 1 }), Object.create({ x: 1 }, { value: { value: 1 } })];
    descs.forEach((o, i) => add('desc' + i + show(o), o));
    // built-ins
    const ab = new ArrayBuffer(8);
    const mk = r => {
        const o = { 'Date': new r.Date(0), 'Date NaN': new r.Date(NaN), 'Date max': new r.Date(8.64e15), 'RegExp': r.eval('/a/g'), 'RegExp y': r.eval('/b/y'), 'Map': new r.Map(), 'Map 1': new r.Map([[1, 2]]), 'Set': new r.Set(), 'Set 1': new r.Set([1]), 'WeakMap': new r.WeakMap(), 'WeakSet': new r.WeakSet(), 'WeakRef': new r.WeakRef({}), 'Promise': r.Promise.resolve(), 'ArrayBuffer': new r.ArrayBuffer(2), 'SharedArrayBuffer': new r.SharedArrayBuffer(2), 'DataView': new r.DataView(new r.ArrayBuffer(2)),
            'Generator': r.eval('(function* () {})()'), 'AsyncGenerator': r.eval('(async function* () {})()'), 'Array iterator': r.eval('[][Symbol.iterator]()'), 'Map iterator': r.eval('new Map().keys()'), 'String iterator': r.eval('""[Symbol.iterator]()'), '[]': new r.Array(), 'boxed n': r.eval('Object(3)'), 'boxed s': r.eval('Object("cd")') };
        for (const k of ['Int8', 'Uint8', 'Uint8Clamped', 'Int16', 'Uint16', 'Int32', 'Uint32', 'Float32', 'Float64', 'BigInt64', 'BigUint64']) { o[k + 'Array'] = new r[k + 'Array'](2); }
        for (const k of ['Error', 'EvalError', 'RangeError', 'ReferenceError', 'SyntaxError', 'TypeError', 'URIError']) o[k] = new r[k]('m');
        o.AggregateError = new r.AggregateError([], 'm');
        return o;
    };
    const here = mk(globalThis); for (const k in here) add(k, here[k]);
    const ctx = vm.createContext({}); const real = vm.runInContext('globalThis', ctx); const there = mk(real); for (const k in there) add('cross ' + k, there[k]);
    for (const [k, v] of Object.entries({ 'Buffer 0': Buffer.alloc(0), 'Buffer 2': Buffer.from('ab'), 'Buffer slice': Buffer.from('abc').subarray(1), 'Uint8Array 0': new Uint8Array(0), 'Blob': new Blob(['a']), 'File': new File(['a'], 'f'), 'FormData': new FormData(), 'URL': new URL('http://a'), 'URLSearchParams': new URLSearchParams('a=1'), 'Event': new Event('e'), 'CustomEvent': new CustomEvent('c'), 'AbortSignal': AbortSignal.abort(), 'DOMException': new DOMException('m', 'AbortError'), 'DOMException plain': new DOMException(), 'Headers': new Headers(), 'TextEncoder': new TextEncoder(), 'FinalizationRegistry': new FinalizationRegistry(() => {}) })) add(k, v);
    // errors
    class MyError extends TypeError {} class Named extends Error { get name() { return 'Named'; } } class Proto extends RangeError {} Proto.prototype.name = 'Proto';
    for (const [k, v] of Object.entries({ 'MyError': new MyError('m'), 'Named': new Named('m'), 'Proto': new Proto('m'), 'renamed': Object.assign(new Error('m'), { name: 'TypeError' }), 'no message': new Error(), 'np error': Object.setPrototypeOf(new Error('m'), null), 'error created': Object.create(Error.prototype), 'Error.prototype': Error.prototype, 'TypeError.prototype': TypeError.prototype, 'cause': new Error('m', { cause: 1 }) })) add('err ' + k, v);
    // streams
    const noop = { read() {}, write(c, e, f) { f(); }, transform(c, e, f) { f(); }, final(f) { f(); } };
    const ended = new stream.Readable(noop); ended.on('error', () => {}); ended.destroy();
    const wended = new stream.Writable(noop); wended.on('error', () => {}); wended.destroy();
    for (const [k, v] of Object.entries({ 'Stream': new stream.Stream(), 'Readable': new stream.Readable(noop), 'Readable destroyed': ended, 'Writable': new stream.Writable(noop), 'Writable destroyed': wended, 'Duplex': new stream.Duplex(noop), 'Transform': new stream.Transform(noop), 'PassThrough': new stream.PassThrough(), 'EventEmitter': new (require('events'))(), 'pipe': { pipe() {} } })) add('stream ' + k, v);
    // proxies and spoofs
    for (const [k, v] of Object.entries({ '{}': {}, '[]': [], '[1]': [1], 'fn': function (a) {}, 'Date': new Date(0), 'Map': new Map([[1, 1]]), 'Error': new Error('m'), 'Promise': Promise.resolve(), 'np': Object.create(null) })) add('proxy ' + k, new Proxy(v, {}), k === 'Date' || k === 'Map' || k === 'Error' || k === 'Promise' || k === 'fn' ? SPOOF : undefined);
    for (const tag of ['Array', 'Map', 'Set', 'Promise', 'RegExp', 'Object', 'Function', 'AsyncFunction', 'Arguments', 'Window', 'HTMLDocument', 'Text', 'NodeList', 'FileList', 'FileReader', 'Generator', 'Uint8Array', 'Null', 'Undefined', 'a]b', '', 'new\nline', 'Validator', 'ArrayBuffer', 'DOMException', 'URL', 'WeakRef', 'Symbol', 'BigInt', 'Boolean', 'String', 'Number', 'Date']) add('tagged ' + tag, { [Symbol.toStringTag]: tag, length: 1, 0: 'q' }, SPOOF);
    add('tagged Error', Object.assign(Object.create(Error.prototype), { [Symbol.toStringTag]: 'Error' }), SPOOF); add('tagged Error np', Object.create(null, { [Symbol.toStringTag]: { value: 'Error' } }), SPOOF);
    add('untagged Map', Object.defineProperty(new Map([[1, 1]]), Symbol.toStringTag, { value: 'Other' }), SPOOF); add('untagged tag number', Object.defineProperty(new Set(), Symbol.toStringTag, { value: 5 }), SPOOF);
    // arrays of one and two
    const sparse = [, 1], sparse2 = [1]; sparse2.length = 3;
    for (const [k, v] of Object.entries({ '[]': [], '[1]': [1], '[,1]': sparse, '[1,,]': sparse2, '[,]': [,], 'subclass': new (class X extends Array {})(), 'props': Object.assign([1], { x: 1 }), '[[]]': [[]], '[[],1]': [[], 1], '[[1],[[2]]]': [[1], [[2]]], '2020': [2020, 1], '["2024-01-01"]': ['2024-01-01'], '[12]': [12], 'cross [1]': vm.runInNewContext('[1]'), 'frozen': Object.freeze([1]) })) add('arr ' + k, v);
    const els = [undefined, null, 0, NaN, 1, Infinity, Object(2), '', 'a', Object('a'), true, false, Object(true), 1n, Object(1n), Symbol('e'), Object(Symbol('e')), {}, Object.create(null), new A(1), [], function () {}, async () => {}, Buffer.from('a'), new Uint8Array(1), new Date(0)];
    for (const a of els) add('of [' + show(a) + ']', [a]);
    for (const a of [undefined, null, 0, NaN, 'a', true, 1n, els[15], els[17], els[20], els[21], els[23]]) for (const b of [undefined, null, 1, Object(NaN), '', false, 2n, els[16], els[25], [1], els[22], els[24]]) add(`of [${show(a)},${show(b)}]`, [a, b]);
    return U;
};
// ---------------------------------------------------------------- the reference
const tag = v => Object.prototype.toString.call(v).slice(8, -1);
const isO = v => typeof v === 'object' && v !== null, isF = v => typeof v === 'function';
const box = (v, t) => isO(v) && tag(v) === t;
const num = (v, nan) => (typeof v === 'number' || box(v, 'Number')) && (nan || Number(v) === Number(v));
const int = v => typeof v === 'number' && Number.isInteger(v);
const every = f => (v, ...o) => Array.isArray(v) && v.length > 0 && Array.from(v, (x, i) => i in v ? f(x, ...o) : true).every(Boolean);
const rangeOf = (lo, hi) => v => int(v) && v >= lo && v <= hi;
const src = v => Function.prototype.toString.call(v);
const str = v => typeof v === 'string' || box(v, 'String');
const own = (v, k) => v != null && Object.prototype.hasOwnProperty.call(v, k);
const prop = (v, k) => { if (v == null) return undefined; return v[k]; };
const errName = v => { const p = Object.getPrototypeOf(v); return attempt(() => p.name).value; };
const err = v => tag(v) === 'Error' || v instanceof Error;
const levels = [Object.keys, Object.getOwnPropertyNames, Object.getOwnPropertySymbols, Reflect.ownKeys];
const RESERVED = new Set('break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with'.split(' '));
const ident = s => {
    const raw = s.replace(/\\u(?:([0-9a-f]{4})|\{([0-9a-f]+)\})/gi, (m, a, b) => String.fromCodePoint(parseInt(a ?? b, 16)));
    if (raw.includes('\\')) return false;
    const cs = [...raw];
    return cs.length > 0 && cs.every((c, i) => c === '$' || c === '_' || /\p{ID_Start}/u.test(c) || (i > 0 && (/\p{ID_Continue}/u.test(c) || c === '\u200c' || c === '\u200d'))) && !RESERVED.has(raw);
};
const prime = n => { if (!int(n) || n < 2) return false; for (let d = 2; d * d <= n && d < 1e8; d++) if (n % d === 0) return false; return true; };
const T = t => v => tag(v) === t;
const like = (v, sim = 0, sparse = true) => {
    if (!isO(v) || Array.isArray(v) || tag(v) === 'Window') return false;
    const l = v.length;
    if (!(typeof l === 'number' && l >= 0 && l <= 4294967295 && Math.floor(l) === l)) return false;
    if (sim === 0) return true;
    const idx = Object.keys(v).filter(k => /^(0|[1-9]\d*)$/.test(k) && +k <= 4294967295);
    if (!sparse && !idx.every((_, i) => own(v, String(i)))) return false;
    return idx.length === l && (sim === 1 || Object.keys(v).length === l + 1);
};
const desc = (v, extra = true) => {
    if (tag(v) !== 'Object') return false;
    const has = k => own(v, k), fg = has('get') && isF(v.get), fs = has('set') && isF(v.set);
    if ((has('get') && !fg) || (has('set') && !fs) || ((fg || fs) && has('writable'))) return undefined;
    if (['configurable', 'enumerable', 'writable'].some(k => has(k) && typeof v[k] !== 'boolean')) return false;
    if (!extra && Object.keys(v).some(k => !['configurable', 'enumerable', 'writable', 'get', 'set', 'value'].includes(k))) return false;
    return has('value') !== (fg || fs);
};
const plain = v => tag(v) === 'Object' && Object.getPrototypeOf(v) === Object.prototype ? (own(v, 'constructor') ? undefined : true) : false;
const pure = v => tag(v) === 'Object' && Object.getPrototypeOf(v) === null ? (own(v, 'constructor') || Symbol.iterator in v || Symbol.toStringTag in v ? undefined : true) : false;
const typed = v => ArrayBuffer.isView(v) && !(tag(v) === 'DataView') && !Buffer.isBuffer(v);
const stm = v => v instanceof stream.Stream && tag(v) === 'Object' && isF(v.pipe);
const rd = v => stm(v) && isF(v._read) && isO(v._readableState) && v.readable === true, wr = v => stm(v) && isF(v._write) && isO(v._writableState) && v.writable === true;
const numberValid = (v, o = {}) => {
    const { implicit = true, allowNaN = false, allowInfinity = false, allowEmptyString = false } = o;
    if (v === undefined) return allowNaN && implicit ? undefined : false;
    if (!implicit) { if (str(v)) { if (String(v).trim() === '') { if (!allowEmptyString) return false; } } else if (!num(v, allowNaN)) return false; }
    const r = attempt(() => Number(v)); if (!r.ok) return allowNaN && allowInfinity ? undefined : false;
    return (allowNaN || r.value === r.value) && (allowInfinity || Math.abs(r.value) !== Infinity);
};
const lengthy = (v, k, min) => { const l = prop(v, k); return Number.isSafeInteger(l) && l >= min; };
const SAME = (a, b) => a === b || (a !== a && b !== b);
const fin = (v, imp) => imp ? (r => r.ok && r.value)(attempt(() => isFinite(v))) : Number.isFinite(v);
const nan = (v, imp) => imp ? (r => r.ok && r.value)(attempt(() => isNaN(v))) : Number.isNaN(v);
const REF = {
    isArray: v => Array.isArray(v), isArrayFilled: v => Array.isArray(v) && v.length > 0, isArrayIndex: rangeOf(0, 4294967295), isArrayLike: like, isArrayLikeFilled: v => like(v) && v.length > 0,
    isArraySparse: v => Array.isArray(v) && Object.keys(v).filter(k => /^\d+$/.test(k)).length < v.length, isArrayTwoDimensional: v => Array.isArray(v) && v.length > 0 && v.every(x => Array.isArray(x)),
    isBigInt: v => typeof v === 'bigint' || box(v, 'BigInt'), isBigIntArray: every(v => typeof v === 'bigint' || box(v, 'BigInt')), isBigIntFilled: v => (typeof v === 'bigint' || box(v, 'BigInt')) && BigInt(v) > 0n, isBigIntObject: v => box(v, 'BigInt'), isBigIntPrimitive: v => typeof v === 'bigint',
    isBoolean: v => typeof v === 'boolean' || box(v, 'Boolean'), isBooleanArray: every(v => typeof v === 'boolean' || box(v, 'Boolean')), isBooleanObject: v => box(v, 'Boolean'), isBooleanPrimitive: v => typeof v === 'boolean', isFalse: v => v === false, isTrue: v => v === true,
    isArrayBufferView: v => ArrayBuffer.isView(v) && !Buffer.isBuffer(v), isTypedArray: typed, isBuffer: v => Buffer.isBuffer(v), isBufferArray: every(v => Buffer.isBuffer(v)), isBufferFilled: v => Buffer.isBuffer(v) && v.length > 0, isUint8Array: v => tag(v) === 'Uint8Array' && !Buffer.isBuffer(v),
    isMapFilled: v => tag(v) === 'Map' && v.size > 0, isSetFilled: v => tag(v) === 'Set' && v.size > 0,
    isDateValid: v => v !== undefined && (r => r.ok && r.value === r.value)(attempt(() => new Date(v).getTime())), isLeapYear: v => Number.isSafeInteger(v) && v > 0 && new Date(Date.UTC(v % 400 + 2000, 1, 29)).getUTCDate() === 29,
    isElement: () => false, isHTMLElement: () => false, isReactElement: v => prop(v, '$$typeof') === Symbol.for('react.element'),
    isAnyError: err, isError: v => tag(v) === 'Error' && errName(v) === 'Error', isErrorLike: v => isO(v) && str(v.name) && v.name.length > 0 && str(v.message) && str(v.stack) && v.stack.length > 0,
    isDOMException: (v, n) => tag(v) === 'DOMException' && (!n || v.name === n), isSameError: (v, n, m) => err(v) && v.name === n && v.message === m,
    isEvent: v => v instanceof Event, isFormData: v => v instanceof FormData, isBlob: v => tag(v) === 'File' ? undefined : tag(v) === 'Blob',
    isArguments: T('Arguments'), isFunction: isF, isFunctionArray: every(isF), isFunctionFilled: v => isF(v) && v.length > 0, isClass: v => isF(v) && (d => !!d && !d.writable && /^class\b/.test(src(v)))(Object.getOwnPropertyDescriptor(v, 'prototype')),
    isAsyncFunction: v => isF(v) && /^Async/.test(tag(v)), isAsyncFunctionFilled: v => isF(v) && /^Async/.test(tag(v)) && v.length > 0, isSyncFunction: v => isF(v) && !/^Async/.test(tag(v)), isSyncFunctionFilled: v => isF(v) && !/^Async/.test(tag(v)) && v.length > 0,
    isFunctionBound: v => isF(v) && src(v) === 'function () { [native code] }' && !own(v, 'prototype') && String(v.name).startsWith('bound '), isNativeFunction: v => isF(v) && (m => !!m && m[1] === String(v.name))(/^function ((?:.|\n)*)\(\) \{ \[native code\] \}$/.exec(src(v))),
    isAsyncGenerator: T('AsyncGenerator'), isAsyncGeneratorFunction: T('AsyncGeneratorFunction'), isSyncGenerator: T('Generator'), isSyncGeneratorFunction: T('GeneratorFunction'), isGenerator: v => /^(Async)?Generator$/.test(tag(v)), isGeneratorFunction: v => /^(Async)?GeneratorFunction$/.test(tag(v)),
    isAsyncIterable: v => isF(prop(v, Symbol.asyncIterator)), isSyncIterable: v => isF(prop(v, Symbol.iterator)), isIterable: v => isF(prop(v, Symbol.iterator)) || isF(prop(v, Symbol.asyncIterator)), isIterator: v => isF(prop(v, 'next')),
    isNull: v => v === null, isNullArray: every(v => v === null), isNullOrUndefined: v => v === null || v === undefined, isNullOrUndefinedArray: every(v => v === null || v === undefined), isUndefined: v => v === undefined, isUndefinedArray: every(v => v === undefined),
    isFloat: v => Number.isFinite(v) && !Number.isInteger(v), isFloat16: v => Number.isFinite(v) && !Number.isInteger(v) && v <= 65504 && v >= -65504, isFloat32: v => Number.isFinite(v) && !Number.isInteger(v), isFloat64: v => Number.isFinite(v) && !Number.isInteger(v), isUFloat: v => Number.isFinite(v) && !Number.isInteger(v) && v > 0,
    isFloat16SafeInt: rangeOf(-2047, 2047), isFloat32SafeInt: rangeOf(-16777215, 16777215), isFloat64SafeInt: rangeOf(-9007199254740991, 9007199254740991),
    isInt: int, isInt8: rangeOf(-128, 127), isInt16: rangeOf(-32768, 32767), isInt32: rangeOf(-2147483648, 2147483647), isUint: v => int(v) && v >= 0, isUint8: rangeOf(0, 255), isUint16: rangeOf(0, 65535), isUint32: rangeOf(0, 4294967295), isUintFilled: v => int(v) && v > 0, isIntSafe: rangeOf(-9007199254740991, 9007199254740991), isUintSafe: rangeOf(0, 9007199254740991), isUintSafeFilled: rangeOf(1, 9007199254740991),
    isIntEven: v => int(v) && BigInt(v) % 2n === 0n, isIntOdd: v => int(v) && BigInt(v) % 2n !== 0n, isPrimeNumber: prime,
    isFinite: fin, isNaN: nan, isInfinity: v => v === 1 / 0 || v === -1 / 0, isInfinityPositive: v => v === 1 / 0, isInfinityNegative: v => v === -1 / 0,
    isNumber: num, isNumberArray: every(num), isNumberFilled: v => Number.isFinite(v) && v !== 0, isNumberNegative: v => Number.isFinite(v) && v < 0, isNumberPositive: v => Number.isFinite(v) && v > 0, isNumberObject: (v, a) => box(v, 'Number') && num(v, a), isNumberPrimitive: (v, a) => typeof v === 'number' && num(v, a), isNumberSafe: v => Number.isFinite(v), isNumberValid: numberValid, isZero: v => v === 0,
    isObject: T('Object'), isObjectArray: every(T('Object')), isObjectFilled: (v, l = 0) => tag(v) === 'Object' && levels[l](v).length > 0, isPlainObject: plain, isPlainObjectFilled: (v, l = 0) => { const p = plain(v); return p && levels[l](v).length > 0; }, isPureObject: pure, isTypeofObject: isO, isTypeofObjectArray: every(isO),
    isBrowser: () => false, isDeno: () => false, isNodejs: () => true, isWebWorker: () => false,
    isFalsy: v => v ? false : true, isFalsyArray: every(v => !v), isTruthy: v => v ? true : false, isTruthyArray: every(v => !!v), isPrimitive: v => Object(v) !== v,
    isPromiseLike: v => (isO(v) || isF(v)) && isF(v.then),
    hasOwnProperty: (v, k) => own(v, k), isProperty: (v, k) => (isO(v) || isF(v)) && Reflect.has(v, k), isLengthy: v => lengthy(v, 'length', 0), isLengthyFilled: v => lengthy(v, 'length', 1), isSizey: v => lengthy(v, 'size', 0), isSizeyFilled: v => lengthy(v, 'size', 1),
    isPropertyDescriptor: desc, isPropertyKey: v => str(v) || num(v, true) || typeof v === 'symbol' || box(v, 'Symbol'), isPrototype: v => { const c = prop(v, 'constructor'); return c != null && prop(c, 'prototype') === v && (isO(v) || isF(v)); },
    isStream: stm, isReadable: rd, isWritable: wr, isDuplex: v => rd(v) && wr(v), isTransform: v => rd(v) && wr(v) && isF(v._transform) && v._transform.length > 0,
    isChar: v => str(v) ? (v.length === 1 ? true : v.length === 2 && v.codePointAt(0) > 0xffff ? undefined : false) : false, isString: str, isStringArray: every(str), isStringFilled: v => str(v) && v.length > 0, isStringObject: v => box(v, 'String'), isStringPrimitive: v => typeof v === 'string', isStringTrim: (v, n = 0) => str(v) && String(v).trim().length > n,
    isSymbol: v => typeof v === 'symbol' || box(v, 'Symbol'), isSymbolArray: every(v => typeof v === 'symbol' || box(v, 'Symbol')), isSymbolObject: v => box(v, 'Symbol'), isSymbolPrimitive: v => typeof v === 'symbol',
    isTimeoutMs: rangeOf(0, 2147483647), getTagEqual: (v, t) => tag(v) === t, typeofEqual: (v, t) => typeof v === t,
    isURLString: v => str(v) && URL.canParse(String(v)), isVarName: v => typeof v === 'string' ? ident(v) : str(v) ? undefined : false,
    isEqual: (v, ...a) => a.length > 0 && a.every(x => SAME(x, v)), isNotEqual: (v, ...a) => a.length > 0 && a.every(x => !SAME(x, v))
};
for (const k of ['ArrayBuffer', 'SharedArrayBuffer', 'DataView', 'Int8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array', 'Map', 'Set', 'WeakMap', 'WeakRef', 'WeakSet', 'Date', 'RegExp', 'Promise', 'URL', 'URLSearchParams', 'File', 'FileList', 'FileReader', 'NodeList']) REF['is' + k] = T(k);
for (const [k, t] of [['isDocument', 'HTMLDocument'], ['isWindow', 'Window'], ['isTextNode', 'Text']]) REF[k] = (v, f) => f ? f(v) : tag(v) === t;
for (const k of ['AggregateError', 'EvalError', 'RangeError', 'ReferenceError', 'SyntaxError', 'TypeError', 'URIError']) REF['is' + k] = v => err(v) && errName(v) === k;
exports.REF = REF;
const KEYS = ['a', 'length', 'x', '0', 0, 'size', 'h', '', Symbol.iterator, 'toString', '__proto__', 'constructor'];
const one = v => v === 1, any = v => !!v;
// the argument lists each predicate is called with besides the value
const OPTS = exports.OPTS = {
    isArrayLike: [[], [0], [1], [2], [0, false], [1, false], [2, false], [1, true], [2, true]], isFinite: [[], [false], [true]], isNaN: [[], [false], [true]], isNumber: [[], [false], [true]], isNumberArray: [[], [false], [true]], isNumberObject: [[], [false], [true]], isNumberPrimitive: [[], [false], [true]],
    isNumberValid: (() => { const r = [[]]; for (const implicit of [true, false]) for (const allowNaN of [true, false]) for (const allowInfinity of [true, false]) for (const allowEmptyString of [true, false]) r.push([{ implicit, allowNaN, allowInfinity, allowEmptyString }]); return r; })(),
    isObjectFilled: [[], [0], [1], [2], [3]], isPlainObjectFilled: [[], [0], [1], [2], [3]], isStringTrim: [[], [0], [1], [2], [3]], isDOMException: [[], ['AbortError'], ['Error'], ['']], isSameError: [['Error', 'm'], ['TypeError', 'm'], ['Error', ''], ['Named', 'm'], ['E', '']], isPropertyDescriptor: [[], [true], [false]],
    hasOwnProperty: KEYS.map(k => [k]), isProperty: KEYS.map(k => [k]), getTagEqual: ['Object', 'Null', 'Array', 'a]b', '', 'Error', 'Function', 'new\nline'].map(k => [k]), typeofEqual: ['object', 'function', 'undefined', 'number', 'bigint', 'symbol', 'string', 'boolean', 'null'].map(k => [k]),
    isEqual: [[], [1], [NaN], [NaN, NaN], [1, 1], [1, 2], [undefined], [null, null], [''], ['a', 'a']], isNotEqual: [[], [1], [NaN], [NaN, 1], [1, 2], [undefined], [null, undefined], ['a', 'b']], isDocument: [[], [one]], isWindow: [[], [one]]
};
// where an object only claims a tag: judged only here
const ONLY = new Set(['isArray', 'isArrayFilled', 'isFunction', 'isTypeofObject', 'isPrimitive', 'isNull', 'isUndefined', 'isNullOrUndefined', 'isTrue', 'isFalse', 'isTruthy', 'isFalsy', 'isObject', 'isAnyError', 'getTagEqual', 'typeofEqual', 'isStringPrimitive', 'isNumberPrimitive', 'isInt', 'isUint', 'isZero', 'isNaN', 'isEqual', 'isNotEqual', 'isArrayIndex', 'isDocument', 'isWindow', 'isLengthy', 'isNodejs', 'hasOwnProperty', 'isProperty']);
const BOXED = new Set(['Symbol', 'BigInt', 'Boolean', 'String', 'Number', 'Date'].map(t => 'tagged ' + t));
const nocall = (name, p) => BOXED.has(name) && !ONLY.has(p);    // claims to be a boxed value
const snap = v => {
    if (Object(v) !== v) return '';
    const r = attempt(() => { const d = Object.getOwnPropertyDescriptors(v), ks = Reflect.ownKeys(d); return [ks, ks.map(k => d[k].value), Object.getPrototypeOf(v), Object.isExtensible(v), ks.map(k => d[k].writable), v instanceof Map ? [...v] : v instanceof Set ? [...v] : v instanceof Date ? v.getTime() : 0]; });
    return r.value;
};
const flat = s => s === '' || s === undefined ? [] : s.flat(1);
const sameSnap = (a, b) => { const x = flat(a), y = flat(b); return x.length === y.length && x.every((e, i) => Object.is(e, y[i]) || (Array.isArray(e) && Array.isArray(y[i]) && e.length === y[i].length)); };
exports.run = async t => {
    const types = t.world().load('@curong/types'), U = universe();
    const preds = Object.keys(REF);
    t.cases('predicates', (function* () { for (const p of preds) for (const o of OPTS[p] ?? [[]]) yield { p, o }; })(), ({ p, o }) => {
        const f = types[p]; ok(typeof f === 'function', `${p} is not exported`);
        let yes = 0, sum = '';
        const call = e => {
            if (nocall(e.name, p)) return undefined;
            const before = snap(e.v), r = attempt(() => f(e.v, ...o)), r2 = attempt(() => f(e.v, ...o));
            if (e.flag && !ONLY.has(p) && !r.ok) return undefined;
            ok(r.ok, () => `${p}(${e.name}${o.length ? ', ' + show(o) : ''}) throws ${show(r.error)}`);
            ok(typeof r.value === 'boolean', () => `${p}(${e.name}, ${show(o)}) answers ${show(r.value)}`);
            ok(r2.ok && r2.value === r.value, () => `${p}(${e.name}, ${show(o)}) answers ${r.value} and then ${show(r2.value)}`);
            ok(sameSnap(before, snap(e.v)), () => `${p} changes its argument ${e.name}`);
            return r.value;
        };
        const got = U.map(e => {
            const g = call(e); if (g === undefined) return g;
            const want = e.flag && !ONLY.has(p) ? undefined : REF[p](e.v, ...o);
            ok(want === undefined || want === g, () => `${p}(${e.name}${o.length ? ', ' + show(o) : ''}): got ${g}, expected ${want}`);
            if (g) { yes++; sum += e.name; } return g;
        });
        for (let i = U.length - 1; i >= 0; i--) ok(call(U[i]) === got[i], () => `${p}(${U[i].name}, ${show(o)}): the answer depends on earlier calls`);
        return `${p} ${show(o)} ${yes} ${t.hash ? t.hash(sum) : ''}`;
    }, { calls: 900, key: ({ p, o }) => p + show(o) });
    t.cases('classes', U.filter(e => !e.flag), e => {       // disjoint classes: exactly one of each group
        const group = (names, n) => { const y = names.filter(k => types[k](e.v)); ok(n(y.length), () => `${e.name} belongs to ${show(y)}`); };
        group(['isStringPrimitive', 'isNumberPrimitive', 'isBigIntPrimitive', 'isSymbolPrimitive', 'isBooleanPrimitive', 'isNull', 'isUndefined', 'isTypeofObject', 'isFunction'], n => n === (e.v !== e.v ? 0 : 1));
        group(['isTruthy', 'isFalsy'], n => n === 1); group(['isSyncFunction', 'isAsyncFunction'], n => n === (typeof e.v === 'function' ? 1 : 0)); group(['isIntEven', 'isIntOdd'], n => n === (Number.isInteger(e.v) ? 1 : 0)); group(['isNumberNegative', 'isNumberPositive', 'isZero'], n => n === (Number.isFinite(e.v) ? 1 : 0));
        group(['isArray', 'isMap', 'isSet', 'isWeakMap', 'isWeakSet', 'isWeakRef', 'isDate', 'isRegExp', 'isPromise', 'isArrayBuffer', 'isSharedArrayBuffer', 'isDataView', 'isTypedArray', 'isBuffer', 'isArguments', 'isObject', 'isFunction', 'isURL', 'isURLSearchParams', 'isSyncGenerator', 'isAsyncGenerator'], n => n <= 1);
        group(['isError', 'isTypeError', 'isRangeError', 'isEvalError', 'isReferenceError', 'isSyntaxError', 'isURIError', 'isAggregateError'], n => n <= 1);
    });
    t.cases('getTag', U, e => { const full = Object.prototype.toString.call(e.v); for (const s of [undefined, true, false, true]) eq(s === undefined ? types.getTag(e.v) : types.getTag(e.v, s), s === false ? full : full.slice(8, -1), `getTag(${e.name}, ${s})`); return full; });
    const C = [one, any, v => typeof v === 'number', v => v > 1, () => false, () => true];
    t.cases('isEvery isSome', t.product([1, 0, 2, [], [1], [0], [1, 2], [1, 0], ['a', 1], [[1], 1]], [...C, ...[...t.words(C, 0, 2)]]), ([v, p]) => {
        const vs = Array.isArray(v) ? v.flat(0) : [v], ps = [p].flat(); const flatV = [v].flat();
        eq(types.isEvery(v, p), ps.every(f => flatV.every(x => f(x))), `isEvery(${show(v)})`); eq(types.isSome(v, p), flatV.some(x => ps.every(f => f(x))), `isSome(${show(v)})`);
        return `${show(vs)} ${ps.length} ${types.isEvery(v, p)} ${types.isSome(v, p)}`;
    });
    t.cases('isPrototypeOf', t.product(U.filter(e => /prototype|instance|\{\}|Buffer|^Error|create/.test(e.name)), U.filter(e => /^(obj|Buffer|err|fn class|Error|arr|undefined|null|n1$|s"a")/.test(e.name))), ([a, b]) => {
        let want = false; if (Object(b.v) === b.v && Object(a.v) === a.v) for (let q = Object.getPrototypeOf(b.v); q; q = Object.getPrototypeOf(q)) if (q === a.v) want = true;
        eq(types.isPrototypeOf(a.v, b.v), want, `isPrototypeOf(${a.name}, ${b.name})`); return `${a.name} ${b.name} ${want}`;
    });
    // every number near a documented bound, under every number predicate
    const B = [0, 127, 128, 255, 2047, 32767, 32768, 65504, 65535, 16777215, 2147483647, 2147483648, 4294967295, 9007199254740991];
    const N = []; for (const b of B) for (const d of [-2, -1, -0.5, 0, 0.5, 1, 2]) for (const sg of [1, -1]) N.push(sg * (b + d));
    for (let i = -30; i <= (t.thorough ? 3000 : 420); i++) N.push(i, i / 4);
    const NP = preds.filter(p => /Int|Float|Uint|Number|Finite|NaN|Infinity|Prime|Zero|Timeout|ArrayIndex|Leap/.test(p) && !/Array$|Object$|Object\b/.test(p));
    t.cases('numbers', N, n => { for (const p of NP) { const g = types[p](n); ok(g === REF[p](n), () => `${p}(${show(n)}): got ${g}`); } return show(n); }, { calls: NP.length });
    // identifiers and blanks: all short strings
    t.cases('names', t.concat(t.strings('a1$_ ,=\\u{}0;/*\n好', 0, t.thorough ? 4 : 3)), s => { eq(types.isVarName(s), ident(s), `isVarName(${show(s)})`); for (const n of [0, 1, 2]) eq(types.isStringTrim(s, n), s.trim().length > n, `isStringTrim(${show(s)}, ${n})`); return s; });
    t.cases('array-likes', t.product([0, 1, 2, 3], [...t.subsets(['0', '1', '2', '3', 'x', '01', ''])], [0, 1, 2], [true, false]), ([length, keys, sim, sparse]) => { const o = { length }; for (const k of keys) o[k] = 1; eq(types.isArrayLike(o, sim, sparse), like(o, sim, sparse), `isArrayLike(${show(o)}, ${sim}, ${sparse})`); return `${length} ${keys} ${sim} ${sparse}`; });
    t.cases('array-likes-long', t.product([9, 17, 33, 65, 130], [undefined, 0, 8, 16, 32, 64, 129], [undefined, 0, 1, 2], [undefined, true, false]), ([length, hole, sim, sparse]) => { const a = [length]; const o = { length }, r = Array.from({ length }, (_, i) => i); for (let i = 0; i < length; i++) if (i !== hole) o[i] = i; else delete r[i]; const args = sim === undefined ? [] : sparse === undefined ? [sim] : [sim, sparse]; for (const v of [o, r]) eq(types.isArrayLike(v, ...args), REF.isArrayLike(v, ...args), `isArrayLike of length ${a} without ${hole}, ${args}`); });
    // arrays: one element of another kind, at the beginning, in the middle or at the end of a long array
    const AP = preds.filter(p => /Array$/.test(p) && !/^(isArray|isTypedArray|is.*(Int|Uint|Float|Clamped).*Array)$/.test(p) || p === 'isIntArray' || p === 'isUintArray');
    t.cases('arrays-long', t.product(AP, [2, 9, 17, 33, 65, 130]), ([p, n]) => {
        const el = U.filter(e => !e.flag && !nocall(e.name, p)).map(e => e.v), yes = el.filter(v => REF[p]([v]) === true), no = el.filter(v => REF[p]([v]) === false); let c = 0;
        for (const y of yes.slice(0, 3)) { eq(types[p](Array(n).fill(y)), REF[p](Array(n).fill(y)), `${p}(${n} times ${show(y)})`); for (const x of no) for (const k of [0, 1, n >> 1, n - 2, n - 1]) { const a = Array(n).fill(y); a[k] = x; eq(types[p](a), REF[p](a), `${p}(${n} times ${show(y)}, ${show(x)} at ${k})`); c++; } }
        return `${p} ${n} ${c}`;
    });
    // environments
    const tagged = tg => ({ [Symbol.toStringTag]: tg }), fnv = function () {};
    const G = ['window', 'Deno', 'self', 'HTMLImageElement', 'HTMLCanvasElement', 'HTMLVideoElement'];
    const win = (d, h, n) => Object.assign(tagged('Window'), { document: d && tagged('HTMLDocument'), history: h && tagged('History'), navigator: n && tagged('Navigator') });
    t.cases('environment', t.concat(
        [...t.product([0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [0, 1])].map(b => ({ g: { window: win(b[0], b[1], b[2]), ...(b[3] && { HTMLImageElement: fnv }), ...(b[4] && { HTMLCanvasElement: fnv }), ...(b[5] && { HTMLVideoElement: fnv }) }, browser: b.every(Boolean) })),
        [...t.product([0, 1], [0, 1])].map(([v, c]) => ({ g: { Deno: { ...(v && { version: {} }), ...(c && { core: {} }) } }, deno: !!(v && c) })),
        [{ g: { self: new (class DedicatedWorkerGlobalScope {})() }, worker: true }, { g: { self: new (class Other {})() } }, { g: { self: null } }, { g: {} }]), ({ g, browser = false, deno = false, worker = false }) => {
        const old = G.map(k => Object.getOwnPropertyDescriptor(globalThis, k));
        try {
            for (const k of G) { delete globalThis[k]; if (k in g) Object.defineProperty(globalThis, k, { value: g[k], configurable: true, writable: true }); }
            eq([types.isBrowser(), types.isDeno(), types.isWebWorker(), types.isNodejs()], [browser, deno, worker, true], 'browser, Deno, worker, Node');
        } finally { G.forEach((k, i) => { delete globalThis[k]; if (old[i]) Object.defineProperty(globalThis, k, old[i]); }); }
        return `${browser} ${deno} ${worker} ${Object.keys(g)}`;
    });
    nested(t, 'inside', ['isEvery', 'isSome'].flatMap(f => [[[1, 2, 3], 1], [[0, 5], 2], [7, 2], [[[1], 9, 9], 3]].map(([v, n]) => ({ n: `${f} ${show(v)} ${n}`, run: h => { const seen = []; const r = types[f](v, n === 1 ? x => { h(); seen.push(x); return x > 1; } : Array.from({ length: n }, (q, i) => x => { h(); seen.push([x, i]); return x > i; })); return [r, seen]; } }))));
    // ---- very long values, with one deciding place
    t.cases('arrays-far', [...t.product(AP, [1025], [0, 1, 2, 3]), ...t.product(AP, [5000], [2])], ([p, n, pos]) => {
        const el = U.filter(e => !e.flag && !nocall(e.name, p)).map(e => e.v), yes = el.filter(v => REF[p]([v]) === true), no = el.filter(v => REF[p]([v]) === false), k = [0, n >> 1, n - 2, n - 1][pos];
        for (const y of yes.slice(0, 1)) for (const x of no.filter((_, i) => i % 5 === pos)) { const a = Array(n).fill(y); a[k] = x; eq(types[p](a), REF[p](a), `${p}(${n} times ${show(y)}, ${show(x)} at ${k})`); a[k] = y; eq(types[p](a), REF[p](a), `${p}(${n} times ${show(y)})`); } return `${p} ${n} ${k}`;
    });
    const FARV = []; for (const n of [1025, 5000]) for (const k of [0, 1, n >> 1, 1001, n - 2, n - 1]) { const h = Array.from({ length: n }, (_, i) => i); delete h[k]; const u = Array.from({ length: n }, (_, i) => i); u[k] = undefined; const d = Array.from({ length: n }, (_, i) => i); d[k] = -0.5; const o = {}; for (let i = 0; i < n; i++) o['k' + i] = i === k ? undefined : i; const al = { length: n }; for (let i = 0; i < n; i++) if (i !== k) al[i] = i; const ty = new Float64Array(n); ty[k] = NaN; const s = ' '.repeat(k) + 'a' + ' '.repeat(n - k - 1), z = '1'.repeat(k) + 'x' + '1'.repeat(n - k - 1); FARV.push([`list of ${n} without ${k}`, h], [`list of ${n}, undefined at ${k}`, u], [`list of ${n}, -0.5 at ${k}`, d], [`object of ${n} keys, undefined at ${k}`, o], [`array like of ${n} without ${k}`, al], [`floats, ${n}, NaN at ${k}`, ty], [`${n} blanks, a at ${k}`, s], [`${n} digits, x at ${k}`, z], [`text of ${n}, blank at ${k}`, z.replace('x', ' ')], [`set of ${n}`, new Set(u)], [`map of ${n}`, new Map(u.map(x => [x, x]))]); }
    t.cases('values-far', FARV, ([l, v]) => { for (const p of preds) { if (nocall(l, p)) continue; const g = types[p](v); let e; try { e = REF[p](v); } catch { continue; } ok(g === e, () => `${p}(${l}): got ${show(g)}`); } for (const [sim, sp] of [[0, true], [0, false], [1, true], [2, undefined]]) eq(types.isArrayLike(v, sim, sp), like(v, sim, sp), `isArrayLike(${l}, ${sim}, ${sp})`); return l; }, { calls: preds.length });
    t.cases('every-far', t.product(['isEvery', 'isSome'], [1025, 5000, 70000], [0, 1, 2, 3]), ([f, n, pos]) => { const k = [0, n >> 1, n - 2, n - 1][pos], a = Array(n).fill(f === 'isEvery' ? 1 : 'x'); const is = x => typeof x === 'number'; eq(types[f](a, is), f === 'isEvery', `${f} of ${n} equal values`); a[k] = f === 'isEvery' ? 'x' : 1; eq(types[f](a, is), f !== 'isEvery', `${f} of ${n}, another kind at ${k}`); });
};
