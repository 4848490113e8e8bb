'use strict';
const { ok, eq, show, fail, attempt, product, subsets, perms, options } = require('../lib/util');
const { inspect } = require('util');
exports.technique = 'bounded exhaustive enumeration of option, colour and field combinations; the sequences are run through an explicit-state model of a terminal (select graphic rendition) and the state is compared with the requested one';
exports.bounds = 'all 3^9 style settings; all 17x17 colour pairs with every style alone and in pairs, from a clean and from a fully set terminal; every colour name on every terminal table; 8 bit codes -3..260 and hostile values; all 24 bit triples over 14 values; messages: all orders of all subsets of 4 fields, each with 4 kinds of value, 4 types, 7 titles, date, stack and display settings';
exports.assumptions = [
    'bold and dim share the reset code 22 and the two blink styles share 25 (ECMA-48): a reset of one may reset the other of the pair',
    'an options object that requests nothing may use the empty sequence (full reset) on either side; text styled without options starts with a full reset and ends with nothing, as the tests pin',
    'an info object without any field, and a code of NaN, are not judged; message and name fields that are not strings are not printed; the time text and the frames of the stack are not compared'
];
exports.shards = 4;
exports.run = async t => {
    const W = t.world(), T = W.load('@curong/term'), print = W.load('@curong/term/src/print').default;
    const STYLES = ['bold', 'dim', 'italic', 'underlined', 'blink', 'rapidBlink', 'reverse', 'hidden', 'crossedOut'];
    const OFF = { 22: ['bold', 'dim'], 23: ['italic'], 24: ['underlined'], 25: ['blink', 'rapidBlink'], 27: ['reverse'], 28: ['hidden'], 29: ['crossedOut'] };
    const offCode = s => +Object.keys(OFF).find(k => OFF[k].includes(s));
    const ESC = '\u001b';
    // the terminal: applies one list of SGR codes to a state
    const clean = () => ({ fg: null, bg: null, on: {} });
    const dirty = () => ({ fg: 'x', bg: 'x', on: Object.fromEntries(STYLES.map(s => [s, true])) });
    const sgr = (st, codes) => {
        const l = codes === '' ? [0] : codes.split(';').map(c => { ok(/^\d+$/.test(c), () => `not a code: ${show(codes)}`); return +c; });
        for (let i = 0; i < l.length; i++) {
            const c = l[i];
            if (c === 0) Object.assign(st, clean());
            else if (c >= 1 && c <= 9) st.on[STYLES[c - 1]] = true;
            else if (OFF[c]) for (const s of OFF[c]) delete st.on[s];
            else if (c === 39) st.fg = null;
            else if (c === 49) st.bg = null;
            else if ((c === 38 || c === 48) && l[i + 1] === 5) { st[c === 38 ? 'fg' : 'bg'] = '8:' + l[i + 2]; i += 2; }
            else if ((c === 38 || c === 48) && l[i + 1] === 2) { st[c === 38 ? 'fg' : 'bg'] = '24:' + l.slice(i + 2, i + 5); i += 4; }
            else if (c >= 30 && c <= 37) st.fg = '3:' + (c - 30);
            else if (c >= 90 && c <= 97) st.fg = '3:' + (c - 82);
            else if (c >= 40 && c <= 47) st.bg = '3:' + (c - 40);
            else if (c >= 100 && c <= 107) st.bg = '3:' + (c - 92);
            else fail(`code ${c} is not a set or reset code of a style: ${show(codes)}`);
        }
        return st;
    };
    const state = s => JSON.stringify([s.fg, s.bg, STYLES.filter(x => s.on[x])]);

    t.cases('styles', product(...STYLES.map(() => [undefined, true, false])), vals => {
        const o = {}; STYLES.forEach((s, i) => { if (vals[i] !== undefined) o[s] = vals[i]; });
        const before = JSON.stringify(o), r = T.ansiFormat(o);
        eq(JSON.stringify(o), before, 'options unchanged');
        eq(Object.keys(r).sort(), ['reset', 'set']);
        const on = STYLES.filter(s => o[s] === true), given = STYLES.filter(s => o[s] !== undefined);
        const codes = r.set === '' ? [] : r.set.split(';').map(Number);
        eq([...new Set(codes)].sort(), on.map(s => STYLES.indexOf(s) + 1).sort(), 'set codes');
        const off = r.reset === '' ? [] : r.reset.split(';').map(Number);
        eq([...new Set(off)].sort(), [...new Set(given.map(offCode))].sort(), 'reset codes');
        if (on.length) { const st = clean(); sgr(st, r.set); eq(state(st), state({ ...clean(), on: Object.fromEntries(on.map(s => [s, true])) }), 'after set'); sgr(st, r.reset); eq(state(st), state(clean()), 'after reset'); }
    });

    const STD = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white'], NAMES = [...STD, ...STD.map(c => 'light' + c)];
    const TABLE = { // the sixteen colours of each terminal (the table the documentation refers to)
        VGA: '000000 aa0000 00aa00 aa5500 0000aa aa00aa 00aaaa aaaaaa 555555 ff5555 55ff55 ffff55 5555ff ff55ff 55ffff ffffff',
        CMD: '000000 800000 008000 808000 000080 800080 008080 c0c0c0 808080 ff0000 00ff00 ffff00 0000ff ff00ff 00ffff ffffff',
        'Terminal.app': '000000 c23621 25bc24 adad27 492ee1 d338d3 33bbc8 cbcccd 818383 fc391f 31e722 eaec23 5833ff f935f8 14f0f0 e9ebeb',
        PuTTY: '000000 bb0000 00bb00 bbbb00 0000bb bb00bb 00bbbb bbbbbb 555555 ff5555 55ff55 ffff55 5555ff ff55ff 55ffff ffffff',
        mlRC: '000000 7f0000 009300 fc7f00 00007f 9c009c 009393 d2d2d2 7f7f7f ff0000 00fc00 ffff00 0000fc ff00ff 00ffff ffffff',
        xterm: '000000 cd0000 00cd00 cdcd00 0000ee cd00cd 00cdcd e5e5e5 7f7f7f ff0000 00ff00 ffff00 5c5cff ff00ff 00ffff ffffff',
        Ubuntu: '010101 de382b 39b54a ffc706 006fb8 762671 2cb5e9 cccccc 808080 ff0000 00ff00 ffff00 0000ff ff00ff 00ffff ffffff'
    };
    const rgb = h => [0, 2, 4].map(i => parseInt(h.slice(i, i + 2), 16));
    const BADNAMES = ['', 'Red', 'RED', 'light', 'lightlightred', 'lightgrey', 'red ', ' red', 'orange', 'constructor', 'toString', '__proto__', 'length', '0', '1', 0, 1, null, undefined, NaN, true, ['red'], {}];
    const pair = (r, f, b) => { eq(Object.keys(r).sort(), ['background', 'foreground']); eq(r.foreground, f); eq(r.background, b); };
    t.cases('names', [...NAMES, ...BADNAMES], name => {
        const i = NAMES.indexOf(name);
        const rej = f => ok(!attempt(f).ok, () => `accepts the colour ${show(name)}: ${show(attempt(f).value)}`);
        if (i < 0) { rej(() => T.colorNameCode3bit(name)); rej(() => T.colorNameCode8bit(name)); rej(() => T.colorNameCode24bit(name)); if (name) { rej(() => T.fontColor('x', { foreground: name })); rej(() => T.fontColor('x', { background: name })); } return; }
        const base = i < 8 ? 30 + i : 82 + i;
        pair(T.colorNameCode3bit(name), String(base), String(base + 10));
        pair(T.colorNameCode8bit(name), `38;5;${i}`, `48;5;${i}`);
        const u = rgb(TABLE.Ubuntu.split(' ')[i]).join(';');
        pair(T.colorNameCode24bit(name), `38;2;${u}`, `48;2;${u}`);
        for (const ty of Object.keys(TABLE)) { const c = rgb(TABLE[ty].split(' ')[i]).join(';'); for (let k = 0; k < 2; k++) pair(T.colorNameCode24bit(name, ty), `38;2;${c}`, `48;2;${c}`); }
        for (const ty of ['', 'vga', 'constructor', '__proto__', 'toString', 'Terminal', null, 0, 1]) ok(!attempt(() => T.colorNameCode24bit(name, ty)).ok, () => `accepts the terminal ${show(ty)}`);
    });
    const isByte = v => typeof v === 'number' && Number.isInteger(v) && v >= 0 && v <= 255;
    const num = v => String(v);
    const HOSTILE = [0.5, 254.5, 255.5, -0.5, NaN, Infinity, -Infinity, '1', '', '255', null, undefined, true, false, [], [1], {}, 1n, 2 ** 53, -(2 ** 32), 2 ** 32, 2 ** 32 + 1, Object(1)];
    t.cases('8bit', [...Array(264).keys()].map(x => x - 3).concat(HOSTILE), v => {
        const r = attempt(() => T.colorCode8bit(v));
        eq(r.ok, isByte(v), () => `colorCode8bit(${show(v)})`);
        if (r.ok) pair(r.value, `38;5;${num(v)}`, `48;5;${num(v)}`);
    });
    const ITEM = [0, 1, 128, 254, 255, 256, -1, 0.5, NaN, '1', null, undefined, true, Infinity];
    t.cases('24bit', product(ITEM, ITEM, ITEM), v => {
        const c = [...v], r = attempt(() => T.colorCode24bit(v));
        eq(r.ok, v.every(isByte), () => `colorCode24bit(${show(v)})`);
        ok(v.every((x, i) => Object.is(x, c[i])) && v.length === 3, 'the array is changed');
        if (r.ok) pair(r.value, `38;2;${c.join(';')}`, `48;2;${c.join(';')}`);
    });
    // eslint-disable-next-line no-sparse-arrays
    t.cases('24bit-shape', [[], [1], [1, 2], [1, 2, 3, 4], [, 1, 2], [1, , 2], [1, 2, ,], Array(3), '123', 'abc', '1,2,3', null, undefined, 123, { 0: 1, 1: 2, 2: 3, length: 3 }, new Set([1, 2, 3]), [[1], [2], [3]], [1, 2, [3]], new Uint8Array(3)], v => {
        ok(!attempt(() => T.colorCode24bit(v)).ok, () => `colorCode24bit(${show(v)}) accepts`);
    });

    // text between its sequences
    const split = (s, value) => {
        const m = /^\u001b\[([\d;]*)m([^]*)\u001b\[([\d;]*)m$/.exec(s);
        ok(m, () => `not wrapped: ${show(s)}`); eq(m[2], value, 'text'); return [m[1], m[3]];
    };
    const COL = [undefined, ...NAMES], pairs = [...subsets(STYLES)].filter(s => t.thorough || s.length <= 2 || s.length === 9);
    const styled = function* () { for (const f of COL) for (const b of COL) for (const s of pairs) for (const v of t.thorough ? [true, 'mix'] : [true]) yield [f, b, s, v]; };
    const TEXTS = ['x', ' ', '\n', 'a\nb ', '%s', '0', `${ESC}[1mq`, '文字', '\u0000', 'm'];
    let n = 0;
    t.cases('text', styled(), ([f, b, s, v]) => {
        const o = {}; if (f) o.foreground = f; if (b) o.background = b; s.forEach((x, i) => { o[x] = v === 'mix' ? i % 2 === 0 : true; });
        const text = TEXTS[n++ % TEXTS.length], [set, reset] = split(T.fontColor(text, o), text);
        const on = STYLES.filter(x => o[x] === true), given = STYLES.filter(x => x in o);
        if (!f && !b && !on.length) { if (!given.length) return; eq(state(sgr(clean(), set)), state(clean())); return; }
        const want = clean(); if (f) want.fg = '8:' + NAMES.indexOf(f); if (b) want.bg = '8:' + NAMES.indexOf(b); for (const x of on) want.on[x] = true;
        const st = sgr(clean(), set); eq(state(st), state(want), 'while the text is shown');
        eq(state(sgr(st, reset)), state(clean()), 'after the text');
        // on a terminal where everything is set, only what was requested changes
        const d = dirty(); if (f) d.fg = '8:' + NAMES.indexOf(f); if (b) d.bg = '8:' + NAMES.indexOf(b);
        const e = sgr(dirty(), set); eq(state(e), state(d), 'the set sequence changes other attributes');
        for (const x of given) for (const y of OFF[offCode(x)]) delete d.on[y];
        if (f) d.fg = null; if (b) d.bg = null;
        eq(state(sgr(e, reset)), state(d), 'the reset sequence changes other attributes');
    });
    t.cases('text-long', product(['x', '%s', '文字', 'a\n', '😀', `${ESC}[1mq`], [9, 33, 65, 130, 1025, 8193], [{ foreground: 'red' }, { background: 'blue', bold: true }, {}]), ([p, n2, o]) => { const s = p.repeat(n2); if (!Object.keys(o).length) return eq(T.fontColor(s), `${ESC}[0m${s}`); split(T.fontColor(s, o), s); });
    t.cases('plain', ['', ...TEXTS], text => {
        eq(T.fontColor(text), text ? `${ESC}[0m${text}` : '');
        eq(T.fontColor(text, { foreground: 'red' }), text ? `${ESC}[38;5;1m${text}${ESC}[39m` : '');
    });

    // messages
    const LABEL = { name: '名称', code: '代码', message: '消息', data: '数据', date: '时间', stack: '堆栈' };
    const label = k => `\n${ESC}[38;5;15;48;5;6m ${LABEL[k]} ${ESC}[39;49m`;
    const VAL = { name: ['f', '', '%s %d', 'x\ny'], code: [5, 'E%s', '', NaN, 0, -0], message: ['m', '', '100%%', 'a %o %j %c b'], data: ['s%d', { a: [1, , 'b'], f() {} }, undefined, null] };
    const INS = { showHidden: true, depth: null, colors: true, maxArrayLength: null, compact: false, sorted: true };
    const shownField = (k, v) => k === 'data' || (typeof v === 'string' && v !== '') || (k === 'code' && typeof v === 'number' && !Number.isNaN(v));
    const unjudged = (k, v) => k === 'code' && Number.isNaN(v);
    const COLORS = { error: 9, undefined: 9, info: 2, warn: 3 };
    const check = (info, opts, out) => {
        const ins = { ...INS }; for (const k of Object.keys(opts || {})) if (k !== 'display') ins[k] = opts[k];
        const { title = true, dividers = true } = (opts && opts.display) || {};
        const rule = '\n' + '-'.repeat(80), head = title && typeof info.title === 'string' && info.title !== '' ? `${ESC}[38;5;15;48;5;${COLORS[info.type]}m ${(info.type || 'error').toUpperCase()} ${ESC}[39;49m ${ESC}[38;5;${COLORS[info.type]}m${info.title}${ESC}[39m` : '';
        let rest = out;
        const take = (s, what) => { ok(rest.startsWith(s), () => `expected ${what} ${show(s)} at ${show(rest.slice(0, 160))} in ${show(out)}`); rest = rest.slice(s.length); };
        const fields = Object.keys(info).filter(k => k in VAL && shownField(k, info[k]));
        const dated = info.date === undefined || info.date === true, stacked = info.stack === true || ((info.type || 'error') === 'error' && (fields.length > 0 || dated));
        const any = fields.length || dated || stacked;
        const parts = [];
        for (const k of fields) parts.push(['label', label(k)], [k, typeof info[k] === 'string' ? info[k] : inspect(info[k], ins)]);
        if (dated) parts.push(['label', label('date')], ['time']);
        if (stacked) parts.push(['label', label('stack')], ['frames']);
        const all = [...(title ? [['title', head]] : []), ...(dividers ? [['rule', rule]] : []), ...parts, ...(dividers ? [['rule', rule]] : []), ...(any ? [['end', '\n']] : [])];
        if (any) { const f = all[0]; f[1] = '\n' + f[1].trimStart(); }
        all.forEach(([what, s], i) => {
            if (i) take(' ', 'separator');
            if (what === 'time') { const m = /^\u001b\[38;5;5m([^\u001b]*\d[^\u001b]*)\u001b\[39m/.exec(rest); ok(m && !Number.isNaN(Date.parse(m[1])), () => `time: ${show(rest.slice(0, 80))}`); rest = rest.slice(m[0].length); }
            else if (what === 'frames') { const m = /^\u001b\[38;5;1m\n([^\u001b]*)\u001b\[39m/.exec(rest); ok(m && /^ +at /.test(m[1]), () => `stack: ${show(rest.slice(0, 80))}`); rest = rest.slice(m[0].length); }
            else take(s, what);
        });
        eq(rest, '', 'rest of the message');
    };
    const infos = function* () {
        const fsets = [...subsets(['name', 'code', 'message', 'data'])].flatMap(s => [...perms(s)]);
        for (const type of [undefined, 'error', 'info', 'warn']) for (const title of [undefined, '', 'T', '100% %s %d %%', ' t\n', '%c%o%j', '%'])
            for (const order of fsets) for (const [date, stack] of [[false, undefined], [undefined, undefined], [true, true], [false, true], [false, false]])
                for (const opts of [undefined, { display: { title: false } }, { display: { dividers: false } }, { display: { title: false, dividers: false }, colors: false }, { compact: true, display: {} }])
                    yield { type, title, order, date, stack, opts };
    };
    let m = 0;
    t.cases('messages', infos(), c => {
        const rounds = t.thorough ? 4 : 1;
        for (let r = 0; r < rounds; r++) {
            const info = {}; if (c.type) info.type = c.type; if (c.title !== undefined) info.title = c.title;
            let skip = Object.keys(info).length === 0 && c.order.length === 0 && c.date === undefined && c.stack === undefined; // nothing given: nothing is printed
            c.order.forEach((k, i) => { info[k] = VAL[k][(m + i * 7 + (m >> 2)) % VAL[k].length]; if (unjudged(k, info[k])) skip = true; });
            m++;
            if (c.date !== undefined) info.date = c.date; if (c.stack !== undefined) info.stack = c.stack;
            const out = T.format(info, c.opts);
            eq(typeof out, 'string');
            if (!skip) check(info, c.opts, out);
        }
    });
    t.cases('fields', product(VAL.name, VAL.code, VAL.message, VAL.data, ['%s', 'T']), ([name, code, message, data, title]) => {
        const info = { type: 'info', title, name, code, message, data, date: false };
        if (!unjudged('code', code)) check(info, undefined, T.format(info));
    });
    // printing
    const FN = { error: T.printError, info: T.printInfo, warn: T.printWarn };
    t.cases('print', product(['error', 'info', 'warn', undefined], [...product(['a', '%s', '', 0, 'x y'], ['b', '%d %%', undefined])].concat([['only'], ['%s %%'], ['a', 'b', 'c']]), ['print', 'own']), ([type, msgs, via]) => {
        if (via === 'own' && !type) return;
        const lines = [], real = console.log;
        console.log = (...a) => { lines.push(a); };
        let r; try { r = via === 'own' ? FN[type](...msgs) : print(type, ...msgs); } finally { console.log = real; }
        eq(r, undefined); eq(lines.length, 1, 'printed once'); eq(lines[0].length, 1, 'one text');
        const title = msgs.join('\n  ');
        eq(lines[0][0], title === '' ? '' : `${ESC}[38;5;15;48;5;${COLORS[type]}m ${(type || 'error').toUpperCase()} ${ESC}[39;49m ${ESC}[38;5;${COLORS[type]}m${title}${ESC}[39m`);
    });
    // control sequences
    const SEQ = { cursorHidden: '[?25l', cursorShow: '[?25h', cursorSave: '[s', cursorRestore: '[u', SaveCursorAndAttr: '7', restoreCursorAndAttr: '8', ResetDevice: 'c', CSI: '[', ESC: '' };
    t.cases('sequences', Object.keys(SEQ), k => { eq(T[k], ESC + SEQ[k]); });
    const MOVE = { up: 'A', down: 'B', forward: 'C', back: 'D', next: 'E', previous: 'F', absolute: 'G' };
    t.cases('moves', product(Object.keys(MOVE), [undefined, 1, 2, 10, 999]), ([k, n2]) => { eq(n2 === undefined ? T.cursorMove(k) : T.cursorMove(k, n2), `${ESC}[${n2 === undefined ? 1 : n2}${MOVE[k]}`); });
    t.cases('positions', product([undefined, 1, 2, 24], [undefined, 1, 3, 80]), ([r, c]) => {
        eq(T.cursorPosition(r, c), `${ESC}[${r || 1};${c || 1}H`); eq(T.scrollPosition(r, c), `${ESC}[${r || 1};${c || 1}f`);
        eq(T.scrollUp(r), `${ESC}[${r || 1}S`); eq(T.scrollDown(r), `${ESC}[${r || 1}T`);
        for (const x of [undefined, 0, 1, 2, 3]) { eq(T.eraseScreen(x), `${ESC}[${x || 0}J`); eq(T.eraseLine(x), `${ESC}[${x || 0}K`); }
    });
    // questions: the message is shown, the trimmed answer returned and the interface closed before that
    const inputs = ['', 'a', ' a b ', '\t', 'x\u3000', '0', 'é\n'];
    await t.casesAsync('questions', [...product(['', 'name? ', '%s'], inputs)], async ([msg, answer]) => {
        const log = [];
        const createInterface = o => { log.push(['open', o.input === process.stdin, o.output === process.stdout]); return { question: (m, cb) => { log.push(['ask', m]); setImmediate(() => { log.push(['answer']); cb(answer); }); }, close: () => log.push(['close']), on() { return this; }, once() { return this; } }; };
        const w = W.fork({ fresh: f => /packages\/term\//.test(f), mocks: { readline: { __esModule: true, createInterface, default: { createInterface } } } });
        const r = await w.load('@curong/term').readByQuestion(msg);
        eq(r, answer.trim()); eq(log, [['open', true, true], ['ask', msg], ['answer'], ['close']]);
    });
};
