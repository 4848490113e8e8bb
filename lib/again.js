'use strict';
// Histories of equal calls: what a caller does with an earlier result or with earlier arguments, and any other call in between,
// never shows in a later call. calls: [name, function, () => arguments]; every ordered pair is explored.
const { eq, show } = require('./util');
const junk = Symbol('junk');
function spoil(v, seen = new Set(), depth = 0) {
    if (v === null || typeof v !== 'object' || seen.has(v) || depth > 8) return;
    seen.add(v); const quiet = f => { try { f(); } catch { /* not writable */ } };
    if (v instanceof Promise) return;
    if (ArrayBuffer.isView(v)) { quiet(() => new Uint8Array(v.buffer, v.byteOffset, v.byteLength).fill(0x7a)); return; }
    if (v instanceof RegExp) { quiet(() => { v.lastIndex = 77; }); return; }
    if (v instanceof Date) { quiet(() => v.setTime(1)); return; }
    if (v instanceof Map || v instanceof Set) { for (const x of v.values()) spoil(x, seen, depth + 1); quiet(() => { v.clear(); if (v instanceof Map) v.set(junk, 1); else v.add(junk); }); return; }
    for (const k of Object.keys(v)) { let x; try { x = v[k]; } catch { continue; } spoil(x, seen, depth + 1); }
    if (Array.isArray(v)) quiet(() => { if (v.length) v[0] = junk; v.reverse(); v.push(junk); });
    else { const ks = Object.keys(v); if (ks.length) quiet(() => { v[ks[0]] = junk; }); if (ks.length > 1) quiet(() => { delete v[ks[1]]; }); quiet(() => { v.spoilt = junk; }); }
}
const picture = r => show(r, 12);
async function again(t, calls, suite = 'again') {
    const outcome = async ([, f, args]) => { const a = args(); try { return [await f(...a), a, 'value']; } catch (e) { return [e, a, 'error']; } };
    const judge = r => r[2] === 'error' ? 'error' : picture(r[0]);
    const first = new Map(); for (const c of calls) { const r = await outcome(c); if (process.env.AGAIN_DEBUG) console.log(c[0], show(c[2]()), r[2], show(r[0]).slice(0, 120)); first.set(c, judge(r)); }
    await t.casesAsync(suite, calls.flatMap(a => calls.map(b => [a, b])), async ([a, b]) => {
        const r1 = await outcome(a); eq(judge(r1), first.get(a), () => `${a[0]} ${show(a[2]())}: called again`); if (r1[2] === 'value') spoil(r1[0]); spoil(r1[1]);
        const r2 = await outcome(b); eq(judge(r2), first.get(b), () => `${b[0]} ${show(b[2]())} after ${a[0]}, whose result and arguments were changed afterwards`); spoil(r2[1]); if (r2[2] === 'value') spoil(r2[0]);
        const r3 = await outcome(a); eq(judge(r3), first.get(a), () => `${a[0]} ${show(a[2]())}, after its earlier result and arguments and those of ${b[0]} were changed`);
    }, { key: ([a, b]) => `${a[0]} / ${b[0]}` });
    // what was handed in looks the same after the call, and a call with arguments that cannot be changed has the same outcome
    const freeze = (v, seen = new Set()) => { if (v === null || typeof v !== 'object' || seen.has(v) || ArrayBuffer.isView(v)) return v; seen.add(v); for (const k of Object.keys(v)) freeze(v[k], seen); return v instanceof RegExp || v instanceof Promise ? v : Object.freeze(v); };
    await t.casesAsync(`${suite}-untouched`, calls.filter(c => c[3] !== 'in place').flatMap(a => [false, true].map(f => [a, f])), async ([a, frozen]) => {
        const args = a[2](), before = picture(args); if (frozen) args.forEach(x => freeze(x)); let r; try { r = [await a[1](...args), args, 'value']; } catch (e) { r = [e, args, 'error']; }
        eq(judge(r), first.get(a), () => `${a[0]} ${show(a[2]())}${frozen ? ' with frozen arguments' : ''}`); eq(picture(args), before, () => `arguments of ${a[0]} after the call`);
    }, { key: ([a, f]) => `${a[0]} ${f}` });
    // the very same arguments handed in again, after any other call with its own: not for functions that work in place
    await t.casesAsync(`${suite}-reused`, calls.filter(c => c[3] !== 'in place').flatMap(a => calls.map(b => [a, b])), async ([a, b]) => {
        const args = a[2](); const call = async () => { try { return judge([await a[1](...args), args, 'value']); } catch (e) { return 'error'; } };
        for (let i = 0; i < 3; i++) { eq(await call(), first.get(a), () => `${a[0]} ${show(a[2]())}: call ${i + 1} with the same arguments, ${b[0]} in between`); await outcome(b); }
    }, { key: ([a, b]) => `${a[0]} / ${b[0]}` });
}
module.exports = { again };
