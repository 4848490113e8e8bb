'use strict';
// Development tool (no check uses it): systematic small changes to /repo's sources, each run against the quick checks
// anchored at the changed file, in scratch copies. Prints the survivors, which are read one by one.
// node tools/mutate.js [--gen] [--jobs N] [--every N] [--out FILE] PATH-REGEXP...
const fs = require('fs'), path = require('path'), { spawn, execFileSync } = require('child_process');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const args = process.argv.slice(2); const opt = (n, d) => { const i = args.indexOf('--' + n); return i >= 0 ? args.splice(i, 2)[1] : d; };
const gen = args.includes('--gen') && args.splice(args.indexOf('--gen'), 1); const jobs = +opt('jobs', 6), every = +opt('every', 1), out = opt('out', '/tmp/mut/out.jsonl'), hoist = args.includes('--hoist') && args.splice(args.indexOf('--hoist'), 1);
const V = path.resolve(__dirname, '..'), REPO = '/repo';
const listTs = (d, o = []) => { for (const e of fs.readdirSync(d, { withFileTypes: true })) { if (/^(__tests__|node_modules|types\.ts|index\.ts|dist)$/.test(e.name)) continue; const q = path.join(d, e.name); if (e.isDirectory()) listTs(q, o); else if (/\.ts$/.test(e.name) && !/\.(test|d)\.ts$/.test(e.name)) o.push(q); } return o; };
const files = fs.readdirSync(REPO + '/packages').flatMap(p => listTs(`${REPO}/packages/${p}/src`)).map(f => f.slice(REPO.length + 1)).filter(f => !args.length || args.some(a => new RegExp(a).test(f))).sort();
const props = fs.readFileSync(V + '/properties.jsonl', 'utf8').trim().split('\n').map(JSON.parse);
const pkg = { array: ['C10', 'C11', 'C12', 'C13', 'C14', 'C15'], asserts: ['C46'], cookie: ['C21', 'C22'], fs: ['C29', 'C30', 'C31', 'C32'], function: ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09'], number: ['C15', 'C16', 'C17'], object: ['C18', 'C19', 'C20'], os: ['C39'], path: ['C33'], process: ['C37', 'C38'], regexp: ['C34', 'C35', 'C36'], request: ['C40', 'C41', 'C42'], string: ['C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C15'], term: ['C47', 'C48'], types: ['C45', 'C46'], util: ['C43', 'C44', 'C49'] };
const checksOf = f => { const a = props.filter(p => p.anchors.files.includes(f)).map(p => p.id); const p = f.split('/')[1]; return a.length ? a : pkg[p] || []; };
const SW = { '===': ['!=='], '!==': ['==='], '==': ['!='], '!=': ['=='], '<': ['<=', '>='], '<=': ['<', '>'], '>': ['>=', '<='], '>=': ['>', '<'], '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '%': ['*'], '??': ['||'], '&': ['|'], '|': ['&'], '<<': ['>>'], '>>': ['<<'], '**': ['*'], '+=': ['-='], '-=': ['+='], '*=': ['/='], '||=': ['&&='], '??=': ['||='] };
const METH = { some: 'every', every: 'some', push: 'unshift', unshift: 'push', shift: 'pop', pop: 'shift', startsWith: 'endsWith', endsWith: 'startsWith', indexOf: 'lastIndexOf', lastIndexOf: 'indexOf', floor: 'ceil', ceil: 'floor', trunc: 'round', round: 'floor', min: 'max', max: 'min', toLowerCase: 'toUpperCase', toUpperCase: 'toLowerCase', trim: 'trimStart', trimStart: 'trim', trimEnd: 'trim', codePointAt: 'charCodeAt', fromCodePoint: 'fromCharCode', allSettled: 'all', all: 'allSettled', on: 'once', once: 'on', call: null, replace: 'replaceAll', replaceAll: 'replace', padStart: 'padEnd', padEnd: 'padStart', isInteger: 'isFinite', isFinite: 'isInteger', isSafeInteger: 'isInteger', lstat: 'stat', stat: 'lstat', keys: 'values', setTimeout: 'setImmediate' };
const DROP = new Set(['trim', 'toLowerCase', 'toUpperCase', 'filter', 'map', 'reverse', 'sort', 'concat', 'replace', 'replaceAll', 'flat', 'slice', 'substring', 'normalize', 'trimStart', 'trimEnd', 'toString', 'padStart', 'padEnd', 'finally', 'catch', 'unref', 'bind']);
function mutants(file) {
    const src = fs.readFileSync(path.join(REPO, file), 'utf8'), sf = ts.createSourceFile(file, src, ts.ScriptTarget.ES2022, true), ms = [];
    const add = (a, b, text, kind) => { if (src.slice(a, b) !== text) ms.push({ file, a, b, text, kind, line: sf.getLineAndCharacterOfPosition(a).line + 1 }); };
    const T = n => n.getText(sf);
    const visit = n => {
        if (ts.isTypeNode(n) && !ts.isExpressionWithTypeArguments(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isThrowStatement(n)) return;
        const s = n.getStart(sf), e = n.end;
        if (ts.isBinaryExpression(n)) {
            const op = n.operatorToken, o = T(op), strish = x => ts.isStringLiteralLike(x) || ts.isTemplateExpression(x) || ts.isBinaryExpression(x) && T(x.operatorToken) === '+' && (strish(x.left) || strish(x.right));
            for (const w of SW[o] || []) if (!(o === '+' && (strish(n.left) || strish(n.right)))) add(op.getStart(sf), op.end, w, 'op');
            if (o === '&&' || o === '||' || o === '??') { add(s, e, T(n.left), 'left'); add(s, e, T(n.right), 'right'); if (o !== '??') add(op.getStart(sf), op.end, o === '&&' ? '||' : '&&', 'logic'); }
            if (o === '+' && !ts.isBinaryExpression(n.parent)) { add(s, e, T(n.left), 'plus-left'); }
        }
        const cond = c => { const thr = n.thenStatement && /^\{?\s*throw/.test(T(n.thenStatement)); add(c.getStart(sf), c.end, 'false', thr ? 'guard' : 'cond'); if (!thr) add(c.getStart(sf), c.end, 'true', 'cond'); };
        if (ts.isIfStatement(n)) { cond(n.expression); if (n.elseStatement && !ts.isIfStatement(n.elseStatement)) add(n.thenStatement.end, n.elseStatement.end, '', 'else'); }
        if (ts.isConditionalExpression(n)) { add(s, e, T(n.whenTrue), 'tern'); add(s, e, T(n.whenFalse), 'tern'); }
        if (ts.isWhileStatement(n)) add(n.expression.getStart(sf), n.expression.end, 'false', 'while');
        if (ts.isPrefixUnaryExpression(n)) { if (n.operator === ts.SyntaxKind.ExclamationToken || n.operator === ts.SyntaxKind.MinusToken || n.operator === ts.SyntaxKind.TildeToken || n.operator === ts.SyntaxKind.PlusToken) add(s, e, T(n.operand), 'unary'); }
        if (ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n) && /^(\+\+|--)/.test(T(n))) { const t = T(n); if (!ts.isForStatement(n.parent)) { add(s, e, t.includes('++') ? t.replace('++', '--') : t.replace('--', '++'), 'incr'); if (ts.isExpressionStatement(n.parent)) 0; else add(s, e, T(n.operand), 'incr'); } }
        if (ts.isNumericLiteral(n) && !big(n)) { const v = Number(T(n)); if (Number.isFinite(v)) { add(s, e, String(v + 1), 'num'); add(s, e, v > 0 ? String(v - 1) : '-1', 'num'); } }
        if (ts.isStringLiteral(n) && !ts.isPropertyAssignment(n.parent) && !big(n) || ts.isNoSubstitutionTemplateLiteral(n) && !ts.isTaggedTemplateExpression(n.parent)) { const t = T(n); add(s, e, t.length > 2 ? "''" : "' '", 'str'); }
        if (ts.isStringLiteral(n) && ts.isPropertyAssignment(n.parent) && n.parent.initializer === n && !big(n)) add(s, e, n.text ? "''" : "' '", 'str');
        if (ts.isTemplateExpression(n)) { for (const q of [n.head, ...n.templateSpans.map(x => x.literal)]) { const raw = src.slice(q.getStart(sf) + 1, q.end - (q.kind === ts.SyntaxKind.TemplateTail ? 1 : 2)); if (raw) add(q.getStart(sf) + 1, q.end - (q.kind === ts.SyntaxKind.TemplateTail ? 1 : 2), '', 'tmpl'); } }
        if (n.kind === ts.SyntaxKind.TrueKeyword) add(s, e, 'false', 'bool'); if (n.kind === ts.SyntaxKind.FalseKeyword) add(s, e, 'true', 'bool');
        if (ts.isRegularExpressionLiteral(n)) {
            const t = T(n), i = t.lastIndexOf('/'), body = t.slice(1, i), fl = t.slice(i + 1); const put = (b, k) => { try { new RegExp(b, fl); add(s, e, '/' + (b || '(?:)') + '/' + fl, k); } catch {} };
            for (const f of fl) if (!/[vd]/.test(f)) { const nf = fl.replace(f, ''); try { new RegExp(body, nf); add(s, e, '/' + body + '/' + nf, 're-flag'); } catch {} }
            if (!fl.includes('i') && /[a-z]/i.test(body.replace(/\\./g, ''))) add(s, e, '/' + body + '/' + fl + 'i', 're-flag'); if (!fl.includes('g')) 0;
            if (/[\^$]/.test(body) && !fl.includes('m')) add(s, e, '/' + body + '/' + fl + 'm', 're-flag');
            if (body.length < 400) { let cls = false; for (let k = 0; k < body.length; k++) { const c = body[k]; if (c === '\\') { const m = /^\\(?:u\{[\da-f]+\}|u[\da-f]{4}|x[\da-f]{2}|p\{[^}]*\}|.)/i.exec(body.slice(k))[0]; put(body.slice(0, k) + body.slice(k + m.length), 're-drop'); k += m.length - 1; continue; } if (c === '[' && !cls) { cls = true; continue; } if (c === ']') { cls = false; continue; }
                if (c === '{') { const m = /^\{(\d+)(,?)(\d*)\}/.exec(body.slice(k)); if (m) { const r = body.slice(k + m[0].length), p = body.slice(0, k); put(`${p}{${+m[1] + 1}${m[2]}${m[3]}}${r}`, 're-num'); if (+m[1]) put(`${p}{${m[1] - 1}${m[2]}${m[3]}}${r}`, 're-num'); if (m[3]) { put(`${p}{${m[1]},${+m[3] + 1}}${r}`, 're-num'); put(`${p}{${m[1]},${m[3] - 1}}${r}`, 're-num'); } k += m[0].length - 1; continue; } }
                if (!cls && (c === '+' || c === '*')) put(body.slice(0, k) + (c === '+' ? '*' : '+') + body.slice(k + 1), 're-quant'); if (!'()|-'.includes(c) || cls) put(body.slice(0, k) + body.slice(k + 1), 're-drop'); } }
        }
        if (ts.isExpressionStatement(n) && !(ts.isBinaryExpression(n.expression) && false)) add(s, e, ';', 'stmt');
        if (ts.isReturnStatement(n) && !n.expression) add(s, e, ';', 'ret');
        if (ts.isReturnStatement(n) && n.expression && ts.isBlock(n.parent) && !ts.isFunctionLike(n.parent.parent)) add(s, e, ';', 'ret');
        if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) { add(s, e, ';', 'jump'); if (!ts.isCaseClause(n.parent)) add(s, e, ts.isBreakStatement(n) ? 'continue;' : 'break;', 'jump'); }
        if (ts.isAwaitExpression(n)) add(s, e, T(n.expression), 'await');
        if (ts.isSpreadElement(n) && ts.isArrayLiteralExpression(n.parent) && n.parent.elements.length > 1) dropEl(n, n.parent.elements);
        if (ts.isArrayLiteralExpression(n) && n.elements.length > 1 && n.elements.length <= 20) n.elements.forEach(x => !ts.isSpreadElement(x) && dropEl(x, n.elements));
        if (ts.isObjectLiteralExpression(n) && n.properties.length <= 30) n.properties.forEach(x => dropEl(x, n.properties));
        if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
            const x = n.expression, as = n.arguments || [];
            if (as.length > 1) dropEl(as[as.length - 1], as); else if (as.length === 1 && ts.isCallExpression(n) && ts.isPropertyAccessExpression(x) && !ts.isArrowFunction(as[0])) dropEl(as[0], as);
            if (as.length === 2 && T(as[0]) !== T(as[1])) add(as[0].getStart(sf), as[1].end, T(as[1]) + ', ' + T(as[0]), 'swap');
            const nm = ts.isPropertyAccessExpression(x) ? x.name : ts.isIdentifier(x) ? x : null;
            if (nm && METH[T(nm)] && Object.hasOwn(METH, T(nm))) add(nm.getStart(sf), nm.end, METH[T(nm)], 'meth');
            if (ts.isPropertyAccessExpression(x) && DROP.has(T(nm)) && ts.isCallExpression(n)) add(s, e, T(x.expression), 'unchain');
        }
        if (ts.isPropertyAccessExpression(n) && T(n.name) === 'length') { add(s, e, `(${T(n)} - 1)`, 'len'); }
        if (ts.isParameter(n) && n.initializer) { add(n.initializer.getStart(sf), n.initializer.end, 'undefined as any', 'default'); }
        ts.forEachChild(n, visit);
    };
    const big = n => { let p = n.parent; for (let i = 0; i < 3 && p; i++, p = p.parent) if (ts.isArrayLiteralExpression(p) && p.elements.length > 24 || ts.isObjectLiteralExpression(p) && p.properties.length > 40) return true; return false; };
    const dropEl = (x, l) => { const i = l.indexOf(x); if (i < l.length - 1) add(x.getStart(sf), l[i + 1].getStart(sf), '', 'drop'); else add(i ? l[i - 1].end : x.getStart(sf), x.end, '', 'drop'); };
    if (hoist) hoisted(sf, src, add); else visit(sf);
    const seen = new Set(); const base = js(src);
    return ms.filter(m => { const k = m.a + ' ' + m.b + ' ' + m.text; if (seen.has(k)) return false; seen.add(k); const r = js(src.slice(0, m.a) + m.text + src.slice(m.b)); if (!r || r === base) return false; return !seen.has(r) && seen.add(r); });
}
// --hoist: local variables that become shared between calls (kept from call to call, or set anew by every call)
function hoisted(sf, src, add) {
    let id = 0; const fnLike = n => ts.isFunctionLike(n) && n.body, T = n => n.getText(sf);
    const walk = (n, f) => { f(n); ts.forEachChild(n, c => walk(c, f)); };
    const owner = n => { let p = n.parent; while (p && !fnLike(p)) p = p.parent; return p; };
    walk(sf, l => {
        if (!ts.isVariableDeclarationList(l)) return; const fn = owner(l); if (!fn) return;
        const names = []; if (!l.declarations.every(d => ts.isIdentifier(d.name) && (names.push(T(d.name)), !d.initializer || !ts.isFunctionLike(d.initializer) && !ts.isClassExpression(d.initializer)))) return;
        const params = new Set(fn.parameters.map(p => T(p.name))), self = fn.name ? T(fn.name) : fn.parent && ts.isVariableDeclaration(fn.parent) ? T(fn.parent.name) : ''; let live = fn.modifiers?.some(m => m.kind === ts.SyntaxKind.AsyncKeyword) || !!fn.asteriskToken;
        const decls = {}; walk(fn, n => { if (n !== fn && fnLike(n) || ts.isAwaitExpression(n)) live = true; if (ts.isCallExpression(n) && (params.has(T(n.expression)) || T(n.expression) === self)) live = true; if ((ts.isVariableDeclaration(n) || ts.isParameter(n) || ts.isBindingElement(n)) && ts.isIdentifier(n.name)) decls[T(n.name)] = (decls[T(n.name)] || 0) + 1; });
        if (names.some(x => decls[x] > 1)) return;
        const forHead = ts.isForOfStatement(l.parent) || ts.isForInStatement(l.parent), forInit = ts.isForStatement(l.parent);
        const ref = x => `(globalThis as any).h_${sf.fileName.replace(/\W/g, '_')}_${id}_${x}`;
        if (live) {
            id++; const edits = []; const init = d => d.initializer ? edited(d.initializer) : 'undefined';
            const refs = []; walk(fn, n => { if (!ts.isIdentifier(n) || !names.includes(T(n))) return; const p = n.parent; if (ts.isPropertyAccessExpression(p) && p.name === n || ts.isPropertyAssignment(p) && p.name === n || ts.isBindingElement(p) && p.propertyName === n || ts.isVariableDeclaration(p) && p.name === n || ts.isMethodDeclaration(p) || ts.isTypeReferenceNode(p) || ts.isTypeQueryNode(p)) return; refs.push([n.getStart(sf), n.end, ts.isShorthandPropertyAssignment(p) && p.name === n ? `${T(n)}: ${ref(T(n))}` : ref(T(n))]); });
            const edited = n => { let a = n.getStart(sf), o = ''; for (const [x, y, t] of refs) if (x >= n.getStart(sf) && y <= n.end) { o += src.slice(a, x) + t; a = y; } return o + src.slice(a, n.end); };
            const lt = forHead ? ref(names[0]) : '(' + l.declarations.map(d => `${ref(T(d.name))} = ${init(d)}`).join(', ') + ')';
            const A = fn.body.getStart(sf), ls = l.getStart(sf), le = l.end; let a = A, o = '', put = false;
            for (const [x, y, t] of [...refs, [ls, le, ';;']].sort((p, q) => p[0] - q[0] || q[1] - p[1])) { if (x < A) continue; if (t === ';;') { o += src.slice(a, x) + (forHead || forInit ? lt : ';' + lt); a = y; put = true; continue; } if (x >= ls && y <= le) continue; o += src.slice(a, x) + t; a = y; }
            if (put) add(A, fn.body.end, o + src.slice(a, fn.body.end), 'hoist');
        }
        for (const d of l.declarations) { const v = d.initializer; if (!v || forHead) continue; if (ts.isArrayLiteralExpression(v) && !v.elements.length || ts.isObjectLiteralExpression(v) && !v.properties.length || ts.isRegularExpressionLiteral(v) || ts.isNewExpression(v) && /^(Map|Set|WeakMap|WeakSet|RegExp)$/.test(T(v.expression))) { id++; add(v.getStart(sf), v.end, `(${ref(T(d.name))} ??= ${T(v)})`, 'keep'); } }
    });
}
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const js = c => { try { return esbuild.transformSync(c, { loader: 'ts', format: 'cjs', minifyWhitespace: true, minifySyntax: true }).code; } catch { return null; } };
(async () => {
    const list = files.flatMap(f => mutants(f).map((m, i) => ({ ...m, id: f + '#' + i, checks: checksOf(f) })));
    if (gen) { const c = {}; for (const m of list) { const p = m.file.split('/')[1]; c[p] = (c[p] || 0) + 1; } console.log(c, list.length); return; }
    const done = new Set(); try { for (const l of fs.readFileSync(out, 'utf8').trim().split('\n')) { const j = JSON.parse(l); done.add(j.file + j.a + ' ' + j.b + j.text); } } catch {}
    const todo = list.filter((m, i) => i % every === 0 && !done.has(m.file + m.a + ' ' + m.b + m.text)); let next = 0, killed = 0, surv = 0, t0 = Date.now();
    const VC = `/tmp/mut/verif-${process.pid}`; fs.mkdirSync(VC, { recursive: true }); for (const d of ['run.js', 'lib', 'checks', 'known-findings.txt']) execFileSync('cp', ['-a', path.join(V, d), VC]);
    const one = (root, id) => new Promise(r => {
        const p = spawn('node', [VC + '/run.js', id, '--shards', '1'], { cwd: VC, env: { ...process.env, VERIF_REPO: root, VERIF_HANG_MS: '20000', VERIF_MAX_VIOLATIONS: '1', VERIF_BUDGET_MS: '200000' }, detached: true }); let o = ''; p.stdout.on('data', d => o += d); p.stderr.on('data', d => o += d);
        const k = setTimeout(() => { o += 'TIMEOUT'; try { process.kill(-p.pid, 'SIGKILL'); } catch {} }, 300000); p.on('close', c => { clearTimeout(k); r([c, o]); });
    });
    await Promise.all(Array.from({ length: jobs }, async (_, w) => {
        const root = `/tmp/mut/w${process.pid}-${w}`; fs.mkdirSync(root, { recursive: true }); execFileSync('cp', ['-a', REPO + '/packages', root]); if (fs.existsSync(REPO + '/node_modules')) fs.symlinkSync(REPO + '/node_modules', root + '/node_modules');
        for (let m; (m = todo[next++]);) {
            const p = path.join(root, m.file), src = fs.readFileSync(p, 'utf8'); fs.writeFileSync(p, src.slice(0, m.a) + m.text + src.slice(m.b));
            let by = null, last = '';
            for (const id of m.checks) { const [c, o] = await one(root, id); if (c !== 0) { by = id + ':' + c; last = c === 1 ? '' : o.slice(-300); break; } }
            fs.writeFileSync(p, src);
            by ? killed++ : surv++;
            fs.appendFileSync(out, JSON.stringify({ file: m.file, line: m.line, kind: m.kind, a: m.a, b: m.b, text: m.text, was: src.slice(m.a, m.b), by, last }) + '\n');
            if ((killed + surv) % 50 === 0) console.log(`${killed + surv}/${todo.length} killed ${killed} survived ${surv} ${((Date.now() - t0) / 1000) | 0}s`);
        }
        fs.rmSync(root, { recursive: true, force: true });
    }));
    fs.rmSync(VC, { recursive: true, force: true });
    console.log(`all: killed ${killed}, survived ${surv}`);
})();
