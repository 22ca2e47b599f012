// Facts about the VS Code extension from its syntax trees: document selectors, request handlers, client calls.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs'), path = require('path');
const root = process.argv[2];
const files = [];
(function walk (d) {
  for (const f of fs.readdirSync(d).sort()) {
    const p = path.join(d, f);
    if (f === 'node_modules' || f === 'dist') continue;
    if (fs.statSync(p).isDirectory()) walk(p);
    else if (/\.ts$/.test(f) && !/\.d\.ts$/.test(f)) files.push(p);
  }
})(path.join(root, 'src'));
const K = ts.SyntaxKind;
const decls = new Map(); // name -> initialiser / function, const or function declarations of all files
const assigned = new Set();
const trees = files.map(f => ts.createSourceFile(f, fs.readFileSync(f, 'utf8'), ts.ScriptTarget.Latest, true));
const each = (n, f) => { f(n); ts.forEachChild(n, c => each(c, f)); };
const ambiguous = new Set();
const note = (k, v) => { if (decls.has(k)) ambiguous.add(k); decls.set(k, v); };
for (const t of trees) {
  each(t, n => {
    if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.initializer) note(n.name.text, n.initializer);
    if (ts.isVariableDeclaration(n) && ts.isObjectBindingPattern(n.name) && n.initializer) {
      for (const e of n.name.elements) if (ts.isIdentifier(e.name)) note(e.name.text, { bind: n.initializer, prop: (e.propertyName || e.name).text });
    }
    if (ts.isFunctionDeclaration(n) && n.name) note(n.name.text, n);
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isIdentifier(n.left)) assigned.add(n.left.text);
  });
}
const strip = n => { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(n)) || ts.isAwaitExpression(n))) n = n.expression; return n; };
function res (n) { // follow single-assignment variables
  n = strip(n);
  let k = 0;
  while (n && ts.isIdentifier && n.kind === K.Identifier && decls.has(n.text) && !assigned.has(n.text) && !ambiguous.has(n.text) && k++ < 20) {
    const d = decls.get(n.text);
    if (d.bind) return d;
    n = strip(d);
  }
  return n;
}
function str (n) {
  n = res(n);
  if (!n || n.bind) return null;
  if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
  if (ts.isNewExpression(n) && n.arguments && n.arguments.length) return str(n.arguments[0]); // new RequestType('...')
  if (ts.isPropertyAccessExpression(n)) {
    const o = res(n.expression);
    if (o && !o.bind && ts.isObjectLiteralExpression(o)) {
      for (const p of o.properties) if (ts.isPropertyAssignment(p) && p.name.text === n.name.text) return str(p.initializer);
    }
  }
  return null;
}
const line = n => { const s = n.getSourceFile(); return [path.relative(path.dirname(root), s.fileName), s.getLineAndCharacterOfPosition(n.getStart()).line + 1]; };
const out = { files: files.map(f => path.relative(path.dirname(root), f)), selectors: [], requests: [], notifications: [], started: 0, stopped: 0, clients: 0 };
const isFn = n => n && !n.bind && (ts.isArrowFunction(n) || ts.isFunctionExpression(n) || ts.isFunctionDeclaration(n));
// does the end of the statement list stay unreachable?
function closed (b) {
  const s = b.statements[b.statements.length - 1];
  return s !== undefined && closes(s);
}
function closes (s) {
  if (ts.isReturnStatement(s) || ts.isThrowStatement(s)) return true;
  if (ts.isBlock(s)) return closed(s);
  if (ts.isIfStatement(s)) return !!s.elseStatement && closes(s.thenStatement) && closes(s.elseStatement);
  if (ts.isTryStatement(s)) return (s.finallyBlock && closed(s.finallyBlock)) || (closed(s.tryBlock) && (!s.catchClause || closed(s.catchClause.block)));
  return false;
}
function shape (n) {
  n = res(n);
  if (!n) return { kind: 'none' };
  if (n.bind) return { kind: 'unknown' };
  if (ts.isObjectLiteralExpression(n)) return { kind: 'object', keys: n.properties.map(p => p.name ? p.name.text : '...') };
  if (n.kind === K.NullKeyword || (n.kind === K.Identifier && n.text === 'undefined') || ts.isVoidExpression(n)) return { kind: 'none' };
  if (ts.isStringLiteral(n) || ts.isNumericLiteral(n) || n.kind === K.TrueKeyword || n.kind === K.FalseKeyword || ts.isArrayLiteralExpression(n)) return { kind: 'other' };
  if (ts.isConditionalExpression(n)) return { kind: 'cond', of: [shape(n.whenTrue), shape(n.whenFalse)] };
  return { kind: 'unknown' };
}
function handler (fn) {
  const h = { params: [], escapes: false, returns: [], flows: [], where: line(fn) };
  const names = new Map(); // local name -> path below the parameter
  const p = fn.parameters[0];
  if (p) {
    if (ts.isIdentifier(p.name)) names.set(p.name.text, '');
    else if (ts.isObjectBindingPattern(p.name)) for (const e of p.name.elements) { const k = (e.propertyName || e.name).text; if (e.dotDotDotToken) h.escapes = true; else { names.set(e.name.text, k); h.params.push(k); } }
  }
  const of = n => {
    n = strip(n);
    if (!n) return null;
    if (ts.isIdentifier(n)) return names.has(n.text) ? names.get(n.text) : null;
    if (ts.isPropertyAccessExpression(n)) { const b = of(n.expression); return b === '' ? n.name.text : null; }
    if (ts.isElementAccessExpression(n)) { const b = of(n.expression); const s = str(n.argumentExpression); return b === '' && s ? s : null; }
    if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'String') return of(n.arguments[0]);
    return null;
  };
  const body = fn.body;
  for (let round = 0; round < 3; round++) {
    each(body, n => {
      if (!ts.isVariableDeclaration(n) || !n.initializer) return;
      const b = of(n.initializer);
      if (b === null) return;
      if (ts.isIdentifier(n.name)) names.set(n.name.text, b);
      else if (b === '' && ts.isObjectBindingPattern(n.name)) for (const e of n.name.elements) if (ts.isIdentifier(e.name)) { const k = (e.propertyName || e.name).text; names.set(e.name.text, k); if (!h.params.includes(k)) h.params.push(k); }
    });
  }
  each(body, n => {
    const k = ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n) ? of(n) : null;
    if (k && !h.params.includes(k)) h.params.push(k);
    if (ts.isIdentifier(n) && names.get(n.text) === '') {
      const q = n.parent;
      const used = (ts.isPropertyAccessExpression(q) && q.expression === n) || (ts.isPropertyAccessExpression(q) && q.name === n) || (ts.isElementAccessExpression(q) && q.expression === n) || (ts.isVariableDeclaration(q)) || ts.isParameter(q);
      if (!used) h.escapes = true;
    }
    if (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) {
      const v = ts.isPropertyAssignment(n) ? n.initializer : n.name;
      let lit = strip(v);
      h.flows.push({ name: n.name.text, from: of(v), literal: ts.isPropertyAssignment(n) ? str(v) : null, where: line(n) });
    }
  });
  if (!ts.isBlock(body)) h.returns.push(shape(body));
  else {
    (function go (n) {
      if (isFn(n)) return;
      if (ts.isReturnStatement(n)) { h.returns.push(Object.assign(shape(n.expression), { where: line(n) })); return; }
      ts.forEachChild(n, go);
    })(body);
    if (!closed(body)) h.returns.push({ kind: 'none', where: line(fn) });
  }
  return h;
}
for (const t of trees) {
  each(t, n => {
    if (ts.isPropertyAssignment(n) && n.name.text === 'documentSelector') {
      const a = res(n.initializer);
      const l = [];
      let exact = false;
      if (a && !a.bind && ts.isArrayLiteralExpression(a)) {
        exact = true;
        for (const e0 of a.elements) {
          const e = res(e0);
          const s = str(e);
          if (s !== null) { l.push({ language: s }); continue; }
          if (e && !e.bind && ts.isObjectLiteralExpression(e)) {
            const o = {};
            for (const p of e.properties) if (p.name && ts.isPropertyAssignment(p)) o[p.name.text] = str(p.initializer); else exact = false;
            l.push(o);
          } else exact = false;
        }
      }
      out.selectors.push({ filters: l, exact, where: line(n) });
    }
    if (ts.isNewExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'LanguageClient') out.clients++;
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
      const m = n.expression.name.text;
      if (m === 'start') out.started++;
      if (m === 'stop') out.stopped++;
      if (m === 'onRequest' || m === 'onNotification') {
        const fn = res(n.arguments[1]);
        out[m === 'onRequest' ? 'requests' : 'notifications'].push({ method: str(n.arguments[0]), handler: isFn(fn) ? handler(fn) : null, where: line(n) });
      }
    }
  });
}
console.log(JSON.stringify(out, null, 1));
