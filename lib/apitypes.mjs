// Structural types of every public operation, of the constructor and of the exports.
import path from 'node:path';
import { ts, REPO } from './program.mjs';
import { client, normal } from './types.mjs';

const EM = "{ from: 'a', to: 'b', subject: 's', html: 'x' }";
// calls whose result type depends on an argument
export const EXPRS = [
  ...['sent', 'delivered', 'opened', 'clicked', 'bounced', 'complained', 'unsubscribed', 'suppressed'].map((t) => `c.broadcasts.recipients('b', { type: '${t}' })`),
  "c.broadcasts.recipients('b', { type: null! as 'opened' | 'clicked' })", "c.broadcasts.recipients('b', null! as api.ListBroadcastRecipientsOptions)",
  ...['send', 'create'].flatMap((m) => ['', ', {}', ", { batchValidation: 'strict' }", ", { batchValidation: 'permissive' }", ", { idempotencyKey: 'k' }", ", { idempotencyKey: 'k', batchValidation: undefined }", ", null! as { batchValidation?: 'permissive' }", ", null! as { batchValidation: 'strict' | 'permissive' }", ", null! as api.CreateBatchRequestOptions"].map((o) => `c.batch.${m}([${EM}]${o})`)),
  ...['get', 'post', 'put', 'patch', 'delete'].map((m) => `c.${m}<{ a: 'literal' }>('/x'${/^p/.test(m) ? ', {}' : ''})`),
  "c.templates.create({ name: 'n', html: 'x' })", "c.templates.create({ name: 'n', html: 'x' }).publish()", "c.templates.duplicate('i')", "c.templates.duplicate('i').publish()",
];
export function apiTypes(ops) {
  const src = `import * as api from './index';\nexport declare const c: api.Resend;\nexport type E = typeof api;\nexport async function calls() {\nreturn [\n${EXPRS.map((e) => `await ${e}`).join(',\n')}\n];\n}\n`;
  const { checker, sf, prog } = client(src);
  const F = ts.TypeFlags;
  let clientT = null;
  for (const st of sf.statements) if (ts.isVariableStatement(st)) clientT = checker.getTypeAtLocation(st.declarationList.declarations[0]);
  const sigs = (sl) => sl.map((s) => ({
    params: s.getParameters().map((p) => {
      const d = p.valueDeclaration; const optional = !!(d && (d.questionToken || d.initializer)) || !!(p.flags & ts.SymbolFlags.Optional);
      let t = normal(checker, instantiate(checker, checker.getTypeOfSymbol(p)));
      if (optional && t && t.u) { const u = t.u.filter((x) => x !== 'undefined'); t = u.length === 1 ? u[0] : { u }; }
      return { name: p.name, optional, type: t };
    }),
    ret: normal(checker, instantiate(checker, s.getReturnType())),
  }));
  const out = { ops: {}, ctor: null, exports: {}, calls: {} };
  const fn = sf.statements.find((x) => ts.isFunctionDeclaration(x));
  fn.body.statements[0].expression.elements.forEach((e, i) => { out.calls[EXPRS[i]] = normal(checker, checker.getTypeAtLocation(e)); });
  for (const op of ops) {
    let t = clientT;
    for (const part of op.split('.')) { const s = t && checker.getPropertyOfType(t, part); t = s ? checker.getTypeOfSymbol(s) : null; }
    if (t) out.ops[op] = sigs(t.getCallSignatures());
  }
  const index = prog.getSourceFile(path.join(REPO, 'src/index.ts'));
  const mod = checker.getSymbolAtLocation(index);
  for (const s0 of checker.getExportsOfModule(mod)) {
    const s = s0.flags & ts.SymbolFlags.Alias ? checker.getAliasedSymbol(s0) : s0;
    if (s.name === 'Resend' || s0.name === 'Resend') {
      const ct = checker.getTypeOfSymbol(s);
      out.ctor = { params: sigs(ct.getConstructSignatures()).map((q) => ({ params: q.params })) };
      continue;
    }
    if (!(s.flags & (ts.SymbolFlags.Interface | ts.SymbolFlags.TypeAlias))) { out.exports[s0.name] = 'value'; continue; }
    out.exports[s0.name] = normal(checker, checker.getDeclaredTypeOfSymbol(s));
  }
  return out;
}
// generic parameters print by their constraint where they stand alone
function instantiate(checker, t) { return t; }
