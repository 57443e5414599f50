// Type-level checks: client programs ("witnesses") type-checked against the current
// sources, and a structural normal form of the public API's types.
import path from 'node:path';
import fs from 'node:fs';
import { ts, REPO } from './program.mjs';

const OPTIONS = {
  strict: true, noEmit: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext,
  moduleResolution: ts.ModuleResolutionKind.Bundler, esModuleInterop: true, skipLibCheck: true, jsx: ts.JsxEmit.ReactJSX,
  resolveJsonModule: true, types: ['node'], typeRoots: [path.join(REPO, 'node_modules/@types')], rootDir: REPO,
};
export const CLIENT = path.join(REPO, 'src/__client__.ts');

// type-check `text` as a module next to src/index.ts
export function client(text) {
  const host = ts.createCompilerHost(OPTIONS, true);
  const get = host.getSourceFile.bind(host);
  host.getSourceFile = (f, o, ...r) => (path.resolve(f) === CLIENT ? ts.createSourceFile(f, text, o, true) : get(f, o, ...r));
  const ex = host.fileExists.bind(host); host.fileExists = (f) => path.resolve(f) === CLIENT || ex(f);
  const rd = host.readFile.bind(host); host.readFile = (f) => (path.resolve(f) === CLIENT ? text : rd(f));
  const prog = ts.createProgram([CLIENT], OPTIONS, host);
  const sf = prog.getSourceFile(CLIENT);
  const errors = [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)].map((d) => ({ pos: d.start || 0, code: d.code, text: ts.flattenDiagnosticMessageText(d.messageText, ' ') }));
  return { prog, sf, checker: prog.getTypeChecker(), errors };
}

// Witnesses: [{name, head?, good:[code], bad:[code]}], each compiled as a function body.
// A forbidden program must be rejected while its permitted twins compile.
export function judge(prelude, list) {
  let text = prelude; const spans = []; let n = 0;
  for (const w of list) for (const kind of ['good', 'bad']) for (const code of w[kind] || []) {
    const start = text.length;
    text += `\nexport async function w${n++}(c: Resend) {\n${w.head || ''}\n${code}\n}\n`;
    spans.push({ w, kind, code, start, end: text.length });
  }
  const r = client(text);
  for (const s of spans) s.errors = r.errors.filter((e) => e.pos >= s.start && e.pos < s.end);
  return { spans, loose: r.errors.filter((e) => e.pos < prelude.length), ...r };
}

// ---- structural normal form ------------------------------------------------
export function normal(checker, type0) {
  const F = ts.TypeFlags;
  const inSrc = (s) => (s.declarations || []).some((d) => d.getSourceFile().fileName.startsWith(path.join(REPO, 'src') + '/'));
  const go = (t, stack) => {
    if (t.flags & F.Any) return 'any';
    if (t.flags & F.Unknown) return 'unknown';
    if (t.flags & F.Never) return 'never';
    if (t.flags & F.Undefined) return 'undefined';
    if (t.flags & F.Void) return 'void';
    if (t.flags & F.Null) return 'null';
    if (t.flags & F.StringLiteral) return JSON.stringify(t.value);
    if (t.flags & F.NumberLiteral) return String(t.value);
    if (t.flags & F.BooleanLiteral) return t.intrinsicName;
    if (t.flags & F.String) return 'string';
    if (t.flags & F.Number) return 'number';
    if (t.flags & F.Boolean) return 'boolean';
    if (t.flags & F.BigInt) return 'bigint';
    if (t.flags & (F.TypeParameter | F.Conditional | F.IndexedAccess | F.Substitution)) {
      const b = checker.getBaseConstraintOfType(t);
      return b && b !== t && !stack.includes(t) ? { any: go(b, stack.concat([t])) } : '<any type>';
    }
    if (t.flags & F.TemplateLiteral) return { pattern: t.texts, of: t.types.map((x) => go(x, stack)) };
    if (t.flags & F.Index) return { keyof: go(t.type, stack) };
    if (t.flags & F.NonPrimitive) return 'object';
    if (t.flags & (F.ESSymbol | F.UniqueESSymbol)) return 'symbol';
    if (t.flags & F.Union) {
      let ms = t.types.map((x) => go(x, stack));
      if (ms.includes('true') && ms.includes('false')) ms = ms.filter((x) => x !== 'true' && x !== 'false').concat('boolean');
      return union(ms);
    }
    if (checker.isArrayType(t)) return { a: go(checker.getTypeArguments(t)[0], stack) };
    if (checker.isTupleType(t)) return { tuple: checker.getTypeArguments(t).map((x) => go(x, stack)) };
    if (t.flags & F.Object || t.flags & F.Intersection) {
      const sym = t.symbol || t.aliasSymbol;
      if (t.flags & F.Object && sym && !inSrc(sym) && sym.name !== '__type' && sym.name !== '__object') {
        if (stack.includes(t) || sym.name.startsWith('React')) return { x: sym.name };
        const args = (t.objectFlags & ts.ObjectFlags.Reference) ? checker.getTypeArguments(t).filter((x) => !(x.flags & F.TypeParameter)) : [];
        return args.length ? { x: sym.name, args: args.map((x) => go(x, stack.concat([t]))) } : { x: sym.name };
      }
      const at = stack.indexOf(t);
      if (at >= 0) return `(up ${stack.length - at})`;
      const st = stack.concat([t]);
      const o = {};
      for (const p of checker.getPropertiesOfType(t).slice().sort((a, b) => (a.name < b.name ? -1 : 1))) {
        if (p.declarations && p.declarations.some((d) => ts.getCombinedModifierFlags(d) & (ts.ModifierFlags.Private | ts.ModifierFlags.Protected))) continue;
        let pt = checker.getTypeOfSymbol(p);
        const opt = !!(p.flags & ts.SymbolFlags.Optional);
        let n = go(pt, st);
        if (opt) n = without(n, 'undefined');
        o[opt ? `${p.name}?` : p.name] = n;
      }
      const out = { o };
      for (const i of checker.getIndexInfosOfType(t)) out[`[${go(i.keyType, st)}]`] = go(i.type, st);
      const sigs = t.getCallSignatures();
      if (sigs.length) out.call = sigs.map((s) => signature(s, st));
      if (!Object.keys(o).length && Object.keys(out).length === 1) return {};
      return out;
    }
    return `?${checker.typeToString(t)}`;
  };
  const signature = (s, st) => ({ params: s.getParameters().map((p) => go(checker.getTypeOfSymbol(p), st)), ret: go(s.getReturnType(), st) });
  return go(type0, []);
}
const key = (n) => JSON.stringify(n);
function union(ms) {
  const m = new Map(); for (const x of ms) { if (x && x.u) for (const y of x.u) m.set(key(y), y); else m.set(key(x), x); }
  const l = [...m].sort((a, b) => (a[0] < b[0] ? -1 : 1)).map((q) => q[1]);
  return l.length === 1 ? l[0] : { u: l };
}
function without(n, w) {
  if (n === w) return 'never';
  if (n && n.u) return union(n.u.filter((x) => x !== w));
  return n;
}
// first difference, as text, or null
export function diff(want, got, at = '') {
  if (key(want) === key(got)) return null;
  const show = (x) => { const s = typeof x === 'string' ? x : key(x); return s.length > 90 ? `${s.slice(0, 90)}…` : s; };
  if (typeof want === 'object' && typeof got === 'object') {
    if (want.o && got.o) {
      for (const k of Object.keys(want.o)) if (!(k in got.o)) return `${at}: member ${k} ${k.endsWith('?') && k.slice(0, -1) in got.o ? 'is now required' : `${k}?` in got.o ? 'is now optional' : 'is gone'}`;
      for (const k of Object.keys(got.o)) if (!(k in want.o)) return `${at}: member ${k} is new`;
      for (const k of Object.keys(want.o)) { const d = diff(want.o[k], got.o[k], `${at}.${k.replace(/\?$/, '')}`); if (d) return d; }
    }
    if (want.a && got.a) return diff(want.a, got.a, `${at}[]`);
    if (want.u && got.u) {
      const g = new Set(got.u.map(key)); const w = new Set(want.u.map(key));
      const lost = want.u.filter((x) => !g.has(key(x))); const neu = got.u.filter((x) => !w.has(key(x)));
      if (lost.length === 1 && neu.length === 1) { const d = diff(lost[0], neu[0], at); if (d) return d; }
      return `${at}: ${lost.length ? `no longer ${lost.map(show).join(' | ')}` : ''}${lost.length && neu.length ? '; ' : ''}${neu.length ? `newly ${neu.map(show).join(' | ')}` : ''}`;
    }
  }
  return `${at}: ${show(got)} instead of ${show(want)}`;
}
