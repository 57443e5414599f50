// Running one public operation abstractly, under a case (a restriction of kinds).
import path from 'node:path';
import { ts, REPO, loadProgram, isRepoNode } from './program.mjs';
import { C, UNDEF, TOP, State, join, union, vkey, ANYKINDS } from './domain.mjs';
import { X, root, prop, elem, bare } from './terms.mjs';
import { Interp, Budget } from './engine.mjs';

const S = ts.SyntaxKind;
let PROG = null;
export function program() {
  if (!PROG) {
    PROG = loadProgram();
    const rf = PROG.files.find((f) => f.fileName === path.join(REPO, 'src/resend.ts'));
    PROG.index = PROG.files.find((f) => f.fileName === path.join(REPO, 'src/index.ts'));
    if (!PROG.index) throw new Error('anchor missing: src/index.ts');
    const sym = PROG.checker.getSymbolAtLocation(PROG.index);
    let cls = PROG.checker.getExportsOfModule(sym).find((s) => s.name === 'Resend');
    if (cls && cls.flags & ts.SymbolFlags.Alias) cls = PROG.checker.getAliasedSymbol(cls);
    if (!cls || !cls.valueDeclaration) throw new Error('anchor missing: exported class Resend');
    PROG.client = cls.valueDeclaration;
    PROG.clientType = PROG.checker.getDeclaredTypeOfSymbol(cls);
    void rf;
  }
  return PROG;
}

// Kinds a fresh client is analysed with unless a case says otherwise.
export const BASE_ENV = {
  $key: ['str'], $opts: ['undef'], process: ['obj'], 'process.env': ['obj'],
  'process.env.RESEND_BASE_URL': ['absent'], 'process.env.RESEND_USER_AGENT': ['absent'], 'process.env.RESEND_API_KEY': ['absent'],
};
const caseOf = (kinds) => {
  const m = new Map();
  for (const [k, v] of Object.entries({ ...BASE_ENV, ...kinds })) m.set(k, v instanceof Set ? v : new Set(v));
  for (const [k, v] of [...m]) {
    const q = v.size === 1 && v.has('true') && /^eq\((.*?),("(?:[^"\\]|\\.)*")\)$/.exec(k);
    if (q && (!m.has(q[1]) || m.get(q[1]).has('str'))) m.set(q[1], new Set([`lit:${JSON.parse(q[2])}`]));
  }
  return m;
};
export const isSetupKey = (k) => /^(?:eq\()?(process|\$key|\$opts|\$key2)/.test(k);
const setupCache = new Map();
const skey = (kinds) => Object.entries(kinds).filter(([k]) => isSetupKey(k)).map(([k, v]) => `${k}=${[...v].sort()}`).sort().join(';');

function envHook(I) {
  const base = I.defKinds.bind(I);
  I.defKinds = (x) => {
    if (x.op === 'prop' && x.base.k === 'process.env') return new Set(['absent', 'estr', 'str']);
    if (x.k === 'process.env') return new Set(['obj']);
    return base(x);
  };
}

// Module initialisation and client construction.
export function setup(kinds = {}, opt = {}) {
  const key = skey(kinds) + (opt.construct === false ? '|nc' : '') + (opt.args ? `|${opt.args}` : '');
  const hit = setupCache.get(key);
  if (hit) return hit;
  const P = program();
  const I = new Interp(P, { caseKinds: caseOf(kinds) });
  envHook(I);
  const ctor = P.client.members.find((m) => m.kind === S.Constructor);
  if (ctor) {
    ctor.parameters.forEach((p, i) => {
      const t = P.checker.getTypeAtLocation(p);
      I.rootTypes.set(i === 0 ? '$key' : '$opts', [t]);
    });
  }
  I.importing = true;
  for (const f of P.files) { if (!I.st) break; I.initModule(f); }
  I.importing = false;
  const modThrows = I.handlers[0].list.splice(0);
  const res = { I, modThrows, modState: I.st && I.st.clone(), client: null, throws: [] };
  if (I.st && opt.construct !== false) {
    const cls = I.mkClass(P.client, I.globalEnv);
    const args = opt.args === 'none' ? [] : opt.args === 'key' ? [[root('$key')]] : [[root('$key')], [root('$opts')]];
    const r = I.construct(cls, args, P.client);
    res.client = I.st && r;
    res.throws = I.handlers[0].list.splice(0);
  }
  res.st = I.st && I.st.clone();
  res.n = I.n;
  res.decisions = new Map(I.decisions);
  setupCache.set(key, res);
  return res;
}

export function paramTypes(sigDecls, checker) {
  const out = [];
  for (const d of sigDecls) d.parameters.forEach((p, i) => {
    if (p.name.kind === S.Identifier && p.name.text === 'this') return;
    const t = checker.getTypeAtLocation(p);
    out[i] = out[i] || { types: [], optional: false, name: p.name.kind === S.Identifier ? p.name.text : `arg${i}` };
    out[i].types.push(t);
    if (p.questionToken || p.initializer || p.dotDotDotToken) out[i].optional = true;
  });
  return out;
}

// Declarations visible to callers of `path` (e.g. "contacts.topics.list") from the client type.
export function resolveOp(opPath) {
  const P = program(); const checker = P.checker;
  let t = P.clientType; let decls = null; let owner = null;
  const parts = opPath.split('.');
  for (let i = 0; i < parts.length; i++) {
    const s = checker.getPropertyOfType(t, parts[i]);
    if (!s) return null;
    owner = t;
    decls = s.declarations;
    t = checker.getTypeOfSymbolAtLocation(s, P.client);
  }
  const sigs = t.getCallSignatures();
  if (!sigs.length) return null;
  const sd = sigs.map((g) => g.declaration).filter((d) => d && isRepoNode(d));
  const impl = decls.find((d) => d.body) || decls[0];
  return { path: opPath, sigs: sd, impl, owner: owner.symbol && owner.symbol.name, returns: sigs.map((g) => g.getReturnType()) };
}

const opCache = new Map();
export function opInfo(opPath) {
  if (!opCache.has(opPath)) {
    const o = resolveOp(opPath);
    if (!o) throw new Error(`anchor missing: operation ${opPath}`);
    o.params = paramTypes(o.sigs.length ? o.sigs : [o.impl], program().checker);
    opCache.set(opPath, o);
  }
  return opCache.get(opPath);
}

export let RUNS = 0;
export const STATS = { ops: new Set(), runs: 0, fns: new Set(), calls: 0, tops: new Set() };

// Run `client.<opPath>(...args)` and await it.
export function runOp(opPath, kinds = {}, opt = {}) {
  const P = program();
  const base = setup(kinds, opt.setup);
  const info = opInfo(opPath);
  const I = new Interp(P, { caseKinds: caseOf(kinds) });
  envHook(I);
  I.globalEnv = base.I.globalEnv; I.modInit = new Set(base.I.modInit);
  I.n = base.n; I.setupMark = base.n; I.setupCells = new Set(base.st ? base.st.cells.keys() : []);
  for (const [k, v] of base.I.rootTypes) I.rootTypes.set(k, v);
  const out = { op: opPath, I, info, base, ok: null, rejects: [], effects: [], kinds };
  if (!base.st || !base.client) { out.noClient = true; return out; }
  I.st = base.st.clone();
  I.st.eff = []; I.st.nfetch = 0;
  const pfx = opt.prefix || '$';
  const nargs = opt.nargs === undefined ? info.params.length : opt.nargs;
  const args = [];
  info.params.forEach((p, i) => { I.rootTypes.set(`${pfx}${i}`, p.types.map((t) => t)); });
  // optional parameters may be left out
  const defRoot = I.defKinds;
  I.defKinds = (x) => {
    const r = defRoot(x);
    if (x.op === 'root' && x.k.startsWith(pfx)) { const p = info.params[Number(x.k.slice(pfx.length))]; if (p && p.optional && !r.has('undef')) return new Set([...r, 'undef']); }
    return r;
  };
  for (let i = 0; i < nargs; i++) args.push([root(`${pfx}${i}`)]);
  for (const x of opt.feasible || []) if (x.op === 'prop' && I.typesOf(x.base).length && !I.constituents(x.base, true).length) { out.infeasible = true; return out; }
  if (opt.only) return out;
  I.handlers = [{ list: [] }];
  if (opt.before) opt.before(I, base.client);
  if (opt.onAwait) I.onAwait = () => opt.onAwait(I);
  I.loops = [];
  try {
    let recv = opt.client ? opt.client(I) : base.client;
    if (!I.st || !recv) { out.noClient = true; recv = null; }
    if (!recv) throw new Budget('no client');
    const parts = opPath.split('.');
    for (const seg of parts.slice(0, -1)) recv = I.getProp(recv, seg, P.client);
    let callee = I.getProp(recv, parts[parts.length - 1], P.client, true);
    if (opt.call) out.value = opt.call(I, callee, recv, args);
    else {
      let v = I.callVal(callee, recv, args, info.impl, 0);
      if (I.st) v = I.awaitVal(v, 0);
      out.value = v;
    }
    if (I.st && out.value) out.mvalue = I.mat(out.value);
  } catch (e) {
    if (!(e instanceof Budget)) throw e;
    out.budget = true; I.st = null;
  }
  out.ok = I.st ? { st: I.st, v: out.value, m: out.mvalue } : null;
  out.rejects = I.handlers[0].list.map((t) => { const s = I.st; I.st = t.st; const m = I.mat(t.v); I.st = s; return { st: t.st, v: t.v, m }; });
  I.st = new State(); // later questions about inputs are answered under the case alone
  out.decisions = I.decisions; out.tops = I.tops;
  STATS.runs++; STATS.ops.add(opPath); for (const f of I.fnSeen) STATS.fns.add(f); STATS.calls += I.callSites; for (const t of I.tops) STATS.tops.add(t);
  return out;
}
