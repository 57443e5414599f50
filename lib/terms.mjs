// Terms (provenance) and the kind partition: what is known, from declared types
// and from the branches taken, about each term.
import { ts, isRepoNode } from './program.mjs';
import { ANYKINDS, FALSY, JSONKINDS, NULLISH, typeofKind, vkey } from './domain.mjs';

const LIBCLASSES = new Set(['Headers', 'FormData', 'Blob', 'File', 'Buffer', 'Uint8Array', 'ArrayBuffer', 'Date',
  'URLSearchParams', 'URL', 'Promise', 'Map', 'Set', 'ReadableStream', 'AbortSignal', 'RegExp', 'Error']);

export const X = (op, k, extra) => ({ t: 'x', op, k, ...extra });
export const root = (name) => X('root', name);
const safe = /^[A-Za-z_$][\w$]*$/;
export const propKey = (bk, name) => (safe.test(name) ? `${bk}.${name}` : `${bk}[${JSON.stringify(name)}]`);
export const bare = (x) => (x.rk ? { ...x, rk: undefined } : x);
export const prop = (base, name) => X('prop', propKey(base.k, name), { base: bare(base), name });
// `other`: another element than the current one; a number: that very element
export const elem = (base, other) => X('elem', `${base.k}[${other === undefined || other === false ? '*' : other === true ? '~' : other}]`, { base: bare(base), other: other === undefined || other === false ? false : other });
export const anyElem = (k) => k.replace(/\[(~|\d+)\]/g, '[*]');
export const bool = (k, extra) => X('bool', k, extra);
export const call = (name, args, res, extra) => X('call', `${name}(${args.map(vkey).join(',')})`, { name, args, res, ...extra });
export function pred(term, set) {
  term = bare(term);
  return X('pred', `(${term.k} in ${[...set].sort().join('/')})`, { term, set: new Set(set) });
}
export function not(x) {
  return X('not', `!${x.k}`, { x });
}
export const isX = (a, op) => a.t === 'x' && (!op || a.op === op);

// Does the term's derivation mention a root satisfying f?
export function mentions(a, f) {
  if (a.t === 'x') {
    if (f(a)) return true;
    if (a.base && mentions(a.base, f)) return true;
    if (a.term && mentions(a.term, f)) return true;
    if (a.x && mentions(a.x, f)) return true;
    if (a.args) for (const v of a.args) for (const b of v) if (mentions(b, f)) return true;
    return false;
  }
  switch (a.t) {
    case 's': return a.parts.some((p) => typeof p !== 'string' && mentions(p, f));
    case 'qs': case 'hdr': case 'usp': case 'form': case 'map': case 'set':
      return (a.entries || a.ops).some((e) => vmentions(e.name || [], f) || vmentions(e.value || [], f) || (e.src && e.srcT && mentions(e.srcT, f)));
    case 'json': return vmentions(a.tree, f);
    case 'tup': return a.items.some((v) => vmentions(v, f));
    case 'o': return [...a.m.values()].some((e) => vmentions(e.v, f)) || a.rest.some((r) => r.srcT && mentions(r.srcT, f));
    case 'a': return a.segs.some((s) => vmentions(s.v, f));
    case 'promise': return vmentions(a.ok, f) || vmentions(a.err, f);
    case 'exto': return a.args.some((v) => vmentions(v, f));
    default: return false;
  }
}
export const vmentions = (v, f) => v.some((a) => mentions(a, f));
export function rootOf(x) {
  while (x && x.t === 'x' && x.base && x.op !== 'json' && !(x.op === 'call' && x.res === 'json')) x = x.base;
  return x;
}

// Structural rewrite of terms inside a (heap-free) value.
export function mapVal(v, f) {
  let ch = false;
  const out = v.map((a) => { const b = mapAtom(a, f); if (b !== a) ch = true; return b; });
  return ch ? out : v;
}
function mapAtom(a, f) {
  const g = (v) => mapVal(v, f);
  switch (a.t) {
    case 'x': {
      const r = f(a);
      if (r) return a.rk ? { ...r, rk: a.rk } : r;
      if (a.op === 'prop') { const b = mapAtom(a.base, f); return b === a.base ? a : { ...prop(b, a.name), rk: a.rk }; }
      if (a.op === 'elem') { const b = mapAtom(a.base, f); return b === a.base ? a : { ...elem(b, a.other), rk: a.rk }; }
      if (a.op === 'call') {
        const args = a.args.map(g);
        return args.every((x, i) => x === a.args[i]) ? a : { ...call(a.name, args, a.res), rk: a.rk, names: a.names };
      }
      if (a.op === 'pred') { const b = mapAtom(a.term, f); return b === a.term ? a : pred(b, a.set); }
      if (a.op === 'not') { const b = mapAtom(a.x, f); return b === a.x ? a : not(b); }
      if (a.base) { const b = mapAtom(a.base, f); return b === a.base ? a : { ...a, base: b, k: a.k.split(a.base.k).join(b.k) }; }
      return a;
    }
    case 's': {
      const parts = a.parts.map((p) => (typeof p === 'string' ? p : mapAtom(p, f)));
      return parts.every((p, i) => p === a.parts[i]) ? a : { t: 's', parts };
    }
    case 'qs': { const entries = mapOps(a.entries, f); return entries === a.entries ? a : { ...a, entries }; }
    case 'hdr': case 'usp': case 'form': case 'map': case 'set': { const ops = mapOps(a.ops, f); return ops === a.ops ? a : { ...a, ops }; }
    case 'json': { const tree = g(a.tree); return tree === a.tree ? a : { ...a, tree }; }
    case 'tup': { const items = a.items.map(g); return items.every((x, i) => x === a.items[i]) ? a : { ...a, items }; }
    case 'o': {
      let ch = false; const m = new Map();
      for (const [k, e] of a.m) { const v = g(e.v); if (v !== e.v) ch = true; m.set(k, v === e.v ? e : { ...e, v }); }
      return ch ? { ...a, m } : a;
    }
    case 'a': {
      let ch = false;
      const segs = a.segs.map((s) => { const v = g(s.v); if (v === s.v) return s; ch = true; return { ...s, v }; });
      return ch ? { ...a, segs } : a;
    }
    default: return a;
  }
}
export function mapOps(ops, f) {
  let ch = false;
  const out = ops.map((e) => {
    const name = e.name && mapVal(e.name, f); const value = e.value && mapVal(e.value, f);
    if (name === e.name && value === e.value) return e;
    ch = true; return { ...e, name, value };
  });
  return ch ? out : ops;
}

export const BOOL = new Set(['true', 'false']);
export const STRK = new Set(['estr', 'str']);
export const NUMK = new Set(['zero', 'num']);

export class Types {
  constructor(P) {
    this.P = P; this.checker = P.checker; this.memo = new Map(); this.fl = new Map();
  }
  flatten(t) {
    let r = this.fl.get(t);
    if (r) return r;
    const c = t.flags & ts.TypeFlags.TypeParameter || t.flags & ts.TypeFlags.IndexedAccess || t.flags & ts.TypeFlags.Conditional
      ? this.checker.getBaseConstraintOfType(t) : null;
    if (c && c !== t) r = this.flatten(c);
    else if (t.isUnion()) r = t.types.flatMap((u) => this.flatten(u));
    else r = [t];
    this.fl.set(t, r);
    return r;
  }
  kindsOf(t) {
    let r = this.memo.get(t);
    if (r) return r;
    r = new Set();
    for (const u of this.flatten(t)) for (const k of this.kinds1(u)) r.add(k);
    this.memo.set(t, r);
    return r;
  }
  kinds1(t) {
    const F = ts.TypeFlags; const f = t.flags;
    if (f & (F.Any | F.Unknown | F.TypeParameter | F.NonPrimitive)) return ANYKINDS.concat('fn');
    if (f & F.Never) return [];
    if (f & F.StringLiteral) return t.value === '' ? ['estr'] : [`lit:${t.value}`];
    if (f & F.TemplateLiteral) return ['estr', 'str'];
    if (f & F.StringLike) return ['estr', 'str'];
    if (f & F.NumberLiteral) return t.value === 0 ? ['zero'] : ['num'];
    if (f & (F.NumberLike | F.BigIntLike)) return ['zero', 'num'];
    if (f & F.BooleanLiteral) return [t.intrinsicName === 'true' ? 'true' : 'false'];
    if (f & F.BooleanLike) return ['true', 'false'];
    if (f & (F.Undefined | F.Void)) return ['undef'];
    if (f & F.Null) return ['null'];
    if (f & F.ESSymbolLike) return ['num'];
    if (t.isIntersection && t.isIntersection()) {
      const ks = t.types.map((u) => this.kindsOf(u));
      const prim = ks.find((s) => ![...s].some((k) => k === 'obj' || k.startsWith('inst:')));
      if (prim) return [...prim];
      return ['obj'];
    }
    if (this.checker.isArrayType(t) || this.checker.isTupleType(t)) return ['earr', 'arr'];
    const name = t.symbol && t.symbol.name;
    if (name && LIBCLASSES.has(name) && !(t.symbol.declarations || []).some(isRepoNode)) return [`inst:${name}`];
    if (t.getCallSignatures().length) return ['fn'];
    return ['obj'];
  }
  propOf(t, name) {
    const s = this.checker.getPropertyOfType(t, name);
    if (s) {
      const ty = this.checker.getTypeOfSymbol(s);
      return { ty, optional: !!(s.flags & ts.SymbolFlags.Optional), decls: s.declarations || [], sym: s };
    }
    const idx = t.getStringIndexType();
    if (idx) return { ty: idx, optional: true, decls: [], index: true };
    return null;
  }
  isAny(t) { return !!(t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown)); }
}

// Kind operations on the interpreter (needs current state for refinements).
export const KindOps = {
  typesOf(x) {
    const r = this.rootTypes.get(x.k);
    if (r) return r;
    if (x.ty) return x.ty;
    if (x.op === 'prop') {
      const base = this.constituents(x.base);
      if (base.length) {
        const out = [];
        for (const t of base) {
          if (this.T.isAny(t)) return [];
          const p = this.T.propOf(t, x.name);
          if (p) { if (this.T.isAny(p.ty)) continue; out.push(p.ty); }
        }
        if (out.length) return out;
      }
    } else if (x.op === 'elem') {
      const base = this.constituents(x.base);
      const out = [];
      for (const t of base) { const e = t.getNumberIndexType && t.getNumberIndexType(); if (e) out.push(e); }
      if (out.length) return out;
    } else if (x.op === 'val' && !x.kinds) {
      const out = [];
      for (const t of this.constituents(x.base)) {
        if (this.T.isAny(t) || !(t.flags & ts.TypeFlags.Object)) return [];
        const e = t.getStringIndexType();
        const ps = this.checker.getPropertiesOfType(t);
        if (!e && !ps.length) return [];
        if (e) out.push(e); else for (const p of ps) out.push(this.checker.getTypeOfSymbol(p));
      }
      if (out.length && !out.some((t) => this.T.isAny(t))) return out;
    }
    return this.assumed.get(anyElem(x.k)) || [];
  },
  knownKinds(x) {
    let s = this.st.kinds.get(x.k);
    let c = this.caseKinds.get(x.k);
    if (!c && x.k.endsWith('@import')) c = this.caseKinds.get(x.k.slice(0, -7));
    if (!s) s = c; else if (c) s = interKinds(s, c);
    if (x.rk) s = s ? interKinds(s, x.rk) : x.rk;
    return s || null;
  },
  // case or state facts about members (at any depth) of the term `k`
  keysUnder(k) {
    const out = new Set();
    const f = (q) => { if (q.length > k.length && q.startsWith(k) && (q[k.length] === '.' || q[k.length] === '[')) out.add(q); };
    for (const q of this.caseKinds.keys()) f(q);
    for (const q of this.st.kinds.keys()) f(q);
    return [...out];
  },
  typeAllows(t, key, under) {
    if (this.T.isAny(t)) return true;
    if (this.checker.isArrayType(t)) {
      const ek = `${key}[*]`; const sub = under.filter((q) => q === ek || q.startsWith(`${ek}.`) || q.startsWith(`${ek}[`));
      const known = this.knownKinds({ k: key });
      if (!sub.length || (known && known.has('earr'))) return true;
      const e = t.getNumberIndexType();
      return !e || this.T.flatten(e).some((u) => this.kindsFit(u, ek) && this.typeAllows(u, ek, sub));
    }
    if (!(t.flags & ts.TypeFlags.Object) && !(t.isIntersection && t.isIntersection())) return true;
    if ([...this.T.kindsOf(t)][0] !== 'obj') return true;
    const names = new Map();
    for (const q of under) {
      const m = /^\.([A-Za-z_$][\w$]*)/.exec(q.slice(key.length));
      if (!m) continue;
      const pk = `${key}.${m[1]}`;
      if (!names.has(pk)) names.set(pk, { n: m[1], sub: [] });
      if (q !== pk) names.get(pk).sub.push(q);
    }
    for (const [pk, { n, sub }] of names) {
      const p = this.T.propOf(t, n);
      const known = this.knownKinds({ k: pk });
      const mayLack = !known || known.has('absent') || known.has('undef');
      if (!p || (p.index && !known)) { if (!mayLack) return false; continue; }
      if (p.index) continue;
      if (p.optional && mayLack && !sub.length) continue;
      const us = this.T.flatten(p.ty);
      if (p.optional && mayLack) continue;
      if (!us.some((u) => (!known || this.kindsFit(u, pk)) && (!sub.length || this.typeAllows(u, pk, sub)))) return false;
    }
    return true;
  },
  kindsFit(u, key) {
    const known = this.knownKinds({ k: key });
    if (!known || this.T.isAny(u)) return true;
    for (const k of this.T.kindsOf(u)) if (mayKind(known, k)) return true;
    return false;
  },
  constituents(x, strict) {
    let ts_ = this.typesOf(x).flatMap((t) => this.T.flatten(t));
    if (!ts_.length) return ts_;
    const ks = this.knownKinds(x);
    if (ks) ts_ = ts_.filter((t) => this.T.isAny(t) || [...this.T.kindsOf(t)].some((k) => mayKind(ks, k)));
    if (ts_.length > 1) {
      const under = this.keysUnder(x.k);
      if (under.length) {
        const fit = ts_.filter((t) => this.typeAllows(t, x.k, under));
        // no declared type allows this combination: the call is outside the types, any of them may describe the rest
        if (fit.length || strict) ts_ = fit;
      }
    }
    return ts_;
  },
  defKinds(x) {
    switch (x.op) {
      case 'bool': return BOOL;
      case 'pred': {
        const ks = this.kindsOf(x.term); let t = false; let f = false;
        for (const k of ks) { const r = inSet(x.set, k); if (r !== 'no') t = true; if (r !== 'yes') f = true; }
        return new Set([...(t ? ['true'] : []), ...(f ? ['false'] : [])]);
      }
      case 'not': { const ks = this.kindsOf(x.x); const o = new Set(); for (const k of ks) o.add(FALSY.has(k) ? 'true' : 'false'); return o; }
      case 'len': {
        const ks = this.kindsOf(x.base); const o = new Set();
        for (const k of ks) { if (k === 'earr' || k === 'estr') o.add('zero'); else if (k === 'arr' || k === 'str' || k.startsWith('lit:')) o.add('num'); else { o.add('zero'); o.add('num'); } }
        return o.size ? o : NUMK;
      }
      case 'enc': case 'tostr': {
        const o = new Set();
        for (const k of this.kindsOf(x.base)) o.add(k === 'estr' || (x.op === 'tostr' && k === 'earr') ? 'estr' : 'str');
        return o;
      }
      case 'join': {
        const ks = this.kindsOf(x.base); const o = new Set();
        if (ks.has('earr')) o.add('estr');
        if (ks.has('arr')) {
          const eks = this.kindsOf(elem(x.base));
          o.add('str');
          if ([...eks].some((k) => k === 'estr' || NULLISH.has(k) || k === 'obj')) o.add('estr');
        }
        return o.size ? o : STRK;
      }
      case 'call':
        if (x.res === 'str') return STRK;
        if (x.res === 'nstr') return new Set(['str']);
        if (x.res === 'bool') return BOOL;
        if (x.res === 'num') return NUMK;
        if (x.res === 'json') return new Set(JSONKINDS);
        if (x.res && x.res.startsWith('inst:')) return new Set([x.res]);
        if (x.res === 'obj') return new Set(['obj']);
        break;
      case 'key': return STRK;
      case 'err': return new Set(['inst:Error']);
      default:
    }
    if (x.kinds) return x.kinds;
    const types = this.typesOf(x);
    const out = new Set();
    for (const t of types) for (const k of this.T.kindsOf(t)) out.add(k);
    if (x.op === 'prop') {
      const base = this.constituents(x.base);
      let any = !base.length;
      for (const t of base) {
        if (this.T.isAny(t)) { any = true; continue; }
        if (!(t.flags & ts.TypeFlags.Object) && !(t.isIntersection && t.isIntersection())) continue;
        const p = this.T.propOf(t, x.name);
        if (!p) out.add('absent');
        else if (p.optional) { out.add('absent'); out.add('undef'); }
        else if (this.T.isAny(p.ty)) for (const k of ANYKINDS) out.add(k);
      }
      if (any && !types.length) { for (const k of JSONKINDS) out.add(k); out.add('absent'); if (!this.isJson(x)) out.add('undef'); }
      // a case may ask for answers that are not what their types declare
      if (this.caseKinds.has('#answer') && this.isJson(x)) { out.add('null'); out.add('absent'); }
    } else if (!types.length) {
      if (this.isJson(x)) for (const k of JSONKINDS) out.add(k);
      else { for (const k of ANYKINDS) out.add(k); out.add('fn'); }
    }
    return out;
  },
  isJson(x) {
    const r = rootOf(x);
    return r && (r.op === 'json' || (r.op === 'call' && r.res === 'json'));
  },
  kindsOf(x) {
    const known = this.knownKinds(x);
    if (known && !(x.op === 'pred' || x.op === 'not' || x.op === 'len' || x.op === 'enc' || x.op === 'tostr' || x.op === 'join')) return known;
    const d = this.defKinds(x);
    return known ? interKinds(d, known) : d;
  },
  truth(a) {
    switch (a.t) {
      case 'c': return !!a.v;
      case 'x': {
        let t = false; let f = false;
        for (const k of this.kindsOf(a)) if (FALSY.has(k)) f = true; else t = true;
        return t && f ? null : t;
      }
      case 's': {
        let all = true;
        for (const p of a.parts) {
          if (typeof p === 'string') { if (p) return true; } else { const r = this.strTruth(p); if (r === true) return true; if (r === null) all = false; }
        }
        return all ? false : null;
      }
      case 'qs': {
        if (!a.entries.length) return false;
        if (a.entries.some((e) => e.p === true && !e.each && e.op !== 'merge')) return true;
        return null;
      }
      case 'idx': case 'top': return null;
      case 'json': {
        const r = a.tree.map((t) => (t.t === 'c' ? t.v !== undefined : t.t === 'x' ? ![...this.kindsOf(t)].some((k) => k === 'undef' || k === 'absent') : true));
        return r.every((z) => z) ? true : r.some((z) => z) ? null : a.tree.every((t) => t.t === 'c') ? false : null;
      }
      default: return true;
    }
  },
  strTruth(p) { // is String(p) non-empty
    if (p.t === 'c') return String(p.v) !== '';
    if (p.t === 'x') {
      const ks = this.kindsOf(p); let t = false; let f = false;
      for (const k of ks) if (k === 'estr' || k === 'earr') f = true; else t = true;
      return t && f ? null : t;
    }
    return this.truth(p);
  },
  // Restrict the current state to the atom being truthy / falsy.
  refineTruth(a, want) {
    if (!this.st) return;
    if (a.t === 'x') this.refineX(a, want ? (k) => !FALSY.has(k) : (k) => FALSY.has(k), want);
  },
  setKinds(x, set) {
    if (!set.size) { this.st = null; return; }
    this.st.kinds.set(x.k, set);
  },
  refineX(x, keep, want) {
    if (x.op === 'pred') {
      const ks = this.kindsOf(x.term);
      const s = new Set();
      for (const k of ks) {
        const r = inSet(x.set, k);
        if (want ? r === 'yes' : r !== 'yes') s.add(k);
        if (want && r === 'maybe') for (const l of x.set) if (l.startsWith('lit:')) s.add(l);
      }
      this.setKinds(x.term, s);
      return;
    }
    if (x.op === 'not') { this.refineTruth(x.x, !want); return; }
    if (x.op === 'len') {
      const ks = this.kindsOf(x.base);
      const s = new Set([...ks].filter((k) => (want ? k !== 'earr' && k !== 'estr' : k === 'earr' || k === 'estr')));
      if (s.size) this.setKinds(x.base, s);
      return;
    }
    const ks = this.kindsOf(x);
    const s = new Set([...ks].filter(keep));
    this.setKinds(x, s);
    if (this.st && x.op === 'eq' && want) { /* literal refinement handled by pred */ }
  },
  restrictKinds(x, keepSet) { // keepSet: predicate on kind; returns false if infeasible
    const s = new Set([...this.kindsOf(x)].filter(keepSet));
    if (!s.size) { this.st = null; return false; }
    if (x.op !== 'pred' && x.op !== 'not') this.st.kinds.set(x.k, s);
    return true;
  },
  decider(a) {
    if (a.t !== 'x') return [];
    if (a.op === 'pred') return this.decider(a.term);
    if (a.op === 'not') return this.decider(a.x);
    if (a.op === 'len') return this.decider(a.base);
    if (a.op === 'enc' || a.op === 'tostr') return this.decider(a.base);
    if (a.op === 'join') return [bare(a.base), bare(a)];
    return [bare(a)];
  },
  note(a) {
    if (a.t === 's') { for (const p of a.parts) if (typeof p !== 'string') this.note(p); return; }
    if (a.t === 'x') {
      const p = a.op === 'not' ? a.x : a; const is = p && p.op === 'pred' && this.isLiteral(p);
      if (is && !this.decisions.has(is.k) && this.kindsOf(p.term).has('str')) this.decisions.set(is.k, { x: is, kinds: new Set(['true', 'false']) });
    }
    for (const d of this.decider(a)) if (!this.decisions.has(d.k)) this.decisions.set(d.k, { x: d, kinds: new Set(this.kindsOf(d)) });
  },
  typeofStr(k) { return typeofKind(k); },
};

// Kind sets: a `lit:` kind is included in `str`.
export function hasKind(set, k) {
  return set.has(k) || (k.startsWith('lit:') && set.has('str'));
}
function inSet(set, k) {
  if (hasKind(set, k)) return 'yes';
  if (k === 'str') for (const l of set) if (l.startsWith('lit:')) return 'maybe';
  return 'no';
}
export function interKinds(a, b) {
  const out = new Set();
  for (const k of a) if (b.has(k) || (k.startsWith('lit:') && b.has('str') && ![...b].some((q) => q.startsWith('lit:')))) out.add(k);
  for (const k of b) if (k.startsWith('lit:') && a.has('str') && ![...a].some((q) => q.startsWith('lit:'))) out.add(k);
  return out;
}
// Can a value of declared kind `k` be of one of the kinds known of it?
export const mayKind = (known, k) => hasKind(known, k) || (k === 'str' && [...known].some((q) => q.startsWith('lit:')));
