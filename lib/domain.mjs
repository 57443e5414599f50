// Abstract domain: values are finite sets ("alternatives") of provenance atoms.
//
//  c    constant primitive
//  x    term: an opaque value identified by where it comes from (an access path
//       of an input, or a pure operation applied to other atoms)
//  s    string concatenation of parts
//  qs   serialised URLSearchParams snapshot
//  json JSON.stringify snapshot
//  tup  immutable pair/tuple (entries of maps, headers, ...)
//  idx  loop index ranging over a source array
//  ref  heap record          fn  closure           cls  class
//  bi   builtin              bm  bound method      ext  library export
//  host analysis-side callback                     top  unknown
//
// A term additionally carries a set of *kinds* (finite partition of JS values)
// in the abstract state; branches refine kinds, merges join them.

export const C = (v) => ({ t: 'c', v });
export const UNDEF = C(undefined);
export const NULL = C(null);
export const TRUE = C(true);
export const FALSE = C(false);
export const TOP = (why) => ({ t: 'top', why });

const keyCache = new WeakMap();
export function akey(a) {
  let k = keyCache.get(a);
  if (k !== undefined) return k;
  k = akey0(a);
  keyCache.set(a, k);
  return k;
}
function akey0(a) {
  switch (a.t) {
    case 'c': return `${typeof a.v}:${String(a.v)}`;
    case 'x': return a.rk ? `<${a.k}|${[...a.rk].sort().join(',')}>` : `<${a.k}>`;
    case 's': return `s[${a.parts.map((p) => (typeof p === 'string' ? JSON.stringify(p) : akey(p))).join('+')}]`;
    case 'qs': return `qs{${a.entries.map(entryKey).join('&')}}`;
    case 'json': return `json(${vkey(a.tree)})`;
    case 'tup': return `(${a.items.map(vkey).join(',')})`;
    case 'idx': return `idx(${a.src}${a.other ? '~' : ''})`;
    case 'ref': return `#${a.a}`;
    case 'fn': return `fn${a.id}`;
    case 'cls': return `class ${a.id}`;
    case 'bi': return `bi:${a.name}`;
    case 'bm': return `bm:${akey(a.recv)}.${a.name}`;
    case 'ext': return `ext:${a.name}`;
    case 'host': return `host${a.id}`;
    case 'exto': return `exto:${a.name}(${a.args.map(vkey).join(',')})`;
    case 're': return `re:${a.src}`;
    case 'o': return `{${[...a.m].map(([k, e]) => `${k}${pk(e.p)}:${vkey(e.v)}`).sort().join(',')}${a.rest.length ? `,...${a.rest.map((r) => r.src + pk(r.p)).join(',')}` : ''}}${a.cls ? `:${a.cls}` : ''}`;
    case 'a': return `[${a.segs.map((s) => (s.k === 'each' ? `each ${s.src}${s.flaw ? ` (${s.flaw})` : ''}${pk(s.p)}=>${vkey(s.v)}` : `${s.k === 'unk' ? '?' : ''}${pk(s.p)}${vkey(s.v)}`)).join(',')}]`;
    case 'hdr': case 'usp': case 'form': case 'map': case 'set':
      return `${a.t}{${a.ops.map(entryKey).join(',')}}`;
    case 'promise': return `promise(${vkey(a.ok)}|${vkey(a.err)})`;
    case 'top': return 'TOP';
    default: return a.t;
  }
}
const pk = (p) => (p === true ? '' : p === false ? '?' : `?${p}`);
function entryKey(e) {
  if (e.op === 'merge') return `merge${e.via === 'append' ? '+' : ''} ${e.src}${pk(e.p)}`;
  return `${e.op || ''} ${vkey(e.name)}${pk(e.p)}=${vkey(e.value || [])}${e.each ? ` each ${e.each}` : ''}`;
}
export function vkey(v) {
  if (v.length === 1) return akey(v[0]);
  return `(${v.map(akey).sort().join('|')})`;
}

export const CAP = 64;
export function union(...vals) {
  if (vals.length === 1) return vals[0];
  const m = new Map();
  for (const v of vals) for (const a of v) {
    const k = a.t === 'x' ? `<${a.k}>` : akey(a);
    const o = m.get(k);
    if (!o) m.set(k, a);
    else if (a.t === 'x' && o.rk) m.set(k, a.rk ? { ...o, rk: new Set([...o.rk, ...a.rk]) } : a);
  }
  const r = [...m.values()];
  if (r.length > CAP) return [TOP('too many alternatives')];
  if (r.length > 1) { const t = r.find((a) => a.t === 'top'); if (t) return [t]; }
  return r;
}
export const sameVal = (a, b) => a === b || vkey(a) === vkey(b);

export const FALSY = new Set(['absent', 'undef', 'null', 'false', 'zero', 'estr']);
export const NULLISH = new Set(['absent', 'undef', 'null']);
export const JSONKINDS = ['null', 'true', 'false', 'zero', 'num', 'estr', 'str', 'obj', 'earr', 'arr'];
export const ANYKINDS = ['undef', ...JSONKINDS];

export function constOfKind(k) {
  switch (k) {
    case 'absent': case 'undef': return UNDEF;
    case 'null': return NULL;
    case 'true': return TRUE;
    case 'false': return FALSE;
    case 'zero': return C(0);
    case 'estr': return C('');
    default: return k.startsWith('lit:') ? C(k.slice(4)) : null;
  }
}
export function typeofKind(k) {
  switch (k) {
    case 'absent': case 'undef': return 'undefined';
    case 'null': case 'obj': case 'arr': case 'earr': return 'object';
    case 'true': case 'false': return 'boolean';
    case 'zero': case 'num': return 'number';
    case 'estr': case 'str': return 'string';
    case 'fn': return 'function';
    default: return k.startsWith('lit:') ? 'string' : 'object';
  }
}

// ---- abstract state ------------------------------------------------------
export class State {
  constructor() {
    this.cells = new Map(); // cell id -> Val
    this.heap = new Map(); // addr -> record (immutable)
    this.kinds = new Map(); // term key -> Set of kinds (refinements)
    this.over = new Map(); // term key -> Val (writes into caller-owned objects)
    this.eff = []; // effects in order
    this.nfetch = 0;
  }
  clone() {
    const s = new State();
    s.cells = new Map(this.cells);
    s.heap = new Map(this.heap);
    s.kinds = new Map(this.kinds);
    s.over = new Map(this.over);
    s.eff = this.eff.slice();
    s.nfetch = this.nfetch;
    return s;
  }
}

export function joinP(a, b) {
  if (a === b) return a;
  return false;
}

function joinMaps(a, b, f) {
  const out = new Map(a);
  for (const [k, v] of b) {
    if (!out.has(k)) out.set(k, v);
    else { const u = out.get(k); if (u !== v) out.set(k, f(u, v, k)); }
  }
  return out;
}
const opSame = (x, y) => x === y || (entryKey(x) === entryKey(y));
export function segKey(s) {
  return `${s.k}|${s.src || ''}|${s.flaw || ''}|${pk(s.p)}|${vkey(s.v)}`;
}
function joinLists(a, b, same, may) {
  let i = 0;
  while (i < a.length && i < b.length && same(a[i], b[i])) i++;
  const out = a.slice(0, i);
  for (const x of a.slice(i)) out.push(may(x));
  for (const x of b.slice(i)) out.push(may(x));
  return out;
}
export function joinRecords(a, b) {
  if (a === b) return a;
  if (a.k !== b.k) return { k: 'top' };
  switch (a.k) {
    case 'obj': {
      const m = new Map();
      for (const key of new Set([...a.m.keys(), ...b.m.keys()])) {
        const x = a.m.get(key);
        const y = b.m.get(key);
        if (x && y) m.set(key, x === y ? x : { v: union(x.v, y.v), p: joinP(x.p, y.p), mt: x.p === y.p ? x.mt || y.mt : undefined, seq: Math.max(x.seq, y.seq) });
        else { const z = x || y; m.set(key, { v: z.v, p: false, seq: z.seq }); }
      }
      const rk = (r) => `${r.src}|${pk(r.p)}|${r.seq}`;
      const bs = new Set(b.rest.map(rk));
      const as = new Set(a.rest.map(rk));
      const rest = a.rest.map((r) => (bs.has(rk(r)) ? r : { ...r, p: false }))
        .concat(b.rest.filter((r) => !as.has(rk(r))).map((r) => ({ ...r, p: false })));
      return { ...a, m, rest, seq: Math.max(a.seq, b.seq) };
    }
    case 'array': {
      if (a.segs.length === b.segs.length) {
        const segs = [];
        let ok = true;
        for (let i = 0; i < a.segs.length; i++) {
          const x = a.segs[i]; const y = b.segs[i];
          if (x.k !== y.k || x.src !== y.src) { ok = false; break; }
          segs.push(x === y ? x : { ...x, v: union(x.v, y.v), p: joinP(x.p, y.p) });
        }
        if (ok) return { ...a, segs };
      }
      return { ...a, segs: joinLists(a.segs, b.segs, (x, y) => segKey(x) === segKey(y), (s) => ({ ...s, p: false })) };
    }
    case 'hdr': case 'usp': case 'form': case 'map': case 'set':
      return { ...a, ops: joinLists(a.ops, b.ops, opSame, (o) => ({ ...o, p: false })) };
    case 'promise':
      return { ...a, ok: union(a.ok, b.ok), err: union(a.err, b.err) };
    default:
      return { k: 'top' };
  }
}
export function joinEff(a, b) {
  let i = 0;
  while (i < a.length && i < b.length && a[i] === b[i]) i++;
  const sa = a.slice(i); const sb = b.slice(i);
  const out = a.slice(0, i);
  if (sa.length || sb.length) {
    // identical suffixes (up to the key) collapse
    const ka = sa.map(effKey).join(';'); const kb = sb.map(effKey).join(';');
    if (ka === kb) out.push(...sa);
    else out.push({ k: 'alt', alts: [sa, sb] });
  }
  return out;
}
export function effKey(e) {
  switch (e.k) {
    case 'alt': return `alt[${e.alts.map((x) => x.map(effKey).join(';')).sort().join('|')}]`;
    case 'loop': return `loop ${e.src}[${e.effs.map(effKey).join(';')}]`;
    case 'fetch': return `fetch#${e.n} ${vkey(e.url)} ${vkey(e.init)}`;
    default: return `${e.k}:${e.name || ''}:${(e.args || []).map(vkey).join(',')}:${e.target || ''}`;
  }
}
export function join(a, b) {
  if (!a) return b;
  if (!b || a === b) return a;
  const s = new State();
  s.cells = joinMaps(a.cells, b.cells, (x, y) => union(x, y));
  s.heap = joinMaps(a.heap, b.heap, joinRecords);
  s.kinds = new Map();
  for (const [k, x] of a.kinds) {
    const y = b.kinds.get(k);
    if (y) s.kinds.set(k, x === y ? x : new Set([...x, ...y]));
  }
  s.over = new Map();
  for (const k of new Set([...a.over.keys(), ...b.over.keys()])) {
    const x = a.over.get(k); const y = b.over.get(k);
    if (x && y) s.over.set(k, x === y ? x : union(x, y));
    else s.over.set(k, union(x || y, [{ t: 'x', k }]));
  }
  s.eff = joinEff(a.eff, b.eff);
  s.nfetch = Math.max(a.nfetch, b.nfetch);
  return s;
}
