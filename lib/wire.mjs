// Reading the analysed requests: effect sequences, URLs, query strings, headers, bodies.
import { C, UNDEF, akey, vkey, union, effKey, constOfKind } from './domain.mjs';
import { X, prop, elem, bare } from './terms.mjs';
import { OK, bad, maybe, combine, all } from './decide.mjs';

// Flatten an effect list into its possible sequences of effects satisfying `f`.
export function seqs(effs, f, cap = 200) {
  const prune = (l) => {
    const out = [];
    for (const e of l) {
      if (e.k === 'alt') {
        const alts = e.alts.map(prune);
        const m = new Map(); for (const a of alts) m.set(a.map(effKey).join(';'), a);
        const u = [...m.values()];
        if (u.length === 1) out.push(...u[0]);
        else out.push({ k: 'alt', alts: u });
      } else if (e.k === 'loop') {
        const b = prune(e.effs);
        if (b.length) out.push({ ...e, effs: b });
      } else if (f(e)) out.push(e);
    }
    return out;
  };
  const expand = (l) => {
    let acc = [[]];
    for (const e of l) {
      let opts;
      if (e.k === 'alt') { opts = []; for (const a of e.alts) { const x = expand(a); if (!x) return null; opts.push(...x); } }
      else if (e.k === 'loop') { const x = expand(e.effs); if (!x) return null; opts = x.map((s) => (s.length ? [{ k: 'loop', src: e.src, effs: s }] : [])); }
      else opts = [[e]];
      const nx = new Map();
      for (const a of acc) for (const o of opts) { const s = a.concat(o); nx.set(s.map(effKey).join(';'), s); if (nx.size > cap) return null; }
      acc = [...nx.values()];
    }
    return acc;
  };
  return expand(prune(effs));
}
export const isFetch = (e) => e.k === 'fetch';
export const isOpaque = (e) => e.k === 'unknown';

export function terminals(o) {
  const out = [];
  if (o.ok) out.push({ kind: 'ok', st: o.ok.st, v: o.ok.v, m: o.ok.m });
  for (const r of o.rejects) out.push({ kind: 'rej', st: r.st, v: r.v, m: r.m });
  return out;
}
// Is a rejection (or a missing request) attributable to the environment failing in this case?
export const envFailed = (kinds) => Object.entries(kinds).some(([k, v]) => k.startsWith('ok:') && v.length === 1 && v[0] === 'false');

// Every sequence of fetches the operation may perform, over all ways it can end.
export function fetchSeqs(o) {
  const m = new Map();
  for (const t of terminals(o)) {
    const ss = seqs(t.st.eff, isFetch);
    if (!ss) return null;
    for (const s of ss) m.set(`${t.kind}|${s.map(effKey).join(';')}`, { kind: t.kind, seq: s, st: t.st });
  }
  return [...m.values()];
}

// ---- init object --------------------------------------------------------
// alternatives of field `name` of a tree value; each {v:[atoms]} or {maybeAbsent}
export function fieldOf(a, name, I) {
  switch (a.t) {
    case 'o': {
      const e = a.m.get(name);
      const rest = a.rest.filter((r) => !(r.without && r.without.includes(name)));
      let late = rest.filter((r) => !e || r.seq > e.seq);
      const dyn = late.filter((r) => r.dyn);
      if (dyn.length) {
        const names = (r) => r.key && r.key.length === 1 && r.key[0].t === 'c' ? String(r.key[0].v) : null;
        for (const d of dyn) { const n = names(d); if (n === null) return { v: [{ t: 'top', why: 'computed member' }], open: true }; if (n === name) return { v: union(e ? e.v : [UNDEF], d.val), open: true }; }
      }
      late = late.filter((r) => !r.dyn && r.srcT && r.open && !(r.declared || []).includes(name));
      if (!e) {
        if (late.length === 1 && late[0].p === true) return { v: [prop(late[0].srcT, name)], undeclared: true };
        if (late.length) return { v: union([UNDEF], ...late.map((r) => [prop(r.srcT, name)])), undeclared: true };
        return { v: [UNDEF] };
      }
      if (e.p === true) return { v: e.v };
      if (e.p === false) return { v: union(e.v, [UNDEF]), p: false };
      return { v: union(e.v), mirror: e.p, mt: e.mt };
    }
    case 'x': return { v: [prop(a, name)] };
    case 'c': return { v: [UNDEF] };
    case 'top': return { v: [a] };
    default: return { v: [UNDEF] };
  }
}
export const field = (v, name, I) => union(...v.map((a) => fieldOf(a, name, I).v));

// ---- URL ------------------------------------------------------------------
// -> {base, path:[parts], query:[entries]|null, bad?}
export function splitUrl(a) {
  let parts;
  if (a.t === 'c') parts = [String(a.v)];
  else if (a.t === 's') parts = a.parts;
  else if (a.t === 'x') parts = [a];
  else return null;
  const path = []; let query = null;
  for (let i = 0; i < parts.length; i++) {
    const p = parts[i];
    if (query) { query.push(p); continue; }
    if (typeof p === 'string') {
      const q = p.indexOf('?');
      if (q >= 0) { if (q > 0) path.push(p.slice(0, q)); query = []; if (q + 1 < p.length) query.push(p.slice(q + 1)); continue; }
      path.push(p);
    } else if (p.t === 'qs') return { path, query: null, odd: p };
    else path.push(p);
  }
  return { path, query };
}
// entries of a query given as string parts; null when it cannot be read
export function queryEntries(parts) {
  const out = []; // {name, value:[atoms], enc:bool, p, each}
  let cur = []; // pieces of the current k=v
  const flush = () => {
    if (!cur.length) return true;
    const first = cur[0];
    if (typeof first !== 'string') return false;
    const eq = first.indexOf('=');
    if (eq < 0) return false;
    const name = decodeURIComponent(first.slice(0, eq));
    const rest = cur.slice(1); if (first.length > eq + 1) rest.unshift(first.slice(eq + 1));
    out.push({ name, parts: rest, p: true });
    cur = [];
    return true;
  };
  for (const p of parts) {
    if (typeof p === 'string') {
      const bits = p.split('&');
      bits.forEach((b, i) => { if (i) { if (!flush()) out.bad = true; } if (b) { if (cur.length && typeof cur[cur.length - 1] === 'string') cur[cur.length - 1] += b; else cur.push(b); } });
    } else if (p.t === 'qs' && !cur.length) {
      for (const e of p.entries) out.push(e);
      if (!p.entries.length) out.emptyQs = true;
    } else cur.push(p);
  }
  if (!flush()) out.bad = true;
  return out;
}
export const isEnc = (a, k) => a.t === 'x' && a.op === 'enc' && a.base.k === k;
export const isTerm = (a, k) => a.t === 'x' && a.k === k;
// unwrap 's' with a single part / tostr
export function bareStr(a) {
  for (;;) {
    if (a.t === 's' && a.parts.length === 1) { a = typeof a.parts[0] === 'string' ? C(a.parts[0]) : a.parts[0]; continue; }
    if (a.t === 'x' && a.op === 'tostr') { a = a.base; continue; }
    return a;
  }
}

// ---- headers --------------------------------------------------------------
// -> list of alternatives of op logs, from whatever shape `init.headers` has
export function headerOps(v, I) {
  return v.map((a) => {
    if (a.t === 'hdr') return a.ops;
    if (a.t === 'o') {
      const items = [...a.m].map(([k, e]) => ({ e, k, seq: e.seq })).concat(a.rest.map((r) => ({ r, seq: r.seq }))).sort((x, y) => x.seq - y.seq);
      return items.map((it) => {
        if (it.r) {
          if (it.r.dyn) return { op: 'unk', p: false };
          const b = it.r.srcT;
          return { op: 'merge', src: it.r.src, srcT: b, p: it.r.p, spread: true, fromHeaders: /entries/.test(it.r.src) };
        }
        return { op: 'set', name: [C(it.k.toLowerCase())], value: it.e.v, p: it.e.p === true ? true : false };
      });
    }
    if (a.t === 'x') return [{ op: 'merge', src: a.k, srcT: bare(a), p: true }];
    if (a.t === 'c' && (a.v === undefined || a.v === null)) return [];
    if (a.t === 'a') return a.segs.map((s) => {
      if (s.k === 'el' && s.v.length === 1 && s.v[0].t === 'tup') return { op: 'append', name: s.v[0].items[0].map((q) => (q.t === 'c' ? C(String(q.v).toLowerCase()) : q)), value: s.v[0].items[1], p: s.p };
      return { op: 'unk', p: false };
    });
    return [{ op: 'unk', p: false }];
  });
}

export { akey, vkey, union, constOfKind, X, prop, elem, bare, C, UNDEF, OK, bad, maybe, combine, all };
