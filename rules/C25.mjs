// Aliases against what they alias: same effects and same outcome on every path; and
// every documented operation is reachable from a constructed client.
import { OPS, SPECIAL, PRIMITIVES, OK, bad, maybe, all, show, terminals, caseName, publicOps, isFetch, field, bareStr, anyFetch, combine, onRequest, req, fetchSeqs, DEFAULT_BASE } from './common.mjs';
import { runOp } from '../lib/run.mjs';
import { caseText } from '../lib/decide.mjs';
import { seqs, headerOps } from '../lib/wire.mjs';
import { effKey, vkey, constOfKind, union } from '../lib/domain.mjs';
import { SCEN } from './C06.mjs';
import { pathVerdict, methodVerdict } from './C01.mjs';
import { bodyVerdict, termOf } from './C02.mjs';
import { hdrAlts } from './C04.mjs';
import { delivered } from './C05.mjs';
import { exactly } from './C10.mjs';
import { resolves, envelope } from '../lib/envelope.mjs';
import { prop } from '../lib/terms.mjs';
import { kindsAt } from '../lib/carry.mjs';

// [alias, what it aliases]
const PAIRS = [['emails.send', 'emails.create'], ['batch.send', 'batch.create'], ...['create', 'list', 'get', 'remove'].map((m) => [`audiences.${m}`, `segments.${m}`])];

const visible = (e) => e.k !== 'unknown' || true;
function ways(o) {
  const m = new Map();
  for (const t of terminals(o)) {
    const ss = seqs(t.st.eff, visible);
    if (!ss) return null;
    for (const s of ss) m.set(`${t.kind}|${vkey(t.m || [])}|${s.map(effKey).join(';')}`, { kind: t.kind, m: t.m || [], seq: s });
  }
  return m;
}
// Do two values certainly differ?  'no' | 'yes' | 'unsure'
function differ(a, b, I) {
  if (vkey(a) === vkey(b)) return 'no';
  if (a.length !== 1 || b.length !== 1) return 'unsure';
  const x = bareStr(a[0]); const y = bareStr(b[0]);
  const ins = (q) => q.t === 'x' && ['root', 'prop', 'elem'].includes(q.op);
  if (x.t === 'c' && y.t === 'c') return Object.is(x.v, y.v) ? 'no' : 'yes';
  if (ins(x) && ins(y)) {
    if (x.k === y.k && (x === a[0]) !== (y === b[0])) { const text = [...I.kindsOf(x)].map((k) => k === 'str' || k === 'estr' || k.startsWith('lit:')); return text.every((t) => t) ? 'no' : text.some((t) => t) ? 'unsure' : 'yes'; } // one of them written as text
    return x.k === y.k ? 'no' : 'yes';
  }
  if (ins(x) && y.t === 'c') { const cs = [...I.kindsOf(x)].map((k) => constOfKind(k)); return cs.every((c) => c && !Object.is(c.v, y.v)) || (typeof y.v === 'string' && y.v && cs.every((c) => !c)) ? 'yes' : 'unsure'; }
  if (ins(y) && x.t === 'c') return differ(b, a, I);
  if (x.t === 'json' && y.t === 'json') return differ(x.tree, y.tree, I);
  if (x.t === 'o' && y.t === 'o') {
    if (x.rest.length || y.rest.length) return 'unsure';
    let r = 'no';
    for (const n of new Set([...x.m.keys(), ...y.m.keys()])) {
      const p = x.m.get(n); const q = y.m.get(n);
      const nil = (e) => !e || e.v.every((z) => z.t === 'c' && z.v === undefined);
      if (nil(p) && nil(q)) continue;
      if (nil(p) || nil(q)) { const e = nil(p) ? q : p; if (e.p === true && e.v.every((z) => (z.t === 'c' && z.v !== undefined) || z.t === 'o' || z.t === 'a')) return 'yes'; r = 'unsure'; continue; }
      const d = differ(p.v, q.v, I); if (d === 'yes' && p.p === true && q.p === true) return 'yes'; if (d !== 'no') r = 'unsure';
    }
    return r;
  }
  if (x.t === 's' && y.t === 's' && x.parts.every((p) => typeof p === 'string' || p.t === 'x') && y.parts.every((p) => typeof p === 'string' || p.t === 'x')) return typeof x.parts[0] === 'string' && typeof y.parts[0] === 'string' && !x.parts[0].startsWith(y.parts[0]) && !y.parts[0].startsWith(x.parts[0]) ? 'yes' : 'unsure';
  if (x.t === 'c' && (y.t === 'o' || y.t === 'a')) return 'yes';
  if (y.t === 'c' && (x.t === 'o' || x.t === 'a')) return 'yes';
  return 'unsure';
}
const HEADERS = ['authorization', 'user-agent', 'content-type', 'idempotency-key', 'x-batch-validation'];
function differWays(p, q, I, J) {
  if (p.kind !== q.kind) return `one ${p.kind === 'ok' ? 'resolves' : 'rejects'} and the other ${q.kind === 'ok' ? 'resolves' : 'rejects'}`;
  const pf = p.seq.filter(isFetch); const qf = q.seq.filter(isFetch);
  const flat = (s) => !s.some((e) => e.k === 'loop' || e.k === 'alt' || e.k === 'unknown');
  if (!flat(p.seq) || !flat(q.seq)) return null;
  if (pf.length !== qf.length) return `one makes ${pf.length} request(s), the other ${qf.length}`;
  for (let i = 0; i < pf.length; i++) {
    if (differ(pf[i].url, qf[i].url, I) === 'yes') return `their URLs differ: ${show(pf[i].url)} and ${show(qf[i].url)}`;
    for (const f of ['method', 'body']) { const a = field(pf[i].init, f, I); const b = field(qf[i].init, f, J); if (differ(a, b, I) === 'yes') return `their ${f}s differ: ${show(a)} and ${show(b)}`; }
    const ha = headerOps(field(pf[i].init, 'headers', I), I); const hb = headerOps(field(qf[i].init, 'headers', J), J);
    if (ha.length === 1 && hb.length === 1) for (const h of HEADERS) {
      const a = I.hdrGet(ha[0], h); const b = J.hdrGet(hb[0], h);
      if (differ(a, b, I) === 'yes') return `their ${h} headers differ: ${show(a)} and ${show(b)}`;
    }
  }
  if (differ(p.m, q.m, I) === 'yes') return `their results differ: ${show(p.m)} and ${show(q.m)}`;
  return null;
}
const cache = new Map();
function other(op, kinds, opt) {
  const key = `${op}#${opt.nargs}#${caseText(kinds)}`;
  if (!cache.has(key)) { if (cache.size > 40) cache.clear(); cache.set(key, runOp(op, kinds, opt)); }
  return cache.get(key);
}
// what the contract says about each of them: verdicts, and the headers' values
function features(o, kinds, spec, env) {
  const I = o.I; const f = {};
  f.outcome = resolves(o, envelope(env));
  f.count = exactly(1)(o, kinds);
  f.URL = onRequest(o, kinds, (e) => combine(req(e, I).url.map((a) => combine(spec.paths.map((p) => pathVerdict(a, DEFAULT_BASE, p, I))))));
  f.method = onRequest(o, kinds, (e) => methodVerdict(req(e, I).method, spec.verb));
  f.body = onRequest(o, kinds, (e) => bodyVerdict(req(e, I), spec, I));
  if (spec.opts) { const H = prop(termOf(spec.opts), 'headers'); const hk = kindsAt(I, H); if ([...hk].some((k) => !['absent', 'undef'].includes(k))) f['per-call headers'] = onRequest(o, kinds, (e) => combine(hdrAlts(req(e, I), I).map((ops) => delivered(ops, H, I, spec.idem)))); }
  const h = {};
  for (const n of HEADERS) h[n] = union(...(fetchSeqs(o) || []).flatMap((q) => q.seq.filter(isFetch).flatMap((e) => hdrAlts(req(e, I), I).map((ops) => I.hdrGet(ops, n)))));
  return { f, h };
}
const same = (alias, target, opt, spec, env) => (o, kinds) => {
  const q = other(target, kinds, opt);
  const hints = [...q.decisions].map(([k, d]) => ({ k, x: d.x, kinds: d.kinds }));
  if (q.budget || q.noClient) return maybe('analysis budget exhausted');
  const a = ways(o); const b = ways(q);
  if (!a || !b) return maybe('too many effect sequences', hints);
  const only = [...a.keys()].filter((k) => !b.has(k)); const miss = [...b.keys()].filter((k) => !a.has(k));
  if (!only.length && !miss.length) return OK;
  if (!a.size || !b.size) return maybe('no way through', hints);
  const fa = features(o, kinds, spec, env); const fb = features(q, kinds, spec, env);
  for (const n of Object.keys(fa.f)) { const [x, y] = [fa.f[n], fb.f[n]]; if ([x.s, y.s].sort().join() === 'bad,ok') return bad(`${alias} and ${target} differ in ${n}: ${(x.s === 'bad' ? x : y).why} (${x.s === 'bad' ? alias : target} only)`, x.at || y.at); }
  for (const n of HEADERS) if (differ(fa.h[n], fb.h[n], o.I) === 'yes') return bad(`${alias} and ${target} differ: their ${n} headers are ${show(fa.h[n])} and ${show(fb.h[n])}`);
  if ([...Object.values(fa.f), ...Object.values(fb.f)].every((x) => x.s === 'ok') && HEADERS.every((n) => vkey(fa.h[n]) === vkey(fb.h[n]))) return OK;
  for (const x of [...Object.values(fa.f), ...Object.values(fb.f)]) hints.push(...(x.hints || []));
  // every way of the one against every way of the other
  const ds = [...a.values()].flatMap((x) => [...b.values()].map((y) => differWays(x, y, o.I, q.I)));
  if (ds.every((d) => d)) { const e = [...a.values()].flatMap((w) => w.seq).find(isFetch); return bad(`${alias} and ${target} differ: ${ds[0]}`, e && e.at); }
  return maybe(`${alias} and ${target} may differ`, hints);
};

export async function run(ctx) {
  const T = ['true'];
  for (const [alias, target] of PAIRS) {
    const spec = OPS[alias]; if (!spec) continue;
    const b = spec.body || {};
    const el = b.eachOf ? [{ [b.eachOf.replace(/\[\*\]$/, '')]: ['arr'] }, { [b.eachOf.replace(/\[\*\]$/, '')]: ['earr'] }] : [{}];
    const reacts = b.react ? [['', { [`${b.from}.react`]: ['absent', 'undef'] }], ['with a React element', { [`${b.from}.react`]: ['obj'], 'ok:import @react-email/render': T }], ['with a React element and no renderer', { [`${b.from}.react`]: ['obj'], 'ok:import @react-email/render': ['false'] }]] : [['', {}]];
    const opts = [];
    if (spec.opts) {
      const O = spec.opts; const H = `${O}.headers`;
      opts.push(['without options', { [O]: ['undef'] }, {}], ['called without an options argument', {}, { nargs: Number(O.slice(1)) }]);
      for (const h of ['absent', 'undef', 'obj', 'arr', 'inst:Headers']) for (const i of spec.idem ? ['absent', 'str', 'estr'] : ['']) for (const v of /^batch/.test(alias) ? ['absent', 'lit:permissive', 'lit:strict'] : ['']) opts.push([`options: headers ${h}${i && `, idempotency key ${i}`}${v && `, validation ${v}`}`, { [O]: ['obj'], [H]: [h], ...(i ? { [`${O}.idempotencyKey`]: [i] } : {}), ...(v ? { [`${O}.batchValidation`]: [v] } : {}) }, {}]);
    } else opts.push(['', {}, {}]);
    for (const c of spec.cases) for (const lk of el) for (const [rn, rw] of reacts) for (const [on, ow, ro] of opts) {
      const scen = /without options|^$/.test(on) ? SCEN(1) : SCEN(1).slice(0, 2);
      for (const s of scen) {
        ctx.ob(alias, `is ${target} (${[caseName(c), Object.entries(lk).map(([k, v]) => `${k} ${v}`).join(), rn, on, s.name].filter(Boolean).join('; ')})`, { ...c.when, ...lk, ...rw, ...ow, ...s.when }, same(alias, target, ro, { ...spec, paths: [c.path] }, s.env), { key: `${alias}:${on || rn}`, run: { tag: `n${ro.nargs}`, ...ro }, noPrior: true });
      }
    }
  }
  // the two resources offer the same operations
  const ops = publicOps();
  const under = (r) => ops.filter((o) => o.startsWith(`${r}.`)).map((o) => o.slice(r.length + 1)).sort();
  const A = under('audiences'); const S = under('segments');
  ctx.fact('audiences offers what segments offers', A.join() === S.join() ? { s: 'ok' } : { s: 'bad', why: `audiences offers ${A.join(', ')} but segments offers ${S.join(', ')}` }, ctx.clientAt());
  // every documented operation is there and does something
  for (const op of [...Object.keys(OPS), ...SPECIAL, ...PRIMITIVES]) {
    let r;
    if (!ops.includes(op) && op !== 'webhooks.verify') r = { s: 'bad', why: `documented operation ${op} is not reachable from a constructed client` };
    else if (op === 'webhooks.verify') r = { s: 'ok' };
    else {
      const o = runOp(op, OPS[op] ? OPS[op].cases[0].when : {});
      r = o.noClient ? { s: 'bad', why: `${op}: no client or resource to call it on` } : anyFetch(o) ? { s: 'ok' } : { s: o.tops.size ? 'maybe' : 'bad', why: `${op} can be reached but never makes a request` };
    }
    ctx.fact(`${op} is reachable`, r, ctx.where(op) || ctx.clientAt(), `reach:${op}`);
  }
  ctx.need(500);
  void all;
  return ctx.finish('Relational analysis: an alias and what it aliases are analysed under the same case (every documented alternative of the arguments, with and without React elements, an empty or non-empty batch, every form of the request options including leaving them out, and every way the exchange can end), and every path of the one must have the effect sequence and the outcome of a path of the other: same requests term for term, same result term. Where the two are built differently, cases are split until they agree or differ for certain. Further, every documented operation must resolve to a method of the object a constructor call yields, and that method must reach fetch.');
}
