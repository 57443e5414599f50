import { OPS, SPECIAL, PRIMITIVES } from '../lib/contract.mjs';
import { fetchSeqs, terminals, envFailed, field, fieldOf, splitUrl, seqs, isFetch } from '../lib/wire.mjs';
import { OK, bad, maybe, combine, all } from '../lib/decide.mjs';
import { bareStr } from '../lib/wire.mjs';
import { show, kindsAt } from '../lib/carry.mjs';
import { program } from '../lib/run.mjs';
import { ts, isRepoNode } from '../lib/program.mjs';

export const DEFAULT_BASE = 'https://api.resend.com';
// Every callable public member reachable from a client.
export function publicOps() {
  const P = program(); const ops = [];
  const walk = (t, pre, depth) => {
    for (const s of P.checker.getPropertiesOfType(t)) {
      const d = s.declarations && s.declarations[0];
      if (!d || !isRepoNode(d)) continue;
      if (ts.getCombinedModifierFlags(d) & (ts.ModifierFlags.Private | ts.ModifierFlags.Protected)) continue;
      if (s.name.startsWith('#') || s.name.startsWith('__#')) continue;
      const pt = P.checker.getTypeOfSymbolAtLocation(s, P.client);
      const p = (pre ? `${pre}.` : '') + s.name;
      if (pt.getCallSignatures().length) ops.push(p);
      else if (pt.symbol && pt.symbol.valueDeclaration && ts.isClassDeclaration(pt.symbol.valueDeclaration) && isRepoNode(pt.symbol.valueDeclaration) && depth < 5 && pt !== P.clientType) walk(pt, p, depth + 1);
    }
  };
  walk(P.clientType, '', 0);
  return ops;
}
// [op, spec, case] for every documented alternative
export function* eachCase() {
  for (const [op, spec] of Object.entries(OPS)) for (const c of spec.cases) yield [op, spec, c];
}
export const caseName = (c) => Object.entries(c.when).map(([k, v]) => `${k}:${v[0]}`).join(',') || 'any';

// Apply `f(fetchEffect, st)` to the single request of every way the operation can go.
export function onRequest(o, kinds, f, { ignoreCount } = {}) {
  const ss = fetchSeqs(o);
  if (!ss) return maybe('too many effect sequences');
  if (ss.some((s) => s.st.eff.some((e) => e.k === 'unknown'))) { /* opaque call */ }
  const rs = ss.map(({ kind, seq, st }) => {
    const flat = seq.flatMap((e) => (e.k === 'loop' ? e.effs : [e])).filter((e) => e.k === 'fetch');
    if (!flat.length) return null;
    return all(flat.map((e) => f(e, st)));
  }).filter(Boolean);
  void ignoreCount;
  return combine(rs);
}
export const req = (e, I) => {
  const init = e.init;
  return { url: e.url, method: field(init, 'method', I), headers: field(init, 'headers', I), body: field(init, 'body', I), at: e.at };
};
const hasFetch = (l) => l.some((e) => e.k === 'fetch' || (e.k === 'alt' && e.alts.some(hasFetch)) || (e.k === 'loop' && hasFetch(e.effs)));
export const anyFetch = (o) => terminals(o).some((t) => hasFetch(t.st.eff));
export const allAlts = (v, f) => combine(v.map(f));
export { OPS, SPECIAL, PRIMITIVES, OK, bad, maybe, combine, all, show, kindsAt, fetchSeqs, terminals, envFailed, field, fieldOf, splitUrl, seqs, isFetch, bareStr };

// every effect anywhere in an effect list
export function* deepEff(l) {
  for (const e of l) {
    if (e.k === 'alt') { for (const a of e.alts) yield* deepEff(a); } else if (e.k === 'loop') yield* deepEff(e.effs); else yield e;
  }
}
// Does an effect satisfying `f` (which returns a complaint, or null) happen? Definite when
// it happens on every way through, unsettled (so split further) when only on some.
export function never(o, f) {
  const rs = [];
  for (const t of terminals(o)) {
    const hit = [...deepEff(t.st.eff)].map((e) => [e, f(e, t)]).find(([, w]) => w);
    if (!hit) { const u = [...deepEff(t.st.eff)].find((e) => e.k === 'unknown'); rs.push(u ? maybe(`not followed: ${u.name}`) : OK); continue; }
    const ss = seqs(t.st.eff, (e) => !!f(e, t));
    const say = bad(hit[1], hit[0].at);
    if (!ss) { rs.push(maybe(hit[1])); continue; }
    rs.push(combine(ss.map((s) => (s.length ? say : OK))));
  }
  return combine(rs);
}
// Variants every operation is also analysed under: options and React elements supplied.
export function variants(spec) {
  const out = [['', {}]];
  const b = spec.body;
  if (b && b.react) out.push(['react', { [`${b.from}.react`]: ['obj'] }]);
  if (spec.opts) for (const h of ['obj', 'arr', 'inst:Headers']) out.push([`options, headers ${h}`, { [spec.opts]: ['obj'], [`${spec.opts}.headers`]: [h] }]);
  return out;
}
// The client's own request methods, which are public too.
export const PRIM = {
  post: { verb: 'POST', opts: '$2', idem: true, entity: '$1' }, put: { verb: 'PUT', opts: '$2', entity: '$1' }, patch: { verb: 'PATCH', opts: '$2', entity: '$1' },
  delete: { verb: 'DELETE', opts: '$2', entity: '$1' }, get: { verb: 'GET', opts: '$1' },
};
export function* primCases() {
  for (const [op, spec] of Object.entries(PRIM)) yield [op, spec, { when: { $0: ['str'], ...(spec.entity ? { [spec.entity]: ['obj'] } : {}) }, path: op }];
}
export const FORWARD = 'emails.receiving.forward';
export function* forwardCases() {
  for (const p of ['absent', 'true', 'false']) yield [FORWARD, { verb: 'POST', opts: '$1', idem: true }, { when: { '$0.passthrough': [p], ...DOWN(1), 'resp1.json.raw': ['obj'], 'resp1.json.raw.download_url': ['str'], ...DL, 'ok:postal-mime': ['true'] }, path: `forward, passthrough ${p}` }];
}
const T = ['true'];
export const DOWN = (n) => ({ [`ok:fetch#${n}`]: T, [`resp${n}.ok`]: T, [`ok:resp${n}.json()`]: T, [`ok:resp${n}.text()`]: T, [`ok:parse(resp${n}.text)`]: T, [`resp${n}.json`]: ['obj'], [`parse(<resp${n}.text>)`]: ['obj'] });
export const DL = { 'ok:fetch#2': T, 'resp2.ok': T, 'ok:resp2.text()': T, 'ok:resp2.arrayBuffer()': T, 'ok:resp2.blob()': T, 'ok:resp2.bytes()': T };
