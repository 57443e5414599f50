// What earlier or concurrent calls leave behind in state that outlives them.
import { deepEff, terminals } from '../rules/common.mjs';
import { eachCase, caseName, PRIMITIVES, primCases } from '../rules/common.mjs';
import { quiet, PRIM_WHEN } from '../rules/C06.mjs';
import { run as runCase } from './decide.mjs';
import { opInfo, program } from './run.mjs';
import { join } from './domain.mjs';
import { root, rootOf } from './terms.mjs';

const callerOwned = (x) => { const r = rootOf(x); return r && r.op === 'root' && r.k.startsWith('$'); };
export const shared = (e) => e.k === 'swrite' || (e.k === 'mutate' && !callerOwned(e.x) && rootOf(e.x).op === 'root');
const rename = (kinds, p) => Object.fromEntries(Object.entries(kinds).map(([k, v]) => [k.replaceAll('$', p), v]));
// another call, with its own arguments (§0, §1, ...), run to completion; `snap` sees each suspension
export function otherCall(I, op, kinds, client, snap, pfx = '§') {
  const info = opInfo(op); const P = program();
  for (const [k, v] of Object.entries(rename(kinds, pfx))) I.caseKinds.set(k, new Set(v));
  info.params.forEach((p, i) => I.rootTypes.set(`${pfx}${i}`, p.types.slice()));
  const base = I.defKinds;
  I.defKinds = (x) => { const r = base(x); if (x.op === 'root' && x.k.startsWith(pfx)) { const p = info.params[Number(x.k.slice(1))]; if (p && p.optional) return new Set([...r, 'undef']); } return r; };
  const save = { eff: I.st.eff, n: I.st.nfetch, h: I.handlers, aw: I.onAwait };
  I.st.eff = []; I.st.nfetch = 100; I.handlers = [{ list: [] }];
  I.onAwait = () => { if (I.st) snap(I.st.clone()); };
  let recv = client; const parts = op.split('.');
  for (const s of parts.slice(0, -1)) recv = I.getProp(recv, s, P.client);
  const callee = I.getProp(recv, parts[parts.length - 1], P.client, true);
  let v = I.callVal(callee, recv, info.params.map((_, i) => [root(`${pfx}${i}`)]), info.impl, 0);
  if (I.st) v = I.awaitVal(v, 0);
  let fin = I.st;
  for (const t of I.handlers[0].list) fin = join(fin, t.st);
  I.st = fin; I.handlers = save.h; I.onAwait = save.aw;
  if (fin) { snap(fin.clone()); fin.eff = []; fin.nfetch = 0; }
}

// representative calls of every operation
export function callSubjects() {
  const subjects = [];
  for (const [op, spec, c] of eachCase()) {
    const vs = [['', quiet(spec)]];
    if (spec.opts) vs.push(['; with options', { ...quiet(spec), [spec.opts]: ['obj'], [`${spec.opts}.headers`]: ['obj'], ...(spec.idem ? { [`${spec.opts}.idempotencyKey`]: ['str'] } : {}) }]);
    if (spec.body && spec.body.react) vs.push(['; react', { ...quiet(spec), [`${spec.body.from}.react`]: ['obj'] }]);
    for (const [vn, w] of vs) subjects.push([op, `${c.path} (${caseName(c)}${vn})`, { ...c.when, ...w }]);
  }
  for (const p of PRIMITIVES) subjects.push([p, p, PRIM_WHEN[p]]);
  for (const [op, spec, c] of primCases()) subjects.push([op, `${op} with options`, { ...c.when, [spec.opts]: ['obj'], [`${spec.opts}.headers`]: ['obj'], ...(spec.idem ? { [`${spec.opts}.idempotencyKey`]: ['str'] } : {}) }]);
  for (const p of ['true', 'false']) subjects.push(['emails.receiving.forward', `forward (passthrough ${p})`, { '$0.passthrough': [p], $1: ['undef'] }]);
  subjects.push(['webhooks.verify', 'verify', {}]);
  return subjects;
}
let memo = null;
// the calls that write to shared state, one or two per piece of state written
export function writers() {
  if (memo) return memo;
  memo = [];
  const seen = new Map();
  for (const [op, label, kinds] of callSubjects()) {
    let ws = [];
    try { ws = terminals(runCase(op, kinds)).flatMap((t) => [...deepEff(t.st.eff)].filter(shared)); } catch { continue; }
    if (!ws.length) continue;
    const key = ws.map((e) => `${e.target}.${e.name || ''}`).sort().join(';').replace(/@\d+/g, '');
    const n = seen.get(key) || 0;
    if (n >= 2 || memo.length >= 6) continue;
    seen.set(key, n + 1);
    memo.push({ op, label, kinds, at: ws[0].at, target: ws[0].target });
  }
  return memo;
}
