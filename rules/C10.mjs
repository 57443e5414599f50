import { OK, bad, maybe, combine, eachCase, caseName, fetchSeqs, envFailed, variants, PRIMITIVES, terminals, deepEff } from './common.mjs';
import { PRIM_WHEN, up, SCEN, quiet } from './C06.mjs';
import { otherCall, shared } from './C11.mjs';
import { run as runCase } from '../lib/decide.mjs';
import { setup } from '../lib/run.mjs';

const say = (seq) => seq.map((e) => (e.k === 'loop' ? `${say(e.effs)} for each of ${e.src}` : `request ${e.n} at ${e.at}`)).join(', then ') || 'none';
// exactly these requests, in this order, whatever else happens
export const exactly = (n, { zeroOk } = {}) => (o, kinds) => {
  if (o.noClient) return maybe('no client');
  const ss = fetchSeqs(o);
  if (!ss) return maybe('too many sequences');
  return combine(ss.map(({ seq, kind }) => {
    if (seq.length === n && seq.every((e) => e.k === 'fetch')) return OK;
    if (!seq.length && (zeroOk || envFailed(kinds)) && kind === 'rej') return OK;
    const last = seq[seq.length - 1];
    return bad(seq.length ? `the call makes ${say(seq)}, instead of ${n} request${n === 1 ? '' : 's'}` : 'no request is made', last && (last.at || (last.effs && last.effs[0].at)));
  }));
};
// the chained form: client.templates.create(...).publish()
export const chained = (I, callee, recv, args) => {
  const v = I.callVal(callee, recv, args, null, 0);
  if (!I.st) return [];
  const f = I.getProp(v, 'publish', null, true);
  if (!I.st) return [];
  const r = I.callVal(f, v, [], null, 0);
  return I.st ? I.awaitVal(r, 0) : [];
};
export const CHAINS = [['templates.create', { '$0.react': ['absent', 'undef'] }], ['templates.duplicate', {}]];

export async function run(ctx) {
  for (const [op, spec, c] of eachCase()) for (const [vn, w] of variants(spec)) {
    ctx.ob(op, `one request: ${c.path} (${caseName(c)}${vn ? `; ${vn}` : ''})`, { ...(spec.body && spec.body.react && vn !== 'react' ? { [`${spec.body.from}.react`]: ['absent', 'undef'] } : {}), ...c.when, ...w }, exactly(1, { zeroOk: vn === 'react' }), { key: `${op}:count` });
    if (!vn) for (const s of SCEN(1)) ctx.ob(op, `one request when ${s.name}: ${c.path} (${caseName(c)})`, { ...(spec.body && spec.body.react ? { [`${spec.body.from}.react`]: ['absent', 'undef'] } : {}), ...c.when, ...s.when }, exactly(1), { key: `${op}:count` });
  }
  // repeating a call makes its request again: nothing is answered from what an earlier call left
  for (const [op, spec, c] of eachCase()) {
    const kinds = { ...c.when, ...quiet(spec) };
    const o = runCase(op, kinds);
    if (!terminals(o).some((t) => [...deepEff(t.st.eff)].some(shared))) { ctx.fact(`${op} leaves nothing behind that could answer a later call: ${c.path} (${caseName(c)})`, OK, ctx.where(op), `${op}:repeat`); continue; }
    for (const s of [SCEN(101)[1], SCEN(101)[0]]) ctx.ob(op, `one request when repeated after ${s.name}: ${c.path} (${caseName(c)})`, { ...kinds, ...s.when }, exactly(1), { key: `${op}:repeat`, run: { tag: 'again', before: (I) => otherCall(I, op, kinds, setup(kinds).client, () => {}, '$') } });
  }
  for (const p of PRIMITIVES) for (const s of SCEN(1)) ctx.ob(p, `one request when ${s.name}: ${p}`, { ...PRIM_WHEN[p], ...s.when }, exactly(1), { key: `${p}:count` });
  // forwarding: read, download, send
  const fw = 'emails.receiving.forward'; const T = ['true']; const F = ['false'];
  const raw = { 'resp1.json.raw': ['obj'], 'resp1.json.raw.download_url': ['str'] };
  const dl = { 'ok:fetch#2': T, 'resp2.ok': T, 'ok:resp2.text()': T, 'ok:resp2.arrayBuffer()': T, 'ok:resp2.blob()': T, 'ok:resp2.bytes()': T };
  for (const p of ['absent', 'true', 'false']) {
    const base = { '$0.passthrough': [p], $1: ['undef'] };
    for (const s of SCEN(1)) if (s.name !== 'a JSON success') ctx.ob(fw, `only the read when ${s.name} (passthrough ${p})`, { ...base, ...raw, ...s.when }, exactly(1), { key: `${fw}:read` });
    for (const m of [{ 'resp1.json.raw': ['null'] }, { 'resp1.json.raw': ['absent'] }, { 'resp1.json.raw': ['obj'], 'resp1.json.raw.download_url': ['estr'] }, { 'resp1.json.raw': ['obj'], 'resp1.json.raw.download_url': ['absent'] }]) ctx.ob(fw, `only the read when there is no raw content (${Object.entries(m)}) (passthrough ${p})`, { ...base, ...up(1), ...m }, exactly(1), { key: `${fw}:noraw` });
    for (const [n, w] of [['fails', { 'ok:fetch#2': F }], ['is refused', { 'ok:fetch#2': T, 'resp2.ok': F }], ['breaks off', { ...dl, 'ok:resp2.text()': F, 'ok:resp2.arrayBuffer()': F, 'ok:resp2.blob()': F, 'ok:resp2.bytes()': F }]]) ctx.ob(fw, `read and download only when the download ${n} (passthrough ${p})`, { ...base, ...up(1), ...raw, ...w }, exactly(2), { key: `${fw}:download` });
    for (const s of SCEN(3)) ctx.ob(fw, `read, download, send once when ${s.name} (passthrough ${p})`, { ...base, ...up(1), ...raw, ...dl, 'ok:postal-mime': T, ...s.when }, (o, k) => {
      const ss = fetchSeqs(o); if (!ss) return maybe('too many sequences');
      const parsed = ss.filter((q) => !(q.kind === 'rej' && q.seq.length === 2));
      return parsed.length ? combine(parsed.map(({ seq }) => (seq.length === 3 && seq.every((e) => e.k === 'fetch') ? OK : bad(`forwarding makes ${say(seq)}`)))) : exactly(3)(o, k);
    }, { key: `${fw}:send` });
  }
  // chained publish: create or duplicate once, then publish once
  for (const [op, w] of CHAINS) {
    const run2 = { call: chained, tag: 'chained' };
    for (const s of SCEN(1)) if (s.name !== 'a JSON success') ctx.ob(op, `chained publish stops when ${s.name}`, { ...w, ...s.when }, exactly(1), { key: `${op}:chain`, run: run2 });
    for (const s of SCEN(2)) ctx.ob(op, `chained publish publishes once when ${s.name}`, { ...w, ...up(1), ...s.when }, exactly(2), { key: `${op}:chain`, run: run2 });
  }
  ctx.need(900);
  return ctx.finish('The sequence of fetch effects on every path of every operation is computed (loops included) for every way the exchange can go; it has to have exactly one request, and for the two composite operations exactly the documented steps, each after the previous one\'s success. The same is done again on top of what an earlier call leaves in shared state.');
}
