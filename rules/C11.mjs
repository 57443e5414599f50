// Rely/guarantee: what one call (or another client) leaves behind in shared state is
// computed, and every operation is re-analysed on top of it.
import { OK, bad, maybe, eachCase, caseName, variants, deepEff, terminals, seqs, PRIMITIVES, OPS, primCases } from './common.mjs';
import { run as runCase } from '../lib/decide.mjs';
import { runOp, opInfo, program, setup } from '../lib/run.mjs';
import { effKey, vkey, join, State, union } from '../lib/domain.mjs';
import { root } from '../lib/terms.mjs';
import { quiet, PRIM_WHEN } from './C06.mjs';
import { otherCall, shared, callSubjects } from '../lib/prior.mjs';
export { otherCall, shared };

const text = (o, map = (s) => s) => {
  const ends = terminals(o).map((t) => {
    const ss = seqs(t.st.eff, (e) => e.k === 'fetch');
    return `${t.kind}|${ss ? ss.map((s) => s.map(effKey).join(' ; ')).sort().join(' || ') : 'many'}|${t.m ? vkey(t.m) : ''}`;
  });
  return map([...new Set(ends)].sort().join('\n')).replace(/@\d+/g, '');
};
const foreign = (s) => { const m = s.match(/§\d[\w.$[\]*]*|resp1\d\d[\w.]*|\$key2|\$opts2[\w.]*/); return m && m[0]; };

// a second client, constructed with $key2/$opts2
function otherClient(I) {
  const P = program();
  I.caseKinds.set('$key2', new Set(['str'])); I.caseKinds.set('$opts2', new Set(['obj']));
  I.caseKinds.set('$opts2.baseUrl', new Set(['str'])); I.caseKinds.set('$opts2.userAgent', new Set(['str']));
  I.rootTypes.set('$key2', I.rootTypes.get('$key') || []); I.rootTypes.set('$opts2', I.rootTypes.get('$opts') || []);
  const c = I.construct(I.mkClass(P.client, I.globalEnv), [[root('$key2')], [root('$opts2')]], P.client);
  if (I.st) { I.st.eff = []; }
  return c;
}
// shared part of a snapshot folded into the running state
function interfere(I, snaps) {
  if (!I.st) return;
  for (const s of snaps) {
    const t = I.st.clone();
    const j = join(new State(), new State());
    void j;
    for (const [a, r] of s.heap) if (!t.heap.has(a)) t.heap.set(a, r); else if (a <= I.setupMark && t.heap.get(a) !== r) {
      const x = new State(); x.heap.set(a, t.heap.get(a)); const y = new State(); y.heap.set(a, r);
      t.heap.set(a, join(x, y).heap.get(a));
    }
    for (const [c, v] of s.cells) { if (!t.cells.has(c)) t.cells.set(c, v); else if (I.setupCells.has(c)) t.cells.set(c, union(t.cells.get(c), v)); }
    for (const [k, v] of s.over) if (!t.over.has(k)) t.over.set(k, v);
    I.st = t;
  }
}

export async function run(ctx) {
  const subjects = callSubjects();
  // who writes to state that outlives the call?
  const writers = [];
  const seen = new Set();
  for (const [op, label, kinds] of subjects) {
    const o = runCase(op, kinds);
    const ws = terminals(o).flatMap((t) => [...deepEff(t.st.eff)].filter(shared));
    if (!ws.length) continue;
    const key = ws.map((e) => `${e.target}.${e.name || ''}`).sort().join(';').replace(/@\d+/g, '');
    ctx.extra.shared_writes = (ctx.extra.shared_writes || []).concat(ws.map((e) => `${op}: ${e.target} at ${e.at || ''}`)).slice(0, 30);
    if (seen.has(key) && writers.length >= 6) continue;
    seen.add(key); writers.push([op, label, kinds, ws[0].at]);
  }
  const picked = writers.slice(0, 8);
  let n = 0;
  for (const [op, label, kinds] of subjects) {
    const where = ctx.where(op);
    // another client in the process, made after and made before
    const own = { ...kinds };
    const base = text(runCase(op, own));
    const after = text(runOp(op, own, { before: (I) => { otherClient(I); } }));
    n++;
    ctx.fact(`${op} is not affected by constructing another client: ${label}`, judge(base, after, 'constructing another client'), where, `${op}:client-after`);
    const cfg = { ...kinds, $opts: ['obj'], '$opts.baseUrl': ['str'], '$opts.userAgent': ['str'] };
    const base2 = text(runCase(op, cfg));
    const second = text(runOp(op, kinds, { client: (I) => otherClient(I) }), (s) => s.replaceAll('$key2', '$key').replaceAll('$opts2', '$opts'));
    ctx.fact(`${op} of a second client uses that client's own configuration: ${label}`, judge(base2, second, 'an earlier client'), where, `${op}:client-before`);
    if (!picked.length) { ctx.fact(`${op}: no operation leaves anything behind in shared state: ${label}`, OK, where, `${op}:calls`); continue; }
    for (const [wop, wl, wk, wat] of picked) {
      for (const same of [true, false]) {
        const who = `${same ? 'an earlier call' : 'a call on another client'} of ${wop}`;
        let r;
        try {
          const strong = text(runOp(op, own, { before: (I) => otherCall(I, wop, wk, same ? setup(own).client : otherClient(I), () => {}) }));
          r = judge(base, strong, `${who} (${wl}; shared state written at ${wat})`);
          if (r.s === 'ok' && same) {
            const snaps = [];
            const weak = text(runOp(op, own, { before: (I) => { const s0 = I.st.clone(); otherCall(I, wop, wk, setup(own).client, (s) => snaps.push(s)); const h = I.st; I.st = s0; void h; interfere(I, snaps.slice(-6)); }, onAwait: (I) => interfere(I, snaps.slice(-6)) }));
            const f = foreign(weak);
            r = f ? bad(`a concurrent call of ${wop} can put its own ${f} into this call (shared state written at ${wat})`) : OK;
          }
        } catch (e) { r = maybe(`analyser: ${e.message}`); }
        ctx.fact(`${op} is not affected by ${who}: ${label}`, r, where, `${op}:calls:${wop}`);
      }
    }
  }
  ctx.extra.writers = writers.length;
  ctx.need(450);
  void OPS;
  return ctx.finish('Rely/guarantee over shared state: what one call, at each of its suspension points, or another client can leave in module, client or resource state is computed first; every operation is then re-analysed starting from that state and its requests and results have to be those of the undisturbed analysis, free of the other call\'s terms.', { operations_compared: n });
}
function judge(base, got, by) {
  const f = foreign(got);
  if (f) return bad(`${f} of ${by} reaches this call's request or result`);
  if (base === got) return OK;
  let i = 0; while (i < base.length && base[i] === got[i]) i++;
  return bad(`${by} changes this call: "…${got.slice(Math.max(0, i - 60), i + 60)}…" instead of "…${base.slice(Math.max(0, i - 60), i + 60)}…"`);
}
