import { OK, bad, eachCase, caseName, variants, never, deepEff, PRIMITIVES, publicOps, SPECIAL, OPS } from './common.mjs';
import { rootOf } from '../lib/terms.mjs';
import { setup } from '../lib/run.mjs';

export const callerOwned = (x) => { const r = rootOf(x); return r && r.op === 'root' && r.k.startsWith('$'); };
export const mutation = (e) => (e.k === 'mutate' && callerOwned(e.x) ? `the caller's ${e.target} is modified` : null);

export async function run(ctx) {
  const obl = (o) => never(o, mutation);
  for (const [op, spec, c] of eachCase()) for (const [vn, w] of variants(spec)) {
    ctx.ob(op, `arguments unmodified: ${c.path} (${caseName(c)}${vn ? `; ${vn}` : ''})`, { ...c.when, ...w }, obl, { key: `${op}:mutation` });
  }
  // the raw request methods, the special operations, and any operation the table does not list
  for (const op of publicOps()) {
    if (OPS[op]) continue;
    const vs = op === 'emails.receiving.forward' ? [{ '$0.passthrough': ['false'] }, { '$0.passthrough': ['absent', 'true'] }] : [{}];
    for (const w of vs) for (const h of ['absent', 'obj', 'inst:Headers']) {
      const oi = PRIMITIVES.includes(op) ? ({ get: '$1', fetchRequest: '$1' }[op] || '$2') : op === 'emails.receiving.forward' ? '$1' : null;
      if (!oi && h !== 'absent') continue;
      ctx.ob(op, `arguments unmodified: ${op} (${JSON.stringify(w)}; headers ${h})`, { ...w, ...(oi ? { [oi]: ['obj'], [`${oi}.headers`]: [h] } : {}) }, obl, { key: `${op}:mutation` });
    }
  }
  // constructing a client
  for (const u of ['absent', 'str']) {
    const s = setup({ $opts: ['obj'], '$opts.userAgent': [u] });
    const effs = [...(s.st ? deepEff(s.st.eff) : [])].filter(mutation);
    ctx.fact(`constructor options unmodified (userAgent ${u})`, effs.length ? bad(mutation(effs[0]), effs[0].at) : OK, 'src/resend.ts', `constructor:${u}`);
  }
  ctx.need(150);
  void SPECIAL;
  return ctx.finish('An effect analysis: every write to a member, element, or collection on every path of every operation (also after awaits and on failing paths) is resolved to the objects it can reach; a write to anything reachable from a caller\'s argument is a violation at that construct.');
}
