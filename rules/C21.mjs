// Lists: element for element, in order, each element its own.
import { OK, bad, maybe, combine, all, eachCase, caseName, onRequest, req, anyFetch, envFailed } from './common.mjs';
import { kindsAt } from '../lib/carry.mjs';
import { run as run1 } from '../lib/decide.mjs';
import { prop, elem } from '../lib/terms.mjs';
import { vkey } from '../lib/domain.mjs';
import { bodyVerdict, docs, termOf } from './C02.mjs';

const isList = (k) => k === 'arr' || k === 'earr';
// list-valued members the argument type declares: [term, kinds that reach it, first member]
function lists(op, spec, c) {
  const o = run1(op, { ...c.when });
  const I = o.I; const out = [];
  const walk = (t, kinds, first, depth) => {
    const ks = [...kindsAt(I, t)];
    if (ks.some(isList)) { out.push([t, kinds, first]); if (depth < 5) walk(elem(t), { ...kinds, [t.k]: ['arr'] }, first, depth + 1); }
    if (!ks.includes('obj') || depth >= 5) return;
    const { names } = I.declaredProps(t);
    for (const n of names) {
      if (n === 'react') continue;
      walk(prop(t, n), { ...kinds, [t.k]: ['obj'] }, first || n, depth + 1);
    }
  };
  const from = termOf(spec.body.eachOf || spec.bodyTerm || spec.body.from);
  const omit = new Set(spec.body.omit || []);
  if (spec.body.eachOf) walk(from, {}, null, 0);
  else for (const n of I.declaredProps(from).names) if (!omit.has(n) && n !== 'react') walk(prop(from, n), {}, n, 1);
  return out;
}
// does what stands for every element of a list carry something of one particular element of it?
const foreign = (v) => (v || []).some((a) => {
  if (a.t === 'o') return [...a.m.values()].some((e) => foreign(e.v)) || (a.rest || []).some((e) => /\[~\]/.test(vkey(e.v || [])));
  if (a.t === 'a') return a.segs.some((s) => (s.k === 'each' ? /\[(~|\d+)\]/.test(vkey(s.v)) : foreign(s.v)));
  return /\[~\]/.test(vkey([a]));
});
const neighbours = (r) => combine(docs(r.body).map((d) => (d && foreign(d) ? bad('an element carries a member of another element of the list') : OK)));

export async function run(ctx) {
  let found = 0;
  for (const [op, spec, c] of eachCase()) {
    if (!spec.body || spec.form) continue;
    for (const [t, reach, first] of lists(op, spec, c)) {
      found++;
      const inEach = spec.body.eachOf && t.k !== spec.body.eachOf;
      const only = inEach ? (/\[\*\]\.([\w$]+)/.exec(t.k.slice(spec.body.eachOf.length)) || [])[1] : first;
      const sp = { ...spec, body: { ...spec.body, ...(only ? { only } : {}) } };
      const variants = [['non-empty', ['arr']], ['empty', ['earr']]];
      const react = spec.body.react ? [['', { [`${spec.body.from}.react`]: ['absent', 'undef'] }], ['; with a React element', { [`${spec.body.from}.react`]: ['obj'], 'ok:import @react-email/render': ['true'] }]] : [['', {}]];
      const opts = spec.opts && spec.body.eachOf ? [['', { [spec.opts]: ['undef'] }], ['; with options', { [spec.opts]: ['obj'], [`${spec.opts}.headers`]: ['absent', 'undef'] }]] : [['', {}]];
      for (const [vn, vk] of variants) for (const [rn, rw] of react) for (const [on, ow] of opts) {
        if (t.k === spec.body.eachOf && vn === 'empty' && rn) continue;
        const kinds = { ...c.when, ...rw, ...ow, ...reach, [t.k]: vk };
        ctx.ob(op, `${vn} ${t.k} goes out element for element (${caseName(c)}${rn}${on})`, kinds, (o, ks) => {
          if (!anyFetch(o)) return envFailed(ks) || rn ? OK : bad('no request is made');
          return onRequest(o, ks, (e) => {
            const r = req(e, o.I);
            const v = all([bodyVerdict(r, sp, o.I), neighbours(r)]);
            return v.s === 'bad' ? { ...v, at: e.at } : v;
          });
        }, { key: `${op}:${t.k}` });
      }
    }
  }
  ctx.need(80);
  void maybe;
  return ctx.finish('Every list-valued member that the declared argument types of an operation contain, at any depth down to five, is enumerated from the type checker. With that list non-empty and empty, the analysed request body must hold at the same place either the caller\'s list itself or a list built by one unconditional, order-keeping step per element, whose elements carry exactly their own element\'s members (members of other elements are tracked as a separate term).', { lists: found });
}
