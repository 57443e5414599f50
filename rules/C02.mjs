import { primCases, OPS, OK, bad, maybe, combine, all, show, eachCase, caseName, onRequest, req, anyFetch, envFailed } from './common.mjs';
import { carry, object, kindsAt } from '../lib/carry.mjs';
import { root, prop, elem } from '../lib/terms.mjs';
import { run as run1 } from '../lib/decide.mjs';
import { UNDEF, JSONKINDS } from '../lib/domain.mjs';

export function termOf(path) {
  const bits = path.match(/\$\d+|\.[\w$]+|\[\*\]/g);
  let t = root(bits[0]);
  for (const b of bits.slice(1)) t = b === '[*]' ? elem(t) : prop(t, b.slice(1));
  return t;
}
// the JSON documents a body may be
export const docs = (v) => v.map((a) => {
  if (a.t === 'json') return a.tree;
  if (a.t === 'c' && a.v === undefined) return [UNDEF];
  if (a.t === 'c' && typeof a.v === 'string') { try { return [constDoc(JSON.parse(a.v))]; } catch { return null; } }
  return a.t === 'top' ? undefined : null;
});
const constDoc = (v) => (Array.isArray(v) ? { t: 'a', segs: v.map((x) => ({ k: 'el', v: [constDoc(x)], p: true })) } : v && typeof v === 'object' ? { t: 'o', m: new Map(Object.entries(v).map(([k, x], i) => [k, { v: [constDoc(x)], p: true, seq: i }])), rest: [] } : { t: 'c', v });

export function bodyVerdict(r, spec, I) {
  if (spec.bodyTerm) return each(r.body, (tree) => carry(tree, termOf(spec.bodyTerm), I));
  if (!spec.body) {
    if (spec.form) return OK;
    return each(r.body, (tree) => combine(tree.map((a) => {
      if (a.t === 'c' && (a.v === undefined || a.v === null)) return OK;
      if (a.t === 'o') return object(a, root('$none'), I, {});
      return a.t === 'top' ? maybe('body') : bad(`an undocumented body ${show(a)} is sent`);
    })));
  }
  const b = spec.body;
  if (b.eachOf) return each(r.body, (tree) => carry(tree, termOf(b.eachOf), I, { each: b }));
  return each(r.body, (tree) => docVerdict(tree, termOf(b.from), I, b));
}
function each(body, f) {
  return combine(docs(body).map((d) => (d === undefined ? maybe('body not resolved') : d === null ? bad(`body is not a JSON document: ${show(body)}`) : f(d))));
}
function docVerdict(tree, term, I, b) {
  return combine(tree.map((a) => {
    if (a.t === 'c' && a.v === undefined) a = { t: 'o', m: new Map(), rest: [] };
    if (a.t === 'o') return object(a, term, I, b);
    if (a.t === 'x' && a.k === term.k) {
      const r = carry([a], term, I, b);
      if (r.s !== 'ok') return r;
      for (const n of b.omit || []) { const ks = kindsAt(I, prop(term, n)); if ([...ks].some((k) => k !== 'absent' && k !== 'undef')) return bad(`${n} identifies the resource but is sent in the body`); }
      return b.react ? bad('the React element itself is sent') : OK;
    }
    return a.t === 'top' ? maybe('body not resolved') : bad(`body ${show(a)} does not carry ${term.k}`);
  }));
}

// one obligation per declared member, and one for members nobody supplied
function members(op, spec, c) {
  if (!spec.body) return [''];
  const o = run1(op, { ...c.when });
  const { names } = o.I.declaredProps(termOf(spec.body.from));
  const omit = new Set([...(spec.body.omit || []), ...(spec.body.react ? ['react'] : [])]);
  const out = names.filter((n) => !omit.has(n));
  if (spec.body.react && !out.includes('html')) out.push('html');
  return out.concat('+');
}
const narrow = (spec, only) => (only && spec.body ? { ...spec, body: { ...spec.body, only } } : spec);

export async function run(ctx) {
  for (const [op, spec, c] of eachCase()) {
    if (spec.verb === 'GET' || spec.form) continue;
    for (const only of members(op, spec, c)) {
      const sp = narrow(spec, only);
      ctx.ob(op, `body${only ? `.${only}` : ''} of ${spec.verb} ${c.path} (${caseName(c)})`, { ...c.when }, (o, kinds) => {
        if (!anyFetch(o)) return envFailed(kinds) ? OK : bad('no request is made');
        return onRequest(o, kinds, (e) => { const v = bodyVerdict(req(e, o.I), sp, o.I); return v.s === 'bad' ? { ...v, at: e.at } : v; });
      }, { key: `${op}:body.${only}` });
    }
  }
  // the client's own request methods send whatever document they are given
  for (const [op, spec] of primCases()) {
    if (!spec.entity) continue;
    for (const k of [...JSONKINDS, 'absent', ...(op === 'post' ? ['inst:FormData'] : [])]) {
      ctx.ob(op, `body (${k}) of a ${spec.verb} to the given path`, { $0: ['str'], [spec.entity]: [k] }, (o, kinds) => {
        if (!anyFetch(o)) return envFailed(kinds) ? OK : bad('no request is made');
        return onRequest(o, kinds, (e) => {
          const b = req(e, o.I).body; const t = termOf(spec.entity);
          let v;
          if (k === 'absent') v = combine(b.map((a) => (a.t === 'c' && (a.v === undefined || a.v === null) ? OK : a.t === 'json' && a.tree.every((q) => (q.t === 'c' && q.v === undefined) || q.t === 'x' && q.k === t.k) ? OK : a.t === 'x' && a.k === t.k ? OK : a.t === 'top' ? maybe('body') : bad(`a body ${show(a)} is sent although none was given`))));
          else if (k.startsWith('inst:')) v = combine(b.map((a) => (a.t === 'x' && a.k === t.k ? OK : a.t === 'top' ? maybe('body') : bad(`the form given is not what is sent: ${show(a)}`))));
          else v = each(b, (tree) => carry(tree, t, o.I));
          return v.s === 'bad' ? { ...v, at: e.at } : v;
        });
      }, { key: `${op}:body` });
    }
  }
  ctx.need(270);
  void OPS; void all;
  return ctx.finish('For every write operation, in every documented alternative of its arguments, the abstract interpreter computes the JSON document that reaches fetch as a term over the caller\'s argument. The rule walks the documented wire shape: every member must be the caller\'s term itself, present exactly when the caller\'s member is set, under every kind (absent, undefined, null, false, 0, empty string, empty list, value) of that member and of its neighbours; no other member may exist. Cases are split only on facts a path really decides on.');
}
