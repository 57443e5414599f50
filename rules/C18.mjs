// An identifier fills exactly one path segment.
import { OK, bad, maybe, combine, show, eachCase, caseName, onRequest, req, splitUrl, bareStr, anyFetch, FORWARD, DOWN } from './common.mjs';
import { akey } from '../lib/domain.mjs';

const terms = (tpl) => [...tpl.matchAll(/\{([^}]+)\}/g)].map((m) => m[1]);
const mentionsTerm = (s, t) => new RegExp(`(?<![\\w.$])${t.replace(/[$.]/g, '\\$&')}(?![\\w.$[])`).test(s);
// how the identifier appears in one URL
export function segment(atom, term) {
  if (bareStr(atom).t === 'top') return maybe('URL not resolved');
  const u = splitUrl(bareStr(atom));
  if (!u) return maybe('URL not resolved');
  const rs = []; 
  u.path.forEach((p, i) => {
    if (typeof p === 'string') return;
    if (p.t === 'top') { rs.push(maybe('URL not resolved')); return; }
    const b = bareStr(p);
    const inner = b.t === 'x' && b.op === 'enc' ? bareStr(b.base) : null;
    if (inner && inner.k === term) {
      const before = u.path[i - 1]; const after = u.path[i + 1];
      if (typeof before !== 'string' || !before.endsWith('/') || !(after === undefined || (typeof after === 'string' && /^\//.test(after)))) rs.push(bad(`the identifier shares its segment in ${show(atom)}`));
      return;
    }
    if (mentionsTerm(akey(b), term)) { rs.push(bad(`${term} is put into the path without percent-encoding: ${show(atom)}`)); }
  });
  if (rs.length) return rs.find((r) => r.s === 'bad') || rs[0];
  return OK;
}

export async function run(ctx) {
  for (const [op, spec, c] of eachCase()) {
    for (const t of new Set(terms(c.path))) {
      void spec;
      ctx.ob(op, `${t} fills one path segment of ${c.path} (${caseName(c)})`, c.when, (o) => (!anyFetch(o) ? OK : onRequest(o, c.when, (e) => {
        const r = req(e, o.I);
        const v = combine(r.url.map((a) => segment(a, t)));
        return v.s === 'bad' ? { ...v, at: e.at } : v;
      })), { key: `${op}:${t}` });
    }
  }
  // forwarding fetches the received email by its identifier first
  ctx.ob(FORWARD, '$0.emailId fills one path segment of /emails/receiving/{$0.emailId}', { ...DOWN(1) }, (o) => onRequest(o, {}, (e) => { const v = combine(req(e, o.I).url.map((a) => segment(a, '$0.emailId'))); return v.s === 'bad' ? { ...v, at: e.at } : v; }), { key: `${FORWARD}:$0.emailId` });
  ctx.need(70);
  ctx.assumptions.push('the identifiers "." and ".." are outside the property: the URL standard normalises them even when percent-encoded');
  return ctx.finish('Every path template of the documented endpoint table that carries a caller-supplied identifier is checked: in the analysed URL the identifier has to appear only inside encodeURIComponent and between two segment boundaries, for all strings. Operations listed in known-findings.json put it in raw.');
}
