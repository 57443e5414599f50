import { OK, bad, maybe, combine, all, show, eachCase, caseName, onRequest, req, anyFetch, terminals, deepEff, seqs, never, fetchSeqs } from './common.mjs';
import { docs, termOf } from './C02.mjs';
import { field } from '../lib/wire.mjs';
import { carry, isRender } from '../lib/carry.mjs';
import { prop } from '../lib/terms.mjs';
import { akey, vkey } from '../lib/domain.mjs';

const RENDER = '@react-email/render';
const isRenderEff = (e) => (e.k === 'ext' && String(e.name).startsWith(RENDER));
const isImport = (e) => e.k === 'importDyn' || (e.k === 'ext' && String(e.name).startsWith(RENDER));
const eq = (v, k) => v && v.length === 1 && v[0].t === 'x' && v[0].k === k;
// rendered exactly once before what is sent, with this element
function renderedOnce(o, react, each) {
  return combine(terminals(o).map((t) => {
    const ss = seqs(t.st.eff, (e) => isRenderEff(e) || e.k === 'fetch');
    if (!ss) return maybe('too many sequences');
    return combine(ss.map((s) => {
      const flat = each ? s.flatMap((e) => (e.k === 'loop' ? e.effs.map((q) => ({ ...q, inLoop: true })) : [e])) : s;
      const i = flat.findIndex((e) => e.k === 'fetch'); const before = i < 0 ? flat : flat.slice(0, i);
      const late = i < 0 ? [] : flat.slice(i + 1).filter((e) => e.k !== 'fetch');
      const rs = before.filter((e) => e.k !== 'fetch');
      if (late.length) return bad('rendering happens after the request', late[0].at);
      if (rs.some((e) => e.k === 'loop')) return bad('the element is rendered repeatedly', rs[0].at);
      for (const e of rs) if (!eq((e.args || [])[0], react)) return bad(`something other than the supplied element is rendered: ${show((e.args || [])[0] || [])}`, e.at);
      if (i < 0) return rs.length <= 1 ? OK : bad('the element is rendered more than once', rs[1].at);
      if (rs.length !== 1) return bad(rs.length ? 'the element is rendered more than once' : 'the element is not rendered', (rs[1] || flat[i]).at);
      return OK;
    }));
  }));
}
const bodies = (r, b, f) => combine(docs(r.body).map((d) => {
  if (d === undefined) return maybe('body not resolved');
  if (d === null) return bad('body is not a JSON document');
  return combine(d.map((a) => {
    if (!b.eachOf) return f(a);
    if (a.t === 'a' && a.segs.length === 1) return combine(a.segs[0].v.map(f));
    return a.t === 'top' || a.t === 'a' ? maybe('body not resolved') : bad(`the body is ${show(a)}`);
  }));
}));

export async function run(ctx) {
  for (const [op, spec, c] of eachCase()) {
    const b = spec.body;
    if (!b || !b.react) continue;
    const R = `${b.from}.react`; const rt = prop(termOf(b.from), 'react'); const ht = prop(termOf(b.from), 'html');
    const base = b.eachOf ? { [b.eachOf]: ['arr'] } : {};
    const opts = spec.opts ? [{ [spec.opts]: ['undef'] }, { [spec.opts]: ['obj'] }] : [{}];
    const up = { [`ok:import ${RENDER}`]: ['true'] };
    const label = `${spec.verb} ${c.path} (${caseName(c)})`;
    for (const w of opts) {
      const k0 = { ...base, ...c.when, ...w };
      const wl = Object.values(w).map((v) => v[0]).join() || 'no options';
      const on = (f) => (o, kinds) => (anyFetch(o) ? onRequest(o, kinds, (e) => { const v = f(req(e, o.I), o.I); return v.s === 'bad' ? { ...v, at: e.at } : v; }) : [...o.decisions.keys()].length ? OK : maybe('no request'));
      for (const hk of [['absent', 'undef'], ['str'], ['estr'], ['null']]) {
        const kinds = { ...k0, ...up, [R]: ['obj'], [ht.k]: hk };
        ctx.ob(op, `a React element becomes html (html ${hk[0]}; ${wl}): ${label}`, kinds, on((r, I) => bodies(r, b, (a) => {
          if (a.t !== 'o') return a.t === 'top' ? maybe('body') : bad(`the element is not rendered: ${show(a)} is sent`);
          return combine(field([a], 'html', I).map((q) => (isRender(q, rt) ? OK : q.t === 'top' ? maybe('html not resolved') : bad(`html is ${show(q)} although a React element was supplied`))));
        })), { key: `${op}:render` });
        ctx.ob(op, `the element itself is not sent (html ${hk[0]}; ${wl}): ${label}`, kinds, on((r, I) => bodies(r, b, (a) => {
          if (a.t === 'x') return a.k === termOf(b.from).k ? bad('the React element itself is sent') : OK;
          if (a.t !== 'o') return OK;
          const left = akey(a).replaceAll(`ext ${RENDER}.render(<${rt.k}>)`, '');
          void I;
          return left.includes(`<${rt.k}>`) ? bad(`the React element itself is sent: ${[...a.m].filter(([, e]) => vkey(e.v).includes(`<${rt.k}>`)).map(([k]) => k)}`) : OK;
        })), { key: `${op}:element` });
        ctx.ob(op, `rendered once, before sending (html ${hk[0]}; ${wl}): ${label}`, kinds, (o) => renderedOnce(o, rt.k, !!b.eachOf), { key: `${op}:once` });
      }
      for (const rk of [['absent', 'undef'], ['null']]) {
        const kinds = { ...k0, [R]: rk };
        ctx.ob(op, `without an element nothing is rendered (react ${rk[0]}; ${wl}): ${label}`, kinds, (o) => never(o, (e) => (isImport(e) ? `${e.name} is ${e.k === 'ext' ? 'called' : 'loaded'} although no element was supplied` : null)), { key: `${op}:norender` });
        ctx.ob(op, `without an element html is sent as is (react ${rk[0]}; ${wl}): ${label}`, kinds, on((r, I) => bodies(r, b, (a) => (a.t === 'o' ? carry(field([a], 'html', I), ht, I) : OK))), { key: `${op}:html` });
      }
      for (const [name, fail] of [['the renderer is not installed', { [`ok:import ${RENDER}`]: ['false'] }], ['rendering throws', { ...up, [`ok:${RENDER}.render(<${rt.k}>)`]: ['false'] }]]) {
        ctx.ob(op, `${name}: rejects and sends nothing (${wl}): ${label}`, { ...k0, [R]: ['obj'], ...fail }, (o) => {
          const ss = fetchSeqs(o);
          if (!ss) return maybe('too many sequences');
          return all([combine(ss.map((s) => (s.seq.length ? bad('a request is sent although rendering failed', (s.seq[0].at || (s.seq[0].effs && s.seq[0].effs[0].at))) : OK))),
            combine(terminals(o).map((t) => (t.kind === 'rej' ? OK : bad('the call resolves although rendering failed'))))]);
        }, { key: `${op}:fail` });
      }
    }
  }
  ctx.need(180);
  void deepEff;
  return ctx.finish('For every operation that accepts a React element, with the element set, left out or null and rendering succeeding or failing: the effect sequence must render that very element exactly once before the request, the html sent must be that rendering (or the caller\'s html), and the element may not be in the body.');
}
