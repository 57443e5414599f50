import { OK, bad, maybe, combine, all, show, eachCase, caseName, field, never } from './common.mjs';
import { resolves, envelope, noError, noData, dataIs, termError, headersAre, appError } from '../lib/envelope.mjs';
import { SCEN, quiet, up } from './C06.mjs';
import { carry } from '../lib/carry.mjs';
import { X, prop, elem } from '../lib/terms.mjs';

const RENAMED = { id: 'id', key: 'key', createdAt: 'created_at', type: 'type', fallbackValue: 'fallback_value' };
const RAW = { raw: true };
const json = (I) => { const b = X('resp', 'resp1', { n: 1, kinds: new Set(['inst:Response']) }); void I; return X('json', 'resp1.json', { base: b, kinds: new Set(['obj']) }); };
// a contact property under its SDK names
function renamed(a, term, I, objectName) {
  if (a.t === 'top') return maybe('data not resolved');
  if (a.t !== 'o') return bad(`data is ${show(a)}: the fields are not renamed`);
  const out = [];
  for (const [sdk, api] of Object.entries(RENAMED)) {
    const r = carry(field([a], sdk, I), prop(term, api), I, RAW);
    out.push(r.s === 'ok' ? r : { ...r, why: `${sdk}: ${r.why}` });
  }
  if (objectName) out.push(combine(field([a], 'object', I).map((q) => ((q.t === 'c' && q.v === objectName) || (q.t === 'x' && q.k === prop(term, 'object').k) ? OK : q.t === 'top' ? maybe('object') : bad(`object is ${show(q)}`)))));
  for (const [k] of a.m) if (!RENAMED[k] && k !== 'object' && !Object.values(RENAMED).includes(k)) out.push(bad(`member ${k} is added`));
  return all(out);
}
const one = (v, I) => combine(v.map((a) => renamed(a, json(I), I, 'contact_property')));
function list(v, I) {
  const t = json(I);
  return combine(v.map((a) => {
    if (a.t === 'top') return maybe('data not resolved');
    if (a.t !== 'o') return bad(`data is ${show(a)}: the items are not renamed`);
    const out = ['object', 'has_more'].map((n) => { const r = carry(field([a], n, I), prop(t, n), I, RAW); return r.s === 'ok' ? r : { ...r, why: `${n}: ${r.why}` }; });
    const src = prop(t, 'data'); const item = elem(src);
    out.push(combine(field([a], 'data', I).map((q) => {
      if (q.t === 'top') return maybe('list not resolved');
      if (q.t !== 'a' || q.segs.length !== 1 || q.segs[0].k !== 'each' || q.segs[0].src !== src.k) return bad(`data.data is ${show(q)}, not one entry per item`);
      const s = q.segs[0];
      if (s.p !== true) return { s: 'bad', why: 'items may be left out' };
      if (s.rev) return bad('the items are reversed');
      return combine(s.v.map((e) => renamed(e, item, I)));
    })));
    return all(out);
  }));
}

// the answer a term is part of: resp1.json, parse(<resp1.text>) and whatever they contain
function answerOf(x) {
  for (let y = x; y;) {
    if (y.op === 'json' || y.op === 'resp') return y;
    if (y.op === 'call' && y.name === 'parse' && y.args && y.args[0].length === 1) { y = y.args[0][0]; if (y.t === 'x' && /^resp\d+\.text/.test(y.k)) return y; continue; }
    y = y.base;
  }
  return null;
}
const altered = (e) => {
  if (e.k !== 'mutate' || !e.x || !answerOf(e.x)) return null;
  if (e.name !== null && e.value && e.value.length === 1 && e.value[0].t === 'x' && e.value[0].k === prop(e.x, e.name).k) return null;
  return `the API's answer is changed in place: ${e.target}`;
};
const intact = (spec, f) => (o) => {
  const r = f(o);
  const m = never(o, altered);
  return all([r, m.s === 'bad' && /renamed/.test(spec.data || '') ? maybe(m.why) : m]);
};

export async function run(ctx) {
  for (const [op, spec, c] of eachCase()) {
    const q = quiet(spec);
    const variants = [['', q]];
    if (spec.opts) { const { [spec.opts]: _o, ...r } = q; void _o; variants.push(['; with options', { ...r, [spec.opts]: ['obj'], [`${spec.opts}.headers`]: ['absent', 'undef'] }]); }
    for (const [vn, w] of variants) {
      const label = `${spec.verb} ${c.path} (${caseName(c)}${vn})`;
      const data = spec.data === 'renamed' ? one : spec.data === 'renamed-list' ? list : dataIs(['resp1.json', 'parse(<resp1.text>)']);
      ctx.ob(op, `the answer is returned: ${label}`, { ...c.when, ...w, ...up(1) }, intact(spec, (o) => resolves(o, envelope({ data, error: noError, headers: headersAre(['resp1']) }))), { key: `${op}:data` });
      // members the declared types promise may still be missing or null in what the API sends
      if (!spec.data) ctx.ob(op, `an answer unlike its declared type is returned: ${label}`, { ...c.when, ...w, ...up(1), '#answer': ['obj'] }, intact(spec, (o) => resolves(o, envelope({ data, error: noError, headers: headersAre(['resp1']) }), { rejectOk: () => true })), { key: `${op}:answer` });
      for (const s of SCEN(1)) {
        if (s.name === 'an API error object') ctx.ob(op, `the API's error is returned: ${label}`, { ...c.when, ...w, ...s.when }, intact(spec, (o) => resolves(o, envelope({ data: noData, error: termError(['parse(<resp1.text>)', 'resp1.json']), headers: headersAre(['resp1']) }))), { key: `${op}:error` });
        if (s.name === 'the request fails') ctx.ob(op, `a failed request is no success: ${label}`, { ...c.when, ...w, ...s.when }, (o) => resolves(o, envelope({ data: noData, error: appError([null]) })), { key: `${op}:failure` });
      }
    }
  }
  ctx.need(400);
  return ctx.finish('For each operation and each way the exchange ends, the resolved value is computed and has to be the API\'s own data term, the API\'s own error term and the same response\'s headers; for contact properties the documented renaming is checked field by field and item by item.');
}
