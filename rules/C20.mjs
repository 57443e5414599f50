// Console output: one console.error per failed API request, outside production only.
import { OK, bad, maybe, combine, all, show, eachCase, caseName, terminals, seqs, PRIMITIVES, deepEff, forwardCases, DL, DEFAULT_BASE } from './common.mjs';
import { akey, vkey } from '../lib/domain.mjs';
import { field, fieldOf } from '../lib/wire.mjs';
import { SCEN, quiet, PRIM_WHEN, up } from './C06.mjs';
import { CHAINS, chained } from './C10.mjs';
import { setup } from '../lib/run.mjs';

const ENVS = [['production', ['lit:production'], 0], ['not set', ['absent'], 1], ['empty', ['estr'], 1], ['development', ['lit:development'], 1], ['test', ['lit:test'], 1], ['staging', ['lit:staging'], 1], ['Production', ['lit:Production'], 1]];
const env = (k) => ({ process: ['obj'], 'process.env': ['obj'], 'process.env.NODE_ENV': k });
const isLog = (e) => e.k === 'log' || (e.k === 'ext' && /^process\.(stdout|stderr)/.test(String(e.name))) || (e.k === 'callback' && /^process\.(stdout|stderr)/.test(String(e.name)));
export const silent = (o) => combine(terminals(o).map((t) => {
  const ss = seqs(t.st.eff, isLog);
  if (!ss) return maybe('too many sequences');
  return combine(ss.map((s) => (s.length ? bad(`${s[0].name || 'something'} is written although no API request failed${''}`, s[0].at) : OK)));
}));
const quietly = (why) => (o) => { const v = silent(o); return v.s === 'ok' ? v : { ...v, why: `the console is written to ${why}` }; };
// everything an entry says: its arguments and, one level down, their members
function said(e, I) {
  const out = [];
  for (const v of e.args || []) for (const a of v) {
    out.push([a]);
    if (a.t === 'o') for (const [k, m] of a.m) out.push(m.p === true ? m.v : field([a], k, I));
  }
  return out;
}
const strOf = (a) => (a.t === 'c' ? String(a.v) : akey(a));
// the entry names the error the call resolved with, the path requested and the status
function tells(e, t, o, n, status) {
  const I = o.I; const vs = said(e, I);
  if (vs.some((v) => v.some((a) => a.t === 'top'))) return maybe('log entry not resolved');
  const err = t.kind === 'ok' && t.m ? field(t.m, 'error', I) : null;
  const rs = [];
  if (err && err.length) {
    const k = vkey(err); const has = vs.some((v) => vkey(v) === k) || vs.some((v) => v.length && v.every((a) => a.t === 'o') && err.every((q) => q.t === 'o' && v.some((a) => ['name', 'message', 'statusCode'].every((f) => vkey(field([q], f, I)) === vkey(field([a], f, I))))));
    rs.push(has ? OK : (err.length > 1 || vs.some((v) => v.length > 1)) ? maybe('the log entry may not carry the error', [...o.decisions.keys()].filter((k) => /resp\d|^instanceof/.test(k))) : bad(`the log entry does not carry the error the call resolves with (${show(err)})`, e.at));
  }
  const req = [...deepEff(t.st.eff)].filter((q) => q.k === 'fetch' && q.n === n);
  if (req.length === 1) {
    const urls = req[0].url.map(strOf);
    const wants = [...urls, ...urls.map((u) => u.replace(`s["${DEFAULT_BASE}"+`, 's[').replace(`"${DEFAULT_BASE}`, '"').replace(DEFAULT_BASE, '')), ...urls.map((u) => u.replace(`s["${DEFAULT_BASE}"+<`, '<').replace(/>\]$/, '>'))];
    const texts = vs.filter((v) => v.length).map((v) => v.map(strOf));
    const has = texts.some((v) => v.every((x) => wants.includes(x)) || (v.length > 1 && v.some((x) => wants.includes(x))));
    rs.push(has ? OK : bad(`the log entry does not carry the request path (${wants[wants.length > 2 ? 1 : 0]})`, e.at));
  }
  if (status) rs.push(vs.some((v) => v.some((a) => a.t === 'x' && a.k === status)) ? OK : bad('the log entry does not carry the HTTP status', e.at));
  return all(rs);
}
export const logsOnce = (n, status) => (o) => combine(terminals(o).map((t) => {
  const ss = seqs(t.st.eff, isLog);
  if (!ss) return maybe('too many sequences');
  return combine(ss.map((s) => {
    if (s.some((e) => e.k === 'loop')) return bad('the error is logged repeatedly', s.find((e) => e.k === 'loop').effs[0].at);
    if (!s.length) return bad('the failed request is not logged');
    if (s.length > 1) return bad(`the failed request is logged ${s.length} times`, s[1].at);
    if (s[0].name !== 'console.error') return bad(`the failed request is logged with ${s[0].name}, not console.error`, s[0].at);
    return tells(s[0], t, o, n, status);
  }));
}));
const statusOf = (s, n) => (/HTTP error|API error/.test(s.name) ? `resp${n}.status` : null);

export async function run(ctx) {
  const subjects = [];
  for (const [op, spec, c] of eachCase()) subjects.push([op, `${spec.verb} ${c.path} (${caseName(c)})`, { ...c.when, ...quiet(spec) }]);
  for (const p of PRIMITIVES) subjects.push([p, p, PRIM_WHEN[p]]);
  for (const [op, label, when] of subjects) for (const [en, ek, count] of ENVS) {
    for (const s of SCEN(1)) {
      const kinds = { ...env(ek), ...when, ...s.when };
      const ok = s.name === 'a JSON success';
      if (ok || !count) ctx.ob(op, `NODE_ENV ${en}: nothing is written when ${s.name}: ${label}`, kinds, quietly(ok ? 'although the request succeeded' : 'in production'), { key: `${op}:silent` });
      else ctx.ob(op, `NODE_ENV ${en}: one entry when ${s.name}: ${label}`, kinds, logsOnce(1, statusOf(s, 1)), { key: `${op}:once`, depth: 9, budget: 600 });
    }
  }
  // a failure is reported however often the same thing failed before
  for (const [op, label, when] of subjects) for (const name of ['the request fails', 'an API error object']) {
    const kinds = { ...env(['lit:test']), ...when };
    for (const n of [1, 2, 3]) Object.assign(kinds, SCEN(n).find((s) => s.name === name).when);
    const again = { tag: 'thrice', call: (I, f, recv, args) => { let v = []; for (let i = 0; i < 3 && I.st; i++) { v = I.callVal(f, recv, args, null, 0); if (I.st) v = I.awaitVal(v, 0); } return v; } };
    ctx.ob(op, `three failures in a row write three entries when ${name}: ${label}`, kinds, (o) => combine(terminals(o).map((t) => {
      const ss = seqs(t.st.eff, isLog);
      return !ss ? maybe('too many sequences') : combine(ss.map((s) => (s.length === 3 && !s.some((e) => e.k === 'loop') ? OK : bad(`three failed requests in a row write ${s.length} entries`))));
    })), { key: `${op}:again`, run: again });
  }
  // React rendering, chained publishing, forwarding, webhook verification
  for (const [en, ek, count] of ENVS) {
    for (const [op, spec, c] of eachCase()) {
      const b = spec.body; if (!b || !b.react) continue;
      const w = { ...env(ek), ...c.when, ...(b.eachOf ? { [b.eachOf]: ['arr'] } : {}), ...(spec.opts ? { [spec.opts]: ['undef'] } : {}), [`${b.from}.react`]: ['obj'] };
      ctx.ob(op, `NODE_ENV ${en}: nothing is written when rendering fails: ${caseName(c)}`, { ...w, 'ok:import @react-email/render': ['false'] }, quietly('when rendering fails'), { key: `${op}:render` });
      ctx.ob(op, `NODE_ENV ${en}: nothing is written when rendering and sending succeed: ${caseName(c)}`, { ...w, ...up(1), 'ok:import @react-email/render': ['true'] }, quietly('although the request succeeded'), { key: `${op}:render` });
    }
    for (const [op, w] of CHAINS) for (const s of SCEN(2)) {
      const kinds = { ...env(ek), ...w, ...up(1), ...s.when }; const run = { run: { tag: 'chained', call: chained } };
      if (s.name !== 'a JSON success') {
        const f = { ...env(ek), ...w, ...SCEN(1).find((q) => q.name === s.name).when };
        ctx.ob(op, `NODE_ENV ${en}: chained publish after a failed first step writes ${count ? 'one entry' : 'nothing'} (${s.name})`, f, count ? logsOnce(1, statusOf(s, 1)) : quietly('in production'), { key: `${op}:chain1`, ...run });
      }
      if (s.name === 'a JSON success' || !count) ctx.ob(op, `NODE_ENV ${en}: chained publish writes nothing when ${s.name}`, kinds, quietly('by a chained publish'), { key: `${op}:chain`, ...run });
      else ctx.ob(op, `NODE_ENV ${en}: chained publish writes one entry when ${s.name}`, kinds, logsOnce(2, statusOf(s, 2)), { key: `${op}:chain`, ...run });
    }
    for (const [op, , c] of forwardCases()) {
      const w = { ...env(ek), ...c.when, $1: ['undef'] };
      for (const s of SCEN(1)) if (s.name !== 'a JSON success') ctx.ob(op, `NODE_ENV ${en}: ${c.path}: reading the email: ${s.name}`, { ...w, ...s.when }, count ? logsOnce(1, statusOf(s, 1)) : quietly('in production'), { key: `${op}:1` });
      for (const s of SCEN(3)) ctx.ob(op, `NODE_ENV ${en}: ${c.path}: sending: ${s.name}`, { ...w, ...up(1), ...DL, ...s.when }, count && s.name !== 'a JSON success' ? noneOrParse(logsOnce(3, statusOf(s, 3))) : quietly(count ? 'although the request succeeded' : 'in production'), { key: `${op}:3` });
      ctx.ob(op, `NODE_ENV ${en}: ${c.path}: no entry for a raw download that fails`, { ...w, ...up(1), 'ok:fetch#2': ['false'] }, quietly('for a download that is no API request'), { key: `${op}:2` });
    }
    for (const v of ['true', 'false']) ctx.ob('webhooks.verify', `NODE_ENV ${en}: verification writes nothing (${v === 'true' ? 'accepted' : 'rejected'})`, { ...env(ek), 'ok:standardwebhooks': [v] }, quietly('by webhook verification'), { key: 'webhooks.verify:silent' });
    for (const [cn, k] of [['a client', {}], ['a client without a key', { $key: ['undef'] }]]) {
      const b = setup({ ...env(ek), ...k });
      const es = [...(b.st ? deepEff(b.st.eff) : []), ...b.throws.flatMap((t) => [...deepEff(t.st.eff)]), ...b.modThrows.flatMap((t) => [...deepEff(t.st.eff)])].filter(isLog);
      ctx.fact(`NODE_ENV ${en}: loading the package and constructing ${cn} writes nothing`, es.length ? bad('the console is written to while loading or constructing', es[0].at) : OK, ctx.clientAt(), 'construct');
    }
  }
  ctx.need(4000);
  ctx.assumptions.push('NODE_ENV is read from process.env; without process the SDK cannot tell and stays silent, which the property leaves open');
  return ctx.finish('For every operation, seven values of NODE_ENV (production, not set, empty and four others) and every way the exchange can end, the console effects on every path are counted and compared: none on success or in production, otherwise exactly one console.error whose arguments carry the error the call resolves with, the request path, and the HTTP status of an error response. Loading, constructing, rendering, webhook verification and raw downloads write nothing.');
}
// a message that cannot be parsed ends the call before anything is sent
function noneOrParse(f) {
  return (o) => f({ ...o, rejects: o.rejects.filter((r) => !/postal-mime/.test(JSON.stringify(r.m.map((a) => a.k || '')))) });
}
void combine;
