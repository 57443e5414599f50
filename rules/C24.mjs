// Automations: every declared step kind is sent with its key, its type and its whole
// configuration, when creating and when updating; connections; the fields of an update.
import { OK, bad, maybe, combine, all, onRequest, req, anyFetch, envFailed, show } from './common.mjs';
import { carry, kindsAt } from '../lib/carry.mjs';
import { run as run1 } from '../lib/decide.mjs';
import { prop, elem } from '../lib/terms.mjs';
import { UNDEF, union } from '../lib/domain.mjs';
import { fieldOf } from '../lib/wire.mjs';
import { OPS } from '../lib/contract.mjs';
import { bodyVerdict, docs, termOf } from './C02.mjs';

// the documented step kinds: option name, wire name, may be left out
export const STEPS = {
  trigger: [['eventName', 'event_name']],
  delay: [['duration', 'duration']],
  send_email: [['template', 'template'], ['subject', 'subject', 1], ['from', 'from', 1], ['replyTo', 'reply_to', 1]],
  wait_for_event: [['eventName', 'event_name'], ['timeout', 'timeout', 1], ['filterRule', 'filter_rule', 1]],
  condition: null, // a rule, sent as it is
  contact_update: [['firstName', 'first_name', 1], ['lastName', 'last_name', 1], ['unsubscribed', 'unsubscribed', 1], ['properties', 'properties', 1]],
  contact_delete: [],
  add_to_segment: [['segmentId', 'segment_id']],
};
const CONNECTIONS = ['default', 'condition_met', 'condition_not_met', 'timeout', 'event_received'];
const CARGO = { create: ['automations.create', '$0'], update: ['automations.update', '$1'] };
const INERT = { obj: 1, arr: 1, earr: 1 };

// the value at a wire path of the elements of a list member of the document
function inEach(tree, list, src, path, I) {
  const out = [];
  for (const a of tree) {
    if (a.t === 'c' && a.v === undefined) { out.push({ r: bad(`no ${list} are sent`) }); continue; }
    if (a.t === 'x' && a.k === src.base.k) { out.push({ r: path.length ? null : OK, whole: true }); continue; }
    if (a.t !== 'o') { out.push({ r: a.t === 'top' ? maybe('body not resolved') : bad(`the body is ${show(a)}`) }); continue; }
    for (const l of fieldOf(a, list, I).v) {
      if (l.t === 'x' && l.k === src.k) { out.push({ whole: true }); continue; }
      if (l.t === 'top') { out.push({ r: maybe(`${list} not resolved`) }); continue; }
      if (l.t !== 'a') { out.push({ r: bad(`${list} is ${show(l)}`) }); continue; }
      if (!l.segs.length) { out.push({ r: bad(`${list} is empty`) }); continue; }
      for (const s of l.segs) {
        if (s.flaw) { out.push({ r: bad(s.flaw) }); continue; }
        if (s.k === 'unk' || (s.k === 'each' && s.p !== true)) { out.push({ r: maybe(`${list} not resolved`) }); continue; }
        if (s.k !== 'each' || s.src !== src.k) { out.push({ r: bad(`${list} holds ${show(s.v || [])}`) }); continue; }
        let vs = s.v; let whole = false;
        for (const p of path) vs = vs.flatMap((q) => (q.t === 'o' ? fieldOf(q, p, I).v : q.t === 'x' && q.k === elem(src).k ? ((whole = true), []) : [q]));
        out.push(whole ? { whole: true } : { v: vs });
      }
    }
  }
  return out;
}
const judge = (found, term, I) => combine(found.map((f) => (f.whole ? null : f.r || carry(f.v, term, I))).filter(Boolean));

export async function run(ctx) {
  const kindsSeen = {};
  for (const [m, [op, from]] of Object.entries(CARGO)) {
    const spec = OPS[op][0] && OPS[op][0].body ? OPS[op][0] : OPS[op];
    const cargo = termOf(from); const steps = prop(cargo, 'steps'); const el = elem(steps); const cfg = prop(el, 'config');
    const ask = (label, when, f, key) => ctx.ob(op, label, when, (o, ks) => {
      if (!anyFetch(o)) return envFailed(ks) ? OK : bad('no request is made');
      return onRequest(o, ks, (e) => {
        const ds = docs(req(e, o.I).body);
        const v = combine(ds.map((d) => (d === undefined ? maybe('body not resolved') : d === null ? bad('the body is not a JSON document') : f(d, o.I))));
        return v.s === 'bad' ? { ...v, at: e.at } : v;
      });
    }, { key: `${op}:${key || label}` });
    // the declared kinds are the documented ones
    const I0 = run1(op, { [steps.k]: ['arr'] }).I;
    const declared = [...kindsAt(I0, prop(el, 'type'))].filter((k) => k.startsWith('lit:')).map((k) => k.slice(4));
    for (const t of Object.keys(STEPS)) ctx.fact(`${m}: step kind ${t} is declared`, declared.includes(t) ? { s: 'ok' } : { s: 'bad', why: `step kind ${t} is no longer among the declared ones (${declared.join(', ')})` }, ctx.where(op));
    for (const [t, members] of Object.entries(STEPS)) {
      if (!declared.includes(t)) continue;
      const when = { [steps.k]: ['arr'], [prop(el, 'type').k]: [`lit:${t}`] };
      ask(`${m}: ${t} keeps its key`, when, (d, I) => judge(inEach(d, 'steps', steps, ['key'], I), prop(el, 'key'), I));
      ask(`${m}: ${t} keeps its type`, when, (d, I) => judge(inEach(d, 'steps', steps, ['type'], I), prop(el, 'type'), I));
      ask(`${m}: ${t} is sent complete, and nothing else with it`, when, (d, I) => bodyDoc(d, spec, I, 'steps'));
      if (!members) { ask(`${m}: ${t} configuration`, when, (d, I) => judge(inEach(d, 'steps', steps, ['config'], I), cfg, I)); continue; }
      for (const [name, wire, opt] of members) {
        const t1 = prop(cfg, name);
        const ks = (kindsSeen[`${t}.${name}`] ||= [...kindsAt(run1(op, when).I, t1)]);
        const groups = opt ? ['absent', ...ks.filter((k) => k !== 'absent')] : ks;
        for (const k of new Set(groups)) ask(`${m}: ${t}.${name} ${k} is sent as ${wire}`, { ...when, [t1.k]: [k] }, (d, I) => {
          const found = inEach(d, 'steps', steps, ['config', wire], I);
          if (found.some((f) => f.whole) && wire !== name) return bad(`the step is sent as it is: ${name} goes out under its SDK name`);
          // the configuration object itself, passed through
          const vs = found.map((f) => (f.v ? { v: f.v.flatMap((q) => (q.t === 'x' && q.k === cfg.k ? (wire === name ? [] : [q]) : [q])), r: f.v.every((q) => q.t === 'x' && q.k === cfg.k) && wire === name ? OK : undefined } : f));
          return judge(vs, t1, I);
        }, `${m}:${t}.${name}`);
      }
      ctx.fact(`${m}: ${t} declares ${members.length} configuration members`, declares(op, when, cfg, members), ctx.where(op));
    }
    // connections
    const con = prop(cargo, 'connections'); const ce = elem(con);
    for (const n of ['from', 'to']) ask(`${m}: connections keep ${n}`, { [con.k]: ['arr'] }, (d, I) => judge(inEach(d, 'connections', con, [n], I), prop(ce, n), I));
    for (const k of ['absent', 'undef', ...CONNECTIONS.map((x) => `lit:${x}`)]) ask(`${m}: a connection of type ${k} keeps it`, { [con.k]: ['arr'], [prop(ce, 'type').k]: [k] }, (d, I) => judge(inEach(d, 'connections', con, ['type'], I), prop(ce, 'type'), I), `${m}:connection.type`);
    ask(`${m}: connections are sent complete, and nothing else with them`, { [con.k]: ['arr'] }, (d, I) => bodyDoc(d, spec, I, 'connections'));
    // which top-level members go out
    const tops = m === 'update' ? ['name', 'status', 'steps', 'connections'] : ['status', 'steps', 'connections'];
    const shapes = { name: ['str', 'estr'], status: ['lit:enabled', 'lit:disabled'], steps: ['arr', 'earr'], connections: ['arr', 'earr'] };
    const choice = (n) => [...(m === 'update' || n === 'status' ? ['absent', 'undef'] : []), ...shapes[n]];
    const rec = (i, when, label) => {
      if (i === tops.length) { ask(`${m} with ${label.join(', ')}`, when, (d, I) => all(['name', 'status', 'steps', 'connections', '+'].map((n) => bodyDoc(d, spec, I, n))), `${m}:members`); return; }
      // one representative of "not set" beside each other member's every form
      for (const k of choice(tops[i])) {
        if (label.filter((l) => / (undef|estr|earr|lit:disabled)$/.test(l)).length && /^(undef|estr|earr|lit:disabled)$/.test(k)) continue;
        rec(i + 1, { ...when, [prop(cargo, tops[i]).k]: [k] }, label.concat(`${tops[i]} ${k}`));
      }
    };
    rec(0, {}, []);
  }
  ctx.need(240);
  void INERT; void union; void UNDEF; void bodyVerdict;
  return ctx.finish('For creating and for updating an automation, and for each of the eight documented step kinds: with a step of that kind (its type pinned to the declared literal), the abstract interpreter computes the JSON body that reaches fetch, and the rule looks up the step\'s key, its type and each documented configuration member under its wire name, for every kind of value the member may have including left out, and requires the caller\'s own value there and no other member. Connections are checked for both endpoints and each declared type, and every combination of set and unset top-level members is checked to be sent exactly as set. The declared step kinds and configuration members are themselves compared with the documented list.');
}
function bodyDoc(d, spec, I, only) {
  return bodyVerdict({ body: [{ t: 'json', tree: d }] }, { ...spec, body: { ...spec.body, only } }, I);
}
function declares(op, when, cfg, members) {
  const I = run1(op, { ...when, [cfg.k]: ['obj'] }).I;
  const { names } = I.declaredProps(cfg);
  const want = members.map((x) => x[0]);
  const lost = want.filter((n) => !names.includes(n)); const neu = names.filter((n) => !want.includes(n));
  if (lost.length) return { s: 'bad', why: `${cfg.k}: ${lost.join(', ')} is no longer declared` };
  return neu.length ? { s: 'maybe', why: `${cfg.k}: ${neu.join(', ')} not in the documented list` } : { s: 'ok' };
}
