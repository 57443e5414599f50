import { OK, bad, maybe, combine, all, eachCase, caseName, terminals, deepEff, seqs, OPS } from './common.mjs';
import { resolves, envelope, appError, noData, headersAre } from '../lib/envelope.mjs';
import { quiet } from './C06.mjs';
import { fetchSeqs, envFailed } from '../lib/wire.mjs';

// kinds of traffic: anything that leaves the process
const traffic = (e) => e.k === 'fetch';
const silent = (o) => combine(terminals(o).map((t) => {
  const hit = [...deepEff(t.st.eff)].find(traffic);
  if (!hit) return OK;
  const ss = seqs(t.st.eff, traffic);
  if (!ss) return maybe('a request may be sent');
  return combine(ss.map((s) => (s.length ? bad('a request is sent although the identifier is missing', hit.at) : OK)));
}));
const MISSING = [['absent', 'undef'], ['null'], ['estr']];
const rejected = (name) => (o) => all([silent(o), resolves(o, envelope({ data: noData, error: appError([null, undefined].slice(0, 1), { name }), headers: headersAre([null]) }))]);

export async function run(ctx) {
  for (const [op, spec] of Object.entries(OPS)) {
    if (!spec.need) continue;
    const q = quiet(spec);
    for (const n of spec.need) {
      const alts = n.split('|');
      for (const how of MISSING) {
        const kinds = { ...q };
        for (const a of alts) {
          if (a === '$0') kinds.$0 = how.filter((k) => k !== 'absent'); else { kinds.$0 = ['obj']; kinds[a] = how; }
        }
        if (/audienceId/.test(JSON.stringify(spec.cases)) && n !== '$0') {
          for (const au of [['absent', 'undef'], ['str']]) ctx.ob(op, `${n} ${how[0]}, audience ${au[0]}: nothing is sent`, { ...kinds, '$0.audienceId': au }, rejected('missing_required_field'), { key: `${op}:${n}:missing` });
        } else ctx.ob(op, `${n} ${how[0]}: nothing is sent`, kinds, rejected('missing_required_field'), { key: `${op}:${n}:missing` });
      }
      if (alts.length > 1) {
        // one missing in one way, the other in another
        for (const [x, y] of [[['absent', 'undef'], ['estr']], [['estr'], ['absent', 'undef']], [['null'], ['estr']]]) ctx.ob(op, `${alts[0]} ${x[0]}, ${alts[1]} ${y[0]}: nothing is sent`, { ...q, $0: ['obj'], [alts[0]]: x, [alts[1]]: y }, rejected('missing_required_field'), { key: `${op}:${n}:missing` });
        // either one suffices, whatever the other is
        for (const a of alts) for (const other of MISSING) {
          const b = alts.find((z) => z !== a);
          ctx.ob(op, `${a} given, ${b} ${other[0]}: the request is made`, { ...q, $0: ['obj'], [a]: ['str'], [b]: other }, proceeds, { key: `${op}:${a}:proceeds` });
        }
        ctx.ob(op, `${alts.join(' and ')} given: the request is made`, { ...q, $0: ['obj'], [alts[0]]: ['str'], [alts[1]]: ['str'] }, proceeds, { key: `${op}:both:proceeds` });
      } else {
        const kinds = alts[0] === '$0' ? { $0: ['str'] } : { $0: ['obj'], [alts[0]]: ['str'] };
        ctx.ob(op, `${n} given: the request is made`, { ...q, ...kinds }, proceeds, { key: `${op}:${n}:proceeds` });
      }
    }
  }
  // a legacy audience excludes segments and topics
  for (const more of [{ '$0.segments': ['arr', 'earr'], '$0.topics': ['absent'] }, { '$0.topics': ['arr', 'earr'], '$0.segments': ['absent'] }, { '$0.segments': ['arr', 'earr'], '$0.topics': ['arr', 'earr'] }]) {
    for (const opts of ['undef', 'obj']) ctx.ob('contacts.create', `audienceId with ${Object.entries(more).map(([k, v]) => `${k}:${v[0]}`)} (options ${opts}): nothing is sent`, { '$0.audienceId': ['str'], ...more, $1: [opts] }, rejected('invalid_parameter'), { key: 'contacts.create:legacy' });
  }
  for (const more of [{ '$0.audienceId': ['absent'], '$0.segments': ['arr'], '$0.topics': ['arr'] }, { '$0.audienceId': ['str'], '$0.segments': ['absent'], '$0.topics': ['absent'] }]) ctx.ob('contacts.create', `${Object.entries(more).map(([k, v]) => `${k}:${v[0]}`)}: the request is made`, { ...more, $1: ['undef'] }, proceeds, { key: 'contacts.create:proceeds' });
  // operations without such a rule always proceed
  for (const [op, spec, c] of eachCase()) if (!spec.need && op !== 'contacts.create') ctx.ob(op, `the request is made: ${c.path} (${caseName(c)})`, { ...c.when, ...quiet(spec) }, proceeds, { key: `${op}:proceeds` });
  ctx.need(150);
  return ctx.finish('For every operation documented to validate its identifier and each way the identifier can be missing, all paths have to end with the documented error and no fetch effect; with the identifier given, every path has to reach the request.');
}
function proceeds(o, kinds) {
  if (o.noClient) return maybe('no client');
  const ss = fetchSeqs(o);
  if (!ss) return maybe('too many sequences');
  if (envFailed(kinds)) return OK;
  return combine(ss.map((s) => (s.seq.length ? OK : bad('no request is made although every identifier was given'))));
}
