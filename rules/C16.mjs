// Chained template publishing against the two separate calls.
import { OK, bad, maybe, combine, all, show, fetchSeqs, req, DEFAULT_BASE, terminals } from './common.mjs';
import { pathVerdict, methodVerdict } from './C01.mjs';
import { SCEN, up } from './C06.mjs';
import { CHAINS, chained, exactly } from './C10.mjs';
import { resolves, envelope, dataIs } from '../lib/envelope.mjs';
import { docs } from './C02.mjs';
import { C, UNDEF, NULL } from '../lib/domain.mjs';

const T = ['true'];
// what the n-th of the call's requests must be
const publishes = (n, total, id) => (o, kinds) => {
  const ss = fetchSeqs(o);
  if (!ss) return maybe('too many sequences');
  return combine(ss.map(({ seq, kind, st }) => {
    const flat = seq.flatMap((e) => (e.k === 'loop' ? e.effs : [e]));
    if (seq.some((e) => e.k === 'loop') || flat.length !== total) return exactly(total)(o, kinds);
    const e = flat[n - 1]; const r = req(e, o.I);
    const v = all([
      combine(r.url.map((a) => pathVerdict(a, DEFAULT_BASE, `/templates/{${id}}/publish`, o.I))),
      methodVerdict(r.method, 'POST'),
      combine(docs(r.body).map((d) => (d === undefined ? maybe('body') : d === null ? bad('publishing carries a body that is not JSON') : combine(d.map((a) => ((a.t === 'c' && a.v == null) || (a.t === 'o' && [...a.m.values()].every((q) => q.v.every((w) => w.t === 'c' && w.v === undefined)) && !a.rest.length) ? OK : a.t === 'top' ? maybe('body') : bad(`publishing carries a body ${show(a)}`))))))),
    ]);
    void kind; void st;
    return v.s === 'bad' ? { ...v, at: e.at } : v;
  }));
};
const host = (f) => [{ t: 'host', id: `h${Math.random()}`, f }];
const call = (I, obj, name, args) => { if (!I.st) return []; const f = I.getProp(obj, name, null, true); return I.st ? I.callVal(f, obj, args, null, 0) : []; };

export async function run(ctx) {
  for (const [op, w] of CHAINS) {
    const key = (k) => ({ key: `${op}:${k}` });
    for (const s of SCEN(1)) {
      const when = { ...w, ...s.when };
      // awaiting is the plain call
      ctx.ob(op, `awaited, it resolves like the plain call when ${s.name}`, when, (o) => resolves(o, envelope(s.env)), key('await'));
      ctx.ob(op, `awaited, it makes the plain call's one request when ${s.name}`, when, exactly(1), key('await-count'));
      // .then() hands over the same value, and returns what its callback returns
      ctx.ob(op, `then() hands over the result and resolves with the callback's value when ${s.name}`, when, (o) => resolves(o, (a) => {
        if (a.t !== 'tup' && a.t !== 'o' && a.t !== 'a') return a.t === 'top' ? maybe('then') : bad(`then() resolves with ${show(a)}, not its callback's value`);
        const inner = a.t === 'o' && a.m.get('wrapped'); if (!inner) return bad(`then() resolves with ${show(a)}, not its callback's value`);
        return combine(inner.v.map((q) => envelope(s.env)(q, o.I)));
      }), { ...key('then'), run: { tag: 'then', call: (I, f, recv, args) => { const v = I.callVal(f, recv, args, null, 0); const r = call(I, v, 'then', [host((as) => [I.objOf([['wrapped', as[0] || [UNDEF]]])])]); return I.st ? I.awaitVal(r, 0) : []; } } });
      // the two handlers belong to one and the same step: what the first throws is not handed to the second
      if (['a JSON success', 'the request fails'].includes(s.name)) {
        const mark = host(() => [C('handled')]);
        const then = (tag, mk) => ({ run: { tag, call: (I, f, recv, args) => { const v = I.callVal(f, recv, args, null, 0); const r = call(I, v, 'then', mk(I)); return I.st ? I.awaitVal(r, 0) : []; } } });
        ctx.ob(op, `what then()'s callback throws reaches the caller when ${s.name}`, when, (o) => combine(terminals(o).map((t) => (t.kind === 'rej' ? OK : bad(`then() resolves with ${show((t.m || t.v || []).map((a) => a)) || 'nothing'} although its callback threw`)))), { ...key('then-throws'), ...then('then-throws', (I) => [host(() => I.throwError('Error')), mark]) });
        ctx.ob(op, `then() without a callback hands over the result when ${s.name}`, when, (o) => resolves(o, envelope(s.env)), { ...key('then-none'), ...then('then-none', () => [[NULL], mark]) });
      }
      if (s.name === 'a JSON success') continue;
      // a failed first step ends the chain
      ctx.ob(op, `chained publish makes no further request when ${s.name}`, when, exactly(1), { ...key('stop'), run: { tag: 'chained', call: chained } });
      ctx.ob(op, `chained publish resolves with the same error and headers when ${s.name}`, when, (o) => resolves(o, envelope(s.env)), { ...key('same-error'), run: { tag: 'chained', call: chained } });
    }
    // a successful first step: the id it returned is published
    for (const s of SCEN(2)) {
      const when = { ...w, ...up(1), ...s.when };
      const r = { run: { tag: 'chained', call: chained } };
      ctx.ob(op, `chained publish publishes the returned template when ${s.name}`, when, publishes(2, 2, 'resp1.json.id'), { ...key('publish'), ...r });
      ctx.ob(op, `chained publish resolves with the publish result when ${s.name}`, when, (o) => resolves(o, envelope(s.name === 'a JSON success' ? { ...s.env, data: dataIs(['resp2.json', 'parse(<resp2.text>)']) } : s.env)), { ...key('result'), ...r });
      // awaiting first and publishing later
      const late = { run: { tag: 'late', call: (I, f, recv, args) => { const v = I.callVal(f, recv, args, null, 0); if (I.st) I.awaitVal(v, 0); const q = call(I, v, 'publish', []); return I.st ? I.awaitVal(q, 0) : []; } } };
      ctx.ob(op, `publishing after awaiting publishes the same template, once, when ${s.name}`, when, publishes(2, 2, 'resp1.json.id'), { ...key('late'), ...late });
      ctx.ob(op, `publishing after awaiting resolves with the publish result when ${s.name}`, when, (o) => resolves(o, envelope(s.env)), { ...key('late-result'), ...late });
    }
    // publishing once more is one more plain call, whatever became of the first
    for (const s of SCEN(2)) {
      const again = { run: { tag: 'again', call: (I, f, recv, args) => { const v = I.callVal(f, recv, args, null, 0); if (I.st) I.awaitVal(call(I, v, 'publish', []), 0); const q = call(I, v, 'publish', []); return I.st ? I.awaitVal(q, 0) : []; } } };
      const after = { run: { tag: 'after', call: (I, f, recv, args) => { const v = I.callVal(f, recv, args, null, 0); if (I.st) I.awaitVal(call(I, v, 'publish', []), 0); return I.st ? I.awaitVal(v, 0) : []; } } };
      const when = { ...w, ...up(1), ...s.when };
      ctx.ob(op, `publishing again publishes the same template when first ${s.name}`, { ...when, ...up(3) }, publishes(3, 3, 'resp1.json.id'), { ...key('again'), ...again });
      ctx.ob(op, `publishing again resolves with its own result when first ${s.name}`, { ...when, ...up(3) }, (o) => resolves(o, envelope({ ...SCEN(3).find((q) => q.name === 'a JSON success').env, data: dataIs(['resp3.json', 'parse(<resp3.text>)']) })), { ...key('again-result'), ...again });
      ctx.ob(op, `awaited after publishing, it still resolves like the plain call when ${s.name}`, when, (o) => resolves(o, envelope(SCEN(1).find((q) => q.name === 'a JSON success').env)), { ...key('after'), ...after });
      ctx.ob(op, `awaited after publishing, it makes no further request when ${s.name}`, when, exactly(2), { ...key('after-count'), ...after });
    }
    // two chains at once keep their own templates
    for (const [which, id, nm] of [[0, 'resp1.json.id', 'first'], [1, 'resp2.json.id', 'second']]) {
      const two = (I, f, recv, args) => {
        const vs = [I.callVal(f, recv, args, null, 0)];
        if (I.st) vs.push(I.callVal(f, recv, args, null, 0));
        const q = call(I, vs[which] || [], 'publish', []);
        return I.st ? I.awaitVal(q, 0) : [];
      };
      ctx.ob(op, `of two templates, the ${nm} chain publishes its own`, { ...w, ...up(1), ...up(2), ...up(3) }, publishes(3, 3, id), { ...key('two'), run: { tag: `two${which}`, call: two } });
    }
  }
  // a rejected first step (rendering failed) rejects the chain, and nothing is sent
  const op = 'templates.create';
  for (const [name, fail] of [['the renderer is missing', { 'ok:import @react-email/render': ['false'] }], ['rendering throws', { 'ok:import @react-email/render': T, 'ok:@react-email/render.render(<$0.react>)': ['false'] }]]) for (const [form, r] of [['awaited', {}], ['chained', { run: { tag: 'chained', call: chained } }]]) {
    ctx.ob(op, `${form}: rejects and sends nothing when ${name}`, { '$0.react': ['obj'], ...fail }, (o) => all([exactly(0)(o, {}), combine(terminals(o).map((t) => (t.kind === 'rej' ? OK : bad('resolves although the template could not be rendered'))))]), { key: `${op}:reject`, ...r });
  }
  // the second handler of then() is told of a rejection
  const withHandlers = { run: { tag: 'then-rejected', call: (I, f, recv, args) => { const v = I.callVal(f, recv, args, null, 0); const r = call(I, v, 'then', [host(() => [C('first')]), host(() => [C('second')])]); return I.st ? I.awaitVal(r, 0) : []; } } };
  ctx.ob(op, "then()'s second callback is told that rendering failed", { '$0.react': ['obj'], 'ok:import @react-email/render': ['false'] }, (o) => resolves(o, (a) => (a.t === 'c' && a.v === 'second' ? OK : a.t === 'top' ? maybe('then') : bad(`then() resolves with ${show(a)} although rendering failed`))), { key: `${op}:then-rejected`, ...withHandlers });
  // without one, the rejection is handed on
  for (const [nm, mk] of [['one callback', () => [host(() => [C('first')])]], ['no callback', () => []], ['null callbacks', () => [[NULL], [NULL]]]]) {
    const one = { run: { tag: `then-rejected ${nm}`, call: (I, f, recv, args) => { const v = I.callVal(f, recv, args, null, 0); const r = call(I, v, 'then', mk()); return I.st ? I.awaitVal(r, 0) : []; } } };
    ctx.ob(op, `then() with ${nm} rejects when rendering failed`, { '$0.react': ['obj'], 'ok:import @react-email/render': ['false'] }, (o) => combine(terminals(o).map((t) => (t.kind === 'rej' ? OK : bad('then() resolves although the template could not be rendered')))), { key: `${op}:then-rejected`, ...one });
  }
  ctx.need(80);
  return ctx.finish('The chain object is analysed as client code would use it: awaited, with then(), with publish(), with publish() after await, and twice at once. For every way the first and second exchange can end, the requests made (number, order, URL built from the id the first response carried) and the value resolved with are compared with those of the two separate calls.');
}
