import { OK, eachCase, caseName, OPS, PRIMITIVES } from './common.mjs';
import { resolves, envelope, appError, noError, noData, someData, termError, headersAre } from '../lib/envelope.mjs';

// The ways a request numbered n can go, as kinds of the runtime's decisions.
export const reads = (n, ok, body) => ({
  [`ok:resp${n}.text()`]: [ok], [`ok:resp${n}.json()`]: [ok && body !== 'bad' ? ok : 'false'], [`ok:parse(resp${n}.text)`]: [body === 'bad' ? 'false' : 'true'],
});
const T = ['true']; const F = ['false'];
const PRIM = ['null', 'true', 'false', 'zero', 'num', 'estr', 'str', 'earr', 'arr'];
export const up = (n) => ({ [`ok:fetch#${n}`]: T, [`resp${n}.ok`]: T, [`ok:resp${n}.json()`]: T, [`ok:resp${n}.text()`]: T, [`ok:parse(resp${n}.text)`]: T, [`resp${n}.json`]: ['obj'], [`parse(<resp${n}.text>)`]: ['obj'] });
export const SCEN = (n) => [
  { name: 'the request fails', when: { [`ok:fetch#${n}`]: F }, env: { data: noData, error: appError([null]), headers: headersAre([null]) } },
  { name: 'a JSON success', when: up(n), env: { data: someData, error: noError, headers: headersAre([`resp${n}`]) } },
  { name: 'a success whose body cannot be read', when: { [`ok:fetch#${n}`]: T, [`resp${n}.ok`]: T, [`ok:resp${n}.json()`]: F, [`ok:resp${n}.text()`]: F }, env: { data: noData, error: appError([null, `resp${n}.status`]), headers: headersAre([null, `resp${n}`]) } },
  { name: 'an API error object', when: { [`ok:fetch#${n}`]: T, [`resp${n}.ok`]: F, [`ok:resp${n}.text()`]: T, [`ok:parse(resp${n}.text)`]: T, [`ok:resp${n}.json()`]: T, [`parse(<resp${n}.text>)`]: ['obj'], [`resp${n}.json`]: ['obj'] }, env: { data: noData, error: termError([`parse(<resp${n}.text>)`, `resp${n}.json`]), headers: headersAre([`resp${n}`]) } },
  { name: 'an HTTP error whose JSON body is not an object', when: { [`ok:fetch#${n}`]: T, [`resp${n}.ok`]: F, [`ok:resp${n}.text()`]: T, [`ok:parse(resp${n}.text)`]: T, [`ok:resp${n}.json()`]: T, [`parse(<resp${n}.text>)`]: PRIM, [`resp${n}.json`]: PRIM }, env: { data: noData, error: appError([`resp${n}.status`]), headers: headersAre([`resp${n}`]) } },
  { name: 'an HTTP error whose body is not JSON', when: { [`ok:fetch#${n}`]: T, [`resp${n}.ok`]: F, [`ok:resp${n}.text()`]: T, [`ok:parse(resp${n}.text)`]: F, [`ok:resp${n}.json()`]: F }, env: { data: noData, error: appError([`resp${n}.status`]), headers: headersAre([`resp${n}`]) } },
  { name: 'an HTTP error whose body cannot be read', when: { [`ok:fetch#${n}`]: T, [`resp${n}.ok`]: F, [`ok:resp${n}.text()`]: F, [`ok:resp${n}.json()`]: F }, env: { data: noData, error: appError([`resp${n}.status`]), headers: headersAre([`resp${n}`]) } },
];
// no React element involved, no request options
export function quiet(spec) {
  const w = {};
  if (spec.opts) w[spec.opts] = ['undef'];
  const b = spec.body;
  if (b && b.react) w[`${b.from}.react`] = ['absent', 'undef'];
  return w;
}
export const PRIM_WHEN = { post: { $2: ['undef'], $1: ['obj'] }, put: { $2: ['undef'], $1: ['obj'] }, patch: { $2: ['undef'], $1: ['obj'] }, delete: { $2: ['undef'], $1: ['obj', 'undef'] }, get: { $1: ['undef'] }, fetchRequest: { $1: ['obj', 'undef'] } };

export async function run(ctx) {
  const one = (op, label, when) => {
    for (const s of SCEN(1)) {
      ctx.ob(op, `${s.name}: ${label}`, { ...when, ...s.when }, (o) => resolves(o, envelope(s.env)), { key: `${op}:${s.name}` });
    }
  };
  for (const [op, spec, c] of eachCase()) one(op, `${spec.verb} ${c.path} (${caseName(c)})`, { ...c.when, ...quiet(spec) });
  for (const p of PRIMITIVES) one(p, p, PRIM_WHEN[p]);
  // the composite operation: each of its three exchanges
  for (const pt of ['absent', 'true', 'false']) {
    const base = { '$0.passthrough': [pt], $1: ['undef'], 'resp1.json.raw': ['obj'], 'resp1.json.raw.download_url': ['str'], 'ok:postal-mime': T };
    const op = 'emails.receiving.forward';
    for (const s of SCEN(1)) if (s.name !== 'a JSON success') ctx.ob(op, `reading the email: ${s.name} (passthrough ${pt})`, { ...base, ...s.when }, (o) => resolves(o, envelope(s.env)), { key: `${op}:1:${s.name}` });
    const dl = { 'ok:fetch#2': T, 'resp2.ok': T, 'ok:resp2.text()': T, 'ok:resp2.arrayBuffer()': T, 'ok:resp2.blob()': T, 'ok:resp2.bytes()': T };
    for (const [name, w, st] of [['the download fails', { 'ok:fetch#2': F }, [null]], ['the download is refused', { 'ok:fetch#2': T, 'resp2.ok': F }, ['resp2.status']], ['the download breaks off', { 'ok:fetch#2': T, 'resp2.ok': T, 'ok:resp2.text()': F, 'ok:resp2.arrayBuffer()': F, 'ok:resp2.blob()': F, 'ok:resp2.bytes()': F }, [null, 'resp2.status']]]) {
      ctx.ob(op, `${name} (passthrough ${pt})`, { ...base, ...up(1), ...w }, (o) => resolves(o, envelope({ data: noData, error: appError(st) })), { key: `${op}:2:${name}` });
    }
    for (const s of SCEN(3)) ctx.ob(op, `sending: ${s.name} (passthrough ${pt})`, { ...base, ...up(1), ...dl, ...s.when }, (o) => resolves(o, envelope(s.env), { rejectOk: (r) => /postal-mime/.test(JSON.stringify(r.m.map((a) => a.k || ''))) }), { key: `${op}:3:${s.name}` });
  }
  ctx.need(700);
  void OPS; void OK;
  return ctx.finish('Every operation is analysed under each way its exchange can end (connection failure, success, unreadable body, error object, error body that is not an object, not JSON, or unreadable). On every path the operation has to resolve, with exactly one of data and error non-null and with the documented content; rejected ends and other shapes are reported with the path that leads there.');
}
