// The payload a caller gets is the verifier's answer to the caller's own inputs.
import { OK, bad, maybe, combine, all, show, terminals, deepEff, never } from './common.mjs';
import { field } from '../lib/wire.mjs';
import { mutation } from './C08.mjs';
import { otherCall } from './C11.mjs';
import { setup } from '../lib/run.mjs';
import { constOfKind } from '../lib/domain.mjs';
import { kindsAt } from '../lib/carry.mjs';
import { termOf } from './C02.mjs';
import { rootOf, bare } from '../lib/terms.mjs';

const OP = 'webhooks.verify';
const V = 'standardwebhooks.Webhook';
const absent = (a) => a.t === 'c' && (a.v === undefined || a.v === null || a.v === '');
const unquote = (a) => { while (a.t === 's' && a.parts.length === 1 && typeof a.parts[0] !== 'string') a = a.parts[0]; return a; };
// one value against the caller's input
const is = (v, k, I, { orNone } = {}) => combine((v || []).map((q) => {
  q = unquote(q);
  if (q.t === 'x' && (bare(q).k === k || (q.op === 'tostr' && q.base.k === k))) return OK;
  if (q.t === 'top') return maybe(`${k}: not resolved`);
  if (orNone && absent(q)) return OK;
  const ks = [...kindsAt(I, termOf(k))]; const cs = ks.map(constOfKind);
  if (q.t === 'c' && ks.length && cs.every((c) => c && Object.is(c.v, q.v))) return OK;
  return bad(`the verifier is given ${show(q)} where the caller's ${k} belongs`);
}));
function verified(a, I, P, missing) {
  if (a.t === 'top') return maybe(`payload not resolved: ${a.why || ''}`);
  const call = a.t === 'x' && a.op === 'call' && (a.ext === `${V}#verify` || a.name === `ext ${V}#verify`) ? a : null;
  if (!call) return bad(`returns ${show(a)}, which the verifier did not release`);
  const [recv, payload, headers, ...more] = call.args;
  const out = [];
  out.push(combine((recv || []).map((r) => {
    if (r.t !== 'exto' || r.name !== V) return r.t === 'top' ? maybe('verifier not resolved') : bad(`verified by ${show(r)}`);
    const extra = (r.args[1] || []).filter((q) => !(q.t === 'c' && q.v === undefined));
    if (extra.some((q) => q.t !== 'o' || q.m.size || q.rest.length)) return extra.some((q) => q.t === 'top') ? maybe('verifier options') : bad(`the verifier is configured with ${show(extra)}`);
    return is(r.args[0], `${P}.webhookSecret`, I);
  })));
  out.push(is(payload, `${P}.payload`, I));
  for (const n of ['id', 'timestamp', 'signature']) {
    out.push(combine((headers || []).map((h) => {
      if (h.t !== 'o') return h.t === 'top' ? maybe('headers not resolved') : bad(`the verifier is given ${show(h)} as headers`);
      const names = [...h.m.keys()].filter((k) => k.toLowerCase() === `webhook-${n}`);
      if (!names.length) return h.rest.length ? maybe('computed headers') : bad(`no webhook-${n} header reaches the verifier`);
      return is(field([h], names[names.length - 1], I), `${P}.headers.${n}`, I, { orNone: missing === n });
    })));
  }
  if (more.some((m) => m.some((q) => !(q.t === 'c' && q.v === undefined)))) out.push(maybe('further verifier arguments'));
  return all(out);
}
const released = (P, missing) => (o) => {
  if (!o.ok) return OK;
  return combine((o.ok.m || [{ t: 'c', v: undefined }]).map((a) => verified(a, o.I, P, missing)));
};
const okVerify = (o) => [...o.decisions.keys()].filter((k) => k.startsWith(`ok:${V}#verify(`) || k.startsWith(`ok:new ${V}(`));
// what the verifier released is handed over as it is
const altered = (e) => {
  if (e.k !== 'mutate') return null;
  let x = rootOf(e.x); if (x && x.op === 'call' && /Webhook#verify$/.test(x.name || '')) return `the verified payload's ${e.name || ''} is changed before it is returned`;
  return null;
};
const noAwait = (I, callee, recv, args) => I.callVal(callee, recv, args, null);

export async function run(ctx) {
  const cases = [['all inputs supplied', {}, null]];
  for (const n of ['payload', 'webhookSecret', 'headers.id', 'headers.timestamp', 'headers.signature']) cases.push([`${n} empty`, { [`$0.${n}`]: ['estr'] }, n.startsWith('headers.') ? n.slice(8) : null]);
  for (const n of ['id', 'timestamp', 'signature']) cases.push([`header ${n} missing`, { [`$0.headers.${n}`]: ['absent', 'undef'] }, n]);
  cases.push(['all headers missing', { '$0.headers.id': ['absent', 'undef'], '$0.headers.timestamp': ['absent', 'undef'], '$0.headers.signature': ['absent', 'undef'] }, null]);
  for (const [name, when, missing] of cases) {
    ctx.ob(OP, `a payload is released only by the verifier, given the caller's inputs (${name})`, when, name === 'all headers missing' ? (o) => (o.ok ? combine((o.ok.m || []).map((a) => (a.t === 'x' && a.op === 'call' && a.ext === `${V}#verify` ? OK : a.t === 'top' ? maybe('payload') : bad(`returns ${show(a)}, which the verifier did not release`)))) : OK) : released('$0', missing), { key: `${OP}:released` });
    ctx.ob(OP, `the verifier is consulted before anything is returned (${name})`, when, (o) => {
      if (!o.ok) return OK;
      const has = [...deepEff(o.ok.st.eff)].some((e) => e.k === 'ext' && e.name === `${V}#verify`);
      return has ? OK : bad('returns without consulting the verifier');
    }, { key: `${OP}:consulted` });
    ctx.ob(OP, `neither the inputs nor the released payload are altered (${name})`, when, (o) => never(o, (e) => mutation(e) || altered(e)), { key: `${OP}:altered` });
  }
  // every way the verifier can refuse ends in an exception
  const probe = (await import('../lib/decide.mjs')).run(OP, {});
  const ks = okVerify(probe);
  ctx.fact('the verifier is reached and may refuse', ks.some((k) => k.includes('#verify')) ? OK : bad('webhooks.verify never calls the standard verifier'), ctx.where(OP), `${OP}:reach`);
  for (const k of ks) for (const [name, when] of cases) {
    const mine = (d) => d.startsWith(k.slice(0, k.indexOf('(') + 1));
    ctx.ob(OP, `a refusal (${k.includes('#verify') ? 'signature check' : 'bad secret'}) reaches the caller as an exception (${name})`, { ...when, [k]: ['false'] }, (o, kk) => {
      if (Object.entries(kk).some(([d, v]) => mine(d) && d !== k && v.length === 1 && v[0] === 'true')) return OK;
      if ([...o.decisions.keys()].filter(mine).some((d) => d !== k && !kk[d])) return maybe('the verifier is consulted differently here', [...o.decisions.keys()].filter((d) => mine(d) && d !== k && !kk[d]));
      if (o.ok) return bad(`returns ${show(o.ok.m || [])} although the verifier refused`);
      return o.rejects.length ? OK : maybe('no outcome');
    }, { key: `${OP}:refusal` });
  }
  ctx.ob(OP, 'the result is the payload itself, not a promise', {}, (o) => combine((o.value || []).map((a) => (a.t === 'ref' && o.ok?.st.heap.get(a.a)?.k === 'promise' ? bad('returns a promise, so a refusal is no longer an exception') : OK))), { key: `${OP}:sync`, run: { call: noAwait, tag: 'sync' } });
  // an earlier verification with other inputs leaves nothing behind that a later one would use
  {
    const kinds = {};
    ctx.ob(OP, 'independent of an earlier verification', kinds, released('$0', null), { key: `${OP}:repeat`, run: { tag: 'again', before: (I) => otherCall(I, OP, {}, setup(kinds).client, () => {}, '§') } });
  }
  ctx.need(30);
  ctx.assumptions.push('standardwebhooks.Webhook#verify either throws or returns the parsed payload it authenticated (its cryptography is C91, outside this family)');
  return ctx.finish('Abstract interpretation of webhooks.verify over the type-checked source: every value that can be returned must be the result of standardwebhooks Webhook#verify constructed with the caller\'s secret and given the caller\'s payload and the three headers in their roles; every refusal of the verifier must end in an exception; inputs and result are not altered; and a previous verification with other inputs must not be reachable from a later one.');
}
