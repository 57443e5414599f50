import { OK, bad, maybe, combine, all, show, eachCase, caseName, onRequest, req, anyFetch, envFailed, bareStr, primCases, forwardCases, FORWARD } from './common.mjs';
import { hdrAlts, header } from './C04.mjs';
import { X, bare } from '../lib/terms.mjs';
import { C, akey } from '../lib/domain.mjs';
import { termOf } from './C02.mjs';
import { prop } from '../lib/terms.mjs';

const IDEM = 'idempotency-key';
// do the caller's headers win over everything the SDK sets?
export function delivered(ops, H, I, idem) {
  const at = ops.map((e, i) => (e.op === 'merge' && (e.srcT ? e.srcT.k : e.src) === H.k ? i : -1)).filter((i) => i >= 0);
  const viaEntries = ops.findIndex((e) => e.op === 'merge' && e.src !== H.k && e.src.includes(H.k));
  if (!at.length) {
    if (viaEntries >= 0) at.push(viaEntries);
    else if (ops.some((e) => e.op === 'unk' || (e.name && e.name.some((n) => n.t !== 'c' && n.k === undefined)))) return maybe('dynamic headers');
    else return bad('the per-call headers are not sent');
  }
  const m = ops[at[at.length - 1]];
  if (m.p !== true) return maybe('the per-call headers may not be sent');
  if (m.without && m.without.length) {
    const w = m.without.filter((n) => !(idem && n === akey(C(IDEM))));
    if (w.length) return bad(`per-call header ${w[0]} is dropped`);
  }
  const out = [];
  // appending leaves the SDK's own header of the same name in place
  if (m.via === 'append') {
    for (const e of ops.slice(0, at[at.length - 1])) {
      const n = e.op !== 'merge' && e.op !== 'delete' && e.p === true && e.name && e.name.length === 1 && e.name[0].t === 'c' ? String(e.name[0].v).toLowerCase() : null;
      if (n === null) continue;
      const h = X('hget', `hget(${H.k},${n})`, { base: bare(H), name: n, kinds: new Set(['absent', 'estr', 'str']) });
      const ks = [...I.kindsOf(h)];
      const say = `the caller's header ${n} is appended to the SDK's own instead of overriding it`;
      if (ks.every((k) => k === 'absent')) continue;
      if (ks.length === 1) { out.push(bad(say)); continue; }
      out.push({ s: 'maybe', why: say, hints: [{ k: h.k, x: h, kinds: new Set(ks) }] });
    }
  }
  for (const e of ops.slice(at[at.length - 1] + 1)) {
    if (e.op === 'merge') continue;
    const n = e.name && e.name.length === 1 && e.name[0].t === 'c' ? String(e.name[0].v).toLowerCase() : null;
    if (n === null) { out.push(maybe('dynamic header name')); continue; }
    if (n === IDEM && idem) continue;
    const h = X('hget', `hget(${H.k},${n})`, { base: bare(H), name: n, kinds: new Set(['absent', 'estr', 'str']) });
    const ks = [...I.kindsOf(h)];
    const say = `header ${n} set after the per-call headers overrides the caller's`;
    if (ks.every((k) => k === 'absent')) continue;
    if (ks.length === 1) { out.push(e.p === true ? bad(say) : maybe(say)); continue; }
    out.push({ s: 'maybe', why: say, hints: [{ k: h.k, x: h, kinds: new Set(ks) }] });
  }
  return all(out);
}

export async function run(ctx) {
  let n = 0;
  for (const [op, spec, c] of [...eachCase(), ...primCases(), ...forwardCases()]) {
    if (!spec.opts) continue;
    n++;
    const a = spec.opts;
    const H = prop(termOf(a), 'headers');
    const obl = (f) => (o, kinds) => {
      if (!anyFetch(o)) return envFailed(kinds) ? OK : bad('no request is made');
      return onRequest(o, kinds, (e) => { if (op === FORWARD && e.n !== 3) return OK; const v = f(req(e, o.I), o.I, kinds); return v.s === 'bad' ? { ...v, at: e.at } : v; });
    };
    for (const k of ['obj', 'arr', 'inst:Headers']) {
      ctx.ob(op, `per-call headers (${k}) override: ${c.path} (${caseName(c)})`, { ...c.when, [a]: ['obj'], [H.k]: [k] },
        obl((r, I) => combine(hdrAlts(r, I).map((ops) => delivered(ops, H, I, spec.idem)))), { key: `${op}:headers.${k}` });
    }
    // nothing asked for: no idempotency key
    for (const when of [{ [a]: ['undef'] }, { [a]: ['obj'], [H.k]: ['absent', 'undef'], ...(spec.idem ? { [`${a}.idempotencyKey`]: ['absent', 'undef'] } : {}) }]) {
      ctx.ob(op, `no idempotency key unless given: ${c.path} (${caseName(c)}; ${Object.keys(when).length > 1 ? 'options' : 'no options'})`, { ...c.when, ...when },
        obl((r, I) => header(r, IDEM, I, (x) => (x.t === 'c' && x.v === undefined ? OK : x.t === 'top' ? maybe('header') : bad(`Idempotency-Key ${show(x)} is sent although none was given`)))), { key: `${op}:noidem` });
    }
    if (spec.idem) {
      for (const hk of [['absent'], ['obj'], ['arr'], ['inst:Headers']]) {
        ctx.ob(op, `idempotency key is sent: ${c.path} (${caseName(c)}; headers ${hk[0]})`, { ...c.when, [a]: ['obj'], [`${a}.idempotencyKey`]: ['str'], [H.k]: hk },
          obl((r, I) => header(r, IDEM, I, (x) => {
            const y = bareStr(x);
            return y.t === 'x' && y.k === `${a}.idempotencyKey` ? OK : y.t === 'top' ? maybe('header') : bad(`Idempotency-Key is ${show(y)}`);
          })), { key: `${op}:idem` });
      }
    }
    if (/^batch\./.test(op)) {
      const B = `${a}.batchValidation`;
      for (const [when, want] of [[{ [a]: ['undef'] }, 'strict'], [{ [a]: ['obj'], [B]: ['absent', 'undef'], [H.k]: ['absent', 'undef'] }, 'strict'], [{ [a]: ['obj'], [B]: ['lit:permissive'], [H.k]: ['absent', 'undef'] }, 'permissive'], [{ [a]: ['obj'], [B]: ['lit:strict'], [H.k]: ['absent', 'undef'] }, 'strict'],
        [{ [a]: ['obj'], [B]: ['lit:permissive'], [H.k]: ['obj'], [`hget(${H.k},x-batch-validation)`]: ['absent'] }, 'permissive']]) {
        ctx.ob(op, `x-batch-validation ${want} (${Object.values(when).map((v) => v[0])})`, { ...c.when, ...when },
          obl((r, I) => header(r, 'x-batch-validation', I, (x) => (x.t === 'c' && x.v === want ? OK : x.t === 'x' && x.k === B && when[B] && when[B][0] === `lit:${want}` ? OK : x.t === 'top' ? maybe('header') : bad(`x-batch-validation is ${show(x)}, not ${want}`)))), { key: `${op}:batchValidation` });
      }
    }
  }
  ctx.need(70);
  return ctx.finish('For every operation that takes request options, in every form a header initialiser can have (object, Headers, entries) and with the idempotency key set, empty or left out: the computed header list has to carry the key unchanged and every caller header after (or instead of) the SDK\'s own of the same name.', { operations_with_request_options: n });
}
