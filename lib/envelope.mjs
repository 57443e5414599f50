// Reading the result an operation resolves with: {data, error, headers}.
import { C, UNDEF, akey, union } from './domain.mjs';
import { OK, bad, maybe, combine, all } from './decide.mjs';
import { field, bareStr } from './wire.mjs';
import { show } from './carry.mjs';

// Every way a call may end is checked with `f`; a rejection counts against it.
export function resolves(o, f, { rejectOk } = {}) {
  if (o.noClient) return maybe('no client could be constructed');
  const rs = [];
  if (o.ok) {
    const m = o.ok.m || [UNDEF];
    for (const a of m) rs.push(a.t === 'top' ? maybe(`result not resolved: ${a.why || ''}`) : f(a, o.I, o.ok.st));
  }
  for (const r of o.rejects) {
    if (rejectOk && rejectOk(r)) { rs.push(OK); continue; }
    rs.push(bad(`the call rejects with ${show(r.m)} instead of resolving`));
  }
  return combine(rs);
}
export const isNull = (a) => a.t === 'c' && a.v === null;
const isC = (a, v) => a.t === 'c' && a.v === v;
export const isTermAny = (a, ks) => a.t === 'x' && ks.includes(a.k);

// error: application_error with the given status (null or a response term)
export const appError = (statuses, { name = 'application_error' } = {}) => (v, I) => combine(v.map((a) => {
  if (a.t === 'top') return maybe('error not resolved');
  if (a.t !== 'o') return bad(`error is ${show(a)}`);
  const n = combine(field([a], 'name', I).map((q) => (isC(bareStr(q), name) ? OK : q.t === 'top' ? maybe('error name') : bad(`error name is ${show(q)}, not ${name}`))));
  const s = combine(field([a], 'statusCode', I).map((q) => (statuses.some((w) => (w === null ? isNull(q) : q.t === 'x' && q.k === w)) ? OK : q.t === 'top' ? maybe('error status') : bad(`error statusCode is ${show(q)}, not ${statuses.join(' or ')}`))));
  const m = combine(field([a], 'message', I).map((q) => (q.t === 'top' ? maybe('error message') : isC(q, undefined) || isNull(q) ? bad('the error has no message') : OK)));
  return all([n, s, m]);
}));
// error is null
export const noError = (v) => combine(v.map((a) => (isNull(a) ? OK : a.t === 'top' ? maybe('error not resolved') : bad(`error is ${show(a)} although the request succeeded`))));
export const noData = (v) => combine(v.map((a) => (isNull(a) ? OK : a.t === 'top' ? maybe('data not resolved') : bad(`data is ${show(a)}, not null`))));
export const someData = (v, I) => combine(v.map((a) => {
  if (a.t === 'top') return maybe('data not resolved');
  if (a.t === 'c' && (a.v === null || a.v === undefined)) return bad('data is null although the request succeeded');
  if (a.t === 'x') { const ks = [...I.kindsOf(a)]; if (ks.every((k) => k === 'null' || k === 'undef' || k === 'absent')) return bad(`data is ${show(a)}, which is null`); }
  return OK;
}));
export const termError = (ks) => (v) => combine(v.map((a) => (isTermAny(a, ks) ? OK : a.t === 'top' ? maybe('error not resolved') : bad(`error is ${show(a)}, not the API's error ${ks[0]}`))));
export const dataIs = (ks) => (v) => combine(v.map((a) => (isTermAny(a, ks) ? OK : a.t === 'top' ? maybe('data not resolved') : bad(`data is ${show(a)}, not the API's answer ${ks[0]}`))));
// headers: the response's, or null
export const isRespHeaders = (a, resp) => {
  if (a.t === 'x') return a.k.startsWith(`${resp}.headers`);
  return a.t === 'o' && a.m.size === 0 && a.rest.length >= 1 && a.rest.every((r) => !r.dyn && String(r.src).startsWith(`${resp}.headers`) && r.p === true && !(r.without && r.without.length));
};
export const headersAre = (which) => (v) => combine(v.map((a) => {
  if (a.t === 'top') return maybe('headers not resolved');
  const ok = which.some((w) => (w === null ? isNull(a) : isRespHeaders(a, w)));
  return ok ? OK : bad(`headers are ${show(a)}, not ${which.map((w) => (w === null ? 'null' : `the headers of ${w}`)).join(' or ')}`);
}));
export function envelope(spec) {
  return (a, I) => {
    if (a.t !== 'o' && a.t !== 'x') return bad(`resolves with ${show(a)}, not {data, error, headers}`);
    const out = [];
    const put = (n, f) => { if (!f) return; const r = f(field([a], n, I), I); out.push(r.s === 'ok' ? r : { ...r, why: r.why }); };
    put('error', spec.error); put('data', spec.data); put('headers', spec.headers);
    return all(out);
  };
}
export { C, akey, union };
