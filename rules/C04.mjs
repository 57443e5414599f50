import { OK, bad, maybe, combine, all, show, eachCase, caseName, onRequest, req, anyFetch, bareStr, OPS, forwardCases, primCases } from './common.mjs';
import { headerOps } from '../lib/wire.mjs';

export const hdrAlts = (r, I) => headerOps(r.headers, I);
// what one header is, over all alternatives of the header list
export function header(r, name, I, f) {
  return combine(hdrAlts(r, I).map((ops) => combine(I.hdrGet(ops, name).map((a) => f(bareStr(a))))));
}
const isAbsent = (a) => a.t === 'c' && a.v === undefined;
export const bearer = (key) => (a) => {
  if (a.t === 's' && a.parts.length === 2 && a.parts[0] === 'Bearer ' && a.parts[1].t === 'x' && a.parts[1].k === key) return OK;
  if (a.t === 'top') return maybe('Authorization not resolved');
  return bad(isAbsent(a) ? 'no Authorization header is sent' : `Authorization is ${show(a)}`);
};
export const agent = (want) => (a) => {
  if (a.t === 'top') return maybe('User-Agent not resolved');
  if (want.term) return a.t === 'x' && a.k === want.term ? OK : bad(`User-Agent is ${show(a)}`);
  // resend-node:<version from package.json>
  if (a.t === 's' && a.parts[0] === 'resend-node:' && a.parts.length === 2 && a.parts[1].t === 'x' && /version/.test(a.parts[1].k)) return OK;
  if (a.t === 'c' && want.versions.includes(String(a.v))) return OK;
  return bad(isAbsent(a) ? 'no User-Agent header is sent' : `User-Agent is ${show(a)}`);
};
const json = (a) => (a.t === 'c' && /^application\/json(\s*;.*)?$/i.test(String(a.v)) ? OK : a.t === 'top' ? maybe('Content-Type not resolved') : bad(`Content-Type of a JSON body is ${show(a)}`));
const notJson = (a) => (isAbsent(a) ? OK : a.t === 'top' ? maybe('Content-Type not resolved') : bad(`a multipart body is sent with Content-Type ${show(a)}`));

// body classes
const bodyKind = (a) => (a.t === 'form' || (a.t === 'x' && /FormData/.test(a.k)) ? 'form' : a.t === 'json' ? 'json' : a.t === 'c' && (a.v === undefined || a.v === null) ? 'none' : a.t === 'c' && typeof a.v === 'string' ? 'json' : 'other');

export function* requests(withForward) {
  for (const [op, spec, c] of eachCase()) {
    const when = { ...c.when };
    if (spec.opts) when[spec.opts] = ['undef'];
    yield [op, spec, c, when];
    if (spec.opts) { yield [op, spec, { ...c, label: 'with options' }, { ...c.when, [spec.opts]: ['obj'], [`${spec.opts}.headers`]: ['absent', 'undef'] }]; yield* otherHeaders(op, spec, c); }
  }
  if (withForward) for (const [op, spec, c] of [...forwardCases(), ...primCases()]) for (const [l, w] of [['no options', { [spec.opts]: ['undef'] }], ['with options', { [spec.opts]: ['obj'], [`${spec.opts}.headers`]: ['absent', 'undef'] }]]) yield [op, spec, { ...c, label: l }, { ...c.when, ...w }];
  if (withForward) for (const [op, spec, c] of [...forwardCases(), ...primCases()]) yield* otherHeaders(op, spec, c);
}
// per-call headers that do not concern the ones the SDK sets
function* otherHeaders(op, spec, c) {
  const H = `${spec.opts}.headers`;
  for (const h of ['obj', 'arr', 'inst:Headers']) yield [op, spec, { ...c, label: `other headers (${h}) given` }, { ...c.when, [spec.opts]: ['obj'], [H]: [h], ...Object.fromEntries(['authorization', 'user-agent', 'content-type'].map((n) => [`hget(${H},${n})`, ['absent']])) }];
}
const apiUrl = (e) => e.url.every((a) => { const b = bareStr(a); const s = b.t === 'c' ? String(b.v) : b.t === 's' && typeof b.parts[0] === 'string' ? b.parts[0] : b.t === 's' && b.parts[0].t === 'x' ? b.parts[0].k : b.t === 'x' ? b.k : ''; return s.startsWith('https://api.resend.com') || s.startsWith('$opts.baseUrl'); });

export async function run(ctx) {
  const { version } = await pkg();
  const configs = [['default agent', {}, { versions: [`resend-node:${version}`] }], ['configured agent', { $opts: ['obj'], '$opts.userAgent': ['str'], '$opts.baseUrl': ['absent'] }, { term: '$opts.userAgent' }]];
  for (const [op, , c, when] of requests(true)) {
    for (const [cn, cfg, ua] of configs) {
      ctx.ob(op, `authenticated and typed: ${c.path} (${caseName(c)}${c.label ? `; ${c.label}` : ''}; ${cn})`, { ...cfg, ...when }, (o, kinds) => {
        if (!anyFetch(o)) return OK;
        void kinds;
        return onRequest(o, kinds, (e) => {
          if (!apiUrl(e)) return OK;
          const I = o.I; const r = req(e, I);
          const vs = [header(r, 'authorization', I, bearer('$key')), header(r, 'user-agent', I, agent(ua))];
          vs.push(combine(r.body.map((b) => { const k = bodyKind(b); return k === 'json' ? header(r, 'content-type', I, json) : k === 'form' ? header(r, 'content-type', I, notJson) : OK; })));
          const v = all(vs);
          return v.s === 'bad' ? { ...v, at: e.at } : v;
        });
      }, { key: `${op}:headers` });
    }
  }
  ctx.need(250);
  void OPS;
  return ctx.finish('For every request any operation can send, on every path, the header list that reaches fetch is computed (object spreads, Headers objects and entries, per-call headers last) and looked up for Authorization, User-Agent and Content-Type, per kind of body (JSON, none, multipart) and of caller headers.');
}
export async function pkg() {
  const fs = await import('node:fs');
  const { REPO } = await import('../lib/program.mjs');
  return JSON.parse(fs.readFileSync(`${REPO}/package.json`, 'utf8'));
}
