// Client configuration: argument, then environment, then documented default.
import { OK, bad, maybe, combine, all, show, onRequest, req, DEFAULT_BASE, deepEff } from './common.mjs';
import { setup } from '../lib/run.mjs';
import { pathVerdict } from './C01.mjs';
import { header, bearer, pkg } from './C04.mjs';
import { bareStr, field } from '../lib/wire.mjs';

const ENV = ['absent', 'estr', 'str'];
const P = { 'no process': { process: ['undef'] }, 'process without env': { process: ['obj'], 'process.env': ['undef'] } };
// every combination for one setting: [text, kinds, args, expected source]
export function* combos(setting) {
  const env = { key: 'RESEND_API_KEY', baseUrl: 'RESEND_BASE_URL', userAgent: 'RESEND_USER_AGENT' }[setting];
  const envs = [...ENV.map((e) => [`${env} ${{ absent: 'not set', estr: 'empty', str: 'set' }[e]}`, { process: ['obj'], 'process.env': ['obj'], [`process.env.${env}`]: [e] }, e === 'str' ? `process.env.${env}` : 'default']), ...[['absent', 'default'], ['str', `process.env.${env}`]].map(([e, src]) => [`${env} ${e === 'str' ? 'set' : 'not set'} since the package was loaded`, { process: ['obj'], 'process.env': ['obj'], [`process.env.${env}`]: [e], [`process.env.${env}@import`]: [e === 'str' ? 'absent' : 'str'] }, src]), ...Object.entries(P).map(([n, k]) => [n, k, 'default'])];
  for (const [en, ek, src] of envs) {
    if (setting === 'key') {
      yield [`key given, ${en}`, { ...ek, $key: ['str'] }, 'both', '$key'];
      yield [`key undefined, ${en}`, { ...ek, $key: ['undef'] }, 'both', src];
      yield [`key empty, ${en}`, { ...ek, $key: ['estr'] }, 'both', src];
      yield [`no arguments, ${en}`, { ...ek }, 'none', src];
    } else {
      yield [`${setting} given, ${en}`, { ...ek, $opts: ['obj'], [`$opts.${setting}`]: ['str'] }, 'both', `$opts.${setting}`];
      if (setting === 'userAgent' || en === 'RESEND_BASE_URL set') yield [`${setting} empty, ${en}`, { ...ek, $opts: ['obj'], [`$opts.${setting}`]: ['estr'] }, 'both', `$opts.${setting}`, true];
      yield [`${setting} undefined, ${en}`, { ...ek, $opts: ['obj'], [`$opts.${setting}`]: ['undef'] }, 'both', src];
      yield [`options without ${setting}, ${en}`, { ...ek, $opts: ['obj'], [`$opts.${setting}`]: ['absent'] }, 'both', src];
      yield [`no options, ${en}`, { ...ek }, 'key', src];
      yield [`options undefined, ${en}`, { ...ek, $opts: ['undef'] }, 'both', src];
    }
  }
}
const quietEnv = { 'process.env.NODE_ENV': ['str'] };
export const IO = (e) => (e.k === 'fetch' ? 'makes a network request' : e.k === 'log' ? 'writes to the console' : e.k === 'ext' ? `calls ${e.name}` : e.k === 'importDyn' ? `loads ${e.name}` : e.k === 'timer' ? 'starts a timer' : e.k === 'callback' ? 'calls into caller code' : null);
const text = (a) => bareStr(a);
export const isTerm = (k) => (a) => { const b = text(a); return b.t === 'x' && b.k === k ? OK : a.t === 'top' ? maybe('value not resolved') : bad(`it is ${/@import$/.test(b.k || '') ? `${show(b)}, read when the module was loaded` : show(b)}, not ${k}`); };
const versionAgent = (v) => (a) => {
  const b = text(a);
  if (b.t === 'c') return b.v === `resend-node:${v}` ? OK : bad(`it is ${show(b)}, not resend-node:<version>`);
  if (b.t === 's' && b.parts[0] === 'resend-node:' && b.parts.length === 2 && b.parts[1].t === 'x' && /version/.test(b.parts[1].k)) return OK;
  return a.t === 'top' ? maybe('value not resolved') : bad(`it is ${show(b)}, not resend-node:<version>`);
};
// where the constructed client stands
function judge(b, f) {
  if (b.modThrows.length) return bad('loading the package throws');
  return f(b);
}
export const throwsMissing = (b) => (b.client ? (b.throws.length ? maybe('construction may succeed') : bad('construction succeeds without any API key')) : b.throws.length ? combine(b.throws.map((t) => blame(b.I, t))) : bad('construction neither succeeds nor throws'));
// the error must be about the key, not an accident on the way
const blame = (I, t) => {
  I.st = t.st.clone();
  return combine(I.mat(t.v).flatMap((a) => (a.t !== 'o' ? [OK] : field([a], 'name', I).map((n) => (n.t === 'c' && /^(Type|Reference|Range|Syntax)Error$/.test(n.v) ? bad(`construction fails with a ${n.v} instead of reporting the missing key`) : OK)))));
};
export const constructs = (b) => (!b.client ? bad('construction throws') : b.throws.length ? maybe('construction may throw') : OK);

export async function run(ctx) {
  const { version } = await pkg();
  const want = { key: null, baseUrl: (a) => { const b = text(a); return b.t === 'c' && b.v === DEFAULT_BASE ? OK : a.t === 'top' ? maybe('value not resolved') : bad(`it is ${show(b)}, not ${DEFAULT_BASE}`); }, userAgent: versionAgent(version) };
  const hdr = { key: 'authorization', userAgent: 'user-agent' };
  for (const setting of ['key', 'baseUrl', 'userAgent']) {
    for (const [name, kinds, args, src, empty] of combos(setting)) {
      const b = setup({ ...quietEnv, ...kinds }, { args });
      const at = ctx.clientAt();
      const k = (s) => `${setting}:${s}`;
      if (setting === 'key' && src === 'default') { ctx.fact(`construction throws: ${name}`, judge(b, throwsMissing), at, k('throws')); continue; }
      const c = judge(b, constructs);
      ctx.fact(`construction succeeds: ${name}`, c, at, k('constructs'));
      if (!b.client) continue;
      ctx.fact(`construction does no I/O: ${name}`, combine([...deepEff(b.st.eff)].map((e) => (IO(e) ? bad(`constructing a client ${IO(e)}`, e.at) : OK)).filter((r) => r.s !== 'ok').concat()), at, k('io'));
      const expect = empty ? (a) => (a.t === 'c' && a.v === '' ? OK : isTerm(src)(a)) : src === 'default' ? want[setting] : isTerm(src);
      b.I.st = b.st.clone();
      const v = b.I.mat(b.I.getProp(b.client, setting, null));
      ctx.fact(`client.${setting}: ${name}`, combine(v.map(expect)), at, k('field'));
      // and what a request made with it carries
      if (empty && setting === 'baseUrl') continue;
      const run = { setup: { args } };
      for (const op of ['logs.get', 'events.send']) {
        const when = { ...quietEnv, ...kinds, $0: op === 'logs.get' ? ['str'] : ['obj'] };
        ctx.ob(op, `request uses ${setting}: ${name}`, when, (o) => onRequest(o, when, (e) => {
          const r = req(e, o.I);
          if (setting === 'baseUrl') return combine(r.url.map((a) => pathVerdict(a, src === 'default' ? DEFAULT_BASE : { term: src }, op === 'logs.get' ? '/logs/{$0}' : '/events/send', o.I)));
          if (setting === 'key') return header(r, hdr.key, o.I, bearer(src));
          return header(r, hdr.userAgent, o.I, expect);
        }), { key: k('request'), run });
      }
    }
  }
  // settings are independent of each other
  for (const [n, kinds, url, ua] of [
    ['base URL argument, user agent from the environment', { $opts: ['obj'], '$opts.baseUrl': ['str'], '$opts.userAgent': ['absent'], 'process.env.RESEND_USER_AGENT': ['str'], 'process.env.RESEND_BASE_URL': ['str'] }, '$opts.baseUrl', 'process.env.RESEND_USER_AGENT'],
    ['user agent argument, base URL from the environment', { $opts: ['obj'], '$opts.baseUrl': ['absent'], '$opts.userAgent': ['str'], 'process.env.RESEND_USER_AGENT': ['str'], 'process.env.RESEND_BASE_URL': ['str'] }, 'process.env.RESEND_BASE_URL', '$opts.userAgent'],
    ['everything given and everything in the environment', { $opts: ['obj'], '$opts.baseUrl': ['str'], '$opts.userAgent': ['str'], 'process.env.RESEND_USER_AGENT': ['str'], 'process.env.RESEND_BASE_URL': ['str'], 'process.env.RESEND_API_KEY': ['str'] }, '$opts.baseUrl', '$opts.userAgent'],
  ]) {
    const b = setup({ ...quietEnv, ...kinds }); 
    if (!b.client) { ctx.fact(`independent settings: ${n}`, bad('construction throws'), ctx.clientAt(), 'independent'); continue; }
    b.I.st = b.st.clone();
    for (const [f, t] of [['baseUrl', url], ['userAgent', ua], ['key', '$key']]) ctx.fact(`client.${f}: ${n}`, combine(b.I.mat(b.I.getProp(b.client, f, null)).map(isTerm(t))), ctx.clientAt(), 'independent');
  }
  ctx.need(250);
  return ctx.finish('The constructor, and the loading of every module, are analysed for every combination of argument (given, undefined, empty, left out), environment variable (not set, empty, set) and process object (present, without env, missing), one setting at a time and then mixed. The provenance of the client\'s key, baseUrl and userAgent, and of the URL and headers of requests made with that client, must be the documented source; without any key construction must throw; neither loading nor constructing may have an I/O effect. A value read from the environment while the module loads counts as a different value from the one at construction.');
}
