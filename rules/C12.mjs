import { OK, bad, maybe, combine, all, eachCase, caseName, variants, terminals, deepEff, seqs, publicOps, OPS, PRIMITIVES, forwardCases, primCases } from './common.mjs';
import { bareStr, headerOps, field } from '../lib/wire.mjs';
import { vkey, akey, effKey } from '../lib/domain.mjs';
import { setup } from '../lib/run.mjs';

const secretIn = (s, secrets) => secrets.find((k) => s.includes(`<${k}`) || s.includes(`(${k}`) || new RegExp(`[<(,{]${k.replace(/[$.]/g, '\\$&')}(?![\\w.$])`).test(s));
// does a request go to the configured API host?
function api(url) {
  return url.every((u) => {
    const a = bareStr(u);
    if (a.t === 'top') return true;
    const first = a.t === 's' ? a.parts[0] : a.t === 'c' ? String(a.v) : a;
    if (typeof first === 'string') return first === 'https://api.resend.com' || first.startsWith('https://api.resend.com/') || first.startsWith('https://api.resend.com?');
    return ['https://api.resend.com', '$opts.baseUrl', 'process.env.RESEND_BASE_URL'].some((b) => akey(first).includes(b)) && !/resp\d/.test(akey(first));
  });
}
export function leak(e, I, secrets) {
  const hit = (s) => secretIn(s, secrets);
  switch (e.k) {
    case 'fetch': {
      if (hit(vkey(e.url))) return 'the API key is put in the request URL';
      const isApi = api(e.url);
      for (const ops of headerOps(field(e.init, 'headers', I), I)) for (const h of ops) {
        if (h.op === 'merge' || h.op === 'unk') { if (h.src && hit(`<${h.src}>`)) return 'the API key is merged into the headers'; continue; }
        const names = h.name.map((n) => (n.t === 'c' ? String(n.v).toLowerCase() : akey(n)));
        if (h.value && hit(vkey(h.value)) && !(isApi && names.every((n) => n === 'authorization'))) return isApi ? `the API key is sent in header ${names.join('/')}` : `the API key is sent to another host (header ${names.join('/')})`;
        if (hit(names.join(','))) return 'the API key is a header name';
      }
      for (const a of e.init) {
        if (a.t === 'c') continue;
        if (a.t !== 'o') { if (hit(akey(a))) return 'the API key is passed to fetch'; continue; }
        for (const [k, m] of a.m) if (k !== 'headers' && hit(vkey(m.v))) return `the API key is sent in the request's ${k}`;
      }
      return null;
    }
    case 'log': return (e.args || []).some((v) => hit(vkey(v))) ? 'the API key is written to the console' : null;
    case 'ext': case 'callback': return (e.args || []).some((v) => hit(vkey(v))) ? `the API key is handed to ${e.name}` : null;
    case 'mutate': return e.value && hit(vkey(e.value)) ? `the API key is stored in ${e.target}` : null;
    case 'swrite': return e.global && e.value && hit(vkey(e.value)) ? `the API key is stored in ${e.target}` : null;
    default: return null;
  }
}
const CONFIGS = [['argument', {}, ['$key']], ['argument and base URL', { $opts: ['obj'], '$opts.baseUrl': ['str'], '$opts.userAgent': ['absent'] }, ['$key']], ['argument and user agent', { $opts: ['obj'], '$opts.baseUrl': ['absent', 'undef'], '$opts.userAgent': ['estr', 'str'] }, ['$key']], ['environment', { $key: ['undef'], 'process.env.RESEND_API_KEY': ['str'], 'process.env.RESEND_BASE_URL': ['absent', 'str'] }, ['process.env.RESEND_API_KEY']]];

export async function run(ctx) {
  const obl = (secrets) => (o) => combine(terminals(o).map((t) => {
    const f = (e) => leak(e, o.I, secrets);
    const rs = [];
    if ([...deepEff(t.st.eff)].some((e) => e.k === 'fetch' && e.url.some((u) => u.t === 'top'))) rs.push(maybe('request URL not resolved'));
    const hit = [...deepEff(t.st.eff)].map((e) => [e, f(e)]).find(([, w]) => w);
    if (hit) {
      const ss = seqs(t.st.eff, (e) => !!f(e));
      const b = bad(hit[1], hit[0].at);
      rs.push(!ss ? maybe(hit[1]) : combine(ss.map((s) => (s.length ? b : OK))));
    }
    const vs = (t.m || []).map((a) => (secretIn(akey(a), secrets) ? bad(`the API key is part of what the call ${t.kind === 'ok' ? 'returns' : 'throws'}`) : OK));
    if (vs.length) rs.push(combine(vs));
    return all(rs);
  }));
  const subjects = [];
  for (const [op, spec, c] of eachCase()) for (const [vn, w] of variants(spec)) subjects.push([op, `${c.path} (${caseName(c)}${vn ? `; ${vn}` : ''})`, { ...c.when, ...w }]);
  for (const [op, spec, c] of [...primCases(), ...forwardCases()]) { subjects.push([op, c.path, { ...c.when, [spec.opts]: ['undef'] }]); subjects.push([op, `${c.path} with options`, { ...c.when, [spec.opts]: ['obj'], [`${spec.opts}.headers`]: ['obj'] }]); }
  for (const p of ['absent', 'true', 'false']) subjects.push(['emails.receiving.forward', `forward (${p}), any outcome`, { '$0.passthrough': [p], $1: ['undef'] }]);
  for (const op of publicOps()) if (!OPS[op] && !PRIMITIVES.includes(op) && op !== 'emails.receiving.forward') subjects.push([op, op, {}]);
  subjects.push(['fetchRequest', 'fetchRequest', { $1: ['undef', 'obj'] }]);
  for (const [op, label, kinds] of subjects) for (const [cn, cfg, secrets] of CONFIGS) {
    ctx.ob(op, `key from ${cn} stays in Authorization: ${label}`, { ...cfg, ...kinds }, obl(secrets), { key: `${op}:key` });
  }
  for (const [cn, cfg, secrets] of CONFIGS) {
    const s = setup(cfg);
    const I = s.I; I.st = I.st || s.st;
    const es = [...(s.st ? deepEff(s.st.eff) : [])].map((e) => [e, leak(e, I, secrets)]).find(([, w]) => w);
    const th = s.throws.find((t) => { I.st = t.st; return secretIn(vkey(I.mat(t.v)), secrets); });
    ctx.fact(`constructing a client (key from ${cn}) keeps the key`, es ? bad(es[1], es[0].at) : th ? bad('the API key is part of the error construction throws') : OK, 'src/resend.ts', `constructor:${cn}`);
  }
  ctx.need(550);
  void effKey;
  return ctx.finish('Information flow: the key is a symbolic term; every sink on every path (URL, body and headers of each fetch, console, results, thrown values, external calls) is searched for it, and only the Authorization header of a request to the configured base URL may contain it.');
}
