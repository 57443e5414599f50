import { primCases, OPS, OK, bad, maybe, combine, all, show, eachCase, caseName, onRequest, req, splitUrl, bareStr, publicOps, SPECIAL, PRIMITIVES, DEFAULT_BASE, anyFetch, envFailed } from './common.mjs';

// expected path template -> parts
const parse = (tpl) => tpl.split(/(\{[^}]+\})/).filter(Boolean).map((s) => (s.startsWith('{') ? { term: s.slice(1, -1) } : s));
const merge = (parts) => parts.reduce((a, p) => { if (typeof p === 'string' && typeof a[a.length - 1] === 'string') a[a.length - 1] += p; else a.push(p); return a; }, []);

export function pathVerdict(atom, base, tpl, I) {
  const u = splitUrl(bareStr(atom));
  if (!u) return maybe('URL not resolved');
  const got = merge(u.path.map((p) => p));
  const want = merge([base, ...parse(tpl)].flatMap((p) => (Array.isArray(p) ? p : [p])));
  const say = () => `URL ${show(atom)} is not ${want.map((w) => (typeof w === 'string' ? w : `{${w.term || w.k}}`)).join('')}`;
  if (got.some((p) => typeof p !== 'string' && p.t === 'top')) return maybe('URL not resolved');
  // a trailing empty query marker is not part of the path
  if (got.length !== want.length) return cmpLoose(got, want, say, I);
  for (let i = 0; i < got.length; i++) {
    const g = got[i]; const w = want[i];
    if (typeof w === 'string') { if (g !== w) return bad(say()); continue; }
    const k = w.term || w.k;
    if (typeof g === 'string') return bad(say());
    const b = bareStr(g);
    if (b.t === 'x' && b.k === k) continue;
    if (b.t === 'x' && b.op === 'enc' && bareStr(b.base).k === k) continue;
    return bad(say());
  }
  return OK;
}
function cmpLoose(got, want, say) { return got.some((p) => typeof p !== 'string' && ['top', 'qs'].includes(p.t)) ? maybe(say()) : bad(say()); }

export function methodVerdict(v, verb) {
  return combine(v.map((a) => {
    if (a.t === 'c') return (a.v === undefined ? 'GET' : String(a.v).toUpperCase()) === verb ? OK : bad(`method ${show(a)} is not ${verb}`);
    return a.t === 'top' ? maybe('method not resolved') : maybe(`method ${show(a)}`);
  }));
}

export async function run(ctx) {
  const ops = publicOps();
  const extra = ops.filter((o) => !OPS[o] && !SPECIAL.includes(o) && !PRIMITIVES.includes(o));
  for (const [op, spec, c] of eachCase()) {
    const configs = [['default base', {}, DEFAULT_BASE], ['configured base', { $opts: ['obj'], '$opts.baseUrl': ['str'], '$opts.userAgent': ['absent'] }, { term: '$opts.baseUrl' }]];
    for (const [cn, cfg, base] of configs) {
      ctx.ob(op, `${spec.verb} ${c.path} (${caseName(c)}; ${cn})`, { ...cfg, ...c.when }, (o, kinds) => {
        if (!anyFetch(o)) return envFailed(kinds) ? OK : bad('no request is made');
        return onRequest(o, kinds, (e) => {
          const r = req(e, o.I);
          const u = combine(r.url.map((a) => pathVerdict(a, base, c.path, o.I)));
          const m = methodVerdict(r.method, spec.verb);
          const v = all([u, m]);
          return v.s === 'bad' ? { ...v, at: e.at } : v;
        });
      }, { key: `${op}:${c.path}` });
    }
  }
  // the client's own request methods: the caller's path, appended to the base URL
  const own = [...primCases()].map(([op, spec]) => [op, spec, { $0: ['str'] }]);
  own.push(['fetchRequest', { opts: '$1' }, { $0: ['str'], $1: ['obj'] }]);
  for (const [op, spec, when] of own) {
    for (const [cn, cfg, base] of [['default base', {}, DEFAULT_BASE], ['configured base', { $opts: ['obj'], '$opts.baseUrl': ['str'], '$opts.userAgent': ['absent'] }, { term: '$opts.baseUrl' }]]) {
      for (const k of spec.entity ? [['absent'], ['obj'], ['arr'], ['null'], ['inst:FormData'], ['estr', 'str']] : [null]) {
        ctx.ob(op, `${spec.verb || 'a request'} to the given path (${cn}${k ? `; body ${k}` : ''})`, { ...cfg, ...when, ...(k ? { [spec.entity]: k } : {}) }, (o, kinds) => {
          if (!anyFetch(o)) return envFailed(kinds) ? OK : bad('no request is made');
          return onRequest(o, kinds, (e) => {
            const r = req(e, o.I);
            const u = combine(r.url.map((a) => pathVerdict(a, base, '{$0}', o.I)));
            const m = spec.verb ? methodVerdict(r.method, spec.verb) : combine(r.method.map((a) => (a.t === 'x' ? (a.k === '$1.method' ? OK : bad(`method ${show(a)} is not the one given`)) : a.t === 'c' && String(a.v).toUpperCase() !== 'GET' && a.v !== undefined ? bad(`method ${show(a)} is not the one given`) : maybe('method'))));
            const v = all([u, m]);
            return v.s === 'bad' ? { ...v, at: e.at } : v;
          });
        }, { key: `${op}:${cn}` });
      }
    }
  }
  ctx.assumptions.push('documented verbs and paths are the table lib/contract.mjs, confirmed by hand', 'the global fetch performs the request it is given');
  ctx.need(200);
  return ctx.finish('For every public operation and each documented alternative of its arguments, the abstract interpreter computes the method and URL of the request for all inputs of that alternative, and compares them with the documented endpoint: literal segments exactly, identifiers by provenance. Query strings are C03, encoding of identifiers is C18.', { operations_in_client: ops.length, operations_without_contract: extra });
}
