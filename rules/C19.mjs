// Runtimes without process, or without the optional renderer.
import { OK, bad, maybe, combine, all, show, eachCase, caseName, terminals, fetchSeqs, never, deepEff, PRIMITIVES, variants, forwardCases } from './common.mjs';
import { run as runCase } from '../lib/decide.mjs';
import { setup, program } from '../lib/run.mjs';
import { ts, loc, REPO } from '../lib/program.mjs';
import { effKey } from '../lib/domain.mjs';
import { SCEN, quiet, PRIM_WHEN, up } from './C06.mjs';
import { resolves, envelope } from '../lib/envelope.mjs';
import { IO, constructs } from './C17.mjs';
import { pkg } from './C04.mjs';

const RENDER = '@react-email/render';
export const BARE = [['no process', { process: ['undef'] }], ['process without env', { process: ['obj'], 'process.env': ['undef'] }], ['an empty process.env', { process: ['obj'], 'process.env': ['obj'], 'process.env.NODE_ENV': ['absent'] }]];
const isLoad = (e) => (e.k === 'importDyn' && String(e.name).startsWith(RENDER)) || (e.k === 'ext' && String(e.name).startsWith(RENDER));
const reqs = (o) => { const s = fetchSeqs(o); return s && [...new Set(s.map((q) => `${q.kind}|${q.seq.map(effKey).join(' ; ').replace(/@\d+/g, '')}`))].sort(); };
// the same requests as where process exists
const sameRequests = (op, other, run) => (o, kinds) => {
  const b = runCase(op, { ...kinds, ...other }, run || {});
  const x = reqs(o); const y = reqs(b);
  if (!x || !y) return maybe('too many sequences');
  if (x.join('\n') === y.join('\n')) return OK;
  return x.length === 1 && y.length === 1 ? bad(`the request differs from the one made where process exists: ${x[0].slice(0, 160)} / ${y[0].slice(0, 160)}`) : maybe('the requests differ');
};
// packages a file loads when it is imported
function* staticImports(sf) {
  const js = ts.transpileModule(sf.text, { compilerOptions: { module: ts.ModuleKind.ESNext, target: ts.ScriptTarget.ESNext }, fileName: sf.fileName }).outputText;
  const out = ts.createSourceFile('x.js', js, ts.ScriptTarget.ESNext, true);
  for (const s of out.statements) if ((ts.isImportDeclaration(s) || ts.isExportDeclaration(s)) && s.moduleSpecifier) yield s.moduleSpecifier.text;
}

export async function run(ctx) {
  const P = program();
  const { dependencies = {}, peerDependenciesMeta = {}, peerDependencies = {} } = await pkg();
  const optional = new Set(Object.keys(peerDependencies).filter((n) => (peerDependenciesMeta[n] || {}).optional || !dependencies[n]));
  for (const sf of P.files) {
    const rs = [...staticImports(sf)].map((m) => {
      const name = m.startsWith('@') ? m.split('/').slice(0, 2).join('/') : m.split('/')[0];
      if (m.startsWith('.') || dependencies[name]) return OK;
      if (optional.has(name)) return bad(`loading ${sf.fileName.slice(REPO.length + 1)} loads the optional ${name}`);
      if (m === 'process' || m === 'node:process') return bad(`loading ${sf.fileName.slice(REPO.length + 1)} loads ${m}`);
      return OK;
    });
    ctx.fact(`${sf.fileName.slice(REPO.length + 1)} loads no optional package`, all(rs), loc(sf.statements[0] || sf), `imports:${sf.fileName.slice(REPO.length + 1)}`);
  }
  for (const [name, w] of BARE) {
    for (const [cn, cfg] of [['key only', {}], ['key and options', { $opts: ['obj'], '$opts.baseUrl': ['str'], '$opts.userAgent': ['str'] }], ['key and no base URL', { $opts: ['obj'], '$opts.baseUrl': ['absent'], '$opts.userAgent': ['absent'] }]]) {
      const b = setup({ ...w, ...cfg }, { args: cn === 'key only' ? 'key' : 'both' });
      ctx.fact(`loading the package with ${name}`, b.modThrows.length ? bad(`loading the package throws ${show(b.modThrows[0].v)}`) : OK, ctx.clientAt(), 'load');
      ctx.fact(`constructing a client (${cn}) with ${name}`, constructs(b), ctx.clientAt(), 'construct');
      if (b.st) ctx.fact(`loading and constructing does not load the renderer (${cn}; ${name})`, combine([...deepEff(b.st.eff)].filter((e) => isLoad(e) || (e.k === 'ext' && /react/.test(String(e.name))) || IO(e)).map((e) => bad(`loading or constructing ${IO(e) || `uses ${e.name}`}`, e.at))), ctx.clientAt(), 'no-load');
    }
  }
  // every operation, every way the exchange can go
  const subjects = [];
  for (const [op, spec, c] of eachCase()) subjects.push([op, `${spec.verb} ${c.path} (${caseName(c)})`, { ...c.when, ...quiet(spec) }]);
  for (const p of PRIMITIVES) subjects.push([p, p, PRIM_WHEN[p]]);
  for (const [op, label, when] of subjects) {
    for (const [name, w] of BARE) {
      for (const s of SCEN(1)) {
        if (ctx.tier === 'quick' && name === 'an empty process.env' && !/fails|API error/.test(s.name)) continue;
        ctx.ob(op, `with ${name}, ${s.name}: ${label}`, { ...w, ...when, ...s.when }, (o) => resolves(o, envelope(s.env)), { key: `${op}:resolves` });
      }
      ctx.ob(op, `with ${name}, the same request: ${label}`, { ...w, ...when, ...up(1) }, sameRequests(op, { process: ['obj'], 'process.env': ['obj'] }), { key: `${op}:request` });
    }
    ctx.ob(op, `the renderer is not loaded: ${label}`, when, (o) => never(o, (e) => (isLoad(e) ? 'the renderer is loaded although no React element is sent' : null)), { key: `${op}:noload` });
  }
  for (const [op, spec, c] of forwardCases()) {
    for (const [name, w] of BARE) ctx.ob(op, `with ${name}: ${c.path}`, { ...w, ...c.when, [spec.opts]: ['undef'], ...up(3) }, (o) => resolves(o, envelope(SCEN(3)[1].env), { rejectOk: (r) => /postal-mime/.test(JSON.stringify(r.m.map((a) => a.k || ''))) }), { key: `${op}:resolves` });
    ctx.ob(op, `the renderer is not loaded: ${c.path}`, c.when, (o) => never(o, (e) => (isLoad(e) ? 'the renderer is loaded although no React element is sent' : null)), { key: `${op}:noload` });
  }
  // options and React elements
  for (const [op, spec, c] of eachCase()) for (const [vn, vw] of variants(spec)) {
    if (!vn) continue;
    for (const [name, w] of BARE.slice(0, 2)) ctx.ob(op, `with ${name}, ${vn}: ${caseName(c)}`, { ...w, ...c.when, ...vw, ...up(1), [`ok:import ${RENDER}`]: ['true'], ...(vn === 'react' ? { [`ok:${RENDER}.render(<${spec.body.from}.react>)`]: ['true'] } : {}), ...(vn === 'react' || !(spec.body && spec.body.react) ? {} : { [`${spec.body.from}.react`]: ['absent', 'undef'] }) }, (o) => resolves(o, envelope(SCEN(1)[1].env)), { key: `${op}:variant` });
  }
  // the renderer is missing: an explanatory error, and nothing sent
  for (const [op, spec, c] of eachCase()) {
    const b = spec.body;
    if (!b || !b.react) continue;
    const when = { ...c.when, ...(spec.opts ? { [spec.opts]: ['undef'] } : {}), ...(b.eachOf ? { [b.eachOf]: ['arr'] } : {}), [`${b.from}.react`]: ['obj'], [`ok:import ${RENDER}`]: ['false'] };
    ctx.ob(op, `explains that the renderer is missing: ${caseName(c)}`, when, (o) => combine(terminals(o).map((t) => {
      if (t.kind !== 'rej') return bad('the call resolves although the renderer is missing');
      if ([...deepEff(t.st.eff)].some((e) => e.k === 'fetch')) return bad('a request is made although the renderer is missing');
      return combine(t.m.map((a) => explains(a, o.I)));
    })), { key: `${op}:missing` });
    ctx.ob(op, `without an element it works although the renderer is missing: ${caseName(c)}`, { ...when, [`${b.from}.react`]: ['absent', 'undef'], ...up(1) }, (o) => resolves(o, envelope(SCEN(1)[1].env)), { key: `${op}:missing-ok` });
  }
  ctx.need(1500);
  ctx.assumptions.push('a runtime without process still has fetch, Headers, FormData, URLSearchParams and a console');
  return ctx.finish('The loading of every module, the constructor, and every operation under every way its exchange can end, are analysed with process missing, without env, and with an empty env: each must resolve with the documented result and make the same request as where process exists. The packages each compiled module imports statically must be declared dependencies, and the renderer may be loaded only on ways through an operation that send a React element; where loading it fails the call must reject with an Error naming the package.');
}
function explains(a, I) {
  if (a.t === 'top') return maybe('the rejection is not resolved');
  if (a.t !== 'o' && a.t !== 'err') return bad(`rejects with ${show(a)}, not with an explanatory Error`);
  const m = a.t === 'o' ? (a.m.get('message') || { v: [] }).v : a.msg || [];
  void I;
  if (!m.length) return bad('rejects with an Error without a message');
  return combine(m.map((q) => (q.t === 'c' && String(q.v).includes('@react-email') ? OK : q.t === 's' && q.parts.some((p) => typeof p === 'string' && p.includes('@react-email')) ? OK : q.t === 'top' ? maybe('message') : bad(`rejects with the message ${show(q)}, which does not name the missing package`))));
}
