import { OPS, OK, bad, maybe, combine, all, show, eachCase, caseName, onRequest, req, anyFetch, envFailed, splitUrl, bareStr } from './common.mjs';
import { kindsAt } from '../lib/carry.mjs';
import { prop, elem } from '../lib/terms.mjs';
import { constOfKind } from '../lib/domain.mjs';
import { queryEntries } from '../lib/wire.mjs';
import { groups, run as run1 } from '../lib/decide.mjs';
import { snake } from '../lib/contract.mjs';
import { termOf } from './C02.mjs';

const NONE = new Set(['absent', 'undef', 'null']);
const LOOSE = new Set(['estr', 'zero', 'earr', 'false']);

function entriesOf(atom) {
  const u = splitUrl(bareStr(atom));
  if (!u || u.path.some((p) => typeof p !== 'string' && p.t === 'top')) return null;
  if (u.odd) return { odd: true };
  if (!u.query) return { list: [], q: false };
  if (u.query.some((p) => typeof p !== 'string' && p.t === 'top')) return null;
  const list = queryEntries(u.query);
  return { list, q: true, bad: list.bad, mangled: u.query.filter((p) => typeof p !== 'string' && MANGLED(p)) };
}
// the text of the query put through an operation that loses part of what it says: other letter case, cut off
const MANGLED = (p) => p.t === 'x' && p.op === 'call' && (/^to(Locale)?(Lower|Upper)Case$/.test(p.name) || (/^(slice|substring|substr)$/.test(p.name) && p.args.length > 2));
const textMentions = (v, t) => v.some((a) => (a.t === 's' ? a.parts : [a]).some((p) => typeof p !== 'string' && (p.t === 'qs' ? p.entries.some((e) => e.p !== false && (e.value || []).some((x) => x.t !== 'c' && [...TERMS_IN(x)].includes(t.k))) : [...TERMS_IN(p)].includes(t.k))));
function* TERMS_IN(a) { for (let x = a; x && x.t === 'x'; x = x.base) yield x.k; if (a && a.t === 's') for (const p of a.parts) if (typeof p !== 'string') yield* TERMS_IN(p); }
const nameOf = (e) => (typeof e.name === 'string' ? e.name : e.name && e.name.length === 1 && e.name[0].t === 'c' ? String(e.name[0].v) : null);

// form encoding: a space written '+' in a query
function unplus(p) {
  if (p.t === 'x' && p.op === 'call' && (p.name === 'replace' || p.name === 'replaceAll') && p.args.length === 3 && p.args.every((a) => a.length === 1)) {
    const [s, f, r] = p.args.map((a) => a[0]);
    if (s.t === 'x' && s.op === 'enc' && r.t === 'c' && r.v === '+' && (f.t === 're' ? f.src === '/%20/g' : p.name === 'replaceAll' && f.v === '%20')) return s;
  }
  return p;
}
function valueVerdict(e, t, g, isList, I, what) {
  const K = g[0];
  const okAtom = (a0) => {
    const a = bareStr(a0);
    if (a.t === 'top') return maybe(`${what}: not resolved`);
    if (K === 'arr') {
      if (a.t === 'x' && a.op === 'join' && a.base.k === t.k && a.sep === ',') return OK;
      return bad(`${what} carries ${show(a)} instead of ${t.k} joined by commas`);
    }
    if (a.t === 'x' && a.k === t.k) return OK;
    const c = constOfKind(K);
    if (c && a.t === 'c' && String(a.v) === String(c.v)) return OK;
    if (a.t === 'x' && a.op === 'call' && a.name === 'Number' && a.args[0].length === 1 && bareStr(a.args[0][0]).k === t.k && (K === 'num')) return OK;
    return bad(`${what} carries ${show(a)} instead of ${t.k}`);
  };
  if (e.parts) {
    // written out by hand: must be percent-encoded
    if (e.parts.length !== 1) return e.parts.some((p) => p.t === 'top') ? maybe(what) : bad(`${what} carries ${e.parts.map((p) => show(p)).join('')}`);
    const p = typeof e.parts[0] === 'string' ? { t: 'c', v: decodeURIComponent(e.parts[0]) } : unplus(bareStr(e.parts[0]));
    if (p.t === 'x' && p.op === 'enc') return okAtom(p.base);
    if (p.t === 'x' && K !== 'num' && !K.startsWith('lit:') && K !== 'true' && !(K === 'arr' && elemLit(t, I))) {
      const r = okAtom(p); return r.s === 'ok' ? bad(`${what}: ${t.k} is not percent-encoded`) : r;
    }
    return okAtom(p);
  }
  return combine((e.value || []).map(okAtom));
}
const K0 = (k) => k === 'str' || k === 'arr';
// lists of enumerated words need no encoding
const elemLit = (t, I) => [...I.kindsOf(elem(t))].every((k) => k.startsWith('lit:') || k === 'num' || k === 'zero');

function fieldVerdict(atom, t, name, spec, I, kinds) {
  const es = entriesOf(atom);
  if (!es) return maybe('URL not resolved');
  if (es.odd) return bad('query glued onto the path without "?"');
  const w = snake(name);
  const mine = es.list.filter((e) => nameOf(e) === w);
  const opaque = es.list.some((e) => nameOf(e) === null);
  const K = kindsAt(I, t);
  const gs = groups(K);
  const hints = [{ k: t.k, x: t, kinds: K }];
  const rs = gs.map((g) => {
    if (g.every((k) => NONE.has(k))) {
      if (opaque) return maybe('dynamic query names');
      const e = mine[0];
      if (!e) return OK;
      const say = `${w} appears although ${t.k} is not set`;
      return e.p === true || e.p === undefined ? bad(say) : maybe(say);
    }
    if (LOOSE.has(g[0])) return OK;
    const jk = `join(${t.k},",")`;
    if (g[0] === 'arr' && kinds[jk] && kinds[jk].join() === 'estr') return OK;
    const cut = (es.mangled || []).find((p) => textMentions(p.args[0], t));
    if (cut && (K0(g[0]) || cut.args.length > 2)) return bad(`the query text carrying ${t.k} is put through ${cut.name}`);
    if (!mine.length) {
      if (opaque || es.bad) return maybe('dynamic query names');
      return bad(`${t.k} (${g.join('/')}) never reaches the query as ${w}`);
    }
    if (mine.length > 1) return mine.every((e) => e.p === true) ? bad(`${w} appears ${mine.length} times`) : maybe(`${w} may appear several times`);
    const e = mine[0];
    if (e.each || e.op === 'merge') return e.each ? bad(`${w} is repeated per element instead of joined`) : maybe('merged query');
    const v = valueVerdict(e, t, g, false, I, w);
    if (v.s !== 'ok') return v;
    if (e.p !== true) return { s: 'maybe', why: `${w} may be left out`, hints: [{ k: jk, x: { t: 'x', op: 'join', k: jk, base: t, sep: ',' }, kinds: I.kindsOf({ t: 'x', op: 'join', k: jk, base: t, sep: ',' }) }] };
    return OK;
  });
  if (rs.every((r) => r.s === 'ok')) return OK;
  const nok = rs.find((r) => r.s !== 'ok');
  if (gs.length === 1) return nok;
  return { s: 'maybe', why: nok.why, hints: hints.concat(rs.flatMap((r) => r.hints || [])) };
}
function extraVerdict(atom, names) {
  const es = entriesOf(atom);
  if (!es) return maybe('URL not resolved');
  if (es.odd) return bad('query glued onto the path without "?"');
  return extraList(es, names, OK);
}
function emptyVerdict(atom) {
  const es = entriesOf(atom);
  if (!es) return maybe('URL not resolved');
  if (!es.q && !es.odd) return OK;
  return es.list && es.list.length && es.list.every((e) => e.p !== true) ? maybe(`URL ${show(atom)} may carry a query`) : bad(`URL ${show(atom)} carries a query although no option is set`);
}
function extraList(es, names, dflt) {
  const out = [dflt];
  const seen = new Set();
  for (const e of es.list) {
    const n = nameOf(e);
    if (n === null) { out.push(maybe('dynamic query names')); continue; }
    if (!names.has(n)) out.push(e.p === true ? bad(`${n} is added to the query`) : maybe(`${n} may be added to the query`));
    if (seen.has(n)) out.push(e.p === true ? bad(`${n} appears twice`) : maybe(`${n} may appear twice`));
    seen.add(n);
  }
  return all(out);
}

export async function run(ctx) {
  for (const [op, spec, c] of eachCase()) {
    const q = spec.query;
    let names = []; let none = null;
    const when = { ...c.when };
    if (q) {
      const omit = new Set(q.omit || []);
      const root = termOf(q.from);
      const probe = run1(op, when);
      names = probe.I.declaredProps(root).names.filter((n) => !omit.has(n));
      for (const n of names) {
        ctx.ob(op, `query ${snake(n)} of ${c.path} (${caseName(c)})`, when, (o, kinds) => {
          if (!anyFetch(o)) return envFailed(kinds) || o.rejects.length ? envFailed(kinds) ? OK : bad('no request is made') : bad('no request is made');
          return onRequest(o, kinds, (e) => { const r = req(e, o.I); const v = combine(r.url.map((a) => fieldVerdict(a, prop(root, n), n, q, o.I, kinds))); return v.s === 'bad' ? { ...v, at: e.at } : v; });
        }, { key: `${op}:query.${n}`, depth: 8, budget: 400 });
      }
      // nothing set: no query
      none = { ...when };
      if (q.optional && !none[q.from]) none[q.from] = ['undef'];
      else for (const n of names) { const t = prop(root, n); if ([...kindsAt(probe.I, t)].some((k) => k === 'absent')) none[t.k] = ['absent']; }
    }
    if (none && spec.query && !names.some((n) => n === 'type')) {
      ctx.ob(op, `no options, no query: ${c.path} (${caseName(c)})`, none, (o, kinds) => {
        if (!anyFetch(o)) return OK;
        return onRequest(o, kinds, (e) => { const v = combine(req(e, o.I).url.map(emptyVerdict)); return v.s === 'bad' ? { ...v, at: e.at } : v; });
      }, { key: `${op}:noquery` });
    }
    const allowed = new Set(names.map(snake));
    ctx.ob(op, `query of ${spec.verb} ${c.path} adds nothing (${caseName(c)})`, when, (o, kinds) => {
      if (!anyFetch(o)) return OK;
      void kinds;
      return onRequest(o, kinds, (e) => { const r = req(e, o.I); const v = combine(r.url.map((a) => extraVerdict(a, allowed))); return v.s === 'bad' ? { ...v, at: e.at } : v; });
    }, { key: `${op}:query`, depth: 10, budget: 700 });
  }
  ctx.need(180);
  void OPS;
  return ctx.finish('For every read operation with options, the URL is computed symbolically and its query split into names and values. For every option and every kind of its value (set, empty, zero, left out), alone and with the other options set or unset, the option has to appear exactly once, encoded, with the caller\'s term as value; with no option set the URL has no query.');
}
