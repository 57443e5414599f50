// Deciding one obligation on one operation: analyse it under a case (kinds of the
// inputs), and where the joined result cannot tell, partition the case further on
// the conditions the code itself branches on.
import { runOp } from './run.mjs';
import { terminals } from './wire.mjs';

const ABS = new Set(['absent', 'undef']);
let runCache = new Map(); let cacheOp = null;
export const COUNT = { runs: 0, cases: 0 };

const kstr = (kinds) => Object.entries(kinds).map(([k, v]) => `${k}=${[...v].sort().join('|')}`).sort().join(' ; ');
export const caseText = (kinds) => kstr(kinds);

export function run(op, kinds, opt = {}) {
  if (cacheOp !== op) { runCache = new Map(); cacheOp = op; }
  const key = `${opt.tag || ''}${opt.only ? '?' : ''}#${(opt.feasible || []).some((x) => x.op === 'prop') ? 'f' : ''}#${kstr(kinds)}`;
  let r = runCache.get(key);
  if (!r) {
    r = runOp(op, kinds, opt);
    COUNT.runs++;
    // results of cases already decided are not needed again
    if (COUNT.runs % 20 === 0 && process.memoryUsage().heapUsed > 2e9) runCache = new Map();
    runCache.set(key, r);
  }
  return r;
}

// groups of a decision's kinds
export function groups(kinds) {
  const ks = [...kinds]; const out = [];
  const abs = ks.filter((k) => ABS.has(k));
  if (abs.length) out.push(abs);
  for (const k of ks) if (!ABS.has(k)) out.push([k]);
  return out;
}
// An outcome nobody can reach: nothing returned and nothing rejected.
// What kept the analysis from following any of the outcomes, if something did.
const unfollowed = (o) => {
  let why = null;
  for (const t of terminals(o)) {
    const u = anyDeep(t.st.eff, (e) => e.k === 'unknown');
    if (!u) return null;
    why = why || u.name;
  }
  return why;
};
const anyDeep = (l, f) => {
  for (const e of l) {
    if (e.k === 'alt') { for (const a of e.alts) { const h = anyDeep(a, f); if (h) return h; } } else if (e.k === 'loop') { const h = anyDeep(e.effs, f); if (h) return h; } else if (f(e)) return e;
  }
  return null;
};
const vacuous = (o) => o.infeasible || (!o.ok && !o.rejects.length && !o.noClient && !o.budget);

// cheap and telling splits first: hinted ones, iterations, comparisons
const rank = (sp, hinted) => (hinted.has(sp.k) ? 0 : sp.k.startsWith('eq(') ? 1 : sp.k.startsWith('nth(') ? 2 : 3);
const order = (list, v) => {
  const hinted = new Set((v.hints || []).map((h) => (typeof h === 'string' ? h : h.k)));
  return list.map((sp, i) => ({ sp, i, r: rank(sp, hinted) })).sort((a, b) => a.r - b.r || a.i - b.i).map((q) => ({ ...q.sp, i: q.i }));
};
// verdict: {s:'ok'|'bad'|'maybe', why, at?, hints?:[termKey]}
export function decide(op, kinds, oblige, opt = {}) {
  const budget = { n: opt.budget || 260 };
  const maxDepth = opt.depth || 10;
  // a case the declared types already rule out as it is given stays a case: splitting it further must not lose it
  const outside = new Map();
  const typed = (x) => {
    const k = x && x.base && x.base.k;
    if (!k) return true;
    if (!outside.has(k)) outside.set(k, !!run(op, kinds, { ...opt.run, feasible: [x], only: true }).infeasible);
    return !outside.get(k);
  };
  let cut = null; // a case whose lists are built by recursion says nothing definite, however it is split
  const evalCase = (ks, feas0) => {
    COUNT.cases++;
    const feas = feas0.filter(typed);
    const o = run(op, ks, { ...opt.run, feasible: feas });
    if (vacuous(o)) return { v: { s: 'ok', vac: true }, o };
    if (o.budget) return { v: { s: 'maybe', why: 'analysis budget exhausted' }, o };
    const v = oblige(o, ks);
    // a way through that was not followed to its end condemns nothing
    if (o.I && o.I.cut) cut = 'a loop or recursion of unknown length';
    if (v.s === 'bad') { const u = cut || unfollowed(o); if (u) return { v: { s: 'maybe', why: `not followed: ${u}` }, o }; }
    return { v, o };
  };
  const splits = (o, ks, v, fine) => {
    const out = [];
    const seen = new Set();
    const add = (k, d) => {
      if (seen.has(k)) return;
      if (ks[k] && ks[k].length === 1) return;
      if (opt.noSplit && opt.noSplit(k)) return;
      let gs = groups(d.kinds);
      // an explicit undefined and a missing member differ only for `in`, spreads and the like
      if (fine) { if (gs.length === 1 && gs[0].length === 2) gs = gs[0].map((g) => [g]); else return; }
      if (gs.length < 2) return;
      seen.add(k);
      out.push({ k, x: d.x, gs });
    };
    for (const h of v.hints || []) {
      if (typeof h === 'string') { if (o.decisions.has(h)) add(h, o.decisions.get(h)); } else add(h.k, h);
    }
    for (const [k, d] of o.decisions) add(k, d);
    return out;
  };
  const rec = (ks, feas, cur, depth) => {
    const { v, o } = cur;
    if (v.s === 'ok') return { s: 'ok' };
    if (v.s === 'bad') return { s: 'bad', kinds: ks, why: v.why, at: v.at, o };
    if (opt.until && Date.now() > opt.until) budget.n = 0;
    if (depth >= maxDepth || budget.n <= 0) return { s: 'maybe', kinds: ks, why: v.why };
    let best = null;
    search: for (const fine of [false, true]) for (const sp of order(splits(o, ks, v, fine), v)) {
      if (budget.n <= 0 || (fine && best && best.score < 1)) break;
      const subs = [];
      let maybes = 0; let bad = null;
      for (const g of sp.gs) {
        budget.n--;
        const k2 = { ...ks, [sp.k]: g }; const f2 = feas.concat(sp.x);
        const c = evalCase(k2, f2);
        if (c.v.s === 'bad') { bad = { s: 'bad', kinds: k2, why: c.v.why, at: c.v.at, o: c.o }; break; }
        if (c.v.s === 'maybe') maybes++;
        subs.push({ k2, f2, c });
      }
      if (bad) return bad;
      if (!maybes) return { s: 'ok' };
      const score = maybes / sp.gs.length;
      // everything but one branch settled: go on there
      if (maybes === 1) { best = { score: 0, subs }; break search; }
      if (!best || score < best.score || (score === best.score && sp.i < best.i)) best = { score, subs, i: sp.i };
    }
    if (!best) return { s: 'maybe', kinds: ks, why: v.why };
    let und = null;
    for (const sub of best.subs) {
      if (sub.c.v.s !== 'maybe') continue;
      const r = rec(sub.k2, sub.f2, sub.c, depth + 1);
      if (r.s === 'bad') return r;
      if (r.s === 'maybe') und = und || r;
    }
    return und || { s: 'ok' };
  };
  const top = evalCase(kinds, []);
  if (top.v.vac) return { s: 'maybe', kinds, why: 'the case never arises (vacuous)', vac: true };
  return rec(kinds, [], top, 0);
}

// combine alternatives of one value/outcome: all ok, all bad, or unsettled
export function combine(list) {
  if (!list.length) return { s: 'ok' };
  const bad = list.filter((r) => r.s === 'bad');
  if (bad.length === list.length) return bad[0];
  const nok = list.filter((r) => r.s !== 'ok');
  if (!nok.length) return { s: 'ok' };
  return { s: 'maybe', why: nok[0].why, at: nok[0].at, hints: nok.flatMap((r) => r.hints || []) };
}
// conjunction: any bad is bad
export function all(list) {
  const bad = list.find((r) => r.s === 'bad');
  if (bad) return bad;
  const m = list.filter((r) => r.s === 'maybe');
  if (m.length) return { ...m[0], hints: m.flatMap((r) => r.hints || []) };
  return { s: 'ok' };
}
export const OK = { s: 'ok' };
export const bad = (why, at) => ({ s: 'bad', why, at });
export const maybe = (why, hints) => ({ s: 'maybe', why, hints });
