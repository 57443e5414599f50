// Does a value the SDK builds carry an input faithfully?  `carry(v, term)` compares the
// analysed value with the caller's term, field by field, under the kinds of the case.
import { CUT } from './objects.mjs';
import { C, UNDEF, akey, vkey, union, constOfKind, NULLISH } from './domain.mjs';
import { prop, elem, bare, propKey } from './terms.mjs';
import { OK, bad, maybe, combine, all, groups } from './decide.mjs';
import { fieldOf, bareStr } from './wire.mjs';
import { snake } from './contract.mjs';
import { ts } from './program.mjs';

const ABS = (k) => k === 'absent' || k === 'undef';
export const kindsAt = (I, x) => {
  // a member of an absent object is absent
  if (x.base && (x.op === 'prop' || x.op === 'elem')) { const bk = [...kindsAt(I, x.base)]; if (bk.length && bk.every((k) => NULLISH.has(k))) return new Set(['absent']); }
  return I.kindsOf(x);
};
// object members that must be renamed on the wire somewhere inside this type
export function needsRename(I, types, seen = new Set()) {
  for (const t0 of types) for (const t of I.T.flatten(t0)) {
    if (seen.has(t)) continue; seen.add(t);
    if (I.T.isAny(t)) continue;
    if (I.checker.isArrayType(t)) { const e = t.getNumberIndexType(); if (e && needsRename(I, [e], seen)) return true; continue; }
    if (!(t.flags & (ts.TypeFlags.Object | ts.TypeFlags.Intersection))) continue;
    if (![...I.T.kindsOf(t)].includes('obj')) continue;
    const idx = t.getStringIndexType(); if (idx && needsRename(I, [idx], seen)) return true;
    for (const s of I.checker.getPropertiesOfType(t)) {
      if (/[A-Z]/.test(s.name)) return s.name;
      const r = needsRename(I, [I.checker.getTypeOfSymbol(s)], seen);
      if (r) return r;
    }
  }
  return false;
}
const hint = (I, x) => ({ k: x.k, x: bare(x), kinds: kindsAt(I, bare(x)) });

// names a declared member may take on the wire
export function wireNames(name, spec) {
  if (spec && spec.rename && spec.rename[name]) return [spec.rename[name]];
  return [snake(name)];
}

export function carry(v, term, I, spec = {}) {
  const K = kindsAt(I, term);
  if (!K.size) return OK;
  const gs = groups(K);
  // per alternative, per kind group
  const res = gs.map((g) => v.map((a) => one(a, term, new Set(g), I, spec)));
  const flat = res.flat();
  if (flat.every((r) => r.s === 'ok')) return OK;
  if (gs.length > 1) {
    const nb = flat.find((r) => r.s !== 'ok');
    // bad for every kind the input can have: no need to look closer
    if (flat.every((r) => r.s === 'bad')) return nb;
    return { s: 'maybe', why: nb.why, hints: [hint(I, term)].concat(flat.flatMap((r) => r.hints || [])) };
  }
  return combine(res[0]);
}
// a complaint that another split of the offending term might settle
const badx = (a, I, why) => (a.t === 'x' ? { s: 'bad', why, hints: [hint(I, a)] } : bad(why));
function one(a0, term, K, I, spec) {
  const a = bareStr(a0);
  const ks = [...K];
  const say = (w) => `${term.k} (${ks.join('/')}) becomes ${show(a0)}${w ? `: ${w}` : ''}`;
  if (a.t === 'top') return maybe(`${term.k}: not resolved`);
  // written as text: what a string is, and nothing else
  if (a !== a0 && a.t === 'x') {
    const text = (k) => k === 'str' || k === 'estr' || k.startsWith('lit:');
    if (a.rk && !ks.some((k) => a.rk.has(k) || (k.startsWith('lit:') && a.rk.has('str')))) return OK;
    if (!ks.every(text)) return ks.some(text) ? { s: 'maybe', why: say('it is turned into text'), hints: [hint(I, term)] } : badx(a, I, say('it is turned into text'));
  }
  // an alternative that only arises for other kinds says nothing about this one
  if (a.t === 'x' && a.k === term.k) {
    if (a.rk && !ks.some((k) => a.rk.has(k) || (k.startsWith('lit:') && a.rk.has('str')))) return OK;
    if (ks.every((k) => k === 'obj' || k === 'arr')) {
      const n = spec.raw ? false : needsRename(I, I.constituents({ ...term, rk: undefined }));
      if (n && !spec.rawOk) return bad(say(`member ${n} would go out under its SDK name`));
    }
    return OK;
  }
  if (ks.every(ABS)) {
    if (a.t === 'c' && a.v === undefined) return OK;
    if (a.t === 'x' && [...I.kindsOf(a)].every(ABS)) return OK;
    if (a.t === 'x' && [...I.kindsOf(a)].some(ABS)) return { s: 'maybe', why: say(), hints: [hint(I, a)] };
    // an object all of whose members are undefined still is an object
    return badx(a, I, say('nothing was supplied'));
  }
  if (ks.length === 1) {
    const c = constOfKind(ks[0]);
    if (c && a.t === 'c' && Object.is(a.v, c.v)) return OK;
    if (c && a.t === 'x') { const ak = [...I.kindsOf(a)]; if (ak.length === 1 && ak[0] === ks[0]) return OK; }
  }
  if (a.t === 'c' && typeof a.v === 'number' && ks.length === 1 && ks[0] === 'num') {
    const q = `eq(${term.k},${a.v})`; const c = I.caseKinds.get(q);
    if (c && c.size === 1 && c.has('true')) return OK;
  }
  const objish = ks.every((k) => k === 'obj'); const arrish = ks.every((k) => k === 'arr' || k === 'earr');
  if (a.t === 'o' && objish) {
    const r = object(a, term, I, spec, say);
    if (r.s === 'ok') return r;
    const d = discriminant(term, I);
    return d ? { s: 'maybe', why: r.why, hints: [d].concat(r.hints || []) } : r;
  }
  if (a.t === 'a' && arrish) {
    if (!a.segs.length) return ks.every((k) => k === 'earr') ? OK : bad(say());
    if (ks.every((k) => k === 'earr')) {
      // nothing to carry; each-segments over the input vanish
      if (a.segs.every((s) => s.k === 'each' && s.src === term.k)) return OK;
    }
    if (a.segs.length === 1 && a.segs[0].k === 'each' && a.segs[0].src === term.k) {
      const s = a.segs[0];
      if (s.flaw) return bad(say(s.flaw));
      if (s.p !== true) return maybe(say('elements may be left out'));
      if (s.rev) return bad(say('element order reversed'));
      return carry(s.v, elem(term), I, spec.each || {});
    }
    if (a.segs.some((s) => s.k === 'unk' || (a.segs.length > 1 && s.k === 'each' && s.src === term.k && s.flaw === CUT))) return maybe(say());
    return bad(say());
  }
  if (a.t === 'x' || a.t === 'o' || a.t === 'a' || a.t === 'c' || a.t === 's' || a.t === 'exto') {
    if (a.t === 'x' && a.op === 'call' && /replace|join|slice|copy|call/.test(a.name || '')) return bad(say());
    return badx(a, I, say());
  }
  return badx(a, I, say());
}
// the member telling the variants of a union apart, if the case has not fixed it yet
export function discriminant(term, I) {
  const cs = I.constituents({ ...term, rk: undefined });
  if (cs.length < 2) return null;
  for (const s of I.checker.getPropertiesOfType(cs[0])) {
    const t = prop(term, s.name);
    if (!cs.every((c) => { const p = I.T.propOf(c, s.name); return p && !p.optional && I.T.flatten(p.ty).every((u) => u.flags & (ts.TypeFlags.StringLiteral | ts.TypeFlags.BooleanLiteral)); })) continue;
    const ks = kindsAt(I, t);
    if (groups(ks).length > 1) return hint(I, t);
  }
  return null;
}
export const show = (a) => { const s = typeof a === 'string' ? a : Array.isArray(a) ? vkey(a) : akey(a); return s.length > 220 ? `${s.slice(0, 220)}…` : s; };

// a record's entries: all of them, except ones whose value is undefined
function records(a, term, I, say) {
  const val = { t: 'x', op: 'val', k: `${term.k}{*}`, base: term };
  const ks = I.typesOf(val).length || I.knownKinds(val) ? kindsAt(I, val) : null;
  const part = a.rest.find((r) => r.src === term.k && !r.dyn);
  if (!ks || !ks.size || a.m.size || a.rest.some((r) => r !== part)) return maybe(say('open-ended members are not copied'));
  if ([...ks].every(ABS)) return OK;
  if (part && part.flaw) return bad(say(`its entries: ${part.flaw}`));
  if ([...ks].some(ABS)) return { s: 'maybe', why: say('open-ended members are not copied'), hints: [hint(I, val)] };
  return part ? { s: 'maybe', why: say('some entries may be left out'), hints: [hint(I, val)] } : bad(say('its entries are not copied'));
}
// a record written again entry by entry: under the same names, with the same values
function rebuilt(a, term, I, say) {
  const val = { t: 'x', op: 'val', k: `${term.k}{*}`, base: term };
  const d = a.rest[0];
  if (a.m.size || a.rest.length !== 1 || !d.key || d.key.length !== 1 || !(I.typesOf(val).length || I.knownKinds(val))) return maybe(say('computed members'));
  const k = d.key[0];
  const isKey = (q) => q.t === 'x' && q.op === 'key' && q.base.k === term.k && !q.other;
  if (!isKey(k)) {
    const from = k.t === 's' ? k.parts.find((q) => typeof q !== 'string' && isKey(q)) : k.t === 'x' && k.op === 'call' && /^(to(Locale)?(Lower|Upper)Case|trim(Start|End)?|replace(All)?|slice|substring|normalize)$/.test(k.name) && k.args[0] && k.args[0].length === 1 && isKey(k.args[0][0]);
    return from ? bad(say(`its members are renamed to ${show(k)}`)) : maybe(say('computed members'));
  }
  const v = carry(d.val, val, I);
  if (v.s === 'bad') return bad(say(`its entries: ${v.why}`));
  if (v.s === 'maybe') return v;
  if (d.flaw) return bad(say(`its entries: ${d.flaw}`));
  return d.p === true ? OK : { s: 'maybe', why: say('some entries may be left out'), hints: [hint(I, val)] };
}
// members of a built object against the declared members of the caller's object
export function object(a, term, I, spec, say = (w) => `${term.k}: ${w}`) {
  const { names, open } = I.declaredProps(term);
  const omit = new Set(spec.omit || []);
  const expected = new Set(spec.extra || []);
  const out = [];
  const only = spec.only; // one member, or '+' for members nobody asked for
  if (a.rest.some((r) => r.dyn && !(r.key && r.key.length === 1 && r.key[0].t === 'c'))) {
    return names.length || only ? maybe(say('computed members')) : rebuilt(a, term, I, say);
  }
  for (const n of names) {
    if (n === 'react' && spec.react) continue;
    if (omit.has(n)) { continue; }
    if ((spec.allow || []).includes(n)) { expected.add(n); for (const w of wireNames(n, spec)) expected.add(w); continue; }
    const t = prop(term, n);
    const ws = wireNames(n, spec);
    for (const w of ws) expected.add(w);
    if (only && only !== n) continue;
    if (n === 'html' && spec.react) { out.push(html(a, term, I)); continue; }
    const f = fieldOf(a, ws[0], I);
    let v = f.v;
    if (f.mirror && f.mirror !== t.k) v = union(v, [UNDEF]);
    const sub = (spec.nested && spec.nested[n]) || {};
    const r = carry(v, t, I, sub);
    out.push(r.s === 'ok' ? r : { ...r, why: `body.${ws[0]}: ${r.why}` });
  }
  if (spec.react) { if (!names.includes('html') && (!only || only === 'html')) out.push(html(a, term, I)); expected.add('html'); }
  if (!only || only === '+') for (const [k, e] of a.m) {
    if (expected.has(k)) continue;
    if (e.v.every((q) => (q.t === 'c' && q.v === undefined) || (q.t === 'x' && [...kindsAt(I, q)].every(ABS)))) continue;
    // an open-ended input may carry it itself
    const why = say(`member ${k} is added (${show(e.v)})`);
    const soft = e.v.some((q) => (q.t === 'c' && q.v === undefined) || q.t === 'top' || (q.t === 'x' && [...kindsAt(I, q)].some(ABS)));
    if (soft) out.push({ s: 'maybe', why, hints: e.v.filter((q) => q.t === 'x').map((q) => hint(I, q)) });
    else if (e.p === false) out.push(maybe(why));
    else if (e.mt) { const mk = kindsAt(I, e.mt); out.push(mk.has('absent') ? { s: 'maybe', why, hints: [hint(I, e.mt)] } : bad(why)); }
    else out.push(bad(why));
  }
  if (open && (!only || only === '+') && !a.rest.some((r) => r.src === term.k && r.p === true)) out.push(names.length ? OK : records(a, term, I, say));
  return all(out);
}
export const isRender = (a, react) => a.t === 'x' && /^ext @react-email\/render\.\w+\(/.test(a.k) && a.args && a.args[0] && a.args[0].length === 1 && a.args[0][0].t === 'x' && a.args[0][0].k === react.k;
function html(a, term, I) {
  const react = prop(term, 'react'); const h = prop(term, 'html');
  const rk = kindsAt(I, react);
  const f = fieldOf(a, 'html', I);
  const some = (k) => k === 'obj' || k === 'arr' || k.startsWith('inst:');
  const none = (k) => ABS(k) || k === 'null';
  const ks = [...rk];
  if (ks.every(none)) { const r = carry(f.v, h, I); return r.s === 'ok' ? r : { ...r, why: `body.html: ${r.why}` }; }
  const sure = ks.every(some);
  const rs = f.v.map((q) => (isRender(q, react) ? OK : q.t === 'top' ? maybe('html not resolved') : sure ? bad(`body.html is ${show(q)} although a React element was supplied`) : { s: 'maybe', why: `body.html may be ${show(q)}`, hints: [hint(I, react)] }));
  if (!sure) {
    if (ks.every((k) => !some(k))) return OK; // strings, numbers, booleans: not elements
    return { s: 'maybe', why: 'depends on react', hints: [hint(I, react)] };
  }
  return combine(rs);
}
