// Contact imports: one complete multipart form.
import { OPS, OK, bad, maybe, combine, all, show, onRequest, req, anyFetch, envFailed, bareStr } from './common.mjs';
import { carry, kindsAt } from '../lib/carry.mjs';
import { run as run1 } from '../lib/decide.mjs';
import { prop } from '../lib/terms.mjs';
import { header } from './C04.mjs';
import { exactly } from './C10.mjs';
import { termOf } from './C02.mjs';

const OP = 'contacts.imports.create';
const P = termOf('$0');
// option, field, whether the value is structured
export const FIELDS = [['columnMap', 'column_map', true], ['onConflict', 'on_conflict', false], ['segments', 'segments', true], ['topics', 'topics', true]];
const CHOICES = { columnMap: ['absent', 'undef', 'obj'], onConflict: ['absent', 'undef', 'lit:upsert', 'lit:skip'], segments: ['absent', 'undef', 'arr', 'earr'], topics: ['absent', 'undef', 'arr', 'earr'] };
const COLUMNS = ['email', 'firstName', 'lastName', 'unsubscribed', 'properties'];
const unset = (k) => k === 'absent' || k === 'undef';

const named = (e) => (e.name && e.name.length === 1 && e.name[0].t === 'c' ? String(e.name[0].v) : null);
function forms(body) { return body.map((a) => (a.t === 'form' ? a.ops : a.t === 'top' || (a.t === 'x' && /FormData/.test(a.k)) ? undefined : null)); }
const onForm = (r, f) => combine(forms(r.body).map((ops) => (ops === undefined ? maybe('form not resolved') : ops === null ? bad(`the body is not a form: ${show(r.body)}`) : f(ops))));

// the entries of one field the form ends up with; undefined when that cannot be told
function entries(ops, name) {
  let out = [];
  for (const e of ops) {
    if (e.op === 'merge' || e.op === 'unk' || (e.op !== 'delete' && named(e) === null) || e.each) return undefined;
    if (named(e) !== name) continue;
    if (e.op === 'set' || e.op === 'delete') { if (e.p !== true) return undefined; out = []; }
    if (e.op !== 'delete') out.push(e);
  }
  return out;
}
function fieldVerdict(ops, name, term, structured, I) {
  const es = entries(ops, name);
  const ks = [...kindsAt(I, term)];
  if (!es) return maybe('fields under computed names');
  const hints = [{ k: term.k, x: term, kinds: new Set(ks) }];
  if (ks.every(unset)) return es.length ? combine(es.map((e) => (e.p === true ? bad(`field ${name} (${show(e.value)}) is sent although ${term.k} is not set`) : { s: 'maybe', why: `field ${name} may be sent although ${term.k} is not set`, hints }))) : OK;
  if (ks.some(unset)) return { s: 'maybe', why: name, hints };
  if (!es.length) return bad(`field ${name} is missing although ${term.k} is set (${ks.join('/')})`);
  if (es.length > 1) return es.every((e) => e.p === true) ? bad(`field ${name} is sent ${es.length} times`) : maybe(`field ${name} may be sent several times`, hints);
  const [e] = es;
  if (e.p !== true) return { s: 'maybe', why: `field ${name} may be missing`, hints };
  return combine(e.value.map((a) => {
    if (structured) return a.t === 'json' ? carry(a.tree, term, I) : a.t === 'top' ? maybe(name) : a.t === 'c' && typeof a.v === 'string' && ks.every((k) => k === 'earr') && a.v.replace(/\s/g, '') === '[]' ? OK : bad(`field ${name} is ${show(a)}, not the JSON of ${term.k}`);
    const b = bareStr(a);
    if (b.t === 'x' && b.k === term.k) return OK;
    if (b.t === 'c' && ks.length === 1 && ks[0] === `lit:${b.v}`) return OK;
    return b.t === 'top' ? maybe(name) : bad(`field ${name} is ${show(a)}, not ${term.k}`);
  }));
}
function fileVerdict(ops) {
  const es = entries(ops, 'file');
  if (!es) return maybe('fields under computed names');
  if (!es.length) return bad('the file is not sent');
  if (es.length > 1) return bad(`the file field is sent ${es.length} times`);
  const [e] = es;
  if (e.p !== true) return maybe('the file may be missing');
  return all([
    combine(e.value.map((a) => (a.t === 'x' && a.k === '$0.file' ? OK : a.t === 'top' ? maybe('file') : bad(`the file field is ${show(a)}, not the caller's file`)))),
    !e.filename || !e.filename.length ? OK : combine(e.filename.map((a) => ((a.t === 'c' && a.v === undefined) || (a.t === 'x' && a.k === '$0.file.name') ? OK : a.t === 'top' ? maybe('file name') : bad(`the file is given the name ${show(a)}`)))),
  ]);
}
function noOthers(ops) {
  const known = new Set(['file', ...FIELDS.map((f) => f[1])]);
  return all(ops.map((e) => {
    if (e.op === 'delete') return OK;
    const n = named(e);
    return n === null ? maybe('fields under computed names') : known.has(n) ? OK : e.p === true ? bad(`an undocumented field ${n} is sent`) : maybe(`an undocumented field ${n} may be sent`);
  }));
}
const cross = (l) => l.reduce((acc, n) => acc.flatMap((w) => CHOICES[n].map((k) => ({ ...w, [prop(P, n).k]: [k] }))), [{}]);
const textOf = (w) => Object.entries(w).map(([k, v]) => `${k.replace('$0.', '')} ${v[0]}`).join(', ');

export async function run(ctx) {
  const spec = OPS[OP];
  const ask = (label, when, f, key) => ctx.ob(OP, label, when, (o, ks) => {
    if (!anyFetch(o)) return envFailed(ks) ? OK : bad('no request is made');
    return onRequest(o, ks, (e) => { const v = f(req(e, o.I), o.I); return v.s === 'bad' ? { ...v, at: e.at } : v; });
  }, { key: `${OP}:${key}` });
  const quiet = { [spec.opts]: ['undef'] };
  for (const w of cross(FIELDS.map((f) => f[0]))) {
    ask(`the form for ${textOf(w)}`, { ...quiet, ...w }, (r, I) => onForm(r, (ops) => all([fileVerdict(ops), noOthers(ops), ...FIELDS.map(([n, wire, st]) => fieldVerdict(ops, wire, prop(P, n), st, I))])), 'form');
  }
  // column by column
  const cm = prop(P, 'columnMap');
  for (const n of COLUMNS) {
    const t = prop(cm, n);
    const kinds = new Set(['absent', 'undef', ...kindsAt(run1(OP, { [cm.k]: ['obj'] }).I, t)]);
    for (const k of kinds) for (const rest of [[], ['absent'], ['set']]) {
      const w = { [cm.k]: ['obj'], [t.k]: [k] };
      if (rest.length) for (const m of COLUMNS) if (m !== n) w[prop(cm, m).k] = rest[0] === 'absent' ? ['absent'] : m === 'properties' ? ['obj'] : ['str'];
      ask(`column ${n} ${k}${rest.length ? `, the others ${rest[0]}` : ''}`, { ...quiet, ...w }, (r, I) => onForm(r, (ops) => fieldVerdict(ops, 'column_map', cm, true, I)), `column.${n}`);
    }
  }
  // the declared options are the ones sent
  const I0 = run1(OP, { ...quiet }).I;
  const { names } = I0.declaredProps(P);
  const extra = names.filter((n) => n !== 'file' && !FIELDS.some((f) => f[0] === n)); const lost = ['file', ...FIELDS.map((f) => f[0])].filter((n) => !names.includes(n));
  ctx.fact('the declared options are the documented ones', lost.length ? { s: 'bad', why: `${lost.join(', ')} is no longer an import option` } : extra.length ? { s: 'maybe', why: `${extra.join(', ')} is not in the documented list` } : { s: 'ok' }, ctx.where(OP));
  // the content type is left to the runtime, whatever else the caller passes
  const H = `${spec.opts}.headers`;
  const noType = (r, I) => header(r, 'content-type', I, (a) => (a.t === 'c' && a.v === undefined ? OK : a.t === 'top' ? maybe('Content-Type') : bad(`the form is sent with Content-Type ${show(a)}`)));
  for (const [name, w] of [['no options', quiet], ['empty options', { [spec.opts]: ['obj'], [H]: ['absent', 'undef'] }], ...['obj', 'arr', 'inst:Headers'].map((h) => [`other headers (${h})`, { [spec.opts]: ['obj'], [H]: [h], [`hget(${H},content-type)`]: ['absent'] }])]) {
    ask(`the runtime supplies the content type (${name})`, w, noType, 'type');
    for (const k of ['absent', 'obj']) ask(`the form is what is sent (${name}; column map ${k})`, { ...w, [cm.k]: [k] }, (r) => onForm(r, (ops) => fileVerdict(ops)), 'file');
    ctx.ob(OP, `one request (${name})`, w, exactly(1), { key: `${OP}:once` });
  }
  // an earlier import leaves nothing behind
  for (const [name, w] of [['an import with every option', { [cm.k]: ['absent'], [prop(P, 'segments').k]: ['absent'], [prop(P, 'topics').k]: ['absent'], [prop(P, 'onConflict').k]: ['absent'] }]]) {
    const twice = (I, f, recv, args) => {
      const v0 = I.callVal(f, recv, args, null, 0); if (I.st) I.awaitVal(v0, 0);
      if (!I.st) return [];
      const v = I.callVal(f, recv, args, null, 0); return I.st ? I.awaitVal(v, 0) : [];
    };
    ctx.ob(OP, `repeating an import sends the same form again (${name})`, { ...quiet, ...w }, (o, ks) => {
      if (!anyFetch(o)) return envFailed(ks) ? OK : bad('no request is made');
      return onRequest(o, ks, (e) => onForm(req(e, o.I), (ops) => all([fileVerdict(ops), noOthers(ops)])));
    }, { key: `${OP}:twice`, run: { tag: 'twice', call: twice } });
  }
  ctx.need(240);
  return ctx.finish('For each of the 192 combinations of import options (left out, undefined, set; both conflict modes; empty and non-empty lists) and for each column of the column map under every kind it can have, the abstract interpreter computes the FormData operations performed before fetch. The rule replays them: exactly one file field holding the caller\'s own file under its own name, exactly one field per option set, holding the option\'s JSON under wire names (or the string itself), and no other field. The header list must not contain a Content-Type the SDK or client defaults put there.');
}
