// Forwarding a received email: what is sent, and when nothing is.
import { OK, bad, maybe, combine, all, show, DOWN, DL, FORWARD as OP, terminals, seqs, deepEff } from './common.mjs';
import { field, bareStr, splitUrl } from '../lib/wire.mjs';
import { carry, kindsAt } from '../lib/carry.mjs';
import { prop, elem, bare, root } from '../lib/terms.mjs';
import { vkey } from '../lib/domain.mjs';
import { termOf } from './C02.mjs';
import { SCEN } from './C06.mjs';
import { resolves, envelope, isNull, headersAre, noData } from '../lib/envelope.mjs';

const T = ['true']; const F = ['false'];
const none = (k) => k === 'absent' || k === 'undef' || k === 'null' || k === 'estr';
const isUndef = (a) => a.t === 'c' && a.v === undefined;
const blank = (a) => a.t === 'c' && (a.v === undefined || a.v === null || a.v === '');
const unq = (a) => bareStr(a);
const hintOf = (I, x) => ({ k: x.k, x: bare(x), kinds: kindsAt(I, bare(x)) });
const RAW = /^resp2\.bytes$/;

// the request that sends the message: the third exchange
const sendOf = (o, kinds, f) => {
  const rs = [];
  for (const t of terminals(o)) {
    const ss = seqs(t.st.eff, (e) => e.k === 'fetch');
    if (!ss) return maybe('too many sequences');
    for (const s of ss) {
      const flat = s.flatMap((e) => (e.k === 'loop' ? e.effs : [e]));
      const e = flat.find((q) => q.n >= 3) || flat[2];
      if (!e) { rs.push(t.kind === 'rej' ? null : bad('the message is not sent')); continue; }
      const I = o.I;
      const body = field(e.init, 'body', I);
      const v = combine(body.map((a) => (a.t === 'json' ? combine(a.tree.map((d) => (d.t === 'o' ? f(d, I, e) : d.t === 'top' ? maybe('body not resolved') : bad(`the message is ${show(d)}`, e.at)))) : a.t === 'top' ? maybe('body not resolved') : bad(`the body is ${show(a)}`, e.at))));
      rs.push(v.s === 'bad' ? { ...v, at: v.at || e.at } : v);
    }
  }
  const q = rs.filter(Boolean);
  if (q.length) return combine(q);
  return Object.entries(kinds).some(([k, v]) => /^ok:(new )?postal-mime/.test(k) && v.length === 1 && v[0] === 'false') ? OK : bad('the message is not sent');
};
// a text that goes along when there is one
const textual = (v, t, I) => {
  const ks = [...kindsAt(I, t)];
  if (ks.every(none)) return combine(v.map((a) => (blank(unq(a)) || (a.t === 'x' && [...kindsAt(I, a)].every(none)) ? OK : a.t === 'top' ? maybe(t.k) : { ...bad(`${show(a)} is sent although the message has no ${t.k.split('.').pop()}`), hints: a.t === 'x' ? [hintOf(I, a)] : [] })));
  if (ks.some(none)) return { s: 'maybe', why: `${t.k} may be empty`, hints: [hintOf(I, t)] };
  return carry(v, t, I);
};
const parsedFrom = (a) => { let x = a; while (x && x.base) x = x.base; return x && x.op === 'call' && /^ext postal-mime\b.*parse$/i.test(x.name || '') ? x : null; };
// the parsed message, from the effects
function parsed(o) {
  const es = [...new Map(terminals(o).flatMap((t) => [...deepEff(t.st.eff)]).filter((e) => e.k === 'ext' && /^postal-mime\b.*parse$/i.test(e.name)).map((e) => [e.args.map(vkey).join(), e])).values()];
  return es;
}
const b64 = (a, src) => {
  // Buffer.from(src).toString('base64')
  a = unq(a);
  if (a.t !== 'x' || a.op !== 'call') return null;
  const args = a.args || []; const flat = args.map((v) => (v.length === 1 ? v[0] : null));
  if (!/toString$/.test(a.name)) return null;
  if (!flat[1] || flat[1].t !== 'c' || flat[1].v !== 'base64') return null;
  let b = flat[0];
  if (b && b.t === 'x' && b.op === 'call' && /Buffer\.from$/.test(b.name)) { const z = b.args; b = z[0] && z[0].length === 1 ? z[0][0] : null; if (z[1] && z[1].some((q) => !isUndef(q))) return null; }
  while (b && b.t === 'x' && b.op === 'call' && /Uint8Array/.test(b.name || '')) b = b.args[0] && b.args[0][0];
  return b && b.t === 'x' && src(b) ? true : null;
};

const SUBJ = 'resp1.json.subject';
const starts = (k) => /^startsWith\(<resp1\.json\.subject>,string:Fwd: ?\)$/.test(k);
function subject(v, I, kinds, wrapped, o) {
  const t = termOfResp(); const ks = [...kindsAt(I, t)];
  const plain = (a) => a.t === 'x' && bare(a).k === SUBJ;
  const isText = (a, s) => a.t === 'c' && a.v === s;
  const pre = (a) => a.t === 's' && a.parts.length === 2 && a.parts[0] === 'Fwd: ' && typeof a.parts[1] !== 'string' && plain(a.parts[1]);
  if (ks.every(none)) return combine(v.map((a) => (isText(unq(a), wrapped ? 'Fwd: (no subject)' : '(no subject)') ? OK : a.t === 'top' ? maybe('subject') : bad(`an email without a subject is sent as ${show(a)}`))));
  if (ks.some(none)) return { s: 'maybe', why: 'subject may be empty', hints: [hintOf(I, t)] };
  if (!wrapped) return combine(v.map((a) => (plain(unq(a)) ? OK : a.t === 'top' ? maybe('subject') : bad(`the original subject is sent as ${show(a)}`))));
  const preds = [...o.decisions.keys()].concat(Object.keys(kinds)).filter(starts);
  return combine(v.map((a) => {
    const q = unq(a);
    if (q.t === 'top') return maybe('subject');
    if (!plain(q) && !pre(q)) return bad(`the forwarded subject is ${show(q)}`);
    const known = preds.find((p) => kinds[p] && kinds[p].length === 1);
    // what other prefixes say about this one: a longer one that is there, a shorter one that is not
    const asked = Object.keys(kinds).map((p) => { const m = /^startsWith\(<resp1\.json\.subject>,string:(.+)\)$/.exec(p); return m && kinds[p].length === 1 ? { p, text: m[1], yes: kinds[p][0] === 'true' } : null; }).filter(Boolean);
    if (asked.some((x) => x.yes && asked.some((y) => !y.yes && x.text.startsWith(y.text)))) return OK; // cannot be
    const said = known ? null : asked.find((x) => (x.yes ? x.text.startsWith('Fwd:') : 'Fwd:'.startsWith(x.text)));
    const other = said && said.p;
    if (known || other) { const yes = kinds[known || other][0] === 'true'; return (yes ? plain(q) : pre(q)) ? OK : bad(yes ? 'a subject that already starts with Fwd: gets another prefix' : 'a subject without the prefix is forwarded without it'); }
    const odd = [...o.decisions.keys()].concat(Object.keys(kinds)).filter((k) => k.includes('resp1.json.subject') && k !== SUBJ && !starts(k));
    if (!preds.length && odd.length) {
      // what an unfamiliar condition asks is only judged where its meaning is plain
      const wrong = odd.find((k) => /^(includes|endsWith)\(|toLowerCase|toUpperCase|\/[a-z]*i[a-z]*,/.test(k) || /^startsWith\(<resp1\.json\.subject>,string:/.test(k));
      if (!wrong) return maybe(`the prefix depends on ${odd[0]}`);
    }
    if (preds.length) return { s: 'maybe', why: 'depends on the prefix', hints: preds.filter((p) => o.decisions.has(p)) };
    return bad(plain(q) ? 'the subject is left without the prefix although it does not start with Fwd:' : 'the prefix is added even where it is already there');
  }));
}
const termOfResp = () => prop(prop(root('resp1'), 'json'), 'subject');

const ALLOWED = ['from', 'to', 'subject', 'text', 'html', 'attachments'];
const message = (name, d, I, o, kinds, wrapped) => {
  const f = (n) => field([d], n, I);
  switch (name) {
    case 'recipients': return carry(f('to'), termOf('$0.to'), I);
    case 'sender': return carry(f('from'), termOf('$0.from'), I);
    case 'subject': return subject(f('subject'), I, kinds, wrapped, o);
    case 'nothing else': {
      const ex = [...d.m].filter(([k, e]) => !ALLOWED.includes(k) && !e.v.every(isUndef)).map(([k]) => k);
      return ex.length ? bad(`the message also carries ${ex}`) : d.rest.length ? maybe('open-ended members') : OK;
    }
    case 'text': case 'html': {
      if (wrapped) return carry(f(name), termOf(`$0.${name}`), I);
      const ps = parsed(o);
      if (!ps.length) return bad(`the message's own ${name} is not extracted from its raw content`);
      return combine(ps.map((e) => textual(f(name), prop(callTerm(o, e), name), I)));
    }
    case 'attachments': return wrapped ? wrappedAttachment(f('attachments')) : ownAttachments(f('attachments'), o, I);
    default: return OK;
  }
};
// the term the parse call produced
const callTerm = (o, e) => e.res;
function parseArgs(o) {
  const ps = parsed(o);
  if (!ps.length) return bad('the raw message is never parsed');
  return all(ps.map((e) => combine((e.args[0] || []).map((a) => (a.t === 'x' && RAW.test(bare(a).k) ? OK : a.t === 'top' ? maybe('parsed content') : bad(`the message is read from ${show(a)}, not from the downloaded bytes`, e.at))))));
}
function wrappedAttachment(v) {
  return combine(v.map((a) => {
    if (a.t === 'top') return maybe('attachments not resolved');
    if (a.t !== 'a' || a.segs.length !== 1 || a.segs[0].k !== 'el' || a.segs[0].p !== true) return bad(`the attachments are ${show(a)}, not the one original message`);
    return combine(a.segs[0].v.map((x) => {
      if (x.t !== 'o') return x.t === 'top' ? maybe('attachment') : bad(`the attachment is ${show(x)}`);
      const g = (n) => field([x], n, null);
      return all([
        combine(g('content').map((c) => (b64(c, (b) => RAW.test(bare(b).k)) ? OK : c.t === 'top' || /btoa|toBase64/.test(show(c)) ? maybe('content') : bad(`the attachment contains ${show(c)}, not the base64 of the downloaded bytes`)))),
        combine(g('content_type').map((c) => (c.t === 'c' && c.v === 'message/rfc822' ? OK : c.t === 'top' ? maybe('type') : bad(`the attachment's type is ${show(c)}`)))),
        combine(g('filename').map((c) => (c.t === 'c' && typeof c.v === 'string' && c.v ? OK : blank(c) ? bad('the attachment has no filename') : OK))),
      ]);
    }));
  }));
}
function ownAttachments(v, o, I) {
  const ps = parsed(o);
  if (!ps.length) return bad('the raw message is never parsed, so its attachments are not forwarded');
  const P = callTerm(o, ps[0]); const at = prop(P, 'attachments'); const ks = [...kindsAt(I, at)];
  if (!ks.length) return maybe('attachments');
  const empty = (k) => none(k) || k === 'earr';
  if (ks.every(empty)) return combine(v.map((a) => (blank(a) || (a.t === 'a' && a.segs.every((s) => s.k === 'each')) ? OK : a.t === 'top' ? maybe('attachments') : bad(`${show(a)} is attached although the message has no attachments`))));
  if (ks.some(empty)) return { s: 'maybe', why: 'there may be no attachments', hints: [hintOf(I, at)] };
  const base64Opt = ps.every((e) => (e.args[1] || []).length === 1 && e.args[1][0].t === 'o' && e.args[1][0].m.has('attachmentEncoding') && e.args[1][0].m.get('attachmentEncoding').v.every((q) => q.t === 'c' && String(q.v).toLowerCase() === 'base64'));
  const E = elem(at);
  // without the option (or with another encoding) the parsed content is bytes or decoded text, never base64
  const plainOpt = ps.every((e) => { const a = e.args[1]; if (!a || a.every(blank)) return true; return a.length === 1 && a[0].t === 'o' && (!a[0].rest.length && !a[0].m.has('attachmentEncoding') || a[0].m.has('attachmentEncoding') && a[0].m.get('attachmentEncoding').v.every((q) => q.t === 'c' && String(q.v).toLowerCase() !== 'base64')); });
  const isOf = (n) => (a) => { const q = unq(a); return q.t === 'x' && bare(q).k === prop(E, n).k; };
  return combine(v.map((a) => {
    if (a.t === 'top') return maybe('attachments not resolved');
    if (a.t !== 'a') return bad(`the message's attachments become ${show(a)}`);
    const each = a.segs.filter((s) => s.k === 'each' && s.src === at.k);
    if (a.segs.some((s) => s.k === 'unk')) return maybe('attachments not resolved');
    if (each.length !== 1 || a.segs.length !== 1) return bad(`the message's attachments become ${show(a)}`);
    if (each[0].rev) return bad('the attachments are reversed');
    if (each[0].p !== true) return bad('attachments of the message may be left out');
    return combine(each[0].v.map((x) => {
      if (x.t !== 'o') return x.t === 'top' ? maybe('attachment') : bad(`an attachment is forwarded as ${show(x)}`);
      const g = (n) => field([x], n, I);
      return all([
        combine(g('content').map((c) => ((base64Opt && isOf('content')(c)) || b64(c, (b) => bare(b).k === prop(E, 'content').k) ? OK : plainOpt && rawText(c, prop(E, 'content').k) ? bad('attachment content is not base64: the message is parsed without asking for it', c.at) : c.t === 'top' ? maybe('content') : bad(`attachment content becomes ${show(c)}`)))),
        carryName(g('filename'), prop(E, 'filename'), I),
        combine(g('content_type').map((c) => (isOf('mimeType')(c) ? OK : c.t === 'top' ? maybe('type') : bad(`attachment type becomes ${show(c)}`)))),
        contentId(g('content_id'), prop(E, 'contentId'), I),
      ]);
    }));
  }));
}
// the content itself or its plain text, no encoding asked for on the way
function rawText(c, k) {
  const q = unq(c);
  if (q.t !== 'x') return false;
  if (bare(q).k === k) return true;
  return q.op === 'call' && /^(toString|String)$/.test(q.name) && (q.args || []).slice(1).every((v) => v.every(blank)) && (q.args[0] || []).some((x) => rawText(x, k));
}
function carryName(v, t, I) {
  const ks = [...kindsAt(I, t)];
  if (ks.every((k) => none(k))) return combine(v.map((a) => (a.t === 'top' ? maybe('filename') : OK)));
  return combine(v.map((a) => { const q = unq(a); return q.t === 'x' && bare(q).k === t.k ? OK : q.t === 'top' ? maybe('filename') : ks.some(none) ? { s: 'maybe', why: 'filename', hints: [hintOf(I, t)] } : bad(`attachment filename becomes ${show(q)}`); }));
}
// the content id, without its angle brackets
function contentId(v, t, I) {
  const ks = [...kindsAt(I, t)];
  if (ks.every(none)) return combine(v.map((a) => (blank(a) || (a.t === 'x' && bare(a).k === t.k) ? OK : a.t === 'top' ? maybe('content id') : bad(`an attachment without a content id gets ${show(a)}`))));
  if (ks.some(none)) return { s: 'maybe', why: 'content id may be missing', hints: [hintOf(I, t)] };
  const derived = (x) => { for (let y = x; y;) { if (y.t === 's') { y = y.parts.find((p) => typeof p !== 'string'); continue; } if (y.t !== 'x') return false; if (bare(y).k === t.k) return true; y = y.op === 'call' ? y.args.flat()[0] : y.base; } return false; };
  const hasRaw = (a) => a.t === 'x' && bare(a).k === t.k;
  if (v.every(blank) && !Object.entries(caseOf(I)).some(([k, ks]) => k.includes(t.k) && k !== t.k && ks.every((q) => q === 'estr'))) return bad('the content id of an inline attachment is dropped');
  const cut = [...I.decisions.values()].filter((d) => d.x && d.x.k !== t.k && derived(bare(d.x)) && [...kindsAt(I, d.x)].some((k) => k === 'str'));
  if (v.some(blank) && v.some((a) => !blank(a))) {
    const open = cut.filter((d) => kindsAt(I, d.x).size > 1);
    if (open.length) return { s: 'maybe', why: 'the stripped content id may be empty', hints: open.map((d) => hintOf(I, d.x)) };
    return { s: 'maybe', why: 'the content id may be left out' };
  }
  return combine(v.map((a) => { const q = unq(a); return hasRaw(q) ? { s: 'maybe', why: 'the content id is sent as it is' } : q.t === 'x' && derived(q) ? OK : q.t === 'top' ? maybe('content id') : blank(q) ? OK : bad(`content id becomes ${show(q)}`); }));
}

const caseOf = (I) => Object.fromEntries([...I.caseKinds].map(([k, v]) => [k, [...v]]));
// nothing is sent: no exchange other than reading the email and downloading its content
const readsOnly = (o) => {
  const rs = [];
  for (const t of terminals(o)) {
    const ss = seqs(t.st.eff, (e) => e.k === 'fetch');
    if (!ss) return maybe('too many sequences');
    for (const s of ss) {
      const flat = s.flatMap((e) => (e.k === 'loop' ? e.effs : [e]));
      const m = flat.find((e) => { const me = field(e.init, 'method', o.I); return me.some((q) => q.t === 'c' && q.v !== undefined && q.v !== 'GET') || e.n > 2; });
      rs.push(m ? bad('a message is sent although the original could not be fetched', m.at) : OK);
    }
  }
  return combine(rs);
};
// an error of any description
const someError = (v) => combine(v.map((a) => (a.t === 'top' ? maybe('error') : isNull(a) || isUndef(a) ? bad('resolves without an error although nothing was sent') : OK)));

export async function run(ctx) {
  const raw = { 'resp1.json.raw': ['obj'], 'resp1.json.raw.download_url': ['str'] };
  for (const p of ['absent', 'undef', 'true', 'false']) for (const ro of ['undef', 'obj']) {
    const wrapped = p === 'false';
    const base = { '$0.passthrough': [p], $1: [ro], ...DOWN(1) };
    const tag = `passthrough ${p}${ro === 'obj' ? ', with request options' : ''}`;
    const good = { ...base, ...raw, ...DL, ...DOWN(3) };
    for (const part of ['recipients', 'sender', 'subject', 'text', 'html', 'attachments', 'nothing else']) {
      ctx.ob(OP, `${part} (${tag})`, good, (o, kinds) => sendOf(o, kinds, (d, I) => message(part, d, I, o, kinds, wrapped)), { key: `${OP}:${part}` });
    }
    if (!wrapped) ctx.ob(OP, `the raw bytes are parsed (${tag})`, good, parseArgs, { key: `${OP}:parse` });
    ctx.ob(OP, `sent to the email endpoint (${tag})`, good, (o) => {
      const ss = terminals(o).flatMap((t) => (seqs(t.st.eff, (e) => e.k === 'fetch') || []).map((s) => [t, s]));
      return combine(ss.filter(([, s]) => s.length >= 3).map(([, s]) => {
        const [get, dl, send] = s;
        const urlIs = (e, f) => combine(e.url.map((u) => { const q = splitUrl(u); return q && f(q.path, q.query) ? OK : bad(`the exchange goes to ${show(u)}`, e.at); }));
        return all([
          urlIs(get, (b, q) => b.length === 2 && String(b[0]).endsWith('/emails/receiving/') && !q),
          combine(dl.url.map((u) => (u.t === 'x' && bare(u).k === 'resp1.json.raw.download_url' ? OK : u.t === 'top' ? maybe('url') : bad(`the raw content is downloaded from ${show(u)}`, dl.at)))),
          urlIs(send, (b, q) => b.length === 1 && String(b[0]).endsWith('/emails') && !q),
          combine(field(send.init, 'method', o.I).map((m) => (m.t === 'c' && m.v === 'POST' ? OK : bad(`the message is sent with ${show(m)}`, send.at)))),
        ]);
      }));
    }, { key: `${OP}:endpoint` });
    // every point at which it can fail
    const stop = (label, when, env, key) => {
      ctx.ob(OP, `${label}: nothing is sent (${tag})`, { ...base, ...raw, ...when }, readsOnly, { key: `${OP}:${key}:sent` });
      ctx.ob(OP, `${label}: resolves with an error (${tag})`, { ...base, ...raw, ...when }, (o) => resolves(o, envelope(env)), { key: `${OP}:${key}:error` });
    };
    for (const s of SCEN(1)) if (s.name !== 'a JSON success') stop(`reading the email, ${s.name}`, { ...Object.fromEntries(Object.keys(DOWN(1)).map((k) => [k, s.when[k] || DOWN(1)[k]])), ...s.when }, s.env, `read ${s.name}`);
    const nothing = { data: noData, error: someError };
    for (const [n, w] of [['null', { 'resp1.json.raw': ['null'] }], ['missing', { 'resp1.json.raw': ['absent', 'undef'] }], ['without a URL', { 'resp1.json.raw.download_url': ['estr'] }], ['whose URL is missing', { 'resp1.json.raw.download_url': ['absent', 'undef'] }], ['whose URL is null', { 'resp1.json.raw.download_url': ['null'] }]]) stop(`raw content ${n}`, w, nothing, 'raw');
    const no = { 'ok:resp2.text()': F, 'ok:resp2.arrayBuffer()': F, 'ok:resp2.blob()': F, 'ok:resp2.bytes()': F };
    stop('the download fails', { 'ok:fetch#2': F }, nothing, 'dl-net');
    stop('the download is refused', { 'ok:fetch#2': T, 'resp2.ok': F }, nothing, 'dl-http');
    stop('the download breaks off', { 'ok:fetch#2': T, 'resp2.ok': T, ...no }, nothing, 'dl-body');
  }
  ctx.need(150);
  void headersAre;
  ctx.assumptions.push('postal-mime returns the text, html and attachments of the bytes it is given (its MIME decoding is C93); if it rejects, forward rejects and nothing is sent', 'a 2xx JSON body is an object of the declared response type');
  return ctx.finish('Abstract interpretation of emails.receiving.forward in both modes, for every kind of every optional field and every failure point of its three exchanges: the message sent is compared member by member with the caller\'s options, the fetched email and the parsed or raw bytes; on every failing path the effects may contain no sending request and the result must carry an error.');
}
