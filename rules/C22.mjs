// Option types admit exactly the documented combinations: compile / must-not-compile
// witnesses over the current sources, and the structural form of every parameter.
import fs from 'node:fs';
import { judge, diff } from '../lib/types.mjs';
import { publicOps } from './common.mjs';
import { apiTypes } from '../lib/apitypes.mjs';

const EM = "from: 'a@b.c', to: 'd@e.f', subject: 's'";
const w = (name, good, bad, head) => ({ name, good: [].concat(good), bad: [].concat(bad), head });
export const WITNESSES = [
  w('an email needs content', ["await c.emails.send({ FROM, html: 'x' });", "await c.emails.send({ FROM, text: 'x' });", "await c.emails.send({ FROM, react: null });", "await c.emails.send({ FROM, html: 'x', text: 'y' });", "await c.emails.create({ FROM, html: 'x' });"], ['await c.emails.send({ FROM });', 'await c.emails.create({ FROM });', "await c.emails.send({ FROM, attachments: [] });"]),
  w('an email needs sender, recipient and subject', ["await c.emails.send({ from: 'a', to: 'b', subject: 's', html: 'x' });", "await c.emails.send({ from: 'a', to: ['b'], subject: 's', html: 'x' });"], ["await c.emails.send({ to: 'b', subject: 's', html: 'x' });", "await c.emails.send({ from: 'a', subject: 's', html: 'x' });", "await c.emails.send({ from: 'a', to: 'b', html: 'x' });", "await c.emails.send({ from: 'a', to: 7, subject: 's', html: 'x' });"]),
  w('a template excludes html, text and react', ["await c.emails.send({ FROM, template: { id: 't' } });", "await c.emails.send({ to: 'x', template: { id: 't', variables: { a: 'b', n: 1 } } });"], ["await c.emails.send({ FROM, template: { id: 't' }, html: 'x' });", "await c.emails.send({ FROM, template: { id: 't' }, text: 'x' });", "await c.emails.send({ FROM, template: { id: 't' }, react: null });", "await c.emails.send({ template: { id: 't' } });", "await c.emails.send({ FROM, template: {} });", "await c.emails.send({ FROM, template: { id: 't', variables: { a: {} } } });", "await c.emails.create({ FROM, template: { id: 't' }, html: 'x' });"]),
  w('batch entries follow the email rules', ["await c.batch.send([{ FROM, html: 'x' }, { to: 'x', template: { id: 't' } }]);", "await c.batch.create([{ FROM, html: 'x' }], { batchValidation: 'permissive', idempotencyKey: 'k' });"], ["await c.batch.send([{ FROM }]);", "await c.batch.create([{ FROM }]);", "await c.batch.send([{ FROM, template: { id: 't' }, html: 'x' }]);", "await c.batch.send({ FROM, html: 'x' });"]),
  w('a batch takes no attachments', ["await c.batch.send([{ FROM, html: 'x' }]);"], ["await c.batch.send([{ FROM, html: 'x', attachments: [] }]);", "await c.batch.create([{ FROM, html: 'x', attachments: [{ path: 'p' }] }]);", "await c.batch.create([{ FROM, template: { id: 't' }, attachments: [] }]);"]),
  w('batch validation modes', ["await c.batch.send([{ FROM, html: 'x' }], { batchValidation: 'strict' });"], ["await c.batch.send([{ FROM, html: 'x' }], { batchValidation: 'lenient' });"]),
  ...['emails.list', 'segments.list', 'domains.list', 'broadcasts.list', 'webhooks.list', 'templates.list', 'apiKeys.list', 'automations.list', 'events.list', 'contactProperties.list', 'contacts.list', 'emails.receiving.list', 'contacts.imports.list', 'logs.list', 'suppressions.list', 'oauthGrants.list'].map((o) => w(`one cursor at a time: ${o}`, [`await c.${o}({ limit: 5, after: 'a' });`, `await c.${o}({ before: 'b' });`, `await c.${o}({});`, `await c.${o}();`], [`await c.${o}({ after: 'a', before: 'b' });`, `await c.${o}({ limit: 'many' });`])),
  w('one cursor at a time: automations.runs.list', ["await c.automations.runs.list({ automationId: 'x', after: 'a' });", "await c.automations.runs.list({ automationId: 'x', before: 'a' });"], ["await c.automations.runs.list({ automationId: 'x', after: 'a', before: 'b' });", "await c.automations.runs.list({ after: 'a' });"]),
  w('one cursor at a time: broadcasts', ["await c.broadcasts.recipients('b', { type: 'opened', after: 'a' });", "await c.broadcasts.clickedLinks('b', { before: 'a' });"], ["await c.broadcasts.recipients('b', { type: 'opened', after: 'a', before: 'b' });", "await c.broadcasts.clickedLinks('b', { after: 'a', before: 'a' });"]),
  w('one cursor at a time: attachments', ["await c.emails.attachments.list({ emailId: 'e', after: 'a' });", "await c.emails.receiving.attachments.list({ emailId: 'e', before: 'a' });"], ["await c.emails.attachments.list({ emailId: 'e', after: 'a', before: 'b' });", "await c.emails.receiving.attachments.list({ emailId: 'e', after: 'a', before: 'b' });", "await c.emails.attachments.list({ after: 'a' });"]),
  w('one cursor at a time: contact sub-resources', ["await c.contacts.topics.list({ id: 'e', after: 'a' });", "await c.contacts.segments.list({ email: 'e', before: 'a' });"], ["await c.contacts.topics.list({ id: 'e', after: 'a', before: 'b' });", "await c.contacts.segments.list({ email: 'e', after: 'a', before: 'b' });"]),
  w('a broadcast needs content', ["await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g', html: 'x' });", "await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g', text: 'x' });", "await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g', react: null });"], ["await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g' });"]),
  w('a broadcast needs an audience', ["await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g', html: 'x' });", "await c.broadcasts.create({ from: 'a', subject: 's', audienceId: 'g', html: 'x' });"], ["await c.broadcasts.create({ from: 'a', subject: 's', html: 'x' });", "await c.broadcasts.create({ subject: 's', segmentId: 'g', html: 'x' });", "await c.broadcasts.create({ from: 'a', segmentId: 'g', html: 'x' });"]),
  w('only a broadcast that is sent can be scheduled', ["await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g', html: 'x', send: true, scheduledAt: 't' });", "await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g', html: 'x', send: true });", "await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g', html: 'x', send: false });"], ["await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g', html: 'x', scheduledAt: 't' });", "await c.broadcasts.create({ from: 'a', subject: 's', segmentId: 'g', html: 'x', send: false, scheduledAt: 't' });"]),
  w('a template needs a name and html or react', ["await c.templates.create({ name: 'n', html: 'x' });", "await c.templates.create({ name: 'n', react: null });", "await c.templates.create({ name: 'n', html: 'x', variables: [{ key: 'K', type: 'string', fallbackValue: 'v' }, { key: 'N', type: 'number', fallbackValue: 3 }, { key: 'O', type: 'number' }] });"], ["await c.templates.create({ name: 'n' });", "await c.templates.create({ html: 'x' });", "await c.templates.create({ name: 'n', text: 'x' });"]),
  w('template variable fallbacks have the variable\'s type', ["await c.templates.create({ name: 'n', html: 'x', variables: [{ key: 'K', type: 'string', fallbackValue: 'v' }] });", "await c.templates.update('i', { variables: [{ key: 'K', type: 'number', fallbackValue: null }] });"], ["await c.templates.create({ name: 'n', html: 'x', variables: [{ key: 'K', type: 'string', fallbackValue: 3 }] });", "await c.templates.create({ name: 'n', html: 'x', variables: [{ key: 'K', type: 'number', fallbackValue: 'v' }] });", "await c.templates.create({ name: 'n', html: 'x', variables: [{ key: 'K', type: 'list' }] });", "await c.templates.update('i', { variables: [{ key: 'K', type: 'number', fallbackValue: 'v' }] });"]),
  w('contacts are identified by id or email, not both and not neither', ["await c.contacts.get('x');", "await c.contacts.get({ id: 'x' });", "await c.contacts.get({ email: 'x' });", "await c.contacts.get({ email: 'x', audienceId: 'a' });", "await c.contacts.remove('x');", "await c.contacts.remove({ id: 'x' });", "await c.contacts.update({ email: 'x', firstName: null });"], ["await c.contacts.get({});", "await c.contacts.get({ id: 'x', email: 'y' });", "await c.contacts.get({ audienceId: 'a' });", "await c.contacts.remove({});", "await c.contacts.remove({ id: 'x', email: 'y' });", "await c.contacts.update({ firstName: 'x' });", "await c.contacts.update({ id: 'x', email: 'y' });"]),
  w('contact segments are identified by contact id or email', ["await c.contacts.segments.add({ contactId: 'x', segmentId: 's' });", "await c.contacts.segments.add({ email: 'x', segmentId: 's' });", "await c.contacts.segments.remove({ email: 'x', segmentId: 's' });"], ["await c.contacts.segments.add({ segmentId: 's' });", "await c.contacts.segments.add({ contactId: 'x', email: 'y', segmentId: 's' });", "await c.contacts.segments.add({ contactId: 'x' });", "await c.contacts.segments.remove({ segmentId: 's' });"]),
  w('events go to a contact id or an email', ["await c.events.send({ event: 'e', contactId: 'c' });", "await c.events.send({ event: 'e', email: 'c', payload: { a: 1 } });"], ["await c.events.send({ event: 'e' });", "await c.events.send({ event: 'e', contactId: 'c', email: 'd' });", "await c.events.send({ contactId: 'c' });"]),
  w('forwarding rewrites need a body', ["await c.emails.receiving.forward({ emailId: 'e', to: 't', from: 'f' });", "await c.emails.receiving.forward({ emailId: 'e', to: 't', from: 'f', passthrough: true });", "await c.emails.receiving.forward({ emailId: 'e', to: 't', from: 'f', passthrough: false, text: 'x' });", "await c.emails.receiving.forward({ emailId: 'e', to: 't', from: 'f', passthrough: false, html: 'x' });"], ["await c.emails.receiving.forward({ emailId: 'e', to: 't', from: 'f', passthrough: false });", "await c.emails.receiving.forward({ to: 't', from: 'f' });", "await c.emails.receiving.forward({ emailId: 'e', to: 't', from: 'f', passthrough: true, text: 'x' });"]),
  w('recipient filters follow the event type', ["await c.broadcasts.recipients('b', { type: 'bounced', bounceType: 'permanent' });", "await c.broadcasts.recipients('b', { type: 'opened' });"], ["await c.broadcasts.recipients('b', { type: 'opened', bounceType: 'permanent' });", "await c.broadcasts.recipients('b', {});", "await c.broadcasts.recipients('b', { type: 'read' });", "await c.broadcasts.recipients('b', { type: 'bounced', bounceType: 'hard' });", "await c.broadcasts.recipients('b');"]),
  w('contact property fallbacks have the property\'s type', ["await c.contactProperties.create({ key: 'k', type: 'string', fallbackValue: 'x' });", "await c.contactProperties.create({ key: 'k', type: 'number', fallbackValue: 1 });", "await c.contactProperties.create({ key: 'k', type: 'number', fallbackValue: null });"], ["await c.contactProperties.create({ key: 'k', type: 'string', fallbackValue: 1 });", "await c.contactProperties.create({ key: 'k', type: 'number', fallbackValue: 'x' });", "await c.contactProperties.create({ key: 'k', type: 'date' });", "await c.contactProperties.create({ type: 'string' });"]),
  ...steps(),
  w('automation connections', ["await c.automations.create({ name: 'n', steps: [], connections: [{ from: 'a', to: 'b', type: 'condition_met' }, { from: 'b', to: 'c' }] });"], ["await c.automations.create({ name: 'n', steps: [], connections: [{ from: 'a', to: 'b', type: 'sometimes' }] });", "await c.automations.create({ name: 'n', steps: [], connections: [{ from: 'a' }] });", "await c.automations.create({ name: 'n', steps: [] });", "await c.automations.create({ name: 'n', connections: [] });", "await c.automations.create({ steps: [], connections: [] });", "await c.automations.create({ name: 'n', steps: [], connections: [], status: 'paused' });"]),
  w('legacy and current contact creation', ["await c.contacts.create({ email: 'e', segments: [{ id: 's' }], topics: [{ id: 't', subscription: 'opt_in' }] });", "await c.contacts.create({ audienceId: 'a', email: 'e' });"], ["await c.contacts.create({ audienceId: 'a', email: 'e', segments: [{ id: 's' }] });", "await c.contacts.create({});", "await c.contacts.create({ email: 'e', topics: [{ id: 't', subscription: 'maybe' }] });"]),
  w('webhooks', ["await c.webhooks.create({ endpoint: 'u', events: ['email.sent', 'contact.created'] });"], ["await c.webhooks.create({ endpoint: 'u', events: ['email.vanished'] });", "await c.webhooks.create({ endpoint: 'u' });", "await c.webhooks.create({ events: [] });"]),
  w('webhook verification needs everything signed', ["c.webhooks.verify({ payload: 'p', headers: { id: 'i', timestamp: 't', signature: 's' }, webhookSecret: 'w' });"], ["c.webhooks.verify({ payload: 'p', headers: { id: 'i', timestamp: 't' }, webhookSecret: 'w' });", "c.webhooks.verify({ payload: 'p', headers: { id: 'i', timestamp: 't', signature: 's' } });", "c.webhooks.verify({ headers: { id: 'i', timestamp: 't', signature: 's' }, webhookSecret: 'w' });"]),
  w('unknown options are refused', ["await c.emails.send({ FROM, html: 'x', replyTo: 'r', scheduledAt: 't', topicId: null });", "await c.emails.update({ id: 'i', scheduledAt: 't' });", "await c.domains.create({ name: 'n', region: 'eu-west-1', customReturnPath: 'x' });"], ["await c.emails.send({ FROM, html: 'x', reply_to: 'r' });", "await c.emails.send({ FROM, html: 'x', scheduled_at: 't' });", "await c.domains.create({ name: 'n', region: 'mars-1' });", "await c.domains.create({ name: 'n', custom_return_path: 'x' });", "await c.domains.create({});"]),
  w('identifiers are strings and required', ["await c.emails.get('x');", "await c.domains.verify('x');", "await c.broadcasts.send('x', { scheduledAt: 't' });", "await c.apiKeys.remove('x');"], ['await c.emails.get();', 'await c.emails.get(undefined);', 'await c.domains.verify();', 'await c.broadcasts.send();', 'await c.apiKeys.remove();', 'await c.segments.get(7);']),
  w('request options', ["await c.emails.send({ FROM, html: 'x' }, { idempotencyKey: 'k', headers: { a: 'b' } });", "await c.segments.create({ name: 'n' }, { headers: [['a', 'b']] });", "await c.post('/x', {}, { query: { a: 1 }, idempotencyKey: 'k' });"], ["await c.emails.send({ FROM, html: 'x' }, { idempotencyKey: 7 });", "await c.emails.send({ FROM, html: 'x' }, { idempotency_key: 'k' });"]),
  w('the client\'s settings cannot be reassigned', ['void c.key; void c.baseUrl; void c.userAgent;'], ["c.baseUrl = 'x';", "c.userAgent = 'x';", 'c.emails = c.emails;']),
];
function steps() {
  const C = {
    trigger: "{ eventName: 'e' }", delay: "{ duration: '1 hour' }", send_email: "{ template: { id: 't', variables: { a: { var: 'x' } } }, subject: 's', from: 'f', replyTo: 'r' }",
    wait_for_event: "{ eventName: 'e', timeout: 't', filterRule: { type: 'rule', field: 'f', operator: 'exists' } }", condition: "{ type: 'and', rules: [{ type: 'rule', field: 'f', operator: 'gt', value: 3 }] }",
    contact_update: "{ firstName: { var: 'x' }, lastName: null, unsubscribed: true, properties: { p: 1 } }", contact_delete: '{}', add_to_segment: "{ segmentId: 's' }",
  };
  const prog = (m, type, cfg, key = "key: 'k', ") => (m === 'create' ? `await c.automations.create({ name: 'n', connections: [], steps: [{ ${key}type: '${type}', config: ${cfg} }] });` : `await c.automations.update('i', { steps: [{ ${key}type: '${type}', config: ${cfg} }] });`);
  const out = [];
  for (const m of ['create', 'update']) {
    for (const t of Object.keys(C)) out.push(w(`automation step ${t} (${m})`, [prog(m, t, C[t])], Object.keys(C).filter((o) => o !== t).map((o) => prog(m, t, C[o])).filter((p, i, l) => l.indexOf(p) === i).filter((p) => !allowedAnyway(t, p)).concat([prog(m, t, C[t], ''), prog(m, t, "'x'")])));
    out.push(w(`unknown automation steps (${m})`, [prog(m, 'delay', C.delay)], [prog(m, 'sleep', C.delay), prog(m, 'webhook', '{}')]));
    out.push(w(`condition rules (${m})`, [prog(m, 'condition', "{ type: 'rule', field: 'f', operator: 'eq', value: null }"), prog(m, 'condition', "{ type: 'or', rules: [] }")], [prog(m, 'condition', "{ type: 'rule', field: 'f', operator: 'gt', value: 'x' }"), prog(m, 'condition', "{ type: 'rule', field: 'f', operator: 'contains', value: 3 }"), prog(m, 'condition', "{ type: 'rule', field: 'f', operator: 'eq' }"), prog(m, 'condition', "{ type: 'xor', rules: [] }"), prog(m, 'condition', "{ type: 'rule', operator: 'exists' }")]));
  }
  return out;
}
// a trigger's configuration is also a valid one for waiting, an empty one for updating
function allowedAnyway(t, p) {
  return (t === 'wait_for_event' && /config: \{ eventName: 'e' \} \}/.test(p)) || (t === 'contact_update' && /config: \{\} \}/.test(p));
}

export const PRELUDE = "import { Resend } from './index';\n";
export const fill = (code) => code.replace(/FROM/g, EM);

export async function run(ctx) {
  const list = WITNESSES.map((x) => ({ ...x, good: x.good.map(fill), bad: x.bad.map(fill) }));
  const r = judge(PRELUDE, list);
  for (const e of r.loose) ctx.fact('the package root exports Resend', { s: 'bad', why: e.text }, 'src/index.ts:1:1');
  let good = 0; let bad = 0;
  const opOf = (s) => { const m = /\bc\.([a-zA-Z.]+)\(/.exec(s.code); return (m && ctx.where(m[1])) || 'src/index.ts:1:1'; };
  for (const s of r.spans) {
    const code = s.code.replace(/^await /, '');
    if (s.kind === 'good') { good++; ctx.fact(`${s.w.name}: ${code} compiles`, s.errors.length ? { s: 'bad', why: `a documented program no longer compiles: ${s.errors[0].text.slice(0, 300)}` } : { s: 'ok' }, opOf(s)); } else {
      bad++;
      ctx.fact(`${s.w.name}: ${code} is refused`, s.errors.length ? { s: 'ok' } : { s: 'bad', why: `a forbidden program compiles: ${code}` }, opOf(s));
    }
  }
  // every parameter of every operation, structurally
  const base = JSON.parse(fs.readFileSync(new URL('../contracts/api.json', import.meta.url), 'utf8'));
  const cur = apiTypes(publicOps());
  let params = 0;
  for (const [op, sigs] of Object.entries(base.ops)) {
    const now = cur.ops[op];
    if (!now) { ctx.fact(`${op} exists`, { s: 'bad', why: `operation ${op} is gone` }, 'src/resend.ts:1:1'); continue; }
    for (let i = 0; i < sigs.length; i++) {
      const want = sigs[i]; const got = now[i];
      if (!got) { ctx.fact(`${op} overload ${i + 1}`, { s: 'bad', why: `${op}: an overload is gone` }, ctx.where(op)); continue; }
      want.params.forEach((p, j) => {
        params++;
        const q = got.params[j];
        const d = q ? diff(p.type, q.type, p.name) || (p.optional !== q.optional ? `${p.name}: ${p.optional ? 'is now required' : 'is now optional'}` : null) : `${p.name}: is gone`;
        ctx.fact(`${op}: argument ${j + 1} accepts what it accepted, and no more`, d ? { s: 'bad', why: `${op}: ${d}` } : { s: 'ok' }, ctx.where(op), `${op}:${i}:${j}`);
      });
      const more = got.params.slice(want.params.length).find((q) => !q.optional);
      if (more) ctx.fact(`${op}: no further required argument`, { s: 'bad', why: `${op}: requires a new argument ${more.name}` }, ctx.where(op));
    }
    const more = now.length > sigs.length ? { s: 'bad', why: `${op}: accepts further combinations through a new overload` } : { s: 'ok' };
    ctx.fact(`${op}: no further overload`, more, ctx.where(op));
  }
  const d = diff(base.ctor, cur.ctor, 'new Resend');
  ctx.fact('constructor parameters', d ? { s: 'bad', why: d } : { s: 'ok' }, ctx.clientAt());
  ctx.need(700, 'programs and parameters');
  return ctx.finish(`Type-checks ${good} documented and ${bad} forbidden client programs against the current sources (TypeScript's checker in strict mode, nothing executed): the documented ones must compile and each forbidden one, which differs from a documented twin in the one combination it tests, must be rejected. In addition the structural normal form of ${params} parameters of ${Object.keys(base.ops).length} operations is computed from the checked program and compared with the recorded contract (contracts/api.json), so any option added, dropped, widened, narrowed, or made optional or required is reported with its path.`, { good_programs: good, forbidden_programs: bad, parameters: params });
}
