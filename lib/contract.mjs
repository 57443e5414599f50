// The documented contract of every public operation, confirmed by hand against the
// API reference (README, doc links in the interfaces, the repository's tests).
//   cases   alternatives an operation documents: the kinds that select one, and its path
//   body    {from:<term>, omit, rename, nested}   query {from, omit, rename, list, fixed}
//   opts    argument carrying request options     idem  accepts an idempotency key
const ABS = ['absent', 'undef'];
const ABSN = ['absent', 'undef', 'null'];
const S = ['str'];
const one = (verb, path, more = {}) => ({ verb, cases: [{ when: {}, path }], ...more });
const list = (path, more = {}) => one('GET', path, { query: { from: '$0', optional: true }, ...more });
const get = (path, more) => one('GET', path, more);
const del = (path, more) => one('DELETE', path, more);
const post = (path, more) => one('POST', path, more);
const patch = (path, more) => one('PATCH', path, more);
const body = (from, more = {}) => ({ body: { from, ...more } });

const ATTACHMENT = { each: {} };
const TEMPLATE = { fields: {} };
const email = (from, each) => ({ from, react: true, nested: each ? { template: TEMPLATE } : { attachments: ATTACHMENT, template: TEMPLATE } });
const STEP = { rename: { event_name: 'event_name' } };
void STEP;

// contact selected by a string, by id or by email, optionally under a legacy audience
const selecting = (a, suffix, withStr) => [
  ...(withStr ? [{ when: { [a]: S }, path: `/contacts/{${a}}${suffix}` }] : []),
  { when: { [a]: ['obj'], [`${a}.id`]: S, [`${a}.email`]: ABSN, [`${a}.audienceId`]: ABS }, path: `/contacts/{${a}.id}${suffix}` },
  { when: { [a]: ['obj'], [`${a}.email`]: S, [`${a}.id`]: ABSN, [`${a}.audienceId`]: ABS }, path: `/contacts/{${a}.email}${suffix}` },
  { when: { [a]: ['obj'], [`${a}.id`]: S, [`${a}.email`]: ABSN, [`${a}.audienceId`]: S }, path: `/audiences/{${a}.audienceId}/contacts/{${a}.id}${suffix}` },
  { when: { [a]: ['obj'], [`${a}.email`]: S, [`${a}.id`]: ABSN, [`${a}.audienceId`]: S }, path: `/audiences/{${a}.audienceId}/contacts/{${a}.email}${suffix}` },
];
const either = (p, q, path) => [
  { when: { [p]: S, [q]: ABSN }, path: path(p) },
  { when: { [q]: S, [p]: ABSN }, path: path(q) },
];

export const OPS = {
  'segments.create': post('/segments', { ...body('$0'), opts: '$1' }),
  'segments.list': list('/segments'),
  'segments.get': get('/segments/{$0}'),
  'segments.remove': del('/segments/{$0}'),

  'apiKeys.create': post('/api-keys', { ...body('$0'), opts: '$1' }),
  'apiKeys.list': list('/api-keys'),
  'apiKeys.update': patch('/api-keys/{$0}', body('$1')),
  'apiKeys.remove': del('/api-keys/{$0}'),

  'automations.runs.get': get('/automations/{$0.automationId}/runs/{$0.runId}'),
  'automations.runs.list': one('GET', '/automations/{$0.automationId}/runs', { query: { from: '$0', omit: ['automationId'], list: ['status'] } }),
  'automations.create': post('/automations', body('$0', { nested: { steps: { each: {} }, connections: { each: {} } } })),
  'automations.list': list('/automations'),
  'automations.get': get('/automations/{$0}'),
  'automations.remove': del('/automations/{$0}'),
  'automations.update': patch('/automations/{$0}', body('$1', { nested: { steps: { each: {} }, connections: { each: {} } } })),
  'automations.duplicate': post('/automations/{$0}/duplicate'),
  'automations.stop': post('/automations/{$0}/stop'),

  'batch.send': post('/emails/batch', { body: { ...email('$0[*]', true), eachOf: '$0' }, opts: '$1', idem: true }),
  'batch.create': post('/emails/batch', { body: { ...email('$0[*]', true), eachOf: '$0' }, opts: '$1', idem: true }),

  'broadcasts.create': post('/broadcasts', { body: { from: '$0', react: true }, opts: '$1' }),
  'broadcasts.send': post('/broadcasts/{$0}/send', body('$1', { optional: true })),
  'broadcasts.list': list('/broadcasts'),
  'broadcasts.get': get('/broadcasts/{$0}'),
  'broadcasts.recipients': one('GET', '/broadcasts/{$0}/recipients', { query: { from: '$1' } }),
  'broadcasts.clickedLinks': one('GET', '/broadcasts/{$0}/clicked-links', { query: { from: '$1', optional: true } }),
  'broadcasts.remove': del('/broadcasts/{$0}'),
  'broadcasts.cancel': post('/broadcasts/{$0}/cancel'),
  'broadcasts.update': patch('/broadcasts/{$0}', { body: { from: '$1', react: true } }),

  'contactProperties.create': post('/contact-properties', body('$0')),
  'contactProperties.list': list('/contact-properties', { data: 'renamed-list' }),
  'contactProperties.get': { verb: 'GET', cases: [{ when: { $0: S }, path: '/contact-properties/{$0}' }], data: 'renamed', need: ['$0'] },
  'contactProperties.update': { verb: 'PATCH', cases: [{ when: { '$0.id': S }, path: '/contact-properties/{$0.id}' }], ...body('$0', { omit: ['id'] }), need: ['$0.id'] },
  'contactProperties.remove': { verb: 'DELETE', cases: [{ when: { $0: S }, path: '/contact-properties/{$0}' }], need: ['$0'] },

  'contacts.imports.create': post('/contacts/imports', { form: { from: '$0' }, opts: '$1' }),
  'contacts.imports.list': list('/contacts/imports'),
  'contacts.imports.get': get('/contacts/imports/{$0}'),
  'contacts.topics.update': { verb: 'PATCH', cases: either('$0.id', '$0.email', (p) => `/contacts/{${p}}/topics`), bodyTerm: '$0.topics', need: ['$0.id|$0.email'] },
  'contacts.topics.list': { verb: 'GET', cases: either('$0.id', '$0.email', (p) => `/contacts/{${p}}/topics`), query: { from: '$0', omit: ['id', 'email'] }, need: ['$0.id|$0.email'] },
  'contacts.segments.list': { verb: 'GET', cases: either('$0.contactId', '$0.email', (p) => `/contacts/{${p}}/segments`), query: { from: '$0', omit: ['contactId', 'email'] }, need: ['$0.contactId|$0.email'] },
  'contacts.segments.add': { verb: 'POST', cases: either('$0.contactId', '$0.email', (p) => `/contacts/{${p}}/segments/{$0.segmentId}`), need: ['$0.contactId|$0.email'] },
  'contacts.segments.remove': { verb: 'DELETE', cases: either('$0.contactId', '$0.email', (p) => `/contacts/{${p}}/segments/{$0.segmentId}`), need: ['$0.contactId|$0.email'] },
  'contacts.create': { verb: 'POST', cases: [
    { when: { '$0.audienceId': ['absent'] }, path: '/contacts' },
    { when: { '$0.audienceId': S, '$0.segments': ['absent'], '$0.topics': ['absent'] }, path: '/audiences/{$0.audienceId}/contacts' },
  ], ...body('$0', { omit: ['audienceId'] }), opts: '$1' },
  'contacts.list': { verb: 'GET', cases: [
    { when: { $0: ['undef'] }, path: '/contacts' },
    { when: { $0: ['obj'], '$0.segmentId': ABS, '$0.audienceId': ABS }, path: '/contacts' },
    { when: { $0: ['obj'], '$0.segmentId': S, '$0.audienceId': ABS }, path: '/segments/{$0.segmentId}/contacts' },
    { when: { $0: ['obj'], '$0.audienceId': S, '$0.segmentId': ABS }, path: '/segments/{$0.audienceId}/contacts' },
    { when: { $0: ['obj'], '$0.audienceId': S, '$0.segmentId': S }, path: '/segments/{$0.segmentId}/contacts' },
  ], query: { from: '$0', optional: true, omit: ['segmentId', 'audienceId'] } },
  'contacts.get': { verb: 'GET', cases: selecting('$0', '', true), need: ['$0', '$0.id|$0.email'] },
  'contacts.update': { verb: 'PATCH', cases: selecting('$0', '', false), ...body('$0', { omit: ['id', 'email', 'audienceId'] }), need: ['$0.id|$0.email'] },
  'contacts.remove': { verb: 'DELETE', cases: selecting('$0', '', true), need: ['$0', '$0.id|$0.email'] },

  'domains.claims.create': post('/domains/claim', { ...body('$0'), opts: '$1' }),
  'domains.claims.get': get('/domains/{$0}/claim'),
  'domains.claims.verify': post('/domains/{$0}/claim/verify'),
  'domains.create': post('/domains', { ...body('$0'), opts: '$1' }),
  'domains.list': list('/domains'),
  'domains.get': get('/domains/{$0}'),
  'domains.update': patch('/domains/{$0.id}', body('$0', { omit: ['id'] })),
  'domains.remove': del('/domains/{$0}'),
  'domains.verify': post('/domains/{$0}/verify'),

  'emails.attachments.get': get('/emails/{$0.emailId}/attachments/{$0.id}'),
  'emails.attachments.list': one('GET', '/emails/{$0.emailId}/attachments', { query: { from: '$0', omit: ['emailId'] } }),
  'emails.receiving.attachments.get': get('/emails/receiving/{$0.emailId}/attachments/{$0.id}'),
  'emails.receiving.attachments.list': one('GET', '/emails/receiving/{$0.emailId}/attachments', { query: { from: '$0', omit: ['emailId'] } }),
  'emails.receiving.get': one('GET', '/emails/receiving/{$0}', { query: { from: '$1', optional: true } }),
  'emails.receiving.list': list('/emails/receiving'),
  'emails.send': post('/emails', { body: email('$0'), opts: '$1', idem: true }),
  'emails.create': post('/emails', { body: email('$0'), opts: '$1', idem: true }),
  'emails.get': get('/emails/{$0}'),
  'emails.list': list('/emails'),
  'emails.update': patch('/emails/{$0.id}', body('$0', { omit: ['id'] })),
  'emails.cancel': post('/emails/{$0}/cancel'),
  'emails.share': post('/emails/{$0}/share', body('$1', { optional: true })),
  'emails.metrics': list('/emails/metrics', { query: { from: '$0', optional: true, list: ['metrics', 'dimensions', 'domainId', 'emailId', 'broadcastId'] } }),

  'events.send': post('/events/send', body('$0')),
  'events.create': post('/events', body('$0')),
  'events.get': get('/events/{$0}'),
  'events.list': list('/events'),
  'events.update': patch('/events/{$0}', body('$1')),
  'events.remove': del('/events/{$0}'),

  'logs.list': list('/logs'),
  'logs.get': get('/logs/{$0}'),
  'oauthGrants.list': list('/oauth/grants'),
  'oauthGrants.revoke': del('/oauth/grants/{$0}'),

  'suppressions.batch.add': post('/suppressions/batch/add', body('$0')),
  'suppressions.batch.remove': post('/suppressions/batch/remove', body('$0')),
  'suppressions.add': post('/suppressions', body('$0')),
  'suppressions.list': list('/suppressions'),
  'suppressions.get': { verb: 'GET', cases: [{ when: { $0: S }, path: '/suppressions/{$0}' }], need: ['$0'] },
  'suppressions.remove': { verb: 'DELETE', cases: [{ when: { $0: S }, path: '/suppressions/{$0}' }], need: ['$0'] },

  'templates.create': post('/templates', { body: { from: '$0', react: true, nested: { variables: { each: {} } } }, thenable: true }),
  'templates.remove': del('/templates/{$0}'),
  'templates.get': get('/templates/{$0}'),
  'templates.list': list('/templates'),
  'templates.duplicate': post('/templates/{$0}/duplicate', { thenable: true }),
  'templates.publish': post('/templates/{$0}/publish'),
  'templates.update': patch('/templates/{$0}', body('$1', { nested: { variables: { each: {} } } })),

  'topics.create': post('/topics', body('$0')),
  'topics.list': get('/topics'),
  'topics.get': { verb: 'GET', cases: [{ when: { $0: S }, path: '/topics/{$0}' }], need: ['$0'] },
  'topics.update': { verb: 'PATCH', cases: [{ when: { '$0.id': S }, path: '/topics/{$0.id}' }], ...body('$0', { allow: ['id'] }), need: ['$0.id'] },
  'topics.remove': { verb: 'DELETE', cases: [{ when: { $0: S }, path: '/topics/{$0}' }], need: ['$0'] },

  'webhooks.create': post('/webhooks', { ...body('$0'), opts: '$1' }),
  'webhooks.get': get('/webhooks/{$0}'),
  'webhooks.list': list('/webhooks'),
  'webhooks.update': patch('/webhooks/{$0}', body('$1')),
  'webhooks.remove': del('/webhooks/{$0}'),
};
// the legacy resource name answers for the same endpoints
for (const k of ['create', 'list', 'get', 'remove']) OPS[`audiences.${k}`] = OPS[`segments.${k}`];

// operations analysed by their own rules
export const SPECIAL = ['emails.receiving.forward', 'webhooks.verify'];
// the client's own request primitives
export const PRIMITIVES = ['post', 'get', 'put', 'patch', 'delete', 'fetchRequest'];

export const snake = (s) => s.replace(/[A-Z]/g, (c) => `_${c.toLowerCase()}`);
