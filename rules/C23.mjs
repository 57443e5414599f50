// Result types force a check before data is used and narrow to the documented fields:
// compile / must-not-compile witnesses, and the structural form of every result and export.
import fs from 'node:fs';
import { judge, diff } from '../lib/types.mjs';
import { publicOps } from './common.mjs';
import { apiTypes } from '../lib/apitypes.mjs';

const EMAIL = ['email.sent', 'email.scheduled', 'email.delivered', 'email.delivery_delayed', 'email.complained', 'email.bounced', 'email.opened', 'email.clicked', 'email.failed', 'email.suppressed'];
const OWN = { // event: [a field only its data has, the expression that uses it]
  'email.bounced': 'e.data.bounce.subType', 'email.clicked': 'e.data.click.link', 'email.failed': 'e.data.failed.reason', 'email.suppressed': 'e.data.suppressed.type',
  'email.received': 'e.data.received_for', 'email.sent': 'e.data.email_id',
  'contact.created': 'e.data.segment_ids', 'contact.updated': 'e.data.unsubscribed', 'contact.deleted': 'e.data.first_name',
  'domain.created': 'e.data.records', 'domain.updated': 'e.data.region', 'domain.deleted': 'e.data.name',
  'suppression.added': 'e.data.origin', 'suppression.removed': 'e.data.source_id',
};
const fields = [...new Set(Object.values(OWN))];
export const PRELUDE = "import type * as api from './index';\ntype Resend = api.Resend;\ntype IsAny<T> = 0 extends 1 & T ? true : false;\n";

export async function run(ctx) {
  const base = JSON.parse(fs.readFileSync(new URL('../contracts/api.json', import.meta.url), 'utf8'));
  const ops = publicOps();
  const cur = apiTypes(ops);
  const list = [];
  // every operation's result
  for (const op of Object.keys(base.ops)) {
    if (op === 'webhooks.verify') continue;
    const m = /^(get|post|put|patch|delete|fetchRequest)$/.test(op);
    const b = /^batch\./.test(op);
    const head = b ? `const r = await c.${op}([{ from: 'a', to: 'b', subject: 's', html: 'x' }]);` : m ? `const r = await c.${op}<{ a: string }>('/x'${/^(put|patch)$/.test(op) ? ', {}' : ''});` : `const call: typeof c.${op} = null!; const r = await (null! as ReturnType<typeof call>);`;
    list.push({ name: op, op, head, good: [
      'if (r.error) { const n: null = r.data; return n; } const d: NonNullable<typeof r.data> = r.data; return d;',
      'if (r.error === null) { const d: NonNullable<typeof r.data> = r.data; return d; } const e: string = r.error.message; return e;',
      'if (r.data !== null) { const n: null = r.error; return n; } const e: NonNullable<typeof r.error> = r.error; const s: number | null = e.statusCode; const k: api.ErrorResponse = e; return [s, k];',
      'const x: false = null! as IsAny<typeof r.data>; const y: false = null! as IsAny<typeof r.error>; return [x, y];',
    ], bad: [
      'const d: NonNullable<typeof r.data> = r.data; return d;',
      'const e: NonNullable<typeof r.error> = r.error; return e.message;',
      'return r.error.message;',
      'if (r.error) { const d: NonNullable<typeof r.data> = r.data; return d; }',
    ] });
  }
  // webhook events
  const ev = 'const e: api.WebhookEventPayload = c.webhooks.verify({ payload: \'p\', headers: { id: \'i\', timestamp: \'t\', signature: \'s\' }, webhookSecret: \'w\' });';
  for (const [t, own] of Object.entries(OWN)) {
    const others = fields.filter((f) => !base.exports.WebhookEventPayload.u.some((m) => m.o.type === JSON.stringify(t) && has(m, f)));
    list.push({ name: `webhook event ${t}`, op: 'webhooks.verify', head: ev, good: [`if (e.type === '${t}') return ${own};`, `switch (e.type) { case '${t}': { const s: string = e.created_at; return [s, ${own}]; } default: return e.type; }`], bad: others.map((f) => `if (e.type === '${t}') return ${f};`) });
  }
  list.push({ name: 'webhook event before narrowing', op: 'webhooks.verify', head: ev, good: ['const t: api.WebhookEvent = e.type; return t;'], bad: fields.filter((f) => !/created_at/.test(f)).map((f) => `return ${f};`).concat(["if (e.type === 'email.vanished') return e;"]) });
  list.push({ name: 'webhook events are all told apart', op: 'webhooks.verify', head: ev, good: [`switch (e.type) { ${EMAIL.concat(Object.keys(OWN)).filter((t, i, l) => l.indexOf(t) === i).map((t) => `case '${t}': return 1;`).join(' ')} } const n: never = e; return n;`], bad: [`switch (e.type) { ${EMAIL.map((t) => `case '${t}': return 1;`).join(' ')} } const n: never = e; return n;`] });
  // recipients and batches
  const rec = (t) => `const r = await c.broadcasts.recipients('b', { type: ${t} }); if (r.error) return; const x = r.data.data[0]!;`;
  const R = { count: ['opened', 'clicked'], clicked_links: ['clicked'], bounce_type: ['bounced'] };
  for (const t of ['sent', 'delivered', 'opened', 'clicked', 'bounced', 'complained', 'unsubscribed', 'suppressed']) {
    const g = ['const s: string = x.email; return [s, x.id, x.contact_id];']; const b = ['return x.colour;', 'const s: string = x.contact_id; return s;'];
    for (const [f, ts] of Object.entries(R)) (ts.includes(t) ? g : b).push(ts.includes(t) ? `const v: NonNullable<typeof x.${f}> = x.${f}; return v;` : `return x.${f};`);
    list.push({ name: `recipients that ${t}`, op: 'broadcasts.recipients', head: rec(`'${t}'`), good: g, bad: b });
  }
  list.push({ name: 'recipients of a type not known in advance', op: 'broadcasts.recipients', head: rec("null! as 'opened' | 'clicked'"), good: ['const n: number | undefined = x.count; return n;'], bad: ['const n: number = x.count; return n;'] });
  for (const m of ['send', 'create']) {
    const h = (o) => `const r = await c.batch.${m}([{ from: 'a', to: 'b', subject: 's', html: 'x' }]${o}); if (r.error) return;`;
    list.push({ name: `permissive batch (${m})`, op: `batch.${m}`, head: h(", { batchValidation: 'permissive' }"), good: ['const e: { index: number; message: string }[] = r.data.errors; return [e, r.data.data[0]!.id];'], bad: ['return r.data.warnings;'] });
    for (const o of ['', ", { batchValidation: 'strict' }"]) list.push({ name: `strict batch (${m}${o})`, op: `batch.${m}`, head: h(o), good: ['const s: string = r.data.data[0]!.id; return s;'], bad: ['return r.data.errors[0].message;'] });
  }
  // chained templates
  list.push({ name: 'chained template result', op: 'templates.create', head: "const p = c.templates.create({ name: 'n', html: 'x' });", good: ['const r = await p; if (r.error) return; const s: string = r.data.id; return s;', 'const r = await p.publish(); if (r.error) return; const s: string = r.data.id; return s;'], bad: ['const r = await p; return r.data.id;', 'const r = await p.publish(); return r.data.id;', 'return (await p).publish();'] });
  // names importable from the root
  const names = Object.keys(base.exports);
  list.push({ name: 'importable names', op: '', good: names.map((n) => `export_${n}`), bad: ['export_NoSuchType'] });

  // imports are statements at the top: judge them separately from the function bodies
  const imp = list.pop();
  const r = judge(PRELUDE, list);
  for (const e of r.loose) ctx.fact('the package root can be imported', { s: 'bad', why: e.text }, 'src/index.ts:1:1');
  const n = { good: 0, bad: 0 };
  for (const s of r.spans) {
    n[s.kind]++;
    const at = ctx.where(s.w.op) || 'src/index.ts:1:1';
    const ok = (s.kind === 'good') === !s.errors.length;
    ctx.fact(`${s.w.name}: ${s.code} ${s.kind === 'good' ? 'compiles' : 'is refused'}`, ok ? { s: 'ok' } : { s: 'bad', why: s.kind === 'good' ? `${s.w.name}: a program that checks first no longer compiles: ${s.code} (${s.errors[0].text.slice(0, 250)})` : `${s.w.name}: a program that must be refused compiles: ${s.w.head} ${s.code}` }, at);
  }
  for (const x of imp.good) {
    const name = x.slice(7);
    const now = name in cur.exports; const d = now ? diff(base.exports[name], cur.exports[name], name) : null;
    ctx.fact(`${name} is importable from the package root`, now ? (d ? { s: 'bad', why: `exported type changed: ${d}` } : { s: 'ok' }) : { s: 'bad', why: `${name} can no longer be imported from the package root` }, 'src/index.ts:1:1');
  }
  // what every operation returns
  for (const [op, sigs] of Object.entries(base.ops)) {
    const now = cur.ops[op];
    sigs.forEach((want, i) => {
      const got = now && now[i];
      const d = got ? diff(want.ret, got.ret, 'result') : 'result: operation or overload is gone';
      ctx.fact(`${op}: result type`, d ? { s: 'bad', why: `${op}: ${d}` } : { s: 'ok' }, ctx.where(op), `${op}:ret:${i}`);
    });
  }
  for (const [e, want] of Object.entries(base.calls)) {
    const d = diff(want, cur.calls[e] || 'nothing', 'result');
    ctx.fact(`${e}: result type`, d ? { s: 'bad', why: `${e}: ${d}` } : { s: 'ok' }, 'src/index.ts:1:1');
  }
  ctx.need(1700, 'programs, results and exports');
  return ctx.finish(`Type-checks client programs against the current sources (strict mode, nothing executed): for every operation, ${n.good} programs that check error or data first must compile and ${n.bad} programs that use data or error unchecked, or a field of another event, recipient type or batch mode, must be refused. The structural normal form of the result of ${Object.keys(base.ops).length} operations, of ${Object.keys(base.calls).length} calls whose result depends on an argument, and of ${names.length} exported types is compared with the recorded contract.`, { good_programs: n.good, forbidden_programs: n.bad, exports: names.length });
}
function has(m, expr) {
  let t = m; for (const k of expr.split('.').slice(1)) { if (!t || !t.o) return false; t = t.o[k] !== undefined ? t.o[k] : t.o[`${k}?`]; }
  return t !== undefined;
}
