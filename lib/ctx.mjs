// Bookkeeping of one check: obligations, verdicts, known findings, evidence.
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { decide, COUNT, caseText } from './decide.mjs';
import { program, opInfo, STATS, BASE_ENV } from './run.mjs';
import { loc, REPO } from './program.mjs';
import { otherCall, writers } from './prior.mjs';

const ROOT = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
export class Ctx {
  constructor(id) {
    this.id = id; this.tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
    this.seed = Number(process.env.VERIF_SEED || 1);
    this.t0 = Date.now();
    this.obligations = 0; this.discharged = 0;
    this.undecided = []; this.violations = []; this.samples = []; this.sites = new Set();
    this.assumptions = [
      'TypeScript means what its specification says: the interpreter\'s models of the language and of the standard library (lib/*.mjs) are trusted.',
      'Arguments have the declared types; caller objects have no getters or proxies, and nobody replaces built-in globals.',
      'Packages outside /repo/src (standardwebhooks, postal-mime, the renderer) behave as their declared types and documentation say.',
      'An obligation the analysis cannot decide is counted as undecided and raises no alarm.',
    ]; this.broken = [];
    this.extra = {};
    let kf = []; try { kf = JSON.parse(fs.readFileSync(path.join(ROOT, 'known-findings.json'), 'utf8')).findings; } catch { /* none */ }
    this.known = kf.filter((k) => k.property === id);
    this.seenKnown = new Set();
  }
  where(op) { try { const i = opInfo(op).impl; return i ? loc(i) : ''; } catch { return ''; } }
  clientAt() { return loc(program().client); }
  // one analysed obligation on an operation
  ob(op, label, kinds, oblige, opt = {}) {
    this.obligations++;
    let r;
    const spent = (Date.now() - this.t0) / 1000;
    // a violation is enough; and no check may run for ever
    const limit = this.tier === 'thorough' ? 2400 : 420;
    if ((this.violations.length && spent > 100) || spent > 1.7 * limit) { this.record({ s: 'maybe', why: this.violations.length ? 'not looked at: a violation was already found' : 'not looked at: out of time', kinds }, { op, label, key: opt.key || `${op}:${label}`, where: this.where(op) }); return { s: 'maybe' }; }
    opt = { ...opt, budget: spent > limit ? 12 : spent > limit / 2 ? 60 : opt.budget || (this.tier === 'thorough' ? 1500 : 260), depth: opt.depth || (this.tier === 'thorough' ? 16 : 10), until: this.t0 + 1000 * 1.8 * limit };
    try { r = decide(op, kinds, oblige, opt); } catch (e) {
      if (/anchor missing/.test(e.message)) { this.broken.push(e.message); return { s: 'maybe' }; }
      r = { s: 'maybe', why: `analyser: ${e.stack.split('\n').slice(0, 3).join(' ')}`, kinds, crash: true };
    }
    // the same obligation on top of what an earlier call on the client leaves behind
    if (r.s === 'ok' && !opt.noPrior && !(opt.run && opt.run.before)) {
      for (const w of writers()) {
        try {
          const q = decide(op, kinds, oblige, { ...opt, run: { ...opt.run, tag: `${(opt.run && opt.run.tag) || ''}after ${w.op} ${w.label}`, before: (I, client) => otherCall(I, w.op, w.kinds, client, () => {}) } });
          if (q.s === 'bad') { r = { ...q, why: `after a call of ${w.op} (which writes ${w.target} at ${w.at}): ${q.why}` }; break; }
        } catch { /* undecided: the plain verdict stands */ }
      }
    }
    this.record(r, { op, label, key: opt.key || `${op}:${label}`, where: this.where(op) });
    return r;
  }
  // a structural fact
  fact(label, r, where, key) {
    this.obligations++;
    this.record(r, { op: '', label, key: key || label, where: where || '' });
  }
  record(r, info) {
    if (info.where) this.sites.add(info.where);
    if (r.s === 'ok') { this.discharged++; if (this.samples.length < 6 && (this.obligations % 17 === 1)) this.samples.push({ obligation: info.label, operation: info.op, at: info.where, verdict: 'holds' }); return; }
    const c = r.kinds ? caseText(Object.fromEntries(Object.entries(r.kinds).filter(([k, v]) => !(BASE_ENV[k] && BASE_ENV[k].join() === [...v].join())))) : '';
    if (r.s === 'bad') {
      const v = { operation: info.op, obligation: info.label, key: info.key, at: r.at || info.where, declared: info.where, case: c, why: r.why };
      const k = this.known.find((q) => q.key === info.key);
      if (k) { this.seenKnown.add(k.key); this.discharged++; return; }
      this.violations.push(v);
    } else this.undecided.push({ operation: info.op, obligation: info.label, at: info.where, case: c, why: r.why });
  }
  need(n, what) { if (this.obligations < n) this.broken.push(`only ${this.obligations} ${what || 'obligations'} found, at least ${n} confirmed by hand`); }
  finish(explanation, more = {}) {
    const P = program();
    const dir = path.join(ROOT, 'evidence'); fs.mkdirSync(dir, { recursive: true });
    for (const k of this.known) if (this.seenKnown.has(k.key)) console.log(`KNOWN-FINDING: property=${this.id} ${k.key}: ${k.what}`);
    const ev = {
      property: this.id, tier: this.tier, seed: this.seed, level: 'other',
      coverage: {
        explanation,
        obligations: this.obligations, discharged: this.discharged, undecided: this.undecided.length,
        analysis_runs: COUNT.runs, cases: COUNT.cases, functions_analysed: STATS.fns.size, call_sites: STATS.calls,
        operations: STATS.ops.size, source_files: P.files.length, sites: this.sites.size,
        known_findings: [...this.seenKnown].sort(),
        undecided_list: this.undecided.slice(0, 40), samples: this.samples, ...this.extra, ...more,
      },
      assumptions: this.assumptions,
      wall_s: (Date.now() - this.t0) / 1000, violations: this.violations.length,
    };
    fs.writeFileSync(path.join(dir, `${this.id}.json`), `${JSON.stringify(ev, null, 1)}\n`);
    if (this.violations.length) {
      const rp = path.join(dir, `${this.id}.violation.json`);
      fs.writeFileSync(rp, `${JSON.stringify({ property: this.id, repo: REPO, violations: this.violations }, null, 1)}\n`);
      for (const v of this.violations.slice(0, 10)) {
        console.log(`${v.at}: ${v.operation} [${v.obligation}] ${v.why}${v.case ? ` | case: ${v.case}` : ''}`);
      }
      console.log(`VIOLATION property=${this.id} replay=${rp}`);
      return 1;
    }
    if (this.broken.length) { for (const b of this.broken) console.log(`CHECK-BROKEN ${b}`); return 2; }
    console.log(`OK ${this.id}: ${this.discharged}/${this.obligations} obligations hold, ${this.undecided.length} undecided, ${ev.wall_s.toFixed(1)} s`);
    if (process.env.VERIF_VERBOSE) for (const u of this.undecided) console.log(`  undecided ${u.operation} [${u.obligation}] ${u.why} | ${u.case}`);
    return 0;
  }
}
