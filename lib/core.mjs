// Abstract interpreter, part 1: state plumbing, scopes, functions, promises.
import { ts, loc, isRepoNode } from './program.mjs';
import { C, UNDEF, NULL, TOP, TRUE, FALSE, State, akey, join, union, vkey, NULLISH, FALSY } from './domain.mjs';
import { KindOps, Types, X, bare, call, elem, prop, root, bool, pred, mapVal, anyElem } from './terms.mjs';

const S = ts.SyntaxKind;
export const MAXSTEPS = 400000;
export class Budget extends Error {}

let nodeIds = new WeakMap(); let nodeCount = 0;
export function nid(node) {
  let i = nodeIds.get(node);
  if (i === undefined) { i = nodeCount++; nodeIds.set(node, i); }
  return i;
}

export class Interp {
  constructor(P, opt = {}) {
    this.P = P; this.checker = P.checker; this.T = P.T || (P.T = new Types(P));
    this.caseKinds = opt.caseKinds || new Map();
    this.n = 0;
    this.st = new State();
    this.handlers = [{ list: [] }];
    this.act = null; this.sent = []; this.cut = false; this.stack = [];
    this.decisions = new Map();
    this.tops = [];
    this.steps = 0;
    this.rootTypes = new Map(); this.assumed = new Map();
    this.globalEnv = { vars: new Map(), parent: null, id: 'g' };
    this.modInit = new Set();
    this.setupMark = -1;
    this.fnSeen = new Set(); this.callSites = 0;
    this.freeze = 0;
  }
  fresh() { return ++this.n; }
  unknown(why, node) {
    const m = `${why}${node ? ` at ${loc(node)}` : ''}`;
    if (this.tops.length < 50) this.tops.push(m);
    if (this.st) this.st.eff.push({ k: 'unknown', name: m });
    return [TOP(m)];
  }
  topv(why, node) { // unknown value, no unknown effect
    const m = `${why}${node ? ` at ${loc(node)}` : ''}`;
    if (this.tops.length < 50) this.tops.push(m);
    return [TOP(m)];
  }

  // ---- forks ------------------------------------------------------------
  forEachAlt(val, f) {
    if (!this.st) return [];
    if (val.length === 1) return f(val[0]);
    const base = this.st; const outs = []; let acc = null;
    for (const a of val) {
      this.st = base.clone();
      const v = f(a);
      if (this.st) { outs.push(v); acc = join(acc, this.st); }
    }
    this.st = acc;
    return outs.length ? union(...outs) : [];
  }
  // run several alternatives, each from a copy of the given start states
  merge(branches) { // [[state, fn]]
    const outs = []; let acc = null;
    for (const [s, f] of branches) {
      if (!s) continue;
      this.st = s;
      const v = f();
      if (this.st) { outs.push(v); acc = join(acc, this.st); }
    }
    this.st = acc;
    return outs.length ? union(...outs) : [];
  }
  // split current state by truthiness of a value -> [trueState, falseState]
  splitTruth(val) {
    const base = this.st;
    if (!base) return [null, null];
    let ts_ = null; let fs = null;
    for (const a of val) {
      const r = this.truth(a);
      if (r === true) { this.st = val.length > 1 ? base.clone() : base; ts_ = join(ts_, this.st); continue; }
      if (r === false) { this.st = val.length > 1 ? base.clone() : base; fs = join(fs, this.st); continue; }
      this.note(a);
      this.st = base.clone(); this.refineTruth(a, true); if (this.st) ts_ = join(ts_, this.st);
      this.st = base.clone(); this.refineTruth(a, false); if (this.st) fs = join(fs, this.st);
    }
    if (ts_ && ts_ === fs) fs = ts_.clone();
    this.st = null;
    return [ts_, fs];
  }
  // split a value by nullishness: returns [[atom,state,isNullish]]
  splitNullish(val) {
    const base = this.st; const out = [];
    for (const a of val) {
      if (a.t === 'c') out.push([a, base.clone(), a.v === undefined || a.v === null]);
      else if (a.t === 'x') {
        const ks = [...this.kindsOf(a)];
        const nl = ks.filter((k) => NULLISH.has(k)); const nn = ks.filter((k) => !NULLISH.has(k));
        if (nl.length && nn.length) this.note(a);
        if (nl.length) {
          this.st = base.clone(); this.refineNullish(a, true);
          if (this.st) out.push([nl.every((k) => k === 'null') ? NULL : nl.every((k) => k !== 'null') ? UNDEF : { ...a, rk: new Set(nl) }, this.st, true]);
        }
        if (nn.length) {
          this.st = base.clone(); this.refineNullish(a, false);
          if (this.st) out.push([nl.length ? { ...a, rk: new Set(nn) } : a, this.st, false]);
        }
      } else if (a.t === 'top') { out.push([a, base.clone(), true]); out.push([a, base.clone(), false]); }
      else out.push([a, base.clone(), false]);
    }
    this.st = null;
    return out;
  }
  refineNullish(a, want) {
    if (a.op === 'pred' || a.op === 'not') { if (want) this.st = null; return; }
    this.restrictKinds(a, (k) => NULLISH.has(k) === want);
  }

  // ---- throws -----------------------------------------------------------
  throwVal(v, idx = this.handlers.length - 1) {
    if (!this.st) return [];
    this.handlers[idx].list.push({ st: this.st, v });
    this.st = null;
    return [];
  }
  // throw on one side of an undecided may-fail term, continue on the other
  throwError(cls, msg, idx) { return this.throwVal(this.mkError(cls, msg), idx); }
  mkError(cls, msg) {
    return [this.alloc({ k: 'obj', cls, m: new Map([['message', { v: msg || [C(`<${cls}>`)], p: true, seq: 0 }], ['name', { v: [C(cls)], p: true, seq: 0 }]]), rest: [], seq: 1, err: true })];
  }

  // ---- heap -------------------------------------------------------------
  alloc(rec) { const a = this.fresh(); this.st.heap.set(a, rec); return { t: 'ref', a }; }
  rec(ref) { return this.st.heap.get(ref.a); }
  setRec(ref, rec, what) {
    if (ref.a <= this.setupMark) this.st.eff.push({ k: 'swrite', target: `#${ref.a}${what ? `.${what}` : ''}`, addr: ref.a });
    this.st.heap.set(ref.a, rec);
  }
  newObj(cls) { return this.alloc({ k: 'obj', cls, m: new Map(), rest: [], seq: 0 }); }
  newArr(segs) { return this.alloc({ k: 'array', segs }); }
  objOf(entries) {
    const r = this.newObj();
    const m = new Map(); let i = 0;
    for (const [k, v] of entries) m.set(k, { v, p: true, seq: i++ });
    this.st.heap.set(r.a, { k: 'obj', m, rest: [], seq: i });
    return r;
  }
  promise(ok, err = [], dec = null) { return this.alloc({ k: 'promise', ok, err, dec }); }

  // ---- environments -----------------------------------------------------
  newEnv(parent) { return { vars: new Map(), parent, id: this.fresh() }; }
  declare(env, decl, v) {
    const id = `${nid(decl)}@${env.id}`;
    env.vars.set(decl, id);
    if (this.st) this.st.cells.set(id, v);
    return id;
  }
  lookup(env, decl) {
    for (let e = env; e; e = e.parent) { const c = e.vars.get(decl); if (c !== undefined) return c; }
    return undefined;
  }
  setCell(id, v) {
    if (this.setupMark >= 0 && this.setupCells.has(id)) this.st.eff.push({ k: 'swrite', target: id, cell: id });
    this.st.cells.set(id, v);
  }

  // ---- functions --------------------------------------------------------
  closure(node, env, extra) {
    this.fnSeen.add(node);
    return { t: 'fn', id: `${nid(node)}@${env.id}`, node, env, ...extra };
  }
  callVal(f, thisV, args, node, mode) {
    return this.forEachAlt(f, (a) => this.callAtom(a, thisV, args, node, mode));
  }
  callAtom(a, thisV, args, node, mode) {
    if (++this.steps > MAXSTEPS) throw new Budget('too many steps');
    switch (a.t) {
      case 'fn': return this.callFn(a, a.node.kind === S.ArrowFunction ? a.thisV : a.boundThis || thisV, (a.boundArgs || []).concat(args), node, mode);
      case 'host': return a.f(args, mode);
      case 'bi': return this.callBuiltin(a.name, thisV, args, node, mode);
      case 'bm': return this.callMethod(a.recv, a.name, args, node, mode);
      case 'ext': return this.callExt(a, args, node, mode);
      case 'cls': return this.throwError('TypeError');
      case 'c': return this.throwError('TypeError');
      case 'ref': {
        return this.throwError('TypeError');
      }
      case 'x': {
        const ks = this.kindsOf(a);
        if (![...ks].some((k) => k === 'fn' || k === 'obj')) return this.throwError('TypeError');
        this.st.eff.push({ k: 'callback', name: a.k, args: args.map((v) => this.mat(v)), at: loc(node) });
        return [call('callback', [[bare(a)], ...args.map((v) => this.mat(v))])];
      }
      default: return this.unknown('call of unknown value', node);
    }
  }
  callFn(fn, thisV, args, node, mode) {
    const fnode = fn.node;
    if (!fnode.body) return this.unknown('function without body', fnode);
    let depth = 0;
    let first = -1;
    this.stack.forEach((s, i) => { if (s === fnode) { depth++; if (first < 0) first = i; } });
    if (depth >= 4 || this.stack.length > 60) {
      // what a function that makes no requests builds by calling itself is not known from its first few calls
      if (first >= 0 && this.sent[first] === this.st.nfetch) this.cut = true;
      return this.unknown('recursion too deep', fnode);
    }
    const isGen = !!fnode.asteriskToken;
    if (isGen && fnode.modifiers && fnode.modifiers.some((m) => m.kind === S.AsyncKeyword)) return this.unknown('async generator', fnode);
    this.callSites++;
    const isAsync = !!(fnode.modifiers && fnode.modifiers.some((m) => m.kind === S.AsyncKeyword));
    const saveAct = this.act; const saveH = this.handlers; const saveLoops = this.loops;
    const env = this.newEnv(fn.env);
    const H = { list: [] };
    this.handlers = saveH.concat([H]);
    const act = {
      fn, env, thisV: fnode.kind === S.ArrowFunction ? fn.thisV : thisV, returns: [], isAsync, home: fn.home,
      rejIdx: isAsync ? this.handlers.length - 1 : undefined, retMode: isAsync ? this.handlers.length - 1 : mode, args,
      newTarget: fn.newTarget,
    };
    if (fnode.kind === S.ArrowFunction && fn.actHome) act.home = fn.actHome;
    // what a generator yields, in order
    if (isGen) act.gen = this.newArr([]);
    this.act = act; this.loops = []; this.stack.push(fnode); this.sent[this.stack.length - 1] = this.st.nfetch;
    this.bindParams(fnode, args, env);
    if (this.st) {
      if (fnode.body.kind === S.Block) {
        this.execStmts(fnode.body.statements, env);
        if (this.st) act.returns.push({ st: this.st, v: [UNDEF] });
      } else {
        const v = this.ev(fnode.body, env, act.retMode);
        if (this.st) act.returns.push({ st: this.st, v });
      }
    }
    this.stack.pop(); this.act = saveAct; this.loops = saveLoops;
    if (isGen) for (const r of act.returns) r.v = [act.gen];
    // join returns
    const finish = () => { this.handlers = saveH; };
    if (!isAsync) {
      finish();
      for (const t of H.list) saveH[saveH.length - 1].list.push(t);
      return this.joinReturns(act.returns);
    }
    // async: flatten returned promises; rejections go to H
    const flat = [];
    for (const r of act.returns) {
      this.st = r.st;
      const v = this.awaitVal(r.v, this.handlers.length - 1);
      if (this.st) flat.push({ st: this.st, v });
    }
    finish();
    if (mode !== undefined) {
      for (const t of H.list) this.handlers[mode].list.push(t);
      return this.joinReturns(flat);
    }
    let acc = null;
    for (const r of flat) acc = join(acc, r.st);
    for (const t of H.list) acc = join(acc, t.st);
    this.st = acc;
    if (!acc) return [];
    const ok = flat.length ? union(...flat.map((r) => r.v)) : [];
    const err = H.list.length ? union(...H.list.map((t) => t.v)) : [];
    return [this.promise(ok, err)];
  }
  joinReturns(list) {
    let acc = null;
    for (const r of list) acc = join(acc, r.st);
    this.st = acc;
    return list.length ? union(...list.map((r) => r.v)) : [];
  }
  bindParams(fnode, args, env) {
    let i = 0;
    for (const p of fnode.parameters) {
      if (!this.st) return;
      if (p.name.kind === S.Identifier && p.name.text === 'this') continue;
      if (p.dotDotDotToken) {
        const r = this.newArr(args.slice(i).map((v) => ({ k: 'el', v, p: true })));
        this.bindPattern(p.name, [r], env, p);
        return;
      }
      let v = i < args.length ? args[i] : [UNDEF];
      i++;
      if (p.initializer) v = this.withDefault(v, p.initializer, env);
      if (!this.st) return;
      this.assume(v, p);
      this.bindPattern(p.name, v, env, p);
    }
  }
  withDefault(v, init, env) {
    const base = this.st; const parts = [];
    for (const a of v) {
      if (a.t === 'c') { parts.push([a, base.clone(), a.v === undefined]); continue; }
      if (a.t === 'x') {
        const ks = [...this.kindsOf(a)];
        const u = ks.filter((k) => k === 'undef' || k === 'absent'); const d = ks.filter((k) => k !== 'undef' && k !== 'absent');
        if (u.length && d.length) this.note(a);
        if (u.length) { this.st = base.clone(); if (this.restrictKinds(a, (k) => k === 'undef' || k === 'absent')) parts.push([a, this.st, true]); }
        if (d.length) { this.st = base.clone(); if (a.op === 'pred' || a.op === 'not' || this.restrictKinds(a, (k) => k !== 'undef' && k !== 'absent')) parts.push([u.length ? { ...a, rk: new Set(d) } : a, this.st, false]); }
        continue;
      }
      if (a.t === 'top') { parts.push([a, base.clone(), true], [a, base.clone(), false]); continue; }
      parts.push([a, base.clone(), false]);
    }
    return this.merge(parts.map(([a, s, isU]) => [s, () => (isU ? this.ev(init, env) : [a])]));
  }
  // untyped response data takes the declared type of the place it flows into
  assume(v, node) {
    for (const a of v) {
      if (a.t !== 'x' || (a.op !== 'prop' && a.op !== 'elem')) continue;
      const k = anyElem(a.k);
      if (this.typesOf(a).length || this.assumed.has(k)) continue;
      if (!this.isJson(a)) continue;
      const t = this.checker.getTypeAtLocation(node);
      if (t && !this.T.isAny(t)) this.assumed.set(k, [t]);
    }
  }
  bindPattern(name, v, env, decl) {
    if (!this.st) return;
    if (name.kind === S.Identifier) { this.declare(env, decl || name.parent, v); return; }
    this.destructure(name, v, env, (el, val) => {
      this.assume(val, el);
      this.bindPattern(el.name, val, env, el);
    });
  }
  destructure(pat, v, env, bind) {
    if (pat.kind === S.ObjectBindingPattern) {
      if (pat.elements.length === 0 || pat.elements.every((e) => e.dotDotDotToken)) v = this.nonNull(v);
      const taken = [];
      for (const el of pat.elements) {
        if (!this.st) return;
        if (el.dotDotDotToken) { bind(el, this.restObj(v, taken)); continue; }
        let key;
        if (el.propertyName) {
          if (el.propertyName.kind === S.ComputedPropertyName) {
            const kv = this.ev(el.propertyName.expression, env);
            key = kv.length === 1 && kv[0].t === 'c' ? String(kv[0].v) : null;
            if (key === null) { bind(el, this.topv('computed destructuring', el)); continue; }
          } else key = el.propertyName.text;
        } else key = el.name.text;
        taken.push(key);
        let pv = this.getProp(v, key, el);
        if (!this.st) return;
        if (el.initializer) pv = this.withDefault(pv, el.initializer, env);
        if (!this.st) return;
        bind(el, pv);
      }
    } else {
      let i = 0;
      for (const el of pat.elements) {
        if (!this.st) return;
        if (el.kind === S.OmittedExpression) { i++; continue; }
        if (el.dotDotDotToken) { bind(el, this.arrRest(v, i, el)); return; }
        let pv = this.indexOf(v, i, el);
        if (!this.st) return;
        if (el.initializer) pv = this.withDefault(pv, el.initializer, env);
        if (!this.st) return;
        bind(el, pv);
        i++;
      }
    }
  }
  nonNull(v) {
    const parts = this.splitNullish(v);
    return this.merge(parts.map(([a, s, isN]) => [s, () => (isN ? this.throwError('TypeError') : [a])]));
  }
  // ---- promises ---------------------------------------------------------
  awaitVal(v, idx) {
    return this.forEachAlt(v, (a) => {
      if (a.t !== 'ref') {
        if (a.t === 'x' && this.kindsOf(a).has('inst:Promise')) return [call('await', [[bare(a)]])];
        return [a];
      }
      const r = this.rec(a);
      if (!r) return [TOP('freed')];
      if (r.k === 'promise') return this.awaitRec(r, idx);
      if (r.k === 'obj') {
        const then = this.findThen(a);
        if (then) {
          const H = { list: [] };
          const oks = []; const base = this.st;
          const f = { t: 'host', id: `ok${this.fresh()}`, f: (args) => { oks.push(args[0] || [UNDEF]); return [UNDEF]; } };
          const rej = { t: 'host', id: `rej${this.fresh()}`, f: (args) => { H.list.push({ st: this.st.clone(), v: args[0] || [UNDEF] }); return [UNDEF]; } };
          this.handlers[idx === undefined ? this.handlers.length - 1 : idx].list; // handler exists
          this.callVal(then, [a], [[f], [rej]], null, undefined);
          if (!this.st) return [];
          for (const t of H.list) this.handlers[idx === undefined ? this.handlers.length - 1 : idx].list.push(t);
          if (!oks.length) { this.st = null; return []; }
          return union(...oks);
        }
      }
      return [a];
    });
  }
  findThen(ref) {
    const r = this.rec(ref);
    if (!r.cls || r.err) return null;
    const m = this.findMember(ref, 'then');
    return m || null;
  }
  awaitRec(r, idx) {
    const target = idx === undefined ? this.handlers.length - 1 : idx;
    if (this.onAwait) this.onAwait();
    if (this.unordered && r.dec) this.unordered.awaited = true;
    if (!r.err.length) return r.ok.length ? this.awaitVal(r.ok, idx) : (this.st = null, []);
    const base = this.st;
    let okS = base.clone(); let errS = base.clone();
    if (r.dec) {
      this.note(r.dec);
      this.st = okS; this.refineTruth(r.dec, true); okS = this.st;
      this.st = errS; this.refineTruth(r.dec, false); errS = this.st;
    }
    if (errS) { this.st = errS; this.throwVal(r.err, target); }
    this.st = r.ok.length ? okS : null;
    return this.st ? this.awaitVal(r.ok, idx) : [];
  }
  // a builtin operation that may fail, decided by an opaque term
  mayFail(name, ok, err, idx) {
    const d = bool(`ok:${name}`);
    const [t, f] = this.splitTruth([d]);
    if (f) { this.st = f; this.throwVal(err, idx); }
    this.st = t;
    return t ? ok : [];
  }
}
Object.assign(Interp.prototype, KindOps);
