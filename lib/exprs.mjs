// Abstract interpreter, part 2: expressions.
import { ts, loc, isRepoNode } from './program.mjs';
import { C, UNDEF, NULL, TOP, TRUE, FALSE, akey, join, union, vkey, NULLISH, FALSY } from './domain.mjs';
import { X, bare, call, elem, prop, root, bool, pred, not, anyElem } from './terms.mjs';
import { Interp, nid } from './core.mjs';

const S = ts.SyntaxKind;
const isConst = (v) => v.length === 1 && v[0].t === 'c';

const FLIP = { '<': '>', '>': '<', '<=': '>=', '>=': '<=' };
export const Exprs = {
  ev(node, env, mode) {
    if (!this.st) return [];
    if (++this.steps > 400000) return this.unknown('step budget', node);
    const v = this.ev0(node, env, mode);
    return this.st ? v : [];
  },
  ev0(node, env, mode) {
    switch (node.kind) {
      case S.ParenthesizedExpression: case S.AsExpression: case S.NonNullExpression: case S.SatisfiesExpression: case S.TypeAssertionExpression:
      case S.ExpressionWithTypeArguments:
        return this.ev(node.expression, env, mode);
      case S.NumericLiteral: return [C(Number(node.text))];
      case S.BigIntLiteral: return [C(node.text)];
      case S.StringLiteral: case S.NoSubstitutionTemplateLiteral: return [C(node.text)];
      case S.TrueKeyword: return [TRUE];
      case S.FalseKeyword: return [FALSE];
      case S.NullKeyword: return [NULL];
      case S.RegularExpressionLiteral: return [{ t: 're', src: node.text }];
      case S.TemplateExpression: {
        let acc = [C(node.head.text)];
        for (const sp of node.templateSpans) {
          const v = this.ev(sp.expression, env);
          if (!this.st) return [];
          acc = this.concat(acc, this.toStr(v), [C(sp.literal.text)]);
        }
        return acc;
      }
      case S.Identifier: return this.evIdent(node, env);
      case S.ThisKeyword: return this.act && this.act.thisV ? this.act.thisV : env.thisV || [UNDEF];
      case S.SuperKeyword: return this.act.thisV;
      case S.ArrayLiteralExpression: return this.evArray(node, env);
      case S.ObjectLiteralExpression: return this.evObject(node, env);
      case S.ArrowFunction: case S.FunctionExpression: {
        const f = this.closure(node, env, { thisV: this.act ? this.act.thisV : undefined, actHome: this.act && this.act.home });
        if (node.kind === S.FunctionExpression && node.name) {
          const e2 = this.newEnv(env); const g = { ...f, env: e2, id: `${nid(node)}@${e2.id}` };
          this.declare(e2, node, [g]); return [g];
        }
        return [f];
      }
      case S.ClassExpression: return [this.mkClass(node, env)];
      case S.PropertyAccessExpression: case S.ElementAccessExpression:
        return this.chainRoot(node, env, () => this.evAccess(node, env));
      case S.CallExpression:
        return this.chainRoot(node, env, () => this.evCall(node, env, mode));
      case S.NewExpression: {
        const c = this.ev(node.expression, env);
        if (!this.st) return [];
        const args = this.evArgs(node.arguments || [], env);
        if (!this.st) return [];
        return this.forEachAlt(c, (a) => this.construct(a, args, node));
      }
      case S.YieldExpression: {
        const v = node.expression ? this.ev(node.expression, env) : [UNDEF];
        if (!this.st) return [];
        const gen = this.act && this.act.gen;
        if (!gen) return this.unknown('yield', node);
        const r = this.rec(gen);
        const more = node.asteriskToken ? this.iterSegs(v, node) : [{ k: 'el', v, p: true }];
        if (this.st) this.st.heap.set(gen.a, { ...r, segs: r.segs.concat(more) });
        return this.st ? [UNDEF] : [];
      }
      case S.TaggedTemplateExpression: {
        const tpl = node.template;
        const raw = (n) => (n.rawText !== undefined ? n.rawText : n.text);
        const texts = tpl.kind === S.NoSubstitutionTemplateLiteral ? [tpl] : [tpl.head, ...tpl.templateSpans.map((s) => s.literal)];
        const spans = tpl.kind === S.NoSubstitutionTemplateLiteral ? [] : tpl.templateSpans.map((s) => s.expression);
        const tag = this.unparen(node.tag);
        if (tag.kind === S.PropertyAccessExpression && tag.name.text === 'raw' && tag.expression.kind === S.Identifier && tag.expression.text === 'String') {
          let acc = [C(raw(texts[0]))];
          for (let i = 0; i < spans.length; i++) {
            const v = this.ev(spans[i], env);
            if (!this.st) return [];
            acc = this.concat(acc, this.toStr(v), [C(raw(texts[i + 1]))]);
          }
          return acc;
        }
        let self = [UNDEF]; let f;
        if (tag.kind === S.PropertyAccessExpression) { self = this.ev(tag.expression, env); if (!this.st) return []; f = this.getProp(self, tag.name.text, tag, true); } else f = this.ev(tag, env);
        if (!this.st) return [];
        const strings = this.newArr(texts.map((t) => ({ k: 'el', v: [C(t.text)], p: true })));
        const args = [[strings]];
        for (const e of spans) { const v = this.ev(e, env); if (!this.st) return []; args.push(v); }
        return this.callVal(f, self, args, node, mode);
      }
      case S.AwaitExpression: {
        const idx = this.handlers.length - 1;
        const v = this.ev(node.expression, env, idx);
        return this.st ? this.awaitVal(v, idx) : [];
      }
      case S.ConditionalExpression: {
        const [t, f] = this.cond(node.condition, env);
        return this.merge([[t, () => this.restrictVal(this.ev(node.whenTrue, env, mode))], [f, () => this.restrictVal(this.ev(node.whenFalse, env, mode))]]);
      }
      case S.BinaryExpression: return this.evBinary(node, env, mode);
      case S.PrefixUnaryExpression: case S.PostfixUnaryExpression: return this.evUnary(node, env);
      case S.TypeOfExpression: {
        if (node.expression.kind === S.Identifier && this.isGlobal(node.expression, env)) {
          return this.typeofVal(this.globalVal(node.expression.text, node.expression, true));
        }
        return this.typeofVal(this.ev(node.expression, env));
      }
      case S.VoidExpression: this.ev(node.expression, env); return [UNDEF];
      case S.DeleteExpression: {
        const e = this.unparen(node.expression);
        if (e.kind !== S.PropertyAccessExpression && e.kind !== S.ElementAccessExpression) return [TRUE];
        const o = this.ev(e.expression, env);
        const k = this.keyOf(e, env);
        if (!this.st) return [];
        this.forEachAlt(o, (a) => { this.delProp(a, k, node); return []; });
        return [TRUE];
      }
      case S.CommaListExpression: { let v = [UNDEF]; for (const e of node.elements) v = this.ev(e, env); return v; }
      case S.MetaProperty: return this.topv('meta property', node);
      default: return this.unknown(`unsupported expression ${S[node.kind]}`, node);
    }
  },
  unparen(n) {
    while (n.kind === S.ParenthesizedExpression || n.kind === S.AsExpression || n.kind === S.NonNullExpression || n.kind === S.SatisfiesExpression || n.kind === S.TypeAssertionExpression) n = n.expression;
    return n;
  },
  // attach to a value what the branch just taken says about it
  restrictVal(v) {
    if (!this.st) return v;
    let ch = false;
    const out = v.map((a) => {
      if (a.t !== 'x' || !this.st.kinds.has(a.k) || a.op === 'pred' || a.op === 'not') return a;
      ch = true;
      return { ...a, rk: new Set(this.kindsOf(a)) };
    });
    return ch ? out : v;
  },

  // ---- identifiers ------------------------------------------------------
  symbolOf(node) {
    let s;
    if (node.parent && ts.isShorthandPropertyAssignment(node.parent) && node.parent.name === node) s = this.checker.getShorthandAssignmentValueSymbol(node.parent);
    else s = this.checker.getSymbolAtLocation(node);
    return s;
  },
  isGlobal(node) {
    const s = this.symbolOf(node);
    if (!s) return true;
    const d = s.valueDeclaration || (s.declarations && s.declarations[0]);
    if (!d) return true;
    if (s.flags & ts.SymbolFlags.Alias) return false;
    return !isRepoNode(d) && !d.getSourceFile().fileName.endsWith('package.json');
  },
  evIdent(node, env) {
    const name = node.text;
    if (name === 'undefined') return [UNDEF];
    if (name === 'arguments' && this.act) { return [this.newArr((this.act.args || []).map((v) => ({ k: 'el', v, p: true })))]; }
    const sym = this.symbolOf(node);
    if (!sym) return this.globalVal(name, node);
    if (sym.flags & ts.SymbolFlags.Alias) return this.evAlias(sym, node);
    const d = sym.valueDeclaration || (sym.declarations && sym.declarations[0]);
    if (!d) return this.globalVal(name, node);
    if (!isRepoNode(d)) return this.globalVal(name, node);
    return this.readDecl(d, env, node);
  },
  readDecl(d, env, node) {
    for (const decl of this.declAliases(d)) {
      const cell = this.lookup(env, decl);
      if (cell !== undefined && this.st.cells.has(cell)) return this.st.cells.get(cell);
    }
    // module-level, possibly not initialised yet
    const sf = d.getSourceFile();
    if (this.initModule(sf) !== false) {
      for (const decl of this.declAliases(d)) {
        const cell = this.lookup(this.globalEnv, decl);
        if (cell !== undefined && this.st && this.st.cells.has(cell)) return this.st.cells.get(cell);
      }
    }
    if (d.kind === S.FunctionDeclaration) {
      const impl = this.implOf(d);
      return [this.closure(impl, this.envFor(impl, env))];
    }
    if (d.kind === S.ClassDeclaration) return [this.mkClass(d, this.globalEnv)];
    if (d.kind === S.EnumDeclaration) return this.enumObj(d);
    return this.topv(`unbound ${node.text || '?'}`, node);
  },
  declAliases(d) { return [d]; },
  implOf(d) {
    if (d.body) return d;
    const s = this.checker.getSymbolAtLocation(d.name);
    const i = s && s.declarations.find((x) => x.body);
    return i || d;
  },
  envFor(d, env) { return env && this.lookup(env, d) !== undefined ? env : this.globalEnv; },
  enumObj(d) {
    const entries = [];
    let next = 0;
    for (const m of d.members) {
      const c = this.checker.getConstantValue(m);
      entries.push([m.name.text, [C(c === undefined ? next : c)]]);
      next = typeof c === 'number' ? c + 1 : next + 1;
    }
    return [this.objOf(entries)];
  },
  evAlias(sym, node) {
    const decl = sym.declarations && sym.declarations[0];
    let imp = decl;
    while (imp && imp.kind !== S.ImportDeclaration && imp.kind !== S.ExportDeclaration && imp.kind !== S.ImportEqualsDeclaration) imp = imp.parent;
    const spec = imp && imp.moduleSpecifier && imp.moduleSpecifier.text;
    if (spec && spec.endsWith('package.json')) {
      const nm = decl.kind === S.ImportSpecifier ? (decl.propertyName || decl.name).text : null;
      if (nm) return [X('root', `pkg.${nm}`, { kinds: new Set(['str']) })];
      return [X('root', 'pkg', { kinds: new Set(['obj']) })];
    }
    if (spec && !spec.startsWith('.')) {
      let nm = 'default';
      if (decl.kind === S.ImportSpecifier) nm = (decl.propertyName || decl.name).text;
      if (decl.kind === S.NamespaceImport) nm = '*';
      return [{ t: 'ext', name: nm === '*' ? spec : `${spec}.${nm}`, mod: spec, member: nm }];
    }
    const target = this.checker.getAliasedSymbol(sym);
    const d = target && (target.valueDeclaration || (target.declarations && target.declarations[0]));
    if (!d) return this.topv('unresolved import', node);
    if (d.kind === S.SourceFile) return this.nsObj(target, node);
    if (!isRepoNode(d)) return this.globalVal(node.text, node);
    return this.readDecl(d, this.globalEnv, node);
  },
  nsObj(target, node) {
    const entries = [];
    for (const s of this.checker.getExportsOfModule(target)) {
      const t = s.flags & ts.SymbolFlags.Alias ? this.checker.getAliasedSymbol(s) : s;
      const d = t.valueDeclaration;
      if (d && isRepoNode(d)) entries.push([s.name, this.readDecl(d, this.globalEnv, node)]);
    }
    return [this.objOf(entries)];
  },
  initModule(sf) {
    if (this.modInit.has(sf)) return false;
    this.modInit.add(sf);
    const sAct = this.act; const sLoops = this.loops;
    this.act = null; this.loops = [];
    this.hoist(sf.statements, this.globalEnv);
    for (const st of sf.statements) {
      if (!this.st) break;
      this.exec(st, this.globalEnv);
    }
    this.act = sAct; this.loops = sLoops;
    return true;
  },

  // ---- literals ---------------------------------------------------------
  evArray(node, env) {
    const segs = [];
    for (const e of node.elements) {
      if (!this.st) return [];
      if (e.kind === S.OmittedExpression) { segs.push({ k: 'el', v: [UNDEF], p: true }); continue; }
      if (e.kind === S.SpreadElement) {
        const v = this.ev(e.expression, env);
        if (!this.st) return [];
        const more = this.iterSegs(v, e).map((s) => (s.pre ? { ...s, pre: undefined } : s));
        // put in front of a list that is still empty
        if (!more.length) for (let i = 0; i < segs.length; i++) segs[i] = { ...segs[i], pre: true };
        segs.push(...more);
      } else { const v = this.ev(e, env); if (!this.st) return []; segs.push({ k: 'el', v, p: true }); }
    }
    return [this.newArr(segs)];
  },
  evObject(node, env) {
    const r = this.newObj();
    for (const p of node.properties) {
      if (!this.st) return [];
      switch (p.kind) {
        case S.PropertyAssignment: {
          const k = this.propName(p.name, env);
          const v = this.ev(p.initializer, env);
          if (!this.st) return [];
          this.initProp(r, k, v, p);
          break;
        }
        case S.ShorthandPropertyAssignment: {
          const v = this.evIdent(p.name, env);
          if (!this.st) return [];
          this.initProp(r, [C(p.name.text)], v, p);
          break;
        }
        case S.SpreadAssignment: {
          const v = this.ev(p.expression, env);
          if (!this.st) return [];
          this.spreadInto(r, v, p);
          break;
        }
        case S.MethodDeclaration: {
          const k = this.propName(p.name, env);
          this.initProp(r, k, [this.closure(p, env, {})], p);
          break;
        }
        case S.GetAccessor: {
          const k = this.propName(p.name, env);
          const rec = this.rec(r);
          if (k.length === 1 && k[0].t === 'c') {
            const m = new Map(rec.m); m.set(String(k[0].v), { get: this.closure(p, env, {}), v: [UNDEF], p: true, seq: rec.seq });
            this.st.heap.set(r.a, { ...rec, m, seq: rec.seq + 1 });
          }
          break;
        }
        default: return this.unknown('object member', p);
      }
    }
    return this.st ? [r] : [];
  },
  propName(n, env) {
    if (n.kind === S.ComputedPropertyName) return this.ev(n.expression, env);
    return [C(n.text)];
  },
  initProp(ref, key, v, node) {
    if (!this.st) return;
    for (const k of key) {
      const rec = this.rec(ref);
      if (k.t === 'c') {
        const m = new Map(rec.m);
        const name = String(k.v);
        m.delete(name);
        if (key.length === 1) m.set(name, { v, p: true, seq: rec.seq });
        else { const o = rec.m.get(name); m.set(name, { v: o ? union(o.v, v) : v, p: o ? o.p : false, seq: rec.seq }); }
        this.st.heap.set(ref.a, { ...rec, m, seq: rec.seq + 1 });
      } else if (k.t === 'x' && k.op === 'key' && v.length === 1 && v[0].t === 'x' && v[0].op === 'val' && v[0].base.k === k.base.k) {
        if (rec.rest.some((q) => q.keyed && q.src === k.base.k && q.p === true)) continue;
        this.st.heap.set(ref.a, { ...rec, rest: rec.rest.concat({ src: k.base.k, srcT: k.base, p: true, seq: rec.seq, keyed: true }), seq: rec.seq + 1 });
      } else {
        this.st.heap.set(ref.a, { ...rec, rest: rec.rest.concat({ src: `dyn ${akey(k)}=${vkey(this.mat(v))}`, dyn: true, key: [k], val: v, p: key.length === 1, seq: rec.seq }), seq: rec.seq + 1 });
      }
    }
  },
  // {...v} / Object.assign
  spreadInto(ref, v, node) {
    this.forEachAlt(v, (a) => { this.spread1(ref, a, node); return []; });
  },
  putSpread(ref, name, val, p) { // p: true | term whose 'absent' kind means not copied | false
    const rec = this.rec(ref);
    const old = rec.m.get(name);
    const m = new Map(rec.m);
    let e;
    if (p === true) e = { v: val, p: true, seq: rec.seq };
    else if (old) e = { v: union(old.v, val), p: old.p === true ? true : false, seq: rec.seq };
    else e = { v: val, p, seq: rec.seq };
    m.delete(name); m.set(name, e);
    this.st.heap.set(ref.a, { ...rec, m, seq: rec.seq + 1 });
  },
  spread1(ref, a, node) {
    if (!this.st) return;
    switch (a.t) {
      case 'c': case 's': case 'bi': case 'fn': return;
      case 'x': {
        if (a.op === 'pred' || a.op === 'not') return;
        const ks = [...this.kindsOf(a)];
        const noop = ks.filter((k) => NULLISH.has(k) || ['true', 'false', 'zero', 'num', 'estr'].includes(k) || (k.startsWith('inst:') && k !== 'inst:Buffer'));
        const arrs = ks.filter((k) => k === 'arr' || k === 'earr' || k === 'str');
        const objs = ks.filter((k) => k === 'obj' || k === 'fn');
        const branches = []; const base = this.st;
        if (ks.length > 1 && (noop.length ? 1 : 0) + (arrs.length ? 1 : 0) + (objs.length ? 1 : 0) > 1) this.note(a);
        const br = (set, f) => { if (!set.length) return; this.st = base.clone(); if (this.restrictKinds(a, (k) => set.includes(k))) branches.push([this.st, f]); };
        br(noop, () => []);
        br(arrs, () => { const rec = this.rec(ref); this.st.heap.set(ref.a, { ...rec, rest: rec.rest.concat({ src: `indices ${a.k}`, dyn: true, key: [bare(a)], val: [bare(a)], p: true, seq: rec.seq }), seq: rec.seq + 1 }); return []; });
        br(objs, () => { this.spreadObj(ref, a); return []; });
        this.merge(branches);
        return;
      }
      case 'ref': {
        const r = this.rec(a);
        if (r.k === 'obj') {
          const items = [...r.m].map(([k, e]) => ({ k, e, seq: e.seq })).concat(r.rest.map((q) => ({ q, seq: q.seq }))).sort((x, y) => x.seq - y.seq);
          for (const it of items) {
            if (it.q) { const rec = this.rec(ref); this.st.heap.set(ref.a, { ...rec, rest: rec.rest.concat({ ...it.q, seq: rec.seq }), seq: rec.seq + 1 }); continue; }
            if (it.e.get) { const v = this.callFn(it.e.get, [a], [], node); if (!this.st) return; this.putSpread(ref, it.k, v, true); continue; }
            if (it.k.startsWith('#')) continue;
            this.putSpread2(ref, it.k, it.e);
          }
        } else if (r.k === 'array') {
          let i = 0; let known = true;
          for (const s of r.segs) { if (s.k === 'el' && s.p === true && known) this.putSpread(ref, String(i++), s.v, true); else { known = false; } }
          if (!known) { const rec = this.rec(ref); this.st.heap.set(ref.a, { ...rec, rest: rec.rest.concat({ src: 'indices', dyn: true, key: [TOP('idx')], val: [TOP('idx')], p: true, seq: rec.seq }), seq: rec.seq + 1 }); }
        }
        return;
      }
      case 'top': { const rec = this.rec(ref); this.st.heap.set(ref.a, { ...rec, rest: rec.rest.concat({ src: 'TOP', dyn: true, key: [a], val: [a], p: true, seq: rec.seq }), seq: rec.seq + 1 }); return; }
      default:
    }
  },
  putSpread2(ref, name, e) {
    if (e.p === true) return this.putSpread(ref, name, e.v, true);
    if (e.p === false) return this.putSpread(ref, name, e.v, false);
    // mirror: present iff the mirrored term is not absent
    this.putMirror(ref, name, e.v, e.p, e.mt);
  },
  putMirror(ref, name, val, key, mt) {
    const ks = this.kindsOf(mt);
    if (!ks.has('absent')) return this.putSpread(ref, name, val, true);
    if (ks.size === 1) return;
    const rec = this.rec(ref); const old = rec.m.get(name);
    const m = new Map(rec.m); m.delete(name);
    if (old) {
      this.note(mt);
      const nv = val.map((q) => (q.t === 'x' && q.k === mt.k ? { ...q, rk: new Set([...ks].filter((k) => k !== 'absent')) } : q));
      m.set(name, { v: union(old.v, nv), p: old.p === true ? true : false, seq: rec.seq });
    } else m.set(name, { v: val, p: key, mt, seq: rec.seq });
    this.st.heap.set(ref.a, { ...rec, m, seq: rec.seq + 1 });
  },
  declaredProps(x) {
    const names = new Set(); let open = false; let any = false;
    const cs = this.constituents(x);
    if (!cs.length) any = true;
    for (const t of cs) {
      if (this.T.isAny(t)) { any = true; continue; }
      if (!(t.flags & (ts.TypeFlags.Object | ts.TypeFlags.Intersection))) continue;
      if (this.checker.isArrayType(t)) continue;
      if (t.getStringIndexType()) open = true;
      for (const s of this.checker.getPropertiesOfType(t)) {
        if (s.flags & ts.SymbolFlags.Method) continue;
        names.add(s.name);
      }
    }
    return { names: [...names], open: open || any };
  },
  spreadObj(ref, a) {
    const { names, open } = this.declaredProps(a);
    const rec = this.rec(ref);
    // undeclared or index-signature members
    this.st.heap.set(ref.a, { ...rec, rest: rec.rest.concat({ src: a.k, srcT: bare(a), p: true, seq: rec.seq, open, declared: names }), seq: rec.seq + 1 });
    for (const n of names) {
      const pt = prop(a, n);
      if (this.st.over.has(pt.k)) { this.putSpread(ref, n, this.st.over.get(pt.k), true); continue; }
      this.putMirror(ref, n, [pt], pt.k, pt);
    }
  },
  restObj(v, taken) {
    const r = this.newObj();
    this.spreadInto(r, v);
    if (!this.st) return [];
    const rec = this.rec(r); const m = new Map(rec.m);
    for (const k of taken) m.delete(k);
    this.st.heap.set(r.a, { ...rec, m, rest: rec.rest.map((q) => (q.dyn ? q : { ...q, without: (q.without || []).concat(taken) })) });
    return [r];
  },

  // ---- operators --------------------------------------------------------
  cond(node, env) { // -> [trueState, falseState]
    if (!this.st) return [null, null];
    const n = this.unparen(node);
    if (n.kind === S.PrefixUnaryExpression && n.operator === S.ExclamationToken) {
      const [t, f] = this.cond(n.operand, env);
      return [f, t];
    }
    if (n.kind === S.BinaryExpression) {
      const op = n.operatorToken.kind;
      if (op === S.AmpersandAmpersandToken) {
        const [t, f] = this.cond(n.left, env);
        this.st = t;
        const [t2, f2] = t ? this.cond(n.right, env) : [null, null];
        this.st = null;
        return [t2, join(f, f2)];
      }
      if (op === S.BarBarToken) {
        const [t, f] = this.cond(n.left, env);
        this.st = f;
        const [t2, f2] = f ? this.cond(n.right, env) : [null, null];
        this.st = null;
        return [join(t, t2), f2];
      }
    }
    const v = this.ev(n, env);
    if (!this.st) return [null, null];
    return this.splitTruth(v);
  },
  evBinary(node, env, mode) {
    const op = node.operatorToken.kind;
    switch (op) {
      case S.CommaToken: this.ev(node.left, env); return this.ev(node.right, env, mode);
      case S.AmpersandAmpersandToken: case S.BarBarToken: {
        const isAnd = op === S.AmpersandAmpersandToken;
        if (this.isBoolish(node.left)) {
          const [t, f] = this.cond(node.left, env);
          return this.merge(isAnd
            ? [[f, () => [FALSE]], [t, () => this.ev(node.right, env, mode)]]
            : [[t, () => [TRUE]], [f, () => this.ev(node.right, env, mode)]]);
        }
        const l = this.ev(node.left, env);
        if (!this.st) return [];
        return this.logical(l, isAnd, () => this.ev(node.right, env, mode));
      }
      case S.QuestionQuestionToken: {
        const l = this.ev(node.left, env);
        if (!this.st) return [];
        const parts = this.splitNullish(l);
        return this.merge(parts.filter((p) => !p[2]).map(([a, s]) => [s, () => [a]])
          .concat([[parts.filter((p) => p[2]).reduce((acc, p) => join(acc, p[1]), null), () => this.ev(node.right, env, mode)]]));
      }
      case S.EqualsToken: {
        const target = this.unparen(node.left);
        if (target.kind === S.ObjectLiteralExpression || target.kind === S.ArrayLiteralExpression) {
          const v = this.ev(node.right, env);
          if (this.st) this.assignPattern(target, v, env);
          return v;
        }
        if (target.kind === S.Identifier) {
          const v = this.ev(node.right, env, mode);
          if (this.st) this.assignIdent(target, v, env);
          return v;
        }
        const o = this.ev(target.expression, env);
        if (!this.st) return [];
        const k = this.keyOf(target, env);
        const v = this.ev(node.right, env, mode);
        if (!this.st) return [];
        this.forEachAlt(o, (a) => { this.setProp(a, k, v, node); return []; });
        return v;
      }
      case S.BarBarEqualsToken: case S.AmpersandAmpersandEqualsToken: case S.QuestionQuestionEqualsToken: {
        const cur = this.ev(node.left, env);
        if (!this.st) return [];
        const put = () => { const v = this.ev(node.right, env); if (this.st) this.assignTo(this.unparen(node.left), v, env); return v; };
        if (op === S.QuestionQuestionEqualsToken) {
          const parts = this.splitNullish(cur);
          return this.merge(parts.filter((p) => !p[2]).map(([a, s]) => [s, () => [a]])
            .concat([[parts.filter((p) => p[2]).reduce((acc, p) => join(acc, p[1]), null), put]]));
        }
        return this.logical(cur, op === S.AmpersandAmpersandEqualsToken, put);
      }
      case S.EqualsEqualsToken: case S.EqualsEqualsEqualsToken: case S.ExclamationEqualsToken: case S.ExclamationEqualsEqualsToken: {
        const l = this.ev(node.left, env); const r = this.ev(node.right, env);
        if (!this.st) return [];
        const loose = op === S.EqualsEqualsToken || op === S.ExclamationEqualsToken;
        const neg = op === S.ExclamationEqualsToken || op === S.ExclamationEqualsEqualsToken;
        return this.cross(l, r, (a, b) => { const v = this.equals(a, b, loose); return neg ? this.negate(v) : v; });
      }
      case S.InKeyword: {
        const k = this.ev(node.left, env); const o = this.ev(node.right, env);
        if (!this.st) return [];
        return this.cross(k, o, (a, b) => this.hasIn(a, b, node));
      }
      case S.InstanceOfKeyword: {
        const l = this.ev(node.left, env); const r = this.ev(node.right, env);
        if (!this.st) return [];
        return this.cross(l, r, (a, b) => this.instOf(a, b, node));
      }
      case S.PlusToken: {
        const l = this.ev(node.left, env); const r = this.ev(node.right, env);
        if (!this.st) return [];
        return this.plus(l, r);
      }
      default:
    }
    if (op >= S.FirstCompoundAssignment && op <= S.LastCompoundAssignment) {
      const cur = this.ev(node.left, env); const r = this.ev(node.right, env);
      if (!this.st) return [];
      const v = op === S.PlusEqualsToken ? this.plus(cur, r) : this.cross(cur, r, (a, b) => this.arith(op, a, b));
      if (this.st) this.assignTo(this.unparen(node.left), v, env);
      return v;
    }
    const l = this.ev(node.left, env); const r = this.ev(node.right, env);
    if (!this.st) return [];
    return this.cross(l, r, (a, b) => this.arith(op, a, b));
  },
  isBoolish(n) {
    n = this.unparen(n);
    if (n.kind === S.PrefixUnaryExpression) return n.operator === S.ExclamationToken;
    if (n.kind === S.BinaryExpression) {
      const k = n.operatorToken.kind;
      if (k === S.AmpersandAmpersandToken || k === S.BarBarToken) return this.isBoolish(n.left) && this.isBoolish(n.right);
      return [S.EqualsEqualsToken, S.EqualsEqualsEqualsToken, S.ExclamationEqualsToken, S.ExclamationEqualsEqualsToken, S.InKeyword, S.InstanceOfKeyword,
        S.LessThanToken, S.GreaterThanToken, S.LessThanEqualsToken, S.GreaterThanEqualsToken].includes(k);
    }
    return false;
  },
  logical(l, isAnd, right) {
    const base = this.st; const keep = []; let go = null;
    for (const a of l) {
      const r = this.truth(a);
      if (r === null) this.note(a);
      for (const want of [true, false]) {
        if (r === !want) continue;
        this.st = base.clone();
        if (r === null) this.refineTruth(a, want);
        if (!this.st) continue;
        const stays = isAnd ? !want : want;
        if (stays) {
          let b = a;
          if (a.t === 'x' && r === null && a.op !== 'pred' && a.op !== 'not') b = { ...a, rk: new Set([...this.kindsOf(a)].filter((k) => FALSY.has(k) !== want)) };
          else if (a.t === 'x' && r === null) b = want ? TRUE : FALSE;
          const s = this.st; keep.push([s, () => [b]]);
        } else go = join(go, this.st);
      }
    }
    this.st = null;
    return this.merge(keep.concat([[go, right]]));
  },
  cross(l, r, f) {
    if (l.length === 1 && r.length === 1) return f(l[0], r[0]);
    const outs = [];
    for (const a of l) for (const b of r) outs.push(f(a, b));
    return union(...outs);
  },
  negate(v) {
    return v.map((a) => (a.t === 'c' ? C(!a.v) : a.t === 'x' ? not(a) : a.t === 'top' ? a : this.truth(a) === true ? FALSE : a));
  },
  equals(a, b, loose) {
    if (a.t === 'top' || b.t === 'top') return [TOP('eq')];
    // the caller's value is there already: as good as setting it
    const hc = a.hcur ? [a, b] : b.hcur ? [b, a] : null;
    if (hc && hc[1].t === 'x' && hc[1].op === 'val' && hc[1].base.k === hc[0].hcur.key.base.k) {
      const { ref, key } = hc[0].hcur;
      const [t, f] = this.splitTruth([bool(`eq(${key.k},${hc[1].k},${akey(hc[0])})`)]);
      return this.merge([...(t ? [[t, () => { this.pushOp(ref, { op: 'set', name: [key], value: [hc[1]], p: true }); return [TRUE]; }]] : []), ...(f ? [[f, () => [FALSE]]] : [])]);
    }
    if (a.t === 'c' && b.t === 'c') {
      // eslint-disable-next-line eqeqeq
      return [C(loose ? a.v == b.v : a.v === b.v)];
    }
    if (a.t === 'c') { const q = a; a = b; b = q; }
    if (b.t === 'c') {
      if (a.t === 'idx' && typeof b.v === 'number') { const r = this.idxCmp('==', a, b.v); return r || [bool(`eq(${akey(a)},${b.v})`)]; }
      if (a.t === 'x' && typeof b.v === 'number') { const r = this.cmpKnown('==', a, b.v); if (r) return r; }
      // x.slice(0, n) === "…" asks how x starts
      if (a.t === 'x' && a.op === 'call' && typeof b.v === 'string' && b.v && ['slice', 'substring', 'substr', 'charAt', 'at'].includes(a.name)) {
        const cs = a.args.slice(1).map((v) => (v.length === 1 && v[0].t === 'c' ? v[0].v : null));
        const ask = (m) => this.strMethod(a.args[0][0], m, [[C(b.v)]], null);
        if (a.args[0].length === 1) {
          if (['charAt', 'at'].includes(a.name)) { if (b.v.length === 1 && cs[0] === 0) return ask('startsWith'); } else {
            if (cs[0] === 0 && cs[1] === b.v.length) return ask('startsWith');
            if (a.name === 'slice' && cs.length === 1 && cs[0] === -b.v.length) return ask('endsWith');
          }
        }
      }
      if (a.t === 'x' && a.op === 'typeof') return this.eqTypeof(a.term, b.v);
      if (a.t === 'x') {
        const c = b.v; let set;
        if (c === undefined) set = loose ? ['undef', 'absent', 'null'] : ['undef', 'absent'];
        else if (c === null) set = loose ? ['undef', 'absent', 'null'] : ['null'];
        else if (c === true || c === false) set = [String(c)];
        else if (c === 0) set = ['zero'];
        else if (c === '') set = ['estr'];
        else if (typeof c === 'string') set = [`lit:${c}`];
        else {
          if (a.op === 'len') return [bool(`eq(${a.k},${c})`)];
          const ks = this.kindsOf(a);
          if (![...ks].some((k) => k === 'num')) return [FALSE];
          return [bool(`eq(${a.k},${c})`)];
        }
        if ((c === true || c === false) && (a.op === 'pred' || a.op === 'not' || a.op === 'bool')) return c ? [bare(a)] : [not(bare(a))];
        return this.simp(pred(a, set), a);
      }
      if (a.t === 's') {
        if (b.v === '' ) { const t = this.truth(a); if (t !== null) return [C(!t)]; }
        if (typeof b.v !== 'string') return [FALSE];
        return [bool(`eq(${akey(a)},${JSON.stringify(b.v)})`)];
      }
      if (a.t === 'qs') {
        if (b.v === '') { const t = this.truth(a); if (t !== null) return [C(!t)]; return [TOP('qs')]; }
        return [FALSE];
      }
      if (a.t === 'json') {
        if (b.v === undefined) { const t = this.truth(a); return t === null ? [bool(`eq(${akey(a)},undefined)`)] : [C(!t)]; }
        return [bool(`eq(${akey(a)},${String(b.v)})`)];
      }
      return [FALSE];
    }
    if (a.t === 'ref' && b.t === 'ref') return [C(a.a === b.a)];
    if (akey(a) === akey(b)) return [TRUE];
    if (a.t === 'x' && b.t === 'x') {
      if (a.k === b.k) return [TRUE];
      return [bool(`eq(${[a.k, b.k].sort().join(',')})`)];
    }
    if (a.t === 'idx' || b.t === 'idx') return [bool(`eq(${[akey(a), akey(b)].sort().join(',')})`)];
    if (a.t === 'ref' || b.t === 'ref') return [FALSE];
    return [bool(`eq(${[akey(a), akey(b)].sort().join(',')})`)];
  },
  simp(p, a) {
    // decide now when the kinds already settle it (keeps restricted kinds of `a`)
    const q = { ...p };
    const ks = this.kindsOf(a); let t = false; let f = false;
    for (const k of ks) {
      const inS = p.set.has(k) || (k.startsWith('lit:') && p.set.has('str'));
      if (inS) t = true; else { f = true; if (k === 'str' && [...p.set].some((l) => l.startsWith('lit:'))) t = true; }
    }
    if (t && !f) return [TRUE];
    if (f && !t) return [FALSE];
    const is = this.isLiteral(q);
    if (is) {
      const c = this.caseKinds.get(is.k);
      if (c && c.size === 1) { if (c.has('true')) { this.setKinds(q.term, new Set(q.set)); return [TRUE]; } if (![...ks].some((k) => q.set.has(k))) return [FALSE]; }
    }
    return [q];
  },
  // the question whether an open string is one particular literal
  isLiteral(p) {
    if (p.op !== 'pred' || p.set.size !== 1 || p.term.op === 'pred') return null;
    const l = [...p.set][0];
    return l.startsWith('lit:') ? bool(`eq(${p.term.k},${JSON.stringify(l.slice(4))})`) : null;
  },
  typeofVal(v) {
    return union(...v.map((a) => {
      switch (a.t) {
        case 'c': return [C(typeof a.v)];
        case 's': case 'qs': case 'json': return [C('string')];
        case 'bi': return [C(['JSON', 'Math', 'console', 'globalThis', 'Reflect', 'Intl', 'crypto', 'performance'].includes(a.name) || a.name.endsWith('.prototype') ? 'object' : 'function')];
        case 'fn': case 'bm': case 'cls': case 'host': return [C('function')];
        case 'ext': return [TOP('typeof ext')];
        case 'x': {
          if (a.op === 'pred' || a.op === 'not') return [C('boolean')];
          const set = new Set([...this.kindsOf(a)].map((k) => this.typeofStr(k)));
          if (set.size === 1) return [C([...set][0])];
          return [X('typeof', `typeof ${a.k}`, { term: bare(a), kinds: new Set(['str']) })];
        }
        case 'idx': return [C('number')];
        case 'top': return [a];
        default: return [C('object')];
      }
    }));
  },
  eqTypeof(term, s) {
    const ks = [...this.kindsOf(term)];
    const set = ks.filter((k) => this.typeofStr(k) === s);
    if (!set.length) return [FALSE];
    if (set.length === ks.length) return [TRUE];
    // close the set under everything of that type so that it stays valid elsewhere
    const full = new Set(set);
    if (s === 'string') { full.add('str'); full.add('estr'); }
    if (s === 'undefined') { full.add('undef'); full.add('absent'); }
    if (s === 'number') { full.add('zero'); full.add('num'); }
    if (s === 'boolean') { full.add('true'); full.add('false'); }
    if (s === 'object') { full.add('null'); full.add('obj'); full.add('arr'); full.add('earr'); for (const k of ks) if (k.startsWith('inst:')) full.add(k); }
    return [pred(term, full)];
  },
  toStr(v) {
    return union(...v.map((a) => {
      if (a.t === 'c') return [C(String(a.v))];
      if (a.t === 's' || a.t === 'qs' || a.t === 'json') return [a];
      if (a.t === 'x') {
        const cs = [...this.kindsOf(a)];
        if (cs.length === 1) {
          if (cs[0] === 'undef' || cs[0] === 'absent') return [C('undefined')];
          if (cs[0] === 'null') return [C('null')];
          if (cs[0] === 'true' || cs[0] === 'false') return [C(cs[0])];
          if (cs[0] === 'estr') return [C('')];
          if (cs[0] === 'zero') return [C('0')];
          if (cs[0].startsWith('lit:') && (a.op === 'prop' || a.op === 'root') && false) return [C(cs[0].slice(4))];
        }
        return [a];
      }
      if (a.t === 'ref') {
        const r = this.rec(a);
        if (r.k === 'usp') return this.uspToString(a);
        if (r.k === 'array') return this.joinArray(r.segs, [C(',')], null);
        return [X('call', `String(${vkey(this.mat([a]))})`, { name: 'String', args: [this.mat([a])], res: 'nstr' })];
      }
      if (a.t === 'idx') return [X('call', `String(${akey(a)})`, { name: 'String', args: [[a]], res: 'nstr' })];
      if (a.t === 'top') return [a];
      return [X('call', `String(${akey(a)})`, { name: 'String', args: [[a]], res: 'nstr' })];
    }));
  },
  concat(...vals) {
    let acc = [[]];
    for (const v of vals) {
      const next = [];
      for (const parts of acc) for (const a of v) next.push(parts.concat([a]));
      acc = next;
      if (acc.length > 64) return [TOP('too many string alternatives')];
    }
    return union(...acc.map((parts) => [this.mkStr(parts)]));
  },
  mkStr(parts) {
    const out = [];
    for (const p of parts) {
      const list = p.t === 's' ? p.parts : [p.t === 'c' ? String(p.v) : p];
      for (const q of list) {
        if (typeof q !== 'string' && q.t === 'top') return q;
        if (typeof q !== 'string' && q.t === 'qs' && !q.entries.length) continue;
        if (typeof q === 'string') {
          if (q === '') continue;
          if (out.length && typeof out[out.length - 1] === 'string') out[out.length - 1] += q; else out.push(q);
        } else out.push(q.rk ? bare(q) : q);
      }
    }
    if (!out.length) return C('');
    if (out.length === 1) {
      if (typeof out[0] === 'string') return C(out[0]);
      if (out[0].t !== 'x') return out[0];
      const ks = this.kindsOf(out[0]);
      if ([...ks].every((k) => k === 'str' || k === 'estr' || k.startsWith('lit:'))) return out[0];
    }
    return { t: 's', parts: out };
  },
  isStrVal(a) {
    if (a.t === 'c') return typeof a.v === 'string';
    if (a.t === 's' || a.t === 'qs' || a.t === 'json') return true;
    if (a.t === 'x') { const ks = [...this.kindsOf(a)]; return ks.every((k) => this.typeofStr(k) === 'string') ? true : ks.some((k) => !['number', 'boolean', 'undefined'].includes(this.typeofStr(k)) && k !== 'null') ? null : false; }
    if (a.t === 'ref') return null;
    return false;
  },
  plus(l, r) {
    return this.cross(l, r, (a, b) => {
      if (a.t === 'top' || b.t === 'top') return [TOP('plus')];
      if (this.isStrVal(a) || this.isStrVal(b)) return this.concat(this.toStr([a]), this.toStr([b]));
      if (a.t === 'c' && b.t === 'c') return [C(a.v + b.v)];
      if (a.t === 'ref' || b.t === 'ref') return this.concat(this.toStr([a]), this.toStr([b]));
      return [call('+', [this.mat([a]), this.mat([b])], 'num')];
    });
  },
  arith(op, a, b) {
    const n = ts.tokenToString(op);
    if (a.t === 'x' && b.t === 'c' && typeof b.v === 'number') {
      const r = this.cmpKnown(n, a, b.v);
      if (r) return r;
    }
    if (a.t === 'c' && b.t === 'x' && typeof a.v === 'number' && FLIP[n]) {
      const r = this.cmpKnown(FLIP[n], b, a.v);
      if (r) return r;
    }
    if (a.t === 'c' && b.t === 'c') {
      const x = a.v; const y = b.v;
      switch (n.replace(/=$/, (m) => (['<=', '>='].includes(n) ? m : ''))) {
        case '-': return [C(x - y)]; case '*': return [C(x * y)]; case '/': return [C(x / y)]; case '%': return [C(x % y)];
        case '<': return [C(x < y)]; case '>': return [C(x > y)]; case '<=': return [C(x <= y)]; case '>=': return [C(x >= y)];
        case '**': return [C(x ** y)]; case '|': return [C(x | y)]; case '&': return [C(x & y)]; case '^': return [C(x ^ y)];
        case '<<': return [C(x << y)]; case '>>': return [C(x >> y)];
        default:
      }
    }
    if (a.t === 'top' || b.t === 'top') return [TOP('arith')];
    // length comparisons against 0/1
    if (a.t === 'x' && b.t === 'c' && (a.op === 'len' || this.isLenLike(a))) {
      const z = pred(a, ['zero']);
      if ((n === '>' && b.v === 0) || (n === '>=' && b.v === 1)) return [not(z)];
      if ((n === '<' && b.v === 1) || (n === '<=' && b.v === 0)) return [z];
      if (n === '>=' && b.v === 0) return [TRUE];
      if (n === '<' && b.v === 0) return [FALSE];
    }
    if (b.t === 'x' && a.t === 'c' && (b.op === 'len' || this.isLenLike(b))) {
      const flip = { '<': '>', '>': '<', '<=': '>=', '>=': '<=' }[n];
      if (flip) { const tok = { '<': S.LessThanToken, '>': S.GreaterThanToken, '<=': S.LessThanEqualsToken, '>=': S.GreaterThanEqualsToken }[flip]; return this.arith(tok, b, a); }
    }
    if (a.t === 'idx' && b.t === 'c' && typeof b.v === 'number' && ['<', '>', '<=', '>='].includes(n)) { const r = this.idxCmp(n, a, b.v); if (r) return r; }
    if (b.t === 'idx' && a.t === 'c' && typeof a.v === 'number') { const flip = { '<': '>', '>': '<', '<=': '>=', '>=': '<=' }[n]; const r = flip && this.idxCmp(flip, b, a.v); if (r) return r; }
    // a position in a list is below its length
    if (a.t === 'idx' && b.t === 'x' && b.op === 'len' && b.base.k === a.src) { if (n === '<' || n === '<=') return [TRUE]; if (n === '>' || n === '>=') return [FALSE]; }
    if (b.t === 'idx' && a.t === 'x' && a.op === 'len' && a.base.k === b.src) { if (n === '>' || n === '>=') return [TRUE]; if (n === '<' || n === '<=') return [FALSE]; }
    if (['<', '>', '<=', '>='].includes(n)) return [bool(`${n}(${akey(a)},${akey(b)})`, { cmp: n, l: a, r: b })];
    return [call(n, [this.mat([a]), this.mat([b])], 'num')];
  },
  // positions are whole numbers from 0 on
  idxCmp(n, a, c) {
    const cmp = { '<': (x) => x < c, '>': (x) => x > c, '<=': (x) => x <= c, '>=': (x) => x >= c, '==': (x) => x === c }[n];
    if (!cmp) return null;
    const z = bool(`eq(${akey(a)},0)`);
    const sig = [cmp(0), cmp(1), cmp(2 ** 32)].map(Number).join('');
    if (sig === '100' && (n === '==' || !cmp(0.5) || !cmp(1))) return [z];
    if (sig === '011' && cmp(1)) return [not(z)];
    if (sig === '000' && (n !== '==' || c < 0 || !Number.isInteger(c))) return [FALSE];
    if (sig === '111') return [TRUE];
    return null;
  },
  isLenLike(a) { return a.op === 'size'; },
  // comparisons whose meaning is known beyond the operator: the status of a response
  // against its `ok`, and positions found by indexOf
  cmpKnown(n, a, c) {
    const cmp = { '<': (x) => x < c, '>': (x) => x > c, '<=': (x) => x <= c, '>=': (x) => x >= c, '==': (x) => x === c }[n];
    if (!cmp) return null;
    if (a.op === 'call' && a.name === 'indexOf' && a.args.length === 2) {
      // true for -1 / for 0 / for every positive position?
      const at = [cmp(-1), cmp(0), cmp(1), cmp(1e9)];
      const starts = () => bool(`startsWith(${a.args.map(vkey).join(',')})`, { name: 'startsWith', args: a.args });
      const has = () => bool(`includes(${a.args.map(vkey).join(',')})`, { name: 'includes', args: a.args });
      const sig = at.map(Number).join('');
      if (sig === '0100') return [starts()];
      if (sig === '1011') return [not(starts())];
      if (sig === '0111') return [has()];
      if (sig === '1000') return [not(has())];
      if (sig === '0000') return [FALSE];
      if (sig === '1111') return [TRUE];
      return null;
    }
    if (a.op === 'prop' && a.name === 'status' && a.base.op === 'resp') {
      const okT = bool(`${a.base.k}.ok`);
      const ks = [...this.kindsOf(okT)];
      const rng = (ok) => (ok ? [[200, 299]] : [[300, 599]]);
      const over = (ok) => { let t = false; let f = false; for (const [lo, hi] of rng(ok)) for (let x = lo; x <= hi; x++) { if (cmp(x)) t = true; else f = true; } return t && f ? null : t; };
      const yes = ks.includes('true') ? over(true) : undefined; const no = ks.includes('false') ? over(false) : undefined;
      const vals = [yes, no].filter((v) => v !== undefined);
      if (!vals.length) return null;
      if (vals.every((v) => v === true)) return [TRUE];
      if (vals.every((v) => v === false)) return [FALSE];
      const mine = () => bool(`${n}(${a.k},${c})`, { cmp: n, l: a, r: C(c) });
      if (vals.length === 1) return [mine()];
      if (yes === true && no === false) return [okT];
      if (yes === false && no === true) return [not(okT)];
      const [t, f] = this.splitTruth([okT]);
      const w = (v) => () => (v === null ? [mine()] : [C(v)]);
      return this.merge([[t, w(yes)], [f, w(no)]]);
    }
    return null;
  },
  evUnary(node, env) {
    const op = node.operator;
    if (node.kind === S.PrefixUnaryExpression && op === S.ExclamationToken) {
      const inner = this.unparen(node.operand);
      if (this.isBoolish(inner) && inner.kind === S.BinaryExpression && [S.AmpersandAmpersandToken, S.BarBarToken].includes(inner.operatorToken.kind)) {
        const [t, f] = this.cond(inner, env);
        return this.merge([[t, () => [FALSE]], [f, () => [TRUE]]]);
      }
      const v = this.ev(node.operand, env);
      if (!this.st) return [];
      return union(...v.map((a) => {
        const r = this.truth(a);
        if (r !== null) return [C(!r)];
        if (a.t === 'x') return [a.rk ? not(a) : not(a)];
        return [a.t === 'top' ? a : bool(`!${akey(a)}`)];
      }));
    }
    if (op === S.PlusPlusToken || op === S.MinusMinusToken) {
      const cur = this.ev(node.operand, env);
      if (!this.st) return [];
      const d = op === S.PlusPlusToken ? 1 : -1;
      const nv = union(...cur.map((a) => (a.t === 'c' ? [C(Number(a.v) + d)] : a.t === 'top' ? [a] : [call(d > 0 ? 'inc' : 'dec', [this.mat([a])], 'num')])));
      this.assignTo(this.unparen(node.operand), nv, env);
      return node.kind === S.PrefixUnaryExpression ? nv : cur;
    }
    const v = this.ev(node.operand, env);
    if (!this.st) return [];
    const n = ts.tokenToString(op);
    return union(...v.map((a) => {
      if (a.t === 'c') return [C(n === '-' ? -a.v : n === '+' ? +a.v : ~a.v)];
      if (a.t === 'top') return [a];
      return [call(`u${n}`, [this.mat([a])], 'num')];
    }));
  },
  assignTo(target, v, env) {
    target = this.unparen(target);
    if (target.kind === S.Identifier) { this.assignIdent(target, v, env); return; }
    if (target.kind === S.ObjectLiteralExpression || target.kind === S.ArrayLiteralExpression) { this.assignPattern(target, v, env); return; }
    const o = this.ev(target.expression, env);
    if (!this.st) return;
    const k = this.keyOf(target, env);
    if (!this.st) return;
    this.forEachAlt(o, (a) => { this.setProp(a, k, v, target); return []; });
  },
  assignIdent(node, v, env) {
    const sym = this.symbolOf(node);
    const d = sym && (sym.valueDeclaration || sym.declarations[0]);
    if (d) {
      const cell = this.lookup(env, d);
      if (cell !== undefined) { this.setCell(cell, v); return; }
    }
    this.unknown(`assignment to ${node.text}`, node);
  },
  assignPattern(target, v, env) {
    if (target.kind === S.ObjectLiteralExpression) {
      const taken = [];
      for (const p of target.properties) {
        if (!this.st) return;
        if (p.kind === S.SpreadAssignment) { this.assignTo(p.expression, this.restObj(v, taken), env); continue; }
        const key = p.name.kind === S.ComputedPropertyName ? null : p.name.text;
        if (key === null) { this.unknown('computed pattern', p); return; }
        taken.push(key);
        let pv = this.getProp(v, key, p);
        if (!this.st) return;
        if (p.kind === S.ShorthandPropertyAssignment) {
          if (p.objectAssignmentInitializer) pv = this.withDefault(pv, p.objectAssignmentInitializer, env);
          if (this.st) this.assignIdent(p.name, pv, env);
        } else {
          let t = p.initializer;
          if (t.kind === S.BinaryExpression && t.operatorToken.kind === S.EqualsToken) { pv = this.withDefault(pv, t.right, env); t = t.left; }
          if (this.st) this.assignTo(t, pv, env);
        }
      }
    } else {
      let i = 0;
      for (const e of target.elements) {
        if (!this.st) return;
        if (e.kind === S.OmittedExpression) { i++; continue; }
        if (e.kind === S.SpreadElement) { this.assignTo(e.expression, this.arrRest(v, i, e), env); return; }
        let t = e; let pv = this.indexOf(v, i, e);
        if (!this.st) return;
        if (t.kind === S.BinaryExpression && t.operatorToken.kind === S.EqualsToken) { pv = this.withDefault(pv, t.right, env); t = t.left; }
        if (this.st) this.assignTo(t, pv, env);
        i++;
      }
    }
  },

  // ---- access and calls -------------------------------------------------
  chainRoot(node, env, f) {
    if (!ts.isOptionalChain(node)) return f();
    const par = node.parent;
    const inner = par && ts.isOptionalChain(par) && par.expression === node && !ts.isNonNullExpression(par);
    if (inner) return f();
    const save = this.chainExits; this.chainExits = [];
    const v = f();
    const exits = this.chainExits; this.chainExits = save;
    if (!exits.length) return v;
    const cur = this.st;
    return this.merge([[cur, () => v], [exits.reduce(join, null), () => [UNDEF]]]);
  },
  optBase(node, v) { // node has questionDotToken: drop nullish alternatives
    if (!node.questionDotToken || !this.st) return v;
    const parts = this.splitNullish(v);
    for (const p of parts) if (p[2]) this.chainExits.push(p[1]);
    const live = parts.filter((p) => !p[2]);
    return this.merge(live.map(([a, s]) => [s, () => [a]]));
  },
  keyOf(node, env) {
    if (node.kind === S.PropertyAccessExpression) return [C(node.name.text)];
    return this.ev(node.argumentExpression, env);
  },
  evAccess(node, env) {
    if (node.expression.kind === S.SuperKeyword) return this.superMember(node.name.text);
    let o = this.ev(node.expression, env);
    if (!this.st) return [];
    o = this.optBase(node, o);
    if (!this.st) return [];
    const k = this.keyOf(node, env);
    if (!this.st) return [];
    const v = this.getKey(o, k, node);
    if (this.st) this.assumeProp(v, node);
    return v;
  },
  assumeProp(v, node) {
    for (const a of v) {
      if (a.t !== 'x' || (a.op !== 'prop' && a.op !== 'elem')) continue;
      const k = anyElem(a.k);
      if (this.assumed.has(k) || this.typesOf(a).length) continue;
      if (!this.isJson(a)) continue;
      const s = node.name && this.checker.getSymbolAtLocation(node.name);
      const t = s ? this.checker.getTypeOfSymbol(s) : this.checker.getTypeAtLocation(node);
      if (t && !this.T.isAny(t)) this.assumed.set(k, [t]);
    }
  },
  getKey(o, k, node) {
    if (k.length === 1 && k[0].t === 'c') return typeof k[0].v === 'number' ? this.indexOf(o, k[0].v, node) : this.getProp(o, String(k[0].v), node);
    const outs = [];
    const base = this.st; let acc = null;
    for (const a of k) {
      this.st = k.length > 1 ? base.clone() : base;
      let v;
      if (a.t === 'c') v = typeof a.v === 'number' ? this.indexOf(o, a.v, node) : this.getProp(o, String(a.v), node);
      else v = this.forEachAlt(o, (b) => this.getDyn(b, a, node));
      if (this.st) { outs.push(v); acc = join(acc, this.st); }
    }
    this.st = acc;
    return outs.length ? union(...outs) : [];
  },
  // one of the names the members of a value have, against the names set on a record made here
  ownKeySplit(r, k, none, found) {
    if (r.k !== 'obj' || r.cls || !r.m.size || [...r.m.values()].some((e) => e.p !== true)) return null;
    if (r.rest.some((e) => !(e.dyn && e.key.length === 1 && e.key[0].t === 'x' && e.key[0].op === 'key' && e.key[0].other && e.key[0].base.k === k.base.k))) return null;
    const brs = []; let rest = this.st;
    for (const n of r.m.keys()) {
      if (!rest) break;
      this.st = rest;
      const [t, f] = this.splitTruth([bool(`eq(${k.k},${JSON.stringify(n)})`)]);
      rest = f;
      if (t) brs.push([t, () => found(n)]);
    }
    if (rest) brs.push([rest, none]);
    return this.merge(brs);
  },
  getDyn(b, k, node) {
    if (k.t === 'idx') {
      if (b.t === 'x' && b.k === k.src) return this.readElem(b, k.other);
      if (b.t === 'ref') {
        const r = this.rec(b);
        if (r.k === 'array' && r.segs.length === 1 && r.segs[0].k === 'each' && (r.segs[0].src === k.src || (r.segs[0].srcT && r.segs[0].srcT.k === k.src)) && r.segs[0].p === true) return k.other && r.segs[0].srcT ? this.renameOther(r.segs[0].v, r.segs[0].srcT) : r.segs[0].v;
        if (r.k === 'array' && `#${b.a}` === k.src) return k.cur || [TOP('index')];
      }
      if (b.t === 'x') return [call('at', [[bare(b)], [k]])];
    }
    if (b.t === 'x' && k.t === 'x' && k.op === 'key' && k.base.k === b.k) return [X('val', `${b.k}{${k.other ? '~' : '*'}}`, { base: bare(b), other: k.other })];
    // a neighbour of the current element: another element of the list, or none at its end
    if (b.t === 'x' && k.t === 'x' && k.op === 'call' && (k.name === '-' || k.name === '+') && k.args.length === 2 && k.args.every((q) => q.length === 1) && k.args[0][0].t === 'idx' && k.args[0][0].src === b.k && k.args[1][0].t === 'c' && Number.isInteger(k.args[1][0].v) && k.args[1][0].v !== 0) {
      const edge = X('nth', `edge(${b.k}${k.name}${k.args[1][0].v})`, { kinds: new Set(['lit:there', 'lit:outside']) });
      this.note(edge);
      const base = this.st;
      const branch = (q) => { this.st = base.clone(); return this.restrictKinds(edge, (z) => z === q) ? this.st : null; };
      const out = branch('lit:outside'); const inn = branch('lit:there');
      return this.merge([...(out ? [[out, () => [UNDEF]]] : []), ...(inn ? [[inn, () => this.readElem(bare(b), true)]] : [])]);
    }
    if (b.t === 'x') return [call('get', [[bare(b)], [k]])];
    if (b.t === 'ref') {
      const r = this.rec(b);
      if (k.t === 'x' && k.op === 'key' && !k.other) { const mine = this.ownKeySplit(r, k, () => [UNDEF], (n) => this.getProp([b], n, node)); if (mine) return mine; }
      if (r.k === 'obj' && !r.rest.length && !r.cls) {
        // table lookup by an unknown key: split on the keys when the key's kinds name them
        if (k.t === 'x') {
          const base = this.st; const branches = []; const ks = [...this.kindsOf(k)]; let covered = true;
          for (const q of ks) {
            if (q.startsWith('lit:')) {
              const name = q.slice(4);
              this.st = base.clone();
              if (ks.length > 1) { this.note(k); if (!this.restrictKinds(k, (z) => z === q)) continue; }
              const s = this.st; branches.push([s, () => this.getProp([b], name, node)]);
            } else covered = false;
          }
          if (covered && branches.length) return this.merge(branches);
          this.st = base;
        }
        return union([UNDEF], ...[...r.m.values()].map((e) => e.v), [TOP('dynamic lookup')]);
      }
    }
    return this.topv('dynamic property', node);
  },
  evArgs(nodes, env) {
    const out = [];
    for (const a of nodes) {
      if (!this.st) return out;
      if (a.kind === S.SpreadElement) {
        const v = this.ev(a.expression, env);
        if (!this.st) return out;
        const segs = this.iterSegs(v, a);
        if (segs.every((s) => s.k === 'el' && s.p === true)) out.push(...segs.map((s) => s.v));
        else { out.push(Object.assign([TOP('spread args')], { spreadSegs: segs })); }
      } else out.push(this.ev(a, env));
    }
    return out;
  },
  evCall(node, env, mode) {
    const callee = node.expression;
    if (callee.kind === S.ImportKeyword) {
      const a = this.ev(node.arguments[0], env);
      const name = a.length === 1 && a[0].t === 'c' ? String(a[0].v) : null;
      if (!name) return this.unknown('dynamic import of computed name', node);
      this.st.eff.push({ k: 'importDyn', name, at: loc(node) });
      return [this.promise([{ t: 'ext', name, mod: name, member: '*' }], [X('err', `importerr:${name}`, {})], bool(`ok:import ${name}`))];
    }
    if (callee.kind === S.SuperKeyword) {
      const args = this.evArgs(node.arguments, env);
      if (!this.st) return [];
      this.superCall(args, node, env);
      return [UNDEF];
    }
    const c = this.unparen(callee);
    if (c.kind === S.PropertyAccessExpression || c.kind === S.ElementAccessExpression) {
      // method call: evaluate receiver once
      const inChain = ts.isOptionalChain(c);
      let o; let f;
      if (c.expression.kind === S.SuperKeyword) { o = this.act.thisV; f = this.superMember(c.name.text); }
      else {
        o = this.ev(c.expression, env);
        if (!this.st) return [];
        if (inChain) o = this.optBase(c, o);
        if (!this.st) return [];
        const k = this.keyOf(c, env);
        if (!this.st) return [];
        // resolve per receiver alternative
        return this.forEachAlt(o, (a) => {
          let fv = this.getKeyForCall([a], k, c, node);
          if (!this.st) return [];
          fv = this.optBase(node, fv);
          if (!this.st) return [];
          const args = this.evArgs(node.arguments, env);
          if (!this.st) return [];
          return this.callVal(fv, [a], args, node, mode);
        });
      }
      const args = this.evArgs(node.arguments, env);
      if (!this.st) return [];
      return this.callVal(f, o, args, node, mode);
    }
    let f;
    f = this.ev(callee, env);
    if (!this.st) return [];
    f = this.optBase(node, f);
    if (!this.st) return [];
    const args = this.evArgs(node.arguments, env);
    if (!this.st) return [];
    return this.callVal(f, [UNDEF], args, node, mode);
  },
  getKeyForCall(o, k, access, node) {
    this.calling = true;
    if (k.length === 1 && k[0].t === 'c') { const v = this.getProp(o, String(k[0].v), access, true); return v; }
    return this.getKey(o, k, access);
  },
};
Object.assign(Interp.prototype, Exprs);
