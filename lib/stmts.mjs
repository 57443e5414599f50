// Abstract interpreter, part 4: statements.
import { ts, loc } from './program.mjs';
import { C, UNDEF, TOP, TRUE, join, union, vkey } from './domain.mjs';
import { X, bare } from './terms.mjs';
import { Interp } from './core.mjs';
import { REV, CUT, turned } from './objects.mjs';

const S = ts.SyntaxKind;

export const Stmts = {
  hoist(statements, env) {
    for (const s of statements) {
      if (s.kind === S.FunctionDeclaration && s.body) {
        const f = [this.closure(s, env, { thisV: undefined })];
        const sym = s.name && this.checker.getSymbolAtLocation(s.name);
        for (const d of (sym && sym.declarations) || [s]) this.declare(env, d, f);
      } else if (s.kind === S.ClassDeclaration) this.declare(env, s, [this.mkClass(s, env)]);
    }
  },
  execStmts(statements, env) {
    this.hoist(statements, env);
    for (const s of statements) {
      if (!this.st) return;
      this.exec(s, env);
    }
  },
  // join keeping, per alternative, what its branch established
  joinR(a, b) {
    if (!a) return b;
    if (!b || a === b) return a;
    const fix = (p, q) => {
      for (const [id, v] of p.cells) {
        const w = q.cells.get(id);
        if (w === undefined || w === v) continue;
        let ch = false;
        const nv = v.map((x) => {
          if (x.t !== 'x' || x.op === 'pred' || x.op === 'not') return x;
          const k1 = p.kinds.get(x.k); const k2 = q.kinds.get(x.k);
          if (!k1 || k1 === k2) return x;
          ch = true;
          const s = this.st; this.st = p; const ks = new Set(this.kindsOf(x)); this.st = s;
          return { ...x, rk: ks };
        });
        if (ch) p.cells.set(id, nv);
      }
    };
    fix(a, b); fix(b, a);
    return join(a, b);
  },
  exec(node, env) {
    if (!this.st) return;
    switch (node.kind) {
      case S.VariableStatement: this.execVars(node.declarationList, env); return;
      case S.ExpressionStatement: this.ev(node.expression, env); return;
      case S.Block: this.execStmts(node.statements, this.newEnv(env)); return;
      case S.IfStatement: {
        const [t, f] = this.cond(node.expression, env);
        this.st = t;
        if (t) this.exec(node.thenStatement, env);
        const a = this.st;
        this.st = f;
        if (f && node.elseStatement) this.exec(node.elseStatement, env);
        this.st = this.joinR(a, this.st);
        return;
      }
      case S.ReturnStatement: {
        const act = this.act;
        let v = [UNDEF];
        if (node.expression) v = this.ev(node.expression, env, act.finallyDepth ? undefined : act.retMode);
        if (!this.st) return;
        if (v.length || !node.expression) act.returns.push({ st: this.st, v: this.restrictVal(v) });
        this.st = null;
        return;
      }
      case S.ThrowStatement: {
        const v = this.ev(node.expression, env);
        if (this.st) this.throwVal(v);
        return;
      }
      case S.TryStatement: this.execTry(node, env); return;
      case S.ForOfStatement: this.execForOf(node, env); return;
      case S.ForInStatement: this.execForIn(node, env); return;
      case S.ForStatement: this.execFor(node, env); return;
      case S.WhileStatement: this.execWhile(node, env, node.expression, null, false); return;
      case S.DoStatement: this.execWhile(node, env, node.expression, null, true); return;
      case S.SwitchStatement: this.execSwitch(node, env); return;
      case S.LabeledStatement: {
        this.pendingLabel = node.label.text;
        const inner = node.statement;
        if ([S.ForStatement, S.ForOfStatement, S.ForInStatement, S.WhileStatement, S.DoStatement, S.SwitchStatement].includes(inner.kind)) this.exec(inner, env);
        else {
          const ctx = this.pushLoop('block');
          this.exec(inner, env);
          this.popLoop(ctx);
        }
        return;
      }
      case S.BreakStatement: case S.ContinueStatement: {
        const isBreak = node.kind === S.BreakStatement;
        for (let i = this.loops.length - 1; i >= 0; i--) {
          const c = this.loops[i];
          const hit = node.label ? c.label === node.label.text : isBreak ? c.kind !== 'block' : c.kind === 'loop';
          if (!hit) continue;
          (isBreak ? c.breaks : c.continues).push(this.st);
          this.st = null;
          return;
        }
        this.unknown('stray jump', node);
        return;
      }
      case S.FunctionDeclaration: case S.ClassDeclaration: return; // hoisted
      case S.EnumDeclaration: this.declare(env, node, this.enumObj(node)); return;
      case S.ImportDeclaration: case S.ExportDeclaration: case S.InterfaceDeclaration: case S.TypeAliasDeclaration: case S.EmptyStatement:
      case S.ModuleDeclaration: case S.ImportEqualsDeclaration: case S.DebuggerStatement: case S.NotEmittedStatement:
        return;
      case S.ExportAssignment: { const v = this.ev(node.expression, env); if (this.st) this.declare(env, node, v); return; }
      default: this.unknown(`unsupported statement ${S[node.kind]}`, node);
    }
  },
  execVars(list, env) {
    const isVar = !(list.flags & ts.NodeFlags.BlockScoped);
    for (const d of list.declarations) {
      if (!this.st) return;
      let v = [UNDEF];
      if (d.initializer) { v = this.ev(d.initializer, env); if (!this.st) return; this.assume(v, d); } else if (isVar && this.lookup(env, d) !== undefined) continue;
      this.bindPattern(d.name, v, isVar && this.act && this.act.env ? this.act.env : env, d);
    }
  },
  pushLoop(kind) {
    const ctx = { kind, label: this.pendingLabel, breaks: [], continues: [] };
    this.pendingLabel = undefined;
    this.loops = (this.loops || []).concat(ctx);
    return ctx;
  },
  popLoop(ctx) {
    this.loops = this.loops.slice(0, -1);
    for (const b of ctx.breaks) this.st = this.joinR(this.st, b);
    ctx.breaks = [];
  },
  // run one loop body, folding `continue`
  iter(ctx, f) {
    const c0 = ctx.continues.length;
    f();
    for (const s of ctx.continues.splice(c0)) this.st = this.joinR(this.st, s);
  },
  bindLoopVar(init, v, env) {
    if (init.kind === S.VariableDeclarationList) { const d = init.declarations[0]; this.assume(v, d); this.bindPattern(d.name, v, env, d); } else this.assignTo(init, v, env);
  },
  execForOf(node, env) {
    const it = this.ev(node.expression, env);
    if (!this.st) return;
    const ctx = this.pushLoop('loop');
    const segs = this.iterSegs(it, node);
    if (this.st) {
      this.runLoop(segs, (el) => {
        this.iter(ctx, () => {
          const e2 = this.newEnv(env);
          let v = el;
          if (node.awaitModifier) v = this.awaitVal(v);
          if (this.st) this.bindLoopVar(node.initializer, v, e2);
          if (this.st) this.exec(node.statement, e2);
        });
        return [UNDEF];
      }, ctx);
    }
    this.popLoop(ctx);
  },
  execForIn(node, env) {
    const o = this.ev(node.expression, env);
    if (!this.st) return;
    const ctx = this.pushLoop('loop');
    const segs = this.keySegs(o, 'keys', node, true);
    if (this.st) {
      this.runLoop(segs, (el) => {
        this.iter(ctx, () => {
          const e2 = this.newEnv(env);
          this.bindLoopVar(node.initializer, el, e2);
          if (this.st) this.exec(node.statement, e2);
        });
        return [UNDEF];
      }, ctx);
    }
    this.popLoop(ctx);
  },
  // `for (let i = 0; i < xs.length; i++)` and the same with a cached length
  indexLoop(node, env) {
    const init = node.initializer; const c = node.condition && this.unparen(node.condition); const inc = node.incrementor && this.unparen(node.incrementor);
    if (!init || init.kind !== S.VariableDeclarationList || !c || !inc) return null;
    const d = init.declarations[0];
    if (d.name.kind !== S.Identifier || !d.initializer) return null;
    const name = d.name.text;
    const isI = (n) => n.kind === S.Identifier && n.text === name;
    // from the last element back to the first
    const dec = (inc.kind === S.PostfixUnaryExpression || inc.kind === S.PrefixUnaryExpression) && inc.operator === S.MinusMinusToken && isI(inc.operand)
      || inc.kind === S.BinaryExpression && inc.operatorToken.kind === S.MinusEqualsToken && isI(inc.left) && inc.right.kind === S.NumericLiteral && inc.right.text === '1';
    if (dec && c.kind === S.BinaryExpression) {
      const st = this.unparen(d.initializer); const r = this.unparen(c.right);
      const zero = r.kind === S.NumericLiteral && r.text === '0'; const neg = r.kind === S.PrefixUnaryExpression && r.operator === S.MinusToken && r.operand.kind === S.NumericLiteral && r.operand.text === '1';
      const ok = isI(this.unparen(c.left)) && (c.operatorToken.kind === S.GreaterThanEqualsToken && zero || c.operatorToken.kind === S.GreaterThanToken && neg);
      if (ok && st.kind === S.BinaryExpression && st.operatorToken.kind === S.MinusToken && st.right.kind === S.NumericLiteral && st.right.text === '1') return { d, rhs: st.left, back: true };
    }
    const incOk = (inc.kind === S.PostfixUnaryExpression || inc.kind === S.PrefixUnaryExpression) && inc.operator === S.PlusPlusToken && isI(inc.operand)
      || inc.kind === S.BinaryExpression && inc.operatorToken.kind === S.PlusEqualsToken && isI(inc.left) && inc.right.kind === S.NumericLiteral && inc.right.text === '1';
    if (!incOk || c.kind !== S.BinaryExpression) return null;
    let rhs;
    if ([S.LessThanToken, S.ExclamationEqualsEqualsToken, S.ExclamationEqualsToken].includes(c.operatorToken.kind) && isI(this.unparen(c.left))) rhs = c.right;
    else if (c.operatorToken.kind === S.GreaterThanToken && isI(this.unparen(c.right))) rhs = c.left;
    else return null;
    return { d, rhs };
  },
  execFor(node, env0) {
    const env = this.newEnv(env0);
    const il = this.indexLoop(node, env);
    if (node.initializer) {
      if (node.initializer.kind === S.VariableDeclarationList) this.execVars(node.initializer, env); else this.ev(node.initializer, env);
    }
    if (!this.st) return;
    if (il) {
      const cell = this.lookup(env, il.d);
      const i0 = this.st.cells.get(cell);
      const first = i0.length === 1 && i0[0].t === 'c' && Number.isInteger(i0[0].v) && i0[0].v >= 0 ? i0[0].v : -1;
      if (il.back || first >= 0) {
        const own = this.ownList(il.rhs, env);
        const bound = this.ev(il.rhs, env);
        if (!this.st) return;
        // only so many of them: up to a limit, or from a later one on
        let of = bound.length === 1 && bound[0].t === 'x' ? bound[0] : null; let cut = first > 0 ? CUT : undefined;
        if (of && of.op === 'call' && of.name === 'Math.min') {
          const ls = of.args.filter((v) => v.length === 1 && v[0].t === 'x' && v[0].op === 'len');
          if (ls.length === 1 && of.args.length > 1) { of = ls[0][0]; cut = CUT; }
        }
        if (of && of.op === 'len') {
          const src = of.base;
          const ctx = this.pushLoop('loop');
          const seg = { k: 'each', src: src.k, srcT: bare(src), v: own ? own.v : this.readElem(src, false), p: !(first > 0), flaw: il.back ? turned(REV, cut) : cut };
          this.runLoop([seg], (el, idx) => {
            this.iter(ctx, () => {
              const e2 = this.newEnv(env);
              this.declare(e2, il.d, idx);
              this.exec(node.statement, e2);
            });
            return [UNDEF];
          }, ctx);
          this.popLoop(ctx);
          return;
        }
      }
    }
    if (!il && node.condition && !node.incrementor && this.backWhile(node, env, node.condition)) return;
    this.execWhile(node, env, node.condition, node.incrementor, false);
  },
  // the elements of a list made here whose length bounds the loop
  ownList(n, env) {
    const q = this.unparen(n);
    if (q.kind !== S.PropertyAccessExpression || q.name.text !== 'length' || q.expression.kind !== S.Identifier) return null;
    const v = this.ev(q.expression, env);
    if (!this.st || v.length !== 1 || v[0].t !== 'ref') return null;
    const r = this.rec(v[0]);
    return r.k === 'array' && r.segs.length === 1 && r.segs[0].k === 'each' && r.segs[0].p === true && !r.segs[0].sized ? r.segs[0] : null;
  },
  // The statements of a loop body that are carried out in every iteration, or null.
  plain(body) {
    const list = body.kind === S.Block ? body.statements : [body];
    const jumps = (n) => n.kind === S.ContinueStatement || n.kind === S.BreakStatement || (!ts.isFunctionLike(n) && ts.forEachChild(n, (q) => jumps(q) || undefined));
    return { list, jumps: list.some((s) => jumps(s)) };
  },
  uses(n, name, f) {
    let c = 0;
    const go = (q) => { if (q.kind === S.Identifier && q.text === name && !(q.parent.kind === S.PropertyAccessExpression && q.parent.name === q) && !(q.parent.kind === S.PropertyAssignment && q.parent.name === q) && f(q)) c++; ts.forEachChild(q, go); };
    go(n);
    return c;
  },
  // `while (i < xs.length) { … i++; }` and `while (queue.length) { … queue.shift() … }`
  // an index counted down from a list's length: in the condition, or by the first statement of the body
  backWhile(node, env, cond) {
    const c = this.unparen(cond); const body = node.statement;
    const num = (n, t) => { const q = this.unparen(n); return q.kind === S.NumericLiteral && q.text === t; };
    const id = (n) => { const q = this.unparen(n); return q.kind === S.Identifier ? q : null; };
    const stepped = (n, post) => {
      const q = this.unparen(n);
      if ((q.kind === S.PrefixUnaryExpression || (post && q.kind === S.PostfixUnaryExpression)) && q.operator === S.MinusMinusToken) return id(q.operand);
      return q.kind === S.BinaryExpression && q.operatorToken.kind === S.MinusEqualsToken && num(q.right, '1') ? id(q.left) : null;
    };
    const postOf = (n) => { const q = this.unparen(n); return q.kind === S.PostfixUnaryExpression && q.operator === S.MinusMinusToken ? id(q.operand) : null; };
    const op = c.kind === S.BinaryExpression ? c.operatorToken.kind : 0;
    const nz = [S.GreaterThanToken, S.ExclamationEqualsEqualsToken, S.ExclamationEqualsToken].includes(op);
    let i = postOf(c); let end = -1; let list = body.kind === S.Block ? body.statements : [body];
    if (!i && nz && num(c.right, '0')) i = postOf(c.left);
    if (!i && op === S.GreaterThanEqualsToken && num(c.right, '0')) i = stepped(c.left, false);
    if (!i && list.length && list[0].kind === S.ExpressionStatement && (id(c) || (nz && num(c.right, '0')) || (op === S.GreaterThanEqualsToken && num(c.right, '1')))) {
      const w = id(c) || id(c.left); const d = stepped(list[0].expression, true);
      if (w && d && w.text === d.text) { i = w; end = 0; list = list.slice(1); }
    }
    if (!i) return false;
    const sym = this.checker.getSymbolAtLocation(i); const d = sym && sym.valueDeclaration; const cell = d && this.lookup(env, d);
    const i0 = cell !== undefined && d && this.st.cells.get(cell);
    if (!i0 || i0.length !== 1 || i0[0].t !== 'x' || i0[0].op !== 'len') return false;
    const same = (q) => this.checker.getSymbolAtLocation(q) === sym;
    const written = (q) => { const p = q.parent; return ((p.kind === S.PostfixUnaryExpression || p.kind === S.PrefixUnaryExpression) && (p.operator === S.MinusMinusToken || p.operator === S.PlusPlusToken)) || (p.kind === S.BinaryExpression && p.left === q && p.operatorToken.kind >= S.FirstAssignment && p.operatorToken.kind <= S.LastAssignment); };
    if (list.some((s) => this.uses(s, i.text, (q) => same(q) && written(q)))) return false;
    const src = i0[0].base; const ctx = this.pushLoop('loop');
    this.runLoop([{ k: 'each', src: src.k, srcT: bare(src), v: this.readElem(src, false), p: true, flaw: REV }], (el, idx) => {
      this.iter(ctx, () => { const e2 = this.newEnv(env); this.declare(e2, d, idx); if (list.length === 1 && list[0] === body) this.exec(body, e2); else { this.hoist(list, e2); this.execStmts(list, e2); } });
      return [UNDEF];
    }, ctx);
    if (this.st) this.st.cells.set(cell, [C(end)]);
    this.popLoop(ctx);
    return true;
  },
  listWhile(node, env, cond) {
    if (!cond || node.kind !== S.WhileStatement) return false;
    if (this.backWhile(node, env, cond)) return true;
    const c = this.unparen(cond);
    const { list, jumps } = this.plain(node.statement);
    if (jumps || !list.length) return false;
    const num = (n, t) => n.kind === S.NumericLiteral && n.text === t;
    const lenOf = (n) => { const q = this.unparen(n); return q.kind === S.PropertyAccessExpression && q.name.text === 'length' && q.expression.kind === S.Identifier ? q.expression : null; };
    const cell = (id) => { const sym = this.checker.getSymbolAtLocation(id); const d = sym && sym.valueDeclaration; return d && { d, cell: this.lookup(env, d) }; };
    // a queue emptied from one end
    let q = lenOf(c);
    if (!q && c.kind === S.BinaryExpression) {
      const op = c.operatorToken.kind;
      if ([S.GreaterThanToken, S.ExclamationEqualsEqualsToken, S.ExclamationEqualsToken].includes(op) && num(this.unparen(c.right), '0')) q = lenOf(c.left);
      if (op === S.LessThanToken && num(this.unparen(c.left), '0')) q = lenOf(c.right);
    }
    if (q) {
      const at = cell(q);
      const v = at && at.cell !== undefined && this.st.cells.get(at.cell);
      if (!v || v.length !== 1 || v[0].t !== 'ref') return false;
      const r = this.rec(v[0]);
      if (r.k !== 'array' || !r.segs.some((s) => s.k === 'each') || !r.segs.every((s) => (s.k === 'each' || s.k === 'el') && s.p === true)) return false;
      let take = null; let n = 0; let ok = true;
      for (const s of list) this.uses(s, q.text, (id) => {
        n++;
        const acc = id.parent; const cl = acc && acc.parent;
        if (acc.kind === S.PropertyAccessExpression && /^(shift|pop)$/.test(acc.name.text) && cl.kind === S.CallExpression && cl.expression === acc && !cl.arguments.length) take = { name: acc.name.text, call: cl }; else ok = false;
        return true;
      });
      if (!ok || n !== 1) return false;
      // taken exactly once per iteration
      for (let p = take.call.parent; p !== node.statement && p !== node; p = p.parent) if (ts.isFunctionLike(p) || [S.IfStatement, S.ConditionalExpression, S.ForStatement, S.ForOfStatement, S.ForInStatement, S.WhileStatement, S.DoStatement, S.SwitchStatement, S.TryStatement].includes(p.kind) || (p.kind === S.BinaryExpression && [S.AmpersandAmpersandToken, S.BarBarToken, S.QuestionQuestionToken].includes(p.operatorToken.kind) && p.left !== take.call)) return false;
      const segs = take.name === 'pop' ? this.reversed(r.segs) : r.segs;
      const ctx = this.pushLoop('loop');
      const save = this.taking; const a = v[0].a;
      this.runLoop(segs, (el) => {
        this.taking = new Map(save || []); this.taking.set(a, el);
        this.iter(ctx, () => this.exec(node.statement, this.newEnv(env)));
        return [UNDEF];
      }, ctx);
      this.taking = save;
      if (this.st) this.st.heap.set(a, { ...this.rec(v[0]), segs: [] });
      this.popLoop(ctx);
      return true;
    }
    // an index counted up at the end of the body
    if (c.kind !== S.BinaryExpression || ![S.LessThanToken, S.ExclamationEqualsEqualsToken].includes(c.operatorToken.kind) || this.unparen(c.left).kind !== S.Identifier) return false;
    const i = this.unparen(c.left);
    const at = cell(i);
    const i0 = at && at.cell !== undefined && this.st.cells.get(at.cell);
    if (!i0 || i0.length !== 1 || i0[0].t !== 'c' || i0[0].v !== 0) return false;
    const isI = (n) => n.kind === S.Identifier && n.text === i.text;
    const last = list[list.length - 1];
    const ex = last.kind === S.ExpressionStatement ? this.unparen(last.expression) : null;
    const steps = ex && ((ex.kind === S.PostfixUnaryExpression || ex.kind === S.PrefixUnaryExpression) && ex.operator === S.PlusPlusToken && isI(ex.operand)
      || ex.kind === S.BinaryExpression && ex.operatorToken.kind === S.PlusEqualsToken && isI(ex.left) && num(ex.right, '1'));
    let inner = null;
    for (const s of list) this.uses(s, i.text, (id) => { const p = id.parent; if ((p.kind === S.PostfixUnaryExpression) && p.operator === S.PlusPlusToken) inner = inner ? false : p; else if (p.kind === S.PrefixUnaryExpression && /PlusPlus|MinusMinus/.test(S[p.operator]) || p.kind === S.BinaryExpression && p.left === id && p.operatorToken.kind >= S.FirstAssignment && p.operatorToken.kind <= S.LastAssignment) { if (!(steps && p === ex)) inner = false; } return true; });
    if (inner === false || (!steps && !inner) || (steps && inner && inner !== ex)) return false;
    if (!steps && list.reduce((n, s) => n + this.uses(s, i.text, () => true), 0) !== 1) return false;
    const own = this.ownList(c.right, env);
    const bound = this.ev(c.right, env);
    if (!this.st) return true;
    if (bound.length !== 1 || bound[0].t !== 'x' || bound[0].op !== 'len') return false;
    const src = bound[0].base;
    const ctx = this.pushLoop('loop');
    this.runLoop([{ k: 'each', src: src.k, srcT: bare(src), v: own ? own.v : this.readElem(src, false), p: true }], (el, idx) => {
      this.iter(ctx, () => {
        const e2 = this.newEnv(env);
        this.declare(e2, at.d, idx);
        this.exec(node.statement, e2);
      });
      return [UNDEF];
    }, ctx);
    if (this.st) this.st.cells.set(at.cell, bound);
    this.popLoop(ctx);
    return true;
  },
  execWhile(node, env, cond, inc, doFirst) {
    if (this.listWhile(node, env, cond)) return;
    const ctx = this.pushLoop('loop');
    let exit = null; let n = 0; let und = 0; let prev = null; const sent = this.st ? this.st.nfetch : 0;
    for (;;) {
      if (!this.st) break;
      if (++n > 40 || und > 8) { if (this.st.nfetch === sent) this.cut = true; this.unknown('unbounded loop', node); exit = this.joinR(exit, this.st); break; }
      if (!(doFirst && n === 1)) {
        let t; let f;
        if (cond) { [t, f] = this.cond(cond, env); } else { t = this.st; f = null; }
        exit = this.joinR(exit, f);
        this.st = t;
        if (!t) break;
        if (f) und++;
      }
      const key = this.stateKey();
      if (prev !== null && key === prev) { this.st = null; break; }
      prev = key;
      this.iter(ctx, () => this.exec(node.statement, this.newEnv(env)));
      if (this.st && inc) this.ev(inc, env);
    }
    this.st = exit;
    this.popLoop(ctx);
  },
  stateKey() {
    const st = this.st;
    return `${[...st.cells].filter(([k]) => typeof k === 'string').map(([k, v]) => `${k}=${vkey(v)}`).join(';')}#${[...st.heap].map(([a, r]) => `${a}:${this.recKey(r)}`).join(';')}#${st.nfetch}`;
  },
  execSwitch(node, env0) {
    const env = this.newEnv(env0);
    const disc = this.ev(node.expression, env);
    if (!this.st) return;
    const ctx = this.pushLoop('switch');
    let cur = this.st;
    const entries = [];
    for (const cl of node.caseBlock.clauses) {
      if (cl.kind === S.DefaultClause) { entries.push(null); continue; }
      this.st = cur;
      if (!cur) { entries.push(null); continue; }
      const v = this.ev(cl.expression, env);
      if (!this.st) { cur = null; entries.push(null); continue; }
      const [t, f] = this.splitTruth(this.cross(disc, v, (a, b) => this.equals(a, b, false)));
      entries.push(t); cur = f;
    }
    const di = node.caseBlock.clauses.findIndex((cl) => cl.kind === S.DefaultClause);
    if (di >= 0) { entries[di] = cur; cur = null; }
    let fall = null;
    node.caseBlock.clauses.forEach((cl) => this.hoist(cl.statements, env));
    node.caseBlock.clauses.forEach((cl, i) => {
      this.st = this.joinR(fall, entries[i]);
      for (const s of cl.statements) { if (!this.st) break; this.exec(s, env); }
      fall = this.st;
    });
    this.st = this.joinR(fall, cur);
    this.popLoop(ctx);
  },
  execTry(node, env) {
    const saveH = this.handlers; const act = this.act; const loops = this.loops || [];
    const fin = node.finallyBlock;
    const F = fin ? { list: [] } : null;
    const hs = fin ? saveH.concat([F]) : saveH;
    const mark = act ? act.returns.length : 0;
    const lm = loops.map((l) => [l.breaks.length, l.continues.length]);
    if (fin && act) act.finallyDepth = (act.finallyDepth || 0) + 1;
    const H = { list: [] };
    this.handlers = node.catchClause ? hs.concat([H]) : hs;
    this.execStmts(node.tryBlock.statements, this.newEnv(env));
    let after = this.st;
    this.handlers = hs;
    if (node.catchClause && H.list.length) {
      let acc = null; const vs = [];
      for (const t of H.list) { acc = this.joinR(acc, t.st); vs.push(t.v); }
      this.st = acc;
      const e2 = this.newEnv(env);
      const vd = node.catchClause.variableDeclaration;
      if (vd) this.bindPattern(vd.name, union(...vs), e2, vd);
      if (this.st) this.execStmts(node.catchClause.block.statements, e2);
      after = this.joinR(after, this.st);
    }
    this.handlers = saveH;
    if (!fin) { this.st = after; return; }
    if (act) act.finallyDepth--;
    const runFin = (st) => { this.st = st; this.execStmts(fin.statements, this.newEnv(env)); return this.st; };
    // abrupt completions pass through the finally block
    if (act) {
      for (const r of act.returns.splice(mark)) { const s = runFin(r.st.clone()); if (s) act.returns.push({ st: s, v: r.v }); }
    }
    loops.forEach((l, i) => {
      for (const s0 of l.breaks.splice(lm[i][0])) { const s = runFin(s0.clone()); if (s) l.breaks.push(s); }
      for (const s0 of l.continues.splice(lm[i][1])) { const s = runFin(s0.clone()); if (s) l.continues.push(s); }
    });
    for (const t of F.list) { const s = runFin(t.st.clone()); if (s) { this.st = s; this.throwVal(t.v); } }
    if (after) runFin(after); else this.st = null;
  },
};
Object.assign(Interp.prototype, Stmts);
