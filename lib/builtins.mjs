// Abstract interpreter, part 5: globals and builtin functions.
import { CUT } from './objects.mjs';
import { ts, loc } from './program.mjs';
import { C, UNDEF, NULL, TOP, TRUE, FALSE, akey, join, union, vkey, NULLISH, FALSY, JSONKINDS } from './domain.mjs';
import { X, bare, call, elem, prop, root, bool, pred, not } from './terms.mjs';
import { Interp } from './core.mjs';

const S = ts.SyntaxKind;
const NS = new Set(['JSON', 'Math', 'console', 'globalThis', 'Reflect', 'Intl', 'crypto', 'performance', 'Atomics', 'self', 'global']);
const GLOBALS = new Set(('Object Array String Number Boolean Symbol Function Promise Map Set WeakMap WeakSet WeakRef Date RegExp BigInt Proxy ' +
  'Error TypeError RangeError SyntaxError ReferenceError URIError EvalError AggregateError DOMException ' +
  'JSON Math console globalThis Reflect Intl crypto performance ' +
  'fetch Headers Request Response FormData URLSearchParams URL Blob File AbortController AbortSignal TextEncoder TextDecoder ReadableStream ' +
  'Uint8Array ArrayBuffer DataView Int8Array Uint16Array Uint32Array Float64Array ' +
  'encodeURIComponent decodeURIComponent encodeURI decodeURI escape unescape parseInt parseFloat isNaN isFinite atob btoa structuredClone ' +
  'setTimeout clearTimeout setInterval clearInterval setImmediate queueMicrotask Buffer').split(' '));
const ERRS = new Set(['Error', 'TypeError', 'RangeError', 'SyntaxError', 'ReferenceError', 'URIError', 'EvalError', 'AggregateError', 'DOMException']);
export const RESP = new Set(['text', 'json', 'arrayBuffer', 'blob', 'bytes', 'formData']);
const one = (v) => (v && v.length === 1 ? v[0] : null);
const cst = (v) => (v && v.length === 1 && v[0].t === 'c' ? v[0].v : undefined);

export const Builtins = {
  globalVal(name, node, typeofOnly) {
    switch (name) {
      case 'undefined': return [UNDEF];
      case 'NaN': return [C(NaN)];
      case 'Infinity': return [C(Infinity)];
      case 'global': case 'self': return this.maybeGlobal(name, node, typeofOnly);
      default:
    }
    if (GLOBALS.has(name)) return [{ t: 'bi', name }];
    return this.maybeGlobal(name, node, typeofOnly);
  },
  maybeGlobal(name, node, typeofOnly) {
    const x = X('root', name, { kinds: new Set(name === 'process' ? ['obj'] : ['undef', 'obj']), glob: true });
    if (typeofOnly) return [x];
    const ks = this.kindsOf(x);
    if (![...ks].some((k) => NULLISH.has(k))) return [x];
    // reading a variable that does not exist is a ReferenceError
    const parts = this.splitNullish([x]);
    return this.merge(parts.map(([a, s, isN]) => [s, () => (isN ? this.throwError('ReferenceError', [C(`${name} is not defined`)]) : [a])]));
  },
  builtinProp(a, name, node) {
    if (a.name === 'globalThis' || a.name === 'self' || a.name === 'global') {
      if (GLOBALS.has(name)) return [{ t: 'bi', name }];
      return [X('root', name, { kinds: new Set(name === 'process' ? ['obj'] : ['undef', 'obj']), glob: true })];
    }
    if (a.name === 'Number') {
      if (typeof Number[name] === 'number') return [C(Number[name])];
    }
    if (a.name === 'Math' && typeof Math[name] === 'number') return [C(Math[name])];
    if (name === 'name' && !NS.has(a.name)) return [C(a.name)];
    if (name === 'prototype') return [{ t: 'bi', name: `${a.name}.prototype` }];
    if (name === 'length') return this.topv('length of builtin', node);
    if (a.name === 'Symbol') return [C(`@@${name}`)];
    if (['call', 'apply', 'bind'].includes(name)) return [{ t: 'bm', recv: a, name }];
    return [{ t: 'bi', name: `${a.name}.${name}` }];
  },
  // async-like block: collects fulfilments and rejections into a promise, or, when
  // the promise is awaited on the spot (mode), sends rejections to that handler
  asyncBlock(mode, run) {
    const saveH = this.handlers; const H = { list: [] };
    this.handlers = saveH.concat([H]);
    const idx = this.handlers.length - 1;
    const oks = [];
    run((v) => { if (!this.st) return; const w = this.awaitVal(v, idx); if (this.st) oks.push({ st: this.st, v: w }); }, idx);
    this.handlers = saveH;
    if (mode !== undefined) { for (const t of H.list) this.handlers[mode].list.push(t); return this.joinReturns(oks); }
    let acc = null;
    for (const r of oks) acc = join(acc, r.st);
    for (const t of H.list) acc = join(acc, t.st);
    this.st = acc;
    if (!acc) return [];
    return [this.promise(oks.length ? union(...oks.map((r) => r.v)) : [], H.list.length ? union(...H.list.map((t) => t.v)) : [])];
  },
  thenPromise(r, f, g, node, mode) {
    const isF = (v) => v && v.some((a) => ['fn', 'host', 'bi', 'bm', 'x'].includes(a.t));
    return this.asyncBlock(mode, (push, idx) => {
      const base = this.st;
      let okS = r.ok.length ? base.clone() : null; let errS = r.err.length ? base.clone() : null;
      if (r.dec && okS && errS) {
        this.note(r.dec);
        this.st = okS; this.refineTruth(r.dec, true); okS = this.st;
        this.st = errS; this.refineTruth(r.dec, false); errS = this.st;
      }
      if (this.onAwait) { for (const s of [okS, errS]) if (s) { this.st = s; this.onAwait(); } }
      if (okS) {
        this.st = okS;
        const v = this.awaitVal(r.ok, idx);
        if (this.st) push(isF(f) ? this.callVal(f, [UNDEF], [v], node, idx) : v);
      }
      if (errS) {
        this.st = errS;
        if (isF(g)) push(this.callVal(g, [UNDEF], [r.err], node, idx)); else this.throwVal(r.err, idx);
      }
      this.st = null;
    });
  },
  promiseMethod(r, name, args, node, mode) {
    if (name === 'then') return this.thenPromise(r, args[0], args[1], node, mode);
    if (name === 'catch') return this.thenPromise(r, null, args[0], node, mode);
    if (name === 'finally') {
      const self = this;
      const okF = [{ t: 'host', id: `fin${this.fresh()}`, f: (as) => { const w = self.callVal(args[0], [UNDEF], [], node); if (self.st) self.awaitVal(w); return self.st ? as[0] : []; } }];
      const errF = [{ t: 'host', id: `fin${this.fresh()}`, f: (as) => { const w = self.callVal(args[0], [UNDEF], [], node); if (self.st) self.awaitVal(w); return self.st ? self.throwVal(as[0]) : []; } }];
      return this.thenPromise(r, okF, errF, node, mode);
    }
    return this.topv(`promise.${name}`, node);
  },
  strOf(v) { // String(v): a value of string type
    return union(...this.toStr(v).map((a) => (a.t === 'x' ? [this.mkStr([a])] : [a])));
  },
  // keys / values / entries of an object
  keySegs(o, what, node, forIn) {
    const wrap = (k, v) => (what === 'keys' ? k : what === 'values' ? v() : [{ t: 'tup', items: [k, v()] }]);
    if (o.length !== 1) {
      const all = o.map((a) => this.keySegs([a], what, node, forIn));
      return all.flat().map((s) => ({ ...s, p: false }));
    }
    const a = o[0];
    switch (a.t) {
      case 'c':
        if (a.v === undefined || a.v === null) { if (!forIn) this.throwError('TypeError'); return []; }
        if (typeof a.v === 'string') return [...a.v].map((ch, i) => ({ k: 'el', v: wrap([C(String(i))], () => [C(ch)]), p: true }));
        return [];
      case 'x': {
        let ks = [...this.kindsOf(a)];
        if (ks.some((k) => NULLISH.has(k))) {
          if (!forIn) { this.nonNull([a]); if (!this.st) return []; ks = [...this.kindsOf(a)]; } else if (ks.every((k) => NULLISH.has(k))) return [];
          else { this.note(a); return this.keySegs([{ ...a, rk: new Set(ks.filter((k) => !NULLISH.has(k))) }], what, node, false).map((s) => ({ ...s, p: false })); }
        }
        if (ks.every((k) => k === 'arr' || k === 'earr')) {
          const idx = { t: 'idx', src: a.k };
          return [{ k: 'each', src: a.k, srcT: bare(a), v: wrap([call('String', [[idx]], 'nstr')], () => this.readElem(a, false)), p: true }];
        }
        if (!ks.every((k) => k === 'obj' || k === 'fn')) {
          if (ks.some((k) => k === 'obj')) this.note(a);
          if (ks.every((k) => ['true', 'false', 'num', 'zero', 'estr'].includes(k) || k.startsWith('inst:'))) return [];
          return [{ k: 'unk', v: [TOP('keys')], p: false, why: `keys of ${a.k}` }];
        }
        const { names, open } = this.declaredProps(a);
        if (!open) {
          const out = [];
          for (const n of names) {
            const p = prop(a, n); const pk = this.kindsOf(p);
            const over = this.st.over.has(p.k);
            if (!over && pk.size === 1 && pk.has('absent')) continue;
            const may = !over && pk.has('absent');
            out.push({ k: 'el', v: wrap([C(n)], () => (over ? this.st.over.get(p.k) : [may ? { ...p, rk: new Set([...pk].filter((k) => k !== 'absent')) } : p])), p: may ? p.k : true, mt: may ? p : undefined });
          }
          return out;
        }
        return [{
          k: 'each', src: `keys ${a.k}`, srcT: X('okeys', `keys(${a.k})`, { base: bare(a), kinds: new Set(['arr', 'earr']) }),
          v: wrap([X('key', `key(${a.k})`, { base: bare(a) })], () => [X('val', `${a.k}{*}`, { base: bare(a) })]), p: true,
        }];
      }
      case 'ref': {
        const r = this.rec(a);
        if (r.k === 'array') return r.segs.map((s, i) => ({ ...s, v: wrap([s.k === 'el' ? C(String(i)) : call('String', [[{ t: 'idx', src: s.src }]], 'nstr')], () => s.v) }));
        if (r.k !== 'obj') return [];
        const items = [...r.m].filter(([k]) => !k.startsWith('#')).map(([k, e]) => ({ k, e, seq: e.seq })).concat(r.rest.map((q) => ({ q, seq: q.seq }))).sort((x, y) => x.seq - y.seq);
        const out = [];
        for (const it of items) {
          if (it.e) {
            const v = it.e.get ? this.callFn(it.e.get, [a], [], node) : it.e.v;
            if (!this.st) return out;
            if (it.e.mt) {
              const pk = this.kindsOf(it.e.mt);
              if (pk.size === 1 && pk.has('absent')) continue;
              out.push({ k: 'el', v: wrap([C(it.k)], () => v), p: pk.has('absent') ? it.e.p : true, mt: pk.has('absent') ? it.e.mt : undefined });
            } else out.push({ k: 'el', v: wrap([C(it.k)], () => v), p: it.e.p });
            continue;
          }
          const q = it.q;
          if (q.dyn) { out.push({ k: 'el', v: wrap(q.key, () => q.val), p: q.p }); continue; }
          if (q.declared && !q.open) continue;
          if (!q.srcT) { out.push({ k: 'unk', v: [TOP('rest')], p: false }); continue; }
          out.push({
            k: 'each', src: `keys ${q.src}`, srcT: X('okeys', `keys(${q.src})`, { base: q.srcT, kinds: new Set(['arr', 'earr']) }),
            v: wrap([X('key', `key(${q.src})`, { base: q.srcT })], () => [X('val', `${q.src}{*}`, { base: q.srcT })]), p: q.without || (q.declared && q.declared.length) ? false : q.p,
          });
        }
        return out;
      }
      case 'top': return [{ k: 'unk', v: [a], p: false, why: 'keys of unknown' }];
      case 'bi': case 'cls': case 'ext': case 'exto': return [{ k: 'unk', v: [TOP('keys')], p: false, why: 'keys of exotic' }];
      default: return [];
    }
  },
  unmat(v, json) {
    return v.map((a) => {
      if (a.t === 'o') {
        const m = new Map();
        for (const [k, e] of a.m) {
          if (json) {
            // JSON has no undefined: such members are gone
            const live = e.v.filter((q) => !(q.t === 'c' && q.v === undefined));
            if (!live.length) continue;
            if (live.length < e.v.length) { m.set(k, { ...e, p: false, mt: undefined, v: this.unmat(live, json) }); continue; }
            const x = e.v.length === 1 && e.v[0].t === 'x' ? e.v[0] : null;
            const ks = x ? this.kindsOf(x) : null;
            if (x && ['undef', 'absent'].some((q) => ks.has(q))) { m.set(k, { ...e, p: e.p === true || e.p === x.k ? x.k : false, mt: e.p === true ? bare(x) : e.mt }); continue; }
          }
          m.set(k, { ...e, v: this.unmat(e.v, json) });
        }
        let seq = 0; for (const e of [...m.values(), ...a.rest]) seq = Math.max(seq, e.seq + 1);
        return this.alloc({ k: 'obj', m, rest: a.rest, seq });
      }
      if (a.t === 'a') return this.alloc({ k: 'array', segs: a.segs.map((s) => ({ ...s, v: this.unmat(s.v, json) })) });
      if (['hdr', 'usp', 'form', 'map', 'set'].includes(a.t)) return this.alloc({ k: a.t, ops: a.ops });
      return a;
    });
  },
  encAtom(a) {
    switch (a.t) {
      case 'c': return C(encodeURIComponent(String(a.v)));
      case 's': return this.mkStr(a.parts.map((p) => (typeof p === 'string' ? C(encodeURIComponent(p)) : this.encAtom(p))));
      case 'x': return X('enc', `enc(${a.k})`, { base: bare(a) });
      case 'top': return a;
      default: return call('encodeURIComponent', [[a]], 'nstr');
    }
  },
  callBuiltin(name, thisV, args, node, mode) {
    const a0 = args[0]; const a1 = args[1];
    const def = (v) => v || [UNDEF];
    if (name.startsWith('console.')) {
      this.st.eff.push({ k: 'log', name, args: args.map((v) => this.mat(v)), at: loc(node) });
      return [UNDEF];
    }
    if (args.some((v) => v.spreadSegs) && !['Object.assign', 'Promise.all', 'Array.of', 'Math.max', 'Math.min', 'String.fromCharCode'].includes(name)) return this.unknown(`spread arguments to ${name}`, node);
    if (ERRS.has(name)) return this.constructBuiltin(name, args, node);
    switch (name) {
      case 'fetch': return this.doFetch(args, node);
      case 'String': return a0 ? this.strOf(a0) : [C('')];
      case 'Number': return union(...def(a0).map((a) => (a.t === 'c' ? [C(Number(a.v))] : a.t === 'x' && [...this.kindsOf(a)].every((k) => k === 'num' || k === 'zero') ? [a] : a.t === 'top' ? [a] : [call('Number', [this.mat([a])], 'num')])));
      case 'Boolean': return union(...def(a0).map((a) => {
        const t = this.truth(a);
        if (t !== null) return [C(t)];
        if (a.t === 'x') return a.op === 'bool' || a.op === 'pred' || a.op === 'not' ? [a] : [not(not(a))];
        this.note(a);
        return a.t === 'top' ? [a] : [bool(`truthy(${akey(a)})`)];
      }));
      case 'parseInt': case 'parseFloat': case 'Number.parseInt': case 'Number.parseFloat':
        return this.pure1(name, args, (x, y) => (name.endsWith('Int') ? parseInt(x, y) : parseFloat(x)), 'num');
      case 'isNaN': case 'Number.isNaN': return this.pure1(name, args, (x) => Number.isNaN(x), 'bool');
      case 'isFinite': case 'Number.isFinite': return this.pure1(name, args, (x) => Number.isFinite(x), 'bool');
      case 'Number.isInteger': case 'Number.isSafeInteger': return this.pure1(name, args, (x) => Number.isInteger(x), 'bool');
      case 'encodeURIComponent': return union(...this.toStr(def(a0)).map((a) => [this.encAtom(a)]));
      case 'encodeURI': case 'decodeURIComponent': case 'decodeURI': case 'escape': case 'unescape': case 'atob': case 'btoa':
        return union(...this.toStr(def(a0)).map((a) => (a.t === 'top' ? [a] : a.t === 'c' ? [C(globalThis[name](a.v))] : [call(name, [[a]], 'str')])));
      case 'structuredClone': return this.unmat(this.mat(def(a0)));
      case 'setTimeout': case 'setImmediate': case 'queueMicrotask': case 'setInterval':
        this.st.eff.push({ k: 'timer', name, at: loc(node) });
        { const t = this.inTimer; this.inTimer = true; this.callVal(def(a0), [UNDEF], args.slice(2), node); this.inTimer = t; }
        return [X('root', 'timer', { kinds: new Set(['obj']) })];
      case 'clearTimeout': case 'clearInterval': return [UNDEF];
      case 'Symbol': return [C(`@@${this.fresh()}`)];
      case 'JSON.stringify': return this.jsonStringify(args, node);
      case 'JSON.parse': return this.jsonParse(def(a0), args[1], node);
      case 'Object.keys': case 'Object.getOwnPropertyNames': case 'Reflect.ownKeys': return this.newArrSegs(this.keySegs(def(a0), 'keys', node));
      case 'Object.values': return this.newArrSegs(this.keySegs(def(a0), 'values', node));
      case 'Object.entries': return this.newArrSegs(this.keySegs(def(a0), 'entries', node));
      case 'Object.fromEntries': {
        const segs = this.iterSegs(def(a0), node);
        if (!this.st) return [];
        const r = this.newObj();
        this.runLoop(segs, (el) => {
          const k = this.indexOf(el, 0, node); const v = this.indexOf(el, 1, node);
          if (this.st) this.initProp(r, k, v, node);
          return [UNDEF];
        });
        return this.st ? [r] : [];
      }
      case 'Object.assign': return this.forEachAlt(def(a0), (t) => this.objAssign(t, args.slice(1), node));
      case 'Object.freeze': case 'Object.seal': case 'Object.preventExtensions':
        for (const a of def(a0)) if (a.t === 'x' && [...this.kindsOf(a)].some((k) => k === 'obj' || k === 'arr')) this.st.eff.push({ k: 'mutate', target: `${name}(${a.k})`, x: bare(a), name: null, at: loc(node), value: [] });
        for (const a of def(a0)) if (a.t === 'ref' && name === 'Object.freeze') { const r = this.rec(a); if (r.k === 'obj') this.st.heap.set(a.a, { ...r, frozen: true }); }
        return def(a0);
      case 'Object.create': {
        const a = one(a0);
        if (a && a.t === 'c' && a.v === null) return [this.newObj()];
        return this.unknown('Object.create', node);
      }
      case 'Object.defineProperty': {
        const v = this.getProp(def(args[2]), 'value', node);
        if (!this.st) return [];
        this.forEachAlt(def(a0), (a) => { this.setProp(a, def(a1), v, node); return []; });
        return def(a0);
      }
      case 'Object.hasOwn': return this.cross(def(a1), def(a0), (k, o) => this.hasIn(k, o, node));
      case 'Object.is': return this.cross(def(a0), def(a1), (x, y) => this.equals(x, y, false));
      case 'Object.getPrototypeOf': case 'Object.getOwnPropertyDescriptor': case 'Object.getOwnPropertySymbols': return this.topv(name, node);
      case 'Object.setPrototypeOf': return def(a0);
      case 'Error.captureStackTrace': return [UNDEF];
      case 'Array.isArray': return union(...def(a0).map((a) => {
        if (a.t === 'ref') return [C(this.rec(a).k === 'array')];
        if (a.t === 'tup') return [TRUE];
        if (a.t === 'x') return this.simp(pred(a, ['arr', 'earr']), a);
        if (a.t === 'top') return [a];
        return [FALSE];
      }));
      case 'Array.of': return [this.newArr(this.argSegs(args))];
      case 'Array.from': {
        const segs = this.iterSegs(def(a0), node);
        if (!this.st) return [];
        if (!a1 || cst(a1) !== undefined || one(a1) === UNDEF) return [this.newArr(segs)];
        const out = this.runLoop(segs, (el, i) => this.callVal(a1, [UNDEF], [el, i], node));
        return this.st ? [this.newArr(out)] : [];
      }
      case 'Promise.resolve': return this.forEachAlt(def(a0), (a) => (a.t === 'ref' && this.rec(a).k === 'promise' ? [a] : [this.promise([a])]));
      case 'Promise.reject': return [this.promise([], def(a0))];
      case 'Promise.all': return this.asyncBlock(mode, (push, idx) => {
        const segs = args[0] && args[0].spreadSegs ? args[0].spreadSegs : this.iterSegs(def(a0), node);
        if (!this.st) return;
        const out = this.runLoop(segs, (el) => this.awaitVal(el, idx));
        if (this.st) push([this.newArr(out.map((s) => ({ ...s, src0: undefined })))]);
      });
      case 'Promise.allSettled': return this.asyncBlock(mode, (push) => {
        const segs = this.iterSegs(def(a0), node);
        if (!this.st) return;
        const out = this.runLoop(segs, (el) => {
          const H = { list: [] }; const save = this.handlers; this.handlers = save.concat([H]);
          const v = this.awaitVal(el, this.handlers.length - 1);
          this.handlers = save;
          const brs = H.list.map((t) => [t.st, () => [this.objOf([['status', [C('rejected')]], ['reason', t.v]])]]);
          if (this.st) brs.push([this.st, () => [this.objOf([['status', [C('fulfilled')]], ['value', v]])]]);
          return this.merge(brs);
        });
        if (this.st) push([this.newArr(out)]);
      });
      case 'Promise.race': case 'Promise.any': return this.asyncBlock(mode, (push, idx) => {
        const segs = this.iterSegs(def(a0), node);
        if (!this.st) return;
        const base = this.st; let any = false;
        // against a timer, which comes first is the schedule's choice
        const timed = name === 'Promise.race' && segs.length > 1 && segs.every((s) => s.k === 'el') && segs.some((s) => s.v.some((a) => a.t === 'ref' && (this.rec(a) || {}).timed));
        let st0 = base;
        segs.forEach((s, i) => {
          if (!st0) return;
          this.st = st0.clone();
          if (s.k === 'unk') return;
          any = true;
          if (timed && i < segs.length - 1) { const [t, f] = this.splitTruth([bool(`first:${loc(node)}#${i}`)]); st0 = f; this.st = t; if (!t) return; }
          push(this.awaitVal(s.v, idx));
        });
        this.st = base;
        if (!any) push(this.topv('race', node));
        this.st = null;
      });
      case 'Buffer.from': {
        return [call('Buffer.from', args.map((v) => this.mat(v)), 'inst:Buffer')];
      }
      case 'Buffer.isBuffer': return union(...def(a0).map((a) => this.instOf(a, { t: 'bi', name: 'Buffer' }, node)));
      case 'Buffer.concat': case 'Buffer.alloc': return [call(name, args.map((v) => this.mat(v)), 'inst:Buffer')];
      case 'ArrayBuffer.isView': return union(...def(a0).map((a) => this.instOf(a, { t: 'bi', name: 'Uint8Array' }, node)));
      case 'Date.now': case 'performance.now': case 'Math.random': return [X('call', `${name}()#${this.fresh()}`, { name, args: [], res: 'num' })];
      case 'crypto.randomUUID': return [X('call', `${name}()#${this.fresh()}`, { name, args: [], res: 'nstr' })];
      case 'AbortSignal.timeout': case 'AbortSignal.any': return [call(name, args.map((v) => this.mat(v)), 'inst:AbortSignal')];
      case 'Symbol.for': return [C(`@@${cst(a0)}`)];
      case 'Date': return [X('call', `Date()#${this.fresh()}`, { name, args: [], res: 'nstr' })];
      case 'Array': case 'Object': return this.constructBuiltin(name, args, node);
      case 'Date.parse': case 'Date.UTC': return [call(name, args.map((v) => this.mat(v)), 'num')];
      case 'Reflect.get': return this.getKey(def(a0), def(a1), node);
      case 'Reflect.has': return this.cross(def(a1), def(a0), (k, o) => this.hasIn(k, o, node));
      case 'Reflect.set': this.forEachAlt(def(a0), (a) => { this.setProp(a, def(a1), def(args[2]), node); return []; }); return [TRUE];
      case 'Reflect.apply': { const segs = this.iterSegs(def(args[2]), node); return this.st ? this.callVal(def(a0), def(a1), segs.map((s) => s.v), node, mode) : []; }
      case 'Symbol.iterator': return this.topv(name, node);
      default:
    }
    if (name.startsWith('Math.')) {
      if (args.length && args.every((v) => typeof cst(v) === 'number')) return [C(Math[name.slice(5)](...args.map(cst)))];
      return [call(name, args.map((v) => this.mat(v)), 'num')];
    }
    const proto = /^(\w+)\.prototype\.(\w+)$/.exec(name);
    if (proto) return this.forEachAlt(thisV, (a) => (a.t === 'top' ? [a] : this.callMethod(a, proto[2], args, node, mode)));
    if (name === 'String.fromCharCode') return [call(name, args.map((v) => this.mat(v)), 'nstr')];
    if (name === 'BigInt') return def(a0);
    if (['Headers', 'FormData', 'URLSearchParams', 'Map', 'Set', 'URL', 'Blob', 'Promise'].includes(name)) return this.throwError('TypeError');
    return this.unknown(`call of ${name}`, node);
  },
  newArrSegs(segs) { return this.st ? [this.newArr(segs)] : []; },
  argSegs(args) {
    const out = [];
    for (const v of args) { if (v.spreadSegs) out.push(...v.spreadSegs.map((s) => (s.pre ? { ...s, pre: undefined } : s))); else out.push({ k: 'el', v, p: true }); }
    return out;
  },
  pure1(name, args, f, res) {
    if (args.length && args.every((v) => v.length === 1 && v[0].t === 'c')) return [C(f(...args.map((v) => v[0].v)))];
    if (args.some((v) => v.some((a) => a.t === 'top'))) return [TOP(name)];
    return [call(name, args.map((v) => this.mat(v)), res)];
  },
  objAssign(t, srcs, node) {
    if (t.t === 'ref' && this.rec(t).k === 'obj') {
      if (t.a <= this.setupMark) this.st.eff.push({ k: 'swrite', target: `#${t.a}`, addr: t.a, name: '{}', at: loc(node), value: srcs.flatMap((v) => this.mat(v)) });
      for (const s of srcs) {
        if (!this.st) return [];
        if (s.spreadSegs) { this.runLoop(s.spreadSegs, (el) => { this.spreadInto(t, el, node); return [UNDEF]; }); continue; }
        this.spreadInto(t, s, node);
      }
      return this.st ? [t] : [];
    }
    if (t.t === 'x') {
      const v = srcs.flatMap((s) => this.mat(s));
      this.st.eff.push({ k: 'mutate', target: `${t.k}{…}`, x: bare(t), name: null, at: loc(node), value: v });
      for (const s of srcs) for (const a of s) {
        if (a.t === 'ref' && this.rec(a).k === 'obj') for (const [k, e] of this.rec(a).m) this.st.over.set(prop(t, k).k, e.p === true ? e.v : union(e.v, [prop(t, k)]));
      }
      return [t];
    }
    return this.unknown('Object.assign', node);
  },
  jsonStringify(args, node) {
    const rep = args[1] && one(args[1]);
    if (args[1] && !(rep && rep.t === 'c' && (rep.v === undefined || rep.v === null))) {
      const tree = rep && rep.t === 'ref' ? this.mat([rep])[0] : null;
      const names = tree && tree.t === 'a' && tree.segs.every((s) => s.k === 'el' && s.p === true && s.v.length === 1 && s.v[0].t === 'c') ? new Set(tree.segs.map((s) => String(s.v[0].v))) : null;
      if (!rep || !(rep.t === 'fn' || names)) return this.topv('JSON.stringify with replacer', node);
      const holder = this.alloc({ k: 'obj', m: new Map(), rest: [], seq: 0 });
      const v = this.jsonReplace(args[0] || [UNDEF], [C('')], [holder].flat(), names || rep, node, 0);
      if (!this.st) return [];
      args = [v];
    }
    return this.forEachAlt(args[0] || [UNDEF], (a) => {
      if (a.t === 'c') return [a.v === undefined ? UNDEF : C(JSON.stringify(a.v))];
      if (a.t === 'fn' || a.t === 'bi' || a.t === 'cls') return [UNDEF];
      if (a.t === 'top') return [a];
      return [{ t: 'json', tree: this.mat([a]) }];
    });
  },
  // what JSON.stringify's replacer leaves of a value: applied to every member of
  // what this program built; to a caller's value as a whole and to some member of it
  jsonReplace(v, key, holder, rep, node, depth) {
    if (!this.st) return [];
    if (depth > 12) return this.topv('JSON.stringify of a deep structure', node);
    if (!(rep instanceof Set)) v = this.callFn(rep, holder, [key, v], node);
    if (!this.st) return [];
    return this.forEachAlt(v, (a) => {
      if (a.t === 'x') return this.jsonReplaceTerm(a, rep, node);
      if (a.t !== 'ref') return [a];
      const r = this.rec(a);
      if (r.k === 'array') {
        const segs = [];
        let i = 0;
        for (const s of r.segs) {
          if (!this.st) return [];
          segs.push({ ...s, v: this.jsonReplace(s.v, s.k === 'el' ? [C(String(i++))] : this.someKey(), [a], rep, node, depth + 1) });
        }
        return this.st ? this.alloc2({ k: 'array', segs }) : [];
      }
      if (r.k !== 'obj') return [a];
      const m = new Map();
      for (const [k, e] of r.m) {
        if (!this.st) return [];
        if (rep instanceof Set && !rep.has(k)) continue;
        const val = e.get ? this.callFn(e.get, [a], [], node) : e.v;
        m.set(k, { ...e, get: undefined, v: this.jsonReplace(val, [C(k)], [a], rep, node, depth + 1) });
      }
      if (!this.st) return [];
      let rest = r.rest;
      if (rest.length) {
        const some = rep instanceof Set ? null : this.someVal(a);
        const out = some && this.callFn(rep, [a], [this.someKey(), [some]], node);
        if (!this.st) return [];
        if (!(out && out.length === 1 && out[0].t === 'x' && out[0].k === some.k)) return this.topv('JSON.stringify with replacer over unknown members', node);
      }
      return this.alloc2({ k: 'obj', m, rest, seq: r.seq });
    });
  },
  alloc2(rec) { return [this.alloc(rec)].flat(); },
  someKey() { return [X('key', 'some key', { kinds: new Set(['str', 'estr']) })]; },
  someVal(of) { return X('some', `some member of ${akey(of)}`, { kinds: new Set(JSONKINDS) }); },
  jsonReplaceTerm(a, rep, node) {
    const ks = this.kindsOf(a);
    if (![...ks].some((k) => k === 'obj' || k === 'arr' || k === 'earr')) return [a];
    const gone = () => [X('replaced', `replaced(${a.k})`, { base: bare(a), kinds: new Set(ks) })];
    if (rep instanceof Set) return gone();
    const some = this.someVal(a);
    const out = this.callFn(rep, [a], [this.someKey(), [some]], node);
    if (!this.st) return [];
    return out.length === 1 && out[0].t === 'x' && out[0].k === some.k ? [a] : gone();
  },
  jsonParse(v, reviver, node) {
    if (reviver && !(one(reviver) && one(reviver).t === 'c')) return this.topv('JSON.parse with reviver', node);
    return this.forEachAlt(v, (a) => {
      if (a.t === 'json') return this.unmat(a.tree, true);
      if (a.t === 'c') { try { return this.unmat([this.constTree(JSON.parse(a.v))]); } catch { return this.throwError('SyntaxError'); } }
      if (a.t === 'top') return [a];
      if (a.t === 'x') {
        const k = a.k;
        return this.mayFail(`parse(${k})`, [call('parse', [[bare(a)]], 'json')], [X('err', `err:parse(${k})`, { cls: 'SyntaxError', of: bare(a) })]);
      }
      return this.mayFail(`parse(${akey(a)})`, [call('parse', [[a]], 'json')], [X('err', `err:parse(${akey(a)})`, { cls: 'SyntaxError' })]);
    });
  },
  constTree(v) {
    if (Array.isArray(v)) return { t: 'a', segs: v.map((x) => ({ k: 'el', v: [this.constTree(x)], p: true })) };
    if (v && typeof v === 'object') return { t: 'o', m: new Map(Object.entries(v).map(([k, x], i) => [k, { v: [this.constTree(x)], p: true, seq: i }])), rest: [] };
    return C(v);
  },
  doFetch(args, node) {
    const url = this.toStr(args[0] || [UNDEF]);
    const init = args[1] ? this.mat(args[1]) : [UNDEF];
    if (!this.st) return [];
    const n = ++this.st.nfetch;
    this.st.eff.push({ k: 'fetch', n, url, init, at: loc(node), raw: this.mat(args[0] || [UNDEF]) });
    const resp = X('resp', `resp${n}`, { n, kinds: new Set(['inst:Response']) });
    return [this.promise([resp], [X('err', `err:fetch#${n}`, { notCls: ['SyntaxError'], net: true })], bool(`ok:fetch#${n}`))];
  },
  respProp(a, name) {
    const k = `${a.k}.${name}`; const base = bare(a);
    switch (name) {
      case 'ok': return [bool(k, { base })];
      case 'status': return [X('prop', k, { base, name, kinds: new Set(['num']) })];
      case 'statusText': case 'url': case 'type': return [X('prop', k, { base, name, kinds: new Set(['str', 'estr']) })];
      case 'redirected': case 'bodyUsed': return [bool(k, { base })];
      case 'headers': return [X('prop', k, { base, name, kinds: new Set(['inst:Headers']) })];
      case 'body': return [X('prop', k, { base, name, kinds: new Set(['inst:ReadableStream', 'null']) })];
      default: return [UNDEF];
    }
  },
  respMethod(a, name, node) {
    const k = `${a.k}.${name}()`; const base = bare(a);
    const n = this.st.eff.filter((e) => e.k === 'read' && e.resp === a.k).length;
    this.st.eff.push({ k: 'read', resp: a.k, name, at: loc(node) });
    if (n) return [this.promise([], [X('err', `err:${k}#reread`, { cls: 'TypeError' })])];
    const ok = {
      text: () => X('text', `${a.k}.text`, { base, kinds: new Set(['str', 'estr']) }),
      json: () => X('json', `${a.k}.json`, { base, kinds: new Set(['obj']) }),
      arrayBuffer: () => X('bytes', `${a.k}.bytes`, { base, kinds: new Set(['inst:ArrayBuffer']) }),
      bytes: () => X('bytes', `${a.k}.bytes`, { base, kinds: new Set(['inst:Uint8Array']) }),
      blob: () => X('bytes', `${a.k}.blob`, { base, kinds: new Set(['inst:Blob']) }),
      formData: () => X('bytes', `${a.k}.formData`, { base, kinds: new Set(['inst:FormData']) }),
    }[name];
    if (!ok) return this.topv(`response.${name}`, node);
    const err = X('err', `err:${k}`, name === 'json' ? {} : { notCls: ['SyntaxError'] });
    return [this.promise([ok()], [err], bool(`ok:${k}`))];
  },
  constructBuiltin(name, args, node) {
    const a0 = args[0];
    if (ERRS.has(name)) {
      const msg = a0 ? this.strOf(a0) : [C('')];
      if (!this.st) return [];
      const e = this.mkError(name, msg);
      if (args[1] && this.st) {
        const c = this.forEachAlt(args[1], (o) => (o.t === 'c' ? [UNDEF] : this.getProp([o], 'cause', node)));
        if (this.st && !(c.length === 1 && c[0] === UNDEF)) this.initProp(e[0], [C('cause')], c, node);
      }
      return e;
    }
    switch (name) {
      case 'Object': return a0 && !(one(a0) && one(a0).t === 'c') ? a0 : [this.newObj()];
      case 'Array': {
        if (!args.length) return [this.newArr([])];
        if (args.length > 1) return [this.newArr(args.map((v) => ({ k: 'el', v, p: true })))];
        const n = cst(a0);
        if (typeof n === 'number' && n < 50) return [this.newArr(Array.from({ length: n }, () => ({ k: 'el', v: [UNDEF], p: true })))];
        const x = one(a0);
        if (x && x.t === 'x' && x.op === 'len') return [this.newArr([{ k: 'each', src: x.base.k, srcT: x.base, v: [UNDEF], p: true, sized: true }])];
        if (x && x.t === 'x' && x.op === 'call' && x.name === 'Math.min') {
          const ls = x.args.filter((v) => v.length === 1 && v[0].t === 'x' && v[0].op === 'len').map((v) => v[0].base);
          if (ls.length === 1) return [this.newArr([{ k: 'each', src: ls[0].k, srcT: ls[0], v: [UNDEF], p: true, sized: true, flaw: CUT }])];
        }
        return this.unknown('new Array(n)', node);
      }
      case 'Headers': return this.newHeaders(a0, node);
      case 'URLSearchParams': return this.newUsp(a0, node);
      case 'FormData': return [this.alloc({ k: 'form', ops: [] })];
      case 'Map': case 'Set': {
        const k = name.toLowerCase();
        const r = this.alloc({ k, ops: [] });
        if (a0 && !(one(a0) && one(a0).t === 'c')) {
          const segs = this.iterSegs(a0, node);
          if (!this.st) return [];
          this.runLoop(segs, (el) => {
            const rec = this.rec(r);
            const op = k === 'set' ? { op: 'set', name: el, p: true } : { op: 'set', name: this.indexOf(el, 0, node), value: this.indexOf(el, 1, node), p: true };
            this.st.heap.set(r.a, { ...rec, ops: rec.ops.concat(op) });
            return [UNDEF];
          });
        }
        return this.st ? [r] : [];
      }
      case 'WeakMap': case 'WeakSet': return [this.alloc({ k: name === 'WeakMap' ? 'map' : 'set', ops: [] })];
      case 'Promise': {
        const oks = []; const errs = []; let timed = false;
        const base0 = this.st;
        const res = { t: 'host', id: `res${this.fresh()}`, f: (as) => { timed = timed || this.inTimer; oks.push({ st: this.st.clone(), v: as[0] || [UNDEF] }); return [UNDEF]; } };
        const rej = { t: 'host', id: `rej${this.fresh()}`, f: (as) => { timed = timed || this.inTimer; errs.push({ st: this.st.clone(), v: as[0] || [UNDEF] }); return [UNDEF]; } };
        const save = this.handlers; const H = { list: [] }; this.handlers = save.concat([H]);
        this.callVal(a0 || [UNDEF], [UNDEF], [[res], [rej]], node, this.handlers.length - 1);
        this.handlers = save;
        let acc = this.st;
        for (const t of H.list) { errs.push(t); acc = join(acc, t.st); }
        if (!acc) acc = base0;
        this.st = acc;
        const out = this.promise(oks.length ? union(...oks.map((o) => o.v)) : [], errs.length ? union(...errs.map((o) => o.v)) : []);
        if (timed) this.st.heap.set(out.a, { ...this.rec(out), timed: true });
        return [out];
      }
      case 'Date': return [X('call', `Date(${args.map((v) => vkey(this.mat(v))).join(',')})${args.length ? '' : `#${this.fresh()}`}`, { name: 'Date', args: args.map((v) => this.mat(v)), res: 'inst:Date' })];
      case 'URL': {
        const x = call('URL', args.map((v) => this.mat(v)), 'inst:URL');
        return this.mayFail(`URL(${x.k})`, [x], [X('err', `err:URL(${x.k})`, { cls: 'TypeError' })]);
      }
      case 'AbortController': return [this.objOf([['signal', [X('root', `signal#${this.fresh()}`, { kinds: new Set(['inst:AbortSignal']) })]], ['abort', [{ t: 'host', id: `abort${this.fresh()}`, f: () => [UNDEF] }]]])];
      case 'Blob': case 'File': case 'Uint8Array': case 'ArrayBuffer': case 'RegExp': case 'ReadableStream':
        return [call(`new ${name}`, args.map((v) => this.mat(v)), `inst:${name}`)];
      case 'TextEncoder': case 'TextDecoder': return [{ t: 'exto', name, args: args.map((v) => this.mat(v)) }];
      case 'String': case 'Number': case 'Boolean': return this.callBuiltin(name, [UNDEF], args, node);
      default: return this.unknown(`new ${name}`, node);
    }
  },
  lname(v) { // header names are case-insensitive
    return v.map((a) => (a.t === 'c' ? C(String(a.v).toLowerCase()) : a));
  },
  pushOp(ref, op) {
    const rec = this.rec(ref);
    if (ref.a <= this.setupMark) this.st.eff.push({ k: 'swrite', target: `#${ref.a}`, addr: ref.a, name: op.name && cst(op.name) !== undefined ? String(cst(op.name)) : '*', value: op.value || [UNDEF], at: op.at });
    this.st.heap.set(ref.a, { ...rec, ops: rec.ops.concat(op) });
  },
  newHeaders(init, node) {
    const r = this.alloc({ k: 'hdr', ops: [] });
    if (!init) return [r];
    this.forEachAlt(init, (a) => { this.fillHeaders(r, a, node); return []; });
    return this.st ? [r] : [];
  },
  fillHeaders(r, a, node) {
    if (a.t === 'c') { if (a.v !== undefined) this.throwError('TypeError'); return; }
    if (a.t === 'x') {
      const parts = this.splitNullish([a]);
      this.merge(parts.map(([b, s, isN]) => [s, () => {
        if (isN) { if (b === NULL || (b.t === 'x' && [...this.kindsOf(b)].every((k) => k === 'null'))) this.throwError('TypeError'); return []; }
        this.pushOp(r, { op: 'merge', src: a.k, srcT: bare(a), p: true, at: loc(node) });
        return [];
      }]));
      return;
    }
    if (a.t === 'ref') {
      const rec = this.rec(a);
      if (rec.k === 'hdr') { for (const o of rec.ops) this.pushOp(r, { ...o, at: loc(node) }); return; }
      if (rec.k === 'obj') {
        this.runLoop(this.keySegs([a], 'entries', node), (el) => {
          const k = this.indexOf(el, 0, node); const v = this.indexOf(el, 1, node);
          if (!this.st) return [];
          if (this.copyMerge(r, k, v, node)) return [UNDEF];
          this.pushOp(r, { op: 'set', name: this.lname(k), value: this.toStr(v), p: true, at: loc(node) });
          return [UNDEF];
        });
        return;
      }
      if (['array', 'map', 'form', 'usp'].includes(rec.k)) {
        this.runLoop(this.iterSegs([a], node), (el) => {
          const k = this.indexOf(el, 0, node); const v = this.indexOf(el, 1, node);
          if (!this.st) return [];
          if (this.copyMerge(r, k, v, node)) return [UNDEF];
          this.pushOp(r, { op: 'append', name: this.lname(k), value: this.toStr(v), p: true, at: loc(node) });
          return [UNDEF];
        });
        return;
      }
    }
    this.pushOp(r, { op: 'unk', p: false });
  },
  copyMerge() { return false; },
  newUsp(init, node) {
    const r = this.alloc({ k: 'usp', ops: [] });
    if (!init) return [r];
    this.forEachAlt(init, (a) => {
      if (a.t === 'c') {
        if (a.v === undefined || a.v === null) return [];
        for (const [k, v] of new URLSearchParams(String(a.v))) this.pushOp(r, { op: 'append', name: [C(k)], value: [C(v)], p: true });
        return [];
      }
      if (a.t === 'qs') { for (const e of a.entries) this.pushOp(r, e); return []; }
      if (a.t === 's') {
        const es = this.queryPairs(a.parts);
        if (es) { for (const [k, v] of es) this.pushOp(r, { op: 'append', name: [C(k)], value: v, p: true }); return []; }
      }
      if (a.t === 's' || a.t === 'top') { this.pushOp(r, { op: 'unk', p: false }); return []; }
      let segs;
      if (a.t === 'ref' && this.rec(a).k !== 'obj') segs = this.iterSegs([a], node);
      else if (a.t === 'x' && ![...this.kindsOf(a)].some((k) => k === 'obj')) {
        const ks = [...this.kindsOf(a)];
        if (ks.every((k) => k === 'undef' || k === 'absent')) return [];
        if (ks.every((k) => k === 'arr' || k === 'earr')) segs = this.iterSegs([a], node);
        else { this.pushOp(r, { op: 'unk', p: false }); return []; }
      } else segs = this.keySegs([a], 'entries', node, true);
      if (!this.st) return [];
      this.runLoop(segs, (el) => {
        const k = this.indexOf(el, 0, node); const v = this.indexOf(el, 1, node);
        if (this.st) this.pushOp(r, { op: 'append', name: this.strOf(k), value: this.toStr(v), p: true });
        return [UNDEF];
      });
      return [];
    });
    return this.st ? [r] : [];
  },
  // name=value pairs of a query string whose values are constant, percent-encoded or numbers; null otherwise
  queryPairs(parts) {
    const pieces = [[]];
    parts.forEach((p, i) => {
      if (typeof p !== 'string') { pieces[pieces.length - 1].push(p); return; }
      (i === 0 ? p.replace(/^\?/, '') : p).split('&').forEach((b, j) => { if (j) pieces.push([]); if (b) pieces[pieces.length - 1].push(b); });
    });
    const out = [];
    for (const pc of pieces) {
      if (!pc.length) continue;
      if (typeof pc[0] !== 'string') return null;
      const eq = pc[0].indexOf('=');
      if (eq < 0) return null;
      const dec = (s) => { try { return decodeURIComponent(s.replace(/\+/g, ' ')); } catch { return null; } };
      const name = dec(pc[0].slice(0, eq)); const head = pc[0].slice(eq + 1); const rest = pc.slice(1);
      if (name === null) return null;
      if (!rest.length) { const v = dec(head); if (v === null) return null; out.push([name, [C(v)]]); continue; }
      const vs = head ? [C(dec(head))] : [];
      for (const p0 of rest) {
        if (typeof p0 === 'string') { const v = dec(p0); if (v === null) return null; vs.push(C(v)); continue; }
        let p = p0;
        if (p.t === 'x' && p.op === 'call' && /^replace(All)?$/.test(p.name) && p.args.length === 3 && p.args.every((x) => x.length === 1) && p.args[2][0].v === '+' && (p.args[1][0].src === '/%20/g' || (p.name === 'replaceAll' && p.args[1][0].v === '%20'))) p = p.args[0][0];
        if (p.t === 'x' && p.op === 'enc') vs.push(p.base);
        else if (p.t === 'x' && [...this.kindsOf(p)].every((k) => k === 'num' || k === 'zero' || k === 'true' || k === 'false')) vs.push(p);
        else return null;
      }
      out.push([name, vs.length === 1 ? this.toStr(vs) : [this.mkStr(vs)]]);
    }
    return out;
  },
  // surviving entries of a Headers / URLSearchParams / FormData / Map op log
  normOps(ops) {
    let out = [];
    const nm = (e) => (e.name && e.name.length === 1 ? akey(e.name[0]) : null);
    for (const e of ops) {
      if (e.op === 'delete' || e.op === 'set') {
        const n = nm(e);
        if (n === null || e.p !== true || e.each) { if (e.op === 'delete') out = out.map((q) => (q.op === 'merge' || nm(q) === n || nm(q) === null ? { ...q, p: false } : q)); } else {
          let pos = -1;
          out = out.filter((q, i) => { if (q.op !== 'merge' && q.op !== 'unk' && nm(q) === n && !q.each) { if (pos < 0) pos = i; return false; } return true; });
          out = out.map((q) => (q.op === 'merge' ? { ...q, without: (q.without || []).concat(n) } : q));
          if (e.op === 'set') { const f = { ...e, op: 'append' }; if (pos >= 0) out.splice(pos, 0, f); else out.push(f); }
          continue;
        }
        if (e.op === 'set') out.push({ ...e, op: 'append', may: true });
        continue;
      }
      out.push(e);
    }
    return out;
  },
  uspToString(ref) {
    return [this.qsOf(this.rec(ref).ops)];
  },
  qsOf(ops) {
    const entries = this.normOps(ops);
    if (entries.some((e) => e.op === 'unk')) return TOP('query string');
    return { t: 'qs', entries };
  },
  // value of one header in an op log (UNDEF when absent)
  hdrGet(ops, name) {
    let cur = [UNDEF];
    const key = akey(C(name));
    for (const e of ops) {
      if (e.op === 'unk') { cur = union(cur, [TOP('headers')]); continue; }
      if (e.op === 'merge') {
        if (e.without && e.without.includes(key)) continue;
        const h = X('hget', `hget(${e.src},${name})`, { base: e.srcT, name, kinds: new Set(['absent', 'estr', 'str']) });
        const ks = this.kindsOf(h);
        if (e.via === 'append' && !(cur.length === 1 && cur[0] === UNDEF)) {
          // added to what is there already
          const h1 = ks.has('absent') ? { ...h, rk: new Set([...ks].filter((k) => k !== 'absent')) } : h;
          const both = ks.size === 1 && ks.has('absent') ? [] : this.concat(this.toStr(cur), [C(', ')], [h1]);
          if (ks.has('absent') || e.p !== true) { if (ks.size > 1) this.note(h); cur = union(cur, both); } else cur = both;
          continue;
        }
        if (e.p !== true) { cur = union(cur, [h]); continue; }
        if (!ks.has('absent')) cur = [h];
        else if (ks.size > 1) { this.note(h); cur = cur.length === 1 && cur[0] === UNDEF ? [h] : union(cur, [{ ...h, rk: new Set([...ks].filter((k) => k !== 'absent')) }]); }
        continue;
      }
      const n = e.name && e.name.length === 1 ? e.name[0] : null;
      if (!n || n.t !== 'c') { if (e.op !== 'delete') cur = union(cur, [TOP('dynamic header')]); continue; }
      if (String(n.v).toLowerCase() !== name) continue;
      if (e.op === 'delete') { cur = e.p === true ? [UNDEF] : union(cur, [UNDEF]); continue; }
      if (e.op === 'append' && e.p === true && !(cur.length === 1 && cur[0] === UNDEF)) { cur = this.concat(this.toStr(cur), [C(', ')], e.value); continue; }
      cur = e.p === true ? e.value : union(cur, e.value);
    }
    return cur;
  },
  joinArray(segs, sep, node) {
    if (!segs.length) return [C('')];
    if (segs.every((s) => s.k === 'el' && s.p === true)) {
      let acc = [C('')];
      segs.forEach((s, i) => {
        const v = union(...s.v.map((a) => (a.t === 'c' && (a.v === undefined || a.v === null) ? [C('')] : this.toStr([a]))));
        acc = i ? this.concat(acc, sep, v) : this.concat(acc, v);
      });
      return acc;
    }
    if (segs.some((s) => s.k === 'unk' || (s.k === 'el' && s.p !== true))) return this.topv('join of unknown', node);
    const s = segs[0]; const e = one(s.v); const c = cst(sep);
    if (segs.length === 1 && s.p === true && s.srcT && e && e.t === 'x' && e.op === 'elem' && e.base.k === s.srcT.k && typeof c === 'string') {
      return [X('join', `join(${s.srcT.k},${JSON.stringify(c)})`, { base: s.srcT, sep: c })];
    }
    return [call('join', [[{ t: 'a', segs: segs.map((q) => ({ ...q, v: this.mat(q.v), src0: undefined })) }], sep], 'str')];
  },
};
Object.assign(Interp.prototype, Builtins);
