// Abstract interpreter, part 3: objects, classes, iteration.
import { ts, loc, isRepoNode } from './program.mjs';
import { C, UNDEF, NULL, TOP, TRUE, FALSE, akey, join, union, vkey, NULLISH, segKey, effKey } from './domain.mjs';
import { X, bare, call, elem, prop, propKey, root, bool, pred, not, mapVal, mapOps } from './terms.mjs';
import { Interp, nid } from './core.mjs';

const S = ts.SyntaxKind;
export const REV = 'its order is reversed';
export const CUT = 'elements are left out';
export const turned = (f, g) => (f === REV && g === REV ? undefined : f || g);
const pkey = (p) => (p === true ? '' : p === false ? '?' : `?${p}`);
const ARR = new Set('map filter forEach push pop shift unshift splice slice concat join reduce reduceRight some every find findIndex findLast includes indexOf flatMap flat entries keys values sort reverse at fill toSorted toReversed with'.split(' '));
const STR = new Set('startsWith endsWith includes indexOf trim trimStart trimEnd toLowerCase toUpperCase replace replaceAll split slice substring substr concat charAt charCodeAt padStart padEnd match matchAll search at repeat normalize localeCompare'.split(' '));
const ANYM = new Set('toString toLocaleString valueOf hasOwnProperty toJSON'.split(' '));
const INSTM = {
  'inst:Headers': 'get set has delete append entries keys values forEach getSetCookie',
  'inst:FormData': 'get getAll set has delete append entries keys values forEach',
  'inst:URLSearchParams': 'get getAll set has delete append entries keys values forEach toString sort',
  'inst:Blob': 'text arrayBuffer slice stream bytes', 'inst:File': 'text arrayBuffer slice stream bytes',
  'inst:Buffer': 'toString slice subarray equals write fill copy toJSON', 'inst:Uint8Array': 'slice subarray set fill map toString',
  'inst:Date': 'toISOString getTime toJSON setTime toString valueOf', 'inst:Promise': 'then catch finally',
  'inst:Map': 'get set has delete clear entries keys values forEach', 'inst:Set': 'add has delete clear entries keys values forEach',
  'inst:ArrayBuffer': 'slice', 'inst:Error': 'toString', 'inst:Response': 'text json arrayBuffer blob clone bytes formData',
};
for (const k of Object.keys(INSTM)) INSTM[k] = new Set(INSTM[k].split(' '));
// entries of a map or set kept under this key: one per element, or fewer?
const unique = (e) => { const n = e.name && e.name.length === 1 ? e.name[0] : null; return n && (n.t === 'idx' || (n.t === 'x' && n.op === 'key')) ? undefined : 'elements that compare equal are dropped'; };
export const bm = (recv, name) => ({ t: 'bm', recv, name });
const CALLERR = { SyntaxError: 'Error', TypeError: 'Error', RangeError: 'Error', ReferenceError: 'Error', EvalError: 'Error', URIError: 'Error', AggregateError: 'Error', DOMException: 'Error' };

export const Objects = {
  getProp(o, name, node, calling) {
    return this.forEachAlt(o, (a) => this.getProp1(a, name, node, calling));
  },
  getProp1(a, name, node, calling) {
    switch (a.t) {
      case 'c': {
        if (a.v === undefined || a.v === null) return this.throwError('TypeError');
        if (typeof a.v === 'string') {
          if (name === 'length') return [C(a.v.length)];
          if (STR.has(name) || ANYM.has(name)) return [bm(a, name)];
          return [UNDEF];
        }
        return [bm(a, name)];
      }
      case 's': case 'qs': case 'json':
        if (name === 'length') return [X('size', `len(${akey(a)})`, { of: a, kinds: new Set(this.truth(a) === true ? ['num'] : this.truth(a) === false ? ['zero'] : ['zero', 'num']) })];
        return [bm(a, name)];
      case 'x': return this.getPropX(a, name, node, calling);
      case 'tup': {
        if (name === 'length') return [C(a.items.length)];
        if (/^\d+$/.test(name)) return a.items[Number(name)] || [UNDEF];
        return [bm(a, name)];
      }
      case 'ref': return this.getPropRef(a, name, node);
      case 'fn': case 'host': case 'bm':
        if (name === 'length') return [C((a.node && a.node.parameters.length) || 0)];
        if (name === 'name') return [C((a.node && a.node.name && a.node.name.text) || '')];
        return [bm(a, name)];
      case 'bi': return this.builtinProp(a, name, node);
      case 'ext': return [{ t: 'ext', name: `${a.name}.${name}`, mod: a.mod, member: name, path: true }];
      case 'exto': return [{ t: 'bm', recv: a, name }];
      case 'cls': return this.staticMember(a, name, node);
      case 're': return [bm(a, name)];
      case 'idx': return [bm(a, name)];
      case 'top': return [a];
      default: return this.topv(`property of ${a.t}`, node);
    }
  },
  getPropX(a, name, node, calling) {
    // read while modules load: a snapshot of the environment, not its value when used
    if (this.importing && a.k === 'process.env' && !name.endsWith('@import')) return [X('prop', `process.env.${name}@import`, { base: bare(a), name })];
    if (a.op === 'pred' || a.op === 'not' || a.op === 'bool') return [bm(a, name)];
    const ks = [...this.kindsOf(a)];
    const nl = ks.filter((k) => NULLISH.has(k));
    if (nl.length) {
      if (nl.length === ks.length) return this.throwError('TypeError');
      this.note(a);
      const base = this.st;
      const s1 = base.clone(); const s2 = base;
      this.st = s1; this.restrictKinds(a, (k) => NULLISH.has(k));
      if (this.st) this.throwError('TypeError');
      this.st = s2; this.restrictKinds(a, (k) => !NULLISH.has(k));
      if (!this.st) return [];
    }
    const kk = [...this.kindsOf(a)];
    if (kk.every((k) => k.startsWith('inst:'))) {
      for (const k of kk) {
        if (INSTM[k] && INSTM[k].has(name)) return [bm(bare(a), name)];
      }
      if (a.op === 'resp') return this.respProp(a, name);
      if (kk.every((k) => k === 'inst:Error') && name === 'message') return [X('prop', `${a.k}.message`, { base: bare(a), name, kinds: new Set(['str', 'estr']) })];
      const p = prop(a, name);
      if (this.st.over.has(p.k)) return this.st.over.get(p.k);
      return [p];
    }
    const strs = kk.filter((k) => this.typeofStr(k) === 'string'); const arrs = kk.filter((k) => k === 'arr' || k === 'earr');
    if (name === 'length' && strs.length + arrs.length === kk.length) {
      if (kk.length === 1 && kk[0] === 'earr') return [C(0)];
      return [X('len', `${a.k}.length`, { base: bare(a) })];
    }
    if (calling || !this.declared(a, name)) {
      if (ANYM.has(name) && !this.declaredInRepo(a, name)) return [bm(a, name)];
      if (strs.length && STR.has(name) && !arrs.length) {
        if (strs.length === kk.length) return [bm(a, name)];
        return this.splitMethod(a, name, (k) => this.typeofStr(k) === 'string');
      }
      if (arrs.length && ARR.has(name)) {
        if (arrs.length === kk.length) return [bm(a, name)];
        if (!this.declaredInRepo(a, name)) return this.splitMethod(a, name, (k) => k === 'arr' || k === 'earr' || (STR.has(name) && this.typeofStr(k) === 'string'));
      }
      const ik = kk.find((k) => INSTM[k] && INSTM[k].has(name));
      if (ik) return [bm(a, name)];
      if (calling && name === 'then' && kk.includes('inst:Promise')) return [bm(a, name)];
    }
    const p = prop(a, name);
    if (this.st.over.has(p.k)) return this.st.over.get(p.k);
    // own property of a value of primitive kind is undefined
    const objs = kk.filter((k) => k === 'obj' || k === 'fn' || k.startsWith('inst:') || k === 'arr' || k === 'earr');
    if (!objs.length) return [UNDEF];
    if (objs.length < kk.length && !(this.typesOf(a).length && this.typesOf(p).length === 0 && false)) {
      // reading a property of a primitive gives undefined
      if (objs.some((k) => k === 'obj')) {
        this.note(a);
        const base = this.st; const s1 = base.clone(); const s2 = base.clone();
        this.st = s1; this.restrictKinds(a, (k) => !objs.includes(k)); const t1 = this.st;
        this.st = s2; this.restrictKinds(a, (k) => objs.includes(k)); const t2 = this.st;
        return this.merge([[t1, () => [UNDEF]], [t2, () => [p]]]);
      }
    }
    return [p];
  },
  splitMethod(a, name, okKind) {
    this.note(a);
    const base = this.st; const s1 = base.clone(); const s2 = base.clone();
    this.st = s1; this.restrictKinds(a, okKind); const t1 = this.st;
    this.st = s2; this.restrictKinds(a, (k) => !okKind(k)); const t2 = this.st;
    return this.merge([[t1, () => [bm({ ...a, rk: new Set([...this.kindsOf(a)]) }, name)]], [t2, () => [UNDEF]]]);
  },
  declared(a, name) {
    return this.constituents(a).some((t) => !this.T.isAny(t) && this.T.propOf(t, name));
  },
  declaredInRepo(a, name) {
    return this.constituents(a).some((t) => { if (this.T.isAny(t)) return false; const p = this.T.propOf(t, name); return p && p.decls.some(isRepoNode); });
  },
  getPropRef(a, name, node) {
    const r = this.rec(a);
    switch (r.k) {
      case 'obj': {
        const own = this.ownProp(a, r, name, node);
        if (own) return own;
        const m = this.findMember(a, name);
        if (m) return m;
        const g = this.findGetter(a, name);
        if (g) return this.callFn(g, [a], [], node);
        if (ANYM.has(name)) return [bm(a, name)];
        return [UNDEF];
      }
      case 'array': {
        if (name === 'length') return this.lenOf(r.segs, a);
        if (/^\d+$/.test(name)) return this.indexOf([a], Number(name), node);
        return [bm(a, name)];
      }
      case 'usp':
        if (name === 'size') return this.sizeOf(r.ops);
        return [bm(a, name)];
      case 'map': case 'set':
        if (name === 'size') return this.sizeOf(r.ops);
        return [bm(a, name)];
      case 'top': return this.topv('merged record', node);
      default: return [bm(a, name)];
    }
  },
  sizeOf(ops) {
    const n = ops.filter((e) => e.p === true && !e.each && e.op !== 'merge').length;
    if (n === ops.length) return [C(n)];
    if (n) return [X('size', `size(${ops.length})#${this.fresh()}`, { kinds: new Set(['num']) })];
    return [X('size', `size#${this.fresh()}`, { kinds: new Set(['zero', 'num']) })];
  },
  lenOf(segs, ref) {
    if (segs.every((s) => s.k === 'el' && s.p === true)) return [C(segs.length)];
    if (segs.some((s) => s.k === 'el' && s.p === true)) return [X('size', `len#${this.fresh()}`, { lenOf: ref && ref.a, at: segs, kinds: new Set(['num']) })];
    if (segs.length === 1 && segs[0].k === 'each' && segs[0].p === true && segs[0].srcT) return [X('len', `${segs[0].srcT.k}.length`, { base: segs[0].srcT })];
    return [X('size', `len#${ref.a}.${this.fresh()}`, { lenOf: ref.a, at: segs, kinds: new Set(['zero', 'num']) })];
  },
  ownProp(a, r, name, node) {
    const e = r.m.get(name);
    const later = r.rest.filter((q) => !e || q.seq > e.seq);
    if (!e && !later.length) return null;
    let v = null;
    if (e) {
      if (e.get) return this.callFn(e.get, [a], [], node);
      if (e.p === true) v = e.v;
      else if (e.p === false) v = union(e.v, [UNDEF]);
      else v = e.v; // mirror of a term: its own absent kind reads as undefined
    }
    for (const q of later) {
      if (q.dyn) {
        const k = q.key[0];
        if (k.t === 'top' || k.t === 'x' || k.t === 's') v = union(v || [UNDEF], [TOP(`dynamic key may be ${name}`)]);
        continue;
      }
      if (q.without && q.without.includes(name)) continue;
      if (q.declared && !q.open) continue; // closed type: declared members were copied individually
      if (q.declared && q.declared.includes(name)) continue;
      if (!q.srcT) { v = union(v || [UNDEF], [TOP('rest')]); continue; }
      const t = prop(q.srcT, name);
      v = v ? union(v, [t]) : q.p === true ? [t] : union([t], [UNDEF]);
    }
    return v;
  },
  indexOf(o, i, node) {
    return this.forEachAlt(o, (a) => {
      if (a.t === 'tup') return a.items[i] || [UNDEF];
      if (a.t === 'c') { if (a.v === undefined || a.v === null) return this.throwError('TypeError'); return [typeof a.v === 'string' && i < a.v.length ? C(a.v[i]) : UNDEF]; }
      if (a.t === 'ref') {
        const r = this.rec(a);
        if (r.k === 'array') {
          let n = 0;
          for (const s of r.segs) {
            if (s.k === 'el' && s.p === true) { if (n === i) return s.v; n++; } else return union([UNDEF], [TOP('index into unknown-length array')]);
          }
          return [UNDEF];
        }
        return this.getProp([a], String(i), node);
      }
      if (a.t === 'x') {
        const ks = [...this.kindsOf(a)];
        if (ks.every((k) => NULLISH.has(k))) return this.throwError('TypeError');
        if (Number.isInteger(i) && i >= 0 && ks.every((k) => k === 'arr' || k === 'earr')) return this.nthElem(a, i);
        return [call('at', [[bare(a)], [C(i)]])];
      }
      if (a.t === 'top') return [a];
      return this.getProp([a], String(i), node);
    });
  },
  // the i-th element of an input list: none past its end
  nthElem(a, i) {
    const ks = [...this.kindsOf(a)]; const there = () => this.readElem(bare(a), i);
    if (ks.every((k) => k === 'earr')) return [UNDEF];
    if (i === 0 && !ks.includes('earr')) return there();
    const q = i === 0 ? bare(a) : X('nth', `edge(${a.k}[${i}])`, { kinds: new Set(['lit:there', 'lit:outside']) });
    this.note(q);
    const base = this.st; const out = [];
    for (const [k, f] of i === 0 ? [['earr', () => [UNDEF]], ['arr', there]] : [['lit:outside', () => [UNDEF]], ['lit:there', there]]) {
      this.st = base.clone();
      if (this.restrictKinds(q, (z) => z === k)) out.push([this.st, f]);
    }
    return this.merge(out);
  },
  readElem(arr, other) {
    const e = elem(arr, other);
    if (this.st.over.has(e.k)) return this.st.over.get(e.k);
    return [e];
  },
  arrRest(v, i, node) {
    return this.forEachAlt(v, (a) => {
      if (a.t === 'tup') return [this.newArr(a.items.slice(i).map((x) => ({ k: 'el', v: x, p: true })))];
      const segs = this.iterSegs([a], node);
      if (!this.st) return [];
      if (i === 0 || segs.slice(0, i).every((s) => s.k === 'el' && s.p === true)) return [this.newArr(segs.slice(i))];
      return this.topv('array rest', node);
    });
  },

  // ---- iteration --------------------------------------------------------
  // segments of an iterable, in order
  iterSegs(v, node) {
    if (v.length !== 1) {
      // several alternative iterables: optional segments of each
      const all = v.map((a) => this.iterSegs([a], node));
      if (!this.st) return [];
      const keys = all.map((l) => l.map(segKey).join('|'));
      if (keys.every((k) => k === keys[0])) return all[0];
      return all.flat().map((s) => ({ ...s, p: false }));
    }
    const a = v[0];
    switch (a.t) {
      case 'ref': {
        const r = this.rec(a);
        if (r.k === 'array') return r.segs;
        if (r.k === 'hdr' || r.k === 'usp' || r.k === 'form' || r.k === 'map') return this.entrySegs(r, a);
        if (r.k === 'set') return r.ops.map((e) => (e.each ? { k: 'each', src: e.each, srcT: e.eachT, v: e.name, p: e.p, flaw: e.flaw || unique(e) } : { k: 'el', v: e.name, p: e.p }));
        return [{ k: 'unk', v: [TOP('iteration')], p: false, why: 'unknown iterable' }];
      }
      case 'tup': return a.items.map((x) => ({ k: 'el', v: x, p: true }));
      case 'x': {
        const ks = [...this.kindsOf(a)];
        if (ks.some((k) => NULLISH.has(k))) {
          const r = this.nonNull([a]);
          if (!this.st) return [];
        }
        const kk = [...this.kindsOf(a)];
        if (kk.every((k) => k === 'earr')) return [];
        if (kk.includes('inst:Headers') && kk.length === 1) return [{ k: 'each', src: `entries ${a.k}`, srcT: X('hentries', `hentries(${a.k})`, { base: bare(a), kinds: new Set(['arr', 'earr']) }), v: [this.entryTup(a, false)], p: true }];
        if (kk.every((k) => k === 'arr' || k === 'earr')) return [{ k: 'each', src: a.k, srcT: bare(a), v: this.readElem(a, false), p: true }];
        return [{ k: 'unk', v: [TOP('iteration')], p: false, why: `iteration over ${a.k}` }];
      }
      default: return [{ k: 'unk', v: [TOP('iteration')], p: false, why: 'unknown iterable' }];
    }
  },
  entryTup(a, other) { // one header/entry of a caller-supplied collection
    return { t: 'tup', items: [[X('key', `hkey(${a.k})${other ? '~' : ''}`, { base: bare(a), other })], [X('val', `hval(${a.k})${other ? '~' : ''}`, { base: bare(a), other, kinds: new Set(['str', 'estr']) })]] };
  },
  entrySegs(r, a) {
    const out = [];
    for (const e of r.ops) {
      if (e.op === 'merge') out.push({ k: 'each', src: `entries ${e.src}`, srcT: X('hentries', `hentries(${e.src})`, { base: e.srcT, kinds: new Set(['arr', 'earr']) }), v: [this.entryTup(e.srcT, false)], p: e.p });
      else if (e.op === 'delete') continue;
      else out.push(e.each ? { k: 'each', src: e.each, srcT: e.eachT, v: [{ t: 'tup', items: [e.name, e.value] }], p: e.p, flaw: e.flaw || (r.k === 'map' ? unique(e) : undefined) } : { k: 'el', v: [{ t: 'tup', items: [e.name, e.value] }], p: e.p });
    }
    return out;
  },
  renameOther(v, srcT) {
    // "some other element of the same source": rename src[*] to src[~]
    const f = (x) => {
      if (x.op === 'elem' && x.base.k === srcT.k && !x.other) return elem(x.base, true);
      if ((x.op === 'key' || x.op === 'val') && !x.other && (x.base.k === srcT.k || (srcT.base && x.base.k === srcT.base.k))) return { ...x, other: true, k: `${x.k}~` };
      return null;
    };
    f.idx = (a) => (a.src === srcT.k && !a.other ? { t: 'idx', src: a.src, other: true } : a);
    return this.copyVal(v, f, new Map());
  },
  copyVal(v, f, seen) {
    return v.map((a) => {
      if (a.t === 'ref') {
        if (a.a <= this.setupMark) return a;
        if (seen.has(a.a)) return seen.get(a.a);
        const r = this.rec(a);
        if (!r || !['obj', 'array', 'hdr', 'usp', 'form', 'map', 'set'].includes(r.k)) return a;
        const nr = this.alloc(r); seen.set(a.a, nr);
        let rec;
        if (r.k === 'obj') rec = { ...r, m: new Map([...r.m].map(([k, e]) => [k, e.get ? e : { ...e, v: this.copyVal(e.v, f, seen) }])) };
        else if (r.k === 'array') rec = { ...r, segs: r.segs.map((s) => ({ ...s, v: this.copyVal(s.v, f, seen) })) };
        else rec = { ...r, ops: mapOps(r.ops, f) };
        this.st.heap.set(nr.a, rec);
        return nr;
      }
      if (a.t === 'tup') return { ...a, items: a.items.map((q) => this.copyVal(q, f, seen)) };
      if (a.t === 'idx' && f.idx) return f.idx(a);
      return mapVal([a], f)[0];
    });
  },
  // Run `body(elem, i)` over segments. Returns result segments (p per segment).
  runLoop(segs, body, opt = {}) {
    const out = []; const ctx = { breaks: [], stop: false };
    let i = 0;
    for (const s of segs) {
      if (!this.st) break;
      if (s.k === 'unk') { this.unknown(s.why || 'iteration over unknown'); out.push(s); continue; }
      if (s.k === 'el') {
        if (s.p === true) {
          const v = body(s.v, i === null ? [X('size', `i#${this.fresh()}`, { kinds: new Set(['zero', 'num']) })] : [C(i)], s);
          if (i !== null) i++;
          if (this.st) out.push({ k: 'el', v, p: true, src0: s });
        } else {
          const base = this.st; let v = [];
          let skip = base.clone(); let go = base.clone();
          if (s.mt) {
            this.note(s.mt);
            this.st = skip; this.restrictKinds(s.mt, (k) => k === 'absent'); skip = this.st;
            this.st = go; this.restrictKinds(s.mt, (k) => k !== 'absent'); go = this.st;
          }
          this.merge([[skip, () => [UNDEF]], [go, () => { v = body(s.v, [TOP('index')], s); return [UNDEF]; }]]);
          out.push({ k: 'el', v, p: s.p, mt: s.mt, src0: s });
          i = null;
        }
        continue;
      }
      // each
      if (opt.breaks) opt.breakBase = opt.breaks.length;
      const v = this.runEach(s, body, opt);
      out.push({ k: 'each', src: s.src, srcT: s.srcT, v: v.length ? v : [TOP('no value')], p: s.p, flaw: s.flaw, src0: s });
      i = null;
    }
    return out;
  },
  runEach(s, body, opt) {
    const S0 = this.st;
    const srcT = s.srcT;
    const ks = srcT ? this.kindsOf(srcT) : new Set(['arr', 'earr']);
    const mayEmpty = ks.has('earr') || s.p !== true || !ks.size; const mayFull = !srcT || [...ks].some((k) => k !== 'earr');
    if (!mayFull) return [TOP('empty')];
    const idx = (other) => [{ t: 'idx', src: srcT ? srcT.k : s.src, other, cur: other ? undefined : s.v }];
    const act = this.act; const marks = () => ({ r: act ? act.returns.length : 0, h: this.handlers.map((h) => h.list.length), c: this.chainExits ? this.chainExits.length : 0 });
    const restore = (m) => { if (act) act.returns.length = m.r; this.handlers.forEach((h, j) => { h.list.length = m.h[j]; }); if (this.chainExits) this.chainExits.length = m.c; };
    const run = (start, other) => {
      this.st = start.clone();
      const el = other ? this.renameOther(s.v, srcT || { k: s.src }) : s.v;
      const v = body(el, idx(other), s);
      if (this.st) this.rebuilt(start, this.st, S0);
      return { v, st: this.st };
    };
    const m = marks();
    const brk = () => (opt.breaks ? opt.breaks.length : 0);
    const brk0 = opt.breaks ? opt.breakBase || 0 : 0;
    const unbreak = (n) => { if (opt.breaks) opt.breaks.length = n; };
    const finish = (start, st, may) => this.wrapLoop(S0, start, st, s, may);
    const summary = (start, r) => {
      let acc = r.st ? finish(start, r.st, false) : null;
      if (opt.breaks) { for (let j = brk0; j < opt.breaks.length; j++) acc = join(acc, finish(start, opt.breaks[j], true)); unbreak(brk0); }
      return acc;
    };
    const done = (full, v) => {
      if (full && mayEmpty) full = this.loopJoin(S0, full);
      this.st = full || (mayEmpty ? S0 : null);
      return v || [];
    };
    const r1 = run(S0, false);
    const count = (m0) => { const q = marks(); return `${q.r - m0.r},${q.h.map((n, j) => n - m0.h[j])},${q.c - m0.c}`; };
    if (!r1.st || !this.touched(S0, r1.st)) return done(summary(S0, r1), r1.v);
    const c1 = count(m);
    const m1 = marks(); const b1 = brk();
    // what a second iteration finds: exactly one earlier one
    const quietly = (start, other) => { const r = run(start, other); const c = count(m1); const bs = brk() - b1; restore(m1); unbreak(b1); return { ...r, c, bs }; };
    const ro = quietly(S0, true);
    const base = (st) => { const q = st.clone(); q.eff = S0.eff; q.kinds = S0.kinds; q.nfetch = S0.nfetch; return q; };
    if (!ro.st) return done(summary(S0, r1), r1.v);
    const startA = base(ro.st);
    // a member per entry stands for all entries at once already
    for (const [a, r0] of S0.heap) {
      const w = startA.heap.get(a);
      if (w && w !== r0 && r0.k === 'obj' && w.k === 'obj' && r0.m.size === w.m.size && [...r0.m].every(([n, e]) => w.m.get(n) === e) && w.rest.length > r0.rest.length && r0.rest.every((e) => w.rest.includes(e)) && w.rest.every((e) => e.srcT || r0.rest.includes(e))) startA.heap.set(a, r0);
    }
    const rA = quietly(startA, false);
    // and what any later one finds: any number of earlier ones
    const startB = this.laterStart(S0, startA, s, (cs) => quietly(cs, true));
    const rB = quietly(startB, false);
    const s1 = this.iterSig(S0, r1, `${c1}|${b1 - brk0}`);
    const sA = this.iterSig(startA, rA, `${rA.c}|${rA.bs}`); const sB = this.iterSig(startB, rB, `${rB.c}|${rB.bs}`);
    if (s1 === sA && s1 === sB) return done(summary(S0, r1), r1.v);
    restore(m); unbreak(brk0);
    const nth = X('nth', `nth(${srcT ? srcT.k : s.src})`, { kinds: new Set(['lit:first', 'lit:second', 'lit:later']) });
    this.note(nth);
    let full = null; const vs = [];
    for (const [kind, start0] of [['lit:first', S0], ['lit:second', startA], ['lit:later', startB]]) {
      const start = start0.clone();
      this.st = start;
      if (!this.restrictKinds(nth, (k) => k === kind)) continue;
      const r = run(start, false);
      if (r.v && r.v.length) vs.push(r.v);
      full = join(full, summary(start, r));
    }
    return done(full, vs.length ? union(...vs) : []);
  },
  reversed(segs) { return segs.slice().reverse().map((s) => (s.k === 'each' ? { ...s, flaw: turned(REV, s.flaw) } : s)); },
  // A list or record an iteration builds anew from the one before is that one, grown in place.
  rebuilt(S0, S1, before) {
    const front = (S, T) => {
      if (T.length <= S.length) return null;
      const n = T.length - S.length;
      if (!S.length) return T.every((s) => s.pre) ? T : null;
      return S.every((s, i) => s === T[n + i] || segKey(s) === segKey(T[n + i])) && !this.isAppend(S, T) ? T.slice(0, n) : null;
    };
    // what T has more than S, in the order it would have been appended
    const grown = (S, T) => {
      const f = front(S, T);
      if (f) return f.map((s) => ({ ...s, pre: undefined, flaw: turned(REV, s.flaw) })).reverse();
      if (T.length < S.length || !S.every((s, i) => s === T[i] || segKey(s) === segKey(T[i]))) return null;
      return T.slice(S.length);
    };
    const alone = (c, a) => {
      for (const [k, v] of S0.cells) if (k !== c && before.cells.has(k) && v.some((x) => x.t === 'ref' && x.a === a)) return false;
      for (const r of S0.heap.values()) {
        if (r.k === 'obj') { for (const e of r.m.values()) if (e.v && e.v.some((x) => x.t === 'ref' && x.a === a)) return false; } else if (r.k === 'array') for (const s of r.segs) if (s.v.some((x) => x.t === 'ref' && x.a === a)) return false;
      }
      return true;
    };
    for (const [c, v] of S0.cells) {
      const w = S1.cells.get(c);
      if (!w || w === v || v.length !== 1 || v[0].t !== 'ref' || !w.every((x) => x.t === 'ref')) continue;
      const a0 = v[0].a; const r0 = S0.heap.get(a0);
      if (!r0 || S1.heap.get(a0) !== r0 || w.every((x) => x.a === a0)) continue;
      const rs = w.map((x) => S1.heap.get(x.a));
      if (r0.k === 'array' && rs.every((r) => r && r.k === 'array')) {
        const adds = rs.map((r) => grown(r0.segs, r.segs));
        if (adds.some((l) => !l) || (w.length > 1 && adds.some((l) => l.length > 1 || l.some((s) => s.k !== 'el'))) || !alone(c, a0)) continue;
        const put = w.length === 1 ? adds[0] : [{ ...adds.find((l) => l.length)[0], v: union(...adds.filter((l) => l.length).map((l) => l[0].v)), p: adds.every((l) => l.length && l[0].p === true), flaw: adds.map((l) => l[0] && l[0].flaw).find((f) => f) }];
        S1.cells.set(c, v); S1.heap.set(a0, { ...r0, segs: r0.segs.concat(put) });
      } else if (r0.k === 'obj' && w.length === 1 && rs[0] && rs[0].k === 'obj') {
        const r1 = rs[0];
        if (![...r0.m].every(([n, e]) => r1.m.has(n) && pkey(r1.m.get(n).p) === pkey(e.p) && vkey(r1.m.get(n).v) === vkey(e.v)) || !r0.rest.every((e) => r1.rest.some((q) => q.src === e.src && pkey(q.p) === pkey(e.p) && vkey(q.v || []) === vkey(e.v || []))) || !alone(c, a0)) continue;
        S1.cells.set(c, v); S1.heap.set(a0, { ...r1, m: new Map([...r1.m].map(([n, e]) => [n, r0.m.has(n) ? r0.m.get(n) : e])), rest: r0.rest.concat(r1.rest.filter((q) => !r0.rest.some((e) => q.src === e.src && vkey(q.v || []) === vkey(e.v || [])))) });
      }
    }
    for (const [a, r0] of S0.heap) {
      const r1 = S1.heap.get(a);
      if (r0.k !== 'array' || !r1 || r1 === r0 || r1.k !== 'array') continue;
      const f = front(r0.segs, r1.segs);
      if (f) S1.heap.set(a, { ...r1, segs: r0.segs.concat(grown(r0.segs, r1.segs)) });
    }
  },
  // does an iteration change anything an other iteration could see?
  touched(S0, S1) {
    for (const [k, v] of S0.cells) { const w = S1.cells.get(k); if (w && w !== v && vkey(w) !== vkey(v)) return true; }
    for (const [a, r] of S0.heap) { const w = S1.heap.get(a); if (w && w !== r && this.recKey(w) !== this.recKey(r)) return true; }
    return false;
  },
  // what one iteration does, relative to its start
  iterSig(start, r, extra) {
    const save = this.st;
    if (!r.st) return `dead|${extra}`;
    this.st = r.st;
    const k = (v) => vkey(this.mat(v || []));
    const out = [extra, k(r.v)];
    for (const [c, v] of start.cells) { const w = r.st.cells.get(c); if (w && w !== v && vkey(w) !== vkey(v)) out.push(`cell ${c}=${k(w)}`); }
    for (const [a, q] of start.heap) {
      const w = r.st.heap.get(a);
      if (!w || w === q) continue;
      if (q.k === 'obj' && w.k === 'obj') {
        for (const [n, e] of w.m) { const o = q.m.get(n); if (!o || (o !== e && vkey(o.v) !== vkey(e.v))) out.push(`#${a}.${n}${pkey(e.p)}=${k(e.v)}`); }
        for (const n of q.m.keys()) if (!w.m.has(n)) out.push(`#${a}-${n}`);
        for (const e of w.rest) if (!q.rest.includes(e)) out.push(`#${a}...${e.src}${pkey(e.p)}${e.key ? k(e.key) : ''}=${e.v ? k(e.v) : ''}`);
      } else if (q.k === 'array' && w.k === 'array' && this.isAppend(q.segs, w.segs)) { const add = w.segs.slice(this.unfilled(q.segs, w.segs).length); if (add.length) out.push(`#${a}+${add.map((e) => `${e.k}${pkey(e.p)}${k(e.v)}`).join(',')}`); } else if (q.ops && w.ops && q.ops.every((e, i) => e === w.ops[i])) { const add = w.ops.slice(q.ops.length); if (add.length) out.push(`#${a}+${add.map((e) => `${e.op}${pkey(e.p)}${k(e.name)}=${k(e.value)}`).join(',')}`); } else if (this.recKey(q) !== this.recKey(w)) out.push(`#${a}:${k([{ t: 'ref', a }])}`);
    }
    out.push(r.st.eff.slice(start.eff.length).map(effKey).join(';'));
    this.st = save;
    return out.join('\n').replace(/#\d+/g, '#');
  },
  // the state after any positive number of iterations over other elements
  laterStart(S0, S1, s, step) {
    let cs = S0;
    let last = S1;
    for (let n = 0; n < 5; n++) {
      if (!last) break;
      const next = cs.clone();
      let stable = true;
      for (const c of this.carried(cs, last)) {
        if (c.cell) { const nv = union(cs.cells.get(c.cell), last.cells.get(c.cell)); if (vkey(nv) !== vkey(cs.cells.get(c.cell))) { stable = false; next.cells.set(c.cell, n >= 3 ? [TOP('loop-carried')] : nv); } }
        else { const j = this.loopRec(cs.heap.get(c.addr), last.heap.get(c.addr), s, true); if (j !== cs.heap.get(c.addr) && this.recKey(j) !== this.recKey(cs.heap.get(c.addr))) { stable = false; next.heap.set(c.addr, j); } }
      }
      for (const [a2, rec] of last.heap) if (!next.heap.has(a2)) next.heap.set(a2, rec);
      for (const [k2, v2] of last.cells) if (!next.cells.has(k2)) next.cells.set(k2, v2);
      for (const [k2, v2] of last.over) next.over.set(k2, v2);
      if (n === 0) {
        // what earlier iterations appended
        for (const [a, r0] of S0.heap) {
          const w = last.heap.get(a);
          if (!w || w === r0) continue;
          if (r0.k === 'array' && w.k === 'array' && this.isAppend(r0.segs, w.segs) && w.segs.length > this.unfilled(r0.segs, w.segs).length) {
            stable = false;
            const q0 = this.unfilled(r0.segs, w.segs);
            next.heap.set(a, { ...r0, segs: q0.concat(w.segs.slice(q0.length).map((e) => ({ k: 'each', src: `earlier ${s.src}`, v: e.v, p: e.p === true && e.k === 'el' ? true : false, isrc: e.isrc }))) });
          } else if (r0.ops && w.ops && w.ops.length > r0.ops.length && r0.ops.every((e, i) => e === w.ops[i])) {
            stable = false;
            next.heap.set(a, { ...r0, ops: r0.ops.concat(w.ops.slice(r0.ops.length).map((e) => (e.op === 'set' || e.op === 'append' ? { ...e, each: e.each || `earlier ${s.src}` } : e))) });
          }
        }
      }
      cs = next;
      if (stable) break;
      last = step(cs).st;
    }
    const out = cs.clone(); out.eff = S0.eff; out.kinds = S0.kinds; out.nfetch = S0.nfetch;
    return out;
  },
  recKey(r) {
    if (!r) return '';
    switch (r.k) {
      case 'obj': return `${[...r.m].map(([k, e]) => `${k}:${vkey(e.v)}:${e.p}`).join(',')}|${r.rest.map((q) => q.src).join(',')}`;
      case 'array': return r.segs.map(segKey).join(',');
      case 'promise': return `${vkey(r.ok)}/${vkey(r.err)}`;
      default: return (r.ops || []).map((e) => `${e.op} ${vkey(e.name || [])}=${vkey(e.value || [])} ${e.each || ''} ${e.p}`).join(',');
    }
  },
  // cells and records (other than pure appends) changed by an iteration
  carried(S0, S1) {
    const out = [];
    for (const [k, v] of S0.cells) { const w = S1.cells.get(k); if (w !== v && w && vkey(w) !== vkey(v)) out.push({ cell: k }); }
    for (const [a, r] of S0.heap) {
      const w = S1.heap.get(a);
      if (w === r || !w) continue;
      if (this.recKey(w) === this.recKey(r)) continue;
      if (r.k === 'array' && w.k === 'array' && this.isAppend(r.segs, w.segs)) continue;
      if (r.ops && w.ops && w.ops.length >= r.ops.length && r.ops.every((e, i) => e === w.ops[i])) continue;
      out.push({ addr: a });
    }
    return out;
  },
  // is every place so far one a loop over the same list wrote?
  fills(segs, k) {
    return segs.every((e) => (e.sized ? e.src === k.src : e.isrc === k.src));
  },
  // the places of `new Array(list.length)` are there to be filled
  unfilled(a, b) { return a.length === 1 && a[0].sized && !(b.length === 1 && b[0].sized) ? [] : a; },
  isAppend(a, b) {
    a = this.unfilled(a, b);
    if (b.length < a.length) return false;
    for (let i = 0; i < a.length; i++) if (a[i] !== b[i] && segKey(a[i]) !== segKey(b[i])) return false;
    return true;
  },
  loopRec(r0, r1, s, carry) {
    if (!r0) return r1;
    if (!r1 || r0 === r1) return r0;
    if (r0.k === 'obj' && r1.k === 'obj') {
      const m = new Map(r0.m);
      for (const [k, e] of r1.m) { const o = r0.m.get(k); if (!o) m.set(k, { ...e, p: false }); else if (o !== e) m.set(k, { ...e, v: union(o.v, e.v), p: o.p === true && e.p === true ? true : false }); }
      const rest = r0.rest.concat(r1.rest.filter((q) => !r0.rest.includes(q)).map((q) => ((q.keyed || (q.dyn && q.key.length === 1 && q.key[0].t === 'x' && q.key[0].op === 'key')) && q.p === true ? q : { ...q, p: false })));
      return { ...r1, m, rest };
    }
    if (r0.k === 'array' && r1.k === 'array') {
      if (this.isAppend(r0.segs, r1.segs)) return carry ? r0 : r1;
      return { ...r1, segs: r0.segs.concat({ k: 'unk', v: [TOP('array rewritten in loop')], p: false }) };
    }
    if (r0.ops && r1.ops) return carry ? r0 : r1;
    return { k: 'top' };
  },
  wrapLoop(S0, start, st, s, may) {
    const out = st.clone();
    const neu = st.eff.slice(start.eff.length);
    out.eff = neu.length ? S0.eff.concat([{ k: 'loop', src: s.src, effs: neu, may }]) : S0.eff.slice();
    const p = (q) => (may ? false : s.p !== true ? s.p : q);
    for (const [a, r0] of start.heap) {
      const r1 = out.heap.get(a);
      // what earlier iterations added is accounted for by `each`
      const b0 = S0.heap.get(a) || r0;
      const grown = b0 !== r0 && ((b0.k === 'array' && r0.k === 'array' && this.isAppend(b0.segs, r0.segs)) || (b0.ops && r0.ops && b0.ops.every((e, i) => e === r0.ops[i])));
      const bs = grown ? b0 : r0;
      if (!r1 || r1 === r0) { if (r1 && grown) out.heap.set(a, b0); continue; }
      if (r0.k === 'array' && r1.k === 'array' && this.isAppend(r0.segs, r1.segs)) {
        const add = r1.segs.slice(this.unfilled(r0.segs, r1.segs).length);
        const segs = add.length > 1 ? add.map((e) => ({ k: 'unk', v: e.v, p: false, src: s.src, why: 'several appends per iteration' }))
          : add.map((e) => (e.k === 'el' ? { k: 'each', src: s.src, srcT: s.srcT, v: e.v, p: p(e.p), flaw: e.wi === 'own' && e.isrc === s.src && s.flaw === REV ? e.flaw : turned(e.flaw, s.flaw) } : { k: 'unk', v: e.v, p: false, why: 'nested' }));
        out.heap.set(a, { ...r1, segs: this.unfilled(bs.segs, r1.segs).concat(segs) });
      } else if (r0.ops && r1.ops) {
        let i = 0; while (i < r0.ops.length && i < r1.ops.length && r0.ops[i] === r1.ops[i]) i++;
        if (i < r0.ops.length && r1.ops.length < r0.ops.length) { out.heap.set(a, { ...r1, ops: r1.ops.concat({ op: 'unk', p: false }) }); continue; }
        const add = r1.ops.slice(i);
        out.heap.set(a, { ...r1, ops: (i === r0.ops.length ? bs.ops : r1.ops.slice(0, i)).concat(add.map((e) => this.eachOp(e, s, p(e.p)))) });
      } else if (r0.k === 'obj' && r1.k === 'obj') {
        // members written under the elements' own names are there for as many elements as the loop visits
        const cut = s.flaw && !/order/.test(s.flaw) ? s.flaw : undefined;
        const rest = s.p !== true || may || cut ? r1.rest.map((e) => (r0.rest.includes(e) || (!cut && p(e.p) === e.p) ? e : { ...e, p: cut ? false : p(e.p), flaw: cut })) : r1.rest;
        out.heap.set(a, rest.every((e, i) => e === r1.rest[i]) ? r1 : { ...r1, rest });
      }
    }
    return out;
  },
  eachOp(e, s, p) {
    const n = e.name && e.name.length === 1 ? e.name[0] : null;
    const v = e.value && e.value.length === 1 ? e.value[0] : null;
    if (e.op === 'delete' || e.op === 'merge' || e.op === 'unk') return { ...e, p: p === true && e.op !== 'unk' ? e.p : false, each: e.each || s.src };
    if (n && v && n.t === 'x' && n.op === 'key' && v.t === 'x' && v.op === 'val' && n.base.k === v.base.k && !n.other && !v.other) return { op: 'merge', src: n.base.k, srcT: n.base, p, via: e.op };
    if (n && n.t === 'c' && e.op === 'set') return { ...e, p: false };
    return { ...e, each: s.src, eachT: s.srcT, p, flaw: turned(e.flaw, s.flaw) };
  },
  loopDiffers(S0, w) { return true; },
  // zero iterations leave arrays empty, which `each` already covers; cells and objects join
  loopJoin(S0, w) {
    const out = w.clone();
    for (const [k, v] of S0.cells) { const x = w.cells.get(k); if (x !== v) out.cells.set(k, union(v, x)); }
    for (const [a, r0] of S0.heap) {
      const r1 = w.heap.get(a);
      if (r1 === r0 || !r1) continue;
      if (r0.k === 'obj' && r1.k === 'obj') out.heap.set(a, this.loopRec(r0, r1));
    }
    const kinds = new Map();
    for (const [k, x] of S0.kinds) { const y = w.kinds.get(k); if (y) kinds.set(k, x === y ? x : new Set([...x, ...y])); }
    out.kinds = kinds;
    for (const [k, v] of w.over) { const u = S0.over.get(k); if (!u) out.over.set(k, union(v, [X('root', k)])); }
    return out;
  },

  // ---- writes -----------------------------------------------------------
  setProp(a, key, v, node) {
    if (!this.st) return;
    switch (a.t) {
      case 'ref': {
        const r = this.rec(a);
        if (r.k === 'obj') {
          if (r.frozen) { this.throwError('TypeError'); return; }
          const k = key.length === 1 && key[0].t === 'c' ? String(key[0].v) : null;
          if (k !== null) {
            const set = this.findSetter(a, k);
            if (set && !r.m.has(k)) { this.callFn(set, [a], [v], node); return; }
            if (a.a <= this.setupMark) this.st.eff.push({ k: 'swrite', target: `#${a.a}.${k}`, addr: a.a, name: k, value: this.mat(v), at: loc(node) });
            const old = r.m.get(k);
            const m = new Map(r.m);
            if (old && !r.rest.some((q) => q.seq > old.seq)) m.set(k, { v, p: true, seq: old.seq });
            else { m.delete(k); m.set(k, { v, p: true, seq: r.seq }); }
            this.st.heap.set(a.a, { ...r, m, seq: r.seq + 1 });
          } else {
            if (a.a <= this.setupMark) this.st.eff.push({ k: 'swrite', target: `#${a.a}[]`, addr: a.a, name: '[]', value: this.mat(v), at: loc(node) });
            this.initProp(a, key, v, node);
          }
          return;
        }
        if (r.k === 'array') {
          const k = key.length === 1 ? key[0] : null;
          if (a.a <= this.setupMark) this.st.eff.push({ k: 'swrite', target: `#${a.a}[]`, addr: a.a, name: '[]', value: this.mat(v), at: loc(node) });
          if (k && k.t === 'c' && typeof k.v === 'number' && r.segs.every((s) => s.k === 'el' && s.p === true) && k.v <= r.segs.length) {
            const segs = r.segs.slice(); segs[k.v] = { k: 'el', v, p: true };
            this.st.heap.set(a.a, { ...r, segs });
          } else if (k && k.t === 'idx' && this.fills(r.segs, k)) {
            // filled in step with the loop: each iteration writes the place of its own element
            const wi = k.other ? 'other' : 'own';
            const segs = r.segs.length === 1 && r.segs[0].sized ? [] : r.segs.slice();
            if (segs.length && segs[segs.length - 1].wi === wi) segs.pop();
            this.st.heap.set(a.a, { ...r, segs: segs.concat({ k: 'el', v, p: true, wi, isrc: k.src }) });
          } else if (k && k.t === 'x' && k.op === 'size' && k.lenOf === a.a && k.at === r.segs) this.st.heap.set(a.a, { ...r, segs: r.segs.concat({ k: 'el', v, p: true }) });
          else this.st.heap.set(a.a, { ...r, segs: r.segs.concat({ k: 'unk', v, p: false }) });
          return;
        }
        this.unknown('write to exotic object', node);
        return;
      }
      case 'x': {
        const k = key.length === 1 && key[0].t === 'c' ? String(key[0].v) : null;
        const ks = [...this.kindsOf(a)];
        if (ks.some((q) => NULLISH.has(q))) { this.nonNull([a]); if (!this.st) return; }
        const target = k !== null ? propKey(a.k, k) : key.length === 1 && key[0].t === 'idx' ? elem(a, key[0].other).k : `${a.k}[?]`;
        this.st.eff.push({ k: 'mutate', target, x: bare(a), name: k, at: loc(node), value: this.mat(v) });
        this.st.over.set(target, v);
        return;
      }
      case 'c': if (a.v === undefined || a.v === null) this.throwError('TypeError'); return;
      case 'cls': this.st.eff.push({ k: 'swrite', target: `class ${a.id}`, name: 'static', value: this.mat(v), at: loc(node) }); this.setStatic(a, key, v); return;
      case 'bi': case 'ext': this.st.eff.push({ k: 'swrite', target: `global ${a.name}.${key.map(akey).join()}`, global: true, at: loc(node), value: this.mat(v) }); return;
      case 'top': this.unknown('write to unknown object', node); return;
      default:
    }
  },
  delProp(a, key, node) {
    if (!this.st) return;
    const k = key.length === 1 && key[0].t === 'c' ? String(key[0].v) : null;
    if (a.t === 'ref') {
      const r = this.rec(a);
      if (r.k === 'obj' && k !== null) {
        if (a.a <= this.setupMark) this.st.eff.push({ k: 'swrite', target: `#${a.a}.${k}`, addr: a.a, name: k, value: [UNDEF], at: loc(node) });
        const m = new Map(r.m); m.delete(k);
        this.st.heap.set(a.a, { ...r, m, rest: r.rest.map((q) => (q.dyn ? q : { ...q, without: (q.without || []).concat(k) })) });
        return;
      }
      if (r.k === 'obj') {
        const m = new Map(r.m);
        for (const [n, e] of m) m.set(n, { ...e, p: false });
        this.st.heap.set(a.a, { ...r, m });
        return;
      }
    }
    if (a.t === 'x') {
      const target = propKey(a.k, k === null ? '?' : k);
      this.st.eff.push({ k: 'mutate', target, x: bare(a), name: k, at: loc(node), value: [UNDEF] });
      this.st.over.set(target, [UNDEF]);
      return;
    }
    this.unknown('delete', node);
  },
  hasIn(k, o, node) {
    const name = k.t === 'c' ? String(k.v) : null;
    if (name === null && o.t === 'ref' && k.t === 'x' && k.op === 'key' && !k.other) { const mine = this.ownKeySplit(this.rec(o), k, () => [FALSE], () => [TRUE]); if (mine) return mine; }
    if (o.t === 'top' || name === null) return [TOP('in')];
    if (o.t === 'x') {
      const ks = [...this.kindsOf(o)];
      if (ks.every((q) => this.typeofStr(q) !== 'object' && this.typeofStr(q) !== 'function')) return this.throwError('TypeError');
      const p = prop(o, name);
      if (this.st.over.has(p.k)) return [TRUE];
      const pk = this.kindsOf(p);
      if (!pk.has('absent')) return [TRUE];
      if (pk.size === 1) return [FALSE];
      return [not(pred(p, ['absent']))];
    }
    if (o.t === 'ref') {
      const r = this.rec(o);
      if (r.k === 'obj') {
        const e = r.m.get(name);
        if (e && (e.p === true)) return [TRUE];
        if (e && e.p !== false && e.mt) return [not(pred(e.mt, ['absent']))];
        const rest = r.rest.filter((q) => !(q.without && q.without.includes(name)) && !(q.declared && !q.open));
        if (!e && !rest.length) return [this.findMember(o, name) ? TRUE : FALSE];
        if (rest.length === 1 && rest[0].srcT && rest[0].p === true && !e) return [not(pred(prop(rest[0].srcT, name), ['absent']))];
        return [bool(`in(${name},#${o.a})`)];
      }
      return [FALSE];
    }
    if (o.t === 'bi' || o.t === 'ext' || o.t === 'cls') return [bool(`in(${name},${akey(o)})`)];
    return this.throwError('TypeError');
  },
  instOf(a, c, node) {
    if (a.t === 'top' || c.t === 'top') return [TOP('instanceof')];
    if (a.t === 'c' || a.t === 's' || a.t === 'qs' || a.t === 'json') return [FALSE];
    const cname = c.t === 'bi' ? c.name : c.t === 'cls' ? `cls:${c.id}` : c.t === 'x' && c.op === 'gcls' ? c.name : null;
    if (a.t === 'ref') {
      const r = this.rec(a);
      const kindName = { array: 'Array', hdr: 'Headers', usp: 'URLSearchParams', form: 'FormData', map: 'Map', set: 'Set', promise: 'Promise' }[r.k];
      if (cname === 'Object') return [TRUE];
      if (r.k === 'obj') {
        if (typeof r.cls === 'string') { let q = r.cls; while (q) { if (q === cname) return [TRUE]; q = CALLERR[q]; } return [FALSE]; }
        let q = r.cls;
        while (q) { if (q.t === 'cls' && cname === `cls:${q.id}`) return [TRUE]; if (q.t === 'bi' && (q.name === cname || CALLERR[q.name] === cname)) return [TRUE]; q = q.t === 'cls' ? this.superOf(q) : null; }
        return [FALSE];
      }
      return [C(kindName === cname)];
    }
    if (a.t === 'x') {
      if (a.op === 'err' && cname) {
        if (a.cls) { let q = a.cls; while (q) { if (q === cname) return [TRUE]; q = CALLERR[q]; } return [FALSE]; }
        if (a.notCls && a.notCls.includes(cname)) return [FALSE];
        return [bool(`inst(${a.k},${cname})`)];
      }
      const ks = [...this.kindsOf(a)];
      if (cname) {
        const want = cname === 'Array' ? ['arr', 'earr'] : cname === 'Blob' ? ['inst:Blob', 'inst:File'] : cname === 'Uint8Array' ? ['inst:Uint8Array', 'inst:Buffer'] : [`inst:${cname}`];
        if (cname === 'Object') return [pred(a, ks.filter((k) => this.typeofStr(k) === 'object' && k !== 'null'))];
        const can = ks.some((k) => want.includes(k));
        if (!can) {
          if (ks.includes('obj') && !this.typesOf(a).length) return [bool(`inst(${a.k},${cname})`)];
          return [FALSE];
        }
        return this.simp(pred(a, want), a);
      }
      return [bool(`inst(${a.k},${akey(c)})`)];
    }
    if (a.t === 'fn' || a.t === 'bi') return [C(cname === 'Function')];
    return [FALSE];
  },

  // ---- classes ----------------------------------------------------------
  mkClass(node, env) {
    return { t: 'cls', id: `${nid(node)}@${env.id === 'g' ? 'g' : env.id}`, node, env };
  },
  superOf(cls) {
    const h = cls.node.heritageClauses && cls.node.heritageClauses.find((x) => x.token === S.ExtendsKeyword);
    if (!h) return null;
    const v = this.ev(h.types[0].expression, cls.env);
    return v && v.length === 1 ? v[0] : null;
  },
  classMember(cls, name, pick) {
    for (let c = cls; c && c.t === 'cls'; c = this.superOf(c)) {
      for (const m of c.node.members) {
        if (m.modifiers && m.modifiers.some((q) => q.kind === S.StaticKeyword)) continue;
        if (m.name && m.name.text === name && pick(m)) return { m, c };
      }
    }
    return null;
  },
  methodFn(found) { return this.closure(found.m, found.c.env, { home: found.c }); },
  findMember(ref, name) {
    const r = this.rec(ref);
    if (!r.cls || typeof r.cls === 'string') return null;
    const f = this.classMember(r.cls, name, (m) => m.kind === S.MethodDeclaration && m.body);
    if (!f) return null;
    if (name === 'constructor') return null;
    return [this.methodFn(f)];
  },
  findGetter(ref, name) {
    const r = this.rec(ref);
    if (!r.cls || typeof r.cls === 'string') return null;
    const f = this.classMember(r.cls, name, (m) => m.kind === S.GetAccessor);
    return f ? this.methodFn(f) : null;
  },
  findSetter(ref, name) {
    const r = this.rec(ref);
    if (!r.cls || typeof r.cls === 'string') return null;
    const f = this.classMember(r.cls, name, (m) => m.kind === S.SetAccessor);
    return f ? this.methodFn(f) : null;
  },
  superMember(name) {
    const home = this.act.home;
    const sup = home && this.superOf(home);
    if (!sup || sup.t !== 'cls') return [UNDEF];
    const f = this.classMember(sup, name, (m) => m.kind === S.MethodDeclaration && m.body);
    return f ? [this.methodFn(f)] : [UNDEF];
  },
  staticMember(cls, name, node) {
    for (let c = cls; c && c.t === 'cls'; c = this.superOf(c)) {
      const ck = `static ${c.id}.${name}`;
      if (this.st.cells.has(ck)) return this.st.cells.get(ck);
      for (const m of c.node.members) {
        if (!(m.modifiers && m.modifiers.some((q) => q.kind === S.StaticKeyword)) || !m.name || m.name.text !== name) continue;
        if (m.kind === S.MethodDeclaration) return [this.closure(m, c.env, { home: c })];
        if (m.kind === S.PropertyDeclaration) {
          const save = this.act; this.act = { thisV: [c], returns: [], env: c.env };
          const v = m.initializer ? this.ev(m.initializer, c.env) : [UNDEF];
          this.act = save;
          if (this.st) this.st.cells.set(ck, v);
          return v;
        }
        if (m.kind === S.GetAccessor) return this.callFn(this.closure(m, c.env, { home: c }), [c], [], node);
      }
    }
    if (name === 'name') return [C((cls.node.name && cls.node.name.text) || '')];
    return [UNDEF];
  },
  setStatic(cls, key, v) {
    if (key.length === 1 && key[0].t === 'c') this.st.cells.set(`static ${cls.id}.${key[0].v}`, v);
  },
  construct(a, args, node) {
    if (!this.st) return [];
    if (a.t === 'cls') {
      const ref = this.alloc({ k: 'obj', cls: a, m: new Map(), rest: [], seq: 0 });
      const r = this.runCtor(a, ref, args, node);
      return this.st ? r : [];
    }
    if (a.t === 'bi' || (a.t === 'x' && a.op === 'gcls')) return this.constructBuiltin(a.name, args, node);
    if (a.t === 'ext') {
      this.st.eff.push({ k: 'ext', name: `new ${a.name}`, args: args.map((v) => this.mat(v)), at: loc(node) });
      const o = { t: 'exto', name: a.name, args: args.map((v) => this.mat(v)) };
      if (/^Text(En|De)coder$/.test(a.name)) return [o];
      return this.mayFail(`new ${a.name}(${o.args.map(vkey).join()})`, [o], [X('err', `err:new ${a.name}`, {})]);
    }
    if (a.t === 'fn') return this.unknown('constructor function', node);
    if (a.t === 'top') return this.unknown('new of unknown', node);
    return this.throwError('TypeError');
  },
  runCtor(cls, ref, args, node) {
    const sup = this.superOf(cls);
    const ctor = cls.node.members.find((m) => m.kind === S.Constructor && m.body);
    if (!ctor) {
      if (sup) this.initSuper(sup, ref, args, node);
      if (this.st) this.initFields(cls, ref);
      return [ref];
    }
    const fn = this.closure(ctor, cls.env, { home: cls });
    // run the constructor as a function whose fields initialise first (base class) or at super()
    const save = this.ctorCtx; this.ctorCtx = { cls, ref };
    const env0 = this.bindCtor(fn, ref, args, node, !sup);
    this.ctorCtx = save;
    return [ref];
  },
  bindCtor(fn, ref, args, node, initNow) {
    const saveAct = this.act; const saveH = this.handlers; const saveLoops = this.loops;
    const env = this.newEnv(fn.env);
    const act = { fn, env, thisV: [ref], returns: [], isAsync: false, home: fn.home, args };
    this.act = act; this.loops = []; this.stack.push(fn.node);
    this.bindParams(fn.node, args, env);
    const pprops = () => {
      for (const p of fn.node.parameters) {
        if (!this.st) return;
        if (p.modifiers && p.modifiers.length && p.name.kind === S.Identifier) {
          const cell = env.vars.get(p);
          this.initProp(ref, [C(p.name.text)], this.st.cells.get(cell), p);
        }
      }
    };
    act.afterSuper = () => { pprops(); if (this.st) this.initFields(fn.home, ref); };
    if (this.st && initNow) act.afterSuper();
    if (this.st) this.execStmts(fn.node.body.statements, env);
    if (this.st) act.returns.push({ st: this.st, v: [UNDEF] });
    this.stack.pop(); this.act = saveAct; this.loops = saveLoops;
    this.joinReturns(act.returns);
    return env;
  },
  superCall(args, node, env) {
    const act = this.act;
    const sup = this.superOf(act.home);
    const ref = act.thisV[0];
    if (sup) this.initSuper(sup, ref, args, node);
    if (this.st && act.afterSuper) act.afterSuper();
  },
  initSuper(sup, ref, args, node) {
    if (sup.t === 'cls') { this.runCtor(sup, ref, args, node); return; }
    if (sup.t === 'bi' && (sup.name === 'Error' || CALLERR[sup.name])) {
      this.initProp(ref, [C('message')], args[0] || [C('')], node);
      this.initProp(ref, [C('name')], [C(sup.name)], node);
      return;
    }
    this.unknown('extends builtin', node);
  },
  initFields(cls, ref) {
    const saveAct = this.act;
    this.act = { ...(saveAct || {}), thisV: [ref], returns: saveAct ? saveAct.returns : [], home: cls, env: cls.env };
    for (const m of cls.node.members) {
      if (!this.st) break;
      if (m.kind !== S.PropertyDeclaration) continue;
      if (m.modifiers && m.modifiers.some((q) => q.kind === S.StaticKeyword || q.kind === S.DeclareKeyword || q.kind === S.AbstractKeyword)) continue;
      const v = m.initializer ? this.ev(m.initializer, cls.env) : [UNDEF];
      if (!this.st) break;
      if (!m.initializer && this.rec(ref).m.has(m.name.text)) continue;
      this.initProp(ref, this.propName(m.name, cls.env), v, m);
    }
    this.act = saveAct;
  },

  // ---- materialisation: heap-free snapshot of a value ---------------------
  mat(v, seen = new Set()) {
    if (!this.st) return v;
    if (v.length === 1 && v[0].t !== 'ref' && v[0].t !== 'x' && v[0].t !== 'tup') return v;
    return v.map((a) => {
      if (a.t === 'tup') return { t: 'tup', items: a.items.map((x) => this.mat(x, seen)) };
      if (a.t === 'x') {
        if (this.st.over.size && (a.op === 'root' || a.op === 'prop' || a.op === 'elem')) {
          const subs = [...this.st.over.keys()].filter((k) => k !== a.k && k.startsWith(a.k) && '.['.includes(k[a.k.length]));
          if (subs.length) {
            const m = new Map();
            for (const k of subs) { const n = k.slice(a.k.length + 1); if (/^[\w$]+$/.test(n)) m.set(n, { v: this.mat(this.st.over.get(k), seen), p: true, seq: 1 }); }
            if (m.size) return { t: 'o', m, rest: [{ src: a.k, srcT: bare(a), p: true, seq: 0, open: true }] };
            if (subs.some((k) => k.startsWith(`${a.k}[`))) {
              const el = elem(a); const ev = this.mat(this.st.over.get(el.k) || [el], seen);
              return { t: 'a', segs: [{ k: 'each', src: a.k, srcT: bare(a), v: ev, p: true }] };
            }
          }
        }
        return a;
      }
      if (a.t !== 'ref') return a;
      if (seen.has(a.a)) return TOP('cycle');
      const r = this.rec(a);
      if (!r) return TOP('freed');
      const s2 = new Set(seen); s2.add(a.a);
      switch (r.k) {
        case 'obj': {
          const m = new Map();
          for (const [k, e] of r.m) {
            if (e.get) { const vv = this.callFn(e.get, [a], []); m.set(k, { v: this.st ? this.mat(vv, s2) : [TOP('getter')], p: true, seq: e.seq }); continue; }
            m.set(k, { v: this.mat(e.v, s2), p: e.p, mt: e.mt, seq: e.seq });
          }
          return { t: 'o', m, rest: r.rest.map((q) => (q.dyn ? { ...q, val: this.mat(q.val, s2) } : q)), cls: r.cls ? (typeof r.cls === 'string' ? r.cls : (r.cls.node && r.cls.node.name && r.cls.node.name.text) || 'anon') : undefined };
        }
        case 'array': return { t: 'a', segs: r.segs.map((s) => ({ ...s, v: this.mat(s.v, s2) })) };
        case 'hdr': case 'usp': case 'form': case 'map': case 'set':
          return { t: r.k, ops: r.ops.map((e) => ({ ...e, name: e.name && this.mat(e.name, s2), value: e.value && this.mat(e.value, s2) })) };
        case 'promise': return { t: 'promise', ok: this.mat(r.ok, s2), err: this.mat(r.err, s2), dec: r.dec };
        default: return TOP('merged');
      }
    });
  },
};
Object.assign(Interp.prototype, Objects);
