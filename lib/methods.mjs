// Abstract interpreter, part 6: methods of strings, arrays, collections, library objects.
import { CUT } from './objects.mjs';
import { ts, loc } from './program.mjs';
import { C, UNDEF, NULL, TOP, TRUE, FALSE, akey, join, union, vkey, NULLISH } from './domain.mjs';
import { X, bare, call, elem, prop, root, bool, pred, not } from './terms.mjs';
import { Interp } from './core.mjs';
import { RESP } from './builtins.mjs';

const one = (v) => (v && v.length === 1 ? v[0] : null);
const cst = (v) => (v && v.length === 1 && v[0].t === 'c' ? v[0].v : undefined);
const STRM = new Set('startsWith endsWith includes indexOf lastIndexOf trim trimStart trimEnd toLowerCase toUpperCase replace replaceAll split slice substring substr concat charAt charCodeAt codePointAt padStart padEnd match matchAll search at repeat normalize localeCompare toString valueOf'.split(' '));
const STRBOOL = new Set(['startsWith', 'endsWith', 'includes']);
const STRNUM = new Set(['indexOf', 'lastIndexOf', 'charCodeAt', 'codePointAt', 'search', 'localeCompare']);
const MUTARR = new Set('push pop shift unshift splice sort reverse fill copyWithin'.split(' '));

// a regular expression that only asks for a fixed text at a fixed place
function litRegex(src) {
  const pre = src.startsWith('^'); const post = /(^|[^\\])\$$/.test(src) && src.endsWith('$');
  const b = src.slice(pre ? 1 : 0, post ? -1 : undefined);
  if (pre && post) return null;
  let lit = '';
  for (let i = 0; i < b.length; i++) {
    const c = b[i];
    if (c === '\\') { const d = b[++i]; if (!d || /[a-zA-Z0-9]/.test(d)) return null; lit += d; } else if (/[.*+?()[\]{}|^$]/.test(c)) return null; else lit += c;
  }
  return lit ? { lit, how: pre ? 'startsWith' : post ? 'endsWith' : 'includes' } : null;
}
export const Methods = {
  callMethod(recv, name, args, node, mode) {
    if (name === '@@call') return [];
    switch (recv.t) {
      case 'fn': case 'host': case 'bm': case 'bi': case 'cls': return this.fnMethod(recv, name, args, node, mode);
      case 'ext': return this.callExt({ ...recv, name: `${recv.name}.${name}` }, args, node, mode);
      case 'exto': return this.callExt({ t: 'ext', name: `${recv.name}#${name}`, recv }, args, node, mode);
      case 're': {
        const key = `${name}(${recv.src},${args.map((v) => vkey(this.mat(v))).join(',')})`;
        if (name === 'test') {
          const m = /^\/(.*)\/([a-z]*)$/s.exec(recv.src); const a = args[0] || [UNDEF];
          if (m && !/[gy]/.test(m[2])) {
            if (cst(a) !== undefined) return [C(new RegExp(m[1], m[2]).test(String(cst(a))))];
            const q = litRegex(m[1]);
            if (q && !/[^us]/.test(m[2]) && a.length === 1 && ((a[0].t === 'x' && [...this.kindsOf(a[0])].every((k) => this.typeofStr(k) === 'string')) || a[0].t === 's')) return this.strMethod(a[0], q.how, [[C(q.lit)]], node);
          }
          return [bool(key)];
        }
        return [X('call', key, { name, args: args.map((v) => this.mat(v)), kinds: new Set(['arr', 'null']) })];
      }
      case 'idx': return [call(`String`, [[recv]], 'nstr')];
      case 'tup': return this.arrayMethod([recv], recv.items.map((x) => ({ k: 'el', v: x, p: true })), null, name, args, node, mode);
      case 'c':
        if (typeof recv.v === 'string') return this.strMethod(recv, name, args, node);
        if (name === 'toString') return [C(String(recv.v))];
        if (name === 'valueOf') return [recv];
        if (typeof recv.v === 'number' && recv.v[name]) return [C(recv.v[name](...args.map(cst)))];
        return this.throwError('TypeError');
      case 's': case 'qs': case 'json': return this.strMethod(recv, name, args, node);
      case 'x': return this.xMethod(recv, name, args, node, mode);
      case 'ref': return this.refMethod(recv, name, args, node, mode);
      case 'top': return [recv];
      default: return this.unknown(`method ${name} of ${recv.t}`, node);
    }
  },
  fnMethod(f, name, args, node, mode) {
    if (name === 'call') return this.callAtom(this.withThis(f, args[0]), args[0] || [UNDEF], args.slice(1), node, mode);
    if (name === 'apply') {
      const segs = args[1] && cst(args[1]) === undefined && !(one(args[1]) === UNDEF) ? this.iterSegs(args[1], node) : [];
      if (!this.st) return [];
      if (!segs.every((s) => s.k === 'el' && s.p === true)) return this.unknown('apply with unknown arguments', node);
      return this.callAtom(this.withThis(f, args[0]), args[0] || [UNDEF], segs.map((s) => s.v), node, mode);
    }
    if (name === 'bind') {
      const g = this.withThis(f, args[0]);
      if (g.t === 'fn') return [{ ...g, id: `${g.id}b${this.fresh()}`, boundThis: args[0], boundArgs: (g.boundArgs || []).concat(args.slice(1)) }];
      if (args.length <= 1) return [g];
      return this.unknown('bind of builtin', node);
    }
    if (name === 'toString') return this.topv('function source', node);
    return this.unknown(`function method ${name}`, node);
  },
  withThis(f, thisV) { // a bound builtin method re-targeted at another receiver
    if (f.t === 'bm' && thisV && thisV.length === 1 && thisV[0].t !== 'c') return { ...f, recv: thisV[0] };
    return f;
  },
  strMethod(s, name, args, node) {
    if (!STRM.has(name)) return name === 'hasOwnProperty' ? [FALSE] : this.throwError('TypeError');
    if (name === 'toString' || name === 'valueOf') return [s];
    if (s.t === 'c' && args.every((v) => cst(v) !== undefined)) {
      const r = s.v[name](...args.map(cst));
      if (r === null || typeof r !== 'object') return [C(r)];
      if (Array.isArray(r)) return [this.newArr(r.map((x) => ({ k: 'el', v: [C(x)], p: true })))];
    }
    if (s.t === 'c' && ['replace', 'replaceAll', 'split', 'search'].includes(name) && args.length && args[0].length === 1 && args[0][0].t === 're' && args.slice(1).every((v) => cst(v) !== undefined)) {
      const m = /^\/(.*)\/([a-z]*)$/s.exec(args[0][0].src);
      const r = s.v[name](new RegExp(m[1], m[2]), ...args.slice(1).map(cst));
      return Array.isArray(r) ? [this.newArr(r.map((x) => ({ k: 'el', v: [C(x)], p: true })))] : [C(r)];
    }
    if (s.t === 'c' && (name === 'replace' || name === 'replaceAll') && args.length === 2 && args[0].length === 1 && args[1].length === 1 && args[1][0].t === 'fn'
      && (args[0][0].t === 're' || (args[0][0].t === 'c' && typeof args[0][0].v === 'string'))) { // each match is known: the function runs on each
      const m = args[0][0].t === 're' ? /^\/(.*)\/([a-z]*)$/s.exec(args[0][0].src) : null;
      const hits = [];
      s.v[name](m ? new RegExp(m[1], m[2]) : args[0][0].v, (...g) => { hits.push(g); return ''; });
      if (hits.length <= 64) {
        const out = []; let at = 0;
        for (const g of hits) {
          const i = g.findIndex((q, n) => n && typeof q === 'number');
          out.push([C(s.v.slice(at, g[i]))], this.toStr(this.callVal(args[1], [UNDEF], g.filter((q) => typeof q !== 'object').map((q) => [C(q)]), node)));
          if (!this.st) return [];
          at = g[i] + g[0].length;
        }
        return this.concat(...out, [C(s.v.slice(at))]);
      }
    }
    if (s.t === 'x') s = bare(s);
    const ar = args.map((v) => this.mat(v));
    if (ar.some((v) => v.some((a) => a.t === 'top'))) return [TOP(name)];
    if (name === 'concat') return this.concat([s], ...args.map((v) => this.toStr(v)));
    if (s.t === 's' && typeof s.parts[0] === 'string') {
      const c = cst(args[0]); const h = s.parts[0];
      if (name === 'startsWith' && typeof c === 'string' && args.length === 1) {
        if (h.startsWith(c)) return [TRUE];
        if (!c.startsWith(h)) return [FALSE];
      }
      if (name === 'includes' && typeof c === 'string' && s.parts.some((p) => typeof p === 'string' && p.includes(c))) return [TRUE];
      if ((name === 'slice' || name === 'substring') && typeof c === 'number' && args.length === 1 && c >= 0 && c <= h.length) return [this.mkStr([C(h.slice(c)), ...s.parts.slice(1).map((p) => (typeof p === 'string' ? C(p) : p))])];
    }
    if (name === 'endsWith' && s.t === 's') {
      const c = cst(args[0]); const h = s.parts[s.parts.length - 1];
      if (typeof c === 'string' && typeof h === 'string') { if (h.endsWith(c)) return [TRUE]; if (!c.endsWith(h)) return [FALSE]; }
    }
    if (STRBOOL.has(name)) return [bool(`${name}(${[[s], ...ar].map(vkey).join(',')})`, { name, args: [[s], ...ar] })];
    if (STRNUM.has(name)) return [call(name, [[s], ...ar], 'num')];
    if (name === 'match') return [X('call', `match(${[[s], ...ar].map(vkey).join(',')})`, { name, args: [[s], ...ar], kinds: new Set(['arr', 'null']) })];
    if (name === 'split') return [X('call', `split(${[[s], ...ar].map(vkey).join(',')})`, { name, args: [[s], ...ar], kinds: new Set(['arr']) })];
    if (name === 'replace' || name === 'replaceAll') {
      if (args[1] && args[1].some((a) => a.t === 'fn')) {
        const f = args[1];
        const v = this.callVal(f, [UNDEF], [[X('root', `match#${this.fresh()}`, { kinds: new Set(['str']) })]], node);
        // the stricter RFC 3986 encoding of an encoded component: decodes to the same text
        if (this.st && s.t === 'x' && s.op === 'enc' && args[0].length === 1 && args[0][0].t === 're' && /^\/\[[!'()*~]+\]\/gu?$/.test(args[0][0].src)
          && v.length === 1 && v[0].t === 's' && typeof v[0].parts[0] === 'string' && v[0].parts[0] === '%' && v[0].parts.length === 2 && /charCodeAt|codePointAt/.test(v[0].parts[1].k || '')) return [s];
        return [call(name, [[s], ar[0], this.st ? this.mat(v) : [UNDEF]], 'str')];
      }
    }
    return [call(name, [[s], ...ar], 'str')];
  },
  xMethod(x, name, args, node, mode) {
    if (x.op === 'resp' && RESP.has(name)) return this.respMethod(x, name, node);
    const ks = [...this.kindsOf(x)];
    if (ks.some((k) => NULLISH.has(k))) {
      this.nonNull([x]);
      if (!this.st) return [];
      return this.xMethod({ ...x, rk: new Set([...this.kindsOf(x)]) }, name, args, node, mode);
    }
    const str = ks.every((k) => this.typeofStr(k) === 'string');
    if (str && STRM.has(name)) return this.strMethod(ks.every((k) => k === 'estr') ? C('') : x, name, args, node);
    if (ks.every((k) => k === 'arr' || k === 'earr')) return this.arrayMethod([x], null, x, name, args, node, mode);
    const inst = ks.length && ks.every((k) => k.startsWith('inst:')) ? ks[0].slice(5) : null;
    switch (inst) {
      case 'Headers': case 'URLSearchParams': case 'FormData': return this.xColl(x, inst, name, args, node);
      case 'Promise': return this.promiseMethod({ ok: [call('await', [[bare(x)]])], err: [X('err', `err:await(${x.k})`, {})], dec: bool(`ok:await(${x.k})`) }, name, args, node, mode);
      case 'Error': if (name === 'toString') return [call('String', [[bare(x)]], 'nstr')]; break;
      case 'Response': return this.promiseLike(`${x.k}.${name}`, [[bare(x)]]);
      case 'Blob': case 'File':
        if (['text', 'arrayBuffer', 'bytes'].includes(name)) return this.promiseLike(`${name}(${x.k})`, [[bare(x)]], name === 'text' ? 'str' : name === 'bytes' ? 'inst:Uint8Array' : 'inst:ArrayBuffer');
        return [call(name, [[bare(x)], ...args.map((v) => this.mat(v))])];
      case 'Date':
        if (/^set/.test(name)) { this.mutate(x, name, args, node); return [call(name, [[bare(x)]], 'num')]; }
        return [call(name, [[bare(x)], ...args.map((v) => this.mat(v))], /String|JSON/.test(name) ? 'nstr' : 'num')];
      case 'Buffer': case 'Uint8Array':
        if (['write', 'fill', 'set'].includes(name)) this.mutate(x, name, args, node);
        return [call(`${inst}.${name}`, [[bare(x)], ...args.map((v) => this.mat(v))], name === 'toString' ? 'str' : name === 'equals' ? 'bool' : 'inst:Buffer')];
      case 'Map': case 'Set':
        if (['set', 'add', 'delete', 'clear'].includes(name)) this.mutate(x, name, args, node);
        return this.topv(`caller ${inst}.${name}`, node);
      default:
    }
    if (name === 'toString' || name === 'toLocaleString') return [name === 'toString' ? this.mkStr([bare(x)]) : call(name, [[bare(x)]], 'str')];
    if (name === 'valueOf') return [x];
    if (name === 'hasOwnProperty') return this.cross(args[0] || [UNDEF], [x], (k, o) => this.hasIn(k, o, node));
    if (ks.every((k) => k === 'num' || k === 'zero')) return [call(name, [[bare(x)], ...args.map((v) => this.mat(v))], 'str')];
    // mixed string/array receivers share `includes`, `slice`, `concat`, ...
    if (ks.some((k) => k === 'arr' || k === 'earr') && STRM.has(name)) {
      this.note(x);
      const base = this.st; const s1 = base.clone(); const s2 = base.clone();
      this.st = s1; this.restrictKinds(x, (k) => k === 'arr' || k === 'earr'); const t1 = this.st;
      this.st = s2; this.restrictKinds(x, (k) => k !== 'arr' && k !== 'earr'); const t2 = this.st;
      return this.merge([[t1, () => this.xMethod({ ...x, rk: new Set(this.kindsOf(x)) }, name, args, node, mode)], [t2, () => this.xMethod({ ...x, rk: new Set(this.kindsOf(x)) }, name, args, node, mode)]]);
    }
    if (MUTARR.has(name)) this.mutate(x, name, args, node);
    const p = prop(x, name);
    return this.callAtom(this.st.over.has(p.k) ? this.st.over.get(p.k)[0] : p, [x], args, node, mode);
  },
  promiseLike(key, args, res) {
    return [this.promise([call(key, args, res)], [X('err', `err:${key}`, {})], bool(`ok:${key}`))];
  },
  mutate(x, how, args, node) {
    this.st.eff.push({ k: 'mutate', target: `${x.k}.${how}()`, x: bare(x), name: null, how, at: loc(node), value: args.length ? this.mat(args[args.length - 1]) : [UNDEF] });
  },
  xColl(x, inst, name, args, node) {
    const c = cst(args[0]);
    switch (name) {
      case 'entries': return [this.newArr(this.iterSegs([x], node))];
      case 'keys': return [this.newArr(this.iterSegs([x], node).map((s) => ({ ...s, v: s.k === 'each' ? this.indexOf(s.v, 0, node) : s.v })))];
      case 'values': return [this.newArr(this.iterSegs([x], node).map((s) => ({ ...s, v: s.k === 'each' ? this.indexOf(s.v, 1, node) : s.v })))];
      case 'forEach': {
        this.runLoop(this.iterSegs([x], node), (el) => { const k = this.indexOf(el, 0, node); const v = this.indexOf(el, 1, node); return this.st ? this.callVal(args[0], [UNDEF], [v, k, [x]], node) : []; });
        return [UNDEF];
      }
      case 'get': {
        if (inst === 'Headers' && typeof c === 'string') {
          const h = X('hget', `hget(${x.k},${c.toLowerCase()})`, { base: bare(x), name: c.toLowerCase(), kinds: new Set(['absent', 'estr', 'str']) });
          const ks = this.kindsOf(h);
          if (!ks.has('absent')) return [h];
          if (ks.size === 1) return [NULL];
          this.note(h);
          const base = this.st; const s1 = base.clone(); const s2 = base.clone();
          this.st = s1; this.restrictKinds(h, (k) => k === 'absent'); const t1 = this.st;
          this.st = s2; this.restrictKinds(h, (k) => k !== 'absent'); const t2 = this.st;
          return this.merge([[t1, () => [NULL]], [t2, () => [{ ...h, rk: new Set(['estr', 'str']) }]]]);
        }
        return [X('call', `get(${x.k},${args.map((v) => vkey(this.mat(v))).join(',')})`, { name: 'get', args: [[bare(x)], ...args.map((v) => this.mat(v))], kinds: new Set(['null', 'estr', 'str']) })];
      }
      case 'has': {
        if (inst === 'Headers' && typeof c === 'string') {
          const h = X('hget', `hget(${x.k},${c.toLowerCase()})`, { base: bare(x), name: c.toLowerCase(), kinds: new Set(['absent', 'estr', 'str']) });
          const ks = this.kindsOf(h);
          if (!ks.has('absent')) return [TRUE];
          if (ks.size === 1) return [FALSE];
          return [not(pred(h, ['absent']))];
        }
        return [bool(`has(${x.k},${args.map((v) => vkey(this.mat(v))).join(',')})`)];
      }
      case 'toString': return [call('String', [[bare(x)]], 'str')];
      case 'set': case 'append': case 'delete': case 'sort':
        this.mutate(x, name, args, node);
        if (inst === 'Headers' && typeof c === 'string') this.st.kinds.set(`hget(${x.k},${c.toLowerCase()})`, new Set(name === 'delete' ? ['absent'] : ['estr', 'str']));
        return [UNDEF];
      default: return this.topv(`${inst}.${name}`, node);
    }
  },
  refMethod(ref, name, args, node, mode) {
    const r = this.rec(ref);
    switch (r.k) {
      case 'array': return this.arrayMethod([ref], r.segs, ref, name, args, node, mode);
      case 'hdr': case 'usp': case 'form': return this.collMethod(ref, r, name, args, node);
      case 'map': case 'set': return this.mapMethod(ref, r, name, args, node);
      case 'promise': return this.promiseMethod(r, name, args, node, mode);
      case 'obj':
        if (name === 'hasOwnProperty') return this.cross(args[0] || [UNDEF], [ref], (k, o) => this.hasIn(k, o, node));
        if (name === 'toString') return r.err ? this.concat(this.getProp([ref], 'name', node), [C(': ')], this.getProp([ref], 'message', node)) : [C('[object Object]')];
        if (name === 'valueOf') return [ref];
        return this.throwError('TypeError');
      default: return this.unknown(`method ${name} of merged object`, node);
    }
  },
  collMethod(ref, r, name, args, node) {
    const isH = r.k === 'hdr';
    const nm = () => (isH ? this.lname(args[0] || [UNDEF]) : this.strOf(args[0] || [UNDEF]));
    const pOf = (v) => (v.length === 1 ? true : false);
    const at = loc(node);
    switch (name) {
      case 'set': case 'append': {
        let value = r.k === 'form' ? this.formVal(args[1] || [UNDEF]) : this.toStr(args[1] || [UNDEF]);
        if (!this.st) return [];
        const names = nm();
        for (const n of names) {
          // deleted just before under the same name: as good as set
          const del = isH && name === 'append' && n.t === 'x' && n.op === 'key' ? this.rec(ref).ops.filter((e) => e.op === 'delete' && !e.each && e.name && e.name.length === 1 && akey(e.name[0]) === akey(n)).pop() : null;
          if (del && del.p !== true) { this.pushOp(ref, { op: 'unk', p: false, at }); continue; }
          this.pushOp(ref, { op: del ? 'set' : isH || name === 'set' ? name : 'append', name: [n], value, filename: args[2] && this.mat(args[2]), p: pOf(names), at });
        }
        return [UNDEF];
      }
      case 'delete': { const names = nm(); for (const n of names) this.pushOp(ref, { op: 'delete', name: [n], p: pOf(names), at }); return [UNDEF]; }
      case 'get': case 'has': {
        const c = cst(args[0]);
        if (isH && typeof c === 'string') {
          const v = this.hdrGet(r.ops, c.toLowerCase());
          if (name === 'get') return this.absentAs(v, NULL);
          return this.absentAs(v, UNDEF).map((a) => (a.t === 'top' ? a : C(!(a.t === 'c' && a.v === undefined))));
        }
        if (typeof c === 'string') {
          const es = this.normOps(r.ops).filter((e) => e.op === 'merge' || e.op === 'unk' || !e.name || e.name.length !== 1 || e.name[0].t !== 'c' || String(e.name[0].v) === c);
          if (!es.length) return [name === 'get' ? NULL : FALSE];
          if (es[0].p === true && es[0].op === 'append' && !es[0].each && es[0].name[0].t === 'c') return name === 'get' ? es[0].value : [TRUE];
          if (name === 'has' && es.every((e) => e.op === 'append' && e.p !== true)) return [bool(`has(#${ref.a},${c})#${this.fresh()}`)];
        }
        // one of the names the caller's own headers have, against the names set here
        const k = args[0] && args[0].length === 1 ? args[0][0] : null;
        if (isH && k && k.t === 'x' && k.op === 'key' && k.k.startsWith('hkey(') && !k.other) {
          const mine = (e) => e.name && e.name.length === 1 && e.name[0].t === 'x' && e.name[0].op === 'key' && e.name[0].k.startsWith('hkey(') && e.name[0].base.k === k.base.k;
          const fixed = r.ops.filter((e) => !mine(e));
          if (fixed.every((e) => e.op !== 'merge' && e.op !== 'unk' && e.p === true && e.name && e.name.length === 1 && e.name[0].t === 'c')) {
            const brs = []; let rest = this.st;
            for (const n of new Set(fixed.map((e) => String(e.name[0].v).toLowerCase()))) {
              const v = this.hdrGet(fixed, n);
              if (!rest || (v.length === 1 && v[0].t === 'c' && v[0].v === undefined)) continue;
              this.st = rest;
              const [t, f] = this.splitTruth([bool(`eq(${k.k},${JSON.stringify(n)})`)]);
              rest = f;
              if (t) brs.push([t, () => (name === 'has' ? [TRUE] : this.absentAs(v, NULL).map((q) => ({ ...q, hcur: { ref, key: k } })))]);
            }
            if (rest) brs.push([rest, () => (name === 'has' ? [FALSE] : [NULL])]);
            return this.merge(brs);
          }
        }
        return this.topv(`${r.k}.${name}`, node);
      }
      case 'entries': return [this.newArr(this.entrySegs({ ops: this.normOps(r.ops) }, ref))];
      case 'keys': case 'values': {
        const segs = this.entrySegs({ ops: this.normOps(r.ops) }, ref);
        return [this.newArr(segs.map((s) => ({ ...s, v: this.indexOf(s.v, name === 'keys' ? 0 : 1, node) })))];
      }
      case 'forEach': {
        this.runLoop(this.entrySegs({ ops: this.normOps(r.ops) }, ref), (el) => { const k = this.indexOf(el, 0, node); const v = this.indexOf(el, 1, node); return this.st ? this.callVal(args[0], [UNDEF], [v, k, [ref]], node) : []; });
        return [UNDEF];
      }
      case 'toString': return r.k === 'usp' ? this.uspToString(ref) : [C('[object Object]')];
      case 'sort': return [UNDEF];
      case 'getAll': return this.topv('getAll', node);
      default: return this.unknown(`${r.k}.${name}`, node);
    }
  },
  // split a header value that may be absent
  absentAs(v, sub) {
    const out = [];
    for (const a of v) {
      if (a.t === 'c' && a.v === undefined) { out.push(sub); continue; }
      if (a.t === 'x' && a.op === 'hget') {
        const ks = this.kindsOf(a);
        if (ks.has('absent')) {
          out.push(sub);
          if (ks.size > 1) out.push({ ...a, rk: new Set([...ks].filter((k) => k !== 'absent')) });
          continue;
        }
      }
      out.push(a);
    }
    return union(out);
  },
  formVal(v) {
    return union(...v.map((a) => {
      if (a.t === 'c') return [C(String(a.v))];
      if (a.t === 'x') return [a];
      return this.toStr([a]);
    }));
  },
  mapMethod(ref, r, name, args, node) {
    const at = loc(node);
    switch (name) {
      case 'set': this.pushOp(ref, { op: 'set', name: args[0] || [UNDEF], value: args[1] || [UNDEF], p: true, at }); return [ref];
      case 'add': this.pushOp(ref, { op: 'set', name: args[0] || [UNDEF], p: true, at }); return [ref];
      case 'delete': this.pushOp(ref, { op: 'delete', name: args[0] || [UNDEF], p: true, at }); return [bool(`deleted#${this.fresh()}`)];
      case 'clear': this.setRec(ref, { ...r, ops: [] }); return [UNDEF];
      case 'get': case 'has': {
        const key = args[0] || [UNDEF];
        return this.forEachAlt(key, (k) => {
          const lookup = (kk) => {
            let v = null; let open = [];
            for (const e of this.rec(ref).ops) {
              const n = one(e.name);
              if (!n) { open.push(e); continue; }
              if (akey(n) === akey(kk) && !e.each && e.p === true) { v = e.op === 'delete' ? null : e.value || [TRUE]; open = []; }
              else if (n.t !== 'c' || kk.t !== 'c' || (Object.is(n.v, kk.v) && e.p !== true)) open.push(e);
            }
            const res = (w) => (name === 'has' ? [C(w !== null)] : w || [UNDEF]);
            if (!open.length) return res(v);
            if (open.length > 1 || open[0].op !== 'set' || !one(open[0].name) || one(open[0].name).t === 'top' || kk.t === 'top') return name === 'has' ? [bool(`has(${open.map((e) => vkey(this.mat(e.name || []))).join(',')};${akey(kk)})`)] : union(v || [UNDEF], [TOP('map lookup')]);
            const q = bool(`eq(${[vkey(this.mat(open[0].name)), vkey(this.mat([kk]))].sort().join(',')}${open[0].each ? ` of some ${open[0].each}` : ''})`);
            const [t, f] = this.splitTruth([q]);
            return this.merge([[t, () => res(open[0].value || [TRUE])], [f, () => res(v)]]);
          };
          if (k.t === 'x') {
            const ks = [...this.kindsOf(k)];
            const ops = this.rec(ref).ops;
            if (ops.length && ops.every((e) => e.op === 'set' && one(e.name) && one(e.name).t === 'c')) {
              const branches = []; const base = this.st; let ok = true;
              for (const q of ks) {
                const c = q.startsWith('lit:') ? C(q.slice(4)) : q === 'undef' || q === 'absent' ? UNDEF : q === 'null' ? NULL : null;
                if (!c) { ok = false; break; }
                this.st = base.clone();
                if (ks.length > 1) { this.note(k); if (!this.restrictKinds(k, (z) => z === q)) continue; }
                branches.push([this.st, () => lookup(c)]);
              }
              if (ok && branches.length) return this.merge(branches);
              this.st = base;
            }
            if (!ops.length) return name === 'has' ? [FALSE] : [UNDEF];
          }
          return lookup(k);
        });
      }
      case 'entries': return [this.newArr(r.k === 'set' ? this.iterSegs([ref], node) : this.entrySegs({ k: 'map', ops: this.normOps(r.ops) }, ref))];
      case 'keys': case 'values': {
        if (r.k === 'set') return [this.newArr(this.iterSegs([ref], node))];
        return [this.newArr(this.entrySegs({ k: 'map', ops: this.normOps(r.ops) }, ref).map((s) => ({ ...s, v: this.indexOf(s.v, name === 'keys' ? 0 : 1, node) })))];
      }
      case 'forEach': {
        this.runLoop(this.iterSegs([ref], node), (el) => (r.k === 'set' ? this.callVal(args[0], [UNDEF], [el, el, [ref]], node) : this.callVal(args[0], [UNDEF], [this.indexOf(el, 1, node), this.indexOf(el, 0, node), [ref]], node)));
        return [UNDEF];
      }
      default: return this.unknown(`${r.k}.${name}`, node);
    }
  },
  arrayMethod(recv, segs0, x, name, args, node, mode) {
    const self = recv[0];
    const isX = self.t === 'x';
    if (isX && MUTARR.has(name)) {
      this.mutate(self, name, args, node);
      if (name === 'sort' || name === 'reverse' || name === 'fill') return [self];
      if (name === 'push' || name === 'unshift') return [call('len', [[bare(self)]], 'num')];
      return [call(name, [[bare(self)]])];
    }
    const segs = segs0 || this.iterSegs(recv, node);
    if (!this.st) return [];
    const f = args[0];
    const cb = (el, i) => this.callVal(f, args[1] && name !== 'reduce' ? args[1] : [UNDEF], [el, i || [TOP('index')], recv], node);
    const known = () => segs.every((s) => s.k === 'el' && s.p === true);
    // what a callback does after waiting happens in the order the answers arrive
    const loose = (el, i) => {
      const save = this.unordered;
      this.unordered = { mark: this.n, awaited: false };
      try { return cb(el, i); } finally { this.unordered = save; }
    };
    const strip = (l) => l.map((s) => (s.src0 ? { ...s, src0: undefined } : s));
    switch (name) {
      case 'map': { const out = this.runLoop(segs, loose); return this.newArrSegs(strip(out)); }
      case 'forEach': this.runLoop(segs, loose); return [UNDEF];
      case 'filter': {
        const out = [];
        let i = 0;
        for (const s of segs) {
          if (!this.st) return [];
          let dec = null; let kept = s.v;
          const o = this.runLoop([s], (el, j) => {
            const r = cb(el, s.k === 'el' ? [C(i)] : j);
            if (!this.st) return [];
            const [t, fs] = this.splitTruth(r);
            dec = t && fs ? null : !!t;
            if (t && fs) {
              // remember what survival says about the element
              this.st = t; kept = el.map((a) => (a.t === 'x' && t.kinds.has(a.k) ? { ...a, rk: new Set(this.kindsOf(a)) } : a));
            }
            this.st = this.joinR(t, fs);
            return [UNDEF];
          });
          i++;
          if (!o.length && s.k !== 'each') { continue; }
          if (dec === true) out.push(s);
          else if (dec === null) out.push({ ...s, v: kept, p: false, mt: undefined });
        }
        return this.newArrSegs(out);
      }
      case 'flatMap': {
        const out = this.runLoop(segs, cb);
        if (!this.st) return [];
        const fl = [];
        for (const s of out) {
          const a = one(s.v);
          if (s.k === 'el' && s.p === true && a && a.t === 'ref' && this.rec(a).k === 'array') fl.push(...this.rec(a).segs);
          else if (s.k === 'each' && a && a.t === 'ref' && this.rec(a).k === 'array' && this.rec(a).segs.length === 1 && this.rec(a).segs[0].k === 'el') fl.push({ ...s, v: this.rec(a).segs[0].v, p: this.rec(a).segs[0].p === true ? s.p : false });
          else if (a && a.t !== 'ref' && a.t !== 'top' && a.t !== 'x') fl.push(s);
          else if (s.v.length && s.v.every((x) => x.t === 'ref' && this.rec(x).k !== 'array')) fl.push(s);
          else if (s.v.length > 1 && s.v.every((x) => x.t === 'ref' && this.rec(x).k === 'array' && this.rec(x).segs.length === 1 && this.rec(x).segs[0].k === 'el' && this.rec(x).segs[0].p === true)) fl.push({ ...s, v: union(...s.v.map((x) => this.rec(x).segs[0].v)) });
          else fl.push({ k: 'unk', v: s.v, p: false, why: 'flatMap' });
        }
        return this.newArrSegs(strip(fl));
      }
      case 'flat': {
        const fl = [];
        for (const s of segs) {
          const a = one(s.v);
          if (s.k === 'el' && s.p === true && a && a.t === 'ref' && this.rec(a).k === 'array') fl.push(...this.rec(a).segs);
          else if (s.k === 'el' && a && a.t === 'c') fl.push(s);
          else fl.push({ k: 'unk', v: s.v, p: false, why: 'flat' });
        }
        return this.newArrSegs(fl);
      }
      case 'reduce': case 'reduceRight': {
        let list = name === 'reduceRight' ? this.reversed(segs) : segs;
        let init = args[1];
        if (!init) {
          if (!list.length) return this.throwError('TypeError');
          if (list[0].k !== 'el' || list[0].p !== true) return this.topv('reduce without initial value', node);
          init = list[0].v; list = list.slice(1);
        }
        const cell = `acc#${this.fresh()}`;
        this.st.cells.set(cell, init);
        this.runLoop(list, (el, i) => {
          const v = this.callVal(f, [UNDEF], [this.st.cells.get(cell), el, i, recv], node);
          if (this.st) this.st.cells.set(cell, v);
          return [UNDEF];
        });
        return this.st ? this.st.cells.get(cell) : [];
      }
      case 'some': case 'every': {
        const isSome = name === 'some';
        let und = false; let hit = false; const keys = [];
        for (const s of segs) {
          if (hit) break;
          if (s.k === 'unk') { und = true; keys.push('unk'); continue; }
          this.runLoop([s], (el, i) => {
            const r = cb(el, i);
            if (!this.st) return [];
            const ts_ = r.map((a) => this.truth(a));
            const all = ts_.every((q) => q === isSome); const none = ts_.every((q) => q === !isSome);
            if (all && s.k === 'el' && s.p === true) hit = true;
            else if (!none) { und = true; for (const a of r) this.note(a); keys.push(`${s.src || vkey(this.mat(s.v))}:${vkey(this.mat(r))}`); }
            return [UNDEF];
          });
          if (!this.st) return [];
        }
        if (hit) return [C(isSome)];
        if (!und) return [C(!isSome)];
        if (segs.length === 1 && segs[0].k === 'el' && segs[0].p === true) { const r = cb(segs[0].v, [C(0)]); return this.st ? this.callBuiltin('Boolean', [UNDEF], [r], node) : []; }
        if (known() && this.st) {
          // fold as boolean disjunction / conjunction over the known elements
          const base = this.st; let pending = base; const outs = []; let acc = null;
          for (const s of segs) {
            if (!pending) break;
            this.st = pending;
            const r = cb(s.v);
            if (!this.st) { pending = null; break; }
            const [t, fl] = this.splitTruth(r);
            const stop = isSome ? t : fl; pending = isSome ? fl : t;
            if (stop) { outs.push([C(isSome)]); acc = this.joinR(acc, stop); }
          }
          if (pending) { outs.push([C(!isSome)]); acc = this.joinR(acc, pending); }
          this.st = acc;
          return outs.length ? union(...outs) : [];
        }
        return [bool(`${name}(${keys.join(';')})`)];
      }
      case 'find': case 'findLast': case 'findIndex': case 'findLastIndex': {
        const isIdx = name.endsWith('Index');
        const outs = []; let und = false;
        const list = name.startsWith('findLast') ? segs.map((s, i) => [s, i]).reverse() : segs.map((s, i) => [s, i]);
        for (const [s, i] of list) {
          if (!this.st) return [];
          let all = false; let any = false;
          this.runLoop([s], (el, j) => {
            const r = cb(el, s.k === 'el' ? [C(i)] : j);
            if (!this.st) return [];
            const tr = r.map((a) => this.truth(a));
            all = tr.every((q) => q === true); any = tr.some((q) => q !== false);
            if (!all && any) for (const a of r) this.note(a);
            return [UNDEF];
          });
          if (any || s.k === 'unk') outs.push(isIdx ? [s.k === 'el' ? C(i) : call(name, [s.srcT ? [s.srcT] : [C(s.src)], [C(loc(node))]], 'num')] : s.v);
          if (all && s.k === 'el' && s.p === true) { und = true; break; }
        }
        if (!und) outs.push([isIdx ? C(-1) : UNDEF]);
        return this.st ? union(...outs) : [];
      }
      case 'includes': case 'indexOf': case 'lastIndexOf': {
        const q = f || [UNDEF];
        if (known()) {
          const cs = segs.map((s) => cst(s.v));
          const a = one(q);
          if (a && segs.every((s) => one(s.v) && one(s.v).t === 'c')) {
            if (a.t === 'c') return [C(name === 'includes' ? cs.includes(a.v) : cs.indexOf(a.v))];
            if (a.t === 'x' && name === 'includes') {
              const set = cs.map((c) => (c === undefined ? 'undef' : c === null ? 'null' : c === '' ? 'estr' : c === 0 ? 'zero' : typeof c === 'string' ? `lit:${c}` : typeof c === 'boolean' ? String(c) : null));
              if (set.every((k) => k)) { if (set.includes('undef')) set.push('absent'); return this.simp(pred(a, set), a); }
            }
          }
          if (name === 'includes' && a && segs.some((s) => one(s.v) && akey(one(s.v)) === akey(a))) return [TRUE];
        }
        const key = `${name}(${vkey(this.mat(recv))},${vkey(this.mat(q))})`;
        return name === 'includes' ? [bool(key)] : [call(name, [this.mat(recv), this.mat(q)], 'num')];
      }
      case 'join': return this.joinArray(segs, f && !(one(f) && one(f).t === 'c' && one(f).v === undefined) ? this.toStr(f) : [C(',')], node);
      case 'toString': return this.joinArray(segs, [C(',')], node);
      case 'concat': {
        const out = segs.slice();
        for (const v of args) {
          const a = one(v);
          if (a && a.t === 'ref' && this.rec(a).k === 'array') {
            const more = this.rec(a).segs;
            if (!more.length) for (let i = 0; i < out.length; i++) out[i] = { ...out[i], pre: true };
            out.push(...more);
          } else if (a && a.t === 'x' && [...this.kindsOf(a)].every((k) => k === 'arr' || k === 'earr')) out.push(...this.iterSegs([a], node));
          else if (a && (a.t !== 'x' || ![...this.kindsOf(a)].some((k) => k === 'arr' || k === 'earr'))) out.push({ k: 'el', v, p: true });
          else { if (a) this.note(a); out.push({ k: 'unk', v: [TOP('concat')], p: false, why: 'concat' }); }
        }
        return [this.newArr(out)];
      }
      case 'slice': {
        const a = f ? cst(f) : 0; const b = args[1] ? cst(args[1]) : undefined;
        if (a === 0 && (!args[1] || (one(args[1]) && one(args[1]).t === 'c' && b === undefined))) return [this.newArr(segs.slice())];
        if (known() && typeof a === 'number' && (b === undefined || typeof b === 'number')) return [this.newArr(segs.slice(a, b))];
        if (a === 0 && args[1] && one(args[1]) && one(args[1]).t === 'x' && one(args[1]).op === 'len' && segs.length === 1 && segs[0].k === 'each' && segs[0].srcT && one(args[1]).base.k === segs[0].srcT.k) return [this.newArr(segs.slice())];
        if (typeof a === 'number' && (b === undefined || typeof b === 'number') && segs.every((s) => s.k === 'each')) return [this.newArr(segs.map((s) => ({ ...s, flaw: s.flaw || CUT })))];
        return [this.newArr(segs.map((s) => ({ k: 'unk', v: s.v, p: false, why: 'slice' })))];
      }
      case 'at': {
        const i = cst(f);
        if (known() && typeof i === 'number') { const s = segs.at(i); return s ? s.v : [UNDEF]; }
        return isX ? [call('at', [[bare(self)], this.mat(f)])] : this.topv('at', node);
      }
      case 'entries': return [this.newArr(segs.map((s, i) => ({ ...s, v: [{ t: 'tup', items: [[s.k === 'el' ? C(i) : { t: 'idx', src: s.srcT ? s.srcT.k : s.src, cur: s.v }], s.v] }] })))];
      case 'keys': return [this.newArr(segs.map((s, i) => ({ ...s, v: [s.k === 'el' ? C(i) : { t: 'idx', src: s.srcT ? s.srcT.k : s.src, cur: s.v }] })))];
      case 'values': case 'Symbol.iterator': return [this.newArr(segs.slice())];
      case 'toSorted': case 'toReversed': case 'with': case 'toSpliced':
        if (segs.length <= 1 && known()) return [this.newArr(segs.slice())];
        if (name === 'toReversed' && segs.every((s) => s.k === 'el' || s.k === 'each')) return [this.newArr(this.reversed(segs))];
        if (name === 'toSorted' && !f && this.constSort(segs)) return [this.newArr(this.constSort(segs))];
        if ((name === 'toSorted' || name === 'toReversed') && segs.every((s) => s.k === 'each')) { const c = this.comparator(name, segs, args, node); if (!this.st) return []; return [this.newArr(c)]; }
        return [this.newArr(segs.map((s) => ({ k: 'unk', v: s.v, p: false, why: name })))];
      case 'hasOwnProperty': return [bool(`has(${vkey(this.mat(recv))})#${this.fresh()}`)];
      default:
    }
    if (self.t !== 'ref') return this.unknown(`array method ${name}`, node);
    const put = (s) => this.setRec(self, { ...this.rec(self), segs: s }, name);
    switch (name) {
      case 'push':
        if (this.unordered && this.unordered.awaited && self.a <= this.unordered.mark) { put(segs.concat(this.argSegs(args).map((s) => ({ ...s, flaw: 'its order depends on which call finishes first' })))); return this.lenOf(this.rec(self).segs, self); }
        put(segs.concat(this.argSegs(args))); return this.lenOf(this.rec(self).segs, self);
      case 'unshift': put(this.argSegs(args).map((s) => (segs.length ? s : { ...s, pre: true })).concat(segs)); return this.lenOf(this.rec(self).segs, self);
      case 'pop': {
        if (this.taking && this.taking.has(self.a)) return this.taking.get(self.a);
        if (known()) { if (!segs.length) return [UNDEF]; put(segs.slice(0, -1)); return segs[segs.length - 1].v; }
        this.unknown('pop', node); put(segs.map((s) => ({ k: 'unk', v: s.v, p: false, why: 'pop' }))); return union([UNDEF], ...segs.map((s) => s.v));
      }
      case 'shift': {
        if (this.taking && this.taking.has(self.a)) return this.taking.get(self.a);
        if (known()) { if (!segs.length) return [UNDEF]; put(segs.slice(1)); return segs[0].v; }
        this.unknown('shift', node); put(segs.map((s) => ({ k: 'unk', v: s.v, p: false, why: 'shift' }))); return union([UNDEF], ...segs.map((s) => s.v));
      }
      case 'reverse': put(segs.every((s) => s.k === 'el' || s.k === 'each') ? this.reversed(segs) : segs.map((s) => ({ k: 'unk', v: s.v, p: false, why: 'reverse' }))); return [self];
      case 'sort': if (!f && this.constSort(segs)) put(this.constSort(segs)); else if (segs.length && segs.every((s) => s.k === 'each')) { const c = this.comparator(name, segs, args, node); if (!this.st) return []; put(c); } else if (segs.length > 1 || !known()) put(segs.map((s) => ({ k: 'unk', v: s.v, p: false, why: 'sort' }))); return [self];
      case 'splice': {
        const a = cst(f); const b = args[1] ? cst(args[1]) : segs.length;
        if (known() && typeof a === 'number' && typeof b === 'number') {
          const out = segs.slice(); const rem = out.splice(a, b, ...this.argSegs(args.slice(2))); put(out); return [this.newArr(rem)];
        }
        put(segs.map((s) => ({ k: 'unk', v: s.v, p: false, why: 'splice' }))); return [this.newArr(segs.map((s) => ({ k: 'unk', v: s.v, p: false, why: 'splice' })))];
      }
      case 'fill': put(segs.map((s) => ({ ...s, v: f || [UNDEF] }))); return [self];
      default: return this.unknown(`array method ${name}`, node);
    }
  },
  // constant strings in default order; optional ones keep their place
  constSort(segs) {
    if (!segs.every((s) => s.k === 'el' && one(s.v) && typeof cst(s.v) === 'string')) return null;
    return segs.slice().sort((a, b) => (cst(a.v) < cst(b.v) ? -1 : cst(a.v) > cst(b.v) ? 1 : 0));
  },
  // a list of any length, put in another order
  comparator(name, segs, args, node) {
    if (args[0] && name.endsWith('ort')) this.runLoop(segs, (el, i) => this.callVal(args[0], [UNDEF], [el, segs[0].srcT ? this.renameOther(el, segs[0].srcT) : el], node));
    if (!this.st) return [];
    return segs.map((s) => ({ ...s, flaw: s.flaw || 'its order may change' }));
  },
  // calls into library code outside the repository
  callExt(a, args, node, mode) {
    const name = a.name; const ms = args.map((v) => this.mat(v));
    const eff = { k: 'ext', name, args: ms, recv: a.recv, at: loc(node) };
    this.st.eff.push(eff);
    const key = `${name}(${(a.recv ? [[a.recv]] : []).concat(ms).map(vkey).join(',')})`;
    let t = null;
    try { t = node && ts.isCallExpression(node) ? this.checker.getTypeAtLocation(node) : null; } catch { /* untyped */ }
    let isP = false;
    if (t && t.symbol && t.symbol.name === 'Promise') { isP = true; const ta = this.checker.getTypeArguments(t); t = ta && ta[0]; }
    const extra = { ext: name, recv: a.recv };
    if (t && !this.T.isAny(t)) extra.ty = [t];
    const r = call(`ext ${name}`, (a.recv ? [[a.recv]] : []).concat(ms), undefined, extra);
    eff.res = r;
    const err = X('err', `err:${key}`, { ext: name, args: ms });
    if (/^Text(En|De)coder#(encode|decode)/.test(name)) return [r]; // total
    if (isP) return [this.promise([r], [err], bool(`ok:${key}`))];
    return this.mayFail(key, [r], [err]);
  },
};
Object.assign(Interp.prototype, Methods);
