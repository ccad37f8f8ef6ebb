// Runs programs of calls against the raw WebAssembly module (before wasm-bindgen's own
// post-processing), with the imports wasm-bindgen's glue would provide.
// One program per line: calls separated by ';', each "name ret arg...".
//   args  d<hex f64>  u<int>  r<slot> borrowed  m<slot> moved  v<slot,slot> list, moved
//         o- / o<slot> optional, moved
//   ret   n nothing, f number, u integer, O:<Class> object (slot = index of the call),
//         Q:<Class> optional object, V:<Class> list of objects
// One line back: results separated by ';', '!' where the call trapped (the program ends
// there), '?' with a reason where the module cannot be driven.
'use strict';
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.env.RCGAL_WASM));
let ex, heap, next, calls;
const buf = new DataView(new ArrayBuffer(8));
const hex = (x) => { buf.setFloat64(0, x); return buf.getBigUint64(0).toString(16).padStart(16, '0'); };
const unhex = (s) => { buf.setBigUint64(0, BigInt('0x' + s)); return buf.getFloat64(0); };
const classes = {
  point2: 'Point2', linesegment2: 'LineSegment2', triangle2indices: 'Triangle2Indices', circlesegment2: 'CircleSegment2',
  arcsegment2: 'ArcSegment2', vector2: 'Vector2', polygon2: 'Polygon2', triangle2: 'Triangle2', segment2: 'Segment2',
};
function put(o) { heap.set(next, o); return next++; }
function fresh() {
  heap = new Map();
  next = 132;
  calls = 0;
  const imports = {};
  for (const i of WebAssembly.Module.imports(mod)) {
    const m = imports[i.module] || (imports[i.module] = {});
    let f;
    let g;
    if ((g = /^__wbg_([a-z0-9]+)_new$/.exec(i.name))) {
      const c = classes[g[1]] || g[1];
      f = (ptr) => put({ c, ptr: ptr >>> 0 });
    } else if ((g = /^__wbg_([a-z0-9]+)_unwrap$/.exec(i.name))) {
      const c = classes[g[1]] || g[1];
      f = (idx) => {
        const o = heap.get(idx >>> 0);
        if (!o || o.c !== c || o.ptr === 0) return 0;
        heap.delete(idx >>> 0);
        return o.ptr;
      };
    } else if (i.name === '__wbindgen_object_drop_ref') {
      f = (idx) => { heap.delete(idx >>> 0); };
    } else if (i.name === '__wbindgen_throw') {
      f = (p, n) => { throw new WebAssembly.RuntimeError('thrown: ' + Buffer.from(ex.memory.buffer, p >>> 0, n >>> 0).toString()); };
    } else {
      f = () => 0;
    }
    m[i.name] = f;
  }
  ex = new WebAssembly.Instance(mod, imports).exports;
}
class Undriven extends Error {}
function fn(name) {
  if (typeof ex[name] !== 'function') throw new Undriven('no export ' + name);
  return ex[name];
}
function malloc(n) {
  return fn('__wbindgen_malloc')(n, 4) >>> 0;
}
function free(cls, ptr) {
  fn('__wbg_' + cls.toLowerCase() + '_free')(ptr);
}
const view = () => new DataView(ex.memory.buffer);
const xy = (p) => hex(fn('point2_x')(p)) + ',' + hex(fn('point2_y')(p));
// what an object says about itself through its accessors
function show(cls, ptr) {
  switch (cls) {
    case 'Point2': return xy(ptr);
    case 'Vector2': return hex(fn('vector2_x')(ptr)) + ',' + hex(fn('vector2_y')(ptr));
    case 'LineSegment2': {
      const s = fn('linesegment2_source')(ptr) >>> 0, t = fn('linesegment2_target')(ptr) >>> 0;
      const r = xy(s) + ',' + xy(t);
      free('Point2', s); free('Point2', t);
      return r;
    }
    case 'CircleSegment2': {
      const c = fn('circlesegment2_center')(ptr) >>> 0;
      const r = xy(c) + ',' + hex(fn('circlesegment2_radius')(ptr));
      free('Point2', c);
      return r;
    }
    case 'ArcSegment2': {
      const c = fn('arcsegment2_center')(ptr) >>> 0;
      const r = [xy(c), hex(fn('arcsegment2_radius')(ptr)), hex(fn('arcsegment2_source_radian')(ptr)), hex(fn('arcsegment2_target_radian')(ptr))].join(',');
      free('Point2', c);
      return r;
    }
    case 'Triangle2Indices':
      return ['a', 'b', 'c'].map((k) => fn('__wbg_get_triangle2indices_' + k)(ptr) >>> 0).join(',');
    default: return '.';
  }
}
function run(line) {
  if (calls > 20000) fresh();
  const out = [];
  const slots = new Map();
  const take = (i) => { const o = slots.get(i); if (!o) throw new Undriven('slot ' + i); slots.delete(i); return o; };
  const ops = line.split(';');
  for (let i = 0; i < ops.length; i++) {
    calls++;
    const [name, ret, ...args] = ops[i].split(' ');
    try {
      const f = fn(name);
      const a = [];
      let retptr = 0;
      if (ret[0] === 'V') { retptr = malloc(16); a.push(retptr); }
      for (const x of args) {
        const t = x.slice(1);
        switch (x[0]) {
          case 'd': a.push(unhex(t)); break;
          case 'u': a.push(Number(t)); break;
          case 'r': { const o = slots.get(Number(t)); if (!o) throw new Undriven('slot ' + t); a.push(o.ptr); break; }
          case 'm': a.push(take(Number(t)).ptr); break;
          case 'o': a.push(t === '-' ? 0 : take(Number(t)).ptr); break;
          case 'v': {
            const items = t === '' ? [] : t.split(',').map((k) => take(Number(k)));
            // an empty list comes with a dangling pointer, as an empty array does from the glue
            const p = malloc(items.length * 4);
            items.forEach((o, k) => view().setUint32(p + 4 * k, put(o), true));
            a.push(p, items.length);
            break;
          }
          default: throw new Undriven('argument ' + x);
        }
      }
      if (f.length !== a.length) throw new Undriven(name + ' takes ' + f.length + ' raw arguments, given ' + a.length);
      const r = f(...a);
      const cls = ret.slice(2);
      switch (ret[0]) {
        case 'n': out.push('.'); break;
        case 'f': out.push(hex(r)); break;
        case 'u': out.push(String(r >>> 0)); break;
        case 'O':
          if ((r >>> 0) === 0) throw new Undriven(name + ' returned a null object');
          slots.set(i, { c: cls, ptr: r >>> 0 });
          out.push(show(cls, r >>> 0));
          break;
        case 'Q':
          if ((r >>> 0) === 0) { out.push('-'); } else {
            slots.set(i, { c: cls, ptr: r >>> 0 });
            out.push(show(cls, r >>> 0));
          }
          break;
        case 'V': {
          const p = view().getUint32(retptr, true), n = view().getUint32(retptr + 4, true);
          const idx = [];
          for (let k = 0; k < n; k++) idx.push(view().getUint32(p + 4 * k, true));
          if (n > 0) fn('__wbindgen_free')(p, n * 4, 4);
          fn('__wbindgen_free')(retptr, 16, 4);
          const items = idx.map((k) => { const o = heap.get(k); heap.delete(k); return o; });
          if (items.some((o) => !o || o.c !== cls)) throw new Undriven(name + ' returned something else than ' + cls);
          out.push(items.map((o) => show(cls, o.ptr)).join('|'));
          items.forEach((o) => free(o.c, o.ptr));
          break;
        }
        default: throw new Undriven('return ' + ret);
      }
    } catch (e) {
      if (e instanceof Undriven) { out.push('?' + e.message.replace(/[;\n]/g, ' ')); fresh(); return out.join(';'); }
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) { out.push('!'); fresh(); return out.join(';'); }
      throw e;
    }
  }
  try {
    for (const o of slots.values()) free(o.c, o.ptr);
    if (heap.size) { out.push('?objects left behind: ' + heap.size); fresh(); }
  } catch (e) {
    out.push('?freeing: ' + String(e.message).replace(/[;\n]/g, ' '));
    fresh();
  }
  return out.join(';');
}
fresh();
let rest = '';
const fdIn = 0;
const chunk = Buffer.alloc(1 << 16);
for (;;) {
  let n;
  try { n = fs.readSync(fdIn, chunk, 0, chunk.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') break; throw e; }
  if (n === 0) break;
  rest += chunk.toString('latin1', 0, n);
  let k;
  while ((k = rest.indexOf('\n')) >= 0) {
    const line = rest.slice(0, k);
    rest = rest.slice(k + 1);
    const reply = Buffer.from(run(line) + '\n', 'latin1');
    let o = 0;
    while (o < reply.length) o += fs.writeSync(1, reply, o);
  }
}
