// Asks the WebAssembly build of rcgal, by its raw exports, what one line of
// standard input says, and answers in one line. usage: node driver.mjs FILE.wasm
//
// Numbers travel as 16 hex digits of their bits. This file plays the part of the
// glue that wasm-bindgen would generate: objects are pointers, a constructor or
// function that takes an object by value frees it, and lists of objects go
// through a table of indices.
import fs from 'fs';

const module = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let x, held, free, live;

const own = p => { live++; return p };
const keep = p => { const i = free.length ? free.pop() : held.length; held[i] = p; return i };
const take = i => { const p = held[i]; if (p === undefined) throw new Error('no object ' + i); held[i] = undefined; free.push(i); return p };

function start() {
  held = []; free = []; live = 0;
  const known = {
    __wbindgen_throw: (p, n) => { throw new Error(Buffer.from(x.memory.buffer, p, n).toString()) },
    __wbindgen_object_drop_ref: i => { take(i) },
    __wbindgen_describe: () => {},
    __wbindgen_externref_table_grow: () => 0,
    __wbindgen_externref_table_set_null: () => {},
  };
  const imports = {};
  for (const { module: m, name } of WebAssembly.Module.imports(module)) {
    imports[m] ??= {};
    imports[m][name] = known[name]
      ?? (/_new$/.test(name) ? p => keep(own(p)) : /_unwrap$/.test(name) ? i => { live--; return take(i) }
        : () => { throw new Error('import ' + name) });
  }
  x = new WebAssembly.Instance(module, imports).exports;
}

// Making, taking and freeing objects.
const given = p => { live--; return p };
const drop = (kind, p) => { live--; x['__wbg_' + kind + '_free'](p) };
const point = t => own(x.point2_new(t.num(), t.num()));
const line = t => { const a = point(t), b = point(t); return own(x.linesegment2_new(given(a), given(b))) };
const circle = t => { const c = point(t); return own(x.circlesegment2_new(given(c), t.num())) };
const arc = t => { const c = circle(t); return own(x.arcsegment2_new(given(c), t.num(), t.num())) };
const triangle = t => { const a = point(t), b = point(t), c = point(t); return own(x.triangle2_new(given(a), given(b), given(c))) };
function list(t, f) {
  const v = [];
  for (let n = t.int(); n > 0; n--) v.push(keep(point(t)));
  const p = x.__wbindgen_malloc(v.length * 4, 4) >>> 0;
  new Uint32Array(x.memory.buffer, p, v.length).set(v);
  return own(f(p, v.length));
}
const polygon = t => list(t, x.polygon2_new);
function any(t) {
  switch (t.word()) {
    case 'line': return own(x.segment2_new(0, given(line(t)), 0, 0));
    case 'circle': return own(x.segment2_new(1, 0, given(circle(t)), 0));
    case 'arc': return own(x.segment2_new(2, 0, 0, given(arc(t))));
  }
  throw new Error('kind');
}

// Answers.
const hex = new DataView(new ArrayBuffer(8));
let out;
const put = v => { hex.setFloat64(0, v); out.push(hex.getBigUint64(0).toString(16).padStart(16, '0')) };
const int = v => out.push('i' + v);
const xy = p => { put(x.point2_x(p)); put(x.point2_y(p)) };
const gone = p => { own(p); xy(p); drop('point2', p) };
const ends = p => { int(x.linesegment2_segment_type(p)); gone(x.linesegment2_source(p)); gone(x.linesegment2_target(p)) };
let scratch;
function returned(f, ...args) {
  const r = x.__wbindgen_malloc(8, 4) >>> 0;
  f(r, ...args);
  const [p, n] = new Uint32Array(x.memory.buffer, r, 2);
  x.__wbindgen_free(r, 8, 4);
  const v = n ? Array.from(new Uint32Array(x.memory.buffer, p, n)).map(take) : [];
  if (n) x.__wbindgen_free(p, n * 4, 4);
  return v;
}
const points = v => { int(v.length); for (const p of v) { xy(p); drop('point2', p) } };
const lines = v => { int(v.length); for (const p of v) { ends(p); drop('linesegment2', p) } };
const round = p => {
  int(x.circlesegment2_segment_type(p));
  gone(x.circlesegment2_center(p));
  put(x.circlesegment2_radius(p));
};
const bent = p => {
  int(x.arcsegment2_segment_type(p));
  gone(x.arcsegment2_source(p)); put(x.arcsegment2_source_radian(p));
  gone(x.arcsegment2_target(p)); put(x.arcsegment2_target_radian(p));
  gone(x.arcsegment2_center(p)); put(x.arcsegment2_radius(p));
};
const fields = s => {
  int(x.__wbg_get_segment2_segment_type(s));
  for (const [kind, name, show] of [['linesegment2', 'line', ends], ['circlesegment2', 'circle', round], ['arcsegment2', 'arc', bent]]) {
    const p = x[`__wbg_get_segment2_${name}_segment_2`](s);
    int(p ? 1 : 0);
    if (p) { own(p); show(p); drop(kind, p) }
  }
};

const ops = {
  point(t) {
    const p = point(t), q = point(t), r = point(t);
    xy(p); int(x.point2_equals(p, q)); put(x.point2_distance(p, q)); int(x.point2_turn(p, q, r));
    const v = own(x.point2_get_vector(p));
    put(x.vector2_x(v)); put(x.vector2_y(v));
    drop('vector2', v); xy(r); xy(q);
    for (const o of [p, q, r]) drop('point2', o);
  },
  vector(t) {
    const u = own(x.vector2_new(t.num(), t.num())), v = own(x.vector2_new(t.num(), t.num()));
    put(x.vector2_x(u)); put(x.vector2_y(u)); put(x.vector2_length(u));
    put(x.vector2_dot(u, v)); put(x.vector2_cross(u, v));
    const n = own(x.vector2_normalize(u));
    put(x.vector2_x(n)); put(x.vector2_y(n)); put(x.vector2_x(v)); put(x.vector2_y(v));
    for (const o of [u, v, n]) drop('vector2', o);
  },
  angle(t) {
    const u = own(x.vector2_new(t.num(), t.num())), v = own(x.vector2_new(t.num(), t.num()));
    put(x.vector2_radian_to(u, v));
    drop('vector2', u); drop('vector2', v);
  },
  line(t) {
    const q = point(t), s = line(t);
    ends(s); int(x.is_point_2_on_line_segment_2(q, s)); int(x.locate_point_2_line_segment_2(q, s));
    const f = x.point_2_project_line_segment_2(q, s);
    int(f ? 1 : 0);
    if (f) gone(f);
    drop('linesegment2', s); drop('point2', q);
  },
  circle(t) {
    const q = point(t), s = circle(t);
    round(s); int(x.is_point_2_on_circle_segment_2(q, s)); int(x.locate_point_2_circle_segment_2(q, s));
    drop('circlesegment2', s); drop('point2', q);
  },
  arc(t) {
    const q = point(t), s = arc(t);
    bent(s); int(x.is_point_2_on_arc_segment_2(q, s)); int(x.locate_point_2_arc_segment_2(q, s));
    drop('arcsegment2', s); drop('point2', q);
  },
  triangle(t) {
    const q = point(t), s = triangle(t);
    for (let i = 0; i < 2; i++) {
      gone(x.triangle2_a(s)); gone(x.triangle2_b(s)); gone(x.triangle2_c(s));
      points(returned(x.triangle2_vertices, s)); lines(returned(x.triangle2_edges, s));
      int(x.triangle2_orientation(s)); put(x.triangle2_area(s)); int(x.locate_point_2_triangle_2(q, s));
      x.triangle2_reverse_orientation(s);
    }
    drop('triangle2', s); drop('point2', q);
  },
  polygon(t) {
    const q = point(t), s = polygon(t);
    points(returned(x.polygon2_vertices, s)); lines(returned(x.polygon2_edges, s));
    put(x.polygon2_area(s)); int(x.polygon2_is_simple(s)); int(x.polygon2_is_convex(s));
    int(x.locate_point_2_polygon_2(q, s));
    drop('polygon2', s); drop('point2', q);
  },
  earcut(t) {
    const v = returned(x.earcut, given(polygon(t)));
    int(v.length);
    for (const p of v) {
      for (const k of 'abc') int(x['__wbg_get_triangle2indices_' + k](p));
      x.__wbg_set_triangle2indices_b(p, 77);
      for (const k of 'abc') int(x['__wbg_get_triangle2indices_' + k](p));
      drop('triangle2indices', p);
    }
  },
  hull(t) {
    const s = list(t, x.convexhull2_new);
    for (let i = 0; i < 2; i++) points(returned(x.convexhull2_convex_hull, s));
    drop('convexhull2', s);
  },
  pair(t) {
    const a = any(t), b = any(t);
    fields(a); fields(b);
    for (const [u, v] of [[a, b], [b, a]]) {
      int(x.is_segment_2_segment_2_intersected(u, v));
      points(returned(x.segment_2_segment_2_intersection, u, v));
    }
    drop('segment2', a); drop('segment2', b);
  },
  sweep(t) {
    const s = own(x.sweepsegment2intersection_new());
    for (let n = t.int(); n > 0; n--) {
      const a = any(t);
      x.sweepsegment2intersection_push_segment(s, a);
      drop('segment2', a);
      if (n === 3) points(returned(x.sweepsegment2intersection_intersection, s));
    }
    for (let i = 0; i < 2; i++) points(returned(x.sweepsegment2intersection_intersection, s));
    drop('sweepsegment2intersection', s);
  },
};

class Tokens {
  constructor(v) { this.v = v; this.i = 0 }
  word() { return this.v[this.i++] }
  int() { return Number(this.word()) }
  num() { hex.setBigUint64(0, BigInt('0x' + this.word())); return hex.getFloat64(0) }
}

function answer(text) {
  let v = text.split(' ');
  // "again N op ...": N times over, to see whether the memory grows.
  let times = 0;
  if (v[0] === 'again') { times = Number(v[1]); v = v.slice(2) }
  out = [];
  try {
    const before = live;
    ops[v[0]](new Tokens(v.slice(1)));
    if (live !== before || held.length !== free.length) out.push('objects', String(live - before));
    if (times) {
      for (let i = 0; i < 200; i++) { out = []; ops[v[0]](new Tokens(v.slice(1))) }
      const pages = x.memory.buffer.byteLength;
      for (let i = 0; i < times; i++) { out = []; ops[v[0]](new Tokens(v.slice(1))) }
      out.push('g' + (x.memory.buffer.byteLength - pages));
    }
    return out.join(' ');
  } catch (e) {
    if (!(e instanceof WebAssembly.RuntimeError) && !(e instanceof Error)) throw e;
    start();
    return (e instanceof WebAssembly.RuntimeError ? 'trap ' : 'error ') + String(e.message).replace(/\s+/g, ' ');
  }
}

start();
let rest = '';
const chunk = Buffer.alloc(1 << 16);
for (;;) {
  const n = fs.readSync(0, chunk, 0, chunk.length);
  if (n === 0) break;
  rest += chunk.toString('latin1', 0, n);
  for (let i; (i = rest.indexOf('\n')) >= 0;) {
    const text = rest.slice(0, i);
    rest = rest.slice(i + 1);
    fs.writeSync(1, answer(text) + '\n');
  }
}
