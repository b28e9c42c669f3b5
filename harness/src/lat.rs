//! Exact geometry on an integer lattice: what the oracles judge by. The library
//! sees images of lattice points under transforms; every sign decided here is a
//! sign of an integer.
use crate::rng::Rng;
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct P {
    pub x: i64,
    pub y: i64,
}

pub fn p(x: i64, y: i64) -> P {
    P { x, y }
}

impl P {
    pub fn sub(self, o: P) -> P {
        p(self.x - o.x, self.y - o.y)
    }
    pub fn add(self, o: P) -> P {
        p(self.x + o.x, self.y + o.y)
    }
    pub fn cross(self, o: P) -> i128 {
        self.x as i128 * o.y as i128 - self.y as i128 * o.x as i128
    }
    pub fn dot(self, o: P) -> i128 {
        self.x as i128 * o.x as i128 + self.y as i128 * o.y as i128
    }
    pub fn same_direction(self, o: P) -> bool {
        self.cross(o) == 0 && self.dot(o) > 0
    }
    pub fn n2(self) -> i128 {
        self.dot(self)
    }
    pub fn len(self) -> f64 {
        (self.n2() as f64).sqrt()
    }
}

/// Twice the signed area of abc: > 0 when c is to the left of ab.
pub fn orient(a: P, b: P, c: P) -> i128 {
    b.sub(a).cross(c.sub(a))
}

pub fn sign(v: i128) -> i32 {
    v.signum() as i32
}

pub fn on_segment(q: P, a: P, b: P) -> bool {
    orient(a, b, q) == 0
        && q.x >= a.x.min(b.x)
        && q.x <= a.x.max(b.x)
        && q.y >= a.y.min(b.y)
        && q.y <= a.y.max(b.y)
}

/// Distance from q to the segment, 0 exactly when q is on it.
pub fn dist_segment(q: P, a: P, b: P) -> f64 {
    let d = b.sub(a);
    if d.n2() == 0 {
        return q.sub(a).len();
    }
    let t = d.dot(q.sub(a));
    if t <= 0 {
        q.sub(a).len()
    } else if t >= d.n2() {
        q.sub(b).len()
    } else {
        orient(a, b, q).abs() as f64 / d.len()
    }
}

/// Distance from q to the line through a and b.
pub fn dist_line(q: P, a: P, b: P) -> f64 {
    orient(a, b, q).abs() as f64 / b.sub(a).len()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Meet {
    Disjoint,
    /// One point interior to both, as numerators over a denominator.
    Cross(f64, f64),
    /// One common point which is an end of at least one.
    Touch(P),
    /// A common part with these ends.
    Overlap(P, P),
}

pub fn meet(a: P, b: P, c: P, d: P) -> Meet {
    let ab = b.sub(a);
    let cd = d.sub(c);
    let den = ab.cross(cd);
    let mut ends: Vec<P> = Vec::new();
    for (q, s, t) in [(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
        if on_segment(q, s, t) && !ends.contains(&q) {
            ends.push(q);
        }
    }
    match ends.len() {
        0 => {}
        1 => return Meet::Touch(ends[0]),
        _ => {
            ends.sort();
            return Meet::Overlap(ends[0], ends[ends.len() - 1]);
        }
    }
    if den == 0 {
        return Meet::Disjoint;
    }
    let o1 = sign(orient(a, b, c));
    let o2 = sign(orient(a, b, d));
    let o3 = sign(orient(c, d, a));
    let o4 = sign(orient(c, d, b));
    if o1 * o2 < 0 && o3 * o4 < 0 {
        let (x, y) = cross_point(a, ab, c, cd);
        Meet::Cross(x, y)
    } else {
        Meet::Disjoint
    }
}

/// a + ab * t where the lines meet; the directions must not be parallel.
pub fn cross_point(a: P, ab: P, c: P, cd: P) -> (f64, f64) {
    let den = ab.cross(cd);
    let num = c.sub(a).cross(cd);
    let f = |o: i64, d: i64| {
        // o + d*num/den, with the integer part taken out first.
        let n = d as i128 * num;
        let q = n.div_euclid(den);
        let r = n.rem_euclid(den);
        (o as i128 + q) as f64 + r as f64 / den as f64
    };
    (f(a.x, ab.x), f(a.y, ab.y))
}

pub fn area2(v: &[P]) -> i128 {
    let n = v.len();
    (0..n).map(|i| v[i].cross(v[(i + 1) % n])).sum()
}

/// Adjacent edges share their common vertex only and the others nothing.
pub fn is_simple(v: &[P]) -> bool {
    let n = v.len();
    if n < 3 {
        return true;
    }
    for i in 0..n {
        if v[i] == v[(i + 1) % n] {
            return false;
        }
    }
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        for j in i + 1..n {
            let (c, d) = (v[j], v[(j + 1) % n]);
            if a.x.max(b.x) < c.x.min(d.x)
                || c.x.max(d.x) < a.x.min(b.x)
                || a.y.max(b.y) < c.y.min(d.y)
                || c.y.max(d.y) < a.y.min(b.y)
            {
                continue;
            }
            let adjacent = j == i + 1 || (i == 0 && j == n - 1);
            let ok = match meet(a, b, c, d) {
                Meet::Disjoint => !adjacent,
                Meet::Touch(_) => adjacent,
                _ => false,
            };
            if !ok {
                return false;
            }
        }
    }
    true
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    On,
    Inside,
    Outside,
}

/// Even-odd position of q.
pub fn in_polygon(q: P, v: &[P]) -> Side {
    let n = v.len();
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        if on_segment(q, a, b) {
            return Side::On;
        }
        if (a.y > q.y) != (b.y > q.y) {
            let o = orient(a, b, q);
            if (o > 0) == (b.y > a.y) {
                inside = !inside;
            }
        }
    }
    if inside {
        Side::Inside
    } else {
        Side::Outside
    }
}

/// Upper half plane first, then by turn: the order of directions from +x, ccw.
pub fn angle_cmp(u: P, w: P) -> Ordering {
    let half = |q: P| if q.y > 0 || (q.y == 0 && q.x > 0) { 0 } else { 1 };
    half(u).cmp(&half(w)).then_with(|| 0.cmp(&sign(u.cross(w))))
}

/// Whether direction v lies on the ccw arc of directions from u to w (ends
/// included); a full turn when u and w point the same way.
pub fn in_arc(v: P, u: P, w: P) -> bool {
    let same = |a: P, b: P| a.cross(b) == 0 && a.dot(b) > 0;
    if same(u, w) || same(v, u) || same(v, w) {
        return true;
    }
    // ccw from u: v before w.
    let rank = |q: P| {
        let c = u.cross(q);
        let d = u.dot(q);
        if c > 0 {
            0
        } else if c == 0 && d < 0 {
            1
        } else {
            2
        }
    };
    match rank(v).cmp(&rank(w)) {
        Ordering::Less => true,
        Ordering::Greater => false,
        Ordering::Equal => v.cross(w) > 0,
    }
}

/// Strict convex hull, ccw from the lexicographically smallest point.
pub fn hull(points: &[P]) -> Vec<P> {
    let mut v = points.to_vec();
    v.sort();
    v.dedup();
    if v.len() < 3 {
        return v;
    }
    let mut h: Vec<P> = Vec::new();
    for pass in 0..2 {
        let base = h.len();
        for i in 0..v.len() {
            let q = if pass == 0 { v[i] } else { v[v.len() - 1 - i] };
            while h.len() >= base + 2 && orient(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
    }
    h
}

// ---------------------------------------------------------------- transforms

/// Takes lattice points to the coordinates the library sees.
#[derive(Clone, Copy, Debug)]
pub struct Tf {
    /// Coordinates are exact: a power of two times the lattice, shifted.
    pub exact: bool,
    pub scale: f64,
    cos: f64,
    sin: f64,
    tx: f64,
    ty: f64,
}

impl Tf {
    pub fn identity() -> Tf {
        Tf {
            exact: true,
            scale: 1.0,
            cos: 1.0,
            sin: 0.0,
            tx: 0.0,
            ty: 0.0,
        }
    }
    /// Only scaled, by a power of two.
    pub fn scaled(k: f64) -> Tf {
        let mut t = Tf::identity();
        t.scale = k;
        t
    }
    /// Coordinates in multiples of 2^-g.
    pub fn grain(g: u32) -> Tf {
        let mut t = Tf::identity();
        t.scale = (2f64).powi(-(g as i32));
        t
    }
    /// A power-of-two scale with coordinates staying below about `limit`, and a
    /// lattice shift.
    pub fn exact(rng: &mut Rng, extent: i64, limit: f64) -> Tf {
        let mut t = Tf::identity();
        let hi = (limit / (2.0 * extent as f64)).log2().floor() as i64;
        let lo = (hi - 9).max(-10);
        t.scale = (2f64).powi(rng.range(lo.min(hi), hi.min(6).max(lo.min(hi))) as i32);
        if rng.chance(1, 2) {
            t.tx = rng.range(-extent, extent) as f64 * t.scale;
            t.ty = rng.range(-extent, extent) as f64 * t.scale;
        }
        t
    }
    /// A rotation by any angle, a scale that is no power of two, a shift: every
    /// coordinate is rounded. For lattices up to about 32.
    pub fn rigid(rng: &mut Rng) -> Tf {
        let a = rng.float(0.0, std::f64::consts::TAU);
        Tf {
            exact: false,
            scale: rng.float(0.25, 2.0),
            cos: a.cos(),
            sin: a.sin(),
            tx: rng.float(-20.0, 20.0),
            ty: rng.float(-20.0, 20.0),
        }
    }
    /// A rotation that lays this direction along an axis, up to rounding.
    pub fn aligned(rng: &mut Rng, d: P) -> Tf {
        let quarter = rng.range(0, 3) as f64 * std::f64::consts::FRAC_PI_2;
        let a = quarter - (d.y as f64).atan2(d.x as f64);
        Tf {
            cos: a.cos(),
            sin: a.sin(),
            ..Tf::rigid(rng)
        }
    }
    /// Everything within a few units down to a millionth of one, where products of
    /// lengths fall below the tolerance though the lengths do not.
    pub fn small(rng: &mut Rng, extent: i64) -> Tf {
        if extent <= 200 && rng.chance(1, 2) {
            let mut t = Tf::rigid(rng);
            let f = (10f64).powi(-(rng.range(1, 6) as i32));
            t.scale *= f;
            t.tx *= f;
            t.ty *= f;
            t
        } else {
            let mut t = Tf::identity();
            t.scale = (2f64).powi(-(rng.range(4, 20) as i32));
            if rng.chance(1, 2) {
                t.tx = rng.range(-extent, extent) as f64 * t.scale;
                t.ty = rng.range(-extent, extent) as f64 * t.scale;
            }
            t
        }
    }
    /// Exact coordinates up to 2^bits away from the origin, where products of
    /// coordinates are rounded but differences are not.
    pub fn far(rng: &mut Rng, bits: i64) -> Tf {
        let mut t = Tf::identity();
        t.scale = (2f64).powi(-(rng.range(0, 6) as i32));
        let mut away = || {
            let h = 1i64 << rng.range(4, bits);
            *rng.pick(&[h, -h, h - 1, 0]) as f64 + rng.range(-8, 8) as f64
        };
        t.tx = away();
        t.ty = away();
        t
    }
    /// What rounding a coordinate may move a point by.
    pub fn blur(&self) -> f64 {
        self.tx.abs().max(self.ty.abs()) * 8.0 * f64::EPSILON
    }
    /// Rotated, exact, or exact and small: a line through points that rounding leaves
    /// nearly above each other is vertical within the tolerance, and far off elsewhere.
    pub fn some(rng: &mut Rng, extent: i64, limit: f64) -> Tf {
        match rng.below(6) {
            0 => Tf::small(rng, extent.max(201)),
            1 | 2 => Tf::rigid(rng),
            _ => Tf::exact(rng, extent, limit),
        }
    }
    pub fn any(rng: &mut Rng, extent: i64, limit: f64) -> Tf {
        if rng.chance(1, 6) {
            return Tf::small(rng, extent);
        }
        if extent <= 32 && rng.chance(1, 3) {
            Tf::rigid(rng)
        } else if rng.chance(1, 3) {
            Tf::identity()
        } else {
            Tf::exact(rng, extent, limit)
        }
    }
    pub fn at(&self, x: f64, y: f64) -> (f64, f64) {
        if self.exact {
            return (x * self.scale + self.tx, y * self.scale + self.ty);
        }
        let (sx, sy) = (x * self.scale, y * self.scale);
        (
            sx * self.cos - sy * self.sin + self.tx,
            sx * self.sin + sy * self.cos + self.ty,
        )
    }
    pub fn of(&self, q: P) -> (f64, f64) {
        self.at(q.x as f64, q.y as f64)
    }
    /// A direction, without the shift.
    pub fn dir(&self, q: P) -> (f64, f64) {
        let (sx, sy) = (q.x as f64 * self.scale, q.y as f64 * self.scale);
        if self.exact {
            return (sx, sy);
        }
        (
            sx * self.cos - sy * self.sin,
            sx * self.sin + sy * self.cos,
        )
    }
    /// The angle of a lattice direction as the library sees it.
    pub fn angle(&self, q: P) -> f64 {
        let (x, y) = self.dir(q);
        y.atan2(x)
    }
}

// ---------------------------------------------------------------- generators

pub fn point(rng: &mut Rng, r: i64) -> P {
    p(rng.range(-r, r), rng.range(-r, r))
}

/// A point that tends to fall into special position with respect to the others.
pub fn point_near(rng: &mut Rng, r: i64, others: &[P]) -> P {
    if others.is_empty() || rng.chance(2, 5) {
        return point(rng, r);
    }
    let a = *rng.pick(others);
    let b = *rng.pick(others);
    match rng.below(7) {
        0 => a,
        1 => p(a.x, b.y),
        2 => a.add(p(rng.range(-1, 1), rng.range(-1, 1))),
        // On the line through two of them.
        3 => {
            let k = rng.range(-1, 2);
            let d = b.sub(a);
            clamp(a.add(p(d.x * k, d.y * k)), r, rng)
        }
        4 => {
            let d = b.sub(a);
            let g = gcd(d.x, d.y);
            if g == 0 {
                return point(rng, r);
            }
            let k = rng.range(-g, 2 * g);
            clamp(a.add(p(d.x / g * k, d.y / g * k)), r, rng)
        }
        5 => p(a.x, rng.range(-r, r)),
        _ => p(rng.range(-r, r), a.y),
    }
}

fn clamp(q: P, r: i64, rng: &mut Rng) -> P {
    if q.x.abs() <= 2 * r && q.y.abs() <= 2 * r {
        q
    } else {
        point(rng, r)
    }
}

/// Squeezes lattice points of up to about 60 in one direction, and often moves one
/// of them a little: edges nearly level, upright or parallel, points nearly on them.
/// Exact in the coordinates of the transform.
pub fn squeeze(rng: &mut Rng, v: &mut [&mut P], g: u32) -> Tf {
    let k = rng.range(0, 8) as u32;
    let (i, j) = match rng.below(3) {
        0 => (0, k),
        1 => (k, 0),
        _ => (0, 0),
    };
    for q in v.iter_mut() {
        **q = p(q.x << (g - i), q.y << (g - j));
    }
    if rng.chance(2, 3) {
        let n = v.len();
        let q = &mut v[rng.usize(0, n - 1)];
        // No coordinate moves by less than about 2e-9.
        let mut step = || if rng.chance(1, 3) { 0 } else { rng.range(-15, 15) << rng.range(g as i64 - 29, g as i64 - 8) };
        let d = p(step(), step());
        **q = q.add(d);
    }
    Tf::grain(g)
}

pub fn gcd(a: i64, b: i64) -> i64 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

/// A simple polygon of about n vertices, in either orientation.
pub fn simple_polygon(rng: &mut Rng, n: usize, r: i64) -> (Vec<P>, &'static str) {
    for _ in 0..50 {
        let kind = rng.below(9);
        let (mut v, name) = match kind {
            0 => (star(rng, n, r), "star-shaped"),
            1 => (grow(rng, n, r), "grown"),
            2 => (grow(rng, n, r.max(2) / 2 + 2), "grown tight"),
            3 => (comb(rng, n), "comb"),
            4 => (spiral(rng, n), "spiral"),
            5 => (histogram(rng, n), "histogram"),
            6 => (convex(rng, n, r), "convex"),
            8 => (roof(rng, n), "roof"),
            _ => (grow(rng, n / 2 + 2, r), "subdivided"),
        };
        if kind == 7 || rng.chance(1, 6) {
            v = subdivide(rng, &v, n);
        }
        if v.len() < 3 || !is_simple(&v) {
            continue;
        }
        if rng.chance(1, 2) {
            v.reverse();
        }
        let k = rng.usize(0, v.len() - 1);
        v.rotate_left(k);
        // One of the eight symmetries of the lattice.
        let sym = rng.below(8);
        for q in &mut v {
            if sym & 1 != 0 {
                *q = p(q.y, q.x);
            }
            if sym & 2 != 0 {
                q.x = -q.x;
            }
            if sym & 4 != 0 {
                q.y = -q.y;
            }
        }
        return (v, name);
    }
    (vec![p(0, 0), p(3, 0), p(0, 2)], "triangle")
}

pub fn star(rng: &mut Rng, n: usize, r: i64) -> Vec<P> {
    let mut v: Vec<P> = Vec::new();
    for _ in 0..n * 3 {
        let q = point(rng, r);
        if q != p(0, 0) && !v.iter().any(|o| o.cross(q) == 0 && o.dot(q) > 0) {
            v.push(q);
        }
        if v.len() == n {
            break;
        }
    }
    v.sort_by(|a, b| angle_cmp(*a, *b));
    v
}

/// Inserts random points into edges as long as the outline stays simple.
pub fn grow(rng: &mut Rng, n: usize, r: i64) -> Vec<P> {
    let mut v = vec![point(rng, r), point(rng, r), point(rng, r)];
    while area2(&v) == 0 {
        v = vec![point(rng, r), point(rng, r), point(rng, r)];
    }
    let mut tries = 0;
    while v.len() < n && tries < 12 * n {
        tries += 1;
        let i = rng.usize(0, v.len() - 1);
        let q = if rng.chance(1, 3) {
            point_near(rng, r, &v)
        } else {
            point(rng, r)
        };
        if can_insert(&v, i, q) {
            v.insert(i + 1, q);
        }
    }
    v
}

fn can_insert(v: &[P], i: usize, q: P) -> bool {
    let n = v.len();
    let a = v[i];
    let b = v[(i + 1) % n];
    if q == a || q == b {
        return false;
    }
    for j in 0..n {
        if j == i {
            continue;
        }
        let (c, d) = (v[j], v[(j + 1) % n]);
        for (s, t, shared) in [(a, q, d == a), (q, b, c == b)] {
            match meet(s, t, c, d) {
                Meet::Disjoint => {}
                Meet::Touch(m) if shared && (m == a || m == b) => {}
                _ => return false,
            }
        }
    }
    matches!(meet(a, q, q, b), Meet::Touch(_))
}

pub fn subdivide(rng: &mut Rng, v: &[P], extra: usize) -> Vec<P> {
    let k = rng.range(2, 4);
    let mut w: Vec<P> = v.iter().map(|q| p(q.x * k, q.y * k)).collect();
    if w.len() < 3 {
        return w;
    }
    for _ in 0..rng.usize(1, extra.max(1)) {
        let i = rng.usize(0, w.len() - 1);
        let (a, b) = (w[i], w[(i + 1) % w.len()]);
        let d = b.sub(a);
        let g = gcd(d.x, d.y);
        if g > 1 {
            let t = rng.range(1, g - 1);
            w.insert(i + 1, a.add(p(d.x / g * t, d.y / g * t)));
        }
    }
    w
}

fn comb(rng: &mut Rng, n: usize) -> Vec<P> {
    let teeth = (n / 4).max(1) as i64;
    let h = rng.range(1, 6);
    let mut v = vec![p(0, 0)];
    v.push(p(4 * teeth - 2, 0));
    for t in (0..teeth).rev() {
        let top = h + rng.range(1, 8);
        let slant = rng.range(-1, 1);
        v.push(p(4 * t + 2, h));
        v.push(p(4 * t + 1 + slant, top));
        v.push(p(4 * t, h));
    }
    // The first tooth's corner may coincide with the base; the caller checks.
    v.dedup();
    v
}

fn spiral(rng: &mut Rng, n: usize) -> Vec<P> {
    // A corridor of width 1 winding outwards in steps of 2.
    let turns = (n / 2).clamp(3, 40) as i64;
    let mut outer = vec![p(0, 0)];
    let mut at = p(0, 0);
    let dirs = [p(1, 0), p(0, 1), p(-1, 0), p(0, -1)];
    let mut len = 3;
    for i in 0..turns {
        let d = dirs[(i % 4) as usize];
        at = at.add(p(d.x * len, d.y * len));
        outer.push(at);
        if i % 2 == 1 {
            len += 2 + rng.range(0, 1);
        }
    }
    // Offset to the left of each leg by 1.
    let m = outer.len();
    let mut inner = Vec::new();
    for i in 0..m {
        let before = if i > 0 {
            Some(outer[i].sub(outer[i - 1]))
        } else {
            None
        };
        let after = if i + 1 < m {
            Some(outer[i + 1].sub(outer[i]))
        } else {
            None
        };
        let left = |d: P| p(-d.y.signum(), d.x.signum());
        let mut q = outer[i];
        if let Some(d) = before {
            q = q.add(left(d));
        }
        if let Some(d) = after {
            q = q.add(left(d));
        }
        inner.push(q);
    }
    outer.extend(inner.into_iter().rev());
    outer
}

/// A roof over a rough floor, from which a few spikes reach up under it, far
/// along the outline.
fn roof(rng: &mut Rng, n: usize) -> Vec<P> {
    let l = (n / 2).max(3) as i64;
    let (cx, h) = (rng.range(1 - l, l - 1), rng.range(2, 12.max(l / 4)));
    let mut v = vec![p(-l, 0), p(cx, h), p(l, 0)];
    let spikes = rng.usize(0, 3);
    let at: Vec<i64> = (0..spikes).map(|_| rng.range(2 - l, l - 2)).collect();
    for x in (1 - l..l).rev() {
        if at.contains(&x) && !at.contains(&(x + 1)) {
            // Strictly below the roof.
            let (num, den) = if x <= cx { (h * (x + l), cx + l) } else { (h * (l - x), l - cx) };
            let top = (num - 1) / den;
            v.push(p(x, if rng.chance(1, 2) { top } else { rng.range(0, top.max(0)) }));
        } else {
            v.push(p(x, -rng.range(1, 2)));
        }
    }
    v
}

fn histogram(rng: &mut Rng, n: usize) -> Vec<P> {
    let bars = (n / 2).max(1) as i64;
    let mut v = vec![p(0, 0)];
    let mut tops: Vec<P> = Vec::new();
    let mut last = 0;
    for i in 0..bars {
        let mut h = rng.range(1, 7);
        if h == last {
            h += 1;
        }
        last = h;
        tops.push(p(2 * i, h));
        tops.push(p(2 * i + 2, h));
    }
    v.push(p(2 * bars, 0));
    v.extend(tops.into_iter().rev());
    v
}

/// A convex outline of some 66,000 to 80,000 corners, none of them nearly straight.
pub fn huge_convex(rng: &mut Rng) -> Vec<P> {
    let r = rng.range(165, 180);
    let mut e = Vec::new();
    for x in -r..=r {
        for y in -r..=r {
            if gcd(x, y) == 1 {
                e.push(p(x, y));
            }
        }
    }
    e.sort_by(|a, b| angle_cmp(*a, *b));
    let mut v = Vec::with_capacity(e.len());
    let mut at = p(0, -7_000_000);
    for d in e {
        v.push(at);
        at = at.add(d);
    }
    v
}

/// A simple outline of as many vertices, up and down over a flat bottom.
pub fn huge_terrain(rng: &mut Rng) -> Vec<P> {
    let n = rng.range(66_000, 80_000);
    let high = *rng.pick(&[1, 5, 1000, 1_000_000]);
    let mut v: Vec<P> = (0..n).map(|i| p(n / 2 - i, rng.range(0, high))).collect();
    v.push(p(n / 2 - n + 1, -rng.range(1, high)));
    v.push(p(n / 2, -rng.range(1, high)));
    if rng.chance(1, 2) {
        for q in &mut v {
            *q = p(q.y, q.x);
        }
    }
    v
}

/// Either, in any orientation and from any vertex.
pub fn huge_outline(rng: &mut Rng) -> (Vec<P>, &'static str) {
    let (mut v, family) = if rng.chance(1, 2) { (huge_convex(rng), "huge convex") } else { (huge_terrain(rng), "huge terrain") };
    if rng.chance(1, 2) {
        v.reverse();
    }
    let k = rng.usize(0, v.len() - 1);
    v.rotate_left(k);
    (v, family)
}

pub fn convex(rng: &mut Rng, n: usize, r: i64) -> Vec<P> {
    // Edge vectors sorted by angle, made to sum to zero.
    let mut e: Vec<P> = Vec::new();
    for _ in 0..(n / 2).max(2) {
        let q = point(rng, (r / 4).max(2));
        if q != p(0, 0) {
            e.push(q);
            if rng.chance(1, 2) {
                e.push(p(-q.x, -q.y));
            } else {
                // Two vectors that cancel it together.
                let s = point(rng, (r / 4).max(2));
                e.push(s);
                e.push(p(-q.x - s.x, -q.y - s.y));
            }
        }
    }
    e.retain(|q| *q != p(0, 0));
    e.sort_by(|a, b| angle_cmp(*a, *b));
    let mut v = Vec::new();
    let mut at = point(rng, r);
    for d in e {
        v.push(at);
        at = at.add(d);
    }
    v
}
