//! The sweep over many segments, against all pairs decided exactly.
use std::collections::HashMap;
use std::f64::consts::TAU;

use harness::ctx::{Ctx, Hasher, Prop, Stage, R};
use harness::ensure;
use harness::lat::{in_arc, meet, on_segment, p, point, point_near, Meet, Tf, P};
use harness::rng::{hash_str, Rng};
use rcgal::algorithm::intersection::segment_2_segment_2::segment_2_segment_2_intersection;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::point_2::Point2;

use crate::intersect::{circle_circle_spots, segment_circle_spots, segment_for_circle, Arc, Shape};
use crate::locate::{circle, direction, vectors_of};
use crate::num::{dist, hash_of, lp, same_points, seg, show_xy, xy, Num};
use crate::with_shape;

type Pt = (f64, f64);

/// A point with rational coordinates over one positive denominator.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Q {
    x: i128,
    y: i128,
    d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}

impl Q {
    fn new(x: i128, y: i128, d: i128) -> Q {
        let g = gcd(gcd(x, y), d) * d.signum();
        Q { x: x / g, y: y / g, d: d / g }
    }
    fn at(q: P) -> Q {
        Q::new(q.x as i128, q.y as i128, 1)
    }
    /// Where the lines ab and cd cross.
    fn cross(a: P, b: P, c: P, d: P) -> Q {
        let (ab, cd) = (b.sub(a), d.sub(c));
        let den = ab.cross(cd);
        let num = c.sub(a).cross(cd);
        Q::new(a.x as i128 * den + ab.x as i128 * num, a.y as i128 * den + ab.y as i128 * num, den)
    }
    fn f(&self) -> Pt {
        let split = |n: i128| {
            let w = n.div_euclid(self.d);
            w as f64 + n.rem_euclid(self.d) as f64 / self.d as f64
        };
        (split(self.x), split(self.y))
    }
    /// Zero exactly when on the segment.
    fn dist(&self, a: P, b: P) -> f64 {
        let d = b.sub(a);
        let (wx, wy) = (self.x - a.x as i128 * self.d, self.y - a.y as i128 * self.d);
        let off = d.x as i128 * wy - d.y as i128 * wx;
        let along = d.x as i128 * wx + d.y as i128 * wy;
        let (fx, fy) = self.f();
        if d.n2() == 0 || along <= 0 {
            if wx == 0 && wy == 0 {
                0.0
            } else {
                dist((fx, fy), (a.x as f64, a.y as f64))
            }
        } else if along >= d.n2() * self.d {
            if self.x == b.x as i128 * self.d && self.y == b.y as i128 * self.d {
                0.0
            } else {
                dist((fx, fy), (b.x as f64, b.y as f64))
            }
        } else if off == 0 {
            0.0
        } else {
            off.abs() as f64 / self.d as f64 / d.len()
        }
    }
}

type Seg = (P, P);

fn segments(rng: &mut Rng, n: usize, r: i64) -> (Vec<Seg>, &'static str) {
    let mut v: Vec<Seg> = Vec::new();
    let family = rng.below(7);
    let hub = point(rng, r);
    while v.len() < n {
        let ends: Vec<P> = v.iter().flat_map(|s| [s.0, s.1]).collect();
        let (a, b) = match family {
            0 => (point(rng, r), point(rng, r)),
            1 => {
                let a = point_near(rng, r, &ends);
                (a, point_near(rng, r, &[&ends[..], &[a]].concat()))
            }
            2 => {
                // Axis-parallel.
                let a = point(rng, r);
                if rng.chance(1, 2) {
                    (a, p(a.x, rng.range(-r, r)))
                } else {
                    (a, p(rng.range(-r, r), a.y))
                }
            }
            3 => {
                // Through, to or from one point.
                let d = point(rng, (r / 2).max(1));
                let (i, j) = (rng.range(0, 1), rng.range(-1, 1));
                (hub.sub(p(d.x * i, d.y * i)), hub.add(p(d.x * j, d.y * j)))
            }
            4 => {
                // Along few lines: overlaps.
                let o = p(rng.range(-1, 1), rng.range(-1, 1));
                let d = *rng.pick(&[p(1, 0), p(0, 1), p(1, 1), p(2, 1), p(1, -1)]);
                let (i, j) = (rng.range(-r, r), rng.range(-r, r));
                (o.add(p(d.x * i, d.y * i)), o.add(p(d.x * j, d.y * j)))
            }
            5 => {
                // A chain, which may cross itself.
                let a = ends.last().copied().unwrap_or(hub);
                (a, point(rng, r))
            }
            _ => {
                // From the left to the right: everything crosses.
                (p(-r, rng.range(-r, r)), p(r, rng.range(-r, r)))
            }
        };
        if a != b || rng.chance(1, 2) {
            v.push((a, b));
        }
        // Some are only a point, anywhere or on another.
        if rng.chance(1, 30) {
            let a = match v.last() {
                Some((a, b)) if rng.chance(1, 2) => *rng.pick(&[*a, *b]),
                _ => point_near(rng, r, &ends),
            };
            v.push((a, a));
        }
    }
    let name = ["random", "special positions", "axis-parallel", "bundle", "overlapping", "chain", "all across"];
    (v, name[family as usize])
}

/// The common points of all pairs: crossings, touchings and the ends of overlaps.
/// None when something is too close to tell.
fn expected(v: &[Seg], tf: &Tf) -> Option<(Vec<Q>, [usize; 4])> {
    let mut found: HashMap<Q, ()> = HashMap::new();
    let mut kinds = [0; 4];
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            let ((a, b), (c, d)) = (v[i], v[j]);
            match meet(a, b, c, d) {
                Meet::Disjoint => {}
                Meet::Cross(..) => {
                    kinds[0] += 1;
                    found.insert(Q::cross(a, b, c, d), ());
                }
                Meet::Touch(q) => {
                    kinds[1] += 1;
                    found.insert(Q::at(q), ());
                }
                Meet::Overlap(s, t) => {
                    kinds[2] += 1;
                    found.insert(Q::at(s), ());
                    found.insert(Q::at(t), ());
                }
            }
        }
    }
    let want: Vec<Q> = found.into_keys().collect();
    let mut events: Vec<Q> = want.clone();
    for (a, b) in v {
        for q in [Q::at(*a), Q::at(*b)] {
            if !events.contains(&q) {
                events.push(q);
            }
        }
    }
    for q in &events {
        let mut on = 0;
        for (a, b) in v {
            let d = q.dist(*a, *b);
            if d == 0.0 {
                on += 1;
            } else if d * tf.scale < 1e-6 {
                return None;
            }
        }
        if on > 2 {
            kinds[3] += 1;
        }
    }
    // Which of two events comes first has to be clear.
    let at: Vec<Pt> = events.iter().map(|q| { let (x, y) = q.f(); tf.at(x, y) }).collect();
    let mut order: Vec<usize> = (0..at.len()).collect();
    order.sort_by(|i, j| at[*i].0.partial_cmp(&at[*j].0).unwrap());
    for w in order.windows(2) {
        let dx = at[w[1]].0 - at[w[0]].0;
        if dx > 1e-12 && dx < 1e-8 {
            return None;
        }
    }
    for i in 0..at.len() {
        for j in i + 1..at.len() {
            if dist(at[i], at[j]) < 1e-6 {
                return None;
            }
        }
    }
    Some((want, kinds))
}

fn sweep_of<F: Num>(tf: &Tf, v: &[Seg]) -> SweepSegment2Intersection<F> {
    let mut s = SweepSegment2Intersection::new();
    for (a, b) in v {
        s.push_segment(&seg::<F>(tf, *a, *b));
    }
    s
}

fn points<F: Num>(v: &[Point2<F>]) -> Vec<Pt> {
    v.iter().map(xy).collect()
}

fn lines_case<F: Num>(ctx: &mut Ctx, v: &[Seg], tf: &Tf, tol: f64, family: &str) -> R {
    let Some((want, kinds)) = expected(v, tf) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let must: Vec<_> = want.iter().map(|q| { let (x, y) = q.f(); (tf.at(x, y), tol) }).collect();
    let mut sweep = sweep_of::<F>(tf, v);
    let got = points(&ctx.call("SweepSegment2Intersection::intersection", || sweep.intersection())?);
    let what = || format!("{} sweep ({}) over {:?} through {:?}", F::NAME, family, v, tf);
    same_points(&got, &must, &[]).map_err(|m| format!("{}: {}", what(), m))?;
    ensure!(got.len() == must.len(), "{}: {} points for {} places: {}", what(), got.len(), must.len(), show_xy(&got));
    ctx.judged(&format!("segments: {}", family));
    for (k, name) in kinds.iter().zip(["crossings", "touchings", "overlaps", "points of three or more"]) {
        if *k > 0 {
            ctx.bucket(name);
            ctx.note(name, *k as u64);
        }
    }
    if want.is_empty() {
        ctx.bucket("no common points");
    }
    ctx.note_max("segments", v.len() as u64);
    ctx.note_max("points", want.len() as u64);
    Ok(())
}

fn flat(v: &[Seg]) -> Vec<P> {
    v.iter().flat_map(|s| [s.0, s.1]).collect()
}

fn transform(rng: &mut Rng, v: &[Seg], r: i64) -> Tf {
    if rng.chance(1, 6) && !v.is_empty() {
        let (a, b) = *rng.pick(v);
        return Tf::aligned(rng, b.sub(a));
    }
    Tf::any(rng, r, 500.0)
}

fn lines_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[0, 1, 2, 3, 4, 6, 9, 14]);
    let r = *rng.pick(&[2, 4, 8, 14]);
    let (v, family) = segments(rng, n, r);
    let tf = transform(rng, &v, 2 * r);
    lines_case::<f64>(ctx, &v, &tf, 1e-8, family)?;
    ctx.bucket(if tf.exact { "exact" } else { "rotated" });
    ctx.nontrivial(hash_of(80, &tf, &flat(&v)));
    ctx.sample(|| format!("{} {:?} through {:?}", family, v, tf));
    Ok(())
}

fn lines_many(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(20, 60);
    let r = *rng.pick(&[4, 8, 14]);
    let (v, family) = segments(rng, n, r);
    let tf = transform(rng, &v, 2 * r);
    lines_case::<f64>(ctx, &v, &tf, 1e-8, family)?;
    ctx.bucket("20 or more segments");
    ctx.nontrivial(hash_of(81, &tf, &flat(&v)));
    Ok(())
}

fn lines_lots(ctx: &mut Ctx, rng: &mut Rng) -> R {
    // Short ones over a wide area, or few long ones among them.
    let n = rng.usize(80, 250);
    let r = *rng.pick(&[14, 60, 200]);
    let mut v: Vec<Seg> = Vec::new();
    while v.len() < n {
        let ends: Vec<P> = v.iter().rev().take(8).flat_map(|s| [s.0, s.1]).collect();
        let a = if rng.chance(1, 3) { point_near(rng, r, &ends) } else { point(rng, r) };
        let reach = if rng.chance(1, 20) { r } else { 6 };
        let d = point(rng, reach);
        v.push((a, a.add(d)));
    }
    let tf = if r > 14 { Tf::identity() } else { transform(rng, &v, 2 * r + 6) };
    lines_case::<f64>(ctx, &v, &tf, 1e-8, "lots")?;
    ctx.bucket("80 or more segments");
    ctx.nontrivial(hash_of(88, &tf, &flat(&v)));
    Ok(())
}

/// Many small sets side by side, one above the other, or a grid, with the common
/// points of each set worked out alone.
fn lines_hundreds(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let mut v: Vec<Seg> = Vec::new();
    let mut want: Vec<Pt> = Vec::new();
    let family = if rng.chance(1, 4) {
        let (n, m) = (rng.range(10, 40), rng.range(10, 40));
        v.extend((0..n).map(|i| (p(0, i), p(m + 1, i))));
        v.extend((1..=m).map(|j| (p(j, -1), p(j, n))));
        want.extend((0..n).flat_map(|i| (1..=m).map(move |j| (j as f64, i as f64))));
        "a grid"
    } else {
        let most = rng.usize(300, 1500);
        let wide = *rng.pick(&[1, 10, 40, 2000]);
        let mut cell = 0;
        while v.len() < most {
            let n = rng.usize(1, 6);
            let (s, _) = segments(rng, n, 4);
            let Some((points, _)) = expected(&s, &Tf::identity()) else { continue };
            let reach = s.iter().flat_map(|(a, b)| [a, b]).map(|q| q.x.abs().max(q.y.abs())).max().unwrap_or(0);
            if reach > 9 {
                continue;
            }
            let at = p(cell % wide * 20, cell / wide * 20);
            cell += 1;
            v.extend(s.iter().map(|(a, b)| (a.add(at), b.add(at))));
            want.extend(points.iter().map(|q| {
                let (x, y) = q.f();
                (x + at.x as f64, y + at.y as f64)
            }));
        }
        "side by side"
    };
    if rng.chance(3, 4) {
        rng.shuffle(&mut v);
    }
    let tf = Tf::identity();
    let mut sweep = sweep_of::<f64>(&tf, &v);
    let got = points(&ctx.call("SweepSegment2Intersection::intersection", || sweep.intersection())?);
    let what = format!("the sweep over {} segments, {}, from {:?}", v.len(), family, v[0]);
    let bin = |q: Pt| ((q.0 * 1000.0).floor() as i64, (q.1 * 1000.0).floor() as i64);
    let mut at: HashMap<(i64, i64), usize> = HashMap::new();
    for (i, q) in want.iter().enumerate() {
        at.insert(bin(*q), i);
    }
    ensure!(at.len() == want.len(), "the points of {} are not apart", what);
    let mut seen = vec![false; want.len()];
    for g in &got {
        let (x, y) = bin(*g);
        let near = (-1..2).flat_map(|i| (-1..2).map(move |j| (x + i, y + j)));
        let found = near.filter_map(|b| at.get(&b)).find(|i| dist(want[**i], *g) < 1e-7);
        let Some(i) = found else { return Err(format!("{}: {:?} is no common point", what, g)) };
        ensure!(!seen[*i], "{}: {:?} comes twice", what, g);
        seen[*i] = true;
    }
    let missed = seen.iter().filter(|s| !**s).count();
    ensure!(missed == 0, "{}: {} of {} points are missed, {:?} first", what, missed, want.len(), want[seen.iter().position(|s| !*s).unwrap_or(0)]);
    ctx.judged(if v.len() < 300 { "a large grid" } else { "hundreds of segments" });
    ctx.note_max("segments", v.len() as u64);
    ctx.note_max("points", want.len() as u64);
    ctx.nontrivial(hash_of(115, &tf, &flat(&v)));
    Ok(())
}

/// Squeezed in one direction, so that segments are nearly level, upright or
/// parallel, with some ends moved a little; exact coordinates.
fn lines_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    const G: i64 = 20;
    let n = *rng.pick(&[2, 3, 4, 6, 9, 14]);
    let r = *rng.pick(&[2, 4, 8, 14]);
    let (mut v, family) = segments(rng, n, r);
    let k = rng.range(0, 9);
    let (i, j) = match rng.below(3) {
        0 => (0, k),
        1 => (k, 0),
        _ => (0, 0),
    };
    for (a, b) in v.iter_mut() {
        for q in [a, b] {
            *q = p(q.x << (G - i), q.y << (G - j));
        }
    }
    if !v.is_empty() {
        for _ in 0..rng.below(4) {
            let m = rng.usize(0, v.len() - 1);
            let mut step = || if rng.chance(1, 3) { 0 } else { rng.range(-15, 15) << rng.range(0, G - 8) };
            let d = p(step(), step());
            if rng.chance(1, 2) {
                v[m].0 = v[m].0.add(d);
            } else {
                v[m].1 = v[m].1.add(d);
            }
        }
    }
    let tf = Tf::grain(G as u32);
    lines_case::<f64>(ctx, &v, &tf, 1e-8, family)?;
    ctx.bucket("squeezed");
    ctx.nontrivial(hash_of(89, &tf, &flat(&v)));
    ctx.sample(|| format!("squeezed {} {:?} through {:?}", family, v, tf));
    Ok(())
}

/// Exact coordinates away from the origin, where heights on a line are rounded more.
fn lines_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[2, 3, 4, 6, 9, 14]);
    let r = *rng.pick(&[2, 4, 8, 14]);
    let (v, family) = segments(rng, n, r);
    let tf = Tf::far(rng, 14);
    lines_case::<f64>(ctx, &v, &tf, 1e-8, family)?;
    ctx.bucket("far from the origin");
    ctx.nontrivial(hash_of(90, &tf, &flat(&v)));
    Ok(())
}

fn lines_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(2, 6);
    let (v, family) = segments(rng, n, 3);
    lines_case::<f32>(ctx, &v, &Tf::identity(), 1e-4, family)?;
    ctx.bucket("f32");
    ctx.nontrivial(hash_of(82, &Tf::identity(), &flat(&v)));
    Ok(())
}

// ---------------------------------------------------------- arcs and circles

#[derive(Clone, Copy, Debug)]
enum Item {
    Line(P, P),
    Circle(P, i64),
    Arc(Arc),
}

impl Item {
    fn shape(&self, tf: &Tf) -> Shape {
        match self {
            Item::Line(a, b) => Shape::Line(seg(tf, *a, *b)),
            Item::Circle(c, n2) => Shape::Circle(CircleSegment2::new(lp(tf, *c), (*n2 as f64).sqrt() * tf.scale)),
            Item::Arc(a) => Shape::Arc(a.lib(tf)),
        }
    }
    fn round(&self) -> Option<(P, i64)> {
        match self {
            Item::Line(..) => None,
            Item::Circle(c, n2) => Some((*c, *n2)),
            Item::Arc(a) => Some((a.c, a.n2)),
        }
    }
    fn arc(&self) -> Option<&Arc> {
        match self {
            Item::Arc(a) => Some(a),
            _ => None,
        }
    }
    fn holds(&self, q: P) -> bool {
        match self {
            Item::Line(a, b) => on_segment(q, *a, *b),
            Item::Circle(c, n2) => q.sub(*c).n2() == *n2 as i128,
            Item::Arc(a) => a.holds_lattice(q),
        }
    }
    fn ends(&self) -> Vec<P> {
        match self {
            Item::Line(a, b) => vec![*a, *b],
            Item::Circle(..) => vec![],
            Item::Arc(a) => a.ends(),
        }
    }
}

fn same_way(a: P, b: P) -> bool {
    a.cross(b) == 0 && a.dot(b) > 0
}

/// Whether two arcs of one circle have more than single points in common.
fn overlap(a: &Arc, b: &Arc) -> bool {
    let inside = |d: P, x: &Arc| in_arc(d, x.from, x.to) && !same_way(d, x.from) && !same_way(d, x.to);
    a.full()
        || b.full()
        || same_way(a.from, b.from)
        || same_way(a.to, b.to)
        || [a.from, a.to].iter().any(|d| inside(*d, b))
        || [b.from, b.to].iter().any(|d| inside(*d, a))
}

/// Whether the item is on the circle of another and one of them is all of it: where
/// they start is nothing to tell.
fn doubled(v: &[Item], item: &Item) -> bool {
    v.iter().any(|o| {
        item.round().is_some()
            && o.round() == item.round()
            && match (item.arc(), o.arc()) {
                (Some(a), Some(b)) => a.full() || b.full(),
                (None, None) => true,
                (a, b) => a.or(b).unwrap().full(),
            }
    })
}

/// An arc that goes on where another one ends, on the same circle.
fn next_arc(rng: &mut Rng, v: &[Item]) -> Option<Item> {
    let arcs: Vec<&Arc> = v.iter().filter_map(|i| i.arc()).filter(|a| !a.full()).collect();
    if arcs.is_empty() {
        return None;
    }
    let a = *rng.pick(&arcs);
    let b = arcs.iter().find(|b| (b.c, b.n2) == (a.c, a.n2) && rng.chance(1, 3)).unwrap_or(&a);
    let turn = TAU * rng.range(-1, 1) as f64;
    let mut next = Arc { c: a.c, n2: a.n2, from: a.to, to: b.from, source: a.target + turn, target: b.source };
    if rng.chance(1, 2) {
        let on = vectors_of(a.n2);
        let d = if !on.is_empty() && rng.chance(1, 2) { *rng.pick(&on) } else { direction(rng, 6) };
        if same_way(d, a.to) {
            return None;
        }
        next.to = d;
        next.target = f64::NAN;
    }
    Some(Item::Arc(next))
}

fn items(rng: &mut Rng, tf: &Tf, n: usize, r: i64) -> Vec<Item> {
    let mut v: Vec<Item> = Vec::new();
    let mut spots: Vec<P> = Vec::new();
    let mut tries = 0;
    while v.len() < n && tries < 200 {
        tries += 1;
        let item = match rng.below(5) {
            0 | 1 => {
                let (a, b) = match v.iter().rev().find_map(|i| i.round()) {
                    Some((c, n2)) if rng.chance(1, 2) => segment_for_circle(rng, r, c, n2),
                    _ => (point_near(rng, r, &spots), point_near(rng, r, &spots)),
                };
                let b = if rng.chance(1, 20) { a } else { b };
                if a == b && rng.chance(1, 2) {
                    continue;
                }
                Item::Line(a, b)
            }
            k => {
                let (mut c, mut n2) = circle(rng, r);
                if rng.chance(1, 2) && !spots.is_empty() {
                    let q = *rng.pick(&spots);
                    c = point_near(rng, r, &spots);
                    n2 = q.sub(c).n2() as i64;
                    if n2 == 0 {
                        continue;
                    }
                }
                let next = if rng.chance(1, 3) { next_arc(rng, &v) } else { None };
                match next {
                    Some(Item::Arc(mut a)) => {
                        if a.target.is_nan() {
                            a.target = tf.angle(a.to);
                        }
                        Item::Arc(a)
                    }
                    _ if k == 2 => Item::Circle(c, n2),
                    _ => Item::Arc(Arc::new(rng, tf, c, n2)),
                }
            }
        };
        if doubled(&v, &item) {
            continue;
        }
        match item {
            Item::Line(a, b) => spots.extend([a, b]),
            _ => {
                let (c, n2) = item.round().unwrap();
                spots.push(c);
                spots.extend(vectors_of(n2).into_iter().take(3).map(|w| c.add(w)));
            }
        }
        v.push(item);
    }
    v
}

/// Common points that must or may be found, None when too close to tell.
fn expected_items(v: &[Item], tf: &Tf) -> Option<(Vec<(Pt, f64)>, Vec<(Pt, f64)>, Vec<&'static str>)> {
    let (mut must, mut may, mut classes) = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            let (x, y) = (&v[i], &v[j]);
            let mut sure: Vec<P> = x.ends().into_iter().filter(|q| y.holds(*q)).collect();
            sure.extend(y.ends().into_iter().filter(|q| x.holds(*q)));
            let (spots, class) = match (x, y) {
                (Item::Line(a, b), Item::Line(c, d)) => match meet(*a, *b, *c, *d) {
                    Meet::Disjoint => (vec![], "apart"),
                    Meet::Cross(px, py) => (vec![(tf.at(px, py), 1e-8)], "segments crossing"),
                    Meet::Touch(q) => (vec![(tf.of(q), 1e-8)], "segments touching"),
                    Meet::Overlap(s, t) => (vec![(tf.of(s), 1e-8), (tf.of(t), 1e-8)], "segments overlapping"),
                },
                (Item::Line(a, b), o) | (o, Item::Line(a, b)) => {
                    let (c, n2) = o.round().unwrap();
                    segment_circle_spots(tf, *a, *b, c, n2)?
                }
                _ => {
                    let ((c, m), (e, n)) = (x.round().unwrap(), y.round().unwrap());
                    // Where two circles cross at a very small angle rounding moves the
                    // crossing by more than the tolerance.
                    let s = e.sub(c).n2() - m as i128 - n as i128;
                    let sine2 = 1.0 - (s * s) as f64 / (4.0 * m as f64 * n as f64);
                    if sine2 != 0.0 && sine2.abs() < 2e-3 {
                        return None;
                    }
                    if (c, m) == (e, n) {
                        let rad = (m as f64).sqrt();
                        let mut at_end = |d: P| {
                            let k = rad / d.len();
                            must.push((tf.at(c.x as f64 + d.x as f64 * k, c.y as f64 + d.y as f64 * k), 1e-8));
                        };
                        // Where the sweep divides circles it may report a point of an overlap.
                        let (o, r) = (tf.of(c), rad * tf.scale);
                        may.extend([((o.0 - r, o.1), 1e-8), ((o.0 + r, o.1), 1e-8)]);
                        if let (Some(a), Some(b)) = (x.arc(), y.arc()) {
                            for (u, w) in [(a, b), (b, a)] {
                                for at in [u.from, u.to] {
                                    if in_arc(at, w.from, w.to) {
                                        at_end(at);
                                    }
                                }
                            }
                            classes.push(if overlap(a, b) { "overlapping arcs" } else { "arcs in a row on one circle" });
                        } else {
                            let a = x.arc().or(y.arc()).unwrap();
                            at_end(a.from);
                            at_end(a.to);
                            classes.push("an arc of the same circle");
                        }
                        continue;
                    }
                    circle_circle_spots(tf, c, m, e, n)?
                }
            };
            let arcs: Vec<&Arc> = [x, y].iter().filter_map(|i| i.arc()).collect();
            let (a, b) = crate::intersect::filter(tf, spots, &arcs, &sure);
            if !a.is_empty() {
                classes.push(class);
            }
            must.extend(a);
            may.extend(b);
        }
    }
    Some((must, may, classes))
}

/// Where a circle turns back in the direction of the sweep, square roots magnify
/// rounding: points near there, but not there, are not judged. Circles that touch there
/// are within the tolerance of each other for longer than elsewhere.
fn near_extreme(v: &[Item], tf: &Tf, q: Pt) -> bool {
    v.iter().filter_map(|i| i.round()).any(|(c, n2)| {
        let c = tf.of(c);
        let r = (n2 as f64).sqrt() * tf.scale;
        let dx = ((q.0 - c.0).abs() - r).abs();
        // The level differs by the square of the height.
        let on = (dist(q, c) - r).abs() < 1e-6;
        let limit = if tf.scale < 0.05 { 1e-3 } else { 1e-8 };
        dx < limit && (dx > 1e-11 || on && (q.1 - c.1).abs() > 1e-9)
    })
}

fn curves(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[2, 2, 3, 4, 6, 9]);
    let r = *rng.pick(&[2, 4, 8]);
    let tf = Tf::any(rng, 2 * r, 200.0);
    curves_of(ctx, rng, n, r, tf)
}

/// Exact centres away from the origin.
fn curves_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[2, 3, 4, 6, 9]);
    let r = *rng.pick(&[2, 4, 8]);
    let tf = Tf::far(rng, 11);
    ctx.bucket("far from the origin");
    curves_of(ctx, rng, n, r, tf)
}

/// A segment and a circle that cross clearly, in single precision.
fn curves_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::scaled(*rng.pick(&[0.0625, 0.125, 0.25]));
    let r = 3;
    let (c, m) = crate::locate::circle(rng, r);
    let (a, b) = segment_for_circle(rng, r, c, m);
    let rad = (m as f64).sqrt();
    let away = |d: f64| d.abs() * tf.scale > 0.05;
    let small = |q: P| q.x.abs().max(q.y.abs()) as f64 * tf.scale <= 0.7;
    let clear = a != b
        && rad * tf.scale <= 0.7
        && [a, b, c].iter().all(|q| small(*q))
        && away(harness::lat::dist_line(c, a, b) - rad)
        && [a, b].iter().all(|q| away(q.sub(c).len() - rad));
    let Some((must, class)) = segment_circle_spots(&tf, a, b, c, m).filter(|_| clear) else {
        ctx.skip("too close to tell in f32");
        return Ok(());
    };
    // Where the circle turns back rounding is magnified.
    let o = tf.of(c);
    if must.iter().any(|(q, _)| (q.1 - o.1).abs() < 0.05) {
        ctx.skip("near an extreme in f32");
        return Ok(());
    }
    let must: Vec<(Pt, f64)> = must.into_iter().map(|(q, _)| (q, 1e-4)).collect();
    let mut sweep = SweepSegment2Intersection::<f32>::new();
    let (s, k) = (seg::<f32>(&tf, a, b), CircleSegment2::new(lp::<f32>(&tf, c), (rad * tf.scale) as f32));
    let first = rng.chance(1, 2);
    if first {
        sweep.push_segment(&s);
    }
    sweep.push_segment(&k);
    if !first {
        sweep.push_segment(&s);
    }
    let got = points(&ctx.call("SweepSegment2Intersection::intersection", || sweep.intersection())?);
    let what = || format!("f32 sweep over {:?} {:?}", s, k);
    same_points(&got, &must, &[]).map_err(|m| format!("{}: {}", what(), m))?;
    ctx.bucket("f32");
    ctx.judged(&format!("f32: {}", class));
    ctx.nontrivial(hash_of(93, &tf, &[a, b, c]) ^ (m as u64) << 40);
    ctx.sample(what);
    Ok(())
}

fn curves_many(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(10, 30);
    let r = *rng.pick(&[4, 8, 14]);
    let tf = Tf::any(rng, 2 * r, 200.0);
    curves_of(ctx, rng, n, r, tf)
}

type Spots = [(Pt, f64)];

/// Why a set is not judged.
fn too_close(v: &[Item], shapes: &[Shape], must: &Spots, may: &Spots, tf: &Tf) -> Option<&'static str> {
    let mut all: Vec<Pt> = must.iter().chain(may).map(|m| m.0).collect();
    for s in shapes {
        use rcgal::kernel::segment_2::Segment2;
        match s {
            Shape::Line(l) => all.extend([xy(&l.source()), xy(&l.target())]),
            Shape::Arc(a) => all.extend([xy(&a.source()), xy(&a.target())]),
            _ => {}
        }
    }
    if all.iter().any(|q| near_extreme(v, tf, *q)) {
        return Some("a point near the extreme of a circle");
    }
    for i in 0..all.len() {
        for q in &all[..i] {
            let d = dist(*q, all[i]);
            let dx = (q.0 - all[i].0).abs();
            if (d > 1e-11 && d < 1e-5) || (dx > 1e-11 && dx < 1e-7) {
                return Some("points too close to tell apart");
            }
        }
        for s in shapes {
            let d = s.distance(all[i]);
            if d > 1e-11 && d < 1e-6 {
                return Some("a point too close to another segment");
            }
        }
    }
    None
}

fn apart(v: &[Item], tf: &Tf) -> bool {
    let shapes: Vec<Shape> = v.iter().map(|i| i.shape(tf)).collect();
    expected_items(v, tf).is_some_and(|(must, may, _)| too_close(v, &shapes, &must, &may, tf).is_none())
}

/// Small sets side by side.
fn curves_hundreds(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::identity();
    let wide = *rng.pick(&[1, 4, 8, 20]);
    let cells = rng.range(15, 45);
    let mut v: Vec<Item> = Vec::new();
    for cell in 0..cells {
        let n = rng.usize(2, 6);
        let some = items(rng, &tf, n, 4);
        // Those that are judged alone.
        let reach = |i: &Item| match i {
            Item::Line(a, b) => [a.x, a.y, b.x, b.y].into_iter().map(i64::abs).max().unwrap(),
            _ => i.round().map_or(0, |(c, n2)| c.x.abs().max(c.y.abs()) + (n2 as f64).sqrt() as i64 + 1),
        };
        if some.iter().any(|i| reach(i) > 24) || !apart(&some, &tf) {
            continue;
        }
        let at = p((cell % wide - wide / 2) * 50, cell / wide * 50 - 500);
        v.extend(some.into_iter().map(|i| match i {
            Item::Line(a, b) => Item::Line(a.add(at), b.add(at)),
            Item::Circle(c, n2) => Item::Circle(c.add(at), n2),
            Item::Arc(a) => Item::Arc(Arc { c: a.c.add(at), ..a }),
        }));
    }
    rng.shuffle(&mut v);
    curves_on(ctx, v, tf)
}

fn curves_of(ctx: &mut Ctx, rng: &mut Rng, n: usize, r: i64, tf: Tf) -> R {
    let v = items(rng, &tf, n, r);
    curves_on(ctx, v, tf)
}

fn curves_on(ctx: &mut Ctx, v: Vec<Item>, tf: Tf) -> R {
    let Some((must, may, classes)) = expected_items(&v, &tf) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let shapes: Vec<Shape> = v.iter().map(|i| i.shape(&tf)).collect();
    let what = || format!("sweep over {:?} (lattice {:?} through {:?})", shapes, v, tf);
    if let Some(why) = too_close(&v, &shapes, &must, &may, &tf) {
        ctx.skip(why);
        return Ok(());
    }
    let mut sweep = SweepSegment2Intersection::<f64>::new();
    for s in &shapes {
        with_shape!(s, t, sweep.push_segment(t));
    }
    let got = points(&ctx.call("SweepSegment2Intersection::intersection", || sweep.intersection())?);
    same_points(&got, &must, &may).map_err(|m| format!("{}: {}", what(), m))?;
    for q in &got {
        let on = shapes.iter().filter(|s| s.distance(*q) < 1e-8).count();
        ensure!(on > 1, "{}: {:?} is on {} of them", what(), q, on);
    }
    for i in 0..got.len() {
        for j in 0..i {
            ensure!(dist(got[i], got[j]) > 1e-9, "{}: {:?} comes twice", what(), got[i]);
        }
    }
    ctx.judged(match must.len() {
        0 => "no common points",
        1 => "one common point",
        _ => "several common points",
    });
    for c in classes {
        ctx.bucket(&format!("pair: {}", c));
    }
    for i in &v {
        ctx.bucket(match i {
            Item::Line(..) => "with a segment",
            Item::Circle(..) => "with a circle",
            Item::Arc(_) => "with an arc",
        });
    }
    if v.len() >= 10 {
        ctx.bucket(if v.len() < 40 { "10 or more curves" } else { "40 or more curves" });
    }
    ctx.note("points", must.len() as u64);
    ctx.note_max("segments", v.len() as u64);
    let mut h = Hasher::new(83);
    h.add(hash_str(&what()));
    ctx.nontrivial(h.0);
    ctx.sample(what);
    Ok(())
}

// ------------------------------------------------------- order and repetition

/// Both ways round, each point has one of the other's within the tolerance.
fn same_sets(a: &[Pt], b: &[Pt], tol: f64) -> bool {
    let inside = |x: &[Pt], y: &[Pt]| x.iter().all(|q| y.iter().any(|w| dist(*q, *w) <= tol));
    a.len() == b.len() && inside(a, b) && inside(b, a)
}

fn histories(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = if rng.chance(1, 100) { rng.usize(13, 50) } else { rng.usize(2, 12) };
    let r = *rng.pick(&[3, 6, 12]);
    let (v, family) = segments(rng, n, r);
    let tf = transform(rng, &v, 2 * r);
    if expected(&v, &tf).is_none() {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let what = || format!("({}) {:?} through {:?}", family, v, tf);
    let mut whole = sweep_of::<f64>(&tf, &v);
    let first = points(&ctx.call("SweepSegment2Intersection::intersection", || whole.intersection())?);
    for i in 0..rng.usize(1, 3) {
        let again = points(&ctx.call("SweepSegment2Intersection::intersection", || whole.intersection())?);
        ensure!(again == first, "asked again ({}), {}: {} after {}", i, what(), show_xy(&again), show_xy(&first));
    }
    ctx.judged("asked again");
    // Another order and other directions.
    let mut w = v.clone();
    rng.shuffle(&mut w);
    for s in &mut w {
        if rng.chance(1, 2) {
            *s = (s.1, s.0);
        }
    }
    let got = points(&ctx.call("SweepSegment2Intersection::intersection", || sweep_of::<f64>(&tf, &w).intersection())?);
    ensure!(same_sets(&got, &first, 1e-8), "{}: {}, in another order {}", what(), show_xy(&first), show_xy(&got));
    ctx.judged("another order");
    // Bit by bit, asking in between.
    let mut parts = SweepSegment2Intersection::<f64>::new();
    let mut k = 0;
    while k < w.len() {
        let m = rng.usize(1, w.len() - k);
        for (a, b) in &w[k..k + m] {
            parts.push_segment(&seg::<f64>(&tf, *a, *b));
        }
        k += m;
        let got = points(&ctx.call("SweepSegment2Intersection::intersection", || parts.intersection())?);
        if let Some((want, _)) = expected(&w[..k], &tf) {
            let want: Vec<Pt> = want.iter().map(|q| { let (x, y) = q.f(); tf.at(x, y) }).collect();
            ensure!(
                same_sets(&got, &want, 1e-8),
                "after the first {} of {:?} through {:?}: {}, expected {}",
                k, w, tf, show_xy(&got), show_xy(&want)
            );
            ctx.judged("bit by bit");
        }
    }
    // The same through all pairs.
    let mut pairs: Vec<Pt> = Vec::new();
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            let (s, t) = (seg::<f64>(&tf, v[i].0, v[i].1), seg::<f64>(&tf, v[j].0, v[j].1));
            let got = points(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&s, &t))?);
            for q in got {
                if !pairs.iter().any(|w| dist(*w, q) < 1e-8) {
                    pairs.push(q);
                }
            }
        }
    }
    ensure!(same_sets(&pairs, &first, 1e-8), "{}: the sweep finds {}, pair by pair {}", what(), show_xy(&first), show_xy(&pairs));
    ctx.judged("pair by pair");
    // Everything twice: the ends become common points too.
    if rng.chance(1, 3) {
        let twice: Vec<Seg> = v.iter().chain(&w).copied().collect();
        let got = points(&ctx.call("SweepSegment2Intersection::intersection", || sweep_of::<f64>(&tf, &twice).intersection())?);
        let (want, _) = expected(&twice, &tf).unwrap_or_default();
        let want: Vec<Pt> = want.iter().map(|q| { let (x, y) = q.f(); tf.at(x, y) }).collect();
        if !want.is_empty() {
            ensure!(same_sets(&got, &want, 1e-8), "everything twice, {}: {}, expected {}", what(), show_xy(&got), show_xy(&want));
            ctx.judged("everything twice");
        }
    }
    ctx.nontrivial(hash_of(84, &tf, &flat(&v)));
    ctx.sample(what);
    Ok(())
}

/// The same with arcs and circles, by exchanging equivalent descriptions.
fn curve_histories(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(2, 6);
    let r = *rng.pick(&[2, 4, 8]);
    let tf = Tf::any(rng, 2 * r, 200.0);
    let v = items(rng, &tf, n, r);
    let Some((must, may, _)) = expected_items(&v, &tf) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let all: Vec<Pt> = must.iter().chain(&may).map(|m| m.0).collect();
    if !may.is_empty() || false && all.iter().any(|q| near_extreme(&v, &tf, *q)) {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let run = |ctx: &mut Ctx, v: &[Item]| -> Result<Vec<Pt>, String> {
        let mut sweep = SweepSegment2Intersection::<f64>::new();
        for i in v {
            let s = i.shape(&tf);
            with_shape!(&s, t, sweep.push_segment(t));
        }
        let a = points(&ctx.call("SweepSegment2Intersection::intersection", || sweep.intersection())?);
        let b = points(&ctx.call("SweepSegment2Intersection::intersection", || sweep.intersection())?);
        ensure!(a == b, "asked again, {:?} through {:?}: {} after {}", v, tf, show_xy(&b), show_xy(&a));
        Ok(a)
    };
    let first = run(ctx, &v)?;
    ctx.judged("asked again, with arcs");
    let mut w = v.clone();
    rng.shuffle(&mut w);
    for i in &mut w {
        match i {
            Item::Line(a, b) => std::mem::swap(a, b),
            Item::Arc(a) => {
                let k = rng.range(-1, 1) as f64 * TAU;
                a.source += k;
                a.target += k;
            }
            _ => {}
        }
    }
    let got = run(ctx, &w)?;
    for q in &must {
        let (x, y) = (first.iter().any(|g| dist(*g, q.0) < 1e-8), got.iter().any(|g| dist(*g, q.0) < 1e-8));
        ensure!(x == y, "{:?} through {:?}: {}, in another order {}", v, tf, show_xy(&first), show_xy(&got));
    }
    ctx.judged("another order, with arcs");
    let mut h = Hasher::new(85);
    h.add(hash_str(&format!("{:?}{:?}", v, tf)));
    ctx.nontrivial(h.0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P32",
            stages: vec![
                Stage { name: "f64", cases: 12_000, run: lines_f64 },
                Stage { name: "many", cases: 200, run: lines_many },
                Stage { name: "lots", cases: 30, run: lines_lots },
                Stage { name: "hundreds", cases: 4, run: lines_hundreds },
                Stage { name: "squeezed", cases: 8_000, run: lines_squeezed },
                Stage { name: "far", cases: 8_000, run: lines_far },
                Stage { name: "f32", cases: 10_000, run: lines_f32 },
            ],
            rule: "0 to 60, some to 250 or 1500, lattice segments of seven families (bundles, overlaps, chains, axis-parallel, all across), exact, rotated so that one is vertical up to rounding or at random, squeezed in one direction with ends moved a little, or up to 16000 from the origin; compared with the exact common points of all pairs; all count",
            assumptions: vec!["sets with distinct points, or a point and another segment, closer than 1e-6 are not judged"],
            required: vec![
                "crossings", "touchings", "overlaps", "points of three or more", "no common points", "rotated", "20 or more segments", "80 or more segments", "a large grid", "hundreds of segments", "squeezed", "far from the origin",
                "segments: bundle", "segments: chain", "segments: axis-parallel", "segments: all across",
            ],
            silent: false,
        },
        Prop {
            id: "P33",
            stages: vec![
                Stage { name: "curves", cases: 20_000, run: curves },
                Stage { name: "many", cases: 400, run: curves_many },
                Stage { name: "hundreds", cases: 10, run: curves_hundreds },
                Stage { name: "far", cases: 6_000, run: curves_far },
                Stage { name: "f32", cases: 20_000, run: curves_f32 },
            ],
            rule: "2 to 9, some 10 to 30, or to 200 in small sets side by side, segments, circles and arcs of lattice circles through common points and tangent, arcs in a row on one circle or overlapping, exact or rotated; compared with the common points of all pairs, classified exactly; all count; also in single precision, where coordinates are small",
            assumptions: vec![
                "points nearer than 1e-3 to the leftmost or rightmost level of a circle, but not on it, are not judged",
                "sets with distinct points, or a point and another segment, closer than 1e-6 are not judged",
                "a whole circle, or an arc of a full turn, is not combined with the same circle again",
                "where arcs of one circle overlap, the leftmost and rightmost point of it may be reported too",
            ],
            required: vec!["f32", "several common points", "one common point", "no common points", "with a circle", "with an arc", "with a segment", "10 or more curves", "40 or more curves", "pair: arcs in a row on one circle", "pair: overlapping arcs", "pair: an arc of the same circle"],
            silent: false,
        },
        Prop {
            id: "P34",
            stages: vec![
                Stage { name: "segments", cases: 6_000, run: histories },
                Stage { name: "curves", cases: 6_000, run: curve_histories },
            ],
            rule: "sets as for the sweep itself, asked twice or more, pushed in another order and direction, bit by bit with questions in between, twice, and taken pair by pair; all count",
            assumptions: vec!["sets with distinct points, or a point and another segment, closer than 1e-6 are not judged"],
            required: vec!["asked again", "another order", "bit by bit", "pair by pair", "everything twice", "asked again, with arcs", "another order, with arcs"],
            silent: false,
        },
    ]
}
