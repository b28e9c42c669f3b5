//! Monitors on coordinates without structure: affine images of lattice figures,
//! and plain random numbers kept away from the tolerance.
use crate::num::*;
use harness::ctx::{Ctx, Hasher, Prop, Stage, R};
use harness::ensure;
use harness::lat::{self, area2, in_polygon, point_near, Side, P};
use harness::rng::Rng;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::line_2_line_2::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::location::location_enum::*;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_ray_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::vector_2::Vector2;
use std::f64::consts::TAU;

type Pt = (f64, f64);

fn add(a: Pt, b: Pt) -> Pt {
    (a.0 + b.0, a.1 + b.1)
}
fn sub(a: Pt, b: Pt) -> Pt {
    (a.0 - b.0, a.1 - b.1)
}
fn cross(a: Pt, b: Pt) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
fn dot(a: Pt, b: Pt) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
fn len(a: Pt) -> f64 {
    a.0.hypot(a.1)
}
fn times(k: f64, a: Pt) -> Pt {
    (k * a.0, k * a.1)
}
fn dist_seg(q: Pt, a: Pt, b: Pt) -> f64 {
    let d = sub(b, a);
    let l2 = dot(d, d);
    let t = if l2 == 0.0 { 0.0 } else { (dot(sub(q, a), d) / l2).clamp(0.0, 1.0) };
    dist(q, add(a, times(t, d)))
}

fn hash(tag: u64, qs: &[Pt]) -> u64 {
    let mut h = Hasher::new(tag);
    for q in qs {
        h.add(q.0.to_bits()).add(q.1.to_bits());
    }
    h.0
}

fn random(rng: &mut Rng, size: f64) -> Pt {
    (rng.float(-size, size), rng.float(-size, size))
}

/// An affine map of the plane: keeps what lies in, on and beside what, and
/// orientation up to a sign.
#[derive(Debug)]
struct Affine {
    m: [f64; 4],
    t: Pt,
    det: f64,
}

impl Affine {
    fn new(rng: &mut Rng, scale: f64) -> Affine {
        let (s1, s2) = (scale * 10f64.powf(rng.float(-0.5, 1.2)), scale * 10f64.powf(rng.float(-0.5, 1.2)));
        let s2 = if rng.chance(1, 2) { -s2 } else { s2 };
        let (u, v) = (rng.float(0.0, TAU), rng.float(0.0, TAU));
        let (cu, su, cv, sv) = (u.cos(), u.sin(), v.cos(), v.sin());
        // R(u) * diag(s1, s2) * R(v)
        let m = [
            cu * s1 * cv - su * s2 * sv,
            -cu * s1 * sv - su * s2 * cv,
            su * s1 * cv + cu * s2 * sv,
            -su * s1 * sv + cu * s2 * cv,
        ];
        Affine { m, t: random(rng, 50.0 * scale), det: s1 * s2 }
    }
    /// In whole numbers, far from the origin: exact.
    fn far(rng: &mut Rng) -> Affine {
        loop {
            let mut c = || rng.range(-3, 3) as f64;
            let m = [c(), c(), c(), c()];
            let det = m[0] * m[3] - m[1] * m[2];
            let mut shift = || {
                let k = rng.range(10, 32) as u32;
                rng.range(-(1 << k), 1 << k) as f64
            };
            let t = (shift(), shift());
            if det != 0.0 {
                return Affine { m, t, det };
            }
        }
    }
    fn at(&self, x: f64, y: f64) -> Pt {
        (self.m[0] * x + self.m[1] * y + self.t.0, self.m[2] * x + self.m[3] * y + self.t.1)
    }
    fn of(&self, q: P) -> Pt {
        self.at(q.x as f64, q.y as f64)
    }
}

// ------------------------------------------------------------------ polygons

/// Least distance of a vertex from an edge it is not an end of.
fn clearance(v: &[Pt]) -> f64 {
    let n = v.len();
    let mut least = f64::INFINITY;
    for i in 0..n {
        for j in 0..n {
            if j != i && (j + 1) % n != i {
                least = least.min(dist_seg(v[i], v[j], v[(j + 1) % n]));
            }
        }
    }
    least
}

fn polygons(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let scale: f64 = *rng.pick(&[1.0, 1.0, 1.0, 10.0, 1e-2, 1e-4]);
    let map = Affine::new(rng, scale);
    polygons_by(ctx, rng, map, scale, 1e-9)?;
    ctx.bucket(&format!("scale {:e}", scale));
    Ok(())
}

fn polygons_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let map = Affine::far(rng);
    polygons_by(ctx, rng, map, 1.0, 1e-6)?;
    ctx.bucket("far from the origin");
    Ok(())
}

fn polygons_by(ctx: &mut Ctx, rng: &mut Rng, map: Affine, scale: f64, tol: f64) -> R {
    let n = *rng.pick(&[3, 4, 6, 9, 14, 24]);
    let r = *rng.pick(&[3, 8, 20]);
    let (lattice, family) = lat::simple_polygon(rng, n, r);
    let n = lattice.len();
    // Distances that the tolerance must not decide.
    let fine = scale.min(1.0);
    let v: Vec<Pt> = lattice.iter().map(|q| map.of(*q)).collect();
    if clearance(&v) < 1e-4 * fine {
        ctx.skip("boundary too close to itself");
        return Ok(());
    }
    let make = || Polygon2::new(v.iter().map(|q| pt::<f64>(*q)).collect());
    let polygon = make();
    let what = || format!("{} outline {}", family, show_xy(&v));
    let want = area2(&lattice) as f64 * map.det / 2.0;
    let area = ctx.call("Polygon2::area", || polygon.area())?;
    ensure!((area - want).abs() <= tol * (scale * scale + want.abs()), "{}: area {}, expected {}", what(), area, want);
    let simple = ctx.call("Polygon2::is_simple", || polygon.is_simple())?;
    ensure!(simple, "{}: is_simple denies it", what());
    let triangles = ctx.call("earcut_2", || earcut_2(make()))?;
    let flat = (0..n).any(|i| lat::orient(lattice[i], lattice[(i + 1) % n], lattice[(i + 2) % n]) == 0);
    crate::polygon::check_triangulation(&lattice, &triangles, true)
        .map_err(|e| format!("{}: {} in {:?}", what(), e, triangles))?;
    let mut sum = 0.0;
    let tris: Vec<Triangle2<f64>> =
        triangles.iter().map(|t| Triangle2::new(pt(v[t[0]]), pt(v[t[1]]), pt(v[t[2]]))).collect();
    for t in &tris {
        sum += ctx.call("Triangle2::area", || t.area())?.abs();
    }
    ensure!((sum - want.abs()).abs() <= tol * (scale * scale + want.abs()), "{}: the triangles' areas add up to {}, not {}", what(), sum, want);
    for _ in 0..10 {
        let q = point_near(rng, r + 1, &lattice);
        let (f, exact) = (map.of(q), in_polygon(q, &lattice));
        let gap = (0..n).map(|i| dist_seg(f, v[i], v[(i + 1) % n])).fold(f64::INFINITY, f64::min);
        if exact != Side::On && gap < 1e-5 * fine {
            ctx.skip("too close to the boundary");
            continue;
        }
        let p = pt::<f64>(f);
        let got = ctx.call("locate_point_2_polygon_2", || locate_point_2_polygon_2(&p, &polygon))?;
        // A rounded point of the boundary is on it up to rounding far below the tolerance.
        let expect = match exact {
            Side::On => Point2Polygon2Location::On,
            Side::Inside => Point2Polygon2Location::Inside,
            Side::Outside => Point2Polygon2Location::Outside,
        };
        ensure!(got == expect, "{:?} is {:?} in the {}, expected {:?}", p, got, what(), expect);
        let (mut inside, mut on) = (0, 0);
        for t in &tris {
            match ctx.call("locate_point_2_triangle_2", || locate_point_2_triangle_2(&p, t))? {
                Point2Triangle2Location::Inside => inside += 1,
                Point2Triangle2Location::On => on += 1,
                Point2Triangle2Location::Outside => {}
            }
        }
        let fits = match exact {
            Side::Outside => inside == 0 && on == 0,
            Side::Inside => (inside == 1 && (on == 0 || flat)) || (inside == 0 && on >= 2),
            Side::On => inside == 0 && on >= 1 || flat,
        };
        // Near a diagonal the triangles may disagree within the tolerance.
        let near_diagonal = triangles.iter().any(|t| {
            (0..3).any(|k| {
                let d = dist_seg(f, v[t[k]], v[t[(k + 1) % 3]]);
                d > 0.0 && d < 1e-5 * fine
            })
        });
        if near_diagonal {
            ctx.skip("too close to a diagonal");
        } else {
            ensure!(
                fits,
                "{:?} is {:?} in the {}, but inside {} and on {} of its triangles {:?}",
                p, exact, what(), inside, on, triangles
            );
        }
        ctx.judged(&format!("point {:?}", exact).to_lowercase());
    }
    ctx.bucket(&format!("outline: {}", family));
    ctx.nontrivial(hash(90, &v));
    ctx.sample(what);
    Ok(())
}

/// The sweep over the edges of a simple polygon finds its vertices.
fn edges_swept(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 6, 9, 14, 24]);
    let r = *rng.pick(&[3, 8, 20]);
    let (lattice, family) = lat::simple_polygon(rng, n, r);
    let scale = *rng.pick(&[1.0, 1.0, 10.0, 1e-2]);
    let map = Affine::new(rng, scale);
    let v: Vec<Pt> = lattice.iter().map(|q| map.of(*q)).collect();
    if clearance(&v) < 1e-3 * scale {
        ctx.skip("boundary too close to itself");
        return Ok(());
    }
    let polygon = Polygon2::new(v.iter().map(|q| pt::<f64>(*q)).collect());
    let got: Vec<Pt> = ctx
        .call("SweepSegment2Intersection", || {
            let mut sweep = SweepSegment2Intersection::new();
            for e in polygon.edges() {
                sweep.push_segment(&e);
            }
            sweep.intersection()
        })?
        .iter()
        .map(xy)
        .collect();
    let must: Vec<(Pt, f64)> = v.iter().map(|q| (*q, 1e-7 * scale)).collect();
    same_points(&got, &must, &[]).map_err(|e| format!("{}: edges of the {} outline {}", e, family, show_xy(&v)))?;
    ctx.judged("edges of a polygon swept");
    ctx.nontrivial(hash(91, &v));
    Ok(())
}

// ---------------------------------------------------------------------- hull

fn hulls(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = if rng.chance(1, 200) { 2000 } else { *rng.pick(&[3, 4, 7, 15, 40, 120, 400]) };
    let size = *rng.pick(&[1e-6, 1e-4, 1e-2, 1.0, 1.0, 30.0, 30.0, 1000.0, 1e6]);
    let kind = rng.below(5);
    // Far from the origin rounding leaves a grid, on which everything is exact.
    let far = *rng.pick(&[1.0, 1.0, 1e3, 1e6, 1e9, 1e12]);
    let c = random(rng, size * far);
    let stretch = 10f64.powf(rng.float(-2.0, 0.0));
    let spread = *rng.pick(&[1e-11, 1e-11, 1e-9]);
    let (columns, level) = (rng.chance(1, 2), rng.chance(1, 2));
    let tilt = rng.float(0.0, TAU);
    let mut v: Vec<Pt> = (0..n)
        .map(|_| {
            let q = match kind {
                0 => random(rng, size),
                1 => {
                    let a = rng.float(0.0, TAU);
                    (size * a.cos(), size * a.sin())
                }
                2 => {
                    let (a, r) = (rng.float(0.0, TAU), size * rng.unit().powi(4));
                    (r * a.cos(), r * a.sin())
                }
                3 => {
                    let q = random(rng, size);
                    (q.0, q.1 * stretch)
                }
                _ => {
                    // Columns of points that are nearly above each other, upright.
                    let q = random(rng, size);
                    let x = if columns { (q.0 / size * 2.5).round() * size / 2.5 } else { 0.0 };
                    let x = x + *rng.pick(&[0.0, 1e-13, -1e-12, 3e-12, 2e-11, -5e-11, spread]) * rng.float(0.5, 1.5);
                    let y = if level { (q.1 / size * 1.5).round() * size / 1.5 } else { q.1 };
                    return (x + c.0, y + c.1);
                }
            };
            let (x, y) = (q.0 * tilt.cos() - q.1 * tilt.sin(), q.0 * tilt.sin() + q.1 * tilt.cos());
            (x + c.0, y + c.1)
        })
        .collect();
    for _ in 0..rng.usize(0, 3) {
        let q = *rng.pick(&v);
        v.push(q);
    }
    let hull = |ctx: &mut Ctx, v: &[Pt]| -> Result<Vec<Pt>, String> {
        let points = v.iter().map(|q| pt::<f64>(*q)).collect();
        Ok(ctx.call("ConvexHull2::convex_hull", || ConvexHull2::new(points).convex_hull())?.iter().map(xy).collect())
    };
    let got = hull(ctx, &v)?;
    let what = || format!("hull {} of {}", show_xy(&got), show_xy(&v));
    let m = got.len();
    ensure!(m >= 1 && (m > 1 || v.iter().all(|q| dist(*q, got[0]) <= 1e-10)), "only {} corners: {}", m, what());
    let chord = sub(got[m - 1], got[0]);
    if m < 3 && v.iter().all(|q| cross(chord, sub(*q, got[0])).abs() <= 4.0 * f64::EPSILON * len(chord).powi(2)) {
        ctx.skip("all in line");
        return Ok(());
    }
    ensure!(m >= 3, "only {} corners: {}", m, what());
    for q in &got {
        ensure!(v.contains(q), "the corner {:?} is none of the points: {}", q, what());
    }
    // All points to one side of every edge, up to rounding and the tolerance.
    let turning = (0..m).map(|i| cross(sub(got[i], got[0]), sub(got[(i + 1) % m], got[0]))).sum::<f64>().signum();
    for i in 0..m {
        let (a, b) = (got[i], got[(i + 1) % m]);
        let d = sub(b, a);
        for q in &v {
            let off = turning * cross(d, sub(*q, a));
            ensure!(
                off >= -(2e-10 * size.min(1.0).powi(2) + 1e-13 * size * len(d)),
                "{:?} is {:e} outside the edge {:?} {:?}: {}",
                q, -off / len(d), a, b, what()
            );
        }
        let e = sub(got[(i + 2) % m], b);
        ensure!(turning * cross(d, e) > 0.0, "the corner {:?} does not turn: {}", b, what());
    }
    let polygon = Polygon2::new(got.iter().map(|q| pt::<f64>(*q)).collect());
    let (simple, convex) = ctx.call("is_simple and is_convex", || (polygon.is_simple(), polygon.is_convex()))?;
    ensure!(convex, "is_convex denies the {}", what());
    let shortest = (0..m).map(|i| dist(got[i], got[(i + 1) % m])).fold(f64::INFINITY, f64::min);
    if clearance(&got) > 1e-6 && shortest > 1e-6 {
        ensure!(simple, "is_simple denies the {}", what());
    }
    let same = |a: &[Pt], b: &[Pt]| {
        a.len() == b.len() && (0..a.len()).any(|k| (0..a.len()).all(|i| a[i] == b[(i + k) % b.len()]))
    };
    let again = hull(ctx, &got)?;
    ensure!(same(&got, &again), "the hull of the hull is {}: {}", show_xy(&again), what());
    let mut order = v.clone();
    rng.shuffle(&mut order);
    let other = hull(ctx, &order)?;
    ensure!(same(&got, &other), "in another order it is {}: {}", show_xy(&other), what());
    let area = ctx.call("Polygon2::area", || polygon.area())?.abs();
    let want = (0..m).map(|i| cross(sub(got[i], c), sub(got[(i + 1) % m], c))).sum::<f64>().abs() / 2.0;
    ensure!((area - want).abs() <= 1e-9 * (size * size + want), "the area is {}, expected {}: {}", area, want, what());
    ctx.bucket(&format!("size {:e}", size));
    ctx.bucket(&format!("{:e} times its size away", far));
    ctx.judged(["square", "circle", "concentrated", "stretched", "columns"][kind as usize]);
    ctx.note_max("corners", m as u64);
    ctx.nontrivial(hash(92, &v));
    ctx.sample(what);
    Ok(())
}

// --------------------------------------------------------------------- sweep

#[derive(Clone, Copy, Debug)]
enum Curve {
    Seg(Pt, Pt),
    /// Centre, radius, start, turn.
    Arc(Pt, f64, f64, f64),
}

const NEAR: f64 = 1e-5;

impl Curve {
    fn ends(&self) -> Vec<Pt> {
        match self {
            Curve::Seg(a, b) => vec![*a, *b],
            Curve::Arc(_, _, _, t) if *t == TAU => vec![],
            Curve::Arc(c, r, s, t) => [*s, s + t].iter().map(|a| add(*c, (r * a.cos(), r * a.sin()))).collect(),
        }
    }
    fn distance(&self, q: Pt) -> f64 {
        match self {
            Curve::Seg(a, b) => dist_seg(q, *a, *b),
            Curve::Arc(c, r, s, t) => {
                let a = (q.1 - c.1).atan2(q.0 - c.0);
                if *t == TAU || (a - s).rem_euclid(TAU) <= *t {
                    (dist(q, *c) - r).abs()
                } else {
                    self.ends().iter().map(|e| dist(q, *e)).fold(f64::INFINITY, f64::min)
                }
            }
        }
    }
    fn holds(&self, q: Pt) -> bool {
        self.distance(q) < 1e-8
    }
}

/// Common points of the supports, or None when they nearly touch.
fn supports(x: &Curve, y: &Curve) -> Option<Vec<Pt>> {
    match (x, y) {
        (Curve::Seg(a, b), Curve::Seg(c, d)) => {
            let (u, v) = (sub(*b, *a), sub(*d, *c));
            let det = cross(u, v);
            if det.abs() < 1e-3 * len(u) * len(v) {
                return None;
            }
            Some(vec![add(*a, times(cross(sub(*c, *a), v) / det, u))])
        }
        (Curve::Seg(a, b), Curve::Arc(c, r, _, _)) => {
            let u = sub(*b, *a);
            let u = times(1.0 / len(u), u);
            let t = dot(sub(*c, *a), u);
            let foot = add(*a, times(t, u));
            let h = dist(foot, *c);
            if (h - r).abs() < 1e-3 * r {
                return None;
            }
            if h > *r {
                return Some(vec![]);
            }
            let w = (r * r - h * h).sqrt();
            Some(vec![add(foot, times(w, u)), add(foot, times(-w, u))])
        }
        (Curve::Arc(..), Curve::Seg(..)) => supports(y, x),
        (Curve::Arc(c, r, _, _), Curve::Arc(e, s, _, _)) => {
            let d = dist(*c, *e);
            let margin = 1e-3 * (r + s);
            if (d - (r + s)).abs() < margin || (d - (r - s).abs()).abs() < margin {
                return None;
            }
            if d > r + s || d < (r - s).abs() {
                return Some(vec![]);
            }
            let a = (d * d + r * r - s * s) / (2.0 * d);
            let h = (r * r - a * a).sqrt();
            let u = times(1.0 / d, sub(*e, *c));
            let m = add(*c, times(a, u));
            Some(vec![add(m, (-h * u.1, h * u.0)), add(m, (h * u.1, -h * u.0))])
        }
    }
}

/// Segments, circles and arcs of which many meet in a few points up to rounding,
/// some ending there, and some that start on others.
fn meeting(rng: &mut Rng, size: f64, n: usize, curved: bool) -> Vec<Curve> {
    let mut list: Vec<Curve> = Vec::new();
    let mut hubs: Vec<(Pt, Vec<f64>)> =
        (0..rng.usize(1, 3)).map(|_| (random(rng, size), Vec::new())).collect();
    while list.len() < n {
        let k = rng.usize(0, hubs.len() - 1);
        match rng.below(5) {
            // Through a hub, or ending there.
            0..=2 => {
                let a = match rng.below(6) {
                    0 => 0.0,
                    1 => TAU / 4.0,
                    _ => rng.float(0.0, TAU / 2.0),
                };
                let (c, taken) = &mut hubs[k];
                let apart = |b: &f64| {
                    let d = (a - b).rem_euclid(TAU / 2.0);
                    d.min(TAU / 2.0 - d) > 0.1
                };
                if !taken.iter().all(apart) {
                    if taken.len() > 5 {
                        hubs.push((random(rng, size), Vec::new()));
                    }
                    continue;
                }
                taken.push(a);
                let c = *c;
                let u = match a {
                    a if a == 0.0 => (1.0, 0.0),
                    a if a == TAU / 4.0 => (0.0, 1.0),
                    a => (a.cos(), a.sin()),
                };
                if curved && rng.chance(1, 2) {
                    let r = size * rng.float(0.1, 0.8) * (if rng.chance(1, 2) { 1.0 } else { -1.0 });
                    let centre = add(c, (-r * u.1, r * u.0));
                    let at = (c.1 - centre.1).atan2(c.0 - centre.0);
                    let (s, t) = match rng.below(3) {
                        0 => (0.0, TAU),
                        _ => {
                            let s = at - rng.float(0.2, 2.0);
                            (s, at + rng.float(0.2, 2.0) - s)
                        }
                    };
                    list.push(Curve::Arc(centre, r.abs(), s, t));
                } else {
                    let (r, t) = (size * rng.float(0.1, 1.0), size * rng.float(0.1, 1.0));
                    let (a, b) = match rng.below(4) {
                        0 => (c, add(c, times(r * (if rng.chance(1, 2) { 1.0 } else { -1.0 }), u))),
                        _ => (add(c, times(-r, u)), add(c, times(t, u))),
                    };
                    list.push(if rng.chance(1, 2) { Curve::Seg(a, b) } else { Curve::Seg(b, a) });
                }
            }
            // From a point of another.
            3 if !list.is_empty() => {
                let on = match *rng.pick(&list) {
                    Curve::Seg(a, b) => add(a, times(rng.float(0.05, 0.95), sub(b, a))),
                    Curve::Arc(c, r, s, t) => {
                        let a: f64 = s + t * rng.float(0.05, 0.95);
                        add(c, (r * a.cos(), r * a.sin()))
                    }
                };
                let b = add(on, random(rng, size));
                list.push(if rng.chance(1, 2) { Curve::Seg(on, b) } else { Curve::Seg(b, on) });
            }
            _ => {
                let a = random(rng, size);
                let d = match rng.below(4) {
                    0 => (0.0, rng.float(-size, size)),
                    1 => (rng.float(-size, size), 0.0),
                    _ => random(rng, size),
                };
                list.push(Curve::Seg(a, add(a, d)));
            }
        }
        if let Some(Curve::Seg(a, b)) = list.last() {
            if dist(*a, *b) < 0.02 * size {
                list.pop();
            }
        }
    }
    list
}

/// The curves with some arcs ending beside the extremes of their circles, and some
/// ends of segments moved into, or next to, the columns of other ends.
fn columns(rng: &mut Rng, size: f64, list: &mut Vec<Curve>) {
    for i in 0..list.len() {
        let nearby = match rng.below(3) {
            0 => 0.0,
            _ => 10f64.powf(rng.float(-13.0, -4.0)) * (if rng.chance(1, 2) { 1.0 } else { -1.0 }),
        };
        if !rng.chance(1, 2) {
            continue;
        }
        match list[i] {
            Curve::Arc(c, r, s, t) if t != TAU => {
                let half = TAU / 2.0;
                if rng.chance(1, 2) {
                    let s = (s / half).round() * half + nearby;
                    list[i] = Curve::Arc(c, r, s, t);
                } else {
                    let e = ((s + t) / half).ceil() * half + nearby;
                    list[i] = Curve::Arc(c, r, s, if e - s < TAU - 0.01 { e - s } else { t });
                }
            }
            Curve::Arc(..) => {}
            Curve::Seg(a, b) => {
                let columns: Vec<f64> = list
                    .iter()
                    .flat_map(|c| match c {
                        Curve::Seg(a, b) => vec![a.0, b.0],
                        Curve::Arc(c, r, _, _) => vec![c.0 - r, c.0 + r],
                    })
                    .collect();
                let a = (rng.pick(&columns) + nearby * size, a.1);
                if dist(a, b) > 0.02 * size {
                    list[i] = Curve::Seg(a, b);
                }
            }
        }
    }
}

fn swept(ctx: &mut Ctx, rng: &mut Rng, curved: bool, max: usize, meet: bool) -> R {
    let n = rng.usize(2, max);
    let size: f64 = *rng.pick(&[1e-2, 1.0, 10.0, 100.0]);
    let reach = *rng.pick(&[0.2, 0.6, 2.0]) * size;
    let shared = rng.chance(1, 3);
    let mut list: Vec<Curve> = if meet { meeting(rng, size, n, curved) } else { Vec::new() };
    for _ in list.len()..n {
        if curved && rng.chance(1, 2) {
            let r = reach * rng.float(0.05, 0.8);
            let turn = if rng.chance(1, 3) { TAU } else { rng.float(0.1, TAU - 0.1) };
            let start = if turn == TAU { 0.0 } else { rng.float(0.0, TAU) };
            list.push(Curve::Arc(random(rng, size), r, start, turn));
        } else {
            let a = match list.iter().flat_map(|c| c.ends()).last() {
                Some(e) if shared && rng.chance(1, 2) => e,
                _ => random(rng, size),
            };
            let b = add(a, random(rng, reach));
            if dist(a, b) < 0.01 * size {
                continue;
            }
            list.push(Curve::Seg(a, b));
        }
    }
    if meet && rng.chance(1, 2) {
        columns(rng, size, &mut list);
    }
    judge_swept(ctx, size, list, curved)
}

fn judge_swept(ctx: &mut Ctx, size: f64, list: Vec<Curve>, curved: bool) -> R {
    // Distances the answers may depend on are at least this.
    let fine = size.min(1.0);
    let near = 1e-5 * fine;
    for c in &list {
        if let Curve::Seg(a, b) = c {
            let d = (a.0 - b.0).abs() / dist(*a, *b);
            // Some of its points away from its ends share their columns, up to the tolerance.
            if d > 1e-14 && d < 2e-10 / near {
                ctx.skip("a segment is nearly, but not, vertical");
                return Ok(());
            }
        }
    }
    // What all pairs say, unless two things nearly coincide.
    let mut must: Vec<Pt> = Vec::new();
    for i in 0..list.len() {
        for j in 0..i {
            let (x, y) = (&list[i], &list[j]);
            let touches = |e: &Pt, c: &Curve| c.distance(*e) < 2e-15 * (e.0.abs() + e.1.abs() + size);
            let common: Vec<Pt> = (x.ends().into_iter().filter(|e| touches(e, y)))
                .chain(y.ends().into_iter().filter(|e| touches(e, x)))
                .collect();
            must.extend(&common);
            let Some(points) = supports(x, y) else {
                ctx.skip("nearly parallel or tangent");
                return Ok(());
            };
            for q in points {
                if common.iter().any(|e| dist(*e, q) < near) {
                    continue;
                }
                match (x.distance(q), y.distance(q)) {
                    (a, b) if a < 1e-8 * fine && b < 1e-8 * fine => {
                        let end = x.ends().into_iter().chain(y.ends()).any(|e| dist(e, q) < near);
                        if end {
                            ctx.skip("crossing too close to an end");
                            return Ok(());
                        }
                        must.push(q);
                    }
                    (a, b) if a > near || b > near => {}
                    _ => {
                        ctx.skip("crossing too close to an end");
                        return Ok(());
                    }
                }
            }
        }
    }
    let mut special: Vec<(usize, Pt)> = must.iter().map(|q| (usize::MAX, *q)).collect();
    for (i, c) in list.iter().enumerate() {
        special.extend(c.ends().into_iter().map(|e| (i, e)));
        // The extremes of circles are events of the sweep too.
        if let Curve::Arc(c, r, _, _) = c {
            special.push((i, (c.0 - r, c.1)));
            special.push((i, (c.0 + r, c.1)));
        }
    }
    for (i, (of, a)) in special.iter().enumerate() {
        for (other, b) in &special[..i] {
            let d = dist(*a, *b);
            // An arc may end next to its own extreme.
            if d > 1e-11 * fine && d < near && (of != other || *of == usize::MAX) {
                ctx.skip("two events too close");
                return Ok(());
            }
        }
    }
    // Where the tangent of an arc is vertical, x says too little about y.
    for (i, c) in list.iter().enumerate() {
        if let Curve::Arc(c, r, _, _) = c {
            for x in [c.0 - r, c.0 + r] {
                let close = |(of, q): &(usize, Pt)| {
                    let d = (q.0 - x).abs();
                    *of != i && d > 1e-13 * (size + x.abs()) && d < 3e-10
                };
                if list.len() > 2 && special.iter().any(close) {
                    ctx.skip("nearly in the column of an extreme");
                    return Ok(());
                }
            }
        }
    }
    let got: Vec<Pt> = ctx
        .call("SweepSegment2Intersection", || {
            let mut sweep = SweepSegment2Intersection::<f64>::new();
            for c in &list {
                match c {
                    Curve::Seg(a, b) => sweep.push_segment(&LineSegment2::new(pt(*a), pt(*b))),
                    Curve::Arc(c, r, _, t) if *t == TAU => sweep.push_segment(&CircleSegment2::new(pt(*c), *r)),
                    Curve::Arc(c, r, s, t) => {
                        sweep.push_segment(&ArcSegment2::new(CircleSegment2::new(pt(*c), *r), *s, s + t))
                    }
                }
            }
            sweep.intersection()
        })?
        .iter()
        .map(xy)
        .collect();
    let must: Vec<(Pt, f64)> = must.into_iter().map(|q| (q, 1e-7 * fine)).collect();
    same_points(&got, &must, &[]).map_err(|e| format!("{}: {:?}", e, list))?;
    // And each once.
    for (i, a) in got.iter().enumerate() {
        ensure!(got[..i].iter().all(|b| dist(*a, *b) > 1e-8 * fine), "{:?} is reported twice: {:?}", a, list);
    }
    ctx.judged(match (curved, must.len()) {
        (_, 0) => "nothing meets",
        (false, 1..=9) => "segments with up to 9 points",
        (false, _) => "segments with 10 or more points",
        (true, 1..=9) => "curves with up to 9 points",
        (true, _) => "curves with 10 or more points",
    });
    ctx.note("points found", got.len() as u64);
    ctx.note_max("segments in one sweep", list.len() as u64);
    let flat: Vec<Pt> = list.iter().flat_map(|c| c.ends()).chain(got).collect();
    ctx.nontrivial(hash(93, &flat));
    ctx.sample(|| format!("{:?}", list));
    Ok(())
}

fn swept_segments(ctx: &mut Ctx, rng: &mut Rng) -> R {
    swept(ctx, rng, false, 14, false)
}

fn swept_many(ctx: &mut Ctx, rng: &mut Rng) -> R {
    swept(ctx, rng, false, 40, false)
}

fn swept_lots(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let curved = rng.chance(1, 2);
    swept(ctx, rng, curved, if curved { 40 } else { 150 }, false)?;
    Ok(())
}

fn swept_curves(ctx: &mut Ctx, rng: &mut Rng) -> R {
    swept(ctx, rng, true, 9, false)
}

/// A segment that ends on an arc, or crosses it, beside the extreme of the arc.
fn beside_extremes(rng: &mut Rng, size: f64) -> Vec<Curve> {
    let (c, r) = (random(rng, size), size * rng.float(0.1, 1.0));
    let side = if rng.chance(1, 2) { 0.0 } else { TAU / 2.0 };
    let nearby = 10f64.powf(rng.float(-5.0, -2.0)) * (if rng.chance(1, 2) { 1.0 } else { -1.0 });
    let at = side + nearby;
    let q = add(c, (r * at.cos(), r * at.sin()));
    let mut u = times(size * rng.float(0.1, 1.0), (1.0, rng.float(-1.0, 1.0)));
    if rng.chance(1, 2) {
        u = times(-1.0, u);
    }
    let start = if rng.chance(1, 2) { q } else { sub(q, times(0.5, u)) };
    let (mut a, mut b) = (start, add(q, u));
    if rng.chance(1, 2) {
        std::mem::swap(&mut a, &mut b);
    }
    let arc = match rng.below(3) {
        0 => Curve::Arc(c, r, 0.0, TAU),
        1 => Curve::Arc(c, r, side, rng.float(1.0, 6.0)),
        _ => {
            let s = side - rng.float(0.1, 2.0);
            Curve::Arc(c, r, s, rng.float(2.1, 4.0))
        }
    };
    vec![arc, Curve::Seg(a, b)]
}

fn swept_beside_extremes(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let size: f64 = *rng.pick(&[1e-2, 1.0, 10.0, 100.0]);
    let list = beside_extremes(rng, size);
    judge_swept(ctx, size, list, true)
}

fn swept_meeting(ctx: &mut Ctx, rng: &mut Rng) -> R {
    swept(ctx, rng, false, 9, true)
}

fn swept_meeting_curves(ctx: &mut Ctx, rng: &mut Rng) -> R {
    swept(ctx, rng, true, 6, true)
}

// ------------------------------------------------------- pairs and locations

fn curve(rng: &mut Rng, size: f64) -> Curve {
    if rng.chance(1, 2) {
        let a = random(rng, size);
        Curve::Seg(a, random(rng, size))
    } else {
        let turn = if rng.chance(1, 3) { TAU } else { rng.float(0.05, TAU - 0.05) };
        let start = if turn == TAU { 0.0 } else { rng.float(-TAU, TAU) };
        Curve::Arc(random(rng, size), size * rng.float(0.05, 1.2), start, turn)
    }
}

/// What is reported as common to two objects is located on both.
fn pairs(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let size = *rng.pick(&[1.0, 10.0, 100.0]);
    let (x, y) = (curve(rng, size), curve(rng, size));
    for c in [&x, &y] {
        if let Curve::Seg(a, b) = c {
            if dist(*a, *b) < 0.01 * size {
                ctx.skip("short segment");
                return Ok(());
            }
        }
    }
    let Some(points) = supports(&x, &y) else {
        ctx.skip("nearly parallel or tangent");
        return Ok(());
    };
    let mut must = Vec::new();
    for q in points {
        let far = x.distance(q).max(y.distance(q));
        let end = x.ends().into_iter().chain(y.ends()).map(|e| dist(e, q)).fold(f64::INFINITY, f64::min);
        if end < NEAR {
            ctx.skip("crossing too close to an end");
            return Ok(());
        }
        if far < 1e-8 {
            must.push((q, 1e-8 * (1.0 + size)));
        }
    }
    macro_rules! lib {
        ($c:expr, $v:ident, $e:expr) => {
            match $c {
                Curve::Seg(a, b) => {
                    let $v = LineSegment2::<f64>::new(pt(a), pt(b));
                    $e
                }
                Curve::Arc(c, r, _, t) if t == TAU => {
                    let $v = CircleSegment2::<f64>::new(pt(c), r);
                    $e
                }
                Curve::Arc(c, r, s, t) => {
                    let $v = ArcSegment2::<f64>::new(CircleSegment2::new(pt(c), r), s, s + t);
                    $e
                }
            }
        };
    }
    let found = ctx.call("segment_2_segment_2_intersection", || {
        lib!(x, a, lib!(y, b, segment_2_segment_2_intersection(&a, &b)))
    })?;
    let is = ctx.call("is_segment_2_segment_2_intersected", || {
        lib!(x, a, lib!(y, b, is_segment_2_segment_2_intersected(&a, &b)))
    })?;
    let got: Vec<Pt> = found.iter().map(xy).collect();
    same_points(&got, &must, &[]).map_err(|e| format!("{}: {:?} and {:?}", e, x, y))?;
    ensure!(got.len() == must.len(), "{} points for {}: {:?} and {:?}", got.len(), must.len(), x, y);
    ensure!(is != got.is_empty(), "the predicate is {} for {} points: {:?} and {:?}", is, got.len(), x, y);
    for q in &found {
        for c in [x, y] {
            let on = ctx.call("is_point_2_on_...", || match c {
                Curve::Seg(a, b) => is_point_2_on_line_segment_2(q, &LineSegment2::new(pt(a), pt(b))),
                Curve::Arc(c, r, _, t) if t == TAU => is_point_2_on_circle_segment_2(q, &CircleSegment2::new(pt(c), r)),
                Curve::Arc(c, r, s, t) => {
                    is_point_2_on_arc_segment_2(q, &ArcSegment2::new(CircleSegment2::new(pt(c), r), s, s + t))
                }
            })?;
            ensure!(on, "{:?} is reported as common to {:?} and {:?} but not located on {:?}", q, x, y, c);
        }
    }
    let kind = |c: &Curve| match c {
        Curve::Seg(..) => 0,
        Curve::Arc(_, _, _, t) if *t == TAU => 1,
        _ => 2,
    };
    let names = ["segment", "circle", "arc"];
    let (a, b) = (kind(&x).min(kind(&y)), kind(&x).max(kind(&y)));
    ctx.judged(&format!("{} and {}: {} points", names[a], names[b], got.len()));
    let flat: Vec<Pt> = x.ends().into_iter().chain(y.ends()).chain(got).collect();
    ctx.nontrivial(hash(94, &flat));
    ctx.sample(|| format!("{:?} and {:?}", x, y));
    Ok(())
}

/// A long segment that another object crosses next to one of its ends.
fn long(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let x = random(rng, 5.0);
    let reach = (10f64).powf(rng.float(0.0, 5.0));
    let by = *rng.pick(&[1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-3]) * rng.float(1.0, 9.0);
    let within = rng.chance(2, 3);
    let a = if rng.chance(1, 3) { rng.range(0, 7) as f64 * TAU / 8.0 } else { rng.float(0.0, TAU) };
    let turn = rng.float(0.4, TAU / 2.0 - 0.4) * if rng.chance(1, 2) { 1.0 } else { -1.0 };
    let (u, v) = ((a.cos(), a.sin()), ((a + turn).cos(), (a + turn).sin()));
    let (from, to) = (add(x, times(if within { -by } else { by }, u)), add(x, times(reach, u)));
    let forward = rng.chance(1, 2);
    let segment = if forward {
        LineSegment2::<f64>::new(pt(from), pt(to))
    } else {
        LineSegment2::new(pt(to), pt(from))
    };
    let (m, n) = (rng.float(0.1, 20.0), if rng.chance(1, 3) { (10f64).powf(rng.float(0.0, 4.0)) } else { rng.float(0.1, 20.0) });
    // Far ends are rounded, which turns the segments a little.
    let tol = 1e-10;
    let first = rng.chance(1, 2);
    macro_rules! common {
        ($other:expr, $on:expr) => {{
            let other = $other;
            let found = ctx.call("segment_2_segment_2_intersection", || {
                if first {
                    segment_2_segment_2_intersection(&segment, &other)
                } else {
                    segment_2_segment_2_intersection(&other, &segment)
                }
            })?;
            let is = ctx.call("is_segment_2_segment_2_intersected", || {
                if first {
                    is_segment_2_segment_2_intersected(&segment, &other)
                } else {
                    is_segment_2_segment_2_intersected(&other, &segment)
                }
            })?;
            let near: Vec<_> = found.iter().filter(|q| dist(xy(q), x) < 0.04).copied().collect();
            ensure!(
                near.len() == within as usize && near.iter().all(|q| dist(xy(q), x) < tol),
                "{:?} and {:?} cross in {:?}{}, but the common points are {}",
                segment, other, x, if within { "" } else { ", off the segment" }, show(&found)
            );
            ensure!(is != found.is_empty(), "the predicate is {} for {}: {:?} and {:?}", is, show(&found), segment, other);
            for q in &near {
                let on = $on;
                let on = ctx.call("is_point_2_on_...", || on(q, &other) && is_point_2_on_line_segment_2(q, &segment))?;
                ensure!(on, "{:?} is common to {:?} and {:?} but not located on both", q, segment, other);
            }
        }};
    }
    let radius = rng.float(0.5, 20.0);
    let center = (x.0 - radius * v.1, x.1 + radius * v.0);
    let at = (x.1 - center.1).atan2(x.0 - center.0);
    let kind = match rng.below(4) {
        0 => {
            common!(LineSegment2::<f64>::new(pt(sub(x, times(m, v))), pt(add(x, times(n, v)))), is_point_2_on_line_segment_2);
            "a segment"
        }
        1 => {
            common!(CircleSegment2::<f64>::new(pt(center), radius), is_point_2_on_circle_segment_2);
            "a circle"
        }
        2 => {
            let (s, t) = (at - rng.float(0.1, 2.0), at + rng.float(0.1, 2.0));
            common!(ArcSegment2::<f64>::new(CircleSegment2::new(pt(center), radius), s, t), is_point_2_on_arc_segment_2);
            "an arc"
        }
        _ => {
            let ray = Ray2::<f64>::new(pt(sub(x, times(m, v))), Vector2::new(v.0 * n, v.1 * n));
            let found = ctx.call("line_segment_2_ray_2_intersection", || line_segment_2_ray_2_intersection(&segment, &ray))?;
            ensure!(
                found.len() == within as usize && found.iter().all(|q| dist(xy(q), x) < tol),
                "{:?} and {:?} meet in {:?}{}, but the common points are {}",
                segment, (sub(x, times(m, v)), v), x, if within { "" } else { ", off the segment" }, show(&found)
            );
            for q in &found {
                let on = ctx.call("is_point_2_on_...", || {
                    is_point_2_on_ray_2(q, &ray) && is_point_2_on_line_segment_2(q, &segment)
                })?;
                ensure!(on, "{:?} is common to {:?} and {:?} but not located on both", q, segment, (sub(x, times(m, v)), v));
            }
            "a ray"
        }
    };
    ctx.judged(&format!("{} {} the end of a long segment", kind, if within { "just before" } else { "just past" }));
    ctx.nontrivial(hash(98, &[from, to, v]));
    ctx.sample(|| format!("{:?} at {:?} along {:?}", segment, x, v));
    Ok(())
}

/// Lines and rays, whose common points with others are located on both.
fn straight(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let size = *rng.pick(&[1.0, 10.0, 100.0]);
    let (a, b, c, d) = (random(rng, size), random(rng, size), random(rng, size), random(rng, size));
    let (u, v) = (sub(b, a), sub(d, c));
    if len(u) < 0.01 * size || len(v) < 0.01 * size || cross(u, v).abs() < 0.05 * len(u) * len(v) {
        ctx.skip("nearly parallel");
        return Ok(());
    }
    let (s, t) = (cross(sub(c, a), v) / cross(u, v), cross(sub(c, a), u) / cross(u, v));
    if [s, s - 1.0, t].iter().any(|x| x.abs() < 1e-4) || s.abs() > 30.0 {
        ctx.skip("crossing too close to an end or too far away");
        return Ok(());
    }
    let want = add(a, times(s, u));
    let what = || format!("{:?} {:?} and {:?} {:?}", a, b, c, d);
    let line = Line2::<f64>::from_points(&pt(a), &pt(b));
    let other = Line2::<f64>::from_points(&pt(c), &pt(d));
    let ray = Ray2::<f64>::new(pt(c), Vector2::new(v.0, v.1));
    let segment = LineSegment2::<f64>::new(pt(a), pt(b));
    // Lines far from the origin hold their points less exactly.
    let tol = 1e-9 * (1.0 + size) * (1.0 + s.abs());
    let close = |q: &Point2<f64>| dist(xy(q), want) <= tol;
    let steep = |w: Pt| w.0.abs() < 1e-3 * len(w);
    if steep(u) || steep(v) {
        ctx.skip("too steep");
        return Ok(());
    }
    let got = ctx.call("line_2_line_2_intersection", || line_2_line_2_intersection(&line, &other))?;
    match got {
        Some(q) if close(&q) => {
            for (l, n) in [(&line, "first"), (&other, "second")] {
                if dist(want, (0.0, 0.0)) < 10.0 * size {
                    let at = ctx.call("locate_point_2_line_2", || locate_point_2_line_2(&q, l))?;
                    ensure!(at == Point2Line2Location::On, "{:?} is not located on the {} line: {}", q, n, what());
                }
            }
        }
        _ => return Err(format!("lines through {} meet in {:?}, expected {:?}", what(), got, want)),
    }
    let got = ctx.call("line_2_ray_2_intersection", || line_2_ray_2_intersection(&line, &ray))?;
    ensure!(
        match &got {
            Some(q) => t > 0.0 && close(q),
            None => t < 0.0,
        },
        "line and ray {} meet in {:?}, expected {}",
        what(), got, if t > 0.0 { format!("{:?}", want) } else { "none".into() }
    );
    let got = ctx.call("line_segment_2_ray_2_intersection", || line_segment_2_ray_2_intersection(&segment, &ray))?;
    let meets = t > 0.0 && s > 0.0 && s < 1.0;
    ensure!(
        got.len() == meets as usize && got.iter().all(close),
        "segment and ray {} meet in {:?}, expected {}",
        what(), got, if meets { format!("{:?}", want) } else { "none".into() }
    );
    for q in &got {
        let on = ctx.call("is_point_2_on_ray_2", || is_point_2_on_ray_2(q, &ray))?;
        ensure!(on, "{:?} is not located on the ray: {}", q, what());
        let on = ctx.call("is_point_2_on_line_segment_2", || is_point_2_on_line_segment_2(q, &segment))?;
        ensure!(on, "{:?} is not located on the segment: {}", q, what());
    }
    ctx.judged(match (t > 0.0, meets) {
        (false, _) => "the ray points away",
        (true, false) => "the ray passes the segment",
        (true, true) => "the ray hits the segment",
    });
    ctx.nontrivial(hash(95, &[a, b, c, d]));
    ctx.sample(what);
    Ok(())
}

/// The projection is located on the object, and nothing on it is nearer.
fn projections(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let size = *rng.pick(&[1.0, 10.0, 100.0]);
    let (a, b, q) = (random(rng, size), random(rng, size), random(rng, size));
    let u = sub(b, a);
    if len(u) < 0.01 * size || u.0.abs() < 1e-3 * len(u) {
        ctx.skip("too short or too steep");
        return Ok(());
    }
    let what = || format!("{:?} on {:?} {:?}", q, a, b);
    let line = Line2::<f64>::from_points(&pt(a), &pt(b));
    let foot = ctx.call("point_2_project_line_2", || point_2_project_line_2(&pt(q), &line))?;
    let f = xy(&foot);
    let on = ctx.call("is_point_2_on_line_2", || is_point_2_on_line_2(&foot, &line))?;
    ensure!(on, "the projection {:?} of {} is not located on the line", f, what());
    let straight = dot(sub(q, f), u).abs() / len(u);
    ensure!(straight <= 1e-9 * (1.0 + size), "the projection {:?} of {} is {:e} askew", f, what(), straight);
    let segment = LineSegment2::<f64>::new(pt(a), pt(b));
    let t = dot(sub(q, a), u) / dot(u, u);
    if t.abs() < 1e-4 || (t - 1.0).abs() < 1e-4 {
        ctx.skip("projects too close to an end");
        return Ok(());
    }
    let foot = ctx.call("point_2_project_line_segment_2", || point_2_project_line_segment_2(&pt(q), &segment))?;
    let within = t > 0.0 && t < 1.0;
    match &foot {
        Some(g) => {
            ensure!(within, "{} projects to {:?} beyond the ends", what(), g);
            ensure!(dist(xy(g), f) <= 1e-9 * (1.0 + size), "{} projects to {:?} on the segment and {:?} on its line", what(), g, f);
            let on = ctx.call("is_point_2_on_line_segment_2", || is_point_2_on_line_segment_2(g, &segment))?;
            ensure!(on, "the projection {:?} of {} is not located on the segment", g, what());
            let d = dist(q, xy(g));
            for _ in 0..5 {
                let w = add(a, times(rng.unit(), u));
                ensure!(dist(q, w) >= d - 1e-9 * (1.0 + size), "{:?} is nearer than the projection {:?} of {}", w, g, what());
            }
        }
        None => ensure!(!within, "{} has no projection, expected {:?}", what(), f),
    }
    ctx.judged(if within { "projects within" } else { "projects beyond" });
    ctx.nontrivial(hash(96, &[a, b, q]));
    ctx.sample(what);
    Ok(())
}

/// A point's side of a segment, ray, line, triangle and polygon agree.
fn sides(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let size = *rng.pick(&[1.0, 10.0, 100.0]);
    let (a, b, c, q) = (random(rng, size), random(rng, size), random(rng, size), random(rng, size));
    let v = [a, b, c];
    let far = |a: Pt, b: Pt, q: Pt| (cross(sub(b, a), sub(q, a)) / dist(a, b)).abs();
    if (0..3).any(|i| {
        let (x, y) = (v[i], v[(i + 1) % 3]);
        dist(x, y) < 1e-2 * size || far(x, y, q) < 1e-5 || far(x, y, v[(i + 2) % 3]) < 1e-5
    }) {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let left: Vec<bool> = (0..3).map(|i| cross(sub(v[(i + 1) % 3], v[i]), sub(q, v[i])) > 0.0).collect();
    let turn = cross(sub(b, a), sub(c, a)) > 0.0;
    let what = || format!("{:?} and the triangle {:?}", q, v);
    let p = pt::<f64>(q);
    for i in 0..3 {
        let (x, y) = (v[i], v[(i + 1) % 3]);
        let at = ctx.call("locate_point_2_line_segment_2", || {
            locate_point_2_line_segment_2(&p, &LineSegment2::new(pt(x), pt(y)))
        })?;
        let want = if left[i] { Point2Segment2Location::Left } else { Point2Segment2Location::Right };
        ensure!(at == want, "{:?} of the edge {}: {}, expected {:?}", at, i, what(), want);
        let d = sub(y, x);
        let at = ctx.call("locate_point_2_ray_2", || locate_point_2_ray_2(&p, &Ray2::new(pt(x), Vector2::new(d.0, d.1))))?;
        let want = if left[i] { Point2Ray2Location::Left } else { Point2Ray2Location::Right };
        ensure!(at == want, "{:?} of the ray along edge {}: {}, expected {:?}", at, i, what(), want);
        if d.0.abs() > 1e-3 * len(d) {
            let on = ctx.call("is_point_2_on_line_2", || is_point_2_on_line_2(&p, &Line2::from_points(&pt(x), &pt(y))))?;
            ensure!(!on, "on the line of edge {}: {}", i, what());
        }
    }
    let inside = left.iter().all(|l| *l == turn);
    let at = ctx.call("locate_point_2_triangle_2", || {
        locate_point_2_triangle_2(&p, &Triangle2::new(pt(a), pt(b), pt(c)))
    })?;
    let want = if inside { Point2Triangle2Location::Inside } else { Point2Triangle2Location::Outside };
    ensure!(at == want, "{:?} the triangle: {}, expected {:?}", at, what(), want);
    let polygon = Polygon2::new(v.iter().map(|q| pt::<f64>(*q)).collect());
    let at = ctx.call("locate_point_2_polygon_2", || locate_point_2_polygon_2(&p, &polygon))?;
    let want = if inside { Point2Polygon2Location::Inside } else { Point2Polygon2Location::Outside };
    ensure!(at == want, "{:?} the polygon: {}, expected {:?}", at, what(), want);
    ctx.judged(if inside { "inside the triangle" } else { "outside the triangle" });
    ctx.nontrivial(hash(97, &[a, b, c, q]));
    ctx.sample(what);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P43",
            stages: vec![
                Stage { name: "polygons", cases: 20_000, run: polygons },
                Stage { name: "far", cases: 4_000, run: polygons_far },
                Stage { name: "swept", cases: 10_000, run: edges_swept },
            ],
            rule: "affine images, of sizes 1e-4 to 1e4 near the origin and exact ones up to 4e9 away from it, of simple lattice outlines of eight families: area, simplicity, triangulation, and for 10 points each the location in the polygon and in all triangles, judged on the lattice; and the sweep over the edges against the vertices; all count",
            assumptions: vec!["Outlines closer than 1e-4 of their size to themselves and points closer than 1e-5 of that to an edge or a diagonal, but not on it, are not judged."],
            required: vec!["point inside", "point outside", "point on", "edges of a polygon swept", "far from the origin", "outline: comb", "outline: spiral", "outline: grown", "outline: subdivided"],
            silent: false,
        },
        Prop {
            id: "P44",
            stages: vec![Stage { name: "clouds", cases: 12_000, run: hulls }],
            rule: "3 to 2000 random points in a square, on a circle, concentrated, stretched or in upright columns, some repeated, some far from the origin: corners are points, all points within every edge, every corner turns, the hull of the hull and of the points in another order is the same, and the polygon of the corners is simple and convex; all count",
            assumptions: vec!["A point may be beyond an edge by rounding or by the library's tolerance."],
            required: vec!["square", "circle", "concentrated", "stretched", "columns"],
            silent: false,
        },
        Prop {
            id: "P45",
            stages: vec![
                Stage { name: "segments", cases: 20_000, run: swept_segments },
                Stage { name: "many", cases: 1_500, run: swept_many },
                Stage { name: "lots", cases: 150, run: swept_lots },
                Stage { name: "curves", cases: 20_000, run: swept_curves },
                Stage { name: "meeting", cases: 20_000, run: swept_meeting },
                Stage { name: "meeting curves", cases: 20_000, run: swept_meeting_curves },
                Stage { name: "beside extremes", cases: 20_000, run: swept_beside_extremes },
            ],
            rule: "2 to 40, some to 150, random segments, circles and arcs, some sharing ends, some meeting many in one point, some ending on others, in one column, of no length, or beside the extreme of a curve, against the common points of all pairs computed independently; each point once; all count",
            assumptions: vec!["Sets in which two different events are closer than 1e-5 of the size (and not the same up to 1e-11), a pair is nearly parallel or tangent, a segment is nearly but not vertical, or an event is nearly but not in the column of an extreme of a curve, are not judged here."],
            required: vec!["nothing meets", "segments with up to 9 points", "segments with 10 or more points", "curves with up to 9 points", "curves with 10 or more points"],
            silent: false,
        },
        Prop {
            id: "P46",
            stages: vec![
                Stage { name: "pairs", cases: 100_000, run: pairs },
                Stage { name: "long", cases: 100_000, run: long },
                Stage { name: "straight", cases: 100_000, run: straight },
                Stage { name: "projections", cases: 100_000, run: projections },
                Stage { name: "sides", cases: 100_000, run: sides },
            ],
            rule: "random segments, circles, arcs, lines, rays and triangles: common points against independent formulas and located on both operands, also segments of up to 1e5 crossed 1e-9 to 1e-2 from an end, projections located on their object and nearest, and the sides of edges against the location in the triangle; all count",
            assumptions: vec!["Nearly parallel and tangent pairs, and crossings close to an end, are not judged here."],
            required: vec!["segment and segment: 1 points", "segment and circle: 2 points", "segment and arc: 1 points", "circle and circle: 2 points", "circle and arc: 1 points", "arc and arc: 1 points", "the ray hits the segment", "the ray passes the segment", "the ray points away", "projects within", "projects beyond", "inside the triangle", "outside the triangle", "a segment just before the end of a long segment", "a circle just before the end of a long segment", "an arc just before the end of a long segment", "a ray just past the end of a long segment"],
            silent: false,
        },
    ]
}
