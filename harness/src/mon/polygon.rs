//! Polygons, convex hulls and triangulations, against exact answers on the
//! lattice the outlines come from.
use std::collections::HashMap;

use harness::ctx::{Ctx, Prop, Stage, R};
use harness::ensure;
use harness::lat::{self, area2, dist_segment, hull, meet, on_segment, orient, p, point, point_near, sign, Meet, Tf, P};
use harness::rng::Rng;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::segment_2::Segment2;

use crate::num::{hash_of, lp, xy, Num};

const CLEAR: f64 = 1e-6;
/// Where coordinates are exact.
const CLEAR_EXACT: f64 = 1e-9;

pub fn polygon_of<F: Num>(tf: &Tf, v: &[P]) -> Polygon2<F> {
    Polygon2::new(v.iter().map(|q| lp(tf, *q)).collect())
}

pub fn extent(v: &[P]) -> i64 {
    v.iter().map(|q| q.x.abs().max(q.y.abs())).max().unwrap_or(1).max(1)
}

/// A transform which keeps tolerances meaningful; sometimes a rotation that lays
/// one edge along an axis, up to rounding.
pub fn transform(rng: &mut Rng, v: &[P]) -> Tf {
    let r = extent(v);
    if r <= 32 && v.len() > 1 && rng.chance(1, 6) {
        let i = rng.usize(0, v.len() - 1);
        let d = v[(i + 1) % v.len()].sub(v[i]);
        if d != p(0, 0) {
            return Tf::aligned(rng, d);
        }
    }
    if r > 32 && rng.chance(1, 2) {
        return Tf::identity();
    }
    Tf::any(rng, r, 1000.0)
}

/// The smallest distance between parts of the boundary that do not meet.
fn clearance(v: &[P]) -> f64 {
    let n = v.len();
    let mut gap = f64::MAX;
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        for j in i + 1..n {
            let (c, d) = (v[j], v[(j + 1) % n]);
            if meet(a, b, c, d) == Meet::Disjoint {
                for (q, s, t) in [(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
                    gap = gap.min(dist_segment(q, s, t));
                }
            }
        }
    }
    gap
}

/// Points in any arrangement: revisited, on edges of others, crossing.
fn tangle(rng: &mut Rng, n: usize, r: i64) -> Vec<P> {
    let mut v: Vec<P> = Vec::new();
    for _ in 0..n {
        let q = if rng.chance(1, 3) { point_near(rng, r, &v) } else { point(rng, r) };
        v.push(q);
    }
    v
}

/// A simple outline spoilt in one place.
fn spoilt(rng: &mut Rng, v: &[P]) -> (Vec<P>, &'static str) {
    // Doubled, so that midpoints are lattice points too.
    let mut w: Vec<P> = v.iter().map(|q| p(2 * q.x, 2 * q.y)).collect();
    let n = w.len();
    let i = rng.usize(0, n - 1);
    let j = rng.usize(0, n - 1);
    let at = |w: &[P], k: usize| w[k % w.len()];
    match rng.below(6) {
        0 => {
            let q = w[i];
            w.insert(j, q);
            (w, "revisits a vertex")
        }
        1 => {
            let (a, b) = (at(&w, j), at(&w, j + 1));
            let m = p((a.x + b.x) / 2, (a.y + b.y) / 2);
            w.insert(i, m);
            (w, "touches an edge")
        }
        2 => {
            w.swap(i, j);
            (w, "two vertices swapped")
        }
        3 => {
            // Out along an edge and back.
            let (a, b) = (at(&w, i), at(&w, i + 1));
            let m = p((a.x + b.x) / 2, (a.y + b.y) / 2);
            w.insert((i + 1) % n + 1, m);
            (w, "turns back along an edge")
        }
        4 => {
            let q = w[i];
            w.insert(i, q);
            (w, "a vertex twice in a row")
        }
        _ => {
            let (a, b) = (at(&w, j), at(&w, j + 1));
            let d = b.sub(a);
            w[i] = p((a.x + b.x) / 2 + d.y.signum(), (a.y + b.y) / 2 - d.x.signum());
            (w, "a vertex pushed through an edge")
        }
    }
}

fn any_outline(rng: &mut Rng) -> (Vec<P>, &'static str) {
    let n = *rng.pick(&[3, 4, 5, 7, 10, 16, 24]);
    let r = *rng.pick(&[2, 4, 10, 30]);
    match rng.below(5) {
        0 => {
            let n = rng.usize(0, n);
            (tangle(rng, n, r), "tangle")
        }
        1 | 2 => {
            let (v, _) = lat::simple_polygon(rng, n, r);
            spoilt(rng, &v)
        }
        _ => lat::simple_polygon(rng, n, r),
    }
}

/// The same with many vertices.
fn many_vertices(rng: &mut Rng) -> usize {
    *rng.pick(&[48, 70, 110, 110, 180, 180, 300, 300, 500, 900])
}

fn large_outline(rng: &mut Rng) -> (Vec<P>, &'static str) {
    let n = many_vertices(rng);
    let (v, family) = lat::simple_polygon(rng, n, 60);
    match rng.below(4) {
        0 => spoilt(rng, &v),
        1 => {
            // Straight corners all along.
            let extra = rng.usize(10, 300);
            (lat::subdivide(rng, &v, extra), family)
        }
        _ => (v, family),
    }
}

/// An outline squeezed in one direction, so that edges are nearly level, upright or
/// parallel and corners nearly straight or nearly spikes, with some of its vertices
/// moved a little; exact coordinates.
fn squeezed(rng: &mut Rng, outline: Vec<P>) -> (Vec<P>, Tf) {
    let mut v = outline;
    let g = 30;
    let mut tf = Tf::grain(g);
    let n = v.len();
    if n == 0 {
        return (v, tf);
    }
    let mut refs: Vec<&mut P> = v.iter_mut().collect();
    tf = lat::squeeze(rng, &mut refs, g);
    for _ in 0..rng.below(3) {
        let mut step = || if rng.chance(1, 3) { 0 } else { rng.range(-15, 15) << rng.range(g as i64 - 29, g as i64 - 8) };
        let d = p(step(), step());
        let k = rng.usize(0, n - 1);
        v[k] = v[k].add(d);
    }
    (v, tf)
}

/// Points moved far from the origin; exact coordinates.
fn far(rng: &mut Rng, v: &mut [P]) -> Tf {
    let (i, j) = (rng.range(10, 32) as u32, rng.range(10, 32) as u32);
    let by = p(rng.range(-(1 << i), 1 << i), rng.range(-(1 << j), 1 << j));
    for q in v.iter_mut() {
        *q = q.add(by);
    }
    Tf::grain(rng.range(0, 4) as u32)
}

/// Whether a vertex is next to an edge without being on it, or an edge is hardly
/// longer than the tolerance.
fn blurred(v: &[P], tf: &Tf, near: f64) -> bool {
    let n = v.len();
    let within = |d: f64| d * tf.scale < near;
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        if a != b && within(b.sub(a).len()) {
            return true;
        }
        if v.iter().any(|q| !on_segment(*q, a, b) && within(dist_segment(*q, a, b))) {
            return true;
        }
    }
    false
}

// ---------------------------------------------------------------------- area

fn measures<F: Num>(ctx: &mut Ctx, v: &[P], tf: &Tf, tol: f64) -> R {
    let poly = polygon_of::<F>(tf, v);
    let n = v.len();
    let what = || format!("{} outline {:?} through {:?}", F::NAME, v, tf);
    let vs = ctx.call("Polygon2::vertices", || poly.vertices())?;
    ensure!(vs.len() == n, "{}: {} vertices", what(), vs.len());
    let es = ctx.call("Polygon2::edges", || poly.edges())?;
    ensure!(es.len() == n, "{}: {} edges", what(), es.len());
    let given: Vec<_> = v.iter().map(|q| xy(&lp::<F>(tf, *q))).collect();
    for i in 0..n {
        ensure!(xy(&vs[i]) == given[i], "{}: vertex {} is {:?}", what(), i, vs[i]);
        ensure!(
            xy(&es[i].source()) == given[i] && xy(&es[i].target()) == given[(i + 1) % n],
            "{}: edge {} goes from {:?} to {:?}",
            what(),
            i,
            es[i].source(),
            es[i].target()
        );
    }
    let area = ctx.call("Polygon2::area", || poly.area())?.f();
    let want = if n < 3 { 0.0 } else { area2(v) as f64 / 2.0 * tf.scale * tf.scale };
    // Rounding is in proportion to the terms that are added up.
    let mut terms = 0.0;
    for i in 0..n {
        let d = v[i].sub(v[0]);
        terms += d.n2() as f64 * tf.scale * tf.scale;
    }
    ensure!(
        (area - want).abs() <= tol * (1.0 + terms),
        "{}: the area is {:?}, not {:?}",
        what(),
        area,
        want
    );
    ctx.judged(if n < 3 {
        "fewer than three vertices"
    } else {
        match sign(area2(v)) {
            1 => "counterclockwise",
            -1 => "clockwise",
            _ => "no area",
        }
    });
    Ok(())
}

fn area_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, family) = if rng.chance(1, 8) {
        let n = rng.usize(0, 2);
        (tangle(rng, n, 9), "short")
    } else {
        any_outline(rng)
    };
    let tf = transform(rng, &v);
    measures::<f64>(ctx, &v, &tf, 1e-11)?;
    // From another vertex and the other way round.
    if v.len() > 2 {
        let mut w = v.clone();
        let k = rng.usize(0, w.len() - 1);
        w.rotate_left(k);
        if rng.chance(1, 2) {
            w.reverse();
        }
        measures::<f64>(ctx, &w, &tf, 1e-11)?;
    }
    ctx.bucket(&format!("outline: {}", family));
    ctx.nontrivial(hash_of(60, &tf, &v));
    ctx.sample(|| format!("{} {:?} through {:?}", family, v, tf));
    Ok(())
}

fn area_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, _) = large_outline(rng);
    let tf = transform(rng, &v);
    measures::<f64>(ctx, &v, &tf, 1e-11)?;
    ctx.bucket("many vertices");
    ctx.note_max("vertices", v.len() as u64);
    ctx.nontrivial(hash_of(72, &tf, &v));
    Ok(())
}

fn area_huge(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, _) = lat::huge_outline(rng);
    let tf = Tf::identity();
    measures::<f64>(ctx, &v, &tf, 1e-13)?;
    ctx.bucket("huge");
    ctx.note_max("vertices", v.len() as u64);
    ctx.nontrivial(hash_of(111, &tf, &v));
    Ok(())
}

fn area_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, _) = any_outline(rng);
    let (v, tf) = squeezed(rng, v);
    measures::<f64>(ctx, &v, &tf, 1e-13)?;
    ctx.bucket("squeezed");
    ctx.nontrivial(hash_of(76, &tf, &v));
    Ok(())
}

fn area_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (mut v, _) = any_outline(rng);
    let tf = far(rng, &mut v);
    measures::<f64>(ctx, &v, &tf, 1e-6)?;
    ctx.nontrivial(hash_of(100, &tf, &v));
    ctx.bucket("far from the origin");
    Ok(())
}

fn area_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(3, 12);
    let (v, _) = lat::simple_polygon(rng, n, 12);
    let tf = Tf::exact(rng, extent(&v), 64.0);
    measures::<f32>(ctx, &v, &tf, 1e-5)?;
    ctx.bucket("f32");
    ctx.nontrivial(hash_of(61, &tf, &v));
    Ok(())
}

// -------------------------------------------------------------------- simple

fn simple<F: Num>(ctx: &mut Ctx, v: &[P], tf: &Tf, family: &str) -> R {
    let want = lat::is_simple(v);
    if want && v.len() > 2 && clearance(v) * tf.scale < if tf.exact { CLEAR_EXACT } else { CLEAR } {
        ctx.skip("boundary too close to itself to tell");
        return Ok(());
    }
    let poly = polygon_of::<F>(tf, v);
    let got = ctx.call("Polygon2::is_simple", || poly.is_simple())?;
    ensure!(
        got == want,
        "is_simple is {} but should be {}: {} outline ({}) {:?} through {:?}",
        got,
        want,
        F::NAME,
        family,
        v,
        tf
    );
    ctx.judged(if want { "simple" } else { "not simple" });
    ctx.bucket(&format!("outline: {}", family));
    Ok(())
}

fn simple_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (mut v, family) = any_outline(rng);
    let tf = transform(rng, &v);
    if !v.is_empty() {
        let k = rng.usize(0, v.len() - 1);
        v.rotate_left(k);
    }
    simple::<f64>(ctx, &v, &tf, family)?;
    ctx.nontrivial(hash_of(62, &tf, &v));
    ctx.sample(|| format!("{} {:?} through {:?}", family, v, tf));
    Ok(())
}

fn simple_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, family) = any_outline(rng);
    let (v, tf) = squeezed(rng, v);
    if v.len() > 2 && blurred(&v, &tf, CLEAR_EXACT) {
        ctx.skip("a vertex too close to an edge to tell");
        return Ok(());
    }
    simple::<f64>(ctx, &v, &tf, family)?;
    ctx.bucket("squeezed");
    ctx.nontrivial(hash_of(77, &tf, &v));
    Ok(())
}

fn simple_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (mut v, family) = any_outline(rng);
    let tf = far(rng, &mut v);
    simple::<f64>(ctx, &v, &tf, family)?;
    ctx.nontrivial(hash_of(101, &tf, &v));
    ctx.bucket("far from the origin");
    Ok(())
}

fn simple_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, family) = large_outline(rng);
    let tf = transform(rng, &v);
    simple::<f64>(ctx, &v, &tf, family)?;
    ctx.bucket("many vertices");
    ctx.note_max("vertices", v.len() as u64);
    ctx.nontrivial(hash_of(73, &tf, &v));
    Ok(())
}

fn simple_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(3, 8);
    let (v, family) = if rng.chance(1, 2) {
        (tangle(rng, n, 3), "tangle")
    } else {
        (lat::grow(rng, n, 3), "grown")
    };
    simple::<f32>(ctx, &v, &Tf::identity(), family)?;
    ctx.bucket("f32");
    ctx.nontrivial(hash_of(63, &Tf::identity(), &v));
    Ok(())
}

// -------------------------------------------------------------------- convex

fn convex_case<F: Num>(ctx: &mut Ctx, v: &[P], tf: &Tf, family: &str) -> R {
    let n = v.len();
    let turns: Vec<i32> = (0..n).map(|i| sign(orient(v[i], v[(i + 1) % n], v[(i + 2) % n]))).collect();
    let simple = lat::is_simple(v);
    let want = if simple {
        !(turns.contains(&1) && turns.contains(&-1))
    } else if turns.contains(&0) {
        ctx.skip("neither simple nor in general position");
        return Ok(());
    } else {
        false
    };
    let poly = polygon_of::<F>(tf, v);
    let got = ctx.call("Polygon2::is_convex", || poly.is_convex())?;
    ensure!(
        got == want,
        "is_convex is {} but should be {}: {} outline ({}) {:?} through {:?}",
        got,
        want,
        F::NAME,
        family,
        v,
        tf
    );
    ctx.judged(match (want, simple, turns.contains(&0)) {
        (true, _, false) => "convex",
        (true, _, true) => "convex with straight corners",
        (false, true, _) => "simple, not convex",
        (false, false, _) if !(turns.contains(&1) && turns.contains(&-1)) => "turns one way, crosses itself",
        _ => "crosses itself",
    });
    Ok(())
}

fn convex_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 5, 8, 14, 24]);
    let r = *rng.pick(&[2, 5, 12, 30]);
    let (mut v, family) = match rng.below(6) {
        0 | 1 => (hull(&tangle(rng, 2 * n, r)), "hull"),
        2 => {
            let w = hull(&tangle(rng, 2 * n, r));
            (lat::subdivide(rng, &w, n), "subdivided hull")
        }
        3 => {
            // Around twice or more: a star polygon.
            let w = hull(&tangle(rng, 3 * n, r));
            let m = w.len();
            let k = rng.usize(2, (m / 2).max(2));
            if m < 5 || lat::gcd(m as i64, k as i64) != 1 {
                (w, "hull")
            } else {
                ((0..m).map(|i| w[i * k % m]).collect(), "star")
            }
        }
        4 => {
            // A hull with one dent.
            let mut w = hull(&tangle(rng, 2 * n, r));
            if w.len() > 3 {
                let i = rng.usize(0, w.len() - 1);
                w[i] = point_near(rng, r, &w);
            }
            (w, "dented hull")
        }
        _ => any_outline(rng),
    };
    if v.len() < 3 {
        ctx.skip("fewer than three vertices");
        return Ok(());
    }
    if rng.chance(1, 2) {
        v.reverse();
    }
    let k = rng.usize(0, v.len() - 1);
    v.rotate_left(k);
    let tf = transform(rng, &v);
    convex_case::<f64>(ctx, &v, &tf, family)?;
    ctx.nontrivial(hash_of(64, &tf, &v));
    ctx.sample(|| format!("{} {:?} through {:?}", family, v, tf));
    Ok(())
}

fn convex_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 5, 8, 14]);
    let r = *rng.pick(&[2, 5, 12, 30]);
    let (v, family) = match rng.below(4) {
        0 => (hull(&tangle(rng, 2 * n, r)), "hull"),
        1 => {
            let w = hull(&tangle(rng, 2 * n, r));
            (lat::subdivide(rng, &w, n), "subdivided hull")
        }
        2 => {
            let w = hull(&tangle(rng, 3 * n, r));
            let m = w.len();
            let k = rng.usize(2, (m / 2).max(2));
            if m < 5 || lat::gcd(m as i64, k as i64) != 1 {
                (w, "hull")
            } else {
                ((0..m).map(|i| w[i * k % m]).collect(), "star")
            }
        }
        _ => any_outline(rng),
    };
    if v.len() < 3 {
        ctx.skip("fewer than three vertices");
        return Ok(());
    }
    let (mut v, tf) = squeezed(rng, v);
    let n = v.len();
    // A corner within the tolerance of straight, without being so.
    let straight = |i: usize| {
        let (a, b, c) = (v[i], v[(i + 1) % n], v[(i + 2) % n]);
        orient(a, b, c) != 0 && (a == c || lat::dist_line(b, a, c) * tf.scale < CLEAR_EXACT)
    };
    if (0..n).any(straight) {
        ctx.skip("a corner too close to straight to tell");
        return Ok(());
    }
    if rng.chance(1, 2) {
        v.reverse();
    }
    convex_case::<f64>(ctx, &v, &tf, family)?;
    ctx.bucket("squeezed");
    ctx.nontrivial(hash_of(78, &tf, &v));
    Ok(())
}

fn convex_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 5, 8, 14]);
    let (mut v, family) = if rng.chance(1, 2) { (hull(&tangle(rng, 2 * n, 20)), "hull") } else { any_outline(rng) };
    if v.len() < 3 {
        ctx.skip("fewer than three vertices");
        return Ok(());
    }
    let tf = far(rng, &mut v);
    convex_case::<f64>(ctx, &v, &tf, family)?;
    ctx.nontrivial(hash_of(102, &tf, &v));
    ctx.bucket("far from the origin");
    Ok(())
}

/// Convex by construction, then left so, dented in one place, or walked around twice.
fn convex_huge(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let mut v = lat::huge_convex(rng);
    if rng.chance(1, 2) {
        v.reverse();
    }
    let m = v.len();
    let i = rng.usize(0, m - 1);
    v.rotate_left(i);
    let (want, family) = match rng.below(4) {
        0 | 1 => (true, "huge"),
        2 => {
            let i = if rng.chance(1, 2) { m - 1 - rng.usize(0, 9) } else { rng.usize(0, m - 1) };
            let (a, b) = (v[(i + 1) % m], v[(i + m - 1) % m]);
            v[i] = p(a.x + b.x - v[i].x, a.y + b.y - v[i].y);
            (false, "huge, dented")
        }
        _ => {
            v.extend_from_within(..);
            (false, "huge, walked twice")
        }
    };
    let poly = polygon_of::<f64>(&Tf::identity(), &v);
    let got = ctx.call("Polygon2::is_convex", || poly.is_convex())?;
    ensure!(got == want, "is_convex is {} but should be {}: {} outline of {} vertices from {:?}", got, want, family, v.len(), v[0]);
    ctx.judged(family);
    ctx.note_max("vertices", v.len() as u64);
    ctx.nontrivial(hash_of(112, &Tf::identity(), &v));
    Ok(())
}

fn convex_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(40, 300);
    let (mut v, family) = match rng.below(4) {
        0 => (lat::convex(rng, n, 400), "hull"),
        1 => {
            let w = lat::convex(rng, n, 100);
            (lat::subdivide(rng, &w, n), "subdivided hull")
        }
        2 => {
            // Pushed in at one corner.
            let mut w = lat::convex(rng, n, 400);
            if w.len() > 4 {
                let m = w.len();
                let i = rng.usize(0, m - 1);
                let (a, b) = (w[(i + 1) % m], w[(i + m - 1) % m]);
                w[i] = p(a.x + b.x - w[i].x, a.y + b.y - w[i].y);
            }
            (w, "dented hull")
        }
        _ => large_outline(rng),
    };
    if v.len() < 3 {
        ctx.skip("fewer than three vertices");
        return Ok(());
    }
    if rng.chance(1, 2) {
        v.reverse();
    }
    let k = rng.usize(0, v.len() - 1);
    v.rotate_left(k);
    let tf = if extent(&v) > 4000 { Tf::identity() } else { transform(rng, &v) };
    convex_case::<f64>(ctx, &v, &tf, family)?;
    ctx.bucket("many vertices");
    ctx.note_max("vertices", v.len() as u64);
    ctx.nontrivial(hash_of(74, &tf, &v));
    Ok(())
}

fn convex_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let mut v = if rng.chance(1, 2) {
        hull(&tangle(rng, 8, 6))
    } else {
        lat::grow(rng, 6, 6)
    };
    if v.len() < 3 {
        ctx.skip("fewer than three vertices");
        return Ok(());
    }
    if rng.chance(1, 2) {
        v.reverse();
    }
    convex_case::<f32>(ctx, &v, &Tf::identity(), "f32")?;
    ctx.bucket("f32");
    ctx.nontrivial(hash_of(65, &Tf::identity(), &v));
    Ok(())
}

// ---------------------------------------------------------------------- hull

fn cloud(rng: &mut Rng) -> (Vec<P>, &'static str) {
    let n = *rng.pick(&[0, 1, 2, 3, 4, 6, 10, 20, 60, 150]);
    let r = *rng.pick(&[1, 2, 5, 12, 30, 400, 1 << 15]);
    match rng.below(8) {
        0 => ((0..n).map(|_| point(rng, r)).collect(), "random"),
        1 => (tangle(rng, n.max(1), r), "special positions"),
        2 => {
            // On one line.
            let o = point(rng, r);
            let d = point(rng, 4);
            let v = (0..n.max(1)).map(|_| {
                let k = rng.range(-r.min(20), r.min(20));
                o.add(p(d.x * k, d.y * k))
            });
            (v.collect(), "collinear")
        }
        3 => (lat::convex(rng, n.max(3), r), "convex position"),
        4 => {
            let w = lat::convex(rng, n.max(3), r);
            let mut v = lat::subdivide(rng, &w, n);
            rng.shuffle(&mut v);
            (v, "points along the hull")
        }
        5 => {
            // A grid, many equal coordinates.
            let k = rng.range(1, 6);
            let mut v = Vec::new();
            for x in 0..k {
                for y in 0..rng.range(1, 6) {
                    v.push(p(x * rng.range(1, 2), y));
                }
            }
            rng.shuffle(&mut v);
            (v, "grid")
        }
        6 => {
            // On a parabola: all of them corners.
            let v = (0..n.max(3) as i64).map(|i| p(i - 40, (i - 40) * (i - 40)));
            let mut v: Vec<P> = v.collect();
            rng.shuffle(&mut v);
            (v, "parabola")
        }
        _ => {
            let q = point(rng, r);
            (vec![q; n.max(1)], "one point repeated")
        }
    }
}

fn hull_case<F: Num>(ctx: &mut Ctx, v: &[P], tf: &Tf, family: &str) -> R {
    let want = hull(v);
    let given: Vec<_> = v.iter().map(|q| lp::<F>(tf, *q)).collect();
    let mut h = ConvexHull2::new(given.clone());
    let got = ctx.call("ConvexHull2::convex_hull", || h.convex_hull())?;
    let what = || format!("{} cloud ({}) {:?} through {:?}", F::NAME, family, v, tf);
    // The corners by their lattice points.
    let mut of: HashMap<(u64, u64), P> = HashMap::new();
    for (q, g) in v.iter().zip(&given) {
        let c = xy(g);
        of.insert((c.0.to_bits(), c.1.to_bits()), *q);
    }
    let mut corners = Vec::new();
    for g in &got {
        let c = xy(g);
        match of.get(&(c.0.to_bits(), c.1.to_bits())) {
            Some(q) => corners.push(*q),
            None => return Err(format!("the hull has a corner {:?} that was not given: {}", g, what())),
        }
    }
    let mut seen = corners.clone();
    seen.sort();
    seen.dedup();
    ensure!(seen.len() == corners.len(), "the hull {:?} visits a point twice: {}", corners, what());
    let mut next = 0;
    if want.is_empty() {
        ensure!(corners.is_empty(), "the hull of nothing is {:?}", corners);
    } else {
        // Walk from the first corner; where coordinates are rounded, points along
        // a side may count as corners.
        let start = corners.iter().position(|q| *q == want[0]);
        ensure!(start.is_some(), "the hull {:?} misses the corner {:?}: {}", corners, want[0], what());
        let k = start.unwrap();
        corners.rotate_left(k);
        for q in &corners {
            if next < want.len() && *q == want[next] {
                next += 1;
                continue;
            }
            let m = want.len();
            let along = !tf.exact && next > 0 && on_segment(*q, want[next - 1], want[next % m]);
            ensure!(
                along,
                "the hull goes through {:?}, expected {:?} counterclockwise: {}",
                corners,
                want,
                what()
            );
        }
        ensure!(next == want.len(), "the hull goes through {:?}, expected {:?}: {}", corners, want, what());
    }
    // The object keeps the points it was given.
    let mut kept: Vec<_> = h.points.iter().map(xy).collect();
    let mut all: Vec<_> = given.iter().map(xy).collect();
    let by = |a: &(f64, f64), b: &(f64, f64)| a.partial_cmp(b).unwrap();
    kept.sort_by(by);
    all.sort_by(by);
    ensure!(kept == all, "taking the hull changed the points: {}", what());
    let again = ctx.call("ConvexHull2::convex_hull", || h.convex_hull())?;
    ensure!(
        again.iter().map(xy).collect::<Vec<_>>() == got.iter().map(xy).collect::<Vec<_>>(),
        "taking the hull again gives {:?} after {:?}: {}",
        again,
        got,
        what()
    );
    ctx.judged(match want.len() {
        0 => "no points",
        1 => "one point",
        2 => "a segment",
        _ => "a polygon",
    });
    if want.len() > 2 && want.len() < seen_count(v) {
        ctx.bucket("points beyond the corners");
    }
    if seen_count(v) < v.len() {
        ctx.bucket("repeated points");
    }
    ctx.note_max("corners", want.len() as u64);
    ctx.bucket(&format!("cloud: {}", family));
    Ok(())
}

fn seen_count(v: &[P]) -> usize {
    let mut w = v.to_vec();
    w.sort();
    w.dedup();
    w.len()
}

fn hull_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, family) = cloud(rng);
    let r = extent(&v);
    let tf = if r <= 32 && rng.chance(1, 3) {
        transform(rng, &v)
    } else if r < 1 << 14 && rng.chance(1, 2) {
        Tf::exact(rng, r, 65536.0)
    } else {
        Tf::identity()
    };
    hull_case::<f64>(ctx, &v, &tf, family)?;
    ctx.nontrivial(hash_of(66, &tf, &v));
    ctx.sample(|| format!("{} {:?} through {:?}", family, v, tf));
    Ok(())
}

fn hull_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, family) = cloud(rng);
    if extent(&v) > 60 || v.len() > 60 {
        ctx.skip("large");
        return Ok(());
    }
    let (v, tf) = squeezed(rng, v);
    // Points hardly on or hardly off the hull.
    let h = hull(&v);
    let m = h.len();
    let near = |d: f64| d * tf.scale < 1e-11;
    if m > 2 {
        for i in 0..m {
            let (a, b) = (h[i], h[(i + 1) % m]);
            let close = |q: &P| *q != a && *q != b && orient(a, b, *q) != 0 && near(lat::dist_line(*q, a, b));
            if v.iter().any(close) || near(lat::dist_line(b, a, h[(i + 2) % m])) {
                ctx.skip("a point too close to a side to tell");
                return Ok(());
            }
        }
    }
    hull_case::<f64>(ctx, &v, &tf, family)?;
    ctx.bucket("squeezed");
    ctx.nontrivial(hash_of(79, &tf, &v));
    Ok(())
}

fn hull_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (mut v, family) = cloud(rng);
    let tf = far(rng, &mut v);
    hull_case::<f64>(ctx, &v, &tf, family)?;
    ctx.nontrivial(hash_of(103, &tf, &v));
    ctx.bucket("far from the origin");
    Ok(())
}

fn hull_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[300, 700, 1500, 3000]);
    let r = *rng.pick(&[5, 30, 400, 1 << 15]);
    let (v, family): (Vec<P>, _) = match rng.below(5) {
        0 => ((0..n).map(|_| point(rng, r)).collect(), "random"),
        1 => {
            let (o, d) = (point(rng, r), point(rng, 4));
            (
                (0..n).map(|_| rng.range(-20, 20)).map(|k| o.add(p(d.x * k, d.y * k))).collect(),
                "collinear",
            )
        }
        2 => {
            let w = lat::convex(rng, n / 3, 30);
            let mut v = lat::subdivide(rng, &w, n);
            rng.shuffle(&mut v);
            (v, "points along the hull")
        }
        3 => {
            let mut v: Vec<P> = (0..n as i64).map(|i| p(i - 900, (i - 900) * (i - 900))).collect();
            rng.shuffle(&mut v);
            (v, "parabola")
        }
        _ => {
            let mut v: Vec<P> = (0..n as i64).map(|i| p(i % 50, i / 50)).collect();
            rng.shuffle(&mut v);
            (v, "grid")
        }
    };
    let tf = if extent(&v) <= 32 { transform(rng, &v) } else { Tf::identity() };
    hull_case::<f64>(ctx, &v, &tf, family)?;
    ctx.bucket("many points");
    ctx.note_max("points", v.len() as u64);
    ctx.nontrivial(hash_of(75, &tf, &v));
    Ok(())
}

fn hull_huge(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(66_000, 80_000);
    let (mut v, family): (Vec<P>, _) = match rng.below(4) {
        0 => {
            let r = *rng.pick(&[100, 1 << 15, 1 << 24]);
            ((0..n).map(|_| point(rng, r)).collect(), "random")
        }
        1 => (lat::huge_convex(rng), "in convex position"),
        2 => {
            let mut v = lat::huge_convex(rng);
            v.extend((0..20_000).map(|_| point(rng, 1 << 20)));
            (v, "around others")
        }
        _ => {
            let d = rng.range(1, 300);
            ((0..n as i64).map(|i| p(i % d, i / d)).collect(), "grid")
        }
    };
    if rng.chance(3, 4) {
        rng.shuffle(&mut v);
    }
    let tf = Tf::identity();
    hull_case::<f64>(ctx, &v, &tf, family)?;
    ctx.bucket("huge");
    ctx.note_max("points", v.len() as u64);
    ctx.nontrivial(hash_of(113, &tf, &v));
    Ok(())
}

fn hull_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, family) = cloud(rng);
    if extent(&v) > 400 {
        ctx.skip("beyond single precision");
        return Ok(());
    }
    hull_case::<f32>(ctx, &v, &Tf::identity(), family)?;
    ctx.bucket("f32");
    ctx.nontrivial(hash_of(67, &Tf::identity(), &v));
    Ok(())
}

// ------------------------------------------------------------- triangulation

/// Every edge of the triangles is an edge of the outline, used once, or shared
/// by two triangles; all turn the way the outline does; the areas add up.
/// Flat triangles are let pass where coordinates are rounded.
pub fn check_triangulation(v: &[P], triangles: &[Vec<usize>], flat: bool) -> Result<(), String> {
    let n = v.len();
    if triangles.len() + 2 != n.max(2) {
        return Err(format!("{} triangles for {} vertices", triangles.len(), n));
    }
    let total = area2(v);
    let mut sum = 0;
    let mut edges: HashMap<(usize, usize), i32> = HashMap::new();
    for t in triangles {
        if t.len() != 3 || t.iter().any(|i| *i >= n) {
            return Err(format!("{:?} is not a triangle of indices", t));
        }
        let mut s = t.clone();
        s.sort();
        let (a, b, c) = (s[0], s[1], s[2]);
        if a == b || b == c {
            return Err(format!("{:?} repeats an index", t));
        }
        let o = orient(v[a], v[b], v[c]);
        if sign(o) != sign(total) && !(flat && o == 0) {
            return Err(format!("{:?} is {}", t, if o == 0 { "flat" } else { "outside the outline" }));
        }
        sum += o;
        for e in [(a, b), (b, c), (a, c)] {
            *edges.entry(e).or_insert(0) += 1;
        }
    }
    if sum != total {
        return Err(format!("twice the areas adds up to {}, not {}", sum, total));
    }
    for (e, k) in edges {
        let outline = e.1 == e.0 + 1 || (e.0 == 0 && e.1 == n - 1);
        if k != if outline { 1 } else { 2 } {
            return Err(format!("the edge {:?} is used {} times", e, k));
        }
    }
    Ok(())
}

fn triangulate<F: Num>(ctx: &mut Ctx, v: &[P], tf: &Tf, family: &str) -> R {
    let n = v.len();
    if clearance(v) * tf.scale < if tf.exact { CLEAR_EXACT } else { CLEAR } {
        ctx.skip("boundary too close to itself to tell");
        return Ok(());
    }
    let poly = polygon_of::<F>(tf, v);
    let got = ctx.call("earcut_2", || earcut_2(poly))?;
    check_triangulation(v, &got, !tf.exact).map_err(|e| {
        format!("{}: {:?} of the {} outline ({}) {:?} through {:?}", e, got, F::NAME, family, v, tf)
    })?;
    ctx.judged(&format!("outline: {}", family));
    ctx.bucket(if area2(v) > 0 { "counterclockwise" } else { "clockwise" });
    ctx.bucket(match n {
        3 => "3 vertices",
        4..=9 => "4 to 9 vertices",
        10..=29 => "10 to 29 vertices",
        _ => "30 or more vertices",
    });
    if (0..n).any(|i| orient(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0) {
        ctx.bucket("with straight corners");
    }
    ctx.note_max("vertices", n as u64);
    ctx.note("triangles", got.len() as u64);
    Ok(())
}

fn triangulate_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 5, 6, 8, 12, 20, 36]);
    let r = *rng.pick(&[2, 4, 8, 20, 32]);
    let (v, family) = lat::simple_polygon(rng, n, r);
    let tf = transform(rng, &v);
    triangulate::<f64>(ctx, &v, &tf, family)?;
    if !tf.exact {
        ctx.bucket("rotated");
    }
    ctx.nontrivial(hash_of(68, &tf, &v));
    ctx.sample(|| format!("{} {:?} through {:?}", family, v, tf));
    Ok(())
}

fn triangulate_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 5, 6, 8, 12, 20]);
    let r = *rng.pick(&[2, 4, 8, 20, 32]);
    let (v, family) = lat::simple_polygon(rng, n, r);
    let (v, tf) = squeezed(rng, v);
    if !lat::is_simple(&v) || blurred(&v, &tf, CLEAR_EXACT) {
        ctx.skip("a vertex too close to an edge to tell");
        return Ok(());
    }
    triangulate::<f64>(ctx, &v, &tf, family)?;
    ctx.bucket("squeezed");
    ctx.nontrivial(hash_of(80, &tf, &v));
    Ok(())
}

fn triangulate_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 5, 6, 8, 12, 20]);
    let (mut v, family) = lat::simple_polygon(rng, n, 20);
    let tf = far(rng, &mut v);
    triangulate::<f64>(ctx, &v, &tf, family)?;
    ctx.nontrivial(hash_of(104, &tf, &v));
    ctx.bucket("far from the origin");
    Ok(())
}

fn triangulate_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = if rng.chance(1, 4) { many_vertices(rng) } else { rng.usize(60, 220) };
    let (v, family) = lat::simple_polygon(rng, n, 60);
    triangulate::<f64>(ctx, &v, &Tf::identity(), family)?;
    ctx.note_max("vertices", v.len() as u64);
    ctx.nontrivial(hash_of(69, &Tf::identity(), &v));
    Ok(())
}

fn triangulate_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(3, 9);
    let v = lat::grow(rng, n, 4);
    triangulate::<f32>(ctx, &v, &Tf::identity(), "f32")?;
    ctx.nontrivial(hash_of(70, &Tf::identity(), &v));
    Ok(())
}

fn reject_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, family) = any_outline(rng);
    let (v, tf) = squeezed(rng, v);
    ctx.bucket("squeezed");
    rejected_through::<f64>(ctx, v, family, tf)
}

fn reject(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, family) = any_outline(rng);
    rejected(ctx, rng, v, family)
}

fn reject_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(3, 9);
    let v = lat::grow(rng, n, 4);
    let (v, family) = spoilt(rng, &v);
    let e = rng.range(-4, 0) as i32;
    ctx.bucket("f32");
    rejected_through::<f32>(ctx, v, family, Tf::scaled((2f64).powi(e)))
}

fn reject_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = many_vertices(rng);
    let (v, _) = lat::simple_polygon(rng, n, 60);
    let (v, family) = spoilt(rng, &v);
    ctx.bucket("many vertices");
    rejected(ctx, rng, v, family)
}

fn rejected(ctx: &mut Ctx, rng: &mut Rng, v: Vec<P>, family: &str) -> R {
    let tf = transform(rng, &v);
    rejected_through::<f64>(ctx, v, family, tf)
}

fn rejected_through<F: Num>(ctx: &mut Ctx, v: Vec<P>, family: &str, tf: Tf) -> R {
    if v.len() < 3 {
        let got = ctx.call("earcut_2", || earcut_2(polygon_of::<F>(&tf, &v)))?;
        ensure!(got.is_empty(), "{} vertices are triangulated into {:?}", v.len(), got);
        ctx.judged("fewer than three vertices");
        return Ok(());
    }
    if lat::is_simple(&v) {
        ctx.skip("simple");
        return Ok(());
    }
    let got = ctx.try_call("earcut_2", || earcut_2(polygon_of::<F>(&tf, &v)));
    if let Ok(t) = got {
        return Err(format!("triangulated into {:?} although it is not simple: outline ({}) {:?} through {:?}", t, family, v, tf));
    }
    ctx.judged("rejected");
    ctx.bucket(&format!("outline: {}", family));
    ctx.nontrivial(hash_of(71, &tf, &v));
    ctx.sample(|| format!("{} {:?} through {:?}", family, v, tf));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P26",
            stages: vec![
                Stage { name: "f64", cases: 30_000, run: area_f64 },
                Stage { name: "large", cases: 120, run: area_large },
                Stage { name: "huge", cases: 2, run: area_huge },
                Stage { name: "far", cases: 5_000, run: area_far },
                Stage { name: "squeezed", cases: 10_000, run: area_squeezed },
                Stage { name: "f32", cases: 10_000, run: area_f32 },
            ],
            rule: "lattice outlines of 0 to about 50, some to 300 and more or to 80,000, vertices, simple, spoilt or tangled, exact, rotated, or squeezed in one direction so that edges are nearly parallel, or up to 4e9 from the origin, from every vertex and in both directions, judged by the exact shoelace sum; all count",
            assumptions: vec!["areas are compared within rounding in proportion to the outline"],
            required: vec!["counterclockwise", "clockwise", "no area", "fewer than three vertices", "many vertices", "huge", "squeezed", "far from the origin", "f32"],
            silent: false,
        },
        Prop {
            id: "P27",
            stages: vec![
                Stage { name: "f64", cases: 20_000, run: simple_f64 },
                Stage { name: "large", cases: 120, run: simple_large },
                Stage { name: "far", cases: 5_000, run: simple_far },
                Stage { name: "squeezed", cases: 10_000, run: simple_squeezed },
                Stage { name: "f32", cases: 10_000, run: simple_f32 },
            ],
            rule: "lattice outlines made simple, then spoilt in one place (a vertex revisited, on an edge, through an edge, swapped, doubled, an edge run back along) or tangled; also squeezed in one direction with vertices moved by 2e-9 to 0.06, or up to 4e9 from the origin; judged by exact pairwise tests; all count",
            assumptions: vec!["simple outlines with parts of the boundary closer than 1e-6, or 1e-9 where coordinates are exact, are not judged"],
            required: vec![
                "simple", "not simple", "many vertices", "squeezed", "far from the origin", "outline: revisits a vertex", "outline: touches an edge",
                "outline: turns back along an edge", "outline: a vertex twice in a row", "outline: a vertex pushed through an edge",
            ],
            silent: false,
        },
        Prop {
            id: "P28",
            stages: vec![
                Stage { name: "f64", cases: 40_000, run: convex_f64 },
                Stage { name: "large", cases: 200, run: convex_large },
                Stage { name: "huge", cases: 2, run: convex_huge },
                Stage { name: "far", cases: 5_000, run: convex_far },
                Stage { name: "squeezed", cases: 20_000, run: convex_squeezed },
                Stage { name: "f32", cases: 10_000, run: convex_f32 },
            ],
            rule: "hulls of lattice clouds, some of up to 80,000 corners, the same with straight corners, one dent, or walked around more than once, and other outlines; also squeezed in one direction with corners moved by 2e-9 to 0.06, or up to 4e9 from the origin; judged by exact turns and simplicity; all count",
            assumptions: vec!["outlines that are neither simple nor free of straight corners are not judged", "nor corners within 1e-9 of straight without being so, in squeezed outlines"],
            required: vec!["many vertices", "huge", "huge, dented", "huge, walked twice", "squeezed", "far from the origin", "convex", "convex with straight corners", "simple, not convex", "turns one way, crosses itself", "crosses itself"],
            silent: false,
        },
        Prop {
            id: "P29",
            stages: vec![
                Stage { name: "f64", cases: 30_000, run: hull_f64 },
                Stage { name: "large", cases: 120, run: hull_large },
                Stage { name: "huge", cases: 1, run: hull_huge },
                Stage { name: "far", cases: 5_000, run: hull_far },
                Stage { name: "squeezed", cases: 15_000, run: hull_squeezed },
                Stage { name: "f32", cases: 10_000, run: hull_f32 },
            ],
            rule: "0 to 150, some to 3000 or 100,000, lattice points, random, collinear, repeated, in convex position, along a hull or on a grid, exact, rotated, squeezed in one direction, or up to 4e9 from the origin; the corners and their order are compared with the exact hull; all count",
            assumptions: vec!["where coordinates are rounded, points along a side may count as corners"],
            required: vec!["no points", "one point", "a segment", "a polygon", "points beyond the corners", "repeated points", "many points", "huge", "squeezed", "far from the origin"],
            silent: false,
        },
        Prop {
            id: "P30",
            stages: vec![
                Stage { name: "f64", cases: 20_000, run: triangulate_f64 },
                Stage { name: "large", cases: 100, run: triangulate_large },
                Stage { name: "far", cases: 5_000, run: triangulate_far },
                Stage { name: "squeezed", cases: 10_000, run: triangulate_squeezed },
                Stage { name: "f32", cases: 10_000, run: triangulate_f32 },
            ],
            rule: "simple lattice outlines of 3 to 200, some to 1400, vertices of nine families in all orientations, also squeezed in one direction with vertices moved by 2e-9 to 0.06, or up to 4e9 from the origin; the triangles are checked for number, indices, exact orientation and area, and matching edges; all count",
            assumptions: vec!["outlines with parts of the boundary closer than 1e-6, or 1e-9 where coordinates are exact, are not judged", "where coordinates are rounded, triangles of three vertices in line are accepted"],
            required: vec![
                "counterclockwise", "clockwise", "with straight corners", "rotated", "squeezed", "far from the origin", "30 or more vertices",
                "outline: comb", "outline: spiral", "outline: histogram", "outline: grown", "outline: star-shaped",
            ],
            silent: false,
        },
        Prop {
            id: "P31",
            stages: vec![
                Stage { name: "outlines", cases: 30_000, run: reject },
                Stage { name: "large", cases: 120, run: reject_large },
                Stage { name: "squeezed", cases: 10_000, run: reject_squeezed },
                Stage { name: "f32", cases: 10_000, run: reject_f32 },
            ],
            rule: "lattice outlines that are not simple by exact pairwise tests, spoilt in one place or tangled, also squeezed in one direction; the call has to end in a panic and no triangles; non-trivial when not simple; also in single precision, where coordinates are small",
            assumptions: vec!["rejecting means to panic, which is how the library refuses"],
            required: vec!["f32", "rejected", "many vertices", "squeezed", "fewer than three vertices"],
            silent: false,
        },
    ]
}
