//! Monitors of the pairwise intersections.
use crate::locate::{circle, direction, same_direction, vectors_of};
use crate::num::*;
use harness::ctx::{Ctx, Prop, Stage, R};
use harness::ensure;
use harness::lat::{self, cross_point, meet, on_segment, orient, p, point, point_near, Meet, Tf, P};
use harness::rng::Rng;
use rcgal::algorithm::intersection::line_2_line_2::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::ray_2::Ray2;
use std::f64::consts::TAU;

type Pt = (f64, f64);
/// Where a point must or may be found, and how close.
pub type Spots = Vec<(Pt, f64)>;

fn out<F: Num>(points: &[Point2<F>]) -> Vec<Pt> {
    points.iter().map(xy).collect()
}

fn distinct(rng: &mut Rng, r: i64, near: &[P]) -> (P, P) {
    loop {
        let a = point_near(rng, r, near);
        let b = point_near(rng, r, &[a]);
        if a != b {
            return (a, b);
        }
    }
}

// --------------------------------------------------------------- line - line

fn line_of<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: &Tf, a: P, b: P) -> Result<Line2<F>, String> {
    if tf.exact && rng.chance(1, 2) {
        let (pa, d) = (tf.of(a), b.sub(a));
        let k = if F::NAME == "f64" {
            *rng.pick(&[1.0, -1.0, 0.5, 3.0, 1e-6, -1e4, 1e-12, -1e11])
        } else {
            (2f64).powi(rng.range(-20, 20) as i32) * *rng.pick(&[1.0, -1.0, 3.0, 0.7, -1.0 / 3.0])
        };
        let (u, v) = (-(d.y as f64), d.x as f64);
        Ok(Line2::new(F::n(u * k), F::n(v * k), F::n(-(u * pa.0 + v * pa.1) * k)))
    } else {
        ctx.call("Line2::from_points", || Line2::from_points(&lp::<F>(tf, a), &lp::<F>(tf, b)))
    }
}

fn line_line(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16]);
    let tf = Tf::some(rng, r, 60.0);
    line_line_of::<f64>(ctx, rng, tf, r, false)
}

fn line_line_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::scaled(*rng.pick(&[0.125, 0.25, 0.5]));
    ctx.bucket("f32");
    line_line_of::<f32>(ctx, rng, tf, 3, false)
}

fn line_line_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16]);
    line_line_of::<f64>(ctx, rng, Tf::identity(), r, true)
}

fn line_line_of<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64, squeezed: bool) -> R {
    let (a, b) = distinct(rng, r, &[]);
    let (c, d) = match rng.below(5) {
        // Parallel, or the same line.
        0 => {
            let s = point_near(rng, r, &[a, b]);
            let k = *rng.pick(&[1, -1, 2]);
            (s, s.add(p((b.x - a.x) * k, (b.y - a.y) * k)))
        }
        // Perpendicular.
        1 => {
            let s = point_near(rng, r, &[a, b]);
            (s, s.add(p(-(b.y - a.y), b.x - a.x)))
        }
        _ => distinct(rng, r, &[a, b]),
    };
    let (mut tf, mut a, mut b, mut c, mut d) = (tf, a, b, c, d);
    if squeezed {
        tf = lat::squeeze(rng, &mut [&mut a, &mut b, &mut c, &mut d], 34);
        ctx.bucket("squeezed");
    }
    let (ab, cd) = (b.sub(a), d.sub(c));
    if a == b || c == d {
        ctx.skip("no direction");
        return Ok(());
    }
    let l = line_of::<F>(ctx, rng, &tf, a, b)?;
    let m = line_of::<F>(ctx, rng, &tf, c, d)?;
    let got = ctx.call("line_2_line_2_intersection", || line_2_line_2_intersection(&l, &m))?;
    let rev = ctx.call("line_2_line_2_intersection", || line_2_line_2_intersection(&m, &l))?;
    let is = ctx.call("is_line_2_line_2_intersected", || is_line_2_line_2_intersected(&l, &m))?;
    ensure!(is == got.is_some(), "{:?} and {:?} meet in {:?} but the predicate is {}", l, m, got, is);
    let parallel = ab.cross(cd) == 0;
    let sine = (ab.cross(cd) as f64 / (ab.len() * cd.len())).abs();
    if squeezed && !parallel && sine < 1e-9 {
        ctx.skip("nearly parallel");
        return Ok(());
    }
    ensure!(
        got.is_some() != parallel && rev.is_some() != parallel,
        "{:?} and {:?} are {}parallel but meet in {:?} (reversed {:?})",
        l, m, if parallel { "" } else { "not " }, got, rev
    );
    if let (Some(g), Some(h)) = (&got, &rev) {
        let w = cross_point(a, ab, c, cd);
        let w = tf.at(w.0, w.1);
        let size = w.0.hypot(w.1);
        if size > if F::NAME == "f64" { 1e5 } else { 50.0 } {
            ctx.skip("far away");
            return Ok(());
        }
        let sine = (ab.cross(cd) as f64 / (ab.len() * cd.len())).abs();
        let tol = if F::NAME == "f64" { 1e-10 } else { 1e-5 } * (1.0 + size) / sine;
        ensure!(dist(xy(g), w) <= tol, "{:?} and {:?} meet in {:?}, expected {:?}", l, m, g, w);
        ensure!(dist(xy(h), w) <= tol, "{:?} and {:?} meet in {:?}, expected {:?}", m, l, h, w);
    }
    ctx.judged(if parallel {
        if orient(a, b, c) == 0 { "the same line" } else { "parallel" }
    } else if ab.dot(cd) == 0 {
        "perpendicular"
    } else {
        "crossing"
    });
    ctx.nontrivial(hash_of(40, &tf, &[a, b, c, d]));
    ctx.sample(|| format!("{:?} and {:?}", l, m));
    Ok(())
}

// ---------------------------------------------------------------- line - ray

fn line_ray(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16]);
    let tf = Tf::some(rng, r, 60.0);
    line_ray_of::<f64>(ctx, rng, tf, r, false)
}

fn line_ray_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::scaled(*rng.pick(&[0.125, 0.25]));
    ctx.bucket("f32");
    line_ray_of::<f32>(ctx, rng, tf, 2, false)
}

fn line_ray_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16]);
    line_ray_of::<f64>(ctx, rng, Tf::identity(), r, true)
}

fn line_ray_of<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64, squeezed: bool) -> R {
    let (a, b) = distinct(rng, r, &[]);
    let (o, e) = match rng.below(5) {
        0 => {
            let s = point_near(rng, r, &[a, b]);
            let k = *rng.pick(&[1, -1]);
            (s, s.add(p((b.x - a.x) * k, (b.y - a.y) * k)))
        }
        // Starting on the line.
        1 => {
            let k = rng.range(-2, 2);
            let s = a.add(p((b.x - a.x) * k, (b.y - a.y) * k));
            let d = direction(rng, r);
            (s, s.add(d))
        }
        _ => distinct(rng, r, &[a, b]),
    };
    let (mut tf, mut a, mut b, mut o, mut e) = (tf, a, b, o, e);
    if squeezed {
        tf = lat::squeeze(rng, &mut [&mut a, &mut b, &mut o, &mut e], 34);
        ctx.bucket("squeezed");
    }
    let (ab, d) = (b.sub(a), e.sub(o));
    // A direction within the tolerance of an axis is taken for it.
    if a == b || o == e || [d.x, d.y].iter().any(|v| *v != 0 && (*v as f64).abs() < 1e-9 * d.len()) {
        ctx.skip("no direction");
        return Ok(());
    }
    let line = line_of::<F>(ctx, rng, &tf, a, b)?;
    let ray = ctx.call("Ray2::new", || Ray2::new(lp::<F>(&tf, o), vc::<F>(tf.dir(d))))?;
    let got = ctx.call("line_2_ray_2_intersection", || line_2_ray_2_intersection(&line, &ray))?.map(|q| xy(&q));
    let is = ctx.call("is_line_2_ray_2_intersected", || is_line_2_ray_2_intersected(&line, &ray))?;
    let what = || format!("{:?} and the ray from {:?} along {:?}", line, ray.origin(), ray.direction());
    ensure!(is == got.is_some(), "{}: the predicate is {} but the intersection {:?}", what(), is, got);
    let double = F::NAME == "f64";
    // What the tolerance of the scalar type leaves.
    let near = 2.0 * F::EPS;
    // Whatever it returns is a point of both.
    if let Some(g) = got {
        let u = (ray.direction().x().f(), ray.direction().y().f());
        let v = (g.0 - tf.of(o).0, g.1 - tf.of(o).1);
        let size = 1.0 + v.0.hypot(v.1);
        ensure!(
            (u.0 * v.1 - u.1 * v.0).abs() <= near * size && u.0 * v.0 + u.1 * v.1 >= -near * size,
            "{}: {:?} is not on the ray",
            what(), g
        );
    }
    let den = d.cross(ab);
    if den == 0 {
        if orient(a, b, o) == 0 {
            // Every point of the ray is common; none or any of them will do.
            if let Some(g) = got {
                let u = xy(&Point2::new(ray.direction().x(), ray.direction().y()));
                let v = (g.0 - tf.of(o).0, g.1 - tf.of(o).1);
                ensure!(
                    (u.0 * v.1 - u.1 * v.0).abs() <= 10.0 * F::EPS && u.0 * v.0 + u.1 * v.1 >= -10.0 * F::EPS,
                    "{}: {:?} is not on the ray",
                    what(), g
                );
            }
            ctx.judged("ray along the line");
        } else {
            ensure!(got.is_none(), "{}: parallel, but they meet in {:?}", what(), got);
            ctx.judged("parallel");
        }
        return Ok(());
    }
    // o + d*t on the line at t = num / den.
    let num = a.sub(o).cross(ab);
    let t = if den > 0 { num } else { -num };
    let sine = (den as f64 / (ab.len() * d.len())).abs();
    if squeezed && sine < 1e-8 {
        ctx.skip("nearly parallel");
        return Ok(());
    }
    let along = t as f64 / (den.abs() as f64) * d.len() * tf.scale;
    let w = cross_point(a, ab, o, d);
    let w = tf.at(w.0, w.1);
    // In single precision rounding is close to the tolerance.
    if along.abs() / sine > if double { 2e4 } else { 3.0 } {
        ctx.skip("far away");
        return Ok(());
    }
    if t < 0 {
        if along > if squeezed { -1e-9 / sine } else { -1e3 * F::EPS } {
            ctx.skip("too close to tell");
            return Ok(());
        }
        ensure!(got.is_none(), "{}: the line is behind the ray, but they meet in {:?}", what(), got);
        ctx.judged("line behind the ray");
    } else {
        let Some(g) = got else {
            return Err(format!("{}: missed the point {:?}", what(), w));
        };
        ensure!(dist(g, w) <= 10.0 * F::EPS / sine, "{}: they meet in {:?}, expected {:?}", what(), g, w);
        ctx.judged(if t == 0 { "line through the origin of the ray" } else { "crossing" });
    }
    ctx.nontrivial(hash_of(41, &tf, &[a, b, o, d]));
    ctx.sample(what);
    Ok(())
}

// ------------------------------------------------------------- segment - ray

fn segment_ray(ctx: &mut Ctx, rng: &mut Rng) -> R {
    segment_ray_of(ctx, rng, false)
}

fn segment_ray_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    segment_ray_of(ctx, rng, true)
}

fn segment_ray_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 26);
    segment_ray_at::<f64>(ctx, rng, tf, 8, false)
}

fn segment_ray_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::scaled(*rng.pick(&[0.25, 0.5]));
    ctx.bucket("f32");
    segment_ray_at::<f32>(ctx, rng, tf, 3, false)
}

fn segment_ray_of(ctx: &mut Ctx, rng: &mut Rng, squeezed: bool) -> R {
    let r = *rng.pick(&[2, 6, 16]);
    let tf = Tf::any(rng, r, 500.0);
    segment_ray_at::<f64>(ctx, rng, tf, r, squeezed)
}

fn segment_ray_at<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64, squeezed: bool) -> R {
    let (o, e) = distinct(rng, r, &[]);
    let d = e.sub(o);
    let (a, b) = match rng.below(6) {
        // Along the ray's line.
        0 => {
            let (i, j) = (rng.range(-2, 3), rng.range(-2, 3));
            (o.add(p(d.x * i, d.y * i)), o.add(p(d.x * j, d.y * j)))
        }
        // With an end on the ray's line.
        1 => {
            let i = rng.range(-2, 3);
            let s = o.add(p(d.x * i, d.y * i));
            (s, point_near(rng, r, &[o, e]))
        }
        // Through the origin of the ray.
        2 => {
            let v = direction(rng, r);
            let (i, j) = (rng.range(0, 2), rng.range(0, 2));
            (o.sub(p(v.x * i, v.y * i)), o.add(p(v.x * j, v.y * j)))
        }
        _ => {
            let a = point_near(rng, r, &[o, e]);
            (a, point_near(rng, r, &[a, o, e]))
        }
    };
    let (a, b) = if rng.chance(1, 2) { (a, b) } else { (b, a) };
    let (mut tf, mut a, mut b, mut o, mut e) = (tf, a, b, o, e);
    if squeezed {
        tf = lat::squeeze(rng, &mut [&mut a, &mut b, &mut o, &mut e], 30);
        ctx.bucket("squeezed");
    }
    let d = e.sub(o);
    if d.len() * tf.scale < 0.15 {
        ctx.skip("does not reach past everything");
        return Ok(());
    }
    let s = seg::<F>(&tf, a, b);
    let ray = Ray2::new(lp::<F>(&tf, o), vc::<F>(tf.dir(d)));
    let got = out(&ctx.call("line_segment_2_ray_2_intersection", || line_segment_2_ray_2_intersection(&s, &ray))?);
    let is = ctx.call("is_line_segment_2_ray_2_intersected", || is_line_segment_2_ray_2_intersected(&s, &ray))?;
    let what = || format!("{:?} and the ray from {:?} along {:?} (lattice {:?} {:?}, {:?} {:?})", s, tf.of(o), tf.dir(d), a, b, o, e);
    ensure!(is != got.is_empty(), "{}: the predicate is {} but the points are {:?}", what(), is, got);
    // The ray as a segment that reaches past everything.
    let far = 1000;
    let f = o.add(p(d.x * far, d.y * far));
    let m = meet(a, b, o, f);
    let (mut must, mut may): (Spots, Spots) = (Vec::new(), Vec::new());
    if squeezed && blurred(&[(a, o, f), (b, o, f), (o, a, b)], &tf) {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let class = match m {
        Meet::Disjoint => {
            if gap(a, b, o, f) * tf.scale < if squeezed { 1e-9 } else { 1e4 * F::EPS } {
                ctx.skip("too close to tell");
                return Ok(());
            }
            "disjoint"
        }
        Meet::Cross(x, y) => {
            let sine = (d.cross(b.sub(a)) as f64 / (d.len() * b.sub(a).len())).abs();
            must.push((tf.at(x, y), (F::EPS + tf.blur()) / sine));
            "crossing"
        }
        Meet::Touch(q) => {
            must.push((tf.of(q), 10.0 * F::EPS + tf.blur()));
            if a == b { "single point on the ray" } else if q == o { "touching at the origin" } else { "touching at an end" }
        }
        Meet::Overlap(s, t) => {
            // The ends of the segment that are on the ray; the ray's own origin
            // may be listed too.
            for q in [a, b] {
                if on_segment(q, o, f) {
                    must.push((tf.of(q), 10.0 * F::EPS + tf.blur()));
                }
            }
            may.push((tf.of(s), 10.0 * F::EPS + tf.blur()));
            may.push((tf.of(t), 10.0 * F::EPS + tf.blur()));
            "overlapping"
        }
    };
    if let Err(m) = same_points(&got, &must, &may) {
        return Err(format!("{}: {}", what(), m));
    }
    ctx.judged(class);
    ctx.nontrivial(hash_of(42, &tf, &[a, b, o, d]));
    ctx.sample(what);
    Ok(())
}

/// Whether a point is next to a segment but not on it.
fn blurred(ends: &[(P, P, P)], tf: &Tf) -> bool {
    ends.iter().any(|(q, s, t)| !on_segment(*q, *s, *t) && lat::dist_segment(*q, *s, *t) * tf.scale < 1e-9)
}

/// Distance between disjoint segments.
fn gap(a: P, b: P, c: P, d: P) -> f64 {
    let mut g = f64::MAX;
    for (q, s, t) in [(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
        g = g.min(lat::dist_segment(q, s, t));
    }
    g
}

// --------------------------------------------------------- segment - segment

pub fn segment_pair(rng: &mut Rng, r: i64) -> (P, P, P, P) {
    let a = point(rng, r);
    if rng.chance(1, 8) {
        // All on one line.
        let v = direction(rng, 3);
        let mut at = || {
            let k = rng.range(-4, 4);
            a.add(p(v.x * k, v.y * k))
        };
        return (at(), at(), at(), at());
    }
    let b = point_near(rng, r, &[a]);
    let c = point_near(rng, r, &[a, b]);
    let d = point_near(rng, r, &[a, b, c]);
    if rng.chance(1, 2) {
        (a, b, c, d)
    } else {
        (c, d, b, a)
    }
}

fn segment_segment<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    segment_segment_of::<F>(ctx, rng, tf, r, false)
}

fn segment_segment_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16]);
    segment_segment_of::<f64>(ctx, rng, Tf::identity(), r, true)
}

fn segment_segment_of<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64, squeezed: bool) -> R {
    let (a, b, c, d) = segment_pair(rng, r);
    let (mut tf, mut a, mut b, mut c, mut d) = (tf, a, b, c, d);
    if squeezed {
        tf = lat::squeeze(rng, &mut [&mut a, &mut b, &mut c, &mut d], 34);
        ctx.bucket("squeezed");
    }
    let clear = if squeezed { 1e-9 } else { 1e-7 };
    if F::NAME == "f32" && [a, b, c, d].iter().any(|q| q.x.abs() > 3 || q.y.abs() > 3) {
        ctx.skip("beyond what f32 resolves");
        return Ok(());
    }
    let (s, t) = (seg::<F>(&tf, a, b), seg::<F>(&tf, c, d));
    let tol = if F::NAME == "f64" { 1e-9 + tf.blur() } else { 1e-4 };
    let m = meet(a, b, c, d);
    let (mut must, may): (Spots, Spots) = (Vec::new(), Vec::new());
    if squeezed && blurred(&[(a, c, d), (b, c, d), (c, a, b), (d, a, b)], &tf) {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let class = match m {
        Meet::Disjoint => {
            if gap(a, b, c, d) * tf.scale < clear {
                ctx.skip("too close to tell");
                return Ok(());
            }
            if a == b || c == d {
                "disjoint, a single point"
            } else if orient(a, b, c) == 0 && orient(a, b, d) == 0 {
                "disjoint, collinear"
            } else if b.sub(a).cross(d.sub(c)) == 0 {
                "disjoint, parallel"
            } else {
                "disjoint"
            }
        }
        Meet::Cross(x, y) => {
            let sine = (b.sub(a).cross(d.sub(c)) as f64 / (b.sub(a).len() * d.sub(c).len())).abs();
            must.push((tf.at(x, y), tol * 0.1 / sine));
            // Ends this close are taken for the crossing.
            "crossing"
        }
        Meet::Touch(q) => {
            must.push((tf.of(q), tol));
            if a == b || c == d {
                "a single point on the other"
            } else if [a, b].contains(&q) && [c, d].contains(&q) {
                "end to end"
            } else {
                "end within the other"
            }
        }
        Meet::Overlap(u, v) => {
            must.push((tf.of(u), tol));
            must.push((tf.of(v), tol));
            "overlapping"
        }
    };
    // Near misses of an end: neither the crossing nor the end is certain.
    if let Meet::Cross(..) = m {
        let near = [(a, c, d), (b, c, d), (c, a, b), (d, a, b)]
            .iter()
            .map(|(q, s, t)| lat::dist_segment(*q, *s, *t))
            .fold(f64::MAX, f64::min);
        if near * tf.scale < clear {
            ctx.skip("too close to tell");
            return Ok(());
        }
    }
    let got = ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&s, &t))?;
    let got: Vec<Pt> = got.iter().map(xy).collect();
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&s, &t))?;
    let what = || format!("{} {:?} {:?} (lattice {:?} {:?}, {:?} {:?})", F::NAME, s, t, a, b, c, d);
    ensure!(is == (m != Meet::Disjoint), "{}: the predicate is {} but they are {}", what(), is, class);
    if let Err(m) = same_points(&got, &must, &may) {
        return Err(format!("{}: {}", what(), m));
    }
    ctx.judged(class);
    ctx.nontrivial(hash_of(43, &tf, &[a, b, c, d]));
    ctx.sample(what);
    Ok(())
}

fn segment_segment_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 30, 400]);
    let tf = Tf::any(rng, r, 1000.0);
    segment_segment::<f64>(ctx, rng, tf, r)
}

fn segment_segment_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 26);
    segment_segment::<f64>(ctx, rng, tf, 8)
}

fn segment_segment_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    segment_segment::<f32>(ctx, rng, Tf::identity(), 3)
}

/// An end just off the other segment, or just on it.
fn segment_segment_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = if rng.chance(1, 2) { Tf::rigid(rng) } else { Tf::identity() };
    let (a, b) = distinct(rng, 20, &[]);
    let d = b.sub(a);
    let (dx, dy) = tf.dir(d);
    let l = dx.hypot(dy);
    let u = (dx / l, dy / l);
    let n = (-u.1, u.0);
    let (e, touch) = if rng.chance(1, 3) {
        (*rng.pick(&[0.0, 1e-13, 1e-12, 2e-11, 5e-11]), true)
    } else {
        (*rng.pick(&[2e-10, 1e-9, 1e-8, 1e-7, 1e-5, 1e-3]), false)
    };
    let s = seg::<f64>(&tf, a, b);
    // The other starts beside the middle and leaves at an angle; it may cross.
    let t = rng.float(0.1, 0.9);
    let base = tf.at(a.x as f64 + t * d.x as f64, a.y as f64 + t * d.y as f64);
    let through = rng.chance(1, 2);
    let k = if rng.chance(1, 2) { 1.0 } else { -1.0 };
    let off = if through { -e } else { e } * k;
    let start = (base.0 + n.0 * off, base.1 + n.1 * off);
    let slant = rng.float(-1.0, 1.0);
    let len = rng.float(1.0, 10.0);
    let end = (start.0 + len * (n.0 * k + u.0 * slant), start.1 + len * (n.1 * k + u.1 * slant));
    let mut o = LineSegment2::new(pt::<f64>(start), pt::<f64>(end));
    if rng.chance(1, 2) {
        o = LineSegment2::new(pt::<f64>(end), pt::<f64>(start));
    }
    let (x, y) = if rng.chance(1, 2) { (s, o) } else { (o, s) };
    let got = out(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&x, &y))?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&x, &y))?;
    let hit = touch || through;
    ensure!(is == hit, "{:?} {:?}, an end {:e} off: the predicate is {}", x, y, off, is);
    let must = if hit { vec![(base, 2e-9 + 2.0 * e)] } else { vec![] };
    if let Err(m) = same_points(&got, &must, &[]) {
        return Err(format!("{:?} {:?}, an end {:e} off: {}", x, y, off, m));
    }
    ctx.judged(if touch { "end just on the other" } else if through { "end just through the other" } else { "end just short of the other" });
    ctx.nontrivial(hash_of(44, &tf, &[a, b]) ^ t.to_bits());
    Ok(())
}

// ------------------------------------------------------ segments and circles

/// Common points of the segment ab and the circle: each with its tolerance.
/// None when too close to tell.
pub fn segment_circle_spots(tf: &Tf, a: P, b: P, c: P, n2: i64) -> Option<(Spots, &'static str)> {
    let d = b.sub(a);
    let w = a.sub(c);
    let (qa, qb, qc) = (d.n2(), d.dot(w), w.n2() - n2 as i128);
    let f1 = qa + 2 * qb + qc;
    let r = (n2 as f64).sqrt();
    let at = |t: f64| tf.at(a.x as f64 + t * d.x as f64, a.y as f64 + t * d.y as f64);
    let tol = 1e-8 + tf.blur();
    // Ends near the circle but not on it.
    for (q, v) in [(a, qc), (b, f1)] {
        if v != 0 && (q.sub(c).len() - r).abs() * tf.scale < 1e-7 {
            return None;
        }
    }
    if qa == 0 {
        return Some(if qc == 0 {
            (vec![(tf.of(a), tol)], "single point on the circle")
        } else {
            (vec![], "single point off the circle")
        });
    }
    let disc = qb * qb - qa * qc;
    let mut ts: Vec<f64> = Vec::new();
    if disc > 0 {
        // Tangent to within the tolerance?
        let h2 = disc as f64 / qa as f64; // r^2 - distance^2
        if h2 / (2.0 * r) * tf.scale < 1e-6 {
            return None;
        }
    }
    if disc < 0 {
        let dl = ((w.n2() as f64) - (qb * qb) as f64 / qa as f64).max(0.0).sqrt();
        if (dl - r).abs() * tf.scale < 1e-7 {
            return None;
        }
    }
    if qc == 0 {
        ts.push(0.0);
    }
    if f1 == 0 {
        ts.push(1.0);
    }
    if qc != 0 && f1 != 0 {
        if disc == 0 {
            let t = -(qb as f64) / qa as f64;
            if -qb > 0 && -qb < qa {
                ts.push(t);
            }
        } else if disc > 0 {
            let s = (disc as f64).sqrt();
            for t in [(-(qb as f64) - s) / qa as f64, (-(qb as f64) + s) / qa as f64] {
                if t.abs() < 1e-9 || (t - 1.0).abs() < 1e-9 {
                    return None;
                }
                if t > 0.0 && t < 1.0 {
                    ts.push(t);
                }
            }
        }
    } else if qc == 0 && f1 != 0 {
        // The other root is -2 qb / qa.
        if -2 * qb > 0 && -2 * qb < qa {
            ts.push(-2.0 * qb as f64 / qa as f64);
        }
    } else if f1 == 0 && qc != 0 {
        // The product of the roots is qc / qa.
        if qc > 0 && qc < qa {
            ts.push(qc as f64 / qa as f64);
        }
    }
    let class = match (ts.len(), qc == 0 || f1 == 0, disc == 0) {
        (0, _, _) if qc < 0 && f1 < 0 => "inside",
        (0, _, _) => "disjoint",
        (1, true, _) => "an end on the circle",
        (1, _, true) => "tangent",
        (1, _, _) => "one crossing",
        (_, true, _) => "chord with an end on the circle",
        _ => "two crossings",
    };
    Some((ts.iter().map(|t| (at(*t), tol)).collect(), class))
}

/// A segment in an interesting position to the circle.
pub fn segment_for_circle(rng: &mut Rng, r: i64, c: P, n2: i64) -> (P, P) {
    let on = vectors_of(n2);
    let pick = |rng: &mut Rng, others: &[P]| -> P {
        if !on.is_empty() && rng.chance(1, 3) {
            c.add(*rng.pick(&on))
        } else if rng.chance(1, 4) {
            c
        } else {
            point_near(rng, r, others)
        }
    };
    if !on.is_empty() && rng.chance(1, 4) {
        // Along the tangent at a lattice point.
        let v = *rng.pick(&on);
        let g = lat::gcd(v.x, v.y);
        let t = p(-v.y / g, v.x / g);
        let (i, j) = (rng.range(-3, 3), rng.range(-3, 3));
        let q = c.add(v);
        return (q.add(p(t.x * i, t.y * i)), q.add(p(t.x * j, t.y * j)));
    }
    if rng.chance(1, 4) {
        // Right across, possibly beside the centre.
        let reach = (n2 as f64).sqrt() as i64 + 1;
        let w = c.add(point(rng, reach));
        let v = direction(rng, 3);
        let (i, j) = (rng.range(0, 2 * reach), rng.range(0, 2 * reach));
        return (w.sub(p(v.x * i, v.y * i)), w.add(p(v.x * j, v.y * j)));
    }
    let a = pick(rng, &[c]);
    let b = pick(rng, &[a, c]);
    (a, b)
}

fn segment_circle(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16, 30]);
    let tf = Tf::any(rng, r, 500.0);
    segment_circle_at::<f64>(ctx, rng, tf, r)
}

fn segment_circle_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let e = rng.range(-3, -1) as i32;
    ctx.bucket("f32");
    segment_circle_at::<f32>(ctx, rng, Tf::scaled((2f64).powi(e)), 3)
}

fn segment_circle_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 20);
    segment_circle_at::<f64>(ctx, rng, tf, 8)
}

fn segment_circle_at<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let (c, n2) = circle(rng, r);
    let (a, b) = segment_for_circle(rng, r, c, n2);
    let Some((must, class)) = segment_circle_spots(&tf, a, b, c, n2) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let must: Spots = if F::NAME == "f64" { must } else { must.into_iter().map(|(q, _)| (q, 1e-4)).collect() };
    if F::NAME != "f64" {
        // The rounding of a foot is about the tolerance.
        let d = b.sub(a);
        let size = [a, b, c].iter().map(|q| q.x.abs().max(q.y.abs())).max().unwrap() as f64 * tf.scale;
        let r = (n2 as f64).sqrt();
        let slope = d.x != 0 && d.y != 0;
        let grazing = a != b && (lat::dist_line(c, a, b) - r).abs() * tf.scale < 1e-2;
        let at_end = |q: P| q.sub(c).n2() != n2 as i128 && (q.sub(c).len() - r).abs() * tf.scale < 1e-2;
        if size > 3.0 || slope && grazing || at_end(a) || at_end(b) {
            ctx.skip("too close to tell in f32");
            return Ok(());
        }
    }
    let s = seg::<F>(&tf, a, b);
    let k = CircleSegment2::new(lp::<F>(&tf, c), F::n((n2 as f64).sqrt() * tf.scale));
    let got = out(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&s, &k))?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&s, &k))?;
    let what = || format!("{:?} {:?} (lattice {:?} {:?}, centre {:?} squared radius {})", s, k, a, b, c, n2);
    ensure!(is != must.is_empty(), "{}: the predicate is {} but they are: {}", what(), is, class);
    if let Err(m) = same_points(&got, &must, &[]) {
        return Err(format!("{}: {}", what(), m));
    }
    ctx.judged(class);
    ctx.nontrivial(hash_of(45, &tf, &[a, b, c]) ^ (n2 as u64) << 40);
    ctx.sample(what);
    Ok(())
}

// ----------------------------------------------------------- circle - circle

pub fn circle_circle_spots(tf: &Tf, c: P, m: i64, e: P, n: i64) -> Option<(Spots, &'static str)> {
    let d = e.sub(c);
    let d2 = d.n2();
    if d2 == 0 {
        return Some((vec![], if m == n { "the same circle" } else { "concentric" }));
    }
    let s = d2 - m as i128 - n as i128;
    let four = 4 * m as i128 * n as i128;
    let disc = four - s * s;
    let (r1, r2, dl) = ((m as f64).sqrt(), (n as f64).sqrt(), d.len());
    let near = (dl - r1 - r2).abs().min((dl - (r1 - r2).abs()).abs()) * tf.scale;
    if disc != 0 && near < 1e-6 {
        return None;
    }
    // From the first centre towards the second.
    let k = (m as i128 + d2 - n as i128) as f64 / (2.0 * d2 as f64);
    let h = (disc.max(0) as f64).sqrt() / (2.0 * d2 as f64);
    let at = |side: f64| {
        tf.at(
            c.x as f64 + k * d.x as f64 - side * h * d.y as f64,
            c.y as f64 + k * d.y as f64 + side * h * d.x as f64,
        )
    };
    let tol = 1e-8 + tf.blur();
    Some(if disc == 0 {
        (vec![(at(0.0), tol)], if s > 0 { "touching from outside" } else { "touching from inside" })
    } else if disc > 0 {
        (vec![(at(1.0), tol), (at(-1.0), tol)], "two crossings")
    } else {
        (vec![], if s > 0 { "apart" } else { "one within the other" })
    })
}

pub fn circle_pair(rng: &mut Rng, r: i64) -> (P, i64, P, i64) {
    let (c, m) = circle(rng, r);
    match rng.below(5) {
        // Tangent: radii and distance are multiples of one length.
        0 | 1 => {
            let v = direction(rng, (r / 3).max(1));
            let (i, j) = (rng.range(1, 3), rng.range(1, 3));
            let k = if rng.chance(1, 2) { i + j } else { i - j };
            let q = v.n2() as i64;
            (c, i * i * q, c.add(p(v.x * k, v.y * k)), j * j * q)
        }
        // Through a common lattice point.
        2 => {
            let q = point(rng, r);
            let e = point_near(rng, r, &[c, q]);
            if q == c || q == e {
                return (c, m, e, m);
            }
            (c, q.sub(c).n2() as i64, e, q.sub(e).n2() as i64)
        }
        _ => {
            let (e, n) = circle(rng, r);
            if rng.chance(1, 8) {
                (c, m, c, if rng.chance(1, 2) { m } else { n })
            } else {
                (c, m, e, n)
            }
        }
    }
}

fn circle_circle(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16, 30]);
    let tf = Tf::any(rng, r, 500.0);
    circle_circle_at::<f64>(ctx, rng, tf, r)
}

fn circle_circle_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let e = rng.range(-3, -2) as i32;
    ctx.bucket("f32");
    circle_circle_at::<f32>(ctx, rng, Tf::scaled((2f64).powi(e)), 4)
}

fn circle_circle_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 26);
    circle_circle_at::<f64>(ctx, rng, tf, 8)
}

fn circle_circle_at<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let (c, m, e, n) = circle_pair(rng, r);
    let Some((must, class)) = circle_circle_spots(&tf, c, m, e, n) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let must: Spots = if F::NAME == "f64" { must } else { must.into_iter().map(|(q, _)| (q, 1e-4)).collect() };
    if F::NAME != "f64" {
        let (r1, r2, dl) = ((m as f64).sqrt(), (n as f64).sqrt(), e.sub(c).len());
        let near = (dl - r1 - r2).abs().min((dl - (r1 - r2).abs()).abs()) * tf.scale;
        if near < 1e-2 && must.len() != 1 && c != e || (r1 + r2 + dl) * tf.scale > 4.0 {
            ctx.skip("too close to tell in f32");
            return Ok(());
        }
    }
    let k = CircleSegment2::new(lp::<F>(&tf, c), F::n((m as f64).sqrt() * tf.scale));
    let l = CircleSegment2::new(lp::<F>(&tf, e), F::n((n as f64).sqrt() * tf.scale));
    let got = out(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&k, &l))?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&k, &l))?;
    let what = || format!("{:?} {:?} (lattice {:?} {}, {:?} {})", k, l, c, m, e, n);
    ensure!(is != must.is_empty(), "{}: the predicate is {} but they are: {}", what(), is, class);
    if let Err(m) = same_points(&got, &must, &[]) {
        return Err(format!("{}: {}", what(), m));
    }
    ctx.judged(class);
    ctx.nontrivial(hash_of(46, &tf, &[c, e]) ^ (n as u64) << 32 ^ (m as u64) << 48);
    ctx.sample(what);
    Ok(())
}

// ---------------------------------------------------------------------- arcs

#[derive(Clone, Copy, Debug)]
pub struct Arc {
    pub c: P,
    pub n2: i64,
    pub from: P,
    pub to: P,
    pub source: f64,
    pub target: f64,
}

impl Arc {
    pub fn new(rng: &mut Rng, tf: &Tf, c: P, n2: i64) -> Arc {
        let on = vectors_of(n2);
        let end = |rng: &mut Rng| {
            if !on.is_empty() && rng.chance(1, 2) {
                *rng.pick(&on)
            } else {
                direction(rng, 6)
            }
        };
        let from = end(rng);
        let to = if rng.chance(1, 12) { from } else { end(rng) };
        let turn = |rng: &mut Rng| if rng.chance(1, 3) { TAU * rng.range(-1, 1) as f64 } else { 0.0 };
        Arc {
            c,
            n2,
            from,
            to,
            source: tf.angle(from) + turn(rng),
            target: tf.angle(to) + turn(rng),
        }
    }
    pub fn lib(&self, tf: &Tf) -> ArcSegment2<f64> {
        self.lib_of::<f64>(tf)
    }
    pub fn lib_of<F: Num>(&self, tf: &Tf) -> ArcSegment2<F> {
        let k = CircleSegment2::new(lp::<F>(tf, self.c), F::n((self.n2 as f64).sqrt() * tf.scale));
        ArcSegment2::new(k, F::n(self.source), F::n(self.target))
    }
    pub fn full(&self) -> bool {
        same_direction(self.from, self.to)
    }
    /// The lattice points of the arc's ends, where they are lattice points.
    pub fn ends(&self) -> Vec<P> {
        [self.from, self.to]
            .iter()
            .filter(|v| v.n2() == self.n2 as i128)
            .map(|v| self.c.add(*v))
            .collect()
    }
    /// A point of the circle: on the arc, off it, or too close to an end.
    fn holds(&self, tf: &Tf, q: Pt) -> Option<bool> {
        if self.full() {
            return Some(true);
        }
        let c = tf.of(self.c);
        let a = (q.1 - c.1).atan2(q.0 - c.0);
        let turn = |x: f64| x.rem_euclid(TAU);
        let span = turn(self.target - self.source);
        let at = turn(a - self.source);
        let r = (self.n2 as f64).sqrt() * tf.scale;
        let near = [at, TAU - at, (at - span).abs()].iter().fold(f64::MAX, |x, y| x.min(*y));
        if near * r.min(1.0) < 1e-6 {
            None
        } else {
            Some(at < span)
        }
    }
    /// Exact for lattice points of the circle.
    pub fn holds_lattice(&self, q: P) -> bool {
        let v = q.sub(self.c);
        v.n2() == self.n2 as i128 && lat::in_arc(v, self.from, self.to)
    }
}

/// Sorts the common points of the supports into those that must be found and
/// those that may be.
pub fn filter(tf: &Tf, spots: Spots, arcs: &[&Arc], sure: &[P]) -> (Spots, Spots) {
    let mut must: Spots = sure.iter().map(|q| (tf.of(*q), 1e-8)).collect();
    let mut may = Vec::new();
    for (q, tol) in spots {
        let h: Vec<Option<bool>> = arcs.iter().map(|a| a.holds(tf, q)).collect();
        if h.contains(&Some(false)) {
            continue;
        }
        if h.contains(&None) {
            may.push((q, tol));
        } else {
            must.push((q, tol));
        }
    }
    (must, may)
}

fn report(ctx: &mut Ctx, class: &str, must: &Spots, may: &Spots, sure: usize) {
    ctx.judged(match must.len() {
        0 if !may.is_empty() => "near an end, either way",
        0 => "none",
        1 => "one point",
        _ => "several points",
    });
    ctx.bucket(&format!("supports: {}", class));
    if sure > 0 {
        ctx.bucket("exactly at an end of an arc");
    }
}

fn segment_arc(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16]);
    let tf = Tf::any(rng, r, 500.0);
    let (c, n2) = circle(rng, r);
    let arc = Arc::new(rng, &tf, c, n2);
    let (mut a, mut b) = segment_for_circle(rng, r, c, n2);
    if let (Some(e), true) = (arc.ends().first(), rng.chance(1, 3)) {
        // Through an end of the arc.
        let v = direction(rng, 5);
        let (i, j) = (rng.range(0, 2), rng.range(0, 2));
        a = e.sub(p(v.x * i, v.y * i));
        b = e.add(p(v.x * j, v.y * j));
    }
    let Some((spots, class)) = segment_circle_spots(&tf, a, b, c, n2) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let mut sure: Vec<P> = arc.ends().into_iter().filter(|q| on_segment(*q, a, b)).collect();
    sure.dedup();
    let (must, may) = filter(&tf, spots, &[&arc], &sure);
    let s = seg::<f64>(&tf, a, b);
    let l = arc.lib(&tf);
    let got = out(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&s, &l))?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&s, &l))?;
    let what = || format!("{:?} {:?} (lattice {:?} {:?}, {:?})", s, l, a, b, arc);
    ensure!(is != got.is_empty(), "{}: the predicate is {} but the points are {:?}", what(), is, got);
    if let Err(m) = same_points(&got, &must, &may) {
        return Err(format!("{}: {}", what(), m));
    }
    report(ctx, class, &must, &may, sure.len());
    ctx.nontrivial(hash_of(47, &tf, &[a, b, c, arc.from, arc.to]) ^ (n2 as u64) << 40);
    ctx.sample(what);
    Ok(())
}

/// In single precision, where curves cross clearly.
fn arc_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::scaled(*rng.pick(&[0.0625, 0.125, 0.25]));
    let r = 3;
    let (c, m, e, n) = circle_pair(rng, r);
    let size = [c, e].iter().map(|q| q.x.abs().max(q.y.abs())).max().unwrap() as f64 * tf.scale;
    let (r1, r2) = ((m as f64).sqrt() * tf.scale, (n as f64).sqrt() * tf.scale);
    let (mut f, mut g) = (Arc::new(rng, &tf, c, m), Arc::new(rng, &tf, e, n));
    for k in [&mut f, &mut g] {
        // Turns take the rounding of an angle beyond the tolerance.
        k.source = k.source.rem_euclid(TAU);
        k.target = k.target.rem_euclid(TAU);
    }
    let kind = rng.below(3);
    let (a, b) = segment_for_circle(rng, r, c, m);
    let away = |d: f64| d.abs() * tf.scale > 0.2 * r1.max(r2).max(0.2);
    let clear = if kind == 0 {
        let rad = (m as f64).sqrt();
        a != b
            && away(lat::dist_line(c, a, b) - rad)
            && [a, b].iter().all(|q| q.x.abs().max(q.y.abs()) as f64 * tf.scale <= 0.7 && (q.sub(c).n2() == m as i128 || away(q.sub(c).len() - rad)))
    } else {
        let (d, r1, r2) = (e.sub(c).len(), (m as f64).sqrt(), (n as f64).sqrt());
        c != e && away(d - r1 - r2) && away(d - (r1 - r2).abs())
    };
    if !clear || size > 0.5 || r1.max(r2) > 0.7 {
        ctx.skip("too close to tell in f32");
        return Ok(());
    }
    let (spots, arcs) = match kind {
        0 => (segment_circle_spots(&tf, a, b, c, m), vec![&f]),
        1 => (circle_circle_spots(&tf, c, m, e, n), vec![&g]),
        _ => (circle_circle_spots(&tf, c, m, e, n), vec![&f, &g]),
    };
    let Some((spots, _)) = spots else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let (mut must, mut may): (Spots, Spots) = (vec![], vec![]);
    for (q, _) in spots {
        // Near the end of an arc rounding decides.
        let ends = arcs.iter().any(|k| {
            !k.full() && [k.from, k.to].iter().any(|v| {
                let u = (k.n2 as f64).sqrt() / v.len();
                dist(q, tf.at(k.c.x as f64 + u * v.x as f64, k.c.y as f64 + u * v.y as f64)) < 1e-3
            })
        });
        if ends {
            may.push((q, 1e-4));
        } else if arcs.iter().all(|k| k.holds(&tf, q) != Some(false)) {
            must.push((q, 1e-4));
        }
    }
    let (p, q) = (f.lib_of::<f32>(&tf), g.lib_of::<f32>(&tf));
    let s = seg::<f32>(&tf, a, b);
    let k = CircleSegment2::new(lp::<f32>(&tf, c), r1 as f32);
    let name = "segment_2_segment_2_intersection";
    let (got, rev) = match kind {
        0 => (ctx.call(name, || segment_2_segment_2_intersection(&s, &p))?, ctx.call(name, || segment_2_segment_2_intersection(&p, &s))?),
        1 => (ctx.call(name, || segment_2_segment_2_intersection(&k, &q))?, ctx.call(name, || segment_2_segment_2_intersection(&q, &k))?),
        _ => (ctx.call(name, || segment_2_segment_2_intersection(&p, &q))?, ctx.call(name, || segment_2_segment_2_intersection(&q, &p))?),
    };
    let (got, rev) = (out(&got), out(&rev));
    let what = || match kind {
        0 => format!("f32 {:?} {:?}", s, p),
        1 => format!("f32 {:?} {:?}", k, q),
        _ => format!("f32 {:?} {:?}", p, q),
    };
    for v in [&got, &rev] {
        if let Err(m) = same_points(v, &must, &may) {
            return Err(format!("{}: {}", what(), m));
        }
    }
    ctx.bucket("f32");
    ctx.judged(if must.is_empty() { "none" } else if must.len() == 1 { "one point" } else { "several points" });
    ctx.nontrivial(hash_of(92, &tf, &[a, b, c, e, f.from, f.to, g.from, g.to]) ^ (n as u64) << 40 ^ (m as u64) << 20);
    ctx.sample(what);
    Ok(())
}

fn circle_arc(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16]);
    let tf = Tf::any(rng, r, 500.0);
    let (c, m, e, n) = circle_pair(rng, r);
    if c == e {
        ctx.skip("concentric");
        return Ok(());
    }
    let arc = Arc::new(rng, &tf, e, n);
    let Some((spots, class)) = circle_circle_spots(&tf, c, m, e, n) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let mut sure: Vec<P> = arc.ends().into_iter().filter(|q| q.sub(c).n2() == m as i128).collect();
    sure.dedup();
    let (must, may) = filter(&tf, spots, &[&arc], &sure);
    let k = CircleSegment2::new(lp::<f64>(&tf, c), (m as f64).sqrt() * tf.scale);
    let l = arc.lib(&tf);
    let got = out(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&k, &l))?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&k, &l))?;
    let what = || format!("{:?} {:?} (lattice {:?} {}, {:?})", k, l, c, m, arc);
    ensure!(is != got.is_empty(), "{}: the predicate is {} but the points are {:?}", what(), is, got);
    if let Err(m) = same_points(&got, &must, &may) {
        return Err(format!("{}: {}", what(), m));
    }
    report(ctx, class, &must, &may, sure.len());
    ctx.nontrivial(hash_of(48, &tf, &[c, e, arc.from, arc.to]) ^ (n as u64) << 40 ^ (m as u64) << 20);
    ctx.sample(what);
    Ok(())
}

fn arc_arc(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 16]);
    let tf = Tf::any(rng, r, 500.0);
    let (c, m, mut e, mut n) = circle_pair(rng, r);
    if rng.chance(1, 6) {
        e = c;
        n = m;
    }
    let f = Arc::new(rng, &tf, c, m);
    let mut g = Arc::new(rng, &tf, e, n);
    let Some((spots, mut class)) = circle_circle_spots(&tf, c, m, e, n) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let mut sure: Vec<P> = Vec::new();
    let (must, may);
    if c == e && m == n {
        // Parts of one circle: the ends of each that lie on the other, where
        // those ends are real ends.
        if f.full() || g.full() {
            ctx.skip("a full turn on the same circle");
            return Ok(());
        }
        if rng.chance(1, 3) {
            // Share an end.
            g.from = f.to;
            g.source = f.target;
            if g.full() {
                ctx.skip("a full turn on the same circle");
                return Ok(());
            }
        }
        class = "the same circle";
        let mut v: Spots = Vec::new();
        let rad = (m as f64).sqrt();
        let mut seen: Vec<P> = Vec::new();
        for (x, y) in [(&f, &g), (&g, &f)] {
            for d in [x.from, x.to] {
                // An end of both is one point.
                if lat::in_arc(d, y.from, y.to) && !seen.iter().any(|s| s.same_direction(d)) {
                    seen.push(d);
                    let k = rad / d.len();
                    v.push((tf.at(c.x as f64 + d.x as f64 * k, c.y as f64 + d.y as f64 * k), 1e-8));
                }
            }
        }
        must = v;
        may = vec![];
    } else {
        sure = f.ends().into_iter().filter(|q| g.holds_lattice(*q)).collect();
        sure.extend(g.ends().into_iter().filter(|q| f.holds_lattice(*q)));
        sure.sort();
        sure.dedup();
        (must, may) = filter(&tf, spots, &[&f, &g], &sure);
    }
    let (k, l) = (f.lib(&tf), g.lib(&tf));
    let got = out(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&k, &l))?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&k, &l))?;
    let what = || format!("{:?} {:?} (lattice {:?} {:?})", k, l, f, g);
    ensure!(is != got.is_empty(), "{}: the predicate is {} but the points are {:?}", what(), is, got);
    if let Err(m) = same_points(&got, &must, &may) {
        return Err(format!("{}: {}", what(), m));
    }
    report(ctx, class, &must, &may, sure.len());
    ctx.nontrivial(hash_of(49, &tf, &[c, e, f.from, f.to, g.from, g.to]) ^ (n as u64) << 40 ^ (m as u64) << 20);
    ctx.sample(what);
    Ok(())
}

// ----------------------------------------------------------------- all pairs

#[derive(Clone, Copy, Debug)]
pub enum Shape {
    Line(LineSegment2<f64>),
    Circle(CircleSegment2<f64>),
    Arc(ArcSegment2<f64>),
}

#[macro_export]
macro_rules! with_shape {
    ($s:expr, $v:ident, $e:expr) => {
        match $s {
            $crate::intersect::Shape::Line($v) => $e,
            $crate::intersect::Shape::Circle($v) => $e,
            $crate::intersect::Shape::Arc($v) => $e,
        }
    };
}

impl Shape {
    pub fn kind(&self) -> &'static str {
        match self {
            Shape::Line(_) => "segment",
            Shape::Circle(_) => "circle",
            Shape::Arc(_) => "arc",
        }
    }
    /// Distance of a point from the shape.
    pub fn distance(&self, q: Pt) -> f64 {
        use rcgal::kernel::segment_2::Segment2;
        match self {
            Shape::Line(s) => {
                let (a, b) = (xy(&s.source()), xy(&s.target()));
                let (dx, dy) = (b.0 - a.0, b.1 - a.1);
                let l2 = dx * dx + dy * dy;
                let t = if l2 == 0.0 { 0.0 } else { (((q.0 - a.0) * dx + (q.1 - a.1) * dy) / l2).clamp(0.0, 1.0) };
                dist(q, (a.0 + t * dx, a.1 + t * dy))
            }
            Shape::Circle(k) => (dist(q, xy(&k.center())) - k.radius()).abs(),
            Shape::Arc(k) => {
                let c = xy(&k.center());
                let a = (q.1 - c.1).atan2(q.0 - c.0);
                let turn = |x: f64| x.rem_euclid(TAU);
                let span = turn(k.target_radian() - k.source_radian());
                let at = turn(a - k.source_radian());
                if span < 1e-9 || span > TAU - 1e-9 || at <= span {
                    (dist(q, c) - k.radius()).abs()
                } else {
                    dist(q, xy(&k.source())).min(dist(q, xy(&k.target())))
                }
            }
        }
    }
}

pub fn shape(rng: &mut Rng, tf: &Tf, r: i64, others: &[P]) -> (Shape, Vec<P>) {
    match rng.below(3) {
        0 => {
            let a = point_near(rng, r, others);
            let b = point_near(rng, r, &[a]);
            (Shape::Line(seg(tf, a, b)), vec![a, b])
        }
        k => {
            let (c, n2) = circle(rng, r);
            let mut around = vec![c];
            for v in vectors_of(n2).into_iter().take(4) {
                around.push(c.add(v));
            }
            if k == 1 {
                let rad = (n2 as f64).sqrt() * tf.scale;
                (Shape::Circle(CircleSegment2::new(lp(tf, c), rad)), around)
            } else {
                (Shape::Arc(Arc::new(rng, tf, c, n2).lib(tf)), around)
            }
        }
    }
}

impl Shape {
    fn circle(&self) -> Option<(Pt, f64)> {
        use rcgal::kernel::segment_2::Segment2;
        match self {
            Shape::Line(_) => None,
            Shape::Circle(k) => Some((xy(&k.center()), k.radius())),
            Shape::Arc(k) => Some((xy(&k.center()), k.radius())),
        }
    }
    pub fn moved(&self, d: Pt) -> Shape {
        use rcgal::kernel::segment_2::Segment2;
        let m = |q: Point2<f64>| pt::<f64>((q.x() + d.0, q.y() + d.1));
        match self {
            Shape::Line(s) => Shape::Line(LineSegment2::new(m(s.source()), m(s.target()))),
            Shape::Circle(k) => Shape::Circle(CircleSegment2::new(m(k.center()), k.radius())),
            Shape::Arc(k) => Shape::Arc(ArcSegment2::new(
                CircleSegment2::new(m(k.center()), k.radius()),
                k.source_radian(),
                k.target_radian(),
            )),
        }
    }
}

fn pairs(ctx: &mut Ctx, rng: &mut Rng) -> R {
    pairs_at(ctx, rng, 0.0)
}

/// Pairs nearly in a special position.
fn pairs_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let e = *rng.pick(&[1e-13, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-4]);
    pairs_at(ctx, rng, e)
}

fn pairs_at(ctx: &mut Ctx, rng: &mut Rng, e: f64) -> R {
    let r = *rng.pick(&[2, 5, 12]);
    let tf = Tf::any(rng, r, 500.0);
    let (x, near) = shape(rng, &tf, r, &[]);
    let (mut y, _) = shape(rng, &tf, r, &near);
    if e > 0.0 {
        let a = rng.float(0.0, TAU);
        y = y.moved((e * a.cos(), e * a.sin()));
        if let (Some((c, n)), Some((d, m))) = (x.circle(), y.circle()) {
            if dist(c, d) < 1e-3 && (n - m).abs() < 1e-3 {
                ctx.skip("nearly the same circle");
                return Ok(());
            }
        }
    }
    // The tolerance at the ends of an arc is one of its angle.
    let blur = |s: &Shape| 1e-8 + if e > 0.0 { 2e-10 * s.circle().map_or(0.0, |k| k.1) } else { 0.0 };
    let got = out(&ctx.call("segment_2_segment_2_intersection", || {
        with_shape!(x, s, with_shape!(y, t, segment_2_segment_2_intersection(&s, &t)))
    })?);
    let rev = out(&ctx.call("segment_2_segment_2_intersection", || {
        with_shape!(y, s, with_shape!(x, t, segment_2_segment_2_intersection(&s, &t)))
    })?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || {
        with_shape!(x, s, with_shape!(y, t, is_segment_2_segment_2_intersected(&s, &t)))
    })?;
    let is_rev = ctx.call("is_segment_2_segment_2_intersected", || {
        with_shape!(y, s, with_shape!(x, t, is_segment_2_segment_2_intersected(&s, &t)))
    })?;
    let what = || format!("{:?} and {:?}", x, y);
    ensure!(is == is_rev, "{}: the predicate is {} one way and {} the other", what(), is, is_rev);
    ensure!(is != got.is_empty(), "{}: the predicate is {} but the points are {}", what(), is, show_xy(&got));
    for (a, b) in [(&got, &rev), (&rev, &got)] {
        for q in a {
            ensure!(
                b.iter().any(|w| dist(*q, *w) <= 1e-7),
                "{}: one way round the points are {}, the other {}",
                what(), show_xy(&got), show_xy(&rev)
            );
        }
    }
    for q in got.iter().chain(&rev) {
        for s in [&x, &y] {
            ensure!(s.distance(*q) <= blur(s), "{}: the point {:?} is {:e} from {:?}", what(), q, s.distance(*q), s);
        }
    }
    ctx.judged(&format!("{} and {}: {}", x.kind(), y.kind(), if is { "meet" } else { "do not meet" }));
    let mut h = harness::ctx::Hasher::new(50);
    h.add(harness::rng::hash_str(&format!("{:?}{:?}", x, y)));
    ctx.nontrivial(h.0);
    ctx.sample(what);
    Ok(())
}

/// A segment that just touches, just cuts or just misses the circle, and one
/// with an end just on it, just within it or just off it.
fn segment_circle_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let c = (rng.float(-20.0, 20.0), rng.float(-20.0, 20.0));
    let r = *rng.pick(&[0.1, 0.5, 1.0, 3.7, 12.0, 40.0]);
    let a = if rng.chance(1, 4) { rng.range(0, 8) as f64 * TAU / 8.0 } else { rng.float(0.0, TAU) };
    let (u, v) = ((a.cos(), a.sin()), (-a.sin(), a.cos()));
    let at = |x: f64, y: f64| (c.0 + x * u.0 + y * v.0, c.1 + x * u.1 + y * v.1);
    let (e, on) = near(rng);
    let outside = rng.chance(1, 2);
    let d = if outside { r + e } else { r - e };
    let (from, to, must, what): (Pt, Pt, Spots, &'static str) = if rng.chance(1, 2) {
        // Across the foot, which lies within.
        let reach = |rng: &mut Rng| r * rng.float(0.2, 3.0);
        let (l, m) = (reach(rng), reach(rng));
        let (from, to) = (at(d, -l), at(d, m));
        if on {
            (from, to, vec![(at(d, 0.0), 1e-8)], "just tangent")
        } else if outside {
            (from, to, vec![], "just beside")
        } else {
            let h = ((r - d) * (r + d)).max(0.0).sqrt();
            if h > 0.9 * l || h > 0.9 * m {
                ctx.skip("an end is near");
                return Ok(());
            }
            (from, to, vec![(at(d, h), 1e-7), (at(d, -h), 1e-7)], "just cut")
        }
    } else {
        // From there outwards, or inwards to within.
        let slant = rng.float(-1.0, 1.0);
        let start = at(d, 0.0);
        if rng.chance(1, 2) {
            let l = r * rng.float(0.1, 3.0);
            let must = if on || !outside { vec![(at(r, 0.0), 1e-8 + 2.0 * e)] } else { vec![] };
            (start, at(d + l, l * slant), must, if on { "end just on, going out" } else if outside { "end just off, going out" } else { "end just within, going out" })
        } else {
            let l = r * rng.float(0.1, 0.8);
            let must = if on || outside { vec![(at(r, 0.0), 1e-8 + 2.0 * e)] } else { vec![] };
            (start, at(d - l, l * slant * 0.4), must, if on { "end just on, going in" } else if outside { "end just off, going in" } else { "end just within, going in" })
        }
    };
    let mut s = LineSegment2::new(pt::<f64>(from), pt::<f64>(to));
    if rng.chance(1, 2) {
        s = LineSegment2::new(pt::<f64>(to), pt::<f64>(from));
    }
    let k = CircleSegment2::new(pt::<f64>(c), r);
    let got = out(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&s, &k))?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&s, &k))?;
    let say = || format!("{:?} {:?}, {}, by {:e}", s, k, what, e);
    ensure!(is != must.is_empty(), "{}: the predicate is {}", say(), is);
    if let Err(m) = same_points(&got, &must, &[]) {
        return Err(format!("{}: {}", say(), m));
    }
    ctx.judged(what);
    ctx.nontrivial(a.to_bits() ^ c.0.to_bits() ^ e.to_bits());
    ctx.sample(say);
    Ok(())
}

/// A displacement that must not matter, or one that must.
fn near(rng: &mut Rng) -> (f64, bool) {
    if rng.chance(1, 3) {
        (*rng.pick(&[0.0, 1e-13, 1e-12, 2e-11, 5e-11]), true)
    } else {
        (*rng.pick(&[2e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 1e-3]), false)
    }
}

/// Two circles that just touch, just cut or just miss each other.
fn circle_circle_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let c = (rng.float(-20.0, 20.0), rng.float(-20.0, 20.0));
    let pick = |rng: &mut Rng| *rng.pick(&[0.1, 0.5, 1.0, 3.7, 12.0, 40.0]) * rng.float(0.9, 1.1);
    let (r, q) = (pick(rng), pick(rng));
    let a = if rng.chance(1, 4) { rng.range(0, 8) as f64 * TAU / 8.0 } else { rng.float(0.0, TAU) };
    let (e, on) = near(rng);
    let outer = rng.chance(1, 2);
    if !outer && (r - q).abs() < 0.05 {
        ctx.skip("nearly the same circle");
        return Ok(());
    }
    let cut = rng.chance(1, 2);
    let d = match (outer, cut) {
        (true, true) => r + q - e,
        (true, false) => r + q + e,
        (false, true) => (r - q).abs() + e,
        (false, false) => (r - q).abs() - e,
    };
    let (u, v) = ((a.cos(), a.sin()), (-a.sin(), a.cos()));
    let m = (c.0 + d * u.0, c.1 + d * u.1);
    let must: Spots = if on {
        let x = if outer || r > q { r } else { -r };
        vec![((c.0 + x * u.0, c.1 + x * u.1), 1e-8)]
    } else if cut {
        // By Heron's formula, which keeps its precision for flat triangles.
        let area = ((r + q + d) * (r + q - d) * (d + r - q) * (d - r + q)).max(0.0).sqrt() / 4.0;
        let h = 2.0 * area / d;
        let x = (d * d + (r - q) * (r + q)) / (2.0 * d);
        [h, -h].iter().map(|y| ((c.0 + x * u.0 + y * v.0, c.1 + x * u.1 + y * v.1), 1e-7)).collect()
    } else {
        vec![]
    };
    let k = CircleSegment2::new(pt::<f64>(c), r);
    let l = CircleSegment2::new(pt::<f64>(m), q);
    let got = out(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&k, &l))?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&k, &l))?;
    let what = match (on, cut, outer) {
        (true, _, true) => "just touching from outside",
        (true, _, false) => "just touching from inside",
        (_, true, true) => "just cutting from outside",
        (_, true, false) => "just cutting from inside",
        (_, _, true) => "just apart",
        _ => "just within",
    };
    let say = || format!("{:?} {:?}, {}, by {:e}", k, l, what, e);
    ensure!(is != must.is_empty(), "{}: the predicate is {}", say(), is);
    if let Err(m) = same_points(&got, &must, &[]) {
        return Err(format!("{}: {}", say(), m));
    }
    ctx.judged(what);
    ctx.nontrivial(a.to_bits() ^ r.to_bits() ^ e.to_bits());
    ctx.sample(say);
    Ok(())
}

/// Two circles with all but the same centre and radius, which cross in two
/// points well apart. All of it is exact in binary.
fn circle_circle_same(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let c = (rng.range(-8, 8) as f64, rng.range(-8, 8) as f64);
    let r = *rng.pick(&[0.5, 1.0, 2.0, 5.0, 16.0]);
    let h = 2f64.powi(-rng.range(7, 26) as i32);
    let v = loop {
        let v = (rng.range(-4, 4) as f64, rng.range(-4, 4) as f64);
        if v != (0.0, 0.0) {
            break v;
        }
    };
    let len = v.0.hypot(v.1);
    // The radii differ by less than the centres, or more: then they do not meet.
    let (k, apart) = if rng.chance(1, 4) {
        (*rng.pick(&[-1.0, 1.0]) * (len * 1.5 + 1.0).ceil(), true)
    } else {
        (*rng.pick(&[0.0, 0.0, 0.25, -0.25, 0.5, -0.5]), false)
    };
    let m = (c.0 + h * v.0, c.1 + h * v.1);
    let q = r + h * k;
    if q < r / 2.0 {
        ctx.skip("not nearly the same");
        return Ok(());
    }
    let must: Spots = if apart {
        vec![]
    } else {
        let d = h * len;
        let x = (d * d + (r - q) * (r + q)) / (2.0 * d);
        let y = ((r - x) * (r + x)).max(0.0).sqrt();
        let (u, w) = ((v.0 / len, v.1 / len), (-v.1 / len, v.0 / len));
        // Rounding of the squared radii is a fraction of the distance.
        let tol = 1e-9 + 40.0 * f64::EPSILON * r * r / d;
        [y, -y].iter().map(|y| ((c.0 + x * u.0 + y * w.0, c.1 + x * u.1 + y * w.1), tol)).collect()
    };
    let k1 = CircleSegment2::new(pt::<f64>(c), r);
    let k2 = CircleSegment2::new(pt::<f64>(m), q);
    let (k1, k2) = if rng.chance(1, 2) { (k1, k2) } else { (k2, k1) };
    let got = out(&ctx.call("segment_2_segment_2_intersection", || segment_2_segment_2_intersection(&k1, &k2))?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || is_segment_2_segment_2_intersected(&k1, &k2))?;
    let say = || format!("{:?} {:?}, {:e} apart", k1, k2, h * len);
    ensure!(is != must.is_empty(), "{}: the predicate is {}", say(), is);
    if let Err(m) = same_points(&got, &must, &[]) {
        return Err(format!("{}: {}", say(), m));
    }
    ctx.judged(if apart { "one just within the other" } else { "crossing, nearly the same" });
    ctx.bucket(&format!("centres 1e{} apart", (h * len).log10().round()));
    ctx.nontrivial(c.0.to_bits() ^ h.to_bits() ^ v.0.to_bits() ^ (v.1.to_bits() >> 5) ^ q.to_bits());
    ctx.sample(say);
    Ok(())
}

/// A segment or another arc right across an arc's circle just within an end of
/// the arc, at it, or just beyond it; or ending just at the arc.
fn arc_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let c = (rng.float(-20.0, 20.0), rng.float(-20.0, 20.0));
    let r = *rng.pick(&[0.5, 1.0, 3.7, 12.0]);
    let s = if rng.chance(1, 3) { rng.range(-4, 8) as f64 * TAU / 8.0 } else { rng.float(-7.0, 12.0) };
    let turn = if rng.chance(1, 3) { rng.range(1, 7) as f64 * TAU / 8.0 } else { rng.float(0.05, TAU - 0.05) };
    let t = s + turn - if rng.chance(1, 3) { TAU } else { 0.0 };
    let arc = ArcSegment2::new(CircleSegment2::new(pt::<f64>(c), r), s, t);
    let (e, on) = if rng.chance(1, 3) { (*rng.pick(&[0.0, 1e-13, 1e-12]), true) } else { (*rng.pick(&[1e-8, 1e-7, 1e-6, 1e-4, 1e-3]), false) };
    let (a, hit, what) = match rng.below(6) {
        0 => (s - e, on, "just before the source"),
        1 => (s + turn + e, on, "just after the target"),
        2 => (s + e, true, "just after the source"),
        3 => (s + turn - e, true, "just before the target"),
        4 => (s + turn * rng.float(0.1, 0.9), true, "well within"),
        _ => (s + turn + (TAU - turn) * rng.float(0.1, 0.9), false, "well beyond"),
    };
    let q = (c.0 + r * a.cos(), c.1 + r * a.sin());
    // Across the circle at no less than 30 degrees.
    let b = a + rng.float(-1.0, 1.0) + if rng.chance(1, 2) { TAU / 2.0 } else { 0.0 };
    let other = if rng.chance(1, 2) {
        let (l, m) = (r * rng.float(0.05, 0.5), r * rng.float(0.05, 0.5));
        Shape::Line(LineSegment2::new(
            pt::<f64>((q.0 - l * b.cos(), q.1 - l * b.sin())),
            pt::<f64>((q.0 + m * b.cos(), q.1 + m * b.sin())),
        ))
    } else {
        // An arc through the point in the direction b, short enough to cross
        // but once.
        let o = r * rng.float(0.5, 2.0);
        let side = if rng.chance(1, 2) { TAU / 4.0 } else { -TAU / 4.0 };
        let m = (q.0 + o * (b + side).cos(), q.1 + o * (b + side).sin());
        let at = b + side + TAU / 2.0;
        let (i, j) = (rng.float(0.02, 0.2), rng.float(0.02, 0.2));
        Shape::Arc(ArcSegment2::new(CircleSegment2::new(pt::<f64>(m), o), at - i, at + j))
    };
    let mine = Shape::Arc(arc);
    let (x, y) = if rng.chance(1, 2) { (mine, other) } else { (other, mine) };
    let got = out(&ctx.call("segment_2_segment_2_intersection", || {
        with_shape!(x, s, with_shape!(y, t, segment_2_segment_2_intersection(&s, &t)))
    })?);
    let is = ctx.call("is_segment_2_segment_2_intersected", || {
        with_shape!(x, s, with_shape!(y, t, is_segment_2_segment_2_intersected(&s, &t)))
    })?;
    let say = || format!("{:?} and {:?}, {}, by {:e}", x, y, what, e);
    ensure!(is == hit, "{}: the predicate is {}", say(), is);
    let must: Spots = if hit { vec![(q, 1e-8)] } else { vec![] };
    if let Err(m) = same_points(&got, &must, &[]) {
        return Err(format!("{}: {}", say(), m));
    }
    ctx.judged(what);
    ctx.nontrivial(s.to_bits() ^ turn.to_bits() ^ e.to_bits());
    ctx.sample(say);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P18",
            stages: vec![
                Stage { name: "lattice", cases: 300_000, run: line_line },
                Stage { name: "squeezed", cases: 200_000, run: line_line_squeezed },
                Stage { name: "f32", cases: 100_000, run: line_line_f32 },
            ],
            rule: "two lines through lattice points, given by points or by coefficients of several scales, with forced parallel, identical and perpendicular ones; judged by the exact determinant, in both orders; all count; also in single precision, where coordinates are small",
            assumptions: vec!["crossings beyond 1e5 are not located; angles between lines are those of a lattice up to 32"],
            required: vec!["f32", "crossing", "perpendicular", "parallel", "the same line"],
            silent: false,
        },
        Prop {
            id: "P19",
            stages: vec![
                Stage { name: "lattice", cases: 300_000, run: line_ray },
                Stage { name: "squeezed", cases: 200_000, run: line_ray_squeezed },
                Stage { name: "f32", cases: 100_000, run: line_ray_f32 },
            ],
            rule: "a line and a ray through lattice points with forced parallel ones and rays that start on the line; judged by the sign of the exact parameter; counted unless parallel; also in single precision, where coordinates are small",
            assumptions: vec!["a ray along the line may give none or any common point; crossings farther than 2e4 times the sine of the angle are not judged"],
            required: vec!["f32", "crossing", "line behind the ray", "line through the origin of the ray", "parallel", "ray along the line"],
            silent: false,
        },
        Prop {
            id: "P20",
            stages: vec![
                Stage { name: "lattice", cases: 400_000, run: segment_ray },
                Stage { name: "squeezed", cases: 200_000, run: segment_ray_squeezed },
                Stage { name: "f32", cases: 60_000, run: segment_ray_f32 },
                Stage { name: "far", cases: 100_000, run: segment_ray_far },
            ],
            rule: "a segment (possibly a single point) and a ray on a lattice, with forced collinear, touching and origin-crossing ones; the ray is judged as a segment that reaches past everything; all count; also in single precision, where coordinates are small",
            assumptions: vec!["of an overlap the segment's ends on the ray are required, the ray's origin is optional"],
            required: vec!["f32", "crossing", "disjoint", "touching at the origin", "touching at an end", "overlapping", "single point on the ray"],
            silent: false,
        },
        Prop {
            id: "P21",
            stages: vec![
                Stage { name: "lattice", cases: 500_000, run: segment_segment_f64 },
                Stage { name: "f32", cases: 150_000, run: segment_segment_f32 },
                Stage { name: "near", cases: 200_000, run: segment_segment_near },
                Stage { name: "squeezed", cases: 300_000, run: segment_segment_squeezed },
                Stage { name: "far", cases: 150_000, run: segment_segment_far },
            ],
            rule: "two lattice segments (possibly single points) with forced touching, overlapping and parallel ones, exact or rotated; and an end displaced from the other segment by 0 to 1e-3 on either side; judged by exact orientation; all count",
            assumptions: vec!["displacements between 5e-11 and 2e-10 are not generated"],
            required: vec!["crossing", "disjoint", "disjoint, collinear", "disjoint, parallel", "end to end", "end within the other", "overlapping", "a single point on the other", "disjoint, a single point", "end just on the other", "end just through the other", "end just short of the other"],
            silent: false,
        },
        Prop {
            id: "P22",
            stages: vec![
                Stage { name: "lattice", cases: 500_000, run: segment_circle },
                Stage { name: "near", cases: 200_000, run: segment_circle_near },
                Stage { name: "far", cases: 100_000, run: segment_circle_far },
                Stage { name: "f32", cases: 100_000, run: segment_circle_f32 },
            ],
            rule: "a lattice segment and a circle of integer squared radius around a lattice point, with forced tangents, chords, and ends on the circle or in its centre, exact or rotated; the roots are classified by integer arithmetic; and segments 0 to 1e-3 off the tangent, or with an end 0 to 1e-3 off the circle, on either side; all count",
            assumptions: vec!["displacements between 5e-11 and 2e-10 are not generated; lattice segments tangent to within 1e-6 but not exactly are not judged"],
            required: vec!["just tangent", "just beside", "just cut", "end just on, going out", "end just off, going out", "end just within, going out", "end just on, going in", "end just off, going in", "end just within, going in", "two crossings", "one crossing", "tangent", "an end on the circle", "chord with an end on the circle", "inside", "disjoint", "single point on the circle"],
            silent: false,
        },
        Prop {
            id: "P23",
            stages: vec![
                Stage { name: "lattice", cases: 500_000, run: circle_circle },
                Stage { name: "near", cases: 200_000, run: circle_circle_near },
                Stage { name: "nearly the same", cases: 100_000, run: circle_circle_same },
                Stage { name: "far", cases: 100_000, run: circle_circle_far },
                Stage { name: "f32", cases: 100_000, run: circle_circle_f32 },
            ],
            rule: "two circles of integer squared radii around lattice points, with forced tangent, concentric and equal ones and common lattice points; classified by integer arithmetic; circles 0 to 1e-3 off touching from outside or inside, and circles of all but the same centre and radius; all count",
            assumptions: vec!["equal circles have infinitely many common points, of which the library reports none; displacements between 5e-11 and 2e-10 are not generated; lattice circles tangent to within 1e-6 but not exactly are not judged"],
            required: vec!["just touching from outside", "just touching from inside", "just cutting from outside", "just cutting from inside", "just apart", "just within", "two crossings", "touching from outside", "touching from inside", "apart", "one within the other", "concentric", "the same circle", "crossing, nearly the same", "one just within the other"],
            silent: false,
        },
        Prop {
            id: "P24",
            stages: vec![
                Stage { name: "segment-arc", cases: 300_000, run: segment_arc },
                Stage { name: "circle-arc", cases: 200_000, run: circle_arc },
                Stage { name: "arc-arc", cases: 300_000, run: arc_arc },
                Stage { name: "near", cases: 300_000, run: arc_near },
                Stage { name: "f32", cases: 100_000, run: arc_f32 },
            ],
            rule: "arcs of lattice circles between lattice directions (given up to a turn away) against segments, circles and arcs with forced tangency, common lattice points, crossings at ends and common supports; the common points of the supports are classified exactly and filtered by the arcs; and segments and arcs right across, 0 to 1e-3 before or after an end; all count; also in single precision, where coordinates are small",
            assumptions: vec!["on the lattice, a point within 1e-6 of an end that is not known to be exactly there may or may not be reported; displacements between 1e-12 and 1e-8 are not generated; arcs of a full turn on a common circle, and a circle with an arc of itself, are not judged"],
            required: vec!["f32", "just before the source", "just after the source", "just before the target", "just after the target", "none", "one point", "several points", "exactly at an end of an arc", "supports: tangent", "supports: touching from outside", "supports: the same circle"],
            silent: false,
        },
        Prop {
            id: "P25",
            stages: vec![Stage { name: "pairs", cases: 400_000, run: pairs }, Stage { name: "near", cases: 300_000, run: pairs_near }],
            rule: "two of segment, circle and arc on a lattice in special positions, or one of them moved by 1e-13 to 1e-4 out of that; both argument orders and the predicate are compared, and every reported point is measured against both operands; all count",
            assumptions: vec!["points are compared to within 1e-7"],
            required: vec!["segment and segment: meet", "segment and circle: meet", "segment and arc: meet", "circle and circle: meet", "circle and arc: meet", "arc and arc: meet", "arc and segment: do not meet", "circle and circle: do not meet"],
            silent: false,
        },
    ]
}
