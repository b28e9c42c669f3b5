//! Monitors of the position of a point relative to each shape, and of projection.
use crate::num::*;
use harness::ctx::{Ctx, Prop, Stage, R};
use harness::ensure;
use harness::lat::{self, dist_segment, gcd, on_segment, orient, p, point, point_near, sign, Side, Tf, P};
use harness::rng::Rng;
use rcgal::algorithm::location::location_enum::*;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_ray_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_2::point_2_project_line_2;
use rcgal::algorithm::projection::point_2_line_segment_2::point_2_project_line_segment_2;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::triangle_2::Triangle2;
use std::f64::consts::TAU;

/// A point this far from a shape (in the library's coordinates) is off it.
const CLEAR: f64 = 1e-7;

/// A displacement that must not matter, or one that must: the tolerance is
/// 1e-10.
fn displacement(rng: &mut Rng) -> (f64, bool) {
    if rng.chance(1, 3) {
        (*rng.pick(&[0.0, 1e-13, 1e-12, 2e-11, 5e-11]), true)
    } else {
        (*rng.pick(&[2e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 1e-3]), false)
    }
}

/// The same up to close to the tolerance, where nothing but rounding blurs it.
fn displacement_sharp(rng: &mut Rng) -> (f64, bool) {
    match rng.below(6) {
        0 => (9e-11, true),
        1 => (1.2e-10, false),
        _ => displacement(rng),
    }
}

/// The same for angles, which rounding blurs where the radius is small.
fn displacement_angle(rng: &mut Rng) -> (f64, bool) {
    if rng.chance(1, 3) {
        (*rng.pick(&[0.0, 1e-13, 1e-12]), true)
    } else {
        (*rng.pick(&[1e-8, 1e-7, 1e-6, 1e-4, 1e-3]), false)
    }
}

/// The same for the tolerance of the scalar type, and whether the coordinates
/// have to stay small for it.
fn displacement_of<F: Num>(rng: &mut Rng) -> (f64, bool) {
    if F::NAME == "f64" {
        displacement_sharp(rng)
    } else if rng.chance(1, 3) {
        (*rng.pick(&[0.0, 1e-8, 1e-7]), true)
    } else {
        (*rng.pick(&[1e-5, 1e-4, 1e-3]), false)
    }
}

fn near_tf_of<F: Num>(rng: &mut Rng, r: i64) -> (Tf, i64) {
    if F::NAME == "f64" {
        (near_tf(rng), r)
    } else {
        (Tf::identity(), 1)
    }
}

fn near_tf(rng: &mut Rng) -> Tf {
    if rng.chance(1, 2) {
        Tf::rigid(rng)
    } else {
        Tf::identity()
    }
}

fn unit(tf: &Tf, d: P) -> (f64, f64) {
    let (x, y) = tf.dir(d);
    let l = x.hypot(y);
    (x / l, y / l)
}

fn distinct(rng: &mut Rng, r: i64) -> (P, P) {
    loop {
        let a = point(rng, r);
        let b = point_near(rng, r, &[a]);
        if a != b {
            return (a, b);
        }
    }
}

// ---------------------------------------------------------------------- line

fn line_of<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: &Tf, a: P, b: P) -> Result<Line2<F>, String> {
    if tf.exact && rng.chance(1, 2) {
        // Coefficients of our own: the normal form is not the only one.
        let (pa, d) = (tf.of(a), b.sub(a));
        let k = if F::NAME == "f64" {
            *rng.pick(&[1.0, -1.0, 0.25, 3.0, 1e-6, -1e4, 1e-12, -1e11])
        } else {
            (2f64).powi(rng.range(-30, 30) as i32) * *rng.pick(&[1.0, -1.0])
        };
        let (u, v) = (-(d.y as f64), d.x as f64);
        Ok(Line2::new(F::n(u * k), F::n(v * k), F::n(-(u * pa.0 + v * pa.1) * k)))
    } else {
        ctx.call("Line2::from_points", || Line2::from_points(&lp::<F>(tf, a), &lp::<F>(tf, b)))
    }
}

fn locate_line_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 20]);
    let tf = Tf::some(rng, r, 60.0);
    locate_line::<f64>(ctx, rng, tf, r)
}

/// Single precision, where rounding leaves little below the tolerance.
fn locate_line_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::scaled(*rng.pick(&[0.125, 0.25, 0.5, 1.0]));
    ctx.bucket("f32");
    locate_line::<f32>(ctx, rng, tf, 2)
}

fn locate_line<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let (a, b) = distinct(rng, r);
    let q = point_near(rng, r, &[a, b]);
    let line = line_of::<F>(ctx, rng, &tf, a, b)?;
    let o = orient(a, b, q);
    if o != 0 && lat::dist_line(q, a, b) * tf.scale < CLEAR.max(F::EPS * 10.0) {
        ctx.skip("too close to tell");
        return Ok(());
    }
    line_case(ctx, &line, tf.of(q), o == 0)?;
    ctx.nontrivial(hash_of(20, &tf, &[a, b, q]));
    ctx.sample(|| format!("{:?} against {:?}", tf.of(q), line));
    Ok(())
}

fn line_case<F: Num>(ctx: &mut Ctx, line: &Line2<F>, q: (f64, f64), on: bool) -> R {
    let pq = pt::<F>(q);
    let got = ctx.call("locate_point_2_line_2", || locate_point_2_line_2(&pq, line))?;
    let want = if on { Point2Line2Location::On } else { Point2Line2Location::NotOn };
    ensure!(got == want, "{:?} is located {:?} on {:?}, expected {:?}", q, got, line, want);
    let is = ctx.call("is_point_2_on_line_2", || is_point_2_on_line_2(&pq, line))?;
    ensure!(is == on, "is_point_2_on_line_2 at {:?} on {:?} is {}", q, line, is);
    ctx.judged(if on { "on" } else { "not on" });
    Ok(())
}

fn locate_line_near_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_line_near::<f64>(ctx, rng)
}

fn locate_line_near_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    ctx.bucket("f32");
    locate_line_near::<f32>(ctx, rng)
}

fn locate_line_near<F: Num>(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (tf, r) = near_tf_of::<F>(rng, 12);
    let (a, b) = distinct(rng, r);
    let line = line_of::<F>(ctx, rng, &tf, a, b)?;
    let t = if F::NAME == "f64" { rng.float(-2.0, 3.0) } else { rng.float(0.0, 1.0) };
    let d = b.sub(a);
    let base = tf.at(a.x as f64 + t * d.x as f64, a.y as f64 + t * d.y as f64);
    let u = unit(&tf, d);
    let (e, on) = displacement_of::<F>(rng);
    let e = if rng.chance(1, 2) { e } else { -e };
    line_case(ctx, &line, (base.0 - u.1 * e, base.1 + u.0 * e), on)?;
    ctx.bucket(&format!("displaced by {:e}", e.abs()));
    ctx.nontrivial(hash_of(21, &tf, &[a, b]) ^ t.to_bits() ^ e.to_bits());
    Ok(())
}

// ----------------------------------------------------------------------- ray

fn locate_ray<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let (a, b) = distinct(rng, r);
    let d = b.sub(a);
    let q = if rng.chance(1, 3) {
        let g = gcd(d.x, d.y);
        let k = rng.range(-2 * g, 3 * g);
        a.add(p(d.x / g * k, d.y / g * k))
    } else {
        point_near(rng, r, &[a, b])
    };
    let dir = tf.dir(d);
    let k = *rng.pick(&[1.0, 0.5, 64.0]);
    let ray = ctx.call("Ray2::new", || Ray2::new(lp::<F>(&tf, a), vc::<F>((dir.0 * k, dir.1 * k))))?;
    let o = orient(a, b, q);
    if o != 0 && lat::dist_line(q, a, b) * tf.scale < CLEAR {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let want = match sign(o) {
        1 => Point2Ray2Location::Left,
        -1 => Point2Ray2Location::Right,
        _ if d.dot(q.sub(a)) >= 0 => Point2Ray2Location::On,
        _ => Point2Ray2Location::Collinear,
    };
    ray_case::<F>(ctx, &ray, tf.of(q), want)?;
    if q == a {
        ctx.bucket("at the origin");
    }
    ctx.nontrivial(hash_of(22, &tf, &[a, b, q]));
    ctx.sample(|| format!("{} {:?} against the ray from {:?} towards {:?}", F::NAME, tf.of(q), tf.of(a), tf.of(b)));
    Ok(())
}

fn ray_case<F: Num>(ctx: &mut Ctx, ray: &Ray2<F>, q: (f64, f64), want: Point2Ray2Location) -> R {
    let pq = pt::<F>(q);
    let got = ctx.call("locate_point_2_ray_2", || locate_point_2_ray_2(&pq, ray))?;
    ensure!(
        got == want,
        "{}: {:?} is located {:?} at the ray from {:?} along {:?}, expected {:?}",
        F::NAME,
        q,
        got,
        ray.origin(),
        ray.direction(),
        want
    );
    let is = ctx.call("is_point_2_on_ray_2", || is_point_2_on_ray_2(&pq, ray))?;
    ensure!(is == (want == Point2Ray2Location::On), "is_point_2_on_ray_2 at {:?} is {} but it is {:?}", q, is, want);
    ctx.judged(match want {
        Point2Ray2Location::On => "on",
        Point2Ray2Location::Left => "left",
        Point2Ray2Location::Right => "right",
        Point2Ray2Location::Collinear => "collinear, behind",
    });
    Ok(())
}

fn locate_ray_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 8, 30]);
    let tf = Tf::any(rng, r, 1000.0);
    locate_ray::<f64>(ctx, rng, tf, r)
}

fn locate_ray_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 32);
    locate_ray::<f64>(ctx, rng, tf, 8)
}

fn locate_ray_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_ray::<f32>(ctx, rng, Tf::identity(), 2)
}

fn locate_ray_near_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_ray_near::<f64>(ctx, rng)
}

fn locate_ray_near_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_ray_near::<f32>(ctx, rng)
}

fn locate_ray_near<F: Num>(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (tf, r) = near_tf_of::<F>(rng, 12);
    let (a, b) = distinct(rng, r);
    let d = b.sub(a);
    let u = unit(&tf, d);
    let ray = Ray2::new(lp::<F>(&tf, a), vc::<F>(tf.dir(d)));
    let (e, on) = displacement_of::<F>(rng);
    let o = tf.of(a);
    if rng.chance(1, 3) {
        // Behind the origin.
        let want = if on { Point2Ray2Location::On } else { Point2Ray2Location::Collinear };
        ray_case::<F>(ctx, &ray, (o.0 - u.0 * e, o.1 - u.1 * e), want)?;
    } else {
        let t = rng.float(0.1, if F::NAME == "f64" { 30.0 } else { 1.0 });
        let s = if rng.chance(1, 2) { 1.0 } else { -1.0 };
        let want = if on {
            Point2Ray2Location::On
        } else if s > 0.0 {
            Point2Ray2Location::Left
        } else {
            Point2Ray2Location::Right
        };
        let q = (o.0 + u.0 * t - u.1 * e * s, o.1 + u.1 * t + u.0 * e * s);
        ray_case::<F>(ctx, &ray, q, want)?;
    }
    ctx.bucket(&format!("displaced by {:e}", e));
    ctx.nontrivial(hash_of(23, &tf, &[a, b]) ^ e.to_bits());
    Ok(())
}

// ------------------------------------------------------------------- segment

fn locate_segment<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let a = point(rng, r);
    let b = point_near(rng, r, &[a]);
    let d = b.sub(a);
    let q = if rng.chance(1, 3) && a != b {
        let g = gcd(d.x, d.y);
        let k = rng.range(-1.max(-g), 2 * g);
        a.add(p(d.x / g * k, d.y / g * k))
    } else {
        point_near(rng, r, &[a, b])
    };
    let s = seg::<F>(&tf, a, b);
    let on = on_segment(q, a, b);
    let gap = if a == b { q.sub(a).len() } else { lat::dist_line(q, a, b) };
    if !on && gap != 0.0 && gap * tf.scale < CLEAR {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let want = if on {
        Some(Point2Segment2Location::On)
    } else if a == b {
        None
    } else {
        Some(match sign(orient(a, b, q)) {
            1 => Point2Segment2Location::Left,
            -1 => Point2Segment2Location::Right,
            _ => Point2Segment2Location::Collinear,
        })
    };
    segment_case::<F>(ctx, &s, tf.of(q), want)?;
    ctx.nontrivial(hash_of(24, &tf, &[a, b, q]));
    ctx.sample(|| format!("{} {:?} against {:?}", F::NAME, tf.of(q), s));
    Ok(())
}

/// `None` expects anything but On: a single point has no sides.
fn segment_case<F: Num>(
    ctx: &mut Ctx,
    s: &LineSegment2<F>,
    q: (f64, f64),
    want: Option<Point2Segment2Location>,
) -> R {
    let pq = pt::<F>(q);
    let got = ctx.call("locate_point_2_line_segment_2", || locate_point_2_line_segment_2(&pq, s))?;
    match want {
        Some(w) => ensure!(got == w, "{}: {:?} is located {:?} at {:?}, expected {:?}", F::NAME, q, got, s, w),
        None => ensure!(
            got != Point2Segment2Location::On,
            "{}: {:?} is located on the single point {:?}",
            F::NAME,
            q,
            s
        ),
    }
    let is = ctx.call("is_point_2_on_line_segment_2", || is_point_2_on_line_segment_2(&pq, s))?;
    ensure!(
        is == (got == Point2Segment2Location::On),
        "is_point_2_on_line_segment_2 at {:?}, {:?} is {} but the location is {:?}",
        q,
        s,
        is,
        got
    );
    ctx.judged(match want {
        Some(Point2Segment2Location::On) => "on",
        Some(Point2Segment2Location::Left) => "left",
        Some(Point2Segment2Location::Right) => "right",
        Some(Point2Segment2Location::Collinear) => "collinear, beyond an end",
        None => "off a single point",
    });
    Ok(())
}

fn locate_segment_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 8, 32, 400]);
    let tf = Tf::any(rng, r, 1000.0);
    locate_segment::<f64>(ctx, rng, tf, r)
}

fn locate_segment_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 32);
    locate_segment::<f64>(ctx, rng, tf, 8)
}

fn locate_segment_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_segment::<f32>(ctx, rng, Tf::identity(), 3)
}

fn locate_segment_near_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_segment_near::<f64>(ctx, rng)
}

fn locate_segment_near_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_segment_near::<f32>(ctx, rng)
}

fn locate_segment_near<F: Num>(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (tf, r) = near_tf_of::<F>(rng, 20);
    let (a, b) = distinct(rng, r);
    let d = b.sub(a);
    let u = unit(&tf, d);
    let s = seg::<F>(&tf, a, b);
    let (e, on) = displacement_of::<F>(rng);
    match rng.below(3) {
        0 => {
            let (o, k) = if rng.chance(1, 2) { (tf.of(a), -1.0) } else { (tf.of(b), 1.0) };
            let want = if on { Point2Segment2Location::On } else { Point2Segment2Location::Collinear };
            segment_case::<F>(ctx, &s, (o.0 + k * u.0 * e, o.1 + k * u.1 * e), Some(want))?;
            ctx.bucket("just beyond an end");
        }
        _ => {
            let t = rng.float(-0.5, 1.5);
            let k = if rng.chance(1, 2) { 1.0 } else { -1.0 };
            let o = tf.at(a.x as f64 + t * d.x as f64, a.y as f64 + t * d.y as f64);
            let inside = t > 0.001 && t < 0.999;
            let outside = !(-0.001..=1.001).contains(&t);
            if on && !inside && !outside {
                ctx.skip("too close to an end");
                return Ok(());
            }
            let want = if on {
                if inside { Point2Segment2Location::On } else { Point2Segment2Location::Collinear }
            } else if k > 0.0 {
                Point2Segment2Location::Left
            } else {
                Point2Segment2Location::Right
            };
            segment_case::<F>(ctx, &s, (o.0 - u.1 * e * k, o.1 + u.0 * e * k), Some(want))?;
            ctx.bucket("just beside it");
        }
    }
    ctx.bucket(&format!("displaced by {:e}", e));
    ctx.nontrivial(hash_of(25, &tf, &[a, b]) ^ e.to_bits());
    Ok(())
}

// ------------------------------------------------------------------ triangle

fn locate_triangle<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let a = point(rng, r);
    let b = point_near(rng, r, &[a]);
    let c = point_near(rng, r, &[a, b]);
    let q = triangle_query(rng, r, a, b, c);
    let t = Triangle2::new(lp::<F>(&tf, a), lp::<F>(&tf, b), lp::<F>(&tf, c));
    let v = [a, b, c];
    let mut want = Side::Outside;
    if (0..3).any(|i| on_segment(q, v[i], v[(i + 1) % 3])) {
        want = Side::On;
    } else {
        let s: Vec<i32> = (0..3).map(|i| sign(orient(v[i], v[(i + 1) % 3], q))).collect();
        if s[0] != 0 && s[0] == s[1] && s[1] == s[2] {
            want = Side::Inside;
        }
    }
    let gap = (0..3).map(|i| dist_segment(q, v[i], v[(i + 1) % 3])).fold(f64::MAX, f64::min) * tf.scale;
    if want != Side::On && gap < CLEAR {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let pq = lp::<F>(&tf, q);
    let got = ctx.call("locate_point_2_triangle_2", || locate_point_2_triangle_2(&pq, &t))?;
    let w = match want {
        Side::On => Point2Triangle2Location::On,
        Side::Inside => Point2Triangle2Location::Inside,
        Side::Outside => Point2Triangle2Location::Outside,
    };
    ensure!(
        got == w,
        "{}: {:?} is located {:?} in the triangle {:?} {:?} {:?} (seen through {:?}), expected {:?}",
        F::NAME, q, got, a, b, c, tf, w
    );
    // Whichever way round the same triangle is given.
    let mut other = t;
    let turned = ctx.call("Triangle2::reverse_orientation", || {
        other.reverse_orientation();
        locate_point_2_triangle_2(&pq, &other)
    })?;
    ensure!(
        turned == w,
        "{}: {:?} is located {:?} in the triangle {:?} {:?} {:?} (seen through {:?}) after it was reversed, expected {:?}",
        F::NAME, q, turned, a, b, c, tf, w
    );
    ctx.judged(&format!("{}{:?}", if orient(a, b, c) == 0 { "flat triangle: " } else { "" }, want));
    if orient(a, b, c) != 0 {
        ctx.bucket(if orient(a, b, c) > 0 { "counterclockwise" } else { "clockwise" });
        ctx.nontrivial(hash_of(26, &tf, &[a, b, c, q]));
    }
    ctx.sample(|| format!("{} {:?} in {:?} {:?} {:?} through {:?}", F::NAME, q, a, b, c, tf));
    Ok(())
}

fn triangle_query(rng: &mut Rng, r: i64, a: P, b: P, c: P) -> P {
    if rng.chance(1, 6) {
        return p((a.x + b.x + c.x) / 3, (a.y + b.y + c.y) / 3);
    }
    if rng.chance(1, 3) {
        // On the line of an edge, between lattice points of it.
        let (s, t) = *rng.pick(&[(a, b), (b, c), (c, a)]);
        let d = t.sub(s);
        let g = gcd(d.x, d.y);
        if g > 0 {
            let k = rng.range(-1, g + 1);
            return s.add(p(d.x / g * k, d.y / g * k));
        }
    }
    point_near(rng, r, &[a, b, c])
}

fn locate_triangle_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 8, 32, 200]);
    let tf = Tf::any(rng, r, 1000.0);
    locate_triangle::<f64>(ctx, rng, tf, r)
}

fn locate_triangle_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 32);
    locate_triangle::<f64>(ctx, rng, tf, 8)
}

fn locate_triangle_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_triangle::<f32>(ctx, rng, Tf::identity(), 3)
}

/// A point just inside, on or just outside an edge, away from the corners.
fn locate_triangle_near_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_triangle_near::<f64>(ctx, rng)
}

fn locate_triangle_near_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    locate_triangle_near::<f32>(ctx, rng)
}

fn locate_triangle_near<F: Num>(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (tf, r) = near_tf_of::<F>(rng, 12);
    let (a, b) = distinct(rng, r);
    let c = point(rng, r);
    let o = orient(a, b, c);
    if o.abs() < if r > 1 { 4 } else { 1 } {
        ctx.skip("flat");
        return Ok(());
    }
    let mut v = [a, b, c];
    v.rotate_left(rng.usize(0, 2));
    let t = Triangle2::new(lp::<F>(&tf, v[0]), lp::<F>(&tf, v[1]), lp::<F>(&tf, v[2]));
    let (e, on) = displacement_of::<F>(rng);
    if rng.chance(1, 3) {
        // Just beyond a corner: half way round it, or along an edge. The
        // tolerance need not be round there.
        let e = if e == 9e-11 { 5e-11 } else if e == 1.2e-10 { 2e-10 } else { e };
        let (u, w) = (unit(&tf, b.sub(a)), unit(&tf, c.sub(a)));
        let half = rng.chance(1, 2) || u.0 * w.0 + u.1 * w.1 < 0.0;
        let out = if half { (u.0 + w.0, u.1 + w.1) } else { u };
        let l = out.0.hypot(out.1);
        let m = tf.of(a);
        let q = (m.0 - e * out.0 / l, m.1 - e * out.1 / l);
        let want = if on { Point2Triangle2Location::On } else { Point2Triangle2Location::Outside };
        let got = ctx.call("locate_point_2_triangle_2", || locate_point_2_triangle_2(&pt::<F>(q), &t))?;
        ensure!(got == want, "{:?}, {:e} beyond the corner {:?} of {:?}, is located {:?}, expected {:?}", q, e, a, t, got, want);
        ctx.judged(&format!("near a corner: {:?}", want));
        ctx.nontrivial(hash_of(27, &tf, &v) ^ e.to_bits());
        return Ok(());
    }
    let inward = rng.chance(1, 2);
    let k = if (o > 0) == inward { e } else { -e };
    let d = b.sub(a);
    let u = unit(&tf, d);
    let s = rng.float(0.2, 0.8);
    let m = tf.at(a.x as f64 + s * d.x as f64, a.y as f64 + s * d.y as f64);
    let q = (m.0 - u.1 * k, m.1 + u.0 * k);
    let want = if on {
        Point2Triangle2Location::On
    } else if inward {
        Point2Triangle2Location::Inside
    } else {
        Point2Triangle2Location::Outside
    };
    let got = ctx.call("locate_point_2_triangle_2", || locate_point_2_triangle_2(&pt::<F>(q), &t))?;
    ensure!(got == want, "{:?}, {:e} off the edge {:?} {:?} of {:?}, is located {:?}, expected {:?}", q, e, a, b, t, got, want);
    ctx.judged(&format!("near an edge: {:?}", want));
    ctx.bucket(&format!("displaced by {:e}", e));
    ctx.nontrivial(hash_of(27, &tf, &v) ^ s.to_bits());
    Ok(())
}

// ------------------------------------------------------------------- polygon

fn polygon_of<F: Num>(tf: &Tf, v: &[P]) -> Polygon2<F> {
    Polygon2::new(v.iter().map(|q| lp(tf, *q)).collect())
}

fn polygon_query<F: Num>(ctx: &mut Ctx, poly: &Polygon2<F>, q: (f64, f64), want: Side, what: &dyn Fn() -> String) -> R {
    let pq = pt::<F>(q);
    let got = ctx.call("locate_point_2_polygon_2", || locate_point_2_polygon_2(&pq, poly))?;
    let w = match want {
        Side::On => Point2Polygon2Location::On,
        Side::Inside => Point2Polygon2Location::Inside,
        Side::Outside => Point2Polygon2Location::Outside,
    };
    ensure!(got == w, "{:?} is located {:?}, expected {:?}: {}", q, got, w, what());
    let on = ctx.call("is_point_2_on_polygon_2", || is_point_2_on_polygon_2(&pq, poly))?;
    let inside = ctx.call("is_point_2_inside_polygon_2", || is_point_2_inside_polygon_2(&pq, poly))?;
    let outside = ctx.call("is_point_2_outside_polygon_2", || is_point_2_outside_polygon_2(&pq, poly))?;
    ensure!(
        (on, inside, outside) == (want == Side::On, want == Side::Inside, want == Side::Outside),
        "{:?} is {:?} but on/inside/outside answer {}/{}/{}: {}",
        q, want, on, inside, outside, what()
    );
    ctx.judged(&format!("{:?}", want));
    Ok(())
}

fn locate_polygon(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 6, 9, 14, 25]);
    let r = *rng.pick(&[3, 6, 12, 30]);
    locate_polygon_of::<f64>(ctx, rng, n, r, None)
}

fn locate_polygon_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 6, 9, 14, 25]);
    let r = *rng.pick(&[3, 6, 12]);
    let e = rng.range(-7, 4) as i32;
    let tf = Tf::scaled((2f64).powi(e));
    ctx.bucket("f32");
    locate_polygon_of::<f32>(ctx, rng, n, r, Some(tf))
}

fn locate_polygon_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3, 4, 6, 9, 14]);
    let tf = Tf::far(rng, 32);
    locate_polygon_of::<f64>(ctx, rng, n, 6, Some(tf))
}

fn locate_polygon_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[50, 90, 90, 160, 160, 300, 300, 700]);
    ctx.bucket("many vertices");
    locate_polygon_of::<f64>(ctx, rng, n, 60, None)
}

fn locate_polygon_huge(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, family) = lat::huge_outline(rng);
    let tf = Tf::identity();
    let poly = polygon_of::<f64>(&tf, &v);
    let wide = v.iter().map(|q| q.x.abs()).max().unwrap();
    let high = v.iter().map(|q| q.y.abs()).max().unwrap();
    for i in 0..12 {
        let k = rng.usize(0, v.len() - 1);
        let (s, t) = (v[k], v[(k + 1) % v.len()]);
        let q = match i % 4 {
            0 => p(rng.range(-wide, wide), rng.range(-high, high)),
            1 => p(rng.range(-wide - 1, wide + 1), s.y),
            2 => s.add(p(rng.range(-1, 1), rng.range(-1, 1))),
            _ => p(s.x, (s.y + t.y) / 2),
        };
        let side = lat::in_polygon(q, &v);
        let gap = (0..v.len()).map(|i| dist_segment(q, v[i], v[(i + 1) % v.len()])).fold(f64::MAX, f64::min);
        if side != Side::On && gap < CLEAR {
            ctx.skip("too close to tell");
            continue;
        }
        polygon_query(ctx, &poly, tf.of(q), side, &|| format!("lattice point {:?} of {} of {} vertices from {:?}", q, family, v.len(), v[0]))?;
        ctx.nontrivial(hash_of(114, &tf, &[v[0], q]) ^ (v.len() as u64) << 32);
    }
    ctx.bucket("huge");
    ctx.note_max("vertices", v.len() as u64);
    Ok(())
}

fn locate_polygon_of<F: Num>(ctx: &mut Ctx, rng: &mut Rng, n: usize, r: i64, far: Option<Tf>) -> R {
    let (v, family) = lat::simple_polygon(rng, n, r);
    let extent = v.iter().map(|q| q.x.abs().max(q.y.abs())).max().unwrap();
    let tf = match far {
        Some(tf) => tf,
        None if extent > 64 => Tf::identity(),
        None => Tf::any(rng, extent.max(1), 1000.0),
    };
    let clear = if F::NAME == "f64" { CLEAR } else { 1e-4 };
    let poly = polygon_of::<F>(&tf, &v);
    for i in 0..12 {
        // Levels with vertices and edges are where counting crossings goes wrong.
        let q = match i % 4 {
            0 => point_near(rng, extent, &v),
            1 => p(rng.range(-extent - 1, extent + 1), rng.pick(&v).y),
            2 => {
                let k = rng.usize(0, v.len() - 1);
                let (s, t) = (v[k], v[(k + 1) % v.len()]);
                let d = t.sub(s);
                let g = gcd(d.x, d.y).max(1);
                let j = rng.range(-1, g + 1);
                s.add(p(d.x / g * j, d.y / g * j))
            }
            _ => point(rng, extent + 2),
        };
        let side = lat::in_polygon(q, &v);
        let gap = (0..v.len()).map(|i| dist_segment(q, v[i], v[(i + 1) % v.len()])).fold(f64::MAX, f64::min);
        if side != Side::On && gap * tf.scale < clear {
            ctx.skip("too close to tell");
            continue;
        }
        if F::NAME == "f32" && side == Side::On && !v.contains(&q) && extent as f64 * tf.scale > 3.0 {
            ctx.skip("within an edge, up to the rounding of single precision");
            continue;
        }
        polygon_query(ctx, &poly, tf.of(q), side, &|| format!("lattice point {:?} of {:?} through {:?}", q, v, tf))?;
        if side != Side::On && v.iter().any(|w| w.y == q.y) {
            ctx.bucket("level with a vertex");
        }
        ctx.nontrivial(hash_of(28, &tf, &[v[0], q]) ^ (v.len() as u64) << 32);
    }
    ctx.bucket(&format!("outline: {}", family));
    ctx.bucket(if lat::area2(&v) > 0 { "counterclockwise" } else { "clockwise" });
    ctx.note_max("vertices", v.len() as u64);
    ctx.sample(|| format!("{} {:?} through {:?}", family, v, tf));
    Ok(())
}

fn locate_polygon_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, _) = lat::simple_polygon(rng, 8, 10);
    let extent = v.iter().map(|q| q.x.abs().max(q.y.abs())).max().unwrap();
    let tf = if extent > 64 { Tf::identity() } else { near_tf(rng) };
    let poly = polygon_of(&tf, &v);
    let n = v.len();
    for _ in 0..4 {
        let i = rng.usize(0, n - 1);
        if rng.chance(1, 3) {
            polygon_corner(ctx, rng, &tf, &v, i, &poly)?;
            continue;
        }
        let (a, b) = (v[i], v[(i + 1) % n]);
        let d = b.sub(a);
        let s = rng.float(0.2, 0.8);
        let m = (a.x as f64 + s * d.x as f64, a.y as f64 + s * d.y as f64);
        // The other edges stay well away.
        let clear = (0..n)
            .filter(|j| *j != i)
            .map(|j| dist_f(m, v[j], v[(j + 1) % n]))
            .fold(f64::MAX, f64::min)
            * tf.scale;
        if clear < 0.01 {
            ctx.skip("another edge is near");
            continue;
        }
        let u = unit(&tf, d);
        let (e, on) = displacement_sharp(rng);
        let inward = rng.chance(1, 2);
        let k = if (lat::area2(&v) > 0) == inward { e } else { -e };
        let m = tf.at(m.0, m.1);
        let q = (m.0 - u.1 * k, m.1 + u.0 * k);
        let want = if on {
            Side::On
        } else if inward {
            Side::Inside
        } else {
            Side::Outside
        };
        polygon_query(ctx, &poly, q, want, &|| format!("{:e} off the edge {:?} {:?} of {:?} through {:?}", e, a, b, v, tf))?;
        ctx.bucket(&format!("displaced by {:e}", e));
        ctx.nontrivial(hash_of(29, &tf, &[a, b]) ^ s.to_bits());
    }
    Ok(())
}

/// A point just off a corner, half way between its edges on either side.
fn polygon_corner(ctx: &mut Ctx, rng: &mut Rng, tf: &Tf, v: &[P], i: usize, poly: &Polygon2<f64>) -> R {
    let n = v.len();
    let (a, m, b) = (v[(i + n - 1) % n], v[i], v[(i + 1) % n]);
    let clear = (0..n)
        .filter(|j| *j != i && (*j + 1) % n != i)
        .map(|j| dist_f((m.x as f64, m.y as f64), v[j], v[(j + 1) % n]))
        .fold(f64::MAX, f64::min)
        * tf.scale;
    let (u, w) = (unit(tf, a.sub(m)), unit(tf, b.sub(m)));
    let half = (u.0 + w.0, u.1 + w.1);
    let l = half.0.hypot(half.1);
    if clear < 0.01 || l < 0.1 {
        ctx.skip("another edge is near, or no corner");
        return Ok(());
    }
    let (e, on) = displacement(rng);
    // Towards the narrower side the edges are nearer than the corner.
    let narrow = rng.chance(1, 2);
    let sine = (1.0 - l * l / 4.0).max(0.0).sqrt();
    if narrow && !on && e * sine < 2e-10 {
        ctx.skip("another edge is near, or no corner");
        return Ok(());
    }
    let k = if narrow { e / l } else { -e / l };
    let o = tf.of(m);
    let q = (o.0 + k * half.0, o.1 + k * half.1);
    let convex = (orient(a, m, b) > 0) == (lat::area2(v) > 0);
    let want = if on {
        Side::On
    } else if convex == narrow {
        Side::Inside
    } else {
        Side::Outside
    };
    polygon_query(ctx, poly, q, want, &|| format!("{:e} off the corner {:?} of {:?} through {:?}", k * l, m, v, tf))?;
    ctx.bucket(if convex { "just off a convex corner" } else { "just off a reflex corner" });
    ctx.nontrivial(hash_of(36, tf, &[a, m, b]) ^ q.0.to_bits());
    Ok(())
}

fn dist_f(q: (f64, f64), a: P, b: P) -> f64 {
    let (ax, ay, dx, dy) = (a.x as f64, a.y as f64, (b.x - a.x) as f64, (b.y - a.y) as f64);
    let t = (((q.0 - ax) * dx + (q.1 - ay) * dy) / (dx * dx + dy * dy)).clamp(0.0, 1.0);
    dist(q, (ax + t * dx, ay + t * dy))
}

// -------------------------------------------------------------------- circle

/// A centre and a squared radius; often an integer radius or one that passes
/// through lattice points.
pub fn circle(rng: &mut Rng, r: i64) -> (P, i64) {
    let c = point(rng, r);
    let n2 = match rng.below(4) {
        0 => {
            let k = rng.range(1, r.max(1));
            k * k
        }
        1 => rng.range(1, r * r + 1),
        2 => {
            let k = rng.range(1, (r / 5).max(1));
            25 * k * k
        }
        _ => {
            let v = point(rng, r);
            (v.n2() as i64).max(1)
        }
    };
    (c, n2)
}

/// Lattice vectors of this squared length.
pub fn vectors_of(n2: i64) -> Vec<P> {
    let mut v = Vec::new();
    let mut x = 0;
    while x * x <= n2 {
        let rest = n2 - x * x;
        let mut y = (rest as f64).sqrt() as i64;
        while y * y > rest {
            y -= 1;
        }
        while (y + 1) * (y + 1) <= rest {
            y += 1;
        }
        if y * y == rest {
            for q in [p(x, y), p(-x, y), p(x, -y), p(-x, -y)] {
                if !v.contains(&q) {
                    v.push(q);
                }
            }
        }
        x += 1;
    }
    v
}

fn locate_circle(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 8, 30]);
    let tf = Tf::any(rng, r, 500.0);
    locate_circle_at::<f64>(ctx, rng, tf, r)
}

fn locate_circle_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 5]);
    let e = rng.range(-3, 0) as i32;
    ctx.bucket("f32");
    locate_circle_at::<f32>(ctx, rng, Tf::scaled((2f64).powi(e)), r)
}

/// Rounded points of single precision, judged by where they really are.
fn locate_circle_f32_rounded(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let round = |v: f64| v as f32 as f64;
    let size = *rng.pick(&[0.05, 0.3, 1.0, 1.9]);
    let c = (round(rng.float(-size, size)), round(rng.float(-size, size)));
    let radius = round(size * rng.float(0.05, 1.0));
    let a = if rng.chance(1, 4) { rng.range(0, 8) as f64 * TAU / 8.0 } else { rng.float(0.0, TAU) };
    let e = *rng.pick(&[0.0, 0.0, 1e-7, 3e-7, 5e-7, 2e-6, 3e-6, 5e-6, 1e-5, 1e-4]) * if rng.chance(1, 2) { 1.0 } else { -1.0 };
    let q = (round(c.0 + (radius + e) * a.cos()), round(c.1 + (radius + e) * a.sin()));
    let off = dist(q, c) - radius;
    // Two differences, the length and its difference from the radius are rounded.
    let slack = (2f64).powi(-24) * 3.0 * (radius + off.abs());
    if (off.abs() - 1e-6).abs() < slack {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let want = if off.abs() < 1e-6 {
        Point2Circle2Location::On
    } else if off < 0.0 {
        Point2Circle2Location::Inside
    } else {
        Point2Circle2Location::Outside
    };
    circle_case::<f32>(ctx, c, radius, q, want)?;
    ctx.bucket(if off.abs() < 1e-6 { "f32, rounded off the circle" } else { "f32, displaced from the circle" });
    ctx.nontrivial(a.to_bits() ^ c.0.to_bits() ^ e.to_bits());
    Ok(())
}

fn locate_circle_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 32);
    locate_circle_at::<f64>(ctx, rng, tf, 8)
}

fn locate_circle_at<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let (c, n2) = circle(rng, r);
    let on = vectors_of(n2);
    let q = if !on.is_empty() && rng.chance(1, 3) {
        c.add(*rng.pick(&on))
    } else if rng.chance(1, 3) {
        c.add(point(rng, (n2 as f64).sqrt() as i64 + 1))
    } else {
        point_near(rng, r, &[c])
    };
    let radius = (n2 as f64).sqrt() * tf.scale;
    let d2 = q.sub(c).n2() as i64;
    let gap = ((d2 as f64).sqrt() - (n2 as f64).sqrt()).abs() * tf.scale;
    if d2 != n2 && gap < if F::NAME == "f64" { CLEAR } else { 1e-4 } {
        ctx.skip("too close to tell");
        return Ok(());
    }
    let want = match d2.cmp(&n2) {
        std::cmp::Ordering::Equal => Point2Circle2Location::On,
        std::cmp::Ordering::Less => Point2Circle2Location::Inside,
        std::cmp::Ordering::Greater => Point2Circle2Location::Outside,
    };
    circle_case::<F>(ctx, tf.of(c), radius, tf.of(q), want)?;
    ctx.nontrivial(hash_of(30, &tf, &[c, q]) ^ n2 as u64);
    ctx.sample(|| format!("{:?} against centre {:?} radius {:?}", tf.of(q), tf.of(c), radius));
    Ok(())
}

fn circle_case<F: Num>(ctx: &mut Ctx, c: (f64, f64), radius: f64, q: (f64, f64), want: Point2Circle2Location) -> R {
    let circle = CircleSegment2::new(pt::<F>(c), F::n(radius));
    let pq = pt::<F>(q);
    let got = ctx.call("locate_point_2_circle_segment_2", || locate_point_2_circle_segment_2(&pq, &circle))?;
    ensure!(got == want, "{:?} is located {:?} at {:?}, expected {:?}", q, got, circle, want);
    let is = ctx.call("is_point_2_on_circle_segment_2", || is_point_2_on_circle_segment_2(&pq, &circle))?;
    ensure!(is == (want == Point2Circle2Location::On), "is_point_2_on_circle_segment_2 at {:?}, {:?} is {}", q, circle, is);
    ctx.judged(&format!("{:?}", want));
    Ok(())
}

fn locate_circle_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let c = (rng.float(-20.0, 20.0), rng.float(-20.0, 20.0));
    let radius = *rng.pick(&[1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.5, 1.0, 3.7, 40.0, 2e3]);
    let a = if rng.chance(1, 4) { rng.range(0, 8) as f64 * TAU / 8.0 } else { rng.float(0.0, TAU) };
    let (e, on) = displacement_sharp(rng);
    let out = e > radius || rng.chance(1, 2);
    let d = if out { radius + e } else { radius - e };
    let want = if on {
        Point2Circle2Location::On
    } else if out {
        Point2Circle2Location::Outside
    } else {
        Point2Circle2Location::Inside
    };
    circle_case::<f64>(ctx, c, radius, (c.0 + d * a.cos(), c.1 + d * a.sin()), want)?;
    if rng.chance(1, 8) {
        // A circle without extent is its centre.
        let on = if e < 1e-10 { Point2Circle2Location::On } else { Point2Circle2Location::Outside };
        circle_case::<f64>(ctx, c, 0.0, (c.0 + e * a.cos(), c.1 + e * a.sin()), on)?;
        ctx.bucket("radius 0");
    }
    ctx.bucket(&format!("displaced by {:e}", e));
    ctx.bucket(&format!("radius {:e}", radius));
    ctx.nontrivial(a.to_bits() ^ c.0.to_bits() ^ e.to_bits());
    Ok(())
}

// ----------------------------------------------------------------------- arc

pub fn direction(rng: &mut Rng, r: i64) -> P {
    loop {
        let q = if rng.chance(1, 3) {
            *rng.pick(&[p(1, 0), p(0, 1), p(-1, 0), p(0, -1), p(1, 1), p(-1, 1), p(-1, -1), p(1, -1)])
        } else {
            point(rng, r)
        };
        if q != p(0, 0) {
            return q;
        }
    }
}

pub fn same_direction(a: P, b: P) -> bool {
    a.cross(b) == 0 && a.dot(b) > 0
}

fn arc_case(ctx: &mut Ctx, arc: &ArcSegment2<f64>, q: (f64, f64), on: bool, what: &str) -> R {
    let pq = pt::<f64>(q);
    let got = ctx.call("locate_point_2_arc_segment_2", || locate_point_2_arc_segment_2(&pq, arc))?;
    let want = if on { Point2ArcSegment2Location::On } else { Point2ArcSegment2Location::NotOn };
    ensure!(got == want, "{:?} ({}) is located {:?} at {:?}, expected {:?}", q, what, got, arc, want);
    let is = ctx.call("is_point_2_on_arc_segment_2", || is_point_2_on_arc_segment_2(&pq, arc))?;
    ensure!(is == on, "is_point_2_on_arc_segment_2 at {:?} ({}), {:?} is {}", q, what, arc, is);
    ctx.judged(what);
    Ok(())
}

fn locate_arc(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = if rng.chance(1, 2) { Tf::rigid(rng) } else { Tf::identity() };
    let (u, mut w) = (direction(rng, 6), direction(rng, 6));
    if rng.chance(1, 10) {
        w = u;
    }
    let c = (rng.float(-20.0, 20.0), rng.float(-20.0, 20.0));
    let radius = *rng.pick(&[0.25, 1.0, 1.5, 7.3, 30.0]);
    let s = tf.angle(u) + TAU * rng.range(-1, 1) as f64;
    let t = tf.angle(w) + TAU * rng.range(-1, 1) as f64;
    let arc = ctx.call("ArcSegment2::new", || ArcSegment2::new(CircleSegment2::new(pt::<f64>(c), radius), s, t))?;
    for _ in 0..4 {
        let v = match rng.below(6) {
            0 => u,
            1 => w,
            2 => p(-u.x, -u.y),
            3 => u.add(w),
            _ => direction(rng, 6),
        };
        if v == p(0, 0) {
            continue;
        }
        let a = tf.angle(v);
        let inside = lat::in_arc(v, u, w);
        let off = rng.chance(1, 4);
        let f = if off { *rng.pick(&[0.0, 0.5, 0.999, 1.001, 2.0]) } else { 1.0 };
        let q = (c.0 + radius * f * a.cos(), c.1 + radius * f * a.sin());
        let end = same_direction(v, u) || same_direction(v, w);
        let what = if off {
            "off the circle"
        } else if same_direction(u, w) {
            "on a full turn"
        } else if end {
            "at an end"
        } else if inside {
            "on the arc"
        } else {
            "on the rest of the circle"
        };
        arc_case(ctx, &arc, q, inside && !off, what)?;
    }
    ctx.nontrivial(hash_of(31, &tf, &[u, w]) ^ radius.to_bits());
    ctx.sample(|| format!("{:?}", arc));
    Ok(())
}

/// Just inside and just outside each end, and just off the circle.
fn locate_arc_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let c = (rng.float(-20.0, 20.0), rng.float(-20.0, 20.0));
    let radius = *rng.pick(&[1e-3, 0.01, 0.5, 1.0, 4.3, 30.0, 300.0, 2e3]);
    let s = if rng.chance(1, 3) { rng.range(-4, 8) as f64 * TAU / 8.0 } else { rng.float(-7.0, 12.0) };
    let turn = if rng.chance(1, 3) { rng.range(1, 7) as f64 * TAU / 8.0 } else { rng.float(0.01, TAU - 0.01) };
    let t = s + turn - if rng.chance(1, 3) { TAU } else { 0.0 };
    let arc = ArcSegment2::new(CircleSegment2::new(pt::<f64>(c), radius), s, t);
    let way = rng.below(4);
    let (e, on) = if way == 3 { displacement(rng) } else { displacement_angle(rng) };
    let (a, d, on, what) = match way {
        0 => (s - e, radius, on, "just before the source"),
        1 => (s + turn + e, radius, on, "just after the target"),
        2 => (if rng.chance(1, 2) { s + e } else { s + turn - e }, radius, true, "just within an end"),
        _ => (
            s + turn * rng.float(0.1, 0.9),
            radius + if e > radius || rng.chance(1, 2) { e } else { -e },
            on,
            "just off the circle",
        ),
    };
    arc_case(ctx, &arc, (c.0 + d * a.cos(), c.1 + d * a.sin()), on, what)?;
    ctx.bucket(&format!("displaced by {:e}", e));
    ctx.bucket(&format!("radius {:e}", radius));
    ctx.nontrivial(s.to_bits() ^ turn.to_bits() ^ e.to_bits());
    Ok(())
}

/// Arcs of single precision, at points well within, past or off them.
fn locate_arc_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let round = |v: f64| v as f32 as f64;
    let size = *rng.pick(&[0.3, 1.0, 1.9]);
    let c = (round(rng.float(-size, size)), round(rng.float(-size, size)));
    let radius = round(size * rng.float(0.2, 0.9));
    let s = round(if rng.chance(1, 3) { rng.range(-4, 4) as f64 * TAU / 8.0 } else { rng.float(-6.0, 6.0) });
    let turn = rng.float(0.05, TAU - 0.05);
    let t = round(s + turn - if rng.chance(1, 2) { TAU } else { 0.0 });
    let arc = ArcSegment2::new(CircleSegment2::new(pt::<f32>(c), radius as f32), s as f32, t as f32);
    for _ in 0..4 {
        let (a, d, on, what) = match rng.below(4) {
            0 => (s + turn * rng.float(0.0, 1.0), radius, true, "f32, on the arc"),
            1 => (*rng.pick(&[s, s + turn]), radius, true, "f32, at an end"),
            2 => (s - (TAU - turn) * rng.float(0.02, 0.98), radius, false, "f32, on the rest of the circle"),
            _ => (
                s + turn * rng.float(0.0, 1.0),
                radius + *rng.pick(&[3e-6, -3e-6, 1e-5, -1e-4, 0.01]),
                false,
                "f32, off the circle",
            ),
        };
        let q = pt::<f32>((c.0 + d * a.cos(), c.1 + d * a.sin()));
        let off = dist(xy(&q), c) - radius;
        if (off.abs() < 1e-6) != (d == radius) || (off.abs() - 1e-6).abs() < 3e-7 {
            ctx.skip("rounded too close to tell");
            continue;
        }
        let at = ctx.call("locate_point_2_arc_segment_2", || locate_point_2_arc_segment_2(&q, &arc))?;
        ensure!((at == Point2ArcSegment2Location::On) == on, "{:?} ({}) is located {:?} at {:?}", q, what, at, arc);
        let is = ctx.call("is_point_2_on_arc_segment_2", || is_point_2_on_arc_segment_2(&q, &arc))?;
        ensure!(is == on, "is_point_2_on_arc_segment_2 at {:?} ({}), {:?} is {}", q, what, arc, is);
        ctx.judged(what);
    }
    ctx.nontrivial(s.to_bits() ^ turn.to_bits() ^ c.0.to_bits());
    Ok(())
}

// ---------------------------------------------------------------- projection

fn project_line(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 20]);
    let tf = Tf::some(rng, r, 60.0);
    project_line_of::<f64>(ctx, rng, tf, r, false)
}

fn project_line_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::scaled(*rng.pick(&[0.0625, 0.25, 0.5]));
    project_line_of::<f32>(ctx, rng, tf, 6, false)
}

fn project_line_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 20]);
    project_line_of::<f64>(ctx, rng, Tf::identity(), r, true)
}

fn project_line_of<F: Num>(ctx: &mut Ctx, rng: &mut Rng, mut tf: Tf, r: i64, squeezed: bool) -> R {
    let (mut a, mut b) = distinct(rng, r);
    let mut q = point_near(rng, r, &[a, b]);
    if squeezed {
        tf = lat::squeeze(rng, &mut [&mut a, &mut b, &mut q], 34);
        if a == b {
            ctx.skip("no direction");
            return Ok(());
        }
        ctx.bucket("squeezed");
    }
    let tol = if F::NAME == "f64" { 1e-8 } else { 3e-5 };
    let line = line_of::<F>(ctx, rng, &tf, a, b)?;
    let d = b.sub(a);
    let t = d.dot(q.sub(a)) as f64 / d.n2() as f64;
    let want = tf.at(a.x as f64 + t * d.x as f64, a.y as f64 + t * d.y as f64);
    let pq = lp::<F>(&tf, q);
    let got = xy(&ctx.call("point_2_project_line_2", || point_2_project_line_2(&pq, &line))?);
    ensure!(
        dist(got, want) <= tol,
        "{:?} projects onto {:?} at {:?}, expected {:?}",
        pq, line, got, want
    );
    let twice = ctx.call("point_2_project_line_2", || point_2_project_line_2(&pt::<F>(got), &line))?;
    ensure!(dist(xy(&twice), got) <= tol, "projecting {:?} again onto {:?} moves it to {:?}", got, line, twice);
    ctx.judged(if orient(a, b, q) == 0 {
        "already on the line"
    } else if d.x == 0 {
        "vertical line"
    } else if d.y == 0 {
        "horizontal line"
    } else {
        "oblique line"
    });
    ctx.nontrivial(hash_of(32, &tf, &[a, b, q]));
    ctx.sample(|| format!("{:?} onto {:?}", pq, line));
    Ok(())
}

fn project_segment_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    project_segment_of::<f64>(ctx, rng, Tf::identity(), 20, true)
}

fn project_segment<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    project_segment_of::<F>(ctx, rng, tf, r, false)
}

fn project_segment_of<F: Num>(ctx: &mut Ctx, rng: &mut Rng, mut tf: Tf, r: i64, squeezed: bool) -> R {
    let mut a = point(rng, r);
    let mut b = if rng.chance(1, 12) { a } else { point_near(rng, r, &[a]) };
    let d = b.sub(a);
    let mut q = if rng.chance(1, 3) && a != b {
        // Straight across an end.
        let e = if rng.chance(1, 2) { a } else { b };
        let g = gcd(d.x, d.y);
        let k = rng.range(-3, 3);
        e.add(p(-d.y / g * k, d.x / g * k))
    } else {
        point_near(rng, r, &[a, b])
    };
    if squeezed {
        tf = lat::squeeze(rng, &mut [&mut a, &mut b, &mut q], 34);
        ctx.bucket("squeezed");
    }
    let clear = if squeezed { 2e-10 } else { CLEAR };
    let d = b.sub(a);
    let s = seg::<F>(&tf, a, b);
    let dot = d.dot(q.sub(a));
    let inside = dot >= 0 && dot <= d.n2();
    let (want, class) = if a == b {
        (Some(tf.of(a)), "single point")
    } else if inside {
        let t = dot as f64 / d.n2() as f64;
        let w = tf.at(a.x as f64 + t * d.x as f64, a.y as f64 + t * d.y as f64);
        (Some(w), if dot == 0 || dot == d.n2() { "across an end" } else { "between the ends" })
    } else {
        let over = if dot < 0 { -dot } else { dot - d.n2() } as f64 / d.len() * tf.scale;
        if over < clear {
            ctx.skip("too close to tell");
            return Ok(());
        }
        (None, "beyond the ends")
    };
    segment_projection::<F>(ctx, &s, tf.of(q), want, if F::NAME == "f64" { 1e-9 + tf.blur() } else { 1e-5 })?;
    ctx.judged(class);
    ctx.nontrivial(hash_of(33, &tf, &[a, b, q]));
    ctx.sample(|| format!("{} {:?} onto {:?}", F::NAME, tf.of(q), s));
    Ok(())
}

fn segment_projection<F: Num>(
    ctx: &mut Ctx,
    s: &LineSegment2<F>,
    q: (f64, f64),
    want: Option<(f64, f64)>,
    tol: f64,
) -> R {
    let got = ctx
        .call("point_2_project_line_segment_2", || point_2_project_line_segment_2(&pt::<F>(q), s))?
        .map(|w| xy(&w));
    let ok = match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => dist(g, w) <= tol,
        _ => false,
    };
    ensure!(ok, "{}: {:?} projects onto {:?} at {:?}, expected {:?}", F::NAME, q, s, got, want);
    Ok(())
}

fn project_segment_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 8, 32, 300]);
    let tf = Tf::any(rng, r, 1000.0);
    project_segment::<f64>(ctx, rng, tf, r)
}

fn project_segment_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 30);
    project_segment::<f64>(ctx, rng, tf, 8)
}

fn project_segment_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    project_segment::<f32>(ctx, rng, Tf::identity(), 4)
}

/// Points whose foot lies just within or just beyond an end.
fn project_segment_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = near_tf(rng);
    let (a, b) = distinct(rng, 20);
    let u = unit(&tf, b.sub(a));
    let s = seg::<f64>(&tf, a, b);
    let (e, near) = displacement(rng);
    let (o, k) = if rng.chance(1, 2) { (tf.of(a), -1.0) } else { (tf.of(b), 1.0) };
    let across = if rng.chance(1, 3) { 0.0 } else { rng.float(-10.0, 10.0) };
    let inward = rng.chance(1, 3);
    let step = if inward { -e } else { e } * k;
    let foot = (o.0 + step * u.0, o.1 + step * u.1);
    let q = (foot.0 - u.1 * across, foot.1 + u.0 * across);
    let want = if near || inward { Some(foot) } else { None };
    segment_projection::<f64>(ctx, &s, q, want, 1e-9)?;
    ctx.judged(if inward { "foot just within an end" } else { "foot just beyond an end" });
    ctx.bucket(&format!("displaced by {:e}", e));
    ctx.nontrivial(hash_of(34, &tf, &[a, b]) ^ across.to_bits());
    Ok(())
}

// ------------------------------------------------------------ squeezed shapes

/// Coordinates are multiples of this, and below 2^53 of them.
const GRAIN: i32 = 44;

/// The lattice squeezed in one direction, so that edges lie almost level or
/// almost upright.
fn squeezed(rng: &mut Rng, v: &[P]) -> Vec<P> {
    let k = rng.range(0, 8) as u32;
    let (i, j) = if rng.chance(2, 3) { (0, k) } else { (k, 0) };
    let g = GRAIN as u32;
    v.iter().map(|q| p(q.x << (g - i), q.y << (g - j))).collect()
}

/// A point a little off a corner, or a little off somewhere along an edge.
fn beside(rng: &mut Rng, v: &[P]) -> P {
    let i = rng.usize(0, v.len() - 1);
    let (a, b) = (v[i], v[(i + 1) % v.len()]);
    let step = |rng: &mut Rng| match rng.below(4) {
        0 => 0,
        _ => rng.range(-15, 15) << rng.range(0, 38),
    };
    let d = b.sub(a);
    let k = match rng.below(4) {
        0 | 1 => 0.0,
        2 => 1.0 + if rng.chance(1, 2) { 1.0 } else { -1.0 } * (2f64).powi(-(rng.range(2, 34) as i32)),
        _ => rng.float(-0.5, 1.5),
    };
    let along = p((d.x as f64 * k) as i64, (d.y as f64 * k) as i64);
    a.add(along).add(p(step(rng), step(rng)))
}

fn fine(q: P) -> (f64, f64) {
    let g = (2f64).powi(-GRAIN);
    (q.x as f64 * g, q.y as f64 * g)
}

/// Whether a distance in grains is within the tolerance, or too close to tell.
fn within(d: f64) -> Option<bool> {
    let d = d * (2f64).powi(-GRAIN);
    if d < 0.6e-10 {
        Some(true)
    } else if d > 1.5e-10 {
        Some(false)
    } else {
        None
    }
}

fn locate_polygon_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (v, _) = lat::simple_polygon(rng, 7, 6);
    if v.iter().any(|q| q.x.abs().max(q.y.abs()) > 60) {
        ctx.skip("too wide");
        return Ok(());
    }
    let v = squeezed(rng, &v);
    let n = v.len();
    let poly = Polygon2::new(v.iter().map(|q| pt::<f64>(fine(*q))).collect());
    for _ in 0..6 {
        let q = beside(rng, &v);
        let d = (0..n).map(|i| lat::dist_segment(q, v[i], v[(i + 1) % n])).fold(f64::MAX, f64::min);
        let want = match within(d) {
            Some(true) => Side::On,
            Some(false) => lat::in_polygon(q, &v),
            None => {
                ctx.skip("too close to tell");
                continue;
            }
        };
        polygon_query(ctx, &poly, fine(q), want, &|| format!("beside the polygon {:?}", v.iter().map(|q| fine(*q)).collect::<Vec<_>>()))?;
        ctx.bucket(if d * (2f64).powi(-GRAIN) < 1e-6 { "beside a squeezed outline" } else { "at a squeezed outline" });
    }
    ctx.nontrivial(hash_of(37, &Tf::identity(), &v));
    Ok(())
}

fn locate_triangle_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (a, b) = distinct(rng, 8);
    let c = point_near(rng, 8, &[a, b]);
    if orient(a, b, c) == 0 {
        ctx.skip("flat");
        return Ok(());
    }
    let v = squeezed(rng, &[a, b, c]);
    let q = beside(rng, &v);
    let d = (0..3).map(|i| lat::dist_segment(q, v[i], v[(i + 1) % 3])).fold(f64::MAX, f64::min);
    let want = match (within(d), lat::in_polygon(q, &v)) {
        (None, _) => {
            ctx.skip("too close to tell");
            return Ok(());
        }
        (Some(true), _) => Point2Triangle2Location::On,
        (_, Side::Inside) => Point2Triangle2Location::Inside,
        _ => Point2Triangle2Location::Outside,
    };
    let at = |q: P| pt::<f64>(fine(q));
    let t = Triangle2::new(at(v[0]), at(v[1]), at(v[2]));
    let got = ctx.call("locate_point_2_triangle_2", || locate_point_2_triangle_2(&at(q), &t))?;
    ensure!(got == want, "{:?} is located {:?} at {:?}, expected {:?}", fine(q), got, t, want);
    ctx.judged(&format!("squeezed: {:?}", want));
    ctx.nontrivial(hash_of(38, &Tf::identity(), &[v[0], v[1], v[2], q]));
    Ok(())
}

fn locate_segment_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (a, b) = distinct(rng, 8);
    let v = squeezed(rng, &[a, b]);
    let (a, b) = (v[0], v[1]);
    let q = beside(rng, &v);
    let o = orient(a, b, q);
    let (on, level) = (within(lat::dist_segment(q, a, b)), within(lat::dist_line(q, a, b)));
    let (Some(on), Some(level)) = (on, level) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let s = LineSegment2::new(pt::<f64>(fine(a)), pt::<f64>(fine(b)));
    let along = b.sub(a).dot(q.sub(a));
    let want = if on {
        // Straight beyond an end and off the line, but within the distance.
        if along < 0 || along > b.sub(a).n2() {
            ctx.bucket("squeezed: round an end");
        }
        Point2Segment2Location::On
    } else if level {
        Point2Segment2Location::Collinear
    } else if o > 0 {
        Point2Segment2Location::Left
    } else {
        Point2Segment2Location::Right
    };
    segment_case::<f64>(ctx, &s, fine(q), Some(want))?;
    ctx.bucket("squeezed");
    ctx.nontrivial(hash_of(39, &Tf::identity(), &[a, b, q]));
    Ok(())
}

fn locate_ray_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (a, b) = distinct(rng, 8);
    let v = squeezed(rng, &[a, b]);
    let (a, b) = (v[0], v[1]);
    let q = beside(rng, &v);
    let d = b.sub(a);
    let ahead = d.dot(q.sub(a)) >= 0;
    let level = within(lat::dist_line(q, a, b));
    let on = if ahead { level } else { within(q.sub(a).len()) };
    let (Some(on), Some(level)) = (on, level) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let want = if on {
        Point2Ray2Location::On
    } else if level {
        Point2Ray2Location::Collinear
    } else if orient(a, b, q) > 0 {
        Point2Ray2Location::Left
    } else {
        Point2Ray2Location::Right
    };
    let ray = Ray2::new(pt::<f64>(fine(a)), vc::<f64>(fine(d)));
    ray_case::<f64>(ctx, &ray, fine(q), want)?;
    ctx.bucket("squeezed");
    ctx.nontrivial(hash_of(40, &Tf::identity(), &[a, b, q]));
    Ok(())
}

fn locate_line_squeezed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (a, b) = distinct(rng, 8);
    let v = squeezed(rng, &[a, b]);
    let (a, b) = (v[0], v[1]);
    let q = beside(rng, &v);
    let Some(on) = within(lat::dist_line(q, a, b)) else {
        ctx.skip("too close to tell");
        return Ok(());
    };
    let line = ctx.call("Line2::from_points", || Line2::from_points(&pt::<f64>(fine(a)), &pt::<f64>(fine(b))))?;
    line_case(ctx, &line, fine(q), on)?;
    ctx.bucket("squeezed");
    ctx.nontrivial(hash_of(41, &Tf::identity(), &[a, b, q]));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P09",
            stages: vec![
                Stage { name: "lattice", cases: 300_000, run: locate_line_f64 },
                Stage { name: "near", cases: 200_000, run: locate_line_near_f64 },
                Stage { name: "squeezed", cases: 100_000, run: locate_line_squeezed },
                Stage { name: "f32", cases: 100_000, run: locate_line_f32 },
                Stage { name: "f32-near", cases: 100_000, run: locate_line_near_f32 },
            ],
            rule: "a lattice point against the line through two others, exact or rotated, the line given by points or by coefficients of several scales; and points displaced from the line by 0 to 1e-3; judged by the exact determinant; all count; also in single precision, where coordinates are small",
            assumptions: vec!["displacements are up to 9e-11 or from 1.2e-10, near corners and ends up to 5e-11 or from 2e-10"],
            required: vec!["f32", "on", "not on", "displaced by 1e-12", "displaced by 1e-8"],
            silent: false,
        },
        Prop {
            id: "P10",
            stages: vec![
                Stage { name: "lattice", cases: 300_000, run: locate_ray_f64 },
                Stage { name: "f32", cases: 100_000, run: locate_ray_f32 },
                Stage { name: "near", cases: 200_000, run: locate_ray_near_f64 },
                Stage { name: "squeezed", cases: 100_000, run: locate_ray_squeezed },
                Stage { name: "far", cases: 100_000, run: locate_ray_far },
                Stage { name: "f32-near", cases: 60_000, run: locate_ray_near_f32 },
            ],
            rule: "a lattice point against a ray through two others with forced positions on its line, exact or rotated; points displaced sideways and behind the origin by 0 to 1e-3; judged by exact determinant and dot product; all count",
            assumptions: vec!["displacements are up to 9e-11 or from 1.2e-10, near corners and ends up to 5e-11 or from 2e-10"],
            required: vec!["on", "left", "right", "collinear, behind", "at the origin", "displaced by 1e-12", "displaced by 1e-8"],
            silent: false,
        },
        Prop {
            id: "P11",
            stages: vec![
                Stage { name: "lattice", cases: 300_000, run: locate_segment_f64 },
                Stage { name: "f32", cases: 100_000, run: locate_segment_f32 },
                Stage { name: "near", cases: 200_000, run: locate_segment_near_f64 },
                Stage { name: "squeezed", cases: 100_000, run: locate_segment_squeezed },
                Stage { name: "far", cases: 100_000, run: locate_segment_far },
                Stage { name: "f32-near", cases: 60_000, run: locate_segment_near_f32 },
            ],
            rule: "a lattice point against a segment (possibly a single point) with forced positions on its line, exact or rotated; points displaced sideways and beyond the ends by 0 to 1e-3; judged exactly; all count",
            assumptions: vec!["displacements are up to 9e-11 or from 1.2e-10, near corners and ends up to 5e-11 or from 2e-10; a single point has no sides: only on and not on are told apart there"],
            required: vec!["on", "left", "right", "collinear, beyond an end", "off a single point", "just beyond an end", "just beside it", "displaced by 1e-12", "displaced by 1e-8"],
            silent: false,
        },
        Prop {
            id: "P12",
            stages: vec![
                Stage { name: "lattice", cases: 300_000, run: locate_triangle_f64 },
                Stage { name: "f32", cases: 100_000, run: locate_triangle_f32 },
                Stage { name: "near", cases: 150_000, run: locate_triangle_near_f64 },
                Stage { name: "squeezed", cases: 100_000, run: locate_triangle_squeezed },
                Stage { name: "far", cases: 100_000, run: locate_triangle_far },
                Stage { name: "f32-near", cases: 60_000, run: locate_triangle_near_f32 },
            ],
            rule: "a lattice point against a triangle of either orientation, also a flat one, with forced positions on the lines of its edges; points displaced from an edge or beyond a corner by 0 to 1e-3, in both scalar types; judged by exact determinants, in the given and the reversed orientation; flat triangles are not counted as non-trivial",
            assumptions: vec!["displacements are up to 9e-11 or from 1.2e-10, near corners and ends up to 5e-11 or from 2e-10"],
            required: vec!["On", "Inside", "Outside", "counterclockwise", "clockwise", "flat triangle: On", "flat triangle: Outside", "near an edge: Inside", "near an edge: Outside", "near an edge: On", "near a corner: On", "near a corner: Outside"],
            silent: false,
        },
        Prop {
            id: "P13",
            stages: vec![
                Stage { name: "lattice", cases: 40_000, run: locate_polygon },
                Stage { name: "large", cases: 100, run: locate_polygon_large },
                Stage { name: "huge", cases: 2, run: locate_polygon_huge },
                Stage { name: "f32", cases: 10_000, run: locate_polygon_f32 },
                Stage { name: "near", cases: 30_000, run: locate_polygon_near },
                Stage { name: "squeezed", cases: 20_000, run: locate_polygon_squeezed },
                Stage { name: "far", cases: 15_000, run: locate_polygon_far },
            ],
            rule: "simple lattice polygons of eight families in both orientations, some of up to 80,000 vertices, 12 points each: level with vertices, on the lines of edges, near vertices and at random; and points displaced from an edge or a corner by 0 to 1e-3; judged by the exact even-odd rule",
            assumptions: vec!["polygons are simple; displacements are up to 9e-11 or from 1.2e-10, near corners and ends up to 5e-11 or from 2e-10"],
            required: vec!["On", "Inside", "Outside", "level with a vertex", "huge", "counterclockwise", "clockwise", "outline: comb", "outline: spiral", "outline: grown", "outline: histogram", "displaced by 1e-8", "just off a convex corner", "just off a reflex corner"],
            silent: false,
        },
        Prop {
            id: "P14",
            stages: vec![
                Stage { name: "lattice", cases: 300_000, run: locate_circle },
                Stage { name: "near", cases: 200_000, run: locate_circle_near },
                Stage { name: "far", cases: 100_000, run: locate_circle_far },
                Stage { name: "f32", cases: 100_000, run: locate_circle_f32 },
                Stage { name: "f32-rounded", cases: 100_000, run: locate_circle_f32_rounded },
            ],
            rule: "a lattice point against a circle around a lattice point whose squared radius is an integer, often through lattice points, exact or rotated; points displaced radially by 0 to 1e-3, some from circles of no extent; rounded points of single precision up to 2, judged by where they are; judged by squared distances; all count",
            assumptions: vec!["displacements are up to 9e-11 or from 1.2e-10, near corners and ends up to 5e-11 or from 2e-10"],
            required: vec!["On", "Inside", "Outside", "displaced by 1e-12", "displaced by 1e-8", "f32, rounded off the circle", "f32, displaced from the circle"],
            silent: false,
        },
        Prop {
            id: "P15",
            stages: vec![
                Stage { name: "directions", cases: 150_000, run: locate_arc },
                Stage { name: "near", cases: 200_000, run: locate_arc_near },
                Stage { name: "f32", cases: 100_000, run: locate_arc_f32 },
            ],
            rule: "arcs between two lattice directions given by angles up to a turn away, and four points each at the ends, along the arc, on the rest of the circle and off it; points displaced past an end or off the circle by 0 to 1e-3; judged by exact turns; all count",
            assumptions: vec!["displacements are up to 9e-11 or from 1.2e-10, near corners and ends up to 5e-11 or from 2e-10"],
            required: vec!["at an end", "on the arc", "on the rest of the circle", "off the circle", "on a full turn", "just before the source", "just after the target", "just off the circle"],
            silent: false,
        },
        Prop {
            id: "P16",
            stages: vec![
                Stage { name: "lattice", cases: 300_000, run: project_line },
                Stage { name: "squeezed", cases: 200_000, run: project_line_squeezed },
                Stage { name: "f32", cases: 100_000, run: project_line_f32 },
            ],
            rule: "a lattice point and the line through two others, given by points or coefficients; the foot of the perpendicular is computed from the lattice; projecting twice must change nothing; all count; also in single precision, where coordinates are small",
            assumptions: vec!["coordinates up to 60 and a tolerance of 1e-8"],
            required: vec!["already on the line", "vertical line", "horizontal line", "oblique line"],
            silent: false,
        },
        Prop {
            id: "P17",
            stages: vec![
                Stage { name: "lattice", cases: 300_000, run: project_segment_f64 },
                Stage { name: "f32", cases: 100_000, run: project_segment_f32 },
                Stage { name: "near", cases: 200_000, run: project_segment_near },
                Stage { name: "squeezed", cases: 200_000, run: project_segment_squeezed },
                Stage { name: "far", cases: 100_000, run: project_segment_far },
            ],
            rule: "a lattice point and a segment (possibly a single point), with points straight across an end forced; feet displaced past or within an end by 0 to 1e-3; judged by exact dot products; all count",
            assumptions: vec!["displacements are up to 9e-11 or from 1.2e-10, near corners and ends up to 5e-11 or from 2e-10"],
            required: vec!["single point", "across an end", "between the ends", "beyond the ends", "foot just beyond an end", "foot just within an end"],
            silent: false,
        },
    ]
}
