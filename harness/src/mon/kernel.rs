//! Monitors of the kernel types: scalars, vectors, points, lines, triangles,
//! arcs, and the half-edge containers.
use crate::num::*;
use harness::ctx::{Ctx, Hasher, Prop, Stage, R};
use harness::ensure;
use harness::lat::{self, gcd, orient, p, point, point_near, sign, Tf, P};
use harness::rng::Rng;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::edge_2::Edge2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::number_type::DefaultNumberValueTrait;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::util_enum::{Edge2Type, Orientation, Segment2Type, TurnDirection};
use rcgal::kernel::vertex_2::Vertex2;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::f64::consts::{PI, TAU};
use std::rc::Rc;

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

// ------------------------------------------------------------------- scalars

fn scalar_value(rng: &mut Rng) -> f64 {
    match rng.below(8) {
        0 => rng.range(-8, 8) as f64,
        1 => rng.range(-64, 64) as f64 / 16.0,
        2 => rng.float(-1.0, 1.0),
        3 => rng.float(-1e3, 1e3),
        4 => rng.float(-1.0, 1.0) * 1e-9,
        5 => rng.float(-10.0, 10.0) * PI,
        6 => *rng.pick(&[0.0, 1.0, -1.0, 0.5, PI, -PI, PI / 2.0, 2.0]),
        _ => rng.float(-1.0, 1.0) * (10f64).powi(rng.range(-12, 6) as i32),
    }
}

fn scalar<F: Num>(ctx: &mut Ctx, rng: &mut Rng, reference: &dyn Fn(&str, f64, f64) -> f64) -> R {
    let a0 = scalar_value(rng);
    let a = F::n(a0);
    let ulps = F::EPS * 1e-3; // far above an ulp of f64 near 1, and of f32 below
    let rel = if F::NAME == "f64" { 1e-14 } else { 5e-7 };
    let _ = ulps;
    ensure!(
        F::n(a0).f() == reference("round", a0, 0.0),
        "{}: from_f64({:?}) is {:?}",
        F::NAME,
        a0,
        a.f()
    );
    // Tolerant equality.
    let ratio = *rng.pick(&[0.0, 1e-3, 0.1, 0.5, 2.0, 10.0, 1e3, 1e6]);
    let delta = F::EPS * ratio * if rng.chance(1, 2) { 1.0 } else { -1.0 };
    let base = F::n(rng.range(-4, 4) as f64 / 4.0);
    // Near zero the difference is representable in either type.
    let b = if ratio == 0.0 { base } else { F::n(delta) };
    let c = if ratio == 0.0 { base } else { F::n(0.0) };
    let eq1 = ctx.call("NumberType::equals", || b.equals(c))?;
    let eq2 = ctx.call("NumberType::equals", || c.equals(b))?;
    ensure!(eq1 == eq2, "{}: equals({:?}, {:?}) is not symmetric", F::NAME, b, c);
    ensure!(
        eq1 == (ratio < 1.0),
        "{}: equals({:?}, {:?}) is {} though they differ by {} tolerances",
        F::NAME,
        b,
        c,
        eq1,
        ratio
    );
    ensure!(a.equals(a), "{}: {:?} does not equal itself", F::NAME, a);
    // Away from zero, where the difference as represented decides.
    let tiny = if F::NAME == "f64" { (2f64).powi(-53) } else { (2f64).powi(-24) };
    let far = F::n(rng.float(-1.0, 1.0) * (10f64).powi(rng.range(-2, if F::NAME == "f64" { 15 } else { 6 }) as i32));
    let near: f64 = *rng.pick(&[0.0, 0.3, 0.8, 0.95, 1.05, 1.2, 3.0, 30.0, 1e3, 1e5]);
    // At the larger magnitudes a few steps of the representation.
    let near = near.max(if rng.chance(1, 2) { 0.0 } else { 4.0 * tiny * far.f().abs() / F::EPS * rng.range(1, 4) as f64 });
    let other = F::n(far.f() + F::EPS * near * if rng.chance(1, 2) { 1.0 } else { -1.0 });
    let apart = (far.f() - other.f()).abs() / F::EPS;
    let is_clear = (apart - 1.0).abs() * F::EPS > 4.0 * tiny * far.f().abs() && (apart - 1.0).abs() > 1e-3;
    if is_clear || apart <= 0.5 || apart >= 2.0 {
        let eq1 = ctx.call("NumberType::equals", || far.equals(other))?;
        let eq2 = ctx.call("NumberType::equals", || other.equals(far))?;
        ensure!(
            eq1 == (apart < 1.0) && eq2 == eq1,
            "{}: equals({:?}, {:?}) is {}, the other way {}, though they differ by {} tolerances",
            F::NAME,
            far,
            other,
            eq1,
            eq2,
            apart
        );
        ctx.judged(if apart < 1.0 { "equal, away from zero" } else { "different, away from zero" });
    }
    // Functions.
    let y = F::n(scalar_value(rng));
    let unit = F::n(rng.float(-1.0, 1.0));
    let rows = [
        ("sin", ctx.call("NumberType::sin", || a.sin())?, reference("sin", a.f(), 0.0)),
        ("cos", ctx.call("NumberType::cos", || a.cos())?, reference("cos", a.f(), 0.0)),
        ("abs", ctx.call("NumberType::abs", || a.abs())?, a.f().abs()),
        ("atan", ctx.call("NumberType::atan", || a.atan())?, a.f().atan()),
        ("sqrt", ctx.call("NumberType::sqrt", || a.abs().sqrt())?, a.f().abs().sqrt()),
        ("acos", ctx.call("NumberType::acos", || unit.acos())?, unit.f().acos()),
        ("atan2", ctx.call("NumberType::atan2", || a.atan2(y))?, a.f().atan2(y.f())),
    ];
    for (name, got, want) in rows {
        ensure!(
            close(got.f(), want, rel * (1.0 + want.abs())),
            "{}: {} at {:?} (second argument {:?}) is {:?}, not {:?}",
            F::NAME,
            name,
            a,
            y,
            got,
            want
        );
    }
    // Over all magnitudes. Of these the native results are exact.
    let top = if F::NAME == "f64" { 307 } else { 38 };
    let w = F::n(rng.float(-9.9, 9.9) * (10f64).powi(rng.range(-top, top - 1) as i32));
    let got = ctx.call("NumberType::abs", || w.abs())?;
    ensure!(got.f() == w.f().abs(), "{}: abs at {:?} is {:?}", F::NAME, w, got);
    let got = ctx.call("NumberType::sqrt", || got.sqrt())?;
    ensure!(got.f() == reference("sqrt", w.f().abs(), 0.0), "{}: sqrt at |{:?}| is {:?}", F::NAME, w, got);
    let got = [w.sin(), w.cos(), w.atan(), w.atan2(y), y.atan2(w)].map(|v| v.f());
    let want = ["sin", "cos", "atan", "atan2", "2nata"].map(|f| reference(f, w.f(), y.f()));
    ensure!(
        (0..5).all(|i| close(got[i], want[i], rel * want[i].abs())),
        "{}: sin, cos, atan, atan2 either way at {:?} and {:?} are {:?}, not {:?}",
        F::NAME, w, y, got, want
    );
    ctx.bucket(if w.f().abs() < 1e-30 {
        "tiny magnitude"
    } else if w.f().abs() > 1e30 {
        "huge magnitude"
    } else {
        "magnitude within 1e30"
    });
    ensure!(close(F::pi().f(), PI, rel * 4.0), "{}: pi is {:?}", F::NAME, F::pi());
    ensure!(F::zero().f() == 0.0, "{}: zero is {:?}", F::NAME, F::zero());
    ensure!(
        <F as DefaultNumberValueTrait>::default().f() == 0.0,
        "{}: the default is not 0",
        F::NAME
    );
    ensure!(
        close(F::default_eps().f() / F::EPS, 1.0, 1e-6),
        "{}: the default tolerance is {:?}",
        F::NAME,
        F::default_eps()
    );
    ctx.judged(if ratio < 1.0 { "equal within the tolerance" } else { "different" });
    let mut h = Hasher::new(1);
    h.add(a.f().to_bits()).add(y.f().to_bits()).add(ratio.to_bits()).add(F::NAME.len() as u64);
    ctx.nontrivial(h.0);
    ctx.sample(|| format!("{} a={:?} y={:?} difference={} tolerances", F::NAME, a, y, ratio));
    Ok(())
}

fn scalar_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    scalar::<f64>(ctx, rng, &|f, a, b| match f {
        "sin" => a.sin(),
        "cos" => a.cos(),
        "sqrt" => a.sqrt(),
        "atan" => a.atan(),
        "atan2" => a.atan2(b),
        "2nata" => b.atan2(a),
        _ => a,
    })
}

fn scalar_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    scalar::<f32>(ctx, rng, &|f, a, b| match f {
        "sin" => (a as f32).sin() as f64,
        "cos" => (a as f32).cos() as f64,
        "sqrt" => (a as f32).sqrt() as f64,
        "atan" => (a as f32).atan() as f64,
        "atan2" => (a as f32).atan2(b as f32) as f64,
        "2nata" => (b as f32).atan2(a as f32) as f64,
        _ => a as f32 as f64,
    })
}

// ------------------------------------------------------------------- vectors

fn vectors<F: Num>(ctx: &mut Ctx, rng: &mut Rng, r: i64, dyadic: bool) -> R {
    let a = point(rng, r);
    let b = if rng.chance(1, 3) { p(a.y, -a.x) } else { point(rng, r) };
    let s = if dyadic { (2f64).powi(rng.range(-6, 4) as i32) } else { 1.0 };
    let va = vc::<F>((a.x as f64 * s, a.y as f64 * s));
    let vb = vc::<F>((b.x as f64 * s, b.y as f64 * s));
    let k = rng.range(-8, 8);
    let kk = *rng.pick(&[1.0, 2.0, 0.5, -4.0, -0.25]);
    let what = || format!("{} a={:?} b={:?} scale {:?}", F::NAME, a, b, s);
    let ex = |v: i64| v as f64 * s;
    let sum = ctx.call("Vector2::add", || va + vb)?;
    let dif = ctx.call("Vector2::sub", || va - vb)?;
    let mul = ctx.call("Vector2::mul", || va * F::n(k as f64))?;
    let div = ctx.call("Vector2::div", || va / F::n(kk))?;
    ensure!(
        (sum.x().f(), sum.y().f()) == (ex(a.x + b.x), ex(a.y + b.y)),
        "{}: a + b is {:?}",
        what(),
        sum
    );
    ensure!(
        (dif.x().f(), dif.y().f()) == (ex(a.x - b.x), ex(a.y - b.y)),
        "{}: a - b is {:?}",
        what(),
        dif
    );
    ensure!(
        (mul.x().f(), mul.y().f()) == (ex(a.x * k), ex(a.y * k)),
        "{}: a * {} is {:?}",
        what(),
        k,
        mul
    );
    ensure!(
        (div.x().f(), div.y().f()) == (ex(a.x) / kk, ex(a.y) / kk),
        "{}: a / {} is {:?}",
        what(),
        kk,
        div
    );
    let dot = ctx.call("Vector2::dot", || va.dot(&vb))?.f();
    let cross = ctx.call("Vector2::cross", || va.cross(&vb))?.f();
    ensure!(dot == a.dot(b) as f64 * s * s, "{}: a . b is {}", what(), dot);
    ensure!(cross == a.cross(b) as f64 * s * s, "{}: a x b is {}", what(), cross);
    let rel = if F::NAME == "f64" { 1e-14 } else { 4e-7 };
    let len = ctx.call("Vector2::length", || va.length())?.f();
    ensure!(
        close(len, a.len() * s, rel * (1.0 + a.len() * s)),
        "{}: |a| is {}",
        what(),
        len
    );
    let unit = ctx.call("Vector2::normalize", || va.normalize())?;
    let (ux, uy) = (unit.x().f(), unit.y().f());
    if a == p(0, 0) {
        ensure!((ux, uy) == (0.0, 0.0), "{}: the zero vector normalizes to {:?}", what(), unit);
        ctx.judged("zero vector");
    } else {
        let l = a.len();
        ensure!(
            close(ux, a.x as f64 / l, 2.0 * rel) && close(uy, a.y as f64 / l, 2.0 * rel),
            "{}: a normalizes to {:?}",
            what(),
            unit
        );
        ctx.judged(if cross == 0.0 {
            "parallel"
        } else if dot == 0.0 {
            "perpendicular"
        } else {
            "general"
        });
    }
    ensure!(va == va && (va == vb) == (a == b), "{}: equality of vectors", what());
    let mut h = Hasher::new(2);
    hash_p(&mut h, a);
    hash_p(&mut h, b);
    h.add(s.to_bits()).add(k as u64);
    if a != p(0, 0) {
        ctx.nontrivial(h.0);
    }
    ctx.sample(what);
    Ok(())
}

fn vectors_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 10, 1000, 1 << 20]);
    vectors::<f64>(ctx, rng, r, true)
}

fn vectors_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 10, 500]);
    vectors::<f32>(ctx, rng, r, true)
}

/// Normalizing near the tolerance, and far above it.
fn vectors_tiny<F: Num>(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let a = if rng.chance(1, 8) { rng.range(0, 3) as f64 * PI / 2.0 } else { rng.float(0.0, TAU) };
    let ratio = *rng.pick(&[1e-6, 1e-4, 1e-2, 0.1, 0.5, 0.8, 0.95, 1.05, 1.2, 2.0, 10.0, 1e2, 1e4, 1e6, 1e10, 1e14, 1e18]);
    let l = F::EPS * ratio;
    let v = vc::<F>((l * a.cos(), l * a.sin()));
    let u = ctx.call("Vector2::normalize", || v.normalize())?;
    if ratio < 1.0 {
        ensure!(
            (u.x().f(), u.y().f()) == (v.x().f(), v.y().f()),
            "{:?} is shorter than the tolerance but normalizes to {:?}",
            v,
            u
        );
        ctx.judged("below the tolerance");
    } else {
        let tol = if F::NAME == "f64" { 1e-14 } else { 1e-6 };
        ensure!(
            close(u.x().f(), a.cos(), tol) && close(u.y().f(), a.sin(), tol),
            "{:?} normalizes to {:?}",
            v,
            u
        );
        ctx.judged("above the tolerance");
    }
    let mut h = Hasher::new(3);
    h.add(a.to_bits()).add(ratio.to_bits());
    ctx.nontrivial(h.0);
    Ok(())
}

fn vectors_tiny_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    vectors_tiny::<f64>(ctx, rng)
}

fn vectors_tiny_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    vectors_tiny::<f32>(ctx, rng)
}

/// Factors and divisors of any size: powers of two, so that nothing is rounded.
fn vectors_factors(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let a = point(rng, 1000);
    let e = rng.range(-60, 60) as i32;
    let k = (2f64).powi(e) * if rng.chance(1, 2) { 1.0 } else { -1.0 };
    let s = (2f64).powi(rng.range(-60, 60) as i32);
    let v = vc::<f64>((a.x as f64 * s, a.y as f64 * s));
    let div = ctx.call("Vector2::div", || v / k)?;
    let mul = ctx.call("Vector2::mul", || v * k)?;
    ensure!((div.x(), div.y()) == (v.x() / k, v.y() / k), "{:?} / {:?} is {:?}", v, k, div);
    ensure!((mul.x(), mul.y()) == (v.x() * k, v.y() * k), "{:?} * {:?} is {:?}", v, k, mul);
    let w = point(rng, 1000);
    let t = (2f64).powi(rng.range(-60, 60) as i32);
    let u = vc::<f64>((w.x as f64 * t, w.y as f64 * t));
    let dot = ctx.call("Vector2::dot", || v.dot(&u))?;
    let cross = ctx.call("Vector2::cross", || v.cross(&u))?;
    ensure!(dot == a.dot(w) as f64 * s * t, "{:?} . {:?} is {:?}", v, u, dot);
    ensure!(cross == a.cross(w) as f64 * s * t, "{:?} x {:?} is {:?}", v, u, cross);
    let len = ctx.call("Vector2::length", || v.length())?;
    ensure!(close(len, a.len() * s, 1e-14 * a.len() * s), "|{:?}| is {:?}", v, len);
    ctx.judged(match e {
        -60..=-34 => "factor below the tolerance",
        34..=60 => "factor above 1e10",
        _ => "factor of moderate size",
    });
    let mut h = Hasher::new(15);
    hash_p(&mut h, a);
    h.add(k.to_bits()).add(s.to_bits());
    ctx.nontrivial(h.0);
    Ok(())
}

// ------------------------------------------------------------ directed angle

fn angle<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let mut a = point(rng, r);
    while a == p(0, 0) {
        a = point(rng, r);
    }
    let mut b = match rng.below(6) {
        0 => a,
        1 => p(-a.x, -a.y),
        2 => p(-a.y, a.x),
        3 => p(a.x * 3, a.y * 3),
        _ => point(rng, r),
    };
    while b == p(0, 0) {
        b = point(rng, r);
    }
    // A coordinate that is zero may be negative zero, which is the same direction.
    let negative = rng.chance(1, 6);
    let dir = |q: P| {
        let (x, y) = tf.dir(q);
        let zero = |c: f64| if negative && c == 0.0 { -0.0 } else { c };
        (zero(x), zero(y))
    };
    let va = vc::<F>(tf.dir(a));
    let vb = vc::<F>(dir(b));
    let negative = negative && (b.x == 0 || b.y == 0);
    let ab = ctx.call("Vector2::radian_to", || va.radian_to(&vb))?.f();
    let ba = ctx.call("Vector2::radian_to", || vb.radian_to(&va))?.f();
    let tol = if F::NAME == "f64" { 1e-11 } else { 3e-6 };
    let what = || format!("{} a={:?} b={:?} via {:?}", F::NAME, a, b, tf);
    for t in [ab, ba] {
        ensure!(t >= 0.0 && t <= TAU + tol, "{}: the angle {} is outside [0, 2pi]", what(), t);
    }
    let l = a.len() * b.len();
    let (c, s) = (a.dot(b) as f64 / l, a.cross(b) as f64 / l);
    ensure!(
        close(ab.cos(), c, tol) && close(ab.sin(), s, tol),
        "{}: turning a by {} does not give the direction of b",
        what(),
        ab
    );
    ensure!(
        close(ba.cos(), c, tol) && close(ba.sin(), -s, tol),
        "{}: turning b by {} does not give the direction of a",
        what(),
        ba
    );
    let same = a.cross(b) == 0 && a.dot(b) > 0;
    if same {
        if a == b && !negative {
            ensure!(ab == 0.0 && ba == 0.0, "{}: the angle to itself is {}", what(), ab);
        }
        ctx.judged("same direction");
    } else {
        ensure!(close(ab + ba, TAU, 2.0 * tol), "{}: {} and {} do not make a full turn", what(), ab, ba);
        ensure!(
            (ab < PI - tol) == (a.cross(b) > 0) || a.cross(b) == 0,
            "{}: {} is on the wrong side of a half turn",
            what(),
            ab
        );
        ctx.judged(match sign(a.cross(b)) {
            1 => "left of a",
            -1 => "right of a",
            _ => "opposite",
        });
    }
    if negative {
        ctx.judged("negative zero");
    }
    ctx.nontrivial(hash_of(4, &tf, &[a, b]));
    ctx.sample(|| format!("{}: {}", what(), ab));
    Ok(())
}

fn angle_lattice(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 5, 30, 1000]);
    let tf = Tf::exact(rng, r, 2000.0);
    angle::<f64>(ctx, rng, tf, r)
}

fn angle_rotated(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 5, 20]);
    let tf = Tf::rigid(rng);
    angle::<f64>(ctx, rng, tf, r)
}

fn angle_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    angle::<f32>(ctx, rng, Tf::identity(), 20)
}

/// Directions a tiny turn apart, or a tiny turn short of a half or full one,
/// of vectors of any length.
fn angle_near(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let a = if rng.chance(1, 3) { rng.range(0, 7) as f64 * PI / 4.0 } else { rng.float(0.0, TAU) };
    let e = *rng.pick(&[1e-13, 1e-11, 1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 1e-2]);
    let (turn, what) = match rng.below(6) {
        0 => (e, "just above nothing"),
        1 => (TAU - e, "just below a full turn"),
        2 => (PI - e, "just below a half turn"),
        3 => (PI + e, "just above a half turn"),
        4 => (if rng.chance(1, 2) { PI / 2.0 - e } else { PI / 2.0 + e }, "about a quarter turn"),
        _ => (rng.float(0.001, TAU - 0.001), "any turn"),
    };
    let (k, l) = (rng.range(-200, 200) as i32, rng.range(-200, 200) as i32);
    let (k, l) = if rng.chance(1, 2) { (0, 0) } else { ((k), (l)) };
    let (k, l) = ((2f64).powi(k), (2f64).powi(l));
    let va = vc::<f64>((k * a.cos(), k * a.sin()));
    let vb = vc::<f64>((l * (a + turn).cos(), l * (a + turn).sin()));
    let got = ctx.call("Vector2::radian_to", || va.radian_to(&vb))?;
    let back = ctx.call("Vector2::radian_to", || vb.radian_to(&va))?;
    ensure!(close(got, turn, 1e-14), "from {:?} to {:?} the turn is {:e}, not {:e}", va, vb, got, turn);
    ensure!(close(back, TAU - turn, 1e-14), "from {:?} to {:?} the turn is {:e}, not {:e}", vb, va, back, TAU - turn);
    ctx.judged(what);
    let mut h = Hasher::new(17);
    h.add(a.to_bits()).add(turn.to_bits()).add(k.to_bits()).add(l.to_bits());
    ctx.nontrivial(h.0);
    ctx.sample(|| format!("{:?} {:?}: {:e}", va, vb, got));
    Ok(())
}

// -------------------------------------------------------------------- points

fn points<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let a = point(rng, r);
    let b = point_near(rng, r, &[a]);
    let c = point_near(rng, r, &[a, b]);
    let (pa, pb, pc) = (lp::<F>(&tf, a), lp::<F>(&tf, b), lp::<F>(&tf, c));
    let what = || format!("{} {:?} {:?} {:?} via {:?}", F::NAME, a, b, c, tf);
    let rel = if F::NAME == "f64" { 1e-13 } else { 1e-6 };
    let d = ctx.call("Point2::distance", || pa.distance(&pb))?.f();
    let want = b.sub(a).len() * tf.scale;
    ensure!(close(d, want, rel * (100.0 + want)), "{}: the distance is {}, not {}", what(), d, want);
    ensure!(pb.distance(&pa).f() == d, "{}: the distance is not symmetric", what());
    let e = ctx.call("Point2::equals", || pa.equals(&pb))?;
    ensure!(e == (a == b) && (pa == pb) == e, "{}: equality is {}", what(), e);
    let turn = ctx.call("Point2::turn", || Point2::turn(&pa, &pb, &pc))?;
    let o = orient(a, b, c);
    let want = match sign(o) {
        1 => TurnDirection::Left,
        -1 => TurnDirection::Right,
        _ => TurnDirection::Collinear,
    };
    ensure!(turn == want, "{}: the turn is {:?}, not {:?}", what(), turn, want);
    let rev = ctx.call("Point2::turn", || Point2::turn(&pc, &pb, &pa))?;
    let want_rev = match want {
        TurnDirection::Left => TurnDirection::Right,
        TurnDirection::Right => TurnDirection::Left,
        t => t,
    };
    ensure!(rev == want_rev, "{}: the reverse turn is {:?}", what(), rev);
    if tf.exact {
        let (x, y) = tf.of(a);
        let (u, v) = tf.of(b);
        let s = pa + pb;
        let m = pa - pb;
        ensure!((s.x().f(), s.y().f()) == (x + u, y + v), "{}: the sum is {:?}", what(), s);
        ensure!((m.x().f(), m.y().f()) == (x - u, y - v), "{}: the difference is {:?}", what(), m);
        let g = pa.get_vector();
        ensure!((g.x().f(), g.y().f()) == (x, y), "{}: the position vector is {:?}", what(), g);
    }
    for text in [ctx.call("Point2::fmt", || pa.to_string())?, format!("{:?}", pa)] {
        let named: Vec<f64> = numbers(&text);
        ensure!(
            named.len() >= 2 && F::n(named[named.len() - 2]) == pa.x() && F::n(named[named.len() - 1]) == pa.y(),
            "{}: the first is printed as {}",
            what(),
            text
        );
    }
    ctx.judged(match want {
        TurnDirection::Left => "left turn",
        TurnDirection::Right => "right turn",
        _ if a == b || b == c => "repeated point",
        _ => "collinear",
    });
    if a != b {
        ctx.nontrivial(hash_of(5, &tf, &[a, b, c]));
    }
    ctx.sample(what);
    Ok(())
}

/// The numbers a text names, one by one.
fn numbers(text: &str) -> Vec<f64> {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || "+-.".contains(c))).filter_map(|t| t.parse().ok()).collect()
}

fn points_lattice(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 6, 100, 1 << 16]);
    let tf = if r > 1000 { Tf::identity() } else { Tf::exact(rng, r, 2000.0) };
    points::<f64>(ctx, rng, tf, r)
}

fn points_rotated(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::rigid(rng);
    points::<f64>(ctx, rng, tf, 10)
}

fn points_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 32);
    points::<f64>(ctx, rng, tf, 8)
}

fn points_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    points::<f32>(ctx, rng, Tf::identity(), 60)
}

fn points_tolerance<F: Num>(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let wide = F::NAME == "f64" && rng.chance(1, 2);
    let base = if wide { (rng.range(-8, 8) as f64, rng.range(-8, 8) as f64) } else { (0.0, 0.0) };
    let a = if rng.chance(1, 8) { rng.range(0, 7) as f64 * PI / 4.0 } else { rng.float(0.0, TAU) };
    let ratio = *rng.pick(&[1e-3, 0.05, 0.3, 0.8, 0.95, 1.05, 1.2, 3.0, 30.0, 1e4, 1e6]);
    let d = F::EPS * ratio;
    let q = (base.0 + d * a.cos(), base.1 + d * a.sin());
    let e = ctx.call("Point2::equals", || pt::<F>(base).equals(&pt::<F>(q)))?;
    ensure!(
        e == pt::<F>(q).equals(&pt::<F>(base)) && e == (pt::<F>(q) == pt::<F>(base)),
        "{:?} and {:?}: equality is not symmetric or not ==",
        base,
        q
    );
    ensure!(
        e == (ratio < 1.0),
        "{:?} and {:?} at {} tolerances: equality is {}",
        base,
        q,
        ratio,
        e
    );
    ctx.judged(if ratio < 1.0 { "within the tolerance" } else { "beyond the tolerance" });
    let mut h = Hasher::new(6);
    h.add(q.0.to_bits()).add(q.1.to_bits());
    ctx.nontrivial(h.0);
    Ok(())
}

fn points_tolerance_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    points_tolerance::<f64>(ctx, rng)
}

fn points_tolerance_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    points_tolerance::<f32>(ctx, rng)
}

/// Turns far below and far above the tolerance, on edges of very different lengths.
fn turns_scaled(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let e = rng.range(-34, 34) as i32;
    let s = (2f64).powi(e);
    let a = point(rng, 60);
    let b = point_near(rng, 60, &[a]);
    let mut c = point_near(rng, 60, &[a, b]);
    let far = rng.chance(1, 3);
    if far {
        // A long way along the line of a and b, and one step to the side.
        let k = rng.range(-(1 << 16), 1 << 16);
        c = p(b.x + (b.x - a.x) * k + rng.range(-1, 1), b.y + (b.y - a.y) * k + rng.range(-1, 1));
    }
    let at = |q: P| pt::<f64>((q.x as f64 * s, q.y as f64 * s));
    let cross = orient(a, b, c) as f64 * s * s;
    let want = if cross.abs() < 0.9e-10 {
        TurnDirection::Collinear
    } else if cross.abs() < 1.1e-10 {
        ctx.skip("cross product close to the tolerance");
        return Ok(());
    } else if cross > 0.0 {
        TurnDirection::Left
    } else {
        TurnDirection::Right
    };
    let turn = ctx.call("Point2::turn", || Point2::turn(&at(a), &at(b), &at(c)))?;
    ensure!(
        turn == want,
        "the turn {:?} {:?} {:?} times 2^{} is {:?}, not {:?}",
        a,
        b,
        c,
        e,
        turn,
        want
    );
    let d = ctx.call("Point2::distance", || at(a).distance(&at(c)))?;
    let real = c.sub(a).len() * s;
    ensure!(close(d, real, 1e-13 * real), "the distance of {:?} and {:?} times 2^{} is {:?}", a, c, e, d);
    ctx.judged(if cross != 0.0 && want == TurnDirection::Collinear {
        "turn below the tolerance"
    } else if far && cross != 0.0 {
        "small turn of a long edge"
    } else {
        "turn at scale"
    });
    ctx.nontrivial(hash_of(16, &Tf::identity(), &[a, b, c]) ^ e as u64);
    Ok(())
}

// --------------------------------------------------------------------- order

fn reverse_lex(a: (f64, f64), b: (f64, f64), eps: f64) -> Option<Ordering> {
    let d = |x: f64, y: f64| {
        let d = (x - y).abs();
        if d <= 0.5 * eps {
            Some(Ordering::Equal)
        } else if d < 2.0 * eps {
            None
        } else {
            y.partial_cmp(&x)
        }
    };
    match d(a.0, b.0)? {
        Ordering::Equal => d(a.1, b.1),
        o => Some(o),
    }
}

fn order_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[1, 3, 12]);
    let tf = if rng.chance(1, 2) { Tf::rigid(rng) } else { Tf::exact(rng, r, 2000.0) };
    order::<f64>(ctx, rng, tf, r)
}

fn order_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::scaled((2f64).powi(rng.range(-8, 0) as i32));
    ctx.bucket("f32");
    order::<f32>(ctx, rng, tf, 3)
}

fn order<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let n = rng.usize(3, 24);
    let mut v: Vec<P> = Vec::new();
    for _ in 0..n {
        let q = point_near(rng, r, &v);
        v.push(q);
    }
    let noisy = rng.chance(1, 2);
    let beyond = rng.chance(1, 3);
    let pts: Vec<Point2<F>> = v
        .iter()
        .map(|q| {
            let (x, y) = tf.of(*q);
            if noisy {
                // As rounding would, below the tolerance, or just beyond it.
                let d = F::EPS * if beyond { 3.0 } else { *rng.pick(&[1e-3, 3e-3, 1e-4, 0.2]) };
                pt((x + d * rng.range(-1, 1) as f64, y + d * rng.range(-1, 1) as f64))
            } else {
                pt((x, y))
            }
        })
        .collect();
    let mut clear = true;
    for i in 0..n {
        for j in 0..n {
            let want = reverse_lex(xy(&pts[i]), xy(&pts[j]), F::EPS);
            let Some(want) = want else {
                clear = false;
                continue;
            };
            let got = ctx.call("Point2::cmp", || pts[i].cmp(&pts[j]))?;
            ensure!(got == want, "{:?} compared to {:?} is {:?}, not {:?}", pts[i], pts[j], got, want);
            ensure!(
                pts[i].partial_cmp(&pts[j]) == Some(want),
                "{:?} and {:?}: the partial order disagrees",
                pts[i],
                pts[j]
            );
            ensure!(
                (pts[i] < pts[j], pts[i] > pts[j], pts[i] == pts[j])
                    == (want == Ordering::Less, want == Ordering::Greater, want == Ordering::Equal),
                "{:?} and {:?}: the operators disagree",
                pts[i],
                pts[j]
            );
            let (va, vb) = (
                Vertex2::new(pts[i].x(), pts[i].y()),
                Vertex2::new(pts[j].x(), pts[j].y()),
            );
            let got = ctx.call("Vertex2::cmp", || va.cmp(&vb))?;
            ensure!(got == want, "vertices {:?} and {:?} compare {:?}", pts[i], pts[j], got);
            ensure!(
                (va == vb) == (want == Ordering::Equal),
                "vertices {:?} and {:?}: equality",
                pts[i],
                pts[j]
            );
            ctx.judged(match want {
                Ordering::Equal if pts[i].x() != pts[j].x() || pts[i].y() != pts[j].y() => "equal up to rounding",
                Ordering::Equal => "equal",
                _ if (pts[i].x().f() - pts[j].x().f()).abs() < 1e-2 * F::EPS && pts[i].x() != pts[j].x() => "same x up to rounding",
                _ if noisy && beyond && v[i] == v[j] => "just beyond the tolerance",
                _ if v[i].x == v[j].x => "same x",
                _ => "different x",
            });
        }
    }
    if clear {
        let mut sorted = pts.clone();
        ctx.call("sort points", || sorted.sort())?;
        for w in sorted.windows(2) {
            ensure!(
                reverse_lex(xy(&w[0]), xy(&w[1]), F::EPS) != Some(Ordering::Greater),
                "sorting left {:?} before {:?}",
                w[0],
                w[1]
            );
        }
        let key = |q: &Point2<F>| (q.x().f().to_bits(), q.y().f().to_bits());
        let (mut k1, mut k2): (Vec<_>, Vec<_>) = (pts.iter().map(key).collect(), sorted.iter().map(key).collect());
        k1.sort();
        k2.sort();
        ensure!(k1 == k2, "sorting lost points of {}", show(&pts));
    } else {
        ctx.skip("coordinates apart by about the tolerance");
    }
    ctx.nontrivial(hash_of(7, &tf, &v));
    ctx.sample(|| show(&pts));
    Ok(())
}

// --------------------------------------------------------------------- lines

fn line_coefficients(rng: &mut Rng) -> (i64, i64, i64) {
    loop {
        let a = rng.range(-9, 9);
        let b = rng.range(-9, 9);
        if (a, b) != (0, 0) {
            return (a, b, rng.range(-30, 30));
        }
    }
}

fn lines_equal_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    lines_equal::<f64>(ctx, rng)
}

fn lines_equal_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    ctx.bucket("f32");
    lines_equal::<f32>(ctx, rng)
}

fn lines_equal<F: Num>(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (a, b, mut c) = line_coefficients(rng);
    if F::NAME == "f32" {
        // Rounding is to stay below the tolerance.
        let most = a.abs().max(b.abs());
        c = c.clamp(-most, most);
    }
    let other = match rng.below(4) {
        0 => (a, b, c),
        1 => (a, b, c + rng.range(-2, 2)),
        2 => (a + rng.range(-1, 1), b + rng.range(-1, 1), c),
        _ => line_coefficients(rng),
    };
    if (other.0, other.1) == (0, 0) {
        return Ok(());
    }
    let k = if F::NAME == "f32" {
        (2f64).powi(rng.range(-40, 40) as i32) * *rng.pick(&[1.0, -1.0, 3.0, 1.0 / 3.0, -0.7])
    } else {
        *rng.pick(&[1.0, -1.0, 2.0, 0.5, -3.0, 7.0, 1.0 / 3.0, 1e-6, -1e5, 1e-13, 1e13])
    };
    let l1 = Line2::new(F::n(a as f64), F::n(b as f64), F::n(c as f64));
    let l2 = Line2::new(F::n(other.0 as f64 * k), F::n(other.1 as f64 * k), F::n(other.2 as f64 * k));
    ensure!((l1.a().f(), l1.b().f(), l1.c().f()) == (a as f64, b as f64, c as f64), "coefficients of {:?}", l1);
    let same = a * other.1 == b * other.0 && a * other.2 == c * other.0 && b * other.2 == c * other.1;
    let got = ctx.call("Line2::eq", || l1 == l2)?;
    let rev = ctx.call("Line2::eq", || l2 == l1)?;
    ensure!(got == same && rev == same, "{:?} == {:?} is {} and {}, they are {}the same line", l1, l2, got, rev, if same { "" } else { "not " });
    ctx.judged(if same {
        "same line"
    } else if a * other.1 == b * other.0 {
        "parallel"
    } else {
        "crossing"
    });
    let mut h = Hasher::new(8);
    h.add(a as u64).add(b as u64).add(c as u64).add(other.0 as u64).add(other.1 as u64).add(other.2 as u64).add(k.to_bits());
    ctx.nontrivial(h.0);
    ctx.sample(|| format!("{:?} {:?}", l1, l2));
    Ok(())
}

/// Lines through points in single precision, with what its rounding leaves.
fn lines_from_points_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = 4;
    let tf = Tf::scaled(*rng.pick(&[0.0625, 0.125, 0.25, 0.5]));
    let a = point(rng, r);
    let mut b = point_near(rng, r, &[a]);
    while a == b {
        b = point(rng, r);
    }
    let line = ctx.call("Line2::from_points", || Line2::from_points(&lp::<f32>(&tf, a), &lp::<f32>(&tf, b)))?;
    let (la, lb, lc) = (line.a() as f64, line.b() as f64, line.c() as f64);
    let norm = la.hypot(lb);
    let q = point(rng, r);
    for q in [a, b, q] {
        let at = tf.of(q);
        let off = (la * at.0 + lb * at.1 + lc) / norm;
        let want = orient(a, b, q) as f64 / b.sub(a).len() * tf.scale;
        ensure!(close(off.abs(), want.abs(), 1e-5), "{:?} is {} from {:?}, which should be {}", at, off, line, want);
    }
    ctx.bucket("f32");
    ctx.judged(if a.x == b.x || a.y == b.y { "axis-parallel" } else { "oblique" });
    ctx.nontrivial(hash_of(90, &tf, &[a, b, q]));
    Ok(())
}

fn lines_from_points(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = 10;
    let a = point(rng, r);
    let mut b = point_near(rng, r, &[a]);
    while a == b {
        b = point(rng, r);
    }
    let tf = if rng.chance(1, 2) { Tf::rigid(rng) } else { Tf::exact(rng, r, 40.0) };
    let (pa, pb) = (lp::<f64>(&tf, a), lp::<f64>(&tf, b));
    let dx = (pa.x() - pb.x()).abs();
    let d = tf.scale * b.sub(a).len();
    if !tf.exact && dx > 0.0 && dx < d / 20.0 {
        ctx.skip("steeper than 20");
        return Ok(());
    }
    let line = ctx.call("Line2::from_points", || Line2::from_points(&pa, &pb))?;
    let norm = line.a().hypot(line.b());
    ensure!(norm > 0.0 && norm.is_finite(), "the line through {:?} and {:?} is {:?}", pa, pb, line);
    let off = |q: (f64, f64)| (line.a() * q.0 + line.b() * q.1 + line.c()) / norm;
    for q in [xy(&pa), xy(&pb)] {
        ensure!(off(q).abs() < 1e-11, "{:?} is {} off the line {:?} made from it", q, off(q), line);
    }
    // Another pair of points of the same line makes the same line.
    let dv = b.sub(a);
    let g = gcd(dv.x, dv.y);
    let step = p(dv.x / g, dv.y / g);
    let (i, j) = (rng.range(-g, 2 * g), rng.range(-g, 2 * g));
    let c = a.add(p(step.x * i, step.y * i));
    let e = a.add(p(step.x * j, step.y * j));
    if c != e {
        let (pc, pe) = (lp::<f64>(&tf, c), lp::<f64>(&tf, e));
        let again = ctx.call("Line2::from_points", || Line2::from_points(&pc, &pe))?;
        let same = ctx.call("Line2::eq", || line == again)?;
        ensure!(same, "{:?} and {:?} are one line but compare different", line, again);
        ctx.judged("same line");
    }
    // A point beside it makes another line, and the distances agree.
    let q = point(rng, r);
    let want = orient(a, b, q) as f64 / b.sub(a).len() * tf.scale;
    let got = off(tf.of(q));
    ensure!(
        close(got.abs(), want.abs(), 1e-10),
        "{:?} is {} from {:?}, which should be {}",
        tf.of(q),
        got,
        line,
        want
    );
    if orient(a, b, q) != 0 {
        let other = ctx.call("Line2::from_points", || Line2::from_points(&pa, &lp::<f64>(&tf, q)))?;
        let same = ctx.call("Line2::eq", || line == other)?;
        ensure!(!same, "{:?} and {:?} compare equal", line, other);
        ctx.judged("crossing");
    }
    ctx.judged(if dv.x == 0 || dv.y == 0 { "axis-parallel" } else { "oblique" });
    ctx.nontrivial(hash_of(9, &tf, &[a, b, q]));
    ctx.sample(|| format!("{:?} {:?} -> {:?}", pa, pb, line));
    // A ray keeps its origin and has a unit direction.
    let ray = ctx.call("Ray2::new", || Ray2::new(pa, vc::<f64>(tf.dir(dv))))?;
    let dir = ray.direction();
    ensure!(
        xy(&ray.origin()) == xy(&pa) && close(dir.length(), 1.0, 1e-12),
        "the ray from {:?} along {:?} has origin {:?} and direction {:?}",
        pa,
        dv,
        ray.origin(),
        dir
    );
    Ok(())
}

// ----------------------------------------------------------------- triangles

fn triangles<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf, r: i64) -> R {
    let a = point(rng, r);
    let b = point_near(rng, r, &[a]);
    let c = point_near(rng, r, &[a, b]);
    let (pa, pb, pc) = (lp::<F>(&tf, a), lp::<F>(&tf, b), lp::<F>(&tf, c));
    let mut t = ctx.call("Triangle2::new", || Triangle2::new(pa, pb, pc))?;
    let what = || format!("{} triangle {:?} {:?} {:?} via {:?}", F::NAME, a, b, c, tf);
    let same = |u: &Point2<F>, v: &Point2<F>| xy(u) == xy(v);
    ensure!(
        same(&t.a(), &pa) && same(&t.b(), &pb) && same(&t.c(), &pc),
        "{}: corners {:?}",
        what(),
        t
    );
    let vs = t.vertices();
    ensure!(
        same(&vs[0], &pa) && same(&vs[1], &pb) && same(&vs[2], &pc),
        "{}: vertices {:?}",
        what(),
        vs
    );
    let es = t.edges();
    for (e, (s, g)) in es.iter().zip([(pa, pb), (pb, pc), (pc, pa)]) {
        ensure!(
            same(&e.source(), &s) && same(&e.target(), &g),
            "{}: edge {:?} should go from {:?} to {:?}",
            what(),
            e,
            s,
            g
        );
    }
    let o = orient(a, b, c);
    let area = ctx.call("Triangle2::area", || t.area())?.f();
    let want = o as f64 / 2.0 * tf.scale * tf.scale;
    let tol = if tf.exact { 0.0 } else { 1e-11 };
    ensure!(close(area, want, tol), "{}: the area is {}, not {}", what(), area, want);
    if o != 0 {
        let dir = t.orientation();
        let want = if o > 0 { Orientation::CounterClockwise } else { Orientation::Clockwise };
        ensure!(dir == want, "{}: the orientation is {:?}", what(), dir);
    }
    ensure!(t == Triangle2::new(pa, pb, pc), "{}: not equal to itself", what());
    let other = Triangle2::new(pb, pc, pa);
    let equal = ctx.call("Triangle2::eq", || t == other)?;
    ensure!(equal == (a == b && b == c), "{}: equality with its corners turned is {}", what(), equal);
    let before = t.orientation();
    t.reverse_orientation();
    ensure!(t.orientation() != before, "{}: reversing keeps the orientation", what());
    ensure!(t.area().f() == -area, "{}: reversed, the area is {}", what(), t.area());
    ensure!(same(&t.a(), &pa) && same(&t.b(), &pb) && same(&t.c(), &pc), "{}: reversing moved a corner", what());
    // Its corners and edges are the same ones.
    for (i, (e, q)) in t.edges().iter().zip(t.vertices()).enumerate() {
        let (s, g) = [(pa, pb), (pb, pc), (pc, pa)][i];
        ensure!(
            same(&q, &s) && same(&e.source(), &s) && same(&e.target(), &g),
            "{}: reversed, corner {} is {:?} and its edge {:?}",
            what(), i, q, e
        );
    }
    t.reverse_orientation();
    ensure!(
        t.orientation() == before && t.area().f() == area && t == Triangle2::new(pa, pb, pc),
        "{}: reversing twice is not the identity",
        what()
    );
    ctx.judged(match sign(o) {
        1 => "counterclockwise",
        -1 => "clockwise",
        _ => "degenerate",
    });
    if o != 0 {
        ctx.nontrivial(hash_of(10, &tf, &[a, b, c]));
    }
    ctx.sample(what);
    Ok(())
}

fn triangles_lattice(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let r = *rng.pick(&[2, 8, 300, 1 << 14]);
    let tf = Tf::exact(rng, r, 65536.0);
    triangles::<f64>(ctx, rng, tf, r)
}

fn triangles_rotated(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::rigid(rng);
    triangles::<f64>(ctx, rng, tf, 12)
}

fn triangles_far(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::far(rng, 32);
    triangles::<f64>(ctx, rng, tf, 8)
}

fn triangles_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::exact(rng, 30, 128.0);
    triangles::<f32>(ctx, rng, tf, 30)
}

// ---------------------------------------------------------------------- arcs

pub fn turn_of(source: f64, target: f64) -> f64 {
    let mut t = (target - source) % TAU;
    if t < 0.0 {
        t += TAU;
    }
    if t < 1e-9 || t > TAU - 1e-9 {
        TAU
    } else {
        t
    }
}

/// An end of an arc: a lattice direction and its angle, maybe turns away.
pub fn arc_end(rng: &mut Rng, r: i64) -> (P, f64) {
    let d = if rng.chance(1, 3) {
        *rng.pick(&[p(1, 0), p(0, 1), p(-1, 0), p(0, -1), p(1, 1), p(-1, 1)])
    } else {
        let mut d = point(rng, r);
        while d == p(0, 0) {
            d = point(rng, r);
        }
        d
    };
    let mut a = (d.y as f64).atan2(d.x as f64);
    match rng.below(6) {
        0 => {}
        1 => a += 2.0 * TAU,
        2 => a += TAU * rng.range(-1, 2) as f64,
        _ => {
            if a < 0.0 {
                a += TAU
            }
        }
    }
    (d, a)
}

fn arcs(ctx: &mut Ctx, rng: &mut Rng) -> R {
    arcs_turned(ctx, rng, 0)
}

fn arcs_many_turns(ctx: &mut Ctx, rng: &mut Rng) -> R {
    arcs_turned(ctx, rng, 3000)
}

/// Arcs with ends just before or just after the extremes of their circle.
fn arcs_near_extremes(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let end = |rng: &mut Rng| match rng.below(4) {
        0 => rng.float(0.0, TAU),
        _ => {
            let d = *rng.pick(&[0.0, 1e-12, 2e-11, 3e-10, 1e-9, 1e-8, 1e-6, 1e-5, 1e-4, 3e-4, 1e-3, 1e-2]);
            (rng.range(0, 4) as f64 * PI / 2.0 + if rng.chance(1, 2) { d } else { -d }).rem_euclid(TAU)
        }
    };
    let (s, t) = (end(rng), end(rng));
    // No rounding to whole turns: a piece may be short.
    let turned = |s: f64, t: f64| if s == t { TAU } else { (t - s).rem_euclid(TAU) };
    let want = turned(s, t);
    if want < 1e-9 || (want > TAU - 1e-9 && want != TAU) {
        ctx.skip("nearly a full turn, or none");
        return Ok(());
    }
    let c = (rng.range(-20, 20) as f64 * 0.5, rng.range(-20, 20) as f64 * 0.5);
    let radius = *rng.pick(&[0.125, 1.0, 5.0, 40.0]);
    let circle = CircleSegment2::new(pt::<f64>(c), radius);
    let (i, j) = (TAU * rng.range(-1, 1) as f64, TAU * rng.range(-1, 1) as f64);
    let arc = ctx.call("ArcSegment2::new", || ArcSegment2::new(circle, s + i, t + j))?;
    let pieces = ctx.call("ArcSegment2::monotone", || arc.monotone())?;
    let what = || format!("arc around {:?} radius {} from {:?} to {:?}, pieces {:?}", c, radius, s + i, t + j, pieces.iter().map(|q| (q.source_radian(), q.target_radian())).collect::<Vec<_>>());
    let tol = 1e-12 * (1.0 + radius);
    ensure!(!pieces.is_empty() && pieces.len() <= 3, "{}: {} of them", what(), pieces.len());
    let mut total = 0.0;
    for (k, q) in pieces.iter().enumerate() {
        ensure!(xy(&q.center()) == c && q.radius() == radius, "{}: one of another circle", what());
        let from = if k == 0 { arc.source() } else { pieces[k - 1].target() };
        ensure!(dist(xy(&from), xy(&q.source())) < tol, "{}: piece {} does not follow", what(), k);
        // Within one half, up to the tolerance.
        let turn = turned(q.source_radian(), q.target_radian());
        let a = q.source_radian().rem_euclid(TAU);
        let a = if a > TAU - 1.1e-10 { a - TAU } else { a };
        let half = if a > PI - 1.1e-10 { TAU } else { PI };
        ensure!(a + turn <= half + 1.1e-10, "{}: piece {} from {:?} by {:?} is not monotone", what(), k, a, turn);
        let top = ctx.call("ArcSegment2::is_top", || q.is_top())?;
        // What is shorter than the tolerance is on either half.
        ensure!(top == (half == PI) || turn < 1e-9 || (a - PI).abs() < 1.1e-10 || a.abs() < 1.1e-10, "{}: piece {} is said to be {}", what(), k, if top { "upper" } else { "lower" });
        total += turn;
    }
    ensure!(dist(xy(&pieces[pieces.len() - 1].target()), xy(&arc.target())) < tol, "{}: they end elsewhere", what());
    ensure!(close(total, want, 1e-11), "{}: they turn by {:?}, the arc by {:?}", what(), total, want);
    ctx.judged("an end near an extreme");
    ctx.nontrivial(s.to_bits() ^ t.to_bits().rotate_left(7) ^ radius.to_bits());
    ctx.sample(what);
    Ok(())
}

/// Angles up to `far` turns away, and the rounding that brings.
fn arcs_turned(ctx: &mut Ctx, rng: &mut Rng, far: i64) -> R {
    let noise = if far > 0 { 50.0 } else { 1.0 };
    let r = *rng.pick(&[2, 5, 12]);
    let (u, mut s) = arc_end(rng, r);
    let (w, mut t) = if rng.chance(1, 12) {
        // Equal up to rounding.
        let noise = *rng.pick(&[0.0, 0.0, 1e-13, -1e-13]);
        (u, s + TAU * rng.range(-1, 2) as f64 + noise)
    } else {
        arc_end(rng, r)
    };
    s += TAU * rng.range(-far, far) as f64;
    t += TAU * rng.range(-far, far) as f64;
    let c = (rng.range(-20, 20) as f64 * 0.5, rng.range(-20, 20) as f64 * 0.5);
    let radius = *rng.pick(&[0.125, 0.5, 1.0, 2.0, 5.0, 13.0, 40.0]);
    let circle = CircleSegment2::new(pt::<f64>(c), radius);
    let arc = ctx.call("ArcSegment2::new", || ArcSegment2::new(circle, s, t))?;
    let what = || format!("arc around {:?} radius {} from {:?} ({:?}) to {:?} ({:?})", c, radius, s, u, t, w);
    ensure!(arc.segment_type() == Segment2Type::ArcSegment2, "{}: its type is {:?}", what(), arc.segment_type());
    ensure!(xy(&arc.center()) == c && arc.radius() == radius, "{}: center or radius {:?}", what(), arc);
    let full = u.cross(w) == 0 && u.dot(w) > 0;
    let at = |d: P| (c.0 + radius * d.x as f64 / d.len(), c.1 + radius * d.y as f64 / d.len());
    let tol = noise * 1e-12 * (1.0 + radius);
    if !full {
        ensure!(
            dist(xy(&arc.source()), at(u)) < tol && dist(xy(&arc.target()), at(w)) < tol,
            "{}: it goes from {:?} to {:?}",
            what(),
            arc.source(),
            arc.target()
        );
        for (a, b) in [(arc.source_radian(), s), (arc.target_radian(), t)] {
            let d = ((a - b) / TAU).round() * TAU;
            ensure!(close(a - d, b, noise * 1e-12), "{}: an end is at {}, not at {}", what(), a, b);
        }
    } else {
        ensure!(
            dist(xy(&arc.source()), xy(&arc.target())) < tol,
            "{}: the full turn is open: {:?} to {:?}",
            what(),
            arc.source(),
            arc.target()
        );
    }
    // Monotone pieces make up exactly the arc.
    let pieces = ctx.call("ArcSegment2::monotone", || arc.monotone())?;
    ensure!(!pieces.is_empty() && pieces.len() <= 3, "{}: {} monotone pieces", what(), pieces.len());
    ensure!(
        dist(xy(&pieces[0].source()), xy(&arc.source())) < tol
            && dist(xy(&pieces[pieces.len() - 1].target()), xy(&arc.target())) < tol,
        "{}: the pieces go from {:?} to {:?}",
        what(),
        pieces[0].source(),
        pieces[pieces.len() - 1].target()
    );
    let mut total = 0.0;
    for (i, q) in pieces.iter().enumerate() {
        ensure!(xy(&q.center()) == c && q.radius() == radius, "{}: piece {:?} of another circle", what(), q);
        if i > 0 {
            ensure!(
                dist(xy(&pieces[i - 1].target()), xy(&q.source())) < tol,
                "{}: the pieces {} and {} do not meet",
                what(),
                i - 1,
                i
            );
        }
        let a = q.source_radian().rem_euclid(TAU);
        let turn = turn_of(q.source_radian(), q.target_radian());
        total += turn;
        let a = if close(a, TAU, 1e-9) { 0.0 } else { a };
        let top = a < PI - 1e-9;
        let end = a + turn;
        ensure!(
            turn < PI + 1e-9 && end <= if top { PI + 1e-9 } else { TAU + 1e-9 },
            "{}: the piece from {} by {} is not monotone",
            what(),
            a,
            turn
        );
        let is_top = ctx.call("ArcSegment2::is_top", || q.is_top())?;
        ensure!(is_top == top, "{}: the piece from {} by {} is said to be {}", what(), a, turn, if is_top { "upper" } else { "lower" });
    }
    let want = turn_of(s, t);
    ensure!(close(total, want, 1e-9), "{}: the pieces turn by {}, the arc by {}", what(), total, want);
    // Upper arcs are those within the upper half.
    let is_top = ctx.call("ArcSegment2::is_top", || arc.is_top())?;
    let start = s.rem_euclid(TAU);
    let start = if close(start, TAU, 1e-9) { 0.0 } else { start };
    let upper = start < PI - 1e-9 && start + want <= PI + 1e-9;
    if !full {
        ensure!(is_top == upper, "{}: said to be {}", what(), if is_top { "upper" } else { "not upper" });
    }
    // Equality.
    let again = ArcSegment2::new(circle, s, t);
    ensure!(arc == again, "{}: not equal to itself", what());
    // An angle that is another direction.
    let mut other_angle = |a: f64| a + rng.float(1e-6, 6.0) * (if rng.chance(1, 2) { 1e-3 } else { 1.0 });
    let (s2, t2) = (other_angle(s), other_angle(t));
    let bigger = CircleSegment2::new(pt::<f64>(c), radius + 1e-6 * rng.range(1, 1_000_000) as f64);
    let moved = CircleSegment2::new(pt::<f64>((c.0 + 0.25, c.1 - 1e-3)), radius);
    let others = [
        (ArcSegment2::new(bigger, s, t), "radius", true),
        (ArcSegment2::new(moved, s, t), "center", true),
        (ArcSegment2::new(circle, s2, t), "source", !full && turn_of(s2, t) != TAU),
        (ArcSegment2::new(circle, s, t2), "target", !full && turn_of(s, t2) != TAU),
    ];
    for (other, part, judged) in &others {
        let equal = ctx.call("ArcSegment2::eq", || (arc == *other, *other == arc))?;
        ensure!(!judged || equal == (false, false), "{}: equal to one of another {}: {:?}", what(), part, other);
    }
    ctx.judged(&format!("{}{} pieces", if full { "full turn, " } else { "" }, pieces.len()));
    let mut h = Hasher::new(11);
    h.add(s.to_bits()).add(t.to_bits()).add(radius.to_bits()).add(c.0.to_bits()).add(c.1.to_bits());
    ctx.nontrivial(h.0);
    ctx.sample(what);
    Ok(())
}

/// Arcs in single precision within a turn, to its rounding.
fn arcs_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (u, s) = arc_end(rng, 5);
    let (w, t) = arc_end(rng, 5);
    let (s, t) = (s.rem_euclid(TAU), t.rem_euclid(TAU));
    if u.cross(w) == 0 && u.dot(w) > 0 || (u.y == 0 || w.y == 0) && t < s {
        ctx.skip("where rounding decides");
        return Ok(());
    }
    let c = (rng.range(-4, 4) as f64 * 0.25, rng.range(-4, 4) as f64 * 0.25);
    let radius = *rng.pick(&[0.125, 0.5, 1.0, 2.0]);
    let circle = CircleSegment2::new(pt::<f32>(c), radius as f32);
    let arc = ctx.call("ArcSegment2::new", || ArcSegment2::new(circle, s as f32, t as f32))?;
    let pieces = ctx.call("ArcSegment2::monotone", || arc.monotone())?;
    let what = || format!("f32 arc around {:?} radius {} from {:?} ({:?}) to {:?} ({:?}), pieces {:?}", c, radius, s, u, t, w, pieces.iter().map(|q| (q.source_radian(), q.target_radian())).collect::<Vec<_>>());
    let at = |d: P| (c.0 + radius * d.x as f64 / d.len(), c.1 + radius * d.y as f64 / d.len());
    let tol = 1e-5;
    ensure!(dist(xy(&arc.source()), at(u)) < tol && dist(xy(&arc.target()), at(w)) < tol, "{}: it goes from {:?} to {:?}", what(), arc.source(), arc.target());
    let turn = (t - s).rem_euclid(TAU);
    // The extremes strictly between the ends.
    let inner = [0.0, PI, TAU, 3.0 * PI, 2.0 * TAU].iter().filter(|e| **e > s + 1e-4 && **e < s + turn - 1e-4).count();
    ensure!(pieces.len() == inner + 1, "{}: {} of them, expected {}", what(), pieces.len(), inner + 1);
    let mut total = 0.0;
    for (i, q) in pieces.iter().enumerate() {
        let from = if i == 0 { at(u) } else { xy(&pieces[i - 1].target()) };
        ensure!(dist(from, xy(&q.source())) < tol, "{}: piece {} does not follow", what(), i);
        let a = (q.source_radian() as f64).rem_euclid(TAU);
        let turn = (q.target_radian() as f64 - q.source_radian() as f64).rem_euclid(TAU);
        total += turn;
        let middle = (a + turn / 2.0).rem_euclid(TAU);
        let top = ctx.call("ArcSegment2::is_top", || q.is_top())?;
        ensure!(turn < PI + tol && top == (middle < PI), "{}: piece {} is said to be {}", what(), i, if top { "upper" } else { "lower" });
    }
    ensure!(dist(xy(&pieces[pieces.len() - 1].target()), at(w)) < tol, "{}: they end elsewhere", what());
    ensure!(close(total, turn, tol), "{}: they turn by {}, the arc by {}", what(), total, turn);
    let again = ArcSegment2::new(circle, s as f32, t as f32);
    let near = ArcSegment2::new(circle, s as f32 + 1e-4, t as f32);
    ensure!(arc == again && arc != near, "{}: equality", what());
    ctx.bucket("f32");
    ctx.judged(&format!("{} pieces", pieces.len()));
    ctx.nontrivial(hash_of(91, &Tf::identity(), &[u, w]) ^ radius.to_bits());
    Ok(())
}

fn circles(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let c = (rng.range(-40, 40) as f64 * 0.25, rng.range(-40, 40) as f64 * 0.25);
    let radius = rng.range(1, 200) as f64 * 0.125;
    let circle = CircleSegment2::new(pt::<f64>(c), radius);
    ensure!(
        circle.segment_type() == Segment2Type::CircleSegment2 && xy(&circle.center()) == c && circle.radius() == radius,
        "circle {:?} {} became {:?}",
        c,
        radius,
        circle
    );
    let halves = ctx.call("CircleSegment2::monotone", || circle.monotone())?;
    ensure!(halves.len() == 2, "{:?} has {} monotone pieces", circle, halves.len());
    let tol = 1e-12 * (1.0 + radius);
    let (left, right) = ((c.0 - radius, c.1), (c.0 + radius, c.1));
    let mut tops = 0;
    for h in &halves {
        let top = ctx.call("ArcSegment2::is_top", || h.is_top())?;
        tops += top as i32;
        let (s, t) = if top { (right, left) } else { (left, right) };
        ensure!(
            dist(xy(&h.source()), s) < tol && dist(xy(&h.target()), t) < tol,
            "{:?}: the {} half goes from {:?} to {:?}",
            circle,
            if top { "upper" } else { "lower" },
            h.source(),
            h.target()
        );
        ensure!(xy(&h.center()) == c && h.radius() == radius, "{:?}: a half of another circle {:?}", circle, h);
    }
    ensure!(tops == 1, "{:?}: {} upper halves", circle, tops);
    ctx.judged("circle");
    let mut h = Hasher::new(12);
    h.add(c.0.to_bits()).add(c.1.to_bits()).add(radius.to_bits());
    ctx.nontrivial(h.0);
    Ok(())
}

// ---------------------------------------------------------------- half edges

fn half_edges(ctx: &mut Ctx, rng: &mut Rng) -> R {
    // A history of a vertex against a model that is a list of identities.
    let large = rng.chance(1, 25);
    let n = if large { rng.usize(6, 14) } else { rng.usize(2, 6) };
    let mut at: Vec<P> = Vec::new();
    while at.len() < n {
        let q = point(rng, 5);
        if !at.contains(&q) {
            at.push(q);
        }
    }
    let vertices: Vec<Rc<RefCell<Vertex2<f64>>>> = at
        .iter()
        .map(|q| Rc::new(RefCell::new(Vertex2::new(q.x as f64, q.y as f64))))
        .collect();
    let mut edges: Vec<(usize, usize, Rc<RefCell<Edge2<f64>>>)> = Vec::new();
    for _ in 0..if large { rng.usize(6, 40) } else { rng.usize(1, 6) } {
        let i = rng.usize(0, n - 1);
        let j = rng.usize(0, n - 1);
        // The edges of a vertex are told apart by their ends.
        if i == j || edges.iter().any(|e| (e.0, e.1) == (i, j)) {
            continue;
        }
        let e = Rc::new(RefCell::new(Edge2::new_segment(vertices[i].clone(), vertices[j].clone())));
        edges.push((i, j, e));
    }
    // An edge that is an arc may have the ends of one that is a segment, no other arc has.
    let mut arc = None;
    if rng.chance(1, 3) && !edges.is_empty() {
        let (i, j) = if rng.chance(1, 2) { (edges[0].0, edges[0].1) } else { (0, n - 1) };
        let e = Rc::new(RefCell::new(Edge2::new_arc(vertices[i].clone(), vertices[j].clone())));
        arc = Some(edges.len());
        edges.push((i, j, e));
    }
    let mut incident: Vec<Vec<usize>> = vec![Vec::new(); n];
    let mut history = String::new();
    let mut moved = false;
    for _ in 0..if large { rng.usize(100, 400) } else { rng.usize(4, 24) } {
        if edges.is_empty() {
            break;
        }
        let k = rng.usize(0, edges.len() - 1);
        let (i, j, e) = edges[k].clone();
        let v = if rng.chance(1, 12) {
            rng.usize(0, n - 1)
        } else if rng.chance(1, 2) {
            i
        } else {
            j
        };
        if rng.chance(1, 15) {
            // An end moves; the vertices go on holding what they hold.
            let (i, j) = if rng.chance(1, 2) { (v, j) } else { (i, v) };
            if i != j && (Some(k) == arc || !edges.iter().any(|e| (e.0, e.1) == (i, j))) {
                history.push_str(&format!(" e{} from v{} to v{};", k, i, j));
                e.borrow_mut().set_source(vertices[i].clone());
                e.borrow_mut().set_target(vertices[j].clone());
                (edges[k].0, edges[k].1) = (i, j);
                moved = true;
            }
            continue;
        }
        match rng.below(3) {
            // Now and then an edge that is there already: all of it goes again.
            0 | 1 if !incident[v].contains(&k) || rng.chance(1, 4) => {
                if incident[v].contains(&k) {
                    ctx.bucket("added twice");
                }
                history.push_str(&format!(" add e{} to v{};", k, v));
                ctx.call("Vertex2::add_edge", || vertices[v].borrow_mut().add_edge(e.clone()))?;
                incident[v].push(k);
            }
            _ => {
                history.push_str(&format!(" remove e{} from v{};", k, v));
                ctx.call("Vertex2::remove_edge", || vertices[v].borrow_mut().remove_edge(e.clone()))?;
                if incident[v].contains(&k) {
                    ctx.judged(if Some(k) == arc {
                        "removed an arc edge"
                    } else if moved {
                        "removed after ends moved"
                    } else {
                        "removed an incident edge"
                    });
                } else {
                    ctx.judged("removed an edge that is not incident");
                }
                incident[v].retain(|x| *x != k);
            }
        }
        for v in 0..n {
            let got = vertices[v].borrow().edges();
            let ok = got.len() == incident[v].len()
                && got.iter().zip(&incident[v]).all(|(g, k)| Rc::ptr_eq(g, &edges[*k].2));
            ensure!(
                ok,
                "vertex {} of {:?} has {} edges instead of {:?} after{}",
                v,
                at,
                got.len(),
                incident[v],
                history
            );
        }
    }
    for (k, (i, j, e)) in edges.iter().enumerate() {
        let s = ctx.call("Edge2::to_segment", || e.borrow().to_segment())?;
        ensure!(
            xy(&s.source()) == (at[*i].x as f64, at[*i].y as f64)
                && xy(&s.target()) == (at[*j].x as f64, at[*j].y as f64),
            "the edge from {:?} to {:?} is the segment {:?}",
            at[*i],
            at[*j],
            s
        );
        let b = e.borrow();
        ensure!(
            Rc::ptr_eq(&b.source(), &vertices[*i])
                && Rc::ptr_eq(&b.target(), &vertices[*j])
                && b.edge_type() == if Some(k) == arc { Edge2Type::Arc } else { Edge2Type::Segment },
            "the edge from {:?} to {:?} lost an end",
            at[*i],
            at[*j]
        );
        ensure!(b.twin().is_none() && b.next().is_none() && b.prev().is_none() && b.face().is_none(), "a new edge is linked");
        if Some(k) != arc {
            let other = Edge2::new_arc(vertices[*i].clone(), vertices[*j].clone());
            let equal = ctx.call("Edge2::eq", || (other == *b, *b == other))?;
            ensure!(
                other.edge_type() == Edge2Type::Arc && equal == (false, false),
                "an arc edge equals a segment edge"
            );
        }
    }
    // Links are kept as set, independently of each other: set one at a time,
    // some of them again, against a model.
    if !edges.is_empty() {
        let m = edges.len();
        let mut links: Vec<[Option<usize>; 3]> = vec![[None; 3]; m];
        let mut set = String::new();
        for _ in 0..rng.usize(1, 3 * m.min(12)) {
            let (k, t, which) = (rng.usize(0, m - 1), rng.usize(0, m - 1), rng.usize(0, 2));
            // Not to itself while it is borrowed.
            let other = edges[t].2.clone();
            {
                let mut e = edges[k].2.borrow_mut();
                match which {
                    0 => e.set_next(other),
                    1 => e.set_prev(other),
                    _ => e.set_twin(other),
                }
            }
            if links[k][which].is_some() {
                ctx.bucket("a link set again");
            }
            links[k][which] = Some(t);
            set.push_str(&format!(" {} of e{} to e{};", ["next", "prev", "twin"][which], k, t));
            for (k, l) in links.iter().enumerate() {
                let e = edges[k].2.borrow();
                let at = |o: Option<Rc<RefCell<Edge2<f64>>>>| o.map(|x| edges.iter().position(|e| Rc::ptr_eq(&x, &e.2)));
                let got = [at(e.next()), at(e.prev()), at(e.twin())];
                ensure!(
                    (0..3).all(|i| got[i] == l[i].map(Some)),
                    "next, prev and twin of edge {} are {:?}, expected {:?} after{}",
                    k, got, l, set
                );
                ensure!(
                    Rc::ptr_eq(&e.source(), &vertices[edges[k].0]) && Rc::ptr_eq(&e.target(), &vertices[edges[k].1]),
                    "edge {} lost an end after{}",
                    k, set
                );
            }
        }
        ctx.judged("links set one at a time");
    }
    if edges.len() >= 2 {
        let m = edges.len();
        let links: Vec<(usize, usize, usize)> = (0..m)
            .map(|_| (rng.usize(0, m - 1), rng.usize(0, m - 1), rng.usize(0, m - 1)))
            .collect();
        for (k, l) in links.iter().enumerate() {
            let mut e = edges[k].2.borrow_mut();
            e.set_next(edges[l.0].2.clone());
            e.set_prev(edges[l.1].2.clone());
            e.set_twin(edges[l.2].2.clone());
        }
        for (k, l) in links.iter().enumerate() {
            let e = edges[k].2.borrow();
            let is = |o: Option<Rc<RefCell<Edge2<f64>>>>, t: usize| o.map_or(false, |x| Rc::ptr_eq(&x, &edges[t].2));
            ensure!(
                is(e.next(), l.0) && is(e.prev(), l.1) && is(e.twin(), l.2),
                "edge {} of {} does not keep its links {:?}",
                k,
                m,
                l
            );
        }
        ctx.judged("linked edges");
        // Moving an end moves the segment, not the other edges.
        let k = rng.usize(0, m - 1);
        let v = rng.usize(0, n - 1);
        {
            let mut e = edges[k].2.borrow_mut();
            // Also to another vertex at the same place, and back.
            let (source, target) = (e.source(), e.target());
            let twin = |v: &Rc<RefCell<Vertex2<f64>>>| {
                let q = v.borrow().to_point();
                Rc::new(RefCell::new(Vertex2::new(q.x(), q.y())))
            };
            let (s, t) = (twin(&source), twin(&target));
            e.set_source(s.clone());
            e.set_target(t.clone());
            ensure!(
                Rc::ptr_eq(&e.source(), &s) && Rc::ptr_eq(&e.target(), &t),
                "the edge does not move to another vertex at the same place"
            );
            e.set_source(source);
            e.set_target(target);
            if rng.chance(1, 2) {
                e.set_source(vertices[v].clone());
                ensure!(Rc::ptr_eq(&e.source(), &vertices[v]), "set_source");
                ensure!(xy(&e.to_segment().source()) == (at[v].x as f64, at[v].y as f64), "set_source does not move the segment");
            } else {
                e.set_target(vertices[v].clone());
                ensure!(Rc::ptr_eq(&e.target(), &vertices[v]), "set_target");
                ensure!(xy(&e.to_segment().target()) == (at[v].x as f64, at[v].y as f64), "set_target does not move the segment");
            }
        }
    }
    // Break the cycles so that nothing is left behind.
    for (_, _, e) in &edges {
        let a = Rc::new(RefCell::new(Vertex2::new(0.0, 0.0)));
        let lone = Rc::new(RefCell::new(Edge2::new_segment(a.clone(), a)));
        let mut e = e.borrow_mut();
        e.set_next(lone.clone());
        e.set_prev(lone.clone());
        e.set_twin(lone);
    }
    // Equality of segment edges is equality of their ends.
    for (i, j, e) in &edges {
        for (k, l, f) in &edges {
            if Rc::ptr_eq(e, f) {
                continue;
            }
            let (a, b) = (e.borrow(), f.borrow());
            let same = ctx.call("Edge2::eq", || *a == *b)?;
            let (s, t) = (a.to_segment(), b.to_segment());
            let ends = xy(&s.source()) == xy(&t.source()) && xy(&s.target()) == xy(&t.target());
            ensure!(
                same == (ends && a.edge_type() == b.edge_type()),
                "edges {}-{} and {}-{}: equality is {}",
                i,
                j,
                k,
                l,
                same
            );
            ctx.judged("compared edges");
        }
    }
    for v in &vertices {
        let es = v.borrow().edges();
        for e in es {
            v.borrow_mut().remove_edge(e);
        }
    }
    let mut h = Hasher::new(13);
    for q in &at {
        hash_p(&mut h, *q);
    }
    h.add(harness::rng::hash_str(&history));
    ctx.nontrivial(h.0);
    ctx.sample(|| format!("vertices {:?}; edges {:?};{}", at, edges.iter().map(|e| (e.0, e.1)).collect::<Vec<_>>(), history));
    Ok(())
}

/// A vertex with many edges.
fn stars(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[20, 70, 200, 700, 2000]);
    let v = Rc::new(RefCell::new(Vertex2::new(0.0, 0.0)));
    let edges: Vec<Rc<RefCell<Edge2<f64>>>> = (0..n)
        .map(|_| {
            let w = Rc::new(RefCell::new(Vertex2::new(rng.range(-9, 9) as f64, rng.range(-9, 9) as f64)));
            Rc::new(RefCell::new(if rng.chance(1, 2) { Edge2::new_segment(v.clone(), w) } else { Edge2::new_segment(w, v.clone()) }))
        })
        .collect();
    let mut model: Vec<usize> = Vec::new();
    let mut history = 0u64;
    let check = |model: &[usize], what: &str| -> R {
        let got = v.borrow().edges();
        ensure!(
            got.len() == model.len() && got.iter().zip(model).all(|(g, k)| Rc::ptr_eq(g, &edges[*k])),
            "{} of {} edges: the vertex holds {} instead of {}, or others",
            what, n, got.len(), model.len()
        );
        Ok(())
    };
    for k in 0..n {
        ctx.call("Vertex2::add_edge", || v.borrow_mut().add_edge(edges[k].clone()))?;
        model.push(k);
    }
    check(&model, "after adding all")?;
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    for (i, k) in order.iter().enumerate() {
        if rng.chance(1, 10) {
            let again = *rng.pick(&order);
            ctx.call("Vertex2::add_edge", || v.borrow_mut().add_edge(edges[again].clone()))?;
            model.push(again);
            history += 1;
        }
        ctx.call("Vertex2::remove_edge", || v.borrow_mut().remove_edge(edges[*k].clone()))?;
        model.retain(|x| x != k);
        history = history.rotate_left(3) ^ *k as u64;
        if i % 8 == 0 {
            check(&model, "while removing")?;
        }
    }
    check(&model, "after removing all")?;
    v.borrow_mut().remove_edge(edges[0].clone());
    for k in model {
        v.borrow_mut().remove_edge(edges[k].clone());
    }
    ctx.judged("a vertex with many edges");
    ctx.note_max("edges of a vertex", n as u64);
    ctx.nontrivial(history ^ n as u64);
    Ok(())
}

/// Edges, vertices and segments whose ends differ by less or more than the tolerance.
fn edges_near_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::exact(rng, 8, 100.0);
    edges_near::<f64>(ctx, rng, tf)
}

fn edges_near_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::scaled((2f64).powi(rng.range(-6, -3) as i32));
    ctx.bucket("f32");
    edges_near::<f32>(ctx, rng, tf)
}

fn edges_near<F: Num>(ctx: &mut Ctx, rng: &mut Rng, tf: Tf) -> R {
    let (a, mut b) = (point(rng, 8), point(rng, 8));
    while a == b {
        b = point(rng, 8);
    }
    let moved = |rng: &mut Rng, q: P| {
        let (x, y) = tf.of(q);
        let d = F::EPS * *rng.pick(&[0.0, 0.1, 0.5, 2.0, 3.0, 10.0, 100.0, 1e4, 9e4]);
        let turn = rng.unit() * 6.3;
        ((x + d * turn.cos(), y + d * turn.sin()), d < F::EPS)
    };
    let ((c, same_a), (d, same_b)) = (moved(rng, a), moved(rng, b));
    let vertex = |q: (f64, f64)| Rc::new(RefCell::new(Vertex2::new(F::n(q.0), F::n(q.1))));
    let (va, vb, vc, vd) = (vertex(tf.of(a)), vertex(tf.of(b)), vertex(c), vertex(d));
    let equal = ctx.call("Vertex2::eq", || (va == vc, vd == vb))?;
    ensure!(equal == (same_a, same_b), "{:?} equals {:?}: {}; {:?} equals {:?}: {}", tf.of(a), c, equal.0, d, tf.of(b), equal.1);
    let (e, f) = (Edge2::new_segment(va, vb), Edge2::new_segment(vc, vd));
    let equal = ctx.call("Edge2::eq", || (e == f, f == e, e.to_segment() == f.to_segment()))?;
    let want = same_a && same_b;
    ensure!(
        equal == (want, want, want),
        "the edges from {:?} to {:?} and from {:?} to {:?} compare {:?}",
        tf.of(a),
        tf.of(b),
        c,
        d,
        equal
    );
    ctx.judged(match (same_a, same_b) {
        (true, true) => "ends within the tolerance",
        (false, false) => "both ends beyond the tolerance",
        _ => "one end beyond the tolerance",
    });
    ctx.nontrivial(hash_of(42, &tf, &[a, b]) ^ c.0.to_bits() ^ d.1.to_bits());
    Ok(())
}

/// A line through points of which one is nearly above or beside the other.
fn lines_steep(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let a = (rng.float(-40.0, 40.0), rng.float(-40.0, 40.0));
    let long = *rng.pick(&[1.0, -1.0]) * 10f64.powf(rng.float(-3.0, 2.0));
    let short = *rng.pick(&[1.0, -1.0]) * 10f64.powf(rng.float(-13.0, 0.0));
    let d = if rng.chance(2, 3) { (short, long) } else { (long, short) };
    let b = (a.0 + d.0, a.1 + d.1);
    if (b.0 - a.0).hypot(b.1 - a.1) < 1e-4 {
        ctx.skip("too short");
        return Ok(());
    }
    let (pa, pb) = (pt::<f64>(a), pt::<f64>(b));
    let line = ctx.call("Line2::from_points", || Line2::from_points(&pa, &pb))?;
    let norm = line.a().hypot(line.b());
    ensure!(norm > 0.0 && norm.is_finite(), "the line through {:?} and {:?} is {:?}", a, b, line);
    // A difference within the tolerance may be taken for none.
    let (dx, dy) = ((b.0 - a.0).abs(), (b.1 - a.1).abs());
    let tol = 1e-12 * (1.0 + dx.max(dy)) + if dx.min(dy) < 1.01e-10 { dx.min(dy) } else { 0.0 };
    for q in [a, b] {
        let off = (line.a() * q.0 + line.b() * q.1 + line.c()) / norm;
        ensure!(off.abs() < tol, "{:?} is {:e} off the line {:?} through {:?} and {:?}", q, off, line, a, b);
    }
    ctx.judged(if dx < dy { "nearly vertical" } else { "nearly horizontal" });
    ctx.bucket(&format!("slope 1e{}", (dy / dx.max(1e-300)).log10().round().clamp(-16.0, 16.0)));
    ctx.nontrivial(a.0.to_bits() ^ b.1.to_bits() ^ d.0.to_bits());
    ctx.sample(|| format!("{:?} {:?} -> {:?}", a, b, line));
    Ok(())
}

/// Line segments keep their ends and compare by them.
fn segments(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let tf = Tf::any(rng, 8, 2000.0);
    let (a, b) = (point(rng, 8), point(rng, 8));
    let (c, d) = (point_near(rng, 8, &[a, b]), point_near(rng, 8, &[b, a]));
    let s = ctx.call("LineSegment2::new", || seg::<f64>(&tf, a, b))?;
    let t = seg::<f64>(&tf, c, d);
    ensure!(xy(&s.source()) == tf.of(a) && xy(&s.target()) == tf.of(b), "segment {:?}", s);
    ensure!(s.segment_type() == Segment2Type::LineSegment2, "{:?} has type {:?}", s, s.segment_type());
    ensure!((s == t) == (a == c && b == d), "{:?} == {:?} is {}", s, t, s == t);
    ctx.judged(if (a, b) == (c, d) { "same segment" } else { "different segments" });
    ctx.nontrivial(hash_of(14, &tf, &[a, b, c, d]));
    let _: LineSegment2<f64> = s;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = lat::p;
    vec![
        Prop {
            id: "P01",
            stages: vec![
                Stage { name: "f64", cases: 120_000, run: scalar_f64 },
                Stage { name: "f32", cases: 120_000, run: scalar_f32 },
            ],
            rule: "a scalar of one of eight magnitudes, a second one, and a difference of 0 to 1e6 tolerances, for both scalar types; every case is non-trivial and counted by its values",
            assumptions: vec!["Rust's own f32 and f64 functions are the reference; differences between 0.999 and 1.001 tolerances, or that rounding blurs, are not judged"],
            required: vec!["equal within the tolerance", "different", "equal, away from zero", "different, away from zero"],
            silent: false,
        },
        Prop {
            id: "P02",
            stages: vec![
                Stage { name: "f64-lattice", cases: 120_000, run: vectors_f64 },
                Stage { name: "f32-lattice", cases: 60_000, run: vectors_f32 },
                Stage { name: "tolerance", cases: 40_000, run: vectors_tiny_f64 },
                Stage { name: "f32-tolerance", cases: 20_000, run: vectors_tiny_f32 },
                Stage { name: "factors", cases: 60_000, run: vectors_factors },
            ],
            rule: "two lattice vectors times a power of two, with forced zero, parallel and perpendicular pairs; non-trivial when the first is not zero; sums, products and quotients are compared exactly",
            assumptions: vec!["lattice up to 2^20 (f64) and 500 (f32), where products are exact"],
            required: vec!["zero vector", "parallel", "perpendicular", "general", "below the tolerance", "above the tolerance", "factor below the tolerance", "factor above 1e10"],
            silent: false,
        },
        Prop {
            id: "P03",
            stages: vec![
                Stage { name: "lattice", cases: 150_000, run: angle_lattice },
                Stage { name: "rotated", cases: 80_000, run: angle_rotated },
                Stage { name: "f32", cases: 40_000, run: angle_f32 },
                Stage { name: "near", cases: 100_000, run: angle_near },
            ],
            rule: "two non-zero lattice directions, with forced equal, opposite, perpendicular and scaled ones, exact or rotated; the angle is judged by the exact dot and cross products; and directions a turn apart that is 1e-13 to 1e-2 off nothing, a quarter, a half or a full turn, of lengths 2^-200 to 2^200; all count",
            assumptions: vec!["for parallel directions of different length 0 and a full turn are both accepted, as rounding decides"],
            required: vec!["same direction", "left of a", "right of a", "opposite", "just above nothing", "just below a full turn", "just below a half turn", "just above a half turn"],
            silent: false,
        },
        Prop {
            id: "P04",
            stages: vec![
                Stage { name: "lattice", cases: 120_000, run: points_lattice },
                Stage { name: "rotated", cases: 60_000, run: points_rotated },
                Stage { name: "f32", cases: 40_000, run: points_f32 },
                Stage { name: "tolerance", cases: 60_000, run: points_tolerance_f64 },
                Stage { name: "f32-tolerance", cases: 30_000, run: points_tolerance_f32 },
                Stage { name: "scales", cases: 100_000, run: turns_scaled },
                Stage { name: "far", cases: 100_000, run: points_far },
            ],
            rule: "three lattice points with forced coincidences and collinearities, exact or rotated, and pairs 1e-3 to 1e6 tolerances apart, in both scalar types; non-trivial when the first two differ",
            assumptions: vec!["pairs between 0.95 and 1.05 tolerances apart are not generated"],
            required: vec!["left turn", "right turn", "collinear", "repeated point", "within the tolerance", "beyond the tolerance", "turn below the tolerance", "small turn of a long edge"],
            silent: false,
        },
        Prop {
            id: "P05",
            stages: vec![
                Stage { name: "sets", cases: 3_000, run: order_f64 },
                Stage { name: "f32", cases: 1_500, run: order_f32 },
            ],
            rule: "sets of 3 to 24 points rich in repeated points and equal coordinates; all ordered pairs are compared and the set sorted; an evaluation is one pair, a distinct case one set; also in single precision, where coordinates are small",
            assumptions: vec!["pairs whose coordinates differ by 5e-11 to 2e-10 are not judged: within the tolerance the order is not transitive by construction"],
            required: vec!["f32", "equal", "same x", "different x", "equal up to rounding", "same x up to rounding", "just beyond the tolerance"],
            silent: false,
        },
        Prop {
            id: "P06",
            stages: vec![
                Stage { name: "coefficients", cases: 60_000, run: lines_equal_f64 },
                Stage { name: "f32", cases: 60_000, run: lines_equal_f32 },
                Stage { name: "f32-points", cases: 60_000, run: lines_from_points_f32 },
                Stage { name: "points", cases: 80_000, run: lines_from_points },
                Stage { name: "steep", cases: 100_000, run: lines_steep },
                Stage { name: "segments", cases: 30_000, run: segments },
            ],
            rule: "lines of small integer coefficients times a factor of 1e-13 to 1e13, and lines through two lattice points, exact or rotated, against other points of the same line and points beside it, and lines of every slope up to 1e15 through two points; all count; also in single precision, where coordinates are small",
            assumptions: vec!["lines are compared for slopes up to 20 and coordinates up to 60, where the tolerance of 1e-10 on products of coefficients is above rounding"],
            required: vec!["f32", "same line", "parallel", "crossing", "axis-parallel", "oblique", "same segment", "nearly vertical", "nearly horizontal"],
            silent: false,
        },
        Prop {
            id: "P07",
            stages: vec![
                Stage { name: "lattice", cases: 100_000, run: triangles_lattice },
                Stage { name: "rotated", cases: 40_000, run: triangles_rotated },
                Stage { name: "f32", cases: 40_000, run: triangles_f32 },
                Stage { name: "far", cases: 100_000, run: triangles_far },
            ],
            rule: "three lattice points with forced coincidences and collinearities; area and orientation judged by the exact determinant; non-trivial when it is not zero",
            assumptions: vec!["the orientation of a degenerate triangle is not judged"],
            required: vec!["counterclockwise", "clockwise", "degenerate"],
            silent: false,
        },
        Prop {
            id: "P08",
            stages: vec![
                Stage { name: "arcs", cases: 60_000, run: arcs },
                Stage { name: "many turns", cases: 20_000, run: arcs_many_turns },
                Stage { name: "near extremes", cases: 60_000, run: arcs_near_extremes },
                Stage { name: "circles", cases: 20_000, run: circles },
                Stage { name: "f32", cases: 40_000, run: arcs_f32 },
            ],
            rule: "arcs between two lattice directions given by angles up to two turns away, or up to 3000, including axis directions and full turns, and ends 0 to 0.01 before and after the extremes; ends, turn and monotone pieces judged by the directions; all count; also in single precision, where coordinates are small",
            assumptions: vec!["angles within about 20000 in absolute value"],
            required: vec!["f32", "1 pieces", "2 pieces", "3 pieces", "full turn, 2 pieces", "full turn, 3 pieces", "circle", "an end near an extreme"],
            silent: false,
        },
        Prop {
            id: "P42",
            stages: vec![
                Stage { name: "histories", cases: 40_000, run: half_edges },
                Stage { name: "near", cases: 40_000, run: edges_near_f64 },
                Stage { name: "near-f32", cases: 40_000, run: edges_near_f32 },
                Stage { name: "stars", cases: 60, run: stars },
            ],
            rule: "histories of 4 to 24 (some of 100 to 400) additions and removals of edges, of moved ends between them, against a list of identities, edges added twice and up to 2000 edges of one vertex among them, then links set one at a time, moved ends and equality, also with ends apart by half and by two tolerances; counted by history; also in single precision, where coordinates are small",
            assumptions: vec!["edges of one vertex differ in their ends", "conversion of arc edges is unimplemented in the code (todo!) and not exercised"],
            required: vec!["f32", "removed an incident edge", "removed an edge that is not incident", "linked edges", "compared edges", "removed an arc edge", "links set one at a time", "a vertex with many edges", "removed after ends moved", "one end beyond the tolerance", "ends within the tolerance"],
            silent: false,
        },
    ]
}
