//! The two scalar types the library is instantiated with, and the way lattice
//! objects become the library's.
use harness::ctx::Hasher;
use harness::lat::{Tf, P};
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::number_type::{DefaultNumberValueTrait, NumberType};
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::vector_2::Vector2;

pub trait Num: NumberType + 'static {
    const NAME: &'static str;
    const EPS: f64;
    fn f(self) -> f64;
    fn n(v: f64) -> Self {
        <Self as DefaultNumberValueTrait>::from_f64(v)
    }
}

impl Num for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = 1e-10;
    fn f(self) -> f64 {
        self
    }
}

impl Num for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = 1e-6;
    fn f(self) -> f64 {
        self as f64
    }
}

/// Some zeros are negative ones, the same at the same place every time.
fn zeros(c: (f64, f64)) -> (f64, f64) {
    let negative = |z: f64, other: f64| z == 0.0 && harness::rng::mix(other.to_bits()) % 4 == 0;
    (if negative(c.0, c.1) { -0.0 } else { c.0 }, if negative(c.1, c.0) { -0.0 } else { c.1 })
}

pub fn pt<F: Num>(c: (f64, f64)) -> Point2<F> {
    let c = zeros(c);
    Point2::new(F::n(c.0), F::n(c.1))
}

pub fn vc<F: Num>(c: (f64, f64)) -> Vector2<F> {
    let c = zeros(c);
    Vector2::new(F::n(c.0), F::n(c.1))
}

pub fn lp<F: Num>(tf: &Tf, q: P) -> Point2<F> {
    pt(tf.of(q))
}

pub fn seg<F: Num>(tf: &Tf, a: P, b: P) -> LineSegment2<F> {
    LineSegment2::new(lp(tf, a), lp(tf, b))
}

pub fn xy<F: Num>(q: &Point2<F>) -> (f64, f64) {
    (q.x().f(), q.y().f())
}

pub fn dist(a: (f64, f64), b: (f64, f64)) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}

pub fn hash_tf(h: &mut Hasher, tf: &Tf) {
    let o = tf.at(0.0, 0.0);
    let u = tf.at(1.0, 0.0);
    h.add(o.0.to_bits()).add(o.1.to_bits()).add(u.0.to_bits()).add(u.1.to_bits());
}

pub fn hash_p(h: &mut Hasher, q: P) {
    h.add(q.x as u64).add(q.y as u64);
}

pub fn hash_of(tag: u64, tf: &Tf, qs: &[P]) -> u64 {
    let mut h = Hasher::new(tag);
    hash_tf(&mut h, tf);
    for q in qs {
        hash_p(&mut h, *q);
    }
    h.0
}

pub fn show<F: Num>(points: &[Point2<F>]) -> String {
    let v: Vec<String> = points.iter().map(|q| format!("({:?}, {:?})", q.x(), q.y())).collect();
    format!("[{}]", v.join(", "))
}

pub fn show_xy(points: &[(f64, f64)]) -> String {
    let v: Vec<String> = points.iter().map(|q| format!("({:?}, {:?})", q.0, q.1)).collect();
    format!("[{}]", v.join(", "))
}

/// Every `must` appears among the results within its tolerance, once unless another
/// expected point is close, and every result is a `must` or a `may`.
pub fn same_points(
    got: &[(f64, f64)],
    must: &[((f64, f64), f64)],
    may: &[((f64, f64), f64)],
) -> Result<(), String> {
    for g in got {
        if !g.0.is_finite() || !g.1.is_finite() {
            return Err(format!("returned a point that is not finite: {:?}", g));
        }
    }
    for (m, tol) in must {
        if !got.iter().any(|g| dist(*g, *m) <= *tol) {
            return Err(format!("missed the point {:?}; returned {}", m, show_xy(got)));
        }
        let alone = must.iter().chain(may).filter(|(o, t)| dist(*o, *m) <= tol + t).count() == 1;
        if alone && got.iter().filter(|g| dist(**g, *m) <= *tol).count() > 1 {
            return Err(format!("returned the point {:?} more than once: {}", m, show_xy(got)));
        }
    }
    for g in got {
        if !must.iter().chain(may).any(|(m, tol)| dist(*g, *m) <= *tol) {
            return Err(format!(
                "returned {:?}, which is none of the expected {:?}",
                g,
                must.iter().map(|m| m.0).collect::<Vec<_>>()
            ));
        }
    }
    Ok(())
}
