//! Units of work drawn from the whole public interface: the arguments are fixed
//! when a job is made, running it returns every bit of the answer.
use crate::num::*;
use harness::rng::Rng;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::line_2_line_2::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_ray_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::triangle_2::Triangle2;
use std::sync::Arc as Shared;

pub type Bits = Vec<u64>;

#[derive(Clone)]
pub struct Job {
    pub name: &'static str,
    pub desc: String,
    /// How many objects it works on.
    pub size: usize,
    pub run: Shared<dyn Fn() -> Bits + Send + Sync>,
}

/// Where coordinates come from, in the range of the scalar type.
pub type Source<'a> = &'a mut dyn FnMut(&mut Rng) -> (f64, f64);

fn bit<F: Num>(v: F) -> u64 {
    let v = v.f();
    // Any not-a-number is as good as another.
    if v.is_nan() { 0x7ff8_dead } else { v.to_bits() }
}

fn put<F: Num>(out: &mut Bits, q: &Point2<F>) {
    out.push(bit(q.x()));
    out.push(bit(q.y()));
}

fn puts<F: Num>(out: &mut Bits, qs: &[Point2<F>]) {
    out.push(qs.len() as u64);
    for q in qs {
        put(out, q);
    }
}

fn word(out: &mut Bits, v: impl std::fmt::Debug) {
    out.push(harness::rng::hash_str(&format!("{:?}", v)));
}

#[derive(Clone, Copy, Debug)]
pub enum Any<F: Num> {
    Line(LineSegment2<F>),
    Circle(CircleSegment2<F>),
    Arc(ArcSegment2<F>),
}

macro_rules! with_any {
    ($s:expr, $v:ident, $e:expr) => {
        match $s {
            Any::Line($v) => $e,
            Any::Circle($v) => $e,
            Any::Arc($v) => $e,
        }
    };
}

fn radian<F: Num>(rng: &mut Rng) -> F {
    let huge = rng.float(3.0, 300.0);
    let huge = if F::n(1e300).f().is_finite() { huge } else { 3.0 + (huge - 3.0) / 9.0 };
    F::n(match rng.below(7) {
        6 => 10f64.powf(huge) * if rng.chance(1, 2) { 1.0 } else { -1.0 },
        0 => std::f64::consts::FRAC_PI_2 * rng.range(-20, 20) as f64,
        1 => std::f64::consts::FRAC_PI_4 * rng.range(-40, 40) as f64 + rng.float(-1e-9, 1e-9),
        2 => rng.float(-1e3, 1e3),
        3 => rng.float(-1e-9, 1e-9),
        _ => rng.float(-7.0, 7.0),
    })
}

/// Half the largest magnitude in sight, so that circles reach the points.
fn radius<F: Num>(rng: &mut Rng, src: Source) -> F {
    let q = src(rng);
    let r = match rng.below(4) {
        0 => q.0.abs(),
        1 => q.1.abs(),
        2 => (q.0 - q.1).abs(),
        _ => q.0.hypot(q.1),
    };
    F::n(if r.is_finite() { r } else { q.0.abs() })
}

pub fn arc<F: Num>(c: CircleSegment2<F>, a: F, b: F) -> ArcSegment2<F> {
    ArcSegment2::new(c, a, b)
}

fn any<F: Num>(rng: &mut Rng, src: Source, curves: bool) -> Box<dyn Fn() -> Any<F> + Send + Sync>
where
    F: Send + Sync,
{
    let a = pt::<F>(src(rng));
    let b = if rng.chance(1, 12) { a } else { pt::<F>(src(rng)) };
    match if curves { rng.below(4) } else { 0 } {
        2 => {
            let r = radius::<F>(rng, src);
            Box::new(move || Any::Circle(CircleSegment2::new(a, r)))
        }
        3 => {
            let r = radius::<F>(rng, src);
            let (s, t) = (radian::<F>(rng), radian::<F>(rng));
            Box::new(move || Any::Arc(ArcSegment2::new(CircleSegment2::new(a, r), s, t)))
        }
        _ => Box::new(move || Any::Line(LineSegment2::new(a, b))),
    }
}

pub const NAMES: [&str; 14] = [
    "point", "vector", "line", "ray", "segment", "triangle", "polygon", "hull", "earcut", "circle", "arc", "crossing",
    "pair", "sweep",
];

/// Points for a polygon: mostly in order of angle, so that some are simple.
fn outline<F: Num>(rng: &mut Rng, src: Source, max: usize) -> Vec<Point2<F>> {
    let n = rng.usize(0, max);
    let mut v: Vec<(f64, f64)> = (0..n).map(|_| src(rng)).collect();
    if !rng.chance(1, 4) && n > 0 {
        let c = (
            v.iter().map(|q| q.0 / n as f64).sum::<f64>(),
            v.iter().map(|q| q.1 / n as f64).sum::<f64>(),
        );
        let key = |q: &(f64, f64)| (q.1 - c.1).atan2(q.0 - c.0);
        v.sort_by(|a, b| key(a).total_cmp(&key(b)));
        if rng.chance(1, 2) {
            v.reverse();
        }
    }
    v.into_iter().map(pt).collect()
}

pub fn job<F: Num + Send + Sync>(rng: &mut Rng, src: Source, max: usize) -> Job {
    let name = *rng.pick(&NAMES);
    job_of::<F>(name, rng, src, max)
}

pub fn job_of<F: Num + Send + Sync>(name: &'static str, rng: &mut Rng, src: Source, max: usize) -> Job {
    let p = pt::<F>(src(rng));
    let q = pt::<F>(src(rng));
    let r = if rng.chance(1, 8) { q } else { pt::<F>(src(rng)) };
    let s = pt::<F>(src(rng));
    let k = p.x();
    let make = |desc: String, size: usize, run: Shared<dyn Fn() -> Bits + Send + Sync>| Job {
        name,
        desc: format!("{} ({}) {}", name, F::NAME, desc),
        size,
        run,
    };
    match name {
        "point" => make(
            format!("{:?} {:?} {:?}", p, q, r),
            3,
            Shared::new(move || {
                let mut o = vec![];
                word(&mut o, (p.equals(&q), p == q, p.cmp(&q), Point2::turn(&p, &q, &r)));
                o.push(bit(p.distance(&q)));
                let d = p + q;
                o.push(bit(d.x()));
                o.push(bit(d.y()));
                let v = p.get_vector();
                o.push(bit(v.length()));
                let d = p - r;
                o.push(bit(d.x()));
                o
            }),
        ),
        "vector" => make(
            format!("{:?} {:?} * {:?}", p, q, k),
            2,
            Shared::new(move || {
                let (u, v) = (p.get_vector(), q.get_vector());
                let mut o = vec![];
                for w in [u + v, u - v, u * k, u / k, u.normalize()] {
                    o.push(bit(w.x()));
                    o.push(bit(w.y()));
                }
                for f in [u.dot(&v), u.cross(&v), u.length(), u.radian_to(&v)] {
                    o.push(bit(f));
                }
                word(&mut o, u == v);
                o
            }),
        ),
        "line" => {
            let (a, b, c) = (s.x(), s.y(), r.x());
            let coefficients = rng.chance(1, 2);
            make(
                format!("through {:?} {:?} and {:?} {:?} {:?}; {:?}", p, q, a, b, c, r),
                3,
                Shared::new(move || {
                    let l = Line2::from_points(&p, &q);
                    let m = if coefficients { Line2::new(a, b, c) } else { Line2::from_points(&r, &s) };
                    let mut o = vec![bit(l.a()), bit(l.b()), bit(l.c())];
                    word(&mut o, (l == m, locate_point_2_line_2(&r, &l), is_point_2_on_line_2(&s, &m)));
                    put(&mut o, &point_2_project_line_2(&r, &l));
                    put(&mut o, &point_2_project_line_2(&q, &m));
                    o
                }),
            )
        }
        "ray" => make(
            format!("from {:?} along {:?}; {:?}", p, q, r),
            2,
            Shared::new(move || {
                let ray = Ray2::new(p, q.get_vector());
                let mut o = vec![];
                word(&mut o, (is_point_2_on_ray_2(&r, &ray), locate_point_2_ray_2(&r, &ray)));
                put(&mut o, &ray.origin());
                o
            }),
        ),
        "segment" => make(
            format!("{:?} {:?}; {:?}", p, q, r),
            2,
            Shared::new(move || {
                let l = LineSegment2::new(p, q);
                let mut o = vec![];
                word(&mut o, (is_point_2_on_line_segment_2(&r, &l), locate_point_2_line_segment_2(&r, &l)));
                word(&mut o, l == LineSegment2::new(r, s));
                match point_2_project_line_segment_2(&r, &l) {
                    Some(f) => put(&mut o, &f),
                    None => o.push(0),
                }
                o
            }),
        ),
        "triangle" => make(
            format!("{:?} {:?} {:?}; {:?}", p, q, r, s),
            4,
            Shared::new(move || {
                let mut t = Triangle2::new(p, q, r);
                let mut o = vec![bit(t.area())];
                word(&mut o, (t.orientation(), locate_point_2_triangle_2(&s, &t)));
                t.reverse_orientation();
                puts(&mut o, &t.vertices());
                word(&mut o, t.orientation());
                o
            }),
        ),
        "polygon" => {
            let v = outline::<F>(rng, src, max);
            make(
                format!("{:?}; {:?}", v, s),
                v.len(),
                Shared::new(move || {
                    let g = Polygon2::new(v.clone());
                    let mut o = vec![bit(g.area())];
                    word(&mut o, (g.is_simple(), g.is_convex(), g.edges().len()));
                    for q in [s, r] {
                        word(&mut o, locate_point_2_polygon_2(&q, &g));
                        word(&mut o, (is_point_2_on_polygon_2(&q, &g), is_point_2_inside_polygon_2(&q, &g)));
                        word(&mut o, is_point_2_outside_polygon_2(&q, &g));
                    }
                    puts(&mut o, &g.vertices());
                    o
                }),
            )
        }
        "hull" => {
            let n = rng.usize(0, 4 * max);
            let v: Vec<Point2<F>> = (0..n).map(|_| pt(src(rng))).collect();
            make(
                format!("{:?}", v),
                n,
                Shared::new(move || {
                    let mut h = ConvexHull2::new(v.clone());
                    let mut o = vec![];
                    puts(&mut o, &h.convex_hull());
                    puts(&mut o, &h.convex_hull());
                    o
                }),
            )
        }
        "earcut" => {
            let v = outline::<F>(rng, src, max);
            make(
                format!("{:?}", v),
                v.len(),
                Shared::new(move || {
                    let mut o = vec![];
                    // It rejects what is not simple by a panic.
                    if Polygon2::new(v.clone()).is_simple() {
                        for t in earcut_2(Polygon2::new(v.clone())) {
                            o.extend(t.iter().map(|i| *i as u64));
                        }
                    }
                    o
                }),
            )
        }
        "circle" => {
            let rad = radius::<F>(rng, src);
            make(
                format!("{:?} {:?}; {:?}", p, rad, q),
                2,
                Shared::new(move || {
                    let c = CircleSegment2::new(p, rad);
                    let mut o = vec![];
                    word(&mut o, (is_point_2_on_circle_segment_2(&q, &c), locate_point_2_circle_segment_2(&q, &c)));
                    for a in c.monotone() {
                        put(&mut o, &a.source());
                        put(&mut o, &a.target());
                    }
                    o
                }),
            )
        }
        "arc" => {
            let rad = radius::<F>(rng, src);
            let (from, to) = (radian::<F>(rng), radian::<F>(rng));
            make(
                format!("{:?} {:?} from {:?} to {:?}; {:?}", p, rad, from, to, q),
                2,
                Shared::new(move || {
                    let a = ArcSegment2::new(CircleSegment2::new(p, rad), from, to);
                    let mut o = vec![];
                    put(&mut o, &a.source());
                    put(&mut o, &a.target());
                    word(&mut o, (is_point_2_on_arc_segment_2(&q, &a), locate_point_2_arc_segment_2(&q, &a)));
                    for m in a.monotone() {
                        word(&mut o, m.is_top());
                        put(&mut o, &m.source());
                        put(&mut o, &m.target());
                    }
                    o
                }),
            )
        }
        "crossing" => make(
            format!("{:?} {:?} {:?} {:?}", p, q, r, s),
            2,
            Shared::new(move || {
                let (l, m) = (Line2::from_points(&p, &q), Line2::from_points(&r, &s));
                let ray = Ray2::new(r, s.get_vector());
                let g = LineSegment2::new(p, q);
                let mut o = vec![];
                for x in [line_2_line_2_intersection(&l, &m), line_2_ray_2_intersection(&l, &ray)] {
                    match x {
                        Some(x) => put(&mut o, &x),
                        None => o.push(0),
                    }
                }
                word(&mut o, (is_line_2_line_2_intersected(&l, &m), is_line_2_ray_2_intersected(&l, &ray)));
                word(&mut o, is_line_segment_2_ray_2_intersected(&g, &ray));
                puts(&mut o, &line_segment_2_ray_2_intersection(&g, &ray));
                o
            }),
        ),
        "pair" => {
            let (x, y) = (any::<F>(rng, src, true), any::<F>(rng, src, true));
            make(
                format!("{:?} and {:?}", x(), y()),
                2,
                Shared::new(move || {
                    let mut o = vec![];
                    let found = with_any!(x(), a, with_any!(y(), b, segment_2_segment_2_intersection(&a, &b)));
                    puts(&mut o, &found);
                    word(&mut o, with_any!(x(), a, with_any!(y(), b, is_segment_2_segment_2_intersected(&a, &b))));
                    o
                }),
            )
        }
        "sweep" => {
            let curves = rng.chance(1, 2);
            let n = rng.usize(0, max);
            let v: Vec<_> = (0..n).map(|_| any::<F>(rng, src, curves)).collect();
            make(
                format!("{:?}", v.iter().map(|x| x()).collect::<Vec<_>>()),
                n,
                Shared::new(move || {
                    let mut sweep = SweepSegment2Intersection::new();
                    for x in &v {
                        with_any!(x(), a, sweep.push_segment(&a));
                    }
                    let mut o = vec![];
                    puts(&mut o, &sweep.intersection());
                    puts(&mut o, &sweep.intersection());
                    o
                }),
            )
        }
        _ => unreachable!(),
    }
}
