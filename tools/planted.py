"""The planted bugs: each breaks one property, compiles and passes the repository's tests."""

PRELUDE = r'''#![allow(dead_code, unused_imports)]
use rcgal::algorithm::convex_hull::convex_hull_2::*;
use rcgal::algorithm::intersection::{line_2_line_2::*, line_2_ray_2::*, line_segment_2_ray_2::*, segment_2_segment_2::*, sweep_segment_2_intersection::*};
use rcgal::algorithm::location::{location_enum::*, point_2_arc_segment_2::*, point_2_circle_segment_2::*, point_2_line_2::*, point_2_line_segment_2::*, point_2_polygon_2::*, point_2_ray_2::*, point_2_triangle_2::*};
use rcgal::algorithm::projection::{point_2_line_2::*, point_2_line_segment_2::*};
use rcgal::algorithm::triangulation::earcut_2::*;
use rcgal::kernel::{arc_segment_2::*, circle_segment_2::*, edge_2::*, face_2::*, line_2::*, line_segment_2::*, number_type::*, point_2::*, polygon_2::*, ray_2::*, segment_2::*, triangle_2::*, util_enum::*, vector_2::*, vertex_2::*};

type P = Point2<f64>;
fn p(x: f64, y: f64) -> P {
    Point2::new(x, y)
}
fn seg(a: P, b: P) -> LineSegment2<f64> {
    LineSegment2::new(a, b)
}
fn circle(x: f64, y: f64, r: f64) -> CircleSegment2<f64> {
    CircleSegment2::new(p(x, y), r)
}
fn arc(x: f64, y: f64, r: f64, s: f64, t: f64) -> ArcSegment2<f64> {
    ArcSegment2::new(circle(x, y, r), s, t)
}
fn near(a: &P, b: &P) -> bool {
    (a.x() - b.x()).abs() < 1e-6 && (a.y() - b.y()).abs() < 1e-6
}
fn same(a: &[P], b: &[P]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| near(x, y))) && b.iter().all(|x| a.iter().any(|y| near(x, y)))
}
fn is(got: &[P], want: &[P]) {
    assert!(same(got, want), "{:?} instead of {:?}", got, want);
}
struct Rng(u64);
impl Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % n
    }
    fn int(&mut self, n: u64) -> f64 {
        self.below(n) as f64
    }
}
/// The sweep must find what asking all pairs finds.
fn sweep_is_pairs(segments: &[LineSegment2<f64>]) {
    let mut sweep = SweepSegment2Intersection::new();
    let mut pairs: Vec<P> = Vec::new();
    for (i, a) in segments.iter().enumerate() {
        sweep.push_segment(a);
        for b in &segments[..i] {
            for q in segment_2_segment_2_intersection(a, b) {
                if !pairs.iter().any(|r| near(r, &q)) {
                    pairs.push(q);
                }
            }
        }
    }
    let got = sweep.intersection();
    assert!(same(&got, &pairs), "{:?}\nsweep {:?}\npairs {:?}", segments, got, pairs);
}
fn random_segments(rng: &mut Rng, n: usize, size: u64) -> Vec<LineSegment2<f64>> {
    let mut result = Vec::new();
    while result.len() < n {
        let a = p(rng.int(size), rng.int(size));
        let b = p(rng.int(size), rng.int(size));
        if a != b {
            result.push(seg(a, b));
        }
    }
    result
}
fn area_of(points: &[P]) -> f64 {
    (0..points.len()).map(|i| { let (a, b) = (points[i], points[(i + 1) % points.len()]); (a.x() * b.y() - a.y() * b.x()) / 2.0 }).sum()
}
/// A polygon that is a star seen from the origin, counterclockwise.
fn star(rng: &mut Rng, n: usize) -> Vec<P> {
    (0..n).map(|i| {
        let t = i as f64 / n as f64 * 2.0 * std::f64::consts::PI;
        let r = 1.0 + rng.int(100) / 10.0;
        p((r * t.cos() * 1e3).round() / 1e3, (r * t.sin() * 1e3).round() / 1e3)
    }).collect()
}
fn triangulated(points: &[P]) {
    let triangles = earcut_2(Polygon2::new(points.to_vec()));
    assert_eq!(triangles.len(), points.len() - 2, "{:?}", points);
    let sum: f64 = triangles.iter().map(|t| area_of(&[points[t[0]], points[t[1]], points[t[2]]]).abs()).sum();
    assert!((sum - area_of(points).abs()).abs() < 1e-6, "{:?}: {} instead of {}", points, sum, area_of(points));
}

'''

A = 'src/algorithm/'
I = A + 'intersection/'
L = A + 'location/'
K = 'src/kernel/'
D = 'src/data_structure/'
SWEEP = I + 'sweep_segment_2_intersection.rs'
EAR = A + 'triangulation/earcut_2.rs'
ALG = A; INT = I; LOC = L; PRJ = A + 'projection/'

BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


bug('f32-pi-short', 'P01', 'arithmetic in f32: every test is in f64',
    'pi of f32 is off by 2.7e-6, more than its tolerance',
    [(K + 'number_type.rs', '        std::f32::consts::PI\n', '        3.14159\n')],
    r'''
fn main() {
    assert!(<f32 as DefaultNumberValueTrait>::pi().equals(std::f32::consts::PI));
}
''')

bug('divide-guard', 'P02', 'dividing a vector by a number smaller than the tolerance',
    'a guard against dividing by zero returns the vector itself for any divisor within the tolerance of zero',
    [(K + 'vector_2.rs', '        Self::new(self.x / rhs, self.y / rhs)\n',
      '        let rhs = if rhs.equals(T::zero()) { T::from_f64(1.0) } else { rhs };\n        let (x, y) = (self.x / rhs, self.y / rhs);\n        Self::new(x, y)\n')],
    r'''
fn main() {
    let v = Vector2::new(2.0e-11, 1.0e-11) / 1.0e-11;
    assert!((v.x() - 2.0f64).abs() < 1e-9 && (v.y() - 1.0).abs() < 1e-9, "{:?}", v);
}
''')

bug('angle-negative', 'P03', 'two vectors whose angles differ by less than the tolerance, the second a little clockwise',
    'the angle between two vectors comes out negative',
    [(K + 'vector_2.rs', '        if radian < T::zero() {', '        if radian < T::zero() && !radian.equals(T::zero()) {')],
    r'''
fn main() {
    let angle = Vector2::new(1.0, 2.0).radian_to(&Vector2::new(1.0, 2.0 - 1e-12));
    assert!(angle >= 0.0, "{}", angle);
}
''')

bug('turn-normalized', 'P04', 'three points less than the tolerance apart, where a vector is not normalized',
    'the turn is computed from normalized vectors, so a short edge with a real turn is judged by its length',
    [(K + 'point_2.rs', '        let cross = pq.cross(&qr);\n', '        let cross = pq.normalize().cross(&qr.normalize());\n')],
    r'''
fn main() {
    // The cross product is 1e-5 * 1e-6 * sine: below the tolerance.
    let turn = Point2::turn(&p(0.0, 0.0), &p(1e-6, 0.0), &p(2e-6, 1e-6));
    assert_eq!(turn, TurnDirection::Collinear);
    let turn = Point2::turn(&p(0.0, 0.0), &p(1e6, 0.0), &p(2e6, 1e-5));
    assert_eq!(turn, TurnDirection::Left);
}
''')

bug('vertex-order-exact', 'P05', 'vertices whose x differs by less than the tolerance',
    'the order of vertices compares x exactly, so vertices that are equal are ordered',
    [(K + 'vertex_2.rs', '        if self.x().equals(other.x()) {', '        if self.x() == other.x() {')],
    r'''
fn main() {
    let a = Vertex2::new(1.0, 2.0);
    let b = Vertex2::new(1.0 + 1e-12, 2.0);
    assert!(a == b);
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal);
}
''')

bug('triangle-area-sign', 'P07', 'the area of a triangle whose orientation was reversed',
    'the area takes its sign from the corners and not from the orientation that was set',
    [(K + 'triangle_2.rs', '        let area = cross.abs() / T::from_f64(2.0);\n        match self.orientation {',
      '        let area = cross.abs() / T::from_f64(2.0);\n        match Self::calculate_orientation(&a, &b, &c) {')],
    r'''
fn main() {
    let mut t = Triangle2::new(p(0.0, 0.0), p(4.0, 0.0), p(0.0, 2.0));
    assert_eq!(t.area(), 4.0);
    t.reverse_orientation();
    assert_eq!(t.area(), -4.0);
}
''')

bug('full-arc-from-start', 'P08', 'an arc given by equal angles other than 0',
    'equal angles mean the whole circle, but only the end angle is set',
    [(K + 'arc_segment_2.rs', '            source_radian = T::zero();\n            target_radian = T::pi() * T::from_f64(2.0);\n',
      '            target_radian = T::pi() * T::from_f64(2.0);\n')],
    r'''
fn main() {
    let full = arc(1.0, 2.0, 5.0, 2.0, 2.0);
    for k in 0..24 {
        let t = k as f64 * std::f64::consts::PI / 12.0;
        let q = p(1.0 + 5.0 * t.cos(), 2.0 + 5.0 * t.sin());
        assert!(is_point_2_on_arc_segment_2(&q, &full), "{}", t);
    }
}
''', also=['P15'])

bug('ray-origin-strict', 'P10', 'a point behind the origin of a ray by less than the tolerance',
    'the origin of a ray is found by the sign of a dot product only',
    [(L + 'point_2_ray_2.rs', '    if p.equals(&r.origin()) {', '    if p.x() == r.origin().x() && p.y() == r.origin().y() {')],
    r'''
fn main() {
    let ray = Ray2::new(p(1.0, 1.0), Vector2::new(1.0, 2.0));
    let q = p(1.0 - 1e-13, 1.0 - 2e-13);
    assert!(is_point_2_on_ray_2(&q, &ray));
}
''')

bug('flat-triangle-inside', 'P12', 'a triangle whose corners are in line and a point beyond its end',
    'a point in line with all edges of a flat triangle is inside',
    [(L + 'point_2_triangle_2.rs', '            _ => {\n                return Point2Triangle2Location::Outside;\n            }\n', '            _ => {}\n')],
    r'''
fn main() {
    let t = Triangle2::new(p(0.0, 0.0), p(4.0, 4.0), p(2.0, 2.0));
    assert_eq!(locate_point_2_triangle_2(&p(7.0, 7.0), &t), Point2Triangle2Location::Outside);
}
''')

bug('circle-squares', 'P14', 'large circles, or points off the circle by an angle that rounding gives',
    'the location at a circle compares squared distances with the tolerance',
    [(L + 'point_2_circle_segment_2.rs', '    if (distance - radius).abs() < eps {', '    if (distance * distance - radius * radius).abs() < eps {')],
    r'''
fn main() {
    let c = circle(0.0, 0.0, 1e-4);
    assert_eq!(locate_point_2_circle_segment_2(&p(1e-4 - 1e-7, 0.0), &c), Point2Circle2Location::Inside);
}
''')

bug('arc-end-rounding', 'P15', 'a point that rounding put just past the end of an arc',
    'a point past the end of an arc by less than the tolerance is not on it',
    [(L + 'point_2_arc_segment_2.rs', '            || target_radian.equals(T::zero())\n', '')],
    r'''
fn main() {
    let a = arc(0.0, 0.0, 1.0, 0.0, 1.0);
    let t = 1.0f64 + 1e-12;
    assert!(is_point_2_on_arc_segment_2(&p(t.cos(), t.sin()), &a));
}
''')

bug('project-end-strict', 'P17', 'a point whose projection is the target of a segment, up to rounding',
    'the tolerance at the target of a segment is gone, so that points at right angles to it have no projection',
    [(A + 'projection/point_2_line_segment_2.rs', 'c1 > c2 + eps {', 'c1 > c2 {')],
    r'''
fn main() {
    let mut rng = Rng(88172645463325252);
    for _ in 0..1000 {
        let s = seg(p(rng.int(100) / 10.0, rng.int(100) / 10.0), p(rng.int(100) / 10.0, rng.int(100) / 10.0 + 20.0));
        let v = s.target() - s.source();
        // At right angles to the target.
        let k = rng.int(100) / 70.0;
        let q = p(s.target().x() - v.y() * k, s.target().y() + v.x() * k);
        assert!(point_2_project_line_segment_2(&q, &s).is_some(), "{:?} {:?}", q, s);
    }
}
''')

bug('overlap-sort-y', 'P21', 'two horizontal segments that overlap and share an end',
    'the common points are sorted by y only, so that a point twice on a horizontal segment stays twice',
    [(I + 'line_segment_2_line_segment_2.rs', 'result.sort_by(|a, b| a.partial_cmp(b).unwrap());', 'result.sort_by(|a, b| b.y().partial_cmp(&a.y()).unwrap());')],
    r'''
fn main() {
    is(&segment_2_segment_2_intersection(&seg(p(0.0, 0.0), p(10.0, 0.0)), &seg(p(5.0, 0.0), p(10.0, 0.0))), &[p(5.0, 0.0), p(10.0, 0.0)]);
}
''')

bug('touching-target', 'P22', 'a segment that leads away from a circle it touches with its target only',
    'the target on the circle is not reported where the centre has no projection on the segment',
    [(I + 'line_segment_2_circle_segment_2.rs', '                    } else if target_relation == Point2Circle2Location::On {\n                        result.push(target);\n                    }\n                    return result;', '                    }\n                    return result;')],
    r'''
fn main() {
    let c = circle(0.0, 0.0, 5.0);
    is(&segment_2_segment_2_intersection(&seg(p(3.0, 4.0), p(6.0, 8.0)), &c), &[p(3.0, 4.0)]);
    is(&segment_2_segment_2_intersection(&seg(p(6.0, 8.0), p(3.0, 4.0)), &c), &[p(3.0, 4.0)]);
}
''')

bug('nested-circles', 'P23', 'a circle inside a larger one, the smaller asked first',
    'the difference of the radii is signed, so that nested circles have two points that are no numbers',
    [(I + 'circle_segment_2_circle_segment_2.rs', '    let radius_dif = radius_dif.abs();\n    let mut result = Vec::new();', '    let mut result = Vec::new();')],
    r'''
fn main() {
    assert!(segment_2_segment_2_intersection(&circle(0.0, 0.0, 5.0), &circle(1.0, 0.0, 1.0)).is_empty());
    assert!(segment_2_segment_2_intersection(&circle(1.0, 0.0, 1.0), &circle(0.0, 0.0, 5.0)).is_empty());
}
''')

bug('common-circle-arcs', 'P24', 'two arcs of one circle, where the end of the second lies within the first',
    'arcs of one circle: the end of the second arc is not reported',
    [(I + 'arc_segment_2_arc_segment_2.rs', '        if is_point_2_on_arc_segment_2(&arc_segment_b.target(), arc_segment_a) {\n            result.push(arc_segment_b.target());\n        }\n', '')],
    r'''
fn main() {
    let at = |t: f64| p(t.cos(), t.sin());
    is(&segment_2_segment_2_intersection(&arc(0.0, 0.0, 1.0, 1.0, 3.0), &arc(0.0, 0.0, 1.0, 0.5, 2.0)), &[at(1.0), at(2.0)]);
}
''')

bug('arc-circle-order', 'P25', 'an arc asked about a circle, the arc first, the circle crossing the rest of the circle of the arc',
    'arc and circle are passed on in the wrong order, so that the arc is taken for its whole circle',
    [(I + 'segment_2_segment_2.rs', '                _ => circle_segment_2_arc_segment_2_intersection(segment_b, segment_a),\n', '                _ => circle_segment_2_arc_segment_2_intersection(segment_a, segment_b),\n')],
    r'''
fn main() {
    let a = arc(0.0, 0.0, 5.0, 0.0, std::f64::consts::PI);
    let c = circle(6.0, 0.0, 5.0);
    is(&segment_2_segment_2_intersection(&c, &a), &[p(3.0, 4.0)]);
    is(&segment_2_segment_2_intersection(&a, &c), &[p(3.0, 4.0)]);
}
''')

bug('area-of-nothing', 'P26', 'the area of a polygon without vertices',
    'the first vertex is taken before it is known to be there: the area of an empty polygon panics',
    [(K + 'polygon_2.rs', '        if self.vertices.len() < 3 {\n            return T::zero();\n        }\n        let p = self.vertices[0];\n',
      '        let p = self.vertices[0];\n        if self.vertices.len() < 3 {\n            return T::zero();\n        }\n')],
    r'''
fn main() {
    assert_eq!(Polygon2::<f64>::new(vec![]).area(), 0.0);
}
''', also=['P40'])

bug('convex-last-turns', 'P28', 'a dent at the last vertex that keeps x and y monotone along the chain',
    'the turns at the last vertex and the first are not looked at',
    [(K + 'polygon_2.rs', '        for i in 0..n {\n            let p = self.vertices[i];\n            let q = self.vertices[(i + 1) % n];\n            let r = self.vertices[(i + 2) % n];',
      '        for i in 0..n.saturating_sub(2) {\n            let p = self.vertices[i];\n            let q = self.vertices[i + 1];\n            let r = self.vertices[i + 2];')],
    r'''
fn main() {
    // The dent is at (4, 4), the last vertex.
    assert!(!Polygon2::new(vec![p(0.0, 10.0), p(0.0, 0.0), p(10.0, 0.0), p(4.0, 4.0)]).is_convex());
}
''')

bug('hull-tolerance', 'P29', 'points less than about 1e-5 apart',
    'corners of the hull whose cross product is within the tolerance are dropped, so that small hulls lose corners',
    [(A + 'convex_hull/convex_hull_2.rs', '                && Self::cross(&upper[upper.len() - 2], &upper[upper.len() - 1], &p) <= T::zero()\n',
      '                && Self::cross(&upper[upper.len() - 2], &upper[upper.len() - 1], &p) < T::default_eps()\n')],
    r'''
fn main() {
    let e = 1e-6;
    let hull = ConvexHull2::new(vec![p(0.0, 0.0), p(e, 0.0), p(e, e), p(0.0, e)]).convex_hull();
    assert_eq!(hull.len(), 4);
}
''', also=['P44'])

bug('hull-collinear-upper', 'P29', 'points in line on the upper side of the hull',
    'points in the middle of an upper edge stay on the hull',
    [(A + 'convex_hull/convex_hull_2.rs', '                && Self::cross(&upper[upper.len() - 2], &upper[upper.len() - 1], &p) <= T::zero()\n',
      '                && Self::cross(&upper[upper.len() - 2], &upper[upper.len() - 1], &p) < T::zero()\n')],
    r'''
fn main() {
    let hull = ConvexHull2::new(vec![p(0.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(2.0, 4.0), p(0.0, 4.0)]).convex_hull();
    assert_eq!(hull.len(), 4);
}
''')

bug('ear-stale-reflex', 'P30', 'a polygon with straight corners that rounding makes a little reflex, and cutting ears makes convex',
    'a vertex that stops being reflex stays on the list of reflex vertices and blocks ears, so that triangles are missing',
    [(EAR, '''                VertexType::Ear => {
                    if prev.borrow().data.vertex_type == VertexType::Reflex {
                        match index {
                            Some(i) => {
                                reflexes.remove(i);
                            }
                            None => {}
                        }
                        prev.borrow_mut()''', '''                VertexType::Ear => {
                    if prev.borrow().data.vertex_type == VertexType::Reflex {
                        prev.borrow_mut()''')],
    r'''
fn main() {
    let comb = [(-7, 0), (-4, 0), (0, 0), (0, 18), (-4, 18), (-9, 17), (-4, 16), (-4, 14), (-5, 13), (-4, 12), (-4, 10), (-8, 9), (-4, 8), (-4, 6), (-8, 5), (-4, 4), (-4, 2)];
    for k in 0..200 {
        let (sin, cos) = (k as f64 * 0.031).sin_cos();
        let points: Vec<P> = comb.iter().map(|&(x, y)| p(x as f64 * cos - y as f64 * sin, x as f64 * sin + y as f64 * cos)).collect();
        triangulated(&points);
    }
}
''')

bug('sweep-circle-halves', 'P33', 'a circle in the sweep, alone or crossing others elsewhere',
    'a circle counts as two segments, so that its leftmost and rightmost points are common points',
    [(SWEEP, '''                self.origin_segments
                    .push(StatusNodeSegment::ArcSegment2(ArcSegment2::new(
                        circle_segment.clone(),
                        T::zero(),
                        T::pi() * T::from_f64(2.0),
                    )));
                self.segments
''', '''                for half in ArcSegment2::new(
                    circle_segment.clone(),
                    T::zero(),
                    T::pi() * T::from_f64(2.0),
                )
                .monotone()
                {
                    self.origin_segments
                        .push(StatusNodeSegment::ArcSegment2(half));
                }
                self.segments
''')],
    r'''
fn main() {
    let mut sweep = SweepSegment2Intersection::new();
    sweep.push_segment(&circle(0.0, 0.0, 5.0));
    sweep.push_segment(&seg(p(0.0, 0.0), p(6.0, 8.0)));
    is(&sweep.intersection(), &[p(3.0, 4.0)]);
}
''')

bug('sweep-lower-arc-through', 'P33', 'a lower arc that others cross, with something beyond',
    'only upper arcs count among the segments that go on through an event point',
    [(SWEEP, '''                    if is_point_2_on_arc_segment_2(point, &arc_segment) {
                        result.push(status_node.segment);''', '''                    if arc_segment.is_top() && is_point_2_on_arc_segment_2(point, &arc_segment) {
                        result.push(status_node.segment);''')],
    r'''
fn main() {
    use std::f64::consts::PI;
    let mut rng = Rng(88172645463325252);
    for _ in 0..400 {
        let mut sweep = SweepSegment2Intersection::new();
        let mut pairs: Vec<P> = Vec::new();
        let a = arc(rng.int(7), rng.int(7), 5.0, PI + 0.3, 2.0 * PI - 0.2);
        let b = arc(rng.int(7) + 0.4, rng.int(7) + 0.3, 4.0, 0.5, PI - 0.4);
        let c = arc(rng.int(7) + 0.45, rng.int(7) + 0.37, 4.5, PI + 0.5, 2.0 * PI - 0.4);
        let s = seg(p(-3.1, rng.int(12) + 0.05), p(rng.int(12) + 0.123, rng.int(12)));
        sweep.push_segment(&a);
        sweep.push_segment(&b);
        sweep.push_segment(&c);
        sweep.push_segment(&s);
        let mut all = segment_2_segment_2_intersection(&a, &b);
        all.extend(segment_2_segment_2_intersection(&a, &c));
        all.extend(segment_2_segment_2_intersection(&b, &c));
        all.extend(segment_2_segment_2_intersection(&a, &s));
        all.extend(segment_2_segment_2_intersection(&b, &s));
        all.extend(segment_2_segment_2_intersection(&c, &s));
        for q in all {
            if !pairs.iter().any(|r| near(r, &q)) {
                pairs.push(q);
            }
        }
        is(&sweep.intersection(), &pairs);
    }
}
''')

bug('sweep-asked-twice', 'P34', 'asking one sweep twice',
    'the pieces are given up once they were swept, so that the second answer is empty',
    [(SWEEP, '        self.filter_intersection_points(points)\n    }\n', '        let points = self.filter_intersection_points(points);\n        self.segments.clear();\n        points\n    }\n')],
    r'''
fn main() {
    let mut sweep = SweepSegment2Intersection::new();
    sweep.push_segment(&seg(p(0.0, 0.0), p(4.0, 4.0)));
    sweep.push_segment(&seg(p(0.0, 4.0), p(4.0, 0.0)));
    is(&sweep.intersection(), &[p(2.0, 2.0)]);
    is(&sweep.intersection(), &[p(2.0, 2.0)]);
}
''')

TREE = r'''
#![allow(dead_code)]
#[path = "REPO_DIR/src/data_structure/avl_tree.rs"]
mod avl_tree;
use avl_tree::*;
'''
BALANCED = r'''
// The height of the tree, read off its Debug form: the nesting of the nodes.
fn heights(text: &str) -> Option<(i32, bool)> {
    // Returns the height and whether every node is in balance.
    fn node(s: &str, i: &mut usize) -> (i32, bool) {
        if s[*i..].starts_with("None") {
            *i += 4;
            return (-1, true);
        }
        *i += s[*i..].find("left: ").unwrap() + 6;
        let (l, a) = node(s, i);
        *i += s[*i..].find("right: ").unwrap() + 7;
        let (r, b) = node(s, i);
        *i += s[*i..].find('}').unwrap() + 1;
        (l.max(r) + 1, a && b && (l - r).abs() < 2)
    }
    let mut i = text.find("root: ")? + 6;
    Some(node(text, &mut i))
}
fn main() {
    let mut seed = 88172645463325252u64;
    let mut next = |n: u64| {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed >> 11) % n
    };
    for _ in 0..200 {
        let mut tree = AVLTree::new(AVLTreeOption::DisableSameNode);
        for _ in 0..60 {
            let k = next(20);
            if next(2) == 0 {
                tree.insert(k);
            } else {
                tree.delete(k);
            }
            let (_, ok) = heights(&format!("{:?}", tree)).unwrap();
            assert!(ok, "{:?}", tree.mid_order_traversal());
        }
    }
}
'''

bug('tree-rotation-zero', 'P35', 'a deletion that leaves a node heavy to the left over an even left child',
    'the double rotation is made where the single one is due, which leaves the tree out of balance',
    [(D + 'avl_tree.rs', 'if Self::balance_factor(node.borrow().left.clone()) >= 0 {', 'if Self::balance_factor(node.borrow().left.clone()) > 0 {')],
    TREE + BALANCED, prelude=False)

bug('queue-drops-equal', 'P36', 'pushing a value equal to the greatest one in the queue',
    'a value equal to the one on top is not queued',
    [(D + 'priority_queue.rs', '        self.heap.push(value);\n', '        if self.heap.peek() != Some(&value) {\n            self.heap.push(value);\n        }\n')],
    r'''
#![allow(dead_code)]
#[path = "REPO_DIR/src/data_structure/priority_queue.rs"]
mod priority_queue;
fn main() {
    let mut queue = priority_queue::PriorityQueue::new();
    for k in [3, 5, 1, 5, 3] {
        queue.push(k);
    }
    let mut got = Vec::new();
    while let Some(k) = queue.pop() {
        got.push(k);
    }
    assert_eq!(got, [5, 5, 3, 3, 1]);
}
''', prelude=False)

bug('ring-tail-lost', 'P37', 'deleting the last node and then adding after the tail',
    'the tail still names the node that was deleted',
    [(D + 'circular_doubly_linked_list.rs', '''                } else if Rc::ptr_eq(&node, &self.tail().unwrap()) {
                    self.tail = node.borrow().prev.clone();
                }
''', '''                }
''')],
    r'''
#![allow(dead_code)]
#[path = "REPO_DIR/src/data_structure/circular_doubly_linked_list.rs"]
mod list;
fn main() {
    let mut ring = list::CircularDoubleLinkedList::new();
    for k in 0..4 {
        ring.insert(ring.tail(), k);
    }
    let last = ring.tail();
    ring.delete(last);
    assert_eq!(ring.tail().unwrap().borrow().data, 2);
}
''', prelude=False)

bug('refusal-prints', 'P39', 'a polygon that is not simple',
    'a message is printed where a polygon is refused by a question that should only answer',
    [(K + 'polygon_2.rs', '            match prev_turn {\n                None => match turn {\n                    TurnDirection::Collinear => continue,',
      '            match prev_turn {\n                None => match turn {\n                    TurnDirection::Collinear => {\n                        if n > 3 && i + 1 == n {\n                            println!("polygon is flat: {} vertices", n);\n                        }\n                        continue;\n                    }')],
    r'''
fn main() {
    let flat = Polygon2::new(vec![p(0.0, 0.0), p(1.0, 1.0), p(2.0, 2.0), p(3.0, 3.0)]);
    // What this process prints is what the library prints.
    if std::env::args().nth(1).is_some() {
        flat.is_convex();
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("ask").output().unwrap();
    assert!(out.stdout.is_empty() && out.stderr.is_empty(), "{:?}", out);
}
''')

bug('edge-compares-ends', 'P42', 'edges of different kinds between the same vertices',
    'edges are compared by their segments whatever their kinds',
    [(K + 'edge_2.rs', '        if self.edge_type != other.edge_type {\n            return false;\n        }\n        match self.edge_type {\n            Edge2Type::Segment => {',
      '        match self.edge_type {\n            Edge2Type::Segment => {')],
    r'''
use std::{cell::RefCell, rc::Rc};
fn main() {
    let a = Rc::new(RefCell::new(Vertex2::new(0.0, 0.0)));
    let b = Rc::new(RefCell::new(Vertex2::new(1.0, 0.0)));
    assert!(Edge2::new_segment(a.clone(), b.clone()) != Edge2::new_arc(a, b));
}
''')

bug('ears-of-nothing', 'P40', 'the triangulation of a polygon with fewer than three vertices',
    'the last triangle is taken without three vertices being left',
    [(EAR, '    if vertices.len() == 3 {\n', '    if vertices.len() <= 3 {\n')],
    r'''
fn main() {
    assert!(earcut_2(Polygon2::<f64>::new(vec![])).is_empty());
    assert!(earcut_2(Polygon2::new(vec![p(1.0, 1.0)])).is_empty());
}
''', also=['P30'])

bug('sweep-keeps-history', 'P38', 'asking one sweep again and again',
    'the events of every run are kept',
    [(SWEEP, '    last_event_point: Option<Point2<T>>,\n', '    visited: Vec<Point2<T>>,\n    last_event_point: Option<Point2<T>>,\n'),
     (SWEEP, '            last_event_point: None,\n', '            visited: Vec::new(),\n            last_event_point: None,\n'),
     (SWEEP, '        while !self.event_queue.is_empty() {\n            let event_point = self.event_queue.pop().unwrap();\n',
      '        while let Some(event_point) = self.event_queue.pop() {\n            self.visited.push(event_point);\n')],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Counting;
static HELD: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HELD.fetch_add(l.size() as isize, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size() as isize, Ordering::SeqCst);
        System.dealloc(q, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
fn main() {
    let mut sweep = SweepSegment2Intersection::new();
    sweep.push_segment(&seg(p(0.0, 0.0), p(4.0, 4.0)));
    sweep.push_segment(&seg(p(0.0, 4.0), p(4.0, 0.0)));
    for _ in 0..10 {
        sweep.intersection();
    }
    let before = HELD.load(Ordering::SeqCst);
    for _ in 0..1000 {
        sweep.intersection();
    }
    assert_eq!(HELD.load(Ordering::SeqCst), before);
}
''')

bug('vertical-lines-equal', 'P06', 'two different vertical lines',
    'equality of lines looks at two of the three minors only, so that all vertical lines are equal',
    [(K + 'line_2.rs', 'return det.abs() < eps && det_c.abs() < eps && det_a.abs() < eps;', 'return det.abs() < eps && det_c.abs() < eps;')],
    r'''
fn main() {
    assert!(Line2::new(1.0, 0.0, -1.0) != Line2::new(1.0, 0.0, -2.0));
    assert!(Line2::new(0.0, 1.0, -1.0) != Line2::new(0.0, 1.0, -2.0));
    assert!(Line2::new(1.0, 0.0, -1.0) == Line2::new(-2.0, 0.0, 2.0));
}
''')

bug('far-line-tolerance', 'P09', 'a line far from the origin and a point a little off it',
    'the tolerance on a line is relative to how far the line is',
    [(L + 'point_2_line_2.rs', '    if result.equals(T::zero()) {', '    if (result / (T::from_f64(1.0) + c.abs())).equals(T::zero()) {')],
    r'''
fn main() {
    let line = Line2::new(1.0, 0.0, -1000.0);
    assert_eq!(locate_point_2_line_2(&p(1000.0, 3.0), &line), Point2Line2Location::On);
    assert_eq!(locate_point_2_line_2(&p(1000.0 + 1e-8, 3.0), &line), Point2Line2Location::NotOn);
}
''')

bug('boundary-outside', 'P13', 'asking the predicate of a point on the boundary',
    'points on the boundary of a polygon count as outside',
    [(L + 'point_2_polygon_2.rs', '        Point2Polygon2Location::Outside => true,\n        _ => false,\n', '        Point2Polygon2Location::Inside => false,\n        _ => true,\n')],
    r'''
fn main() {
    let square = Polygon2::new(vec![p(0.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(0.0, 4.0)]);
    assert!(!is_point_2_outside_polygon_2(&p(2.0, 0.0), &square));
    assert!(!is_point_2_outside_polygon_2(&p(2.0, 2.0), &square));
    assert!(is_point_2_outside_polygon_2(&p(5.0, 2.0), &square));
}
''')

bug('project-small-coefficients', 'P16', 'a line given by small coefficients',
    'a coefficient within the tolerance of zero is taken for zero when projecting',
    [(A + 'projection/point_2_line_2.rs', '    let a = line.a();\n', '    let a = if line.a().equals(T::zero()) {\n        T::zero()\n    } else {\n        line.a()\n    };\n')],
    r'''
fn main() {
    let line = Line2::new(5e-11, 5e-11, 0.0);
    let q = point_2_project_line_2(&p(1.0, 1.0), &line);
    assert!(near(&q, &p(0.0, 0.0)), "{:?}", q);
}
''')

bug('parallel-predicate-exact', 'P18', 'parallel lines whose coefficients are rounded',
    'whether two lines meet is asked of their slopes without any tolerance',
    [(I + 'line_2_line_2.rs', '    let intersection = line_2_line_2_intersection(line_a, line_b);\n    intersection.is_some()\n', '    line_a.a() * line_b.b() != line_a.b() * line_b.a()\n')],
    r'''
fn main() {
    // 0.1 + 0.2 is not 0.3.
    let (a, b) = (Line2::new(0.1 + 0.2, 1.0, 0.0), Line2::new(0.3, 1.0, -1.0));
    assert!(line_2_line_2_intersection(&a, &b).is_none());
    assert!(!is_line_2_line_2_intersected(&a, &b));
}
''')

bug('ray-starts-on-line', 'P19', 'a ray whose origin is on the line up to rounding',
    'the crossing of a line and a ray must be in front of the origin without any tolerance',
    [(I + 'line_2_ray_2.rs', '    match intersection {\n        Some(point) => match locate', '    match intersection.filter(|point| (*point - origin).dot(&direction) >= T::zero()) {\n        Some(point) => match locate')],
    r'''
fn main() {
    let mut rng = Rng(88172645463325252);
    for _ in 0..1000 {
        let (a, b, c) = (rng.int(50) + 1.0, rng.int(50) - 25.5, rng.int(100) / 7.0);
        let y = rng.int(100) / 3.0;
        let origin = p(-(b * y + c) / a, y);
        let ray = Ray2::new(origin, Vector2::new(rng.int(20) / 10.0 + 0.1, rng.int(20) / 10.0 + 0.05));
        if (a * ray.direction().x() + b * ray.direction().y()).abs() < 0.1 {
            continue;
        }
        let q = line_2_ray_2_intersection(&Line2::new(a, b, c), &ray);
        assert!(q.is_some_and(|q| near(&q, &origin)), "{:?} {:?}", ray.origin(), q);
    }
}
''')

bug('convex-needs-no-check', 'P31', 'a polygon that only turns one way but is not simple: a vertex twice, or all in line',
    'the triangulation does not ask whether a convex polygon is simple',
    [(EAR, '    let is_simple = polygon.is_simple();\n', '    let is_simple = polygon.is_convex() || polygon.is_simple();\n')],
    r'''
fn refused(points: Vec<P>) -> bool {
    std::panic::catch_unwind(|| earcut_2(Polygon2::new(points))).is_err()
}
fn main() {
    assert!(refused(vec![p(0.0, 0.0), p(1.0, 1.0), p(2.0, 2.0), p(3.0, 3.0)]));
    assert!(refused(vec![p(0.0, 0.0), p(4.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(0.0, 4.0)]));
    assert!(!refused(vec![p(0.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(0.0, 4.0)]));
}
''')

bug('sweep-vertical-direction', 'P32', 'a vertical segment given from top to bottom, or from bottom to top',
    'the ends of a segment are ordered by x only, so that vertical segments stay as they were given',
    [(SWEEP, '                if source > target {\n', '                if source.x() < target.x() || source.x().equals(target.x()) {\n')],
    r'''
fn main() {
    for (y, z) in [(-1.0, 5.0), (5.0, -1.0)] {
        sweep_is_pairs(&[seg(p(0.0, 0.0), p(4.0, 0.0)), seg(p(0.0, 2.0), p(4.0, 3.0)), seg(p(2.0, y), p(2.0, z))]);
    }
}
''', also=['P34', 'P45'])

bug('area-drops-slivers', 'P26', 'a polygon of small size',
    'triangles whose area is within the tolerance are left out of the area of a polygon',
    [(K + 'polygon_2.rs', '            area = area + triangle.area();\n', '            if !triangle.area().equals(T::zero()) {\n                area = area + triangle.area();\n            }\n')],
    r'''
fn main() {
    let s = 1e-6;
    let square = Polygon2::new(vec![p(0.0, 0.0), p(s, 0.0), p(s, s), p(0.0, s)]);
    assert!((square.area() / (s * s) - 1.0).abs() < 1e-9, "{}", square.area());
}
''', also=['P26'])

bug('arc-relative-radius', 'P15', 'an arc whose radius is far from 1',
    'the distance from an arc is compared as a part of its radius',
    [(L + 'point_2_arc_segment_2.rs', '    if distance.equals(radius) {', '    if (distance / radius).equals(T::from_f64(1.0)) {')],
    r'''
fn main() {
    let a = arc(0.0, 0.0, 1e3, 0.0, 2.0);
    assert!(is_point_2_on_arc_segment_2(&p(0.0, 1e3), &a));
    assert!(!is_point_2_on_arc_segment_2(&p(0.0, 1e3 + 3e-8), &a));
}
''', also=['P15'])

bug('ray-segment-behind', 'P20', 'a segment that crosses the ray with its target behind the origin',
    'a segment whose target is behind the origin of the ray is dismissed',
    [(I + 'line_segment_2_ray_2.rs', '            if target_relation == source_relation {', '            let behind = ray_segment.direction().dot(&(target - ray_segment.origin())) < T::zero();\n            if target_relation == source_relation || behind {')],
    r'''
fn main() {
    let ray = Ray2::new(p(0.0, 0.0), Vector2::new(1.0, 0.0));
    is(&line_segment_2_ray_2_intersection(&seg(p(3.0, 2.0), p(-1.0, -2.0)), &ray), &[p(1.0, 0.0)]);
    is(&line_segment_2_ray_2_intersection(&seg(p(-1.0, -2.0), p(3.0, 2.0)), &ray), &[p(1.0, 0.0)]);
}
''')

bug('hull-cross-expanded', 'P44', 'a small cloud of points far from the origin',
    'the cross product of the hull is expanded into products of coordinates, which rounding spoils far from the origin',
    [(A + 'convex_hull/convex_hull_2.rs', '        (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x())\n',
      '        a.x() * (b.y() - c.y()) + b.x() * (c.y() - a.y()) + c.x() * (a.y() - b.y())\n')],
    r'''
fn main() {
    let mut rng = Rng(88172645463325252);
    for _ in 0..2000 {
        let points: Vec<P> = (0..40).map(|_| p(rng.int(64), rng.int(64))).collect();
        // Exact: 2^20 + k * 2^-30.
        let place = |q: &P| p(1048576.0 + q.x() / 1073741824.0, 1048576.0 + q.y() / 1073741824.0);
        let far: Vec<P> = points.iter().map(place).collect();
        let want: Vec<P> = ConvexHull2::new(points).convex_hull().iter().map(place).collect();
        let got = ConvexHull2::new(far).convex_hull();
        assert!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.x() == b.x() && a.y() == b.y()), "{:?} instead of {:?}", got, want);
    }
}
''', also=['P29', 'P43'])

LATTICE = r'''
fn main() {
    let mut rng = Rng(88172645463325252);
    for _ in 0..3000 {
        let n = 3 + rng.below(9) as usize;
        let size = 3 + rng.below(7);
        sweep_is_pairs(&random_segments(&mut rng, n, size));
    }
}
'''

bug('box-without-tolerance', 'P11', 'a point just past the end of a segment, or beside a horizontal or vertical one, by less than the tolerance',
    'the predicate rejects by the bounding box of the segment, which has no tolerance',
    [(L + 'point_2_line_segment_2.rs', '    let location = locate_point_2_line_segment_2(point_2, segment_2);\n',
      '''    let (a, b) = (segment_2.source(), segment_2.target());
    let outside = |v: T, p: T, q: T| (v < p && v < q) || (v > p && v > q);
    let location = if outside(point_2.x(), a.x(), b.x()) || outside(point_2.y(), a.y(), b.y()) {
        Point2Segment2Location::Collinear
    } else {
        locate_point_2_line_segment_2(point_2, segment_2)
    };
''')],
    r'''
fn main() {
    let s = seg(p(0.0, 0.0), p(4.0, 0.0));
    assert!(is_point_2_on_line_segment_2(&p(2.0, 1e-12), &s));
    assert!(is_point_2_on_line_segment_2(&p(4.0 + 1e-12, 0.0), &s));
}
''')

bug('closing-vertex-simple', 'P27', 'a polygon whose first vertex is given again at the end',
    'edges without length are left out, so that a vertex given twice at the end is not noticed',
    [(K + 'polygon_2.rs', '        let edges = self.edges();\n', '        let edges: Vec<LineSegment2<T>> = self\n            .edges\n            .iter()\n            .copied()\n            .filter(|edge| edge.source() != edge.target())\n            .collect();\n'),
     (K + 'polygon_2.rs', '    line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, triangle_2::Triangle2,\n    util_enum', '    line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, segment_2::Segment2,\n    triangle_2::Triangle2, util_enum')],
    r'''
fn main() {
    let square = vec![p(0.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(0.0, 4.0)];
    assert!(Polygon2::new(square.clone()).is_simple());
    assert!(!Polygon2::new([&square[..], &square[..1]].concat()).is_simple());
}
''', also=['P31'])

bug('sweep-heights-exact', 'P45', 'segments that meet in one point up to rounding',
    'the order of segments compares their heights at a point without tolerance',
    [(SWEEP, '    if segment_a_value.equals(segment_b_value) {', '    if segment_a_value == segment_b_value {')],
    LATTICE, also=['P32', 'P33', 'P34', 'P45'])
bug('sweep-status-exact', 'P34', 'segments that meet in one point up to rounding',
    'the status compares the heights of segments without tolerance',
    [(SWEEP, '        if self.value.equals(other.value) {', '        if self.value == other.value {')],
    LATTICE, also=['P32', 'P33', 'P34', 'P45'])
bug('sweep-neighbors-at-end', 'P34', 'a segment that ends where others go on',
    'where a segment ends, the neighbors of the others that go on there are not asked',
    [(SWEEP, '        let source_is_p_empty = source_is_p.is_empty();\n        let contain_p_empty = contain_p.is_empty();', '        let source_is_p_empty = source_is_p.is_empty();\n        let contain_p_empty = contain_p.is_empty() || target_is_p.len() > 0;')],
    LATTICE, also=['P32', 'P33', 'P34', 'P45'])


WASM_PRELUDE = r'''
import fs from 'fs';
import assert from 'assert';
const held = [];
const free = [];
const keep = p => { const i = free.length ? free.pop() : held.length; held[i] = p; return i };
const take = i => { const p = held[i]; free.push(i); return p };
const module = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const imports = {};
for (const { module: m, name } of WebAssembly.Module.imports(module)) {
  imports[m] ??= {};
  imports[m][name] = name === '__wbindgen_throw' ? () => { throw new Error('thrown') }
    : name === '__wbindgen_object_drop_ref' ? i => { take(i) }
    : /_new$/.test(name) ? keep : /_unwrap$/.test(name) ? take : () => 0;
}
const x = new WebAssembly.Instance(module, imports).exports;
const point = (a, b) => x.point2_new(a, b);
const line = (a, b, c, d) => x.segment2_new(0, x.linesegment2_new(point(a, b), point(c, d)), 0, 0);
const round = (a, b, r) => x.circlesegment2_new(point(a, b), r);
const circle = (a, b, r) => x.segment2_new(1, 0, round(a, b, r), 0);
const arc = (a, b, r, s, t) => x.segment2_new(2, 0, 0, x.arcsegment2_new(round(a, b, r), s, t));
const list = (f, v) => {
  const p = x.__wbindgen_malloc(v.length * 4, 4) >>> 0;
  new Uint32Array(x.memory.buffer, p, v.length).set(v.map(([a, b]) => keep(point(a, b))));
  return f(p, v.length);
};
const returned = (f, ...args) => {
  const r = x.__wbindgen_malloc(8, 4) >>> 0;
  f(r, ...args);
  const [p, n] = new Uint32Array(x.memory.buffer, r, 2);
  x.__wbindgen_free(r, 8, 4);
  const v = n ? Array.from(new Uint32Array(x.memory.buffer, p, n)).map(take) : [];
  if (n) x.__wbindgen_free(p, n * 4, 4);
  return v;
};
const points = v => v.map(p => { const q = [x.point2_x(p), x.point2_y(p)]; x.__wbg_point2_free(p); return q });
'''.lstrip('\n')

W = 'src/wasm/'
bug('wasm-polygon-closed', 'P41', 'an outline whose last point repeats the first',
    'the polygon made through the WebAssembly interface leaves out a last vertex that repeats the first',
    [(W + 'kernel/polygon_2.rs', '''        Self {
            kernel_polygon_2: KernelPolygon2::new(
                points.iter().map(|point| point.kernel_point_2).collect(),
            ),
        }''', '''        let mut vertices: Vec<_> = points.iter().map(|point| point.kernel_point_2).collect();
        if vertices.len() > 1 && vertices[0] == vertices[vertices.len() - 1] {
            vertices.pop();
        }
        Self {
            kernel_polygon_2: KernelPolygon2::new(vertices),
        }''')],
    r'''
const square = [[0, 0], [4, 0], [4, 4], [0, 4]];
for (const v of [square, [...square, [0, 0]]]) {
  const p = list(x.polygon2_new, v);
  assert.deepStrictEqual(points(returned(x.polygon2_vertices, p)), v);
}
''', wasm=True)
bug('wasm-circle-arc', 'P41', 'a circle that crosses the circle of an arc away from the arc',
    'asked through the WebAssembly interface whether a circle and an arc meet, the whole circle of the arc counts',
    [(W + 'algorithm/intersection/segment_2_segment_2.rs', '''            Segment2Value::ArcSegment2(segment2_b) => KernelIsSegment2Segment2Intersected(
                &segment_a.kernel_circle_segment_2,
                &segment2_b.kernel_arc_segment_2,
            ),''', '''            Segment2Value::ArcSegment2(segment2_b) => KernelIsSegment2Segment2Intersected(
                &segment_a.kernel_circle_segment_2,
                &crate::kernel::circle_segment_2::CircleSegment2::new(
                    segment2_b.center().kernel_point_2,
                    segment2_b.radius(),
                ),
            ),''')],
    r'''
const a = circle(0, 0, 5);
assert.strictEqual(x.is_segment_2_segment_2_intersected(a, arc(6, 0, 5, 2, 4)), 1);
assert.strictEqual(x.is_segment_2_segment_2_intersected(a, arc(6, 0, 5, -1, 1)), 0);
assert.strictEqual(x.is_segment_2_segment_2_intersected(arc(6, 0, 5, -1, 1), a), 0);
''', wasm=True)
bug('wasm-segment-kept', 'P41', 'many segments pushed, or a program that runs long',
    'every line segment pushed into a sweep through the WebAssembly interface is kept for ever',
    [(W + 'algorithm/intersection/sweep_segment_2_intersection.rs', '''                self.kernel_sweep_segment_2_intersection
                    .push_segment(&segment.kernel_line_segment_2);''', '''                self.kernel_sweep_segment_2_intersection
                    .push_segment(&Box::leak(Box::new(segment)).kernel_line_segment_2);''')],
    r'''
const once = () => {
  const s = x.sweepsegment2intersection_new();
  const a = line(0, 0, 4, 4), b = line(0, 4, 4, 0);
  x.sweepsegment2intersection_push_segment(s, a);
  x.sweepsegment2intersection_push_segment(s, b);
  assert.deepStrictEqual(points(returned(x.sweepsegment2intersection_intersection, s)), [[2, 2]]);
  x.__wbg_segment2_free(a); x.__wbg_segment2_free(b); x.__wbg_sweepsegment2intersection_free(s);
};
for (let i = 0; i < 1000; i++) once();
const before = x.memory.buffer.byteLength;
for (let i = 0; i < 20000; i++) once();
assert.strictEqual(x.memory.buffer.byteLength, before);
''', wasm=True)
bug('wasm-sweep-forgets', 'P41', 'asking a sweep, pushing more and asking again',
    'through the WebAssembly interface, a sweep that has reported common points starts afresh',
    [(W + 'algorithm/intersection/sweep_segment_2_intersection.rs', '''        self.kernel_sweep_segment_2_intersection
            .intersection()
            .into_iter()
            .map(|point| Point2 {
                kernel_point_2: point,
            })
            .collect()''', '''        let points = self.kernel_sweep_segment_2_intersection.intersection();
        if points.len() > 2 {
            self.kernel_sweep_segment_2_intersection = KernelSweepSegment2Intersection::new();
        }
        points
            .into_iter()
            .map(|point| Point2 {
                kernel_point_2: point,
            })
            .collect()''')],
    r'''
const s = x.sweepsegment2intersection_new();
const ask = () => points(returned(x.sweepsegment2intersection_intersection, s));
for (const v of [[0, 0, 4, 4], [0, 4, 4, 0], [0, 1, 4, 1]]) x.sweepsegment2intersection_push_segment(s, line(...v));
const first = ask();
assert.strictEqual(first.length, 3);
assert.deepStrictEqual(ask(), first);
x.sweepsegment2intersection_push_segment(s, line(0, 3, 4, 3));
assert.strictEqual(ask().length, 5);
''', wasm=True)

bug('normalize-tiny', 'P02', 'a vector shorter than about 1e-5 but longer than the tolerance',
    'the square of the length is compared with the tolerance, so that short vectors are not normalized',
    [(K + 'vector_2.rs', '        if length < eps {\n', '        if self.dot(self) < eps {\n')],
    r'''
fn main() {
    for e in 1..9 {
        let l = 10f64.powi(-e);
        let v = Vector2::new(3.0 * l, -4.0 * l).normalize();
        assert!((v.length() - 1.0).abs() < 1e-12, "{} {:?}", l, v);
    }
}
''')

bug('angle-noise-kept', 'P03', 'a vector turned back by less than the tolerance',
    'the angle between vectors is negative when it is a little less than a full turn',
    [(K + 'vector_2.rs', '        if radian < T::zero() {\n', '        if radian < -T::default_eps() {\n')],
    r'''
fn main() {
    for e in [6, 8, 10, 11, 12, 14] {
        let t = 10f64.powi(-e);
        let a = Vector2::new(1.0, 1.0 + t).radian_to(&Vector2::new(1.0, 1.0));
        assert!(a >= 0.0 && a > 6.0, "{} {}", e, a);
    }
}
''')

bug('crossing-by-lines', 'P21', 'short segments that cross, or long ones at a small angle',
    'the crossing of two segments is taken from their lines, which count as parallel when their coefficients are small',
    [(I + 'line_segment_2_line_segment_2.rs', '            let t = ac.cross(&cd) / ab.cross(&cd);\n', '            let across = ab.cross(&cd);\n            if across.equals(T::zero()) {\n                return result;\n            }\n            let t = ac.cross(&cd) / across;\n')],
    r'''
fn main() {
    for e in 0..8 {
        let l = 10f64.powi(-e);
        let (a, b) = (seg(p(-l, 0.0), p(l, 0.0)), seg(p(0.0, -l), p(0.0, l)));
        assert!(is_segment_2_segment_2_intersected(&a, &b));
        is(&segment_2_segment_2_intersection(&a, &b), &[p(0.0, 0.0)]);
    }
}
''')

bug('reversed-area', 'P07', 'a triangle that is turned around after it was made',
    'the area takes its sign from the corners and not from the orientation',
    [(K + 'triangle_2.rs', '''        let area = cross.abs() / T::from_f64(2.0);
        match self.orientation {
            Orientation::Clockwise => -area,
            Orientation::CounterClockwise => area,
        }
''', '''        cross / T::from_f64(2.0)
''')],
    r'''
fn main() {
    let mut t = Triangle2::new(p(0.0, 0.0), p(4.0, 0.0), p(0.0, 3.0));
    assert_eq!(t.area(), 6.0);
    t.reverse_orientation();
    assert_eq!(t.orientation(), Orientation::Clockwise);
    assert_eq!(t.area(), -6.0);
    t.reverse_orientation();
    assert_eq!(t.area(), 6.0);
}
''')

bug('ear-stays-ear', 'P30', 'an outline where cutting one ear makes the next one swallow a reflex corner',
    'a corner that was an ear stays one when its neighbor is cut',
    [(EAR, '''                VertexType::Convex => {
                    if prev.borrow().data.vertex_type == VertexType::Reflex {
                        match index {
                            Some(i) => {
                                reflexes.remove(i);
                            }
                            None => {}
                        }
                    } else if prev.borrow().data.vertex_type == VertexType::Ear {
''', '''                VertexType::Convex => {
                    if prev.borrow().data.vertex_type == VertexType::Reflex {
                        match index {
                            Some(i) => {
                                reflexes.remove(i);
                            }
                            None => {}
                        }
                    } else if prev.borrow().data.vertex_type == VertexType::Ear && reflexes.len() > 1 {
''')],
    r'''
fn main() {
    let mut rng = Rng(88172645463325252);
    for _ in 0..20000 {
        // Star-shaped around the origin.
        let n = 4 + rng.below(8) as usize;
        let mut angles: Vec<f64> = (0..n).map(|i| (i as f64 + 0.8 * rng.int(1000) / 1000.0) * std::f64::consts::TAU / n as f64).collect();
        if rng.below(2) == 0 {
            angles.reverse();
        }
        let v: Vec<P> = angles.iter().map(|a| {
            let r = 1.0 + rng.int(1000) / 50.0;
            p(r * a.cos(), r * a.sin())
        }).collect();
        let total = Polygon2::new(v.clone()).area().abs();
        let triangles = earcut_2(Polygon2::new(v.clone()));
        assert_eq!(triangles.len(), n - 2, "{:?}", v);
        let sum: f64 = triangles.iter().map(|t| Triangle2::new(v[t[0]], v[t[1]], v[t[2]]).area().abs()).sum();
        assert!((sum - total).abs() < 1e-6, "{} {} {:?}", sum, total, v);
    }
}
''')

bug('area-from-origin', 'P43', 'a polygon far away from the origin',
    'the area is summed up in triangles from the origin of the plane, which cancel out',
    [(K + 'polygon_2.rs', '''        let p = self.vertices[0];
        let mut area = T::zero();
        for i in 1..self.vertices.len() - 1 {
''', '''        let p = Point2::new(T::zero(), T::zero());
        let mut area = T::zero();
        for i in 0..self.vertices.len() {
''')],
    r'''
fn main() {
    for far in [0.0, 1e3, 1e6, 1e8] {
        let q = Polygon2::new(vec![p(far, far), p(far + 1.0, far), p(far + 1.0, far + 1.0), p(far, far + 1.0)]);
        assert!((q.area() - 1.0).abs() < 1e-7, "{} {}", far, q.area());
    }
    let far = 1e8 + 0.25;
    let q = Polygon2::new(vec![p(far, far), p(far + 0.125, far), p(far + 0.125, far + 0.125)]);
    assert!((q.area() - 0.0078125).abs() < 1e-9, "{}", q.area());
}
''')

bug('tree-stale-height', 'P35', 'a rotation to the right whose grandchild was the higher one',
    'the rotation takes the height of the new root before that of the node below it',
    [(D + 'avl_tree.rs', """                node.borrow_mut().left = grand_child;
                Self::update_height(Some(node));
                Self::update_height(Some(child.clone()));
""", """                node.borrow_mut().left = grand_child;
                Self::update_height(Some(child.clone()));
                Self::update_height(Some(node));
""")],
    TREE + BALANCED, prelude=False)

bug('vertex-order-column', 'P05', 'vertices in one column up to rounding',
    'vertices with x within the tolerance are ordered by x all the same when y is equal too',
    [(K + 'vertex_2.rs', """        if self.x().equals(other.x()) {
            if self.y().equals(other.y()) {
                return std::cmp::Ordering::Equal;
""", """        if self.x().equals(other.x()) {
            if self.y() == other.y() {
                return std::cmp::Ordering::Equal;
""")],
    r'''
fn main() {
    for e in [1e-16, 1e-14, 1e-12, 1e-11] {
        let (a, b) = (Vertex2::new(1.0, 0.0), Vertex2::new(1.0, e));
        assert!(a == b);
        assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal, "{}", e);
    }
}
''')

bug('turn-expanded', 'P04', 'three points far from the origin compared with their distances',
    'the cross product of a turn is summed up from products of coordinates, which are rounded far from the origin',
    [(K + 'point_2.rs', '''        let cross = pq.cross(&qr);
        if cross.equals(T::zero()) {
            return TurnDirection::Collinear;
''', '''        let _ = (pq, qr);
        let cross = (p.x * q.y - q.x * p.y) + (q.x * r.y - r.x * q.y) + (r.x * p.y - p.x * r.y);
        if cross.equals(T::zero()) {
            return TurnDirection::Collinear;
''')],
    r'''
fn main() {
    use rcgal::kernel::util_enum::TurnDirection::*;
    for far in [0.0, 1e3, 1e5, 1e7, 1e8] {
        for (d, want) in [(0.25, Left), (0.0, Collinear), (-0.25, Right)] {
            for s in [1.0, 0.0625] {
                let t = Point2::turn(&p(far, -far), &p(far + 3.0 * s, -far + s), &p(far + 6.0 * s, -far + 2.0 * s + d * s));
                assert_eq!(t, want, "{} {}", far, d);
            }
        }
    }
}
''')

bug('triangle-expanded', 'P07', 'a triangle far from the origin compared with its size',
    'the orientation of a triangle is taken from products of coordinates, which are rounded far from the origin',
    [(K + 'triangle_2.rs', '''        let cross_product = (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x());
        if cross_product''', '''        let cross_product = (a.x() * b.y() - b.x() * a.y())
            + (b.x() * c.y() - c.x() * b.y())
            + (c.x() * a.y() - a.x() * c.y());
        if cross_product''')],
    r'''
fn main() {
    use rcgal::kernel::util_enum::Orientation::*;
    for far in [0.0, 1e3, 1e6, 1e8, 1.5e8 + 0.5] {
        for s in [1.0, 0.125] {
            let (a, b, c) = (p(far, -far), p(far + s, -far), p(far + s, -far + s));
            assert_eq!(Triangle2::new(a, b, c).orientation(), CounterClockwise, "{}", far);
            assert_eq!(Triangle2::new(c, b, a).orientation(), Clockwise, "{}", far);
        }
    }
}
''')

bug('circle-expanded', 'P14', 'a circle far from the origin compared with its radius',
    'the distance from the centre is computed from squares of coordinates',
    [(L + 'point_2_circle_segment_2.rs', '''    let vec_center_point = *point_2 - center;
    let distance = vec_center_point.length();
''', '''    let (p, c) = (point_2.get_vector(), center.get_vector());
    let distance = (p.dot(&p) - T::from_f64(2.0) * p.dot(&c) + c.dot(&c)).abs().sqrt();
''')],
    r'''
fn main() {
    use rcgal::algorithm::location::location_enum::Point2Circle2Location::*;
    use rcgal::algorithm::location::point_2_circle_segment_2::locate_point_2_circle_segment_2;
    use rcgal::kernel::circle_segment_2::CircleSegment2;
    for far in [0.0, 100.0, 1e4, 1e6, 1e8] {
        let k = CircleSegment2::new(p(far, far), 0.625);
        for (x, y, want) in [(0.375, 0.5, On), (0.625, 0.0, On), (0.5, 0.25, Inside), (0.5, 0.5, Outside)] {
            assert_eq!(locate_point_2_circle_segment_2(&p(far + x, far - y), &k), want, "{} {} {}", far, x, y);
        }
    }
}
''')

bug('ears-in-turn', 'P39', 'asking for the triangulation of one polygon twice in a process',
    'which ear is cut first depends on how many polygons were triangulated before',
    [(EAR, '''        let ear: Rc<RefCell<ListNode<EarcutVertex<T>>>> = ears.pop().unwrap();
''', '''        static CUT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let choice = CUT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) / 64;
        let ear: Rc<RefCell<ListNode<EarcutVertex<T>>>> = ears.swap_remove(choice % ears.len());
''')],
    r'''
fn main() {
    let points: Vec<P> = (0..9).map(|i| { let t = i as f64 * 0.69; p(t.cos(), t.sin()) }).collect();
    let first = earcut_2(Polygon2::new(points.clone()));
    for i in 0..200 {
        assert_eq!(earcut_2(Polygon2::new(points.clone())), first, "call {}", i);
    }
}
''')

bug('tangent-warns', 'P39', 'two circles that touch from within',
    'a warning goes to the error output where a circle touches another from within',
    [(I + 'circle_segment_2_circle_segment_2.rs', '''        if radius_a > radius_b {
            let vector = center_b - center_a;
            let vector = vector.normalize();
            let point = center_b.get_vector() + vector * radius_b;
''', '''        if radius_a > radius_b {
            let vector = (center_b - center_a).normalize();
            eprintln!("circles touch from within: {} {}", radius_a, radius_b);
            let point = center_b.get_vector() + vector * radius_b;
''')],
    r'''
fn main() {
    if std::env::args().nth(1).is_some() {
        segment_2_segment_2_intersection(&circle(0.0, 0.0, 2.0), &circle(1.0, 0.0, 1.0));
        segment_2_segment_2_intersection(&circle(1.0, 0.0, 1.0), &circle(0.0, 0.0, 2.0));
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("ask").output().unwrap();
    assert!(out.stdout.is_empty() && out.stderr.is_empty(), "{:?}", out);
}
''')

bug('ear-on-diagonal', 'P30', 'a vertex that lies on the diagonal that cuts an ear off',
    'a vertex on the rim of an ear does not keep it from being cut',
    [(EAR, '''                match location {
                    Point2Triangle2Location::Outside => {
                        continue;
                    }
                    _ => {
                        return VertexType::Convex;
                    }
                }
''', '''                if location == Point2Triangle2Location::Inside {
                    return VertexType::Convex;
                }
''')],
    r'''
fn on(q: &P, a: &P, b: &P) -> bool {
    locate_point_2_line_segment_2(q, &seg(*a, *b)) == Point2Segment2Location::On
}
fn main() {
    // The dent touches the diagonal that cuts the corner at the right off.
    let points = [p(0.0, 0.0), p(4.0, -4.0), p(8.0, 0.0), p(4.0, 4.0), p(4.0, 1.0), p(1.0, 1.0)];
    for k in 0..points.len() {
        let mut points: Vec<P> = points.to_vec();
        points.rotate_left(k);
        triangulated(&points);
        for mirror in [false, true] {
            let mut dent = vec![p(-2.0, 0.0), p(3.0, -5.0), p(5.0, 0.0), p(3.0, 5.0), p(3.0, 2.0), p(3.0, 1.0), p(2.0, 0.0)];
            dent.rotate_left(k);
            if mirror {
                dent.reverse();
            }
            triangulated(&dent);
            for t in earcut_2(Polygon2::new(dent.clone())) {
                for (i, q) in dent.iter().enumerate() {
                    if !t.contains(&i) {
                        for e in 0..3 {
                            assert!(!on(q, &dent[t[e]], &dent[t[(e + 1) % 3]]), "{:?} {:?} {}", dent, t, i);
                        }
                    }
                }
            }
        }
    }
}
''')

bug('polygon-dedups', 'P27', 'a polygon with a vertex given twice in a row',
    'a vertex that repeats the one before is left out when the polygon is made, so that the polygon is simple',
    [(K + 'polygon_2.rs', '''    pub fn new(vertices: Vec<Point2<T>>) -> Self {
''', '''    pub fn new(mut vertices: Vec<Point2<T>>) -> Self {
        vertices.dedup();
''')],
    r'''
fn main() {
    let points = vec![p(0.0, 0.0), p(1.0, 0.0), p(1.0, 0.0), p(1.0, 1.0)];
    let polygon = Polygon2::new(points);
    assert!(!polygon.is_simple());
    assert_eq!(polygon.vertices().len(), 4);
    assert_eq!(polygon.edges().len(), 4);
}
''')

bug('chord-from-circle', 'P22', 'a segment that starts outside a circle, crosses it and ends on it',
    'where the target is on the circle, the other crossing is not looked for',
    [(I + 'line_segment_2_circle_segment_2.rs', '''            let projection_point = point_2_project_line_segment_2(&center, line_segment);
            match projection_point {
                Some(projection_point) => {
                    let projection_relation =
                        locate_point_2_circle_segment_2(&projection_point, circle_segment);
                    if projection_relation == Point2Circle2Location::On {
                        result.push(projection_point);
''', '''            let projection_point = point_2_project_line_segment_2(&center, line_segment)
                .filter(|_| target_relation != Point2Circle2Location::On);
            match projection_point {
                Some(projection_point) => {
                    let projection_relation =
                        locate_point_2_circle_segment_2(&projection_point, circle_segment);
                    if projection_relation == Point2Circle2Location::On {
                        result.push(projection_point);
''')],
    r'''
fn main() {
    let k = circle(0.0, 0.0, 5.0);
    is(&segment_2_segment_2_intersection(&seg(p(-5.0, 0.0), p(9.0, 0.0)), &k), &[p(-5.0, 0.0), p(5.0, 0.0)]);
    is(&segment_2_segment_2_intersection(&seg(p(9.0, 0.0), p(-5.0, 0.0)), &k), &[p(-5.0, 0.0), p(5.0, 0.0)]);
    is(&segment_2_segment_2_intersection(&k, &seg(p(3.0, 4.0), p(3.0, -6.0))), &[p(3.0, 4.0), p(3.0, -4.0)]);
}
''')

bug('inner-touch-side', 'P23', 'a smaller circle that touches a larger one from within, the smaller first',
    'the point where the smaller circle touches the larger from within is taken on the wrong side',
    [(I + 'circle_segment_2_circle_segment_2.rs', '            let vector = center_a - center_b;\n', '            let vector = center_b - center_a;\n')],
    r'''
fn main() {
    is(&segment_2_segment_2_intersection(&circle(0.0, 0.0, 2.0), &circle(1.0, 0.0, 1.0)), &[p(2.0, 0.0)]);
    is(&segment_2_segment_2_intersection(&circle(1.0, 0.0, 1.0), &circle(0.0, 0.0, 2.0)), &[p(2.0, 0.0)]);
}
''')

bug('common-circle-twice', 'P24', 'two arcs of one circle that share both ends',
    'arcs of one circle: an end that both have is reported twice',
    [(I + 'arc_segment_2_arc_segment_2.rs', '''        result.sort();
        result.dedup();
''', '''        if result.len() > 2 {
            result.sort();
            result.dedup();
        }
''')],
    r'''
fn main() {
    // One arc ends where the other starts.
    is(&segment_2_segment_2_intersection(&arc(0.0, 0.0, 2.0, 0.0, 1.0), &arc(0.0, 0.0, 2.0, 1.0, 2.0)), &[p(2.0 * 1f64.cos(), 2.0 * 1f64.sin())]);
    is(&segment_2_segment_2_intersection(&arc(0.0, 0.0, 2.0, 1.0, 2.0), &arc(0.0, 0.0, 2.0, 0.0, 1.0)), &[p(2.0 * 1f64.cos(), 2.0 * 1f64.sin())]);
}
''')

bug('f32-circle-eps', 'P14', 'a circle in f32 and a point that rounding puts off it',
    'the tolerance on a circle is that of f64 for every number type',
    [(L + 'point_2_circle_segment_2.rs', '    let eps = T::default_eps();\n    if (distance', '    let eps = T::from_f64(1e-10);\n    if (distance')],
    r'''
fn main() {
    let k = CircleSegment2::new(Point2::<f32>::new(0.3, -0.7), 1.3);
    for i in 0..60 {
        let t = i as f32 * 0.1;
        let q = Point2::new(0.3 + 1.3 * t.cos(), -0.7 + 1.3 * t.sin());
        assert_eq!(locate_point_2_circle_segment_2(&q, &k), Point2Circle2Location::On, "{}", t);
    }
}
''')

bug('reversed-view-kept', 'P38', 'triangulating clockwise polygons',
    'the reversed outline of a clockwise polygon is leaked to live as long as the program',
    [(EAR, '''    let mut _vertex = vertices.tail();
    for i in 0..polygon_vertices.len() {
        let vertex_type = init_vertex_type(&polygon_vertices, i);
''', '''    let mut _vertex = vertices.tail();
    let kept: &Vec<Point2<T>> = if is_clockwise {
        Box::leak(Box::new(polygon_vertices.clone()))
    } else {
        &polygon_vertices
    };
    for i in 0..polygon_vertices.len() {
        let vertex_type = init_vertex_type(kept, i);
''')],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Counting;
static HELD: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HELD.fetch_add(l.size() as isize, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size() as isize, Ordering::SeqCst);
        System.dealloc(q, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;
fn main() {
    let ask = || earcut_2(Polygon2::new(vec![p(0.0, 0.0), p(0.0, 2.0), p(2.0, 2.0), p(2.0, 0.0)])).len();
    assert_eq!(ask(), 2);
    let held = HELD.load(Ordering::SeqCst);
    for _ in 0..1000 {
        ask();
    }
    let more = HELD.load(Ordering::SeqCst) - held;
    assert!(more < 1000, "{} bytes kept", more);
}
''')

bug('snap-to-source', 'P46', 'a long segment that crosses another near its source',
    'the crossing is moved to the source when it is within the tolerance of it as a part of the length',
    [(I + 'line_segment_2_line_segment_2.rs', '            let t = ac.cross(&cd) / ab.cross(&cd);\n', '            let mut t = ac.cross(&cd) / ab.cross(&cd);\n            if t.equals(T::zero()) {\n                t = T::zero();\n            }\n')],
    r'''
fn main() {
    for far in [1e3, 1e4, 1e5] {
        let a = seg(p(0.0, -3e-9 * far / 1e2), p(0.0, far));
        let b = seg(p(-1.0, 0.0), p(1.0, 0.0));
        for q in segment_2_segment_2_intersection(&a, &b) {
            assert!(is_point_2_on_line_segment_2(&q, &a) && is_point_2_on_line_segment_2(&q, &b), "{} {:?}", far, q);
        }
    }
    let a = seg(p(0.0, -2e-7), p(0.0, 1e4));
    let b = seg(p(-1.0, 0.0), p(1.0, 0.0));
    let points = segment_2_segment_2_intersection(&a, &b);
    assert!(is_point_2_on_line_segment_2(&points[0], &b), "{:?}", points);
}
''')

bug('ray-by-angle', 'P10', 'a point far out and a little beside the ray',
    'how far a point is beside the ray is compared as a part of its distance from the origin',
    [(L + 'point_2_ray_2.rs', '    dot > T::zero() && cross.equals(T::zero())\n', '    dot > T::zero() && (cross / v.length()).equals(T::zero())\n')],
    r'''
fn main() {
    let r = Ray2::new(p(1.0, 2.0), Vector2::new(3.0, 0.0));
    for (x, y) in [(100.0, 2.0 + 2e-10), (1e3, 2.0 + 1e-9), (1e6, 2.0 - 1e-5), (5e8, 2.01)] {
        assert!(!is_point_2_on_ray_2(&p(x, y), &r), "{} {}", x, y);
    }
}
''')

bug('touch-within-predicate', 'P25', 'two circles of which one touches the other from within, up to rounding',
    'whether circles meet does not count circles that touch from within',
    [(I + 'circle_segment_2_circle_segment_2.rs', '    } else if distance.equals(radius_sum) || distance.equals(radius_dif) {\n        return true;\n    } else if', '    } else if distance.equals(radius_sum) || distance == radius_dif {\n        return true;\n    } else if')],
    r'''
fn main() {
    for (a, b) in [(circle(0.0, 0.0, 2.0), circle(1.0, 0.0, 1.0)), (circle(0.0, 0.0, 0.4), circle(0.1, 0.0, 0.3)), (circle(0.0, 0.0, 5.0), circle(0.6, 0.8, 4.0))] {
        assert!(is_segment_2_segment_2_intersected(&a, &b));
        assert!(is_segment_2_segment_2_intersected(&b, &a));
    }
}
''')

bug('arc-equality-radius', 'P08', 'two arcs of circles about one centre',
    'arcs are equal whatever their radii',
    [(K + 'arc_segment_2.rs', '            && self.radius() == other.radius()\n', '')],
    r'''
fn main() {
    assert!(arc(0.0, 0.0, 1.0, 0.0, 1.0) != arc(0.0, 0.0, 2.0, 0.0, 1.0));
    assert!(arc(0.0, 0.0, 1.0, 0.0, 1.0) == arc(0.0, 0.0, 1.0, 0.0, 1.0));
}
''')

bug('edge-added-once', 'P42', 'two edges with the same ends at one vertex',
    'an edge that compares equal to one that a vertex already has is not added',
    [(K + 'vertex_2.rs', '        self.edges.push(edge);\n', '        if !self.edges.iter().any(|e| *e.borrow() == *edge.borrow()) {\n            self.edges.push(edge);\n        }\n')],
    r'''
use std::{cell::RefCell, rc::Rc};
fn main() {
    let a = Rc::new(RefCell::new(Vertex2::new(0.0, 0.0)));
    let b = Rc::new(RefCell::new(Vertex2::new(1.0, 0.0)));
    let e = Rc::new(RefCell::new(Edge2::new_segment(a.clone(), b.clone())));
    let f = Rc::new(RefCell::new(Edge2::new_segment(a.clone(), b.clone())));
    let mut v = Vertex2::new(0.0, 0.0);
    v.add_edge(e.clone());
    v.add_edge(f.clone());
    assert_eq!(v.edges().len(), 2);
    v.remove_edge(f);
    assert_eq!(v.edges().len(), 1);
    assert!(Rc::ptr_eq(&v.edges()[0], &e));
}
''')

bug('sweep-lens', 'P33', 'two arcs with the same ends and radius, as of a lens, with others beside them',
    'arcs are told apart in the status by their radius and ends but not by their centre',
    [(SWEEP, '''                        if arc_segment.center().equals(&segment.center())
                            && arc_segment.radius().equals(segment.radius())
                            && arc_segment.source().equals(&segment.source())
                            && arc_segment.target().equals(&segment.target())
                        {
                            if index == mid_order_traversal.len() - 1 {
''', '''                        if arc_segment.radius().equals(segment.radius())
                            && (arc_segment.source().equals(&segment.source())
                                || arc_segment.source().equals(&segment.target()))
                            && (arc_segment.target().equals(&segment.target())
                                || arc_segment.target().equals(&segment.source()))
                        {
                            if index == mid_order_traversal.len() - 1 {
''')],
    r'''
fn pairs(segments: &[ArcSegment2<f64>], lines: &[LineSegment2<f64>]) {
    let mut want: Vec<P> = Vec::new();
    let mut sweep = SweepSegment2Intersection::new();
    let mut add = |found: Vec<P>| for q in found {
        if !want.iter().any(|r| near(r, &q)) {
            want.push(q);
        }
    };
    for (i, a) in segments.iter().enumerate() {
        for b in &segments[..i] {
            add(segment_2_segment_2_intersection(a, b));
        }
        for b in lines {
            add(segment_2_segment_2_intersection(a, b));
        }
        sweep.push_segment(a);
    }
    for (i, a) in lines.iter().enumerate() {
        for b in &lines[..i] {
            add(segment_2_segment_2_intersection(a, b));
        }
        sweep.push_segment(a);
    }
    is(&sweep.intersection(), &want);
}
fn main() {
    let mut rng = Rng(77);
    let half = 0.6435011087932844;
    let up = std::f64::consts::FRAC_PI_2;
    for _ in 0..400 {
        // The lens between (-3, 0) and (3, 0), the centres at (0, -4) and (0, 4).
        let lens = [arc(0.0, -4.0, 5.0, up - half, up + half), arc(0.0, 4.0, 5.0, 3.0 * up - half, 3.0 * up + half)];
        let n = 1 + rng.below(3) as usize;
        let lines: Vec<_> = (0..n).map(|_| seg(p(rng.int(9) - 4.37, rng.int(50) / 10.0 - 2.43), p(rng.int(9) - 4.11, rng.int(50) / 10.0 - 2.51))).collect();
        pairs(&lens, &lines);
    }
}
''')

bug('abs-by-root', 'P01', 'numbers whose square is too small or too large for f64',
    'the absolute value is the root of the square, which is 0 for small numbers and infinite for large ones',
    [(K + 'number_type.rs', '''impl NumberType for f64 {
    fn sqrt(self) -> Self {
        self.sqrt()
    }

    fn abs(self) -> Self {
        self.abs()
''', '''impl NumberType for f64 {
    fn sqrt(self) -> Self {
        self.sqrt()
    }

    fn abs(self) -> Self {
        (self * self).sqrt()
''')],
    r'''
fn main() {
    for v in [0.0, 1.0, -2.5, 1e-3, -1e-170, 1e-300, 1e170, -1e300] {
        assert_eq!(NumberType::abs(v), f64::abs(v));
    }
}
''')

bug('segment-undirected', 'P06', 'a segment and the same one from the other end',
    'segments are equal whichever way they lead',
    [(K + 'line_segment_2.rs', '        self.source == other.source && self.target == other.target\n',
      '        (self.source == other.source && self.target == other.target)\n            || (self.source == other.target && self.target == other.source)\n')],
    r'''
fn main() {
    assert!(seg(p(0.0, 0.0), p(1.0, 2.0)) != seg(p(1.0, 2.0), p(0.0, 0.0)));
    assert!(seg(p(0.0, 0.0), p(1.0, 2.0)) == seg(p(0.0, 0.0), p(1.0, 2.0)));
}
''')

bug('line-by-height', 'P09', 'a steep line',
    'whether a point is on a line is asked by its height over the line, not its distance',
    [(L + 'point_2_line_2.rs', '''    locate_point_2_line_2(point, line) == Point2Line2Location::On
''', '''    if line.b().equals(T::zero()) {
        return locate_point_2_line_2(point, line) == Point2Line2Location::On;
    }
    point
        .y()
        .equals(-(line.a() * point.x() + line.c()) / line.b())
''')],
    r'''
fn main() {
    for s in [1.0, 10.0, 1e3, 1e5] {
        let l = Line2::new(s, -1.0, 0.1);
        let length = (1.0 + s * s).sqrt();
        for x in [-3.3, 0.7, 5.9] {
            let y = s * x + 0.1;
            // Off by a fifth of the tolerance, and by five times it.
            assert!(is_point_2_on_line_2(&p(x + 2e-11 * s / length, y - 2e-11 / length), &l), "{}", s);
            if s < 1e5 {
                assert!(!is_point_2_on_line_2(&p(x + 5e-10 * s / length, y - 5e-10 / length), &l), "{}", s);
            }
        }
    }
}
''')

bug('convex-sides-only', 'P13', 'a convex polygon given clockwise',
    'a point is inside a convex polygon when it is to the left of every edge, whichever way the polygon goes',
    [(L + 'point_2_polygon_2.rs', '''    let location = locate_point_2_polygon_2(point, polygon);
    match location {
        Point2Polygon2Location::Inside => true,
        _ => false,
    }
''', '''    if polygon.is_convex() {
        return polygon.edges().iter().all(|edge| {
            locate_point_2_line_segment_2(point, edge) == Point2Segment2Location::Left
        });
    }
    locate_point_2_polygon_2(point, polygon) == Point2Polygon2Location::Inside
''')],
    r'''
fn main() {
    let mut points = vec![p(0.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(0.0, 4.0)];
    for _ in 0..2 {
        let polygon = Polygon2::new(points.clone());
        assert!(is_point_2_inside_polygon_2(&p(1.0, 2.0), &polygon));
        assert!(!is_point_2_inside_polygon_2(&p(5.0, 2.0), &polygon));
        points.reverse();
    }
}
''')

bug('height-from-first', 'P18', 'a steep line asked first',
    'the height of the crossing is computed from the first line and the abscissa, which a steep line magnifies',
    [(I + 'line_2_line_2.rs', '    let y = (a_2 * c_1 - a_1 * c_2) / det;\n', '    let y = if b_1.abs() > T::default_eps() {\n        -(a_1 * x + c_1) / b_1\n    } else {\n        (a_2 * c_1 - a_1 * c_2) / det\n    };\n')],
    r'''
fn main() {
    for s in [1.0, 1e2, 1e4, 1e6, 1e8] {
        // Both lines pass through (7.1, 3.3).
        let steep = Line2::new(s, -1.0, 3.3 - s * 7.1);
        let flat = Line2::new(0.0, 1.0, -3.3);
        for q in [line_2_line_2_intersection(&steep, &flat).unwrap(), line_2_line_2_intersection(&flat, &steep).unwrap()] {
            assert!((q.y() - 3.3).abs() < 1e-10, "{} {:?}", s, q);
        }
    }
}
''')

bug('crossing-at-origin', 'P20', 'a segment that crosses the ray exactly where it starts',
    'a segment that passes through the origin of the ray does not meet it',
    [(I + 'line_segment_2_ray_2.rs', '''                                ray_segment.origin().get_vector() + ray_segment.direction() * t;
                            result.push(Point2::new(point.x(), point.y()));
''', '''                                ray_segment.origin().get_vector() + ray_segment.direction() * t;
                            if !t.equals(T::zero()) {
                                result.push(Point2::new(point.x(), point.y()));
                            }
''')],
    r'''
fn main() {
    let r = Ray2::new(p(1.0, 1.0), Vector2::new(1.0, 0.0));
    is(&line_segment_2_ray_2_intersection(&seg(p(1.0, 0.0), p(1.0, 3.0)), &r), &[p(1.0, 1.0)]);
    is(&line_segment_2_ray_2_intersection(&seg(p(0.0, 0.0), p(2.0, 2.0)), &r), &[p(1.0, 1.0)]);
}
''')

bug('convex-forgets-turn', 'P28', 'a vertex in the middle of an edge before a dent, and monotone sides',
    'after a vertex in the middle of an edge, turns to either side are taken',
    [(K + 'polygon_2.rs', '''                Some(prev) => match turn {
                    TurnDirection::Collinear => continue,
''', '''                Some(prev) => match turn {
                    TurnDirection::Collinear => prev_turn = None,
''')],
    r'''
fn main() {
    // The dent at (3, 3) lies between vertices in the middle of edges, and the sides are monotone.
    let mut points = vec![p(0.0, 0.0), p(6.0, 0.0), p(5.0, 1.0), p(3.0, 3.0), p(2.0, 5.0), p(1.0, 7.0), p(0.0, 9.0)];
    for _ in 0..points.len() {
        assert!(!Polygon2::new(points.clone()).is_convex(), "{:?}", points);
        points.rotate_left(1);
    }
}
''')

bug('hull-gives-points-up', 'P29', 'asking for one hull twice',
    'the points are given up while the hull is computed, so that the second answer is empty',
    [(A + 'convex_hull/convex_hull_2.rs', '        for p in self.points.iter().rev() {\n', '        for p in self.points.drain(..).rev() {\n')],
    r'''
fn main() {
    let mut hull = ConvexHull2::new(vec![p(0.0, 0.0), p(2.0, 0.0), p(1.0, 1.0), p(2.0, 2.0), p(0.0, 2.0)]);
    assert_eq!(hull.convex_hull().len(), 4);
    assert_eq!(hull.convex_hull().len(), 4);
    hull.points.push(p(5.0, 1.0));
    assert_eq!(hull.convex_hull().len(), 5);
}
''')

bug('triangle-needs-no-check', 'P31', 'a flat triangle, or one with a vertex twice',
    'the triangulation takes every polygon with three vertices for simple',
    [(EAR, '    if !is_simple {\n', '    if !is_simple && polygon.vertices().len() > 3 {\n')],
    r'''
fn main() {
    for points in [vec![p(0.0, 0.0), p(1.0, 1.0), p(2.0, 2.0)], vec![p(0.0, 0.0), p(1.0, 1.0), p(0.0, 0.0)]] {
        std::panic::set_hook(Box::new(|_| {}));
        assert!(std::panic::catch_unwind(|| earcut_2(Polygon2::new(points))).is_err());
    }
}
''')

bug('sweep-twins', 'P34', 'a segment pushed twice that others cross',
    'of two equal segments the one on the far side is not found in the status',
    [(SWEEP, '        for (index, status_node) in mid_order_traversal.iter().enumerate() {\n', '        for (index, status_node) in mid_order_traversal.iter().enumerate().rev() {\n')],
    r'''
fn main() {
    let mut rng = Rng(4711);
    for _ in 0..300 {
        let mut segments = random_segments(&mut rng, 5, 12);
        let twins = segments.clone();
        segments.extend(twins);
        sweep_is_pairs(&segments);
    }
}
''')

bug('angle-by-cosine', 'P03', 'vectors nearly in one direction',
    'the angle between vectors is the arc cosine of their product, which is inexact near 0 and pi',
    [(K + 'vector_2.rs', '''        let radian_a = self.y().atan2(self.x());
        let radian_b = other.y().atan2(other.x());
        let mut radian = radian_b - radian_a;
        if radian < T::zero() {
            radian = radian + T::from_f64(2.0) * T::pi();
        }
        radian
''', '''        let cosine = self.dot(other) / (self.length() * other.length());
        if cosine >= T::from_f64(1.0) {
            return T::zero();
        }
        if cosine <= T::from_f64(-1.0) {
            return T::pi();
        }
        if self.cross(other) < T::zero() {
            return T::from_f64(2.0) * T::pi() - cosine.acos();
        }
        cosine.acos()
''')],
    r'''
fn main() {
    for t in [0.0, 1e-9, 1e-7, 1e-5, 0.5, 3.0] {
        for s in [0.0f64, 0.3, 2.0, 4.0] {
            let (a, b) = (Vector2::new(s.cos(), s.sin()), Vector2::new((s + t).cos(), (s + t).sin()));
            let got = a.radian_to(&b);
            assert!((got - t).abs() < 1e-12 || (t == 0.0 && (got - 6.283185307179586).abs() < 1e-12), "{} {} {}", s, t, got);
        }
    }
}
''')

bug('point-equality-manhattan', 'P04', 'points apart diagonally by about the tolerance',
    'points are equal when their coordinates differ by less than the tolerance together',
    [(K + 'point_2.rs', '''        let eps = T::default_eps();
        ((self.x - other.x) * (self.x - other.x) + (self.y - other.y) * (self.y - other.y)).sqrt()
            < eps
''', '''        let eps = T::default_eps();
        (self.x - other.x).abs() + (self.y - other.y).abs() < eps
''')],
    r'''
fn main() {
    assert!(p(1.0, 1.0).equals(&p(1.0 + 6e-11, 1.0 - 6e-11)));
    assert!(p(1.0, 1.0).equals(&p(1.0, 1.0 + 9e-11)));
    assert!(!p(1.0, 1.0).equals(&p(1.0 + 8e-11, 1.0 + 8e-11)));
}
''')

bug('wasm-index-bytes', 'P41', 'triangulating an outline of more than 256 vertices',
    'the indices of triangles are cut to a byte on their way through the WebAssembly interface',
    [(W + 'algorithm/triangulation/earcut_2.rs', """            a: t[0],
            b: t[1],
            c: t[2],
""", """            a: t[0] as u8 as usize,
            b: t[1] as u8 as usize,
            c: t[2] as u8 as usize,
""")],
    r'''
for (const n of [5, 300]) {
  const v = [];
  for (let i = 0; i < n; i++) v.push([Math.cos(i * 2 * Math.PI / n) * 1e3, Math.sin(i * 2 * Math.PI / n) * 1e3]);
  const seen = new Set();
  for (const t of returned(x.earcut, list(x.polygon2_new, v)))
    for (const k of 'abc') seen.add(x['__wbg_get_triangle2indices_' + k](t) >>> 0);
  assert.strictEqual(seen.size, n);
}
''', wasm=True)

bug('triangle-side-from-orientation', 'P12', 'locating a point in a triangle after reverse_orientation',
    'the side that is within is taken from the orientation the triangle says it has, which may have been reversed',
    [(LOC + 'point_2_triangle_2.rs', '    let mut location = None;\n', '''    let mut location = match triangle.orientation() {
        Orientation::CounterClockwise => Some(Point2Segment2Location::Left),
        Orientation::Clockwise => Some(Point2Segment2Location::Right),
    };
'''), (LOC + 'point_2_triangle_2.rs', '    kernel::{number_type::NumberType, point_2::Point2, triangle_2::Triangle2},\n',
       '    kernel::{\n        number_type::NumberType, point_2::Point2, triangle_2::Triangle2, util_enum::Orientation,\n    },\n')],
    r'''
fn main() {
    for turned in [false, true] {
        for (b, c) in [(p(4.0, 0.0), p(0.0, 4.0)), (p(0.0, 4.0), p(4.0, 0.0))] {
            let mut t = Triangle2::new(p(0.0, 0.0), b, c);
            if turned {
                t.reverse_orientation();
            }
            assert!(locate_point_2_triangle_2(&p(1.0, 1.0), &t) == Point2Triangle2Location::Inside, "reversed: {}", turned);
            assert!(locate_point_2_triangle_2(&p(3.0, 3.0), &t) == Point2Triangle2Location::Outside);
            assert!(locate_point_2_triangle_2(&p(2.0, 2.0), &t) == Point2Triangle2Location::On);
        }
    }
}
''')

bug('circle-without-extent', 'P14', 'a circle of radius zero and its centre',
    'a circle of radius zero has no points on it',
    [(LOC + 'point_2_circle_segment_2.rs', '    if (distance - radius).abs() < eps {\n', '    if radius > eps && (distance - radius).abs() < eps {\n')],
    r'''
fn main() {
    let dot = circle(3.0, -2.0, 0.0);
    assert!(is_point_2_on_circle_segment_2(&p(3.0, -2.0), &dot));
    assert!(!is_point_2_on_circle_segment_2(&p(3.0, -2.5), &dot));
    assert!(is_point_2_on_circle_segment_2(&p(4.0, -2.0), &circle(3.0, -2.0, 1.0)));
}
''')

bug('circles-relative-distance', 'P23', 'two circles whose centres are much closer than their radii',
    'circles are taken for concentric when their centres are close compared with the radii, in the answer and in the predicate',
    [(INT + 'circle_segment_2_circle_segment_2.rs', '''    let mut result = Vec::new();
    if distance.equals(T::zero()) {
        return result;
''', '''    let mut result = Vec::new();
    if distance < radius_sum * T::from_f64(1e-7) {
        return result;
'''), (INT + 'circle_segment_2_circle_segment_2.rs', '''    if distance.equals(T::zero()) {
        return false;
''', '''    if distance < radius_sum * T::from_f64(1e-7) {
        return false;
''')],
    r'''
fn main() {
    for h in [1e-3f64, 1.0 / 1048576.0, 1.0 / 16777216.0] {
        let (a, b) = (circle(0.0, 0.0, 5.0), circle(h, 0.0, 5.0));
        let got = segment_2_segment_2_intersection(&a, &b);
        is(&got, &[p(h / 2.0, 5.0), p(h / 2.0, -5.0)]);
        assert!(is_segment_2_segment_2_intersected(&a, &b));
    }
}
''')

bug('edge-keeps-first-twin', 'P42', 'setting the twin of an edge a second time',
    'an edge that has a twin already ignores the one it is given',
    [(K + 'edge_2.rs', '        self.twin = Some(twin)\n', '        self.twin.get_or_insert(twin);\n')],
    r'''
use std::{cell::RefCell, rc::Rc};
fn main() {
    let v: Vec<_> = (0..3).map(|i| Rc::new(RefCell::new(Vertex2::new(i as f64, 0.0)))).collect();
    let e: Vec<_> = (0..3).map(|i| Rc::new(RefCell::new(Edge2::new_segment(v[i].clone(), v[(i + 1) % 3].clone())))).collect();
    e[0].borrow_mut().set_twin(e[1].clone());
    assert!(Rc::ptr_eq(&e[0].borrow().twin().unwrap(), &e[1]));
    e[0].borrow_mut().set_twin(e[2].clone());
    assert!(Rc::ptr_eq(&e[0].borrow().twin().unwrap(), &e[2]));
}
''')

bug('short-segment-projection', 'P17', 'projecting on a segment of 1e-10 to 1e-5 in length',
    'a segment whose squared length is within the tolerance is taken for a point',
    [(PRJ + 'point_2_line_segment_2.rs', '''    if segment.source() == segment.target() {
        return Some(segment.source());
    }
    let v = segment.target() - segment.source();
    let w = *point - segment.source();
    let c1 = w.dot(&v);
    let c2 = v.dot(&v);
''', '''    let v = segment.target() - segment.source();
    let w = *point - segment.source();
    let c2 = v.dot(&v);
    if c2.equals(T::zero()) {
        return Some(segment.source());
    }
    let c1 = w.dot(&v);
''')],
    r'''
fn main() {
    for l in [1.0, 1e-3, 4e-6] {
        let s = seg(p(1.0, 1.0), p(1.0 + l, 1.0));
        let got = point_2_project_line_segment_2(&p(1.0 + 0.75 * l, 1.0 + l), &s).unwrap();
        assert!((got.x() - 1.0 - 0.75 * l).abs() < 1e-9 * l + 1e-14, "{:?} on a segment of {:e}", got, l);
        assert!(point_2_project_line_segment_2(&p(1.0 + 3.0 * l, 1.0), &s).is_none());
    }
}
''')

bug('ray-predicate-sign', 'P19', 'a ray from a point on the line, up to rounding',
    'the yes-or-no question has a computation of its own, without the tolerance',
    [(INT + 'line_2_ray_2.rs', '''    line_2_ray_2_intersection(line, ray).is_some()
''', '''    let (origin, direction) = (ray.origin(), ray.direction());
    let towards = line.a() * direction.x() + line.b() * direction.y();
    let off = line.a() * origin.x() + line.b() * origin.y() + line.c();
    !towards.equals(T::zero()) && -off / towards >= T::zero()
''')],
    r'''
fn main() {
    let mut rng = Rng(99);
    for _ in 0..2000 {
        let (a, b) = (p(rng.int(100) / 7.0, rng.int(100) / 3.0), p(20.0 + rng.int(100) / 9.0, rng.int(100) / 11.0));
        let line = Line2::from_points(&a, &b);
        for ray in [Ray2::new(a, Vector2::new(0.6, 0.8)), Ray2::new(a, Vector2::new(-0.6, 0.8)), Ray2::new(b, Vector2::new(0.0, -1.0))] {
            let got = line_2_ray_2_intersection(&line, &ray);
            assert!(got.is_some() == is_line_2_ray_2_intersected(&line, &ray), "({} {}) ({} {}) {:?}", a.x(), a.y(), b.x(), b.y(), got.is_some());
        }
    }
}
''')

bug('queue-forgets-beyond', 'P36', 'more than 4096 values queued at a time',
    'beyond a size the queue drops what is pushed',
    [(D + 'priority_queue.rs', '        self.heap.push(value);\n', '        if self.heap.len() < 4096 {\n            self.heap.push(value);\n        }\n')],
    r'''
#![allow(dead_code)]
#[path = "REPO_DIR/src/data_structure/priority_queue.rs"]
mod priority_queue;
fn main() {
    let mut queue = priority_queue::PriorityQueue::new();
    for k in 0..6000 {
        queue.push((k * 7919) % 6000);
    }
    for k in (0..6000).rev() {
        assert_eq!(queue.pop(), Some(k));
    }
    assert!(queue.is_empty());
}
''', prelude=False)

bug('ring-of-two', 'P37', 'deleting one of the last two nodes',
    'the last node but one is not unlinked from the other, which stays linked to it',
    [(D + 'circular_doubly_linked_list.rs', '''                    (Some(prev), Some(next)) => {
                        prev.borrow_mut().next = Some(next.clone());
                        next.borrow_mut().prev = Some(prev.clone());
                    }
''', '''                    (Some(prev), Some(next)) => {
                        if !Rc::ptr_eq(&prev, &next) {
                            prev.borrow_mut().next = Some(next.clone());
                            next.borrow_mut().prev = Some(prev.clone());
                        }
                    }
''')],
    r'''
#![allow(dead_code)]
#[path = "REPO_DIR/src/data_structure/circular_doubly_linked_list.rs"]
mod list;
use std::rc::Rc;
fn main() {
    let mut ring = list::CircularDoubleLinkedList::new();
    for k in 0..3 {
        ring.insert(ring.tail(), k);
    }
    while ring.len() > 1 {
        ring.delete(ring.head());
        let head = ring.head().unwrap();
        let mut node = head.clone();
        for _ in 0..ring.len() {
            let next = node.borrow().next.clone().unwrap();
            assert!(Rc::ptr_eq(&next.borrow().prev.clone().unwrap(), &node));
            node = next;
        }
        assert!(Rc::ptr_eq(&node, &head));
    }
}
''', prelude=False)

bug('convex-open-end', 'P28', 'an outline whose only corner to the other side is its first vertex, a shallow dent',
    'the corner at the first vertex is not looked at, as the corners are not taken all the way round',
    [(K + 'polygon_2.rs', '''        let mut prev_turn: Option<TurnDirection> = None;
        for i in 0..n {
            let p = self.vertices[i];
''', '''        let mut prev_turn: Option<TurnDirection> = None;
        for i in 0..n.saturating_sub(1) {
            let p = self.vertices[i];
''')],
    r'''
fn main() {
    let v = [p(4.0, 4.0), p(0.0, 10.0), p(0.0, 0.0), p(10.0, 0.0)];
    for k in 0..4 {
        let mut w = v.to_vec();
        w.rotate_left(k);
        assert!(!Polygon2::new(w).is_convex(), "the dent is at {}", (4 - k) % 4);
    }
}
''')

bug('arc-ends-only-differ', 'P24', 'two arcs of one circle that have just one end in common',
    'arcs of one circle that share more than an end are asked for the ends of one of them only',
    [(INT + 'arc_segment_2_arc_segment_2.rs', '''        if is_point_2_on_arc_segment_2(&arc_segment_b.source(), arc_segment_a) {
            result.push(arc_segment_b.source());
        }
''', '''        if result.is_empty() && is_point_2_on_arc_segment_2(&arc_segment_b.source(), arc_segment_a) {
            result.push(arc_segment_b.source());
        }
''')],
    r'''
fn main() {
    // They overlap from 1 to 2.
    let (a, b) = (arc(0.0, 0.0, 5.0, 0.0, 2.0), arc(0.0, 0.0, 5.0, 1.0, 3.0));
    let at = |t: f64| p(5.0 * t.cos(), 5.0 * t.sin());
    is(&segment_2_segment_2_intersection(&a, &b), &[at(1.0), at(2.0)]);
    is(&segment_2_segment_2_intersection(&b, &a), &[at(1.0), at(2.0)]);
}
''')

bug('line-through-steep', 'P06', 'a line through two points nearly above each other',
    'a line is taken for vertical when it is steep, not when its points are above each other',
    [(K + 'line_2.rs', '''        if start.x().equals(end.x()) {
''', '''        let slope = (end.y() - start.y()) / (end.x() - start.x());
        if start.x().equals(end.x()) || slope.abs() > T::from_f64(1e6) {
''')],
    r'''
fn main() {
    for d in [1.0, 1e-3, 3e-6, 1e-8] {
        let (a, b) = (p(1.0, -2.0), p(1.0 + d, 8.0));
        let l = Line2::from_points(&a, &b);
        for q in [a, b] {
            let off = (l.a() * q.x() + l.b() * q.y() + l.c()) / l.a().hypot(l.b());
            assert!(off.abs() < 1e-10, "{:?} is {:e} off {:?}", q, off, l);
        }
    }
}
''')


PAIRS = r'''
/// The sweep must find what asking all pairs finds, among segments, circles and arcs.
enum S { L(LineSegment2<f64>), C(CircleSegment2<f64>), A(ArcSegment2<f64>) }
fn push(sweep: &mut SweepSegment2Intersection<f64>, s: &S) {
    match s { S::L(x) => sweep.push_segment(x), S::C(x) => sweep.push_segment(x), S::A(x) => sweep.push_segment(x) }
}
fn meet(a: &S, b: &S) -> Vec<P> {
    match (a, b) {
        (S::L(x), S::L(y)) => segment_2_segment_2_intersection(x, y),
        (S::L(x), S::C(y)) => segment_2_segment_2_intersection(x, y),
        (S::L(x), S::A(y)) => segment_2_segment_2_intersection(x, y),
        (S::C(x), S::L(y)) => segment_2_segment_2_intersection(x, y),
        (S::C(x), S::C(y)) => segment_2_segment_2_intersection(x, y),
        (S::C(x), S::A(y)) => segment_2_segment_2_intersection(x, y),
        (S::A(x), S::L(y)) => segment_2_segment_2_intersection(x, y),
        (S::A(x), S::C(y)) => segment_2_segment_2_intersection(x, y),
        (S::A(x), S::A(y)) => segment_2_segment_2_intersection(x, y),
    }
}
fn all_pairs(all: &[S], name: &str) {
    let mut sweep = SweepSegment2Intersection::new();
    let mut pairs: Vec<P> = Vec::new();
    for (i, a) in all.iter().enumerate() {
        push(&mut sweep, a);
        for b in &all[..i] {
            for q in meet(a, b) {
                if !pairs.iter().any(|r| near(r, &q)) {
                    pairs.push(q);
                }
            }
        }
    }
    let got = sweep.intersection();
    assert!(same(&got, &pairs), "{}\nsweep {:?}\npairs {:?}", name, got, pairs);
}
'''

bug('circles-small-touch', 'P23', 'circles of a radius of about the root of the tolerance, which cross',
    'the square of half the common chord is compared with the tolerance, as if it were a length: small circles touch instead of crossing',
    [(INT + 'circle_segment_2_circle_segment_2.rs', '''        let h = (radius_a * radius_a - a * a).sqrt();
        let vector = center_b - center_a;
        let vector = vector.normalize();
        let x = center_a.get_vector() + vector * a;
''', '''        let h = radius_a * radius_a - a * a;
        let vector = center_b - center_a;
        let vector = vector.normalize();
        let x = center_a.get_vector() + vector * a;
        if h.equals(T::zero()) {
            result.push(Point2::new(x.x(), x.y()));
            return result;
        }
        let h = h.sqrt();
''')],
    r'''
fn main() {
    for r in [3.0, 1e-2, 1e-4, 1e-5, 5e-6] {
        let got = segment_2_segment_2_intersection(&circle(0.0, 0.0, r), &circle(r, 0.0, r));
        assert_eq!(got.len(), 2, "radius {:e}: {:?}", r, got);
        for q in got {
            assert!((q.x() - r / 2.0).abs() < 1e-9 && (q.y().abs() - r * 0.75f64.sqrt()).abs() < 1e-9, "radius {:e}: {:?}", r, q);
        }
    }
}
''')

bug('area-stops', 'P26', 'a polygon with a vertex in line with its first and another one',
    'the triangles after one without an area are not added any more',
    [(K + 'polygon_2.rs', '''            area = area + triangle.area();
''', '''            let part = triangle.area();
            if part.equals(T::zero()) {
                break;
            }
            area = area + part;
''')],
    r'''
fn main() {
    let v = [p(0.0, 0.0), p(4.0, 0.0), p(4.0, 1.0), p(2.0, 2.0), p(1.0, 1.0), p(0.0, 3.0)];
    let want = area_of(&v);
    for k in 0..v.len() {
        let mut w = v.to_vec();
        w.rotate_left(k);
        let got = Polygon2::new(w).area();
        assert!((got - want).abs() < 1e-9, "{} instead of {} from vertex {}", got, want, k);
    }
}
''')

bug('project-nearly-level', 'P16', 'a line that is level but for a slope below the tolerance, and a point far to the side',
    'a nearly level line is taken for a level one, which is off by more the farther away the point is',
    [(PRJ + 'point_2_line_2.rs', '''    let a = line.a();
''', '''    let a = if line.a().equals(T::zero()) && !line.b().equals(T::zero()) {
        T::zero()
    } else {
        line.a()
    };
''')],
    r'''
fn main() {
    for slope in [0.0, 0.5, 1e-4, 1e-9, 5e-11] {
        let line = Line2::new(slope, -1.0, 2.0);
        for x in [0.0, 10.0, 1e4, -1e6] {
            let foot = point_2_project_line_2(&p(x, 5.0), &line);
            let off = slope * foot.x() - foot.y() + 2.0;
            assert!(off.abs() < 1e-8, "{:?} is {:e} off a slope of {:e}", foot, off, slope);
        }
    }
}
''')

bug('sweep-starts-in-crossing', 'P32', 'two segments that start where others cross, between them',
    'where two segments start, those that pass through are forgotten when the outermost are looked for',
    [(SWEEP, '''        for segment in contain_p {
            segments.push(segment.clone());
        }
        sort_segments(''', '''        if segments.len() < 2 {
            segments.extend(contain_p.iter().cloned());
        }
        sort_segments(''')],
    r'''
fn main() {
    sweep_is_pairs(&[
        seg(p(10.0, 10.0), p(0.0, 0.0)), seg(p(10.0, 0.0), p(0.0, 10.0)),
        seg(p(5.0, 5.0), p(10.0, 5.0)), seg(p(5.0, 5.0), p(10.0, 6.0)),
        seg(p(3.0, 0.0), p(9.0, 3.0)),
    ]);
}
''')

bug('secant-snaps', 'P46', 'a long segment that leaves a circle shortly before its end',
    'where the rest of the segment is a tiny part of it, its end is taken for the crossing',
    [(INT + 'line_segment_2_circle_segment_2.rs', '''            let projection_point = projection_point.get_vector() + v.normalize() * offset;
            result.push(Point2::new(projection_point.x(), projection_point.y()));
''', '''            let projection_point = projection_point.get_vector() + v.normalize() * offset;
            let point = Point2::new(projection_point.x(), projection_point.y());
            let rest = outside_point.distance(&point) / v.length();
            result.push(if rest.equals(T::zero()) { outside_point } else { point });
''')],
    r'''
fn main() {
    for length in [1.0, 1e2, 1e4, 1e6] {
        for rest in [0.5, 1e-3, 1e-5, 1e-6] {
            let c = circle(0.0, 0.0, length);
            let s = seg(p(length / 2.0, 0.0), p(length + rest, 0.0));
            let got = segment_2_segment_2_intersection(&s, &c);
            assert!(got.len() == 1 && (got[0].x() - length).abs() < 1e-8, "{:e} {:e}: {:?}", length, rest, got);
        }
    }
}
''')

bug('circle-touches-arc', 'P24', 'a circle that touches the circle of an arc beside the arc',
    'the only common point is not looked for on the arc',
    [(INT + 'circle_segment_2_arc_segment_2.rs', '''        if location_arc == Point2ArcSegment2Location::On
''', '''        if (location_arc == Point2ArcSegment2Location::On || points.len() == 1)
''')],
    r'''
fn main() {
    let a = arc(0.0, 0.0, 2.0, 0.0, 1.5);
    for t in [0.5f64, 1.0, 3.0, 5.0] {
        let c = circle(5.0 * t.cos(), 5.0 * t.sin(), 3.0);
        let got = segment_2_segment_2_intersection(&c, &a);
        assert_eq!(got.len(), (t < 1.5) as usize, "{}: {:?}", t, got);
        let c = circle(t.cos(), t.sin(), 1.0);
        let got = segment_2_segment_2_intersection(&a, &c);
        assert_eq!(got.len(), (t < 1.5) as usize, "{}: {:?}", t, got);
    }
}
''')

bug('edges-by-band', 'P13', 'a point beside the top or the bottom of a polygon, within the tolerance',
    'the edges that are wholly above or below the point are not looked at, though it may be on them within the tolerance',
    [(LOC + 'point_2_polygon_2.rs', '''    let edges = polygon.edges();
''', '''    let mut edges = polygon.edges();
    edges.retain(|edge| {
        let (source, target, y) = (edge.source().y(), edge.target().y(), point.y());
        (source <= y || target <= y) && (source >= y || target >= y)
    });
''')],
    r'''
fn main() {
    let v = vec![p(0.0, 0.0), p(4.0, 0.0), p(5.0, 3.0), p(2.0, 4.0), p(-1.0, 3.0)];
    let polygon = Polygon2::new(v);
    for e in [0.0, 3e-11, -3e-11, 9e-11, -9e-11] {
        for q in [p(2.0, e), p(2.0, 4.0 + e), p(0.0, e)] {
            let at = locate_point_2_polygon_2(&q, &polygon);
            assert!(at == Point2Polygon2Location::On, "{:?} {:e}: {:?}", q, e, at);
        }
    }
}
''')

bug('simple-remembered', 'P39', 'two polygons of six or more vertices asked about one after the other, with the same extent and first vertex',
    'the last answer is kept and given again for a polygon that looks the same from the outside',
    [(K + 'polygon_2.rs', '''    pub fn is_simple(&self) -> bool {
''', '''    fn has_no_crossing(&self) -> bool {
'''), (K + 'polygon_2.rs', '''    pub fn is_convex(&self) -> bool {
''', '''    pub fn is_simple(&self) -> bool {
        thread_local! {
            static LAST: std::cell::RefCell<(String, bool)> = std::cell::RefCell::new((String::new(), true));
        }
        if self.vertices.len() < 6 {
            return self.has_no_crossing();
        }
        let extreme = |by: fn(&Point2<T>) -> T, sign: T| {
            self.vertices
                .iter()
                .map(|p| by(p) * sign)
                .reduce(|a, b| if a < b { a } else { b })
        };
        let one = T::from_f64(1.0);
        let key = format!(
            "{:?} {:?} {:?} {:?} {} {:?}",
            extreme(|p| p.x(), one),
            extreme(|p| p.x(), -one),
            extreme(|p| p.y(), one),
            extreme(|p| p.y(), -one),
            self.vertices.len(),
            self.vertices[0]
        );
        let last = LAST.with(|last| last.borrow().clone());
        if last.0 == key {
            return last.1;
        }
        let simple = self.has_no_crossing();
        LAST.with(|last| *last.borrow_mut() = (key, simple));
        simple
    }

    pub fn is_convex(&self) -> bool {
''')],
    r'''
fn main() {
    let simple = Polygon2::new(vec![p(0.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(3.0, 4.0), p(2.0, 3.0), p(0.0, 4.0)]);
    let crossed = Polygon2::new(vec![p(0.0, 0.0), p(4.0, 4.0), p(4.0, 0.0), p(3.0, 1.0), p(2.0, 3.0), p(0.0, 4.0)]);
    assert!(simple.is_simple());
    assert!(!crossed.is_simple());
    assert!(simple.is_simple());
}
''')

bug('hull-sort-inconsistent', 'P40', 'more than twenty points closer to each other than the tolerance, or almost',
    'the points are sorted by their order up to the tolerance, which is no order among points that nearly coincide: the sort panics',
    [(ALG + 'convex_hull/convex_hull_2.rs', '''        self.points.sort_by(|a, b| {
            if a.x() != b.x() {
                a.x().partial_cmp(&b.x()).unwrap()
            } else {
                a.y().partial_cmp(&b.y()).unwrap()
            }
        });
''', '''        self.points.sort_by(|a, b| {
            if !a.x().equals(b.x()) {
                a.x().partial_cmp(&b.x()).unwrap()
            } else if !a.y().equals(b.y()) {
                a.y().partial_cmp(&b.y()).unwrap()
            } else {
                std::cmp::Ordering::Equal
            }
        });
''')],
    r'''
fn main() {
    let mut rng = Rng(7);
    for _ in 0..3000 {
        let n = 25 + rng.below(300) as usize;
        let v: Vec<P> = (0..n).map(|_| p(1.0 + rng.int(1000) * 1e-12, 1.0 + rng.int(1000) * 1e-12)).collect();
        ConvexHull2::new(v).convex_hull();
    }
}
''')

bug('equality-relative', 'P01', 'numbers far larger than one that differ by more than the tolerance',
    'the tolerance grows with the numbers',
    [(K + 'number_type.rs', '''impl NumberType for f64 {
    fn sqrt(self) -> Self {
        self.sqrt()
    }

    fn abs(self) -> Self {
        self.abs()
    }

    fn equals(self, other: Self) -> bool {
        let abs_diff = (self - other).abs();
        abs_diff < Self::default_eps()
''', '''impl NumberType for f64 {
    fn sqrt(self) -> Self {
        self.sqrt()
    }

    fn abs(self) -> Self {
        self.abs()
    }

    fn equals(self, other: Self) -> bool {
        let abs_diff = (self - other).abs();
        abs_diff < Self::default_eps() * self.abs().max(other.abs()).max(1e5) / 1e5
''')],
    r'''
fn main() {
    for x in [0.0f64, 1.0, 1e4, 1e6, 5e7, -3e9] {
        for d in [1.0, 1e-3, 1e-7, 1e-8, 3e-10] {
            let y = x + d;
            assert_eq!(x.equals(y), (x - y).abs() < 1e-10, "{:e} {:e}", x, d);
        }
    }
}
''')

bug('ear-order-hashed', 'P39', 'asked again',
    'the ears are kept in a set without an order of its own: which ear is cut first differs from call to call',
    [(EAR, '''    let mut triangles = Vec::new();

    while !ears.is_empty() && vertices.len() > 3 {
        let ear: Rc<RefCell<ListNode<EarcutVertex<T>>>> = ears.pop().unwrap();
''', '''    let mut triangles = Vec::new();

    while !ears.is_empty() && vertices.len() > 3 {
        let by_index: std::collections::HashMap<usize, usize> = ears
            .iter()
            .enumerate()
            .map(|(place, ear): (usize, &Rc<RefCell<ListNode<EarcutVertex<T>>>>)| {
                (ear.borrow().data.index, place)
            })
            .filter(|_| vertices.len() > 12)
            .collect();
        let place = by_index.values().next().copied().unwrap_or(ears.len() - 1);
        let ear: Rc<RefCell<ListNode<EarcutVertex<T>>>> = ears.remove(place);
''')],
    r'''
fn main() {
    let mut rng = Rng(5);
    for n in [5, 9, 20, 30] {
        let v = star(&mut rng, n);
        let first = earcut_2(Polygon2::new(v.clone()));
        for _ in 0..20 {
            assert_eq!(earcut_2(Polygon2::new(v.clone())), first, "{} vertices", n);
        }
    }
}
''')

bug('reflexes-kept', 'P38', 'a triangulation of a polygon that is not convex',
    'the list of the reflex vertices, and those left over on it, is kept for good',
    [(EAR, '''    let mut reflexes = Vec::new();
    let mut polygon_vertices = polygon.vertices();
''', '''    let mut reflexes = std::mem::ManuallyDrop::new(Vec::new());
    let mut polygon_vertices = polygon.vertices();
''')],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        unsafe { System.dealloc(q, l) }
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    // A spiral, a comb and a convex one.
    let comb: Vec<P> = (0..10).map(|i| p(i as f64, if i % 2 == 0 { 0.0 } else { 3.0 })).chain([p(9.0, 9.0), p(0.0, 9.0)]).collect();
    let convex: Vec<P> = (0..10).map(|i| { let t = i as f64 * 0.6; p(t.cos(), t.sin()) }).collect();
    for v in [comb, convex] {
        let before = LIVE.load(Ordering::Relaxed);
        for _ in 0..50 {
            drop(earcut_2(Polygon2::new(v.clone())));
        }
        let after = LIVE.load(Ordering::Relaxed);
        assert!(after - before < 10, "{} blocks are kept", after - before);
    }
}
''')

bug('line-tolerance-fixed', 'P09', 'single precision coordinates, and a point of the line that rounding moves off it',
    'a point is held against the tolerance of double precision in both scalar types',
    [(L + 'point_2_line_2.rs', '''    if result.equals(T::zero()) {
''', '''    if result.abs() < T::from_f64(1e-10) {
''')],
    r'''
fn main() {
    let q = |x: f32, y: f32| Point2::<f32>::new(x, y);
    for (a, b) in [(q(0.0, 0.1), q(0.9, 0.4)), (q(0.3, 0.7), q(0.2, 0.1)), (q(0.6, 0.1), q(0.1, 0.5)), (q(0.9, 0.8), q(0.4, 0.3)), (q(0.7, 0.1), q(0.3, 0.6))] {
        let l = Line2::from_points(&a, &b);
        let middle = q((a.x() + b.x()) / 2.0, (a.y() + b.y()) / 2.0);
        for m in [a, b, middle] {
            assert_eq!(locate_point_2_line_2(&m, &l), Point2Line2Location::On, "{:?} {:?}", m, l);
        }
    }
}
''')

bug('vertex-tolerance-fixed', 'P05', 'single precision vertices whose ends differ by rounding',
    'vertices are equal within the tolerance of double precision in both scalar types',
    [(K + 'vertex_2.rs', '''        let eps = T::default_eps();
''', '''        let eps = T::from_f64(1e-10);
''')],
    r'''
fn main() {
    let a = Vertex2::<f32>::new(0.1 + 0.2, 0.5);
    let b = Vertex2::<f32>::new(0.3 + 2e-7, 0.5);
    assert!(a.to_point() == b.to_point());
    assert!(a == b && a.equals(&b), "points are equal, the vertices there are not");
    let c = Vertex2::<f32>::new(0.3 + 1e-4, 0.5);
    assert!(a != c);
}
''')

bug('list-length-narrow', 'P37', 'a list of more nodes than sixteen bits count',
    'the length of a list starts again from nothing beyond 65535 nodes',
    [('src/data_structure/circular_doubly_linked_list.rs', '''        self.length
    }''', '''        self.length as u16 as usize
    }''')],
    r'''
#![allow(dead_code)]
#[path = "REPO_DIR/src/data_structure/circular_doubly_linked_list.rs"]
mod list;
fn main() {
    let mut l = list::CircularDoubleLinkedList::new();
    let mut at = None;
    for i in 0..70_000u32 {
        at = Some(l.insert(at, i));
        assert_eq!(l.len(), i as usize + 1);
    }
}
''', prelude=False)

bug('hull-thinned', 'P29', 'more than 65536 points',
    'of a huge cloud the lower side of the hull sees every second point only',
    [('src/algorithm/convex_hull/convex_hull_2.rs', '''        for p in self.points.iter() {
''', '''        for p in self.points.iter().step_by(1 + self.points.len() / (1 << 16)) {
''')],
    r'''
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
fn main() {
    // Two corners below many points in a row, wherever they come in the order.
    for (a, b) in [(0, 70_000), (1, 70_001), (34_000, 69_999), (34_001, 70_001), (1, 2)] {
        let mut v: Vec<P> = (0..70_002).map(|i| p(i as f64, 5.0)).collect();
        v[a] = p(a as f64, 0.0);
        v[b] = p(b as f64, 0.0);
        let corners = ConvexHull2::new(v.clone()).convex_hull();
        for at in [a, b] {
            assert!(corners.contains(&v[at]), "{} of {:?}", at, corners.len());
        }
    }
}
''')

bug('point-print-rounded', 'P04', 'a printed point whose coordinates need more than six decimals',
    'a point is printed with six decimals only',
    [(K + 'point_2.rs', '''impl<T: NumberType> Display for Point2<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Point2 ({}, {})", self.x, self.y)
''', '''impl<T: NumberType> Display for Point2<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Point2 ({:.6}, {:.6})", self.x, self.y)
''')],
    r'''
fn main() {
    let q = p(0.123456789, -2.5);
    let text = q.to_string();
    assert!(text.contains("0.123456789") && text.contains("-2.5"), "{}", text);
}
''')
