//! P41: the WebAssembly build, run under node by wasm/driver.mjs, against the
//! native build of the same tree.
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

use harness::ctx::{Ctx, Hasher, Prop, Stage, R};
use harness::ensure;
use harness::rng::{hash_str, Rng};
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::vector_2::Vector2;

#[global_allocator]
static ALLOCATOR: harness::alloc::Counting = harness::alloc::Counting;

type Pt = Point2<f64>;

// ----------------------------------------------------------------- the other side

struct Node {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Node {
    fn start() -> Node {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let mut child = Command::new("node")
            .arg(format!("{}/wasm/driver.mjs", dir))
            .arg(format!("{}/target/wasm/wasm32-unknown-unknown/release/rcgal.wasm", dir))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("node");
        let to = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, from) = channel();
        std::thread::spawn(move || {
            for line in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(line).is_err() {
                    return;
                }
            }
        });
        Node { child, to, from }
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

/// The answer to one question; Err when there is none.
fn ask(question: &str) -> Result<String, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(Node::start);
        let sent = writeln!(node.to, "{}", question).and_then(|_| node.to.flush());
        let answer = sent
            .map_err(|e| e.to_string())
            .and_then(|_| node.from.recv_timeout(Duration::from_secs(60)).map_err(|e| e.to_string()));
        if answer.is_err() {
            *n = None;
        }
        answer
    })
}

// ------------------------------------------------------------------ questions and answers

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tok {
    I(i64),
    F(f64),
}

#[derive(Default)]
struct Out(Vec<Tok>);

impl Out {
    fn f(&mut self, v: f64) {
        self.0.push(Tok::F(v));
    }
    fn i(&mut self, v: i64) {
        self.0.push(Tok::I(v));
    }
    fn b(&mut self, v: bool) {
        self.i(v as i64);
    }
    fn p(&mut self, q: &Pt) {
        self.f(q.x());
        self.f(q.y());
    }
    fn v(&mut self, q: &Vector2<f64>) {
        self.f(q.x());
        self.f(q.y());
    }
    fn ps(&mut self, v: &[Pt]) {
        self.i(v.len() as i64);
        v.iter().for_each(|q| self.p(q));
    }
    fn ls(&mut self, v: &[LineSegment2<f64>]) {
        self.i(v.len() as i64);
        v.iter().for_each(|s| self.line(s));
    }
    fn line(&mut self, s: &LineSegment2<f64>) {
        self.i(s.segment_type() as i64);
        self.p(&s.source());
        self.p(&s.target());
    }
    fn circle(&mut self, s: &CircleSegment2<f64>) {
        self.i(s.segment_type() as i64);
        self.p(&s.center());
        self.f(s.radius());
    }
    fn arc(&mut self, s: &ArcSegment2<f64>) {
        self.i(s.segment_type() as i64);
        self.p(&s.source());
        self.f(s.source_radian());
        self.p(&s.target());
        self.f(s.target_radian());
        self.p(&s.center());
        self.f(s.radius());
    }
}

fn parse(answer: &str) -> Option<Vec<Tok>> {
    answer
        .split(' ')
        .filter(|w| !w.is_empty())
        .map(|w| match w.strip_prefix('i') {
            Some(d) => d.parse().ok().map(Tok::I),
            None => u64::from_str_radix(w, 16).ok().filter(|_| w.len() == 16).map(|b| Tok::F(f64::from_bits(b))),
        })
        .collect()
}

/// The elementary functions of the two builds may round differently.
fn agree(a: Tok, b: Tok) -> bool {
    match (a, b) {
        (Tok::I(a), Tok::I(b)) => a == b,
        (Tok::F(a), Tok::F(b)) => a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + a.abs()),
        _ => false,
    }
}

#[derive(Clone, Copy, Debug)]
enum Any {
    Line(LineSegment2<f64>),
    Circle(CircleSegment2<f64>),
    Arc(ArcSegment2<f64>),
}

macro_rules! with_any {
    ($s:expr, $v:ident, $e:expr) => {
        match $s {
            Any::Line($v) => $e,
            Any::Circle($v) => $e,
            Any::Arc($v) => $e,
        }
    };
}

/// Coordinates: a small grid, where special positions are common, or doubles.
struct Draw<'a> {
    rng: &'a mut Rng,
    grid: i64,
    text: String,
}

impl Draw<'_> {
    fn new(rng: &mut Rng) -> Draw<'_> {
        let grid = *rng.pick(&[0, 2, 4, 9]);
        Draw { rng, grid, text: String::new() }
    }
    fn word(&mut self, w: &str) {
        if !self.text.is_empty() {
            self.text.push(' ');
        }
        self.text.push_str(w);
    }
    fn say(&mut self, v: f64) -> f64 {
        let w = format!("{:016x}", v.to_bits());
        self.word(&w);
        v
    }
    fn number(&mut self) -> f64 {
        let v = if self.grid > 0 { self.rng.range(-self.grid, self.grid) as f64 * 0.5 } else { self.rng.float(-9.0, 9.0) };
        self.say(v)
    }
    fn point(&mut self) -> Pt {
        let x = self.number();
        Point2::new(x, self.number())
    }
    fn line(&mut self) -> LineSegment2<f64> {
        let a = self.point();
        LineSegment2::new(a, self.point())
    }
    fn circle(&mut self) -> CircleSegment2<f64> {
        let c = self.point();
        let r = if self.grid > 0 { self.rng.range(1, 8) as f64 * 0.5 } else { self.rng.float(0.2, 9.0) };
        CircleSegment2::new(c, self.say(r))
    }
    /// Arcs keep off special positions: their ends are rounded differently.
    fn arc(&mut self) -> ArcSegment2<f64> {
        let grid = std::mem::replace(&mut self.grid, 0);
        let c = self.circle();
        let s = self.rng.float(-7.0, 14.0);
        let s = self.say(s);
        let t = self.rng.float(-7.0, 14.0);
        let t = self.say(t);
        self.grid = grid;
        ArcSegment2::new(c, s, t)
    }
    fn any(&mut self) -> Any {
        match self.rng.below(3) {
            0 => {
                self.word("line");
                Any::Line(self.line())
            }
            1 => {
                self.word("circle");
                Any::Circle(self.circle())
            }
            _ => {
                self.word("arc");
                Any::Arc(self.arc())
            }
        }
    }
    fn points(&mut self, max: usize) -> Vec<Pt> {
        let n = self.rng.usize(0, max);
        self.word(&n.to_string());
        (0..n).map(|_| self.point()).collect()
    }
    /// Points around a circle, all of them corners of their hull.
    fn round(&mut self, max: usize) -> Vec<Pt> {
        let n = self.rng.usize(max / 2, max);
        self.word(&n.to_string());
        let c = (self.rng.float(-9.0, 9.0), self.rng.float(-9.0, 9.0));
        (0..n)
            .map(|_| {
                let a = self.rng.float(0.0, 6.3);
                let (x, y) = (c.0 + 50.0 * a.cos(), c.1 + 30.0 * a.sin());
                Point2::new(self.say(x), self.say(y))
            })
            .collect()
    }
    /// Mostly points in order of angle, so that many are simple.
    fn outline(&mut self, max: usize) -> Vec<Pt> {
        let text = self.text.clone();
        if max > 100 {
            // A grid has no room for many different points.
            self.grid = 0;
        }
        let mut v = self.points(max);
        if !self.rng.chance(1, 5) && !v.is_empty() {
            let n = v.len() as f64;
            let c = v.iter().fold((0.0, 0.0), |c, q| (c.0 + q.x() / n, c.1 + q.y() / n));
            let key = |q: &Pt| (q.y() - c.1).atan2(q.x() - c.0);
            v.sort_by(|a, b| key(a).total_cmp(&key(b)));
            if self.rng.chance(1, 2) {
                v.reverse();
            }
        }
        self.text = text;
        self.word(&v.len().to_string());
        for q in &v {
            self.say(q.x());
            self.say(q.y());
        }
        v
    }
}

fn fields(o: &mut Out, s: &Any) {
    let kind = with_any!(s, v, v.segment_type());
    o.i(kind as i64);
    o.b(matches!(s, Any::Line(_)));
    if let Any::Line(v) = s {
        o.line(v);
    }
    o.b(matches!(s, Any::Circle(_)));
    if let Any::Circle(v) = s {
        o.circle(v);
    }
    o.b(matches!(s, Any::Arc(_)));
    if let Any::Arc(v) = s {
        o.arc(v);
    }
}

const OPS: [&str; 12] = [
    "point", "vector", "angle", "line", "circle", "arc", "triangle", "polygon", "earcut", "hull", "pair", "sweep",
];

/// The question in words, and the native answer; None when refused by a panic.
fn question(ctx: &mut Ctx, rng: &mut Rng, op: &'static str, many: usize) -> (String, Option<Vec<Tok>>) {
    let mut d = Draw::new(rng);
    d.word(op);
    let mut o = Out::default();
    let mut refused = false;
    match op {
        "point" => {
            let (p, q, r) = (d.point(), d.point(), d.point());
            o.p(&p);
            o.b(p.equals(&q));
            o.f(p.distance(&q));
            o.i(Point2::turn(&p, &q, &r) as i64);
            o.v(&p.get_vector());
            o.p(&r);
            o.p(&q);
        }
        "vector" => {
            let (u, v) = (d.point().get_vector(), d.point().get_vector());
            o.v(&u);
            o.f(u.length());
            o.f(u.dot(&v));
            o.f(u.cross(&v));
            o.v(&u.normalize());
            o.v(&v);
        }
        "angle" => {
            let (u, v) = (d.point().get_vector(), d.point().get_vector());
            o.f(u.radian_to(&v));
        }
        "line" => {
            let q = d.point();
            let s = d.line();
            o.line(&s);
            o.b(is_point_2_on_line_segment_2(&q, &s));
            o.i(locate_point_2_line_segment_2(&q, &s) as i64);
            let f = point_2_project_line_segment_2(&q, &s);
            o.b(f.is_some());
            if let Some(f) = f {
                o.p(&f);
            }
        }
        "circle" => {
            let q = d.point();
            let s = d.circle();
            o.circle(&s);
            o.b(is_point_2_on_circle_segment_2(&q, &s));
            o.i(locate_point_2_circle_segment_2(&q, &s) as i64);
        }
        "arc" => {
            let text = d.text.clone();
            let mut q = d.point();
            let at = d.text.len();
            let s = d.arc();
            if d.rng.chance(2, 3) {
                // A point of its circle.
                let t = d.rng.float(0.0, 6.28);
                q = Point2::new(s.center().x() + s.radius() * t.cos(), s.center().y() + s.radius() * t.sin());
                let rest = d.text[at..].to_string();
                d.text = text;
                d.say(q.x());
                d.say(q.y());
                d.text.push_str(&rest);
            }
            o.arc(&s);
            o.b(is_point_2_on_arc_segment_2(&q, &s));
            o.i(locate_point_2_arc_segment_2(&q, &s) as i64);
        }
        "triangle" => {
            let q = d.point();
            let (a, b, c) = (d.point(), d.point(), d.point());
            let mut t = Triangle2::new(a, b, c);
            for _ in 0..2 {
                o.p(&t.a());
                o.p(&t.b());
                o.p(&t.c());
                o.ps(&t.vertices());
                o.ls(&t.edges());
                o.i(t.orientation() as i64);
                o.f(t.area());
                o.i(locate_point_2_triangle_2(&q, &t) as i64);
                t.reverse_orientation();
            }
        }
        "polygon" => {
            let q = d.point();
            let g = Polygon2::new(d.outline(12 * many));
            o.ps(&g.vertices());
            o.ls(&g.edges());
            o.f(g.area());
            o.b(g.is_simple());
            o.b(g.is_convex());
            o.i(locate_point_2_polygon_2(&q, &g) as i64);
        }
        "earcut" => {
            let v = d.outline(12 * many);
            match ctx.try_call("earcut_2", || earcut_2(Polygon2::new(v.clone()))) {
                Ok(ts) => {
                    o.i(ts.len() as i64);
                    for t in ts {
                        t.iter().for_each(|i| o.i(*i as i64));
                        // The middle one is set to 77 there.
                        [t[0] as i64, 77, t[2] as i64].iter().for_each(|i| o.i(*i));
                    }
                }
                Err(_) => refused = true,
            }
        }
        "hull" => {
            let mut h = ConvexHull2::new(if many > 1 && d.rng.chance(1, 2) { d.round(20 * many) } else { d.points(20 * many) });
            o.ps(&h.convex_hull());
            o.ps(&h.convex_hull());
        }
        "pair" => {
            let (a, b) = (d.any(), d.any());
            fields(&mut o, &a);
            fields(&mut o, &b);
            for (a, b) in [(a, b), (b, a)] {
                o.b(with_any!(a, u, with_any!(b, v, is_segment_2_segment_2_intersected(&u, &v))));
                o.ps(&with_any!(a, u, with_any!(b, v, segment_2_segment_2_intersection(&u, &v))));
            }
        }
        _ => {
            let n = d.rng.usize(0, 7 * many);
            d.word(&n.to_string());
            let mut s = SweepSegment2Intersection::new();
            for left in (1..=n).rev() {
                with_any!(d.any(), v, s.push_segment(&v));
                if left == 3 {
                    o.ps(&s.intersection());
                }
            }
            o.ps(&s.intersection());
            o.ps(&s.intersection());
        }
    }
    let text = std::mem::take(&mut d.text);
    (text, if refused { None } else { Some(o.0) })
}

/// The question with its numbers written out.
fn words(q: &str) -> String {
    q.split(' ')
        .map(|w| match u64::from_str_radix(w, 16) {
            Ok(b) if w.len() == 16 => format!("{:?}", f64::from_bits(b)),
            _ => w.to_string(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn judge(q: &str, answer: &str, want: &Option<Vec<Tok>>) -> R {
    let Some(want) = want else {
        ensure!(answer.starts_with("trap"), "{}: refused natively, but WebAssembly answers {}", words(q), words(answer));
        return Ok(());
    };
    ensure!(
        !answer.starts_with("trap") && !answer.starts_with("error"),
        "{}: WebAssembly ends in {}, natively it is {:?}",
        words(q),
        answer,
        want
    );
    ensure!(!answer.contains("objects"), "{}: WebAssembly leaves objects behind: {}", words(q), answer);
    let got = parse(answer).ok_or_else(|| format!("{}: WebAssembly answers {}", words(q), answer))?;
    ensure!(
        got.len() == want.len() && got.iter().zip(want).all(|(a, b)| agree(*a, *b)),
        "{}:\nWebAssembly answers {:?}\nnatively it is     {:?}",
        words(q),
        got,
        want
    );
    Ok(())
}

fn answers(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let op = *rng.pick(&OPS);
    answers_of(ctx, rng, op, 1)
}

/// Outlines and sets past the 256 that fit in a byte.
fn answers_many(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (op, many) = *rng.pick(&[("earcut", 40), ("earcut", 40), ("polygon", 40), ("hull", 30), ("sweep", 5)]);
    answers_of(ctx, rng, op, many)
}

fn answers_of(ctx: &mut Ctx, rng: &mut Rng, op: &'static str, many: usize) -> R {
    let (q, want) = question(ctx, rng, op, many);
    let answer = ctx
        .call("driver", || ask(&q))?
        .map_err(|e| format!("{}: WebAssembly does not answer: {}", words(&q), e))?;
    judge(&q, &answer, &want)?;
    ctx.judged(op);
    let size = want.as_ref().map_or(0, |w| w.len());
    if many > 1 && size > 1530 {
        ctx.bucket(&format!("{}: more than 1530 values", op));
    }
    if want.is_none() {
        ctx.bucket("earcut refused");
    }
    if let ("pair" | "sweep", Some(Tok::F(_))) = (op, want.as_ref().and_then(|w| w.last())) {
        ctx.bucket(&format!("{} with common points", op));
    }
    let mut h = Hasher::new(90);
    h.add(hash_str(&q));
    ctx.nontrivial(h.0);
    ctx.sample(|| words(&q));
    Ok(())
}

fn memory(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let op = *rng.pick(&OPS);
    let (q, want) = question(ctx, rng, op, 1);
    if want.is_none() {
        // A refusal ends the instance, and its memory with it.
        ctx.skip("refused before its memory was watched");
        return Ok(());
    }
    let answer = ctx
        .call("driver", || ask(&format!("again 3000 {}", q)))?
        .map_err(|e| format!("{}: WebAssembly does not answer: {}", words(&q), e))?;
    let (answer, grown) = answer.rsplit_once(" g").unwrap_or((&answer, "0"));
    judge(&q, answer.trim_end(), &want)?;
    ensure!(grown == "0", "{}: asked 3000 times, the WebAssembly memory grows by {} bytes", words(&q), grown);
    ctx.judged("asked 3000 times");
    Ok(())
}

fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P41",
        stages: vec![
            Stage { name: "answers", cases: 60_000, run: answers },
            Stage { name: "many", cases: 600, run: answers_many },
            Stage { name: "memory", cases: 240, run: memory },
        ],
        rule: "questions over the whole WebAssembly interface, on grids and on random doubles, also of hundreds of points, asked of the WebAssembly build under node and of the native build; answers agree (numbers within 1e-9), refusals trap, every object made is freed once, and 3000 repetitions do not grow the memory; counted by question",
        assumptions: vec![
            "The glue between objects and pointers is wasm/driver.mjs, not what wasm-bindgen would generate.",
            "Arcs are drawn off special positions, where the builds may round to different sides.",
        ],
        required: vec![
            "point", "vector", "angle", "line", "circle", "arc", "triangle", "polygon", "earcut", "hull", "pair", "sweep",
            "earcut refused", "pair with common points", "sweep with common points", "asked 3000 times", "earcut: more than 1530 values",
        ],
        silent: false,
    }]
}

fn main() {
    harness::sup::main(props)
}
