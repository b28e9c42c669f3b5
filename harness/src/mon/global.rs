//! Monitors of what holds for the interface as a whole: total on finite input,
//! pure, and without residue.
use crate::jobs::*;
use crate::num::*;
use harness::ctx::{Ctx, Hasher, Prop, Stage, R};
use harness::ensure;
use harness::rng::{hash_str, Rng};

type Pt = (f64, f64);

/// Coordinates made to hurt: equal, nearly equal, collinear, tiny, huge, mixed.
struct Hostile {
    kind: u64,
    scale: f64,
    jitter: f64,
    base: Pt,
    dir: Pt,
    seen: Vec<Pt>,
}

const KINDS: [&str; 9] =
    ["grid", "jittered grid", "collinear", "jittered collinear", "tiny", "huge", "mixed magnitudes", "clusters", "far from the origin"];

impl Hostile {
    fn new(rng: &mut Rng, f32s: bool) -> Hostile {
        let top = if f32s { 15.0 } else { 150.0 };
        let kind = rng.below(KINDS.len() as u64);
        let scale = match kind {
            4 => 10f64.powf(rng.float(-top, -3.0)),
            5 => 10f64.powf(rng.float(3.0, top)),
            8 => 10f64.powf(rng.float(3.0, if f32s { 6.0 } else { 12.0 })),
            _ => 1.0,
        };
        Hostile {
            kind,
            scale,
            jitter: 10f64.powf(rng.float(-16.0, -4.0)),
            base: (rng.float(-10.0, 10.0), rng.float(-10.0, 10.0)),
            dir: (rng.range(-5, 5) as f64, rng.range(-5, 5) as f64),
            seen: Vec::new(),
        }
    }
    fn get(&mut self, rng: &mut Rng) -> Pt {
        if !self.seen.is_empty() && rng.chance(1, 8) {
            let q = *rng.pick(&self.seen);
            return if rng.chance(1, 2) { q } else { (q.0 + rng.float(-1.0, 1.0) * self.jitter, q.1) };
        }
        let g = |rng: &mut Rng| rng.range(-6, 6) as f64;
        let j = |rng: &mut Rng, s: &Hostile| if rng.chance(1, 2) { rng.float(-1.0, 1.0) * s.jitter } else { 0.0 };
        let q = match self.kind {
            0 => (g(rng), g(rng)),
            1 => (g(rng) + j(rng, self), g(rng) + j(rng, self)),
            2 | 3 => {
                let t = rng.range(-8, 8) as f64 / 2.0;
                let (x, y) = (self.base.0 + t * self.dir.0, self.base.1 + t * self.dir.1);
                if self.kind == 2 { (x, y) } else { (x + j(rng, self), y + j(rng, self)) }
            }
            4 | 5 => {
                if rng.chance(1, 2) {
                    (g(rng) * self.scale, g(rng) * self.scale)
                } else {
                    (rng.float(-1.0, 1.0) * self.scale, rng.float(-1.0, 1.0) * self.scale)
                }
            }
            6 => {
                let m = |rng: &mut Rng| match rng.below(8) {
                    0 => 0.0,
                    1 => -0.0,
                    2 => f64::MIN_POSITIVE,
                    3 => f32::MIN_POSITIVE as f64,
                    4 => 10f64.powi(rng.range(-15, 15) as i32),
                    5 => -(10f64.powi(rng.range(-15, 15) as i32)),
                    6 => rng.float(-1e6, 1e6),
                    _ => g(rng),
                };
                (m(rng), m(rng))
            }
            7 => {
                let c = rng.range(0, 2) as f64;
                (c + rng.float(-3.0, 3.0) * self.jitter, -c + rng.float(-3.0, 3.0) * self.jitter)
            }
            _ => (self.scale + g(rng) / 4.0, -self.scale + g(rng) / 4.0),
        };
        self.seen.push(q);
        q
    }
}

/// Coordinates as users have them.
struct Ordinary {
    grid: bool,
    size: f64,
}

impl Ordinary {
    fn new(rng: &mut Rng) -> Ordinary {
        Ordinary { grid: rng.chance(1, 2), size: *rng.pick(&[4.0, 20.0, 500.0]) }
    }
    fn get(&mut self, rng: &mut Rng) -> Pt {
        if self.grid {
            let r = (self.size as i64).min(30);
            (rng.range(-r, r) as f64, rng.range(-r, r) as f64)
        } else {
            (rng.float(-self.size, self.size), rng.float(-self.size, self.size))
        }
    }
}

fn ordinary_job(rng: &mut Rng, max: usize) -> Job {
    if rng.chance(1, 3) {
        // Rare answers come from degenerate arguments.
        let f32s = rng.chance(1, 4);
        let mut h = Hostile::new(rng, f32s);
        return if f32s {
            job::<f32>(rng, &mut |r| h.get(r), max)
        } else {
            job::<f64>(rng, &mut |r| h.get(r), max)
        };
    }
    let mut o = Ordinary::new(rng);
    if rng.chance(1, 4) {
        job::<f32>(rng, &mut |r| o.get(r), max)
    } else {
        job::<f64>(rng, &mut |r| o.get(r), max)
    }
}

// ------------------------------------------------------------------ totality

fn total<F: Num + Send + Sync>(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let mut h = Hostile::new(rng, F::NAME == "f32");
    let max = *rng.pick(&[4, 8, 16]);
    let j = job::<F>(rng, &mut |r| h.get(r), max);
    if ctx.verbose {
        eprintln!("{}", j.desc);
    }
    ctx.call(j.name, || (j.run)()).map_err(|e| format!("{}: {}", j.desc, e))?;
    ctx.judged(KINDS[h.kind as usize]);
    ctx.bucket(j.name);
    ctx.note_max("objects in one call", j.size as u64);
    ctx.nontrivial(hash_str(&j.desc));
    ctx.sample(|| j.desc.clone());
    Ok(())
}

fn total_f64(ctx: &mut Ctx, rng: &mut Rng) -> R {
    total::<f64>(ctx, rng)
}

fn total_f32(ctx: &mut Ctx, rng: &mut Rng) -> R {
    total::<f32>(ctx, rng)
}

/// Many objects at once, where sorting and rebalancing have room to go wrong.
fn total_many(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let mut h = Hostile::new(rng, false);
    let name = *rng.pick(&["polygon", "hull", "earcut", "sweep", "sweep"]);
    let j = job_of::<f64>(name, rng, &mut |r| h.get(r), 60);
    if ctx.verbose {
        eprintln!("{}", j.desc);
    }
    ctx.call(j.name, || (j.run)()).map_err(|e| format!("{}: {}", j.desc, e))?;
    ctx.judged(KINDS[h.kind as usize]);
    ctx.bucket(&format!("many: {}", j.name));
    ctx.note_max("objects in one call", j.size as u64);
    ctx.nontrivial(hash_str(&j.desc));
    ctx.sample(|| j.desc.clone());
    Ok(())
}

// -------------------------------------------------------------------- purity

/// One question about arguments that differ in one or two coordinates: what was
/// remembered of one must not pass for another.
fn alike(rng: &mut Rng, n: usize) -> Vec<Job> {
    let name = *rng.pick(&NAMES);
    let seed = rng.next();
    let max = rng.usize(4, 12);
    let mut o = Ordinary { grid: rng.chance(3, 4), size: *rng.pick(&[2.0, 4.0, 20.0]) };
    let base: Vec<Pt> = (0..64).map(|_| o.get(rng)).collect();
    (0..n)
        .map(|_| {
            let mut given = base.clone();
            for _ in 0..rng.usize(0, 2) {
                let (a, b) = (rng.usize(0, max + 3), rng.usize(0, max + 3));
                if rng.chance(1, 2) { given.swap(a, b) } else { given[a] = o.get(rng) }
            }
            let mut next = given.iter().cycle();
            job_of::<f64>(name, &mut Rng::new(seed, "alike", name, 0), &mut |_| *next.next().unwrap(), max)
        })
        .collect()
}

fn pure(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(6, 24);
    let jobs: Vec<Job> = if rng.chance(1, 3) {
        alike(rng, n)
    } else {
        (0..n).map(|_| ordinary_job(rng, 12)).collect()
    };
    let mut first = Vec::new();
    for j in &jobs {
        first.push(ctx.call(j.name, || (j.run)()).map_err(|e| format!("{}: {}", j.desc, e))?);
    }
    let differs = |j: usize, when: &str, got: &Bits| {
        format!("{}: answered {:x?}, but {} {:x?}", jobs[j].desc, first[j], when, got)
    };
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    for &j in &order {
        let again = ctx.call(jobs[j].name, || (jobs[j].run)())?;
        ensure!(again == first[j], "{}", differs(j, "after other questions", &again));
        ctx.judged("asked again in another order");
    }
    let threads = 4;
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            rng.shuffle(&mut order);
            order.clone()
        })
        .collect();
    let results: Vec<Vec<(usize, Option<Bits>)>> = ctx.call("4 threads", || {
        let barrier = std::sync::Barrier::new(threads);
        std::thread::scope(|scope| {
            let handles: Vec<_> = orders
                .iter()
                .map(|order| {
                    let (jobs, barrier) = (&jobs, &barrier);
                    scope.spawn(move || {
                        barrier.wait();
                        order
                            .iter()
                            .map(|&j| {
                                let run = jobs[j].run.clone();
                                (j, std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || run())).ok())
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        })
    })?;
    for list in results {
        for (j, got) in list {
            match got {
                Some(got) => ensure!(got == first[j], "{}", differs(j, "in parallel with others", &got)),
                None => return Err(format!("{}: panicked in parallel with others", jobs[j].desc)),
            }
            ctx.judged("asked from four threads at once");
        }
    }
    let mut h = Hasher::new(80);
    for j in &jobs {
        h.add(hash_str(&j.desc));
        ctx.bucket(j.name);
    }
    ctx.nontrivial(h.0);
    ctx.sample(|| jobs.iter().map(|j| j.desc.clone()).collect::<Vec<_>>().join("; "));
    Ok(())
}

/// The checks of the other properties, whose arguments reach the rare branches.
fn others() -> &'static [Prop] {
    static ALL: std::sync::OnceLock<Vec<Prop>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = crate::props();
        v.retain(|p| !matches!(p.id, "P38" | "P39"));
        v
    })
}

/// Runs one case of another property and tells what it saw of the library.
fn other_case(which: (usize, usize), state: u64) -> (String, u64) {
    let prop = &others()[which.0];
    let stage = &prop.stages[which.1];
    let mut inner = Ctx::new();
    let mut rng = Rng::new(state, prop.id, stage.name, 0);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (stage.run)(&mut inner, &mut rng)));
    let calls: u64 = inner.calls.values().sum();
    // Whether the verdict is good is for that property to say.
    let verdict = match r {
        Ok(r) => format!("{:?}", r),
        Err(_) => harness::ctx::last_panic(),
    };
    let seen = format!(
        "{}; {} judged, {} not; {:?} {:?} {:?}",
        verdict, inner.evaluations, inner.skipped, inner.buckets, inner.notes, inner.samples
    );
    (seen, calls)
}

fn other(rng: &mut Rng) -> (usize, usize) {
    loop {
        let p = rng.usize(0, others().len() - 1);
        let s = rng.usize(0, others()[p].stages.len() - 1);
        // The slow ones, of which there are few, seldom.
        if others()[p].stages[s].cases >= 10 || rng.chance(1, 20) {
            return (p, s);
        }
    }
}

/// What the other checks see must not depend on when or where they run. What
/// the library prints meanwhile is watched by the supervisor.
fn pure_others(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let which = other(rng);
    let state = rng.next();
    let name = format!("{} {} with seed {}", others()[which.0].id, others()[which.0].stages[which.1].name, state);
    let (first, calls) = ctx.call("cases of other properties", || other_case(which, state))?;
    let unrelated = other(rng);
    let unrelated_state = rng.next();
    ctx.call("cases of other properties", || other_case(unrelated, unrelated_state))?;
    let (again, _) = ctx.call("cases of other properties", || {
        std::thread::scope(|s| s.spawn(|| other_case(which, state)).join().unwrap())
    })?;
    ensure!(
        first == again,
        "a case of {} saw\n{}\nand then, in another thread,\n{}", name, first, again
    );
    ctx.note("library calls within", calls);
    ctx.judged("a case of another property, twice");
    ctx.nontrivial(hash_str(&first) ^ state);
    ctx.sample(|| name);
    Ok(())
}

// -------------------------------------------------------------------- memory

/// The cases of the other properties keep no memory either.
fn residue_others(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let which = other(rng);
    let state = rng.next();
    let name = format!("{} {} with seed {}", others()[which.0].id, others()[which.0].stages[which.1].name, state);
    let calls = ctx.call("cases of other properties", || {
        other_case(which, state);
        other_case(which, state).1
    })?;
    let before = harness::alloc::live();
    drop(other_case(which, state));
    let after = harness::alloc::live();
    ensure!(
        before == after,
        "a case of {} keeps {} bytes in {} blocks", name, after.0 - before.0, after.1 - before.1
    );
    ctx.note("library calls within", calls);
    ctx.judged("a case of another property");
    ctx.nontrivial(hash_str(&name));
    ctx.sample(|| name);
    Ok(())
}

fn residue(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let j = ordinary_job(rng, 20);
    // The first time may fill what is kept for good.
    ctx.call(j.name, || drop((j.run)()))?;
    let total = harness::alloc::allocations();
    let before = harness::alloc::live();
    for _ in 0..3 {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop((j.run)())));
    }
    let after = harness::alloc::live();
    ensure!(
        before == after,
        "{}: each call keeps memory: {} bytes in {} blocks after three calls",
        j.desc, after.0 - before.0, after.1 - before.1
    );
    ctx.note("blocks allocated and freed", harness::alloc::allocations() - total);
    ctx.judged(j.name);
    ctx.nontrivial(hash_str(&j.desc));
    ctx.sample(|| j.desc.clone());
    Ok(())
}

/// A polygon that is rejected leaves nothing behind either.
fn residue_rejected(ctx: &mut Ctx, rng: &mut Rng) -> R {
    use rcgal::algorithm::triangulation::earcut_2::earcut_2;
    use rcgal::kernel::polygon_2::Polygon2;
    let mut o = Ordinary::new(rng);
    let n = rng.usize(4, 20);
    let v: Vec<Pt> = (0..n).map(|_| o.get(rng)).collect();
    let once = || {
        let polygon = Polygon2::new(v.iter().map(|q| pt::<f64>(*q)).collect());
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(earcut_2(polygon)))).is_err()
    };
    let rejected = ctx.call("earcut_2", || {
        once();
        once()
    })?;
    let before = harness::alloc::live();
    for _ in 0..3 {
        once();
    }
    let after = harness::alloc::live();
    ensure!(
        before == after,
        "triangulating {}{}: keeps {} bytes in {} blocks after three calls",
        show_xy(&v), if rejected { ", which is rejected" } else { "" }, after.0 - before.0, after.1 - before.1
    );
    ctx.judged(if rejected { "rejected polygon" } else { "accepted polygon" });
    let mut h = Hasher::new(81);
    for q in &v {
        h.add(q.0.to_bits()).add(q.1.to_bits());
    }
    ctx.nontrivial(h.0);
    Ok(())
}

/// Asking one sweep again and again holds no more than asking it twice.
fn residue_sweep(ctx: &mut Ctx, rng: &mut Rng) -> R {
    use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
    use rcgal::kernel::circle_segment_2::CircleSegment2;
    use rcgal::kernel::line_segment_2::LineSegment2;
    let mut o = Ordinary::new(rng);
    let n = rng.usize(1, 20);
    let v: Vec<(Pt, Pt, bool)> = (0..n).map(|_| (o.get(rng), o.get(rng), rng.chance(1, 4))).collect();
    let once = |held: &mut Vec<(i64, i64)>| {
        let mut sweep = SweepSegment2Intersection::<f64>::new();
        for (a, b, round) in &v {
            if *round {
                sweep.push_segment(&CircleSegment2::new(pt(*a), b.0.abs() + 1.0));
            } else {
                sweep.push_segment(&LineSegment2::new(pt(*a), pt(*b)));
            }
        }
        held.clear();
        for _ in 0..6 {
            drop(sweep.intersection());
            held.push(harness::alloc::live());
        }
    };
    let mut held = Vec::with_capacity(8);
    ctx.call("intersection", || once(&mut held))?;
    let before = harness::alloc::live();
    once(&mut held);
    let after = harness::alloc::live();
    ensure!(
        held[1] == held[5],
        "a sweep of {:?} holds {:?} (bytes, blocks) after one, two, ... questions", v, held
    );
    ensure!(
        before == after,
        "a dropped sweep of {:?} keeps {} bytes in {} blocks", v, after.0 - before.0, after.1 - before.1
    );
    ctx.judged("one sweep asked six times");
    let mut h = Hasher::new(82);
    h.add(hash_str(&format!("{:?}", v)));
    ctx.nontrivial(h.0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P38",
            stages: vec![
                Stage { name: "calls", cases: 60_000, run: residue },
                Stage { name: "rejected", cases: 10_000, run: residue_rejected },
                Stage { name: "sweeps", cases: 3_000, run: residue_sweep },
                Stage { name: "others", cases: 50_000, run: residue_others },
            ],
            rule: "calls drawn from the whole interface are made once to warm up and three times more under a counting allocator; also triangulations that end in a panic, one sweep asked six times and dropped, and cases drawn from the checks of all other properties; counted by arguments",
            assumptions: vec!["Memory is counted at the global allocator; the counts of the calling thread alone are compared."],
            required: vec!["hull", "earcut", "sweep", "polygon", "pair", "arc", "rejected polygon", "accepted polygon", "one sweep asked six times", "a case of another property"],
            silent: false,
        },
        Prop {
            id: "P39",
            stages: vec![
                Stage { name: "jobs", cases: 6_000, run: pure },
                Stage { name: "others", cases: 100_000, run: pure_others },
            ],
            rule: "6 to 24 calls drawn from the whole interface, or of one kind with arguments that resemble each other, asked in order, in another order, and from four threads at once in four orders; every bit of the answers is compared; cases drawn from the checks of all other properties, repeated in another thread after an unrelated one, whose verdicts and counters have to agree; nothing may appear on standard output or standard error during a case; counted by the set of calls",
            assumptions: vec!["The interleavings of the threads are those the scheduler happens to produce."],
            required: vec!["point", "vector", "line", "ray", "segment", "triangle", "polygon", "hull", "earcut", "circle", "arc", "crossing", "pair", "sweep", "asked from four threads at once", "a case of another property, twice"],
            silent: true,
        },
        Prop {
            id: "P40",
            stages: vec![
                Stage { name: "f64", cases: 200_000, run: total_f64 },
                Stage { name: "f32", cases: 100_000, run: total_f32 },
                Stage { name: "many", cases: 4_000, run: total_many },
            ],
            rule: "calls drawn from the whole interface on grids, jittered grids, collinear and clustered points, tiny, huge and mixed magnitudes; each has to return without a panic within 20 s of CPU time and 3 GB; triangulation is asked only for what is_simple accepts; counted by arguments",
            assumptions: vec!["Magnitudes stay below 1e150 (1e15 for f32), radians below 1e300 (1e36 for f32), radii are not negative."],
            required: vec!["point", "vector", "line", "ray", "segment", "triangle", "polygon", "hull", "earcut", "circle", "arc", "crossing", "pair", "sweep", "many: sweep", "many: earcut", "many: hull"],
            silent: false,
        },
    ]
}
