//! Runs the cases of a property in worker processes, watches those for crashes,
//! hangs and runaway memory, and writes the evidence and replay files.
//!
//! Exit codes of a check: 0 held, 1 violation, 3 the check itself failed.
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, BorrowedFd, FromRawFd};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::ctx::{install_panic_hook, last_panic, Ctx, Prop, R};
use crate::json::{esc, field};
use crate::rng::Rng;

/// CPU seconds one case may use (cases take milliseconds).
const CASE_CPU_S: u64 = 20;
const CASE_RSS_MB: u64 = 3000;
const HANG: i32 = 70;
const MEMORY: i32 = 71;

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name)
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(default)
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn main(props: fn() -> Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props() {
                println!("{}", p.id);
            }
            0
        }
        Some("check") => check(&find(props, &args[2])),
        Some("worker") => worker(
            find(props, &args[2]),
            args[3].parse().unwrap(),
            args[4].parse().unwrap(),
            args[5].parse().unwrap(),
            args[6].parse().unwrap(),
            args[7].parse().unwrap(),
            Path::new(&args[8]),
        ),
        Some("one") => one(
            find(props, &args[2]),
            &args[3],
            args[4].parse().unwrap(),
            args[5].parse().unwrap(),
        ),
        Some("replay") => {
            let text = fs::read_to_string(&args[2]).expect("replay file");
            let prop = field(&text, "property").expect("property");
            let stage = field(&text, "stage").expect("stage");
            let index = field(&text, "index").and_then(|v| v.parse().ok()).unwrap();
            let seed = field(&text, "seed").and_then(|v| v.parse().ok()).unwrap();
            one(find(props, &prop), &stage, index, seed)
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}

/// Rounds of the quick tier: a few seconds for each property.
fn quick_rounds(id: &str) -> u64 {
    match id {
        "P38" | "P39" | "P40" | "P41" => 1,
        "P24" | "P25" | "P32" | "P33" | "P34" | "P44" | "P45" => 8,
        "P35" => 4,
        "P13" | "P21" | "P30" | "P36" | "P43" => 16,
        _ => 30,
    }
}

fn find(props: fn() -> Vec<Prop>, id: &str) -> Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {} here", id);
            std::process::exit(3)
        }
    }
}

static SEQ: AtomicU64 = AtomicU64::new(0);

fn cpu_ticks() -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/self/task/{}/stat", std::process::id())).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn rss_mb() -> u64 {
    fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok()))
        .map(|pages| pages * 4 / 1024)
        .unwrap_or(0)
}

/// Ends the process when one case runs away: the journal names the case.
fn watchdog() {
    std::thread::spawn(|| {
        let mut seq = u64::MAX;
        let mut since = 0;
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = SEQ.load(Ordering::Relaxed);
            let ticks = cpu_ticks().unwrap_or(0);
            if now != seq {
                seq = now;
                since = ticks;
            } else if ticks.saturating_sub(since) > CASE_CPU_S * 100 {
                std::process::exit(HANG);
            }
            if rss_mb() > CASE_RSS_MB {
                std::process::exit(MEMORY);
            }
        }
    });
}

enum Outcome {
    Held,
    Violated(String),
    Broken(String),
}

extern "C" {
    fn dup2(from: i32, to: i32) -> i32;
}

/// Bytes written so far to standard output and standard error, both of which
/// are files while a property about printing is checked.
fn written() -> u64 {
    let _ = std::io::stdout().flush();
    [1, 2]
        .into_iter()
        .map(|fd| {
            let f = std::mem::ManuallyDrop::new(unsafe { File::from_raw_fd(fd) });
            f.metadata().map(|m| m.len()).unwrap_or(0)
        })
        .sum()
}

fn run_case(prop: &Prop, si: usize, index: u64, seed: u64, ctx: &mut Ctx) -> Outcome {
    if !prop.silent {
        return run_case_loud(prop, si, index, seed, ctx);
    }
    let before = written();
    let outcome = run_case_loud(prop, si, index, seed, ctx);
    let n = written() - before;
    match outcome {
        Outcome::Held if n > 0 => {
            Outcome::Violated(format!("the library wrote {} bytes to standard output or standard error", n))
        }
        o => o,
    }
}

fn run_case_loud(prop: &Prop, si: usize, index: u64, seed: u64, ctx: &mut Ctx) -> Outcome {
    let stage = &prop.stages[si];
    let mut rng = Rng::new(seed, prop.id, stage.name, index);
    let r: Result<R, _> = catch_unwind(AssertUnwindSafe(|| (stage.run)(ctx, &mut rng)));
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(message)) => Outcome::Violated(message),
        Err(_) => {
            // A panic of the library's own, wherever it was called from, counts against it.
            let panic = last_panic();
            match panic.rsplit_once("' at ") {
                Some((_, place)) if place.starts_with("/repo/") => {
                    Outcome::Violated(format!("the library panicked: {}", panic))
                }
                _ => Outcome::Broken(panic),
            }
        }
    }
}

fn one(prop: Prop, stage: &str, index: u64, seed: u64) -> i32 {
    install_panic_hook();
    watchdog();
    let Some(si) = prop.stages.iter().position(|s| s.name == stage) else {
        eprintln!("no stage {}", stage);
        return 3;
    };
    let mut ctx = Ctx::new();
    ctx.verbose = true;
    let mut shown = None;
    if prop.silent {
        // Put files in the place of the two streams for as long as the case runs.
        let dir = verif_dir().join(format!("target/one-{}", std::process::id()));
        fs::create_dir_all(&dir).expect("scratch directory");
        let real = [1, 2].map(|fd| unsafe { BorrowedFd::borrow_raw(fd) }.try_clone_to_owned().expect("dup"));
        let files = ["out", "err"].map(|n| File::create(dir.join(n)).expect("scratch file"));
        let _ = std::io::stdout().flush();
        for (i, f) in files.iter().enumerate() {
            unsafe { dup2(f.as_raw_fd(), i as i32 + 1) };
        }
        shown = Some((dir, real));
    }
    let outcome = run_case(&prop, si, index, seed, &mut ctx);
    if let Some((dir, real)) = shown {
        for (i, f) in real.iter().enumerate() {
            unsafe { dup2(f.as_raw_fd(), i as i32 + 1) };
        }
        for n in ["out", "err"] {
            let text = fs::read_to_string(dir.join(n)).unwrap_or_default();
            if !text.is_empty() {
                println!("written during the case: {:?}", text);
            }
        }
        let _ = fs::remove_dir_all(&dir);
    }
    match outcome {
        Outcome::Held => {
            println!("held: {} {} #{} seed {}", prop.id, stage, index, seed);
            for s in &ctx.samples {
                println!("  case: {}", s);
            }
            0
        }
        Outcome::Violated(m) => {
            println!("violated: {} {} #{} seed {}\n{}", prop.id, stage, index, seed, m);
            1
        }
        Outcome::Broken(m) => {
            println!("harness error: {}", m);
            3
        }
    }
}

fn flat(s: &str) -> String {
    // What a huge case has to say is cut short; it is run again for the rest.
    let s = match s.char_indices().nth(20_000) {
        Some((at, _)) => &s[..at],
        None => s,
    };
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}

fn unflat(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn worker(prop: Prop, seed: u64, w: u64, workers: u64, rounds: u64, budget_s: u64, dir: &Path) -> i32 {
    install_panic_hook();
    watchdog();
    let start = Instant::now();
    let journal = File::create(dir.join(format!("journal-{}", w))).unwrap();
    // Cases to leave out: they ended this worker before.
    let skip: HashSet<String> = fs::read_to_string(dir.join(format!("skip-{}", w)))
        .unwrap_or_default()
        .lines()
        .map(|l| l.to_string())
        .collect();
    let mut ctx = Ctx::new();
    let mut lines = String::new();
    let mut code = 0;
    let mut cases = 0u64;
    let mut stage_cases = vec![0u64; prop.stages.len()];
    let mut capped = false;
    'outer: for round in 0..rounds {
        for si in 0..prop.stages.len() {
            let n = prop.stages[si].cases;
            for index in round * n..(round + 1) * n {
                if index % workers != w {
                    continue;
                }
                if start.elapsed().as_secs() >= budget_s {
                    capped = true;
                    break 'outer;
                }
                SEQ.fetch_add(1, Ordering::Relaxed);
                let mut rec = [0u8; 16];
                rec[..8].copy_from_slice(&(si as u64).to_le_bytes());
                rec[8..].copy_from_slice(&index.to_le_bytes());
                let _ = journal.write_all_at(&rec, 0);
                if !skip.is_empty() && skip.contains(&format!("{} {}", si, index)) {
                    continue;
                }
                cases += 1;
                stage_cases[si] += 1;
                match run_case(&prop, si, index, seed, &mut ctx) {
                    Outcome::Held => {}
                    Outcome::Violated(m) => {
                        lines.push_str(&format!(
                            "violation\t{}\t{}\t{}\n",
                            prop.stages[si].name,
                            index,
                            flat(&m)
                        ));
                        code = 1;
                        break 'outer;
                    }
                    Outcome::Broken(m) => {
                        lines.push_str(&format!(
                            "broken\t{}\t{}\t{}\n",
                            prop.stages[si].name,
                            index,
                            flat(&m)
                        ));
                        code = 3;
                        break 'outer;
                    }
                }
            }
        }
    }
    lines.push_str(&format!("cases\t{}\n", cases));
    lines.push_str(&format!("evaluations\t{}\n", ctx.evaluations));
    lines.push_str(&format!("skipped\t{}\n", ctx.skipped));
    lines.push_str(&format!("capped\t{}\n", capped as u8));
    lines.push_str(&format!("distinct_cap\t{}\n", ctx.distinct_cap_hit as u8));
    for (i, n) in stage_cases.iter().enumerate() {
        lines.push_str(&format!("stage\t{}\t{}\n", prop.stages[i].name, n));
    }
    for (k, n) in &ctx.calls {
        lines.push_str(&format!("call\t{}\t{}\n", k, n));
    }
    for (k, n) in &ctx.buckets {
        lines.push_str(&format!("bucket\t{}\t{}\n", flat(k), n));
    }
    for (k, n) in &ctx.notes {
        lines.push_str(&format!("note\t{}\t{}\n", flat(k), n));
    }
    for s in &ctx.samples {
        lines.push_str(&format!("sample\t{}\n", flat(s)));
    }
    let mut bytes = Vec::with_capacity(ctx.distinct.len() * 8);
    for h in &ctx.distinct {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    let _ = fs::write(dir.join(format!("hashes-{}", w)), bytes);
    fs::write(dir.join(format!("result-{}", w)), lines).unwrap();
    code
}

struct Violation {
    stage: String,
    index: u64,
    message: String,
}

struct Running {
    w: u64,
    child: Child,
}

fn spawn(prop: &str, seed: u64, w: u64, workers: u64, rounds: u64, budget: u64, dir: &Path) -> Child {
    let out = File::create(dir.join(format!("stdout-{}", w))).unwrap();
    let err = File::create(dir.join(format!("stderr-{}", w))).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop])
        .args([seed, w, workers, rounds, budget].map(|v| v.to_string()))
        .arg(dir)
        .env("MON_STDOUT", dir.join(format!("stdout-{}", w)))
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(err)
        .spawn()
        .expect("spawn worker")
}

fn read_file(p: PathBuf) -> Vec<u8> {
    let mut v = Vec::new();
    if let Ok(mut f) = File::open(p) {
        let _ = f.read_to_end(&mut v);
    }
    v
}

fn check(prop: &Prop) -> i32 {
    let start = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed = env_u64("VERIF_SEED", 1);
    let workers = env_u64("VERIF_WORKERS", 8);
    let rounds = env_u64("VERIF_ROUNDS", if thorough { 1_000_000 } else { quick_rounds(prop.id) });
    let budget = env_u64("VERIF_BUDGET", if thorough { 480 } else { 200 });
    let verif = verif_dir();
    let dir = verif.join(format!("target/run-{}-{}", prop.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("run directory");

    let mut violations: Vec<Violation> = Vec::new();
    let mut broken: Vec<String> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();
    let mut printed = 0u64;
    let mut running: Vec<Running> = (0..workers)
        .map(|w| Running {
            w,
            child: spawn(prop.id, seed, w, workers, rounds, budget, &dir),
        })
        .collect();
    let mut restarts = 0;
    while !running.is_empty() {
        let mut i = 0;
        let mut progressed = false;
        while i < running.len() {
            let status = match running[i].child.try_wait() {
                Ok(Some(s)) => s,
                Ok(None) => {
                    i += 1;
                    continue;
                }
                Err(e) => {
                    broken.push(format!("wait: {}", e));
                    running.remove(i);
                    continue;
                }
            };
            progressed = true;
            let w = running.remove(i).w;
            let result = dir.join(format!("result-{}", w));
            let has_result = result.exists();
            if has_result && matches!(status.code(), Some(0) | Some(1) | Some(3)) {
                continue;
            }
            // The worker died in the case its journal names: run that case alone.
            let rec = read_file(dir.join(format!("journal-{}", w)));
            if rec.len() < 16 {
                let e = String::from_utf8_lossy(&read_file(dir.join(format!("stderr-{}", w)))).into_owned();
                broken.push(format!("worker {} died before its first case: {:?} {}", w, status, e));
                continue;
            }
            let si = u64::from_le_bytes(rec[..8].try_into().unwrap()) as usize;
            let index = u64::from_le_bytes(rec[8..16].try_into().unwrap());
            let stage = prop.stages[si].name;
            let how = match (status.code(), status.signal()) {
                (Some(HANG), _) => format!("used more than {} s of CPU time and did not return", CASE_CPU_S),
                (Some(MEMORY), _) => format!("held more than {} MB of memory", CASE_RSS_MB),
                (_, Some(s)) => format!("was killed by signal {}", s),
                (c, _) => format!("ended the process with code {:?}", c),
            };
            let again = Command::new(std::env::current_exe().unwrap())
                .args(["one", prop.id, stage, &index.to_string(), &seed.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            let confirmed = match again {
                Ok(s) => !matches!(s.code(), Some(0) | Some(3)),
                Err(_) => false,
            };
            if confirmed {
                violations.push(Violation {
                    stage: stage.into(),
                    index,
                    message: format!("the case {} (twice)", how),
                });
            } else {
                inconclusive.push(format!("{} #{} {}, but not when run alone", stage, index, how));
                restarts += 1;
                if restarts > 20 {
                    broken.push("too many workers died".into());
                } else {
                    let path = dir.join(format!("skip-{}", w));
                    let mut skip = fs::read_to_string(&path).unwrap_or_default();
                    skip.push_str(&format!("{} {}\n", si, index));
                    let _ = fs::write(&path, skip);
                    let left = budget.saturating_sub(start.elapsed().as_secs()).max(5);
                    running.push(Running {
                        w,
                        child: spawn(prop.id, seed, w, workers, rounds, left, &dir),
                    });
                }
            }
        }
        // One violation decides; give the others a moment to add theirs.
        if !violations.is_empty() || !broken.is_empty() || any_result_failed(&dir, workers) {
            let until = Instant::now() + Duration::from_secs(2);
            while Instant::now() < until && running.iter_mut().any(|r| matches!(r.child.try_wait(), Ok(None))) {
                std::thread::sleep(Duration::from_millis(20));
            }
            for r in &mut running {
                let _ = r.child.kill();
                let _ = r.child.wait();
            }
            running.clear();
        } else if !progressed {
            std::thread::sleep(Duration::from_millis(15));
        }
    }

    // Merge.
    let mut cases = 0u64;
    let mut evaluations = 0u64;
    let mut skipped = 0u64;
    let mut capped = 0u64;
    let mut distinct_cap = 0u64;
    let mut stages: BTreeMap<String, u64> = BTreeMap::new();
    let mut calls: BTreeMap<String, u64> = BTreeMap::new();
    let mut buckets: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    for w in 0..workers {
        let text = String::from_utf8_lossy(&read_file(dir.join(format!("result-{}", w)))).into_owned();
        for line in text.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            let num = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
            match f[0] {
                "cases" => cases += num(1),
                "evaluations" => evaluations += num(1),
                "skipped" => skipped += num(1),
                "capped" => capped += num(1),
                "distinct_cap" => distinct_cap += num(1),
                "stage" => *stages.entry(f[1].into()).or_insert(0) += num(2),
                "call" => *calls.entry(f[1].into()).or_insert(0) += num(2),
                "bucket" => *buckets.entry(unflat(f[1])).or_insert(0) += num(2),
                "note" => {
                    let k = unflat(f[1]);
                    let e = notes.entry(k.clone()).or_insert(0);
                    if k.starts_with("max ") {
                        *e = (*e).max(num(2));
                    } else {
                        *e += num(2);
                    }
                }
                "sample" => {
                    if samples.len() < 6 {
                        samples.push(unflat(f[1]))
                    }
                }
                "violation" => violations.push(Violation {
                    stage: f[1].into(),
                    index: num(2),
                    message: unflat(f[3]),
                }),
                "broken" => broken.push(format!("{} #{}: {}", f[1], num(2), unflat(f[3]))),
                _ => {}
            }
        }
        for c in read_file(dir.join(format!("hashes-{}", w))).chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        // The library is a pure computation: a worker prints nothing itself.
        let out = read_file(dir.join(format!("stdout-{}", w)));
        let err = read_file(dir.join(format!("stderr-{}", w)));
        printed += (out.len() + err.len()) as u64;
        let text = |b: &[u8]| String::from_utf8_lossy(b).chars().take(200).collect::<String>();
        if let Some(v) = violations.last_mut().filter(|v| v.message.ends_with("or standard error")) {
            for (name, b) in [("output", &out), ("error", &err)] {
                if !b.is_empty() {
                    v.message.push_str(&format!("; to {}: {:?}", name, text(b)));
                }
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);

    let wall = start.elapsed().as_secs_f64();
    violations.sort_by(|a, b| (&a.stage, a.index).cmp(&(&b.stage, b.index)));
    for b in &prop.required {
        if violations.is_empty() && broken.is_empty() && capped == 0 && !buckets.contains_key(*b) {
            broken.push(format!("the workload never reached the class '{}'", b));
        }
    }

    let obj = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let arr = |v: &[String]| {
        let v: Vec<String> = v.iter().map(|s| esc(s)).collect();
        format!("[{}]", v.join(", "))
    };
    let total_calls: u64 = calls.values().sum();
    let evidence = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evaluations},\n  \"distinct_nontrivial\": {distinct},\n  \"distinct_count_is_a_lower_bound\": {lower},\n  \"rule\": {rule},\n  \"samples\": {samples},\n  \"cases\": {cases},\n  \"cases_by_stage\": {stages},\n  \"library_calls\": {total_calls},\n  \"calls_by_function\": {calls},\n  \"observed_classes\": {buckets},\n  \"measurements\": {notes},\n  \"not_judged\": {skipped},\n  \"bytes_printed_by_the_library\": {printed},\n  \"workers\": {workers},\n  \"workers_stopped_by_the_time_budget\": {capped},\n  \"inconclusive\": {inconclusive},\n  \"errors_of_the_check\": {broken}\n }},\n \"assumptions\": {assumptions},\n \"wall_s\": {wall:.2},\n \"violations\": {nv}\n}}\n",
        id = esc(prop.id),
        tier = esc(if thorough { "thorough" } else { "quick" }),
        seed = seed,
        evaluations = evaluations,
        distinct = hashes.len(),
        lower = distinct_cap > 0,
        rule = esc(prop.rule),
        samples = arr(&samples),
        cases = cases,
        stages = obj(&stages),
        total_calls = total_calls,
        calls = obj(&calls),
        buckets = obj(&buckets),
        notes = obj(&notes),
        skipped = skipped,
        printed = printed,
        workers = workers,
        capped = capped,
        inconclusive = arr(&inconclusive),
        broken = arr(&broken),
        assumptions = arr(&prop.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        wall = wall,
        nv = violations.len(),
    );
    let _ = fs::create_dir_all(verif.join("evidence"));
    fs::write(verif.join(format!("evidence/{}.json", prop.id)), evidence).expect("evidence");

    println!(
        "{} {}: {} cases, {} evaluations ({} distinct non-trivial), {} library calls, {} not judged, {:.1} s",
        prop.id, tier, cases, evaluations, hashes.len(), total_calls, skipped, wall
    );
    for (k, n) in &buckets {
        println!("    {:>10}  {}", n, k);
    }
    for s in &inconclusive {
        println!("    inconclusive: {}", s);
    }
    if !violations.is_empty() {
        let _ = fs::create_dir_all(verif.join("replays"));
        for v in violations.iter().take(3) {
            let path = verif.join(format!("replays/{}-{}-{}-{}.json", prop.id, v.stage, v.index, seed));
            let text = format!(
                "{{\n \"property\": {},\n \"stage\": {},\n \"index\": {},\n \"seed\": {},\n \"message\": {}\n}}\n",
                esc(prop.id), esc(&v.stage), v.index, seed, esc(&v.message)
            );
            if let Ok(mut f) = File::create(&path) {
                let _ = f.write_all(text.as_bytes());
            }
            println!("{} {} #{}: {}", prop.id, v.stage, v.index, v.message);
            println!("VIOLATION property={} replay={}", prop.id, path.display());
        }
        return 1;
    }
    if !broken.is_empty() {
        for b in &broken {
            eprintln!("CHECK ERROR {}: {}", prop.id, b);
        }
        return 3;
    }
    0
}

fn any_result_failed(dir: &Path, workers: u64) -> bool {
    (0..workers).any(|w| {
        let text = String::from_utf8_lossy(&read_file(dir.join(format!("result-{}", w)))).into_owned();
        text.starts_with("violation") || text.starts_with("broken")
    })
}
