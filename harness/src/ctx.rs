//! What a case sees: the counters its monitors fill in, and the guard around
//! every call into the library.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::rng::Rng;

/// Err holds what was observed to contradict the property.
pub type R = Result<(), String>;

pub struct Ctx {
    pub evaluations: u64,
    pub skipped: u64,
    pub calls: BTreeMap<&'static str, u64>,
    pub buckets: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub distinct_cap_hit: bool,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    /// Set while one case is replayed, to describe it.
    pub verbose: bool,
}

const DISTINCT_CAP: usize = 400_000;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("'{}' at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            evaluations: 0,
            skipped: 0,
            calls: BTreeMap::new(),
            buckets: BTreeMap::new(),
            distinct: HashSet::new(),
            distinct_cap_hit: false,
            samples: Vec::new(),
            notes: BTreeMap::new(),
            verbose: false,
        }
    }

    /// Run the library; a panic inside is reported to the caller.
    pub fn try_call<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> Result<T, String> {
        *self.calls.entry(name).or_insert(0) += 1;
        IN_LIB.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_LIB.with(|c| c.set(false));
        r.map_err(|_| last_panic())
    }

    /// Run the library; a panic inside violates the property.
    pub fn call<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> Result<T, String> {
        self.try_call(name, f)
            .map_err(|p| format!("{} panicked: {}", name, p))
    }

    /// One judged evaluation that ended in the given class.
    pub fn judged(&mut self, bucket: &str) {
        self.evaluations += 1;
        self.bucket(bucket);
    }

    pub fn bucket(&mut self, bucket: &str) {
        if let Some(n) = self.buckets.get_mut(bucket) {
            *n += 1;
        } else {
            self.buckets.insert(bucket.to_string(), 1);
        }
    }

    pub fn note(&mut self, key: &str, n: u64) {
        *self.notes.entry(key.to_string()).or_insert(0) += n;
    }

    pub fn note_max(&mut self, key: &str, n: u64) {
        let e = self.notes.entry(format!("max {}", key)).or_insert(0);
        *e = (*e).max(n);
    }

    pub fn nontrivial(&mut self, hash: u64) {
        if self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(hash);
        } else {
            self.distinct_cap_hit = true;
        }
    }

    pub fn skip(&mut self, why: &str) {
        self.skipped += 1;
        self.bucket(&format!("skipped: {}", why));
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 || self.verbose {
            let mut s = f();
            if s.len() > 600 && !self.verbose {
                s.truncate(s.char_indices().take(600).last().map(|(i, _)| i).unwrap_or(0));
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

pub struct Hasher(pub u64);

impl Hasher {
    pub fn new(tag: u64) -> Hasher {
        Hasher(tag.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567)
    }
    pub fn add(&mut self, v: u64) -> &mut Hasher {
        self.0 = crate::rng::mix(self.0.rotate_left(7) ^ v.wrapping_add(0x9E3779B97F4A7C15));
        self
    }
}

pub struct Stage {
    pub name: &'static str,
    /// Cases of this stage in one round; quick runs one round.
    pub cases: u64,
    pub run: fn(&mut Ctx, &mut Rng) -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub stages: Vec<Stage>,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// Classes the workload must have reached, or the run proves nothing.
    pub required: Vec<&'static str>,
    /// Whether printing anything violates this property.
    pub silent: bool,
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err(format!($($arg)+));
        }
    };
}
