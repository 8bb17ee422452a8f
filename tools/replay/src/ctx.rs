use crate::rng::Rng;
use std::any::Any;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Seek, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

pub struct Failure {
    pub key: String,
    pub what: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub rule: String,
    pub failures: Vec<Failure>,
    cur: Option<std::fs::File>,
    curlen: u64,
}

pub fn panic_text(e: Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

impl Ctx {
    pub fn new(seed: u64, budget_ms: u64, cur: Option<&str>) -> Self {
        Ctx {
            rng: Rng::new(seed),
            seed,
            start: Instant::now(),
            budget: Duration::from_millis(budget_ms),
            evals: 0,
            seen: HashSet::new(),
            samples: vec![],
            rule: String::new(),
            failures: vec![],
            cur: cur.map(|p| std::fs::File::create(p).unwrap()),
            curlen: 0,
        }
    }
    pub fn time_left(&self) -> bool {
        self.failures.len() < 20 && self.start.elapsed() < self.budget
    }
    /// fraction of the budget used
    pub fn frac(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    /// records the case about to run, so that a crash or hang can be attributed
    pub fn current(&mut self, desc: &str) {
        if let Some(f) = &mut self.cur {
            let b = desc.as_bytes();
            let b = &b[..b.len().min(4000)];
            let _ = f.rewind();
            let _ = f.write_all(b);
            if (b.len() as u64) < self.curlen {
                let _ = f.set_len(b.len() as u64);
            }
            self.curlen = b.len() as u64;
        }
    }
    pub fn note(&mut self, desc: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.seen.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 6 && self.evals.is_power_of_two())) {
                self.samples.push(desc.chars().take(600).collect());
            }
        }
    }
    pub fn fail(&mut self, key: &str, what: String) {
        if self.failures.iter().filter(|f| f.key == key).count() < 2 {
            self.failures.push(Failure { key: key.into(), what });
        }
    }
    /// Runs one case; a panic is a failure.
    pub fn case(&mut self, key: &str, desc: String, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        self.current(&desc);
        self.note(&desc, nontrivial);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.fail(key, format!("{e}\n  case: {desc}")),
            Err(p) => {
                let t = panic_text(p);
                self.fail(key, format!("panicked: {t}\n  case: {desc}"))
            }
        }
    }
}

/// None if `f` panics
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}
