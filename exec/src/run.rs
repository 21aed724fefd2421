//! Case accounting shared by the executable contracts.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

/// the case being evaluated, for the watchdog
pub static CURRENT: Mutex<Option<(String, String, Instant)>> = Mutex::new(None);
/// with `--trace FILE`, each case is written there before it is evaluated
pub static TRACE: Mutex<Option<String>> = Mutex::new(None);

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Failure {
    /// names the input and the violated clause; known findings are matched on it
    pub signature: String,
    pub clause: String,
    pub input: String,
    pub expected: String,
    pub got: String,
}

pub struct Run {
    pub rng: Rng,
    pub thorough: bool,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    seen_clause: std::collections::HashMap<String, u32>,
    pub clauses: std::collections::BTreeMap<String, u64>,
}

impl Run {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Run {
            rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234567),
            thorough,
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            failures: vec![],
            seen_clause: Default::default(),
            clauses: Default::default(),
        }
    }
    pub fn failing(&self) -> u32 {
        self.seen_clause.values().sum()
    }
    pub fn distinct(&self) -> usize {
        self.distinct.len()
    }
    /// count of cases: `q` in the quick tier, `t` in the thorough tier
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.thorough { t } else { q }
    }
    /// Evaluates one clause on one input. `f` returns `Ok(())` or `Err((expected, got))`.
    pub fn case<F>(&mut self, clause: &str, input: &str, f: F)
    where
        F: FnOnce() -> Result<(), (String, String)>,
    {
        self.evaluations += 1;
        *self.clauses.entry(clause.to_string()).or_insert(0) += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (clause, input).hash(&mut h);
        self.distinct.insert(h.finish());
        if self.evaluations.is_power_of_two() && self.samples.len() < 12 {
            self.samples.push(format!("{clause}: {input}"));
        }
        *CURRENT.lock().unwrap() = Some((clause.to_string(), input.to_string(), Instant::now()));
        if let Some(t) = TRACE.lock().unwrap().as_ref() {
            let _ = std::fs::write(t, format!("{clause} :: {input}"));
        }
        let res = catch_unwind(AssertUnwindSafe(f));
        *CURRENT.lock().unwrap() = None;
        let r = match res {
            Ok(r) => r,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                Err(("no panic".into(), format!("panicked: {m}")))
            }
        };
        if let Err((expected, got)) = r {
            let c = self.seen_clause.entry(clause.to_string()).or_insert(0);
            *c += 1;
            if *c <= 40 {
                self.failures.push(Failure {
                    signature: format!("{clause} :: {input}"),
                    clause: clause.into(),
                    input: input.into(),
                    expected,
                    got,
                })
            }
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug, F: FnOnce() -> T>(&mut self, clause: &str, input: &str, expected: T, f: F) {
        self.case(clause, input, || {
            let got = f();
            if got == expected {
                Ok(())
            } else {
                Err((format!("{expected:?}"), format!("{got:?}")))
            }
        })
    }
    pub fn holds<F: FnOnce() -> bool>(&mut self, clause: &str, input: &str, f: F) {
        self.case(clause, input, || if f() { Ok(()) } else { Err(("the clause holds".into(), "it does not".into())) })
    }
}
