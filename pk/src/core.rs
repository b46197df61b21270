use num_bigint::BigInt;
use serde_json::Value;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Found {
    pub key: String,
    pub msg: String,
    pub case: Value,
}

#[derive(Default)]
pub struct Done {
    pub states: u64,
    pub transitions: u64,
    pub depth: u32,
    pub outcomes: BTreeMap<String, u64>,
    pub found: Vec<Found>,
    pub samples: Vec<Value>,
}

impl Done {
    pub fn outcome(&mut self, k: &str) {
        if let Some(n) = self.outcomes.get_mut(k) {
            *n += 1;
        } else {
            self.outcomes.insert(k.into(), 1);
        }
    }
    /// At most one finding per kind: the first one in the order of exploration.
    pub fn find(&mut self, f: Option<Found>) {
        if let Some(f) = f {
            if self.found.len() < 20 && !self.found.iter().any(|g| g.key == f.key) {
                self.found.push(f);
            }
        }
    }
    pub fn sample(&mut self, max: usize, f: impl FnOnce() -> Value) {
        if self.samples.len() < max {
            self.samples.push(f());
        }
    }
    pub fn add(&mut self, o: Done) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.depth = self.depth.max(o.depth);
        for (k, n) in o.outcomes {
            *self.outcomes.entry(k).or_default() += n;
        }
        for f in o.found {
            self.find(Some(f));
        }
        self.samples.extend(o.samples);
    }
}

pub trait Part {
    fn name(&self) -> String;
    fn explore(&self, thorough: bool) -> Done;
    /// Executes one recorded case again.
    fn case(&self, c: &Value) -> Option<Found>;
}

/// What the library refuses, it refuses by panicking.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Works through the items with every core; results are joined in the items' order.
pub fn each<T: Sync, S>(items: &[T], state: impl Fn() -> S + Sync, f: impl Fn(&mut S, &T) -> Done + Sync) -> Done {
    let next = AtomicUsize::new(0);
    let all: Mutex<Vec<(usize, Done)>> = Mutex::new(vec![]);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| {
                let mut st = state();
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    let Some(x) = items.get(i) else { break };
                    let mut d = f(&mut st, x);
                    if i % 97 != 0 {
                        d.samples.clear();
                    }
                    all.lock().unwrap().push((i, d));
                }
            });
        }
    });
    let mut v = all.into_inner().unwrap();
    v.sort_by_key(|(i, _)| *i);
    let mut r = Done::default();
    for (_, d) in v {
        r.add(d);
    }
    r
}

pub fn big(x: impl Into<BigInt>) -> BigInt {
    x.into()
}

pub fn fits_i128(x: &BigInt) -> bool {
    i128::try_from(x.clone()).is_ok()
}
