//! Exhaustive, level-synchronised breadth-first exploration of the real contracts.
//!
//! A scenario (`Spec`) has a setup, an alphabet of operations, a history model `M` and an oracle.
//! A state is the ledger (all entries except code and nonces), its clock and the history model;
//! states are identified by a 128 bit hash of exactly that. Every operation of the alphabet is
//! executed by the real code in every reachable state up to the depth, and judged by the oracle.
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Identifies what fails, and is what known findings are listed by.
    pub key: String,
    pub msg: String,
}

/// What a step reports.
#[derive(Default)]
pub struct Out {
    pub violations: Vec<Violation>,
    pub outcomes: Vec<String>,
    /// The step led nowhere new (a refused call): do not look at its state.
    pub same: bool,
}
impl Out {
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        self.violations.push(Violation { key: key.into(), msg: msg.into() });
    }
    pub fn check(&mut self, cond: bool, key: &str, msg: impl FnOnce() -> String) {
        if !cond {
            self.fail(key, msg());
        }
    }
    pub fn eq<T: PartialEq + Debug>(&mut self, got: T, want: T, key: &str, what: impl FnOnce() -> String) {
        if got != want {
            self.fail(key, format!("{}: got {got:?}, expected {want:?}", what()));
        }
    }
    pub fn count(&mut self, label: impl Into<String>) {
        self.outcomes.push(label.into());
    }
}

pub trait Spec: Sync + Send {
    type C: Send + Sync;
    type M: Clone + Debug + Send + Sync;
    type Op: Clone + Debug + Send + Sync;
    fn name(&self) -> String;
    fn setup(&self, w: &World) -> Self::C;
    fn start(&self, w: &World, c: &Self::C, o: &mut Out) -> Self::M;
    fn ops(&self, c: &Self::C, m: &Self::M) -> Vec<Self::Op>;
    fn step(&self, w: &World, c: &Self::C, m: &mut Self::M, op: &Self::Op, o: &mut Out);
    fn depth(&self, t: Tier) -> usize;
    /// Time to live is part of the state only where it is what is looked at.
    fn ttl_matters(&self) -> bool {
        false
    }
    /// The part of the model that distinguishes states.
    fn key(&self, m: &Self::M) -> String {
        format!("{m:?}")
    }
}

#[derive(Default, Clone)]
pub struct Report {
    pub name: String,
    pub states: u64,
    pub transitions: u64,
    pub calls: u64,
    pub depth: usize,
    pub depth_wanted: usize,
    pub alphabet: usize,
    pub truncated: bool,
    pub closed: bool,
    pub replayed: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub sample: Vec<String>,
    pub found: Vec<Found>,
    pub wall: f64,
}
#[derive(Clone)]
pub struct Found {
    pub v: Violation,
    pub path: Vec<usize>,
    pub ops: Vec<String>,
    pub times: u64,
}

pub struct Opts<'a> {
    pub tier: Tier,
    pub deadline: Instant,
    pub threads: usize,
    pub known: &'a (dyn Fn(&str) -> bool + Sync),
    pub max_states: usize,
}

pub trait Scenario: Sync + Send {
    fn name(&self) -> String;
    fn explore(&self, o: &Opts) -> Report;
    fn replay(&self, path: &[usize]) -> Vec<Violation>;
}

struct H2(u64, u64);
fn hash_state(l: &Ledger, key: &str, ttl: bool) -> u128 {
    let mut out = H2(0, 0);
    for (i, slot) in [&mut out.0, &mut out.1].into_iter().enumerate() {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (i as u64).hash(&mut h);
        l.clock.ts.hash(&mut h);
        l.clock.seq.hash(&mut h);
        for (k, e, t) in &l.entries {
            k.hash(&mut h);
            e.hash(&mut h);
            if ttl {
                t.hash(&mut h);
            }
        }
        key.hash(&mut h);
        *slot = h.finish();
    }
    ((out.0 as u128) << 64) | out.1 as u128
}

struct Node<M> {
    ledger: Ledger,
    m: M,
    path: Vec<u16>,
}

struct Succ<M> {
    at: (usize, usize),
    hash: u128,
    node: Option<(Ledger, M)>,
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    catch_unwind(AssertUnwindSafe(f))
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

impl<S: Spec> Scenario for S {
    fn name(&self) -> String {
        Spec::name(self)
    }

    fn explore(&self, o: &Opts) -> Report {
        let t0 = Instant::now();
        let mut rep = Report { name: Spec::name(self), depth_wanted: self.depth(o.tier), ..Default::default() };
        let setup = quiet(|| {
            let w = World::empty(Clock { ts: 1_000_000, seq: 1000 });
            let c = self.setup(&w);
            let t = w.template();
            let w = World::from_template(&t);
            let mut out = Out::default();
            let m = self.start(&w, &c, &mut out);
            (c, t, w.export(), m, out)
        });
        let (c, template, ledger, m0, out) = match setup {
            Ok(x) => x,
            Err(e) => {
                rep.found.push(Found { v: Violation { key: "setup".into(), msg: format!("setting up the scenario failed: {}", panic_text(&*e)) }, path: vec![], ops: vec![], times: 1 });
                return rep;
            }
        };
        for v in out.violations {
            rep.found.push(Found { v, path: vec![], ops: vec![], times: 1 });
        }
        let mut seen: HashSet<u128> = HashSet::new();
        seen.insert(hash_state(&ledger, &self.key(&m0), self.ttl_matters()));
        rep.states = 1;
        let mut frontier = vec![Node { ledger, m: m0, path: vec![] }];
        let mut known_seen: HashMap<String, usize> = HashMap::new();
        let depth = self.depth(o.tier);
        // the state the last operations of some histories led to, to be compared with a re-execution
        let mut ends: Vec<(Vec<u16>, u128)> = vec![];

        for level in 0..depth {
            if frontier.is_empty() {
                rep.closed = true;
                break;
            }
            let last = level + 1 == depth;
            let ops: Vec<Vec<S::Op>> = frontier.iter().map(|n| self.ops(&c, &n.m)).collect();
            rep.alphabet = rep.alphabet.max(ops.iter().map(|v| v.len()).max().unwrap_or(0));
            let mut items: Vec<(usize, usize)> = vec![];
            for (i, v) in ops.iter().enumerate() {
                for j in 0..v.len() {
                    items.push((i, j));
                }
            }
            let next = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            type Fnd = ((usize, usize), Violation);
            let results: Mutex<(Vec<Succ<S::M>>, Vec<Fnd>, BTreeMap<String, u64>, u64, u64)> = Mutex::new(Default::default());
            let chunk = (items.len() / (o.threads * 8)).clamp(1, 64);
            std::thread::scope(|sc| {
                for _ in 0..o.threads.min(items.len()) {
                    sc.spawn(|| {
                        let w = World::from_template(&template);
                        let mut succs = vec![];
                        let mut found: Vec<Fnd> = vec![];
                        let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
                        let mut n = 0u64;
                        let mut cur: Option<(usize, Snap)> = None;
                        let mut local: HashSet<u128> = HashSet::new();
                        loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= items.len() || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            for &(i, j) in &items[a..(a + chunk).min(items.len())] {
                                let node = &frontier[i];
                                match &cur {
                                    Some((k, s)) if *k == i => w.restore(s),
                                    _ => {
                                        w.import(&node.ledger);
                                        cur = Some((i, w.snapshot()));
                                    }
                                }
                                let mut m = node.m.clone();
                                let mut out = Out::default();
                                n += 1;
                                let r = quiet(|| self.step(&w, &c, &mut m, &ops[i][j], &mut out));
                                if let Err(e) = r {
                                    out.fail("oracle", format!("an answer the oracle cannot read: {}", panic_text(&*e)));
                                }
                                for l in out.outcomes {
                                    *outcomes.entry(l).or_default() += 1;
                                }
                                if !out.violations.is_empty() {
                                    for v in out.violations {
                                        found.push(((i, j), v));
                                    }
                                    continue;
                                }
                                if out.same {
                                    continue;
                                }
                                let led = w.export();
                                let h = hash_state(&led, &self.key(&m), self.ttl_matters());
                                if seen.contains(&h) || !local.insert(h) {
                                    continue;
                                }
                                succs.push(Succ { at: (i, j), hash: h, node: if last { None } else { Some((led, m)) } });
                            }
                            if Instant::now() > o.deadline {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        let mut g = results.lock().unwrap();
                        g.0.extend(succs);
                        g.1.extend(found);
                        for (k, v) in outcomes {
                            *g.2.entry(k).or_default() += v;
                        }
                        g.3 += n;
                        g.4 += w.total_calls();
                    });
                }
            });
            let cut = stop.load(Ordering::Relaxed);
            let (mut succs, mut found, outcomes, n, calls) = results.into_inner().unwrap();
            rep.transitions += n;
            rep.calls += calls;
            for (k, v) in outcomes {
                *rep.outcomes.entry(k).or_default() += v;
            }
            // In the order of histories, so that the outcome does not depend on the threads.
            succs.sort_by_key(|s| s.at);
            found.sort_by_key(|f| f.0);
            let mut bad = false;
            for ((i, j), v) in found {
                if (o.known)(&v.key) {
                    if let Some(&k) = known_seen.get(&v.key) {
                        rep.found[k].times += 1;
                        continue;
                    }
                    known_seen.insert(v.key.clone(), rep.found.len());
                } else {
                    if rep.found.iter().any(|f: &Found| f.v.key == v.key) || rep.found.len() > 8 {
                        continue;
                    }
                    bad = true;
                }
                let mut path: Vec<usize> = frontier[i].path.iter().map(|x| *x as usize).collect();
                path.push(j);
                rep.found.push(Found { ops: self.describe(&template, &c, &path), v, path, times: 1 });
            }
            let mut nf = vec![];
            for s in succs {
                if !seen.insert(s.hash) {
                    continue;
                }
                rep.states += 1;
                let mut path = frontier[s.at.0].path.clone();
                path.push(s.at.1 as u16);
                if last && ends.len() < 4096 {
                    ends.push((path.clone(), s.hash));
                }
                if let Some((ledger, m)) = s.node {
                    nf.push(Node { ledger, m, path });
                }
            }
            if !last && nf.is_empty() && !cut {
                rep.closed = true;
            }
            if ends.is_empty() {
                if let Some(nd) = nf.last() {
                    ends = vec![(nd.path.clone(), hash_state(&nd.ledger, &self.key(&nd.m), self.ttl_matters()))];
                }
            }
            frontier = nf;
            if !cut {
                rep.depth = level + 1;
            }
            if bad {
                break;
            }
            if cut || (frontier.len() > o.max_states && !last) {
                rep.truncated = true;
                break;
            }
        }
        // Histories are executed again from the setup, without save and restore in between.
        if !ends.is_empty() && rep.found.iter().all(|f| (o.known)(&f.v.key)) {
            let step = (ends.len() / 12).max(1);
            for (p, h) in ends.iter().step_by(step) {
                let path: Vec<usize> = p.iter().map(|x| *x as usize).collect();
                match quiet(|| self.rerun(&template, &c, &path)) {
                    Ok(h2) if h2 == *h => rep.replayed += 1,
                    _ => panic!("{}: history {path:?} did not lead to the same state twice", rep.name),
                }
            }
            if let Some((p, _)) = ends.get(ends.len() / 2) {
                let path: Vec<usize> = p.iter().map(|x| *x as usize).collect();
                rep.sample = self.describe(&template, &c, &path);
            }
        }
        rep.wall = t0.elapsed().as_secs_f64();
        rep
    }

    fn replay(&self, path: &[usize]) -> Vec<Violation> {
        let w = World::empty(Clock { ts: 1_000_000, seq: 1000 });
        let c = match quiet(|| self.setup(&w)) {
            Ok(c) => c,
            Err(e) => return vec![Violation { key: "setup".into(), msg: panic_text(&*e) }],
        };
        let t = w.template();
        let w = World::from_template(&t);
        let mut out = Out::default();
        let mut m = self.start(&w, &c, &mut out);
        println!("start: {m:?}");
        for &j in path {
            let ops = self.ops(&c, &m);
            println!("-> {:?}", ops[j]);
            w.trace.set(true);
            if let Err(e) = quiet(|| self.step(&w, &c, &mut m, &ops[j], &mut out)) {
                out.fail("oracle", panic_text(&*e));
            }
            w.trace.set(false);
            println!("   model: {m:?}");
        }
        out.violations
    }
}

trait Rerun: Spec {
    fn rerun(&self, t: &Template, c: &Self::C, path: &[usize]) -> u128 {
        let w = World::from_template(t);
        let mut out = Out::default();
        let mut m = self.start(&w, c, &mut out);
        for &j in path {
            let ops = self.ops(c, &m);
            self.step(&w, c, &mut m, &ops[j], &mut out);
        }
        hash_state(&w.export(), &self.key(&m), self.ttl_matters())
    }
    fn describe(&self, t: &Template, c: &Self::C, path: &[usize]) -> Vec<String> {
        let w = World::from_template(t);
        let mut out = Out::default();
        let mut m = self.start(&w, c, &mut out);
        let mut v = vec![];
        for &j in path {
            let ops = self.ops(c, &m);
            v.push(format!("{:?}", ops[j]));
            let _ = quiet(|| self.step(&w, c, &mut m, &ops[j], &mut out));
        }
        v
    }
}
impl<S: Spec> Rerun for S {}

pub fn report_json(r: &Report) -> Value {
    json!({
        "scenario": r.name,
        "states": r.states,
        "transitions": r.transitions,
        "contract_calls": r.calls,
        "depth_completed": r.depth,
        "depth_wanted": r.depth_wanted,
        "largest_alphabet": r.alphabet,
        "state_space_closed": r.closed,
        "stopped_at_limit": r.truncated,
        "histories_executed_again": r.replayed,
        "outcomes": r.outcomes,
        "wall_s": (r.wall * 100.0).round() / 100.0,
        "sample_history": r.sample,
    })
}

pub fn deadline(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
