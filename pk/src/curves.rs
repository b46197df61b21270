//! P24. State: a curve (the real one, and the list of curves it is the sum of); operation: add a curve.
use crate::core::*;
use curve::{Curve, PiecewiseLinear, SaturatingLinear, Step};
use num_bigint::BigInt;
use serde_json::{json, Value};
use soroban_sdk::{Env, Vec as SVec};
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum M {
    Const(u128),
    Sat(u64, u128, u64, u128),
    Pw(Vec<(u64, u128)>),
}
use M::*;

/// An exact value: numerator, positive denominator.
#[derive(Clone, Debug)]
struct Q(BigInt, BigInt);

impl Q {
    fn int(x: u128) -> Q {
        Q(big(x), big(1))
    }
    fn add(&self, o: &Q) -> Q {
        if self.1 == o.1 {
            return Q(&self.0 + &o.0, self.1.clone());
        }
        Q(&self.0 * &o.1 + &o.0 * &self.1, &self.1 * &o.1)
    }
    /// |self - x| < n
    fn near(&self, x: u128, n: u32) -> bool {
        let d = big(x) * &self.1 - &self.0;
        let d = if d < big(0) { -d } else { d };
        d < big(n) * &self.1
    }
}

impl M {
    fn corners(&self) -> Vec<(u64, u128)> {
        match self {
            Const(_) => vec![],
            Sat(a, x, b, y) => vec![(*a, *x), (*b, *y)],
            Pw(v) => v.clone(),
        }
    }
    fn real(&self, env: &Env) -> Curve {
        match self {
            Const(y) => Curve::Constant(*y),
            Sat(a, x, b, y) => Curve::SaturatingLinear(SaturatingLinear { min_x: *a, min_y: *x, max_x: *b, max_y: *y }),
            Pw(v) => {
                let mut steps = SVec::new(env);
                for (t, y) in v {
                    steps.push_back(Step { time: *t, value: *y });
                }
                Curve::PiecewiseLinear(PiecewiseLinear { steps })
            }
        }
    }
    /// Corners in order and at least one (or none and constant).
    fn valid(&self) -> bool {
        match self {
            Const(_) => true,
            _ => {
                let c = self.corners();
                !c.is_empty() && c.windows(2).all(|w| w[0].0 < w[1].0)
            }
        }
    }
    fn exact(&self, t: u64) -> Q {
        if let Const(y) = self {
            return Q::int(*y);
        }
        let c = self.corners();
        if t <= c[0].0 {
            return Q::int(c[0].1);
        }
        for w in c.windows(2) {
            let ((a, x), (b, y)) = (w[0], w[1]);
            if t <= b {
                let d = big(b - a);
                return Q(big(x) * &d + (big(y) - big(x)) * big(t - a), d);
            }
        }
        Q::int(c[c.len() - 1].1)
    }
    /// As the contracts have always rounded: the change since the corner before is rounded toward zero.
    fn rounded(&self, t: u64) -> BigInt {
        let q = self.exact(t);
        let falling = self.corners().windows(2).any(|w| w[0].0 < t && t < w[1].0 && w[1].1 < w[0].1);
        if falling {
            (q.0 + &q.1 - big(1)) / q.1
        } else {
            q.0 / q.1
        }
    }
    /// The intermediate product of the definition fits the type.
    fn moderate(&self, t: u64) -> bool {
        self.corners().windows(2).all(|w| {
            let ((a, x), (b, y)) = (w[0], w[1]);
            !(a < t && t <= b) || x.max(y).checked_sub(x.min(y)).unwrap().checked_mul((t - a) as u128).is_some()
        })
    }
    fn monotone(&self) -> (bool, bool) {
        let c = self.corners();
        (c.windows(2).all(|w| w[0].1 <= w[1].1), c.windows(2).all(|w| w[0].1 >= w[1].1))
    }
    fn size(&self) -> u32 {
        match self {
            Const(_) => 1,
            _ => self.corners().len() as u32,
        }
    }
    fn end(&self) -> Option<u64> {
        self.corners().last().map(|c| c.0)
    }
    fn json(&self) -> Value {
        match self {
            Const(y) => json!({"constant": y.to_string()}),
            Sat(..) => json!({"saturating": self.corners().iter().map(|(t, y)| json!([t, y.to_string()])).collect::<Vec<_>>()}),
            Pw(..) => json!({"piecewise": self.corners().iter().map(|(t, y)| json!([t, y.to_string()])).collect::<Vec<_>>()}),
        }
    }
    fn parse(v: &Value) -> M {
        let list = |v: &Value| -> Vec<(u64, u128)> { v.as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap(), p[1].as_str().unwrap().parse().unwrap())).collect() };
        if let Some(y) = v["constant"].as_str() {
            Const(y.parse().unwrap())
        } else if v["saturating"].is_array() {
            let c = list(&v["saturating"]);
            Sat(c[0].0, c[0].1, c[1].0, c[1].1)
        } else {
            Pw(list(&v["piecewise"]))
        }
    }
}

fn fresh() -> Env {
    let e = Env::default();
    e.budget().reset_unlimited();
    e
}

pub struct St {
    env: Env,
    used: u32,
}

impl St {
    fn new() -> St {
        St { env: fresh(), used: 0 }
    }
    fn env(&mut self) -> &Env {
        self.used += 1;
        if self.used > 2000 {
            *self = St::new();
        }
        &self.env
    }
    fn attempt<T>(&mut self, f: impl FnOnce(&Env) -> T) -> Option<T> {
        let r = attempt(|| f(&self.env));
        if r.is_none() {
            // objects of the old host stay alive in their curves; the next case gets a new one
            self.used = u32::MAX - 1;
        }
        r
    }
}

fn found(key: &str, msg: String, sum: &[M]) -> Found {
    Found { key: key.into(), msg, case: json!({"sum": sum.iter().map(|m| m.json()).collect::<Vec<_>>()}) }
}

/// Everything a single curve promises, at all these times.
fn single(st: &mut St, m: &M, times: &[u64], d: &mut Done) {
    let env = st.env().clone();
    let c = m.real(&env);
    let one = [m.clone()];
    let valid = m.valid();
    let zero_start = matches!(m, Pw(v) if v.first().map(|c| c.0) == Some(0));
    let errs = st.attempt(|_| (c.validate().is_err(), c.validate_monotonic_increasing().is_err(), c.validate_monotonic_decreasing().is_err()));
    d.transitions += 3;
    match errs {
        None => d.find(Some(found("validate-panics", format!("{m:?}: a check panics"), &one))),
        Some((v, i, f)) => {
            if !valid {
                if !(v && i && f) {
                    d.find(Some(found("invalid-accepted", format!("{m:?} is no valid curve; refused by validate: {v}, increasing: {i}, decreasing: {f}"), &one)));
                }
                d.outcome("invalid curve refused");
                return;
            }
            if !zero_start {
                let (up, down) = m.monotone();
                if v {
                    d.find(Some(found("valid-refused", format!("{m:?} is refused by validate"), &one)));
                }
                if i == up || f == down {
                    d.find(Some(found("monotonicity", format!("{m:?} never falls: {up}, passes that check: {}; never rises: {down}, passes that check: {}", !i, !f), &one)));
                }
            }
        }
    }
    if !valid {
        return;
    }
    let size = c.size();
    if size != m.size() {
        d.find(Some(found("size", format!("{m:?} has size {size}"), &one)));
    }
    for max in 0..=m.size() + 1 {
        if c.validate_complexity(max).is_ok() != (m.size() <= max) {
            d.find(Some(found("complexity", format!("{m:?}: validate_complexity({max})"), &one)));
        }
    }
    if c.end() != m.end() {
        d.find(Some(found("end", format!("{m:?} ends at {:?}", c.end()), &one)));
    }
    if let Curve::PiecewiseLinear(p) = &c {
        let k = m.corners();
        if p.first_value() != Some(k[0].1) || p.end_value() != Some(k[k.len() - 1].1) {
            d.find(Some(found("first-and-last", format!("{m:?}: first value {:?}, last value {:?}", p.first_value(), p.end_value()), &one)));
        }
    }
    let (lo, hi) = c.range();
    let ys: Vec<u128> = if let Const(y) = m { vec![*y] } else { m.corners().iter().map(|c| c.1).collect() };
    if lo != *ys.iter().min().unwrap() || hi != *ys.iter().max().unwrap() {
        d.find(Some(found("range", format!("{m:?}: range {lo}..{hi}"), &one)));
    }
    d.transitions += 4;
    let mut last: Option<u128> = None;
    let (up, down) = m.monotone();
    for &t in times {
        d.transitions += 1;
        match st.attempt(|_| c.value(t)) {
            None => {
                if m.moderate(t) {
                    d.find(Some(found("value-refused", format!("{m:?} has no value at {t}"), &one)));
                }
                d.outcome("value too large to compute, refused");
            }
            Some(v) => {
                if big(v) != m.rounded(t) {
                    d.find(Some(found("value", format!("{m:?} at {t}: {v}, by definition {}", m.rounded(t)), &one)));
                }
                if v < lo || v > hi {
                    d.find(Some(found("value-out-of-range", format!("{m:?} at {t}: {v}, range {lo}..{hi}"), &one)));
                }
                if let Some(p) = last {
                    if up && v < p || down && v > p {
                        d.find(Some(found("value-not-monotone", format!("{m:?}: {p} before and {v} at {t}"), &one)));
                    }
                }
                last = Some(v);
                d.outcome("value as defined");
            }
        }
    }
}

/// A sum: the real curve of the first summands (already judged), plus one more.
/// Returns the real result's corners (or constant) if there is one.
fn sum(st: &mut St, left: &M, before: &[M], c: &M, times: &[u64], d: &mut Done) -> Option<M> {
    let env = st.env().clone();
    let a = left.real(&env);
    let b = c.real(&env);
    let mut all = before.to_vec();
    all.push(c.clone());
    let k = before.len() as u32; // additions so far, with this one
    d.transitions += 1;
    let konst = matches!(left, Const(_)) || matches!(c, Const(_));
    let mut corners: Vec<u64> = left.corners().iter().chain(c.corners().iter()).map(|c| c.0).collect();
    corners.sort();
    corners.dedup();
    let r = match (st.attempt(|e| a.combine(e, &b)), st.attempt(|e| b.combine(e, &a))) {
        (Some(x), Some(y)) => {
            let same = match (from_real(&x), from_real(&y)) {
                (Some(p), Some(q)) => p.corners() == q.corners() && (!p.corners().is_empty() || p == q),
                _ => false,
            };
            if !same {
                d.find(Some(found("order", format!("{left:?} + {c:?}: {:?} in one order, {:?} in the other", from_real(&x), from_real(&y)), &all)));
            }
            x
        }
        (None, None) => {
            // may only be refused where a value or a sum does not fit
            let at: Vec<u64> = if corners.is_empty() { vec![0] } else { corners.clone() };
            let fits = at.iter().all(|&t| left.moderate(t) && c.moderate(t) && u128::try_from(left.rounded(t) + c.rounded(t)).is_ok());
            if fits {
                d.find(Some(found("sum-refused", format!("{left:?} + {c:?} is refused"), &all)));
            }
            d.outcome("sum too large, refused");
            return None;
        }
        _ => {
            d.find(Some(found("order", format!("{left:?} + {c:?} is refused in one order only"), &all)));
            return None;
        }
    };
    let Some(m) = from_real(&r) else {
        d.find(Some(found("sum-unreadable", format!("{left:?} + {c:?}"), &all)));
        return None;
    };
    // a sum passes the checks its summands pass
    let first_zero = corners.first() == Some(&0);
    if !first_zero {
        let ok = st.attempt(|_| (r.validate().is_ok(), r.validate_monotonic_increasing().is_ok(), r.validate_monotonic_decreasing().is_ok()));
        let (lu, ld) = left.monotone();
        let (cu, cd) = c.monotone();
        match ok {
            Some((v, i, f)) if v && (i || !(lu && cu)) && (f || !(ld && cd)) => {}
            x => d.find(Some(found("sum-invalid", format!("{left:?} + {c:?} = {m:?}: valid, never falls, never rises by the checks: {x:?}"), &all))),
        }
    }
    if r.end() != left.end().max(c.end()) {
        d.find(Some(found("sum-end", format!("{left:?} + {c:?} ends at {:?}", r.end()), &all)));
    }
    if r.size() > corners.len().max(1) as u32 {
        d.find(Some(found("sum-size", format!("{left:?} + {c:?} = {m:?} has size {}", r.size()), &all)));
    }
    for &t in times {
        d.transitions += 1;
        let Some(v) = st.attempt(|_| r.value(t)) else {
            if m.moderate(t) {
                d.find(Some(found("sum-value-refused", format!("{left:?} + {c:?} has no value at {t}"), &all)));
            }
            continue;
        };
        let outside = corners.first().map_or(true, |x| t < *x) || corners.last().map_or(true, |x| t > *x);
        if (konst || outside || corners.contains(&t)) && left.moderate(t) && c.moderate(t) {
            let want = left.rounded(t) + c.rounded(t);
            if big(v) != want {
                d.find(Some(found("sum-value", format!("{left:?} + {c:?} at {t}: {v}, the values add up to {want}"), &all)));
            }
        }
        let exact = all.iter().map(|m| m.exact(t)).fold(Q::int(0), |a, b| a.add(&b));
        if !exact.near(v, k + 1) {
            d.find(Some(found("sum-between", format!("{all:?} add up to {}/{} at {t}; the sum says {v}", exact.0, exact.1), &all)));
        }
        d.outcome("sum's value right");
    }
    Some(m)
}

fn from_real(c: &Curve) -> Option<M> {
    Some(match c {
        Curve::Constant(y) => Const(*y),
        Curve::SaturatingLinear(s) => Sat(s.min_x, s.min_y, s.max_x, s.max_y),
        Curve::PiecewiseLinear(p) => Pw(p.steps.iter().map(|s| (s.time, s.value)).collect()),
    })
}

/// All curves with up to `n` corners at these times with these values, valid and not.
fn grid(times: &[u64], values: &[u128], n: usize, invalid: bool) -> Vec<M> {
    let mut r: Vec<M> = values.iter().map(|v| Const(*v)).collect();
    let points: Vec<(u64, u128)> = times.iter().flat_map(|t| values.iter().map(move |v| (*t, *v))).collect();
    let mut layer: Vec<Vec<(u64, u128)>> = vec![vec![]];
    if invalid {
        r.push(Pw(vec![]));
    }
    for k in 1..=n {
        let mut next = vec![];
        for l in &layer {
            for p in &points {
                if invalid || l.last().map_or(true, |q| q.0 < p.0) {
                    let mut x = l.clone();
                    x.push(*p);
                    next.push(x);
                }
            }
        }
        for l in &next {
            r.push(Pw(l.clone()));
            if k == 2 {
                r.push(Sat(l[0].0, l[0].1, l[1].0, l[1].1));
            }
        }
        layer = next;
    }
    r
}

const LARGE_T: [u64; 7] = [1, 2, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
const LARGE_V: [u128; 8] = [0, 1, 1_000_000_000_000_000_000, u64::MAX as u128, u64::MAX as u128 + 2, i128::MAX as u128, u128::MAX - 1, u128::MAX];

fn around(t: &[u64]) -> Vec<u64> {
    let mut r: Vec<u64> = t.iter().flat_map(|t| [t.saturating_sub(1), *t, t.saturating_add(1)]).chain([0, 1 << 31, 3 << 61]).collect();
    r.sort();
    r.dedup();
    r
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Small,
    Large,
}

struct Single(Kind);

impl Single {
    fn times(&self) -> Vec<u64> {
        if self.0 == Kind::Small {
            (0..=9).chain([1000, u64::MAX]).collect()
        } else {
            around(&LARGE_T)
        }
    }
}

impl Part for Single {
    fn name(&self) -> String {
        (if self.0 == Kind::Small { "every curve" } else { "every large curve" }).into()
    }
    fn explore(&self, thorough: bool) -> Done {
        let g = match (self.0, thorough) {
            (Kind::Small, false) => [grid(&[1, 2, 3, 4, 5, 6], &[0, 1, 2, 3, 7], 3, false), grid(&[0, 1, 3, 4], &[0, 2, 5], 3, true), grid(&[1, 2, 3, 4], &[0, 2, 5], 4, false)].concat(),
            (Kind::Small, true) => [grid(&[0, 1, 2, 3, 4, 6, 8], &[0, 1, 2, 3, 7, 11], 4, false), grid(&[0, 1, 3, 4], &[0, 2, 5], 4, true), grid(&[1, 2, 3, 4, 5], &[0, 2, 5], 5, false)].concat(),
            (Kind::Large, false) => grid(&LARGE_T, &LARGE_V, 2, false),
            (Kind::Large, true) => grid(&LARGE_T, &LARGE_V, 3, false),
        };
        let mut seen = HashSet::new();
        let g: Vec<M> = g.into_iter().filter(|m| seen.insert(m.clone())).collect();
        let times = self.times();
        let mut r = each(&g, St::new, |st, m| {
            let mut d = Done::default();
            single(st, m, &times, &mut d);
            d.states += 1;
            d.sample(1, || json!({"sum": [m.json()]}));
            d
        });
        r.depth = 0;
        r
    }
    fn case(&self, c: &Value) -> Option<Found> {
        let mut d = Done::default();
        single(&mut St::new(), &M::parse(&c["sum"][0]), &self.times(), &mut d);
        d.found.into_iter().next()
    }
}

struct Sums {
    kind: Kind,
    depth: u32,
}

impl Sums {
    fn times(&self) -> Vec<u64> {
        if self.kind == Kind::Small {
            (0..=7).collect()
        } else {
            around(&LARGE_T)
        }
    }
}

impl Part for Sums {
    fn name(&self) -> String {
        match self.kind {
            Kind::Small => format!("every sum of {}", self.depth + 1),
            Kind::Large => "every sum of two large".into(),
        }
    }
    fn explore(&self, thorough: bool) -> Done {
        let g = match (self.kind, self.depth, thorough) {
            (Kind::Small, 1, false) => grid(&[1, 2, 3, 4, 5], &[0, 1, 3], 3, false).into_iter().chain([Sat(0, 0, 3, 4), Sat(0, 5, 2, 0), Pw(vec![(1, 3), (2, 0), (4, 3), (5, 1)])]).collect(),
            (Kind::Small, 1, true) => grid(&[0, 1, 2, 3, 4, 6], &[0, 1, 3], 3, false).into_iter().chain([Pw(vec![(1, 3), (2, 0), (4, 3), (5, 1)])]).collect(),
            (Kind::Small, _, false) => grid(&[1, 2, 4], &[0, 2, 3], 2, false),
            (Kind::Small, _, true) => grid(&[1, 2, 4, 5], &[0, 2, 3], 2, false),
            (Kind::Large, _, _) => grid(&[1, 1 << 32, 1 << 63, u64::MAX], &[0, 1, 1_000_000_000_000_000_000, u64::MAX as u128 + 2, i128::MAX as u128, u128::MAX], 2, false),
        };
        let times = self.times();
        // layer: (real curve so far, the summands of one way to get there)
        let mut layer: Vec<(M, Vec<M>)> = g.iter().map(|m| (m.clone(), vec![m.clone()])).collect();
        let mut total = Done { states: layer.len() as u64, ..Done::default() };
        for depth in 1..=self.depth {
            let results = std::sync::Mutex::new(vec![]);
            let items: Vec<(usize, &(M, Vec<M>))> = layer.iter().enumerate().collect();
            let d = each(&items, St::new, |st, (i, (m, before))| {
                let mut d = Done::default();
                let mut out = vec![];
                for c in &g {
                    if let Some(r) = sum(st, m, before, c, &times, &mut d) {
                        let mut all = before.clone();
                        all.push(c.clone());
                        // one state per real curve and exact function
                        let key: Vec<String> = times.iter().map(|t| { let q = all.iter().map(|m| m.exact(*t)).fold(Q::int(0), |a, b| a.add(&b)); norm(&q) }).collect();
                        d.sample(1, || json!({"sum": all.iter().map(|m| m.json()).collect::<Vec<_>>()}));
                        out.push((r, key, all));
                    }
                }
                if depth < self.depth {
                    results.lock().unwrap().push((*i, out));
                } else {
                    d.states += out.iter().map(|(r, k, _)| (r, k)).collect::<HashSet<_>>().len() as u64;
                }
                d
            });
            total.add(d);
            total.depth = depth;
            if depth < self.depth {
                let mut v = results.into_inner().unwrap();
                v.sort_by_key(|x| x.0);
                let mut seen = HashSet::new();
                layer = v.into_iter().flat_map(|x| x.1).filter(|(r, k, _)| seen.insert((r.clone(), k.clone()))).map(|(r, _, a)| (r, a)).collect();
                total.states += layer.len() as u64;
            }
        }
        total
    }
    fn case(&self, c: &Value) -> Option<Found> {
        let ms: Vec<M> = c["sum"].as_array().unwrap().iter().map(M::parse).collect();
        let times = self.times();
        let mut d = Done::default();
        let mut left = ms[0].clone();
        let mut st = St::new();
        for i in 1..ms.len() {
            match sum(&mut st, &left, &ms[..i], &ms[i], &times, &mut d) {
                Some(m) => left = m,
                None => break,
            }
        }
        d.found.into_iter().next()
    }
}

fn norm(q: &Q) -> String {
    let (mut a, mut b) = (q.0.clone(), q.1.clone());
    while b != big(0) {
        let t = &a % &b;
        a = b;
        b = t;
    }
    let g = if a < big(0) { -a } else { a };
    format!("{}/{}", &q.0 / &g, &q.1 / &g)
}

pub fn parts() -> Vec<Box<dyn Part>> {
    vec![
        Box::new(Single(Kind::Small)),
        Box::new(Single(Kind::Large)),
        Box::new(Sums { kind: Kind::Small, depth: 1 }),
        Box::new(Sums { kind: Kind::Small, depth: 2 }),
        Box::new(Sums { kind: Kind::Large, depth: 1 }),
    ]
}
