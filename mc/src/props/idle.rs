//! Idle time: what is stored lasts. Every call to every contract of a system in use is made on the
//! ledger as it is, and on the same ledger with everything gone that the ledger drops once its time
//! is over, and after pauses in which nobody does anything.
use super::auth::{Auth, Call, When, C, K};
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use soroban_env_host::xdr::{ContractDataDurability, LedgerKey, Limits, ReadXdr, ScVal};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn properties() -> Vec<Property> {
    vec![Property { id: "P27", scenarios, assumptions: host_assumptions }]
}

/// (seconds, ledgers) nobody does anything in; at the first, only what may be dropped at any time is gone
const PAUSES: [u64; 4] = [0, 1, 45 * DAY, 900 * DAY];

struct Idle {
    when: When,
    depth: (usize, usize),
    tier: Tier,
}

#[derive(Clone)]
struct M {
    depth: usize,
    /// the contract of the last call
    last: usize,
    data: Arc<BTreeMap<Vec<u8>, Vec<u8>>>,
}
impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.depth)
    }
}

#[derive(Clone)]
struct Op {
    i: usize,
    text: String,
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.text)
    }
}

fn lasting(w: &World) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut d = w.data();
    d.retain(|k, _| !matches!(LedgerKey::from_xdr(k, Limits::none()), Ok(LedgerKey::ContractData(d)) if d.durability == ContractDataDurability::Temporary));
    d
}

/// Only an allowance may end without anybody's doing.
fn by_allowance(k: K, f: &str) -> bool {
    k == K::Token && ["allowance", "transfer_from", "burn_from"].contains(&f)
}

/// What time does to a call by intention.
#[derive(Clone, Copy, PartialEq)]
enum Time {
    /// nothing: same answer, same effect
    Nothing,
    /// the time is recorded, or decides how much others get: same answer, same balances
    Recorded,
    /// it is what the call is about
    Counts,
}
fn time(k: K, x: &Call) -> Time {
    // a deadline was named
    let limited = |v: &ScVal| matches!(v, ScVal::U64(t) if *t >= 1_000_000);
    match (k, x.f.as_str()) {
        (K::Pool | K::Stable | K::Multihop | K::Trader, _) if x.args.iter().any(limited) => Time::Counts,
        (K::Token, "approve") => Time::Counts,
        (K::Stake, "bond" | "unbond" | "withdraw_rewards" | "distribute_rewards" | "create_distribution_flow") => Time::Recorded,
        (K::Stake, _) => Time::Nothing,
        (K::Rewards, f) if f.starts_with("query_config") || f.starts_with("query_admin") => Time::Nothing,
        (K::Rewards, _) => Time::Counts,
        (K::Factory, "create_liquidity_pool") => Time::Recorded,
        (K::Vesting, "claim" | "query_available_to_claim" | "create_vesting_schedules") => Time::Counts,
        (K::Vesting, _) => Time::Nothing,
        _ => Time::Nothing,
    }
}

impl Idle {
    fn auth(&self) -> Auth {
        Auth { when: self.when, depth: (1, 1) }
    }
}

impl Spec for Idle {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        format!("{:?}", self.when)
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.depth.0 } else { self.depth.1 }
    }
    fn key(&self, _m: &M) -> String {
        String::new()
    }
    fn setup(&self, w: &World) -> C {
        self.auth().setup(w)
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        for x in &c.unknown {
            o.count(format!("not called, a parameter of an unknown type: {x}"));
        }
        M { depth: 0, last: 0, data: Arc::new(lasting(w)) }
    }
    fn ops(&self, c: &C, m: &M) -> Vec<Op> {
        c.calls
            .iter()
            .enumerate()
            .filter(|(_, x)| m.depth == 0 || x.again && (x.con == m.last || self.tier == Tier::Thorough) || x.con == m.last && x.f.starts_with("query"))
            .map(|(i, x)| Op { i, text: format!("{}.{}({})", c.cons[x.con].name, x.f, x.args.iter().map(show).collect::<Vec<_>>().join(", ")) })
            .collect()
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let call = &c.calls[op.i];
        let con = &c.cons[call.con];
        let start = w.snapshot();
        let run = || {
            let r = w.call(&con.addr, &call.f, call.args.clone());
            let s = if r.is_ok() { w.signers() } else { vec![] };
            (r, s)
        };
        let (r, s) = run();
        let data = if r.is_ok() { Arc::new(lasting(w)) } else { m.data.clone() };
        let end = w.snapshot();
        let t = if by_allowance(con.k, &call.f) { Time::Counts } else { time(con.k, call) };
        let pauses = match t {
            Time::Counts if by_allowance(con.k, &call.f) => 0,
            Time::Counts => 1,
            _ if r.is_err() && self.tier == Tier::Quick => 1,
            _ if m.depth > 0 && self.tier == Tier::Quick => 1,
            _ => PAUSES.len(),
        };
        for p in &PAUSES[..pauses] {
            w.restore(&start);
            if *p > 0 {
                w.advance(*p);
            }
            w.expire(true);
            let (r2, s2) = run();
            let what = || if *p == 0 { "with what the ledger may drop gone".to_string() } else { format!("after a pause of {p} s") };
            if !(r == r2 && s == s2) {
                let say = |r: &Res| match r {
                    Ok(v) => show(v),
                    Err(e) => format!("{e:?}"),
                };
                o.fail("idle/answer", format!("{op:?} gives {} (signed by {:?}), {} {} (signed by {:?})", say(&r), s.iter().map(short).collect::<Vec<_>>(), what(), say(&r2), s2.iter().map(short).collect::<Vec<_>>()));
                break;
            }
            if r.is_ok() {
                let tokens = |d: &BTreeMap<Vec<u8>, Vec<u8>>| {
                    let mut d = d.clone();
                    d.retain(|k, _| matches!(LedgerKey::from_xdr(k, Limits::none()), Ok(LedgerKey::ContractData(d)) if c.tokens.iter().any(|t| c.cons[*t].addr == d.contract)));
                    d
                };
                let d2 = lasting(w);
                let differs = *data != d2 && (*p == 0 || t == Time::Nothing || tokens(&data) != tokens(&d2));
                if differs {
                    let n = data.iter().filter(|(k, v)| d2.get(*k) != Some(v)).count() + d2.keys().filter(|k| !data.contains_key(*k)).count();
                    o.fail("idle/effect", format!("{op:?}: {n} entries differ when it is made {}", what()));
                    break;
                }
            }
        }
        w.restore(&end);
        o.count(if r.is_err() { "refused either way".to_string() } else { format!("{:?}.{} the same", con.k, call.f) });
        let token_only = self.tier == Tier::Quick && con.k == K::Token && !call.again;
        if r.is_err() || data == m.data || token_only {
            o.same = true;
            return;
        }
        m.depth += 1;
        m.last = call.con;
        m.data = data;
    }
}

fn scenarios(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let quick = |when| if when == When::InUse { 2 } else { 1 };
    [When::InUse, When::HandedOver, When::Later].into_iter().map(|when| Box::new(Idle { when, depth: (quick(when), 2), tier }) as Box<dyn Scenario>).collect()
}
