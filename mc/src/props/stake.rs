//! The staking contract: custody of stakes, and distribution of rewards.
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use num_bigint::BigInt;
use std::collections::BTreeMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "P11", scenarios: custody, assumptions: host_assumptions },
        Property { id: "P12", scenarios: rewards, assumptions: host_assumptions },
        Property { id: "P13", scenarios: claims, assumptions: host_assumptions },
    ]
}

#[derive(Clone, Debug)]
pub enum Op {
    Bond { who: u8, amt: i128 },
    /// the n-th stake of the user
    Unbond { who: u8, n: usize },
    UnbondWrong { who: u8, amt: i128, ts: u64 },
    Create { who: u8, asset: usize },
    Distribute { who: u8, asset: usize, amt: i128 },
    Claim { who: u8 },
    Wait(u64),
}

#[derive(Clone, Debug)]
pub struct M {
    stakes: BTreeMap<u8, Vec<(i128, u64)>>,
    claimed_at: BTreeMap<u8, u64>,
    wallet: BTreeMap<u8, Vec<i128>>,
    flows: Vec<usize>,
    /// per asset: time -> amount
    dist: Vec<BTreeMap<u64, i128>>,
    /// time -> total staked
    total_at: BTreeMap<u64, i128>,
    paid: Vec<i128>,
    now: u64,
    /// claims so far, and when each user staked or claimed last at which moment
    n: u32,
}
impl M {
    fn total(&self) -> i128 {
        self.stakes.values().flatten().map(|s| s.0).sum()
    }
    fn of(&self, u: u8) -> Vec<(i128, u64)> {
        self.stakes.get(&u).cloned().unwrap_or_default()
    }
    fn last(&self, u: u8) -> u64 {
        self.claimed_at.get(&u).copied().unwrap_or(0)
    }
    /// Least and most that is due to a user for an asset.
    fn due(&self, u: u8, asset: usize) -> (BigInt, BigInt) {
        let (mut lo, mut hi) = (big(0), big(0));
        for (ts, amt) in self.dist[asset].range((self.last(u) + 1)..) {
            let total = self.total_at[ts];
            if total == 0 || self.last(u) >= *ts {
                continue;
            }
            for (s, at) in self.of(u) {
                let days = (ts.saturating_sub(at) / DAY).min(60) as i128;
                let exact: BigInt = big(s) * *amt * days / (big(total) * 60);
                // shares are rounded down twice
                let least: BigInt = big(s) * *amt / total * days / 60 - 1;
                lo += least.max(big(0));
                hi += exact;
            }
        }
        (lo, hi)
    }
}

pub struct Stake {
    label: &'static str,
    tags: &'static [&'static str],
    users: Vec<u8>,
    fund: i128,
    /// stakes and flows at the start
    bonded: Vec<(u8, i128)>,
    flows: Vec<usize>,
    /// how many tokens there are for rewards
    assets: usize,
    lp_is_reward: bool,
    depth: (usize, usize),
    alphabet: Box<dyn Fn(&M) -> Vec<Op> + Sync + Send>,
    special: bool,
}
pub struct C {
    stake: Addr,
    lp: Addr,
    rew: Vec<Addr>,
}

impl Stake {
    fn check_state(&self, w: &World, c: &C, m: &M, op: &str, o: &mut Out) {
        let total = m.total();
        o.eq(w.query(&c.stake, "query_total_staked", vec![]).map(|v| v.i128()), Ok(total), "stake/total", || format!("after {op}: total staked"));
        let extra = if self.lp_is_reward { m.dist[0].values().sum::<i128>() - m.paid[0] } else { 0 };
        o.eq(w.balance(&c.lp, &c.stake), total + extra, "stake/holdings", || format!("after {op}: LP tokens the contract holds"));
        for &u in &self.users {
            match w.query(&c.stake, "query_staked", vec![a(u)]) {
                Ok(v) => {
                    let mut got: Vec<(i128, u64)> = v.field("stakes").list().iter().map(|s| (s.field("stake").i128(), s.field("stake_timestamp").u64())).collect();
                    let mut want = m.of(u);
                    got.sort();
                    want.sort();
                    o.eq(got, want, "stake/stakes", || format!("after {op}: stakes of {u}"));
                    o.eq(v.field("total_stake").i128(), m.of(u).iter().map(|s| s.0).sum(), "stake/user-total", || format!("after {op}: total stake of {u}"));
                }
                Err(e) => o.fail("stake/query", format!("after {op}: query_staked was refused ({e:?})")),
            }
            let bal = self.wallet(w, c, u);
            for k in 0..bal.len() {
                o.eq(bal[k], m.wallet[&u][k], if k == 0 { "stake/wallet" } else { "rewards/wallet" }, || format!("after {op}: balance of {u} in {}", if k == 0 { "the LP token".into() } else { format!("reward {}", k - 1) }));
            }
        }
        // rewards
        let mut promised = vec![0i128; m.flows.len()];
        for &u in &self.users {
            match w.query(&c.stake, "query_withdrawable_rewards", vec![a(u)]) {
                Ok(v) => {
                    let l = v.field("rewards").list();
                    o.eq(l.len(), m.flows.len(), "claims/query-flows", || format!("after {op}: number of reward tokens"));
                    for (k, x) in l.iter().enumerate().take(m.flows.len()) {
                        let f = m.flows[k];
                        o.eq(x.field("reward_address").address(), c.rew[f].clone(), "claims/query-asset", || format!("after {op}"));
                        let amt = x.field("reward_amount").i128();
                        let (lo, hi) = m.due(u, f);
                        o.check(big(amt) >= lo && big(amt) <= hi, "rewards/due", || format!("after {op}: {amt} of reward {f} are withdrawable for {u}, due are {lo} to {hi} (stakes {:?}, distributions {:?}, totals {:?}, last claim {})", m.of(u), m.dist[f], m.total_at, m.last(u)));
                        promised[k] += amt;
                    }
                }
                Err(e) => o.fail("claims/query-refused", format!("after {op}: query_withdrawable_rewards of {u} was refused ({e:?})")),
            }
        }
        for (k, &f) in m.flows.iter().enumerate() {
            let got: i128 = m.dist[f].values().sum();
            o.check(promised[k] + m.paid[f] <= got, "rewards/overcommitted", || format!("after {op}: {} of reward {f} were paid and {} are withdrawable, {got} were distributed", m.paid[f], promised[k]));
            let held = w.balance(&c.rew[f], &c.stake) - if self.lp_is_reward && f == 0 { total } else { 0 };
            o.eq(held, got - m.paid[f], "rewards/holdings", || format!("after {op}: what the contract holds of reward {f}"));
        }
    }
    fn wallet(&self, w: &World, c: &C, u: u8) -> Vec<i128> {
        let x = actor(u);
        [&c.lp].into_iter().chain(&c.rew).map(|t| w.balance(t, &x)).collect()
    }
}

impl Spec for Stake {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        self.label.into()
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.depth.0
        } else {
            self.depth.1
        }
    }
    fn setup(&self, w: &World) -> C {
        let h = w.upload("phoenix_stake");
        let lp = w.sac("LPT", &actor(ADMIN));
        let rew: Vec<Addr> = (0..self.assets).map(|k| if k == 0 && self.lp_is_reward { lp.clone() } else { w.sac(["RWA", "RWB", "RWC", "RWD", "RWE", "RWF"][k], &actor(ADMIN)) }).collect();
        let stake = w.create(h, 100, vec![]);
        w.call(&stake, "initialize", vec![a(ADMIN), addr(&lp), i128v(10), i128v(5), a(MGR), a(OWNER), u32v(7)]).expect("stake initialize");
        for u in &self.users {
            mint(w, &lp, *u, self.fund);
        }
        for r in &rew {
            for u in [MGR, OWNER] {
                mint(w, r, u, 1_000_000_000_000_000_000);
            }
        }
        mint(w, &rew[1], U1, 1000);
        for (u, x) in &self.bonded {
            w.call(&stake, "bond", vec![a(*u), i128v(*x)]).expect("bond");
        }
        for f in &self.flows {
            w.call(&stake, "create_distribution_flow", vec![a(MGR), addr(&rew[*f])]).expect("flow");
        }
        C { stake, lp, rew }
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        let mut stakes: BTreeMap<u8, Vec<(i128, u64)>> = BTreeMap::new();
        for (u, x) in &self.bonded {
            stakes.entry(*u).or_default().push((*x, w.ts()));
        }
        let m = M {
            stakes,
            claimed_at: BTreeMap::new(),
            wallet: self.users.iter().map(|u| (*u, self.wallet(w, c, *u))).collect(),
            flows: self.flows.clone(),
            dist: vec![BTreeMap::new(); self.assets],
            total_at: BTreeMap::new(),
            paid: vec![0; self.assets],
            now: w.ts(),
            n: 0,
        };
        self.check_state(w, c, &m, "setup", o);
        m
    }
    fn key(&self, m: &M) -> String {
        // all the rest is a function of the ledger
        format!("{:?} {:?}", m.dist, m.paid)
    }
    fn ops(&self, _c: &C, m: &M) -> Vec<Op> {
        (self.alphabet)(m)
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let now = w.ts();
        let lpk = |m: &mut M, u: u8, d: i128| {
            let x = m.wallet.get_mut(&u).unwrap();
            x[0] += d;
            if self.lp_is_reward {
                x[1] += d;
            }
        };
        let mut same = false;
        match op {
            Op::Wait(s) => w.advance(*s),
            Op::Bond { who, amt } => {
                let r = w.call(&c.stake, "bond", vec![a(*who), i128v(*amt)]);
                let fine = *amt >= 10 && m.wallet[who][0] >= *amt;
                o.count(if r.is_ok() { "bond ok" } else { "bond refused" });
                o.eq(r.is_ok(), fine, "stake/bond", || format!("{op:?}: whether it is executed ({r:?})"));
                if fine {
                    m.stakes.entry(*who).or_default().push((*amt, now));
                    lpk(m, *who, -amt);
                } else {
                    same = true;
                }
            }
            Op::Unbond { who, n } => {
                let (amt, ts) = m.of(*who)[*n];
                let r = w.call(&c.stake, "unbond", vec![a(*who), i128v(amt), u64v(ts)]);
                o.count("unbond");
                o.check(r.is_ok(), "stake/unbond-refused", || format!("{op:?} of {amt} staked at {ts} was refused ({r:?})"));
                m.stakes.get_mut(who).unwrap().remove(*n);
                lpk(m, *who, amt);
            }
            Op::UnbondWrong { who, amt, ts } => {
                if m.of(*who).contains(&(*amt, *ts)) {
                    o.same = true;
                    return;
                }
                let r = w.call(&c.stake, "unbond", vec![a(*who), i128v(*amt), u64v(*ts)]);
                o.count("unbond of nothing");
                o.check(r.is_err(), "stake/unbond-nothing", || format!("{op:?} was executed, the stakes are {:?}", m.of(*who)));
                same = true;
            }
            Op::Create { who, asset } => {
                let r = w.call(&c.stake, "create_distribution_flow", vec![a(*who), addr(&c.rew[*asset])]);
                let fine = (*who == MGR || *who == OWNER) && !m.flows.contains(asset);
                o.count(if r.is_ok() { "flow created" } else { "flow refused" });
                o.eq(r.is_ok(), fine, "rewards/create", || format!("{op:?}: whether it is executed ({r:?})"));
                if fine {
                    m.flows.push(*asset);
                } else {
                    same = true;
                }
            }
            Op::Distribute { who, asset, amt } => {
                let r = w.call(&c.stake, "distribute_rewards", vec![a(*who), i128v(*amt), addr(&c.rew[*asset])]);
                let fine = (*who == MGR || *who == OWNER) && m.flows.contains(asset) && *amt >= 0;
                o.count(if r.is_ok() { "distribution" } else { "distribution refused" });
                o.eq(r.is_ok(), fine, "rewards/distribute", || format!("{op:?}: whether it is executed ({r:?})"));
                if fine {
                    *m.dist[*asset].entry(now).or_default() += amt;
                    let t = m.total();
                    let e = m.total_at.entry(now).or_default();
                    *e = (*e).max(t);
                    if self.special {
                        // whoever claimed at this very moment, before, is still due their share
                        for u in &self.users {
                            if m.last(*u) == now {
                                let mut x = m.clone();
                                x.claimed_at.insert(*u, now - 1);
                                x.dist[*asset].insert(now, *amt);
                                let (lo, _) = x.due(*u, *asset);
                                let q = w.query(&c.stake, "query_withdrawable_rewards", vec![a(*u)]).unwrap();
                                let got: i128 = q.field("rewards").list()[0].field("reward_amount").i128();
                                o.check(big(got) >= lo, "claims/forfeited-at-same-time", || format!("{op:?}: {u} claimed earlier at the same timestamp and is offered {got} of this distribution, due are {lo}"));
                            }
                        }
                    }
                } else {
                    same = true;
                }
            }
            Op::Claim { who } => {
                let q = w.query(&c.stake, "query_withdrawable_rewards", vec![a(*who)]);
                let r = w.call(&c.stake, "withdraw_rewards", vec![a(*who)]);
                o.count("claim");
                o.check(r.is_ok(), "claims/refused", || format!("{op:?} was refused ({r:?})"));
                let l = q.map(|v| v.field("rewards").list()).unwrap_or_default();
                let bal = self.wallet(w, c, *who);
                for (k, &f) in m.flows.clone().iter().enumerate() {
                    let got = bal[1 + f] - m.wallet[who][1 + f];
                    let quoted = l.get(k).map(|x| x.field("reward_amount").i128());
                    o.eq(Some(got), quoted, "claims/quote", || format!("{op:?}: received of reward {f}, against the query before"));
                    let (lo, hi) = m.due(*who, f);
                    o.check(big(got) >= lo && big(got) <= hi, "rewards/paid", || format!("{op:?}: received {got} of reward {f}, due are {lo} to {hi}"));
                    m.paid[f] += got;
                    let x = m.wallet.get_mut(who).unwrap();
                    x[1 + f] += got;
                    if self.lp_is_reward && f == 0 {
                        x[0] += got;
                    }
                }
                m.claimed_at.insert(*who, now);
                // claiming again brings nothing
                if let Ok(v) = w.query(&c.stake, "query_withdrawable_rewards", vec![a(*who)]) {
                    for x in v.field("rewards").list() {
                        o.eq(x.field("reward_amount").i128(), 0, "claims/again", || format!("{op:?}: withdrawable right after claiming"));
                    }
                }
            }
        }
        m.now = w.ts();
        if !same {
            m.n += 1;
        }
        o.same = same;
        self.check_state(w, c, m, &format!("{op:?}"), o);
        let tags = self.tags;
        o.violations.retain(|v| tags.iter().any(|t| v.key.starts_with(t)));
    }
}

fn unbonds(m: &M, users: &[u8]) -> Vec<Op> {
    let mut v = vec![];
    for &u in users {
        for n in 0..m.of(u).len().min(3) {
            v.push(Op::Unbond { who: u, n });
        }
    }
    v
}

fn reward_ops(m: &M, amts: &[i128], bonds: &[i128]) -> Vec<Op> {
    let mut v = unbonds(m, &[U1, U2]);
    for u in [U1, U2] {
        for b in bonds {
            v.push(Op::Bond { who: u, amt: *b });
        }
        v.push(Op::Claim { who: u });
    }
    for x in amts {
        v.push(Op::Distribute { who: MGR, asset: 0, amt: *x });
    }
    v.extend([Op::Wait(DAY), Op::Wait(30 * DAY), Op::Wait(61 * DAY)]);
    v
}

fn custody(_t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["stake"];
    let base = |label, depth, users: Vec<u8>, lp_is_reward, f: fn(&M) -> Vec<Op>| -> Box<dyn Scenario> {
        Box::new(Stake { label, tags: T, users, fund: 1000, bonded: vec![], flows: vec![0], assets: 2, lp_is_reward, depth, alphabet: Box::new(f), special: false })
    };
    vec![
        base("bond-unbond", (5, 6), vec![U1, U2], false, |m| {
            let mut v = unbonds(m, &[U1, U2]);
            for u in [U1, U2] {
                v.push(Op::Bond { who: u, amt: 100 });
                v.push(Op::Bond { who: u, amt: 10 });
            }
            v.extend([Op::Bond { who: U1, amt: 9 }, Op::Bond { who: U1, amt: 1001 }, Op::Bond { who: U2, amt: -100 }, Op::Bond { who: U2, amt: 0 }]);
            v.extend([Op::UnbondWrong { who: U1, amt: 50, ts: m.now }, Op::UnbondWrong { who: U2, amt: 100, ts: m.now + 1 }, Op::UnbondWrong { who: U1, amt: 0, ts: m.now }]);
            for (u, o) in [(U1, U2), (U2, U1)] {
                if let Some(s) = m.of(o).first() {
                    v.push(Op::UnbondWrong { who: u, amt: s.0, ts: s.1 });
                }
                // both of the user's stakes at once, and a stake's amount at another's time
                if m.of(u).len() > 1 {
                    let l = m.of(u);
                    v.push(Op::UnbondWrong { who: u, amt: l[0].0 + l[1].0, ts: l[0].1 });
                    v.push(Op::UnbondWrong { who: u, amt: l[0].0, ts: l[1].1 });
                    v.push(Op::UnbondWrong { who: u, amt: l[1].0, ts: l[0].1 });
                }
            }
            v.push(Op::Wait(1));
            v
        }),
        Box::new(Stake {
            label: "many-stakes",
            tags: T,
            users: vec![U1],
            fund: 1000,
            bonded: vec![(U1, 11), (U1, 40), (U1, 13), (U1, 40), (U1, 17), (U1, 90), (U1, 23)],
            flows: vec![0],
            assets: 2,
            lp_is_reward: false,
            depth: (4, 5),
            special: false,
            alphabet: Box::new(|m| {
                let mut v: Vec<Op> = (0..m.of(U1).len()).map(|n| Op::Unbond { who: U1, n }).collect();
                v.extend([Op::Bond { who: U1, amt: 40 }, Op::Distribute { who: MGR, asset: 0, amt: 100_003 }, Op::Claim { who: U1 }, Op::Wait(31 * DAY)]);
                v
            }),
        }),
        base("with-rewards", (4, 5), vec![U1, U2], false, |m| reward_ops(m, &[1000], &[100, 37])),
        base("lp-token-as-reward", (4, 5), vec![U1, U2], true, |m| reward_ops(m, &[1000], &[100, 37])),
    ]
}

fn rewards(t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["rewards"];
    let mut v: Vec<Box<dyn Scenario>> = vec![
        Box::new(Stake { label: "two-stakers", tags: T, users: vec![U1, U2], fund: 1000, bonded: vec![(U1, 100)], flows: vec![0], assets: 2, lp_is_reward: false, depth: (5, 6), special: false, alphabet: Box::new(|m| reward_ops(m, &[1000], &[50])) }),
        Box::new(Stake { label: "lp-token-as-reward", tags: T, users: vec![U1, U2], fund: 1000, bonded: vec![(U1, 100)], flows: vec![0, 1], assets: 2, lp_is_reward: true, depth: (4, 5), special: false, alphabet: Box::new(|m| {
            let mut v = reward_ops(m, &[1000], &[50]);
            v.push(Op::Distribute { who: MGR, asset: 1, amt: 500 });
            v
        }) }),
        Box::new(Stake {
            label: "many-rewards",
            tags: T,
            users: vec![U1, U2],
            fund: 1000,
            bonded: vec![(U1, 100), (U2, 37)],
            flows: vec![],
            assets: 6,
            lp_is_reward: false,
            depth: (11, 13),
            special: false,
            alphabet: Box::new(|m| {
                let f = m.flows.len();
                if f < 6 {
                    return vec![Op::Create { who: MGR, asset: [3, 0, 5, 1, 4, 2][f] }];
                }
                if m.n == 6 {
                    return vec![Op::Wait(70 * DAY)];
                }
                let mut v: Vec<Op> = (0..6).map(|k| Op::Distribute { who: MGR, asset: k, amt: 1_000 + 100 * k as i128 }).collect();
                v.extend([Op::Claim { who: U1 }, Op::Claim { who: U2 }, Op::Wait(DAY)]);
                v
            }),
        }),
        Box::new(Stake {
            label: "many-stakes",
            tags: T,
            users: vec![U1],
            fund: 1000,
            bonded: vec![(U1, 11), (U1, 40), (U1, 13), (U1, 40), (U1, 17), (U1, 90), (U1, 23)],
            flows: vec![0],
            assets: 2,
            lp_is_reward: false,
            depth: (4, 5),
            special: false,
            alphabet: Box::new(|m| {
                let mut v: Vec<Op> = (0..m.of(U1).len()).map(|n| Op::Unbond { who: U1, n }).collect();
                v.extend([Op::Bond { who: U1, amt: 40 }, Op::Distribute { who: MGR, asset: 0, amt: 100_003 }, Op::Claim { who: U1 }, Op::Wait(31 * DAY)]);
                v
            }),
        }),
        Box::new(Stake {
            label: "same-moment",
            tags: T,
            users: vec![U1, U2],
            fund: 1000,
            bonded: vec![(U1, 100), (U2, 37)],
            flows: vec![0, 1],
            assets: 2,
            lp_is_reward: false,
            depth: (5, 6),
            special: false,
            alphabet: Box::new(|m| {
                if m.n == 0 {
                    return vec![Op::Wait(90 * DAY)];
                }
                let mut v = unbonds(m, &[U1, U2]);
                v.extend([Op::Bond { who: U1, amt: 61 }, Op::Bond { who: U2, amt: 1000 - 37 }]);
                for asset in [0, 1] {
                    v.push(Op::Distribute { who: MGR, asset, amt: 777 });
                }
                v.extend([Op::Distribute { who: OWNER, asset: 0, amt: 1 }, Op::Distribute { who: U1, asset: 1, amt: 10 }, Op::Distribute { who: MGR, asset: 0, amt: -7 }, Op::Distribute { who: MGR, asset: 0, amt: 0 }]);
                v.extend([Op::Claim { who: U1 }, Op::Claim { who: U2 }, Op::Wait(1)]);
                v
            }),
        }),
        Box::new(Stake {
            label: "flows",
            tags: T,
            users: vec![U1, U2],
            fund: 1000,
            bonded: vec![(U1, 100), (U2, 200)],
            flows: vec![],
            assets: 2,
            lp_is_reward: false,
            depth: (4, 5),
            special: false,
            alphabet: Box::new(|_| {
                let mut v = vec![Op::Wait(40 * DAY), Op::Claim { who: U1 }, Op::Claim { who: U2 }];
                for asset in [0, 1] {
                    for who in [MGR, OWNER, U1, ADMIN] {
                        v.push(Op::Create { who, asset });
                    }
                    v.push(Op::Distribute { who: MGR, asset, amt: 1001 });
                    v.push(Op::Distribute { who: OWNER, asset, amt: 50 });
                }
                v.push(Op::Distribute { who: U1, asset: 1, amt: 50 });
                v.push(Op::Bond { who: U1, amt: 11 });
                v
            }),
        }),
        Box::new(Stake {
            label: "from-many-to-few-and-back",
            tags: T,
            users: vec![U1, U2],
            fund: 10_000,
            bonded: vec![(U1, 9_000), (U2, 37)],
            flows: vec![0],
            assets: 2,
            lp_is_reward: false,
            depth: (5, 6),
            special: false,
            alphabet: Box::new(|m| {
                if m.n == 0 {
                    return vec![Op::Wait(61 * DAY)];
                }
                let mut v = unbonds(m, &[U1, U2]);
                v.extend([Op::Bond { who: U2, amt: 11 }, Op::Bond { who: U2, amt: 9_500 }]);
                v.extend([Op::Distribute { who: MGR, asset: 0, amt: 10_007 }, Op::Claim { who: U1 }, Op::Claim { who: U2 }, Op::Wait(60 * DAY)]);
                v
            }),
        }),
        Box::new(Stake {
            label: "large-amounts",
            tags: T,
            users: vec![U1, U2],
            fund: 1_000_000_000_000_000_000,
            bonded: vec![(U1, 900_000_000_000_000_001), (U2, 13)],
            flows: vec![0],
            assets: 2,
            lp_is_reward: false,
            depth: (3, 4),
            special: false,
            alphabet: Box::new(|m| reward_ops(m, &[50_000_000_000_000_003, 1], &[70_000_000_000_000_007])),
        }),
    ];
    // the age of a stake, day by day and around the edges of days
    let step = if t == Tier::Quick { 1 } else { 1 };
    v.push(Box::new(Stake {
        label: "every-age",
        tags: T,
        users: vec![U1, U2],
        fund: 10_000,
        bonded: vec![(U1, 7001), (U2, 1999)],
        flows: vec![0],
        assets: 2,
        lp_is_reward: false,
        depth: (3, 3),
        special: false,
        alphabet: Box::new(move |m| {
            if m.n == 0 {
                let mut v = vec![];
                for d in (0..75u64).step_by(step) {
                    v.push(Op::Wait(d * DAY));
                    v.push(Op::Wait(d * DAY + 1));
                    if d > 0 {
                        v.push(Op::Wait(d * DAY - 1));
                    }
                }
                v.push(Op::Wait(1000 * DAY));
                v
            } else if m.n == 1 {
                vec![Op::Distribute { who: MGR, asset: 0, amt: 100_003 }, Op::Distribute { who: MGR, asset: 0, amt: 61 }]
            } else {
                vec![Op::Claim { who: U1 }, Op::Claim { who: U2 }]
            }
        }),
    }));
    v
}

fn claims(_t: Tier) -> Vec<Box<dyn Scenario>> {
    // a claim that is not paid is lost, and one that is paid to a newcomer is not theirs
    const T: &[&str] = &["claims", "rewards/due", "rewards/paid"];
    vec![
        Box::new(Stake { label: "lp-token-as-reward", tags: T, users: vec![U1, U2], fund: 1000, bonded: vec![(U1, 100)], flows: vec![1, 0], assets: 2, lp_is_reward: true, depth: (4, 5), special: false, alphabet: Box::new(|m| {
            let mut v = reward_ops(m, &[1000], &[50]);
            v.push(Op::Distribute { who: MGR, asset: 1, amt: 500 });
            v
        }) }),
        Box::new(Stake { label: "three-stakers", tags: T, users: vec![U1, U2, U3], fund: 1000, bonded: vec![(U1, 100), (U3, 300)], flows: vec![0, 1], assets: 2, lp_is_reward: false, depth: (4, 5), special: false, alphabet: Box::new(|m| {
            let mut v = reward_ops(m, &[1000], &[50]);
            v.push(Op::Claim { who: U3 });
            v.push(Op::Distribute { who: MGR, asset: 1, amt: 500 });
            v.push(Op::Wait(3600));
            v
        }) }),
        Box::new(Stake {
            label: "many-rewards",
            tags: T,
            users: vec![U1, U2],
            fund: 1000,
            bonded: vec![(U1, 100), (U2, 37)],
            flows: vec![],
            assets: 6,
            lp_is_reward: false,
            depth: (11, 13),
            special: false,
            alphabet: Box::new(|m| {
                let f = m.flows.len();
                if f < 6 {
                    return vec![Op::Create { who: MGR, asset: [3, 0, 5, 1, 4, 2][f] }];
                }
                if m.n == 6 {
                    return vec![Op::Wait(70 * DAY)];
                }
                let mut v: Vec<Op> = (0..6).map(|k| Op::Distribute { who: MGR, asset: k, amt: 1_000 + 100 * k as i128 }).collect();
                v.extend([Op::Claim { who: U1 }, Op::Claim { who: U2 }, Op::Wait(DAY)]);
                v
            }),
        }),
        Box::new(Stake {
            label: "many-stakes",
            tags: T,
            users: vec![U1],
            fund: 1000,
            bonded: vec![(U1, 11), (U1, 40), (U1, 13), (U1, 40), (U1, 17), (U1, 90), (U1, 23)],
            flows: vec![0],
            assets: 2,
            lp_is_reward: false,
            depth: (4, 5),
            special: false,
            alphabet: Box::new(|m| {
                let mut v: Vec<Op> = (0..m.of(U1).len()).map(|n| Op::Unbond { who: U1, n }).collect();
                v.extend([Op::Bond { who: U1, amt: 40 }, Op::Distribute { who: MGR, asset: 0, amt: 100_003 }, Op::Claim { who: U1 }, Op::Wait(31 * DAY)]);
                v
            }),
        }),
        Box::new(Stake { label: "newcomers", tags: T, users: vec![U1, U2], fund: 1000, bonded: vec![(U1, 100)], flows: vec![0], assets: 2, lp_is_reward: false, depth: (5, 6), special: false, alphabet: Box::new(|m| {
            let mut v = vec![Op::Bond { who: U2, amt: 10 }, Op::Bond { who: U2, amt: 500 }, Op::Claim { who: U2 }, Op::Claim { who: U1 }, Op::Distribute { who: MGR, asset: 0, amt: 333 }, Op::Wait(DAY), Op::Wait(1)];
            v.extend(unbonds(m, &[U1, U2]));
            v
        }) }),
        Box::new(Stake { label: "known-claim-then-distribution", tags: T, users: vec![U1], fund: 1000, bonded: vec![(U1, 100)], flows: vec![0], assets: 2, lp_is_reward: false, depth: (3, 3), special: true, alphabet: Box::new(|m| match m.n {
            0 => vec![Op::Wait(90 * DAY)],
            1 => vec![Op::Claim { who: U1 }],
            _ => vec![Op::Distribute { who: MGR, asset: 0, amt: 1000 }],
        }) }),
    ]
}
