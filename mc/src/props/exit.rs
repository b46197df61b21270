//! Pools of both kinds made by the factory, with their staking contracts, rewards, routes, settings,
//! donations and time: in every state everybody leaves, one after the other, in several orders.
use super::factory::Ask;
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use num_bigint::BigInt;
use soroban_env_host::xdr::ScVal;
use std::collections::BTreeMap;

pub fn properties() -> Vec<Property> {
    vec![Property { id: "P31", scenarios, assumptions: host_assumptions }]
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Provide(u8, usize, i128, i128),
    Swap(u8, usize, bool, i128),
    /// Through the multihop contract.
    Route(u8, usize, bool, i128),
    /// a third, a half, all of the shares
    Withdraw(u8, usize, i128),
    Bond(u8, usize, i128),
    Unbond(u8, usize, usize),
    Claim(u8, usize),
    /// A flow of rewards in the token for rewards, or in the shares themselves.
    Flow(usize, bool),
    Distribute(usize, bool, i128),
    Wait(u64),
    /// fee, slippage, spread
    Settings(usize, i64, i64, i64),
    /// Tokens or shares given to a pool or its staking contract.
    Give(usize, Gift, i128),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Gift {
    TokenToPool,
    ShareToPool,
    ShareToStaking,
    TokenToStaking,
}
struct Exit {
    label: &'static str,
    init: [(i128, i128); 2],
    tier: Tier,
    depth: (usize, usize),
    begin: Vec<Op>,
    alphabet: fn(&M) -> Vec<Op>,
}
struct C {
    t: Vec<Addr>,
    reward: Addr,
    hop: Addr,
    pools: Vec<Pool>,
    /// The pools that are used, all tokens that are, and everybody who has any.
    used: Vec<usize>,
    tokens: Vec<Addr>,
    holders: Vec<Addr>,
}
#[derive(Clone, Debug)]
struct M {
    stakes: BTreeMap<(u8, usize), Vec<(i128, u64)>>,
    flows: Vec<(usize, bool)>,
    /// the least of all shares that are locked, and what all tokens sum up to
    supply: Vec<i128>,
}
impl M {
    fn of(&self, u: u8, p: usize) -> Vec<(i128, u64)> {
        self.stakes.get(&(u, p)).cloned().unwrap_or_default()
    }
}
const STABLE: usize = 1;

impl Exit {
    fn supply(w: &World, c: &C) -> Vec<i128> {
        c.tokens.iter().map(|t| c.holders.iter().map(|h| w.balance(t, h)).sum()).collect()
    }
    fn info(w: &World, p: &Pool) -> (i128, i128, i128) {
        let q = w.query(&p.addr, "query_pool_info", vec![]).unwrap_or(ScVal::Void);
        let f = |k: &str| q.try_field(k).map_or(-1, |x| x.field("amount").i128());
        (f("asset_a"), f("asset_b"), f("asset_lp_share"))
    }
    fn shares(w: &World, p: &Pool, u: u8) -> i128 {
        w.balance(&p.lp, &actor(u))
    }

    /// Everybody takes out everything they have.
    fn leave(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str, users: &[u8], claim_first: bool, backwards: bool) {
        for u in users {
            for n in &c.used {
                let (n, p) = (*n, &c.pools[*n]);
                let who = || format!("after {after}, leaving in the order {users:?}: {u} at pool {n}");
                let mut stakes = m.of(*u, n);
                if stakes.is_empty() && Exit::shares(w, p, *u) == 0 {
                    continue;
                }
                let q = w.query(&p.stake, "query_staked", vec![a(*u)]);
                let known: Vec<(i128, u64)> = q.map(|v| v.field("stakes").list().iter().map(|s| (s.field("stake").i128(), s.field("stake_timestamp").u64())).collect()).unwrap_or_default();
                let (mut x, mut y) = (known.clone(), stakes.clone());
                x.sort();
                y.sort();
                o.eq(x, y, "exit/stakes", || format!("{}: stakes known", who()));
                let claim = |o: &mut Out| {
                    let r = w.call(&p.stake, "withdraw_rewards", vec![a(*u)]);
                    o.check(r.is_ok(), "exit/claim", || format!("{}: claim of rewards refused ({r:?})", who()));
                };
                if claim_first {
                    claim(o);
                }
                if backwards {
                    stakes.reverse();
                }
                for (s, at) in stakes {
                    let had = Exit::shares(w, p, *u);
                    let r = w.call(&p.stake, "unbond", vec![a(*u), i128v(s), u64v(at)]);
                    o.check(r.is_ok(), "exit/unbond", || format!("{}: unbonding of {s} staked at {at} refused ({r:?})", who()));
                    o.eq(Exit::shares(w, p, *u) - had, s, "exit/stake-back", || format!("{}: shares given back", who()));
                    o.count("unbond");
                }
                if !claim_first {
                    claim(o);
                }
                let (ra, rb, all) = Exit::info(w, p);
                let lp = Exit::shares(w, p, *u);
                if lp == 0 {
                    continue;
                }
                let part = |r: i128| -> BigInt { big(r) * lp / all };
                let (ma, mb) = (part(ra), part(rb));
                let had = (w.balance(&p.a, &actor(*u)), w.balance(&p.b, &actor(*u)));
                let r = w.call(&p.addr, "withdraw_liquidity", vec![a(*u), i128v(lp), i128v(1), i128v(1), void()]);
                if r.is_err() {
                    // less than a unit (and what rounding takes) of one of the tokens
                    o.check(ma <= big(1) || mb <= big(1), "exit/withdraw", || format!("{}: withdrawal of {lp} of {all} shares, worth {ma} and {mb}, refused ({r:?})", who()));
                    o.count("shares worth nothing");
                    continue;
                }
                let got = (w.balance(&p.a, &actor(*u)) - had.0, w.balance(&p.b, &actor(*u)) - had.1);
                for (g, x, what) in [(got.0, &ma, "a"), (got.1, &mb, "b")] {
                    // the ratio is rounded to 10^-18
                    let fine: BigInt = 1 + x / 1_000_000_000_000_000_000i128 + big(if what == "a" { ra } else { rb }) / 1_000_000_000_000_000_000i128;
                    o.check(big(g) <= *x && big(g) >= x - fine, "exit/paid", || format!("{}: {g} of token {what} paid for {lp} of {all} shares, reserves {ra} and {rb}", who()));
                }
                o.count("withdrawal");
            }
        }
        for n in &c.used {
            let (n, p) = (*n, &c.pools[*n]);
            let left: i128 = m.stakes.iter().filter(|((u, q), _)| *q == n && !users.contains(u)).flat_map(|(_, s)| s.iter().map(|x| x.0)).sum();
            let staked = w.query(&p.stake, "query_total_staked", vec![]).map_or(-1, |v| v.i128());
            o.eq(staked, left, "exit/total-staked", || format!("after {after}, everybody left: total staked of pool {n}"));
            let (ra, rb, all) = Exit::info(w, p);
            let held: i128 = c.holders.iter().map(|h| w.balance(&p.lp, h)).sum();
            o.eq(held, all, "exit/shares", || format!("after {after}, everybody left: shares in all hands, and all there are, of pool {n}"));
            for (r, t) in [(ra, &p.a), (rb, &p.b)] {
                let b = w.balance(t, &p.addr);
                o.check(r >= 0 && b >= r, "exit/reserves", || format!("after {after}, everybody left: pool {n} counts on {r} and has {b}"));
            }
        }
    }
    fn judge(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        for (users, claim_first, backwards, wait) in [(&[U1, U2, U3][..], true, false, 0), (&[U3, U2, MGR, U1, ADMIN], false, true, 61 * DAY), (&[U2, ADMIN, MGR, U1, U3], true, true, 1)] {
            if self.tier == Tier::Quick && wait == 1 {
                continue;
            }
            let s = w.snapshot();
            if wait > 0 {
                w.advance(wait);
            }
            self.leave(w, c, m, o, after, users, claim_first, backwards);
            if wait == 0 {
                o.eq(Exit::supply(w, c), m.supply.clone(), "exit/conservation", || format!("after {after}, everybody left: the sum of all balances of each token"));
            }
            w.restore(&s);
        }
    }
}

impl Spec for Exit {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        self.label.into()
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.depth.0 } else { self.depth.1 }
    }
    fn setup(&self, w: &World) -> C {
        let [pool, stake, tok, stable] = ["phoenix_pool", "phoenix_stake", "soroban_token_contract", "phoenix_pool_stable"].map(|n| w.upload(n));
        let fac = w.upload("phoenix_factory");
        let hop = w.upload("phoenix_multihop");
        let mut t: Vec<Addr> = (1..=3).map(|n| token(w, tok, n, 7)).collect();
        t.sort();
        let reward = token(w, tok, 4, 7);
        for x in t.iter().chain([&reward]) {
            for u in [U1, U2, U3, ADMIN, MGR] {
                mint(w, x, u, 1_000_000_000_000_000);
            }
        }
        let f = w.create(fac, 77, vec![]);
        w.call(&f, "initialize", vec![a(ADMIN), bytes(&hop), bytes(&pool), bytes(&stable), bytes(&stake), bytes(&tok), vecv(vec![a(ADMIN)]), u32v(7)]).expect("factory initialize");
        let hop = w.call(&f, "get_config", vec![]).unwrap().field("multihop_address").address();
        let mut pools = vec![];
        for n in 0..2 {
            let st = n == STABLE;
            let k = Ask { fee: 100, slip: 10_000, def_slip: 10_000, spread: 10_000, amp: st.then_some(50), admin: ADMIN, ..Ask::new(n, n + 1, st) };
            let p = w
                .call(&f, "create_liquidity_pool", vec![a(ADMIN), k.info(&t), string("Share"), string("SHR"), u32v(st as u32), opt(k.amp, u64v), i64v(k.def_slip), i64v(10_000)])
                .expect("create_liquidity_pool")
                .address();
            let cfg = w.query(&p, "query_config", vec![]).unwrap();
            let p = Pool { addr: p, a: t[n].clone(), b: t[n + 1].clone(), lp: cfg.field("share_token").address(), stake: cfg.field("stake_contract").address(), dec: (7, 7), lp_dec: 7 };
            let (x, y) = self.init[n];
            if x > 0 {
                provide(w, st, &p, ADMIN, x, y).expect("provide");
                // the shares of the others are only their own
                let all = Exit::shares(w, &p, ADMIN);
                for (u, k) in [(U1, 3), (U2, 5), (MGR, 20)] {
                    w.call(&p.lp, "transfer", vec![a(ADMIN), a(u), i128v(all / k)]).expect("transfer");
                }
            }
            pools.push(p);
        }
        let mut holders: Vec<Addr> = [ADMIN, U1, U2, U3, FEE, MGR].map(actor).to_vec();
        holders.push(hop.clone());
        let used: Vec<usize> = (0..2).filter(|n| self.init[*n].0 > 0).collect();
        let mut tokens = vec![reward.clone()];
        for n in &used {
            let p = &pools[*n];
            holders.extend([p.addr.clone(), p.stake.clone()]);
            tokens.extend([p.a.clone(), p.b.clone()]);
        }
        tokens.sort();
        tokens.dedup();
        C { t, reward, hop, pools, used, tokens, holders }
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        let mut m = M { stakes: BTreeMap::new(), flows: vec![], supply: Exit::supply(w, c) };
        for op in &self.begin {
            self.act(w, c, &mut m, op, o);
            assert!(!o.same, "{op:?} refused at the start");
        }
        self.judge(w, c, &m, o, "the start");
        m
    }
    fn key(&self, m: &M) -> String {
        format!("{:?}", (&m.stakes, &m.flows))
    }
    fn ops(&self, _c: &C, m: &M) -> Vec<Op> {
        (self.alphabet)(m)
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        self.act(w, c, m, op, o);
        if !o.same && o.violations.is_empty() {
            self.judge(w, c, m, o, &format!("{op:?}"));
        }
    }
}
impl Exit {
    fn act(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let now = w.ts();
        let reward = |n: usize, lp: bool| if lp { c.pools[n].lp.clone() } else { c.reward.clone() };
        let r = match op {
            Op::Provide(u, n, x, y) => provide(w, *n == STABLE, &c.pools[*n], *u, *x, *y),
            Op::Swap(u, n, a2b, x) => {
                let p = &c.pools[*n];
                swap(w, &p.addr, *u, if *a2b { &p.a } else { &p.b }, *x)
            }
            Op::Route(u, n, forth, x) => {
                let (s, b) = if *forth { (*n, n + 1) } else { (n + 1, *n) };
                let one = structv(vec![("ask_asset", addr(&c.t[b])), ("ask_asset_min_amount", void()), ("offer_asset", addr(&c.t[s]))]);
                w.call(&c.hop, "swap", vec![a(*u), vecv(vec![one]), void(), i128v(*x), u32v((*n == STABLE) as u32), void(), void()])
            }
            Op::Withdraw(u, n, part) => {
                let p = &c.pools[*n];
                w.call(&p.addr, "withdraw_liquidity", vec![a(*u), i128v(Exit::shares(w, p, *u) / part), i128v(1), i128v(1), void()])
            }
            Op::Bond(u, n, part) => {
                let p = &c.pools[*n];
                let x = Exit::shares(w, p, *u) / part;
                let r = w.call(&p.stake, "bond", vec![a(*u), i128v(x)]);
                if r.is_ok() {
                    m.stakes.entry((*u, *n)).or_default().push((x, now));
                }
                r
            }
            Op::Unbond(u, n, i) => match m.of(*u, *n).get(*i) {
                Some((x, at)) => {
                    m.stakes.get_mut(&(*u, *n)).unwrap().remove(*i);
                    w.call(&c.pools[*n].stake, "unbond", vec![a(*u), i128v(*x), u64v(*at)])
                }
                None => Err(CallErr::Other),
            },
            Op::Claim(u, n) => w.call(&c.pools[*n].stake, "withdraw_rewards", vec![a(*u)]),
            Op::Flow(n, lp) => {
                let r = w.call(&c.pools[*n].stake, "create_distribution_flow", vec![a(MGR), addr(&reward(*n, *lp))]);
                if r.is_ok() {
                    m.flows.push((*n, *lp));
                }
                r
            }
            Op::Distribute(n, lp, x) => w.call(&c.pools[*n].stake, "distribute_rewards", vec![a(MGR), i128v(*x), addr(&reward(*n, *lp))]),
            Op::Wait(s) => {
                w.advance(*s);
                Ok(ScVal::Void)
            }
            Op::Settings(n, fee, slip, spread) => {
                let mut args = vec![void(), i64v(*fee), void(), i64v(*slip), i64v(*spread)];
                if *n == STABLE {
                    args.insert(0, a(ADMIN));
                } else {
                    args.push(void());
                }
                w.call(&c.pools[*n].addr, "update_config", args)
            }
            Op::Give(n, g, x) => {
                let p = &c.pools[*n];
                let (t, to) = match g {
                    Gift::TokenToPool => (&p.b, &p.addr),
                    Gift::ShareToPool => (&p.lp, &p.addr),
                    Gift::ShareToStaking => (&p.lp, &p.stake),
                    Gift::TokenToStaking => (&c.reward, &p.stake),
                };
                w.call(t, "transfer", vec![a(MGR), addr(to), i128v(*x)])
            }
        };
        let kind = format!("{op:?}");
        let kind = kind.split('(').next().unwrap().to_string();
        o.count(format!("{kind}{}", if r.is_ok() { "" } else { " refused" }));
        o.same = r.is_err();
    }
}

fn alphabet(m: &M, pools: &[usize], unit: i128) -> Vec<Op> {
    let mut v = vec![];
    for n in pools {
        let n = *n;
        v.extend([Op::Provide(U1, n, unit * 3, unit * 4), Op::Provide(U3, n, unit, unit * 3 / 2)]);
        v.extend([Op::Swap(U1, n, true, unit * 2), Op::Swap(U2, n, false, unit * 7 + 1)]);
        v.extend([Op::Withdraw(U1, n, 3), Op::Withdraw(U2, n, 1)]);
        v.extend([Op::Bond(U1, n, 2), Op::Bond(U2, n, 1), Op::Bond(U1, n, 7)]);
        for u in [U1, U2] {
            for i in 0..m.of(u, n).len().min(2) {
                v.push(Op::Unbond(u, n, i));
            }
            if !m.of(u, n).is_empty() && m.flows.iter().any(|f| f.0 == n) {
                v.push(Op::Claim(u, n));
            }
        }
        for lp in [false, true] {
            if m.flows.contains(&(n, lp)) {
                v.extend([Op::Distribute(n, lp, 1_000), Op::Distribute(n, lp, 7)]);
            } else {
                v.push(Op::Flow(n, lp));
            }
        }
        v.extend([Op::Settings(n, 10_000, 0, 0), Op::Settings(n, 0, 10_000, 10_000)]);
        v.extend([Op::Give(n, Gift::TokenToPool, unit), Op::Give(n, Gift::ShareToPool, 50), Op::Give(n, Gift::ShareToStaking, 50), Op::Give(n, Gift::TokenToStaking, 99)]);
    }
    v.extend([Op::Wait(7 * DAY), Op::Wait(60 * DAY)]);
    for n in pools {
        v.extend([Op::Route(U2, *n, true, unit), Op::Route(U1, *n, false, unit * 3)]);
    }
    v
}

/// What concerns the staking.
fn staking(m: &M, pools: &[usize], unit: i128) -> Vec<Op> {
    let swap = |op: &Op| matches!(op, Op::Swap(U2, ..) | Op::Withdraw(..) | Op::Bond(..) | Op::Unbond(..) | Op::Claim(..) | Op::Flow(..) | Op::Distribute(..) | Op::Wait(..) | Op::Give(_, Gift::ShareToStaking | Gift::TokenToStaking, _));
    alphabet(m, pools, unit).into_iter().filter(swap).collect()
}

fn scenarios(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let none = (0, 0);
    let (small, large) = ((90_000, 120_000), (7_000_000_000_003, 5_000_000_000_000));
    let flows = |n: usize| vec![Op::Flow(n, false), Op::Flow(n, true), Op::Bond(U1, n, 2), Op::Bond(U2, n, 3), Op::Wait(11 * DAY), Op::Distribute(n, false, 10_007), Op::Distribute(n, true, 101)];
    let e = |label, init, depth, begin, alphabet| Box::new(Exit { label, init, tier, depth, begin, alphabet }) as Box<dyn Scenario>;
    vec![
        e("constant product, small", [small, none], (2, 4), vec![], |m| alphabet(m, &[0], 1_000)),
        e("constant product, large", [large, none], (2, 4), vec![], |m| alphabet(m, &[0], 100_000_000_007)),
        e("constant product, with rewards", [small, none], (3, 4), flows(0), |m| staking(m, &[0], 1_000)),
        e("stable, small", [none, small], (2, 4), vec![], |m| alphabet(m, &[1], 1_000)),
        e("stable, large", [none, large], (2, 4), vec![], |m| alphabet(m, &[1], 100_000_000_007)),
        e("stable, with rewards", [none, small], (2, 4), flows(1), |m| staking(m, &[1], 1_000)),
        e("both, with rewards", [small, large], (2, 3), [flows(0), flows(1)].concat(), |m| alphabet(m, &[0, 1], 5_000)),
    ]
}
