//! What the contracts publish. Every call to every contract of a system in use, and histories of
//! pools, with everything that was published compared with what happened.
use super::amm::{pr, sw, wd, Amm, Op as A};
use super::auth::{Auth, Call, When, C, K};
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use soroban_env_host::xdr::{LedgerKey, Limits, ReadXdr, ScVal};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn properties() -> Vec<Property> {
    vec![Property { id: "P30", scenarios, assumptions: host_assumptions }]
}

pub type Bal = BTreeMap<(usize, Addr), i128>;

fn words(e: &Event) -> Option<(String, String)> {
    match (e.topics.first(), e.topics.get(1)) {
        (Some(ScVal::String(_)), Some(ScVal::String(_))) => Some((e.topics[0].text(), e.topics[1].text())),
        _ => None,
    }
}
/// The data of all events of a contract under these two topics, in their order.
pub fn told(evs: &[Event], by: &Addr, group: &str, what: &str) -> Vec<ScVal> {
    evs.iter().filter(|e| e.by == *by && words(e).map_or(false, |(g, w)| g == group && w == what)).map(|e| e.data.clone()).collect()
}
fn list(v: &[ScVal]) -> String {
    show(&vecv(v.to_vec()))
}
/// Each of these was published exactly so often, with these values.
pub fn expect(o: &mut Out, evs: &[Event], by: &Addr, group: &str, want: &[(&str, Vec<ScVal>)], what: &dyn Fn() -> String) {
    for (k, v) in want {
        let t = told(evs, by, group, k);
        o.check(t == *v, "event/wrong", || format!("{}: published ({group}, {k}) {}, happened {}", what(), list(&t), list(v)));
    }
}

/// What the events of a token say.
#[derive(Debug, Clone, PartialEq)]
enum Move {
    Transfer(Addr, Addr, i128),
    Mint(Addr, i128),
    Burn(Addr, i128),
}
fn moves(evs: &[Event], token: &Addr) -> Vec<Move> {
    let mut v = vec![];
    for e in evs.iter().filter(|e| e.by == *token) {
        let ScVal::Symbol(_) = &e.topics[0] else { continue };
        let at = |i: usize| e.topics[i].address();
        match e.topics[0].text().as_str() {
            "transfer" => v.push(Move::Transfer(at(1), at(2), e.data.i128())),
            "mint" => v.push(Move::Mint(at(2), e.data.i128())),
            "burn" | "clawback" => v.push(Move::Burn(at(1), e.data.i128())),
            _ => {}
        }
    }
    v
}

/// The transfers, mints and burns that tokens report make up the change of all balances.
pub fn replay(o: &mut Out, evs: &[Event], tokens: &[Addr], before: &Bal, after: &Bal, what: &dyn Fn() -> String) {
    let mut net: BTreeMap<(usize, Addr), i128> = BTreeMap::new();
    for (n, t) in tokens.iter().enumerate() {
        for m in moves(evs, t) {
            let mut add = |a: Addr, x: i128| *net.entry((n, a)).or_default() += x;
            match m {
                Move::Transfer(f, t, x) => {
                    add(f, -x);
                    add(t, x);
                }
                Move::Mint(t, x) => add(t, x),
                Move::Burn(f, x) => add(f, -x),
            }
        }
    }
    for (k, was) in before {
        let d = net.remove(k).unwrap_or(0);
        let is = after[k];
        o.check(was + d == is, "event/token", || format!("{}: by what token {} published, {} has {d} more; it had {was}, has {is}", what(), k.0, short(&k.1)));
    }
    // nobody else is looked at, but for a pool that was just made
    let _ = net;
}

/// Every swap a pool reports is two transfers that took place, and every payment out of a pool is
/// reported.
pub fn pool_tells(o: &mut Out, evs: &[Event], p: &Pool, stable: bool, what: &dyn Fn() -> String) -> usize {
    let g = |k: &str| told(evs, &p.addr, "swap", k);
    let (who, sell, offer, buy, ret) = (g("sender"), g("sell_token"), g("offer_amount"), g("buy_token"), g("return_amount"));
    let n = who.len();
    let mut same = [sell.len(), offer.len(), buy.len(), ret.len(), g("spread_amount").len()].to_vec();
    if !stable {
        same.extend([g("actual received amount").len(), g("referral_fee_amount").len()]);
        o.check(g("actual received amount") == offer, "event/swap", || format!("{}: offered {}, received {}", what(), list(&offer), list(&g("actual received amount"))));
    }
    if same.iter().any(|x| *x != n) {
        o.fail("event/swap", format!("{}: {n} swaps are published by {} with {same:?} values each", what(), short(&p.addr)));
        return n;
    }
    let mut out: Vec<(Addr, Addr, i128)> = vec![];
    let mut inn: Vec<(Addr, Addr, i128)> = vec![];
    for t in [&p.a, &p.b] {
        for m in moves(evs, t) {
            if let Move::Transfer(f, to, x) = m {
                if f == p.addr {
                    out.push((t.clone(), to.clone(), x));
                }
                if to == p.addr {
                    inn.push((t.clone(), f, x));
                }
            }
        }
    }
    let mut take = |l: &mut Vec<(Addr, Addr, i128)>, x: (Addr, Addr, i128), dir: &str| match l.iter().position(|y| *y == x) {
        Some(i) => {
            l.remove(i);
        }
        None => o.fail("event/swap", format!("{}: {} publishes {} of {} {dir} {}, but there was no such transfer", what(), short(&p.addr), x.2, short(&x.0), short(&x.1))),
    };
    for i in 0..n {
        take(&mut inn, (sell[i].address(), who[i].address(), offer[i].i128()), "from");
        take(&mut out, (buy[i].address(), who[i].address(), ret[i].i128()), "to");
    }
    for x in told(evs, &p.addr, "withdraw_liquidity", "sender") {
        for (t, k) in [(&p.a, "return_amount_a"), (&p.b, "return_amount_b")] {
            for amt in told(evs, &p.addr, "withdraw_liquidity", k) {
                take(&mut out, (t.clone(), x.address(), amt.i128()), "to");
            }
        }
    }
    o.check(out.len() <= n, "event/swap", || format!("{}: {} makes {} payments besides those it publishes with {n} swaps", what(), short(&p.addr), out.len()));
    n
}

/// For the histories of a pool (amm.rs).
pub fn swapped(o: &mut Out, evs: &[Event], p: &Pool, stable: bool, who: u8, a2b: bool, amt: i128, got: i128, spread: i128, what: &dyn Fn() -> String) {
    let (s, b) = if a2b { (&p.a, &p.b) } else { (&p.b, &p.a) };
    let mut want = vec![
        ("sender", vec![a(who)]),
        ("sell_token", vec![addr(s)]),
        ("offer_amount", vec![i128v(amt)]),
        ("buy_token", vec![addr(b)]),
        ("return_amount", vec![i128v(got)]),
        ("spread_amount", vec![i128v(spread)]),
    ];
    if !stable {
        want.extend([("actual received amount", vec![i128v(amt)]), ("referral_fee_amount", vec![i128v(0)])]);
    }
    expect(o, evs, &p.addr, "swap", &want, what);
}
pub fn provided(o: &mut Out, evs: &[Event], p: &Pool, who: u8, sa: i128, sb: i128, what: &dyn Fn() -> String) {
    let want = [("sender", vec![a(who)]), ("token_a", vec![addr(&p.a)]), ("token_a-amount", vec![i128v(sa)]), ("token_b", vec![addr(&p.b)]), ("token_b-amount", vec![i128v(sb)])];
    expect(o, evs, &p.addr, "provide_liquidity", &want, what);
}
pub fn withdrawn(o: &mut Out, evs: &[Event], p: &Pool, who: u8, shares: i128, ga: i128, gb: i128, what: &dyn Fn() -> String) {
    let want = [("sender", vec![a(who)]), ("shares_amount", vec![i128v(shares)]), ("return_amount_a", vec![i128v(ga)]), ("return_amount_b", vec![i128v(gb)])];
    expect(o, evs, &p.addr, "withdraw_liquidity", &want, what);
}

// ---- the whole system

struct System {
    when: When,
    depth: (usize, usize),
    tier: Tier,
}

#[derive(Clone)]
struct M {
    depth: usize,
    last: usize,
    bal: Arc<Bal>,
    data: Arc<BTreeMap<Vec<u8>, Vec<u8>>>,
}
impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.depth)
    }
}
#[derive(Clone)]
struct Op {
    i: usize,
    text: String,
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.text)
    }
}

pub struct SC {
    c: C,
    tokens: Vec<Addr>,
    pools: Vec<(usize, Pool)>,
    holders: Vec<Addr>,
}

fn reads(f: &str) -> bool {
    ["query", "simulate", "get_"].iter().any(|x| f.starts_with(x)) || ["allowance", "balance", "decimals", "name", "symbol"].contains(&f)
}

impl System {
    fn auth(&self) -> Auth {
        Auth { when: self.when, depth: (1, 1) }
    }
    fn balances(&self, w: &World, c: &SC, old: Option<(&Bal, &BTreeSet<Addr>)>) -> Bal {
        let mut b = Bal::new();
        for (n, t) in c.tokens.iter().enumerate() {
            for h in &c.holders {
                let k = (n, h.clone());
                let v = match old {
                    Some((b, ch)) if !ch.contains(t) => b[&k],
                    _ => w.balance(t, h),
                };
                b.insert(k, v);
            }
        }
        b
    }

    /// What has to be known from before the call.
    fn quote(&self, w: &World, c: &SC, call: &Call) -> ScVal {
        let con = &c.c.cons[call.con];
        let q = |f: &str, args: Vec<ScVal>| w.query(&con.addr, f, args).unwrap_or(ScVal::Void);
        match (con.k, call.f.as_str()) {
            (K::Pool | K::Stable, "swap") => q("simulate_swap", call.args[1..3].to_vec()),
            (K::Stake, "withdraw_rewards") => q("query_withdrawable_rewards", vec![call.args[0].clone()]),
            (K::Rewards, "distribute_rewards") => q("query_distributed_reward", vec![addr(&c.tokens[0])]),
            _ => ScVal::Void,
        }
    }

    fn judge(&self, w: &World, c: &SC, o: &mut Out, call: &Call, r: &ScVal, q: &ScVal, evs: &[Event], before: &Bal, after: &Bal) {
        let con = &c.c.cons[call.con];
        let x = &call.args;
        let what = || format!("{}.{}({})", con.name, call.f, x.iter().map(show).collect::<Vec<_>>().join(", "));
        replay(o, evs, &c.tokens, before, after, &what);
        let mut swaps = 0;
        for (n, p) in &c.pools {
            swaps += pool_tells(o, evs, p, c.c.cons[*n].k == K::Stable, &what);
        }
        let want = match (con.k, call.f.as_str()) {
            (K::Pool | K::Stable, "swap") | (K::Trader, "trade_token") => 1,
            // a new pool is empty
            (K::Multihop, "swap") => x[1].list().len(),
            _ => 0,
        };
        o.eq(swaps, want, "event/swaps", || format!("{}: number of published swaps", what()));
        let delta = |t: &Addr, h: &Addr| {
            let n = c.tokens.iter().position(|y| y == t).unwrap();
            let k = (n, h.clone());
            after[&k] - before[&k]
        };
        let me = &con.addr;
        let pool = c.pools.iter().find(|(n, _)| *n == call.con).map(|(_, p)| p);
        let told_nothing = |o: &mut Out, groups: &[&str]| {
            for e in evs.iter().filter(|e| e.by == *me) {
                if let Some((g, k)) = words(e) {
                    o.check(!groups.contains(&g.as_str()), "event/wrong", || format!("{}: published ({g}, {k}) {}", what(), show(&e.data)));
                }
            }
        };
        if con.k != K::Factory && con.k != K::Rewards {
            let own: &[&str] = &["swap", "provide_liquidity", "withdraw_liquidity", "bond", "unbond", "create_distribution_flow", "distribute_rewards", "withdraw_rewards", "Claim", "Burn", "Mint", "Update minter", "Update minter capacity", "Trader: Trade Token", "initialize", "Initialize"];
            let f = match call.f.as_str() {
                "claim" => "Claim",
                "burn" => "Burn",
                "mint" => "Mint",
                "update_minter" => "Update minter",
                "update_minter_capacity" => "Update minter capacity",
                "trade_token" => "Trader: Trade Token",
                f => f,
            };
            let others: Vec<&str> = own.iter().copied().filter(|g| *g != f).collect();
            told_nothing(o, &others);
        }
        match (con.k, call.f.as_str()) {
            (K::Token, f) => {
                // somebody who only allows something moves nothing
                let amount = || i128v(x.last().unwrap().i128());
                let (topics, data): (Vec<ScVal>, ScVal) = match f {
                    "approve" => (vec![sym("approve"), x[0].clone(), x[1].clone()], vecv(vec![x[2].clone(), x[3].clone()])),
                    "transfer" => (vec![sym("transfer"), x[0].clone(), x[1].clone()], amount()),
                    "transfer_from" => (vec![sym("transfer"), x[1].clone(), x[2].clone()], amount()),
                    "burn" => (vec![sym("burn"), x[0].clone()], amount()),
                    "burn_from" => (vec![sym("burn"), x[1].clone()], amount()),
                    "mint" => (vec![sym("mint"), addr(&con.admin), x[0].clone()], amount()),
                    "set_admin" => (vec![sym("set_admin"), addr(&con.admin)], x[0].clone()),
                    _ => return,
                };
                if self.when != When::HandedOver && !matches!(f, "mint" | "set_admin") || c.c.tokens[0] != call.con {
                    let known: Vec<&Event> = evs.iter().filter(|e| e.by == *me && matches!(&e.topics[0], ScVal::Symbol(_))).collect();
                    o.check(known.len() == 1 && known[0].topics == topics && known[0].data == data, "event/token-call", || format!("{}: published {}", what(), known.iter().map(|e| format!("{} {}", list(&e.topics), show(&e.data))).collect::<Vec<_>>().join("; ")));
                }
            }
            (K::Pool | K::Stable, "swap") => {
                let p = pool.unwrap();
                let who = x[0].address();
                let a2b = x[1].address() == p.a;
                let (s, b) = if a2b { (&p.a, &p.b) } else { (&p.b, &p.a) };
                let spread = q.try_field("spread_amount").cloned().unwrap_or(ScVal::Void);
                o.eq(r.i128(), q.try_field("ask_amount").map_or(-1, |v| v.i128()), "event/answer", || format!("{}: answer against the quote", what()));
                let mut want = vec![("sender", vec![addr(&who)]), ("sell_token", vec![addr(s)]), ("offer_amount", vec![x[2].clone()]), ("buy_token", vec![addr(b)]), ("return_amount", vec![r.clone()]), ("spread_amount", vec![spread])];
                if con.k == K::Pool {
                    want.push(("actual received amount", vec![x[2].clone()]));
                    want.push(("referral_fee_amount", vec![i128v(0)]));
                }
                expect(o, evs, me, "swap", &want, &what);
            }
            (K::Pool | K::Stable, "provide_liquidity") => {
                let p = pool.unwrap();
                let (da, db) = (delta(&p.a, me), delta(&p.b, me));
                let want = [("sender", vec![x[0].clone()]), ("token_a", vec![addr(&p.a)]), ("token_a-amount", vec![i128v(da)]), ("token_b", vec![addr(&p.b)]), ("token_b-amount", vec![i128v(db)])];
                expect(o, evs, me, "provide_liquidity", &want, &what);
            }
            (K::Pool | K::Stable, "withdraw_liquidity") => {
                let p = pool.unwrap();
                let want = [("sender", vec![x[0].clone()]), ("shares_amount", vec![x[1].clone()]), ("return_amount_a", vec![i128v(-delta(&p.a, me))]), ("return_amount_b", vec![i128v(-delta(&p.b, me))])];
                expect(o, evs, me, "withdraw_liquidity", &want, &what);
            }
            (K::Stake, f @ ("bond" | "unbond")) => {
                let p = &c.pools.iter().find(|(_, p)| p.stake == *me).unwrap().1;
                let d = delta(&p.lp, me);
                let want = [("user", vec![x[0].clone()]), ("token", vec![addr(&p.lp)]), ("amount", vec![i128v(if f == "bond" { d } else { -d })])];
                expect(o, evs, me, f, &want, &what);
            }
            (K::Stake, f @ ("create_distribution_flow" | "distribute_rewards")) => {
                let t = if f == "distribute_rewards" { x[2].clone() } else { x[1].clone() };
                expect(o, evs, me, f, &[("asset", vec![t])], &what);
            }
            (K::Stake, "withdraw_rewards") => {
                expect(o, evs, me, "withdraw_rewards", &[("user", vec![x[0].clone()])], &what);
                let due = q.try_field("rewards").map(|v| v.list()).unwrap_or_default();
                let mut names = told(evs, me, "withdraw_rewards", "reward_token");
                let mut rewards: Vec<ScVal> = due.iter().map(|e| e.field("reward_address").clone()).collect();
                names.sort();
                rewards.sort();
                o.check(names == rewards, "event/wrong", || format!("{}: published rewards in {}, there are {}", what(), list(&names), list(&rewards)));
                let mut other = due.len() as i128;
                for e in due {
                    let t = e.field("reward_address").address();
                    let want = e.field("reward_amount").i128();
                    let paid: i128 = moves(evs, &t).iter().map(|m| if let Move::Transfer(f, to, y) = m { if f == me && *to == x[0].address() { other -= 1; *y } else { 0 } } else { 0 }).sum();
                    o.eq(paid, want, "event/rewards", || format!("{}: published payment of {}", what(), short(&t)));
                }
            }
            (K::Factory, "create_liquidity_pool") => {
                expect(o, evs, me, "create", &[("liquidity_pool", vec![r.clone()])], &what);
                let p = r.address();
                let t = x[1].field("token_init_info");
                expect(o, evs, &p, "initialize", &[("XYK LP token_a", vec![t.field("token_a").clone()]), ("XYK LP token_b", vec![t.field("token_b").clone()])], &what);
                let cfg = w.query(&p, "query_config", vec![]).unwrap_or(ScVal::Void);
                if let (Some(lp), Some(st)) = (cfg.try_field("share_token"), cfg.try_field("stake_contract")) {
                    expect(o, evs, &st.address(), "initialize", &[("LP Share token staking contract", vec![lp.clone()])], &what);
                }
            }
            (K::Factory, _) => told_nothing(o, &["create"]),
            (K::Trader, "trade_token") => {
                let got: Vec<ScVal> = c.pools.iter().flat_map(|(_, p)| told(evs, &p.addr, "swap", "return_amount")).collect();
                let want = [("user: ", vec![x[0].clone()]), ("offer asset: ", vec![x[1].clone()]), ("amount received: ", got)];
                expect(o, evs, me, "Trader: Trade Token", &want, &what);
            }
            (K::Vesting, "claim") => {
                let vt = c.c.cons.iter().find(|y| y.k == K::Token && y.admin == *me).unwrap().addr.clone();
                expect(o, evs, me, "Claim", &[("Claimed tokens: ", vec![i128v(-delta(&vt, me))])], &what);
            }
            (K::Vesting, "mint") => expect(o, evs, me, "Mint", &[("sender: ", vec![x[0].clone()]), ("Minted tokens: ", vec![x[1].clone()])], &what),
            (K::Vesting, "burn") => expect(o, evs, me, "Burn", &[("Burned from: ", vec![x[0].clone()]), ("Burned tokens: ", vec![x[1].clone()])], &what),
            (K::Vesting, "update_minter") => expect(o, evs, me, "Update minter", &[("Updated minter to: ", vec![x[1].clone()])], &what),
            (K::Vesting, "update_minter_capacity") => expect(o, evs, me, "Update minter capacity", &[("Updated minter capacity to: ", vec![x[1].clone()])], &what),
            (K::Rewards, f) => {
                let t0 = addr(&c.tokens[0]);
                let paid = -delta(&c.tokens[0], me);
                match f {
                    "fund_distribution" => {
                        let end = x[0].u64() + x[1].u64();
                        expect(o, evs, me, "fund_reward_distribution", &[("asset", vec![t0]), ("amount", vec![i128v(-paid)]), ("start_time", vec![x[0].clone()]), ("end_time", vec![u64v(end)])], &what);
                        o.eq(-paid, x[2].i128(), "event/funded", || what());
                        told_nothing(o, &["distribute_rewards", "withdraw_rewards"]);
                    }
                    "distribute_rewards" => {
                        let now = w.query(me, "query_distributed_reward", vec![t0.clone()]).map(|v| v.i128()).unwrap_or(0);
                        let d = now - if let ScVal::Void = q { 0 } else { q.i128() };
                        let (asset, amount) = if d == 0 { (vec![], vec![]) } else { (vec![t0], vec![u128v(d as u128)]) };
                        expect(o, evs, me, f, &[("asset", asset), ("amount", amount)], &what);
                        told_nothing(o, &["fund_reward_distribution", "withdraw_rewards"]);
                    }
                    "withdraw_rewards" | "calculate_unbond" => {
                        let (t, amt) = if paid == 0 { (vec![], vec![]) } else { (vec![t0], vec![i128v(paid)]) };
                        expect(o, evs, me, "withdraw_rewards", &[("reward_token", t), ("reward_amount", amt)], &what);
                        if f == "calculate_unbond" {
                            expect(o, evs, me, f, &[("user", vec![x[0].clone()])], &what);
                        } else {
                            expect(o, evs, me, f, &[("user", vec![x[0].clone()])], &what);
                        }
                        told_nothing(o, &["fund_reward_distribution", "distribute_rewards"]);
                    }
                    "calculate_bond" => expect(o, evs, me, f, &[("user", vec![x[0].clone()])], &what),
                    "add_user" => expect(o, evs, me, "stake_rewards", &[("add_user", vec![x[0].clone()])], &what),
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

impl Spec for System {
    type C = SC;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        format!("{:?}", self.when)
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.depth.0 } else { self.depth.1 }
    }
    fn key(&self, _m: &M) -> String {
        String::new()
    }
    fn setup(&self, w: &World) -> SC {
        let c = self.auth().setup(w);
        let tokens: Vec<Addr> = c.tokens.iter().map(|t| c.cons[*t].addr.clone()).collect();
        let mut pools = vec![];
        for (n, x) in c.cons.iter().enumerate() {
            if matches!(x.k, K::Pool | K::Stable) {
                let cfg = w.query(&x.addr, "query_config", vec![]).unwrap();
                let f = |k: &str| cfg.field(k).address();
                pools.push((n, Pool { addr: x.addr.clone(), a: f("token_a"), b: f("token_b"), lp: f("share_token"), stake: f("stake_contract"), dec: (7, 7), lp_dec: 7 }));
            }
        }
        let mut holders: Vec<Addr> = [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 30].map(actor).to_vec();
        holders.extend(c.cons.iter().map(|x| x.addr.clone()));
        SC { c, tokens, pools, holders }
    }
    fn start(&self, w: &World, c: &SC, o: &mut Out) -> M {
        for x in &c.c.unknown {
            o.count(format!("not called, a parameter of an unknown type: {x}"));
        }
        M { depth: 0, last: 0, bal: Arc::new(self.balances(w, c, None)), data: Arc::new(w.data()) }
    }
    fn ops(&self, c: &SC, m: &M) -> Vec<Op> {
        c.c.calls
            .iter()
            .enumerate()
            .filter(|(_, x)| m.depth == 0 || x.again && (x.con == m.last || self.tier == Tier::Thorough))
            .map(|(i, x)| Op { i, text: format!("{}.{}({})", c.c.cons[x.con].name, x.f, x.args.iter().map(show).collect::<Vec<_>>().join(", ")) })
            .collect()
    }
    fn step(&self, w: &World, c: &SC, m: &mut M, op: &Op, o: &mut Out) {
        let call = &c.c.calls[op.i];
        let con = &c.c.cons[call.con];
        o.same = true;
        let s = w.snapshot();
        let r = match w.call(&con.addr, &call.f, call.args.clone()) {
            Err(_) => {
                o.count("refused");
                return;
            }
            Ok(r) => r,
        };
        let evs = w.events();
        if w.signers().iter().any(|x| c.c.cons.iter().any(|y| y.addr == *x)) {
            // a contract would have to sign: it does not
            o.count("a contract would have to sign");
            return;
        }
        if reads(&call.f) {
            o.count("nothing published by queries");
            o.check(evs.is_empty(), "event/query", || format!("{op:?} published {}", evs.iter().map(|e| list(&e.topics)).collect::<Vec<_>>().join("; ")));
            return;
        }
        let end = w.snapshot();
        w.restore(&s);
        let q = self.quote(w, c, call);
        w.restore(&end);
        let data = w.data();
        let changed: BTreeSet<Addr> = m
            .data
            .keys()
            .chain(data.keys())
            .filter(|k| m.data.get(*k) != data.get(*k))
            .filter_map(|k| match LedgerKey::from_xdr(k, Limits::none()) {
                Ok(LedgerKey::ContractData(d)) => Some(d.contract),
                _ => None,
            })
            .collect();
        let after = self.balances(w, c, Some((&m.bal, &changed)));
        o.count(format!("{:?}.{} published", con.k, call.f));
        self.judge(w, c, o, call, &r, &q, &evs, &m.bal, &after);
        if data == *m.data || call.f == "update" || call.f.contains("upgrade") || !call.again || self.tier == Tier::Quick && con.k == K::Token {
            return;
        }
        o.same = false;
        m.depth += 1;
        m.last = call.con;
        m.bal = Arc::new(after);
        m.data = Arc::new(data);
    }
}

fn scenarios(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let quick = |when| if when == When::InUse { 2 } else { 1 };
    let mut v: Vec<Box<dyn Scenario>> = [When::InUse, When::HandedOver, When::Later].into_iter().map(|when| Box::new(System { when, depth: (quick(when), 2), tier }) as Box<dyn Scenario>).collect();
    v.extend(super::stake_rewards::published());
    for stable in [false, true] {
        let cfg = |fee| if stable { PoolCfg::stable(fee, 100) } else { PoolCfg::xyk(fee) };
        let name = if stable { "stable" } else { "constant product" };
        for (label, fee, init, unit) in [("empty", 30, None, 5_000i128), ("small", 1_000, Some((90_000i128, 120_000i128)), 700), ("large", 30, Some((7_000_000_000_000, 5_000_000_000_000)), 1_000_000_007), ("without fee", 0, Some((50_000, 50_000)), 900)] {
            v.push(Box::new(Amm {
                label: format!("{name}, {label}"),
                tags: &["event"],
                cfg: PoolCfg { max_spread: 10_000, ..cfg(fee) },
                init,
                fund: 1_000_000_000_000_000,
                depth: (3, 4),
                alphabet: Box::new(move |m| {
                    let mut v = vec![];
                    for who in [U1, U2] {
                        v.extend([sw(who, true, unit), sw(who, false, unit * 2 + 1), pr(who, unit * 3, unit * 4)]);
                        let lp = m.o.lp(who);
                        if lp > 0 {
                            v.extend([wd(who, lp), wd(who, lp / 3 + 1)]);
                        }
                    }
                    v.extend([sw(U1, true, 1), sw(U2, false, 3), sw(U1, true, unit * 30), sw(FEE, true, unit), pr(U1, unit * 4, unit * 3)]);
                    v.push(A::Donate { who: U2, a: true, amt: unit });
                    v.push(A::Donate { who: U2, a: false, amt: unit / 2 });
                    v
                }),
                profit: None,
                special: false,
            }));
        }
    }
    v
}
