//! The contract that releases one reward token over time to the stakers of one staking contract.
//! The staking contract is played by an actor that keeps the stakes and makes its calls.
use super::{events, host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use num_bigint::BigInt;
use crate::rat::Q;
use soroban_env_host::xdr::ScVal;
use std::collections::BTreeMap;

pub fn properties() -> Vec<Property> {
    vec![Property { id: "P14", scenarios, assumptions: host_assumptions }, Property { id: "P29", scenarios: rates, assumptions: host_assumptions }]
}

/// The staking contract's address.
const STAKING: u8 = 30;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Bond(u8, i128),
    Unbond(u8, usize),
    /// who must be the only one to decide: start after now, duration, amount
    Fund(i64, u64, i128),
    Distribute,
    Withdraw(u8),
    Wait(u64),
    Donate(i128),
    /// So many times one unit is given and distributed.
    Drip(u32),
    /// A user who staked before this contract was there is made known to it.
    Register(u8),
}

#[derive(Clone, Debug)]
struct User {
    stakes: Vec<(i128, u64)>,
    /// whether their stakes count yet
    known: bool,
    /// exact share of all distributions
    earned: Q,
    paid: i128,
}
impl User {
    fn total(&self) -> i128 {
        self.stakes.iter().map(|s| s.0).sum()
    }
}
#[derive(Clone, Debug)]
struct M {
    u: BTreeMap<u8, User>,
    /// start, end, amount
    funds: Vec<(u64, u64, i128)>,
    funded: i128,
    distributed: i128,
    times: i128,
    now: u64,
    /// an upper bound on the power of everybody, for the precision of shares
    power: i128,
    /// everybody's power at the distributions, while it was always the same
    same: Option<Vec<i128>>,
    steady: bool,
}
struct R {
    label: &'static str,
    tag: &'static str,
    min_bond: i128,
    complexity: u32,
    begin: Vec<Op>,
    /// stakes from before, not registered
    old: Vec<(u8, i128)>,
    users: Vec<u8>,
    depth: (usize, usize),
    alphabet: fn(&M) -> Vec<Op>,
}
struct C {
    r: Addr,
    t: Addr,
}

fn locked(f: &(u64, u64, i128), t: u64) -> Q {
    if t <= f.0 {
        return Q::from(big(f.2));
    }
    if t >= f.1 {
        return Q::from(big(0));
    }
    Q::new(big(f.2) * (f.1 - t), big((f.1 - f.0) as i128))
}
const YEAR: u64 = 365 * DAY;
/// A number written in decimal.
fn decimal(s: &str) -> Option<Q> {
    let (whole, frac) = s.split_once('.').unwrap_or((s, ""));
    let digits = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
    if whole.is_empty() || !digits(whole) || !digits(frac) || s.ends_with('.') {
        return None;
    }
    Some(Q::new(format!("{whole}{frac}").parse().ok()?, BigInt::from(10).pow(frac.len() as u32)))
}
fn floor(x: &Q) -> BigInt {
    x.floor()
}

impl R {
    fn power(&self, total: i128) -> i128 {
        if total < self.min_bond {
            0
        } else {
            total / 1000
        }
    }
    fn info(stakes: &[(i128, u64)], total: i128) -> ScVal {
        structv(vec![
            ("stakes", vecv(stakes.iter().map(|s| structv(vec![("stake", i128v(s.0)), ("stake_timestamp", u64v(s.1))])).collect())),
            ("reward_debt", u128v(0)),
            ("last_reward_time", u64v(0)),
            ("total_stake", i128v(total)),
        ])
    }
    fn all_of(u: &User) -> ScVal {
        R::info(&u.stakes, u.total())
    }
    /// The part of a user's rewards that the age of their stakes lets them have, as a fraction.
    fn ripe(u: &User, now: u64) -> Q {
        let (mut x, mut y) = (big(0), big(0));
        for (s, at) in &u.stakes {
            x += big(*s) * ((now - at) / DAY).min(60);
            y += big(*s) * 60;
        }
        if y == big(0) {
            Q::from(y)
        } else {
            Q::new(x, y)
        }
    }
    /// Least and most that is a user's and not paid, at full age.
    fn left(&self, m: &M, u: &User) -> (BigInt, BigInt) {
        let exact = &u.earned - &Q::from(big(u.paid));
        // a distribution's share per point is rounded down to 2^-32, and its rest carried to the next
        // one: while everybody's power stays the same nothing is lost but the last rest
        if m.steady {
            let slack = Q::new(big(self.power(u.total()) + 1), big(1 << 32)) + Q::from(big(1));
            return (floor(&(&exact - &slack)).max(big(0)), floor(&(&exact + &Q::new(big(1), big(1 << 32)))));
        }
        let n = m.times;
        let slack = Q::new(big(n + 1) * (m.power + 1), big(1 << 32)) + Q::from(big(1));
        (floor(&(&exact - &slack)).max(big(0)), floor(&(&exact + &Q::new(big(n) * (m.power + 1), big(1 << 32)))))
    }

    /// The rewards of a year for one point of power, as quoted: what the fundings still have to
    /// release in the coming year, or, where all of them end sooner, the rate until then.
    fn rate(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        let all: i128 = m.u.values().map(|u| u.total()).sum();
        let mut totals = vec![all, 0, 999, 1_000, self.min_bond - 1, self.min_bond, 5_000_001, 1_000_000_000_000_000_000];
        totals.sort();
        totals.dedup();
        let end = m.funds.iter().map(|f| f.1).max().unwrap_or(0);
        let open = |t: u64| -> Q { m.funds.iter().map(|f| locked(f, t)).sum() };
        let (mut year, mut slack) = (Q::from(big(0)), Q::from(big(0)));
        if end > m.now {
            // every funding is rounded to a unit
            slack = Q::from(big(2 * m.funds.len() as i128));
            year = if end - m.now >= YEAR {
                open(m.now) - open(m.now + YEAR)
            } else {
                let f = Q::new(big(YEAR as i128), big((end - m.now) as i128));
                slack = &slack * &f;
                &open(m.now) * &f
            };
        }
        for t in totals {
            let v = match w.query(&c.r, "query_annualized_reward", vec![i128v(t)]) {
                Ok(v) => v,
                Err(e) => {
                    o.fail("rate/refused", format!("after {after}: query_annualized_reward of {t}: {e:?} (fundings {:?}, now {})", m.funds, m.now));
                    continue;
                }
            };
            o.check(v.field("asset").address() == c.t, "rate/asset", || format!("after {after}"));
            let text = v.field("amount").text();
            let Some(got) = decimal(&text) else {
                o.fail("rate/text", format!("after {after}: query_annualized_reward of {t} is {text:?}"));
                continue;
            };
            let p = self.power(t);
            if p == 0 {
                o.check(got == Q::from(big(0)), "rate/nobody", || format!("after {after}: {text} a year for a total stake of {t}, which has no power"));
                continue;
            }
            let by = Q::new(big(1), big(p));
            let fine = Q::new(big(2), big(1_000_000_000_000_000_000));
            let (lo, hi) = (&(&(&year - &slack) * &by) - &fine, &(&(&year + &slack) * &by) + &fine);
            o.check(got >= lo && got <= hi, "rate/amount", || format!("after {after}: {text} a year for each of {p} points is quoted at {}, the fundings {:?} give {lo} to {hi}", m.now, m.funds));
            o.count(if end > m.now { "a rate" } else { "nothing any more" });
        }
    }

    fn look(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        let held = w.balance(&c.t, &c.r);
        let paid: i128 = m.u.values().map(|u| u.paid).sum();
        o.eq(held, m.funded - paid, "reward/holdings", || format!("after {after}: tokens held, and funded less paid"));
        let q = |f: &str| w.query(&c.r, f, vec![addr(&c.t)]).map(|v| v.i128());
        let (d, n) = (q("query_distributed_reward"), q("query_undistributed_reward"));
        o.eq(d, Ok(m.distributed), "reward/distributed", || format!("after {after}: query_distributed_reward"));
        o.eq(n, Ok(m.funded - m.distributed), "reward/undistributed", || format!("after {after}: query_undistributed_reward"));
        for later in [false, true] {
            let s = w.snapshot();
            if later {
                w.advance(61 * DAY);
            }
            let mut sum = 0;
            for (k, u) in &m.u {
                match w.query(&c.r, "query_withdrawable_reward", vec![a(*k), R::all_of(u)]) {
                    Ok(v) => {
                        let got = v.field("reward_amount").i128();
                        o.check(v.field("reward_address").address() == c.t, "reward/asset", || format!("after {after}"));
                        sum += got;
                        if !u.known {
                            continue;
                        }
                        let ripe = R::ripe(u, w.ts());
                        let (lo, hi) = self.left(m, u);
                        let (lo, hi) = (floor(&(&Q::from(lo) * &ripe)) - 1, floor(&(&Q::from(hi) * &ripe)));
                        o.check(big(got) >= lo && big(got) <= hi, "reward/due", || format!("after {after}: {got} are withdrawable for {k}{}, due are {lo} to {hi} ({u:?})", if later { " 61 days later" } else { "" }));
                    }
                    Err(e) => o.fail("reward/query-refused", format!("after {after}: query_withdrawable_reward of {k}: {e:?} ({u:?})")),
                }
            }
            if m.u.values().all(|u| u.known) {
                o.check(sum + paid <= m.distributed, "reward/overcommitted", || format!("after {after}: {paid} were paid and {sum} are withdrawable, {} were distributed", m.distributed));
            }
            w.restore(&s);
        }
    }

    /// What the contract has to publish about the last call.
    fn tells(&self, w: &World, c: &C, o: &mut Out, op: &Op, want: &[(&str, &str, Vec<ScVal>)]) {
        let evs = w.events();
        for (g, k, v) in want {
            events::expect(o, &evs, &c.r, g, &[(*k, v.clone())], &|| format!("{op:?}"));
        }
    }
    fn tells_paid(&self, c: &C, o: &mut Out, op: &Op, evs: &[Event], f: &str, u: u8, got: i128) {
        let (t, amt) = if got == 0 { (vec![], vec![]) } else { (vec![addr(&c.t)], vec![i128v(got)]) };
        events::expect(o, evs, &c.r, "withdraw_rewards", &[("reward_token", t), ("reward_amount", amt)], &|| format!("{op:?}"));
        events::expect(o, evs, &c.r, f, &[("user", vec![a(u)])], &|| format!("{op:?}"));
    }

    fn judge(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        if self.tag == "event" {
            return;
        }
        if self.tag == "rate" {
            self.rate(w, c, m, o, after);
        } else {
            self.look(w, c, m, o, after);
        }
    }

    fn act(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let signed = |w: &World, o: &mut Out, l: &[u8]| {
            let mut v: Vec<Addr> = l.iter().map(|u| actor(*u)).collect();
            v.sort();
            o.eq(w.signers(), v, "reward/signers", || format!("{op:?}: whose signatures it needs"));
        };
        match op {
            Op::Bond(u, x) => {
                let s = m.u.get_mut(u).unwrap();
                let before = s.total();
                s.stakes.push((*x, m.now));
                let r = w.call(&c.r, "calculate_bond", vec![a(*u), R::info(&s.stakes, before)]);
                match r {
                    Ok(_) => {
                        self.tells(w, c, o, op, &[("calculate_bond", "user", vec![a(*u)])]);
                        signed(w, o, &[STAKING]);
                        o.count("bond");
                    }
                    Err(e) => o.fail("reward/bond-refused", format!("{op:?}: {e:?}")),
                }
            }
            Op::Register(u) => {
                let s = m.u.get_mut(u).unwrap();
                match w.call(&c.r, "add_user", vec![a(*u), R::all_of(s)]) {
                    Ok(_) => {
                        self.tells(w, c, o, op, &[("stake_rewards", "add_user", vec![a(*u)])]);
                        signed(w, o, &[STAKING]);
                        s.known = true;
                    }
                    Err(e) => o.fail("reward/add-user-refused", format!("{op:?}: {e:?}")),
                }
            }
            Op::Unbond(u, n) => {
                let s = m.u.get_mut(u).unwrap();
                if *n >= s.stakes.len() {
                    o.same = true;
                    return;
                }
                let quoted = w.query(&c.r, "query_withdrawable_reward", vec![a(*u), R::all_of(s)]).map(|v| v.field("reward_amount").i128());
                let had = w.balance(&c.t, &actor(*u));
                match w.call(&c.r, "calculate_unbond", vec![a(*u), R::all_of(s), i128v(s.stakes[*n].0)]) {
                    Ok(_) => {
                        let evs = w.events();
                        signed(w, o, &[STAKING, *u]);
                        let got = w.balance(&c.t, &actor(*u)) - had;
                        self.tells_paid(c, o, op, &evs, "calculate_unbond", *u, got);
                        o.eq(Ok(got), quoted, "reward/paid", || format!("{op:?}: paid on unbonding, and quoted before"));
                        s.paid += got;
                        s.stakes.remove(*n);
                        o.count("unbond");
                    }
                    Err(e) => o.fail("reward/unbond-refused", format!("{op:?}: {e:?}")),
                }
            }
            Op::Withdraw(u) => {
                let s = m.u.get_mut(u).unwrap();
                let quoted = w.query(&c.r, "query_withdrawable_reward", vec![a(*u), R::all_of(s)]).map(|v| v.field("reward_amount").i128());
                let had = w.balance(&c.t, &actor(*u));
                match w.call(&c.r, "withdraw_rewards", vec![a(*u), R::all_of(s)]) {
                    Ok(_) => {
                        let evs = w.events();
                        signed(w, o, &[STAKING]);
                        let got = w.balance(&c.t, &actor(*u)) - had;
                        self.tells_paid(c, o, op, &evs, "withdraw_rewards", *u, got);
                        o.eq(Ok(got), quoted, "reward/paid", || format!("{op:?}: paid, and quoted before"));
                        s.paid += got;
                        o.count(if got > 0 { "withdraw" } else { "withdraw nothing" });
                    }
                    Err(e) => o.fail("reward/withdraw-refused", format!("{op:?}: {e:?}")),
                }
            }
            Op::Fund(from, dur, x) => {
                let start = (m.now as i64 + from) as u64;
                let has = w.balance(&c.t, &actor(ADMIN));
                let r = w.call(&c.r, "fund_distribution", vec![u64v(start), u64v(*dur), i128v(*x)]);
                let sound = *from >= 0 && *x >= 5 && *x <= has && *dur > 0 && start.checked_add(*dur).is_some();
                match r {
                    Ok(_) if !sound => o.fail("reward/fund-accepted", format!("{op:?} was executed (administrator's balance {has})")),
                    Ok(_) => {
                        let g = "fund_reward_distribution";
                        self.tells(w, c, o, op, &[(g, "asset", vec![addr(&c.t)]), (g, "amount", vec![i128v(*x)]), (g, "start_time", vec![u64v(start)]), (g, "end_time", vec![u64v(start + dur)])]);
                        signed(w, o, &[STAKING, ADMIN]);
                        o.count("fund");
                        m.funds.push((start, start + dur, *x));
                        m.funded += x;
                        o.eq(w.balance(&c.t, &actor(ADMIN)), has - x, "reward/fund-paid", || format!("{op:?}: balance of the administrator"));
                    }
                    Err(_) => {
                        // the corners of everything that is still running count as its complexity
                        let corners = 2 * (m.funds.len() + 1);
                        o.check(!sound || corners > self.complexity as usize, "reward/fund-refused", || format!("{op:?} was refused (complexity at most {corners}, allowed {})", self.complexity));
                        o.count("fund refused");
                        o.same = true;
                    }
                }
            }
            Op::Donate(x) => {
                w.call(&c.t, "transfer", vec![a(MGR), addr(&c.r), i128v(*x)]).expect("transfer");
                m.funded += x;
            }
            Op::Drip(n) => {
                for _ in 0..*n {
                    self.act(w, c, m, &Op::Donate(1), o);
                    self.act(w, c, m, &Op::Distribute, o);
                }
            }
            Op::Distribute => {
                let total: i128 = m.u.values().filter(|u| u.known).map(|u| u.total()).sum();
                let power = self.power(total);
                let r = w.call(&c.r, "distribute_rewards", vec![i128v(total)]);
                if let Err(e) = r {
                    o.fail("reward/distribute-refused", format!("{op:?}: {e:?}"));
                    return;
                }
                let evs = w.events();
                signed(w, o, &[STAKING]);
                let d = w.query(&c.r, "query_distributed_reward", vec![addr(&c.t)]).map(|v| v.i128()).unwrap_or(-1);
                let got = d - m.distributed;
                let (asset, amount) = if got == 0 { (vec![], vec![]) } else { (vec![addr(&c.t)], vec![u128v(got as u128)]) };
                events::expect(o, &evs, &c.r, "distribute_rewards", &[("asset", asset), ("amount", amount)], &|| format!("{op:?}"));
                if power == 0 {
                    o.eq(got, 0, "reward/no-stakers", || format!("distributed although nobody has enough at stake ({total})"));
                    o.count("distribute to nobody");
                    return;
                }
                let closed: Q = m.funds.iter().map(|f| locked(f, m.now)).sum();
                let exact = Q::from(big(m.funded - m.distributed)) - closed;
                let slack = Q::from(big(m.funds.len() as i128));
                o.check(
                    got >= 0 && Q::from(big(got)) >= &exact - &slack && Q::from(big(got)) <= &exact + &slack,
                    "reward/released",
                    || format!("{got} were distributed at {}, released and not yet distributed are {exact} (funded {:?}, {} in all, distributed before {})", m.now, m.funds, m.funded, m.distributed),
                );
                o.count(if got > 0 { "distribute" } else { "distribute nothing" });
                if got > 0 {
                    m.distributed += got;
                    m.times += 1;
                    m.power = m.power.max(power);
                    let each: Vec<i128> = m.u.values().map(|u| if u.known { self.power(u.total()) } else { 0 }).collect();
                    m.steady &= m.same.as_ref().map_or(true, |s| *s == each);
                    m.same = Some(each);
                    for u in m.u.values_mut() {
                        if u.known {
                            u.earned += Q::new(big(got) * self.power(u.total()), big(power));
                        }
                    }
                }
            }
            Op::Wait(s) => {
                w.advance(*s);
                m.now += s;
            }
        }
    }
}

impl Spec for R {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        self.label.into()
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.depth.0
        } else {
            self.depth.1
        }
    }
    fn setup(&self, w: &World) -> C {
        let t = token(w, w.upload("soroban_token_contract"), 1, 7);
        mint(w, &t, ADMIN, if self.tag == "rate" { 1_000_000_000_000_000_000 } else { 1_000_000_000_000 });
        mint(w, &t, MGR, 1_000_000_000_000);
        let r = w.create(w.upload("phoenix_stake_rewards"), 3, vec![]);
        w.call(&r, "initialize", vec![a(ADMIN), a(STAKING), addr(&t), u32v(self.complexity), i128v(5), i128v(self.min_bond)]).expect("initialize");
        C { r, t }
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        let mut m = M { u: BTreeMap::new(), funds: vec![], funded: 0, distributed: 0, times: 0, now: w.ts(), power: 0, same: None, steady: true };
        for u in &self.users {
            let stakes: Vec<(i128, u64)> = self.old.iter().filter(|s| s.0 == *u).map(|s| (s.1, m.now)).collect();
            m.u.insert(*u, User { known: stakes.is_empty(), stakes, earned: Q::from(big(0)), paid: 0 });
        }
        for op in &self.begin {
            self.act(w, c, &mut m, op, o);
        }
        self.judge(w, c, &m, o, "the start");
        m
    }
    fn ops(&self, _c: &C, m: &M) -> Vec<Op> {
        (self.alphabet)(m)
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        self.act(w, c, m, op, o);
        o.violations.retain(|v| v.key.starts_with(self.tag));
        if !o.same && o.violations.is_empty() {
            self.judge(w, c, m, o, &format!("{op:?}"));
        }
    }
}

fn scenarios(_tier: Tier) -> Vec<Box<dyn Scenario>> {
    let users = vec![U1, U2];
    vec![
        Box::new(R {
            tag: "reward",
            label: "release",
            min_bond: 10,
            complexity: 20,
            begin: vec![Op::Bond(U1, 3_000)],
            old: vec![],
            users: users.clone(),
            depth: (5, 6),
            alphabet: |m| {
                let mut v = vec![Op::Fund(0, 7, 100), Op::Fund(2, 3, 1_001), Op::Fund(5, 4, 50), Op::Distribute, Op::Donate(13)];
                for s in [1, 2, 3, 10] {
                    v.push(Op::Wait(s));
                }
                if m.funds.len() < 2 {
                    v.push(Op::Fund(0, 1, 5));
                    for x in [Op::Fund(-1, 10, 100), Op::Fund(0, 10, 4), Op::Fund(0, 10, -1), Op::Fund(0, 0, 100), Op::Fund(3, 0, 100), Op::Fund(0, u64::MAX, 100), Op::Fund(1, u64::MAX / 2, 1_000), Op::Fund(0, 9, 1_000_000_000_001)] {
                        v.push(x);
                    }
                }
                v
            },
        }),
        Box::new(R {
            tag: "reward",
            label: "shares",
            min_bond: 1_500,
            complexity: 20,
            begin: vec![Op::Fund(0, 100 * DAY, 1_000_000), Op::Bond(U1, 3_000)],
            old: vec![],
            users: users.clone(),
            depth: (5, 6),
            alphabet: |m| {
                let mut v = vec![Op::Distribute, Op::Wait(10 * DAY), Op::Wait(60 * DAY)];
                for u in [U1, U2] {
                    for x in [1_400, 2_999, 7_001] {
                        v.push(Op::Bond(u, x));
                    }
                    for n in 0..m.u[&u].stakes.len().min(2) {
                        v.push(Op::Unbond(u, n));
                    }
                    v.push(Op::Withdraw(u));
                }
                v
            },
        }),
        Box::new(R {
            tag: "reward",
            label: "ages",
            min_bond: 10,
            complexity: 20,
            begin: vec![Op::Bond(U1, 3_000), Op::Bond(U2, 4_000), Op::Fund(0, DAY, 999_983)],
            old: vec![],
            users: users.clone(),
            depth: (6, 8),
            alphabet: |_| vec![Op::Distribute, Op::Wait(1), Op::Wait(DAY - 1), Op::Wait(29 * DAY), Op::Wait(59 * DAY), Op::Bond(U1, 5_500), Op::Unbond(U1, 0), Op::Unbond(U2, 0), Op::Withdraw(U1), Op::Withdraw(U2)],
        }),
        Box::new(R {
            tag: "reward",
            label: "users-from-before",
            min_bond: 10,
            complexity: 20,
            begin: vec![Op::Bond(U3, 10_000), Op::Fund(0, 10 * DAY, 700_001)],
            old: vec![(U1, 3_333), (U1, 4_000), (U2, 9)],
            users: vec![U1, U2, U3],
            depth: (5, 6),
            alphabet: |m| {
                let mut v = vec![Op::Distribute, Op::Wait(3 * DAY), Op::Wait(60 * DAY), Op::Fund(0, 10, 1_000)];
                for u in [U1, U2] {
                    if !m.u[&u].known {
                        v.push(Op::Register(u));
                    } else {
                        v.push(Op::Bond(u, 2_000));
                        v.push(Op::Unbond(u, 0));
                        v.push(Op::Withdraw(u));
                    }
                }
                v.push(Op::Withdraw(U3));
                v.push(Op::Unbond(U3, 0));
                v
            },
        }),
        Box::new(R {
            tag: "reward",
            label: "many-fundings-and-stakes",
            min_bond: 10,
            complexity: 40,
            begin: [
                [1_300, 2_900, 1_300, 700, 4_100, 90].map(|x| Op::Bond(U1, x)).to_vec(),
                vec![Op::Bond(U2, 5_000), Op::Wait(45 * DAY)],
                (0..7).map(|k| Op::Fund(3 * k, 5 + 2 * k as u64, 1_000 + 111 * k as i128)).collect(),
                vec![Op::Wait(2)],
            ]
            .concat(),
            old: vec![(U3, 2_222)],
            users: vec![U1, U2, U3],
            depth: (4, 5),
            alphabet: |m| {
                let mut v = vec![Op::Distribute, Op::Wait(1), Op::Wait(9), Op::Wait(60 * DAY), Op::Fund(1, 4, 777), Op::Withdraw(U1), Op::Withdraw(U2), Op::Bond(U1, 90)];
                v.extend((0..m.u[&U1].stakes.len()).map(|n| Op::Unbond(U1, n)));
                if !m.u[&U3].known {
                    v.push(Op::Register(U3));
                }
                v
            },
        }),
        Box::new(R {
            tag: "reward",
            label: "large",
            min_bond: 1_000,
            complexity: 20,
            begin: vec![Op::Bond(U1, 700_000_000_007), Op::Wait(100 * DAY)],
            old: vec![],
            users: users.clone(),
            depth: (5, 6),
            alphabet: |_| {
                vec![
                    Op::Bond(U2, 123_456_789_123),
                    Op::Bond(U1, 1_000),
                    Op::Unbond(U1, 0),
                    Op::Unbond(U2, 0),
                    Op::Fund(0, 30 * DAY, 99_999_999_999),
                    Op::Fund(86_400, 7 * DAY, 1_000_000_007),
                    Op::Distribute,
                    Op::Withdraw(U1),
                    Op::Withdraw(U2),
                    Op::Wait(5 * DAY + 7),
                    Op::Wait(40 * DAY),
                ]
            },
        }),
        Box::new(R {
            tag: "reward",
            label: "more-power-than-precision",
            min_bond: 10,
            complexity: 20,
            begin: vec![Op::Bond(U1, 17_180_000_007_000), Op::Bond(U2, 4_294_967_296_000), Op::Wait(100 * DAY)],
            old: vec![],
            users: users.clone(),
            depth: (5, 7),
            alphabet: |m| {
                let mut v = vec![Op::Donate(1), Op::Donate(3), Op::Distribute, Op::Withdraw(U1), Op::Withdraw(U2)];
                if m.times < 60 {
                    v.push(Op::Drip(21));
                }
                if m.times < 2 {
                    v.push(Op::Donate(16));
                    v.push(Op::Unbond(U1, 0));
                }
                v
            },
        }),
        Box::new(R {
            tag: "reward",
            label: "little-complexity",
            min_bond: 10,
            complexity: 4,
            begin: vec![Op::Bond(U1, 3_000)],
            old: vec![],
            users: vec![U1],
            depth: (6, 8),
            alphabet: |_| vec![Op::Fund(0, 5, 100), Op::Fund(2, 5, 70), Op::Fund(9, 3, 11), Op::Distribute, Op::Wait(1), Op::Wait(4), Op::Wait(20)],
        }),
    ]
}

fn rates(_tier: Tier) -> Vec<Box<dyn Scenario>> {
    vec![
        Box::new(R {
            tag: "rate",
            label: "rates",
            min_bond: 1_500,
            complexity: 20,
            begin: vec![Op::Bond(U1, 30_000)],
            old: vec![],
            users: vec![U1, U2],
            depth: (4, 5),
            alphabet: |m| {
                let mut v = vec![Op::Distribute, Op::Bond(U2, 7_001), Op::Unbond(U1, 0), Op::Withdraw(U1), Op::Donate(77)];
                v.extend([1, DAY, 100 * DAY, YEAR - 1, YEAR].map(Op::Wait));
                if m.funds.len() < 3 {
                    v.extend([Op::Fund(0, YEAR, 1_000_003), Op::Fund(0, YEAR + 1, 5_000), Op::Fund(3 * DAY as i64, 30 * DAY, 70_001), Op::Fund(DAY as i64, 3 * YEAR, 999_999_999), Op::Fund(0, 1, 11)]);
                }
                v
            },
        }),
        Box::new(R {
            tag: "rate",
            label: "large-rates",
            min_bond: 10,
            complexity: 20,
            begin: vec![Op::Bond(U1, 700_000_000_007)],
            old: vec![],
            users: vec![U1],
            depth: (4, 5),
            alphabet: |m| {
                let mut v = vec![Op::Distribute, Op::Wait(1), Op::Wait(29 * DAY), Op::Wait(400 * DAY)];
                if m.funds.len() < 3 {
                    v.extend([Op::Fund(0, 30 * DAY, 9_999_999_999_999_999), Op::Fund(0, 2 * YEAR, 50_000_000_000_007), Op::Fund(86_400, 600 * DAY, 1_000_000_007)]);
                }
                v
            },
        }),
    ]
}

/// Histories of which everything published is compared with what happened.
pub fn published() -> Vec<Box<dyn Scenario>> {
    vec![Box::new(R {
        tag: "event",
        label: "rewards, published",
        min_bond: 1_500,
        complexity: 20,
        begin: vec![Op::Bond(U1, 3_000), Op::Fund(0, 100 * DAY, 1_000_003)],
        old: vec![(U3, 4_000)],
        users: vec![U1, U2, U3],
        depth: (5, 6),
        alphabet: |m| {
            let mut v = vec![Op::Distribute, Op::Wait(7), Op::Wait(11 * DAY), Op::Wait(61 * DAY), Op::Donate(13), Op::Fund(5, 12, 1_001)];
            if !m.u[&U3].known {
                v.push(Op::Register(U3));
            }
            for u in [U1, U2] {
                v.push(Op::Bond(u, 4_001));
                if !m.u[&u].stakes.is_empty() {
                    v.push(Op::Unbond(u, 0));
                }
                v.push(Op::Withdraw(u));
            }
            v
        },
    })]
}
