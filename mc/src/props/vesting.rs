//! Vesting, against exact released amounts and a reference of holdings and the minter.
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use num_bigint::BigInt;
use soroban_env_host::xdr::ScVal;
use std::collections::BTreeMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "P15", scenarios: claims, assumptions: host_assumptions },
        Property { id: "P16", scenarios: minter, assumptions: host_assumptions },
    ]
}

const T0: u64 = 1_000_000;
const LIMIT: u32 = 5;

/// A schedule: corners, or a saturating line.
#[derive(Clone, Debug, PartialEq)]
pub enum Crv {
    Con(u128),
    Sl(u64, u128, u64, u128),
    Pl(Vec<(u64, u128)>),
}
impl Crv {
    pub fn val(&self) -> ScVal {
        match self {
            Crv::Con(y) => enumv("Constant", vec![u128v(*y)]),
            Crv::Sl(a, b, c, d) => enumv(
                "SaturatingLinear",
                vec![structv(vec![("min_x", u64v(*a)), ("min_y", u128v(*b)), ("max_x", u64v(*c)), ("max_y", u128v(*d))])],
            ),
            Crv::Pl(s) => enumv(
                "PiecewiseLinear",
                vec![structv(vec![("steps", vecv(s.iter().map(|(t, v)| structv(vec![("time", u64v(*t)), ("value", u128v(*v))])).collect()))])],
            ),
        }
    }
    fn corners(&self) -> Vec<(u64, u128)> {
        match self {
            Crv::Con(y) => vec![(0, *y)],
            Crv::Sl(a, b, c, d) => vec![(*a, *b), (*c, *d)],
            Crv::Pl(s) => s.clone(),
        }
    }
    /// The whole amount, if this is a schedule the contract takes.
    fn total(&self, limit: u32) -> Option<u128> {
        if matches!(self, Crv::Con(_)) {
            return None;
        }
        let c = self.corners();
        if c.is_empty() || c.len() as u32 >= limit {
            return None;
        }
        if matches!(self, Crv::Pl(_)) && c[0].0 == 0 {
            return None;
        }
        for w in c.windows(2) {
            if w[0].0 >= w[1].0 || w[1].1 > w[0].1 {
                return None;
            }
        }
        if c.last().unwrap().1 != 0 || c[0].1 > i128::MAX as u128 {
            return None;
        }
        Some(c[0].1)
    }
    /// What is not released yet: whole units, rounded against the recipient.
    fn locked(&self, t: u64) -> u128 {
        let c = self.corners();
        if t <= c[0].0 {
            return c[0].1;
        }
        for w in c.windows(2) {
            let ((x0, y0), (x1, y1)) = (w[0], w[1]);
            if t <= x1 {
                let gone = BigInt::from(y0 - y1) * BigInt::from(t - x0) / BigInt::from(x1 - x0);
                return y0 - u128::try_from(gone).unwrap();
            }
        }
        c.last().unwrap().1
    }
}

#[derive(Clone, Debug)]
enum Op {
    Create(Vec<(u8, Crv)>),
    Claim(u8, u64),
    Wait(u64),
    Donate(i128),
    Mint(u8, i128),
    Burn(u8, u128),
    NewMinter(u8, u8),
    Capacity(u8, u128),
    /// The administrator hands tokens over to somebody else.
    Pay(i128),
}

#[derive(Clone, Debug)]
struct Sched {
    c: Crv,
    total: u128,
    claimed: u128,
}
#[derive(Clone, Debug)]
struct M {
    sched: BTreeMap<u8, Vec<Sched>>,
    bal: BTreeMap<u8, i128>,
    held: i128,
    minter: Option<(u8, u128)>,
}
struct C {
    v: Addr,
    t: Addr,
}
struct Vest {
    label: String,
    admin_has: i128,
    minter: Option<(u8, u128)>,
    /// Schedules that exist at the start.
    begin: Vec<Vec<(u8, Crv)>>,
    depth: (usize, usize),
    alphabet: Box<dyn Fn(&M, Tier) -> Vec<Op> + Send + Sync>,
    tier: Tier,
    /// The size a schedule has to stay below.
    limit: u32,
    /// All time passes by single seconds up to here.
    until: u64,
}
const WHO: [u8; 4] = [ADMIN, U1, U2, U3];

impl Vest {
    fn create(&self, w: &World, c: &C, l: &[(u8, Crv)]) -> Res {
        let v = l.iter().map(|(r, k)| structv(vec![("recipient", a(*r)), ("curve", k.val())])).collect();
        w.call(&c.v, "create_vesting_schedules", vec![vecv(v)])
    }
    fn created(&self, m: &mut M, l: &[(u8, Crv)]) -> Option<()> {
        if l.is_empty() {
            return None;
        }
        let mut sum: u128 = 0;
        for (i, (r, k)) in l.iter().enumerate() {
            if l[..i].iter().any(|(x, _)| x == r) {
                return None;
            }
            sum = sum.checked_add(k.total(self.limit)?)?;
        }
        if sum > m.bal[&ADMIN] as u128 || m.held.checked_add(sum as i128).is_none() {
            return None;
        }
        for (r, k) in l {
            m.sched.entry(*r).or_default().push(Sched { c: k.clone(), total: k.total(self.limit).unwrap(), claimed: 0 });
        }
        *m.bal.get_mut(&ADMIN).unwrap() -= sum as i128;
        m.held += sum as i128;
        Some(())
    }
    fn look(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        let now = w.ts();
        let q = |f: &str, args: Vec<ScVal>| w.query(&c.v, f, args);
        o.eq(w.balance(&c.t, &c.v), m.held, "vest/holdings", || format!("{after}: tokens the contract holds"));
        o.eq(q("query_vesting_contract_balance", vec![]).map(|v| v.i128()), Ok(m.held), "vest/query", || format!("{after}: reported holdings"));
        let mut owed: u128 = 0;
        for u in WHO {
            o.eq(w.balance(&c.t, &actor(u)), m.bal[&u], "vest/balance", || format!("{after}: balance of {u}"));
            o.eq(q("query_balance", vec![a(u)]).map(|v| v.i128()), Ok(m.bal[&u]), "vest/query", || format!("{after}: reported balance of {u}"));
            let l = m.sched.get(&u).cloned().unwrap_or_default();
            let info: Vec<ScVal> = l
                .iter()
                .map(|s| structv(vec![("balance", u128v(s.total - s.claimed)), ("recipient", a(u)), ("schedule", s.c.val())]))
                .collect();
            let all = q("query_all_vesting_info", vec![a(u)]);
            o.check(all == Ok(vecv(info.clone())), "vest/info", || format!("{after}: schedules of {u}: {all:?}"));
            for (i, s) in l.iter().enumerate() {
                owed += s.total - s.claimed;
                let x = q("query_vesting_info", vec![a(u), u64v(i as u64)]);
                o.check(x.as_ref() == Ok(&info[i]), "vest/info", || format!("{after}: schedule {i} of {u}: {x:?}"));
                let avail = (s.total - s.claimed) - s.c.locked(now);
                let x = q("query_available_to_claim", vec![a(u), u64v(i as u64)]).map(|v| v.i128());
                o.eq(x, Ok(avail as i128), "vest/available", || format!("{after}: claimable of schedule {i} of {u} at {now}"));
            }
            let n = l.len() as u64;
            o.check(q("query_vesting_info", vec![a(u), u64v(n)]).is_err(), "vest/phantom", || format!("{after}: schedule {n} of {u} exists"));
        }
        o.check(m.held >= 0 && m.held as u128 >= owed, "vest/solvent", || format!("{after}: holds {} but owes {owed}", m.held));
        let x = q("query_minter", vec![]);
        match &m.minter {
            None => o.check(x.is_err(), "vest/minter", || format!("{after}: minter {x:?}")),
            Some((u, cap)) => {
                let want = structv(vec![("address", a(*u)), ("mint_capacity", u128v(*cap))]);
                o.check(x == Ok(want), "vest/minter", || format!("{after}: minter {x:?}, expected {u} with {cap}"));
            }
        }
        let x = q("query_token_info", vec![]);
        o.check(matches!(&x, Ok(v) if v.field("address").address() == c.t && v.field("decimals").u32() == 7 && v.field("name").text() == "Vest" && v.field("symbol").text() == "VST"), "vest/query", || format!("{after}: token info {x:?}"));
    }
}

impl Spec for Vest {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        self.label.clone()
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.depth.0
        } else {
            self.depth.1
        }
    }
    fn setup(&self, w: &World) -> C {
        let h = w.upload("soroban_token_contract");
        let vh = w.upload("phoenix_vesting");
        let t = token(w, h, 1, 7);
        mint(w, &t, ADMIN, self.admin_has);
        mint(w, &t, U3, 1_000);
        let v = w.create(vh, 9, vec![]);
        w.call(&t, "set_admin", vec![addr(&v)]).unwrap();
        let info = structv(vec![("name", string("Vest")), ("symbol", string("VST")), ("decimals", u32v(7)), ("address", addr(&t))]);
        match self.minter {
            None => w.call(&v, "initialize", vec![a(ADMIN), info, u32v(self.limit)]),
            Some((m, cap)) => w.call(
                &v,
                "initialize_with_minter",
                vec![a(ADMIN), info, u32v(self.limit), structv(vec![("address", a(m)), ("mint_capacity", u128v(cap))])],
            ),
        }
        .expect("vesting initialize");
        C { v, t }
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        let mut m = M { sched: BTreeMap::new(), bal: WHO.iter().map(|u| (*u, 0)).collect(), held: 0, minter: self.minter };
        m.bal.insert(ADMIN, self.admin_has);
        m.bal.insert(U3, 1_000);
        for l in &self.begin {
            let r = self.create(w, c, l);
            o.check(r.is_ok() && self.created(&mut m, l).is_some(), "vest/refused", || format!("creating {l:?}: {r:?}"));
        }
        self.look(w, c, &m, o, "start");
        m
    }
    fn ops(&self, _c: &C, m: &M) -> Vec<Op> {
        (self.alphabet)(m, self.tier)
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let now = w.ts();
        let mut n = m.clone();
        // what the reference does: who has to sign it, or a refusal
        let want: Option<Vec<u8>> = match op {
            Op::Wait(d) => {
                if now + d > self.until {
                    o.same = true;
                    return;
                }
                w.advance(*d);
                self.look(w, c, m, o, &format!("{op:?}"));
                return;
            }
            Op::Create(l) => self.created(&mut n, l).map(|_| vec![ADMIN]),
            Op::Claim(u, i) => (|| {
                let s = n.sched.get_mut(u)?.get_mut(*i as usize)?;
                let x = s.total - s.claimed - s.c.locked(now);
                if x == 0 {
                    return None;
                }
                s.claimed += x;
                *n.bal.get_mut(u).unwrap() += x as i128;
                n.held -= x as i128;
                Some(vec![*u])
            })(),
            Op::Donate(x) => (|| {
                if *x > n.bal[&U3] || n.held.checked_add(*x).is_none() {
                    return None;
                }
                *n.bal.get_mut(&U3).unwrap() -= x;
                n.held += x;
                Some(vec![U3])
            })(),
            Op::Pay(x) => (|| {
                if *x > n.bal[&ADMIN] {
                    return None;
                }
                *n.bal.get_mut(&ADMIN).unwrap() -= x;
                *n.bal.get_mut(&U3).unwrap() += x;
                Some(vec![ADMIN])
            })(),
            Op::Mint(u, x) => (|| {
                let (who, cap) = n.minter?;
                if who != *u || *x <= 0 || (*x as u128) > cap || n.held.checked_add(*x).is_none() {
                    return None;
                }
                n.minter = Some((who, cap - *x as u128));
                n.held += x;
                Some(vec![*u])
            })(),
            Op::Burn(u, x) => (|| {
                if *x == 0 || *x > n.bal[u] as u128 {
                    return None;
                }
                *n.bal.get_mut(u).unwrap() -= *x as i128;
                Some(vec![*u])
            })(),
            Op::NewMinter(u, to) => (|| {
                let (who, cap) = n.minter.unwrap_or((ADMIN, 0));
                if who != *u {
                    return None;
                }
                n.minter = Some((*to, cap));
                Some(vec![*u])
            })(),
            Op::Capacity(u, x) => (|| {
                let (who, _) = n.minter?;
                if *u != ADMIN {
                    return None;
                }
                n.minter = Some((who, *x));
                Some(vec![*u])
            })(),
        };
        let r = match op {
            Op::Create(l) => self.create(w, c, l),
            Op::Claim(u, i) => w.call(&c.v, "claim", vec![a(*u), u64v(*i)]),
            Op::Donate(x) => w.call(&c.t, "transfer", vec![a(U3), addr(&c.v), i128v(*x)]),
            Op::Pay(x) => w.call(&c.t, "transfer", vec![a(ADMIN), a(U3), i128v(*x)]),
            Op::Mint(u, x) => w.call(&c.v, "mint", vec![a(*u), i128v(*x)]),
            Op::Burn(u, x) => w.call(&c.v, "burn", vec![a(*u), u128v(*x)]),
            Op::NewMinter(u, to) => w.call(&c.v, "update_minter", vec![a(*u), a(*to)]),
            Op::Capacity(u, x) => w.call(&c.v, "update_minter_capacity", vec![a(*u), u128v(*x)]),
            Op::Wait(_) => unreachable!(),
        };
        let kind = format!("{op:?}");
        let kind = kind.split(['(', ' ']).next().unwrap().to_lowercase();
        match (want, r) {
            (Some(who), Ok(_)) => {
                o.count(format!("{kind} ok"));
                o.eq(w.signers(), who.into_iter().map(actor).collect(), "vest/signer", || format!("{op:?}: who had to authorize it"));
                *m = n;
            }
            (None, Err(_)) => {
                o.count(format!("{kind} refused"));
                o.same = true;
                return;
            }
            (Some(_), Err(e)) => {
                o.fail("vest/refused", format!("{op:?} at {now} was refused ({e:?}) in {m:?}"));
                return;
            }
            (None, Ok(_)) => {
                o.fail("vest/accepted", format!("{op:?} at {now} was executed in {m:?}"));
                return;
            }
        }
        self.look(w, c, m, o, &format!("{op:?}"));
    }
}

fn good() -> Vec<Crv> {
    vec![
        Crv::Sl(T0 + 10, 120, T0 + 50, 0),
        Crv::Sl(T0, 1_000, T0 + 7, 0),
        Crv::Pl(vec![(T0 + 5, 100), (T0 + 20, 71), (T0 + 40, 71), (T0 + 60, 0)]),
        Crv::Pl(vec![(T0 - 51, 61), (T0 + 30, 0)]),
        Crv::Sl(1, 50, 10, 0),
        Crv::Pl(vec![(T0 + 3, 10), (T0 + 13, 10), (T0 + 14, 0)]),
        Crv::Sl(T0 + 1, 3, T0 + 40, 0),
        Crv::Sl(T0 + 2, 1_000_000_000_000_000_000_000_007, T0 + 29, 0),
        Crv::Pl(vec![(T0 + 20, 0)]),
        Crv::Pl(vec![(T0 + 4, 9), (T0 + 20, 0), (T0 + 30, 0)]),
        Crv::Sl(0, 70, T0 + 35, 0),
    ]
}
/// Schedules of more corners than most contracts take.
fn long() -> Vec<Crv> {
    vec![
        Crv::Pl(vec![(T0 + 2, 90), (T0 + 4, 81), (T0 + 9, 81), (T0 + 16, 40), (T0 + 25, 3), (T0 + 36, 0)]),
        Crv::Pl((0..=10).map(|k| (T0 + 3 + 4 * k, 60 - 6 * k as u128)).collect()),
        Crv::Pl(vec![(T0 + 1, 9), (T0 + 2, 8), (T0 + 3, 7), (T0 + 4, 6), (T0 + 5, 0)]),
        Crv::Pl(vec![(T0 + 7, 1_000_000), (T0 + 8, 1_000_000), (T0 + 12, 999_999), (T0 + 13, 500_000), (T0 + 14, 1), (T0 + 30, 1), (T0 + 31, 0)]),
    ]
}
fn bad() -> Vec<Crv> {
    vec![
        Crv::Con(0),
        Crv::Con(5),
        Crv::Sl(T0, 0, T0 + 9, 100),
        Crv::Sl(T0, 100, T0 + 9, 1),
        Crv::Sl(T0 + 9, 100, T0 + 9, 0),
        Crv::Sl(T0 + 9, 100, T0 + 8, 0),
        Crv::Pl(vec![]),
        Crv::Pl(vec![(0, 10), (T0 + 5, 0)]),
        Crv::Pl(vec![(T0 + 5, 10), (T0 + 5, 0)]),
        Crv::Pl(vec![(T0 + 5, 10), (T0 + 4, 0)]),
        Crv::Pl(vec![(T0 + 5, 10), (T0 + 9, 11), (T0 + 12, 0)]),
        Crv::Pl(vec![(T0 + 5, 10), (T0 + 9, 4), (T0 + 12, 5), (T0 + 13, 0)]),
        Crv::Pl(vec![(T0 + 5, 10), (T0 + 9, 4), (T0 + 12, 1)]),
        Crv::Pl(vec![(T0 + 5, 10), (T0 + 9, 0), (T0 + 12, 1)]),
        Crv::Pl(vec![(T0 + 5, 3)]),
        Crv::Pl(vec![(T0 + 1, 9), (T0 + 2, 8), (T0 + 3, 7), (T0 + 4, 6), (T0 + 5, 0)]),
        Crv::Pl(vec![(T0 + 1, 9), (T0 + 2, 8), (T0 + 3, 7), (T0 + 4, 6), (T0 + 5, 4), (T0 + 6, 0)]),
        Crv::Sl(T0, u128::MAX, T0 + 9, 0),
        Crv::Sl(T0, i128::MAX as u128 + 1, T0 + 9, 0),
    ]
}

fn claims(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    // every way to claim one schedule, second by second
    for (i, (limit, c)) in good().into_iter().map(|c| (LIMIT, c)).chain(long().into_iter().map(|c| (13, c))).enumerate() {
        let until = T0 + if tier == Tier::Quick { 44 } else { 64 };
        v.push(Box::new(Vest {
            label: format!("every-second-{i}"),
            admin_has: i128::MAX / 4,
            minter: None,
            begin: vec![vec![(U1, c)]],
            depth: (200, 200),
            alphabet: Box::new(|_, _| vec![Op::Claim(U1, 0), Op::Wait(1)]),
            tier,
            limit,
            until,
        }));
    }
    let g = good();
    let many = move |_: &M, _: Tier| {
        let mut v = vec![];
        for u in [U1, U2] {
            for i in 0..3 {
                v.push(Op::Claim(u, i));
            }
        }
        v.push(Op::Claim(U3, 0));
        v.push(Op::Claim(ADMIN, 0));
        for d in [1, 2, 7, 19, 40] {
            v.push(Op::Wait(d));
        }
        v.push(Op::Create(vec![(U1, g[3].clone()), (U2, g[4].clone())]));
        v.push(Op::Create(vec![(U2, g[1].clone())]));
        v
    };
    let g = good();
    v.push(Box::new(Vest {
        label: "several-schedules".into(),
        admin_has: 4_000,
        minter: None,
        begin: vec![vec![(U1, g[0].clone()), (U2, g[1].clone())], vec![(U2, g[2].clone()), (U1, g[6].clone())]],
        depth: (5, 6),
        alphabet: Box::new(many),
        tier,
        limit: LIMIT,
        until: T0 + 200,
    }));
    let seven: Vec<Crv> = (0..7u64).map(|k| Crv::Sl(T0 + 3 * k, 100 + 7 * k as u128, T0 + 30 - k, 0)).collect();
    v.push(Box::new(Vest {
        label: "many-schedules".into(),
        admin_has: 4_000,
        minter: None,
        begin: seven.iter().enumerate().map(|(k, c)| if k == 4 { vec![(U2, seven[5].clone()), (U1, c.clone())] } else { vec![(U1, c.clone())] }).collect(),
        depth: (4, 5),
        alphabet: Box::new(move |_, _| {
            let mut v: Vec<Op> = (0..8).map(|i| Op::Claim(U1, i)).collect();
            v.extend([Op::Claim(U2, 0), Op::Claim(U2, 1), Op::Wait(11), Op::Wait(40), Op::Create(vec![(U1, seven[2].clone())])]);
            v
        }),
        tier,
        limit: LIMIT,
        until: T0 + 200,
    }));
    // which schedules are taken
    for limit in [LIMIT, 1, 2, 3, 7, 13, u32::MAX] {
    v.push(Box::new(Vest {
        label: format!("acceptance-below-{limit}"),
        admin_has: 700,
        minter: None,
        begin: vec![],
        depth: (if limit == LIMIT { 2 } else { 1 }, 2),
        alphabet: Box::new(move |m, t| {
            let g = good();
            let b = [bad(), long()].concat();
            let mut v = vec![Op::Create(vec![]), Op::Claim(U1, 0), Op::Wait(13)];
            for c in g.iter().chain(b.iter()) {
                v.push(Op::Create(vec![(U1, c.clone())]));
                v.push(Op::Create(vec![(U2, g[0].clone()), (U1, c.clone())]));
                v.push(Op::Create(vec![(U1, c.clone()), (U2, g[0].clone())]));
            }
            v.push(Op::Create(vec![(U1, g[0].clone()), (U1, g[0].clone())]));
            v.push(Op::Create(vec![(U1, g[0].clone()), (U2, g[4].clone()), (U1, g[4].clone())]));
            let have = m.bal[&ADMIN] as u128;
            for x in [have, have + 1, have.saturating_sub(1)] {
                v.push(Op::Create(vec![(U1, Crv::Sl(T0, x, T0 + 30, 0))]));
                v.push(Op::Create(vec![(U1, Crv::Sl(T0, x / 2, T0 + 30, 0)), (U2, Crv::Pl(vec![(T0, x - x / 2), (T0 + 9, 0)]))]));
            }
            if t == Tier::Thorough {
                for x in &g {
                    for y in &g {
                        v.push(Op::Create(vec![(U1, x.clone()), (U2, y.clone()), (U3, x.clone())]));
                    }
                }
            }
            v
        }),
        tier,
        limit,
        until: T0 + 200,
    }));
    }
    v
}

fn minter(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let full = |m: &M, t: Tier| {
        let g = good();
        let mut v = vec![];
        let cap = m.minter.map_or(0, |x| x.1);
        let minter = m.minter.map_or(ADMIN, |x| x.0);
        for u in [ADMIN, U1, U2] {
            for x in if u == minter { vec![-1, 0, 1, 5, cap as i128, (cap as i128).wrapping_add(1), i128::MAX] } else { vec![1, cap as i128] } {
                v.push(Op::Mint(u, x));
            }
            for to in if t == Tier::Quick { vec![U1, U2] } else { vec![ADMIN, U1, U2] } {
                v.push(Op::NewMinter(u, to));
            }
            for x in if u == ADMIN { vec![0, 3, cap.wrapping_add(10), u128::MAX] } else { vec![cap.wrapping_add(1), cap / 2] } {
                if x != u128::MAX || t == Tier::Thorough {
                    v.push(Op::Capacity(u, x));
                }
            }
        }
        for u in [ADMIN, U3] {
            let b = m.bal[&u] as u128;
            for x in [0, 1, b, b + 1, u128::MAX, (u128::MAX - b).wrapping_add(1)] {
                v.push(Op::Burn(u, x));
            }
        }
        v.push(Op::Create(vec![(U3, g[1].clone())]));
        v.push(Op::Create(vec![(U1, g[4].clone()), (U3, g[3].clone())]));
        v.push(Op::Claim(U3, 0));
        v.push(Op::Claim(U1, 0));
        v.push(Op::Wait(3));
        v.push(Op::Donate(4));
        v.push(Op::Pay(300));
        v
    };
    v.push(Box::new(Vest {
        label: "with-minter".into(),
        admin_has: 1_200,
        minter: Some((U1, 12)),
        begin: vec![vec![(U3, Crv::Sl(T0 + 1, 30, T0 + 20, 0))]],
        depth: (4, 5),
        alphabet: Box::new(full),
        tier,
        limit: LIMIT,
        until: T0 + 100,
    }));
    v.push(Box::new(Vest {
        label: "without-minter".into(),
        admin_has: 1_050,
        minter: None,
        begin: vec![],
        depth: (4, 5),
        alphabet: Box::new(full),
        tier,
        limit: LIMIT,
        until: T0 + 100,
    }));
    v.push(Box::new(Vest {
        label: "holdings".into(),
        admin_has: 1_300,
        minter: Some((U2, 40)),
        begin: vec![],
        depth: (5, 7),
        alphabet: Box::new(|m, _| {
            let g = good();
            let have = m.bal[&ADMIN] as u128;
            vec![
                Op::Create(vec![(U1, g[1].clone())]),
                Op::Create(vec![(U1, g[4].clone()), (U2, g[3].clone()), (U3, g[5].clone())]),
                Op::Create(vec![(U2, g[3].clone()), (U3, Crv::Sl(T0 + 2, 61, T0 + 9, 0))]),
                Op::Create(vec![(U2, Crv::Sl(T0, have, T0 + 11, 0))]),
                Op::Create(vec![(U2, Crv::Sl(T0, have + 1, T0 + 11, 0))]),
                Op::Claim(U1, 0),
                Op::Claim(U1, 1),
                Op::Claim(U2, 0),
                Op::Claim(U3, 0),
                Op::Claim(U3, 1),
                Op::Burn(U1, (m.bal[&U1] as u128 + 1) / 2),
                Op::Mint(U2, 11),
                Op::Donate(9),
                Op::Pay(600),
                Op::Wait(5),
                Op::Wait(9),
            ]
        }),
        tier,
        limit: LIMIT,
        until: T0 + 100,
    }));
    v
}
