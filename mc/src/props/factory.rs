//! The factory: its registry, its configuration and its users' portfolios.
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use soroban_env_host::xdr::ScVal;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "P17", scenarios: registry, assumptions: host_assumptions },
        Property { id: "P18", scenarios: settings, assumptions: host_assumptions },
    ]
}

/// What a pool is asked to be.
#[derive(Clone, Debug, PartialEq)]
pub struct Ask {
    pub a: usize,
    pub b: usize,
    pub stable: bool,
    pub fee: i64,
    pub max_fee: i64,
    pub slip: i64,
    pub def_slip: i64,
    pub spread: i64,
    pub referral: i64,
    pub bond: i128,
    pub reward: i128,
    pub complexity: u32,
    pub amp: Option<u64>,
    pub admin: u8,
}
impl Ask {
    pub fn new(a: usize, b: usize, stable: bool) -> Ask {
        Ask { a, b, stable, fee: 30, max_fee: 1_000, slip: 5_000, def_slip: 2_500, spread: 4_000, referral: 3_000, bond: 10, reward: 5, complexity: 7, amp: stable.then_some(6), admin: U3 }
    }
    pub fn info(&self, t: &[Addr]) -> ScVal {
        structv(vec![
            ("admin", a(self.admin)),
            ("swap_fee_bps", i64v(self.fee)),
            ("fee_recipient", a(FEE)),
            ("max_allowed_slippage_bps", i64v(self.slip)),
            ("default_slippage_bps", i64v(self.def_slip)),
            ("max_allowed_spread_bps", i64v(self.spread)),
            ("max_referral_bps", i64v(self.referral)),
            ("token_init_info", structv(vec![("token_a", addr(&t[self.a])), ("token_b", addr(&t[self.b]))])),
            (
                "stake_init_info",
                structv(vec![("min_bond", i128v(self.bond)), ("min_reward", i128v(self.reward)), ("manager", a(MGR)), ("max_complexity", u32v(self.complexity))]),
            ),
        ])
    }
    /// Whether a pool like this may exist.
    fn sound(&self) -> bool {
        let bps = |x: i64| (0..=10_000).contains(&x);
        self.a < self.b
            && bps(self.fee)
            && bps(self.max_fee)
            && self.fee <= self.max_fee
            && bps(self.slip)
            && bps(self.def_slip)
            && bps(self.spread)
            && bps(self.referral)
            && self.bond > 0
            && self.reward > 0
            && self.complexity > 0
            && (!self.stable || self.amp.is_some())
    }
}

#[derive(Clone, Debug)]
struct P {
    ask: Ask,
    addr: Addr,
    fee: i64,
}

#[derive(Clone, Debug)]
enum Op {
    Create(u8, Ask),
    Provide(u8, usize, i128, i128),
    Withdraw(u8, usize, i128),
    Swap(u8, usize, i128),
    Give(u8, u8, usize, i128),
    Bond(u8, usize, i128),
    Unbond(u8, usize),
    Fee(usize, i64),
    Accounts(u8, Vec<u8>, Vec<u8>),
    Hashes([Option<u8>; 3]),
    Update(u8),
    Wait(u64),
}

#[derive(Clone, Debug)]
struct M {
    white: Vec<u8>,
    pools: Vec<P>,
    /// which of the two versions of the code: pool, stake, token, stable pool
    /// (2: pool and stable pool exchanged)
    code: [u8; 4],
}

struct C {
    f: Addr,
    t: Vec<Addr>,
    hop: Addr,
    /// [version][pool, stake, token, stable pool]
    h: [[[u8; 32]; 4]; 3],
    fac: [u8; 32],
}

#[derive(Clone, Copy, PartialEq)]
enum Look {
    Registry,
    Settings,
    Portfolio,
}

struct Fac {
    label: &'static str,
    white: Vec<u8>,
    /// decimals of the shares
    decimals: u32,
    begin: Vec<Op>,
    look: Look,
    depth: (usize, usize),
    alphabet: fn(&M, Tier) -> Vec<Op>,
    tier: Tier,
}

/// The same code under another hash.
pub fn other(name: &str) -> Vec<u8> {
    let mut w = wasm(name);
    w.extend_from_slice(&[0, 4, 2, b'v', b'2', 1]);
    w
}

fn create(w: &World, c: &C, who: u8, k: &Ask) -> Res {
    w.call(
        &c.f,
        "create_liquidity_pool",
        vec![a(who), k.info(&c.t), string("Share"), string("SHR"), u32v(k.stable as u32), opt(k.amp, u64v), i64v(k.def_slip), i64v(k.max_fee)],
    )
}

/// A part of what a user has, or (negative) so many shares.
fn share(w: &World, p: &Pool, u: u8, part: i128) -> i128 {
    if part < 0 {
        -part
    } else {
        w.balance(&p.lp, &actor(u)) / part
    }
}

fn own_info(w: &World, p: &Addr) -> Res {
    w.query(p, "query_pool_info_for_factory", vec![])
}

impl Fac {
    /// A pool that was just created is what was asked for.
    fn fresh(&self, w: &World, c: &C, m: &M, p: &P, o: &mut Out) {
        let k = &p.ask;
        let q = |x: &Addr, f: &str| w.query(x, f, vec![]).unwrap_or(ScVal::Void);
        let cfg = q(&p.addr, "query_config");
        let want: Vec<(&str, ScVal)> = vec![
            ("token_a", addr(&c.t[k.a])),
            ("token_b", addr(&c.t[k.b])),
            ("total_fee_bps", i64v(k.fee)),
            ("fee_recipient", a(FEE)),
            ("max_allowed_slippage_bps", i64v(k.slip)),
            ("max_allowed_spread_bps", i64v(k.spread)),
        ];
        for (n, v) in want {
            o.check(cfg.try_field(n) == Some(&v), "factory/pool-config", || format!("{k:?}: {n} of the new pool is {:?}", cfg.try_field(n).map(show)));
        }
        o.check(cfg.try_field("pool_type") == Some(&u32v(k.stable as u32)), "factory/pool-type", || format!("{k:?}: {:?}", cfg.try_field("pool_type")));
        let (Some(lp), Some(stake)) = (cfg.try_field("share_token"), cfg.try_field("stake_contract")) else {
            o.fail("factory/pool-config", "no share token or staking contract");
            return;
        };
        let (lp, stake) = (lp.address(), stake.address());
        o.check(q(&lp, "decimals") == u32v(if k.stable { 7 } else { self.decimals }) && q(&lp, "name") == string("Share") && q(&lp, "symbol") == string("SHR"), "factory/share-token", || format!("{k:?}: {} {} {}", show(&q(&lp, "decimals")), show(&q(&lp, "name")), show(&q(&lp, "symbol"))));
        let sc = q(&stake, "query_config");
        let sc = sc.try_field("config").cloned().unwrap_or(ScVal::Void);
        for (n, v) in [("lp_token", addr(&lp)), ("min_bond", i128v(k.bond)), ("min_reward", i128v(k.reward)), ("manager", a(MGR)), ("owner", addr(&c.f)), ("max_complexity", u32v(k.complexity))] {
            o.check(sc.try_field(n) == Some(&v), "factory/stake-config", || format!("{k:?}: {n} of the new staking contract is {:?}", sc.try_field(n).map(show)));
        }
        o.check(q(&stake, "query_admin") == a(k.admin), "factory/stake-config", || format!("{k:?}: administrator of the staking contract {}", show(&q(&stake, "query_admin"))));
        let code = [(&p.addr, if k.stable { 3 } else { 0 }), (&stake, 1), (&lp, 2)];
        for (x, i) in code {
            o.eq(w.code_of(x), Some(c.h[m.code[i] as usize][i]), "factory/code", || format!("{k:?}: code {i} (0 pool, 1 stake, 2 token, 3 stable pool) of what was deployed"));
        }
        let s = w.snapshot();
        let r = if k.stable {
            w.call(&p.addr, "update_config", vec![a(k.admin), void(), void(), void(), void(), void()])
        } else {
            w.call(&p.addr, "update_config", vec![void(); 6])
        };
        o.check(r.is_ok() && w.signers() == vec![actor(k.admin)], "factory/pool-admin", || format!("{k:?}: the pool's administrator is not the one asked for: {r:?}, {:?}", w.signers()));
        // it trades the two tokens
        let pool = Pool { addr: p.addr.clone(), a: c.t[k.a].clone(), b: c.t[k.b].clone(), lp, stake, dec: (7, 7), lp_dec: self.decimals };
        let r = provide(w, k.stable, &pool, U1, 1_000_000, 1_000_000);
        o.check(r.is_ok() || k.def_slip > k.slip, "factory/pool-works", || format!("{k:?}: first deposit into the new pool: {r:?}"));
        // a deposit off the ratio, without a limit of its own: the default decides
        if r.is_ok() && !k.stable {
            let s = w.snapshot();
            for off in [500, 1_500, 2_490, 2_510, 6_000, 9_900] {
                let r = provide(w, false, &pool, U2, 500_000, 500_000 - off * 50);
                // the ratio is off by so much, the way round that makes it more
                let more = off * 10_000 / (10_000 - off) + 2;
                let (must, must_not) = (more <= k.def_slip as i128, off > k.def_slip as i128 + 2);
                o.check(r.is_ok() && !must_not || r.is_err() && !must, "factory/default-slippage", || format!("{k:?}: deposit {off} bps off the ratio: {r:?}"));
                w.restore(&s);
            }
        }
        for t in if r.is_ok() { vec![k.a, k.b] } else { vec![] } {
            let r = swap(w, &p.addr, U1, &c.t[t], 1_000);
            let net = r.as_ref().map(|v| v.i128()).unwrap_or(-1);
            o.check((900..=1_010).contains(&net) || k.fee > 900 || k.spread < 20, "factory/pool-works", || format!("{k:?}: swap in the new pool: {r:?}"));
        }
        for t in 0..c.t.len() {
            if t != k.a && t != k.b {
                o.check(swap(w, &p.addr, U1, &c.t[t], 1_000).is_err(), "factory/pool-works", || format!("{k:?}: the new pool takes another token"));
            }
        }
        w.restore(&s);
    }

    fn registry(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        let list: Vec<ScVal> = m.pools.iter().map(|p| addr(&p.addr)).collect();
        let q = w.query(&c.f, "query_pools", vec![]);
        o.check(q == Ok(vecv(list)), "factory/pools", || format!("{after}: pools {:?}", q.as_ref().map(show)));
        let own: Vec<ScVal> = m.pools.iter().map(|p| own_info(w, &p.addr).unwrap_or(ScVal::Void)).collect();
        for (p, i) in m.pools.iter().zip(&own) {
            o.check(
                i.try_field("pool_address") == Some(&addr(&p.addr)) && i.try_field("total_fee_bps") == Some(&i64v(p.fee)) && i.try_field("pool_response").cloned() == w.query(&p.addr, "query_pool_info", vec![]).ok(),
                "factory/info",
                || format!("{after}: {}", show(i)),
            );
            let d = w.query(&c.f, "query_pool_details", vec![addr(&p.addr)]);
            o.check(d.as_ref() == Ok(i), "factory/details", || format!("{after}: details {:?}, of the pool itself {}", d.as_ref().map(show), show(i)));
        }
        let d = w.query(&c.f, "query_all_pools_details", vec![]);
        o.check(d.as_ref() == Ok(&vecv(own)), "factory/all-details", || format!("{after}: {:?}", d.as_ref().map(show)));
        for i in 0..c.t.len() {
            for j in 0..c.t.len() {
                let want = m.pools.iter().rev().find(|p| (p.ask.a, p.ask.b) == (i, j) || (p.ask.a, p.ask.b) == (j, i)).map(|p| addr(&p.addr));
                let got = w.query(&c.f, "query_for_pool_by_token_pair", vec![addr(&c.t[i]), addr(&c.t[j])]).ok();
                o.check(got == want, "factory/pair", || format!("{after}: pool of tokens {i} and {j}: {:?}, expected {:?}", got.as_ref().map(show), want.as_ref().map(show)));
            }
        }
    }

    fn config(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        let cfg = w.query(&c.f, "get_config", vec![]).unwrap_or(ScVal::Void);
        let want = [
            ("admin", a(ADMIN)),
            ("multihop_address", addr(&c.hop)),
            ("lp_wasm_hash", bytes(&c.h[m.code[0] as usize][0])),
            ("stake_wasm_hash", bytes(&c.h[m.code[1] as usize][1])),
            ("token_wasm_hash", bytes(&c.h[m.code[2] as usize][2])),
            ("lp_token_decimals", u32v(self.decimals)),
        ];
        for (n, v) in want {
            o.check(cfg.try_field(n) == Some(&v), "factory/config", || format!("{after}: {n} is {:?}, expected {}", cfg.try_field(n).map(show), show(&v)));
        }
        let mut l: Vec<Addr> = cfg.try_field("whitelisted_accounts").map(|v| v.list().iter().map(|x| x.address()).collect()).unwrap_or_default();
        l.sort();
        l.dedup();
        let mut x: Vec<Addr> = m.white.iter().map(|u| actor(*u)).collect();
        x.sort();
        o.check(l == x, "factory/whitelist", || format!("{after}: whitelist {:?}, expected {:?}", l.iter().map(short).collect::<Vec<_>>(), m.white));
        // the multihop contract is the same administrator's
        let s = w.snapshot();
        let code = w.code_of(&c.hop).expect("multihop");
        let r = w.call(&c.hop, "update", vec![bytes(&code)]);
        o.check(r.is_ok() && w.signers() == vec![actor(ADMIN)], "factory/multihop", || format!("{after}: the multihop contract's administrator: {r:?}, {:?}", w.signers()));
        w.restore(&s);
        o.eq(w.query(&c.f, "get_admin", vec![]).map(|v| v.address()), Ok(actor(ADMIN)), "factory/config", || format!("{after}: administrator"));
    }

    fn portfolio(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        for u in [U1, U2, U3] {
            let mut lps = vec![];
            let mut stakes = vec![];
            for p in &m.pools {
                let i = own_info(w, &p.addr).unwrap();
                let r = i.field("pool_response");
                let lp = r.field("asset_lp_share").field("address").address();
                let stake = r.field("stake_address").address();
                let st = w.query(&stake, "query_staked", vec![a(u)]).unwrap();
                let st = st.field("stakes").clone();
                let sum = w.balance(&lp, &actor(u)) + st.list().iter().map(|s| s.field("stake").i128()).sum::<i128>();
                if sum > 0 {
                    let total = w.query(&p.addr, "query_total_issued_lp", vec![]).unwrap().i128();
                    let q = w.query(&p.addr, "query_share", vec![i128v(sum)]).unwrap();
                    for (n, x) in [("asset_a", 0), ("asset_b", 1)] {
                        let have = r.field(n).field("amount").i128();
                        let exact: i128 = i128::try_from(big(have) * big(sum) / big(total)).unwrap();
                        let got = q.list()[x].field("amount").i128();
                        o.check((exact - 1..=exact).contains(&got), "factory/share", || format!("{after}: {sum} of {total} shares are worth {exact}, reported {got}"));
                    }
                    lps.push(structv(vec![("assets", q)]));
                }
                if !st.list().is_empty() {
                    stakes.push(structv(vec![("staking_contract", addr(&stake)), ("stakes", st)]));
                }
            }
            for s in [false, true] {
                let want = structv(vec![("lp_portfolio", vecv(lps.clone())), ("stake_portfolio", vecv(if s { stakes.clone() } else { vec![] }))]);
                let got = w.query(&c.f, "query_user_portfolio", vec![a(u), boolv(s)]);
                o.check(got.as_ref() == Ok(&want), "factory/portfolio", || format!("{after}: portfolio of {u} (stakes: {s}): {:?}, expected {}", got.as_ref().map(show), show(&want)));
            }
        }
    }

    fn look(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        match self.look {
            Look::Registry => {
                self.registry(w, c, m, o, after);
                self.config(w, c, m, o, after);
            }
            Look::Settings => {
                self.config(w, c, m, o, after);
                self.registry(w, c, m, o, after);
            }
            Look::Portfolio => self.portfolio(w, c, m, o, after),
        }
    }

    /// Parts of a pool.
    fn parts(&self, w: &World, c: &C, p: &P) -> Pool {
        let cfg = w.query(&p.addr, "query_config", vec![]).unwrap();
        Pool {
            addr: p.addr.clone(),
            a: c.t[p.ask.a].clone(),
            b: c.t[p.ask.b].clone(),
            lp: cfg.field("share_token").address(),
            stake: cfg.field("stake_contract").address(),
            dec: (7, 7),
            lp_dec: 7,
        }
    }

    fn act(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let refused = |m: &M, o: &mut Out, want: bool, r: &Res, what: &str| -> bool {
            let _ = m;
            match (want, r) {
                (true, Ok(_)) => {
                    o.count(format!("{what} ok"));
                    false
                }
                (false, Err(_)) => {
                    o.count(format!("{what} refused"));
                    o.same = true;
                    true
                }
                (true, Err(e)) => {
                    o.fail(format!("factory/{what}-refused"), format!("{op:?} was refused: {e:?}"));
                    true
                }
                (false, Ok(_)) => {
                    o.fail(format!("factory/{what}-accepted"), format!("{op:?} was executed"));
                    true
                }
            }
        };
        let signed = |o: &mut Out, u: u8| {
            o.eq(w.signers(), vec![actor(u)], "factory/signer", || format!("{op:?}: who had to authorize it"));
        };
        match op {
            Op::Create(u, k) => {
                let ok = m.white.contains(u) && k.sound() && m.code[if k.stable { 3 } else { 0 }] != 2 && !m.pools.iter().any(|p| (p.ask.a, p.ask.b) == (k.a, k.b));
                let r = create(w, c, *u, k);
                if refused(m, o, ok, &r, "create") {
                    return;
                }
                signed(o, *u);
                let p = P { ask: k.clone(), addr: r.unwrap().address(), fee: k.fee };
                o.check(!m.pools.iter().any(|x| x.addr == p.addr), "factory/pools", || format!("{op:?}: the address of another pool"));
                m.pools.push(p.clone());
                if self.look != Look::Portfolio {
                    self.fresh(w, c, m, &p, o);
                }
            }
            Op::Provide(u, i, x, y) => {
                let p = self.parts(w, c, &m.pools[*i]);
                let r = own_info(w, &p.addr).unwrap();
                let r = |n: &str| r.field("pool_response").field(n).field("amount").i128();
                let (ra, rb) = (r("asset_a"), r("asset_b"));
                let y = if *y == 0 && ra > 0 { (x * rb + ra - 1) / ra } else if *y == 0 { *x * 2 / 3 } else { *y };
                if provide(w, m.pools[*i].ask.stable, &p, *u, *x, y).is_err() {
                    o.same = true;
                    o.count("provide refused");
                }
            }
            Op::Withdraw(u, i, part) => {
                let p = self.parts(w, c, &m.pools[*i]);
                let x = share(w, &p, *u, *part);
                if w.call(&p.addr, "withdraw_liquidity", vec![a(*u), i128v(x), i128v((*part > 0) as i128), i128v((*part > 0) as i128), void()]).is_err() {
                    o.same = true;
                    o.count("withdraw refused");
                }
            }
            Op::Swap(u, i, x) => {
                let p = self.parts(w, c, &m.pools[*i]);
                if swap(w, &p.addr, *u, &p.a, *x).is_err() {
                    o.same = true;
                    o.count("swap refused");
                }
            }
            Op::Give(u, to, i, part) => {
                let p = self.parts(w, c, &m.pools[*i]);
                let x = share(w, &p, *u, *part);
                if w.call(&p.lp, "transfer", vec![a(*u), a(*to), i128v(x)]).is_err() {
                    o.same = true;
                }
            }
            Op::Bond(u, i, part) => {
                let p = self.parts(w, c, &m.pools[*i]);
                let x = share(w, &p, *u, *part);
                if w.call(&p.stake, "bond", vec![a(*u), i128v(x)]).is_err() {
                    o.same = true;
                    o.count("bond refused");
                }
            }
            Op::Unbond(u, i) => {
                let p = self.parts(w, c, &m.pools[*i]);
                let st = w.query(&p.stake, "query_staked", vec![a(*u)]).unwrap();
                match st.field("stakes").list().first() {
                    Some(s) => {
                        let r = w.call(&p.stake, "unbond", vec![a(*u), s.field("stake").clone(), s.field("stake_timestamp").clone()]);
                        o.check(r.is_ok(), "factory/unbond", || format!("{op:?}: {r:?}"));
                    }
                    None => o.same = true,
                }
            }
            Op::Fee(i, f) => {
                let p = &m.pools[*i];
                let r = if p.ask.stable {
                    w.call(&p.addr, "update_config", vec![a(p.ask.admin), void(), i64v(*f), void(), void(), void()])
                } else {
                    w.call(&p.addr, "update_config", vec![void(), i64v(*f), void(), void(), void(), void()])
                };
                if refused(m, o, (0..=10_000).contains(f), &r, "fee") {
                    return;
                }
                m.pools[*i].fee = *f;
            }
            Op::Accounts(u, add, rm) => {
                let l = |v: &[u8]| vecv(v.iter().map(|x| a(*x)).collect());
                let r = w.call(&c.f, "update_whitelisted_accounts", vec![a(*u), l(add), l(rm)]);
                if refused(m, o, *u == ADMIN, &r, "accounts") {
                    return;
                }
                signed(o, *u);
                m.white.extend(add.iter());
                m.white.retain(|x| !rm.contains(x));
                m.white.sort();
                m.white.dedup();
            }
            Op::Hashes(v) => {
                let args = (0..3).map(|i| opt(v[i], |k| bytes(&c.h[k as usize][i]))).collect();
                let r = w.call(&c.f, "update_wasm_hashes", args);
                if refused(m, o, true, &r, "hashes") {
                    return;
                }
                signed(o, ADMIN);
                for i in 0..3 {
                    m.code[i] = v[i].unwrap_or(m.code[i]);
                }
            }
            Op::Update(k) => {
                let r = w.call(&c.f, "update", vec![bytes(&c.fac), bytes(&c.h[*k as usize][3])]);
                if refused(m, o, true, &r, "update") {
                    return;
                }
                signed(o, ADMIN);
                o.eq(w.code_of(&c.f), Some(c.fac), "factory/code", || "the factory's code".into());
                m.code[3] = *k;
            }
            Op::Wait(s) => w.advance(*s),
        }
    }
}

impl Spec for Fac {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        self.label.into()
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.depth.0
        } else {
            self.depth.1
        }
    }
    fn setup(&self, w: &World) -> C {
        let names = ["phoenix_pool", "phoenix_stake", "soroban_token_contract", "phoenix_pool_stable"];
        let h0 = names.map(|n| w.upload(n));
        let h = [h0, names.map(|n| w.upload_bytes(other(n))), [h0[3], h0[1], h0[2], h0[0]]];
        let fac = w.upload("phoenix_factory");
        let hop = w.upload("phoenix_multihop");
        let mut t: Vec<Addr> = (1..=4).map(|s| token(w, h[0][2], s, 7)).collect();
        t.sort();
        for x in &t {
            for u in [U1, U2] {
                mint(w, x, u, 1_000_000_000);
            }
        }
        let f = w.create(fac, 77, vec![]);
        let white = vecv(self.white.iter().map(|u| a(*u)).collect());
        w.call(&f, "initialize", vec![a(ADMIN), bytes(&hop), bytes(&h[0][0]), bytes(&h[0][3]), bytes(&h[0][1]), bytes(&h[0][2]), white, u32v(self.decimals)]).expect("factory initialize");
        let hop = w.call(&f, "get_config", vec![]).unwrap().field("multihop_address").address();
        C { f, t, hop, h, fac }
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        let mut white = self.white.clone();
        white.sort();
        white.dedup();
        let mut m = M { white, pools: vec![], code: [0; 4] };
        for op in &self.begin {
            self.act(w, c, &mut m, op, o);
        }
        self.look(w, c, &m, o, "start");
        m
    }
    fn ops(&self, _c: &C, m: &M) -> Vec<Op> {
        (self.alphabet)(m, self.tier)
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        self.act(w, c, m, op, o);
        if !o.same && o.violations.is_empty() {
            self.look(w, c, m, o, &format!("{op:?}"));
        }
    }
}

fn registry(tier: Tier) -> Vec<Box<dyn Scenario>> {
    vec![
        Box::new(Fac {
            label: "parameters",
            white: vec![ADMIN, U1],
            decimals: 7,
            begin: vec![],
            look: Look::Registry,
            depth: (2, 2),
            tier,
            alphabet: |m, t| {
                let mut v = vec![];
                let full = m.pools.is_empty() || t == Tier::Thorough;
                for stable in [false, true] {
                    let mut k = vec![];
                    let base = Ask::new(0, 1, stable);
                    for x in [-1, 0, 1, 9_999, 10_000, 10_001, i64::MIN, i64::MAX] {
                        k.push(Ask { slip: x, ..base.clone() });
                        k.push(Ask { def_slip: x, ..base.clone() });
                        k.push(Ask { spread: x, ..base.clone() });
                        k.push(Ask { referral: x, ..base.clone() });
                        k.push(Ask { max_fee: x, ..base.clone() });
                        k.push(Ask { fee: x, max_fee: 10_000, ..base.clone() });
                        k.push(Ask { fee: x, max_fee: x, ..base.clone() });
                        k.push(Ask { fee: x, max_fee: 9_998, ..base.clone() });
                    }
                    for x in [i128::MIN, -1, 0, 1] {
                        k.push(Ask { bond: x, ..base.clone() });
                        k.push(Ask { reward: x, ..base.clone() });
                    }
                    k.push(Ask { complexity: 0, ..base.clone() });
                    k.push(Ask { amp: None, ..base.clone() });
                    k.push(Ask { amp: Some(1), ..base.clone() });
                    for i in 0..4 {
                        for j in 0..4 {
                            k.push(Ask { a: i, b: j, ..base.clone() });
                        }
                    }
                    for x in k {
                        if full || (x.a, x.b) != (0, 1) {
                            v.push(Op::Create(U1, x));
                        }
                    }
                }
                for u in [ADMIN, U2, U3, ATT] {
                    v.push(Op::Create(u, Ask::new(0, 1, false)));
                    v.push(Op::Create(u, Ask::new(2, 3, true)));
                }
                v
            },
        }),
        Box::new(Fac {
            label: "registry-of-many",
            white: vec![ADMIN, U1],
            decimals: 7,
            begin: vec![
                Op::Create(U1, Ask::new(0, 1, true)),
                Op::Create(ADMIN, Ask::new(1, 2, false)),
                Op::Create(U1, Ask::new(0, 3, true)),
                Op::Provide(U1, 1, 50_000, 70_000),
                Op::Create(U1, Ask::new(1, 3, false)),
            ],
            look: Look::Registry,
            depth: (2, 3),
            tier,
            alphabet: |m, _| {
                let mut v = vec![];
                for (i, j) in [(0, 1), (0, 2), (1, 2), (2, 3), (1, 3)] {
                    for s in [false, true] {
                        v.push(Op::Create(U1, Ask::new(i, j, s)));
                    }
                }
                for i in 0..m.pools.len() {
                    v.push(Op::Provide(U2, i, 60_000, 50_000));
                }
                v.push(Op::Update(1));
                v.push(Op::Hashes([Some(1), None, None]));
                v
            },
        }),
        Box::new(Fac {
            label: "shares-of-9-decimals",
            white: vec![ADMIN, U1],
            decimals: 9,
            begin: vec![],
            look: Look::Registry,
            depth: (1, 2),
            tier,
            alphabet: |_, _| vec![Op::Create(U1, Ask::new(0, 1, false)), Op::Create(ADMIN, Ask::new(1, 2, true)), Op::Hashes([None, None, Some(1)])],
        }),
        Box::new(Fac {
            label: "shares-of-3-decimals",
            white: vec![ADMIN, U1],
            decimals: 3,
            begin: vec![],
            look: Look::Registry,
            depth: (1, 2),
            tier,
            alphabet: |_, _| vec![Op::Create(U1, Ask::new(0, 1, false)), Op::Create(ADMIN, Ask::new(1, 2, true)), Op::Accounts(ADMIN, vec![U2], vec![])],
        }),
        Box::new(Fac {
            label: "registry",
            white: vec![ADMIN, U1],
            decimals: 7,
            begin: vec![],
            look: Look::Registry,
            depth: (4, 6),
            tier,
            alphabet: |m, _| {
                let mut v = vec![];
                for (i, j) in [(0, 1), (0, 2), (1, 2), (0, 3)] {
                    v.push(Op::Create(U1, Ask::new(i, j, false)));
                }
                v.push(Op::Create(ADMIN, Ask { fee: 0, admin: U2, ..Ask::new(1, 2, true) }));
                v.push(Op::Create(ADMIN, Ask { fee: 5, admin: U1, ..Ask::new(0, 1, true) }));
                v.push(Op::Create(U1, Ask::new(2, 1, false)));
                v.push(Op::Create(U1, Ask::new(1, 1, false)));
                v.push(Op::Create(U2, Ask::new(0, 1, false)));
                v.push(Op::Accounts(ADMIN, vec![U2], vec![U1]));
                for i in 0..m.pools.len() {
                    v.push(Op::Provide(U1, i, 50_000, 70_000));
                    v.push(Op::Fee(i, 77));
                    v.push(Op::Fee(i, 10_001));
                }
                v
            },
        }),
    ]
}

fn settings(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    for (label, white) in [("whitelist", vec![ADMIN, U1]), ("whitelist-with-a-repeated-account", vec![U1, U2, U1])] {
        v.push(Box::new(Fac {
            label,
            white,
            decimals: 7,
            begin: vec![],
            look: Look::Settings,
            depth: (3, 4),
            tier,
            alphabet: |_, t| {
                let mut v = vec![];
                let sets: Vec<Vec<u8>> = vec![vec![], vec![U1], vec![U2], vec![U1, U2], vec![U2, U2], vec![U2, U1, U3]];
                for x in &sets {
                    for y in &sets {
                        v.push(Op::Accounts(ADMIN, x.clone(), y.clone()));
                    }
                }
                v.push(Op::Accounts(U1, vec![U2], vec![]));
                v.push(Op::Accounts(ATT, vec![ATT], vec![]));
                v.push(Op::Accounts(U3, vec![], vec![U1]));
                for u in [ADMIN, U1, U2, U3] {
                    v.push(Op::Create(u, Ask::new(0, 1, false)));
                    if t == Tier::Thorough {
                        v.push(Op::Create(u, Ask::new(1, 2, true)));
                    }
                }
                v
            },
        }));
    }
    v.push(Box::new(Fac {
        label: "code-hashes",
        white: vec![U1],
        decimals: 7,
        begin: vec![],
        look: Look::Settings,
        depth: (4, 6),
        tier,
        alphabet: |_, _| {
            let mut v = vec![];
            for i in 0..3 {
                for k in [0, 1] {
                    let mut h = [None; 3];
                    h[i] = Some(k);
                    v.push(Op::Hashes(h));
                }
            }
            v.push(Op::Hashes([Some(1), None, Some(1)]));
            v.push(Op::Hashes([Some(0), Some(1), Some(0)]));
            v.push(Op::Hashes([None; 3]));
            v.push(Op::Update(0));
            v.push(Op::Update(1));
            v.push(Op::Update(2));
            v.push(Op::Hashes([Some(2), None, None]));
            v.push(Op::Create(U1, Ask::new(0, 1, false)));
            v.push(Op::Create(U1, Ask::new(1, 2, true)));
            v.push(Op::Create(U1, Ask::new(0, 2, true)));
            v
        },
    }));
    v.push(Box::new(Fac {
        label: "whitelist-of-many",
        white: vec![OWNER, U1, MGR, U2, FEE, U3, ADMIN],
        decimals: 7,
        begin: vec![],
        look: Look::Settings,
        depth: (3, 4),
        tier,
        alphabet: |_, _| {
            let mut v = vec![];
            for u in [ADMIN, U1, U2, U3, MGR, FEE, OWNER, ATT] {
                v.push(Op::Accounts(ADMIN, vec![], vec![u]));
                v.push(Op::Accounts(ADMIN, vec![u], vec![]));
            }
            v.push(Op::Accounts(ADMIN, vec![], vec![FEE, OWNER, U3, ATT]));
            v.push(Op::Accounts(ADMIN, vec![ATT, FEE], vec![FEE, U1]));
            for u in [OWNER, ADMIN, U3] {
                v.push(Op::Create(u, Ask::new(0, 1, false)));
            }
            v
        },
    }));
    v.push(Box::new(Fac {
        label: "portfolio-of-many",
        white: vec![U1],
        decimals: 7,
        begin: [
            [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)].into_iter().enumerate().map(|(k, (i, j))| Op::Create(U1, Ask::new(i, j, k % 2 == 1))).collect::<Vec<_>>(),
            (0..6).map(|k| Op::Provide(U1, k, 100_000 + 10_000 * k as i128, 110_000)).collect(),
            vec![Op::Provide(U2, 4, 30_000, 30_000), Op::Bond(U1, 5, 9), Op::Bond(U1, 5, 7), Op::Wait(50), Op::Bond(U1, 5, 6), Op::Bond(U1, 5, 8), Op::Bond(U1, 0, 2), Op::Bond(U1, 5, 9)],
        ]
        .concat(),
        look: Look::Portfolio,
        depth: (2, 3),
        tier,
        alphabet: |m, _| {
            let mut v = vec![Op::Wait(100)];
            for i in 0..m.pools.len() {
                v.extend([Op::Withdraw(U1, i, 1), Op::Give(U1, U2, i, 3), Op::Bond(U1, i, 4), Op::Swap(U2, i, 5_555), Op::Unbond(U1, i)]);
            }
            v
        },
    }));
    let users = |m: &M, t: Tier| {
        let mut v = vec![];
        for u in [U1, U2] {
            for i in 0..m.pools.len() {
                v.push(Op::Provide(u, i, 30_000, 0));
                v.push(Op::Withdraw(u, i, 1));
                v.push(Op::Withdraw(u, i, 3));
                v.push(Op::Bond(u, i, 2));
                v.push(Op::Unbond(u, i));
                if t == Tier::Thorough {
                    v.push(Op::Bond(u, i, 1));
                }
            }
        }
        v.push(Op::Give(U1, U2, 0, 1));
        v.push(Op::Give(U1, U3, 1, 2));
        v.push(Op::Swap(U2, 0, 7_777));
        v.push(Op::Swap(U2, 1, 3_333));
        v.push(Op::Wait(100));
        v
    };
    v.push(Box::new(Fac {
        label: "portfolio-from-nothing",
        white: vec![U1],
        decimals: 7,
        begin: vec![Op::Create(U1, Ask::new(0, 1, false)), Op::Create(U1, Ask::new(1, 2, true))],
        look: Look::Portfolio,
        depth: (3, 4),
        tier,
        alphabet: users,
    }));
    v.push(Box::new(Fac {
        label: "portfolio-of-invested-users",
        white: vec![U1],
        decimals: 7,
        begin: vec![
            Op::Create(U1, Ask::new(0, 1, false)),
            Op::Create(U1, Ask::new(1, 2, false)),
            Op::Create(U1, Ask::new(0, 2, true)),
            Op::Provide(U1, 0, 200_000, 300_000),
            Op::Provide(U2, 0, 20_000, 30_000),
            Op::Provide(U2, 1, 70_000, 50_000),
            Op::Bond(U1, 0, 3),
            Op::Wait(50),
            Op::Bond(U1, 0, 5),
            Op::Bond(U2, 1, 1),
        ],
        look: Look::Portfolio,
        depth: (3, 4),
        tier,
        alphabet: users,
    }));
    v.push(Box::new(Fac {
        label: "portfolio-of-small-holdings",
        white: vec![U1],
        decimals: 7,
        begin: vec![
            Op::Create(U1, Ask { bond: 1, ..Ask::new(0, 1, false) }),
            Op::Create(U1, Ask { bond: 1, ..Ask::new(1, 2, true) }),
            Op::Provide(U1, 0, 100_000_000, 2_000),
            Op::Provide(U1, 1, 40_000_000, 40_000_000),
            Op::Swap(U1, 1, 20_000_000),
        ],
        look: Look::Portfolio,
        depth: (3, 4),
        tier,
        alphabet: |_, _| {
            let mut v = vec![Op::Swap(U1, 1, 1_000_000), Op::Swap(U2, 0, 3_000_000), Op::Withdraw(U1, 0, 2)];
            for i in 0..2 {
                for x in [-1, -3, -50, -1_000] {
                    v.push(Op::Give(U1, U2, i, x));
                    v.push(Op::Give(U2, U3, i, x));
                }
                for x in [-1, -3] {
                    v.push(Op::Bond(U2, i, x));
                    v.push(Op::Bond(U3, i, x));
                    v.push(Op::Withdraw(U2, i, x));
                }
                v.push(Op::Bond(U2, i, 1));
                v.push(Op::Unbond(U2, i));
            }
            v
        },
    }));
    v
}
