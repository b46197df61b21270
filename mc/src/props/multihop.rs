//! Swaps along routes of pools: what they do, and what their simulations say.
use super::factory::Ask;
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use soroban_env_host::xdr::ScVal;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "P19", scenarios: routes, assumptions: host_assumptions },
        Property { id: "P20", scenarios: quotes, assumptions: host_assumptions },
    ]
}

/// How much a hop must bring.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Min {
    None,
    /// what it does bring (without any limits), and this much more
    Brings(i128),
    Is(i128),
}
#[derive(Clone, Debug)]
struct Lim {
    spread: Option<i64>,
    deadline: Option<i64>,
    fee: Option<i64>,
}
const FREE: Lim = Lim { spread: None, deadline: None, fee: None };

#[derive(Clone, Debug)]
enum Op {
    /// who, (offered, asked) of every hop, amount, minimum of every hop, limits
    Route(u8, Vec<(usize, usize)>, i128, Vec<Min>, Lim),
    /// The same, and what becomes of it is explored further.
    Take(u8, Vec<(usize, usize)>, i128),
    Single(u8, usize, usize, i128),
    Quote(Vec<(usize, usize)>, i128),
    Reverse(Vec<(usize, usize)>, i128),
    Deposit(usize, i128, i128),
    Donate(usize, i128),
    Wait(u64),
}

struct Net {
    label: String,
    stable: bool,
    /// Which token pairs have pools, with what in them and at which fee.
    pools: Vec<(usize, usize, i128, i128, i64)>,
    spread: i64,
    slip: i64,
    depth: (usize, usize),
    alphabet: Box<dyn Fn(&Net, &M) -> Vec<Op> + Send + Sync>,
    tier: Tier,
}
struct C {
    hop: Addr,
    t: Vec<Addr>,
    pools: Vec<(usize, usize, Pool)>,
}
#[derive(Clone, Debug)]
struct M {
    donated: [i128; 4],
    depth: usize,
}

impl C {
    fn pool(&self, i: usize, j: usize) -> Option<&Pool> {
        self.pools.iter().find(|p| (p.0, p.1) == (i, j) || (p.0, p.1) == (j, i)).map(|p| &p.2)
    }
}
fn connected(r: &[(usize, usize)]) -> bool {
    r.windows(2).all(|w| w[0].1 == w[1].0)
}
fn has_pools(c: &C, r: &[(usize, usize)]) -> bool {
    r.iter().all(|(i, j)| c.pool(*i, *j).is_some())
}
/// Whether some pool occurs twice.
fn twice(r: &[(usize, usize)]) -> bool {
    let k = |p: &(usize, usize)| (p.0.min(p.1), p.0.max(p.1));
    (0..r.len()).any(|i| (0..i).any(|j| k(&r[i]) == k(&r[j])))
}

impl Net {
    fn kind(&self) -> ScVal {
        u32v(self.stable as u32)
    }
    fn hops(c: &C, r: &[(usize, usize)], mins: &[Option<i128>]) -> ScVal {
        vecv(
            r.iter()
                .enumerate()
                .map(|(n, (i, j))| structv(vec![("offer_asset", addr(&c.t[*i])), ("ask_asset", addr(&c.t[*j])), ("ask_asset_min_amount", opt(mins.get(n).copied().flatten(), i128v))]))
                .collect(),
        )
    }
    fn limits(w: &World, l: &Lim) -> [ScVal; 3] {
        [opt(l.spread, i64v), opt(l.deadline, |d| u64v((w.ts() as i64 + d) as u64)), opt(l.fee, i64v)]
    }
    /// The single swaps of a route, one after the other; what each paid, or nothing if one was refused.
    fn singles(w: &World, c: &C, who: u8, r: &[(usize, usize)], amount: i128, mins: &[Option<i128>], l: &Lim) -> Option<Vec<i128>> {
        let [spread, deadline, fee] = Net::limits(w, l);
        let mut x = amount;
        let mut got = vec![];
        for (n, (i, j)) in r.iter().enumerate() {
            let p = c.pool(*i, *j)?;
            let ask = &c.t[*j];
            let before = w.balance(ask, &actor(who));
            let args = vec![a(who), addr(&c.t[*i]), i128v(x), opt(mins.get(n).copied().flatten(), i128v), spread.clone(), deadline.clone(), fee.clone()];
            w.call(&p.addr, "swap", args).ok()?;
            x = w.balance(ask, &actor(who)) - before;
            got.push(x);
        }
        Some(got)
    }
    fn route(w: &World, c: &C, kind: ScVal, who: u8, r: &[(usize, usize)], amount: i128, mins: &[Option<i128>], l: &Lim) -> Res {
        let [spread, deadline, fee] = Net::limits(w, l);
        w.call(&c.hop, "swap", vec![a(who), Net::hops(c, r, mins), spread, i128v(amount), kind, deadline, fee])
    }

    fn judge_route(&self, w: &World, c: &C, m: &M, o: &mut Out, who: u8, r: &[(usize, usize)], amount: i128, mins: &[Min], l: &Lim) {
        let s = w.snapshot();
        let mut lim = vec![];
        if mins.iter().any(|m| matches!(m, Min::Brings(_))) {
            let got = Net::singles(w, c, who, r, amount, &[], &FREE).unwrap_or_default();
            w.restore(&s);
            for (n, k) in mins.iter().enumerate() {
                lim.push(match k {
                    Min::None => None,
                    Min::Is(x) => Some(*x),
                    Min::Brings(d) => got.get(n).map(|x| x + d),
                });
            }
        } else {
            lim = mins.iter().map(|m| if let Min::Is(x) = m { Some(*x) } else { None }).collect();
        }
        let ok = !r.is_empty() && connected(r);
        let want = if ok { Net::singles(w, c, who, r, amount, &lim, l) } else { None };
        let then = want.as_ref().map(|_| w.data());
        w.restore(&s);
        let now = w.data();
        let res = Net::route(w, c, self.kind(), who, r, amount, &lim, l);
        let what = || format!("route {r:?} of {amount}, minimum amounts {lim:?}, {l:?}");
        match (&res, &want) {
            (Ok(_), Some(got)) => {
                o.count("route executed");
                o.check(w.signers() == vec![actor(who)], "route/signers", || format!("{}: signed by {:?}", what(), w.signers()));
                if Some(w.data()) != then {
                    let d = diff(&then.unwrap(), &w.data());
                    o.fail("route/differs", format!("{}: the single swaps pay {got:?}, the route leaves something else: {d}", what()));
                }
            }
            (Err(_), None) => {
                o.count("route refused");
                o.same = true;
                o.check(w.data() == now, "route/refused-but-changed", what);
            }
            (Ok(_), None) => o.fail("route/accepted", format!("{} was executed although {}", what(), if ok { "a single swap of it is refused" } else { "it does not connect" })),
            (Err(e), Some(g)) => o.fail("route/refused", format!("{} was refused ({e:?}) although the single swaps are executed and pay {g:?}", what())),
        }
        for (i, t) in c.t.iter().enumerate() {
            o.eq(w.balance(t, &c.hop), m.donated[i], "route/kept", || format!("{}: the multihop contract's balance of token {i}", what()));
        }
    }

    fn judge_quote(&self, w: &World, c: &C, o: &mut Out, r: &[(usize, usize)], amount: i128) {
        let s = w.snapshot();
        let before = w.data();
        let q = w.call(&c.hop, "simulate_swap", vec![Net::hops(c, r, &[]), i128v(amount), self.kind()]);
        o.check(w.data() == before, "quote/changes", || format!("simulating {r:?} of {amount} changed the ledger"));
        o.check(q.is_err() || w.signers().is_empty(), "quote/signers", || format!("simulating {r:?} needs a signature"));
        w.restore(&s);
        // hop by hop, as the pools quote
        let mut x = amount;
        let mut hops = vec![];
        let mut ok = !r.is_empty() && connected(r);
        for (i, j) in r {
            if !ok {
                break;
            }
            let Some(p) = c.pool(*i, *j) else {
                ok = false;
                break;
            };
            match w.query(&p.addr, "simulate_swap", vec![addr(&c.t[*i]), i128v(x)]) {
                Ok(v) => {
                    x = v.field("ask_amount").i128();
                    hops.push((v.field("commission_amount").i128(), v.field("spread_amount").i128()));
                }
                Err(_) => ok = false,
            }
        }
        match (&q, ok) {
            (Err(_), false) => o.count("quote refused"),
            (Err(e), true) => o.fail("quote/refused", format!("quote for {r:?} of {amount}: {e:?}")),
            (Ok(v), false) => o.fail("quote/accepted", format!("quote for {r:?} of {amount}: {}", show(v))),
            (Ok(v), true) => {
                o.count("quote ok");
                let ask = v.field("ask_amount").i128();
                o.eq(ask, x, "quote/ask", || format!("quote for {r:?} of {amount}"));
                self.per_hop(c, o, v, r, &hops, "quote");
                if !twice(r) && amount > 0 {
                    let last = &c.t[r.last().unwrap().1];
                    let have = w.balance(last, &actor(U1));
                    if r[0].0 != r.last().unwrap().1 {
                        if Net::route(w, c, self.kind(), U1, r, amount, &[], &FREE).is_ok() {
                            o.count("quoted and executed");
                            o.eq(w.balance(last, &actor(U1)) - have, ask, "quote/execution", || format!("executing {r:?} of {amount} pays, and was quoted"));
                        } else {
                            // a spread above what the pools accept, or a hop of nothing
                            let executes = Net::singles(w, c, U1, r, amount, &[], &FREE).is_some();
                            o.check(!executes, "quote/execution", || format!("{r:?} of {amount} was quoted and its single swaps are executed, but not the route"));
                            o.count("quoted, execution refused");
                        }
                        w.restore(&s);
                    }
                }
            }
        }
    }

    fn per_hop(&self, c: &C, o: &mut Out, v: &ScVal, r: &[(usize, usize)], want: &[(i128, i128)], what: &str) {
        let _ = c;
        let comm: Vec<ScVal> = v.field("commission_amounts").list();
        let spread: Vec<i128> = v.field("spread_amount").list().iter().map(|x| x.i128()).collect();
        let amounts: Vec<i128> = comm.iter().map(|x| x.list()[1].i128()).collect();
        let names: Vec<String> = comm.iter().map(|x| x.list()[0].text()).collect();
        o.eq(amounts, want.iter().map(|x| x.0).collect(), &format!("{what}/commission"), || format!("commissions of {r:?}"));
        o.eq(spread, want.iter().map(|x| x.1).collect(), &format!("{what}/spread"), || format!("spreads of {r:?}"));
        for (n, (i, j)) in names.iter().zip(r) {
            o.check(*n == format!("S{i}") || *n == format!("S{j}"), &format!("{what}/symbol"), || format!("the hop from S{i} to S{j} has a commission in {n}"));
        }
    }

    fn judge_reverse(&self, w: &World, c: &C, o: &mut Out, r: &[(usize, usize)], amount: i128) {
        let s = w.snapshot();
        let back: Vec<(usize, usize)> = r.iter().rev().copied().collect();
        let before = w.data();
        let q = w.call(&c.hop, "simulate_reverse_swap", vec![Net::hops(c, &back, &[]), i128v(amount), self.kind()]);
        o.check(w.data() == before, "reverse/changes", || format!("the reverse simulation of {r:?} for {amount} changed the ledger"));
        w.restore(&s);
        let mut x = amount;
        let mut hops = vec![];
        let mut ok = !r.is_empty() && connected(r);
        for (i, j) in &back {
            if !ok {
                break;
            }
            let Some(p) = c.pool(*i, *j) else {
                ok = false;
                break;
            };
            // the stable pool is told the offered token, the constant product pool the asked one
            let t = if self.stable { *i } else { *j };
            match w.query(&p.addr, "simulate_reverse_swap", vec![addr(&c.t[t]), i128v(x)]) {
                Ok(v) => {
                    x = v.field("offer_amount").i128();
                    hops.push((v.field("commission_amount").i128(), v.field("spread_amount").i128()));
                }
                Err(_) => ok = false,
            }
        }
        match (&q, ok) {
            (Err(_), false) => o.count("reverse refused"),
            (Err(e), true) => o.fail("reverse/refused", format!("reverse quote of {r:?} for {amount}: {e:?}")),
            (Ok(v), false) => o.fail("reverse/accepted", format!("reverse quote of {r:?} for {amount}: {}", show(v))),
            (Ok(v), true) => {
                o.count("reverse ok");
                let offer = v.field("offer_amount").i128();
                o.eq(offer, x, "reverse/offer", || format!("reverse quote of {r:?} for {amount}"));
                self.per_hop(c, o, v, &back, &hops, "reverse");
                if !twice(r) && r[0].0 != r.last().unwrap().1 && offer > 0 {
                    let last = &c.t[r.last().unwrap().1];
                    let have = w.balance(last, &actor(U1));
                    if Net::route(w, c, self.kind(), U1, r, offer, &[], &FREE).is_ok() {
                        o.count("reverse quote executed");
                        let got = w.balance(last, &actor(U1)) - have;
                        // one unit of rounding per hop, carried on at the prices of the later hops
                        let mut slack = big(0);
                        for (i, j) in r {
                            let (ri, rj) = self.reserves(w, c, *i, *j, &s);
                            slack = (slack + 1) * big(rj) / big(ri) + if self.stable { 12 } else { 2 };
                        }
                        o.check(big(got) + &slack >= big(amount), "reverse/brings-less", || format!("{r:?} for {amount}: quoted {offer}, executing it brings {got}"));
                    } else {
                        o.count("reverse quoted, execution refused");
                    }
                    w.restore(&s);
                }
            }
        }
    }
    fn reserves(&self, w: &World, c: &C, i: usize, j: usize, s: &Snap) -> (i128, i128) {
        let now = w.snapshot();
        w.restore(s);
        let p = c.pool(i, j).unwrap();
        let q = w.query(&p.addr, "query_pool_info", vec![]).unwrap();
        w.restore(&now);
        let (x, y) = (q.field("asset_a").field("amount").i128(), q.field("asset_b").field("amount").i128());
        if p.a == c.t[i] {
            (x, y)
        } else {
            (y, x)
        }
    }
}

/// What differs between two ledgers.
pub fn diff(a: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>, b: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> String {
    use soroban_env_host::xdr::{LedgerEntry, LedgerEntryData, LedgerKey, Limits, ReadXdr};
    let val = |x: Option<&Vec<u8>>| match x.map(|x| LedgerEntry::from_xdr(x, Limits::none()).unwrap().data) {
        Some(LedgerEntryData::ContractData(d)) => show(&d.val),
        Some(_) => "?".into(),
        None => "absent".into(),
    };
    let mut v = vec![];
    for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
        if a.get(k) != b.get(k) {
            let name = match LedgerKey::from_xdr(k, Limits::none()) {
                Ok(LedgerKey::ContractData(d)) => format!("{} {}", short(&d.contract), show(&d.key)),
                _ => "?".into(),
            };
            v.push(format!("{name}: {} instead of {}", val(b.get(k)), val(a.get(k))));
        }
    }
    v.join("; ")
}

impl Spec for Net {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        self.label.clone()
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.depth.0
        } else {
            self.depth.1
        }
    }
    fn key(&self, m: &M) -> String {
        format!("{:?}", m.donated)
    }
    fn setup(&self, w: &World) -> C {
        let [pool, stake, tok, stable] = ["phoenix_pool", "phoenix_stake", "soroban_token_contract", "phoenix_pool_stable"].map(|n| w.upload(n));
        let fac = w.upload("phoenix_factory");
        let hop = w.upload("phoenix_multihop");
        // the symbols tell the tokens apart, in the order of their addresses
        let mut t: Vec<Addr> = vec![];
        let mut salt = 0;
        while t.len() < 4 {
            salt += 1;
            let s = w.snapshot();
            let x = w.create(tok, salt, vec![a(ADMIN), u32v(7), string("Token"), string(&format!("S{}", t.len()))]);
            if t.last().is_some_and(|l| *l >= x) || x > ScValMax::at(t.len()) {
                w.restore(&s);
                continue;
            }
            t.push(x);
        }
        for x in &t {
            for u in [U1, U2] {
                mint(w, x, u, 1_000_000_000_000);
            }
            // has little
            mint(w, x, U3, 400);
        }
        let f = w.create(fac, 77, vec![]);
        w.call(&f, "initialize", vec![a(ADMIN), bytes(&hop), bytes(&pool), bytes(&stable), bytes(&stake), bytes(&tok), vecv(vec![a(ADMIN)]), u32v(7)]).expect("factory initialize");
        let hop = w.call(&f, "get_config", vec![]).unwrap().field("multihop_address").address();
        let mut pools = vec![];
        for (i, j, x, y, fee) in &self.pools {
            let k = Ask { fee: *fee, slip: 10_000, def_slip: self.slip, spread: self.spread, amp: self.stable.then_some(100), ..Ask::new(*i, *j, self.stable) };
            let p = w
                .call(&f, "create_liquidity_pool", vec![a(ADMIN), k.info(&t), string("Share"), string("SHR"), u32v(k.stable as u32), opt(k.amp, u64v), i64v(k.def_slip), i64v(10_000)])
                .expect("create_liquidity_pool")
                .address();
            let cfg = w.query(&p, "query_config", vec![]).unwrap();
            let p = Pool { addr: p, a: t[*i].clone(), b: t[*j].clone(), lp: cfg.field("share_token").address(), stake: cfg.field("stake_contract").address(), dec: (7, 7), lp_dec: 7 };
            provide(w, self.stable, &p, U2, *x, *y).expect("provide");
            pools.push((*i, *j, p));
        }
        C { hop, t, pools }
    }
    fn start(&self, _w: &World, _c: &C, _o: &mut Out) -> M {
        M { donated: [0; 4], depth: 0 }
    }
    fn ops(&self, _c: &C, m: &M) -> Vec<Op> {
        (self.alphabet)(self, m)
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        m.depth += 1;
        match op {
            Op::Route(u, r, x, mins, l) => {
                self.judge_route(w, c, m, o, *u, r, *x, mins, l);
                o.same = true;
            }
            Op::Take(u, r, x) => self.judge_route(w, c, m, o, *u, r, *x, &[], &FREE),
            Op::Quote(r, x) => {
                self.judge_quote(w, c, o, r, *x);
                o.same = true;
            }
            Op::Reverse(r, x) => {
                self.judge_reverse(w, c, o, r, *x);
                o.same = true;
            }
            Op::Single(u, i, j, x) => {
                if swap(w, &c.pool(*i, *j).unwrap().addr, *u, &c.t[*i], *x).is_err() {
                    o.same = true;
                    o.count("swap refused");
                }
            }
            Op::Deposit(n, x, y) => {
                if provide(w, self.stable, &c.pools[*n].2, U2, *x, *y).is_err() {
                    o.same = true;
                    o.count("deposit refused");
                }
            }
            Op::Donate(i, x) => {
                w.call(&c.t[*i], "transfer", vec![a(U2), addr(&c.hop), i128v(*x)]).expect("transfer");
                m.donated[*i] += x;
            }
            Op::Wait(s) => w.advance(*s),
        }
    }
}

/// Keeps the addresses of the four tokens apart from each other.
struct ScValMax;
impl ScValMax {
    fn at(n: usize) -> Addr {
        use soroban_env_host::xdr::{Hash, ScAddress};
        let mut h = [0xff; 32];
        h[0] = ((n + 1) * 64 - 1) as u8;
        ScAddress::Contract(Hash(h))
    }
}

/// All connected routes of up to `n` hops.
fn paths(n: usize) -> Vec<Vec<(usize, usize)>> {
    let mut all = vec![];
    let mut last: Vec<Vec<(usize, usize)>> = vec![];
    for i in 0..4 {
        for j in 0..4 {
            if i != j {
                last.push(vec![(i, j)]);
            }
        }
    }
    for k in 0..n {
        all.extend(last.clone());
        if k + 1 < n {
            last = last.iter().flat_map(|r| (0..4).filter(|j| *j != r.last().unwrap().1).map(|j| [r.clone(), vec![(r.last().unwrap().1, j)]].concat())).collect();
        }
    }
    all
}
fn pooled(n: &Net, r: &[(usize, usize)]) -> bool {
    r.iter().all(|(i, j)| n.pools.iter().any(|p| (p.0, p.1) == (*i, *j) || (p.0, p.1) == (*j, *i)))
}
/// Routes of five, six and nine hops.
fn long(n: &Net) -> Vec<Vec<(usize, usize)>> {
    let all: Vec<_> = paths(6).into_iter().filter(|r| r.len() > 4 && pooled(n, r)).collect();
    let some = if n.tier == Tier::Quick { 7 } else { 1 };
    let mut v: Vec<_> = all.iter().step_by(some).cloned().collect();
    v.extend(all.iter().filter(|r| r.len() == 6).step_by(11 * some).map(|r| {
        let back = |k: usize| (r[k].1, r[k].0);
        [r.clone(), vec![back(5), back(4), back(3)]].concat()
    }));
    v
}
/// Routes whose hops do not connect, or that are otherwise not routes.
fn broken() -> Vec<Vec<(usize, usize)>> {
    let mut v = vec![vec![], vec![(0, 0)], vec![(0, 1), (1, 1)], vec![(0, 1), (1, 2), (2, 2)]];
    for i in 0..4usize {
        for j in 0..4 {
            for k in 0..4 {
                for l in 0..4 {
                    if i != j && k != l && j != k {
                        v.push(vec![(i, j), (k, l)]);
                    }
                }
            }
        }
    }
    for x in [vec![(0, 1), (1, 2), (1, 2)], vec![(0, 1), (1, 2), (0, 2)], vec![(0, 1), (0, 2), (2, 3)], vec![(1, 2), (1, 2), (2, 3)], vec![(0, 1), (1, 2), (2, 3), (2, 3)], vec![(0, 1), (1, 2), (2, 0), (1, 2)], vec![(0, 1), (1, 2), (2, 0), (2, 1)]] {
        v.push(x);
    }
    v
}

fn nets(stable: bool) -> Vec<(&'static str, Vec<(usize, usize, i128, i128, i64)>)> {
    if stable {
        vec![("stable", vec![(0, 1, 1_000_000, 1_000_000, 0), (1, 2, 500_000, 450_000, 30), (2, 3, 70_000, 90_000, 100), (0, 2, 3_000, 3_500, 7)])]
    } else {
        vec![
            ("pools", vec![(0, 1, 1_000_000, 2_000_000, 0), (1, 2, 500_000, 300_000, 30), (2, 3, 70_000, 90_000, 100), (0, 2, 1_000, 1_500, 7)]),
            ("tiny-pools", vec![(0, 1, 40_000, 30, 300), (1, 2, 1_100, 1_000, 9_000), (2, 3, 1_001, 1_003, 1), (0, 3, 12, 100_000, 1)]),
        ]
    }
}

fn states(n: &Net) -> Vec<Op> {
    let mut v = vec![];
    for (i, j, x, y, _) in &n.pools {
        v.push(Op::Single(U2, *i, *j, (*x / 3).max(1)));
        v.push(Op::Single(U2, *j, *i, (*y / 5).max(1)));
    }
    v
}

fn routes(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    for stable in [false, true] {
        for (name, pools) in nets(stable) {
            let amounts: Vec<i128> = if name == "tiny-pools" { vec![1, 20, 700] } else { vec![1, 777, 40_000] };
            let net = |label: String, depth, alphabet| Net { label, stable, pools: pools.clone(), spread: 9_000, slip: 5_000, depth, alphabet, tier };
            let am = amounts.clone();
            v.push(Box::new(net(
                format!("{name}, every route"),
                (2, 3),
                Box::new(move |n, m| {
                    let mut v = states(n);
                    let len = if m.depth == 0 { 4 } else { 3 };
                    for r in paths(len) {
                        if pooled(n, &r) || r.len() < 3 {
                            for x in &am {
                                if m.depth == 0 || *x == am[1] || n.tier == Tier::Thorough {
                                    v.push(Op::Route(U1, r.clone(), *x, vec![], FREE));
                                }
                            }
                        }
                    }
                    if m.depth == 0 {
                        for r in long(n) {
                            v.push(Op::Route(U1, r, am[1], vec![], FREE));
                        }
                        for r in broken() {
                            v.push(Op::Route(U1, r, am[1], vec![], FREE));
                        }
                        for x in [0, -1, i128::MIN, i128::MAX, 1_000_000_000_001] {
                            v.push(Op::Route(U1, vec![(0, 1), (1, 2)], x, vec![], FREE));
                            v.push(Op::Route(U1, vec![(2, 1)], x, vec![], FREE));
                        }
                        v.push(Op::Route(ATT, vec![(0, 1), (1, 2)], am[1], vec![], FREE));
                        for r in paths(3) {
                            if pooled(n, &r) {
                                for x in [399, 400, 401, 777] {
                                    v.push(Op::Route(U3, r.clone(), x, vec![], FREE));
                                }
                            }
                        }
                    }
                    for i in 0..2 {
                        v.push(Op::Donate(i, 500));
                    }
                    v
                }),
            )));
            let am = amounts.clone();
            v.push(Box::new(net(
                format!("{name}, limits"),
                (if name == "pools" { 2 } else { 1 }, 2),
                Box::new(move |n, m| {
                    let mut v = vec![];
                    let rs: Vec<Vec<(usize, usize)>> = paths(3).into_iter().filter(|r| pooled(n, r)).collect();
                    let first = m.depth == 0;
                    for (k, r) in rs.iter().enumerate() {
                        if !first && k % 4 != 0 && n.tier == Tier::Quick {
                            continue;
                        }
                        let all = [Min::None, Min::Brings(0), Min::Brings(1), Min::Brings(-1)];
                        let mut combos: Vec<Vec<Min>> = vec![vec![]];
                        for _ in r {
                            combos = combos.iter().flat_map(|c| all.iter().map(|x| [c.clone(), vec![*x]].concat())).collect();
                        }
                        for c in combos {
                            // at most two hops with a limit, unless everything is wanted
                            if n.tier == Tier::Quick && c.iter().filter(|x| **x != Min::None).count() > 2 {
                                continue;
                            }
                            v.push(Op::Route(U1, r.clone(), am[1], c, FREE));
                        }
                        for x in [Min::Is(0), Min::Is(-1), Min::Is(i128::MAX)] {
                            v.push(Op::Route(U1, r.clone(), am[1], vec![x; r.len()], FREE));
                        }
                        for x in &am {
                            for s in [0, 1, 25, 100, 900, 3_000, 9_000, 9_001, 10_000, -1] {
                                if !first && n.tier == Tier::Quick && *x != am[1] {
                                    continue;
                                }
                                v.push(Op::Route(U1, r.clone(), *x, vec![], Lim { spread: Some(s), ..FREE }));
                                if first && *x == am[1] && [1, 100, 900].contains(&s) {
                                    for (d, f) in [(Some(0), None), (None, Some(9_000)), (Some(3), Some(100))] {
                                        v.push(Op::Route(U1, r.clone(), *x, vec![], Lim { spread: Some(s), deadline: d, fee: f }));
                                        v.push(Op::Route(U1, r.clone(), *x, vec![Min::Brings(0); r.len()], Lim { spread: Some(s), deadline: d, fee: f }));
                                    }
                                }
                            }
                        }
                        for d in [-1, 0, 1] {
                            v.push(Op::Route(U1, r.clone(), am[1], vec![], Lim { deadline: Some(d), ..FREE }));
                        }
                        for f in [0, 1, 29, 30, 31, 99, 100, 101, 8_999, 9_000, 10_000] {
                            v.push(Op::Route(U1, r.clone(), am[1], vec![], Lim { fee: Some(f), ..FREE }));
                        }
                        v.push(Op::Route(U1, r.clone(), am[1], vec![Min::Brings(0); r.len()], Lim { spread: Some(5_000), deadline: Some(0), fee: Some(9_500) }));
                    }
                    if first {
                        v.extend(states(n));
                        v.push(Op::Wait(7));
                    }
                    v
                }),
            )));
            v.push(Box::new(net(
                format!("{name}, routes after routes"),
                (2, 4),
                Box::new(move |n, _| {
                    let mut v = vec![];
                    for r in paths(3) {
                        if pooled(n, &r) && r.len() + r[0].0 != 4 {
                            v.push(Op::Take(U1, r.clone(), if r.len() == 3 { amounts[2] } else { amounts[1] }));
                        }
                    }
                    v
                }),
            )));
        }
    }
    v
}

fn quotes(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    for stable in [false, true] {
        for (name, pools) in nets(stable) {
            let amounts: Vec<i128> = if name == "tiny-pools" { vec![1, 2, 5, 20, 150, 700, 30_000] } else { vec![1, 2, 10, 333, 4_000, 40_000, 150_000] };
            let net = |label: String, depth, alphabet| Net { label, stable, pools: pools.clone(), spread: 10_000, slip: 10_000, depth, alphabet, tier };
            let am = amounts.clone();
            v.push(Box::new(net(
                format!("{name}, quotes"),
                (2, 3),
                Box::new(move |n, m| {
                    let mut v = states(n);
                    v.push(Op::Deposit(0, n.pools[0].2 / 2, n.pools[0].3 / 2));
                    v.push(Op::Donate(0, 12));
                    let len = if m.depth == 0 || n.tier == Tier::Thorough { 4 } else { 3 };
                    for r in paths(len) {
                        if pooled(n, &r) || r.len() < 3 {
                            for (k, x) in am.iter().enumerate() {
                                if (m.depth == 0 && r.len() < 4) || k == 4 || n.tier == Tier::Thorough && k % 2 == 0 {
                                    v.push(Op::Quote(r.clone(), *x));
                                    v.push(Op::Reverse(r.clone(), *x));
                                }
                            }
                        }
                    }
                    if m.depth == 0 {
                        for r in long(n) {
                            v.push(Op::Quote(r.clone(), am[4]));
                            v.push(Op::Reverse(r, am[3]));
                        }
                        for r in broken() {
                            v.push(Op::Quote(r.clone(), 100));
                            v.push(Op::Reverse(r.clone(), 100));
                        }
                        for x in [0, -1, i128::MAX] {
                            v.push(Op::Quote(vec![(0, 1), (1, 2)], x));
                            v.push(Op::Reverse(vec![(0, 1), (1, 2)], x));
                        }
                    }
                    v
                }),
            )));
        }
    }
    v
}
