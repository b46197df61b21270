//! The trading contract: swaps and payments of its own funds by its administrator.
use super::multihop::diff;
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use soroban_env_host::xdr::ScVal;

pub fn properties() -> Vec<Property> {
    vec![Property { id: "P21", scenarios, assumptions: host_assumptions }]
}

/// An amount, also relative to the trading contract's balance of the token.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Amt {
    /// none given
    Omit,
    Is(i128),
    /// all of it and this much more
    All(i128),
    /// all the caller has
    Callers,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Min {
    None,
    Brings(i128),
    Is(i128),
}
#[derive(Clone, Debug)]
struct Lim {
    spread: Option<i64>,
    deadline: Option<i64>,
    min: Min,
    fee: Option<i64>,
}
const FREE: Lim = Lim { spread: None, deadline: None, min: Min::None, fee: None };

#[derive(Clone, Debug)]
enum Op {
    /// caller, token, pool
    Trade(u8, usize, usize, Amt, Lim),
    /// caller, recipient (0: the contract itself, 9: a pool), amount, token
    Transfer(u8, u8, Amt, Option<usize>),
    Fund(usize, i128),
    PoolTrade(usize, usize, i128),
    Wait(u64),
}

struct T {
    label: String,
    /// the two tokens it trades and the one it pays
    pair: (usize, usize),
    output: usize,
    /// tokens of the pools, their liquidity and fee
    pools: Vec<(usize, usize, i128, i128, i64)>,
    fund: [i128; 4],
    depth: (usize, usize),
    alphabet: Box<dyn Fn(&T, &M) -> Vec<Op> + Send + Sync>,
    tier: Tier,
    huge: bool,
}
struct C {
    tr: Addr,
    t: Vec<Addr>,
    pools: Vec<Pool>,
}
#[derive(Clone, Debug)]
struct M {
    depth: usize,
    has: [i128; 4],
}

impl T {
    fn judge(&self, w: &World, c: &C, o: &mut Out, u: u8, what: &str, direct: Option<(&Addr, &str, Vec<ScVal>)>, real: (&str, Vec<ScVal>)) {
        let s = w.snapshot();
        let now = w.data();
        let then = direct.and_then(|(x, f, args)| w.call(x, f, args).ok()).map(|_| w.data());
        w.restore(&s);
        let r = w.call(&c.tr, real.0, real.1);
        match (r, then) {
            (Ok(_), Some(d)) => {
                o.count(format!("{} executed", real.0));
                o.eq(w.signers(), vec![actor(u)], "trader/signers", || format!("{what}: whose signatures it needs"));
                let got = w.data();
                o.check(got == d, "trader/differs", || format!("{what}: {}", diff(&d, &got)));
            }
            (Err(_), None) => {
                o.count(format!("{} refused", real.0));
                o.same = true;
                o.check(w.data() == now, "trader/refused-but-changed", || what.into());
            }
            (Ok(_), None) => o.fail("trader/accepted", format!("{what} was executed")),
            (Err(e), Some(_)) => o.fail("trader/refused", format!("{what} was refused: {e:?}")),
        }
    }

    fn look(&self, w: &World, c: &C, m: &mut M, o: &mut Out) {
        for (i, t) in c.t.iter().enumerate() {
            m.has[i] = w.balance(t, &c.tr);
        }
        let q = |f: &str| w.query(&c.tr, f, vec![]);
        let asset = |i: usize| structv(vec![("symbol", string(&format!("T{}", i + 1))), ("amount", i128v(m.has[i]))]);
        let want = structv(vec![("output_token", asset(self.output)), ("token_a", asset(self.pair.0)), ("token_b", asset(self.pair.1))]);
        for (f, v) in [
            ("query_balances", want),
            ("query_trading_pairs", vecv(vec![addr(&c.t[self.pair.0]), addr(&c.t[self.pair.1])])),
            ("query_admin_address", a(ADMIN)),
            ("query_contract_name", string("Desk")),
            (
                "query_output_token_info",
                structv(vec![
                    ("address", addr(&c.t[self.output])),
                    ("name", string(&format!("Token {}", self.output + 1))),
                    ("symbol", string(&format!("T{}", self.output + 1))),
                    ("decimal", u32v(5 + self.output as u32)),
                ]),
            ),
        ] {
            let got = q(f);
            o.check(got.as_ref() == Ok(&v), "trader/query", || format!("{f}: {:?}, expected {}", got.as_ref().map(show), show(&v)));
        }
    }
}

impl Spec for T {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        self.label.clone()
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.depth.0
        } else {
            self.depth.1
        }
    }
    fn key(&self, _m: &M) -> String {
        String::new()
    }
    fn setup(&self, w: &World) -> C {
        let h = Hashes { token: w.upload("soroban_token_contract"), stake: w.upload("phoenix_stake"), pool: w.upload("phoenix_pool"), stable: [0; 32] };
        // in the order of their addresses
        let mut salt = 0;
        let t: Vec<Addr> = (0..4u8)
            .map(|i| {
                let name = |i: u8| vec![a(ADMIN), u32v(5 + i as u32), string(&format!("Token {}", i + 1)), string(&format!("T{}", i + 1))];
                loop {
                    let s = w.snapshot();
                    salt += 1;
                    let x = w.create(h.token, salt, name(i));
                    let soroban_env_host::xdr::ScAddress::Contract(k) = &x else { unreachable!() };
                    if k.0[0] / 64 == i {
                        return x;
                    }
                    w.restore(&s);
                }
            })
            .collect();
        for x in &t {
            for u in [U1, U2, ADMIN, ATT] {
                mint(w, x, u, if self.huge { 10i128.pow(25) } else { 1_000_000_000_000 });
            }
        }
        let mut pools = vec![];
        for (n, (i, j, x, y, fee)) in self.pools.iter().enumerate() {
            let cfg = PoolCfg { max_slip: 10_000, ..PoolCfg::xyk(*fee) };
            let p = w.create(h.pool, 200 + n as u8, vec![]);
            w.call(&p, "initialize", pool_init_args(&cfg, &h, &t[*i], &t[*j])).expect("pool initialize");
            let q = |f: &str| w.query(&p, f, vec![]).unwrap().address();
            let p = Pool { addr: p.clone(), a: t[*i].clone(), b: t[*j].clone(), lp: q("query_share_token_address"), stake: q("query_stake_contract_address"), dec: (7, 7), lp_dec: 7 };
            provide(w, false, &p, U2, *x, *y).expect("provide");
            pools.push(p);
        }
        let tr = w.create(w.upload("phoenix_trader"), 240, vec![]);
        let pair = vecv(vec![addr(&t[self.pair.0]), addr(&t[self.pair.1])]);
        w.call(&tr, "initialize", vec![a(ADMIN), string("Desk"), pair, addr(&t[self.output])]).expect("trader initialize");
        for (i, x) in self.fund.iter().enumerate() {
            if *x > 0 {
                w.call(&t[i], "transfer", vec![a(U2), addr(&tr), i128v(*x)]).expect("transfer");
            }
        }
        C { tr, t, pools }
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        let mut m = M { depth: 0, has: [0; 4] };
        self.look(w, c, &mut m, o);
        m
    }
    fn ops(&self, _c: &C, m: &M) -> Vec<Op> {
        (self.alphabet)(self, m)
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        m.depth += 1;
        match op {
            Op::Trade(u, t, p, x, l) => {
                let token = &c.t[*t];
                let amount: Option<i128> = match x {
                    Amt::Omit => None,
                    Amt::Is(x) => Some(*x),
                    Amt::All(d) => Some(m.has[*t] + d),
                    Amt::Callers => Some(w.balance(token, &actor(*u))),
                };
                let Some(amount) = amount.map(|x| u64::try_from(x).ok()).map_or(Some(None), |x| x.map(Some)) else {
                    o.same = true;
                    return;
                };
                let offer = amount.map(|x| x as i128).unwrap_or(m.has[*t]);
                let direct = |l: &Lim, min: Option<i128>| {
                    vec![addr(&c.tr), addr(token), i128v(offer), opt(min, i128v), opt(l.spread, i64v), opt(l.deadline, |d| u64v((w.ts() as i64 + d) as u64)), opt(l.fee, i64v)]
                };
                let min = match l.min {
                    Min::None => None,
                    Min::Is(x) => Some(x),
                    Min::Brings(d) => Some(w.query(&c.pools[*p].addr, "swap", direct(&FREE, None)).map(|v| v.i128()).unwrap_or(0) + d),
                };
                let fine = *u == ADMIN && (*t == self.pair.0 || *t == self.pair.1);
                let args = direct(l, min);
                let real = vec![a(*u), addr(token), addr(&c.pools[*p].addr), opt(amount, u64v), args[4].clone(), args[5].clone(), args[3].clone(), args[6].clone()];
                self.judge(w, c, o, *u, &format!("{op:?} (balance {}, minimum {min:?})", m.has[*t]), fine.then(|| (&c.pools[*p].addr, "swap", args)), ("trade_token", real));
            }
            Op::Transfer(u, to, x, t) => {
                let token = &c.t[t.unwrap_or(self.output)];
                let has = w.balance(token, &c.tr);
                let x = match x {
                    Amt::Is(x) => *x,
                    Amt::All(d) => has + d,
                    Amt::Callers => w.balance(token, &actor(*u)),
                    Amt::Omit => unreachable!(),
                };
                let to = match to {
                    0 => c.tr.clone(),
                    9 => c.pools[0].addr.clone(),
                    k => actor(*k),
                };
                let direct = (*u == ADMIN).then(|| (token, "transfer", vec![addr(&c.tr), addr(&to), i128v(x)]));
                let real = vec![a(*u), addr(&to), i128v(x), opt(*t, |i| addr(&c.t[i]))];
                self.judge(w, c, o, *u, &format!("{op:?} (balance {has})"), direct, ("transfer", real));
            }
            Op::Fund(i, x) => {
                w.call(&c.t[*i], "transfer", vec![a(U2), addr(&c.tr), i128v(*x)]).expect("transfer");
            }
            Op::PoolTrade(p, t, x) => {
                if swap(w, &c.pools[*p].addr, U1, &c.t[*t], *x).is_err() {
                    o.same = true;
                }
            }
            Op::Wait(s) => w.advance(*s),
        }
        if !o.same {
            self.look(w, c, m, o);
        }
    }
}

fn scenarios(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let pools = vec![(0, 1, 1_000_000, 2_000_000, 0), (0, 1, 50_000, 90_000, 300), (1, 2, 30_000, 40_000, 100), (0, 2, 70_000, 7_000, 30)];
    for (name, pair, output, fund) in [
        ("separate output token", (0, 1), 2, [10_000, 3_000, 500, 70]),
        ("output token is one of the pair", (1, 2), 1, [0, 5_000, 4_000, 9]),
        ("pair in the other order", (1, 0), 3, [1_234, 0, 8, 2_000]),
    ] {
        let t = |label: String, depth, alphabet| T { label, pair, output, pools: pools.clone(), fund, depth, alphabet, tier, huge: false };
        v.push(Box::new(t(
            format!("{name}: trades and payments"),
            (3, 4),
            Box::new(|t, m| {
                let mut v = vec![];
                let much = m.depth < 2 || t.tier == Tier::Thorough;
                for u in [ADMIN, U1] {
                    for tok in 0..3 {
                        for p in 0..4 {
                            let fits = t.pools[p].0 == tok || t.pools[p].1 == tok;
                            for x in [Amt::Omit, Amt::Is(1_000), Amt::All(0), Amt::All(1), Amt::Callers, Amt::Is(0), Amt::Is(1)] {
                                let plain = matches!(x, Amt::Omit | Amt::Is(1_000));
                                if plain && u == ADMIN && fits || m.depth == 0 && (fits || plain) || much && u == ADMIN && fits && x != Amt::Callers {
                                    v.push(Op::Trade(u, tok, p, x, FREE));
                                }
                            }
                        }
                    }
                    for tok in [None, Some(0), Some(1), Some(2), Some(3)] {
                        for x in [Amt::Is(40), Amt::All(0), Amt::All(1), Amt::Is(0), Amt::Is(-1), Amt::Callers] {
                            if m.depth == 0 || (u == ADMIN && (x == Amt::Is(40) || much && x != Amt::Callers)) {
                                v.push(Op::Transfer(u, U3, x, tok));
                            }
                        }
                        if m.depth == 0 {
                            for to in [0, ADMIN, ATT, 9] {
                                v.push(Op::Transfer(u, to, Amt::Is(33), tok));
                            }
                        }
                    }
                }
                for u in [ATT, U2, FEE] {
                    v.push(Op::Trade(u, t.pair.0, 0, Amt::Is(10), FREE));
                    v.push(Op::Transfer(u, u, Amt::Is(1), None));
                    v.push(Op::Transfer(u, u, Amt::Is(1), Some(t.pair.0)));
                }
                v.push(Op::Fund(0, 600));
                v.push(Op::Fund(1, 6));
                v.push(Op::PoolTrade(1, 0, 20_000));
                v
            }),
        )));
        v.push(Box::new(t(
            format!("{name}: limits"),
            (2, 3),
            Box::new(|t, m| {
                let mut v = vec![];
                for tok in [t.pair.0, t.pair.1] {
                    for p in 0..4 {
                        if t.pools[p].0 != tok && t.pools[p].1 != tok {
                            continue;
                        }
                        for x in [Amt::Omit, Amt::Is(900)] {
                            let mut l = vec![];
                            for s in [i64::MIN, -1, 0, 1, 99, 500, 4_999, 5_000, 5_001, 10_000, 10_001, i64::MAX] {
                                l.push(Lim { spread: Some(s), ..FREE });
                            }
                            for d in [-1, 0, 1] {
                                l.push(Lim { deadline: Some(d), ..FREE });
                            }
                            for k in [Min::Brings(-1), Min::Brings(0), Min::Brings(1), Min::Is(0), Min::Is(-1), Min::Is(i128::MAX)] {
                                l.push(Lim { min: k, ..FREE });
                                for (d, f) in [(0, 300), (-1, 300), (0, 299)] {
                                    l.push(Lim { min: k, deadline: Some(d), fee: Some(f), spread: Some(5_000) });
                                }
                            }
                            // two limits at a time
                            for s in [0, 1, 99, 500] {
                                for (d, f, k) in [(Some(0), None, Min::None), (None, Some(300), Min::None), (None, None, Min::Brings(0)), (None, None, Min::Is(1))] {
                                    l.push(Lim { spread: Some(s), deadline: d, fee: f, min: k });
                                }
                            }
                            for f in [0, 29, 30, 300] {
                                l.push(Lim { fee: Some(f), deadline: Some(0), ..FREE });
                                l.push(Lim { fee: Some(f), min: Min::Is(1), ..FREE });
                            }
                            for f in [-1, 0, 29, 30, 99, 100, 299, 300, 10_000] {
                                l.push(Lim { fee: Some(f), ..FREE });
                            }
                            for l in l {
                                v.push(Op::Trade(ADMIN, tok, p, x, l));
                            }
                        }
                    }
                }
                if m.depth == 0 {
                    v.push(Op::PoolTrade(1, 0, 20_000));
                    v.push(Op::PoolTrade(2, 2, 20_000));
                    v.push(Op::Wait(5));
                }
                v
            }),
        )));
    }
    let (e, f) = (10i128.pow(22), 10i128.pow(16));
    v.push(Box::new(T {
        label: "great amounts".into(),
        pair: (0, 1),
        output: 2,
        pools: vec![(0, 1, e, f, 30), (1, 2, e, f, 100)],
        fund: [10i128.pow(20), 5 << 40, 1 << 70, 0],
        depth: (2, 3),
        alphabet: Box::new(|t, _| {
            let mut v = vec![];
            for (tok, p) in [(0, 0), (1, 0), (1, 1)] {
                for x in [1 << 31, 1 << 32, (1 << 40) + 1, 5 << 40, (1 << 53) + 1, i64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128] {
                    v.push(Op::Trade(ADMIN, tok, p, Amt::Is(x), FREE));
                    v.push(Op::Trade(ADMIN, tok, p, Amt::Is(x), Lim { min: Min::Brings(0), ..FREE }));
                    v.push(Op::Trade(ADMIN, tok, p, Amt::Is(x), Lim { min: Min::Brings(1), ..FREE }));
                }
                v.push(Op::Trade(ADMIN, tok, p, Amt::Omit, FREE));
            }
            for tok in [None, Some(0), Some(1)] {
                for x in [Amt::Is(1 << 32), Amt::Is((1 << 63) + 3), Amt::Is(1 << 64), Amt::All(0), Amt::All(1)] {
                    v.push(Op::Transfer(ADMIN, U3, x, tok));
                }
            }
            v.push(Op::Fund(1, 1 << 80));
            let _ = t;
            v
        }),
        tier,
        huge: true,
    }));
    v
}
