//! Pools of tokens of which less arrives than is sent (crate /verif/tax: one part in a hundred of
//! every transfer is burned on the way): what a pool counts on stays what it has.
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use soroban_env_host::xdr::ScVal;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Provide(u8, i128, i128),
    Swap(u8, bool, i128),
    Withdraw(u8, i128),
    /// Tokens given to the pool.
    Give(bool, i128),
    Fee(i64),
}
pub struct Taxed {
    pub stable: bool,
    /// Whether the first, and the second token is such a token.
    pub which: (bool, bool),
    pub init: Option<(i128, i128)>,
    pub unit: i128,
    pub depth: (usize, usize),
}
#[derive(Clone, Debug)]
pub struct M {
    /// what the pool has been given and does not count on
    extra: (i128, i128),
    r: (i128, i128),
    b: (i128, i128),
    lp: Vec<i128>,
    fee: i64,
}
pub struct C {
    p: Pool,
}

impl Taxed {
    fn see(w: &World, p: &Pool) -> ((i128, i128), i128, (i128, i128), Vec<i128>) {
        let q = w.query(&p.addr, "query_pool_info", vec![]).unwrap_or(ScVal::Void);
        let f = |k: &str| q.try_field(k).map_or(-1, |x| x.field("amount").i128());
        let b = (w.balance(&p.a, &p.addr), w.balance(&p.b, &p.addr));
        ((f("asset_a"), f("asset_b")), f("asset_lp_share"), b, [U1, U2].iter().map(|u| w.balance(&p.lp, &actor(*u))).chain([w.balance(&p.lp, &p.addr)]).collect())
    }
    fn judge(&self, w: &World, c: &C, m: &mut M, op: &Op, ok: bool, o: &mut Out) {
        let (r, s, b, lp) = Taxed::see(w, &c.p);
        o.eq(lp.iter().sum::<i128>(), s, "taxed/shares", || format!("after {op:?}: shares in all hands, and all there are"));
        if !ok {
            o.check(r == m.r && b == m.b && lp == m.lp, "taxed/refused", || format!("{op:?} was refused and changed {:?} to {:?}", (m.r, m.b, &m.lp), (r, b, &lp)));
            return;
        }
        match op {
            Op::Provide(..) => m.extra = (0, 0),
            Op::Give(..) => m.extra = (m.extra.0 + b.0 - m.b.0, m.extra.1 + b.1 - m.b.1),
            _ => (),
        }
        for (t, r, b, x) in [("a", r.0, b.0, m.extra.0), ("b", r.1, b.1, m.extra.1)] {
            o.eq(r + x, b, "taxed/reserve", || format!("after {op:?}: what the pool counts on and what it was given of token {t}, and what it has"));
        }
        (m.r, m.b, m.lp) = (r, b, lp);
    }
}

impl Spec for Taxed {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        format!("less-arrives-{}-{}", match self.which { (true, true) => "both", (true, false) => "first", _ => "second" }, self.init.map_or(0, |x| x.0))
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.depth.0 } else { self.depth.1 }
    }
    fn setup(&self, w: &World) -> C {
        let h = Hashes {
            token: w.upload("soroban_token_contract"),
            stake: w.upload("phoenix_stake"),
            pool: if self.stable { [0; 32] } else { w.upload("phoenix_pool") },
            stable: if self.stable { w.upload("phoenix_pool_stable") } else { [0; 32] },
        };
        let taxed = w.upload("taxed");
        let hash = |t: bool| if t { taxed } else { h.token };
        let ta = token(w, hash(self.which.0), 1, 7);
        let tb = (2..200).map(|s| token(w, hash(self.which.1), s, 7)).find(|t| ta < *t).unwrap();
        for u in [U1, U2, FEE] {
            mint(w, &ta, u, 1_000_000 * self.unit);
            mint(w, &tb, u, 1_000_000 * self.unit);
        }
        let cfg = PoolCfg { max_spread: 10_000, max_slip: 10_000, def_slip: 5_000, ..if self.stable { PoolCfg::stable(30, 60) } else { PoolCfg::xyk(30) } };
        let p = w.create(if self.stable { h.stable } else { h.pool }, 210, vec![]);
        w.call(&p, "initialize", pool_init_args(&cfg, &h, &ta, &tb)).expect("pool initialize");
        let lp = w.call(&p, "query_share_token_address", vec![]).unwrap().address();
        let stake = w.call(&p, "query_stake_contract_address", vec![]).unwrap().address();
        C { p: Pool { addr: p, a: ta, b: tb, lp, stake, dec: (7, 7), lp_dec: 7 } }
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        let (r, _, b, lp) = Taxed::see(w, &c.p);
        let mut m = M { extra: (0, 0), r, b, lp, fee: 30 };
        if let Some((x, y)) = self.init {
            self.step(w, c, &mut m, &Op::Provide(U1, x, y), o);
            assert!(!o.same || !o.violations.is_empty(), "the first deposit is refused");
            o.same = false;
        }
        m
    }
    fn key(&self, m: &M) -> String {
        format!("{:?}", (m.extra, m.fee))
    }
    fn ops(&self, _c: &C, m: &M) -> Vec<Op> {
        let u = self.unit;
        let mut v = vec![];
        for who in [U1, U2] {
            v.extend([Op::Provide(who, 2 * u, 3 * u), Op::Provide(who, 5 * u + 7, 5 * u)]);
            v.extend([Op::Swap(who, true, u + 3), Op::Swap(who, false, 7 * u)]);
        }
        // fifty is the least of which anything is taken
        v.extend([Op::Swap(U1, true, 49), Op::Swap(U2, false, 50), Op::Swap(FEE, false, u), Op::Swap(U1, true, 60 * u)]);
        for (n, who) in [U1, U2].into_iter().enumerate() {
            let lp = m.lp[n];
            if lp > 0 {
                v.extend([Op::Withdraw(who, lp), Op::Withdraw(who, lp / 3 + 1)]);
            }
        }
        v.extend([Op::Give(true, u / 2), Op::Give(false, 49), Op::Fee(if m.fee == 30 { 1_000 } else { 30 })]);
        v
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let p = &c.p;
        let r = match op {
            Op::Provide(u, x, y) => provide(w, self.stable, p, *u, *x, *y),
            Op::Swap(u, a2b, x) => swap(w, &p.addr, *u, if *a2b { &p.a } else { &p.b }, *x),
            Op::Withdraw(u, x) => w.call(&p.addr, "withdraw_liquidity", vec![a(*u), i128v(*x), i128v(1), i128v(1), void()]),
            Op::Give(first, x) => w.call(if *first { &p.a } else { &p.b }, "transfer", vec![a(U2), addr(&p.addr), i128v(*x)]),
            Op::Fee(f) => {
                let mut args = vec![void(), i64v(*f), void(), void(), void()];
                if self.stable {
                    args.insert(0, a(ADMIN));
                } else {
                    args.push(void());
                }
                let r = w.call(&p.addr, "update_config", args);
                if r.is_ok() {
                    m.fee = *f;
                }
                r
            }
        };
        let kind = format!("{op:?}");
        o.count(format!("less arrives: {}{}", kind.split('(').next().unwrap(), if r.is_ok() { "" } else { " refused" }));
        self.judge(w, c, m, op, r.is_ok(), o);
        o.same = r.is_err();
    }
}

pub fn scenarios(stable: bool) -> Vec<Box<dyn Scenario>> {
    let s = |which, init, unit, depth| Box::new(Taxed { stable, which, init, unit, depth }) as Box<dyn Scenario>;
    vec![
        s((true, true), Some((100_000, 120_000)), 1_000, (3, 4)),
        s((true, false), Some((7_000_000_000, 7_000_000_000)), 100_000_000, (3, 4)),
        s((false, true), None, 1_000, (3, 4)),
    ]
}
