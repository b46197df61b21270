//! Both liquidity pools (constant product and stable): alphabet, observation and oracle.
use crate::explore::*;
use crate::props::curve_ref as cr;
use crate::props::events;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use num_bigint::BigInt;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bound<T> {
    /// relative to what the pool quotes at this state
    Quote(T),
    Abs(T),
}

#[derive(Clone, Debug)]
pub enum Op {
    Swap { who: u8, a2b: bool, amt: i128, min: Option<Bound<i128>>, spread: Option<i64>, dl: Option<i64>, fee: Option<i64> },
    Provide { who: u8, da: i128, db: i128, min_a: Option<i128>, min_b: Option<i128>, slip: Option<i64>, dl: Option<i64>, min_shares: Option<Bound<i128>> },
    Withdraw { who: u8, shares: i128, min_a: Bound<i128>, min_b: Bound<i128>, dl: Option<i64> },
    Donate { who: u8, a: bool, amt: i128 },
    MoveLp { from: u8, to: u8, amt: i128 },
    /// a holder gives up shares at the share token, without the pool
    BurnLp { who: u8, amt: i128 },
    SetFee(i64),
    WrongAsset { who: u8 },
    /// A deposit to the constant product pool in which an amount is left out.
    ProvideSome { who: u8, da: Option<i128>, db: Option<i128>, min_a: Option<i128> },
    Bond { who: u8, amt: i128 },
    Reverse { ask_b: bool, amt: i128 },
    ShareQuote { amt: i128 },
    /// seconds in which nobody does anything
    Wait(u64),
}

pub fn sw(who: u8, a2b: bool, amt: i128) -> Op {
    Op::Swap { who, a2b, amt, min: None, spread: None, dl: None, fee: None }
}
pub fn pr(who: u8, da: i128, db: i128) -> Op {
    Op::Provide { who, da, db, min_a: None, min_b: None, slip: None, dl: None, min_shares: None }
}
pub fn wd(who: u8, shares: i128) -> Op {
    Op::Withdraw { who, shares, min_a: Bound::Abs(1), min_b: Bound::Abs(1), dl: None }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub ra: i128,
    pub rb: i128,
    pub s: i128,
    /// token a, token b, LP of: users and fee recipient, then the pool and the stake contract
    pub bal: BTreeMap<u8, [i128; 3]>,
}
pub const POOL: u8 = 200;
pub const STAKE: u8 = 201;
impl Obs {
    pub fn lp(&self, who: u8) -> i128 {
        self.bal[&who][2]
    }
}

#[derive(Clone, Debug)]
pub struct M {
    pub o: Obs,
    pub fee: i64,
    /// tokens the pool holds beyond its recorded reserves
    pub extra: (i128, i128),
    /// shares given up at the share token
    pub burned: i128,
    pub wallet0: (i128, i128),
    pub n: u32,
    /// operations by which another than the watched user moved value
    pub steps: u32,
}

type Alphabet = Box<dyn Fn(&M) -> Vec<Op> + Sync + Send>;

pub struct Amm {
    pub label: String,
    /// which of the judgements count for this property
    pub tags: &'static [&'static str],
    pub cfg: PoolCfg,
    pub init: Option<(i128, i128)>,
    pub fund: i128,
    pub depth: (usize, usize),
    pub alphabet: Alphabet,
    /// watch that this user cannot end up with more of both tokens by acting alone
    pub profit: Option<u8>,
    /// a history of its own, for a listed finding
    pub special: bool,
}

const USERS: [u8; 3] = [U1, U2, FEE];

impl Amm {
    /// What the last call published, where that is looked at.
    fn published(&self, w: &World) -> Option<Vec<Event>> {
        self.tags.contains(&"event").then(|| w.events())
    }
    #[allow(clippy::too_many_arguments)]
    fn tell(&self, o: &mut Out, p: &Pool, evs: &[Event], pre: &Obs, post: &Obs, swaps: usize, what: &dyn Fn() -> String) {
        let flat = |x: &Obs| -> events::Bal {
            let who = |u: u8| if u == POOL { p.addr.clone() } else { actor(u) };
            x.bal.iter().flat_map(|(u, b)| (0..if *u == FEE { 2 } else { 3 }).map(move |i| ((i, who(*u)), b[i]))).collect()
        };
        events::replay(o, evs, &[p.a.clone(), p.b.clone(), p.lp.clone()], &flat(pre), &flat(post), what);
        let n = events::pool_tells(o, evs, p, self.cfg.stable, what);
        o.eq(n, swaps, "event/swaps", || format!("{}: number of published swaps", what()));
    }
    pub fn observe(&self, w: &World, p: &Pool) -> Obs {
        let info = w.query(&p.addr, "query_pool_info", vec![]).expect("pool info");
        let mut bal = BTreeMap::new();
        for u in USERS {
            let x = actor(u);
            bal.insert(u, [w.balance(&p.a, &x), w.balance(&p.b, &x), if u == FEE { 0 } else { w.balance(&p.lp, &x) }]);
        }
        bal.insert(POOL, [w.balance(&p.a, &p.addr), w.balance(&p.b, &p.addr), w.balance(&p.lp, &p.addr)]);
        bal.insert(STAKE, [0, 0, w.balance(&p.lp, &p.stake)]);
        Obs {
            ra: info.field("asset_a").field("amount").i128(),
            rb: info.field("asset_b").field("amount").i128(),
            s: info.field("asset_lp_share").field("amount").i128(),
            bal,
        }
    }
    fn now(&self, w: &World, dl: Option<i64>) -> Option<u64> {
        dl.map(|d| match d {
            i64::MIN => 0,
            i64::MAX => u64::MAX,
            d => (w.ts() as i64 + d) as u64,
        })
    }
}

fn others_unchanged(pre: &Obs, post: &Obs, except: &[u8], o: &mut Out, op: &Op) {
    for (u, b) in &pre.bal {
        if !except.contains(u) && post.bal[u] != *b {
            o.fail("custody/bystander", format!("{op:?} changed the balances of {u} from {b:?} to {:?}", post.bal[u]));
        }
    }
}

fn pow18() -> BigInt {
    cr::pow10(18)
}
fn pow14() -> BigInt {
    cr::pow10(14)
}
fn ceil_div(a: &BigInt, b: &BigInt) -> BigInt {
    (a + b - 1) / b
}

impl Spec for Amm {
    type C = Pool;
    type M = M;
    type Op = Op;

    fn name(&self) -> String {
        self.label.clone()
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.depth.0
        } else {
            self.depth.1
        }
    }
    fn setup(&self, w: &World) -> Pool {
        let p = deploy_pool(w, &self.cfg);
        for t in [&p.a, &p.b] {
            for u in USERS {
                mint(w, t, u, self.fund);
            }
        }
        if let Some((x, y)) = self.init {
            // the first deposit comes from somebody who takes no part in what follows
            for t in [&p.a, &p.b] {
                mint(w, t, U3, x.max(y));
            }
            let args = if self.cfg.stable {
                vec![a(U3), i128v(x), i128v(y), i64v(0), void(), void()]
            } else {
                vec![a(U3), i128v(x), void(), i128v(y), void(), i64v(0), void()]
            };
            w.call(&p.addr, "provide_liquidity", args).expect("first deposit");
        }
        p
    }
    fn start(&self, w: &World, p: &Pool, _o: &mut Out) -> M {
        let o = self.observe(w, p);
        let b = o.bal[&self.profit.unwrap_or(U1)];
        M { fee: self.cfg.fee, extra: (0, 0), burned: 0, wallet0: (b[0], b[1]), o, n: 0, steps: 0 }
    }
    fn key(&self, m: &M) -> String {
        // the wallet at the start is the same everywhere; steps matters only to the profit bound
        format!("{} {:?} {} {}", m.fee, m.extra, m.burned, if self.profit.is_some() { m.steps } else { 0 })
    }
    fn ops(&self, _p: &Pool, m: &M) -> Vec<Op> {
        (self.alphabet)(m)
    }

    fn step(&self, w: &World, p: &Pool, m: &mut M, op: &Op, o: &mut Out) {
        let pre = m.o.clone();
        let total_before = |k: usize, ob: &Obs| ob.bal.values().map(|b| b[k]).sum::<i128>();
        let mut failed: Option<CallErr> = None;
        match op {
            Op::Swap { who, a2b, amt, min, spread, dl, fee } => {
                let (tok, io, ia) = if *a2b { (&p.a, 0, 1) } else { (&p.b, 1, 0) };
                let (x, y) = if *a2b { (pre.ra, pre.rb) } else { (pre.rb, pre.ra) };
                let quote = w.query(&p.addr, "simulate_swap", vec![addr(tok), i128v(*amt)]);
                let q = quote.as_ref().ok().map(|v| v.field("ask_amount").i128());
                let min_abs = min.map(|b| match b {
                    Bound::Abs(x) => x,
                    Bound::Quote(d) => q.unwrap_or(0) + d,
                });
                let dl_abs = self.now(w, *dl);
                let r = w.call(
                    &p.addr,
                    "swap",
                    vec![a(*who), addr(tok), i128v(*amt), opt(min_abs, i128v), opt(*spread, i64v), opt(dl_abs, u64v), opt(*fee, i64v)],
                );
                let evs = self.published(w);
                let post = self.observe(w, p);
                match r {
                    Ok(v) => {
                        o.count("swap ok");
                        if let (Some(evs), Ok(qv)) = (&evs, &quote) {
                            let what = || format!("{op:?}");
                            events::swapped(o, evs, p, self.cfg.stable, *who, *a2b, *amt, v.i128(), qv.field("spread_amount").i128(), &what);
                            self.tell(o, p, evs, &pre, &post, 1, &what);
                        }
                        let mut got = post.bal[who][ia] - pre.bal[who][ia];
                        let paid = pre.bal[who][io] - post.bal[who][io];
                        let mut fee_got = post.bal[&FEE][ia] - pre.bal[&FEE][ia];
                        if *who == FEE {
                            // the fee recipient trades: it gets both, and the answer says what is the trade's
                            fee_got = got - v.i128();
                            got = v.i128();
                        }
                        let gross = got + fee_got;
                        // custody
                        o.check(paid == *amt && *amt > 0, "custody/swap-paid", || format!("{op:?}: the trader paid {paid}"));
                        o.eq(v.i128(), got, "custody/swap-answer", || format!("{op:?}: returned amount against received"));
                        let (rx, ry) = if *a2b { (post.ra, post.rb) } else { (post.rb, post.ra) };
                        o.eq((rx, ry), (x + paid, y - gross), "custody/swap-reserves", || format!("{op:?}: reserves (offer, ask), paid {paid}, out {gross}"));
                        o.eq(post.s, pre.s, "custody/swap-shares", || format!("{op:?}: total shares"));
                        o.check(*who == FEE || post.bal[&FEE][io] == pre.bal[&FEE][io], "custody/swap-fee-token", || format!("{op:?}: the fee recipient's balance of the offered token changed"));
                        others_unchanged(&pre, &post, &[*who, FEE, POOL], o, op);
                        // price
                        let (bx, by, bd) = (big(x), big(y), big(*amt));
                        if !self.cfg.stable {
                            let den = &bx + &bd;
                            let lo = &by * &bd / &den;
                            let hi = ceil_div(&(&by * &bd), &den);
                            let spot = &bd * &by / &bx;
                            let g = big(gross);
                            o.check(g <= hi, "price/above-curve", || format!("{op:?} on reserves {x}/{y}: paid out {gross}, the constant product allows {hi}"));
                            o.check(g <= spot, "price/above-spot", || format!("{op:?} on reserves {x}/{y}: paid out {gross}, the price before the trade gives {spot}"));
                            o.check(g >= lo, "price/below-curve", || format!("{op:?} on reserves {x}/{y}: paid out {gross}, the constant product gives {lo}"));
                        } else {
                            self.judge_stable_price(p, m, op, (x, y), *a2b, *amt, gross, o);
                        }
                        let want_fee = big(gross) * m.fee / 10_000;
                        o.check(big(fee_got) == want_fee, "price/fee", || format!("{op:?}: {fee_got} of {gross} went to the fee recipient at {} bps, not {want_fee}", m.fee));
                        // limits
                        if let Some(d) = dl_abs {
                            o.check(w.ts() <= d, "limits/deadline", || format!("{op:?} executed at {} after its deadline {d}", w.ts()));
                        }
                        if let Some(mn) = min_abs {
                            o.check(got >= mn, "limits/min-received", || format!("{op:?}: received {got}, asked for at least {mn}"));
                        }
                        if let Some(f) = fee {
                            o.check(*f >= m.fee, "limits/fee", || format!("{op:?}: executed at a fee of {} bps, the trader accepted {f}", m.fee));
                        }
                        let cap = spread.unwrap_or(self.cfg.max_spread);
                        o.check((0..=self.cfg.max_spread).contains(&cap), "limits/spread-range", || format!("{op:?}: a spread tolerance above the pool's {} was accepted", self.cfg.max_spread));
                        let sp = self.spread(p, *a2b, (x, y), *amt, gross);
                        o.check(sp.clone() * 10_000 <= big(cap as i128) * gross, "limits/spread", || format!("{op:?}: spread {sp} of {gross} is more than {cap} bps"));
                        // quote
                        match &quote {
                            Ok(qv) => {
                                o.eq(qv.field("ask_amount").i128(), got, "quote/swap-amount", || format!("{op:?}: quoted against received"));
                                o.eq(qv.field("commission_amount").i128(), fee_got, "quote/swap-fee", || format!("{op:?}: quoted commission against fee paid"));
                                o.eq(big(qv.field("spread_amount").i128()), sp, "quote/swap-spread", || format!("{op:?}: quoted spread against the one of the execution"));
                                o.eq(
                                    qv.field("total_return").i128(),
                                    gross + qv.field("spread_amount").i128(),
                                    "quote/swap-total",
                                    || format!("{op:?}: quoted total"),
                                );
                            }
                            Err(e) => o.fail("quote/refused", format!("{op:?}: executed, but the quote was refused ({e:?})")),
                        }
                        m.steps += 1;
                    }
                    Err(e) => {
                        failed = Some(e);
                        o.count(format!("swap {e:?}"));
                        let why = self.swap_refusal(p, m, (x, y), *a2b, *amt, min_abs, *spread, dl_abs.map(|d| w.ts() > d), *fee, q, pre.bal[who][io]);
                        if self.special && self.cfg.stable {
                            let (dx, dy) = self.scale(p, *a2b);
                            let due = cr::stable_out(self.cfg.amp, x, y, *amt, dx, dy);
                            if due > cr::tol_units(dy) {
                                o.fail("price/imbalanced-pool-refused", format!("{op:?} on reserves {x}/{y} was refused ({e:?}), the stable curve gives {due}"));
                            }
                        }
                        if why.is_none() {
                            o.fail("limits/refused", format!("{op:?} on reserves {x}/{y} was refused ({e:?}) although it was within all limits (quote {q:?})"));
                            o.fail("price/refused", format!("{op:?} on reserves {x}/{y} was refused ({e:?}) although it was within all limits (quote {q:?})"));
                        }
                    }
                }
                m.o = post;
            }
            Op::Provide { who, da, db, min_a, min_b, slip, dl, min_shares } => {
                let dl_abs = self.now(w, *dl);
                let mut min_sh = None;
                let r = if self.cfg.stable {
                    if let Some(b) = min_shares {
                        min_sh = Some(match b {
                            Bound::Abs(x) => *x,
                            Bound::Quote(d) => {
                                // what this deposit mints, tried out on a copy of the ledger
                                let snap = w.snapshot();
                                let before = w.balance(&p.lp, &actor(*who));
                                let _ = provide(w, true, p, *who, *da, *db);
                                let got = w.balance(&p.lp, &actor(*who)) - before;
                                w.restore(&snap);
                                (got + d).max(0)
                            }
                        });
                    }
                    w.call(&p.addr, "provide_liquidity", vec![a(*who), i128v(*da), i128v(*db), opt(*slip, i64v), opt(dl_abs, u64v), opt(min_sh, |x| u128v(x as u128))])
                } else {
                    w.call(
                        &p.addr,
                        "provide_liquidity",
                        vec![a(*who), i128v(*da), opt(*min_a, i128v), i128v(*db), opt(*min_b, i128v), opt(*slip, i64v), opt(dl_abs, u64v)],
                    )
                };
                let evs = self.published(w);
                let post = self.observe(w, p);
                match r {
                    Ok(_) => {
                        o.count("provide ok");
                        let sa = pre.bal[who][0] - post.bal[who][0];
                        let sb = pre.bal[who][1] - post.bal[who][1];
                        if let Some(evs) = &evs {
                            let what = || format!("{op:?}");
                            events::provided(o, evs, p, *who, sa, sb, &what);
                            self.tell(o, p, evs, &pre, &post, 0, &what);
                        }
                        let got = post.bal[who][2] - pre.bal[who][2];
                        let (reca, recb) = (post.ra - pre.ra, post.rb - pre.rb);
                        let first = pre.s == 0;
                        // custody
                        o.check(sa >= 0 && sb >= 0, "custody/provide-paid", || format!("{op:?}: the depositor's balances changed by {} and {}", -sa, -sb));
                        o.eq((post.bal[&POOL][0] - pre.bal[&POOL][0], post.bal[&POOL][1] - pre.bal[&POOL][1]), (sa, sb), "custody/provide-pool", || format!("{op:?}: what the pool got"));
                        o.eq((post.ra, post.rb), (post.bal[&POOL][0], post.bal[&POOL][1]), "custody/provide-reserves", || format!("{op:?}: recorded reserves against balances"));
                        others_unchanged(&pre, &post, &[*who, POOL], o, op);
                        m.extra = (0, 0);
                        let lock = post.bal[&POOL][2] - pre.bal[&POOL][2];
                        o.eq(post.s - pre.s, got + lock, "custody/provide-shares", || format!("{op:?}: change of the total against minted shares"));
                        o.eq(lock, if first && !self.cfg.stable { 1000 } else { 0 }, "lp/locked", || format!("{op:?}: shares the pool keeps itself"));
                        // lp
                        if !self.cfg.stable {
                            if first {
                                let root = (big(sa) * big(sb)).sqrt();
                                o.eq(big(post.s), root, "lp/first-shares", || format!("{op:?}: shares of the first deposit"));
                            } else {
                                let fair_a = big(pre.s) * reca / pre.ra;
                                let fair_b = big(pre.s) * recb / pre.rb;
                                let fair = fair_a.min(fair_b);
                                o.check(big(got) <= fair, "lp/too-many-shares", || format!("{op:?}: minted {got} of {} shares for {reca}/{recb} into {}/{}, fair are {fair}", pre.s, pre.ra, pre.rb));
                                o.check(big(got) >= fair, "lp/too-few-shares", || format!("{op:?}: minted {got} of {} shares for {reca}/{recb} into {}/{}, fair are {fair}", pre.s, pre.ra, pre.rb));
                            }
                        } else {
                            self.judge_stable_shares(p, m, op, &pre, (sa, sb), got, o);
                        }
                        // limits
                        if let Some(d) = dl_abs {
                            o.check(w.ts() <= d, "limits/provide-deadline", || format!("{op:?} executed at {} after its deadline {d}", w.ts()));
                        }
                        o.check(sa <= *da && sb <= *db, "limits/provide-max", || format!("{op:?}: took {sa} and {sb}"));
                        // the first deposit is taken as offered
                        let least = |x: Option<i128>, d: i128| x.map_or(i128::MIN, |x| if first { x.min(d) } else { x });
                        o.check(sa >= least(*min_a, *da) && sb >= least(*min_b, *db), "limits/provide-min", || format!("{op:?}: took only {sa} and {sb}"));
                        if let Some(x) = min_sh {
                            o.check(got >= x, "limits/min-shares", || format!("{op:?}: minted {got}, asked for at least {x}"));
                        }
                        // the default of the pool itself may be above what it lets a caller ask for
                        if let Some(x) = slip {
                            o.check(*x <= self.cfg.max_slip, "limits/slippage-range", || format!("{op:?}: a slippage tolerance above the pool's {} was accepted", self.cfg.max_slip));
                        }
                        if !self.cfg.stable && !first {
                            let s = slip.unwrap_or(self.cfg.def_slip);
                            o.check(self.within_slippage(*da, *db, pre.ra, pre.rb, s), "limits/slippage", || format!("{op:?} into {}/{}: the offered amounts are off the pool's ratio by more than {s} bps", pre.ra, pre.rb));
                            // the deposit keeps the ratio of the pool, up to a unit
                            let l = big(sa) * pre.rb;
                            let r = big(sb) * pre.ra;
                            let unit = big(pre.ra.max(pre.rb));
                            o.check(&l - &r <= unit && &r - &l <= unit, "lp/ratio", || format!("{op:?} into {}/{}: took {sa} and {sb}", pre.ra, pre.rb));
                        }
                        m.steps += 1;
                    }
                    Err(e) => {
                        failed = Some(e);
                        o.count(format!("provide {e:?}"));
                        let late = dl_abs.map_or(false, |d| w.ts() > d);
                        let bad_num = *da <= 0 || *db <= 0 || min_a.map_or(false, |x| x <= 0) || min_b.map_or(false, |x| x <= 0);
                        let poor = pre.bal[who][0] < *da || pre.bal[who][1] < *db;
                        // the stable pool holds its default to the same bound
                        let slip_bad = slip.map_or(self.cfg.stable && self.cfg.def_slip > self.cfg.max_slip, |x| x > self.cfg.max_slip);
                        let why = if self.cfg.stable {
                            let small = pre.s == 0 && da.saturating_add(*db) <= 3000;
                            late || bad_num || poor || slip_bad || small || matches!(min_shares, Some(Bound::Quote(d)) if *d > 0) || matches!(min_shares, Some(Bound::Abs(_)))
                        } else {
                            let first = pre.s == 0;
                            let small = first && (*da <= 0 || *db <= 0 || (big(*da) * *db).sqrt() <= big(1000));
                            let slip_off = !first && !self.within_slippage(*da, *db, pre.ra, pre.rb, slip.unwrap_or(self.cfg.def_slip));
                            // what would be taken falls short of a minimum
                            let short = !first && {
                                let na = (big(*db) * pre.ra / pre.rb).min(big(*da));
                                let nb = (big(*da) * pre.rb / pre.ra).min(big(*db));
                                min_a.map_or(false, |x| na < big(x)) || min_b.map_or(false, |x| nb < big(x))
                            };
                            let nothing = !first && { (big(*db) * pre.ra / pre.rb) == big(0) || (big(*da) * pre.rb / pre.ra) == big(0) };
                            late || bad_num || poor || slip_bad || small || slip_off || short || nothing
                        };
                        if !why {
                            o.fail("limits/provide-refused", format!("{op:?} into {}/{} was refused ({e:?}) although it was within all limits", pre.ra, pre.rb));
                            o.fail("lp/provide-refused", format!("{op:?} into {}/{} was refused ({e:?}) although it was within all limits", pre.ra, pre.rb));
                        }
                    }
                }
                m.o = post;
            }
            Op::Withdraw { who, shares, min_a, min_b, dl } => {
                let dl_abs = self.now(w, *dl);
                let quote = w.query(&p.addr, "query_share", vec![i128v(*shares)]);
                let q: Option<(i128, i128)> = quote.as_ref().ok().map(|v| {
                    let l = v.list();
                    (l[0].field("amount").i128(), l[1].field("amount").i128())
                });
                let res = |b: &Bound<i128>, q: Option<i128>| match b {
                    Bound::Abs(x) => *x,
                    Bound::Quote(d) => q.unwrap_or(0) + d,
                };
                let (ma, mb) = (res(min_a, q.map(|x| x.0)), res(min_b, q.map(|x| x.1)));
                let r = w.call(&p.addr, "withdraw_liquidity", vec![a(*who), i128v(*shares), i128v(ma), i128v(mb), opt(dl_abs, u64v)]);
                let evs = self.published(w);
                let post = self.observe(w, p);
                match r {
                    Ok(v) => {
                        o.count("withdraw ok");
                        let ga = post.bal[who][0] - pre.bal[who][0];
                        let gb = post.bal[who][1] - pre.bal[who][1];
                        if let Some(evs) = &evs {
                            let what = || format!("{op:?}");
                            events::withdrawn(o, evs, p, *who, *shares, ga, gb, &what);
                            self.tell(o, p, evs, &pre, &post, 0, &what);
                        }
                        let l = v.list();
                        o.eq((l[0].i128(), l[1].i128()), (ga, gb), "custody/withdraw-answer", || format!("{op:?}: returned amounts against received"));
                        o.eq((post.ra, post.rb), (pre.ra - ga, pre.rb - gb), "custody/withdraw-reserves", || format!("{op:?}: reserves after paying {ga}/{gb}"));
                        o.eq(post.s, pre.s - shares, "custody/withdraw-total", || format!("{op:?}: total shares"));
                        o.eq(post.bal[who][2], pre.bal[who][2] - shares, "custody/withdraw-burned", || format!("{op:?}: the holder's shares"));
                        o.eq(post.bal[&POOL][2], pre.bal[&POOL][2], "custody/withdraw-pool-shares", || format!("{op:?}: shares the pool holds"));
                        others_unchanged(&pre, &post, &[*who, POOL], o, op);
                        for (g, r, t) in [(ga, pre.ra, "a"), (gb, pre.rb, "b")] {
                            let fair = big(r) * shares / pre.s;
                            o.check(big(g) <= fair, "lp/withdraw-too-much", || format!("{op:?}: {g} of token {t}, the share of {r} is {fair}"));
                            let tol = 1 + r / 1_000_000_000_000_000_000;
                            o.check(big(g) >= fair.clone() - tol, "lp/withdraw-too-little", || format!("{op:?}: {g} of token {t}, the share of {r} is {fair}"));
                        }
                        o.check(*shares > 0, "limits/withdraw-shares", || format!("{op:?} succeeded"));
                        o.check(ga >= ma && gb >= mb, "limits/withdraw-min", || format!("{op:?}: received {ga} and {gb}, asked for at least {ma} and {mb}"));
                        if let Some(d) = dl_abs {
                            o.check(w.ts() <= d, "limits/withdraw-deadline", || format!("{op:?} executed at {} after its deadline {d}", w.ts()));
                        }
                        match q {
                            Some(q) => o.eq((ga, gb), q, "quote/share", || format!("{op:?}: received against query_share")),
                            None => o.fail("quote/share-refused", format!("{op:?}: executed, but query_share was refused")),
                        }
                        m.steps += 1;
                    }
                    Err(e) => {
                        failed = Some(e);
                        o.count(format!("withdraw {e:?}"));
                        let late = dl_abs.map_or(false, |d| w.ts() > d);
                        // (a share is computed in 128 bits with 18 digits)
                        let poor = pre.bal[who][2] < *shares || big(*shares) * pow18() > big(i128::MAX);
                        let bad = *shares <= 0 || ma <= 0 || mb <= 0;
                        // an exact share may come out one unit lower
                        let below = pre.s > 0 && (ma > q.map_or(i128::MAX, |x| x.0) || mb > q.map_or(i128::MAX, |x| x.1));
                        if !(late || poor || bad || below) {
                            o.fail("limits/withdraw-refused", format!("{op:?} was refused ({e:?}) although it was within all limits (share {q:?})"));
                            o.fail("lp/withdraw-refused", format!("{op:?} was refused ({e:?}) although it was within all limits (share {q:?})"));
                        }
                    }
                }
                m.o = post;
            }
            Op::Donate { who, a: is_a, amt } => {
                let t = if *is_a { &p.a } else { &p.b };
                w.call(t, "transfer", vec![a(*who), addr(&p.addr), i128v(*amt)]).expect("donate");
                let post = self.observe(w, p);
                o.count("donate ok");
                o.eq((post.ra, post.rb, post.s), (pre.ra, pre.rb, pre.s), "custody/donate", || format!("{op:?}: reserves and shares"));
                if *is_a {
                    m.extra.0 += amt;
                } else {
                    m.extra.1 += amt;
                }
                m.o = post;
            }
            Op::BurnLp { who, amt } => {
                let r = w.call(&p.lp, "burn", vec![a(*who), i128v(*amt)]);
                let post = self.observe(w, p);
                o.eq((post.ra, post.rb, post.s), (pre.ra, pre.rb, pre.s), "custody/lp-burn", || format!("{op:?}: reserves and shares"));
                match r {
                    Ok(_) => {
                        o.count("lp burn ok");
                        o.eq(post.lp(*who), pre.lp(*who) - amt, "custody/lp-burn-balance", || format!("{op:?}"));
                        m.burned += amt;
                    }
                    Err(e) => {
                        failed = Some(e);
                        o.count("lp burn refused");
                        o.check(pre.lp(*who) < *amt, "custody/lp-burn-refused", || format!("{op:?} refused"));
                    }
                }
                m.o = post;
            }
            Op::MoveLp { from, to, amt } => {
                let r = w.call(&p.lp, "transfer", vec![a(*from), if *to == POOL { addr(&p.addr) } else { a(*to) }, i128v(*amt)]);
                let post = self.observe(w, p);
                o.eq((post.ra, post.rb, post.s), (pre.ra, pre.rb, pre.s), "custody/lp-transfer", || format!("{op:?}: reserves and shares"));
                if r.is_ok() {
                    o.count("lp transfer ok");
                    o.eq((post.bal[from][2], post.bal[to][2]), (pre.bal[from][2] - amt, pre.bal[to][2] + amt), "custody/lp-transfer-balances", || format!("{op:?}"));
                } else {
                    failed = r.err();
                    o.count("lp transfer refused");
                    o.check(pre.lp(*from) < *amt, "custody/lp-transfer-refused", || format!("{op:?} refused"));
                }
                m.o = post;
            }
            Op::SetFee(bps) => {
                let args = if self.cfg.stable {
                    vec![a(ADMIN), void(), i64v(*bps), void(), void(), void()]
                } else {
                    vec![void(), i64v(*bps), void(), void(), void(), void()]
                };
                let r = w.call(&p.addr, "update_config", args);
                o.count(if r.is_ok() { "fee set" } else { "fee refused" });
                if r.is_ok() {
                    m.fee = *bps;
                } else {
                    failed = r.err();
                }
            }
            Op::WrongAsset { who } => {
                let r = w.call(&p.addr, "swap", vec![a(*who), addr(&p.lp), i128v(10), void(), void(), void(), void()]);
                let post = self.observe(w, p);
                o.check(r.is_err(), "limits/wrong-asset", || format!("{op:?}: a swap of a token that is not in the pool was executed"));
                o.count("wrong asset");
                failed = r.err();
                m.o = post;
            }
            Op::ProvideSome { who, da, db, min_a } => {
                let r = w.call(&p.addr, "provide_liquidity", vec![a(*who), opt(*da, i128v), opt(*min_a, i128v), opt(*db, i128v), void(), void(), void()]);
                let post = self.observe(w, p);
                o.check(r.is_err(), "limits/amount-missing", || format!("{op:?}: a deposit without an amount of one of the tokens was executed"));
                o.count("amount missing");
                failed = r.err();
                m.o = post;
            }
            Op::Bond { who, amt } => {
                let r = w.call(&p.stake, "bond", vec![a(*who), i128v(*amt)]);
                let post = self.observe(w, p);
                o.count(if r.is_ok() { "bond ok" } else { "bond refused" });
                o.eq((post.ra, post.rb, post.s), (pre.ra, pre.rb, pre.s), "custody/bond", || format!("{op:?}: reserves and shares"));
                failed = r.err();
                m.o = post;
            }
            Op::Wait(s) => w.advance(*s),
            Op::Reverse { ask_b, amt } => {
                self.judge_reverse(w, p, m, *ask_b, *amt, o);
                o.same = true;
                return;
            }
            Op::ShareQuote { amt } => {
                let q = w.query(&p.addr, "query_share", vec![i128v(*amt)]);
                let info = w.query(&p.addr, "query_pool_info_for_factory", vec![]);
                if let Ok(v) = info {
                    let r = v.field("pool_response");
                    o.eq(
                        (r.field("asset_a").field("amount").i128(), r.field("asset_b").field("amount").i128(), r.field("asset_lp_share").field("amount").i128(), v.field("total_fee_bps").i64()),
                        (pre.ra, pre.rb, pre.s, m.fee),
                        "quote/pool-info",
                        || "pool info for the factory".to_string(),
                    );
                } else {
                    o.fail("quote/pool-info", "query_pool_info_for_factory was refused");
                }
                let t = w.query(&p.addr, "query_total_issued_lp", vec![]).map(|v| v.i128());
                o.eq(t, Ok(pre.s), "quote/total-lp", || "total issued LP".into());
                if let Ok(v) = q {
                    let l = v.list();
                    for (g, r) in [(l[0].field("amount").i128(), pre.ra), (l[1].field("amount").i128(), pre.rb)] {
                        if pre.s > 0 {
                            let fair = big(r) * *amt / pre.s;
                            o.check(big(g) <= fair && big(g) >= fair.clone() - 1 - r / 1_000_000_000_000_000_000, "quote/share-value", || format!("{op:?}: {g}, the share of {r} is {fair}"));
                        }
                    }
                }
                o.same = true;
                return;
            }
        }
        // a refused call changes nothing
        if failed.is_some() {
            if m.o != pre {
                o.fail("limits/partial", format!("{op:?} was refused but changed the state from {pre:?} to {:?}", m.o));
                o.fail("custody/partial", format!("{op:?} was refused but changed the state from {pre:?} to {:?}", m.o));
            }
            o.same = true;
        }
        let post = &m.o;
        // what the pool holds is what it recorded plus what was sent to it without asking
        for (k, r, e) in [(0, post.ra, m.extra.0), (1, post.rb, m.extra.1)] {
            o.eq(post.bal[&POOL][k], r + e, "custody/holdings", || format!("after {op:?}: the pool's balance of token {} against its reserve plus donations", ["a", "b"][k]));
        }
        let init_lp = if self.init.is_some() { w.balance(&p.lp, &actor(U3)) } else { 0 };
        o.eq(post.s, total_before(2, post) + init_lp + m.burned, "custody/share-supply", || {
            format!("after {op:?}: total shares against the sum of all LP balances, with {} given up at the token", m.burned)
        });
        for k in 0..2 {
            o.eq(total_before(k, post), total_before(k, &pre), "custody/conservation", || format!("{op:?}: sum of all balances of token {}", ["a", "b"][k]));
        }
        o.check(post.s == 0 || (post.ra > 0 && post.rb > 0), "custody/empty-with-shares", || format!("after {op:?}: {} shares of reserves {}/{}", post.s, post.ra, post.rb));
        // no operation lowers what a share is worth, except for less than one unit of rounding
        if pre.s > 0 && post.s > 0 && !self.cfg.stable {
            let l = big(post.ra + 1) * big(post.rb + 1) * big(pre.s) * big(pre.s);
            let r = big(pre.ra) * big(pre.rb) * big(post.s) * big(post.s);
            o.check(l >= r, "lp/diluted", || format!("{op:?}: reserves {}/{} of {} shares became {}/{} of {}", pre.ra, pre.rb, pre.s, post.ra, post.rb, post.s));
        }
        if let Some(u) = self.profit {
            self.judge_profit(m, u, op, o);
        }
        if failed.is_none() {
            m.n += 1;
        }
        let tags = self.tags;
        o.violations.retain(|v| tags.iter().any(|t| v.key.starts_with(t)));
    }
}

impl Amm {
    fn scale(&self, p: &Pool, a2b: bool) -> (u32, u32) {
        if a2b {
            p.dec
        } else {
            (p.dec.1, p.dec.0)
        }
    }
    fn spread(&self, p: &Pool, a2b: bool, (x, y): (i128, i128), amt: i128, gross: i128) -> BigInt {
        if self.cfg.stable {
            let (dx, dy) = self.scale(p, a2b);
            let at_par = cr::rescale(&big(amt), dx, dy);
            (at_par - gross).max(big(0))
        } else {
            big(amt) * y / x - gross
        }
    }
    fn within_slippage(&self, da: i128, db: i128, ra: i128, rb: i128, bps: i64) -> bool {
        if da <= 0 || db <= 0 {
            return false;
        }
        let ok = |need: BigInt, have: i128| need <= big(have) || (need - have) * 1_000_000_000_000_000_000i128 / have <= big(bps as i128) * 100_000_000_000_000i128;
        ok(big(db) * ra / rb, da) && ok(big(da) * rb / ra, db)
    }
    #[allow(clippy::too_many_arguments)]
    fn swap_refusal(&self, p: &Pool, m: &M, (x, y): (i128, i128), a2b: bool, amt: i128, min: Option<i128>, spread: Option<i64>, late: Option<bool>, fee: Option<i64>, q: Option<i128>, wallet: i128) -> Option<&'static str> {
        if amt <= 0 {
            return Some("amount");
        }
        if late == Some(true) {
            return Some("deadline");
        }
        if fee.map_or(false, |f| f < m.fee) {
            return Some("fee");
        }
        if spread.map_or(false, |s| !(0..=self.cfg.max_spread).contains(&s)) {
            return Some("spread range");
        }
        if x == 0 || y == 0 {
            return Some("empty");
        }
        if wallet < amt {
            return Some("balance");
        }
        let cap = big(spread.unwrap_or(self.cfg.max_spread) as i128);
        if self.cfg.stable {
            let (dx, dy) = self.scale(p, a2b);
            let lo = cr::stable_out_sum(self.cfg.amp, x, y, amt, dx, dy);
            // ten units of the solver's tolerance, and one of rounding
            let lo = lo - cr::tol_units(dy) - 1;
            if lo <= big(0) {
                return Some("nothing to receive");
            }
            let at_par: BigInt = cr::rescale(&big(amt), dx, dy);
            let sp: BigInt = BigInt::max(&at_par - &lo, big(0));
            // ratios with 18 digits are computed in 128 bits
            if &sp * pow18() > big(i128::MAX) || cr::stable_out(self.cfg.amp, x, y, amt, dx, dy) * m.fee * pow14() > big(i128::MAX) {
                return Some("more than the decimal arithmetic holds");
            }
            if sp * 10_000 > cap * &lo {
                return Some("spread");
            }
        } else {
            let g_lo = big(y) * amt / (big(x) + amt);
            let spot = big(amt) * y / x;
            if g_lo <= big(0) {
                return Some("nothing to receive");
            }
            // rounded down in the trader's disfavour the spread may still be too large
            if (spot - &g_lo) * 10_000 > cap * &g_lo {
                return Some("spread");
            }
        }
        if let Some(mn) = min {
            if q.map_or(true, |q| mn > q) {
                return Some("minimum");
            }
        }
        None
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_stable_price(&self, p: &Pool, _m: &M, op: &Op, (x, y): (i128, i128), a2b: bool, amt: i128, gross: i128, o: &mut Out) {
        let (dx, dy) = self.scale(p, a2b);
        let hi = cr::stable_out(self.cfg.amp, x, y, amt, dx, dy);
        let g = big(gross);
        o.check(g <= &hi + 1, "price/above-curve", || format!("{op:?} on reserves {x}/{y}: paid out {gross}, the stable curve allows {hi}"));
        let lo = cr::stable_out_sum(self.cfg.amp, x, y, amt, dx, dy) - cr::tol_units(dy) - 1;
        o.check(g >= lo, "price/below-curve", || format!("{op:?} on reserves {x}/{y}: paid out {gross}, at least {lo} was due"));
        if self.special {
            o.check(g >= &hi - cr::tol_units(dy) - 1, "price/imbalanced-pool-underpays", || {
                format!("{op:?} on reserves {x}/{y}: paid out {gross}, the stable curve gives {hi}")
            });
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_stable_shares(&self, p: &Pool, _m: &M, op: &Op, pre: &Obs, (reca, recb): (i128, i128), got: i128, o: &mut Out) {
        let up = |v: i128, d: u32| cr::rescale(&big(v), d, p.lp_dec);
        if pre.s == 0 {
            let sum = up(reca, p.dec.0) + up(recb, p.dec.1);
            o.check(big(got) <= &sum - 1000, "lp/first-shares", || format!("{op:?}: minted {got} for a first deposit worth {sum}"));
            if up(reca, p.dec.0) == up(recb, p.dec.1) {
                o.check(big(got) >= &sum - 1000 - cr::tol_units(p.lp_dec), "lp/first-shares", || format!("{op:?}: minted {got} for a first deposit worth {sum}"));
            }
            return;
        }
        // any fair rule mints between the smaller and the larger of the two proportions
        let s = big(pre.s);
        let (pa, pb) = (&s * reca / pre.ra, &s * recb / pre.rb);
        let (lo, hi) = if pa < pb { (pa, pb) } else { (pb, pa) };
        let tol = cr::tol_units(p.lp_dec) * 2 + 2;
        o.check(big(got) <= &hi + &tol, "lp/too-many-shares", || format!("{op:?}: minted {got} of {} shares for {reca}/{recb} into {}/{}, at most {hi} are fair", pre.s, pre.ra, pre.rb));
        o.check(big(got) >= &lo - &tol, "lp/too-few-shares", || format!("{op:?}: minted {got} of {} shares for {reca}/{recb} into {}/{}, at least {lo} are fair", pre.s, pre.ra, pre.rb));
        if self.special {
            let d0 = cr::d_true(self.cfg.amp, &cr::rescale(&big(pre.ra), p.dec.0, 18), &cr::rescale(&big(pre.rb), p.dec.1, 18));
            let d1 = cr::d_true(self.cfg.amp, &cr::rescale(&big(pre.ra + reca), p.dec.0, 18), &cr::rescale(&big(pre.rb + recb), p.dec.1, 18));
            let fair = &s * (&d1 - &d0) / &d0;
            o.check(big(got) <= &fair + &tol, "lp/imbalanced-deposit-overminted", || {
                format!("{op:?}: minted {got} of {} shares for {reca}/{recb} into {}/{}, the invariant grew by {fair} shares' worth", pre.s, pre.ra, pre.rb)
            });
        }
    }

    fn judge_reverse(&self, w: &World, p: &Pool, m: &M, ask_b: bool, amt: i128, o: &mut Out) {
        let (x, y) = if ask_b { (m.o.ra, m.o.rb) } else { (m.o.rb, m.o.ra) };
        let (offer_tok, ask_tok, ia) = if ask_b { (&p.a, &p.b, 1) } else { (&p.b, &p.a, 0) };
        // the constant product pool takes the asked token, the stable pool the offered one
        let arg = if self.cfg.stable { offer_tok } else { ask_tok };
        let r = w.query(&p.addr, "simulate_reverse_swap", vec![addr(arg), i128v(amt)]);
        let tags = self.tags;
        let v = match r {
            Err(e) => {
                o.count(format!("reverse {e:?}"));
                // may be refused only where the pool cannot pay that much
                let room = big(y) * (10_000 - m.fee) / 10_000;
                if !self.cfg.stable && m.fee < 10_000 && big(amt) * 2 < room && x > 0 {
                    o.fail("quote/reverse-refused", format!("a quote for {amt} out of {x}/{y} was refused"));
                }
                if self.cfg.stable && m.fee < 10_000 && big(amt) * 2 < room && x > 0 && x == y {
                    o.fail("quote/reverse-refused", format!("a quote for {amt} out of {x}/{y} was refused"));
                }
                o.violations.retain(|v| tags.iter().any(|t| v.key.starts_with(t)));
                return;
            }
            Ok(v) => v,
        };
        o.count("reverse ok");
        let need = v.field("offer_amount").i128();
        let comm = v.field("commission_amount").i128();
        // trying it out: the quoted offer, plus what rounding may cost, brings the asked amount
        let spread = v.field("spread_amount").i128();
        let pay = |extra: i128| -> Option<(i128, i128, i128)> {
            let s = w.snapshot();
            let b0 = (w.balance(ask_tok, &actor(U1)), w.balance(ask_tok, &actor(FEE)));
            let q = w.call(&p.addr, "simulate_swap", vec![addr(offer_tok), i128v(need + extra)]);
            let _ = (b0, ia);
            w.restore(&s);
            q.ok().map(|v| (v.field("ask_amount").i128(), v.field("commission_amount").i128(), v.field("spread_amount").i128()))
        };
        let (dx, dy) = self.scale(p, ask_b);
        let (tin, tout) = if self.cfg.stable { (cr::tol_i(dx) + 1, cr::tol_i(dy) + 2) } else { (1, 1) };
        match pay(tin) {
            Some((got, c, sp)) => {
                o.check(got + tout >= amt, "quote/reverse-too-low", || format!("for {amt} out of {x}/{y} the quote is {need}, but that brings only {got}"));
                // one unit of what is offered may be worth several of what is asked
                let unit = 2 + (y / x.max(1)) * (tin + 1) + tout;
                o.check((c - comm).abs() <= unit, "quote/reverse-fee", || format!("for {amt} out of {x}/{y}: quoted commission {comm}, executing costs {c}"));
                if self.cfg.stable {
                    // by how much the offer exceeds the asked amount, in units of the offered token
                    let (o_dec, a_dec) = if ask_b { p.dec } else { (p.dec.1, p.dec.0) };
                    let par = big(amt) * big(10).pow(o_dec) / big(10).pow(a_dec);
                    let want = (big(need) - par).max(big(0));
                    o.check((big(spread) - &want).magnitude() <= &1u32.into(), "quote/reverse-spread", || format!("for {amt} out of {x}/{y}: quoted spread {spread}, offering {need}, which is {want} more"));
                } else {
                    o.check((sp - spread).abs() <= unit, "quote/reverse-spread", || format!("for {amt} out of {x}/{y}: quoted spread {spread}, executing costs {sp}"));
                }
            }
            None => o.fail("quote/reverse-too-low", format!("for {amt} out of {x}/{y} the quote is {need}, but such a swap is refused")),
        }
        if need - tin > 0 {
            if let Some((got, _, _)) = pay(-tin - 1) {
                o.check(got <= amt + tout, "quote/reverse-too-high", || format!("for {amt} out of {x}/{y} the quote is {need}, but {tin} less already brings {got}"));
            }
        }
        o.violations.retain(|v| tags.iter().any(|t| v.key.starts_with(t)));
    }

    fn judge_profit(&self, m: &M, u: u8, op: &Op, o: &mut Out) {
        let ob = &m.o;
        if ob.s == 0 {
            return;
        }
        let b = ob.bal[&u];
        let (wa, wb) = (big(b[0]) + big(ob.ra) * b[2] / ob.s, big(b[1]) + big(ob.rb) * b[2] / ob.s);
        let (ga, gb) = (wa - m.wallet0.0, wb - m.wallet0.1);
        if ga >= big(0) && gb >= big(0) {
            // each operation rounds by less than a unit of each token
            let k = big(m.steps as i128 + 1);
            let gain = &ga * ob.rb + &gb * ob.ra;
            let allowed = k * 2 * (ob.ra + ob.rb);
            o.check(gain <= allowed, "lp/profit", || format!("after {op:?}, acting alone, user {u} is up by {ga} of token a and {gb} of token b"));
        }
    }
}
