//! Properties of the stable pool.
use super::amm::*;
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "P07", scenarios: custody, assumptions: host_assumptions },
        Property { id: "P08", scenarios: price, assumptions: host_assumptions },
        Property { id: "P09", scenarios: limits, assumptions: host_assumptions },
        Property { id: "P10", scenarios: quotes, assumptions: host_assumptions },
        Property { id: "P28", scenarios: lp, assumptions: host_assumptions },
    ]
}

#[allow(clippy::too_many_arguments)]
fn amm(label: &str, tags: &'static [&'static str], cfg: PoolCfg, init: Option<(i128, i128)>, fund: i128, depth: (usize, usize), profit: Option<u8>, f: impl Fn(&M) -> Vec<Op> + Sync + Send + 'static) -> Box<dyn Scenario> {
    Box::new(Amm { label: label.into(), tags, cfg, init, fund, depth, alphabet: Box::new(f), profit, special: false })
}

const T7: i128 = 10_000_000;

fn mixed(m: &M, ua: i128, ub: i128) -> Vec<Op> {
    let mut v = vec![];
    for who in [U1, U2] {
        v.push(sw(who, true, ua));
        v.push(sw(who, false, ub * 3 + 1));
        v.push(pr(who, ua * 2, ub * 2));
        v.push(pr(who, ua * 2, ub * 3));
        let lp = m.o.lp(who);
        if lp > 0 {
            v.push(wd(who, lp));
            v.push(wd(who, lp / 2 + 1));
        }
    }
    v.push(sw(FEE, true, ua));
    v.push(sw(FEE, false, ub * 3));
    v.push(sw(U1, true, 1));
    v.push(sw(U1, false, ub * 40));
    v.push(wd(U2, m.o.lp(U2) + 1));
    v.push(Op::Donate { who: U2, a: true, amt: ua / 3 + 1 });
    v.push(Op::Donate { who: U2, a: false, amt: ub / 7 + 1 });
    v.push(Op::MoveLp { from: U1, to: U2, amt: m.o.lp(U1) / 2 + 1 });
    if m.o.lp(U1) > 9 && m.burned == 0 {
        v.push(Op::BurnLp { who: U1, amt: m.o.lp(U1) / 3 });
        v.push(Op::MoveLp { from: U1, to: POOL, amt: m.o.lp(U1) / 5 + 1 });
    }
    v.push(Op::SetFee(if m.fee == 30 { 0 } else { 30 }));
    v.push(Op::Bond { who: U1, amt: (m.o.lp(U1) / 2).max(10) });
    v.push(Op::WrongAsset { who: U1 });
    v.push(sw(U1, true, 0));
    v.push(pr(U2, 0, 5));
    v
}

fn custody(_t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["custody"];
    let wasm = PoolCfg { sac: false, dec: (6, 9), ..PoolCfg::stable(30, 50) };
    let mut v = vec![
        amm("balanced", T, PoolCfg::stable(30, 100), Some((1000 * T7, 1000 * T7)), 100_000 * T7, (4, 5), None, |m| mixed(m, 20 * T7, 20 * T7)),
        amm("from-empty", T, PoolCfg::stable(100, 6), None, 1_000_000, (4, 6), None, |m| mixed(m, 10_009, 10_009)),
        amm("large-pool", T, PoolCfg::stable(30, 1000), Some((500_000_000 * T7, 500_000_000 * T7)), 10_000_000_000 * T7, (3, 4), None, |m| mixed(m, 10_000_007 * T7, 10_000_003 * T7)),
        amm("decimals-6-9", T, wasm, Some((5_000_000_000, 5_000_000_000_000)), 1_000_000_000_000_000, (3, 4), None, |m| mixed(m, 77_000_000, 77_000_000_000)),
        later(T),
    ];
    v.extend(super::taxed::scenarios(true));
    v
}

fn price(t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["price"];
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let top = if th { 3000 } else { 500 };
    // every small offer, and offers on a fine grid up to the size of the pool
    for (x, amp) in [(1000 * T7, 100), (123_457, 6), (1000 * T7, 1), (77 * T7 + 3, 1_000), (31 * T7, 77_777), (5 * T7, 1_000_000)] {
        for fee in if th { vec![0, 1, 30, 333, 9_999, 10_000] } else { vec![0, 30] } {
            v.push(amm(&format!("every-offer-{x}-amp{amp}-fee{fee}"), T, PoolCfg { max_spread: 10_000, ..PoolCfg::stable(fee, amp) }, Some((x, x)), 100_000 * T7, (1, 1), None, move |_| {
                let mut v: Vec<Op> = (1..=top).flat_map(|k| [sw(U1, true, k), sw(U1, false, k)]).collect();
                v.extend((1..=top).flat_map(|k| [sw(U1, true, x * k / (top / 2)), sw(U1, false, x * k / (top / 2) + 1)]));
                v
            }));
        }
    }
    for (dec, ra, rb) in [((7u32, 7u32), 1000 * T7, 1000 * T7), ((6, 7), 1_000_000_000, 1000 * T7), ((7, 6), 1000 * T7, 1_000_000_000), ((3, 18), 5_000_000, 5_000_000_000_000_000_000_000), ((18, 18), 7_000_000_000_000_000_000_001, 7_000_000_000_000_000_000_001), ((0, 5), 9_000_000, 900_000_000_000)] {
        let cfg = PoolCfg { sac: false, dec, max_spread: 9000, ..PoolCfg::stable(30, 100) };
        v.push(amm(&format!("swap-sequences-decimals-{}-{}", dec.0, dec.1), T, cfg, Some((ra, rb)), ra.max(rb) * 100, (3, 4), None, move |m| {
            let mut ops = vec![];
            for (a2b, r) in [(true, m.o.ra), (false, m.o.rb)] {
                for amt in [1, 10, r / 100_000, r / 1000 + 1, r / 97, r / 7, r / 3, r - 1, r * 2] {
                    if amt > 0 {
                        ops.push(sw(U1, a2b, amt));
                    }
                }
            }
            ops.push(Op::SetFee(if m.fee == 30 { 77 } else { 30 }));
            ops
        }));
    }
    v.push(Box::new(Amm {
        label: "known-imbalanced-pool".into(),
        tags: T,
        cfg: PoolCfg { max_spread: 10_000, ..PoolCfg::stable(0, 100) },
        init: Some((1000 * T7, 100 * T7)),
        fund: 100_000 * T7,
        depth: (1, 1),
        alphabet: Box::new(|_| vec![sw(U1, true, T7), sw(U1, false, 50 * T7)]),
        profit: None,
        special: true,
    }));
    v.push(later(T));
    v
}

fn lp(t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["lp"];
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    v.push(amm("two-providers", T, PoolCfg::stable(30, 100), Some((1000 * T7, 1000 * T7)), 100_000 * T7, (4, 5), None, |m| {
        let mut v = mixed(m, 20 * T7, 20 * T7);
        v.extend([pr(U1, 1, 1), pr(U1, 2, 3), pr(U2, 101, 149), pr(U2, 2001 * T7, 3001), wd(U1, 1)]);
        v
    }));
    v.push(amm("first-deposits", T, PoolCfg::stable(30, 85), None, 2_000_000_000_000_000_000, (2, 3), None, |m| {
        let mut v = vec![];
        for x in [1, 499, 500, 501, 1000, 1001, 5000, 1_000_000, 1_000_000_000_000] {
            for y in [1, 500, 501, 1001, 4000, 777_777, 1_000_000, 1_000_000_000_000] {
                v.push(pr(U1, x, y));
            }
        }
        v.extend([Op::Donate { who: U2, a: true, amt: 10 }, Op::Donate { who: U2, a: false, amt: 1234 }]);
        let lp = m.o.lp(U1);
        if lp > 1 {
            v.extend([wd(U1, lp), wd(U1, lp - 1), wd(U1, lp / 3 + 1)]);
        }
        v
    }));
    for dec in [(6u32, 9u32), (9, 6), (3, 3)] {
        let cfg = PoolCfg { sac: false, dec, ..PoolCfg::stable(30, 40) };
        let (ua, ub) = (10i128.pow(dec.0), 10i128.pow(dec.1));
        v.push(amm(&format!("first-deposits-decimals-{}-{}", dec.0, dec.1), T, cfg, None, 1_000_000 * ua.max(ub), (2, 3), None, move |m| {
            let mut v = vec![pr(U1, ua, ub), pr(U2, 100 * ua, 100 * ub), pr(U1, 30 * ua, 20 * ub), pr(U1, 1, 1), pr(U1, 40 * ua, 41 * ub), Op::Donate { who: U2, a: true, amt: ua }];
            let lp = m.o.lp(U1);
            if lp > 0 {
                v.extend([wd(U1, lp), wd(U1, lp / 2 + 1)]);
            }
            v
        }));
    }
    for dec in [(6u32, 9u32), (7, 3), (18, 18)] {
        let cfg = PoolCfg { sac: false, dec, ..PoolCfg::stable(30, 40) };
        let (ua, ub) = (10i128.pow(dec.0), 10i128.pow(dec.1));
        v.push(amm(&format!("deposits-decimals-{}-{}", dec.0, dec.1), T, cfg, Some((1000 * ua, 1000 * ub)), 1_000_000 * ua.max(ub), (2, 3), None, move |m| {
            let mut v = vec![pr(U1, ua, ub), pr(U1, 100 * ua, 100 * ub), pr(U1, 3 * ua, 2 * ub), pr(U1, ua, 1), pr(U1, 1, ub), pr(U2, 5000 * ua, 5000 * ub), sw(U2, true, 50 * ua), sw(U2, false, 50 * ub)];
            let lp = m.o.lp(U1);
            if lp > 0 {
                v.extend([wd(U1, lp), wd(U1, lp / 2 + 1), wd(U1, 1), wd(U1, 777)]);
            }
            v
        }));
    }
    // every small deposit and every number of shares
    let top = if t == Tier::Quick { 50 } else { 200 };
    v.push(amm("every-small-deposit", T, PoolCfg { def_slip: 5000, ..PoolCfg::stable(0, 100) }, Some((13_010, 13_010)), 100_000, (1, 1), None, move |_| {
        let mut v = vec![];
        for x in 1..=top {
            for y in 1..=top {
                v.push(pr(U1, x, y));
            }
        }
        v
    }));
    v.push(amm("every-small-withdrawal", T, PoolCfg::stable(0, 100), None, 100_000, (2, 2), None, |m| {
        if m.o.s == 0 {
            vec![pr(U1, 1301, 1977), pr(U1, 3000, 1211), pr(U1, 3000, 3000)]
        } else {
            (1..=m.o.lp(U1)).map(|s| wd(U1, s)).collect()
        }
    }));
    v.push(Box::new(Amm {
        label: "known-imbalanced-deposit".into(),
        tags: T,
        cfg: PoolCfg::stable(0, 100),
        init: Some((1000 * T7, 1000 * T7)),
        fund: 100_000 * T7,
        depth: (1, 1),
        alphabet: Box::new(|_| vec![pr(U1, 1000 * T7, 1), pr(U1, 5000 * T7, T7)]),
        profit: None,
        special: true,
    }));
    v.push(later(T));
    v
}

fn limits(t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["limits"];
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let bounded_swaps = |m: &M, thorough: bool| -> Vec<Op> {
        let mut v = vec![];
        let r = m.o.ra;
        let amts = if thorough { vec![r / 500, r / 50, r / 9, r / 4, r / 2, r, 2 * r] } else { vec![r / 50, r / 2, r, 2 * r] };
        for a2b in [true, false] {
            for &amt in &amts {
                for min in [None, Some(Bound::Quote(-1)), Some(Bound::Quote(0)), Some(Bound::Quote(1)), Some(Bound::Abs(0)), Some(Bound::Abs(-5))] {
                    for spread in [None, Some(0), Some(1), Some(20), Some(200), Some(2500), Some(5000), Some(5001), Some(-1)] {
                        for dl in [None, Some(-1), Some(0), Some(1), Some(i64::MIN), Some(i64::MAX)] {
                            for fee in [None, Some(0), Some(29), Some(30), Some(31), Some(10_000)] {
                                if !thorough && (dl.is_some() as u8 + fee.is_some() as u8 + (min.is_some() as u8) + spread.is_some() as u8) > 2 {
                                    continue;
                                }
                                v.push(Op::Swap { who: U1, a2b, amt, min, spread, dl, fee });
                            }
                        }
                    }
                }
            }
        }
        v.push(sw(U1, true, i128::MAX / 4));
        v.push(Op::WrongAsset { who: U1 });
        v.push(sw(U1, true, -3));
        v
    };
    let th = t == Tier::Thorough;
    v.push(amm("swap-bounds", T, PoolCfg::stable(30, 20), Some((1000 * T7, 1000 * T7)), 100_000 * T7, (1, 1), None, move |m| bounded_swaps(m, th)));
    let cfg = PoolCfg { sac: false, dec: (6, 9), ..PoolCfg::stable(30, 5) };
    v.push(amm("swap-bounds-decimals-6-9", T, cfg, Some((1_000_000_000, 1_000_000_000_000)), 1_000_000_000_000_000, (1, 1), None, move |m| bounded_swaps(m, false)));
    v.push(amm("swap-bounds-after-swap", T, PoolCfg::stable(30, 20), Some((1000 * T7, 1000 * T7)), 100_000 * T7, (2, 2), None, move |m| {
        if m.n == 0 {
            vec![sw(U2, true, 300 * T7 + 1), sw(U2, false, 777), Op::Donate { who: U2, a: true, amt: m.o.ra / 3 }, Op::Donate { who: U2, a: false, amt: m.o.rb / 2 }]
        } else {
            bounded_swaps(m, false)
        }
    }));
    v.push(amm("deposit-bounds", T, PoolCfg::stable(30, 100), Some((1000 * T7, 1000 * T7)), 100_000 * T7, (1, 1), None, |_| {
        let mut v = vec![];
        for (da, db) in [(1000, 1500), (T7, T7), (10 * T7, 11 * T7), (5 * T7, 1), (1, 1), (3000 * T7, 3000 * T7), (0, 10), (10, 0), (-1, 10), (10, -1), (1_000_000 * T7, 10)] {
            for min_shares in [None, Some(Bound::Quote(0)), Some(Bound::Quote(-1)), Some(Bound::Quote(1)), Some(Bound::Abs(0))] {
                for slip in [None, Some(0), Some(1000), Some(5000), Some(5001), Some(10_000), Some(10_001), Some(i64::MAX), Some(-1), Some(i64::MIN)] {
                    for dl in [None, Some(-1), Some(0), Some(1)] {
                        v.push(Op::Provide { who: U1, da, db, min_a: None, min_b: None, slip, dl, min_shares });
                    }
                }
            }
        }
        v
    }));
    for (def_slip, max_slip) in [(1000, 999), (2500, 1000), (2500, 10_000), (0, 0)] {
        v.push(amm(&format!("deposit-bounds-default-{def_slip}-of-{max_slip}"), T, PoolCfg { def_slip, max_slip, ..PoolCfg::stable(30, 100) }, Some((1000 * T7, 1000 * T7)), 100_000 * T7, (1, 1), None, move |_| {
            let mut v = vec![];
            for (da, db) in [(T7, T7), (10 * T7, 11 * T7), (5 * T7, 1)] {
                for slip in [None, Some(0), Some(max_slip), Some(max_slip + 1), Some(def_slip), Some(10_000), Some(10_001), Some(-1)] {
                    v.push(Op::Provide { who: U1, da, db, min_a: None, min_b: None, slip, dl: None, min_shares: None });
                }
            }
            v
        }));
    }
    v.push(amm("first-deposit-bounds", T, PoolCfg::stable(30, 100), None, 100_000 * T7, (2, 2), None, |m| {
        let mut v = vec![];
        if m.n == 0 {
            v.push(Op::Donate { who: U2, a: true, amt: 5 * T7 });
        }
        for (da, db) in [(T7, T7), (10 * T7, 11 * T7), (501, 500), (3000 * T7, 1000 * T7), (0, 10), (10, 0), (-1, 10)] {
            for min_shares in [None, Some(Bound::Quote(0)), Some(Bound::Quote(-1)), Some(Bound::Quote(1)), Some(Bound::Quote(500)), Some(Bound::Quote(1001)), Some(Bound::Abs(0))] {
                for (slip, dl) in [(None, None), (Some(0), None), (Some(5000), None), (Some(5001), None), (None, Some(-1)), (None, Some(0)), (Some(1), Some(-1))] {
                    v.push(Op::Provide { who: U1, da, db, min_a: None, min_b: None, slip, dl, min_shares });
                }
            }
        }
        v
    }));
    for (x, y, swap) in [(1000 * T7, 1000 * T7, ""), (1100 * T7, 900 * T7, "-more-a"), (900 * T7, 1100 * T7, "-more-b")] {
    v.push(amm(&format!("withdrawal-bounds{swap}"), T, PoolCfg::stable(30, 100), Some((x, y)), 100_000 * T7, (2, 2), None, move |m| {
        if m.n == 0 {
            return vec![pr(U1, 20 * T7, 30 * T7), pr(U1, 333, 500)];
        }
        let lp = m.o.lp(U1);
        let mut v = vec![];
        for s in [lp, lp / 2, lp / 7 + 1, 1, 0, -1, lp + 1] {
            for ma in [Bound::Abs(1), Bound::Quote(0), Bound::Quote(1), Bound::Quote(-1), Bound::Abs(0), Bound::Abs(-3)] {
                for mb in [Bound::Abs(1), Bound::Quote(0), Bound::Quote(1), Bound::Quote(-1)] {
                    for dl in [None, Some(-1), Some(0), Some(i64::MIN)] {
                        v.push(Op::Withdraw { who: U1, shares: s, min_a: ma, min_b: mb, dl });
                    }
                }
            }
            // the same number for both tokens, around what either of them brings
            for due in [m.o.ra, m.o.rb].map(|r| r.checked_mul(s).map_or(0, |x| x / m.o.s)) {
                for x in [due - 1, due, due + 1] {
                    v.push(Op::Withdraw { who: U1, shares: s, min_a: Bound::Abs(x), min_b: Bound::Abs(x), dl: None });
                }
            }
        }
        v
    }));
    }
    v.push(later(T));
    v
}

fn quotes(t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["quote"];
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let top: i128 = if t == Tier::Quick { 300 } else { 1500 };
    for (dec, x, y, fee, amp) in [((7u32, 7u32), 1000 * T7, 1000 * T7, 30, 100), ((7, 7), 100_000, 100_000, 0, 6), ((6, 8), 1_000_000_000, 100_000_000_000, 100, 50)] {
        let cfg = PoolCfg { max_spread: 10_000, sac: dec == (7, 7), dec, ..PoolCfg::stable(fee, amp) };
        v.push(amm(&format!("every-amount-{x}-{y}"), T, cfg, Some((x, y)), 1_000_000_000_000, (1, 1), None, move |m| {
            let mut v: Vec<Op> = (1..=top).flat_map(|k| [sw(U1, true, k), sw(U1, false, k)]).collect();
            for k in 1..top {
                v.push(sw(U1, true, m.o.ra * k / top));
                v.push(sw(U1, false, m.o.rb * k / top));
                v.push(Op::Reverse { ask_b: true, amt: k });
                v.push(Op::Reverse { ask_b: false, amt: k });
                v.push(Op::Reverse { ask_b: true, amt: m.o.rb * k / top / 3 + 1 });
                v.push(Op::Reverse { ask_b: false, amt: m.o.ra * k / top / 3 + 1 });
                v.push(Op::ShareQuote { amt: m.o.s * k / top });
            }
            for (ask_b, r) in [(true, m.o.rb), (false, m.o.ra)] {
                // up to all there is, and beyond
                v.extend((1..=60).map(|k| r * k / 60).chain(r - 30..r + 30).chain([2 * r, 3 * r + 1, 10 * r]).map(|amt| Op::Reverse { ask_b, amt }));
            }
            v
        }));
    }
    for (dec, x, y) in [((7u32, 7u32), 1000 * T7, 1000 * T7), ((6, 9), 5_000_000_000, 5_000_000_000_000)] {
        let cfg = PoolCfg { sac: dec == (7, 7), dec, ..PoolCfg::stable(30, 100) };
        v.push(amm(&format!("sequences-{x}-{y}"), T, cfg, Some((x, y)), 1_000_000_000_000_000, (4, 5), None, move |m| {
            let mut v = vec![];
            for (a2b, r) in [(true, m.o.ra), (false, m.o.rb)] {
                for amt in [1, r / 100 + 1, r / 9] {
                    v.push(sw(U1, a2b, amt));
                }
                for amt in [1, r / 100 + 1, r / 9, r / 3, r, 3 * r] {
                    v.push(Op::Reverse { ask_b: !a2b, amt });
                }
            }
            v.push(pr(U1, m.o.ra / 7 + 1, m.o.rb / 7 + 2));
            let lp = m.o.lp(U1);
            v.push(Op::ShareQuote { amt: m.o.s / 3 });
            if lp > 0 {
                v.push(wd(U1, lp));
                v.push(wd(U1, lp / 3 + 1));
            }
            v.push(Op::SetFee(if m.fee == 30 { 1000 } else { 30 }));
            v.push(Op::Donate { who: U2, a: true, amt: m.o.ra / 5 + 1 });
            v.push(Op::Donate { who: U2, a: false, amt: m.o.rb / 3 + 1 });
            v
        }));
    }
    v.push(later(T));
    v
}

/// Pauses, and everything that can be done after them.
fn later(tags: &'static [&'static str]) -> Box<dyn Scenario> {
    const T7: i128 = 10_000_000;
    amm("after-a-while", tags, PoolCfg { max_spread: 10_000, ..PoolCfg::stable(30, 60) }, Some((1000 * T7, 1000 * T7)), 100_000 * T7, (2, 3), None, move |m| {
        let mut v = vec![];
        if m.n < 2 {
            v.extend([1, 3_600, 10 * DAY, 2_000 * DAY].map(Op::Wait));
        }
        for (a2b, r) in [(true, m.o.ra), (false, m.o.rb)] {
            for amt in [1, r / 1_000, r / 7, r / 2, r] {
                v.push(sw(U1, a2b, amt));
                v.push(Op::Reverse { ask_b: a2b, amt: amt / 3 + 1 });
            }
        }
        v.push(pr(U1, 20 * T7, 20 * T7));
        v.push(pr(U1, 30 * T7, 29 * T7));
        v.push(Op::ShareQuote { amt: m.o.s / 3 });
        let lp = m.o.lp(U1);
        if lp > 1 {
            v.extend([wd(U1, lp), wd(U1, lp / 2 + 1)]);
        }
        v
    })
}
