//! Properties of the constant product pool.
use super::amm::*;
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "P02", scenarios: custody, assumptions: host_assumptions },
        Property { id: "P03", scenarios: price, assumptions: host_assumptions },
        Property { id: "P04", scenarios: lp, assumptions: host_assumptions },
        Property { id: "P05", scenarios: limits, assumptions: host_assumptions },
        Property { id: "P06", scenarios: quotes, assumptions: host_assumptions },
    ]
}

#[allow(clippy::too_many_arguments)]
fn amm(label: &str, tags: &'static [&'static str], cfg: PoolCfg, init: Option<(i128, i128)>, fund: i128, depth: (usize, usize), profit: Option<u8>, f: impl Fn(&M) -> Vec<Op> + Sync + Send + 'static) -> Box<dyn Scenario> {
    Box::new(Amm { label: label.into(), tags, cfg, init, fund, depth, alphabet: Box::new(f), profit, special: false })
}

/// everything that moves tokens, both users
fn mixed(m: &M, unit: i128) -> Vec<Op> {
    let mut v = vec![];
    for who in [U1, U2] {
        v.push(sw(who, true, unit));
        v.push(sw(who, false, unit * 3 + 1));
        v.push(pr(who, unit * 2, unit * 3));
        let lp = m.o.lp(who);
        if lp > 0 {
            v.push(wd(who, lp));
            v.push(wd(who, lp / 2 + 1));
        }
    }
    v.push(sw(U1, true, 1));
    v.push(sw(FEE, true, unit));
    v.push(sw(FEE, false, unit * 3));
    v.push(sw(U1, false, unit * 40));
    v.push(pr(U1, unit * 3, unit * 2));
    v.push(wd(U2, m.o.lp(U2) + 1));
    v.push(Op::Donate { who: U2, a: true, amt: unit / 3 + 1 });
    v.push(Op::Donate { who: U2, a: false, amt: unit / 7 + 1 });
    v.push(Op::MoveLp { from: U1, to: U2, amt: m.o.lp(U1) / 2 + 1 });
    if m.o.lp(U1) > 9 && m.burned == 0 {
        v.push(Op::BurnLp { who: U1, amt: m.o.lp(U1) / 3 });
        v.push(Op::MoveLp { from: U1, to: POOL, amt: m.o.lp(U1) / 5 + 1 });
    }
    v.push(Op::SetFee(if m.fee == 30 { 0 } else { 30 }));
    v.push(Op::SetFee(1000));
    v.push(Op::Bond { who: U1, amt: (m.o.lp(U1) / 2).max(10) });
    v.push(Op::WrongAsset { who: U1 });
    v.push(sw(U1, true, 0));
    v.push(pr(U2, 0, 5));
    v
}

fn custody(_t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["custody"];
    let mut v = vec![
        amm("small-pool", T, PoolCfg::xyk(30), Some((2000, 3000)), 100_000, (4, 5), None, |m| mixed(m, 100)),
        amm("from-empty", T, PoolCfg::xyk(100), None, 1_000_000, (4, 6), None, |m| mixed(m, 1009)),
        amm("large-pool", T, PoolCfg::xyk(30), Some((5_000_000_000_000, 70_000_000_000)), 100_000_000_000_000, (3, 4), None, |m| mixed(m, 1_000_000_007)),
    ];
    let wasm = PoolCfg { sac: false, dec: (6, 9), ..PoolCfg::xyk(30) };
    v.push(amm("wasm-tokens", T, wasm, Some((50_000, 4000)), 1_000_000, (3, 4), None, |m| mixed(m, 777)));
    v.push(later(T));
    v.extend(super::taxed::scenarios(false));
    v
}

fn price(t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["price"];
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    // every small offer in both directions
    let top = if t == Tier::Quick { 700 } else { 4000 };
    for (x, y) in [(1100, 1003), (31, 40_000), (40_000, 31), (1_000_003, 2)] {
        for fee in if t == Tier::Quick { vec![0, 30] } else { vec![0, 1, 30, 333, 9999, 10_000] } {
            v.push(amm(&format!("every-offer-{x}-{y}-fee{fee}"), T, PoolCfg { max_spread: 10_000, ..PoolCfg::xyk(fee) }, Some((x, y)), 100_000_000, (1, 1), None, move |_| {
                (1..=top).flat_map(|k| [sw(U1, true, k), sw(U1, false, k)]).collect()
            }));
        }
    }
    // sequences of swaps, which leave reserves of all sorts
    let sizes: &'static [(i128, i128)] = &[(1009, 1013), (7_000_001, 1_900), (5_000_000_000_000, 70_000_000_001), (1_000_000_000_000_000_000, 999_999_999_999_999_989)];
    for &(x, y) in sizes {
        v.push(amm(&format!("swap-sequences-{x}-{y}"), T, PoolCfg::xyk(30), Some((x, y)), 4_000_000_000_000_000_000_000, (if x < 1_000_000_000_000 { 4 } else { 3 }, 5), None, move |m| {
            let (x, y) = (m.o.ra, m.o.rb);
            let mut ops = vec![];
            for (a2b, r) in [(true, x), (false, y)] {
                for amt in [1, 2, 3, r / 1000, r / 1000 + 1, r / 97, r / 7, r / 3, r / 2, r - 1, r, r + 1] {
                    if amt > 0 {
                        ops.push(sw(U1, a2b, amt));
                    }
                }
            }
            ops.push(Op::SetFee(if m.fee == 30 { 77 } else { 30 }));
            ops
        }));
    }
    v.push(later(T));
    v
}

fn lp(t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["lp"];
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let alone = |m: &M, u: i128| -> Vec<Op> {
        let mut v = vec![sw(U1, true, u), sw(U1, false, u), sw(U1, true, 1), sw(U1, false, 1), pr(U1, u, u), pr(U1, 2 * u, u), pr(U1, u, 2 * u), pr(U1, 7, 5), Op::Donate { who: U1, a: true, amt: u / 2 }, Op::Donate { who: U1, a: false, amt: 3 }];
        let lp = m.o.lp(U1);
        if lp > 0 {
            v.push(wd(U1, lp));
            v.push(wd(U1, lp / 2 + 1));
            v.push(wd(U1, 1));
            v.push(wd(U1, 2));
        }
        v.push(sw(U1, true, m.o.ra / 2));
        v.push(sw(U1, false, m.o.rb / 2));
        v
    };
    for (fee, x, y, u) in [(0, 1200, 1100, 150), (30, 100_000, 37, 1000), (0, 3, 1_000_000, 900), (30, 1_000_000_000_007, 999_000_000_001, 123_456_789)] {
        v.push(amm(&format!("one-actor-{x}-{y}-fee{fee}"), T, PoolCfg { max_spread: 10_000, def_slip: 5000, ..PoolCfg::xyk(fee) }, Some((x, y)), 100_000_000_000_000, (4, 5), Some(U1), move |m| alone(m, u)));
    }
    v.push(amm("two-providers", T, PoolCfg::xyk(30), Some((2000, 3000)), 100_000, (4, 5), None, |m| {
        let mut v = mixed(m, 100);
        v.extend([pr(U1, 1, 1), pr(U1, 2, 3), pr(U2, 101, 149), pr(U2, 2001, 3001), wd(U1, 1)]);
        v
    }));
    v.push(amm("first-deposits", T, PoolCfg::xyk(30), None, 2_000_000_000_000_000_000, (2, 3), None, |m| {
        let mut v = vec![];
        for x in [1, 999, 1000, 1001, 1002, 5000, 1_000_000, 1_000_000_000_000] {
            for y in [1, 1000, 1001, 1003, 4000, 777_777, 1_000_000_000_000_000] {
                v.push(pr(U1, x, y));
            }
        }
        v.extend([Op::Donate { who: U2, a: true, amt: 10 }, Op::Donate { who: U2, a: false, amt: 1234 }]);
        let lp = m.o.lp(U1);
        if lp > 1 {
            v.extend([wd(U1, lp), wd(U1, lp - 1), wd(U1, lp / 3 + 1)]);
        }
        v
    }));
    // every small deposit and every number of shares
    let top = if t == Tier::Quick { 60 } else { 250 };
    v.push(amm("every-small-deposit", T, PoolCfg { def_slip: 5000, ..PoolCfg::xyk(0) }, Some((1301, 977)), 100_000, (1, 1), None, move |_| {
        let mut v = vec![];
        for x in 1..=top {
            for y in 1..=top {
                v.push(pr(U1, x, y));
            }
        }
        v
    }));
    v.push(amm("every-small-withdrawal", T, PoolCfg::xyk(0), None, 100_000, (2, 2), None, |m| {
        if m.o.s == 0 {
            vec![pr(U1, 1301, 1977), pr(U1, 5000, 1211), pr(U1, 3000, 3000)]
        } else {
            (1..=m.o.lp(U1)).map(|s| wd(U1, s)).collect()
        }
    }));
    v.push(later(T));
    v
}

fn limits(t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["limits"];
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let bounded_swaps = |m: &M, thorough: bool| -> Vec<Op> {
        let mut v = vec![];
        let r = m.o.ra;
        let amts = if thorough { vec![r / 500, r / 50, r / 9, r / 4, r / 2, r] } else { vec![r / 50, r / 5, r / 2, r] };
        for a2b in [true, false] {
            for &amt in &amts {
                for min in [None, Some(Bound::Quote(-1)), Some(Bound::Quote(0)), Some(Bound::Quote(1)), Some(Bound::Abs(0)), Some(Bound::Abs(-5))] {
                    for spread in [None, Some(0), Some(200), Some(2500), Some(5000), Some(5001), Some(-1)] {
                        for dl in [None, Some(-1), Some(0), Some(1), Some(i64::MIN), Some(i64::MAX)] {
                            for fee in [None, Some(0), Some(29), Some(30), Some(31), Some(10_000)] {
                                if !thorough && (dl.is_some() as u8 + fee.is_some() as u8 + (min.is_some() as u8) + spread.is_some() as u8) > 2 {
                                    continue;
                                }
                                v.push(Op::Swap { who: U1, a2b, amt, min, spread, dl, fee });
                            }
                        }
                    }
                }
            }
        }
        v.push(sw(U1, true, i128::MAX / 4));
        v.push(Op::WrongAsset { who: U1 });
        v.push(sw(U1, true, -3));
        v
    };
    let th = t == Tier::Thorough;
    v.push(amm("swap-bounds", T, PoolCfg::xyk(30), Some((100_000, 80_000)), 10_000_000, (1, 1), None, move |m| bounded_swaps(m, th)));
    v.push(amm("swap-bounds-after-swap", T, PoolCfg::xyk(30), Some((1_000_000_000, 3_000)), 10_000_000_000, (2, 2), None, move |m| {
        if m.n == 0 {
            vec![sw(U2, true, 300_000_001), sw(U2, false, 777), Op::Donate { who: U2, a: true, amt: m.o.ra / 3 }, Op::Donate { who: U2, a: false, amt: m.o.rb / 2 }]
        } else {
            bounded_swaps(m, false)
        }
    }));
    let bounded_deposits = |m: &M| -> Vec<Op> {
        let mut v = vec![];
        for (da, db) in [(1000, 1500), (1000, 1499), (1000, 1501), (1000, 1502), (1001, 1500), (1000, 1877), (1251, 1500), (1000, 1200), (1000, 1000), (1000, 1876), (1000, 3000), (5, 7), (1, 1), (50_000, 75_000)] {
            for (fa, fb) in [(None, None), (Some(da), Some(db)), (Some(da - 1), None), (None, Some(db - 1)), (Some(da / 2), Some(db / 2)), (Some(0), None), (None, Some(-1)), (Some(da + 1), None), (Some(da), Some(da)), (Some(db), Some(db)), (Some(db / 2), Some(db / 2))] {
                for slip in [None, Some(0), Some(1), Some(6), Some(7), Some(9), Some(10), Some(13), Some(14), Some(1000), Some(5000), Some(5001), Some(10_000), Some(10_001), Some(i64::MAX), Some(-1), Some(-5000)] {
                    for dl in [None, Some(-1), Some(0), Some(i64::MIN)] {
                        v.push(Op::Provide { who: U1, da, db, min_a: fa, min_b: fb, slip, dl, min_shares: None });
                    }
                }
            }
        }
        for (da, db) in [(0, 10), (10, 0), (-1, 10), (10, -1), (1_000_000_000, 10)] {
            v.push(pr(U1, da, db));
        }
        for (da, db) in [(None, None), (Some(1000), None), (None, Some(1500)), (Some(0), None), (None, Some(-5)), (Some(5_000), None), (None, Some(1))] {
            for min_a in [None, Some(1), Some(1000)] {
                v.push(Op::ProvideSome { who: U1, da, db, min_a });
            }
        }
        let _ = m;
        v
    };
    v.push(amm("deposit-bounds", T, PoolCfg::xyk(30), Some((20_000, 30_000)), 1_000_000, (1, 1), None, bounded_deposits));
    // the tolerance used when none is given is above what the pool allows; or wider, or none
    for (def_slip, max_slip) in [(1000, 999), (2500, 1000), (2500, 10_000), (0, 0)] {
        v.push(amm(&format!("deposit-bounds-default-{def_slip}-of-{max_slip}"), T, PoolCfg { def_slip, max_slip, ..PoolCfg::xyk(30) }, Some((20_000, 30_000)), 1_000_000, (1, 1), None, move |_| {
            let mut v = vec![];
            for (da, db) in [(1000, 1500), (1000, 1501), (1000, 1499), (1000, 1600), (1000, 1400), (1000, 2000), (1000, 1000)] {
                for slip in [None, Some(0), Some(max_slip), Some(max_slip + 1), Some(def_slip), Some(10_000), Some(10_001), Some(-1)] {
                    v.push(Op::Provide { who: U1, da, db, min_a: None, min_b: None, slip, dl: None, min_shares: None });
                }
            }
            v
        }));
    }
    v.push(amm("first-deposit-bounds", T, PoolCfg::xyk(30), None, 1_000_000, (2, 2), None, move |m| {
        if m.n == 0 {
            let mut v = bounded_deposits(m);
            v.push(Op::Donate { who: U2, a: true, amt: 500 });
            v
        } else if m.o.s == 0 {
            bounded_deposits(m)
        } else {
            vec![pr(U1, m.o.ra, m.o.rb), pr(U1, m.o.ra, m.o.rb * 2)]
        }
    }));
    for (x, y, swap) in [(20_000, 30_000, ""), (30_000, 20_000, "-mirrored")] {
    v.push(amm(&format!("withdrawal-bounds{swap}"), T, PoolCfg::xyk(30), Some((x, y)), 1_000_000, (2, 2), None, move |m| {
        if m.n == 0 {
            return vec![pr(U1, x / 10, y / 10), pr(U1, x / 60, y / 60)];
        }
        let lp = m.o.lp(U1);
        let mut v = vec![];
        for s in [lp, lp / 2, lp / 7 + 1, 1, 0, -1, lp + 1] {
            for ma in [Bound::Abs(1), Bound::Quote(0), Bound::Quote(1), Bound::Quote(-1), Bound::Abs(0), Bound::Abs(-3)] {
                for mb in [Bound::Abs(1), Bound::Quote(0), Bound::Quote(1), Bound::Quote(-1)] {
                    for dl in [None, Some(-1), Some(0), Some(i64::MIN)] {
                        v.push(Op::Withdraw { who: U1, shares: s, min_a: ma, min_b: mb, dl });
                    }
                }
            }
            // the same number for both tokens, around what either of them brings
            for due in [m.o.ra, m.o.rb].map(|r| r.checked_mul(s).map_or(0, |x| x / m.o.s)) {
                for x in [due - 1, due, due + 1] {
                    v.push(Op::Withdraw { who: U1, shares: s, min_a: Bound::Abs(x), min_b: Bound::Abs(x), dl: None });
                }
            }
        }
        v
    }));
    }
    v.push(later(T));
    v
}

fn quotes(t: Tier) -> Vec<Box<dyn Scenario>> {
    const T: &[&str] = &["quote"];
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let top = if t == Tier::Quick { 400 } else { 1500 };
    for (x, y, fee) in [(3001, 2003, 30), (1500, 90_000, 100), (90_000, 1500, 0)] {
        v.push(amm(&format!("every-amount-{x}-{y}"), T, PoolCfg { max_spread: 10_000, ..PoolCfg::xyk(fee) }, Some((x, y)), 10_000_000, (1, 1), None, move |m| {
            let mut v: Vec<Op> = (1..=top).flat_map(|k| [sw(U1, true, k), sw(U1, false, k)]).collect();
            v.extend((1..(m.o.rb - 1).min(top)).map(|k| Op::Reverse { ask_b: true, amt: k }));
            v.extend((1..(m.o.ra - 1).min(top)).map(|k| Op::Reverse { ask_b: false, amt: k }));
            v.extend((1..m.o.s.min(top)).map(|k| Op::ShareQuote { amt: k }));
            for (ask_b, r) in [(true, m.o.rb), (false, m.o.ra)] {
                // up to all there is, and beyond
                v.extend((1..=60).map(|k| r * k / 60).chain(r - 30..r + 30).chain([2 * r, 3 * r + 1, 10 * r, 1000 * r]).map(|amt| Op::Reverse { ask_b, amt }));
            }
            v
        }));
    }
    for (x, y) in [(2000, 3000), (5_000_000_000_000, 70_000_000_000)] {
        v.push(amm(&format!("sequences-{x}-{y}"), T, PoolCfg::xyk(30), Some((x, y)), 1_000_000_000_000_000, (4, 5), None, move |m| {
            let mut v = vec![];
            for r in [m.o.ra, m.o.rb] {
                let a2b = r == m.o.ra;
                for amt in [1, r / 100 + 1, r / 9] {
                    v.push(sw(U1, a2b, amt));
                }
                for amt in [1, r / 100 + 1, r / 9, r / 2, r, 3 * r] {
                    v.push(Op::Reverse { ask_b: !a2b, amt });
                }
            }
            v.push(pr(U1, m.o.ra / 7 + 1, m.o.rb / 7 + 2));
            let lp = m.o.lp(U1);
            v.push(Op::ShareQuote { amt: m.o.s / 3 });
            if lp > 0 {
                v.push(wd(U1, lp));
                v.push(wd(U1, lp / 3 + 1));
            }
            v.push(Op::SetFee(if m.fee == 30 { 1000 } else { 30 }));
            v.push(Op::Donate { who: U2, a: true, amt: m.o.ra / 5 + 1 });
            v.push(Op::Donate { who: U2, a: false, amt: m.o.rb / 3 + 1 });
            v
        }));
    }
    v.push(later(T));
    v
}

/// Pauses, and everything that can be done after them.
fn later(tags: &'static [&'static str]) -> Box<dyn Scenario> {
    const T7: i128 = 10_000_000;
    amm("after-a-while", tags, PoolCfg { max_spread: 10_000, ..PoolCfg::xyk(30) }, Some((1000 * T7, 1000 * T7)), 100_000 * T7, (2, 3), None, move |m| {
        let mut v = vec![];
        if m.n < 2 {
            v.extend([1, 3_600, 10 * DAY, 2_000 * DAY].map(Op::Wait));
        }
        for (a2b, r) in [(true, m.o.ra), (false, m.o.rb)] {
            for amt in [1, r / 1_000, r / 7, r / 2, r] {
                v.push(sw(U1, a2b, amt));
                v.push(Op::Reverse { ask_b: a2b, amt: amt / 3 + 1 });
            }
        }
        v.push(pr(U1, 20 * T7, 20 * T7));
        v.push(pr(U1, 30 * T7, 29 * T7));
        v.push(Op::ShareQuote { amt: m.o.s / 3 });
        let lp = m.o.lp(U1);
        if lp > 1 {
            v.extend([wd(U1, lp), wd(U1, lp / 2 + 1)]);
        }
        v
    })
}
