//! P25. State: a number; operations: everything the library can do with it, with every operand of the alphabet.
use crate::core::*;
use num_bigint::BigInt;
use phoenix::utils::{convert_i128_to_u128, convert_u128_to_i128, is_approx_ratio};
use serde_json::{json, Value};
use soroban_decimal::Decimal;
use soroban_sdk::Env;
use std::collections::HashSet;
use std::str::FromStr;

const ONE: i128 = 1_000_000_000_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Two {
    Add,
    Sub,
    Mul,
    Div,
    TimesInt,
    IntTimes,
    OverInt,
    Ratio,
    AbsDiff,
}
const TWO: [Two; 9] = [Two::Add, Two::Sub, Two::Mul, Two::Div, Two::TimesInt, Two::IntTimes, Two::OverInt, Two::Ratio, Two::AbsDiff];

/// The exact result as a fraction, and the intermediate products of its computation.
fn exact(o: Two, a: i128, b: i128) -> Option<(BigInt, BigInt, Vec<BigInt>)> {
    let (x, y, one) = (big(a), big(b), big(ONE));
    Some(match o {
        Two::Add => (&x + &y, big(1), vec![]),
        Two::Sub => (&x - &y, big(1), vec![]),
        Two::AbsDiff => (if x > y { &x - &y } else { &y - &x }, big(1), vec![]),
        Two::Mul | Two::TimesInt | Two::IntTimes => (&x * &y, one, vec![&x * &y]),
        Two::Div | Two::Ratio => {
            if b == 0 {
                return None;
            }
            (&x * &one, y, vec![&x * &one])
        }
        Two::OverInt => {
            if b == 0 {
                return None;
            }
            (x, y, vec![])
        }
    })
}

fn run(o: Two, a: i128, b: i128) -> Option<i128> {
    attempt(|| {
        let (x, y) = (Decimal::new(a), Decimal::new(b));
        match o {
            Two::Add => (x + y).atomics(),
            Two::Sub => (x - y).atomics(),
            Two::Mul => (x * y).atomics(),
            Two::Div => (x / y).atomics(),
            Two::TimesInt => x * b,
            Two::IntTimes => a * y,
            Two::OverInt => (x / b).atomics(),
            Two::Ratio => Decimal::from_ratio(a, b).atomics(),
            Two::AbsDiff => x.abs_diff(y).atomics(),
        }
    })
}

fn found(key: String, msg: String, case: Value) -> Option<Found> {
    Some(Found { key, msg, case })
}

/// The exact quotient rounded toward zero, or a refusal where it (or a product on the way) does not fit.
fn judge(name: String, got: Option<i128>, want: Option<(BigInt, BigInt, Vec<BigInt>)>, case: impl Fn() -> Value, d: &mut Done) {
    d.transitions += 1;
    match (got, want) {
        (None, None) => d.outcome("impossible, refused"),
        (Some(v), None) => d.find(found(format!("{name}-not-refused"), format!("{}: gives {v}", case()), case())),
        (got, Some((n, q, mid))) => {
            let t = n / q;
            match got {
                Some(v) if big(v) == t => d.outcome("exact up to truncation"),
                Some(v) => d.find(found(format!("{name}-wrong"), format!("{}: gives {v}, exactly {t}", case()), case())),
                None if fits_i128(&t) && mid.iter().all(fits_i128) => d.find(found(format!("{name}-refused"), format!("{}: refused, exactly {t}", case()), case())),
                None => d.outcome("does not fit, refused"),
            }
        }
    }
}

fn two(o: Two, a: i128, b: i128, d: &mut Done) -> Option<i128> {
    let g = run(o, a, b);
    judge(format!("{o:?}"), g, exact(o, a, b), || json!({"op": format!("{o:?}"), "a": a.to_string(), "b": b.to_string()}), d);
    g
}

fn case1(op: &str, a: i128, n: i64) -> Value {
    json!({"op": op, "a": a.to_string(), "n": n})
}

fn pow10(n: u32) -> BigInt {
    big(10).pow(n)
}

/// Everything that takes one number (and possibly a small parameter).
fn one(env: &Env, a: i128, d: &mut Done) {
    let x = Decimal::new(a);
    judge("abs".into(), attempt(|| x.abs().atomics()), Some((if a < 0 { -big(a) } else { big(a) }, big(1), vec![])), || case1("one", a, 0), d);
    let inv = attempt(|| x.inv().map(|v| v.atomics()));
    match inv {
        None => d.find(found("inv-panics".into(), format!("inverse of {a}"), case1("one", a, 0))),
        Some(v) => judge("inv".into(), v, if a == 0 { None } else { Some((big(ONE) * big(ONE), big(a), vec![])) }, || case1("one", a, 0), d),
    }
    for p in -25..=60i32 {
        let want = if p <= 18 { (big(a) * pow10((18 - p) as u32), big(1)) } else { (big(a), pow10((p - 18) as u32)) };
        let f = pow10((18 - p).unsigned_abs());
        judge("from_atomics".into(), attempt(|| Decimal::from_atomics(a, p).atomics()), Some((want.0, want.1, vec![f])), || case1("one", a, p as i64), d);
    }
    for p in -25..=25i32 {
        let want = if p <= 18 { (big(a), pow10((18 - p) as u32)) } else { (big(a) * pow10((p - 18) as u32), big(1)) };
        // more places than the type has are refused
        let f = if p <= 18 { pow10((18 - p) as u32) } else { pow10(99) };
        judge("to_i128_with_precision".into(), attempt(|| x.to_i128_with_precision(p)), Some((want.0, want.1, vec![f])), || case1("one", a, p as i64), d);
    }
    d.transitions += 2;
    if x.is_zero() != (a == 0) || x.atomics() != a || Decimal::raw(a) != x || x.decimal_places() != 18 {
        d.find(found("parts".into(), format!("{a}: zero {}, atomics {}", x.is_zero(), x.atomics()), case1("one", a, 0)));
    }
    {
        // printed exactly, without needless zeros, and read back
        let sign = if a < 0 { "-" } else { "" };
        let s = format!("{:019}", a.unsigned_abs());
        let (whole, frac) = s.split_at(s.len() - 18);
        let f = frac.trim_end_matches('0');
        let whole = format!("{sign}{whole}");
        let want = if f.is_empty() { whole.clone() } else { format!("{whole}.{f}") };
        let got = attempt(|| format!("{x}"));
        let host = attempt(|| {
            let s = x.to_string(env);
            let mut b = vec![0u8; s.len() as usize];
            s.copy_into_slice(&mut b);
            String::from_utf8(b).unwrap()
        });
        if got.as_ref() != Some(&want) || host.as_ref() != Some(&want) {
            d.find(found("printing".into(), format!("{a} prints as {got:?} and {host:?}, exactly {want}"), case1("one", a, 0)));
        }
        let full = format!("{whole}.{frac}");
        for t in [&want, &full] {
            d.transitions += 1;
            let back = attempt(|| Decimal::from_str(t).map(|x| x.atomics()));
            if back != Some(Ok(a)) {
                d.find(found("parsing".into(), format!("{t} is read as {back:?}"), case1("one", a, 0)));
            }
        }
        for t in [format!("{full}0"), format!("{want}.1.1"), format!("{whole}.{frac}.0"), format!("{whole}."), format!("x{want}"), format!(".{frac}")] {
            d.transitions += 1;
            if let Some(Ok(v)) = attempt(|| Decimal::from_str(&t)) {
                // a value nevertheless given must be the one written
                let ok = t == format!("{full}0") && v.atomics() == a || t == format!("{whole}.") && v.atomics() == a - a % ONE || t == format!(".{frac}") && v.atomics() == a % ONE;
                if !ok {
                    d.find(found("parsing-nonsense".into(), format!("{t} is read as {v:?}"), case1("one", a, 0)));
                }
            }
        }
        d.outcome("printed and read back");
    }
    for n in 0..=10u32 {
        power(a, n, d);
    }
    for n in [15, 16, 17, 31, 32, 33, 63, 64, 127] {
        power(a, n, d);
    }
    // conversions of the shared helpers
    judge("convert_i128_to_u128".into(), attempt(|| convert_i128_to_u128(a)).map(|v| i128::try_from(v).unwrap_or(-1)), if a < 0 { None } else { Some((big(a), big(1), vec![])) }, || case1("one", a, 0), d);
    for u in [a as u128, (a as u128).wrapping_add(1 << 127)] {
        judge("convert_u128_to_i128".into(), attempt(|| convert_u128_to_i128(u)), if u > i128::MAX as u128 { None } else { Some((big(u), big(1), vec![])) }, || case1("one", a, 0), d);
    }
    for v in [Some(a), None] {
        d.transitions += 1;
        let fine = v.map_or(true, |v| v > 0);
        let both = |x: Option<i128>, y: Option<i128>| attempt(|| phoenix::validate_int_parameters!(x, y)).is_some();
        let three = |x: Option<i128>| attempt(|| phoenix::validate_int_parameters!(5i128, x, Some(7i128))).is_some();
        let alone = attempt(|| phoenix::validate_int_parameters!(v)).is_some();
        if alone != fine || both(v, Some(1)) != fine || both(Some(1), v) != fine || both(v, None) != fine || both(None, v) != fine || three(v) != fine {
            d.find(found("validate_int_parameters".into(), format!("{v:?} among parameters that have to be positive"), case1("one", a, 0)));
        }
    }
    if let Ok(b) = i64::try_from(a) {
        for (name, f, unit) in [("percent", Decimal::percent as fn(i64) -> Decimal, ONE / 100), ("permille", Decimal::permille, ONE / 1000), ("bps", Decimal::bps, ONE / 10000)] {
            judge(name.into(), attempt(|| f(b).atomics()), Some((big(b) * big(unit), big(1), vec![])), || case1("one", a, 0), d);
        }
        d.transitions += 1;
        let fine = (0..=10000).contains(&b);
        let alone = |b: i64| attempt(|| { phoenix::validate_bps!(b); }).is_some();
        let both = |b: i64, c: i64| attempt(|| { phoenix::validate_bps!(b, c); }).is_some();
        if alone(b) != fine || both(b, 0) != fine || both(10000, b) != fine {
            d.find(found("validate_bps".into(), format!("{b} as basis points"), case1("one", a, 0)));
        }
    }
}

fn power(a: i128, n: u32, d: &mut Done) {
    d.transitions += 1;
    let got = attempt(|| Decimal::new(a).pow(n).atomics());
    let case = || json!({"op": "pow", "a": a.to_string(), "n": n});
    let s = big(ONE);
    let m = if a < 0 { -big(a) } else { big(a) };
    // |a|^n as a fraction over ONE^n; the result in the last digit's units, rounded down
    let exact = if n == 0 { s.clone() } else { m.pow(n) / s.pow(n - 1) };
    let neg = a < 0 && n % 2 == 1;
    match got {
        None => {
            // a product on the way may be as large as the result's, or (for less than one) at most 1
            let needed = if m >= s { &exact * &s + &s * &s } else { &s * &s };
            if needed < big(i128::MAX) {
                d.find(found("pow-refused".into(), format!("{a} to the power of {n}: refused, exactly {exact}"), case()));
            }
            d.outcome("power does not fit, refused");
        }
        Some(v) => {
            let v = if neg { -big(v) } else { big(v) };
            // every multiplication loses less than one last digit, multiplied by what is still to come
            let grow = if m > s && n > 1 { m.pow(n - 1) / s.pow(n - 1) + 1 } else { big(1) };
            let least = &exact - grow * big(n);
            let integer = &m % &s == big(0);
            if v > exact || v < least || (integer || n <= 1) && v != exact {
                d.find(found("pow-wrong".into(), format!("{a} to the power of {n}: {v}, exactly {exact}"), case()));
            }
            d.outcome("power right");
        }
    }
}

fn order(a: i128, b: i128, d: &mut Done) {
    d.transitions += 1;
    let (x, y) = (Decimal::new(a), Decimal::new(b));
    if (x < y) != (a < b) || (x <= y) != (a <= b) || (x == y) != (a == b) || (x > y) != (a > b) || (x >= y) != (a >= b) || x.partial_cmp(&y) != Some(a.cmp(&b)) {
        d.find(found("order".into(), format!("{a} and {b}"), json!({"op": "order", "a": a.to_string(), "b": b.to_string()})));
    }
    let diff = if a > b { big(a) - big(b) } else { big(b) - big(a) };
    for t in [0, 1, ONE / 100, ONE, i128::MAX] {
        d.transitions += 1;
        match attempt(|| is_approx_ratio(x, y, Decimal::new(t))) {
            None if fits_i128(&diff) => d.find(found("is_approx_ratio-refused".into(), format!("{a}, {b}, {t}"), json!({"op": "order", "a": a.to_string(), "b": b.to_string()}))),
            Some(r) if r != (diff <= big(t)) => d.find(found("is_approx_ratio".into(), format!("{a}, {b}, {t}: {r}"), json!({"op": "order", "a": a.to_string(), "b": b.to_string()}))),
            _ => {}
        }
    }
}

fn values(wide: bool) -> Vec<i128> {
    let mut v: Vec<i128> = vec![0, 1, 2, 3, 7, 99, 9999, 10000, 10001, i128::MAX, i128::MAX - 1, i128::MIN, i128::MIN + 1, i64::MAX as i128, i64::MAX as i128 + 1];
    let root = 13_043_817_825_332_782_212i128; // of 2^127
    v.extend([root, root + 1, i128::MAX / ONE, i128::MAX / ONE + 1, 3 * ONE, ONE * 3 / 2, ONE / 3, ONE * 2 / 3, 12 * ONE, 123 * ONE / 100, 130 * ONE / 10, 997 * ONE / 1000]);
    for k in 0..=38u32 {
        let p = 10i128.pow(k);
        if wide || k % 2 == 0 || (15..=20).contains(&k) {
            v.extend([p, p - 1, p + 1]);
            if wide && k < 38 {
                v.extend([p * 5, p * 7 / 3]);
            }
        }
    }
    for k in 0..127u32 {
        if wide || k % 16 == 15 || (62..=65).contains(&k) {
            v.extend([1i128 << k, (1i128 << k) - 1]);
        }
    }
    let n: Vec<i128> = v.iter().filter_map(|x| x.checked_neg()).collect();
    v.extend(n);
    v.sort();
    v.dedup();
    v
}

/// The operands of longer calculations: small and unit values, fees, a third, the limits.
fn few() -> Vec<i128> {
    vec![0, 1, -1, 3, 10000, ONE, -ONE, ONE / 3, ONE * 3 / 2, ONE * 30 / 10000, 1_000_000_007, i128::MAX, i128::MIN]
}

struct Grid;

impl Part for Grid {
    fn name(&self) -> String {
        "numbers".into()
    }
    fn explore(&self, thorough: bool) -> Done {
        // The grid with every operand of the grid; then what a few operands (quick: fewer) lead to
        // from there, with those operands again.
        let few = few();
        let more = if thorough { values(false) } else { few.clone() };
        let mut layer = values(true);
        let mut seen: HashSet<i128> = layer.iter().cloned().collect();
        let mut total = Done::default();
        let depth = if thorough { 3 } else { 2 };
        for k in 1..=depth {
            let ops = if k == 1 { values(true) } else if k == 2 { more.clone() } else { few.clone() };
            let res = std::sync::Mutex::new(vec![]);
            let d = each(&layer, Env::default, |env, a| {
                let mut d = Done { states: 1, ..Done::default() };
                one(env, *a, &mut d);
                let mut out = vec![];
                for b in &ops {
                    for o in TWO {
                        let r = two(o, *a, *b, &mut d);
                        if k < depth && few.contains(b) {
                            out.extend(r);
                        }
                    }
                    order(*a, *b, &mut d);
                }
                d.sample(1, || case1("one", *a, 0));
                d.sample(2, || json!({"op": "Mul", "a": a.to_string(), "b": ops[7].to_string()}));
                if k < depth {
                    out.sort();
                    out.dedup();
                    res.lock().unwrap().extend(out);
                }
                d
            });
            total.add(d);
            total.depth = k;
            let mut n = res.into_inner().unwrap();
            n.sort();
            n.dedup();
            layer = n.into_iter().filter(|x| seen.insert(*x)).collect();
        }
        total
    }
    fn case(&self, c: &Value) -> Option<Found> {
        let mut d = Done::default();
        let a: i128 = c["a"].as_str().unwrap().parse().unwrap();
        let b: i128 = c["b"].as_str().map_or(0, |s| s.parse().unwrap());
        match c["op"].as_str().unwrap() {
            "one" => one(&Env::default(), a, &mut d),
            "order" => order(a, b, &mut d),
            "pow" => power(a, c["n"].as_u64().unwrap() as u32, &mut d),
            o => {
                two(*TWO.iter().find(|t| format!("{t:?}") == o).unwrap(), a, b, &mut d);
            }
        }
        d.found.into_iter().next()
    }
}

pub fn parts() -> Vec<Box<dyn Part>> {
    vec![Box::new(Grid)]
}
