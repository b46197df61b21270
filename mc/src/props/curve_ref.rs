//! Exact reference arithmetic of the stable swap curve for two tokens, on integers of any size.
use num_bigint::BigInt;

pub fn pow10(n: u32) -> BigInt {
    BigInt::from(10u8).pow(n)
}
pub fn rescale(v: &BigInt, from: u32, to: u32) -> BigInt {
    if from <= to {
        v * pow10(to - from)
    } else {
        v / pow10(from - to)
    }
}

/// The largest D with f(D) <= 0, f(D) = D^3/(4ab) + (Ann - 1) D - Ann S, Ann = amp * 2, by bisection.
pub fn d_true(amp: u64, a: &BigInt, b: &BigInt) -> BigInt {
    let s = a + b;
    if *a == BigInt::from(0) || *b == BigInt::from(0) {
        return s;
    }
    let ann = BigInt::from(amp) * 2;
    let f = |d: &BigInt| d * d * d + (&ann - 1) * d * 4 * a * b - &ann * &s * 4 * a * b <= BigInt::from(0);
    let (mut lo, mut hi) = (BigInt::from(0), &s + 1);
    while &hi - &lo > BigInt::from(1) {
        let mid: BigInt = (&lo + &hi) / 2;
        if f(&mid) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo
}

/// The smallest y with which (x, y) reaches D: y^2 + (x + D/Ann - D) y >= D^3 / (4 x Ann).
pub fn y_for(amp: u64, x: &BigInt, d: &BigInt) -> BigInt {
    let ann = BigInt::from(amp) * 2;
    // multiplied by 4 x Ann
    let f = |y: &BigInt| y * y * 4 * x * &ann + (x * &ann + d - d * &ann) * y * 4 * x >= d * d * d;
    let (mut lo, mut hi) = (BigInt::from(0), d + 1);
    while !f(&hi) {
        hi = hi * 2;
    }
    while &hi - &lo > BigInt::from(1) {
        let mid: BigInt = (&lo + &hi) / 2;
        if f(&mid) {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    hi
}

fn out(amp: u64, x: i128, y: i128, amt: i128, dx: u32, dy: u32, d: Option<BigInt>) -> BigInt {
    let (bx, by) = (rescale(&BigInt::from(x), dx, 18), rescale(&BigInt::from(y), dy, 18));
    let d = d.unwrap_or_else(|| d_true(amp, &bx, &by));
    let ny = y_for(amp, &(bx + rescale(&BigInt::from(amt), dx, 18)), &d);
    let diff: BigInt = by - ny;
    // rounded down, also below zero
    let unit = pow10(18 - dy);
    if diff >= BigInt::from(0) {
        diff / unit
    } else {
        {
            let up: BigInt = -diff + &unit - 1;
            -(up / unit)
        }
    }
}

/// What a swap of `amt` brings on the true curve through the reserves, before fees, rounded down.
pub fn stable_out(amp: u64, x: i128, y: i128, amt: i128, dx: u32, dy: u32) -> BigInt {
    out(amp, x, y, amt, dx, dy, None)
}
/// The same on the curve whose D is the sum of the reserves, which is never above the true one's payout.
pub fn stable_out_sum(amp: u64, x: i128, y: i128, amt: i128, dx: u32, dy: u32) -> BigInt {
    let s = rescale(&BigInt::from(x), dx, 18) + rescale(&BigInt::from(y), dy, 18);
    out(amp, x, y, amt, dx, dy, Some(s))
}

/// The solver of the contract stops within 1e-6 of a token.
pub fn tol_i(dec: u32) -> i128 {
    if dec <= 6 {
        2
    } else {
        2 * 10i128.pow(dec - 6)
    }
}
pub fn tol_units(dec: u32) -> BigInt {
    BigInt::from(tol_i(dec))
}
