//! Exact rational numbers.
use num_bigint::BigInt;
use std::iter::Sum;
use std::ops::{Add, AddAssign, Mul, Sub};

#[derive(Clone, PartialEq, Eq)]
pub struct Q {
    n: BigInt,
    /// positive
    d: BigInt,
}
fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let zero = BigInt::from(0);
    let (mut a, mut b) = (a.clone(), b.clone());
    while b != zero {
        let r = &a % &b;
        a = b;
        b = r;
    }
    if a < zero {
        -a
    } else {
        a
    }
}
impl Q {
    pub fn new(n: BigInt, d: BigInt) -> Q {
        assert!(d > BigInt::from(0));
        let g = gcd(&n, &d);
        Q { n: n / &g, d: d / g }
    }
    pub fn floor(&self) -> BigInt {
        let q = &self.n / &self.d;
        if &q * &self.d > self.n {
            q - 1
        } else {
            q
        }
    }
}
impl From<BigInt> for Q {
    fn from(n: BigInt) -> Q {
        Q { n, d: BigInt::from(1) }
    }
}
impl From<i128> for Q {
    fn from(n: i128) -> Q {
        BigInt::from(n).into()
    }
}
impl Add for &Q {
    type Output = Q;
    fn add(self, o: &Q) -> Q {
        Q::new(&self.n * &o.d + &o.n * &self.d, &self.d * &o.d)
    }
}
impl Sub for &Q {
    type Output = Q;
    fn sub(self, o: &Q) -> Q {
        Q::new(&self.n * &o.d - &o.n * &self.d, &self.d * &o.d)
    }
}
impl Mul for &Q {
    type Output = Q;
    fn mul(self, o: &Q) -> Q {
        Q::new(&self.n * &o.n, &self.d * &o.d)
    }
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        &self + &o
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        &self - &o
    }
}
impl AddAssign for Q {
    fn add_assign(&mut self, o: Q) {
        *self = &*self + &o;
    }
}
impl Sum for Q {
    fn sum<I: Iterator<Item = Q>>(i: I) -> Q {
        i.fold(Q::from(0), |a, b| a + b)
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        (&self.n * &o.d).cmp(&(&o.n * &self.d))
    }
}
impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}/{}", self.n, self.d)
    }
}
impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}/{}", self.n, self.d)
    }
}
