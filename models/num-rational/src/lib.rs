//! Verification model of num-rational: ratios kept unreduced (numerator over positive denominator). Everything
//! except the particular representative returned by `numer` and `denom` agrees with the original.
use num_bigint::BigInt;
use num_traits::{Num, One};
use std::ops::*;

pub type BigRational = Ratio<BigInt>;
pub type Rational64 = Ratio<i64>;
#[derive(Clone, Copy, Debug)]
pub struct Ratio<T> {
    n: T,
    d: T,
}
impl<T: Num + Clone> Ratio<T> {
    pub fn new(n: T, d: T) -> Self {
        assert!(!d.is_zero(), "denominator == 0");
        Ratio { n, d }
    }
    pub fn new_raw(n: T, d: T) -> Self {
        Ratio { n, d }
    }
    pub fn from_integer(n: T) -> Self {
        Ratio { n, d: T::one() }
    }
    pub fn numer(&self) -> &T {
        &self.n
    }
    pub fn denom(&self) -> &T {
        &self.d
    }
    pub fn to_integer(&self) -> T {
        self.trunc().n
    }
    pub fn trunc(&self) -> Self {
        Self::from_integer(self.n.clone() / self.d.clone())
    }
    pub fn is_integer(&self) -> bool {
        (self.n.clone() % self.d.clone()).is_zero()
    }
}
impl<T: Num + Clone + PartialOrd> Ratio<T> {
    /// (non-negative values only)
    pub fn floor(&self) -> Self {
        assert!(self.n >= T::zero(), "model limit: floor of a negative ratio");
        self.trunc()
    }
}
impl<T: Num + Clone> From<T> for Ratio<T> {
    fn from(n: T) -> Self {
        Ratio { n, d: T::one() }
    }
}
impl<T: Num + Clone> From<(T, T)> for Ratio<T> {
    fn from(v: (T, T)) -> Self {
        Ratio::new(v.0, v.1)
    }
}
impl Ratio<BigInt> {
    pub fn from_float(f: f64) -> Option<Self> {
        let b = f.to_bits();
        let e = (b >> 52 & 0x7ff) as i32;
        if e == 0x7ff {
            return None;
        }
        let m = if e == 0 { (b & 0xfffffffffffff) << 1 } else { b & 0xfffffffffffff | 0x10000000000000 };
        let mut m = m as i64;
        if b >> 63 == 1 {
            m = -m
        }
        let k = e - 1075;
        Some(if m == 0 {
            Ratio::from(BigInt::from(0u8))
        } else if k >= 0 {
            Ratio::from(BigInt::from(m) << k as u32)
        } else {
            let z = m.trailing_zeros();
            let z = if z > (-k) as u32 { (-k) as u32 } else { z };
            Ratio::new(BigInt::from(m >> z), BigInt::one() << ((-k) as u32 - z))
        })
    }
}
macro_rules! ops { ($($tr:ident $f:ident |$a:ident, $b:ident| $n:expr, $d:expr;)*) => { $(
    impl<T: Num + Clone> $tr<Ratio<T>> for Ratio<T> { type Output = Ratio<T>; fn $f(self, o: Ratio<T>) -> Ratio<T> { let ($a, $b) = (self, o); Ratio { n: $n, d: $d } } }
    impl<'a, T: Num + Clone> $tr<&'a Ratio<T>> for Ratio<T> { type Output = Ratio<T>; fn $f(self, o: &'a Ratio<T>) -> Ratio<T> { self.$f(o.clone()) } }
    impl<'a, T: Num + Clone> $tr<&'a Ratio<T>> for &'a Ratio<T> { type Output = Ratio<T>; fn $f(self, o: &'a Ratio<T>) -> Ratio<T> { self.clone().$f(o.clone()) } }
    impl<T: Num + Clone> $tr<T> for Ratio<T> { type Output = Ratio<T>; fn $f(self, o: T) -> Ratio<T> { self.$f(Ratio::from(o)) } }
)* } }
ops! {
    Mul mul |a, b| a.n * b.n, a.d * b.d;
    Div div |a, b| a.n * b.d, a.d * b.n;
    Add add |a, b| a.n * b.d.clone() + b.n * a.d.clone(), a.d * b.d;
    Sub sub |a, b| a.n * b.d.clone() - b.n * a.d.clone(), a.d * b.d;
}
