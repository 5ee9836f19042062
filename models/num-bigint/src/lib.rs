//! Verification model of num-bigint: integers of at most 255 bits in sign-and-magnitude form, which is exact
//! for every value the code under check computes; an operation whose result would not fit fails the harness.
use num_traits::{FromPrimitive, ToPrimitive, Num, One, Signed, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

/// 256-bit magnitude
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct U {
    h: u128,
    l: u128,
}
const LIM: &str = "model limit: integer beyond 256 bits";
impl U {
    const fn new(l: u128) -> U {
        U { h: 0, l }
    }
    fn add(self, o: U) -> U {
        let (l, c) = self.l.overflowing_add(o.l);
        let h = self.h.checked_add(o.h).expect(LIM).checked_add(c as u128).expect(LIM);
        U { h, l }
    }
    fn sub(self, o: U) -> U {
        let (l, b) = self.l.overflowing_sub(o.l);
        U { h: self.h - o.h - b as u128, l }
    }
    fn shl(self, n: u32) -> U {
        if n == 0 {
            return self;
        }
        assert!(n < 256 && (self.h == 0 && self.l == 0 || n <= self.lz()), "{}", LIM);
        if n >= 128 {
            U { h: self.l << (n - 128), l: 0 }
        } else {
            U { h: self.h << n | self.l >> (128 - n), l: self.l << n }
        }
    }
    fn shr(self, n: u32) -> U {
        if n == 0 {
            self
        } else if n >= 256 {
            U::new(0)
        } else if n >= 128 {
            U::new(self.h >> (n - 128))
        } else {
            U { h: self.h >> n, l: self.l >> n | self.h << (128 - n) }
        }
    }
    fn lz(self) -> u32 {
        if self.h != 0 {
            self.h.leading_zeros()
        } else {
            128 + self.l.leading_zeros()
        }
    }
    fn lt(self, o: U) -> bool {
        self.h < o.h || self.h == o.h && self.l < o.l
    }
    fn pow2(self) -> Option<u32> {
        if self.h == 0 && self.l.count_ones() == 1 {
            Some(self.l.trailing_zeros())
        } else if self.l == 0 && self.h.count_ones() == 1 {
            Some(128 + self.h.trailing_zeros())
        } else {
            None
        }
    }
    /// 64 x 64 -> 128 bit partial products
    fn mul(self, o: U) -> U {
        assert!(self.h == 0 || o.h == 0, "{}", LIM);
        let (x, y) = if self.h == 0 { (self.l, o) } else { (o.l, self) };
        // x * (y.h : y.l)
        let lo = wide(x, y.l);
        let hi = x.checked_mul(y.h).expect(LIM);
        U { h: lo.h.checked_add(hi).expect(LIM), l: lo.l }
    }
    fn divrem(self, o: U) -> (U, U) {
        assert!(o.h != 0 || o.l != 0, "attempt to divide by zero");
        if let Some(k) = o.pow2() {
            let q = self.shr(k);
            return (q, self.sub(q.shl(k)));
        }
        let (q, r) = if o.h == 0 && o.l >> 64 == 0 {
            // long division, 64 bits at a time
            const M: u128 = u64::MAX as u128;
            let a = self.h >> 64;
            let b = (a % o.l) << 64 | self.h & M;
            let c = (b % o.l) << 64 | self.l >> 64;
            let d = (c % o.l) << 64 | self.l & M;
            (U { h: (a / o.l) << 64 | b / o.l, l: (c / o.l) << 64 | d / o.l }, U::new(d % o.l))
        } else {
            model_divrem(self, o)
        };
        // (a fact, for the solver's benefit)
        #[cfg(kani)]
        kani::assume(r.lt(o) && !self.lt(r) && !self.lt(q));
        (q, r)
    }
}
fn wide(x: u128, y: u128) -> U {
    const M: u128 = u64::MAX as u128;
    let (x1, x0, y1, y0) = (x >> 64, x & M, y >> 64, y & M);
    let a = x0 * y0;
    let b = x1 * y0 + (a >> 64);
    let c = x0 * y1 + (b & M);
    U { h: x1 * y1 + (b >> 64) + (c >> 64), l: c << 64 | a & M }
}
/// the quotient and remainder, characterised by q*o + r = self, r < o
#[cfg(kani)]
fn model_divrem(n: U, o: U) -> (U, U) {
    let q = U { h: kani::any(), l: kani::any() };
    let r = U { h: kani::any(), l: kani::any() };
    kani::assume(r.lt(o) && !n.lt(q) && !n.lt(r));
    kani::assume(q.h == 0 || o.h == 0);
    // q * o does not exceed 256 bits
    let (x, y) = if q.h == 0 { (q.l, o) } else { (o.l, q) };
    let lo = wide(x, y.l);
    let top = wide(x, y.h);
    kani::assume(top.h == 0);
    let (h, c) = lo.h.overflowing_add(top.l);
    kani::assume(!c);
    let p = U { h, l: lo.l };
    kani::assume(!n.lt(p));
    let d = n.sub(p);
    kani::assume(d == r);
    (q, r)
}
#[cfg(not(kani))]
fn model_divrem(n: U, o: U) -> (U, U) {
    let (mut q, mut r) = (U::new(0), U::new(0));
    for i in (0..256).rev() {
        r = r.shl(1);
        r.l |= n.shr(i).l & 1;
        q = q.shl(1);
        if !r.lt(o) {
            r = r.sub(o);
            q.l |= 1;
        }
    }
    (q, r)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}

macro_rules! ops {
    ($t:ident: $($tr:ident $f:ident $tra:ident $fa:ident $imp:ident;)*) => { $(
        impl $tr<$t> for $t { type Output = $t; fn $f(self, o: $t) -> $t { self.$imp(o) } }
        impl $tr<&$t> for $t { type Output = $t; fn $f(self, o: &$t) -> $t { self.$imp(*o) } }
        impl $tr<$t> for &$t { type Output = $t; fn $f(self, o: $t) -> $t { (*self).$imp(o) } }
        impl $tr<&$t> for &$t { type Output = $t; fn $f(self, o: &$t) -> $t { (*self).$imp(*o) } }
        impl $tra<$t> for $t { fn $fa(&mut self, o: $t) { *self = (*self).$imp(o) } }
        impl $tra<&$t> for $t { fn $fa(&mut self, o: &$t) { *self = (*self).$imp(*o) } }
        ops!(@p $t $tr $f $tra $fa $imp: u8 u16 u32 u64 u128 usize);
    )* };
    (@p $t:ident $tr:ident $f:ident $tra:ident $fa:ident $imp:ident: $($p:ident)*) => { $(
        impl $tr<$p> for $t { type Output = $t; fn $f(self, o: $p) -> $t { self.$imp($t::from(o)) } }
        impl $tr<$p> for &$t { type Output = $t; fn $f(self, o: $p) -> $t { (*self).$imp($t::from(o)) } }
        impl $tr<$t> for $p { type Output = $t; fn $f(self, o: $t) -> $t { $t::from(self).$imp(o) } }
        impl $tra<$p> for $t { fn $fa(&mut self, o: $p) { *self = (*self).$imp($t::from(o)) } }
    )* };
}
macro_rules! ty {
    ($t:ident) => {
        ops!($t: Add add AddAssign add_assign p_add; Sub sub SubAssign sub_assign p_sub;
             Mul mul MulAssign mul_assign p_mul; Div div DivAssign div_assign p_div; Rem rem RemAssign rem_assign p_rem;);
        impl Default for $t {
            fn default() -> $t { $t::from(0u8) }
        }
        impl Zero for $t {
            fn zero() -> $t { $t::from(0u8) }
            fn is_zero(&self) -> bool { self.m == U::new(0) }
        }
        impl One for $t {
            fn one() -> $t { $t::from(1u8) }
        }
        impl Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<$t, ()> { unimplemented!("model limit: text") }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> { Some(self.cmp(o)) }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("integer") }
        }
        impl Shl<u32> for $t { type Output = $t; fn shl(mut self, n: u32) -> $t { self.m = self.m.shl(n); self } }
        impl Shl<usize> for $t { type Output = $t; fn shl(mut self, n: usize) -> $t { self.m = self.m.shl(n as u32); self } }
        impl Shl<i32> for $t { type Output = $t; fn shl(mut self, n: i32) -> $t { self.m = self.m.shl(n as u32); self } }
    };
}
macro_rules! ops_i {
    ($($tr:ident $f:ident $tra:ident $fa:ident $imp:ident;)*) => { $( ops!(@p BigInt $tr $f $tra $fa $imp: i8 i16 i32 i64 i128 isize); )* };
}
macro_rules! froms { ($t:ident: $($p:ident)*) => { $( impl From<$p> for $t { fn from(v: $p) -> $t { $t::nat(U::new(v as u128)) } } )* } }
macro_rules! froms_i { ($($p:ident)*) => { $(
    impl From<$p> for BigInt { fn from(v: $p) -> BigInt { BigInt { neg: v < 0, m: U::new(v.unsigned_abs() as u128) } } }
)* } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BigInt {
    neg: bool,
    m: U,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BigUint {
    m: U,
}
ty!(BigInt);
ty!(BigUint);
ops_i!(Add add AddAssign add_assign p_add; Sub sub SubAssign sub_assign p_sub;
       Mul mul MulAssign mul_assign p_mul; Div div DivAssign div_assign p_div; Rem rem RemAssign rem_assign p_rem;);
froms!(BigInt: u8 u16 u32 u64 u128 usize);
froms!(BigUint: u8 u16 u32 u64 u128 usize);
froms_i!(i8 i16 i32 i64 i128 isize);
impl From<BigUint> for BigInt {
    fn from(v: BigUint) -> BigInt {
        BigInt::nat(v.m)
    }
}
impl BigInt {
    fn nat(m: U) -> BigInt {
        BigInt { neg: false, m }
    }
    fn norm(self) -> BigInt {
        BigInt { neg: self.neg && self.m != U::new(0), m: self.m }
    }
    fn p_add(self, o: BigInt) -> BigInt {
        if self.neg == o.neg {
            BigInt { neg: self.neg, m: self.m.add(o.m) }
        } else if self.m.lt(o.m) {
            BigInt { neg: o.neg, m: o.m.sub(self.m) }
        } else {
            BigInt { neg: self.neg, m: self.m.sub(o.m) }.norm()
        }
    }
    fn p_sub(self, o: BigInt) -> BigInt {
        self.p_add(BigInt { neg: !o.neg, m: o.m }.norm())
    }
    fn p_mul(self, o: BigInt) -> BigInt {
        BigInt { neg: self.neg != o.neg, m: self.m.mul(o.m) }.norm()
    }
    fn p_div(self, o: BigInt) -> BigInt {
        BigInt { neg: self.neg != o.neg, m: self.m.divrem(o.m).0 }.norm()
    }
    fn p_rem(self, o: BigInt) -> BigInt {
        BigInt { neg: self.neg, m: self.m.divrem(o.m).1 }.norm()
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        if self.neg { None } else { Some(BigUint { m: self.m }) }
    }
    pub fn sign(&self) -> Sign {
        if self.neg { Sign::Minus } else if self.m == U::new(0) { Sign::NoSign } else { Sign::Plus }
    }
}
impl BigUint {
    fn nat(m: U) -> BigUint {
        BigUint { m }
    }
    fn p_add(self, o: BigUint) -> BigUint {
        BigUint { m: self.m.add(o.m) }
    }
    fn p_sub(self, o: BigUint) -> BigUint {
        BigUint { m: self.m.sub(o.m) }
    }
    fn p_mul(self, o: BigUint) -> BigUint {
        BigUint { m: self.m.mul(o.m) }
    }
    fn p_div(self, o: BigUint) -> BigUint {
        BigUint { m: self.m.divrem(o.m).0 }
    }
    fn p_rem(self, o: BigUint) -> BigUint {
        BigUint { m: self.m.divrem(o.m).1 }
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &BigUint) -> Ordering {
        if self.m.lt(o.m) { Ordering::Less } else if o.m.lt(self.m) { Ordering::Greater } else { Ordering::Equal }
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &BigInt) -> Ordering {
        let d = self.p_sub(*o);
        if d.neg { Ordering::Less } else if d.m == U::new(0) { Ordering::Equal } else { Ordering::Greater }
    }
}
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt { neg: !self.neg, m: self.m }.norm()
    }
}
impl Signed for BigInt {
    fn abs(&self) -> BigInt {
        BigInt::nat(self.m)
    }
    fn abs_sub(&self, o: &BigInt) -> BigInt {
        let d = self.p_sub(*o);
        if d.neg { BigInt::from(0u8) } else { d }
    }
    fn signum(&self) -> BigInt {
        BigInt { neg: self.neg, m: U::new((self.m != U::new(0)) as u128) }
    }
    fn is_positive(&self) -> bool {
        !self.neg && self.m != U::new(0)
    }
    fn is_negative(&self) -> bool {
        self.neg
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        if self.m.h == 0 && self.m.l <= i64::MAX as u128 { Some(self.m.l as i64) } else { None }
    }
    fn to_u64(&self) -> Option<u64> {
        if self.m.h == 0 && self.m.l <= u64::MAX as u128 { Some(self.m.l as u64) } else { None }
    }
    fn to_u128(&self) -> Option<u128> {
        if self.m.h == 0 { Some(self.m.l) } else { None }
    }
    fn to_i128(&self) -> Option<i128> {
        if self.m.h == 0 && self.m.l <= i128::MAX as u128 { Some(self.m.l as i128) } else { None }
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        let l = self.m.l;
        if self.m.h != 0 || l > (i64::MAX as u128) + self.neg as u128 { None }
        else if self.neg { Some((l as i64).wrapping_neg()) } else { Some(l as i64) }
    }
    fn to_u64(&self) -> Option<u64> {
        if self.neg { None } else { BigUint { m: self.m }.to_u64() }
    }
    fn to_u128(&self) -> Option<u128> {
        if self.neg { None } else { BigUint { m: self.m }.to_u128() }
    }
    fn to_i128(&self) -> Option<i128> {
        let l = self.m.l;
        if self.m.h != 0 || l > (i128::MAX as u128) + self.neg as u128 { None }
        else if self.neg { Some((l as i128).wrapping_neg()) } else { Some(l as i128) }
    }
}
impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_u64(n: u64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_u128(n: u128) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_i128(n: i128) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
}
impl FromPrimitive for BigUint {
    fn from_i64(n: i64) -> Option<BigUint> {
        if n < 0 { None } else { Some(BigUint::from(n as u64)) }
    }
    fn from_u64(n: u64) -> Option<BigUint> {
        Some(BigUint::from(n))
    }
    fn from_u128(n: u128) -> Option<BigUint> {
        Some(BigUint::from(n))
    }
}
macro_rules! tryfrom { ($($t:ident $p:ident $f:ident;)*) => { $(
    impl TryFrom<$t> for $p { type Error = (); fn try_from(v: $t) -> Result<$p, ()> { v.$f().ok_or(()) } }
    impl TryFrom<&$t> for $p { type Error = (); fn try_from(v: &$t) -> Result<$p, ()> { v.$f().ok_or(()) } }
)* } }
tryfrom!(BigInt u64 to_u64; BigInt u128 to_u128; BigInt i64 to_i64; BigUint u64 to_u64; BigUint u128 to_u128;);
