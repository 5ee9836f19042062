//! Verification model of the `time` crate: a point in time is its Unix time in seconds and nanoseconds (UTC), a
//! duration its number of nanoseconds. Calendar arithmetic, which the code under check does not use, and text
//! forms (the serde forms of timestamps, outside the checked properties) are left out.
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

pub mod error {
    use std::fmt;
    macro_rules! errs { ($($t:ident)*) => { $(
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct $t;
        impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($t)) } }
        impl std::error::Error for $t {}
    )* } }
    errs!(ComponentRange Format Parse ConversionRange);
}
pub use error::*;
pub mod format_description {
    pub mod well_known {
        #[derive(Debug, Clone, Copy)]
        pub struct Rfc3339;
    }
}

const NS: i128 = 1_000_000_000;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Duration {
    n: i128,
}
impl Duration {
    pub const ZERO: Self = Self { n: 0 };
    pub const NANOSECOND: Self = Self { n: 1 };
    pub const MICROSECOND: Self = Self { n: 1000 };
    pub const MILLISECOND: Self = Self { n: 1000000 };
    pub const SECOND: Self = Self { n: NS };
    pub const MINUTE: Self = Self { n: 60 * NS };
    pub const HOUR: Self = Self { n: 3600 * NS };
    pub const DAY: Self = Self { n: 86400 * NS };
    pub const WEEK: Self = Self { n: 7 * 86400 * NS };
    pub const MIN: Self = Self { n: i64::MIN as i128 * NS - 999999999 };
    pub const MAX: Self = Self { n: i64::MAX as i128 * NS + 999999999 };
    pub const fn new(s: i64, n: i32) -> Self {
        Self { n: s as i128 * NS + n as i128 }
    }
    const fn secs(s: Option<i64>) -> Self {
        match s {
            Some(s) => Self { n: s as i128 * NS },
            None => panic!("overflow constructing `time::Duration`"),
        }
    }
    pub const fn weeks(v: i64) -> Self {
        Self::secs(v.checked_mul(604800))
    }
    pub const fn days(v: i64) -> Self {
        Self::secs(v.checked_mul(86400))
    }
    pub const fn hours(v: i64) -> Self {
        Self::secs(v.checked_mul(3600))
    }
    pub const fn minutes(v: i64) -> Self {
        Self::secs(v.checked_mul(60))
    }
    pub const fn seconds(v: i64) -> Self {
        Self { n: v as i128 * NS }
    }
    pub const fn milliseconds(v: i64) -> Self {
        Self { n: v as i128 * 1000000 }
    }
    pub const fn microseconds(v: i64) -> Self {
        Self { n: v as i128 * 1000 }
    }
    pub const fn nanoseconds(v: i64) -> Self {
        Self { n: v as i128 }
    }
    pub const fn whole_weeks(self) -> i64 {
        (self.n / (604800 * NS)) as i64
    }
    pub const fn whole_days(self) -> i64 {
        (self.n / (86400 * NS)) as i64
    }
    pub const fn whole_hours(self) -> i64 {
        (self.n / (3600 * NS)) as i64
    }
    pub const fn whole_minutes(self) -> i64 {
        (self.n / (60 * NS)) as i64
    }
    pub const fn whole_seconds(self) -> i64 {
        (self.n / NS) as i64
    }
    pub const fn whole_milliseconds(self) -> i128 {
        self.n / 1000000
    }
    pub const fn whole_microseconds(self) -> i128 {
        self.n / 1000
    }
    pub const fn whole_nanoseconds(self) -> i128 {
        self.n
    }
    pub const fn subsec_nanoseconds(self) -> i32 {
        (self.n % NS) as i32
    }
    pub const fn subsec_microseconds(self) -> i32 {
        (self.n % NS / 1000) as i32
    }
    pub const fn subsec_milliseconds(self) -> i16 {
        (self.n % NS / 1000000) as i16
    }
    pub fn as_seconds_f64(self) -> f64 {
        self.n as f64 / 1e9
    }
    pub const fn is_zero(self) -> bool {
        self.n == 0
    }
    pub const fn is_negative(self) -> bool {
        self.n < 0
    }
    pub const fn is_positive(self) -> bool {
        self.n > 0
    }
    pub const fn abs(self) -> Self {
        Self { n: self.n.abs() }
    }
    const fn fit(n: i128) -> Option<Self> {
        if n < Self::MIN.n || n > Self::MAX.n {
            None
        } else {
            Some(Self { n })
        }
    }
    pub const fn checked_add(self, o: Self) -> Option<Self> {
        Self::fit(self.n + o.n)
    }
    pub const fn checked_sub(self, o: Self) -> Option<Self> {
        Self::fit(self.n - o.n)
    }
    pub const fn checked_mul(self, k: i32) -> Option<Self> {
        Self::fit(self.n * k as i128)
    }
    pub const fn checked_div(self, k: i32) -> Option<Self> {
        if k == 0 { None } else { Self::fit(self.n / k as i128) }
    }
    pub const fn saturating_add(self, o: Self) -> Self {
        match self.checked_add(o) {
            Some(v) => v,
            None => if o.n > 0 { Self::MAX } else { Self::MIN },
        }
    }
    pub const fn saturating_sub(self, o: Self) -> Self {
        match self.checked_sub(o) {
            Some(v) => v,
            None => if o.n < 0 { Self::MAX } else { Self::MIN },
        }
    }
}
impl fmt::Debug for Duration {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Duration")
    }
}
impl fmt::Display for Duration {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Duration")
    }
}
impl Add for Duration {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        self.checked_add(o).expect("overflow when adding durations")
    }
}
impl Sub for Duration {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        self.checked_sub(o).expect("overflow when subtracting durations")
    }
}
impl AddAssign for Duration {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl SubAssign for Duration {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl Neg for Duration {
    type Output = Self;
    fn neg(self) -> Self {
        Self { n: -self.n }
    }
}
macro_rules! scale { ($($t:ty)*) => { $(
    impl Mul<$t> for Duration { type Output = Self; fn mul(self, k: $t) -> Self { Self::fit(self.n.checked_mul(k as i128).expect("overflow")).expect("overflow when multiplying duration") } }
    impl Mul<Duration> for $t { type Output = Duration; fn mul(self, d: Duration) -> Duration { d * self } }
    impl Div<$t> for Duration { type Output = Self; fn div(self, k: $t) -> Self { Self { n: self.n / k as i128 } } }
)* } }
scale!(i8 i16 i32 u8 u16 u32);
impl ::serde::Serialize for Duration {
    fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.whole_seconds(), self.subsec_nanoseconds()).serialize(s)
    }
}
impl<'de> ::serde::Deserialize<'de> for Duration {
    fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (s, n) = <(i64, i32)>::deserialize(d)?;
        Ok(Self::new(s, n))
    }
}

#[derive(Clone, Copy)]
pub struct UtcOffset;
impl UtcOffset {
    pub const UTC: Self = UtcOffset;
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct OffsetDateTime {
    s: i64,
    n: u32,
}
/// the years -9999 to 9999
const MIN_S: i64 = -377705116800;
const MAX_S: i64 = 253402300799;
impl OffsetDateTime {
    pub const UNIX_EPOCH: Self = Self { s: 0, n: 0 };
    pub const fn from_unix_timestamp(s: i64) -> Result<Self, ComponentRange> {
        if s < MIN_S || s > MAX_S {
            Err(ComponentRange)
        } else {
            Ok(Self { s, n: 0 })
        }
    }
    pub const fn from_unix_timestamp_nanos(n: i128) -> Result<Self, ComponentRange> {
        let s = n.div_euclid(NS);
        if s < MIN_S as i128 || s > MAX_S as i128 {
            Err(ComponentRange)
        } else {
            Ok(Self { s: s as i64, n: n.rem_euclid(NS) as u32 })
        }
    }
    pub const fn unix_timestamp(self) -> i64 {
        self.s
    }
    pub const fn unix_timestamp_nanos(self) -> i128 {
        self.s as i128 * NS + self.n as i128
    }
    pub const fn nanosecond(self) -> u32 {
        self.n
    }
    pub const fn to_offset(self, _: UtcOffset) -> Self {
        self
    }
    pub fn checked_add(self, d: Duration) -> Option<Self> {
        Self::from_unix_timestamp_nanos(self.unix_timestamp_nanos() + d.n).ok()
    }
    pub fn checked_sub(self, d: Duration) -> Option<Self> {
        Self::from_unix_timestamp_nanos(self.unix_timestamp_nanos() - d.n).ok()
    }
    pub fn format<F>(self, _: &F) -> Result<String, error::Format> {
        panic!("model limit: text form of a timestamp")
    }
    pub fn parse<F>(_: &str, _: &F) -> Result<Self, error::Parse> {
        panic!("model limit: text form of a timestamp")
    }
}
impl Add<Duration> for OffsetDateTime {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        self.checked_add(d).expect("resulting value is out of range")
    }
}
impl Sub<Duration> for OffsetDateTime {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        self.checked_sub(d).expect("resulting value is out of range")
    }
}
impl Sub for OffsetDateTime {
    type Output = Duration;
    fn sub(self, o: Self) -> Duration {
        Duration { n: self.unix_timestamp_nanos() - o.unix_timestamp_nanos() }
    }
}
impl fmt::Debug for OffsetDateTime {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OffsetDateTime")
    }
}
impl fmt::Display for OffsetDateTime {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OffsetDateTime")
    }
}
pub mod serde {
    macro_rules! form { ($($m:ident)*) => { $( pub mod $m {
        pub fn serialize<S: ::serde::Serializer>(_: &crate::OffsetDateTime, _: S) -> Result<S::Ok, S::Error> {
            panic!("model limit: text form of a timestamp")
        }
        pub fn deserialize<'de, D: ::serde::Deserializer<'de>>(_: D) -> Result<crate::OffsetDateTime, D::Error> {
            panic!("model limit: text form of a timestamp")
        }
    } )* } }
    form!(rfc3339 timestamp rfc2822);
}
#[allow(unused)]
fn unused(_: Ordering) {}
