//! The contract of the parts of crate `time` which conversions of timestamps use: an `OffsetDateTime`
//! (in UTC) is a number of nanoseconds since 1970 within the range of years -999999..=999999. The
//! symbolic executor sees this instead of the calendar arithmetic of the real crate; counterexamples
//! and sampled paths are run natively with the real crate.
#![allow(clippy::all)]
use core::ops::{Add, AddAssign, Sub, SubAssign};
use core::time::Duration as StdDuration;

pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ComponentRange;
    impl core::fmt::Display for ComponentRange {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("out of range")
        }
    }
    impl std::error::Error for ComponentRange {}
}

const fn days(y: i64, m: i64, d: i64) -> i64 {
    // days since 1970-01-01 of a date in the proleptic Gregorian calendar
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
const MIN: i64 = days(-999_999, 1, 1) * 86400;
const MAX: i64 = days(999_999, 12, 31) * 86400 + 86399;
const G: i128 = 1_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct OffsetDateTime(i128);
pub type UtcDateTime = OffsetDateTime;

impl OffsetDateTime {
    pub const UNIX_EPOCH: Self = OffsetDateTime(0);
    pub const fn from_unix_timestamp_nanos(n: i128) -> Result<Self, error::ComponentRange> {
        if n < MIN as i128 * G || n >= (MAX as i128 + 1) * G {
            return Err(error::ComponentRange);
        }
        Ok(OffsetDateTime(n))
    }
    pub const fn from_unix_timestamp(s: i64) -> Result<Self, error::ComponentRange> {
        Self::from_unix_timestamp_nanos(s as i128 * G)
    }
    pub const fn unix_timestamp_nanos(self) -> i128 {
        self.0
    }
    pub const fn unix_timestamp(self) -> i64 {
        self.0.div_euclid(G) as i64
    }
    pub const fn nanosecond(self) -> u32 {
        self.0.rem_euclid(G) as u32
    }
    pub const fn microsecond(self) -> u32 {
        self.nanosecond() / 1000
    }
    pub const fn millisecond(self) -> u16 {
        (self.nanosecond() / 1_000_000) as u16
    }
    pub const fn replace_nanosecond(self, n: u32) -> Result<Self, error::ComponentRange> {
        if n >= 1_000_000_000 {
            return Err(error::ComponentRange);
        }
        Ok(OffsetDateTime(self.0 - self.0.rem_euclid(G) + n as i128))
    }
    pub fn checked_add(self, d: Duration) -> Option<Self> {
        Self::from_unix_timestamp_nanos(self.0 + d.0).ok()
    }
    pub fn checked_sub(self, d: Duration) -> Option<Self> {
        Self::from_unix_timestamp_nanos(self.0 - d.0).ok()
    }
}

const DMIN: i128 = i64::MIN as i128 * G - 999_999_999;
const DMAX: i128 = i64::MAX as i128 * G + 999_999_999;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Duration(i128);
impl Duration {
    pub const ZERO: Self = Duration(0);
    pub const fn new(s: i64, n: i32) -> Self {
        Duration(s as i128 * G + n as i128)
    }
    pub const fn seconds(s: i64) -> Self {
        Duration(s as i128 * G)
    }
    pub const fn milliseconds(s: i64) -> Self {
        Duration(s as i128 * 1_000_000)
    }
    pub const fn microseconds(s: i64) -> Self {
        Duration(s as i128 * 1000)
    }
    pub const fn nanoseconds(s: i64) -> Self {
        Duration(s as i128)
    }
    pub const fn nanoseconds_i128(s: i128) -> Self {
        Duration(s)
    }
    pub const fn whole_nanoseconds(self) -> i128 {
        self.0
    }
    pub const fn whole_microseconds(self) -> i128 {
        self.0 / 1000
    }
    pub const fn whole_milliseconds(self) -> i128 {
        self.0 / 1_000_000
    }
    pub const fn whole_seconds(self) -> i64 {
        (self.0 / G) as i64
    }
    pub const fn subsec_nanoseconds(self) -> i32 {
        (self.0 % G) as i32
    }
    pub const fn is_negative(self) -> bool {
        self.0 < 0
    }
    pub const fn is_positive(self) -> bool {
        self.0 > 0
    }
    pub const fn is_zero(self) -> bool {
        self.0 == 0
    }
    pub fn checked_add(self, o: Self) -> Option<Self> {
        let r = self.0 + o.0;
        if (DMIN..=DMAX).contains(&r) { Some(Duration(r)) } else { None }
    }
}
impl Add<Duration> for OffsetDateTime {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        self.checked_add(d).expect("resulting value is out of range")
    }
}
impl Sub<Duration> for OffsetDateTime {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        self.checked_sub(d).expect("resulting value is out of range")
    }
}
impl AddAssign<Duration> for OffsetDateTime {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl SubAssign<Duration> for OffsetDateTime {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub for OffsetDateTime {
    type Output = Duration;
    fn sub(self, o: Self) -> Duration {
        Duration(self.0 - o.0)
    }
}
impl Add<StdDuration> for OffsetDateTime {
    type Output = Self;
    fn add(self, d: StdDuration) -> Self {
        self + Duration(d.as_nanos() as i128)
    }
}
impl Sub<StdDuration> for OffsetDateTime {
    type Output = Self;
    fn sub(self, d: StdDuration) -> Self {
        self - Duration(d.as_nanos() as i128)
    }
}

#[doc(hidden)]
pub const fn at(y: i64, m: i64, d: i64, h: i64, min: i64, s: i64) -> OffsetDateTime {
    OffsetDateTime((days(y, m, d) * 86400 + h * 3600 + min * 60 + s) as i128 * G)
}
pub mod macros {
    #[macro_export]
    macro_rules! __datetime {
        ($y:literal - $m:literal - $d:literal $h:literal : $min:literal : $s:literal UTC) => {
            $crate::at($y, $m, $d, $h, $min, $s)
        };
        ($y:literal - $m:literal - $d:literal $h:literal : $min:literal UTC) => {
            $crate::at($y, $m, $d, $h, $min, 0)
        };
    }
    pub use crate::__datetime as datetime;
}
