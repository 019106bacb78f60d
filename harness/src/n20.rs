use crate::rt::*;
use ntfs::{NtfsError, NtfsTime};
use std::time::{Duration, SystemTime};
use time::OffsetDateTime;

/// Intervals of 100 ns from 1601-01-01 to 1970-01-01 UTC.
const E: i128 = 116_444_736_000_000_000;

/// Every timestamp denotes its instant, and converts back unchanged.
fn to_calendar() {
    let x = u64_(0, 0);
    let t = NtfsTime::from(x);
    check(t.nt_timestamp() == x, "timestamp");
    let c = OffsetDateTime::from(t);
    check(c.unix_timestamp_nanos() == (x as i128 - E) * 100, "the instant a timestamp denotes");
    match NtfsTime::try_from(c) {
        Ok(back) => check(back.nt_timestamp() == x, "conversion to a calendar time and back"),
        Err(_) => check(false, "a calendar time made from a timestamp is representable"),
    }
}

/// Comparisons follow the instants.
fn order() {
    let (x, y) = (u64_(0, 0), u64_(0, 8));
    let (a, b) = (NtfsTime::from(x), NtfsTime::from(y));
    check(a.cmp(&b) == x.cmp(&y) && (a == b) == (x == y) && (a < b) == (x < y), "order of timestamps");
}

/// Every calendar time.
fn from_calendar() {
    let mut b = [0; 16];
    read(0, 0, &mut b[5..]);
    let n = i128::from_le_bytes(b) >> 40;
    let Ok(c) = OffsetDateTime::from_unix_timestamp_nanos(n) else { return };
    let since = n + E * 100;
    match NtfsTime::try_from(c) {
        Ok(t) => {
            reach("calendar time converted");
            let d = since - t.nt_timestamp() as i128 * 100;
            check((0..100).contains(&d), "the timestamp is the calendar time rounded down to an interval");
        }
        Err(e) => {
            reach("calendar time refused");
            check(matches!(e, NtfsError::InvalidTime), "error");
            check(since < 0 || since >= (1i128 << 64) * 100, "only calendar times which are not representable are refused");
        }
    }
}

/// Every system time from 1970 on.
fn from_system() {
    let secs = u64_(0, 0);
    let nanos = u32_(0, 8);
    assume(secs <= i64::MAX as u64 && nanos < 1_000_000_000);
    let Some(st) = SystemTime::UNIX_EPOCH.checked_add(Duration::new(secs, nanos)) else { return };
    let n = secs as i128 * 1_000_000_000 + nanos as i128 + E * 100;
    match NtfsTime::try_from(st) {
        Ok(t) => {
            reach("system time converted");
            let d = n - t.nt_timestamp() as i128 * 100;
            check((0..100).contains(&d), "the timestamp is the system time rounded down to an interval");
        }
        Err(_) => {
            reach("system time refused");
            check(n >= (1i128 << 64) * 100, "only system times which are not representable are refused");
        }
    }
}

/// System times before 1970 are refused.
fn before_1970() {
    let secs = u64_(0, 0);
    let nanos = u32_(0, 8);
    assume(secs <= i64::MAX as u64 && nanos < 1_000_000_000);
    assume(secs > 0 || nanos > 0);
    let Some(st) = SystemTime::UNIX_EPOCH.checked_sub(Duration::new(secs, nanos)) else { return };
    check(NtfsTime::try_from(st).is_err(), "system times before 1970 are refused");
}

crate::entries! {
    n20_to_calendar => to_calendar();
    n20_order => order();
    n20_from_calendar => from_calendar();
    n20_from_system => from_system();
    n20_before_1970 => before_1970();
}
