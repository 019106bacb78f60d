use crate::disk::*;
use crate::rt::*;
use ntfs::types::{Lcn, Vcn};
use ntfs::{Ntfs, NtfsError};

/// A cluster number plus a signed delta.
fn add() {
    let (l, v) = (u64_(0, 0), u64_(0, 8) as i64);
    let sum = l as i128 + v as i128;
    match Lcn::from(l).checked_add(Vcn::from(v)) {
        Some(r) => {
            reach("added");
            check(r.value() as i128 == sum, "the sum is exact");
        }
        None => {
            reach("refused");
            check(sum < 0 || sum > u64::MAX as i128, "only sums which do not fit are refused");
        }
    }
}

/// A volume with each possible cluster size (2 to the power of 9 up to 21).
fn geometry() -> (Ntfs, u32) {
    let k = choose(1, 0, 13) as u32;
    let mut b = boot(0xf6);
    b[13] = if k < 8 { 1 << k } else { (256 - k) as u8 };
    put64(&mut b, 0x28, 1 << 30);
    put64(&mut b, 0x30, 1);
    (Ntfs::new(&mut Disk::new(b)).unwrap(), k + 9)
}

fn lcn_position() {
    let (ntfs, bits) = geometry();
    let l = u64_(0, 0);
    let want = (l as u128) << bits;
    match Lcn::from(l).position(&ntfs) {
        Ok(p) => {
            reach("position");
            check(p.value().map_or(0, |x| x.get()) as u128 == want, "the position of a cluster is exact");
        }
        Err(e) => {
            reach("position refused");
            check(matches!(e, NtfsError::LcnTooBig { lcn } if lcn.value() == l), "the error names the cluster");
            check(want > u64::MAX as u128, "only positions which do not fit are refused");
        }
    }
}

fn vcn_offset() {
    let (ntfs, bits) = geometry();
    let v = u64_(0, 0) as i64;
    let want = (v as i128) << bits;
    match Vcn::from(v).offset(&ntfs) {
        Ok(o) => {
            reach("offset");
            check(o as i128 == want, "the offset of a cluster is exact");
        }
        Err(e) => {
            reach("offset refused");
            check(matches!(e, NtfsError::VcnTooBig { vcn } if vcn.value() == v), "the error names the cluster");
            check(want > i64::MAX as i128 || want < i64::MIN as i128, "only offsets which do not fit are refused");
        }
    }
}

crate::entries! {
    n24_add => add();
    n24_lcn_position => lcn_position();
    n24_vcn_offset => vcn_offset();
}
