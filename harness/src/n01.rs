use crate::disk::*;
use crate::rt::*;
use ntfs::{Ntfs, NtfsError};

/// What the 512 bytes encode, or None if they are no supported boot sector.
struct Geometry {
    cluster: u64,
    sector: u64,
    record: u64,
    size: u64,
    mft: u64,
    serial: u64,
}
fn oracle(b: &[u8]) -> Option<Geometry> {
    let sector = le16(b, 11) as u64;
    let spc = b[13];
    let total = le64(b, 0x28);
    let lcn = le64(b, 0x30);
    let info = b[0x40];
    if !(b[510] == 0x55 && b[511] == 0xaa) {
        return None;
    }
    if !(sector == 512 || sector == 1024 || sector == 2048 || sector == 4096) {
        return None;
    }
    let spc = if spc <= 128 {
        if !(spc == 1 || spc == 2 || spc == 4 || spc == 8 || spc == 16 || spc == 32 || spc == 64 || spc == 128) {
            return None;
        }
        spc as u64
    } else {
        let e = 256 - spc as u32;
        if e > 12 {
            return None;
        }
        1u64 << e
    };
    let cluster = spc * sector;
    if cluster < 512 || cluster > 2 * 1024 * 1024 {
        return None;
    }
    let record = if info >= 1 && info <= 127 {
        info as u64 * cluster
    } else {
        // 0 is no exponent either: only 2^10, 2^11 and 2^12 are supported.
        match info {
            0xf6 => 1024,
            0xf5 => 2048,
            0xf4 => 4096,
            _ => return None,
        }
    };
    if lcn == 0 {
        return None;
    }
    let size = total as u128 * sector as u128;
    let mft = lcn as u128 * cluster as u128;
    if size >> 64 != 0 || mft >> 64 != 0 {
        return None;
    }
    Some(Geometry { cluster, sector, record, size: size as u64, mft: mft as u64, serial: le64(b, 0x48) })
}

/// Every 512-byte boot sector.
fn open() {
    let mut b = vec![0u8; 512];
    bytes(&mut b, 0);
    // Split the plausible geometries into one path each, so that products have a constant factor.
    let sector = le16(&b, 11);
    if sector >= 512 && sector <= 4096 && sector & 511 == 0 {
        b[11] = concretize(b[11] as u64) as u8;
        b[12] = concretize(b[12] as u64) as u8;
        if b[13] > 240 || b[13] & b[13].wrapping_sub(1) == 0 {
            b[13] = concretize(b[13] as u64) as u8;
        }
    }
    let mut d = Disk::new(b);
    let r = Ntfs::new(&mut d);
    let o = oracle(&d.img);
    match (r, o) {
        (Ok(n), Some(g)) => {
            reach("opened");
            check(n.cluster_size() as u64 == g.cluster, "cluster size");
            check(n.sector_size() as u64 == g.sector, "sector size");
            check(n.file_record_size() as u64 == g.record, "file record size");
            check(n.size() == g.size, "volume size");
            check(n.serial_number() == g.serial, "serial number");
            check(n.mft_position().value().map_or(0, |v| v.get()) == g.mft, "MFT position");
            observe(n.cluster_size() as u64);
            observe(n.file_record_size() as u64);
            observe(n.size());
            observe(n.serial_number());
            observe(n.mft_position().value().map_or(0, |v| v.get()));
        }
        (Ok(_), None) => check(false, "an invalid boot sector was accepted"),
        (Err(_), Some(_)) => check(false, "a valid boot sector was rejected"),
        (Err(e), None) => {
            reach("rejected");
            check(!matches!(e, NtfsError::Io(_)), "a complete boot sector must not give an I/O error");
        }
    }
}

/// A volume that ends inside its boot sector.
fn truncated() {
    let mut b = vec![0u8; 512];
    bytes(&mut b, 0);
    let n = u16_(1, 0) as usize;
    assume(n < 512);
    let n = concretize(n as u64) as usize;
    b.truncate(n);
    let mut d = Disk::new(b);
    match Ntfs::new(&mut d) {
        Ok(_) => check(false, "a truncated boot sector was accepted"),
        Err(_) => reach("truncated rejected"),
    }
}

crate::entries! {
    n01_open => open();
    n01_truncated => truncated();
}
