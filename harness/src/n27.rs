use crate::disk::*;
use crate::rt::*;
use ntfs::{Ntfs, NtfsError};
use std::io::{self, Read, Seek, SeekFrom};

/// A disk whose `n`th operation (counted from `from` on) fails.
struct Failing {
    d: Disk,
    armed: bool,
    n: u64,
    ops: u64,
    failed: bool,
}
impl Failing {
    fn op(&mut self) -> io::Result<()> {
        if self.armed {
            self.ops += 1;
            if self.ops == self.n {
                self.failed = true;
                return Err(io::Error::from(io::ErrorKind::PermissionDenied));
            }
        }
        Ok(())
    }
}
impl Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.op()?;
        self.d.read(b)
    }
}
impl Seek for Failing {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.op()?;
        self.d.seek(s)
    }
}

const SLOT: usize = 48;
const FIRST: usize = 56;

/// Three attributes of any type with values of up to 24 bytes in record 3; others in the records around it.
fn info(fault: bool) {
    split(true);
    let slots: Vec<Vec<u8>> = (0..3u64)
        .map(|i| {
            let mut v = vec![0u8; SLOT - 24];
            bytes_at(&mut v, i as u32, 0);
            let mut a = resident(T_VOLINFO, i as u16, &[], &v);
            if fault {
                let t = [T_OID, T_VOLNAME, T_VOLINFO, T_VOLNAME];
                put32(&mut a, 0, t[i as usize + choose(4, i, 2) as usize]);
            } else {
                bytes_at(&mut a[..4], 4, 4 * i);
            }
            let n = byte(5, i) as u32;
            assume(n as usize <= v.len());
            put32(&mut a, 16, n);
            a
        })
        .collect();
    let other = record(512, 1, &[&resident(T_VOLNAME, 0, &[], b"W\0R\0O\0N\0G\0"), &resident(T_VOLINFO, 0, &[], &[0xff; 12])]);
    let rec = record(512, 1, &[&slots[0], &slots[1], &slots[2]]);
    let vol = volume(512, &[&other, &other, &rec, &other, &other]);
    let mut d = Failing { d: Disk::new(vol), armed: false, n: 0, ops: 0, failed: false };
    let ntfs = Ntfs::new(&mut d).unwrap();
    if fault {
        d.n = choose(6, 0, 12) as u64 + 1;
        d.armed = true;
    }
    // the first attribute of either type; None: there is none; Some(None): something else is wrong before it
    let find = |ty: u32| {
        for (i, a) in slots.iter().enumerate() {
            let t = le32(a, 0);
            if t == 0xffff_ffff {
                return None;
            }
            if t == ty {
                return Some(Some(i));
            }
            if t & 15 != 0 || t == 0 || t > 0x100 {
                return Some(None);
            }
        }
        None
    };
    let pos = |i: usize| (record_pos(512, 3) + FIRST + SLOT * i + 24) as u64;
    if choose(6, 1, 2) == 0 {
        let r = ntfs.volume_info(&mut d);
        if d.failed {
            reach("fault in the volume information");
            check(matches!(&r, Err(NtfsError::Io(e)) if e.kind() == io::ErrorKind::PermissionDenied), "the fault is reported");
            return;
        }
        match (r, find(T_VOLINFO)) {
            (Ok(v), Some(Some(i))) => {
                reach("volume information");
                let a = &slots[i];
                check(le32(a, 16) >= 12, "volume information which is too small was accepted");
                check(v.major_version() == a[24 + 8] && v.minor_version() == a[24 + 9], "version");
                check(v.flags().bits() == le16(a, 24 + 10) & 0xc03f, "flags");
            }
            (Err(NtfsError::AttributeNotFound { .. }), None) => reach("no volume information"),
            (Err(NtfsError::UnsupportedAttributeType { .. }), Some(None)) => (),
            (Err(NtfsError::InvalidStructuredValueSize { position, .. }), Some(Some(i))) => {
                reach("volume information refused");
                check(le32(&slots[i], 16) < 12 && position.value().map_or(0, |p| p.get()) == pos(i), "volume information was refused");
            }
            _ => check(false, "volume information"),
        }
    } else {
        let r = ntfs.volume_name(&mut d);
        if d.failed {
            reach("fault in the label");
            check(matches!(&r, Some(Err(NtfsError::Io(e))) if e.kind() == io::ErrorKind::PermissionDenied), "the fault is reported");
            return;
        }
        match (r, find(T_VOLNAME)) {
            (Some(Ok(v)), Some(Some(i))) => {
                reach("label");
                let a = &slots[i];
                let n = le32(a, 16) as usize;
                check(v.name_length() == n && v.name().0.len() == n, "length of the label");
                let j = byte(6, 2) as usize;
                if j < n && v.name().0.len() == n {
                    check(v.name().0[j] == a[24 + j], "label");
                }
            }
            (None, None) => reach("no label"),
            (Some(Err(NtfsError::UnsupportedAttributeType { .. })), Some(None)) => (),
            // a label has a character
            (Some(Err(NtfsError::InvalidStructuredValueSize { .. })), Some(Some(i))) => check(le32(&slots[i], 16) < 2, "the label was refused"),
            _ => check(false, "label"),
        }
    }
}

/// Record 3 is damaged, or not on the volume.
fn damaged() {
    split(true);
    let mut rec = record(512, 1, &[&resident(T_VOLNAME, 0, &[], b"A\0"), &resident(T_VOLINFO, 0, &[], &[3; 12])]);
    bytes_at(&mut rec[..4], 0, 0);
    bytes_at(&mut rec[510..512], 0, 4);
    let ok = &rec[..4] == b"FILE" && le16(&rec, 510) == 0x7e57;
    let n = choose(0, 6, 3) as usize;
    let other = record(512, 1, &[]);
    let mut recs: Vec<&[u8]> = vec![&other; 3];
    recs[2] = &rec;
    recs.truncate(n + 1);
    let there = n == 2;
    let mut d = Disk::new(volume(512, &recs));
    let ntfs = Ntfs::new(&mut d).unwrap();
    match ntfs.volume_info(&mut d) {
        Ok(v) => {
            reach("intact");
            check(ok && there && v.major_version() == 3, "volume information");
        }
        Err(NtfsError::AttributeNotFound { .. }) => check(false, "volume information"),
        Err(_) => check(!(ok && there), "volume information was not found"),
    }
    match ntfs.volume_name(&mut d) {
        Some(Ok(v)) => check(ok && there && v.name().0 == b"A\0", "label"),
        Some(Err(_)) => {
            reach("damaged");
            check(!(ok && there), "the label was refused");
        }
        None => check(false, "a damaged record does not mean that there is no label"),
    }
}

crate::entries! {
    n27_info => info(false);
    n27_fault => info(true);
    n27_damaged => damaged();
}
