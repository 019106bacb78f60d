use crate::disk::*;
use crate::model::*;
use crate::rt::*;
use ntfs::{Ntfs, NtfsReadSeek};
use std::io::SeekFrom;

/// Seek to any position, optionally read up to 2 bytes there, then seek in any way; then read a byte.
fn seeks(n: usize, most: u8, holes: u32, first_read: bool) {
    split(true);
    let m = Model::symbolic(0, n, most, holes, true);
    let a = nonresident(T_DATA, 0, &[], 0, m.size, &m.pairs(0, n));
    let vol = volume(512, &[&record(512, 1, &[&a])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let mut v = a.value(&mut d).unwrap();
    let mut t = TagDisk::new();
    let mut pos = u64_(1, 100);
    check(matches!(v.seek(&mut t, SeekFrom::Start(pos)), Ok(x) if x == pos), "seek from the start");
    if first_read {
        match v.read(&mut t, &mut [0; 2]) {
            Ok(got) => {
                check(got as u64 <= m.len().saturating_sub(pos), "no byte beyond the end is read");
                pos = pos.wrapping_add(got as u64);
            }
            Err(_) => check(false, "a read succeeds"),
        }
    }
    check(v.stream_position() == pos, "stream position");
    let (s, to) = any_seek(1, 0, pos, m.size);
    match (v.seek(&mut t, s), to) {
        (Ok(p), Some(to)) => {
            check(p == to, "a seek returns the position asked for");
            pos = to;
        }
        (Err(_), None) => reach("impossible seek refused"),
        (Ok(_), None) => check(false, "an impossible seek succeeded"),
        (Err(_), Some(_)) => check(false, "a possible seek was refused"),
    }
    check(v.stream_position() == pos, "stream position after a seek");
    let mut buf = [0xaau8];
    t.watch(&buf, 0);
    match v.read(&mut t, &mut buf) {
        Ok(got) => {
            m.check_read(&t, &buf, got, pos, 0);
            pos = pos.wrapping_add(got as u64);
        }
        Err(_) => check(false, "a read after a seek succeeds"),
    }
    check(v.stream_position() == pos, "stream position after a read");
}

crate::entries! {
    n08_one => seeks(1, 2, 0, true);
    n08_two => seeks(2, 2, 0, false);
    n08_holes => seeks(2, 2, 0b01, false);
    n08_three => seeks(3, 3, 0b010, true); // deep
}
