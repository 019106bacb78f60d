use crate::disk::*;
use crate::model::*;
use crate::rt::*;
use ntfs::{Ntfs, NtfsReadSeek};
use std::io::SeekFrom;

/// A value of `n` extents; read up to `N` bytes from any position, then up to 600 more.
fn read<const N: usize>(n: usize, most: u8, holes: u32, wide: bool) {
    split(true);
    let m = Model::symbolic(0, n, most, holes, wide);
    let a = nonresident(T_DATA, 0, &[], 0, m.size, &m.pairs(0, n));
    let vol = volume(512, &[&record(512, 1, &[&a])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let mut v = a.value(&mut d).unwrap();
    check(v.len() == m.size, "length of the value");
    let mut t = TagDisk::new();
    let p = offset(1, 0, wide);
    let len = u16_(1, 8) as usize;
    let probe = u16_(1, 10) as usize;
    assume(len <= N && probe < len);
    check(matches!(v.seek(&mut t, SeekFrom::Start(p)), Ok(x) if x == p), "seek");
    let mut buf = vec![0xaau8; N];
    t.watch(&buf, probe);
    let r = v.read(&mut t, &mut buf[..len]);
    let Ok(got) = r else {
        check(false, "a read succeeds");
        return;
    };
    m.check_read(&t, &buf[..len], got, p, probe);
    check(v.stream_position() == p.wrapping_add(got as u64), "position after a read");
    // continue
    let mut buf = [0xaau8; 8];
    t.watch(&buf, probe % 8);
    let Ok(more) = v.read(&mut t, &mut buf) else {
        check(false, "a further read succeeds");
        return;
    };
    if got > 0 {
        m.check_read(&t, &buf, more, p + got as u64, probe % 8);
    } else {
        check(more == 0, "nothing follows the end");
    }
}

crate::entries! {
    n07_wide => read::<20>(1, 2, 0, true);
    n07_wide_hole => read::<20>(1, 2, 1, true);
    n07_one => read::<520>(1, 2, 0, false);
    n07_two => read::<520>(2, 2, 0, false);
    n07_three => read::<520>(3, 2, 0b010, false);
    n07_three_a => read::<520>(3, 2, 0b101, false); // deep
}
