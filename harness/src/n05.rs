use crate::disk::*;
use crate::model::any_seek;
use crate::rt::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::{Ntfs, NtfsReadSeek};

/// `ops` seeks and reads of up to `N` bytes of a resident value of up to `size` bytes.
fn cursor<const N: usize>(size: usize, ops: u64) {
    split(true);
    let mut v = vec![0u8; size];
    bytes(&mut v, 0);
    let len = u16_(1, 0) as usize;
    assume(len <= size);
    let mut a = resident(T_DATA, 0, &[], &v);
    put32(&mut a, 16, len as u32);
    let vol = volume(1024, &[&record(1024, 1, &[&a, &resident(T_DATA, 1, &[0x41], &[0x55; 64])])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let mut v0 = a.value(&mut d).unwrap();
    check(matches!(v0, NtfsAttributeValue::Resident(_)), "kind of the value");
    check(v0.len() == len as u64 && v0.is_empty() == (len == 0), "length of the value");
    let mut pos = 0u64;
    for i in 0..ops {
        if choose(2, i, 2) == 0 {
            let (s, to) = any_seek(3, 16 * i, pos, len as u64);
            match (v0.seek(&mut d, s), to) {
                (Ok(p), Some(to)) => {
                    check(p == to, "a seek returns the position asked for");
                    pos = to;
                }
                (Err(_), None) => reach("impossible seek refused"),
                (Ok(_), None) => check(false, "an impossible seek succeeded"),
                (Err(_), Some(_)) => check(false, "a possible seek was refused"),
            }
        } else {
            let mut buf = [0xaau8; N];
            let n = byte(4, i) as usize;
            assume(n <= N);
            match v0.read(&mut d, &mut buf[..n]) {
                Ok(got) => {
                    let want = (len as u64).saturating_sub(pos).min(n as u64);
                    check(got as u64 == want, "number of bytes read");
                    let j = byte(5, i) as usize;
                    if j < N {
                        if (j as u64) < want {
                            reach("byte read");
                            check(buf[j] == v[pos as usize + j], "the next bytes are read");
                        } else {
                            check(buf[j] == 0xaa, "other bytes are left alone");
                        }
                    }
                    pos += want;
                }
                Err(_) => check(false, "a read of a resident value succeeds"),
            }
        }
        check(v0.stream_position() == pos, "stream position");
    }
}

crate::entries! {
    n05_three => cursor::<8>(24, 3);
    n05_two => cursor::<64>(400, 2);
    n05_four => cursor::<8>(24, 4); // deep
}
