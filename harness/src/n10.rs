use crate::disk::*;
use crate::model::*;
use crate::rt::*;
use crate::split::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::{Ntfs, NtfsReadSeek};
use std::io::SeekFrom;

/// A value whose extents are split over `parts`: a read of up to `N` bytes anywhere, and another after it.
fn read<const N: usize>(parts: &[usize], most: u8, holes: u32, base: bool, missing: bool) {
    split(true);
    let s = Split::new(parts, most, holes, base);
    let mut d = TagDisk::with_image(s.img.clone());
    // the last part may not be where the list says
    let mut known = s.m.len();
    let mut incomplete = false;
    if missing {
        let instance = u16_(7, 0);
        s.set_instance(&mut d.img, parts.len() - 1, instance);
        if instance != s.instance(parts.len() - 1) {
            reach("missing part");
            known = known.min(s.start_of_last());
            incomplete = true;
        }
    }
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let item = s.item(&f, &mut d);
    let a = item.to_attribute().unwrap();
    check(a.value_length() == s.m.size, "size of the value");
    let mut v = a.value(&mut d).unwrap();
    check(matches!(v, NtfsAttributeValue::AttributeListNonResident(_)), "kind of the value");
    check(v.len() == s.m.size, "length of the value");
    let p = u16_(1, 0) as u64;
    let len = u16_(1, 8) as usize;
    let probe = u16_(1, 10) as usize;
    assume(len <= N && probe < len);
    match v.seek(&mut d, SeekFrom::Start(p)) {
        Ok(x) => check(x == p, "seek"),
        Err(_) => {
            check(incomplete && p >= s.start_of_last(), "a seek within the parts succeeds");
            check(v.stream_position() == 0, "position after a failed seek");
            return;
        }
    }
    let mut buf = vec![0xaau8; N];
    d.watch(&buf, probe);
    match v.read(&mut d, &mut buf[..len]) {
        Ok(got) => {
            s.m.check_read(&d, &buf[..len], got, p, probe);
            check(p + got as u64 <= known || got == 0, "no byte of a missing part is read");
            check(v.stream_position() == p + got as u64, "position after a read");
            let mut more = [0xaau8; 8];
            d.watch(&more, probe % 8);
            match v.read(&mut d, &mut more) {
                Ok(n) => s.m.check_read(&d, &more, n, p + got as u64, probe % 8),
                Err(_) => check(p + got as u64 + 8 > known && known < s.m.len(), "a further read succeeds"),
            }
        }
        Err(_) => {
            reach("read failed");
            check(p + len as u64 > known && known < s.m.len(), "a read of parts which are there succeeds");
            check(v.stream_position() == p, "position after a failed read");
        }
    }
}

/// Two seeks (and a read between them), then a read.
fn seeks(parts: &[usize], holes: u32, base: bool, first_read: bool) {
    split(true);
    let s = Split::new(parts, 2, holes, base);
    let mut d = TagDisk::with_image(s.img.clone());
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let item = s.item(&f, &mut d);
    let a = item.to_attribute().unwrap();
    let mut v = a.value(&mut d).unwrap();
    let mut pos = u16_(1, 100) as u64;
    check(matches!(v.seek(&mut d, SeekFrom::Start(pos)), Ok(x) if x == pos), "seek from the start");
    if first_read {
        match v.read(&mut d, &mut [0; 2]) {
            Ok(got) => {
                check(got as u64 <= s.m.len().saturating_sub(pos), "no byte beyond the end is read");
                pos += got as u64;
            }
            Err(_) => check(false, "a read succeeds"),
        }
    }
    let (to, want) = any_seek(1, 0, pos, s.m.size);
    match (v.seek(&mut d, to), want) {
        (Ok(p), Some(to)) => {
            check(p == to, "a seek returns the position asked for");
            pos = to;
        }
        (Err(_), None) => reach("impossible seek refused"),
        (Ok(_), None) => check(false, "an impossible seek succeeded"),
        (Err(_), Some(_)) => check(false, "a possible seek was refused"),
    }
    check(v.stream_position() == pos, "stream position after a seek");
    let mut buf = [0xaau8];
    d.watch(&buf, 0);
    match v.read(&mut d, &mut buf) {
        Ok(got) => {
            s.m.check_read(&d, &buf, got, pos, 0);
            pos = pos.wrapping_add(got as u64);
        }
        Err(_) => check(false, "a read after a seek succeeds"),
    }
    check(v.stream_position() == pos, "stream position after a read");
}

/// One fault anywhere in a seek, a read, and the same read again if it failed.
fn fault(parts: &[usize], base: bool) {
    split(true);
    const EXTENTS: [(u64, Option<u64>); 3] = [(1, Some(40)), (1, Some(30)), (1, Some(50))];
    let s = Split::of(Model::fixed(&EXTENTS[..parts.len()], 512 * parts.len() as u64 - 1), parts, base);
    let mut d = TagDisk::with_image(s.img.clone());
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let item = s.item(&f, &mut d);
    let a = item.to_attribute().unwrap();
    let mut v = a.value(&mut d).unwrap();
    d.arm(6, 5, 1);
    let p = u16_(1, 0) as u64;
    assume(p < 2048);
    let mut pos = 0;
    for _ in 0..2 {
        match v.seek(&mut d, SeekFrom::Start(p)) {
            Ok(x) => {
                check(x == p, "seek");
                pos = p;
                break;
            }
            Err(_) => {
                reach("seek failed");
                check(d.seen & !(1 << SHORT | 1 << INTERRUPTED) != 0, "a seek fails only if the reader does");
                check(v.stream_position() == pos, "position after a failed seek");
            }
        }
    }
    check(pos == p, "a seek succeeds when repeated");
    for _ in 0..3 {
        let mut buf = [0xaau8; 4];
        let probe = byte(1, 8) as usize;
        assume(probe < 4);
        d.watch(&buf, probe);
        let seen = d.seen;
        let want = s.m.len().saturating_sub(pos).min(4);
        match v.read(&mut d, &mut buf) {
            Ok(got) => {
                reach("read");
                check(got as u64 == want || got != 0 && d.seen & 1 << SHORT != seen & 1 << SHORT, "number of bytes read");
                check(got as u64 <= want, "no more bytes are read than there are");
                if probe < got {
                    s.m.check_byte(&d, buf[probe], pos + probe as u64);
                }
                pos += got as u64;
            }
            Err(_) => {
                reach("read failed because of a fault");
                check(d.seen != seen, "a read fails only if the reader does");
            }
        }
        check(v.stream_position() == pos, "stream position");
    }
}

crate::entries! {
    n10_read => read::<20>(&[1, 1], 2, 0, true, false);
    n10_read_long => read::<520>(&[1, 1], 1, 0, false, false);
    n10_read_more => read::<20>(&[1, 2], 1, 0b010, false, false);
    n10_missing => read::<20>(&[1, 1], 1, 0, true, true);
    n10_empty_part => read::<20>(&[1, 0, 1], 1, 0, true, false);
    n10_seek => seeks(&[1, 1], 0, true, false);
    n10_seek_three => seeks(&[1, 1, 1], 0b001, false, false);
    n10_fault => fault(&[1, 1], true);
    n10_read_wide => read::<520>(&[1, 1], 2, 0, false, false); // deep
    n10_read_three => read::<520>(&[2, 1, 1], 2, 0b100, true, false); // deep
    n10_missing_three => read::<20>(&[1, 1, 1], 2, 0, false, true); // deep
    n10_seek_read => seeks(&[2, 1], 0, false, true); // deep
    n10_fault_three => fault(&[1, 1, 1], false); // deep
}
