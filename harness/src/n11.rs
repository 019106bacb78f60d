use crate::disk::*;
use crate::rt::*;
use ntfs::structured_values::{NtfsAttributeList, NtfsAttributeListEntries};
use ntfs::{Ntfs, NtfsError};

/// Compares the entries with those stored in `b[..len]` from offset `o` on.
fn entries<T: std::io::Read + std::io::Seek>(d: &mut T, mut it: NtfsAttributeListEntries, b: &[u8], len: usize, mut o: usize, steps: usize) {
    for _ in 0..steps {
        let left = len - o;
        let mut ok = left >= 26;
        let (mut el, mut nl, mut no) = (0, 0, 0);
        if ok {
            el = le16(b, o + 4) as usize;
            nl = 2 * b[o + 6] as usize;
            no = b[o + 7] as usize;
            if nl == 0 {
                no = 26;
            }
            ok = no >= 26 && no + nl <= el && el <= left;
        }
        match it.next(d) {
            None => {
                reach("end of the list");
                check(left == 0, "iteration ended before the end of the list");
                check(it.next(d).is_none(), "the end is final");
                return;
            }
            Some(Err(_)) => {
                reach("malformed entry");
                check(!ok, "a well-formed entry was refused");
                check(!matches!(it.next(d), Some(Ok(_))), "no entry after a malformed one");
                return;
            }
            Some(Ok(e)) => {
                reach("entry");
                check(left > 0, "an entry after the end of the list");
                check(ok, "a malformed entry was accepted");
                let raw = le32(b, o);
                match e.ty() {
                    Ok(t) => check(t as u32 == raw, "attribute type"),
                    Err(NtfsError::UnsupportedAttributeType { actual, .. }) => check(actual == raw, "unknown attribute type"),
                    Err(_) => check(false, "attribute type"),
                }
                check(e.list_entry_length() as usize == el, "entry length");
                check(e.lowest_vcn().value() == le64(b, o + 8) as i64, "lowest cluster");
                let r = le64(b, o + 16);
                check(e.base_file_reference().file_record_number() == r << 16 >> 16, "record number");
                check(e.base_file_reference().sequence_number() == (r >> 48) as u16, "sequence number");
                check(e.instance() == le16(b, o + 24), "instance");
                check(e.name_length() == nl, "name length");
                let name = e.name().0;
                check(name.len() == nl, "length of the name");
                let j = byte(5, 0) as usize;
                if j < nl {
                    reach("name");
                    check(name[j] == b[o + no + j], "name");
                }
                o += el;
            }
        }
    }
}

/// Resident lists of up to `n` bytes.
fn resident_list(n: usize, steps: usize) {
    split(true);
    let mut b = vec![0u8; n];
    bytes(&mut b, 0);
    let len = byte(1, 0) as usize;
    assume(len <= n);
    let mut a = resident(T_LIST, 0, &[], &b);
    put32(&mut a, 16, len as u32);
    let vol = volume(512, &[&record(512, 1, &[&a, &resident(T_DATA, 1, &[], &[0x41; 40])])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let list = a.structured_value::<_, NtfsAttributeList>(&mut d).unwrap();
    entries(&mut d, list.entries(), &b, len, 0, steps);
}

/// A list stored in two clusters which are not adjacent. Its first entry has `first` bytes, the
/// `n` bytes after it are symbolic, as is its size.
fn nonresident_list(first: usize, n: usize, steps: usize, els: (u8, u8), most: u8) {
    let mut b = vec![0u8; 1024];
    put32(&mut b, 0, T_DATA);
    put16(&mut b, 4, first as u16);
    bytes(&mut b[first..first + n], 0);
    // sizes which matter for one entry are explored one by one
    let el = els.0 + choose(1, 1, els.1);
    let chars = choose(1, 2, most);
    assume(b[first + 4] == el && b[first + 5] == 0 && b[first + 6] == chars);
    put16(&mut b, first + 4, el as u16);
    b[first + 6] = chars;
    let more = choose(1, 0, n as u8 + 1) as usize;
    let len = first + more;
    let a = nonresident(T_LIST, 0, &[], 0, len as u64, &[0x11, 1, 20, 0x11, 1, 2, 0]);
    let mut vol = volume(512, &[&record(512, 1, &[&a])]);
    vol.resize(20 * 512, 0);
    vol.extend_from_slice(&b[..512]);
    vol.resize(22 * 512, 0);
    vol.extend_from_slice(&b[512..]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let list = a.structured_value::<_, NtfsAttributeList>(&mut d).unwrap();
    let mut it = list.entries();
    check(matches!(it.next(&mut d), Some(Ok(_))), "first entry");
    entries(&mut d, it, &b, len, first, steps);
}

crate::entries! {
    n11_resident => resident_list(64, 3);
    n11_nonresident => nonresident_list(32, 40, 2, (24, 12), 3);
    n11_across => nonresident_list(490, 40, 2, (24, 12), 3);
    n11_more => nonresident_list(490, 48, 2, (0, 50), 4); // deep
    n11_long => resident_list(120, 5); // deep
}
