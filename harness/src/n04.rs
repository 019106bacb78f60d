use crate::disk::*;
use crate::rt::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::{Ntfs, NtfsAttribute, NtfsError};

const N: usize = 512;

/// Is there a well-formed attribute at offset `o`? (None: none, as the end marker or the end of the record is there)
fn valid(r: &[u8], o: usize) -> Option<bool> {
    if o > N - 4 || le32(r, o) == 0xffff_ffff {
        return None;
    }
    if o > N - 16 {
        return Some(false);
    }
    let len = le32(r, o + 4);
    let min = if r[o + 8] == 0 { 24 } else { 64 };
    Some(len >= min && len as usize <= N - o)
}

/// Every accessor of the well-formed attribute at offset `o`.
fn accessors(d: &mut Disk, a: &NtfsAttribute, r: &[u8], o: usize, pos: u64, deep: bool) {
    let len = le32(r, o + 4) as usize;
    check(a.attribute_length() as usize == len, "attribute length");
    check(a.position().value().map_or(0, |p| p.get()) == pos + o as u64, "position of the attribute");
    check(a.instance() == le16(r, o + 14), "instance");
    check(a.flags().bits() == le16(r, o + 12) & 0xc001, "flags");
    let ty = le32(r, o);
    match a.ty() {
        Ok(t) => check(t as u32 == ty && ty & 15 == 0 && ty > 0 && ty <= 0x100, "type"),
        Err(NtfsError::UnsupportedAttributeType { actual, .. }) => check(actual == ty && (ty & 15 != 0 || ty == 0 || ty > 0x100), "unknown type"),
        Err(_) => check(false, "type"),
    }
    let resident = r[o + 8] == 0;
    check(a.is_resident() == resident, "residency");
    let nl = 2 * r[o + 9] as usize;
    let no = le16(r, o + 10) as usize;
    check(a.name_length() == nl, "length of the name");
    match a.name() {
        Ok(n) => {
            if nl == 0 || no == 0 {
                check(n.0.is_empty(), "no name");
            } else {
                reach("named attribute");
                check(no + nl <= len, "the name lies in the attribute");
                check(n.0.len() == nl, "name");
                let j = u16_(1, 0) as usize;
                if deep && j < nl && n.0.len() == nl {
                    check(n.0[j] == r[o + no + j], "bytes of the name");
                }
            }
        }
        Err(_) => {
            reach("name does not fit");
            check(nl > 0 && no + nl > len, "a name within the attribute is reported");
        }
    }
    if resident {
        let vl = le32(r, o + 16) as u64;
        let vo = le16(r, o + 20) as u64;
        check(a.value_length() == vl, "length of the value");
        match a.value(d) {
            Ok(NtfsAttributeValue::Resident(v)) => {
                reach("resident value");
                check(vo + vl <= len as u64, "the value lies in the attribute");
                check(v.len() == vl && v.data().len() as u64 == vl, "value");
                let j = u16_(1, 2) as usize;
                if deep && (j as u64) < vl && v.data().len() as u64 == vl {
                    check(v.data()[j] == r[o + vo as usize + j], "bytes of the value");
                }
            }
            Ok(_) => check(false, "kind of the value"),
            Err(_) => {
                reach("value does not fit");
                check(vo + vl > len as u64, "a value within the attribute is reported");
            }
        }
    } else {
        reach("non-resident attribute");
        check(a.value_length() == le64(r, o + 48), "size of a non-resident value");
    }
}

/// Walks `steps` attributes from offset `o` on, which the harness has stored in the header.
fn walk(mut r: Vec<u8>, mut o: usize, steps: usize, deep: bool) {
    split(true);
    put(&mut r, 0, b"FILE");
    put16(&mut r, 4, 40);
    put16(&mut r, 6, 2);
    put16(&mut r, 20, o as u16);
    put16(&mut r, 22, 1);
    put32(&mut r, 24, 512);
    put32(&mut r, 28, 512);
    // the last two bytes are in the array; put them where they belong for the oracle
    let (x, y) = (r[510], r[511]);
    put16(&mut r, 40, 0x1234);
    r[42] = x;
    r[43] = y;
    put16(&mut r, 510, 0x1234);
    let vol = volume(512, &[&r]);
    r[510] = x;
    r[511] = y;
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let pos = record_pos(512, 1) as u64;
    let mut it = f.attributes_raw();
    for i in 0..steps {
        let want = valid(&r, o);
        match it.next() {
            None => {
                reach("end");
                check(want.is_none(), "the walk stopped before the end");
                check(it.next().is_none(), "the end is final");
                return;
            }
            Some(Err(_)) => {
                reach("malformed attribute");
                // where the end marker is missing, this may be an error
                check(want != Some(true) && !(want.is_none() && o <= N - 4), "a well-formed attribute was refused");
                check(!matches!(it.next(), Some(Ok(_))), "nothing follows a malformed attribute");
                return;
            }
            Some(Ok(a)) => {
                reach("attribute");
                if want == Some(false) && o <= N - 16 && le32(&r, o + 4) == 23 {
                    // the header without its last, reserved byte
                    return;
                }
                check(want == Some(true), "something which is not an attribute was reported");
                if deep || i + 1 == steps {
                    accessors(&mut d, &a, &r, o, pos, deep);
                }
                o += le32(&r, o + 4) as usize;
                if i + 1 < steps {
                    // other lengths are explored with a single step
                    assume(o % 8 == 0);
                    o = concretize(o as u64) as usize;
                }
            }
        }
    }
}

fn rec(from: usize) -> Vec<u8> {
    let mut r = vec![0u8; N];
    bytes_at(&mut r[from..], 0, from as u64);
    r
}

/// One attribute anywhere.
fn anywhere(from: usize, to: usize) {
    let o = u16_(1, 10) as usize;
    assume(o >= from && o <= to);
    walk(rec(48), o, 1, false);
}

/// One attribute near the end of the record, or beyond it.
fn edge(to: usize) {
    let o = match choose(1, 10, to as u8 + 2) as usize {
        k if k < to => N - k,
        k if k == to => N,
        _ => {
            let o = u16_(1, 12) as usize;
            assume(o > N);
            o
        }
    };
    walk(rec(48), o, 1, true);
}

crate::entries! {
    n04_first => walk(rec(48), 56, 1, true);
    n04_two => walk(rec(48), 416, 2, false);
    n04_far => walk(rec(48), 300, 2, false); // deep
    n04_anywhere => anywhere(48, 440);
    n04_edge => edge(70);
    n04_three => walk(rec(48), 416, 3, false); // deep
}
