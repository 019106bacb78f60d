use crate::disk::*;
use crate::rt::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::{Ntfs, NtfsReadSeek};

const RS: usize = 512;
const NAMES: [&[u16]; 2] = [&[], &[0x41]];

struct Stored {
    record: u64,
    ty: u32,
    instance: u16,
    pos: u64,
    nonres: bool,
    len: u64,
}

struct Entry {
    ty: u32,
    name: usize,
    vcn: u64,
    record: u64,
    instance: u16,
}

/// Attributes of a record: types among data and object id, any instances.
fn attributes(arr: u32, record_number: u64, n: u64, lead: usize, out: &mut Vec<Stored>) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut o = lead;
    for i in 0..n {
        // in the other records, the kinds alternate
        let nonres = if arr == 2 { choose(arr, i, 2) == 0 } else { (arr as u64 + i) % 2 == 0 };
        let instance = u16_(arr, 16 + 2 * i);
        let ty = if nonres { T_DATA } else { T_OID };
        let len = 16 + i;
        let a = if nonres { nonresident(ty, instance, &[], 0, len, &[0x11, 1, 40 + i as u8, 0]) } else { resident(ty, instance, &[], &vec![7; len as usize]) };
        out.push(Stored { record: record_number, ty, instance, pos: (record_pos(RS, record_number as usize) + o) as u64, nonres, len });
        o += a.len();
        v.push(a);
    }
    v
}

/// `n` list entries of any type, instance and lowest VCN in one of `records` records (0: the base record, 3: none),
/// over `base` attributes in the base record and `ext` ones in the other records.
fn flat(n: u64, records: u8, names: u8, base: u64, ext: u64, in_clusters: bool) {
    split(true);
    let mut stored = Vec::new();
    let mut entries = Vec::new();
    let mut list = Vec::new();
    for i in 0..n {
        let e = Entry {
            ty: if choose(1, i, 2) == 0 { T_DATA } else { T_OID },
            name: if names > 1 { choose(1, 8 + i, names) as usize } else { 0 },
            vcn: u64_(1, 32 + 8 * i),
            record: match choose(1, 16 + i, records) {
                3 => 9,
                r => 1 + r as u64,
            },
            instance: u16_(1, 96 + 2 * i),
        };
        let mut b = vec![0u8; 32];
        put32(&mut b, 0, e.ty);
        put16(&mut b, 4, 32);
        b[6] = NAMES[e.name].len() as u8;
        b[7] = 26;
        put64(&mut b, 8, e.vcn);
        put64(&mut b, 16, e.record | 1 << 48);
        put16(&mut b, 24, e.instance);
        if e.name == 1 {
            put16(&mut b, 26, 0x41);
        }
        list.extend_from_slice(&b);
        entries.push(e);
    }
    let list_attr = if in_clusters { nonresident(T_LIST, 0xffff, &[], 0, list.len() as u64, &[0x11, 1, 30, 0]) } else { resident(T_LIST, 0xffff, &[], &list) };
    let mut b = vec![list_attr];
    b.extend(attributes(2, 1, base, 56 + b[0].len(), &mut stored));
    let x = attributes(3, 2, ext, 56, &mut stored);
    let y = attributes(4, 3, ext, 56, &mut stored);
    let make = |v: &[Vec<u8>]| {
        let refs: Vec<&[u8]> = v.iter().map(|a| a.as_slice()).collect();
        record(RS, 1, &refs)
    };
    let mut vol = volume(RS, &[&make(&b), &make(&x), &make(&y)]);
    vol.resize(30 * 512, 0);
    vol.extend_from_slice(&list);
    vol.resize(31 * 512, 0);

    // what the list describes: the attributes in other records; None: it is not there
    let mut want: Vec<Option<usize>> = Vec::new();
    let mut further = vec![false; entries.len()];
    let mut start = 0;
    for (i, e) in entries.iter().enumerate() {
        let f = &entries[start];
        further[i] = i > 0 && e.vcn != 0 && e.ty == f.ty && e.name == f.name;
        if further[i] {
            continue;
        }
        start = i;
        if e.record != 1 {
            want.push(stored.iter().position(|s| s.record == e.record && s.ty == e.ty && s.instance == e.instance));
        }
    }
    // the attributes in the base record, except for further parts of a split value
    for (k, s) in stored.iter().enumerate() {
        let e = entries.iter().position(|e| e.record == 1 && e.ty == s.ty && e.instance == s.instance);
        if s.record == 1 && !(s.nonres && e.map_or(false, |e| further[e])) {
            want.push(Some(k));
        }
    }

    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let mut it = f.attributes();
    for w in want {
        match (it.next(&mut d), w) {
            (Some(Ok(item)), Some(k)) => {
                let s = &stored[k];
                if s.record == 1 {
                    reach("attribute of the base record");
                } else {
                    reach("attribute of another record");
                }
                let a = item.to_attribute().unwrap();
                check(a.position().value().map_or(0, |p| p.get()) == s.pos, "the attribute which the list names is reported");
                check(a.instance() == s.instance && a.is_resident() != s.nonres && a.value_length() == s.len, "contents of the attribute");
                // its value can be opened if all its parts are there
                if s.nonres {
                    if let Ok(v) = a.value(&mut d) {
                        check(v.len() == s.len, "length of the value");
                    }
                } else {
                    check(matches!(a.value(&mut d), Ok(NtfsAttributeValue::Resident(_))), "a resident value");
                }
            }
            (Some(Err(_)), None) => reach("missing attribute reported"),
            (Some(Ok(_)), None) => check(false, "an attribute was invented"),
            (Some(Err(_)), Some(_)) => check(false, "an attribute which is there was refused"),
            (None, _) => check(false, "an attribute was dropped"),
        }
    }
    reach("end of the attributes");
    check(it.next(&mut d).is_none(), "no attribute is reported twice");
    check(it.next(&mut d).is_none(), "the end is final");
}

crate::entries! {
    n09_two => flat(2, 4, 2, 1, 2, false);
    n09_three => flat(3, 2, 1, 1, 1, false);
    n09_nonresident => flat(2, 4, 1, 1, 1, true);
    n09_base => flat(2, 1, 2, 2, 0, false);
    n09_wide => flat(3, 2, 1, 2, 1, false); // deep
    n09_parts => flat(4, 2, 1, 1, 1, false); // deep
}
