use crate::disk::*;
use crate::index::*;
use crate::rt::*;
use ntfs::structured_values::NtfsFileNamespace;
use ntfs::{Ntfs, NtfsAttributeItem, NtfsError, NtfsFile};

const UNKNOWN: u32 = 0x18;

/// The type of a slot: one of `t`, or of no known kind, or the end marker.
fn kind(arr: u32, i: u64, t: &[u32]) -> u32 {
    let c = choose(arr, i, t.len() as u8 + 2) as usize;
    if c < t.len() {
        t[c]
    } else if c == t.len() {
        UNKNOWN
    } else {
        0xffff_ffff
    }
}

/// The first slot of type `ty` which `also` accepts; Some(None): one of no known kind comes first.
fn first(slots: &[(u32, usize)], ty: u32, also: impl Fn(usize) -> bool) -> Option<Option<usize>> {
    for (i, &(t, _)) in slots.iter().enumerate() {
        if t == 0xffff_ffff {
            return None;
        }
        if t == UNKNOWN {
            return Some(None);
        }
        if t == ty && also(i) {
            return Some(Some(i));
        }
    }
    None
}

fn open(flags: u16, attrs: &[Vec<u8>], upcase: bool) -> (Ntfs, Disk, Vec<(u32, usize)>) {
    let refs: Vec<&[u8]> = attrs.iter().map(|a| a.as_slice()).collect();
    let rec = record(1024, flags, &refs);
    let mut at = Vec::new();
    let mut o = 56;
    for a in attrs {
        at.push((le32(a, 0), record_pos(1024, 1) + o));
        o += a.len();
    }
    if !upcase {
        let mut d = Disk::new(volume(1024, &[&rec]));
        return (Ntfs::new(&mut d).unwrap(), d, at);
    }
    // an upcase table which maps a..z and some more
    let empty = record(1024, 1, &[]);
    let mut recs: Vec<&[u8]> = vec![&rec];
    recs.resize(9, &empty);
    let lcn = (MFT_POS + 11 * 1024) / 512;
    let up = record(1024, 1, &[&nonresident(T_DATA, 0, &[], 0, 131072, &[0x12, 0, 1, lcn as u8, 0])]);
    recs.push(&up);
    let mut v = volume(1024, &recs);
    check(v.len() == lcn * 512, "geometry");
    for i in 0..65536u32 {
        v.extend_from_slice(&upper(i as u16).to_le_bytes());
    }
    let mut d = Disk::new(v);
    let mut n = Ntfs::new(&mut d).unwrap();
    n.read_upcase_table(&mut d).unwrap();
    (n, d, at)
}
fn upper(c: u16) -> u16 {
    match c {
        0x61..=0x7a | 0xe0..=0xfe => c - 32,
        _ => c,
    }
}

fn character(arr: u32, i: u64, wide: bool) -> u8 {
    let c = byte(arr, i);
    assume(if wide { c >= 0xc0 } else { c >= 0x40 && c < 0x80 });
    c
}

fn item_at(i: &NtfsAttributeItem) -> u64 {
    i.to_attribute().unwrap().position().value().map_or(0, |p| p.get())
}

/// `n` attributes with names of up to `most` characters (ASCII, or, if `wide`, Latin-1), and a stream of any
/// such name asked for.
fn data(n: u64, most: u8, wide: bool) {
    split(true);
    let mut attrs = Vec::new();
    let mut names = Vec::new();
    for i in 0..n {
        let t = kind(0, i, &[T_DATA, T_OID]);
        let len = if t == T_DATA { choose(0, 8 + i, most + 1) as usize } else { 0 };
        let mut name = vec![0u16; len];
        for (k, c) in name.iter_mut().enumerate() {
            *c = character(1, 8 * i + k as u64, wide) as u16;
        }
        attrs.push(resident(t, i as u16, &name, &[i as u8; 8]));
        names.push(name);
    }
    let (ntfs, mut d, slots) = open(1, &attrs, true);
    let f = ntfs.file(&mut d, 1).unwrap();
    // the name asked for: letters and characters of Latin-1
    let len = choose(2, 0, most + 1) as usize;
    let mut want = String::new();
    for k in 0..len {
        want.push(character(2, 1 + k as u64, wide) as char);
    }
    let want16: Vec<u16> = want.chars().map(|c| upper(c as u16)).collect();
    let expect = first(&slots, T_DATA, |i| {
        if names[i].len() != want16.len() {
            return false;
        }
        let mut same = true;
        for k in 0..want16.len() {
            same &= upper(names[i][k]) == want16[k];
        }
        same
    });
    match (f.data(&mut d, &want), expect) {
        (None, None) => reach("no such stream"),
        (Some(Err(_)), Some(None)) => reach("unknown attribute"),
        (Some(Ok(a)), Some(Some(i))) => {
            if len == 0 {
                reach("unnamed stream");
            } else {
                reach("named stream");
            }
            check(item_at(&a) == slots[i].1 as u64, "the first stream of this name is selected");
        }
        _ => check(false, "selection of a stream"),
    }
}

fn namespace(x: u8) -> Option<NtfsFileNamespace> {
    match x {
        0 => Some(NtfsFileNamespace::Posix),
        1 => Some(NtfsFileNamespace::Win32),
        2 => Some(NtfsFileNamespace::Dos),
        3 => Some(NtfsFileNamespace::Win32AndDos),
        _ => None,
    }
}

/// Three file names with any parent and namespace; any namespace and parent asked for.
fn name(n: u64) {
    split(true);
    let mut attrs = Vec::new();
    let mut values = Vec::new();
    for i in 0..n {
        let t = kind(0, i, &[T_NAME, T_OID]);
        let mut v = vec![0u8; 68];
        bytes_at(&mut v[..16], 1, 16 * i);
        v[64] = 1;
        v[65] = byte(0, 8 + i);
        v[66] = b'A' + i as u8;
        attrs.push(resident(t, i as u16, &[], &v));
        values.push(v);
    }
    let (ntfs, mut d, slots) = open(1, &attrs, false);
    let f = ntfs.file(&mut d, 1).unwrap();
    let ns = choose(2, 0, 5);
    let parent = if choose(2, 1, 2) == 1 { Some(u64_(2, 8)) } else { None };
    // a file name of an unknown namespace is an error
    let mut bad = false;
    let expect = first(&slots, T_NAME, |i| {
        let v = &values[i];
        v[65] > 3 || (ns == 4 || v[65] == ns) && parent.map_or(true, |p| p == le64(v, 0) & 0xffff_ffff_ffff)
    });
    if let Some(Some(i)) = expect {
        bad = values[i][65] > 3;
    }
    match (f.name(&mut d, namespace(ns), parent), expect) {
        (None, None) => reach("no such name"),
        (Some(Err(_)), Some(None)) => reach("unknown attribute before the name"),
        (Some(Err(_)), Some(Some(_))) => check(bad, "a name was refused"),
        (Some(Ok(x)), Some(Some(i))) => {
            reach("name");
            check(!bad && x.name().0[0] == values[i][66], "the first name which matches is selected");
            check(x.creation_time().nt_timestamp() == le64(&values[i], 8), "contents of the name");
        }
        _ => check(false, "selection of a name"),
    }
}

/// Standard information among others.
fn info() {
    split(true);
    let mut attrs = Vec::new();
    for i in 0..3u64 {
        let mut v = vec![0u8; 48];
        bytes_at(&mut v, 1, 64 * i);
        attrs.push(resident(kind(0, i, &[T_STD, T_OID, T_NAME]), i as u16, &[], &v));
    }
    let (ntfs, mut d, slots) = open(1, &attrs, false);
    let f = ntfs.file(&mut d, 1).unwrap();
    match (f.info(), first(&slots, T_STD, |_| true)) {
        (Err(NtfsError::AttributeNotFound { position, ty }), None) => {
            reach("no standard information");
            check(position.value() == f.position().value() && ty as u32 == T_STD, "the error names the attribute");
        }
        (Err(NtfsError::UnsupportedAttributeType { .. }), Some(None)) => reach("unknown attribute before it"),
        (Ok(x), Some(Some(i))) => {
            reach("standard information");
            check(x.creation_time().nt_timestamp() == le64(&attrs[i], 24), "the first standard information is selected");
        }
        _ => check(false, "selection of the standard information"),
    }
}

/// Four attributes which are index roots and allocations of several names; any flags of the file.
fn index(n: u64) {
    split(true);
    let flags = u16_(0, 100);
    let mut attrs = Vec::new();
    let mut names = Vec::new();
    let mut large = Vec::new();
    for i in 0..n {
        let t = kind(0, i, &[T_ROOT, T_ALLOC]);
        let mut name = I30.to_vec();
        // as long, shorter, or none; any last character
        match choose(0, 8 + i, 3) {
            0 => name[3] = u16_(0, 16 + 2 * i),
            1 => name.truncate(3),
            _ => name.truncate(0),
        }
        let l = choose(0, 40 + i, 2) == 1;
        let key = vec![b'A' + i as u8; 66];
        let e = [entry(&key, false, None), entry(&[], true, None)].concat();
        attrs.push(if t == T_ALLOC { nonresident(t, i as u16, &name, 0, 512, &[0x11, 1, 20, 0]) } else { resident(t, i as u16, &name, &index_root(512, &e, l)) });
        names.push(name);
        large.push(l);
    }
    let (ntfs, mut d, slots) = open(flags, &attrs, false);
    let f: NtfsFile = ntfs.file(&mut d, 1).unwrap();
    let named = |i: usize| names[i].len() == 4 && names[i][3] == I30[3];
    let root = first(&slots, T_ROOT, named);
    let alloc = first(&slots, T_ALLOC, named);
    match f.directory_index(&mut d) {
        Err(NtfsError::NotADirectory { position }) => {
            reach("not a directory");
            check(flags & 2 == 0 && position.value() == f.position().value(), "a directory was refused");
        }
        Err(NtfsError::AttributeNotFound { ty, .. }) => {
            reach("attribute not found");
            check(flags & 2 != 0, "a file which is not a directory has no index");
            match root {
                None => check(ty as u32 == T_ROOT, "the index root is missing"),
                Some(Some(i)) => check(large[i] && alloc.is_none() && ty as u32 == T_ALLOC, "the index allocation is missing"),
                _ => check(false, "unknown attribute"),
            }
        }
        Err(_) => {
            reach("unknown attribute in a directory");
            check(flags & 2 != 0, "a file which is not a directory has no index");
            check(matches!(root, Some(None)) || matches!(alloc, Some(None)), "a directory index was refused");
        }
        Ok(x) => {
            reach("directory index");
            check(flags & 2 != 0, "a file which is not a directory has no index");
            let Some(Some(i)) = root else {
                check(false, "an index which is not there");
                return;
            };
            check(!large[i] || matches!(alloc, Some(Some(_))), "a large index has an index allocation");
            let mut it = x.entries();
            match it.next(&mut d) {
                Some(Ok(e)) => {
                    let want = (slots[i].1 + 24 + 8 * (1 + (names[i].len() > 4) as usize) - 8 + 8 + 32) as u64;
                    check(e.position().value().map_or(0, |p| p.get()) == want, "the first index root of the name is selected");
                }
                _ => check(false, "the entries of the index"),
            }
        }
    }
}

/// The root directory is record 5.
fn root_directory() {
    let seq = u16_(0, 0);
    let mut recs = Vec::new();
    for i in 0..7u16 {
        let mut r = record(512, 3, &[]);
        put16(&mut r, 16, seq ^ i);
        recs.push(r);
    }
    let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
    let mut d = Disk::new(volume(512, &refs));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.root_directory(&mut d).unwrap();
    check(f.file_record_number() == 5 && f.sequence_number() == seq ^ 4, "the root directory is record 5");
    check(f.position().value().map_or(0, |p| p.get()) == record_pos(512, 5) as u64, "position of the root directory");
}

crate::entries! {
    n26_data => data(3, 1, false);
    n26_data_wide => data(2, 1, true);
    n26_data_two => data(2, 2, false);
    n26_name => name(3);
    n26_info => info();
    n26_index => index(3);
    n26_root_directory => root_directory();
    n26_data_four => data(3, 2, false); // deep
    n26_index_four => index(4); // deep
}
