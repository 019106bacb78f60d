use crate::disk::*;
use crate::index::*;
use crate::rt::*;
use ntfs::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
use ntfs::types::Vcn;
use ntfs::{Ntfs, NtfsError, NtfsIndex, NtfsIndexEntry, NtfsIndexEntryFlags, NtfsIndexNodeEntries};

/// Checks the entry at offset `o` of the node in `b`, which is stored at volume position `pos`.
fn accessors(e: &NtfsIndexEntry<RawIndex>, b: &[u8], o: usize, pos: u64, all: bool) {
    let len = le16(b, o + 8) as usize;
    let flags = b[o + 12];
    let last = flags & 2 != 0;
    check(e.index_entry_length() as usize == len, "entry length");
    check(e.key_length() == le16(b, o + 10), "key length");
    check(e.flags() == NtfsIndexEntryFlags::from_bits_truncate(flags) && e.flags().bits() == flags & 3, "flags");
    check(e.position().value().map_or(0, |p| p.get()) == pos + o as u64, "position of the entry");
    if !all {
        return;
    }
    let kl = le16(b, o + 10) as usize;
    match e.key() {
        None => check(kl == 0 || last, "a key is missing"),
        Some(r) => {
            check(kl != 0 && !last, "a key which is not there");
            match r {
                Ok(k) => {
                    reach("key");
                    check(16 + kl <= len, "a key beyond its entry");
                    check(k.len == kl && k.pos == pos + o as u64 + 16, "place of the key");
                    if k.j < kl && 16 + kl <= len {
                        check(k.byte == b[o + 16 + k.j], "bytes of the key");
                    }
                }
                Err(_) => {
                    reach("key does not fit");
                    check(16 + kl > len, "a key within the entry was refused");
                }
            }
        }
    }
    match e.subnode_vcn() {
        None => check(flags & 1 == 0, "a subnode is missing"),
        Some(r) => {
            check(flags & 1 != 0, "a subnode which is not there");
            match r {
                Ok(v) => {
                    reach("subnode");
                    check(len >= 24, "a subnode beyond its entry");
                    if len >= 24 {
                        check(v.value() == le64(b, o + len - 8) as i64, "number of the subnode");
                    }
                }
                Err(_) => check(len < 24, "a subnode within the entry was refused"),
            }
        }
    }
    let (dof, dl) = (le16(b, o) as usize, le16(b, o + 2) as usize);
    match e.data() {
        None => check(dof == 0 || dl == 0, "data is missing"),
        Some(r) => {
            check(dof != 0 && dl != 0, "data which is not there");
            match r {
                Ok(k) => {
                    reach("data");
                    check(dof + dl <= len, "data beyond its entry");
                    check(k.len == dl && k.pos == pos + (o + dof) as u64, "place of the data");
                    if k.j < dl && dof + dl <= len {
                        check(k.byte == b[o + dof + k.j], "bytes of the data");
                    }
                }
                Err(_) => check(dof + dl > len, "data within the entry was refused"),
            }
        }
    }
}

/// The entries in `b[o..end]`, as reported by `it`.
fn walk(mut it: NtfsIndexNodeEntries<RawIndex>, b: &[u8], mut o: usize, end: usize, pos: u64, steps: usize, all: bool) {
    let mut last = false;
    for i in 0..steps {
        let left = if last { 0 } else { end - o };
        let ok = left >= 16 && {
            let l = le16(b, o + 8) as usize;
            l >= 16 && l <= left
        };
        match it.next() {
            None => {
                reach("end of the node");
                check(left == 0, "the entries ended too early");
                check(it.next().is_none(), "the end is final");
                return;
            }
            Some(Err(_)) => {
                reach("malformed entry");
                check(left != 0 && !ok, "a well-formed entry was refused");
                check(!matches!(it.next(), Some(Ok(_))), "no entry after a malformed one");
                return;
            }
            Some(Ok(e)) => {
                reach("entry");
                check(ok, "something which is not an entry was reported");
                accessors(&e, b, o, pos, all);
                last = b[o + 12] & 2 != 0;
                o += le16(b, o + 8) as usize;
                if i + 1 < steps {
                    // other lengths are explored with a single step
                    assume(o % 8 == 0);
                    o = concretize(o as u64) as usize;
                }
            }
        }
    }
}

/// An index root of up to `n` bytes, any content.
fn root(n: usize, steps: usize, from: Option<u32>, all: bool) {
    split(true);
    let mut b = vec![0u8; n];
    bytes(&mut b, 0);
    if let Some(x) = from {
        put32(&mut b, 16, x);
    }
    let len = u16_(1, 0) as usize;
    assume(len <= n);
    let mut a = resident(T_ROOT, 0, &[], &b);
    put32(&mut a, 16, len as u32);
    let vol = volume(512, &[&record(512, 1, &[&a, &resident(T_DATA, 1, &[], &[0x41; 40])])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let start = 16 + le32(&b, 16) as u64;
    let end = 16 + le32(&b, 20) as u64;
    let valid = len >= 32 && start <= end && start < len as u64 && end <= len as u64;
    let pos = record_pos(512, 1) as u64 + 56 + 24;
    match a.resident_structured_value::<NtfsIndexRoot>() {
        Err(_) => {
            reach("index root refused");
            check(!valid, "a valid index root was refused");
        }
        Ok(r) => {
            reach("index root");
            check(valid, "an invalid index root was accepted");
            check(r.index_record_size() == le32(&b, 8), "index record size");
            check(r.index_data_size() == le32(&b, 20), "used size");
            check(r.index_allocated_size() == le32(&b, 24), "allocated size");
            check(r.is_large_index() == (b[28] & 1 != 0), "large index flag");
            check(r.position().value().map_or(0, |p| p.get()) == pos, "position of the index root");
            walk(r.entries::<RawIndex>().unwrap(), &b, start as usize, end as usize, pos, steps, all);
        }
    }
}

/// An index record with any content after its first 20 bytes, or (`area`) only from that offset on.
fn index_rec(area: usize, steps: usize, all: bool) {
    split(true);
    let mut r = index_record(512, 0, &[], false);
    if area == 0 {
        bytes_at(&mut r[24..40], 0, 24);
        bytes_at(&mut r[44..510], 0, 44);
    } else {
        put32(&mut r, 24, area as u32 - 24);
        put32(&mut r, 28, u16_(0, 28) as u32);
        put32(&mut r, 32, u16_(0, 32) as u32);
        bytes_at(&mut r[area..510], 0, area as u64);
    }
    let (vol, pos) = directory(512, &index_root(512, &entry(&[], true, Some(0)), true), &[r.clone()]);
    r[510] = 0;
    r[511] = 0;
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().nth(1).unwrap().unwrap();
    let ia = a.structured_value::<_, NtfsIndexAllocation>(&mut d).unwrap();
    let start = 24 + le32(&r, 24) as u64;
    let end = 24 + le32(&r, 28) as u64;
    let alloc = 24 + le32(&r, 32) as u64;
    let valid = start <= end && end <= alloc && alloc <= 512;
    match ia.record_from_vcn(&mut d, 512, Vcn::from(0)) {
        Err(_) => {
            reach("index record refused");
            check(!valid, "a valid index record was refused");
        }
        Ok(x) => {
            reach("index record");
            check(valid, "an invalid index record was accepted");
            check(x.index_data_size() == le32(&r, 28) && x.index_allocated_size() == le32(&r, 32), "sizes");
            check(x.has_subnodes() == (r[36] & 1 != 0), "subnode flag");
            check(x.vcn().value() == 0, "record number");
            walk(x.entries::<RawIndex>().unwrap(), &r, start as usize, end as usize, pos, steps, all);
        }
    }
}

/// The same through an index (without index records if `root`): entries with a subnode lead nowhere.
fn listing(n: usize, root: bool, steps: usize) {
    split(true);
    let mut b = vec![0u8; n];
    bytes(&mut b, 0);
    let (vol, o, end, pos);
    let size = byte(1, 0) as usize;
    assume(size <= n);
    let mut whole;
    if root {
        whole = index_root(512, &b, false);
        put32(&mut whole, 20, 16 + size as u32);
        o = 32;
        vol = directory(512, &whole, &[]).0;
        pos = record_pos(512, 1) as u64 + 56 + 32;
    } else {
        whole = index_record(512, 0, &b, false);
        put32(&mut whole, 28, 40 + size as u32);
        o = 64;
        let (v, p) = directory(512, &index_root(512, &entry(&[], true, Some(0)), true), &[whole.clone()]);
        vol = v;
        pos = p;
        whole[510] = 0;
        whole[511] = 0;
    }
    end = o + size;
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let mut attrs = f.attributes();
    let r = attrs.next(&mut d).unwrap().unwrap();
    let al = attrs.next(&mut d).map(|a| a.unwrap());
    let index = NtfsIndex::<RawIndex>::new(r, al).unwrap();
    let mut it = index.entries();
    let mut o = o;
    for _ in 0..steps {
        let left = end - o;
        let ok = left >= 16 && {
            let l = le16(&whole, o + 8) as usize;
            l >= 16 && l <= left
        };
        let flags = if left >= 16 { whole[o + 12] } else { 0 };
        match it.next(&mut d) {
            None => {
                reach("end of the listing");
                check(left == 0 || ok && flags & 3 == 2, "the listing ended too early");
                check(it.next(&mut d).is_none(), "the end is final");
                return;
            }
            Some(Err(_)) => {
                reach("listing failed");
                check(left != 0 && (!ok || flags & 1 != 0), "a well-formed entry was refused");
                return;
            }
            Some(Ok(e)) => {
                reach("listed entry");
                check(ok && flags & 3 == 0, "something which is not an entry was listed");
                accessors(&e, &whole, o, pos, false);
                o += le16(&whole, o + 8) as usize;
                assume(o % 8 == 0);
                o = concretize(o as u64) as usize;
            }
        }
    }
}

/// A large index root needs an index allocation.
fn missing() {
    let flags = byte(0, 0);
    let mut root = index_root(512, &entry(&[], true, None), false);
    root[28] = flags;
    let vol = directory(512, &root, &[]).0;
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let r = f.attributes().next(&mut d).unwrap().unwrap();
    match NtfsIndex::<RawIndex>::new(r, None) {
        Ok(_) => check(flags & 1 == 0, "a large index without index allocation was accepted"),
        Err(e) => check(flags & 1 != 0 && matches!(e, NtfsError::MissingIndexAllocation { .. }), "a small index was refused"),
    }
}

crate::entries! {
    n12_root_header => root(72, 1, None, false);
    n12_root_one => root(72, 1, Some(16), true);
    n12_root => root(104, 3, Some(16), false);
    n12_record_header => index_rec(0, 1, false);
    n12_record_one => index_rec(440, 1, true);
    n12_record => index_rec(424, 3, false);
    n12_list_root => listing(72, true, 3);
    n12_list_record => listing(64, false, 3);
    n12_missing => missing();
    n12_root_long => root(120, 4, Some(16), true); // deep
    n12_record_long => index_rec(400, 4, false); // deep
    n12_list_long => listing(80, false, 4); // deep
}
