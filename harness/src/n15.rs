use crate::disk::*;
use crate::index::*;
use crate::model::*;
use crate::rt::*;
use ntfs::structured_values::NtfsIndexAllocation;
use ntfs::types::Vcn;
use ntfs::{Ntfs, NtfsError};

/// Do the sizes in the header of the index record in the first `len` bytes of `r` fit?
fn sizes_fit(r: &[u8], len: u64) -> bool {
    let start = le32(r, 24) as u64;
    let used = le32(r, 28) as u64;
    let alloc = le32(r, 32) as u64;
    start <= used && used <= alloc && alloc + 24 <= len
}

/// Any VCN in an index allocation of `n` extents; records of `size` bytes in clusters of `spc` sectors.
fn fetch(n: usize, most: u8, holes: u32, wide: bool, spc: u8, size: usize) {
    split(true);
    let cluster = 512 * spc as u64;
    let mut m = Model::symbolic(0, n, most, holes, wide);
    m.cluster = cluster;
    for e in &m.ext {
        assume(e.lcn.map_or(true, |l| l >= 16));
    }
    let a = nonresident(T_ALLOC, 0, &I30, 0, m.size, &m.pairs(0, n));
    let mut img = boot((-9i8) as u8);
    img[0x40] = if spc == 1 { 1 } else { (-10i8) as u8 };
    img[13] = spc;
    img.resize(2 * cluster as usize, 0);
    let rs = if spc == 1 { 512 } else { 1024 };
    let mft = nonresident(T_DATA, 0, &[], 0, 2 * rs as u64, &[0x11, 2, 2, 0]);
    img.extend_from_slice(&record(rs, 1, &[&mft]));
    img.extend_from_slice(&record(rs, 3, &[&a]));
    // the record asked for
    let vcn = if wide { u64_(1, 0) as i64 } else { byte(1, 0) as i8 as i64 };
    let mut rec = index_record(size, 0, &entry(b"abc", true, None), false);
    bytes_at(&mut rec[0..4], 2, 0);
    bytes_at(&mut rec[16..24], 2, 8);
    let mut parts = Vec::new();
    let mut there = false;
    if vcn >= 0 && (vcn as u64) < 1 << 32 {
        let off = vcn as u64 * cluster;
        if off + size as u64 <= m.len() {
            there = true;
            let step = (size as u64).min(cluster);
            let mut o = 0;
            while o < size as u64 {
                match m.at(off + o) {
                    Some(p) => parts.push((p, o as usize, step as usize)),
                    None => there = false,
                }
                o += step;
            }
        }
    }
    let mut ok = &rec[0..4] == b"INDX" && le64(&rec, 16) == vcn as u64;
    let first = parts.first().map_or(0, |p| p.0);
    let mut d = MftDisk { img, rec, parts, pos: 0 };
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let ia = a.structured_value::<_, NtfsIndexAllocation>(&mut d).unwrap();
    ok &= there;
    for i in 0..2 {
        match ia.record_from_vcn(&mut d, size as u32, Vcn::from(vcn)) {
            Ok(r) => {
                reach("index record");
                check(ok, "something which is not the index record was accepted");
                check(r.vcn().value() == vcn, "number of the index record");
                let e = r.entries::<RawIndex>().unwrap().next().unwrap().unwrap();
                check(e.index_entry_length() == 24, "entry");
                check(e.position().value().map_or(0, |p| p.get()) == first + 64, "position of the entry");
            }
            Err(_) => {
                reach("index record refused");
                check(!ok, if i == 0 { "an index record was not found" } else { "an index record was not found again" });
            }
        }
    }
}

/// Any header, and any declared size of the records in an index allocation of 1024 bytes.
fn header() {
    split(true);
    const SIZES: [u32; 13] = [0, 24, 39, 40, 43, 47, 64, 511, 512, 513, 1024, 1025, 1 << 20];
    let size = SIZES[choose(1, 0, SIZES.len() as u8) as usize];
    let mut rec = index_record(1024, 0, &entry(b"abc", true, None), false);
    let n = choose(1, 1, 4) as u16;
    put16(&mut rec, 6, n);
    for (o, n) in [(0usize, 4usize), (16, 8), (24, 4), (28, 4), (32, 4), (36, 1)] {
        bytes_at(&mut rec[o..o + n], 0, o as u64);
    }
    let (vol, pos) = directory(512, &index_root(512, &entry(&[], true, Some(0)), true), &[rec.clone()]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().nth(1).unwrap().unwrap();
    let ia = a.structured_value::<_, NtfsIndexAllocation>(&mut d).unwrap();
    // as read: in the middle of a record, the sector number of its first sector may be torn off
    let fits = size >= 40 && size <= 1024 && n >= 1 && 40 + 2 * n as u32 <= size && (n as u32 - 1) * 512 <= size;
    let ok = fits && &rec[0..4] == b"INDX" && sizes_fit(&rec, size as u64);
    let vcn = le64(&rec, 16);
    if size < 4096 {
        alloc_limit(4096);
    }
    match ia.record_from_vcn(&mut d, size, Vcn::from(0)) {
        Ok(r) => {
            reach("record accepted");
            check(ok && vcn == 0, "an invalid index record was accepted");
            check(r.has_subnodes() == (rec[36] & 1 != 0), "subnode flag");
            check(r.index_allocated_size() == le32(&rec, 32), "allocated size");
            check(r.index_data_size() == le32(&rec, 28), "used size");
        }
        Err(e) => {
            reach("record refused");
            check(!(ok && vcn == 0), "a valid index record was refused");
            if let NtfsError::VcnMismatchInIndexAllocation { expected, actual, .. } = e {
                reach("wrong number");
                check(ok && expected.value() == 0 && actual.value() as u64 == vcn, "the error names the numbers");
            }
            if let NtfsError::InvalidIndexSignature { position, expected, actual } = e {
                check(expected == b"INDX" && actual == rec[0..4], "the error names the signatures");
                check(position.value().map_or(0, |p| p.get()) == pos, "the error names the position");
            }
        }
    }
}

/// All records of an allocation of `size` bytes, any signature and numbers.
fn records() {
    split(true);
    let mut recs = Vec::new();
    let mut all = Vec::new();
    for i in 0..3u64 {
        let mut r = index_record(512, i, &entry(&[i as u8], true, None), false);
        r[0] = byte(0, 16 * i);
        bytes_at(&mut r[16..24], 0, 16 * i + 8);
        all.push((r[0] == b'I', le64(&r, 16)));
        recs.push(r);
    }
    let (vol, pos) = directory(512, &index_root(512, &entry(&[], true, Some(0)), true), &recs);
    // the size of the value
    let size = u16_(1, 0) as u64;
    assume(size <= 1536);
    let mut vol = vol;
    let at = record_pos(512, 1);
    let o = 56 + le32(&vol, at + 60) as usize;
    put64(&mut vol, at + o + 48, size);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().nth(1).unwrap().unwrap();
    let ia = a.structured_value::<_, NtfsIndexAllocation>(&mut d).unwrap();
    let mut it = ia.records(512);
    for i in 0..3u64 {
        let (sig, vcn) = all[i as usize];
        match it.next(&mut d) {
            None => {
                reach("end of the records");
                check(i * 512 >= size, "the records ended too early");
                check(it.next(&mut d).is_none(), "the end is final");
                return;
            }
            Some(Err(_)) => {
                reach("a record was refused");
                check(!sig || i * 512 < size && (i + 1) * 512 > size, "a valid record was refused");
                return;
            }
            Some(Ok(r)) => {
                reach("a record");
                check(sig && (i + 1) * 512 <= size, "something which is not a record was reported");
                check(r.vcn().value() as u64 == vcn, "number of a record");
                let e = r.entries::<RawIndex>().unwrap().next().unwrap().unwrap();
                check(e.position().value().map_or(0, |p| p.get()) == pos + i * 512 + 64, "position of the entry");
            }
        }
    }
    check(it.next(&mut d).is_none(), "the records end");
}

crate::entries! {
    n15_header => header();
    n15_records => records();
    n15_one => fetch(1, 4, 0, true, 1, 1024);
    n15_two => fetch(2, 3, 0, false, 1, 1024);
    n15_hole => fetch(3, 2, 0b010, false, 1, 512);
    n15_clusters => fetch(2, 2, 0, false, 2, 2048);
    n15_three => fetch(3, 3, 0, false, 1, 2048); // deep
}
