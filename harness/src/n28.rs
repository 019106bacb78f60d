use crate::disk::*;
use crate::index::*;
use crate::model::*;
use crate::rt::*;
use crate::split::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::structured_values::{NtfsAttributeList, NtfsIndexAllocation, NtfsIndexRoot};
use ntfs::types::{NtfsPosition, Vcn};
use ntfs::{Ntfs, NtfsReadSeek};

fn plain(p: NtfsPosition) -> Option<u64> {
    p.value().map(|p| p.get())
}

/// Is `at` what may be reported at offset `pos` of the value? `part`: a part begins there, which may not be known yet.
fn reported(m: &Model, pos: u64, at: NtfsPosition, part: bool) {
    let len = m.len();
    let want = m.at(pos);
    match plain(at) {
        Some(x) => {
            reach("position");
            let behind = pos == len && pos > 0 && m.at(pos.wrapping_sub(1)) == Some(x.wrapping_sub(1));
            check(want == Some(x) || behind, "a byte is stored where it is said to be");
        }
        None => {
            reach("no position");
            check(pos >= len || want.is_none() || want == Some(0) || part, "the position of a stored byte is reported");
        }
    }
}

/// Positions reported for a value of `n` extents after seeks, reads and both.
fn value(n: usize, most: u8, holes: u32, wide: bool, parts: Option<&[usize]>, first: bool) {
    split(true);
    let s = match parts {
        Some(p) => Split::new(p, most, holes, true),
        None => {
            let m = Model::symbolic(0, n, most, holes, wide);
            let a = nonresident(T_DATA, 0, &[], 0, m.size, &m.pairs(0, n));
            let img = volume(512, &[&record(512, 1, &[&a])]);
            for e in &m.ext {
                // what follows the image
                assume(e.lcn.map_or(true, |l| l >= 16));
            }
            Split { m, parts: vec![n], img, base: true }
        }
    };
    let mut d = TagDisk::with_image(s.img.clone());
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let item = s.item(&f, &mut d);
    let a = item.to_attribute().unwrap();
    let mut v = a.value(&mut d).unwrap();
    // offsets at which the second and further parts begin
    let mut begin = Vec::new();
    if parts.is_some() {
        let mut t = 0;
        let mut i = 0;
        for &k in &s.parts {
            begin.push(t);
            for e in &s.m.ext[i..i + k] {
                t += e.clusters * s.m.cluster;
            }
            i += k;
        }
    }
    let is_begin = |p: u64| begin.iter().any(|&b| b == p);
    reported(&s.m, 0, v.data_position(), is_begin(0));
    let mut pos = 0;
    for i in 0..2 {
        if i == 0 && !first {
            continue;
        }
        let (to, want) = any_seek(1, 32 * i, pos, s.m.size);
        if let (Ok(_), Some(x)) = (v.seek(&mut d, to), want) {
            pos = x;
        }
        reported(&s.m, pos, v.data_position(), is_begin(pos));
        let mut buf = [0xaau8; 3];
        let n = 1 + choose(2, i, 3) as usize;
        match v.read(&mut d, &mut buf[..n]) {
            Ok(got) => pos += got as u64,
            Err(_) => check(false, "a read succeeds"),
        }
        reported(&s.m, pos, v.data_position(), is_begin(pos));
    }
}

const EXTENTS: [(u64, Option<u64>); 3] = [(1, Some(40)), (1, None), (1, Some(30))];

/// The position stays right when the reader fails.
fn faults(parts: bool) {
    split(true);
    let m = Model::fixed(&EXTENTS, 1535);
    let s = if parts {
        Split::of(m, &[1, 1, 1], true)
    } else {
        let a = nonresident(T_DATA, 0, &[], 0, 1535, &m.pairs(0, 3));
        let img = volume(512, &[&record(512, 1, &[&a])]);
        Split { m, parts: vec![3], img, base: true }
    };
    let mut d = TagDisk::with_image(s.img.clone());
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let item = s.item(&f, &mut d);
    let a = item.to_attribute().unwrap();
    let mut v = a.value(&mut d).unwrap();
    d.arm(6, 5, 1);
    for i in 0..3 {
        if choose(1, 16 + i, 2) == 1 {
            let to = u16_(1, 32 + 2 * i) as u64;
            assume(to < 1600);
            let _ = v.seek(&mut d, std::io::SeekFrom::Start(to));
        } else {
            let mut buf = [0xaau8; 6];
            let _ = v.read(&mut d, &mut buf);
        }
        let pos = v.stream_position();
        reported(&s.m, pos, v.data_position(), parts && (pos % 512 == 0 || d.seen != 0));
    }
}

/// The runs of a value, each read and sought on its own.
fn runs(n: usize, holes: u32) {
    split(true);
    let m = Model::symbolic(0, n, 3, holes, true);
    let pairs = m.pairs(0, n);
    let a = nonresident(T_DATA, 0, &[], 0, m.size, &pairs);
    let vol = volume(512, &[&record(512, 1, &[&a])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let NtfsAttributeValue::NonResident(v) = a.value(&mut d).unwrap() else { return check(false, "kind of the value") };
    let mut it = v.data_runs();
    let mut o = (record_pos(512, 1) + 56 + 64) as u64;
    let mut t = TagDisk::new();
    for e in &m.ext {
        check(plain(it.position()) == Some(o), "position of a data run's header");
        o += if e.lcn.is_some() { 7 } else { 2 };
        let Some(Ok(mut r)) = it.next() else { return check(false, "data run") };
        let len = e.clusters * m.cluster;
        check(r.allocated_size() == len, "size of a data run");
        let (to, want) = any_seek(1, 0, 0, len);
        let mut pos = 0;
        if let (Ok(_), Some(x)) = (r.seek(&mut t, to), want) {
            pos = x;
        }
        for _ in 0..2 {
            check(r.stream_position() == pos, "position in a data run");
            let at = e.lcn.map(|l| (l * m.cluster).wrapping_add(pos));
            match plain(r.data_position()) {
                Some(x) => {
                    reach("position in a data run");
                    check(pos <= len && at == Some(x), "a byte of a data run is stored where it is said to be");
                }
                None => check(pos >= len || at.is_none() || at == Some(0), "the position of a byte of a data run is reported"),
            }
            let mut buf = [0u8; 5];
            t.watch(&buf, 4);
            match r.read(&mut t, &mut buf) {
                Ok(got) => {
                    check(got as u64 == len.saturating_sub(pos).min(5), "bytes read from a data run");
                    if got == 5 {
                        check(t.from == at.map(|x| x.wrapping_add(4)) || e.lcn.is_none(), "bytes read from a data run are those at its position");
                    }
                    pos += got as u64;
                }
                Err(_) => check(false, "a read of a data run succeeds"),
            }
            t.from = None;
        }
    }
}

/// A resident value anywhere in a record that is anywhere on the volume.
fn resident_value() {
    split(true);
    let (mut d, at, o) = anywhere(&|o| {
        let mut v = [0u8; 24];
        bytes(&mut v, 5);
        let a = resident(T_DATA, 1, &[0x41], &v);
        let mut r = record(512, 1, &[&resident(T_OID, 0, &[], &vec![7; o]), &a]);
        // the value begins and ends anywhere in the attribute
        let start = 56 + 24 + o;
        let vo = 32 + byte(1, 1) % 8;
        let vl = byte(1, 2) % 16;
        r[start + 20] = vo;
        r[start + 16] = vl;
        r
    });
    let ntfs = Ntfs::new(&mut d).unwrap();
    check(plain(ntfs.mft_position()) == Some(1024), "position of the MFT");
    let f = ntfs.file(&mut d, 1).unwrap();
    check(plain(f.position()) == Some(at), "position of the record");
    let mut it = f.attributes_raw();
    let a = it.next().unwrap().unwrap();
    check(plain(a.position()) == Some(at + 56), "position of the first attribute");
    let a = it.next().unwrap().unwrap();
    let start = at + 56 + 24 + o as u64;
    check(plain(a.position()) == Some(start), "position of an attribute");
    let mut v = a.value(&mut d).unwrap();
    let vo = start + (32 + byte(1, 1) % 8) as u64;
    let len = (byte(1, 2) % 16) as u64;
    let mut pos = 0;
    for i in 0..3 {
        match plain(v.data_position()) {
            Some(x) => {
                reach("position in a resident value");
                check(pos <= len && x == vo + pos, "a byte of a resident value is stored where it is said to be");
            }
            None => check(pos >= len, "the position of a byte of a resident value is reported"),
        }
        if i == 0 {
            let (to, want) = any_seek(2, 0, pos, len);
            if let (Ok(_), Some(x)) = (v.seek(&mut d, to), want) {
                pos = x;
            }
        } else {
            match v.read(&mut d, &mut [0; 3]) {
                Ok(got) => pos += got as u64,
                Err(_) => check(false, "a read succeeds"),
            }
        }
    }
}

/// A volume whose file record 1 is in a cluster of its own, and contains attributes up to some offset.
fn anywhere(rec: &dyn Fn(usize) -> Vec<u8>) -> (MftDisk, u64, usize) {
    let o = 8 * choose(1, 0, 5) as usize;
    let lcn = u64_(0, 0);
    assume(lcn >= 16 && lcn < 1 << 46);
    let mut run = vec![0x11, 1, 2, 0x71, 1];
    run.extend_from_slice(&(lcn.wrapping_sub(2)).to_le_bytes()[..7]);
    run.push(0);
    let mut img = boot(1);
    img.resize(MFT_POS, 0);
    img.extend_from_slice(&record(512, 1, &[&nonresident(T_DATA, 0, &[], 0, 1024, &run)]));
    let r = rec(o);
    let at = lcn * 512;
    (MftDisk { img, rec: r, parts: vec![(at, 0, 512)], pos: 0 }, at, o)
}

/// An index root with two entries in a record that is anywhere on the volume.
fn root() {
    split(true);
    let (mut d, at, o) = anywhere(&|o| {
        let mut key = [0; 8];
        bytes(&mut key, 5);
        let mut e = entry(&key[..1 + 7 * (byte(1, 3) as usize & 1)], false, None);
        e.extend_from_slice(&entry(b"", true, None));
        record(512, 3, &[&resident(T_OID, 0, &[], &vec![7; o]), &resident(T_ROOT, 1, &I30, &index_root(4096, &e, false))])
    });
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().nth(1).unwrap().unwrap();
    let r = a.resident_structured_value::<NtfsIndexRoot>().unwrap();
    let start = at + (56 + 24 + o + 32) as u64;
    check(plain(r.position()) == Some(start), "position of the index root");
    let mut it = r.entries::<RawIndex>().unwrap();
    let e = it.next().unwrap().unwrap();
    check(plain(e.position()) == Some(start + 32), "position of the first entry");
    check(e.key().unwrap().unwrap().pos == start + 48, "position of a key");
    let e = it.next().unwrap().unwrap();
    reach("entries of an index root");
    check(plain(e.position()) == Some(start + 56), "position of the second entry");
}

/// Index records in two extents anywhere on the volume.
fn records() {
    split(true);
    let (a, b) = (u64_(0, 0), u64_(0, 8));
    assume(a >= 16 && a < 1 << 46 && b >= 16 && b < 1 << 46 && a != b);
    let mut run = vec![0x71, 1];
    run.extend_from_slice(&a.to_le_bytes()[..7]);
    run.extend_from_slice(&[0x71, 1]);
    run.extend_from_slice(&b.wrapping_sub(a).to_le_bytes()[..7]);
    run.push(0);
    let img = volume(512, &[&record(512, 3, &[&nonresident(T_ALLOC, 0, &I30, 0, 1024, &run)])]);
    let e = |k: &[u8]| [entry(k, false, None), entry(b"", true, None)].concat();
    let mut recs = index_record(512, 0, &e(b"a"), false);
    recs.extend_from_slice(&index_record(512, 1, &e(b"bcdefghij"), false));
    let mut d = MftDisk { img, rec: recs, parts: vec![(a * 512, 0, 512), (b * 512, 512, 512)], pos: 0 };
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let at = f.attributes_raw().next().unwrap().unwrap();
    let ia = at.structured_value::<_, NtfsIndexAllocation>(&mut d).unwrap();
    let vcn = choose(1, 0, 2) as usize;
    let r = ia.record_from_vcn(&mut d, 512, Vcn::from(vcn as i64)).unwrap();
    let place = [a, b][vcn] * 512 + 64;
    let mut it = r.entries::<RawIndex>().unwrap();
    let e = it.next().unwrap().unwrap();
    check(plain(e.position()) == Some(place), "position of the first entry of an index record");
    check(e.key().unwrap().unwrap().pos == place + 16, "position of a key in an index record");
    let len = e.index_entry_length() as u64;
    let e = it.next().unwrap().unwrap();
    reach("entries of an index record");
    check(plain(e.position()) == Some(place + len), "position of the second entry of an index record");
    // and through the iteration over all records
    let mut it = ia.records(512);
    for i in 0..2 {
        let r = it.next(&mut d).unwrap().unwrap();
        let mut it = r.entries::<RawIndex>().unwrap();
        let e = it.next().unwrap().unwrap();
        check(plain(e.position()) == Some([a, b][i] * 512 + 64), "position of an entry in an iteration over index records");
    }
}

/// An attribute list in the record, and one in two extents with an entry of any length before the border.
fn lists() {
    split(true);
    let le = |len: usize, instance: u16| {
        let mut e = vec![0u8; len];
        put32(&mut e, 0, T_OID);
        put16(&mut e, 4, len as u16);
        e[7] = 26;
        put64(&mut e, 16, 1);
        put16(&mut e, 24, instance);
        e
    };
    if choose(1, 4, 2) == 0 {
        let (mut d, at, o) = anywhere(&|o| {
            let l = [le(32, 0), le(40, 0), le(32, 0)].concat();
            record(512, 1, &[&resident(T_OID, 0, &[], &vec![7; o]), &resident(T_LIST, 1, &[], &l)])
        });
        let ntfs = Ntfs::new(&mut d).unwrap();
        let f = ntfs.file(&mut d, 1).unwrap();
        let a = f.attributes_raw().nth(1).unwrap().unwrap();
        let l = a.structured_value::<_, NtfsAttributeList>(&mut d).unwrap();
        let start = at + (56 + 24 + o + 24) as u64;
        check(plain(l.position()) == Some(start), "position of a resident list");
        let mut it = l.entries();
        for p in [0, 32, 72] {
            let e = it.next(&mut d).unwrap().unwrap();
            check(plain(e.position()) == Some(start + p), "position of an entry of a resident list");
            reach("entries of a resident list");
        }
    } else {
        let (a, b) = (u64_(0, 0), u64_(0, 8));
        assume(a >= 16 && a < 1 << 46 && b >= 16 && b < 1 << 46 && a != b);
        let mut run = vec![0x71, 1];
        run.extend_from_slice(&a.to_le_bytes()[..7]);
        run.extend_from_slice(&[0x71, 1]);
        run.extend_from_slice(&b.wrapping_sub(a).to_le_bytes()[..7]);
        run.push(0);
        // lengths of the first two entries; the third may be across or at or behind the border
        let n = 448 + 8 * choose(1, 5, 8) as usize;
        let mut l = [le(32, 0), le(n - 32, 0), le(40, 0), le(32, 0)].concat();
        let total = l.len();
        l.resize(1024, 0);
        let img = volume(512, &[&record(512, 1, &[&nonresident(T_LIST, 0, &[], 0, total as u64, &run)])]);
        let mut d = MftDisk { img, rec: l, parts: vec![(a * 512, 0, 512), (b * 512, 512, 512)], pos: 0 };
        let ntfs = Ntfs::new(&mut d).unwrap();
        let f = ntfs.file(&mut d, 1).unwrap();
        let at = f.attributes_raw().next().unwrap().unwrap();
        let l = at.structured_value::<_, NtfsAttributeList>(&mut d).unwrap();
        check(plain(l.position()) == Some(a * 512), "position of a list");
        let mut it = l.entries();
        for p in [0, 32, n as u64, n as u64 + 40] {
            let e = it.next(&mut d).unwrap().unwrap();
            let want = if p < 512 { a * 512 + p } else { b * 512 + p - 512 };
            check(plain(e.position()) == Some(want), "position of an entry of a list");
            reach("entries of a list");
        }
    }
}

crate::entries! {
    n28_one => value(1, 2, 0, true, None, false);
    n28_two => value(2, 2, 0, false, None, false);
    n28_hole => value(2, 2, 0b10, false, None, false);
    n28_split => value(2, 2, 0, false, Some(&[1, 1]), false);
    n28_faults => faults(false);
    n28_split_faults => faults(true);
    n28_runs => runs(2, 0b10);
    n28_resident => resident_value();
    n28_root => root();
    n28_records => records();
    n28_lists => lists();
    n28_one_more => value(1, 2, 0, true, None, true); // deep
    n28_three => value(3, 2, 0b001, false, None, true); // deep
    n28_split_three => value(3, 2, 0b010, false, Some(&[1, 2]), true); // deep
}
