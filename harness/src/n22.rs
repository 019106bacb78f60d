use crate::disk::*;
use crate::index::*;
use crate::model::*;
use crate::rt::*;
use crate::split::*;
use ntfs::structured_values::NtfsFileName;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::{Ntfs, NtfsError, NtfsReadSeek};
use std::io::{ErrorKind, SeekFrom};

const EXTENTS: [(u64, Option<u64>); 3] = [(1, Some(40)), (1, None), (1, Some(30))];
const LEN: u64 = 1535;

/// Which fault of the reader explains this error?
fn explained(e: &NtfsError, seen: u32) -> bool {
    match e {
        NtfsError::Io(e) => match e.kind() {
            ErrorKind::PermissionDenied => seen & 1 << OTHER != 0,
            ErrorKind::Interrupted => seen & 1 << INTERRUPTED != 0,
            ErrorKind::UnexpectedEof => seen & 1 << EOF != 0,
            _ => false,
        },
        _ => false,
    }
}

/// Reads and seeks of a value of three extents, each of which may meet faults.
fn value(ops: u64, budget: u64, parts: bool) {
    split(true);
    let m = Model::fixed(&EXTENTS, LEN);
    let img;
    let s;
    if parts {
        let x = Split::of(m, &[1, 1, 1], true);
        img = x.img.clone();
        s = x;
    } else {
        let a = nonresident(T_DATA, 0, &[], 0, LEN, &m.pairs(0, 3));
        img = volume(512, &[&record(512, 1, &[&a])]);
        s = Split { m, parts: vec![3], img: Vec::new(), base: true };
    }
    let mut d = TagDisk::with_image(img);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let item = s.item(&f, &mut d);
    let a = item.to_attribute().unwrap();
    let mut v = a.value(&mut d).unwrap();
    let p = u16_(1, 0) as u64;
    assume(p < 1600);
    check(matches!(v.seek(&mut d, SeekFrom::Start(p)), Ok(x) if x == p), "seek");
    let mut pos = p;
    d.arm(6, 5, budget);
    for i in 0..ops {
        d.seen = 0;
        if choose(1, 16 + i, 2) == 1 {
            let to = u16_(1, 32 + 2 * i) as u64;
            assume(to < 1600);
            match v.seek(&mut d, SeekFrom::Start(to)) {
                Ok(x) => {
                    check(x == to, "a seek returns the position asked for");
                    pos = to;
                }
                Err(e) => {
                    reach("seek failed");
                    check(explained(&e, d.seen), "the reader's error is passed on by a seek");
                }
            }
        } else {
            let mut buf = [0xaau8; 6];
            let probe = byte(1, 64 + i) as usize;
            assume(probe < 6);
            d.watch(&buf, probe);
            let want = s.m.len().saturating_sub(pos).min(6);
            match v.read(&mut d, &mut buf) {
                Ok(got) => {
                    reach("read");
                    check(got as u64 <= want, "no more bytes are read than there are");
                    check(got > 0 || want == 0, "a read which could go on does not report the end");
                    check(got as u64 == want || d.seen & 1 << SHORT != 0, "all bytes are read unless the reader is short of them");
                    check(d.seen & 1 << OTHER == 0 && d.seen & 1 << EOF == 0, "a fault of the reader is not swallowed");
                    if probe < got {
                        s.m.check_byte(&d, buf[probe], pos + probe as u64);
                    } else {
                        check(buf[probe] == 0xaa, "other bytes are left alone");
                    }
                    pos += got as u64;
                }
                Err(e) => {
                    reach("read failed");
                    check(explained(&e, d.seen), "the reader's error is passed on by a read");
                }
            }
        }
        check(v.stream_position() == pos, "stream position");
    }
}

/// `read_exact` goes on after short and interrupted reads.
fn exact(budget: u64) {
    split(true);
    let m = Model::fixed(&EXTENTS, LEN);
    let a = nonresident(T_DATA, 0, &[], 0, LEN, &m.pairs(0, 3));
    let mut d = TagDisk::with_image(volume(512, &[&record(512, 1, &[&a])]));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let mut v = a.value(&mut d).unwrap();
    let p = u16_(1, 0) as u64;
    assume(p < 1600);
    v.seek(&mut d, SeekFrom::Start(p)).unwrap();
    d.arm(6, 5, budget);
    let mut buf = [0xaau8; 6];
    let probe = byte(1, 64) as usize;
    assume(probe < 6);
    d.watch(&buf, probe);
    match v.read_exact(&mut d, &mut buf) {
        Ok(()) => {
            reach("complete");
            if d.seen & 1 << INTERRUPTED != 0 {
                reach("complete after an interruption");
            }
            check(p + 6 <= LEN, "no more bytes are read than there are");
            check(d.seen & (1 << OTHER | 1 << EOF) == 0, "a fault of the reader is not swallowed");
            m.check_byte(&d, buf[probe], p + probe as u64);
            check(v.stream_position() == p + 6, "stream position");
        }
        Err(NtfsError::Io(e)) => {
            reach("incomplete");
            let end = p + 6 > LEN && e.kind() == ErrorKind::UnexpectedEof;
            check(end || d.seen & (1 << OTHER | 1 << EOF) != 0, "reading succeeds in spite of short and interrupted reads");
            check(end || explained(&NtfsError::Io(e), d.seen), "the reader's error is passed on");
        }
        Err(_) => check(false, "kind of the error"),
    }
}

/// Was the outcome of something which reads whole structures right? They are the same as without faults, or fail.
fn whole<T>(r: Result<T, NtfsError>, d: &TagDisk) -> Option<T> {
    match r {
        Ok(x) => {
            check(d.seen & (1 << OTHER | 1 << EOF) == 0, "a fault of the reader is not swallowed");
            Some(x)
        }
        Err(e) => {
            reach("structure failed");
            check(d.seen & (1 << OTHER | 1 << EOF) != 0, "structures are read in spite of short and interrupted reads");
            check(explained(&e, d.seen), "the reader's error is passed on");
            None
        }
    }
}

/// Opening a volume and a file.
fn open(budget: u64) {
    split(true);
    let rec = record(1024, 1, &[&resident(T_DATA, 3, &[], b"abc")]);
    let mut d = TagDisk::with_image(volume(1024, &[&rec]));
    d.arm(6, 5, budget);
    let Some(ntfs) = whole(Ntfs::new(&mut d), &d) else { return };
    check(ntfs.cluster_size() == 512 && ntfs.file_record_size() == 1024 && ntfs.size() == 512 << 40, "geometry");
    let Some(f) = whole(ntfs.file(&mut d, 1), &d) else { return };
    reach("file opened");
    let a = f.attributes_raw().next().unwrap().unwrap();
    check(f.position().value().map_or(0, |p| p.get()) == record_pos(1024, 1) as u64 && a.instance() == 3, "the record asked for");
    match a.value(&mut d) {
        Ok(NtfsAttributeValue::Resident(v)) => check(v.data() == b"abc", "contents of the record"),
        _ => check(false, "kind of the value"),
    }
}

/// A file name in a cluster of its own, and an attribute list in another.
fn structures(budget: u64) {
    split(true);
    let mut name = vec![0u8; 70];
    put64(&mut name, 8, 77);
    name[64] = 2;
    put(&mut name, 66, b"x\0y\0");
    let mut list = vec![0u8; 32];
    put32(&mut list, 0, T_OID);
    put16(&mut list, 4, 32);
    list[7] = 26;
    put64(&mut list, 16, 2);
    put16(&mut list, 24, 5);
    let lcn = ((MFT_POS + 3 * 512) / 512) as u64;
    let a = nonresident(T_LIST, 0, &[], 0, 32, &[0x11, 1, lcn as u8, 0]);
    let b = nonresident(T_NAME, 1, &[], 0, 70, &[0x11, 1, lcn as u8 + 1, 0]);
    let mut v = volume(512, &[&record(512, 1, &[&a, &b]), &record(512, 1, &[&resident(T_OID, 5, &[], &[9; 16])])]);
    v.extend_from_slice(&list);
    v.resize((lcn as usize + 1) * 512, 0);
    v.extend_from_slice(&name);
    v.resize((lcn as usize + 2) * 512, 0);
    let mut d = TagDisk::with_image(v);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    d.arm(6, 5, budget);
    let mut it = f.attributes();
    let Some(i) = whole(it.next(&mut d).unwrap(), &d) else { return };
    let a = i.to_attribute().unwrap();
    check(a.instance() == 5 && a.position().value().map_or(0, |p| p.get()) == record_pos(512, 2) as u64 + 56, "attribute of another record");
    let Some(i) = whole(it.next(&mut d).unwrap(), &d) else { return };
    let a = i.to_attribute().unwrap();
    check(a.instance() == 1, "attribute of the base record");
    let Some(n) = whole(a.structured_value::<_, NtfsFileName>(&mut d), &d) else { return };
    reach("file name");
    check(n.creation_time().nt_timestamp() == 77 && n.name().0 == b"x\0y\0", "the file name");
}

/// A listing and a search in a directory of two levels.
fn directories(budget: u64, search: bool) {
    split(true);
    let e = |k: u8, sub: Option<u64>| entry(&[k], false, sub);
    let leaf = |k: u8| [e(k, None), entry(&[], true, None)].concat();
    let root = index_root(512, &[e(2, Some(0)), entry(&[], true, Some(1))].concat(), true);
    let (v, _) = directory(512, &root, &[index_record(512, 0, &leaf(1), false), index_record(512, 1, &leaf(3), false)]);
    assume(byte(PROBE, 0) == 0);
    let mut d = TagDisk::with_image(v);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let mut attrs = f.attributes();
    let r = attrs.next(&mut d).unwrap().unwrap();
    let al = attrs.next(&mut d).map(|a| a.unwrap());
    let index = ntfs::NtfsIndex::<RawIndex>::new(r, al).unwrap();
    d.arm(6, 5, budget);
    if search {
        let x = byte(20, 0);
        let mut finder = index.finder();
        match finder.find(&mut d, |k| x.cmp(&k.byte)) {
            None => check(x == 0 || x > 3, "a key which is there was not found"),
            Some(r) => {
                if let Some(e) = whole(r, &d) {
                    reach("found");
                    check(matches!(e.key(), Some(Ok(k)) if k.byte == x), "another key was found");
                }
            }
        }
        return;
    }
    let mut it = index.entries();
    for k in 1..4 {
        match it.next(&mut d) {
            None => check(false, "the listing ended early"),
            Some(r) => {
                let Some(e) = whole(r, &d) else { return };
                check(matches!(e.key(), Some(Ok(x)) if x.byte == k), "the next entry is listed");
            }
        }
    }
    reach("listed");
    check(it.next(&mut d).is_none(), "the listing ends");
}

/// The upcase table; after a failure, it can be loaded again.
fn upcase() {
    split(true);
    let lcn = UPCASE_LCN;
    let (mut v, _) = volume_with_upcase(&record(512, 1, &[&nonresident(T_DATA, 0, &[], 0, 131072, &[0x12, 0, 1, lcn, 0])]));
    for i in 0..65536u32 {
        v.extend_from_slice(&(i as u16).to_le_bytes());
    }
    let mut d = TagDisk::with_image(v);
    let mut ntfs = Ntfs::new(&mut d).unwrap();
    d.arm(6, 5, 1);
    let r = ntfs.read_upcase_table(&mut d);
    if whole(r, &d).is_none() {
        reach("again");
        d.budget = 0;
        check(ntfs.read_upcase_table(&mut d).is_ok(), "the upcase table can be loaded after a failure");
    }
    use ntfs::UpcaseOrd;
    use nt_string::u16strle::U16StrLe;
    let c = byte(7, 0) & 15;
    let name = [0x40 + c, 0];
    check(U16StrLe(&name).upcase_cmp(&ntfs, &"D") == (0x40 + c).cmp(&0x44), "comparison");
}

crate::entries! {
    n22_value => value(2, 1, false);
    n22_parts => value(2, 1, true);
    n22_exact => exact(2);
    n22_open => open(1);
    n22_structures => structures(1);
    n22_listing => directories(1, false);
    n22_search => directories(1, true);
    n22_upcase => upcase();
    n22_value_two => value(2, 2, false); // deep
    n22_exact_three => exact(3); // deep
    n22_parts_two => value(2, 2, true); // deep
    n22_open_two => open(2); // deep
    n22_structures_two => structures(2); // deep
    n22_listing_two => directories(2, false); // deep
}
