use crate::disk::*;
use crate::index::*;
use crate::model::*;
use crate::rt::*;
use crate::split::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::{Ntfs, NtfsIndex, NtfsReadSeek};
use std::io::SeekFrom;

const EXTENTS: [(u64, Option<u64>); 3] = [(1, Some(140)), (1, None), (1, Some(130))];
const OTHER_EXTENTS: [(u64, Option<u64>); 2] = [(1, Some(160)), (1, Some(150))];
const KEYS: [u8; 5] = [1, 3, 5, 7, 9];

/// A value, where it should be, and what it should hold.
struct Cursor<'n, 'f, 'm> {
    v: NtfsAttributeValue<'n, 'f>,
    m: &'m Model,
    pos: u64,
}
impl Cursor<'_, '_, '_> {
    fn read(&mut self, d: &mut TagDisk, probe: usize) {
        let mut buf = [0xaau8; 4];
        d.watch(&buf, probe);
        match self.v.read(d, &mut buf) {
            Ok(got) => {
                self.m.check_read(d, &buf, got, self.pos, probe);
                self.pos += got as u64;
            }
            Err(_) => check(false, "a read succeeds"),
        }
        check(self.v.stream_position() == self.pos, "position after a read");
    }
    fn seek(&mut self, d: &mut TagDisk, to: u64) {
        check(matches!(self.v.seek(d, SeekFrom::Start(to)), Ok(x) if x == to), "a seek succeeds");
        check(self.v.stream_position() == to, "position after a seek");
        self.pos = to;
    }
}

/// `ops` operations on the values, files and indexes of a volume; `kinds` tells which.
/// Before each, the reader is anywhere.
fn interleaved(ops: u64, kinds: &[u8]) {
    split(true);
    let m = Model::fixed(&EXTENTS, 1535);
    let w = Model::fixed(&OTHER_EXTENTS, 1000);
    // records 1..=3: a split value, 4: another value and a resident one, 5: a directory
    let mut four = record(512, 1, &[&nonresident(T_DATA, 0, &[], 0, 1000, &w.pairs(0, 2)), &resident(T_OID, 1, &[], &[0x5a; 16])]);
    put16(&mut four, 16, 44);
    let children = [entry(&[KEYS[0]], false, None), entry(&[KEYS[1]], false, None), entry(b"", true, None)].concat();
    let last = [entry(&[KEYS[3]], false, None), entry(b"", true, None)].concat();
    let root = [entry(&[KEYS[2]], false, Some(0)), entry(&[KEYS[4]], false, Some(1)), entry(b"", true, None)].concat();
    let root = resident(T_ROOT, 1, &I30, &index_root(512, &root, true));
    let mut five = record(512, 3, &[&root, &nonresident(T_ALLOC, 2, &I30, 0, 1024, &[0x11, 2, 8, 0])]);
    put16(&mut five, 16, 55);
    let s = Split::with_more(m, &[1, 1, 1], true, &[four, five]);
    let mut img = s.img.clone();
    let lcn = (img.len() / 512) as u8;
    check(lcn == 8, "layout of the volume");
    img.extend_from_slice(&index_record(512, 0, &children, false));
    img.extend_from_slice(&index_record(512, 1, &last, false));
    let mut d = TagDisk::with_image(img);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f1 = ntfs.file(&mut d, 1).unwrap();
    let f4 = ntfs.file(&mut d, 4).unwrap();
    let f5 = ntfs.file(&mut d, 5).unwrap();
    let item = s.item(&f1, &mut d);
    let a = item.to_attribute().unwrap();
    let b = f4.attributes_raw().next().unwrap().unwrap();
    let c = f4.attributes_raw().nth(1).unwrap().unwrap();
    let mut x = Cursor { v: a.value(&mut d).unwrap(), m: &s.m, pos: 0 };
    let mut y = Cursor { v: b.value(&mut d).unwrap(), m: &w, pos: 0 };
    let mut z = c.value(&mut d).unwrap();
    let mut zpos = 0u64;
    let mut attrs = f5.attributes();
    let r = attrs.next(&mut d).unwrap().unwrap();
    let al = attrs.next(&mut d).map(|a| a.unwrap());
    let index = NtfsIndex::<RawIndex>::new(r, al).unwrap();
    let mut listing = index.entries();
    let mut listed = 0;
    let mut finder = index.finder();
    let mut walk = f1.attributes();
    let mut walked = 0;
    for i in 0..ops {
        // wherever an earlier user left the reader
        d.pos = u64_(9, 8 * i);
        let probe = byte(1, 100 + i) as usize;
        assume(probe < 4);
        let to = u16_(1, 32 + 2 * i) as u64;
        assume(to < 1600);
        match kinds[choose(1, i, kinds.len() as u8) as usize] {
            0 => x.read(&mut d, probe),
            1 => x.seek(&mut d, to),
            2 => y.read(&mut d, probe),
            3 => y.seek(&mut d, to),
            4 => {
                let n = choose(1, 200 + i, 3) as u64;
                let n = [1, 4, 5][n as usize];
                match ntfs.file(&mut d, n) {
                    Ok(f) => {
                        reach("file");
                        check(f.file_record_number() == n && f.sequence_number() == [1, 44, 55][(n.max(3) - 3) as usize], "the file asked for is opened");
                    }
                    Err(_) => check(false, "a file is opened"),
                }
            }
            5 => match listing.next(&mut d) {
                Some(Ok(e)) => {
                    reach("entry");
                    let k = e.key().unwrap().unwrap();
                    check(listed < KEYS.len() && (k.j > 0 || k.byte == KEYS[listed]), "the next entry is listed");
                    listed += 1;
                }
                Some(Err(_)) => check(false, "an entry is listed"),
                None => check(listed == KEYS.len(), "the listing ends after the last entry"),
            },
            6 => {
                let key = byte(1, 300 + i);
                let found = finder.find(&mut d, |k: &Raw| {
                    assume(k.j == 0);
                    key.cmp(&k.byte)
                });
                let there = KEYS.contains(&key);
                match found {
                    Some(Ok(e)) => {
                        reach("found");
                        check(there && e.key().unwrap().unwrap().byte == key, "the entry which was searched is found");
                    }
                    Some(Err(_)) => check(false, "a search succeeds"),
                    None => {
                        reach("not found");
                        check(!there, "an entry is found");
                    }
                }
            }
            7 => match walk.next(&mut d) {
                Some(Ok(a)) => {
                    let a = a.to_attribute().unwrap();
                    let want = [T_DATA];
                    check(walked < want.len() && a.ty().unwrap() as u32 == want[walked], "the next attribute is reported");
                    reach("attribute");
                    walked += 1;
                }
                Some(Err(_)) => check(false, "an attribute is reported"),
                None => check(walked == 1, "the walk ends after the last attribute"),
            },
            _ => {
                let mut buf = [0xaau8; 4];
                match z.read(&mut d, &mut buf) {
                    Ok(got) => {
                        let want = 16u64.saturating_sub(zpos).min(4);
                        check(got as u64 == want && buf[probe] == if (probe as u64) < want { 0x5a } else { 0xaa }, "bytes of a resident value");
                        zpos += want;
                    }
                    Err(_) => check(false, "a read of a resident value succeeds"),
                }
            }
        }
    }
}

crate::entries! {
    n31_values => interleaved(4, &[0, 2, 3]);
    n31_seeks => interleaved(3, &[0, 1, 2, 3, 8]);
    n31_index => interleaved(4, &[0, 4, 5, 6]);
    n31_walk => interleaved(3, &[1, 4, 7, 8]);
    n31_all => interleaved(3, &[0, 1, 2, 3, 4, 5, 6, 7, 8]); // deep
    n31_long => interleaved(5, &[0, 2, 4, 5]); // deep
}
