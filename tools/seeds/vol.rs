//! A minimal NTFS volume builder for demonstrations.
#![allow(dead_code)]
pub use ntfs::*;
pub use ntfs::attribute_value::*;
pub use ntfs::structured_values::*;
pub use std::io::{self, Cursor, Read, Seek, SeekFrom};

pub fn le16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
pub fn put(b: &mut [u8], o: usize, v: &[u8]) {
    b[o..o + v.len()].copy_from_slice(v);
}
pub fn put16(b: &mut [u8], o: usize, v: u16) {
    put(b, o, &v.to_le_bytes())
}
pub fn put32(b: &mut [u8], o: usize, v: u32) {
    put(b, o, &v.to_le_bytes())
}
pub fn put64(b: &mut [u8], o: usize, v: u64) {
    put(b, o, &v.to_le_bytes())
}

// Builders. Volumes have 512-byte sectors and clusters and their MFT at cluster 2.

pub const MFT_LCN: u64 = 2;
pub const MFT_POS: usize = 1024;

pub fn boot(record_info: u8) -> Vec<u8> {
    let mut b = vec![0u8; 512];
    put16(&mut b, 11, 512);
    b[13] = 1;
    put64(&mut b, 0x28, 1 << 40);
    put64(&mut b, 0x30, MFT_LCN);
    b[0x40] = record_info;
    b[510] = 0x55;
    b[511] = 0xaa;
    b
}

pub const T_STD: u32 = 0x10;
pub const T_LIST: u32 = 0x20;
pub const T_NAME: u32 = 0x30;
pub const T_OID: u32 = 0x40;
pub const T_VOLNAME: u32 = 0x60;
pub const T_VOLINFO: u32 = 0x70;
pub const T_DATA: u32 = 0x80;
pub const T_ROOT: u32 = 0x90;
pub const T_ALLOC: u32 = 0xa0;

fn attr_head(ty: u32, nonres: u8, name: &[u16], name_off: u16, instance: u16) -> Vec<u8> {
    let mut a = vec![0u8; 16];
    put32(&mut a, 0, ty);
    a[8] = nonres;
    a[9] = name.len() as u8;
    put16(&mut a, 10, name_off);
    put16(&mut a, 14, instance);
    a
}
fn finish(mut a: Vec<u8>) -> Vec<u8> {
    while a.len() % 8 != 0 {
        a.push(0);
    }
    let n = a.len() as u32;
    put32(&mut a, 4, n);
    a
}
pub fn resident(ty: u32, instance: u16, name: &[u16], value: &[u8]) -> Vec<u8> {
    let mut a = attr_head(ty, 0, name, 24, instance);
    a.resize(24, 0);
    for c in name {
        a.extend_from_slice(&c.to_le_bytes());
    }
    while a.len() % 8 != 0 {
        a.push(0);
    }
    let vo = a.len() as u16;
    put32(&mut a, 16, value.len() as u32);
    put16(&mut a, 20, vo);
    a.extend_from_slice(value);
    finish(a)
}
pub fn nonresident(ty: u32, instance: u16, name: &[u16], lowest_vcn: u64, size: u64, runs: &[u8]) -> Vec<u8> {
    let mut a = attr_head(ty, 1, name, 64, instance);
    a.resize(64, 0);
    for c in name {
        a.extend_from_slice(&c.to_le_bytes());
    }
    while a.len() % 8 != 0 {
        a.push(0);
    }
    let ro = a.len() as u16;
    put64(&mut a, 16, lowest_vcn);
    put16(&mut a, 32, ro);
    put64(&mut a, 40, size.wrapping_add(511) / 512 * 512);
    put64(&mut a, 48, size);
    put64(&mut a, 56, size);
    a.extend_from_slice(runs);
    finish(a)
}
/// A record header and these attributes and the end marker. The update sequence array follows the header.
pub fn record(size: usize, flags: u16, attrs: &[&[u8]]) -> Vec<u8> {
    let sectors = size / 512;
    let mut r = vec![0u8; size];
    put(&mut r, 0, b"FILE");
    put16(&mut r, 4, 48);
    put16(&mut r, 6, sectors as u16 + 1);
    put16(&mut r, 16, 1);
    put16(&mut r, 18, 1);
    let first = (50 + 2 * sectors + 7) / 8 * 8;
    put16(&mut r, 20, first as u16);
    put16(&mut r, 22, flags);
    put32(&mut r, 28, size as u32);
    let mut o = first;
    for a in attrs {
        put(&mut r, o, a);
        o += a.len();
    }
    put32(&mut r, o, 0xffff_ffff);
    put32(&mut r, 24, o as u32 + 8);
    protect(&mut r);
    r
}
/// Stores the update sequence number 0x7e57 and the array.
pub fn protect(r: &mut [u8]) {
    let n = r.len() / 512;
    let o = le16(r, 4) as usize;
    put16(r, o, 0x7e57);
    for i in 0..n {
        let e = 512 * i + 510;
        r[o + 2 + 2 * i] = r[e];
        r[o + 3 + 2 * i] = r[e + 1];
        put16(r, e, 0x7e57);
    }
}
/// A volume with these file records after record 0 (the MFT itself).
pub fn volume(record_size: usize, records: &[&[u8]]) -> Vec<u8> {
    let clusters = record_size / 512;
    let total = (records.len() + 1) * clusters;
    let mut v = boot(clusters as u8);
    v.resize(MFT_POS, 0);
    let run = [0x11, total as u8, MFT_LCN as u8, 0];
    let data = nonresident(T_DATA, 0, &[], 0, (total * 512) as u64, &run);
    v.extend_from_slice(&record(record_size, 1, &[&data]));
    for r in records {
        v.extend_from_slice(r);
    }
    v
}
/// Position of file record `n` in such a volume.
pub fn record_pos(record_size: usize, n: usize) -> usize {
    MFT_POS + n * record_size
}

/// Volume with a file record 10 whose unnamed data stream is `size` bytes in the clusters after the MFT.
pub fn volume_with_upcase(record_10: &[u8]) -> (Vec<u8>, u64) {
    let empty = record(512, 1, &[]);
    let mut recs: Vec<&[u8]> = vec![&empty; 9];
    recs.push(record_10);
    let v = volume(512, &recs);
    let lcn = (v.len() / 512) as u64;
    (v, lcn)
}
pub const UPCASE_LCN: u8 = 13;
/// Record 10 for a table of `clusters` clusters (at `UPCASE_LCN`) and `size` bytes.
pub fn upcase_record(clusters: u16, size: u64) -> Vec<u8> {
    let c = clusters.to_le_bytes();
    record(512, 1, &[&nonresident(T_DATA, 0, &[], 0, size, &[0x12, c[0], c[1], UPCASE_LCN, 0])])
}

/// A reader whose accesses can fail: `script[i]` tells the outcome of access i (reads and seeks).
pub struct Flaky {
    pub c: Cursor<Vec<u8>>,
    pub script: Vec<Fault>,
    pub n: usize,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Fault {
    None,
    Short(usize),
    Interrupted,
    Fail,
    Eof,
}
impl Flaky {
    pub fn new(img: Vec<u8>) -> Self {
        Flaky { c: Cursor::new(img), script: Vec::new(), n: 0 }
    }
    fn next(&mut self) -> Fault {
        let f = self.script.get(self.n).copied().unwrap_or(Fault::None);
        self.n += 1;
        f
    }
}
impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        match self.next() {
            Fault::None => self.c.read(b),
            Fault::Short(k) => {
                let k = k.min(b.len());
                self.c.read(&mut b[..k])
            }
            Fault::Interrupted => Err(io::ErrorKind::Interrupted.into()),
            Fault::Fail => Err(io::ErrorKind::PermissionDenied.into()),
            Fault::Eof => Ok(0),
        }
    }
}
impl Seek for Flaky {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if self.next() == Fault::Fail {
            return Err(io::ErrorKind::PermissionDenied.into());
        }
        self.c.seek(s)
    }
}

/// An index entry: file reference, key, subnode, last?
pub fn entry(reference: u64, key: &[u8], vcn: Option<i64>, last: bool) -> Vec<u8> {
    let mut e = vec![0u8; 16];
    put64(&mut e, 0, reference);
    put16(&mut e, 10, key.len() as u16);
    e[12] = vcn.is_some() as u8 | (last as u8) << 1;
    e.extend_from_slice(key);
    while e.len() % 8 != 0 {
        e.push(0);
    }
    if let Some(v) = vcn {
        e.extend_from_slice(&v.to_le_bytes());
    }
    let n = e.len() as u16;
    put16(&mut e, 8, n);
    e
}
pub fn index_root(record_size: u32, large: bool, entries: &[Vec<u8>]) -> Vec<u8> {
    let body = entries.concat();
    let mut r = vec![0u8; 32];
    put32(&mut r, 0, 0x30);
    put32(&mut r, 4, 1);
    put32(&mut r, 8, record_size);
    r[12] = 1;
    put32(&mut r, 16, 16);
    put32(&mut r, 20, 16 + body.len() as u32);
    put32(&mut r, 24, 16 + body.len() as u32);
    r[28] = large as u8;
    r.extend_from_slice(&body);
    r
}
pub fn index_record(size: usize, vcn: u64, children: bool, entries: &[Vec<u8>]) -> Vec<u8> {
    let body = entries.concat();
    let mut r = vec![0u8; size];
    put(&mut r, 0, b"INDX");
    put16(&mut r, 4, 40);
    put16(&mut r, 6, (size / 512) as u16 + 1);
    put64(&mut r, 16, vcn);
    put32(&mut r, 24, 40);
    put32(&mut r, 28, 40 + body.len() as u32);
    put32(&mut r, 32, (size - 24) as u32);
    r[36] = children as u8;
    put(&mut r, 64, &body);
    protect(&mut r);
    r
}
pub const I30: [u16; 4] = [0x24, 0x49, 0x33, 0x30];
/// A directory record: root entries and index records (of 512 bytes) at cluster `lcn`.
pub fn directory(entries: &[Vec<u8>], records: usize, lcn: u8) -> Vec<u8> {
    let root = resident(T_ROOT, 1, &I30, &index_root(512, records > 0, entries));
    if records == 0 {
        return record(1024, 3, &[&root]);
    }
    let alloc = nonresident(T_ALLOC, 2, &I30, 0, records as u64 * 512, &[0x11, records as u8, lcn, 0]);
    record(1024, 3, &[&root, &alloc])
}
/// A file name value.
pub fn file_name(parent: u64, namespace: u8, name: &str) -> Vec<u8> {
    let units: Vec<u16> = name.encode_utf16().collect();
    let mut v = vec![0u8; 66];
    put64(&mut v, 0, parent);
    v[64] = units.len() as u8;
    v[65] = namespace;
    for u in units {
        v.extend_from_slice(&u.to_le_bytes());
    }
    v
}
/// The attribute list entry of an unnamed attribute.
pub fn list_entry(ty: u32, vcn: u64, reference: u64, instance: u16) -> Vec<u8> {
    let mut e = vec![0u8; 32];
    put32(&mut e, 0, ty);
    put16(&mut e, 4, 32);
    e[7] = 26;
    put64(&mut e, 8, vcn);
    put64(&mut e, 16, reference);
    put16(&mut e, 24, instance);
    e
}
