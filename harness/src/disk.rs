//! Volumes: byte images read through Read + Seek, and builders for well-formed parts of them.
#![allow(dead_code)]
use crate::rt::*;
use std::io::{self, Read, Seek, SeekFrom};

pub fn seek_to(pos: u64, len: u64, s: SeekFrom) -> io::Result<u64> {
    let r = match s {
        SeekFrom::Start(x) => Some(x),
        SeekFrom::Current(x) => pos.checked_add_signed(x),
        SeekFrom::End(x) => len.checked_add_signed(x),
    };
    r.ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))
}

/// A volume: the bytes of `img`, then (up to `end`) the symbolic array `beyond` if there is one.
/// Reads are complete unless they reach the end.
pub struct Disk {
    pub img: Vec<u8>,
    pub beyond: Option<u32>,
    pub end: u64,
    pub pos: u64,
    pub reads: u64,
}

impl Disk {
    pub fn new(img: Vec<u8>) -> Self {
        let end = img.len() as u64;
        Disk { img, beyond: None, end, pos: 0, reads: 0 }
    }
    pub fn with_array(img: Vec<u8>, arr: u32, end: u64) -> Self {
        Disk { img, beyond: Some(arr), end, pos: 0, reads: 0 }
    }
}

impl Read for Disk {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        let len = self.img.len() as u64;
        if self.pos < len {
            let p = self.pos as usize;
            let n = b.len().min(self.img.len() - p);
            b[..n].copy_from_slice(&self.img[p..p + n]);
            self.pos += n as u64;
            return Ok(n);
        }
        if let Some(arr) = self.beyond {
            if self.pos < self.end {
                let n = (b.len() as u64).min(self.end - self.pos) as usize;
                read(arr, self.pos, &mut b[..n]);
                self.pos += n as u64;
                return Ok(n);
            }
        }
        Ok(0)
    }
}
impl Seek for Disk {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, self.end, s)?;
        Ok(self.pos)
    }
}

/// What a `TagDisk` does on a read.
pub const FULL: u8 = 0;
pub const SHORT: u8 = 1;
pub const EOF: u8 = 2;
pub const INTERRUPTED: u8 = 3;
pub const OTHER: u8 = 4;

/// A volume whose contents are abstracted to positions: a read of n bytes marks them with `MARK`
/// and remembers, for the one buffer byte at index `probe`, the volume position it came from. As
/// `probe` is symbolic, this decides every byte of the buffer; as the code under test never looks
/// at file contents, it decides every content.
pub struct TagDisk {
    pub pos: u64,
    pub base: usize,
    pub probe: usize,
    pub from: Option<u64>,
    pub reads: u64,
    /// Symbolic array which chooses the outcome of each read and seek; None: no faults.
    pub faults: Option<u32>,
    /// The kinds of outcomes to choose from are those below this value.
    pub kinds: u8,
    /// Number of reads and seeks which may still fail or be short.
    pub budget: u64,
    pub ops: u64,
    pub failed: bool,
    pub eof: bool,
    /// Position of the first byte which is not on the volume.
    pub end: u64,
    /// Real contents of the beginning of the volume.
    pub img: Vec<u8>,
    /// Outcomes so far, one bit each.
    pub seen: u32,
}
pub const MARK: u8 = 0x55;

impl TagDisk {
    pub fn new() -> Self {
        TagDisk { pos: 0, base: 0, probe: 0, from: None, reads: 0, faults: None, kinds: 5, budget: 0, ops: 0, failed: false, eof: false, end: u64::MAX, img: Vec::new(), seen: 0 }
    }
    pub fn with_image(img: Vec<u8>) -> Self {
        let mut d = Self::new();
        d.img = img;
        d
    }
    /// From now on, up to `budget` operations have an outcome among the first `kinds` ones, as `arr` decides.
    pub fn arm(&mut self, arr: u32, kinds: u8, budget: u64) {
        self.faults = Some(arr);
        self.kinds = kinds;
        self.budget = budget;
    }
    pub fn watch(&mut self, buf: &[u8], probe: usize) {
        self.base = buf.as_ptr() as usize;
        self.probe = probe;
        self.from = None;
    }
    fn outcome(&mut self, seek: bool) -> u8 {
        let Some(arr) = self.faults else { return FULL };
        let i = self.ops;
        self.ops += 1;
        if self.budget == 0 {
            return FULL;
        }
        let k = byte(arr, i);
        assume(k < self.kinds);
        let k = concretize(k as u64) as u8;
        if seek && (k == SHORT || k == EOF || k == INTERRUPTED) {
            assume(false);
        }
        if k != FULL {
            self.budget -= 1;
            self.seen |= 1 << k;
        }
        k
    }
}
impl Read for TagDisk {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        let left = self.end.saturating_sub(self.pos);
        let mut n = b.len();
        if n as u64 > left {
            n = left as usize;
        }
        let real = self.pos < self.img.len() as u64;
        if real {
            n = n.min(self.img.len() - self.pos as usize);
        }
        match self.outcome(false) {
            FULL => (),
            SHORT if real => {
                assume(n >= 2);
                n /= 2;
            }
            SHORT => {
                let m = u16_(self.faults.unwrap(), 64 + 2 * self.ops) as usize;
                assume(m >= 1 && m < n);
                n = m;
            }
            EOF => {
                self.eof = true;
                return Ok(0);
            }
            INTERRUPTED => return Err(io::Error::from(io::ErrorKind::Interrupted)),
            _ => {
                self.failed = true;
                return Err(io::Error::from(io::ErrorKind::PermissionDenied));
            }
        }
        if real {
            let p = self.pos as usize;
            b[..n].copy_from_slice(&self.img[p..p + n]);
        } else {
            b[..n].fill(MARK);
        }
        let off = (b.as_ptr() as usize).wrapping_sub(self.base);
        if self.probe >= off && self.probe - off < n {
            self.from = Some(self.pos + (self.probe - off) as u64);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for TagDisk {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if self.outcome(true) == OTHER {
            self.failed = true;
            return Err(io::Error::from(io::ErrorKind::PermissionDenied));
        }
        self.pos = seek_to(self.pos, self.end, s)?;
        Ok(self.pos)
    }
}

/// A volume which starts with `img`, has the parts of the record `rec` where `parts` puts them
/// (volume position, offset in the record, length), and 0xee everywhere else.
pub struct MftDisk {
    pub img: Vec<u8>,
    pub rec: Vec<u8>,
    pub parts: Vec<(u64, usize, usize)>,
    pub pos: u64,
}
impl Read for MftDisk {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let p = self.pos;
        if p < self.img.len() as u64 {
            let p = p as usize;
            let n = b.len().min(self.img.len() - p);
            b[..n].copy_from_slice(&self.img[p..p + n]);
            self.pos += n as u64;
            return Ok(n);
        }
        b.fill(0xee);
        let mut n = b.len();
        for &(at, off, len) in &self.parts {
            if p >= at && p - at < len as u64 {
                let skip = concretize(p - at) as usize;
                n = n.min(len - skip);
                b[..n].copy_from_slice(&self.rec[off + skip..off + skip + n]);
                break;
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for MftDisk {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, 1 << 60, s)?;
        Ok(self.pos)
    }
}

// ---------------------------------------------------------------------------------------------
// Builders. Volumes have 512-byte sectors and clusters and their MFT at cluster 2.

pub const MFT_LCN: u64 = 2;
pub const MFT_POS: usize = 1024;

pub fn boot(record_info: u8) -> Vec<u8> {
    let mut b = vec![0u8; 512];
    put16(&mut b, 11, 512);
    b[13] = 1;
    put64(&mut b, 0x28, 1 << 40);
    put64(&mut b, 0x30, MFT_LCN);
    b[0x40] = record_info;
    b[510] = 0x55;
    b[511] = 0xaa;
    b
}

pub const T_STD: u32 = 0x10;
pub const T_LIST: u32 = 0x20;
pub const T_NAME: u32 = 0x30;
pub const T_OID: u32 = 0x40;
pub const T_VOLNAME: u32 = 0x60;
pub const T_VOLINFO: u32 = 0x70;
pub const T_DATA: u32 = 0x80;
pub const T_ROOT: u32 = 0x90;
pub const T_ALLOC: u32 = 0xa0;

fn attr_head(ty: u32, nonres: u8, name: &[u16], name_off: u16, instance: u16) -> Vec<u8> {
    let mut a = vec![0u8; 16];
    put32(&mut a, 0, ty);
    a[8] = nonres;
    a[9] = name.len() as u8;
    put16(&mut a, 10, name_off);
    put16(&mut a, 14, instance);
    a
}
fn finish(mut a: Vec<u8>) -> Vec<u8> {
    while a.len() % 8 != 0 {
        a.push(0);
    }
    let n = a.len() as u32;
    put32(&mut a, 4, n);
    a
}
pub fn resident(ty: u32, instance: u16, name: &[u16], value: &[u8]) -> Vec<u8> {
    let mut a = attr_head(ty, 0, name, 24, instance);
    a.resize(24, 0);
    for c in name {
        a.extend_from_slice(&c.to_le_bytes());
    }
    while a.len() % 8 != 0 {
        a.push(0);
    }
    let vo = a.len() as u16;
    put32(&mut a, 16, value.len() as u32);
    put16(&mut a, 20, vo);
    a.extend_from_slice(value);
    finish(a)
}
pub fn nonresident(ty: u32, instance: u16, name: &[u16], lowest_vcn: u64, size: u64, runs: &[u8]) -> Vec<u8> {
    let mut a = attr_head(ty, 1, name, 64, instance);
    a.resize(64, 0);
    for c in name {
        a.extend_from_slice(&c.to_le_bytes());
    }
    while a.len() % 8 != 0 {
        a.push(0);
    }
    let ro = a.len() as u16;
    put64(&mut a, 16, lowest_vcn);
    put16(&mut a, 32, ro);
    put64(&mut a, 40, size.wrapping_add(511) / 512 * 512);
    put64(&mut a, 48, size);
    put64(&mut a, 56, size);
    a.extend_from_slice(runs);
    finish(a)
}
/// A record header and these attributes and the end marker. The update sequence array follows the header.
pub fn record(size: usize, flags: u16, attrs: &[&[u8]]) -> Vec<u8> {
    let sectors = size / 512;
    let mut r = vec![0u8; size];
    put(&mut r, 0, b"FILE");
    put16(&mut r, 4, 48);
    put16(&mut r, 6, sectors as u16 + 1);
    put16(&mut r, 16, 1);
    put16(&mut r, 18, 1);
    let first = (50 + 2 * sectors + 7) / 8 * 8;
    put16(&mut r, 20, first as u16);
    put16(&mut r, 22, flags);
    put32(&mut r, 28, size as u32);
    let mut o = first;
    for a in attrs {
        put(&mut r, o, a);
        o += a.len();
    }
    put32(&mut r, o, 0xffff_ffff);
    put32(&mut r, 24, o as u32 + 8);
    protect(&mut r);
    r
}
/// Stores the update sequence number 0x7e57 and the array.
pub fn protect(r: &mut [u8]) {
    let n = r.len() / 512;
    let o = le16(r, 4) as usize;
    put16(r, o, 0x7e57);
    for i in 0..n {
        let e = 512 * i + 510;
        r[o + 2 + 2 * i] = r[e];
        r[o + 3 + 2 * i] = r[e + 1];
        put16(r, e, 0x7e57);
    }
}
/// A volume with these file records after record 0 (the MFT itself).
pub fn volume(record_size: usize, records: &[&[u8]]) -> Vec<u8> {
    let clusters = record_size / 512;
    let total = (records.len() + 1) * clusters;
    let mut v = boot(clusters as u8);
    v.resize(MFT_POS, 0);
    let run = [0x11, total as u8, MFT_LCN as u8, 0];
    let data = nonresident(T_DATA, 0, &[], 0, (total * 512) as u64, &run);
    v.extend_from_slice(&record(record_size, 1, &[&data]));
    for r in records {
        v.extend_from_slice(r);
    }
    v
}
/// Position of file record `n` in such a volume.
pub fn record_pos(record_size: usize, n: usize) -> usize {
    MFT_POS + n * record_size
}

/// Volume with a file record 10 whose unnamed data stream is `size` bytes in the clusters after the MFT.
pub fn volume_with_upcase(record_10: &[u8]) -> (Vec<u8>, u64) {
    let empty = record(512, 1, &[]);
    let mut recs: Vec<&[u8]> = vec![&empty; 9];
    recs.push(record_10);
    let v = volume(512, &recs);
    let lcn = (v.len() / 512) as u64;
    (v, lcn)
}
pub const UPCASE_LCN: u8 = 13;
/// Record 10 for a table of `clusters` clusters (at `UPCASE_LCN`) and `size` bytes.
pub fn upcase_record(clusters: u16, size: u64) -> Vec<u8> {
    let c = clusters.to_le_bytes();
    record(512, 1, &[&nonresident(T_DATA, 0, &[], 0, size, &[0x12, c[0], c[1], UPCASE_LCN, 0])])
}
