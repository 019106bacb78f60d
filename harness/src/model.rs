//! Oracle for the contents of non-resident values: a list of extents and a size.
#![allow(dead_code)]
use crate::disk::*;
use crate::rt::*;
use std::io::SeekFrom;

pub const CLUSTER: u64 = 512;

#[derive(Clone, Copy)]
pub struct Ext {
    delta: i64,
    pub clusters: u64,
    /// None: hole
    pub lcn: Option<u64>,
}

pub struct Model {
    pub ext: Vec<Ext>,
    pub size: u64,
    pub cluster: u64,
}

/// An offset in a value: any 64-bit value if `wide`, else of 16 bits.
pub fn offset(arr: u32, idx: u64, wide: bool) -> u64 {
    if wide {
        u64_(arr, idx)
    } else {
        u16_(arr, idx) as u64
    }
}

impl Model {
    /// Extents of 1..=`most` clusters, symbolic (array `arr`); bit i of `holes`: extent i is a hole.
    pub fn symbolic(arr: u32, n: usize, most: u8, holes: u32, wide: bool) -> Model {
        let mut ext = Vec::new();
        let mut prev = 0u64;
        for i in 0..n {
            let c = byte(arr, 16 * i as u64);
            assume(c >= 1 && c <= most);
            // a signed 40-bit offset
            let mut b = [0; 8];
            read(arr, 16 * i as u64 + 8, &mut b[3..]);
            let delta = i64::from_le_bytes(b) >> 24;
            let mut lcn = prev;
            if holes >> i & 1 == 0 {
                lcn = prev.wrapping_add(delta as u64);
                assume(lcn < 1 << 40);
                prev = lcn;
            }
            ext.push(Ext { delta, clusters: c as u64, lcn: if holes >> i & 1 != 0 { None } else { Some(lcn) } });
        }
        Model { ext, size: offset(arr, 1000, wide), cluster: CLUSTER }
    }
    /// Extents of these lengths and places (in clusters).
    pub fn fixed(extents: &[(u64, Option<u64>)], size: u64) -> Model {
        let mut prev = 0;
        let ext = extents
            .iter()
            .map(|&(clusters, lcn)| {
                let delta = lcn.map_or(0, |l| l as i64 - prev);
                prev = lcn.map_or(prev, |l| l as i64);
                Ext { delta, clusters, lcn }
            })
            .collect();
        Model { ext, size, cluster: CLUSTER }
    }
    /// Mapping pairs of the extents `from..to`, and a terminator.
    pub fn pairs(&self, from: usize, to: usize) -> Vec<u8> {
        let mut v = Vec::new();
        // the pairs of each part are relative to LCN 0
        let mut first = from > 0;
        for e in &self.ext[from..to] {
            match e.lcn {
                Some(l) if first => {
                    v.push(0x61);
                    v.push(e.clusters as u8);
                    v.extend_from_slice(&l.to_le_bytes()[..6]);
                    first = false;
                }
                Some(_) => {
                    v.push(0x51);
                    v.push(e.clusters as u8);
                    v.extend_from_slice(&e.delta.to_le_bytes()[..5]);
                }
                None => {
                    v.push(0x01);
                    v.push(e.clusters as u8);
                }
            }
        }
        v.push(0);
        v
    }
    /// Number of bytes which can be read.
    pub fn len(&self) -> u64 {
        let mut total = 0;
        for e in &self.ext {
            total += e.clusters * self.cluster;
        }
        total.min(self.size)
    }
    /// Where byte `p` of the value is stored; None: in a hole or nowhere.
    pub fn at(&self, p: u64) -> Option<u64> {
        let mut start = 0u64;
        let mut found = None;
        for e in &self.ext {
            let n = e.clusters * self.cluster;
            if p >= start && p - start < n {
                if let Some(l) = e.lcn {
                    found = Some(l * self.cluster + (p - start));
                }
            }
            start += n;
        }
        found
    }
    /// Is `got` (None: no byte reported) the right report of byte `p`?
    pub fn check_byte(&self, d: &TagDisk, b: u8, p: u64) {
        match self.at(p) {
            Some(at) => {
                reach("byte of an extent");
                check(b == MARK && d.from == Some(at), "a byte of an extent comes from where the extent stores it");
            }
            None => {
                reach("byte of a hole");
                check(b == 0, "a byte of a hole is zero");
            }
        }
    }
    /// Checks a read of `n` bytes at `p` into `buf`, whose bytes were all 0xaa; `d` watched index `probe`.
    pub fn check_read(&self, d: &TagDisk, buf: &[u8], n: usize, p: u64, probe: usize) {
        let want = self.len().saturating_sub(p).min(buf.len() as u64);
        check(n as u64 == want, "number of bytes read");
        if n == 0 {
            reach("nothing to read");
        }
        if probe < n {
            self.check_byte(d, buf[probe], p + probe as u64);
        } else {
            check(buf[probe] == 0xaa, "bytes which were not read are left alone");
        }
    }
}

/// One seek of any kind by any amount: (the request, where it leads; None: must be refused).
pub fn any_seek(arr: u32, idx: u64, pos: u64, len: u64) -> (SeekFrom, Option<u64>) {
    let n = u64_(arr, idx + 8);
    match choose(arr, idx, 3) {
        0 => (SeekFrom::Start(n), Some(n)),
        1 => (SeekFrom::Current(n as i64), pos.checked_add_signed(n as i64)),
        _ => (SeekFrom::End(n as i64), len.checked_add_signed(n as i64)),
    }
}
