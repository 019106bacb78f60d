//! Values whose extents are split over attributes of several records.
#![allow(dead_code)]
use crate::disk::*;
use crate::model::*;
use crate::rt::*;
use ntfs::{NtfsAttributeItem, NtfsFile};

const RS: usize = 512;

pub struct Split {
    pub m: Model,
    pub parts: Vec<usize>,
    pub img: Vec<u8>,
    /// the first part is in the base record
    pub base: bool,
}

impl Split {
    /// Extents of up to `most` clusters, as many in each part as `parts` tells. The attributes are in
    /// the records 1 (if `base`), 2, 3...; each record has another attribute before.
    pub fn new(parts: &[usize], most: u8, holes: u32, base: bool) -> Split {
        let n: usize = parts.iter().sum();
        Self::of(Model::symbolic(0, n, most, holes, false), parts, base)
    }
    /// Given extents, as many in each part as `parts` tells.
    pub fn of(m: Model, parts: &[usize], base: bool) -> Split {
        Self::with_more(m, parts, base, &[])
    }
    /// With other file records after those.
    pub fn with_more(m: Model, parts: &[usize], base: bool, more: &[Vec<u8>]) -> Split {
        let mut list = Vec::new();
        let mut attrs = Vec::new();
        let mut from = 0;
        let mut vcn = 0u64;
        let mut s = Split { m, parts: parts.to_vec(), img: Vec::new(), base };
        for (i, &k) in parts.iter().enumerate() {
            let mut e = vec![0u8; 32];
            put32(&mut e, 0, T_DATA);
            put16(&mut e, 4, 32);
            e[7] = 26;
            put64(&mut e, 8, if i > 0 { vcn + i as u64 } else { 0 });
            put64(&mut e, 16, s.record_of(i));
            put16(&mut e, 24, s.instance(i));
            list.extend_from_slice(&e);
            let size = if i == 0 { s.m.size } else { 0 };
            attrs.push(nonresident(T_DATA, s.instance(i), &[], vcn, size, &s.m.pairs(from, from + k)));
            for e in &s.m.ext[from..from + k] {
                vcn += e.clusters;
            }
            from += k;
        }
        let list = resident(T_LIST, 0, &[], &list);
        let other = resident(T_OID, 1, &[], &[9; 16]);
        let mut recs = vec![if base { record(RS, 1, &[&list, &attrs[0]]) } else { record(RS, 1, &[&list, &other]) }];
        for a in &attrs[base as usize..] {
            recs.push(record(RS, 1, &[&other, a]));
        }
        recs.extend_from_slice(more);
        let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
        s.img = volume(RS, &refs);
        let clusters = s.img.len() as u64 / 512;
        for e in &s.m.ext {
            if let Some(l) = e.lcn {
                assume(l >= clusters);
            }
        }
        s
    }
    pub fn instance(&self, i: usize) -> u16 {
        5 + i as u16
    }
    pub fn record_of(&self, i: usize) -> u64 {
        1 + i as u64 + !self.base as u64
    }
    /// Gives the attribute of part `i` another instance number.
    pub fn set_instance(&self, img: &mut [u8], i: usize, x: u16) {
        let first = record_pos(RS, self.record_of(i) as usize) + 56;
        // the attribute before it
        let o = first + le32(img, first + 4) as usize;
        put16(img, o + 14, x);
    }
    /// Offset of the first byte which the last part has.
    pub fn start_of_last(&self) -> u64 {
        let n: usize = self.parts[..self.parts.len() - 1].iter().sum();
        let mut t = 0;
        for e in &self.m.ext[..n] {
            t += e.clusters * self.m.cluster;
        }
        t
    }
    pub fn item<'n, 'f>(&self, f: &'f NtfsFile<'n>, d: &mut TagDisk) -> NtfsAttributeItem<'n, 'f> {
        let mut it = f.attributes();
        loop {
            let i = it.next(d).unwrap().unwrap();
            if !i.to_attribute().unwrap().is_resident() {
                return i;
            }
        }
    }
}
