//! Index entry types whose keys and data are the raw bytes, and builders for indexes.
#![allow(dead_code)]
use crate::disk::*;
use crate::rt::*;
use ntfs::indexes::{NtfsIndexEntryData, NtfsIndexEntryHasData, NtfsIndexEntryKey, NtfsIndexEntryType};
use ntfs::types::NtfsPosition;
use ntfs::NtfsError;

/// Key or data of an entry: where it is, its length, and one byte at an index chosen by byte 0 of array 15.
#[derive(Clone, Debug)]
pub struct Raw {
    pub len: usize,
    pub pos: u64,
    pub j: usize,
    pub byte: u8,
}
pub const PROBE: u32 = 15;
fn raw(s: &[u8], p: NtfsPosition) -> Result<Raw, NtfsError> {
    let j = byte(PROBE, 0) as usize;
    Ok(Raw { len: s.len(), pos: p.value().map_or(0, |x| x.get()), j, byte: if j < s.len() { s[j] } else { 0 } })
}
impl NtfsIndexEntryKey for Raw {
    fn key_from_slice(s: &[u8], p: NtfsPosition) -> Result<Self, NtfsError> {
        raw(s, p)
    }
}
impl NtfsIndexEntryData for Raw {
    fn data_from_slice(s: &[u8], p: NtfsPosition) -> Result<Self, NtfsError> {
        raw(s, p)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct RawIndex;
impl NtfsIndexEntryType for RawIndex {
    type KeyType = Raw;
}
impl NtfsIndexEntryHasData for RawIndex {
    type DataType = Raw;
}

/// An index entry with this key, which may have a subnode.
pub fn entry(key: &[u8], last: bool, subnode: Option<u64>) -> Vec<u8> {
    let mut e = vec![0u8; 16];
    put16(&mut e, 10, key.len() as u16);
    e[12] = last as u8 * 2 + subnode.is_some() as u8;
    e.extend_from_slice(key);
    while e.len() % 8 != 0 {
        e.push(0);
    }
    if let Some(v) = subnode {
        e.extend_from_slice(&v.to_le_bytes());
    }
    let n = e.len() as u16;
    put16(&mut e, 8, n);
    e
}
fn node(entries: &[u8], offset: u32, alloc: u32, flags: u8) -> Vec<u8> {
    let mut h = vec![0u8; 16];
    put32(&mut h, 0, offset);
    put32(&mut h, 4, offset + entries.len() as u32);
    put32(&mut h, 8, alloc);
    h[12] = flags;
    h
}
/// Value of an index root attribute with these entries.
pub fn index_root(record_size: u32, entries: &[u8], large: bool) -> Vec<u8> {
    let mut v = vec![0u8; 16];
    put32(&mut v, 0, T_NAME);
    put32(&mut v, 4, 1);
    put32(&mut v, 8, record_size);
    v[12] = 1;
    v.extend_from_slice(&node(entries, 16, 16 + entries.len() as u32, large as u8));
    v.extend_from_slice(entries);
    v
}
/// An index record with these entries (at offset 64, after the update sequence array).
pub fn index_record(size: usize, vcn: u64, entries: &[u8], subnodes: bool) -> Vec<u8> {
    let mut r = vec![0u8; size];
    put(&mut r, 0, b"INDX");
    put16(&mut r, 4, 40);
    put16(&mut r, 6, size as u16 / 512 + 1);
    put64(&mut r, 16, vcn);
    put(&mut r, 24, &node(entries, 40, size as u32 - 24, subnodes as u8));
    put(&mut r, 64, entries);
    protect(&mut r);
    r
}
pub const I30: [u16; 4] = [0x24, 0x49, 0x33, 0x30];

/// Volume whose file record 1 is a directory with this index root, and, if there are any, these
/// index records in adjacent clusters. Returns also the volume position of the first index record.
pub fn directory(record_size: usize, root: &[u8], records: &[Vec<u8>]) -> (Vec<u8>, u64) {
    let r = resident(T_ROOT, 1, &I30, root);
    let total: usize = records.iter().map(|r| r.len()).sum();
    let lcn = (MFT_POS + 2 * record_size) / 512;
    let a = nonresident(T_ALLOC, 2, &I30, 0, total as u64, &[0x21, (total / 512) as u8, lcn as u8, (lcn >> 8) as u8, 0]);
    let rec = if records.is_empty() { record(record_size, 3, &[&r]) } else { record(record_size, 3, &[&r, &a]) };
    let mut v = volume(record_size, &[&rec]);
    for r in records {
        v.extend_from_slice(r);
    }
    (v, lcn as u64 * 512)
}
