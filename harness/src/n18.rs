use crate::disk::*;
use crate::index::*;
use crate::rt::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::{NtfsFileName, NtfsFileNamespace, NtfsIndexRoot};
use ntfs::{Ntfs, NtfsAttributeType, NtfsError};

/// Compares `r` with the file name stored in the first `len` bytes of `b`, at volume position `pos`.
fn file_name(r: Result<NtfsFileName, NtfsError>, b: &[u8], len: usize, pos: u64) {
    let nl = 2 * b[64] as usize;
    // there is room for one character even if the name is empty
    let fits = len >= 68 && 66 + nl <= len;
    match r {
        Err(NtfsError::InvalidStructuredValueSize { position, ty, expected, actual }) => {
            reach("size refused");
            check(!fits, "a file name which fits was refused");
            check(ty == NtfsAttributeType::FileName, "the error names the attribute");
            check(position.value().map_or(0, |p| p.get()) == pos, "the error names the position");
            check(actual == len as u64 && expected == if len < 68 { 68 } else { 66 + nl as u64 }, "the error names the sizes");
        }
        Err(NtfsError::UnsupportedFileNamespace { position, actual }) => {
            reach("namespace refused");
            check(b[65] > 3 && actual == b[65] && fits, "the namespace is unknown");
            check(position.value().map_or(0, |p| p.get()) == pos, "the error names the position");
        }
        Err(_) => check(false, "other error"),
        Ok(f) => {
            reach("file name");
            check(fits && b[65] <= 3, "an invalid file name was accepted");
            let p = f.parent_directory_reference();
            check(p.file_record_number() == le64(b, 0) & 0xffff_ffff_ffff && p.sequence_number() == le16(b, 6), "parent");
            check(f.creation_time().nt_timestamp() == le64(b, 8), "creation time");
            check(f.modification_time().nt_timestamp() == le64(b, 16), "modification time");
            check(f.mft_record_modification_time().nt_timestamp() == le64(b, 24), "record modification time");
            check(f.access_time().nt_timestamp() == le64(b, 32), "access time");
            check(f.allocated_size() == le64(b, 40), "allocated size");
            check(f.data_size() == le64(b, 48), "data size");
            check(f.file_attributes().bits() == le32(b, 56) & 0x1000_7fe7, "file attributes");
            check(f.is_directory() == (b[59] & 0x10 != 0), "directory flag");
            let ns = match f.namespace() {
                NtfsFileNamespace::Posix => 0,
                NtfsFileNamespace::Win32 => 1,
                NtfsFileNamespace::Dos => 2,
                NtfsFileNamespace::Win32AndDos => 3,
            };
            check(ns == b[65], "namespace");
            check(f.name_length() == nl, "name length");
            let n = f.name().0;
            check(n.len() == nl, "length of the name");
            let j = u16_(9, 0) as usize;
            if j < nl {
                reach("character");
                check(n[j] == b[66 + j], "name");
            }
        }
    }
}

/// Attribute values of up to `n` bytes.
fn attribute(n: usize, size: usize) {
    split(true);
    let mut b = vec![0u8; n];
    bytes(&mut b, 0);
    let len = u16_(1, 0) as usize;
    assume(len <= n);
    let mut a = resident(T_NAME, 0, &[], &b);
    put32(&mut a, 16, len as u32);
    let vol = volume(size, &[&record(size, 1, &[&a])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let pos = record_pos(size, 1) as u64 + 56 + 24;
    file_name(a.structured_value::<_, NtfsFileName>(&mut d), &b, len, pos);
}

/// A file name in clusters which are not adjacent.
fn nonresident_name(n: usize) {
    split(true);
    let mut b = vec![0u8; 1024];
    bytes(&mut b[..n], 0);
    let len = u16_(1, 0) as usize;
    assume(len <= n);
    let a = nonresident(T_NAME, 0, &[], 0, len as u64, &[0x11, 1, 20, 0x11, 1, 2, 0]);
    let mut vol = volume(512, &[&record(512, 1, &[&a])]);
    vol.resize(20 * 512, 0);
    vol.extend_from_slice(&b[..512]);
    vol.resize(22 * 512, 0);
    vol.extend_from_slice(&b[512..]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    file_name(a.structured_value::<_, NtfsFileName>(&mut d), &b, len, 20 * 512);
}

/// Keys of up to `n` bytes of an index entry.
fn index_key(n: usize) {
    split(true);
    let mut b = vec![0u8; n];
    bytes(&mut b, 0);
    let len = u16_(1, 0) as usize;
    assume(len >= 1 && len <= n);
    let mut e = entry(&b, false, None);
    put16(&mut e, 10, len as u16);
    let root = index_root(512, &[e, entry(&[], true, None)].concat(), false);
    let (vol, _) = directory(512, &root, &[]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let r = a.resident_structured_value::<NtfsIndexRoot>().unwrap();
    let mut it = r.entries::<NtfsFileNameIndex>().unwrap();
    let e = it.next().unwrap().unwrap();
    let pos = record_pos(512, 1) as u64 + 56 + 32 + 32 + 16;
    file_name(e.key().unwrap(), &b, len, pos);
}

crate::entries! {
    n18_attribute => attribute(100, 512);
    n18_key => index_key(100);
    n18_nonresident => nonresident_name(100);
    n18_long => attribute(580, 1024);
    n18_key_long => index_key(300);
    n18_nonresident_long => nonresident_name(580); // deep
}
