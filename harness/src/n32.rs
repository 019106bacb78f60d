use crate::disk::*;
use crate::index::*;
use crate::rt::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::structured_values::*;
use ntfs::types::{NtfsPosition, Vcn};
use ntfs::{Ntfs, NtfsAttributeType, NtfsError, NtfsReadSeek};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};

fn at(p: NtfsPosition) -> u64 {
    p.value().map_or(0, |p| p.get())
}
const POS: u64 = MFT_POS as u64 + 512;

/// A volume which ends after `end` bytes. Reads are as long as asked for unless they get there.
struct Cut {
    img: Vec<u8>,
    end: u64,
    pos: u64,
}
impl Read for Cut {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let left = self.end.saturating_sub(self.pos).min(b.len() as u64);
        let n = left as usize;
        let p = self.pos as usize;
        b[..n].copy_from_slice(&self.img[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Cut {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, self.end, s)?;
        Ok(self.pos)
    }
}
fn cut(img: Vec<u8>, from: u64) -> Cut {
    let len = img.len() as u64;
    let gone = u16_(5, 0) as u64;
    assume(gone <= len - from);
    if len - from > 512 {
        assume(gone % 16 < 2 || gone % 16 == 15);
    }
    let end = len - concretize(gone);
    Cut { img, end, pos: 0 }
}
fn is_eof(e: &NtfsError) -> bool {
    matches!(e, NtfsError::Io(e) if e.kind() == ErrorKind::UnexpectedEof)
}

/// A volume which ends within its boot sector, whatever that contains.
fn boot_cut() {
    let mut b = vec![0u8; 512];
    bytes(&mut b, 0);
    let mut d = cut(b, 0);
    if d.end == 512 {
        return;
    }
    match Ntfs::new(&mut d) {
        Ok(_) => check(false, "a truncated boot sector was accepted"),
        Err(e) => check(is_eof(&e), "the end of the volume is reported as such"),
    }
    reach("boot sector cut off");
}

/// Every boot sector: the error which is reported did occur.
fn boot_sector() {
    let mut b = vec![0u8; 512];
    bytes(&mut b, 0);
    let sector = le16(&b, 11);
    let good = sector == 512 || sector == 1024 || sector == 2048 || sector == 4096;
    if good {
        b[11] = concretize(b[11] as u64) as u8;
        b[12] = concretize(b[12] as u64) as u8;
        if b[13] > 240 || b[13] & b[13].wrapping_sub(1) == 0 {
            b[13] = concretize(b[13] as u64) as u8;
        }
    }
    let sector = sector as u64;
    let mut d = Disk::new(b);
    let e = match Ntfs::new(&mut d) {
        Ok(_) => return reach("opened"),
        Err(e) => e,
    };
    let b = &d.img;
    let spc = b[13];
    let exponent = 256 - spc as u32;
    let spc_ok = if spc <= 128 { spc != 0 && spc & (spc - 1) == 0 } else { exponent <= 12 };
    let sectors = if spc <= 128 { spc as u64 } else { 1u64 << (exponent & 63) };
    let info = b[0x40] as i8;
    match e {
        NtfsError::InvalidTwoByteSignature { position, expected, actual } => {
            reach("signature");
            check(at(position) == 510 && expected == [0x55, 0xaa] && actual == [b[510], b[511]], "signature");
            check(actual != [0x55, 0xaa], "the signature is wrong");
        }
        NtfsError::UnsupportedSectorSize { min, max, actual } => {
            reach("sector size");
            check(min == 512 && max == 4096 && actual as u64 == sector, "sector size");
            check(!good, "the sector size is wrong");
        }
        NtfsError::InvalidSectorsPerCluster { sectors_per_cluster } => {
            reach("sectors per cluster");
            check(sectors_per_cluster == spc && !spc_ok, "the sectors per cluster are wrong");
        }
        NtfsError::UnsupportedClusterSize { min, max, actual } => {
            reach("cluster size");
            check(min == 512 && max == 2 << 20 && spc_ok && good, "cluster size");
            check(actual as u64 == sectors * sector && actual > max, "the cluster size is wrong");
        }
        NtfsError::InvalidRecordSizeInfo { size_info, cluster_size } => {
            reach("record size");
            check(size_info == info && spc_ok && good && cluster_size as u64 == sectors * sector, "record size");
            check(info <= 0 && info != -10 && info != -11 && info != -12, "the record size is wrong");
        }
        NtfsError::InvalidMftLcn => {
            reach("no MFT");
            check(le64(b, 0x30) == 0, "there is no MFT");
        }
        NtfsError::TotalSectorsTooBig { total_sectors } => {
            reach("total sectors");
            check(total_sectors == le64(b, 0x28) && good && total_sectors as u128 * sector as u128 >> 64 != 0, "the volume is too big");
        }
        NtfsError::LcnTooBig { lcn } => {
            reach("MFT too far");
            check(lcn.value() == le64(b, 0x30) && spc_ok && good && lcn.value() as u128 * (sectors * sector) as u128 >> 64 != 0, "the MFT is too far");
        }
        _ => check(false, "another error"),
    }
}

/// Every header of a file record.
fn file_record(size: usize, few: bool) {
    split(true);
    let pos = MFT_POS as u64 + size as u64;
    let mut r = record(size, 1, &[&resident(T_DATA, 1, &[], b"abc")]);
    for (o, n) in [(0usize, 4usize), (4, 2), (6, 2), (24, 4), (28, 4), (510, 2), (size - 2, 2)] {
        bytes_at(&mut r[o..o + n], 0, o as u64);
    }
    let uo = le16(&r, 4) as usize;
    let uc = le16(&r, 6) as usize;
    // The update sequence array neither overlaps itself nor the sizes
    assume(uo >= 40);
    let small = uc <= 1 + size / 512;
    if few && uo < size {
        assume([40, 42, 49, 64, 500, 506, 508, 512, 760, 1016, 1018, 1020].contains(&uo) || uo + 2 >= size);
    }
    if small && uo < size {
        assume(uo + 2 * uc <= 510 || uo >= 512);
        assume(uo + 2 * uc <= size - 2 || uo + 2 > size);
        let x = concretize(uc as u64) as u16;
        put16(&mut r, 6, x);
        let x = concretize(uo as u64) as u16;
        put16(&mut r, 4, x);
    }
    let mut d = Disk::new(volume(size, &[&r]));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let e = match ntfs.file(&mut d, 1) {
        Ok(_) => return reach("record"),
        Err(e) => e,
    };
    let (uo, uc) = (le16(&r, 4) as usize, le16(&r, 6) as usize);
    match e {
        NtfsError::InvalidFileSignature { position, expected, actual } => {
            reach("file signature");
            check(at(position) == pos && expected == b"FILE" && actual == r[..4], "file signature");
            check(actual != *b"FILE", "the signature is wrong");
        }
        NtfsError::InvalidUpdateSequenceCount { position, update_sequence_count } => {
            reach("sequence count");
            check(at(position) == pos && update_sequence_count == 0 && uc == 0, "sequence count");
        }
        NtfsError::InvalidUpdateSequenceNumberRange { position, range, size: s } => {
            reach("sequence number range");
            check(at(position) == pos && range.start == uo && range.end == uo + 2 && s == size, "sequence number");
            check(uo + 2 > size, "the sequence number is not there");
        }
        NtfsError::UpdateSequenceArrayExceedsRecordSize { position, array_count, record_size } => {
            reach("sequence array");
            check(at(position) == pos && array_count as usize == uc.wrapping_sub(1) && record_size == size, "sequence array");
            check(uo + 2 * uc > size || (uc - 1) * 512 > size, "the sequence array is too long");
        }
        NtfsError::UpdateSequenceNumberMismatch { position, expected, actual } => {
            reach("sequence number");
            // the entry of the array which belongs to the sector
            let o = at(position).wrapping_sub(pos) as usize;
            let mut found = false;
            for i in 0..size / 512 {
                let e = 512 * i + 510;
                if o == uo + 2 + 2 * i {
                    found = i + 1 < uc && actual == r[e..e + 2];
                }
            }
            check(found && uo + 2 <= size && expected == r[uo..uo + 2], "the sector is torn");
            check(expected != actual, "the sector is torn off");
        }
        NtfsError::InvalidFileAllocatedSize { position, expected, actual } => {
            reach("allocated size");
            check(at(position) == pos && expected == le32(&r, 28) && actual == size as u32, "allocated size");
            check(expected > actual, "the allocated size is wrong");
        }
        NtfsError::InvalidFileUsedSize { position, expected, actual } => {
            reach("used size");
            check(at(position) == pos && expected == le32(&r, 24) && actual == le32(&r, 28), "used size");
            check(expected > actual, "the used size is wrong");
        }
        _ => check(false, "another error"),
    }
}

/// A record with an attribute at offset 56 and one at `o`, the header of which is symbolic.
fn attribute(end: bool) {
    split(true);
    let first = resident(T_OID, 1, &[], &[9; 16]);
    let o = if end { 488 } else { 56 + first.len() };
    let mut r = record(512, 1, &[&first]);
    if end {
        put32(&mut r, 60, (o - 56) as u32);
        let n = byte(7, 0) as usize;
        assume(n <= 20);
        let n = concretize(n as u64) as usize;
        let o = o + n;
        put32(&mut r, 60, (o - 56) as u32);
        return parse(r, o, 510.min(o + 64));
    }
    parse(r, o, o + 64)
}
fn parse(mut r: Vec<u8>, o: usize, to: usize) {
    let n = (to - o).min(510 - o);
    bytes(&mut r[o..o + n], 0);
    put32(&mut r, 24, 512);
    protect(&mut r);
    let mut d = Disk::new(volume(512, &[&r]));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let pos = POS + o as u64;
    // the rest of a header which does not fit into the record is nothing
    let mut x = r.clone();
    let e = [le16(&r, 50), le16(&r, 52)];
    put16(&mut x, 510, e[0]);
    x.resize(640, 0);
    let r = &x;
    let (ty, len, vl, vo) = (le32(r, o), le32(r, o + 4) as usize, le32(r, o + 16), le16(r, o + 20));
    let (nl, no) = (2 * r[o + 9] as usize, le16(r, o + 10));
    let head = if r[o + 8] == 0 { 24 } else { 64 };
    let a = match f.attributes_raw().nth(1) {
        None => return reach("end"),
        Some(Ok(a)) => a,
        Some(Err(e)) => {
            match e {
                NtfsError::InvalidAttributeLength { position, expected, actual } => {
                    reach("attribute length");
                    check(at(position) == pos && expected > actual, "attribute length");
                    let left = 512 - o;
                    check(actual == left && (expected == 16 || left >= 16 && expected == len) || left >= 16 && actual == len && (expected == 16 || expected == head || expected == 23 && head == 24), "lengths of the attribute");
                }
                _ => check(false, "another error of an attribute"),
            }
            return;
        }
    };
    if let Err(e) = a.ty() {
        match e {
            NtfsError::UnsupportedAttributeType { position, actual } => {
                reach("type");
                check(at(position) == pos && actual == ty, "type");
                check(ty & 15 != 0 || ty == 0 || ty > 0x100, "the type is unknown");
            }
            _ => check(false, "another error of a type"),
        }
    }
    if let Err(e) = a.name() {
        match e {
            NtfsError::InvalidAttributeNameOffset { position, expected, actual } => {
                reach("name offset");
                check(at(position) == pos && expected == no && actual as usize == len, "name offset");
                check(no as usize >= len, "the offset is wrong");
            }
            NtfsError::InvalidAttributeNameLength { position, expected, actual } => {
                reach("name length");
                check(at(position) == pos && expected == no as usize + nl && actual as usize == len, "name length");
                check(expected > len, "the length is wrong");
            }
            _ => check(false, "another error of a name"),
        }
    }
    let value = |e: NtfsError| match e {
        NtfsError::InvalidResidentAttributeValueOffset { position, expected, actual } => {
            reach("value offset");
            check(at(position) == pos && expected == vo && actual as usize == len && head == 24, "value offset");
            check(vo as usize > len, "the offset of the value is wrong");
        }
        NtfsError::InvalidResidentAttributeValueLength { position, length, offset, actual } => {
            reach("value length");
            check(at(position) == pos && length == vl && offset == vo && actual as usize == len && head == 24, "value length");
            check(vo as u64 + vl as u64 > len as u64, "the length of the value is wrong");
        }
        NtfsError::InvalidNonResidentValueDataRange { position, range, size } => {
            reach("data runs");
            let runs = le16(r, o + 32) as usize;
            check(head == 64 && at(position) == pos + runs as u64 && range.start == o + runs && range.end == o + len && size == 512, "data runs");
            check(runs > len, "the data runs are not there");
        }
        _ => check(false, "another error of a value"),
    };
    if let Err(e) = a.value(&mut d) {
        // the data runs may be damaged, too; those errors come from them
        let runs = le16(r, o + 32) as usize;
        if head == 64 && runs <= len {
            check(!matches!(e, NtfsError::InvalidResidentAttributeValueOffset { .. } | NtfsError::InvalidResidentAttributeValueLength { .. } | NtfsError::InvalidNonResidentValueDataRange { .. }), "the value is there");
        } else {
            value(e);
        }
    }
    match a.resident_structured_value::<NtfsObjectId>() {
        Ok(_) => reach("object ID"),
        Err(NtfsError::UnsupportedAttributeType { position, actual }) => check(at(position) == pos && actual == ty && a.ty().is_err(), "unknown type"),
        Err(NtfsError::AttributeOfDifferentType { position, expected, actual }) => {
            reach("different type");
            check(at(position) == pos && expected == NtfsAttributeType::ObjectId && actual as u32 == ty && ty != T_OID, "different type");
        }
        Err(NtfsError::UnexpectedNonResidentAttribute { position }) => {
            reach("not resident");
            check(at(position) == pos && head == 64, "not resident");
        }
        Err(NtfsError::InvalidStructuredValueSize { position, ty, expected, actual }) => {
            reach("value size");
            check(ty == NtfsAttributeType::ObjectId && expected == 16 && actual == vl as u64 && actual < 16, "size of the object ID");
            check(at(position) == if vl == 0 { 0 } else { pos + vo as u64 } || at(position) == pos + vo as u64, "position of the object ID");
        }
        Err(e) => value(e),
    }
}

/// Structured values of any length.
fn values() {
    split(true);
    let len = byte(1, 0) as u32;
    let mut b = vec![0u8; 256];
    bytes(&mut b, 0);
    let types = [T_STD, T_OID, T_VOLINFO, T_VOLNAME];
    let ty = types[choose(1, 1, 4) as usize];
    let mut a = resident(ty, 0, &[], &b);
    put32(&mut a, 16, len);
    let mut d = Disk::new(volume(512, &[&record(512, 1, &[&a])]));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let (e, min) = match ty {
        T_STD => (a.resident_structured_value::<NtfsStandardInformation>().err(), 48),
        T_OID => (a.resident_structured_value::<NtfsObjectId>().err(), 16),
        T_VOLINFO => (a.resident_structured_value::<NtfsVolumeInformation>().err(), 12),
        _ => (a.resident_structured_value::<NtfsVolumeName>().err(), 256),
    };
    match e {
        None => {
            reach("structured value");
            check(ty == T_VOLNAME || len >= min, "a value which is cut off was accepted");
        }
        Some(NtfsError::InvalidStructuredValueSize { position, ty: t, expected, actual }) => {
            reach("structured value too short");
            check(t as u32 == ty && expected == min as u64 && actual == len as u64 && len < min && ty != T_VOLNAME, "size of a structured value");
            check(at(position) == POS + 56 + 24, "position of a structured value");
        }
        Some(_) => check(false, "another error of a structured value"),
    }
    match a.structured_value::<_, NtfsIndexRoot>(&mut d) {
        Err(NtfsError::AttributeOfDifferentType { position, expected, actual }) => {
            check(at(position) == POS + 56 && expected == NtfsAttributeType::IndexRoot && actual as u32 == ty, "kind of value");
        }
        _ => check(false, "a value of another type was accepted"),
    }
}
/// Values of the wrong residency.
fn residency() {
    let mut runs = nonresident(T_ROOT, 0, &I30, 0, 512, &[0x11, 1, 30, 0]);
    let alloc = resident(T_ALLOC, 1, &I30, &[1; 16]);
    let oid = nonresident(T_OID, 2, &[], 0, 16, &[0x11, 1, 30, 0]);
    put32(&mut runs, 0, T_ROOT);
    let mut d = Disk::new(volume(512, &[&record(512, 3, &[&oid, &runs, &alloc])]));
    let p = POS + 56;
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    match a.resident_structured_value::<NtfsObjectId>() {
        Err(NtfsError::UnexpectedNonResidentAttribute { position }) => check(at(position) == p, "position of the non-resident attribute"),
        _ => check(false, "a non-resident attribute was accepted"),
    }
    let a = f.attributes_raw().nth(1).unwrap().unwrap();
    match a.structured_value::<_, NtfsIndexRoot>(&mut d) {
        Err(NtfsError::UnexpectedNonResidentAttribute { position }) => check(at(position) == 30 * 512, "position of the non-resident value"),
        _ => check(false, "a non-resident index root was accepted"),
    }
    let a = f.attributes_raw().nth(2).unwrap().unwrap();
    match a.structured_value::<_, NtfsIndexAllocation>(&mut d) {
        Err(NtfsError::UnexpectedResidentAttribute { position }) => {
            check(at(position) == p + oid.len() as u64 + runs.len() as u64 + 32, "position of the resident value")
        }
        _ => check(false, "a resident index allocation was accepted"),
    }
    reach("wrong residency");
}

/// Every header of an index root.
fn root() {
    split(true);
    let mut v = index_root(512, &entry(b"abc", true, None), false);
    bytes_at(&mut v[16..24], 0, 16);
    let len = byte(1, 0) as usize;
    assume(len <= v.len());
    let len = concretize(len as u64) as usize;
    let mut a = resident(T_ROOT, 1, &I30, &v);
    put32(&mut a, 16, len as u32);
    let mut d = Disk::new(volume(512, &[&record(512, 3, &[&a])]));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let pos = POS + 56 + 32;
    let start = 16 + le32(&v, 16) as usize;
    let end = 16 + le32(&v, 20) as usize;
    match a.structured_value::<_, NtfsIndexRoot>(&mut d) {
        Ok(_) => {
            reach("index root");
            check(len >= 32 && start <= end && end <= len, "a damaged index root was accepted");
        }
        Err(NtfsError::InvalidStructuredValueSize { position, ty, expected, actual }) => {
            reach("root too short");
            check(at(position) == pos && ty == NtfsAttributeType::IndexRoot && expected == 32 && actual == len as u64 && len < 32, "size of the index root");
        }
        Err(NtfsError::InvalidIndexRootEntriesOffset { position, expected, actual }) => {
            reach("root entries offset");
            check(at(position) == pos && expected == start && (actual == len && start >= len || actual == end && start > end), "offset of the entries");
        }
        Err(NtfsError::InvalidIndexRootUsedSize { position, expected, actual }) => {
            reach("root used size");
            check(at(position) == pos && expected == end && actual == len && end > len, "size of the entries");
        }
        Err(_) => check(false, "another error of an index root"),
    }
}

/// Every header of an index record and any number of the record.
fn index_record_() {
    split(true);
    const SIZES: [u32; 5] = [0, 39, 40, 512, 1024];
    let size = SIZES[choose(1, 0, SIZES.len() as u8) as usize];
    let mut rec = index_record(1024, 0, &entry(b"abc", true, None), false);
    for (o, n) in [(0usize, 4usize), (16, 8), (24, 4), (28, 4), (32, 4), (510, 2), (1022, 2)] {
        bytes_at(&mut rec[o..o + n], 0, o as u64);
    }
    if size < 1024 {
        put16(&mut rec, 6, 2);
    }
    let uc = if size == 40 { 1 } else { le16(&rec, 6) as usize };
    if size == 40 {
        put16(&mut rec, 6, 1);
    }
    let vcn = choose(1, 8, 4) as i64 - 1;
    let (vol, pos) = directory(512, &index_root(512, &entry(&[], true, Some(0)), true), &[rec.clone()]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().nth(1).unwrap().unwrap();
    let ia = a.structured_value::<_, NtfsIndexAllocation>(&mut d).unwrap();
    let e = match ia.record_from_vcn(&mut d, size, Vcn::from(vcn)) {
        Ok(_) => return reach("index record"),
        Err(e) => e,
    };
    let o = vcn * 512;
    let here = pos as i64 + o;
    let there = vcn >= 0 && o < 1024;
    let total = 24u64 + le32(&rec, 32) as u64;
    match e {
        NtfsError::VcnOutOfBoundsInIndexAllocation { position, vcn: v } => {
            reach("record number out of bounds");
            check(at(position) == pos && v.value() == vcn && !there, "record number out of bounds");
        }
        NtfsError::Io(e) if vcn < 0 => {
            reach("negative record number");
            check(e.kind() == ErrorKind::InvalidInput, "negative record number");
        }
        NtfsError::Io(e) => {
            reach("record beyond the value");
            check(e.kind() == ErrorKind::UnexpectedEof && there && o + size as i64 > 1024, "record beyond the value");
        }
        NtfsError::InvalidIndexAllocatedSize { position, expected, actual } if size < 40 => {
            reach("record size too small");
            check(at(position) as i64 == here && expected == 40 && actual == size, "record size too small");
        }
        NtfsError::InvalidIndexAllocatedSize { position, expected, actual } => {
            reach("index allocated size");
            check(at(position) as i64 == here && there && o == 0 && actual == size, "index allocated size");
            check(expected as u64 == total.min(0xffff_ffff) && expected > actual, "the allocated size is wrong");
        }
        NtfsError::InvalidIndexUsedSize { position, expected, actual } => {
            reach("index used size");
            check(at(position) as i64 == here && there && o == 0 && actual as u64 == total, "index used size");
            check(expected as u64 == (24 + le32(&rec, 28) as u64).min(0xffff_ffff) && expected > actual, "the used size is wrong");
        }
        NtfsError::InvalidIndexEntriesOffset { position, expected, actual } => {
            reach("index entries offset");
            check(at(position) as i64 == here && there && o == 0, "index entries offset");
            check(expected == le32(&rec, 24) && actual == le32(&rec, 28) && expected > actual, "the offset is wrong");
        }
        NtfsError::InvalidIndexSignature { position, expected, actual } => {
            reach("index signature");
            check(at(position) as i64 == here && there && expected == b"INDX" && actual == rec[o as usize..o as usize + 4], "index signature");
            check(actual != *b"INDX", "the signature is wrong");
        }
        NtfsError::UpdateSequenceNumberMismatch { position, expected, actual } => {
            reach("torn index record");
            let i = (at(position).wrapping_sub(pos + 42) / 2) as usize;
            check(o == 0 && i + 1 < uc && at(position) == pos + 42 + 2 * i as u64, "torn index record");
            check(i < 2 && expected == rec[40..42] && actual == rec[512 * i + 510..512 * i + 512] && expected != actual, "the sector is torn");
        }
        NtfsError::InvalidUpdateSequenceNumberRange { position, range, size: s } => {
            reach("record without a sequence number");
            check(at(position) as i64 == here && there && range.start == 40 && range.end == 42, "sequence number of an index record");
            check(s == size as usize && size < 42, "there is no sequence number");
        }
        NtfsError::VcnMismatchInIndexAllocation { position, expected, actual } => {
            reach("other record number");
            check(at(position) == pos && expected.value() == vcn && o == 0 && actual.value() as u64 == le64(&rec, 16), "other record number");
            check(expected != actual, "the record number is wrong");
        }
        _ => check(false, "another error of an index record"),
    }
}

/// Every header of an index entry.
fn index_entry(n: usize, in_record: bool) {
    split(true);
    let mut e = entry(b"abcdefgh", true, Some(7));
    let full = e.len();
    bytes_at(&mut e[0..13], 0, 0);
    // no more of the entry than `n` bytes
    let n = if n == 0 { full } else { n };
    e.truncate(n);
    let key = e.clone();
    let (img, pos) = if in_record {
        let rec = index_record(512, 0, &e, false);
        let (v, p) = directory(512, &index_root(512, &entry(&[], true, Some(0)), true), &[rec]);
        (v, p + 64)
    } else {
        let (v, _) = directory(512, &index_root(512, &e, false), &[]);
        (v, POS + 56 + 32 + 32)
    };
    let mut d = Disk::new(img);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    if in_record {
        let a = f.attributes_raw().nth(1).unwrap().unwrap();
        let ia = a.structured_value::<_, NtfsIndexAllocation>(&mut d).unwrap();
        let r = ia.record_from_vcn(&mut d, 512, Vcn::from(0)).unwrap();
        one_entry(r.entries::<RawIndex>().unwrap().next(), &key, pos);
    } else {
        let a = f.attributes_raw().next().unwrap().unwrap();
        let r = a.structured_value::<_, NtfsIndexRoot>(&mut d).unwrap();
        one_entry(r.entries::<RawIndex>().unwrap().next(), &key, pos);
    }
}
fn one_entry(e: Option<Result<ntfs::NtfsIndexEntry<RawIndex>, NtfsError>>, b: &[u8], pos: u64) {
    let n = b.len();
    let mut x = b.to_vec();
    x.resize(16, 0);
    let len = le16(&x, 8);
    let e = match e {
        Some(Ok(e)) => e,
        Some(Err(NtfsError::InvalidIndexEntrySize { position, expected, actual })) => {
            reach("entry size");
            check(at(position) == pos && expected > actual, "entry size");
            check(actual as usize == n && (expected == 16 || n >= 16 && expected == len) || n >= 16 && actual == len && expected == 16, "sizes of the entry");
            return;
        }
        _ => return check(false, "another error of an entry"),
    };
    reach("entry");
    let range = |e: NtfsError, from: usize, to: usize| match e {
        NtfsError::InvalidIndexEntryDataRange { position, range, size } => {
            reach("entry range");
            check(at(position) == pos && range.start == from && range.end == to && size == len && to > len as usize, "range in the entry");
        }
        _ => check(false, "another error in an entry"),
    };
    if let Some(Err(x)) = e.key() {
        range(x, 16, 16 + le16(b, 10) as usize);
    }
    if let Some(Err(x)) = e.data() {
        range(x, le16(b, 0) as usize, le16(b, 0) as usize + le16(b, 2) as usize);
    }
    if let Some(Err(x)) = e.subnode_vcn() {
        let from = 16.max(len as usize - 8);
        range(x, from, from + 8);
    }
}

/// Every header of an entry of an attribute list, of which `n` bytes are there.
fn list_entry(n: usize) {
    split(true);
    let mut e = vec![0x41u8; 40];
    bytes_at(&mut e[0..8], 0, 0);
    e.truncate(n);
    let list = resident(T_LIST, 0, &[], &e);
    let mut d = Disk::new(volume(512, &[&record(512, 1, &[&list])]));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let l = a.structured_value::<_, NtfsAttributeList>(&mut d).unwrap();
    let pos = POS + 56 + 24;
    let (len, nl, no) = (le16(&e, 4) as u64, 2 * e[6] as u64, e[7] as u64);
    match l.entries().next(&mut d) {
        None => check(false, "the entry is there"),
        Some(Ok(e)) => {
            reach("list entry");
            if let Err(x) = e.ty() {
                match x {
                    NtfsError::UnsupportedAttributeType { position, actual } => {
                        check(at(position) == pos && actual == u32_(0, 0) && (actual & 15 != 0 || actual == 0 || actual > 0x100), "unknown type of an entry")
                    }
                    _ => check(false, "another error of a type"),
                }
            }
        }
        Some(Err(NtfsError::InvalidStructuredValueSize { position, ty, expected, actual })) => {
            reach("list entry size");
            check(at(position) == pos && ty == NtfsAttributeType::AttributeList, "list entry");
            let need = if nl > 0 { no + nl } else { 26 };
            let beyond = expected == len && actual == n as u64 && len > n as u64;
            let name = nl > 0 && expected == 26 && actual == no && no < 26;
            let short = expected == len && actual == need && need > len;
            check(beyond || name || short, "sizes of the list entry");
        }
        Some(Err(e)) => check((n < 26 || nl > 0 && no + nl > n as u64) && is_eof(&e), "another error of a list entry"),
    }
}

/// Volumes which end within the MFT, a file, or an index.
fn file_cut() {
    split(true);
    let r = record(512, 1, &[&resident(T_DATA, 1, &[], b"abc")]);
    let mut d = cut(volume(512, &[&r]), 512);
    let end = d.end;
    assume(end < POS + 512);
    let ntfs = Ntfs::new(&mut d).unwrap();
    match ntfs.file(&mut d, 1) {
        Ok(_) => check(false, "a record which is cut off was accepted"),
        Err(e) => check(is_eof(&e), "the end of the volume in a record"),
    }
    reach("record cut off");
    // the number of the record is checked first
    let n = u64_(6, 0);
    assume(n > 1);
    match ntfs.file(&mut d, n) {
        Ok(_) => check(false, "there is no such record"),
        Err(NtfsError::InvalidFileRecordNumber { file_record_number }) => {
            reach("record number");
            check(file_record_number == n && (end >= POS || n > u64::MAX / 512), "record number");
        }
        Err(e) => check(is_eof(&e) && end < POS, "the end of the volume in the MFT"),
    }
}
fn value_cut() {
    split(true);
    let mut img = volume(512, &[&record(512, 1, &[&nonresident(T_DATA, 0, &[], 0, 600, &[0x11, 2, 4, 0])])]);
    let start = img.len() as u64;
    check(start == 4 * 512, "layout");
    img.resize(start as usize + 1024, 7);
    let mut d = cut(img, start);
    let end = d.end;
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let mut v = a.value(&mut d).unwrap();
    let mut buf = [0u8; 600];
    match v.read_exact(&mut d, &mut buf) {
        Ok(()) => {
            reach("value");
            check(end >= start + 600, "a value which is cut off was read");
        }
        Err(e) => {
            reach("value cut off");
            check(end < start + 600 && is_eof(&e), "the end of the volume in a value");
        }
    }
}
fn index_cut() {
    split(true);
    let rec = index_record(512, 0, &entry(b"abc", true, None), false);
    let (img, pos) = directory(512, &index_root(512, &entry(&[], true, Some(0)), true), &[rec]);
    let mut d = cut(img, pos);
    let end = d.end;
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().nth(1).unwrap().unwrap();
    let ia = a.structured_value::<_, NtfsIndexAllocation>(&mut d).unwrap();
    match ia.record_from_vcn(&mut d, 512, Vcn::from(0)) {
        Ok(_) => check(end >= pos + 512, "an index record which is cut off was accepted"),
        Err(e) => {
            reach("index record cut off");
            check(end < pos + 512 && is_eof(&e), "the end of the volume in an index record");
        }
    }
}

/// Data runs: any two bytes, then these many bytes.
fn runs(n: usize) {
    split(true);
    let mut b = vec![0u8; n];
    bytes(&mut b, 0);
    let a = nonresident(T_DATA, 0, &[], 0, 512, &b);
    let total = (a.len() - 64) as u64;
    let mut d = Disk::new(volume(512, &[&record(512, 1, &[&a])]));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let v = match a.value(&mut d) {
        Ok(NtfsAttributeValue::NonResident(v)) => v,
        Ok(_) => return check(false, "kind of the value"),
        Err(e) => return check_run(e, &b, total),
    };
    if let Some(Err(e)) = v.data_runs().next() {
        check_run(e, &b, total);
    }
}
fn check_run(e: NtfsError, b: &[u8], total: u64) {
    let pos = POS + 56 + 64;
    let (cl, ll) = ((b[0] & 15) as u64, (b[0] >> 4) as u64);
    let mut count = 0u64;
    for i in 0..8 {
        if (i as u64) < cl.min(8) && i + 1 < b.len() {
            count |= (b[i + 1] as u64) << (8 * i);
        }
    }
    match e {
        NtfsError::InvalidByteCountInDataRunHeader { position, expected, actual } => {
            reach("byte count");
            check(at(position) == pos && actual == 8 && (expected as u64 == cl || expected as u64 == ll) && expected > 8, "byte count");
        }
        NtfsError::InvalidClusterCountInDataRunHeader { position, cluster_count } => {
            reach("cluster count");
            check(at(position) == pos && cluster_count == count && (count == 0 || count > u64::MAX / 512), "cluster count");
        }
        NtfsError::InvalidVcnInDataRunHeader { position, vcn, previous_lcn } => {
            reach("first cluster");
            check(at(position) == pos && previous_lcn.value() == 0 && vcn.value() < 0 && ll > 0, "first cluster");
        }
        NtfsError::LcnTooBig { lcn } => {
            reach("cluster too far");
            check(ll > 0 && lcn.value() as u128 * 512 + count as u128 * 512 >> 64 != 0, "cluster too far");
        }
        NtfsError::Io(e) => {
            reach("runs cut off");
            check(e.kind() == ErrorKind::UnexpectedEof && 1 + cl + ll > total, "runs cut off");
        }
        _ => check(false, "another error of a data run"),
    }
}

crate::entries! {
    n32_boot_cut => boot_cut();
    n32_boot_sector => boot_sector();
    n32_record => file_record(512, true);
    n32_record_two => file_record(1024, true);
    n32_record_all => file_record(512, false); // deep
    n32_record_two_all => file_record(1024, false); // deep
    n32_attribute => attribute(false);
    n32_attribute_end => attribute(true);
    n32_values => values();
    n32_residency => residency();
    n32_root => root();
    n32_index_record => index_record_();
    n32_entry => index_entry(0, false);
    n32_entry_in_record => index_entry(0, true);
    n32_entry_short => index_entry(13, false);
    n32_list_entry => list_entry(32);
    n32_list_short => list_entry(20);
    n32_file_cut => file_cut();
    n32_value_cut => value_cut();
    n32_index_cut => index_cut();
    n32_runs => runs(16);
    n32_runs_short => runs(3);
}
