use crate::disk::*;
use crate::rt::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::{NtfsIndexAllocation, NtfsStructuredValue};
use ntfs::types::Vcn;
use ntfs::{Ntfs, NtfsError, NtfsReadSeek};

/// The update sequence of record `r`: None if the record must be refused.
fn protected(r: &[u8]) -> Option<(usize, usize)> {
    let (o, n) = (le16(r, 4) as usize, le16(r, 6) as usize);
    if n < 1 || o + 2 > r.len() || o + 2 * n > r.len() || (n - 1) * 512 > r.len() {
        return None;
    }
    for i in 0..r.len() / 512 {
        if i < n - 1 && !(r[512 * i + 510] == r[o] && r[512 * i + 511] == r[o + 1]) {
            return None;
        }
    }
    Some((o, n - 1))
}

const HEAD: usize = 80;

/// Record 1 has one attribute, whose resident value is all of the record from offset `HEAD` on.
/// The update sequence offset, its count and all value bytes are symbolic.
fn file(size: usize) {
    split(true);
    let mut rec = vec![0u8; size];
    let first = HEAD - 24;
    put(&mut rec, 0, b"FILE");
    bytes(&mut rec[4..8], 1);
    put16(&mut rec, 20, first as u16);
    put32(&mut rec, 24, size as u32);
    put32(&mut rec, 28, size as u32);
    put32(&mut rec, first, T_DATA);
    put32(&mut rec, first + 4, (size - first) as u32);
    put32(&mut rec, first + 16, (size - HEAD) as u32);
    put16(&mut rec, first + 20, 24);
    bytes(&mut rec[HEAD..], 0);
    let vol = volume(size, &[&rec]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let want = protected(&rec);
    match (ntfs.file(&mut d, 1), want) {
        (Ok(f), Some((o, n))) => {
            reach("file record accepted");
            check(f.attributes_raw().count() == 1, "one attribute");
            let a = f.attributes_raw().next().unwrap().unwrap();
            let NtfsAttributeValue::Resident(v) = a.value(&mut d).unwrap() else { unreachable!() };
            let data = v.data();
            check(data.len() == size - HEAD, "value length");
            // Unless the array lies where it is itself replaced, every byte is determined.
            let k = size / 512;
            let mut over = false;
            for i in 0..k {
                over |= o + 2 * n + 2 > 512 * i + 510 && o < 512 * i + 512;
            }
            for i in 0..k {
                let e = 512 * i + 510;
                if i < n {
                    reach("protected sector");
                    if !over {
                        check(data[e - HEAD] == rec[o + 2 + 2 * i] && data[e + 1 - HEAD] == rec[o + 3 + 2 * i], "sector end restored from the array");
                    }
                } else {
                    check(data[e - HEAD] == rec[e] && data[e + 1 - HEAD] == rec[e + 1], "unprotected sector end left alone");
                }
            }
            let j = u16_(2, 0) as usize;
            assume(j < size - HEAD && (j + HEAD) % 512 < 510);
            check(data[j] == rec[HEAD + j], "all other bytes are those on disk");
        }
        (Ok(_), None) => check(false, "a torn or malformed file record was accepted"),
        (Err(e), None) => {
            if matches!(e, NtfsError::UpdateSequenceNumberMismatch { .. }) {
                reach("torn file record refused");
            }
            check(
                matches!(
                    e,
                    NtfsError::UpdateSequenceNumberMismatch { .. }
                        | NtfsError::UpdateSequenceArrayExceedsRecordSize { .. }
                        | NtfsError::InvalidUpdateSequenceNumberRange { .. }
                        | NtfsError::InvalidUpdateSequenceCount { .. }
                ),
                "the error names the update sequence",
            );
        }
        (Err(_), Some((o, n))) => {
            // If the array overlaps the bytes it replaces, refusing is as good.
            let mut over = false;
            for i in 0..size / 512 {
                over |= o + 2 * n + 2 > 512 * i + 510 && o < 512 * i + 512;
            }
            check(over, "an intact file record was refused");
        }
    }
}

/// The same for the index record at VCN 0. Its sector ends lie in the names of two entries.
fn index() {
    split(true);
    let size = 1024;
    let mut rec = vec![0u8; size];
    put(&mut rec, 0, b"INDX");
    bytes(&mut rec[4..8], 1);
    put32(&mut rec, 24, 40);
    put32(&mut rec, 28, 1000);
    put32(&mut rec, 32, 1000);
    // (offset of the entry, its length, characters of the name)
    for (e, len, chars) in [(64, 600, 255), (664, 360, 139)] {
        put16(&mut rec, e + 8, len);
        put16(&mut rec, e + 10, 66 + 2 * chars);
        rec[e + 16 + 64] = chars as u8;
        bytes_at(&mut rec[e + 82..e + 82 + 2 * chars as usize], 0, e as u64);
    }
    let run = [0x11, 2, 16, 0];
    let alloc = nonresident(T_ALLOC, 0, &[], 0, size as u64, &run);
    let mut vol = volume(512, &[&record(512, 3, &[&alloc])]);
    vol.resize(16 * 512, 0);
    vol.extend_from_slice(&rec);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let v = a.value(&mut d).unwrap();
    let ia = NtfsIndexAllocation::from_attribute_value(&mut d, v).unwrap();
    let want = protected(&rec);
    let mut over = false;
    if let Some((o, n)) = want {
        for i in 0..2 {
            over |= o + 2 * n + 2 > 512 * i + 510 && o < 512 * i + 512;
        }
    }
    match (ia.record_from_vcn(&mut d, size as u32, Vcn::from(0)), want) {
        (Ok(r), Some((o, n))) => {
            reach("index record accepted");
            if over {
                return;
            }
            for (i, entry) in r.entries::<NtfsFileNameIndex>().unwrap().enumerate() {
                let key = entry.unwrap().key().unwrap().unwrap();
                let start = 64 + 600 * i + 82;
                let name = key.name().0;
                let e = 510 + 512 * i;
                let (x, y) = (name[e - start], name[e - start + 1]);
                if i < n {
                    reach("protected index sector");
                    check(x == rec[o + 2 + 2 * i] && y == rec[o + 3 + 2 * i], "index sector end restored from the array");
                } else {
                    check(x == rec[e] && y == rec[e + 1], "unprotected index sector end left alone");
                }
                let j = u16_(2, 0) as usize;
                assume(j < name.len() && (j + start) % 512 < 510);
                check(name[j] == rec[start + j], "all other index bytes are those on disk");
            }
        }
        (Ok(_), None) => check(false, "a torn or malformed index record was accepted"),
        (Err(_), None) => reach("torn index record refused"),
        (Err(_), Some(_)) => check(over, "an intact index record was refused"),
    }
}

/// Any header of a record of 64 KiB and more: offsets near the top of the 16-bit range.
fn large(sectors: usize) {
    split(true);
    let size = sectors * 512;
    let mut rec = vec![0u8; size];
    put(&mut rec, 0, b"FILE");
    bytes(&mut rec[4..8], 1);
    put16(&mut rec, 20, 64);
    put32(&mut rec, 24, size as u32);
    put32(&mut rec, 28, size as u32);
    put32(&mut rec, 64, 0xffff_ffff);
    bytes(&mut rec[65530..65536], 3);
    assume(le16(&rec, 4) >= 0xfff0);
    // clusters of 64 KiB, MFT at cluster 1
    let mut img = boot((size / 65536) as u8);
    img[13] = 128;
    put64(&mut img, 0x30, 1);
    img.resize(65536, 0);
    let run = [0x11, 2 * (size / 65536) as u8, 1, 0];
    let data = nonresident(T_DATA, 0, &[], 0, 2 * size as u64, &run);
    let mut mft = record(1024, 1, &[&data]);
    mft.resize(size, 0);
    img.extend_from_slice(&mft);
    img.extend_from_slice(&rec);
    let mut d = Disk::new(img);
    let ntfs = Ntfs::new(&mut d).unwrap();
    check(ntfs.file_record_size() as usize == size, "file record size");
    match ntfs.file(&mut d, 1) {
        Ok(_) => reach("large record accepted"),
        Err(_) => reach("large record refused"),
    }
}

crate::entries! {
    n02_file_512 => file(512);
    n02_file_1024 => file(1024);
    n02_index => index();
    n02_large => large(128);
    n02_file_4096 => file(4096); // deep
    n02_larger => large(256); // deep
}
