use crate::disk::*;
use crate::model::*;
use crate::rt::*;
use ntfs::Ntfs;

/// Any record number in an MFT of `n` extents; `spc` sectors per cluster, records of `size` bytes.
fn layout(n: usize, most: u8, holes: u32, wide: bool, spc: u8, size: usize) {
    split(true);
    let cluster = 512 * spc as u64;
    let mut m = Model::symbolic(0, n, most, holes, wide);
    m.cluster = cluster;
    for e in &m.ext {
        assume(e.lcn.map_or(true, |l| l >= 16));
    }
    let info = if size as u64 >= cluster { (size as u64 / cluster) as u8 } else { (-(size.trailing_zeros() as i8)) as u8 };
    let mut img = boot(info);
    img[13] = spc;
    img.resize(2 * cluster as usize, 0);
    let a = nonresident(T_DATA, 0, &[], 0, m.size, &m.pairs(0, n));
    img.extend_from_slice(&record(size, 1, &[&a]));
    // the record asked for
    let mut rec = record(size, 0, &[&resident(T_DATA, 1, &[], b"abc")]);
    bytes_at(&mut rec[16..20], 2, 0);
    bytes_at(&mut rec[22..24], 2, 4);
    let number = if wide { u64_(1, 0) } else { byte(1, 0) as u64 };
    let mut parts = Vec::new();
    let mut complete = false;
    if let Some(off) = number.checked_mul(size as u64) {
        if off <= u64::MAX - size as u64 && off + size as u64 <= m.len() {
            complete = true;
            let step = (size as u64).min(cluster);
            let mut o = 0;
            while o < size as u64 {
                match m.at(off + o) {
                    Some(p) => parts.push((p, o as usize, step as usize)),
                    None => complete = false,
                }
                o += step;
            }
        }
    }
    let first = parts.first().copied();
    let mut d = MftDisk { img, rec: rec.clone(), parts, pos: 0 };
    let ntfs = Ntfs::new(&mut d).unwrap();
    match ntfs.file(&mut d, number) {
        Ok(f) => {
            reach("record found");
            check(complete, "a record outside of the MFT was reported");
            check(f.file_record_number() == number, "record number");
            check(f.position().value().map(|p| p.get()) == first.map(|p| p.0), "position of the record");
            check(f.sequence_number() == le16(&rec, 16), "sequence number");
            check(f.hard_link_count() == le16(&rec, 18), "link count");
            check(f.flags().bits() == le16(&rec, 22) & 3, "flags");
            check(f.data_size() == le32(&rec, 24) && f.allocated_size() == le32(&rec, 28), "sizes");
            let a = f.attributes_raw().next().unwrap().unwrap();
            check(a.instance() == 1 && a.value_length() == 3, "attributes");
        }
        Err(_) => {
            reach("no such record");
            check(!complete, "a record of the MFT was not found");
        }
    }
}

/// Any header of a record.
fn header() {
    let mut r = record(512, 1, &[&resident(T_DATA, 1, &[], b"abc")]);
    let sym = [(0usize, 4usize), (8, 8), (16, 2), (18, 2), (20, 2), (22, 2), (24, 4), (28, 4), (32, 8), (40, 2)];
    for (o, n) in sym {
        bytes_at(&mut r[o..o + n], 0, o as u64);
    }
    let vol = volume(512, &[&r]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let valid = &r[..4] == b"FILE" && le32(&r, 28) <= 512 && le32(&r, 24) <= le32(&r, 28);
    match ntfs.file(&mut d, 1) {
        Ok(f) => {
            reach("record accepted");
            check(valid, "an invalid record was accepted");
            check(f.file_record_number() == 1, "record number");
            check(f.position().value().map_or(0, |p| p.get()) == record_pos(512, 1) as u64, "position of the record");
            check(f.sequence_number() == le16(&r, 16), "sequence number");
            check(f.hard_link_count() == le16(&r, 18), "link count");
            check(f.flags().bits() == le16(&r, 22) & 3, "flags");
            check(f.is_directory() == (r[22] & 2 != 0), "directory flag");
            check(f.data_size() == le32(&r, 24), "used size");
            check(f.allocated_size() == le32(&r, 28), "allocated size");
        }
        Err(_) => {
            reach("record rejected");
            check(!valid, "a valid record was rejected");
        }
    }
}

crate::entries! {
    n03_header => header();
    n03_one => layout(1, 4, 0, true, 1, 1024);
    n03_two => layout(2, 3, 0, false, 1, 1024);
    n03_three => layout(3, 3, 0, false, 1, 1024);
    n03_hole => layout(3, 2, 0b010, false, 1, 512);
    n03_clusters => layout(2, 2, 0, false, 8, 1024);
    n03_four => layout(4, 3, 0, false, 1, 1024); // deep
    n03_long => layout(3, 4, 0b001, false, 1, 2048); // deep
}
