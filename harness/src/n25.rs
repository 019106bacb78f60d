use crate::disk::*;
use crate::index::*;
use crate::rt::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::{NtfsAttributeList, NtfsFileName, NtfsIndexRoot};
use ntfs::{Ntfs, NtfsFileReference};

/// Checks the reference stored in `b`, and the file it leads to on a volume with an MFT of any place and size.
fn reference(r: NtfsFileReference, b: &[u8], open: Option<&dyn Fn(&Ntfs, &mut MftDisk) -> Result<(u64, u64, u16), ()>>) {
    let v = le64(b, 0);
    let number = v & 0xffff_ffff_ffff;
    check(r.file_record_number() == number, "record number");
    check(r.sequence_number() as u64 == v >> 48, "sequence number");
    // clusters of the MFT
    let clusters = u64_(1, 0);
    let lcn = u64_(1, 8);
    assume(clusters >= 1 && clusters < 1 << 48 && lcn >= 16 && lcn < 1 << 40);
    let mut runs = vec![0x67];
    runs.extend_from_slice(&clusters.to_le_bytes()[..7]);
    runs.extend_from_slice(&lcn.to_le_bytes()[..6]);
    runs.push(0);
    let mut img = boot(1);
    img.resize(MFT_POS, 0);
    img.extend_from_slice(&record(512, 1, &[&nonresident(T_DATA, 0, &[], 0, clusters * 512, &runs)]));
    let mut rec = record(512, 1, &[]);
    bytes_at(&mut rec[16..18], 2, 0);
    let at = (lcn + number) * 512;
    let parts = if number < clusters { vec![(at, 0, 512)] } else { Vec::new() };
    let mut d = MftDisk { img, rec: rec.clone(), parts, pos: 0 };
    let ntfs = Ntfs::new(&mut d).unwrap();
    let got = match open {
        Some(f) => f(&ntfs, &mut d),
        None => match r.to_file(&ntfs, &mut d) {
            Ok(f) => Ok((f.file_record_number(), f.position().value().map_or(0, |p| p.get()), f.sequence_number())),
            Err(_) => Err(()),
        },
    };
    match got {
        Ok((n, pos, seq)) => {
            reach("file opened");
            check(number < clusters, "a file beyond the MFT was opened");
            check(n == number && pos == at, "the file which is referred to is opened");
            check(seq == le16(&rec, 16), "sequence number of the file");
        }
        Err(()) => {
            reach("no such file");
            check(number >= clusters, "the file which is referred to was not opened");
        }
    }
}

fn index_entry(key: bool) {
    split(true);
    let mut k = vec![0u8; 80];
    k[64] = 1;
    bytes_at(&mut k[..8], 3, 0);
    let mut e = entry(&k, false, None);
    bytes(&mut e[..8], 0);
    let b = e[..8].to_vec();
    let root = index_root(512, &[e, entry(&[], true, None)].concat(), false);
    let mut d = Disk::new(directory(512, &root, &[]).0);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let r = a.resident_structured_value::<NtfsIndexRoot>().unwrap();
    let e = r.entries::<NtfsFileNameIndex>().unwrap().next().unwrap().unwrap();
    if key {
        reference(e.key().unwrap().unwrap().parent_directory_reference(), &k, None);
    } else {
        reference(
            e.file_reference(),
            &b,
            Some(&|n, d| match e.to_file(n, d) {
                Ok(f) => Ok((f.file_record_number(), f.position().value().map_or(0, |p| p.get()), f.sequence_number())),
                Err(_) => Err(()),
            }),
        );
    }
}

fn file_name() {
    split(true);
    let mut v = vec![0u8; 68];
    v[64] = 1;
    bytes(&mut v[..8], 0);
    let mut d = Disk::new(volume(512, &[&record(512, 1, &[&resident(T_NAME, 0, &[], &v)])]));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let n = f.attributes_raw().next().unwrap().unwrap().structured_value::<_, NtfsFileName>(&mut d).unwrap();
    reference(n.parent_directory_reference(), &v, None);
}

fn list() {
    split(true);
    let mut v = vec![0u8; 32];
    put32(&mut v, 0, T_DATA);
    put16(&mut v, 4, 32);
    bytes(&mut v[16..24], 0);
    let mut d = Disk::new(volume(512, &[&record(512, 1, &[&resident(T_LIST, 0, &[], &v)])]));
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let l = f.attributes_raw().next().unwrap().unwrap().structured_value::<_, NtfsAttributeList>(&mut d).unwrap();
    let e = l.entries().next(&mut d).unwrap().unwrap();
    reference(
        e.base_file_reference(),
        &v[16..24],
        Some(&|n, d| match e.to_file(n, d) {
            Ok(f) => Ok((f.file_record_number(), f.position().value().map_or(0, |p| p.get()), f.sequence_number())),
            Err(_) => Err(()),
        }),
    );
}

crate::entries! {
    n25_index_entry => index_entry(false);
    n25_index_key => index_entry(true);
    n25_file_name => file_name();
    n25_list => list();
}
