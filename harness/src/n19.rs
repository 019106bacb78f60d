use crate::disk::*;
use crate::rt::*;
use ntfs::structured_values::*;
use ntfs::{Ntfs, NtfsAttribute, NtfsAttributeType, NtfsError, NtfsGuid};

/// A value of up to `n` bytes of an attribute of this type, and other attributes after it.
fn with(ty: u32, n: usize, check_it: impl Fn(&NtfsAttribute, &mut Disk, &[u8], usize, u64)) {
    split(true);
    let mut b = vec![0u8; n];
    bytes(&mut b, 0);
    let len = u16_(1, 0) as usize;
    assume(len <= n);
    let mut a = resident(ty, 0, &[], &b);
    put32(&mut a, 16, len as u32);
    let vol = volume(512, &[&record(512, 1, &[&a, &resident(T_DATA, 1, &[], &[0x41; 40])])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    check_it(&a, &mut d, &b, len, record_pos(512, 1) as u64 + 56 + 24);
}

/// The value is too small (or large): `min` bytes were expected.
fn refused(e: NtfsError, of: NtfsAttributeType, min: u64, len: usize, pos: u64) {
    match e {
        NtfsError::InvalidStructuredValueSize { position, ty, expected, actual } => {
            reach("size refused");
            check(ty == of, "the error names the attribute");
            check(expected == min && actual == len as u64, "the error names the sizes");
            check(position.value().map_or(0, |p| p.get()) == pos, "the error names the position");
        }
        _ => check(false, "other error"),
    }
}

fn std_info(r: Result<NtfsStandardInformation, NtfsError>, b: &[u8], len: usize, pos: u64) {
    match r {
        Err(e) => {
            check(len < 48, "standard information was refused");
            refused(e, NtfsAttributeType::StandardInformation, 48, len, pos);
        }
        Ok(s) => {
            reach("standard information");
            check(len >= 48, "standard information which is too small was accepted");
            check(s.creation_time().nt_timestamp() == le64(b, 0), "creation time");
            check(s.modification_time().nt_timestamp() == le64(b, 8), "modification time");
            check(s.mft_record_modification_time().nt_timestamp() == le64(b, 16), "record modification time");
            check(s.access_time().nt_timestamp() == le64(b, 24), "access time");
            check(s.file_attributes().bits() == le32(b, 32) & 0x1000_7fe7, "file attributes");
            let long = len >= 72;
            if long {
                reach("long standard information");
            }
            check(s.maximum_versions() == if long { Some(le32(b, 36)) } else { None }, "maximum versions");
            check(s.version() == if long { Some(le32(b, 40)) } else { None }, "version");
            check(s.class_id() == if long { Some(le32(b, 44)) } else { None }, "class id");
            check(s.owner_id() == if long { Some(le32(b, 48)) } else { None }, "owner id");
            check(s.security_id() == if long { Some(le32(b, 52)) } else { None }, "security id");
            check(s.quota_charged() == if long { Some(le64(b, 56)) } else { None }, "quota");
            check(s.usn() == if long { Some(le64(b, 64)) } else { None }, "update sequence number");
        }
    }
}

fn guid(g: Option<&NtfsGuid>, b: &[u8], i: usize, len: usize) {
    match g {
        None => check(len < 16 * i + 16, "an identifier is missing"),
        Some(g) => {
            check(len >= 16 * i + 16, "an identifier which is not there");
            let o = 16 * i;
            check(g.data1 == le32(b, o) && g.data2 == le16(b, o + 4) && g.data3 == le16(b, o + 6), "identifier");
            for j in 0..8 {
                check(g.data4[j] == b[o + 8 + j], "identifier");
            }
        }
    }
}
fn object_id(r: Result<NtfsObjectId, NtfsError>, b: &[u8], len: usize, pos: u64) {
    match r {
        Err(e) => {
            check(len < 16, "an object id was refused");
            refused(e, NtfsAttributeType::ObjectId, 16, len, pos);
        }
        Ok(s) => {
            reach("object id");
            guid(Some(s.object_id()), b, 0, len);
            guid(s.birth_volume_id(), b, 1, len);
            guid(s.birth_object_id(), b, 2, len);
            guid(s.domain_id(), b, 3, len);
        }
    }
}

fn volume_info(r: Result<NtfsVolumeInformation, NtfsError>, b: &[u8], len: usize, pos: u64) {
    match r {
        Err(e) => {
            check(len < 12, "volume information was refused");
            refused(e, NtfsAttributeType::VolumeInformation, 12, len, pos);
        }
        Ok(s) => {
            reach("volume information");
            check(len >= 12, "volume information which is too small was accepted");
            check(s.major_version() == b[8] && s.minor_version() == b[9], "version");
            check(s.flags().bits() == le16(b, 10) & 0xc03f, "flags");
        }
    }
}

fn volume_name(r: Result<NtfsVolumeName, NtfsError>, b: &[u8], len: usize, pos: u64) {
    match r {
        Err(e) => {
            check(len > 256, "a label was refused");
            refused(e, NtfsAttributeType::VolumeName, 256, len, pos);
        }
        Ok(s) => {
            reach("label");
            check(len <= 256, "a label which is too long was accepted");
            check(s.name_length() == len && s.name().0.len() == len, "length of the label");
            let j = u16_(9, 0) as usize;
            if j < len && s.name().0.len() == len {
                check(s.name().0[j] == b[j], "label");
            }
        }
    }
}

/// Values of another type or kind are not read.
fn kind() {
    let ty = [T_STD, T_NAME, T_OID, T_VOLNAME, T_VOLINFO, T_DATA][choose(0, 0, 6) as usize];
    let nonres = choose(0, 1, 2) != 0;
    let mut b = [0u8; 80];
    bytes(&mut b, 1);
    let a = if nonres { nonresident(ty, 0, &[], 0, 80, &[0x11, 1, 20, 0]) } else { resident(ty, 0, &[], &b) };
    let mut vol = volume(512, &[&record(512, 1, &[&a])]);
    vol.resize(20 * 512, 0);
    vol.extend_from_slice(&b);
    vol.resize(21 * 512, 0);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let pos = if nonres { 20 * 512 } else { record_pos(512, 1) as u64 + 56 + 24 };
    match a.resident_structured_value::<NtfsStandardInformation>() {
        Err(NtfsError::AttributeOfDifferentType { expected, actual, .. }) => {
            reach("other type");
            check(ty != T_STD && expected == NtfsAttributeType::StandardInformation && actual as u32 == ty, "types");
        }
        Err(NtfsError::UnexpectedNonResidentAttribute { .. }) => check(ty == T_STD && nonres, "non-resident"),
        r => {
            check(ty == T_STD && !nonres, "an attribute of another kind was read");
            std_info(r, &b, 80, pos);
        }
    }
    match a.structured_value::<_, NtfsObjectId>(&mut d) {
        Err(NtfsError::AttributeOfDifferentType { expected, actual, .. }) => {
            check(ty != T_OID && expected == NtfsAttributeType::ObjectId && actual as u32 == ty, "types");
        }
        r => {
            check(ty == T_OID, "an attribute of another type was read");
            object_id(r, &b, 80, pos);
        }
    }
    match a.structured_value::<_, NtfsVolumeInformation>(&mut d) {
        Err(NtfsError::AttributeOfDifferentType { .. }) => check(ty != T_VOLINFO, "types"),
        r => {
            check(ty == T_VOLINFO, "an attribute of another type was read");
            volume_info(r, &b, 80, pos);
        }
    }
    match a.structured_value::<_, NtfsVolumeName>(&mut d) {
        Err(NtfsError::AttributeOfDifferentType { .. }) => check(ty != T_VOLNAME, "types"),
        r => {
            check(ty == T_VOLNAME, "an attribute of another type was read");
            volume_name(r, &b, 80, pos);
        }
    }
}

crate::entries! {
    n19_std => with(T_STD, 88, |a, _, b, l, p| std_info(a.resident_structured_value::<NtfsStandardInformation>(), b, l, p));
    n19_std_general => with(T_STD, 88, |a, d, b, l, p| std_info(a.structured_value::<_, NtfsStandardInformation>(d), b, l, p));
    n19_oid => with(T_OID, 80, |a, _, b, l, p| object_id(a.resident_structured_value::<NtfsObjectId>(), b, l, p));
    n19_oid_general => with(T_OID, 80, |a, d, b, l, p| object_id(a.structured_value::<_, NtfsObjectId>(d), b, l, p));
    n19_info => with(T_VOLINFO, 40, |a, _, b, l, p| volume_info(a.resident_structured_value::<NtfsVolumeInformation>(), b, l, p));
    n19_info_general => with(T_VOLINFO, 40, |a, d, b, l, p| volume_info(a.structured_value::<_, NtfsVolumeInformation>(d), b, l, p));
    n19_label => with(T_VOLNAME, 272, |a, _, b, l, p| volume_name(a.resident_structured_value::<NtfsVolumeName>(), b, l, p));
    n19_label_general => with(T_VOLNAME, 272, |a, d, b, l, p| volume_name(a.structured_value::<_, NtfsVolumeName>(d), b, l, p));
    n19_kind => kind();
}
