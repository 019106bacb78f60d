use crate::disk::*;
use crate::model::*;
use crate::rt::*;
use crate::split::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::types::{Lcn, NtfsPosition, Vcn};
use ntfs::{Ntfs, NtfsAttributeType, NtfsError, NtfsReadSeek};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::num::NonZeroU64;
use std::ops::Range;

/// Any value of a field of an error; `i` tells the fields apart.
trait Any: Clone + PartialEq {
    fn any(i: u64) -> Self;
}
macro_rules! any {
    ($($t:ty: $i:ident => $e:expr;)*) => {
        $(impl Any for $t { fn any($i: u64) -> Self { $e } })*
    };
}
any! {
    u8: i => byte(0, 16 * i);
    i8: i => byte(0, 16 * i) as i8;
    u16: i => u16_(0, 16 * i);
    u32: i => u32_(0, 16 * i);
    u64: i => u64_(0, 16 * i);
    usize: i => u64_(0, 16 * i) as usize;
    Vcn: i => Vcn::from(u64_(0, 16 * i) as i64);
    Lcn: i => Lcn::from(u64_(0, 16 * i));
    Range<usize>: i => u64_(0, 16 * i) as usize..u64_(0, 16 * i + 8) as usize;
    [u8; 2]: i => [byte(0, 16 * i), byte(0, 16 * i + 1)];
    [u8; 4]: i => [byte(0, 16 * i), byte(0, 16 * i + 1), byte(0, 16 * i + 2), byte(0, 16 * i + 3)];
    &'static [u8]: i => if byte(0, 16 * i) & 1 == 0 { b"FILE" } else { &[0x55, 0xaa] };
    NtfsAttributeType: i => if byte(0, 16 * i) & 1 == 0 { NtfsAttributeType::Data } else { NtfsAttributeType::IndexRoot };
    NtfsPosition: i => {
        let n = u64_(0, 16 * i);
        assume(n != 0);
        NtfsPosition::from(NonZeroU64::new(n).unwrap())
    };
}

macro_rules! errors {
    ($($v:ident { $($f:ident: $t:ty),* };)*) => {
        const KINDS: u8 = [$(stringify!($v)),*].len() as u8;
        /// Converts an error of kind `k` with any fields, and looks at what the standard error carries.
        #[allow(unused_assignments, unused_variables, unused_mut)]
        fn convert(k: u8) {
            let mut n = 0;
            $(
                if k == n {
                    let mut i = 0u64;
                    $(let $f = <$t as Any>::any(i); i += 1;)*
                    let want = ($($f.clone(),)*);
                    let e = io::Error::from(NtfsError::$v { $($f),* });
                    check(e.kind() == ErrorKind::Other, "kind of the converted error");
                    check(e.raw_os_error().is_none(), "a converted error is none of the system");
                    let same = match e.get_ref().and_then(|x| x.downcast_ref::<NtfsError>()) {
                        Some(NtfsError::$v { $($f),* }) => want == ($($f.clone(),)*),
                        _ => false,
                    };
                    check(same, "the converted error carries the library's error");
                    reach("converted");
                }
                n += 1;
            )*
        }
    };
}
errors! {
    AttributeNotFound { position: NtfsPosition, ty: NtfsAttributeType };
    AttributeOfDifferentType { position: NtfsPosition, expected: NtfsAttributeType, actual: NtfsAttributeType };
    BufferTooSmall { expected: usize, actual: usize };
    InvalidAttributeLength { position: NtfsPosition, expected: usize, actual: usize };
    InvalidAttributeNameLength { position: NtfsPosition, expected: usize, actual: u32 };
    InvalidAttributeNameOffset { position: NtfsPosition, expected: u16, actual: u32 };
    InvalidByteCountInDataRunHeader { position: NtfsPosition, expected: u8, actual: u8 };
    InvalidClusterCountInDataRunHeader { position: NtfsPosition, cluster_count: u64 };
    InvalidFileAllocatedSize { position: NtfsPosition, expected: u32, actual: u32 };
    InvalidFileRecordNumber { file_record_number: u64 };
    InvalidFileSignature { position: NtfsPosition, expected: &'static [u8], actual: [u8; 4] };
    InvalidFileUsedSize { position: NtfsPosition, expected: u32, actual: u32 };
    InvalidIndexAllocatedSize { position: NtfsPosition, expected: u32, actual: u32 };
    InvalidIndexEntriesOffset { position: NtfsPosition, expected: u32, actual: u32 };
    InvalidIndexEntryDataRange { position: NtfsPosition, range: Range<usize>, size: u16 };
    InvalidIndexEntrySize { position: NtfsPosition, expected: u16, actual: u16 };
    InvalidIndexRootEntriesOffset { position: NtfsPosition, expected: usize, actual: usize };
    InvalidIndexRootUsedSize { position: NtfsPosition, expected: usize, actual: usize };
    InvalidIndexSignature { position: NtfsPosition, expected: &'static [u8], actual: [u8; 4] };
    InvalidIndexUsedSize { position: NtfsPosition, expected: u32, actual: u32 };
    InvalidMftLcn {};
    InvalidNonResidentValueDataRange { position: NtfsPosition, range: Range<usize>, size: usize };
    InvalidResidentAttributeValueLength { position: NtfsPosition, length: u32, offset: u16, actual: u32 };
    InvalidResidentAttributeValueOffset { position: NtfsPosition, expected: u16, actual: u32 };
    InvalidRecordSizeInfo { size_info: i8, cluster_size: u32 };
    InvalidSectorsPerCluster { sectors_per_cluster: u8 };
    InvalidStructuredValueSize { position: NtfsPosition, ty: NtfsAttributeType, expected: u64, actual: u64 };
    InvalidTime {};
    InvalidTwoByteSignature { position: NtfsPosition, expected: &'static [u8], actual: [u8; 2] };
    InvalidUpcaseTableSize { expected: u64, actual: u64 };
    InvalidUpdateSequenceCount { position: NtfsPosition, update_sequence_count: u16 };
    InvalidUpdateSequenceNumberRange { position: NtfsPosition, range: Range<usize>, size: usize };
    InvalidVcnInDataRunHeader { position: NtfsPosition, vcn: Vcn, previous_lcn: Lcn };
    LcnTooBig { lcn: Lcn };
    MissingIndexAllocation { position: NtfsPosition };
    NotADirectory { position: NtfsPosition };
    RecursiveIndexSubnode { position: NtfsPosition, vcn: Vcn };
    TotalSectorsTooBig { total_sectors: u64 };
    UnexpectedAttributeListAttribute { position: NtfsPosition };
    UnexpectedNonResidentAttribute { position: NtfsPosition };
    UnexpectedResidentAttribute { position: NtfsPosition };
    UnsupportedAttributeType { position: NtfsPosition, actual: u32 };
    UnsupportedClusterSize { min: u32, max: u32, actual: u32 };
    UnsupportedFileNamespace { position: NtfsPosition, actual: u8 };
    UnsupportedSectorSize { min: u16, max: u16, actual: u16 };
    UpdateSequenceArrayExceedsRecordSize { position: NtfsPosition, array_count: u16, record_size: usize };
    UpdateSequenceNumberMismatch { position: NtfsPosition, expected: [u8; 2], actual: [u8; 2] };
    VcnMismatchInIndexAllocation { position: NtfsPosition, expected: Vcn, actual: Vcn };
    VcnOutOfBoundsInIndexAllocation { position: NtfsPosition, vcn: Vcn };
    VcnTooBig { vcn: Vcn };
}

const STD: [ErrorKind; 18] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Interrupted,
    ErrorKind::UnexpectedEof,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

#[derive(Debug)]
struct Payload(u64);
impl std::fmt::Display for Payload {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Payload {}

/// Errors of the reader come back as they are.
fn io_errors() {
    split(true);
    match choose(1, 0, 3) {
        0 => {
            let n = u32_(0, 0) as i32;
            let e = io::Error::from(NtfsError::from(io::Error::from_raw_os_error(n)));
            reach("error of the system");
            check(e.raw_os_error() == Some(n), "the system's error number is kept");
        }
        k => {
            let kind = STD[choose(1, 1, STD.len() as u8) as usize];
            let n = u64_(0, 0);
            let e = if k == 1 { io::Error::from(kind) } else { io::Error::new(kind, Payload(n)) };
            let e = io::Error::from(NtfsError::from(e));
            check(e.kind() == kind, "kind of the error");
            check(e.raw_os_error().is_none(), "no error of the system");
            match e.get_ref() {
                Some(x) => {
                    reach("error with a payload");
                    check(k == 2 && matches!(x.downcast_ref::<Payload>(), Some(p) if p.0 == n), "the reader's payload is kept");
                }
                None => check(k == 1, "the reader's payload is not dropped"),
            }
        }
    }
}

const EXTENTS: [(u64, Option<u64>); 3] = [(1, Some(40)), (1, None), (1, Some(30))];
const LEN: u64 = 1535;

fn same_result(direct: &Result<u64, NtfsError>, adapter: &io::Result<u64>) {
    match (direct, adapter) {
        (Ok(x), Ok(y)) => check(x == y, "same result through the adapter"),
        (Err(NtfsError::Io(x)), Err(y)) => {
            reach("same I/O error");
            check(x.kind() == y.kind(), "same kind of I/O error through the adapter");
        }
        (Err(x), Err(y)) => {
            reach("same error of the library");
            check(y.kind() == ErrorKind::Other, "errors of the library have kind Other");
            let same = match y.get_ref().and_then(|y| y.downcast_ref::<NtfsError>()) {
                Some(y) => std::mem::discriminant(x) == std::mem::discriminant(y),
                None => false,
            };
            check(same, "same error of the library through the adapter");
        }
        _ => check(false, "the adapter succeeds when the direct interface does"),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Resident,
    NonResident,
    Damaged,
    Inner,
    Split,
    Missing,
}

/// The same operations directly and through an adapter.
fn adapter(kind: Kind, ops: u64, budget: u64) {
    split(true);
    let m = Model::fixed(&EXTENTS, LEN);
    let img;
    let mut s = Split { m, parts: vec![3], img: Vec::new(), base: true };
    match kind {
        Kind::Resident => {
            let mut value = [0; 9];
            bytes(&mut value, 9);
            img = volume(512, &[&record(512, 1, &[&resident(T_DATA, 0, &[], &value)])]);
        }
        Kind::NonResident | Kind::Inner | Kind::Damaged => {
            let mut runs = s.m.pairs(0, 3);
            if kind == Kind::Damaged {
                // the hole has this header instead
                runs[7] = byte(9, 0);
            }
            img = volume(512, &[&record(512, 1, &[&nonresident(T_DATA, 0, &[], 0, LEN, &runs)])]);
        }
        Kind::Split | Kind::Missing => {
            s = Split::of(s.m, &[1, 1, 1], true);
            let mut i = s.img.clone();
            if kind == Kind::Missing {
                s.set_instance(&mut i, 2, 77);
            }
            img = i;
        }
    }
    let mut d = TagDisk::with_image(img.clone());
    let mut e = TagDisk::with_image(img);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let item = match kind {
        Kind::Resident => None,
        _ => Some(s.item(&f, &mut d)),
    };
    let a = match &item {
        Some(i) => i.to_attribute().unwrap(),
        None => f.attributes_raw().next().unwrap().unwrap(),
    };
    let mut v = a.value(&mut d).unwrap();
    let w = v.clone();
    d.arm(6, 5, budget);
    e.arm(6, 5, budget);
    if kind == Kind::Inner {
        let NtfsAttributeValue::NonResident(w) = w else { return check(false, "kind of the value") };
        let mut t = w.attach(&mut e);
        for i in 0..ops {
            both(i, &mut v, &mut d, &mut t);
            check(t.data_position() == v.data_position(), "same position on the volume through the adapter");
            check(t.len() == v.len() && t.is_empty() == v.is_empty(), "same length through the adapter");
        }
        let w = t.detach();
        check(w.stream_position() == v.stream_position(), "the detached value keeps the position");
        check(w.data_position() == v.data_position(), "the detached value keeps the position on the volume");
    } else {
        let mut t = w.attach(&mut e);
        for i in 0..ops {
            both(i, &mut v, &mut d, &mut t);
            check(t.data_position() == v.data_position(), "same position on the volume through the adapter");
            check(t.len() == v.len() && t.is_empty() == v.is_empty(), "same length through the adapter");
        }
        let w = t.detach();
        check(w.stream_position() == v.stream_position(), "the detached value keeps the position");
        check(w.data_position() == v.data_position(), "the detached value keeps the position on the volume");
    }
}

fn both<T: Read + Seek>(i: u64, v: &mut NtfsAttributeValue, d: &mut TagDisk, t: &mut T) {
    let mut x = [0xaau8; 6];
    let mut y = [0xaau8; 6];
    let n = byte(1, 64 + i) as usize;
    assume(n <= 6);
    match choose(1, 16 + i, 4) {
        0 => {
            let r = v.read(d, &mut x[..n]);
            same_result(&r.map(|x| x as u64), &t.read(&mut y[..n]).map(|x| x as u64));
        }
        1 => {
            let r = v.read_exact(d, &mut x[..n]);
            same_result(&r.map(|_| 0), &t.read_exact(&mut y[..n]).map(|_| 0));
        }
        k => {
            let n = u16_(1, 32 + 2 * i) as i16 as i64;
            let s = match choose(1, 80 + i, 3) {
                0 => SeekFrom::Start(n as u64),
                1 => SeekFrom::Current(n),
                _ => SeekFrom::End(n),
            };
            if k == 3 {
                // the position, which standard readers ask for with a seek by 0
                same_result(&v.seek(d, SeekFrom::Current(0)), &t.stream_position());
            } else {
                same_result(&v.seek(d, s), &t.seek(s));
            }
        }
    }
    check(x == y, "same bytes through the adapter");
}

crate::entries! {
    n23_errors => { split(true); convert(choose(1, 0, KINDS)) };
    n23_io_errors => io_errors();
    n23_resident => adapter(Kind::Resident, 3, 0);
    n23_non_resident => adapter(Kind::NonResident, 2, 1);
    n23_inner => adapter(Kind::Inner, 2, 1);
    n23_damaged => adapter(Kind::Damaged, 2, 0);
    n23_split => adapter(Kind::Split, 2, 1);
    n23_missing => adapter(Kind::Missing, 2, 1);
    n23_more => adapter(Kind::NonResident, 3, 2); // deep
    n23_split_more => adapter(Kind::Split, 3, 1); // deep
}
