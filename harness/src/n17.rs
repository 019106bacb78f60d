use crate::disk::*;
use crate::rt::*;
use nt_string::u16strle::U16StrLe;
use ntfs::{Ntfs, NtfsError, UpcaseOrd};

/// The stored value of every code unit of the 256 in page `page` takes effect: a name of one such
/// code unit compares with any other upcased value as the stored value does.
fn map(page: Option<u8>, probe: u16) {
    let (v, lcn) = volume_with_upcase(&upcase_record(256, 131072));
    let base = lcn * 512;
    let mut d = Disk::with_array(v, 0, base + 131072);
    let mut n = Ntfs::new(&mut d).unwrap();
    check(n.read_upcase_table(&mut d).is_ok(), "a table of the right size loads");
    let page = page.unwrap_or_else(|| choose(3, 0, 255));
    let low = byte(1, 0);
    let c = (page as u16) << 8 | low as u16;
    let stored = u16_(0, base + 2 * c as u64);
    let other = u16_(0, base + 2 * probe as u64);
    let (x, y) = (c.to_le_bytes(), probe.to_le_bytes());
    let r = U16StrLe(&x).upcase_cmp(&n, &U16StrLe(&y));
    check(r == stored.cmp(&other), "the stored upcase value is used");
}

/// Tables of any size.
fn size() {
    let size = u64_(0, 0);
    let (v, _) = volume_with_upcase(&upcase_record(258, size));
    let mut d = Disk::new(v);
    d.end = 1 << 20;
    d.beyond = Some(1);
    let mut n = Ntfs::new(&mut d).unwrap();
    match n.read_upcase_table(&mut d) {
        Ok(()) => {
            reach("accepted");
            check(size == 131072, "only a table of the right size is accepted");
        }
        Err(e) => {
            reach("refused");
            check(size != 131072, "a table of the right size is accepted");
            check(matches!(e, NtfsError::InvalidUpcaseTableSize { expected: 131072, actual } if actual == size), "error");
        }
    }
    check(matches!(n.file(&mut d, 1), Ok(_)), "the volume stays usable");
}

/// Tables which are cut short: by their data runs, by the end of the volume, by a read error.
fn cut(how: u8) {
    let (mut v, lcn) = volume_with_upcase(&upcase_record(if how == 0 { 255 } else { 256 }, 131072));
    let base = lcn * 512;
    let mut end = base + 131072;
    if how == 1 {
        end -= 1 + byte(2, 0) as u64;
    }
    if how == 2 {
        // no such file record
        v[record_pos(512, 10)] = b'B';
    }
    if how == 3 {
        // no data attribute
        let a = record_pos(512, 10) + 56;
        v[a] = 0x10;
    }
    let mut d = Disk::with_array(v, 0, end);
    let mut n = Ntfs::new(&mut d).unwrap();
    match n.read_upcase_table(&mut d) {
        Ok(()) => check(false, "a table which cannot be read is not loaded"),
        Err(e) => match how {
            1 => check(matches!(e, NtfsError::Io(_)), "an I/O error"),
            2 => check(matches!(e, NtfsError::InvalidFileSignature { .. }), "an invalid file record"),
            3 => check(matches!(e, NtfsError::AttributeNotFound { .. }), "a missing attribute"),
            _ => (),
        },
    }
    check(matches!(n.file(&mut d, 1), Ok(_)), "the volume stays usable");
    // and can load a good table later
    if how == 1 {
        d.end = base + 131072;
        check(n.read_upcase_table(&mut d).is_ok(), "a good table loads after a failure");
    }
}

crate::entries! {
    n17_first => map(Some(0), 0xffff);
    n17_last => map(Some(0xff), 0);
    n17_middle => map(Some(0x7f), 0x8000);
    n17_page => map(None, 0x1234);
    n17_size => size();
    n17_short_runs => cut(0);
    n17_short_volume => cut(1);
    n17_no_record => cut(2);
    n17_no_data => cut(3);
}
