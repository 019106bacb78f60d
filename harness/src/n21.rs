use crate::disk::*;
use crate::rt::*;
use ntfs::structured_values::NtfsObjectId;
use ntfs::{Ntfs, NtfsGuid};
use std::fmt::Write;

/// A formatter target of fixed size.
struct Out {
    b: [u8; 48],
    n: usize,
}
impl Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &c in s.as_bytes() {
            if self.n >= self.b.len() {
                return Err(std::fmt::Error);
            }
            self.b[self.n] = c;
            self.n += 1;
        }
        Ok(())
    }
}

fn digit(v: u8) -> u8 {
    if v < 10 {
        b'0' + v
    } else {
        b'A' + (v - 10)
    }
}

/// Where the digits of byte `i` of the canonical form (in printed order) stand.
const AT: [usize; 16] = [0, 2, 4, 6, 9, 11, 14, 16, 19, 21, 24, 26, 28, 30, 32, 34];

fn print_guid(g: &NtfsGuid, bytes: &[u8; 16]) {
    let mut o = Out { b: [0; 48], n: 0 };
    check(write!(o, "{}", g).is_ok(), "printing succeeds");
    check(o.n == 36, "36 characters");
    for i in [8, 13, 18, 23] {
        check(o.b[i] == b'-', "hyphens");
    }
    for i in 0..16 {
        let at = AT[i];
        check(o.b[at] == digit(bytes[i] >> 4) && o.b[at + 1] == digit(bytes[i] & 15), "digits");
    }
}

/// GUIDs in which the bytes of `mask` are symbolic and the others `fill`.
fn guid(mask: u16, fill: u8) {
    let mut b = [fill; 16];
    for i in 0..16 {
        if mask >> i & 1 != 0 {
            b[i] = byte(0, i as u64);
        }
    }
    let g = NtfsGuid {
        data1: u32::from_be_bytes([b[0], b[1], b[2], b[3]]),
        data2: u16::from_be_bytes([b[4], b[5]]),
        data3: u16::from_be_bytes([b[6], b[7]]),
        data4: [b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]],
    };
    print_guid(&g, &b);
}

/// The four identifiers of an object id attribute, of which number `which` is looked at.
fn object_id(which: usize) {
    let mut v = [0u8; 64];
    bytes(&mut v, 0);
    let vol = volume(512, &[&record(512, 1, &[&resident(T_OID, 0, &[], &v)])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let o = a.resident_structured_value::<NtfsObjectId>().unwrap();
    let g = match which {
        0 => Some(o.object_id()),
        1 => o.birth_volume_id(),
        2 => o.birth_object_id(),
        _ => o.domain_id(),
    };
    let Some(g) = g else {
        check(false, "all four identifiers are stored");
        return;
    };
    let s = &v[16 * which..16 * which + 16];
    check(g.data1 == le32(s, 0) && g.data2 == le16(s, 4) && g.data3 == le16(s, 6), "first fields of an identifier");
    check(g.data4[..] == s[8..16], "last field of an identifier");
    // Two identifiers are equal exactly when all their bytes are.
    let mut same = true;
    for i in 0..16 {
        same &= v[i] == s[i];
    }
    check((o.object_id() == g) == same, "equality");
    // print one with all but a few bytes fixed
    for i in 0..16 {
        if i != 3 && i != 4 && i != 7 && i != 9 {
            assume(s[i] == 0x9a);
        }
    }
    let p = [s[3], s[2], s[1], s[0], s[5], s[4], s[7], s[6], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]];
    print_guid(g, &p);
}

crate::entries! {
    n21_first => guid(0x00ff, 0xab);
    n21_last => guid(0xff00, 0xab);
    n21_first_0 => guid(0x00ff, 0);
    n21_last_0 => guid(0xff00, 0);
    n21_object => object_id(0);
    n21_volume => object_id(1);
    n21_birth => object_id(2);
    n21_domain => object_id(3);
    n21_all => guid(0xffff, 0); // deep
}
