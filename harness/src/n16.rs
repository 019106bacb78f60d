use crate::disk::*;
use crate::rt::*;
use nt_string::u16strle::U16StrLe;
use ntfs::{Ntfs, UpcaseOrd};
use std::cmp::Ordering;

/// An upcase table which is symbolic in the 16 code units from each of `at` on, and the identity elsewhere.
fn ntfs(at: &[u16]) -> (Ntfs, Vec<u8>) {
    let mut t = Vec::with_capacity(131072);
    for i in 0..65536u32 {
        t.extend_from_slice(&(i as u16).to_le_bytes());
    }
    for &a in at {
        let o = 2 * a as usize;
        bytes_at(&mut t[o..o + 32], 0, a as u64 * 2);
    }
    let (mut v, lcn) = volume_with_upcase(&upcase_record(256, 131072));
    check(lcn == UPCASE_LCN as u64, "geometry");
    v.extend_from_slice(&t);
    let mut d = Disk::new(v);
    let mut n = Ntfs::new(&mut d).unwrap();
    check(n.read_upcase_table(&mut d).is_ok(), "the upcase table loads");
    (n, t)
}

/// The order of the names `a` and `b` by the table `t`.
fn order(t: &[u8], a: &[u16], b: &[u16]) -> Ordering {
    let up = |c: u16| le16(t, 2 * c as usize);
    for i in 0..a.len().min(b.len()) {
        let (x, y) = (up(a[i]), up(b[i]));
        if x != y {
            return x.cmp(&y);
        }
    }
    a.len().cmp(&b.len())
}

fn le(a: &[u16]) -> Vec<u8> {
    let mut v = Vec::new();
    for c in a {
        v.extend_from_slice(&c.to_le_bytes());
    }
    v
}

/// Up to `n` symbolic characters, each among the 16 from one of `at` on.
fn chars(arr: u32, n: u8, at: &[u32]) -> Vec<char> {
    let mut v = Vec::new();
    for i in 0..choose(arr, 0, n + 1) {
        let a = at[choose(arr, 10 + i as u64, at.len() as u8) as usize];
        v.push(char::from_u32(a + (byte(arr, 20 + i as u64) & 15) as u32).unwrap());
    }
    v
}
fn utf16(s: &[char]) -> Vec<u16> {
    let mut v = Vec::new();
    for c in s {
        let u = *c as u32;
        if u < 0x10000 {
            v.push(u as u16);
        } else {
            v.push(0xd800 + ((u - 0x10000) >> 10) as u16);
            v.push(0xdc00 + ((u - 0x10000) & 0x3ff) as u16);
        }
    }
    v
}

/// Names of up to `n` code units from the 16 at `at`.
fn units(n: u8, at: u16) {
    let (ntfs, t) = ntfs(&[at]);
    let mut s = [Vec::new(), Vec::new()];
    for k in 0..2 {
        for i in 0..choose(1 + k as u32, 0, n + 1) {
            s[k].push(at + (byte(1 + k as u32, 20 + i as u64) & 15) as u16);
        }
    }
    let [a, b] = s;
    let want = order(&t, &a, &b);
    let (x, y) = (le(&a), le(&b));
    let (x, y) = (U16StrLe(&x), U16StrLe(&y));
    check(x.upcase_cmp(&ntfs, &y) == want, "order of two UTF-16 names");
    check(y.upcase_cmp(&ntfs, &x) == want.reverse(), "order of two UTF-16 names the other way round");
}

/// Names of up to `n` and `m` characters from the 16 at any of `at`, spelled in UTF-8 and UTF-16.
fn spellings(n: u8, m: u8, at: &[u32]) {
    let mut w = Vec::new();
    for &a in at {
        if a < 0x10000 {
            w.push(a as u16);
        } else {
            w.push(0xd800 + ((a - 0x10000) >> 10) as u16 & !15);
            w.push(0xdc00 + ((a - 0x10000) & 0x3ff) as u16);
        }
    }
    let (ntfs, t) = ntfs(&w);
    let (a, b) = (chars(1, n, at), chars(2, m, at));
    let (ua, ub) = (utf16(&a), utf16(&b));
    let want = order(&t, &ua, &ub);
    let (x, y) = (le(&ua), le(&ub));
    let (x, y) = (U16StrLe(&x), U16StrLe(&y));
    let sa: String = a.iter().collect();
    let sb: String = b.iter().collect();
    check(x.upcase_cmp(&ntfs, &sb.as_str()) == want, "order of a UTF-16 and a UTF-8 name");
    check(sa.as_str().upcase_cmp(&ntfs, &y) == want, "order of a UTF-8 and a UTF-16 name");
    check(x.upcase_cmp(&ntfs, &y) == want, "order of the same names in UTF-16");
    check(x.upcase_cmp(&ntfs, &sa.as_str()) == Ordering::Equal, "both spellings of a name are equal");
}

crate::entries! {
    n16_units => units(4, 0x60);
    n16_units_high => units(3, 0xfff0);
    n16_units_low => units(3, 0);
    n16_ascii => spellings(2, 2, &[0x40]);
    n16_two => spellings(2, 1, &[0x60, 0xe0]);
    n16_three => spellings(1, 2, &[0x60, 0xff00]);
    n16_four => spellings(1, 1, &[0xfff0, 0x10420]);
    n16_mixed => spellings(2, 2, &[0x60, 0x7f0, 0x10420]);
    n16_units_five => units(5, 0x60);
    n16_units_eight => units(8, 0x60); // deep
}
