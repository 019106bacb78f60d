use crate::disk::*;
use crate::index::*;
use crate::rt::*;
use crate::tree::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::{Ntfs, NtfsError, NtfsIndex};
use std::cmp::Ordering;

/// Searches in a sorted tree of one-byte keys, two in a row with the same finder.
fn search(n: usize, slots: usize, child_slots: usize, damaged: bool, twice: bool) {
    split(true);
    assume(byte(PROBE, 0) == 0);
    let (vol, out) = tree(n, slots, child_slots, 512, true, damaged);
    let mut prev: Option<u8> = None;
    let mut complete = true;
    for x in &out {
        match x {
            Item::Key(_, k) => {
                if let Some(p) = prev {
                    assume(p < *k);
                }
                prev = Some(*k);
            }
            Item::Error => complete = false,
        }
    }
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let mut attrs = f.attributes();
    let r = attrs.next(&mut d).unwrap().unwrap();
    let al = attrs.next(&mut d).map(|a| a.unwrap());
    let index = NtfsIndex::<RawIndex>::new(r, al).unwrap();
    let mut finder = index.finder();
    for i in 0..1 + twice as u64 {
        let x = byte(20, i);
        let mut at = None;
        for y in &out {
            if let Item::Key(p, k) = y {
                if *k == x {
                    at = Some(*p);
                }
            }
        }
        match finder.find(&mut d, |k| x.cmp(&k.byte)) {
            None => {
                reach("not found");
                check(at.is_none() || !complete, "a key which is there was not found");
            }
            Some(Ok(e)) => {
                reach("found");
                match e.key() {
                    Some(Ok(k)) => {
                        check(k.byte == x, "another key was found");
                        if complete {
                            check(at == Some(k.pos), "the entry found is the one which has the key");
                        }
                    }
                    _ => check(false, "the entry found has a key"),
                }
            }
            Some(Err(_)) => {
                reach("search failed");
                check(!complete, "a search in valid nodes succeeds");
            }
        }
    }
}

/// Searches in nodes which refer to each other in any way end.
fn ends(n: usize) {
    split(true);
    assume(byte(PROBE, 0) == 0);
    let (vol, _) = tree(n, 2, 2, 512, false, false);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let mut attrs = f.attributes();
    let r = attrs.next(&mut d).unwrap().unwrap();
    let al = attrs.next(&mut d).map(|a| a.unwrap());
    let index = NtfsIndex::<RawIndex>::new(r, al).unwrap();
    let mut finder = index.finder();
    let x = byte(20, 0);
    match finder.find(&mut d, |k| x.cmp(&k.byte)) {
        Some(Ok(e)) => check(matches!(e.key(), Some(Ok(k)) if k.byte == x), "another key was found"),
        Some(Err(NtfsError::RecursiveIndexSubnode { .. })) => reach("recursive subnode"),
        _ => (),
    }
}

const AT: u16 = 0x60;

/// The name of up to `n` code units from the 16 at `AT`.
fn name(arr: u32, min: u8, n: u8) -> Vec<u16> {
    let len = min + choose(arr, 0, n - min + 1);
    (0..len as u64).map(|i| AT + (byte(arr, 20 + i) & 15) as u16).collect()
}
fn key(name: &[u16]) -> Vec<u8> {
    let mut k = vec![0u8; 66];
    k[64] = name.len() as u8;
    k[65] = 1;
    for c in name {
        k.extend_from_slice(&c.to_le_bytes());
    }
    k
}
fn order(t: &[u8], a: &[u16], b: &[u16]) -> Ordering {
    for i in 0..a.len().min(b.len()) {
        let (x, y) = (le16(t, 2 * a[i] as usize), le16(t, 2 * b[i] as usize));
        if x != y {
            return x.cmp(&y);
        }
    }
    a.len().cmp(&b.len())
}

/// Names in a directory by any upcase table: one in the root and one in a subnode before or after it.
fn names(n: u8, m: u8) {
    let mut t = Vec::with_capacity(131072);
    for i in 0..65536u32 {
        t.extend_from_slice(&(i as u16).to_le_bytes());
    }
    let o = 2 * AT as usize;
    bytes_at(&mut t[o..o + 32], 0, 0);
    let (a, b) = (name(1, 1, n), name(2, 1, n));
    // a comes first
    assume(order(&t, &a, &b) == Ordering::Less);
    let above = choose(3, 0, 3);
    let (root, rec) = match above {
        0 => ([entry(&key(&a), false, None), entry(&[], true, Some(0))].concat(), [entry(&key(&b), false, None), entry(&[], true, None)].concat()),
        1 => ([entry(&key(&b), false, Some(0)), entry(&[], true, None)].concat(), [entry(&key(&a), false, None), entry(&[], true, None)].concat()),
        _ => ([entry(&key(&a), false, None), entry(&key(&b), false, None), entry(&[], true, None)].concat(), entry(&[], true, None)),
    };
    let lcn = 13 + 256u16;
    let r = resident(T_ROOT, 1, &I30, &index_root(512, &root, above < 2));
    let al = nonresident(T_ALLOC, 2, &I30, 0, 512, &[0x21, 1, lcn as u8, (lcn >> 8) as u8, 0]);
    let dir = record(512, 3, &[&r, &al]);
    let empty = record(512, 1, &[]);
    let up = upcase_record(256, 131072);
    let mut recs: Vec<&[u8]> = vec![&empty; 10];
    recs[0] = &dir;
    recs[9] = &up;
    let mut v = volume(512, &recs);
    check(v.len() / 512 == UPCASE_LCN as usize, "geometry");
    v.extend_from_slice(&t);
    v.extend_from_slice(&index_record(512, 0, &rec, false));
    let mut d = Disk::new(v);
    let mut ntfs = Ntfs::new(&mut d).unwrap();
    ntfs.read_upcase_table(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let index = f.directory_index(&mut d).unwrap();
    let mut finder = index.finder();
    let x = name(4, 0, m);
    let s: String = x.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect();
    let is = if order(&t, &x, &a) == Ordering::Equal {
        Some(&a)
    } else if order(&t, &x, &b) == Ordering::Equal {
        Some(&b)
    } else {
        None
    };
    match NtfsFileNameIndex::find(&mut finder, &ntfs, &mut d, &s) {
        None => {
            reach("name not found");
            check(is.is_none(), "a name which is there was not found");
        }
        Some(Ok(e)) => {
            reach("name found");
            let k = e.key().unwrap().unwrap();
            check(is.map_or(false, |n| k.name().0.len() == 2 * n.len() && (0..n.len()).all(|i| le16(k.name().0, 2 * i) == n[i])), "the name found is the one which is equal");
        }
        Some(Err(_)) => check(false, "a search in a valid directory succeeds"),
    };
}

crate::entries! {
    n14_tree => search(2, 3, 2, false, true);
    n14_wide => search(1, 4, 4, false, true);
    n14_deep => search(3, 2, 2, false, false);
    n14_damaged => search(2, 2, 2, true, false);
    n14_ends => ends(2);
    n14_names => names(2, 2);
    n14_names_long => names(3, 2);
    n14_names_three => names(3, 3); // deep
    n14_three => search(3, 3, 3, false, false); // deep
    n14_ends_three => ends(3); // deep
}
