use crate::disk::*;
use crate::index::*;
use crate::rt::*;
use crate::tree::*;
use ntfs::{Ntfs, NtfsIndex};

/// The listing of an index.
fn listing(n: usize, slots: usize, child_slots: usize, size: usize, proper: bool, damaged: bool) {
    split(true);
    let (vol, out) = tree(n, slots, child_slots, size, proper, damaged);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let mut attrs = f.attributes();
    let r = attrs.next(&mut d).unwrap().unwrap();
    let al = attrs.next(&mut d).map(|a| a.unwrap());
    let index = NtfsIndex::<RawIndex>::new(r, al).unwrap();
    let mut it = index.entries();
    for x in &out {
        match (it.next(&mut d), x) {
            (Some(Ok(e)), Item::Key(p, b)) => {
                reach("entry listed");
                match e.key() {
                    Some(Ok(k)) => {
                        check(k.pos == *p && k.len == 8, "the entry which is next in the order of the tree is listed");
                        if k.j == 0 {
                            check(k.byte == *b, "key of the entry");
                        }
                    }
                    _ => check(false, "key of a listed entry"),
                }
            }
            (Some(Err(_)), Item::Error) => {
                reach("error reported");
                return;
            }
            (Some(Ok(_)), Item::Error) => check(false, "an invalid subnode is reported"),
            (Some(Err(_)), _) => check(false, "listing a valid node succeeds"),
            (None, _) => check(false, "the listing ended before the last entry"),
        }
    }
    reach("complete listing");
    check(it.next(&mut d).is_none(), "the listing ends after the last entry");
    check(it.next(&mut d).is_none(), "the end is final");
}

crate::entries! {
    n13_tree => listing(2, 3, 2, 512, true, false);
    n13_wide => listing(2, 2, 3, 1024, true, false);
    n13_graph => listing(2, 2, 2, 512, false, false);
    n13_damaged => listing(2, 2, 1, 512, true, true);
    n13_deep => listing(3, 2, 2, 512, true, false);
    n13_three => listing(3, 3, 3, 512, true, false);
    n13_graph_three => listing(3, 2, 2, 512, false, false); // deep
    n13_chain => listing(5, 1, 2, 512, true, false); // deep
    n13_four => listing(4, 3, 2, 512, true, false); // deep
}
