use crate::disk::*;
use crate::rt::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::{Ntfs, NtfsReadSeek};

#[derive(Clone, Copy, PartialEq)]
pub enum Step {
    End,
    Bad,
    /// Number of bytes of the pair, clusters, start cluster (None: hole)
    Run(usize, u64, Option<u64>),
}

/// Decodes the mapping pair at `o`.
pub fn decode(b: &[u8], o: usize, lcn: u64, cluster: u64) -> Step {
    if o >= b.len() || b[o] == 0 {
        return Step::End;
    }
    let (l, f) = ((b[o] & 15) as usize, (b[o] >> 4) as usize);
    if l > 8 || f > 8 || o + 1 + l + f > b.len() {
        return Step::Bad;
    }
    let mut count = 0u64;
    let mut delta = 0i128;
    let mut i = 0;
    while i < l {
        count |= (b[o + 1 + i] as u64) << (8 * i);
        i += 1;
    }
    i = 0;
    while i < f {
        delta |= (b[o + 1 + l + i] as i128) << (8 * i);
        i += 1;
    }
    if f > 0 && b[o + l + f] >= 128 {
        delta -= 1i128 << (8 * f);
    }
    if count == 0 || count as u128 * cluster as u128 >> 64 != 0 {
        return Step::Bad;
    }
    if f == 0 {
        return Step::Run(1 + l, count, None);
    }
    let new = lcn as i128 + delta;
    // The start and the end of the extent must be expressible as byte positions.
    if new < 0 || new >> 64 != 0 || (new as u128 + count as u128) * cluster as u128 > u64::MAX as u128 {
        return Step::Bad;
    }
    Step::Run(1 + l + f, count, Some(new as u64))
}

/// Mapping pairs: the last `n` bytes of an attribute; the first `fixed` are given.
fn runs(n: usize, fixed: &[u8], steps: usize) {
    split(true);
    let mut pairs = vec![0u8; n];
    bytes(&mut pairs, 0);
    pairs[..fixed.len()].copy_from_slice(fixed);
    let mut attr = nonresident(T_DATA, 0, &[], 0, 1 << 40, &[]);
    attr.extend_from_slice(&pairs);
    let alen = attr.len() as u32;
    put32(&mut attr, 4, alen);
    // followed by another attribute whose bytes must not be taken for mapping pairs
    let next = resident(T_ALLOC, 1, &[], &[0x11; 24]);
    let vol = volume(1024, &[&record(1024, 1, &[&attr, &next])]);
    let mut d = Disk::new(vol);
    let ntfs = Ntfs::new(&mut d).unwrap();
    let f = ntfs.file(&mut d, 1).unwrap();
    let a = f.attributes_raw().next().unwrap().unwrap();
    let first = decode(&pairs, 0, 0, 512);
    let v = match a.value(&mut d) {
        Ok(NtfsAttributeValue::NonResident(v)) => v,
        Ok(_) => {
            check(false, "non-resident value");
            return;
        }
        Err(_) => {
            reach("value refused");
            check(first == Step::Bad, "a value with a valid first pair was refused");
            return;
        }
    };
    check(first != Step::Bad, "a value with a malformed first pair was accepted");
    let mut it = v.data_runs();
    let (mut o, mut lcn) = (0, 0u64);
    let mut tag = TagDisk::new();
    for _ in 0..steps {
        let want = decode(&pairs, o, lcn, 512);
        match (it.next(), want) {
            (None, Step::End) => {
                reach("end of the runs");
                check(it.next().is_none(), "the end is final");
                return;
            }
            (Some(Err(_)), Step::Bad) => {
                reach("malformed pair");
                check(!matches!(it.next(), Some(Ok(_))), "no extent after a malformed pair");
                return;
            }
            (Some(Ok(mut r)), Step::Run(len, count, start)) => {
                check(r.allocated_size() == count * 512, "extent length");
                let pos = r.data_position().value().map_or(0, |x| x.get());
                let mut buf = [0xaau8; 4];
                tag.watch(&buf, 0);
                let n = r.read(&mut tag, &mut buf);
                check(matches!(n, Ok(4)), "an extent can be read");
                match start {
                    Some(l) => {
                        reach("extent");
                        check(pos == l * 512, "extent position");
                        check(buf == [MARK; 4] && tag.from == Some(l * 512), "an extent's bytes come from its clusters");
                        lcn = l;
                    }
                    None => {
                        reach("hole");
                        check(pos == 0, "a hole has no position");
                        check(buf == [0; 4] && tag.from.is_none(), "a hole reads as zeros");
                    }
                }
                o += len;
            }
            (None, _) => check(false, "the sequence ended early"),
            (Some(_), Step::End) => check(false, "the sequence did not end"),
            (Some(Ok(_)), Step::Bad) => check(false, "a malformed pair was accepted"),
            (Some(Err(_)), Step::Run(..)) => check(false, "a valid pair was refused"),
        }
    }
}

crate::entries! {
    // every first pair
    n06_first => runs(17, &[], 1);
    // every second pair after an extent of any length at any cluster
    n06_second => runs(34, &[0x88], 2);
    // every second pair after a hole
    n06_after_hole => runs(19, &[0x01, 0x01], 2);
    // everything of up to 5 bytes, to the end
    n06_short => runs(5, &[], 6);
    n06_third => runs(51, &[0x88, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x88], 3); // deep
    n06_long => runs(8, &[], 9); // deep
}
