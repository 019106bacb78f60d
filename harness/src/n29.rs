use crate::model::any_seek;
use crate::rt::*;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};

#[path = "/repo/examples/ntfs-shell/sector_reader.rs"]
mod sector_reader;
use sector_reader::SectorReader;

/// A reader which can only be used at sector boundaries and in whole sectors. Its bytes are array 0.
struct Sectors {
    size: u64,
    end: u64,
    pos: u64,
    budget: u64,
    ops: u64,
    failed: bool,
}
impl Sectors {
    /// 0: all sectors, 1: fewer sectors, 2: interrupted, 3: error
    fn outcome(&mut self, kinds: u8) -> u8 {
        if self.budget == 0 {
            return 0;
        }
        let k = choose(6, self.ops, kinds);
        self.ops += 1;
        self.budget -= (k > 0) as u64;
        k
    }
}
impl Read for Sectors {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        check(self.pos % self.size == 0, "reads begin at a sector boundary");
        check(b.len() as u64 % self.size == 0, "whole sectors are read");
        let mut n = self.end.saturating_sub(self.pos).min(b.len() as u64) as usize;
        match self.outcome(4) {
            0 => (),
            1 => {
                assume(n as u64 > self.size);
                n = self.size as usize;
            }
            2 => return Err(io::Error::from(ErrorKind::Interrupted)),
            _ => {
                self.failed = true;
                return Err(io::Error::from(ErrorKind::PermissionDenied));
            }
        }
        read(0, self.pos, &mut b[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sectors {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        match s {
            SeekFrom::Start(n) => {
                check(n % self.size == 0, "seeks lead to sector boundaries");
                if self.outcome(2) == 1 {
                    self.failed = true;
                    return Err(io::Error::from(ErrorKind::PermissionDenied));
                }
                self.pos = n;
            }
            _ => check(false, "seeks are absolute"),
        }
        Ok(self.pos)
    }
}

/// `n` times: a seek of any kind by any amount, then a read of a length among `lens` from there. The volume has `sectors` sectors.
fn ops(size: u64, sectors: u64, lens: &[usize], n: u64, budget: u64) {
    split(true);
    let end = sectors * size;
    let inner = Sectors { size, end, pos: 0, budget, ops: 0, failed: false };
    let mut r = match SectorReader::new(inner, size as usize) {
        Ok(r) => r,
        Err(_) => return check(false, "powers of two are sector sizes"),
    };
    let mut pos = 0u64;
    let mut buf = vec![0u8; *lens.last().unwrap() + 1];
    for i in 0..n {
        let (s, to) = any_seek(2, 32 * i, pos, 0);
        let from_end = matches!(s, SeekFrom::End(_));
        match r.seek(s) {
            Ok(x) => {
                check(!from_end && to == Some(x), "a seek leads where asked");
                pos = x;
            }
            Err(e) => {
                reach("seek refused");
                check(from_end || to.is_none() || e.kind() == ErrorKind::PermissionDenied && budget > 0, "a possible seek succeeds");
                // the position stays: later seeks are relative to it
                continue;
            }
        }
        let len = lens[choose(3, i, lens.len() as u8) as usize];
        buf.fill(0xaa);
        let probe = u16_(4, 2 * i) as usize;
        assume(probe < buf.len());
        // whether the range is followed by another byte of the volume (KNOWN-FINDING: the sector of that byte is read)
        let inside = pos < end && pos + (len as u64) < end;
        if inside {
            if size > 16 {
                assume(pos % size < 2 || pos % size == size - 1);
            }
            pos = concretize(pos);
        }
        match r.read(&mut buf[..len]) {
            Ok(got) => {
                check(got <= len && got as u64 <= end.saturating_sub(pos), "number of bytes read");
                check(!inside || got == len, "a range of the volume is read completely");
                if probe < got {
                    reach("byte");
                    check(buf[probe] == byte(0, pos + probe as u64), "byte read");
                } else {
                    check(buf[probe] == 0xaa, "bytes which were not read are left alone");
                }
                pos += got as u64;
            }
            Err(e) => {
                reach("read failed");
                check(!inside || budget > 0 && e.kind() == ErrorKind::PermissionDenied, "reads fail only if the underlying reader does");
            }
        }
    }
}

/// Two reads without a seek in between, and a read up to the very end.
fn consecutive() {
    let inner = Sectors { size: 512, end: 2048, pos: 0, budget: 0, ops: 0, failed: false };
    let mut r = SectorReader::new(inner, 512).unwrap();
    let mut b = [0; 4];
    check(matches!(r.read(&mut b), Ok(4)) && b[0] == byte(0, 0), "first read");
    check(matches!(r.read(&mut b), Ok(4)) && b[0] == byte(0, 4), "second read");
}
fn whole() {
    let inner = Sectors { size: 512, end: 512, pos: 0, budget: 0, ops: 0, failed: false };
    let mut r = SectorReader::new(inner, 512).unwrap();
    let mut b = [0; 512];
    check(matches!(r.read(&mut b), Ok(512)), "the last sector is read");
}

fn sizes() {
    let size = u64_(0, 0) as usize;
    let inner = Sectors { size: 1, end: 0, pos: 0, budget: 0, ops: 0, failed: false };
    match SectorReader::new(inner, size) {
        Ok(_) => {
            reach("accepted");
            check(size != 0 && size & (size - 1) == 0, "sector sizes are powers of two");
        }
        Err(_) => {
            reach("refused");
            check(size == 0 || size & (size - 1) != 0, "powers of two are sector sizes");
        }
    }
}

crate::entries! {
    n29_sizes => sizes();
    n29_ops => ops(8, 4, &[0, 1, 6, 8, 9], 1, 0);
    n29_small => ops(2, 4, &[3], 2, 0);
    n29_long => ops(512, 3, &[1, 513], 1, 0);
    n29_faults => ops(2, 4, &[3], 2, 1);
    n29_bytes => ops(1, 8, &[1, 3], 2, 1);
    n29_consecutive => consecutive();
    n29_whole => whole();
    n29_many => ops(4, 3, &[1, 4], 3, 1); // deep
    n29_large => ops(4096, 3, &[1, 4096], 1, 1); // deep
}
