//! Trees of index nodes whose shape and keys are symbolic, and the order of their entries.
#![allow(dead_code)]
use crate::disk::*;
use crate::index::*;
use crate::rt::*;

pub const SLOT: usize = 32;

/// The entries of a node of `slots` entries with 8-byte keys: flags, keys and subnode numbers
/// symbolic; the last one is always flagged so.
pub fn node(arr: u32, slots: usize) -> Vec<u8> {
    let mut v = vec![0u8; slots * SLOT];
    for i in 0..slots {
        let o = i * SLOT;
        put16(&mut v, o + 8, SLOT as u16);
        put16(&mut v, o + 10, 8);
        let f = byte(arr, 32 * i as u64);
        v[o + 12] = if i + 1 == slots { f | 2 } else { f };
        bytes_at(&mut v[o + 16..o + 32], arr, 32 * i as u64 + 8);
    }
    v
}

#[derive(Clone, Copy)]
pub enum Item {
    /// Key at this volume position, with this first byte.
    Key(u64, u8),
    Error,
}

pub struct Tree<'a> {
    pub nodes: &'a [Vec<u8>],
    /// volume position of the entries of each node
    pub at: Vec<u64>,
    pub bad: Vec<bool>,
    /// clusters per index record
    pub step: u64,
    /// subnode numbers are those of records which have not been visited yet
    pub proper: bool,
    pub used: Vec<bool>,
    pub out: Vec<Item>,
}
impl Tree<'_> {
    /// The listing of node `n`, whose parents are `path`; false: it ended with an error.
    pub fn list(&mut self, n: usize, path: &mut Vec<usize>) -> bool {
        let v = &self.nodes[n];
        for i in 0..v.len() / SLOT {
            let o = i * SLOT;
            let last = concretize((v[o + 12] & 2) as u64) != 0;
            if concretize((v[o + 12] & 1) as u64) != 0 {
                let vcn = le64(v, o + 24);
                if self.proper {
                    assume(vcn < (self.nodes.len() as u64 - 1) * self.step);
                }
                let mut child = self.nodes.len();
                for k in 1..self.nodes.len() {
                    if vcn == (k as u64 - 1) * self.step {
                        child = k;
                    }
                }
                if self.proper {
                    assume(child < self.nodes.len() && !self.used[child]);
                }
                if child == self.nodes.len() || path.contains(&child) || self.bad[child] {
                    self.out.push(Item::Error);
                    return false;
                }
                self.used[child] = true;
                path.push(child);
                if !self.list(child, path) {
                    return false;
                }
                path.pop();
            }
            if last {
                return true;
            }
            self.out.push(Item::Key(self.at[n] + o as u64 + 16, v[o + 16]));
        }
        true
    }
}

/// An index root of `slots` entries and `n` index records of as many, in a tree (`proper`) or any graph.
/// Returns the volume with this index in its file record 1, and the listing.
pub fn tree(n: usize, slots: usize, child_slots: usize, size: usize, proper: bool, damaged: bool) -> (Vec<u8>, Vec<Item>) {
    let mut nodes = vec![node(0, slots)];
    let mut records = Vec::new();
    let mut bad = vec![false];
    let step = size as u64 / 512;
    for i in 0..n {
        let e = node(1 + i as u32, child_slots);
        let mut r = index_record(size, i as u64 * step, &e, true);
        let mut b = false;
        if damaged {
            r[0] = byte(10, i as u64);
            // another number than that of its place
            r[16] = byte(10, 8 + i as u64);
            b = r[0] != b'I' || r[16] as u64 != i as u64 * step;
        }
        bad.push(b);
        records.push(r);
        nodes.push(e);
    }
    let root = index_root(size as u32, &nodes[0], true);
    let rs = if slots > 3 { 1024 } else { 512 };
    let (vol, pos) = directory(rs, &root, &records);
    let mut at = vec![record_pos(rs, 1) as u64 + 56 + 32 + 32];
    for i in 0..n {
        at.push(pos + i as u64 * size as u64 + 64);
    }
    let mut t = Tree { nodes: &nodes, at, bad, step, proper, used: vec![false; n + 1], out: Vec::new() };
    t.list(0, &mut Vec::new());
    let out = t.out;
    (vol, out)
}
