//! Symbolic interpreter for LLVM IR.
use crate::expr::{Model, Pool, E, O};
use crate::fx::{FxMap, FxSet};
use crate::ir::*;
use crate::solver::Solver;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}
pub const CONC: E = u32::MAX;

#[derive(Clone)]
pub struct Data {
    pub b: Vec<u8>,
    pub s: Option<Vec<E>>,
}
#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub sym_size: Option<E>,
    pub data: Rc<Data>,
    pub kind: u8, // 0 const global, 1 heap, 2 stack, 3 mutable global
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fid: u32,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: u32,
    pub dst: u32,
    pub normal: u32,
    pub allocas: Vec<u64>,
    pub call_dbg: u32,
}
const NONE: u32 = u32::MAX;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Rc<BTreeMap<u64, Obj>>,
    pub next: u64,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub known: Rc<FxMap<E, u128>>,
    pub obs: Rc<Vec<V>>,
    pub steps: u64,
    pub depth: u32,
    pub alloc_limit: u64,
    /// Fork on selections and minima of 16 bits and more instead of building conditional terms.
    pub split: bool,
    pub arrays: Rc<Vec<u32>>,
    pub hash: u64,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Infeasible,
    Panic(String),
    Oob(String),
    Check(String),
    Steps,
    Error(String),
}

pub struct Violation {
    pub kind: String,
    pub id: String,
    pub trace: Vec<String>,
    pub cells: Vec<(u32, u64, u8)>,
}
pub struct Sample {
    pub cells: Vec<(u32, u64, u8)>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub max_path_steps: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub check_ids: std::collections::BTreeMap<String, u64>,
    pub reach: std::collections::BTreeSet<String>,
    pub violations: Vec<Violation>,
    pub viol_count: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub errors: Vec<String>,
    pub stopped: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    None,
    Panic,
    Abort,
    Malloc, Calloc, Realloc, Free, Memalign, AlignedAlloc,
    Memcmp, Bcmp, Strlen,
    SymBytes, SymByte, SymRead, SymAssume, SymCheck, SymReach, SymObserve, SymConc, SymAllocLimit, SymSplit,
    Memcpy, Memset,
    Ov(BinOp, bool), // with overflow; signed
    Sat(BinOp, bool),
    MinMax(bool, bool), // max, signed
    Fsh(bool),
    Ctlz, Cttz, Ctpop, Bswap, Bitrev, Abs, Cmp3(bool),
    Assume, Ident, IsConst, Nop, LoadRel, Expect, PtrMask,
    Unsup,
}

pub struct Exec {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    pub rep: Report,
    pub work: Vec<State>,
    builtins: FxMap<u32, B>,
    pub dbgs: Vec<u64>, // bitset of executed debug locations
    pub fset: FxSet<u32>,
    pub max_steps: u64,
    pub sample_mod: u64,
    pub sample_max: usize,
    pub viol_cap: u64,
    pub until: Option<std::time::Instant>,
    pub on_violation: Option<fn(&str, &str, &[String], &[(u32, u64, u8)])>,
    pub cur_dbg: u32,
    by_addr: Vec<(u64, u32)>,
    pub trace: bool,
}

const HEAP_BASE: u64 = 0x0000_5000_0000_0000;

type R<T> = Result<T, End>;

fn sx(v: u128, w: u32) -> i128 {
    if w == 0 { 0 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

impl Exec {
    pub fn new(m: Module) -> Self {
        let mut by_addr: Vec<(u64, u32)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, i as u32)).collect();
        by_addr.sort_unstable();
        Exec {
            m,
            p: Pool::new(),
            s: Solver::new(),
            rep: Report::default(),
            work: vec![],
            builtins: FxMap::default(),
            dbgs: vec![],
            fset: FxSet::default(),
            max_steps: 5_000_000,

            sample_mod: 1,
            sample_max: 24,
            viol_cap: 2,
            until: None,
            on_violation: None,
            cur_dbg: 0,
            by_addr,
            trace: std::env::var("SYMEX_DBG").is_ok(),
        }
    }
    pub fn start(&mut self, entry: &str) -> Result<State, String> {
        let id = *self.m.func_ids.get(entry).ok_or(format!("no function {}", entry))?;
        let f = self.m.get_func(id).ok_or("no body")?;
        self.fset.insert(id);
        let fr = Frame { regs: vec![V::C(0); f.nregs as usize], f, fid: id, blk: 0, ip: 0, dst: NODST, normal: NONE, allocas: vec![], call_dbg: 0 };
        Ok(State {
            frames: vec![Rc::new(fr)],
            mem: Rc::new(BTreeMap::new()),
            next: HEAP_BASE,
            pc: vec![],
            model: Rc::new(Model::default()),
            known: Rc::new(FxMap::default()),
            obs: Rc::new(vec![]),
            steps: 0,
            depth: 0,
            alloc_limit: 1 << 22,
            split: false,
            arrays: Rc::new(vec![]),
            hash: 0x1234567,
        })
    }

    // ---------- values ----------
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.p.c(w, *c),
            V::S(e) => {
                debug_assert_eq!(self.p.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> V {
        match self.p.cv(e) {
            Some(c) => V::C(c),
            None => V::S(e),
        }
    }
    fn expand(&self, v: V, ty: TyId) -> V {
        match (&v, self.m.types.get(ty)) {
            (V::C(_), Ty::Arr(n, e)) => V::A(Rc::new((0..*n).map(|_| self.expand(V::C(0), *e)).collect())),
            (V::C(_), Ty::Vec(n, e)) => V::A(Rc::new((0..*n).map(|_| self.expand(V::C(0), *e)).collect())),
            (V::C(_), Ty::Struct(fs, _)) => V::A(Rc::new(fs.iter().map(|f| self.expand(V::C(0), *f)).collect())),
            _ => v,
        }
    }
    fn cst(&self, c: &Cst) -> V {
        match c {
            Cst::Int(v) => V::C(*v),
            Cst::Zero => V::C(0),
            Cst::Agg(v) => V::A(Rc::new(v.iter().map(|x| self.cst(x)).collect())),
            Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
        }
    }
    fn op(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::Reg(r) => fr.regs[*r as usize].clone(),
            Op::C(c) => V::C(*c),
            Op::Agg(c) => self.cst(c),
        }
    }
    /// Replaces a value by its constant where the path condition fixed it.
    fn kn(&self, st: &State, v: V) -> V {
        if let V::S(e) = v {
            if let Some(&k) = st.known.get(&e) {
                return V::C(k);
            }
        }
        v
    }

    fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::UDiv => if y == 0 { m } else { x / y },
                BinOp::URem => if y == 0 { x } else { x % y },
                BinOp::SDiv => if y == 0 { m } else { sx(x, w).wrapping_div(sx(y, w)) as u128 },
                BinOp::SRem => if y == 0 { x } else { sx(x, w).wrapping_rem(sx(y, w)) as u128 },
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u128 { 0 } else { x << y },
                BinOp::LShr => if y >= w as u128 { 0 } else { x >> y },
                BinOp::AShr => (sx(x, w) >> y.min(w as u128 - 1)) as u128,
            };
            return V::C(r & m);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let p = &mut self.p;
        let r = match op {
            BinOp::Add => p.add(x, y),
            BinOp::Sub => p.sub(x, y),
            BinOp::Mul => p.mul(x, y),
            BinOp::UDiv => p.udiv(x, y),
            BinOp::URem => p.urem(x, y),
            BinOp::SDiv => p.sdiv(x, y),
            BinOp::SRem => p.srem(x, y),
            BinOp::And => p.and(x, y),
            BinOp::Or => p.or(x, y),
            BinOp::Xor => p.xor(x, y),
            BinOp::Shl => p.shl(x, y),
            BinOp::LShr => p.lshr(x, y),
            BinOp::AShr => p.ashr(x, y),
        };
        self.v(r)
    }
    fn icmp(&mut self, pr: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, t) = (sx(x, w), sx(y, w));
            let r = match pr {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s < t,
                Pred::Sle => s <= t,
                Pred::Sgt => s > t,
                Pred::Sge => s >= t,
            };
            return V::C(r as u128);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let p = &mut self.p;
        let r = match pr {
            Pred::Eq => p.eq(x, y),
            Pred::Ne => {
                let r = p.eq(x, y);
                p.not(r)
            }
            Pred::Ult => p.ult(x, y),
            Pred::Ule => p.ule(x, y),
            Pred::Ugt => p.ult(y, x),
            Pred::Uge => p.ule(y, x),
            Pred::Slt => p.slt(x, y),
            Pred::Sle => {
                let r = p.slt(y, x);
                p.not(r)
            }
            Pred::Sgt => p.slt(y, x),
            Pred::Sge => {
                let r = p.slt(x, y);
                p.not(r)
            }
        };
        self.v(r)
    }
    fn cast(&mut self, op: CastOp, wf: u32, wt: u32, a: &V) -> V {
        match a {
            V::C(x) => match op {
                CastOp::SExt => V::C(sx(*x, wf) as u128 & mask(wt)),
                _ => V::C(*x & mask(wt)),
            },
            V::S(e) => {
                let r = if wt == wf {
                    *e
                } else if wt < wf {
                    self.p.extract(*e, 0, wt)
                } else if op == CastOp::SExt {
                    self.p.sext(*e, wt)
                } else {
                    self.p.zext(*e, wt)
                };
                self.v(r)
            }
            V::A(_) => panic!(),
        }
    }
    fn select(&mut self, ty: TyId, c: E, a: &V, b: &V) -> V {
        let is_agg = matches!(self.m.types.get(ty), Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..));
        if is_agg {
            let a = self.expand(a.clone(), ty);
            let b = self.expand(b.clone(), ty);
            let tys: Vec<TyId> = match self.m.types.get(ty) {
                Ty::Arr(n, e) => vec![*e; *n as usize],
                Ty::Vec(n, e) => vec![*e; *n as usize],
                Ty::Struct(fs, _) => fs.clone(),
                _ => unreachable!(),
            };
            if let (V::A(x), V::A(y)) = (&a, &b) {
                let r = (0..tys.len()).map(|i| self.select(tys[i], c, &x[i], &y[i])).collect();
                return V::A(Rc::new(r));
            }
            unreachable!()
        }
        let w = self.m.types.bits(ty);
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.p.ite(c, x, y);
        self.v(r)
    }

    // ---------- path condition ----------
    fn learn(&mut self, st: &mut State, c: E, val: bool) {
        // facts implied by c == val
        let k = Rc::make_mut(&mut st.known);
        let mut stack = vec![(c, val)];
        while let Some((c, val)) = stack.pop() {
            if self.p.cv(c).is_some() {
                continue;
            }
            k.insert(c, val as u128);
            let n = self.p.n[c as usize];
            match n.op {
                O::Not => stack.push((n.a, !val)),
                O::And if val => {
                    stack.push((n.a, true));
                    stack.push((n.b, true));
                }
                O::Or if !val => {
                    stack.push((n.a, false));
                    stack.push((n.b, false));
                }
                O::Eq if val => {
                    if let Some(v) = self.p.cv(n.b) {
                        if self.p.w(n.a) > 1 {
                            k.insert(n.a, v);
                            let mut x = n.a;
                            // also narrow through zero extension
                            loop {
                                let m = self.p.n[x as usize];
                                if m.op == O::ZExt {
                                    x = m.a;
                                    k.insert(x, v);
                                } else {
                                    break;
                                }
                            }
                        } else {
                            stack.push((n.a, v == 1));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        let mut stack = vec![c];
        while let Some(c) = stack.pop() {
            let n = self.p.n[c as usize];
            if n.op == O::And {
                stack.push(n.a);
                stack.push(n.b);
                continue;
            }
            if n.op == O::Not {
                let m = self.p.n[n.a as usize];
                if m.op == O::Or {
                    let x = self.p.not(m.a);
                    let y = self.p.not(m.b);
                    stack.push(x);
                    stack.push(y);
                    continue;
                }
            }
            if self.p.cv(c).is_none() && !st.pc.contains(&c) {
                st.pc.push(c);
            }
        }
        self.learn(st, c, true);
    }
    fn sat(&mut self, st: &State, q: E) -> R<Option<Rc<Model>>> {
        let m = st.model.clone();
        self.s.check(&mut self.p, &st.pc, q, &m).map_err(|e| End::Error(e))
    }
    /// Decides a condition; pushes the other branch (`alt`, re-executing the current
    /// instruction) when both are feasible.  Returns the branch taken by this state.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.p.cv(c) {
            return Ok(v == 1);
        }
        if let Some(&v) = st.known.get(&c) {
            return Ok(v == 1);
        }
        let cur = st.model.eval(&self.p, c) == 1;
        let nc = self.p.not(c);
        let other = if cur { nc } else { c };
        match self.sat(st, other)? {
            None => {
                self.learn(st, c, cur);
                Ok(cur)
            }
            Some(m) => {
                self.rep.forks += 1;
                let mut alt = st.clone();
                alt.model = m;
                alt.depth += 1;
                alt.hash = alt.hash.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(other as u64).rotate_left(17);
                self.add_pc(&mut alt, other);
                self.work.push(alt);
                let this = if cur { c } else { nc };
                self.add_pc(st, this);
                st.depth += 1;
                st.hash = st.hash.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(this as u64 ^ 0x55).rotate_left(17);
                Ok(cur)
            }
        }
    }
    /// Restricts to one concrete value, forking for the others.
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                if let Some(&k) = st.known.get(e) {
                    return Ok(k);
                }
                let k = st.model.eval(&self.p, *e);
                let w = self.p.w(*e);
                let ke = self.p.c(w, k);
                let c = self.p.eq(*e, ke);
                let t = self.decide(st, c)?;
                debug_assert!(t);
                let kn = Rc::make_mut(&mut st.known);
                kn.insert(*e, k);
                Ok(k)
            }
            _ => Err(End::Error("concretise aggregate".into())),
        }
    }
    /// Must hold on every path, otherwise `end` describes the violation.
    fn must(&mut self, st: &mut State, c: E, end: impl FnOnce() -> End) -> R<()> {
        if let Some(v) = self.p.cv(c) {
            return if v == 1 { Ok(()) } else { Err(end()) };
        }
        if st.known.get(&c) == Some(&1) {
            return Ok(());
        }
        let nc = self.p.not(c);
        match self.sat(st, nc)? {
            None => {
                self.learn(st, c, true);
                Ok(())
            }
            Some(m) => {
                let mut bad = st.clone();
                bad.model = m;
                self.add_pc(&mut bad, nc);
                let e = end();
                self.finish(&bad, e);
                // continue on the good side if there is one
                match self.sat(st, c)? {
                    None => Err(End::Infeasible),
                    Some(m) => {
                        st.model = m;
                        self.add_pc(st, c);
                        Ok(())
                    }
                }
            }
        }
    }

    // ---------- memory ----------
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: u8, sym: Option<E>) -> u64 {
        let al = align.max(16);
        let addr = (st.next + al - 1) / al * al;
        st.next = addr + size + 64;
        Rc::make_mut(&mut st.mem).insert(addr, Obj { size, sym_size: sym, data: Rc::new(Data { b: vec![0; size as usize], s: None }), kind });
        addr
    }
    /// Base address of the object containing `a` (or ending exactly at it).
    fn find(&mut self, st: &mut State, a: u64) -> Option<u64> {
        if a >= HEAP_BASE {
            if let Some((&b, o)) = st.mem.range(..=a).next_back() {
                if a - b <= o.size {
                    return Some(b);
                }
            }
            return None;
        }
        if a >= GLOBAL_BASE {
            let i = match self.by_addr.binary_search_by(|x| x.0.cmp(&a)) {
                Ok(i) => i,
                Err(0) => return None,
                Err(i) => i - 1,
            };
            let (base, g) = self.by_addr[i];
            let (size, cst) = {
                let g = &self.m.globals[g as usize];
                (g.size, g.is_const)
            };
            if a - base > size {
                return None;
            }
            if !st.mem.contains_key(&base) {
                let init = self.m.global_init(g).unwrap_or_else(|| vec![0; size as usize]);
                let data = Rc::new(Data { b: init, s: None });
                Rc::make_mut(&mut st.mem).insert(base, Obj { size, sym_size: None, data, kind: if cst { 0 } else { 3 } });
            }
            return Some(base);
        }
        None
    }
    fn loc(&self) -> String {
        self.dbg_desc(self.cur_dbg)
    }
    /// Resolves an address for an access of `n` bytes (`n` may be symbolic with bound).
    /// Returns (base, offset expression or constant).
    fn resolve(&mut self, st: &mut State, addr: &V, n: &V, what: &str) -> R<(u64, V)> {
        let addr = self.kn(st, addr.clone());
        let n = self.kn(st, n.clone());
        let a0 = match &addr {
            V::C(c) => *c as u64,
            V::S(e) => st.model.eval(&self.p, *e) as u64,
            _ => return Err(End::Error("aggregate address".into())),
        };
        let n0 = match &n {
            V::C(c) => *c as u64,
            V::S(e) => st.model.eval(&self.p, *e) as u64,
            _ => unreachable!(),
        };
        if let V::C(0) = n {
            return Ok((0, V::C(0)));
        }
        let base = match self.find(st, a0) {
            Some(b) => b,
            None => {
                if n0 == 0 {
                    // zero-sized access in this model: split on the length
                    let ne = self.e(&n, 64);
                    let z = self.p.c(64, 0);
                    let c = self.p.eq(ne, z);
                    self.decide(st, c)?;
                    return Ok((0, V::C(0)));
                }
                return Err(End::Oob(format!("{} of {} bytes at unmapped address {:#x} in {}", what, n0, a0, self.loc())));
            }
        };
        let (size, sym) = {
            let o = &st.mem[&base];
            (o.size, o.sym_size)
        };
        if let (V::C(_), V::C(_), None) = (&addr, &n, sym) {
            if a0 - base + n0 > size {
                return Err(End::Oob(format!("{} of {} bytes at offset {} of a {}-byte object in {}", what, n0, a0 - base, size, self.loc())));
            }
            return Ok((base, V::C((a0 - base) as u128)));
        }
        // off <= size - n  and n <= size
        let off = match &addr {
            V::C(_) => self.p.c(64, (a0 - base) as u128),
            V::S(e) => {
                let b = self.p.c(64, base as u128);
                self.p.sub(*e, b)
            }
            _ => unreachable!(),
        };
        let ne = self.e(&n, 64);
        let se = match sym {
            Some(s) => s,
            None => self.p.c(64, size as u128),
        };
        let c1 = self.p.ule(ne, se);
        let room = self.p.sub(se, ne);
        let c2 = self.p.ule(off, room);
        let inb = self.p.and(c1, c2);
        if self.p.cv(inb) != Some(1) && st.known.get(&inb) != Some(&1) {
            let holds = st.model.eval(&self.p, inb) == 1;
            if !holds {
                // this model is outside: split; the inside part (if any) re-executes
                let ok = self.decide(st, inb)?;
                if !ok {
                    return Err(End::Oob(format!("{} of {} bytes at offset {} of a {}-byte object in {}", what, n0, a0.wrapping_sub(base) as i64, size, self.loc())));
                }
            } else {
                self.decide(st, inb)?;
            }
        }
        Ok((base, self.v(off)))
    }
    fn byte(&mut self, st: &State, base: u64, off: u64) -> E {
        let o = &st.mem[&base];
        if let Some(s) = &o.data.s {
            let e = s[off as usize];
            if e != CONC {
                return e;
            }
        }
        let b = o.data.b[off as usize];
        self.p.c(8, b as u128)
    }
    /// Window of offsets a symbolic offset can take for accesses of `n` bytes.
    fn window(&mut self, st: &State, base: u64, off: E, n: u64) -> (u64, u64) {
        let size = st.mem[&base].size;
        let lo = self.p.lo[off as usize] as u64;
        let hi = (self.p.hi[off as usize].min(u64::MAX as u128)) as u64;
        let max = size.saturating_sub(n);
        (lo.min(max), hi.min(max))
    }
    /// Tightens a window with the solver when it is large.
    fn tighten(&mut self, st: &State, off: E, lo: u64, hi: u64) -> R<(u64, u64)> {
        let v0 = st.model.eval(&self.p, off) as u64;
        // upper
        let (mut a, mut b) = (v0, hi); // a feasible, answer in [a,b]
        while a < b {
            let mid = a + (b - a) / 2;
            let k = self.p.c(64, mid as u128);
            let q = self.p.ult(k, off);
            match self.sat(st, q)? {
                Some(m) => a = (m.eval(&self.p, off) as u64).max(mid + 1).min(b),
                None => b = mid,
            }
        }
        let top = b;
        let (mut a, mut b) = (lo, v0);
        while a < b {
            let mid = a + (b - a) / 2;
            let k = self.p.c(64, mid as u128);
            let q = self.p.ule(off, k);
            match self.sat(st, q)? {
                Some(m) => b = (m.eval(&self.p, off) as u64).min(mid).max(a),
                None => a = mid + 1,
            }
        }
        Ok((b, top))
    }
    /// Symbolic arrays: window bytes follow Sel(A, D + j)?
    fn read_window(&mut self, st: &State, base: u64, off: E, lo: u64, hi: u64, n: u64) -> Vec<E> {
        // bytes lo..hi+n
        let cells: Vec<E> = (lo..hi + n).map(|j| self.byte(st, base, j)).collect();
        let cnt = (hi - lo + 1) as usize;
        // candidate pattern from majority of sampled cells
        let mut pat: Option<(u32, E)> = None;
        if cells.len() > 12 {
            let mut votes: FxMap<(u32, E), u32> = FxMap::default();
            let step = (cells.len() / 24).max(1);
            for k in (0..cells.len()).step_by(step) {
                let nd = self.p.n[cells[k] as usize];
                if nd.op == O::Sel {
                    let d = self.p.addc(nd.b, ((lo + k as u64) as u128).wrapping_neg());
                    *votes.entry((nd.a, d)).or_insert(0) += 1;
                }
            }
            if let Some((k, v)) = votes.into_iter().max_by_key(|x| (x.1, x.0)) {
                if v >= 3 {
                    pat = Some(k);
                }
            }
        }
        let mut out = vec![];
        let mut dev: Option<Vec<bool>> = None;
        if let Some((arr, d)) = pat {
            let mut v = vec![false; cells.len()];
            let mut nd = 0;
            for (k, &c) in cells.iter().enumerate() {
                let idx = self.p.addc(d, (lo + k as u64) as u128);
                let e = self.p.sel(arr, idx);
                if e != c {
                    v[k] = true;
                    nd += 1;
                }
            }
            if nd * 3 <= cells.len() {
                dev = Some(v);
            }
            let _ = arr;
        }
        for k in 0..n as usize {
            let w = &cells[k..k + cnt];
            let r = if w.iter().all(|&x| x == w[0]) {
                w[0]
            } else if let (Some((arr, d)), Some(dv)) = (pat, &dev) {
                let o = self.p.addc(off, k as u128);
                let idx = self.p.add(o, d);
                let mut e = self.p.sel(arr, idx);
                for j in 0..cnt {
                    if dv[k + j] {
                        let jj = self.p.c(64, (lo + j as u64) as u128);
                        let c = self.p.eq(off, jj);
                        e = self.p.ite(c, w[j], e);
                    }
                }
                e
            } else if cnt <= 3 {
                let mut e = w[cnt - 1];
                for j in (0..cnt - 1).rev() {
                    let jj = self.p.c(64, (lo + j as u64) as u128);
                    let c = self.p.eq(off, jj);
                    e = self.p.ite(c, w[j], e);
                }
                e
            } else {
                let w = w.to_vec();
                let idx = self.p.addc(off, (lo as u128).wrapping_neg());
                self.p.tbl(w, idx)
            };
            out.push(r);
        }
        out
    }
    fn load_bytes(&mut self, st: &mut State, base: u64, off: &V, n: u64) -> R<Vec<E>> {
        match off {
            V::C(o) => Ok((0..n).map(|i| self.byte(st, base, *o as u64 + i)).collect()),
            V::S(e) => {
                let (mut lo, mut hi) = self.window(st, base, *e, n);
                if hi - lo > 16 {
                    let t = self.tighten(st, *e, lo, hi)?;
                    lo = t.0;
                    hi = t.1;
                }
                Ok(self.read_window(st, base, *e, lo, hi, n))
            }
            _ => unreachable!(),
        }
    }
    fn set_byte(p: &Pool, d: &mut Data, i: usize, e: E) {
        if let Some(c) = p.cv(e) {
            d.b[i] = c as u8;
            if let Some(s) = &mut d.s {
                s[i] = CONC;
            }
        } else {
            let n = d.b.len();
            d.s.get_or_insert_with(|| vec![CONC; n])[i] = e;
        }
    }
    fn data_mut<'a>(st: &'a mut State, base: u64) -> &'a mut Data {
        let o = Rc::make_mut(&mut st.mem).get_mut(&base).unwrap();
        Rc::make_mut(&mut o.data)
    }
    fn store_bytes(&mut self, st: &mut State, base: u64, off: &V, bytes: &[E]) -> R<()> {
        if st.mem[&base].kind == 0 {
            return Err(End::Oob(format!("write to constant memory in {}", self.loc())));
        }
        match off {
            V::C(o) => {
                let d = Self::data_mut(st, base);
                for (i, &b) in bytes.iter().enumerate() {
                    Self::set_byte(&self.p, d, *o as usize + i, b);
                }
                Ok(())
            }
            V::S(e) => {
                let n = bytes.len() as u64;
                let (mut lo, mut hi) = self.window(st, base, *e, n);
                if hi - lo > 8 {
                    let t = self.tighten(st, *e, lo, hi)?;
                    lo = t.0;
                    hi = t.1;
                }
                let mut upd = vec![];
                for j in lo..hi + n {
                    let old = self.byte(st, base, j);
                    let mut v = old;
                    for k in 0..n {
                        if j >= k && j - k >= lo && j - k <= hi {
                            let jj = self.p.c(64, (j - k) as u128);
                            let c = self.p.eq(*e, jj);
                            v = self.p.ite(c, bytes[k as usize], v);
                        }
                    }
                    upd.push((j, v));
                }
                let d = Self::data_mut(st, base);
                for (j, v) in upd {
                    Self::set_byte(&self.p, d, j as usize, v);
                }
                Ok(())
            }
            _ => unreachable!(),
        }
    }
    fn join(&mut self, bytes: &[E], w: u32) -> V {
        let mut acc = bytes[0];
        for &b in &bytes[1..] {
            acc = self.p.concat(b, acc);
        }
        let tw = bytes.len() as u32 * 8;
        if w < tw {
            acc = self.p.extract(acc, 0, w);
        }
        self.v(acc)
    }
    fn load_at(&mut self, st: &mut State, base: u64, off: &V, ty: TyId) -> R<V> {
        match self.m.types.get(ty).clone() {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = self.m.types.bits(ty);
                let n = ((w + 7) / 8) as u64;
                if let V::C(o) = off {
                    let d = &st.mem[&base].data;
                    let o = *o as usize;
                    let conc = match &d.s {
                        None => true,
                        Some(s) => s[o..o + n as usize].iter().all(|&x| x == CONC),
                    };
                    if conc {
                        let mut v = 0u128;
                        for i in (0..n as usize).rev() {
                            v = v << 8 | d.b[o + i] as u128;
                        }
                        return Ok(V::C(v & mask(w)));
                    }
                }
                if w > 128 {
                    return Err(End::Error("wide load".into()));
                }
                let b = self.load_bytes(st, base, off, n)?;
                Ok(self.join(&b, w))
            }
            Ty::Arr(n, e) => self.load_elems(st, base, off, &(0..n).map(|i| (i * self.m.types.alloc_size(e), e)).collect::<Vec<_>>()),
            Ty::Vec(n, e) => {
                let w = self.m.types.bits(e);
                if w % 8 != 0 {
                    // packed bits
                    let total = (w * n + 7) / 8;
                    if total > 16 {
                        return Err(End::Error("packed vector load".into()));
                    }
                    let b = self.load_bytes(st, base, off, total as u64)?;
                    let v = self.join(&b, total * 8);
                    let x = self.e(&v, total * 8);
                    let r = (0..n).map(|i| { let y = self.p.extract(x, i * w, w); self.v(y) }).collect();
                    return Ok(V::A(Rc::new(r)));
                }
                self.load_elems(st, base, off, &(0..n as u64).map(|i| (i * (w as u64 / 8), e)).collect::<Vec<_>>())
            }
            Ty::Struct(fs, pk) => {
                let l: Vec<(u64, TyId)> = fs.iter().enumerate().map(|(i, f)| (self.m.types.struct_offset(&fs, pk, i), *f)).collect();
                self.load_elems(st, base, off, &l)
            }
            t => Err(End::Error(format!("load {:?}", t))),
        }
    }
    fn load_elems(&mut self, st: &mut State, base: u64, off: &V, l: &[(u64, TyId)]) -> R<V> {
        let mut out = vec![];
        for (o, t) in l {
            let oo = self.bin(BinOp::Add, 64, off, &V::C(*o as u128));
            out.push(self.load_at(st, base, &oo, *t)?);
        }
        Ok(V::A(Rc::new(out)))
    }
    fn store_at(&mut self, st: &mut State, base: u64, off: &V, ty: TyId, v: &V) -> R<()> {
        let v = &self.expand(v.clone(), ty);
        match self.m.types.get(ty).clone() {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = self.m.types.bits(ty);
                let n = ((w + 7) / 8) as usize;
                if let (V::C(c), V::C(o)) = (v, off) {
                    if st.mem[&base].kind == 0 {
                        return Err(End::Oob(format!("write to constant memory in {}", self.loc())));
                    }
                    let d = Self::data_mut(st, base);
                    let o = *o as usize;
                    for i in 0..n {
                        d.b[o + i] = (c >> (8 * i)) as u8;
                    }
                    if let Some(s) = &mut d.s {
                        for i in 0..n {
                            s[o + i] = CONC;
                        }
                    }
                    return Ok(());
                }
                let mut e = self.e(v, w);
                if w % 8 != 0 {
                    e = self.p.zext(e, n as u32 * 8);
                }
                let b: Vec<E> = (0..n).map(|i| self.p.extract(e, 8 * i as u32, 8)).collect();
                self.store_bytes(st, base, off, &b)
            }
            Ty::Arr(n, e) => self.store_elems(st, base, off, &(0..n).map(|i| (i * self.m.types.alloc_size(e), e)).collect::<Vec<_>>(), v),
            Ty::Vec(n, e) => {
                let w = self.m.types.bits(e);
                if w % 8 != 0 {
                    return Err(End::Error("packed vector store".into()));
                }
                self.store_elems(st, base, off, &(0..n as u64).map(|i| (i * (w as u64 / 8), e)).collect::<Vec<_>>(), v)
            }
            Ty::Struct(fs, pk) => {
                let l: Vec<(u64, TyId)> = fs.iter().enumerate().map(|(i, f)| (self.m.types.struct_offset(&fs, pk, i), *f)).collect();
                self.store_elems(st, base, off, &l, v)
            }
            t => Err(End::Error(format!("store {:?}", t))),
        }
    }
    fn store_elems(&mut self, st: &mut State, base: u64, off: &V, l: &[(u64, TyId)], v: &V) -> R<()> {
        let a = match v {
            V::A(a) => a.clone(),
            _ => return Err(End::Error("store agg".into())),
        };
        for (i, (o, t)) in l.iter().enumerate() {
            let oo = self.bin(BinOp::Add, 64, off, &V::C(*o as u128));
            self.store_at(st, base, &oo, *t, &a[i])?;
        }
        Ok(())
    }
    /// Upper bound for a symbolic length within `cap` (in-bounds was already established).
    fn len_bound(&mut self, st: &State, n: E, cap: u64) -> R<(u64, u64)> {
        let hi = (self.p.hi[n as usize].min(cap as u128)) as u64;
        let lo = self.p.lo[n as usize] as u64;
        if hi > 16 {
            return self.tighten(st, n, lo.min(hi), hi);
        }
        Ok((lo.min(hi), hi))
    }
    fn memcpy(&mut self, st: &mut State, dst: &V, src: &V, n: &V) -> R<()> {
        let n = self.kn(st, n.clone());
        if let V::C(0) = n {
            return Ok(());
        }
        let (sb, so) = self.resolve(st, src, &n, "read")?;
        let (db, d_o) = self.resolve(st, dst, &n, "write")?;
        let n = self.kn(st, n);
        if sb == 0 || db == 0 {
            return Ok(());
        }
        match n {
            V::C(c) => {
                let c = c as u64;
                if let (V::C(s0), V::C(d0)) = (&so, &d_o) {
                    if st.mem[&db].kind == 0 {
                        return Err(End::Oob(format!("write to constant memory in {}", self.loc())));
                    }
                    let (s0, d0, c) = (*s0 as usize, *d0 as usize, c as usize);
                    let sd = st.mem[&sb].data.clone();
                    let d = Self::data_mut(st, db);
                    d.b[d0..d0 + c].copy_from_slice(&sd.b[s0..s0 + c]);
                    if sd.s.is_some() || d.s.is_some() {
                        let len = d.b.len();
                        let ds = d.s.get_or_insert_with(|| vec![CONC; len]);
                        match &sd.s {
                            Some(ss) => ds[d0..d0 + c].copy_from_slice(&ss[s0..s0 + c]),
                            None => ds[d0..d0 + c].iter_mut().for_each(|x| *x = CONC),
                        }
                    }
                    return Ok(());
                }
                let b = self.load_bytes(st, sb, &so, c)?;
                if let V::S(e) = &d_o {
                    let (lo, hi) = self.window(st, db, *e, c);
                    if (hi - lo) * c > 4096 {
                        let k = self.conc(st, &d_o)?;
                        return self.store_bytes(st, db, &V::C(k), &b);
                    }
                }
                self.store_bytes(st, db, &d_o, &b)
            }
            V::S(ne) => {
                let d0 = self.conc(st, &d_o)? as u64;
                let ssize = st.mem[&sb].size;
                let cap = (st.mem[&db].size - d0).min(ssize);
                let (_, max) = self.len_bound(st, ne, cap)?;
                if max == 0 {
                    return Ok(());
                }
                let sbytes = match &so {
                    V::C(s0) => (0..max).map(|i| { let j = *s0 as u64 + i; if j < ssize { self.byte(st, sb, j) } else { self.p.c(8, 0) } }).collect::<Vec<_>>(),
                    V::S(off) => {
                        // byte i is only used if i < n, so off + i is in bounds then
                        let mut v = vec![];
                        let (lo, hi) = self.window(st, sb, *off, 1);
                        let (lo, hi) = if hi - lo > 16 { self.tighten(st, *off, lo, hi)? } else { (lo, hi) };
                        let ext = (hi + max).min(ssize);
                        let nn = ext - hi;
                        let w = self.read_window(st, sb, *off, lo, hi, nn);
                        v.extend(w);
                        while (v.len() as u64) < max {
                            // tail: offsets smaller than hi
                            let i = v.len() as u64;
                            let o = self.p.addc(*off, i as u128);
                            let l = (lo + i).min(ssize - 1);
                            let x = self.read_window(st, sb, o, l, ssize - 1, 1);
                            v.push(x[0]);
                        }
                        v
                    }
                    _ => unreachable!(),
                };
                let mut out = vec![];
                for i in 0..max {
                    let old = self.byte(st, db, d0 + i);
                    let k = self.p.c(64, i as u128);
                    let c = self.p.ult(k, ne);
                    out.push(self.p.ite(c, sbytes[i as usize], old));
                }
                self.store_bytes(st, db, &V::C(d0 as u128), &out)
            }
            _ => unreachable!(),
        }
    }
    fn memset(&mut self, st: &mut State, dst: &V, val: &V, n: &V) -> R<()> {
        let n = self.kn(st, n.clone());
        if let V::C(0) = n {
            return Ok(());
        }
        let (db, d_o) = self.resolve(st, dst, &n, "write")?;
        let n = self.kn(st, n);
        if db == 0 {
            return Ok(());
        }
        let b = self.e(val, 8);
        let size = st.mem[&db].size;
        // range of the offset, and the offset and end of the filled part
        let (lo, hi) = match &d_o {
            V::C(c) => (*c as u64, *c as u64),
            V::S(e) => {
                let (lo, hi) = self.window(st, db, *e, 0);
                if hi > lo { self.tighten(st, *e, lo, hi)? } else { (lo, lo) }
            }
            _ => unreachable!(),
        };
        let (min, max) = match &n {
            V::C(c) => (*c as u64, *c as u64),
            V::S(ne) => {
                let cap = size - lo;
                self.len_bound(st, *ne, cap)?
            }
            _ => unreachable!(),
        };
        if max == 0 {
            return Ok(());
        }
        if let (V::C(_), V::C(c)) = (&d_o, &n) {
            return self.store_bytes(st, db, &d_o, &vec![b; *c as usize]);
        }
        let top = (hi + max).min(size);
        let off = self.e(&d_o, 64);
        let len = self.e(&n, 64);
        let end = self.p.add(off, len);
        let mut out = vec![];
        for i in lo..top {
            let k = self.p.c(64, i as u128);
            let mut x = b;
            if i >= lo + min {
                let c = self.p.ult(k, end);
                let old = self.byte(st, db, i);
                x = self.p.ite(c, x, old);
            }
            if i < hi {
                let old = self.byte(st, db, i);
                let c = self.p.ule(off, k);
                x = self.p.ite(c, x, old);
            }
            out.push(x);
        }
        self.store_bytes(st, db, &V::C(lo as u128), &out)
    }
    fn memcmp(&mut self, st: &mut State, a: &V, b: &V, n: &V, full: bool) -> R<V> {
        let n = self.kn(st, n.clone());
        if let V::C(0) = n {
            return Ok(V::C(0));
        }
        let (ab, ao) = self.resolve(st, a, &n, "read")?;
        let (bb, bo) = self.resolve(st, b, &n, "read")?;
        let mut n = self.kn(st, n);
        if ab == 0 || bb == 0 {
            return Ok(V::C(0));
        }
        let mut len = match &n {
            V::C(c) => *c as u64,
            V::S(_) => 0,
            _ => unreachable!(),
        };
        if let V::S(e) = n {
            let (asz, bsz) = (st.mem[&ab].size, st.mem[&bb].size);
            let off = |v: &V, st: &State, s: &Self| match v {
                V::C(c) => *c as u64,
                V::S(x) => st.model.eval(&s.p, *x) as u64,
                _ => 0,
            };
            let simple = matches!((&ao, &bo), (V::C(_), V::C(_)));
            if !simple {
                let k = self.conc(st, &n)?;
                len = k as u64;
                n = V::C(k);
            } else {
                let cap = (asz - off(&ao, st, self)).min(bsz - off(&bo, st, self));
                len = self.len_bound(st, e, cap)?.1;
            }
        }
        if len == 0 {
            return Ok(V::C(0));
        }
        let x = self.load_bytes(st, ab, &ao, len)?;
        let y = self.load_bytes(st, bb, &bo, len)?;
        let mut r = self.p.c(32, 0);
        for i in (0..len as usize).rev() {
            let eq = self.p.eq(x[i], y[i]);
            let d = if full {
                let lt = self.p.ult(x[i], y[i]);
                let m1 = self.p.c(32, u32::MAX as u128);
                let p1 = self.p.c(32, 1);
                self.p.ite(lt, m1, p1)
            } else {
                self.p.c(32, 1)
            };
            let mut v = self.p.ite(eq, r, d);
            if let V::S(ne) = n {
                let k = self.p.c(64, i as u128);
                let c = self.p.ult(k, ne);
                let z = self.p.c(32, 0);
                v = self.p.ite(c, v, z);
            }
            r = v;
        }
        Ok(self.v(r))
    }
    fn read_str(&mut self, st: &mut State, ptr: &V, len: &V) -> String {
        let (p, n) = match (ptr, len) {
            (V::C(p), V::C(n)) => (*p as u64, *n as u64),
            _ => return "?".into(),
        };
        let mut out = vec![];
        if let Some(b) = self.find(st, p) {
            let o = &st.mem[&b];
            for i in 0..n.min(300) {
                let k = (p - b + i) as usize;
                if k < o.data.b.len() {
                    out.push(o.data.b[k]);
                }
            }
        }
        String::from_utf8_lossy(&out).to_string()
    }
    fn panic_loc(&mut self, st: &mut State, args: &[V]) -> String {
        for a in args.iter().rev() {
            if let V::C(p) = a {
                let p = *p as u64;
                if p < GLOBAL_BASE {
                    continue;
                }
                if let Some(b) = self.find(st, p) {
                    let o = st.mem[&b].clone();
                    let k = (p - b) as usize;
                    if k + 24 <= o.data.b.len() {
                        let g8 = |i: usize| u64::from_le_bytes(o.data.b[k + i..k + i + 8].try_into().unwrap());
                        let g4 = |i: usize| u32::from_le_bytes(o.data.b[k + i..k + i + 4].try_into().unwrap());
                        let (fp, fl, line) = (g8(0), g8(8), g4(16));
                        if fl > 0 && fl < 300 && fp >= GLOBAL_BASE {
                            let s = self.read_str(st, &V::C(fp as u128), &V::C(fl as u128));
                            if s.ends_with(".rs") || s.contains(".rs") {
                                return format!("{}:{}", s.trim_end_matches('\0'), line);
                            }
                        }
                    }
                }
            }
        }
        self.loc()
    }

    // ---------- debug info ----------
    fn dbg_fields(&self, id: u32) -> Option<&str> {
        let &(s, e) = self.m.dbg.get(&id)?;
        Some(&self.m.text[s..e])
    }
    fn fld(t: &str, k: &str) -> Option<String> {
        let pat = format!("{}: ", k);
        let mut from = 0;
        loop {
            let i = t[from..].find(&pat)? + from;
            let ok = i == 0 || matches!(t.as_bytes()[i - 1], b' ' | b'(');
            if ok {
                let r = &t[i + pat.len()..];
                if let Some(q) = r.strip_prefix('"') {
                    return Some(q[..q.find('"')?].to_string());
                }
                let e = r.find([',', ')']).unwrap_or(r.len());
                return Some(r[..e].to_string());
            }
            from = i + 1;
        }
    }
    fn fref(t: &str, k: &str) -> Option<u32> {
        Self::fld(t, k).and_then(|x| x.strip_prefix('!').and_then(|y| y.parse().ok()))
    }
    /// (file, line, function name) of a debug location (innermost).
    pub fn dbg_loc(&self, id: u32) -> Option<(String, u32, String)> {
        let t = self.dbg_fields(id)?;
        let line: u32 = Self::fld(t, "line")?.parse().ok()?;
        let mut sc = Self::fref(t, "scope")?;
        let mut file: Option<u32> = None;
        for _ in 0..50 {
            let t = self.dbg_fields(sc)?;
            if file.is_none() {
                file = Self::fref(t, "file");
            }
            if t.contains("DISubprogram(") {
                let name = Self::fld(t, "name").unwrap_or_default();
                let mut ns = String::new();
                if let Some(s) = Self::fref(t, "scope") {
                    if let Some(t2) = self.dbg_fields(s) {
                        ns = Self::fld(t2, "name").unwrap_or_default();
                    }
                }
                let f = file.and_then(|f| self.dbg_fields(f)).map(|t| {
                    let n = Self::fld(t, "filename").unwrap_or_default();
                    let d = Self::fld(t, "directory").unwrap_or_default();
                    if n.starts_with('/') { n } else { format!("{}/{}", d, n) }
                });
                return Some((f.unwrap_or_default(), line, format!("{}::{}", ns, name)));
            }
            sc = Self::fref(t, "scope")?;
        }
        None
    }
    fn dbg_desc(&self, id: u32) -> String {
        let mut out = vec![];
        let mut id = id;
        for _ in 0..6 {
            if let Some((f, l, n)) = self.dbg_loc(id) {
                let f = f.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
                out.push(format!("{} ({}:{})", n, f, l));
            }
            match self.dbg_fields(id).and_then(|t| Self::fref(t, "inlinedAt")) {
                Some(n) => id = n,
                None => break,
            }
        }
        out.join(" < ")
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.dbg_desc(self.cur_dbg)];
        for fr in st.frames.iter().rev() {
            v.push(format!("in {}", self.m.funcs[fr.fid as usize].name));
            if fr.call_dbg != 0 {
                v.push(self.dbg_desc(fr.call_dbg));
            }
            if v.len() > 40 {
                break;
            }
        }
        v
    }

    // ---------- run ----------
    fn cells(m: &Model) -> Vec<(u32, u64, u8)> {
        let mut v: Vec<_> = m.cells.iter().filter(|x| *x.1 != 0).map(|(k, v)| (k.0, k.1, *v)).collect();
        v.sort_unstable();
        v
    }
    pub fn finish(&mut self, st: &State, end: End) {
        if std::env::var("SYMEX_ENDS").is_ok() {
            eprintln!("END {:?} steps {} depth {}", end, st.steps, st.depth);
        }
        self.rep.steps += 0;
        let mut viol = |s: &mut Self, kind: &str, id: String| {
            let key = format!("{}: {}", kind, id);
            let c = s.rep.viol_count.entry(key).or_insert(0);
            *c += 1;
            if *c <= s.viol_cap {
                let trace = s.backtrace(st);
                s.on_violation.map(|f| f(kind, &id, &trace, &Self::cells(&st.model)));
                s.rep.violations.push(Violation { kind: kind.into(), id, trace, cells: Self::cells(&st.model) });
            }
        };
        match end {
            End::Done => {
                self.rep.paths += 1;
                self.rep.max_path_steps = self.rep.max_path_steps.max(st.steps);
                let n = self.rep.paths;
                if self.rep.samples.len() < self.sample_max && (n <= 3 || (st.hash >> 20) % self.sample_mod == 0) {
                    let obs = st.obs.iter().map(|v| match v {
                        V::C(c) => *c as u64,
                        V::S(e) => st.model.eval(&self.p, *e) as u64,
                        _ => 0,
                    }).collect();
                    self.rep.samples.push(Sample { cells: Self::cells(&st.model), obs });
                    if self.rep.samples.len() % 8 == 0 {
                        self.sample_mod *= 2;
                    }
                }
            }
            End::Infeasible => self.rep.infeasible += 1,
            End::Panic(l) => {
                self.rep.paths += 1;
                viol(self, "panic", l)
            }
            End::Oob(l) => {
                self.rep.paths += 1;
                viol(self, "memory", l)
            }
            End::Check(id) => viol(self, "check", id),
            End::Steps => {
                self.rep.paths += 1;
                let l = self.loc();
                { if std::env::var("SYMEX_DBG").is_ok() { let fr = st.frames.last().unwrap(); let ii = &fr.f.blocks[fr.blk as usize].insts[fr.ip as usize]; eprintln!("STEPS {} blk {} ip {} {:?}", fr.f.name, fr.blk, fr.ip, ii.kind); } viol(self, "nontermination", format!("more than {} steps on one path, last at {}", self.max_steps, l)) }
            }
            End::Error(e) => {
                let l = self.backtrace(st).join(" | ");
                self.rep.errors.push(format!("{} at {}", e, l));
            }
        }
    }
    /// Runs until the path ends (Some) or `n` instructions were executed (None).
    pub fn exec_slice(&mut self, st: &mut State, n: u64) -> Option<End> {
        for i in 0..n {
            if i & 255 == 255 && self.until.is_some_and(|t| std::time::Instant::now() > t) {
                return None;
            }
            if self.trace && st.steps + 120 > self.max_steps { let fr = st.frames.last().unwrap(); eprintln!("{} {} {} {:?}", fr.f.name, fr.blk, fr.ip, fr.f.blocks[fr.blk as usize].insts[fr.ip as usize].kind); }
            match self.step(st) {
                Ok(true) => return Some(End::Done),
                Ok(false) => {}
                Err(e) => return Some(e),
            }
            st.steps += 1;
            self.rep.steps += 1;
            if st.steps > self.max_steps {
                return Some(End::Steps);
            }
        }
        None
    }

    fn goto(&mut self, st: &mut State, blk: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let prev = fr.blk;
        fr.blk = blk;
        fr.ip = 0;
        let f = fr.f.clone();
        let phis = &f.blocks[blk as usize].phis;
        if phis.is_empty() {
            return;
        }
        if phis.len() == 1 {
            let (d, inc) = &phis[0];
            let o = &inc.iter().find(|x| x.0 == prev).expect("phi").1;
            let v = self.op(fr, o);
            fr.regs[*d as usize] = v;
            return;
        }
        let mut vals = vec![];
        for (d, inc) in phis {
            let o = &inc.iter().find(|x| x.0 == prev).expect("phi").1;
            vals.push((*d, self.op(fr, o)));
        }
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
    }
    fn set(st: &mut State, dst: u32, v: V) {
        if dst != NODST {
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            fr.regs[dst as usize] = v;
        }
    }
    fn next(st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
    }
    fn wide(&self, ty: TyId) -> bool {
        match self.m.types.get(ty) {
            Ty::Ptr => true,
            Ty::Int(n) => *n >= 16,
            _ => false,
        }
    }
    fn elem_ty(&self, ty: TyId) -> Option<(u32, TyId)> {
        match self.m.types.get(ty) {
            Ty::Vec(n, e) => Some((*n, *e)),
            _ => None,
        }
    }

    /// Executes one instruction. Ok(true) = entry function returned.
    fn step(&mut self, st: &mut State) -> R<bool> {
        let f = st.frames.last().unwrap().f.clone();
        let (blk, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.blk, fr.ip)
        };
        let ins = &f.blocks[blk as usize].insts[ip as usize];
        if ins.dbg != 0 {
            self.cur_dbg = ins.dbg;
            let w = (ins.dbg >> 6) as usize;
            if w >= self.dbgs.len() {
                self.dbgs.resize(w + 1024, 0);
            }
            self.dbgs[w] |= 1 << (ins.dbg & 63);
        }
        macro_rules! o {
            ($x:expr) => {
                self.op(st.frames.last().unwrap(), $x)
            };
        }
        macro_rules! done {
            ($v:expr) => {{
                let v = $v;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if ins.dst != NODST {
                    fr.regs[ins.dst as usize] = v;
                }
                fr.ip += 1;
                return Ok(false);
            }};
        }
        match &ins.kind {
            Kind::Bin(op, ty, a, b) => {
                let (x, y) = (o!(a), o!(b));
                if let Some((n, et)) = self.elem_ty(*ty) {
                    let w = self.m.types.bits(et);
                    let (x, y) = (self.expand(x, *ty), self.expand(y, *ty));
                    let (V::A(x), V::A(y)) = (x, y) else { return Err(End::Error("vec".into())) };
                    let r = (0..n as usize).map(|i| self.bin(*op, w, &x[i], &y[i])).collect();
                    done!(V::A(Rc::new(r)));
                }
                let w = self.m.types.bits(*ty);
                done!(self.bin(*op, w, &x, &y))
            }
            Kind::ICmp(pr, ty, a, b) => {
                let (x, y) = (o!(a), o!(b));
                if let Some((n, et)) = self.elem_ty(*ty) {
                    let w = self.m.types.bits(et);
                    let (x, y) = (self.expand(x, *ty), self.expand(y, *ty));
                    let (V::A(x), V::A(y)) = (x, y) else { return Err(End::Error("vec".into())) };
                    let r = (0..n as usize).map(|i| self.icmp(*pr, w, &x[i], &y[i])).collect();
                    done!(V::A(Rc::new(r)));
                }
                let w = self.m.types.bits(*ty);
                done!(self.icmp(*pr, w, &x, &y))
            }
            Kind::Cast(op, from, to, a) => {
                let x = o!(a);
                if let Some((n, fe)) = self.elem_ty(*from) {
                    let (_, te) = self.elem_ty(*to).unwrap();
                    let (wf, wt) = (self.m.types.bits(fe), self.m.types.bits(te));
                    let V::A(x) = self.expand(x, *from) else { return Err(End::Error("vec".into())) };
                    let r = (0..n as usize).map(|i| self.cast(*op, wf, wt, &x[i])).collect();
                    done!(V::A(Rc::new(r)));
                }
                let (wf, wt) = (self.m.types.bits(*from), self.m.types.bits(*to));
                done!(self.cast(*op, wf, wt, &x))
            }
            Kind::BitCast(from, to, a) => {
                let x = o!(a);
                let x = self.expand(x, *from);
                // to a flat bit string and back
                let flat = match (&x, self.elem_ty(*from)) {
                    (V::A(v), Some((_, et))) => {
                        let w = self.m.types.bits(et);
                        if w * v.len() as u32 > 128 {
                            return Err(End::Error("wide bitcast".into()));
                        }
                        let mut acc = self.e(&v[0], w);
                        for y in &v[1..] {
                            let h = self.e(y, w);
                            acc = self.p.concat(h, acc);
                        }
                        self.v(acc)
                    }
                    _ => x,
                };
                if let Some((n, et)) = self.elem_ty(*to) {
                    let w = self.m.types.bits(et);
                    let fe = self.e(&flat, w * n);
                    let r = (0..n).map(|i| { let y = self.p.extract(fe, i * w, w); self.v(y) }).collect();
                    done!(V::A(Rc::new(r)));
                }
                done!(flat)
            }
            Kind::Alloca(sz, cnt, al) => {
                let n = match cnt {
                    Some(c) => {
                        let v = o!(c);
                        self.conc(st, &v)? as u64
                    }
                    None => 1,
                };
                let a = self.alloc(st, sz * n, *al, 2, None);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(a);
                done!(V::C(a as u128))
            }
            Kind::Load(ty, a) => {
                let x = o!(a);
                let n = self.m.types.size[*ty as usize];
                if n == 0 {
                    done!(V::C(0));
                }
                let (b, off) = self.resolve(st, &x, &V::C(n as u128), "read")?;
                let v = self.load_at(st, b, &off, *ty)?;
                done!(v)
            }
            Kind::Store(ty, v, a) => {
                let (v, x) = (o!(v), o!(a));
                let n = self.m.types.size[*ty as usize];
                if n > 0 {
                    let (b, off) = self.resolve(st, &x, &V::C(n as u128), "write")?;
                    self.store_at(st, b, &off, *ty, &v)?;
                }
                Self::next(st);
                Ok(false)
            }
            Kind::Gep(base, off, vars) => {
                let mut acc = o!(base);
                if *off != 0 {
                    acc = self.bin(BinOp::Add, 64, &acc, &V::C(*off as u64 as u128));
                }
                for (x, w, sc) in vars {
                    let v = o!(x);
                    let v = if *w == 64 { v } else { self.cast(if *w < 64 { CastOp::SExt } else { CastOp::Trunc }, *w, 64, &v) };
                    let t = self.bin(BinOp::Mul, 64, &v, &V::C(*sc as u64 as u128));
                    acc = self.bin(BinOp::Add, 64, &acc, &t);
                }
                done!(acc)
            }
            Kind::Select(ty, c, a, b, vc) => {
                let (c, a, b) = (o!(c), o!(a), o!(b));
                if *vc {
                    let (n, et) = self.elem_ty(*ty).unwrap();
                    let (a, b) = (self.expand(a, *ty), self.expand(b, *ty));
                    let (V::A(x), V::A(y)) = (a, b) else { return Err(End::Error("vec".into())) };
                    let r = (0..n as usize)
                        .map(|i| {
                            let ci = match &c {
                                V::A(c) => c[i].clone(),
                                o => o.clone(),
                            };
                            let ce = self.e(&ci, 1);
                            self.select(et, ce, &x[i], &y[i])
                        })
                        .collect();
                    done!(V::A(Rc::new(r)));
                }
                let c = self.kn(st, c);
                match c {
                    V::C(1) => done!(a),
                    V::C(_) => done!(b),
                    V::S(e) if st.split && self.wide(*ty) => {
                        let v = if self.decide(st, e)? { a } else { b };
                        done!(v)
                    }
                    V::S(e) => done!(self.select(*ty, e, &a, &b)),
                    _ => Err(End::Error("select".into())),
                }
            }
            Kind::Call { ret, callee, args, normal } => {
                let fid = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let v = o!(o);
                        let a = self.conc(st, &v)? as u64;
                        if a < FUNC_BASE || a >= FUNC_BASE + 16 * self.m.funcs.len() as u64 {
                            return Err(End::Oob(format!("call of {:#x} in {}", a, self.loc())));
                        }
                        ((a - FUNC_BASE) / 16) as u32
                    }
                };
                let bi = self.builtin(fid);
                let argv: Vec<V> = {
                    let fr = st.frames.last().unwrap();
                    args.iter().map(|a| self.op(fr, &a.1)).collect()
                };
                if bi != B::None {
                    let tys: Vec<TyId> = args.iter().map(|x| x.0).collect();
                    let r = self.call_builtin(st, bi, fid, *ret, &tys, argv)?;
                    if ins.dst != NODST {
                        Self::set(st, ins.dst, r);
                    }
                    match normal {
                        Some(b) => self.goto(st, *b),
                        None => Self::next(st),
                    }
                    return Ok(false);
                }
                let g = match self.m.get_func(fid) {
                    Some(g) => g,
                    None => return Err(End::Error(format!("call of external function {}", self.m.funcs[fid as usize].name))),
                };
                self.fset.insert(fid);
                let mut regs = vec![V::C(0); g.nregs as usize];
                for (i, &pr) in g.params.iter().enumerate() {
                    regs[pr as usize] = argv[i].clone();
                }
                if st.frames.len() > 400 {
                    return Err(End::Panic(format!("stack depth over 400 frames in {}", self.loc())));
                }
                Self::next(st);
                st.frames.push(Rc::new(Frame { f: g, fid, regs, blk: 0, ip: 0, dst: ins.dst, normal: normal.unwrap_or(NONE), allocas: vec![], call_dbg: ins.dbg }));
                Ok(false)
            }
            Kind::ExtractValue(a, ix) => {
                let mut v = o!(a);
                for &i in ix {
                    v = match &v {
                        V::A(x) => x[i as usize].clone(),
                        _ => V::C(0),
                    };
                }
                done!(v)
            }
            Kind::InsertValue(ty, a, b, ix) => {
                let (a, b) = (o!(a), o!(b));
                let a = self.expand(a, *ty);
                done!(Self::insert(&a, &b, ix))
            }
            Kind::ExtractElement(ty, a, i) => {
                let (a, i) = (o!(a), o!(i));
                let a = self.expand(a, *ty);
                let k = self.conc(st, &i)? as usize;
                match a {
                    V::A(x) => done!(x.get(k).cloned().unwrap_or(V::C(0))),
                    _ => Err(End::Error("extractelement".into())),
                }
            }
            Kind::InsertElement(ty, a, b, i) => {
                let (a, b, i) = (o!(a), o!(b), o!(i));
                let a = self.expand(a, *ty);
                let k = self.conc(st, &i)? as u32;
                done!(Self::insert(&a, &b, &[k]))
            }
            Kind::Shuffle(ty, a, b, mk) => {
                let (a, b) = (o!(a), o!(b));
                let (V::A(x), V::A(y)) = (self.expand(a, *ty), self.expand(b, *ty)) else { return Err(End::Error("shuffle".into())) };
                let r = mk.iter().map(|&i| if (i as usize) < x.len() { x[i as usize].clone() } else { y[i as usize - x.len()].clone() }).collect();
                done!(V::A(Rc::new(r)))
            }
            Kind::AtomicRmw(op, ty, a, v) => {
                let (a, v) = (o!(a), o!(v));
                let n = self.m.types.size[*ty as usize];
                let w = self.m.types.bits(*ty);
                let (b, off) = self.resolve(st, &a, &V::C(n as u128), "write")?;
                let old = self.load_at(st, b, &off, *ty)?;
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(BinOp::Add, w, &old, &v),
                    "sub" => self.bin(BinOp::Sub, w, &old, &v),
                    "and" => self.bin(BinOp::And, w, &old, &v),
                    "or" => self.bin(BinOp::Or, w, &old, &v),
                    "xor" => self.bin(BinOp::Xor, w, &old, &v),
                    _ => return Err(End::Error(format!("atomicrmw {}", op))),
                };
                self.store_at(st, b, &off, *ty, &nv)?;
                done!(old)
            }
            Kind::CmpXchg(ty, a, c, nw) => {
                let (a, c, nw) = (o!(a), o!(c), o!(nw));
                let n = self.m.types.size[*ty as usize];
                let w = self.m.types.bits(*ty);
                let (b, off) = self.resolve(st, &a, &V::C(n as u128), "write")?;
                let old = self.load_at(st, b, &off, *ty)?;
                let eq = self.icmp(Pred::Eq, w, &old, &c);
                let ee = self.e(&eq, 1);
                let r = self.select(*ty, ee, &nw, &old);
                self.store_at(st, b, &off, *ty, &r)?;
                done!(V::A(Rc::new(vec![old, eq])))
            }
            Kind::Nop => {
                Self::next(st);
                Ok(false)
            }
            Kind::Freeze(a) => {
                let v = o!(a);
                done!(v)
            }
            Kind::Br(b) => {
                self.goto(st, *b);
                Ok(false)
            }
            Kind::CondBr(c, a, b) => {
                let c = o!(c);
                let t = match self.kn(st, c) {
                    V::C(x) => x == 1,
                    V::S(e) => self.decide(st, e)?,
                    _ => return Err(End::Error("br".into())),
                };
                self.goto(st, if t { *a } else { *b });
                Ok(false)
            }
            Kind::Switch(v, w, d, cs) => {
                let v = o!(v);
                let v = self.kn(st, v);
                match v {
                    V::C(x) => {
                        let t = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                        self.goto(st, t);
                    }
                    V::S(e) => {
                        // value of the model decides the target; others fork
                        let x = st.model.eval(&self.p, e);
                        let t = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                        let mut c = 0;
                        let mut others = 0;
                        for (k, b) in cs {
                            let ke = self.p.c(*w, *k);
                            let q = self.p.eq(e, ke);
                            if *b == t {
                                c = self.p.or(c, q);
                            } else {
                                others = self.p.or(others, q);
                            }
                        }
                        if t == *d {
                            // default: none of the others
                            c = self.p.not(others);
                        }
                        let ok = self.decide(st, c)?;
                        debug_assert!(ok);
                        self.goto(st, t);
                    }
                    _ => return Err(End::Error("switch".into())),
                }
                Ok(false)
            }
            Kind::Ret(v) => {
                let v = match v {
                    Some(v) => o!(v),
                    None => V::C(0),
                };
                let fr = st.frames.pop().unwrap();
                if !fr.allocas.is_empty() {
                    let mem = Rc::make_mut(&mut st.mem);
                    for a in &fr.allocas {
                        mem.remove(a);
                    }
                }
                if st.frames.is_empty() {
                    return Ok(true);
                }
                if fr.dst != NODST {
                    Self::set(st, fr.dst, v);
                }
                if fr.normal != NONE {
                    self.goto(st, fr.normal);
                }
                Ok(false)
            }
            Kind::Unreachable => Err(End::Oob(format!("unreachable code reached in {}", self.loc()))),
            Kind::Unsupported(s) => Err(End::Error(format!("unsupported instruction {}", s))),
        }
    }
    fn insert(a: &V, b: &V, ix: &[u32]) -> V {
        if ix.is_empty() {
            return b.clone();
        }
        match a {
            V::A(x) => {
                let mut y = (**x).clone();
                y[ix[0] as usize] = Self::insert(&x[ix[0] as usize], b, &ix[1..]);
                V::A(Rc::new(y))
            }
            _ => panic!("insertvalue into scalar"),
        }
    }

    // ---------- builtins ----------
    fn builtin(&mut self, fid: u32) -> B {
        if let Some(&b) = self.builtins.get(&fid) {
            return b;
        }
        let d = &self.m.funcs[fid as usize];
        let n = d.name.as_str();
        let has_body = d.body.is_some();
        let b = if let Some(i) = n.strip_prefix("llvm.") {
            let pre = |s: &str| i.starts_with(s);
            if pre("memcpy.") || pre("memmove.") { B::Memcpy }
            else if pre("memset.") { B::Memset }
            else if pre("uadd.with") { B::Ov(BinOp::Add, false) }
            else if pre("usub.with") { B::Ov(BinOp::Sub, false) }
            else if pre("umul.with") { B::Ov(BinOp::Mul, false) }
            else if pre("sadd.with") { B::Ov(BinOp::Add, true) }
            else if pre("ssub.with") { B::Ov(BinOp::Sub, true) }
            else if pre("smul.with") { B::Ov(BinOp::Mul, true) }
            else if pre("uadd.sat") { B::Sat(BinOp::Add, false) }
            else if pre("usub.sat") { B::Sat(BinOp::Sub, false) }
            else if pre("umax") { B::MinMax(true, false) }
            else if pre("umin") { B::MinMax(false, false) }
            else if pre("smax") { B::MinMax(true, true) }
            else if pre("smin") { B::MinMax(false, true) }
            else if pre("fshl") { B::Fsh(true) }
            else if pre("fshr") { B::Fsh(false) }
            else if pre("ctlz") { B::Ctlz }
            else if pre("cttz") { B::Cttz }
            else if pre("ctpop") { B::Ctpop }
            else if pre("bswap") { B::Bswap }
            else if pre("bitreverse") { B::Bitrev }
            else if pre("abs.") { B::Abs }
            else if pre("ucmp") { B::Cmp3(false) }
            else if pre("scmp") { B::Cmp3(true) }
            else if pre("assume") { B::Assume }
            else if pre("expect") { B::Expect }
            else if pre("threadlocal.address") || pre("ssa.copy") || pre("launder") || pre("strip") { B::Ident }
            else if pre("is.constant") { B::IsConst }
            else if pre("lifetime") || pre("experimental.noalias") || pre("dbg") || pre("invariant") || pre("prefetch") || pre("donothing") { B::Nop }
            else if pre("load.relative") { B::LoadRel }
            else if pre("ptrmask") { B::PtrMask }
            else if pre("trap") || pre("ubsantrap") { B::Abort }
            else { B::Unsup }
        } else {
            match n {
                "malloc" => B::Malloc,
                "calloc" => B::Calloc,
                "realloc" => B::Realloc,
                "free" => B::Free,
                "posix_memalign" => B::Memalign,
                "aligned_alloc" => B::AlignedAlloc,
                "memcmp" => B::Memcmp,
                "bcmp" => B::Bcmp,
                "memcpy" | "memmove" => B::Memcpy,
                "memset" => B::Memset,
                "strlen" => B::Strlen,
                "abort" => B::Abort,
                "sym_bytes" => B::SymBytes,
                "sym_byte" => B::SymByte,
                "sym_read" => B::SymRead,
                "sym_assume" => B::SymAssume,
                "sym_check" => B::SymCheck,
                "sym_reach" => B::SymReach,
                "sym_observe" => B::SymObserve,
                "sym_concretize" => B::SymConc,
                "sym_alloc_limit" => B::SymAllocLimit,
                "sym_split" => B::SymSplit,
                _ => {
                    let panics = ["core9panicking", "slice_index_fail", "slice_error_fail", "unwrap_failed", "expect_failed", "handle_alloc_error", "capacity_overflow", "9panicking11begin_panic", "panicking14panic_fmt", "rust_panic", "_7raw_vec12handle_error", "7process5abort", "begin_panic_handler", "len_mismatch_fail", "panic_already_borrowed", "panic_already_mutably_borrowed", "cell22panic_already", "str16slice_error_fail", "copy_from_slice_impl17len_mismatch_fail", "alloc7raw_vec17capacity_overflow", "index24slice_end_index_len_fail", "slice_start_index_len_fail", "slice_end_index_len_fail", "slice_index_order_fail"];
                    if panics.iter().any(|x| n.contains(x)) && !n.contains("AssertKind") { B::Panic } else if has_body { B::None } else { B::Unsup }
                }
            }
        };
        self.builtins.insert(fid, b);
        b
    }
    fn malloc(&mut self, st: &mut State, n: &V, align: u64) -> R<V> {
        let n = self.kn(st, n.clone());
        match n {
            V::C(c) => {
                let c = c as u64;
                if c > st.alloc_limit {
                    return Err(End::Check(format!("allocation larger than {} bytes at {}", st.alloc_limit, self.alloc_site(st))));
                }
                Ok(V::C(self.alloc(st, c, align, 1, None) as u128))
            }
            V::S(e) => {
                let lim = self.p.c(64, st.alloc_limit as u128);
                let c = self.p.ule(e, lim);
                let l = st.alloc_limit;
                let site = self.alloc_site(st);
                self.must(st, c, || End::Check(format!("allocation larger than {} bytes at {}", l, site)))?;
                let (lo, hi) = self.len_bound(st, e, l)?;
                if lo == hi {
                    return Ok(V::C(self.alloc(st, hi, align, 1, None) as u128));
                }
                Ok(V::C(self.alloc(st, hi, align, 1, Some(e)) as u128))
            }
            _ => Err(End::Error("malloc".into())),
        }
    }
    /// First frame outside the allocator, for messages.
    fn alloc_site(&self, st: &State) -> String {
        let mut ids = vec![self.cur_dbg];
        for fr in st.frames.iter().rev() {
            ids.push(fr.call_dbg);
        }
        for id in ids {
            let mut id = id;
            for _ in 0..12 {
                if id == 0 {
                    break;
                }
                if let Some((f, l, n)) = self.dbg_loc(id) {
                    if f.contains("/repo/src/") {
                        return format!("{} ({}:{})", n, f, l);
                    }
                }
                match self.dbg_fields(id).and_then(|t| Self::fref(t, "inlinedAt")) {
                    Some(n) => id = n,
                    None => break,
                }
            }
        }
        "unknown".into()
    }
    fn call_builtin(&mut self, st: &mut State, b: B, fid: u32, ret: TyId, tys: &[TyId], a: Vec<V>) -> R<V> {
        // elementwise on vectors for the simple arithmetic intrinsics
        if let Some((n, et)) = self.elem_ty(ret) {
            if matches!(b, B::Sat(..) | B::MinMax(..) | B::Fsh(_) | B::Ctlz | B::Cttz | B::Ctpop | B::Bswap | B::Bitrev | B::Abs) {
                let ex: Vec<V> = a.iter().zip(tys).map(|(v, t)| self.expand(v.clone(), *t)).collect();
                let mut out = vec![];
                for i in 0..n as usize {
                    let av: Vec<V> = ex.iter().map(|v| match v { V::A(x) => x[i].clone(), o => o.clone() }).collect();
                    out.push(self.call_builtin(st, b, fid, et, &vec![et; av.len()], av)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        match b {
            B::None => unreachable!(),
            B::Unsup => Err(End::Error(format!("unsupported external {}", self.m.funcs[fid as usize].name))),
            B::Panic => {
                let l = self.panic_loc(st, &a);
                Err(End::Panic(l))
            }
            B::Abort => Err(End::Panic(format!("abort in {}", self.loc()))),
            B::Malloc => self.malloc(st, &a[0], 16),
            B::Calloc => {
                let n = self.bin(BinOp::Mul, 64, &a[0], &a[1]);
                self.malloc(st, &n, 16)
            }
            B::AlignedAlloc => {
                let al = self.conc(st, &a[0])? as u64;
                self.malloc(st, &a[1], al)
            }
            B::Memalign => {
                let al = self.conc(st, &a[1])? as u64;
                let p = self.malloc(st, &a[2], al)?;
                let (ob, off) = self.resolve(st, &a[0], &V::C(8), "write")?;
                let pe = self.e(&p, 64);
                let bytes: Vec<E> = (0..8).map(|i| self.p.extract(pe, 8 * i, 8)).collect();
                self.store_bytes(st, ob, &off, &bytes)?;
                Ok(V::C(0))
            }
            B::Realloc => {
                let old = self.conc(st, &a[0])? as u64;
                let np = self.malloc(st, &a[1], 16)?;
                if old != 0 {
                    let o = st.mem.get(&old).cloned().ok_or_else(|| End::Oob("realloc of unknown pointer".into()))?;
                    let V::C(nb) = np else { unreachable!() };
                    let nd = Self::data_mut(st, nb as u64);
                    let k = (o.size as usize).min(nd.b.len());
                    nd.b[..k].copy_from_slice(&o.data.b[..k]);
                    if let Some(s) = &o.data.s {
                        let len = nd.b.len();
                        let ns = nd.s.get_or_insert_with(|| vec![CONC; len]);
                        ns[..k].copy_from_slice(&s[..k]);
                    }
                    Rc::make_mut(&mut st.mem).remove(&old);
                }
                Ok(np)
            }
            B::Free => {
                let p = self.conc(st, &a[0])? as u64;
                if p != 0 {
                    match st.mem.get(&p) {
                        Some(o) if o.kind == 1 => {
                            Rc::make_mut(&mut st.mem).remove(&p);
                        }
                        _ => return Err(End::Oob(format!("free of {:#x} in {}", p, self.loc()))),
                    }
                }
                Ok(V::C(0))
            }
            B::Memcmp => self.memcmp(st, &a[0], &a[1], &a[2], true),
            B::Bcmp => self.memcmp(st, &a[0], &a[1], &a[2], false),
            B::Strlen => {
                let p = self.conc(st, &a[0])? as u64;
                let b = self.find(st, p).ok_or_else(|| End::Oob("strlen".into()))?;
                let mut i = p - b;
                let mut n = 0u128;
                loop {
                    if i >= st.mem[&b].size {
                        return Err(End::Oob("strlen".into()));
                    }
                    let e = self.byte(st, b, i);
                    let v = self.v(e);
                    if self.conc(st, &v)? == 0 {
                        return Ok(V::C(n));
                    }
                    n += 1;
                    i += 1;
                }
            }
            B::Memcpy => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                Ok(a[0].clone())
            }
            B::Memset => {
                let v = if tys.len() > 1 && self.m.types.bits(tys[1]) != 8 { self.cast(CastOp::Trunc, self.m.types.bits(tys[1]), 8, &a[1]) } else { a[1].clone() };
                self.memset(st, &a[0], &v, &a[2])?;
                Ok(a[0].clone())
            }
            B::Ov(op, signed) => {
                let w = self.m.types.bits(tys[0]);
                self.overflow(op, signed, w, &a[0], &a[1])
            }
            B::Sat(op, _) => {
                let w = self.m.types.bits(tys[0]);
                let V::A(r) = self.overflow(op, false, w, &a[0], &a[1])? else { unreachable!() };
                let lim = if op == BinOp::Add { mask(w) } else { 0 };
                let c = self.e(&r[1], 1);
                if st.split && w >= 16 {
                    return Ok(if self.decide(st, c)? { V::C(lim) } else { r[0].clone() });
                }
                let (x, y) = (self.p.c(w, lim), self.e(&r[0], w));
                let e = self.p.ite(c, x, y);
                Ok(self.v(e))
            }
            B::MinMax(max, signed) => {
                let w = self.m.types.bits(ret);
                let pr = match (max, signed) {
                    (true, false) => Pred::Ugt,
                    (false, false) => Pred::Ult,
                    (true, true) => Pred::Sgt,
                    (false, true) => Pred::Slt,
                };
                let c = self.icmp(pr, w, &a[0], &a[1]);
                match self.kn(st, c) {
                    V::C(1) => Ok(a[0].clone()),
                    V::C(_) => Ok(a[1].clone()),
                    V::S(c) if st.split && w >= 16 => Ok(if self.decide(st, c)? { a[0].clone() } else { a[1].clone() }),
                    V::S(c) => {
                        let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                        let e = self.p.ite(c, x, y);
                        Ok(self.v(e))
                    }
                    _ => unreachable!(),
                }
            }
            B::Fsh(left) => {
                let w = self.m.types.bits(ret);
                let s = self.kn(st, a[2].clone());
                let s = match s {
                    V::C(c) => c,
                    v => self.conc(st, &v)?,
                } % w as u128;
                let s = s as u32;
                let (h, l) = (self.e(&a[0], w), self.e(&a[1], w));
                let e = if left {
                    if s == 0 { h } else {
                        let x = self.p.extract(h, 0, w - s);
                        let y = self.p.extract(l, w - s, s);
                        self.p.concat(x, y)
                    }
                } else if s == 0 { l } else {
                    let x = self.p.extract(h, 0, s);
                    let y = self.p.extract(l, s, w - s);
                    self.p.concat(x, y)
                };
                Ok(self.v(e))
            }
            B::Ctlz | B::Cttz | B::Ctpop => {
                let w = self.m.types.bits(ret);
                if let V::C(c) = a[0] {
                    let r = match b {
                        B::Ctlz => if c == 0 { w } else { c.leading_zeros() - (128 - w) },
                        B::Cttz => if c == 0 { w } else { c.trailing_zeros() },
                        _ => c.count_ones(),
                    };
                    return Ok(V::C(r as u128));
                }
                let x = self.e(&a[0], w);
                if b == B::Ctpop {
                    // adder tree over sums just wide enough
                    let mut v: Vec<E> = (0..w).map(|i| self.p.extract(x, i, 1)).collect();
                    while v.len() > 1 {
                        let nw = v.iter().map(|y| self.p.w(*y)).max().unwrap() + 1;
                        let mut n = vec![];
                        for c in v.chunks(2) {
                            let y = self.p.zext(c[0], nw);
                            n.push(if c.len() == 2 {
                                let z = self.p.zext(c[1], nw);
                                self.p.add(y, z)
                            } else {
                                y
                            });
                        }
                        v = n;
                    }
                    let have = self.p.w(v[0]);
                    let r = if have < w { self.p.zext(v[0], w) } else if have > w { self.p.extract(v[0], 0, w) } else { v[0] };
                    return Ok(self.v(r));
                }
                let rw = if w > 8 { 8 } else { w };
                let mut r = self.p.c(rw, w as u128);
                for i in 0..w {
                    let bit = if b == B::Ctlz { self.p.extract(x, i, 1) } else { self.p.extract(x, w - 1 - i, 1) };
                    let k = self.p.c(rw, (w - 1 - i) as u128);
                    r = self.p.ite(bit, k, r);
                }
                if rw < w {
                    r = self.p.zext(r, w);
                }
                Ok(self.v(r))
            }
            B::Bswap => {
                let w = self.m.types.bits(ret);
                let x = self.e(&a[0], w);
                let mut acc = self.p.extract(x, w - 8, 8);
                for i in (0..w / 8 - 1).rev() {
                    let y = self.p.extract(x, i * 8, 8);
                    acc = self.p.concat(y, acc);
                }
                Ok(self.v(acc))
            }
            B::Bitrev => {
                let w = self.m.types.bits(ret);
                let x = self.e(&a[0], w);
                let mut acc = self.p.extract(x, w - 1, 1);
                for i in (0..w - 1).rev() {
                    let y = self.p.extract(x, i, 1);
                    acc = self.p.concat(y, acc);
                }
                Ok(self.v(acc))
            }
            B::Abs => {
                let w = self.m.types.bits(ret);
                let x = self.e(&a[0], w);
                let z = self.p.c(w, 0);
                let n = self.p.sub(z, x);
                let c = self.p.slt(x, z);
                let e = self.p.ite(c, n, x);
                Ok(self.v(e))
            }
            B::Cmp3(signed) => {
                let w = self.m.types.bits(tys[0]);
                let rw = self.m.types.bits(ret);
                let lt = self.icmp(if signed { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1]);
                let eq = self.icmp(Pred::Eq, w, &a[0], &a[1]);
                let (lt, eq) = (self.e(&lt, 1), self.e(&eq, 1));
                let (m1, z, p1) = (self.p.c(rw, mask(rw)), self.p.c(rw, 0), self.p.c(rw, 1));
                let t = self.p.ite(eq, z, p1);
                let e = self.p.ite(lt, m1, t);
                Ok(self.v(e))
            }
            B::Assume | B::Nop => Ok(V::C(0)),
            B::Ident | B::Expect => Ok(a[0].clone()),
            B::IsConst => Ok(V::C(0)),
            B::PtrMask => Ok(self.bin(BinOp::And, 64, &a[0], &a[1])),
            B::LoadRel => {
                let p = self.bin(BinOp::Add, 64, &a[0], &a[1]);
                let (bb, off) = self.resolve(st, &p, &V::C(4), "read")?;
                let by = self.load_bytes(st, bb, &off, 4)?;
                let v = self.join(&by, 32);
                let v = self.cast(CastOp::SExt, 32, 64, &v);
                Ok(self.bin(BinOp::Add, 64, &a[0], &v))
            }
            // ---- harness interface ----
            B::SymBytes => {
                // (ptr, len, arr)
                let n = self.conc(st, &a[1])? as u64;
                let arr = self.conc(st, &a[2])? as u32;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let (bb, off) = self.resolve(st, &a[0], &V::C(n as u128), "write")?;
                let mut v = vec![];
                for i in 0..n {
                    let ix = self.p.c(64, i as u128);
                    v.push(self.p.sel(arr, ix));
                }
                self.store_bytes(st, bb, &off, &v)?;
                Ok(V::C(0))
            }
            B::SymByte => {
                let arr = self.conc(st, &a[0])? as u32;
                let ix = self.e(&self.kn(st, a[1].clone()), 64);
                let e = self.p.sel(arr, ix);
                Ok(self.v(e))
            }
            B::SymRead => {
                // (arr, idx, ptr, len)
                let arr = self.conc(st, &a[0])? as u32;
                let ix = self.e(&self.kn(st, a[1].clone()), 64);
                let n = self.kn(st, a[3].clone());
                if let V::C(0) = n {
                    return Ok(V::C(0));
                }
                let (bb, off) = self.resolve(st, &a[2], &n, "write")?;
                let n = self.kn(st, n);
                if bb == 0 {
                    return Ok(V::C(0));
                }
                let o = self.conc(st, &off)? as u64;
                let (max, ne) = match n {
                    V::C(c) => (c as u64, None),
                    V::S(e) => {
                        let cap = st.mem[&bb].size - o;
                        (self.len_bound(st, e, cap)?.1, Some(e))
                    }
                    _ => unreachable!(),
                };
                let mut v = vec![];
                for i in 0..max {
                    let j = self.p.addc(ix, i as u128);
                    let mut x = self.p.sel(arr, j);
                    if let Some(ne) = ne {
                        let old = self.byte(st, bb, o + i);
                        let k = self.p.c(64, i as u128);
                        let c = self.p.ult(k, ne);
                        x = self.p.ite(c, x, old);
                    }
                    v.push(x);
                }
                self.store_bytes(st, bb, &V::C(o as u128), &v)?;
                Ok(V::C(0))
            }
            B::SymAssume => {
                let c = self.icmp(Pred::Ne, 32, &a[0], &V::C(0));
                match self.kn(st, c) {
                    V::C(1) => Ok(V::C(0)),
                    V::C(_) => Err(End::Infeasible),
                    V::S(e) => match self.sat(st, e)? {
                        None => Err(End::Infeasible),
                        Some(m) => {
                            st.model = m;
                            self.add_pc(st, e);
                            Ok(V::C(0))
                        }
                    },
                    _ => unreachable!(),
                }
            }
            B::SymCheck => {
                // (cond, ptr, len)
                let id = self.read_str(st, &a[1], &a[2]);
                let c = self.icmp(Pred::Ne, 32, &a[0], &V::C(0));
                self.rep.checks += 1;
                *self.rep.check_ids.entry(id.clone()).or_insert(0) += 1;
                if let V::C(_) = c {
                    self.rep.checks_trivial += 1;
                }
                let e = self.e(&c, 1);
                self.must(st, e, || End::Check(id))?;
                Ok(V::C(0))
            }
            B::SymReach => {
                let id = self.read_str(st, &a[0], &a[1]);
                self.rep.reach.insert(id);
                Ok(V::C(0))
            }
            B::SymObserve => {
                Rc::make_mut(&mut st.obs).push(a[0].clone());
                Ok(V::C(0))
            }
            B::SymConc => {
                let v = self.conc(st, &a[0])?;
                Ok(V::C(v))
            }
            B::SymAllocLimit => {
                let v = self.conc(st, &a[0])?;
                st.alloc_limit = v as u64;
                Ok(V::C(0))
            }
            B::SymSplit => {
                let v = self.conc(st, &a[0])?;
                st.split = v != 0;
                Ok(V::C(0))
            }
        }
    }
    fn overflow(&mut self, op: BinOp, signed: bool, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let m = mask(w);
            let (r, o) = if signed {
                let (x, y) = (sx(*x, w), sx(*y, w));
                let (r, o) = match op {
                    BinOp::Add => x.overflowing_add(y),
                    BinOp::Sub => x.overflowing_sub(y),
                    _ => x.overflowing_mul(y),
                };
                (r as u128 & m, o || sx(r as u128 & m, w) != r)
            } else {
                let (r, o) = match op {
                    BinOp::Add => x.overflowing_add(*y),
                    BinOp::Sub => x.overflowing_sub(*y),
                    _ => x.overflowing_mul(*y),
                };
                (r & m, o || r & m != r)
            };
            return Ok(V::A(Rc::new(vec![V::C(r), V::C(o as u128)])));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.bin(op, w, a, b);
        let re = self.e(&r, w);
        let ov = match (op, signed) {
            (BinOp::Add, false) => {
                match self.p.hi[x as usize].checked_add(self.p.hi[y as usize]) {
                    Some(h) if h <= mask(w) => 0,
                    _ => self.p.ult(re, x),
                }
            }
            (BinOp::Sub, false) => self.p.ult(x, y),
            (BinOp::Mul, false) => {
                match self.p.hi[x as usize].checked_mul(self.p.hi[y as usize]) {
                    Some(h) if h <= mask(w) => 0,
                    _ => {
                        if w <= 64 {
                            let (xx, yy) = (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w));
                            let q = self.p.mul(xx, yy);
                            let h = self.p.extract(q, w, w);
                            let z = self.p.c(w, 0);
                            let e = self.p.eq(h, z);
                            self.p.not(e)
                        } else {
                            let mx = self.p.c(w, mask(w));
                            let q = self.p.udiv(mx, y);
                            let z = self.p.c(w, 0);
                            let nz = self.p.eq(y, z);
                            let nz = self.p.not(nz);
                            let gt = self.p.ult(q, x);
                            self.p.and(nz, gt)
                        }
                    }
                }
            }
            (_, true) => {
                if w >= 128 {
                    // sign based for add/sub
                    let z = self.p.c(w, 0);
                    let (sxn, syn, srn) = (self.p.slt(x, z), self.p.slt(y, z), self.p.slt(re, z));
                    match op {
                        BinOp::Add => {
                            let d = self.p.xor(sxn, syn);
                            let same = self.p.not(d);
                            let diff = self.p.xor(sxn, srn);
                            self.p.and(same, diff)
                        }
                        BinOp::Sub => {
                            let d = self.p.xor(sxn, syn);
                            let diff = self.p.xor(sxn, srn);
                            self.p.and(d, diff)
                        }
                        _ => return Err(End::Error("smul.with.overflow.i128".into())),
                    }
                } else {
                    let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
                    if ww > 128 {
                        return Err(End::Error("wide signed overflow".into()));
                    }
                    let (xx, yy) = (self.p.sext(x, ww), self.p.sext(y, ww));
                    let q = match op {
                        BinOp::Add => self.p.add(xx, yy),
                        BinOp::Sub => self.p.sub(xx, yy),
                        _ => self.p.mul(xx, yy),
                    };
                    let r2 = self.p.sext(re, ww);
                    let e = self.p.eq(q, r2);
                    self.p.not(e)
                }
            }
            _ => unreachable!(),
        };
        Ok(V::A(Rc::new(vec![r, self.v(ov)])))
    }
}
