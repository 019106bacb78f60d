//! SMT back end: translates pool expressions to Z3 (QF_BV) through its C API.
//!
//! Reads of a symbolic array at a symbolic index become fresh 8-bit variables; functional
//! consistency (equal indices => equal bytes) is added lazily: a satisfying assignment is
//! accepted only if it is consistent, otherwise the violated instance is asserted and the
//! query is repeated.  "unsat" is therefore always sound, "sat" is always a real model.
use crate::expr::{Model, Pool, E, O};
use crate::fx::{FxMap, FxSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

pub type Support = Rc<Vec<(u32, u64, u64)>>; // (array, lo, hi) sorted

#[derive(Clone)]
pub enum Res {
    Unsat,
    Sat(Rc<Vec<((u32, u64), u8)>>),
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub cex_hits: u64,
    pub smt: u64,
    pub unsat: u64,
    pub sat: u64,
    pub refine: u64,
    pub ints: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub struct Solver {
    ctx: P,
    sorts: FxMap<u32, P>,
    bv: FxMap<E, P>,
    bl: FxMap<E, P>,
    support: FxMap<E, Support>,
    sels: FxMap<E, Rc<Vec<E>>>,
    cache: FxMap<Vec<E>, Res>,
    recent: Vec<Rc<Model>>,
    pub stats: Stats,
    pub rlimit: u32,
    logic: P,
    pub dump_slow: Option<f64>,
    /// Queries which z3's bit-blasting does not decide go to solvers which reason about integers.
    pub arith: bool,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, std::ptr::null());
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(ctx, l.as_ptr());
            Solver {
                ctx,
                sorts: FxMap::default(),
                bv: FxMap::default(),
                bl: FxMap::default(),
                support: FxMap::default(),
                sels: FxMap::default(),
                cache: FxMap::default(),
                recent: vec![],
                stats: Stats::default(),
                rlimit: 400_000_000,
                logic,
                arith: false,
                dump_slow: std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse().ok()),
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(ctx, w);
            Z3_inc_ref(ctx, s);
            s
        })
    }

    /// Array cells an expression may depend on.
    pub fn support(&mut self, p: &Pool, e: E) -> Support {
        if let Some(s) = self.support.get(&e) {
            return s.clone();
        }
        let n = p.n[e as usize];
        let mut out: Vec<(u32, u64, u64)> = vec![];
        match n.op {
            O::Const => {}
            O::Sel => {
                if let Some(i) = p.cv(n.b) {
                    out.push((n.a, i as u64, i as u64));
                } else {
                    out.push((n.a, p.lo[n.b as usize] as u64, p.hi[n.b as usize] as u64));
                    out.extend(self.support(p, n.b).iter());
                }
            }
            O::Tbl => {
                out.extend(self.support(p, n.b).iter());
                for &x in p.tables[n.a as usize].clone().iter() {
                    if p.cv(x).is_none() {
                        out.extend(self.support(p, x).iter());
                    }
                }
            }
            O::Not | O::Extract | O::ZExt | O::SExt => {
                let s = self.support(p, n.a);
                self.support.insert(e, s.clone());
                return s;
            }
            O::Ite => {
                out.extend(self.support(p, n.a).iter());
                out.extend(self.support(p, n.b).iter());
                out.extend(self.support(p, n.c).iter());
            }
            _ => {
                out.extend(self.support(p, n.a).iter());
                out.extend(self.support(p, n.b).iter());
            }
        }
        out.sort_unstable();
        // merge overlapping / adjacent
        let mut m: Vec<(u32, u64, u64)> = vec![];
        for x in out {
            if let Some(l) = m.last_mut() {
                if l.0 == x.0 && (x.1 <= l.2 || x.1 == l.2.wrapping_add(1)) {
                    l.2 = l.2.max(x.2);
                    continue;
                }
            }
            m.push(x);
        }
        let s: Support = Rc::new(m);
        self.support.insert(e, s.clone());
        s
    }
    fn overlap(a: &[(u32, u64, u64)], b: &[(u32, u64, u64)]) -> bool {
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            let (x, y) = (&a[i], &b[j]);
            if x.0 == y.0 && x.1 <= y.2 && y.1 <= x.2 {
                return true;
            }
            if (x.0, x.2) < (y.0, y.2) {
                i += 1;
            } else {
                j += 1;
            }
        }
        false
    }
    fn union(a: &[(u32, u64, u64)], b: &[(u32, u64, u64)]) -> Vec<(u32, u64, u64)> {
        let mut v = a.to_vec();
        v.extend_from_slice(b);
        v.sort_unstable();
        let mut m: Vec<(u32, u64, u64)> = vec![];
        for x in v {
            if let Some(l) = m.last_mut() {
                if l.0 == x.0 && (x.1 <= l.2 || x.1 == l.2.wrapping_add(1)) {
                    l.2 = l.2.max(x.2);
                    continue;
                }
            }
            m.push(x);
        }
        m
    }
    /// Constraints of `pc` transitively sharing cells with `q`.
    pub fn slice(&mut self, p: &Pool, pc: &[E], q: E) -> Vec<E> {
        let mut sup: Vec<(u32, u64, u64)> = self.support(p, q).to_vec();
        let mut left: Vec<(E, Support)> = pc.iter().map(|&e| (e, self.support(p, e))).collect();
        let mut out = vec![];
        loop {
            let mut changed = false;
            let mut rest = vec![];
            for (e, s) in left {
                if Self::overlap(&sup, &s) {
                    sup = Self::union(&sup, &s);
                    out.push(e);
                    changed = true;
                } else {
                    rest.push((e, s));
                }
            }
            left = rest;
            if !changed {
                break;
            }
        }
        out.push(q);
        out.sort_unstable();
        out.dedup();
        out
    }

    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }
    fn to_bool(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.bl.get(&e) {
            return a;
        }
        let n = p.n[e as usize];
        debug_assert!(n.w == 1);
        let c = self.ctx;
        let a = unsafe {
            match n.op {
                O::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                O::Eq => {
                    if p.w(n.a) == 1 {
                        let x = self.to_bool(p, n.a);
                        let y = self.to_bool(p, n.b);
                        Z3_mk_eq(c, x, y)
                    } else {
                        let x = self.to_bv(p, n.a);
                        let y = self.to_bv(p, n.b);
                        Z3_mk_eq(c, x, y)
                    }
                }
                O::Ult => {
                    let x = self.to_bv(p, n.a);
                    let y = self.to_bv(p, n.b);
                    Z3_mk_bvult(c, x, y)
                }
                O::Slt => {
                    let x = self.to_bv(p, n.a);
                    let y = self.to_bv(p, n.b);
                    Z3_mk_bvslt(c, x, y)
                }
                O::And | O::Or => {
                    let x = [self.to_bool(p, n.a), self.to_bool(p, n.b)];
                    if n.op == O::And { Z3_mk_and(c, 2, x.as_ptr()) } else { Z3_mk_or(c, 2, x.as_ptr()) }
                }
                O::Xor => {
                    let x = self.to_bool(p, n.a);
                    let y = self.to_bool(p, n.b);
                    Z3_mk_xor(c, x, y)
                }
                O::Not => {
                    let x = self.to_bool(p, n.a);
                    Z3_mk_not(c, x)
                }
                O::Ite => {
                    let x = self.to_bool(p, n.a);
                    let y = self.to_bool(p, n.b);
                    let z = self.to_bool(p, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.to_bv(p, e);
                    let s = self.sort(1);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.keep(a);
        self.bl.insert(e, a);
        a
    }
    fn to_bv(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.bv.get(&e) {
            return a;
        }
        let n = p.n[e as usize];
        let c = self.ctx;
        let a = unsafe {
            match n.op {
                O::Const => {
                    let s = self.sort(n.w);
                    if n.k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let t = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                O::Sel => {
                    let s = self.sort(8);
                    let y = Z3_mk_int_symbol(c, e as c_int);
                    Z3_mk_const(c, y, s)
                }
                O::Tbl => {
                    let t = p.tables[n.a as usize].clone();
                    let mut bits = 0;
                    while (1usize << bits) < t.len() {
                        bits += 1;
                    }
                    let idx = self.to_bv(p, n.b);
                    let s1 = self.sort(1);
                    let one = self.keep(Z3_mk_unsigned_int64(c, 1, s1));
                    let mut level: Vec<E> = vec![];
                    for i in 0..(1usize << bits) {
                        level.push(t[i.min(t.len() - 1)]);
                    }
                    let mut cur: Vec<P> = level.iter().map(|&x| self.to_bv(p, x)).collect();
                    let mut owned: Vec<P> = vec![];
                    for b in 0..bits {
                        let ex = self.keep(Z3_mk_extract(c, b, b, idx));
                        let cond = self.keep(Z3_mk_eq(c, ex, one));
                        owned.push(ex);
                        owned.push(cond);
                        let mut nx = vec![];
                        for k in 0..cur.len() / 2 {
                            if cur[2 * k] == cur[2 * k + 1] {
                                nx.push(cur[2 * k]);
                            } else {
                                let a = self.keep(Z3_mk_ite(c, cond, cur[2 * k + 1], cur[2 * k]));
                                owned.push(a);
                                nx.push(a);
                            }
                        }
                        cur = nx;
                    }
                    cur[0]
                }
                O::Eq | O::Ult | O::Slt => self.b2v(p, e),
                O::And | O::Or | O::Xor | O::Not | O::Ite if n.w == 1 => self.b2v(p, e),
                O::Not => {
                    let x = self.to_bv(p, n.a);
                    Z3_mk_bvnot(c, x)
                }
                O::Ite => {
                    let x = self.to_bool(p, n.a);
                    let y = self.to_bv(p, n.b);
                    let z = self.to_bv(p, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                O::Extract => {
                    let x = self.to_bv(p, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, x)
                }
                O::ZExt => {
                    let x = self.to_bv(p, n.a);
                    Z3_mk_zero_ext(c, n.w - p.w(n.a), x)
                }
                O::SExt => {
                    let x = self.to_bv(p, n.a);
                    Z3_mk_sign_ext(c, n.w - p.w(n.a), x)
                }
                _ => {
                    let x = self.to_bv(p, n.a);
                    let y = self.to_bv(p, n.b);
                    match n.op {
                        O::Add => Z3_mk_bvadd(c, x, y),
                        O::Mul => Z3_mk_bvmul(c, x, y),
                        O::UDiv => Z3_mk_bvudiv(c, x, y),
                        O::URem => Z3_mk_bvurem(c, x, y),
                        O::SDiv => Z3_mk_bvsdiv(c, x, y),
                        O::SRem => Z3_mk_bvsrem(c, x, y),
                        O::And => Z3_mk_bvand(c, x, y),
                        O::Or => Z3_mk_bvor(c, x, y),
                        O::Xor => Z3_mk_bvxor(c, x, y),
                        O::Shl => Z3_mk_bvshl(c, x, y),
                        O::LShr => Z3_mk_bvlshr(c, x, y),
                        O::AShr => Z3_mk_bvashr(c, x, y),
                        O::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.keep(a);
        self.bv.insert(e, a);
        a
    }
    unsafe fn b2v(&mut self, p: &Pool, e: E) -> P {
        let x = self.to_bool(p, e);
        let s = self.sort(1);
        let one = self.keep(Z3_mk_unsigned_int64(self.ctx, 1, s));
        let zero = self.keep(Z3_mk_unsigned_int64(self.ctx, 0, s));
        Z3_mk_ite(self.ctx, x, one, zero)
    }
    /// All Sel nodes below `e`.
    fn sels(&mut self, p: &Pool, e: E) -> Rc<Vec<E>> {
        if let Some(s) = self.sels.get(&e) {
            return s.clone();
        }
        let mut seen: FxSet<E> = FxSet::default();
        let mut st = vec![e];
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = p.n[x as usize];
            match n.op {
                O::Const => {}
                O::Sel => {
                    out.push(x);
                    st.push(n.b);
                }
                O::Tbl => {
                    st.push(n.b);
                    st.extend(p.tables[n.a as usize].iter());
                }
                O::Not | O::Extract | O::ZExt | O::SExt => st.push(n.a),
                O::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c);
                }
                _ => {
                    st.push(n.a);
                    st.push(n.b);
                }
            }
        }
        out.sort_unstable();
        let r = Rc::new(out);
        self.sels.insert(e, r.clone());
        r
    }

    /// Is `pc ∧ q` satisfiable, given that `pc` is satisfied by `m`?  On Sat returns a full model.
    pub fn check(&mut self, p: &mut Pool, pc: &[E], q: E, m: &Rc<Model>) -> Result<Option<Rc<Model>>, String> {
        self.stats.queries += 1;
        if q == 0 {
            return Ok(None);
        }
        if m.eval(p, q) == 1 {
            return Ok(Some(m.clone()));
        }
        let sl = self.slice(p, pc, q);
        let r = match self.cache.get(&sl) {
            Some(r) => {
                self.stats.cache_hits += 1;
                r.clone()
            }
            None => {
                // counterexample cache
                let mut hit = None;
                for rm in self.recent.iter().rev() {
                    if sl.iter().all(|&e| rm.eval(p, e) == 1) {
                        hit = Some(rm.clone());
                        break;
                    }
                }
                let r = if let Some(rm) = hit {
                    self.stats.cex_hits += 1;
                    // project onto the slice's sels
                    let mut cells = vec![];
                    for &e in &sl {
                        for &s in self.sels(p, e).iter() {
                            let n = p.n[s as usize];
                            let i = rm.eval(p, n.b) as u64;
                            cells.push(((n.a, i), *rm.cells.get(&(n.a, i)).unwrap_or(&0)));
                        }
                    }
                    cells.sort_unstable();
                    cells.dedup();
                    Res::Sat(Rc::new(cells))
                } else {
                    self.smt(p, &sl)?
                };
                self.cache.insert(sl.clone(), r.clone());
                r
            }
        };
        match r {
            Res::Unsat => Ok(None),
            Res::Unknown => Err("solver: unknown".into()),
            Res::Sat(cells) => {
                let mut nm = Model::default();
                nm.cells = m.cells.clone();
                for &(k, v) in cells.iter() {
                    nm.cells.insert(k, v);
                }
                for &e in &sl {
                    if nm.eval(p, e) != 1 {
                        return Err(format!("solver: model does not satisfy constraint {}", e));
                    }
                }
                let nm = Rc::new(nm);
                if self.recent.len() >= 12 {
                    self.recent.remove(0);
                }
                self.recent.push(nm.clone());
                Ok(Some(nm))
            }
        }
    }

    fn smt(&mut self, p: &mut Pool, sl: &[E]) -> Result<Res, String> {
        let t0 = Instant::now();
        let r = self.smt_inner(p, sl);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.secs += dt;
        if dt > self.stats.max_secs {
            self.stats.max_secs = dt;
        }
        self.stats.smt += 1;
        match &r {
            Ok(Res::Unsat) => self.stats.unsat += 1,
            Ok(Res::Sat(_)) => self.stats.sat += 1,
            _ => {}
        }
        r
    }
    fn smt_inner(&mut self, p: &mut Pool, sl: &[E]) -> Result<Res, String> {
        let mut sels: Vec<E> = vec![];
        for &e in sl {
            sels.extend(self.sels(p, e).iter());
        }
        sels.sort_unstable();
        sels.dedup();
        let asts: Vec<P> = sl.iter().map(|&e| self.to_bool(p, e)).collect();
        let c = self.ctx;
        unsafe {
            let s = Z3_mk_solver_for_logic(c, self.logic);
            Z3_solver_inc_ref(c, s);
            let prm = Z3_mk_params(c);
            Z3_params_inc_ref(c, prm);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, prm, Z3_mk_string_symbol(c, k.as_ptr()), if self.arith { 1_500_000 } else { self.rlimit });
            Z3_solver_set_params(c, s, prm);
            for &a in &asts {
                Z3_solver_assert(c, s, a);
            }
            let res = loop {
                let t0 = Instant::now();
                let r = Z3_solver_check(c, s);
                if let Some(lim) = self.dump_slow {
                    let d = t0.elapsed().as_secs_f64();
                    if d > lim {
                        let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                        let f = format!("/tmp/slow_{}_{}.smt2", std::process::id(), self.stats.smt);
                        let _ = std::fs::write(&f, t + "(check-sat)\n");
                        eprintln!("slow query {:.1}s result {} -> {}", d, r, f);
                    }
                }
                if r == -1 {
                    break Ok(Res::Unsat);
                }
                if r == 0 && self.arith {
                    let s2 = Z3_mk_solver_for_logic(c, self.logic);
                    Z3_solver_inc_ref(c, s2);
                    for &a in &asts {
                        Z3_solver_assert(c, s2, a);
                    }
                    let t = CStr::from_ptr(Z3_solver_to_string(c, s2)).to_string_lossy().to_string();
                    Z3_solver_dec_ref(c, s2);
                    let t = t.replace("bvsdiv_i", "bvsdiv").replace("bvudiv_i", "bvudiv").replace("bvsrem_i", "bvsrem").replace("bvurem_i", "bvurem");
                    break self.integers(p, sl, &sels, &t);
                }
                if r == 0 {
                    let why = CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)).to_string_lossy().to_string();
                    break Err(format!("solver: unknown ({})", why));
                }
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut cells: FxMap<(u32, u64), (u8, E)> = FxMap::default();
                let mut lemmas: Vec<(E, E)> = vec![];
                for &x in &sels {
                    let n = p.n[x as usize];
                    let idx = match p.cv(n.b) {
                        Some(i) => i as u64,
                        None => {
                            let a = self.to_bv(p, n.b);
                            self.val(m, a)
                        }
                    };
                    let a = self.to_bv(p, x);
                    let v = self.val(m, a) as u8;
                    match cells.get(&(n.a, idx)) {
                        None => {
                            cells.insert((n.a, idx), (v, x));
                        }
                        Some(&(v0, x0)) => {
                            if v0 != v {
                                lemmas.push((x0, x));
                            }
                        }
                    }
                }
                Z3_model_dec_ref(c, m);
                if lemmas.is_empty() {
                    let mut v: Vec<_> = cells.into_iter().map(|(k, v)| (k, v.0)).collect();
                    v.sort_unstable();
                    break Ok(Res::Sat(Rc::new(v)));
                }
                self.stats.refine += 1;
                for (x, y) in lemmas {
                    let (ix, iy) = (p.n[x as usize].b, p.n[y as usize].b);
                    let ie = p.eq(ix, iy);
                    let ve = p.eq(x, y);
                    let ni = p.not(ie);
                    let l = p.or(ni, ve);
                    let a = self.to_bool(p, l);
                    Z3_solver_assert(c, s, a);
                }
            };
            Z3_solver_dec_ref(c, s);
            res
        }
    }
    /// Decides a query with solvers which translate bit vectors to integer arithmetic.
    fn integers(&mut self, p: &Pool, sl: &[E], sels: &[E], text: &str) -> Result<Res, String> {
        use std::io::Read;
        use std::process::{Command, Stdio};
        self.stats.ints += 1;
        let mut q = String::from("(set-logic QF_BV)\n(set-option :produce-models true)\n");
        q.push_str(text);
        q.push_str("(check-sat)\n");
        for x in sels {
            q.push_str(&format!("(get-value (k!{}))\n", x));
        }
        let f = std::env::temp_dir().join(format!("q{}_{}.smt2", std::process::id(), self.stats.smt));
        std::fs::write(&f, q).map_err(|e| e.to_string())?;
        let cmds: [&[&str]; 3] = [
            &["z3-new", "smt.bv.solver=2", "tactic.default_tactic=smt", "sat.euf=true", "-T:120"],
            &["cvc5", "--solve-bv-as-int=sum", "--tlimit=120000"],
            &["cvc5", "--tlimit=120000"],
        ];
        let mut running = vec![];
        for c in cmds {
            if let Ok(ch) = Command::new(c[0]).args(&c[1..]).arg(&f).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                running.push(Some(ch));
            }
        }
        let mut res = Err("solver: unknown (integers)".to_string());
        'w: while running.iter().any(|r| r.is_some()) {
            for slot in running.iter_mut() {
                let Some(ch) = slot else { continue };
                if !matches!(ch.try_wait(), Ok(None)) {
                    let mut out = String::new();
                    let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
                    *slot = None;
                    if out.starts_with("unsat") {
                        res = Ok(Res::Unsat);
                        break 'w;
                    }
                    if out.starts_with("sat") {
                        let mut cells = vec![];
                        for &x in sels {
                            let n = p.n[x as usize];
                            let (Some(i), Some(o)) = (p.cv(n.b), out.find(&format!("((k!{} ", x))) else {
                                return Err("solver: no value".into());
                            };
                            let t = &out[o..];
                            let t = t[t.find('#').ok_or("value")?..].split(')').next().unwrap();
                            let v = u8::from_str_radix(&t[2..], if t.as_bytes()[1] == b'x' { 16 } else { 2 }).map_err(|e| e.to_string())?;
                            cells.push(((n.a, i as u64), v));
                        }
                        cells.sort_unstable();
                        cells.dedup();
                        let mut m = Model::default();
                        for &(k, v) in &cells {
                            m.cells.insert(k, v);
                        }
                        if sl.iter().all(|&e| m.eval(p, e) == 1) {
                            res = Ok(Res::Sat(Rc::new(cells)));
                            break 'w;
                        }
                    }
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        for ch in running.iter_mut().flatten() {
            let _ = ch.kill();
            let _ = ch.wait();
        }
        if self.dump_slow.is_none() {
            let _ = std::fs::remove_file(&f);
        }
        res
    }
    unsafe fn val(&self, m: P, a: P) -> u64 {
        let mut out: P = std::ptr::null_mut();
        let ok = Z3_model_eval(self.ctx, m, a, true, &mut out);
        assert!(ok);
        Z3_inc_ref(self.ctx, out);
        let mut v = 0u64;
        let ok = Z3_get_numeral_uint64(self.ctx, out, &mut v);
        assert!(ok, "numeral");
        Z3_dec_ref(self.ctx, out);
        v
    }
}
