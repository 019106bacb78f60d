//! Hash-consed bit-vector expressions with local simplification.
use crate::fx::FxMap;
use crate::ir::mask;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const,
    Sel,  // a = array id, b = index (64 bit)
    Tbl,  // a = table id, b = index (64 bit)
    Add, Mul, UDiv, URem, SDiv, SRem,
    And, Or, Xor, Not,
    Shl, LShr, AShr,
    Eq, Ult, Slt,
    Ite,
    Concat, // a = high, b = low
    Extract, // a, k = lo
    ZExt, SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub struct Pool {
    pub n: Vec<Node>,
    map: FxMap<Node, E>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub kz: Vec<u128>, // known-zero bits
    /// Do not narrow sums and products (for solvers which reason about integers).
    pub words: bool,
    pub tables: Vec<std::rc::Rc<Vec<E>>>,
    table_map: FxMap<std::rc::Rc<Vec<E>>, u32>,
}

fn sext128(v: u128, w: u32) -> i128 {
    if w == 0 { return 0; }
    ((v << (128 - w)) as i128) >> (128 - w)
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            n: vec![],
            map: FxMap::default(),
            lo: vec![],
            hi: vec![],
            kz: vec![],
            words: false,
            tables: vec![],
            table_map: FxMap::default(),
        };
        // id 0: reserved false, id 1: true
        p.c(1, 0);
        p.c(1, 1);
        p
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == O::Const { Some(n.k) } else { None }
    }
    fn mk(&mut self, op: O, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let nd = Node { op, w, a, b, c, k };
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let id = self.n.len() as E;
        let (mut lo, mut hi, mut kz) = self.analyse(&nd);
        let m = mask(w);
        // combine known-zero with range
        if hi < m {
            let bits = 128 - hi.leading_zeros();
            kz |= m & !mask(bits);
        }
        let hi2 = m & !kz;
        if hi2 < hi {
            hi = hi2;
        }
        if lo > hi {
            lo = 0;
        }
        self.n.push(nd);
        self.lo.push(lo);
        self.hi.push(hi);
        self.kz.push(kz);
        self.map.insert(nd, id);
        id
    }
    fn analyse(&self, n: &Node) -> (u128, u128, u128) {
        let m = mask(n.w);
        let lo = |e: E| self.lo[e as usize];
        let hi = |e: E| self.hi[e as usize];
        let kz = |e: E| self.kz[e as usize];
        match n.op {
            O::Const => (n.k, n.k, m & !n.k),
            O::Tbl => {
                let t = &self.tables[n.a as usize];
                let mut l = u128::MAX;
                let mut h = 0;
                let mut z = m;
                for &e in t.iter() {
                    l = l.min(lo(e));
                    h = h.max(hi(e));
                    z &= kz(e);
                }
                (l.min(h), h, z)
            }
            O::Add => {
                let tz = {
                    let t = |z: u128| (!z).trailing_zeros().min(n.w);
                    mask(t(kz(n.a)).min(t(kz(n.b))))
                };
                match hi(n.a).checked_add(hi(n.b)) {
                    Some(h) if h <= m => (lo(n.a) + lo(n.b), h, tz),
                    _ => (0, m, tz),
                }
            }
            O::Mul => match hi(n.a).checked_mul(hi(n.b)) {
                Some(h) if h <= m => (lo(n.a) * lo(n.b), h, 0),
                _ => (0, m, 0),
            },
            O::UDiv => {
                if lo(n.b) > 0 {
                    (lo(n.a) / hi(n.b), hi(n.a) / lo(n.b), 0)
                } else {
                    (0, m, 0)
                }
            }
            O::URem => {
                if lo(n.b) > 0 {
                    (0, hi(n.a).min(hi(n.b) - 1), 0)
                } else {
                    (0, m, 0)
                }
            }
            O::And => (0, hi(n.a).min(hi(n.b)), kz(n.a) | kz(n.b)),
            O::Or => (lo(n.a).max(lo(n.b)), m, kz(n.a) & kz(n.b)),
            O::Xor => (0, m, kz(n.a) & kz(n.b)),
            O::LShr => {
                if let Some(s) = self.cv(n.b) {
                    if s < n.w as u128 {
                        return (lo(n.a) >> s, hi(n.a) >> s, 0);
                    }
                }
                (0, hi(n.a), 0)
            }
            O::Ite => (lo(n.b).min(lo(n.c)), hi(n.b).max(hi(n.c)), kz(n.b) & kz(n.c)),
            O::Concat => {
                let wl = self.w(n.b);
                (
                    (lo(n.a) << wl) | lo(n.b),
                    (hi(n.a) << wl) | hi(n.b),
                    (kz(n.a) << wl) | kz(n.b),
                )
            }
            O::Extract => {
                let z = (kz(n.a) >> n.k) & m;
                let h = hi(n.a) >> n.k;
                if h <= m && n.k as u32 + n.w >= self.w(n.a) - (hi(n.a).leading_zeros() + self.w(n.a)).saturating_sub(128).min(self.w(n.a)) {
                    (lo(n.a) >> n.k, h, z)
                } else {
                    (0, m, z)
                }
            }
            O::ZExt => (lo(n.a), hi(n.a), kz(n.a) | (m & !mask(self.w(n.a)))),
            O::SExt => {
                let wa = self.w(n.a);
                if hi(n.a) < (1u128 << (wa - 1)) {
                    (lo(n.a), hi(n.a), kz(n.a) | (m & !mask(wa)))
                } else {
                    (0, m, 0)
                }
            }
            _ => (0, m, 0),
        }
    }
    pub fn c(&mut self, w: u32, v: u128) -> E {
        self.mk(O::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn tru(&self) -> E { 1 }
    pub fn fls(&self) -> E { 0 }
    pub fn bool(&self, b: bool) -> E { b as E }
    pub fn sel(&mut self, arr: u32, idx: E) -> E {
        self.mk(O::Sel, 8, arr, idx, 0, 0)
    }
    pub fn tbl(&mut self, t: Vec<E>, idx: E) -> E {
        let t = std::rc::Rc::new(t);
        let id = match self.table_map.get(&t) {
            Some(&i) => i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(t.clone());
                self.table_map.insert(t, i);
                i
            }
        };
        let w = self.w(self.tables[id as usize][0]);
        self.mk(O::Tbl, w, id, idx, 0, 0)
    }

    fn linear(&self, e: E, coef: u128, terms: &mut Vec<(E, u128)>, cst: &mut u128, w: u32) {
        let n = self.n[e as usize];
        match n.op {
            O::Const => *cst = cst.wrapping_add(n.k.wrapping_mul(coef)),
            O::Add if terms.len() < 24 => {
                self.linear(n.a, coef, terms, cst, w);
                self.linear(n.b, coef, terms, cst, w);
            }
            O::Mul if self.cv(n.b).is_some() => {
                let k = self.cv(n.b).unwrap();
                self.linear(n.a, coef.wrapping_mul(k) & mask(w), terms, cst, w);
            }
            _ => {
                for t in terms.iter_mut() {
                    if t.0 == e {
                        t.1 = t.1.wrapping_add(coef);
                        return;
                    }
                }
                terms.push((e, coef));
            }
        }
    }
    fn from_linear(&mut self, mut terms: Vec<(E, u128)>, cst: u128, w: u32) -> E {
        let m = mask(w);
        terms.retain(|t| t.1 & m != 0);
        terms.sort();
        let mut acc: Option<E> = None;
        for (e, k) in terms {
            let k = k & m;
            let t = if k == 1 { e } else { self.mulc(e, k) };
            acc = Some(match acc {
                None => t,
                Some(a) => self.mk(O::Add, w, a, t, 0, 0),
            });
        }
        let cst = cst & m;
        match acc {
            None => self.c(w, cst),
            Some(a) => {
                if cst == 0 {
                    a
                } else {
                    let k = self.c(w, cst);
                    self.mk(O::Add, w, a, k, 0, 0)
                }
            }
        }
    }
    fn mulc(&mut self, e: E, k: u128) -> E {
        let w = self.w(e);
        if k.is_power_of_two() {
            let s = k.trailing_zeros();
            if s == 0 {
                return e;
            }
            return self.shl_c(e, s);
        }
        let kc = self.c(w, k);
        self.mk(O::Mul, w, e, kc, 0, 0)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let mut t = vec![];
        let mut c = 0u128;
        self.linear(a, 1, &mut t, &mut c, w);
        self.linear(b, 1, &mut t, &mut c, w);
        self.from_linear(t, c, w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let mut t = vec![];
        let mut c = 0u128;
        self.linear(a, 1, &mut t, &mut c, w);
        self.linear(b, mask(w), &mut t, &mut c, w);
        self.from_linear(t, c, w)
    }
    pub fn addc(&mut self, a: E, k: u128) -> E {
        let w = self.w(a);
        let kc = self.c(w, k);
        self.add(a, kc)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(v) = self.cv(a) {
                return self.c(w, v.wrapping_mul(k));
            }
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                return self.shl_c(a, k.trailing_zeros());
            }
            let mut t = vec![];
            let mut c = 0u128;
            self.linear(a, k, &mut t, &mut c, w);
            return self.from_linear(t, c, w);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(O::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if let Some(v) = self.cv(a) {
                if k != 0 {
                    return self.c(w, v / k);
                }
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                return self.lshr_c(a, k.trailing_zeros());
            }
            if self.hi[a as usize] < k {
                return self.c(w, 0);
            }
        }
        self.mk(O::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if let Some(v) = self.cv(a) {
                if k != 0 {
                    return self.c(w, v % k);
                }
            }
            if k == 1 {
                return self.c(w, 0);
            }
            if k.is_power_of_two() {
                let t = k.trailing_zeros();
                let x = self.extract(a, 0, t);
                return self.zext(x, w);
            }
            if self.hi[a as usize] < k {
                return a;
            }
        }
        self.mk(O::URem, w, a, b, 0, 0)
    }
    fn nonneg(&self, e: E) -> bool {
        let w = self.w(e);
        self.kz[e as usize] >> (w - 1) & 1 == 1
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sext128(x, w), sext128(y, w));
            if y != 0 {
                return self.c(w, x.wrapping_div(y) as u128);
            }
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.udiv(a, b);
        }
        self.mk(O::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sext128(x, w), sext128(y, w));
            if y != 0 {
                return self.c(w, x.wrapping_rem(y) as u128);
            }
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.urem(a, b);
        }
        self.mk(O::SRem, w, a, b, 0, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n[a as usize];
        match n.op {
            O::Const => self.c(n.w, !n.k),
            O::Not => n.a,
            _ => self.mk(O::Not, n.w, a, 0, 0, 0),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(v) = self.cv(a) {
                return self.c(w, v & k);
            }
            if k == 0 {
                return b;
            }
            if k == mask(w) {
                return a;
            }
            // drop bits known zero
            let kz = self.kz[a as usize];
            if (mask(w) & !k) & !kz == 0 {
                return a;
            }
            if k & !kz & mask(w) == 0 {
                return self.c(w, 0);
            }
            // contiguous mask -> extract + concat
            let lo = k.trailing_zeros();
            let sh = k >> lo;
            if (sh & sh.wrapping_add(1)) == 0 {
                let n = 128 - sh.leading_zeros();
                let x = self.extract(a, lo, n);
                let x = self.concat_zero_low(x, lo);
                return self.zext(x, w);
            }
        }
        if w == 1 {
            // x & !x
            if self.n[a as usize].op == O::Not && self.n[a as usize].a == b {
                return 0;
            }
            if self.n[b as usize].op == O::Not && self.n[b as usize].a == a {
                return 0;
            }
        }
        let (a, b) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(O::And, w, a, b, 0, 0)
    }
    fn concat_zero_low(&mut self, x: E, n: u32) -> E {
        if n == 0 {
            return x;
        }
        let z = self.c(n, 0);
        self.concat(x, z)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(v) = self.cv(a) {
                return self.c(w, v | k);
            }
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return b;
            }
        }
        if w == 1 {
            if self.n[a as usize].op == O::Not && self.n[a as usize].a == b {
                return 1;
            }
            if self.n[b as usize].op == O::Not && self.n[b as usize].a == a {
                return 1;
            }
        } else {
            // disjoint bits: split at a boundary
            let (za, zb) = (self.kz[a as usize], self.kz[b as usize]);
            let (na, nb) = (!za & mask(w), !zb & mask(w));
            if na & nb == 0 && na != 0 && nb != 0 {
                let (l, h, nl, nh) = if na < nb { (a, b, na, nb) } else { (b, a, nb, na) };
                let cut = nh.trailing_zeros();
                if nl >> cut == 0 {
                    let lowp = self.extract(l, 0, cut);
                    let hip = self.extract(h, cut, w - cut);
                    return self.concat(hip, lowp);
                }
            }
        }
        let (a, b) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(O::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(v) = self.cv(a) {
                return self.c(w, v ^ k);
            }
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return self.not(a);
            }
        }
        if w == 1 {
            let e = self.eq(a, b);
            return self.not(e);
        }
        let (a, b) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(O::Xor, w, a, b, 0, 0)
    }
    pub fn shl_c(&mut self, a: E, s: u32) -> E {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(w, 0);
        }
        let x = self.extract(a, 0, w - s);
        let z = self.c(s, 0);
        self.concat(x, z)
    }
    pub fn lshr_c(&mut self, a: E, s: u32) -> E {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(w, 0);
        }
        let x = self.extract(a, s, w - s);
        self.zext(x, w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            return self.shl_c(a, s.min(w as u128) as u32);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(O::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            return self.lshr_c(a, s.min(w as u128) as u32);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(O::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            let s = s.min(w as u128 - 1) as u32;
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.mk(O::AShr, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        match n.op {
            O::Const => self.c(w, n.k),
            O::ZExt => self.zext(n.a, w),
            _ => self.mk(O::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            O::Const => self.c(w, sext128(n.k, n.w) as u128),
            O::SExt => self.sext(n.a, w),
            _ if self.nonneg(a) => self.zext(a, w),
            _ => self.mk(O::SExt, w, a, 0, 0, 0),
        }
    }
    /// `n` bits starting at bit `lo`.
    pub fn extract(&mut self, a: E, lo: u32, n: u32) -> E {
        let nd = self.n[a as usize];
        if lo == 0 && n == nd.w {
            return a;
        }
        debug_assert!(lo + n <= nd.w);
        if self.kz[a as usize] >> lo & mask(n) == mask(n) {
            return self.c(n, 0);
        }
        match nd.op {
            O::Const => self.c(n, nd.k >> lo),
            O::Extract => self.extract(nd.a, lo + nd.k as u32, n),
            O::Concat => {
                let wl = self.w(nd.b);
                if lo >= wl {
                    self.extract(nd.a, lo - wl, n)
                } else if lo + n <= wl {
                    self.extract(nd.b, lo, n)
                } else {
                    let l = self.extract(nd.b, lo, wl - lo);
                    let h = self.extract(nd.a, 0, lo + n - wl);
                    self.concat(h, l)
                }
            }
            O::ZExt => {
                let wa = self.w(nd.a);
                if lo + n <= wa {
                    self.extract(nd.a, lo, n)
                } else if lo >= wa {
                    self.c(n, 0)
                } else {
                    let x = self.extract(nd.a, lo, wa - lo);
                    self.zext(x, n)
                }
            }
            O::SExt => {
                let wa = self.w(nd.a);
                if lo + n <= wa {
                    self.extract(nd.a, lo, n)
                } else if lo < wa {
                    let x = self.extract(nd.a, lo, wa - lo);
                    self.sext(x, n)
                } else {
                    let x = self.extract(nd.a, wa - 1, 1);
                    self.sext(x, n)
                }
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(nd.a, lo, n);
                let y = self.extract(nd.b, lo, n);
                match nd.op {
                    O::And => self.and(x, y),
                    O::Or => self.or(x, y),
                    _ => self.xor(x, y),
                }
            }
            O::Not => {
                let x = self.extract(nd.a, lo, n);
                self.not(x)
            }
            O::Add if lo == 0 && n != 8 && !self.words => {
                let x = self.extract(nd.a, 0, n);
                let y = self.extract(nd.b, 0, n);
                self.add(x, y)
            }
            O::Mul if lo == 0 && n != 8 && !self.words => {
                let x = self.extract(nd.a, 0, n);
                let y = self.extract(nd.b, 0, n);
                self.mul(x, y)
            }
            O::Ite if self.cv(nd.b).is_some() || self.cv(nd.c).is_some() || n <= 8 => {
                let x = self.extract(nd.b, lo, n);
                let y = self.extract(nd.c, lo, n);
                self.ite(nd.a, x, y)
            }
            _ => self.mk(O::Extract, n, a, 0, 0, lo as u128),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        let w = nh.w + nl.w;
        if let (O::Const, O::Const) = (nh.op, nl.op) {
            return self.c(w, nh.k << nl.w | nl.k);
        }
        if nh.op == O::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        // zext(x) ++ l  ->  zext(x ++ l)
        if nh.op == O::ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        // merge adjacent extracts
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nl.a, nl.k as u32, w);
        }
        // extract ++ whole narrow: x[hi..n] ++ x where low part is the low extract of wider
        if nh.op == O::Extract && nl.op == O::Concat {
            let m = self.n[nl.a as usize];
            if m.op == O::Extract && m.a == nh.a && nh.k == m.k + m.w as u128 {
                let x = self.extract(nh.a, m.k as u32, nh.w + m.w);
                return self.concat(x, nl.b);
            }
        }
        // merge ites on the same condition
        if nh.op == O::Ite && nl.op == O::Ite && nh.a == nl.a {
            let t = self.concat(nh.b, nl.b);
            let f = self.concat(nh.c, nl.c);
            return self.ite(nh.a, t, f);
        }
        // right-assoc: (a ++ b) ++ l -> a ++ (b ++ l)
        if nh.op == O::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        // sign extension pieces: sext(x[top]) ++ x  -> sext(x)
        if nh.op == O::SExt {
            let s = self.n[nh.a as usize];
            if s.op == O::Extract && s.w == 1 && s.a == l && s.k as u32 == nl.w - 1 {
                return self.sext(l, w);
            }
        }
        self.mk(O::Concat, w, h, l, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == 1 {
            return a;
        }
        if c == 0 {
            return b;
        }
        if a == b {
            return a;
        }
        let nc = self.n[c as usize];
        if nc.op == O::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if a == 1 && b == 0 {
                return c;
            }
            if a == 0 && b == 1 {
                return self.not(c);
            }
            if a == 1 {
                return self.or(c, b);
            }
            if b == 0 {
                return self.and(c, a);
            }
            if a == 0 {
                let x = self.not(c);
                return self.and(x, b);
            }
            if b == 1 {
                let x = self.not(c);
                return self.or(x, a);
            }
        }
        let na = self.n[a as usize];
        if na.op == O::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n[b as usize];
        if nb.op == O::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if nb.op == O::Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        if na.op == O::ZExt && nb.op == O::Const && nb.k <= mask(self.w(na.a)) {
            let wa = self.w(na.a);
            let k = self.c(wa, nb.k);
            let x = self.ite(c, na.a, k);
            return self.zext(x, w);
        }
        if nb.op == O::ZExt && na.op == O::Const && na.k <= mask(self.w(nb.a)) {
            let wa = self.w(nb.a);
            let k = self.c(wa, na.k);
            let x = self.ite(c, k, nb.a);
            return self.zext(x, w);
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return 1;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        let (ia, ib) = (a as usize, b as usize);
        if self.hi[ia] < self.lo[ib] || self.hi[ib] < self.lo[ia] {
            return 0;
        }
        let na = self.n[ia];
        if let Some(k) = self.cv(b) {
            if self.kz[ia] & k != 0 {
                return 0;
            }
            if let O::Const = na.op {
                return self.bool(na.k == k);
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                O::ZExt => {
                    let wa = self.w(na.a);
                    let kk = self.c(wa, k);
                    return self.eq(na.a, kk);
                }
                O::SExt => {
                    let wa = self.w(na.a);
                    if (sext128(k & mask(wa), wa) as u128) & mask(w) != k {
                        return 0;
                    }
                    let kk = self.c(wa, k);
                    return self.eq(na.a, kk);
                }
                O::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.c(w - wl, k >> wl);
                    let kl = self.c(wl, k);
                    let x = self.eq(na.a, kh);
                    if x == 0 {
                        return 0;
                    }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                O::Add => {
                    if let Some(c) = self.cv(na.b) {
                        let kk = self.c(w, k.wrapping_sub(c));
                        return self.eq(na.a, kk);
                    }
                }
                O::Not => {
                    let kk = self.c(w, !k);
                    return self.eq(na.a, kk);
                }
                O::Xor => {
                    if let Some(c) = self.cv(na.b) {
                        let kk = self.c(w, k ^ c);
                        return self.eq(na.a, kk);
                    }
                }
                O::Mul => {
                    // odd multiplier is invertible
                    if let Some(c) = self.cv(na.b) {
                        if c & 1 == 1 {
                            let mut inv: u128 = c;
                            for _ in 0..7 {
                                inv = inv.wrapping_mul(2u128.wrapping_sub(c.wrapping_mul(inv)));
                            }
                            let kk = self.c(w, k.wrapping_mul(inv));
                            return self.eq(na.a, kk);
                        }
                    }
                }
                O::Ite => {
                    let (cb, cc) = (self.cv(na.b), self.cv(na.c));
                    if cb.is_some() || cc.is_some() {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                _ => {}
            }
        } else {
            let nb = self.n[ib];
            if na.op == O::ZExt && nb.op == O::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                let m = wa.max(wb);
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                if m < w {
                    return self.eq(x, y);
                }
            }
            if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                if x == 0 {
                    return 0;
                }
                let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
            if na.op == O::Add || nb.op == O::Add {
                let d = self.sub(a, b);
                if let Some(v) = self.cv(d) {
                    return self.bool(v == 0);
                }
                let nd = self.n[d as usize];
                // single atom plus constant
                if nd.op == O::Add && self.cv(nd.b).is_some() && self.n[nd.a as usize].op != O::Add && self.n[nd.a as usize].op != O::Mul {
                    let k = self.cv(nd.b).unwrap();
                    let kk = self.c(w, k.wrapping_neg());
                    return self.eq(nd.a, kk);
                }
                if nd.op != O::Add && nd.op != O::Mul {
                    let z = self.c(w, 0);
                    return self.eq(d, z);
                }
            }
        }
        let (a, b) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(O::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return 0;
        }
        let (ia, ib) = (a as usize, b as usize);
        let w = self.w(a);
        if self.hi[ia] < self.lo[ib] {
            return 1;
        }
        if self.lo[ia] >= self.hi[ib] {
            return 0;
        }
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        let (na, nb) = (self.n[ia], self.n[ib]);
        if nb.op == O::Const {
            if nb.k == 1 {
                let z = self.c(w, 0);
                return self.eq(a, z);
            }
            if nb.k == self.hi[ia] {
                let e = self.eq(a, b);
                return self.not(e);
            }
            if na.op == O::ZExt {
                let wa = self.w(na.a);
                // k <= hi(a) <= mask(wa)
                let kk = self.c(wa, nb.k);
                return self.ult(na.a, kk);
            }
            if na.op == O::Concat {
                let wl = self.w(na.b);
                if nb.k & mask(wl) == 0 {
                    let kk = self.c(w - wl, nb.k >> wl);
                    return self.ult(na.a, kk);
                }
            }
        }
        if na.op == O::Const {
            if na.k == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if na.k + 1 == self.hi[ib] {
                let kk = self.c(w, na.k + 1);
                return self.eq(b, kk);
            }
            if nb.op == O::ZExt {
                let wb = self.w(nb.a);
                let kk = self.c(wb, na.k);
                return self.ult(kk, nb.a);
            }
        }
        if na.op == O::ZExt && nb.op == O::ZExt {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            let m = wa.max(wb);
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ult(x, y);
            }
        }
        self.mk(O::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.bool(sext128(x, w) < sext128(y, w));
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cv(a) == Some(mask(w)) {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == O::SExt && nb.op == O::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if na.op == O::SExt && nb.op == O::Const {
            let wa = self.w(na.a);
            if (sext128(nb.k & mask(wa), wa) as u128) & mask(w) == nb.k {
                let kk = self.c(wa, nb.k);
                return self.slt(na.a, kk);
            }
        }
        if nb.op == O::SExt && na.op == O::Const {
            let wb = self.w(nb.a);
            if (sext128(na.k & mask(wb), wb) as u128) & mask(w) == na.k {
                let kk = self.c(wb, na.k);
                return self.slt(kk, nb.a);
            }
        }
        self.mk(O::Slt, 1, a, b, 0, 0)
    }
}

/// A concrete assignment for all symbolic arrays (missing cells are 0).
#[derive(Default)]
pub struct Model {
    pub cells: FxMap<(u32, u64), u8>,
    pub memo: std::cell::RefCell<FxMap<E, u128>>,
}

impl Model {
    pub fn eval(&self, p: &Pool, e: E) -> u128 {
        let mut memo = self.memo.borrow_mut();
        Self::ev(&self.cells, &mut memo, p, e)
    }
    fn ev(cells: &FxMap<(u32, u64), u8>, memo: &mut FxMap<E, u128>, p: &Pool, e: E) -> u128 {
        let n = p.n[e as usize];
        if n.op == O::Const {
            return n.k;
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let m = mask(n.w);
        macro_rules! r {
            ($x:expr) => {
                Self::ev(cells, memo, p, $x)
            };
        }
        let v = match n.op {
            O::Const => n.k,
            O::Sel => {
                let i = r!(n.b) as u64;
                *cells.get(&(n.a, i)).unwrap_or(&0) as u128
            }
            O::Tbl => {
                let i = r!(n.b);
                let t = p.tables[n.a as usize].clone();
                let k = (i as usize).min(t.len() - 1);
                r!(t[k])
            }
            O::Add => r!(n.a).wrapping_add(r!(n.b)),
            O::Mul => r!(n.a).wrapping_mul(r!(n.b)),
            O::UDiv => {
                let (x, y) = (r!(n.a), r!(n.b));
                if y == 0 { m } else { x / y }
            }
            O::URem => {
                let (x, y) = (r!(n.a), r!(n.b));
                if y == 0 { x } else { x % y }
            }
            O::SDiv => {
                let (x, y) = (sext128(r!(n.a), n.w), sext128(r!(n.b), n.w));
                if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
            }
            O::SRem => {
                let (x, y) = (sext128(r!(n.a), n.w), sext128(r!(n.b), n.w));
                if y == 0 { x as u128 } else { x.wrapping_rem(y) as u128 }
            }
            O::And => r!(n.a) & r!(n.b),
            O::Or => r!(n.a) | r!(n.b),
            O::Xor => r!(n.a) ^ r!(n.b),
            O::Not => !r!(n.a),
            O::Shl => {
                let (x, y) = (r!(n.a), r!(n.b));
                if y >= n.w as u128 { 0 } else { x << y }
            }
            O::LShr => {
                let (x, y) = (r!(n.a), r!(n.b));
                if y >= n.w as u128 { 0 } else { x >> y }
            }
            O::AShr => {
                let (x, y) = (sext128(r!(n.a), n.w), r!(n.b));
                (x >> y.min(n.w as u128 - 1)) as u128
            }
            O::Eq => (r!(n.a) == r!(n.b)) as u128,
            O::Ult => (r!(n.a) < r!(n.b)) as u128,
            O::Slt => {
                let w = p.w(n.a);
                (sext128(r!(n.a), w) < sext128(r!(n.b), w)) as u128
            }
            O::Ite => {
                if r!(n.a) == 1 { r!(n.b) } else { r!(n.c) }
            }
            O::Concat => {
                let wl = p.w(n.b);
                r!(n.a) << wl | r!(n.b)
            }
            O::Extract => r!(n.a) >> n.k,
            O::ZExt => r!(n.a),
            O::SExt => sext128(r!(n.a), p.w(n.a)) as u128,
        } & m;
        memo.insert(e, v);
        v
    }
}
