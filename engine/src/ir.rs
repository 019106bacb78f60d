//! Parser for textual LLVM IR as produced by rustc (`--emit=llvm-ir`).
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
}

#[derive(Default)]
pub struct Types {
    pub list: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub size: Vec<u64>,
    pub align: Vec<u64>,
    pub named: HashMap<String, TyId>,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Types {
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let (s, a) = match &t {
            Ty::Void | Ty::Label | Ty::Meta => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { 16 };
                (b, a)
            }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Arr(n, e) => (n * self.alloc_size(*e), self.align[*e as usize]),
            Ty::Vec(n, e) => {
                let bits = match self.list[*e as usize] {
                    Ty::Int(w) => w as u64,
                    _ => self.size[*e as usize] * 8,
                };
                let b = (bits * *n as u64 + 7) / 8;
                (b, b.next_power_of_two())
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs {
                    let a = if *packed { 1 } else { self.align[*f as usize] };
                    off = align_up(off, a);
                    off += self.alloc_size(*f);
                    al = al.max(a);
                }
                (align_up(off, al), al)
            }
        };
        let id = self.list.len() as u32;
        self.list.push(t.clone());
        self.size.push(s);
        self.align.push(a);
        self.map.insert(t, id);
        id
    }
    /// Size including tail padding to alignment (array stride).
    pub fn alloc_size(&self, t: TyId) -> u64 {
        align_up(self.size[t as usize], self.align[t as usize])
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.list[t as usize]
    }
    pub fn struct_offset(&self, fs: &[TyId], packed: bool, idx: usize) -> u64 {
        let mut off = 0;
        for (i, f) in fs.iter().enumerate() {
            let a = if packed { 1 } else { self.align[*f as usize] };
            off = align_up(off, a);
            if i == idx {
                return off;
            }
            off += self.alloc_size(*f);
        }
        off
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.get(t) {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of non-scalar"),
        }
    }
}

/// A constant (fully evaluated).
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Agg(Vec<Cst>),
    Bytes(Vec<u8>),
    Zero,
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(u128),
    Agg(Box<Cst>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc, ZExt, SExt, PtrInt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function id
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Kind {
    Bin(BinOp, TyId, Op, Op),
    ICmp(Pred, TyId, Op, Op),
    Cast(CastOp, TyId, TyId, Op),
    BitCast(TyId, TyId, Op),
    Alloca(u64, Option<Op>, u64),
    Load(TyId, Op),
    Store(TyId, Op, Op),
    Gep(Op, i64, Vec<(Op, u32, i64)>),
    Select(TyId, Op, Op, Op, bool),
    Call { ret: TyId, callee: Callee, args: Vec<(TyId, Op)>, normal: Option<u32> },
    ExtractValue(Op, Vec<u32>),
    InsertValue(TyId, Op, Op, Vec<u32>),
    ExtractElement(TyId, Op, Op),
    InsertElement(TyId, Op, Op, Op),
    Shuffle(TyId, Op, Op, Vec<u32>),
    AtomicRmw(String, TyId, Op, Op),
    CmpXchg(TyId, Op, Op, Op),
    Nop,
    Freeze(Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub kind: Kind,
    pub dst: u32,
    pub dbg: u32,
    pub ty: TyId,
}
pub const NODST: u32 = u32::MAX;

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of header line start..end
    pub parsed: Option<std::rc::Rc<Func>>,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<(usize, usize)>,
    pub is_const: bool,
    pub addr: u64,
    pub size: u64,
    pub align: u64,
}

pub struct Module {
    pub text: String,
    pub types: Types,
    pub funcs: Vec<FuncDecl>,
    pub func_ids: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub global_ids: HashMap<String, u32>,
    pub dbg: HashMap<u32, (usize, usize)>,
}

pub const FUNC_BASE: u64 = 0x0000_1000_0000_0000;
pub const GLOBAL_BASE: u64 = 0x0000_2000_0000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),       // keyword / identifier
    Local(String),     // %x
    Global(String),    // @x
    Int(u128, bool),   // value, negative
    Float(&'a str),
    Str(Vec<u8>),      // "..." or c"..."
    Meta(&'a str),     // !123 or !name  (text after !)
    Attr,              // #12
    P(char),           // punctuation
    Dots,
    Nl,
    Eof,
}

pub struct Lexer<'a> {
    s: &'a [u8],
    src: &'a str,
    pub pos: usize,
    end: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lexer<'a> {
    pub fn new(src: &'a str, pos: usize, end: usize) -> Self {
        Lexer { s: src.as_bytes(), src, pos, end }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.pos += 1;
        let mut out = Vec::new();
        while self.s[self.pos] != b'"' {
            if self.s[self.pos] == b'\\' {
                if self.s[self.pos + 1] == b'\\' {
                    out.push(b'\\');
                    self.pos += 2;
                } else {
                    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                    out.push(h(self.s[self.pos + 1]) * 16 + h(self.s[self.pos + 2]));
                    self.pos += 3;
                }
            } else {
                out.push(self.s[self.pos]);
                self.pos += 1;
            }
        }
        self.pos += 1;
        out
    }
    fn name(&mut self) -> String {
        if self.s[self.pos] == b'"' {
            String::from_utf8(self.quoted()).unwrap()
        } else {
            let st = self.pos;
            while self.pos < self.end && is_id(self.s[self.pos]) {
                self.pos += 1;
            }
            self.src[st..self.pos].to_string()
        }
    }
    pub fn next(&mut self) -> Tok<'a> {
        loop {
            if self.pos >= self.end {
                return Tok::Eof;
            }
            let c = self.s[self.pos];
            match c {
                b' ' | b'\t' | b'\r' => self.pos += 1,
                b';' => {
                    while self.pos < self.end && self.s[self.pos] != b'\n' {
                        self.pos += 1;
                    }
                }
                b'\n' => {
                    self.pos += 1;
                    return Tok::Nl;
                }
                b'%' => {
                    self.pos += 1;
                    return Tok::Local(self.name());
                }
                b'@' => {
                    self.pos += 1;
                    return Tok::Global(self.name());
                }
                b'!' => {
                    self.pos += 1;
                    let st = self.pos;
                    while self.pos < self.end && is_id(self.s[self.pos]) {
                        self.pos += 1;
                    }
                    return Tok::Meta(&self.src[st..self.pos]);
                }
                b'#' => {
                    self.pos += 1;
                    while self.pos < self.end && self.s[self.pos].is_ascii_digit() {
                        self.pos += 1;
                    }
                    return Tok::Attr;
                }
                b'"' => return Tok::Str(self.quoted()),
                b'c' if self.s[self.pos + 1] == b'"' => {
                    self.pos += 1;
                    return Tok::Str(self.quoted());
                }
                b'.' if self.s[self.pos..].starts_with(b"...") => {
                    self.pos += 3;
                    return Tok::Dots;
                }
                b'-' | b'0'..=b'9' => {
                    let st = self.pos;
                    self.pos += 1;
                    while self.pos < self.end
                        && (self.s[self.pos].is_ascii_alphanumeric()
                            || self.s[self.pos] == b'.'
                            || (self.s[self.pos] == b'+' && self.s[self.pos - 1] == b'e')
                            || (self.s[self.pos] == b'-' && self.s[self.pos - 1] == b'e'))
                    {
                        self.pos += 1;
                    }
                    // label such as "12:" handled by the caller
                    let t = &self.src[st..self.pos];
                    if let Ok(v) = t.parse::<i128>() {
                        return Tok::Int(v as u128, v < 0);
                    }
                    if let Ok(v) = t.parse::<u128>() {
                        return Tok::Int(v, false);
                    }
                    return Tok::Float(t);
                }
                c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                    let st = self.pos;
                    while self.pos < self.end && is_id(self.s[self.pos]) {
                        self.pos += 1;
                    }
                    return Tok::Id(&self.src[st..self.pos]);
                }
                _ => {
                    self.pos += 1;
                    return Tok::P(c as char);
                }
            }
        }
    }
}

struct P<'a> {
    lx: Lexer<'a>,
    tok: Tok<'a>,
}

impl<'a> P<'a> {
    fn new(src: &'a str, pos: usize, end: usize) -> Self {
        let mut lx = Lexer::new(src, pos, end);
        let tok = lx.next();
        P { lx, tok }
    }
    fn adv(&mut self) -> Tok<'a> {
        let t = self.lx.next();
        std::mem::replace(&mut self.tok, t)
    }
    fn is_p(&self, c: char) -> bool {
        self.tok == Tok::P(c)
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(&self.tok, Tok::Id(x) if *x == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat_p(c) {
            let st = self.lx.pos.saturating_sub(120);
            let mut a = st;
            while !self.lx.src.is_char_boundary(a) {
                a += 1;
            }
            panic!("expected {:?}, got {:?} near ...{}", c, self.tok, &self.lx.src[a..self.lx.pos]);
        }
    }
    fn peek_char(&self) -> u8 {
        // next raw char after current token, skipping blanks
        let mut p = self.lx.pos;
        while p < self.lx.end && self.lx.s[p] == b' ' {
            p += 1;
        }
        if p < self.lx.end { self.lx.s[p] } else { 0 }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.adv() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
    fn skip_line(&mut self) {
        while self.tok != Tok::Nl && self.tok != Tok::Eof {
            self.adv();
        }
    }
    fn int(&mut self) -> u128 {
        match self.adv() {
            Tok::Int(v, _) => v,
            t => panic!("expected int got {:?}", t),
        }
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn label(&mut self, n: String) -> u32 {
        let l = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(l)
    }
}

const CONST_EXPR: &[&str] = &[
    "getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "sub", "add", "xor", "zext", "ptrtoaddr",
];
const VALUE_KW: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "none", "splat"];

impl Module {
    pub fn parse(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            types: Types::default(),
            funcs: vec![],
            func_ids: HashMap::new(),
            globals: vec![],
            global_ids: HashMap::new(),
            dbg: HashMap::new(),
        };
        m.text = text;
        let text: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(m.text.as_str()) };
        let b = text.as_bytes();
        let mut pos = 0;
        // First pass: find line starts of interest.
        let mut glines = vec![];
        let mut tlines = vec![];
        while pos < b.len() {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                // find end "\n}\n"
                let end = text[pos..].find("\n}\n").map(|x| pos + x + 2).unwrap();
                let name = Self::fn_name(line);
                m.add_func(name, Some((pos, end)));
                pos = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = Self::fn_name(line);
                m.add_func(name, None);
            } else if line.starts_with('@') {
                glines.push((pos, eol));
            } else if line.starts_with('%') {
                tlines.push((pos, eol));
            } else if line.starts_with('!') {
                let mut q = 1;
                let lb = line.as_bytes();
                while q < lb.len() && lb[q].is_ascii_digit() {
                    q += 1;
                }
                if q > 1 {
                    if let Ok(id) = line[1..q].parse::<u32>() {
                        if line[q..].starts_with(" = ") {
                            m.dbg.insert(id, (pos + q + 3, eol));
                        }
                    }
                }
            }
            pos = eol + 1;
        }
        for (s, e) in tlines {
            let mut p = P::new(text, s, e);
            let n = match p.adv() {
                Tok::Local(n) => n,
                _ => continue,
            };
            p.expect('=');
            if p.eat_id("type") {
                if p.is_id("opaque") {
                    continue;
                }
                let t = m.parse_ty(&mut p);
                m.types.named.insert(n, t);
            }
        }
        // Globals: names first.
        let mut inits = vec![];
        for (s, e) in glines {
            let mut p = P::new(text, s, e);
            let name = match p.adv() {
                Tok::Global(n) => n,
                _ => continue,
            };
            p.expect('=');
            let mut is_const = false;
            let mut ext = false;
            let mut alias = false;
            loop {
                match &p.tok {
                    Tok::Id("constant") => {
                        is_const = true;
                        p.adv();
                        break;
                    }
                    Tok::Id("global") => {
                        p.adv();
                        break;
                    }
                    Tok::Id("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::Id("external") | Tok::Id("extern_weak") => {
                        ext = true;
                        p.adv();
                    }
                    Tok::P('(') => p.skip_balanced(),
                    Tok::Eof => break,
                    _ => {
                        p.adv();
                    }
                }
            }
            if alias {
                continue;
            }
            let ty = m.parse_ty(&mut p);
            let start = p.lx.pos; // position after current token; need the token's start
            let _ = start;
            let id = m.globals.len() as u32;
            // alignment
            let line = &text[s..e];
            let al = line
                .rfind(", align ")
                .and_then(|i| line[i + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok()))
                .unwrap_or(m.types.align[ty as usize]);
            let size = m.types.alloc_size(ty);
            m.globals.push(Global { name: name.clone(), ty, init: if ext { None } else { Some((s, e)) }, is_const, addr: 0, size, align: al });
            m.global_ids.insert(name, id);
            inits.push(id);
        }
        let mut addr = GLOBAL_BASE;
        for g in m.globals.iter_mut() {
            addr = align_up(addr, g.align.max(16));
            g.addr = addr;
            addr += g.size + 32;
        }
        m
    }

    fn fn_name(line: &str) -> String {
        // the function name is the first '@' token
        let i = line.find('@').unwrap();
        let mut lx = Lexer::new(line, i, line.len());
        match lx.next() {
            Tok::Global(n) => n,
            _ => unreachable!(),
        }
    }
    fn add_func(&mut self, name: String, body: Option<(usize, usize)>) {
        if let Some(&i) = self.func_ids.get(&name) {
            if body.is_some() {
                self.funcs[i as usize].body = body;
            }
            return;
        }
        self.func_ids.insert(name.clone(), self.funcs.len() as u32);
        self.funcs.push(FuncDecl { name, body, parsed: None });
    }
    pub fn func_addr(id: u32) -> u64 {
        FUNC_BASE + id as u64 * 16
    }
    fn symbol_addr(&mut self, n: &str) -> u64 {
        if let Some(&g) = self.global_ids.get(n) {
            return self.globals[g as usize].addr;
        }
        if let Some(&f) = self.func_ids.get(n) {
            return Self::func_addr(f);
        }
        self.add_func(n.to_string(), None);
        Self::func_addr(self.func_ids[n])
    }

    fn parse_ty(&mut self, p: &mut P) -> TyId {
        let t = match p.adv() {
            Tok::Id("void") => self.types.intern(Ty::Void),
            Tok::Id("ptr") => {
                if p.is_id("addrspace") {
                    p.adv();
                    p.skip_balanced();
                }
                self.types.intern(Ty::Ptr)
            }
            Tok::Id("float") => self.types.intern(Ty::F32),
            Tok::Id("double") => self.types.intern(Ty::F64),
            Tok::Id("label") => self.types.intern(Ty::Label),
            Tok::Id("metadata") | Tok::Id("token") => self.types.intern(Ty::Meta),
            Tok::Id(s) if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => {
                let w = s[1..].parse().unwrap();
                self.types.intern(Ty::Int(w))
            }
            Tok::P('[') => {
                let n = p.int() as u64;
                p.adv(); // x
                let e = self.parse_ty(p);
                p.expect(']');
                self.types.intern(Ty::Arr(n, e))
            }
            Tok::P('{') => {
                let mut fs = vec![];
                while !p.is_p('}') {
                    fs.push(self.parse_ty(p));
                    p.eat_p(',');
                }
                p.expect('}');
                self.types.intern(Ty::Struct(fs, false))
            }
            Tok::P('<') => {
                if p.eat_p('{') {
                    let mut fs = vec![];
                    while !p.is_p('}') {
                        fs.push(self.parse_ty(p));
                        p.eat_p(',');
                    }
                    p.expect('}');
                    p.expect('>');
                    self.types.intern(Ty::Struct(fs, true))
                } else {
                    let n = p.int() as u32;
                    p.adv();
                    let e = self.parse_ty(p);
                    p.expect('>');
                    self.types.intern(Ty::Vec(n, e))
                }
            }
            Tok::Local(n) => *self.types.named.get(&n).unwrap_or_else(|| panic!("unknown type %{}", n)),
            t => panic!("type? {:?} near {}", t, &p.lx.src[p.lx.pos.saturating_sub(60)..p.lx.pos]),
        };
        // function type suffix e.g. "void (ptr, ...)": skip
        if p.is_p('(') && false {
            p.skip_balanced();
        }
        t
    }

    /// Parses a constant of the given type (current token is its first token).
    fn parse_cst(&mut self, p: &mut P, ty: TyId) -> Cst {
        match &p.tok {
            Tok::Int(v, _) => {
                let v = *v;
                p.adv();
                let w = match self.types.get(ty) {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                Cst::Int(v & mask(w))
            }
            Tok::Id("true") => {
                p.adv();
                Cst::Int(1)
            }
            Tok::Id("false") | Tok::Id("null") => {
                p.adv();
                Cst::Int(0)
            }
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") | Tok::Id("none") => {
                p.adv();
                match self.types.get(ty) {
                    Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Cst::Int(0),
                    _ => Cst::Zero,
                }
            }
            Tok::Float(s) => {
                let s = *s;
                p.adv();
                let bits = if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).unwrap_or(0)
                } else {
                    s.parse::<f64>().unwrap_or(0.0).to_bits()
                };
                Cst::Int(bits as u128)
            }
            Tok::Str(b) => {
                let b = b.clone();
                p.adv();
                Cst::Bytes(b)
            }
            Tok::Global(n) => {
                let n = n.clone();
                p.adv();
                Cst::Int(self.symbol_addr(&n) as u128)
            }
            Tok::Id("splat") => {
                p.adv();
                p.expect('(');
                let et = self.parse_ty(p);
                let c = self.parse_cst(p, et);
                p.expect(')');
                let n = match self.types.get(ty) {
                    Ty::Vec(n, _) => *n,
                    _ => panic!("splat"),
                };
                Cst::Agg(vec![c; n as usize])
            }
            Tok::Id(k) if CONST_EXPR.contains(k) => {
                let k = k.to_string();
                p.adv();
                while let Tok::Id(_) = p.tok {
                    if p.is_id("inrange") {
                        p.adv();
                        if p.is_p('(') {
                            p.skip_balanced();
                        }
                    } else {
                        p.adv();
                    }
                }
                p.expect('(');
                let r = match k.as_str() {
                    "getelementptr" => {
                        let et = self.parse_ty(p);
                        p.expect(',');
                        let pt = self.parse_ty(p);
                        let base = self.cst_int(p, pt);
                        let mut idx = vec![];
                        while p.eat_p(',') {
                            let it = self.parse_ty(p);
                            let w = self.types.bits(it);
                            let v = self.cst_int(p, it);
                            let sv = ((v << (128 - w)) as i128) >> (128 - w);
                            idx.push((Op::C(v), w, sv));
                        }
                        let (off, vars) = self.gep_offset(et, &idx);
                        assert!(vars.is_empty());
                        (base as u64).wrapping_add(off as u64) as u128
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                        let ft = self.parse_ty(p);
                        let v = self.cst_int(p, ft);
                        assert!(p.eat_id("to"));
                        let tt = self.parse_ty(p);
                        match self.types.get(tt) {
                            Ty::Int(w) => v & mask(*w),
                            _ => v,
                        }
                    }
                    "sub" | "add" | "xor" => {
                        let t1 = self.parse_ty(p);
                        let a = self.cst_int(p, t1);
                        p.expect(',');
                        let t2 = self.parse_ty(p);
                        let b = self.cst_int(p, t2);
                        let w = self.types.bits(t1);
                        (match k.as_str() {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        }) & mask(w)
                    }
                    _ => unreachable!(),
                };
                p.expect(')');
                Cst::Int(r)
            }
            Tok::P('[') | Tok::P('{') => {
                let close = if p.is_p('[') { ']' } else { '}' };
                p.adv();
                let mut v = vec![];
                while !p.is_p(close) {
                    let t = self.parse_ty(p);
                    v.push(self.parse_cst(p, t));
                    p.eat_p(',');
                }
                p.expect(close);
                Cst::Agg(v)
            }
            Tok::P('<') => {
                p.adv();
                let br = p.eat_p('{');
                let mut v = vec![];
                while !p.is_p('>') && !p.is_p('}') {
                    let t = self.parse_ty(p);
                    v.push(self.parse_cst(p, t));
                    p.eat_p(',');
                }
                if br {
                    p.expect('}');
                }
                p.expect('>');
                Cst::Agg(v)
            }
            Tok::Meta(_) => {
                p.adv();
                Cst::Int(0)
            }
            t => panic!("constant? {:?} near {}", t, &p.lx.src[p.lx.pos.saturating_sub(80)..p.lx.pos]),
        }
    }
    fn cst_int(&mut self, p: &mut P, ty: TyId) -> u128 {
        match self.parse_cst(p, ty) {
            Cst::Int(v) => v,
            Cst::Zero => 0,
            c => panic!("int constant expected {:?}", c),
        }
    }

    /// idx: (operand, width, constant value if known)
    fn gep_offset(&mut self, et: TyId, idx: &[(Op, u32, i128)]) -> (i64, Vec<(Op, u32, i64)>) {
        let mut off: i64 = 0;
        let mut vars = vec![];
        let mut cur = et;
        for (k, (op, w, sv)) in idx.iter().enumerate() {
            if k == 0 {
                let sz = self.types.alloc_size(cur) as i64;
                match op {
                    Op::C(_) => off = off.wrapping_add(sz.wrapping_mul(*sv as i64)),
                    _ => vars.push((op.clone(), *w, sz)),
                }
                continue;
            }
            match self.types.get(cur).clone() {
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    let sz = self.types.alloc_size(e) as i64;
                    match op {
                        Op::C(_) => off = off.wrapping_add(sz.wrapping_mul(*sv as i64)),
                        _ => vars.push((op.clone(), *w, sz)),
                    }
                    cur = e;
                }
                Ty::Struct(fs, packed) => {
                    let i = *sv as usize;
                    off += self.types.struct_offset(&fs, packed, i) as i64;
                    cur = fs[i];
                }
                t => panic!("gep into {:?}", t),
            }
        }
        (off, vars)
    }

    pub fn cst_bytes(&self, c: &Cst, ty: TyId, out: &mut Vec<u8>) {
        let start = out.len();
        let total = self.types.alloc_size(ty) as usize;
        match (c, self.types.get(ty)) {
            (Cst::Zero, _) => {}
            (Cst::Int(v), t) => {
                let n = match t {
                    Ty::Int(w) => ((*w + 7) / 8) as usize,
                    Ty::F32 => 4,
                    _ => 8,
                };
                for i in 0..n {
                    out.push((v >> (8 * i)) as u8);
                }
            }
            (Cst::Bytes(b), _) => out.extend_from_slice(b),
            (Cst::Agg(v), Ty::Arr(_, e)) | (Cst::Agg(v), Ty::Vec(_, e)) => {
                for x in v {
                    self.cst_bytes(x, *e, out);
                }
            }
            (Cst::Agg(v), Ty::Struct(fs, packed)) => {
                for (i, x) in v.iter().enumerate() {
                    let o = self.types.struct_offset(fs, *packed, i) as usize;
                    while out.len() < start + o {
                        out.push(0);
                    }
                    self.cst_bytes(x, fs[i], out);
                }
            }
            (c, t) => panic!("cst_bytes {:?} {:?}", c, t),
        }
        while out.len() < start + total {
            out.push(0);
        }
    }

    pub fn global_init(&mut self, id: u32) -> Option<Vec<u8>> {
        let (s, e) = self.globals[id as usize].init?;
        let text: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(self.text.as_str()) };
        let mut p = P::new(text, s, e);
        p.adv();
        p.expect('=');
        loop {
            if p.is_id("constant") || p.is_id("global") {
                p.adv();
                break;
            }
            if p.is_p('(') {
                p.skip_balanced();
            } else {
                p.adv();
            }
        }
        let ty = self.parse_ty(&mut p);
        let c = self.parse_cst(&mut p, ty);
        let mut out = vec![];
        self.cst_bytes(&c, ty, &mut out);
        Some(out)
    }

    pub fn get_func(&mut self, id: u32) -> Option<std::rc::Rc<Func>> {
        if let Some(f) = &self.funcs[id as usize].parsed {
            return Some(f.clone());
        }
        let (s, e) = self.funcs[id as usize].body?;
        let f = std::rc::Rc::new(self.parse_func(s, e));
        self.funcs[id as usize].parsed = Some(f.clone());
        Some(f)
    }

    /// Skips parameter/return attributes up to a value or a delimiter.
    fn skip_attrs(&mut self, p: &mut P) {
        loop {
            match &p.tok {
                Tok::Id(k) => {
                    if CONST_EXPR.contains(k) || VALUE_KW.contains(k) {
                        return;
                    }
                    let al = *k == "align";
                    p.adv();
                    if p.is_p('(') {
                        p.skip_balanced();
                    } else if al {
                        if let Tok::Int(..) = p.tok {
                            p.adv();
                        }
                    }
                }
                Tok::Str(_) => {
                    p.adv();
                    if p.eat_p('=') {
                        p.adv();
                    }
                }
                Tok::Attr => {
                    p.adv();
                }
                _ => return,
            }
        }
    }

    fn parse_op(&mut self, p: &mut P, cx: &mut FnCtx, ty: TyId) -> Op {
        if let Tok::Local(n) = &p.tok {
            let n = n.clone();
            p.adv();
            return Op::Reg(cx.reg(n));
        }
        match self.parse_cst(p, ty) {
            Cst::Int(v) => Op::C(v),
            c => Op::Agg(Box::new(c)),
        }
    }
    fn ty_op(&mut self, p: &mut P, cx: &mut FnCtx) -> (TyId, Op) {
        let t = self.parse_ty(p);
        self.skip_attrs(p);
        let o = self.parse_op(p, cx, t);
        (t, o)
    }

    fn parse_func(&mut self, s: usize, e: usize) -> Func {
        let text: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(self.text.as_str()) };
        let mut p = P::new(text, s, e);
        let name;
        loop {
            match p.adv() {
                Tok::Global(n) => {
                    name = n;
                    break;
                }
                _ => {}
            }
        }
        let mut cx = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        let mut params = vec![];
        p.expect('(');
        let mut anon = 0;
        while !p.is_p(')') {
            if p.tok == Tok::Dots {
                p.adv();
                continue;
            }
            let _t = self.parse_ty(&mut p);
            self.skip_attrs(&mut p);
            if let Tok::Local(n) = &p.tok {
                let n = n.clone();
                p.adv();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    anon += 1;
                }
                params.push(cx.reg(n));
            } else {
                params.push(cx.reg(format!("{}", anon)));
                anon += 1;
            }
            p.eat_p(',');
        }
        while !p.is_p('{') {
            p.adv();
        }
        p.adv();
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        loop {
            while p.tok == Tok::Nl {
                p.adv();
            }
            if p.is_p('}') || p.tok == Tok::Eof {
                break;
            }
            // label?
            let lab = match &p.tok {
                Tok::Id(s) if p.peek_char() == b':' => Some(s.to_string()),
                Tok::Int(v, false) if p.peek_char() == b':' => Some(v.to_string()),
                Tok::Str(s) if p.peek_char() == b':' => Some(String::from_utf8(s.clone()).unwrap()),
                _ => None,
            };
            if let Some(l) = lab {
                p.adv();
                p.expect(':');
                let id = cx.label(l);
                while blocks.len() <= id as usize {
                    blocks.push(Block::default());
                }
                if cur.is_none() {
                    assert_eq!(id, 0, "entry block");
                }
                cur = Some(id);
                continue;
            }
            if cur.is_none() {
                let id = cx.label(format!("{}", anon));
                blocks.push(Block::default());
                cur = Some(id);
            }
            let c = cur.unwrap() as usize;
            self.parse_inst(&mut p, &mut cx, &mut blocks, c);
        }
        assert!(blocks.len() == cx.labels.len() && blocks.iter().all(|b| !b.insts.is_empty()), "undefined block in {}", name);
        Func { name, params, nregs: cx.regs.len() as u32, blocks }
    }

    fn label_ref(&mut self, p: &mut P, cx: &mut FnCtx) -> u32 {
        assert!(p.eat_id("label"), "label expected, got {:?}", p.tok);
        match p.adv() {
            Tok::Local(n) => cx.label(n),
            t => panic!("label {:?}", t),
        }
    }

    fn parse_inst(&mut self, p: &mut P, cx: &mut FnCtx, blocks: &mut Vec<Block>, cur: usize) {
        let mut dst = NODST;
        if let Tok::Local(n) = &p.tok {
            let n = n.clone();
            p.adv();
            p.expect('=');
            dst = cx.reg(n);
        }
        let opc = match p.adv() {
            Tok::Id(s) => s,
            t => panic!("opcode? {:?} near {}", t, &p.lx.src[p.lx.pos.saturating_sub(80)..p.lx.pos]),
        };
        let void = self.types.intern(Ty::Void);
        let i1 = self.types.intern(Ty::Int(1));
        let ptr = self.types.intern(Ty::Ptr);
        let mut rty = void;
        let bin = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor,
                "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
                _ => return None,
            })
        };
        let mut opc = opc;
        while matches!(opc, "tail" | "musttail" | "notail") {
            opc = match p.adv() {
                Tok::Id(s) => s,
                _ => panic!(),
            };
        }
        let kind = if let Some(b) = bin(opc) {
            while let Tok::Id("nuw" | "nsw" | "exact" | "disjoint") = p.tok {
                p.adv();
            }
            let t = self.parse_ty(p);
            let a = self.parse_op(p, cx, t);
            p.expect(',');
            let c = self.parse_op(p, cx, t);
            rty = t;
            Kind::Bin(b, t, a, c)
        } else {
            match opc {
                "icmp" => {
                    p.eat_id("samesign");
                    let pr = match p.adv() {
                        Tok::Id("eq") => Pred::Eq, Tok::Id("ne") => Pred::Ne,
                        Tok::Id("ult") => Pred::Ult, Tok::Id("ule") => Pred::Ule, Tok::Id("ugt") => Pred::Ugt, Tok::Id("uge") => Pred::Uge,
                        Tok::Id("slt") => Pred::Slt, Tok::Id("sle") => Pred::Sle, Tok::Id("sgt") => Pred::Sgt, Tok::Id("sge") => Pred::Sge,
                        t => panic!("pred {:?}", t),
                    };
                    let t = self.parse_ty(p);
                    let a = self.parse_op(p, cx, t);
                    p.expect(',');
                    let b = self.parse_op(p, cx, t);
                    rty = match self.types.get(t).clone() {
                        Ty::Vec(n, _) => self.types.intern(Ty::Vec(n, i1)),
                        _ => i1,
                    };
                    Kind::ICmp(pr, t, a, b)
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    while let Tok::Id("nuw" | "nsw" | "nneg") = p.tok {
                        p.adv();
                    }
                    let (ft, a) = self.ty_op(p, cx);
                    assert!(p.eat_id("to"));
                    let tt = self.parse_ty(p);
                    rty = tt;
                    let c = match opc {
                        "trunc" => CastOp::Trunc,
                        "zext" => CastOp::ZExt,
                        "sext" => CastOp::SExt,
                        _ => CastOp::PtrInt,
                    };
                    Kind::Cast(c, ft, tt, a)
                }
                "bitcast" => {
                    let (ft, a) = self.ty_op(p, cx);
                    assert!(p.eat_id("to"));
                    let tt = self.parse_ty(p);
                    rty = tt;
                    Kind::BitCast(ft, tt, a)
                }
                "alloca" => {
                    p.eat_id("inalloca");
                    let t = self.parse_ty(p);
                    rty = ptr;
                    let sz = self.types.alloc_size(t);
                    let mut cnt = None;
                    let mut al = self.types.align[t as usize];
                    while p.eat_p(',') {
                        if p.eat_id("align") {
                            al = p.int() as u64;
                        } else if let Tok::Meta(_) = p.tok {
                            break;
                        } else {
                            let (_, o) = self.ty_op(p, cx);
                            cnt = Some(o);
                        }
                    }
                    Kind::Alloca(sz, cnt, al)
                }
                "load" => {
                    p.eat_id("atomic");
                    p.eat_id("volatile");
                    let t = self.parse_ty(p);
                    p.expect(',');
                    let (_, a) = self.ty_op(p, cx);
                    rty = t;
                    Kind::Load(t, a)
                }
                "store" => {
                    p.eat_id("atomic");
                    p.eat_id("volatile");
                    let (t, v) = self.ty_op(p, cx);
                    p.expect(',');
                    let (_, a) = self.ty_op(p, cx);
                    Kind::Store(t, v, a)
                }
                "getelementptr" => {
                    while let Tok::Id("inbounds" | "nuw" | "nusw" | "nsw") = p.tok {
                        p.adv();
                    }
                    let et = self.parse_ty(p);
                    p.expect(',');
                    let (_, base) = self.ty_op(p, cx);
                    let mut idx = vec![];
                    while p.is_p(',') {
                        // stop at metadata
                        if p.peek_char() == b'!' {
                            break;
                        }
                        p.adv();
                        let it = self.parse_ty(p);
                        let o = self.parse_op(p, cx, it);
                        if !matches!(self.types.get(it), Ty::Int(_)) {
                            panic!("vector gep");
                        }
                        let w = self.types.bits(it);
                        let sv = match &o {
                            Op::C(v) => ((*v << (128 - w)) as i128) >> (128 - w),
                            _ => 0,
                        };
                        idx.push((o, w, sv));
                    }
                    let (off, vars) = self.gep_offset(et, &idx);
                    rty = ptr;
                    Kind::Gep(base, off, vars)
                }
                "select" => {
                    let (ct, c) = self.ty_op(p, cx);
                    p.expect(',');
                    let (t, a) = self.ty_op(p, cx);
                    p.expect(',');
                    let (_, b) = self.ty_op(p, cx);
                    rty = t;
                    let v = matches!(self.types.get(ct), Ty::Vec(..));
                    Kind::Select(t, c, a, b, v)
                }
                "call" | "invoke" => {
                    // flags / calling convention / ret attrs, then the return type
                    loop {
                        match &p.tok {
                            Tok::Id(k) => {
                                let is_ty = matches!(*k, "void" | "ptr" | "float" | "double" | "metadata" | "token")
                                    || (k.starts_with('i') && k[1..].parse::<u32>().is_ok());
                                if is_ty {
                                    break;
                                }
                                let al = *k == "align";
                                p.adv();
                                if p.is_p('(') {
                                    p.skip_balanced();
                                } else if al {
                                    if let Tok::Int(..) = p.tok {
                                        p.adv();
                                    }
                                }
                            }
                            _ => break,
                        }
                    }
                    let rt = self.parse_ty(p);
                    rty = rt;
                    if p.is_p('(') {
                        p.skip_balanced(); // function type
                    }
                    let callee = match p.adv() {
                        Tok::Global(n) => {
                            self.symbol_addr(&n);
                            if let Some(&f) = self.func_ids.get(&n) { Some(Callee::Direct(f)) } else { None }
                        }
                        Tok::Local(n) => Some(Callee::Indirect(Op::Reg(cx.reg(n)))),
                        _ => None,
                    };
                    let callee = match callee {
                        Some(c) => c,
                        None => {
                            p.skip_line();
                            blocks[cur].insts.push(Inst { kind: Kind::Unsupported("call target (asm?)".into()), dst, dbg: 0, ty: void });
                            return;
                        }
                    };
                    p.expect('(');
                    let mut args = vec![];
                    while !p.is_p(')') {
                        let t = self.parse_ty(p);
                        self.skip_attrs(p);
                        if matches!(self.types.get(t), Ty::Meta) {
                            // skip metadata operand
                            let mut d = 0;
                            loop {
                                match &p.tok {
                                    Tok::P('(') | Tok::P('{') => d += 1,
                                    Tok::P(')') if d == 0 => break,
                                    Tok::P(')') | Tok::P('}') => d -= 1,
                                    Tok::P(',') if d == 0 => break,
                                    _ => {}
                                }
                                p.adv();
                            }
                            args.push((t, Op::C(0)));
                        } else {
                            let o = self.parse_op(p, cx, t);
                            args.push((t, o));
                        }
                        p.eat_p(',');
                    }
                    p.expect(')');
                    let mut normal = None;
                    // attributes and operand bundles
                    loop {
                        match &p.tok {
                            Tok::Attr | Tok::Str(_) => {
                                p.adv();
                            }
                            Tok::P('[') => {
                                while !p.eat_p(']') {
                                    p.adv();
                                }
                            }
                            Tok::Nl if opc == "invoke" && normal.is_none() => {
                                p.adv();
                            }
                            Tok::Id("to") => {
                                p.adv();
                                normal = Some(self.label_ref(p, cx));
                                assert!(p.eat_id("unwind"));
                                self.label_ref(p, cx);
                            }
                            Tok::Id(_) => {
                                p.adv();
                                if p.is_p('(') {
                                    p.skip_balanced();
                                }
                            }
                            _ => break,
                        }
                    }
                    Kind::Call { ret: rt, callee, args, normal }
                }
                "extractvalue" => {
                    let (_, a) = self.ty_op(p, cx);
                    let mut ix = vec![];
                    while p.is_p(',') && p.peek_char() != b'!' {
                        p.adv();
                        ix.push(p.int() as u32);
                    }
                    Kind::ExtractValue(a, ix)
                }
                "insertvalue" => {
                    let (t, a) = self.ty_op(p, cx);
                    p.expect(',');
                    let (_, b) = self.ty_op(p, cx);
                    let mut ix = vec![];
                    while p.is_p(',') && p.peek_char() != b'!' {
                        p.adv();
                        ix.push(p.int() as u32);
                    }
                    rty = t;
                    Kind::InsertValue(t, a, b, ix)
                }
                "extractelement" => {
                    let (t, a) = self.ty_op(p, cx);
                    p.expect(',');
                    let (_, i) = self.ty_op(p, cx);
                    Kind::ExtractElement(t, a, i)
                }
                "insertelement" => {
                    let (t, a) = self.ty_op(p, cx);
                    p.expect(',');
                    let (_, b) = self.ty_op(p, cx);
                    p.expect(',');
                    let (_, i) = self.ty_op(p, cx);
                    Kind::InsertElement(t, a, b, i)
                }
                "shufflevector" => {
                    let (t, a) = self.ty_op(p, cx);
                    p.expect(',');
                    let (_, b) = self.ty_op(p, cx);
                    p.expect(',');
                    let (mt, mk) = self.ty_op(p, cx);
                    let n = match self.types.get(mt) {
                        Ty::Vec(n, _) => *n,
                        _ => panic!(),
                    };
                    let mask = match mk {
                        Op::Agg(c) => match *c {
                            Cst::Agg(v) => v.iter().map(|x| if let Cst::Int(i) = x { *i as u32 } else { 0 }).collect(),
                            _ => vec![0; n as usize],
                        },
                        _ => vec![0; n as usize],
                    };
                    Kind::Shuffle(t, a, b, mask)
                }
                "atomicrmw" => {
                    p.eat_id("volatile");
                    let op = match p.adv() {
                        Tok::Id(s) => s.to_string(),
                        _ => panic!(),
                    };
                    let (_, a) = self.ty_op(p, cx);
                    p.expect(',');
                    let (t, v) = self.ty_op(p, cx);
                    rty = t;
                    Kind::AtomicRmw(op, t, a, v)
                }
                "cmpxchg" => {
                    p.eat_id("weak");
                    p.eat_id("volatile");
                    let (_, a) = self.ty_op(p, cx);
                    p.expect(',');
                    let (t, c) = self.ty_op(p, cx);
                    p.expect(',');
                    let (_, n) = self.ty_op(p, cx);
                    rty = self.types.intern(Ty::Struct(vec![t, i1], false));
                    Kind::CmpXchg(t, a, c, n)
                }
                "fence" => Kind::Nop,
                "freeze" => {
                    let (t, a) = self.ty_op(p, cx);
                    rty = t;
                    Kind::Freeze(a)
                }
                "landingpad" => {
                    // multi-line: consume clauses
                    p.skip_line();
                    loop {
                        // look ahead: lines starting with clause keywords
                        let save = (p.lx.pos, p.tok.clone());
                        while p.tok == Tok::Nl {
                            p.adv();
                        }
                        if p.is_id("cleanup") || p.is_id("catch") || p.is_id("filter") {
                            p.skip_line();
                        } else {
                            p.lx.pos = save.0;
                            p.tok = save.1;
                            break;
                        }
                    }
                    Kind::Unsupported("landingpad".into())
                }
                "resume" => {
                    p.skip_line();
                    Kind::Unsupported("resume".into())
                }
                "br" => {
                    if p.is_id("label") {
                        let l = self.label_ref(p, cx);
                        Kind::Br(l)
                    } else {
                        let (_, c) = self.ty_op(p, cx);
                        p.expect(',');
                        let a = self.label_ref(p, cx);
                        p.expect(',');
                        let b = self.label_ref(p, cx);
                        Kind::CondBr(c, a, b)
                    }
                }
                "switch" => {
                    let (t, v) = self.ty_op(p, cx);
                    p.expect(',');
                    let d = self.label_ref(p, cx);
                    p.expect('[');
                    let mut cs = vec![];
                    loop {
                        while p.tok == Tok::Nl {
                            p.adv();
                        }
                        if p.eat_p(']') {
                            break;
                        }
                        let (_, c) = self.ty_op(p, cx);
                        p.expect(',');
                        let l = self.label_ref(p, cx);
                        match c {
                            Op::C(x) => cs.push((x, l)),
                            _ => panic!(),
                        }
                    }
                    let w = self.types.bits(t);
                    Kind::Switch(v, w, d, cs)
                }
                "ret" => {
                    if p.is_id("void") {
                        p.adv();
                        Kind::Ret(None)
                    } else {
                        let (_, v) = self.ty_op(p, cx);
                        Kind::Ret(Some(v))
                    }
                }
                "unreachable" => Kind::Unreachable,
                "phi" => {
                    let t = self.parse_ty(p);
                    let mut inc = vec![];
                    while p.eat_p('[') {
                        let o = self.parse_op(p, cx, t);
                        p.expect(',');
                        let l = match p.adv() {
                            Tok::Local(n) => cx.label(n),
                            t => panic!("phi {:?}", t),
                        };
                        p.expect(']');
                        inc.push((l, o));
                        if p.is_p(',') && p.peek_char() == b'!' {
                            break;
                        }
                        p.eat_p(',');
                    }
                    p.skip_line();
                    blocks[cur].phis.push((dst, inc));
                    return;
                }
                other => {
                    let k = Kind::Unsupported(other.to_string());
                    p.skip_line();
                    k
                }
            }
        };
        // trailing: find !dbg
        let mut dbg = 0;
        while p.tok != Tok::Nl && p.tok != Tok::Eof {
            if let Tok::Meta("dbg") = p.tok {
                p.adv();
                if let Tok::Meta(n) = p.tok {
                    dbg = n.parse().unwrap_or(0);
                }
            } else {
                p.adv();
            }
        }
        blocks[cur].insts.push(Inst { kind, dst, dbg, ty: rty });
    }
}
