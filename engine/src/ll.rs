//! Parser for the textual LLVM IR that rustc emits.
//! Function bodies are parsed lazily (first call).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    /// bytes a load or store of this type touches
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                align_up(b, self.align())
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * align_up(t.size(), t.align()),
            Ty::Vec(n, t) => {
                let bits = n * t.bits();
                ((bits + 7) / 8).next_power_of_two()
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !*packed {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 1,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Float(w) => *w as u64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("width of non-scalar {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(f, _) => &f[i],
            _ => panic!("elem of scalar"),
        }
    }
    pub fn elem_off(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) => i * align_up(t.size(), t.align()),
            Ty::Vec(_, t) => i * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("elem_off")
            }
            _ => panic!("elem_off of scalar"),
        }
    }
}

/// A constant (already resolved to numbers / nested aggregates).
#[derive(Clone, Debug, PartialEq)]
pub enum Const {
    Int(u128),
    Agg(Rc<Vec<Const>>),
    Undef,
    Zero,
    Bytes(Rc<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(Const),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    FAdd, FSub, FMul, FDiv,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, UiToFp, SiToFp, FpToUi, FpToSi, FpConv, Other,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: Ty, a: Opd, b: Opd },
    Icmp { pred: Pred, ty: Ty, a: Opd, b: Opd },
    Fcmp { pred: String, ty: Ty, a: Opd, b: Opd },
    Fneg { ty: Ty, a: Opd },
    Cast { op: CastOp, from: Ty, to: Ty, a: Opd },
    Select { cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd },
    Load { ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { size: u64, align: u64, count: Opd },
    Gep { base: Opd, off: u64, terms: Vec<(Opd, u64, u32)>, },
    Call { callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty, next: Option<u32> },
    ExtractVal { a: Opd, idx: Vec<u32> },
    InsertVal { ty: Ty, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElt { a: Opd, i: Opd },
    InsertElt { ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { ty: Ty, a: Opd, b: Opd, mask: Vec<Option<u32>> },
    Freeze { a: Opd },
    CmpXchg { ty: Ty, p: Opd, cmp: Opd, new: Opd },
    AtomicRmw { op: String, ty: Ty, p: Opd, v: Opd },
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { ty: Ty, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct I {
    pub dst: u32, // u32::MAX if none
    pub dbg: u32, // metadata id, 0 if none
    pub inst: Inst,
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opd)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub ret: Ty,
}

pub struct FuncDecl {
    pub name: String,
    pub demangled: String,
    pub defined: bool,
    pub weak: bool,
    pub header: (usize, usize),
    pub body: (usize, usize),
    pub parsed: Option<Rc<Func>>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub ty: Ty,
    pub is_const: bool,
    pub align: u64,
    init: (usize, usize), // text slice of initializer
    pub has_init: bool,
}

pub struct Module {
    pub text: Rc<String>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub named: HashMap<String, Ty>,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GL_BASE: u64 = 0x4000_0000;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Id(&'a str),
    Local(String),
    Global(String),
    Num(&'a str),
    CStr(Vec<u8>),
    Str(&'a str),
    P(char),
    Meta(&'a str),
    Attr(&'a str),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}

fn unescape(raw: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(raw.len());
    let mut i = 0;
    while i < raw.len() {
        if raw[i] == b'\\' {
            if raw[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&raw[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(raw[i]);
            i += 1;
        }
    }
    o
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        Lex { s, b: s.as_bytes(), i: 0 }
    }
    fn name(&mut self) -> String {
        if self.i < self.b.len() && self.b[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.b[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            return String::from_utf8_lossy(&unescape(&self.b[st..j])).into_owned();
        }
        let st = self.i;
        while self.i < self.b.len() && is_name(self.b[self.i]) {
            self.i += 1;
        }
        self.s[st..self.i].to_string()
    }
    fn next(&mut self) -> Tok<'a> {
        loop {
            if self.i >= self.b.len() {
                return Tok::Eof;
            }
            let c = self.b[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < self.b.len() && self.b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let c = self.b[self.i];
        match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.name())
            }
            b'#' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                Tok::Attr(&self.s[st..self.i])
            }
            b'!' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() && is_name(self.b[self.i]) {
                    self.i += 1;
                }
                Tok::Meta(&self.s[st..self.i])
            }
            b'"' => {
                let st = self.i + 1;
                let mut j = st;
                while self.b[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                Tok::Str(&self.s[st..j])
            }
            b'c' if self.i + 1 < self.b.len() && self.b[self.i + 1] == b'"' => {
                let st = self.i + 2;
                let mut j = st;
                while self.b[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                Tok::CStr(unescape(&self.b[st..j]))
            }
            b'0'..=b'9' | b'-' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len()
                    && (self.b[self.i].is_ascii_alphanumeric() || self.b[self.i] == b'.' || self.b[self.i] == b'+'
                        || (self.b[self.i] == b'-' ))
                {
                    self.i += 1;
                }
                Tok::Num(&self.s[st..self.i])
            }
            b'.' if self.s[self.i..].starts_with("...") => {
                self.i += 3;
                Tok::Dots
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = self.i;
                while self.i < self.b.len() && is_name(self.b[self.i]) {
                    self.i += 1;
                }
                Tok::Id(&self.s[st..self.i])
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    fn peek(&mut self) -> Tok<'a> {
        let i = self.i;
        let t = self.next();
        self.i = i;
        t
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("parse: expected {:?} got {:?} in `{}`", c, t, &self.s[..self.s.len().min(300)]);
        }
    }
    fn eat_id(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Id(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect_id(&mut self, w: &str) {
        if !self.eat_id(w) {
            panic!("parse: expected {} in `{}` at {}", w, &self.s[..self.s.len().min(300)], self.i);
        }
    }
    /// skip a balanced paren group if present
    fn skip_parens(&mut self) {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    Tok::Eof => panic!("parse: unbalanced"),
                    _ => {}
                }
            }
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            Tok::Id(w) => is_type_word(w),
            Tok::P('{') | Tok::P('<') | Tok::P('[') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    /// Skip parameter / return / function attributes
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Id(w) if !is_type_word(w) && !is_const_word(w) => {
                    let w = w.to_string();
                    self.next();
                    if w == "align" || w == "alignstack" || w == "addrspace" {
                        if let Tok::Num(_) = self.peek() {
                            self.next();
                        } else {
                            self.skip_parens();
                        }
                    } else if w == "cc" {
                        self.next();
                    } else {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.next();
                    if self.eat('=') {
                        self.next();
                    }
                }
                Tok::Attr(_) => {
                    self.next();
                }
                _ => return,
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    match w {
        "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" => true,
        _ => w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()),
    }
}

fn is_const_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint"
            | "ptrtoaddr" | "inttoptr" | "trunc" | "bitcast" | "sub" | "add" | "splat" | "none" | "asm"
            | "dso_local_equivalent" | "no_cfi" | "xor" | "zext" | "sext" | "mul" | "shl"
    )
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn parse_num(s: &str) -> u128 {
    if let Some(h) = s.strip_prefix("0x") {
        let h = h.trim_start_matches(|c: char| c == 'H' || c == 'K' || c == 'L' || c == 'M');
        return u128::from_str_radix(h, 16).unwrap_or(0);
    }
    if s.contains('.') || s.contains('e') {
        let f: f64 = s.parse().unwrap_or(0.0);
        return f.to_bits() as u128;
    }
    if let Some(n) = s.strip_prefix('-') {
        let v: u128 = n.parse().expect("num");
        return v.wrapping_neg();
    }
    s.parse().unwrap_or_else(|_| panic!("parse num {}", s))
}

impl Module {
    fn ty(&self, l: &mut Lex) -> Ty {
        let t = match l.next() {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => {
                if l.eat_id("addrspace") {
                    l.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Id("float") => Ty::Float(32),
            Tok::Id("double") => Ty::Float(64),
            Tok::Id("half") => Ty::Float(16),
            Tok::Id("label") => Ty::Label,
            Tok::Id("metadata") | Tok::Id("token") => Ty::Meta,
            Tok::Id(w) if is_type_word(w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
            Tok::P('[') => {
                let n = match l.next() {
                    Tok::Num(n) => n.parse::<u64>().unwrap(),
                    t => panic!("arr len {:?}", t),
                };
                l.expect_id("x");
                let e = self.ty(l);
                l.expect(']');
                Ty::Arr(n, Rc::new(e))
            }
            Tok::P('<') => {
                if l.eat('{') {
                    let f = self.ty_list(l);
                    l.expect('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match l.next() {
                        Tok::Num(n) => n.parse::<u64>().unwrap(),
                        t => panic!("vec len {:?}", t),
                    };
                    l.expect_id("x");
                    let e = self.ty(l);
                    l.expect('>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            Tok::P('{') => Ty::Struct(Rc::new(self.ty_list(l)), false),
            Tok::Local(n) => self.named.get(&n).unwrap_or_else(|| panic!("named type {}", n)).clone(),
            t => panic!("type expected, got {:?} in `{}`", t, &l.s[..l.s.len().min(300)]),
        };
        t
    }
    fn ty_list(&self, l: &mut Lex) -> Vec<Ty> {
        let mut v = vec![];
        if l.eat('}') {
            return v;
        }
        loop {
            v.push(self.ty(l));
            if !l.eat(',') {
                break;
            }
        }
        l.expect('}');
        v
    }

    pub fn global_addr(&self, n: &str) -> u64 {
        if let Some(g) = self.gidx.get(n) {
            return self.globals[*g as usize].addr;
        }
        if let Some(f) = self.fidx.get(n) {
            let d = &self.funcs[*f as usize];
            if d.weak && !d.defined && n != "getrandom" {
                return 0;
            }
            return FN_BASE + 16 * (*f as u64);
        }
        if let Some(a) = self.aliases.get(n) {
            return self.global_addr(a);
        }
        panic!("unknown global @{}", n)
    }

    fn konst(&self, l: &mut Lex, ty: &Ty) -> Const {
        match l.next() {
            Tok::Num(n) => Const::Int(match ty {
                Ty::Float(32) => {
                    let bits = parse_num(n) as u64;
                    (f64::from_bits(bits) as f32).to_bits() as u128
                }
                Ty::Float(_) => parse_num(n),
                _ => parse_num(n) & mask(ty.width()),
            }),
            Tok::Id(w) if w.starts_with("f0x") => {
                Const::Int(u128::from_str_radix(&w[3..], 16).unwrap_or(0))
            }
            Tok::Id("true") => Const::Int(1),
            Tok::Id("false") => Const::Int(0),
            Tok::Id("null") => Const::Int(0),
            Tok::Id("undef") | Tok::Id("poison") => Const::Undef,
            Tok::Id("none") => Const::Undef,
            Tok::Id("zeroinitializer") => Const::Zero,
            Tok::CStr(b) => Const::Bytes(Rc::new(b)),
            Tok::Global(n) => Const::Int(self.global_addr(&n) as u128),
            Tok::Id("splat") => {
                l.expect('(');
                let et = self.ty(l);
                let c = self.konst(l, &et);
                l.expect(')');
                Const::Agg(Rc::new(vec![c; ty.nelem()]))
            }
            Tok::P('[') => self.konst_list(l, ']'),
            Tok::P('{') => self.konst_list(l, '}'),
            Tok::P('<') => {
                if l.eat('{') {
                    let c = self.konst_list(l, '}');
                    l.expect('>');
                    c
                } else {
                    self.konst_list(l, '>')
                }
            }
            Tok::Id("getelementptr") => {
                while let Tok::Id(w) = l.peek() {
                    let w = w.to_string();
                    l.next();
                    if w == "inrange" {
                        l.skip_parens();
                    }
                }
                l.expect('(');
                let ety = self.ty(l);
                l.expect(',');
                let bty = self.ty(l);
                let base = self.kint(l, &bty);
                let mut off: u64 = 0;
                let mut cur = ety.clone();
                let mut first = true;
                while l.eat(',') {
                    let ity = self.ty(l);
                    let w = ity.width();
                    let v = self.kint(l, &ity);
                    let v = sext(v, w) as i64 as u64;
                    if first {
                        off = off.wrapping_add(v.wrapping_mul(align_up(ety.size(), ety.align())));
                        first = false;
                    } else {
                        off = off.wrapping_add(cur.elem_off(v));
                        cur = cur.elem(v as usize).clone();
                    }
                }
                l.expect(')');
                Const::Int((base as u64).wrapping_add(off) as u128)
            }
            Tok::Id(op @ ("ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "bitcast" | "zext" | "sext")) => {
                l.skip_flags();
                l.expect('(');
                let f = self.ty(l);
                let v = self.kint(l, &f);
                l.expect_id("to");
                let t = self.ty(l);
                l.expect(')');
                let v = if op == "sext" { sext(v, f.width()) as u128 } else { v };
                Const::Int(v & mask(t.width()))
            }
            Tok::Id(op @ ("sub" | "add" | "xor" | "mul" | "shl")) => {
                l.skip_flags();
                l.expect('(');
                let t1 = self.ty(l);
                let a = self.kint(l, &t1);
                l.expect(',');
                let t2 = self.ty(l);
                let b = self.kint(l, &t2);
                l.expect(')');
                let r = match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "mul" => a.wrapping_mul(b),
                    "shl" => a << b,
                    _ => a ^ b,
                };
                Const::Int(r & mask(t1.width()))
            }
            Tok::Id("dso_local_equivalent") | Tok::Id("no_cfi") => self.konst(l, ty),
            t => panic!("const expected, got {:?} in `{}`", t, &l.s[..l.s.len().min(400)]),
        }
    }
    fn konst_list(&self, l: &mut Lex, end: char) -> Const {
        let mut v = vec![];
        if l.eat(end) {
            return Const::Agg(Rc::new(v));
        }
        loop {
            let t = self.ty(l);
            v.push(self.konst(l, &t));
            if !l.eat(',') {
                break;
            }
        }
        l.expect(end);
        Const::Agg(Rc::new(v))
    }
    fn kint(&self, l: &mut Lex, ty: &Ty) -> u128 {
        match self.konst(l, ty) {
            Const::Int(v) => v,
            Const::Zero | Const::Undef => 0,
            c => panic!("int const expected {:?}", c),
        }
    }

    pub fn parse(text: String) -> Module {
        let text = Rc::new(text);
        let mut m = Module {
            text: text.clone(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            aliases: HashMap::new(),
            meta: HashMap::new(),
            named: HashMap::new(),
        };
        let t: &str = &text;
        let b = t.as_bytes();
        let mut pos = 0;
        let mut glines = vec![];
        let mut last_comment = String::new();
        let n = b.len();
        while pos < n {
            let eol = t[pos..].find('\n').map(|x| pos + x).unwrap_or(n);
            let line = &t[pos..eol];
            match b[pos] {
                b'@' => glines.push((pos, eol)),
                b'%' => {
                    // named type
                    let mut l = Lex::new(line);
                    if let Tok::Local(nm) = l.next() {
                        l.expect('=');
                        l.expect_id("type");
                        if l.peek() != Tok::Id("opaque") {
                            let ty = m.ty(&mut l);
                            m.named.insert(nm, ty);
                        }
                    }
                }
                b';' => {
                    if !line.starts_with("; Function Attrs") {
                        last_comment = line[1..].trim().to_string();
                    }
                }
                b'd' if line.starts_with("define") || line.starts_with("declare") => {
                    let defined = line.starts_with("define");
                    let at = line.find('@').unwrap();
                    let mut l = Lex::new(&line[at..]);
                    let name = match l.next() {
                        Tok::Global(n) => n,
                        t => panic!("fn name {:?}", t),
                    };
                    let weak = line[..at].contains("extern_weak");
                    let mut body = (0, 0);
                    let mut e = eol;
                    if defined {
                        let end = t[eol..].find("\n}").map(|x| eol + x).unwrap();
                        body = (eol + 1, end + 1);
                        e = end + 2;
                    }
                    let id = m.funcs.len() as u32;
                    m.fidx.insert(name.clone(), id);
                    let dem = if last_comment.is_empty() { name.clone() } else { last_comment.clone() };
                    last_comment.clear();
                    m.funcs.push(FuncDecl { name, demangled: dem, defined, weak, header: (pos, eol), body, parsed: None });
                    pos = e;
                    while pos < n && b[pos] != b'\n' {
                        pos += 1;
                    }
                    pos += 1;
                    continue;
                }
                b'!' => {
                    // !123 = ...
                    if let Some(sp) = line.find(' ') {
                        if let Ok(id) = line[1..sp].parse::<u32>() {
                            m.meta.insert(id, (pos, eol));
                        }
                    }
                }
                b'\n' => {}
                _ => {}
            }
            if b[pos] != b';' {
                if b[pos] != b'\n' {
                    last_comment.clear();
                }
            }
            pos = eol + 1;
        }
        // globals: assign addresses in a first pass (types), then initializers later
        let mut addr = GL_BASE;
        for (s, e) in glines {
            let line = &t[s..e];
            let mut l = Lex::new(line);
            let name = match l.next() {
                Tok::Global(n) => n,
                _ => panic!(),
            };
            l.expect('=');
            let mut external = false;
            let mut is_const = false;
            let mut alias = false;
            loop {
                match l.next() {
                    Tok::Id("constant") => {
                        is_const = true;
                        break;
                    }
                    Tok::Id("global") => break,
                    Tok::Id("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::Id("external") | Tok::Id("extern_weak") | Tok::Id("available_externally") => external = true,
                    Tok::Id(_) => l.skip_parens(),
                    Tok::P('(') => {
                        while l.next() != Tok::P(')') {}
                    }
                    Tok::Str(_) => {}
                    t => panic!("global linkage {:?} in {}", t, line),
                }
            }
            let ty = m.ty(&mut l);
            if alias {
                l.expect(',');
                let _ = m.ty(&mut l);
                if let Tok::Global(n) = l.next() {
                    m.aliases.insert(name, n);
                }
                continue;
            }
            let init = (s + l.i, e);
            // alignment
            let mut align = ty.align();
            if let Some(p) = line.rfind(", align ") {
                let r: String = line[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(a) = r.parse::<u64>() {
                    align = align.max(a);
                }
            }
            let align = align.max(8);
            addr = align_up(addr, align);
            let id = m.globals.len() as u32;
            m.gidx.insert(name.clone(), id);
            let sz = ty.size();
            m.globals.push(Global { name, addr, ty, is_const, align, init, has_init: !external });
            addr += sz.max(1) + 64;
        }
        m
    }

    pub fn global_init(&self, i: usize) -> Const {
        let g = &self.globals[i];
        if !g.has_init {
            return Const::Zero;
        }
        let s = &self.text[g.init.0..g.init.1];
        let mut l = Lex::new(s);
        self.konst(&mut l, &g.ty)
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize].parsed {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(id));
        self.funcs[id as usize].parsed = Some(f.clone());
        f
    }

    fn parse_func(&self, id: u32) -> Func {
        let d = &self.funcs[id as usize];
        let text = self.text.clone();
        let head = &text[d.header.0..d.header.1];
        let body = &text[d.body.0..d.body.1];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut blocks: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        // header
        let mut l = Lex::new(head);
        l.expect_id("define");
        l.skip_attrs();
        let ret = self.ty(&mut l);
        match l.next() {
            Tok::Global(_) => {}
            t => panic!("define {:?}", t),
        }
        l.expect('(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !l.eat(')') {
            loop {
                if l.peek() == Tok::Dots {
                    l.next();
                } else {
                    let _t = self.ty(&mut l);
                    l.skip_attrs();
                    let nm = if let Tok::Local(n) = l.peek() {
                        l.next();
                        if let Ok(k) = n.parse::<u32>() {
                            unnamed = unnamed.max(k + 1);
                        }
                        n
                    } else {
                        let n = unnamed.to_string();
                        unnamed += 1;
                        n
                    };
                    regs.insert(nm, nregs);
                    params.push(nregs);
                    nregs += 1;
                }
                if !l.eat(',') {
                    break;
                }
            }
            l.expect(')');
        }
        // gather logical lines
        let mut lines: Vec<(bool, String)> = vec![]; // (is_label, text)
        for raw in body.lines() {
            if raw.is_empty() {
                continue;
            }
            let bb = raw.as_bytes();
            if bb[0] == b';' {
                continue;
            }
            if bb[0] != b' ' {
                // label
                let (nm, _) = if bb[0] == b'"' {
                    let e = raw[1..].find('"').unwrap() + 1;
                    (raw[1..e].to_string(), ())
                } else {
                    let e = raw.find(':').unwrap();
                    (raw[..e].to_string(), ())
                };
                lines.push((true, nm));
                continue;
            }
            let tr = raw.trim_start();
            if tr.starts_with(';') || tr.starts_with("#dbg_") {
                continue;
            }
            let indent = raw.len() - tr.len();
            if indent > 2 || tr.starts_with(']') {
                let last = lines.last_mut().unwrap();
                last.1.push(' ');
                last.1.push_str(tr);
                continue;
            }
            lines.push((false, tr.to_string()));
        }
        // implicit entry label
        if lines.is_empty() || !lines[0].0 {
            lines.insert(0, (true, unnamed.to_string()));
        }
        let mut nb = 0;
        for (lab, s) in &lines {
            if *lab {
                blocks.insert(s.clone(), nb);
                nb += 1;
            } else if s.starts_with('%') {
                let mut l = Lex::new(s);
                if let Tok::Local(n) = l.next() {
                    regs.insert(n, nregs);
                    nregs += 1;
                }
            }
        }
        let mut out: Vec<Block> = vec![];
        let cx = FnCx { m: self, regs: &regs, blocks: &blocks };
        for (lab, s) in &lines {
            if *lab {
                out.push(Block::default());
                continue;
            }
            let blk = out.last_mut().unwrap();
            cx.inst(s, blk);
        }
        Func { blocks: out, nregs, params, ret }
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

impl<'a> Lex<'a> {
    fn skip_flags(&mut self) {
        loop {
            match self.peek() {
                Tok::Id("nuw" | "nsw" | "exact" | "inbounds" | "nneg" | "disjoint" | "samesign" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") => {
                    self.next();
                }
                Tok::Id("inrange") => {
                    self.next();
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
}

struct FnCx<'m> {
    m: &'m Module,
    regs: &'m HashMap<String, u32>,
    blocks: &'m HashMap<String, u32>,
}

impl<'m> FnCx<'m> {
    fn opd(&self, l: &mut Lex, ty: &Ty) -> Opd {
        if let Tok::Local(n) = l.peek() {
            l.next();
            return Opd::Reg(*self.regs.get(&n).unwrap_or_else(|| panic!("reg %{}", n)));
        }
        if let Tok::Meta(_) = l.peek() {
            l.next();
            l.skip_parens();
            if l.peek() == Tok::P('{') {
                let mut d = 0;
                loop {
                    match l.next() {
                        Tok::P('{') => d += 1,
                        Tok::P('}') => {
                            d -= 1;
                            if d == 0 {
                                break;
                            }
                        }
                        Tok::Eof => break,
                        _ => {}
                    }
                }
            }
            return Opd::K(Const::Undef);
        }
        Opd::K(self.m.konst(l, ty))
    }
    fn tyopd(&self, l: &mut Lex) -> (Ty, Opd) {
        let t = self.m.ty(l);
        if t == Ty::Meta {
            // metadata operand: may be `metadata ptr %x` etc.
            if l.is_type_start() {
                let (_, _) = self.tyopd(l);
                return (t, Opd::K(Const::Undef));
            }
        }
        l.skip_attrs();
        let o = self.opd(l, &t);
        (t, o)
    }
    fn label(&self, l: &mut Lex) -> u32 {
        l.expect_id("label");
        match l.next() {
            Tok::Local(n) => *self.blocks.get(&n).unwrap_or_else(|| panic!("label {}", n)),
            t => panic!("label {:?}", t),
        }
    }
    fn dbg(&self, s: &str) -> u32 {
        if let Some(p) = s.rfind("!dbg !") {
            let r = &s[p + 6..];
            let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
            return r[..e].parse().unwrap_or(0);
        }
        0
    }
    fn inst(&self, s: &str, blk: &mut Block) {
        let mut l = Lex::new(s);
        let mut dst = u32::MAX;
        if let Tok::Local(n) = l.peek() {
            l.next();
            l.expect('=');
            dst = self.regs[&n];
        }
        let dbg = self.dbg(s);
        let mut op = match l.next() {
            Tok::Id(w) => w.to_string(),
            t => panic!("opcode {:?} in {}", t, s),
        };
        if op == "tail" || op == "musttail" || op == "notail" {
            op = match l.next() {
                Tok::Id(w) => w.to_string(),
                t => panic!("opcode {:?}", t),
            };
        }
        let inst = match op.as_str() {
            "phi" => {
                l.skip_flags();
                let ty = self.m.ty(&mut l);
                let mut inc = vec![];
                loop {
                    l.expect('[');
                    let v = self.opd(&mut l, &ty);
                    l.expect(',');
                    let b = match l.next() {
                        Tok::Local(n) => self.blocks[&n],
                        t => panic!("phi {:?}", t),
                    };
                    l.expect(']');
                    inc.push((b, v));
                    if !l.eat(',') {
                        break;
                    }
                    if let Tok::Meta(_) = l.peek() {
                        break;
                    }
                }
                blk.phis.push(Phi { dst, ty, inc });
                return;
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr"
            | "fadd" | "fsub" | "fmul" | "fdiv" => {
                l.skip_flags();
                let ty = self.m.ty(&mut l);
                let a = self.opd(&mut l, &ty);
                l.expect(',');
                let b = self.opd(&mut l, &ty);
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    _ => BinOp::FDiv,
                };
                Inst::Bin { op: o, ty, a, b }
            }
            "icmp" => {
                l.skip_flags();
                let p = match l.next() {
                    Tok::Id(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("pred {}", w),
                    },
                    t => panic!("pred {:?}", t),
                };
                let ty = self.m.ty(&mut l);
                let a = self.opd(&mut l, &ty);
                l.expect(',');
                let b = self.opd(&mut l, &ty);
                Inst::Icmp { pred: p, ty, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast"
            | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" => {
                l.skip_flags();
                let from = self.m.ty(&mut l);
                let a = self.opd(&mut l, &from);
                l.expect_id("to");
                let to = self.m.ty(&mut l);
                let o = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "bitcast" => CastOp::BitCast,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "fptrunc" | "fpext" => CastOp::FpConv,
                    _ => CastOp::Other,
                };
                Inst::Cast { op: o, from, to, a }
            }
            "fcmp" => {
                l.skip_flags();
                let pred = match l.next() {
                    Tok::Id(w) => w.to_string(),
                    t => panic!("fcmp {:?}", t),
                };
                let ty = self.m.ty(&mut l);
                let a = self.opd(&mut l, &ty);
                l.expect(',');
                let b = self.opd(&mut l, &ty);
                Inst::Fcmp { pred, ty, a, b }
            }
            "fneg" => {
                l.skip_flags();
                let ty = self.m.ty(&mut l);
                let a = self.opd(&mut l, &ty);
                Inst::Fneg { ty, a }
            }
            "select" => {
                l.skip_flags();
                let (cty, c) = self.tyopd(&mut l);
                l.expect(',');
                let (ty, a) = self.tyopd(&mut l);
                l.expect(',');
                let (_, b) = self.tyopd(&mut l);
                Inst::Select { cty, ty, c, a, b }
            }
            "load" => {
                l.eat_id("atomic");
                l.eat_id("volatile");
                let ty = self.m.ty(&mut l);
                l.expect(',');
                let (_, p) = self.tyopd(&mut l);
                Inst::Load { ty, p }
            }
            "store" => {
                l.eat_id("atomic");
                l.eat_id("volatile");
                let (ty, v) = self.tyopd(&mut l);
                l.expect(',');
                let (_, p) = self.tyopd(&mut l);
                Inst::Store { ty, v, p }
            }
            "alloca" => {
                l.eat_id("inalloca");
                let ty = self.m.ty(&mut l);
                let mut count = Opd::K(Const::Int(1));
                let mut align = ty.align();
                while l.eat(',') {
                    if l.eat_id("align") {
                        if let Tok::Num(n) = l.next() {
                            align = align.max(n.parse().unwrap());
                        }
                    } else if let Tok::Meta(_) = l.peek() {
                        break;
                    } else {
                        count = self.tyopd(&mut l).1;
                    }
                }
                Inst::Alloca { size: ty.size(), align, count }
            }
            "getelementptr" => {
                l.skip_flags();
                let ety = self.m.ty(&mut l);
                l.expect(',');
                let (bt, base) = self.tyopd(&mut l);
                if bt != Ty::Ptr {
                    Inst::Unsupported("vector gep".into())
                } else {
                    let mut off = 0u64;
                    let mut terms = vec![];
                    let mut cur = ety.clone();
                    let mut first = true;
                    while l.eat(',') {
                        if let Tok::Meta(_) = l.peek() {
                            break;
                        }
                        let (it, o) = self.tyopd(&mut l);
                        let w = it.width();
                        if first {
                            first = false;
                            let sc = align_up(ety.size(), ety.align());
                            match o {
                                Opd::K(Const::Int(v)) => off = off.wrapping_add((sext(v, w) as i64 as u64).wrapping_mul(sc)),
                                Opd::K(_) => {}
                                o => terms.push((o, sc, w)),
                            }
                            continue;
                        }
                        match (&cur.clone(), o) {
                            (Ty::Struct(..), Opd::K(Const::Int(v))) => {
                                off = off.wrapping_add(cur.elem_off(v as u64));
                                cur = cur.elem(v as usize).clone();
                            }
                            (Ty::Struct(..), Opd::K(_)) => {
                                off = off.wrapping_add(cur.elem_off(0));
                                cur = cur.elem(0).clone();
                            }
                            (_, o) => {
                                let e = cur.elem(0).clone();
                                let sc = align_up(e.size(), e.align());
                                match o {
                                    Opd::K(Const::Int(v)) => off = off.wrapping_add((sext(v, w) as i64 as u64).wrapping_mul(sc)),
                                    Opd::K(_) => {}
                                    o => terms.push((o, sc, w)),
                                }
                                cur = e;
                            }
                        }
                    }
                    Inst::Gep { base, off, terms }
                }
            }
            "call" | "invoke" => {
                l.skip_flags();
                l.skip_attrs();
                let ret = self.m.ty(&mut l);
                if l.peek() == Tok::P('(') {
                    l.skip_parens(); // function type
                }
                let mut unsupported = None;
                let callee = match l.peek() {
                    Tok::Global(n) => {
                        l.next();
                        let n = self.m.aliases.get(&n).cloned().unwrap_or(n);
                        Callee::Direct(*self.m.fidx.get(&n).unwrap_or_else(|| panic!("callee @{}", n)))
                    }
                    Tok::Local(_) => Callee::Indirect(self.opd(&mut l, &Ty::Ptr)),
                    Tok::Id("asm") => {
                        // asm [flags] "..", ".." (args): treat as no-op when it returns void
                        l.next();
                        let mut strs = vec![];
                        loop {
                            match l.peek() {
                                Tok::Id(_) => {
                                    l.next();
                                }
                                Tok::Str(x) => {
                                    strs.push(x.to_string());
                                    l.next();
                                }
                                Tok::P(',') => {
                                    l.next();
                                }
                                _ => break,
                            }
                        }
                        if !(strs.first().map(|x| x.is_empty()).unwrap_or(false) && ret == Ty::Void) {
                            unsupported = Some(format!("inline asm {:?}", strs));
                        }
                        Callee::Indirect(Opd::K(Const::Int(0)))
                    }
                    _ => Callee::Indirect(self.opd(&mut l, &Ty::Ptr)),
                };
                let is_asm = s.contains(" asm ");
                l.expect('(');
                let mut args = vec![];
                if !l.eat(')') {
                    loop {
                        args.push(self.tyopd(&mut l));
                        if !l.eat(',') {
                            break;
                        }
                    }
                    l.expect(')');
                }
                let mut next = None;
                if op == "invoke" {
                    while l.peek() != Tok::Id("to") {
                        if l.next() == Tok::Eof {
                            panic!("invoke: {}", s);
                        }
                    }
                    l.next();
                    next = Some(self.label(&mut l));
                }
                if let Some(u) = unsupported {
                    Inst::Unsupported(u)
                } else if is_asm && matches!(callee, Callee::Indirect(Opd::K(_))) {
                    Inst::Nop
                } else {
                    Inst::Call { callee, args, ret, next }
                }
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(&mut l);
                let mut idx = vec![];
                while l.eat(',') {
                    match l.next() {
                        Tok::Num(n) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::ExtractVal { a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tyopd(&mut l);
                l.expect(',');
                let (_, v) = self.tyopd(&mut l);
                let mut idx = vec![];
                while l.eat(',') {
                    match l.next() {
                        Tok::Num(n) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::InsertVal { ty, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(&mut l);
                l.expect(',');
                let (_, i) = self.tyopd(&mut l);
                Inst::ExtractElt { a, i }
            }
            "insertelement" => {
                let (ty, a) = self.tyopd(&mut l);
                l.expect(',');
                let (_, v) = self.tyopd(&mut l);
                l.expect(',');
                let (_, i) = self.tyopd(&mut l);
                Inst::InsertElt { ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.tyopd(&mut l);
                l.expect(',');
                let (_, b) = self.tyopd(&mut l);
                l.expect(',');
                let (mt, mo) = self.tyopd(&mut l);
                let n = mt.nelem();
                let mask = match mo {
                    Opd::K(Const::Zero) => vec![Some(0); n],
                    Opd::K(Const::Undef) => vec![None; n],
                    Opd::K(Const::Agg(v)) => v
                        .iter()
                        .map(|c| match c {
                            Const::Int(x) => Some(*x as u32),
                            _ => None,
                        })
                        .collect(),
                    o => panic!("shuffle mask {:?}", o),
                };
                Inst::Shuffle { ty, a, b, mask }
            }
            "freeze" => {
                let (_, a) = self.tyopd(&mut l);
                Inst::Freeze { a }
            }
            "cmpxchg" => {
                l.eat_id("weak");
                l.eat_id("volatile");
                let (_, p) = self.tyopd(&mut l);
                l.expect(',');
                let (ty, cmp) = self.tyopd(&mut l);
                l.expect(',');
                let (_, new) = self.tyopd(&mut l);
                Inst::CmpXchg { ty, p, cmp, new }
            }
            "atomicrmw" => {
                l.eat_id("volatile");
                let o = match l.next() {
                    Tok::Id(w) => w.to_string(),
                    t => panic!("rmw {:?}", t),
                };
                let (_, p) = self.tyopd(&mut l);
                l.expect(',');
                let (ty, v) = self.tyopd(&mut l);
                Inst::AtomicRmw { op: o, ty, p, v }
            }
            "fence" => Inst::Nop,
            "br" => {
                if l.peek() == Tok::Id("label") {
                    Inst::Br(self.label(&mut l))
                } else {
                    let (_, c) = self.tyopd(&mut l);
                    l.expect(',');
                    let a = self.label(&mut l);
                    l.expect(',');
                    let b = self.label(&mut l);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.tyopd(&mut l);
                l.expect(',');
                let def = self.label(&mut l);
                l.expect('[');
                let mut cases = vec![];
                while !l.eat(']') {
                    let t = self.m.ty(&mut l);
                    let k = self.m.kint(&mut l, &t);
                    l.expect(',');
                    let b = self.label(&mut l);
                    cases.push((k, b));
                }
                Inst::Switch { ty, v, def, cases }
            }
            "ret" => {
                let t = self.m.ty(&mut l);
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.opd(&mut l, &t);
                    Inst::Ret(Some((t, o)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" => Inst::Unsupported("landingpad".into()),
            "resume" => Inst::Unsupported("resume".into()),
            "cleanupret" | "catchpad" => Inst::Unsupported(op.clone()),
            _ => Inst::Unsupported(s.to_string()),
        };
        blk.insts.push(I { dst, dbg, inst });
    }
}
