//! Hash-consed bit-vector expression DAG with simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
/// tree size above which an expression over a single octet is tabulated
const TABULATE: u16 = 48;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var, Const, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite, ZExt, SExt, Extract, Concat, Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub imm: u128, // Const value, Var index, Extract low bit, Tab id
}

/// scalar: concrete or symbolic
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sc {
    C(u128),
    S(E),
}
use Sc::*;

pub type Set = [u64; 4];
pub const FULL: Set = [u64::MAX; 4];
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn set_has(a: &Set, v: u8) -> bool {
    a[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn set_first(a: &Set) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i as u32 * 64 + a[i].trailing_zeros()) as u8;
        }
    }
    panic!("empty set")
}
pub fn set_count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, FxB>,
    pub sup: Vec<u32>,
    /// tree size, saturating
    size: Vec<u16>,
    pub sups: Vec<Rc<Vec<u16>>>,
    supmap: HashMap<Rc<Vec<u16>>, u32>,
    supunion: HashMap<(u32, u32), u32, FxB>,
    collapsed: HashMap<E, Sc, FxB>,
    asgmap: HashMap<Vec<(u16, u8)>, u32>,
    submemo: HashMap<(E, u32), Sc, FxB>,
    tabs_cache: HashMap<E, Rc<Vec<u128>>, FxB>,
    sets_cache: HashMap<E, Set, FxB>,
    pub tables: Vec<Rc<Vec<u128>>>,
    tablemap: HashMap<Rc<Vec<u128>>, u32>,
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    stamp: u32,
}

#[derive(Default, Clone, Copy)]
pub struct FxB;
pub struct FxH(u64);
impl std::hash::BuildHasher for FxB {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl FxH {
    #[inline]
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.add(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.add(i as u64);
        self.add((i >> 64) as u64)
    }
}

pub fn eval_op(op: Op, w: u32, aw: u32, bw: u32, imm: u128, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Ite => if a == 1 { b } else { c },
        Op::ZExt => a,
        Op::SExt => (sx(a, aw) as u128) & m,
        Op::Extract => (a >> imm) & m,
        Op::Concat => (a << bw) | b,
        Op::Var | Op::Const | Op::Tab => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let empty: Rc<Vec<u16>> = Rc::new(vec![]);
        let mut sm = HashMap::new();
        sm.insert(empty.clone(), 0);
        let mut c = Ctx {
            nodes: vec![],
            map: HashMap::with_hasher(FxB),
            sup: vec![],
            size: vec![],
            sups: vec![empty],
            supmap: sm,
            supunion: HashMap::with_hasher(FxB),
            collapsed: HashMap::with_hasher(FxB),
            asgmap: HashMap::new(),
            submemo: HashMap::with_hasher(FxB),
            tabs_cache: HashMap::with_hasher(FxB),
            sets_cache: HashMap::with_hasher(FxB),
            tables: vec![],
            tablemap: HashMap::new(),
            ev_stamp: vec![],
            ev_val: vec![],
            stamp: 0,
        };
        c.konst(1, 0);
        c.konst(1, 1);
        c
    }
    fn sup_of(&mut self, v: Vec<u16>) -> u32 {
        let r = Rc::new(v);
        if let Some(i) = self.supmap.get(&r) {
            return *i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(r.clone());
        self.supmap.insert(r, i);
        i
    }
    fn sup_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(r) = self.supunion.get(&k) {
            return *r;
        }
        let mut v: Vec<u16> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).cloned().collect();
        v.sort();
        v.dedup();
        let r = self.sup_of(v);
        self.supunion.insert(k, r);
        r
    }
    fn raw(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        let s = match n.op {
            Op::Const => 0,
            Op::Var => self.sup_of(vec![n.imm as u16]),
            Op::ZExt | Op::SExt | Op::Extract | Op::Tab => self.sup[n.a as usize],
            Op::Ite => {
                let x = self.sup_union(self.sup[n.a as usize], self.sup[n.b as usize]);
                self.sup_union(x, self.sup[n.c as usize])
            }
            _ => self.sup_union(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        let z = match n.op {
            Op::Const => 0,
            Op::Var | Op::Tab => 1,
            Op::ZExt | Op::SExt | Op::Extract => 1 + self.size[n.a as usize],
            Op::Ite => (1 + self.size[n.a as usize]).saturating_add(self.size[n.b as usize]).saturating_add(self.size[n.c as usize]),
            _ => (1 + self.size[n.a as usize]).saturating_add(self.size[n.b as usize]),
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.size.push(z.min(u16::MAX - 1));
        self.ev_stamp.push(0);
        self.ev_val.push(0);
        self.map.insert(n, e);
        e
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, imm: v & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> E {
        self.raw(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, imm: i as u128 })
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn e(&mut self, s: Sc, w: u32) -> E {
        match s {
            C(v) => self.konst(w, v),
            S(e) => {
                debug_assert_eq!(self.w(e), w);
                e
            }
        }
    }
    pub fn sc(&self, e: E) -> Sc {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            C(n.imm)
        } else {
            S(e)
        }
    }
    pub fn supp(&self, e: E) -> Rc<Vec<u16>> {
        self.sups[self.sup[e as usize] as usize].clone()
    }
    pub fn one(&self, e: E) -> Option<u16> {
        let s = &self.sups[self.sup[e as usize] as usize];
        if s.len() == 1 {
            Some(s[0])
        } else {
            None
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, imm: u128) -> Sc {
        let e = self.raw(Node { op, w, a, b, c, imm });
        // a large expression over one octet becomes a table of 256 values
        if self.size[e as usize] > TABULATE {
            if let Some(v) = self.one(e) {
                if let Some(r) = self.collapsed.get(&e) {
                    return *r;
                }
                let t = self.table1(e);
                // what turns out constant is left for the solver to find
                let r = if t.iter().all(|x| *x == t[0]) { S(e) } else { self.tab(v, w, t.to_vec()) };
                self.collapsed.insert(e, r);
                return r;
            }
        }
        self.sc(e)
    }

    pub fn tab(&mut self, var: u16, w: u32, t: Vec<u128>) -> Sc {
        if t.iter().all(|x| *x == t[0]) {
            return C(t[0]);
        }
        let r = Rc::new(t);
        let id = if let Some(i) = self.tablemap.get(&r) {
            *i
        } else {
            let i = self.tables.len() as u32;
            self.tables.push(r.clone());
            self.tablemap.insert(r, i);
            i
        };
        let v = self.var(var as usize);
        self.mk(Op::Tab, w, v, 0, 0, id as u128)
    }

    /// `e` with some variables replaced by values
    pub fn subst(&mut self, e: E, asg: &[(u16, u8)]) -> Sc {
        let id = match self.asgmap.get(asg) {
            Some(i) => *i,
            None => {
                let i = self.asgmap.len() as u32;
                self.asgmap.insert(asg.to_vec(), i);
                i
            }
        };
        self.sub(e, asg, id)
    }
    fn sub(&mut self, e: E, asg: &[(u16, u8)], id: u32) -> Sc {
        let sup = &self.sups[self.sup[e as usize] as usize];
        if !sup.iter().any(|v| asg.iter().any(|a| a.0 == *v)) {
            return self.sc(e);
        }
        if let Some(r) = self.submemo.get(&(e, id)) {
            return *r;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Const => C(n.imm),
            Op::Var => C(asg.iter().find(|a| a.0 as u128 == n.imm).unwrap().1 as u128),
            Op::Tab => match self.sub(n.a, asg, id) {
                C(v) => C(self.tables[n.imm as usize][v as usize]),
                s => s,
            },
            Op::ZExt | Op::SExt | Op::Extract => {
                let aw = self.w(n.a);
                let a = self.sub(n.a, asg, id);
                match n.op {
                    Op::ZExt => self.zext(a, aw, n.w),
                    Op::SExt => self.sext(a, aw, n.w),
                    _ => self.extract(a, aw, n.imm as u32, n.w),
                }
            }
            Op::Ite => match self.sub(n.a, asg, id) {
                C(1) => self.sub(n.b, asg, id),
                C(_) => self.sub(n.c, asg, id),
                c => {
                    let a = self.sub(n.b, asg, id);
                    let b = self.sub(n.c, asg, id);
                    self.ite(c, a, b, n.w)
                }
            },
            _ => {
                let (aw, bw) = (self.w(n.a), self.w(n.b));
                let a = self.sub(n.a, asg, id);
                let b = self.sub(n.b, asg, id);
                match n.op {
                    Op::Eq => self.eq(aw, a, b),
                    Op::Ult => self.ult(aw, a, b),
                    Op::Slt => self.slt(aw, a, b),
                    Op::Concat => self.concat(a, aw, b, bw),
                    _ => self.bin(n.op, n.w, a, b),
                }
            }
        };
        self.submemo.insert((e, id), r);
        r
    }

    // ---------- constructors ----------
    pub fn extract(&mut self, x: Sc, xw: u32, lo: u32, w: u32) -> Sc {
        if lo == 0 && w == xw {
            return x;
        }
        let e = match x {
            C(v) => return C((v >> lo) & mask(w)),
            S(e) => e,
        };
        let n = self.n(e);
        match n.op {
            Op::Extract => return self.extract(S(n.a), self.w(n.a), lo + n.imm as u32, w),
            Op::Concat => {
                let bw = self.w(n.b);
                let (a, b) = (self.sc(n.a), self.sc(n.b));
                if lo >= bw {
                    return self.extract(a, n.w - bw, lo - bw, w);
                }
                if lo + w <= bw {
                    return self.extract(b, bw, lo, w);
                }
                let hi = self.extract(a, n.w - bw, 0, lo + w - bw);
                let l = self.extract(b, bw, lo, bw - lo);
                return self.concat(hi, lo + w - bw, l, bw - lo);
            }
            Op::ZExt => {
                let aw = self.w(n.a);
                if lo >= aw {
                    return C(0);
                }
                if lo + w <= aw {
                    return self.extract(S(n.a), aw, lo, w);
                }
                let p = self.extract(S(n.a), aw, lo, aw - lo);
                return self.zext(p, aw - lo, w);
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    return self.extract(S(n.a), aw, lo, w);
                }
                if lo == 0 {
                    return self.sext(S(n.a), aw, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let (a, b) = (self.sc(n.a), self.sc(n.b));
                let x = self.extract(a, xw, lo, w);
                let y = self.extract(b, xw, lo, w);
                return self.bin(n.op, w, x, y);
            }
            Op::Ite => {
                let (a, b) = (self.sc(n.b), self.sc(n.c));
                let x = self.extract(a, xw, lo, w);
                let y = self.extract(b, xw, lo, w);
                return self.ite(S(n.a), x, y, w);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let (a, b) = (self.sc(n.a), self.sc(n.b));
                let x = self.extract(a, xw, lo, w);
                let y = self.extract(b, xw, lo, w);
                return self.bin(n.op, w, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, e, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, a: Sc, aw: u32, b: Sc, bw: u32) -> Sc {
        match (a, b) {
            (C(x), C(y)) => return C((x << bw) | y),
            (C(0), S(_)) => return self.zext(b, bw, aw + bw),
            (S(x), S(y)) => {
                let (nx, ny) = (self.n(x), self.n(y));
                // adjacent extracts
                if nx.op == Op::Extract && ny.op == Op::Extract && nx.a == ny.a && nx.imm == ny.imm + bw as u128 {
                    let w0 = self.w(nx.a);
                    return self.extract(S(nx.a), w0, ny.imm as u32, aw + bw);
                }
                // concat(zext..): keep right-nested: ((p.q).y) -> (p.(q.y))
                if nx.op == Op::Concat {
                    let qw = self.w(nx.b);
                    let q = self.sc(nx.b);
                    let p = self.sc(nx.a);
                    let r = self.concat(q, qw, b, bw);
                    return self.concat(p, aw - qw, r, qw + bw);
                }
                if ny.op == Op::Concat {
                    // x . (p . q): try to merge x with p
                    let pn = self.n(ny.a);
                    let pw = pn.w;
                    if nx.op == Op::Extract && pn.op == Op::Extract && nx.a == pn.a && nx.imm == pn.imm + pw as u128 {
                        let w0 = self.w(nx.a);
                        let h = self.extract(S(nx.a), w0, pn.imm as u32, aw + pw);
                        let q = self.sc(ny.b);
                        return self.concat(h, aw + pw, q, bw - pw);
                    }
                }
                if nx.op == Op::ZExt {
                    let iw = self.w(nx.a);
                    let inner = self.concat(S(nx.a), iw, b, bw);
                    return self.zext(inner, iw + bw, aw + bw);
                }
            }
            (S(x), C(k)) => {
                let nx = self.n(x);
                if nx.op == Op::Concat {
                    let qw = self.w(nx.b);
                    let q = self.sc(nx.b);
                    let p = self.sc(nx.a);
                    let r = self.concat(q, qw, C(k), bw);
                    return self.concat(p, aw - qw, r, qw + bw);
                }
                if nx.op == Op::ZExt {
                    let iw = self.w(nx.a);
                    let inner = self.concat(S(nx.a), iw, b, bw);
                    return self.zext(inner, iw + bw, aw + bw);
                }
            }
            (C(k), S(y)) => {
                let ny = self.n(y);
                if ny.op == Op::Concat {
                    if let C(p) = self.sc(ny.a) {
                        let pw = self.w(ny.a);
                        let q = self.sc(ny.b);
                        return self.concat(C((k << pw) | p), aw + pw, q, bw - pw);
                    }
                }
            }
        }
        let w = aw + bw;
        let (x, y) = (self.e(a, aw), self.e(b, bw));
        self.mk(Op::Concat, w, x, y, 0, 0)
    }
    pub fn zext(&mut self, x: Sc, xw: u32, w: u32) -> Sc {
        if w == xw {
            return x;
        }
        match x {
            C(v) => C(v),
            S(e) => {
                let n = self.n(e);
                if n.op == Op::ZExt {
                    return self.mk(Op::ZExt, w, n.a, 0, 0, 0);
                }
                self.mk(Op::ZExt, w, e, 0, 0, 0)
            }
        }
    }
    pub fn sext(&mut self, x: Sc, xw: u32, w: u32) -> Sc {
        if w == xw {
            return x;
        }
        match x {
            C(v) => C((sx(v, xw) as u128) & mask(w)),
            S(e) => {
                let n = self.n(e);
                match n.op {
                    Op::ZExt => self.mk(Op::ZExt, w, n.a, 0, 0, 0),
                    Op::SExt => self.mk(Op::SExt, w, n.a, 0, 0, 0),
                    _ => {
                        if xw == 1 {
                            return self.ite(x, C(mask(w)), C(0), w);
                        }
                        self.mk(Op::SExt, w, e, 0, 0, 0)
                    }
                }
            }
        }
    }
    pub fn not1(&mut self, x: Sc) -> Sc {
        self.bin(Op::Xor, 1, x, C(1))
    }
    pub fn ite(&mut self, c: Sc, a: Sc, b: Sc, w: u32) -> Sc {
        match c {
            C(1) => return a,
            C(_) => return b,
            _ => {}
        }
        if a == b {
            return a;
        }
        let ce = if let S(e) = c { e } else { unreachable!() };
        if w == 1 {
            match (a, b) {
                (C(1), C(0)) => return c,
                (C(0), C(1)) => return self.not1(c),
                (C(1), _) => return self.bin(Op::Or, 1, c, b),
                (C(0), _) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, 1, n, b);
                }
                (_, C(0)) => return self.bin(Op::And, 1, c, a),
                (_, C(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, 1, n, a);
                }
                _ => {}
            }
        }
        // ite(!c, a, b) -> ite(c, b, a)
        let n = self.n(ce);
        if n.op == Op::Xor && n.w == 1 {
            if let C(1) = self.sc(n.b) {
                return self.ite(S(n.a), b, a, w);
            }
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        self.mk(Op::Ite, w, ce, x, y, 0)
    }
    fn zero_low(&self, e: E) -> u32 {
        // number of known-zero low bits
        let n = self.n(e);
        match n.op {
            Op::Const => if n.imm == 0 { n.w } else { n.imm.trailing_zeros() },
            Op::Concat => {
                let bw = self.w(n.b);
                let z = self.zero_low(n.b);
                if z >= bw { bw + self.zero_low(n.a) } else { z }
            }
            Op::Shl => {
                if let C(k) = self.sc(n.b) { k as u32 } else { 0 }
            }
            Op::ZExt => self.zero_low(n.a).min(self.w(n.a)),
            _ => 0,
        }
    }
    fn zero_high(&self, e: E) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const => {
                n.w - (128 - n.imm.leading_zeros())
            }
            Op::ZExt => n.w - self.w(n.a) + self.zero_high(n.a),
            Op::Concat => {
                let z = self.zero_high(n.a);
                if z == self.w(n.a) { z + self.zero_high(n.b) } else { z }
            }
            Op::And => self.zero_high(n.a).max(self.zero_high(n.b)),
            Op::Ite => self.zero_high(n.b).min(self.zero_high(n.c)),
            Op::Tab => {
                let t = &self.tables[n.imm as usize];
                let m = t.iter().fold(0u128, |a, b| a | b);
                n.w - (128 - m.leading_zeros())
            }
            _ => 0,
        }
    }
    pub fn bin(&mut self, op: Op, w: u32, x: Sc, y: Sc) -> Sc {
        if let (C(a), C(b)) = (x, y) {
            return C(eval_op(op, w, w, w, 0, a, b, 0));
        }
        // commutative: constants to the right
        let (x, y) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => match (x, y) {
                (C(_), S(_)) => (y, x),
                (S(a), S(b)) if a > b => (y, x),
                _ => (x, y),
            },
            _ => (x, y),
        };
        let m = mask(w);
        match op {
            Op::Add => {
                if y == C(0) {
                    return x;
                }
                if let (S(a), C(k)) = (x, y) {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let C(k2) = self.sc(n.b) {
                            return self.bin(Op::Add, w, S(n.a), C(k.wrapping_add(k2) & m));
                        }
                    }
                }
                // disjoint add (no carries): or
                if let (S(a), S(b)) = (x, y) {
                    let (za, zb) = (self.zero_low(a), self.zero_low(b));
                    if w - self.zero_high(a) <= zb || w - self.zero_high(b) <= za {
                        return self.bin(Op::Or, w, x, y);
                    }
                }
            }
            Op::Sub => {
                if x == y {
                    return C(0);
                }
                if let C(k) = y {
                    return self.bin(Op::Add, w, x, C(k.wrapping_neg() & m));
                }
                if let (S(a), S(b)) = (x, y) {
                    // (b + k) - b = k
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if n.a == b {
                            return self.sc(n.b);
                        }
                        if n.b == b {
                            return self.sc(n.a);
                        }
                    }
                }
            }
            Op::Mul => {
                if let C(k) = y {
                    if k == 0 {
                        return C(0);
                    }
                    if k == 1 {
                        return x;
                    }
                    if k.is_power_of_two() {
                        return self.bin(Op::Shl, w, x, C(k.trailing_zeros() as u128));
                    }
                }
            }
            Op::UDiv => {
                if let C(k) = y {
                    if k == 1 {
                        return x;
                    }
                    if k.is_power_of_two() {
                        return self.bin(Op::LShr, w, x, C(k.trailing_zeros() as u128));
                    }
                }
            }
            Op::URem => {
                if let C(k) = y {
                    if k == 1 {
                        return C(0);
                    }
                    if k.is_power_of_two() {
                        return self.bin(Op::And, w, x, C(k - 1));
                    }
                }
            }
            Op::And => {
                if x == y {
                    return x;
                }
                if let C(k) = y {
                    if k == 0 {
                        return C(0);
                    }
                    if k == m {
                        return x;
                    }
                    let a = if let S(a) = x { a } else { unreachable!() };
                    let n = self.n(a);
                    if n.op == Op::And {
                        if let C(k2) = self.sc(n.b) {
                            return self.bin(Op::And, w, S(n.a), C(k & k2));
                        }
                    }
                    // contiguous low mask
                    let tz = k.trailing_zeros();
                    let top = 128 - k.leading_zeros();
                    if k >> tz == mask(top - tz) {
                        // contiguous ones at [tz, top)
                        let mid = self.extract(x, w, tz, top - tz);
                        let r = if tz > 0 { self.concat(mid, top - tz, C(0), tz) } else { mid };
                        return self.zext(r, top, w);
                    }
                    if matches!(n.op, Op::Concat | Op::ZExt) {
                        return self.split_bitwise(op, w, x, y);
                    }
                }
                if w > 1 && (self.splittable(x) || self.splittable(y)) {
                    return self.split_bitwise(op, w, x, y);
                }
                if w == 1 {
                    // x & !x
                    let nx = self.not1(x);
                    if nx == y {
                        return C(0);
                    }
                }
            }
            Op::Or => {
                if x == y {
                    return x;
                }
                if let C(k) = y {
                    if k == 0 {
                        return x;
                    }
                    if k == m {
                        return C(m);
                    }
                }
                if w == 1 {
                    let nx = self.not1(x);
                    if nx == y {
                        return C(1);
                    }
                } else if self.splittable(x) || self.splittable(y) {
                    return self.split_bitwise(op, w, x, y);
                }
            }
            Op::Xor => {
                if x == y {
                    return C(0);
                }
                if y == C(0) {
                    return x;
                }
                if let (S(a), C(k)) = (x, y) {
                    let n = self.n(a);
                    if n.op == Op::Xor {
                        if let C(k2) = self.sc(n.b) {
                            return self.bin(Op::Xor, w, S(n.a), C(k ^ k2));
                        }
                    }
                }
                if w > 1 && (self.splittable(x) || self.splittable(y)) {
                    return self.split_bitwise(op, w, x, y);
                }
            }
            Op::Shl => {
                if x == C(0) {
                    return C(0);
                }
                if let C(k) = y {
                    if k == 0 {
                        return x;
                    }
                    if k >= w as u128 {
                        return C(0);
                    }
                    let k = k as u32;
                    let p = self.extract(x, w, 0, w - k);
                    return self.concat(p, w - k, C(0), k);
                }
            }
            Op::LShr => {
                if x == C(0) {
                    return C(0);
                }
                if let C(k) = y {
                    if k == 0 {
                        return x;
                    }
                    if k >= w as u128 {
                        return C(0);
                    }
                    let k = k as u32;
                    let p = self.extract(x, w, k, w - k);
                    return self.zext(p, w - k, w);
                }
            }
            Op::AShr => {
                if let C(k) = y {
                    if k == 0 {
                        return x;
                    }
                    let k = (k.min(w as u128 - 1)) as u32;
                    let p = self.extract(x, w, k, w - k);
                    return self.sext(p, w - k, w);
                }
            }
            _ => {}
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        self.mk(op, w, a, b, 0, 0)
    }
    fn splittable(&self, x: Sc) -> bool {
        match x {
            S(e) => matches!(self.n(e).op, Op::Concat | Op::ZExt),
            _ => false,
        }
    }
    fn split_point(&self, x: Sc) -> Option<u32> {
        match x {
            S(e) => {
                let n = self.n(e);
                match n.op {
                    Op::Concat => Some(self.w(n.b)),
                    Op::ZExt => {
                        let iw = self.w(n.a);
                        // prefer the inner split if it is lower
                        if let Some(p) = self.split_point(S(n.a)) {
                            return Some(p);
                        }
                        Some(iw)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn split_bitwise(&mut self, op: Op, w: u32, x: Sc, y: Sc) -> Sc {
        let p = match (self.split_point(x), self.split_point(y)) {
            (Some(a), Some(b)) => a.min(b),
            (Some(a), None) => a,
            (None, Some(b)) => b,
            _ => unreachable!(),
        };
        let xl = self.extract(x, w, 0, p);
        let yl = self.extract(y, w, 0, p);
        let xh = self.extract(x, w, p, w - p);
        let yh = self.extract(y, w, p, w - p);
        let l = self.bin(op, p, xl, yl);
        let h = self.bin(op, w - p, xh, yh);
        self.concat(h, w - p, l, p)
    }
    pub fn eq(&mut self, w: u32, x: Sc, y: Sc) -> Sc {
        if let (C(a), C(b)) = (x, y) {
            return C((a == b) as u128);
        }
        if x == y {
            return C(1);
        }
        let (x, y) = match (x, y) {
            (C(_), S(_)) => (y, x),
            (S(a), S(b)) if a > b => (y, x),
            _ => (x, y),
        };
        if w == 1 {
            if let C(k) = y {
                return if k == 1 { x } else { self.not1(x) };
            }
        }
        if let (S(a), C(k)) = (x, y) {
            let n = self.n(a);
            match n.op {
                Op::Concat => {
                    let bw = self.w(n.b);
                    let (p, q) = (self.sc(n.a), self.sc(n.b));
                    let h = self.eq(w - bw, p, C(k >> bw));
                    if h == C(0) {
                        return C(0);
                    }
                    let l = self.eq(bw, q, C(k & mask(bw)));
                    return self.bin(Op::And, 1, h, l);
                }
                Op::ZExt => {
                    let aw = self.w(n.a);
                    if k > mask(aw) {
                        return C(0);
                    }
                    return self.eq(aw, S(n.a), C(k));
                }
                Op::SExt => {
                    let aw = self.w(n.a);
                    let low = k & mask(aw);
                    if (sx(low, aw) as u128) & mask(w) != k {
                        return C(0);
                    }
                    return self.eq(aw, S(n.a), C(low));
                }
                Op::Add => {
                    if let C(k2) = self.sc(n.b) {
                        return self.eq(w, S(n.a), C(k.wrapping_sub(k2) & mask(w)));
                    }
                }
                Op::Xor => {
                    if let C(k2) = self.sc(n.b) {
                        return self.eq(w, S(n.a), C(k ^ k2));
                    }
                }
                Op::Ite => {
                    let (p, q) = (self.sc(n.b), self.sc(n.c));
                    if matches!(p, C(_)) || matches!(q, C(_)) {
                        let a1 = self.eq(w, p, y);
                        let b1 = self.eq(w, q, y);
                        return self.ite(S(n.a), a1, b1, 1);
                    }
                }
                _ => {}
            }
        }
        if let (S(a), S(b)) = (x, y) {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                let iw = self.w(na.a);
                return self.eq(iw, S(na.a), S(nb.a));
            }
            if na.op == Op::Concat || nb.op == Op::Concat {
                let p = match (na.op == Op::Concat, nb.op == Op::Concat) {
                    (true, true) => self.w(na.b).min(self.w(nb.b)),
                    (true, false) => self.w(na.b),
                    _ => self.w(nb.b),
                };
                let xl = self.extract(x, w, 0, p);
                let yl = self.extract(y, w, 0, p);
                let xh = self.extract(x, w, p, w - p);
                let yh = self.extract(y, w, p, w - p);
                let l = self.eq(p, xl, yl);
                if l == C(0) {
                    return C(0);
                }
                let h = self.eq(w - p, xh, yh);
                return self.bin(Op::And, 1, h, l);
            }
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, w: u32, x: Sc, y: Sc) -> Sc {
        if let (C(a), C(b)) = (x, y) {
            return C((a < b) as u128);
        }
        if x == y {
            return C(0);
        }
        if y == C(0) {
            return C(0);
        }
        if x == C(mask(w)) {
            return C(0);
        }
        if y == C(1) {
            return self.eq(w, x, C(0));
        }
        if x == C(0) {
            let z = self.eq(w, y, C(0));
            return self.not1(z);
        }
        // narrow by known-zero high bits
        let zx = self.zh(x, w);
        let zy = self.zh(y, w);
        let z = zx.min(zy);
        if z > 0 && z < w {
            let a = self.extract(x, w, 0, w - z);
            let b = self.extract(y, w, 0, w - z);
            return self.ult(w - z, a, b);
        }
        if let (S(_), C(k)) = (x, y) {
            if k > mask(w - zx.min(w)) {
                return C(1);
            }
        }
        if let (C(k), S(_)) = (x, y) {
            if k >= mask(w - zy.min(w)) {
                return C(0);
            }
        }
        if w == 1 {
            let nx = self.not1(x);
            return self.bin(Op::And, 1, nx, y);
        }
        if let (S(a), C(k)) = (x, y) {
            let n = self.n(a);
            if n.op == Op::Concat {
                // split on the high part when it is constant
                let bw = self.w(n.b);
                if let C(h) = self.sc(n.a) {
                    let kh = k >> bw;
                    if h < kh {
                        return C(1);
                    }
                    if h > kh {
                        return C(0);
                    }
                    let q = self.sc(n.b);
                    return self.ult(bw, q, C(k & mask(bw)));
                }
                if k & mask(bw) == 0 {
                    let p = self.sc(n.a);
                    return self.ult(w - bw, p, C(k >> bw));
                }
            }
            if n.op == Op::Ite {
                let (p, q) = (self.sc(n.b), self.sc(n.c));
                if matches!(p, C(_)) && matches!(q, C(_)) {
                    let a1 = self.ult(w, p, y);
                    let b1 = self.ult(w, q, y);
                    return self.ite(S(n.a), a1, b1, 1);
                }
            }
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    fn zh(&self, x: Sc, w: u32) -> u32 {
        match x {
            C(v) => w - (128 - v.leading_zeros()),
            S(e) => self.zero_high(e).min(w),
        }
    }
    pub fn slt(&mut self, w: u32, x: Sc, y: Sc) -> Sc {
        if let (C(a), C(b)) = (x, y) {
            return C((sx(a, w) < sx(b, w)) as u128);
        }
        if x == y {
            return C(0);
        }
        let px = self.zh(x, w) > 0;
        let py = self.zh(y, w) > 0;
        if px && py {
            return self.ult(w, x, y);
        }
        // x <s 0  => sign bit
        if y == C(0) {
            return self.extract(x, w, w - 1, 1);
        }
        if x == C(mask(w)) {
            let s = self.extract(y, w, w - 1, 1);
            return self.not1(s);
        }
        if let (S(a), C(k)) = (x, y) {
            let n = self.n(a);
            if n.op == Op::SExt {
                let aw = self.w(n.a);
                let low = k & mask(aw);
                if (sx(low, aw) as u128) & mask(w) == k {
                    return self.slt(aw, S(n.a), C(low));
                }
            }
            if n.op == Op::Ite {
                let (p, q) = (self.sc(n.b), self.sc(n.c));
                if matches!(p, C(_)) && matches!(q, C(_)) {
                    let a1 = self.slt(w, p, y);
                    let b1 = self.slt(w, q, y);
                    return self.ite(S(n.a), a1, b1, 1);
                }
            }
        }
        if let (C(_), S(b)) = (x, y) {
            let n = self.n(b);
            if n.op == Op::Ite {
                let (p, q) = (self.sc(n.b), self.sc(n.c));
                if matches!(p, C(_)) && matches!(q, C(_)) {
                    let a1 = self.slt(w, x, p);
                    let b1 = self.slt(w, x, q);
                    return self.ite(S(n.a), a1, b1, 1);
                }
            }
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }

    // ---------- evaluation ----------
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.stamp = self.stamp.wrapping_add(1);
        if self.stamp == 0 {
            for s in self.ev_stamp.iter_mut() {
                *s = 0;
            }
            self.stamp = 1;
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        match n.op {
            Op::Const => return n.imm,
            Op::Var => return *model.get(n.imm as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        if self.ev_stamp[i] == self.stamp {
            return self.ev_val[i];
        }
        let a = self.ev(n.a, model);
        let aw = self.nodes[n.a as usize].w;
        let r = match n.op {
            Op::Ite => {
                if a == 1 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Op::Tab => self.tables[n.imm as usize][a as usize],
            Op::ZExt | Op::SExt | Op::Extract => eval_op(n.op, n.w, aw, 0, n.imm, a, 0, 0),
            _ => {
                let b = self.ev(n.b, model);
                let bw = self.nodes[n.b as usize].w;
                eval_op(n.op, n.w, aw, bw, n.imm, a, b, 0)
            }
        };
        self.ev_stamp[i] = self.stamp;
        self.ev_val[i] = r;
        r
    }
    /// table over the single supporting variable
    pub fn table1(&mut self, e: E) -> Rc<Vec<u128>> {
        if let Some(t) = self.tabs_cache.get(&e) {
            return t.clone();
        }
        let mut memo: HashMap<E, Rc<Vec<u128>>, FxB> = HashMap::with_hasher(FxB);
        let r = self.tb(e, &mut memo);
        self.tabs_cache.insert(e, r.clone());
        r
    }
    fn tb(&mut self, e: E, memo: &mut HashMap<E, Rc<Vec<u128>>, FxB>) -> Rc<Vec<u128>> {
        if let Some(t) = memo.get(&e) {
            return t.clone();
        }
        if let Some(t) = self.tabs_cache.get(&e) {
            return t.clone();
        }
        let n = self.n(e);
        let r: Vec<u128> = match n.op {
            Op::Const => vec![n.imm; 256],
            Op::Var => (0..256u128).collect(),
            Op::Tab => {
                let t = self.tables[n.imm as usize].clone();
                let a = self.tb(n.a, memo);
                a.iter().map(|x| t[*x as usize]).collect()
            }
            Op::Ite => {
                let a = self.tb(n.a, memo);
                let b = self.tb(n.b, memo);
                let c = self.tb(n.c, memo);
                (0..256).map(|i| if a[i] == 1 { b[i] } else { c[i] }).collect()
            }
            Op::ZExt | Op::SExt | Op::Extract => {
                let aw = self.w(n.a);
                let a = self.tb(n.a, memo);
                a.iter().map(|x| eval_op(n.op, n.w, aw, 0, n.imm, *x, 0, 0)).collect()
            }
            _ => {
                let aw = self.w(n.a);
                let bw = self.w(n.b);
                let a = self.tb(n.a, memo);
                let b = self.tb(n.b, memo);
                (0..256).map(|i| eval_op(n.op, n.w, aw, bw, n.imm, a[i], b[i], 0)).collect()
            }
        };
        let r = Rc::new(r);
        memo.insert(e, r.clone());
        r
    }
    /// truth set over the single supporting variable of a width-1 expression
    pub fn set1(&mut self, e: E) -> Set {
        if let Some(s) = self.sets_cache.get(&e) {
            return *s;
        }
        let t = self.table1(e);
        let mut s = [0u64; 4];
        for i in 0..256 {
            if t[i] == 1 {
                s[i >> 6] |= 1 << (i & 63);
            }
        }
        self.sets_cache.insert(e, s);
        s
    }
    /// split a conjunction into literals
    pub fn conj(&self, e: E, out: &mut Vec<E>) {
        let n = self.n(e);
        if n.op == Op::And && n.w == 1 {
            self.conj(n.a, out);
            self.conj(n.b, out);
        } else if n.op == Op::Xor && n.w == 1 && self.n(n.b).op == Op::Const {
            // !(a | b) = !a & !b : represented lazily by the caller
            out.push(e);
        } else {
            out.push(e);
        }
    }
    /// conjunction literals after pushing one negation through Or
    pub fn conj_deep(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.n(e);
        if n.w == 1 && n.op == Op::And {
            self.conj_deep(n.a, out);
            self.conj_deep(n.b, out);
            return;
        }
        if n.w == 1 && n.op == Op::Xor && self.sc(n.b) == C(1) {
            let i = self.n(n.a);
            if i.op == Op::Or {
                let x = self.not1(S(i.a));
                let y = self.not1(S(i.b));
                if let (S(x), S(y)) = (x, y) {
                    self.conj_deep(x, out);
                    self.conj_deep(y, out);
                    return;
                }
            }
        }
        out.push(e);
    }
    /// disjunction literals (dual)
    pub fn disj_deep(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.n(e);
        if n.w == 1 && n.op == Op::Or {
            self.disj_deep(n.a, out);
            self.disj_deep(n.b, out);
            return;
        }
        if n.w == 1 && n.op == Op::Xor && self.sc(n.b) == C(1) {
            let i = self.n(n.a);
            if i.op == Op::And {
                let x = self.not1(S(i.a));
                let y = self.not1(S(i.b));
                if let (S(x), S(y)) = (x, y) {
                    self.disj_deep(x, out);
                    self.disj_deep(y, out);
                    return;
                }
            }
        }
        out.push(e);
    }
}
