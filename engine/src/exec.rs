//! Path-exploring symbolic executor.
use crate::expr::{Sc::*, *};
use crate::ll::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    X(Sc),
    A(Rc<Vec<Val>>),
    U,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, E>,
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    fid: u32,
    regs: Vec<Val>,
    blk: u32,
    pc: u32,
    ret_dst: u32,
    ret_next: Option<u32>,
    stack_n: usize,
    stack_a: u64,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Vec<(u64, u64, Option<Rc<Obj>>)>,
    heap_next: u64,
    stack: Vec<(u64, u64, Rc<Obj>)>,
    stack_next: u64,
    gl: HashMap<u32, Rc<Obj>, FxB>,
    dom: Rc<Vec<Set>>,
    ent: Rc<Vec<bool>>,
    multi: Rc<Vec<E>>,
    model: Rc<Vec<u8>>,
    fixed: Rc<Vec<(E, u128)>>,
    nvars: usize,
    obs: Vec<(Sc, u32)>,
    steps: u64,
    live_alloc: u64,
    peak_alloc: u64,
    depth: u32,
}

pub const HEAP_BASE: u64 = 0x10_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}

pub struct Sample {
    pub input: Vec<u8>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub completed: u64,
    pub assume_pruned: u64,
    pub forks: u64,
    pub instrs: u64,
    pub branch_queries: u64,
    pub dom_decided: u64,
    pub model_decided: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub asserts_const: u64,
    pub concretizations: u64,
    pub max_steps: u64,
    pub cache_hits: u64,
    pub xchecks: u64,
    pub path_checks: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ext {
    None,
    Panic,
    SymBytes, SymAssume, SymAssert, SymCover, SymObserve, SymShard, SymTier, SymPeak, SymEngine, SymConcretize,
    Malloc, Calloc, Realloc, Free, Memalign, AlignedAlloc,
    Memcmp, Bcmp, Strlen, MemcpyFn, MemsetFn,
    Getrandom, Syscall, Getenv, Write, Abort, Errno, Zero,
    Memcpy, Memset, Nop, Trap, Ident0,
    Umax, Umin, Smax, Smin, Abs, Ctlz, Cttz, Ctpop, Bswap, BitRev, Fshl, Fshr,
    UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, UaddS, UsubS, SaddS, SsubS, Ucmp, Scmp,
    FpToUiSat, FpToSiSat, Fabs, Floor, Ceil, Ftrunc, Fround, Fmin, Fmax,
    LoadRel, RedOr, RedAnd, RedAdd, RedXor, RedMul, RedUmax, RedUmin, False0, AllOnes64,
    Unknown,
}

fn classify(name: &str, dem: &str, defined: bool) -> Ext {
    match name {
        "sym_bytes" => return Ext::SymBytes,
        "sym_assume" => return Ext::SymAssume,
        "sym_assert" => return Ext::SymAssert,
        "sym_cover" => return Ext::SymCover,
        "sym_observe" => return Ext::SymObserve,
        "sym_shard" => return Ext::SymShard,
        "sym_tier" => return Ext::SymTier,
        "sym_peak_alloc" => return Ext::SymPeak,
        "sym_is_engine" => return Ext::SymEngine,
        "sym_concretize" => return Ext::SymConcretize,
        "malloc" => return Ext::Malloc,
        "calloc" => return Ext::Calloc,
        "realloc" => return Ext::Realloc,
        "free" => return Ext::Free,
        "posix_memalign" => return Ext::Memalign,
        "aligned_alloc" => return Ext::AlignedAlloc,
        "memcmp" => return Ext::Memcmp,
        "bcmp" => return Ext::Bcmp,
        "strlen" => return Ext::Strlen,
        "memcpy" | "memmove" => return Ext::MemcpyFn,
        "memset" => return Ext::MemsetFn,
        "getrandom" => return Ext::Getrandom,
        "syscall" => return Ext::Syscall,
        "getenv" => return Ext::Getenv,
        "write" | "writev" => return Ext::Write,
        "abort" => return Ext::Abort,
        "__errno_location" => return Ext::Errno,
        _ => {}
    }
    if let Some(n) = name.strip_prefix("llvm.") {
        let t = |p: &str| n.starts_with(p);
        return if t("memcpy") || t("memmove") { Ext::Memcpy }
        else if t("memset") { Ext::Memset }
        else if t("lifetime") || t("assume") || t("experimental") || t("dbg") || t("prefetch") || t("invariant") || t("x86.sse2.pause") || t("sideeffect") || t("donothing") { Ext::Nop }
        else if t("trap") || t("ubsantrap") || t("debugtrap") { Ext::Trap }
        else if t("threadlocal") || t("expect") || t("launder") || t("strip") || t("ssa.copy") { Ext::Ident0 }
        else if t("umax") { Ext::Umax } else if t("umin") { Ext::Umin }
        else if t("smax") { Ext::Smax } else if t("smin") { Ext::Smin }
        else if t("abs.") { Ext::Abs } else if t("ctlz") { Ext::Ctlz } else if t("cttz") { Ext::Cttz }
        else if t("ctpop") { Ext::Ctpop } else if t("bswap") { Ext::Bswap } else if t("bitreverse") { Ext::BitRev }
        else if t("fshl") { Ext::Fshl } else if t("fshr") { Ext::Fshr }
        else if t("uadd.with") { Ext::UaddO } else if t("usub.with") { Ext::UsubO } else if t("umul.with") { Ext::UmulO }
        else if t("sadd.with") { Ext::SaddO } else if t("ssub.with") { Ext::SsubO } else if t("smul.with") { Ext::SmulO }
        else if t("uadd.sat") { Ext::UaddS } else if t("usub.sat") { Ext::UsubS }
        else if t("sadd.sat") { Ext::SaddS } else if t("ssub.sat") { Ext::SsubS }
        else if t("ucmp") { Ext::Ucmp } else if t("scmp") { Ext::Scmp }
        else if t("load.relative") { Ext::LoadRel }
        else if t("vector.reduce.or") { Ext::RedOr } else if t("vector.reduce.and") { Ext::RedAnd } else if t("vector.reduce.add") { Ext::RedAdd }
        else if t("vector.reduce.xor") { Ext::RedXor } else if t("vector.reduce.mul") { Ext::RedMul }
        else if t("vector.reduce.umax") { Ext::RedUmax } else if t("vector.reduce.umin") { Ext::RedUmin }
        else if t("fptoui.sat") { Ext::FpToUiSat } else if t("fptosi.sat") { Ext::FpToSiSat }
        else if t("fabs") { Ext::Fabs } else if t("floor") { Ext::Floor } else if t("ceil") { Ext::Ceil }
        else if t("trunc.f") { Ext::Ftrunc } else if t("round.f") { Ext::Fround }
        else if t("minnum") { Ext::Fmin } else if t("maxnum") { Ext::Fmax }
        else if t("is.constant") { Ext::False0 } else if t("objectsize") { Ext::AllOnes64 }
        else { Ext::Unknown };
    }
    if dem.starts_with("core::panicking::")
        || name.contains("rust_begin_unwind")
        || dem.starts_with("std::panicking::begin_panic")
        || dem.starts_with("std::panicking::panic_with_hook")
        || dem.starts_with("std::panicking::rust_panic")
        || dem.starts_with("alloc::alloc::handle_alloc_error")
        || dem.starts_with("alloc::raw_vec::handle_error")
        || dem.starts_with("alloc::raw_vec::capacity_overflow")
        || dem.starts_with("core::slice::index::slice_")
        || dem.starts_with("core::str::slice_error_fail")
        || dem.starts_with("core::option::unwrap_failed")
        || dem.starts_with("core::option::expect_failed")
        || dem.starts_with("core::result::unwrap_failed")
        || name.contains("rust_start_panic")
        || name.contains("___rust_abort")
    {
        return Ext::Panic;
    }
    if defined {
        return Ext::None;
    }
    Ext::Unknown
}

fn fget(b: u128, w: u32) -> R<f64> {
    match w {
        32 => Ok(f32::from_bits(b as u32) as f64),
        64 => Ok(f64::from_bits(b as u64)),
        _ => Err(Stop::Error("float width".into())),
    }
}
fn fput(v: f64, w: u32) -> u128 {
    if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
}
fn ftou(v: f64, w: u32) -> u128 {
    (v as u128).min(mask(w))
}
fn ftos(v: f64, w: u32) -> u128 {
    let hi = (mask(w) >> 1) as i128;
    ((v as i128).clamp(-hi - 1, hi) as u128) & mask(w)
}

enum Stop {
    /// re-execute the current instruction in each of these states
    Fork(Vec<(E, u128, Rc<Vec<u8>>)>),
    Pruned,
    Violation(String, String),
    Done,
    Error(String),
}
type Side = Option<(E, Rc<Vec<u8>>)>;
type R<T> = Result<T, Stop>;

pub struct Engine {
    pub m: Module,
    pub x: Ctx,
    pub z: Z3,
    ext: Vec<Option<Ext>>,
    base_gl: Vec<Option<Rc<Obj>>>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub covers: BTreeSet<String>,
    pub samples: Vec<Sample>,
    pub nsamples: usize,
    pub shard: u64,
    pub tier: u64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub xcheck: bool,
    pub error: Option<String>,
    work: Vec<State>,
    exec_blocks: HashMap<u32, Vec<bool>, FxB>,
    rng: u64,
    fork_key: Option<E>,
    qcache: HashMap<(Vec<E>, u64), Option<Vec<(u16, u8)>>, FxB>,
    pub deadline: std::time::Instant,
    pub timed_out: bool,
    pub assert_msgs: BTreeMap<String, (u64, u64)>,
}

fn c64(v: Sc) -> Option<u64> {
    match v {
        C(x) => Some(x as u64),
        _ => None,
    }
}

impl Engine {
    pub fn new(m: Module, z: Z3) -> Engine {
        let nf = m.funcs.len();
        let ng = m.globals.len();
        let mut ext = Vec::with_capacity(nf);
        for f in &m.funcs {
            let e = classify(&f.name, &f.demangled, f.defined);
            ext.push(if e == Ext::None { None } else { Some(e) });
        }
        Engine {
            m,
            x: Ctx::new(),
            z,
            ext,
            base_gl: vec![None; ng],
            stats: Stats::default(),
            violations: vec![],
            covers: BTreeSet::new(),
            samples: vec![],
            nsamples: 64,
            shard: 0,
            tier: 0,
            max_steps: 20_000_000,
            max_viol: 3,
            xcheck: false,
            error: None,
            work: vec![],
            exec_blocks: HashMap::with_hasher(FxB),
            rng: 0x9E3779B97F4A7C15,
            fork_key: None,
            qcache: HashMap::with_hasher(FxB),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(100000),
            timed_out: false,
            assert_msgs: BTreeMap::new(),
        }
    }
    pub fn seed(&mut self, s: u64) {
        self.rng ^= s.wrapping_mul(0xD1342543DE82EF95);
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ------------------------------------------------------------ solver
    /// Is PC ∧ e satisfiable?  Returns a model of PC ∧ e.
    fn check(&mut self, st: &State, e: E, force: bool) -> R<Option<Rc<Vec<u8>>>> {
        if !force {
            if self.x.eval(e, &st.model) == 1 {
                self.stats.model_decided += 1;
                return Ok(Some(st.model.clone()));
            }
            if let Some(r) = self.check_dom(st, e) {
                self.stats.dom_decided += 1;
                // the first decisions and then one in sixteen are put to z3 as well
                if self.xcheck && (self.stats.dom_decided <= 500 || self.stats.dom_decided % 16 == 0) {
                    self.stats.xchecks += 1;
                    let z = self.check_z3(st, e)?;
                    if z.is_some() != r.is_some() {
                        return Err(Stop::Error(format!("finite-domain / z3 disagreement on expression {}", e)));
                    }
                }
                return Ok(r);
            }
        }
        self.stats.branch_queries += 1;
        self.check_z3(st, e)
    }
    /// finite-domain decision for single-byte literals on bytes that no
    /// multi-byte constraint mentions; None = not applicable
    fn check_dom(&mut self, st: &State, e: E) -> Option<Option<Rc<Vec<u8>>>> {
        let mut lits = vec![];
        self.x.conj_deep(e, &mut lits);
        let mut acc: Vec<(u16, Set)> = vec![];
        let mut ok = true;
        for l in &lits {
            match self.x.one(*l) {
                Some(v) if !st.ent[v as usize] => {
                    let s = self.x.set1(*l);
                    if let Some(p) = acc.iter_mut().find(|p| p.0 == v) {
                        p.1 = set_and(&p.1, &s);
                    } else {
                        acc.push((v, set_and(&st.dom[v as usize], &s)));
                    }
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            let mut m = (*st.model).clone();
            for (v, s) in &acc {
                if set_empty(s) {
                    return Some(None);
                }
                if !set_has(s, m[*v as usize]) {
                    m[*v as usize] = set_first(s);
                }
            }
            return Some(Some(Rc::new(m)));
        }
        let mut lits = vec![];
        self.x.disj_deep(e, &mut lits);
        if lits.len() > 1 {
            for l in &lits {
                match self.x.one(*l) {
                    Some(v) if !st.ent[v as usize] => {
                        let s = set_and(&self.x.set1(*l), &st.dom[v as usize]);
                        if !set_empty(&s) {
                            let mut m = (*st.model).clone();
                            m[v as usize] = set_first(&s);
                            return Some(Some(Rc::new(m)));
                        }
                    }
                    _ => return None,
                }
            }
            return Some(None);
        }
        None
    }
    fn check_z3(&mut self, st: &State, e: E) -> R<Option<Rc<Vec<u8>>>> {
        // constraint slice
        let mut vars: BTreeSet<u16> = self.x.supp(e).iter().cloned().collect();
        let mut used = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.multi.iter().enumerate() {
                if !used[i] && self.x.supp(*c).iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    for v in self.x.supp(*c).iter() {
                        vars.insert(*v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut cons: Vec<E> = st.multi.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        cons.push(e);
        cons.sort();
        cons.dedup();
        let doms: Vec<(u16, Set)> = vars.iter().map(|v| (*v, st.dom[*v as usize])).collect();
        let vs: Vec<u16> = vars.into_iter().collect();
        let mut h: u64 = 0;
        for (v, s) in &doms {
            for k in s {
                h = (h.rotate_left(7) ^ k ^ (*v as u64)).wrapping_mul(0x9E3779B97F4A7C15);
            }
        }
        let key = (cons, h);
        let r = if let Some(r) = self.qcache.get(&key) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            let r = match self.z.check(&self.x, &key.0, &doms, &vs) {
                Res::Sat(m) => Some(m),
                Res::Unsat => None,
                Res::Unknown => return Err(Stop::Error("z3 returned unknown (query time limit)".into())),
            };
            self.qcache.insert(key, r.clone());
            r
        };
        Ok(r.map(|mv| {
            let mut m = (*st.model).clone();
            for (v, b) in mv {
                m[v as usize] = b;
            }
            Rc::new(m)
        }))
    }
    fn add(&mut self, st: &mut State, e: E, model: Rc<Vec<u8>>) {
        let mut lits = vec![];
        self.x.conj_deep(e, &mut lits);
        for l in lits {
            if let Some(v) = self.x.one(l) {
                let s = self.x.set1(l);
                let d = Rc::make_mut(&mut st.dom);
                d[v as usize] = set_and(&d[v as usize], &s);
            } else {
                if !st.multi.contains(&l) {
                    Rc::make_mut(&mut st.multi).push(l);
                    let sup = self.x.supp(l);
                    let ent = Rc::make_mut(&mut st.ent);
                    for v in sup.iter() {
                        ent[*v as usize] = true;
                    }
                }
            }
        }
        debug_assert_eq!(self.x.eval(e, &model), 1);
        st.model = model;
    }

    /// a unique concrete value for `v`, forking over all feasible values
    fn conc(&mut self, st: &State, v: Sc, w: u32) -> R<u128> {
        let e = match v {
            C(x) => return Ok(x),
            S(e) => e,
        };
        for (k, x) in st.fixed.iter().rev() {
            if *k == e {
                return Ok(*x);
            }
        }
        self.stats.concretizations += 1;
        let mut alts = vec![];
        if let Some(var) = self.x.one(e) {
            let t = self.x.table1(e);
            let d = st.dom[var as usize];
            let mut groups: BTreeMap<u128, Set> = BTreeMap::new();
            for i in 0..256usize {
                if set_has(&d, i as u8) {
                    groups.entry(t[i]).or_insert([0; 4])[i >> 6] |= 1 << (i & 63);
                }
            }
            if groups.len() == 1 {
                return Ok(*groups.keys().next().unwrap());
            }
            let mv = t[st.model[var as usize] as usize];
            let ent = st.ent[var as usize];
            for (val, _set) in &groups {
                let q = match self.x.eq(w, v, C(*val)) {
                    S(q) => q,
                    C(1) => return Ok(*val),
                    C(_) => continue,
                };
                if *val == mv {
                    alts.push((q, *val, st.model.clone()));
                } else if !ent {
                    let mut m = (*st.model).clone();
                    m[var as usize] = set_first(&groups[val]);
                    alts.push((q, *val, Rc::new(m)));
                } else if let Some(m) = self.check(st, q, false)? {
                    alts.push((q, *val, m));
                }
            }
        } else {
            let mut model = st.model.clone();
            let mut ex: Sc = C(1);
            loop {
                let val = self.x.eval(e, &model);
                let q = match self.x.eq(w, v, C(val)) {
                    S(q) => q,
                    C(1) => return Ok(val),
                    C(_) => return Err(Stop::Error("conc: inconsistent".into())),
                };
                alts.push((q, val, model.clone()));
                let nq = self.x.not1(S(q));
                ex = self.x.bin(Op::And, 1, ex, nq);
                if alts.len() > 20000 {
                    return Err(Stop::Error("more than 20000 values while concretizing an address/size".into()));
                }
                match ex {
                    C(0) => break,
                    C(_) => return Err(Stop::Error("conc: value not excluded".into())),
                    S(xe) => match self.check(st, xe, false)? {
                        Some(m) => model = m,
                        None => break,
                    },
                }
            }
        }
        if alts.len() == 1 {
            return Ok(alts[0].1);
        }
        Err(Stop::Fork(alts))
    }
    fn conc64(&mut self, st: &State, v: Sc) -> R<u64> {
        Ok(self.conc(st, v, 64)? as u64)
    }

    // ------------------------------------------------------------ memory
    fn const_bytes(c: &Const, ty: &Ty, out: &mut [u8]) {
        match c {
            Const::Undef | Const::Zero => {}
            Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Const::Int(v) => {
                let n = (ty.size() as usize).min(16);
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Const::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let o = ty.elem_off(i as u64) as usize;
                    Self::const_bytes(x, ty.elem(i), &mut out[o..]);
                }
            }
        }
    }
    fn base_global(&mut self, i: usize) -> Rc<Obj> {
        if let Some(o) = &self.base_gl[i] {
            return o.clone();
        }
        let c = self.m.global_init(i);
        let ty = self.m.globals[i].ty.clone();
        let mut data = vec![0u8; ty.size() as usize];
        Self::const_bytes(&c, &ty, &mut data);
        let o = Rc::new(Obj { data, sym: BTreeMap::new() });
        self.base_gl[i] = Some(o.clone());
        o
    }
    fn oob(&self, what: &str, a: u64, n: u64) -> Stop {
        Stop::Violation("memory".into(), format!("invalid {} of {} bytes at {:#x}", what, n, a))
    }
    /// (kind, index, offset)
    fn find(&mut self, st: &State, a: u64, n: u64, what: &str) -> R<(u8, usize, usize)> {
        if a >= STACK_BASE {
            let p = st.stack.partition_point(|o| o.0 <= a);
            if p > 0 {
                let o = &st.stack[p - 1];
                if a + n <= o.0 + o.1 {
                    return Ok((0, p - 1, (a - o.0) as usize));
                }
            }
        } else if a >= HEAP_BASE {
            let p = st.heap.partition_point(|o| o.0 <= a);
            if p > 0 {
                let o = &st.heap[p - 1];
                if o.2.is_some() && a + n <= o.0 + o.1 {
                    return Ok((1, p - 1, (a - o.0) as usize));
                }
                if o.2.is_none() && a < o.0 + o.1 {
                    return Err(Stop::Violation("memory".into(), format!("{} of freed memory", what)));
                }
            }
        } else if a >= GL_BASE {
            let p = self.m.globals.partition_point(|g| g.addr <= a);
            if p > 0 {
                let g = &self.m.globals[p - 1];
                if a + n <= g.addr + g.ty.size() {
                    return Ok((2, p - 1, (a - g.addr) as usize));
                }
            }
        }
        Err(self.oob(what, a, n))
    }
    fn obj(&mut self, st: &State, k: (u8, usize, usize)) -> Rc<Obj> {
        match k.0 {
            0 => st.stack[k.1].2.clone(),
            1 => st.heap[k.1].2.clone().unwrap(),
            _ => {
                if let Some(o) = st.gl.get(&(k.1 as u32)) {
                    o.clone()
                } else {
                    self.base_global(k.1)
                }
            }
        }
    }
    fn with_obj_mut<T>(&mut self, st: &mut State, k: (u8, usize, usize), f: impl FnOnce(&mut Obj) -> T) -> R<T> {
        Ok(match k.0 {
            0 => f(Rc::make_mut(&mut st.stack[k.1].2)),
            1 => f(Rc::make_mut(st.heap[k.1].2.as_mut().unwrap())),
            _ => {
                if self.m.globals[k.1].is_const {
                    return Err(Stop::Violation("memory".into(), "write to constant".into()));
                }
                if !st.gl.contains_key(&(k.1 as u32)) {
                    let o = self.base_global(k.1);
                    st.gl.insert(k.1 as u32, o);
                }
                f(Rc::make_mut(st.gl.get_mut(&(k.1 as u32)).unwrap()))
            }
        })
    }
    fn byte(&self, o: &Obj, i: usize) -> Sc {
        if !o.sym.is_empty() {
            if let Some(e) = o.sym.get(&(i as u32)) {
                return S(*e);
            }
        }
        C(o.data[i] as u128)
    }
    fn read_int(&mut self, o: &Obj, off: usize, n: usize, w: u32) -> Sc {
        let conc = o.sym.is_empty() || o.sym.range(off as u32..(off + n) as u32).next().is_none();
        if conc {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return C(u128::from_le_bytes(b) & mask(w));
        }
        let mut acc = self.byte(o, off);
        for i in 1..n {
            let b = self.byte(o, off + i);
            acc = self.x.concat(b, 8, acc, 8 * i as u32);
        }
        self.x.extract(acc, 8 * n as u32, 0, w)
    }
    fn load_from(&mut self, o: &Obj, off: usize, ty: &Ty) -> Val {
        match ty {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let n = ty.nelem();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    v.push(self.load_from(o, off + ty.elem_off(i as u64) as usize, ty.elem(i)));
                }
                Val::A(Rc::new(v))
            }
            _ => {
                let w = ty.width();
                let n = ((w + 7) / 8) as usize;
                Val::X(self.read_int(o, off, n, w))
            }
        }
    }
    fn store_to(&mut self, o: &mut Obj, off: usize, ty: &Ty, v: &Val) {
        match (ty, v) {
            (Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..), Val::A(vs)) => {
                for i in 0..ty.nelem() {
                    self.store_to(o, off + ty.elem_off(i as u64) as usize, ty.elem(i), &vs[i]);
                }
            }
            (_, Val::U) => {}
            (_, Val::X(s)) => {
                let w = ty.width();
                let n = ((w + 7) / 8) as usize;
                let bw = 8 * n as u32;
                let s = self.x.zext(*s, w, bw);
                match s {
                    C(k) => {
                        o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                        if !o.sym.is_empty() {
                            for i in 0..n {
                                o.sym.remove(&((off + i) as u32));
                            }
                        }
                    }
                    S(_) => {
                        for i in 0..n {
                            let b = self.x.extract(s, bw, 8 * i as u32, 8);
                            match b {
                                C(k) => {
                                    o.data[off + i] = k as u8;
                                    o.sym.remove(&((off + i) as u32));
                                }
                                S(e) => {
                                    o.sym.insert((off + i) as u32, e);
                                }
                            }
                        }
                    }
                }
            }
            _ => panic!("store type mismatch"),
        }
    }
    fn load(&mut self, st: &State, p: Sc, ty: &Ty) -> R<Val> {
        let n = ty.store_size();
        if let S(e) = p {
            // table read when the address depends on one byte only
            if !ty.is_agg() {
                if let Some(var) = self.x.one(e) {
                    let t = self.x.table1(e);
                    let d = st.dom[var as usize];
                    let w = ty.width();
                    let mut out = vec![0u128; 256];
                    let mut ok = true;
                    let mut base: Option<(u8, usize)> = None;
                    let mut last: Option<(u8, usize, Rc<Obj>)> = None;
                    for i in 0..256usize {
                        if !set_has(&d, i as u8) {
                            continue;
                        }
                        let k = match self.find(st, t[i] as u64, n, "load") {
                            Ok(k) => k,
                            Err(_) => {
                                ok = false;
                                break;
                            }
                        };
                        if base.is_none() {
                            base = Some((k.0, k.1));
                        }
                        if last.as_ref().map(|l| (l.0, l.1)) != Some((k.0, k.1)) {
                            let o = self.obj(st, k);
                            last = Some((k.0, k.1, o));
                        }
                        let o = last.as_ref().unwrap().2.clone();
                        match self.read_int(&o, k.2, n as usize, w) {
                            C(v) => out[i] = v,
                            S(_) => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        // values outside the current domain are irrelevant on this path
                        let first = (0..256).find(|i| set_has(&d, *i as u8)).unwrap();
                        for i in 0..256usize {
                            if !set_has(&d, i as u8) {
                                out[i] = out[first];
                            }
                        }
                        return Ok(Val::X(self.x.tab(var, w, out)));
                    }
                }
            }
        }
        let a = self.conc64(st, p)?;
        let k = self.find(st, a, n, "load")?;
        let o = self.obj(st, k);
        Ok(self.load_from(&o, k.2, ty))
    }
    fn store(&mut self, st: &mut State, p: Sc, ty: &Ty, v: &Val) -> R<()> {
        let a = self.conc64(st, p)?;
        let k = self.find(st, a, ty.store_size(), "store")?;
        // fast path: scalar concrete
        if let (Val::X(C(c)), false) = (v, ty.is_agg()) {
            let n = ((ty.width() + 7) / 8) as usize;
            let c = *c;
            return self.with_obj_mut(st, k, |o| {
                o.data[k.2..k.2 + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym.remove(&((k.2 + i) as u32));
                    }
                }
            });
        }
        // take the object out to avoid borrowing self twice
        let mut tmp = Obj { data: vec![], sym: BTreeMap::new() };
        self.with_obj_mut(st, k, |o| std::mem::swap(o, &mut tmp))?;
        self.store_to(&mut tmp, k.2, ty, v);
        self.with_obj_mut(st, k, |o| std::mem::swap(o, &mut tmp))?;
        Ok(())
    }
    fn bytes_at(&mut self, st: &State, a: u64, n: u64) -> R<Vec<Sc>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let k = self.find(st, a, n, "load")?;
        let o = self.obj(st, k);
        Ok((0..n as usize).map(|i| self.byte(&o, k.2 + i)).collect())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let ks = self.find(st, s, n, "load")?;
        let kd = self.find(st, d, n, "store")?;
        let so = self.obj(st, ks);
        let n = n as usize;
        let sym: Vec<(u32, E)> = if so.sym.is_empty() {
            vec![]
        } else {
            so.sym.range(ks.2 as u32..(ks.2 + n) as u32).map(|(k, v)| (k - ks.2 as u32, *v)).collect()
        };
        let data = so.data[ks.2..ks.2 + n].to_vec();
        drop(so);
        self.with_obj_mut(st, kd, |o| {
            o.data[kd.2..kd.2 + n].copy_from_slice(&data);
            if !o.sym.is_empty() {
                let rm: Vec<u32> = o.sym.range(kd.2 as u32..(kd.2 + n) as u32).map(|(k, _)| *k).collect();
                for r in rm {
                    o.sym.remove(&r);
                }
            }
            for (i, e) in sym {
                o.sym.insert(kd.2 as u32 + i, e);
            }
        })
    }
    fn memset(&mut self, st: &mut State, d: u64, v: Sc, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let kd = self.find(st, d, n, "store")?;
        let n = n as usize;
        self.with_obj_mut(st, kd, |o| match v {
            C(b) => {
                for i in 0..n {
                    o.data[kd.2 + i] = b as u8;
                }
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym.remove(&((kd.2 + i) as u32));
                    }
                }
            }
            S(e) => {
                for i in 0..n {
                    o.sym.insert((kd.2 + i) as u32, e);
                }
            }
        })
    }
    fn malloc(&mut self, st: &mut State, n: u64, align: u64) -> u64 {
        if n > 1 << 28 {
            // an allocation of more than 256 MiB fails
            return 0;
        }
        let al = align.max(16);
        let a = (st.heap_next + al - 1) / al * al;
        st.heap_next = a + n.max(1) + 32;
        st.heap.push((a, n, Some(Rc::new(Obj { data: vec![0; n as usize], sym: BTreeMap::new() }))));
        st.live_alloc += n;
        st.peak_alloc = st.peak_alloc.max(st.live_alloc);
        a
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let p = st.heap.partition_point(|o| o.0 <= a);
        if p > 0 && st.heap[p - 1].0 == a {
            if st.heap[p - 1].2.is_none() {
                return Err(Stop::Violation("memory".into(), "double free".into()));
            }
            st.live_alloc -= st.heap[p - 1].1;
            st.heap[p - 1].2 = None;
            // drop tombstones at the end of the heap vector is unsafe for
            // use-after-free detection, so they stay
            return Ok(());
        }
        Err(Stop::Violation("memory".into(), format!("free of invalid pointer {:#x}", a)))
    }

    // ------------------------------------------------------------ values
    fn from_const(&self, c: &Const, ty: Option<&Ty>) -> Val {
        match c {
            Const::Int(v) => Val::X(C(*v)),
            Const::Undef => Val::U,
            Const::Zero => match ty {
                Some(t) if t.is_agg() => Val::A(Rc::new((0..t.nelem()).map(|i| self.from_const(c, Some(t.elem(i)))).collect())),
                _ => Val::X(C(0)),
            },
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::X(C(*x as u128))).collect())),
            Const::Agg(v) => Val::A(Rc::new(
                v.iter().enumerate().map(|(i, x)| self.from_const(x, ty.map(|t| t.elem(i)))).collect(),
            )),
        }
    }
    #[inline]
    fn val(&self, st: &State, o: &Opd, ty: Option<&Ty>) -> Val {
        match o {
            Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(Const::Int(v)) => Val::X(C(*v)),
            Opd::K(c) => self.from_const(c, ty),
        }
    }
    #[inline]
    fn sc(&self, st: &State, o: &Opd) -> Sc {
        match o {
            Opd::Reg(r) => match &st.frames.last().unwrap().regs[*r as usize] {
                Val::X(s) => *s,
                Val::U => C(0),
                Val::A(_) => panic!("scalar expected"),
            },
            Opd::K(Const::Int(v)) => C(*v),
            Opd::K(_) => C(0),
        }
    }
    fn expand(&self, v: Val, ty: &Ty) -> Val {
        match v {
            Val::U if ty.is_agg() => Val::A(Rc::new((0..ty.nelem()).map(|_| Val::U).collect())),
            v => v,
        }
    }
    fn vsc(v: &Val) -> Sc {
        match v {
            Val::X(s) => *s,
            Val::U => C(0),
            Val::A(_) => panic!("scalar expected"),
        }
    }
    fn binop(&mut self, st: &State, op: BinOp, w: u32, a: Sc, b: Sc) -> R<Sc> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            _ => {
                let (p, q) = (fget(self.conc(st, a, w)?, w)?, fget(self.conc(st, b, w)?, w)?);
                let r = if w == 32 {
                    let (p, q) = (p as f32, q as f32);
                    (match op {
                        BinOp::FAdd => p + q,
                        BinOp::FSub => p - q,
                        BinOp::FMul => p * q,
                        _ => p / q,
                    }) as f64
                } else {
                    match op {
                        BinOp::FAdd => p + q,
                        BinOp::FSub => p - q,
                        BinOp::FMul => p * q,
                        _ => p / q,
                    }
                };
                return Ok(C(fput(r, w)));
            }
        };
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && b == C(0) {
            return Err(Stop::Violation("ub".into(), "division by zero".into()));
        }
        let _ = st;
        Ok(self.x.bin(o, w, a, b))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: Sc, b: Sc) -> Sc {
        let x = &mut self.x;
        match p {
            Pred::Eq => x.eq(w, a, b),
            Pred::Ne => {
                let e = x.eq(w, a, b);
                x.not1(e)
            }
            Pred::Ult => x.ult(w, a, b),
            Pred::Ugt => x.ult(w, b, a),
            Pred::Ule => {
                let e = x.ult(w, b, a);
                x.not1(e)
            }
            Pred::Uge => {
                let e = x.ult(w, a, b);
                x.not1(e)
            }
            Pred::Slt => x.slt(w, a, b),
            Pred::Sgt => x.slt(w, b, a),
            Pred::Sle => {
                let e = x.slt(w, b, a);
                x.not1(e)
            }
            Pred::Sge => {
                let e = x.slt(w, a, b);
                x.not1(e)
            }
        }
    }
    fn ite_val(&mut self, c: Sc, a: &Val, b: &Val, ty: &Ty) -> Val {
        match (a, b) {
            (Val::U, v) | (v, Val::U) => v.clone(),
            (Val::X(p), Val::X(q)) => Val::X(self.x.ite(c, *p, *q, ty.width())),
            (Val::A(p), Val::A(q)) => {
                let mut o = Vec::with_capacity(p.len());
                for i in 0..p.len() {
                    o.push(self.ite_val(c, &p[i], &q[i], ty.elem(i)));
                }
                Val::A(Rc::new(o))
            }
            _ => panic!("select mismatch"),
        }
    }

    // ------------------------------------------------------------ run
    pub fn run(&mut self, harness: &str) -> Result<(), String> {
        let fid = *self.m.fidx.get(harness).ok_or_else(|| format!("harness {} not found", harness))?;
        let f = self.m.func(fid);
        let mut st = State {
            frames: vec![],
            heap: vec![],
            heap_next: HEAP_BASE,
            stack: vec![],
            stack_next: STACK_BASE,
            gl: HashMap::with_hasher(FxB),
            dom: Rc::new(vec![]),
            ent: Rc::new(vec![]),
            multi: Rc::new(vec![]),
            model: Rc::new(vec![]),
            fixed: Rc::new(vec![]),
            nvars: 0,
            obs: vec![],
            steps: 0,
            live_alloc: 0,
            peak_alloc: 0,
            depth: 0,
        };
        st.frames.push(Frame {
            regs: vec![Val::U; f.nregs as usize],
            f,
            fid,
            blk: 0,
            pc: 0,
            ret_dst: u32::MAX,
            ret_next: None,
            stack_n: 0,
            stack_a: STACK_BASE,
        });
        self.mark(fid, 0);
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            self.stats.paths += 1;
            self.run_path(st);
            if self.error.is_some() {
                break;
            }
            if self.violations.len() >= self.max_viol {
                break;
            }
            if std::time::Instant::now() > self.deadline {
                self.timed_out = true;
                break;
            }
        }
        Ok(())
    }
    fn mark(&mut self, fid: u32, blk: u32) {
        let f = &self.m.funcs[fid as usize];
        let n = f.parsed.as_ref().map(|f| f.blocks.len()).unwrap_or(0);
        let v = self.exec_blocks.entry(fid).or_insert_with(|| vec![false; n]);
        v[blk as usize] = true;
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| self.m.funcs[f.fid as usize].demangled.clone()).collect()
    }
    /// source position of a frame's current instruction, with what it was inlined into
    fn position(&mut self, f: &Frame) -> String {
        let mut id = f.f.blocks[f.blk as usize].insts.get(f.pc as usize).map(|i| i.dbg).unwrap_or(0);
        let mut out = String::new();
        for _ in 0..24 {
            if id == 0 {
                break;
            }
            let t = self.meta_text(id).to_string();
            let line = Self::meta_field(&t, "line").unwrap_or("0").to_string();
            let mut sc = Self::meta_ref(&t, "scope").unwrap_or(0);
            let mut file = String::new();
            for _ in 0..40 {
                if sc == 0 {
                    break;
                }
                let st = self.meta_text(sc).to_string();
                if let Some(fr) = Self::meta_ref(&st, "file") {
                    let ft = self.meta_text(fr).to_string();
                    file = Self::meta_field(&ft, "filename").unwrap_or("").to_string();
                    break;
                }
                sc = Self::meta_ref(&st, "scope").unwrap_or(0);
            }
            if !out.is_empty() {
                out.push_str(" < ");
            }
            out.push_str(&format!("{}:{}", file, line));
            id = Self::meta_ref(&t, "inlinedAt").unwrap_or(0);
        }
        out
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str, model: &[u8]) {
        let mut stack = self.stack_names(st);
        if let Some(f) = st.frames.last() {
            let p = self.position(&f.clone());
            stack.insert(1.min(stack.len()), format!("at {}", p));
        }
        if self.violations.iter().any(|v| v.kind == kind && v.msg == msg && v.stack.first() == stack.first()) {
            return;
        }
        self.violations.push(Violation {
            kind: kind.to_string(),
            msg: msg.to_string(),
            input: model[..st.nvars.min(model.len())].to_vec(),
            stack,
        });
    }
    fn run_path(&mut self, mut st: State) {
        let mut n = 0u64;
        loop {
            match self.step(&mut st) {
                Ok(()) => {
                    n += 1;
                    if n & 0xfff == 0 {
                        if st.steps > self.max_steps {
                            let m = st.model.clone();
                            self.violation(&st, "hang", &format!("no termination within {} instructions", self.max_steps), &m);
                            break;
                        }
                        if n & 0xffff == 0 && std::time::Instant::now() > self.deadline {
                            self.timed_out = true;
                            break;
                        }
                    }
                }
                Err(Stop::Done) => {
                    self.stats.completed += 1;
                    // the first paths and then one in sixty-four: z3 confirms that some input takes this path
                    if self.xcheck && !st.dom.is_empty() && (self.stats.completed <= 100 || self.stats.completed % 64 == 0) {
                        let vs: Vec<u16> = (0..st.dom.len() as u16).collect();
                        let doms: Vec<(u16, Set)> = vs.iter().map(|v| (*v, st.dom[*v as usize])).collect();
                        self.stats.path_checks += 1;
                        if let Res::Unsat = self.z.check(&self.x, &st.multi, &doms, &vs) {
                            self.error = Some("an explored path is infeasible".into());
                        }
                    }
                    self.sample(&st);
                    break;
                }
                Err(Stop::Pruned) => {
                    self.stats.assume_pruned += 1;
                    break;
                }
                Err(Stop::Violation(k, m)) => {
                    let model = st.model.clone();
                    self.violation(&st, &k, &m, &model);
                    break;
                }
                Err(Stop::Error(e)) => {
                    let s = self.stack_names(&st);
                    self.error = Some(format!("{} in {:?}", e, &s[..s.len().min(6)]));
                    break;
                }
                Err(Stop::Fork(alts)) => {
                    self.stats.forks += alts.len() as u64 - 1;
                    // `fixed` records the pinned value under the expression that was asked for
                    let key = self.fork_key.take();
                    for (q, v, m) in alts {
                        let mut s = st.clone();
                        self.add(&mut s, q, m);
                        if let Some(k) = key {
                            Rc::make_mut(&mut s.fixed).push((k, v));
                        }
                        self.work.push(s);
                    }
                    break;
                }
            }
        }
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
    }
    fn sample(&mut self, st: &State) {
        let k = self.stats.completed as usize;
        let slot = if self.samples.len() < self.nsamples {
            self.samples.len()
        } else {
            let r = (self.rand() % k as u64) as usize;
            if r >= self.nsamples {
                return;
            }
            r
        };
        let mut obs = vec![];
        for (o, _) in &st.obs {
            obs.push(match o {
                C(v) => *v as u64,
                S(e) => self.x.eval(*e, &st.model) as u64,
            });
        }
        let s = Sample { input: st.model[..st.nvars].to_vec(), obs };
        if slot == self.samples.len() {
            self.samples.push(s);
        } else {
            self.samples[slot] = s;
        }
    }

    /// decide a branch: a model for each feasible side
    fn branch(&mut self, st: &State, c: Sc) -> R<(Side, Side)> {
        let e = match c {
            C(_) => unreachable!(),
            S(e) => e,
        };
        let ne = match self.x.not1(c) {
            S(n) => n,
            C(k) => self.x.konst(1, k),
        };
        let t = self.check(st, e, false)?.map(|m| (e, m));
        let f = self.check(st, ne, false)?.map(|m| (ne, m));
        Ok((t, f))
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let p = &b.phis[0];
                let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = self.val(st, o, Some(&p.ty));
                st.frames.last_mut().unwrap().regs[p.dst as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for p in &b.phis {
                    let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                    vals.push(self.val(st, o, Some(&p.ty)));
                }
                let fr = st.frames.last_mut().unwrap();
                for (p, v) in b.phis.iter().zip(vals) {
                    fr.regs[p.dst as usize] = v;
                }
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.pc = 0;
        let fid = fr.fid;
        self.mark(fid, to);
    }
    fn set(&mut self, st: &mut State, dst: u32, v: Val) {
        let v = match v {
            Val::X(S(e)) => Val::X(self.specialise(st, e)),
            v => v,
        };
        let fr = st.frames.last_mut().unwrap();
        if dst != u32::MAX {
            fr.regs[dst as usize] = v;
        }
        fr.pc += 1;
    }
    /// an expression over several octets of which all but one have a single
    /// value left on this path is an expression over that one
    fn specialise(&mut self, st: &State, e: E) -> Sc {
        let sup = self.x.supp(e);
        if sup.len() < 2 || sup.len() > 8 {
            return S(e);
        }
        let mut asg: Vec<(u16, u8)> = vec![];
        for v in sup.iter() {
            let d = &st.dom[*v as usize];
            if set_count(d) == 1 {
                asg.push((*v, set_first(d)));
            }
        }
        if asg.len() == sup.len() {
            asg.pop();
        }
        if asg.is_empty() {
            return S(e);
        }
        self.x.subst(e, &asg)
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.blk as usize].insts[fr.pc as usize];
        st.steps += 1;
        self.stats.instrs += 1;
        self.fork_key = None;
        let dst = ins.dst;
        match &ins.inst {
            Inst::Bin { op, ty, a, b } => {
                let v = if let Ty::Vec(_, et) = ty {
                    let x = self.expand(self.val(st, a, Some(ty)), ty);
                    let y = self.expand(self.val(st, b, Some(ty)), ty);
                    if let (Val::A(p), Val::A(q)) = (x, y) {
                        let w = et.width();
                        let mut o = vec![];
                        for i in 0..p.len() {
                            o.push(Val::X(self.binop(st, *op, w, Self::vsc(&p[i]), Self::vsc(&q[i]))?));
                        }
                        Val::A(Rc::new(o))
                    } else {
                        unreachable!()
                    }
                } else {
                    let (x, y) = (self.sc(st, a), self.sc(st, b));
                    if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                        if let S(e) = y {
                            let z = self.x.eq(ty.width(), S(e), C(0));
                            if let S(ze) = z {
                                if let Some(m) = self.check(st, ze, false)? {
                                    st.model = m;
                                    return Err(Stop::Violation("ub".into(), "division by zero".into()));
                                }
                            }
                        }
                    }
                    Val::X(self.binop(st, *op, ty.width(), x, y)?)
                };
                self.set(st, dst, v);
            }
            Inst::Icmp { pred, ty, a, b } => {
                let v = if let Ty::Vec(_, et) = ty {
                    let x = self.expand(self.val(st, a, Some(ty)), ty);
                    let y = self.expand(self.val(st, b, Some(ty)), ty);
                    if let (Val::A(p), Val::A(q)) = (x, y) {
                        let w = et.width();
                        let mut o = vec![];
                        for i in 0..p.len() {
                            o.push(Val::X(self.icmp(*pred, w, Self::vsc(&p[i]), Self::vsc(&q[i]))));
                        }
                        Val::A(Rc::new(o))
                    } else {
                        unreachable!()
                    }
                } else {
                    let (x, y) = (self.sc(st, a), self.sc(st, b));
                    Val::X(self.icmp(*pred, ty.width(), x, y))
                };
                self.set(st, dst, v);
            }
            Inst::Fcmp { pred, ty, a, b } => {
                if ty.is_agg() {
                    return Err(Stop::Error("vector fcmp".into()));
                }
                let w = ty.width();
                let (x, y) = (self.sc(st, a), self.sc(st, b));
                let (x, y) = (fget(self.conc(st, x, w)?, w)?, fget(self.conc(st, y, w)?, w)?);
                let un = x.is_nan() || y.is_nan();
                let r = match pred.as_str() {
                    "false" => false,
                    "true" => true,
                    "ord" => !un,
                    "uno" => un,
                    p => {
                        let c = match &p[1..] {
                            "eq" => x == y,
                            "ne" => x != y && !un,
                            "gt" => x > y,
                            "ge" => x >= y,
                            "lt" => x < y,
                            _ => x <= y,
                        };
                        c || (un && p.starts_with('u'))
                    }
                };
                self.set(st, dst, Val::X(C(r as u128)));
            }
            Inst::Fneg { ty, a } => {
                if ty.is_agg() {
                    return Err(Stop::Error("vector fneg".into()));
                }
                let w = ty.width();
                let x = self.sc(st, a);
                let v = self.x.bin(Op::Xor, w, x, C(1u128 << (w - 1)));
                self.set(st, dst, Val::X(v));
            }
            Inst::Cast { op, from, to, a } => {
                let v = self.cast(st, *op, from, to, a)?;
                self.set(st, dst, v);
            }
            Inst::Select { cty, ty, c, a, b } => {
                let x = self.val(st, a, Some(ty));
                let y = self.val(st, b, Some(ty));
                let v = if let Ty::Vec(..) = cty {
                    let cv = self.expand(self.val(st, c, Some(cty)), cty);
                    let (x, y) = (self.expand(x, ty), self.expand(y, ty));
                    if let (Val::A(cv), Val::A(p), Val::A(q)) = (cv, x, y) {
                        let mut o = vec![];
                        for i in 0..p.len() {
                            o.push(self.ite_val(Self::vsc(&cv[i]), &p[i], &q[i], ty.elem(i)));
                        }
                        Val::A(Rc::new(o))
                    } else {
                        unreachable!()
                    }
                } else {
                    match self.sc(st, c) {
                        C(1) => x,
                        C(_) => y,
                        s => self.ite_val(s, &x, &y, ty),
                    }
                };
                self.set(st, dst, v);
            }
            Inst::Load { ty, p } => {
                let p = self.sc(st, p);
                let v = self.load_k(st, p, ty)?;
                self.set(st, dst, v);
            }
            Inst::Store { ty, v, p } => {
                let v = self.val(st, v, Some(ty));
                let p = self.sc(st, p);
                if let S(e) = p {
                    self.fork_key = Some(e);
                }
                self.store(st, p, ty, &v)?;
                self.set(st, dst, Val::U);
            }
            Inst::Alloca { size, align, count } => {
                let c = self.sc(st, count);
                let n = size * self.key_conc(st, c, 64)? as u64;
                let al = (*align).max(16);
                let a = (st.stack_next + al - 1) / al * al;
                st.stack_next = a + n.max(1) + 16;
                st.stack.push((a, n, Rc::new(Obj { data: vec![0; n as usize], sym: BTreeMap::new() })));
                if st.stack_next - STACK_BASE > (1 << 23) {
                    return Err(Stop::Violation("stack".into(), "stack overflow (8 MiB)".into()));
                }
                self.set(st, dst, Val::X(C(a as u128)));
            }
            Inst::Gep { base, off, terms } => {
                let mut p = self.sc(st, base);
                if let (C(v), true) = (p, terms.is_empty()) {
                    p = C((v as u64).wrapping_add(*off) as u128);
                } else {
                    if *off != 0 {
                        p = self.x.bin(Op::Add, 64, p, C(*off as u128));
                    }
                    for (o, s, w) in terms {
                        let i = self.sc(st, o);
                        let i = if *w < 64 { self.x.sext(i, *w, 64) } else { i };
                        let t = self.x.bin(Op::Mul, 64, i, C(*s as u128));
                        p = self.x.bin(Op::Add, 64, p, t);
                    }
                }
                self.set(st, dst, Val::X(p));
            }
            Inst::Call { callee, args, ret, next } => {
                self.call(st, dst, callee, args, ret, *next)?;
            }
            Inst::ExtractVal { a, idx } => {
                let mut v = self.val(st, a, None);
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        Val::U => Val::U,
                        Val::X(C(0)) => Val::X(C(0)),
                        Val::X(_) => panic!("extractvalue"),
                    };
                }
                self.set(st, dst, v);
            }
            Inst::InsertVal { ty, a, v, idx } => {
                let base = self.val(st, a, Some(ty));
                let nv = self.val(st, v, None);
                let r = self.insert(base, ty, idx, nv);
                self.set(st, dst, r);
            }
            Inst::ExtractElt { a, i } => {
                let i = self.sc(st, i);
                let i = self.key_conc(st, i, 64)? as usize;
                let v = match self.val(st, a, None) {
                    Val::A(x) => x[i].clone(),
                    _ => Val::U,
                };
                self.set(st, dst, v);
            }
            Inst::InsertElt { ty, a, v, i } => {
                let i = self.sc(st, i);
                let i = self.key_conc(st, i, 64)? as u32;
                let base = self.val(st, a, Some(ty));
                let nv = self.val(st, v, None);
                let r = self.insert(base, ty, &[i], nv);
                self.set(st, dst, r);
            }
            Inst::Shuffle { ty, a, b, mask } => {
                let x = self.expand(self.val(st, a, Some(ty)), ty);
                let y = self.expand(self.val(st, b, Some(ty)), ty);
                if let (Val::A(p), Val::A(q)) = (x, y) {
                    let n = p.len();
                    let o = mask
                        .iter()
                        .map(|k| match k {
                            None => Val::U,
                            Some(k) if (*k as usize) < n => p[*k as usize].clone(),
                            Some(k) => q[*k as usize - n].clone(),
                        })
                        .collect();
                    self.set(st, dst, Val::A(Rc::new(o)));
                } else {
                    return Err(Stop::Error("shuffle".into()));
                }
            }
            Inst::Freeze { a } => {
                let v = self.val(st, a, None);
                self.set(st, dst, v);
            }
            Inst::CmpXchg { ty, p, cmp, new } => {
                let p = self.sc(st, p);
                let a = self.key_conc(st, p, 64)?;
                let old = Self::vsc(&self.load(st, C(a), ty)?);
                let cmp = self.sc(st, cmp);
                let c = self.icmp(Pred::Eq, ty.width(), old, cmp);
                let c = self.key_conc(st, c, 1)?;
                if c == 1 {
                    let nv = Val::X(self.sc(st, new));
                    self.store(st, C(a), ty, &nv)?;
                }
                self.set(st, dst, Val::A(Rc::new(vec![Val::X(old), Val::X(C(c))])));
            }
            Inst::AtomicRmw { op, ty, p, v } => {
                let p = self.sc(st, p);
                let a = self.key_conc(st, p, 64)?;
                let old = Self::vsc(&self.load(st, C(a), ty)?);
                let v = self.sc(st, v);
                let w = ty.width();
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.x.bin(Op::Add, w, old, v),
                    "sub" => self.x.bin(Op::Sub, w, old, v),
                    "and" => self.x.bin(Op::And, w, old, v),
                    "or" => self.x.bin(Op::Or, w, old, v),
                    "xor" => self.x.bin(Op::Xor, w, old, v),
                    "umax" => {
                        let c = self.x.ult(w, old, v);
                        self.x.ite(c, v, old, w)
                    }
                    _ => return Err(Stop::Error(format!("atomicrmw {}", op))),
                };
                self.store(st, C(a), ty, &Val::X(nv))?;
                self.set(st, dst, Val::X(old));
            }
            Inst::Nop => self.set(st, u32::MAX, Val::U),
            Inst::Br(b) => self.jump(st, *b),
            Inst::CondBr(c, a, b) => {
                let c = self.sc(st, c);
                if let C(v) = c {
                    self.jump(st, if v == 1 { *a } else { *b });
                } else {
                    match self.branch(st, c)? {
                        (Some((e, tm)), Some((ne, fm))) => {
                            self.stats.forks += 1;
                            let mut s2 = st.clone();
                            self.add(&mut s2, ne, fm);
                            self.jump(&mut s2, *b);
                            self.work.push(s2);
                            self.add(st, e, tm);
                            self.jump(st, *a);
                        }
                        (Some(_), None) => self.jump(st, *a),
                        (None, Some(_)) => self.jump(st, *b),
                        (None, None) => return Err(Stop::Error("branch: no feasible side".into())),
                    }
                }
            }
            Inst::Switch { ty, v, def, cases } => {
                let w = ty.width();
                match self.sc(st, v) {
                    C(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    s => {
                        // group by target
                        let mut tg: Vec<(u32, Sc)> = vec![];
                        let mut any = C(0);
                        for (k, b) in cases {
                            let e = self.x.eq(w, s, C(*k));
                            if e == C(0) {
                                continue;
                            }
                            any = self.x.bin(Op::Or, 1, any, e);
                            if let Some(p) = tg.iter_mut().find(|p| p.0 == *b) {
                                p.1 = self.x.bin(Op::Or, 1, p.1, e);
                            } else {
                                tg.push((*b, e));
                            }
                        }
                        let dflt = self.x.not1(any);
                        if let Some(p) = tg.iter_mut().find(|p| p.0 == *def) {
                            p.1 = self.x.bin(Op::Or, 1, p.1, dflt);
                        } else {
                            tg.push((*def, dflt));
                        }
                        let mut feas: Vec<(u32, Option<E>, Rc<Vec<u8>>)> = vec![];
                        for (b, c) in tg {
                            match c {
                                C(0) => {}
                                C(_) => feas.push((b, None, st.model.clone())),
                                S(e) => {
                                    if let Some(m) = self.check(st, e, false)? {
                                        feas.push((b, Some(e), m));
                                    }
                                }
                            }
                        }
                        if feas.is_empty() {
                            return Err(Stop::Error("switch: no feasible target".into()));
                        }
                        self.stats.forks += feas.len() as u64 - 1;
                        let single = feas.len() == 1;
                        let last = feas.pop().unwrap();
                        for (b, e, m) in feas {
                            let mut s2 = st.clone();
                            if let Some(e) = e {
                                self.add(&mut s2, e, m);
                            }
                            self.jump(&mut s2, b);
                            self.work.push(s2);
                        }
                        if !single {
                            if let Some(e) = last.1 {
                                self.add(st, e, last.2);
                            }
                        }
                        self.jump(st, last.0);
                    }
                }
            }
            Inst::Ret(v) => {
                let rv = v.as_ref().map(|(t, o)| self.val(st, o, Some(t))).unwrap_or(Val::U);
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.stack_n);
                st.stack_next = fr.stack_a;
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let pf = st.frames.last_mut().unwrap();
                if fr.ret_dst != u32::MAX {
                    pf.regs[fr.ret_dst as usize] = rv;
                }
                match fr.ret_next {
                    Some(b) => self.jump(st, b),
                    None => pf.pc += 1,
                }
            }
            Inst::Unreachable => return Err(Stop::Violation("ub".into(), "unreachable code reached".into())),
            Inst::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction: {}", s))),
        }
        Ok(())
    }
    fn load_k(&mut self, st: &State, p: Sc, ty: &Ty) -> R<Val> {
        if let S(e) = p {
            self.fork_key = Some(e);
        }
        self.load(st, p, ty)
    }
    fn key_conc(&mut self, st: &State, v: Sc, w: u32) -> R<u128> {
        if let S(e) = v {
            self.fork_key = Some(e);
        }
        self.conc(st, v, w)
    }
    fn insert(&self, base: Val, ty: &Ty, idx: &[u32], nv: Val) -> Val {
        if idx.is_empty() {
            return nv;
        }
        let base = match base {
            Val::X(C(0)) => Val::U,
            b => b,
        };
        match self.expand(base, ty) {
            Val::A(mut v) => {
                let i = idx[0] as usize;
                let old = v[i].clone();
                let n = self.insert(old, ty.elem(i), &idx[1..], nv);
                Rc::make_mut(&mut v)[i] = n;
                Val::A(v)
            }
            _ => panic!("insertvalue"),
        }
    }
    fn to_bits(&mut self, v: &Val, ty: &Ty) -> Sc {
        match v {
            Val::X(s) => *s,
            Val::U => C(0),
            Val::A(x) => {
                let et = ty.elem(0).clone();
                let w = et.width();
                let mut acc = Self::vsc(&x[0]);
                for i in 1..x.len() {
                    acc = self.x.concat(Self::vsc(&x[i]), w, acc, w * i as u32);
                }
                acc
            }
        }
    }
    fn cast(&mut self, st: &State, op: CastOp, from: &Ty, to: &Ty, a: &Opd) -> R<Val> {
        if op == CastOp::BitCast {
            let v = self.val(st, a, Some(from));
            let bits = from.bits() as u32;
            if bits > 128 {
                return Err(Stop::Error("bitcast > 128".into()));
            }
            let s = self.to_bits(&v, from);
            return Ok(match to {
                Ty::Vec(n, et) => {
                    let w = et.width();
                    let mut o = vec![];
                    for i in 0..*n {
                        o.push(Val::X(self.x.extract(s, bits, w * i as u32, w)));
                    }
                    Val::A(Rc::new(o))
                }
                _ => Val::X(s),
            });
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (from, to) {
            let v = self.expand(self.val(st, a, Some(from)), from);
            if let Val::A(x) = v {
                let mut o = vec![];
                for e in x.iter() {
                    o.push(Val::X(self.cast1(st, op, fe.width(), te.width(), Self::vsc(e))?));
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        let s = self.sc(st, a);
        Ok(Val::X(self.cast1(st, op, from.width(), to.width(), s)?))
    }
    fn cast1(&mut self, st: &State, op: CastOp, fw: u32, tw: u32, s: Sc) -> R<Sc> {
        Ok(match op {
            CastOp::Trunc => self.x.extract(s, fw, 0, tw),
            CastOp::ZExt => self.x.zext(s, fw, tw),
            CastOp::SExt => self.x.sext(s, fw, tw),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if fw == tw {
                    s
                } else if fw < tw {
                    self.x.zext(s, fw, tw)
                } else {
                    self.x.extract(s, fw, 0, tw)
                }
            }
            CastOp::UiToFp => {
                let v = self.conc(st, s, fw)? & mask(fw);
                C(if tw == 32 { (v as f32).to_bits() as u128 } else { fput(v as f64, tw) })
            }
            CastOp::SiToFp => {
                let v = crate::ll::sext(self.conc(st, s, fw)? & mask(fw), fw);
                C(if tw == 32 { (v as f32).to_bits() as u128 } else { fput(v as f64, tw) })
            }
            CastOp::FpToUi => C(ftou(fget(self.conc(st, s, fw)?, fw)?, tw)),
            CastOp::FpToSi => C(ftos(fget(self.conc(st, s, fw)?, fw)?, tw)),
            CastOp::FpConv => C(fput(fget(self.conc(st, s, fw)?, fw)?, tw)),
            _ => return Err(Stop::Error("cast".into())),
        })
    }

    // ------------------------------------------------------------ calls
    fn call(&mut self, st: &mut State, dst: u32, callee: &Callee, args: &[(Ty, Opd)], ret: &Ty, next: Option<u32>) -> R<()> {
        let fid = match callee {
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let p = self.sc(st, o);
                let a = self.key_conc(st, p, 64)? as u64;
                if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(Stop::Violation("memory".into(), format!("call of invalid function pointer {:#x}", a)));
                }
                ((a - FN_BASE) / 16) as u32
            }
        };
        if let Some(x) = self.ext[fid as usize] {
            let v = self.external(st, x, fid, args, ret)?;
            let fr = st.frames.last_mut().unwrap();
            if dst != u32::MAX {
                fr.regs[dst as usize] = v;
            }
            match next {
                Some(b) => self.jump(st, b),
                None => fr.pc += 1,
            }
            return Ok(());
        }
        let f = self.m.func(fid);
        let hash = self.m.funcs[fid as usize].name.contains("BuildHasher8hash_one");
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, (t, o)) in args.iter().enumerate() {
            if i < f.params.len() {
                let mut v = self.val(st, o, Some(t));
                if hash {
                    // a hash of a symbolic key helps nobody: one path per key
                    if let Val::X(s @ S(_)) = v {
                        v = Val::X(C(self.key_conc(st, s, t.width())?));
                    }
                }
                regs[f.params[i] as usize] = v;
            }
        }
        if st.frames.len() > 3000 {
            return Err(Stop::Violation("stack".into(), "call depth above 3000".into()));
        }
        let (sn, sa) = (st.stack.len(), st.stack_next);
        st.frames.push(Frame {
            f,
            fid,
            regs,
            blk: 0,
            pc: 0,
            ret_dst: dst,
            ret_next: next,
            stack_n: sn,
            stack_a: sa,
        });
        self.mark(fid, 0);
        Ok(())
    }
    fn str_at(&mut self, st: &State, p: Sc, n: Sc) -> String {
        if let (Some(a), Some(n)) = (c64(p), c64(n)) {
            if n < 400 {
                if let Ok(b) = self.bytes_at(st, a, n) {
                    let v: Vec<u8> = b
                        .iter()
                        .map(|x| match x {
                            C(v) => *v as u8,
                            _ => b'?',
                        })
                        .collect();
                    return String::from_utf8_lossy(&v).into_owned();
                }
            }
        }
        String::new()
    }
    fn panic_info(&mut self, st: &State, args: &[Sc]) -> String {
        let mut out = String::new();
        // Location { file ptr, file len, line u32, col u32 } is the last pointer argument
        for a in args.iter().rev() {
            if let Some(p) = c64(*a) {
                if p >= GL_BASE && p < HEAP_BASE {
                    if let Ok(b) = self.bytes_at(st, p, 24) {
                        let mut raw = [0u8; 24];
                        let mut ok = true;
                        for (i, x) in b.iter().enumerate() {
                            match x {
                                C(v) => raw[i] = *v as u8,
                                _ => ok = false,
                            }
                        }
                        if !ok {
                            continue;
                        }
                        let fp = u64::from_le_bytes(raw[0..8].try_into().unwrap());
                        let fl = u64::from_le_bytes(raw[8..16].try_into().unwrap());
                        let line = u32::from_le_bytes(raw[16..20].try_into().unwrap());
                        let file = self.str_at(st, C(fp as u128), C(fl as u128));
                        if file.contains(".rs") {
                            out = format!("{}:{}", file.trim_end_matches('\0'), line);
                            break;
                        }
                    }
                }
            }
        }
        if args.len() >= 2 {
            let s = self.str_at(st, args[0], args[1]);
            if !s.is_empty() && s.is_ascii() && !s.contains('\0') {
                out = format!("{} at {}", s, out);
            }
        }
        out
    }
    fn external(&mut self, st: &mut State, x: Ext, fid: u32, args: &[(Ty, Opd)], ret: &Ty) -> R<Val> {
        let av: Vec<Val> = args.iter().map(|(t, o)| self.val(st, o, Some(t))).collect();
        self.external_v(st, x, fid, args, av, ret)
    }
    fn external_v(&mut self, st: &mut State, x: Ext, fid: u32, args: &[(Ty, Opd)], av: Vec<Val>, ret: &Ty) -> R<Val> {
        let s = |i: usize| -> Sc { Self::vsc(&av[i]) };
        let rw = |t: &Ty| -> u32 { t.width() };
        macro_rules! k64 {
            ($i:expr) => {
                self.key_conc(st, s($i), args[$i].0.width())? as u64
            };
        }
        // elementwise vector intrinsics
        if let Ty::Vec(n, et) = ret {
            if !matches!(x, Ext::None) && av.iter().any(|v| matches!(v, Val::A(_))) {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let mut a2 = vec![];
                    let mut v2 = vec![];
                    for (k, v) in av.iter().enumerate() {
                        let t = if let Ty::Vec(_, t) = &args[k].0 { (**t).clone() } else { args[k].0.clone() };
                        match v {
                            Val::A(e) => v2.push(e[i].clone()),
                            v => v2.push(v.clone()),
                        }
                        a2.push((t, args[k].1.clone()));
                    }
                    out.push(self.external_v(st, x, fid, &a2, v2, et)?);
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        Ok(match x {
            Ext::None => unreachable!(),
            Ext::Unknown => {
                let n = self.m.funcs[fid as usize].name.clone();
                return Err(Stop::Error(format!("call of unmodelled external {}", n)));
            }
            Ext::Panic => {
                let sc: Vec<Sc> = av.iter().map(|v| match v { Val::X(s) => *s, _ => C(0) }).collect();
                let i = self.panic_info(st, &sc);
                let d = self.m.funcs[fid as usize].demangled.clone();
                return Err(Stop::Violation("panic".into(), format!("{} {}", d, i)));
            }
            Ext::Abort | Ext::Trap => return Err(Stop::Violation("panic".into(), "abort".into())),
            Ext::SymBytes => {
                let p = k64!(0);
                let n = k64!(1);
                let k = if n > 0 { Some(self.find(st, p, n, "store")?) } else { None };
                let v0 = st.nvars;
                let mut es = vec![];
                for i in 0..n as usize {
                    es.push(self.x.var(v0 + i));
                }
                st.nvars += n as usize;
                Rc::make_mut(&mut st.dom).resize(st.nvars, FULL);
                Rc::make_mut(&mut st.ent).resize(st.nvars, false);
                Rc::make_mut(&mut st.model).resize(st.nvars, 0);
                if let Some(k) = k {
                    self.with_obj_mut(st, k, |o| {
                        for (i, e) in es.iter().enumerate() {
                            o.sym.insert((k.2 + i) as u32, *e);
                        }
                    })?;
                }
                Val::U
            }
            Ext::SymAssume => match s(0) {
                C(1) => Val::U,
                C(_) => return Err(Stop::Pruned),
                S(e) => match self.check(st, e, false)? {
                    Some(m) => {
                        self.add(st, e, m);
                        Val::U
                    }
                    None => return Err(Stop::Pruned),
                },
            },
            Ext::SymAssert => {
                let msg = self.str_at(st, s(1), s(2));
                self.stats.asserts += 1;
                let ent = self.assert_msgs.entry(msg.clone()).or_insert((0, 0));
                ent.0 += 1;
                match s(0) {
                    C(1) => {
                        self.stats.asserts_const += 1;
                    }
                    C(_) => {
                        return Err(Stop::Violation("assert".into(), msg));
                    }
                    S(e) => {
                        ent.1 += 1;
                        self.stats.asserts_symbolic += 1;
                        let ne = match self.x.not1(S(e)) {
                            S(n) => n,
                            C(k) => self.x.konst(1, k),
                        };
                        // the solver decides every symbolic assertion
                        if let Some(m) = self.check(st, ne, true)? {
                            self.violation(st, "assert", &msg, &m);
                        }
                        match self.check(st, e, false)? {
                            Some(m) => self.add(st, e, m),
                            None => return Err(Stop::Pruned),
                        }
                    }
                }
                Val::U
            }
            Ext::SymCover => {
                let msg = self.str_at(st, s(0), s(1));
                self.covers.insert(msg);
                Val::U
            }
            Ext::SymObserve => {
                st.obs.push((s(0), 64));
                Val::U
            }
            Ext::SymShard => Val::X(C(self.shard as u128)),
            Ext::SymTier => Val::X(C(self.tier as u128)),
            Ext::SymPeak => Val::X(C(st.peak_alloc as u128)),
            Ext::SymEngine => Val::X(C(1)),
            Ext::SymConcretize => Val::X(C(self.key_conc(st, s(0), 64)?)),
            Ext::Malloc => {
                let n = k64!(0);
                Val::X(C(self.malloc(st, n, 16) as u128))
            }
            Ext::Calloc => {
                let a = k64!(0);
                let b = k64!(1);
                Val::X(C(self.malloc(st, a.saturating_mul(b), 16) as u128))
            }
            Ext::AlignedAlloc => {
                let a = k64!(0);
                let b = k64!(1);
                Val::X(C(self.malloc(st, b, a) as u128))
            }
            Ext::Memalign => {
                let p = k64!(0);
                let al = k64!(1);
                let n = k64!(2);
                let a = self.malloc(st, n, al);
                self.store(st, C(p as u128), &Ty::Ptr, &Val::X(C(a as u128)))?;
                Val::X(C(if a == 0 { 12 } else { 0 }))
            }
            Ext::Realloc => {
                let p = k64!(0);
                let n = k64!(1);
                let a = self.malloc(st, n, 16);
                if p != 0 && a != 0 {
                    let k = st.heap.partition_point(|o| o.0 <= p);
                    if k == 0 || st.heap[k - 1].0 != p {
                        return Err(Stop::Violation("memory".into(), "realloc of invalid pointer".into()));
                    }
                    let old = st.heap[k - 1].1;
                    self.memcpy(st, a, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Val::X(C(a as u128))
            }
            Ext::Free => {
                let p = k64!(0);
                self.free(st, p)?;
                Val::U
            }
            Ext::Memcpy | Ext::MemcpyFn => {
                let n = k64!(2);
                let d = k64!(0);
                let so = k64!(1);
                self.memcpy(st, d, so, n)?;
                if x == Ext::MemcpyFn { Val::X(C(d as u128)) } else { Val::U }
            }
            Ext::Memset | Ext::MemsetFn => {
                let n = k64!(2);
                let d = k64!(0);
                let v = if x == Ext::MemsetFn { self.x.extract(s(1), 32, 0, 8) } else { s(1) };
                self.memset(st, d, v, n)?;
                if x == Ext::MemsetFn { Val::X(C(d as u128)) } else { Val::U }
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = k64!(2);
                let a = k64!(0);
                let b = k64!(1);
                let p = self.bytes_at(st, a, n)?;
                let q = self.bytes_at(st, b, n)?;
                if x == Ext::Bcmp {
                    let mut acc = C(1);
                    for i in 0..n as usize {
                        let e = self.x.eq(8, p[i], q[i]);
                        acc = self.x.bin(Op::And, 1, acc, e);
                        if acc == C(0) {
                            break;
                        }
                    }
                    let ne = self.x.not1(acc);
                    Val::X(self.x.zext(ne, 1, 32))
                } else {
                    let mut acc = C(0);
                    for i in (0..n as usize).rev() {
                        let e = self.x.eq(8, p[i], q[i]);
                        let lt = self.x.ult(8, p[i], q[i]);
                        let d = self.x.ite(lt, C(0xffff_ffff), C(1), 32);
                        acc = self.x.ite(e, acc, d, 32);
                    }
                    Val::X(acc)
                }
            }
            Ext::Strlen => {
                let a = k64!(0);
                let mut n = 0u64;
                loop {
                    let b = self.bytes_at(st, a + n, 1)?[0];
                    let v = self.key_conc(st, b, 8)?;
                    if v == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::X(C(n as u128))
            }
            Ext::Getrandom => {
                let p = k64!(0);
                let n = k64!(1);
                for i in 0..n {
                    self.memset(st, p + i, C(((i * 37 + 11) & 0xff) as u128), 1)?;
                }
                Val::X(C(n as u128))
            }
            Ext::Syscall => {
                let nr = k64!(0);
                match nr {
                    318 => {
                        let p = k64!(1);
                        let n = k64!(2);
                        for i in 0..n {
                            self.memset(st, p + i, C(((i * 37 + 11) & 0xff) as u128), 1)?;
                        }
                        Val::X(C(n as u128))
                    }
                    202 => Val::X(C(0)),
                    _ => return Err(Stop::Error(format!("syscall {}", nr))),
                }
            }
            Ext::Getenv => Val::X(C(0)),
            Ext::Write => Val::X(s(2)),
            Ext::Errno => return Err(Stop::Error("errno".into())),
            Ext::Zero => Val::X(C(0)),
            Ext::Nop => Val::U,
            Ext::Ident0 => av[0].clone(),
            Ext::False0 => Val::X(C(0)),
            Ext::AllOnes64 => Val::X(C(mask(rw(ret)))),
            Ext::Umax | Ext::Umin => {
                let w = rw(ret);
                let c = self.x.ult(w, s(0), s(1));
                let (a, b) = if x == Ext::Umax { (s(1), s(0)) } else { (s(0), s(1)) };
                Val::X(self.x.ite(c, a, b, w))
            }
            Ext::Smax | Ext::Smin => {
                let w = rw(ret);
                let c = self.x.slt(w, s(0), s(1));
                let (a, b) = if x == Ext::Smax { (s(1), s(0)) } else { (s(0), s(1)) };
                Val::X(self.x.ite(c, a, b, w))
            }
            Ext::Abs => {
                let w = rw(ret);
                let neg = self.x.bin(Op::Sub, w, C(0), s(0));
                let c = self.x.slt(w, s(0), C(0));
                Val::X(self.x.ite(c, neg, s(0), w))
            }
            Ext::Ctlz | Ext::Cttz | Ext::Ctpop => {
                let w = rw(ret);
                match s(0) {
                    C(v) => Val::X(C(match x {
                        Ext::Ctlz => (v.leading_zeros() as u128) - (128 - w as u128),
                        Ext::Cttz => if v == 0 { w as u128 } else { v.trailing_zeros() as u128 },
                        _ => v.count_ones() as u128,
                    })),
                    v => {
                        if x == Ext::Ctpop {
                            let mut acc = C(0);
                            for i in 0..w {
                                let b = self.x.extract(v, w, i, 1);
                                let z = self.x.zext(b, 1, w);
                                acc = self.x.bin(Op::Add, w, acc, z);
                            }
                            Val::X(acc)
                        } else {
                            let mut acc = C(w as u128);
                            // lowest-priority first
                            for i in 0..w {
                                let bit = if x == Ext::Cttz { w - 1 - i } else { i };
                                let b = self.x.extract(v, w, bit, 1);
                                let k = if x == Ext::Cttz { bit } else { w - 1 - bit };
                                acc = self.x.ite(b, C(k as u128), acc, w);
                            }
                            Val::X(acc)
                        }
                    }
                }
            }
            Ext::Bswap => {
                let w = rw(ret);
                let n = w / 8;
                let mut acc = self.x.extract(s(0), w, w - 8, 8);
                for i in 1..n {
                    let b = self.x.extract(s(0), w, w - 8 - 8 * i, 8);
                    acc = self.x.concat(b, 8, acc, 8 * i);
                }
                Val::X(acc)
            }
            Ext::BitRev => {
                let w = rw(ret);
                let mut acc = self.x.extract(s(0), w, w - 1, 1);
                for i in 1..w {
                    let b = self.x.extract(s(0), w, w - 1 - i, 1);
                    acc = self.x.concat(b, 1, acc, i);
                }
                Val::X(acc)
            }
            Ext::Fshl | Ext::Fshr => {
                let w = rw(ret);
                let k = (self.key_conc(st, s(2), w)? % w as u128) as u32;
                let (mut a, mut b) = (s(0), s(1));
                if w == 64 && a == b {
                    // rotates are hash mixing here: pin multi-byte operands
                    if let S(e) = a {
                        if self.x.one(e).is_none() {
                            let v = self.key_conc(st, a, w)?;
                            a = C(v);
                            b = C(v);
                        }
                    }
                }
                let k = if x == Ext::Fshl { k } else { (w - k) % w };
                if k == 0 {
                    Val::X(if x == Ext::Fshl { a } else { b })
                } else {
                    let hi = self.x.extract(a, w, 0, w - k);
                    let lo = self.x.extract(b, w, w - k, k);
                    Val::X(self.x.concat(hi, w - k, lo, k))
                }
            }
            Ext::UaddO | Ext::UsubO | Ext::UmulO | Ext::SaddO | Ext::SsubO | Ext::SmulO => {
                let w = args[0].0.width();
                let (a, b) = (s(0), s(1));
                let mul = matches!(x, Ext::UmulO | Ext::SmulO);
                let signed = matches!(x, Ext::SaddO | Ext::SsubO | Ext::SmulO);
                let op = match x {
                    Ext::UaddO | Ext::SaddO => Op::Add,
                    Ext::UsubO | Ext::SsubO => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.x.bin(op, w, a, b);
                let o = if x == Ext::UsubO {
                    self.x.ult(w, a, b)
                } else if x == Ext::UaddO {
                    self.x.ult(w, r, a)
                } else {
                    let ww = if mul { (2 * w).min(128) } else { w + 1 };
                    let (p, q) = if signed {
                        (self.x.sext(a, w, ww), self.x.sext(b, w, ww))
                    } else {
                        (self.x.zext(a, w, ww), self.x.zext(b, w, ww))
                    };
                    let full = self.x.bin(op, ww, p, q);
                    let rr = if signed { self.x.sext(r, w, ww) } else { self.x.zext(r, w, ww) };
                    let e = self.x.eq(ww, full, rr);
                    self.x.not1(e)
                };
                Val::A(Rc::new(vec![Val::X(r), Val::X(o)]))
            }
            Ext::UaddS => {
                let w = rw(ret);
                let r = self.x.bin(Op::Add, w, s(0), s(1));
                let o = self.x.ult(w, r, s(0));
                Val::X(self.x.ite(o, C(mask(w)), r, w))
            }
            Ext::UsubS => {
                let w = rw(ret);
                let r = self.x.bin(Op::Sub, w, s(0), s(1));
                let o = self.x.ult(w, s(0), s(1));
                Val::X(self.x.ite(o, C(0), r, w))
            }
            Ext::SaddS | Ext::SsubS => {
                let w = rw(ret);
                let (p, q) = (self.x.sext(s(0), w, w + 1), self.x.sext(s(1), w, w + 1));
                let full = self.x.bin(if x == Ext::SaddS { Op::Add } else { Op::Sub }, w + 1, p, q);
                let r = self.x.extract(full, w + 1, 0, w);
                let hi = mask(w) >> 1;
                let lt = self.x.slt(w + 1, full, C((hi + 1).wrapping_neg() & mask(w + 1)));
                let gt = self.x.slt(w + 1, C(hi), full);
                let g = self.x.ite(gt, C(hi), r, w);
                Val::X(self.x.ite(lt, C(hi + 1), g, w))
            }
            Ext::FpToUiSat | Ext::FpToSiSat => {
                let w = args[0].0.width();
                let v = fget(self.conc(st, s(0), w)?, w)?;
                let v = if v.is_nan() { 0.0 } else { v };
                Val::X(C(if x == Ext::FpToUiSat { ftou(v, rw(ret)) } else { ftos(v, rw(ret)) }))
            }
            Ext::Fabs | Ext::Floor | Ext::Ceil | Ext::Ftrunc | Ext::Fround => {
                let w = rw(ret);
                let v = fget(self.conc(st, s(0), w)?, w)?;
                let r = match x {
                    Ext::Fabs => v.abs(),
                    Ext::Floor => v.floor(),
                    Ext::Ceil => v.ceil(),
                    Ext::Ftrunc => v.trunc(),
                    _ => v.round(),
                };
                Val::X(C(fput(r, w)))
            }
            Ext::Fmin | Ext::Fmax => {
                let w = rw(ret);
                let (a, b) = (fget(self.conc(st, s(0), w)?, w)?, fget(self.conc(st, s(1), w)?, w)?);
                Val::X(C(fput(if x == Ext::Fmin { a.min(b) } else { a.max(b) }, w)))
            }
            Ext::Ucmp | Ext::Scmp => {
                let w = args[0].0.width();
                let rwid = rw(ret);
                let (lt, gt) = if x == Ext::Ucmp {
                    (self.x.ult(w, s(0), s(1)), self.x.ult(w, s(1), s(0)))
                } else {
                    (self.x.slt(w, s(0), s(1)), self.x.slt(w, s(1), s(0)))
                };
                let g = self.x.ite(gt, C(1), C(0), rwid);
                Val::X(self.x.ite(lt, C(mask(rwid)), g, rwid))
            }
            Ext::LoadRel => {
                let off = self.x.sext(s(1), args[1].0.width(), 64);
                let p = self.x.bin(Op::Add, 64, s(0), off);
                let v = self.load_k(st, p, &Ty::Int(32))?;
                let v = self.x.sext(Self::vsc(&v), 32, 64);
                Val::X(self.x.bin(Op::Add, 64, s(0), v))
            }
            Ext::RedUmax | Ext::RedUmin => {
                let w = rw(ret);
                match &av[0] {
                    Val::A(v) => {
                        let mut acc = Self::vsc(&v[0]);
                        for e in v.iter().skip(1) {
                            let e = Self::vsc(e);
                            let c = self.x.ult(w, acc, e);
                            acc = if x == Ext::RedUmax { self.x.ite(c, e, acc, w) } else { self.x.ite(c, acc, e, w) };
                        }
                        Val::X(acc)
                    }
                    _ => Val::X(C(0)),
                }
            }
            Ext::RedOr | Ext::RedAnd | Ext::RedAdd | Ext::RedXor | Ext::RedMul => {
                let w = rw(ret);
                let op = match x {
                    Ext::RedOr => Op::Or,
                    Ext::RedAnd => Op::And,
                    Ext::RedXor => Op::Xor,
                    Ext::RedMul => Op::Mul,
                    _ => Op::Add,
                };
                match &av[0] {
                    Val::A(v) => {
                        let mut acc = Self::vsc(&v[0]);
                        for e in v.iter().skip(1) {
                            acc = self.x.bin(op, w, acc, Self::vsc(e));
                        }
                        Val::X(acc)
                    }
                    _ => Val::X(C(0)),
                }
            }
        })
    }

    // ------------------------------------------------------------ coverage
    fn meta_text(&self, id: u32) -> &str {
        match self.m.meta.get(&id) {
            Some((a, b)) => &self.m.text[*a..*b],
            None => "",
        }
    }
    fn meta_field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
        for pat in [format!("({}: ", k), format!(", {}: ", k)] {
            if let Some(p) = t.find(&pat) {
                let r = &t[p + pat.len()..];
                if let Some(q) = r.strip_prefix('"') {
                    return q.find('"').map(|e| &q[..e]);
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(&r[..e]);
            }
        }
        None
    }
    fn meta_ref(t: &str, k: &str) -> Option<u32> {
        Self::meta_field(t, k)?.strip_prefix('!')?.parse().ok()
    }
    /// functions (by debug info, including inlined ones) and source lines executed, for files matching `filter`
    pub fn coverage(&mut self, filter: &str) -> (BTreeSet<String>, BTreeMap<String, BTreeSet<u32>>) {
        let mut ids: BTreeSet<u32> = BTreeSet::new();
        for (fid, bl) in &self.exec_blocks {
            if let Some(f) = &self.m.funcs[*fid as usize].parsed {
                for (i, b) in f.blocks.iter().enumerate() {
                    if bl[i] {
                        for ins in &b.insts {
                            if ins.dbg != 0 {
                                ids.insert(ins.dbg);
                            }
                        }
                    }
                }
            }
        }
        let mut funcs = BTreeSet::new();
        let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
        let mut todo: Vec<u32> = ids.into_iter().collect();
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        while let Some(id) = todo.pop() {
            if !seen.insert(id) {
                continue;
            }
            let t = self.meta_text(id).to_string();
            let line = Self::meta_field(&t, "line").and_then(|x| x.parse::<u32>().ok()).unwrap_or(0);
            if let Some(ia) = Self::meta_ref(&t, "inlinedAt") {
                todo.push(ia);
            }
            let mut sc = match Self::meta_ref(&t, "scope") {
                Some(s) => s,
                None => continue,
            };
            let mut guard = 0;
            loop {
                let st = self.meta_text(sc).to_string();
                guard += 1;
                if guard > 60 || st.is_empty() {
                    break;
                }
                if st.contains("DISubprogram(") {
                    let name = Self::meta_field(&st, "name").unwrap_or("").to_string();
                    let file = Self::meta_ref(&st, "file").map(|f| self.meta_text(f).to_string()).unwrap_or_default();
                    let fname = Self::meta_field(&file, "filename").unwrap_or("").to_string();
                    let dir = Self::meta_field(&file, "directory").unwrap_or("").to_string();
                    let full = if fname.starts_with('/') { fname } else { format!("{}/{}", dir, fname) };
                    if full.contains(filter) {
                        let short = full.split(filter).nth(1).unwrap_or(&full).to_string();
                        funcs.insert(format!("{}::{}", short, name));
                        lines.entry(short).or_default().insert(line);
                    }
                    break;
                }
                match Self::meta_ref(&st, "scope") {
                    Some(s) => sc = s,
                    None => break,
                }
            }
        }
        (funcs, lines)
    }
}
