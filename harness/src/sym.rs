//! The interface between harnesses and the executor.
#![allow(dead_code)]
use algorithm::buf::{Bt, BtMut};

pub mod raw {
    extern "C-unwind" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, p: *const u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_observe(v: u64);
        pub fn sym_shard() -> u64;
        pub fn sym_tier() -> u64;
        pub fn sym_peak_alloc() -> u64;
        pub fn sym_is_engine() -> bool;
        pub fn sym_concretize(v: u64) -> u64;
    }
}

#[inline(always)]
pub fn bytes(b: &mut [u8]) {
    unsafe { raw::sym_bytes(b.as_mut_ptr(), b.len()) }
}
#[inline(always)]
pub fn arr<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    bytes(&mut a);
    a
}
#[inline(always)]
pub fn u8() -> u8 {
    arr::<1>()[0]
}
#[inline(always)]
pub fn u16() -> u16 {
    u16::from_le_bytes(arr())
}
#[inline(always)]
pub fn u32() -> u32 {
    u32::from_le_bytes(arr())
}
#[inline(always)]
pub fn u64() -> u64 {
    u64::from_le_bytes(arr())
}
#[inline(always)]
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// a value in 0..n, one path per value
#[inline(always)]
pub fn choose(n: u8) -> usize {
    let b = u8();
    assume(b < n);
    concretize(b as u64) as usize
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { raw::sym_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, msg: &'static str) {
    unsafe { raw::sym_assert(b, msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn cover(msg: &'static str) {
    unsafe { raw::sym_cover(msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { raw::sym_observe(v) }
}
#[inline(always)]
pub fn shard() -> usize {
    unsafe { raw::sym_shard() as usize }
}
/// 0 = quick, 1 = thorough
#[inline(always)]
pub fn tier() -> usize {
    unsafe { raw::sym_tier() as usize }
}
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::sym_concretize(v) }
}
#[inline(always)]
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b {
        observe(*x as u64);
    }
}

/// bytewise equality without short-circuit branches (one solver term)
#[inline(always)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}

macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C-unwind" fn $name() $body )*
        pub const ALL: &[(&str, extern "C-unwind" fn())] = &[ $((stringify!($name), $name)),* ];
    };
}

/// fixed-capacity buffer: keeps allocation out of the picture where the code
/// under test is generic in its buffer
pub struct Buf<const N: usize> {
    d: [u8; N],
    r: usize,
    w: usize,
}
impl<const N: usize> Buf<N> {
    pub fn new() -> Self {
        Buf { d: [0; N], r: 0, w: 0 }
    }
    pub fn from(b: &[u8]) -> Self {
        let mut s = Self::new();
        s.d[..b.len()].copy_from_slice(b);
        s.w = b.len();
        s
    }
    pub fn all(&self) -> &[u8] {
        &self.d[self.r..self.w]
    }
    pub fn read(&self) -> usize {
        self.r
    }
}
impl<const N: usize> Bt for Buf<N> {
    fn remaining(&self) -> usize {
        self.w - self.r
    }
    fn chunk(&self) -> &[u8] {
        &self.d[self.r..self.w]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.w - self.r);
        self.r += n;
    }
    fn advance_chunk(&mut self, n: usize) -> &[u8] {
        let s = self.r;
        self.advance(n);
        &self.d[s..s + n]
    }
    fn into_binary(self) -> algorithm::buf::Binary {
        algorithm::buf::Binary::from(self.chunk().to_vec())
    }
}
unsafe impl<const N: usize> BtMut for Buf<N> {
    fn remaining_mut(&self) -> usize {
        N - self.w
    }
    unsafe fn advance_mut(&mut self, n: usize) {
        self.w += n;
    }
    fn chunk_mut(&mut self) -> &mut [std::mem::MaybeUninit<u8>] {
        unsafe { std::mem::transmute(&mut self.d[self.w..]) }
    }
    fn put_slice(&mut self, s: &[u8]) -> usize {
        assert!(s.len() <= N - self.w);
        self.d[self.w..self.w + s.len()].copy_from_slice(s);
        self.w += s.len();
        s.len()
    }
}
