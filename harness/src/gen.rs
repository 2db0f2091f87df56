//! Symbolic generators and small reference predicates shared by harnesses.
#![allow(dead_code)]
use crate::sym::{self, assume};

pub fn is_tchar(b: u8) -> bool {
    matches!(b, b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~'
        | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z')
}
pub fn is_unreserved(b: u8) -> bool {
    matches!(b, b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'.' | b'_' | b'~')
}
pub fn is_alnum(b: u8) -> bool {
    matches!(b, b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z')
}
pub fn lower(b: u8) -> u8 {
    if b >= b'A' && b <= b'Z' { b + 32 } else { b }
}
/// printable, space, or >= 0x80: what a header value may carry
/// an octet of a registered name: unreserved or sub-delims
pub fn is_regname(b: u8) -> bool { is_unreserved(b) || matches!(b, b'!' | b'$' | b'&' | b'\'' | b'(' | b')' | b'*' | b'+' | b',' | b';' | b'=') }
pub fn is_field_char(b: u8) -> bool {
    (b >= 0x20 && b != 0x7f) || b == b'\t'
}
/// branch-free case-insensitive equality
pub fn ieq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = false;
    let mut i = 0;
    while i < a.len() {
        d |= lower(a[i]) != lower(b[i]);
        i += 1;
    }
    !d
}

/// fixed-capacity byte string under construction
#[derive(Clone, Copy)]
pub struct Str<const N: usize> {
    pub d: [u8; N],
    pub n: usize,
}
impl<const N: usize> Str<N> {
    pub fn new() -> Self {
        Str { d: [0; N], n: 0 }
    }
    pub fn put(&mut self, s: &[u8]) -> &mut Self {
        self.d[self.n..self.n + s.len()].copy_from_slice(s);
        self.n += s.len();
        self
    }
    pub fn b(&self) -> &[u8] {
        &self.d[..self.n]
    }
    pub fn vec(&self) -> Vec<u8> {
        self.b().to_vec()
    }
    pub fn string(&self) -> String {
        // callers build ASCII only
        unsafe { String::from_utf8_unchecked(self.vec()) }
    }
    /// append `k` symbolic bytes of a class
    pub fn sym(&mut self, k: usize, class: fn(u8) -> bool) -> &mut Self {
        let s = self.n;
        sym::bytes(&mut self.d[s..s + k]);
        self.n += k;
        let mut i = s;
        while i < s + k {
            assume(class(self.d[i]));
            i += 1;
        }
        self
    }
}
pub fn sym_str<const N: usize>(k: usize, class: fn(u8) -> bool) -> Str<N> {
    let mut s = Str::new();
    s.sym(k, class);
    s
}
/// a header value: no control bytes, no leading or trailing blank
pub fn sym_value<const N: usize>(k: usize) -> Str<N> {
    let s: Str<N> = sym_str(k, is_field_char);
    if k > 0 {
        assume(s.d[0] != b' ' && s.d[0] != b'\t');
        assume(s.d[k - 1] != b' ' && s.d[k - 1] != b'\t');
    }
    s
}
/// number of elements of a slice picked per path
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[sym::choose(xs.len() as u8)]
}
pub fn put_dec<const N: usize>(s: &mut Str<N>, mut v: u64) {
    let mut t = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        t[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    s.put(&t[i..]);
}

/// the i-th field of a map
pub fn has(m: &webparse::HeaderMap, i: usize, name: &[u8], value: &[u8]) -> bool {
    match m.iter().nth(i) {
        Some((n, v)) => sym::same(n.as_bytes(), name) && sym::same(v.as_bytes(), value),
        None => false,
    }
}
/// a field value from bytes
pub fn hv(b: &[u8]) -> webparse::HeaderValue {
    webparse::HeaderValue::from_bytes(b)
}
/// a value around one symbolic octet: "", "?", "a?", "?=" (what the Huffman code makes of it stays a table of one octet)
pub fn value1(class: fn(u8) -> bool) -> Str<8> {
    let mut s = Str::new();
    match sym::choose(4) {
        0 => {}
        1 => { s.sym(1, class); }
        2 => { s.put(b"a").sym(1, class); }
        _ => { s.sym(1, class).put(b"="); }
    }
    s
}

/// lengths around the powers of two
pub const LONG: [usize; 10] = [15, 16, 17, 63, 64, 65, 255, 256, 1025, 66_001];
/// n octets, the first, the middle (a small letter, when n is large) and the last symbolic
pub fn long(n: usize, fill: u8, class: fn(u8) -> bool) -> Vec<u8> {
    let mut v = vec![fill; n];
    if n == 0 { return v }
    for i in [0, n / 2, n - 1] {
        let b = crate::sym::u8();
        crate::sym::assume(class(b));
        if n > 9000 && i == n / 2 { crate::sym::assume(b == fill || b.is_ascii_lowercase()); }
        v[i] = b;
    }
    v
}
/// n octets, the middle one symbolic
pub fn mid(n: usize, fill: u8, class: fn(u8) -> bool) -> Vec<u8> {
    let mut v = vec![fill; n];
    let b = crate::sym::u8();
    crate::sym::assume(class(b));
    v[n / 2] = b;
    v
}
