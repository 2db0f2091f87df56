//! RFC 7541 restated: the integer form, the code and the tables a harness
//! compares the implementation with. Nothing here is taken from /repo.
#![allow(dead_code)]
use crate::gen::*;
use crate::sym::*;
use algorithm::buf::{Binary, Bt};
use webparse::http2::{frame::*, Decoder};

/// Appendix B: code lengths by octet; the code is the canonical one of these lengths
pub const LEN: [u8; 257] = [
    13, 23, 28, 28, 28, 28, 28, 28, 28, 24, 30, 28, 28, 30, 28, 28, 28, 28, 28, 28, 28, 28, 30, 28, 28, 28, 28, 28, 28, 28, 28, 28,
    6, 10, 10, 12, 13, 6, 8, 11, 10, 10, 8, 11, 8, 6, 6, 6, 5, 5, 5, 6, 6, 6, 6, 6, 6, 6, 7, 8, 15, 6, 12, 10,
    13, 6, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 8, 7, 8, 13, 19, 13, 14, 6,
    15, 5, 6, 5, 6, 5, 6, 6, 6, 5, 7, 7, 6, 6, 6, 5, 6, 7, 6, 5, 5, 6, 7, 7, 7, 7, 7, 15, 11, 14, 13, 28,
    20, 22, 20, 20, 22, 22, 22, 23, 22, 23, 23, 23, 23, 23, 24, 23, 24, 24, 22, 23, 24, 23, 23, 23, 23, 21, 22, 23, 22, 23, 23, 24,
    22, 21, 20, 22, 22, 23, 23, 21, 23, 22, 22, 24, 21, 22, 23, 23, 21, 21, 22, 21, 23, 22, 23, 23, 20, 22, 22, 22, 23, 22, 22, 23,
    26, 26, 20, 19, 22, 23, 22, 25, 26, 26, 26, 27, 27, 26, 24, 25, 19, 21, 26, 27, 27, 26, 27, 24, 21, 21, 26, 26, 28, 27, 27, 27,
    20, 24, 20, 21, 22, 21, 21, 23, 22, 22, 25, 25, 24, 24, 26, 23, 26, 27, 26, 26, 27, 27, 27, 27, 27, 28, 27, 27, 27, 27, 27, 26,
    30,
];
pub struct Code {
    /// by octet
    pub word: [u32; 257],
    /// symbols ordered by code
    pub order: [u16; 257],
    /// first code of each length, and its place in `order`
    pub first: [u32; 31],
    pub start: [u16; 31],
    pub count: [u16; 31],
}
const fn code() -> Code {
    let mut c = Code { word: [0; 257], order: [0; 257], first: [0; 31], start: [0; 31], count: [0; 31] };
    let mut next: u32 = 0;
    let mut k = 0;
    let mut l = 1;
    while l <= 30 {
        next <<= 1;
        c.first[l] = next;
        c.start[l] = k;
        let mut s = 0;
        while s < 257 {
            if LEN[s] as usize == l {
                c.word[s] = next;
                c.order[k as usize] = s as u16;
                k += 1;
                c.count[l] += 1;
                next += 1;
            }
            s += 1;
        }
        l += 1;
    }
    // a complete prefix code, ending with the end-of-string word of thirty ones
    assert!(next == 1 << 30 && c.word[256] == (1 << 30) - 1);
    c
}
pub const CODE: Code = code();
static CODE_S: Code = code();

/// text of a Huffman string; None where the standard wants an error
pub fn huff<const N: usize>(b: &[u8]) -> Option<Str<N>> {
    let mut out: Str<N> = Str::new();
    let (mut acc, mut n) = (0u32, 0usize);
    let mut i = 0;
    while i < b.len() * 8 {
        let bit = b[i / 8] >> (7 - i % 8) & 1;
        acc = acc << 1 | bit as u32;
        n += 1;
        if n > 30 { return None; }
        let d = acc.wrapping_sub(CODE_S.first[n]);
        if CODE_S.count[n] > 0 && acc >= CODE_S.first[n] && d < CODE_S.count[n] as u32 {
            let s = CODE_S.order[CODE_S.start[n] as usize + d as usize];
            if s == 256 { return None; }
            out.put(&[s as u8]);
            acc = 0;
            n = 0;
        }
        i += 1;
    }
    // what is left is a beginning of the end-of-string word
    if n > 7 || acc != (1u32 << n) - 1 { return None; }
    Some(out)
}

/// an integer with an n-bit prefix: (value, octets), None: cut short or longer than five octets
pub fn int(b: &[u8], prefix: u32) -> Option<(u64, usize)> {
    if b.is_empty() { return None; }
    let mask = (1u64 << prefix) - 1;
    let v = b[0] as u64 & mask;
    if v < mask { return Some((v, 1)); }
    let mut v = mask;
    let mut i = 1;
    while i < 5 {
        if i >= b.len() { return None; }
        v += (b[i] as u64 & 127) << (7 * (i - 1));
        if b[i] < 128 { return Some((v, i + 1)); }
        i += 1;
    }
    None
}

/// Appendix A
pub const STATIC: [(&str, &str); 61] = [
    (":authority", ""), (":method", "GET"), (":method", "POST"), (":path", "/"), (":path", "/index.html"),
    (":scheme", "http"), (":scheme", "https"), (":status", "200"), (":status", "204"), (":status", "206"),
    (":status", "304"), (":status", "400"), (":status", "404"), (":status", "500"), ("accept-charset", ""),
    ("accept-encoding", "gzip, deflate"), ("accept-language", ""), ("accept-ranges", ""), ("accept", ""), ("access-control-allow-origin", ""),
    ("age", ""), ("allow", ""), ("authorization", ""), ("cache-control", ""), ("content-disposition", ""),
    ("content-encoding", ""), ("content-language", ""), ("content-length", ""), ("content-location", ""), ("content-range", ""),
    ("content-type", ""), ("cookie", ""), ("date", ""), ("etag", ""), ("expect", ""),
    ("expires", ""), ("from", ""), ("host", ""), ("if-match", ""), ("if-modified-since", ""),
    ("if-none-match", ""), ("if-range", ""), ("if-unmodified-since", ""), ("last-modified", ""), ("link", ""),
    ("location", ""), ("max-forwards", ""), ("proxy-authenticate", ""), ("proxy-authorization", ""), ("range", ""),
    ("referer", ""), ("refresh", ""), ("retry-after", ""), ("server", ""), ("set-cookie", ""),
    ("strict-transport-security", ""), ("transfer-encoding", ""), ("user-agent", ""), ("vary", ""), ("via", ""),
    ("www-authenticate", ""),
];
pub static STATIC_S: [(&str, &str); 61] = STATIC;

pub type T16 = Str<28>;
/// the dynamic table, newest first
#[derive(Clone)]
pub struct Table {
    pub e: [(T16, T16); 8],
    pub n: usize,
    pub size: usize,
    pub max: usize,
    pub limit: usize,
}
impl Table {
    pub fn new(max: usize) -> Table {
        Table { e: [(Str::new(), Str::new()); 8], n: 0, size: 0, max, limit: max }
    }
    pub fn evict(&mut self) {
        while self.size > self.max {
            self.n -= 1;
            self.size -= self.e[self.n].0.n + self.e[self.n].1.n + 32;
        }
    }
    pub fn add(&mut self, name: &T16, value: &T16) {
        let mut i = self.n;
        while i > 0 {
            self.e[i] = self.e[i - 1];
            i -= 1;
        }
        self.e[0] = (*name, *value);
        self.n += 1;
        self.size += name.n + value.n + 32;
        self.evict();
    }
    pub fn get(&self, i: u64) -> Option<(T16, T16)> {
        if i == 0 || i > 61 + self.n as u64 { return None; }
        if i <= 61 {
            let (a, b) = STATIC_S[i as usize - 1];
            let (mut x, mut y) = (Str::new(), Str::new());
            x.put(a.as_bytes());
            y.put(b.as_bytes());
            return Some((x, y));
        }
        Some(self.e[i as usize - 62])
    }
}
fn string(b: &[u8]) -> Option<(T16, usize)> {
    let (len, k) = int(b, 7)?;
    if len > (b.len() - k) as u64 { return None; }
    let raw = &b[k..k + len as usize];
    let mut s = Str::new();
    if b[0] & 128 != 0 { s = huff(raw)?; } else { s.put(raw); }
    Some((s, k + len as usize))
}
/// decode a header block: calls back with every field, false where the standard (or the receiver's limit) wants an error
pub fn decode(b: &[u8], t: &mut Table, mut field: impl FnMut(&T16, &T16)) -> bool {
    let mut i = 0;
    while i < b.len() {
        let o = b[i];
        let r = &b[i..];
        if o >= 128 {
            let (k, used) = match int(r, 7) { Some(x) => x, None => return false };
            match t.get(k) { Some((n, v)) => field(&n, &v), None => return false }
            i += used;
        } else if o >= 32 && o < 64 {
            let (k, used) = match int(r, 5) { Some(x) => x, None => return false };
            if k > t.limit as u64 { return false; }
            t.max = k as usize;
            t.evict();
            i += used;
        } else {
            let (k, mut used) = match int(r, if o >= 64 { 6 } else { 4 }) { Some(x) => x, None => return false };
            let name = if k == 0 {
                match string(&r[used..]) { Some((s, u)) => { used += u; s } None => return false }
            } else {
                match t.get(k) { Some((n, _)) => n, None => return false }
            };
            if core::str::from_utf8(name.b()).is_err() { return false; }
            let value = match string(&r[used..]) { Some((s, u)) => { used += u; s } None => return false };
            field(&name, &value);
            if o >= 64 { t.add(&name, &value); }
            i += used;
        }
    }
    true
}

/// split the next frame off `b`
pub fn next_frame<const N: usize>(b: &mut crate::sym::Buf<N>, dec: &mut Decoder) -> Option<(FrameHeader, Frame<Binary>)> {
    let h = FrameHeader::parse(b).ok()?;
    let n = concretize(h.length as u64) as usize;
    check(n <= b.remaining(), "the announced length is written");
    if n > b.remaining() { return None; }
    let p = Binary::copy_from_slice(&b.all()[..n]);
    b.advance(n);
    let f = Frame::parse(h, p, dec, 1 << 16).ok()?;
    Some((h, f))
}
