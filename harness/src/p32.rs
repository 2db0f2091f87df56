//! P32: only a head of HTTP/1 form is accepted, and it is read as the grammar
//! reads it. The grammar of RFC 9112 is restated here as a reader of its own.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::*;

/// what the grammar says about the whole input
pub enum Say {
    /// not a head: must be refused
    No,
    /// a head; `strict` is false when it only is one with a leniency a
    /// recipient may have (empty line before, bare LF, several spaces, blank
    /// before the colon, control characters in a value)
    Head(Head),
}
#[derive(Default)]
pub struct Head {
    pub strict: bool,
    pub first: (usize, usize),
    pub second: (usize, usize),
    pub third: (usize, usize),
    pub fields: Vec<(usize, usize, usize, usize)>,
    pub len: usize,
}
fn visible(c: u8) -> bool { c > 32 && c < 127 }
fn reason_char(c: u8) -> bool { c == b'\t' || (c >= 32 && c != 127) }
/// end of line at i: its length, 0 if there is none; a bare LF is lenient
fn eol(b: &[u8], i: usize, strict: &mut bool) -> usize {
    if i < b.len() && b[i] == b'\n' { *strict = false; return 1; }
    if i + 1 < b.len() && b[i] == b'\r' && b[i + 1] == b'\n' { return 2; }
    0
}
fn spaces(b: &[u8], i: &mut usize, strict: &mut bool) -> bool {
    let a = *i;
    while *i < b.len() && b[*i] == b' ' { *i += 1; }
    if *i - a > 1 { *strict = false; }
    *i > a
}
/// the end of the run of octets of a class
fn run(b: &[u8], mut i: usize, f: fn(u8) -> bool) -> usize {
    while i < b.len() && f(b[i]) { i += 1; }
    i
}
/// (complete input) request: three words; response: version, code, reason
pub fn read(b: &[u8], response: bool) -> Say {
    let mut h = Head { strict: true, ..Default::default() };
    let mut i = 0;
    loop {
        let n = eol(b, i, &mut h.strict);
        if n == 0 { break; }
        h.strict = false;
        i += n;
    }
    let j = run(b, i, visible);
    if j == i { return Say::No; }
    h.first = (i, j);
    i = j;
    if !spaces(b, &mut i, &mut h.strict) { return Say::No; }
    let j = run(b, i, visible);
    if j == i { return Say::No; }
    h.second = (i, j);
    i = j;
    if response {
        // the space behind the code may be missing only at the end of the line
        let e = eol(b, i, &mut h.strict);
        if e > 0 {
            h.strict = false;
            h.third = (i, i);
        } else {
            if i >= b.len() || b[i] != b' ' { return Say::No; }
            i += 1;
            let j = run(b, i, reason_char);
            h.third = (i, j);
            i = j;
        }
    } else {
        if !spaces(b, &mut i, &mut h.strict) { return Say::No; }
        let j = run(b, i, visible);
        if j == i { return Say::No; }
        h.third = (i, j);
        i = j;
    }
    let n = eol(b, i, &mut h.strict);
    if n == 0 { return Say::No; }
    i += n;
    loop {
        let n = eol(b, i, &mut h.strict);
        if n > 0 { h.len = i + n; return Say::Head(h); }
        let j = run(b, i, is_tchar);
        if j == i { return Say::No; }
        let (ns, ne) = (i, j);
        i = j;
        if spaces(b, &mut i, &mut h.strict) { h.strict = false; }
        if i >= b.len() || b[i] != b':' { return Say::No; }
        i += 1;
        let vs = i;
        while i < b.len() && b[i] != b'\r' && b[i] != b'\n' {
            if b[i] == 127 || (b[i] < 32 && b[i] != b'\t') { h.strict = false; }
            i += 1;
        }
        let (mut s, mut e) = (vs, i);
        while s < e && (b[s] == b' ' || b[s] == b'\t') { s += 1; }
        while e > s && (b[e - 1] == b' ' || b[e - 1] == b'\t') { e -= 1; }
        h.fields.push((ns, ne, s, e));
        let n = eol(b, i, &mut h.strict);
        if n == 0 { return Say::No; }
        i += n;
    }
}
pub const METHODS: [(&[u8], Method); 9] = [
    (b"GET", Method::GET), (b"POST", Method::POST), (b"PUT", Method::PUT), (b"DELETE", Method::DELETE), (b"HEAD", Method::HEAD),
    (b"OPTIONS", Method::OPTIONS), (b"PATCH", Method::PATCH), (b"TRACE", Method::TRACE), (b"CONNECT", Method::CONNECT),
];
fn version(t: &[u8]) -> Option<Version> {
    if same(t, b"HTTP/1.1") { Some(Version::Http11) }
    else if same(t, b"HTTP/1.0") { Some(Version::Http10) }
    else if same(t, b"HTTP/2") { Some(Version::Http2) }
    else if same(t, b"HTTP/3") { Some(Version::Http3) }
    else { None }
}
fn fields(b: &[u8], h: &Head, m: &HeaderMap) {
    // a name that comes twice is kept once (P06); here every name comes once
    let mut k = 0;
    for i in 0..h.fields.len() {
        let (s, e, v, w) = h.fields[i];
        let mut again = false;
        for j in 0..h.fields.len() {
            if j != i && ieq(&b[s..e], &b[h.fields[j].0..h.fields[j].1]) { again = true; }
        }
        if again { return; }
        check(has(m, k, &b[s..e], &b[v..w]), "field as the grammar reads it");
        k += 1;
    }
    check(m.len() == k, "number of fields");
}
fn request(b: &[u8]) {
    let mut q = Request::new();
    let mut rest = b;
    let r = q.parse_buffer(&mut rest);
    observe(match &r { Ok(n) => *n as u64, Err(e) => 1000 + e.is_partial() as u64 });
    let h = match read(b, false) {
        Say::No => { check(r.is_err(), "what is no request head is refused"); cover("refused"); return; }
        Say::Head(h) => h,
    };
    let (mt, tt, vt) = (&b[h.first.0..h.first.1], &b[h.second.0..h.second.1], &b[h.third.0..h.third.1]);
    let mut method = None;
    for (n, m) in METHODS.iter() { if same(n, mt) { method = Some(m.clone()); } }
    let (method, v) = match (method, version(vt)) {
        (Some(m), Some(v)) => (m, v),
        _ => { check(r.is_err(), "an unknown method or version is refused"); cover("refused"); return; }
    };
    match r {
        Ok(n) => {
            check(n == h.len && rest.len() == b.len() - n, "the head ends where the grammar says");
            check(*q.method() == method, "method");
            check(q.version() == v, "version");
            fields(b, &h, q.headers());
            cover("head");
        }
        Err(_) => {
            // a well-formed head is refused only for its target
            let plain = tt[0] == b'/' && run(tt, 0, |c| is_unreserved(c) || c == b'/') == tt.len();
            let host = h.fields.iter().any(|f| ieq(&b[f.0..f.1], b"host"));
            check(!h.strict || !plain || host || method == Method::CONNECT, "a well-formed head is accepted");
            cover("refused");
        }
    }
}
fn response(b: &[u8]) {
    let mut q = Response::new(());
    let mut rest = b;
    let r = q.parse_buffer(&mut rest);
    observe(match &r { Ok(n) => *n as u64, Err(e) => 1000 + e.is_partial() as u64 });
    let h = match read(b, true) {
        Say::No => { check(r.is_err(), "what is no response head is refused"); cover("refused"); return; }
        Say::Head(h) => h,
    };
    let (vt, ct) = (&b[h.first.0..h.first.1], &b[h.second.0..h.second.1]);
    let code = if ct.len() == 3 && ct[0] >= b'1' && ct[0] <= b'9' && ct[1] >= b'0' && ct[1] <= b'9' && ct[2] >= b'0' && ct[2] <= b'9' {
        Some((ct[0] - b'0') as u16 * 100 + (ct[1] - b'0') as u16 * 10 + (ct[2] - b'0') as u16)
    } else { None };
    let (v, code) = match (version(vt), code) {
        (Some(v), Some(c)) => (v, c),
        _ => { check(r.is_err(), "an unknown version or an illegal code is refused"); cover("refused"); return; }
    };
    match r {
        Ok(n) => {
            check(n == h.len && rest.len() == b.len() - n, "the head ends where the grammar says");
            check(q.version() == v, "version");
            check(q.status().as_u16() == code, "status");
            fields(b, &h, q.headers());
            cover("head");
        }
        Err(_) => {
            check(!h.strict, "a well-formed head is accepted");
            cover("refused");
        }
    }
}
/// (before, behind, symbolic octets)
const REQ: &[(&[u8], &[u8])] = &[
    (b"", b"GET /a HTTP/1.1\r\nA: b\r\n\r\n"),
    (b"GE", b" /a HTTP/1.1\r\nA: b\r\n\r\n"),
    (b"PUT", b"/a HTTP/1.1\r\nA: b\r\n\r\n"),
    (b"GET /a", b"b HTTP/1.1\r\nA: b\r\n\r\n"),
    (b"GET /a", b"HTTP/1.1\r\nA: b\r\n\r\n"),
    (b"GET /a HTTP/", b"\r\nA: b\r\n\r\n"),
    (b"GET /a HTTP/1", b"1\r\nA: b\r\n\r\n"),
    (b"GET /a HTTP/1.1", b"\nA: b\r\n\r\n"),
    (b"GET /a HTTP/1.1", b"A: b\r\n\r\n"),
    (b"GET /a HTTP/1.1\r\n", b"A: b\r\n\r\n"),
    (b"GET /a HTTP/1.1\r\nA", b": b\r\n\r\n"),
    (b"GET /a HTTP/1.1\r\nA", b"b\r\n\r\n"),
    (b"GET /a HTTP/1.1\r\nA:", b"b\r\n\r\n"),
    (b"GET /a HTTP/1.1\r\nA: b", b"c\r\n\r\n"),
    (b"GET /a HTTP/1.1\r\nA: b", b"\nB: c\r\n\r\n"),
    (b"GET /a HTTP/1.1\r\nA: b\r\n", b"\r\nC: d\r\n\r\n"),
    (b"GET /a HTTP/1.1\r\nA: b\r\n", b"C: d\r\n\r\n"),
    (b"POST /a HTTP/1.0\r\nContent-Length: 5", b"\r\n\r\nhello"),
    (b"OPTIONS", b"HTTP/3\r\n\r\n"),
    (b"DELETE /a ", b"\r\n\r\n"),
];
const RES: &[(&[u8], &[u8])] = &[
    (b"", b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n"),
    (b"HTTP", b"1.1 200 OK\r\nA: b\r\n\r\n"),
    (b"HTTP/1.1", b"200 OK\r\nA: b\r\n\r\n"),
    (b"HTTP/1.1 2", b" OK\r\nA: b\r\n\r\n"),
    (b"HTTP/1.1 200", b"OK\r\nA: b\r\n\r\n"),
    (b"HTTP/1.1 20", b"\r\nA: b\r\n\r\n"),
    (b"HTTP/1.1 200 O", b"\r\nA: b\r\n\r\n"),
    (b"HTTP/1.1 200 OK", b"A: b\r\n\r\n"),
    (b"HTTP/1.1 200 OK\r\n", b"A: b\r\n\r\n"),
    (b"HTTP/1.1 200 OK\r\nA", b": b\r\n\r\n"),
    (b"HTTP/1.1 200 OK\r\nA:", b"b\r\n\r\n"),
    (b"HTTP/1.1 200 OK\r\nA: b", b"\r\n\r\nrest"),
    (b"HTTP/1.1 200 OK\r\nA: b\r\n", b"\r\nrest"),
    (b"HTTP/", b" 404 \r\n\r\n"),
];
fn fill(t: &(&[u8], &[u8]), k: usize) -> Str<96> {
    let mut s: Str<96> = Str::new();
    s.put(t.0).sym(k, |_| true).put(t.1);
    s
}

harnesses! {
/// arbitrary octets at every place of a request head (shard: place)
fn h_p32_request() {
    let k = choose(if tier() == 0 { 6 } else { 7 });
    let s = fill(&REQ[shard()], k);
    request(s.b());
}
/// arbitrary octets at every place of a response head (shard: place)
fn h_p32_response() {
    let k = choose(if tier() == 0 { 6 } else { 7 });
    let s = fill(&RES[shard()], k);
    response(s.b());
}
/// no structure at all: every octet string of the shard's length
fn h_p32_any() {
    let b: [u8; 32] = arr();
    let n = shard() % 32;
    if shard() < 32 { request(&b[..n]) } else { response(&b[..n]) }
}
/// arbitrary octets at two places at once (shard: pair of places)
fn h_p32_two() {
    let t: &[(&[u8], &[u8], &[u8])] = &[
        (b"GET", b"/a", b"HTTP/1.1\r\nA: b\r\n\r\n"),
        (b"GET /a", b"HTTP/1.1", b"A: b\r\n\r\n"),
        (b"GET /a HTTP/1.1\r\nA", b"b", b"B: c\r\n\r\n"),
        (b"GET /a HTTP/1.1\r\nA:", b"c\r\n", b"B: c\r\n\r\n"),
        (b"GET /a HTTP/1.1\r\nA: b", b"C", b"d\r\n\r\n"),
        (b"GET /a HTTP/1.1\r\nAb: c\r\nA", b": c", b"\r\n"),
        (b"GET /", b" HTTP/1.1\r\n", b": b\r\n\r\n"),
        (b"HTTP/1.1", b"200", b"OK\r\nA: b\r\n\r\n"),
        (b"HTTP/1.1 20", b"OK", b"A: b\r\n\r\n"),
        (b"HTTP/1.1 200 OK\r\nA", b"b", b"B: c\r\n\r\n"),
        (b"HTTP/1.1 200 OK\r\nA: b", b"C", b"d\r\n\r\n"),
    ];
    let (a, m, z) = t[shard()];
    let k = if tier() == 0 { 2 } else { 3 };
    let mut s: Str<96> = Str::new();
    s.put(a).sym(choose(k + 1), |_| true).put(m).sym(choose(k + 1), |_| true).put(z);
    if shard() < 7 { request(s.b()) } else { response(s.b()) }
}
}
