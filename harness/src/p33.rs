//! P33: values compare equal to, and answer questions by, exactly the text or
//! number they stand for.
use crate::gen::*;
use crate::sym::{self, *};
use std::convert::TryFrom;
use webparse::*;

fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 { self.0 }
        fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64 + 1); } }
        fn write_usize(&mut self, b: usize) { self.0 = self.0.wrapping_mul(37).wrapping_add(b as u64 + 1); }
        fn write_u8(&mut self, b: u8) { self.0 = self.0.wrapping_mul(41).wrapping_add(b as u64 + 1); }
    }
    let mut h = H(7);
    t.hash(&mut h);
    h.0
}
/// the same octets stored in one of the ways a value can be
fn value(how: usize, s: &[u8]) -> HeaderValue {
    let t = || String::from_utf8(s.to_vec()).unwrap();
    match how {
        0 => HeaderValue::from_static(leak(t())),
        1 => HeaderValue::from_bytes(s),
        2 => HeaderValue::try_from(t()).unwrap(),
        3 => HeaderValue::from_cow(std::borrow::Cow::Borrowed(s)),
        _ => HeaderValue::try_from(leak(t())).unwrap(),
    }
}

harnesses! {
/// header values of any storage against texts, octets and each other (shard: both storages)
fn h_p33_value() {
    let max = if tier() == 0 { 4 } else { 5 };
    let a: Str<8> = sym_str(choose(max), |b| b < 128);
    let b: Str<8> = sym_str(choose(max), |b| b < 128);
    let (x, y) = (value(shard() % 5, a.b()), value(shard() / 5, b.b()));
    let is = same(a.b(), b.b());
    check((x == y) == is && (y == x) == is, "values are equal exactly if their octets are");
    let t = b.string();
    check((x == &t[..]) == is && (&t[..] == x) == is, "a value equals a text exactly if it is that text");
    check((x == b.b()[..]) == is && (b.b()[..] == x) == is, "a value equals octets exactly if it holds them");
    check(!is || hash(&x) == hash(&y), "equal values hash alike");
    check(x.bytes_len() == a.n && same(x.as_bytes(), a.b()), "length and octets of a value");
    check(x.as_string().map_or(false, |s| same(s.as_bytes(), a.b())), "text of a value");
    check(same(x.to_string().as_bytes(), a.b()), "a value is shown as its text");
    check(x.clone() == x, "a clone is equal");
    let mut z = x.clone();
    z.push(y);
    check(z.bytes_len() == a.n + 1 + b.n && same(&z.as_bytes()[..a.n], a.b()) && same(&z.as_bytes()[a.n + 1..], b.b()), "an appended value follows the first");
    if is { cover("equal") } else { cover("different") }
}
/// names: length, kind and text, of either storage
fn h_p33_name() {
    let a: Str<8> = sym_str(choose(5), |b| b < 128);
    let n = if shard() == 0 { HeaderName::from_static(leak(a.string())) } else if shard() == 1 { HeaderName::try_from(a.string()).unwrap() } else { HeaderName::try_from(leak(a.string())).unwrap() };
    check(n.bytes_len() == a.n && same(n.as_bytes(), a.b()) && same(n.name().as_bytes(), a.b()), "length and text of a name");
    let colon = a.n > 0 && a.d[0] == b':';
    check(n.is_spec() == colon, "a pseudo-header name begins with a colon");
    if colon { cover("pseudo") } else { cover("field") }
}
/// a URL equals a text exactly if it is displayed as that text
fn h_p33_url() {
    const U: [&str; 5] = ["http://ab/c?d", "https://ab:81/", "ws://u:p@ab/c", "/c?d", "xy://ab/%20"];
    let u = match Url::try_from(U[shard()]) { Ok(u) => u, Err(_) => { check(false, "a URL"); return } };
    let shown = u.to_string();
    check(u == *shown.as_str() && *shown.as_str() == u, "a URL equals its text");
    let mut d = shown.clone().into_bytes();
    let k = choose(d.len() as u8);
    let c = sym::u8();
    assume(c < 128);
    let is = d[k] == c;
    d[k] = c;
    let t = String::from_utf8(d).unwrap();
    check((u == *t.as_str()) == is && (*t.as_str() == u) == is, "a URL equals a text exactly if it is its text");
    let cut = choose(shown.len() as u8);
    check(u != shown[..cut] && shown[..cut] != u, "a part of the text is not equal");
    let copy = u.clone();
    check(copy == u, "a clone is equal");
    if is { cover("equal") } else { cover("different") }
}
/// URLs are equal exactly if all their components are
fn h_p33_url_eq() {
    let make = |k: usize, c: u8| {
        let mut u = Url::new();
        u.scheme = Scheme::Http;
        u.domain = Some("a".to_string());
        u.path = "/a".to_string();
        let t = (c as char).to_string();
        match k {
            0 => u.domain = Some(t),
            1 => u.path = t,
            2 => u.query = Some(t),
            3 => u.username = Some(t),
            4 => u.password = Some(t),
            5 => u.port = Some(c as u16),
            6 => u.scheme = if c < 64 { Scheme::Https } else { Scheme::Ws },
            _ => {}
        }
        u
    };
    let (j, k) = (shard() % 8, shard() / 8);
    let (c, d) = (sym::u8(), sym::u8());
    assume(c > 32 && c < 127 && d > 32 && d < 127 && c != b'a' && d != b'a' && c != b'/' && d != b'/');
    let (u, v) = (make(j, c), make(k, d));
    let is = j == k && (j == 7 || if j == 6 { (c < 64) == (d < 64) } else { c == d });
    check((u == v) == is && (v == u) == is, "URLs are equal exactly if their components are");
    if is { cover("equal") } else { cover("different") }
}
/// status codes against numbers, and the ways to make one
fn h_p33_status() {
    let (c, d) = (sym::u16(), sym::u16());
    assume(c / 100 == shard() as u16 + 1);
    let s = match StatusCode::from_u16(c) { Ok(s) => s, Err(_) => return };
    check((s == d) == (c == d) && (d == s) == (c == d), "a status equals exactly its number");
    check(u16::from(s) == c && s.as_u16() == c, "the number of a status");
    check(StatusCode::try_from(c).map_or(false, |t| t == s), "a status from its number");
    check(StatusCode::from(&s) == s, "a status from a status");
    let x = [b'0' + (c / 100) as u8, b'0' + (c / 10 % 10) as u8, b'0' + (c % 10) as u8];
    check(same(s.as_str().as_bytes(), &x), "the digits of a status");
    let (n, v) = s.build_header();
    check(same(n.as_bytes(), b":status") && same(v.as_bytes(), &x), "the pseudo-header of a status");
    if let Ok(t) = StatusCode::from_u16(d) { check((s == t) == (c == d) && (s < t) == (c < d), "statuses compare as their numbers"); }
    check(StatusCode::default() == 200u16, "the default status");
    if c == d { cover("equal") } else { cover("different") }
}
/// what a message without a body is, by method; versions and schemes by kind
fn h_p33_kinds() {
    const M: [(&str, bool, bool); 9] = [
        ("GET", true, false), ("HEAD", true, true), ("OPTIONS", true, true), ("CONNECT", true, true),
        ("POST", false, false), ("PUT", false, false), ("DELETE", false, false), ("PATCH", false, false), ("TRACE", true, false),
    ];
    let (t, nobody, res) = M[choose(9)];
    // whether a TRACE request may have a body is left open
    match Method::try_from(t) {
        Ok(m) => {
            check(t == "TRACE" || m.is_nobody() == nobody, "whether requests of a method carry a body");
            check(m.res_nobody() == res, "whether answers to a method carry a body");
            check(same(m.as_str().as_bytes(), t.as_bytes()) && same(m.to_string().as_bytes(), t.as_bytes()), "the token of a method");
        }
        Err(_) => check(false, "a defined method"),
    }
    let v = choose(4);
    let v1 = [Version::Http10, Version::Http11, Version::Http2, Version::Http3][v];
    check(v1.is_http1() == (v < 2) && v1.is_http2() == (v == 2), "the kind of a version");
    let k = choose(6);
    let s = [Scheme::Http, Scheme::Https, Scheme::Ws, Scheme::Wss, Scheme::None, Scheme::Extension("x".to_string())][k].clone();
    check(s.is_http() == (k == 0) && s.is_https() == (k == 1) && s.is_ws() == (k == 2) && s.is_wss() == (k == 3) && s.is_none() == (k == 4), "the kind of a scheme");
    cover("kinds");
}
/// long values that differ in one octet anywhere, or in length
fn h_p33_long() {
    let n = LONG[shard() % 9];
    let at = [0, 1, n / 3, n / 2, n - 2, n - 1][choose(6)];
    let mut a = vec![b'v'; n];
    let mut b = a.clone();
    let (p, q) = (sym::u8(), sym::u8());
    assume(p < 128 && q < 128);
    a[at] = p;
    b[at] = q;
    let cut = sym::bool();
    if cut { b.pop(); }
    let is = !cut && p == q;
    let (x, y) = (value(choose(2), &a), value(choose(2), &b));
    let t = String::from_utf8(b.clone()).unwrap();
    check((x == y) == is && (y == x) == is && (x == &t[..]) == is && (&t[..] == x) == is && (x == b[..]) == is && (b[..] == x) == is, "long values are equal exactly if their octets are");
    check(!is || hash(&x) == hash(&y), "equal values hash alike");
    if is { cover("equal") } else { cover("different") }
}
}
