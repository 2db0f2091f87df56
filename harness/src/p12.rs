//! P12: the text of a URL parses back to the same URL.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::*;

const SCHEMES: [(&str, Scheme, u16); 5] = [("http", Scheme::Http, 80), ("https", Scheme::Https, 443), ("ws", Scheme::Ws, 80), ("wss", Scheme::Wss, 443), ("ftp", Scheme::Ftp, 21)];
fn ascii(b: u8) -> bool { b < 128 }
fn opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()),
        (None, None) => true,
        _ => false,
    }
}

fn agree(u: &Url) {
    match Url::parse(u.to_string().into_bytes()) {
        Ok(r) => {
            check(r.scheme == u.scheme && r.port == u.port, "scheme and port");
            check(opt(&r.username, &u.username) && opt(&r.password, &u.password) && opt(&r.domain, &u.domain), "authority");
            check(same(r.path.as_bytes(), u.path.as_bytes()) && opt(&r.query, &u.query), "path and query");
            cover("round trip");
        }
        Err(_) => check(false, "the text of a URL parses"),
    }
}

harnesses! {
/// any ASCII text in two components at a time, fixed text in the rest (shard: scheme and which two)
fn h_p12_round() {
    let sh = shard();
    let (sn, s, dp) = &SCHEMES[sh % 5];
    let (c1, c2) = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)][sh / 5];
    let k = |i: usize| if c1 == c2 { if i == c1 { if tier() == 0 { 2 } else { 3 } } else { 0 } } else { (i == c1 || i == c2) as usize };
    let mk = |i: usize, fix: &[u8]| -> Str<8> {
        let mut t: Str<8> = Str::new();
        if i == 3 { t.put(b"/"); }
        if k(i) > 0 { t.sym(choose(k(i) as u8 + 1), ascii); } else { t.put(fix); }
        t
    };
    let user = mk(0, b"u:");
    let pass = mk(1, b"p@");
    let host = mk(2, b"h.x");
    let path = mk(3, b"a/?");
    let query = mk(4, b"k=%");
    let (hu, hq) = (c1 <= 1 || sym::bool(), c2 == 4 || sym::bool());
    let port = if sym::bool() { *dp } else { pick(&[0u16, 81, 443, 65535]) };
    let mut b = Url::builder().scheme(*sn).domain(host.string()).port(port).path(path.string());
    if hu { b = b.username(user.string()).password(pass.string()); }
    if hq { b = b.query(query.string()); }
    let u = match b.build() { Ok(u) => u, Err(_) => { check(false, "builds"); return; } };
    check(u.scheme == *s && u.port == Some(port), "the builder stores what it is given");
    let t = u.to_string();
    observe_bytes(t.as_bytes());
    match t.parse::<Url>() {
        Ok(r) => {
            check(r.scheme == u.scheme, "scheme");
            check(opt(&r.username, &u.username) && opt(&r.password, &u.password), "user information");
            check(opt(&r.domain, &u.domain), "host");
            check(r.port == u.port, "port");
            check(same(r.path.as_bytes(), u.path.as_bytes()), "path");
            check(opt(&r.query, &u.query), "query");
            cover("round trip");
        }
        Err(_) => check(false, "the text of a URL parses"),
    }
}
/// a target without authority
fn h_p12_origin() {
    // the number of symbolic bytes in path and query
    let (np, nq) = [(0, 0), (1, 1), (2, 0), (0, 2), (3, 0), (0, 3), (2, 1), (1, 2)][shard()];
    let path: Str<8> = { let mut s: Str<8> = Str::new(); s.put(b"/").sym(np, ascii); s };
    let query: Str<4> = sym_str(nq, ascii);
    let hq = nq > 0 || sym::bool();
    let mut u = Url::new();
    u.path = path.string();
    if hq { u.query = Some(query.string()); }
    match Url::parse(u.to_string().into_bytes()) {
        Ok(r) => {
            check(r.scheme == Scheme::None && r.domain.is_none(), "no authority appears");
            check(same(r.path.as_bytes(), u.path.as_bytes()), "path");
            check(opt(&r.query, &u.query), "query");
            cover("round trip");
        }
        Err(_) => check(false, "the text of a URL parses"),
    }
}
/// parsed, displayed, parsed again: nothing changes any more
fn h_p12_stable() {
    const PRE: &[&[u8]] = &[b"/", b"http://h/", b"http://", b"ws://u:p@h?", b"ftp://h:2"];
    let n = if tier() > 0 && shard() < 2 { 4 } else if tier() == 0 && shard() == 4 { 2 } else { 3 };
    let mut s: Str<32> = Str::new();
    s.put(PRE[shard()]).sym(n, |b| b < 128);
    if let Ok(u) = Url::parse(s.vec()) {
        match Url::parse(u.to_string().into_bytes()) {
            Ok(r) => {
                check(r.scheme == u.scheme && r.port == u.port, "scheme and port");
                check(opt(&r.username, &u.username) && opt(&r.password, &u.password) && opt(&r.domain, &u.domain), "authority");
                check(same(r.path.as_bytes(), u.path.as_bytes()) && opt(&r.query, &u.query), "path and query");
                cover("accepted");
            }
            Err(_) => check(false, "the text of a parsed URL parses"),
        }
    } else { cover("refused"); }
}
/// one component long
fn h_p12_long() {
    let n = LONG[shard() % LONG.len()];
    let what = shard() / LONG.len();
    let mut c: [String; 5] = ["u".to_string(), "p".to_string(), "h".to_string(), "/".to_string(), "q".to_string()];
    let t = long(n, b'x', ascii);
    c[what].push_str(unsafe { std::str::from_utf8_unchecked(&t) });
    let [c0, c1, c2, c3, c4] = c;
    let u = match Url::builder().scheme("wss").username(c0).password(c1).domain(c2).port(1).path(c3).query(c4).build() { Ok(u) => u, Err(_) => { check(false, "builds"); return; } };
    agree(&u);
}
/// characters beyond ASCII in any component
fn h_p12_chars() {
    const BASE: [u32; 6] = [0x80, 0x7c0, 0x800, 0xffc0, 0x10000, 0x10ffc0];
    let b = sym::u8();
    assume(b < 64);
    let ch = match char::from_u32(BASE[shard() % 6] + b as u32) { Some(c) => c, None => return };
    let what = shard() / 6;
    let mut c: [String; 5] = ["u".to_string(), "p".to_string(), "h".to_string(), "/".to_string(), "q".to_string()];
    c[what].push(ch);
    let [c0, c1, c2, c3, c4] = c;
    let u = match Url::builder().scheme("ftp").username(c0).password(c1).domain(c2).port(1).path(c3).query(c4).build() { Ok(u) => u, Err(_) => { check(false, "builds"); return; } };
    agree(&u);
}
/// any port behind any scheme, built (shard: scheme and block of 4096 ports)
fn h_p12_port() {
    let (sn, s, _) = &SCHEMES[shard() % 5];
    let port = ((shard() / 5 * 16 + choose(16)) as u16) << 8 | sym::u8() as u16;
    let u = match Url::builder().scheme(*sn).domain("h").port(port).path("/".to_string()).build() { Ok(u) => u, Err(_) => { check(false, "builds"); return; } };
    check(u.scheme == *s && u.port == Some(port), "the builder stores what it is given");
    agree(&u);
}
}
