//! P01: a well-formed HTTP/1 request head is decoded to what its bytes spell.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::*;

const METHODS: [(&str, Method); 9] = [
    ("GET", Method::GET), ("POST", Method::POST), ("PUT", Method::PUT), ("DELETE", Method::DELETE), ("HEAD", Method::HEAD),
    ("OPTIONS", Method::OPTIONS), ("PATCH", Method::PATCH), ("TRACE", Method::TRACE), ("CONNECT", Method::CONNECT),
];
const VERSIONS: [(&str, Version); 4] = [
    ("HTTP/1.1", Version::Http11), ("HTTP/1.0", Version::Http10), ("HTTP/2", Version::Http2), ("HTTP/3", Version::Http3),
];

fn opt(a: &Option<String>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => same(x.as_bytes(), y),
        (None, None) => true,
        _ => false,
    }
}
fn path_char(b: u8) -> bool {
    is_unreserved(b) || b == b'/' || b == b':' || b == b'=' || b == b'&' || b == b';' || b == b',' || b == b'+'
}
fn query_char(b: u8) -> bool {
    path_char(b) || b == b'?' || b == b'@'
}
fn run(head: &Str<256>, body: &[u8]) -> (Request<()>, bool) { runs(head.b(), body) }
fn runs(head: &[u8], body: &[u8]) -> (Request<()>, bool) {
    let mut all: Vec<u8> = Vec::with_capacity(head.len() + body.len());
    all.extend_from_slice(head);
    all.extend_from_slice(body);
    let mut q = Request::new();
    // an arbitrary earlier state must not leak into the result
    q.headers_mut().insert("stale", "x");
    let mut rest = &all[..];
    match q.parse_buffer(&mut rest) {
        Ok(n) => {
            check(n == head.len(), "consumed length is the length of the head");
            check(same(rest, body), "the body is left in the buffer untouched");
            check(q.is_complete() && !q.is_partial(), "complete");
            observe(n as u64);
            (q, true)
        }
        Err(e) => {
            observe(1000 + e.is_partial() as u64);
            check(false, "a well-formed head is accepted");
            (q, false)
        }
    }
}
/// a text of n octets, the first, the last and the one in the middle symbolic

harnesses! {
/// request line: every method and version, origin-form target with symbolic path and query
fn h_p01_line() {
    let (mn, m) = &METHODS[shard()];
    let (vn, v) = VERSIONS[choose(4)];
    let np = choose(if tier() == 0 { 5 } else { 8 });
    let nq = choose(if tier() == 0 { 4 } else { 6 }); // 0: no query
    let nb = choose(2);
    let path: Str<16> = { let mut s = Str::new(); s.put(b"/"); s.sym(np, path_char); s };
    let query: Str<16> = sym_str(if nq > 0 { nq - 1 } else { 0 }, query_char);
    let mut h: Str<256> = Str::new();
    h.put(mn.as_bytes()).put(b" ").put(path.b());
    if nq > 0 { h.put(b"?").put(query.b()); }
    h.put(b" ").put(vn.as_bytes()).put(b"\r\n\r\n");
    let body: [u8; 1] = arr();
    let (q, ok) = run(&h, &body[..nb]);
    if !ok { return; }
    check(q.method() == m, "method");
    check(q.version() == v, "version");
    observe_bytes(q.path().as_bytes());
    check(same(q.path().as_bytes(), path.b()), "path");
    check(opt(&q.url().query, if nq > 0 { Some(query.b()) } else { None }), "query");
    check(q.url().domain.is_none() && q.url().username.is_none() && q.url().password.is_none(), "no authority in origin form");
    check(q.headers().len() == 0, "no header fields");
    cover("line");
}
/// percent-escapes in the path decode to the escaped byte
fn h_p01_escape() {
    let hex = |v: u8, up: bool| -> u8 { if v < 10 { b'0' + v } else if up { b'A' + v - 10 } else { b'a' + v - 10 } };
    let v = u8();
    assume(v < 128);
    let (hi, lo) = (hex(v >> 4, true), hex(v & 15, sym::bool()));
    let mut h: Str<256> = Str::new();
    let inq = sym::bool();
    h.put(b"GET /a");
    if inq { h.put(b"?k="); }
    h.put(&[b'%', hi, lo]).put(b"z HTTP/1.1\r\n\r\n");
    let (q, ok) = run(&h, b"");
    if !ok { return; }
    if inq {
        check(same(q.path().as_bytes(), b"/a"), "path before an escaped query");
        check(opt(&q.url().query, Some(&[b'k', b'=', v, b'z'])), "escaped query byte");
        cover("query");
    } else {
        check(same(q.path().as_bytes(), &[b'/', b'a', v, b'z']), "escaped path byte");
        cover("path");
    }
}
/// header fields: symbolic names (case preserved on lookup), symbolic values, order kept, last of equal names wins
fn h_p01_fields() {
    let nh = 1 + choose(2);
    let mx = if tier() == 0 { 3 } else { 4 };
    let mut h: Str<256> = Str::new();
    h.put(b"POST / HTTP/1.1\r\n");
    let mut names = [Str::<8>::new(); 2];
    let mut vals = [Str::<8>::new(); 2];
    for i in 0..nh {
        names[i] = sym_str(1 + choose(if tier() == 0 { 2 } else { 3 }), is_tchar);
        vals[i] = sym_value(choose(mx));
        h.put(names[i].b()).put(b":");
        if i == 0 && sym::bool() { h.put(b"  "); } else { h.put(b" "); }
        h.put(vals[i].b()).put(b"\r\n");
    }
    h.put(b"\r\n");
    let (q, ok) = run(&h, b"xy");
    if !ok { return; }
    let dup = nh == 2 && ieq(names[0].b(), names[1].b());
    let got: Vec<&(HeaderName, HeaderValue)> = q.headers().iter().collect();
    observe(got.len() as u64);
    if dup {
        check(got.len() == 1, "equal names are one field");
        check(got.len() == 1 && same(got[0].1.as_bytes(), vals[1].b()), "the last of equal names wins");
        cover("dup");
    } else {
        check(got.len() == nh, "number of fields");
        let mut i = 0;
        while i < nh && i < got.len() {
            check(ieq(got[i].0.as_bytes(), names[i].b()), "field name");
            observe_bytes(got[i].1.as_bytes());
            check(same(got[i].1.as_bytes(), vals[i].b()), "field value");
            i += 1;
        }
        cover("distinct");
    }
}
/// Host header decides the authority of an origin-form request
fn h_p01_host() {
    let nd = 1 + choose(if tier() == 0 { 3 } else { 5 });
    let host: Str<8> = sym_str(nd, is_regname);
    let withport = sym::bool();
    let port = sym::u16();
    let mut h: Str<256> = Str::new();
    h.put(b"GET /p HTTP/1.1\r\n");
    h.put(pick(&["Host", "host", "HOST"]).as_bytes()).put(b": ").put(host.b());
    let mut digits: Str<8> = Str::new();
    if withport {
        let nd = 1 + choose(4);
        digits.sym(nd, |b| matches!(b, b'0'..=b'9'));
        let mut p = 0u32;
        for i in 0..nd { p = p * 10 + (digits.d[i] - b'0') as u32; }
        assume(p == port as u32);
        h.put(b":").put(digits.b());
    } else { assume(port == 80); }
    h.put(b"\r\n\r\n");
    let (q, ok) = run(&h, b"");
    if !ok { return; }
    check(opt(&q.url().domain, Some(host.b())), "authority host");
    check(q.url().port == Some(port), "authority port");
    check(q.url().scheme == Scheme::Http, "default scheme");
    check(opt(&q.get_host(), Some(host.b())), "host accessor");
    if withport { cover("port"); } else { cover("noport"); }
}
/// absolute-form and authority-form (CONNECT) targets
fn h_p01_target() {
    let nd = 1 + choose(if tier() == 0 { 3 } else { 4 });
    let host: Str<8> = sym_str(nd, is_regname);
    let np = 1 + choose(3);
    let digits: Str<8> = sym_str(np, |b| matches!(b, b'0'..=b'9'));
    let mut p = 0u16;
    for i in 0..np { p = p * 10 + (digits.d[i] - b'0') as u16; }
    let mut h: Str<256> = Str::new();
    if sym::bool() {
        h.put(b"CONNECT ").put(host.b()).put(b":").put(digits.b()).put(b" HTTP/1.1\r\n\r\n");
        let (q, ok) = run(&h, b"");
        if !ok { return; }
        check(*q.method() == Method::Connect, "method");
        check(opt(&q.url().domain, Some(host.b())), "tunnel host");
        check(q.url().port == Some(p), "tunnel port");
        cover("connect");
    } else {
        let (sn, s) = pick(&[("http", 0), ("https", 1), ("ws", 2), ("wss", 3)]);
        let path: Str<8> = { let mut s = Str::new(); s.put(b"/"); s.sym(choose(3), path_char); s };
        h.put(b"GET ").put(sn.as_bytes()).put(b"://").put(host.b()).put(b":").put(digits.b()).put(path.b());
        h.put(b" HTTP/1.1\r\nHost: other\r\n\r\n");
        let (q, ok) = run(&h, b"");
        if !ok { return; }
        let want = [Scheme::Http, Scheme::Https, Scheme::Ws, Scheme::Wss][s].clone();
        check(q.url().scheme == want, "scheme");
        check(opt(&q.url().domain, Some(host.b())), "the target's host, not the Host field's");
        check(q.url().port == Some(p), "port");
        check(same(q.path().as_bytes(), path.b()), "path");
        cover("absolute");
    }
}
/// three units of path or query text, each a plain octet or an escape: every escape is resolved exactly once
fn h_p01_escapes() {
    let hex = |v: u8, up: bool| -> u8 { if v < 10 { b'0' + v } else if up { b'A' + v - 10 } else { b'a' + v - 10 } };
    let mut h: Str<256> = Str::new();
    let inq = shard() >= 8;
    h.put(b"GET /");
    if inq { h.put(b"?"); }
    let mut want: Str<8> = Str::new();
    for i in 0..3 {
        let v = u8();
        if shard() >> i & 1 == 0 {
            assume(path_char(v));
            h.put(&[v]);
        } else {
            assume(v < 128);
            h.put(&[b'%', hex(v >> 4, false), hex(v & 15, true)]);
        }
        want.put(&[v]);
    }
    h.put(b" HTTP/1.1\r\n\r\n");
    let (q, ok) = run(&h, b"");
    if !ok { return; }
    if inq { check(opt(&q.url().query, Some(want.b())), "query with several escapes"); }
    else { check(q.path().as_bytes().len() == 4 && same(&q.path().as_bytes()[1..], want.b()), "path with several escapes"); }
    cover("escapes");
}
/// escaped characters of two to four octets
fn h_p01_utf8() {
    let hex = |v: u8| -> u8 { if v < 10 { b'0' + v } else { b'A' + v - 10 } };
    let k = 2 + shard();
    let mut c = [0u8; 4];
    bytes(&mut c[..k]);
    // one two-, three- or four-octet character (the ranges of RFC 3629)
    for i in 1..k { assume(c[i] >= 0x80 && c[i] <= 0xbf); }
    if k == 2 { assume(c[0] >= 0xc2 && c[0] <= 0xdf); }
    if k == 3 { assume(c[0] >= 0xe0 && c[0] <= 0xef && (c[0] != 0xe0 || c[1] >= 0xa0) && (c[0] != 0xed || c[1] <= 0x9f)); }
    if k == 4 { assume(c[0] >= 0xf0 && c[0] <= 0xf4 && (c[0] != 0xf0 || c[1] >= 0x90) && (c[0] != 0xf4 || c[1] <= 0x8f)); }
    let mut h: Str<256> = Str::new();
    h.put(b"GET /a");
    for i in 0..k { h.put(&[b'%', hex(c[i] >> 4), hex(c[i] & 15)]); }
    h.put(b"b HTTP/1.1\r\n\r\n");
    let (q, ok) = run(&h, b"");
    if !ok { return; }
    let p = q.path().as_bytes();
    check(p.len() == k + 3 && same(&p[2..2 + k], &c[..k]) && p[1] == b'a' && p[k + 2] == b'b', "escaped character of several octets");
    cover("utf8");
}
/// asterisk form, absolute form without a port, with user information and with a query
fn h_p01_forms() {
    let mut h: Str<256> = Str::new();
    let host: Str<8> = sym_str(1 + choose(2), is_regname);
    match shard() {
        0 => {
            let (vn, v) = VERSIONS[choose(4)];
            h.put(b"OPTIONS * ").put(vn.as_bytes()).put(b"\r\nHost: ").put(host.b()).put(b"\r\n\r\n");
            let (q, ok) = run(&h, b"z");
            if !ok { return; }
            check(*q.method() == Method::Options && q.version() == v, "method and version");
            check(same(q.path().as_bytes(), b"*"), "asterisk form");
            check(opt(&q.get_host(), Some(host.b())), "host of asterisk form");
            cover("asterisk");
        }
        1 => {
            let (sn, s, d) = pick(&[("http", 0, 80u16), ("https", 1, 443), ("ws", 2, 80), ("wss", 3, 443)]);
            let (user, pass): (Str<8>, Str<8>) = (sym_str(1, is_regname), sym_str(1, is_regname));
            let auth = sym::bool();
            let path: Str<8> = { let mut s = Str::new(); s.put(b"/"); s.sym(choose(2), path_char); s };
            let query: Str<8> = sym_str(choose(2), path_char);
            let hasq = sym::bool();
            h.put(b"GET ").put(sn.as_bytes()).put(b"://");
            if auth { h.put(user.b()).put(b":").put(pass.b()).put(b"@"); }
            h.put(host.b()).put(path.b());
            if hasq { h.put(b"?").put(query.b()); }
            h.put(b" HTTP/1.1\r\n\r\n");
            let (q, ok) = run(&h, b"z");
            if !ok { return; }
            let want = [Scheme::Http, Scheme::Https, Scheme::Ws, Scheme::Wss][s].clone();
            check(q.url().scheme == want, "scheme");
            check(opt(&q.url().domain, Some(host.b())), "host");
            check(q.url().port == Some(d), "default port of the scheme");
            check(same(q.path().as_bytes(), path.b()), "path");
            check(opt(&q.url().query, if hasq { Some(query.b()) } else { None }), "query");
            check(opt(&q.url().username, if auth { Some(user.b()) } else { None }), "user name");
            check(opt(&q.url().password, if auth { Some(pass.b()) } else { None }), "password");
            cover("absolute");
        }
        _ => {
            // a five-digit port in the Host field
            let digits: Str<8> = sym_str(5, |b| matches!(b, b'0'..=b'9'));
            let mut p = 0u32;
            for i in 0..5 { p = p * 10 + (digits.d[i] - b'0') as u32; }
            assume(p <= 65535);
            h.put(b"GET / HTTP/1.1\r\nHost: ").put(host.b()).put(b":").put(digits.b()).put(b"\r\n\r\n");
            let (q, ok) = run(&h, b"");
            if !ok { return; }
            check(q.url().port.map(|x| x as u32) == Some(p), "five-digit port");
            cover("port");
        }
    }
}
/// long components
fn h_p01_long() {
    let n = LONG[shard() % LONG.len()];
    let what = shard() / LONG.len();
    let mut h: Vec<u8> = Vec::with_capacity(n + 100);
    let (mut path, mut query, mut name, mut value, mut host) = (b"/".to_vec(), vec![], b"x".to_vec(), vec![], b"h".to_vec());
    match what {
        0 => path.extend_from_slice(&long(n, b'p', path_char)),
        1 => query = long(n, b'q', query_char),
        2 => name = long(n, b'N', |b| is_alnum(b) || b == b'-'),
        3 => {
            value = long(n, b'v', is_field_char);
            assume(value[0] != b' ' && value[0] != b'\t' && value[n - 1] != b' ' && value[n - 1] != b'\t');
        }
        _ => host = long(n, b'h', is_alnum),
    }
    h.extend_from_slice(b"PUT ");
    h.extend_from_slice(&path);
    h.extend_from_slice(b"?");
    h.extend_from_slice(&query);
    h.extend_from_slice(b" HTTP/1.1\r\nHost: ");
    h.extend_from_slice(&host);
    h.extend_from_slice(b"\r\n");
    h.extend_from_slice(&name);
    h.extend_from_slice(b": ");
    h.extend_from_slice(&value);
    h.extend_from_slice(b"\r\n\r\n");
    let (q, ok) = runs(&h, b"z");
    if !ok { return; }
    check(*q.method() == Method::Put, "method");
    check(same(q.path().as_bytes(), &path), "long path");
    check(opt(&q.url().query, Some(&query)), "long query");
    check(opt(&q.url().domain, Some(&host)), "long host");
    check(q.headers().len() == 2, "number of fields");
    let got: Vec<&(HeaderName, HeaderValue)> = q.headers().iter().collect();
    if got.len() == 2 {
        check(ieq(got[1].0.as_bytes(), &name), "long field name");
        check(same(got[1].1.as_bytes(), &value), "long field value");
    }
    cover("long");
}
/// many fields
fn h_p01_many() {
    let k = [3usize, 5, 9, 17, 33, 65, 129][shard()];
    let mut h: Vec<u8> = Vec::with_capacity(k * 10 + 50);
    let v: [u8; 2] = arr();
    assume(is_alnum(v[0]) && is_alnum(v[1]));
    h.extend_from_slice(b"GET / HTTP/1.1\r\n");
    let name = |i: usize| [b'a' + (i % 26) as u8, b'a' + (i / 26) as u8];
    for i in 0..k {
        h.extend_from_slice(&name(i));
        h.extend_from_slice(b": ");
        h.push(if i == 0 { v[0] } else if i == k - 1 { v[1] } else { b'0' + (i % 10) as u8 });
        h.extend_from_slice(b"\r\n");
    }
    h.extend_from_slice(b"\r\n");
    let (q, ok) = runs(&h, b"z");
    if !ok { return; }
    check(q.headers().len() == k, "number of fields");
    let got: Vec<&(HeaderName, HeaderValue)> = q.headers().iter().collect();
    for i in 0..got.len() {
        check(same(got[i].0.as_bytes(), &name(i)), "name of one of many fields");
        let want = if i == 0 { v[0] } else if i == k - 1 { v[1] } else { b'0' + (i % 10) as u8 };
        check(same(got[i].1.as_bytes(), &[want]), "value of one of many fields");
    }
    cover("many");
}
/// every method with every version, form of the target and set of fields (shard: method)
fn h_p01_combo() {
    let (mn, m) = &METHODS[shard()];
    let (vn, v) = VERSIONS[choose(4)];
    let form = if *m == Method::CONNECT { 4 } else { choose(4) };
    let (host, other): (Str<8>, Str<8>) = (sym_str(2, is_regname), sym_str(1, is_regname));
    let x: Str<8> = sym_str(1, is_alnum);
    let mut h: Str<256> = Str::new();
    h.put(mn.as_bytes()).put(b" ");
    match form {
        0 => { h.put(b"/").put(x.b()); }
        1 => { h.put(b"/?").put(x.b()); }
        2 => { h.put(b"http://").put(host.b()).put(b":81/").put(x.b()); }
        3 => { h.put(b"https://").put(host.b()).put(b"/").put(x.b()).put(b"?q"); }
        _ => { h.put(host.b()).put(b":81"); }
    }
    h.put(b" ").put(vn.as_bytes()).put(b"\r\n");
    let hf = choose(3);
    let before = choose(3);
    let after = choose(3);
    for i in 0..before { h.put(&[b'b', b'0' + i as u8]).put(b": ").put(x.b()).put(b"\r\n"); }
    if hf > 0 { h.put(b"Host: ").put(other.b()); if hf == 2 { h.put(b":82"); } h.put(b"\r\n"); }
    for i in 0..after { h.put(&[b'a', b'0' + i as u8]).put(b": ").put(x.b()).put(b"\r\n"); }
    h.put(b"\r\n");
    let (q, ok) = run(&h, b"z");
    if !ok { return; }
    check(q.method() == m && q.version() == v, "method and version");
    let u = q.url();
    if form < 4 {
        let path: Str<8> = { let mut s = Str::new(); s.put(b"/"); if form != 1 { s.put(x.b()); } s };
        check(same(u.path.as_bytes(), path.b()), "path");
        check(opt(&u.query, match form { 1 => Some(x.b()), 3 => Some(b"q"), _ => None }), "query");
        check(u.scheme == if form == 3 { Scheme::Https } else { Scheme::Http }, "scheme");
    }
    if form >= 2 {
        check(opt(&u.domain, Some(host.b())), "the target's host, not the Host field's");
        check(u.port == Some(if form == 3 { 443 } else { 81 }), "the target's port");
    } else if hf > 0 {
        check(opt(&u.domain, Some(other.b())) && u.port == Some(if hf == 2 { 82 } else { 80 }), "authority of the Host field");
    } else {
        check(u.domain.is_none(), "no authority");
    }
    check(u.username.is_none() && u.password.is_none(), "no user information");
    let n = before + (hf > 0) as usize + after;
    check(q.headers().len() == n, "number of fields");
    for i in 0..before { check(has(q.headers(), i, &[b'b', b'0' + i as u8], x.b()), "field before"); }
    for i in 0..after { check(has(q.headers(), n - after + i, &[b'a', b'0' + i as u8], x.b()), "field after"); }
    if hf > 0 {
        let mut o: Str<16> = Str::new();
        o.put(other.b());
        if hf == 2 { o.put(b":82"); }
        check(has(q.headers(), before, b"Host", o.b()), "the Host field itself");
    }
    cover("combination");
}
}
