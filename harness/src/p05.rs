//! P05: what is serialised parses back to the same message, and the reported
//! size is the number of bytes written.
use crate::gen::*;
use crate::sym::{self, *};
use algorithm::buf::{Binary, BinaryMut, Bt, BtMut};
use webparse::*;

const METHODS: [Method; 9] = [
    Method::GET, Method::POST, Method::PUT, Method::DELETE, Method::HEAD,
    Method::OPTIONS, Method::PATCH, Method::TRACE, Method::CONNECT,
];
const VERSIONS: [Version; 4] = [Version::Http11, Version::Http10, Version::Http2, Version::Http3];
const SOME: [u16; 12] = [100, 101, 200, 204, 206, 301, 304, 400, 404, 429, 500, 511];

fn opt(a: &Option<String>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => same(x.as_bytes(), y),
        (None, None) => true,
        _ => false,
    }
}
fn ascii(b: u8) -> bool { b < 128 }

fn same_fields(a: &HeaderMap, b: &HeaderMap) -> bool {
    if a.len() != b.len() { return false; }
    for ((n, v), (m, w)) in a.iter().zip(b.iter()) {
        if !same(n.as_bytes(), m.as_bytes()) || !same(v.as_bytes(), w.as_bytes()) { return false; }
    }
    true
}

harnesses! {
/// request line: any ASCII path and query text, all methods and versions
fn h_p05_request() {
    let m = METHODS[shard()].clone();
    let v = VERSIONS[choose(4)];
    let np = choose(if tier() == 0 { 3 } else { 4 });
    let nq = choose(if tier() == 0 { 3 } else { 4 });
    let path: Str<8> = { let mut s = Str::new(); s.put(b"/").sym(np, ascii); s };
    let query: Str<8> = sym_str(if nq > 0 { nq - 1 } else { 0 }, ascii);
    let mut q: Request<Vec<u8>> = Request::new().into(vec![7u8, 8]).0;
    q.set_method(m.clone());
    q.set_version(v);
    q.url_mut().path = path.string();
    if nq > 0 { q.url_mut().query = Some(query.string()); }
    let mut out = Buf::<160>::new();
    let n = match q.encode_header(&mut out) { Ok(n) => n, Err(_) => { check(false, "a complete request encodes"); return; } };
    check(n == out.all().len(), "reported size is what was written");
    observe_bytes(out.all());
    let data = match q.http1_data() { Ok(d) => d, Err(_) => { check(false, "a complete request encodes"); return; } };
    check(data.len() == n + 2 && same(&data[..n], out.all()) && data[n] == 7 && data[n + 1] == 8, "head, then body");
    let mut p = Request::new();
    match p.parse_buffer(&mut &data[..]) {
        Ok(k) => {
            check(k == n, "the parser stops where the body begins");
            check(*p.method() == m, "method");
            check(p.version() == v, "version");
            check(same(p.path().as_bytes(), path.b()), "path");
            check(opt(&p.url().query, if nq > 0 { Some(query.b()) } else { None }), "query");
            cover("round trip");
        }
        Err(_) => check(false, "a serialised request parses"),
    }
}
/// CONNECT carries host and port
fn h_p05_connect() {
    let host: Str<8> = sym_str(1 + choose(4), is_regname);
    let port = sym::u16();
    if tier() == 0 { assume(port < 200 || port > 65500); }
    let mut q = Request::new();
    q.set_method(Method::Connect);
    q.url_mut().domain = Some(host.string());
    q.url_mut().port = Some(port);
    let mut out = Buf::<160>::new();
    let n = match q.encode_header(&mut out) { Ok(n) => n, Err(_) => { check(false, "encodes"); return; } };
    check(n == out.all().len(), "reported size is what was written");
    let mut p = Request::new();
    match p.parse_buffer(&mut out.all()) {
        Ok(k) => {
            check(k == n, "all consumed");
            check(opt(&p.url().domain, Some(host.b())), "host");
            check(p.url().port == Some(port), "port");
            cover("connect");
        }
        Err(_) => check(false, "a serialised request parses"),
    }
}
/// header fields, in requests and responses
fn h_p05_fields() {
    let nh = choose(3);
    let isreq = sym::bool();
    let mut names = [Str::<8>::new(); 2];
    let mut vals = [Str::<8>::new(); 2];
    let mut hm = HeaderMap::new();
    for i in 0..nh {
        names[i] = sym_str(1 + choose(if tier() == 0 { 2 } else { 3 }), is_tchar);
        vals[i] = sym_value(choose(if tier() == 0 { 4 } else { 5 }));
        hm.insert(names[i].string(), HeaderValue::from_bytes(vals[i].b()));
    }
    assume(nh < 2 || !ieq(names[0].b(), names[1].b()));
    let mut out = Buf::<160>::new();
    let mut want: Str<160> = Str::new();
    let r;
    if isreq {
        let mut q = Request::new();
        q.set_method(Method::Get);
        q.url_mut().path = "/".to_string();
        *q.headers_mut() = hm;
        r = q.encode_header(&mut out).ok();
        want.put(b"GET / HTTP/1.1\r\n");
    } else {
        let mut q = Response::new(());
        *q.headers_mut() = hm;
        r = q.encode_header(&mut out).ok();
        want.put(b"HTTP/1.1 200 OK\r\n");
    }
    for i in 0..nh { want.put(names[i].b()).put(b": ").put(vals[i].b()).put(b"\r\n"); }
    want.put(b"\r\n");
    check(r == Some(out.all().len()), "reported size is what was written");
    check(same(out.all(), want.b()), "fields are written in order, name: value");
    let got: Option<HeaderMap>;
    if isreq {
        let mut p = Request::new();
        got = p.parse_buffer(&mut out.all()).ok().map(|_| p.headers().clone());
    } else {
        let mut p = Response::new(());
        got = p.parse_buffer(&mut out.all()).ok().map(|_| p.headers().clone());
    }
    match got {
        None => check(false, "serialised fields parse"),
        Some(g) => {
            check(g.len() == nh, "number of fields");
            for (i, (n, v)) in g.iter().enumerate() {
                if i < nh {
                    check(same(n.as_bytes(), names[i].b()), "name as written");
                    check(same(v.as_bytes(), vals[i].b()), "value as written");
                }
            }
            if isreq { cover("request") } else { cover("response") }
        }
    }
}
/// responses: every code with a registered reason, all versions, body after the head
fn h_p05_response() {
    let code = sym::u16();
    assume(code >= 100 && code < 1000);
    let v = VERSIONS[choose(4)];
    let body: [u8; 2] = arr();
    let nb = choose(3);
    let mut q: Response<Vec<u8>> = Response::new(body[..nb].to_vec());
    let st = match StatusCode::from_u16(code) { Ok(s) => s, Err(_) => { check(false, "100..999 is a status code"); return; } };
    *q.status_mut() = st;
    *q.version_mut() = v;
    q.headers_mut().insert("content-length", nb);
    let known = st.canonical_reason().is_some();
    match q.httpdata() {
        Ok(d) => {
            observe_bytes(&d);
            let mut out = Buf::<160>::new();
            let n = q.encode_header(&mut out).ok();
            check(n == Some(out.all().len()), "reported size is what was written");
            let n = n.unwrap_or(0);
            check(d.len() == n + nb && same(&d[..n], out.all()) && same(&d[n..], &body[..nb]), "head, then body");
            let mut p = Response::new(());
            match p.parse_buffer(&mut &d[..]) {
                Ok(k) => {
                    check(k == n, "the parser stops where the body begins");
                    check(p.status() == st && p.status().as_u16() == code, "status");
                    check(p.version() == v, "version");
                    check(p.get_body_len() == nb as isize, "content length");
                    cover("round trip");
                }
                Err(_) => check(false, "a serialised response parses"),
            }
        }
        Err(_) => { observe(3); check(!known, "a status with a reason phrase encodes"); cover("no reason"); }
    }
}
/// the textual form is the wire form
fn h_p05_display() {
    let k = choose(SOME.len() as u8);
    let val: Str<8> = sym_value(choose(4));
    let mut i = 0;
    while i < val.n { assume(val.d[i] < 128); i += 1; }
    let mut q: Response<String> = Response::new("b".to_string());
    *q.status_mut() = StatusCode::from_u16(SOME[k]).unwrap();
    q.headers_mut().insert("A", val.string());
    let s = q.to_string();
    match q.httpdata() { Ok(d) => { check(same(&d, s.as_bytes()), "response text equals wire bytes"); cover("response"); } Err(_) => check(false, "encodes") }
    let mut r: Request<String> = Request::new().into("b".to_string()).0;
    r.set_method(METHODS[choose(8)].clone());
    r.url_mut().path = { let mut s: Str<8> = Str::new(); s.put(b"/").sym(2, ascii); s.string() };
    r.headers_mut().insert("A", val.string());
    let s = r.to_string();
    match r.http1_data() { Ok(d) => { check(same(&d, s.as_bytes()), "request text equals wire bytes"); cover("request"); } Err(_) => check(false, "encodes") }
}
/// long parts: path, query, body of a request; value, name and body of either
fn h_p05_long() {
    let n = LONG[shard() % LONG.len()];
    let what = shard() / LONG.len();
    let (mut path, mut query, mut name, mut value, mut body) = (b"/".to_vec(), b"q".to_vec(), b"x".to_vec(), b"v".to_vec(), vec![1u8]);
    match what {
        0 => path.extend_from_slice(&long(n, b'p', ascii)),
        1 => query = long(n, b'q', ascii),
        2 => name = long(n, b'N', |b| is_alnum(b) || b == b'-'),
        3 => {
            value = long(n, b'v', is_field_char);
            assume(value[0] != b' ' && value[0] != b'\t' && value[n - 1] != b' ' && value[n - 1] != b'\t');
        }
        _ => body = long(n, 0, |_| true),
    }
    if sym::bool() {
        let mut q: Request<Vec<u8>> = Request::new().into(body.clone()).0;
        q.set_method(Method::Put);
        q.url_mut().path = unsafe { String::from_utf8_unchecked(path.clone()) };
        q.url_mut().query = Some(unsafe { String::from_utf8_unchecked(query.clone()) });
        q.headers_mut().insert(unsafe { String::from_utf8_unchecked(name.clone()) }, HeaderValue::from_bytes(&value));
        let d = match q.http1_data() { Ok(d) => d, Err(_) => { check(false, "a complete request encodes"); return; } };
        let mut p = Request::new();
        match p.parse_buffer(&mut &d[..]) {
            Ok(k) => {
                check(k <= d.len() && same(&d[k..], &body), "body after the head");
                check(*p.method() == Method::Put && same(p.path().as_bytes(), &path) && opt(&p.url().query, Some(&query)), "long request line");
                check(p.headers().len() == 1, "number of fields");
                for (a, b) in p.headers().iter() { check(same(a.as_bytes(), &name) && same(b.as_bytes(), &value), "long field"); }
                cover("request");
            }
            Err(_) => check(false, "a serialised request parses"),
        }
    } else {
        let mut q: Response<Vec<u8>> = Response::new(body.clone());
        q.headers_mut().insert(unsafe { String::from_utf8_unchecked(name.clone()) }, HeaderValue::from_bytes(&value));
        let d = match q.httpdata() { Ok(d) => d, Err(_) => { check(false, "a response encodes"); return; } };
        let mut p = Response::new(());
        match p.parse_buffer(&mut &d[..]) {
            Ok(k) => {
                check(k <= d.len() && same(&d[k..], &body), "body after the head");
                check(p.headers().len() == 1, "number of fields");
                for (a, b) in p.headers().iter() { check(same(a.as_bytes(), &name) && same(b.as_bytes(), &value), "long field"); }
                cover("response");
            }
            Err(_) => check(false, "a serialised response parses"),
        }
    }
}
/// many fields, in requests and responses
fn h_p05_many() {
    let k = [3usize, 5, 9, 17, 33, 65, 129][shard()];
    let v: [u8; 3] = arr();
    assume(is_alnum(v[0]) && is_alnum(v[1]) && is_alnum(v[2]));
    let name = |i: usize| { let mut s = String::new(); s.push((b'A' + (i % 26) as u8) as char); s.push((b'a' + (i / 26) as u8) as char); s };
    let val = |i: usize| if i == 0 { v[0] } else if i == k - 1 { v[1] } else if i == k / 2 { v[2] } else { b'0' + (i % 10) as u8 };
    let mut hm = HeaderMap::new();
    for i in 0..k { hm.insert(name(i), HeaderValue::from_bytes(&[val(i)])); }
    let mut out: Vec<u8> = Vec::with_capacity(k * 10 + 50);
    let got;
    let size;
    if sym::bool() {
        let mut q = Request::new();
        *q.headers_mut() = hm;
        q.set_method(Method::Get);
        q.url_mut().path = "/".to_string();
        let mut b = algorithm::buf::BinaryMut::new();
        size = q.encode_header(&mut b).ok();
        out.extend_from_slice(algorithm::buf::Bt::chunk(&b));
        let mut p = Request::new();
        got = p.parse_buffer(&mut &out[..]).ok().map(|_| p.headers().clone());
        cover("request");
    } else {
        let mut q = Response::new(());
        *q.headers_mut() = hm;
        let mut b = algorithm::buf::BinaryMut::new();
        size = q.encode_header(&mut b).ok();
        out.extend_from_slice(algorithm::buf::Bt::chunk(&b));
        let mut p = Response::new(());
        got = p.parse_buffer(&mut &out[..]).ok().map(|_| p.headers().clone());
        cover("response");
    }
    check(size == Some(out.len()), "reported size is what was written");
    match got {
        None => check(false, "serialised fields parse"),
        Some(g) => {
            check(g.len() == k, "number of fields");
            for (i, (a, b)) in g.iter().enumerate() {
                check(same(a.as_bytes(), name(i).as_bytes()) && same(b.as_bytes(), &[val(i)]), "one of many fields");
            }
        }
    }
}
/// any character in path and query
fn h_p05_chars() {
    const BASE: [u32; 10] = [0x80, 0x7c0, 0x800, 0xfc0, 0xd7c0, 0xe000, 0xffc0, 0x10000, 0x1f600, 0x10ffc0];
    let c = sym::u8();
    assume(c < 64);
    let c = match char::from_u32(BASE[shard()] + c as u32) { Some(c) => c, None => return };
    let mut path = String::from("/a");
    path.push(c);
    let mut query = String::from("");
    query.push(c);
    query.push('b');
    let mut q = Request::new();
    q.set_method(Method::Get);
    q.url_mut().path = path.clone();
    q.url_mut().query = Some(query.clone());
    let mut out = Buf::<160>::new();
    let n = q.encode_header(&mut out).ok();
    check(n == Some(out.all().len()), "reported size is what was written");
    for b in out.all() { check(*b < 128, "the head is ASCII"); }
    let mut p = Request::new();
    match p.parse_buffer(&mut out.all()) {
        Ok(k) => {
            check(Some(k) == n && same(p.path().as_bytes(), path.as_bytes()) && opt(&p.url().query, Some(query.as_bytes())), "characters of path and query");
            cover("round trip");
        }
        Err(_) => check(false, "a serialised request parses"),
    }
}
/// a body of each kind follows the head octet by octet, for a request and a response
fn h_p05_bodies() {
    let n = [0usize, 1, 3, 17, 300, 4099, 66000][shard() % 7];
    let d = long(n, b'b', ascii);
    let text = unsafe { String::from_utf8_unchecked(d.clone()) };
    fn is<T: Serialize>(body: T, d: &[u8]) {
        let (mut q, _) = Request::new().into(body);
        q.set_method(Method::PUT);
        q.headers_mut().insert("A", "b");
        let mut head: Vec<u8> = Vec::new();
        let mut hb = BinaryMut::new();
        let hn = q.encode_header(&mut hb).unwrap_or(0);
        head.extend_from_slice(hb.chunk());
        check(hn == head.len(), "reported size is what was written");
        match q.http1_data() { Ok(w) => check(w.len() == hn + d.len() && same(&w[..hn], &head) && same(&w[hn..], d), "head, then body"), Err(_) => check(false, "encodes") }
        let mut r = q.into(()).0;
        r.set_version(Version::Http10);
        let _ = r;
    }
    fn is2<T: Serialize>(body: T, d: &[u8]) {
        let mut q = Response::new(body);
        q.headers_mut().insert("A", "b");
        let mut hb = BinaryMut::new();
        let hn = q.encode_header(&mut hb).unwrap_or(0);
        check(hn == hb.remaining(), "reported size is what was written");
        match q.httpdata() { Ok(w) => check(w.len() == hn + d.len() && same(&w[..hn], hb.chunk()) && same(&w[hn..], d), "head, then body"), Err(_) => check(false, "encodes") }
    }
    fn size<T: Serialize>(mut body: T, d: &[u8]) {
        let mut b = BinaryMut::new();
        b.put_slice(b"<");
        check(body.serialize(&mut b).ok() == Some(d.len()) && b.remaining() == d.len() + 1 && same(&b.chunk()[1..], d), "a body writes its octets and says how many");
    }
    let adv = if n > 1 { choose(2) } else { 0 };
    match shard() / 7 {
        0 => { is(d.clone(), &d); is2(d.clone(), &d); size(d.clone(), &d); }
        1 => { is(text.clone(), &d); is2(text.clone(), &d); size(text, &d); }
        2 => { is(&d[..], &d); is2(&d[..], &d); size(&d[..], &d); }
        3 => { let mut b = Binary::from(d.clone()); b.advance(adv); is(b.clone(), &d[adv..]); is2(b.clone(), &d[adv..]); size(b, &d[adv..]); }
        4 => {
            let mk = || { let mut b = BinaryMut::new(); b.put_slice(&d); b.advance(adv); b };
            is(mk(), &d[adv..]); is2(mk(), &d[adv..]); size(mk(), &d[adv..]);
        }
        _ => { is("literal", b"literal"); is2("", b""); size("literal", b"literal"); is((), b""); is2((), b""); size((), b""); }
    }
    cover("body");
}
/// any octets that parse as a head: written out, the message reads back as it was (shard: place)
fn h_p05_any() {
    let t: &[(&[u8], &[u8], usize)] = &[
        (b"GET /", b" HTTP/1.1\r\nA: b\r\n\r\n", 3),
        (b"GET /%", b" HTTP/1.1\r\nA: b\r\n\r\n", 3),
        (b"GET /a?", b" HTTP/1.1\r\nA: b\r\n\r\n", 3),
        (b"GET /a?%", b"=b HTTP/1.1\r\nA: b\r\n\r\n", 3),
        (b"OPTIONS ", b" HTTP/1.1\r\nA: b\r\n\r\n", 2),
        (b"CONNECT ", b" HTTP/1.1\r\nA: b\r\n\r\n", 3),
        (b"CONNECT a:", b" HTTP/1.1\r\n\r\n", 2),
        (b"GET http://", b"/b HTTP/1.1\r\nA: b\r\n\r\n", 2),
        (b"GET /a HTTP/1.1\r\nA", b"b\r\n\r\n", 4),
        (b"GET /a HTTP/1.1\r\nA:", b"b\r\n\r\n", 4),
        (b"GET /a HTTP/1.1\r\nA: b", b"\r\n\r\n", 4),
        (b"GET /a HTTP/1.1\r\nA: b\r\n", b": c\r\n\r\n", 3),
        (b"GET /a HTTP/1.1\r\nHost: ", b"\r\n\r\n", 2),
        (b"HTTP/1.1 20", b"\r\nA: b\r\n\r\n", 4),
        (b"HTTP/1.1 200 OK\r\nA", b"b\r\n\r\n", 4),
        (b"HTTP/1.1 200 OK\r\nA:", b"b\r\n\r\n", 4),
    ];
    let (a, z, k) = t[shard()];
    let k = if tier() == 0 { k } else { k + 1 };
    let mut s: Str<96> = Str::new();
    s.put(a).sym(choose(k as u8 + 1), |_| true).put(z);
    let mut out = Buf::<400>::new();
    if shard() < 13 {
        let mut q = Request::new();
        if q.parse_buffer(&mut s.b()).is_err() { cover("refused"); return; }
        let n = match q.encode_header(&mut out) { Ok(n) => n, Err(_) => { check(false, "what was parsed can be written"); return; } };
        check(n == out.all().len(), "reported size is what was written");
        observe_bytes(out.all());
        let mut p = Request::new();
        match p.parse_buffer(&mut out.all()) {
            Ok(k) => {
                check(k == n, "the head ends where it was written to");
                check(p.method() == q.method() && p.version() == q.version(), "method and version");
                check(same(p.path().as_bytes(), q.path().as_bytes()), "path");
                check(opt(&p.url().query, q.url().query.as_ref().map(|x| x.as_bytes())), "query");
                if *q.method() == Method::CONNECT {
                    check(opt(&p.url().domain, q.url().domain.as_ref().map(|x| x.as_bytes())) && p.url().port == q.url().port, "authority");
                }
                check(same_fields(p.headers(), q.headers()), "fields");
                cover("round trip");
            }
            Err(_) => check(false, "what was written parses"),
        }
    } else {
        let mut q = Response::new(());
        if q.parse_buffer(&mut s.b()).is_err() { cover("refused"); return; }
        let n = match q.encode_header(&mut out) {
            Ok(n) => n,
            // a code without a registered phrase has no line to write
            Err(_) => { check(q.status().canonical_reason().is_none(), "what was parsed can be written"); cover("refused"); return; }
        };
        check(n == out.all().len(), "reported size is what was written");
        observe_bytes(out.all());
        let mut p = Response::new(());
        match p.parse_buffer(&mut out.all()) {
            Ok(k) => {
                check(k == n, "the head ends where it was written to");
                check(p.status() == q.status() && p.version() == q.version(), "status and version");
                check(same_fields(p.headers(), q.headers()), "fields");
                cover("round trip");
            }
            Err(_) => check(false, "what was written parses"),
        }
    }
}
/// every method with every version, form of URL, set of fields and body (shard: method)
fn h_p05_combo() {
    let m = METHODS[shard()].clone();
    let v = VERSIONS[choose(4)];
    let (host, x): (Str<8>, Str<8>) = (sym_str(2, is_regname), sym_str(1, is_alnum));
    let form = choose(4);
    let nf = choose(4);
    let nb = choose(3);
    let body: [u8; 2] = arr();
    let mut q: Request<Vec<u8>> = Request::new().into(body[..nb].to_vec()).0;
    q.set_method(m.clone());
    q.set_version(v);
    let path: Str<8> = { let mut s = Str::new(); s.put(b"/").put(x.b()); s };
    q.url_mut().path = path.string();
    let connect = m == Method::CONNECT;
    if form & 1 == 1 { q.url_mut().query = Some(x.string()); }
    if form & 2 == 2 || connect { q.url_mut().domain = Some(host.string()); q.url_mut().port = Some(8081); q.url_mut().scheme = Scheme::Http; }
    const N: [&str; 3] = ["Host", "Content-Length", "x-other"];
    for i in 0..nf { q.headers_mut().insert(N[i], x.string()); }
    let mut out = Buf::<200>::new();
    let n = match q.encode_header(&mut out) { Ok(n) => n, Err(_) => { check(false, "a complete request encodes"); return; } };
    check(n == out.all().len(), "reported size is what was written");
    let data = match q.http1_data() { Ok(d) => d, Err(_) => { check(false, "a complete request encodes"); return; } };
    check(data.len() == n + nb && same(&data[..n], out.all()) && same(&data[n..], &body[..nb]), "head, then body");
    let mut p = Request::new();
    let mut rest = &data[..];
    match p.parse_buffer(&mut rest) {
        Ok(k) => {
            check(k == n && same(rest, &body[..nb]), "the parser stops where the body begins");
            check(*p.method() == m && p.version() == v, "method and version");
            if connect {
                check(opt(&p.url().domain, Some(host.b())) && p.url().port == Some(8081), "authority");
            } else {
                check(same(p.url().path.as_bytes(), path.b()), "path");
                check(opt(&p.url().query, if form & 1 == 1 { Some(x.b()) } else { None }), "query");
            }
            check(same_fields(p.headers(), q.headers()) && p.headers().len() == nf, "fields");
            cover("round trip");
        }
        Err(_) => check(false, "a serialised request parses"),
    }
}
/// every version with every status (shard: version), a body and fields
fn h_p05_combo_response() {
    let v = VERSIONS[shard()];
    let code = sym::u16();
    assume(code >= 100 && code < 600);
    let s = match StatusCode::from_u16(code) { Ok(s) => s, Err(_) => { check(false, "a status"); return; } };
    let x: Str<8> = sym_str(1, is_alnum);
    let nf = choose(4);
    let nb = choose(3);
    let body: [u8; 2] = arr();
    let mut q = Response::new(body[..nb].to_vec());
    *q.status_mut() = s;
    *q.version_mut() = v;
    const N: [&str; 3] = ["Content-Length", "Transfer-Encoding", "x-other"];
    for i in 0..nf { q.headers_mut().insert(N[i], x.string()); }
    let mut out = Buf::<200>::new();
    let n = match q.encode_header(&mut out) { Ok(n) => n, Err(_) => { check(s.canonical_reason().is_none(), "a complete response encodes"); return; } };
    check(n == out.all().len(), "reported size is what was written");
    let data = match q.httpdata() { Ok(d) => d, Err(_) => { check(false, "a complete response encodes"); return; } };
    check(data.len() == n + nb && same(&data[..n], out.all()) && same(&data[n..], &body[..nb]), "head, then body");
    let mut p = Response::new(());
    let mut rest = &data[..];
    match p.parse_buffer(&mut rest) {
        Ok(k) => {
            check(k == n && same(rest, &body[..nb]), "the parser stops where the body begins");
            check(p.status().as_u16() == code && p.version() == v, "status and version");
            check(same_fields(p.headers(), q.headers()) && p.headers().len() == nf, "fields");
            cover("round trip");
        }
        Err(_) => check(false, "a serialised response parses"),
    }
}
/// CONNECT to any port (shard: block of 4096 ports)
fn h_p05_ports() {
    let port = ((shard() * 16 + choose(16)) as u16) << 8 | sym::u8() as u16;
    let mut q = Request::new();
    q.set_method(Method::Connect);
    q.url_mut().domain = Some("h".to_string());
    q.url_mut().port = Some(port);
    let mut out = Buf::<64>::new();
    let n = match q.encode_header(&mut out) { Ok(n) => n, Err(_) => { check(false, "encodes"); return; } };
    let mut p = Request::new();
    match p.parse_buffer(&mut out.all()) {
        Ok(k) => {
            check(k == n && opt(&p.url().domain, Some(b"h")), "all consumed and the host");
            check(p.url().port == Some(port), "port");
            cover("connect");
        }
        Err(_) => check(false, "a serialised request parses"),
    }
}
}
