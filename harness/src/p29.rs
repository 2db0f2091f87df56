//! P29: a request crosses HTTP/2 with its target and method intact.
use crate::gen::*;
use crate::hp::next_frame as next;
use crate::sym::{self, *};
use webparse::http2::frame::*;
use webparse::http2::{encoder::Encoder, Decoder};
use webparse::*;

const SCHEMES: [(&str, Scheme, u16); 5] = [("http", Scheme::Http, 80), ("https", Scheme::Https, 443), ("ws", Scheme::Ws, 80), ("wss", Scheme::Wss, 443), ("ftp", Scheme::Ftp, 21)];
const METHODS: [&str; 9] = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE"];
fn ascii(b: u8) -> bool { b < 128 }
fn opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) { (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()), (None, None) => true, _ => false }
}
/// the port, the scheme's where none is written
fn port(u: &Url) -> Option<u16> {
    if u.port.is_some() { return u.port; }
    let mut i = 0;
    while i < 5 { if SCHEMES[i].1 == u.scheme { return Some(SCHEMES[i].2); } i += 1; }
    None
}
/// the octets of a HEADERS frame, through a decoder of their own
fn cross(h: Headers) -> Option<Headers> {
    let mut b: Buf<4096> = Buf::new();
    let n = h.encode(&mut Encoder::new(), &mut b).unwrap_or(0);
    check(n == b.all().len(), "size");
    match next(&mut b, &mut Decoder::new()) {
        Some((_, Frame::Headers(r))) => { check(b.all().is_empty(), "one frame"); Some(r) }
        _ => { check(false, "reads back"); None }
    }
}
fn request(m: &str, u: Url, f: &[(&'static str, HeaderValue)]) -> Option<Request<()>> {
    let mut b = Request::builder().method(m).url(u);
    for (n, v) in f { b = b.header(*n, v.clone()); }
    b.body(()).ok()
}
/// request → pseudo fields and fields → octets → request
fn through(r: &Request<()>) {
    let parts = Parts::request(r.method().clone(), r.url().clone(), None);
    let h = Headers::trailers(StreamIdentifier(1), parts, r.headers().clone());
    let got = match cross(h) { Some(h) => h, None => return };
    let got = match got.into_request(Request::builder()) {
        Ok(b) => match b.body(()) { Ok(g) => g, Err(_) => { check(false, "a request is formed"); return; } },
        Err(_) => { check(false, "a request is formed"); return; }
    };
    check(got.method() == r.method(), "method");
    let (u, v) = (got.url(), r.url());
    check(u.scheme == v.scheme && opt(&u.domain, &v.domain) && port(u) == port(v), "scheme, host and port");
    check(same(u.path.as_bytes(), v.path.as_bytes()), "path");
    check(opt(&u.query, &v.query), "query");
    // a Host field is made from the target where there was none
    let host = r.headers().iter().any(|(n, _)| ieq(n.as_bytes(), b"host"));
    let made = got.headers().iter().any(|(n, _)| ieq(n.as_bytes(), b"host"));
    check(got.headers().len() == r.headers().len() + (made && !host) as usize, "as many fields");
    let mut i = 0;
    while i < r.headers().len() {
        let (n, v) = match r.headers().iter().nth(i) { Some(x) => x, None => return };
        let mut found = false;
        for (a, b) in got.headers().iter() { if ieq(a.as_bytes(), n.as_bytes()) { found = true; check(same(b.as_bytes(), v.as_bytes()), "value of a field"); } }
        check(found, "every field");
        i += 1;
    }
    cover("request");
}

harnesses! {
/// any ASCII octet in path or query, next to a delimiter (shard: scheme, and where)
fn h_p29_target() {
    let (sn, _, _) = SCHEMES[shard() / 4];
    let delims: &[u8] = if tier() == 0 { b"a%?" } else { b"a%?/&#= .+:@\"" };
    let d = [pick(delims)];
    let (mut path, mut query): (Str<8>, Str<8>) = (Str::new(), Str::new());
    path.put(b"/");
    let mut hq = true;
    match shard() % 4 {
        0 => { path.sym(1, ascii).put(&d); hq = choose(2) == 1; }
        1 => { path.put(&d).sym(1, ascii); query.put(b"k="); }
        2 => { path.put(b"p"); query.put(&d).sym(1, ascii); }
        _ => { query.sym(1, ascii).put(&d); }
    }
    let mut b = Url::builder().scheme(sn).domain("h.x".to_string()).path(path.string());
    if hq { b = b.query(query.string()); }
    let u = match b.build() { Ok(u) => u, Err(_) => { check(false, "builds"); return; } };
    if let Some(r) = request("GET", u, &[]) { through(&r); } else { check(false, "a request is built"); }
}
/// every method, scheme and default or explicit port; a symbolic octet in the host (shard: scheme)
fn h_p29_authority() {
    let (sn, _, dp) = SCHEMES[shard()];
    let mut host: Str<8> = Str::new();
    let mut m = 0;
    match choose(4) {
        0 => { host.sym(1, is_unreserved); }
        1 => { host.put(b"h").sym(1, is_unreserved); }
        2 => { host.sym(1, is_unreserved).put(b".x"); }
        _ => { host.put(b"h.x"); m = choose(9); }
    }
    let mut b = Url::builder().scheme(sn).domain(host.string()).path("/p".to_string());
    match choose(5) { 0 => {} 1 => b = b.port(dp), 2 => b = b.port(80), 3 => b = b.port(443), _ => b = b.port(65535) };
    let u = match b.build() { Ok(u) => u, Err(_) => { check(false, "builds"); return; } };
    if let Some(r) = request(METHODS[m], u, &[]) { through(&r); } else { check(false, "a request is built"); }
}
/// fields besides the pseudo fields
fn h_p29_fields() {
    let v = value1(is_field_char);
    let u = Url::parse(b"http://h:81/".to_vec()).unwrap_or(Url::new());
    let names = ["x-a", "Accept", "cookie", "content-type", "Host"];
    let (i, j) = (shard(), choose(5));
    if let Some(r) = request("POST", u, &[(names[i], hv(v.b())), (names[j], hv(b"v"))]) { through(&r); } else { check(false, "a request is built"); }
}
/// the request target in its asterisk form, and a target without authority
fn h_p29_forms() {
    let mut u = Url::parse(b"http://h:81/".to_vec()).unwrap_or(Url::new());
    u.path = "*".to_string();
    if choose(2) == 0 {
        if let Some(r) = request("OPTIONS", u, &[]) { through(&r); } else { check(false, "a request is built"); }
        return;
    }
    let r = match request("GET", Url::parse(b"/p".to_vec()).unwrap_or(Url::new()), &[]) { Some(r) => r, None => { check(false, "a request is built"); return; } };
    let h = Headers::trailers(StreamIdentifier(1), Parts::request(r.method().clone(), r.url().clone(), None), r.headers().clone());
    if let Some(h) = cross(h) { check(h.into_request(Request::builder()).is_err(), "no authority, no target"); cover("no authority"); }
}
/// a symbolic octet in one of the pseudo fields a peer sends: a request that says what they say, or an error
fn h_p29_hostile() {
    let sh = shard();
    let mut h = Headers::empty();
    let mut f: [(&str, Str<8>); 4] = [(":method", Str::new()), (":scheme", Str::new()), (":authority", Str::new()), (":path", Str::new())];
    f[0].1.put(b"GET");
    f[1].1.put(b"http");
    f[2].1.put(b"h:8");
    f[3].1.put(b"/p?q");
    let k = sh % 4;
    let t = &mut f[k].1;
    let old = *t;
    let at = choose(old.n as u8 + 1);
    *t = Str::new();
    t.put(&old.d[..at]).sym(1, |_| true);
    // replacing an octet, or inserting one
    if choose(2) == 0 && at < old.n { t.put(&old.d[at + 1..old.n]); } else { t.put(&old.d[at..old.n]); }
    let absent = sh / 4;
    let mut list = vec![];
    let mut i = 0;
    while i < 4 { if absent != i + 1 { list.push((HeaderName::from_static(f[i].0), hv(f[i].1.b()))); } i += 1; }
    let mut b = Encoder::new().encode(list.iter().map(|x| (&x.0, &x.1)));
    if h.parse(&mut b, &mut Decoder::new(), 1 << 16).is_err() { cover("refused"); return; }
    check((*h.method()).is_some() == (absent != 1) && h.authority().is_some() == (absent != 3) && h.path().is_some() == (absent != 4), "the pseudo fields that were sent");
    match h.into_request(Request::builder()) {
        Ok(b) => match b.body(()) {
            Ok(r) => {
                check(absent != 3, "no authority, no target");
                let u = r.url();
                if k != 2 { check(opt(&u.domain, &Some("h".to_string())) && u.port == Some(8) && u.username.is_none(), "neither path nor scheme reach into the authority"); }
                if k != 3 && absent != 4 { check(same(u.path.as_bytes(), b"/p") && opt(&u.query, &Some("q".to_string())), "neither authority nor scheme reach into the path"); }
                cover("request");
            }
            Err(_) => cover("refused"),
        },
        Err(_) => cover("refused"),
    }
}
/// responses: any status, and fields
fn h_p29_response() {
    let n = sym::u16();
    assume(n >= 100 && n < 1000);
    let s = match StatusCode::from_u16(concretize(n as u64) as u16) { Ok(s) => s, Err(_) => { check(false, "a status"); return; } };
    if s.canonical_reason().is_none() { return; }
    let v = value1(|b| b >= b' ' && b < 0x24);
    let mut f = HeaderMap::new();
    f.insert("x-a", hv(v.b()));
    let h = Headers::trailers(StreamIdentifier(1), Parts::response(s), f);
    if let Some(h) = cross(h) {
        match h.into_response(Response::builder()).map(|b| b.body(())) {
            Ok(Ok(r)) => { check(r.status() == s, "status"); check(has(r.headers(), 0, b"x-a", v.b()), "fields"); cover("response"); }
            _ => check(false, "a response is formed"),
        }
    }
}
/// long parts
fn h_p29_long() {
    let n = [31usize, 64, 128, 255, 1030][shard() % 5];
    let what = shard() / 5;
    let t = |class: fn(u8) -> bool| unsafe { String::from_utf8_unchecked(mid(n, b'x', class)) };
    let mut u = Url::new();
    u.scheme = Scheme::Https;
    u.domain = Some(if what == 0 { t(|b| b >= b'4' && b < b'8') } else { "h.example".to_string() });
    u.port = Some(8443);
    u.path = if what == 1 { "/".to_string() + &t(|b| b >= b'4' && b < b'8') } else { "/p".to_string() };
    u.query = Some(if what == 2 { t(|b| b >= b'4' && b < b'8') } else { "q=1".to_string() });
    let f = [("x-long", if what == 3 { hv(&mid(n, b'v', |b| b >= b'4' && b < b'8')) } else { hv(b"1") }), ("x-b", hv(b"2"))];
    let r = match request("PUT", u, &f) { Some(r) => r, None => { check(false, "a request is formed"); return; } };
    through(&r);
}
/// many fields
fn h_p29_many() {
    let n = [3usize, 8, 17, 33, 65, 129][shard()];
    let v = mid(3, b'v', |b| b >= b'4' && b < b'8');
    let u = Url::parse(b"http://h:81/p?q".to_vec()).unwrap_or(Url::new());
    let names: Vec<String> = (0..n).map(|i| format!("x-{}", i)).collect();
    let at = [0, n / 2, n - 1][choose(3)];
    let mut r = match request("PUT", u, &[]) { Some(r) => r, None => { check(false, "a request is built"); return } };
    let mut i = 0;
    while i < n { r.headers_mut().insert(names[i].clone(), if i == at { hv(&v) } else { hv(b"w") }); i += 1; }
    through(&r);
}
}
