//! P30: what a message is built from is what it holds, and conversions keep it.
use crate::gen::*;
use crate::sym::{self, *};
use algorithm::buf::{Binary, Bt};
use std::convert::TryFrom;
use webparse::*;

const METHODS: [(&str, Method); 9] = [
    ("GET", Method::GET), ("POST", Method::POST), ("PUT", Method::PUT), ("DELETE", Method::DELETE), ("HEAD", Method::HEAD),
    ("OPTIONS", Method::OPTIONS), ("PATCH", Method::PATCH), ("TRACE", Method::TRACE), ("CONNECT", Method::CONNECT),
];
const VERSIONS: [Version; 4] = [Version::Http11, Version::Http10, Version::Http2, Version::Http3];
fn opt(a: &Option<String>, b: Option<&[u8]>) -> bool {
    match (a, b) { (Some(x), Some(y)) => same(x.as_bytes(), y), (None, None) => true, _ => false }
}
fn field<'a>(h: &'a HeaderMap, n: &[u8]) -> Option<&'a [u8]> {
    let mut r = None;
    for (k, v) in h.iter() { if ieq(k.as_bytes(), n) { r = Some(v.as_bytes()); } }
    r
}
fn fieldis(h: &HeaderMap, n: &[u8], v: &[u8]) -> bool { match field(h, n) { Some(x) => same(x, v), None => false } }

/// everything a request says
struct Want { m: usize, v: usize, path: Str<8>, query: Option<Str<8>>, host: Option<Str<8>>, port: Option<u16>, name: Str<8>, value: Str<8>, body: [u8; 2] }
fn want() -> Want {
    Want {
        m: choose(9), v: choose(4), path: { let mut s = Str::new(); s.put(b"/").sym(choose(2), is_alnum); s },
        query: if sym::bool() { Some(sym_str(1, is_alnum)) } else { None },
        host: if sym::bool() { Some(sym_str(2, is_alnum)) } else { None }, port: None,
        name: { let mut s = Str::new(); s.put(b"x").sym(1, is_alnum); s }, value: sym_str(1, is_alnum), body: arr(),
    }
}
fn url(w: &Want) -> String {
    let mut s: Str<64> = Str::new();
    if let Some(h) = &w.host { s.put(b"https://").put(h.b()).put(b":8443"); }
    s.put(w.path.b());
    if let Some(q) = &w.query { s.put(b"?").put(q.b()); }
    s.string()
}
fn head_is(q: &Parts1, w: &Want) -> bool {
    *q.m == METHODS[w.m].1 && q.v == VERSIONS[w.v] && same(q.u.path.as_bytes(), w.path.b())
        && opt(&q.u.query, w.query.as_ref().map(|x| x.b())) && opt(&q.u.domain, w.host.as_ref().map(|x| x.b()))
        && (w.host.is_none() || q.u.port == Some(8443)) && fieldis(q.h, w.name.b(), w.value.b())
}
struct Parts1<'a> { m: &'a Method, v: Version, u: &'a Url, h: &'a HeaderMap }
fn p1<T: Serialize>(q: &Request<T>) -> Parts1<'_> { Parts1 { m: q.method(), v: q.version(), u: q.url(), h: q.headers() } }
fn make(w: &Want) -> Option<Request<Vec<u8>>> {
    Request::builder().method(METHODS[w.m].0).url(url(w)).version(VERSIONS[w.v]).header(w.name.string(), w.value.string()).body(w.body.to_vec()).ok()
}

harnesses! {
/// a request from the builder holds what the builder was given, in any order of the calls
fn h_p30_build() {
    let w = want();
    let order = shard();
    let u = url(&w);
    let b = Request::builder();
    let b = match order {
        0 => b.method(METHODS[w.m].0).url(u).version(VERSIONS[w.v]).header(w.name.string(), w.value.string()),
        1 => b.header(w.name.string(), w.value.string()).version(VERSIONS[w.v]).url(u).method(METHODS[w.m].0),
        2 => {
            let mut m = HeaderMap::new();
            m.insert(w.name.string(), w.value.string());
            m.insert("user-agent", "mine");
            b.headers(m).url(u).method(METHODS[w.m].0).version(VERSIONS[w.v])
        }
        _ => b.url("http://first:1/one?two").method("PUT").header(w.name.string(), "before").version(VERSIONS[w.v]).url(u).method(METHODS[w.m].0).header(w.name.string(), w.value.string()),
    };
    check(b.method_ref() == Some(&METHODS[w.m].1) && b.version_ref() == Some(&VERSIONS[w.v]), "what the builder says of itself");
    match b.body(w.body.to_vec()) {
        Ok(q) => {
            check(head_is(&p1(&q), &w), "the request is what it was built from");
            check(same(q.body(), &w.body), "body");
            let agent = field(q.headers(), b"user-agent").is_some();
            check(agent, "an agent field is there");
            check(order != 2 || fieldis(q.headers(), b"user-agent", b"mine"), "the agent field that was given is kept");
            if let Some(h) = &w.host {
                let mut hp: Str<24> = Str::new();
                hp.put(h.b()).put(b":8443");
                check(fieldis(q.headers(), b"host", hp.b()), "the Host field of an absolute URL");
                cover("absolute");
            } else { cover("origin"); }
            let n = 2 + (w.host.is_some() || order == 3) as usize;
            check(q.headers().len() == n, "no other fields");
        }
        Err(_) => check(false, "valid parts build a request"),
    }
}
/// a part that is not valid makes the whole an error, whatever is set afterwards
fn h_p30_invalid() {
    let k = choose(4);
    let late = sym::bool();
    let t: Str<8> = sym_str(3, |b| b < 128);
    let code = sym::u16();
    if k < 2 {
        let known = METHODS.iter().any(|m| same(m.0.as_bytes(), t.b()));
        let b = Request::builder();
        let b = if k == 0 { b.method(t.string().as_str()) } else { b.url("http://h:x/") };
        let b = if late { b.method("GET").url("/") } else { b };
        let r = b.body(());
        check(r.is_ok() == (k == 0 && known), "an invalid part is an error");
        if r.is_ok() { cover("valid"); } else { cover("invalid"); }
    } else {
        let b = Response::builder().status(code);
        let b = if late { b.status(200) } else { b };
        let r = b.body(());
        check(r.is_ok() == (code >= 100 && code <= 999), "an invalid status is an error");
        if let Ok(r) = r { check(r.status().as_u16() == if late { 200 } else { code }, "the last status given"); cover("valid"); } else { cover("invalid"); }
    }
}
/// changing the body or its type keeps the head and gives the bodies back
fn h_p30_convert() {
    let w = want();
    let q = match make(&w) { Some(q) => q, None => { check(false, "valid parts build a request"); return } };
    let n = q.headers().len();
    let nb: [u8; 3] = arr();
    match shard() {
        0 => {
            let (p, old) = q.into(Binary::from(nb.to_vec()));
            check(head_is(&p1(&p), &w) && p.headers().len() == n, "into keeps the head");
            check(same(&old, &w.body) && same(p.body().chunk(), &nb), "into exchanges the body");
        }
        1 => {
            let p: Request<Binary> = q.into_type();
            check(head_is(&p1(&p), &w) && p.headers().len() == n, "into_type keeps the head");
            check(same(p.body().chunk(), &w.body), "into_type keeps the body");
        }
        2 => {
            let mut q = q;
            let p = q.replace_clone(nb.to_vec());
            check(head_is(&p1(&p), &w) && p.headers().len() == n && head_is(&p1(&q), &w) && q.headers().len() == n, "both requests have the head");
            check(same(p.body(), &w.body) && same(q.body(), &nb), "the clone has the old body, the original the new one");
        }
        3 => {
            let p = Request::new_by_parts(q.parts().clone());
            check(head_is(&p1(&p), &w) && p.headers().len() == n, "parts make the same request");
            *(&mut { q }).body_mut() = vec![];
        }
        4 => {
            let p = match webparse::http::request::Builder::from_req(&q).body(nb.to_vec()) { Ok(p) => p, Err(_) => { check(false, "a builder from a request"); return } };
            check(p.method() == q.method() && p.version() == q.version() && p.url() == q.url(), "a builder from a request has its request line");
        }
        _ => {
            let mut q = q;
            let m2 = choose(9);
            q.set_method(METHODS[m2].1.clone());
            q.set_version(Version::Http10);
            q.set_path("/new".to_string());
            q.set_scheme(Scheme::Wss);
            q.body_mut().push(nb[0]);
            q.headers_mut().insert("later", HeaderValue::from_bytes(&nb));
            check(*q.method() == METHODS[m2].1 && q.version() == Version::Http10 && same(q.path().as_bytes(), b"/new") && *q.scheme() == Scheme::Wss, "what was set is there");
            check(q.body().len() == 3 && same(&q.body()[..2], &w.body) && q.body()[2] == nb[0], "body changed in place");
            check(q.headers().len() == n + 1 && fieldis(q.headers(), b"later", &nb) && fieldis(q.headers(), w.name.b(), w.value.b()), "fields after a change");
            check(opt(&q.url().query, w.query.as_ref().map(|x| x.b())) && opt(&q.url().domain, w.host.as_ref().map(|x| x.b())), "the rest of the URL");
        }
    }
    cover("converted");
}
/// set_url gives the Host field only when there is none
fn h_p30_set_url() {
    let w = want();
    let had = sym::bool();
    let mut q = Request::new();
    if had { q.headers_mut().insert("host", "mine"); }
    let u = match Url::try_from(url(&w)) { Ok(u) => u, Err(_) => { check(false, "a URL"); return } };
    q.set_url(u.clone());
    check(*q.url() == u, "the URL that was set");
    match &w.host {
        Some(h) => {
            let mut hp: Str<24> = Str::new();
            hp.put(h.b()).put(b":8443");
            check(fieldis(q.headers(), b"host", if had { b"mine" } else { hp.b() }), "Host field");
            check(opt(&q.get_connect_url(), Some(hp.b())), "host and port");
            check(same(q.get_authority().as_bytes(), h.b()) || same(q.get_authority().as_bytes(), hp.b()), "authority");
            check(opt(&q.get_host(), Some(h.b())), "host");
            cover("absolute");
        }
        None => {
            check(field(q.headers(), b"host").is_some() == had, "no Host field is made up");
            check(q.get_connect_url().is_none(), "nothing to connect to");
            cover("origin");
        }
    }
}
/// responses
fn h_p30_response() {
    let code = 100 + choose(200) as u16 * 4 + shard() as u16 % 4;
    let v = VERSIONS[choose(4)];
    let name: Str<8> = { let mut s = Str::new(); s.put(b"x").sym(1, is_alnum); s };
    let value: Str<8> = sym_str(1, is_alnum);
    let body: [u8; 2] = arr();
    let nb: [u8; 3] = arr();
    let given = sym::bool();
    let b = Response::builder().status(code).version(v).header(name.string(), value.string());
    let b = if given { b.header("SERVER", "mine") } else { b };
    let b = b.extension(nb[0]);
    let q = match b.body(body.to_vec()) { Ok(q) => q, Err(_) => { check(false, "valid parts build a response"); return } };
    fn ok<T: Serialize>(q: &Response<T>, code: u16, v: Version, name: &[u8], value: &[u8]) -> bool {
        q.status().as_u16() == code && q.version() == v && fieldis(q.headers(), name, value) && q.headers().len() == 2 && field(q.headers(), b"server").is_some()
    }
    let is = |q: &Response<Vec<u8>>| ok(q, code, v, name.b(), value.b());
    check(is(&q) && same(q.body(), &body), "the response is what it was built from");
    check(!given || fieldis(q.headers(), b"server", b"mine"), "the server field that was given is kept");
    check(q.extensions().get::<u8>() == Some(&nb[0]), "extension");
    let mut q = q;
    match shard() / 4 {
        0 => {
            let (p, old) = q.into(Binary::from(nb.to_vec()));
            check(ok(&p, code, v, name.b(), value.b()), "into keeps the head");
            check(same(&old, &body) && same(p.body().chunk(), &nb), "into exchanges the body");
            check(p.extensions().get::<u8>() == Some(&nb[0]), "into keeps the extensions");
        }
        1 => {
            let p: Response<Binary> = q.into_type();
            check(ok(&p, code, v, name.b(), value.b()) && same(p.body().chunk(), &body), "into_type keeps head and body");
            check(p.extensions().get::<u8>() == Some(&nb[0]), "into_type keeps the extensions");
        }
        2 => {
            let p = q.into_binary();
            check(ok(&p, code, v, name.b(), value.b()) && same(p.body().chunk(), &body), "into_binary keeps head and body");
            check(p.extensions().get::<u8>() == Some(&nb[0]), "into_binary keeps the extensions");
        }
        3 => {
            let p = q.replace_clone(nb.to_vec());
            check(is(&p) && is(&q) && same(p.body(), &body) && same(q.body(), &nb), "the clone has the old body, the original the new one");
            check(q.extensions().get::<u8>() == Some(&nb[0]), "replace_clone keeps the extensions of the original");
        }
        4 => {
            q.replace_body(nb.to_vec());
            check(is(&q) && same(q.body(), &nb), "replace_body changes only the body");
        }
        5 => {
            let (parts, old) = q.into_parts();
            check(same(&old, &body), "the body of the parts");
            let p = Response::from_parts(parts, nb.to_vec());
            check(is(&p) && same(p.body(), &nb) && p.extensions().get::<u8>() == Some(&nb[0]), "parts make the same response");
        }
        6 => {
            let p = q.map(|b| b.len().to_string());
            check(ok(&p, code, v, name.b(), value.b()) && same(p.body().as_bytes(), b"2"), "map changes only the body");
            check(p.extensions().get::<u8>() == Some(&nb[0]), "map keeps the extensions");
        }
        _ => {
            *q.status_mut() = match StatusCode::from_u16(404) { Ok(s) => s, Err(_) => return };
            *q.version_mut() = Version::Http10;
            q.body_mut().push(nb[1]);
            q.headers_mut().remove(&"server");
            check(q.status().as_u16() == 404 && q.version() == Version::Http10 && q.headers().len() == 1 && fieldis(q.headers(), name.b(), value.b()), "changed in place");
            check(q.body().len() == 3 && q.body()[2] == nb[1] && same(&q.into_body()[..2], &body), "body changed in place");
        }
    }
    cover("response");
}
/// the ready-made responses
fn h_p30_ready() {
    let k = choose(6);
    let (b, code, ty): (webparse::http::response::Builder, u16, &[u8]) = match k {
        0 => (Response::text(), 200, b"text/plain; charset=utf-8"),
        1 => (Response::json(), 200, b"application/json; charset=utf-8"),
        2 => (Response::status404(), 404, b"text/html; charset=utf-8"),
        3 => (Response::status500(), 500, b"text/html; charset=utf-8"),
        4 => (Response::status502(), 502, b"text/html; charset=utf-8"),
        _ => (Response::status503(), 503, b"text/html; charset=utf-8"),
    };
    let body: [u8; 2] = arr();
    match b.body(body.to_vec()) {
        Ok(q) => {
            check(q.status().as_u16() == code && fieldis(q.headers(), b"content-type", ty) && same(q.body(), &body), "a ready-made response");
            check(q.version() == Version::Http11, "version of a ready-made response");
            cover("ready");
        }
        Err(_) => check(false, "a ready-made response builds"),
    }
}
/// merging a URL takes over what the other says and keeps the rest
fn h_p30_merge() {
    let base = Url::try_from("http://u:p@h:81/a?q").unwrap();
    let mut a = base.clone();
    let mut o = Url::new();
    let k = shard();
    let t: Str<8> = sym_str(1, is_alnum);
    let port = sym::u16();
    if k & 1 != 0 { o.scheme = Scheme::Wss; }
    if k & 2 != 0 { o.path = { let mut s: Str<8> = Str::new(); s.put(b"/").put(t.b()); s.string() }; }
    if k & 4 != 0 { o.username = Some(t.string()); o.password = Some(t.string()); }
    if k & 8 != 0 { o.domain = Some(t.string()); }
    if k & 16 != 0 { assume(port != 0); o.port = Some(port); }
    if k & 32 != 0 { o.query = Some(t.string()); }
    a.merge(o.clone());
    check(a.scheme == if k & 1 != 0 { Scheme::Wss } else { Scheme::Http }, "scheme after a merge");
    check(same(a.path.as_bytes(), if k & 2 != 0 { o.path.as_bytes() } else { b"/a" }), "path after a merge");
    check(opt(&a.username, Some(if k & 4 != 0 { t.b() } else { b"u" })) && opt(&a.password, Some(if k & 4 != 0 { t.b() } else { b"p" })), "user information after a merge");
    check(opt(&a.domain, Some(if k & 8 != 0 { t.b() } else { b"h" })), "host after a merge");
    check(a.port == Some(if k & 16 != 0 { port } else { 81 }), "port after a merge");
    check(opt(&a.query, Some(if k & 32 != 0 { t.b() } else { b"q" })), "query after a merge");
    cover("merged");
}
/// what the accessors of a request say is what is in it
fn h_p30_access() {
    let w = want();
    let mut q = match make(&w) { Some(q) => q, None => { check(false, "valid parts build a request"); return } };
    let v: Str<8> = sym_str(choose(3), is_alnum);
    let lower = sym::bool();
    let names: [&str; 4] = if lower { ["referer", "user-agent", "cookie", "content-length"] } else { ["Referer", "User-Agent", "Cookie", "Content-Length"] };
    let k = choose(4);
    if k < 3 { q.headers_mut().insert(names[k], v.string()); } else { q.headers_mut().insert(names[3], "27"); }
    check(q.is_http2() == (VERSIONS[w.v] == Version::Http2), "whether it is HTTP/2");
    check(opt(&q.get_referer(), if k == 0 { Some(v.b()) } else { None }) && opt(&q.parts().get_referer(), if k == 0 { Some(v.b()) } else { None }), "referer");
    check(opt(&q.get_user_agent(), if k == 1 { Some(v.b()) } else { Some(b"wenmeng") }) && opt(&q.parts().get_user_agent(), if k == 1 { Some(v.b()) } else { Some(b"wenmeng") }), "user agent");
    check(opt(&q.get_cookie(), if k == 2 { Some(v.b()) } else { None }) && opt(&q.parts().get_cookie(), if k == 2 { Some(v.b()) } else { None }), "cookie");
    check(q.get_body_len() == if k == 3 { 27 } else { 0 }, "length of the body");
    check(opt(&q.get_host(), w.host.as_ref().map(|x| x.b())) && opt(&q.parts().get_host(), w.host.as_ref().map(|x| x.b())), "host");
    check(same(q.get_scheme().as_bytes(), if w.host.is_some() { b"https" } else { b"" }) || w.host.is_none(), "scheme");
    let mut hp: Str<24> = Str::new();
    if let Some(h) = &w.host { hp.put(h.b()).put(b":8443"); }
    let hp = if w.host.is_some() { Some(hp.b()) } else { None };
    check(opt(&q.get_connect_url(), hp) && opt(&q.parts().get_connect_url(), hp), "host and port");
    check(w.host.is_none() || same(q.get_authority().as_bytes(), hp.unwrap_or(b"")), "authority");
    let n = q.headers().len();
    {
        let (h, b) = q.headers_body();
        check(h.len() == n && fieldis(h, w.name.b(), w.value.b()) && same(b, &w.body), "fields and body together");
    }
    {
        let (h, b) = q.headers_body_mut();
        h.insert("added", "1");
        b.push(7);
    }
    check(q.headers().len() == n + 1 && fieldis(q.headers(), b"added", b"1") && q.body().len() == 3 && q.body()[2] == 7, "fields and body changed together");
    q.parts_mut().header.remove(&"added");
    q.extensions_mut().insert(v.d[0]);
    check(q.extensions().get::<u8>() == Some(&v.d[0]) && q.headers().len() == n && head_is(&p1(&q), &w), "extensions and fields of the parts");
    cover("access");
}
/// a builder's own accessors, and building from header maps
fn h_p30_builder() {
    let name: Str<8> = { let mut s = Str::new(); s.put(b"x").sym(1, is_alnum); s };
    let (v1, v2): (Str<8>, Str<8>) = (sym_str(choose(2), is_alnum), sym_str(1, is_alnum));
    let mut m = HeaderMap::new();
    m.insert(name.string(), v2.string());
    m.insert("server", "s");
    m.insert("user-agent", "u");
    m.insert("empty", "");
    let first = sym::bool();
    if shard() == 0 {
        let mut b = Request::builder();
        if first { b = b.header(name.string(), v1.string()).header("other", "o"); }
        b = b.headers(m);
        if let Some(h) = b.headers_mut() { h.insert("content-length", "5"); }
        check(b.get_body_len() == 5, "length of the body");
        check(b.method_ref() == Some(&Method::GET) && b.url_ref().is_some() && b.version_ref() == Some(&Version::Http11), "what a builder starts with");
        let n = 5 + first as usize;
        check(b.headers_ref().map(|h| h.len()) == Some(n), "fields of the builder");
        match b.body(()) {
            Ok(q) => {
                let h = q.headers();
                check(h.len() == n && fieldis(h, name.b(), v2.b()) && fieldis(h, b"user-agent", b"u") && fieldis(h, b"server", b"s") && fieldis(h, b"empty", b"") && fieldis(h, b"other", b"o") == first, "a map of fields replaces and adds");
                cover("request");
            }
            Err(_) => check(false, "valid parts build a request"),
        }
    } else {
        let mut b = Response::builder();
        if first { b = b.header(name.string(), v1.string()).header("other", "o"); }
        b = b.headers(m);
        if let Some(h) = b.headers_mut() { h.insert("content-length", "5"); }
        check(b.get_body_len() == 5, "length of the body");
        b = b.extension(v2.d[0]).extension(77u32);
        check(b.extensions_ref().map(|e| (e.get::<u8>() == Some(&v2.d[0]), e.get::<u32>() == Some(&77))) == Some((true, true)), "extensions of the builder");
        let n = 5 + first as usize;
        check(b.headers_ref().map(|h| h.len()) == Some(n), "fields of the builder");
        let b = if sym::bool() { let b = b.method(v2.string()); check(b.headers_ref().map(|h| fieldis(h, b":method", v2.b())) == Some(true), "the method of the request answered"); b } else { b };
        match b.body(()) {
            Ok(q) => {
                let h = q.headers();
                check(fieldis(h, name.b(), v2.b()) && fieldis(h, b"user-agent", b"u") && fieldis(h, b"server", b"s") && fieldis(h, b"empty", b"") && fieldis(h, b"other", b"o") == first, "a map of fields replaces and adds");
                check(q.status().as_u16() == 200 && q.version() == Version::Http11 && q.get_body_len() == 5, "what a builder starts with");
                cover("response");
            }
            Err(_) => check(false, "valid parts build a response"),
        }
    }
}
/// fields with a meaning of their own (length, coding, connection …) are kept
/// like any other, for every status and method (shard: the conversion)
fn h_p30_known() {
    const N: [&str; 12] = ["Content-Length", "Transfer-Encoding", "Connection", "Content-Type", "Host", "Date", "Cookie", "Upgrade", "Expect", "Set-Cookie", "Trailer", ":authority"];
    let i = choose(12);
    let j = (i + 1) % 12;
    let (v1, v2): (Str<8>, Str<8>) = (sym_str(choose(3), is_field_char), sym_str(1, is_field_char));
    let body: [u8; 2] = arr();
    let nb: [u8; 3] = arr();
    let is = |h: &HeaderMap| h.len() == 3 && fieldis(h, N[i].as_bytes(), v1.b()) && fieldis(h, N[j].as_bytes(), v2.b());
    if shard() < 8 {
        let code = sym::u16();
        assume(code >= 100 && code < 1000);
        let b = Response::builder().status(code).header(N[i], HeaderValue::from_bytes(v1.b())).header(N[j], HeaderValue::from_bytes(v2.b()));
        let q = match b.body(body.to_vec()) { Ok(q) => q, Err(_) => { check(false, "valid parts build a response"); return } };
        check(is(q.headers()) && q.status().as_u16() == code && same(q.body(), &body), "the response is what it was built from");
        let mut q = q;
        match shard() {
            0 => { let (p, old) = q.into(Binary::from(nb.to_vec())); check(is(p.headers()) && p.status().as_u16() == code && same(&old, &body) && same(p.body().chunk(), &nb), "into keeps the fields"); }
            1 => { let p: Response<Binary> = q.into_type(); check(is(p.headers()) && p.status().as_u16() == code && same(p.body().chunk(), &body), "into_type keeps the fields"); }
            2 => { let p = q.into_binary(); check(is(p.headers()) && p.status().as_u16() == code && same(p.body().chunk(), &body), "into_binary keeps the fields"); }
            3 => { let p = q.replace_clone(nb.to_vec()); check(is(p.headers()) && is(q.headers()) && p.status().as_u16() == code && q.status().as_u16() == code && same(p.body(), &body) && same(q.body(), &nb), "replace_clone keeps the fields"); }
            4 => { q.replace_body(nb.to_vec()); check(is(q.headers()) && q.status().as_u16() == code && same(q.body(), &nb), "replace_body keeps the fields"); }
            5 => { let (parts, old) = q.into_parts(); check(same(&old, &body), "the body of the parts"); let p = Response::from_parts(parts, nb.to_vec()); check(is(p.headers()) && p.status().as_u16() == code && same(p.body(), &nb), "parts keep the fields"); }
            6 => { let p = q.map(|b| b.len().to_string()); check(is(p.headers()) && p.status().as_u16() == code && same(p.body().as_bytes(), b"2"), "map keeps the fields"); }
            _ => { q.headers_mut().remove(&N[i]); check(q.headers().len() == 2 && fieldis(q.headers(), N[j].as_bytes(), v2.b()) && q.status().as_u16() == code, "only the removed field goes"); }
        }
        cover("response");
    } else {
        let (mt, m) = &METHODS[choose(9)];
        let b = Request::builder().method(*mt).header(N[i], HeaderValue::from_bytes(v1.b())).url("/a").header(N[j], HeaderValue::from_bytes(v2.b()));
        let q = match b.body(body.to_vec()) { Ok(q) => q, Err(_) => { check(false, "valid parts build a request"); return } };
        check(is(q.headers()) && q.method() == m && same(q.body(), &body), "the request is what it was built from");
        let mut q = q;
        match shard() {
            8 => { let (p, old) = q.into(Binary::from(nb.to_vec())); check(is(p.headers()) && p.method() == m && same(&old, &body) && same(p.body().chunk(), &nb), "into keeps the fields"); }
            9 => { let p: Request<Binary> = q.into_type(); check(is(p.headers()) && p.method() == m && same(p.body().chunk(), &body), "into_type keeps the fields"); }
            10 => { let p = q.replace_clone(nb.to_vec()); check(is(p.headers()) && is(q.headers()) && p.method() == m && q.method() == m && same(p.body(), &body) && same(q.body(), &nb), "replace_clone keeps the fields"); }
            11 => { let p = Request::new_by_parts(q.parts().clone()); check(is(p.headers()) && p.method() == m, "parts keep the fields"); }
            _ => { q.headers_mut().remove(&N[j]); check(q.headers().len() == 2 && fieldis(q.headers(), N[i].as_bytes(), v1.b()) && q.method() == m, "only the removed field goes"); }
        }
        cover("request");
    }
}
/// the Host field a request gets from its URL, with every scheme, port, user and target (shard: scheme)
fn h_p30_host() {
    const S: [(&str, u16); 4] = [("http", 80), ("https", 443), ("ws", 80), ("wss", 443)];
    let (s, d) = S[shard() % 4];
    let h: Str<8> = sym_str(1 + choose(if tier() == 0 { 1 } else { 3 }), is_regname);
    let mut u: Str<64> = Str::new();
    u.put(s.as_bytes()).put(b"://");
    let user = choose(2);
    if user == 1 { u.put(b"u").put(b":").sym(1, is_alnum).put(b"@"); }
    u.put(h.b());
    let mut hp: Str<24> = Str::new();
    hp.put(h.b()).put(b":");
    match choose(6) {
        0 => { put_dec(&mut hp, d as u64); }
        5 => { let (a, b) = (sym::u8(), sym::u8()); assume(a >= b'1' && a <= b'9' && b >= b'0' && b <= b'9'); u.put(b":").put(&[a, b]); hp.put(&[a, b]); }
        1 => { u.put(b":80"); hp.put(b"80"); }
        2 => { u.put(b":443"); hp.put(b"443"); }
        3 => { u.put(b":8080"); hp.put(b"8080"); }
        _ => { u.put(b":65535"); hp.put(b"65535"); }
    }
    match choose(3) { 0 => {} 1 => { u.put(b"/"); } _ => { u.put(b"/p?q"); } }
    let (mt, m) = &METHODS[choose(9)];
    if shard() < 4 {
        match Request::builder().method(*mt).url(u.string()).body(()) {
            Ok(q) => { check(fieldis(q.headers(), b"host", hp.b()) && q.method() == m && q.headers().len() == 2, "the Host field of an absolute URL"); cover("built"); }
            Err(_) => check(false, "valid parts build a request"),
        }
    } else {
        let mut q = Request::new();
        q.set_method(m.clone());
        let given = sym::bool();
        if given { q.headers_mut().insert(pick::<&str>(&["Host", "host", "HOST"]), "mine"); }
        match Url::try_from(u.string()) {
            Ok(u) => {
                q.set_url(u.clone());
                check(*q.url() == u && q.method() == m, "the URL that was set");
                check(fieldis(q.headers(), b"host", if given { b"mine" } else { hp.b() }) && q.headers().len() == 1, "the Host field of an absolute URL");
                cover("set");
            }
            Err(_) => check(false, "a URL"),
        }
    }
}
}
