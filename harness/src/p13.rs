//! P13: methods, versions, status codes and schemes: exactly the defined
//! tokens, and their text form reads back.
use crate::gen::*;
use crate::sym::{self, *};
use std::convert::TryFrom;
use webparse::*;

const METHODS: [(&str, Method); 9] = [
    ("GET", Method::GET), ("POST", Method::POST), ("PUT", Method::PUT), ("DELETE", Method::DELETE), ("HEAD", Method::HEAD),
    ("OPTIONS", Method::OPTIONS), ("PATCH", Method::PATCH), ("TRACE", Method::TRACE), ("CONNECT", Method::CONNECT),
];
const VERSIONS: [(&str, Version); 4] = [("HTTP/1.1", Version::Http11), ("HTTP/1.0", Version::Http10), ("HTTP/2", Version::Http2), ("HTTP/3", Version::Http3)];
const SCHEMES: [(&str, Scheme); 5] = [("http", Scheme::Http), ("https", Scheme::Https), ("ws", Scheme::Ws), ("wss", Scheme::Wss), ("ftp", Scheme::Ftp)];

/// RFC 9110 section 15 and the registry, restated (text compared without regard to case and hyphens)
fn registered(x: u16) -> Option<&'static str> {
    Some(match x {
        100 => "Continue",
        101 => "Switching Protocols",
        102 => "Processing",
        200 => "OK",
        201 => "Created",
        202 => "Accepted",
        203 => "Non Authoritative Information",
        204 => "No Content",
        205 => "Reset Content",
        206 => "Partial Content",
        207 => "Multi-Status",
        208 => "Already Reported",
        226 => "IM Used",
        300 => "Multiple Choices",
        301 => "Moved Permanently",
        302 => "Found",
        303 => "See Other",
        304 => "Not Modified",
        305 => "Use Proxy",
        307 => "Temporary Redirect",
        308 => "Permanent Redirect",
        400 => "Bad Request",
        401 => "Unauthorized",
        402 => "Payment Required",
        403 => "Forbidden",
        404 => "Not Found",
        405 => "Method Not Allowed",
        406 => "Not Acceptable",
        407 => "Proxy Authentication Required",
        408 => "Request Timeout",
        409 => "Conflict",
        410 => "Gone",
        411 => "Length Required",
        412 => "Precondition Failed",
        413 => "Payload Too Large",
        414 => "URI Too Long",
        415 => "Unsupported Media Type",
        416 => "Range Not Satisfiable",
        417 => "Expectation Failed",
        418 => "I'm a teapot",
        421 => "Misdirected Request",
        422 => "Unprocessable Entity",
        423 => "Locked",
        424 => "Failed Dependency",
        426 => "Upgrade Required",
        428 => "Precondition Required",
        429 => "Too Many Requests",
        431 => "Request Header Fields Too Large",
        451 => "Unavailable For Legal Reasons",
        500 => "Internal Server Error",
        501 => "Not Implemented",
        502 => "Bad Gateway",
        503 => "Service Unavailable",
        504 => "Gateway Timeout",
        505 => "HTTP Version Not Supported",
        506 => "Variant Also Negotiates",
        507 => "Insufficient Storage",
        508 => "Loop Detected",
        510 => "Not Extended",
        511 => "Network Authentication Required",
        _ => return None,
    })
}
/// the constants and their numbers
const CODES: [(StatusCode, u16); 60] = [
    (StatusCode::CONTINUE, 100),
    (StatusCode::SWITCHING_PROTOCOLS, 101),
    (StatusCode::PROCESSING, 102),
    (StatusCode::OK, 200),
    (StatusCode::CREATED, 201),
    (StatusCode::ACCEPTED, 202),
    (StatusCode::NON_AUTHORITATIVE_INFORMATION, 203),
    (StatusCode::NO_CONTENT, 204),
    (StatusCode::RESET_CONTENT, 205),
    (StatusCode::PARTIAL_CONTENT, 206),
    (StatusCode::MULTI_STATUS, 207),
    (StatusCode::ALREADY_REPORTED, 208),
    (StatusCode::IM_USED, 226),
    (StatusCode::MULTIPLE_CHOICES, 300),
    (StatusCode::MOVED_PERMANENTLY, 301),
    (StatusCode::FOUND, 302),
    (StatusCode::SEE_OTHER, 303),
    (StatusCode::NOT_MODIFIED, 304),
    (StatusCode::USE_PROXY, 305),
    (StatusCode::TEMPORARY_REDIRECT, 307),
    (StatusCode::PERMANENT_REDIRECT, 308),
    (StatusCode::BAD_REQUEST, 400),
    (StatusCode::UNAUTHORIZED, 401),
    (StatusCode::PAYMENT_REQUIRED, 402),
    (StatusCode::FORBIDDEN, 403),
    (StatusCode::NOT_FOUND, 404),
    (StatusCode::METHOD_NOT_ALLOWED, 405),
    (StatusCode::NOT_ACCEPTABLE, 406),
    (StatusCode::PROXY_AUTHENTICATION_REQUIRED, 407),
    (StatusCode::REQUEST_TIMEOUT, 408),
    (StatusCode::CONFLICT, 409),
    (StatusCode::GONE, 410),
    (StatusCode::LENGTH_REQUIRED, 411),
    (StatusCode::PRECONDITION_FAILED, 412),
    (StatusCode::PAYLOAD_TOO_LARGE, 413),
    (StatusCode::URI_TOO_LONG, 414),
    (StatusCode::UNSUPPORTED_MEDIA_TYPE, 415),
    (StatusCode::RANGE_NOT_SATISFIABLE, 416),
    (StatusCode::EXPECTATION_FAILED, 417),
    (StatusCode::IM_A_TEAPOT, 418),
    (StatusCode::MISDIRECTED_REQUEST, 421),
    (StatusCode::UNPROCESSABLE_ENTITY, 422),
    (StatusCode::LOCKED, 423),
    (StatusCode::FAILED_DEPENDENCY, 424),
    (StatusCode::UPGRADE_REQUIRED, 426),
    (StatusCode::PRECONDITION_REQUIRED, 428),
    (StatusCode::TOO_MANY_REQUESTS, 429),
    (StatusCode::REQUEST_HEADER_FIELDS_TOO_LARGE, 431),
    (StatusCode::UNAVAILABLE_FOR_LEGAL_REASONS, 451),
    (StatusCode::INTERNAL_SERVER_ERROR, 500),
    (StatusCode::NOT_IMPLEMENTED, 501),
    (StatusCode::BAD_GATEWAY, 502),
    (StatusCode::SERVICE_UNAVAILABLE, 503),
    (StatusCode::GATEWAY_TIMEOUT, 504),
    (StatusCode::HTTP_VERSION_NOT_SUPPORTED, 505),
    (StatusCode::VARIANT_ALSO_NEGOTIATES, 506),
    (StatusCode::INSUFFICIENT_STORAGE, 507),
    (StatusCode::LOOP_DETECTED, 508),
    (StatusCode::NOT_EXTENDED, 510),
    (StatusCode::NETWORK_AUTHENTICATION_REQUIRED, 511),
];
fn plain(b: u8) -> u8 { if b == b'-' { b' ' } else { lower(b) } }

harnesses! {
/// every byte string of the shard's length as a method token
fn h_p13_method() {
    let n = shard();
    let s: Str<8> = sym_str(n, |b| b < 128);
    let r = Method::try_from(s.string().as_str());
    let mut want = None;
    for (t, m) in METHODS.iter() { if same(t.as_bytes(), s.b()) { want = Some(m.clone()); } }
    match r {
        Ok(m) => { check(want.as_ref() == Some(&m), "only the defined methods, spelled exactly"); check(same(m.as_str().as_bytes(), s.b()), "a method displays as it is spelled"); cover("ok"); }
        Err(_) => { check(want.is_none(), "a defined method is accepted"); cover("error"); }
    }
    // text in any case, through FromStr
    let f = s.string().parse::<Method>();
    let mut want = None;
    for (t, m) in METHODS.iter() { if ieq(t.as_bytes(), s.b()) { want = Some(m.clone()); } }
    check(f.ok() == want, "parsing from text ignores case");
}
fn h_p13_version() {
    let n = shard();
    // in a request line, any token in place of the version
    let s: Str<8> = sym_str(n, |b| b > b' ' && b < 127);
    let mut line: Str<64> = Str::new();
    line.put(b"GET / ").put(s.b()).put(b"\r\n\r\n");
    let mut q = Request::new();
    let r = q.parse_buffer(&mut line.b());
    let mut want = None;
    for (t, v) in VERSIONS.iter() { if same(t.as_bytes(), s.b()) { want = Some(*v); } }
    check(r.is_ok() == want.is_some(), "exactly the defined versions are accepted");
    match want {
        Some(v) => {
            check(q.version() == v, "version");
            check(same(v.as_str().as_bytes(), s.b()) && same(v.to_string().as_bytes(), s.b()), "a version displays as it is spelled");
            let t = s.string();
            check(Version::from(t.as_str()) == v, "version from text");
            cover("ok");
        }
        None => cover("error"),
    }
}
/// all 65536 numbers
fn h_p13_status() {
    let x = sym::u16();
    let r = StatusCode::from_u16(x);
    check(r.is_ok() == (x >= 100 && x <= 999), "100..999 are status codes");
    if let Ok(s) = r {
        check(s.as_u16() == x && s == x, "number of a status code");
        check(s.is_informational() == (x >= 100 && x < 200) && s.is_success() == (x >= 200 && x < 300) && s.is_redirection() == (x >= 300 && x < 400)
            && s.is_client_error() == (x >= 400 && x < 500) && s.is_server_error() == (x >= 500 && x < 600), "class of a status code");
        cover("number");
    } else { cover("refused"); }
}
/// the registered reason phrase of every code
fn h_p13_reason() {
    let x = sym::u16();
    assume(x >= 100 && x <= 999);
    let s = match StatusCode::from_u16(x) { Ok(s) => s, Err(_) => { check(false, "a code"); return } };
    match (s.canonical_reason(), registered(x)) {
        (Some(a), Some(b)) => {
            let (a, b) = (a.as_bytes(), b.as_bytes());
            let mut ok = a.len() == b.len();
            if ok { for i in 0..a.len() { ok &= plain(a[i]) == plain(b[i]); } }
            check(ok, "reason phrase of a registered code");
            cover("registered");
        }
        (None, None) => cover("unregistered"),
        (Some(_), None) => check(false, "a reason phrase for a code that has none"),
        (None, Some(_)) => check(false, "a registered code has a reason phrase"),
    }
}
/// the named constants and the questions asked of methods, versions and schemes
fn h_p13_named() {
    let k = concretize(choose(CODES.len() as u8) as u64) as usize;
    check(CODES[k].0.as_u16() == CODES[k].1, "number of a named status code");
    let k = choose(5);
    let s = &SCHEMES[k].1;
    check(s.is_http() == (k == 0) && s.is_https() == (k == 1) && s.is_ws() == (k == 2) && s.is_wss() == (k == 3) && !s.is_none(), "kind of a scheme");
    let k = choose(4);
    let v = VERSIONS[k].1;
    check(v.is_http1() == (k < 2) && v.is_http2() == (k == 2), "kind of a version");
    cover("named");
}
/// the text of each code of one hundred
fn h_p13_status_str() {
    let b = sym::u8();
    assume(b < 100);
    let x = shard() as u16 * 100 + b as u16;
    match StatusCode::from_u16(x) {
        Ok(s) => {
            let t = s.as_str().as_bytes();
            check(t.len() == 3 && t[0] == b'0' + shard() as u8 && t[1] == b'0' + b / 10 && t[2] == b'0' + b % 10, "three digits");
            let back = StatusCode::from_bytes(t);
            check(back.map(|c| c.as_u16()).unwrap_or(0) == x, "text reads back");
            cover("text");
        }
        Err(_) => check(false, "a code"),
    }
}
/// all strings of 0..4 bytes
fn h_p13_status_text() {
    let n = choose(5);
    let b: [u8; 4] = arr();
    let r = StatusCode::from_bytes(&b[..n]);
    let dig = |c: u8| c >= b'0' && c <= b'9';
    let good = n == 3 && b[0] != b'0' && dig(b[0]) && dig(b[1]) && dig(b[2]);
    check(r.is_ok() == good, "three digits, the first not zero");
    if let Ok(s) = r {
        let v = (b[0] - b'0') as u16 * 100 + (b[1] - b'0') as u16 * 10 + (b[2] - b'0') as u16;
        check(s.as_u16() == v, "value of the digits");
        cover("text");
    } else { cover("refused"); }
}
/// scheme tokens
fn h_p13_scheme() {
    let n = shard();
    let s: Str<8> = sym_str(n, |b| b < 128);
    let t = s.string();
    match Scheme::try_from(t.as_str()) {
        Ok(x) => {
            check(same(x.as_str().as_bytes(), s.b()) && same(x.to_string().as_bytes(), s.b()), "a scheme displays as it is spelled");
            let mut want = None;
            for (t, m) in SCHEMES.iter() { if same(t.as_bytes(), s.b()) { want = Some(m.clone()); } }
            match want {
                Some(w) => { check(x == w, "a known scheme"); cover("known"); }
                None => { check(matches!(x, Scheme::Extension(_)), "any other scheme is an extension"); cover("extension"); }
            }
        }
        Err(_) => check(false, "short text is a scheme"),
    }
    let mut want = None;
    for (t, m) in SCHEMES.iter() { if ieq(t.as_bytes(), s.b()) { want = Some(m.clone()); } }
    if let Some(w) = want { check(t.parse::<Scheme>().ok() == Some(w), "parsing from text ignores case"); }
}
/// tokens longer than any defined one
fn h_p13_longer() {
    let k = shard();
    const M: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"];
    const V: [&str; 4] = ["HTTP/1.0", "HTTP/1.1", "HTTP/2", "HTTP/3"];
    let more: Str<4> = sym_str(1 + choose(2), |b| b > b' ' && b < 127);
    let front = sym::bool();
    let mut t: Str<16> = Str::new();
    let word = if k < 9 { M[k] } else { V[k - 9] };
    if front { t.put(more.b()).put(word.as_bytes()); } else { t.put(word.as_bytes()).put(more.b()); }
    let mut line: Str<64> = Str::new();
    let ok = if k < 9 {
        check(t.string().parse::<Method>().is_err() && Method::try_from(t.string().as_str()).is_err(), "no method");
        line.put(t.b()).put(b" / HTTP/1.1\r\n\r\n");
        Request::new().parse_buffer(&mut line.b()).is_ok()
    } else {
        check(Version::from(t.string().as_str()) == Version::None, "no version");
        line.put(t.b()).put(b" 200 OK\r\n\r\n");
        let a = Response::new(()).parse_buffer(&mut line.b()).is_ok();
        let mut line: Str<64> = Str::new();
        line.put(b"GET / ").put(t.b()).put(b"\r\n\r\n");
        a | Request::new().parse_buffer(&mut line.b()).is_ok()
    };
    check(!ok, "a longer word is not the token");
    cover("longer");
}
}
