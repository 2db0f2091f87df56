//! P07: header names are equal exactly when they differ by ASCII case only,
//! and equal names hash equally.
use crate::gen::*;
use crate::sym::{self, *};
use std::hash::{Hash, Hasher};
use webparse::*;

/// records what is fed to it
struct Rec { d: [u8; 40], n: usize }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { if self.n < 40 { self.d[self.n] = b[i]; self.n += 1; } i += 1; } }
    fn write_u8(&mut self, b: u8) { self.write(&[b]) }
}
fn fed(h: &HeaderName) -> Rec { let mut r = Rec { d: [0; 40], n: 0 }; h.hash(&mut r); r }

/// the names as IANA registers them (and the long-standing X- ones), restated
const REG: [&str; 81] = [
    "accept",
    "accept-charset",
    "accept-encoding",
    "accept-language",
    "accept-ranges",
    "access-control-allow-credentials",
    "access-control-allow-headers",
    "access-control-allow-methods",
    "access-control-allow-origin",
    "access-control-expose-headers",
    "access-control-max-age",
    "access-control-request-headers",
    "access-control-request-method",
    "age",
    "allow",
    "alt-svc",
    "authorization",
    "cache-control",
    "cache-status",
    "cdn-cache-control",
    "connection",
    "content-disposition",
    "content-encoding",
    "content-language",
    "content-length",
    "content-location",
    "content-range",
    "content-security-policy",
    "content-security-policy-report-only",
    "content-type",
    "cookie",
    "dnt",
    "date",
    "etag",
    "expect",
    "expires",
    "forwarded",
    "from",
    "host",
    "if-match",
    "if-modified-since",
    "if-none-match",
    "if-range",
    "if-unmodified-since",
    "last-modified",
    "link",
    "location",
    "max-forwards",
    "origin",
    "pragma",
    "proxy-authenticate",
    "proxy-authorization",
    "public-key-pins",
    "public-key-pins-report-only",
    "range",
    "referer",
    "referrer-policy",
    "refresh",
    "retry-after",
    "sec-websocket-accept",
    "sec-websocket-extensions",
    "sec-websocket-key",
    "sec-websocket-protocol",
    "sec-websocket-version",
    "server",
    "set-cookie",
    "strict-transport-security",
    "te",
    "trailer",
    "transfer-encoding",
    "user-agent",
    "upgrade",
    "upgrade-insecure-requests",
    "vary",
    "via",
    "warning",
    "www-authenticate",
    "x-content-type-options",
    "x-dns-prefetch-control",
    "x-frame-options",
    "x-xss-protection",
];
fn std(k: usize) -> HeaderName {
    match k {
        0 => HeaderName::ACCEPT,
        1 => HeaderName::ACCEPT_CHARSET,
        2 => HeaderName::ACCEPT_ENCODING,
        3 => HeaderName::ACCEPT_LANGUAGE,
        4 => HeaderName::ACCEPT_RANGES,
        5 => HeaderName::ACCESS_CONTROL_ALLOW_CREDENTIALS,
        6 => HeaderName::ACCESS_CONTROL_ALLOW_HEADERS,
        7 => HeaderName::ACCESS_CONTROL_ALLOW_METHODS,
        8 => HeaderName::ACCESS_CONTROL_ALLOW_ORIGIN,
        9 => HeaderName::ACCESS_CONTROL_EXPOSE_HEADERS,
        10 => HeaderName::ACCESS_CONTROL_MAX_AGE,
        11 => HeaderName::ACCESS_CONTROL_REQUEST_HEADERS,
        12 => HeaderName::ACCESS_CONTROL_REQUEST_METHOD,
        13 => HeaderName::AGE,
        14 => HeaderName::ALLOW,
        15 => HeaderName::ALT_SVC,
        16 => HeaderName::AUTHORIZATION,
        17 => HeaderName::CACHE_CONTROL,
        18 => HeaderName::CACHE_STATUS,
        19 => HeaderName::CDN_CACHE_CONTROL,
        20 => HeaderName::CONNECTION,
        21 => HeaderName::CONTENT_DISPOSITION,
        22 => HeaderName::CONTENT_ENCODING,
        23 => HeaderName::CONTENT_LANGUAGE,
        24 => HeaderName::CONTENT_LENGTH,
        25 => HeaderName::CONTENT_LOCATION,
        26 => HeaderName::CONTENT_RANGE,
        27 => HeaderName::CONTENT_SECURITY_POLICY,
        28 => HeaderName::CONTENT_SECURITY_POLICY_REPORT_ONLY,
        29 => HeaderName::CONTENT_TYPE,
        30 => HeaderName::COOKIE,
        31 => HeaderName::DNT,
        32 => HeaderName::DATE,
        33 => HeaderName::ETAG,
        34 => HeaderName::EXPECT,
        35 => HeaderName::EXPIRES,
        36 => HeaderName::FORWARDED,
        37 => HeaderName::FROM,
        38 => HeaderName::HOST,
        39 => HeaderName::IF_MATCH,
        40 => HeaderName::IF_MODIFIED_SINCE,
        41 => HeaderName::IF_NONE_MATCH,
        42 => HeaderName::IF_RANGE,
        43 => HeaderName::IF_UNMODIFIED_SINCE,
        44 => HeaderName::LAST_MODIFIED,
        45 => HeaderName::LINK,
        46 => HeaderName::LOCATION,
        47 => HeaderName::MAX_FORWARDS,
        48 => HeaderName::ORIGIN,
        49 => HeaderName::PRAGMA,
        50 => HeaderName::PROXY_AUTHENTICATE,
        51 => HeaderName::PROXY_AUTHORIZATION,
        52 => HeaderName::PUBLIC_KEY_PINS,
        53 => HeaderName::PUBLIC_KEY_PINS_REPORT_ONLY,
        54 => HeaderName::RANGE,
        55 => HeaderName::REFERER,
        56 => HeaderName::REFERRER_POLICY,
        57 => HeaderName::REFRESH,
        58 => HeaderName::RETRY_AFTER,
        59 => HeaderName::SEC_WEBSOCKET_ACCEPT,
        60 => HeaderName::SEC_WEBSOCKET_EXTENSIONS,
        61 => HeaderName::SEC_WEBSOCKET_KEY,
        62 => HeaderName::SEC_WEBSOCKET_PROTOCOL,
        63 => HeaderName::SEC_WEBSOCKET_VERSION,
        64 => HeaderName::SERVER,
        65 => HeaderName::SET_COOKIE,
        66 => HeaderName::STRICT_TRANSPORT_SECURITY,
        67 => HeaderName::TE,
        68 => HeaderName::TRAILER,
        69 => HeaderName::TRANSFER_ENCODING,
        70 => HeaderName::USER_AGENT,
        71 => HeaderName::UPGRADE,
        72 => HeaderName::UPGRADE_INSECURE_REQUESTS,
        73 => HeaderName::VARY,
        74 => HeaderName::VIA,
        75 => HeaderName::WARNING,
        76 => HeaderName::WWW_AUTHENTICATE,
        77 => HeaderName::X_CONTENT_TYPE_OPTIONS,
        78 => HeaderName::X_DNS_PREFETCH_CONTROL,
        79 => HeaderName::X_FRAME_OPTIONS,
        80 => HeaderName::X_XSS_PROTECTION,
        _ => unreachable!(),
    }
}

harnesses! {
/// two names of the same or different length
fn h_p07_eq() {
    let mx = if tier() == 0 { 4 } else { 6 };
    let a: Str<8> = sym_str(choose(mx), |b| b < 128);
    let b: Str<8> = sym_str(choose(mx), |b| b < 128);
    let want = ieq(a.b(), b.b());
    let (ha, hb) = (HeaderName::try_from(a.string()).ok(), HeaderName::try_from(b.string()).ok());
    if let (Some(x), Some(y)) = (ha, hb) {
        let got = x == y;
        observe(got as u64);
        check(got == want, "names are equal iff they differ only by letter case");
        check((x == b.b()) == want, "comparison with bytes");
        let s = b.string();
        check((x == s.as_str()) == want, "comparison with text");
        check((b.b() == x) == want, "comparison is symmetric");
        if want {
            let (p, q) = (fed(&x), fed(&y));
            check(p.n == q.n && same(&p.d[..p.n], &q.d[..q.n]), "equal names hash equally");
            cover("equal");
        } else { cover("different"); }
    } else { check(false, "ASCII text is a name"); }
}
/// the predefined names compare with every spelling of themselves
fn h_p07_standard() {
    let k = shard();
    let stdk = std(k);
    let t = REG[k].as_bytes();
    check(stdk.as_bytes().len() == t.len() && ieq(stdk.as_bytes(), t), "a predefined name is the registered name");
    let n = t.len();
    let mut d = [0u8; 40];
    d[..n].copy_from_slice(t);
    let at = choose((n - 1) as u8);
    sym::bytes(&mut d[at..at + 2]);
    let want = ieq(&d[..n], t);
    let got = stdk == &d[..n];
    observe(got as u64);
    check(got == want, "names are equal iff they differ only by letter case");
    match HeaderName::from_bytes(&d[..n]) {
        Some(h) => {
            check(same(h.as_bytes(), &d[..n]), "a name keeps its spelling");
            check((h == stdk) == want, "parsed name against the predefined one");
            if want { let (p, q) = (fed(&h), fed(&stdk)); check(p.n == q.n && same(&p.d[..p.n], &q.d[..q.n]), "equal names hash equally"); cover("equal"); }
            else { cover("different"); }
        }
        None => { check(d[at] >= 128 || d[at + 1] >= 128, "ASCII bytes are a name"); cover("refused"); }
    }
}
/// long names: equal but for one octet at any of many places
fn h_p07_long() {
    let n = LONG[shard() % 9];
    let at = [0, 1, n / 3, n / 2, n - 2, n - 1][choose(6)];
    let mut a = vec![b'x'; n];
    let mut i = 0;
    while i < n { a[i] = b"xY-0_z"[i % 6]; i += 1; }
    let mut b = a.clone();
    let (p, q) = (sym::u8(), sym::u8());
    assume(is_tchar(p) && is_tchar(q));
    a[at] = p;
    b[at] = q;
    let cut = sym::bool();
    if cut { b.pop(); }
    let want = !cut && lower(p) == lower(q);
    let (x, y) = (HeaderName::from_bytes(&a), HeaderName::from_bytes(&b));
    check(x.is_some() && y.is_some(), "long names are names");
    if let (Some(x), Some(y)) = (x, y) {
        check((x == y) == want && (y == x) == want, "long names are equal when they differ only in case");
        check((x == &b[..]) == want && (x == std::str::from_utf8(&b).unwrap_or("")) == want, "a long name equals a text");
        let mut h = HeaderMap::new();
        h.insert(x, "1");
        check(h.contains(&&b[..]) == want, "a long name is found");
        if want { cover("equal"); } else { cover("different"); }
    }
}
}
