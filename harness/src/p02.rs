//! P02: a well-formed HTTP/1 response head is decoded to what its bytes spell.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::*;

const VERSIONS: [(&str, Version); 4] = [
    ("HTTP/1.1", Version::Http11), ("HTTP/1.0", Version::Http10), ("HTTP/2", Version::Http2), ("HTTP/3", Version::Http3),
];
/// reason-phrase = 1*( HTAB / SP / VCHAR / obs-text )
fn reason_char(b: u8) -> bool { b == b'\t' || b >= 0x20 && b != 0x7f }

fn run(head: &Str<256>, body: &[u8]) -> (Response<()>, bool) { runs(head.b(), body) }
fn runs(head: &[u8], body: &[u8]) -> (Response<()>, bool) {
    let mut all: Vec<u8> = Vec::with_capacity(head.len() + body.len());
    all.extend_from_slice(head);
    all.extend_from_slice(body);
    let mut q = Response::new(());
    q.headers_mut().insert("stale", "x");
    let mut rest = &all[..];
    match q.parse_buffer(&mut rest) {
        Ok(n) => {
            check(n == head.len(), "consumed length is the length of the head");
            check(same(rest, body), "the body is left in the buffer untouched");
            check(!q.is_partial(), "complete");
            observe(n as u64);
            (q, true)
        }
        Err(e) => {
            observe(1000 + e.is_partial() as u64);
            check(false, "a well-formed head is accepted");
            (q, false)
        }
    }
}

harnesses! {
/// status line: every version, every code 100..999, symbolic reason phrase, and no reason phrase at all
fn h_p02_status() {
    let (vn, v) = VERSIONS[choose(4)];
    let d: [u8; 3] = arr();
    assume(d[0] >= b'1' && d[0] <= b'9' && d[1] >= b'0' && d[1] <= b'9' && d[2] >= b'0' && d[2] <= b'9');
    let code = (d[0] - b'0') as u16 * 100 + (d[1] - b'0') as u16 * 10 + (d[2] - b'0') as u16;
    let nr = choose(if tier() == 0 { 4 } else { 8 });
    let reason: Str<16> = sym_str(nr, reason_char);
    let mut h: Str<256> = Str::new();
    h.put(vn.as_bytes()).put(b" ").put(&d).put(b" ").put(reason.b()).put(b"\r\n");
    let hdr = sym::bool();
    if hdr { h.put(b"A: b\r\n"); }
    h.put(b"\r\n");
    let body: [u8; 2] = arr();
    let (q, ok) = run(&h, &body[..choose(3)]);
    if !ok { return; }
    check(q.status().as_u16() == code, "status code");
    check(q.version() == v, "version");
    check(q.headers().len() == hdr as usize, "only the fields of this head");
    observe(q.status().as_u16() as u64);
    if nr == 0 { cover("empty reason"); } else { cover("reason"); }
}
/// header fields of a response
fn h_p02_fields() {
    let nh = 1 + choose(2);
    let mut h: Str<256> = Str::new();
    h.put(b"HTTP/1.1 200 OK\r\n");
    let mut names = [Str::<8>::new(); 2];
    let mut vals = [Str::<8>::new(); 2];
    for i in 0..nh {
        names[i] = sym_str(1 + choose(if tier() == 0 { 2 } else { 3 }), is_tchar);
        vals[i] = sym_value(choose(if tier() == 0 { 3 } else { 4 }));
        h.put(names[i].b()).put(b": ").put(vals[i].b());
        // a bare LF ends a line as well
        if i == 0 && sym::bool() { h.put(b"\n"); } else { h.put(b"\r\n"); }
    }
    h.put(b"\r\n");
    let (q, ok) = run(&h, b"z");
    if !ok { return; }
    let got: Vec<&(HeaderName, HeaderValue)> = q.headers().iter().collect();
    observe(got.len() as u64);
    if nh == 2 && ieq(names[0].b(), names[1].b()) {
        check(got.len() == 1, "equal names are one field");
        check(got.len() == 1 && same(got[0].1.as_bytes(), vals[1].b()), "the last of equal names wins");
        cover("dup");
    } else {
        check(got.len() == nh, "number of fields");
        let mut i = 0;
        while i < nh && i < got.len() {
            check(ieq(got[i].0.as_bytes(), names[i].b()), "field name");
            check(same(got[i].1.as_bytes(), vals[i].b()), "field value");
            i += 1;
        }
        cover("distinct");
    }
}
/// malformed status lines are errors, never a success with an invented code
fn h_p02_bad() {
    let d: [u8; 4] = arr();
    let n = 1 + choose(4);
    let mut h: Str<256> = Str::new();
    let isdig = |b: u8| b >= b'0' && b <= b'9';
    let mut good = n == 3 && d[0] >= b'1';
    let mut i = 0;
    while i < n { good = good && isdig(d[i]); assume(d[i] != b' ' && d[i] != b'\r' && d[i] != b'\n'); i += 1; }
    h.put(b"HTTP/1.1 ").put(&d[..n]).put(b" OK\r\n\r\n");
    let mut q = Response::new(());
    let mut rest = h.b();
    let r = q.parse_buffer(&mut rest);
    observe(r.is_ok() as u64);
    if good { check(r.is_ok(), "three digits are a status code"); cover("good"); }
    else { check(r.is_err(), "anything but three digits 100..999 is rejected"); cover("bad"); }
}
/// a status line with one or two octets replaced anywhere before the reason phrase
fn h_p02_line() {
    let mut d = *b"HTTP/1.1 204 OK\r\n\r\n";
    let at = choose(12);
    bytes(&mut d[at..at + 2]);
    assume(at != 11 || d[12] == b' '); // behind the code only the code's last digit is of interest
    let want = (same(&d[..8], b"HTTP/1.1") || same(&d[..8], b"HTTP/1.0")) && d[8] == b' '
        && d[9] >= b'1' && d[9] <= b'9' && d[10] >= b'0' && d[10] <= b'9' && d[11] >= b'0' && d[11] <= b'9';
    // leading line ends are skipped and a run of blanks counts as one; neither is judged
    assume(d[0] == b'H' || d[0] > b' ');
    assume(d[9] != b' ' && d[9] != b'\t' && d[8] != b'\t');
    // a shorter version leaves another line: "HTTP/2 1 204"
    assume(d[6] != b' ' && d[7] != b' ');
    let mut q = Response::new(());
    let r = q.parse_buffer(&mut &d[..]);
    observe(r.is_ok() as u64);
    check(r.is_ok() == want, "a status line is a version, a space and three digits");
    if let Ok(n) = r {
        check(n == d.len(), "reported size");
        check(q.status().as_u16() == (d[9] - b'0') as u16 * 100 + (d[10] - b'0') as u16 * 10 + (d[11] - b'0') as u16, "status code");
        check(q.version() == if d[7] == b'1' { Version::Http11 } else { Version::Http10 }, "version");
        cover("good");
    } else { cover("bad"); }
}
/// long reason phrases, names and values
fn h_p02_long() {
    const LONG: [usize; 10] = [15, 16, 17, 63, 64, 65, 255, 256, 1025, 66_001];
    let n = LONG[shard() % LONG.len()];
    let what = shard() / LONG.len();
    let mut x = vec![b'x'; n];
    for i in [0, n / 2, n - 1] {
        let b = u8();
        match what { 0 => assume(reason_char(b)), 1 => assume(is_alnum(b)), _ => assume(is_alnum(b) || b >= 0x80) }
        x[i] = b;
    }
    let (reason, name, value): (&[u8], &[u8], &[u8]) = match what { 0 => (&x, b"n", b"v"), 1 => (b"R", &x, b"v"), _ => (b"R", b"n", &x) };
    let mut h: Vec<u8> = Vec::with_capacity(n + 100);
    h.extend_from_slice(b"HTTP/1.0 503 ");
    h.extend_from_slice(reason);
    h.extend_from_slice(b"\r\n");
    h.extend_from_slice(name);
    h.extend_from_slice(b": ");
    h.extend_from_slice(value);
    h.extend_from_slice(b"\r\n\r\n");
    let (q, ok) = runs(&h, b"z");
    if !ok { return; }
    check(q.status().as_u16() == 503 && q.version() == Version::Http10, "status line");
    let got: Vec<&(HeaderName, HeaderValue)> = q.headers().iter().collect();
    check(got.len() == 1 && ieq(got[0].0.as_bytes(), name) && same(got[0].1.as_bytes(), value), "long field");
    cover("long");
}
/// many fields
fn h_p02_many() {
    let k = [3usize, 5, 9, 17, 33, 65, 129][shard()];
    let mut h: Vec<u8> = Vec::with_capacity(k * 10 + 50);
    let v: [u8; 2] = arr();
    assume(is_alnum(v[0]) && is_alnum(v[1]));
    h.extend_from_slice(b"HTTP/1.1 404\r\n");
    let name = |i: usize| [b'a' + (i % 26) as u8, b'a' + (i / 26) as u8];
    for i in 0..k {
        h.extend_from_slice(&name(i));
        h.extend_from_slice(b": ");
        h.push(if i == 0 { v[0] } else if i == k - 1 { v[1] } else { b'0' + (i % 10) as u8 });
        h.extend_from_slice(b"\r\n");
    }
    h.extend_from_slice(b"\r\n");
    let (q, ok) = runs(&h, b"z");
    if !ok { return; }
    check(q.headers().len() == k, "number of fields");
    let got: Vec<&(HeaderName, HeaderValue)> = q.headers().iter().collect();
    for i in 0..got.len() {
        check(same(got[i].0.as_bytes(), &name(i)), "name of one of many fields");
        let want = if i == 0 { v[0] } else if i == k - 1 { v[1] } else { b'0' + (i % 10) as u8 };
        check(same(got[i].1.as_bytes(), &[want]), "value of one of many fields");
    }
    cover("many");
}
}
