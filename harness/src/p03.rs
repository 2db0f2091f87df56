//! P03: parsing untrusted HTTP/1 bytes always returns.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::*;

fn req(b: &[u8]) {
    let mut q = Request::new();
    let mut rest = b;
    match q.parse_buffer(&mut rest) {
        Ok(n) => {
            check(n > 0 && n <= b.len(), "consumed length within the input");
            check(rest.len() == b.len() - n, "what was not consumed stays in the buffer");
            observe(n as u64);
            // accessors of an accepted request are total as well
            let _ = q.get_host();
            observe(q.get_body_len() as u64);
            observe(q.is_keep_alive() as u64);
            let _ = q.headers().get_upgrade_protocol();
            cover("ok");
        }
        Err(e) => {
            observe(1000 + e.is_partial() as u64);
            cover(if e.is_partial() { "partial" } else { "error" });
        }
    }
    check(peak() <= 4096 + 16 * b.len(), "memory in proportion to the input");
}
fn res(b: &[u8]) {
    let mut q = Response::new(());
    let mut rest = b;
    match q.parse_buffer(&mut rest) {
        Ok(n) => {
            check(n > 0 && n <= b.len(), "consumed length within the input");
            check(rest.len() == b.len() - n, "what was not consumed stays in the buffer");
            observe(n as u64);
            observe(q.get_body_len() as u64);
            cover("ok");
        }
        Err(e) => {
            observe(1000 + e.is_partial() as u64);
            cover(if e.is_partial() { "partial" } else { "error" });
        }
    }
    check(peak() <= 4096 + 16 * b.len(), "memory in proportion to the input");
}
fn peak() -> usize { unsafe { crate::sym::raw::sym_peak_alloc() as usize } }

/// (before, after, symbolic bytes quick, thorough)
const REQ: &[(&[u8], &[u8], usize, usize)] = &[
    (b"GET ", b" HTTP/1.1\r\n\r\n", 3, 5),
    (b"GET /", b" HTTP/1.1\r\n\r\n", 4, 6),
    (b"GET /%", b" HTTP/1.1\r\n\r\n", 4, 5),
    (b"CONNECT ", b" HTTP/1.1\r\n\r\n", 3, 5),
    (b"GET http://", b"/ HTTP/1.1\r\n\r\n", 3, 5),
    (b"GET / HTTP", b"\r\n\r\n", 4, 6),
    (b"GET / HTTP/1.1", b"\r\n\r\n", 4, 5),
    (b"GET / HTTP/1.1\r\n", b"\r\n\r\n", 4, 5),
    (b"GET / HTTP/1.1\r\nA: ", b"\r\n\r\n", 4, 5),
    (b"GET / HTTP/1.1\r\nHost: ", b"\r\n\r\n", 3, 4),
    (b"GET / HTTP/1.1\r\nContent-Length: ", b"\r\n\r\n", 3, 4),
    (b"GET / HTTP/1.1\r\nConnection: ", b"\r\n\r\n", 3, 4),
];
const RES: &[(&[u8], &[u8], usize, usize)] = &[
    (b"HTTP", b" 200 OK\r\n\r\n", 4, 6),
    (b"HTTP/1.1 ", b" OK\r\n\r\n", 4, 5),
    (b"HTTP/1.1 200", b"\r\n\r\n", 4, 5),
    (b"HTTP/1.1 200 OK\r\n", b"\r\n\r\n", 4, 5),
    (b"HTTP/1.1 200 OK\r\nContent-Length: ", b"\r\n\r\n", 3, 4),
    (b"HTTP/1.1 200 OK\r\nTransfer-Encoding: ", b"\r\n\r\n", 3, 4),
];
fn fill(t: &(&[u8], &[u8], usize, usize)) -> Str<96> {
    let k = if tier() == 0 { t.2 } else { t.3 };
    let mut s: Str<96> = Str::new();
    s.put(t.0).sym(k, |_| true).put(t.1);
    s
}

harnesses! {
/// no structure at all: every byte string of the shard's length
fn h_p03_any_request() {
    let b: [u8; 16] = arr();
    req(&b[..shard()]);
}
fn h_p03_any_response() {
    let b: [u8; 16] = arr();
    res(&b[..shard()]);
}
/// arbitrary bytes inside an otherwise well-formed head
fn h_p03_request() {
    let s = fill(&REQ[shard()]);
    req(s.b());
}
fn h_p03_response() {
    let s = fill(&RES[shard()]);
    res(s.b());
}
/// long heads with arbitrary octets at their end, their middle or behind them (shard: where and length)
fn h_p03_long() {
    let n = LONG[shard() % 10];
    let fill = vec![b'a'; n];
    let esc: Vec<u8> = b"%41".iter().cycle().take(n / 3 * 3).cloned().collect();
    let mut b: Vec<u8> = Vec::new();
    let k = shard() / 10;
    let s: Str<8> = sym_str(2, |_| true);
    let mid = sym::bool();
    let mut put = |pre: &[u8], f: &[u8], post: &[u8]| {
        b.extend_from_slice(pre);
        if mid { b.extend_from_slice(&f[..n / 6 * 3]); b.extend_from_slice(s.b()); b.extend_from_slice(&f[n / 6 * 3..]); } else { b.extend_from_slice(f); b.extend_from_slice(s.b()); }
        b.extend_from_slice(post);
    };
    match k {
        0 => put(b"GET /", &fill, b" HTTP/1.1\r\n\r\n"),
        1 => put(b"GET /", &esc, b" HTTP/1.1\r\n\r\n"),
        2 => put(b"GET http://", &fill, b"/ HTTP/1.1\r\n\r\n"),
        3 => put(b"GET / HTTP/1.1\r\n", &fill, b": x\r\n\r\n"),
        4 => put(b"GET / HTTP/1.1\r\nA: ", &fill, b"\r\n\r\n"),
        5 => put(b"", &fill, b" / HTTP/1.1\r\n\r\n"),
        6 => put(b"HTTP/1.1 200 ", &fill, b"\r\n\r\n"),
        _ => put(b"HTTP/1.1 200 OK\r\nServer: ", &fill, b"\r\n\r\n"),
    }
    if k < 6 { req(&b) } else { res(&b) }
}
/// many fields, arbitrary octets behind them
fn h_p03_many() {
    let n = [3usize, 8, 17, 65, 129][shard() % 5];
    let mut b: Vec<u8> = if shard() < 5 { b"GET / HTTP/1.1\r\n".to_vec() } else { b"HTTP/1.1 200 OK\r\n".to_vec() };
    let mut i = 0;
    while i < n { b.extend_from_slice(format!("f{}: {}\r\n", i, i).as_bytes()); i += 1; }
    let s: Str<8> = sym_str(3, |_| true);
    b.extend_from_slice(s.b());
    b.extend_from_slice(b"\r\n\r\n");
    if shard() < 5 { req(&b) } else { res(&b) }
}
}
