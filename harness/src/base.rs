use crate::sym::{self, *};
use webparse::*;

harnesses! {
fn h_req() {
    let mut b = *b"GET /ab?c HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\n";
    sym::bytes(&mut b[4..7]);
    let mut q = Request::new();
    let r = q.parse_buffer(&mut &b[..]);
    match r {
        Ok(n) => { observe(n as u64); observe_bytes(q.path().as_bytes()); check(n == b.len(), "consumed"); cover("ok"); }
        Err(_) => { observe(77); cover("err"); }
    }
}
fn h_any() {
    let n = shard();
    let b: [u8; 16] = arr();
    let mut q = Request::new();
    let r = q.parse_buffer(&mut &b[..n]);
    match r {
        Ok(n) => { observe(n as u64); observe_bytes(q.path().as_bytes()); cover("ok"); }
        Err(_) => { observe(77); cover("err"); }
    }
}
}
