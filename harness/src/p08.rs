//! P08: a number in a header is its exact decimal value or an error.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::*;

/// decimal text → value, None when not a number or too large for 127 bits
fn dec(b: &[u8]) -> Option<u128> {
    if b.len() == 0 { return None; }
    // leading zeros do not count
    let mut z = 0;
    while b.len() - z > 30 { if b[z] != b'0' { return None; } z += 1; }
    let b = &b[z..];
    let mut v = 0u128;
    let mut i = 0;
    let mut ok = true;
    while i < b.len() {
        ok = ok & (b[i] >= b'0') & (b[i] <= b'9');
        v = v * 10 + (b[i].wrapping_sub(b'0')) as u128;
        i += 1;
    }
    if ok { Some(v) } else { None }
}
fn go(b: &[u8]) {
    let v = HeaderValue::from_bytes(b);
    let u: Result<usize, _> = (&v).try_into();
    let i: Result<isize, _> = (&v).try_into();
    let want = dec(b);
    match (&u, want) {
        (Ok(x), Some(w)) => { check(*x as u128 == w, "unsigned value"); cover("number"); }
        (Ok(_), None) => check(false, "not a decimal number but accepted"),
        (Err(_), Some(w)) => { check(w > u64::MAX as u128, "a representable number is accepted"); cover("too large"); }
        (Err(_), None) => cover("not a number"),
    }
    let (neg, rest) = if b.len() > 0 && b[0] == b'-' { (true, &b[1..]) } else { (false, b) };
    let want = dec(rest);
    match (&i, want) {
        (Ok(x), Some(w)) => check(if neg { *x as i128 == -(w as i128) } else { *x as i128 == w as i128 }, "signed value"),
        (Ok(_), None) => check(false, "not a signed decimal number but accepted"),
        (Err(_), Some(w)) => check(w > i64::MAX as u128 + neg as u128, "a representable signed number is accepted"),
        (Err(_), None) => (),
    }
    if let Ok(x) = u { observe(x as u64); }
    if let Ok(x) = i { observe(x as u64); }
    let mut m = HeaderMap::new();
    m.insert("content-length", v);
    let got = m.get_body_len();
    check(got == match (i.is_ok(), want) { (true, Some(w)) => if neg { (-(w as i128)) as isize } else { w as isize }, _ => 0 }, "body length is the field's value");
}

fn stat(b: &[u8]) {
    // the sign of a positive number is left open
    if b.len() > 0 && b[0] == b'+' { return }
    let v = HeaderValue::try_from(hv(b).to_string().leak() as &'static str).unwrap();
    check(matches!(v, HeaderValue::Stand(_)), "a value of program text");
    let w = HeaderValue::from_bytes(b);
    let u: Result<usize, _> = (&v).try_into();
    let x: Result<usize, _> = (&w).try_into();
    check(u.ok() == x.ok(), "unsigned number of program text");
    let u: Result<isize, _> = (&v).try_into();
    let x: Result<isize, _> = (&w).try_into();
    if let Ok(x) = x { observe(x as u64); cover("static number"); }
    check(u.ok() == x.ok(), "signed number of program text");
}

harnesses! {
/// every byte string of 0..4 (6) bytes
fn h_p08_any() {
    let b: [u8; 8] = arr();
    let n = choose(if tier() == 0 { 5 } else { 7 });
    go(&b[..n]);
}
/// values given as program text answer as the same bytes from the wire do
fn h_p08_static() {
    let mx = if tier() == 0 { 4 } else { 6 };
    let s: Str<8> = sym_str(choose(mx), |b| b < 128);
    stat(s.b());
}
/// around the limits: a long digit string with symbolic digits at both ends
fn h_p08_limit() {
    const T: &[&[u8]] = &[b"9223372036854775807", b"18446744073709551615", b"-9223372036854775808", b"99999999999999999999", b"00000000000000000001"];
    let t = T[shard()];
    let mut s: Str<24> = Str::new();
    s.put(t);
    let n = t.len();
    let st = (t[0] == b'-') as usize;
    let mut d = s;
    d.d[st] = b'0' + choose(10) as u8;
    sym::bytes(&mut d.d[n - 2..n]);
    let mut i = st;
    while i < n { assume(d.d[i] >= b'0' && d.d[i] <= b'9'); i += 1; }
    if sym::bool() { d.put(b"7"); }
    go(d.b());
    stat(d.b());
}
/// written numbers read back
fn h_p08_write() {
    const B: &[u64] = &[0, 100, 900, 9_900, 65_500, 999_900, 4_294_967_200, 9_223_372_036_854_775_700, 9_223_372_036_854_775_800, 9_999_999_999_999_999_900, 18_446_744_073_709_551_400];
    let x = pick(B).wrapping_add(sym::u8() as u64);
    let v = HeaderValue::try_from(x as usize);
    let y: Option<usize> = v.ok().and_then(|v| (&v).try_into().ok());
    check(y == Some(x as usize), "unsigned number reads back");
    let v = HeaderValue::try_from(x as isize);
    let y: Option<isize> = v.ok().and_then(|v| (&v).try_into().ok());
    check(y == Some(x as isize), "signed number reads back");
    cover("signed");
    cover("write");
}
/// numbers with leading zeros
fn h_p08_zeros() {
    const N: [usize; 6] = [1, 17, 18, 19, 20, 40];
    let mut s: Str<64> = Str::new();
    if sym::bool() { s.put(b"-"); }
    let mut i = 0;
    while i < N[shard()] { s.put(b"0"); i += 1; }
    s.sym(2, |b| b.is_ascii_digit());
    go(s.b());
    cover("number");
}
}
