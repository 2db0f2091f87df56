//! P25: a WebSocket data frame reads back as written.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::ws::{DataFrame, DataFrameable, Opcode};
use webparse::WebError;

fn incomplete(r: Result<DataFrame, WebError>) -> bool { matches!(r, Err(WebError::Io(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof) }
fn frame(fin: bool, rsv: [bool; 3], op: u8, d: &[u8]) -> DataFrame {
    let mut f = DataFrame::new(fin, Opcode::new(op).unwrap_or(Opcode::Text), d.to_vec());
    f.reserved = rsv;
    f
}
fn equal(f: &DataFrame, fin: bool, rsv: [bool; 3], op: u8, d: &[u8]) -> bool {
    f.finished == fin && f.reserved == rsv && f.opcode as u8 == op && same(&f.data, d)
}
fn bits(fin: bool, r: [bool; 3]) -> u8 { (fin as u8) << 7 | (r[0] as u8) << 6 | (r[1] as u8) << 5 | (r[2] as u8) << 4 }

harnesses! {
/// any frame with a symbolic payload: octets, size, reading, cut, with other octets behind (shard: length)
fn h_p25_round() {
    let p: Str<32> = sym_str(shard(), |_| true);
    let (fin, r0, r1, r2) = (sym::bool(), sym::bool(), sym::bool(), sym::bool());
    let op = choose(16) as u8;
    if op >= 8 { assume(fin); }
    let key: [u8; 4] = arr();
    let mask = if choose(2) == 1 { Some(key) } else { None };
    let f = frame(fin, [r0, r1, r2], op, p.b());
    let mut out: Buf<64> = Buf::new();
    let n = match f.write_to(&mut out, mask) { Ok(n) => n, Err(_) => { check(false, "a frame is written"); return; } };
    let b = out.all();
    check(n == b.len() && n == f.frame_size(mask.is_some()), "the size that is said is the size that is written");
    let mut want: Str<64> = Str::new();
    want.put(&[bits(fin, [r0, r1, r2]) | op]);
    if mask.is_some() {
        want.put(&[0x80 | p.n as u8]).put(&key);
        let mut i = 0;
        while i < p.n { want.put(&[p.d[i] ^ key[i & 3]]); i += 1; }
    } else { want.put(&[p.n as u8]).put(p.b()); }
    check(same(b, want.b()), "the octets of the frame");
    let cut = choose(n as u8 + 3);
    if cut < n {
        let mut part: Buf<64> = Buf::from(&b[..cut]);
        let lim = choose(2) == 1;
        check(incomplete(if lim { DataFrame::read_dataframe_with_limit(&mut part, mask.is_some(), 100) } else { DataFrame::read_dataframe(&mut part, mask.is_some()) }), "a frame cut anywhere is incomplete");
        cover("cut");
        return;
    }
    let mut more: Str<64> = Str::new();
    more.put(b).put(&[0x99; 2][..cut - n]);
    let mut buf: Buf<64> = Buf::from(more.b());
    let lim = choose(3);
    let r = if lim == 2 { DataFrame::read_dataframe(&mut buf, mask.is_some()) } else { DataFrame::read_dataframe_with_limit(&mut buf, mask.is_some(), p.n + lim) };
    match r {
        Ok(r) => {
            check(equal(&r, fin, [r0, r1, r2], op, p.b()), "reads back");
            check(buf.read() == n, "what follows is left alone");
            cover("round trip");
        }
        Err(_) => check(false, "what is written is read"),
    }
}
/// the limit, any, against any length, the payload not there yet
fn h_p25_limit() {
    let limit = sym::u64();
    let len = sym::u64();
    let mut b: Str<32> = Str::new();
    match choose(3) {
        0 => { assume(len < 126); b.put(&[0x82, len as u8]); }
        1 => { assume(len >= 126 && len < 65536); b.put(&[0x82, 126]).put(&(len as u16).to_be_bytes()); }
        _ => { assume(len >= 65536); b.put(&[0x82, 127]).put(&len.to_be_bytes()); }
    }
    b.put(&[1, 2, 3]);
    let mut buf: Buf<32> = Buf::from(b.b());
    match DataFrame::read_dataframe_with_limit(&mut buf, false, limit as usize) {
        Ok(f) => {
            check(len <= limit && len <= 3 && f.data.len() as u64 == len && same(&f.data, &[1, 2, 3][..f.data.len()]), "a payload within the limit that is there");
            cover("read");
        }
        Err(WebError::Io(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => { check(len <= limit && len > 3, "incomplete only within the limit"); cover("incomplete"); }
        Err(_) => { check(len > limit, "refused only beyond the limit"); cover("refused"); }
    }
    check(unsafe { sym::raw::sym_peak_alloc() } < 4096, "nothing is stored that is not there");
}
/// any octets: a verdict, and nothing beyond them (shard: how many)
fn h_p25_any() {
    let b: Str<32> = sym_str(shard(), |_| true);
    let mut buf: Buf<32> = Buf::from(b.b());
    match DataFrame::read_dataframe(&mut buf, sym::bool()) {
        Ok(f) => {
            let head = if b.d[1] & 0x80 != 0 { 6 } else { 2 };
            check(buf.read() == head + f.data.len() && f.data.len() == (b.d[1] & 0x7f) as usize, "the frame and no more");
            check(f.opcode as u8 == b.d[0] & 15 && bits(f.finished, f.reserved) == b.d[0] & 0xf0, "as the octets say");
            let mut ok = true;
            let mut i = 0;
            while i < f.data.len() { ok = ok & (f.data[i] == b.d[head + i] ^ if head == 6 { b.d[2 + (i & 3)] } else { 0 }); i += 1; }
            check(ok, "the payload");
            cover("read");
        }
        Err(_) => cover("refused"),
    }
    check(unsafe { sym::raw::sym_peak_alloc() } < 4096, "nothing is stored that is not there");
}
/// payloads around the limits of the length forms, symbolic at their ends
fn h_p25_forms() {
    let n = [124usize, 125, 126, 127, 200, 255, 256, 65535, 65536, 65537][shard()];
    let mut d = vec![0u8; n];
    let mut i = 0;
    while i < n { d[i] = (i * 13 + i / 256) as u8; i += 1; }
    sym::bytes(&mut d[..1]);
    sym::bytes(&mut d[n - 2..]);
    let op = choose(11) as u8;
    let masked = choose(2) == 1;
    let mut key = [1u8, 0x80, 0xff, 0x37];
    key[n & 3] = sym::u8();
    let key = if masked { Some(key) } else { None };
    let f = frame(true, [false; 3], op, &d);
    let mut out: Vec<u8> = vec![];
    let r = f.write_to(&mut out, key);
    if op >= 8 && n > 125 { check(r.is_err() && out.is_empty(), "a control frame of more than 125 octets is not written"); cover("not written"); return; }
    let w = r.unwrap_or(0);
    let head = if n < 126 { 2 } else if n < 65536 { 4 } else { 10 } + if masked { 4 } else { 0 };
    check(w == out.len() && w == head + n && w == f.frame_size(masked), "the size that is said is the size that is written");
    let mut s = &out[..];
    match DataFrame::read_dataframe_with_limit(&mut s, masked, n) {
        Ok(r) => { check(equal(&r, true, [false; 3], op, &d) && s.is_empty(), "reads back"); cover("round trip"); }
        Err(_) => check(false, "what is written is read"),
    }
    let mut s = &out[..];
    check(matches!(DataFrame::read_dataframe_with_limit(&mut s, masked, n - 1), Err(e) if !matches!(&e, WebError::Io(x) if x.kind() == std::io::ErrorKind::UnexpectedEof)), "beyond the limit");
    let mut s = &out[..w - 1];
    check(incomplete(DataFrame::read_dataframe(&mut s, masked)), "one octet short");
}
/// two frames one after another
fn h_p25_two() {
    let (a, b): (Str<8>, Str<8>) = (sym_str(choose(3), |_| true), sym_str(choose(3), |_| true));
    let key: [u8; 4] = arr();
    let mut out: Buf<64> = Buf::new();
    let x = frame(false, [false; 3], 1, a.b()).write_to(&mut out, Some(key)).unwrap_or(0);
    let y = frame(true, [false; 3], 0, b.b()).write_to(&mut out, None).unwrap_or(0);
    check(out.all().len() == x + y, "sizes");
    let p = DataFrame::read_dataframe(&mut out, true);
    check(out.read() == x, "the first frame is taken");
    let q = DataFrame::read_dataframe(&mut out, false);
    match (p, q) {
        (Ok(p), Ok(q)) => { check(equal(&p, false, [false; 3], 1, a.b()) && equal(&q, true, [false; 3], 0, b.b()) && out.all().is_empty(), "both frames"); cover("two"); }
        _ => check(false, "both frames"),
    }
    check(incomplete(DataFrame::read_dataframe(&mut out, false)), "then nothing");
}
}
