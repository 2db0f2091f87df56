//! P23: the header of a WebSocket frame.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::ws::frame_header::{read_header, write_header, WsFrameFlags};
use webparse::ws::WsFrameHeader;
use webparse::WebError;

/// RFC 6455, 5.2, restated: Ok(header octets, length), Err(true) incomplete, Err(false) refused
fn model(b: &[u8]) -> Result<(usize, u64), bool> {
    if b.len() < 2 { return Err(true); }
    let form = b[1] & 0x7f;
    let (n, mut l) = if form < 126 { (2, form as u64) } else if form == 126 { (4, 0) } else { (10, 0) };
    if b.len() < n { return Err(true); }
    let mut i = 2;
    while i < n { l = l << 8 | b[i] as u64; i += 1; }
    if n == 4 && l < 126 || n == 10 && l < 65536 { return Err(false); }
    if b[0] & 8 != 0 && (l > 125 || b[0] & 0x80 == 0) { return Err(false); }
    let n = if b[1] & 0x80 != 0 { n + 4 } else { n };
    if b.len() < n { return Err(true); }
    Ok((n, l))
}
fn compare(b: &[u8]) {
    let mut buf: Buf<32> = Buf::from(b);
    match (read_header(&mut buf), model(b)) {
        (Ok(h), Ok((n, l))) => {
            check(buf.read() == n, "exactly the header is taken");
            check(h.flags.bits() == b[0] & 0xf0 && h.opcode == b[0] & 15 && h.len == l, "flags, opcode and length");
            match h.mask {
                Some(m) => check(b[1] & 0x80 != 0 && same(&m, &b[n - 4..n]), "the masking key"),
                None => check(b[1] & 0x80 == 0, "no masking key"),
            }
            observe(h.len);
            cover("read");
        }
        (Err(e), Err(cut)) => {
            if cut { check(matches!(e, WebError::Io(_)), "incomplete"); cover("incomplete"); }
            else { check(!matches!(e, WebError::Io(_)), "refused, not incomplete"); cover("refused"); }
        }
        _ => check(false, "a header is read exactly if it is complete and well-formed"),
    }
}

harnesses! {
/// any octets (shard: how many, up to two more than the longest header)
fn h_p23_any() {
    let b: Str<32> = sym_str(shard(), |_| true);
    compare(b.b());
}
/// write, look at the octets, read, also cut short and with octets behind
fn h_p23_round() {
    let len = sym::u64();
    let op = sym::u8();
    let f = sym::u8();
    assume(f & 0x0f == 0);
    let m: [u8; 4] = arr();
    let mask = if sym::bool() { Some(m) } else { None };
    let h = WsFrameHeader { flags: WsFrameFlags::from_bits_truncate(f), opcode: op, mask, len };
    let mut buf: Buf<32> = Buf::new();
    let r = write_header(&mut buf, h);
    if op > 15 || op >= 8 && len > 125 {
        check(r.is_err() && buf.all().is_empty(), "an opcode or a control frame that does not exist is not written");
        cover("not written");
        return;
    }
    check(r.is_ok(), "a header is written");
    let b = buf.all();
    let mut want: Str<32> = Str::new();
    let k = if mask.is_some() { 0x80 } else { 0 };
    want.put(&[f | op]);
    if len < 126 { want.put(&[k | len as u8]); cover("short"); }
    else if len < 65536 { want.put(&[k | 126]).put(&(len as u16).to_be_bytes()); cover("middle"); }
    else { want.put(&[k | 127]).put(&len.to_be_bytes()); cover("long"); }
    if mask.is_some() { want.put(&m); }
    check(same(b, want.b()), "the octets of the header, its length in the shortest form");
    let n = b.len();
    let cut = choose(17);
    if cut < n {
        let mut part: Buf<32> = Buf::from(&b[..cut]);
        if op < 8 || f & 0x80 != 0 { check(matches!(read_header(&mut part), Err(WebError::Io(_))), "a header cut anywhere is incomplete"); }
        else { check(read_header(&mut part).is_err(), "a header cut anywhere is not a header"); }
        cover("cut");
        return;
    }
    let mut more: Buf<32> = Buf::new();
    algorithm::buf::BtMut::put_slice(&mut more, b);
    algorithm::buf::BtMut::put_slice(&mut more, &[0xff; 3][..cut - n.min(cut).max(cut.saturating_sub(3))]);
    match read_header(&mut more) {
        Ok(r) => {
            check(op < 8 || f & 0x80 != 0, "a fragmented control frame is refused");
            check(r.flags.bits() == f && r.opcode == op && r.len == len && r.mask == mask && more.read() == n, "reads back, what follows is left alone");
            cover("round trip");
        }
        Err(_) => check(op >= 8 && f & 0x80 == 0, "what is written is read"),
    }
}
}
