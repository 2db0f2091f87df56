//! P14: the nine octets of an HTTP/2 frame header.
use crate::sym::{self, *};
use webparse::http2::frame::*;

const DEFINED: u8 = 0x2d;

harnesses! {
/// nine symbolic octets, up to two more behind them
fn h_p14_read() {
    let b: [u8; 11] = arr();
    let n = 9 + choose(3);
    let mut buf: Buf<16> = Buf::from(&b[..n]);
    match FrameHeader::parse(&mut buf) {
        Ok(h) => {
            check(h.length == (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32, "length");
            let k = h.kind().encode();
            check(if b[3] <= 9 { k == b[3] } else { *h.kind() == Kind::Unregistered }, "type");
            check(h.flag().bits() & DEFINED == b[4] & DEFINED && h.flag().bits() & !b[4] == 0, "flags");
            check(h.stream_id().0 == u32::from_be_bytes([b[5] & 0x7f, b[6], b[7], b[8]]), "stream identifier without the reserved bit");
            check(buf.read() == 9, "nine octets are taken");
            let f = h.flag();
            check(f.is_end_stream() == (b[4] & 1 != 0) && f.is_ack() == (b[4] & 1 != 0) && f.is_end_headers() == (b[4] & 4 != 0)
                && f.is_padded() == (b[4] & 8 != 0) && f.is_priority() == (b[4] & 0x20 != 0), "meaning of the flags");
            observe(h.length as u64 ^ (h.stream_id().0 as u64) << 32);
            cover("read");
        }
        Err(_) => { check(b[4] & !DEFINED != 0, "nine octets are a header"); cover("undefined flag"); }
    }
}
/// fewer than nine octets
fn h_p14_short() {
    let b: [u8; 8] = arr();
    let n = choose(9);
    let mut buf: Buf<16> = Buf::from(&b[..n]);
    check(FrameHeader::parse(&mut buf).is_err(), "incomplete");
    check(buf.read() == 0, "nothing is taken from an incomplete header");
    cover("short");
}
/// write, look at the octets, read
fn h_p14_write() {
    let len = sym::u32();
    assume(len < 1 << 24);
    let id = sym::u32();
    assume(id < 1 << 31);
    let f = sym::u8();
    assume(f & !DEFINED == 0);
    let k = choose(10) as u8;
    let mut h = FrameHeader::new(Kind::new(k), Flag::new(f).unwrap_or(Flag::zero()), StreamIdentifier(id));
    h.length = len;
    let mut buf: Buf<16> = Buf::new();
    let n = h.encode(&mut buf).unwrap_or(0);
    check(n == 9 && buf.all().len() == 9, "nine octets are written, and said to be");
    let want = [(len >> 16) as u8, (len >> 8) as u8, len as u8, k, f, (id >> 24) as u8, (id >> 16) as u8, (id >> 8) as u8, id as u8];
    check(same(buf.all(), &want), "octets of the header");
    match FrameHeader::parse(&mut buf) {
        Ok(r) => { check(r.length == len && r.kind().encode() == k && r.flag().bits() == f && r.stream_id().0 == id, "reads back"); cover("write"); }
        Err(_) => check(false, "reads back"),
    }
}
/// the flag setters change their own bit only
fn h_p14_flags() {
    let f = sym::u8();
    assume(f & !DEFINED == 0);
    let m = |g: fn(&mut Flag)| { let mut x = Flag::new(f).unwrap_or(Flag::zero()); g(&mut x); x.bits() };
    check(m(|x| x.set_end_stream()) == f | 1 && m(|x| x.unset_end_stream()) == f & !1, "end of stream");
    check(m(|x| x.set_end_headers()) == f | 4 && m(|x| x.unset_end_headers()) == f & !4, "end of headers");
    check(m(|x| x.set_padded()) == f | 8 && m(|x| x.unset_padded()) == f & !8, "padded");
    check(Flag::ack().bits() == 1 && Flag::end_stream().bits() == 1 && Flag::end_headers().bits() == 4 && Flag::padded().bits() == 8 && Flag::priority().bits() == 0x20 && Flag::zero().bits() == 0, "bits of the flags");
    cover("flags");
}
}
