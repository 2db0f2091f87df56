//! P15: decoding an HTTP/2 frame from a hostile peer.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::http2::frame::*;
use webparse::http2::Decoder;

fn header(kind: u8, flag: u8, id: u32, n: usize) -> FrameHeader {
    let mut h = FrameHeader::new(Kind::new(kind), Flag::new(flag).unwrap_or(Flag::zero()), StreamIdentifier(id));
    h.length = n as u32;
    h
}
fn parse(h: FrameHeader, p: &[u8]) -> Result<Frame<Buf<64>>, webparse::WebError> {
    let buf: Buf<64> = Buf::from(p);
    Frame::parse(h, buf, &mut Decoder::new(), 1 << 16)
}
fn sid() -> u32 { let id = sym::u32(); assume(id < 1 << 31); id }
fn flags() -> u8 { let f = sym::u8(); assume(f & !0x2d == 0); f }

harnesses! {
/// every frame type without a header block: exactly the legal payloads are accepted (shard: length)
fn h_p15_fixed() {
    let n = shard();
    let kind = pick(&[2u8, 3, 4, 6, 7, 8]);
    let (id, f) = (sid(), flags());
    let mut p: Str<64> = Str::new();
    p.sym(n, |_| true);
    let w = |i: usize| u32::from_be_bytes([p.d[i], p.d[i + 1], p.d[i + 2], p.d[i + 3]]);
    let u31 = |i: usize| w(i) & 0x7fff_ffff;
    let r = parse(header(kind, f, id, n), p.b());
    let good = match kind {
        2 => n == 5 && id != 0 && u31(0) != id,
        3 => n == 4 && id != 0,
        4 => {
            if f & 1 != 0 { id == 0 && n == 0 } else {
                let mut ok = id == 0 && n % 6 == 0;
                let mut i = 0;
                while i + 6 <= n {
                    let (k, v) = (u16::from_be_bytes([p.d[i], p.d[i + 1]]), w(i + 2));
                    ok &= match k { 2 | 8 => v <= 1, 4 => v <= 0x7fff_ffff, 5 => v >= 16384 && v <= 0xff_ffff, _ => true };
                    i += 6;
                }
                ok
            }
        }
        6 => n == 8 && id == 0,
        7 => n >= 8 && id == 0,
        _ => n == 4 && u31(0) != 0,
    };
    check(r.is_ok() == good, "legal payloads are accepted, others refused");
    if let Ok(fr) = r {
        match fr {
            Frame::Priority(x) => {
                check(x.stream_id().0 == id && x.dependency_id().0 == u31(0) && x.weight() == p.d[4], "priority");
                cover("priority");
            }
            Frame::Reset(x) => { let c: u32 = x.reason().into(); check(x.stream_id().0 == id && c == w(0), "reset"); cover("reset"); }
            Frame::Settings(x) => { check(x.is_ack() == (f & 1 != 0), "settings"); cover("settings"); }
            Frame::Ping(x) => { check(x.is_ack() == (f & 1 != 0) && same(x.payload(), p.b()), "ping"); cover("ping"); }
            Frame::GoAway(x) => {
                let c: u32 = x.reason().into();
                use algorithm::buf::Bt;
                check(x.last_stream_id().0 == u31(0) && c == w(4) && same(x.debug_data().chunk(), &p.b()[8..]), "shutdown");
                cover("goaway");
            }
            Frame::WindowUpdate(x) => { check(x.stream_id().0 == id && x.size_increment() == u31(0), "window update"); cover("window"); }
            _ => check(false, "a frame of its own type"),
        }
    } else { cover("refused"); }
}
/// DATA with any flags and padding
fn h_p15_data() {
    let n = shard();
    let (id, f) = (sid(), flags());
    let mut p: Str<64> = Str::new();
    p.sym(n, |_| true);
    let padded = f & 8 != 0;
    let r = parse(header(0, f, id, n), p.b());
    let good = id != 0 && (!padded || (n >= 1 && (p.d[0] as usize) < n));
    check(r.is_ok() == good, "DATA is accepted exactly on a stream and with padding inside the payload");
    if let Ok(fr) = r {
        match fr {
            Frame::Data(d) => {
                check(d.stream_id().0 == id && d.is_end_stream() == (f & 1 != 0), "stream and end mark");
                let got = d.payload().all();
                if !padded { check(same(got, p.b()), "content"); cover("plain"); }
                else {
                    // what follows the content is the recorded finding; the content itself must be there
                    let want = &p.b()[1..n - p.d[0] as usize];
                    check(got.len() >= want.len() && got.len() <= n - 1 && same(&got[..want.len()], want), "content");
                    cover("padded");
                }
            }
            _ => check(false, "a DATA frame"),
        }
    } else { cover("refused"); }
}
/// recorded finding: the padding stays in the payload
fn h_p15_padding() {
    let p = [2u8, b'a', b'b', 0, 0];
    if let Ok(Frame::Data(d)) = parse(header(0, 8, 1, 5), &p) { check(same(d.payload().all(), b"ab"), "padding is not content"); }
}
/// HEADERS, PUSH_PROMISE, CONTINUATION and unknown types with arbitrary octets: an answer
fn h_p15_any() {
    let n = shard() / 4;
    let kind = [1u8, 5, 9, 200][shard() % 4];
    let (id, f) = (sid(), flags());
    let mut p: Str<64> = Str::new();
    p.sym(n, |_| true);
    let padded = f & 8 != 0;
    let r = parse(header(kind, f, id, n), p.b());
    match r {
        Ok(fr) => {
            check(id != 0, "not on stream 0");
            check(!padded || (n >= 1 && (p.d[0] as usize) < n), "padding lies inside the payload");
            match fr {
                Frame::Headers(h) => { check(kind == 1 && h.stream_id().0 == id && h.flags().bits() == f, "stream and flags"); cover("headers"); }
                Frame::PushPromise(h) => {
                    let o = padded as usize;
                    let pid = u32::from_be_bytes([p.d[o], p.d[o + 1], p.d[o + 2], p.d[o + 3]]) & 0x7fff_ffff;
                    check(kind == 5 && h.stream_id().0 == id && h.promised_id().0 == pid, "streams");
                    cover("push");
                }
                _ => check(false, "a frame of its own type"),
            }
        }
        Err(_) => cover("refused"),
    }
}
/// HEADERS with one literal field, behind padding and priority of any legal and illegal size
fn h_p15_headers() {
    let f = flags();
    let id = sid();
    let mut block: Str<16> = Str::new();
    let v = sym::u8();
    assume(v >= 0x20 && v < 127);
    block.put(&[0, 1, b'x', 1, v]);
    let pad = sym::u8();
    let npad = choose(4);
    let mut p: Str<64> = Str::new();
    if f & 8 != 0 { p.put(&[pad]); }
    let dep = sym::u32();
    let wt = sym::u8();
    if f & 0x20 != 0 { p.put(&dep.to_be_bytes()).put(&[wt]); }
    p.put(block.b());
    p.put(&[0u8; 4][..npad]);
    let padded = f & 8 != 0;
    if !padded { assume(npad == 0); }
    let r = parse(header(1, f, id, p.n), p.b());
    if padded { assume(pad as usize == npad || pad as usize >= p.n); }
    let good = id != 0 && (!padded || pad as usize == npad);
    check(r.is_ok() == good, "padding that fits is removed, padding that does not is refused");
    if let Ok(Frame::Headers(h)) = r {
        check(h.fields().len() == 1, "one field");
        let got = h.fields().iter().next().map(|x| same(x.1.as_bytes(), &[v])).unwrap_or(false);
        check(got, "the field");
        cover("ok");
    } else { cover("refused"); }
}
/// the header list limit
fn h_p15_list() {
    let k = choose(4);
    let lim = sym::u8() as usize;
    let mut p: Str<64> = Str::new();
    let mut i = 0;
    while i < k { p.put(&[0, 1, b'a' + i as u8, 2, b'v', b'w']); i += 1; }
    let buf: Buf<64> = Buf::from(p.b());
    let r = Frame::parse(header(1, 4, 1, p.n), buf, &mut Decoder::new(), lim);
    check(r.is_ok() == (k * 35 <= lim), "a header list over the limit is refused");
    if r.is_ok() { cover("ok"); } else { cover("over"); }
}
/// a header list is measured by all its fields, whatever form each has (shard: kinds of two fields)
fn h_p15_list_kinds() {
    // (octets of the block, size by RFC 7541, 4.1)
    const K: [(&[u8], usize); 9] = [
        (&[0x82], 7 + 3 + 32), (&[0x86], 7 + 4 + 32), (&[0x84], 5 + 1 + 32), (&[0x88], 7 + 3 + 32), (&[0x90], 15 + 13 + 32),
        (&[0x41, 2, b'a', b'b'], 10 + 2 + 32), (&[0x40, 1, b'x', 0], 1 + 32), (&[0x10, 1, b'x', 2, b'v', b'w'], 3 + 32), (&[0x00, 2, b':', b'x', 1, b'v'], 3 + 32),
    ];
    let (i, j) = (shard() % 9, shard() / 9);
    let lim = sym::u16() as usize;
    let mut p: Str<64> = Str::new();
    p.put(K[i].0).put(K[j].0);
    let r = Frame::parse(header(1, 4, 1, p.n), Buf::<64>::from(p.b()), &mut Decoder::new(), lim);
    check(r.is_ok() == (K[i].1 + K[j].1 <= lim), "a header list over the limit is refused");
    if r.is_ok() { cover("ok"); } else { cover("over"); }
}
/// payloads whose length differs from the right one by a power of two
fn h_p15_sizes() {
    let kind = pick(&[2u8, 3, 4, 6, 8]);
    let base = match kind { 2 => 5usize, 3 | 8 => 4, 4 => 6, _ => 8 };
    let n = [16usize, 32, 64, 128, 256, 512, 4096, 16384, 65536][shard()] + base - choose(3);
    let id = sid();
    let ack = sym::bool() as u8;
    let mut p = vec![0u8; n];
    sym::bytes(&mut p[..1]);
    p[3] = 1;
    let r = Frame::parse(header(kind, if kind == 4 || kind == 6 { ack } else { 0 }, id, n), algorithm::buf::Binary::from(p), &mut Decoder::new(), 1 << 16);
    let good = kind == 4 && ack == 0 && id == 0 && n % 6 == 0;
    // the settings here are unknown ones
    check(r.is_ok() == good, "a payload of a wrong size is refused");
    if r.is_ok() { cover("settings"); } else { cover("refused"); }
}
/// a header that says another length than the payload has (shard: length of the payload)
fn h_p15_mismatch() {
    let n = shard();
    let kind = pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 200]);
    let (id, f) = (sid(), flags());
    let mut p: Str<64> = Str::new();
    p.sym(n, |_| true);
    if kind == 1 || kind == 5 { for i in 1..n { assume(p.d[i] == 0x82); } }
    let mut h = header(kind, f, id, n);
    h.length = sym::u32();
    assume(h.length < 1 << 24);
    match parse(h, p.b()) { Ok(_) => cover("taken"), Err(_) => cover("refused") }
}
/// what a decoded frame says about itself (shard: type)
fn h_p15_says() {
    let kind = shard() as u8;
    let (id, f) = (sid(), flags());
    assume(f & 8 == 0);
    let v = sym::u8();
    assume(v > b' ' && v < 127);
    let mut p: Str<32> = Str::new();
    match kind {
        0 => { p.put(&[v]); }
        1 => { if f & 0x20 != 0 { p.put(&[0, 0, 0, 0, 7]); } p.put(&[0, 1, b'x', 1, v]); }
        2 => { p.put(&[0, 0, 0, 0, v]); }
        3 => { p.put(&[0, 0, 0, v & 7]); }
        4 => { if f & 1 == 0 { p.put(&[0, 3, 0, 0, 0, v]); } }
        5 => { p.put(&[0, 0, 0, 2, 0, 1, b'x', 1, v]); }
        6 => { p.put(&[v; 8]); }
        7 => { p.put(&[0, 0, 0, v, 0, 0, 0, 0]); }
        _ => { p.put(&[0, 0, 0, v]); }
    }
    match Frame::parse(header(kind, f, id, p.n), algorithm::buf::Binary::from(p.vec()), &mut Decoder::new(), 1 << 16) {
        Ok(fr) => {
            let on = !matches!(kind, 4 | 6 | 7);
            check(fr.stream_id().0 == if on { id } else { 0 }, "the stream");
            check(fr.is_data() == (kind == 0) && fr.is_header() == (kind == 1), "the type");
            check(fr.is_end_stream() == (kind < 2 && f & 1 != 0), "the end of the stream");
            check(fr.is_end_headers() == (kind == 1 && f & 4 != 0), "the end of the block");
            match kind {
                0 => check(fr.flags().is_end_stream() == (f & 1 != 0), "the flags"),
                1 => check(fr.flags().bits() == f, "the flags"),
                4 => check(fr.flags().is_ack() == (f & 1 != 0), "the flags"),
                _ => {}
            }
            cover("says");
        }
        Err(_) => { check(id == 0 || kind == 4 || kind == 6 || kind == 7 || (kind == 2 && id == 0), "a legal frame is accepted"); cover("refused"); }
    }
}
}
