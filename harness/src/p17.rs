//! P17: data and header blocks are cut at the frame size and end once.
use crate::gen::*;
use crate::sym::{self, *};
use algorithm::buf::{Binary, BinaryMut, Bt};
use webparse::http2::frame::*;
use webparse::http2::{encoder::Encoder, Decoder};
use webparse::*;

fn enc(m: usize) -> Encoder { let mut e = Encoder::new(); e.max_frame_size = m; e }

harnesses! {
/// symbolic content, every small limit and length
fn h_p17_data() {
    let m = 1 + shard();
    let mx = if tier() == 0 { 3 * m + 1 } else { 5 * m + 1 };
    let k = choose(mx as u8 + 1);
    let mut d = [0u8; 64];
    sym::bytes(&mut d[..k]);
    let id = sym::u32();
    assume(id > 0 && id < 1 << 31);
    let end = sym::bool();
    let h = FrameHeader::new(Kind::Data, if end { Flag::end_stream() } else { Flag::zero() }, StreamIdentifier(id));
    let mut f = Data::new(h, Binary::copy_from_slice(&d[..k]));
    let mut b: Buf<512> = Buf::new();
    let n = f.encode(&mut enc(m), &mut b).unwrap_or(0);
    check(n == b.all().len(), "size");
    let mut got = 0;
    let mut last = false;
    let mut frames = 0;
    while b.remaining() > 0 {
        check(!last, "nothing follows the last frame");
        let h = match FrameHeader::parse(&mut b) { Ok(h) => h, Err(_) => { check(false, "a frame header"); return; } };
        let l = concretize(h.length as u64) as usize;
        check(*h.kind() == Kind::Data && h.stream_id().0 == id && l <= m && l <= b.remaining() && got + l <= k, "a DATA frame of the stream, no longer than the limit");
        if l > b.remaining() || got + l > k { return; }
        check(same(&b.all()[..l], &d[got..got + l]), "content in order");
        check(h.flag().bits() & !1 == 0, "no other flag");
        if h.flag().is_end_stream() { last = true; }
        b.advance(l);
        got += l;
        frames += 1;
        check(got == k || l > 0, "no empty frame in between");
    }
    check(got == k && last == end && frames >= 1, "everything is sent and the stream ends once, if it ends");
    cover("data");
}
/// the default limit
fn h_p17_data_default() {
    let k = [0usize, 16383, 16384, 16385, 32767, 32768, 32769][shard()];
    let mut d = vec![0u8; k];
    let mut i = 0;
    while i < k { d[i] = (i * 7 + i / 251) as u8; i += 1; }
    if k > 0 { sym::bytes(&mut d[k - 1..k]); sym::bytes(&mut d[..1]); }
    if k > 16384 { sym::bytes(&mut d[16383..16385]); }
    let end = sym::bool();
    let h = FrameHeader::new(Kind::Data, if end { Flag::end_stream() } else { Flag::zero() }, StreamIdentifier(3));
    let mut f = Data::new(h, Binary::copy_from_slice(&d));
    let mut b = BinaryMut::new();
    let n = f.encode(&mut Encoder::new(), &mut b).unwrap_or(0);
    check(n == b.remaining(), "size");
    let mut got = 0;
    let mut last = false;
    while b.remaining() > 0 {
        check(!last, "nothing follows the last frame");
        let h = match FrameHeader::parse(&mut b) { Ok(h) => h, Err(_) => { check(false, "a frame header"); return; } };
        let l = concretize(h.length as u64) as usize;
        check(l <= 16384 && l <= b.remaining() && got + l <= k, "no longer than the limit");
        if l > b.remaining() || got + l > k { return; }
        check(same(&b.chunk()[..l], &d[got..got + l]), "content in order");
        last = h.flag().is_end_stream();
        b.advance(l);
        got += l;
    }
    check(got == k && last == end, "everything is sent and the stream ends once, if it ends");
    cover("data");
}
/// header blocks
fn h_p17_headers() {
    let m = 1 + shard();
    let fl = sym::u8();
    assume(fl & !0x05 == 0);
    let id = sym::u32();
    assume(id > 0 && id < 1 << 31);
    let v = value1(|b| b >= b' ' && b < 127);
    let many = choose(3);
    let mk = || {
        let mut f = HeaderMap::new();
        if many > 0 { f.insert("x-a", hv(v.b())); }
        if many > 1 { f.insert("content-type", "text/html; charset=utf-8"); }
        let mut h = Headers::new(FrameHeader::new(Kind::Headers, Flag::new(fl).unwrap_or(Flag::zero()), StreamIdentifier(id)), f);
        if many > 1 { h.set_status(StatusCode::NOT_FOUND); }
        h
    };
    let mut whole: Buf<128> = Buf::new();
    let _ = mk().encode(&mut enc(1 << 14), &mut whole);
    let mut b: Buf<1024> = Buf::new();
    let n = mk().encode(&mut enc(m), &mut b).unwrap_or(0);
    check(n == b.all().len(), "size");
    let mut got: Str<128> = Str::new();
    let mut frames = 0;
    let mut done = false;
    while b.remaining() > 0 {
        check(!done, "nothing follows the end of the block");
        let h = match FrameHeader::parse(&mut b) { Ok(h) => h, Err(_) => { check(false, "a frame header"); return; } };
        let l = concretize(h.length as u64) as usize;
        check(*h.kind() == (if frames == 0 { Kind::Headers } else { Kind::Continuation }) && h.stream_id().0 == id, "one HEADERS frame, then CONTINUATION, on the same stream");
        check(l <= m && l <= b.remaining(), "no longer than the limit");
        if l > b.remaining() || got.n + l > 128 { return; }
        check(h.flag().is_end_stream() == (frames == 0 && fl & 1 != 0), "the end of the stream is announced once, by the HEADERS frame");
        done = h.flag().is_end_headers();
        check(h.flag().bits() & !5 == 0, "no other flag");
        got.put(&b.all()[..l]);
        b.advance(l);
        frames += 1;
        check(done || l > 0, "no empty frame in between");
    }
    check(done && frames >= 1, "the last frame ends the block");
    check(same(got.b(), &whole.all()[9..]), "the pieces are the block");
    if frames > 1 { cover("split"); } else { cover("whole"); }
    let mut src: Buf<128> = Buf::from(got.b());
    let mut h = Headers::empty();
    check(h.parse(&mut src, &mut Decoder::new(), 1 << 16).is_ok(), "the block decodes");
    let f = h.fields();
    check(f.len() == many && (many == 0 || has(f, 0, b"x-a", v.b())) && (many < 2 || has(f, 1, b"content-type", b"text/html; charset=utf-8")), "fields");
}
/// header blocks longer than the default limit
fn h_p17_headers_default() {
    let k = [6000usize, 6880, 6890, 6900, 7000, 13780, 13800, 20000][shard()];
    let v = mid(k, b'\\', |b| b >= b'4' && b < b'8');
    let end = sym::bool();
    let mut f = HeaderMap::new();
    f.insert("x-a", hv(&v));
    f.insert("x-b", "2");
    let h = Headers::new(FrameHeader::new(Kind::Headers, if end { Flag::end_stream() } else { Flag::zero() }, StreamIdentifier(5)), f);
    let mut b = BinaryMut::new();
    let n = h.encode(&mut Encoder::new(), &mut b).unwrap_or(0);
    check(n == b.remaining(), "size");
    let mut got: Vec<u8> = Vec::with_capacity(n);
    let (mut frames, mut done) = (0, false);
    while b.remaining() > 0 {
        check(!done, "nothing follows the end of the block");
        let h = match FrameHeader::parse(&mut b) { Ok(h) => h, Err(_) => { check(false, "a frame header"); return; } };
        let l = concretize(h.length as u64) as usize;
        check(*h.kind() == (if frames == 0 { Kind::Headers } else { Kind::Continuation }) && h.stream_id().0 == 5, "one HEADERS frame, then CONTINUATION, on the same stream");
        check(l <= 16384 && l <= b.remaining(), "no longer than the limit");
        if l > b.remaining() { return; }
        check(h.flag().is_end_stream() == (frames == 0 && end), "the end of the stream is announced once, by the HEADERS frame");
        done = h.flag().is_end_headers();
        got.extend_from_slice(&b.chunk()[..l]);
        b.advance(l);
        frames += 1;
    }
    check(done, "the last frame ends the block");
    let mut h = Headers::empty();
    check(h.parse(&mut &got[..], &mut Decoder::new(), 1 << 18).is_ok(), "the block decodes");
    let f = h.fields();
    check(f.len() == 2 && has(f, 0, b"x-a", &v) && has(f, 1, b"x-b", b"2"), "fields");
    if frames > 1 { cover("split"); } else { cover("whole"); }
}
/// limits beyond the default, frames longer than 16 bits can say (shard: limit and length)
fn h_p17_data_large() {
    let (m, k) = [(65_535usize, 65_536usize), (65_536, 65_537), (65_536, 65_536), (1 << 20, 70_000), ((1 << 24) - 1, 131_073), (65_537, 140_000), (16_385, 16_385)][shard()];
    let d = mid(k, b'd', |_| true);
    let end = sym::bool();
    let h = FrameHeader::new(Kind::Data, if end { Flag::end_stream() } else { Flag::zero() }, StreamIdentifier(3));
    let mut f = Data::new(h, Binary::copy_from_slice(&d));
    let mut b = BinaryMut::new();
    let n = f.encode(&mut enc(m), &mut b).unwrap_or(0);
    check(n == b.remaining(), "size");
    let (mut got, mut last) = (0, false);
    while b.remaining() > 0 {
        check(!last, "nothing follows the last frame");
        let h = match FrameHeader::parse(&mut b) { Ok(h) => h, Err(_) => { check(false, "a frame header"); return; } };
        let l = concretize(h.length as u64) as usize;
        check(l <= m && l <= b.remaining() && got + l <= k && (got + l == k || l > 0), "no longer than the limit");
        if l > b.remaining() || got + l > k { return; }
        check(same(&b.chunk()[..l], &d[got..got + l]), "content in order");
        last = h.flag().is_end_stream();
        b.advance(l);
        got += l;
    }
    check(got == k && last == end, "everything is sent and the stream ends once, if it ends");
    cover("data");
}
/// header blocks with limits beyond the default (shard: limit and length)
fn h_p17_headers_large() {
    let (m, k) = [(65_535usize, 35_000usize), (65_536, 35_000), (1 << 20, 35_000), (1 << 17, 70_000), (16_384, 35_000)][shard()];
    let v = mid(k, b'\\', |b| b >= b'4' && b < b'8');
    let end = sym::bool();
    let mut f = HeaderMap::new();
    f.insert("x-a", hv(&v));
    f.insert("x-b", "2");
    let h = Headers::new(FrameHeader::new(Kind::Headers, if end { Flag::end_stream() } else { Flag::zero() }, StreamIdentifier(5)), f);
    let mut b = BinaryMut::new();
    let n = h.encode(&mut enc(m), &mut b).unwrap_or(0);
    check(n == b.remaining(), "size");
    let mut got: Vec<u8> = Vec::with_capacity(n);
    let (mut frames, mut done) = (0, false);
    while b.remaining() > 0 {
        check(!done, "nothing follows the end of the block");
        let h = match FrameHeader::parse(&mut b) { Ok(h) => h, Err(_) => { check(false, "a frame header"); return; } };
        let l = concretize(h.length as u64) as usize;
        check(*h.kind() == (if frames == 0 { Kind::Headers } else { Kind::Continuation }) && h.stream_id().0 == 5, "one HEADERS frame, then CONTINUATION, on the same stream");
        check(l <= m && l <= b.remaining(), "no longer than the limit");
        if l > b.remaining() { return; }
        check(h.flag().is_end_stream() == (frames == 0 && end), "the end of the stream is announced once, by the HEADERS frame");
        done = h.flag().is_end_headers();
        got.extend_from_slice(&b.chunk()[..l]);
        b.advance(l);
        frames += 1;
    }
    check(done, "the last frame ends the block");
    let mut h = Headers::empty();
    check(h.parse(&mut &got[..], &mut Decoder::new(), 1 << 20).is_ok(), "the block decodes");
    let f = h.fields();
    check(f.len() == 2 && has(f, 0, b"x-a", &v) && has(f, 1, b"x-b", b"2"), "fields");
    cover("block");
}
}
