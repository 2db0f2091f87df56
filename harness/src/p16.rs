//! P16: every HTTP/2 frame that is written reads back as the same frame.
use crate::gen::*;
use crate::hp::next_frame as next;
use crate::sym::{self, *};
use algorithm::buf::{Binary, BinaryMut, Bt};
use webparse::http2::frame::*;
use webparse::http2::{encoder::Encoder, Decoder};
use webparse::*;

pub fn sid() -> u32 { let id = sym::u32(); assume(id < 1 << 31 && id > 0); id }
/// a stream identifier with few solver-heavy digits: displays in decimal somewhere on the way
pub fn small_sid() -> u32 { let b = sym::u8(); assume(b > 0); concretize(0); b as u32 }

harnesses! {
/// frames of fixed layout, all fields symbolic (shard: type)
fn h_p16_fixed() {
    let mut b: Buf<64> = Buf::new();
    let mut dec = Decoder::new();
    let mut data = [0u8; 8];
    let mut enc = Encoder::new();
    match shard() {
        0 | 1 => {
            sym::bytes(&mut data);
            let f = if shard() == 0 { Ping::new(data) } else { Ping::pong(data) };
            let n = f.encode(&mut b).unwrap_or(0);
            check(n == 17 && b.all().len() == 17, "size");
            match next(&mut b, &mut dec) {
                Some((h, Frame::Ping(p))) => { check(same(p.payload(), &data) && p.is_ack() == (shard() == 1) && h.stream_id().is_zero(), "ping"); cover("round trip"); }
                _ => check(false, "reads back"),
            }
            check(f.ret_pong().is_ack() && same(f.ret_pong().payload(), &data), "the answer to a ping carries its payload");
        }
        2 => {
            let (id, c) = (sid(), sym::u32());
            let n = Reset::new(StreamIdentifier(id), Reason::from(c)).encode(&mut b).unwrap_or(0);
            check(n == 13 && b.all().len() == 13, "size");
            match next(&mut b, &mut dec) {
                Some((_, f)) => {
                    check(f.stream_id().0 == id, "stream");
                    match f { Frame::Reset(r) => { let x: u32 = r.reason().into(); check(x == c && r.stream_id().0 == id, "reset"); cover("round trip"); } _ => check(false, "type") }
                }
                _ => check(false, "reads back"),
            }
        }
        3 => {
            let (id, inc) = (sym::u32(), sym::u32());
            assume(id < 1 << 31 && inc > 0 && inc < 1 << 31);
            let n = WindowUpdate::new(StreamIdentifier(id), inc).encode(&mut b).unwrap_or(0);
            check(n == 13 && b.all().len() == 13, "size");
            match next(&mut b, &mut dec) {
                Some((_, f)) => {
                    check(f.stream_id().0 == id, "stream");
                    match f { Frame::WindowUpdate(w) => { check(w.size_increment() == inc && w.stream_id().0 == id, "window update"); cover("round trip"); } _ => check(false, "type") }
                }
                _ => check(false, "reads back"),
            }
        }
        4 => {
            let (id, c) = (sym::u32(), sym::u32());
            assume(id < 1 << 31);
            let k = choose(if tier() == 0 { 4 } else { 9 });
            sym::bytes(&mut data[..k]);
            let g = if k == 0 { GoAway::new(StreamIdentifier(id), Reason::from(c)) } else { GoAway::with_debug_data(StreamIdentifier(id), Reason::from(c), Binary::copy_from_slice(&data[..k])) };
            let n = g.encode(&mut b).unwrap_or(0);
            check(n == 17 + k && b.all().len() == 17 + k, "size");
            match next(&mut b, &mut dec) {
                Some((h, Frame::GoAway(r))) => {
                    let x: u32 = r.reason().into();
                    check(h.stream_id().is_zero() && x == c && r.last_stream_id().0 == id && same(r.debug_data().chunk(), &data[..k]), "shutdown");
                    cover("round trip");
                }
                _ => check(false, "reads back"),
            }
        }
        5 => {
            // PRIORITY frames are made by reading one
            let (id, w) = (sid(), sym::u32());
            let wt = sym::u8();
            assume(w & 0x7fff_ffff != id);
            let mut p: Str<64> = Str::new();
            p.put(&[0, 0, 5, 2, 0]).put(&id.to_be_bytes()).put(&w.to_be_bytes()).put(&[wt]);
            let mut src: Buf<64> = Buf::from(p.b());
            match next(&mut src, &mut dec) {
                Some((_, f)) => {
                    check(f.stream_id().0 == id, "stream");
                    match f {
                        Frame::Priority(r) => {
                            check(r.dependency_id().0 == w & 0x7fff_ffff && r.weight() == wt && r.stream_id().0 == id, "priority");
                            let n = r.encode(&mut b).unwrap_or(0);
                            check(n == 14 && same(b.all(), p.b()), "the octets it was read from");
                            cover("round trip");
                        }
                        _ => check(false, "type"),
                    }
                }
                None => check(false, "reads back"),
            }
        }
        _ => {
            // DATA
            let id = sid();
            let k = choose(if tier() == 0 { 5 } else { 9 });
            sym::bytes(&mut data[..k]);
            let f = sym::u8();
            assume(f & !9 == 0);
            let h = FrameHeader::new(Kind::Data, Flag::new(f).unwrap_or(Flag::zero()), StreamIdentifier(id));
            let mut d = Data::new(h, Binary::copy_from_slice(&data[..k]));
            let n = d.encode(&mut enc, &mut b).unwrap_or(0);
            check(n == 9 + k && b.all().len() == 9 + k, "size");
            match next(&mut b, &mut dec) {
                Some((_, f2)) => {
                    check(f2.stream_id().0 == id && f2.is_end_stream() == (f & 1 != 0), "stream and end mark");
                    match f2 { Frame::Data(r) => { check(same(r.payload().chunk(), &data[..k]), "content"); cover("round trip"); } _ => check(false, "type") }
                }
                _ => check(false, "reads back"),
            }
        }
    }
}
/// the same through the frame enumeration: which writer is used, what it reports
fn h_p16_frame() {
    let mut b: Buf<64> = Buf::new();
    let mut dec = Decoder::new();
    let mut enc = Encoder::new();
    let id = small_sid();
    let c = sym::u8() as u32;
    let f: Frame = match shard() {
        0 => Frame::Reset(Reset::new(StreamIdentifier(id), Reason::from(c))),
        1 => { assume(c > 0); Frame::WindowUpdate(WindowUpdate::new(StreamIdentifier(id), c)) }
        2 => Frame::GoAway(GoAway::new(StreamIdentifier(id), Reason::from(c))),
        3 => Frame::Ping(Ping::new([c as u8; 8])),
        4 => { let mut s = Settings::default(); s.set_max_concurrent_streams(Some(c)); Frame::Settings(s) }
        5 => Frame::Settings(Settings::ack()),
        _ => Frame::Data(Data::new(FrameHeader::new(Kind::Data, if c & 1 == 1 { Flag::end_stream() } else { Flag::zero() }, StreamIdentifier(id)), Binary::copy_from_slice(&[c as u8; 3]))),
    };
    check(f.is_data() == (shard() == 6) && !f.is_header(), "kind of frame");
    let n = f.encode(&mut b, &mut enc).unwrap_or(0);
    check(n == b.all().len(), "size");
    let r = match next(&mut b, &mut dec) { Some((_, r)) => r, None => { check(false, "reads back"); return; } };
    check(b.all().len() == 0, "one frame");
    match (shard(), r) {
        (0, Frame::Reset(r)) => { let x: u32 = r.reason().into(); check(x == c && r.stream_id().0 == id, "reset"); }
        (1, Frame::WindowUpdate(r)) => check(r.size_increment() == c && r.stream_id().0 == id, "window update"),
        (2, Frame::GoAway(r)) => { let x: u32 = r.reason().into(); check(x == c && r.last_stream_id().0 == id, "shutdown"); }
        (3, Frame::Ping(r)) => check(same(r.payload(), &[c as u8; 8]), "ping"),
        (4, Frame::Settings(r)) => check(r.max_concurrent_streams() == Some(c) && !r.is_ack(), "settings"),
        (5, Frame::Settings(r)) => check(r.is_ack(), "acknowledgement"),
        (6, Frame::Data(r)) => check(same(r.payload().chunk(), &[c as u8; 3]) && r.is_end_stream() == (c & 1 == 1) && r.stream_id().0 == id, "data"),
        _ => check(false, "type"),
    }
    cover("round trip");
}
/// HEADERS: pseudo fields, ordinary fields, flags
fn h_p16_headers() {
    let id = sid();
    let fl = sym::u8();
    assume(fl & !0x05 == 0);
    let sh = shard();
    let mut fields = HeaderMap::new();
    let v = if sh & 1 != 0 { let mut v: Str<8> = Str::new(); v.put(b"1"); v } else { value1(is_field_char) };
    let w = sym::u8();
    assume(is_field_char(w));
    fields.insert("x-a", hv(v.b()));
    fields.insert("content-type", "text/html");
    if sh & 1 != 0 { fields.insert("b", hv(&[w])); }
    let mut h = Headers::new(FrameHeader::new(Kind::Headers, Flag::new(fl).unwrap_or(Flag::zero()), StreamIdentifier(id)), fields);
    if sh & 2 != 0 { h.set_method(pick(&["GET", "PUT", "CONNECT"]).parse::<Method>().unwrap_or(Method::GET)); h.set_path("/p?q=1".to_string()); }
    if sh & 4 != 0 { h.set_scheme(Scheme::Https); h.set_authority("h:81".to_string()); }
    if sh & 8 != 0 { h.set_status(StatusCode::from_u16(pick(&[200u16, 404, 503])).unwrap_or(StatusCode::OK)); }
    let (m, p, s, a, st) = (h.method().clone(), h.path().clone(), h.scheme().clone(), h.authority().clone(), *h.status());
    let mut b: Buf<192> = Buf::new();
    let mut enc = Encoder::new();
    let mut dec = Decoder::new();
    let n = h.encode(&mut enc, &mut b).unwrap_or(0);
    check(n == b.all().len(), "size");
    match next(&mut b, &mut dec) {
        Some((hd, f)) => {
            check(*hd.kind() == Kind::Headers && f.stream_id().0 == id && f.is_end_headers() && f.is_end_stream() == (fl & 1 != 0) && f.is_header(), "stream, end marks");
            match f {
                Frame::Headers(mut r) => {
                    check(*r.method() == m && *r.path() == p && *r.scheme() == s && *r.authority() == a && *r.status() == st, "pseudo fields");
                    check(has(r.fields(), 0, b"x-a", v.b()) && has(r.fields(), 1, b"content-type", b"text/html"), "fields in order");
                    check(if sh & 1 != 0 { r.fields().len() == 3 && has(r.fields(), 2, b"b", &[w]) } else { r.fields().len() == 2 }, "no field more or less");
                    cover("round trip");
                }
                _ => check(false, "type"),
            }
        }
        None => check(false, "reads back"),
    }
    check(b.all().len() == 0, "one frame");
}
/// PUSH_PROMISE: the request on the associated stream, the response head on the promised one
fn h_p16_push() {
    let (id, pid) = (sid(), sid());
    let v = value1(is_field_char);
    let mut fields = HeaderMap::new();
    fields.insert("x-a", hv(v.b()));
    let mut p = PushPromise::new(FrameHeader::new(Kind::PushPromise, Flag::zero(), StreamIdentifier(id)), StreamIdentifier(pid), fields);
    p.set_method(Method::GET);
    let path = pick(&["/", "/s.css?v=1"]);
    p.set_path(path.to_string());
    p.set_authority("h".to_string());
    p.set_status(StatusCode::OK);
    let mut b: Buf<192> = Buf::new();
    let mut enc = Encoder::new();
    let mut dec = Decoder::new();
    let n = p.encode(&mut enc, &mut b).unwrap_or(0);
    check(n == b.all().len(), "size");
    match next(&mut b, &mut dec) {
        Some((_, Frame::PushPromise(mut r))) => {
            check(r.stream_id().0 == id && r.promised_id().0 == pid && r.is_end_headers(), "streams");
            check(*r.method() == Some(Method::GET) && r.path().as_deref() == Some(path) && r.authority().as_deref() == Some("h"), "the promised request");
        }
        _ => check(false, "reads back"),
    }
    match next(&mut b, &mut dec) {
        Some((_, Frame::Headers(mut r))) => {
            check(r.stream_id().0 == pid && r.is_end_headers(), "the promised stream");
            check(*r.status() == Some(StatusCode::OK) && r.fields().len() == 1 && has(r.fields(), 0, b"x-a", v.b()), "the response head");
            cover("round trip");
        }
        _ => check(false, "reads back"),
    }
    check(b.all().len() == 0, "two frames");
}
/// long content (shard: kind of frame and length)
fn h_p16_long() {
    const LENS: [usize; 8] = [31, 126, 127, 128, 255, 256, 1030, 16000];
    let n = LENS[shard() % 8];
    let v = if shard() < 16 { long(n, b'v', |_| true) } else { mid(n, b'v', |b| b >= b'4' && b < b'8') };
    let mut b = BinaryMut::with_capacity(64);
    let (mut enc, mut dec) = (Encoder::new(), Decoder::new());
    let id = sid();
    let kind = shard() / 8;
    assume(kind < 2 || n < 2000);
    let k = match kind {
        0 => GoAway::with_debug_data(StreamIdentifier(id), Reason::from(2), Binary::from(v.clone())).encode(&mut b),
        1 => Data::new(FrameHeader::new(Kind::Data, Flag::end_stream(), StreamIdentifier(id)), Binary::from(v.clone())).encode(&mut enc, &mut b),
        2 | 3 => {
            let mut f = HeaderMap::new();
            f.insert("x-a", "1");
            if kind == 2 { f.insert("cookie", hv(&v)); }
            f.insert("x-b", "2");
            let mut h = Headers::new(FrameHeader::new(Kind::Headers, Flag::end_stream(), StreamIdentifier(id)), f);
            if kind == 3 { h.set_path(String::from_utf8(v.clone()).unwrap()); h.set_authority(String::from_utf8(v.clone()).unwrap()); }
            h.encode(&mut enc, &mut b)
        }
        _ => {
            let mut f = HeaderMap::new();
            f.insert(String::from_utf8(v.clone()).unwrap(), "1");
            Headers::new(FrameHeader::new(Kind::Headers, Flag::zero(), StreamIdentifier(id)), f).encode(&mut enc, &mut b)
        }
    };
    check(k.unwrap_or(0) == b.chunk().len(), "size");
    let h = match FrameHeader::parse(&mut b) { Ok(h) => h, Err(_) => { check(false, "a frame header"); return; } };
    let l = concretize(h.length as u64) as usize;
    check(l == b.chunk().len(), "the announced length is written");
    if l != b.chunk().len() { return; }
    match (kind, Frame::parse(h, Binary::copy_from_slice(b.chunk()), &mut dec, 1 << 16)) {
        (0, Ok(Frame::GoAway(r))) => check(same(r.debug_data().chunk(), &v) && r.last_stream_id().0 == id, "shutdown"),
        (1, Ok(Frame::Data(r))) => check(same(r.payload().chunk(), &v) && r.is_end_stream() && r.stream_id().0 == id, "content"),
        (2, Ok(Frame::Headers(r))) => check(r.is_end_stream() && r.stream_id().0 == id && has(r.fields(), 0, b"x-a", b"1") && has(r.fields(), 1, b"cookie", &v) && has(r.fields(), 2, b"x-b", b"2") && r.fields().len() == 3, "fields"),
        (3, Ok(Frame::Headers(mut r))) => {
            check(r.path().as_ref().map_or(false, |p| same(p.as_bytes(), &v)) && r.authority().as_ref().map_or(false, |p| same(p.as_bytes(), &v)), "pseudo fields");
            check(has(r.fields(), 0, b"x-a", b"1") && has(r.fields(), 1, b"x-b", b"2") && r.fields().len() == 2, "fields");
        }
        (_, Ok(Frame::Headers(r))) => check(r.fields().len() == 1 && has(r.fields(), 0, &v, b"1"), "a long name"),
        _ => check(false, "reads back"),
    }
    cover("long");
}
/// many fields
fn h_p16_many() {
    let k = [5usize, 17, 65, 129][shard()];
    let c: [u8; 3] = arr();
    for x in c { assume(x >= b'4' && x < b'8'); }
    let name = |i: usize| { let mut s = String::from("x-"); s.push((b'a' + (i % 26) as u8) as char); s.push((b'a' + (i / 26) as u8) as char); s };
    let val = |i: usize| if i == 0 { c[0] } else if i == k / 2 { c[1] } else if i == k - 1 { c[2] } else { b'0' + (i % 7) as u8 };
    let mut f = HeaderMap::new();
    for i in 0..k { f.insert(name(i), hv(&[val(i)])); }
    let mut b: Buf<2048> = Buf::new();
    let n = Headers::new(FrameHeader::new(Kind::Headers, Flag::zero(), StreamIdentifier(7)), f).encode(&mut Encoder::new(), &mut b).unwrap_or(0);
    check(n == b.all().len(), "size");
    match next(&mut b, &mut Decoder::new()) {
        Some((_, Frame::Headers(r))) => {
            check(r.fields().len() == k, "number of fields");
            for (i, (a, v)) in r.fields().iter().enumerate() { check(same(a.as_bytes(), name(i).as_bytes()) && same(v.as_bytes(), &[val(i)]), "one of many fields"); }
            cover("many");
        }
        _ => check(false, "reads back"),
    }
}
/// promises with long targets and long fields (shard: length, where)
fn h_p16_push_long() {
    const LENS: [usize; 6] = [31, 127, 128, 255, 256, 1030];
    let n = LENS[shard() % 6];
    let v = mid(n, b'v', |b| b >= b'4' && b < b'8');
    let (id, pid) = (sid(), sid());
    let kind = shard() / 6;
    let mut f = HeaderMap::new();
    f.insert("x-a", "1");
    if kind == 2 { f.insert("cookie", hv(&v)); }
    let mut p = PushPromise::new(FrameHeader::new(Kind::PushPromise, Flag::zero(), StreamIdentifier(id)), StreamIdentifier(pid), f);
    p.set_method(if sym::bool() { Method::GET } else { Method::HEAD });
    let head = *p.method() == Some(Method::HEAD);
    let t = String::from_utf8(v.clone()).unwrap();
    p.set_path(if kind == 0 { t.clone() } else { "/".to_string() });
    p.set_authority(if kind == 1 { t.clone() } else { "h".to_string() });
    p.set_status(StatusCode::OK);
    let (mut enc, mut dec) = (Encoder::new(), Decoder::new());
    let mut b = BinaryMut::with_capacity(64);
    let k = p.encode(&mut enc, &mut b).unwrap_or(0);
    check(k == b.chunk().len(), "size");
    let all = b.chunk().to_vec();
    let mut at = 0;
    for step in 0..2 {
        if all.len() < at + 9 { check(false, "two frames"); return; }
        let h = match FrameHeader::parse(&mut Binary::copy_from_slice(&all[at..at + 9])) { Ok(h) => h, Err(_) => { check(false, "a frame header"); return; } };
        let l = concretize(h.length as u64) as usize;
        at += 9;
        check(at + l <= all.len() && (step == 0 || at + l == all.len()), "the announced length is written");
        if at + l > all.len() { return; }
        match (step, Frame::parse(h, Binary::copy_from_slice(&all[at..at + l]), &mut dec, 1 << 16)) {
            (0, Ok(Frame::PushPromise(mut r))) => {
                check(r.stream_id().0 == id && r.promised_id().0 == pid && r.is_end_headers(), "streams");
                check(*r.method() == Some(if head { Method::HEAD } else { Method::GET }), "method");
                check(r.path().as_ref().map_or(false, |p| same(p.as_bytes(), if kind == 0 { &v } else { b"/" })), "path");
                check(r.authority().as_ref().map_or(false, |p| same(p.as_bytes(), if kind == 1 { &v } else { b"h" })), "authority");
            }
            (1, Ok(Frame::Headers(mut r))) => {
                check(r.stream_id().0 == pid && r.is_end_headers(), "the promised stream");
                check(*r.status() == Some(StatusCode::OK) && has(r.fields(), 0, b"x-a", b"1") && r.fields().len() == 1 + (kind == 2) as usize, "the response head");
                check(kind != 2 || has(r.fields(), 1, b"cookie", &v), "the long field");
                cover("long");
            }
            _ => { check(false, "reads back"); return; }
        }
        at += l;
    }
}
}
