//! P28: SETTINGS values.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::http2::frame::*;
use webparse::http2::Decoder;

fn head(flag: u8, id: u32, n: usize) -> FrameHeader {
    let mut h = FrameHeader::new(Kind::Settings, Flag::new(flag).unwrap_or(Flag::zero()), StreamIdentifier(id));
    h.length = n as u32;
    h
}
/// what a receiver holds after the given settings, or that they are illegal
struct Model { v: [Option<u32>; 9], bad: bool }
impl Model {
    fn set(&mut self, id: u16, x: u32) {
        match id {
            2 | 8 => if x > 1 { self.bad = true },
            4 => if x > 0x7fff_ffff { self.bad = true },
            5 => if x < 16384 || x > 0xff_ffff { self.bad = true },
            1 | 3 | 6 => {}
            _ => return,
        }
        self.v[id as usize] = Some(x);
    }
}
fn agrees(s: &Settings, m: &Model) -> bool {
    let b = |x: Option<u32>| x.map(|v| v == 1);
    (s.header_table_size() == m.v[1]) & (s.is_push_enabled() == b(m.v[2])) & (s.max_concurrent_streams() == m.v[3])
        & (s.initial_window_size() == m.v[4]) & (s.max_frame_size() == m.v[5]) & (s.max_header_list_size() == m.v[6])
        & (s.is_extended_connect_protocol_enabled() == b(m.v[8]))
}

harnesses! {
/// settings as received
fn h_p28_read() {
    let n = shard();
    let mut m = Model { v: [None; 9], bad: false };
    let mut p: Str<32> = Str::new();
    let mut i = 0;
    while i < n {
        let (id, x) = (sym::u16(), sym::u32());
        p.put(&id.to_be_bytes()).put(&x.to_be_bytes());
        if !m.bad { m.set(id, x); }
        i += 1;
    }
    let mut buf: Buf<32> = Buf::from(p.b());
    match Settings::parse(head(0, 0, p.n), &mut buf) {
        Ok(s) => {
            check(!m.bad, "a value out of range is refused");
            check(agrees(&s, &m) && !s.is_ack(), "the last value of each setting, and nothing else");
            cover("ok");
        }
        Err(_) => { check(m.bad, "values in range are accepted"); cover("refused"); }
    }
}
/// any payload length, flag and stream
fn h_p28_shape() {
    let n = choose(14);
    let p: [u8; 14] = arr();
    let flag = sym::bool() as u8;
    let id = sym::u32();
    assume(id < 1 << 31);
    let buf: Buf<16> = Buf::from(&p[..n]);
    let r = Frame::parse(head(flag, id, n), buf, &mut Decoder::new(), 1 << 20);
    if id != 0 || (flag == 1 && n > 0) || (flag == 0 && n % 6 != 0) { check(r.is_err(), "an illegal settings frame is refused"); cover("refused"); }
    else if flag == 1 {
        check(matches!(&r, Ok(Frame::Settings(s)) if s.is_ack()), "an acknowledgement");
        cover("ack");
    } else if n == 0 { check(r.is_ok(), "no settings at all are fine"); }
}
/// settings as sent
fn h_p28_write() {
    let mut s = Settings::default();
    let mut m = Model { v: [None; 9], bad: false };
    let mask = shard();
    let mut k = 0;
    if mask & 1 != 0 { let v = sym::bool(); s.set_enable_push(v); m.set(2, v as u32); k += 1; }
    if mask & 2 != 0 { let v = sym::u32(); s.set_max_concurrent_streams(Some(v)); m.set(3, v); k += 1; }
    if mask & 4 != 0 { let v = sym::u32(); assume(v < 1 << 31); s.set_initial_window_size(Some(v)); m.set(4, v); k += 1; }
    if mask & 8 != 0 { let v = sym::u32(); assume(v >= 16384 && v < 1 << 24); s.set_max_frame_size(Some(v)); m.set(5, v); k += 1; }
    if mask & 16 != 0 { let v = sym::u32(); s.set_max_header_list_size(Some(v)); m.set(6, v); k += 1; }
    if mask & 32 != 0 { let v = sym::bool() as u32; s.set_enable_connect_protocol(Some(v)); m.set(8, v); k += 1; }
    check(agrees(&s, &m), "the setters store what they are given");
    let mut buf: Buf<64> = Buf::new();
    let n = s.encode(&mut buf).unwrap_or(0);
    check(n == buf.all().len() && n == 9 + 6 * k && s.payload_len() == 6 * k, "written size");
    // each setting once, with its value
    let mut seen = [0u32; 9];
    let mut i = 9;
    while i < 9 + 6 * k {
        let b = buf.all();
        let id = u16::from_be_bytes([b[i], b[i + 1]]) as usize;
        let v = u32::from_be_bytes([b[i + 2], b[i + 3], b[i + 4], b[i + 5]]);
        check(id < 9 && m.v[if id < 9 { id } else { 0 }] == Some(v), "a setting that was set, with its value");
        if id < 9 { seen[id] += 1; }
        i += 6;
    }
    check(seen.iter().all(|x| *x <= 1), "no setting is sent twice");
    match FrameHeader::parse(&mut buf) {
        Ok(h) => {
            check(h.length as usize == 6 * k && *h.kind() == Kind::Settings && h.stream_id().is_zero() && !h.flag().is_ack(), "frame header");
            match Settings::parse(h, &mut buf) {
                Ok(r) => { check(agrees(&r, &m) && r == s, "reads back"); cover("round trip"); }
                Err(_) => check(false, "reads back"),
            }
        }
        Err(_) => check(false, "reads back"),
    }
}
/// the HTTP2-Settings form
fn h_p28_upgrade() {
    let mut s = Settings::default();
    let v = sym::u8() as u32;
    match shard() {
        0 => { s.set_max_concurrent_streams(Some(v)); }
        1 => { s.set_initial_window_size(Some(v << 8)); s.set_enable_push(true); }
        2 => { s.set_max_header_list_size(Some(v << 16)); s.set_max_frame_size(Some(16384 + (v << 8))); }
        _ => { s.set_max_header_list_size(Some(v << 24)); s.set_max_concurrent_streams(Some(1)); s.set_enable_push(false); }
    }
    let t = s.encode_http_settings();
    check(t.bytes().all(|c| is_alnum(c) || c == b'-' || c == b'_'), "url-safe text");
    match Settings::default().parse_http_settings(&t) {
        Ok(r) => { check(r == s, "reads back"); cover("round trip"); }
        Err(_) => check(false, "reads back"),
    }
}
/// many settings in one frame: the first, one in the middle and the last are anything
fn h_p28_many() {
    const N: [usize; 6] = [4, 7, 8, 17, 65, 300];
    let n = N[shard() % 6];
    let at = [n / 2, n - 1][shard() / 6];
    let mut m = Model { v: [None; 9], bad: false };
    let mut p: Vec<u8> = vec![];
    let mut i = 0;
    while i < n {
        // the known ones go first, then unknown ones
        let (id, x) = if i == at || i == 1 {
            let id = pick(&[1u16, 2, 3, 4, 5, 6, 7, 8, 9, 0x102, 0x8005]);
            let hi = sym::bool();
            (id, if hi { 0x7fff_ff80 + sym::u8() as u32 } else { sym::u8() as u32 })
        } else { ([3u16, 6, 1][i % 3] + if i > 5 { 0x100 } else { 0 }, i as u32) };
        p.extend_from_slice(&id.to_be_bytes());
        p.extend_from_slice(&x.to_be_bytes());
        if !m.bad { m.set(id, x); }
        i += 1;
    }
    let l = p.len();
    match Frame::parse(head(0, 0, l), algorithm::buf::Binary::from(p), &mut Decoder::new(), 1 << 20) {
        Ok(Frame::Settings(s)) => {
            check(!m.bad, "a value out of range is refused");
            check(agrees(&s, &m) && !s.is_ack(), "the last value of each of many settings");
            cover("ok");
        }
        _ => { check(m.bad, "values in range are accepted"); cover("refused"); }
    }
}
}
