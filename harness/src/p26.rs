//! P26: WebSocket messages and their fragments.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::ws::{CloseCode, CloseData, DataFrame, DataFrameable, Message, Opcode, OwnedMessage};

/// RFC 3629, 4, restated
fn utf8(b: &[u8]) -> bool {
    let tail = |i: usize| i < b.len() && b[i] & 0xc0 == 0x80;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c < 0x80 { i += 1; continue; }
        let k = if c >= 0xc2 && c <= 0xdf { 1 } else if c & 0xf0 == 0xe0 { 2 } else if c >= 0xf0 && c <= 0xf4 { 3 } else { return false };
        let mut j = 1;
        while j <= k { if !tail(i + j) { return false; } j += 1; }
        let d = b[i + 1];
        if c == 0xe0 && d < 0xa0 || c == 0xed && d > 0x9f || c == 0xf0 && d < 0x90 || c == 0xf4 && d > 0x8f { return false; }
        i += k + 1;
    }
    true
}
fn frame(fin: bool, op: u8, d: &[u8]) -> DataFrame { DataFrame::new(fin, Opcode::new(op).unwrap_or(Opcode::Control5), d.to_vec()) }
/// the same message as its first opcode and payload say
fn agrees(m: &OwnedMessage, op: u8, d: &[u8]) -> bool {
    match m {
        OwnedMessage::Text(t) => op == 1 && same(t.as_bytes(), d),
        OwnedMessage::Binary(v) => op == 2 && same(v, d),
        OwnedMessage::Close(None) => op == 8 && d.is_empty(),
        OwnedMessage::Close(Some(c)) => op == 8 && d.len() >= 2 && c.status_code == (d[0] as u16) << 8 | d[1] as u16 && same(c.reason.as_bytes(), &d[2..]),
        OwnedMessage::Ping(v) => op == 9 && same(v, d),
        OwnedMessage::Pong(v) => op == 10 && same(v, d),
    }
}
fn valid(op: u8, d: &[u8]) -> bool {
    match op { 1 => utf8(d), 2 | 9 | 10 => true, 8 => d.is_empty() || d.len() >= 2 && utf8(&d[2..]), _ => false }
}
fn message(op: u8, d: &[u8]) -> OwnedMessage {
    match op {
        1 => OwnedMessage::Text(String::from_utf8(d.to_vec()).unwrap_or_default()),
        2 => OwnedMessage::Binary(d.to_vec()),
        8 if d.is_empty() => OwnedMessage::Close(None),
        8 => OwnedMessage::Close(Some(CloseData::new(u16::from_be_bytes([d[0], d[1]]), String::from_utf8(d[2..].to_vec()).unwrap_or_default()))),
        9 => OwnedMessage::Ping(d.to_vec()),
        _ => OwnedMessage::Pong(d.to_vec()),
    }
}
const OPS: [u8; 5] = [1, 2, 8, 9, 10];

harnesses! {
/// every split into up to three frames of a symbolic payload (shard: opcode and length)
fn h_p26_fragments() {
    let op = (shard() % 16) as u8;
    let p: Str<16> = sym_str(shard() / 16, |_| true);
    let i = choose(p.n as u8 + 1);
    let j = i + choose((p.n - i) as u8 + 1);
    let frames = match choose(3) {
        0 => vec![frame(true, op, p.b())],
        1 => vec![frame(false, op, &p.b()[..i]), frame(true, 0, &p.b()[i..])],
        _ => vec![frame(false, op, &p.b()[..i]), frame(false, 0, &p.b()[i..j]), frame(true, 0, &p.b()[j..])],
    };
    match OwnedMessage::from_dataframes(frames) {
        Ok(m) => { check(valid(op, p.b()), "what is not text, or no message, is refused"); check(agrees(&m, op, p.b()), "type and content of the message"); cover("message"); }
        Err(_) => { check(!valid(op, p.b()), "a message is accepted"); cover("refused"); }
    }
}
/// the frames that follow must continue, and reserved bits are refused
fn h_p26_sequence() {
    let p: Str<8> = sym_str(3, |c| c < 128);
    let (x, y) = (choose(16) as u8, choose(16) as u8);
    let mut f = vec![frame(false, pick(&OPS), &p.b()[..1]), frame(false, x, &p.b()[1..2]), frame(true, y, &p.b()[2..])];
    let op = f[0].opcode as u8;
    let r = [[sym::bool(), sym::bool(), sym::bool()], [sym::bool(), sym::bool(), false], [false, sym::bool(), sym::bool()]];
    let mut any = false;
    let mut i = 0;
    while i < 3 { f[i].reserved = r[i]; any = any | r[i][0] | r[i][1] | r[i][2]; i += 1; }
    match OwnedMessage::from_dataframes(f) {
        Ok(m) => { check(x == 0 && y == 0 && !any && agrees(&m, op, p.b()), "continued by continuation frames only, no reserved bit"); cover("message"); }
        Err(_) => { check(x != 0 || y != 0 || any, "a message is accepted"); cover("refused"); }
    }
    check(OwnedMessage::from_dataframes(Vec::<DataFrame>::new()).is_err(), "no frame is no message");
}
/// a message written and read back through a frame, masked or not (shard: opcode and length)
fn h_p26_round() {
    let op = OPS[shard() % 5];
    let p: Str<16> = sym_str(shard() / 5, |_| true);
    assume(valid(op, p.b()));
    let m = message(op, p.b());
    check(m.is_close() == (op == 8) && m.is_ping() == (op == 9) && m.is_pong() == (op == 10) && m.is_control() == (op >= 8) && m.is_data() == (op < 8), "what kind of message it is");
    let key: [u8; 4] = arr();
    let mask = if choose(2) == 1 { Some(key) } else { None };
    let mut out: Buf<64> = Buf::new();
    let n = m.write_to(&mut out, mask).unwrap_or(0);
    check(n == out.all().len() && n == m.message_size(mask.is_some()) && n == m.frame_size(mask.is_some()), "the size that is said is the size that is written");
    // the borrowed form writes the same octets
    let b: Message = m.clone().into();
    let mut out2: Buf<64> = Buf::new();
    check(b.write_to(&mut out2, mask).unwrap_or(0) == n && same(out.all(), out2.all()) && b.frame_size(mask.is_some()) == n, "both forms of a message write the same");
    check(same(&b.clone().take_payload(), p.b()) && same(&m.clone().take_payload(), p.b()), "the payload");
    check(OwnedMessage::from(b) == m, "there and back between the forms");
    match DataFrame::read_dataframe(&mut out, mask.is_some()) {
        Ok(f) => {
            check(f.finished && f.opcode as u8 == op && f.reserved == [false; 3] && same(&f.data, p.b()), "the frame");
            match OwnedMessage::from_dataframes(vec![f]) {
                Ok(r) => { check(r == m, "the message"); cover("round trip"); }
                Err(_) => check(false, "what is written is read"),
            }
        }
        Err(_) => check(false, "what is written is read"),
    }
}
/// close codes
fn h_p26_close() {
    let c = sym::u16();
    let k = CloseCode::from(c);
    let back: u16 = k.into();
    check(back == c, "each number is one code and back");
    let d = CloseData::new(k, String::from("b"));
    check(d.status_code == c, "the code of close data");
    let v = d.into_bytes().unwrap_or_default();
    check(same(&v, &[(c >> 8) as u8, c as u8, b'b']), "octets of close data");
    let k2 = CloseCode::from(sym::u16());
    let other: u16 = k2.into();
    check((k == k2) == (c == other), "different numbers are different codes");
    let names: [(u16, CloseCode); 15] = [(1000, CloseCode::Normal), (1001, CloseCode::Away), (1002, CloseCode::Protocol), (1003, CloseCode::Unsupported), (1005, CloseCode::Status),
        (1006, CloseCode::Abnormal), (1007, CloseCode::Invalid), (1008, CloseCode::Policy), (1009, CloseCode::Size), (1010, CloseCode::Extension),
        (1011, CloseCode::Error), (1012, CloseCode::Restart), (1013, CloseCode::Again), (1015, CloseCode::Tls), (0, CloseCode::Empty)];
    let mut i = 0;
    while i < 15 { check((k == names[i].1) == (c == names[i].0), "the registered codes"); i += 1; }
    check(CloseData::normal().status_code == 1000 && CloseData::normal().reason.is_empty(), "a normal close");
    cover("codes");
}
/// a ping becomes a pong, nothing else does
fn h_p26_pong() {
    let p: Str<8> = sym_str(choose(4), |_| true);
    let mut m = match choose(5) {
        0 => Message::ping(p.b()),
        1 => Message::pong(p.b()),
        2 => Message::binary(p.b()),
        3 => Message::text("a"),
        _ => Message::close_because(sym::u16(), "why"),
    };
    let op = DataFrameable::opcode(&m);
    let before = m.clone();
    let r = m.into_pong();
    check(r.is_ok() == (op == 9), "only a ping");
    if r.is_ok() { check(DataFrameable::opcode(&m) == 10 && same(&m.payload, p.b()), "the same payload"); cover("pong"); }
    else { check(m == before, "unchanged"); cover("other"); }
}
/// long contents in two or three frames (shard: length and kind)
fn h_p26_long() {
    let n = LONG[shard() % 10];
    let op = [1u8, 2, 9][shard() / 10];
    let d = long(n, b'x', |c| c < 128);
    let i = [0, 1, n / 2, n - 1, n][choose(5)];
    let frames = if sym::bool() { vec![frame(false, op, &d[..i]), frame(true, 0, &d[i..])] } else { vec![frame(false, op, &d[..1]), frame(false, 0, &d[1..n / 2]), frame(true, 0, &d[n / 2..])] };
    match OwnedMessage::from_dataframes(frames) {
        Ok(m) => {
            check(agrees(&m, op, &d), "type and content of the message");
            check(m.message_size(false) == n + if n < 126 { 2 } else if n < 65536 { 4 } else { 10 } && m.message_size(true) == m.message_size(false) + 4, "size of the message");
            cover("message");
        }
        Err(_) => check(false, "a message is accepted"),
    }
}
/// many fragments of one octet, text cut inside its characters (shard: number of fragments)
fn h_p26_many() {
    let n = [4usize, 5, 8, 9, 16, 17, 64, 130][shard()];
    let text = sym::bool();
    let op = if text { 1 } else { 2 };
    let mut d: Vec<u8> = Vec::new();
    while d.len() < n { d.extend_from_slice("\u{20ac}".as_bytes()); }
    d.truncate(n);
    let k = [1, n / 2, n - 1][choose(3)];
    let odd = choose(3);
    let (o, r, c) = (choose(16) as u8, sym::bool(), sym::u8());
    if odd == 0 { d[k] = c; }
    let mut f: Vec<DataFrame> = Vec::new();
    let mut i = 0;
    while i < n { f.push(frame(i + 1 == n, if i == 0 { op } else { 0 }, &d[i..i + 1])); i += 1; }
    if odd == 1 { f[k] = frame(k + 1 == n, o, &d[k..k + 1]); }
    if odd == 2 { f[k].reserved[2] = r; }
    let ok = (!text || utf8(&d)) && (odd != 1 || o == 0) && (odd != 2 || !r);
    match OwnedMessage::from_dataframes(f) {
        Ok(m) => { check(ok && agrees(&m, op, &d), "type and content of the message"); cover("message"); }
        Err(_) => { check(!ok, "a message is accepted"); cover("refused"); }
    }
}
/// close reasons and texts with characters of every length, written and read back
fn h_p26_chars() {
    let c = sym::u32();
    assume(c < 0x110000 && (c < 0xd800 || c > 0xdfff));
    let blocks: [(u32, u32); 8] = [(0, 0x80), (0x80, 0x100), (0x7c0, 0x840), (0x20a0, 0x20c0), (0xd7e0, 0xd800), (0xfff0, 0x10000), (0x10000, 0x10020), (0x10ffe0, 0x110000)];
    let (lo, hi) = blocks[shard()];
    assume(c >= lo && c < hi);
    let ch = match char::from_u32(c) { Some(x) => x, None => return };
    let mut s = String::from("a");
    s.push(ch);
    let m = if sym::bool() { OwnedMessage::Text(s.clone()) } else { OwnedMessage::Close(Some(CloseData::new(sym::u16(), s.clone()))) };
    let mut out: Vec<u8> = Vec::new();
    let n = m.write_to(&mut out, None).unwrap_or(0);
    check(n == out.len() && n == m.message_size(false), "the size that is said is the size that is written");
    match DataFrame::read_dataframe(&mut &out[..], false) {
        Ok(f) => match OwnedMessage::from_dataframes(vec![f]) {
            Ok(r) => { check(r == m, "the message"); cover("round trip"); }
            Err(_) => check(false, "what is written is read"),
        },
        Err(_) => check(false, "what is written is read"),
    }
}
/// long messages written and read back; a control message has at most 125 octets (shard: length and kind)
fn h_p26_large() {
    let n = [124usize, 125, 126, 127, 300, 65535, 65536, 66_001][shard() % 8];
    let op = OPS[shard() / 8];
    let mut d = vec![b'x'; n];
    for i in [0, 2, n / 2, n - 1] { d[i] = sym::u8(); assume(d[i] < 128); }
    let key: [u8; 4] = arr();
    let mask = if choose(2) == 1 { if n > 300 { assume(key == [1, 0, 0xff, 0x80]); Some([1, 0, 0xff, 0x80]) } else { Some(key) } } else { None };
    let m = message(op, &d);
    let mut out: Vec<u8> = Vec::new();
    let w = m.write_to(&mut out, mask);
    let b: Message = m.clone().into();
    let mut out2: Vec<u8> = Vec::new();
    let w2 = b.write_to(&mut out2, mask);
    check(w.is_ok() == (op < 8 || n < 126) && w.is_ok() == w2.is_ok() && same(&out, &out2), "both forms write the same, control messages of up to 125 octets only");
    check(m.message_size(mask.is_some()) == n + (if n < 126 { 2 } else if n < 65536 { 4 } else { 10 }) + (if mask.is_some() { 4 } else { 0 }), "the size of the message");
    let size = match w { Ok(v) => v, Err(_) => { cover("not written"); return; } };
    check(size == out.len() && size == m.message_size(mask.is_some()) && b.frame_size(mask.is_some()) == size, "the size that is said is the size that is written");
    let mut r = algorithm::buf::BinaryMut::from(&out[..]);
    let f = match DataFrame::read_dataframe(&mut r, mask.is_some()) { Ok(f) => f, Err(_) => { check(false, "what is written is read"); return; } };
    match OwnedMessage::from_dataframes(vec![f]) {
        Ok(r) => { check(agrees(&r, op, &d) && r == m, "the message"); cover("round trip"); }
        Err(_) => check(false, "what is written is read"),
    }
}
}
