//! P18: header-compression integers.
use crate::gen::*;
use crate::hp;
use crate::sym::{self, *};
use webparse::http2::{encoder::Encoder, Decoder};
use webparse::*;

/// what the octets say: value and whether they are the shortest form
fn read(b: &[u8], prefix: u32) -> (u64, bool) {
    let mask = (1u64 << prefix) - 1;
    let f = b[0] as u64 & mask;
    if f < mask { return (f, b.len() == 1); }
    let mut ok = b.len() >= 2;
    let mut v = mask;
    let mut i = 1;
    while i < b.len() {
        let last = i + 1 == b.len();
        ok &= (b[i] < 128) == last;
        ok &= !(last && i > 1 && b[i] == 0);
        v = v.wrapping_add(if i < 11 { (b[i] as u64 & 127) << (7 * (i - 1)) } else { 0 });
        i += 1;
    }
    (v, ok)
}
fn table_decoder(entries: usize) -> Decoder {
    let d = Decoder::new();
    {
        let mut t = d.index.write().unwrap();
        let mut i = 0;
        while i < entries {
            t.add_header(HeaderName::from_static("n"), HeaderValue::from_bytes(&[(entries - 1 - i) as u8]));
            i += 1;
        }
    }
    d
}

harnesses! {
/// the written form: prefix = shard + 1, any leading bits, any value
fn h_p18_write() {
    let prefix = shard() as u8 + 1;
    let v = sym::u64();
    let lead = sym::u8();
    let mut b: Buf<16> = Buf::new();
    check(Encoder::encode_integer_into(v as usize, prefix, lead, &mut b).is_ok(), "written");
    let s = b.all();
    check(s.len() >= 1 && s.len() <= 11, "length");
    if s.is_empty() || s.len() > 11 { return; }
    let mask = ((1u16 << prefix) - 1) as u8;
    check(s[0] & !mask == lead & !mask, "the bits before the prefix are kept");
    let (got, short) = read(s, prefix as u32);
    check(got == v, "the octets stand for the value");
    check(short, "in the shortest form");
    if s.len() == 1 { cover("short"); } else { cover("long"); }
}
/// a size update carries any value: written, then read (prefix 5)
fn h_p18_round() {
    let v = sym::u32() as usize;
    let mut b: Buf<16> = Buf::new();
    let _ = Encoder::encode_integer_into(v, 5, 0x20, &mut b);
    let mut d = Decoder::new();
    d.index.write().unwrap().set_max_table_size(1 << 40);
    let r = d.decode(&mut b);
    if v < 31 + (1 << 28) {
        check(r.is_ok(), "read back");
        check(d.index.read().unwrap().get_max_table_size() == v, "the value");
        check(b.all().is_empty(), "every octet is consumed");
        cover("read");
    } else {
        check(r.is_err(), "a form longer than a receiver accepts is refused");
        cover("refused");
    }
}
/// any octets of a size update: shard = length
fn h_p18_any() {
    let n = shard();
    let mut s: Str<16> = sym_str(n, |_| true);
    assume(s.d[0] >> 5 == 1);
    let mut i = 1;
    // one integer: the octets before the last continue
    while i + 1 < n { assume(s.d[i] >= 128); i += 1; }
    if n > 1 { assume(s.d[0] & 31 == 31); }
    s.n = n;
    let mut d = Decoder::new();
    d.index.write().unwrap().set_max_table_size(1 << 40);
    let mut b: Buf<16> = Buf::from(s.b());
    let r = d.decode(&mut b);
    let want = hp::int(s.b(), 5);
    match want {
        Some((v, k)) if k == n => {
            check(r.is_ok() && b.all().is_empty(), "a complete integer is read");
            check(d.index.read().unwrap().get_max_table_size() as u64 == v, "the value");
            cover("read");
        }
        _ => { check(r.is_err(), "cut short or too long is refused"); cover("refused"); }
    }
}
/// an index: prefix 7, 6 and 4 (shard), over a table of 220 entries
fn h_p18_index() {
    let (prefix, lead, entries) = [(7u8, 0x80u8, 110usize), (6, 0x40, 110), (4, 0x00, 110), (4, 0x10, 110)][shard()];
    let k = sym::u16() as usize;
    assume(k <= 4000);
    let mut b: Buf<16> = Buf::new();
    let _ = Encoder::encode_integer_into(k, prefix, lead, &mut b);
    if prefix != 7 { algorithm::buf::BtMut::put_slice(&mut b, &[1, b'z']); }
    let mut d = table_decoder(entries);
    let r = d.decode(&mut b);
    let in_table = k >= 1 && k <= 61 + entries;
    if prefix != 7 && k == 0 {
        // then a name string follows: here of one octet, and no value
        check(r.is_err(), "no value");
        return;
    }
    check(r.is_ok() == in_table, "an index inside the tables");
    if let Ok(f) = r {
        check(f.len() == 1 && b.all().is_empty(), "one field, every octet consumed");
        let k = concretize(k as u64);
        if f.len() == 1 {
            let (n, v) = (f[0].0.as_bytes(), f[0].1.as_bytes());
            if k <= 61 {
                let (x, y) = hp::STATIC_S[k as usize - 1];
                check(same(n, x.as_bytes()) && same(v, if prefix == 7 { y.as_bytes() } else { b"z" }), "the entry");
            } else {
                let y = [(k - 62) as u8];
                check(same(n, b"n") && same(v, if prefix == 7 { &y } else { b"z" }), "the entry");
            }
        }
        cover("entry");
    } else { cover("outside"); }
}
/// a string length: prefix 7, lengths around the one- and two-octet limits, given exactly, one more and one less
fn h_p18_length() {
    let n = [0usize, 1, 126, 127, 128, 129, 254, 255, 256, 382, 383, 511][shard()];
    let given = choose(3);
    let have = if given == 0 { n } else if given == 1 { n + 1 } else { if n == 0 { return; } n - 1 };
    let mut b: Buf<600> = Buf::new();
    use algorithm::buf::BtMut;
    b.put_slice(&[0x10, 1, b'x']);
    let _ = Encoder::encode_integer_into(n, 7, 0, &mut b);
    let mut p = vec![b'q'; have];
    if have > 0 { sym::bytes(&mut p[have - 1..have]); if have > 1 { sym::bytes(&mut p[..1]); } }
    if given == 1 { assume(p[n] >= 128); }
    b.put_slice(&p);
    let r = Decoder::new().decode(&mut b);
    match given {
        0 => match r {
            Ok(f) => { check(f.len() == 1 && same(f[0].1.as_bytes(), &p), "the string"); cover("string"); }
            Err(_) => check(false, "a string of its length is read"),
        },
        1 => { let k = p[n] & 127; check(r.is_ok() == (k >= 1 && k <= 61), "the octet after the string is the next field"); cover("next"); }
        _ => { check(r.is_err(), "a string cut short is refused"); cover("cut"); }
    }
}
}
