//! P24: masking.
use crate::gen::*;
use crate::sym::{self, *};
use algorithm::buf::BtMut;
use webparse::ws::{frame_header::WsFrameFlags, DataFrame, Masker, WsFrameHeader};

/// mask_data as the reader applies it
fn unmask(key: [u8; 4], b: &[u8]) -> Vec<u8> {
    let h = WsFrameHeader { flags: WsFrameFlags::FIN, opcode: 2, mask: Some(key), len: b.len() as u64 };
    match DataFrame::read_dataframe_body(h, b.to_vec(), true) {
        Ok(f) => f.data,
        Err(_) => { check(false, "a masked payload is read"); vec![] }
    }
}
fn masked(key: &[u8; 4], plain: &[u8], got: &[u8]) -> bool {
    if plain.len() != got.len() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < plain.len() { ok = ok & (got[i] == plain[i] ^ key[i & 3]); i += 1; }
    ok
}

harnesses! {
/// unmasking: octet by octet, and its own inverse (shard: length)
fn h_p24_data() {
    let key: [u8; 4] = arr();
    let b: Str<64> = sym_str(shard(), |_| true);
    let m = unmask(key, b.b());
    check(masked(&key, b.b(), &m), "octet i is combined with key octet i modulo four");
    check(same(&unmask(key, &m), b.b()), "twice gives the data back");
    cover("masked");
}
/// writing through the masker in up to three pieces, empty ones among them (shard: length)
fn h_p24_pieces() {
    let key: [u8; 4] = arr();
    let b: Str<64> = sym_str(shard(), |_| true);
    let i = choose(b.n as u8 + 1);
    let j = i + choose((b.n - i) as u8 + 1);
    let mut out: Buf<64> = Buf::new();
    {
        let mut m = Masker::new(key, &mut out);
        let n = m.put_slice(&b.b()[..i]) + m.put_slice(&b.b()[i..j]) + m.put_slice(&b.b()[j..]);
        check(n == b.n, "as many octets are said to be written");
    }
    check(masked(&key, b.b(), out.all()), "octet i is combined with key octet i modulo four, however it is written");
    check(same(&unmask(key, out.all()), b.b()), "what is written masked is read unmasked");
    cover("pieces");
}
/// pieces that are numbers
fn h_p24_numbers() {
    let key: [u8; 4] = arr();
    let (a, b, c, d) = (sym::u8(), sym::u16(), sym::u32(), sym::u64());
    let mut out: Buf<64> = Buf::new();
    let mut plain: Str<64> = Str::new();
    {
        let mut m = Masker::new(key, &mut out);
        let k = choose(4);
        m.put_slice(&[7; 4][..k]);
        plain.put(&[7; 4][..k]);
        let mut i = 0;
        while i < 2 {
            match choose(4) {
                0 => { m.put_u8(a); plain.put(&[a]); }
                1 => { m.put_u16(b); plain.put(&b.to_be_bytes()); }
                2 => { m.put_u32(c); plain.put(&c.to_be_bytes()); }
                _ => { m.put_u64(d); plain.put(&d.to_be_bytes()); }
            }
            i += 1;
        }
    }
    check(masked(&key, plain.b(), out.all()), "numbers are masked like octets");
    cover("numbers");
}
/// many short pieces into an ordinary vector
fn h_p24_many() {
    let key: [u8; 4] = arr();
    let b: Str<64> = sym_str(24, |_| true);
    let step = 1 + shard();
    let mut out: Vec<u8> = vec![9];
    {
        let mut m = Masker::new(key, &mut out);
        let mut i = 0;
        while i < b.n { let e = (i + step).min(b.n); m.put_slice(&b.b()[i..e]); i = e; }
    }
    check(out.len() == 25 && out[0] == 9 && masked(&key, b.b(), &out[1..]), "masked behind what was there");
    cover("many");
}
/// long payloads, at once and in pieces around every power of two (shard: length)
fn h_p24_long() {
    const N: [usize; 12] = [15, 16, 17, 31, 33, 63, 64, 65, 255, 257, 1025, 4099];
    const CUT: [usize; 14] = [0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 127, 256, 1024];
    let n = N[shard()];
    let key: [u8; 4] = arr();
    let b = long(n, 0x5a, |_| true);
    let m = unmask(key, &b);
    check(masked(&key, &b, &m), "octet i is combined with key octet i modulo four");
    check(same(&unmask(key, &m), &b), "twice gives the data back");
    let i = CUT[choose(14)].min(n);
    let j = (i + CUT[choose(14)]).min(n);
    let mut out: Vec<u8> = Vec::new();
    {
        let mut w = Masker::new(key, &mut out);
        w.put_slice(&b[..i]);
        w.put_slice(&b[i..j]);
        w.put_slice(&b[j..]);
    }
    check(same(&out, &m), "in pieces as at once");
    cover("long");
}
/// payloads beyond 16 bits of length
fn h_p24_huge() {
    let n = [65535usize, 65536, 65537, 70001][shard()];
    let key: [u8; 4] = arr();
    let mut b = vec![0u8; n];
    b[n - 1] = sym::u8();
    let m = unmask(key, &b);
    let mut out: Vec<u8> = Vec::new();
    Masker::new(key, &mut out).put_slice(&b);
    check(m.len() == n && out.len() == n, "as many octets");
    if m.len() != n || out.len() != n { return; }
    let mut i = 0;
    while i < n {
        check(m[i] == b[i] ^ key[i & 3] && out[i] == m[i], "octet i is combined with key octet i modulo four");
        i += if i > 64 && i < n - 600 { 509 } else { 1 };
    }
    cover("huge");
}
}
