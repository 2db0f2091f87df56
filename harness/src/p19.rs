//! P19: the Huffman code of header text.
use crate::gen::*;
use crate::hp;
use crate::sym::{self, *};
use webparse::http2::huffman::{HuffmanDecoder, HuffmanEncoder};

static LENS: [u8; 257] = hp::LEN;
static WORDS: [u32; 257] = hp::CODE.word;

/// the standard's coding of `s`: one big number, most significant bit first
fn spec(s: &[u8]) -> (u128, usize) {
    let (mut acc, mut n) = (0u128, 0usize);
    let mut i = 0;
    while i < s.len() {
        let l = concretize(LENS[s[i] as usize] as u64) as usize;
        acc = acc << l | WORDS[s[i] as usize] as u128;
        n += l;
        i += 1;
    }
    let pad = (8 - n % 8) % 8;
    (acc << pad | ((1u128 << pad) - 1), (n + pad) / 8)
}
fn same_as(out: &[u8], s: &[u8]) {
    let (acc, n) = spec(s);
    check(out.len() == n, "number of octets");
    if out.len() != n { return; }
    let mut i = 0;
    let mut ok = true;
    while i < n {
        ok &= out[i] == (acc >> (8 * (n - 1 - i))) as u8;
        i += 1;
    }
    check(ok, "the standard's code words, padded with ones");
}

harnesses! {
/// text of up to four octets, all symbolic (shard: number, then a slice of the first octet)
fn h_p19_encode() {
    let (n, part) = if shard() < 3 { (shard(), 0) } else { (3 + (shard() - 3) / 16, (shard() - 3) % 16) };
    let s: Str<8> = sym_str(n, |_| true);
    if shard() >= 3 { assume(s.d[0] >> 4 == part as u8); }
    let _ = spec(s.b());
    same_as(&HuffmanEncoder::encode(s.b()), s.b());
    cover("encoded");
}
fn h_p19_lower() {
    let n = shard();
    let s: Str<8> = sym_str(n, |_| true);
    let mut l: Str<8> = Str::new();
    let mut i = 0;
    while i < n { l.put(&[lower(s.d[i])]); i += 1; }
    let _ = spec(l.b());
    same_as(&HuffmanEncoder::encode_lower(s.b()), l.b());
    cover("encoded");
}
/// one symbolic octet anywhere in longer text
fn h_p19_long() {
    let mut s = *b"text/html; charset=utf-8, \x00\xff{~}*!0123456789";
    let k = shard() * 6 + choose(6);
    if k >= s.len() { return; }
    sym::bytes(&mut s[k..k + 1]);
    let out = HuffmanEncoder::encode(&s);
    match HuffmanDecoder::new().decode(&out) {
        Ok(r) => check(same(&r, &s), "decodes to what was encoded"),
        Err(_) => check(false, "decodes"),
    }
    cover("round trip");
}
/// decoding what was encoded
fn h_p19_round() {
    let (n, part) = if shard() < 2 { (shard(), 0) } else { (2, shard() - 2) };
    let s: Str<8> = sym_str(n, |_| true);
    if n == 2 { assume(s.d[0] >> 3 == part as u8); }
    if n > 0 { let _ = spec(s.b()); }
    let out = HuffmanEncoder::encode(s.b());
    match HuffmanDecoder::new().decode(&out) {
        Ok(r) => check(same(&r, s.b()), "decodes to what was encoded"),
        Err(_) => check(false, "decodes"),
    }
    cover("round trip");
}
/// any octets as code
fn h_p19_decode() {
    let pre: &[u8] = [&[][..], &[], &[], &[0xff], &[0xff], &[0xff, 0xfe], &[0xff, 0xff], &[0xff, 0xff], &[0xff, 0xff, 0xff], &[0xff, 0xff, 0xff], &[0xff, 0xff, 0xff]][shard()];
    let n = [0usize, 1, 2, 0, 1, 1, 0, 1, 0, 1, 2][shard()];
    let mut c: Str<8> = Str::new();
    c.put(pre).sym(n, |_| true);
    decode_any(&c);
}
/// two more octets behind a prefix that opens the long code words (shard: prefix, and a slice of the next octet)
fn h_p19_decode_long() {
    let pre: &[u8] = [&[0xff, 0xfe][..], &[0xff, 0xff], &[0xff], &[0xfe]][shard() / 8];
    let mut c: Str<8> = Str::new();
    c.put(pre).sym(2, |_| true);
    assume(c.d[pre.len()] >> 5 == (shard() % 8) as u8);
    decode_any(&c);
}
/// three symbolic octets in a long text; encode_into agrees with encode
fn h_p19_text() {
    let n = [64usize, 256, 600][shard() % 3];
    let fill = [b'a', b'\\', 0u8, 0xff][shard() / 3];
    let mut s = vec![fill; n];
    let c: [u8; 2] = arr();
    assume(c[0] & 7 == 4 && c[1] & 127 == 3);
    s[n / 2] = c[0];
    s[n - 1] = c[1];
    let out = HuffmanEncoder::encode(&s);
    let mut bits = 0;
    for b in &s { bits += LENS[*b as usize] as usize; }
    check(out.len() == (bits + 7) / 8, "number of octets");
    match HuffmanDecoder::new().decode(&out) {
        Ok(r) => check(same(&r, &s), "decodes to what was encoded"),
        Err(_) => check(false, "decodes"),
    }
    cover("text");
}
/// the end-of-string word inside a string is refused, whatever stands before and behind it (shard: number of octets behind)
fn h_p19_eos_long() {
    let n = [0usize, 1, 4, 8, 27, 28, 29, 30, 31, 32, 60, 200][shard()];
    let mut c = vec![0u8; [0, 5, 10][choose(3)]];
    c.extend_from_slice(&[0xff; 4]);
    c.resize(c.len() + n, [0, 0xff, 0x55, 0x1f][choose(4)]);
    if n > 0 { let i = c.len() - 1; c[i] = sym::u8(); }
    check(HuffmanDecoder::new().decode(&c).is_err(), "the end-of-string word is refused");
    cover("refused");
}
}
fn decode_any(c: &Str<8>) {
    let r = HuffmanDecoder::new().decode(c.b());
    let want: Option<Str<16>> = hp::huff(c.b());
    match (r, want) {
        (Ok(v), Some(w)) => { check(same(&v, w.b()), "the text of the code words"); cover("text"); }
        (Err(_), None) => cover("refused"),
        (Ok(_), None) => check(false, "long or wrong padding and the end-of-string word are refused"),
        (Err(_), Some(_)) => check(false, "a well-formed string is read"),
    }
}
