//! P10: percent coding of URL text.
use crate::gen::*;
use crate::sym::*;
use webparse::*;

fn ishex(b: u8) -> bool { matches!(b, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F') }
fn hexv(b: u8) -> u8 { match b { b'0'..=b'9' => b - b'0', b'a'..=b'f' => b - b'a' + 10, _ => b.wrapping_sub(b'A').wrapping_add(10) } }
/// what may stay unescaped
fn plain(b: u8) -> bool { is_alnum(b) || matches!(b, b'&' | b'-' | b'.' | b'/' | b':' | b';' | b'=' | b'?' | b'@' | b'_') }

harnesses! {
/// encode, check the alphabet, decode back: every ASCII text
fn h_p10_round() {
    let n = choose(if tier() == 0 { 5 } else { 7 });
    let s: Str<8> = sym_str(n, |b| b < 128);
    let e = Url::url_encode(&s.string());
    let b = e.as_bytes();
    observe_bytes(b);
    let mut i = 0;
    let mut k = 0;
    while i < b.len() {
        if b[i] == b'%' {
            check(i + 2 < b.len() && ishex(b[i + 1]) && ishex(b[i + 2]), "an escape is two hex digits");
            check(k < n && i + 2 < b.len() && hexv(b[i + 1]) * 16 + hexv(b[i + 2]) == s.d[k], "the escaped byte");
            i += 3;
            cover("escaped");
        } else {
            check(plain(b[i]), "only safe bytes stay unescaped");
            check(k < n && s.d[k] == b[i], "an unescaped byte stands for itself");
            i += 1;
            cover("plain");
        }
        k += 1;
    }
    check(k == n, "nothing is added or lost");
    match Url::url_decode(&e) {
        Ok(d) => check(same(d.as_bytes(), s.b()), "decoding gives the text back"),
        Err(_) => check(false, "encoded text decodes"),
    }
}
/// the same for text beyond ASCII: two- and three-byte characters
fn h_p10_utf8() {
    let b: [u8; 4] = arr();
    let n = 2 + choose(3);
    match std::str::from_utf8(&b[..n]) {
        Ok(s) => {
            assume(b[0] >= 128);
            let e = Url::url_encode(s);
            check(e.is_ascii(), "encoded text is ASCII");
            observe(e.len() as u64);
            match Url::url_decode(&e) {
                Ok(d) => { check(same(d.as_bytes(), s.as_bytes()), "decoding gives the text back"); cover("text"); }
                Err(_) => check(false, "encoded text decodes"),
            }
        }
        Err(_) => {}
    }
}
/// decoding arbitrary text: an escape is decoded, a broken escape is an error, the rest is kept
fn h_p10_decode() {
    let n = choose(if tier() == 0 { 6 } else { 8 });
    let s: Str<8> = sym_str(n, |b| b < 128);
    let r = Url::url_decode(&s.string());
    let mut out: Str<8> = Str::new();
    let (mut i, mut bad, mut high) = (0, false, false);
    while i < n {
        if s.d[i] == b'%' {
            if i + 2 < n && ishex(s.d[i + 1]) && ishex(s.d[i + 2]) {
                let v = hexv(s.d[i + 1]) * 16 + hexv(s.d[i + 2]);
                high |= v >= 128;
                out.put(&[v]);
                i += 3;
            } else { bad = true; break; }
        } else { out.put(&s.d[i..i + 1]); i += 1; }
    }
    match r {
        Ok(d) => {
            observe_bytes(d.as_bytes());
            check(!bad, "a broken escape is an error");
            if !high { check(same(d.as_bytes(), out.b()), "decoded text"); cover("decoded"); }
        }
        Err(_) => { observe(9999); check(bad, "well-formed text decodes"); cover("error"); }
    }
}
/// long text: three arbitrary octets in a text of 15–8200
fn h_p10_long() {
    let n = LONG[shard()];
    let v = long(n, b'x', |b| b < 128);
    let s = unsafe { String::from_utf8_unchecked(v.clone()) };
    let e = Url::url_encode(&s);
    let mut want: Vec<u8> = Vec::with_capacity(n + 8);
    for b in &v {
        if plain(*b) { want.push(*b) } else { for h in [b'%', b"0123456789ABCDEF"[(b >> 4) as usize], b"0123456789ABCDEF"[(b & 15) as usize]] { want.push(h) } }
    }
    // whether the escape digits are upper or lower case, and which further octets are escaped, is not judged
    check(e.is_ascii() && e.len() >= n, "encoded text is ASCII");
    match Url::url_decode(&e) {
        Ok(d) => check(same(d.as_bytes(), &v), "decoding gives the text back"),
        Err(_) => check(false, "encoded text decodes"),
    }
    match Url::url_decode(unsafe { std::str::from_utf8_unchecked(&want) }) {
        Ok(d) => { check(same(d.as_bytes(), &v), "decoding escaped text"); cover("long"); }
        Err(_) => check(false, "escaped text decodes"),
    }
}
/// four arbitrary octets at the beginning, in the middle or at the end of a long text
fn h_p10_decode_long() {
    let n = [20usize, 64, 257][shard() / 3];
    let at = [0, n / 2, n - 4][shard() % 3];
    let mut t = vec![b'x'; n];
    let s: [u8; 4] = arr();
    for i in 0..4 { assume(s[i] < 128); t[at + i] = s[i]; }
    let r = Url::url_decode(unsafe { std::str::from_utf8_unchecked(&t) });
    let mut out: Vec<u8> = Vec::with_capacity(n);
    let (mut i, mut bad, mut high) = (0, false, false);
    while i < n {
        if i >= at && i < at + 4 && t[i] == b'%' {
            if i + 2 < n && ishex(t[i + 1]) && ishex(t[i + 2]) {
                let v = hexv(t[i + 1]) * 16 + hexv(t[i + 2]);
                high |= v >= 128;
                out.push(v);
                i += 3;
            } else { bad = true; break; }
        } else { out.push(t[i]); i += 1; }
    }
    match r {
        Ok(d) => {
            check(!bad, "a broken escape is an error");
            if !high { check(same(d.as_bytes(), &out), "decoded text"); cover("decoded"); }
        }
        Err(_) => { check(bad, "well-formed text decodes"); cover("error"); }
    }
}
}
