//! P21: header blocks are decoded as the standard says or refused.
use crate::gen::*;
use crate::hp::{self, Table, T16};
use crate::sym::{self, *};
use webparse::http2::Decoder;
use webparse::*;

/// a decoder and the model of its table, both holding `k` entries
fn pair(k: usize) -> (Decoder, Table) {
    let d = Decoder::new();
    let mut t = Table::new(4096);
    {
        let mut w = d.index.write().unwrap();
        let mut i = 0;
        while i < k {
            let (mut a, mut b): (T16, T16) = (Str::new(), Str::new());
            a.put(["x", "age", "x"][i % 3].as_bytes());
            b.put(&[b'0' + i as u8; 3][..i % 4]);
            w.add_header(HeaderName::from_bytes(a.b()).unwrap(), hv(b.b()));
            t.add(&a, &b);
            i += 1;
        }
    }
    (d, t)
}
fn compare(d: &mut Decoder, t: &mut Table, b: &[u8]) -> bool {
    let mut buf: Buf<64> = Buf::from(b);
    let r = d.decode(&mut buf);
    let mut want = [(Str::new(), Str::new()); 6];
    let mut n = 0;
    let ok = hp::decode(b, t, |a, v| { if n < 6 { want[n] = (*a, *v); } n += 1; });
    check(r.is_ok() == ok, "a block is decoded exactly if it is well-formed");
    if let (Ok(f), true) = (r, ok) {
        check(buf.all().is_empty(), "every octet is consumed");
        check(f.len() == n, "number of fields");
        let mut i = 0;
        while i < n && i < 6 && i < f.len() {
            check(same(f[i].0.as_bytes(), want[i].0.b()) && same(f[i].1.as_bytes(), want[i].1.b()), "the fields");
            i += 1;
        }
        let w = d.index.read().unwrap();
        check(w.len() == t.n && w.get_size() == t.size && w.get_max_table_size() == t.max, "the table's size and limit");
        let mut i = 0;
        while i < t.n {
            match w.get_from_index(62 + i) {
                Some((a, v)) => check(same(a.as_bytes(), t.e[i].0.b()) && same(v.as_bytes(), t.e[i].1.b()), "the table's entries"),
                None => check(false, "the table's entries"),
            }
            i += 1;
        }
        cover("decoded");
        return true;
    }
    cover("refused");
    false
}

harnesses! {
/// any octets (shard: slice of the first octet, then the number of octets)
fn h_p21_any() {
    let n = 1 + shard() / 16;
    let b: Str<16> = sym_str(n, |_| true);
    assume(b.d[0] >> 4 == (shard() % 16) as u8);
    let (mut d, mut t) = pair(2);
    compare(&mut d, &mut t, b.b());
}
/// one literal field: form, name index or name text, value text, any lengths that fit or not
fn h_p21_literal() {
    let (mut d, mut t) = pair(3);
    let form = [0x40u8, 0x00, 0x10][shard() % 3];
    let huff = shard() / 3 % 2 == 1;
    let mut b: Str<32> = Str::new();
    match shard() / 6 {
        0 => {
            // name given by index
            let i = sym::u8();
            assume(i < if form == 0x40 { 63 } else { 15 } && i > 0);
            b.put(&[form | i]);
        }
        1 => {
            let i = sym::u8();
            b.put(&[form | if form == 0x40 { 63 } else { 15 }, i]);
        }
        2 => { b.put(&[form, 2, b'x']).sym(1, |c| c < 128); }
        _ => { b.put(&[form, 0x81]).sym(1, |_| true); }
    }
    let l = sym::u8();
    assume(l < 8);
    let k = choose(if huff { 2 } else { 4 });
    if huff { b.put(&[0x80 | l]); } else { b.put(&[l]); }
    b.sym(k, |_| true);
    // exactly the value, or a value cut short, or the next field begins
    assume(l as usize >= k || (k >= 1 && l as usize == k - 1));
    compare(&mut d, &mut t, b.b());
}
/// a size update, a literal, and an index into what is then in the table
fn h_p21_sequence() {
    let (mut d, mut t) = pair(shard() % 4);
    let mut b: Str<32> = Str::new();
    let up = shard() / 4;
    if up & 1 != 0 {
        let s = sym::u8();
        if up & 2 != 0 { b.put(&[0x3f]).put(&[s & 0x7f]); } else { assume(s < 31); b.put(&[0x20 | s]); }
    }
    b.put(&[0x40, 1, b'k', 1]).sym(1, |_| true);
    let i = sym::u8();
    assume(i >= 128 + 60 && i < 128 + 70);
    b.put(&[i]);
    if up & 2 != 0 { b.put(&[0x20 | 31, 4]).put(&[0x80 | 62]); }
    compare(&mut d, &mut t, b.b());
}
/// size updates: against the receiver's limit, and several in one block
fn h_p21_size() {
    let (mut d, mut t) = pair(3);
    let limit = sym::u16() as usize;
    d.index.write().unwrap().set_max_table_size(limit);
    t.limit = limit;
    t.max = limit;
    t.evict();
    let mut b: Str<32> = Str::new();
    let k = 1 + choose(2);
    let mut i = 0;
    while i < k {
        let (x, y) = (sym::u8(), sym::u8());
        assume(x >= 128 && y < 128);
        b.put(&[0x3f, x, y]);
        i += 1;
    }
    compare(&mut d, &mut t, b.b());
}
/// two blocks through one decoder
fn h_p21_blocks() {
    let (mut d, mut t) = pair(1);
    let (form, i) = (pick(&[0x40u8, 0x00, 0x10]), sym::u8());
    let mut b: Str<32> = Str::new();
    b.put(&[form, 1, b'k', 1]).sym(1, |_| true);
    if !compare(&mut d, &mut t, b.b()) { return; }
    let mut b: Str<32> = Str::new();
    assume(i >= 128 + 60 && i < 128 + 66);
    b.put(&[i, 0x40 | 62, 1]).sym(1, |_| true);
    b.put(&[0x80 | 62]);
    compare(&mut d, &mut t, b.b());
}
/// long names and values, plain: lengths of one to three octets, and cut short
fn h_p21_long() {
    let n = [126usize, 127, 128, 254, 255, 256, 1030, 16500][shard() % 8];
    let (name, cut) = (shard() / 8 & 1 == 1, shard() / 16 & 1 == 1);
    let mut s = vec![b'v'; n];
    let c: [u8; 2] = arr();
    s[0] = c[0]; s[n - 1] = c[1];
    if name { assume(c[0] < 128 && c[1] < 128); }
    let mut b: Vec<u8> = Vec::with_capacity(n + 40);
    let form = pick(&[0x40u8, 0x00, 0x10]);
    let text = |b: &mut Vec<u8>, t: &[u8]| {
        if t.len() < 127 { b.push(t.len() as u8); } else {
            b.push(127);
            let mut r = t.len() - 127;
            while r >= 128 { b.push(r as u8 | 128); r >>= 7; }
            b.push(r as u8);
        }
        b.extend_from_slice(t);
    };
    b.push(0x88); // :status 200
    b.push(form);
    text(&mut b, if name { &s } else { b"x" });
    text(&mut b, if name { b"y" } else { &s });
    if cut { b.pop(); } else { b.push(0x84); } // :path /
    let mut d = Decoder::new();
    let r = d.decode(&mut &b[..]);
    check(r.is_ok() == !cut, "a block is decoded exactly if it is well-formed");
    if let Ok(f) = r {
        check(f.len() == 3, "number of fields");
        if f.len() == 3 {
            check(same(f[0].0.as_bytes(), b":status") && same(f[2].0.as_bytes(), b":path") && same(f[2].1.as_bytes(), b"/"), "the fields around a long one");
            check(same(f[1].0.as_bytes(), if name { &s } else { b"x" }) && same(f[1].1.as_bytes(), if name { b"y" } else { &s }), "a long field");
        }
        let w = d.index.read().unwrap();
        let kept = form == 0x40 && n + 1 + 32 <= 4096;
        check(w.len() == kept as usize && w.get_size() == if kept { n + 33 } else { 0 }, "the table's size");
        cover("decoded");
    } else { cover("refused"); }
}
/// many representations in one block
fn h_p21_many() {
    let n = [10usize, 40, 100, 140][shard()];
    let c: [u8; 2] = arr();
    let at = choose(3) * (n - 1) / 2;
    let mut b: Vec<u8> = Vec::with_capacity(n * 5 + 10);
    for i in 0..n { b.extend_from_slice(&[0x40, 1, b'k', 2, if i == at { c[0] } else { b'a' + (i % 26) as u8 }, i as u8]); }
    // then each of the entries by index, oldest first
    let room = 4096 / 35;
    let kept = if n < room { n } else { room };
    for i in 0..kept {
        let x = 61 + kept - i;
        if x < 127 { b.push(0x80 | x as u8); } else { b.push(0xff); let r = x - 127; if r >= 128 { b.push(r as u8 | 128); b.push((r >> 7) as u8); } else { b.push(r as u8); } }
    }
    let mut d = Decoder::new();
    match d.decode(&mut &b[..]) {
        Ok(f) => {
            check(f.len() == n + kept, "number of fields");
            for j in 0..f.len() {
                let i = if j < n { j } else { n - kept + (j - n) };
                check(same(f[j].0.as_bytes(), b"k") && same(f[j].1.as_bytes(), &[if i == at { c[0] } else { b'a' + (i % 26) as u8 }, i as u8]), "one of many fields");
            }
            cover("decoded");
        }
        Err(_) => check(false, "a well-formed block decodes"),
    }
    let _ = c[1];
}
/// size updates of up to 28 bits against any limit
fn h_p21_size_large() {
    let (mut d, mut t) = pair(3);
    let limit = sym::u32() as usize;
    d.index.write().unwrap().set_max_table_size(limit);
    t.limit = limit;
    t.max = limit;
    t.evict();
    let k = 2 + choose(4);
    let mut b: Str<32> = Str::new();
    b.put(&[0x3f]);
    for i in 0..k { let x = sym::u8(); assume((x >= 128) == (i + 1 < k)); b.put(&[x]); }
    b.put(&[0x82]);
    compare(&mut d, &mut t, b.b());
}
}
