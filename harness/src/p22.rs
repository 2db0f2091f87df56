//! P22: header lists survive compression over several blocks.
use crate::gen::*;
use crate::sym::{self, *};
use algorithm::buf::Bt;
use webparse::http2::{encoder::Encoder, header_index::HeaderIndex, Decoder};
use webparse::*;
use std::sync::{Arc, RwLock};

const SIZES: [usize; 6] = [4096, 0, 35, 75, 110, 33];
fn ends(size: usize) -> (Encoder, Decoder) {
    let (e, d) = (Encoder::new(), Decoder::new());
    if size != 4096 {
        e.index.write().unwrap().set_max_table_size(size);
        d.index.write().unwrap().set_max_table_size(size);
    }
    (e, d)
}
fn field(i: usize, c: u8) -> (HeaderName, HeaderValue) {
    let n = ["x", "x", "X-Yz", ":method", ":status", "age", "cookie", "content-type", ":path", "Set-Cookie"][i];
    let v = match i {
        0 | 5 => hv(&[c]),
        2 => hv(&[b'a', c]),
        8 => hv(&[b'/', c]),
        9 => hv(&[b'k', b'=', c, b';']),
        _ => hv(["", "v", "", "PUT", "200", "", "", "text/html", "", ""][i].as_bytes()),
    };
    (HeaderName::from_bytes(n.as_bytes()).unwrap(), v)
}
fn send(e: &mut Encoder, d: &mut Decoder, f: &[(HeaderName, HeaderValue)]) {
    let mut b = e.encode(f.iter().map(|x| (&x.0, &x.1)));
    match d.decode(&mut b) {
        Ok(r) => {
            check(b.remaining() == 0, "every octet is consumed");
            check(r.len() == f.len(), "as many fields");
            let mut i = 0;
            while i < r.len() && i < f.len() {
                let l: Vec<u8> = f[i].0.as_bytes().iter().map(|c| lower(*c)).collect();
                check(same(r[i].0.as_bytes(), &l) && same(r[i].1.as_bytes(), f[i].1.as_bytes()), "the fields, in order, names in lower case");
                i += 1;
            }
        }
        Err(_) => check(false, "what is encoded can be decoded"),
    }
    same_tables(&e.index, &d.index);
}
fn same_tables(a: &Arc<RwLock<HeaderIndex>>, b: &Arc<RwLock<HeaderIndex>>) {
    let (a, b) = (a.read().unwrap(), b.read().unwrap());
    check(a.len() == b.len() && a.get_size() == b.get_size() && a.get_size() <= a.get_max_table_size(), "both tables have the same size");
    let mut i = 0;
    while i < a.len() && i < b.len() {
        match (a.get_from_index(62 + i), b.get_from_index(62 + i)) {
            (Some((p, q)), Some((r, s))) => check(ieq(p.as_bytes(), r.as_bytes()) && same(q.as_bytes(), s.as_bytes()), "both tables have the same entries"),
            _ => check(false, "both tables have the same entries"),
        }
        i += 1;
    }
}

harnesses! {
/// three blocks over a menu of fields sharing one octet (shard: table size and first field)
fn h_p22_blocks() {
    let (mut e, mut d) = ends(SIZES[shard() / 10]);
    let c = sym::u8();
    if tier() == 0 { assume(c >> 2 == b' ' >> 2); } else { assume(c >> 4 == 3 || c == 0 || c >= 254); }
    send(&mut e, &mut d, &[field(shard() % 10, c)]);
    let (i, j) = (choose(10), choose(10));
    send(&mut e, &mut d, &[field(i, c), field(j, c)]);
    let k = choose(10);
    send(&mut e, &mut d, &[field(k, c)]);
    cover("blocks");
}
/// any octet in any field, twice, with an empty block in between
fn h_p22_repeat() {
    let (mut e, mut d) = ends(SIZES[shard() / 10 * 3]);
    let c = sym::u8();
    let f = [field(shard() % 10, c), field(1, c)];
    send(&mut e, &mut d, &f);
    send(&mut e, &mut d, &[]);
    send(&mut e, &mut d, &f);
    cover("repeated");
}
/// values of other lengths: up to beyond the one-octet length, and beyond the table
fn h_p22_long() {
    let (mut e, mut d) = ends(SIZES[choose(6)]);
    let n = [0usize, 3, 40, 79, 127, 128, 160, 203][shard()];
    let mut v = vec![b'b'; n];
    if n > 0 { v[n / 2] = sym::u8(); assume(v[n / 2] >= b'0' && v[n / 2] < b'8'); }
    let f = [(HeaderName::from_static("x-long"), hv(&v)), (HeaderName::from_static("content-type"), hv(&v)), field(1, 0)];
    send(&mut e, &mut d, &f);
    send(&mut e, &mut d, &f[..2]);
    cover("long");
}
/// the two ends agree on a smaller or larger table between blocks
fn h_p22_resize() {
    let (mut e, mut d) = ends(SIZES[shard()]);
    let c = sym::u8();
    assume(c >= b'0' && c < b'4');
    send(&mut e, &mut d, &[field(0, c), field(1, c), field(2, c)]);
    let l = sym::u8() as usize;
    e.index.write().unwrap().set_max_table_size(l);
    d.index.write().unwrap().set_max_table_size(l);
    same_tables(&e.index, &d.index);
    send(&mut e, &mut d, &[field(choose(10), c), field(0, c)]);
    send(&mut e, &mut d, &[field(0, c), field(choose(3), c)]);
    cover("resized");
}
/// many fields in a block and many blocks: the table fills and entries are evicted at both ends
fn h_p22_many() {
    let (mut e, mut d) = ends([4096, 400, 110, 8192][shard() % 4]);
    let k = [3usize, 20, 60, 150][shard() / 4];
    let c = sym::u8();
    assume(c >= b'4' && c < b'8');
    let mut l: Vec<(HeaderName, HeaderValue)> = vec![];
    for i in 0..k {
        let v = [b'a' + (i % 26) as u8, if i == k / 2 { c } else { b'0' + (i / 26) as u8 }];
        l.push((HeaderName::from_static(["x-many", "age", "cookie", "x"][i % 4]), hv(&v)));
    }
    for _ in 0..3 { send(&mut e, &mut d, &l); }
    l.reverse();
    send(&mut e, &mut d, &l);
    cover("many");
}
/// fields that differ in one octet of a long name or value are not taken for each other (shard: length and place)
fn h_p22_alike() {
    let (mut e, mut d) = ends(8192);
    let n = [20usize, 33, 70, 129, 300, 700][shard() / 3];
    let at = [0, n / 2, n - 1][shard() % 3];
    let c = sym::u8();
    assume(c >= b'4' && c < b'8');
    let v = vec![b'4'; n];
    let mut w = v.clone();
    w[at] = c;
    let long = |x: u8| { let mut m = vec![b'n'; n]; m[at] = x; HeaderName::from_bytes(&m).unwrap() };
    let f = [
        (HeaderName::from_static("x"), hv(&v)),
        (HeaderName::from_static("x"), hv(&w)),
        (HeaderName::from_static("age"), hv(&w)),
        (HeaderName::from_static("age"), hv(&v)),
        (long(b'a'), hv(b"1")),
        (long(b'b'), hv(b"1")),
    ];
    send(&mut e, &mut d, &f);
    send(&mut e, &mut d, &[f[1].clone(), f[0].clone(), f[5].clone(), f[4].clone(), f[2].clone()]);
    cover("alike");
}
/// values of thousands of octets, larger than the table (shard: length and name)
fn h_p22_huge() {
    let (mut e, mut d) = ends(4096);
    let n = [5000usize, 20_000, 27_000, 66_000][shard() / 2];
    let c = sym::u8();
    assume(c >= b'4' && c < b'8');
    let mut v = vec![b'a'; n];
    v[n - 2] = c;
    let f = [field(0, b'4'), (HeaderName::from_static(["x-huge", "cookie"][shard() % 2]), hv(&v)), field(0, b'5')];
    send(&mut e, &mut d, &f);
    send(&mut e, &mut d, &f);
    cover("huge");
}
}
