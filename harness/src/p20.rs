//! P20: the dynamic table.
use crate::gen::*;
use crate::hp;
use crate::sym::{self, *};
use webparse::http2::header_index::HeaderIndex;
use webparse::*;

const NAMES: [&str; 3] = ["x", "x-yz", "content-type"];

/// name index and value of an entry
#[derive(Clone, Copy)]
struct Ent { n: usize, v: [u8; 4], l: usize }
struct Model { e: [Ent; 12], n: usize, size: usize, max: usize }
impl Model {
    fn cost(e: &Ent) -> usize { NAMES[e.n].len() + e.l + 32 }
    fn evict(&mut self) { while self.size > self.max { self.n -= 1; self.size -= Self::cost(&self.e[self.n]); } }
    fn add(&mut self, e: Ent) {
        let mut i = self.n;
        while i > 0 { self.e[i] = self.e[i - 1]; i -= 1; }
        self.e[0] = e;
        self.n += 1;
        self.size += Self::cost(&e);
        self.evict();
    }
}
fn agree(t: &HeaderIndex, m: &Model) {
    check(t.len() == m.n && t.get_size() == m.size && t.get_max_table_size() == m.max, "number of entries, size and limit");
    check(t.get_size() <= t.get_max_table_size(), "the size is within the limit");
    let mut i = 0;
    while i < m.n {
        match t.get_from_index(62 + i) {
            Some((n, v)) => check(same(n.as_bytes(), NAMES[m.e[i].n].as_bytes()) && same(v.as_bytes(), &m.e[i].v[..m.e[i].l]), "the entries, newest first"),
            None => check(false, "an index inside the table"),
        }
        i += 1;
    }
    check(t.get_from_index(62 + m.n).is_none() && t.get_from_index(0).is_none(), "no index outside the table");
}

harnesses! {
/// additions and limit changes in any order; limits and contents symbolic (shard: first operations)
fn h_p20_ops() {
    let mut t = HeaderIndex::new();
    let mut m = Model { e: [Ent { n: 0, v: [0; 4], l: 0 }; 12], n: 0, size: 0, max: 4096 };
    let k = if tier() == 0 { 5 } else { 7 };
    let mut i = 0;
    let mut evicted = false;
    while i < k {
        // an addition in three kinds of name, or a new limit
        let op = if i == 0 { shard() % 4 } else if i == 1 { shard() / 4 } else { choose(4) };
        if op == 3 {
            let l = sym::u8() as usize;
            t.set_max_table_size(l);
            m.max = l;
            let n = m.n;
            m.evict();
            if m.n < n { evicted = true; }
        } else {
            let mut e = Ent { n: op, v: [0; 4], l: 0 };
            e.l = choose(2) * 3;
            sym::bytes(&mut e.v[..e.l]);
            t.add_header(HeaderName::from_static(NAMES[op]), hv(&e.v[..e.l]));
            let n = m.n;
            m.add(e);
            if m.n <= n { evicted = true; }
        }
        agree(&t, &m);
        i += 1;
    }
    let v = t.to_vec();
    let mut ok = v.len() == m.n;
    let mut i = 0;
    while i < v.len() && i < m.n { ok = ok && same(v[i].0.as_bytes(), NAMES[m.e[i].n].as_bytes()) && same(v[i].1.as_bytes(), &m.e[i].v[..m.e[i].l]); i += 1; }
    check(ok, "the table as a list");
    cover("kept");
    if evicted { cover("evicted"); }
}
/// many entries against a symbolic limit
fn h_p20_limit() {
    let n = 1 + shard();
    let mut t = HeaderIndex::new();
    let mut m = Model { e: [Ent { n: 0, v: [0; 4], l: 0 }; 12], n: 0, size: 0, max: 4096 };
    let mut i = 0;
    while i < n {
        let e = Ent { n: i % 3, v: [i as u8; 4], l: i % 4 };
        t.add_header(HeaderName::from_static(NAMES[e.n]), hv(&e.v[..e.l]));
        m.add(e);
        i += 1;
    }
    let l = sym::u64() as usize;
    t.set_max_table_size(l);
    m.max = l;
    m.evict();
    agree(&t, &m);
    let l = sym::u16() as usize;
    t.set_max_table_size(l);
    m.max = l;
    m.evict();
    agree(&t, &m);
    if m.n == 0 { cover("emptied"); }
    if m.n == n { cover("kept"); }
}
/// the standard entries, and any index
fn h_p20_static() {
    let mut t = HeaderIndex::new();
    let dynamic = choose(3);
    let mut i = 0;
    while i < dynamic { t.add_header(HeaderName::from_static("x"), hv(&[i as u8])); i += 1; }
    let k = sym::u64() as usize;
    let r = t.get_from_index(k);
    check(r.is_some() == (k >= 1 && k <= 61 + dynamic), "the indexes in use");
    if let Some((n, v)) = r {
        let k = concretize(k as u64) as usize;
        if k <= 61 {
            let (x, y) = hp::STATIC_S[k - 1];
            check(same(n.as_bytes(), x.as_bytes()) && same(v.as_bytes(), y.as_bytes()), "the entry of the standard");
            cover("standard");
        } else {
            check(same(n.as_bytes(), b"x") && same(v.as_bytes(), &[(dynamic - 1 - (k - 62)) as u8]), "the dynamic entry");
            cover("dynamic");
        }
    }
}
/// looking up a standard name: its own value, another standard value, any octet, nothing
fn h_p20_find_static() {
    let t = {
        let mut t = HeaderIndex::new();
        t.add_header(HeaderName::from_static("age"), HeaderValue::from_static("7"));
        t.add_header(HeaderName::from_static("x"), HeaderValue::from_static("7"));
        t
    };
    let i = shard() * 8 + choose(8);
    if i >= 61 { return; }
    let (name, value) = hp::STATIC_S[i];
    let v: Str<24> = match choose(4) {
        0 => { let mut s = Str::new(); s.put(value.as_bytes()); s }
        1 => { let mut s = Str::new(); s.sym(1, |_| true); s }
        2 => { let mut s = Str::new(); s.put(pick(&["GET", "POST", "/", "404", "200", "http", "https", "gzip, deflate", "7", "zz"]).as_bytes()); s }
        _ => Str::new(),
    };
    lookup(&t, name.as_bytes(), v.b());
}
/// looking up names that only the dynamic table knows
fn h_p20_find_dynamic() {
    let mut t = HeaderIndex::new();
    let k = choose(4);
    let mut i = 0;
    while i < k {
        let s: Str<4> = sym_str(choose(2), |_| true);
        t.add_header(HeaderName::from_static(pick(&["x", "y"])), hv(s.b()));
        i += 1;
    }
    let s: Str<4> = sym_str(choose(2), |_| true);
    lookup(&t, pick(&[b"x", b"X", b"z"]), s.b());
}
/// many entries: more than any power of two below 256, all indexes, then a limit anywhere
fn h_p20_many() {
    let n = [65usize, 130][shard() % 2];
    let mut t = HeaderIndex::new();
    t.set_max_table_size(1 << 16);
    let c = sym::u8();
    let at = [0, n / 2, n - 1][shard() / 2 % 3];
    let val = |i: usize| [if i == at { c } else { b'0' + (i % 10) as u8 }, b'a' + (i % 26) as u8, b'a' + (i / 26) as u8];
    for i in 0..n { t.add_header(HeaderName::from_static("x-many"), hv(&val(i))); }
    let each = 6 + 3 + 32;
    check(t.len() == n && t.get_size() == n * each, "number of entries and size");
    let mut keep = n;
    if shard() / 6 == 1 {
        let l = sym::u16() as usize;
        let k = choose(3);
        assume(l / each == [0, n / 2, n - 1][k]);
        t.set_max_table_size(l);
        keep = [0, n / 2, n - 1][k];
        check(t.len() == keep && t.get_size() == keep * each && t.get_max_table_size() == l, "what fits is kept");
    }
    for i in 0..keep {
        check(match t.get_from_index(62 + i) { Some((a, v)) => same(a.as_bytes(), b"x-many") && same(v.as_bytes(), &val(n - 1 - i)), None => false }, "the entries, newest first");
    }
    check(t.get_from_index(62 + keep).is_none(), "no index outside the table");
    cover("many");
}
/// entries that differ in one octet of a long name or value (shard: length and place)
fn h_p20_alike() {
    let n = [20usize, 33, 70, 129, 300, 1000][shard() / 3];
    let at = [0, n / 2, n - 1][shard() % 3];
    let mut t = HeaderIndex::new();
    let mut v = vec![b'v'; n];
    let mut m = vec![b'm'; n];
    t.add_header(HeaderName::from_bytes(&m).unwrap(), hv(&v));
    let c = sym::u8();
    let in_name = bool();
    if in_name { assume(c < 128 && c != b'M'); m[at] = c; } else { v[at] = c; }
    let (n, w) = (HeaderName::from_bytes(&m).unwrap(), hv(&v));
    let known = t.find_header((&n, &w));
    check(known.is_some() == (c == if in_name { b'm' } else { b'v' }), "found exactly if it is there");
    lookup(&t, &m, &v);
    cover("alike");
}
/// entries and limits beyond 16 bits (shard: length of the entries)
fn h_p20_large() {
    let n = [4000usize, 4064, 4065, 65_503, 65_504, 70_000][shard()];
    let mut t = HeaderIndex::new();
    let mut m = Model { e: [Ent { n: 0, v: [0; 4], l: 0 }; 12], n: 0, size: 0, max: 4096 };
    let l = sym::u64() as usize;
    t.set_max_table_size(l);
    m.max = l;
    let v = vec![b'v'; n];
    let mut i = 0;
    while i < 3 {
        let e = Ent { n: 0, v: [b'v'; 4], l: n };
        t.add_header(HeaderName::from_static(NAMES[0]), hv(&v));
        m.add(e);
        i += 1;
    }
    check(t.len() == m.n && t.get_size() == m.size && t.get_max_table_size() == m.max, "number of entries, size and limit");
    let l = sym::u32() as usize;
    t.set_max_table_size(l);
    m.max = l;
    m.evict();
    check(t.len() == m.n && t.get_size() == m.size && t.get_max_table_size() == m.max, "number of entries, size and limit");
    check(t.get_from_index(62 + m.n).is_none() && (m.n == 0 || t.get_from_index(61 + m.n).is_some()), "indexes");
    if m.n == 3 { cover("kept"); }
    if m.n == 0 { cover("emptied"); }
}
}
fn lookup(t: &HeaderIndex, name: &[u8], value: &[u8]) {
    let n = match HeaderName::from_bytes(name) { Some(n) => n, None => return };
    let v = hv(value);
    match t.find_header((&n, &v)) {
        None => cover("nothing"),
        Some((i, exact)) => match t.get_from_index(i) {
            Some((a, b)) => {
                check(ieq(a.as_bytes(), name), "an entry of that name");
                if exact { check(same(b.as_bytes(), value), "the entry is the field"); cover("field"); } else { cover("name"); }
            }
            None => check(false, "an index in use"),
        },
    }
}
