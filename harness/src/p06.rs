//! P06: a header collection behaves as an ordered map keyed by
//! case-insensitive names.
use crate::gen::*;
use crate::sym::{self, *};
use webparse::*;

#[derive(Clone, Copy)]
struct Ent { n: Str<4>, v: Str<12> }
struct Model { e: [Ent; 6], k: usize }
impl Model {
    fn find(&self, n: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < self.k { if ieq(self.e[i].n.b(), n) { return Some(i); } i += 1; }
        None
    }
}
fn name(two: bool) -> Str<4> { let mut s = Str::new(); if two { s.put(b"X-"); } s.sym(1, is_tchar); s }
fn agree(m: &HeaderMap, r: &Model, probe: &Str<4>) {
    check(m.len() == r.k && m.is_empty() == (r.k == 0), "length");
    let mut i = 0;
    for (n, v) in m.iter() {
        if i < r.k {
            check(same(n.as_bytes(), r.e[i].n.b()), "names in insertion order");
            check(same(v.as_bytes(), r.e[i].v.b()), "values");
        }
        i += 1;
    }
    let p = probe.b();
    match r.find(p) {
        Some(k) => {
            check(m.contains(&p), "contains a stored name in any case");
            check(match m.get_option_value(&p) { Some(v) => same(v.as_bytes(), r.e[k].v.b()), None => false }, "lookup finds the stored value");
            check(m.is_equal(&p, r.e[k].v.b()), "is_equal on the stored value");
            cover("hit");
        }
        None => {
            check(!m.contains(&p), "does not contain another name");
            check(m.get_option_value(&p).is_none() && m.get_str_value(&p).is_none(), "no value for another name");
            check(!m.is_equal(&p, b"") && !m.is_contains(&p, b""), "no value to compare with");
            cover("miss");
        }
    }
}
struct Many { e: [(u8, u8); 20], k: usize }
fn nm(n: u8) -> String { let mut s = String::from("x-"); s.push(n as char); s }
const TOKENS: &[&[u8]] = &[b"keep-alive", b"close", b"chunked", b"upgrade", b"x"];

harnesses! {
/// random operation sequences against a list model
fn h_p06_ops() {
    // shard: the first two operations, and whether names have two letters
    let sh = shard();
    let steps = 3 + sh / 32;
    let two = sh & 16 != 0;
    let mut m = HeaderMap::new();
    let mut r = Model { e: [Ent { n: Str::new(), v: Str::new() }; 6], k: 0 };
    let mut s = 0;
    while s < steps {
        let op = if s == 0 { sh & 3 } else if s == 1 { (sh >> 2) & 3 } else { choose(4) };
        let n = name(two);
        let v: Str<12> = sym_str(if s == 1 { 0 } else { 1 }, is_field_char);
        match op {
            0 => {
                m.insert(n.string(), HeaderValue::from_bytes(v.b()));
                match r.find(n.b()) { Some(k) => r.e[k].v = v, None => { r.e[r.k] = Ent { n, v }; r.k += 1; } }
            }
            1 => {
                m.push(n.string(), HeaderValue::from_bytes(v.b()));
                match r.find(n.b()) { Some(k) => { r.e[k].v.put(b";").put(v.b()); }, None => { r.e[r.k] = Ent { n, v }; r.k += 1; } }
            }
            2 => {
                let got = m.remove(&n.b());
                match r.find(n.b()) {
                    Some(k) => {
                        check(match got { Some(x) => same(x.as_bytes(), r.e[k].v.b()), None => false }, "remove returns the value");
                        let mut i = k; while i + 1 < r.k { r.e[i] = r.e[i + 1]; i += 1; }
                        r.k -= 1;
                        cover("removed");
                    }
                    None => check(got.is_none(), "removing an absent name removes nothing"),
                }
            }
            _ => {
                if sym::bool() { m.clear(); r.k = 0; } else {
                    m["Zz"] = HeaderValue::from_bytes(v.b());
                    let mut z: Str<4> = Str::new(); z.put(b"Zz");
                    match r.find(b"zz") { Some(k) => r.e[k].v = v, None => { r.e[r.k] = Ent { n: z, v }; r.k += 1; } }
                    check(same(m["zZ"].as_bytes(), v.b()), "index reads back in any case");
                }
            }
        }
        s += 1;
    }
    let p = name(two);
    agree(&m, &r, &p);
    let c = m.clone();
    check(c == m, "a clone is equal");
    agree(&c, &r, &p);
}
/// content search is a substring search
fn h_p06_contains() {
    let n = choose(if tier() == 0 { 5 } else { 7 });
    let k = choose(if tier() == 0 { 4 } else { 5 });
    let v: Str<8> = sym_str(n, |_| true);
    let w: Str<8> = sym_str(k, |_| true);
    let mut m = HeaderMap::new();
    m.insert("a", HeaderValue::from_bytes(v.b()));
    let mut want = false;
    let mut i = 0;
    while i + k <= n { want |= same(&v.b()[i..i + k], w.b()); i += 1; }
    let got = m.is_contains(&"A", w.b());
    observe(got as u64);
    if k > 0 { check(got == want, "substring search"); }
    if got { cover("yes") } else { cover("no") }
}
/// framing predicates look at whole tokens of a list, in any case
fn h_p06_tokens() {
    let t = TOKENS[shard()];
    // value: [element sep] token-with-any-case-and-one-changed-byte [sep element]
    let mut v: Str<48> = Str::new();
    let shape = choose(4);
    if shape & 1 == 1 { v.put(b"x").put(pick::<&[u8]>(&[b",", b", ", b" ,", b";", b",\t", b"\t, "])); }
    let s = v.n;
    v.put(t);
    let mut i = 0;
    let mut d: Str<48> = v;
    sym::bytes(&mut d.d[s..s + t.len()]);
    // each byte is the token's letter in either case, except one that may be any token byte
    let odd = choose(t.len() as u8);
    while i < t.len() {
        let b = d.d[s + i];
        if i == odd { assume(is_tchar(b)); } else { assume(lower(b) == t[i]); }
        i += 1;
    }
    v = d;
    if shape & 2 == 2 { v.put(pick::<&[u8]>(&[b",", b", ", b";", b"\t,", b" \t,"])).put(b"y"); }
    let is = ieq(&v.d[s..s + t.len()], t);
    let mut m = HeaderMap::new();
    m.insert("connection", HeaderValue::from_bytes(v.b()));
    m.insert("transfer-encoding", HeaderValue::from_bytes(v.b()));
    m.insert("upgrade", "proto");
    let (ka, ch, up) = (m.is_keep_alive(), m.is_chunked(), m.get_upgrade_protocol().is_some());
    observe(ka as u64 * 4 + ch as u64 * 2 + up as u64);
    check(ka == (is && t == b"keep-alive"), "keep-alive token");
    check(ch == (is && t == b"chunked"), "chunked token");
    check(up == (is && t == b"upgrade"), "upgrade token");
    if is { cover("token") } else { cover("other") }
}
/// many fields: removing, replacing, appending and changing at any place
/// leaves the others and their order alone
fn h_p06_many() {
    let total = if tier() == 0 { 9 } else { 17 };
    let k = choose(total as u8);
    let mut m = HeaderMap::new();
    let mut r = Many { e: [(0, 0); 20], k: 0 };
    let mut i = 0;
    while i < total {
        let v = sym::u8();
        assume(is_alnum(v));
        let n = b'a' + i as u8;
        m.insert(nm(n), HeaderValue::from_bytes(&[v]));
        r.e[i] = (n, v);
        r.k += 1;
        i += 1;
    }
    m.system_insert("x-a".to_string(), "system".to_string());
    let mut s = 0;
    while s < 2 {
        let op = if s == 0 { shard() % 6 } else { shard() / 6 };
        let k = if s == 0 { k } else { choose(3) * (r.k - 1) / 2 };
        let mut n = nm(r.e[k].0);
        if sym::bool() { n.make_ascii_uppercase(); }
        let v = sym::u8();
        assume(is_alnum(v));
        match op {
            0 => {
                let got = m.remove(&n.as_bytes());
                check(match got { Some(x) => same(x.as_bytes(), &[r.e[k].1]), None => false }, "remove returns the value");
                let mut i = k;
                while i + 1 < r.k { r.e[i] = r.e[i + 1]; i += 1; }
                r.k -= 1;
            }
            1 => { m.insert(n, HeaderValue::from_bytes(&[v])); r.e[k].1 = v; }
            2 => { *m.get_mut_value(&n.as_bytes()) = HeaderValue::from_bytes(&[v]); r.e[k].1 = v; }
            3 => {
                let mut i = 0;
                for (_, x) in m.iter_mut() { if i == k { *x = HeaderValue::from_bytes(&[v]); } i += 1; }
                check(i == r.k, "every field once");
                r.e[k].1 = v;
            }
            4 => {
                m.insert("x-z", HeaderValue::from_bytes(&[v]));
                r.e[r.k] = (b'z', v);
                let mut i = 0;
                while i < r.k { if r.e[i].0 == b'z' { break; } i += 1; }
                if i < r.k { r.e[i].1 = v; } else { r.k += 1; }
            }
            _ => {
                check(same(m.get_value(&n.as_bytes()).as_bytes(), &[r.e[k].1]), "get_value");
                check(m.get_str_value(&n.as_bytes()).map_or(false, |x| same(x.as_bytes(), &[r.e[k].1])), "get_str_value");
            }
        }
        s += 1;
    }
    let c = m.clone();
    let mut i = 0;
    check(m.len() == r.k && c.len() == r.k, "length");
    for ((n, v), (n2, v2)) in m.iter().zip(c.iter()) {
        check(ieq(n.as_bytes(), nm(r.e[i].0).as_bytes()) && ieq(n2.as_bytes(), nm(r.e[i].0).as_bytes()), "names in insertion order");
        check(same(v.as_bytes(), &[r.e[i].1]) && same(v2.as_bytes(), &[r.e[i].1]), "values");
        i += 1;
    }
    check(i == r.k, "every field once");
    let p = choose(r.k as u8);
    check(m.get_option_value(&nm(r.e[p].0).as_bytes()).map_or(false, |x| same(x.as_bytes(), &[r.e[p].1])), "lookup");
    check(m.system_get("x-a").map_or(false, |x| same(x.as_bytes(), b"system")) && m.system_get("x-b").is_none(), "a system entry is apart from the fields");
    let mut i = 0;
    for (n, v) in m.into_iter() {
        check(ieq(n.as_bytes(), nm(r.e[i].0).as_bytes()) && same(v.as_bytes(), &[r.e[i].1]), "consumed in order");
        i += 1;
    }
    check(i == r.k, "every field consumed");
    cover("done");
}
/// the named accessors read the field of that name and nothing else
fn h_p06_named() {
    const NAMES: [&[u8]; 7] = [b"host", b"referer", b"user-agent", b"cookie", b"content-length", b":authority", b"other"];
    let mut m = HeaderMap::new();
    let mut have = [false; 7];
    let mut vals: [Str<8>; 7] = [Str::new(); 7];
    let mut i = 0;
    while i < 7 {
        if shard() & (1 << i) != 0 {
            have[i] = true;
            let mut v: Str<8> = Str::new();
            if i == 4 { v.sym(1 + choose(2), |b| b.is_ascii_digit()); } else if i == 5 { v.sym(1, is_alnum); if sym::bool() { v.put(b":80"); } } else { v.sym(2, |b| b < 128 && is_field_char(b)); }
            vals[i] = v;
            m.insert(String::from_utf8(NAMES[i].to_vec()).unwrap(), HeaderValue::from_bytes(v.b()));
        }
        i += 1;
    }
    let eq = |a: Option<String>, k: usize| match a { Some(x) => have[k] && same(x.as_bytes(), vals[k].b()), None => !have[k] };
    check(eq(m.get_referer(), 1), "referer");
    check(eq(m.get_user_agent(), 2), "user agent");
    check(eq(m.get_cookie(), 3), "cookie");
    let h = m.get_host();
    if have[0] || !have[5] { check(eq(h, 0), "host"); } else { check(match h { Some(x) => same(x.as_bytes(), &vals[5].b()[..1]), None => false }, "host of the authority"); cover("authority"); }
    let mut want = 0isize;
    if have[4] { for b in vals[4].b() { want = want * 10 + (*b - b'0') as isize; } cover("length"); }
    check(m.get_body_len() == want, "body length");
}
/// the questions asked of a header set, with other fields around and the token
/// anywhere in a longer list (shard: fields before, fields behind)
fn h_p06_ask() {
    let (before, after) = ([0usize, 1, 9, 40][shard() % 4], [0usize, 1, 9][shard() / 4]);
    let mut m = HeaderMap::new();
    for i in 0..before { m.insert(format!("x-before-{}", i), "keep-alive"); }
    let q = choose(8);
    const L: [&str; 8] = ["connection", "transfer-encoding", "connection", "host", ":authority", "content-length", "referer", "cookie"];
    let mut v: Str<64> = Str::new();
    let x: Str<8> = sym_str(2, is_alnum);
    let t: &[u8] = match q { 0 => b"keep-alive", 1 => b"chunked", 2 => b"upgrade", _ => b"" };
    if q < 3 {
        let at = choose(3);
        for i in 0..3 {
            if i > 0 { v.put(pick::<&[u8]>(&[b",", b", ", b" ; "])); }
            if i == at { v.put(t); } else if i == 0 { v.put(b"gzip"); } else { v.put(x.b()); }
        }
    } else if q == 4 { v.put(x.b()); if sym::bool() { v.put(b":8080"); } }
    else if q == 5 { v.put(b"12"); }
    else { v.put(x.b()); }
    let n = L[q];
    let name = match choose(3) { 0 => n.to_string(), 1 => n.to_ascii_uppercase(), _ => { let mut b = n.as_bytes().to_vec(); b[0] = b[0].to_ascii_uppercase(); String::from_utf8(b).unwrap() } };
    m.insert(name, HeaderValue::from_bytes(v.b()));
    for i in 0..after { m.insert(format!("x-after-{}", i), "chunked, upgrade"); }
    if q == 2 { m.insert("Upgrade", "h2c"); }
    let is = |a: Option<String>, b: &[u8]| match a { Some(s) => same(s.as_bytes(), b), None => false };
    check(m.is_keep_alive() == (q == 0), "keep-alive");
    check(m.is_chunked() == (q == 1), "chunked");
    check(m.get_upgrade_protocol().is_some() == (q == 2) && (q != 2 || is(m.get_upgrade_protocol(), b"h2c")), "upgrade");
    check(m.get_host().is_some() == (q == 3 || q == 4) && (m.get_host().is_none() || is(m.get_host(), x.b())), "host");
    check(m.get_body_len() == if q == 5 { 12 } else { 0 }, "length");
    check(m.get_referer().is_some() == (q == 6) && (q != 6 || is(m.get_referer(), x.b())), "referer");
    check(m.get_cookie().is_some() == (q == 7) && (q != 7 || is(m.get_cookie(), x.b())), "cookie");
    check(m.get_user_agent().is_none(), "user agent");
    cover("asked");
}
/// comparing a field's value is exact
fn h_p06_equal() {
    let a: Str<8> = sym_str(choose(4), |b| b < 128);
    let b: Str<8> = sym_str(choose(4), |b| b < 128);
    let mut m = HeaderMap::new();
    m.insert("other", HeaderValue::from_bytes(b.b()));
    if sym::bool() { m.insert("X-a", HeaderValue::from_bytes(a.b())); } else { m["X-a"] = HeaderValue::from_bytes(a.b()); }
    let is = same(a.b(), b.b());
    check(m.is_equal(&"x-A", b.b()) == is, "a field's value equals exactly its octets");
    check((m["x-a"] == *b.b()) == is && (m["X-A"] == &b.string()[..]) == is, "an indexed value equals exactly its text");
    check(m.len() == 2, "two fields");
    m["x-a"] = HeaderValue::from_bytes(b.b());
    check(m.len() == 2 && m.is_equal(&"X-A", b.b()), "an indexed value is replaced");
    m["New"] = HeaderValue::from_bytes(a.b());
    check(m.len() == 3 && m.is_equal(&"new", a.b()) && m.contains(&"NEW"), "an indexed value is added");
    if is { cover("equal") } else { cover("different") }
}
/// a needle anywhere in a long value
fn h_p06_contains_long() {
    let n = LONG[shard() % 9];
    let k = [1usize, 2, 7, 15][shard() / 9];
    let mut v = vec![b'v'; n];
    let at = [0, 1, n / 2, n - k][choose(4)];
    if at + k > n { return cover("asked"); }
    let mut w = vec![b'n'; k];
    let c = sym::u8();
    assume(c != b'v' && c != b'n');
    v[at..at + k].copy_from_slice(&w);
    // one octet of the needle or of its place in the value is anything
    let i = choose(k as u8);
    let d = sym::u8();
    assume(d != b'v');
    if sym::bool() { w[i] = c } else { v[at + i] = d }
    let mut m = HeaderMap::new();
    m.insert("a", HeaderValue::from_bytes(&v));
    let want = same(&v[at..at + k], &w);
    let got = m.is_contains(&"A", &w);
    // a needle of one octet may also meet the octet that was changed
    check(got == want, "substring search in a long value");
    cover("asked");
}
/// any octets a field value may hold before and behind a token (shard: token, octets before, octets behind)
fn h_p06_around() {
    let t = [&b"Keep-Alive"[..], b"cHunked", b"upgrade"][shard() % 3];
    let (a, z) = [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (2, 1), (1, 2), (3, 0), (0, 3), (2, 2), (3, 3), (4, 2)][shard() / 3];
    let any = |b: u8| is_field_char(b) && b != b';';
    let mut v: Str<48> = Str::new();
    v.sym(a, any).put(t).sym(z, any);
    // the token stands alone exactly if what lies between it and the next comma, on both sides, is blank
    let alone = |mut i: usize, end: usize, step: isize| loop {
        if i == end { return true; }
        let b = if step < 0 { v.d[i - 1] } else { v.d[i] };
        if b == b',' { return true; }
        if b != b' ' && b != b'\t' { return false; }
        i = (i as isize + step) as usize;
    };
    let is = alone(a, 0, -1) && alone(a + t.len(), v.n, 1);
    let mut m = HeaderMap::new();
    m.insert("Connection", HeaderValue::from_bytes(v.b()));
    m.insert("Transfer-Encoding", HeaderValue::from_bytes(v.b()));
    m.insert("Upgrade", "proto");
    check(m.is_keep_alive() == (is && shard() % 3 == 0), "keep-alive token");
    check(m.is_chunked() == (is && shard() % 3 == 1), "chunked token");
    check(m.get_upgrade_protocol().is_some() == (is && shard() % 3 == 2), "upgrade token");
    if is { cover("token") } else { cover("other") }
}
}
