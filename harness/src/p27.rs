//! P27: the extension store.
use crate::sym::{self, *};
use webparse::Extensions;

#[derive(PartialEq, Clone, Copy)]
struct A(u32);
#[derive(PartialEq, Clone, Copy)]
struct B(u32);
#[derive(PartialEq)]
struct C(Box<u32>);

/// the store as one optional value of each of five types; u32 and i32, A and B look alike in memory
#[derive(Clone, Copy, PartialEq)]
struct Model { v: [Option<u32>; 5] }
impl Model {
    fn n(&self) -> usize { let mut n = 0; let mut i = 0; while i < 5 { if self.v[i].is_some() { n += 1; } i += 1; } n }
}
fn insert(e: &mut Extensions, i: usize, v: u32) -> Option<u32> {
    match i {
        0 => e.insert(v),
        1 => e.insert(v as i32).map(|x| x as u32),
        2 => e.insert(A(v)).map(|x| x.0),
        3 => e.insert(B(v)).map(|x| x.0),
        _ => e.insert(C(Box::new(v))).map(|x| *x.0),
    }
}
fn get(e: &Extensions, i: usize) -> Option<u32> {
    match i {
        0 => e.get::<u32>().copied(),
        1 => e.get::<i32>().map(|x| *x as u32),
        2 => e.get::<A>().map(|x| x.0),
        3 => e.get::<B>().map(|x| x.0),
        _ => e.get::<C>().map(|x| *x.0),
    }
}
fn set(e: &mut Extensions, i: usize, v: u32) -> bool {
    match i {
        0 => e.get_mut::<u32>().map(|x| *x = v).is_some(),
        1 => e.get_mut::<i32>().map(|x| *x = v as i32).is_some(),
        2 => e.get_mut::<A>().map(|x| x.0 = v).is_some(),
        3 => e.get_mut::<B>().map(|x| x.0 = v).is_some(),
        _ => e.get_mut::<C>().map(|x| *x.0 = v).is_some(),
    }
}
fn remove(e: &mut Extensions, i: usize) -> Option<u32> {
    match i {
        0 => e.remove::<u32>(),
        1 => e.remove::<i32>().map(|x| x as u32),
        2 => e.remove::<A>().map(|x| x.0),
        3 => e.remove::<B>().map(|x| x.0),
        _ => e.remove::<C>().map(|x| *x.0),
    }
}
fn agree(e: &Extensions, m: &Model) {
    check(e.len() == m.n() && e.is_empty() == (m.n() == 0), "the number of values");
    let mut i = 0;
    while i < 5 { check(get(e, i) == m.v[i], "the last value of each type and no other"); i += 1; }
    check(e.get::<u64>().is_none() && e.get::<&'static str>().is_none(), "types never stored");
}

struct N<const K: u32>(u32);

harnesses! {
/// sequences of operations on two stores (shard: the first operation)
fn h_p27_ops() {
    let mut e = [Extensions::new(), Extensions::new()];
    let mut m = [Model { v: [None; 5] }; 2];
    let k = if tier() == 0 { 4 } else { 5 };
    let mut s = 0;
    while s < k {
        let op = if s == 0 { shard() } else { choose(24) };
        let v = sym::u32();
        let i = op % 5;
        match op {
            0..=4 => { check(insert(&mut e[0], i, v) == m[0].v[i], "inserting reports what is replaced"); if m[0].v[i].is_some() { cover("replaced"); } m[0].v[i] = Some(v); }
            5..=9 => { check(insert(&mut e[1], i, v) == m[1].v[i], "inserting reports what is replaced"); m[1].v[i] = Some(v); }
            10..=14 => { check(remove(&mut e[0], i) == m[0].v[i], "removing reports what was there"); m[0].v[i] = None; }
            15..=19 => { check(set(&mut e[0], i, v) == m[0].v[i].is_some(), "changing in place"); if m[0].v[i].is_some() { m[0].v[i] = Some(v); } }
            20 => { e[0].clear(); m[0] = Model { v: [None; 5] }; cover("cleared"); }
            21 => {
                let [a, b] = &mut e;
                a.extend(std::mem::take(b));
                let mut i = 0;
                while i < 5 { if m[1].v[i].is_some() { m[0].v[i] = m[1].v[i]; } i += 1; }
                m[1] = Model { v: [None; 5] };
                cover("merged");
            }
            22 => { e.swap(0, 1); m.swap(0, 1); }
            _ => { let n = Extensions::new(); e[0].extend(n); }
        }
        agree(&e[0], &m[0]);
        agree(&e[1], &m[1]);
        s += 1;
    }
    cover("sequence");
}
/// a merge of every pair of subsets, then another
fn h_p27_merge() {
    let mut e = [Extensions::new(), Extensions::new(), Extensions::new()];
    let mut m = [Model { v: [None; 5] }; 3];
    let masks = [shard(), choose(32), choose(8) * 3];
    let mut s = 0;
    while s < 3 {
        let mut i = 0;
        while i < 5 {
            if masks[s] >> i & 1 == 1 { let v = sym::u32(); insert(&mut e[s], i, v); m[s].v[i] = Some(v); }
            i += 1;
        }
        s += 1;
    }
    let [a, b, c] = e;
    let mut a = a;
    a.extend(b);
    a.extend(c);
    let mut s = 1;
    while s < 3 { let mut i = 0; while i < 5 { if m[s].v[i].is_some() { m[0].v[i] = m[s].v[i]; } i += 1; } s += 1; }
    agree(&a, &m[0]);
    cover("merged");
}
/// many types at once
fn h_p27_many() {
    let x = sym::u32();
    let gone = choose(4);
    let mut e = Extensions::new();
    macro_rules! all { ($m:ident, $($n:expr),*) => { $( $m!($n); )* } }
    macro_rules! put { ($n:expr) => { check(e.insert(N::<$n>(x ^ $n)).is_none(), "nothing of that type before"); } }
    all!(put, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33);
    check(e.len() == 34, "the number of values");
    match gone {
        0 => check(e.remove::<N<0>>().map(|v| v.0) == Some(x), "removed"),
        1 => check(e.remove::<N<17>>().map(|v| v.0) == Some(x ^ 17), "removed"),
        2 => check(e.remove::<N<33>>().map(|v| v.0) == Some(x ^ 33), "removed"),
        _ => {}
    }
    let out = [0u32, 17, 33, 99][gone];
    let mut f = Extensions::new();
    let more = sym::bool();
    if more { f.insert(N::<5>(7)); f.insert(N::<40>(x)); e.extend(f); }
    macro_rules! see { ($n:expr) => {
        let want = if $n == out { None } else if more && $n == 5 { Some(7) } else { Some(x ^ $n) };
        check(e.get::<N<$n>>().map(|v| v.0) == want && e.get_mut::<N<$n>>().map(|v| v.0) == want, "each of many types keeps its value");
    } }
    all!(see, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33);
    check(e.get::<N<40>>().is_some() == more && e.len() == 34 - (gone < 3) as usize + more as usize, "the number of values");
    e.clear();
    check(e.is_empty() && e.get::<N<9>>().is_none(), "nothing is left");
    check(e.insert(N::<9>(x)).is_none() && e.len() == 1, "a value stored after a clear");
    cover("many");
}
}
