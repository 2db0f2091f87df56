//! P04: a cut-off head asks for more, and asking again with more bytes gives
//! the same answer as one shot.
use crate::gen::*;
use crate::sym::{self, *};
use algorithm::buf::{Binary, BinaryMut, Bt, BtMut};
use webparse::*;

fn same_req(a: &Request<()>, b: &Request<()>) -> bool {
    let mut ok = a.method() == b.method() && a.version() == b.version() && same(a.path().as_bytes(), b.path().as_bytes())
        && a.url().port == b.url().port && a.headers().len() == b.headers().len();
    ok = ok && match (&a.url().query, &b.url().query) { (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()), (None, None) => true, _ => false };
    ok = ok && match (&a.url().domain, &b.url().domain) { (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()), (None, None) => true, _ => false };
    ok = ok && a.url().scheme == b.url().scheme;
    ok = ok && match (&a.url().username, &b.url().username) { (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()), (None, None) => true, _ => false };
    ok = ok && match (&a.url().password, &b.url().password) { (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()), (None, None) => true, _ => false };
    if ok {
        for ((n, v), (m, w)) in a.headers().iter().zip(b.headers().iter()) {
            ok = ok && same(n.as_bytes(), m.as_bytes()) && same(v.as_bytes(), w.as_bytes());
        }
    }
    ok
}
fn same_res(a: &Response<()>, b: &Response<()>) -> bool {
    let mut ok = a.status() == b.status() && a.version() == b.version() && a.headers().len() == b.headers().len();
    if ok {
        for ((n, v), (m, w)) in a.headers().iter().zip(b.headers().iter()) {
            ok = ok && same(n.as_bytes(), m.as_bytes()) && same(v.as_bytes(), w.as_bytes());
        }
    }
    ok
}
fn head(k: usize) -> Str<96> {
    let mut h: Str<96> = Str::new();
    match k {
        0 => { h.put(b"GET /").sym(2, is_unreserved).put(b"?").sym(1, is_unreserved).put(b" HTTP/1.1\r\n\r\n"); }
        1 => { h.put(b"POST / HTTP/1.0\r\nHost: ").sym(2, is_alnum).put(b":").sym(1, |b| b >= b'0' && b <= b'9').put(b"\r\nA: \r\n\r\n"); }
        2 => { h.put(b"DELETE http://").sym(2, is_alnum).put(b"/ HTTP/2\r\n").sym(1, is_tchar).put(b": ").sym(2, |b| b > b' ' && b < 127).put(b"\r\n\r\n"); }
        3 => { h.put(b"CONNECT ").sym(1, is_alnum).put(b":443 HTTP/1.1\n").sym(1, is_tchar).put(b":").sym(1, |b| b > b' ' && b < 127).put(b"\n\n"); }
        4 => { h.put(b"HTTP/1.1 ").sym(1, |b| b >= b'1' && b <= b'9').put(b"04 ").sym(2, |b| b > b' ' && b < 127).put(b"\r\nB: ").sym(1, |b| b > b' ' && b < 127).put(b"\r\n\r\n"); }
        5 => { h.put(b"HTTP/2 200 \r\n").sym(2, is_tchar).put(b": x\r\nC: d\r\n\r\n"); }
        _ => { h.put(b"HTTP/1.0 3").sym(2, |b| b >= b'0' && b <= b'9').put(b" \n\n"); }
    }
    h
}

harnesses! {
/// every cut point of well-formed heads (shard: which head); then the whole head on the same object
fn h_p04_cut() {
    let k = shard();
    let h = head(k);
    let cut = choose(h.n as u8);
    let mut part = &h.b()[..cut];
    if k < 4 {
        let mut q = Request::new();
        match q.parse_buffer(&mut part) {
            Ok(n) => { observe(n as u64); check(false, "a proper prefix of a head is not a complete head"); }
            Err(e) => { observe(e.is_partial() as u64); check(e.is_partial(), "a proper prefix of a well-formed head asks for more"); }
        }
        check(q.is_partial() && !q.is_complete(), "marked incomplete");
        let r = q.parse_buffer(&mut h.b());
        let mut one = Request::new();
        let s = one.parse_buffer(&mut h.b());
        match (r, s) {
            (Ok(a), Ok(b)) => {
                check(a == h.n && b == h.n, "whole head consumed");
                check(same_req(&q, &one), "same request as parsing in one shot");
                check(!q.is_partial(), "marked complete");
                cover("request");
            }
            _ => check(false, "the whole head is accepted after a partial attempt"),
        }
    } else {
        let mut q = Response::new(());
        match q.parse_buffer(&mut part) {
            Ok(n) => { observe(n as u64); check(false, "a proper prefix of a head is not a complete head"); }
            Err(e) => { observe(e.is_partial() as u64); check(e.is_partial(), "a proper prefix of a well-formed head asks for more"); }
        }
        check(q.is_partial(), "marked incomplete");
        let r = q.parse_buffer(&mut h.b());
        let mut one = Response::new(());
        let s = one.parse_buffer(&mut h.b());
        match (r, s) {
            (Ok(a), Ok(b)) => {
                check(a == h.n && b == h.n, "whole head consumed");
                check(same_res(&q, &one), "same response as parsing in one shot");
                check(!q.is_partial(), "marked complete");
                cover("response");
            }
            _ => check(false, "the whole head is accepted after a partial attempt"),
        }
    }
}
/// heads with everything in them, cut at one or two places
fn h_p04_twice() {
    let mut h: Str<256> = Str::new();
    let k = shard();
    match k {
        0 => { h.put(b"PUT http://u:p@h:8080/a%41?x=").sym(1, is_alnum).put(b" HTTP/1.1\r\nHost: other:1\r\nContent-Length: 12\r\nX-").sym(1, is_alnum).put(b": 1\r\n\r\n"); }
        1 => { h.put(b"\r\nHEAD /p HTTP/1.0\r\nhost: h.").sym(1, is_alnum).put(b":81\r\nConnection: keep-alive, upgrade\r\nA:\tb\r\nEmpty:\r\n\r\n"); }
        2 => { h.put(b"OPTIONS * HTTP/1.1\nHost: ").sym(1, is_alnum).put(b"\nA: 1\nB: 2\nC: 3\nA: 4\n\n"); }
        3 => { h.put(b"HTTP/1.1 4").sym(1, |b| b >= b'0' && b <= b'9').put(b"4 Not  Found here\r\nServer: a b c\r\nSet-Cookie: a=b; c\r\nx: ").sym(1, is_alnum).put(b"\r\nServer: d\r\n\r\n"); }
        _ => { h.put(b"\n\r\nHTTP/1.0 200\nA: ").sym(1, is_alnum).put(b"\r\n\n"); }
    }
    let c1 = choose(h.n as u8);
    let c2 = if bool() { choose(h.n as u8) } else { 0 };
    assume(c2 == 0 || c2 > c1);
    let cuts = [c1, c2];
    if k < 3 {
        let mut q = Request::new();
        for (i, c) in cuts.iter().enumerate() {
            if i == 1 && *c == 0 { continue; }
            match q.parse_buffer(&mut &h.b()[..*c]) {
                Ok(_) => check(false, "a proper prefix of a head is not a complete head"),
                Err(e) => check(e.is_partial(), "a proper prefix of a well-formed head asks for more"),
            }
            check(q.is_partial() && !q.is_complete(), "marked incomplete");
        }
        let mut one = Request::new();
        match (q.parse_buffer(&mut h.b()), one.parse_buffer(&mut h.b())) {
            (Ok(a), Ok(b)) => { check(a == h.n && b == h.n, "whole head consumed"); check(same_req(&q, &one), "same request as parsing in one shot"); cover("request"); }
            _ => check(false, "the whole head is accepted after a partial attempt"),
        }
    } else {
        let mut q = Response::new(());
        for (i, c) in cuts.iter().enumerate() {
            if i == 1 && *c == 0 { continue; }
            match q.parse_buffer(&mut &h.b()[..*c]) {
                Ok(_) => check(false, "a proper prefix of a head is not a complete head"),
                Err(e) => check(e.is_partial(), "a proper prefix of a well-formed head asks for more"),
            }
            check(q.is_partial(), "marked incomplete");
        }
        let mut one = Response::new(());
        match (q.parse_buffer(&mut h.b()), one.parse_buffer(&mut h.b())) {
            (Ok(a), Ok(b)) => { check(a == h.n && b == h.n, "whole head consumed"); check(same_res(&q, &one), "same response as parsing in one shot"); cover("response"); }
            _ => check(false, "the whole head is accepted after a partial attempt"),
        }
    }
}
/// arbitrary bytes: a verdict reached on a prefix is never revised by more input
fn h_p04_stable() {
    const PRE: &[&[u8]] = &[b"", b"GET ", b"GET / HTTP/", b"GET / HTTP/1.1\r\n", b"GET / HTTP/1.1\r\nA:", b"HTTP/1.1 2", b"HTTP/1.1 200 ", b"HTTP/1.1 200 OK\n", b""];
    let k = shard();
    let n = if tier() == 0 { 4 } else { 6 };
    let mut b: Str<64> = Str::new();
    b.put(PRE[k]).sym(n, |_| true);
    let cut = PRE[k].len() + choose(n as u8);
    let (short, long): (Result<usize, bool>, Result<usize, bool>);
    if k < 5 {
        let mut q = Request::new();
        short = q.parse_buffer(&mut &b.b()[..cut]).map_err(|e| e.is_partial());
        let mut q2 = Request::new();
        long = q2.parse_buffer(&mut b.b()).map_err(|e| e.is_partial());
        if let (Ok(_), Ok(_)) = (&short, &long) { check(same_req(&q, &q2), "same request whatever follows it"); }
    } else {
        let mut q = Response::new(());
        short = q.parse_buffer(&mut &b.b()[..cut]).map_err(|e| e.is_partial());
        let mut q2 = Response::new(());
        long = q2.parse_buffer(&mut b.b()).map_err(|e| e.is_partial());
        if let (Ok(_), Ok(_)) = (&short, &long) { check(same_res(&q, &q2), "same response whatever follows it"); }
    }
    match short {
        Ok(n) => { observe(n as u64); check(long == Ok(n), "a complete head stays complete"); cover("ok"); }
        Err(true) => { observe(1); check(long != Ok(cut) || long.is_err() , "more was needed"); cover("partial"); }
        Err(false) => { observe(2); check(long == Err(false), "a rejected prefix stays rejected"); cover("error"); }
    }
}
/// one head from a slice, from `parse` and from the two kinds of buffers: the same verdict, message and length
fn h_p04_sources() {
    const PRE: &[&[u8]] = &[b"", b"GET ", b"GET /a?b HTTP/1.1\r\nHost: h:1\r\n", b"GET / HTTP/1.1\r\nA: b\r\n\r\n", b"HTTP/1.1 2", b"HTTP/1.1 200 OK\n", b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n"];
    let k = shard();
    let n = if tier() == 0 { 4 } else { 6 };
    let mut s: Str<64> = Str::new();
    s.put(PRE[k]).sym(n, |_| true);
    let b = s.b();
    if k < 4 {
        let mut a = Request::new();
        let ra = a.parse_buffer(&mut &b[..]).map_err(|e| e.is_partial());
        let mut c = Request::new();
        let rc = c.parse(b).map_err(|e| e.is_partial());
        check(ra == rc && a.is_partial() == c.is_partial(), "parse and parse_buffer agree");
        let mut bin = Binary::from(b.to_vec());
        let mut d = Request::new();
        let rd = d.parse_buffer(&mut bin).map_err(|e| e.is_partial());
        let mut bm = BinaryMut::from(&b[..]);
        let mut e = Request::new();
        let re = e.parse_buffer(&mut bm).map_err(|e| e.is_partial());
        check(ra == rd && ra == re, "every kind of buffer gives the same verdict");
        if let Ok(m) = ra {
            check(same_req(&a, &c) && same_req(&a, &d) && same_req(&a, &e), "every kind of buffer gives the same request");
            check(bin.remaining() == b.len() - m && bm.remaining() == b.len() - m && same(bin.chunk(), &b[m..]) && same(bm.chunk(), &b[m..]), "what follows the head stays in the buffer");
            cover("request");
        } else { cover("refused"); }
    } else {
        let mut a = Response::new(());
        let ra = a.parse_buffer(&mut &b[..]).map_err(|e| e.is_partial());
        let mut c = Response::new(());
        let rc = c.parse(b).map_err(|e| e.is_partial());
        check(ra == rc && a.is_partial() == c.is_partial(), "parse and parse_buffer agree");
        let mut bin = Binary::from(b.to_vec());
        let mut d = Response::new(());
        let rd = d.parse_buffer(&mut bin).map_err(|e| e.is_partial());
        let mut bm = BinaryMut::from(&b[..]);
        let mut e = Response::new(());
        let re = e.parse_buffer(&mut bm).map_err(|e| e.is_partial());
        check(ra == rd && ra == re, "every kind of buffer gives the same verdict");
        if let Ok(m) = ra {
            check(same_res(&a, &c) && same_res(&a, &d) && same_res(&a, &e), "every kind of buffer gives the same response");
            check(bin.remaining() == b.len() - m && bm.remaining() == b.len() - m && same(bin.chunk(), &b[m..]) && same(bm.chunk(), &b[m..]), "what follows the head stays in the buffer");
            cover("response");
        } else { cover("refused"); }
    }
}
/// an object used before, also for a head that failed or was longer, gives what a new one gives
fn h_p04_reuse() {
    const FIRST: &[&[u8]] = &[b"PUT http://u:p@h:81/x?y HTTP/1.0\r\nHost: z\r\nContent-Length: 3\r\nA: b\r\n\r\n", b"GET / HTTP/1.1\r\nA: 1\r\nB", b"OPTIONS * HTTP/1.1\r\nHost: q\r\n\r\n", b"\0", b"CONNECT h:1 HTTP/1.1\r\n\r\n"];
    const RFIRST: &[&[u8]] = &[b"HTTP/1.0 404 No\r\nA: b\r\nB: c\r\n\r\n", b"HTTP/1.1 500 X\r\nC: d\r\nE", b"\0", b"HTTP/1.1 204 \r\n\r\n", b"HTTP/2 9"];
    let f = shard() % 5;
    let h = head(if shard() < 5 { choose(4) } else { 4 + choose(3) });
    if shard() < 5 {
        let mut q = Request::new();
        let _ = q.parse_buffer(&mut &FIRST[f][..]);
        let r = q.parse_buffer(&mut h.b());
        let mut one = Request::new();
        let s = one.parse_buffer(&mut h.b());
        match (r, s) {
            (Ok(a), Ok(b)) => { check(a == b && same_req(&q, &one) && !q.is_partial(), "same request as from a new object"); cover("request"); }
            _ => check(false, "a whole head is accepted"),
        }
    } else {
        let mut q = Response::new(());
        let _ = q.parse_buffer(&mut &RFIRST[f][..]);
        let r = q.parse_buffer(&mut h.b());
        let mut one = Response::new(());
        let s = one.parse_buffer(&mut h.b());
        match (r, s) {
            (Ok(a), Ok(b)) => { check(a == b && same_res(&q, &one) && !q.is_partial(), "same response as from a new object"); cover("response"); }
            _ => check(false, "a whole head is accepted"),
        }
    }
}
/// long heads and heads of many fields, cut at their boundaries and around powers of two
fn h_p04_long() {
    let (kind, n) = (shard() % 6, [63usize, 300, 1100, 8200][shard() / 6]);
    let mut h: Vec<u8> = vec![];
    let v = long(n, b'v', is_alnum);
    match kind {
        0 => { h.extend_from_slice(b"GET /"); h.extend_from_slice(&v); h.extend_from_slice(b" HTTP/1.1\r\nA: b\r\n\r\n"); }
        1 => { h.extend_from_slice(b"GET /?"); h.extend_from_slice(&v); h.extend_from_slice(b" HTTP/1.1\r\nA: b\r\n\r\n"); }
        2 => { h.extend_from_slice(b"GET / HTTP/1.1\r\nA: "); h.extend_from_slice(&v); h.extend_from_slice(b"\r\nB: c\r\n\r\n"); }
        3 => { h.extend_from_slice(b"HTTP/1.1 200 "); h.extend_from_slice(&v); h.extend_from_slice(b"\r\nB: c\r\n\r\n"); }
        4 => { h.extend_from_slice(b"HTTP/1.1 200 OK\r\nA: "); h.extend_from_slice(&v); h.extend_from_slice(b"\r\nB: c\r\n\r\n"); }
        _ => {
            h.extend_from_slice(b"GET / HTTP/1.1\r\n");
            let mut i = 0;
            while i < (n / 8).min(260) { h.extend_from_slice(format!("x-{}: ", i).as_bytes()); h.push(v[i * 8]); h.extend_from_slice(b"\r\n"); i += 1; }
            h.extend_from_slice(b"\r\n");
        }
    }
    let l = h.len();
    let cuts = [1, 4, 16, 20, 32, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, l / 2, l - n.min(l) / 2, l - 9, l - 5, l - 4, l - 3, l - 2, l - 1];
    let cut = cuts[choose(28)];
    if cut >= l { return cover("beyond"); }
    let mut part = &h[..cut];
    let mut all = &h[..];
    let mut whole = &h[..];
    if kind == 3 || kind == 4 {
        let (mut q, mut one) = (Response::new(()), Response::new(()));
        check(q.parse_buffer(&mut part).err().map_or(false, |e| e.is_partial()) && q.is_partial(), "a long head cut off asks for more");
        check(q.parse_buffer(&mut all).ok() == Some(l) && one.parse_buffer(&mut whole).ok() == Some(l), "the whole head is accepted after a partial attempt");
        check(same_res(&q, &one) && !q.is_partial(), "same response as parsing in one shot");
        cover("response");
    } else {
        let (mut q, mut one) = (Request::new(), Request::new());
        check(q.parse_buffer(&mut part).err().map_or(false, |e| e.is_partial()) && q.is_partial(), "a long head cut off asks for more");
        check(q.parse_buffer(&mut all).ok() == Some(l) && one.parse_buffer(&mut whole).ok() == Some(l), "the whole head is accepted after a partial attempt");
        check(same_req(&q, &one) && !q.is_partial(), "same request as parsing in one shot");
        cover("request");
    }
}
}
