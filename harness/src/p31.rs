//! P31: stream numbers, frame weights, promised requests.
use crate::gen::*;
use crate::sym::{self, *};
use algorithm::buf::Binary;
use std::collections::BinaryHeap;
use webparse::http2::frame::*;
use webparse::*;

harnesses! {
/// the numbers an endpoint hands out
fn h_p31_next() {
    let client = sym::bool();
    let mut g = if client { StreamIdentifier::client_first() } else { StreamIdentifier::server_first() };
    let mut last = 0;
    let mut i = 0;
    while i < 300 {
        let id = g.next_id().0;
        check(id > last && id & 1 == client as u32, "odd for a client, even for a server, increasing");
        check(id == 2 * i + 2 - client as u32, "no number is left out");
        last = id;
        i += 1;
    }
    // from any number on
    let x = sym::u32();
    assume(x < (1 << 31) - 2);
    let mut g = StreamIdentifier::from(x);
    let (a, b) = (g.next_id(), g.next_id());
    check(a.0 == x && b.0 == x + 2 && a < b && b > a && a != b && a.is_zero() == (x == 0), "the next number of the same side");
    check(StreamIdentifier::zero().is_zero(), "zero");
    cover("next");
}
/// order and wire form of stream numbers
fn h_p31_order() {
    let (a, b) = (sym::u32(), sym::u32());
    let (x, y) = (StreamIdentifier(a), StreamIdentifier(b));
    check(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "stream numbers compare as numbers");
    check((x == y) == (a == b) && (x < y) == (a < b) && (x >= y) == (a >= b), "stream numbers compare as numbers");
    check(x.max(y).0 == if a < b { b } else { a }, "the larger one");
    let mut o: Buf<16> = Buf::new();
    assume(a < 1 << 31);
    let n = x.encode(&mut o).unwrap_or(0);
    check(n == 4 && same(o.all(), &a.to_be_bytes()), "four octets, most significant first");
    let reserved = sym::bool();
    let w = (a | if reserved { 1 << 31 } else { 0 }).to_be_bytes();
    check(StreamIdentifier::parse(&mut &w[..]).0 == a, "the reserved bit is ignored");
    cover("order");
}
/// frames queued by weight: a heap gives them back heaviest first, each once
fn h_p31_queue() {
    let n = 2 + shard();
    let mut h: BinaryHeap<PriorityFrame<Binary>> = BinaryHeap::new();
    let mut w = [0u8; 6];
    let mut i = 0;
    while i < n {
        w[i] = sym::u8();
        let mut f = PriorityFrame::new(Frame::WindowUpdate(WindowUpdate::new(StreamIdentifier(i as u32 + 1), 1)), if i == 0 { 9 } else { w[i] });
        if i == 0 { f.set_weight(w[0]); }
        check(f.weight() == w[i], "the weight that was set");
        h.push(f);
        i += 1;
    }
    let mut seen = [false; 6];
    let mut last = 255;
    let mut k = 0;
    while let Some(f) = h.pop() {
        let id = concretize(f.frame.stream_id().0 as u64) as usize;
        check(id >= 1 && id <= n && !seen[id - 1], "each frame once");
        if id < 1 || id > n { return; }
        seen[id - 1] = true;
        check(f.weight() == w[id - 1] && f.weight() <= last, "heaviest first");
        last = f.weight();
        k += 1;
    }
    check(k == n, "every frame");
    cover("queue");
}
/// order of two weighted frames of different kinds
fn h_p31_weights() {
    let (a, b) = (sym::u8(), sym::u8());
    let mk = |k: usize| -> Frame<Binary> {
        match k {
            0 => Frame::Ping(Ping::new([1; 8])),
            1 => Frame::Settings(Settings::default()),
            2 => Frame::Reset(Reset::new(StreamIdentifier(3), Reason::from(8))),
            _ => Frame::Data(Data::new(FrameHeader::new(Kind::Data, Flag::end_stream(), StreamIdentifier(5)), Binary::new())),
        }
    };
    let (x, y) = (PriorityFrame::new(mk(shard()), a), PriorityFrame::new(mk(choose(4)), b));
    check(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "weighted frames compare by weight");
    check((x == y) == (a == b) && (x < y) == (a < b), "weighted frames compare by weight");
    cover("weights");
}
/// a promised request is safe, cacheable and has no body
fn h_p31_promise() {
    const METHODS: [(&str, bool); 9] = [("GET", true), ("HEAD", true), ("POST", false), ("PUT", false), ("DELETE", false), ("OPTIONS", false), ("PATCH", false), ("TRACE", false), ("CONNECT", false)];
    let (m, ok) = METHODS[choose(9)];
    let mut q = Request::new();
    q.set_method(match m.parse::<Method>() { Ok(m) => m, Err(_) => { check(false, "a method"); return; } });
    q.url_mut().path = "/s.css".to_string();
    let mut len = 0u32;
    if sym::bool() {
        let d: Str<8> = sym_str(1 + choose(3), |b| b.is_ascii_digit());
        for b in d.b() { len = len * 10 + (*b - b'0') as u32; }
        q.headers_mut().insert(pick(&["content-length", "Content-Length"]), hv(d.b()));
    }
    let r = PushPromise::validate_request(&q);
    check(r.is_ok() == (ok && len == 0), "a promised request is safe and cacheable and has no body");
    if r.is_ok() { cover("promised"); } else { cover("refused"); }
}
}
