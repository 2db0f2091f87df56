//! P09: chunked coding.
use crate::gen::*;
use crate::sym::*;
use webparse::*;

fn ishex(b: u8) -> bool { matches!(b, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F') }
fn hexv(b: u8) -> u64 { (match b { b'0'..=b'9' => b - b'0', b'a'..=b'f' => b - b'a' + 10, _ => b.wrapping_sub(b'A').wrapping_add(10) }) as u64 }

harnesses! {
/// a chunk of n arbitrary bytes is written as length, data, line ends and read back whole
fn h_p09_round() {
    let n = [0usize, 1, 2, 9, 10, 15, 16, 17, 31, 255, 256, 257][shard()];
    let mut data = [0u8; 300];
    let m = if n < 4 { n } else { 4 };
    bytes(&mut data[..m]);
    let mut out = Buf::<400>::new();
    let size = match Helper::encode_chunk_data(&mut out, &data[..n]) { Ok(s) => s, Err(_) => { check(false, "encodes"); return; } };
    check(size == out.all().len(), "reported size is what was written");
    let tail: [u8; 2] = arr();
    let nt = choose(3);
    let mut all = Buf::<400>::from(out.all());
    use algorithm::buf::BtMut;
    all.put_slice(&tail[..nt]);
    match Helper::parse_chunk_data(&mut all.all()) {
        Ok((h, k)) => {
            check(k == n, "chunk length");
            check(h + k + 2 == size, "header length");
            check(same(&all.all()[h..h + k], &data[..n]), "chunk bytes");
            check(same(&all.all()[h + k..h + k + 2], b"\r\n"), "line end after the data");
            cover("round");
        }
        Err(_) => check(false, "an encoded chunk parses"),
    }
    // any proper prefix asks for more
    let cut = if n < 20 { choose(out.all().len() as u8) } else { out.all().len() - 1 - choose(3) };
    match Helper::parse_chunk_data(&mut &out.all()[..cut]) {
        Ok(_) => check(false, "a cut-off chunk is not a chunk"),
        Err(e) => { check(e.is_partial(), "a cut-off chunk asks for more"); cover("cut"); }
    }
}
/// large chunks, symbolic octets at both ends and in the middle
fn h_p09_large() {
    let n = [511usize, 512, 1000, 4095, 4096, 16384, 65535, 65536, 69632, 1 << 20][shard()];
    let mut data = vec![b'x'; n];
    bytes(&mut data[..2]);
    bytes(&mut data[n / 2..n / 2 + 1]);
    bytes(&mut data[n - 2..]);
    let mut out = algorithm::buf::BinaryMut::with_capacity(n + 20);
    let size = match Helper::encode_chunk_data(&mut out, &data) { Ok(s) => s, Err(_) => { check(false, "encodes"); return; } };
    use algorithm::buf::Bt;
    let all = out.chunk();
    check(size == all.len(), "reported size is what was written");
    match Helper::parse_chunk_data(&mut &all[..]) {
        Ok((h, k)) => {
            check(k == n, "chunk length");
            check(h + k + 2 == size, "header length");
            check(same(&all[h..h + k], &data), "chunk bytes");
            check(same(&all[h + k..h + k + 2], b"\r\n"), "line end after the data");
            cover("round");
        }
        Err(_) => check(false, "an encoded chunk parses"),
    }
    let cut = if bool() { choose(7) } else { size - 1 - choose(4) };
    match Helper::parse_chunk_data(&mut &all[..cut]) {
        Ok(_) => check(false, "a cut-off chunk is not a chunk"),
        Err(e) => { check(e.is_partial(), "a cut-off chunk asks for more"); cover("cut"); }
    }
}
/// a body of up to three chunks and the end mark, decoded one after another
fn h_p09_stream() {
    let k = shard();
    let data: [u8; 20] = arr();
    let mut out = Buf::<200>::new();
    let (mut at, mut sizes) = (0, [0usize; 4]);
    for i in 0..k {
        let n = [1usize, 3, 16][choose(3)];
        let n = if at + n > 20 { 1 } else { n };
        sizes[i] = n;
        check(Helper::encode_chunk_data(&mut out, &data[at..at + n]).is_ok(), "encodes");
        at += n;
    }
    check(Helper::encode_chunk_data(&mut out, &[]).is_ok(), "encodes the end mark");
    let all = out.all();
    let (mut pos, mut got) = (0, 0);
    for i in 0..k + 1 {
        match Helper::parse_chunk_data(&mut &all[pos..]) {
            Ok((h, n)) => {
                check(n == sizes[i], "length of a chunk of the stream");
                check(same(&all[pos + h..pos + h + n], &data[got..got + n]), "data of a chunk of the stream");
                pos += h + n + 2;
                got += n;
            }
            Err(_) => { check(false, "a chunk of the stream parses"); return }
        }
    }
    check(pos == all.len() && got == at, "every octet of the stream is consumed once");
    cover("stream");
}
/// arbitrary bytes
fn h_p09_any() {
    let n = shard();
    let b: [u8; 24] = arr();
    let b = &b[..n];
    let mut i = 0;
    let mut v = 0u128;
    while i < n && ishex(b[i]) { v = v * 16 + hexv(b[i]) as u128; i += 1; }
    let r = Helper::parse_chunk_data(&mut &b[..]);
    match &r { Ok((h, k)) => { observe(*h as u64); observe(*k as u64); } Err(e) => observe(e.is_partial() as u64) }
    match r {
        Ok((h, k)) => {
            check(k as u128 == v && i > 0, "the length is the hexadecimal number");
            let le = if b[i] == b'\n' { 1 } else { 2 };
            check(b[i] == b'\n' || (b[i] == b'\r' && b[i + 1] == b'\n'), "a line end follows the length");
            check(h == i + le, "header length");
            check(h + k + 2 <= n, "the data and its line end are present");
            cover("ok");
        }
        Err(e) => {
            // a decision of this kind must be right about whether more bytes could help
            let ended = i < n;
            if e.is_partial() {
                let bad = i == 0 && ended || ended && b[i] != b'\n' && b[i] != b'\r' || ended && b[i] == b'\r' && i + 1 < n && b[i + 1] != b'\n';
                check(!bad, "malformed length asks for more");
                cover("partial");
            } else {
                let fine = i > 0 && v <= u64::MAX as u128 && (!ended || b[i] == b'\n' || b[i] == b'\r' && (i + 1 == n || b[i + 1] == b'\n'));
                check(!fine, "a well-formed length is not an error");
                cover("error");
            }
        }
    }
}
/// lengths that do not fit a machine word
fn h_p09_big() {
    let n = 15 + shard();
    let mut s: Str<40> = Str::new();
    s.put(b"f");
    let mut i = 1;
    while i < n { s.put(b"f"); i += 1; }
    let mut d = s;
    bytes(&mut d.d[..1]);
    bytes(&mut d.d[n - 1..n]);
    assume(ishex(d.d[0]) && ishex(d.d[n - 1]));
    d.put(b"\r\nab\r\n");
    match Helper::parse_chunk_data(&mut d.b()) {
        Ok((h, k)) => { check(h + k + 2 <= d.n, "the data is present"); check(false, "a length beyond the data is not a complete chunk"); }
        Err(e) => { observe(e.is_partial() as u64); check(e.is_partial() == (n <= 16 || n == 17 && d.d[0] == b'0'), "too long for the machine is an error, otherwise more is needed"); cover("big"); }
    }
}
}
