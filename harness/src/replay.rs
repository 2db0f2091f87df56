//! Runs one harness natively on concrete bytes.
//!   replay HARNESS SHARD TIER HEX       one run, one line of JSON
//!   replay HARNESS --batch FILE         one run per line "SHARD TIER HEX"
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 28 {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
            PEAK.fetch_max(n, SeqCst);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;

struct In {
    data: Vec<u8>,
    pos: usize,
    shard: u64,
    tier: u64,
    obs: Vec<u64>,
    base: usize,
}
thread_local! { static IN: RefCell<In> = RefCell::new(In { data: vec![], pos: 0, shard: 0, tier: 0, obs: vec![], base: 0 }); }

struct AssertFail(String);
struct AssumeFail;

#[no_mangle]
pub extern "C-unwind" fn sym_bytes(p: *mut u8, n: usize) {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        for k in 0..n {
            let b = i.data.get(i.pos + k).cloned().unwrap_or(0);
            unsafe { *p.add(k) = b };
        }
        i.pos += n;
    })
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(b: bool) {
    if !b {
        std::panic::resume_unwind(Box::new(AssumeFail));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_assert(b: bool, p: *const u8, n: usize) {
    if !b {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        std::panic::resume_unwind(Box::new(AssertFail(String::from_utf8_lossy(s).into_owned())));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_cover(_p: *const u8, _n: usize) {}
#[no_mangle]
pub extern "C-unwind" fn sym_observe(v: u64) {
    IN.with(|i| i.borrow_mut().obs.push(v))
}
#[no_mangle]
pub extern "C-unwind" fn sym_shard() -> u64 {
    IN.with(|i| i.borrow().shard)
}
#[no_mangle]
pub extern "C-unwind" fn sym_tier() -> u64 {
    IN.with(|i| i.borrow().tier)
}
#[no_mangle]
pub extern "C-unwind" fn sym_peak_alloc() -> u64 {
    IN.with(|i| (PEAK.load(SeqCst) - i.borrow().base) as u64)
}
#[no_mangle]
pub extern "C-unwind" fn sym_is_engine() -> bool {
    false
}
#[no_mangle]
pub extern "C-unwind" fn sym_concretize(v: u64) -> u64 {
    v
}

thread_local! { static LOC: RefCell<String> = RefCell::new(String::new()); }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push('.'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn run(f: extern "C-unwind" fn(), shard: u64, tier: u64, data: Vec<u8>) {
    LOC.with(|l| l.borrow_mut().clear());
    IN.with(|i| {
        *i.borrow_mut() = In { data, pos: 0, shard, tier, obs: Vec::with_capacity(4096), base: 0 };
        i.borrow_mut().base = LIVE.load(SeqCst);
    });
    PEAK.store(LIVE.load(SeqCst), SeqCst);
    let r = std::panic::catch_unwind(|| f());
    let (k, m) = match r {
        Ok(()) => ("ok", String::new()),
        Err(e) => {
            if let Some(a) = e.downcast_ref::<AssertFail>() {
                ("assert", a.0.clone())
            } else if e.downcast_ref::<AssumeFail>().is_some() {
                ("assume", String::new())
            } else {
                ("panic", LOC.with(|l| l.borrow().clone()))
            }
        }
    };
    let obs = IN.with(|i| i.borrow().obs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
    println!("{{\"r\":\"{}\",\"msg\":{},\"obs\":[{}]}}", k, js(&m), obs);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        LOC.with(|l| *l.borrow_mut() = s);
    }));
    let all = harness::all();
    let f = match all.iter().find(|x| x.0 == a[1]) {
        Some(f) => f.1,
        None => {
            eprintln!("no harness {}", a[1]);
            std::process::exit(2);
        }
    };
    if a[2] == "--batch" {
        for l in std::fs::read_to_string(&a[3]).unwrap().lines() {
            let p: Vec<&str> = l.split(' ').collect();
            run(f, p[0].parse().unwrap(), p[1].parse().unwrap(), unhex(p.get(2).unwrap_or(&"")));
        }
    } else {
        run(f, a[2].parse().unwrap(), a[3].parse().unwrap(), unhex(a.get(4).map(|x| x.as_str()).unwrap_or("")));
    }
}
