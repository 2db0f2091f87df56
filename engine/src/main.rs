//! llsym — exhaustive symbolic execution of LLVM IR within the bounds that a
//! harness states.  usage: llsym FILE.ll HARNESS [--shard N] [--seed N]
//! [--time SECS] [--steps N] [--samples N] [--maxviol N] [--xcheck]
//! [--dump DIR] [--filter PATH] [--qtime MS]   → one JSON object on stdout
mod exec;
mod expr;
mod ll;
mod z3;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: llsym FILE.ll HARNESS [options]");
        return 2;
    }
    let opt = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() };
    let num = |k: &str, d: u64| -> u64 { opt(k).and_then(|v| v.parse().ok()).unwrap_or(d) };
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&a[1]).expect("read IR");
    let m = ll::Module::parse(text);
    let mut z = z3::Z3::new(num("--qtime", 120_000) as u32);
    z.dump = opt("--dump");
    let mut e = exec::Engine::new(m, z);
    e.shard = num("--shard", 0);
    e.tier = num("--tier", 0);
    e.seed(num("--seed", 1));
    e.max_steps = num("--steps", 20_000_000);
    e.nsamples = num("--samples", 64) as usize;
    e.max_viol = num("--maxviol", 3) as usize;
    e.xcheck = a.iter().any(|x| x == "--xcheck");
    e.deadline = t0 + std::time::Duration::from_secs(num("--time", 100_000));
    let filter = opt("--filter").unwrap_or("/repo/src/".into());
    let tparse = t0.elapsed().as_secs_f64();
    if let Err(s) = e.run(&a[2]) {
        e.error = Some(s);
    }
    let (funcs, lines) = e.coverage(&filter);
    let s = &e.stats;
    let status = if e.error.is_some() {
        "error"
    } else if !e.violations.is_empty() {
        "violation"
    } else if e.timed_out {
        "timeout"
    } else {
        "ok"
    };
    let mut o = String::new();
    o.push_str(&format!("{{\"harness\":{},\"shard\":{},\"status\":\"{}\"", js(&a[2]), e.shard, status));
    o.push_str(&format!(",\"error\":{}", e.error.as_ref().map(|x| js(x)).unwrap_or("null".into())));
    o.push_str(&format!(",\"wall\":{:.3},\"parse\":{:.3}", t0.elapsed().as_secs_f64(), tparse));
    o.push_str(&format!(
        ",\"paths\":{},\"completed\":{},\"assume_pruned\":{},\"forks\":{},\"instrs\":{},\"max_path_instrs\":{},\"concretizations\":{}",
        s.paths, s.completed, s.assume_pruned, s.forks, s.instrs, s.max_steps, s.concretizations
    ));
    o.push_str(&format!(
        ",\"asserts\":{},\"asserts_symbolic\":{},\"asserts_const\":{},\"finite_domain_decisions\":{},\"model_decisions\":{},\"query_cache_hits\":{},\"cross_checks\":{},\"path_checks\":{}",
        s.asserts, s.asserts_symbolic, s.asserts_const, s.dom_decided, s.model_decided, s.cache_hits, s.xchecks, s.path_checks
    ));
    o.push_str(&format!(
        ",\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_seconds\":{:.3},\"z3_max_seconds\":{:.3},\"z3_version\":{}",
        e.z.queries, e.z.sat, e.z.unsat, e.z.time, e.z.max_time, js(&z3::Z3::version())
    ));
    o.push_str(",\"violations\":[");
    for (i, v) in e.violations.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let st: Vec<String> = v.stack.iter().take(12).map(|x| js(x)).collect();
        o.push_str(&format!(
            "{{\"kind\":{},\"msg\":{},\"input\":\"{}\",\"stack\":[{}]}}",
            js(&v.kind), js(&v.msg), hex(&v.input), st.join(",")
        ));
    }
    o.push_str("],\"covers\":[");
    o.push_str(&e.covers.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push_str("],\"assert_counts\":{");
    o.push_str(&e.assert_msgs.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(
        &e.samples
            .iter()
            .map(|x| format!("{{\"input\":\"{}\",\"obs\":[{}]}}", hex(&x.input), x.obs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"functions\":[");
    o.push_str(&funcs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push_str("],\"lines\":{");
    o.push_str(
        &lines
            .iter()
            .map(|(k, v)| format!("{}:[{}]", js(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("}}");
    println!("{}", o);
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}

fn main() {
    let r = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join();
    std::process::exit(r.unwrap_or(2));
}
