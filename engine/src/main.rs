//! symex: explores one harness entry of an LLVM IR module symbolically and writes a JSON report.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn js(s: &str) -> String { let mut r = String::from("\""); for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(r, "\\u{:04x}", c as u32); } c => r.push(c) } } r.push('"'); r }

fn main() {
    // the engine recurses over deep expressions
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let mut a = std::env::args().skip(1);
    let (mut ll, mut entry, mut out, mut jobs) = (String::new(), String::new(), String::new(), String::new());
    let (mut case, mut time, mut maxi, mut prof, mut stms) = (0u64, 600f64, 200_000_000u64, false, 20_000u64);
    while let Some(k) = a.next() {
        if k == "--profile" { prof = true; continue }
        let v = a.next().expect("value");
        match k.as_str() { "--ll" => ll = v, "--entry" => entry = v, "--case" => case = v.parse().unwrap(), "--out" => out = v, "--time" => time = v.parse().unwrap(), "--max-instr" => maxi = v.parse().unwrap(), "--solver-ms" => stms = v.parse().unwrap(), "--jobs" => jobs = v, _ => panic!("unknown option {}", k) }
    }
    let m = ir::Module::load(&ll);
    if jobs.is_empty() {
        let r = job(&m, &entry, case, time, maxi, stms, prof);
        if out.is_empty() { println!("{}", r) } else { std::fs::write(&out, r + "\n").unwrap() }
        return 0;
    }
    // server mode: read "entry case time maxinstr" lines, answer one JSON line each
    use std::io::{BufRead, Write};
    let si = std::io::stdin();
    for l in si.lock().lines() {
        let l = l.unwrap();
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() < 4 { continue }
        let r = job(&m, p[0], p[1].parse().unwrap(), p[2].parse().unwrap(), p[3].parse().unwrap(), stms, false);
        println!("{}", r);
        std::io::stdout().flush().unwrap();
    }
    0
}

fn job(m: &ir::Module, entry: &str, case: u64, time: f64, maxi: u64, stms: u64, prof: bool) -> String {
    let t0 = Instant::now();
    let mut e = exec::Engine::new(m, stms);
    e.max_instr = maxi;
    e.deadline = Some(t0 + Duration::from_secs_f64(time));
    e.do_profile = prof;
    let r = e.run(entry, case);
    let (status, msg) = match &r { exec::Outcome::Complete => ("complete", String::new()), exec::Outcome::Timeout => ("timeout", String::new()), exec::Outcome::Error(x) => ("error", x.clone()) };
    let mut o = String::from("{");
    let s = &e.stats;
    let _ = write!(o, "\"entry\":{},\"case\":{},\"status\":\"{}\",\"message\":{},\"wall\":{:.3},", js(entry), case, status, js(&msg), t0.elapsed().as_secs_f64());
    let _ = write!(o, "\"paths\":{},\"assumed_away\":{},\"forks\":{},\"branches\":{},\"instructions\":{},\"byte_domain_decisions\":{},\"asserts\":{},\"asserts_symbolic\":{},\"asserts_true_by_construction\":{},\"max_depth\":{},\"max_symbols\":{},", s.paths, s.assumed, s.forks, s.branches, s.instrs, s.dom_decisions, s.asserts, s.asserts_sym, s.asserts_trivial, s.max_depth, s.max_syms);
    let _ = write!(o, "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"query_cache_hits\":{},\"solver_seconds\":{:.3},\"exprs\":{},", e.s.queries, e.s.sat, e.s.unsat, e.s.unknown, e.s.cache_hits, e.s.time, e.x.nodes.len());
    let _ = write!(o, "\"ends\":{{{}}},", e.ends.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"asserted\":{{{}}},", e.asserted.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"reached\":{{{}}},", e.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"violations\":[{}],", e.violations.values().map(|v| format!("{{\"kind\":{},\"id\":{},\"n\":{},\"model\":\"{}\"}}", js(&v.kind), js(&v.id), v.n, hex(&v.model))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"undecided\":[{}],", e.undecided.values().map(|v| format!("{{\"what\":{},\"n\":{},\"model\":\"{}\"}}", js(&v.id), v.n, hex(&v.model))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", e.samples.iter().map(|p| format!("{{\"model\":\"{}\",\"log\":[{}]}}", hex(&p.model), p.log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let mut used: Vec<&str> = e.used.iter().enumerate().filter(|x| *x.1).map(|(k, _)| m.funcs[k].name.as_str()).collect();
    used.sort();
    let _ = write!(o, "\"functions\":[{}]", used.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push('}');
    if prof {
        let mut v: Vec<_> = e.funcprof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(30) { eprintln!("{:>12} {}", n, m.funcs[**k].name) }
        let mut v: Vec<_> = e.profile.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((k, b), n) in v.iter().take(30) { eprintln!("fork {:>8} {} block {}", n, m.funcs[*k].name, b) }
    }
    o
}
