//! Runs harness entries natively on concrete bytes: replay of counterexamples and validation of the engine.
use std::cell::RefCell;
use std::io::BufRead;
use vharness::*;

thread_local! { static S: RefCell<(Vec<u8>, usize, Vec<u64>)> = const { RefCell::new((Vec::new(), 0, Vec::new())) }; }
struct Stop(String);
fn stop(m: String) -> ! { std::panic::panic_any(Stop(m)) }
fn next() -> u8 { S.with(|s| { let mut s = s.borrow_mut(); let i = s.1; s.1 += 1; if i >= s.0.len() { drop(s); stop("MODEL-EXHAUSTED".into()) } s.0[i] }) }

#[no_mangle] pub unsafe extern "C-unwind" fn vs_sym(p: *mut u8, n: usize, set: *const u64) { for i in 0..n { let b = next(); if *set.add((b >> 6) as usize) >> (b & 63) & 1 == 0 { stop("MODEL-OUT-OF-DOMAIN".into()) } *p.add(i) = b } }
#[no_mangle] pub extern "C-unwind" fn vs_choose(n: u64) -> u64 { if n == 0 { stop("ASSUME".into()) } let b = next() as u64; if b >= n { stop("MODEL-OUT-OF-DOMAIN".into()) } b }
#[no_mangle] pub extern "C-unwind" fn vs_conc(n: u64) -> u64 { n }
#[no_mangle] pub extern "C-unwind" fn vs_assume(b: bool) { if !b { stop("ASSUME".into()) } }
unsafe fn msg(m: *const u8, l: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(m, l)).into_owned() }
#[no_mangle] pub unsafe extern "C-unwind" fn vs_assert(b: bool, _id: u64, m: *const u8, l: usize) { if !b { stop(format!("FAILED {}", msg(m, l))) } }
#[no_mangle] pub unsafe extern "C-unwind" fn vs_fail(_id: u64, m: *const u8, l: usize) -> ! { stop(format!("FAILED {}", msg(m, l))) }
#[no_mangle] pub extern "C-unwind" fn vs_reach(_id: u64, _m: *const u8, _l: usize) {}
#[no_mangle] pub extern "C-unwind" fn vs_log(v: u64) { S.with(|s| s.borrow_mut().2.push(v)) }

fn scratch() -> String { std::env::temp_dir().join(format!("folia-verif-replay-{}.xml", std::process::id())).to_string_lossy().into_owned() }
#[no_mangle] pub unsafe extern "C-unwind" fn vs_file(p: *const u8, n: usize, path: *mut u8, max: usize) -> usize {
    let f = scratch();
    std::fs::write(&f, std::slice::from_raw_parts(p, n)).expect("scratch file");
    assert!(f.len() <= max);
    std::ptr::copy_nonoverlapping(f.as_ptr(), path, f.len());
    f.len()
}

fn find(name: &str) -> Option<&'static H> { REGISTRY.iter().flat_map(|x| x.iter()).find(|h| h.name == name) }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn js(s: &str) -> String { let mut r = String::from("\""); for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)), c => r.push(c) } } r.push('"'); r }

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
/// outcome and log
fn run(h: &'static H, case: u64, model: Vec<u8>) -> (String, Vec<u64>) {
    S.with(|s| *s.borrow_mut() = (model, 0, vec![]));
    let r = std::panic::catch_unwind(|| (h.g)(case));
    let _ = std::fs::remove_file(scratch());
    let out = match r {
        Ok(()) => { if S.with(|s| { let s = s.borrow(); s.1 == s.0.len() }) { "OK".to_string() } else { "MODEL-LEFT-OVER".to_string() } }
        Err(p) => match p.downcast_ref::<Stop>() { Some(s) => s.0.clone(), None => LAST.with(|l| l.borrow().clone()) },
    };
    (out, S.with(|s| s.borrow().2.clone()))
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("PANIC {} at {}", m.replace('\n', " "), l));
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("--list") => {
            println!("[");
            let all: Vec<&H> = REGISTRY.iter().flat_map(|x| x.iter()).collect();
            for (i, h) in all.iter().enumerate() {
                let rg = |v: &[(u64, u64)]| format!("[{}]", v.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","));
                println!("{{\"name\":{},\"prop\":{},\"quick\":{},\"thorough\":{},\"bounds\":{},\"reach\":{{{}}}}}{}", js(h.name), js(h.prop), rg(h.quick), rg(h.thorough), js(h.bounds),
                    h.reach.iter().map(|r| format!("{}:\"{}\"", js(r), sup::fnv(r))).collect::<Vec<_>>().join(","), if i + 1 < all.len() { "," } else { "" });
            }
            println!("]");
        }
        Some("--batch") => {
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let p: Vec<&str> = l.split(' ').collect();
                let (o, log) = match find(p[0]) { Some(h) => run(h, p[1].parse().unwrap(), unhex(p[2])), None => ("NO-SUCH-ENTRY".into(), vec![]) };
                println!("{}\t{}", o.replace('\t', " "), log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            }
        }
        Some(e) => {
            let h = find(e).expect("entry");
            let (o, log) = run(h, a[1].parse().unwrap(), unhex(a.get(2).map(|s| s.as_str()).unwrap_or("")));
            println!("{}", o);
            println!("log {:?}", log);
            std::process::exit(if o == "OK" { 0 } else { 1 });
        }
        None => { eprintln!("usage: replay ENTRY CASE MODELHEX | --list | --batch"); std::process::exit(2) }
    }
}
