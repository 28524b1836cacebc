//! Concrete executions of the code in /repo against independent oracles.
//!
//! `harness <property> [--seed N] [--secs N] [--only CASE] [--known FILE]`
//! prints one JSON object; exit 0 when the oracle agreed everywhere, 1 otherwise.

mod rng;
mod gen;
mod model;
mod c01;
mod c02;
mod c03;
mod c04;
mod c10;
mod c14;
mod c15;
mod c06;
mod c07;
mod c08;
mod c09;
mod c18;
mod c19;
mod c20;

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

use rng::Rng;

/// A disagreement between the code and the oracle.
#[derive(Clone, Debug)]
pub struct Fail {
    /// stable identification of what failed (matched against the known findings)
    pub key: String,
    pub what: String,
}
pub type Res = Result<(), Fail>;
#[macro_export]
macro_rules! fail {
    ($key:expr, $($arg:tt)*) => { return Err($crate::Fail { key: $key.to_string(), what: format!($($arg)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::Fail { key: $key.to_string(), what: format!($($arg)*) }) } };
}

thread_local! {
    /// Site of the last panic.
    pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    /// Counters of what the cases reached.
    pub static COVER: std::cell::RefCell<std::collections::BTreeMap<String, u64>> = const { std::cell::RefCell::new(std::collections::BTreeMap::new()) };
}
/// Description of the input the current case works on; printed when the case fails, panics or hangs.
pub static INPUT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub static CASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Samples of the inputs generated, for the evidence.
pub static SAMPLES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
pub fn input(s: impl Into<String>) { *INPUT.lock().unwrap() = s.into() }
pub static COVERED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn cover(s: impl Into<String>) { COVERED.store(true, std::sync::atomic::Ordering::Relaxed); COVER.with(|c| *c.borrow_mut().entry(s.into()).or_default() += 1) }
/// Runs code which must not panic; a panic becomes a failure with the given key.
pub fn no_panic<T>(key: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| Fail { key: key.to_string(), what: format!("panic at {}", PANIC.with(|p| p.borrow().clone())) })
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cut(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string() }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1 }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

fn main() {
    // big stack: the code under test recurses over nested types and values
    std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().unwrap();
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let secs: u64 = opt("--secs").map(|s| s.parse().unwrap()).unwrap_or(10);
    let max: u64 = opt("--cases").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    let only: Option<u64> = opt("--only").map(|s| s.parse().unwrap());
    let known: Vec<String> = opt("--known").map(|f| std::fs::read_to_string(f).unwrap().lines().map(|s| s.to_string()).collect()).unwrap_or_default();
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
    }));
    let f: fn(&mut Rng, u64) -> Res = match prop.as_str() {
        "C01" => c01::run,
        "C02" => c02::run,
        "C03" => c03::run,
        "C05" => c03::c05::run,
        "C10" => c10::run,
        "C11" => c10::c11::run,
        "C12" => c10::c12::run,
        "C13" => c10::c13::run,
        "C14" => c14::run,
        "C15" => c15::run,
        "C16" => c14::c16::run,
        "C17" => c03::c17::run,
        "C04" => c04::run,
        "C06" => c06::run,
        "C07" => c07::run,
        "C08" => c08::run,
        "C09" => c09::run,
        "C18" => c18::run,
        "C19" => c19::run,
        "C20" => c20::run,
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
    };
    let progress = opt("--progress").map(|f| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).unwrap());
    let hang: u64 = opt("--hang").map(|s| s.parse().unwrap()).unwrap_or(60);
    let pname = prop.clone();
    std::thread::spawn(move || {
        // processor time, as the machine may be busy with other work
        let cpu = || -> Option<u64> {
            let t = std::fs::read_to_string("/proc/self/stat").ok()?;
            let f: Vec<&str> = t.rsplit(')').next()?.split_whitespace().collect();
            Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) / 100)
        };
        let (mut last, mut since, mut used) = (u64::MAX, Instant::now(), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CASE.load(std::sync::atomic::Ordering::Relaxed);
            if c != last { last = c; since = Instant::now(); used = cpu().unwrap_or(0); continue }
            if since.elapsed().as_secs() >= hang && (cpu().map(|n| n - used >= hang).unwrap_or(true) || since.elapsed().as_secs() >= 4 * hang) {
                let inp = INPUT.try_lock().map(|i| i.clone()).unwrap_or_default();
                println!("{{\"property\":{},\"seed\":{seed},\"cases\":{c},\"secs\":0,\"cover\":{{}},\"samples\":[],\"failures\":[{{\"case\":{c},\"key\":\"hang\",\"what\":\"the case did not end within {hang} s of processor time\",\"input\":{}}}],\"known\":[]}}", esc(&pname), esc(&cut(&inp, 8000)));
                std::process::exit(1);
            }
        }
    });
    let t0 = Instant::now();
    let mut cases = 0u64;
    let mut fails: Vec<(u64, Fail, String)> = vec![];
    let mut knowns: std::collections::BTreeMap<String, (u64, String)> = Default::default();
    let mut seen: std::collections::BTreeSet<String> = Default::default();
    let mut case = only.unwrap_or(0);
    // distinct inputs that reached a counted shape (at most 2 million are kept)
    let mut distinct: std::collections::HashSet<u64> = Default::default();
    while cases < max && (t0.elapsed().as_secs() < secs || cases == 0) {
        let mut rng = Rng::new(seed, case);
        CASE.store(case + 1, std::sync::atomic::Ordering::Relaxed);
        if let Some(f) = &progress { std::os::unix::fs::FileExt::write_at(f, &case.to_le_bytes(), 0).unwrap(); }
        input("");
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, case)))
            .unwrap_or_else(|_| Err(Fail { key: "panic".into(), what: format!("panic at {}", PANIC.with(|p| p.borrow().clone())) }));
        cases += 1;
        if COVERED.swap(false, std::sync::atomic::Ordering::Relaxed) && distinct.len() < 2_000_000 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            INPUT.lock().unwrap().hash(&mut h);
            distinct.insert(h.finish());
        }
        if cases <= 40 && cases % 10 == 3 { let i = INPUT.lock().unwrap().clone(); if !i.is_empty() { SAMPLES.lock().unwrap().push(cut(&i, 300)) } }
        if let Err(fl) = r {
            let inp = INPUT.lock().unwrap().clone();
            if known.iter().any(|k| *k == fl.key) {
                knowns.entry(fl.key.clone()).or_insert((0, fl.what.clone())).0 += 1;
            } else if seen.insert(fl.key.clone()) {
                fails.push((case, fl, inp));
            }
        }
        if only.is_some() || fails.len() >= 5 { break }
        case += 1;
    }
    let fs: Vec<String> = fails.iter().map(|(c, f, i)| format!("{{\"case\":{c},\"key\":{},\"what\":{},\"input\":{}}}", esc(&f.key), esc(&cut(&f.what, 4000)), esc(&cut(i, 8000)))).collect();
    let ks: Vec<String> = knowns.iter().map(|(k, (n, w))| format!("{{\"key\":{},\"count\":{n},\"what\":{}}}", esc(k), esc(&cut(w, 600)))).collect();
    let cv: Vec<String> = COVER.with(|c| c.borrow().iter().map(|(k, n)| format!("{}:{n}", esc(k))).collect());
    println!("{{\"property\":{},\"seed\":{seed},\"cases\":{cases},\"distinct\":{},\"secs\":{:.2},\"cover\":{{{}}},\"samples\":[{}],\"failures\":[{}],\"known\":[{}]}}",
        esc(&prop), distinct.len(), t0.elapsed().as_secs_f64(), cv.join(","), SAMPLES.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), fs.join(","), ks.join(","));
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
