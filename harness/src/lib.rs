//! Monitored workloads over the `trees` crate, and the command line that runs them.
#![allow(clippy::all)]

pub use trees;
#[macro_use]
pub mod ctx;
pub mod alloc;
pub mod bfs;
pub mod borrows;
pub mod deep;
pub mod diff;
pub mod faults;
pub mod findings;
pub mod huge;
pub mod iters;
pub mod model;
pub mod owned;
pub mod payload;
pub mod reentry;
pub mod rng;
pub mod shared;
pub mod snap;
pub mod store;
pub mod suites;
pub mod threads;
pub mod values;
pub mod tuples;
pub mod walks;

#[global_allocator]
static A: alloc::Mon = alloc::Mon;

use ctx::*;
use std::sync::atomic::Ordering::*;

fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() { if a == name { return it.next(); } }
    None
}

struct Progress { f: Option<std::fs::File> }
impl Progress {
    fn note(&mut self, case: u64) {
        if let Some(f) = self.f.as_mut() {
            use std::io::{Seek, SeekFrom, Write};
            let _ = f.seek(SeekFrom::Start(0));
            let _ = write!(f, "{case:<20}");
        } else if VERBOSE.load(Relaxed) { eprintln!("CASE {case}"); }
    }
}

/// Runs the cases asked for on the command line.
pub fn run(all: &[&[suites::Suite]]) {
    let suite = arg("--suite").expect("--suite");
    let from: u64 = arg("--from").map_or(0, |s| s.parse().unwrap());
    let to: u64 = arg("--to").map_or(1, |s| s.parse().unwrap());
    let step: u64 = arg("--step").map_or(1, |s| s.parse().unwrap());
    let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
    let thorough = arg("--tier").map_or(false, |s| s == "thorough");
    let small = std::env::args().any(|a| a == "--small") || cfg!(miri);
    let trace = std::env::args().any(|a| a == "--trace");
    let dump = std::env::args().any(|a| a == "--dump");
    let leaks = !std::env::args().any(|a| a == "--no-leaks");
    let budget: f64 = arg("--budget").map_or(1e9, |s| s.parse().unwrap());
    if std::env::args().any(|a| a == "--verbose") { VERBOSE.store(true, Relaxed); }
    let s = all.iter().flat_map(|x| x.iter()).find(|x| x.name == suite).unwrap_or_else(|| { eprintln!("no suite {suite}"); std::process::exit(2) });
    install_hook();
    let limit: u64 = arg("--hang").map_or(30, |s| s.parse().unwrap());
    start_watchdog(limit);
    let mut prog = Progress { f: arg("--progress").map(|p| std::fs::File::create(p).unwrap()) };
    let mut cx = Ctx::new(s.name, seed, thorough, small);
    let t0 = std::time::Instant::now();
    let mut case = from;
    let mut n = 0u64;
    let mut full = false;
    let mut logs: Vec<(u64, u64, u64)> = vec![];
    alloc::untracked(|| { logs.reserve(1024); });
    while case < to {
        CASE.store(case, Relaxed);
        SUB.store(0, Relaxed);
        prog.note(case);
        set_tracing(trace || n < 8);
        payload::reset();
        cx.start(case, rng::Choice::seeded(&[seed, case, hash_name(s.seed_name())]));
        if s.logged { cx.log = Some(Log { hash: 0, lines: if dump { Some(vec![]) } else { None }, n: 0 }); }
        let before = (alloc::live(), alloc::live_bytes());
        (s.run)(&mut cx);
        payload::disarm();
        set_kind("oracle");
        let after = (alloc::live(), alloc::live_bytes());
        if s.leaks && leaks {
            if before != after { violation("leak", &format!("{} blocks ({} bytes) allocated during the case were never freed", after.0 - before.0, after.1 - before.1)); }
            if payload::live() != 0 { violation("leak", &format!("items never dropped: {:?}", payload::live_ids())); }
            if payload::ZST_LIVE.load(SeqCst) != 0 { violation("leak", "zero-sized items never dropped"); }
        }
        if let Some(l) = cx.log.take() {
            alloc::untracked(|| {
                logs.push((case, l.hash, l.n));
                if let Some(v) = l.lines { for x in v { println!("OBS {x}"); } }
            });
        }
        n += 1;
        if n % 64 == 0 { alloc::verify_quarantine(); }
        case += step;
        if t0.elapsed().as_secs_f64() > budget { break; }
        // a refused stream may keep what was built so far: leave the rest to a fresh process
        if n % 64 == 0 && resident_mb() > 1200 { full = true; break; }
    }
    alloc::verify_quarantine();
    for (c, h, k) in &logs { println!("LOG {c} {h:016x} {k}"); }
    let st = &cx.stats;
    let mut o = String::new();
    o.push_str(&format!("{{\"suite\":{},\"from\":{from},\"next\":{case},\"cases\":{n},\"evals\":{},\"distinct\":{},\"counters\":{{", json_str(s.name), st.evals, st.nontrivial.len()));
    o.push_str(&st.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(&st.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    o.push_str(&format!("],\"allocations\":{},\"quarantine_checked\":{},\"full\":{full},\"wall\":{:.3}}}", alloc::TOTAL.load(Relaxed), alloc::QUARANTINED.load(Relaxed), t0.elapsed().as_secs_f64()));
    println!("STATS {o}");
    // signatures, so that the driver can count distinct cases over all workers
    if let Some(p) = arg("--sigs") {
        let mut b = Vec::with_capacity(st.nontrivial.len() * 8);
        for s in &st.nontrivial { b.extend_from_slice(&s.to_le_bytes()); }
        let _ = std::fs::write(p, b);
    }
}

fn hash_name(s: &str) -> u64 { s.bytes().fold(7, |h, b| rng::mix(h ^ b as u64)) }

fn resident_mb() -> u64 {
    if cfg!(miri) { return 0; }
    let s = alloc::untracked(|| std::fs::read_to_string("/proc/self/statm").unwrap_or_default().split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()));
    s.unwrap_or(0) * 4 / 1024
}
