//! Per-case bookkeeping, violation reporting, expected panics, watchdog.

use crate::alloc::untracked;
use crate::rng::{mix, Choice};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}

pub static CASE: AtomicU64 = AtomicU64::new(0);
pub static SUB: AtomicU64 = AtomicU64::new(0);
pub static VERBOSE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static EXPECT: Cell<u32> = const { Cell::new(0) };
    static TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static TRACING: Cell<bool> = const { Cell::new(false) };
    static KIND: Cell<&'static str> = const { Cell::new("oracle") };
    static SUITE: Cell<&'static str> = const { Cell::new("?") };
}

pub const EXIT_VIOLATION: i32 = 3;
pub const EXIT_HANG: i32 = 4;

fn exit_now(code: i32) -> ! {
    #[cfg(miri)]
    { std::process::exit(code) }
    #[cfg(not(miri))]
    unsafe { _exit(code) }
}

fn emit(line: &str) {
    #[cfg(miri)]
    { println!("{line}"); }
    #[cfg(not(miri))]
    unsafe {
        let l = format!("{line}\n");
        let b = l.as_bytes();
        let mut o = 0;
        while o < b.len() { let k = write(1, b.as_ptr().add(o), b.len() - o); if k <= 0 { break; } o += k as usize; }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Ends the process with a violation: nothing of the possibly corrupted state is unwound or dropped.
pub fn violation(kind: &str, msg: &str) -> ! {
    untracked(|| {
        let trace = TRACE.with(|t| t.try_borrow().map(|t| t.clone()).unwrap_or_default());
        let tail: Vec<String> = trace.iter().skip(trace.len().saturating_sub(400)).map(|s| json_str(s)).collect();
        emit(&format!("VIOL {{\"suite\":{},\"case\":{},\"sub\":{},\"kind\":{},\"msg\":{},\"trace\":[{}]}}",
            json_str(SUITE.with(|s| s.get())), CASE.load(Relaxed), SUB.load(Relaxed), json_str(kind), json_str(msg), tail.join(",")));
        exit_now(EXIT_VIOLATION)
    })
}

/// Reporting from inside the allocator: no allocation.
pub fn report_raw(kind: &str, what: &str, a: u64, b: u64, c: u64) -> ! {
    struct B { b: [u8; 400], n: usize }
    impl std::fmt::Write for B {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for x in s.bytes() { if self.n < 400 { self.b[self.n] = x; self.n += 1; } }
            Ok(())
        }
    }
    let mut o = B { b: [0; 400], n: 0 };
    let _ = writeln!(o, "VIOL {{\"suite\":\"\",\"case\":{},\"sub\":{},\"kind\":\"{}\",\"msg\":\"{} (block {:#x}, {} / {})\",\"trace\":[]}}",
        CASE.load(Relaxed), SUB.load(Relaxed), kind, what, a, b, c);
    unsafe { write(1, o.b.as_ptr(), o.n); _exit(EXIT_VIOLATION) }
}

#[macro_export]
macro_rules! fail { ($($t:tt)*) => { $crate::ctx::violation($crate::ctx::kind(), &format!($($t)*)) } }

#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { $crate::ctx::violation($crate::ctx::kind(), &format!($($t)*)) } } }

#[macro_export]
macro_rules! ensure_eq { ($a:expr, $b:expr, $($t:tt)*) => {{
    let (a, b) = (&$a, &$b);
    if !(*a == *b) { $crate::ctx::violation($crate::ctx::kind(), &format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)) }
}}}

/// A panic raised on purpose by the harness inside user code.
#[derive(Debug)]
pub struct Injected(pub &'static str);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if EXPECT.with(|e| e.get()) > 0 { return; }
        let msg = payload_text(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // a harness that lost its way because the world is not the model's is no panic of the library
        let own = info.location().map_or(false, |l| l.file().starts_with("src/") && kind() == "foreign");
        violation(if own { "foreign" } else { "panic" }, &format!("unexpected panic at {loc}: {msg}"));
    }));
}

fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else if let Some(i) = p.downcast_ref::<Injected>() { format!("injected in {}", i.0) }
    else { "?".into() }
}

/// Runs `f`, allowing it to panic. Ok(result) or Err(text).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    struct G;
    impl Drop for G { fn drop(&mut self) { EXPECT.with(|e| e.set(e.get() - 1)); } }
    EXPECT.with(|e| e.set(e.get() + 1));
    let g = G;
    let r = catch_unwind(AssertUnwindSafe(f));
    drop(g);
    match r {
        Ok(r) => Ok(r),
        Err(p) => { let t = untracked(|| payload_text(&*p)); drop(p); Err(t) }
    }
}

pub struct Ctx {
    pub c: Choice,
    pub seed: u64,
    pub case: u64,
    pub thorough: bool,
    pub small: bool,
    pub suite: &'static str,
    pub log: Option<Log>,
    pub stats: Stats,
    sig: u64,
    /// the traced operations belong to an evaluation that is over
    stale: bool,
    pub events_in_case: u64,
    /// evaluations are counted by an outer workload
    pub mute: bool,
    /// only where nodes lie is judged (C25)
    pub place: bool,
}

/// Observation log for differential runs (storage kinds, build flavours).
#[derive(Default)]
pub struct Log { pub hash: u64, pub lines: Option<Vec<String>>, pub n: u64 }

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

impl Ctx {
    /// The usual size, or (rarely, and never in small mode) a large one.
    pub fn scale(&mut self, usual: usize, large: usize, one_in: usize) -> usize { if !self.small && !self.c.exhaustive() && self.c.chance(1, one_in) { large } else { usual } }
    pub fn new(suite: &'static str, seed: u64, thorough: bool, small: bool) -> Ctx {
        SUITE.with(|s| s.set(suite));
        Ctx { c: Choice::seeded(&[0]), seed, case: 0, thorough, small, suite, log: None, stats: Stats::default(), sig: 0, stale: false, events_in_case: 0, mute: false, place: false }
    }
    pub fn start(&mut self, case: u64, choice: Choice) {
        self.case = case;
        self.c = choice;
        self.sig = mix(case ^ 0x51);
        self.sig = 0x51;
        self.events_in_case = 0;
        self.stale = false;
        untracked(|| TRACE.with(|t| t.borrow_mut().clear()));
    }
    pub fn tracing(&self) -> bool { TRACING.with(|t| t.get()) }
    /// Notes an operation about to happen (kept for the replay file and the samples).
    pub fn op(&mut self, f: impl FnOnce() -> String) {
        self.events_in_case += 1;
        let stale = std::mem::replace(&mut self.stale, false);
        if TRACING.with(|t| t.get()) {
            untracked(|| {
                let s = f();
                if VERBOSE.load(Relaxed) { eprintln!("  {s}"); }
                TRACE.with(|t| { let mut t = t.borrow_mut(); if stale { t.clear(); } t.push(s) });
            });
        }
    }
    /// Mixes into the signature that tells distinct cases apart.
    pub fn sig(&mut self, x: u64) { self.sig = mix(self.sig ^ mix(x)); }
    pub fn sig_str(&mut self, s: &str) { for b in s.bytes() { self.sig = (self.sig ^ b as u64).wrapping_mul(0x100000001b3); } }
    pub fn count(&mut self, k: &'static str, n: u64) { untracked(|| *self.stats.counters.entry(k).or_insert(0) += n) }
    pub fn max(&mut self, k: &'static str, n: u64) { untracked(|| { let e = self.stats.counters.entry(k).or_insert(0); if *e < n { *e = n } }) }
    /// A case is over; `nontrivial` by the suite's rule.
    pub fn done(&mut self, nontrivial: bool) {
        if self.mute { return; }
        let sig = self.sig;
        self.stale = true;
        untracked(|| {
            self.stats.evals += 1;
            if nontrivial && self.stats.nontrivial.len() < 4_000_000 { self.stats.nontrivial.insert(sig); }
            if nontrivial && self.stats.samples.len() < 3 && TRACING.with(|t| t.get()) {
                let s = TRACE.with(|t| {
                    let t = t.borrow();
                    let k = t.len().min(40);
                    let mut s = t[..k].join("; ");
                    if t.len() > k { let _ = write!(s, "; ... ({} more)", t.len() - k); }
                    s
                });
                self.stats.samples.push(format!("case {}: {s}", self.case));
            }
        });
    }
    /// Logs an observation (differential suites).
    pub fn observe(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            let s = untracked(f);
            for b in s.bytes() { l.hash = (l.hash ^ b as u64).wrapping_mul(0x100000001b3); }
            l.hash = mix(l.hash);
            l.n += 1;
            untracked(|| { if let Some(v) = l.lines.as_mut() { v.push(s) } else { drop(s) } });
        }
    }
    pub fn below(&mut self, n: usize) -> usize { self.c.below(n) }
}

/// What a failing oracle says now: "oracle", or "foreign" while judging what is another property's business.
pub fn kind() -> &'static str { KIND.with(|k| k.get()) }
pub fn set_kind(k: &'static str) { KIND.with(|x| x.set(k)) }
pub fn set_tracing(on: bool) { TRACING.with(|t| t.set(on)); }
pub fn set_suite(s: &'static str) { SUITE.with(|x| x.set(s)); }

pub fn start_watchdog(limit_cpu_s: u64) {
    #[cfg(not(miri))]
    {
        extern "C" { fn clock() -> i64; }
        untracked(|| std::thread::spawn(move || {
            crate::alloc::untracked(|| {
                let mut last = (u64::MAX, u64::MAX);
                let mut at = 0i64;
                loop {
                    std::thread::sleep(std::time::Duration::from_millis(500));
                    let now = unsafe { clock() } / 1_000_000;
                    let cur = (CASE.load(Relaxed), SUB.load(Relaxed));
                    if cur != last { last = cur; at = now; }
                    else if now - at >= limit_cpu_s as i64 {
                        emit(&format!("HANG {{\"case\":{},\"sub\":{},\"cpu_s\":{}}}", cur.0, cur.1, now - at));
                        exit_now(EXIT_HANG);
                    }
                }
            })
        }));
    }
    #[cfg(miri)]
    let _ = limit_cpu_s;
}
