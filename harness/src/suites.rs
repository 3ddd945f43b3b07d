//! All workloads by name.
use crate::ctx::Ctx;
use crate::owned::{self, COUNTS, DROPS, LOG, PLACE, STRUCT};
use crate::payload::{Item, Wide, Zst};
use crate::shared::{self, EDITS, LIFE};
use crate::{bfs, borrows, iters, values, walks};

pub struct Suite { pub name: &'static str, pub run: fn(&mut Ctx), pub leaks: bool, pub logged: bool }
impl Suite { pub fn seed_name(&self) -> &'static str { self.name } }

macro_rules! suite { ($n:expr, $f:expr) => { Suite { name: $n, run: $f, leaks: true, logged: false } } }

fn len(c: &mut Ctx) -> usize { let hi = if c.small { 12 } else if c.thorough { 90 } else { 45 }; c.c.range(4, hi) }

fn owned_any(c: &mut Ctx, mask: u32) {
    let l = len(c);
    match c.case % 10 {
        7 => owned::history::<Wide>(c, mask, l),
        8 => owned::history::<i64>(c, mask, l),
        9 => owned::history::<Zst>(c, mask, l),
        _ => owned::history::<Item>(c, mask, l),
    }
}
fn exh(c: &mut Ctx, mask: u32) {
    let world = c.case as usize % owned::START_WORLDS;
    let (len, max) = if c.small { (1, 60) } else if c.thorough { (3, 3_000_000) } else { (2, 60_000) };
    owned::exhaustive::<Item>(c, mask, world, len, max, None)
}

fn rc_any(c: &mut Ctx, mask: u32) {
    match c.case % 8 { 5 => shared::history::<Wide>(c, mask, None), 6 => shared::history::<i64>(c, mask, None), 7 => shared::history::<Zst>(c, mask, None), _ => shared::history::<Item>(c, mask, None) }
}
fn rc_exh(c: &mut Ctx, mask: u32) {
    let world = c.case as usize % shared::START_WORLDS;
    let (len, max) = if c.small { (1, 60) } else if c.thorough { (3, 3_000_000) } else { (2, 100_000) };
    shared::exhaustive::<Item>(c, mask, world, len, max)
}
/// Picks the payload kind by case number.
macro_rules! by_pay { ($c:expr, $m:ident :: $f:ident) => { match $c.case % 8 { 5 => $m::$f::<Wide>($c), 6 => $m::$f::<i64>($c), 7 => $m::$f::<Zst>($c), _ => $m::$f::<Item>($c) } } }
/// small / quick / thorough
fn lim(c: &Ctx, s: usize, q: usize, t: usize) -> usize { if c.small { s } else if c.thorough { t } else { q } }

pub static ALL: &[Suite] = &[
    suite!("owned_struct", |c| owned_any(c, STRUCT)),
    suite!("owned_counts", |c| owned_any(c, COUNTS)),
    suite!("owned_drops", |c| owned_any(c, DROPS)),
    suite!("owned_all", |c| owned_any(c, STRUCT | COUNTS | DROPS)),
    suite!("exh_struct", |c| exh(c, STRUCT)),
    suite!("exh_counts", |c| exh(c, COUNTS)),
    suite!("exh_drops", |c| exh(c, DROPS)),
    suite!("bfs", |c| by_pay!(c, bfs::streams)),
    suite!("own_streams", |c| by_pay!(c, bfs::own_streams)),
    suite!("bfs_exh", |c| { let m = lim(c, 4, 7, 9); bfs::streams_exhaustive::<Item>(c, m) }),
    suite!("clones", |c| by_pay!(c, bfs::clones)),
    Suite { name: "hostile_streams", run: |c| by_pay!(c, bfs::hostile_streams), leaks: false, logged: false },
    Suite { name: "doctored_streams", run: |c| by_pay!(c, bfs::doctored_streams), leaks: false, logged: false },
    suite!("tours", |c| by_pay!(c, walks::tours)),
    suite!("tours_exh", |c| { let m = lim(c, 4, 7, 9); walks::tours_exhaustive::<Item>(c, m) }),
    suite!("jumps", |c| by_pay!(c, walks::jumps)),
    suite!("jumps_exh", |c| { let (m, l) = (lim(c, 3, 5, 6), lim(c, 2, 4, 5)); walks::jumps_exhaustive::<i64>(c, m, l) }),
    suite!("operators", |c| values::operators(c)),
    suite!("expressions", |c| values::expressions(c)),
    suite!("compare_exh", |c| { let m = lim(c, 2, 4, 5); values::compare_exhaustive(c, m) }),
    suite!("compare", |c| by_pay!(c, values::compare_random)),
    suite!("compare_history", |c| values::compare_history(c)),
    suite!("compare_partial", |c| values::compare_partial(c)),
    suite!("texts", |c| by_pay!(c, values::texts)),
    suite!("texts_exh", |c| { let m = lim(c, 4, 7, 9); values::texts_exhaustive(c, m) }),
    suite!("texts_strings", |c| values::texts_strings(c)),
    suite!("iter_plain", |c| by_pay!(c, iters::plain)),
    suite!("iter_edited", |c| by_pay!(c, iters::edited)),
    suite!("iter_hostile", |c| by_pay!(c, iters::hostile_rc)),
    suite!("iter_exh", |c| { let m = lim(c, 2, 4, 5); iters::edited_exhaustive::<Item>(c, m) }),
    suite!("rc_edits", |c| rc_any(c, EDITS)),
    suite!("rc_life", |c| rc_any(c, LIFE)),
    suite!("rc_exh_edits", |c| rc_exh(c, EDITS)),
    suite!("rc_exh_life", |c| rc_exh(c, LIFE)),
    suite!("owned_place", |c| owned_any(c, PLACE)),
    suite!("exh_place", |c| exh(c, PLACE)),
    suite!("rc_place", |c| rc_any(c, PLACE)),
    suite!("rc_exh_place", |c| rc_exh(c, PLACE)),
    suite!("rc_counts", |c| rc_any(c, COUNTS)),
    suite!("rc_exh_counts", |c| rc_exh(c, COUNTS)),
    suite!("crowd", |c| shared::crowd(c)),
    suite!("rc_nested", |c| shared::nested(c)),
    suite!("twins_owned", |c| crate::diff::twins_owned(c)),
    suite!("twins_shared", |c| crate::diff::twins_shared(c)),
    suite!("twins_exh", |c| { let (l, m) = if c.small { (1, 60) } else if c.thorough { (3, 400_000) } else { (2, 60_000) }; crate::diff::twins_exhaustive(c, l, m) }),
    suite!("borrows", |c| by_pay!(c, borrows::random)),
    suite!("borrow_table", |c| borrows::table(c)),
    suite!("thread_types", |c| crate::threads::types(c)),
    Suite { name: "threads_raw", run: |c| crate::threads::parallel::<crate::threads::Bx>(c), leaks: true, logged: false },
    Suite { name: "threads_items", run: |c| crate::threads::parallel::<Item>(c), leaks: true, logged: false },
    Suite { name: "faults_owned", run: |c| crate::faults::owned_random(c), leaks: false, logged: false },
    Suite { name: "faults_exh", run: |c| { let m = lim(c, 2, 4, 6); crate::faults::owned_exhaustive(c, m) }, leaks: false, logged: false },
    Suite { name: "faults_shared", run: |c| crate::faults::shared_random(c), leaks: false, logged: false },
    Suite { name: "faults_rc_exh", run: |c| { let m = lim(c, 3, 5, 6); crate::faults::shared_exhaustive(c, m) }, leaks: false, logged: false },
    Suite { name: "faults_visitors", run: |c| crate::faults::visitors(c), leaks: false, logged: false },
    suite!("store", |c| match c.case % 4 { 0 => crate::store::history::<u8>(c), 1 => crate::store::history::<[u64; 9]>(c), 2 => crate::store::history::<(u32, Option<u16>, [u8; 3])>(c), _ => crate::store::history::<i64>(c) }),
    suite!("huge_edits", |c| crate::huge::run(c, crate::huge::What::Edits)),
    suite!("huge_streams", |c| crate::huge::run(c, crate::huge::What::Streams)),
    suite!("huge_copies", |c| crate::huge::run(c, crate::huge::What::Copies)),
    suite!("huge_tours", |c| crate::huge::run(c, crate::huge::What::Tours)),
    suite!("huge_jumps", |c| crate::huge::run(c, crate::huge::What::Jumps)),
    suite!("huge_iters", |c| crate::huge::run(c, crate::huge::What::Iters)),
    suite!("huge_handles", |c| crate::huge::run(c, crate::huge::What::Handles)),
    suite!("huge_compare", |c| crate::huge::run(c, crate::huge::What::Compare)),
    suite!("huge_text", |c| crate::huge::run(c, crate::huge::What::Text)),
    suite!("huge_place", |c| crate::huge::run(c, crate::huge::What::Place)),
    suite!("huge_notation", |c| crate::huge::run(c, crate::huge::What::Notation)),
    suite!("reentry", crate::reentry::run),
    suite!("findings", |c| crate::findings::run(c)),
    suite!("deep", |c| crate::deep::deep(c)),
    Suite { name: "log_rc", run: |c| shared::history::<Item>(c, LOG, None), leaks: true, logged: true },
    Suite { name: "log_owned", run: |c| { let l = len(c); owned::history::<Item>(c, LOG, l) }, leaks: true, logged: true },
];
