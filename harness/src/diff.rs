//! The same choices in worlds that differ in storage only (C05): everything observable must agree.

use crate::alloc::untracked;
use crate::ctx::{Ctx, Log};
use crate::fail;
use crate::owned::{self, LOG};
use crate::payload::{self, Item};
use crate::rng::Choice;
use crate::shared;

const KINDS: [(&str, Option<bool>); 3] = [("contiguous", Some(true)), ("scattered", Some(false)), ("mixed", None)];

fn three(ctx: &mut Ctx, kinds: usize, mut run: impl FnMut(&mut Ctx, Option<bool>)) {
    let seed = ctx.c.raw();
    let mut first: Option<Vec<String>> = None;
    ctx.mute = true;
    for (k, (name, force)) in KINDS.iter().take(kinds).enumerate() {
        payload::reset();
        ctx.c = Choice::seeded(&[seed]);
        ctx.log = Some(Log { hash: 0, lines: Some(vec![]), n: 0 });
        if k > 0 { ctx.op(|| format!("--- the same with {name} storage")); }
        run(ctx, *force);
        let lines = ctx.log.take().unwrap().lines.unwrap();
        match &first {
            None => { ctx.count("observations", lines.len() as u64); first = Some(lines); }
            Some(f) => {
                for i in 0..f.len().max(lines.len()) {
                    if f.get(i) != lines.get(i) { fail!("observation {i} differs: {} storage gives {:?}, {name} storage gives {:?}", KINDS[0].0, f.get(i), lines.get(i)) }
                }
                ctx.count("twin_comparisons", 1);
                untracked(|| drop(lines));
            }
        }
    }
    untracked(|| drop(first));
    ctx.mute = false;
}

pub fn twins_owned(ctx: &mut Ctx) {
    let hi = if ctx.small { 10 } else if ctx.thorough { 60 } else { 35 };
    let len = ctx.c.range(4, hi);
    three(ctx, 3, |ctx, force| owned::history_forced::<Item>(ctx, LOG, len, force));
    ctx.done(true);
}
pub fn twins_shared(ctx: &mut Ctx) {
    three(ctx, 3, |ctx, force| shared::history::<Item>(ctx, LOG, force));
    ctx.done(true);
}
pub fn twins_exhaustive(ctx: &mut Ctx, len: usize, max: u64) {
    let world = (ctx.case as usize * 2) % owned::START_WORLDS;
    let before = ctx.stats.counters.get("exhaustive_histories").copied().unwrap_or(0);
    three(ctx, 2, |ctx, force| owned::exhaustive::<Item>(ctx, LOG, world, len, max, force));
    let n = (ctx.stats.counters["exhaustive_histories"] - before) / 2;
    untracked(|| for i in 0..n { ctx.sig(world as u64 * 1_000_000_007 + i); ctx.done(true); });
}
