//! Walks moved to and shared between threads (C20).

use crate::ctx::Ctx;
use crate::model::*;
use crate::owned::hash_of;
use crate::payload::Pay;
use crate::rng::{mix, Choice};
use crate::{ensure_eq, fail};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::*};
use trees::walk::Visit;
use trees::{Forest, ForestWalk, Node, RcNode, Tree, TreeWalk};

/// Heap-owning data that no lock orders: counted by relaxed atomics only, so that nothing here hides a race.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Bx(Box<i64>);
pub static BX_LIVE: AtomicI64 = AtomicI64::new(0);
impl Pay for Bx {
    const NAME: &'static str = "box";
    fn mk(v: i64) -> Self { BX_LIVE.fetch_add(1, Relaxed); Bx(Box::new(v)) }
    fn v(&self) -> i64 { *self.0 }
    fn setv(&mut self, v: i64) { *self.0 = v }
    fn uid(&self) -> u64 { 0 }
}
impl Clone for Bx { fn clone(&self) -> Self { Bx::mk(*self.0) } }
impl Drop for Bx { fn drop(&mut self) { BX_LIVE.fetch_sub(1, Relaxed); } }
impl std::fmt::Display for Bx { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::fmt::Debug for Bx { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }

pub enum W<P: 'static> { T(TreeWalk<P>), F(ForestWalk<P>) }
enum O<P: 'static> { T(Tree<P>), F(Forest<P>) }
impl<P: Pay> W<P> {
    fn open(self) -> O<P> { match self { W::T(w) => O::T(w.into()), W::F(w) => O::F(w.into()) } }
    fn get(&self) -> Option<Visit<'_, P>> { match self { W::T(w) => w.get(), W::F(w) => w.get() } }
}
impl<P: Pay> O<P> { fn close(self) -> W<P> { match self { O::T(t) => W::T(t.into()), O::F(f) => W::F(f.into()) } } }

fn see<P: Pay>(v: Option<Visit<'_, P>>) -> String {
    match v { None => "-".into(), Some(Visit::Begin(n)) => format!("b{}", n.data()), Some(Visit::Leaf(n)) => format!("l{}", n.data()), Some(Visit::End(n)) => format!("e{}", n.data()) }
}
fn read<P: Pay>(n: &Node<P>, k: usize) -> String {
    match k {
        0 => n.to_string(),
        1 => { let t = n.deep_clone(); let s = format!("{t} {}", t.root() == n); drop(t); s }
        2 => format!("{:x} {}", hash_of(n), n.node_count()),
        3 => n.bfs().iter.map(|v| format!("{}:{}", v.data, v.size.degree)).collect::<Vec<_>>().join(","),
        4 => n.iter().map(|c| format!("{}^{}", c.data(), c.parent().map_or("-".into(), |p| p.data().to_string()))).collect::<Vec<_>>().join(","),
        5 => { let r = RcNode::from(n.deep_clone()); format!("{r} {}", r.downgrade().upgrade().is_some()) }
        _ => format!("{} {:?} {:?}", n.degree(), n.front().map(|x| x.data().v()), n.back().map(|x| x.data().v())),
    }
}

fn small_tree<P: Pay>(c: &mut Choice, next: &mut i64) -> Tree<P> {
    let s = gen_spec(c, 5, &mut |_| { *next += 1; *next });
    let mut m = Model::default();
    let r = m.import(&s);
    let ids = m.preorder(&[r]);
    let mut items = mk_items::<P>(&mut m, &ids);
    let style = *c.pick(&[Style::PiledBfs, Style::Back, Style::Tuple, Style::Mixed]);
    let style = if style == Style::Tuple { Style::PiledRebuild } else { style };
    build(&m, r, &mut items, style, c)
}

/// What one thread does with the walks it owns; a function of its walks and its seed.
fn program<P: Pay>(ws: &mut Vec<W<P>>, shared: &[W<P>], seed: &[u64], steps: usize, tick: &mut dyn FnMut()) -> Vec<String> {
    let mut c = Choice::seeded(seed);
    let mut next = 1000 + (seed[1] as i64 % 90) * 1000;
    let mut log = vec![];
    for _ in 0..steps {
        tick();
        if !shared.is_empty() && c.chance(1, 3) {
            let s = c.below(shared.len());
            let k = c.below(7);
            let g = match &shared[s] { W::T(w) => w.get_parent().map(|p| p.data().to_string()), W::F(w) => w.get_parent().map(|p| p.data().to_string()) };
            log.push(format!("shared {s} {k}: {} {:?} {}", see(shared[s].get()), g, shared[s].get().map_or("-".into(), |v| read(v.node(), k))));
            continue;
        }
        if ws.is_empty() { log.push("new".into()); ws.push(W::T(small_tree::<P>(&mut c, &mut next).into())); continue; }
        let i = c.below(ws.len());
        match c.below(12) {
            0 => { let k = c.range(1, 4); for _ in 0..k { let s = match &mut ws[i] { W::T(w) => see(w.next()), W::F(w) => see(w.next()) }; log.push(s); } }
            1 => {
                let n = c.below(3);
                let s = match (&mut ws[i], c.below(4)) {
                    (W::T(w), 0) => see(w.to_child(n)), (W::T(w), 1) => see(w.to_sib(n)), (W::T(w), 2) => see(w.to_parent()), (W::T(w), _) => { w.revisit(); see(w.get()) }
                    (W::F(w), 0) => see(w.to_child(n)), (W::F(w), 1) => see(w.to_sib(n)), (W::F(w), 2) => see(w.to_parent()), (W::F(w), _) => { w.revisit(); see(w.get()) }
                };
                log.push(s);
            }
            2 => { let k = c.below(7); let s = ws[i].get().map_or("-".into(), |v| read(v.node(), k)); log.push(s); }
            3 => { // cut a piece off
                let mut o = ws.swap_remove(i).open();
                let front = c.coin();
                let p = match &mut o { O::T(t) => if front { t.pop_front() } else { t.pop_back() }, O::F(f) => if front { f.pop_front() } else { f.pop_back() } };
                log.push(format!("pop {:?}", p.as_ref().map(|t| t.to_string())));
                if let Some(t) = p { ws.push(W::T(t.into())); }
                ws.push(o.close());
            }
            4 => { // cut a piece off deep inside
                let mut o = ws.swap_remove(i).open();
                let mut it = match &mut o { O::T(t) => t.iter_mut(), O::F(f) => f.iter_mut() };
                let mut got = None;
                if let Some(mut n) = it.next() {
                    if n.has_no_child() || c.coin() { got = Some(n.detach()); }
                    else { let k = c.below(n.degree()); got = n.iter_mut().nth(k).map(|mut x| x.detach()); }
                }
                drop(it);
                log.push(format!("detach {:?}", got.as_ref().map(|t| t.to_string())));
                if let Some(t) = got { ws.push(W::T(t.into())); }
                ws.push(o.close());
            }
            5 | 6 => { // join two
                if ws.len() < 2 { continue; }
                let mut a = ws.swap_remove(i).open();
                let j = c.below(ws.len());
                let b = ws.swap_remove(j).open();
                let front = c.coin();
                match (&mut a, b) {
                    (O::T(t), O::T(x)) => if front { t.push_front(x) } else { t.push_back(x) },
                    (O::T(t), O::F(x)) => if front { t.prepend(x) } else { t.append(x) },
                    (O::F(f), O::T(x)) => if front { f.push_front(x) } else { f.push_back(x) },
                    (O::F(f), O::F(x)) => if front { f.prepend(x) } else { f.append(x) },
                }
                log.push(match &a { O::T(t) => format!("join {t} {}", t.node_count()), O::F(f) => format!("join {f} {}", f.node_count()) });
                ws.push(a.close());
            }
            7 => { let o = ws.swap_remove(i).open(); log.push(match &o { O::T(t) => format!("drop {t}"), O::F(f) => format!("drop {f}") }); }
            8 => { // rebuild in one block, or copy
                let o = ws.swap_remove(i).open();
                match o {
                    O::T(t) => { if c.coin() { let x = t.clone(); log.push(format!("clone {x} {}", x == t)); ws.push(W::T(t.into())); ws.push(W::T(x.into())); } else { let x = Tree::from(t.into_bfs()); log.push(format!("rebuild {x}")); ws.push(W::T(x.into())); } }
                    O::F(f) => { if c.coin() { let x = f.clone(); log.push(format!("clone {x} {}", x == f)); ws.push(W::F(f.into())); ws.push(W::F(x.into())); } else { let x = Forest::from(f.into_bfs()); log.push(format!("rebuild {x}")); ws.push(W::F(x.into())); } }
                }
            }
            9 => { // shared handles inside the thread
                match ws.swap_remove(i).open() {
                    O::T(t) => {
                        let r = RcNode::from(t);
                        let w = r.downgrade();
                        let mut hs: Vec<RcNode<P>> = r.iter_rc().collect();
                        let wk: Vec<_> = hs.iter().map(|h| h.downgrade()).collect();
                        if c.coin() { if let Some(h) = hs.first() { h.detach(); } }
                        let n = small_tree::<P>(&mut c, &mut next);
                        if c.coin() { r.push_front(n) } else { drop(n) }
                        log.push(format!("rc {r} {}", r.node_count()));
                        let keep = hs.len() / 2;
                        hs.truncate(keep);
                        drop(r);
                        log.push(format!("rc {} {:?} {:?}", w.upgrade().is_some(), wk.iter().map(|w| w.upgrade().is_some()).collect::<Vec<_>>(), hs.iter().map(|h| h.to_string()).collect::<Vec<_>>()));
                    }
                    o => ws.push(o.close()),
                }
            }
            10 => { // change data
                let mut o = ws.swap_remove(i).open();
                next += 1;
                match &mut o { O::T(t) => t.root_mut().data_mut().setv(next), O::F(f) => for mut n in f.iter_mut() { n.data_mut().setv(next) } }
                ws.push(o.close());
            }
            _ => { let t = small_tree::<P>(&mut c, &mut next); log.push(format!("new {t}")); ws.push(W::T(t.into())); }
        }
    }
    for w in ws.iter() { let s = w.get().map_or("-".into(), |v| v.node().to_string()); log.push(format!("end {s}")); }
    log
}

/// Everything a case consists of, run once with threads and once without.
struct Plan { threads: usize, phases: usize, steps: usize, seed: u64, spec: Vec<Spec>, spread: bool, share: usize, cut_deep: bool, forests: bool }

/// Pieces of one contiguous block (or of a few), as walks for each thread, and the shared ones.
fn pieces<P: Pay>(p: &Plan) -> (Vec<Vec<W<P>>>, Vec<W<P>>) {
    let mut c = Choice::seeded(&[p.seed, 77]);
    let mut out: Vec<Vec<W<P>>> = (0..p.threads).map(|_| vec![]).collect();
    let mut shared = vec![];
    let mut all: Vec<O<P>> = vec![];
    for (i, s) in p.spec.iter().enumerate() {
        let mut m = Model::default();
        let r = m.import(s);
        let ids = m.preorder(&[r]);
        let mut items = mk_items::<P>(&mut m, &ids);
        let style = if i == 0 { Style::PiledBfs } else { *c.pick(&[Style::PiledRebuild, Style::Mixed, Style::Back]) };
        let mut t = build(&m, r, &mut items, style, &mut c);
        // cut inner pieces, then every child of the root
        if p.cut_deep { let mut deep = vec![]; for mut n in t.iter_mut() { let k = n.degree(); if k > 0 { let j = c.below(k); if let Some(mut x) = n.iter_mut().nth(j) { deep.push(x.detach()); } } } all.extend(deep.into_iter().map(O::T)); }
        if p.forests && i % 2 == 0 {
            let mut f = t.abandon();
            while f.degree() > 2 { all.push(O::T(f.pop_front().unwrap())); }
            all.push(O::F(f));
        } else {
            while t.degree() > 1 { all.push(O::T(if c.coin() { t.pop_front() } else { t.pop_back() }.unwrap())); }
        }
        all.push(O::T(t));
    }
    for o in all {
        if shared.len() < p.share { shared.push(o.close()); continue; }
        let k = c.below(p.threads);
        out[k].push(o.close());
    }
    (out, shared)
}

/// Moves anything into a thread: that the walks may go there is judged by `types`, not by whether this compiles.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> { fn take(self) -> T { self.0 } }

/// Stop-less rendezvous: threads spin until all are there (relaxed, so it orders nothing but the start).
struct Gate { n: AtomicUsize, go: AtomicBool }

fn run<P: Pay + Send + Sync>(p: &Plan, parallel: bool, order: &mut Vec<u64>) -> Vec<Vec<String>> {
    let (mut own, shared) = pieces::<P>(p);
    let mut logs: Vec<Vec<String>> = vec![vec![]; p.threads];
    let case = crate::ctx::CASE.load(Relaxed);
    for phase in 0..p.phases {
        if !parallel {
            for (t, ws) in own.iter_mut().enumerate() { let l = program(ws, &shared, &[p.seed, t as u64, phase as u64], p.steps, &mut || ()); logs[t].extend(l); }
        } else {
            let gate = Gate { n: AtomicUsize::new(0), go: AtomicBool::new(false) };
            let ticket = AtomicUsize::new(0);
            let mut results: Vec<(Vec<W<P>>, Vec<String>, Vec<usize>)> = vec![];
            std::thread::scope(|s| {
                let hs: Vec<_> = own.drain(..).enumerate().map(|(t, ws)| {
                    let (gate, shared, ticket) = (&gate, &shared, &ticket);
                    let n = p.threads;
                    let given = Force((ws, shared));
                    s.spawn(move || {
                        let (mut ws, shared) = given.take();
                        let mut seen = vec![];
                        let mut d = Choice::seeded(&[p.seed, t as u64, phase as u64, case, 5]);
                        gate.n.fetch_add(1, Relaxed);
                        while !cfg!(miri) && gate.n.load(Relaxed) < n { std::hint::spin_loop(); }
                        gate.go.store(true, Relaxed);
                        let l = program(&mut ws, shared, &[p.seed, t as u64, phase as u64], p.steps, &mut || {
                            seen.push(ticket.fetch_add(1, Relaxed));
                            match d.below(6) { 0 => std::thread::yield_now(), 1 => for _ in 0..d.below(200) { std::hint::spin_loop() }, _ => () }
                        });
                        Force((ws, l, seen))
                    })
                }).collect();
                for h in hs { match h.join() { Ok(r) => results.push(r.take()), Err(_) => fail!("a thread died") } }
            });
            let mut at = vec![];
            for (t, (ws, l, seen)) in results.into_iter().enumerate() { own.push(ws); logs[t].extend(l); at.extend(seen.into_iter().map(|k| (k, t as u64))); }
            at.sort();
            order.extend(at.into_iter().map(|x| x.1));
        }
        // pieces change hands between the phases
        if p.spread {
            let mut c = Choice::seeded(&[p.seed, 99, phase as u64]);
            let all: Vec<W<P>> = own.iter_mut().flat_map(|v| v.drain(..)).collect();
            for w in all { let k = c.below(p.threads); own[k].push(w); }
        }
    }
    // what is left is dropped by several threads at once
    if parallel {
        std::thread::scope(|s| {
            let hs: Vec<_> = own.into_iter().map(|ws| { let ws = Force(ws); s.spawn(move || drop(ws.take())) }).collect();
            for h in hs { if h.join().is_err() { fail!("a thread died") } }
        });
    }
    drop(shared);
    logs
}

pub fn parallel<P: Pay + Send + Sync>(ctx: &mut Ctx) {
    let rounds = if ctx.small { 1 } else { 4 };
    for _ in 0..rounds {
        let mut v = 0;
        let mut spec = vec![];
        let threads = if ctx.small { 2 } else { *ctx.c.pick(&[2, 2, 3, 4, 8]) };
        let n = ctx.c.range(1, 2);
        for i in 0..n { // broad enough to be cut
            let kids = ctx.c.range(1, threads * if i == 0 { 3 } else { 1 });
            let size = if ctx.small { 3 } else { 6 };
            let kids: Vec<Spec> = (0..kids).map(|_| gen_spec(&mut ctx.c, size, &mut |_| 0)).collect();
            let mut s = Spec { val: 0, kids };
            s.relabel(&mut || { v += 1; v });
            spec.push(s);
        }
        let p = Plan { threads, phases: if ctx.small { 1 } else { ctx.c.range(1, 3) }, steps: ctx.c.range(3, if ctx.small { 6 } else { 25 }), seed: ctx.c.raw() & 0xffff_ffff, spec, spread: ctx.c.coin(), share: ctx.c.below(3), cut_deep: ctx.c.coin(), forests: ctx.c.coin() };
        op_label(ctx, &format!("{} threads, {} phases of {} operations each, on pieces of {:?}, {} shared walks, seed {}", p.threads, p.phases, p.steps, p.spec.iter().map(|s| s.text()).collect::<Vec<_>>(), p.share, p.seed));
        let before = BX_LIVE.load(SeqCst);
        let mut order = vec![];
        let got = run::<P>(&p, true, &mut order);
        ensure_eq!(BX_LIVE.load(SeqCst), before, "items alive after all threads dropped everything");
        if P::NAME == "item" { ensure_eq!(crate::payload::live(), 0, "items alive after all threads dropped everything"); }
        let want = run::<P>(&p, false, &mut vec![]);
        for t in 0..p.threads {
            for (k, (g, w)) in got[t].iter().zip(&want[t]).enumerate() { if g != w { fail!("thread {t}, observation {k}: {g:?} when run concurrently, {w:?} sequentially") } }
            ensure_eq!(got[t].len(), want[t].len(), "thread {t}: observations");
        }
        ctx.sig(order.iter().fold(7, |h, t| mix(h ^ t)));
        let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
        ctx.count("operations", order.len() as u64);
        ctx.count("switches_between_threads", switches as u64);
        ctx.count("threads_started", (p.threads * p.phases) as u64);
        ctx.done(switches >= p.threads);
    }
}

/// Which types may cross threads: a bound missing here would make everything above unsound for other data.
pub fn types(ctx: &mut Ctx) {
    use std::cell::Cell;
    use std::marker::PhantomData;
    use std::rc::Rc;
    struct S<T: ?Sized>(PhantomData<T>);
    struct Y<T: ?Sized>(PhantomData<T>);
    impl<T: ?Sized + Send> S<T> { fn send(&self) -> bool { true } }
    impl<T: ?Sized + Sync> Y<T> { fn sync(&self) -> bool { true } }
    trait NoS { fn send(&self) -> bool { false } }
    trait NoY { fn sync(&self) -> bool { false } }
    impl<T: ?Sized> NoS for S<T> {}
    impl<T: ?Sized> NoY for Y<T> {}
    macro_rules! is { ($($t:ty => $s:expr, $y:expr);* $(;)?) => { $({
        let (s, y): (bool, bool) = (S::<$t>(PhantomData).send(), Y::<$t>(PhantomData).sync());
        op_label(ctx, &format!("{}: Send {s}, Sync {y}", stringify!($t)));
        let (ws, wy): (Option<bool>, Option<bool>) = ($s, $y);
        if let Some(w) = ws { ensure_eq!(s, w, "{}: Send", stringify!($t)); }
        if let Some(w) = wy { ensure_eq!(y, w, "{}: Sync", stringify!($t)); }
        ctx.done(true);
    })* } }
    const T: Option<bool> = Some(true);
    const F: Option<bool> = Some(false);
    is! {
        TreeWalk<i32> => T, T; ForestWalk<i32> => T, T; TreeWalk<String> => T, T; ForestWalk<Box<u8>> => T, T;
        TreeWalk<Cell<i32>> => T, F; ForestWalk<Cell<i32>> => T, F;
        TreeWalk<Rc<i32>> => F, F; ForestWalk<Rc<i32>> => F, F;
        TreeWalk<std::sync::MutexGuard<'static, i32>> => F, T; ForestWalk<std::sync::MutexGuard<'static, i32>> => F, T;
        RcNode<i32> => F, F; trees::WeakNode<i32> => F, F;
        Tree<Rc<i32>> => F, F; Forest<Rc<i32>> => F, F; Node<Rc<i32>> => F, F;
        Tree<Cell<i32>> => None, F; Forest<Cell<i32>> => None, F;
        trees::Iter<'static, Rc<i32>> => F, F; trees::IterMut<'static, Rc<i32>> => F, F;
        trees::Iter<'static, Cell<i32>> => F, F; trees::IterMut<'static, Cell<i32>> => None, F;
    }
}
