//! Panics in user code at chosen calls, and misuse (C21).

use crate::ctx::{catch, violation, Ctx, Injected};
use crate::model::*;
use crate::owned::{hash_of, node_ref, with_node, MObj, Obj, World, COUNTS, STRUCT};
use crate::payload::{self, arm, disarm, fired, hit, Hit, Item, Pay};
use crate::rng::Choice;
use crate::shared::{RcWorld, EDITS};
use crate::{ensure, ensure_eq, fail};
use std::collections::HashSet;
use std::fmt::Write as _;
use trees::bfs::{BfsForest, BfsTree};
use trees::{Forest, ForestWalk, RcNode, Tree, TreeWalk};

fn boom() { std::panic::panic_any(Injected("closure")) }
/// A writer that gives up after a number of characters.
struct Tight(usize);
impl std::fmt::Write for Tight { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.len() > self.0 { self.0 = 0; Err(std::fmt::Error) } else { self.0 -= s.len(); Ok(()) } } }
/// A hasher that panics at the k-th write.
struct Fussy;
impl std::hash::Hasher for Fussy { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) { hit(Hit::Callback, "hasher") } }

fn by_kind(op: usize) -> (&'static str, Hit, bool) {
    // name, what panics, whether the object is given away
    match op {
        0 => ("clone", Hit::Clone, false), 1 => ("deep_clone of a node", Hit::Clone, false), 2 => ("deep_clone_forest of a node", Hit::Clone, false),
        3 => ("rebuild from cloned visits", Hit::Clone, false), 4 => ("eq", Hit::Eq, false), 5 => ("ne", Hit::Eq, false), 6 => ("cmp", Hit::Cmp, false), 7 => ("partial_cmp", Hit::Cmp, false),
        8 => ("hash", Hit::Hash, false), 9 => ("display", Hit::Fmt, false), 10 => ("debug", Hit::Fmt, false), 11 => ("display to a failing writer", Hit::None, false),
        12 => ("hash by a panicking hasher", Hit::Callback, false), 13 => ("bfs().map by a panicking closure, rebuilt", Hit::Callback, false),
        14 => ("bfs_mut().map by a panicking closure", Hit::Callback, false), 15 => ("a panic inside a loop over iter_mut", Hit::Callback, false),
        16 => ("a panic inside a walk", Hit::Callback, true),
        17 => ("drop", Hit::Drop, true), 18 => ("drop of a half-consumed into_iter", Hit::Drop, true), 19 => ("drop of a half-consumed into_bfs", Hit::Drop, true),
        20 => ("drop of a walk", Hit::Drop, true), 21 => ("a panic inside a loop over into_iter", Hit::Callback, true), 22 => ("a panic inside a loop over into_bfs", Hit::Callback, true),
        23 => ("into_bfs().map by a panicking closure, rebuilt", Hit::Callback, true), 24 => ("assignment of another tree", Hit::Drop, true),
        25 => ("clear by abandon", Hit::Drop, true), 26 => ("rebuild from a panicking iterator", Hit::Callback, true),
        _ => unreachable!(),
    }
}
const READ_OPS: usize = 27;
/// 27: pop and drop; 28: detach inside and drop; 29: insert_prev_sib on a root; 30: insert_next_sib on a root; 31: detach of a root; 32: extra node data assignment
const OPS: usize = 33;

struct F { w: World<Item>, tol: HashSet<u64>, fired: u64 }

impl F {
    fn uids(&self, i: usize) -> Vec<u64> { self.w.nodes(self.w.slots[i].m).iter().map(|n| self.w.m.n[*n].uid).collect() }
    /// None: not applicable. Some(true): the fault was reached.
    fn apply(&mut self, ctx: &mut Ctx, op: usize, i: usize, k: i64, node: &mut dyn FnMut(usize) -> usize) -> Option<bool> {
        let w = &mut self.w;
        let m = w.slots[i].m;
        let before = payload::created();
        let text = w.text(m);
        let all = w.nodes(m);
        if op < READ_OPS {
            let (name, kind, consumes) = by_kind(op);
            if matches!(op, 1 | 2) && all.is_empty() { return None; }
            let at = if all.is_empty() { 0 } else { all[node(all.len())] };
            let path = if all.is_empty() { vec![] } else { w.m.path(at) };
            // a partner for comparisons: an equal copy
            let copy = if (4..=7).contains(&op) { Some(match &w.slots[i].obj { Obj::Tree(t) => Obj::Tree(t.clone()), Obj::Forest(f) => Obj::Forest(f.clone()) }) } else { None };
            let spare = if op == 24 { Some(Tree::new(Item::mk(777))) } else { None };
            let spare_uid = spare.as_ref().map(|t| t.data().uid());
            op_label(ctx, &format!("{name} on #{i} = {text} with a panic in call {k} of {kind:?}"));
            let mut gone = vec![];
            let mut back: Option<Tree<Item>> = None;
            let r;
            if !consumes {
                let obj = &mut w.slots[i].obj;
                let f = || -> () { match op {
                    0 => match &*obj { Obj::Tree(t) => drop(t.clone()), Obj::Forest(f) => drop(f.clone()) },
                    1 => drop(node_ref(obj, &path).deep_clone()),
                    2 => drop(node_ref(obj, &path).deep_clone_forest()),
                    3 => match &*obj { Obj::Tree(t) => drop(Tree::from(t.bfs().map(|d| d.clone()))), Obj::Forest(f) => drop(Forest::from(f.bfs().map(|d| d.clone()))) },
                    4 | 5 => match (&*obj, copy.as_ref().unwrap()) { (Obj::Tree(a), Obj::Tree(b)) => ensure!(if op == 4 { a == b } else { !(a != b) }, "unequal to its copy"), (Obj::Forest(a), Obj::Forest(b)) => ensure!(if op == 4 { a == b } else { !(a != b) }, "unequal to its copy"), _ => () },
                    6 | 7 => match (&*obj, copy.as_ref().unwrap()) { (Obj::Tree(a), Obj::Tree(b)) => ensure!(if op == 6 { a.cmp(b).is_eq() } else { a.partial_cmp(b).map_or(false, |o| o.is_eq()) }, "differs from its copy"), (Obj::Forest(a), Obj::Forest(b)) => ensure!(a.cmp(b).is_eq(), "differs from its copy"), _ => () },
                    8 => match &*obj { Obj::Tree(t) => drop(hash_of(t)), Obj::Forest(f) => drop(hash_of(f)) },
                    9 => match &*obj { Obj::Tree(t) => drop(t.to_string()), Obj::Forest(f) => drop(f.to_string()) },
                    10 => match &*obj { Obj::Tree(t) => drop(format!("{t:?}")), Obj::Forest(f) => drop(format!("{f:?}")) },
                    11 => { let mut o = Tight(k as usize); let r = match &*obj { Obj::Tree(t) => write!(o, "{t}"), Obj::Forest(f) => write!(o, "{f}") }; if r.is_err() { boom() } }
                    12 => { use std::hash::Hash; match &*obj { Obj::Tree(t) => t.hash(&mut Fussy), Obj::Forest(f) => f.hash(&mut Fussy) } }
                    13 => match &*obj { Obj::Tree(t) => drop(Tree::from(t.bfs().map(|d| { hit(Hit::Callback, "map"); d.v() }))), Obj::Forest(f) => drop(Forest::from(f.bfs().map(|d| { hit(Hit::Callback, "map"); d.v() }))) },
                    14 => match obj { Obj::Tree(t) => for v in t.bfs_mut().map(|d| { hit(Hit::Callback, "map"); d.v() }).iter { let _ = v; }, Obj::Forest(f) => for v in f.bfs_mut().map(|d| { hit(Hit::Callback, "map"); d.v() }).iter { let _ = v; } },
                    _ => { let mut st: Vec<_> = vec![]; match obj { Obj::Tree(t) => st.extend(t.iter_mut()), Obj::Forest(f) => st.extend(f.iter_mut()) } while let Some(mut n) = st.pop() { hit(Hit::Callback, "loop"); n.data_mut().v(); let n = unsafe { n.get_unchecked_mut() }; st.extend(n.iter_mut()); } }
                } };
                arm(kind, k);
                r = catch(f);
            } else {
                gone = self.uids(i);
                let w = &mut self.w;
                let s = w.take_slot(i);
                let obj = s.obj;
                let steps = node(all.len() + 1);
                let f = || -> () { match op {
                    16 => match obj { Obj::Tree(t) => { let mut x = TreeWalk::from(t); while x.get().is_some() { hit(Hit::Callback, "walk"); x.forward(); } } Obj::Forest(t) => { let mut x = ForestWalk::from(t); while x.get().is_some() { hit(Hit::Callback, "walk"); x.forward(); } } },
                    17 => drop(obj),
                    18 => match obj { Obj::Tree(mut t) => { let mut it = t.abandon().into_iter(); for _ in 0..steps { std::mem::forget(it.next().map(|t| std::mem::ManuallyDrop::new(t))); } drop(it) } Obj::Forest(f) => { let mut it = f.into_iter(); let mut kept = vec![]; for _ in 0..steps { kept.extend(it.next()); } drop(it); drop(kept) } },
                    19 => match obj { Obj::Tree(t) => { let mut it = t.into_bfs().iter; let mut kept = vec![]; for _ in 0..steps { kept.extend(it.next()); } drop(it); drop(kept) } Obj::Forest(f) => { let mut it = f.into_bfs().iter; let mut kept = vec![]; for _ in 0..steps { kept.extend(it.next()); } drop(it); drop(kept) } },
                    20 => match obj { Obj::Tree(t) => { let mut x = TreeWalk::from(t); for _ in 0..steps { x.forward(); } drop(x) } Obj::Forest(t) => { let mut x = ForestWalk::from(t); for _ in 0..steps { x.forward(); } drop(x) } },
                    21 => match obj { Obj::Tree(t) => for x in t { hit(Hit::Callback, "loop"); x.data().v(); }, Obj::Forest(f) => for x in f { hit(Hit::Callback, "loop"); x.data().v(); } },
                    22 => match obj { Obj::Tree(t) => for x in t.into_bfs().iter { hit(Hit::Callback, "loop"); x.data.v(); }, Obj::Forest(f) => for x in f.into_bfs().iter { hit(Hit::Callback, "loop"); x.data.v(); } },
                    23 => match obj { Obj::Tree(t) => drop(Tree::from(t.into_bfs().map(|d| { hit(Hit::Callback, "map"); d }))), Obj::Forest(f) => drop(Forest::from(f.into_bfs().map(|d| { hit(Hit::Callback, "map"); d }))) },
                    24 => { let mut obj = obj; if let Obj::Tree(t) = &mut obj { *t = spare.unwrap(); } if let Obj::Tree(t) = obj { back = Some(t); } }
                    25 => match obj { Obj::Tree(mut t) => { drop(t.abandon()); back = Some(t); } Obj::Forest(f) => drop(f) },
                    _ => match obj {
                        Obj::Tree(t) => { let b = t.into_bfs(); drop(Tree::from(BfsTree { size: b.size, iter: b.iter.inspect(|_| hit(Hit::Callback, "iterator")) })) }
                        Obj::Forest(f) => { let b = f.into_bfs(); drop(Forest::from(BfsForest { size: b.size, iter: b.iter.inspect(|_| hit(Hit::Callback, "iterator")) })) }
                    },
                } };
                arm(kind, k);
                r = catch(f);
            }
            let hit_it = fired() || op == 11 && r.is_err();
            disarm();
            if !hit_it { if let Err(e) = &r { violation("panic", &format!("{name} on {text} panics: {e}")); } }
            else if r.is_ok() { fail!("{name} on {text}: a panic of the data was swallowed"); }
            let now = payload::created();
            if consumes {
                if hit_it || op == 18 { self.tol.extend(gone); self.tol.extend(spare_uid); self.tol.extend(before + 1..=now); } // these may be leaked
                if let (MObj::Tree(root), Some(t)) = (m, back.take()) { // what came out is a tree of one node
                    let kids = self.w.m.n[root].kids.clone();
                    for c in kids { self.w.m.remove(c); }
                    if op == 24 { self.w.m.n[root].val = 777; self.w.m.n[root].uid = spare_uid.unwrap(); }
                    self.tol.remove(&self.w.m.n[root].uid);
                    self.w.push_slot_tree(t, root);
                }
            } else if hit_it { self.tol.extend(before + 1..=now); }
            return Some(hit_it);
        }
        match op {
            27 | 28 => {
                if all.is_empty() { return None; }
                let at = all[node(all.len())];
                let path = w.m.path(at);
                let front = k % 2 == 0;
                let victim = if op == 27 { let kids = &w.m.n[at].kids; if front { kids.first() } else { kids.last() }.copied() } else { match w.m.n[at].up { Par::None => None, _ => Some(at) } };
                let Some(v) = victim else { return None };
                let uids: Vec<u64> = w.m.preorder(&[v]).iter().map(|n| w.m.n[*n].uid).collect();
                op_label(ctx, &format!("{} at {path:?} of #{i} = {text}, dropped with a panic in drop {k}", if op == 27 { "pop" } else { "detach" }));
                let obj = &mut w.slots[i].obj;
                let r = catch(|| with_node(obj, &path, 0, |mut n| { arm(Hit::Drop, k); if op == 27 { if front { drop(n.pop_front()) } else { drop(n.pop_back()) } } else { drop(n.detach()) } }));
                let h = fired();
                disarm();
                ensure_eq!(r.is_err(), h, "pop or detach on {text}: panicked");
                w.m.remove(v);
                if h { self.tol.extend(uids); }
                Some(h)
            }
            29..=31 => {
                let MObj::Tree(root) = m else { return None };
                let Obj::Tree(t) = &mut w.slots[i].obj else { return None };
                let extra = Tree::new(Item::mk(9)) / Tree::new(Item::mk(10));
                let ids = [extra.data().uid(), extra.front().unwrap().data().uid()];
                op_label(ctx, &format!("{} on the root of #{i} = {text}", ["insert_prev_sib", "insert_next_sib", "detach"][op - 29]));
                let r = catch(|| match op { 29 => t.root_mut().insert_prev_sib(extra), 30 => t.root_mut().insert_next_sib(extra), _ => { drop(extra); drop(t.root_mut().detach()) } });
                ensure!(r.is_err(), "a root got a sibling or was detached: {text}");
                for id in ids { ensure!(!payload::is_live(id - 1), "the tree refused by a root was not dropped"); }
                let _ = root;
                Some(true)
            }
            _ => {
                if all.is_empty() { return None; }
                let at = all[node(all.len())];
                let path = w.m.path(at);
                op_label(ctx, &format!("new data at {path:?} of #{i} = {text}, old one panics"));
                let old = w.m.n[at].uid;
                let new = Item::mk(555);
                let uid = new.uid();
                let obj = &mut w.slots[i].obj;
                let r = catch(|| with_node(obj, &path, 1, |mut n| { arm(Hit::Drop, 0); *n.data_mut() = new; }));
                disarm();
                ensure!(r.is_err(), "harness: assignment");
                w.m.n[at].uid = uid;
                w.m.n[at].val = 555;
                ensure!(!payload::is_live(old - 1), "old data still alive");
                Some(true)
            }
        }
    }
    /// Survivors are whole; nothing but what was tolerated leaks.
    fn judge(&self, what: &str) {
        self.w.judge_all(what);
        let mut want: HashSet<u64> = HashSet::new();
        for s in &self.w.slots { for n in self.w.nodes(s.m) { want.insert(self.w.m.n[n].uid); } }
        for id in payload::live_ids() { if !want.contains(&(id + 1)) && !self.tol.contains(&(id + 1)) { fail!("{what}: item #{id} is alive, although nothing holds it and no panic let it leak"); } }
    }
    fn finish(&mut self, ctx: &mut Ctx) {
        while !self.w.slots.is_empty() {
            let a = ctx.c.below(self.w.slots.len());
            drop(self.w.take_slot(a));
            self.judge("while taking the survivors apart");
        }
    }
}

pub fn owned_random(ctx: &mut Ctx) {
    let mut f = F { w: World::<Item>::new(STRUCT | COUNTS), tol: HashSet::new(), fired: 0 };
    f.w.max_slots = 5;
    f.w.max_nodes = if ctx.small { 14 } else { 45 };
    for _ in 0..2 { f.w.add_tree(ctx, if ctx.small { 5 } else { 14 }); }
    for _ in 0..if ctx.small { 4 } else { ctx.c.range(6, 24) } {
        if ctx.c.coin() || f.w.slots.is_empty() { f.w.step(ctx); f.judge("after the operation"); continue; }
        let op = ctx.c.below(OPS);
        let i = ctx.c.below(f.w.slots.len());
        let n = f.w.nodes(f.w.slots[i].m).len();
        let k = if op == 11 { ctx.c.below(3 * n + 1) } else { ctx.c.below(n + 1) } as i64;
        let mut sub = Choice::seeded(&[ctx.c.raw()]);
        if let Some(true) = f.apply(ctx, op, i, k, &mut |n| sub.below(n)) { f.fired += 1; }
        f.judge("after the panic");
    }
    f.finish(ctx);
    ctx.count("panics_survived", f.fired);
    ctx.done(f.fired >= 2);
}

/// Every operation, every call it makes, on every shape up to `max` nodes, in both storages.
pub fn owned_exhaustive(ctx: &mut Ctx, max: usize) {
    let case = ctx.case;
    let op = (case % OPS as u64) as usize;
    for n in 1..=max { for shape in all_shapes(n) { for style in [Style::Back, Style::PiledBfs] { for forest in [false, true] {
        let places = if matches!(op, 1 | 2 | 18..=20 | 27 | 28 | 32) { n + 1 } else { 1 };
        for place in 0..places { for k in 0..60 {
            payload::reset();
            ctx.start(case, Choice::seeded(&[1]));
            let mut f = F { w: World::<Item>::new(STRUCT | COUNTS), tol: HashSet::new(), fired: 0 };
            let mut spec = shape.clone();
            let mut v = 0;
            spec.relabel(&mut || { v += 1; v });
            let mut sub = Choice::seeded(&[2]);
            let label = format!("{} [{style:?}]", spec.text());
            ctx.sig_str(&label);
            ctx.sig(((op * 100 + place) * 100 + k as usize) as u64 * 2 + forest as u64);
            if forest { let (r, id) = real_forest::<Item>(&mut f.w.m, &spec.kids, style, &mut sub); f.w.push_slot_forest(r, id); }
            else { let (t, r) = real_tree::<Item>(&mut f.w.m, &spec, style, &mut sub); f.w.push_slot_tree(t, r); }
            ctx.op(|| format!("build {label}"));
            let r = f.apply(ctx, op, 0, k, &mut |n| place % n.max(1));
            f.judge("after the panic");
            // still usable
            if let Some(s) = f.w.slots.first() {
                let m = s.m;
                let (t, r) = real_tree::<Item>(&mut f.w.m, &Spec { val: 50, kids: vec![Spec { val: 51, kids: vec![] }] }, style, &mut sub);
                let end = match m { MObj::Tree(x) => Par::Node(x), MObj::Forest(x) => Par::Forest(x) };
                match &mut f.w.slots[0].obj { Obj::Tree(x) => x.push_front(t), Obj::Forest(x) => x.push_front(t) }
                f.w.m.attach(end, 0, r);
                f.judge("after an edit after the panic");
            }
            f.finish(ctx);
            if let Some(true) = r { ctx.count("panics_survived", 1); }
            if r.is_some() { ctx.done(r == Some(true)); }
            if r != Some(true) || op >= 29 { break; }
        } }
    } } } }
}

// ---- shared handles ----------------------------------------------------------------------------------------------

const RC_OPS: [&str; 17] = ["drop a handle", "pop_front", "pop_back", "detach", "deep_clone", "display", "eq", "cmp", "hash", "extend", "panic while borrowed mutably", "panic while borrowed",
    "insert_prev_sib on a root", "insert_next_sib on a root", "detach of a root", "drop of all handles", "into_tree below a root"];

/// After a drop panicked in the middle of a release: what can still be reached must be whole.
fn lenient(w: &RcWorld<Item>, what: &str) -> bool {
    let mut as_model = true;
    for (h, id) in &w.h {
        same_item(&*h.data(), &w.m, *id, what);
        let mut st = vec![(h.clone(), *id)];
        while let Some((g, x)) = st.pop() {
            ensure_eq!(g.degree(), w.m.n[x].kids.len(), "{what}: degree of {}", w.m.n[x].val);
            let kids: Vec<_> = g.iter_rc().collect();
            ensure_eq!(kids.len(), w.m.n[x].kids.len(), "{what}: children of {}", w.m.n[x].val);
            for (c, y) in kids.into_iter().zip(&w.m.n[x].kids) { same_item(&*c.data(), &w.m, *y, what); ensure!(c.parent().map_or(false, |p| p.data().uid() == w.m.n[x].uid), "{what}: parent of {}", w.m.n[*y].val); st.push((c, *y)); }
        }
        match (h.parent(), w.m.n[*id].up) {
            (None, Par::None) => ensure!(h.is_root(), "{what}: is_root of {}", w.m.n[*id].val),
            (Some(p), Par::Node(x)) => same_item(&*p.data(), &w.m, x, what),
            (Some(p), _) => { // a parent that leaked, and is still whole
                as_model = false;
                p.data().uid();
                ensure!(p.iter_rc().any(|c| c.data().uid() == w.m.n[*id].uid), "{what}: {} has a parent it is no child of", w.m.n[*id].val);
            }
            (None, _) => fail!("{what}: {} lost its parent", w.m.n[*id].val),
        }
    }
    as_model
}

pub fn shared_random(ctx: &mut Ctx) {
    let mut w = RcWorld::<Item>::new(EDITS);
    w.max_nodes = if ctx.small { 10 } else { 30 };
    for _ in 0..ctx.c.range(1, 2) { w.add(ctx, if ctx.small { 5 } else { 12 }); }
    let mut panics = 0;
    let rounds = if ctx.small { 3 } else { ctx.c.range(4, 14) };
    for _ in 0..rounds {
        for _ in 0..ctx.c.below(5) { w.step(ctx); w.judge("after the operation"); }
        while w.h.len() > 12 { let k = ctx.c.below(w.h.len()); w.drop_handle(k); }
        if w.h.is_empty() { w.add(ctx, 8); }
        let op = ctx.c.below(RC_OPS.len());
        let i = ctx.c.below(w.h.len());
        let k = ctx.c.below(w.m.size(w.h[i].1) + 1) as i64;
        match shared_fault(&mut w, ctx, op, i, k) { None => continue, Some((p, whole)) => { if p { panics += 1; } if !whole { ctx.count("parents_leaked", 1); break; } } }
        w.judge("after the panic");
    }
    while !w.h.is_empty() { let k = ctx.c.below(w.h.len()); w.drop_handle(k); lenient(&w, "while dropping the survivors"); }
    ctx.count("panics_survived", panics);
    ctx.done(panics >= 1);
}

/// (the fault was reached, the survivors are as the model has them)
fn shared_fault(w: &mut RcWorld<Item>, ctx: &mut Ctx, op: usize, i: usize, k: i64) -> Option<(bool, bool)> {
    let id = w.h[i].1;
    let name = format!("{} on {} of {} with a panic in call {k}", RC_OPS[op], w.m.n[id].val, w.m.text(w.m.root_of(id)));
    op_label(ctx, &name);
    let h = w.h[i].0.clone();
    let kids = w.m.n[id].kids.clone();
    let root = w.m.n[id].up == Par::None;
    match op {
        0 => {
            let (h2, id) = w.h.swap_remove(i);
            drop(h);
            arm(Hit::Drop, k);
            let r = catch(move || drop(h2));
            let f = fired(); disarm();
            ensure_eq!(r.is_err(), f, "{name}: panicked");
            w.settle(id);
            Some((f, lenient(w, &name)))
        }
        1 | 2 => {
            let want = if op == 1 { kids.first() } else { kids.last() }.copied()?;
            arm(Hit::Drop, k);
            let r = catch(|| drop(if op == 1 { h.pop_front() } else { h.pop_back() }));
            let f = fired(); disarm();
            ensure_eq!(r.is_err(), f, "{name}: panicked");
            w.m.remove(want);
            w.settle(want);
            Some((f, lenient(w, &name)))
        }
        3 => {
            if root { return None; }
            // give the last handle of the node away, so that the detached part is released
            let only = w.h.iter().filter(|x| x.1 == id).count() == 1;
            if !only { return None; }
            drop(h);
            let Par::Node(p) = w.m.n[id].up else { return None };
            let at = w.m.index_in_parent(id);
            let (h2, _) = w.h.swap_remove(i);
            let ph = h2.parent().unwrap();
            arm(Hit::Drop, k);
            // one handle must exist to call detach at all: it goes right after
            let r = catch(move || { h2.detach(); drop(h2) });
            let f = fired(); disarm();
            ensure_eq!(r.is_err(), f, "{name}: panicked");
            let _ = at;
            w.m.remove(id);
            w.settle(id);
            w.h.push((ph, p));
            Some((f, lenient(w, &name)))
        }
        4 | 5 | 6 | 7 | 8 => {
            let copy = RcNode::from(h.deep_clone());
            arm([Hit::Clone, Hit::Fmt, Hit::Eq, Hit::Cmp, Hit::Hash][op - 4], k);
            let r = catch(|| match op { 4 => drop(h.deep_clone()), 5 => drop(h.to_string()), 6 => { if k % 2 == 0 { ensure!(h == copy, "{name}: unequal") } else { ensure!(copy == h, "{name}: unequal") } } 7 => ensure!(copy.cmp(&h).is_eq(), "{name}: unequal"), _ => drop(hash_of(&h)) });
            let f = fired(); disarm();
            ensure_eq!(r.is_err(), f, "{name}: panicked");
            // every borrow was given back
            let mut st = vec![h.clone()];
            while let Some(g) = st.pop() { if let Err(e) = catch(|| drop(g.data_mut())) { fail!("{name}: a node stays borrowed after the panic: {e}") } st.extend(g.iter_rc()); }
            Some((f, true))
        }
        9 => {
            let mut ts = vec![];
            for _ in 0..2 { ts.push(w.tree(ctx, 3)); }
            let uids: Vec<(u64, usize)> = ts.iter().map(|x| (w.m.n[x.1].uid, x.1)).collect();
            let (mut h2, old) = (h.clone(), kids.len());
            let trees: Vec<Tree<Item>> = ts.into_iter().map(|x| x.0).collect();
            arm(Hit::Callback, k % 3);
            let r = catch(|| h2.extend(trees.into_iter().chain(None).inspect(|_| hit(Hit::Callback, "iterator"))));
            let f = fired(); disarm();
            ensure_eq!(r.is_err(), f, "{name}: panicked");
            // a prefix of what came may be in
            let now: Vec<u64> = h.iter_rc().map(|c| c.data().uid()).collect();
            ensure!(now.len() >= old && (f || now.len() == old + 2), "{name}: children lost");
            for (n, (u, x)) in uids.into_iter().enumerate() { if let Some(g) = now.get(old + n) { ensure_eq!(*g, u, "{name}: children after the panic"); w.m.attach(Par::Node(id), old + n, x); } else { w.discard(x); } }
            Some((f, true))
        }
        10 | 11 => {
            let r = catch(|| { if op == 10 { let mut d = h.data_mut(); let v = d.v(); d.setv(v); boom(); drop(d) } else { let d = h.data(); boom(); drop(d) } });
            ensure!(r.is_err(), "harness: no panic");
            if let Err(e) = catch(|| drop(h.data_mut())) { fail!("{name}: the node stays borrowed: {e}") }
            Some((true, true))
        }
        12 | 13 | 14 => {
            if !root { return None; }
            let (t, x, _) = w.tree(ctx, 3);
            let live = payload::live();
            let n = w.m.size(x) as i64;
            let r = catch(|| match op { 12 => h.insert_prev_sib(t), 13 => h.insert_next_sib(t), _ => { drop(t); h.detach() } });
            ensure!(r.is_err(), "{name}: a root got a sibling or was detached");
            ensure_eq!(payload::live(), live - n, "{name}: items alive after the refused tree was dropped");
            w.discard(x);
            if let Err(e) = catch(|| drop(h.data_mut())) { fail!("{name}: the node stays borrowed: {e}") }
            Some((true, true))
        }
        16 => {
            if root { return None; }
            let r = catch(|| drop(unsafe { h.into_tree() }));
            ensure!(r.is_err(), "{name}: a node with a parent became a tree");
            if let Err(e) = catch(|| drop(w.h[i].0.data_mut())) { fail!("{name}: the node stays borrowed: {e}") }
            Some((true, true))
        }
        _ => { // all handles of one tree at once
            let r0 = w.m.root_of(id);
            drop(h);
            let mut mine = vec![];
            let mut j = 0;
            while j < w.h.len() { if w.m.root_of(w.h[j].1) == r0 { mine.push(w.h.swap_remove(j)); } else { j += 1; } }
            let ids: Vec<usize> = mine.iter().map(|x| x.1).collect();
            arm(Hit::Drop, k);
            let r = catch(move || drop(mine));
            let f = fired(); disarm();
            ensure_eq!(r.is_err(), f, "{name}: panicked");
            for x in ids { w.settle(x); }
            Some((f, lenient(w, &name)))
        }
    }
}

/// Every release with a panic in every drop it makes, for all shapes up to `max` nodes and every set of one or two held nodes.
pub fn shared_exhaustive(ctx: &mut Ctx, max: usize) {
    let case = ctx.case;
    let op = [0, 1, 2, 3, 15][(case % 5) as usize];
    for n in 1..=max { for shape in all_shapes(n) { for style in [Style::Back, Style::PiledBfs] { for a in 0..n { for b in a..n { for k in 0..n as i64 {
        payload::reset();
        ctx.start(case, Choice::seeded(&[1]));
        let mut w = RcWorld::<Item>::new(EDITS);
        let mut spec = shape.clone();
        let mut v = 0;
        spec.relabel(&mut || { v += 1; v });
        let mut sub = Choice::seeded(&[2]);
        let (t, r) = real_tree::<Item>(&mut w.m, &spec, style, &mut sub);
        w.sync();
        op_label(ctx, &format!("share {} [{style:?}]", spec.text()));
        // all handles, then only: the root, and the nodes a and b
        let mut q = vec![(RcNode::from(t), r)];
        let mut at = 0;
        while at < q.len() { let kids = w.m.n[q[at].1].kids.clone(); let c: Vec<_> = q[at].0.iter_rc().zip(kids).collect(); q.extend(c); at += 1; }
        let order: Vec<usize> = q.iter().map(|x| x.1).collect();
        for (h, id) in q { if id == r || id == order[a] || id == order[b] { w.h.push((h, id)); } }
        op_label(ctx, &format!("hold the root, {}, {}", w.m.n[order[a]].val, w.m.n[order[b]].val));
        ctx.sig(k as u64);
        let i = if op == 3 { match w.h.iter().position(|x| x.1 == order[b]) { Some(i) => i, None => continue } } else { 0 };
        let res = shared_fault(&mut w, ctx, op, i, k);
        if let Some((f, whole)) = res {
            if whole { w.judge("after the panic"); let (t, x, _) = w.tree(ctx, 2); if let Some((h, id)) = w.h.last() { h.push_back(t); let id = *id; let e = w.m.n[id].kids.len(); w.m.attach(Par::Node(id), e, x); w.judge("after an edit after the panic"); } else { drop(t); w.discard(x); } }
            else { ctx.count("parents_leaked", 1); }
            if f { ctx.count("panics_survived", 1); }
            while !w.h.is_empty() { w.drop_handle(0); lenient(&w, "while dropping the survivors"); }
            ctx.done(f);
        }
    } } } } } }
}

/// Tuple visitors with a closure that panics: every datum is dropped exactly once.
pub fn visitors(ctx: &mut Ctx) {
    use trees::TupleTree;
    let c = || Item::mk(1);
    type V = trees::tuple::Visit<Item>;
    for form in 0..4 { for k in 0..16 {
        payload::reset();
        op_label(ctx, &format!("visitor {form} panics at call {k}"));
        arm(Hit::Callback, k);
        let t = (c(), (c(), c(), (c(), c())), c(), ((c(), c()), c()).0);
        let r = catch(|| match form {
            0 => t.preorder(&mut |_v: V| hit(Hit::Callback, "visitor")),
            1 => t.preorder_with_size_hint(&mut |_v: V, _| hit(Hit::Callback, "visitor")),
            2 => t.postorder(&mut |_v: V| hit(Hit::Callback, "visitor")),
            _ => t.postorder_with_size_hint(&mut |_v: V, _| hit(Hit::Callback, "visitor")),
        });
        let f = fired(); disarm();
        ensure_eq!(r.is_err(), f, "visitor: panicked");
        if f { ctx.count("panics_survived", 1); }
        ctx.sig(k as u64);
        ctx.done(f);
    } }
}
