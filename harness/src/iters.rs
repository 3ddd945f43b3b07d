//! Child iterators, alone and while their items are edited (C16).

use crate::bfs::world;
use crate::ctx::Ctx;
use crate::model::*;
use crate::owned::*;
use crate::payload::Pay;
use crate::rng::Choice;
use crate::{ensure, ensure_eq, fail};
use std::pin::Pin;
use trees::{Forest, Node, RcNode, Tree};

fn hint<I: Iterator>(what: &str, it: &I, left: usize) { ensure!(it.size_hint() == (left, Some(left)), "{what}: size_hint {:?} with {left} children left", it.size_hint()); }

/// Runs an exact iterator over the model's children.
fn run<T, I: Iterator<Item = T> + ExactSizeIterator>(what: &str, it: &mut I, m: &Model, kids: &[usize], same: &mut dyn FnMut(T, usize)) {
    let n = kids.len();
    for (i, &k) in kids.iter().enumerate() {
        hint(what, it, n - i);
        ensure_eq!(it.len(), n - i, "{what}: len() before item {i}");
        match it.next() { Some(x) => same(x, k), None => fail!("{what}: ends after {i} of {n} children") }
    }
    for _ in 0..3 {
        hint(what, it, 0);
        ensure_eq!(it.len(), 0, "{what}: len() at the end");
        ensure!(it.next().is_none(), "{what}: yields more than the {n} children {:?}", kids.iter().map(|k| m.n[*k].val).collect::<Vec<_>>());
    }
}

/// The same through any of the ways an iterator is advanced; what is stepped over is not shown to `same`.
fn mixed<T, I: Iterator<Item = T> + ExactSizeIterator>(what: &str, it: &mut I, m: &Model, kids: &[usize], c: &mut Choice, same: &mut dyn FnMut(T, usize)) {
    let n = kids.len();
    let mut i = 0;
    loop {
        hint(what, it, n - i);
        ensure_eq!(it.len(), n - i, "{what}: len() after {i} of {n}");
        let mut got: Vec<(T, usize)> = vec![]; // with the position it should be at
        let how = c.below(7);
        let k = c.below(n - i + 2);
        match how {
            0 | 1 => { if let Some(x) = it.next() { got.push((x, i)); } else { ensure!(i >= n, "{what}: ends after {i} of {n} children"); } i += 1; }
            2 | 3 => { if let Some(x) = it.nth(k) { got.push((x, i + k)); } else { ensure!(i + k >= n, "{what}: nth({k}) is None after {i} of {n} children"); } i += k + 1; }
            4 => { for x in it.by_ref().take(k) { got.push((x, i)); i += 1; } ensure_eq!(got.len(), k.min(n - (i - got.len())), "{what}: take({k})"); }
            5 => { let from = i; for x in it.by_ref().step_by(k + 1).take(2) { got.push((x, i)); i += k + 1; } ensure_eq!(got.len(), (from..n).step_by(k + 1).take(2).count(), "{what}: step_by({}) after {from} of {n}", k + 1);
                   i = if got.len() == 2 { from + k + 2 } else { n }; }
            _ => { it.by_ref().for_each(|x| { got.push((x, i)); i += 1; }); ensure_eq!(i, n, "{what}: for_each to the end"); }
        }
        i = i.min(n);
        for (x, at) in got { ensure!(at < n, "{what}: yields more than the {n} children"); same(x, kids[at]); }
        if i >= n { break; }
    }
    for _ in 0..2 { hint(what, it, 0); ensure!(it.next().is_none() && it.nth(1).is_none(), "{what}: yields again after its end"); }
}

fn check_node<P: Pay>(n: &Node<P>, m: &Model, k: usize, what: &str) { same_item(n.data(), m, k, what); ensure_eq!(n.degree(), m.n[k].kids.len(), "{what}: degree of the child yielded"); }

pub fn plain<P: Pay>(ctx: &mut Ctx) {
    let max = if ctx.small { 7 } else { ctx.scale(40, 700, 150) };
    let len = ctx.c.below(10);
    let mut w = world::<P>(ctx, max, len);
    let mut nt = false;
    let World { m, slots, .. } = &mut w;
    for s in slots.iter_mut() {
        let roots = match s.m { MObj::Tree(r) => vec![r], MObj::Forest(f) => m.f[f].clone() };
        let ids = m.preorder(&roots);
        ctx.op(|| format!("iterate {}", m.forest_text(&roots)));
        ctx.sig_str(&m.forest_text(&roots));
        if let (Obj::Forest(f), MObj::Forest(_)) = (&mut s.obj, s.m) {
            run("Forest::iter", &mut f.iter(), m, &roots, &mut |n: &Node<P>, k| check_node(n, m, k, "Forest::iter"));
            run("Forest::iter_mut", &mut f.iter_mut(), m, &roots, &mut |n: Pin<&mut Node<P>>, k| check_node(&n, m, k, "Forest::iter_mut"));
        }
        if let (Obj::Tree(t), MObj::Tree(r)) = (&mut s.obj, s.m) {
            let kids = m.n[r].kids.clone();
            run("Tree::iter", &mut t.iter(), m, &kids, &mut |n: &Node<P>, k| check_node(n, m, k, "Tree::iter"));
            run("Tree::iter_mut", &mut t.iter_mut(), m, &kids, &mut |n: Pin<&mut Node<P>>, k| check_node(&n, m, k, "Tree::iter_mut"));
        }
        for &id in ids.iter().take(60) {
            let path = m.path(id);
            let kids = m.n[id].kids.clone();
            nt |= kids.len() >= 3;
            let n = node_ref(&s.obj, &path);
            run("Node::iter", &mut n.iter(), m, &kids, &mut |n: &Node<P>, k| check_node(n, m, k, "Node::iter"));
            run("&Node::into_iter", &mut n.into_iter(), m, &[id], &mut |n: &Node<P>, k| check_node(n, m, k, "&Node::into_iter"));
            mixed("Node::iter", &mut n.iter(), m, &kids, &mut ctx.c, &mut |n: &Node<P>, k| check_node(n, m, k, "Node::iter, mixed"));
            let skip = ctx.c.below(kids.len() + 2);
            match (n.iter().nth(skip), kids.get(skip)) { (None, None) => (), (Some(x), Some(k)) => check_node(x, m, *k, "nth"), _ => fail!("nth({skip}) of {} children", kids.len()) }
            ensure_eq!(n.iter().count(), kids.len(), "count() of Node::iter");
            match (n.iter().last(), kids.last()) { (None, None) => (), (Some(x), Some(k)) => check_node(x, m, *k, "last"), _ => fail!("last() of {} children", kids.len()) }
            let mut sub = Choice::seeded(&[ctx.c.raw()]);
            with_node(&mut s.obj, &path, 0, |mut n| {
                mixed("Node::iter_mut", &mut n.iter_mut(), m, &kids, &mut sub, &mut |n: Pin<&mut Node<P>>, k| check_node(&n, m, k, "Node::iter_mut, mixed"));
                let mut pins = vec![];
                run("Node::iter_mut", &mut n.iter_mut(), m, &kids, &mut |n: Pin<&mut Node<P>>, k| { check_node(&n, m, k, "Node::iter_mut"); pins.push(n) });
                for (p, k) in pins.iter().zip(&kids) { check_node(p, m, *k, "Node::iter_mut, all held"); }
                run("Pin<&mut Node>::into_iter", &mut n.into_iter(), m, &[id], &mut |n: Pin<&mut Node<P>>, k| check_node(&n, m, k, "Pin<&mut Node>::into_iter"));
            });
            ctx.count("iterations", 5);
        }
    }
    while let Some(s) = w.slots.pop() {
        let m = &w.m;
        let mut kept = vec![];
        let mix = ctx.c.coin();
        match (s.obj, s.m) {
            (Obj::Tree(t), MObj::Tree(r)) if mix => mixed("Tree::into_iter", &mut t.into_iter(), m, &[r], &mut ctx.c, &mut |t: Tree<P>, k| { same_struct(t.root(), m, k, "Tree::into_iter, mixed"); kept.push((t, k)) }),
            (Obj::Forest(f), MObj::Forest(id)) if mix => mixed("Forest::into_iter", &mut f.into_iter(), m, &m.f[id].clone(), &mut ctx.c, &mut |t: Tree<P>, k| { same_struct(t.root(), m, k, "Forest::into_iter, mixed"); kept.push((t, k)) }),
            (Obj::Tree(t), MObj::Tree(r)) => run("Tree::into_iter", &mut t.into_iter(), m, &[r], &mut |t: Tree<P>, k| { same_struct(t.root(), m, k, "Tree::into_iter"); kept.push((t, k)) }),
            (Obj::Forest(f), MObj::Forest(id)) => run("Forest::into_iter", &mut f.into_iter(), m, &m.f[id].clone(), &mut |t: Tree<P>, k| { same_struct(t.root(), m, k, "Forest::into_iter"); kept.push((t, k)) }),
            _ => unreachable!(),
        }
        ctx.count("iterations", 1);
        for (t, k) in &kept { same_struct(t.root(), m, *k, "tree from an owning iterator"); counts_ok(t.root(), None, "tree from an owning iterator", 1 << 30); }
    }
    ctx.done(nt);
}

/// What is done to a node just yielded.
fn edit_model(c: &mut Choice, m: &mut Model, id: usize, removed: &mut Vec<usize>, specs: &mut Vec<Act>) {
    let n = c.range(0, 3);
    for _ in 0..n {
        if m.n[id].up == Par::None { break; }
        let mut new = |m: &mut Model| { let s = gen_spec(c, 3, &mut |c| 100 + c.below(100) as i64); m.import(&s) };
        match new_kind(&mut new, m) { _ => () }
        let kind = c.below(7);
        let fresh = *specs_fresh(m);
        match kind {
            0 => { let up = m.n[id].up; let at = m.index_in_parent(id); m.attach(up, at, fresh); specs.push(Act::Prev(fresh)); }
            1 => { let up = m.n[id].up; let at = m.index_in_parent(id) + 1; m.attach(up, at, fresh); specs.push(Act::Next(fresh)); }
            2 => { m.remove(id); removed.push(id); specs.push(Act::Detach); break; }
            3 => { m.n[id].val += 1000; specs.push(Act::Set); }
            4 => { let at = m.n[id].kids.len(); m.attach(Par::Node(id), at, fresh); specs.push(Act::PushBack(fresh)); }
            5 => { m.attach(Par::Node(id), 0, fresh); specs.push(Act::PushFront(fresh)); }
            _ => { if let Some(&k) = m.n[id].kids.first() { m.remove(k); } specs.push(Act::PopFront); }
        }
    }
}
fn new_kind(f: &mut dyn FnMut(&mut Model) -> usize, m: &mut Model) -> usize { let r = f(m); FRESH.with(|x| x.set(r)); r }
thread_local! { static FRESH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
fn specs_fresh(_: &Model) -> Box<usize> { Box::new(FRESH.with(|x| x.get())) }

#[derive(Clone, Debug)]
pub enum Act { Prev(usize), Next(usize), Detach, Set, PushBack(usize), PushFront(usize), PopFront }

fn plan_text(v: &[Vec<Act>]) -> String { format!("{v:?}") }

pub fn edited<P: Pay>(ctx: &mut Ctx) {
    let mut m = Model::default();
    let shared = ctx.c.coin();
    let forest = !shared && ctx.c.chance(1, 3);
    let max = if ctx.small { 6 } else { ctx.scale(16, 400, 100) };
    let mut nv = 0;
    let mut spec = gen_spec(&mut ctx.c, max, &mut |_| { nv += 1; nv });
    if ctx.c.coin() { let n = ctx.c.below(5); for _ in 0..n { nv += 1; spec.kids.push(Spec { val: nv, kids: vec![] }); } }
    let style = *ctx.c.pick(&STYLES);
    let mut sub = Choice::seeded(&[ctx.c.raw()]);
    let (mut obj, top, par): (Obj<P>, MObj, Par) = if forest {
        let (f, id) = real_forest::<P>(&mut m, &spec.kids, style, &mut sub);
        (Obj::Forest(f), MObj::Forest(id), Par::Forest(id))
    } else {
        let (t, r) = real_tree::<P>(&mut m, &spec, style, &mut sub);
        // iterate at the root or one of the inner nodes
        let inner: Vec<usize> = m.preorder(&[r]).into_iter().filter(|i| !m.n[*i].kids.is_empty()).collect();
        let at = if inner.is_empty() { r } else { *ctx.c.pick(&inner) };
        (Obj::Tree(t), MObj::Tree(r), Par::Node(at))
    };
    let start = m.kids(par).clone();
    let path = match par { Par::Node(n) => m.path(n), _ => vec![] };
    // plan, on the model alone; the model reaches its final state
    let mut plan: Vec<Vec<Act>> = vec![];
    let mut removed = vec![];
    let mut popped_of = vec![];
    for &k in &start {
        let mut acts = vec![];
        let before: Vec<usize> = m.n[k].kids.clone();
        edit_model(&mut ctx.c, &mut m, k, &mut removed, &mut acts);
        for b in before { if m.n[b].up == Par::None { popped_of.push(b); } }
        plan.push(acts);
    }
    let keep = ctx.c.coin();
    let clone_at = ctx.c.below(start.len() + 1);
    op_label(ctx, &format!("{} over children of {path:?} in {} [{style:?}]; edits {}", if shared { "iter_rc" } else { "iter_mut" }, spec.text(), plan_text(&plan)));
    // fresh trees
    let mut fresh: std::collections::HashMap<usize, Tree<P>> = Default::default();
    for a in plan.iter().flatten() {
        if let Act::Prev(x) | Act::Next(x) | Act::PushBack(x) | Act::PushFront(x) = a {
            // at this point the planned subtree may already have been edited in the model; fresh subtrees never are
            let ids = m.preorder(&[*x]);
            let mut items = mk_items::<P>(&mut m, &ids);
            let st = *sub.pick(&STYLES);
            let mut s2 = Choice::seeded(&[sub.raw()]);
            fresh.insert(*x, build(&m, *x, &mut items, st, &mut s2));
        }
    }
    let mut kept: Vec<Tree<P>> = vec![];
    let mut kept_rc: Vec<RcNode<P>> = vec![];
    let n = start.len();
    let what = if shared { "iter_rc" } else { "iter_mut" };
    if shared {
        let Obj::Tree(t) = obj else { unreachable!() };
        let root = RcNode::from(t);
        let mut at = root.clone();
        for i in &path { at = at.iter_rc().nth(*i).unwrap(); }
        let mut it = at.iter_rc();
        let mut twin: Option<trees::IterRc<P>> = None;
        for (i, &k) in start.iter().enumerate() {
            hint(what, &it, n - i);
            if i == clone_at { twin = Some(it.clone()); }
            let Some(x) = it.next() else { fail!("{what} ends after {i} of {n} children") };
            ensure!(uid_ok(x.data().uid(), &m, k), "{what}: item {i} is not child {}", m.n[k].val);
            for a in &plan[i] {
                match a {
                    Act::Prev(f) => x.insert_prev_sib(fresh.remove(f).unwrap()),
                    Act::Next(f) => x.insert_next_sib(fresh.remove(f).unwrap()),
                    Act::Detach => x.detach(),
                    Act::Set => { let v = x.data().v(); x.data_mut().setv(v + 1000) }
                    Act::PushBack(f) => x.push_back(fresh.remove(f).unwrap()),
                    Act::PushFront(f) => x.push_front(fresh.remove(f).unwrap()),
                    Act::PopFront => { let p = x.pop_front(); if keep { kept_rc.extend(p); } }
                }
            }
            if keep { kept_rc.push(x); }
        }
        for _ in 0..3 { hint(what, &it, 0); ensure!(it.next().is_none(), "{what} yields more than the {n} children present at the start"); }
        hint("clone of a finished iter_rc", &it.clone(), 0);
        ensure!(it.clone().next().is_none(), "the clone of a finished iter_rc yields");
        // a clone taken on the way yields the same rest, unless what it stands on was removed
        if removed.is_empty() { if let Some(tw) = twin {
            hint("cloned iter_rc", &tw, n - clone_at);
            // (what was inserted beyond the point of cloning would be met by the clone)
            if plan[clone_at..].iter().flatten().all(|a| !matches!(a, Act::Prev(_) | Act::Next(_))) {
                let mut tw = tw;
                let mut i = clone_at;
                while i < n || sub.coin() {
                    let k = if sub.chance(1, 3) { sub.below(n - i + 2) } else { 0 };
                    match if k == 0 { tw.next() } else { tw.nth(k) } {
                        Some(x) => { i += k; ensure!(i < n && uid_ok(x.data().uid(), &m, start[i]), "cloned iter_rc: item {i} of {n} is another node's"); i += 1; }
                        None => { ensure!(i + k >= n, "cloned iter_rc ends early, after {i} of {n}"); i = n; }
                    }
                    hint("cloned iter_rc", &tw, n - i);
                }
                ctx.count("cloned_iterators_run_out", 1);
            }
        } }
        drop(at);
        for x in kept_rc { drop(x); }
        obj = Obj::Tree(unsafe { root.into_tree() });
    } else {
        let mut one = |i: usize, x: &mut Pin<&mut Node<P>>, k: usize| {
            ensure!(uid_ok(x.data().uid(), &m, k), "{what}: item {i} is not child {}", m.n[k].val);
            for a in &plan[i] {
                match a {
                    Act::Prev(f) => x.insert_prev_sib(fresh.remove(f).unwrap()),
                    Act::Next(f) => x.insert_next_sib(fresh.remove(f).unwrap()),
                    Act::Detach => { let t = x.detach(); if keep { kept.push(t); } }
                    Act::Set => { let v = x.data().v(); x.data_mut().setv(v + 1000) }
                    Act::PushBack(f) => x.push_back(fresh.remove(f).unwrap()),
                    Act::PushFront(f) => x.push_front(fresh.remove(f).unwrap()),
                    Act::PopFront => { let p = x.pop_front(); if keep { kept.extend(p); } }
                }
            }
        };
        let mut drive = |it: &mut trees::IterMut<P>| {
            for (i, &k) in start.iter().enumerate() {
                hint(what, it, n - i);
                let Some(mut x) = it.next() else { fail!("{what} ends after {i} of {n} children") };
                one(i, &mut x, k);
            }
            for _ in 0..3 { hint(what, it, 0); ensure!(it.next().is_none(), "{what} yields more than the {n} children present at the start"); }
        };
        match (&mut obj, forest) {
            (Obj::Forest(f), _) => drive(&mut f.iter_mut()),
            (Obj::Tree(t), _) if path.is_empty() => drive(&mut t.iter_mut()),
            (o, _) => with_node(o, &path, 0, |mut n| drive(&mut n.iter_mut())),
        }
    }
    ensure!(fresh.is_empty(), "harness: planned trees left over");
    match (&obj, top) {
        (Obj::Tree(t), MObj::Tree(r)) => { same_struct(t.root(), &m, r, &format!("after editing through {what}")); counts_model(t.root(), &m, r, &format!("after editing through {what}")); }
        (Obj::Forest(f), MObj::Forest(id)) => { same_struct_forest(f, &m, &m.f[id], &format!("after editing through {what}")); counts_ok_forest(f, &format!("after editing through {what}"), 1 << 30); }
        _ => unreachable!(),
    }
    for t in &kept { counts_ok(t.root(), None, "tree detached while iterating", 1 << 30); }
    let edits: usize = plan.iter().map(|p| p.len()).sum();
    ctx.count("edits_while_iterating", edits as u64);
    ctx.count("iterations", 1);
    if keep { drop(obj); for t in &kept { counts_ok(t.root(), None, "tree detached while iterating, after the rest is gone", 1 << 30); } }
    ctx.done(start.len() >= 2 && edits >= 1);
}
fn uid_ok(u: u64, m: &Model, k: usize) -> bool { u == 0 || m.n[k].uid == 0 || u == m.n[k].uid }

/// Shared iteration while anything at all is removed or dropped: only safety, termination and single visits are asked.
pub fn hostile_rc<P: Pay>(ctx: &mut Ctx) {
    let mut m = Model::default();
    let mut nv = 0;
    let max = if ctx.small { 5 } else { ctx.scale(14, 300, 100) };
    let mut spec = gen_spec(&mut ctx.c, max, &mut |_| { nv += 1; nv });
    let extra = ctx.c.range(1, 4);
    for _ in 0..extra { nv += 1; spec.kids.push(Spec { val: nv, kids: vec![] }); }
    let style = *ctx.c.pick(&STYLES);
    let mut sub = Choice::seeded(&[ctx.c.raw()]);
    let (t, _) = real_tree::<P>(&mut m, &spec, style, &mut sub);
    op_label(ctx, &format!("iter_rc over {} [{style:?}]", spec.text()));
    let mut root = Some(RcNode::from(t));
    let mut held: Vec<RcNode<P>> = vec![];
    let mut its = vec![root.as_ref().unwrap().iter_rc()];
    let mut steps = 0;
    let mut removals = 0;
    for _ in 0..if ctx.small { 14 } else { 40 } {
        match ctx.c.below(11) {
            0 | 1 | 2 => {
                if its.is_empty() { continue; }
                let i = ctx.c.below(its.len());
                let (lo, hi) = its[i].size_hint();
                ensure!(hi.map_or(true, |h| lo <= h), "iter_rc: size_hint {lo} {hi:?}");
                match its[i].next() {
                    Some(x) => { ctx.op(|| "next".into()); x.data().v(); if ctx.c.coin() { held.push(x); } steps += 1; }
                    None => { ensure!(its[i].next().is_none(), "iter_rc yields again after None"); ensure!(its[i].size_hint() == (0, Some(0)), "iter_rc is over, size_hint {:?}", its[i].size_hint()); let y = its.remove(i).clone(); ensure!(y.size_hint() == (0, Some(0)), "clone of an iter_rc that is over, size_hint {:?}", y.size_hint()); }
                }
            }
            3 => if let Some(r) = &root { ctx.op(|| "pop_front".into()); let p = r.pop_front(); removals += p.is_some() as u32; if ctx.c.coin() { held.extend(p); } }
            4 => if let Some(r) = &root { ctx.op(|| "pop_back".into()); let p = r.pop_back(); removals += p.is_some() as u32; if ctx.c.coin() { held.extend(p); } }
            5 => if ctx.c.chance(1, 3) { ctx.op(|| "drop root".into()); removals += root.take().is_some() as u32; }
            6 => if !held.is_empty() { ctx.op(|| "drop held".into()); let i = ctx.c.below(held.len()); held.remove(i); }
            7 => if !held.is_empty() { let i = ctx.c.below(held.len()); if !held[i].is_root() { ctx.op(|| "detach held".into()); held[i].detach(); removals += 1; } }
            8 => if !held.is_empty() { let i = ctx.c.below(held.len()); ctx.op(|| "iterate held".into()); its.push(held[i].iter_rc()); }
            9 => if !its.is_empty() { let i = ctx.c.below(its.len()); ctx.op(|| "clone iterator".into()); let x = its[i].clone(); ensure!(x.size_hint() == its[i].size_hint(), "size_hint {:?} of the clone of an iter_rc that says {:?}", x.size_hint(), its[i].size_hint()); its.push(x); }
            _ => if !held.is_empty() { let i = ctx.c.below(held.len()); if !held[i].is_root() { ctx.op(|| "insert sibling".into()); held[i].insert_next_sib(Tree::new(P::mk(77))); } else { held[i].push_back(Tree::new(P::mk(78))); } }
        }
    }
    for h in &held { let n = unsafe { h.node() }; let _ = n.node_count(); h.data().v(); }
    if ctx.c.coin() { drop(held); drop(root); for mut i in its { let mut k = 0; while let Some(x) = i.next() { x.data().v(); k += 1; ensure!(k < 10_000, "iter_rc does not end"); } } } else { drop(its); }
    ctx.count("hostile_removals", removals as u64);
    ctx.count("hostile_yields", steps);
    ctx.done(removals >= 1 && steps >= 1);
}

/// Every edit kind at every position of every number of children up to `max`.
pub fn edited_exhaustive<P: Pay>(ctx: &mut Ctx, max: usize) {
    let n = 1 + ctx.case as usize % max;
    const A: usize = 7; // nothing, prev, next, both, detach, push+set, prev then detach
    for shared in [false, true] { for piled in [false, true] { for code in 0..A.pow(n as u32) {
        crate::ctx::SUB.store(code as u64, std::sync::atomic::Ordering::Relaxed);
        let mut m = Model::default();
        let spec = Spec { val: 0, kids: (1..=n as i64).map(|v| Spec { val: v, kids: vec![Spec { val: v * 10, kids: vec![] }] }).collect() };
        let mut sub = Choice::seeded(&[1]);
        let (mut t, r) = real_tree::<P>(&mut m, &spec, if piled { Style::PiledBfs } else { Style::Back }, &mut sub);
        let start = m.n[r].kids.clone();
        let acts: Vec<usize> = (0..n).map(|i| code / A.pow(i as u32) % A).collect();
        ctx.op(|| format!("{} over {n} children, edits {acts:?} (0 none, 1 prev, 2 next, 3 both, 4 detach, 5 push and set, 6 prev and detach)", if shared { "iter_rc" } else { "iter_mut" }));
        let add = |m: &mut Model, v: i64| -> (Tree<P>, usize) { let p = P::mk(v); let id = m.node(v, p.uid()); (Tree::new(p), id) };
        macro_rules! act { ($x:expr, $k:expr, $a:expr, $det:expr) => {{
            let k = $k;
            if matches!($a, 1 | 3 | 6) { let (f, id) = add(&mut m, 50); $x.insert_prev_sib(f); let at = m.index_in_parent(k); m.attach(Par::Node(r), at, id); }
            if matches!($a, 2 | 3) { let (f, id) = add(&mut m, 60); $x.insert_next_sib(f); let at = m.index_in_parent(k) + 1; m.attach(Par::Node(r), at, id); }
            if matches!($a, 4 | 6) { $det; m.remove(k); }
            if $a == 5 { let (f, id) = add(&mut m, 70); $x.push_back(f); let at = m.n[k].kids.len(); m.attach(Par::Node(k), at, id); $x.data_mut().setv(99); m.n[k].val = 99; }
        }} }
        if shared {
            let rc = RcNode::from(t);
            let mut it = rc.iter_rc();
            for (i, &k) in start.iter().enumerate() {
                hint("iter_rc", &it, n - i);
                let Some(x) = it.next() else { fail!("iter_rc ends after {i} of {n} (edits {acts:?})") };
                ensure!(uid_ok(x.data().uid(), &m, k), "iter_rc: item {i} is not child {} (edits {acts:?})", i + 1);
                act!(x, k, acts[i], x.detach());
            }
            ensure!(it.next().is_none() && it.next().is_none(), "iter_rc yields more than {n} (edits {acts:?})");
            drop(it);
            t = unsafe { rc.into_tree() };
        } else {
            let mut it = t.iter_mut();
            for (i, &k) in start.iter().enumerate() {
                hint("iter_mut", &it, n - i);
                let Some(mut x) = it.next() else { fail!("iter_mut ends after {i} of {n} (edits {acts:?})") };
                ensure!(uid_ok(x.data().uid(), &m, k), "iter_mut: item {i} is not child {} (edits {acts:?})", i + 1);
                act!(x, k, acts[i], drop(x.detach()));
            }
            ensure!(it.next().is_none() && it.next().is_none(), "iter_mut yields more than {n} (edits {acts:?})");
        }
        same_struct(t.root(), &m, r, "after editing while iterating");
        counts_model(t.root(), &m, r, "after editing while iterating");
        ctx.count("edits_while_iterating", acts.iter().filter(|a| **a > 0).count() as u64);
        ctx.sig(code as u64 * 4 + shared as u64 * 2 + piled as u64);
        ctx.sig(n as u64);
        ctx.done(code > 0 && n >= 2);
    } } }
    let _ = Forest::<P>::new();
}
