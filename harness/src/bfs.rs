//! BFS streams (C06), clones and rebuilds (C07), inconsistent streams (C08).

use crate::ctx::{catch, Ctx};
use crate::model::*;
use crate::owned::*;
use crate::payload::{self, Pay};
use crate::snap::Snap;
use crate::{ensure, ensure_eq, fail};
use std::pin::Pin;
use trees::bfs::{BfsForest, BfsTree, Visit};
use trees::{Forest, Node, RcNode, Size, Tree};

/// A world with some history behind it, unjudged.
pub fn world<P: Pay>(ctx: &mut Ctx, max: usize, len: usize) -> World<P> {
    let mut w = World::<P>::new(0);
    w.max_slots = 3;
    w.max_nodes = max * 2;
    w.add_tree(ctx, max);
    if ctx.c.coin() { w.add_forest(ctx, max / 2 + 1); }
    for _ in 0..len { w.step(ctx); }
    if w.slots.is_empty() { w.add_tree(ctx, max); }
    w
}

pub fn size_of(ctx: &mut Ctx) -> usize { if ctx.small { 7 } else if ctx.c.chance(1, 10) { 300 } else { ctx.scale(25, 1800, 400) } }

/// Judges one stream against the snapshot; `data` tells address (by reference) or identity (owned) of an item.
fn judge<T>(ctx: &mut Ctx, what: &str, snap: &Snap, tree: bool, size: Size, mut iter: impl Iterator<Item = Visit<T>>, same: impl Fn(&T, usize) -> bool, keep: Option<&mut Vec<T>>) {
    let order = snap.level_order();
    let degree = snap.roots.len();
    let descendants = if tree { order.len() - 1 } else { order.len() };
    ensure!(size.degree == degree && size.descendants == descendants, "{what}: the stream says size {size:?}, expected degree {degree}, descendants {descendants}");
    let mut kept = vec![];
    for (k, &i) in order.iter().enumerate() {
        let Some(v) = iter.next() else { fail!("{what}: ends after {k} of {} visits ({})", order.len(), snap.text()) };
        let n = &snap.n[i];
        ensure!(same(&v.data, i), "{what}: visit {k} is not of node {} ({})", n.val, snap.text());
        ensure_eq!(v.size.degree, n.kids.len(), "{what}: degree in visit {k} of {}", snap.text());
        ensure_eq!(v.size.descendants, n.desc, "{what}: descendants in visit {k} of {}", snap.text());
        kept.push(v.data);
    }
    for _ in 0..2 { ensure!(iter.next().is_none(), "{what}: more visits than the {} nodes of {}", order.len(), snap.text()); }
    ctx.count("visits", order.len() as u64);
    ctx.count("streams", 1);
    if let Some(k) = keep { *k = kept; }
}

fn by_addr<P: Pay>(snap: &Snap) -> impl Fn(&&P, usize) -> bool + '_ {
    move |d, i| std::mem::size_of::<P>() == 0 || (*d as *const P as usize == snap.n[i].addr && d.uid() == snap.n[i].uid && d.v() == snap.n[i].val)
}
fn by_addr_mut<'s, 'a, P: Pay>(snap: &'s Snap) -> impl Fn(&&'a mut P, usize) -> bool + 's {
    move |d, i| std::mem::size_of::<P>() == 0 || ((&**d) as *const P as usize == snap.n[i].addr && d.uid() == snap.n[i].uid && d.v() == snap.n[i].val)
}

/// After exclusive visits: write through every reference held at once, read back.
fn write_all<P: Pay>(refs: Vec<&mut P>, base: i64) {
    let mut a: Vec<usize> = refs.iter().map(|r| &**r as *const P as usize).collect();
    if std::mem::size_of::<P>() > 0 {
        a.sort();
        let n = a.len();
        a.dedup();
        ensure_eq!(a.len(), n, "bfs_mut gave access to an item twice");
    }
    let mut refs = refs;
    for (i, r) in refs.iter_mut().enumerate() { r.setv(base + i as i64 % 100); }
}
fn read_all<P: Pay>(snap: &Snap, base: i64, what: &str, read: impl Fn(usize) -> i64) {
    if !P::VALUES { return; }
    for (i, id) in snap.level_order().into_iter().enumerate() { ensure_eq!(read(snap.n[id].node), base + i as i64 % 100, "{what}: item read back after an update through the stream"); }
}
fn val_at<P: Pay>(node: usize) -> i64 { unsafe { (*(node as *const Node<P>)).data().v() } }

fn node_pin<'a, P: Pay>(obj: &'a mut Obj<P>, path: &[usize], f: impl FnOnce(Pin<&mut Node<P>>)) { with_node(obj, path, 0, f) }

fn streams_of_node<P: Pay>(ctx: &mut Ctx, obj: &mut Obj<P>, path: &[usize]) {
    let (s, c) = shared_streams(ctx, node_ref(obj, path));
    exclusive_streams(ctx, obj, path, s, c);
}

fn shared_streams<P: Pay>(ctx: &mut Ctx, n: &Node<P>) -> (Snap, Snap) {
    let s = Snap::of_node(n);
    let c = Snap::of_children(n);
    let b = n.bfs();
    judge(ctx, "Node::bfs", &s, true, b.size, b.iter, by_addr::<P>(&s), None);
    let b = n.bfs_children();
    judge(ctx, "Node::bfs_children", &c, false, b.size, b.iter, by_addr::<P>(&c), None);
    // map changes the data only, and is called once per item
    let calls = std::cell::Cell::new(0usize);
    let b = n.bfs().map(|d: &P| { calls.set(calls.get() + 1); (d.v(), d.uid()) });
    let (size, mut k) = (b.size, vec![]);
    judge(ctx, "BfsTree::map", &s, true, size, b.iter, |d: &(i64, u64), i| *d == (s.n[i].val, s.n[i].uid), Some(&mut k));
    ensure_eq!(calls.get(), s.total(), "BfsTree::map: calls of the closure");
    let b = n.bfs_children().map(|d: &P| (d.v(), d.uid()));
    judge(ctx, "BfsForest::map", &c, false, b.size, b.iter, |d: &(i64, u64), i| *d == (c.n[i].val, c.n[i].uid), None);
    judge(ctx, "Bfs::iter", &s, true, n.bfs().size, n.bfs().wrap().iter(), by_addr::<P>(&s), None);
    judge(ctx, "Bfs::iter", &c, false, n.bfs_children().size, n.bfs_children().wrap().iter(), by_addr::<P>(&c), None);
    let (it, size) = n.bfs_children().wrap().iter_and_size();
    judge(ctx, "Bfs::iter_and_size", &c, false, size, it, by_addr::<P>(&c), None);
    // the sizes of the children add up to that of the node
    let (whole, mut sum) = (n.bfs_children().size, Size::default());
    for k in n.iter() { let mut x = k.bfs().size; x += Size { degree: 2, descendants: 3 }; sum = sum + (x - Size { degree: 2, descendants: 2 }); }
    ensure_eq!(sum, whole, "sum of the sizes of the children");
    sum -= whole;
    ensure_eq!(sum, Size::default(), "difference of equal sizes");
    let (it, size) = n.bfs().wrap().iter_and_size();
    judge(ctx, "Bfs::iter_and_size", &s, true, size, it, by_addr::<P>(&s), None);
    ensure!(n.bfs().wrap().forest_iter().is_none() && n.bfs_children().wrap().tree_iter().is_none(), "Bfs: a tree stream is not a forest stream");
    match (n.bfs().wrap().tree_iter(), n.bfs_children().wrap().forest_iter()) {
        (Some(a), Some(b)) => {
            judge(ctx, "Bfs::tree_iter", &s, true, n.bfs().size, a, by_addr::<P>(&s), None);
            judge(ctx, "Bfs::forest_iter", &c, false, n.bfs_children().size, b, by_addr::<P>(&c), None);
        }
        _ => fail!("Bfs::tree_iter / forest_iter"),
    }
    (s, c)
}

fn exclusive_streams<P: Pay>(ctx: &mut Ctx, obj: &mut Obj<P>, path: &[usize], s: Snap, c: Snap) {
    drop(c);
    node_pin(obj, path, |mut n| {
        let b = n.bfs_mut();
        let mut k = vec![];
        judge(ctx, "Node::bfs_mut", &s, true, b.size, b.iter, by_addr_mut::<P>(&s), Some(&mut k));
        write_all(k, 100);
    });
    read_all::<P>(&s, 100, "Node::bfs_mut", val_at::<P>);
    let c = Snap::of_children(node_ref(obj, path));
    node_pin(obj, path, |mut n| {
        let b = n.bfs_children_mut();
        let mut k = vec![];
        judge(ctx, "Node::bfs_children_mut", &c, false, b.size, b.iter, by_addr_mut::<P>(&c), Some(&mut k));
        write_all(k, 1000 % 251);
    });
    read_all::<P>(&c, 1000 % 251, "Node::bfs_children_mut", val_at::<P>);
}

pub fn streams<P: Pay>(ctx: &mut Ctx) {
    let max = size_of(ctx);
    let len = ctx.c.below(9);
    let mut w = world::<P>(ctx, max, len);
    let mut nt = false;
    for i in 0..w.slots.len() {
        let m = w.slots[i].m;
        let nodes = w.nodes(m);
        if nodes.len() >= 4 && nodes.iter().any(|n| w.m.n[*n].kids.len() >= 2) && nodes.iter().any(|n| w.m.depth(*n) >= 2) { nt = true; }
        let t = w.text(m);
        op_label(ctx, &format!("streams of {t}"));
        for k in 0..3 {
            if nodes.is_empty() { break; }
            let id = if k == 0 { nodes[0] } else { *ctx.c.pick(&nodes) };
            let path = w.m.path(id);
            streams_of_node(ctx, &mut w.slots[i].obj, &path);
        }
        // an abandoned stream
        let part = ctx.c.below(4);
        match &mut w.slots[i].obj {
            Obj::Tree(t) => {
                let s = Snap::of_node(t.root());
                { let b = t.bfs(); judge(ctx, "Tree::bfs", &s, true, b.size, b.iter, by_addr::<P>(&s), None); }
                let c = Snap::of_children(t.root());
                { let b = t.bfs_children(); judge(ctx, "Tree::bfs_children", &c, false, b.size, b.iter, by_addr::<P>(&c), None); }
                { let b = t.bfs_mut(); let mut k = vec![]; judge(ctx, "Tree::bfs_mut", &s, true, b.size, b.iter, by_addr_mut::<P>(&s), Some(&mut k)); write_all(k, 7); }
                read_all::<P>(&s, 7, "Tree::bfs_mut", val_at::<P>);
                let c = Snap::of_children(t.root());
                { let b = t.bfs_children_mut(); let mut k = vec![]; judge(ctx, "Tree::bfs_children_mut", &c, false, b.size, b.iter, by_addr_mut::<P>(&c), Some(&mut k)); write_all(k, 9); }
                read_all::<P>(&c, 9, "Tree::bfs_children_mut", val_at::<P>);
                let _ = t.bfs().iter.take(part).count();
                let _ = t.bfs_mut().iter.take(part).count();
            }
            Obj::Forest(f) => {
                let s = Snap::of_forest(f);
                { let b = f.bfs(); judge(ctx, "Forest::bfs", &s, false, b.size, b.iter, by_addr::<P>(&s), None); }
                { let b = f.bfs_mut(); let mut k = vec![]; judge(ctx, "Forest::bfs_mut", &s, false, b.size, b.iter, by_addr_mut::<P>(&s), Some(&mut k)); write_all(k, 7); }
                read_all::<P>(&s, 7, "Forest::bfs_mut", val_at::<P>);
                let _ = f.bfs().iter.take(part).count();
                let _ = f.bfs_mut().iter.take(part).count();
            }
        }
    }
    while let Some(s) = w.slots.pop() {
        let part = ctx.c.chance(1, 4);
        match s.obj {
            Obj::Tree(t) => {
                let s = Snap::of_node(t.root());
                let b = t.into_bfs();
                if part { let k = ctx.c.below(s.total() + 1); let _ = b.iter.take(k).count(); }
                else { judge(ctx, "Tree::into_bfs", &s, true, b.size, b.iter, |d: &P, i| d.v() == s.n[i].val && d.uid() == s.n[i].uid, None); }
            }
            Obj::Forest(f) => {
                let s = Snap::of_forest(&f);
                let b = f.into_bfs();
                if part { let k = ctx.c.below(s.total() + 1); let _ = b.iter.take(k).count(); }
                else { judge(ctx, "Forest::into_bfs", &s, false, b.size, b.iter, |d: &P, i| d.v() == s.n[i].val && d.uid() == s.n[i].uid, None); }
            }
        }
    }
    ctx.done(nt);
}

/// Every shape of up to `max` nodes, both storages, every starting node.
pub fn streams_exhaustive<P: Pay>(ctx: &mut Ctx, max: usize) {
    let n = 1 + ctx.case as usize % max;
    for (k, shape) in all_shapes(n).into_iter().enumerate() {
        crate::ctx::SUB.store(k as u64, std::sync::atomic::Ordering::Relaxed);
        for style in [Style::Back, Style::PiledBfs, Style::Mixed] {
            let mut m = Model::default();
            let mut i = 0;
            let mut shape = shape.clone();
            shape.relabel(&mut || { i += 1; i });
            let mut sub = crate::rng::Choice::seeded(&[k as u64]);
            ctx.op(|| format!("all streams of every node of {} [{style:?}]", shape.text()));
            let (t, r) = real_tree::<P>(&mut m, &shape, style, &mut sub);
            let mut obj = Obj::Tree(t);
            for id in m.preorder(&[r]) { let p = m.path(id); streams_of_node(ctx, &mut obj, &p); }
            let Obj::Tree(t) = obj else { unreachable!() };
            let s = Snap::of_node(t.root());
            let b = t.into_bfs();
            judge(ctx, "Tree::into_bfs", &s, true, b.size, b.iter, |d: &P, i| d.v() == s.n[i].val && d.uid() == s.n[i].uid, None);
            let (f, _) = real_forest::<P>(&mut m, &shape.kids, style, &mut sub);
            let s = Snap::of_forest(&f);
            { let b = f.bfs(); judge(ctx, "Forest::bfs", &s, false, b.size, b.iter, by_addr::<P>(&s), None); }
            let b = f.into_bfs();
            judge(ctx, "Forest::into_bfs", &s, false, b.size, b.iter, |d: &P, i| d.v() == s.n[i].val && d.uid() == s.n[i].uid, None);
            ctx.sig_str(&shape.shape());
            ctx.sig(style as u64);
            ctx.done(n >= 3);
        }
    }
}

// ---- C07 --------------------------------------------------------------------------------------------------------

/// A copy made by cloning: equal, every item cloned exactly once from the item in the same place, links right.
fn judge_copy<P: Pay>(what: &str, src: &Snap, copy: Snap, clones_before: u64) {
    if let Err(e) = copy.same(src, false) { fail!("{what} of {}: {e}; got {}", src.text(), copy.text()) }
    if P::NAME == "item" || P::NAME == "wide" {
        for (x, y) in copy.level_order().into_iter().zip(src.level_order()) {
            ensure_eq!(payload::origin(copy.n[x].uid - 1) + 1, src.n[y].uid, "{what}: the copy of node {} was cloned from item", src.n[y].val);
        }
        ensure_eq!(payload::clones() - clones_before, src.total() as u64, "{what}: clones made for {} nodes", src.total());
    }
}
fn counts_both<P: Pay>(what: &str, n: &Node<P>) { counts_ok(n, None, what, 1 << 30); }

fn judge_moved<P: Pay>(what: &str, src: &Snap, got: Snap, clones_before: u64) {
    if let Err(e) = got.same(src, true) { fail!("{what} of {}: {e}; got {}", src.text(), got.text()) }
    if P::NAME == "item" { ensure_eq!(payload::clones(), clones_before, "{what}: clones made"); }
}

/// The source still is what it was.
fn unchanged<P: Pay>(what: &str, before: &Snap, now: Snap) {
    if let Err(e) = now.same(before, true) { fail!("{what} changed its source {}: {e}; now {}", before.text(), now.text()) }
}

pub fn clones<P: Pay>(ctx: &mut Ctx) {
    let max = size_of(ctx);
    let len = ctx.c.below(7);
    let mut w = world::<P>(ctx, max, len);
    let i = ctx.c.below(w.slots.len());
    let nodes = w.nodes(w.slots[i].m);
    let text = w.text(w.slots[i].m);
    op_label(ctx, &format!("copies of {text}"));
    let nt = nodes.len() >= 3;
    let clones = |_: ()| payload::clones();
    // node at any depth
    if !nodes.is_empty() {
        let id = *ctx.c.pick(&nodes);
        let path = w.m.path(id);
        op_label(ctx, &format!("from node {path:?}"));
        let n = node_ref(&w.slots[i].obj, &path);
        let (s, sc) = (Snap::of_node(n), Snap::of_children(n));
        let mut made: Vec<(Obj<P>, MObj)> = vec![];
        let k = clones(());
        let t = n.deep_clone();
        judge_copy::<P>("deep_clone", &s, Snap::of_node(t.root()), k);
        counts_both("deep_clone", t.root());
        let r = w.m.copy(id);
        made.push((Obj::Tree(t), MObj::Tree(r)));
        let k = clones(());
        let f = n.deep_clone_forest();
        judge_copy::<P>("deep_clone_forest", &sc, Snap::of_forest(&f), k);
        counts_ok_forest(&f, "deep_clone_forest", 1 << 30);
        let fid = w.m.forest();
        for c in w.m.n[id].kids.clone() { let c2 = w.m.copy(c); w.m.n[c2].up = Par::Forest(fid); w.m.f[fid].push(c2); }
        made.push((Obj::Forest(f), MObj::Forest(fid)));
        let k = clones(());
        let t = Tree::from(n.bfs().map(|d: &P| d.clone()));
        judge_copy::<P>("Tree::from(bfs().map(clone))", &s, Snap::of_node(t.root()), k);
        counts_both("Tree::from(bfs)", t.root());
        drop(t);
        let k = clones(());
        let f = Forest::from(n.bfs_children().map(|d: &P| d.clone()));
        judge_copy::<P>("Forest::from(bfs_children().map(clone))", &sc, Snap::of_forest(&f), k);
        counts_ok_forest(&f, "Forest::from(bfs_children)", 1 << 30);
        drop(f);
        // a tree of references
        let t: Tree<&P> = Tree::from(n.bfs());
        ensure_eq!(t.node_count(), s.total(), "Tree::from(bfs()): node_count");
        let mut q: Vec<&Node<&P>> = vec![t.root()];
        let order = s.level_order();
        let mut at = 0;
        while at < q.len() {
            let x = q[at];
            ensure!(at < order.len(), "Tree::from(bfs()): too many nodes");
            ensure!(std::mem::size_of::<P>() == 0 || *x.data() as *const P as usize == s.n[order[at]].addr, "Tree::from(bfs()): node {at} in level order refers to another item");
            ensure_eq!(x.degree(), s.n[order[at]].kids.len(), "Tree::from(bfs()): degree");
            q.extend(x.iter());
            at += 1;
        }
        drop(q);
        drop(t);
        unchanged::<P>("copying", &s, Snap::of_node(node_ref(&w.slots[i].obj, &path)));
        for (o, m) in made {
            match (&o, m) { (Obj::Tree(t), MObj::Tree(r)) => note(&mut w.m, t.root(), r), (Obj::Forest(f), MObj::Forest(id)) => for (c, k) in f.iter().zip(w.m.f[id].clone()) { note(&mut w.m, c, k) }, _ => () }
            w.slots.push(Slot { obj: o, m });
        }
    }
    // whole trees and forests
    let m = w.slots[i].m;
    let (obj2, m2) = match (&w.slots[i].obj, m) {
        (Obj::Tree(t), MObj::Tree(r)) => {
            let s = Snap::of_node(t.root());
            let k = clones(());
            let c = t.clone();
            judge_copy::<P>("Tree::clone", &s, Snap::of_node(c.root()), k);
            counts_both("Tree::clone", c.root());
            unchanged::<P>("Tree::clone", &s, Snap::of_node(t.root()));
            // over a tree that is already there
            let mut over = match &w.slots[ctx.c.below(w.slots.len())].obj {
                Obj::Tree(o) => o.clone(),
                Obj::Forest(o) => o.front().map(|n| n.deep_clone()).unwrap_or_else(|| t.clone()),
            };
            if ctx.c.chance(1, 3) { let _ = over.pop_front(); }
            let k = clones(());
            over.clone_from(t);
            judge_copy::<P>("Tree::clone_from", &s, Snap::of_node(over.root()), k);
            counts_both("Tree::clone_from", over.root());
            unchanged::<P>("Tree::clone_from", &s, Snap::of_node(t.root()));
            drop(over);
            let rc = RcNode::from(c);
            let s1 = { let n = unsafe { rc.node() }; Snap::of_node(&n) };
            let k = clones(());
            let d = rc.deep_clone();
            judge_copy::<P>("RcNode::deep_clone", &s1, Snap::of_node(d.root()), k);
            counts_both("RcNode::deep_clone", d.root());
            let r2 = w.m.copy(r);
            drop(rc);
            note(&mut w.m, d.root(), r2);
            (Obj::Tree(d), MObj::Tree(r2))
        }
        (Obj::Forest(f), MObj::Forest(id)) => {
            let s = Snap::of_forest(f);
            let k = clones(());
            let c = f.clone();
            judge_copy::<P>("Forest::clone", &s, Snap::of_forest(&c), k);
            counts_ok_forest(&c, "Forest::clone", 1 << 30);
            let mut over = match &w.slots[ctx.c.below(w.slots.len())].obj { Obj::Tree(o) => o.deep_clone_forest(), Obj::Forest(o) => o.clone() };
            if ctx.c.chance(1, 3) { let _ = over.pop_front(); }
            let k = clones(());
            over.clone_from(f);
            judge_copy::<P>("Forest::clone_from", &s, Snap::of_forest(&over), k);
            counts_ok_forest(&over, "Forest::clone_from", 1 << 30);
            drop(over);
            let k = clones(());
            let c2 = Forest::from(f.bfs().map(|d: &P| d.clone()));
            judge_copy::<P>("Forest::from(bfs().map(clone))", &s, Snap::of_forest(&c2), k);
            unchanged::<P>("Forest::clone", &s, Snap::of_forest(f));
            drop(c);
            let id2 = w.m.forest();
            for x in w.m.f[id].clone() { let x2 = w.m.copy(x); w.m.n[x2].up = Par::Forest(id2); w.m.f[id2].push(x2); }
            for (c, k) in c2.iter().zip(w.m.f[id2].clone()) { note(&mut w.m, c, k) }
            (Obj::Forest(c2), MObj::Forest(id2))
        }
        _ => unreachable!(),
    };
    w.slots.push(Slot { obj: obj2, m: m2 });
    // rebuilt by moving
    let s = w.slots.remove(i);
    let obj = match s.obj {
        Obj::Tree(t) => {
            let sn = Snap::of_node(t.root());
            let k = clones(());
            let t = Tree::from(t.into_bfs());
            judge_moved::<P>("Tree::from(into_bfs())", &sn, Snap::of_node(t.root()), k);
            counts_both("Tree::from(into_bfs())", t.root());
            Obj::Tree(t)
        }
        Obj::Forest(f) => {
            let sn = Snap::of_forest(&f);
            let k = clones(());
            let f = Forest::from(f.into_bfs());
            judge_moved::<P>("Forest::from(into_bfs())", &sn, Snap::of_forest(&f), k);
            counts_ok_forest(&f, "Forest::from(into_bfs())", 1 << 30);
            Obj::Forest(f)
        }
    };
    w.slots.insert(i, Slot { obj, m: s.m });
    ctx.count("copies_judged", 9);
    // independence: edits of one never show in the others
    w.mask = STRUCT | COUNTS | DROPS;
    w.max_slots = 9;
    w.max_nodes = 4 * max + 40;
    w.judge_all("after copying");
    for _ in 0..ctx.c.below(if max > 100 { 4 } else { 14 }) { if w.step(ctx) { ctx.count("edits_after_copy", 1); w.judge_all("after an edit of a copy or its source"); w.judge_drops("after an edit of a copy or its source"); } }
    while !w.slots.is_empty() {
        let a = ctx.c.below(w.slots.len());
        drop(w.slots.remove(a));
        w.judge_all("after dropping a copy or its source");
    }
    ctx.done(nt);
}
fn note<P: Pay>(m: &mut Model, node: &Node<P>, id: usize) {
    let mut st = vec![(node, id)];
    while let Some((n, i)) = st.pop() {
        m.n[i].uid = n.data().uid();
        let kids = m.n[i].kids.clone();
        for (c, k) in n.iter().zip(kids) { st.push((c, k)); }
    }
}

// ---- C08 --------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct V { val: i64, degree: usize, desc: usize }

/// What the visits spell, read by degrees alone: the child index ranges, or None when they do not fit together.
fn decode(v: &[V], roots: usize) -> Option<Vec<usize>> {
    // parent-degree sequence must use every visit exactly once
    let mut next = roots;
    let mut first = vec![];
    for (i, x) in v.iter().enumerate() {
        if i >= next { return None; }
        first.push(next);
        next = next.checked_add(x.degree)?;
    }
    if next != v.len() { return None; }
    Some(first)
}
fn consistent(v: &[V], roots: usize, size: Size, tree: bool) -> bool {
    let Some(first) = decode(v, roots) else { return false };
    let mut desc = vec![0usize; v.len()];
    for i in (0..v.len()).rev() { desc[i] = (first[i]..first[i] + v[i].degree).map(|k| 1 + desc[k]).sum(); }
    (0..v.len()).all(|i| desc[i] == v[i].desc) && size.degree == roots && size.descendants == if tree { v.len().wrapping_sub(1) } else { v.len() }
}

pub fn hostile_streams<P: Pay>(ctx: &mut Ctx) {
    let tree = ctx.c.coin();
    let max = if ctx.small { 6 } else { ctx.scale(14, 700, 150) };
    let mut nv = 0;
    let n_roots = if tree { 1 } else { ctx.c.below(4) };
    let specs: Vec<Spec> = (0..n_roots).map(|_| gen_spec(&mut ctx.c, max, &mut |_| { nv += 1; nv })).collect();
    let mut m = Model::default();
    let roots: Vec<usize> = specs.iter().map(|s| m.import(s)).collect();
    let order = m.level_order(&roots);
    let mut v: Vec<V> = order.iter().map(|&i| V { val: m.n[i].val, degree: m.n[i].kids.len(), desc: m.size(i) - 1 }).collect();
    let mut size = Size { degree: n_roots, descendants: if tree { v.len() - 1 } else { v.len() } };
    let muts = ctx.c.below(4);
    let mut how = vec![];
    let odd = [usize::MAX, usize::MAX - 1, usize::MAX / 2, 0, 1, 2, 3, 5, 40];
    let wraps = [1 << 8, 1 << 16, 1 << 32];
    for _ in 0..muts {
        let kind = ctx.c.below(14);
        let i = if v.is_empty() { 0 } else { ctx.c.below(v.len()) };
        match kind {
            0 if !v.is_empty() => { v[i].degree = v[i].degree.wrapping_add(1); how.push("degree+1") }
            1 if !v.is_empty() => { v[i].degree = v[i].degree.saturating_sub(1); how.push("degree-1") }
            2 if !v.is_empty() => { v[i].desc = v[i].desc.wrapping_add(1); how.push("descendants+1") }
            3 if !v.is_empty() => { v[i].desc = v[i].desc.saturating_sub(1); how.push("descendants-1") }
            4 if !v.is_empty() => { v[i].degree = *ctx.c.pick(&odd); how.push("odd degree") }
            5 if !v.is_empty() => { v[i].desc = *ctx.c.pick(&odd); how.push("odd descendants") }
            6 if !v.is_empty() => { v.remove(i); how.push("visit left out") }
            7 if !v.is_empty() => { let x = v[i].clone(); v.insert(i, x); how.push("visit doubled") }
            8 if !v.is_empty() => { let k = ctx.c.below(v.len() + 1); v.truncate(k); how.push("cut short") }
            9 if v.len() >= 2 => { let j = ctx.c.below(v.len()); v.swap(i, j); how.push("visits swapped") }
            10 => { size.degree = if ctx.c.below(8) == 0 { size.degree.wrapping_add(*ctx.c.pick(&wraps)) } else if ctx.c.coin() { *ctx.c.pick(&odd) } else { ctx.c.below(v.len() + 2) }; how.push("size.degree") }
            // claims that are right in their low bits
            12 if !v.is_empty() => { v[i].degree = v[i].degree.wrapping_add(*ctx.c.pick(&wraps)); how.push("degree+2^k") }
            13 if !v.is_empty() => { v[i].desc = v[i].desc.wrapping_add(*ctx.c.pick(&wraps)); how.push("descendants+2^k") }
            11 => { size.descendants = if ctx.c.below(8) == 0 { size.descendants.wrapping_add(*ctx.c.pick(&wraps)) } else if ctx.c.coin() { *ctx.c.pick(&odd) } else { ctx.c.below(v.len() + 3) }; how.push("size.descendants") }
            _ => (),
        }
    }
    op_label(ctx, &format!("{} of {v:?}, size {size:?} ({how:?})", if tree { "Tree::from" } else { "Forest::from" }));
    // huge claims must not turn into huge allocations we have to serve
    let claimed = if tree { v.first().map_or(0, |x| x.desc) } else { size.descendants };
    if claimed > (if ctx.small { 1000 } else { 70_000 }) && claimed < usize::MAX / 4 { ctx.done(false); return; }
    let ok = if tree { !v.is_empty() && consistent(&v, 1, size, true) } else { consistent(&v, size.degree, size, false) };
    let visits: Vec<Visit<P>> = v.iter().map(|x| Visit { data: P::mk(x.val), size: Size { degree: x.degree, descendants: x.desc } }).collect();
    let uids: Vec<u64> = visits.iter().map(|x| x.data.uid()).collect();
    let lying = ctx.c.below(3);
    ctx.count("streams", 1);
    let judge_node = |n: &Node<P>| -> usize { counts_ok(n, None, "tree made from an inconsistent stream", 1 << 16) };
    if tree {
        let r = catch(|| Tree::from(BfsTree { iter: Hint { it: visits.into_iter(), lie: lying }, size }));
        match r {
            Ok(t) => {
                ctx.count("accepted", 1);
                judge_node(t.root());
                judge_items(&Snap::of_node(t.root()), &uids, &v);
                let s = t.clone();
                counts_ok(s.root(), None, "its clone", 1 << 16);
                drop(t);
            }
            Err(e) => { ensure!(!ok, "a consistent stream was refused: {v:?}, size {size:?}: {e}"); ctx.count("refused", 1); }
        }
    } else {
        let r = catch(|| Forest::from(BfsForest { iter: Hint { it: visits.into_iter(), lie: lying }, size }));
        match r {
            Ok(f) => {
                ctx.count("accepted", 1);
                counts_ok_forest(&f, "forest made from an inconsistent stream", 1 << 16);
                judge_items(&Snap::of_forest(&f), &uids, &v);
                let s = f.clone();
                counts_ok_forest(&s, "its clone", 1 << 16);
                drop(f);
            }
            Err(e) => { ensure!(!ok, "a consistent stream was refused: {v:?}, size {size:?}: {e}"); ctx.count("refused", 1); }
        }
    }
    if ok { ctx.count("consistent_streams", 1); }
    ctx.done(!ok && v.len() >= 2);
}

/// The result holds exactly the items supplied, in the order supplied.
fn judge_items(s: &Snap, uids: &[u64], v: &[V]) {
    let got: Vec<u64> = s.level_order().iter().map(|i| s.n[*i].uid).collect();
    ensure!(got == uids, "accepted stream: items {got:?} in level order, supplied {uids:?}");
    let first = decode(v, s.roots.len());
    ensure!(first.is_some(), "accepted stream {v:?} gave {} although its degrees fit no tree", s.text());
    for (i, x) in s.level_order().into_iter().zip(v) {
        ensure!(s.n[i].kids.len() == x.degree, "accepted stream {v:?} gave {}: degree of {}", s.text(), x.val);
        ensure!(s.n[i].desc == x.desc, "accepted stream {v:?} gave {}: node {} has {} descendants, the visit says {}", s.text(), x.val, s.n[i].desc, x.desc);
    }
}

/// An iterator whose size_hint is useless or wrong.
struct Hint<I> { it: I, lie: usize }
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.lie { 0 => self.it.size_hint(), 1 => (0, None), _ => (0, Some(0)) } }
}

/// Streams of real trees, filtered, partly consumed, reordered or joined.
pub fn doctored_streams<P: Pay>(ctx: &mut Ctx) {
    let max = if ctx.small { 6 } else { ctx.scale(12, 700, 150) };
    let len = ctx.c.below(4);
    let w = world::<P>(ctx, max, len);
    for s in &w.slots {
        let kind = ctx.c.below(6);
        let k = ctx.c.below(5);
        op_label(ctx, &format!("doctored({kind},{k}) stream of {}", w.text(s.m)));
        ctx.count("streams", 1);
        let r = match &s.obj {
            Obj::Tree(t) => catch(|| {
                let b = t.bfs().map(|d: &P| d.clone());
                let size = b.size;
                let mut i = 0;
                let t2: Tree<P> = match kind {
                    0 => Tree::from(BfsTree { iter: b.iter.skip(k), size }),
                    1 => Tree::from(BfsTree { iter: b.iter.take(k), size }),
                    2 => Tree::from(BfsTree { iter: b.iter.filter(|_| { i += 1; i != k + 1 }), size }),
                    3 => { let mut v: Vec<_> = b.iter.collect(); v.reverse(); Tree::from(BfsTree { iter: v.into_iter(), size }) }
                    4 => { let b2 = t.bfs().map(|d: &P| d.clone()); Tree::from(BfsTree { iter: b.iter.chain(b2.iter), size }) }
                    _ => { let mut it = b.iter; for _ in 0..k { it.next(); } Tree::from(BfsTree { iter: it, size }) }
                };
                counts_ok(t2.root(), None, "tree made from a doctored stream", 1 << 16);
                let u = t2.clone();
                counts_ok(u.root(), None, "its clone", 1 << 16);
            }),
            Obj::Forest(f) => catch(|| {
                let b = f.bfs().map(|d: &P| d.clone());
                let size = b.size;
                let mut i = 0;
                let f2: Forest<P> = match kind {
                    0 => Forest::from(BfsForest { iter: b.iter.skip(k), size }),
                    1 => Forest::from(BfsForest { iter: b.iter.take(k), size }),
                    2 => Forest::from(BfsForest { iter: b.iter.filter(|_| { i += 1; i != k + 1 }), size }),
                    3 => { let mut v: Vec<_> = b.iter.collect(); v.reverse(); Forest::from(BfsForest { iter: v.into_iter(), size }) }
                    4 => { let b2 = f.bfs().map(|d: &P| d.clone()); Forest::from(BfsForest { iter: b.iter.chain(b2.iter), size }) }
                    _ => { let mut it = b.iter; for _ in 0..k { it.next(); } Forest::from(BfsForest { iter: it, size }) }
                };
                counts_ok_forest(&f2, "forest made from a doctored stream", 1 << 16);
                let u = f2.clone();
                counts_ok_forest(&u, "its clone", 1 << 16);
            }),
        };
        ctx.count(if r.is_ok() { "accepted" } else { "refused" }, 1);
        match &s.obj { Obj::Tree(t) => { counts_ok(t.root(), None, "source of a doctored stream", 1 << 16); } Obj::Forest(f) => counts_ok_forest(f, "source of a doctored stream", 1 << 16) }
    }
    ctx.done(true);
}

/// A tree type of the user's own, streamed into the crate through its `Split` trait.
struct Own<P> { data: P, kids: Vec<Own<P>>, below: usize }
impl<P> trees::bfs::Split for Own<P> {
    type Item = P;
    type Iter = std::vec::IntoIter<Own<P>>;
    fn split(self) -> (P, Self::Iter, usize) { (self.data, self.kids.into_iter(), self.below) }
}
fn own<P: Pay>(m: &Model, id: usize, uids: &mut std::collections::HashMap<usize, (i64, u64)>) -> Own<P> {
    let data = P::mk(m.n[id].val);
    uids.insert(id, (data.v(), data.uid()));
    Own { data, below: m.size(id) - 1, kids: m.n[id].kids.iter().map(|k| own(m, *k, uids)).collect() }
}

pub fn own_streams<P: Pay>(ctx: &mut Ctx) {
    use trees::bfs::Splitted;
    let max = size_of(ctx);
    let tree = ctx.c.coin();
    let n_roots = if tree { 1 } else { ctx.c.below(5) };
    let mut m = Model::default();
    let roots: Vec<usize> = (0..n_roots).map(|_| { let s = gen_spec(&mut ctx.c, max, &mut |c| c.below(9) as i64); m.import(&s) }).collect();
    let order = m.level_order(&roots);
    let mut uids = std::collections::HashMap::new();
    let v: Vec<Own<P>> = roots.iter().map(|r| own(&m, *r, &mut uids)).collect();
    let size = Size { degree: n_roots, descendants: if tree { order.len() - 1 } else { order.len() } };
    let how = ctx.c.below(5);
    op_label(ctx, &format!("a user's own {} of {} nodes, {} roots, use {how}", if tree { "tree" } else { "forest" }, order.len(), n_roots));
    for id in &order { ctx.sig(m.n[*id].kids.len() as u64); }
    let key = |id: usize| uids[&id];
    let visits = |it: &mut dyn Iterator<Item = Visit<P>>, n: usize| -> Vec<P> {
        let mut held = vec![];
        for (k, id) in order.iter().take(n).enumerate() {
            let Some(x) = it.next() else { fail!("own stream ends after {k} of {} visits", order.len()) };
            ensure!((x.data.v(), x.data.uid()) == key(*id), "own stream: visit {k} is not of the node due");
            ensure_eq!((x.size.degree, x.size.descendants), (m.n[*id].kids.len(), m.size(*id) - 1), "own stream: (degree, descendants) in visit {k}");
            held.push(x.data);
        }
        if n >= order.len() { for _ in 0..3 { ensure!(it.next().is_none(), "own stream: more visits than the {} nodes", order.len()); } }
        held
    };
    let built = |s: Snap, what: &str| {
        let got: Vec<(i64, u64, usize, usize)> = s.level_order().into_iter().map(|i| (s.n[i].val, s.n[i].uid, s.n[i].kids.len(), s.n[i].desc)).collect();
        let due: Vec<(i64, u64, usize, usize)> = order.iter().map(|i| (key(*i).0, key(*i).1, m.n[*i].kids.len(), m.size(*i) - 1)).collect();
        ensure!(got == due, "{what}: items, degrees or counts differ from the user's own tree: {got:?}, expected {due:?}");
    };
    let part = ctx.c.below(order.len() + 1);
    match (tree, how) {
        (true, 0) => { let b = BfsTree::<Splitted<_>>::from(v, size); ensure_eq!(b.size, size, "BfsTree::from"); let mut it = b.wrap().tree_iter().unwrap(); visits(&mut it, usize::MAX); }
        (true, 1) => { let mut b = BfsTree::<Splitted<_>>::from(v, size); visits(&mut b.iter, part); }
        (true, 2) => { let t = Tree::from(BfsTree::<Splitted<_>>::from(v, size)); built(Snap::of_node(t.root()), "Tree::from(own)"); counts_ok(t.root(), None, "Tree::from(own)", 1 << 16); }
        (true, 3) => {
            let t = Tree::from(BfsTree::<Splitted<_>>::from(v, size).map(|d: P| Some(d)));
            let t = Tree::from(t.into_bfs().map(|d| d.unwrap()));
            built(Snap::of_node(t.root()), "Tree::from(own.map)");
        }
        (true, _) => { let rc = RcNode::from(Tree::from(BfsTree::<Splitted<_>>::from(v, size))); let n = unsafe { rc.node() }; built(Snap::of_node(&n), "RcNode::from(own)"); }
        (false, 0) => { let b = BfsForest::<Splitted<_>>::from(v, size); ensure_eq!(b.size, size, "BfsForest::from"); let mut it = b.wrap().forest_iter().unwrap(); visits(&mut it, usize::MAX); }
        (false, 1) => { let mut b = BfsForest::<Splitted<_>>::from(v, size); visits(&mut b.iter, part); }
        (false, 2) => { let f = Forest::from(BfsForest::<Splitted<_>>::from(v, size)); built(Snap::of_forest(&f), "Forest::from(own)"); counts_ok_forest(&f, "Forest::from(own)", 1 << 16); }
        (false, 3) => {
            let f = Forest::from(BfsForest::<Splitted<_>>::from(v, size).map(|d: P| Some(d)));
            let f = Forest::from(f.into_bfs().map(|d| d.unwrap()));
            built(Snap::of_forest(&f), "Forest::from(own.map)");
        }
        (false, _) => { let mut it = BfsForest::<Splitted<_>>::from(v, size).wrap().iter(); visits(&mut it, usize::MAX); }
    }
    ctx.count("visits", order.len() as u64);
    ctx.done(order.len() >= 3);
}
