//! Items whose own destructor, clone, comparison, hash and text look at, and edit, the trees they live in (C18, C21).

use crate::ctx::{Ctx};
use crate::model::{counts_ok, op_label};
use crate::payload::{Item, Pay};
use crate::rng::Choice;
use crate::{ensure, ensure_eq};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use trees::{Forest, Node, RcNode, Tree, WeakNode};

pub struct R { item: Item }
#[derive(Default)]
struct World { held: Vec<RcNode<R>>, weak: Vec<Option<WeakNode<R>>>, next: i64 }
thread_local! {
    static W: RefCell<World> = RefCell::default();
    static C: RefCell<Option<Choice>> = RefCell::new(None);
    static BUDGET: Cell<usize> = Cell::new(0);
    static DEPTH: Cell<usize> = Cell::new(0);
    static CALLS: Cell<u64> = Cell::new(0);
    static EDITS: Cell<u64> = Cell::new(0);
}
fn below(n: usize) -> usize { C.with(|c| c.borrow_mut().as_mut().map_or(0, |c| c.below(n))) }
fn w<T>(f: impl FnOnce(&mut World) -> T) -> T { W.with(|x| f(&mut x.borrow_mut())) }
fn id(v: i64) -> usize { v as usize }
fn new_item() -> R { R { item: Item::mk(w(|x| { x.weak.push(None); x.next += 1; x.next - 1 })) } }

/// Every new node below (or at) this one gets a weak handle by which items can find it.
fn register(n: &RcNode<R>) {
    let v = id(n.data().item.v());
    if w(|x| x.weak[v].is_none()) { let d = n.downgrade(); w(|x| x.weak[v] = Some(d)); }
    for c in n.iter_rc() { register(&c); }
}

fn read(h: &RcNode<R>) {
    let _ = h.data().item.v();
    let n = h.iter_rc().count();
    ensure_eq!(h.degree(), n, "degree of a living node, read by an item");
    ensure!(h.node_count() > n, "node_count of a living node, read by an item");
    ensure!(h.front().is_some() == (n > 0) && h.back().is_some() == (n > 0), "ends of a living node, read by an item");
    if let Some(p) = h.parent() { ensure!(p.degree() > 0, "parent of a living node, read by an item"); let _ = p.data().item.v(); }
}

/// Called by the library through an item. `edit`: nothing is borrowed now, so anything may be edited.
fn callback(own: Option<i64>, edit: bool) {
    if BUDGET.with(|b| b.get()) == 0 || DEPTH.with(|d| d.get()) >= 3 { return; }
    struct G;
    impl Drop for G { fn drop(&mut self) { DEPTH.with(|d| d.set(d.get() - 1)); } }
    DEPTH.with(|d| d.set(d.get() + 1));
    let _g = G;
    BUDGET.with(|b| b.set(b.get() - 1));
    CALLS.with(|b| b.set(b.get() + 1));
    if let Some(v) = own {
        if let Some(weak) = w(|x| x.weak[id(v)].take()) {
            let up = weak.upgrade();
            ensure!(up.is_none(), "the item of node {v} is being dropped, and a weak handle of the node still upgrades");
            w(|x| x.weak[id(v)] = Some(weak));
        }
    }
    for _ in 0..below(3) {
        let n = w(|x| x.weak.len());
        let k = below(n.max(1));
        let Some(weak) = w(|x| x.weak.get_mut(k).and_then(|o| o.take())) else { continue };
        let up = weak.upgrade();
        w(|x| x.weak[k] = Some(weak));
        let Some(h) = up else { continue };
        read(&h);
        if !edit { continue; }
        EDITS.with(|b| b.set(b.get() + 1));
        match below(7) {
            0 => { h.push_back(Tree::new(new_item())); register(&h.back().unwrap()); }
            1 => { let c = h.pop_front(); if below(2) == 0 { if let Some(c) = c { w(|x| x.held.push(c)); } } else { drop(c) } }
            2 => if !h.is_root() { h.detach(); },
            3 => w(|x| x.held.push(h)),
            4 => { let k = w(|x| x.held.len()); if k > 0 { let k = below(k); let d = w(|x| x.held.swap_remove(k)); drop(d); } }
            5 => if !h.is_root() { h.insert_next_sib(Tree::new(new_item())); register(&h.parent().unwrap()); },
            _ => (),
        }
    }
}

impl Drop for R { fn drop(&mut self) { callback(Some(self.item.v()), true); } }
impl Clone for R { fn clone(&self) -> R { callback(None, false); let _ = self.item.v(); new_item() } }
impl PartialEq for R { fn eq(&self, o: &R) -> bool { callback(None, false); self.item == o.item } }
impl Eq for R {}
impl PartialOrd for R { fn partial_cmp(&self, o: &R) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for R { fn cmp(&self, o: &R) -> std::cmp::Ordering { callback(None, false); self.item.cmp(&o.item) } }
impl Hash for R { fn hash<H: Hasher>(&self, h: &mut H) { callback(None, false); self.item.hash(h) } }
impl std::fmt::Display for R { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { callback(None, false); self.item.fmt(f) } }
impl std::fmt::Debug for R { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.item.fmt(f) } }
impl Pay for R {
    const NAME: &'static str = "re-entrant";
    fn mk(_: i64) -> R { new_item() }
    fn v(&self) -> i64 { self.item.v() }
    fn setv(&mut self, _: i64) {}
    fn uid(&self) -> u64 { self.item.uid() }
}

/// Trees of a few nodes, stored either way.
fn make(piled: bool) -> Tree<R> {
    fn grow(max: &mut usize) -> Tree<R> { let mut t = Tree::new(new_item()); while *max > 0 && below(3) != 0 { *max -= 1; let c = grow(max); t.push_back(c); } t }
    let mut max = 1 + below(7);
    let t = grow(&mut max);
    if piled { Tree::from(t.into_bfs()) } else { t }
}
fn adopt(t: Tree<R>) -> RcNode<R> { let r = RcNode::from(t); register(&r); r }

fn judge(what: &str) {
    let held: Vec<RcNode<R>> = w(|x| x.held.clone());
    let mut alive = BTreeSet::new();
    fn walk(n: &RcNode<R>, s: &mut BTreeSet<usize>) { s.insert(id(n.data().item.v())); for c in n.iter_rc() { ensure!(c.parent().is_some(), "a child has no parent"); walk(&c, s); } }
    for h in &held {
        walk(h, &mut alive);
        let mut top = h.clone();
        while let Some(p) = top.parent() {
            top = p;
        }
        let n: std::cell::Ref<Node<R>> = unsafe { top.node() };
        counts_ok(&n, None, &what, 1 << 12);
    }
    for k in 0..w(|x| x.weak.len()) {
        let Some(weak) = w(|x| x.weak[k].take()) else { continue };
        let up = weak.upgrade().is_some();
        w(|x| x.weak[k] = Some(weak));
        ensure_eq!(up, alive.contains(&k), "{what}: a weak handle of node {k} upgrades, and it is held or below a held node");
    }
    ensure_eq!(crate::payload::live() as usize, alive.len(), "{what}: items alive against nodes held or below held nodes");
}

fn act(op: usize, h: RcNode<R>, a: usize, b: usize) {
        match op {
            0 => { let c = h.pop_front(); if below(2) == 0 { if let Some(c) = c { w(|x| x.held.push(c)) } } }
            1 => drop(h.pop_back()),
            2 => if !h.is_root() { h.detach() },
            3 => { drop(h); let d = w(|x| x.held.swap_remove(a)); drop(d); }
            4 => { if let Some(c) = h.iter_rc().nth(below(3)) { w(|x| x.held.push(c)) } }
            5 => { BUDGET.with(|b| b.set(0)); h.push_front(make(below(2) == 0)); register(&h); }
            6 => { BUDGET.with(|b| b.set(0)); let mut f = Forest::new(); for _ in 0..below(3) { f.push_back(make(false)); } h.append(f); register(&h); }
            7 => { let t = h.deep_clone(); BUDGET.with(|b| b.set(0)); ensure!(t.node_count() == h.node_count(), "a deep clone has another size"); let r = adopt(t); w(|x| x.held.push(r)); }
            8 => { let o = w(|x| x.held[b].clone()); let (e, c) = (h == o, h.cmp(&o)); ensure!(e == (c == std::cmp::Ordering::Equal), "comparison by re-entrant items"); }
            9 => { let s = h.to_string(); ensure!(!s.is_empty(), "text"); let mut d = std::collections::hash_map::DefaultHasher::new(); h.hash(&mut d); }
            10 => { let it = h.iter_rc(); drop(h); for c in it { read(&c); match below(4) { 0 => if !c.is_root() { c.detach() }, 1 => { let k = w(|x| x.held.len()); if k > 1 { let d = w(|x| x.held.swap_remove(k - 1)); drop(d); } } _ => () } } }
            _ => { let k = w(|x| std::mem::take(&mut x.held)); let mut k = k; while k.len() > 2 { k.pop(); } w(|x| x.held.extend(k)); }
        }
}

pub fn run(ctx: &mut Ctx) {
    struct Clean;
    impl Drop for Clean { fn drop(&mut self) { BUDGET.with(|b| b.set(0)); let h = w(|x| std::mem::take(&mut x.held)); drop(h); let k = w(|x| std::mem::take(&mut x.weak)); drop(k); w(|x| x.next = 0); C.with(|c| *c.borrow_mut() = None); } }
    let _clean = Clean;
    w(|x| *x = World::default());
    let seed = ctx.c.raw();
    C.with(|c| *c.borrow_mut() = Some(Choice::seeded(&[seed])));
    BUDGET.with(|b| b.set(0));
    for _ in 0..1 + below(2) { let t = adopt(make(below(2) == 0)); w(|x| x.held.push(t)); }
    let (mut ops, calls, edits) = (0, CALLS.with(|c| c.get()), EDITS.with(|c| c.get()));
    for _ in 0..ctx.c.range(4, if ctx.small { 10 } else { 30 }) {
        if w(|x| x.held.is_empty()) || w(|x| x.next) < 40 && below(8) == 0 { let t = adopt(make(below(2) == 0)); w(|x| x.held.push(t)); }
        let n = w(|x| x.held.len());
        let (a, b) = (below(n), below(n));
        let h = w(|x| x.held[a].clone());
        let op = below(12);
        ctx.op(|| format!("operation {op} on node {} with re-entrant items", h.data().item.v()));
        BUDGET.with(|b| b.set(1 + below(12)));
        act(op, h, a, b);
        BUDGET.with(|b| b.set(0));
        ops += 1;
        judge("after the operation");
        while w(|x| x.held.len()) > 12 { let d = w(|x| x.held.swap_remove(0)); drop(d); }
    }
    BUDGET.with(|b| b.set(20));
    while let Some(h) = w(|x| x.held.pop()) { drop(h); }
    BUDGET.with(|b| b.set(0));
    while let Some(h) = w(|x| x.held.pop()) { drop(h); }
    judge("when no handle is left");
    let (calls, edits) = (CALLS.with(|c| c.get()) - calls, EDITS.with(|c| c.get()) - edits);
    ctx.count("calls_from_items", calls);
    ctx.count("edits_by_items", edits);
    ctx.sig(seed);
    op_label(ctx, &format!("re-entrant items, {ops} operations"));
    ctx.done(edits > 0);
}
