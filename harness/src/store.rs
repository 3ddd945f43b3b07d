//! Where nodes live and when their memory goes back (C25).

use crate::alloc::{live, untracked};
use crate::ctx::Ctx;
use crate::model::*;
use crate::{ensure, ensure_eq};
use std::collections::{HashMap, HashSet};
use trees::bfs::{BfsForest, BfsTree, Visit};
use trees::{Forest, Node, RcNode, Size, Tree};

pub trait Val: Sized + 'static { fn of(v: i64) -> Self; }
impl Val for i64 { fn of(v: i64) -> Self { v } }
impl Val for u8 { fn of(v: i64) -> Self { v as u8 } }
impl Val for [u64; 9] { fn of(v: i64) -> Self { [v as u64; 9] } }
impl Val for (u32, Option<u16>, [u8; 3]) { fn of(v: i64) -> Self { (v as u32, None, [1, 2, 3]) } }

/// Heap blocks are counted by the checking allocator only.
const COUNTED: bool = cfg!(feature = "checked_alloc");

enum Piece<P> { Tree(Tree<P>), Forest(Forest<P>, Option<usize>), Rc(RcNode<P>) }

fn addr<T>(p: &T) -> usize { p as *const T as usize }

/// Addresses of the data of all nodes below `roots`, in level order.
pub fn below<'a, P: 'a>(roots: Vec<&'a Node<P>>) -> Vec<usize> {
    let mut q = roots;
    let mut at = 0;
    while at < q.len() { let n = q[at]; q.extend(n.iter()); at += 1; ensure!(q.len() < 10_000_000, "endless structure"); }
    q.iter().map(|n| addr(n.data())).collect()
}
fn below_rc<P>(root: &RcNode<P>) -> Vec<usize> {
    let mut q = vec![root.clone()];
    let mut at = 0;
    while at < q.len() { let k: Vec<_> = q[at].iter_rc().collect(); q.extend(k); at += 1; }
    q.iter().map(|n| addr(&*n.data())).collect()
}
impl<P> Piece<P> {
    fn addrs(&self) -> Vec<usize> {
        match self { Piece::Tree(t) => below(vec![t.root()]), Piece::Forest(f, _) => below(f.iter().collect()), Piece::Rc(r) => below_rc(r) }
    }
}

/// Equal distances, one run of memory. Returns the distance.
pub fn one_run(what: &str, addrs: &[usize], item: usize, node: usize) -> usize {
    let mut a = addrs.to_vec();
    a.sort_unstable();
    if a.len() < 2 { return 0; }
    let d = a[1] - a[0];
    ensure!(d >= item && d <= 2 * node + 64, "{what}: nodes of {node} bytes lie {d} bytes apart, not next to each other");
    for (k, w) in a.windows(2).enumerate() {
        ensure!(w[1] - w[0] == d, "{what}: nodes {k} and {} by address lie {} bytes apart, others {d}: not one contiguous run", k + 1, w[1] - w[0]);
    }
    d
}

struct St<P> {
    p: Vec<Piece<P>>,
    blocks: HashMap<usize, (usize, usize)>, // first and last data address
    next: usize,
    base: i64,
    cost: [i64; 4], // a separate node, an empty forest, a block with a tree, a block with a forest
    block_cost: HashMap<usize, i64>,
    v: i64,
}

impl<P: Val> St<P> {
    fn val(&mut self) -> P { self.v += 1; P::of(self.v) }

    fn judge(&mut self, ctx: &mut Ctx, what: &str) {
        untracked(|| {
            let mut nodes = HashSet::new();
            for p in &self.p { nodes.extend(p.addrs()); }
            let (mut own, mut alive, mut roots) = (0, HashSet::new(), 0);
            for n in &nodes {
                match self.blocks.iter().find(|(_, r)| r.0 <= *n && *n <= r.1) { Some((b, _)) => { alive.insert(*b); } None => own += 1 }
            }
            for p in &self.p {
                match p { Piece::Forest(_, Some(b)) => { alive.insert(*b); } Piece::Forest(_, None) => roots += 1, _ => () }
            }
            self.blocks.retain(|b, _| alive.contains(b));
            ctx.max("max_blocks", alive.len() as u64);
            ctx.count("judged", 1);
            if !COUNTED { return; }
            let got = live() - self.base;
            let mut want = own * self.cost[0] + roots * self.cost[1];
            for b in &alive { want += self.block_cost[b]; }
            ensure!(got <= want, "{what}: {got} pieces of memory are in use, but {own} nodes stored separately, {roots} forests and {} blocks with a node or forest in them need {want}", alive.len());
        })
    }
    fn block(&mut self, ctx: &mut Ctx, what: &str, addrs: Vec<usize>, cost: i64) -> usize {
        untracked(|| {
            // a fixed number of allocations, however many nodes
            ensure!(cost <= 8, "{what}: {} nodes built in one go take {cost} pieces of memory", addrs.len());
            one_run(what, &addrs, std::mem::size_of::<P>(), std::mem::size_of::<Node<P>>());
            let b = self.next;
            self.next += 1;
            self.block_cost.insert(b, cost);
            if let (Some(lo), Some(hi)) = (addrs.iter().min(), addrs.iter().max()) { self.blocks.insert(b, (*lo, *hi)); }
            ctx.count("blocks", 1);
            ctx.count("block_nodes", addrs.len() as u64);
            ctx.max("max_block", addrs.len() as u64);
            b
        })
    }
    fn add(&mut self, p: Piece<P>) { untracked(|| self.p.push(p)) }
    fn take(&mut self, i: usize) -> Piece<P> { self.p.swap_remove(i) }
    fn all(&self, f: impl Fn(&Piece<P>) -> bool) -> Vec<usize> { (0..self.p.len()).filter(|i| f(&self.p[*i])).collect() }
    fn one(&self, ctx: &mut Ctx, f: impl Fn(&Piece<P>) -> bool) -> Option<usize> { untracked(|| { let v = self.all(f); if v.is_empty() { None } else { Some(*ctx.c.pick(&v)) } }) }
}

fn is_tree<P>(p: &Piece<P>) -> bool { matches!(p, Piece::Tree(_)) }
fn is_forest<P>(p: &Piece<P>) -> bool { matches!(p, Piece::Forest(..)) }
fn is_rc<P>(p: &Piece<P>) -> bool { matches!(p, Piece::Rc(_)) }

fn visits<P: Val>(st: &mut St<P>, specs: &[Spec]) -> Vec<Visit<P>> {
    let mut q: Vec<&Spec> = specs.iter().collect();
    let mut at = 0;
    while at < q.len() { let s = q[at]; q.extend(s.kids.iter()); at += 1; }
    q.iter().map(|s| Visit { data: st.val(), size: Size { degree: s.kids.len(), descendants: s.size() - 1 } }).collect()
}
/// A random spec with `n` nodes without recursion deeper than its height.
fn spec(ctx: &mut Ctx, n: usize) -> Spec { gen_spec_n(&mut ctx.c, n, &mut |_| 0) }
fn by_push<P: Val>(st: &mut St<P>, s: &Spec) -> Tree<P> {
    let mut t = Tree::new(st.val());
    for k in &s.kids { let c = by_push(st, k); t.push_back(c); }
    t
}
/// A few tuples (the generated crates judge the notation's own storage for every shape).
fn tuple<P: Val>(st: &mut St<P>, k: usize) -> Tree<P> {
    let mut n = || st.val();
    match k {
        0 => Tree::from_tuple((n(),)),
        1 => Tree::from_tuple((n(), n())),
        2 => Tree::from_tuple((n(), (n(), n()), n(), (n(), (n(), n()), n()))),
        _ => Tree::from_tuple((n(), (n(), (n(), (n(), (n(), n())))), n(), n(), (n(), n(), n()))),
    }
}

/// A node of the tree, found by a random descent.
fn at<'a, P>(ctx: &mut Ctx, t: &'a mut Tree<P>) -> &'a mut Node<P> {
    let mut n: &'a mut Node<P> = unsafe { std::pin::Pin::get_unchecked_mut(t.root_mut()) };
    loop {
        let d = n.degree();
        if d == 0 || ctx.c.chance(1, 3) { return n; }
        let k = ctx.c.below(d);
        n = unsafe { std::pin::Pin::get_unchecked_mut(n.iter_mut().nth(k).unwrap()) };
    }
}

pub fn history<P: Val>(ctx: &mut Ctx) {
    let mut st: St<P> = untracked(|| St { p: Vec::with_capacity(64), blocks: HashMap::new(), next: 0, base: 0, cost: [0; 4], block_cost: HashMap::new(), v: 0 });
    // what each thing takes, and that it is given back
    let l = live();
    st.base = l;
    macro_rules! cost { ($k:expr, $what:expr, $e:expr) => {{ let x = $e; let c = live() - l; drop(x); ensure_eq!(live(), l, "{}: memory still in use after it is dropped", $what); st.cost[$k] = c; if COUNTED && $k != 1 { ensure!(c > 0, "{} takes no memory", $what); } }} }
    let v = st.val();
    cost!(0, "a node", Tree::new(v));
    cost!(1, "an empty forest", Forest::<P>::new());
    for k in [2, 3] {
        for n in [1, 3] {
            let l = live();
            let v = untracked(|| { let s = spec(ctx, n); visits(&mut st, &[s]) });
            let c = if k == 2 { let t = Tree::from(BfsTree { iter: v.into_iter(), size: Size { degree: 1, descendants: n - 1 } }); let c = live() - l; drop(t); c }
                else { let t = Forest::from(BfsForest { iter: v.into_iter(), size: Size { degree: 1, descendants: n } }); let c = live() - l; drop(t); c };
            ensure_eq!(live(), l, "built from a stream: memory still in use after it is dropped");
            st.cost[k] = st.cost[k].max(c);
        }
    }
    let len = if ctx.small { 8 } else if ctx.thorough { ctx.c.range(10, 60) } else { ctx.c.range(8, 32) };
    let mut built = 0;
    let len = ctx.scale(len, 1200, 500);
    for _ in 0..len {
        let op = if st.p.len() > 8 { ctx.c.range(8, 20) } else { ctx.c.below(21) };
        let n = if ctx.small { ctx.c.range(1, 8) } else if ctx.c.chance(1, 40) { ctx.c.range(200, 2500) } else { ctx.c.range(1, 14) };
        ctx.sig(op as u64);
        match op {
            0 => { // one by one
                let s = untracked(|| spec(ctx, n));
                ctx.op(|| format!("tree of {n} nodes by push_back"));
                let t = by_push(&mut st, &s);
                st.add(Piece::Tree(t));
                untracked(|| drop(s));
            }
            1 => {
                let s = untracked(|| spec(ctx, n));
                ctx.op(|| format!("forest of {} nodes by push_back", n - 1));
                let mut f = Forest::new();
                for k in &s.kids { let c = by_push(&mut st, k); f.push_back(c); }
                st.add(Piece::Forest(f, None));
                untracked(|| drop(s));
            }
            2 | 3 => { // from a stream
                let v = untracked(|| { let s = spec(ctx, n); visits(&mut st, &[s]) });
                ctx.op(|| format!("tree of {n} nodes from a BFS stream"));
                let l = live();
                let t = Tree::from(BfsTree { iter: v.into_iter(), size: Size { degree: 1, descendants: n - 1 } });
                let c = live() - l;
                let a = untracked(|| below(vec![t.root()]));
                st.block(ctx, "Tree::from(BfsTree)", a, c);
                st.add(Piece::Tree(t));
                built += n;
            }
            4 => {
                let (v, d) = untracked(|| { let s = spec(ctx, n); (visits(&mut st, &s.kids), s.kids.len()) });
                ctx.op(|| format!("forest of {} nodes from a BFS stream", n - 1));
                let l = live();
                let f = Forest::from(BfsForest { iter: v.into_iter(), size: Size { degree: d, descendants: n - 1 } });
                let c = live() - l;
                let a = untracked(|| below(f.iter().collect()));
                let b = st.block(ctx, "Forest::from(BfsForest)", a, c);
                st.add(Piece::Forest(f, Some(b)));
                built += n;
            }
            5 => {
                let k = ctx.c.below(4);
                ctx.op(|| format!("tree from tuple {k}"));
                let l = live();
                let t = tuple(&mut st, k);
                let c = live() - l;
                let a = untracked(|| below(vec![t.root()]));
                built += a.len();
                st.block(ctx, "Tree::from_tuple", a, c);
                st.add(Piece::Tree(t));
            }
            6 => {
                ctx.op(|| "forest from a tuple".into());
                let l = live();
                let f = { let mut n = || st.val(); if ctx.c.coin() { Forest::from_tuple((n(), (n(), n()), (n(), n(), (n(), n())))) } else { Forest::from_tuple(((n(), (n(), (n(), n()))), n())) } };
                let c = live() - l;
                let a = untracked(|| below(f.iter().collect()));
                let b = st.block(ctx, "Forest::from_tuple", a, c);
                st.add(Piece::Forest(f, Some(b)));
                built += 5;
            }
            7 | 8 => { // rebuilt: the old nodes go, one block comes
                let Some(i) = st.one(ctx, |p| is_tree(p) || is_forest(p)) else { continue };
                ctx.op(|| format!("piece {i} rebuilt from its own stream"));
                match untracked(|| st.take(i)) {
                    Piece::Tree(t) => {
                        let t = Tree::from(t.into_bfs());
                        let a = untracked(|| below(vec![t.root()]));
                        built += a.len();
                        let c = st.cost[2];
                        st.block(ctx, "Tree::from(into_bfs())", a, c);
                        st.add(Piece::Tree(t));
                    }
                    Piece::Forest(f, _) => {
                        let f = Forest::from(f.into_bfs());
                        let a = untracked(|| below(f.iter().collect()));
                        built += a.len();
                        let c = st.cost[3];
                        let b = st.block(ctx, "Forest::from(into_bfs())", a, c);
                        st.add(Piece::Forest(f, Some(b)));
                    }
                    _ => unreachable!(),
                }
            }
            9 | 10 => { // a part is taken out
                let Some(i) = st.one(ctx, is_tree) else { continue };
                let Piece::Tree(t) = &mut st.p[i] else { unreachable!() };
                let which = ctx.c.below(3);
                ctx.op(|| format!("piece {i}: {}", ["pop_front", "pop_back", "detach"][which]));
                let n = at(ctx, t);
                let got = match which { 0 => n.pop_front(), 1 => n.pop_back(), _ if n.parent().is_some() => Some(n.detach()), _ => None };
                if let Some(t) = got { st.add(Piece::Tree(t)); }
            }
            11 => {
                let Some(i) = st.one(ctx, is_forest) else { continue };
                let Piece::Forest(f, _) = &mut st.p[i] else { unreachable!() };
                ctx.op(|| format!("forest {i}: pop"));
                let got = if ctx.c.coin() { f.pop_front() } else { f.pop_back() };
                if let Some(t) = got { st.add(Piece::Tree(t)); }
            }
            12 | 13 => { // recombined
                let Some(i) = st.one(ctx, is_tree) else { continue };
                let Piece::Tree(x) = untracked(|| st.take(i)) else { unreachable!() };
                match st.one(ctx, |p| is_tree(p) || is_forest(p)) {
                    Some(j) => {
                        ctx.op(|| format!("piece {i} put into piece {j}"));
                        let k = ctx.c.below(3);
                        match &mut st.p[j] {
                            Piece::Tree(t) => { let n = at(ctx, t); match k { 0 => n.push_front(x), 1 => n.push_back(x), _ if n.parent().is_some() => n.insert_next_sib(x), _ => n.push_back(x) } }
                            Piece::Forest(f, _) => if k == 0 { f.push_front(x) } else { f.push_back(x) },
                            _ => unreachable!(),
                        }
                    }
                    None => { st.add(Piece::Tree(x)); continue }
                }
            }
            14 => {
                let Some(i) = st.one(ctx, is_forest) else { continue };
                let Piece::Forest(x, root) = untracked(|| st.take(i)) else { unreachable!() };
                match st.one(ctx, |p| is_tree(p) || is_forest(p)) {
                    Some(j) => {
                        ctx.op(|| format!("forest {i} appended to piece {j}"));
                        match &mut st.p[j] {
                            Piece::Tree(t) => { let n = at(ctx, t); if ctx.c.coin() { n.append(x) } else { n.prepend(x) } }
                            Piece::Forest(f, _) => if ctx.c.coin() { f.append(x) } else { f.prepend(x) },
                            _ => unreachable!(),
                        }
                    }
                    None => { st.add(Piece::Forest(x, root)); continue }
                }
            }
            15 | 16 | 17 => {
                if st.p.is_empty() { continue }
                let i = ctx.c.below(st.p.len());
                ctx.op(|| format!("piece {i} dropped"));
                drop(untracked(|| st.take(i)));
            }
            18 => { // shared
                let Some(i) = st.one(ctx, is_tree) else { continue };
                let Piece::Tree(t) = untracked(|| st.take(i)) else { unreachable!() };
                ctx.op(|| format!("piece {i} shared"));
                let r = RcNode::from(t);
                let held = if ctx.c.coin() { r.front() } else { r.back() };
                let again = if ctx.c.coin() { Some(r.clone()) } else { None };
                st.add(Piece::Rc(r));
                if let Some(h) = held { st.add(Piece::Rc(h)); }
                if let Some(h) = again { st.add(Piece::Rc(h)); }
            }
            19 => {
                let Some(i) = st.one(ctx, is_rc) else { continue };
                let Piece::Rc(r) = &st.p[i] else { unreachable!() };
                let k = ctx.c.below(4);
                ctx.op(|| format!("handle {i}: {}", ["pop_front", "pop_back", "detach", "back"][k]));
                let got = match k { 0 => r.pop_front(), 1 => r.pop_back(), 2 => { if !r.is_root() { r.detach(); } None } _ => r.back() };
                if let Some(r) = got { st.add(Piece::Rc(r)); }
            }
            _ => { // items handed out one by one, some left
                let Some(i) = st.one(ctx, is_forest) else { continue };
                let Piece::Forest(f, _) = untracked(|| st.take(i)) else { unreachable!() };
                let k = ctx.c.below(f.degree() + 2);
                ctx.op(|| format!("forest {i} iterated by value, {k} trees kept"));
                let mut it = f.into_iter();
                for _ in 0..k { if let Some(t) = it.next() { st.add(Piece::Tree(t)); } }
                drop(it);
            }
        }
        st.judge(ctx, "after this operation");
    }
    while !st.p.is_empty() {
        let i = ctx.c.below(st.p.len());
        ctx.op(|| format!("at the end: piece {i} dropped"));
        drop(untracked(|| st.take(i)));
        st.judge(ctx, "at the end");
    }
    untracked(|| drop(st));
    ctx.done(built >= 4);
}
