// Copied into the generated crates by gen_tuples.py.
#![allow(dead_code, unused_imports, unused_variables)]
//! Tuples of hundreds to tens of thousands of nodes, 32 children per node, made of few types (C11, C12).

use vh::ctx::Ctx;
use vh::huge::STACK;
use vh::model::op_label;
use vh::{ensure, ensure_eq};
use vh::trees::tuple::Visit;
use vh::trees::{Forest, Node, Size, Tree, TupleForest, TupleTree};

type R1 = (usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize);
fn r1(b: usize) -> R1 { (b, b + 1, b + 2, b + 3, b + 4, b + 5, b + 6, b + 7, b + 8, b + 9, b + 10, b + 11, b + 12, b + 13, b + 14, b + 15, b + 16, b + 17, b + 18, b + 19, b + 20, b + 21, b + 22, b + 23, b + 24, b + 25, b + 26, b + 27, b + 28, b + 29, b + 30, b + 31, b + 32) }
macro_rules! level { ($n:ident, $R:ident, $f:ident, $T:ident, $s:expr) => {
    type $R = (usize, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T, $T);
    fn $n(b: usize) -> $R { let f = |i: usize| $f(b + 1 + i * $s); (b, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)) }
} }
level!(r2, R2, r1, R1, 33);
level!(r3, R3, r2, R2, 1057);
const S: [usize; 4] = [1, 33, 1057, 33825];

/// Degrees in preorder of a full tree of so many levels below its root.
fn full(d: &mut Vec<usize>, levels: usize) { if levels == 0 { d.push(0) } else { d.push(32); for _ in 0..32 { full(d, levels - 1) } } }

/// The tree or forest a tuple spells: number of roots, degrees in preorder; data are numbered in preorder.
struct Due { roots: usize, deg: Vec<usize>, desc: Vec<usize>, levels: Vec<usize> }
fn due(roots: usize, deg: Vec<usize>) -> Due {
    let mut desc = vec![0; deg.len()];
    for i in (0..deg.len()).rev() { let mut j = i + 1; for _ in 0..deg[i] { desc[i] += desc[j] + 1; j += desc[j] + 1; } }
    let mut levels = vec![];
    let mut open: Vec<usize> = vec![roots];
    for d in &deg {
        while *open.last().unwrap() == 0 { open.pop(); }
        *open.last_mut().unwrap() -= 1;
        if levels.len() < open.len() { levels.push(0); }
        levels[open.len() - 1] += 1;
        open.push(*d);
    }
    Due { roots, deg, desc, levels }
}
impl Due {
    fn size(&self, i: usize) -> Size { Size { degree: self.deg[i], descendants: self.desc[i] } }
    fn events(&self, post: bool) -> Vec<(Visit<usize>, Size)> {
        enum T { Node(usize), End(usize) }
        let mut out = vec![];
        let (mut at, mut todo) = (0, vec![]);
        for _ in 0..self.roots { todo.push(T::Node(at)); at += self.desc[at] + 1; }
        todo.reverse();
        while let Some(x) = todo.pop() {
            match x {
                T::Node(i) if self.deg[i] == 0 => out.push((Visit::Leaf(i), self.size(i))),
                T::Node(i) => {
                    out.push((if post { Visit::Frame } else { Visit::Branch(i) }, self.size(i)));
                    todo.push(T::End(i));
                    let (mut k, mut j) = (vec![], i + 1);
                    for _ in 0..self.deg[i] { k.push(j); j += self.desc[j] + 1; }
                    todo.extend(k.into_iter().rev().map(T::Node));
                }
                T::End(i) => out.push((if post { Visit::Branch(i) } else { Visit::Frame }, self.size(i))),
            }
        }
        out
    }
    fn built<'a>(&self, what: &str, roots: impl Iterator<Item = &'a Node<usize>> + 'a) {
        let mut at = 0;
        let mut its: Vec<(Option<&Node<usize>>, Box<dyn Iterator<Item = &Node<usize>>>)> = vec![(None, Box::new(roots))];
        while let Some((up, it)) = its.last_mut() {
            let up = *up;
            let Some(n) = it.next() else { its.pop(); continue };
            ensure!(at < self.deg.len(), "{what}: more than the {} nodes spelt", self.deg.len());
            ensure_eq!(*n.data(), at, "{what}: data of the node due {at}th in preorder");
            ensure_eq!(n.degree(), self.deg[at], "{what}: degree of node {at} in preorder");
            ensure_eq!(n.node_count(), self.desc[at] + 1, "{what}: node_count of node {at} in preorder");
            ensure!(match (n.parent(), up) { (Some(a), Some(b)) => std::ptr::eq(a, b), (None, None) => true, _ => false }, "{what}: parent of node {at} in preorder");
            ensure_eq!(n.back().map(|b| *b.data() + b.node_count()), (self.deg[at] > 0).then(|| at + self.desc[at] + 1), "{what}: last child of node {at} in preorder");
            its.push((Some(n), Box::new(n.iter())));
            at += 1;
        }
        ensure_eq!(at, self.deg.len(), "{what}: nodes built");
    }
}

fn tree<T: TupleTree<usize, Sh> + Copy, Sh>(what: &str, d: &Due, t: T) {
    let tree = Tree::from_tuple(t);
    d.built(what, std::iter::once(tree.root()));
    let order: Vec<usize> = tree.bfs().iter.map(|v| *v.data).collect();
    let tree = Tree::from(tree.into_bfs());
    ensure!(tree.bfs().iter.map(|v| *v.data).eq(order.into_iter()), "{what}: level order after rebuilding");
    d.built(what, std::iter::once(tree.root()));
}
fn forest<T: TupleForest<usize, Sh> + Copy, Sh>(what: &str, d: &Due, t: T) {
    let mut f = Forest::from_tuple(t);
    ensure_eq!((f.degree(), f.node_count()), (d.roots, d.deg.len()), "{what}: (degree, node_count)");
    d.built(what, f.iter());
    let mut g = Forest::new();
    while let Some(t) = f.pop_back() { g.push_front(t); }
    d.built(what, g.iter());
}
macro_rules! visits { ($name:ident, $tr:ident, $skip:expr) => {
    fn $name<T: $tr<usize, Sh> + Copy, Sh>(what: &str, d: &Due, t: T) {
        let skip: usize = $skip; // is there a level above that of the first descendants?
        ensure_eq!(T::SIZE, if skip == 1 { d.size(0) } else { Size { degree: d.roots, descendants: d.deg.len() } }, "{what}: SIZE");
        ensure_eq!(T::height(), d.levels.len(), "{what}: height");
        for k in 0..40 { ensure_eq!(T::descendants(k), d.levels.get(k + skip).copied().unwrap_or(0), "{what}: descendants({k})"); }
        for post in [false, true] {
            let ev = d.events(post);
            let name = if post { "postorder" } else { "preorder" };
            let mut at = 0;
            let mut f = |v: Visit<usize>| { ensure!(at < ev.len() && ev[at].0 == v, "{what}: {name}: event {at} is {v:?}, expected {:?}", ev.get(at)); at += 1; };
            if post { t.postorder(&mut f) } else { t.preorder(&mut f) }
            ensure_eq!(at, ev.len(), "{what}: {name}: events");
            let mut at = 0;
            let mut f = |v: Visit<usize>, s: Size| { ensure!(at < ev.len() && ev[at].0 == v && ev[at].1 == s, "{what}: {name}_with_size_hint: event {at} is {v:?} {s:?}, expected {:?}", ev.get(at)); at += 1; };
            if post { t.postorder_with_size_hint(&mut f) } else { t.preorder_with_size_hint(&mut f) }
            ensure_eq!(at, ev.len(), "{what}: {name}_with_size_hint: events");
        }
    }
} }
visits!(tree_visits, TupleTree, 1);
visits!(forest_visits, TupleForest, 0);

fn each(case: usize) -> usize {
    let mut d = vec![];
    macro_rules! go { ($what:expr, $roots:expr, $t:expr, $build:ident, $see:ident) => {{ let d = due($roots, d);
        $build($what, &d, $t); // only build
        $see($what, &d, $t); // only visits
        d.deg.len()
    }} }
    match case {
        0 => { full(&mut d, 1); go!("tree of 33 nodes", 1, r1(0), tree, tree_visits) }
        1 => { full(&mut d, 2); go!("tree of 32 rows", 1, r2(0), tree, tree_visits) }
        2 => { full(&mut d, 3); go!("tree of 32 blocks", 1, r3(0), tree, tree_visits) }
        3 => { d.push(3); full(&mut d, 3); full(&mut d, 0); full(&mut d, 3); go!("tree of two halves", 1, (0, r3(1), 1 + S[3], r3(2 + S[3])), tree, tree_visits) }
        4 => { d.push(4); full(&mut d, 0); full(&mut d, 1); full(&mut d, 2); full(&mut d, 3); go!("tree getting deeper", 1, (0, 1, r1(2), r2(2 + S[1]), r3(2 + S[1] + S[2])), tree, tree_visits) }
        5 => { d.push(4); full(&mut d, 3); full(&mut d, 2); full(&mut d, 1); full(&mut d, 0); go!("tree getting flatter", 1, (0, r3(1), r2(1 + S[3]), r1(1 + S[3] + S[2]), 1 + S[3] + S[2] + S[1]), tree, tree_visits) }
        6 => {
            for l in [3, 2, 1, 1] { d.push(2); full(&mut d, l); }
            d.push(0);
            let (a, b, c) = (1 + S[3], 1 + S[2], 1 + S[1]);
            go!("comb of blocks", 1, (0, r3(1), (a, r2(a + 1), (a + b, r1(a + b + 1), (a + b + c, r1(a + b + c + 1), a + b + c + c)))), tree, tree_visits)
        }
        7 => { full(&mut d, 1); full(&mut d, 2); go!("forest of two", 2, (r1(0), r2(33)), forest, forest_visits) }
        8 => { full(&mut d, 3); full(&mut d, 0); full(&mut d, 3); full(&mut d, 1); go!("forest of halves", 4, (r3(0), S[3], r3(S[3] + 1), r1(2 * S[3] + 1)), forest, forest_visits) }
        9 => { for _ in 0..8 { full(&mut d, 1); } go!("forest of eight rows", 8, (r1(0), r1(33), r1(66), r1(99), r1(132), r1(165), r1(198), r1(231)), forest, forest_visits) }
        10 => { full(&mut d, 3); go!("forest of one", 1, (r3(0),), forest, forest_visits) }
        _ => { d.push(1); d.push(1); full(&mut d, 3); go!("tree with a stem", 1, (0, (1, r3(2))), tree, tree_visits) }
    }
}
pub const CASES: usize = 12;

pub fn build(ctx: &mut Ctx) { run(ctx) }
pub fn visits(ctx: &mut Ctx) { run(ctx) }
fn run(ctx: &mut Ctx) {
    let case = ctx.case as usize % CASES;
    let suite = ctx.suite;
    op_label(ctx, &format!("tuple {case}"));
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || { vh::ctx::set_suite(suite); each(case) }).unwrap();
    let n = match h.join() { Ok(n) => n, Err(_) => vh::fail!("the thread died") };
    ctx.count("nodes", n as u64);
    ctx.max("max_nodes", n as u64);
    ctx.sig(case as u64);
    ctx.done(true);
}
