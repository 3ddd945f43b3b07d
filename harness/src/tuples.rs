//! Tuple notation (C11) and tuple visitors (C12); the tuples themselves come from a generated crate.

use crate::ctx::Ctx;
use crate::model::*;
use crate::owned::{World, COUNTS, DROPS, STRUCT};
use crate::payload::{self, Item, Pay};
use crate::snap::Snap;
use crate::{ensure, ensure_eq};
use trees::tuple::Visit;
use trees::{Forest, Size, Tree, TupleForest, TupleTree};

/// The tuple's shape in brackets, and a maker of fresh tuples whose items come in the order written.
pub type Mk<T> = fn(&mut dyn FnMut() -> Item) -> T;

fn spec_of(shape: &str) -> Spec {
    let mut s = parse_shape(shape);
    let mut v = 0;
    s.relabel(&mut || { v += 1; v });
    s
}
/// Makes a tuple of items 1, 2, ...; the identities go to `ids`.
fn fresh<T>(mk: Mk<T>, first: i64, ids: &mut Vec<u64>) -> T {
    let mut v = first;
    mk(&mut || { let i = Item::mk(v); v += 1; ids.push(i.uid()); i })
}
fn spec_ids(s: &Spec) -> Vec<i64> { let mut o = vec![s.val]; for k in &s.kids { o.extend(spec_ids(k)); } o }

fn import(m: &mut Model, s: &Spec, ids: &[u64], at: &mut usize) -> usize {
    let me = m.node(s.val, ids[*at]);
    *at += 1;
    for k in &s.kids { let c = import(m, k, ids, at); m.n[c].up = Par::Node(me); m.n[me].kids.push(c); }
    me
}

fn later(ctx: &mut Ctx, w: &mut World<Item>) {
    for _ in 0..if ctx.small { 2 } else { 6 } { w.step(ctx); w.judge_all("edited after construction"); w.judge_drops("edited after construction"); }
    while let Some(s) = w.slots.pop() { drop(s); w.judge_drops("taken apart"); }
}

fn nontrivial(s: &Spec) -> bool { s.size() >= 3 }

/// All nodes in one contiguous run.
fn place(ctx: &mut Ctx, what: &str, roots: Vec<&trees::Node<Item>>, spec: &Spec) {
    let addrs = crate::store::below(roots);
    crate::store::one_run(what, &addrs, std::mem::size_of::<Item>(), std::mem::size_of::<trees::Node<Item>>());
    ctx.count("blocks", 1);
    ctx.count("block_nodes", addrs.len() as u64);
    ctx.max("max_block", addrs.len() as u64);
    ctx.done(nontrivial(spec));
}

pub fn tree<T: TupleTree<Item, S>, S>(ctx: &mut Ctx, shape: &str, text: &str, mk: Mk<T>) {
    let spec = spec_of(shape);
    ctx.sig_str(shape);
    op_label(ctx, &format!("Tree::from_tuple({text})"));
    let mut ids = vec![];
    let t: Tree<Item> = Tree::from_tuple(fresh(mk, 1, &mut ids));
    let what = format!("Tree::from_tuple({text})");
    if ctx.place { return place(ctx, &what, vec![t.root()], &spec) }
    ensure_eq!(payload::clones(), 0, "{what}: clones made");
    let mut w = World::<Item>::new(STRUCT | COUNTS | DROPS);
    let root = import(&mut w.m, &spec, &ids, &mut 0);
    w.next_val = 100;
    same_struct(t.root(), &w.m, root, &what);
    counts_model(t.root(), &w.m, root, &what);
    ensure_eq!(payload::live(), ids.len() as i64, "{what}: items alive");
    { // the same tree by push_back
        fn by_push(s: &Spec) -> Tree<Item> { let mut t = Tree::new(Item::mk(s.val)); for k in &s.kids { t.push_back(by_push(k)); } t }
        let u = by_push(&spec);
        ensure!(t == u && u == t, "{what}: differs from the tree built by push_back");
        ensure_eq!(t.to_string(), u.to_string(), "{what}: text");
        ensure!(Snap::of_node(t.root()).same(&Snap::of_node(u.root()), false).is_ok(), "{what}: shape");
    }
    w.push_slot_tree(t, root);
    later(ctx, &mut w);
    ctx.count("nodes", spec.size() as u64);
    ctx.max("max_height", spec.height() as u64);
    ctx.max("max_degree", spec.kids.len() as u64);
    ctx.done(nontrivial(&spec));
}

pub fn forest<T: TupleForest<Item, S>, S>(ctx: &mut Ctx, shape: &str, text: &str, mk: Mk<T>) {
    let mut spec = spec_of(shape); // the outer bracket is the forest
    fn minus(s: &mut Spec) { s.val -= 1; for k in &mut s.kids { minus(k); } }
    minus(&mut spec);
    ctx.sig_str(shape);
    op_label(ctx, &format!("Forest::from_tuple({text})"));
    let mut ids = vec![];
    let f: Forest<Item> = Forest::from_tuple(fresh(mk, 1, &mut ids));
    let what = format!("Forest::from_tuple({text})");
    if ctx.place { return place(ctx, &what, f.iter().collect(), &spec) }
    ensure_eq!(payload::clones(), 0, "{what}: clones made");
    let mut w = World::<Item>::new(STRUCT | COUNTS | DROPS);
    let id = w.m.forest();
    let mut at = 0;
    for k in &spec.kids { let c = import(&mut w.m, k, &ids, &mut at); w.m.n[c].up = Par::Forest(id); w.m.f[id].push(c); }
    w.next_val = 100;
    same_struct_forest(&f, &w.m, &w.m.f[id], &what);
    counts_ok_forest(&f, &what, spec.size() + 2);
    ensure_eq!(f.node_count(), spec.size() - 1, "{what}: node_count");
    ensure_eq!(f.degree(), spec.kids.len(), "{what}: degree");
    ensure_eq!(payload::live(), ids.len() as i64, "{what}: items alive");
    {
        fn by_push(s: &Spec) -> Tree<Item> { let mut t = Tree::new(Item::mk(s.val)); for k in &s.kids { t.push_back(by_push(k)); } t }
        let mut g = Forest::new();
        for k in &spec.kids { g.push_back(by_push(k)); }
        ensure!(f == g && g == f, "{what}: differs from the forest built by push_back");
        ensure_eq!(f.to_string(), g.to_string(), "{what}: text");
    }
    w.push_slot_forest(f, id);
    later(ctx, &mut w);
    ctx.count("nodes", spec.size() as u64 - 1);
    ctx.max("max_height", spec.height() as u64 - 1);
    ctx.max("max_degree", spec.kids.len() as u64);
    ctx.done(nontrivial(&spec));
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum E { Branch(i64), Leaf(i64), Frame }
fn ev(v: Visit<Item>, ids: &[u64]) -> E {
    let c = |i: Item| { ensure_eq!(ids[i.v() as usize - 1], i.uid(), "visitor: another item"); i.v() };
    match v { Visit::Branch(i) => E::Branch(c(i)), Visit::Leaf(i) => E::Leaf(c(i)), Visit::Frame => E::Frame }
}
fn size(s: &Spec) -> Size { Size { degree: s.kids.len(), descendants: s.size() - 1 } }
fn expect(s: &Spec, pre: bool, out: &mut Vec<(E, Size)>) {
    if s.kids.is_empty() { out.push((E::Leaf(s.val), size(s))); return; }
    out.push((if pre { E::Branch(s.val) } else { E::Frame }, size(s)));
    for k in &s.kids { expect(k, pre, out); }
    out.push((if pre { E::Frame } else { E::Branch(s.val) }, size(s)));
}
fn levels(s: &Spec, d: usize, out: &mut Vec<usize>) { if out.len() <= d { out.push(0); } out[d] += 1; for k in &s.kids { levels(k, d + 1, out); } }

fn judge_events(ctx: &mut Ctx, what: &str, got: &[(E, Option<Size>)], want: &[(E, Size)]) {
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g.0 == w.0, "{what}: event {k} is {:?}, expected {:?}", g.0, w.0);
        if let Some(s) = g.1 { ensure!(s.degree == w.1.degree && s.descendants == w.1.descendants, "{what}: event {k} ({:?}) comes with {s:?}, expected {:?}", g.0, w.1); }
    }
    ensure_eq!(got.len(), want.len(), "{what}: number of events");
    ensure_eq!(payload::live(), 0, "{what}: items alive afterwards");
    ensure_eq!(payload::clones(), 0, "{what}: clones made");
    ctx.count("events", got.len() as u64);
}

macro_rules! visitors { ($tr:ident, $ctx:expr, $what:expr, $want:expr, $mk:expr) => {{
    let mut want = [vec![], vec![]];
    for s in $want { expect(s, true, &mut want[0]); expect(s, false, &mut want[1]); }
    for form in 0..4 {
        let mut ids = vec![];
        let t = fresh($mk, 1, &mut ids);
        let mut got: Vec<(E, Option<Size>)> = vec![];
        match form {
            0 => $tr::preorder(t, &mut |v| got.push((ev(v, &ids), None))),
            1 => $tr::preorder_with_size_hint(t, &mut |v, s| got.push((ev(v, &ids), Some(s)))),
            2 => $tr::postorder(t, &mut |v| got.push((ev(v, &ids), None))),
            _ => $tr::postorder_with_size_hint(t, &mut |v, s| got.push((ev(v, &ids), Some(s)))),
        }
        let name = ["preorder", "preorder_with_size_hint", "postorder", "postorder_with_size_hint"][form];
        judge_events($ctx, &format!("{name} of {}", $what), &got, &want[form / 2]);
    }
}} }

/// Levels no tuple reaches, at and around widths of integers.
const FAR: [usize; 17] = [15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 65535, 65536, 1 << 32, usize::MAX];

pub fn tree_visits<T: TupleTree<Item, S>, S>(ctx: &mut Ctx, shape: &str, text: &str, mk: Mk<T>) {
    let spec = spec_of(shape);
    ctx.sig_str(shape);
    op_label(ctx, &format!("visitors of the tree tuple {text}"));
    let s = T::SIZE;
    ensure!(s.degree == spec.kids.len() && s.descendants == spec.size() - 1, "SIZE of the tree {text}: {s:?}");
    ensure_eq!(T::height(), spec.height(), "height of the tree {text}");
    let mut lv = vec![];
    levels(&spec, 0, &mut lv);
    for k in (0..spec.height() + 3).chain(FAR) { ensure_eq!(T::descendants(k), lv.iter().skip(1).nth(k).copied().unwrap_or(0), "descendants({k}) of the tree {text}"); }
    visitors!(TupleTree, ctx, format!("the tree {text}"), [&spec], mk);
    ctx.done(nontrivial(&spec));
}
pub fn forest_visits<T: TupleForest<Item, S>, S>(ctx: &mut Ctx, shape: &str, text: &str, mk: Mk<T>) {
    let mut spec = spec_of(shape);
    fn minus(s: &mut Spec) { s.val -= 1; for k in &mut s.kids { minus(k); } }
    minus(&mut spec);
    ctx.sig_str(shape);
    op_label(ctx, &format!("visitors of the forest tuple {text}"));
    let s = T::SIZE;
    ensure!(s.degree == spec.kids.len() && s.descendants == spec.size() - 1, "SIZE of the forest {text}: {s:?}");
    ensure_eq!(T::height(), spec.height() - 1, "height of the forest {text}");
    let mut lv = vec![];
    levels(&spec, 0, &mut lv);
    for k in (0..spec.height() + 3).chain(FAR) { ensure_eq!(T::descendants(k), lv.iter().skip(1).nth(k).copied().unwrap_or(0), "descendants({k}) of the forest {text}"); }
    visitors!(TupleForest, ctx, format!("the forest {text}"), &spec.kids, mk);
    let _ = spec_ids;
    ctx.done(nontrivial(&spec));
}
