//! Operators (C13), comparisons (C14), text (C15).

use crate::bfs::{size_of, world};
use crate::ctx::Ctx;
use crate::model::*;
use crate::owned::*;
use crate::payload::{self, Item, Pay};
use crate::rng::Choice;
use crate::snap::Snap;
use crate::{ensure, ensure_eq, fail};
use std::cmp::Ordering;
use trees::{fr, tr, Forest, Node, RcNode, Tree};

// ---- C13 --------------------------------------------------------------------------------------------------------

/// A node expected in the result, in preorder.
struct Exp { val: i64, kids: usize, uid: u64, moved: bool }
fn preorder(s: &Snap, i: usize, out: &mut Vec<usize>) { out.push(i); for k in &s.n[i].kids { preorder(s, *k, out); } }
fn expect(s: &Snap, moved: bool) -> Vec<Exp> {
    let mut ids = vec![];
    for r in &s.roots { preorder(s, *r, &mut ids); }
    ids.into_iter().map(|i| Exp { val: s.n[i].val, kids: s.n[i].kids.len(), uid: s.n[i].uid, moved }).collect()
}
fn judge_expr(what: &str, got: &Snap, want: Vec<Exp>, roots: usize, clones_before: u64) {
    ensure_eq!(got.roots.len(), roots, "{what}: number of trees in the result {}", got.text());
    let g = expect(got, true);
    let show = || format!("{:?}", want.iter().map(|e| (e.val, e.kids)).collect::<Vec<_>>());
    ensure!(g.len() == want.len(), "{what}: result {} has {} nodes, expected {}", got.text(), g.len(), show());
    for (a, b) in g.iter().zip(&want) {
        ensure!(a.val == b.val && a.kids == b.kids, "{what}: result {} expected (preorder value, degree) {}", got.text(), show());
        if b.moved { ensure!(a.uid == b.uid, "{what}: item of node {} of an operand passed by value was not moved", b.val); }
        else { ensure!(a.uid != b.uid && payload::origin(a.uid - 1) + 1 == b.uid, "{what}: item of node {} of an operand passed by reference was not cloned from it", b.val); }
    }
    let n = want.iter().filter(|e| !e.moved).count() as u64;
    ensure_eq!(payload::clones() - clones_before, n, "{what}: number of clones");
}

fn kept(what: &str, before: &Snap, now: Snap) { if let Err(e) = now.same(before, true) { fail!("{what}: operand passed by reference changed from {} to {}: {e}", before.text(), now.text()) } }

fn st(t: &Tree<Item>) -> Snap { Snap::of_node(t.root()) }
fn sf(f: &Forest<Item>) -> Snap { Snap::of_forest(f) }
fn okt(t: Tree<Item>) -> Snap { counts_ok(t.root(), None, "operator result", 1 << 30); st(&t) }
fn okf(f: Forest<Item>) -> Snap { counts_ok_forest(&f, "operator result", 1 << 30); sf(&f) }

pub const NFORMS: usize = 26;
/// One operator form on operands of any shape and storage.
fn operator(ctx: &mut Ctx, form: usize, t: [Tree<Item>; 2], f: [Forest<Item>; 2]) {
    let [a, b] = t;
    let [p, q] = f;
    let (sa, sb, sp, sq) = (st(&a), st(&b), sf(&p), sf(&q));
    let k = payload::clones();
    fn cat(mut x: Vec<Exp>, y: Vec<Exp>) -> Vec<Exp> { x.extend(y); x }
    // t / x: the root's degree grows
    fn under(mut x: Vec<Exp>, y: Vec<Exp>, n: usize) -> Vec<Exp> { x[0].kids += n; x.extend(y); x }
    let (pa, np, nq) = (expect(&sa, true), sp.roots.len(), sq.roots.len());
    let ra = expect(&sa, false);
    let e = |s: &Snap, m: bool| expect(s, m);
    macro_rules! forest { ($n:expr, $x:expr, $w:expr, $r:expr) => {{ let r = $x; ctx.op(|| $n.into()); judge_expr($n, &okf(r), $w, $r, k); }} }
    macro_rules! tree { ($n:expr, $x:expr, $w:expr) => {{ let r = $x; ctx.op(|| $n.into()); judge_expr($n, &okt(r), $w, 1, k); }} }
    match form {
        0 => forest!("-t", -a, pa, 1),
        1 => { forest!("-&t", -&a, ra, 1); kept("-&t", &sa, st(&a)); }
        2 => forest!("t - t", a - b, cat(pa, e(&sb, true)), 2),
        3 => { forest!("t - &t", a - &b, cat(pa, e(&sb, false)), 2); kept("t - &t", &sb, st(&b)); }
        4 => { forest!("&t - t", &a - b, cat(ra, e(&sb, true)), 2); kept("&t - t", &sa, st(&a)); }
        5 => { forest!("&t - &t", &a - &b, cat(ra, e(&sb, false)), 2); kept("&t - &t", &sa, st(&a)); kept("&t - &t", &sb, st(&b)); }
        6 => tree!("t / t", a / b, under(pa, e(&sb, true), 1)),
        7 => { tree!("t / &t", a / &b, under(pa, e(&sb, false), 1)); kept("t / &t", &sb, st(&b)); }
        8 => { tree!("&t / t", &a / b, under(ra, e(&sb, true), 1)); kept("&t / t", &sa, st(&a)); }
        9 => { tree!("&t / &t", &a / &b, under(ra, e(&sb, false), 1)); kept("&t / &t", &sa, st(&a)); kept("&t / &t", &sb, st(&b)); }
        10 => tree!("t / f", a / p, under(pa, e(&sp, true), np)),
        11 => { tree!("t / &f", a / &p, under(pa, e(&sp, false), np)); kept("t / &f", &sp, sf(&p)); }
        12 => { tree!("&t / f", &a / p, under(ra, e(&sp, true), np)); kept("&t / f", &sa, st(&a)); }
        13 => { tree!("&t / &f", &a / &p, under(ra, e(&sp, false), np)); kept("&t / &f", &sa, st(&a)); kept("&t / &f", &sp, sf(&p)); }
        14 => tree!("t / ()", a / (), pa),
        15 => { tree!("&t / ()", &a / (), ra); kept("&t / ()", &sa, st(&a)); }
        16 => forest!("f - t", p - a, cat(e(&sp, true), pa), np + 1),
        17 => { forest!("f - &t", p - &a, cat(e(&sp, true), ra), np + 1); kept("f - &t", &sa, st(&a)); }
        18 => { forest!("&f - t", &p - a, cat(e(&sp, false), pa), np + 1); kept("&f - t", &sp, sf(&p)); }
        19 => { forest!("&f - &t", &p - &a, cat(e(&sp, false), ra), np + 1); kept("&f - &t", &sp, sf(&p)); kept("&f - &t", &sa, st(&a)); }
        20 => forest!("f - f", p - q, cat(e(&sp, true), e(&sq, true)), np + nq),
        21 => { forest!("f - &f", p - &q, cat(e(&sp, true), e(&sq, false)), np + nq); kept("f - &f", &sq, sf(&q)); }
        22 => { forest!("&f - f", &p - q, cat(e(&sp, false), e(&sq, true)), np + nq); kept("&f - f", &sp, sf(&p)); }
        23 => { forest!("&f - &f", &p - &q, cat(e(&sp, false), e(&sq, false)), np + nq); kept("&f - &f", &sp, sf(&p)); kept("&f - &f", &sq, sf(&q)); }
        // an operand on both sides
        24 => { forest!("&t - &t (same)", &a - &a, cat(e(&sa, false), ra), 2); let k = payload::clones(); judge_expr("&t / &t (same)", &okt(&a / &a), under(e(&sa, false), e(&sa, false), 1), 1, k); kept("&t op &t", &sa, st(&a)); }
        _ => { forest!("&f - &f (same)", &p - &p, cat(e(&sp, false), e(&sp, false)), np * 2); kept("&f - &f", &sp, sf(&p)); }
    }
    ctx.count("operator_applications", 1);
}

pub fn operators(ctx: &mut Ctx) {
    let form = ctx.case as usize % NFORMS;
    let max = if ctx.small { 5 } else { ctx.scale(12, 500, 150) };
    let mut m = Model::default();
    let mut sigs = 0u64;
    let nt = true;
    let mut tree = |ctx: &mut Ctx| -> Tree<Item> {
        let s = gen_spec(&mut ctx.c, max, &mut |c| c.below(50) as i64);
        let style = *ctx.c.pick(&STYLES);
        let mut sub = Choice::seeded(&[ctx.c.raw()]);
        ctx.sig_str(&s.text());
        ctx.sig(style as u64);
        sigs += 1;
        ctx.op(|| format!("tree {} [{style:?}]", s.text()));
        real_tree::<Item>(&mut m, &s, style, &mut sub).0
    };
    let t = [tree(ctx), tree(ctx)];
    let mut forest = |ctx: &mut Ctx| -> Forest<Item> {
        let n = ctx.c.below(4);
        let s: Vec<Spec> = (0..n).map(|_| gen_spec(&mut ctx.c, max.min(4).max(max / 3), &mut |c| c.below(50) as i64)).collect();
        let style = *ctx.c.pick(&STYLES);
        let mut sub = Choice::seeded(&[ctx.c.raw()]);
        for x in &s { ctx.sig_str(&x.text()); }
        ctx.op(|| format!("forest {:?} [{style:?}]", s.iter().map(|x| x.text()).collect::<Vec<_>>()));
        real_forest::<Item>(&mut m, &s, style, &mut sub).0
    };
    let f = [forest(ctx), forest(ctx)];
    ctx.sig(form as u64);
    operator(ctx, form, t, f);
    ctx.done(nt);
}

/// Long expressions: each step applies a random form to random operands of a pool; and tr/fr literals.
pub fn expressions(ctx: &mut Ctx) {
    let mut w = World::<Item>::new(STRUCT | COUNTS | DROPS);
    w.max_slots = 6;
    w.max_nodes = if ctx.small { 20 } else { 60 };
    // tr and fr
    let x = ctx.c.below(100) as i64;
    let t = tr(Item::mk(x));
    ensure!(t.data().v() == x && t.has_no_child() && t.node_count() == 1, "tr({x}) is {t}");
    let f = fr::<Item>();
    ensure!(f.has_no_child() && f.node_count() == 0, "fr() is {f}");
    drop((t, f));
    for _ in 0..4 { w.add_tree(ctx, 5); }
    let n = if ctx.small { 5 } else { 20 };
    let mut applied = 0;
    for _ in 0..n {
        if w.slots.len() < 3 { w.add_tree(ctx, 5); w.add_forest(ctx, 2); }
        if w.operators(ctx) { applied += 1; w.judge_all("after an operator"); w.judge_drops("after an operator"); }
    }
    ctx.count("operator_applications", applied);
    ctx.done(applied >= 3);
}

// ---- C14 --------------------------------------------------------------------------------------------------------

/// Reference order: data first, then children lexicographically.
pub fn spec_cmp(a: &Spec, b: &Spec) -> Ordering { a.val.cmp(&b.val).then_with(|| spec_cmp_list(&a.kids, &b.kids)) }
pub fn spec_cmp_list(a: &[Spec], b: &[Spec]) -> Ordering {
    for (x, y) in a.iter().zip(b) { let o = spec_cmp(x, y); if o != Ordering::Equal { return o; } }
    a.len().cmp(&b.len())
}

fn judge_pair<T: Ord + std::hash::Hash + std::fmt::Display + ?Sized>(kind: &str, a: &T, b: &T, want: Ordering) {
    let h = |x: &T| { use std::hash::Hasher; let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() };
    let w = || format!("{kind}: {a} and {b}");
    ensure_eq!(a == b, want == Ordering::Equal, "{}: ==", w());
    ensure_eq!(a != b, want != Ordering::Equal, "{}: !=", w());
    ensure_eq!(a.cmp(b), want, "{}: cmp", w());
    ensure_eq!(b.cmp(a), want.reverse(), "{} reversed: cmp", w());
    ensure_eq!(a.partial_cmp(b), Some(want), "{}: partial_cmp", w());
    ensure_eq!(a < b, want == Ordering::Less, "{}: <", w());
    ensure_eq!(a <= b, want != Ordering::Greater, "{}: <=", w());
    ensure_eq!(a > b, want == Ordering::Greater, "{}: >", w());
    ensure_eq!(a >= b, want != Ordering::Less, "{}: >=", w());
    if want == Ordering::Equal { ensure_eq!(h(a), h(b), "{}: hashes of equal values", w()); }
}

/// Judges both as Tree, root Node, inner Node, shared node and one-tree Forest.
fn judge_trees<P: Pay>(ctx: &mut Ctx, a: Tree<P>, b: Tree<P>, want: Ordering) {
    judge_pair("Tree", &a, &b, want);
    judge_pair::<Node<P>>("Node", a.root(), b.root(), want);
    ensure_eq!(hash_of(&a), hash_of(a.root()), "hash of a Tree and of its root Node {a}");
    // as children of other trees, so that siblings and parents are around
    let mut x = Tree::new(P::mk(1)); x.push_back(a); x.push_back(Tree::new(P::mk(9)));
    let mut y = Tree::new(P::mk(2)); y.push_front(Tree::new(P::mk(3))); y.push_back(b);
    judge_pair::<Node<P>>("inner Node", x.front().unwrap(), y.back().unwrap(), want);
    let (a, b) = (x.pop_front().unwrap(), y.pop_back().unwrap());
    let (fa, fb) = (-a, -b);
    judge_pair("Forest of one", &fa, &fb, want);
    let (a, b) = (fa.into_iter().next().unwrap(), fb.into_iter().next().unwrap());
    let h = (hash_of(&a), hash_of(&b));
    let (a, b) = (RcNode::from(a), RcNode::from(b));
    judge_pair("RcNode", &a, &b, want);
    ensure_eq!((hash_of(&a), hash_of(&b)), h, "hash as Tree and as shared node");
    ensure!(a == a.clone() && a.cmp(&a.clone()) == Ordering::Equal, "a shared node equals its other handles");
    ctx.count("pairs", 1);
}

pub fn compare_exhaustive(ctx: &mut Ctx, max: usize) {
    // all trees of up to `max` nodes with labels 0/1; this case takes one left operand against all right operands
    let mut all: Vec<Spec> = vec![];
    for n in 1..=max { for sh in all_shapes(n) { for bits in 0..1u32 << n {
        let mut s = sh.clone();
        let mut i = 0;
        s.relabel(&mut || { i += 1; (bits >> (i - 1) & 1) as i64 });
        all.push(s);
    } } }
    let a = &all[ctx.case as usize % all.len()];
    for (k, b) in all.iter().enumerate() {
        crate::ctx::SUB.store(k as u64, std::sync::atomic::Ordering::Relaxed);
        let mut m = Model::default();
        let mut sub = Choice::seeded(&[k as u64, ctx.case]);
        let (sa, sb) = if k % 2 == 0 { (Style::Back, Style::PiledBfs) } else { (Style::PiledBfs, Style::Mixed) };
        ctx.op(|| format!("compare {} with {}", a.text(), b.text()));
        let want = spec_cmp(a, b);
        let (ta, tb) = (real_tree::<i64>(&mut m, a, sa, &mut sub).0, real_tree::<i64>(&mut m, b, sb, &mut sub).0);
        judge_trees(ctx, ta, tb, want);
        let want = spec_cmp_list(&a.kids, &b.kids);
        let (fa, fb) = (real_forest::<i64>(&mut m, &a.kids, sb, &mut sub).0, real_forest::<i64>(&mut m, &b.kids, sa, &mut sub).0);
        judge_pair("Forest", &fa, &fb, want);
        ctx.sig(ctx.case);
        ctx.sig(k as u64);
        ctx.done(a.size() + b.size() >= 4);
    }
}

/// A variant of a spec that differs a little, or not at all.
fn vary(c: &mut Choice, s: &Spec) -> Spec {
    let mut t = s.clone();
    let kind = c.below(7);
    // walk to a random node
    fn pick<'a>(c: &mut Choice, mut s: &'a mut Spec) -> &'a mut Spec { loop { if s.kids.is_empty() || c.chance(1, 3) { return s; } let i = c.below(s.kids.len()); s = &mut s.kids[i]; } }
    let n = pick(c, &mut t);
    match kind {
        0 => (),
        1 => n.val += 1,
        2 => n.kids.push(Spec { val: c.below(3) as i64, kids: vec![] }),
        3 => { n.kids.pop(); }
        4 => { if n.kids.len() >= 2 { let i = c.below(n.kids.len() - 1); n.kids.swap(i, i + 1); } }
        5 => { // a child's last child becomes its next sibling: the same labels in preorder
            if !n.kids.is_empty() { let i = c.below(n.kids.len()); if let Some(x) = n.kids[i].kids.pop() { n.kids.insert(i + 1, x); } }
        }
        _ => { if !n.kids.is_empty() { let i = c.below(n.kids.len()); let x = n.kids.remove(i); n.kids.insert(0, x); } }
    }
    t
}

pub fn compare_random<P: Pay>(ctx: &mut Ctx) {
    let max = if ctx.small { 7 } else { ctx.scale(40, 600, 80) };
    let mut specs = vec![gen_spec(&mut ctx.c, max, &mut |c| c.below(3) as i64)];
    for _ in 0..3 { let i = ctx.c.below(specs.len()); let v = vary(&mut ctx.c, &specs[i].clone()); specs.push(v); }
    if !P::VALUES { for s in &mut specs { s.relabel(&mut || 0); } }
    for i in 0..specs.len() { for j in 0..specs.len() {
        let mut m = Model::default();
        let (sa, sb) = (*ctx.c.pick(&STYLES), *ctx.c.pick(&STYLES));
        let mut sub = Choice::seeded(&[ctx.c.raw()]);
        op_label(ctx, &format!("compare {} [{sa:?}] with {} [{sb:?}]", specs[i].text(), specs[j].text()));
        let (ta, tb) = (real_tree::<P>(&mut m, &specs[i], sa, &mut sub).0, real_tree::<P>(&mut m, &specs[j], sb, &mut sub).0);
        judge_trees(ctx, ta, tb, spec_cmp(&specs[i], &specs[j]));
        let (fa, fb) = (real_forest::<P>(&mut m, &specs[i].kids, sb, &mut sub).0, real_forest::<P>(&mut m, &specs[j].kids, sa, &mut sub).0);
        judge_pair("Forest", &fa, &fb, spec_cmp_list(&specs[i].kids, &specs[j].kids));
    } }
    ctx.done(specs[0].size() >= 3);
}

/// Data that came about differently: two trees edited into the same (or nearly the same) structure.
pub fn compare_history(ctx: &mut Ctx) {
    let max = if ctx.small { 6 } else { ctx.scale(20, 500, 100) };
    let mut w = world::<Item>(ctx, max, 10);
    w.max_slots = 99;
    let nt = true;
    for i in 0..w.slots.len().min(3) {
        let s = match w.slots[i].m { MObj::Tree(r) => w.m.spec(r), MObj::Forest(_) => continue };
        let Obj::Tree(t) = &w.slots[i].obj else { continue };
        let v = vary(&mut ctx.c, &s);
        for x in [&s, &v] {
            let mut m = Model::default();
            let style = *ctx.c.pick(&STYLES);
            let mut sub = Choice::seeded(&[ctx.c.raw()]);
            let u = real_tree::<Item>(&mut m, x, style, &mut sub).0;
            op_label(ctx, &format!("compare edited {} with fresh {} [{style:?}]", s.text(), x.text()));
            judge_pair("edited Tree and fresh Tree", t, &u, spec_cmp(&s, x));
            judge_pair::<Node<Item>>("edited Node and fresh Node", t.root(), u.root(), spec_cmp(&s, x));
            ctx.count("pairs", 1);
        }
    }
    ctx.done(nt);
}

/// Partially ordered data.
pub fn compare_partial(ctx: &mut Ctx) {
    #[derive(Clone, Debug)]
    struct S { v: f64, k: Vec<S> }
    fn conv(s: &Spec) -> S { S { v: match s.val { 0 => f64::NAN, 1 => 0.0, 2 => -0.0, x => x as f64 }, k: s.kids.iter().map(conv).collect() } }
    fn build(s: &S, piled: bool) -> Tree<f64> {
        fn go(s: &S) -> Tree<f64> { let mut t = Tree::new(s.v); for k in &s.k { t.push_back(go(k)); } t }
        let t = go(s);
        if piled { Tree::from(t.into_bfs()) } else { t }
    }
    fn pc(a: &S, b: &S) -> Option<Ordering> { match a.v.partial_cmp(&b.v) { Some(Ordering::Equal) => pcl(&a.k, &b.k), x => x } }
    fn pcl(a: &[S], b: &[S]) -> Option<Ordering> {
        for (x, y) in a.iter().zip(b) { match pc(x, y) { Some(Ordering::Equal) => (), o => return o } }
        Some(a.len().cmp(&b.len()))
    }
    fn eq(a: &S, b: &S) -> bool { a.v == b.v && a.k.len() == b.k.len() && a.k.iter().zip(&b.k).all(|(x, y)| eq(x, y)) }
    fn show(s: &S) -> String { format!("{:?}", s) }
    let max = if ctx.small { 5 } else { ctx.scale(12, 300, 80) };
    let base = gen_spec(&mut ctx.c, max, &mut |c| if c.chance(1, 4) { c.below(3) as i64 } else { 3 + c.below(2) as i64 });
    let mut specs = vec![base];
    for _ in 0..3 { let i = ctx.c.below(specs.len()); let v = vary(&mut ctx.c, &specs[i].clone()); specs.push(v); }
    let mut odd = 0;
    for a in &specs { for b in &specs {
        let (a, b) = (conv(a), conv(b));
        op_label(ctx, &format!("compare {} with {}", show(&a), show(&b)));
        let (x, y) = (build(&a, ctx.c.coin()), build(&b, ctx.c.coin()));
        let (we, wc) = (eq(&a, &b), pc(&a, &b));
        if wc.is_none() { odd += 1; }
        macro_rules! j { ($k:expr, $x:expr, $y:expr, $we:expr, $wc:expr) => {{
            let (x, y) = ($x, $y);
            ensure_eq!(x == y, $we, "{} with partially ordered data: == of {a:?} and {b:?}", $k);
            ensure_eq!(x != y, !$we, "{} with partially ordered data: != of {a:?} and {b:?}", $k);
            ensure_eq!(x.partial_cmp(y), $wc, "{} with partially ordered data: partial_cmp of {a:?} and {b:?}", $k);
            ensure_eq!(x < y, $wc == Some(Ordering::Less), "{} with partially ordered data: < of {a:?} and {b:?}", $k);
            ensure_eq!(x > y, $wc == Some(Ordering::Greater), "{} with partially ordered data: > of {a:?} and {b:?}", $k);
            ensure_eq!(x <= y, matches!($wc, Some(Ordering::Less | Ordering::Equal)), "{} with partially ordered data: <= of {a:?} and {b:?}", $k);
            ensure_eq!(x >= y, matches!($wc, Some(Ordering::Greater | Ordering::Equal)), "{} with partially ordered data: >= of {a:?} and {b:?}", $k);
        }} }
        let (wea, wca) = (eq(&a, &a), pc(&a, &a));
        // with itself: the very same object need not be equal to itself
        j!("Tree and itself,", &x, &x, wea, wca);
        j!("Node and itself,", x.root(), x.root(), wea, wca);
        j!("Tree", &x, &y, we, wc);
        j!("Node", x.root(), y.root(), we, wc);
        let (x, y) = (-x, -y);
        j!("Forest", &x, &y, we, wc);
        j!("Forest and itself,", &x, &x, wea, wca);
        let (x, y) = (RcNode::from(x.into_iter().next().unwrap()), RcNode::from(y.into_iter().next().unwrap()));
        j!("RcNode", &x, &y, we, wc);
        j!("RcNode and itself,", &x, &x, wea, wca);
        j!("RcNode and another handle of it,", &x, &x.clone(), wea, wca);
        ctx.count("pairs", 5);
    } }
    ctx.count("incomparable_pairs", odd);
    ctx.done(odd > 0);
}

// ---- C15 --------------------------------------------------------------------------------------------------------

/// Reads the text back by the documented grammar.
fn parse(s: &str) -> Option<Spec> {
    fn node(b: &[u8], i: &mut usize) -> Option<Spec> {
        let st = *i;
        while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) { *i += 1; }
        let val = std::str::from_utf8(&b[st..*i]).ok()?.parse().ok()?;
        let mut kids = vec![];
        if b[*i..].starts_with(b"( ") {
            *i += 2;
            while *i < b.len() && b[*i] != b')' { kids.push(node(b, i)?); if b.get(*i) != Some(&b' ') { return None; } *i += 1; }
            if b.get(*i) != Some(&b')') || kids.is_empty() { return None; }
            *i += 1;
        }
        Some(Spec { val, kids })
    }
    let b = s.as_bytes();
    let mut i = 0;
    let r = node(b, &mut i)?;
    if i == b.len() { Some(r) } else { None }
}

fn judge_text(what: &str, got: String, want: &str) { ensure!(got == want, "{what}: text {got:?}, expected {want:?}"); }

/// Debug text without node addresses ("@0x...") and spacing.
fn bare(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if s[i..].starts_with("@0x") { it.next(); it.next(); while it.peek().is_some_and(|x| x.1.is_ascii_hexdigit()) { it.next(); } continue; }
        // two values that only spacing keeps apart stay apart
        if c.is_whitespace() { if !o.ends_with([' ', '(', ')']) && it.peek().is_some_and(|x| !x.1.is_whitespace() && !"()@".contains(x.1)) { o.push(' '); } continue; }
        o.push(c);
    }
    o
}

/// Debug shows the same data, in the same order and nesting, as Display.
fn judge_debug<T: std::fmt::Debug>(what: &str, x: &T, want: &str) {
    for got in [format!("{x:?}"), format!("{x:#?}")] { ensure!(bare(&got) == bare(want), "Debug of {what}: {got:?} does not show the structure of {want:?}"); }
}

pub fn texts<P: Pay>(ctx: &mut Ctx) {
    let max = size_of(ctx);
    let len = ctx.c.below(9);
    let mut w = world::<P>(ctx, max, len);
    if !P::VALUES { for n in &mut w.m.n { n.val = 0; } }
    let mut nt = false;
    for i in 0..w.slots.len() {
        let m = w.slots[i].m;
        let nodes = w.nodes(m);
        nt |= nodes.len() >= 4;
        let text = w.text(m);
        op_label(ctx, &format!("text of {text}"));
        match (&w.slots[i].obj, m) {
            (Obj::Tree(t), MObj::Tree(_)) => { judge_text("Tree", t.to_string(), &text); judge_text("Tree via {}", format!("{}", t), &text); if P::VALUES { judge_debug("Tree", t, &text); } }
            (Obj::Forest(f), MObj::Forest(_)) => { judge_text("Forest", f.to_string(), &text); if P::VALUES { judge_debug("Forest", f, &text); } }
            _ => unreachable!(),
        }
        for id in nodes.iter().take(200) {
            let n = node_ref(&w.slots[i].obj, &w.m.path(*id));
            let want = w.m.text(*id);
            let got = n.to_string();
            if P::VALUES { match parse(&got) { Some(s) => ensure!(s == w.m.spec(*id), "text {got:?} reads back as another structure than {want:?}"), None => fail!("text {got:?} is not readable by its grammar (expected {want:?})") } }
            judge_text("Node", got, &want);
            if ctx.c.chance(1, 8) { if P::VALUES { judge_debug("Node", &n, &w.m.text(*id)); } else { drop(format!("{n:?}")); } }
            ctx.count("texts", 1);
        }
    }
    while let Some(s) = w.slots.pop() {
        if let (Obj::Tree(t), MObj::Tree(r)) = (s.obj, s.m) {
            let rc = RcNode::from(t);
            judge_text("RcNode", rc.to_string(), &w.m.text(r));
            if ctx.c.coin() { if P::VALUES { judge_debug("RcNode", &rc, &w.m.text(r)); } else { drop(format!("{rc:?}")); } }
            let mut q = vec![(rc, r)];
            let mut at = 0;
            while at < q.len() && at < 60 {
                let (n, id) = (q[at].0.clone(), q[at].1);
                judge_text("inner RcNode", n.to_string(), &w.m.text(id));
                let kids = w.m.n[id].kids.clone();
                q.extend(n.iter_rc().zip(kids));
                at += 1;
            }
            ctx.count("texts", at as u64);
        }
    }
    ensure_eq!(Forest::<P>::new().to_string(), "()", "text of an empty forest");
    ctx.done(nt);
}

pub fn texts_exhaustive(ctx: &mut Ctx, max: usize) {
    let n = 1 + ctx.case as usize % max;
    for (k, shape) in all_shapes(n).into_iter().enumerate() {
        crate::ctx::SUB.store(k as u64, std::sync::atomic::Ordering::Relaxed);
        for style in [Style::Back, Style::PiledBfs] {
            let mut m = Model::default();
            let mut s = shape.clone();
            let mut i = 0;
            s.relabel(&mut || { i += 1; i * 7 % 23 - 5 });
            let mut sub = Choice::seeded(&[k as u64]);
            ctx.op(|| format!("texts of {} [{style:?}]", s.text()));
            let (t, _) = real_tree::<i64>(&mut m, &s, style, &mut sub);
            judge_text("Tree", t.to_string(), &s.text());
            judge_text("Node", t.root().to_string(), &s.text());
            judge_debug("Tree", &t, &s.text());
            ensure!(parse(&t.to_string()).as_ref() == Some(&s), "text {} does not read back", t);
            let rc = RcNode::from(t);
            judge_text("RcNode", rc.to_string(), &s.text());
            judge_debug("RcNode", &rc, &s.text());
            let (f, _) = real_forest::<i64>(&mut m, &s.kids, style, &mut sub);
            let want = if s.kids.is_empty() { "()".to_string() } else { let mut x = String::from("( "); for k in &s.kids { x.push_str(&k.text()); x.push(' '); } x.push(')'); x };
            judge_text("Forest", f.to_string(), &want);
            judge_debug("Forest", &f, &want);
            ctx.count("texts", 4);
            ctx.sig_str(&s.text());
            ctx.sig(style as u64);
            ctx.done(n >= 3);
        }
    }
}

/// Data whose own text has spaces, parentheses, nothing at all, or non-ASCII characters.
pub fn texts_strings(ctx: &mut Ctx) {
    let words = ["", " ", "a", "( )", ")(", "x y", "\u{e9}\u{4e2d}", "0", "\n"];
    let max = if ctx.small { 6 } else { ctx.scale(30, 700, 100) };
    let s = gen_spec(&mut ctx.c, max, &mut |c| c.below(9) as i64);
    fn text(s: &Spec, w: &[&str]) -> String {
        let mut o = w[s.val as usize].to_string();
        if !s.kids.is_empty() { o.push_str("( "); for k in &s.kids { o.push_str(&text(k, w)); o.push(' '); } o.push(')'); }
        o
    }
    fn build(s: &Spec, w: &[&str]) -> Tree<String> { let mut t = Tree::new(w[s.val as usize].to_string()); for k in &s.kids { t.push_back(build(k, w)); } t }
    op_label(ctx, &format!("words by {}", s.text()));
    let want = text(&s, &words);
    let t = build(&s, &words);
    judge_text("Tree of strings", t.to_string(), &want);
    let t = if ctx.c.coin() { Tree::from(t.into_bfs()) } else { t };
    judge_text("Tree of strings", t.to_string(), &want);
    let f = -t;
    judge_text("Forest of strings", f.to_string(), &format!("( {want} )"));
    let rc = RcNode::from(f.into_iter().next().unwrap());
    judge_text("RcNode of strings", rc.to_string(), &want);
    ctx.count("texts", 4);
    ctx.done(s.size() >= 3);
}
