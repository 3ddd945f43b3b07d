//! Sizes, counts, indices, numbers of handles around and above 2^8 and 2^16, judged for their results (many properties).

use crate::ctx::Ctx;
use crate::deep::{see, Shape};
use crate::model::op_label;
use crate::rng::Choice;
use crate::{ensure, ensure_eq};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use trees::{Forest, ForestWalk, Node, RcNode, Size, Tree, TreeWalk};

pub const STACK: usize = 1 << 30; // dropping, comparing and formatting recurse

#[derive(Clone, Copy, PartialEq)]
pub enum What { Edits, Streams, Copies, Tours, Jumps, Iters, Handles, Compare, Text, Place, Notation }
use What::*;

fn size(c: &mut Choice, small: bool) -> usize {
    if small { return c.range(2, 9); }
    match c.below(8) {
        0 => 256 + c.below(8) - 4,
        1 => 1024 + c.below(4) - 2,
        2 => 4096 + c.below(4) - 2,
        3 => 32768 + c.below(4) - 2,
        4 | 5 => 65536 + c.below(8) - 4,
        6 => c.range(65540, 68000),
        _ => c.range(10, 5000),
    }
}

fn make(s: &Shape, piled: bool, base: usize) -> Tree<usize> {
    let mut t = if piled { s.piled() } else { s.scattered() };
    if base > 0 { for v in t.bfs_mut().iter { *v.data += base; } }
    t
}
/// Data, shape and every node's counts.
fn whole(what: &str, s: &Shape, root: &Node<usize>, base: usize) {
    s.check(what, root, base);
    let (sizes, kids) = (s.sizes(), s.kids());
    let mut q = vec![root];
    let mut at = 0;
    while at < q.len() {
        let n = q[at];
        ensure_eq!(n.degree(), sizes[at].degree, "{what}: degree of node {at} in level order");
        ensure_eq!(n.node_count(), sizes[at].descendants + 1, "{what}: node_count of node {at} in level order");
        ensure!(n.has_no_child() == (kids[at].1 == 0), "{what}: has_no_child of node {at}");
        ensure!(n.front().map(|x| *x.data()) == (kids[at].1 > 0).then(|| base + kids[at].0), "{what}: front of node {at}");
        ensure!(n.back().map(|x| *x.data()) == (kids[at].1 > 0).then(|| base + kids[at].0 + kids[at].1 - 1), "{what}: back of node {at}");
        for c in n.iter() { ensure!(c.parent().map_or(false, |p| std::ptr::eq(p, n)), "{what}: parent of a child of node {at}"); q.push(c); }
        at += 1;
    }
}

fn edits(s: &Shape, u: &Shape, piled: bool, c: &mut Choice, what: &str) {
    let (n, m) = (s.n(), u.n());
    let (ks, ku) = (s.kids()[0].1, u.kids()[0].1);
    let mut t = make(s, piled, 0);
    whole(what, s, t.root(), 0);
    let other = c.coin();
    // taken out at either end and put back
    for front in [true, false] {
        let Some(x) = (if front { t.pop_front() } else { t.pop_back() }) else { break };
        let k = x.node_count();
        ensure_eq!(k, x.bfs().iter.count(), "{what}: node_count of a popped tree");
        ensure_eq!(t.node_count(), n - k, "{what}: node_count after a pop");
        ensure_eq!(t.degree(), ks - 1, "{what}: degree after a pop");
        if front { t.push_front(x); } else { t.push_back(x); }
    }
    whole(&format!("{what}: popped and pushed back"), s, t.root(), 0);
    // a whole tree
    t.push_back(make(u, other, n));
    ensure_eq!((t.degree(), t.node_count()), (ks + 1, n + m), "{what}: (degree, node_count) with another tree pushed");
    ensure_eq!(t.back().map(|x| x.node_count()), Some(m), "{what}: node_count of the tree pushed");
    let mut x = t.pop_back().unwrap();
    whole(&format!("{what}: pushed and popped"), u, x.root(), n);
    // a whole forest
    let f = x.abandon();
    ensure_eq!((x.degree(), x.node_count(), f.degree(), f.node_count()), (0, 1, ku, m - 1), "{what}: (degree, node_count) of an abandoned tree and of its forest");
    if c.coin() { t.append(f) } else { t.prepend(f); for _ in 0..ku { let x = t.pop_front().unwrap(); t.push_back(x); } }
    ensure_eq!((t.degree(), t.node_count()), (ks + ku, n + m - 1), "{what}: (degree, node_count) with a forest appended");
    // from the middle
    if ks + ku > 0 {
        let k = c.below(ks + ku);
        let mut it = t.iter_mut();
        let mut node = it.nth(k).unwrap();
        let (d, cnt) = (*node.data(), node.node_count());
        let x = node.detach();
        ensure_eq!((t.degree(), t.node_count()), (ks + ku - 1, n + m - 1 - cnt), "{what}: (degree, node_count) with child {k} detached");
        ensure_eq!(*x.data(), d, "{what}: detached");
        if k == 0 { t.push_front(x); } else { let mut it = t.iter_mut(); it.nth(k - 1).unwrap().insert_next_sib(x); }
        ensure_eq!((t.degree(), t.node_count()), (ks + ku, n + m - 1), "{what}: (degree, node_count) with child {k} put back");
        ensure_eq!(t.iter().nth(k).map(|x| *x.data()), Some(d), "{what}: child {k}");
    }
    let mut back = Forest::new();
    for _ in 0..ku { back.push_front(t.pop_back().unwrap()); }
    ensure_eq!((back.degree(), back.node_count()), (ku, m - 1), "{what}: (degree, node_count) of the forest taken back");
    whole(&format!("{what}: forest appended and taken back"), s, t.root(), 0);
    x.append(back);
    whole(&format!("{what}: forest taken back"), u, x.root(), n);
    // at the very bottom, one by one upwards
    let sizes = s.sizes();
    let mut path = vec![n - 1];
    while *path.last().unwrap() != 0 { path.push(s.par[*path.last().unwrap()]); }
    let mut at: *mut Node<usize> = unsafe { t.root_mut().get_unchecked_mut() };
    let kids = s.kids();
    for w in path.windows(2).rev() { let k = w[0] - kids[w[1]].0; at = unsafe { (&mut *at).iter_mut().nth(k).unwrap().get_unchecked_mut() }; }
    let mut low = make(u, other, n);
    if c.coin() { unsafe { &mut *at }.push_back(low); } else { let f = low.abandon(); unsafe { &mut *at }.push_front(low); unsafe { &mut *at }.iter_mut().next().map(|x| unsafe { x.get_unchecked_mut() }.append(f)); }
    { let mut p = Some(unsafe { &*at }); let mut i = 0; while let Some(x) = p { ensure_eq!(x.node_count(), sizes[path[i]].descendants + 1 + m, "{what}: node_count {i} levels above {m} new nodes"); p = x.parent(); i += 1; } ensure_eq!(i, path.len(), "{what}: levels"); }
    let x = unsafe { &mut *at }.pop_back().unwrap();
    whole(&format!("{what}: pushed at the bottom and popped"), u, x.root(), n);
    whole(&format!("{what}: bottom"), s, t.root(), 0);
}

fn streams(s: &Shape, piled: bool, what: &str) {
    let sizes = s.sizes();
    let n = s.n();
    let mut t = make(s, piled, 0);
    macro_rules! see_all { ($name:expr, $b:expr, $first:expr) => {{
        let b = $b;
        ensure_eq!(b.size, if $first == 0 { Size { degree: 1, descendants: n - 1 } } else { sizes[0] }, "{what}: size of {}", $name);
        let mut k = $first;
        for v in b.iter { ensure!(k < n, "{what}: {} does not end", $name); ensure_eq!(v.data.clone(), k, "{what}: visit {k} of {}", $name); ensure_eq!(v.size, sizes[k], "{what}: size in visit {k} of {}", $name); k += 1; }
        ensure_eq!(k, n, "{what}: visits of {}", $name);
    }} }
    see_all!("bfs", t.root().bfs().map(|d: &usize| *d), 0);
    see_all!("bfs_children", t.root().bfs_children().map(|d: &usize| *d), 1);
    see_all!("bfs_mut", t.bfs_mut(), 0);
    see_all!("bfs_children_mut", t.bfs_children_mut(), 1);
    see_all!("into_bfs", t.into_bfs(), 0);
    let mut t = make(s, piled, 0);
    let mut f = t.abandon();
    see_all!("Forest::bfs", f.bfs().map(|d: &usize| *d), 1);
    see_all!("Forest::bfs_mut", f.bfs_mut(), 1);
    see_all!("Forest::into_bfs", f.into_bfs(), 1);
}

fn copies(s: &Shape, piled: bool, what: &str) {
    let mut t = make(s, piled, 0);
    let c = t.clone();
    whole(&format!("{what}: clone"), s, c.root(), 0);
    drop(c);
    let c = t.deep_clone();
    whole(&format!("{what}: deep_clone"), s, c.root(), 0);
    let mut over = Tree::new(7);
    over.push_back(Tree::new(8));
    over.clone_from(&c);
    whole(&format!("{what}: clone_from"), s, over.root(), 0);
    drop(over);
    let c = Tree::from(c.into_bfs());
    whole(&format!("{what}: rebuilt"), s, c.root(), 0);
    let mut c = Tree::from(c.bfs().map(|d: &usize| *d));
    let f = c.deep_clone_forest();
    let g = f.clone();
    ensure_eq!((f.degree(), f.node_count(), g.degree(), g.node_count()), (s.kids()[0].1, s.n() - 1, s.kids()[0].1, s.n() - 1), "{what}: counts of copied forests");
    let g = Forest::from(g.into_bfs());
    drop(c.abandon());
    c.append(g);
    whole(&format!("{what}: forest rebuilt"), s, c.root(), 0);
    drop(c);
    whole(&format!("{what}: source"), s, t.root(), 0);
    // copies do not share
    let mut c = t.clone();
    if let Some(v) = c.bfs_mut().iter.last() { *v.data = usize::MAX; }
    whole(&format!("{what}: source after the copy changed"), s, t.root(), 0);
    if let Some(x) = t.pop_front() { t.push_front(x); }
    let r = RcNode::from(t);
    whole(&format!("{what}: RcNode::deep_clone"), s, r.deep_clone().root(), 0);
}

fn tours(s: &Shape, piled: bool, what: &str) {
    let want = s.tour();
    let mut w = TreeWalk::from(make(s, piled, 0));
    for (k, x) in want.iter().enumerate() {
        ensure_eq!(see(w.get()), Some(*x), "{what}: visit {k}");
        ensure_eq!(w.get_parent().map(|p| *p.data()), (x.0 > 0).then(|| s.par[x.0]), "{what}: parent at visit {k}");
        w.forward();
    }
    ensure!(w.get().is_none(), "{what}: the tour is too long");
    w.revisit();
    ensure_eq!(see(w.get()), Some(want[0]), "{what}: second tour");
    let mut t: Tree<usize> = w.into();
    let inner = &want[if want.len() > 1 { 1 } else { want.len() }..want.len().max(2) - 1];
    let mut w = ForestWalk::from(t.abandon());
    for (k, x) in inner.iter().enumerate() {
        let v = if k == 0 { see(w.get()) } else { see(w.next()) };
        ensure_eq!(v, Some(*x), "{what}: visit {k} of the forest");
    }
    ensure!(w.next().is_none(), "{what}: the forest's tour is too long");
    t.append(w.into());
    whole(&format!("{what}: after the tours"), s, t.root(), 0);
}

fn jumps(s: &Shape, piled: bool, c: &mut Choice, what: &str) {
    let kids = s.kids();
    let n = s.n();
    let fresh = |i: usize| Some((i, if kids[i].1 == 0 { 1u8 } else { 0 }));
    let mut w = TreeWalk::from(make(s, piled, 0));
    let mut at = 0usize;
    for step in 0..120 {
        let (first, k) = kids[at];
        let sibs = if at == 0 { (0, 1) } else { kids[s.par[at]] };
        match c.below(6) {
            0 | 1 if k > 0 => {
                let j = if c.chance(1, 3) { k - 1 } else { c.below(k) };
                ensure_eq!(see(w.to_child(j)), fresh(first + j), "{what}: step {step}: to_child({j})");
                at = first + j;
            }
            2 if k > 0 => {
                let j = *c.pick(&[k, k + 1, k + 255, k + 65536, usize::MAX]);
                ensure_eq!(see(w.to_child(j)), None, "{what}: step {step}: to_child({j}) of {k} children");
                ensure_eq!(w.get_parent().map(|p| *p.data()), Some(at), "{what}: step {step}: parent past the last child");
                ensure_eq!(see(w.next()), Some((at, 2)), "{what}: step {step}: next() past the last child");
                w.revisit();
                ensure_eq!(see(w.get()), Some((at, 0)), "{what}: step {step}: revisit()");
            }
            3 | 4 => {
                let left = sibs.0 + sibs.1 - 1 - at;
                let j = if c.coin() { left } else { c.below(left + 1) };
                ensure_eq!(see(w.to_sib(j)), fresh(at + j), "{what}: step {step}: to_sib({j})");
                at += j;
            }
            _ => {
                let up = (at > 0).then(|| s.par[at]);
                ensure_eq!(see(w.to_parent()), up.map(|p| (p, 2)), "{what}: step {step}: to_parent()");
                w.revisit();
                at = up.unwrap_or(0);
                ensure_eq!(see(w.get()), fresh(at), "{what}: step {step}: revisit()");
            }
        }
    }
    // to the bottom and all the way up
    let mut w = TreeWalk::from(Tree::from(w));
    let (mut at, mut depth) = (0, 0);
    while kids[at].1 > 0 { let j = kids[at].1 - 1; ensure_eq!(see(w.to_child(j)), fresh(kids[at].0 + j), "{what}: down, level {depth}"); { let up = at; at = kids[at].0 + j; ensure_eq!(w.get_parent().map(|p| *p.data()), Some(up), "{what}: parent, level {depth}"); } depth += 1; }
    while at > 0 {
        at = s.par[at];
        ensure_eq!(see(w.to_parent()), Some((at, 2)), "{what}: up");
        ensure_eq!(w.get_parent().map(|p| *p.data()), (at > 0).then(|| s.par[at]), "{what}: parent on the way up");
    }
    ensure!(w.to_parent().is_none() && w.get().is_none(), "{what}: above the root");
    ensure_eq!(Tree::from(w).node_count(), n, "{what}: after the jumps");
}

fn iters(s: &Shape, piled: bool, c: &mut Choice, what: &str) {
    let (first, k) = s.kids()[0];
    let mut t = make(s, piled, 0);
    macro_rules! judge { ($name:expr, $make:expr, $d:expr) => {{
        let d = $d;
        let it = $make;
        ensure_eq!(it.size_hint(), (k, Some(k)), "{what}: size_hint of {}", $name);
        let mut i = first;
        for x in it { ensure_eq!(d(&x), i, "{what}: {}", $name); i += 1; }
        ensure_eq!(i, first + k, "{what}: number yielded by {}", $name);
        let j = c.below(k + 1);
        let mut it = $make;
        ensure_eq!(it.nth(j).map(|x| d(&x)), (j < k).then(|| first + j), "{what}: nth({j}) of {}", $name);
        let left = k.saturating_sub(j + 1);
        ensure_eq!(it.size_hint(), (left, Some(left)), "{what}: size_hint of {} after nth({j})", $name);
        ensure_eq!(it.count(), left, "{what}: left in {} after nth({j})", $name);
    }} }
    judge!("iter", t.iter(), |x: &&Node<usize>| *x.data());
    ensure_eq!(t.iter().len(), k, "{what}: len");
    judge!("iter_mut", t.iter_mut(), |x: &std::pin::Pin<&mut Node<usize>>| *x.data());
    let r = RcNode::from(t);
    { let mut i = first; for x in r.iter_rc() { ensure_eq!(*x.data(), i, "{what}: iter_rc"); i += 1; } ensure_eq!(i, first + k, "{what}: iter_rc"); }
    let mut t = unsafe { r.into_tree() };
    let f = t.abandon();
    ensure_eq!(f.iter().count(), k, "{what}: Forest::iter");
    let mut it = f.into_iter();
    ensure_eq!(it.size_hint(), (k, Some(k)), "{what}: size_hint of into_iter");
    let j = c.below(k + 1);
    for i in 0..j { ensure_eq!(it.next().map(|x| *x.data()), Some(first + i), "{what}: into_iter"); }
    ensure_eq!(it.size_hint(), (k - j, Some(k - j)), "{what}: size_hint of into_iter after {j}");
    ensure_eq!(it.map(|x| *x.data()).last(), (j < k).then(|| first + k - 1), "{what}: last of into_iter");
    // nodes below the root
    let kids = s.kids();
    let mut t = make(s, piled, 0);
    {
        let mut at = Vec::new();
        let mut q: Vec<&Node<usize>> = t.front().into_iter().chain(t.back()).collect();
        for _ in 0..6 { q = q.iter().flat_map(|n| n.front().into_iter().chain(n.back())).take(8).chain(q.iter().copied().take(2)).collect(); at.extend(q.iter().copied()); }
        for n in at {
            let (first, k) = kids[*n.data()];
            ensure_eq!(n.iter().size_hint(), (k, Some(k)), "{what}: size_hint of iter of node {}", n.data());
            ensure!(n.iter().map(|x| *x.data()).eq(first..first + k), "{what}: iter of node {}", n.data());
            let mut rest = n.iter();
            let j = c.below(k + 1);
            for _ in 0..j { rest.next(); }
            ensure_eq!((rest.len(), rest.count()), (k - j, k - j), "{what}: left in iter of node {} after {j}", n.data());
        }
    }
    for x in t.iter_mut() {
        let (first, k) = kids[*x.data()];
        let mut x = x;
        ensure!(x.iter_mut().map(|y| *y.data()).eq(first..first + k), "{what}: iter_mut of node {}", x.data());
    }
    let r = RcNode::from(t);
    for x in r.iter_rc().chain(r.front().into_iter().flat_map(|n| n.iter_rc())).chain(r.back().into_iter().flat_map(|n| n.iter_rc())) {
        let (first, k) = kids[*x.data()];
        let mut i = first;
        for y in x.iter_rc() { ensure_eq!(*y.data(), i, "{what}: iter_rc of node {}", *x.data()); i += 1; }
        ensure_eq!(i, first + k, "{what}: iter_rc of node {}", *x.data());
    }
    // edited on the way
    let mut t = make(s, piled, 0);
    let mut taken = 0;
    for mut x in t.iter_mut() { if *x.data() % 2 == 0 { drop(x.detach()); taken += 1; } }
    ensure_eq!(t.degree(), k - taken, "{what}: children left");
    ensure_eq!(t.node_count(), t.bfs().iter.count(), "{what}: nodes left");
}

fn handles(s: &Shape, piled: bool, n: usize, c: &mut Choice, what: &str) {
    let r = RcNode::from(make(s, piled, 0));
    let on_child = c.coin();
    let h = if on_child { r.front().unwrap_or_else(|| r.clone()) } else { r.clone() };
    let w = h.downgrade();
    let v = *h.data();
    if !on_child && c.coin() { drop(r); } else { drop(r.clone()); drop(r); }
    let hs: Vec<RcNode<usize>> = (0..n).map(|_| h.clone()).collect();
    drop(h);
    let ws: Vec<_> = (0..n).map(|i| hs[if i % 2 == 0 { 0 } else { i }].downgrade()).collect();
    for k in [0, n / 2, n - 1] { ensure_eq!(ws[k].upgrade().map(|x| *x.data()), Some(v), "{what}: upgrade with {n} handles and {n} weak handles"); }
    let mut hs = hs;
    let keep = hs.swap_remove(c.below(n));
    let drop_weak_first = c.coin();
    if drop_weak_first { drop(ws); } else { drop(std::mem::take(&mut hs)); ensure!(ws[n / 2].upgrade().is_some(), "{what}: upgrade, one of {n} handles left"); drop(ws); }
    drop(hs);
    ensure_eq!(*keep.data(), v, "{what}: data through the last of {n} handles");
    ensure!(w.upgrade().is_some(), "{what}: upgrade with one handle left");
    ensure!(keep.is_root(), "{what}: a root once its parent is gone");
    let m = keep.node_count();
    let u = keep.clone();
    drop(keep);
    ensure_eq!(u.node_count(), m, "{what}: nodes below the last handle");
    u.push_back(Tree::new(1));
    ensure_eq!(u.node_count(), m + 1, "{what}: edited through the last handle");
    drop(u);
    ensure!(w.upgrade().is_none(), "{what}: upgrade without handles");
}

fn compare(s: &Shape, piled: bool, c: &mut Choice, what: &str) {
    let hash = |t: &Tree<usize>| { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() };
    let (a, mut b) = (make(s, piled, 0), make(s, c.coin(), 0));
    ensure!(a == b && !(a != b) && a.cmp(&b).is_eq() && a.partial_cmp(&b).map_or(false, |o| o.is_eq()) && a <= b && !(a < b), "{what}: equal trees compare unequal");
    ensure_eq!(hash(&a), hash(&b), "{what}: hash of equal trees");
    // a node below another is like the root of a tree of its own
    let node_hash = |n: &Node<usize>| { let mut h = DefaultHasher::new(); n.hash(&mut h); h.finish() };
    for n in a.iter().take(2).chain(a.back()).chain(a.front().and_then(|n| n.back())).chain(a.back().and_then(|n| n.front())) {
        let own = n.deep_clone();
        ensure!(*n == *own.root() && *own.root() == *n && n.cmp(own.root()).is_eq() && n.partial_cmp(own.root()).map_or(false, |o| o.is_eq()), "{what}: node {} and its copy compare unequal", n.data());
        ensure_eq!(node_hash(n), node_hash(own.root()), "{what}: hash of node {} and its copy", n.data());
        ensure!(n.to_string() == own.to_string(), "{what}: text of node {} and its copy", n.data());
    }
    // the last node differs
    if let Some(v) = b.bfs_mut().iter.last() { *v.data += 1; }
    ensure!(a != b && b != a && a < b && b > a && a.cmp(&b).is_lt(), "{what}: trees that differ in the last node");
    if let Some(v) = b.bfs_mut().iter.last() { *v.data -= 1; }
    ensure!(a == b, "{what}: equal again");
    // one more leaf
    b.push_back(Tree::new(usize::MAX));
    ensure!(a != b && b != a && a < b && b > a, "{what}: one child more");
    if let Some(x) = b.pop_back() { drop(x); }
    if let Some(x) = b.pop_back() { ensure!(a != b && b != a && b < a, "{what}: one child less"); b.push_back(x); }
    let (mut a, mut b) = (a, b);
    let (f, g) = (a.abandon(), b.abandon());
    ensure!(f == g && !(f != g) && f.cmp(&g).is_eq(), "{what}: equal forests");
}

fn text(s: &Shape, piled: bool, what: &str) {
    let t = make(s, piled, 0);
    let mut want = String::new();
    let (mut inner, tour) = (String::new(), s.tour());
    let end = tour.len() - 1;
    for (k, (i, kind)) in tour.iter().enumerate() {
        let x = match kind { 0 => format!("{i}( "), 1 => format!("{i} "), _ => ") ".to_string() };
        if k > 0 && k < end { inner.push_str(&x); }
        want.push_str(&x);
    }
    let got = t.to_string();
    if got != want.trim_end() { let p = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len())); crate::fail!("{what}: the text differs at byte {p}: {:?} instead of {:?}", &got[p.saturating_sub(20)..(p + 20).min(got.len())], &want[p.saturating_sub(20)..(p + 20).min(want.len())]) }
    let mut t = t;
    let f = t.abandon();
    let want = if s.n() == 1 { "()".to_string() } else { format!("( {})", inner) };
    ensure!(f.to_string() == want, "{what}: the text of the forest differs");
}

fn place(s: &Shape, what: &str) {
    let mut t = make(s, true, 0);
    crate::store::one_run(what, &crate::store::below(vec![t.root()]), 8, std::mem::size_of::<Node<usize>>());
    let f = Forest::from(t.abandon().into_bfs());
    crate::store::one_run(what, &crate::store::below(f.iter().collect()), 8, std::mem::size_of::<Node<usize>>());
}

fn notation(s: &Shape, u: &Shape, piled: bool, what: &str) {
    let (n, m, ks, ku) = (s.n(), u.n(), s.kids()[0].1, u.kids()[0].1);
    let (t, mut x) = (make(s, piled, 0), make(u, !piled, n));
    let y = &t / &x;
    ensure_eq!((y.degree(), y.node_count()), (ks + 1, n + m), "{what}: (degree, node_count) of &tree / &tree");
    let mut y = y;
    whole(&format!("{what}: right operand in &tree / &tree"), u, y.pop_back().unwrap().root(), n);
    whole(&format!("{what}: left operand in &tree / &tree"), s, y.root(), 0);
    whole(&format!("{what}: the left operand"), s, t.root(), 0);
    whole(&format!("{what}: the right operand"), u, x.root(), n);
    let g = x.abandon();
    let y = &t / &g;
    ensure_eq!((y.degree(), y.node_count()), (ks + ku, n + m - 1), "{what}: (degree, node_count) of &tree / &forest");
    let mut y = t / g;
    ensure_eq!((y.degree(), y.node_count()), (ks + ku, n + m - 1), "{what}: (degree, node_count) of tree / forest");
    let f = y.abandon();
    let h = &f - &f;
    ensure_eq!((h.degree(), h.node_count()), (2 * (ks + ku), 2 * (n + m - 2)), "{what}: (degree, node_count) of &forest - &forest");
    let h = h - Tree::new(5) - f;
    ensure_eq!((h.degree(), h.node_count()), (3 * (ks + ku) + 1, 3 * (n + m - 2) + 1), "{what}: (degree, node_count) of forest - tree - forest");
    ensure_eq!(h.bfs().iter.count(), 3 * (n + m - 2) + 1, "{what}: nodes of forest - tree - forest");
    let z = Tree::new(4) / h;
    ensure_eq!(z.node_count(), 3 * (n + m - 2) + 2, "{what}: tree / forest");
}

pub fn run(ctx: &mut Ctx, op: What) {
    let case = ctx.case as usize;
    let kind = [1, 4, 6, 8, 0, 7, 9, 2, 1, 3][case % 10];
    let piled = case / 10 % 2 == 1;
    let n = size(&mut ctx.c, ctx.small);
    let m = if ctx.c.coin() { size(&mut ctx.c, ctx.small) } else { ctx.c.range(1, 9) };
    let s = Shape::make(kind, n, &mut ctx.c);
    let u = Shape::make(*ctx.c.pick(&[1, 6, 4, 8, 9]), m, &mut ctx.c);
    let what = format!("{} of {n} nodes, {} ({} of {m})", s.name, if piled { "contiguous" } else { "scattered" }, u.name);
    op_label(ctx, &what);
    ctx.sig(op as u64);
    let suite = ctx.suite;
    let mut c = Choice::seeded(&[ctx.c.raw()]);
    let small = ctx.small;
    let h = std::thread::Builder::new().stack_size(if cfg!(miri) { 1 << 22 } else { STACK }).spawn(move || {
        crate::ctx::set_suite(suite);
        match op {
            Edits => edits(&s, &u, piled, &mut c, &what),
            Streams => streams(&s, piled, &what),
            Copies => copies(&s, piled, &what),
            Tours => tours(&s, piled, &what),
            Jumps => jumps(&s, piled, &mut c, &what),
            Iters => iters(&s, piled, &mut c, &what),
            Handles => { let k = if small { 9 } else { m.max(n) }; handles(if n > 5000 { &u } else { &s }, piled, k, &mut c, &what) }
            Compare => compare(&s, piled, &mut c, &what),
            Text => text(&s, piled, &what),
            Place => place(&s, &what),
            Notation => notation(&s, &u, piled, &what),
        }
    }).unwrap();
    if h.join().is_err() { crate::fail!("the thread died") }
    ctx.count("nodes", n as u64);
    ctx.max("max_nodes", n as u64);
    ctx.done(n > 250);
}
