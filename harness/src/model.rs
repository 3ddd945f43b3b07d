//! The oracle: an ideal ordered forest. Children are plain vectors; there are no links to get wrong.

use crate::ctx::Ctx;
use crate::payload::Pay;
use crate::rng::Choice;
use crate::{ensure, ensure_eq, fail};
use trees::bfs::{BfsForest, BfsTree, Visit};
use trees::{Forest, Node, Size, Tree};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Par { None, Node(usize), Forest(usize) }

#[derive(Clone, Debug)]
pub struct MNode { pub val: i64, pub uid: u64, pub up: Par, pub kids: Vec<usize> }

#[derive(Default, Clone)]
pub struct Model { pub n: Vec<MNode>, pub f: Vec<Vec<usize>> }

/// A shape with values.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Spec { pub val: i64, pub kids: Vec<Spec> }

impl Spec {
    pub fn size(&self) -> usize { 1 + self.kids.iter().map(|k| k.size()).sum::<usize>() }
    pub fn text(&self) -> String {
        let mut s = self.val.to_string();
        if !self.kids.is_empty() {
            s.push_str("( ");
            for k in &self.kids { s.push_str(&k.text()); s.push(' '); }
            s.push(')');
        }
        s
    }
    pub fn shape(&self) -> String { let mut s = String::from("("); for k in &self.kids { s.push_str(&k.shape()); } s.push(')'); s }
    pub fn height(&self) -> usize { 1 + self.kids.iter().map(|k| k.height()).max().unwrap_or(0) }
    pub fn relabel(&mut self, f: &mut impl FnMut() -> i64) { self.val = f(); for k in &mut self.kids { k.relabel(f); } }
    /// Spec from a parent vector in which parents come first.
    pub fn from_parents(par: &[usize], vals: &[i64]) -> Spec {
        let mut kids: Vec<Vec<usize>> = vec![vec![]; par.len()];
        for i in 1..par.len() { kids[par[i]].push(i); }
        fn go(i: usize, kids: &[Vec<usize>], vals: &[i64]) -> Spec { Spec { val: vals[i], kids: kids[i].iter().map(|k| go(*k, kids, vals)).collect() } }
        go(0, &kids, vals)
    }
}

/// A random shape of 1..=max nodes from several families (uniform attachment, chains, stars, combs, deep-left, deep-right).
pub fn gen_spec(c: &mut Choice, max: usize, val: &mut impl FnMut(&mut Choice) -> i64) -> Spec {
    let n = c.range(1, max.max(1));
    gen_spec_n(c, n, val)
}

pub fn gen_spec_n(c: &mut Choice, n: usize, val: &mut impl FnMut(&mut Choice) -> i64) -> Spec {
    let kind = c.below(9);
    let wide = c.range(4, 12);
    let mut par = vec![0usize; n];
    for i in 1..n {
        par[i] = match kind {
            0 | 1 => c.below(i),                                  // uniform attachment
            2 => i - 1,                                           // chain
            3 => 0,                                               // star
            4 => if i % 2 == 1 { i - 1 } else { i - 2 },              // comb
            5 => i - 1 - c.below(i.min(3)),                       // deep
            6 => (i - 1) / c.range(2, 3),                         // bushy
            7 => (i - 1) / wide,                                  // wide at every level
            _ => c.below(1 + (i - 1) / wide),                     // few parents
        };
    }
    // attach order of the chosen parent vector is already left to right; shuffle sibling order a little by relabelling
    let vals: Vec<i64> = (0..n).map(|_| val(c)).collect();
    Spec::from_parents(&par, &vals)
}

/// Every ordered tree shape with exactly n nodes.
pub fn all_shapes(n: usize) -> Vec<Spec> {
    fn forests(n: usize) -> Vec<Vec<Spec>> {
        if n == 0 { return vec![vec![]]; }
        let mut out = vec![];
        for first in 1..=n {
            for t in trees(first) { for rest in forests(n - first) {
                let mut v = vec![t.clone()]; v.extend(rest); out.push(v);
            } }
        }
        out
    }
    fn trees(n: usize) -> Vec<Spec> { forests(n - 1).into_iter().map(|kids| Spec { val: 0, kids }).collect() }
    trees(n)
}

impl Model {
    pub fn node(&mut self, val: i64, uid: u64) -> usize { self.n.push(MNode { val, uid, up: Par::None, kids: vec![] }); self.n.len() - 1 }
    pub fn forest(&mut self) -> usize { self.f.push(vec![]); self.f.len() - 1 }
    pub fn kids(&self, p: Par) -> &Vec<usize> { match p { Par::Node(i) => &self.n[i].kids, Par::Forest(i) => &self.f[i], Par::None => panic!("no parent") } }
    pub fn kids_mut(&mut self, p: Par) -> &mut Vec<usize> { match p { Par::Node(i) => &mut self.n[i].kids, Par::Forest(i) => &mut self.f[i], Par::None => panic!("no parent") } }
    pub fn attach(&mut self, p: Par, pos: usize, id: usize) { debug_assert_eq!(self.n[id].up, Par::None); self.n[id].up = p; self.kids_mut(p).insert(pos, id); }
    pub fn index_in_parent(&self, id: usize) -> usize { self.kids(self.n[id].up).iter().position(|k| *k == id).unwrap() }
    pub fn remove(&mut self, id: usize) { let p = self.n[id].up; let i = self.index_in_parent(id); self.kids_mut(p).remove(i); self.n[id].up = Par::None; }
    /// Moves all of `from`'s trees to the front/back of `to`.
    pub fn splice(&mut self, to: Par, from: usize, front: bool) {
        let moved = std::mem::take(&mut self.f[from]);
        for &k in &moved { self.n[k].up = to; }
        let v = self.kids_mut(to);
        let at = if front { 0 } else { v.len() };
        v.splice(at..at, moved);
    }
    pub fn preorder(&self, roots: &[usize]) -> Vec<usize> {
        let mut out = vec![];
        let mut st: Vec<usize> = roots.iter().rev().copied().collect();
        while let Some(i) = st.pop() { out.push(i); st.extend(self.n[i].kids.iter().rev()); }
        out
    }
    pub fn level_order(&self, roots: &[usize]) -> Vec<usize> {
        let mut q: std::collections::VecDeque<usize> = roots.iter().copied().collect();
        let mut out = vec![];
        while let Some(i) = q.pop_front() { out.push(i); q.extend(self.n[i].kids.iter()); }
        out
    }
    pub fn size(&self, id: usize) -> usize { self.preorder(&[id]).len() }
    pub fn height(&self, id: usize) -> usize { 1 + self.n[id].kids.iter().map(|k| self.height(*k)).max().unwrap_or(0) }
    pub fn text(&self, id: usize) -> String { self.spec(id).text() }
    pub fn spec(&self, id: usize) -> Spec { Spec { val: self.n[id].val, kids: self.n[id].kids.iter().map(|k| self.spec(*k)).collect() } }
    pub fn forest_text(&self, kids: &[usize]) -> String {
        if kids.is_empty() { return "()".into(); }
        let mut s = String::from("( ");
        for k in kids { s.push_str(&self.text(*k)); s.push(' '); }
        s.push(')');
        s
    }
    pub fn root_of(&self, mut id: usize) -> usize { while let Par::Node(p) = self.n[id].up { id = p; } id }
    /// Indices from the root of the tree (or from the forest) down to `id`.
    pub fn path(&self, mut id: usize) -> Vec<usize> {
        let mut out = vec![];
        loop {
            match self.n[id].up {
                Par::None => break,
                Par::Node(p) => { out.push(self.index_in_parent(id)); id = p; }
                Par::Forest(_) => { out.push(self.index_in_parent(id)); break; }
            }
        }
        out.reverse();
        out
    }
    pub fn depth(&self, id: usize) -> usize { self.path(id).len() }
    /// Copies a subtree (values; no uids yet).
    pub fn copy(&mut self, id: usize) -> usize {
        let n = self.node(self.n[id].val, 0);
        for k in self.n[id].kids.clone() { let c = self.copy(k); self.n[c].up = Par::Node(n); self.n[n].kids.push(c); }
        n
    }
    pub fn import(&mut self, s: &Spec) -> usize {
        let n = self.node(s.val, 0);
        for k in &s.kids { let c = self.import(k); self.n[c].up = Par::Node(n); self.n[n].kids.push(c); }
        n
    }
}

// ---- building real trees ---------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style { Back, Front, PiledBfs, PiledRebuild, Mixed, Sibs, Tuple }
pub const STYLES: [Style; 7] = [Style::Back, Style::Front, Style::PiledBfs, Style::PiledRebuild, Style::Mixed, Style::Sibs, Style::Tuple];

/// Shapes available as tuples everywhere (the tuple harness covers the notation itself).
pub const TUPLE_SHAPES: [&str; 10] = ["()", "(())", "(()())", "((()))", "(((()))())", "((()())(()()))", "(()(()(()))())", "((((()))))", "((())(())(()))", "(((())())((())()))"];
pub fn parse_shape(s: &str) -> Spec {
    let mut st: Vec<Spec> = vec![];
    for c in s.chars() {
        if c == '(' { st.push(Spec::default()); } else {
            let t = st.pop().unwrap();
            match st.last_mut() { Some(p) => p.kids.push(t), None => return t }
        }
    }
    panic!("bad shape")
}
fn tuple_tree<P: Pay>(shape: &str, items: Vec<P>) -> Result<Tree<P>, Vec<P>> {
    if !TUPLE_SHAPES.contains(&shape) { return Err(items); }
    let mut it = items.into_iter();
    let mut n = || it.next().unwrap();
    Ok(match shape {
        "()" => Tree::<P>::from_tuple((n(),)),
        "(())" => Tree::<P>::from_tuple((n(), n())),
        "(()())" => Tree::<P>::from_tuple((n(), n(), (n(),))),
        "((()))" => Tree::<P>::from_tuple((n(), (n(), n()))),
        "(((()))())" => Tree::<P>::from_tuple((n(), (n(), (n(), n())), n())),
        "((()())(()()))" => Tree::<P>::from_tuple((n(), (n(), n(), n()), (n(), n(), n()))),
        "(()(()(()))())" => Tree::<P>::from_tuple((n(), n(), (n(), n(), (n(), n())), n())),
        "((((()))))" => Tree::<P>::from_tuple((n(), (n(), (n(), (n(), n()))))),
        "((())(())(()))" => Tree::<P>::from_tuple((n(), (n(), n()), (n(), n()), (n(), n()))),
        "(((())())((())()))" => Tree::<P>::from_tuple((n(), (n(), (n(), n()), n()), (n(), (n(), n()), n()))),
        _ => unreachable!(),
    })
}
fn tuple_forest<P: Pay>(shape: &str, items: Vec<P>) -> Result<Forest<P>, Vec<P>> {
    // the shape of the forest's would-be parent, whose own item is absent
    if !TUPLE_SHAPES.contains(&shape) { return Err(items); }
    let mut it = items.into_iter();
    let mut n = || it.next().unwrap();
    Ok(match shape {
        "()" => Forest::<P>::from_tuple(()),
        "(())" => Forest::<P>::from_tuple((n(),)),
        "(()())" => Forest::<P>::from_tuple((n(), (n(),))),
        "((()))" => Forest::<P>::from_tuple(((n(), n()),)),
        "(((()))())" => Forest::<P>::from_tuple(((n(), (n(), n())), n())),
        "((()())(()()))" => Forest::<P>::from_tuple(((n(), n(), n()), (n(), n(), n()))),
        "(()(()(()))())" => Forest::<P>::from_tuple((n(), (n(), n(), (n(), n())), n())),
        "((((()))))" => Forest::<P>::from_tuple(((n(), (n(), (n(), n()))),)),
        "((())(())(()))" => Forest::<P>::from_tuple(((n(), n()), (n(), n()), (n(), n()))),
        "(((())())((())()))" => Forest::<P>::from_tuple(((n(), (n(), n()), n()), (n(), (n(), n()), n()))),
        _ => unreachable!(),
    })
}

/// Items of the nodes `ids`, created now, with their uids noted in the model.
pub fn mk_items<P: Pay>(m: &mut Model, ids: &[usize]) -> Items<P> {
    let mut v = Items { of: std::collections::HashMap::new() };
    for &i in ids { let p = P::mk(m.n[i].val); m.n[i].uid = p.uid(); v.of.insert(i, p); }
    v
}
pub struct Items<P> { of: std::collections::HashMap<usize, P> }
impl<P> Items<P> { pub fn take(&mut self, id: usize) -> P { self.of.remove(&id).unwrap() } }

pub fn build<P: Pay>(m: &Model, root: usize, items: &mut Items<P>, style: Style, sub: &mut Choice) -> Tree<P> {
    match style {
        Style::Back => {
            let mut t = Tree::new(items.take(root));
            for &k in &m.n[root].kids { let c = build(m, k, items, style, sub); t.push_back(c); }
            t
        }
        Style::Front => {
            let mut t = Tree::new(items.take(root));
            for &k in m.n[root].kids.iter().rev() { let c = build(m, k, items, style, sub); t.push_front(c); }
            t
        }
        Style::Sibs => {
            let mut t = Tree::new(items.take(root));
            let kids = &m.n[root].kids;
            if !kids.is_empty() {
                let mid = sub.below(kids.len());
                t.push_back(build(m, kids[mid], items, style, sub));
                for &k in &kids[..mid] { let c = build(m, k, items, style, sub); let at = t.degree() - 1; t.iter_mut().nth(at).unwrap().insert_prev_sib(c); }
                for &k in kids[mid + 1..].iter().rev() { let c = build(m, k, items, style, sub); t.iter_mut().nth(mid).unwrap().insert_next_sib(c); }
            }
            t
        }
        Style::PiledBfs => {
            let ids = m.level_order(&[root]);
            let size = Size { degree: 1, descendants: ids.len() - 1 };
            let v: Vec<Visit<P>> = ids.iter().map(|&i| Visit { data: items.take(i), size: Size { degree: m.n[i].kids.len(), descendants: m.size(i) - 1 } }).collect();
            Tree::from(BfsTree { iter: v.into_iter(), size })
        }
        Style::Tuple => {
            let shape = m.spec(root).shape();
            if TUPLE_SHAPES.contains(&&shape[..]) {
                let v = m.preorder(&[root]).iter().map(|&i| items.take(i)).collect();
                tuple_tree(&shape, v).ok().unwrap()
            } else { build(m, root, items, Style::PiledBfs, sub) }
        }
        Style::PiledRebuild => { let t = build(m, root, items, Style::Back, sub); Tree::from(t.into_bfs()) }
        Style::Mixed => {
            // this node and a prefix of each subtree come from one piled tree, the rest is hung on piece by piece
            let kids = m.n[root].kids.clone();
            let mut t = if sub.coin() { Tree::new(items.take(root)) } else {
                let v = vec![Visit { data: items.take(root), size: Size { degree: 0, descendants: 0 } }];
                Tree::from(BfsTree { iter: v.into_iter(), size: Size { degree: 1, descendants: 0 } })
            };
            let mut i = 0;
            while i < kids.len() {
                let st = *sub.pick(&[Style::Back, Style::PiledBfs, Style::Mixed, Style::PiledRebuild]);
                if sub.chance(1, 3) {
                    let n = sub.range(1, kids.len() - i);
                    let f = build_forest(m, &kids[i..i + n], items, st, sub);
                    t.append(f);
                    i += n;
                } else {
                    let c = build(m, kids[i], items, st, sub);
                    t.push_back(c);
                    i += 1;
                }
            }
            t
        }
    }
}

pub fn build_forest<P: Pay>(m: &Model, kids: &[usize], items: &mut Items<P>, style: Style, sub: &mut Choice) -> Forest<P> {
    match style {
        Style::PiledBfs => {
            let ids = m.level_order(kids);
            let size = Size { degree: kids.len(), descendants: ids.len() };
            let v: Vec<Visit<P>> = ids.iter().map(|&i| Visit { data: items.take(i), size: Size { degree: m.n[i].kids.len(), descendants: m.size(i) - 1 } }).collect();
            Forest::from(BfsForest { iter: v.into_iter(), size })
        }
        Style::Tuple => {
            let shape = Spec { val: 0, kids: kids.iter().map(|k| m.spec(*k)).collect() }.shape();
            if TUPLE_SHAPES.contains(&&shape[..]) {
                let v = m.preorder(kids).iter().map(|&i| items.take(i)).collect();
                tuple_forest(&shape, v).ok().unwrap()
            } else { build_forest(m, kids, items, Style::PiledBfs, sub) }
        }
        Style::PiledRebuild => { let f = build_forest(m, kids, items, Style::Back, sub); Forest::from(f.into_bfs()) }
        Style::Front => { let mut f = Forest::new(); for &k in kids.iter().rev() { f.push_front(build(m, k, items, style, sub)); } f }
        _ => { let mut f = Forest::new(); for &k in kids { f.push_back(build(m, k, items, style, sub)); } f }
    }
}

pub fn real_tree<P: Pay>(m: &mut Model, spec: &Spec, style: Style, sub: &mut Choice) -> (Tree<P>, usize) {
    let root = m.import(spec);
    let ids = m.preorder(&[root]);
    let mut items = mk_items::<P>(m, &ids);
    let t = build(m, root, &mut items, style, sub);
    (t, root)
}

pub fn real_forest<P: Pay>(m: &mut Model, specs: &[Spec], style: Style, sub: &mut Choice) -> (Forest<P>, usize) {
    let f = m.forest();
    for s in specs { let r = m.import(s); m.n[r].up = Par::Forest(f); m.f[f].push(r); }
    let kids = m.f[f].clone();
    let ids = m.preorder(&kids);
    let mut items = mk_items::<P>(m, &ids);
    let t = build_forest(m, &kids, &mut items, style, sub);
    (t, f)
}

// ---- observers -------------------------------------------------------------------------------------------------

/// Data, shape and order of `node` are those of model node `id`.
pub fn same_struct<P: Pay, D: std::fmt::Display + ?Sized>(node: &Node<P>, m: &Model, id: usize, what: &D) {
    let mut st: Vec<(&Node<P>, usize)> = vec![(node, id)];
    while let Some((n, i)) = st.pop() {
        same_item(n.data(), m, i, what);
        let kids = &m.n[i].kids;
        let mut k = 0;
        for c in n.iter() {
            ensure!(k < kids.len(), "{what}: node {} has more than its {} children (model {})", m.n[i].val, kids.len(), m.text(id));
            st.push((c, kids[k]));
            k += 1;
        }
        ensure!(k == kids.len(), "{what}: node {} yields {} children, expected {} (model {})", m.n[i].val, k, kids.len(), m.text(id));
    }
}

/// A text made only when it is needed.
pub struct Lazy<F: Fn() -> String>(pub F);
impl<F: Fn() -> String> std::fmt::Display for Lazy<F> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&(self.0)()) } }
pub fn same_item<P: Pay, D: std::fmt::Display + ?Sized>(p: &P, m: &Model, id: usize, what: &D) {
    if P::VALUES { ensure_eq!(p.v(), m.n[id].val as i64, "{what}: value of a node"); } else { p.v(); }
    let u = p.uid();
    if u != 0 && m.n[id].uid != 0 { ensure_eq!(u, m.n[id].uid, "{what}: identity of the item in node {}", m.n[id].val); }
}

pub fn same_struct_forest<P: Pay, D: std::fmt::Display + ?Sized>(f: &Forest<P>, m: &Model, kids: &[usize], what: &D) {
    let mut k = 0;
    for c in f.iter() {
        ensure!(k < kids.len(), "{what}: forest has more than its {} trees", kids.len());
        same_struct(c, m, kids[k], what);
        k += 1;
    }
    ensure!(k == kids.len(), "{what}: forest yields {} trees, expected {}", k, kids.len());
}

fn same_node<P>(a: &Node<P>, b: &Node<P>) -> bool { std::ptr::eq(a, b) }

/// Counts, ends and parent links at every node of the subtree agree with what iteration shows.
/// Judged against the real structure (not the model), so that a wrong structure alone is not reported here.
pub fn counts_ok<P: Pay, D: std::fmt::Display + ?Sized>(node: &Node<P>, parent: Option<&Node<P>>, what: &D, limit: usize) -> usize {
    match (node.parent(), parent) {
        (None, None) => (),
        (Some(a), Some(b)) => ensure!(same_node(a, b), "{what}: parent() of {} is another node ({}) than the one it hangs from ({})", node.data(), a.data(), b.data()),
        (Some(a), None) => fail!("{what}: root {} has a parent ({})", node.data(), a.data()),
        (None, Some(b)) => fail!("{what}: child {} of {} has no parent", node.data(), b.data()),
    }
    let mut n = 1;
    let mut k = 0;
    let mut last: Option<&Node<P>> = None;
    for c in node.iter() {
        ensure!(k <= limit && n <= limit, "{what}: endless structure");
        if k == 0 { match node.front() { Some(f) => ensure!(same_node(f, c), "{what}: front() of {} is not its first child", node.data()), None => fail!("{what}: front() of {} is None but it has children", node.data()) } }
        n += counts_ok(c, Some(node), what, limit);
        last = Some(c);
        k += 1;
    }
    match (last, node.back()) {
        (None, None) => (),
        (Some(a), Some(b)) => ensure!(same_node(a, b), "{what}: back() of {} is not its last child", node.data()),
        (a, _) => fail!("{what}: back() of {} is {} although it has {} children", node.data(), if a.is_some() { "None" } else { "Some" }, k),
    }
    if k == 0 { ensure!(node.front().is_none(), "{what}: front() of childless {} is Some", node.data()); }
    ensure_eq!(node.degree(), k, "{what}: degree() of {}", node.data());
    ensure_eq!(node.has_no_child(), k == 0, "{what}: has_no_child() of {}", node.data());
    ensure_eq!(node.node_count(), n, "{what}: node_count() of {}", node.data());
    n
}

pub fn counts_ok_forest<P: Pay, D: std::fmt::Display + ?Sized>(f: &Forest<P>, what: &D, limit: usize) {
    let (mut n, mut k) = (0, 0);
    let mut last: Option<&Node<P>> = None;
    for c in f.iter() {
        ensure!(k <= limit, "{what}: endless forest");
        if k == 0 { ensure!(f.front().map_or(false, |x| same_node(x, c)), "{what}: front() of the forest is not its first tree"); }
        n += counts_ok(c, None, what, limit);
        last = Some(c);
        k += 1;
    }
    match (last, f.back()) {
        (None, None) => ensure!(f.front().is_none(), "{what}: front() of an empty forest"),
        (Some(a), Some(b)) => ensure!(same_node(a, b), "{what}: back() of the forest is not its last tree"),
        _ => fail!("{what}: back() of the forest with {k} trees"),
    }
    ensure_eq!(f.degree(), k, "{what}: degree() of the forest");
    ensure_eq!(f.has_no_child(), k == 0, "{what}: has_no_child() of the forest");
    ensure_eq!(f.node_count(), n, "{what}: node_count() of the forest");
}

/// The counts also agree with the model (used where the structure was already compared).
pub fn counts_model<P: Pay, D: std::fmt::Display + ?Sized>(node: &Node<P>, m: &Model, id: usize, what: &D) {
    counts_ok(node, None, what, m.n.len() + 2);
    ensure_eq!(node.node_count(), m.size(id), "{what}: node_count() of the root against the model");
}

pub fn op_label(ctx: &mut Ctx, s: &str) { ctx.sig_str(s); ctx.op(|| s.to_string()); }
