//! Deep and wide trees on a small stack (C23).

use crate::ctx::Ctx;
use crate::model::op_label;
use crate::rng::{mix, Choice};
use crate::{ensure, ensure_eq};
use trees::bfs::{BfsForest, BfsTree, Visit as BfsVisit};
use trees::walk::Visit;
use trees::{Forest, ForestWalk, Node, RcNode, Size, Tree, TreeWalk};

pub const STACK: usize = 64 << 10;

/// Nodes in level order, each with its parent.
#[derive(Clone)]
pub struct Shape { pub name: &'static str, pub par: Vec<usize> }
impl Shape {
    pub fn make(kind: usize, n: usize, c: &mut Choice) -> Shape {
        let (name, par): (_, Vec<usize>) = match kind {
            0 => ("chain", (0..n).map(|i| i.saturating_sub(1)).collect()),
            1 => ("star", vec![0; n]),
            // each inner node has a leaf before / after the next inner node
            2 => ("comb, leaves first", (0..n).map(|i| if i == 0 { 0 } else { (i - 1) / 2 * 2 }).collect()),
            3 => ("comb, leaves last", (0..n).map(|i| if i < 3 { 0 } else { (i - 1) / 2 * 2 - 1 }).collect()),
            4 => ("broom", (0..n).map(|i| if i < n / 2 { i.saturating_sub(1) } else { (n / 2).saturating_sub(1) }).collect()),
            5 => ("two chains", (0..n).map(|i| i.saturating_sub(2)).collect()),
            6 => ("binary", (0..n).map(|i| i.saturating_sub(1) / 2).collect()),
            8 => { let w = (n as f64).sqrt() as usize + 1; ("fans", (0..n).map(|i| i.saturating_sub(1) / w).collect()) }
            9 => { // any number of children everywhere
                let mut par = vec![0usize; n];
                let (mut p, mut i) = (0, 1);
                while i < n {
                    let d = *c.pick(&[0, 0, 1, 2, 3, 7, 8, 20, 260]);
                    let d = if p + 1 == i { d.max(1) } else { d }; // the last one that may have children
                    for _ in 0..d.min(n - i) { par[i] = p; i += 1; }
                    p += 1;
                }
                ("uneven", par)
            }
            _ => { // deep, with random twigs
                let mut par = vec![0usize; n];
                let mut lo = 0; // first node of the level above
                let mut i = 1;
                while i < n {
                    let hi = i;
                    let k = c.range(1, 3).min(n - i);
                    let mut ps: Vec<usize> = (0..k).map(|_| lo + c.below(hi - lo)).collect();
                    ps.sort();
                    for p in ps { par[i] = p; i += 1; }
                    lo = hi;
                }
                ("twigs", par)
            }
        };
        Shape { name, par }
    }
    pub fn n(&self) -> usize { self.par.len() }
    pub fn sizes(&self) -> Vec<Size> {
        let mut s = vec![Size { degree: 0, descendants: 0 }; self.n()];
        for i in (1..self.n()).rev() { let d = s[i].descendants + 1; s[self.par[i]].degree += 1; s[self.par[i]].descendants += d; }
        s
    }
    pub fn kids(&self) -> Vec<(usize, usize)> { // children are consecutive: first, number
        let mut k = vec![(0, 0); self.n()];
        for i in 1..self.n() { let e = &mut k[self.par[i]]; if e.1 == 0 { e.0 = i; } e.1 += 1; }
        k
    }
    pub fn scattered(&self) -> Tree<usize> {
        let mut t: Vec<Option<Tree<usize>>> = (0..self.n()).map(|i| Some(Tree::new(i))).collect();
        for i in (1..self.n()).rev() { let x = t[i].take().unwrap(); t[self.par[i]].as_mut().unwrap().push_front(x); }
        t[0].take().unwrap()
    }
    pub fn piled(&self) -> Tree<usize> {
        let sizes = self.sizes();
        let size = Size { degree: 1, descendants: self.n() - 1 };
        Tree::from(BfsTree { iter: (0..self.n()).map(|i| BfsVisit { data: i, size: sizes[i] }).collect::<Vec<_>>().into_iter(), size })
    }
    pub fn check(&self, what: &str, root: &Node<usize>, base: usize) {
        let sizes = self.sizes();
        let mut k = 0;
        for v in root.bfs().iter {
            ensure!(k < self.n(), "{what}: more nodes than the {}", self.n());
            ensure_eq!(*v.data, base + k, "{what}: node {k} in level order");
            ensure!(v.size.degree == sizes[k].degree && v.size.descendants == sizes[k].descendants, "{what}: size of node {k}");
            k += 1;
        }
        ensure_eq!(k, self.n(), "{what}: nodes");
    }
    /// Preorder visits: (node, 0 begin | 1 leaf | 2 end)
    pub fn tour(&self) -> Vec<(usize, u8)> {
        let kids = self.kids();
        let mut out = vec![];
        let mut st = vec![(0usize, 0usize)];
        while let Some((n, k)) = st.pop() {
            let (first, count) = kids[n];
            if count == 0 { out.push((n, 1)); continue; }
            if k == 0 { out.push((n, 0)); }
            if k == count { out.push((n, 2)); } else { st.push((n, k + 1)); st.push((first + k, 0)); }
        }
        out
    }
}
pub fn see(v: Option<Visit<'_, usize>>) -> Option<(usize, u8)> { v.map(|v| match v { Visit::Begin(n) => (*n.data(), 0), Visit::Leaf(n) => (*n.data(), 1), Visit::End(n) => (*n.data(), 2) }) }
/// Takes a tree apart without deep drops.
pub fn dismantle(t: Tree<usize>) -> usize { t.into_bfs().iter.map(|v| { let _: usize = v.data; 1 }).sum() }
pub fn dismantle_f(f: Forest<usize>) -> usize { f.into_bfs().iter.map(|_| 1usize).sum() }

const WORK: [&str; 9] = ["build", "walk", "streams", "clone", "rebuild", "forest", "edits at the bottom", "shared handles", "iteration down"];

fn work(s: &Shape, piled: bool, op: usize) -> u64 {
    let n = s.n();
    let t = if piled { s.piled() } else { s.scattered() };
    let what = format!("{} of {n} nodes, {}, {}", s.name, if piled { "contiguous" } else { "scattered" }, WORK[op]);
    let mut events = n as u64;
    match op {
        0 => { s.check(&what, t.root(), 0); ensure_eq!(t.node_count(), n, "{what}: node_count"); ensure_eq!(dismantle(t), n, "{what}: into_bfs"); }
        1 => {
            let want = s.tour();
            let mut w = TreeWalk::from(t);
            for (k, x) in want.iter().enumerate() { ensure_eq!(see(w.get()), Some(*x), "{what}: visit {k}"); w.forward(); }
            ensure!(w.get().is_none(), "{what}: tour too long");
            let t: Tree<usize> = w.into();
            let mut w = TreeWalk::from(t);
            while let Some(v) = see(w.to_child(0)) { events += 1; if v.1 == 1 { break; } }
            while w.to_parent().is_some() { events += 1; }
            w.revisit();
            let t: Tree<usize> = w.into();
            events += want.len() as u64;
            ensure_eq!(dismantle(t), n, "{what}: into_bfs");
        }
        2 => {
            let mut t = t;
            ensure_eq!(t.bfs().iter.count(), n, "{what}: bfs");
            ensure_eq!(t.bfs_children().iter.count(), n - 1, "{what}: bfs_children");
            for v in t.bfs_mut().iter { *v.data += 5; }
            ensure_eq!(t.root_mut().bfs_children_mut().iter.count(), n - 1, "{what}: bfs_children_mut");
            s.check(&what, t.root(), 5);
            let got: Vec<usize> = t.into_bfs().iter.map(|v| v.data).collect();
            ensure!(got.iter().enumerate().all(|(i, v)| *v == i + 5) && got.len() == n, "{what}: into_bfs");
            events += 4 * n as u64;
        }
        3 => {
            let a = t.clone();
            let b = t.root().deep_clone();
            let c = t.root().deep_clone_forest();
            s.check(&what, a.root(), 0);
            s.check(&what, b.root(), 0);
            ensure_eq!(c.node_count(), n - 1, "{what}: deep_clone_forest");
            let d = c.clone();
            ensure_eq!(dismantle_f(c) + dismantle_f(d) + dismantle(a) + dismantle(b) + dismantle(t), 2 * (n - 1) + 3 * n, "{what}: nodes");
            events += 4 * n as u64;
        }
        4 => {
            let t = Tree::from(t.into_bfs());
            s.check(&what, t.root(), 0);
            let t = Tree::from(t.into_bfs().map(|x| x + 3));
            s.check(&what, t.root(), 3);
            let b = t.into_bfs();
            let size = b.size;
            let t = Tree::from(BfsTree { iter: b.iter, size });
            s.check(&what, t.root(), 3);
            ensure_eq!(dismantle(t), n, "{what}: into_bfs");
            events += 3 * n as u64;
        }
        5 => {
            let mut t = t;
            let f = t.abandon();
            ensure_eq!(f.node_count(), n - 1, "{what}: node_count");
            let mut w = ForestWalk::from(f);
            let want = s.tour();
            if n > 1 { for x in &want[1..want.len() - 1] { ensure_eq!(see(w.get()), Some(*x), "{what}: visit"); w.forward(); } }
            let f: Forest<usize> = w.into();
            ensure_eq!(f.bfs().iter.count(), n - 1, "{what}: bfs");
            let f = Forest::from(f.into_bfs());
            let b = f.into_bfs();
            let mut f = Forest::from(BfsForest { size: b.size, iter: b.iter });
            for v in f.bfs_mut().iter { *v.data += 0; }
            let mut u = Tree::new(0);
            u.append(f);
            s.check(&what, u.root(), 0);
            let mut x = t;
            let g = u.abandon();
            x.prepend(g);
            s.check(&what, x.root(), 0);
            let mut count = 1;
            let f = x.abandon();
            for k in f { count += dismantle(k); }
            ensure_eq!(count, n, "{what}: nodes");
            events += 8 * n as u64;
        }
        6 => {
            let mut t = t;
            let depth;
            { // go down by iter_mut, edit at the bottom
                let mut d = 0;
                let mut at: *mut Node<usize> = unsafe { t.root_mut().get_unchecked_mut() };
                loop {
                    let n = unsafe { &mut *at };
                    let next = if d % 2 == 0 { n.front_mut() } else { n.back_mut() };
                    match next { Some(p) => { at = unsafe { p.get_unchecked_mut() }; d += 1; } None => break }
                }
                depth = d;
                let b = unsafe { &mut *at };
                for i in 0..20 { b.push_back(Tree::new(n + i)); b.push_front(Tree::new(n + i)); }
                for _ in 0..10 { let _ = b.pop_front(); let _ = b.pop_back(); }
                let mut f = Forest::new();
                for i in 0..5 { f.push_back(Tree::new(i)); }
                b.append(f);
                let mut f = Forest::new();
                for i in 0..5 { f.push_back(Tree::new(i)); }
                b.prepend(f);
                if d > 0 { b.insert_prev_sib(Tree::new(1)); b.insert_next_sib(Tree::new(2)); }
            }
            let extra = 30 + if depth > 0 { 2 } else { 0 };
            ensure_eq!(t.node_count(), n + extra, "{what}: node_count after edits");
            // cut the tree in the middle
            let mut parts = vec![];
            if depth >= 2 {
                let mut at: *mut Node<usize> = unsafe { t.root_mut().get_unchecked_mut() };
                for _ in 0..depth / 2 { at = unsafe { (*at).front_mut().unwrap().get_unchecked_mut() }; if unsafe { (*at).has_no_child() } { break; } }
                parts.push(unsafe { (*at).detach() });
                ensure_eq!(parts[0].node_count() + t.node_count(), n + extra, "{what}: node_count after detach");
                let p = parts.pop().unwrap();
                t.push_back(p);
                ensure_eq!(t.node_count(), n + extra, "{what}: node_count after pushing it again");
            }
            ensure_eq!(dismantle(t), n + extra, "{what}: into_bfs");
            events += 60 + 2 * depth as u64;
        }
        7 => {
            let r = RcNode::from(t);
            ensure_eq!(r.node_count(), n, "{what}: node_count");
            let mut h = r.clone();
            let mut depth = 0;
            while let Some(x) = if depth % 2 == 0 { h.back() } else { h.front() } { h = x; depth += 1; }
            h.push_back(Tree::new(n));
            h.push_front(Tree::new(n));
            let _ = h.pop_front();
            if depth > 0 { h.insert_next_sib(Tree::new(7)); h.insert_prev_sib(Tree::new(8)); }
            let total = n + 1 + if depth > 0 { 2 } else { 0 };
            ensure_eq!(r.node_count(), total, "{what}: node_count after edits");
            let w = h.downgrade();
            let mut up = 0;
            let mut g = w.upgrade().unwrap();
            while let Some(p) = g.parent() { g = p; up += 1; }
            ensure_eq!(up, depth, "{what}: depth seen from below");
            drop(g);
            let c = r.deep_clone();
            ensure_eq!(c.bfs().iter.count(), total, "{what}: deep_clone");
            ensure_eq!(dismantle(c), total, "{what}: deep_clone");
            let k = r.iter_rc().count();
            ensure_eq!(k, r.degree(), "{what}: iter_rc");
            // everything goes without a deep release: from the top, the children being held
            if n > 1 {
                let mut all = vec![r];
                let mut at = 0;
                while at < all.len() { let kids: Vec<_> = all[at].iter_rc().collect(); all.extend(kids); at += 1; }
                ensure_eq!(all.len(), total, "{what}: handles");
                drop(h);
                for x in all { ensure!(x.is_root(), "{what}: a child whose parent was released is no root"); drop(x); }
                ensure!(w.upgrade().is_none(), "{what}: released");
            }
            events += 4 * n as u64 + 2 * depth as u64;
        }
        _ => {
            let mut at = t.root();
            let mut depth = 0;
            loop { events += at.iter().count() as u64; match at.iter().last() { Some(x) => { ensure!(std::ptr::eq(x.parent().unwrap(), at), "{what}: parent"); at = x; depth += 1; } None => break } }
            ensure!(depth < n, "{what}: depth");
            let mut t = t;
            let mut at: *mut Node<usize> = unsafe { t.root_mut().get_unchecked_mut() };
            loop { let n = unsafe { &mut *at }; match n.iter_mut().next() { Some(x) => at = unsafe { x.get_unchecked_mut() }, None => break } }
            ensure_eq!(dismantle(t), n, "{what}: into_bfs");
        }
    }
    events
}

pub fn deep(ctx: &mut Ctx) {
    let n = if ctx.small { 60 } else if ctx.thorough { *ctx.c.pick(&[400_000, 1_000_000, 1_500_000]) } else { *ctx.c.pick(&[24_000, 32_000, 44_000]) };
    let case = ctx.case as usize;
    let (kind, op, piled) = (case % 8, case / 8 % WORK.len(), case / (8 * WORK.len()) % 2 == 1);
    let s = Shape::make(kind, n, &mut ctx.c);
    op_label(ctx, &format!("{} {} of {n} nodes, {}, on a stack of {} KiB", WORK[op], s.name, if piled { "contiguous" } else { "scattered" }, STACK >> 10));
    ctx.sig(mix((case * 7 + n) as u64));
    // the name of the suite travels with the thread
    let suite = ctx.suite;
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || { crate::ctx::set_suite(suite); work(&s, piled, op) }).unwrap();
    match h.join() { Ok(e) => { ctx.count("events", e); ctx.count("nodes", n as u64); } Err(_) => crate::fail!("the thread died") }
    ctx.done(true);
}
