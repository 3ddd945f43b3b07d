//! Worlds of owned trees and forests under random or exhaustively enumerated edits (C01, C02, C03, C05).

use crate::ctx::Ctx;
use crate::model::*;
use crate::payload::{self, Pay};
use crate::rng::Choice;
use crate::{ensure, ensure_eq, fail};
use std::pin::Pin;
use trees::{Forest, ForestWalk, Node, RcNode, Tree, TreeWalk};

pub enum Obj<P: 'static> { Tree(Tree<P>), Forest(Forest<P>) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MObj { Tree(usize), Forest(usize) }
pub struct Slot<P: 'static> { pub obj: Obj<P>, pub m: MObj }

pub const STRUCT: u32 = 1;
pub const COUNTS: u32 = 2;
pub const DROPS: u32 = 4;
pub const LOG: u32 = 8;
pub const PLACE: u32 = 64;

/// Where each node (and its data) was first seen: a node never moves while it exists (C24).
#[derive(Default)]
pub struct Places { at: std::cell::RefCell<std::collections::HashMap<usize, (usize, usize)>>, pub looked: std::cell::Cell<u64> }

impl Places {
    /// The nodes below `n`, which the model calls `id`. False: the structure is not the model's, which is for others to say.
    pub fn judge<P: Pay, D: std::fmt::Display + ?Sized>(&self, n: &Node<P>, m: &Model, id: usize, what: &D) -> bool {
        let mut at = self.at.borrow_mut();
        crate::ctx::set_kind("oracle");
        let mut st = vec![(n, id)];
        while let Some((n, id)) = st.pop() {
            let here = (n as *const Node<P> as usize, &*n.data() as *const P as usize);
            if n.data().uid() != m.n[id].uid || n.iter().take(m.n[id].kids.len() + 1).count() != m.n[id].kids.len() { crate::ctx::set_kind("foreign"); return false; }
            let known = *at.entry(id).or_insert(here);
            ensure!(known.0 == here.0, "{what}: node {:?}={} was moved in memory, from {:#x} to {:#x}", m.path(id), m.n[id].val, known.0, here.0);
            ensure!(known.1 == here.1, "{what}: the data of node {:?}={} was moved in memory, from {:#x} to {:#x}", m.path(id), m.n[id].val, known.1, here.1);
            self.looked.set(self.looked.get() + 1);
            st.extend(n.iter().zip(m.n[id].kids.iter().copied()));
        }
        crate::ctx::set_kind("foreign");
        true
    }
    pub fn forget(&self, id: usize) { self.at.borrow_mut().remove(&id); }
}

pub struct World<P: 'static> {
    pub m: Model,
    pub slots: Vec<Slot<P>>,
    pub mask: u32,
    pub max_slots: usize,
    pub max_nodes: usize,
    pub force: Option<bool>, // Some(piled?) overrides the storage of everything built
    pub next_val: i64,
    pub edits: u64,
    pub deep_edits: u64,
    pub places: Places,
}

impl<P: Pay> World<P> {
    pub fn new(mask: u32) -> Self { World { m: Model::default(), slots: vec![], mask, max_slots: 5, max_nodes: 60, force: None, next_val: 0, edits: 0, deep_edits: 0, places: Places::default() } }

    pub fn roots(&self, s: MObj) -> Vec<usize> { match s { MObj::Tree(r) => vec![r], MObj::Forest(f) => self.m.f[f].clone() } }
    pub fn nodes(&self, s: MObj) -> Vec<usize> { self.m.preorder(&self.roots(s)) }
    pub fn total(&self) -> usize { self.slots.iter().map(|s| self.nodes(s.m).len()).sum() }
    pub fn text(&self, s: MObj) -> String { match s { MObj::Tree(r) => self.m.text(r), MObj::Forest(f) => self.m.forest_text(&self.m.f[f]) } }

    fn val(&mut self, c: &mut Choice) -> i64 { gen_val::<P>(&mut self.next_val, c) }

    fn spec(&mut self, c: &mut Choice, max: usize) -> Spec {
        let mut nv = self.next_val;
        let s = if c.exhaustive() {
            let mut s = match c.below(3) {
                0 => Spec::default(),
                1 => Spec { val: 0, kids: vec![Spec::default(), Spec::default()] },
                _ => Spec { val: 0, kids: vec![Spec { val: 0, kids: vec![Spec::default()] }] },
            };
            s.relabel(&mut || gen_val::<P>(&mut nv, c));
            s
        } else if c.chance(1, 4) {
            let mut s = parse_shape(*c.pick(&TUPLE_SHAPES));
            s.relabel(&mut || gen_val::<P>(&mut nv, c));
            s
        } else { gen_spec(c, max, &mut |c| gen_val::<P>(&mut nv, c)) };
        self.next_val = nv;
        s
    }

    fn style(&self, c: &mut Choice) -> Style {
        let s = if c.exhaustive() { if c.coin() { Style::PiledBfs } else { Style::Back } } else { *c.pick(&STYLES) };
        let coin = !c.exhaustive() && c.coin();
        match self.force { None => s, Some(true) => if coin { Style::Tuple } else { Style::PiledBfs }, Some(false) => Style::Back }
    }
    fn store(&self, t: Tree<P>) -> Tree<P> { if self.force == Some(false) { scatter(t) } else { t } }
    fn store_f(&self, f: Forest<P>) -> Forest<P> { if self.force == Some(false) { scatter_forest(f) } else { f } }

    pub fn add_tree(&mut self, ctx: &mut Ctx, max: usize) {
        let simple = ctx.c.exhaustive();
        let spec = self.spec(&mut ctx.c, max);
        let style = self.style(&mut ctx.c);
        let mut sub = Choice::seeded(&[if simple { 0 } else { ctx.c.below(1 << 30) as u64 }, 7]);
        op_label(ctx, &format!("new tree #{} = {} {}", self.slots.len(), spec.text(), if self.force.is_some() { String::new() } else { format!("[{style:?}]") }));
        let (t, r) = real_tree::<P>(&mut self.m, &spec, style, &mut sub);
        self.slots.push(Slot { obj: Obj::Tree(t), m: MObj::Tree(r) });
    }

    pub fn add_forest(&mut self, ctx: &mut Ctx, max: usize) {
        let simple = ctx.c.exhaustive();
        let n = ctx.c.below(if simple { 3 } else { 5 });
        let specs: Vec<Spec> = (0..n).map(|_| if simple { Spec { val: self.val(&mut ctx.c), kids: vec![] } } else { self.spec(&mut ctx.c, max) }).collect();
        let style = self.style(&mut ctx.c);
        let mut sub = Choice::seeded(&[if simple { 0 } else { ctx.c.below(1 << 30) as u64 }, 9]);
        op_label(ctx, &format!("new forest #{} = {:?} {}", self.slots.len(), specs.iter().map(|s| s.text()).collect::<Vec<_>>(), if self.force.is_some() { String::new() } else { format!("[{style:?}]") }));
        let (f, id) = real_forest::<P>(&mut self.m, &specs, style, &mut sub);
        self.slots.push(Slot { obj: Obj::Forest(f), m: MObj::Forest(id) });
    }

    pub fn push_slot_tree(&mut self, t: Tree<P>, root: usize) { self.slots.push(Slot { obj: Obj::Tree(t), m: MObj::Tree(root) }); }
    pub fn push_slot_forest(&mut self, f: Forest<P>, id: usize) { self.slots.push(Slot { obj: Obj::Forest(f), m: MObj::Forest(id) }); }

    /// A subtree was handed out: judge it, keep it.
    fn got(&mut self, ctx: &mut Ctx, t: Tree<P>, id: usize, what: &str) {
        self.judge_tree(&t, id, what);
        if self.mask & LOG != 0 { let s = t.to_string(); ctx.observe(|| format!("{what} -> {s}")); }
        self.push_slot_tree(t, id);
    }

    fn judge_tree<D: std::fmt::Display + ?Sized>(&self, t: &Tree<P>, id: usize, what: &D) {
        if self.mask & STRUCT != 0 { same_struct(t.root(), &self.m, id, what); }
        if self.mask & COUNTS != 0 {
            self.judging(true);
            if self.mask & STRUCT != 0 { counts_model(t.root(), &self.m, id, what); } else { counts_ok(t.root(), None, what, self.m.n.len() + 2); }
            self.judging(false);
        }
    }
    /// Without STRUCT, a world that differs from the model is another property's business.
    fn judging(&self, own: bool) { if self.mask & STRUCT == 0 && self.mask & (COUNTS | DROPS | PLACE) != 0 { crate::ctx::set_kind(if own { "oracle" } else { "foreign" }); } }

    pub fn judge_slot(&self, i: usize, what: &str) {
        let s = &self.slots[i];
        let w = || format!("{what} (slot {i})");
        if self.mask & PLACE != 0 {
            match (&s.obj, s.m) {
                (Obj::Tree(t), MObj::Tree(r)) => { self.places.judge(t.root(), &self.m, r, &Lazy(w)); }
                (Obj::Forest(f), MObj::Forest(id)) => for (n, k) in f.iter().zip(&self.m.f[id]) { self.places.judge(n, &self.m, *k, &Lazy(w)); },
                _ => unreachable!(),
            }
            return;
        }
        match (&s.obj, s.m) {
            (Obj::Tree(t), MObj::Tree(r)) => self.judge_tree(t, r, &Lazy(w)),
            (Obj::Forest(f), MObj::Forest(id)) => {
                if self.mask & STRUCT != 0 { same_struct_forest(f, &self.m, &self.m.f[id], &Lazy(w)); }
                if self.mask & COUNTS != 0 {
                    self.judging(true);
                    counts_ok_forest(f, &Lazy(w), self.m.n.len() + 2);
                    if self.mask & STRUCT != 0 { ensure_eq!(f.node_count(), self.m.f[id].iter().map(|k| self.m.size(*k)).sum::<usize>(), "{}: node_count() of the forest against the model", w()); }
                    self.judging(false);
                }
            }
            _ => unreachable!(),
        }
    }

    pub fn judge_all(&self, what: &str) { for i in 0..self.slots.len() { self.judge_slot(i, what); } }

    /// Exactly the items in the world are alive.
    pub fn judge_drops(&self, what: &str) {
        if self.mask & DROPS == 0 { return; }
        let mut expect: Vec<u64> = vec![];
        if self.mask & STRUCT != 0 { for s in &self.slots { for i in self.nodes(s.m) { expect.push(self.m.n[i].uid); } } }
        else { // what the real structures hold, whether or not that is what they should hold
            let mut left = 4 * self.m.n.len() + 4;
            let mut st: Vec<&Node<P>> = vec![];
            for s in &self.slots { match &s.obj { Obj::Tree(t) => st.push(t.root()), Obj::Forest(f) => st.extend(f.iter().take(left)) } }
            while let Some(n) = st.pop() {
                ensure!(left > 0, "{what}: endless structure");
                left -= 1;
                expect.push(n.data().uid());
                st.extend(n.iter().take(left));
            }
        }
        self.judging(true);
        if P::NAME == "zst" {
            ensure_eq!(payload::ZST_LIVE.load(std::sync::atomic::Ordering::SeqCst), expect.len() as i64, "{what}: zero-sized items alive");
        } else if expect.first().map_or(P::NAME == "item" || P::NAME == "wide", |u| *u != 0) {
            let mut live: Vec<u64> = payload::live_ids().iter().map(|i| i + 1).collect();
            expect.sort(); live.sort();
            if live != expect {
                let lost: Vec<_> = expect.iter().filter(|u| !live.contains(u)).collect();
                let kept: Vec<_> = live.iter().filter(|u| !expect.contains(u)).collect();
                fail!("{what}: items dropped although reachable: {lost:?}; items alive although unreachable: {kept:?}");
            }
        }
        self.judging(false);
    }

    pub fn observe_all(&self, ctx: &mut Ctx) {
        if self.mask & LOG == 0 { return; }
        if !ctx.mute { ctx.observe(|| format!("dropped so far {:x}", payload::drop_order())); } // not between differently stored twins
        for (i, s) in self.slots.iter().enumerate() {
            let t = match &s.obj { Obj::Tree(t) => format!("{t} deg={} n={}", t.degree(), t.node_count()), Obj::Forest(f) => format!("{f} deg={} n={}", f.degree(), f.node_count()) };
            ctx.observe(|| format!("slot {i}: {t}"));
            let (nodes, stream) = match &s.obj { Obj::Tree(t) => (portrait(t.root()), level_sizes(t.bfs().iter)), Obj::Forest(f) => (f.iter().map(portrait).collect::<Vec<_>>().join("|"), level_sizes(f.bfs().iter)) };
            ctx.observe(|| format!("slot {i}: {nodes}"));
            ctx.observe(|| format!("slot {i}: sizes {stream}"));
        }
        for i in 0..self.slots.len() { for j in 0..self.slots.len() {
            match (&self.slots[i].obj, &self.slots[j].obj) {
                (Obj::Tree(a), Obj::Tree(b)) => { let r = (a == b, a.cmp(b), hash_of(a) == hash_of(b)); ctx.observe(|| format!("cmp {i} {j} {r:?}")); }
                (Obj::Forest(a), Obj::Forest(b)) => { let r = (a == b, a.cmp(b), hash_of(a) == hash_of(b)); ctx.observe(|| format!("cmp {i} {j} {r:?}")); }
                _ => (),
            }
        } }
    }

    fn tree_slots(&self) -> Vec<usize> { (0..self.slots.len()).filter(|i| matches!(self.slots[*i].m, MObj::Tree(_))).collect() }
    fn forest_slots(&self) -> Vec<usize> { (0..self.slots.len()).filter(|i| matches!(self.slots[*i].m, MObj::Forest(_))).collect() }

    /// One random operation. False: the choice was not applicable.
    pub fn step(&mut self, ctx: &mut Ctx) -> bool {
        self.judging(false);
        let full = self.slots.len() >= self.max_slots || self.total() >= self.max_nodes;
        let nslots = self.slots.len();
        if nslots == 0 { if ctx.c.coin() { self.add_forest(ctx, 6) } else { self.add_tree(ctx, 12) } return true; }
        const OPS: usize = 17;
        let weighted = [0, 0, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 8, 8, 9, 10, 10, 11, 12, 12, 13, 13, 14, 15, 16];
        let kind = if ctx.c.exhaustive() { ctx.c.below(OPS) } else { *ctx.c.pick(&weighted) };
        match kind {
            0 => { if full { return false; } self.add_tree(ctx, 10) }
            1 => { if full { return false; } self.add_forest(ctx, 5) }
            2 => { // push a tree
                let ts = self.tree_slots();
                if ts.is_empty() || nslots < 2 { return false; }
                let b = *ctx.c.pick(&ts);
                let Some((a, at)) = self.pick_parent(ctx, Some(b)) else { return false };
                let front = ctx.c.coin();
                let via = ctx.c.below(if ctx.c.exhaustive() { 2 } else { 3 });
                op_label(ctx, &format!("push_{} tree #{b} under {} of #{a} (via {via})", fb(front), self.pname(at)));
                let sb = self.take_slot(b);
                let a = if a > b { a - 1 } else { a };
                let (Obj::Tree(t), MObj::Tree(r)) = (sb.obj, sb.m) else { unreachable!() };
                match (&mut self.slots[a].obj, at) {
                    (Obj::Forest(f), Par::Forest(_)) => if front { f.push_front(t) } else { f.push_back(t) },
                    (Obj::Tree(x), Par::Node(n)) if self.m.path(n).is_empty() && via == 0 => if front { x.push_front(t) } else { x.push_back(t) },
                    (_, Par::Node(n)) => { let p = self.m.path(n); with_node(&mut self.slots[a].obj, &p, via, |mut x| if front { x.push_front(t) } else { x.push_back(t) }) }
                    _ => unreachable!(),
                }
                let pos = if front { 0 } else { self.m.kids(at).len() };
                self.m.attach(at, pos, r);
                self.edited(at);
            }
            3 => { // append / prepend a forest
                let fs = self.forest_slots();
                if fs.is_empty() || nslots < 2 { return false; }
                let b = *ctx.c.pick(&fs);
                let Some((a, at)) = self.pick_parent(ctx, Some(b)) else { return false };
                let front = ctx.c.coin();
                let via = ctx.c.below(if ctx.c.exhaustive() { 2 } else { 3 });
                op_label(ctx, &format!("{} forest #{b} under {} of #{a} (via {via})", if front { "prepend" } else { "append" }, self.pname(at)));
                let sb = self.take_slot(b);
                let a = if a > b { a - 1 } else { a };
                let (Obj::Forest(f), MObj::Forest(id)) = (sb.obj, sb.m) else { unreachable!() };
                match (&mut self.slots[a].obj, at) {
                    (Obj::Forest(x), Par::Forest(_)) => if front { x.prepend(f) } else { x.append(f) },
                    (Obj::Tree(x), Par::Node(n)) if self.m.path(n).is_empty() && via == 0 => if front { x.prepend(f) } else { x.append(f) },
                    (_, Par::Node(n)) => { let p = self.m.path(n); with_node(&mut self.slots[a].obj, &p, via, |mut x| if front { x.prepend(f) } else { x.append(f) }) }
                    _ => unreachable!(),
                }
                self.m.splice(at, id, front);
                self.edited(at);
            }
            4 => { // pop
                let Some((a, at)) = self.pick_parent(ctx, None) else { return false };
                let front = ctx.c.coin();
                let via = ctx.c.below(if ctx.c.exhaustive() { 2 } else { 3 });
                op_label(ctx, &format!("pop_{} under {} of #{a} (via {via})", fb(front), self.pname(at)));
                let got = match (&mut self.slots[a].obj, at) {
                    (Obj::Forest(f), Par::Forest(_)) => if front { f.pop_front() } else { f.pop_back() },
                    (Obj::Tree(x), Par::Node(n)) if self.m.path(n).is_empty() && via == 0 => if front { x.pop_front() } else { x.pop_back() },
                    (_, Par::Node(n)) => { let p = self.m.path(n); with_node(&mut self.slots[a].obj, &p, via, |mut x| if front { x.pop_front() } else { x.pop_back() }) }
                    _ => unreachable!(),
                };
                let kids = self.m.kids(at);
                let want = if front { kids.first() } else { kids.last() }.copied();
                match (got, want) {
                    (None, None) => { ctx.observe(|| "pop -> None".into()); ctx.count("pops_none", 1) }
                    (Some(t), Some(w)) => { self.m.remove(w); self.edited(at); self.got(ctx, t, w, "popped tree"); }
                    (Some(t), None) => fail!("pop_{} from a childless node returned {}", fb(front), t),
                    (None, Some(w)) => fail!("pop_{} returned None, expected {}", fb(front), self.m.text(w)),
                }
            }
            5 => { // insert a sibling
                let ts = self.tree_slots();
                if ts.is_empty() || nslots < 2 { return false; }
                let b = *ctx.c.pick(&ts);
                let Some((a, id)) = self.pick_child(ctx, Some(b)) else { return false };
                let prev = ctx.c.coin();
                let via = ctx.c.below(if ctx.c.exhaustive() { 2 } else { 3 });
                op_label(ctx, &format!("insert_{}_sib tree #{b} at {} of #{a} (via {via})", if prev { "prev" } else { "next" }, self.nname(id)));
                let sb = self.take_slot(b);
                let a = if a > b { a - 1 } else { a };
                let (Obj::Tree(t), MObj::Tree(r)) = (sb.obj, sb.m) else { unreachable!() };
                let p = self.m.path(id);
                with_node(&mut self.slots[a].obj, &p, via, |mut x| if prev { x.insert_prev_sib(t) } else { x.insert_next_sib(t) });
                let up = self.m.n[id].up;
                let pos = self.m.index_in_parent(id) + !prev as usize;
                self.m.attach(up, pos, r);
                self.edited(up);
            }
            6 => { // detach
                let Some((a, id)) = self.pick_child(ctx, None) else { return false };
                let via = ctx.c.below(if ctx.c.exhaustive() { 2 } else { 3 });
                op_label(ctx, &format!("detach {} of #{a} (via {via})", self.nname(id)));
                let p = self.m.path(id);
                let t = with_node(&mut self.slots[a].obj, &p, via, |mut x| x.detach());
                let up = self.m.n[id].up;
                self.m.remove(id);
                self.edited(up);
                self.got(ctx, t, id, "detached tree");
            }
            7 => { // abandon
                let ts = self.tree_slots();
                if ts.is_empty() { return false; }
                let a = *ctx.c.pick(&ts);
                op_label(ctx, &format!("abandon #{a}"));
                let m = self.slots[a].m;
                let (Obj::Tree(t), MObj::Tree(r)) = (&mut self.slots[a].obj, m) else { unreachable!() };
                let f = t.abandon();
                self.places.forget(r); // abandon gives the tree a new root
                let fid = self.m.forest();
                let kids = std::mem::take(&mut self.m.n[r].kids);
                for &k in &kids { self.m.n[k].up = Par::Forest(fid); }
                self.m.f[fid] = kids;
                self.edits += 1;
                if self.mask & LOG != 0 { let s = f.to_string(); ctx.observe(|| format!("abandoned -> {s}")); }
                self.push_slot_forest(f, fid);
            }
            8 => { // write data
                let Some((a, id)) = self.pick_node(ctx, None) else { return false };
                let via = ctx.c.below(if ctx.c.exhaustive() { 2 } else { 3 });
                let v = self.val(&mut ctx.c);
                op_label(ctx, &format!("set {} of #{a} to {v} (via {via})", self.nname(id)));
                let p = self.m.path(id);
                with_node(&mut self.slots[a].obj, &p, via, |mut x| x.data_mut().setv(v));
                self.m.n[id].val = v;
            }
            9 => { // clones
                if full { return false; }
                let Some((a, id)) = self.pick_node(ctx, None) else { return false };
                let how = ctx.c.below(3);
                op_label(ctx, &format!("clone({how}) {} of #{a}", self.nname(id)));
                match how {
                    0 => match (&self.slots[a].obj, self.slots[a].m) {
                        (Obj::Tree(t), MObj::Tree(r)) => { let t2 = self.store(t.clone()); let r2 = self.m.copy(r); self.note_uids(t2.root(), r2); self.got(ctx, t2, r2, "clone"); }
                        (Obj::Forest(f), MObj::Forest(fid)) => { let f2 = self.store_f(f.clone()); let id2 = self.copy_forest(Par::Forest(fid)); self.note_forest(&f2, id2); self.push_slot_forest(f2, id2); }
                        _ => unreachable!(),
                    },
                    1 => { let n = node_ref(&self.slots[a].obj, &self.m.path(id)); let t2 = self.store(n.deep_clone()); let r2 = self.m.copy(id); self.note_uids(t2.root(), r2); self.got(ctx, t2, r2, "deep_clone"); }
                    _ => { let n = node_ref(&self.slots[a].obj, &self.m.path(id)); let f2 = self.store_f(n.deep_clone_forest()); let id2 = self.copy_forest(Par::Node(id)); self.note_forest(&f2, id2); self.push_slot_forest(f2, id2); }
                }
            }
            10 => { // drop
                let a = ctx.c.below(nslots);
                op_label(ctx, &format!("drop #{a}"));
                drop(self.take_slot(a));
            }
            11 => { // owning iteration, possibly cut short
                let a = ctx.c.below(nslots);
                let keep = ctx.c.below(4);
                op_label(ctx, &format!("into_iter #{a}, take {keep}, drop the rest"));
                let s = self.take_slot(a);
                let (mut it, kids) = match (s.obj, s.m) {
                    (Obj::Tree(t), MObj::Tree(r)) => (t.into_iter(), vec![r]),
                    (Obj::Forest(f), MObj::Forest(id)) => { let k = std::mem::take(&mut self.m.f[id]); for i in &k { self.m.n[*i].up = Par::None; } (f.into_iter(), k) }
                    _ => unreachable!(),
                };
                for i in 0..keep {
                    match (it.next(), kids.get(i)) {
                        (Some(t), Some(&k)) => self.got(ctx, t, k, "owning iterator"),
                        (None, None) => break,
                        (Some(t), None) => fail!("owning iterator yields an extra tree {t}"),
                        (None, Some(k)) => fail!("owning iterator ends before {}", self.m.text(*k)),
                    }
                }
                drop(it);
            }
            12 => { // rebuild into contiguous storage (or back, node by node, when forced scattered)
                let a = ctx.c.below(nslots);
                op_label(ctx, &format!("rebuild #{a}"));
                for id in self.nodes(self.slots[a].m) { self.places.forget(id); }
                let s = self.take_slot(a);
                let obj = match (s.obj, self.force) {
                    (Obj::Tree(t), Some(false)) => Obj::Tree(scatter(t)),
                    (Obj::Forest(f), Some(false)) => Obj::Forest(scatter_forest(f)),
                    (Obj::Tree(t), _) => Obj::Tree(Tree::from(t.into_bfs())),
                    (Obj::Forest(f), _) => Obj::Forest(Forest::from(f.into_bfs())),
                };
                self.slots.insert(a, Slot { obj, m: s.m });
            }
            13 => return self.operators(ctx),
            14 => { // through a cursor and back
                let a = ctx.c.below(nslots);
                let steps = ctx.c.below(if ctx.c.exhaustive() { 2 } else { 9 });
                op_label(ctx, &format!("walk #{a} for {steps} steps"));
                let s = self.take_slot(a);
                let obj = match s.obj {
                    Obj::Tree(t) => { let mut w = TreeWalk::from(t); for _ in 0..steps { w.forward(); } Obj::Tree(Tree::from(w)) }
                    Obj::Forest(t) => { let mut w = ForestWalk::from(t); for _ in 0..steps { w.forward(); } Obj::Forest(Forest::from(w)) }
                };
                self.slots.insert(a, Slot { obj, m: s.m });
            }
            15 => { // through a shared handle and back
                let ts = self.tree_slots();
                if ts.is_empty() { return false; }
                let a = *ctx.c.pick(&ts);
                op_label(ctx, &format!("share #{a} and take it back"));
                let s = self.take_slot(a);
                let Obj::Tree(t) = s.obj else { unreachable!() };
                let rc = RcNode::from(t);
                if ctx.c.coin() { let c = rc.clone(); let f = c.front(); drop(rc); drop(f); self.slots.insert(a, Slot { obj: Obj::Tree(unsafe { c.into_tree() }), m: s.m }); }
                else { self.slots.insert(a, Slot { obj: Obj::Tree(unsafe { rc.into_tree() }), m: s.m }); }
            }
            _ => { // exchange two owners
                let ts = self.tree_slots();
                if ts.len() < 2 { return false; }
                let a = *ctx.c.pick(&ts);
                let b = *ctx.c.pick(&ts);
                if a == b { return false; }
                op_label(ctx, &format!("swap #{a} #{b}"));
                let (a, b) = (a.min(b), a.max(b));
                let (x, y) = self.slots.split_at_mut(b);
                std::mem::swap(&mut x[a], &mut y[0]);
            }
        }
        true
    }

    pub fn operators(&mut self, ctx: &mut Ctx) -> bool {
        let ts = self.tree_slots();
        let fs = self.forest_slots();
        match ctx.c.below(5) {
            0 => {
                if ts.is_empty() { return false; }
                let a = *ctx.c.pick(&ts);
                op_label(ctx, &format!("-#{a}"));
                let s = self.take_slot(a);
                let (Obj::Tree(t), MObj::Tree(r)) = (s.obj, s.m) else { unreachable!() };
                let f = -t;
                let id = self.m.forest();
                self.m.attach(Par::Forest(id), 0, r);
                self.push_slot_forest(f, id);
            }
            1 | 2 => {
                if ts.len() < 2 { return false; }
                let a = *ctx.c.pick(&ts);
                let b = *ctx.c.pick(&ts);
                if a == b { return false; }
                let div = ctx.c.coin();
                op_label(ctx, &format!("#{a} {} #{b}", if div { '/' } else { '-' }));
                let (sa, sb) = self.take_two(a, b);
                let (Obj::Tree(x), MObj::Tree(rx)) = (sa.obj, sa.m) else { unreachable!() };
                let (Obj::Tree(y), MObj::Tree(ry)) = (sb.obj, sb.m) else { unreachable!() };
                if div { let t = x / y; let n = self.m.n[rx].kids.len(); self.m.attach(Par::Node(rx), n, ry); self.push_slot_tree(t, rx); }
                else { let f = x - y; let id = self.m.forest(); self.m.attach(Par::Forest(id), 0, rx); self.m.attach(Par::Forest(id), 1, ry); self.push_slot_forest(f, id); }
            }
            3 => {
                if ts.is_empty() || fs.is_empty() { return false; }
                let a = *ctx.c.pick(&ts);
                let b = *ctx.c.pick(&fs);
                let div = ctx.c.coin();
                op_label(ctx, &if div { format!("#{a} / #{b}") } else { format!("#{b} - #{a}") });
                let (sa, sb) = self.take_two(a, b);
                let (Obj::Tree(x), MObj::Tree(rx)) = (sa.obj, sa.m) else { unreachable!() };
                let (Obj::Forest(y), MObj::Forest(fy)) = (sb.obj, sb.m) else { unreachable!() };
                if div { let t = x / y; self.m.splice(Par::Node(rx), fy, false); self.push_slot_tree(t, rx); }
                else { let f = y - x; let n = self.m.f[fy].len(); self.m.attach(Par::Forest(fy), n, rx); self.push_slot_forest(f, fy); }
            }
            _ => {
                if fs.len() < 2 { return false; }
                let a = *ctx.c.pick(&fs);
                let b = *ctx.c.pick(&fs);
                if a == b { return false; }
                op_label(ctx, &format!("#{a} - #{b}"));
                let (sa, sb) = self.take_two(a, b);
                let (Obj::Forest(x), MObj::Forest(fx)) = (sa.obj, sa.m) else { unreachable!() };
                let (Obj::Forest(y), MObj::Forest(fy)) = (sb.obj, sb.m) else { unreachable!() };
                let f = x - y;
                self.m.splice(Par::Forest(fx), fy, false);
                self.push_slot_forest(f, fx);
            }
        }
        self.edits += 1;
        true
    }

    pub fn take_slot(&mut self, i: usize) -> Slot<P> { self.slots.remove(i) }
    fn take_two(&mut self, a: usize, b: usize) -> (Slot<P>, Slot<P>) {
        let sa = self.slots.remove(a);
        let sb = self.slots.remove(if b > a { b - 1 } else { b });
        (sa, sb)
    }

    fn edited(&mut self, at: Par) { self.edits += 1; if let Par::Node(n) = at { if self.m.depth(n) >= 1 { self.deep_edits += 1; } } }

    fn pname(&self, p: Par) -> String { match p { Par::Node(n) => self.nname(n), _ => "the forest".into() } }
    fn nname(&self, n: usize) -> String { format!("node {:?}={}", self.m.path(n), self.m.n[n].val) }

    /// A slot and a possible parent in it (node, or the forest itself).
    fn pick_parent(&mut self, ctx: &mut Ctx, except: Option<usize>) -> Option<(usize, Par)> {
        let cand: Vec<usize> = (0..self.slots.len()).filter(|i| Some(*i) != except).collect();
        if cand.is_empty() { return None; }
        let a = *ctx.c.pick(&cand);
        let nodes = self.nodes(self.slots[a].m);
        match self.slots[a].m {
            MObj::Tree(_) => Some((a, Par::Node(*ctx.c.pick(&nodes)))),
            MObj::Forest(f) => { let k = ctx.c.below(nodes.len() + 1); Some((a, if k == 0 || (!ctx.c.exhaustive() && ctx.c.chance(1, 4)) { Par::Forest(f) } else { Par::Node(nodes[k - 1]) })) }
        }
    }
    fn pick_node(&mut self, ctx: &mut Ctx, except: Option<usize>) -> Option<(usize, usize)> {
        let cand: Vec<usize> = (0..self.slots.len()).filter(|i| Some(*i) != except && !self.nodes(self.slots[*i].m).is_empty()).collect();
        if cand.is_empty() { return None; }
        let a = *ctx.c.pick(&cand);
        let nodes = self.nodes(self.slots[a].m);
        Some((a, *ctx.c.pick(&nodes)))
    }
    fn pick_child(&mut self, ctx: &mut Ctx, except: Option<usize>) -> Option<(usize, usize)> {
        let kids = |w: &Self, i: usize| -> Vec<usize> { w.nodes(w.slots[i].m).into_iter().filter(|n| w.m.n[*n].up != Par::None).collect() };
        let cand: Vec<usize> = (0..self.slots.len()).filter(|i| Some(*i) != except && !kids(self, *i).is_empty()).collect();
        if cand.is_empty() { return None; }
        let a = *ctx.c.pick(&cand);
        let nodes = kids(self, a);
        Some((a, *ctx.c.pick(&nodes)))
    }

    fn copy_forest(&mut self, from: Par) -> usize {
        let id = self.m.forest();
        for k in self.m.kids(from).clone() { let c = self.m.copy(k); self.m.n[c].up = Par::Forest(id); self.m.f[id].push(c); }
        id
    }
    /// Learns the identities of cloned items (their values and shape are compared on the way).
    fn note_uids(&mut self, node: &Node<P>, id: usize) {
        let mut st = vec![(node, id)];
        while let Some((n, i)) = st.pop() {
            self.m.n[i].uid = n.data().uid();
            let kids = self.m.n[i].kids.clone();
            let mut k = 0;
            for c in n.iter() { ensure!(k < kids.len(), "clone has more children than its source"); st.push((c, kids[k])); k += 1; }
            ensure!(k == kids.len(), "clone has fewer children than its source");
        }
    }
    fn note_forest(&mut self, f: &Forest<P>, id: usize) {
        let kids = self.m.f[id].clone();
        let mut k = 0;
        for c in f.iter() { ensure!(k < kids.len(), "clone has more trees than its source"); self.note_uids(c, kids[k]); k += 1; }
        ensure!(k == kids.len(), "clone has fewer trees than its source");
    }
}

fn gen_val<P: Pay>(nv: &mut i64, c: &mut Choice) -> i64 {
    *nv += 1;
    if P::NAME == "item" || P::NAME == "wide" { if c.exhaustive() { *nv } else { c.below(8) as i64 } }
    else if P::NAME == "u8" { *nv % 256 }
    else { *nv }
}

/// The same tree, every node stored on its own.
pub fn scatter<P>(t: Tree<P>) -> Tree<P> {
    let visits: Vec<_> = t.into_bfs().iter.map(|v| (v.data, v.size.degree)).collect();
    scatter_visits(visits, 1).pop().unwrap()
}
pub fn scatter_forest<P>(f: Forest<P>) -> Forest<P> {
    let n = f.degree();
    let visits: Vec<_> = f.into_bfs().iter.map(|v| (v.data, v.size.degree)).collect();
    let mut out = Forest::default();
    for t in scatter_visits(visits, n) { out.push_back(t); }
    out
}
fn scatter_visits<P>(visits: Vec<(P, usize)>, roots: usize) -> Vec<Tree<P>> {
    let n = visits.len();
    let mut end = n; // children of the nodes seen so far (from the back) start here
    let mut built: Vec<Option<Tree<P>>> = (0..n).map(|_| None).collect();
    for (i, (data, degree)) in visits.into_iter().enumerate().rev() {
        let mut t = Tree::new(data);
        for k in end - degree..end { t.push_back(built[k].take().unwrap()); }
        end -= degree;
        built[i] = Some(t);
    }
    built.into_iter().take(roots).map(|t| t.unwrap()).collect()
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn fb(front: bool) -> &'static str { if front { "front" } else { "back" } }

/// The node at `path`, reached through mutable iterators or front_mut/back_mut.
pub fn with_node<P: Unpin, R>(obj: &mut Obj<P>, path: &[usize], via: usize, f: impl FnOnce(Pin<&mut Node<P>>) -> R) -> R {
    let (mut cur, rest): (Pin<&mut Node<P>>, &[usize]) = match obj {
        Obj::Tree(t) if via == 1 && !path.is_empty() => {
            let d = t.degree();
            let i = path[0];
            (if i == 0 { t.front_mut().unwrap() } else if i + 1 == d { t.back_mut().unwrap() } else { t.iter_mut().nth(i).unwrap() }, &path[1..])
        }
        Obj::Tree(t) => (t.root_mut(), path),
        Obj::Forest(x) => {
            let d = x.degree();
            let i = path[0];
            (if via >= 1 && i == 0 { x.front_mut().unwrap() } else if via >= 1 && i + 1 == d { x.back_mut().unwrap() } else { x.iter_mut().nth(i).unwrap() }, &path[1..])
        }
    };
    for &i in rest {
        let n: &mut Node<P> = Pin::get_mut(cur);
        let d = n.degree();
        cur = if via >= 1 && i == 0 { n.front_mut().unwrap() } else if via >= 1 && i + 1 == d { n.back_mut().unwrap() } else { n.iter_mut().nth(i).unwrap() };
    }
    f(cur)
}

pub fn node_ref<'a, P>(obj: &'a Obj<P>, path: &[usize]) -> &'a Node<P> {
    let (mut cur, rest) = match obj {
        Obj::Tree(t) => (t.root(), path),
        Obj::Forest(f) => (f.iter().nth(path[0]).unwrap(), &path[1..]),
    };
    for &i in rest { cur = cur.iter().nth(i).unwrap(); }
    cur
}

/// A random history.
pub fn history<P: Pay>(ctx: &mut Ctx, mask: u32, len: usize) { history_forced::<P>(ctx, mask, len, None) }

pub fn history_forced<P: Pay>(ctx: &mut Ctx, mask: u32, len: usize, force: Option<bool>) {
    let mut w = World::<P>::new(mask);
    w.force = force;
    let big = !ctx.small && ctx.c.chance(1, 8);
    w.max_slots = ctx.c.range(2, 6);
    w.max_nodes = if ctx.small { 16 } else if big { 160 } else { ctx.c.range(8, 50) };
    let mut steps = 0;
    let start = ctx.c.range(1, 2);
    let huge = !ctx.small && ctx.c.chance(1, 300);
    if huge { w.max_nodes = 3000; }
    for _ in 0..start { w.add_tree(ctx, if ctx.small { 6 } else if huge { 1200 } else if big { 60 } else { 14 }); }
    let long = !ctx.small && !huge && !ctx.c.exhaustive() && ctx.c.chance(1, 800);
    if long { w.max_nodes = 40; ctx.count("long_histories", 1); }
    let len = if long { 2500 } else { len };
    let every = if huge { 11 } else if big { 7 } else { 1 };
    for i in 0..len {
        if !w.step(ctx) { continue; }
        steps += 1;
        ctx.count("operations", 1);
        if i % every == 0 { w.judge_all("after the operation"); w.judge_drops("after the operation"); w.observe_all(ctx); ctx.count("world_comparisons", 1); }
    }
    w.judge_all("at the end");
    w.judge_drops("at the end");
    ctx.max("max_nodes_in_world", w.total() as u64);
    ctx.max("max_height", w.slots.iter().flat_map(|s| w.roots(s.m)).map(|r| w.m.height(r)).max().unwrap_or(0) as u64);
    // take the world apart in random order; the rest must stay right
    while !w.slots.is_empty() {
        let a = ctx.c.below(w.slots.len());
        drop(w.take_slot(a));
        w.judge_all("while taking the world apart");
        w.judge_drops("while taking the world apart");
        w.observe_all(ctx);
    }
    if mask & LOG != 0 { w.observe_all(ctx); }
    if mask & PLACE != 0 { ctx.count("addresses_compared", w.places.looked.get()); }
    ctx.count("edits", w.edits);
    ctx.count("deep_edits", w.deep_edits);
    let nt = steps >= 3 && w.edits >= 2 && w.deep_edits >= 1;
    ctx.done(nt);
}

/// Every history of `len` operations from a small start world, up to the choices the exhaustive generators offer.
pub fn exhaustive<P: Pay>(ctx: &mut Ctx, mask: u32, world: usize, len: usize, max_runs: u64, force: Option<bool>) {
    let mut script = Some(vec![]);
    let mut runs = 0u64;
    while let Some(s) = script.take() {
        if runs >= max_runs { ctx.count("exhaustive_truncated", 1); break; }
        payload::reset();
        let case = ctx.case;
        ctx.start(case, Choice::script(s));
        ctx.sig(world as u64);
        crate::ctx::SUB.store(runs, std::sync::atomic::Ordering::Relaxed);
        let mut w = World::<P>::new(mask);
        w.force = force;
        w.max_slots = 9; w.max_nodes = 99;
        start_world(ctx, &mut w, world);
        for _ in 0..len {
            if !w.step(ctx) { break; }
            ctx.count("operations", 1);
            w.judge_all("after the operation");
            w.judge_drops("after the operation");
            w.observe_all(ctx);
        }
        let nt = w.edits > 0;
        while let Some(s) = w.slots.pop() { drop(s); w.judge_all("while taking the world apart"); w.judge_drops("while taking the world apart"); }
        ctx.done(nt);
        runs += 1;
        ctx.count("exhaustive_histories", 1);
        let c = std::mem::replace(&mut ctx.c, Choice::seeded(&[0]));
        script = c.next_script();
    }
}

pub const START_WORLDS: usize = 12;
fn start_world<P: Pay>(ctx: &mut Ctx, w: &mut World<P>, world: usize) {
    let piled = world % 2 == 1;
    let mut sub = Choice::seeded(&[3]);
    let style = match w.force { None => if piled { Style::PiledBfs } else { Style::Back }, Some(true) => Style::PiledBfs, Some(false) => Style::Back };
    let leaf = |v| Spec { val: v, kids: vec![] };
    let n = |v, k: Vec<Spec>| Spec { val: v, kids: k };
    let (trees, forests): (Vec<Spec>, Vec<Vec<Spec>>) = match world / 2 {
        0 => (vec![n(100, vec![leaf(101), leaf(102)]), leaf(103)], vec![]),
        1 => (vec![n(100, vec![n(101, vec![leaf(102)])])], vec![vec![leaf(103)]]),
        2 => (vec![n(100, vec![leaf(101), n(102, vec![leaf(103)]), leaf(104)])], vec![]),
        3 => (vec![leaf(100)], vec![vec![leaf(101), n(102, vec![leaf(103)])]]),
        4 => (vec![], vec![vec![leaf(100), leaf(101)], vec![]]),
        _ => (vec![leaf(100)], vec![vec![leaf(101), leaf(102), leaf(103)]]),
    };
    for s in trees { op_label(ctx, &format!("tree {}{}", s.text(), if w.force.is_none() { format!(" [{style:?}]") } else { String::new() }));
         let (t, r) = real_tree::<P>(&mut w.m, &s, style, &mut sub); w.push_slot_tree(t, r); }
    for s in forests { op_label(ctx, &format!("forest {:?}", s.iter().map(|x| x.text()).collect::<Vec<_>>())); let (f, id) = real_forest::<P>(&mut w.m, &s, style, &mut sub); w.push_slot_forest(f, id); }
    w.next_val = 200;
}

fn v_of<P: Pay>(n: Option<&Node<P>>) -> i64 { n.map_or(-1, |n| n.data().v()) }
/// Everything a user can ask a node, for every node of the subtree.
pub fn portrait<P: Pay>(root: &Node<P>) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let mut todo = vec![root];
    while let Some(n) = todo.pop() {
        let _ = write!(s, "{}:{},{},{},{},{},{};", n.data().v(), n.degree(), n.node_count(), n.has_no_child(), v_of(n.parent()), v_of(n.front()), v_of(n.back()));
        let kids: Vec<&Node<P>> = n.iter().collect();
        todo.extend(kids.into_iter().rev());
        if s.len() > 1 << 20 { s.push_str("(endless)"); break; }
    }
    s
}
fn level_sizes<'a, P: Pay>(it: impl Iterator<Item = trees::bfs::Visit<&'a P>>) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    for v in it.take(1 << 16) { let _ = write!(s, "{}:{},{} ", v.data.v(), v.size.degree, v.size.descendants); }
    s
}
