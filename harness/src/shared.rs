//! Worlds of shared handles (C17, C18), with nested ownership through payloads.

use crate::ctx::Ctx;
use crate::model::*;
use crate::owned::{hash_of, Places, COUNTS, LOG, PLACE};
use crate::payload::{self, Item, Pay};
use crate::rng::Choice;
use crate::{ensure, ensure_eq, fail};
use std::cell::RefCell;
use trees::{Forest, RcNode, Tree, WeakNode};

pub const EDITS: u32 = 16;
pub const LIFE: u32 = 32;

pub struct RcWorld<P: 'static> {
    pub m: Model,
    pub alive: Vec<bool>,
    pub h: Vec<(RcNode<P>, usize)>,
    pub w: Vec<(WeakNode<P>, usize)>,
    pub mask: u32,
    pub force: Option<bool>,
    pub max_nodes: usize,
    next_val: i64,
    pub edits: u64, pub deep: u64, pub releases: u64, pub orphaned: u64, pub upgrades: u64, pub refused: u64, edits_before: u64,
    pub places: Places,
}

impl<P: Pay> RcWorld<P> {
    pub fn new(mask: u32) -> Self {
        RcWorld { m: Model::default(), alive: vec![], h: vec![], w: vec![], mask, force: None, max_nodes: 40, next_val: 0, edits: 0, deep: 0, releases: 0, orphaned: 0, upgrades: 0, refused: 0, edits_before: 0, places: Places::default() }
    }
    pub fn sync(&mut self) { while self.alive.len() < self.m.n.len() { self.alive.push(true); } }
    pub fn total(&self) -> usize { self.alive.iter().filter(|a| **a).count() }
    fn name(&self, id: usize) -> String { format!("{}@{:?}", self.m.n[id].val, self.m.path(id)) }

    fn spec(&mut self, c: &mut Choice, max: usize) -> Spec {
        let mut s = if c.exhaustive() {
            match c.below(2) { 0 => Spec::default(), _ => Spec { val: 0, kids: vec![Spec { val: 0, kids: vec![Spec::default()] }] } }
        } else if c.chance(1, 5) { parse_shape(*c.pick(&TUPLE_SHAPES)) }
        else { gen_spec(c, max, &mut |_| 0) };
        let mut nv = self.next_val;
        s.relabel(&mut || { nv += 1; nv });
        self.next_val = nv;
        s
    }
    fn style(&self, c: &mut Choice) -> Style {
        let s = if c.exhaustive() { if c.coin() { Style::PiledBfs } else { Style::Back } } else { *c.pick(&STYLES) };
        let coin = !c.exhaustive() && c.coin();
        match self.force { None => s, Some(true) => if coin { Style::Tuple } else { Style::PiledBfs }, Some(false) => Style::Back }
    }
    fn sub(&self, ctx: &mut Ctx) -> Choice { let k = if ctx.c.exhaustive() { 0 } else { ctx.c.below(1 << 30) as u64 }; Choice::seeded(&[k, 11]) }
    pub fn tree(&mut self, ctx: &mut Ctx, max: usize) -> (Tree<P>, usize, String) {
        let spec = self.spec(&mut ctx.c, max);
        let style = self.style(&mut ctx.c);
        let mut sub = self.sub(ctx);
        let (t, r) = real_tree::<P>(&mut self.m, &spec, style, &mut sub);
        self.sync();
        let label = if self.force.is_some() { spec.text() } else { format!("{} [{style:?}]", spec.text()) };
        (t, r, label)
    }
    pub fn forest(&mut self, ctx: &mut Ctx) -> (Forest<P>, usize, String) {
        let n = ctx.c.below(3);
        let specs: Vec<Spec> = (0..n).map(|_| self.spec(&mut ctx.c, 3)).collect();
        let style = self.style(&mut ctx.c);
        let mut sub = self.sub(ctx);
        let (f, id) = real_forest::<P>(&mut self.m, &specs, style, &mut sub);
        self.sync();
        let label = format!("{:?}{}", specs.iter().map(|s| s.text()).collect::<Vec<_>>(), if self.force.is_some() { String::new() } else { format!(" [{style:?}]") });
        (f, id, label)
    }
    pub fn add(&mut self, ctx: &mut Ctx, max: usize) {
        let (t, r, label) = self.tree(ctx, max);
        op_label(ctx, &format!("h{} = share tree {label}", self.h.len()));
        self.h.push((RcNode::from(t), r));
    }

    fn held(&self, id: usize) -> bool { self.h.iter().any(|x| x.1 == id) }
    /// The model of release: a root without a holder goes, its children become roots.
    pub fn settle(&mut self, id: usize) {
        if self.m.n[id].up != Par::None || self.held(id) || !self.alive[id] { return; }
        self.alive[id] = false;
        self.releases += 1;
        let kids = std::mem::take(&mut self.m.n[id].kids);
        for k in &kids { self.m.n[*k].up = Par::None; if self.held(*k) { self.orphaned += 1; } }
        for k in kids { self.settle(k); }
    }
    pub fn drop_handle(&mut self, i: usize) {
        self.edits_before = self.edits;
        let (h, id) = self.h.swap_remove(i);
        drop(h);
        self.settle(id);
    }
    fn hold(&mut self, h: RcNode<P>, id: usize) { self.h.push((h, id)); }
    fn handle_is<D: std::fmt::Display + ?Sized>(&self, h: &RcNode<P>, id: usize, what: &D) { same_item(&*h.data(), &self.m, id, what); }
    /// A handle was returned where `want` says which node it must be.
    fn got(&mut self, ctx: &mut Ctx, what: &str, got: Option<RcNode<P>>, want: Option<usize>, keep: bool) {
        match (got, want) {
            (None, None) => (),
            (Some(h), Some(id)) => {
                self.handle_is(&h, id, what);
                if keep { self.hold(h, id); } else { drop(h); self.settle(id); }
            }
            (g, w) => fail!("{what} gives {}, expected {}", g.map_or("None".into(), |h| format!("a handle of {}", h.data())), w.map_or("None".into(), |i| self.name(i))),
        }
        if self.mask & LOG != 0 { ctx.observe(|| format!("{what} {}", want.is_some())); }
    }

    pub fn judge(&self, what: &str) {
        if self.mask & LIFE != 0 {
            crate::ctx::set_kind("oracle");
            let mut expect: Vec<u64> = (0..self.m.n.len()).filter(|i| self.alive[*i]).map(|i| self.m.n[i].uid).collect();
            if P::NAME == "zst" {
                ensure_eq!(payload::ZST_LIVE.load(std::sync::atomic::Ordering::SeqCst), expect.len() as i64, "{what}: zero-sized items alive");
            } else if P::NAME == "item" || P::NAME == "wide" {
                let mut live: Vec<u64> = payload::live_ids().iter().map(|i| i + 1).collect();
                expect.sort(); live.sort();
                if live != expect {
                    let nm = |u: &u64| self.m.n.iter().position(|n| n.uid == *u).map_or("?".into(), |i| self.m.n[i].val.to_string());
                    let lost: Vec<_> = expect.iter().filter(|u| !live.contains(u)).map(nm).collect();
                    let kept: Vec<_> = live.iter().filter(|u| !expect.contains(u)).map(nm).collect();
                    fail!("{what}: data dropped although held: {lost:?}; data alive although nothing holds it: {kept:?}");
                }
            }
            for (w, id) in &self.w {
                match w.upgrade() {
                    Some(h) => { ensure!(self.alive[*id], "{what}: a weak handle of the released node {} upgrades", self.m.n[*id].val); self.handle_is(&h, *id, &Lazy(|| format!("{what}: upgraded weak handle"))); }
                    None => ensure!(!self.alive[*id], "{what}: a weak handle of the living node {} does not upgrade", self.name(*id)),
                }
            }
        }
        if self.mask & COUNTS != 0 { self.judge_counts(what); }
        if self.mask & PLACE != 0 {
            for (k, (h, id)) in self.h.iter().enumerate() {
                let w = Lazy(|| format!("{what}: handle h{k}"));
                let d = h.data();
                if d.uid() != self.m.n[*id].uid { continue; } // another property's business
                drop(d);
                let n = unsafe { h.node() };
                self.places.judge(&*n, &self.m, *id, &w);
            }
        }
        if self.mask & (EDITS | LIFE) == 0 { return; }
        // after edits, what became of the structure is for EDITS to say; LIFE says it after releases
        if self.mask & EDITS == 0 { crate::ctx::set_kind(if self.edits != self.edits_before { "foreign" } else { "oracle" }); }
        let mut roots: Vec<usize> = vec![];
        for (k, (h, id)) in self.h.iter().enumerate() {
            let id = *id;
            let n = &self.m.n[id];
            let w = || format!("{what}: handle h{k} of {}", self.name(id));
            self.handle_is(h, id, &Lazy(w));
            ensure_eq!(h.is_root(), n.up == Par::None, "{}: is_root()", w());
            match (h.parent(), n.up) {
                (None, Par::None) => (),
                (Some(p), Par::Node(x)) => self.handle_is(&p, x, &Lazy(|| format!("{}: parent()", w()))),
                (p, _) => fail!("{}: parent() is {}", w(), p.map_or("None".into(), |p| p.data().to_string())),
            }
            ensure_eq!(h.degree(), n.kids.len(), "{}: degree()", w());
            ensure_eq!(h.has_no_child(), n.kids.is_empty(), "{}: has_no_child()", w());
            ensure_eq!(h.node_count(), self.m.size(id), "{}: node_count()", w());
            for (nm, got, want) in [("front()", h.front(), n.kids.first()), ("back()", h.back(), n.kids.last())] {
                match (got, want) { (None, None) => (), (Some(g), Some(x)) => self.handle_is(&g, *x, &Lazy(|| format!("{}: {nm}", w()))), _ => fail!("{}: {nm}", w()) }
            }
            let mut it = h.iter_rc();
            for x in &n.kids { match it.next() { Some(g) => self.handle_is(&g, *x, &Lazy(|| format!("{}: iter_rc()", w()))), None => fail!("{}: iter_rc() ends early", w()) } }
            ensure!(it.next().is_none(), "{}: iter_rc() yields too much", w());
            let r = self.m.root_of(id);
            if !roots.contains(&r) { roots.push(r); }
            if r == id && self.mask & EDITS != 0 { // the whole tree, with links and counts
                let n = unsafe { h.node() };
                same_struct(&*n, &self.m, id, &Lazy(w));
                counts_model(&*n, &self.m, id, &Lazy(w));
                drop(n);
                if P::VALUES { ensure_eq!(h.to_string(), self.m.text(id), "{}: text", w()); }
            }
        }
    }
    /// Counts, ends and parents through every handle, against what iteration through the same handle yields.
    fn judge_counts(&self, what: &str) {
        crate::ctx::set_kind("oracle");
        fn walk<P: Pay>(h: &RcNode<P>, what: &str, left: &mut usize) -> usize {
            ensure!(*left > 0, "{what}: endless structure");
            *left -= 1;
            let at = |h: &RcNode<P>| &*h.data() as *const P as usize;
            let (mut k, mut n) = (0, 1);
            let (mut first, mut last) = (None, None);
            for c in h.iter_rc() {
                match c.parent() { Some(p) => ensure!(std::ptr::eq(&*unsafe { p.node() }, &*unsafe { h.node() }), "{what}: parent() of a child of {} is another node", h.data()), None => fail!("{what}: a child of {} has no parent()", h.data()) }
                ensure!(!c.is_root(), "{what}: is_root() of a child of {}", h.data());
                n += walk(&c, what, left);
                if k == 0 { first = Some(at(&c)); }
                last = Some(at(&c));
                k += 1;
            }
            ensure!(h.front().map(|x| at(&x)) == first || std::mem::size_of::<P>() == 0, "{what}: front() of {}", h.data());
            ensure!(h.back().map(|x| at(&x)) == last || std::mem::size_of::<P>() == 0, "{what}: back() of {}", h.data());
            ensure_eq!(h.front().is_some(), k > 0, "{what}: front() of {}", h.data());
            ensure_eq!(h.back().is_some(), k > 0, "{what}: back() of {}", h.data());
            ensure_eq!(h.degree(), k, "{what}: degree() of {}", h.data());
            ensure_eq!(h.has_no_child(), k == 0, "{what}: has_no_child() of {}", h.data());
            ensure_eq!(h.node_count(), n, "{what}: node_count() of {}", h.data());
            n
        }
        for (k, (h, id)) in self.h.iter().enumerate() {
            let w = format!("{what}: under handle h{k}");
            let n = walk(h, &w, &mut (self.m.n.len() + 2));
            ensure_eq!(h.is_root(), h.parent().is_none(), "{w}: is_root() and parent()");
            if self.m.n[*id].up == Par::None {
                ensure!(h.is_root(), "{w}: a root (never attached, or removed) is not is_root()");
                let node = unsafe { h.node() };
                ensure_eq!(counts_ok(&*node, None, &w, self.m.n.len() + 2), n, "{w}: nodes seen by the owned and the shared interface");
            }
        }
        crate::ctx::set_kind("foreign");
    }
    pub fn observe_all(&self, ctx: &mut Ctx) {
        if self.mask & LOG == 0 { return; }
        if !ctx.mute { ctx.observe(|| format!("dropped so far {:x}", payload::drop_order())); }
        for (i, (h, _)) in self.h.iter().enumerate() {
            let s = format!("h{i}: {h} {} {} {} {:?}", h.is_root(), h.degree(), h.node_count(), h.parent().map(|p| p.to_string()));
            ctx.observe(|| s);
            let s = crate::owned::portrait(unsafe { &*(&*h.node() as *const trees::Node<P>) });
            ctx.observe(|| format!("h{i}: {s} {:?} {:?}", h.front().map(|n| n.data().v()), h.back().map(|n| n.data().v())));
            for (j, (g, _)) in self.h.iter().enumerate() { let r = (h == g, h.cmp(g), hash_of(h) == hash_of(g)); ctx.observe(|| format!("cmp {i} {j} {r:?}")); }
        }
        for (i, (w, _)) in self.w.iter().enumerate() { let s = w.upgrade().map(|h| h.to_string()); ctx.observe(|| format!("w{i}: {s:?}")); }
        let n = payload::live();
        ctx.observe(|| format!("alive {n}"));
    }

    fn edited(&mut self, at: usize) { self.edits += 1; if self.m.depth(at) > 0 { self.deep += 1; } }

    pub fn step(&mut self, ctx: &mut Ctx) -> bool {
        self.edits_before = self.edits;
        if self.mask & EDITS == 0 && self.mask & (LIFE | COUNTS | PLACE) != 0 { crate::ctx::set_kind("foreign"); }
        let exh = ctx.c.exhaustive();
        // without handles only new trees and weak handles are left
        if self.h.is_empty() { if exh { if self.w.is_empty() { return false; } } else { self.add(ctx, 8); return true; } }
        let room = self.total() < self.max_nodes;
        let op = ctx.c.below(if exh { 19 } else { 26 });
        if !self.h.is_empty() || op >= 4 {
            if self.h.is_empty() && op != 6 && op != 7 { return false; }
        } else { return false; }
        let i = if self.h.is_empty() { 0 } else { ctx.c.below(self.h.len()) };
        let id = if self.h.is_empty() { 0 } else { self.h[i].1 };
        let here = if self.h.is_empty() { String::new() } else { format!("h{i} ({})", self.name(id)) };
        let keep = |ctx: &mut Ctx| if exh { true } else { ctx.c.chance(3, 4) };
        match op {
            0 => { // more handles
                op_label(ctx, &format!("clone {here}"));
                let h = self.h[i].0.clone();
                self.hold(h, id);
            }
            1 => {
                op_label(ctx, &format!("drop {here}"));
                self.drop_handle(i);
            }
            2 | 3 => {
                let front = op == 2;
                let want = if front { self.m.n[id].kids.first() } else { self.m.n[id].kids.last() }.copied();
                op_label(ctx, &format!("{} of {here}", if front { "front" } else { "back" }));
                let g = if front { self.h[i].0.front() } else { self.h[i].0.back() };
                self.got(ctx, if front { "front()" } else { "back()" }, g, want, true);
            }
            4 => {
                op_label(ctx, &format!("parent of {here}"));
                let want = match self.m.n[id].up { Par::Node(p) => Some(p), _ => None };
                let g = self.h[i].0.parent();
                self.got(ctx, "parent()", g, want, true);
            }
            5 => {
                op_label(ctx, &format!("w{} = downgrade {here}", self.w.len()));
                let w = self.h[i].0.downgrade();
                self.w.push((w, id));
            }
            6 => {
                if self.w.is_empty() { return false; }
                let k = ctx.c.below(self.w.len());
                op_label(ctx, &format!("upgrade w{k}"));
                let id = self.w[k].1;
                let want = if self.alive[id] { self.upgrades += 1; Some(id) } else { self.refused += 1; None };
                let g = self.w[k].0.upgrade();
                if self.mask & LIFE != 0 { crate::ctx::set_kind("oracle"); }
                self.got(ctx, "upgrade()", g, want, true);
            }
            7 => {
                if self.w.is_empty() { return false; }
                let k = ctx.c.below(self.w.len());
                op_label(ctx, &format!("drop w{k}"));
                self.w.swap_remove(k);
            }
            8 | 9 => {
                if !room { return false; }
                let front = op == 8;
                let (t, r, label) = self.tree(ctx, 5);
                op_label(ctx, &format!("push_{} {label} under {here}", if front { "front" } else { "back" }));
                let at = if front { self.h[i].0.push_front(t); 0 } else { self.h[i].0.push_back(t); self.m.n[id].kids.len() };
                self.m.attach(Par::Node(id), at, r);
                self.edited(id);
            }
            10 | 11 => {
                let front = op == 10;
                op_label(ctx, &format!("pop_{} under {here}", if front { "front" } else { "back" }));
                let want = if front { self.m.n[id].kids.first() } else { self.m.n[id].kids.last() }.copied();
                let g = if front { self.h[i].0.pop_front() } else { self.h[i].0.pop_back() };
                if let Some(k) = want { self.m.remove(k); self.edited(id); }
                let kp = keep(ctx);
                self.got(ctx, if front { "pop_front()" } else { "pop_back()" }, g, want, kp);
            }
            12 | 13 => {
                if !room { return false; }
                let (f, fid, label) = self.forest(ctx);
                op_label(ctx, &format!("{} {label} under {here}", if op == 12 { "append" } else { "prepend" }));
                if op == 12 { self.h[i].0.append(f); } else { self.h[i].0.prepend(f); }
                self.m.splice(Par::Node(id), fid, op == 13);
                self.edited(id);
            }
            14 | 15 => {
                let Par::Node(p) = self.m.n[id].up else { return false };
                if !room { return false; }
                let (t, r, label) = self.tree(ctx, 4);
                op_label(ctx, &format!("insert_{}_sib {label} at {here}", if op == 14 { "prev" } else { "next" }));
                let at = self.m.index_in_parent(id);
                let at = if op == 14 { self.h[i].0.insert_prev_sib(t); at } else { self.h[i].0.insert_next_sib(t); at + 1 };
                self.m.attach(Par::Node(p), at, r);
                self.edited(p);
            }
            16 => {
                let Par::Node(p) = self.m.n[id].up else { return false };
                op_label(ctx, &format!("detach {here}"));
                self.h[i].0.detach();
                self.m.remove(id);
                self.edited(p);
            }
            17 => { // new data
                op_label(ctx, &format!("replace the data of {here}"));
                self.next_val += 1;
                let v = self.next_val;
                let new = P::mk(v);
                let uid = new.uid();
                let old = std::mem::replace(&mut *self.h[i].0.data_mut(), new);
                same_item(&old, &self.m, id, "data replaced");
                drop(old);
                self.m.n[id].val = if P::VALUES { v } else { 0 };
                self.m.n[id].uid = uid;
                self.edited(id);
            }
            18 => { // a handle from iter_rc, other handles of the children dropped on the way
                let kids = self.m.n[id].kids.clone();
                if kids.is_empty() { return false; }
                let k = ctx.c.below(kids.len());
                op_label(ctx, &format!("child {k} of {here} by iter_rc"));
                let mut it = self.h[i].0.iter_rc();
                let mut g = None;
                for _ in 0..=k { g = it.next(); }
                drop(it);
                self.got(ctx, "iter_rc().nth()", g, Some(kids[k]), true);
            }
            19 => {
                if !room { return false; }
                let (a, ra, la) = self.tree(ctx, 3);
                let (b, rb, lb) = self.tree(ctx, 3);
                op_label(ctx, &format!("extend {here} by {la}, {lb}"));
                if exh || ctx.c.coin() { self.h[i].0.extend(vec![a, b]); } else {
                    // user code that runs meanwhile may use the tree through other handles
                    let (k, other, val, root) = (self.m.n[id].kids.len(), self.h[i].0.clone(), self.m.n[id].val, self.m.n[id].up == Par::None);
                    let mut looks = 0;
                    let look = |t: Tree<P>| {
                        let d = other.degree();
                        ensure!(d >= k && d <= k + 2, "extend: degree of the node seen from its iterator: {d}, started with {k}");
                        if P::VALUES { ensure_eq!(other.data().v(), val, "extend: data of the node seen from its iterator"); }
                        ensure_eq!(other.is_root(), root, "extend: is_root() seen from its iterator");
                        ensure_eq!(other.iter_rc().count(), d, "extend: children seen from its iterator");
                        if d > 0 { ensure!(other.front().is_some() && other.back().unwrap().parent().unwrap() == other, "extend: ends seen from its iterator"); }
                        looks += 1;
                        t
                    };
                    self.h[i].0.extend(vec![a, b].into_iter().map(look));
                    ensure_eq!(looks, 2, "extend: items taken from the iterator");
                }
                for r in [ra, rb] { let n = self.m.n[id].kids.len(); self.m.attach(Par::Node(id), n, r); }
                self.edited(id);
            }
            20 => { // copy a subtree and hang it somewhere, possibly below its own source
                if !room { return false; }
                let j = ctx.c.below(self.h.len());
                op_label(ctx, &format!("push_back deep_clone of h{j} under {here}"));
                let src = self.h[j].1;
                if self.m.size(src) + self.total() > 2 * self.max_nodes { return false; }
                let t = self.h[j].0.deep_clone();
                let c = self.m.copy(src);
                self.sync();
                let mut st = vec![(t.root(), c)];
                while let Some((n, x)) = st.pop() { self.m.n[x].uid = n.data().uid(); ensure_eq!(n.degree(), self.m.n[x].kids.len(), "deep_clone: degree"); st.extend(n.iter().zip(self.m.n[x].kids.iter().copied())); }
                same_struct(t.root(), &self.m, c, "deep_clone of a shared node");
                counts_model(t.root(), &self.m, c, "deep_clone of a shared node");
                self.h[i].0.push_back(t);
                let n = self.m.n[id].kids.len();
                self.m.attach(Par::Node(id), n, c);
                self.edited(id);
            }
            21 | 22 => { // unshare a tree nobody else has a strong handle of, edit it, share it again
                let (sole, _) = (self.h.iter().filter(|x| self.m.root_of(x.1) == self.m.root_of(id)).count() == 1, 0);
                if !sole || self.m.n[id].up != Par::None { return false; }
                op_label(ctx, &format!("into_tree {here}"));
                let (h, _) = self.h.swap_remove(i);
                let mut t = unsafe { h.into_tree() };
                same_struct(t.root(), &self.m, id, "into_tree");
                counts_model(t.root(), &self.m, id, "into_tree");
                if ctx.c.coin() {
                    if ctx.c.coin() { if let Some(k) = self.m.n[id].kids.first().copied() { // removed for good while owned
                        let x = t.pop_front().unwrap();
                        self.m.remove(k);
                        if ctx.c.coin() { drop(x); for n in self.m.preorder(&[k]) { self.alive[n] = false; self.releases += 1; } self.unlink(k); }
                        else { self.hold(RcNode::from(x), k); }
                    } }
                    self.hold(RcNode::from(t), id);
                } else {
                    drop(t);
                    for n in self.m.preorder(&[id]) { self.alive[n] = false; self.releases += 1; }
                    self.unlink(id);
                }
            }
            23 => { self.add(ctx, 8); }
            24 => { // edits under a handle through the owned view of a detached piece: pop, then push elsewhere is not
                    // offered by the crate, so this keeps many handles of one subtree alive instead
                op_label(ctx, &format!("hold everything under {here}"));
                let mut q = vec![(self.h[i].0.clone(), id)];
                let mut at = 0;
                while at < q.len() && at < 12 {
                    let kids = self.m.n[q[at].1].kids.clone();
                    let n: Vec<_> = q[at].0.iter_rc().zip(kids).collect();
                    q.extend(n);
                    at += 1;
                }
                for (h, x) in q { self.handle_is(&h, x, "iter_rc"); if self.h.len() < 24 { self.hold(h, x); } }
            }
            _ => { // drop many handles in random order
                let k = ctx.c.range(1, self.h.len().min(6));
                for _ in 0..k { let j = ctx.c.below(self.h.len()); op_label(ctx, &format!("drop h{j} ({})", self.name(self.h[j].1))); self.drop_handle(j); self.judge("after a drop"); }
            }
        }
        true
    }
    /// A tree given to a refused operation is gone.
    pub fn discard(&mut self, id: usize) { for n in self.m.preorder(&[id]) { self.alive[n] = false; } self.unlink(id); }
    fn unlink(&mut self, id: usize) { for n in self.m.preorder(&[id]) { self.m.n[n].up = Par::None; } for n in 0..self.m.n.len() { if !self.alive[n] { self.m.n[n].kids.clear(); } } }

    /// Drops everything in random order, judging on the way.
    pub fn dismantle(&mut self, ctx: &mut Ctx) {
        while !(self.h.is_empty() && self.w.is_empty()) {
            let k = ctx.c.below(self.h.len() + self.w.len());
            if k < self.h.len() { if ctx.tracing() { let s = format!("finally drop h{k} ({})", self.name(self.h[k].1)); ctx.op(|| s.clone()); } self.drop_handle(k); } else { self.w.swap_remove(k - self.h.len()); }
            self.judge("while dropping everything");
            self.observe_all(ctx);
        }
    }
}

pub fn history<P: Pay>(ctx: &mut Ctx, mask: u32, force: Option<bool>) {
    let mut w = RcWorld::<P>::new(mask);
    w.force = force;
    let big = ctx.scale(0, 1, 120) == 1;
    w.max_nodes = if ctx.small { 10 } else if big { 400 } else { ctx.c.range(8, 45) };
    let n = ctx.c.range(1, 2);
    for _ in 0..n { w.add(ctx, if ctx.small { 5 } else if big { 300 } else { 14 }); }
    let len = ctx.c.range(5, if ctx.small { 14 } else if big { 25 } else if ctx.thorough { 100 } else { 60 });
    let long = !big && ctx.scale(0, 1, 600) == 1;
    if long { w.max_nodes = 30; ctx.count("long_histories", 1); }
    let len = if long { 2000 } else { len };
    let mut steps = 0;
    for _ in 0..len {
        if !w.step(ctx) { continue; }
        steps += 1;
        w.judge("after the operation");
        w.observe_all(ctx);
        while w.h.len() > 20 { let k = ctx.c.below(w.h.len()); if ctx.tracing() { let s = format!("drop h{k} ({})", w.name(w.h[k].1)); ctx.op(|| s.clone()); } w.drop_handle(k); w.judge("after a drop"); }
    }
    ctx.count("operations", steps);
    if mask & PLACE != 0 { ctx.count("addresses_compared", w.places.looked.get()); }
    ctx.max("max_handles", w.h.len() as u64);
    w.dismantle(ctx);
    w.observe_all(ctx);
    ensure!(w.alive.iter().all(|a| !a), "harness: nodes left in the model");
    for (k, v) in [("edits", w.edits), ("edits_below_the_root", w.deep), ("nodes_released", w.releases), ("held_nodes_that_lost_their_parent", w.orphaned), ("upgrades_of_living", w.upgrades), ("upgrades_refused", w.refused)] { ctx.count(k, v); }
    let nt = if mask & LIFE != 0 { w.releases >= 3 && steps >= 5 } else { w.edits >= 3 && steps >= 5 };
    ctx.done(nt);
}

pub const START_WORLDS: usize = 6;
/// All histories of `len` operations from a small start.
pub fn exhaustive<P: Pay>(ctx: &mut Ctx, mask: u32, world: usize, len: usize, max_runs: u64) {
    let mut script = Some(vec![]);
    let mut runs = 0;
    while let Some(s) = script.take() {
        if runs >= max_runs { ctx.count("exhaustive_truncated", 1); break; }
        payload::reset();
        let case = ctx.case;
        ctx.start(case, Choice::script(s));
        ctx.sig(world as u64);
        crate::ctx::SUB.store(runs, std::sync::atomic::Ordering::Relaxed);
        let mut w = RcWorld::<P>::new(mask);
        let style = if world % 2 == 1 { Style::PiledBfs } else { Style::Back };
        let l = |v| Spec { val: v, kids: vec![] };
        let n = |v, kids| Spec { val: v, kids };
        let spec = match world / 2 { 0 => n(1, vec![n(2, vec![l(3)])]), 1 => n(1, vec![l(2), l(3)]), _ => n(1, vec![n(2, vec![l(3)]), l(4)]) };
        w.next_val = 10;
        let mut sub = Choice::seeded(&[1]);
        let (t, r) = real_tree::<P>(&mut w.m, &spec, style, &mut sub);
        w.sync();
        op_label(ctx, &format!("h0 = share tree {} [{style:?}]", spec.text()));
        w.h.push((RcNode::from(t), r));
        let f = w.h[0].0.front().unwrap();
        w.h.push((f, w.m.n[r].kids[0]));
        for _ in 0..len {
            if !w.step(ctx) { break; }
            ctx.count("operations", 1);
            w.judge("after the operation");
        }
        let nt = w.edits + w.releases > 0;
        while !w.h.is_empty() { w.drop_handle(0); w.judge("while dropping everything"); }
        drop(w);
        ctx.done(nt);
        runs += 1;
        ctx.count("exhaustive_histories", 1);
        let c = std::mem::replace(&mut ctx.c, Choice::seeded(&[0]));
        script = c.next_script();
    }
}

// ---- handles kept inside data ------------------------------------------------------------------------------------

/// Data that holds handles of other trees and looks at them, and at its own node, while being dropped.
pub struct Link { item: Item, held: RefCell<Vec<RcNode<Link>>>, me: RefCell<Option<WeakNode<Link>>>, seen: RefCell<Vec<WeakNode<Link>>> }
impl Link { fn new(v: i64) -> Link { Link { item: Item::mk(v), held: RefCell::new(vec![]), me: RefCell::new(None), seen: RefCell::new(vec![]) } } }
impl Drop for Link {
    fn drop(&mut self) {
        self.item.v();
        if let Some(w) = self.me.borrow().as_ref() { ensure!(w.upgrade().is_none(), "a node upgrades to life while its data is being dropped"); }
        for w in self.seen.borrow().iter() { if let Some(h) = w.upgrade() { h.data().item.v(); let _ = h.node_count(); } }
        for h in self.held.borrow().iter() { h.data().item.v(); let _ = h.degree(); }
    }
}
fn link_tree(s: &Spec, piled: bool) -> Tree<Link> {
    fn scattered(s: &Spec) -> Tree<Link> { let mut t = Tree::new(Link::new(s.val)); for k in &s.kids { t.push_back(scattered(k)); } t }
    let t = scattered(s);
    if piled { Tree::from(t.into_bfs()) } else { t }
}

/// Trees whose items hold handles of nodes of later trees; outside handles go in random order.
pub fn nested(ctx: &mut Ctx) {
    struct N { val: i64, parent: Option<usize>, kids: Vec<usize>, held_by: Vec<usize>, alive: bool }
    let mut ns: Vec<N> = vec![];
    let mut hs: Vec<Vec<(RcNode<Link>, usize)>> = vec![];
    let trees = if ctx.small { 3 } else { ctx.c.range(3, 6) };
    let mut v = 0;
    for _ in 0..trees {
        let spec = gen_spec(&mut ctx.c, if ctx.small { 3 } else { 7 }, &mut |_| { v += 1; v });
        let piled = ctx.c.coin();
        op_label(ctx, &format!("share {} {}", spec.text(), if piled { "contiguous" } else { "scattered" }));
        let root = RcNode::from(link_tree(&spec, piled));
        let mut q: Vec<(RcNode<Link>, usize, Spec)> = vec![];
        ns.push(N { val: spec.val, parent: None, kids: vec![], held_by: vec![], alive: true });
        q.push((root, ns.len() - 1, spec));
        let mut at = 0;
        while at < q.len() {
            let me = q[at].1;
            let kids: Vec<RcNode<Link>> = q[at].0.iter_rc().collect();
            for (k, s) in kids.into_iter().zip(q[at].2.kids.clone()) {
                ns.push(N { val: s.val, parent: Some(me), kids: vec![], held_by: vec![], alive: true });
                let id = ns.len() - 1;
                ns[me].kids.push(id);
                q.push((k, id, s));
            }
            at += 1;
        }
        hs.push(q.into_iter().map(|x| (x.0, x.1)).collect());
    }
    // handles inside items, only from earlier to later trees
    let links = ctx.c.range(1, 8);
    for _ in 0..links {
        let a = ctx.c.below(trees - 1);
        let b = ctx.c.range(a + 1, trees - 1);
        let (x, y) = (ctx.c.below(hs[a].len()), ctx.c.below(hs[b].len()));
        let h = hs[b][y].0.clone();
        op_label(ctx, &format!("the item of {} holds {}", ns[hs[a][x].1].val, ns[hs[b][y].1].val));
        hs[a][x].0.data().held.borrow_mut().push(h);
        let (o, t) = (hs[a][x].1, hs[b][y].1);
        ns[t].held_by.push(o);
    }
    for k in 0..trees { for (h, _) in &hs[k] {
        if ctx.c.coin() { *h.data().me.borrow_mut() = Some(h.downgrade()); }
        if ctx.c.chance(1, 3) { let t = ctx.c.below(trees); let j = ctx.c.below(hs[t].len()); h.data().seen.borrow_mut().push(hs[t][j].0.downgrade()); }
    } }
    let mut ext: Vec<(RcNode<Link>, usize)> = hs.into_iter().flatten().collect();
    let weaks: Vec<(WeakNode<Link>, usize)> = ext.iter().map(|(h, id)| (h.downgrade(), *id)).collect();
    let mut released = 0;
    let mut nested = 0;
    while !ext.is_empty() {
        let k = ctx.c.below(ext.len());
        // some removals too
        if ctx.c.chance(1, 5) {
            let id = ext[k].1;
            if let Some(p) = ns[id].parent { op_label(ctx, &format!("detach {}", ns[id].val)); ext[k].0.detach(); ns[p].kids.retain(|x| *x != id); ns[id].parent = None; }
        }
        let (h, id) = ext.swap_remove(k);
        op_label(ctx, &format!("drop the outside handle of {}", ns[id].val));
        let before = released;
        drop(h);
        // settle the model
        loop {
            let dead: Vec<usize> = (0..ns.len()).filter(|&i| ns[i].alive && ns[i].parent.is_none() && ns[i].held_by.is_empty() && !ext.iter().any(|e| e.1 == i)).collect();
            if dead.is_empty() { break; }
            for d in dead {
                ns[d].alive = false;
                released += 1;
                for c in std::mem::take(&mut ns[d].kids) { ns[c].parent = None; }
                for n in ns.iter_mut() { if n.held_by.contains(&d) { n.held_by.retain(|x| *x != d); } }
            }
        }
        if released > before + 1 { nested += 1; }
        ensure_eq!(payload::live(), ns.iter().filter(|n| n.alive).count() as i64, "items alive after dropping the handle of {}", ns[id].val);
        for (w, i) in &weaks {
            let u = w.upgrade();
            ensure!(u.is_some() == ns[*i].alive, "weak handle of {}: upgrades {}, node alive {}", ns[*i].val, u.is_some(), ns[*i].alive);
            if let Some(h) = u { ensure_eq!(h.data().item.v(), ns[*i].val, "upgraded node"); ensure_eq!(h.is_root(), ns[*i].parent.is_none(), "is_root of {}", ns[*i].val); ensure_eq!(h.degree(), ns[*i].kids.len(), "degree of {}", ns[*i].val); }
        }
    }
    ctx.count("nodes_released", released as u64);
    ctx.count("nested_releases", nested);
    ctx.done(released >= 4);
}

// ---- very many handles of one node ---------------------------------------------------------------------------------

/// Crowds of strong and weak handles of a few nodes, gathered and scattered in bulk; items live exactly while held.
pub fn crowd(ctx: &mut Ctx) {
    let spec = { let mut v = 0; let n = ctx.c.range(1, 6); gen_spec_n(&mut ctx.c, n, &mut |_| { v += 1; v }) };
    let piled = ctx.c.coin();
    op_label(ctx, &format!("share {} {}", spec.text(), if piled { "contiguous" } else { "scattered" }));
    let mut m = Model::default();
    let (t, r) = real_tree::<Item>(&mut m, &spec, if piled { Style::PiledBfs } else { Style::Back }, &mut Choice::seeded(&[1]));
    let total = m.size(r) as i64;
    let root = RcNode::from(t);
    let mut all = vec![root];
    let mut at = 0;
    while at < all.len() { let k: Vec<_> = all[at].iter_rc().collect(); all.extend(k); at += 1; }
    let target = ctx.c.below(all.len());
    let me = all[target].clone();
    let (val, uid) = { let d = me.data(); (d.v(), d.uid()) };
    drop(all.split_off(1));
    let root = all.pop().unwrap();
    let mut strong = vec![me];
    let mut weak: Vec<WeakNode<Item>> = vec![];
    let top = if ctx.small { 300 } else if ctx.thorough { 300_000 } else { 70_000 };
    let amounts = [3usize, 120, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 4100, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000, 140_000, 300_000];
    let amounts: Vec<usize> = amounts.iter().copied().filter(|a| *a <= top).collect();
    let mut root = Some(root);
    let rounds = ctx.c.range(2, 5);
    let mut seen = 0;
    for _ in 0..rounds {
        // many small crowds, few large ones
        let n = { let k = ctx.c.below(amounts.len()); if amounts[k] > 5000 && !ctx.c.chance(1, 6) { amounts[k % 11.min(amounts.len())] } else { amounts[k] } };
        match ctx.c.below(6) {
            0 => { op_label(ctx, &format!("{n} clones of a handle of {val}")); for i in 0..n { let h = strong[i % strong.len()].clone(); strong.push(h); } }
            1 => { op_label(ctx, &format!("{n} weak handles of {val}")); for i in 0..n { weak.push(strong[i % strong.len()].downgrade()); } }
            2 if !weak.is_empty() => { op_label(ctx, &format!("{n} upgrades")); for i in 0..n { match weak[i % weak.len()].upgrade() { Some(h) => strong.push(h), None => fail!("upgrade {i} of a living node failed") } } }
            3 if !weak.is_empty() => { op_label(ctx, &format!("{n} upgrades, dropped at once")); for i in 0..n { ensure!(weak[i % weak.len()].upgrade().is_some(), "upgrade {i} of a living node failed"); } }
            4 => { let k = strong.len() - 1; let k = k.min(n); op_label(ctx, &format!("drop {k} handles of {val}")); let keep = strong.len() - k; strong.truncate(keep); }
            _ => { let k = weak.len().min(n); op_label(ctx, &format!("drop {k} weak handles of {val}")); let keep = weak.len() - k; weak.truncate(keep); }
        }
        ctx.max("max_strong_handles", strong.len() as u64);
        ctx.max("max_weak_handles", weak.len() as u64);
        if ctx.c.chance(1, 4) && root.is_some() { op_label(ctx, "drop the root's handle"); root = None; }
        let h = strong.last().unwrap();
        { let d = h.data(); ensure_eq!((d.v(), d.uid()), (val, uid), "data of the crowded node"); }
        seen += strong.len() + weak.len();
        if root.is_some() { ensure_eq!(payload::live(), total, "items alive while the root is held"); }
        else { ensure_eq!(payload::live(), h.node_count() as i64, "items alive while a node is held"); ensure!(h.is_root(), "the node's parent is gone, yet is_root() is false"); }
    }
    drop(root);
    ensure_eq!(payload::live(), strong[0].node_count() as i64, "items alive while a node is held");
    let last = strong.pop().unwrap();
    let first = strong.len();
    if ctx.c.coin() { while let Some(h) = strong.pop() { drop(h); } } else { drop(strong); }
    { let d = last.data(); ensure_eq!((d.v(), d.uid()), (val, uid), "data of the node with one handle left of {}", first + 1); }
    if let Some(w) = weak.last() { ensure!(w.upgrade().is_some(), "weak handle of a node with one handle left"); }
    drop(last);
    ensure_eq!(payload::live(), 0, "items alive after the last handle went");
    for w in weak.iter().take(3) { ensure!(w.upgrade().is_none(), "a weak handle of a dead node upgraded"); }
    drop(weak);
    ctx.count("handles", seen as u64);
    ctx.done(seen > 200);
}
