//! Dynamic borrows of shared nodes (C19).

use crate::ctx::{catch, Ctx};
use crate::model::*;
use crate::owned::hash_of;
use crate::payload::Pay;
use crate::rng::Choice;
use crate::shared::{RcWorld, EDITS, LIFE};
use crate::{ensure, ensure_eq, fail};
use std::cell::{Ref, RefMut};
use std::mem::transmute;
use trees::{Node, RcNode};

enum G<P: 'static> { R(Ref<'static, P>), M(RefMut<'static, P>), NR(Ref<'static, Node<P>>), NM(RefMut<'static, Node<P>>) }
impl<P: Pay> G<P> {
    fn exclusive(&self) -> bool { matches!(self, G::M(_) | G::NM(_)) }
    fn data(&self) -> &P { match self { G::R(r) => r, G::M(r) => r, G::NR(r) => r.data(), G::NM(r) => r.data() } }
}
struct Guard<P: 'static> { g: G<P>, _h: Box<RcNode<P>>, id: usize }

const KINDS: [&str; 4] = ["data()", "data_mut()", "node()", "node_mut()"];
fn take<P: Pay>(h: &RcNode<P>, id: usize, kind: usize) -> Guard<P> {
    let b = Box::new(h.clone());
    let r: &'static RcNode<P> = unsafe { transmute(&*b) };
    let g = match kind { 0 => G::R(r.data()), 1 => G::M(r.data_mut()), 2 => G::NR(unsafe { r.node() }), _ => G::NM(unsafe { r.node_mut() }) };
    Guard { g, _h: b, id }
}

const OPS: [&str; 28] = ["data", "degree", "has_no_child", "node_count", "front", "back", "iter_rc", "to_string", "hash", "deep_clone", "eq with a copy", "cmp with a copy",
    "parent", "clone, downgrade, upgrade", "data_mut", "push_front", "push_back", "pop_front", "pop_back", "append", "prepend", "extend", "insert_prev_sib", "insert_next_sib", "detach",
    "debug", "copy eq", "copy cmp"];

struct Round<P: 'static> { guards: Vec<Guard<P>>, refused: u64, allowed: u64, edited: bool }

impl<P: Pay> Round<P> {
    fn any(&self, id: usize) -> bool { self.guards.iter().any(|g| g.id == id) }
    fn excl(&self, id: usize) -> bool { self.guards.iter().any(|g| g.id == id && g.g.exclusive()) }

    /// One operation on handle `i`; judged. False: not applicable here.
    fn apply(&mut self, w: &mut RcWorld<P>, ctx: &mut Ctx, op: usize, i: usize, copy: Option<&(RcNode<P>, usize)>) -> bool {
        let id = w.h[i].1;
        let up = w.m.n[id].up;
        let kids = w.m.n[id].kids.clone();
        let below = w.m.preorder(&[id]).iter().any(|n| self.excl(*n));
        let conflict = match op {
            0..=6 => self.excl(id),
            7..=9 | 25 => below,
            10 | 11 | 26 | 27 => { if self.edited || copy.map_or(true, |c| c.1 != id) { return false; } below }
            12 => { if self.excl(id) { return false; } false } // what a root is, and who the parent is, is not data
            13 => false,
            22..=24 => { match up { Par::Node(p) if !self.any(p) => (), _ => return false } self.any(id) }
            _ => self.any(id),
        };
        op_label(ctx, &format!("{} on h{i} ({}): must {}", OPS[op], w.m.n[id].val, if conflict { "be refused" } else { "work" }));
        let h = w.h[i].0.clone();
        let what = format!("{} on {} while {} is borrowed", OPS[op], w.m.n[id].val, self.guards.iter().map(|g| format!("{}{}", w.m.n[g.id].val, if g.g.exclusive() { " mutably" } else { "" })).collect::<Vec<_>>().join(", "));
        let verdict = |r: &Result<(), String>| match (r, conflict) {
            (Ok(()), true) => fail!("{what}: not refused"),
            (Err(e), false) => fail!("{what}: refused ({e}), although the borrows do not conflict"),
            _ => (),
        };
        let m = &w.m;
        match op {
            0 => verdict(&catch(|| same_item(&*h.data(), m, id, &what))),
            1 => verdict(&catch(|| ensure_eq!(h.degree(), kids.len(), "{what}"))),
            2 => verdict(&catch(|| ensure_eq!(h.has_no_child(), kids.is_empty(), "{what}"))),
            3 => verdict(&catch(|| ensure_eq!(h.node_count(), m.size(id), "{what}"))),
            4 | 5 => {
                let want = if op == 4 { kids.first() } else { kids.last() }.copied();
                let mut got = None;
                verdict(&catch(|| got = if op == 4 { h.front() } else { h.back() }));
                if !conflict {
                    ensure_eq!(got.is_some(), want.is_some(), "{what}");
                    if let (Some(g), Some(x)) = (got, want) { if !self.excl(x) { same_item(&*g.data(), m, x, &what); } }
                }
            }
            6 => {
                let mut got = vec![];
                verdict(&catch(|| got = h.iter_rc().collect()));
                if !conflict {
                    ensure_eq!(got.len(), kids.len(), "{what}");
                    for (g, x) in got.iter().zip(&kids) { if !self.excl(*x) { same_item(&*g.data(), m, *x, &what); } }
                }
            }
            7 => verdict(&catch(|| { let s = h.to_string(); if P::VALUES { ensure_eq!(s, m.text(id), "{what}") } })),
            25 => verdict(&catch(|| { let s = format!("{h:?}"); ensure!(!s.is_empty(), "{what}") })),
            8 => verdict(&catch(|| { hash_of(&h); })),
            9 => verdict(&catch(|| { let t = h.deep_clone(); let s = t.to_string(); if P::VALUES { ensure_eq!(s, m.text(id), "{what}") } })),
            10 => verdict(&catch(|| ensure!(h == copy.unwrap().0, "{what}: unequal to its copy"))),
            26 => verdict(&catch(|| ensure!(copy.unwrap().0 == h, "{what}: unequal to its copy"))),
            11 => verdict(&catch(|| ensure!(h.cmp(&copy.unwrap().0).is_eq(), "{what}: differs from its copy"))),
            27 => verdict(&catch(|| ensure!(copy.unwrap().0.cmp(&h).is_eq(), "{what}: differs from its copy"))),
            12 => {
                let mut p = None;
                verdict(&catch(|| { p = h.parent(); ensure_eq!(h.is_root(), up == Par::None, "{what}: is_root") }));
                match (p, up) { (None, Par::None) => (), (Some(p), Par::Node(x)) => if !self.excl(x) { same_item(&*p.data(), m, x, &what) }, _ => fail!("{what}: wrong parent") }
            }
            13 => {
                let mut g = None;
                verdict(&catch(|| { let x = h.clone(); let wk = x.downgrade(); drop(x); g = wk.upgrade(); }));
                ensure!(g.is_some(), "{what}: upgrade");
            }
            14 => {
                let nv = m.n[id].val + if P::VALUES { 100_000 } else { 0 };
                verdict(&catch(|| { let mut d = h.data_mut(); same_item(&*d, m, id, &what); d.setv(nv); }));
                if !conflict { w.m.n[id].val = nv; self.edited = true; }
            }
            15 | 16 | 21 | 22 | 23 => {
                let (t, r, _) = w.tree(ctx, 3);
                let at = match up { Par::Node(_) if op >= 22 => w.m.index_in_parent(id), _ => 0 };
                verdict(&catch(|| match op {
                    15 => h.push_front(t), 16 => h.push_back(t), 21 => h.clone().extend(vec![t]),
                    22 => h.insert_prev_sib(t), _ => h.insert_next_sib(t),
                }));
                if conflict { w.discard(r); } else {
                    let (p, at) = match op { 15 => (Par::Node(id), 0), 16 | 21 => (Par::Node(id), kids.len()), 22 => (up, at), _ => (up, at + 1) };
                    w.m.attach(p, at, r);
                    self.edited = true;
                }
            }
            17 | 18 => {
                let want = if op == 17 { kids.first() } else { kids.last() }.copied();
                let mut got = None;
                verdict(&catch(|| got = if op == 17 { h.pop_front() } else { h.pop_back() }));
                if !conflict {
                    ensure_eq!(got.is_some(), want.is_some(), "{what}");
                    if let (Some(g), Some(x)) = (got, want) { w.m.remove(x); w.h.push((g, x)); self.edited = true; }
                }
            }
            19 | 20 => {
                let (f, fid, _) = w.forest(ctx);
                verdict(&catch(|| if op == 19 { h.append(f) } else { h.prepend(f) }));
                if conflict { for k in w.m.f[fid].clone() { w.m.remove(k); w.discard(k); } } else { w.m.splice(Par::Node(id), fid, op == 20); self.edited = true; }
            }
            _ => {
                verdict(&catch(|| h.detach()));
                if !conflict { w.m.remove(id); self.edited = true; }
            }
        }
        if conflict { self.refused += 1 } else { self.allowed += 1 }
        // the borrows still hold, and show what they showed
        for g in &self.guards {
            let d = g.g.data();
            ensure!(d.uid() == w.m.n[g.id].uid && (!P::VALUES || d.v() == w.m.n[g.id].val), "{what}: the existing borrow of {} shows {} afterwards", w.m.n[g.id].val, d.v());
            if let G::NR(n) = &g.g { ensure_eq!(n.degree(), w.m.n[g.id].kids.len(), "{what}: degree through the existing borrow"); }
        }
        true
    }
    /// Writes through the exclusive borrows, gives everything back.
    fn release(&mut self, w: &mut RcWorld<P>, ctx: &mut Ctx) {
        for g in self.guards.drain(..) {
            op_label(ctx, &format!("release the borrow of {}", w.m.n[g.id].val));
            let nv = w.m.n[g.id].val + if P::VALUES { 1000 } else { 0 };
            match g { Guard { g: G::M(mut r), _h, id } => { r.setv(nv); w.m.n[id].val = nv; drop(r); } Guard { g: G::NM(mut r), _h, id } => { r.data_mut().setv(nv); w.m.n[id].val = nv; drop(r); } g => drop(g) }
        }
    }
}

fn usable_again<P: Pay>(w: &mut RcWorld<P>, touched: &[usize]) {
    w.judge("after the borrows were released");
    for (h, id) in &w.h { if touched.contains(id) {
        match catch(|| { let mut d = h.data_mut(); let v = d.v(); d.setv(v); }) { Ok(()) => (), Err(e) => fail!("data_mut of {} after all borrows were released: {e}", w.m.n[*id].val) }
    } }
}

pub fn random<P: Pay>(ctx: &mut Ctx) {
    let mut w = RcWorld::<P>::new(EDITS | LIFE);
    w.max_nodes = if ctx.small { 12 } else { 40 };
    for _ in 0..ctx.c.range(1, 2) { w.add(ctx, if ctx.small { 5 } else { 12 }); }
    let (mut refused, mut allowed) = (0, 0);
    for _ in 0..if ctx.small { 2 } else { ctx.c.range(3, 8) } {
        // more handles, other shapes
        for _ in 0..ctx.c.range(1, 6) { w.step(ctx); }
        while w.h.len() > 14 { let k = ctx.c.below(w.h.len()); w.drop_handle(k); }
        if w.h.is_empty() { w.add(ctx, 8); }
        for _ in 0..ctx.c.range(0, 4) { // go down, so that inner nodes are held
            let i = ctx.c.below(w.h.len());
            let id = w.h[i].1;
            let kids = w.m.n[id].kids.clone();
            if kids.is_empty() { continue; }
            let k = ctx.c.below(kids.len());
            let g = w.h[i].0.iter_rc().nth(k).unwrap();
            w.h.push((g, kids[k]));
        }
        w.judge("before borrowing");
        let ci = ctx.c.below(w.h.len());
        let copy = { let (h, id) = &w.h[ci]; (RcNode::from(h.deep_clone()), *id) };
        let mut r = Round { guards: vec![], refused: 0, allowed: 0, edited: false };
        let mut touched = vec![];
        for _ in 0..ctx.c.range(1, 4) {
            let i = ctx.c.below(w.h.len());
            let id = w.h[i].1;
            let kind = ctx.c.below(4);
            if r.excl(id) || (kind % 2 == 1 && r.any(id)) { continue; }
            op_label(ctx, &format!("borrow {} by {}", w.m.n[id].val, KINDS[kind]));
            match catch(|| take(&w.h[i].0, id, kind)) { Ok(g) => r.guards.push(g), Err(e) => fail!("{} of {}: refused ({e}), although no other borrow conflicts", KINDS[kind], w.m.n[id].val) }
            touched.push(id);
        }
        let n = w.h.len();
        for _ in 0..ctx.c.range(2, 10) {
            let op = ctx.c.below(OPS.len());
            // half of the time at a borrowed node or above one
            let mut i = ctx.c.below(n);
            if ctx.c.coin() { let t = *ctx.c.pick(&touched); if let Some(k) = w.h.iter().position(|x| x.1 == t) { i = k; } }
            if (10..=11).contains(&op) || op >= 26 { i = ci; }
            r.apply(&mut w, ctx, op, i, Some(&copy));
        }
        let uids = copy.0;
        r.release(&mut w, ctx);
        drop(uids);
        usable_again(&mut w, &touched);
        refused += r.refused;
        allowed += r.allowed;
    }
    w.dismantle(ctx);
    ctx.count("refused", refused);
    ctx.count("allowed", allowed);
    ctx.done(refused >= 1 && allowed >= 1);
}

/// Every operation at every node against every borrow of every node, in both storages.
pub fn table(ctx: &mut Ctx) {
    let piled = ctx.case % 2 == 1;
    let kind = (ctx.case / 2 % 5) as usize; // 4: two shared borrows
    let l = |v| Spec { val: v, kids: vec![] };
    let spec = Spec { val: 1, kids: vec![Spec { val: 2, kids: vec![l(3), l(4)] }, l(5)] };
    let case = ctx.case;
    for at in 0..5 { for op in 0..OPS.len() { for on in 0..5 {
        crate::payload::reset();
        ctx.start(case, Choice::seeded(&[3]));
        ctx.sig((at * 1000 + op * 10 + on) as u64 + case * 100_000);
        let mut w = RcWorld::<crate::payload::Item>::new(EDITS | LIFE);
        let mut sub = Choice::seeded(&[1]);
        let (t, root) = real_tree(&mut w.m, &spec, if piled { Style::PiledBfs } else { Style::Back }, &mut sub);
        w.sync();
        op_label(ctx, &format!("share {} {}", spec.text(), if piled { "contiguous" } else { "scattered" }));
        w.h.push((RcNode::from(t), root));
        let mut q = 0;
        while q < w.h.len() { let kids = w.m.n[w.h[q].1].kids.clone(); let g: Vec<_> = w.h[q].0.iter_rc().zip(kids).collect(); w.h.extend(g); q += 1; }
        let copy = (RcNode::from(w.h[on].0.deep_clone()), w.h[on].1);
        let mut r = Round { guards: vec![], refused: 0, allowed: 0, edited: false };
        let id = w.h[at].1;
        for k in if kind == 4 { vec![0, 2] } else { vec![kind] } { op_label(ctx, &format!("borrow {} by {}", w.m.n[id].val, KINDS[k])); r.guards.push(take(&w.h[at].0, id, k)); }
        // the copies of data count as items too
        let applied = { let c = copy; let ok = r.apply(&mut w, ctx, op, on, Some(&c)); drop(c); ok };
        r.release(&mut w, ctx);
        usable_again(&mut w, &[id]);
        w.dismantle(ctx);
        ctx.count("refused", r.refused);
        ctx.count("allowed", r.allowed);
        if applied { ctx.done(true); }
    } } }
}
