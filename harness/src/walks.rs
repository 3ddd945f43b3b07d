//! The DFS cursor against a model cursor (C09, C10).

use crate::bfs::{size_of, world};
use crate::ctx::Ctx;
use crate::model::*;
use crate::owned::*;
use crate::payload::Pay;
use crate::rng::Choice;
use crate::snap::Snap;
use crate::{ensure, ensure_eq, fail};
use trees::walk::Visit;
use trees::{Forest, ForestWalk, Node, Tree, TreeWalk};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Begin, Leaf, End }

/// Where the model cursor is.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum At { Over, On(usize, K), Past(usize) }

pub struct MWalk<'a> { pub s: &'a Snap, pub at: At }
impl<'a> MWalk<'a> {
    pub fn new(s: &'a Snap) -> Self { let mut w = MWalk { s, at: At::Over }; w.restart(); w }
    fn restart(&mut self) { self.at = match self.s.roots.first() { Some(r) => self.fresh(*r), None => At::Over } }
    fn fresh(&self, n: usize) -> At { At::On(n, if self.s.n[n].kids.is_empty() { K::Leaf } else { K::Begin }) }
    fn sibs(&self, n: usize) -> &Vec<usize> { match self.s.n[n].up { Some(p) => &self.s.n[p].kids, None => &self.s.roots } }
    fn sib(&self, n: usize, k: usize) -> Option<usize> { let v = self.sibs(n); let i = v.iter().position(|x| *x == n).unwrap(); v.get(i.checked_add(k)?).copied() }
    pub fn forward(&mut self) {
        self.at = match self.at {
            At::Over => At::Over,
            At::On(n, K::Begin) => self.fresh(self.s.n[n].kids[0]),
            At::On(n, _) => match (self.sib(n, 1), self.s.n[n].up) {
                (Some(x), _) => self.fresh(x),
                (None, Some(p)) => At::On(p, K::End),
                (None, None) => At::Over,
            },
            At::Past(p) => At::On(p, K::End),
        }
    }
    pub fn visit(&self) -> Option<(usize, K)> { match self.at { At::On(n, k) => Some((n, k)), _ => None } }
    pub fn parent(&self) -> Option<usize> { match self.at { At::On(n, _) => self.s.n[n].up, At::Past(p) => Some(p), At::Over => None } }
    pub fn to_parent(&mut self) -> Option<(usize, K)> {
        self.at = match self.parent() { Some(p) => At::On(p, K::End), None => At::Over };
        self.visit()
    }
    pub fn to_sib(&mut self, k: usize) -> Option<(usize, K)> {
        let At::On(n, _) = self.at else { return None };
        self.at = match (self.sib(n, k), self.s.n[n].up) { (Some(x), _) => self.fresh(x), (None, Some(p)) => At::Past(p), (None, None) => At::Over };
        self.visit()
    }
    pub fn to_child(&mut self, k: usize) -> Option<(usize, K)> {
        let At::On(n, _) = self.at else { return None };
        let kids = &self.s.n[n].kids;
        if kids.is_empty() { return None; }
        self.at = match kids.get(k) { Some(x) => self.fresh(*x), None => At::Past(n) };
        self.visit()
    }
    pub fn revisit(&mut self) {
        match self.at { At::Over => self.restart(), At::On(n, K::End) => self.at = At::On(n, K::Begin), _ => () }
    }
}

pub enum RWalk<P: 'static> { T(TreeWalk<P>), F(ForestWalk<P>) }
macro_rules! both { ($s:expr, $w:ident => $e:expr) => { match $s { RWalk::T($w) => $e, RWalk::F($w) => $e } } }
impl<P: Pay> RWalk<P> {
    pub fn make(o: Obj<P>) -> (RWalk<P>, Snap) {
        match o {
            Obj::Tree(t) => { let s = Snap::of_node(t.root()); (RWalk::T(TreeWalk::from(t)), s) }
            Obj::Forest(f) => { let s = Snap::of_forest(&f); (RWalk::F(ForestWalk::from(f)), s) }
        }
    }
    pub fn back(self) -> Obj<P> { match self { RWalk::T(w) => Obj::Tree(Tree::from(w)), RWalk::F(w) => Obj::Forest(Forest::from(w)) } }
    pub fn get(&self) -> Option<Visit<'_, P>> { both!(self, w => w.get()) }
    pub fn get_parent(&self) -> Option<&Node<P>> { both!(self, w => w.get_parent()) }
    pub fn forward(&mut self) { both!(self, w => w.forward()) }
    pub fn next(&mut self) -> Option<Visit<'_, P>> { both!(self, w => w.next()) }
    pub fn to_parent(&mut self) -> Option<Visit<'_, P>> { both!(self, w => w.to_parent()) }
    pub fn to_child(&mut self, n: usize) -> Option<Visit<'_, P>> { both!(self, w => w.to_child(n)) }
    pub fn to_sib(&mut self, n: usize) -> Option<Visit<'_, P>> { both!(self, w => w.to_sib(n)) }
    pub fn revisit(&mut self) { both!(self, w => w.revisit()) }
}

fn is_node<P: Pay>(n: &Node<P>, s: &Snap, id: usize) -> bool {
    if std::mem::size_of::<P>() == 0 { return n.degree() == s.n[id].kids.len() && n.node_count() == s.n[id].desc + 1; }
    n.data() as *const P as usize == s.n[id].addr && n.data().uid() == s.n[id].uid && n.degree() == s.n[id].kids.len()
}

fn judge_visit<P: Pay>(what: &str, got: Option<Visit<'_, P>>, want: Option<(usize, K)>, s: &Snap) {
    let show = |v: &Option<Visit<'_, P>>| match v { None => "None".into(), Some(Visit::Begin(n)) => format!("Begin({})", n.data()), Some(Visit::Leaf(n)) => format!("Leaf({})", n.data()), Some(Visit::End(n)) => format!("End({})", n.data()) };
    let ok = match (&got, want) {
        (None, None) => true,
        (Some(v), Some((n, k))) => is_node(v.node(), s, n) && match v { Visit::Begin(x) => k == K::Begin && is_node(x, s, n), Visit::Leaf(x) => k == K::Leaf && is_node(x, s, n), Visit::End(x) => k == K::End && is_node(x, s, n) },
        _ => false,
    };
    if !ok { fail!("{what} gives {}, expected {} in {}", show(&got), match want { None => "None".into(), Some((n, k)) => format!("{k:?}({})", s.n[n].val) }, s.text()) }
}
fn judge_at<P: Pay>(what: &str, w: &RWalk<P>, m: &MWalk) {
    judge_visit(&format!("{what}: get()"), w.get(), m.visit(), m.s);
    match (w.get_parent(), m.parent()) {
        (None, None) => (),
        (Some(n), Some(p)) => ensure!(is_node(n, m.s, p), "{what}: get_parent() is {}, expected {} in {}", n.data(), m.s.n[p].val, m.s.text()),
        (a, b) => fail!("{what}: get_parent() is {}, expected {} in {}", a.map_or("None".into(), |n| n.data().to_string()), b.map_or("None".into(), |n| m.s.n[n].val.to_string()), m.s.text()),
    }
}

fn judge_back<P: Pay>(what: &str, w: RWalk<P>, s: &Snap) -> Obj<P> {
    let o = w.back();
    let now = match &o {
        Obj::Tree(t) => { counts_ok(t.root(), None, what, 1 << 30); Snap::of_node(t.root()) }
        Obj::Forest(f) => { counts_ok_forest(f, what, 1 << 30); Snap::of_forest(f) }
    };
    if let Err(e) = now.same(s, true) { fail!("{what}: the walk turned back into {} instead of {}: {e}", now.text(), s.text()) }
    o
}

/// The plain tour from a fresh walk.
pub fn tour<P: Pay>(ctx: &mut Ctx, o: Obj<P>, stop: Option<usize>, mode: &mut dyn FnMut() -> usize) -> Obj<P> {
    let (mut w, s) = RWalk::make(o);
    let mut m = MWalk::new(&s);
    let mut steps = 0;
    let limit = 2 * s.total() + 2;
    judge_at("fresh walk", &w, &m);
    while m.at != At::Over {
        if stop == Some(steps) { return judge_back("walk left half-way", w, &s); }
        m.forward();
        if mode() == 0 { w.forward(); } else { let v = w.next(); judge_visit("next()", v, m.visit(), &s); }
        judge_at("tour", &w, &m);
        steps += 1;
        ensure!(steps <= limit, "the tour does not end");
    }
    ctx.count("tour_steps", steps as u64);
    for k in 0..3 {
        if k == 1 { w.forward(); } else { let v = w.next(); judge_visit("next() after the end", v, None, &s); }
        judge_at("after the end", &w, &m);
    }
    judge_back("walk over", w, &s)
}

fn nontrivial(s: &Snap) -> bool { s.total() >= 4 && s.n.iter().any(|n| n.kids.len() >= 2) && s.n.iter().any(|n| n.up.map_or(false, |p| s.n[p].up.is_some())) }

pub fn tours<P: Pay>(ctx: &mut Ctx) {
    let max = size_of(ctx);
    let len = ctx.c.below(8);
    let mut w = world::<P>(ctx, max, len);
    let mut nt = false;
    while let Some(sl) = w.slots.pop() {
        op_label(ctx, &format!("tour of {}", w.text(sl.m)));
        let mut c = Choice::seeded(&[ctx.c.raw()]);
        let o = tour(ctx, sl.obj, None, &mut || c.below(2));
        let (r, s) = RWalk::make(o);
        nt |= nontrivial(&s);
        let k = ctx.c.below(2 * s.total() + 2);
        let o = tour(ctx, r.back(), Some(k), &mut || c.below(2));
        // still editable
        match o {
            Obj::Tree(mut t) => { let d = t.degree(); t.push_back(Tree::new(P::mk(5))); t.push_front(Tree::new(P::mk(6))); ensure_eq!(t.degree(), d + 2, "edit after a walk"); counts_ok(t.root(), None, "edit after a walk", 1 << 30); }
            Obj::Forest(mut f) => { let d = f.degree(); f.push_back(Tree::new(P::mk(5))); f.push_front(Tree::new(P::mk(6))); ensure_eq!(f.degree(), d + 2, "edit after a walk"); counts_ok_forest(&f, "edit after a walk", 1 << 30); }
        }
    }
    ctx.done(nt);
}

/// Every shape of n nodes as tree and as forest, both storages, every stopping point.
pub fn tours_exhaustive<P: Pay>(ctx: &mut Ctx, max: usize) {
    let n = 1 + ctx.case as usize % max;
    for (k, shape) in all_shapes(n).into_iter().enumerate() {
        crate::ctx::SUB.store(k as u64, std::sync::atomic::Ordering::Relaxed);
        for style in [Style::Back, Style::PiledBfs] { for forest in [false, true] {
            let mut m = Model::default();
            let mut i = 0;
            let mut shape = shape.clone();
            shape.relabel(&mut || { i += 1; i });
            let mut sub = Choice::seeded(&[k as u64]);
            ctx.op(|| format!("tours of {} {} [{style:?}], stopped after every number of steps", if forest { "the forest under" } else { "tree" }, shape.text()));
            let mut obj = if forest { Obj::Forest(real_forest::<P>(&mut m, &shape.kids, style, &mut sub).0) } else { Obj::Tree(real_tree::<P>(&mut m, &shape, style, &mut sub).0) };
            for stop in 0..2 * n { let mut f = stop; obj = tour(ctx, obj, Some(stop), &mut || { f += 1; f % 2 }); }
            let mut f = 0;
            obj = tour(ctx, obj, None, &mut || { f += 1; f % 2 });
            drop(obj);
            ctx.sig_str(&shape.shape());
            ctx.sig(style as u64 * 2 + forest as u64);
            ctx.done(n >= 3);
        } }
    }
}

pub const NOPS: usize = 9;
/// One cursor call on both cursors, results compared.
fn call<P: Pay>(w: &mut RWalk<P>, m: &mut MWalk, op: usize, arg: usize) -> String {
    let s = m.s;
    let name;
    match op {
        0 => { name = "forward()".to_string(); m.forward(); w.forward(); }
        1 => { name = "next()".to_string(); m.forward(); let v = w.next(); judge_visit("next()", v, m.visit(), s); }
        2 => { name = "to_parent()".to_string(); let x = m.to_parent(); let v = w.to_parent(); judge_visit("to_parent()", v, x, s); }
        3 => { name = format!("to_child({arg})"); let x = m.to_child(arg); let v = w.to_child(arg); judge_visit(&name, v, x, s); }
        4 => { name = format!("to_sib({arg})"); let x = m.to_sib(arg); let v = w.to_sib(arg); judge_visit(&name, v, x, s); }
        5 => { name = "revisit()".to_string(); m.revisit(); w.revisit(); }
        _ => unreachable!(),
    }
    judge_at(&format!("after {name}"), w, m);
    name
}

fn finish<P: Pay>(mut w: RWalk<P>, mut m: MWalk, s: &Snap) -> Obj<P> {
    let mut n = 0;
    let limit = 2 * s.total() + 2;
    while m.at != At::Over {
        m.forward();
        w.forward();
        judge_at("rest of the tour", &w, &m);
        n += 1;
        ensure!(n <= limit, "the tour does not end");
    }
    w.revisit();
    m.revisit();
    judge_at("revisit after the end", &w, &m);
    judge_back("walk after jumps", w, s)
}

pub fn jumps<P: Pay>(ctx: &mut Ctx) {
    let max = if ctx.small { 7 } else { ctx.scale(25, 900, 150) };
    let len = ctx.c.below(5);
    let mut w = world::<P>(ctx, max, len);
    let mut nt = false;
    while let Some(sl) = w.slots.pop() {
        op_label(ctx, &format!("cursor on {}", w.text(sl.m)));
        let (mut r, s) = RWalk::make(sl.obj);
        let mut m = MWalk::new(&s);
        judge_at("fresh walk", &r, &m);
        let calls = ctx.c.range(3, if ctx.small { 15 } else { 60 });
        let calls = ctx.scale(calls, 4000, 250);
        let (mut jumps, mut missed) = (0, 0);
        for _ in 0..calls {
            let op = *ctx.c.pick(&[0, 0, 0, 1, 2, 3, 3, 3, 4, 4, 4, 5, 5]);
            let arg = *ctx.c.pick(&[0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 7, 30]);
            let name = call(&mut r, &mut m, op, arg);
            ctx.sig(op as u64 * 100 + arg as u64);
            ctx.op(|| name.clone());
            if op >= 2 { jumps += 1; if m.visit().is_none() { missed += 1; } }
        }
        ctx.count("cursor_calls", calls as u64);
        ctx.count("jumps", jumps);
        ctx.count("jumps_to_nowhere", missed);
        nt |= nontrivial(&s) && jumps >= 3;
        drop(finish(r, m, &s));
    }
    ctx.done(nt);
}

/// Every sequence of `len` cursor calls on every tree and forest of up to `max` nodes.
pub fn jumps_exhaustive<P: Pay>(ctx: &mut Ctx, max: usize, len: usize) {
    const CALLS: [(usize, usize); 10] = [(0, 0), (1, 0), (2, 0), (5, 0), (3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (4, 2)];
    let n = 1 + ctx.case as usize % max;
    let total = CALLS.len().pow(len as u32);
    for (k, shape) in all_shapes(n).into_iter().enumerate() {
        for (style, forest) in [(Style::Back, false), (Style::PiledBfs, true)] {
            let mut m = Model::default();
            let mut i = 0;
            let mut shape = shape.clone();
            shape.relabel(&mut || { i += 1; i });
            let mut sub = Choice::seeded(&[k as u64]);
            let mut obj = if forest { Obj::Forest(real_forest::<P>(&mut m, &shape.kids, style, &mut sub).0) } else { Obj::Tree(real_tree::<P>(&mut m, &shape, style, &mut sub).0) };
            for code in 0..total {
                if ctx.tracing() { op_label(ctx, &format!("cursor calls {code} on {} {shape:?}", if forest { "the forest under" } else { "tree" }, shape = shape.text())); }
                crate::ctx::SUB.store((k * total + code) as u64, std::sync::atomic::Ordering::Relaxed);
                let (mut w, s) = RWalk::make(obj);
                let mut mw = MWalk::new(&s);
                let mut c = code;
                for _ in 0..len { let (op, arg) = CALLS[c % CALLS.len()]; c /= CALLS.len(); call(&mut w, &mut mw, op, arg); }
                obj = finish(w, mw, &s);
                ctx.count("cursor_calls", len as u64);
                ctx.sig_str(&shape.shape());
                ctx.sig(code as u64 * 2 + forest as u64);
                ctx.done(n >= 2);
            }
            drop(obj);
        }
    }
}
