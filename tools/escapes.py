"""Safe programs that hold on to a borrowed view of a tree past what it views, or send what must not be sent.

The compiler has to refuse every one of them. One that compiles is run under Miri, which decides (C04, C20).
"""
PRE = """#![allow(unused)]
use trees::{*, bfs::*};
fn t() -> Tree<Box<i32>> { let mut t = Tree::new(Box::new(1)); let mut k = Tree::new(Box::new(2)); k.push_back(Tree::new(Box::new(4))); t.push_back(k); t.push_back(Tree::new(Box::new(3))); t }
fn f() -> Forest<Box<i32>> { let mut f = Forest::new(); f.push_back(t()); f.push_back(t()); f }
fn u(x: &i32) { std::hint::black_box(*x); }
fn main() {
%s
}
"""
# name: body
MEMORY = {
 "root": "let r; { let t = t(); r = t.root(); } u(r.data());",
 "root_mut": "let mut r; { let mut t = t(); r = t.root_mut(); } u(r.data());",
 "root-then-pop": "let mut t = t(); let c = t.root().front().unwrap(); drop(t.pop_front()); u(c.data());",
 "root-then-push": "let mut t = t(); let c = t.root(); t.push_back(Tree::new(Box::new(9))); u(c.data());",
 "data": "let d; { let t = t(); d = t.data(); } u(d);",
 "data_mut-twice": "let mut t = t(); let mut r = t.root_mut(); let a = r.data_mut(); let b = t.root_mut(); *a = Box::new(7); u(b.data());",
 "data-then-assign": "let mut t = t(); let d: &i32 = &**t.root().data(); *t.root_mut().data_mut() = Box::new(8); u(d);",
 "iter": "let mut i; { let t = t(); i = t.iter(); } u(i.next().unwrap().data());",
 "iter-item": "let c; { let t = t(); c = t.iter().next().unwrap(); } u(c.data());",
 "iter-then-detach": "let mut t = t(); let mut i = t.iter(); i.next(); drop(t.pop_back()); u(i.next().unwrap().data());",
 "iter_mut": "let mut i; { let mut t = t(); i = t.iter_mut(); } u(i.next().unwrap().data());",
 "iter_mut-item": "let c; { let mut t = t(); c = t.iter_mut().next().unwrap(); } u(c.data());",
 "iter_mut-pop": "let mut t = t(); let mut i = t.iter_mut(); i.next(); drop(t.pop_back()); u(i.next().unwrap().data());",
 "iter_mut-twice": "let mut t = t(); let a = t.iter_mut().next().unwrap(); let mut b = t.iter_mut().next().unwrap(); drop(b.detach()); u(a.data());",
 "node-iter_mut": "let c; { let mut t = t(); let mut r = t.root_mut(); c = r.iter_mut().next().unwrap(); drop(t); } u(c.data());",
 "front": "let c; { let t = t(); c = t.front().unwrap(); } u(c.data());",
 "back": "let c; { let t = t(); c = t.back().unwrap(); } u(c.data());",
 "front_mut": "let c; { let mut t = t(); c = t.front_mut().unwrap(); } u(c.data());",
 "front_mut-pop": "let mut t = t(); let c = t.front_mut().unwrap(); drop(t.pop_front()); u(c.data());",
 "back_mut-pop": "let mut t = t(); let c = t.back_mut().unwrap(); drop(t.pop_back()); u(c.data());",
 "node-front_mut": "let mut t = t(); let mut r = t.root_mut(); let c = r.front_mut().unwrap(); drop(r.pop_front()); u(c.data());",
 "node-back_mut": "let mut t = t(); let mut r = t.root_mut(); let c = r.back_mut().unwrap(); drop(r.pop_back()); u(c.data());",
 "parent": "let p; { let t = t(); p = t.front().unwrap().parent().unwrap(); } u(p.data());",
 "parent-of-mut": "let mut t = t(); let mut c = t.front_mut().unwrap(); let p = c.parent().unwrap(); let q = p.front().unwrap(); drop(c.detach()); u(q.data());",
 "moved": "let t = t(); let r = t.root(); drop(t); u(r.data());",
 "into_iter-moved": "let t = t(); let c = t.front().unwrap(); for x in t.into_iter() { drop(x) } u(c.data());",
 "pushed": "let mut a = t(); let b = t(); let r = b.root(); a.push_back(b); drop(a); u(r.data());",
 "abandon": "let mut t = t(); let c = t.front().unwrap(); drop(t.abandon()); u(c.data());",
 "forest-iter": "let mut i; { let f = f(); i = f.iter(); } u(i.next().unwrap().data());",
 "forest-iter_mut": "let mut i; { let mut f = f(); i = f.iter_mut(); } u(i.next().unwrap().data());",
 "forest-iter_mut-pop": "let mut f = f(); let mut i = f.iter_mut(); let c = i.next().unwrap(); drop(f.pop_front()); u(c.data());",
 "forest-front": "let c; { let f = f(); c = f.front().unwrap(); } u(c.data());",
 "forest-back": "let c; { let f = f(); c = f.back().unwrap(); } u(c.data());",
 "forest-front_mut": "let mut f = f(); let c = f.front_mut().unwrap(); drop(f.pop_front()); u(c.data());",
 "forest-back_mut": "let mut f = f(); let c = f.back_mut().unwrap(); drop(f.pop_back()); u(c.data());",
 "bfs": "let mut b; { let t = t(); b = t.bfs().iter; } u(b.next().unwrap().data);",
 "bfs-item": "let v; { let t = t(); v = t.bfs().iter.next().unwrap(); } u(v.data);",
 "bfs_children": "let mut b; { let t = t(); b = t.bfs_children().iter; } u(b.next().unwrap().data);",
 "bfs-then-pop": "let mut t = t(); let mut b = t.bfs().iter; b.next(); drop(t.pop_front()); u(b.next().unwrap().data);",
 "bfs_mut": "let mut b; { let mut t = t(); b = t.bfs_mut().iter; } u(b.next().unwrap().data);",
 "bfs_mut-then-pop": "let mut t = t(); let mut b = t.bfs_mut().iter; b.next(); drop(t.pop_front()); u(b.next().unwrap().data);",
 "bfs_mut-twice": "let mut t = t(); let a = t.bfs_mut().iter.next().unwrap().data; let b = t.bfs_mut().iter.next().unwrap().data; let x: &i32 = &**a; *b = Box::new(6); u(x);",
 "bfs_children_mut": "let mut b; { let mut t = t(); b = t.bfs_children_mut().iter; } u(b.next().unwrap().data);",
 "node-bfs_mut": "let mut t = t(); let mut r = t.root_mut(); let v = r.bfs_children_mut().iter.next().unwrap(); drop(r.pop_front()); u(v.data);",
 "forest-bfs": "let mut b; { let f = f(); b = f.bfs().iter; } u(b.next().unwrap().data);",
 "forest-bfs_mut": "let mut b; { let mut f = f(); b = f.bfs_mut().iter; } u(b.next().unwrap().data);",
 "bfs-map": "let d; { let t = t(); d = t.bfs().map(|x: &Box<i32>| x).iter.next().unwrap().data; } u(d);",
 "walk-get": "let v; { let w = TreeWalk::from(t()); v = w.get().unwrap(); } u(v.node().data());",
 "walk-next": "let v; { let mut w = TreeWalk::from(t()); v = w.next().unwrap(); } u(v.node().data());",
 "walk-get-then-turn-back": "let w = TreeWalk::from(t()); let v = w.get().unwrap(); let mut t = Tree::from(w); *t.root_mut().data_mut() = Box::new(5); drop(t); u(v.node().data());",
 "walk-get_parent": "let n; { let mut w = TreeWalk::from(t()); w.forward(); n = w.get_parent().unwrap(); } u(n.data());",
 "walk-to_child": "let v; { let mut w = TreeWalk::from(t()); v = w.to_child(0).unwrap(); } u(v.node().data());",
 "walk-to_sib": "let v; { let mut w = TreeWalk::from(t()); w.forward(); v = w.to_sib(0); drop(w); } u(v.unwrap().node().data());",
 "walk-to_parent": "let v; { let mut w = TreeWalk::from(t()); w.forward(); v = w.to_parent(); drop(w); } u(v.unwrap().node().data());",
 "forest-walk-get": "let v; { let w = ForestWalk::from(f()); v = w.get().unwrap(); } u(v.node().data());",
 "forest-walk-next": "let v; { let mut w = ForestWalk::from(f()); v = w.next().unwrap(); } u(v.node().data());",
 "forest-walk-get_parent": "let n; { let mut w = ForestWalk::from(f()); w.forward(); n = w.get_parent(); drop(w); } u(n.unwrap().data());",
 "forest-walk-to_child": "let v; { let mut w = ForestWalk::from(f()); v = w.to_child(0).unwrap(); } u(v.node().data());",
 "forest-walk-to_sib": "let v; { let mut w = ForestWalk::from(f()); v = w.to_sib(0); drop(w); } u(v.unwrap().node().data());",
 "forest-walk-to_parent": "let v; { let mut w = ForestWalk::from(f()); w.forward(); v = w.to_parent(); drop(w); } u(v.unwrap().node().data());",
 "rc-data": "let d; { let r = RcNode::from(t()); d = r.data(); } u(&d);",
 "rc-data_mut": "let d; { let r = RcNode::from(t()); d = r.data_mut(); } u(&d);",
 "rc-into-tree": "let r = RcNode::from(t()); let d = r.data(); drop(unsafe { r.into_tree() }); u(&d);",
 "shared-data_mut": "let t = t(); let d: &i32 = &**t.root().data(); *t.root().data_mut() = Box::new(8); u(d);",
 "shared-pop": "let t = t(); let c = t.front().unwrap(); drop(t.root().pop_front()); u(c.data());",
 "shared-pop_back": "let t = t(); let c = t.back().unwrap(); drop(t.root().pop_back()); u(c.data());",
 "shared-tree-pop": "let t = t(); let c = t.front().unwrap(); drop(t.pop_front()); u(c.data());",
 "shared-detach": "let t = t(); let c = t.front().unwrap(); drop(c.detach()); u(c.data());",
 "shared-iter_mut": "let t = t(); let d: &i32 = &**t.front().unwrap().data(); *t.root().iter_mut().next().unwrap().data_mut() = Box::new(8); u(d);",
 "shared-front_mut": "let t = t(); let d: &i32 = &**t.front().unwrap().data(); *t.root().front_mut().unwrap().data_mut() = Box::new(8); u(d);",
 "shared-root_mut": "let t = t(); let d: &i32 = &**t.root().data(); *t.root_mut().data_mut() = Box::new(8); u(d);",
 "shared-bfs_mut": "let t = t(); let d: &i32 = &**t.root().data(); *t.bfs_mut().iter.next().unwrap().data = Box::new(8); u(d);",
 "shared-abandon": "let t = t(); let c = t.front().unwrap(); drop(t.abandon()); u(c.data());",
 "shared-forest-pop": "let f = f(); let c = f.front().unwrap(); drop(f.pop_front()); u(c.data());",
 "shared-forest-iter_mut": "let f = f(); let d: &i32 = &**f.front().unwrap().data(); *f.iter_mut().next().unwrap().data_mut() = Box::new(8); u(d);",
 "iter_mut-clone": "let mut t = t(); let mut i = t.iter_mut(); let mut j = i.clone(); let a = i.next().unwrap(); let mut b = j.next().unwrap(); drop(b.detach()); u(a.data());",
 "iter_mut-copy": "let mut t = t(); let mut i = t.iter_mut(); let mut j = i; let a = i.next().unwrap(); let mut b = j.next().unwrap(); drop(b.detach()); u(a.data());",
 "tree-copy": "let t = t(); let a = t; drop(t); u(a.root().data());",
 "forest-copy": "let f = f(); let a = f; drop(f); u(a.front().unwrap().data());",
 "walk-clone": "let w = TreeWalk::from(t()); let v = w.clone(); drop(w); u(v.get().unwrap().node().data());",
 "walk-shared-turn-back": "let w = TreeWalk::from(t()); let v = w.get().unwrap(); drop(Tree::from(&w)); u(v.node().data());",
 "data-outlived": "let mut t: Tree<&i32> = Tree::new(&1); { let x = Box::new(5); t.push_back(Tree::new(&*x)); } u(t.front().unwrap().data());",
 "data-outlived-forest": "let mut f: Forest<&i32> = Forest::new(); { let x = Box::new(5); f.push_back(Tree::new(&*x)); } u(f.front().unwrap().data());",
 "data-outlived-rc": "let r; { let x = Box::new(5); r = RcNode::from(Tree::new(&*x)); } u(*r.data());",
 "data-outlived-weak": "let r; let w; { let x = Box::new(5); r = RcNode::from(Tree::new(&*x)); w = r.downgrade(); } u(*w.upgrade().unwrap().data());",
 "data-outlived-walk": "let w; { let x = Box::new(5); w = TreeWalk::from(Tree::new(&*x)); } u(w.get().unwrap().node().data());",
 "data-outlived-iter": "let i; { let x = Box::new(5); let mut f = Forest::new(); f.push_back(Tree::new(&*x)); i = f.into_iter(); } for t in i { u(t.data()); }",
 "data-shortened-mut": "fn put<'a>(n: &mut Tree<&'a i32>, x: &'a i32) { n.push_back(Tree::new(x)) } fn cheat<'a>(t: &mut Tree<&'static i32>, x: &'a i32) { put(t, x) } let mut t: Tree<&'static i32> = Tree::new(&1); { let x = Box::new(5); cheat(&mut t, &x); } u(t.front().unwrap().data());",
 "data-shortened-iter_mut": "let mut t: Tree<&'static i32> = Tree::new(&1); t.push_back(Tree::new(&2)); fn short<'a, 'b>(i: iter::IterMut<'b, &'static i32>) -> iter::IterMut<'b, &'a i32> { i } { let x = Box::new(5); for mut c in short(t.iter_mut()) { *c.data_mut() = &x; } } u(t.front().unwrap().data());",
 "data-shortened-rc": "let r: RcNode<&'static i32> = RcNode::from(Tree::new(&1)); fn short<'a>(r: RcNode<&'static i32>) -> RcNode<&'a i32> { r } { let x = Box::new(5); *short(r.clone()).data_mut() = &x; } u(*r.data());",
 "data-shortened-weak": "let r: RcNode<&'static i32> = RcNode::from(Tree::new(&1)); fn short<'a>(r: WeakNode<&'static i32>) -> WeakNode<&'a i32> { r } { let x = Box::new(5); *short(r.downgrade()).upgrade().unwrap().data_mut() = &x; } u(*r.data());",
 "drop-sees-dead-data": "struct D<'a>(&'a Box<i32>); impl<'a> Drop for D<'a> { fn drop(&mut self) { u(self.0) } } let mut t; let x = Box::new(5); t = Tree::new(D(&x));",
 "drop-sees-dead-data-forest": "struct D<'a>(&'a Box<i32>); impl<'a> Drop for D<'a> { fn drop(&mut self) { u(self.0) } } let mut f = Forest::new(); let x = Box::new(5); f.push_back(Tree::new(D(&x)));",
 "drop-sees-dead-data-rc": "struct D<'a>(&'a Box<i32>); impl<'a> Drop for D<'a> { fn drop(&mut self) { u(self.0) } } let r; let x = Box::new(5); r = RcNode::from(Tree::new(D(&x)));",
 "drop-sees-dead-data-walk": "struct D<'a>(&'a Box<i32>); impl<'a> Drop for D<'a> { fn drop(&mut self) { u(self.0) } } let w; let x = Box::new(5); w = TreeWalk::from(Tree::new(D(&x)));",
 "drop-sees-dead-data-iter": "struct D<'a>(&'a Box<i32>); impl<'a> Drop for D<'a> { fn drop(&mut self) { u(self.0) } } let i; let x = Box::new(5); let mut f = Forest::new(); f.push_back(Tree::new(D(&x))); i = f.into_iter();",
}
