//! The holes in the safe API listed in known-findings.txt: each case is a safe program with undefined behaviour.
//! They run on their own, under Miri, and belong to no other workload.

use crate::ctx::Ctx;
use crate::model::op_label;
use trees::{Node, Tree, tr};

fn t3() -> Tree<Box<i32>> { tr(Box::new(1)) / tr(Box::new(2)) / tr(Box::new(3)) }

pub fn run(ctx: &mut Ctx) {
    match ctx.case {
        0 => {
            op_label(ctx, "detach through a Pin kept afterwards, drop the detached tree, use the Pin");
            let mut t = t3();
            let mut it = t.iter_mut();
            let mut n = it.next().unwrap();
            drop(n.detach());
            let v = **n.data();
            std::hint::black_box(v);
        }
        1 => {
            op_label(ctx, "swap two root nodes by value through Pin::get_mut");
            let (mut a, mut b) = (t3(), t3());
            std::mem::swap(a.root_mut().get_mut(), b.root_mut().get_mut());
            drop(b);
            let p = a.root().front().and_then(|c| c.parent()).map(|p| **p.data());
            std::hint::black_box(p);
        }
        _ => {
            op_label(ctx, "push a tree to a Node made by Default, then move the node");
            let mut n: Box<Node<Box<i32>>> = Box::default();
            n.push_back(tr(Box::new(2)));
            fn unbox<T>(b: Box<T>) -> T { *b }
            let moved = unbox(n);
            let p = moved.front().and_then(|c| c.parent()).map(|p| p.degree());
            std::hint::black_box(p);
        }
    }
    ctx.done(true);
}
