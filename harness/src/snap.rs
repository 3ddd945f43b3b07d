//! A snapshot of a real tree, taken by plain child iteration: the reference for oracles that judge another way of
//! looking at the same tree.

use crate::payload::Pay;
use trees::{Forest, Node};

pub struct SN { pub addr: usize, pub node: usize, pub uid: u64, pub val: i64, pub up: Option<usize>, pub kids: Vec<usize>, pub desc: usize }
#[derive(Default)]
pub struct Snap { pub n: Vec<SN>, pub roots: Vec<usize> }

impl Snap {
    pub fn of_node<P: Pay>(node: &Node<P>) -> Snap { let mut s = Snap::default(); let r = s.add(node, None); s.roots.push(r); s }
    pub fn of_children<P: Pay>(node: &Node<P>) -> Snap { let mut s = Snap::default(); for c in node.iter() { let r = s.add(c, None); s.roots.push(r); } s }
    pub fn of_forest<P: Pay>(f: &Forest<P>) -> Snap { let mut s = Snap::default(); for c in f.iter() { let r = s.add(c, None); s.roots.push(r); } s }
    fn add<P: Pay>(&mut self, node: &Node<P>, up: Option<usize>) -> usize {
        // breadth first, without recursion
        let first = self.n.len();
        self.push(node, up);
        let mut q: Vec<&Node<P>> = vec![node];
        let mut at = 0;
        while at < q.len() {
            let me = first + at;
            let n = q[at];
            for c in n.iter() {
                let id = self.n.len();
                self.push(c, Some(me));
                self.n[me].kids.push(id);
                q.push(c);
                if q.len() > 50_000_000 { crate::fail!("endless structure"); }
            }
            at += 1;
        }
        for i in (first..self.n.len()).rev() { let d: usize = self.n[i].kids.iter().map(|k| 1 + self.n[*k].desc).sum(); self.n[i].desc = d; }
        first
    }
    fn push<P: Pay>(&mut self, node: &Node<P>, up: Option<usize>) {
        let d = node.data();
        self.n.push(SN { addr: d as *const P as usize, node: node as *const Node<P> as usize, uid: d.uid(), val: d.v(), up, kids: vec![], desc: 0 });
    }
    pub fn level_order(&self) -> Vec<usize> {
        let mut q = self.roots.clone();
        let mut i = 0;
        while i < q.len() { let k = self.n[q[i]].kids.clone(); q.extend(k); i += 1; }
        q
    }
    pub fn total(&self) -> usize { self.n.len() }
    pub fn text_of(&self, i: usize) -> String {
        let mut s = self.n[i].val.to_string();
        if !self.n[i].kids.is_empty() {
            s.push_str("( ");
            for k in &self.n[i].kids { s.push_str(&self.text_of(*k)); s.push(' '); }
            s.push(')');
        }
        s
    }
    pub fn text(&self) -> String { self.roots.iter().map(|r| self.text_of(*r)).collect::<Vec<_>>().join(" ") }
    pub fn spec_of(&self, i: usize) -> crate::model::Spec { crate::model::Spec { val: self.n[i].val, kids: self.n[i].kids.iter().map(|k| self.spec_of(*k)).collect() } }
    /// Same shape, same values; and, if `ids`, the same items.
    pub fn same(&self, o: &Snap, ids: bool) -> Result<(), String> {
        let (a, b) = (self.level_order(), o.level_order());
        if self.roots.len() != o.roots.len() { return Err(format!("{} roots instead of {}", self.roots.len(), o.roots.len())); }
        if a.len() != b.len() { return Err(format!("{} nodes instead of {}", a.len(), b.len())); }
        for (x, y) in a.iter().zip(&b) {
            let (x, y) = (&self.n[*x], &o.n[*y]);
            if x.val != y.val { return Err(format!("a node holds {} instead of {}", x.val, y.val)); }
            if x.kids.len() != y.kids.len() { return Err(format!("node {} has {} children instead of {}", x.val, x.kids.len(), y.kids.len())); }
            if ids && x.uid != y.uid { return Err(format!("node {} holds another item (#{} instead of #{})", x.val, x.uid, y.uid)); }
        }
        Ok(())
    }
}
