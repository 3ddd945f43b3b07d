//! Monitored data items.

use crate::alloc::untracked;
use crate::ctx::{violation, Injected};
use crate::rng::mix;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St { Live, Dropped }

pub struct Reg { pub st: Vec<St>, pub origin: Vec<u64>, pub live: i64, pub clones: u64, pub drops: u64, pub order: u64 }
static REG: Mutex<Reg> = Mutex::new(Reg { st: Vec::new(), origin: Vec::new(), live: 0, clones: 0, drops: 0, order: 0 });
/// Items of zero size: only a balance can be kept.
pub static ZST_LIVE: AtomicI64 = AtomicI64::new(0);

fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    untracked(|| { let mut r = match REG.lock() { Ok(r) => r, Err(p) => p.into_inner() }; f(&mut r) })
}

/// Forgets everything (start of a case).
pub fn reset() { reg(|r| { r.st.clear(); r.origin.clear(); r.live = 0; r.clones = 0; r.drops = 0; r.order = 0; }); ZST_LIVE.store(0, SeqCst); disarm(); }
pub fn live() -> i64 { reg(|r| r.live) }
/// Tells apart the orders in which items have been dropped so far.
pub fn drop_order() -> u64 { reg(|r| r.order) }
pub fn clones() -> u64 { reg(|r| r.clones) }
pub fn created() -> u64 { reg(|r| r.st.len() as u64) }
pub fn is_live(id: u64) -> bool { reg(|r| r.st.get(id as usize).map_or(false, |s| *s == St::Live)) }
pub fn origin(id: u64) -> u64 { reg(|r| r.origin.get(id as usize).copied().unwrap_or(u64::MAX)) }
pub fn live_ids() -> Vec<u64> { reg(|r| r.st.iter().enumerate().filter(|x| *x.1 == St::Live).map(|x| x.0 as u64).collect()) }

// ---- fault injection -------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Hit { None = 0, Clone = 1, Drop = 2, Eq = 3, Cmp = 4, Hash = 5, Fmt = 6, Callback = 7 }
static ARM: AtomicUsize = AtomicUsize::new(0);
static COUNTDOWN: AtomicI64 = AtomicI64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);

/// The `k`-th (from 0) call of that kind panics.
pub fn arm(kind: Hit, k: i64) { COUNTDOWN.store(k, SeqCst); FIRED.store(0, SeqCst); ARM.store(kind as usize, SeqCst); }
pub fn disarm() { ARM.store(0, SeqCst); }
pub fn fired() -> bool { FIRED.load(SeqCst) > 0 }
pub fn hit(kind: Hit, name: &'static str) {
    if ARM.load(Relaxed) == kind as usize {
        if kind == Hit::Drop && std::thread::panicking() { return; } // a second panic would abort
        if COUNTDOWN.fetch_sub(1, SeqCst) == 0 {
            FIRED.fetch_add(1, SeqCst);
            disarm();
            std::panic::panic_any(Injected(name));
        }
    }
}

pub trait Pay: Clone + Eq + Ord + Hash + fmt::Display + fmt::Debug + Unpin + 'static {
    const NAME: &'static str;
    /// Values are told apart (false for zero-sized items: all are 0).
    const VALUES: bool = true;
    fn mk(v: i64) -> Self;
    fn v(&self) -> i64;
    fn setv(&mut self, v: i64);
    /// Identity of the item; 0 if this kind has none.
    fn uid(&self) -> u64;
}

// ---- Item: heap-owning, tracked ---------------------------------------------------------------------------------
pub struct Item { canary: u64, id: u64, body: Box<(u64, i64)> }

fn canary_of(id: u64) -> u64 { mix(id ^ 0xC0FFEE) }

fn new_id(origin: Option<u64>) -> u64 {
    reg(|r| {
        let id = r.st.len() as u64;
        r.st.push(St::Live);
        r.origin.push(origin.unwrap_or(u64::MAX));
        r.live += 1;
        if origin.is_some() { r.clones += 1; }
        id
    })
}

fn check_alive(id: u64, canary: u64, what: &str) {
    if canary != canary_of(id) { violation("item", &format!("{what}: not a valid item (id {id:#x}, canary {canary:#x}): freed, uninitialised or overwritten memory")); }
    let st = reg(|r| r.st.get(id as usize).copied());
    match st {
        Some(St::Live) => (),
        Some(St::Dropped) => violation("item", &format!("{what}: item #{id} was already dropped")),
        None => violation("item", &format!("{what}: item #{id} does not exist")),
    }
}

fn note_drop(id: u64) { reg(|r| { r.st[id as usize] = St::Dropped; r.live -= 1; r.drops += 1; r.order = crate::rng::mix(r.order ^ id); }) }

impl Item {
    fn chk(&self, what: &str) {
        check_alive(self.id, self.canary, what);
        if self.body.0 != self.canary { violation("item", &format!("{what}: body of item #{} is damaged", self.id)); }
    }
}

impl Pay for Item {
    const NAME: &'static str = "item";
    fn mk(v: i64) -> Self { let id = new_id(None); let canary = canary_of(id); Item { canary, id, body: Box::new((canary, v)) } }
    fn v(&self) -> i64 { self.chk("read"); self.body.1 }
    fn setv(&mut self, v: i64) { self.chk("write"); self.body.1 = v; }
    fn uid(&self) -> u64 { self.chk("read"); self.id + 1 }
}
impl Clone for Item {
    fn clone(&self) -> Self {
        self.chk("clone");
        hit(Hit::Clone, "clone");
        let id = new_id(Some(self.id));
        let canary = canary_of(id);
        Item { canary, id, body: Box::new((canary, self.body.1)) }
    }
}
impl Drop for Item {
    fn drop(&mut self) {
        check_alive(self.id, self.canary, "drop");
        note_drop(self.id);
        self.canary = 0xD409_D409_D409_D409;
        self.body.0 = 0;
        hit(Hit::Drop, "drop");
    }
}
impl PartialEq for Item { fn eq(&self, o: &Self) -> bool { self.chk("eq"); o.chk("eq"); hit(Hit::Eq, "eq"); self.body.1 == o.body.1 } }
impl Eq for Item {}
impl PartialOrd for Item { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Item { fn cmp(&self, o: &Self) -> Ordering { self.chk("cmp"); o.chk("cmp"); hit(Hit::Cmp, "cmp"); self.body.1.cmp(&o.body.1) } }
impl Hash for Item { fn hash<H: Hasher>(&self, h: &mut H) { self.chk("hash"); hit(Hit::Hash, "hash"); self.body.1.hash(h) } }
impl fmt::Display for Item { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.chk("fmt"); hit(Hit::Fmt, "fmt"); write!(f, "{}", self.body.1) } }
impl fmt::Debug for Item { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.chk("fmt"); hit(Hit::Fmt, "fmt"); write!(f, "{}", self.body.1) } }

// ---- plain integer ----------------------------------------------------------------------------------------------
impl Pay for i64 {
    const NAME: &'static str = "i64";
    fn mk(v: i64) -> Self { v }
    fn v(&self) -> i64 { *self }
    fn setv(&mut self, v: i64) { *self = v }
    fn uid(&self) -> u64 { 0 }
}
impl Pay for u8 {
    const NAME: &'static str = "u8";
    fn mk(v: i64) -> Self { v as u8 }
    fn v(&self) -> i64 { *self as i64 }
    fn setv(&mut self, v: i64) { *self = v as u8 }
    fn uid(&self) -> u64 { 0 }
}

// ---- zero-sized -------------------------------------------------------------------------------------------------
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Zst;
impl Pay for Zst {
    const NAME: &'static str = "zst";
    const VALUES: bool = false;
    fn mk(_: i64) -> Self { ZST_LIVE.fetch_add(1, SeqCst); Zst }
    fn v(&self) -> i64 { 0 }
    fn setv(&mut self, _: i64) {}
    fn uid(&self) -> u64 { 0 }
}
impl Clone for Zst { fn clone(&self) -> Self { ZST_LIVE.fetch_add(1, SeqCst); Zst } }
impl Drop for Zst { fn drop(&mut self) { if ZST_LIVE.fetch_sub(1, SeqCst) <= 0 { violation("item", "more zero-sized items dropped than created"); } } }
impl fmt::Display for Zst { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "0") } }

// ---- over-aligned, tracked --------------------------------------------------------------------------------------
#[repr(align(64))]
pub struct Wide { item: Item, pad: [u8; 40] }
impl Wide { fn chk(&self) {
    if (self as *const Wide as usize) % 64 != 0 { violation("item", "over-aligned item is not aligned"); }
    if self.pad != [0x3C; 40] { violation("item", "padding of an over-aligned item is damaged"); }
} }
impl Pay for Wide {
    const NAME: &'static str = "wide";
    fn mk(v: i64) -> Self { Wide { item: Item::mk(v), pad: [0x3C; 40] } }
    fn v(&self) -> i64 { self.chk(); self.item.v() }
    fn setv(&mut self, v: i64) { self.chk(); self.item.setv(v) }
    fn uid(&self) -> u64 { self.chk(); self.item.uid() }
}
impl Clone for Wide { fn clone(&self) -> Self { self.chk(); Wide { item: self.item.clone(), pad: [0x3C; 40] } } }
impl Drop for Wide { fn drop(&mut self) { self.chk(); self.pad = [0; 40]; } }
impl PartialEq for Wide { fn eq(&self, o: &Self) -> bool { self.item == o.item } }
impl Eq for Wide {}
impl PartialOrd for Wide { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Wide { fn cmp(&self, o: &Self) -> Ordering { self.item.cmp(&o.item) } }
impl Hash for Wide { fn hash<H: Hasher>(&self, h: &mut H) { self.item.hash(h) } }
impl fmt::Display for Wide { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.item.fmt(f) } }
impl fmt::Debug for Wide { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.item.fmt(f) } }
