//! The instrumented data type stored in the trees under test, and the registry that accounts for every value.
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub trait Lay: 'static { type Pad: Default + Clone + Unpin; }
pub struct L0;
impl Lay for L0 { type Pad = (); }
#[derive(Default, Clone)]
#[repr(align(32))]
pub struct A32(#[allow(dead_code)] [u8; 32]);
pub struct L1;
impl Lay for L1 { type Pad = (A32, [u8; 3]); }

const MAGIC: u32 = 0x70_6b_65_6e;

pub struct Tok<L: Lay> { magic: u32, pub uid: u32, pub val: i32, heap: Box<u32>, #[allow(dead_code)] pad: L::Pad, lay: PhantomData<*const L> }

#[derive(Clone, Copy, Default)]
pub struct Info { pub alive: bool, pub origin: u32, pub drops: u32 }

#[derive(Default)]
pub struct Reg {
    pub infos: Vec<Info>,
    pub alive: usize,
    pub errors: Vec<String>,
    pub drop_log: u64,
    pub drops: u64,
    pub clones: u64,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    static FUSE: Cell<u32> = const { Cell::new(0) };
    static KINDS: Cell<u32> = const { Cell::new(0) };
    static TICKS: Cell<u32> = const { Cell::new(0) };
    static FUEL: Cell<u64> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Box<dyn FnMut() -> u32>>> = const { RefCell::new(None) };
    static HOOK_N: Cell<u32> = const { Cell::new(0) };
    static HOOK_K: Cell<u32> = const { Cell::new(0) };
}
pub const K_CLONE: u32 = 1;
pub const K_DROP: u32 = 2;
pub const K_CMP: u32 = 4;
pub const K_HASH: u32 = 8;
pub const K_FMT: u32 = 16;
pub const K_USER: u32 = 32;
pub const K_ALL: u32 = 63;

pub struct Injected;

/// Arms the fault: the `n`-th call (1-based) of user code of the given kinds panics.
pub fn arm(n: u32, kinds: u32) { FUSE.with(|f| f.set(n)); KINDS.with(|k| k.set(kinds)); TICKS.with(|t| t.set(0)); }
pub fn disarm() -> u32 { FUSE.with(|f| f.set(0)); TICKS.with(|t| t.get()) }
/// The `n`-th call of user code of the given kinds runs `f`, which says how many calls later it is to run again.
pub fn hook(n: u32, kinds: u32, f: Box<dyn FnMut() -> u32>) { HOOK.with(|h| *h.borrow_mut() = Some(f)); HOOK_N.with(|c| c.set(n)); HOOK_K.with(|c| c.set(kinds)) }
pub fn unhook() { HOOK_N.with(|c| c.set(0)); let f = HOOK.with(|h| h.borrow_mut().take()); drop(f) }
fn run_hook() {
    if std::thread::panicking() { HOOK_N.with(|c| c.set(1)); return }
    let Some(mut f) = HOOK.with(|h| h.borrow_mut().take()) else { return };
    let n = f();
    HOOK.with(|h| *h.borrow_mut() = Some(f));
    HOOK_N.with(|c| c.set(n));
}
pub fn tick(kind: u32) {
    FUEL.with(|f| { let v = f.get(); if v > 0 { f.set(v - 1); if v == 1 { panic!("endless loop: user code was called too often") } } });
    let n = HOOK_N.with(|c| c.get());
    if n > 0 && HOOK_K.with(|k| k.get()) & kind != 0 { HOOK_N.with(|c| c.set(n - 1)); if n == 1 { run_hook() } }
    let n = FUSE.with(|f| f.get());
    if n == 0 || KINDS.with(|k| k.get()) & kind == 0 { return }
    TICKS.with(|t| t.set(t.get() + 1));
    if std::thread::panicking() { return }
    FUSE.with(|f| f.set(n - 1));
    if n == 1 { std::panic::panic_any(Injected) }
}
pub fn set_fuel(n: u64) { FUEL.with(|f| f.set(n)) }

pub fn reset() { REG.with(|r| *r.borrow_mut() = Reg::default()); disarm(); set_fuel(0); }
/// Frees the registry's own memory, so that it does not look like a leak.
pub fn clear() -> Reg { disarm(); set_fuel(0); REG.with(|r| std::mem::take(&mut *r.borrow_mut())) }
pub fn with<R>(f: impl FnOnce(&mut Reg) -> R) -> R { REG.with(|r| f(&mut r.borrow_mut())) }
pub fn alive_count() -> usize { with(|r| r.alive) }
pub fn is_alive(uid: u32) -> bool { with(|r| r.infos.get(uid as usize).map_or(false, |i| i.alive)) }
pub fn next_uid() -> u32 { with(|r| r.infos.len() as u32) }
pub fn drops_of(uid: u32) -> u32 { with(|r| r.infos.get(uid as usize).map_or(0, |i| i.drops)) }
pub fn origin(uid: u32) -> u32 { with(|r| r.infos.get(uid as usize).map_or(u32::MAX, |i| i.origin)) }
pub fn drop_digest() -> u64 { with(|r| r.drop_log) }
pub fn take_error() -> Option<String> { with(|r| if r.errors.is_empty() { None } else { Some(r.errors.remove(0)) }) }

fn fresh(origin: u32) -> u32 {
    with(|r| { r.infos.push(Info { alive: true, origin, drops: 0 }); r.alive += 1; r.infos.len() as u32 - 1 })
}

impl<L: Lay> Tok<L> {
    pub fn new(val: i32) -> Self { Self::make(val, u32::MAX) }
    fn make(val: i32, origin: u32) -> Self {
        let uid = fresh(origin);
        Tok { magic: MAGIC, uid, val, heap: Box::new(uid ^ 0x5a5a_5a5a), pad: Default::default(), lay: PhantomData }
    }
    /// Is this a live, intact value?
    pub fn ok(&self) -> bool { self.magic == MAGIC && is_alive(self.uid) && *self.heap == self.uid ^ 0x5a5a_5a5a }
    fn probe(&self, what: &str) {
        if self.magic != MAGIC || !is_alive(self.uid) {
            let (m, u) = (self.magic, self.uid);
            with(|r| r.errors.push(format!("{what} of a value that is not alive (magic {m:x}, uid {u})")));
        }
    }
}
impl<L: Lay> Drop for Tok<L> {
    fn drop(&mut self) {
        let (m, u, v) = (self.magic, self.uid, self.val);
        with(|r| {
            if m != MAGIC { r.errors.push(format!("drop of something that is not a value (magic {m:x}, uid {u})")); return }
            match r.infos.get_mut(u as usize) {
                Some(i) if i.alive => { i.alive = false; i.drops += 1; r.alive -= 1; r.drops += 1; r.drop_log = mix(r.drop_log, v as u32 as u64 + 1); }
                Some(i) => { i.drops += 1; r.errors.push(format!("value {u} dropped again")); }
                None => r.errors.push(format!("drop of an unknown value {u}")),
            }
        });
        if m != MAGIC { std::process::abort() }
        tick(K_DROP);
    }
}
pub fn mix(h: u64, v: u64) -> u64 { (h.rotate_left(5) ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15) }

impl<L: Lay> Clone for Tok<L> {
    fn clone(&self) -> Self {
        self.probe("clone");
        tick(K_CLONE);
        with(|r| r.clones += 1);
        Self::make(self.val, self.uid)
    }
}
// The value domain: negative values are incomparable to everything (like NaN), as far as PartialEq/PartialOrd go.
impl<L: Lay> PartialEq for Tok<L> {
    fn eq(&self, o: &Self) -> bool { self.probe("eq"); o.probe("eq"); tick(K_CMP); self.val == o.val && self.val >= 0 }
}
impl<L: Lay> PartialOrd for Tok<L> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.probe("cmp"); o.probe("cmp"); tick(K_CMP);
        if self.val < 0 || o.val < 0 { None } else { Some(self.val.cmp(&o.val)) }
    }
}
impl<L: Lay> Eq for Tok<L> {}
impl<L: Lay> Ord for Tok<L> { fn cmp(&self, o: &Self) -> Ordering { self.probe("cmp"); o.probe("cmp"); tick(K_CMP); self.val.cmp(&o.val) } }
impl<L: Lay> Hash for Tok<L> { fn hash<H: Hasher>(&self, h: &mut H) { self.probe("hash"); tick(K_HASH); h.write_i32(self.val) } }
impl<L: Lay> fmt::Display for Tok<L> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.probe("fmt"); tick(K_FMT); write!(f, "v{}", self.val) } }
impl<L: Lay> fmt::Debug for Tok<L> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.probe("fmt"); tick(K_FMT); write!(f, "v{}", self.val) } }
impl<L: Lay> Default for Tok<L> { fn default() -> Self { Tok::new(0) } }
