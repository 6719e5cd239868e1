//! Threads without std's bookkeeping (ThreadSanitizer does not see into the precompiled std), values that count their
//! drops without synchronising anything, and an allocator that counts live blocks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::c_void;
use std::fmt;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU8, Ordering::Relaxed};
use std::sync::Mutex;

pub struct Counting;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}

extern "C" {
    fn pthread_create(t: *mut usize, attr: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> i32;
    fn pthread_join(t: usize, ret: *mut *mut c_void) -> i32;
    fn sched_yield() -> i32;
}
pub fn yield_now() { unsafe { sched_yield(); } }
struct Pack<'a, R> { f: Option<Box<dyn FnOnce() -> R + 'a>>, r: Option<R> }
pub struct Thread<'a, R> { t: usize, p: *mut Pack<'a, R> }
extern "C" fn start<R>(arg: *mut c_void) -> *mut c_void {
    let p = unsafe { &mut *(arg as *mut Pack<R>) };
    let f = p.f.take().unwrap();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => p.r = Some(r),
        Err(_) => fail("a thread panicked".into()),
    }
    std::ptr::null_mut()
}
/// The caller must join before anything the closure borrows goes away. What may cross is checked elsewhere (`auto`), as an
/// answer is wanted even when it does not compile.
pub fn spawn<'a, R>(f: impl FnOnce() -> R + 'a) -> Thread<'a, R> {
    let p = Box::into_raw(Box::new(Pack { f: Some(Box::new(f)), r: None }));
    let mut t = 0;
    let e = unsafe { pthread_create(&mut t, std::ptr::null(), start::<R>, p as *mut c_void) };
    if e != 0 { eprintln!("pthread_create: {e}"); std::process::exit(2) }
    Thread { t, p }
}
impl<'a, R> Thread<'a, R> {
    pub fn join(self) -> Option<R> {
        unsafe {
            pthread_join(self.t, std::ptr::null_mut());
            Box::from_raw(self.p).r.take()
        }
    }
}

static FAILS: Mutex<Option<String>> = Mutex::new(None);
pub fn fail(m: String) { let mut f = FAILS.lock().unwrap(); if f.is_none() { *f = Some(m) } }
pub fn take_fail() -> Option<String> { FAILS.lock().unwrap().take() }

pub const MAXD: usize = 8192;
static DROPS: [AtomicU8; MAXD] = [const { AtomicU8::new(0) }; MAXD];
static NEXT: AtomicU32 = AtomicU32::new(0);
pub fn reset() { for i in 0..(NEXT.load(Relaxed) as usize).min(MAXD) { DROPS[i].store(0, Relaxed) } NEXT.store(0, Relaxed); }
/// Every value must have been dropped exactly once.
pub fn account() -> Option<String> {
    for i in 0..(NEXT.load(Relaxed) as usize).min(MAXD) { let n = DROPS[i].load(Relaxed); if n != 1 { return Some(format!("value {i} was dropped {n} times")) } }
    None
}
pub struct D { uid: u32, pub val: u32, heap: Box<u32> }
impl D {
    pub fn new(val: u32) -> D { let uid = NEXT.fetch_add(1, Relaxed); D { uid, val, heap: Box::new(uid ^ 0x5555) } }
    pub fn ok(&self) -> bool { *self.heap == self.uid ^ 0x5555 }
}
impl Drop for D {
    fn drop(&mut self) {
        if !self.ok() { fail("a value was damaged".into()) }
        if (self.uid as usize) < MAXD && DROPS[self.uid as usize].fetch_add(1, Relaxed) != 0 { fail(format!("value {} dropped again", self.uid)) }
    }
}
impl Clone for D { fn clone(&self) -> D { D::new(self.val) } }
impl fmt::Display for D { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.val) } }
