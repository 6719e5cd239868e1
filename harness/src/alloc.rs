//! A checking global allocator. While a case runs, every block carries a header and a trailing red zone, freed blocks
//! are poisoned and kept in quarantine until the case ends, and double/foreign frees, red-zone damage, writes to freed
//! blocks and leaks are recorded. All worker processes are single-threaded where this matters; a spin lock keeps it
//! sound otherwise.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};

const LIVE: u64 = 0x4c49_5645_b10c_1234;
const DEAD: u64 = 0xdead_b10c_dead_5678;
const RZ: usize = 16;
const RZB: u8 = 0xfb;
const POISON: u8 = 0xd5;

#[repr(C)]
struct Hdr { magic: u64, size: usize, align: usize, epoch: u32, pad: u32, prev: *mut Hdr, next: *mut Hdr }
const HS: usize = std::mem::size_of::<Hdr>();

pub struct Checked;

static LOCK: AtomicBool = AtomicBool::new(false);
static EPOCH: AtomicU32 = AtomicU32::new(0); // 0: not tracking
static mut LIVE_HEAD: *mut Hdr = std::ptr::null_mut();
static mut DEAD_HEAD: *mut Hdr = std::ptr::null_mut();
static LIVE_CNT: AtomicUsize = AtomicUsize::new(0);
static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
static ERR: AtomicU32 = AtomicU32::new(0);
static DEAD_BYTES: AtomicUsize = AtomicUsize::new(0);

struct Guard;
fn lock() -> Guard { while LOCK.swap(true, Acquire) { std::hint::spin_loop() } Guard }
impl Drop for Guard { fn drop(&mut self) { LOCK.store(false, Release) } }

fn off(align: usize) -> usize { let a = align.max(16); (HS + a - 1) / a * a }
unsafe fn base_layout(size: usize, align: usize) -> Layout { Layout::from_size_align_unchecked(off(align) + size + RZ, align.max(16)) }

unsafe fn rz_ok(h: *mut Hdr) -> bool {
    let p = (h as *mut u8).add(HS).add((*h).size);
    (0..RZ).all(|i| *p.add(i) == RZB)
}
fn err(bit: u32) { ERR.fetch_or(bit, SeqCst); }

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = off(l.align());
        let b = System.alloc(base_layout(l.size(), l.align()));
        if b.is_null() { return b }
        let u = b.add(o);
        let h = u.sub(HS) as *mut Hdr;
        let e = EPOCH.load(Relaxed);
        *h = Hdr { magic: LIVE, size: l.size(), align: l.align(), epoch: e, pad: 0, prev: std::ptr::null_mut(), next: std::ptr::null_mut() };
        std::ptr::write_bytes(u.add(l.size()), RZB, RZ);
        if e != 0 {
            std::ptr::write_bytes(u, 0xcd, l.size().min(4096));
            let _g = lock();
            (*h).next = LIVE_HEAD;
            if !LIVE_HEAD.is_null() { (*LIVE_HEAD).prev = h }
            LIVE_HEAD = h;
            LIVE_CNT.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(l.size(), Relaxed);
        }
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(HS) as *mut Hdr;
        if (*h).magic != LIVE {
            err(if (*h).magic == DEAD { 1 } else { 2 });
            return;
        }
        if (*h).size != l.size() || (*h).align != l.align() { err(4) }
        if !rz_ok(h) { err(8) }
        let e = (*h).epoch;
        if e != 0 && e == EPOCH.load(Relaxed) {
            let _g = lock();
            unlink(h);
            (*h).magic = DEAD;
            std::ptr::write_bytes(u, POISON, (*h).size);
            (*h).prev = std::ptr::null_mut();
            (*h).next = DEAD_HEAD;
            DEAD_HEAD = h;
            DEAD_BYTES.fetch_add((*h).size, Relaxed);
        } else {
            if e != 0 && !((*h).prev.is_null() && (*h).next.is_null() && LIVE_HEAD != h) {
                let _g = lock();
                unlink(h);
            }
            release(h);
        }
    }
}
unsafe fn unlink(h: *mut Hdr) {
    if (*h).prev.is_null() { if LIVE_HEAD == h { LIVE_HEAD = (*h).next } } else { (*(*h).prev).next = (*h).next }
    if !(*h).next.is_null() { (*(*h).next).prev = (*h).prev }
    (*h).prev = std::ptr::null_mut();
    (*h).next = std::ptr::null_mut();
    LIVE_CNT.fetch_sub(1, Relaxed);
    LIVE_BYTES.fetch_sub((*h).size, Relaxed);
}
unsafe fn release(h: *mut Hdr) {
    let (size, align) = ((*h).size, (*h).align);
    (*h).magic = 0;
    let u = (h as *mut u8).add(HS);
    System.dealloc(u.sub(off(align)), base_layout(size, align));
}

/// Starts tracking. Returns false when the allocator is not installed.
pub fn begin() {
    ERR.store(0, SeqCst);
    static N: AtomicU32 = AtomicU32::new(1);
    let e = N.fetch_add(1, Relaxed).max(1);
    EPOCH.store(e, SeqCst);
}
pub struct Report { pub err: u32, pub live: usize, pub bytes: usize }
/// Blocks allocated since `begin` and not yet freed.
pub fn live() -> usize { LIVE_CNT.load(Relaxed) }
pub fn errors() -> u32 { ERR.load(SeqCst) }
/// Ends tracking: checks quarantined blocks and live red zones, empties the quarantine, forgets what is still live.
pub fn end() -> Report {
    EPOCH.store(0, SeqCst);
    unsafe {
        let _g = lock();
        let mut h = DEAD_HEAD;
        DEAD_HEAD = std::ptr::null_mut();
        while !h.is_null() {
            let n = (*h).next;
            let u = (h as *mut u8).add(HS);
            let words = std::slice::from_raw_parts(u, (*h).size);
            if words.iter().any(|b| *b != POISON) { err(16) }
            if !rz_ok(h) { err(8) }
            release(h);
            h = n;
        }
        DEAD_BYTES.store(0, Relaxed);
        let mut h = LIVE_HEAD;
        LIVE_HEAD = std::ptr::null_mut();
        let r = Report { err: 0, live: LIVE_CNT.swap(0, Relaxed), bytes: LIVE_BYTES.swap(0, Relaxed) };
        while !h.is_null() {
            if !rz_ok(h) { err(8) }
            let n = (*h).next;
            (*h).epoch = 0;
            (*h).prev = std::ptr::null_mut();
            (*h).next = std::ptr::null_mut();
            h = n;
        }
        Report { err: ERR.swap(0, SeqCst), ..r }
    }
}
/// The live block that contains `addr`: (start, size).
pub fn block_of(addr: usize) -> Option<(usize, usize)> {
    unsafe {
        let _g = lock();
        let mut h = LIVE_HEAD;
        while !h.is_null() {
            let u = h as usize + HS;
            if addr >= u && addr < u + (*h).size.max(1) { return Some((u, (*h).size)) }
            h = (*h).next;
        }
        None
    }
}
/// Is the live block that starts at `start` still allocated?
pub fn is_live_block(start: usize) -> bool {
    unsafe {
        let _g = lock();
        let mut h = LIVE_HEAD;
        while !h.is_null() {
            if h as usize + HS == start { return true }
            h = (*h).next;
        }
        false
    }
}
pub fn describe(err: u32) -> String {
    let mut v = vec![];
    for (b, s) in [(1, "block freed twice"), (2, "invalid pointer freed"), (4, "freed with a wrong layout"),
                   (8, "write past the end of a block"), (16, "write to a freed block")] {
        if err & b != 0 { v.push(s) }
    }
    v.join(", ")
}
