//! Allocator seam: a deterministic work clock (allocations and bytes requested), and a place where
//! the simulated scheduler may switch threads.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub struct SimAlloc;
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
#[inline]
fn tick(bytes: usize) {
    let c = COUNT.get() + 1;
    COUNT.set(c);
    BYTES.set(BYTES.get() + bytes as u64);
    if c > LIMIT.get() {
        // The simulated CPU budget of this run is spent: end it, visibly.
        unsafe { libc::_exit(87) };
    }
    crate::sched::point();
}
pub fn count() -> u64 {
    COUNT.get()
}
pub fn bytes() -> u64 {
    BYTES.get()
}
/// Ends the process with status 87 when this thread has made `n` more allocations.
pub fn limit(n: u64) {
    LIMIT.set(COUNT.get().saturating_add(n));
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::point();
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick(n);
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- branches of the code under test
// tools/rustc.sh has the compiler call this at every branch of kdl and its parser library.

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static STEP_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
static EDGES: AtomicU32 = AtomicU32::new(0);
/// Which branches were reached: shared by all processes of a check.
static mut SEEN: *mut u8 = std::ptr::null_mut();

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            *p = EDGES.fetch_add(1, Ordering::Relaxed) + 1;
        }
        p = p.add(1);
    }
}
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !SEEN.is_null() {
        *SEEN.add(*g as usize) = 1;
    }
    let n = STEPS.get() + 1;
    STEPS.set(n);
    if n > STEP_LIMIT.get() {
        libc::_exit(87);
    }
    crate::sched::point();
}
/// Branches of the code under test this thread has taken.
pub fn steps() -> u64 {
    STEPS.get()
}
/// Ends the process with status 87 when this thread has taken `n` more branches.
pub fn step_limit(n: u64) {
    STEP_LIMIT.set(STEPS.get().saturating_add(n));
}
pub fn share_edges() {
    unsafe {
        let n = edges().0 + 1;
        let m = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert_ne!(m, libc::MAP_FAILED, "[harness] no memory");
        SEEN = m.cast();
    }
}
/// How many branches there are, and how many of them any process has reached.
pub fn edges() -> (usize, usize) {
    let n = EDGES.load(Ordering::Relaxed) as usize;
    let seen = unsafe { if SEEN.is_null() { 0 } else { std::slice::from_raw_parts(SEEN, n + 1).iter().filter(|x| **x > 0).count() } };
    (n, seen)
}

// ---------------------------------------------------------------- randomness
static RANDOM: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
/// Where the process's random numbers (hash seeds) come from.
pub fn seed_random(s: u64) {
    RANDOM.store(s, Ordering::SeqCst);
}
thread_local! {
    static OWN: Cell<u64> = const { Cell::new(0) };
}
/// From now on this thread has random numbers of its own.
pub fn seed_thread(s: u64) {
    OWN.set(s | 1);
}
#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        const STEP: u64 = 0x9E3779B97F4A7C16;
        let x = if OWN.get() != 0 { OWN.replace(OWN.get().wrapping_add(STEP)) } else { RANDOM.fetch_add(STEP, Ordering::SeqCst) };
        *p.add(i) = crate::rng::mix(x) as u8;
    }
    n as isize
}
