//! The C library functions through which nondeterminism would come in, replaced for the whole
//! process: random bytes come from the run's seed, clocks show simulated time, and waiting for a
//! lock that no other thread can ever release is reported instead of waited for.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

static SEED: AtomicU64 = AtomicU64::new(0x9e3779b97f4a7c15);
static NOW_MS: AtomicU64 = AtomicU64::new(1_700_000_000_000);
static THREADS: AtomicBool = AtomicBool::new(false);

pub fn seed(x: u64) {
    SEED.store(x ^ 0x9e3779b97f4a7c15, SeqCst);
}
pub fn now_ms() -> u64 {
    NOW_MS.load(SeqCst)
}
pub fn set_ms(t: u64) {
    NOW_MS.fetch_max(t, SeqCst);
}
pub fn die(code: i32) -> ! {
    unsafe { libc::_exit(code) }
}
fn rand() -> u64 {
    let mut z = SEED.fetch_add(0x9e3779b97f4a7c15, SeqCst);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = rand() as u8;
    }
    len as isize
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(_id: i32, ts: *mut libc::timespec) -> i32 {
    let t = now_ms();
    (*ts).tv_sec = (t / 1000) as i64;
    (*ts).tv_nsec = (t % 1000 * 1_000_000) as i64;
    0
}
#[no_mangle]
unsafe extern "C" fn nanosleep(req: *const libc::timespec, _rem: *mut libc::timespec) -> i32 {
    set_ms(now_ms() + (*req).tv_sec as u64 * 1000 + ((*req).tv_nsec as u64).div_ceil(1_000_000));
    0
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(
    _id: i32,
    flags: i32,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if flags == 0 {
        return nanosleep(req, rem);
    }
    set_ms((*req).tv_sec as u64 * 1000 + ((*req).tv_nsec as u64).div_ceil(1_000_000));
    0
}
unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// A second thread takes waiting for locks out of the simulator's hands.
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && !THREADS.load(SeqCst) {
        let op = b as i32 & 0x7f;
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && *(a as *const i32) == c as i32 {
            if d == 0 {
                let m = b"deadlock\n";
                libc::write(4, m.as_ptr().cast(), m.len());
                die(96);
            }
            *libc::__errno_location() = libc::ETIMEDOUT;
            return -1;
        }
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    let r = raw(n, [a, b, c, d, e, f]);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ---------------------------------------------------------------- branches of the code under test
// tools/rustc.sh has the compiler call this at every branch of kdl-lsp and kdl.

static STEPS: AtomicU64 = AtomicU64::new(0);
/// One process never gets further; a run's CPU budget, but the same on every machine.
const STEP_LIMIT: u64 = 2_000_000_000;
pub fn steps() -> u64 {
    STEPS.load(SeqCst)
}
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    let n = STEPS.load(std::sync::atomic::Ordering::Relaxed) + 1;
    STEPS.store(n, std::sync::atomic::Ordering::Relaxed);
    if n > STEP_LIMIT {
        let m = b"overwork\n";
        libc::write(4, m.as_ptr().cast(), m.len());
        die(95);
    }
}
