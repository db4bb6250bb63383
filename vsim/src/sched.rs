//! Real threads, one running at a time: the simulator decides at every branch and allocation of the
//! code under test whether another one goes on, and stands in for the kernel when one has to wait.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

const MAX: usize = 8;
/// A thread that went on for so long lets another one go on, so that waiting by looping ends.
const FAIR: u64 = 2_000_000;
/// Steps after which a run counts as one without end.
const LIMIT: u64 = 400_000_000;

#[derive(Clone, Copy, PartialEq)]
enum State {
    None,
    Ready,
    Waits { addr: usize, timed: bool },
    Done,
}
struct S {
    st: [State; MAX],
    /// After so many more points, switch to another thread, by this number.
    plan: &'static [(u32, u8)],
    pace: u64,
    next: usize,
    left: u64,
    free: u64,
    pub stats: Stats,
}
#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub points: u64,
    pub switches: u64,
    pub waits: u64,
    pub wakes: u64,
    /// Hash of who ran for how long.
    pub sig: u64,
}
static mut SCHED: Option<S> = None;
static SLOTS: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
    static TIMED_OUT: Cell<bool> = const { Cell::new(false) };
}
#[allow(static_mut_refs)]
fn s() -> &'static mut S {
    // Only the one thread that runs comes here.
    unsafe { SCHED.as_mut().unwrap_unchecked() }
}
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
const WAIT: i64 = 128; // FUTEX_WAIT | FUTEX_PRIVATE_FLAG
const WAKE: i64 = 129;
fn hand_to(j: usize) {
    SLOTS[j].store(1, SeqCst);
    unsafe { raw(libc::SYS_futex, SLOTS[j].as_ptr() as i64, WAKE, 1, 0, 0, 0) };
}
fn wait_turn(me: usize) {
    while SLOTS[me].swap(0, SeqCst) == 0 {
        unsafe { raw(libc::SYS_futex, SLOTS[me].as_ptr() as i64, WAIT, 0, 0, 0, 0) };
    }
}
impl S {
    fn rand(&mut self) -> u64 {
        self.free = crate::rng::mix(self.free);
        self.free
    }
    /// One of the threads that can go on, other than `me`.
    fn other(&self, me: usize, by: u64) -> Option<usize> {
        let n = (0..MAX).filter(|i| *i != me && self.st[*i] == State::Ready).count() as u64;
        if n == 0 {
            return None;
        }
        (0..MAX).filter(|i| *i != me && self.st[*i] == State::Ready).nth((by % n) as usize)
    }
    fn load(&mut self) {
        self.left = self.plan.get(self.next).map_or(self.pace, |p| p.0.max(1) as u64);
    }
    fn switch(&mut self, me: usize, to: usize) {
        self.stats.switches += 1;
        self.stats.sig = crate::rng::mix(self.stats.sig ^ self.stats.points.wrapping_mul(8) ^ to as u64);
        hand_to(to);
        wait_turn(me);
    }
    fn preempt(&mut self, me: usize) {
        let by = match self.plan.get(self.next) {
            Some(p) => p.1 as u64,
            // In turns.
            None => (0..me).filter(|i| self.st[*i] == State::Ready).count() as u64,
        };
        self.next += 1;
        self.load();
        if let Some(j) = self.other(me, by) {
            self.switch(me, j);
        }
    }
    /// `me` cannot go on: someone else has to.
    fn give_up(&mut self, me: usize) -> bool {
        let by = self.rand();
        if let Some(j) = self.other(me, by) {
            self.stats.switches += 1;
            self.stats.sig = crate::rng::mix(self.stats.sig ^ self.stats.points.wrapping_mul(8) ^ j as u64);
            hand_to(j);
            return true;
        }
        // Time passes for those who wait with a limit.
        for j in 0..MAX {
            if let State::Waits { timed: true, .. } = self.st[j] {
                self.st[j] = State::Ready;
                if j == me {
                    TIMED_OUT.set(true);
                    hand_to(me);
                } else {
                    hand_to(j);
                }
                return true;
            }
        }
        false
    }
}
/// A place where the running thread may be interrupted.
#[inline]
pub fn point() {
    let me = ME.get();
    if me < 0 {
        return;
    }
    let s = s();
    s.stats.points += 1;
    s.left -= 1;
    if s.left == 0 {
        s.preempt(me as usize);
    } else if s.stats.points > LIMIT {
        unsafe { libc::_exit(87) };
    }
}
/// Runs all of `jobs`, each on a thread of its own, under `plan`, and then by turns of `pace` points.
pub fn run<T: Send>(jobs: Vec<Box<dyn FnOnce() -> T + Send + '_>>, plan: &[(u32, u8)], pace: u32, seed: u64) -> (Vec<T>, Stats) {
    let n = jobs.len();
    assert!(n <= MAX, "[harness] too many threads");
    let mut st = [State::None; MAX];
    st[..n].fill(State::Ready);
    // (the threads do not outlive this call)
    let plan: &'static [(u32, u8)] = unsafe { std::mem::transmute(plan) };
    let mut sched = S { st, plan, pace: if pace > 0 { pace as u64 } else { FAIR }, next: 0, left: 0, free: seed, stats: Stats::default() };
    sched.load();
    let first = (sched.rand() % n as u64) as usize;
    unsafe { SCHED = Some(sched) };
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(i, f)| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        wait_turn(i);
                        crate::alloc::seed_thread(crate::rng::mix(seed ^ (i as u64 + 1)));
                        ME.set(i as i32);
                        let r = f();
                        ME.set(-1);
                        let s = s();
                        s.st[i] = State::Done;
                        if !s.give_up(i) && s.st.iter().any(|x| matches!(x, State::Waits { .. })) {
                            unsafe { libc::_exit(88) };
                        }
                        r
                    })
                    .expect("[harness] thread")
            })
            .collect();
        hand_to(first);
        hs.into_iter().map(|h| h.join().expect("[harness] a thread died")).collect()
    });
    (out, s().stats)
}
/// A thread that offers its turn, or sleeps.
fn yields() {
    let me = ME.get();
    if me >= 0 {
        let s = s();
        let by = s.rand();
        if let Some(j) = s.other(me as usize, by) {
            s.switch(me as usize, j);
        }
    }
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> i32 {
    yields();
    0
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, t: *const libc::timespec, rest: *mut libc::timespec) -> i32 {
    if ME.get() >= 0 {
        yields();
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, c as i64, f as i64, t as i64, rest as i64, 0, 0) as i32
}
/// std waits for locks and wakes their owners through here.
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let me = ME.get();
    if n == libc::SYS_futex && me >= 0 {
        let me = me as usize;
        match b & 0x7f {
            0 | 9 => {
                if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                let s = s();
                s.stats.waits += 1;
                s.st[me] = State::Waits { addr: a as usize, timed: d != 0 };
                TIMED_OUT.set(false);
                if !s.give_up(me) {
                    libc::_exit(88);
                }
                wait_turn(me);
                if TIMED_OUT.replace(false) {
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            1 | 10 => {
                let s = s();
                let mut woken = 0i32;
                while woken < (c as i32).max(0) {
                    let waits = |x: &State| matches!(x, State::Waits { addr, .. } if *addr == a as usize);
                    let k = s.st.iter().filter(|x| waits(x)).count() as u64;
                    if k == 0 {
                        break;
                    }
                    let by = (s.rand() % k) as usize;
                    let j = (0..MAX).filter(|j| waits(&s.st[*j])).nth(by).unwrap();
                    s.st[j] = State::Ready;
                    woken += 1;
                }
                s.stats.wakes += woken as u64;
                return woken as i64;
            }
            _ => {}
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
