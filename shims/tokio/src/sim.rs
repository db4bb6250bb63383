//! One thread runs every task. A script on descriptor 3 decides each delivery of input bytes, how
//! much output the reader takes, which ready task runs, spurious wake-ups, the clock, and faults;
//! what happens is logged on descriptor 4. Once the script is through, all faults stop: input is
//! delivered, output read, and tasks run until nothing is ready ("heal").
//!
//! Script lines: `input HEX`, then one step a line (see `Step`). Numbers are decimal.
use crate::sys;
use real::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug)]
enum Step {
    /// `d N`: N more input bytes become readable.
    Deliver(usize),
    /// `p K C`: run up to K ready tasks, C choosing among several.
    Run(usize, usize),
    /// `s`: poll the main task although nothing woke it.
    Spurious,
    /// `r N`: the reader takes N more output bytes.
    Room(usize),
    /// `u`: the reader takes everything from now on.
    Open,
    /// `x`: the reader stops taking anything.
    Stall,
    /// `a MS`: time passes.
    Advance(u64),
    /// `c`: the input ends after what was delivered.
    Close,
    /// `b`: the reader is gone.
    Break,
    /// `e`: reading the input fails from now on.
    ReadErr,
    /// `k`: the process is killed.
    Kill,
    /// `q`: output is read, and tasks run until none is ready.
    Quiesce,
}

struct Sim {
    input: Vec<u8>,
    delivered: usize,
    read: usize,
    closed: bool,
    read_err: bool,
    in_waker: Option<Waker>,
    in_chunk: usize,
    /// Output bytes the reader still takes; None: all.
    room: Option<usize>,
    broken: bool,
    out_waker: Option<Waker>,
    out_chunk: usize,
    /// tokio hands output to another thread: accepted at once, then busy until it is written.
    threaded: bool,
    busy: Vec<u8>,
    timers: BTreeMap<(u64, u64), Waker>,
    seq: u64,
    steps: Vec<Step>,
    polls: u64,
    spawned: Vec<(Task, Arc<Flag>)>,
}
type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
static SIM: Mutex<Option<Sim>> = Mutex::new(None);
fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let mut g = SIM.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Sim::load))
}
fn log(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(4, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            sys::die(97);
        }
        b = &b[n as usize..];
    }
}
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}

impl Sim {
    fn load() -> Sim {
        let mut t = vec![];
        let mut chunk = [0u8; 65536];
        loop {
            let n = unsafe { libc::read(3, chunk.as_mut_ptr().cast(), chunk.len()) };
            if n < 0 {
                sys::die(97);
            }
            if n == 0 {
                break;
            }
            t.extend_from_slice(&chunk[..n as usize]);
        }
        let t = String::from_utf8(t).expect("script");
        let mut s = Sim {
            input: vec![],
            delivered: 0,
            read: 0,
            closed: false,
            read_err: false,
            in_waker: None,
            in_chunk: usize::MAX,
            room: Some(0),
            broken: false,
            out_waker: None,
            out_chunk: usize::MAX,
            threaded: false,
            busy: vec![],
            timers: BTreeMap::new(),
            seq: 0,
            steps: vec![],
            polls: 0,
            spawned: vec![],
        };
        for l in t.lines() {
            let mut w = l.split(' ');
            let k = w.next().unwrap();
            if k == "input" {
                let h = w.next().unwrap_or("").as_bytes();
                s.input = h
                    .chunks(2)
                    .map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap())
                    .collect();
                continue;
            }
            let mut n = || w.next().expect("argument").parse::<u64>().expect("number");
            let step = match k {
                "seed" => {
                    sys::seed(n());
                    continue;
                }
                "chunks" => {
                    (s.in_chunk, s.out_chunk) = (n() as usize, n() as usize);
                    continue;
                }
                "threaded" => {
                    s.threaded = n() > 0;
                    continue;
                }
                "d" => Step::Deliver(n() as usize),
                "p" => Step::Run(n() as usize, n() as usize),
                "s" => Step::Spurious,
                "r" => Step::Room(n() as usize),
                "u" => Step::Open,
                "x" => Step::Stall,
                "a" => Step::Advance(n()),
                "c" => Step::Close,
                "b" => Step::Break,
                "e" => Step::ReadErr,
                "k" => Step::Kill,
                "q" => Step::Quiesce,
                x => panic!("script: {x}"),
            };
            s.steps.push(step);
        }
        s
    }
    fn wake_in(&mut self) {
        if let Some(w) = self.in_waker.take() {
            w.wake();
        }
    }
    /// The reader takes what it has room for.
    fn drain(&mut self) {
        let n = self.room.unwrap_or(usize::MAX).min(self.busy.len());
        if n > 0 {
            let out: Vec<u8> = self.busy.drain(..n).collect();
            self.took(&out);
        }
        if self.broken {
            self.busy.clear();
        }
        if self.busy.is_empty() && (self.broken || self.room != Some(0) || self.threaded) {
            if let Some(w) = self.out_waker.take() {
                w.wake();
            }
        }
    }
    fn took(&mut self, b: &[u8]) {
        if let Some(r) = &mut self.room {
            *r -= b.len();
        }
        log(&format!("w {} {}\n", self.read, hex(b)));
    }
    fn fire(&mut self) {
        let now = sys::now_ms();
        while let Some(e) = self.timers.first_entry() {
            if e.key().0 > now {
                break;
            }
            e.remove().wake();
        }
    }
}

// ---------------------------------------------------------------- standard input and output

#[derive(Debug)]
pub struct Stdin(());
#[derive(Debug)]
pub struct Stdout(());
pub fn stdin() -> Stdin {
    Stdin(())
}
pub fn stdout() -> Stdout {
    Stdout(())
}
impl AsyncRead for Stdin {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        with(|s| {
            let n = (s.delivered - s.read).min(buf.remaining()).min(s.in_chunk);
            if n > 0 {
                let a = s.read;
                buf.put_slice(&s.input[a..a + n]);
                s.read += n;
                log(&format!("r {}\n", s.read));
                Poll::Ready(Ok(()))
            } else if s.read_err {
                log("event read error\n");
                Poll::Ready(Err(io::Error::from_raw_os_error(libc::EIO)))
            } else if s.closed || buf.remaining() == 0 {
                if buf.remaining() > 0 {
                    log("event eof\n");
                }
                Poll::Ready(Ok(()))
            } else {
                s.in_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}
impl AsyncWrite for Stdout {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        with(|s| {
            if s.broken {
                log("event broken pipe\n");
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            let mut n = buf.len().min(s.out_chunk);
            if s.threaded {
                if !s.busy.is_empty() {
                    s.out_waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                s.busy = buf[..n].to_vec();
                s.drain();
                return Poll::Ready(Ok(n));
            }
            n = n.min(s.room.unwrap_or(usize::MAX));
            if n == 0 && !buf.is_empty() {
                log("event output stalled\n");
                s.out_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            s.took(&buf[..n]);
            Poll::Ready(Ok(n))
        })
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        with(|s| {
            s.drain();
            if s.busy.is_empty() {
                Poll::Ready(if s.broken { Err(io::ErrorKind::BrokenPipe.into()) } else { Ok(()) })
            } else {
                s.out_waker = Some(cx.waker().clone());
                log("event output stalled\n");
                Poll::Pending
            }
        })
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

// ---------------------------------------------------------------- tasks

/// Runs ready tasks; the main one is number 0.
struct Exec<'a, F: Future> {
    main: Pin<&'a mut F>,
    flag: Arc<Flag>,
    tasks: Vec<Option<(Task, Arc<Flag>)>>,
    done: Option<F::Output>,
}
impl<F: Future> Exec<'_, F> {
    fn poll_main(&mut self) {
        if self.done.is_some() {
            return;
        }
        self.flag.0.store(false, SeqCst);
        with(|s| s.polls += 1);
        let w = Waker::from(self.flag.clone());
        if let Poll::Ready(v) = self.main.as_mut().poll(&mut Context::from_waker(&w)) {
            self.done = Some(v);
        }
    }
    fn run_one(&mut self, choice: usize) -> bool {
        self.tasks.extend(with(|s| std::mem::take(&mut s.spawned)).into_iter().map(Some));
        let mut ready: Vec<usize> = vec![];
        if self.done.is_some() {
            return false;
        }
        if self.flag.0.load(SeqCst) {
            ready.push(0);
        }
        for (i, t) in self.tasks.iter().enumerate() {
            if t.as_ref().is_some_and(|t| t.1 .0.load(SeqCst)) {
                ready.push(i + 1);
            }
        }
        if ready.is_empty() {
            return false;
        }
        let i = ready[choice % ready.len()];
        if i == 0 {
            self.poll_main();
            return true;
        }
        let (mut t, f) = self.tasks[i - 1].take().unwrap();
        f.0.store(false, SeqCst);
        with(|s| s.polls += 1);
        let w = Waker::from(f.clone());
        if t.as_mut().poll(&mut Context::from_waker(&w)).is_pending() {
            self.tasks[i - 1] = Some((t, f));
        }
        true
    }
    /// Until nothing is ready, timers included.
    fn settle(&mut self, label: &str) {
        let start = with(|s| s.polls);
        let (budget, polls) = loop {
            let (n, input) = with(|s| {
                s.drain();
                (s.polls - start, s.input.len() as u64)
            });
            let budget = 20_000 + 20 * input;
            if n > budget {
                break (false, n);
            }
            // a fair turn for everyone
            if !self.run_one(n as usize) {
                // time may pass when nothing else happens
                let next = with(|s| s.timers.keys().next().copied());
                match next {
                    Some((t, _)) if self.done.is_none() => {
                        sys::set_ms(t);
                        with(|s| s.fire());
                    }
                    _ => break (true, n),
                }
            }
        };
        let d = with(|s| s.read);
        log(&format!("work {}\n", sys::steps()));
        log(&format!("{label} {} {polls} {d} {}\n", budget as u8, self.done.is_some() as u8));
    }
}
fn run<F: Future>(fut: F) -> F::Output {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let mut fut = std::pin::pin!(fut);
    let mut x = Exec { main: fut.as_mut(), flag, tasks: vec![], done: None };
    let steps = with(|s| s.steps.clone());
    for st in steps {
        if x.done.is_some() {
            break;
        }
        match st {
            Step::Deliver(n) => with(|s| {
                let d = (s.delivered + n).min(s.input.len());
                if d > s.delivered && !s.closed {
                    s.delivered = d;
                    s.wake_in();
                }
            }),
            Step::Run(k, c) => {
                for i in 0..k {
                    if !x.run_one(c.wrapping_add(i)) {
                        break;
                    }
                }
            }
            Step::Spurious => {
                log("event spurious poll\n");
                x.poll_main();
            }
            Step::Room(n) => with(|s| {
                s.room = s.room.map(|r| r + n);
                s.drain();
            }),
            Step::Open => with(|s| {
                s.room = None;
                s.drain();
            }),
            Step::Stall => with(|s| s.room = Some(0)),
            Step::Advance(ms) => {
                sys::set_ms(sys::now_ms() + ms);
                with(|s| s.fire());
            }
            Step::Close => with(|s| {
                s.closed = true;
                s.wake_in();
            }),
            Step::Break => with(|s| {
                s.broken = true;
                s.drain();
            }),
            Step::ReadErr => with(|s| {
                s.read_err = true;
                s.wake_in();
            }),
            Step::Kill => {
                log("event killed\n");
                sys::die(0);
            }
            Step::Quiesce => {
                let was = with(|s| s.room);
                with(|s| s.room = None);
                x.settle("q");
                with(|s| s.room = was);
            }
        }
    }
    // faults stop
    with(|s| {
        s.room = None;
        s.drain();
        if !s.closed {
            s.delivered = s.input.len();
        }
        s.wake_in();
    });
    x.settle("heal");
    // and at last the input ends
    with(|s| {
        s.closed = true;
        s.wake_in();
    });
    x.settle("end");
    match x.done {
        Some(v) => {
            log("done\n");
            v
        }
        None => {
            log("stuck\n");
            sys::die(0)
        }
    }
}

#[derive(Debug)]
pub struct JoinError(&'static str);
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for JoinError {}
struct Slot<T> {
    v: Option<T>,
    waker: Option<Waker>,
    aborted: bool,
}
pub struct JoinHandle<T>(Arc<Mutex<Slot<T>>>);
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        let mut s = self.0.lock().unwrap();
        s.aborted = true;
        if let Some(w) = s.waker.take() {
            w.wake();
        }
    }
    pub fn is_finished(&self) -> bool {
        let s = self.0.lock().unwrap();
        s.v.is_some() || s.aborted
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        if let Some(v) = s.v.take() {
            Poll::Ready(Ok(v))
        } else if s.aborted {
            Poll::Ready(Err(JoinError("task was cancelled")))
        } else {
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
fn start<T: Send + 'static>(f: impl Future<Output = T> + Send + 'static) -> JoinHandle<T> {
    let slot = Arc::new(Mutex::new(Slot { v: None, waker: None, aborted: false }));
    let s2 = slot.clone();
    let mut f = Box::pin(f);
    let task = Box::pin(std::future::poll_fn(move |cx| {
        if s2.lock().unwrap().aborted {
            return Poll::Ready(());
        }
        let v = std::task::ready!(f.as_mut().poll(cx));
        let mut s = s2.lock().unwrap();
        s.v = Some(v);
        if let Some(w) = s.waker.take() {
            w.wake();
        }
        Poll::Ready(())
    }));
    with(|s| s.spawned.push((task, Arc::new(Flag(AtomicBool::new(true))))));
    JoinHandle(slot)
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    start(f)
}
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    start(f)
}
pub fn spawn_blocking<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
    start(async move { f() })
}
pub fn block_in_place<T>(f: impl FnOnce() -> T) -> T {
    f()
}
pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

#[derive(Debug, Clone)]
pub struct Handle(());
impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        start(f)
    }
    pub fn spawn_blocking<T: Send + 'static>(&self, f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
        spawn_blocking(f)
    }
}
#[derive(Debug)]
pub struct Runtime(());
impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        Ok(Runtime(()))
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        run(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        start(f)
    }
    pub fn handle(&self) -> Handle {
        Handle(())
    }
    pub fn shutdown_background(self) {}
    pub fn shutdown_timeout(self, _: std::time::Duration) {}
}
#[derive(Debug)]
pub struct Builder(());
impl Builder {
    pub fn new_multi_thread() -> Builder {
        Builder(())
    }
    pub fn new_current_thread() -> Builder {
        Builder(())
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Ok(Runtime(()))
    }
}

// ---------------------------------------------------------------- time

pub mod time {
    use super::*;
    use std::time::Duration;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(u64);
    impl Instant {
        pub fn now() -> Instant {
            Instant(sys::now_ms())
        }
        pub fn elapsed(&self) -> Duration {
            Duration::from_millis(sys::now_ms().saturating_sub(self.0))
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            Duration::from_millis(self.0.saturating_sub(o.0))
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0.saturating_add(d.as_millis() as u64))
        }
    }
    impl std::ops::Sub for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
    #[derive(Debug)]
    pub struct Sleep(u64);
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if sys::now_ms() >= self.0 {
                return Poll::Ready(());
            }
            with(|s| {
                s.seq += 1;
                s.timers.insert((self.0, s.seq), cx.waker().clone());
            });
            Poll::Pending
        }
    }
    pub fn sleep(d: Duration) -> Sleep {
        sleep_until(Instant::now() + d)
    }
    pub fn sleep_until(t: Instant) -> Sleep {
        Sleep(t.0)
    }
    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        let mut t = sleep(d);
        let mut f = Box::pin(f);
        std::future::poll_fn(move |cx| {
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            Pin::new(&mut t).poll(cx).map(|()| Err(error::Elapsed(())))
        })
        .await
    }
    #[derive(Debug)]
    pub struct Interval(Instant, Duration);
    pub fn interval(d: Duration) -> Interval {
        Interval(Instant::now(), d)
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            let at = self.0;
            sleep_until(at).await;
            self.0 = at + self.1;
            at
        }
    }
}

