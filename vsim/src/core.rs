//! Runs scenarios: each in a freshly forked process, many in parallel, deterministically from one
//! seed; shrinks and reports the first violation; writes the evidence file.
use crate::rng::{fnv, mix, Rng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// Class of violation; minimisation keeps it.
    pub kind: String,
    pub detail: String,
}

/// What one run reports.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violation: Option<Violation>,
    /// Fault kinds fired, probes hit, ...
    pub counts: BTreeMap<String, u64>,
    /// Hash over the whole event log: equal for equal executions.
    pub log_hash: u64,
    /// What this run explored, by the property's own measure.
    pub sig: u64,
    pub nontrivial: bool,
    /// Simulated time: scheduler steps / events.
    pub steps: u64,
    /// Something in the harness, not in the code under test, went wrong.
    pub harness_error: Option<String>,
    #[serde(default)]
    pub log: Vec<String>,
}

/// Handed to a running scenario.
pub struct Ctx {
    pub out: Outcome,
    keep_log: bool,
}
impl Ctx {
    /// For harness code that needs a place to count into.
    pub fn scratch() -> Self {
        Ctx::new(false)
    }
    fn new(keep_log: bool) -> Self {
        Ctx { out: Outcome { log_hash: 0xcbf29ce484222325, ..Default::default() }, keep_log }
    }
    /// Records an event; part of the run's identity.
    pub fn log(&mut self, ev: impl AsRef<str>) {
        let ev = ev.as_ref();
        self.out.log_hash = mix(self.out.log_hash ^ fnv(ev.as_bytes()));
        self.out.steps += 1;
        if self.keep_log && self.out.log.len() < 2000 {
            self.out.log.push(ev.chars().take(400).collect());
        }
    }
    pub fn count(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(c) = self.out.counts.get_mut(what) {
            *c += n;
        } else {
            self.out.counts.insert(what.to_string(), n);
        }
    }
    pub fn fail(&mut self, kind: &str, detail: impl Into<String>) {
        if self.out.violation.is_none() {
            self.out.violation = Some(Violation { kind: kind.into(), detail: detail.into() });
        }
    }
    pub fn failed(&self) -> bool {
        self.out.violation.is_some()
    }
    pub fn sig(&mut self, x: u64) {
        self.out.sig = mix(self.out.sig ^ x);
    }
}

/// Use as `ensure!(cx, cond, "kind", "detail {}", x)`; returns from the enclosing fn on failure.
#[macro_export]
macro_rules! ensure {
    ($cx:expr, $c:expr, $k:expr, $($a:tt)*) => {
        if !$c { $cx.fail($k, format!($($a)*)); return Default::default(); }
    };
}

pub struct Budget {
    pub runs: u64,
    pub secs: f64,
}

pub trait Prop: Sync {
    type Sc: Serialize + DeserializeOwned + Clone;
    fn id(&self) -> &'static str;
    fn gen(&self, r: &mut Rng) -> Self::Sc;
    fn run(&self, sc: &Self::Sc, cx: &mut Ctx);
    fn shrink(&self, sc: &Self::Sc) -> Vec<Self::Sc>;
    fn budget(&self, thorough: bool) -> Budget;
    fn rule(&self) -> &'static str;
    /// Extra facts for the evidence file (real components, stubs, fault vocabulary ...).
    fn describe(&self) -> serde_json::Value;
    fn assumptions(&self) -> Vec<&'static str>;
    /// Seconds of CPU one run may take before it counts as a hang.
    fn cpu_secs(&self) -> u64 {
        20
    }
    /// Human-readable rendering for samples.
    fn show(&self, sc: &Self::Sc) -> serde_json::Value {
        serde_json::to_value(sc).unwrap()
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
static IN_CHILD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !IN_CHILD.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("harness: {msg} at {at}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {at}")));
    }));
}
/// Payload of panics the simulator injects.
pub struct Injected;
pub fn inject_panic() -> ! {
    std::panic::resume_unwind(Box::new(Injected))
}
/// Runs code under test, telling apart its own panics from injected ones.
pub enum Caught<T> {
    Ok(T),
    Injected,
    Panic(String),
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Caught::Ok(v),
        Err(e) if e.is::<Injected>() => Caught::Injected,
        Err(_) => Caught::Panic(take_panic()),
    }
}

fn pipe() -> (OwnedFd, OwnedFd) {
    let mut f = [0; 2];
    assert_eq!(unsafe { libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "pipe");
    unsafe { (OwnedFd::from_raw_fd(f[0]), OwnedFd::from_raw_fd(f[1])) }
}

pub enum Exit {
    Done(Vec<u8>),
    Signal(i32),
    Code(i32),
    Blocked,
}
/// Runs `f` in a forked child and returns the bytes it produced, or how it died.
pub fn in_child(cpu: u64, f: impl FnOnce() -> Vec<u8>) -> Exit {
    let (rd, wr) = pipe();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        drop(rd);
        IN_CHILD.store(true, std::sync::atomic::Ordering::Relaxed);
        let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe {
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            libc::setrlimit(libc::RLIMIT_CORE, &c);
            let mut s: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_STACK, &mut s);
            s.rlim_cur = s.rlim_max.min(8 << 20);
            libc::setrlimit(libc::RLIMIT_STACK, &s);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if std::env::var_os("VSIM_STDERR").is_none() {
                libc::dup2(n, 2);
            }
        }
        let out = f();
        let mut o = unsafe { std::fs::File::from_raw_fd(wr.as_raw_fd()) };
        let ok = o.write_all(&out).is_ok();
        unsafe { libc::_exit(if ok { 0 } else { 99 }) };
    }
    drop(wr);
    let mut rf = std::fs::File::from(rd);
    let mut buf = vec![];
    let mut chunk = [0u8; 65536];
    let start = Instant::now();
    let mut killed = false;
    loop {
        let mut p = libc::pollfd { fd: rf.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, 5000) };
        if n > 0 {
            match rf.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(_) => break,
            }
        } else if start.elapsed().as_secs() > 60 && !killed {
            // No CPU used for a minute: the run waits for something that cannot come.
            let used = std::fs::read_to_string(format!("/proc/{pid}/stat"))
                .ok()
                .and_then(|s| {
                    let f: Vec<u64> = s.rsplit(')').next()?.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    Some(f.get(10)? + f.get(11)?)
                })
                .unwrap_or(0);
            if used < 500 || start.elapsed().as_secs() > 300 {
                unsafe { libc::kill(pid, libc::SIGKILL) };
                killed = true;
            }
        }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if killed {
        return Exit::Blocked;
    }
    if libc::WIFSIGNALED(st) {
        return Exit::Signal(libc::WTERMSIG(st));
    }
    match libc::WEXITSTATUS(st) {
        0 => Exit::Done(buf),
        c => Exit::Code(c),
    }
}

/// One run of one scenario, in its own process.
pub fn execute<P: Prop>(p: &P, sc: &P::Sc, keep_log: bool) -> Outcome {
    let e = in_child(p.cpu_secs(), || {
        let mut cx = Ctx::new(keep_log);
        crate::alloc::seed_random(fnv(&serde_json::to_vec(sc).unwrap()));
        let r = catch_unwind(AssertUnwindSafe(|| p.run(sc, &mut cx)));
        if r.is_err() {
            let m = take_panic();
            if m.contains("[harness]") {
                cx.out.harness_error = Some(m);
            } else {
                cx.fail("panic", m);
            }
        }
        serde_json::to_vec(&cx.out).unwrap()
    });
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let v = |kind: &str, detail: String| Some(Violation { kind: kind.into(), detail });
    match e {
        Exit::Done(b) => {
            return serde_json::from_slice(&b)
                .unwrap_or_else(|e| Outcome { harness_error: Some(format!("result: {e}")), ..Default::default() })
        }
        Exit::Signal(libc::SIGXCPU) => o.violation = v("hang", format!("no end after {} s of CPU", p.cpu_secs())),
        Exit::Signal(s) => {
            o.violation = v("abort", format!("the process died of signal {s} (stack overflow, abort or memory fault)"))
        }
        Exit::Code(87) => o.violation = v("work", "simulated work budget exhausted".into()),
        Exit::Code(88) => o.violation = v("deadlock", "every thread waits for another".into()),
        Exit::Code(c) => o.harness_error = Some(format!("run ended with status {c}")),
        Exit::Blocked => o.violation = v("hang", "the run blocked without using CPU".into()),
    }
    o.log_hash = fnv(format!("{:?}", o.violation).as_bytes());
    o
}

pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed) ^ fnv(id.as_bytes()) ^ mix(i.wrapping_mul(0x9E3779B97F4A7C15)))
}

#[derive(Default, Serialize, Deserialize)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    sigs: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    reran: u64,
    diverged: Vec<u64>,
    found: Option<(u64, Violation)>,
    harness: Option<String>,
}

fn worker<P: Prop>(p: &P, seed: u64, w: u64, n: u64, b: &Budget, stop: &std::sync::atomic::AtomicU64) -> Agg {
    use std::sync::atomic::Ordering::SeqCst;
    let t = Instant::now();
    let mut a = Agg::default();
    let mut i = w;
    while i < b.runs && t.elapsed().as_secs_f64() < b.secs && stop.load(SeqCst) == 0 {
        let sc = p.gen(&mut Rng::new(run_seed(seed, p.id(), i)));
        let o = execute(p, &sc, false);
        a.runs += 1;
        a.steps += o.steps;
        if o.nontrivial {
            a.nontrivial += 1;
            a.sigs.insert(o.sig);
        }
        for (k, v) in &o.counts {
            *a.counts.entry(k.clone()).or_default() += v;
        }
        if let Some(h) = o.harness_error {
            a.harness = Some(format!("run {i}: {h}"));
            stop.store(1, SeqCst);
            break;
        }
        // Determinism is re-checked on a sample of every batch.
        if i % 53 == 7 && o.violation.is_none() {
            let sc2 = p.gen(&mut Rng::new(run_seed(seed, p.id(), i)));
            let o2 = execute(p, &sc2, false);
            a.reran += 1;
            if o2.log_hash != o.log_hash || o2.violation != o.violation {
                a.diverged.push(i);
            }
        }
        if let Some(v) = o.violation {
            a.found = Some((i, v));
            stop.store(1, SeqCst);
            break;
        }
        i += n;
    }
    a
}

#[derive(Serialize, Deserialize)]

pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub violation: Violation,
    pub log_hash: u64,
    #[serde(default)]
    pub shrunk_from_bytes: usize,
    pub scenario: serde_json::Value,
    #[serde(default)]
    pub event_log: Vec<String>,
}

#[derive(Deserialize)]
pub struct Known {
    pub property: String,
    pub finding: String,
    /// Exit class the scenario is known to produce.
    pub kind: String,
    pub scenario: serde_json::Value,
    /// Where given, every violation that names this call site is the same finding.
    #[serde(default)]
    pub call_site: Option<String>,
}
#[derive(Deserialize)]
struct KnownFile {
    findings: Vec<Known>,
}
static KNOWN_SITES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
static STRICT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Is this the message of a listed finding? (Never while a listed finding itself is replayed.)
pub fn known_site(m: &str) -> bool {
    !STRICT.load(std::sync::atomic::Ordering::Relaxed)
        && KNOWN_SITES.get().is_some_and(|k| k.iter().any(|s| m.contains(s.as_str())))
}
/// Is a listed finding being replayed?
pub fn strict() -> bool {
    STRICT.load(std::sync::atomic::Ordering::Relaxed)
}
fn load_known(id: &str) -> Result<Vec<Known>, String> {
    let kf = format!("{}/known-findings.json", verif_dir());
    let s = std::fs::read_to_string(&kf).map_err(|e| format!("{kf}: {e}"))?;
    let k: KnownFile = serde_json::from_str(&s).map_err(|e| format!("{kf}: {e}"))?;
    // What one property's finding is named by is the same finding for its neighbours (D.., L.., ...).
    let near = |k: &Known| k.property[..1] == id[..1];
    KNOWN_SITES.set(k.findings.iter().filter(|k| near(k)).filter_map(|k| k.call_site.clone()).collect()).ok();
    Ok(k.findings.into_iter().filter(|k| k.property == id).collect())
}
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn minimise<P: Prop>(p: &P, sc: P::Sc, v: Violation, secs: f64) -> (P::Sc, Outcome, u64) {
    let t = Instant::now();
    let mut cur = sc;
    let mut best = execute(p, &cur, true);
    if best.violation.is_none() {
        best.violation = Some(v);
        return (cur, best, 0);
    }
    let kind = best.violation.as_ref().unwrap().kind.clone();
    let mut tries = 0;
    'again: loop {
        for c in p.shrink(&cur) {
            if t.elapsed().as_secs_f64() > secs || tries > 20000 {
                break 'again;
            }
            tries += 1;
            let o = execute(p, &c, true);
            if o.violation.as_ref().is_some_and(|v| v.kind == kind) {
                cur = c;
                best = o;
                continue 'again;
            }
        }
        break;
    }
    (cur, best, tries)
}

/// `vsim check`: returns the process exit status.
pub fn check<P: Prop>(p: &P, seed: u64, tier: &str, build_s: f64) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let thorough = tier == "thorough";
    let mut b = p.budget(thorough);
    if let Ok(x) = std::env::var("VSIM_SECS") {
        b.secs = x.parse().unwrap();
        b.runs = u64::MAX;
    }
    if let Ok(x) = std::env::var("VSIM_RUNS") {
        b.runs = x.parse().unwrap();
    }
    let workers: u64 = std::env::var("VSIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    println!("# property {id} tier {tier} VERIF_SEED {seed}");
    if crate::alloc::edges().0 == 0 {
        eprintln!("harness: the code under test is not instrumented; build with check.sh");
        return 2;
    }
    crate::alloc::share_edges();

    // Listed findings first: they are replayed, and must still fail as listed to be reported so.
    let mut known_hit = vec![];
    let known = match load_known(id) {
        Ok(k) => k,
        Err(e) => {
            eprintln!("harness: {e}");
            return 2;
        }
    };
    STRICT.store(true, std::sync::atomic::Ordering::Relaxed);
    for k in &known {
        let Ok(sc) = serde_json::from_value::<P::Sc>(k.scenario.clone()) else {
            eprintln!("harness: known finding of {id} has an unreadable scenario");
            return 2;
        };
        let o = execute(p, &sc, false);
        match o.violation {
            Some(v) if v.kind == k.kind && k.call_site.as_ref().is_none_or(|s| v.detail.contains(s.as_str())) => {
                println!("KNOWN-FINDING: property={id} {}", k.finding);
                known_hit.push(k.finding.clone());
            }
            Some(v) => {
                println!("# listed scenario now fails differently: {} ({})", v.kind, v.detail);
                return report(p, sc, v, seed, u64::MAX, &b);
            }
            None => println!("# listed finding no longer fails: {}", k.finding),
        }
    }

    STRICT.store(false, std::sync::atomic::Ordering::Relaxed);

    // Fan out.
    let stop = unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        &*(m as *const std::sync::atomic::AtomicU64)
    };
    let mut kids = vec![];
    for w in 0..workers {
        let (rd, wr) = pipe();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            drop(rd);
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let a = worker(p, seed, w, workers, &b, stop);
            let mut o = std::fs::File::from(wr);
            let ok = o.write_all(&serde_json::to_vec(&a).unwrap()).is_ok();
            drop(o);
            unsafe { libc::_exit(if ok { 0 } else { 1 }) };
        }
        kids.push((pid, std::fs::File::from(rd)));
    }
    let mut all = Agg::default();
    let mut founds = vec![];
    for (pid, mut f) in kids {
        let mut s = vec![];
        f.read_to_end(&mut s).ok();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let a: Agg = match serde_json::from_slice(&s) {
            Ok(a) => a,
            Err(e) => {
                eprintln!("harness: a worker died (status {st}): {e}");
                return 2;
            }
        };
        all.runs += a.runs;
        all.nontrivial += a.nontrivial;
        all.steps += a.steps;
        all.sigs.extend(a.sigs);
        for (k, v) in a.counts {
            *all.counts.entry(k).or_default() += v;
        }
        all.reran += a.reran;
        all.diverged.extend(a.diverged);
        founds.extend(a.found);
        all.harness = all.harness.or(a.harness);
    }
    if let Some(h) = &all.harness {
        eprintln!("harness: {h}");
        return 2;
    }
    if !all.diverged.is_empty() && founds.is_empty() {
        eprintln!("harness: runs {:?} did not repeat exactly", all.diverged);
        return 2;
    }
    founds.sort_by_key(|f| f.0);
    let search_s = t0.elapsed().as_secs_f64();
    let edges = crate::alloc::edges();

    // Samples of what actually ran.
    let samples: Vec<serde_json::Value> = (0..3u64)
        .map(|k| {
            let i = k * (all.runs / 3).max(1);
            let sc = p.gen(&mut Rng::new(run_seed(seed, id, i)));
            serde_json::json!({"run": i, "scenario": p.show(&sc)})
        })
        .collect();
    let per_hour = (all.runs as f64 / search_s * 3600.0) as u64;
    let ev = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": all.sigs.len(),
            "rule": p.rule(),
            "samples": samples,
            "nontrivial_runs": all.nontrivial,
            "simulated_steps": all.steps,
            "runs_per_hour": per_hour,
            "seeds": format!("run i of VERIF_SEED={seed} is seeded with hash(VERIF_SEED, property, i), i < {}", b.runs),
            "fired_and_probes": all.counts,
            "branches_of_kdl_and_its_parser_library": edges.0,
            "branches_reached": edges.1,
            "determinism_reruns": all.reran,
            "determinism_divergences": all.diverged.len(),
            "workers": workers,
            "known_findings_reproduced": known_hit,
            "simulation": p.describe(),
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64() + build_s,
        "violations": founds.len().min(1),
    });
    let ed = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&ed).ok();
    if let Err(e) = std::fs::write(format!("{ed}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("harness: evidence: {e}");
        return 2;
    }
    println!(
        "# {} runs ({} distinct non-trivial), {} simulated steps, {:.1} s, {} reruns identical",
        all.runs,
        all.sigs.len(),
        all.steps,
        search_s,
        all.reran - all.diverged.len() as u64
    );
    for (k, v) in &all.counts {
        println!("#   {k}: {v}");
    }
    if let Some((i, v)) = founds.into_iter().next() {
        let sc = p.gen(&mut Rng::new(run_seed(seed, id, i)));
        return report(p, sc, v, seed, i, &b);
    }
    if all.runs == 0 || all.nontrivial == 0 {
        eprintln!("harness: nothing was explored");
        return 2;
    }
    println!("OK property={id}");
    0
}

fn report<P: Prop>(p: &P, sc: P::Sc, v: Violation, seed: u64, i: u64, _b: &Budget) -> i32 {
    let id = p.id();
    let before = serde_json::to_vec(&sc).unwrap().len();
    println!("# found at run {i}: {}: {}", v.kind, v.detail);
    let (sc, o, tries) = minimise(p, sc, v, 90.0);
    let v = o.violation.clone().unwrap();
    let rep = Replay {
        property: id.into(),
        seed,
        index: i,
        violation: v.clone(),
        log_hash: o.log_hash,
        shrunk_from_bytes: before,
        scenario: serde_json::to_value(&sc).unwrap(),
        event_log: o.log,
    };
    let d = format!("{}/replay", verif_dir());
    std::fs::create_dir_all(&d).ok();
    let path = format!("{d}/{id}-{seed}-{i}.json");
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("replay file");
    println!("# minimised with {tries} runs: {}: {}", v.kind, v.detail);
    println!("VIOLATION property={id} replay={path}");
    1
}

/// `vsim run`: one run of a check, shown.
pub fn one<P: Prop>(p: &P, seed: u64, i: u64) -> i32 {
    if let Err(e) = load_known(p.id()) {
        eprintln!("harness: {e}");
        return 2;
    }
    let sc = p.gen(&mut Rng::new(run_seed(seed, p.id(), i)));
    println!("{}", serde_json::to_string(&sc).unwrap());
    let o = execute(p, &sc, true);
    for l in &o.log {
        println!("{l}");
    }
    println!("# {:?} {:?} log {:x}", o.violation, o.harness_error, o.log_hash);
    0
}

pub fn replay<P: Prop>(p: &P, r: Replay, path: &str) -> i32 {
    if let Err(e) = load_known(p.id()) {
        eprintln!("harness: {e}");
        return 2;
    }
    let sc: P::Sc = serde_json::from_value(r.scenario).expect("scenario");
    let o = execute(p, &sc, true);
    for l in &o.log {
        println!("{l}");
    }
    match o.violation {
        Some(v) => {
            println!("# {}: {}", v.kind, v.detail);
            println!(
                "# execution {}",
                if o.log_hash == r.log_hash { "identical to the recorded one" } else { "differs from the recorded one" }
            );
            println!("VIOLATION property={} replay={path}", p.id());
            1
        }
        None => {
            println!("# the recorded violation does not occur: {}", r.violation.kind);
            0
        }
    }
}
