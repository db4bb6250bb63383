//! C01: what a call gives does not depend on what other threads do at the same time, nor on what
//! happened before: every call of a run, made on simulated threads, is compared with the same call
//! made alone in a fresh process.
use crate::core::*;
use crate::disk::{snippet, Fault};
use crate::doc::*;
use crate::p_print::{build_doc, draw_prep, node, prep, Prep};
use crate::rng::{fnv, mix, Rng};
use crate::shape::*;
use kdl::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    /// A document, prepared before the threads start, that all may read.
    pub shared: String,
    pub preps: Vec<Prep>,
    /// Where an error that all may read comes from.
    pub wreck: String,
    pub threads: Vec<Vec<Call>>,
    /// Switch after so many points, to this thread.
    pub plan: Vec<(u32, u8)>,
    /// Then switch after so many points, if not 0.
    #[serde(default)]
    pub pace: u32,
    pub seed: u64,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Call {
    pub op: Op,
    pub times: u16,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Parse { text: String, how: u8 },
    /// Parse, change, print.
    Work { text: String, preps: Vec<P> },
    Format { text: String, no_comments: bool, level: u8, tabs: bool, keep: bool },
    Convert { text: String, to_v1: bool },
    /// Into a writer that fails or panics after so many bytes.
    Print { text: String, at: u32, panic: bool },
    Write { sh: Box<Sh>, v: Box<Va>, at: u32, how: Option<Strike>, doc: bool },
    Read { sh: Box<Sh>, text: String, at: u32, how: Option<Strike> },
    Json { text: String },
    Build { text: String },
    Shared { how: u8, n: u32 },
    SharedError { how: u8 },
}
/// Prep has no equality.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P(pub Prep);
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        format!("{:?}", self.0) == format!("{:?}", o.0)
    }
}
pub struct Threads;

struct World {
    doc: Option<KdlDocument>,
    err: Option<KdlError>,
}
impl World {
    fn new(sc: &Sc) -> World {
        let mut doc = KdlDocument::parse_v2(&sc.shared).ok();
        if let Some(d) = &mut doc {
            for p in &sc.preps {
                prep(d, p);
            }
        }
        World { doc, err: KdlDocument::parse_v2(&sc.wreck).err() }
    }
}
struct Narrow {
    left: usize,
    got: String,
    panic: bool,
}
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            if self.panic {
                inject_panic();
            }
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn error(e: &KdlError) -> String {
    use miette::Diagnostic;
    let labels = |d: &dyn Diagnostic| d.labels().map(|l| l.map(|x| format!("{x:?}")).collect::<Vec<_>>());
    let mut o = format!("{e} {e:?} {:?}", labels(e));
    for d in &e.diagnostics {
        write!(o, " | {d} {:?} {:?} {:?}", d.severity(), labels(d), d.help().map(|h| h.to_string())).unwrap();
    }
    for d in e.related().into_iter().flatten() {
        write!(o, " | {d}").unwrap();
    }
    o
}
fn doc(r: Result<KdlDocument, KdlError>) -> String {
    match r {
        Ok(d) => format!("{d:?} {d}"),
        Err(e) => error(&e),
    }
}
fn do_it(op: &Op, w: &World) -> String {
    match op {
        Op::Parse { text, how } => match how % 8 {
            0 | 1 => doc(KdlDocument::parse_v2(text)),
            2 => doc(KdlDocument::parse(text)),
            3 => doc(KdlDocument::parse_v1(text)),
            4 => doc(text.parse()),
            5 => KdlNode::parse(text).map_or_else(|e| error(&e), |n| format!("{n:?} {n}")),
            6 => KdlEntry::parse(text).map_or_else(|e| error(&e), |n| format!("{n:?} {n}")),
            _ => KdlIdentifier::parse(text).map_or_else(|e| error(&e), |n| format!("{n:?} {n}")),
        },
        Op::Work { text, preps } => match KdlDocument::parse_v2(text) {
            Err(e) => error(&e),
            Ok(mut d) => {
                for P(p) in preps {
                    prep(&mut d, p);
                }
                let again = KdlDocument::parse_v2(&d.to_string());
                format!("{d:?} {d} {}", doc(again))
            }
        },
        Op::Format { text, no_comments, level, tabs, keep } => match KdlDocument::parse_v2(text) {
            Err(e) => error(&e),
            Ok(mut d) => {
                let indent = if *tabs { "\t" } else { "    " };
                let mut f = FormatConfig::builder().indent(indent).indent_level(*level as usize).no_comments(*no_comments).build();
                f.entry_autoformate_keep = *keep;
                d.autoformat_config(&f);
                format!("{d:?} {d}")
            }
        },
        Op::Convert { text, to_v1 } => {
            let r = if *to_v1 { KdlDocument::v2_to_v1(text) } else { KdlDocument::v1_to_v2(text) };
            r.unwrap_or_else(|e| error(&e))
        }
        Op::Print { text, at, panic } => match KdlDocument::parse_v2(text) {
            Err(e) => error(&e),
            Ok(d) => {
                let mut n = Narrow { left: text.len() * *at as usize / 1000, got: String::new(), panic: *panic };
                let r = match catch(|| write!(n, "{d}")) {
                    Caught::Ok(r) => format!("{r:?}"),
                    Caught::Injected => "the writer's panic".into(),
                    Caught::Panic(m) => m,
                };
                format!("{r} {} {d}", n.got)
            }
        },
        Op::Write { sh, v, at, how, doc } => {
            let t = Ticker::new(*at, how.clone());
            let s = Ser(sh, v, &t);
            let r = if *doc { kdl::se::to_document(&s).map(|d| format!("{d:?}")) } else { kdl::se::to_string(&s) };
            format!("{:?} {}", r.map_err(|e| format!("{e} {e:?}")), t.ticks.get())
        }
        Op::Read { sh, text, at, how } => {
            let t = Ticker::new(*at, how.clone());
            let r = from_str(sh, &t, text);
            format!("{:?} {}", r.map_err(|e| format!("{e} {e:?}")), t.ticks.get())
        }
        Op::Json { text } => format!("{:?}", kdl::de::from_str::<serde_json::Value>(text).map_err(|e| format!("{e} {e:?}"))),
        Op::Build { text } => match KdlDocument::parse_v2(text) {
            Err(e) => error(&e),
            Ok(d) => {
                let mut b = build_doc(&k_doc(&d));
                let plain = b.to_string();
                b.autoformat();
                format!("{plain} {b} {}", doc(KdlDocument::parse_v2(&b.to_string())))
            }
        },
        Op::Shared { how, n } => {
            let Some(d) = &w.doc else { return String::new() };
            match how % 8 {
                0 => d.to_string(),
                1 => {
                    let c = d.clone();
                    format!("{} {}", c == *d, c)
                }
                2 => format!("{:x}", hash(d)),
                3 => format!("{d:?}"),
                4 => {
                    let mut c = d.clone();
                    c.autoformat();
                    format!("{c} {}", c == *d)
                }
                5 => node(d, *n).map_or(String::new(), |n| {
                    format!("{n} {:?} {:?} {:?}", n.get(0), n.name(), n.iter().map(|e| e.to_string()).collect::<Vec<_>>())
                }),
                6 => node(d, *n).map_or(String::new(), |n| {
                    let name = n.name().value();
                    format!("{:?} {:?} {:?}", d.get(name).map(|n| n.to_string()), d.get_arg(name), d.iter_args(name).collect::<Vec<_>>())
                }),
                _ => d.nodes().iter().map(|n| format!("{} {:?};", n.len(), n.children().map(|k| k.len()))).collect(),
            }
        }
        Op::SharedError { how } => {
            let Some(e) = &w.err else { return String::new() };
            match how % 3 {
                0 => error(e),
                1 => error(&e.clone()),
                _ => e.diagnostics.iter().map(|d| format!("{d:?}")).collect(),
            }
        }
    }
}
fn call(c: &Call, w: &World) -> String {
    let one = || match catch(|| do_it(&c.op, w)) {
        Caught::Ok(s) => s,
        Caught::Injected => "the type's panic".into(),
        Caught::Panic(m) => format!("panic: {m}"),
    };
    let first = one();
    for i in 1..c.times {
        let s = one();
        if s != first {
            return format!("{} at first, and the {}. time {}", cut(&first), i + 1, cut(&s));
        }
    }
    first
}
fn cut(s: &str) -> String {
    if s.len() < 500 { s.to_string() } else { s.chars().take(500).collect::<String>() + "..." }
}
/// Both from where they first differ.
fn differ(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count().saturating_sub(60);
    let f = |s: &str| s.chars().skip(n).take(300).collect::<String>();
    format!("{:?} alone, {:?} here", f(a), f(b))
}

fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => snippet(r),
        1 => (*r.pick(&["a", "1", "\"x\"", "a 1", "a {", "}", "/* ", "a \"", "#\"", "-", "k=1", "/-a", "true", "a b=\"c\" { d; }"])).to_string(),
        2 => {
            let n = if r.pct(30) { r.range(60, 250) } else { r.range(1, 30) };
            let m = if r.pct(60) { n } else { r.range(0, n) };
            format!("{}b 1{}", "a {".repeat(n), "}".repeat(m))
        }
        _ => {
            let t = rand_doc(r).1.to_text();
            let t = if t.len() > 600 && r.pct(80) { t.chars().take(r.range(50, 600)).collect() } else { t };
            let mut b = t.into_bytes();
            if r.pct(35) {
                for _ in 0..r.range(1, 2) {
                    Fault::draw(r, b.len(), &mut |r| snippet(r)).apply(&mut b);
                }
            }
            String::from_utf8_lossy(&b).into_owned()
        }
    }
}
fn op(r: &mut Rng, texts: &[String]) -> Op {
    let t = |r: &mut Rng| if r.pct(60) { r.pick(texts).clone() } else { text(r) };
    let strike = |r: &mut Rng| {
        r.pct(40).then(|| if r.pct(50) { Strike::Error(format!("no. {}", r.below(100))) } else { Strike::Panic })
    };
    match r.below(20) {
        0..=4 => Op::Parse { text: t(r), how: r.below(8) as u8 },
        5 => Op::Work { text: t(r), preps: (0..r.range(1, 4)).map(|_| P(draw_prep(r))).collect() },
        6 => Op::Format { text: t(r), no_comments: r.pct(40), level: r.below(3) as u8, tabs: r.pct(50), keep: r.pct(40) },
        7 => Op::Convert { text: t(r), to_v1: r.pct(50) },
        8 => Op::Print { text: t(r), at: r.below(1000) as u32, panic: r.pct(50) },
        9 | 10 => {
            let supported = r.pct(70);
            let mut g = Gen::new(r, supported);
            let sh = g.shape(At::Top, 0);
            let v = g.value(&sh);
            Op::Write { sh: Box::new(sh), v: Box::new(v), at: r.below(20) as u32, how: strike(r), doc: r.pct(40) }
        }
        11 | 12 => {
            let mut g = Gen::new(r, true);
            let sh = g.shape(At::Top, 0);
            Op::Read { sh: Box::new(sh), text: t(r), at: r.below(12) as u32, how: strike(r) }
        }
        13 => Op::Json { text: t(r) },
        14 => Op::Build { text: t(r) },
        15..=18 => Op::Shared { how: r.below(8) as u8, n: r.u64() as u32 },
        _ => Op::SharedError { how: r.below(3) as u8 },
    }
}

impl Prop for Threads {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        // Threads meet over the same few texts.
        let texts: Vec<String> = (0..r.range(1, 3)).map(|_| text(r)).collect();
        let n = if r.pct(25) { 1 } else { r.range(2, 4) };
        // The same call on all threads at first.
        let meet = r.pct(35).then(|| op(r, &texts));
        let most = *r.pick(&[1, 2, 4, 8]);
        let threads: Vec<Vec<Call>> = (0..n)
            .map(|_| {
                (0..r.range(1, most))
                    .map(|i| {
                        let op = match &meet {
                            Some(o) if i == 0 => o.clone(),
                            _ => op(r, &texts),
                        };
                        let short = match &op {
                            Op::Parse { text, .. } | Op::Json { text } | Op::Read { text, .. } | Op::Print { text, .. } => text.len() < 40,
                            Op::Write { .. } => true,
                            _ => false,
                        };
                        Call { op, times: if short && r.pct(8) { r.range(2, 300) as u16 } else if r.pct(10) { 2 } else { 1 } }
                    })
                    .collect()
            })
            .collect();
        let top = r.range(2, 17);
        let pace = if n > 1 && r.pct(40) { 1 << r.range(3, 18) } else { 0 };
        let bound = *r.pick(&[0, 2, 8, 40, 200, 200]);
        let bound = if pace > 0 && r.pct(50) { 0 } else { bound };
        let plan = (0..if n > 1 { r.below(bound + 1) } else { 0 })
            .map(|_| {
                let scale = r.below(top);
                (1 + r.below(1 << scale) as u32, r.below(256) as u8)
            })
            .collect();
        let preps = (0..r.below(3)).map(|_| draw_prep(r)).collect();
        Sc { shared: r.pick(&texts).clone(), preps, wreck: text(r) + "}", threads, plan, pace, seed: r.u64() }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        // What every call gives alone.
        let mut alone: Vec<(&Call, String)> = vec![];
        let once = |c: &Call| Call { op: c.op.clone(), times: 1 };
        for (i, c) in sc.threads.iter().flatten().enumerate() {
            if alone.iter().any(|a| a.0.op == c.op) {
                continue;
            }
            let e = in_child(self.cpu_secs(), || {
                crate::alloc::seed_random(mix(sc.seed ^ (i as u64 + 99)));
                call(&once(c), &World::new(sc)).into_bytes()
            });
            match e {
                Exit::Done(b) => alone.push((c, String::from_utf8(b).expect("[harness] utf8"))),
                _ => return cx.count("call that ends its process"),
            }
        }
        let want = |c: &Call| &alone.iter().find(|a| a.0.op == c.op).unwrap().1;
        let world = match catch(|| World::new(sc)) {
            Caught::Ok(w) => w,
            _ => return cx.count("call that ends its process"),
        };
        let w = &world;
        let jobs: Vec<Box<dyn FnOnce() -> Vec<String> + Send>> = sc
            .threads
            .iter()
            .map(|t| Box::new(move || t.iter().map(|c| call(c, w)).collect::<Vec<String>>()) as Box<dyn FnOnce() -> Vec<String> + Send>)
            .collect();
        let (got, stats) = crate::sched::run(jobs, &sc.plan, sc.pace, sc.seed);
        cx.log(format!("{stats:?}"));
        for (t, calls) in sc.threads.iter().enumerate() {
            for (i, c) in calls.iter().enumerate() {
                cx.log(format!("{t}.{i} {:x}", fnv(got[t][i].as_bytes())));
                if got[t][i] != *want(c) {
                    let o = format!("{:?}", c.op);
                    return cx.fail("differs", format!("thread {t}, call {i} ({}): {}", cut(&o), differ(want(c), &got[t][i])));
                }
                cx.count(match c.op {
                    Op::Parse { .. } => "call: parse",
                    Op::Work { .. } => "call: edit",
                    Op::Format { .. } => "call: format",
                    Op::Convert { .. } => "call: convert",
                    Op::Print { .. } => "fault: print into a failing or panicking writer",
                    Op::Write { how: Some(_), .. } => "fault: type fails or panics while written",
                    Op::Read { how: Some(_), .. } => "fault: type fails or panics while read",
                    Op::Write { .. } => "call: serde write",
                    Op::Read { .. } | Op::Json { .. } => "call: serde read",
                    Op::Build { .. } => "call: build",
                    Op::Shared { .. } => "call: read the shared document",
                    Op::SharedError { .. } => "call: read the shared error",
                });
            }
        }
        // The shared document is what it was.
        let fresh = World::new(sc);
        if fresh.doc != world.doc || fresh.doc.as_ref().map(|d| d.to_string()) != world.doc.as_ref().map(|d| d.to_string()) {
            return cx.fail("differs", "the shared document changed, or cannot be made again as it was".to_string());
        }
        cx.add("threads", sc.threads.len() as u64);
        cx.add("switches", stats.switches);
        cx.add("points where a switch was possible", stats.points);
        cx.add("waits for a lock", stats.waits);
        cx.sig(stats.sig ^ fnv(format!("{:?}", sc.threads.iter().map(|t| t.iter().map(|c| std::mem::discriminant(&c.op)).collect::<Vec<_>>()).collect::<Vec<_>>()).as_bytes()));
        cx.out.nontrivial = sc.threads.iter().map(|t| t.iter().map(|c| c.times as usize).sum::<usize>()).sum::<usize>() > 1;
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        for i in 0..sc.threads.len() {
            if sc.threads.len() > 1 {
                let mut c = sc.clone();
                c.threads.remove(i);
                out.push(c);
            }
        }
        for i in 0..sc.threads.len() {
            for j in 0..sc.threads[i].len() {
                if sc.threads[i].len() > 1 {
                    let mut c = sc.clone();
                    c.threads[i].remove(j);
                    out.push(c);
                }
                let n = sc.threads[i][j].times;
                for m in [1, n / 2, n.saturating_sub(1)] {
                    if m > 0 && m < n {
                        let mut c = sc.clone();
                        c.threads[i][j].times = m;
                        out.push(c);
                    }
                }
            }
        }
        for pace in [0, sc.pace.saturating_mul(8)] {
            if pace != sc.pace && sc.pace < 1 << 20 {
                out.push(Sc { pace, ..sc.clone() });
            }
        }
        let n = sc.plan.len();
        let mut step = n;
        while step > 0 {
            for a in (0..n).step_by(step) {
                let mut c = sc.clone();
                c.plan.drain(a..(a + step).min(n));
                out.push(c);
                // without moving what comes later
                if a + step < n {
                    let mut c = sc.clone();
                    let gone: u32 = c.plan.drain(a..a + step).map(|p| p.0).fold(0, u32::saturating_add);
                    c.plan[a].0 = c.plan[a].0.saturating_add(gone);
                    out.push(c);
                }
            }
            step /= 2;
        }
        if !sc.preps.is_empty() {
            out.push(Sc { preps: vec![], ..sc.clone() });
        }
        if !sc.shared.is_empty() {
            out.push(Sc { shared: String::new(), ..sc.clone() });
        }
        // shorter texts, in all places at once so that threads still meet
        let mut texts: Vec<String> = sc.threads.iter().flatten().filter_map(|c| op_text(&c.op).cloned()).collect();
        texts.sort();
        texts.dedup();
        for t in texts {
            let ch: Vec<char> = t.chars().collect();
            let mut step = ch.len();
            while step > 0 && out.len() < 3000 {
                for a in (0..ch.len()).step_by(step) {
                    let s: String = ch[..a].iter().chain(&ch[(a + step).min(ch.len())..]).collect();
                    let mut c = sc.clone();
                    for x in c.threads.iter_mut().flatten() {
                        if op_text(&x.op) == Some(&t) {
                            *op_text_mut(&mut x.op).unwrap() = s.clone();
                        }
                    }
                    if c.shared == t {
                        c.shared = s;
                    }
                    out.push(c);
                }
                step /= 2;
            }
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 20_000_000, secs: 600.0 }
        } else {
            Budget { runs: 400_000, secs: 45.0 }
        }
    }
    fn rule(&self) -> &'static str {
        "one run = up to four threads of one process, each making up to eight kinds of library calls (some many times over, some failing or panicking on purpose), interleaved by a generated schedule; distinct by who ran for how many steps in which order and by the kinds of calls; non-trivial when more than one call was made"
    }
    fn describe(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["kdl crate built from /repo, on real threads", "std's locks, once-cells and thread-locals"],
            "stub": ["thread scheduler: one thread runs at a time, switches at branches of kdl and winnow and at allocations and releases", "futex waiting and waking", "hash seeds"],
            "faults": ["preemption at any branch or allocation", "waits that end late or early", "writers that fail or panic", "types that fail or panic while read or written", "damaged texts"],
            "oracle": "the same call made once, as the first one, in a freshly forked process",
            "simulated_time": "no clock in this part of the system; a step is a branch or allocation"
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "threads run one at a time, as on a sequentially consistent machine: weaker memory orders are not simulated",
            "switches happen between branches and allocations, not between two instructions without a branch",
        ]
    }
    fn show(&self, sc: &Sc) -> serde_json::Value {
        serde_json::json!({
            "threads": sc.threads.iter().map(|t| t.iter().map(|c| format!("{}x {}", c.times, format!("{:?}", c.op).chars().take(140).collect::<String>())).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "switches planned": sc.plan.len(),
            "then in turns of": sc.pace
        })
    }
}
fn op_text(o: &Op) -> Option<&String> {
    match o {
        Op::Parse { text, .. }
        | Op::Work { text, .. }
        | Op::Format { text, .. }
        | Op::Convert { text, .. }
        | Op::Print { text, .. }
        | Op::Read { text, .. }
        | Op::Json { text }
        | Op::Build { text } => Some(text),
        _ => None,
    }
}
fn op_text_mut(o: &mut Op) -> Option<&mut String> {
    match o {
        Op::Parse { text, .. }
        | Op::Work { text, .. }
        | Op::Format { text, .. }
        | Op::Convert { text, .. }
        | Op::Print { text, .. }
        | Op::Read { text, .. }
        | Op::Json { text }
        | Op::Build { text } => Some(text),
        _ => None,
    }
}
