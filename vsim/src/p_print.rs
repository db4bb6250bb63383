//! W01: everything that can be printed is printed into writers that fail, panic, accept only part
//! of what they are given, or print things themselves while they are being written to.
use crate::core::*;
use crate::disk::{snippet, Fault};
use crate::doc::*;
use crate::ensure;
use crate::rng::{fnv, Rng};
use kdl::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub base: SDoc,
    /// Damage to a copy of the text, from which an error is obtained.
    pub wreck: Vec<Fault>,
    pub tail: String,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Prep(Prep),
    Print { what: What, sink: Sink },
}
/// Brings the document into a state worth printing.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Prep {
    ClearAll,
    ClearNode(u32),
    ClearDoc,
    Autoformat,
    NoComments,
    /// Rebuilt through the API, without any formatting.
    Rebuild,
    SetValue(u32, u32, Val),
    Rename(u32, String),
    SetTy(u32, String),
    Push(u32, MEntry),
    Children(u32),
    Clone,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum What {
    Doc,
    Node(u32),
    Kids(u32),
    Entry(u32, u32),
    Name(u32),
    Ty(u32),
    Value(u32, u32),
    Error,
    Diagnostic(u32),
    SerdeError(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sink {
    /// Where the fault strikes: at this share (per mille) of the bytes, or at this call.
    pub at: At,
    pub fault: SinkFault,
    /// Takes the part before the fault of the write that hits it (or nothing of it).
    pub partial: bool,
    /// Behind `io::Write`, which may also accept less than it is given.
    pub io: Option<u8>,
    /// Prints this in the middle of being written to, at every `.0`-th write.
    pub reenter: Option<(u8, What)>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum At {
    PerMille(u32),
    Call(u32),
    Never,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SinkFault {
    Fail,
    /// Fails once; would accept more afterwards.
    FailOnce,
    Panic,
}

struct World {
    doc: KdlDocument,
    err: Option<KdlError>,
}
/// The `n`-th node in document order, modulo their number.
fn count_nodes(d: &KdlDocument) -> usize {
    d.nodes().iter().map(|n| 1 + n.children().map_or(0, count_nodes)).sum()
}
fn nth<'a>(d: &'a KdlDocument, n: &mut usize) -> Option<&'a KdlNode> {
    for x in d.nodes() {
        if *n == 0 {
            return Some(x);
        }
        *n -= 1;
        if let Some(k) = x.children() {
            if let Some(y) = nth(k, n) {
                return Some(y);
            }
        }
    }
    None
}
fn nth_mut<'a>(d: &'a mut KdlDocument, n: &mut usize) -> Option<&'a mut KdlNode> {
    for x in d.nodes_mut().iter_mut() {
        if *n == 0 {
            return Some(x);
        }
        *n -= 1;
        let c = x.children().map_or(0, count_nodes);
        if *n < c {
            return nth_mut(x.children_mut().as_mut().unwrap(), n);
        }
        *n -= c;
    }
    None
}
pub fn node(d: &KdlDocument, n: u32) -> Option<&KdlNode> {
    let c = count_nodes(d);
    (c > 0).then(|| nth(d, &mut (n as usize % c)).expect("[harness] node"))
}
pub fn node_mut(d: &mut KdlDocument, n: u32) -> Option<&mut KdlNode> {
    let c = count_nodes(d);
    (c > 0).then(|| nth_mut(d, &mut (n as usize % c)).expect("[harness] node"))
}
fn entry(d: &KdlDocument, n: u32, e: u32) -> Option<&KdlEntry> {
    let n = node(d, n)?;
    let c = n.entries().len();
    (c > 0).then(|| &n.entries()[e as usize % c])
}
pub fn build_entry(e: &MEntry) -> KdlEntry {
    let mut k = match &e.name {
        Some(n) => KdlEntry::new_prop(n.as_str(), to_kdl(&e.val)),
        None => KdlEntry::new(to_kdl(&e.val)),
    };
    if let Some(t) = &e.ty {
        k.set_ty(t.as_str());
    }
    k
}
pub fn build_node(m: &MNode) -> KdlNode {
    let mut k = KdlNode::new(m.name.as_str());
    if let Some(t) = &m.ty {
        k.set_ty(t.as_str());
    }
    for e in &m.entries {
        k.push(build_entry(e));
    }
    if let Some(c) = &m.kids {
        k.set_children(build_doc(c));
    }
    k
}
pub fn build_doc(m: &MDoc) -> KdlDocument {
    let mut d = KdlDocument::new();
    for n in m {
        d.nodes_mut().push(build_node(n));
    }
    d
}
pub fn draw_prep(r: &mut Rng) -> Prep {
    let n = r.u64() as u32;
    match r.below(13) {
        0 => Prep::ClearAll,
        1 => Prep::ClearNode(n),
        2 => Prep::ClearDoc,
        3 => Prep::Autoformat,
        4 => Prep::NoComments,
        5 | 6 => Prep::Rebuild,
        7 => Prep::SetValue(n, r.u64() as u32, rand_val(r, true)),
        8 => Prep::Rename(n, rand_string(r, true)),
        9 => Prep::SetTy(n, rand_string(r, true)),
        10 => Prep::Push(n, rand_entry(r)),
        11 => Prep::Children(n),
        _ => Prep::Clone,
    }
}
pub fn rand_entry(r: &mut Rng) -> MEntry {
    MEntry {
        name: r.pct(40).then(|| rand_string(r, true)),
        ty: r.pct(20).then(|| rand_string(r, true)),
        val: rand_val(r, true),
    }
}
pub fn prep(d: &mut KdlDocument, p: &Prep) {
    match p {
        Prep::ClearAll => d.clear_format_recursive(),
        Prep::ClearNode(n) => {
            if let Some(n) = node_mut(d, *n) {
                n.clear_format();
            }
        }
        Prep::ClearDoc => d.clear_format(),
        Prep::Autoformat => d.autoformat(),
        Prep::NoComments => d.autoformat_no_comments(),
        Prep::Rebuild => *d = build_doc(&k_doc(d)),
        Prep::SetValue(n, e, v) => {
            if let Some(n) = node_mut(d, *n) {
                let c = n.entries().len();
                if c > 0 {
                    n.entries_mut()[*e as usize % c].set_value(to_kdl(v));
                }
            }
        }
        Prep::Rename(n, s) => {
            if let Some(n) = node_mut(d, *n) {
                n.set_name(s.as_str());
            }
        }
        Prep::SetTy(n, s) => {
            if let Some(n) = node_mut(d, *n) {
                n.set_ty(s.as_str());
            }
        }
        Prep::Push(n, e) => {
            if let Some(n) = node_mut(d, *n) {
                n.push(build_entry(e));
            }
        }
        Prep::Children(n) => {
            // Listed finding of D01: slashdashed entries stay behind the new block.
            let behind = |n: &KdlNode| n.children().is_none() && n.format().is_some_and(|f| f.before_terminator.contains("/-"));
            if let Some(n) = node_mut(d, *n).filter(|n| !behind(n)) {
                let kids = n.ensure_children().nodes_mut();
                // The last node of a block may lack a terminator, which it needs now.
                if let Some(f) = kids.last_mut().and_then(|l| l.format_mut()) {
                    if f.terminator.is_empty() {
                        f.terminator = ";".into();
                    }
                }
                kids.push(KdlNode::new("new"));
            }
        }
        Prep::Clone => *d = d.clone(),
    }
}
/// Hands the chosen object to `f`; false if there is none such.
fn with(w: &World, what: What, f: &mut dyn FnMut(&dyn std::fmt::Display, &dyn std::fmt::Debug)) -> bool {
    macro_rules! give {
        ($o:expr) => {
            match $o {
                Some(x) => {
                    f(x, x);
                    true
                }
                None => false,
            }
        };
    }
    match what {
        What::Doc => give!(Some(&w.doc)),
        What::Node(n) => give!(node(&w.doc, n)),
        What::Kids(n) => give!(node(&w.doc, n).and_then(|n| n.children())),
        What::Entry(n, e) => give!(entry(&w.doc, n, e)),
        What::Name(n) => give!(node(&w.doc, n).map(|n| n.name())),
        What::Ty(n) => give!(node(&w.doc, n).and_then(|n| n.ty())),
        What::Value(n, e) => give!(entry(&w.doc, n, e).map(|e| e.value())),
        What::Error => give!(w.err.as_ref()),
        What::Diagnostic(i) => {
            give!(w.err.as_ref().and_then(|e| e.diagnostics.get(i as usize % e.diagnostics.len().max(1))))
        }
        What::SerdeError(k) => {
            let text = w.err.as_ref().map(|e| e.input.as_str()).unwrap_or("a {");
            if k % 2 == 0 {
                match kdl::de::from_str::<std::collections::BTreeMap<String, u8>>(text) {
                    Err(e) => give!(Some(&e)),
                    Ok(_) => false,
                }
            } else {
                match kdl::se::to_string(&u128::MAX) {
                    Err(e) => give!(Some(&e)),
                    Ok(_) => false,
                }
            }
        }
    }
}

/// The simulated destination.
struct Dest<'a> {
    w: &'a World,
    sink: &'a Sink,
    /// Absolute fault position.
    at_byte: usize,
    got: Vec<u8>,
    calls: u32,
    fired: bool,
    after: u32,
    nested: Vec<(What, String)>,
    interrupts: u32,
    short: u32,
}
enum Act {
    Take(usize),
    Fault(usize),
}
impl Dest<'_> {
    fn act(&mut self, len: usize) -> Act {
        if self.fired {
            self.after += 1;
            return if self.sink.fault == SinkFault::FailOnce { Act::Take(len) } else { Act::Fault(0) };
        }
        let call = self.calls;
        self.calls += 1;
        if let Some((every, what)) = self.sink.reenter {
            if call % (every as u32 + 1) == every as u32 && self.nested.len() < 40 {
                let mut s = String::new();
                with(self.w, what, &mut |x, _| s = x.to_string());
                self.nested.push((what, s));
            }
        }
        let hit = match self.sink.at {
            At::Call(n) => (n == call).then_some(len / 2),
            At::PerMille(_) => (self.got.len() + len > self.at_byte).then(|| self.at_byte - self.got.len()),
            At::Never => None,
        };
        match hit {
            None => Act::Take(len),
            Some(k) => {
                self.fired = true;
                Act::Fault(if self.sink.partial { k } else { 0 })
            }
        }
    }
}
impl std::fmt::Write for Dest<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.act(s.len()) {
            Act::Take(_) => {
                self.got.extend_from_slice(s.as_bytes());
                Ok(())
            }
            Act::Fault(k) => {
                self.got.extend_from_slice(&s.as_bytes()[..k]);
                if self.sink.fault == SinkFault::Panic && self.after == 0 {
                    inject_panic();
                }
                Err(std::fmt::Error)
            }
        }
    }
}
impl std::io::Write for Dest<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mode = self.sink.io.unwrap_or(0);
        // Interrupted calls and short writes are normal and must be carried on from.
        if mode & 1 != 0 && !b.is_empty() && self.interrupts <= self.calls {
            self.interrupts += 2;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let b = if mode & 2 != 0 && b.len() > 1 {
            self.short += 1;
            &b[..1 + (self.calls as usize * 7) % (b.len() - 1)]
        } else {
            b
        };
        match self.act(b.len()) {
            Act::Take(_) => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            Act::Fault(k) => {
                self.got.extend_from_slice(&b[..k]);
                if self.sink.fault == SinkFault::Panic && self.after == 0 {
                    inject_panic();
                }
                if mode & 4 != 0 { Ok(0) } else { Err(std::io::ErrorKind::StorageFull.into()) }
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub struct Print;
impl Print {
    fn print(&self, w: &World, what: What, sink: &Sink, cx: &mut Ctx) {
        let mut normal = None;
        let mut debug = String::new();
        match catch(|| {
            with(w, what, &mut |x, d| {
                normal = Some(x.to_string());
                debug = format!("{d:?}");
            })
        }) {
            Caught::Panic(m) => return cx.fail("panic", format!("printing {what:?} to a string: {m}")),
            Caught::Injected => unreachable!(),
            Caught::Ok(false) => return cx.count("probe: nothing there to print"),
            Caught::Ok(true) => {}
        }
        let normal = normal.unwrap();
        let at_byte = match sink.at {
            At::PerMille(p) => normal.len() * p.min(1000) as usize / 1000,
            _ => 0,
        };
        let mut d = Dest { w, sink, at_byte, got: vec![], calls: 0, fired: false, after: 0, nested: vec![], interrupts: 0, short: 0 };
        let mut res = Err("nothing printed".to_string());
        let c = catch(|| {
            with(w, what, &mut |x, _| {
                res = if sink.io.is_some() {
                    std::io::Write::write_fmt(&mut d, format_args!("{x}")).map_err(|e| format!("{:?}", e.kind()))
                } else {
                    write!(d, "{x}").map_err(|_| "fmt::Error".to_string())
                }
            })
        });
        let got = String::from_utf8_lossy(&d.got).into_owned();
        cx.log(format!(
            "{what:?} {sink:?}: {} of {} bytes in {} writes, fired {}, {}",
            d.got.len(),
            normal.len(),
            d.calls,
            d.fired,
            match &c {
                Caught::Ok(_) => format!("{res:?}"),
                Caught::Injected => "panic let through".into(),
                Caught::Panic(m) => format!("panic {m}"),
            }
        ));
        if let Caught::Panic(m) = c {
            return cx.fail("panic", format!("printing {what:?} into {sink:?}: {m}"));
        }
        ensure!(
            cx,
            normal.as_bytes().starts_with(&d.got),
            "not a prefix",
            "{what:?} into {sink:?}: the writer had accepted {got:?}, the normal text is {normal:?}"
        );
        ensure!(cx, d.after == 0, "went on", "{what:?} into {sink:?}: {} writes after the failed one", d.after);
        for (x, s) in &d.nested {
            let mut t = String::new();
            with(w, *x, &mut |y, _| t = y.to_string());
            ensure!(cx, *s == t, "differs", "{x:?} printed inside a write of {what:?} gave {s:?}, normally {t:?}");
        }
        cx.add("fault: re-entrant print", d.nested.len() as u64);
        cx.add("fault: write interrupted", d.interrupts as u64 / 2);
        cx.add("fault: short write", d.short as u64);
        if d.fired {
            cx.count(match sink.fault {
                SinkFault::Fail => "fault: writer fails",
                SinkFault::FailOnce => "fault: writer fails once",
                SinkFault::Panic => "fault: writer panics",
            });
            cx.out.nontrivial = true;
            if sink.fault == SinkFault::Panic {
                ensure!(cx, matches!(c, Caught::Injected), "swallowed", "{what:?} into {sink:?}: the writer's panic vanished");
            } else {
                ensure!(cx, res.is_err(), "swallowed", "{what:?} into {sink:?}: the writer failed and printing reported success");
                if let (Some(m), Err(e)) = (sink.io, &res) {
                    let want = if m & 4 != 0 { "WriteZero" } else { "StorageFull" };
                    ensure!(cx, e == want, "swallowed", "{what:?}: the writer reported {want}, printing reported {e}");
                }
            }
        } else {
            ensure!(
                cx,
                matches!(c, Caught::Ok(_)) && res.is_ok(),
                "made up",
                "{what:?} into {sink:?}: the writer never failed, printing gave {res:?}"
            );
            ensure!(cx, got == normal, "differs", "{what:?} into {sink:?}: {got:?} was written, the normal text is {normal:?}");
        }
        // Afterwards all is as before, to any writer.
        let mut again = String::new();
        let mut debug2 = String::new();
        let mut bits = String::new();
        match catch(|| {
            with(w, what, &mut |x, d| {
                again = x.to_string();
                debug2 = format!("{d:?}");
                let mut b = Bits(String::new());
                write!(b, "{x}").unwrap();
                bits = b.0;
            })
        }) {
            Caught::Ok(_) => {}
            Caught::Panic(m) => return cx.fail("panic", format!("printing {what:?} again after {sink:?}: {m}")),
            Caught::Injected => unreachable!(),
        }
        ensure!(cx, again == normal, "differs", "{what:?} printed {normal:?} before {sink:?} and {again:?} afterwards");
        ensure!(cx, bits == normal, "differs", "{what:?} prints {normal:?} to a string and {bits:?} to another writer");
        ensure!(cx, debug2 == debug, "changed", "printing {what:?} into {sink:?} changed it from {debug} to {debug2}");
        cx.sig(fnv(normal.as_bytes()) ^ (d.got.len() as u64) << 1 ^ d.fired as u64);
    }
}
/// Another writer: one that overrides `write_char` too.
struct Bits(String);
impl std::fmt::Write for Bits {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            self.0.push(c);
        }
        Ok(())
    }
    fn write_char(&mut self, c: char) -> std::fmt::Result {
        self.0.push(c);
        Ok(())
    }
}

fn draw_what(r: &mut Rng) -> What {
    let (n, e) = (r.u64() as u32 % 64, r.u64() as u32 % 16);
    match r.below(16) {
        0..=4 => What::Doc,
        5..=7 => What::Node(n),
        8 => What::Kids(n),
        9 | 10 => What::Entry(n, e),
        11 => What::Name(n),
        12 => What::Ty(n),
        13 => What::Value(n, e),
        14 => {
            if r.pct(50) {
                What::Error
            } else {
                What::SerdeError(r.below(2) as u8)
            }
        }
        _ => What::Diagnostic(n),
    }
}
fn draw_sink(r: &mut Rng) -> Sink {
    let at = match r.below(10) {
        0..=5 => At::PerMille(r.below(1000) as u32),
        6..=8 => At::Call(r.small(30) as u32 + r.below(8) as u32 * r.pct(30) as u32),
        _ => At::Never,
    };
    let fault = match r.below(10) {
        0..=3 => SinkFault::Fail,
        4..=6 => SinkFault::FailOnce,
        _ => SinkFault::Panic,
    };
    Sink {
        at,
        fault,
        partial: r.pct(60),
        io: r.pct(35).then(|| r.below(8) as u8),
        reenter: r.pct(30).then(|| (r.small(6) as u8, draw_what(r))),
    }
}

impl Prop for Print {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        "W01"
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        let base = rand_doc(r).1;
        let len = base.to_text().len();
        let wreck = (0..r.range(1, 3)).map(|_| Fault::draw(r, len, &mut |r| snippet(r))).collect();
        let tail = r.pick(&["", " }", " \"", "\n(", " 1x", "/*", " #tru"]).to_string();
        let n = r.range(2, 14);
        let steps = (0..n)
            .map(|_| if r.pct(30) { Step::Prep(draw_prep(r)) } else { Step::Print { what: draw_what(r), sink: draw_sink(r) } })
            .collect();
        Sc { base, wreck, tail, steps }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        let text = sc.base.to_text();
        let doc = match KdlDocument::parse_v2(&text) {
            Ok(d) => d,
            // Whether a text is accepted is not this property's concern.
            Err(_) => build_doc(&m_doc(&sc.base)),
        };
        let mut bytes = text.into_bytes();
        for f in &sc.wreck {
            f.apply(&mut bytes);
        }
        let bad = String::from_utf8_lossy(&bytes).into_owned() + &sc.tail;
        let mut w = World { doc, err: KdlDocument::parse_v2(&bad).err() };
        cx.count(if w.err.is_some() { "probe: with an error to print" } else { "probe: without an error" });
        for s in &sc.steps {
            match s {
                Step::Prep(p) => {
                    prep(&mut w.doc, p);
                    cx.log(format!("{p:?}"));
                }
                Step::Print { what, sink } => self.print(&w, *what, sink, cx),
            }
            if cx.failed() {
                return;
            }
        }
        // and the document as a whole still prints what a fresh equal one prints
        let all = w.doc.to_string();
        let copy = w.doc.clone().to_string();
        ensure!(cx, all == copy, "differs", "at the end the document prints {all:?}, a clone of it {copy:?}");
        cx.log(format!("end {:x}", fnv(all.as_bytes())));
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        for i in 0..sc.steps.len() {
            let mut c = sc.clone();
            c.steps.remove(i);
            out.push(c);
        }
        for i in 0..sc.steps.len() {
            if let Step::Print { what, sink } = &sc.steps[i] {
                let mut alts = vec![];
                if sink.reenter.is_some() {
                    alts.push(Sink { reenter: None, ..sink.clone() });
                }
                if sink.io.is_some() {
                    alts.push(Sink { io: None, ..sink.clone() });
                }
                if sink.partial {
                    alts.push(Sink { partial: false, ..sink.clone() });
                }
                if !matches!(sink.at, At::Never) {
                    alts.push(Sink { at: At::Never, ..sink.clone() });
                }
                for a in alts {
                    let mut c = sc.clone();
                    c.steps[i] = Step::Print { what: *what, sink: a };
                    out.push(c);
                }
            }
        }
        for d in shrink_doc(&sc.base) {
            out.push(Sc { base: d, ..sc.clone() });
        }
        for i in 0..sc.wreck.len() {
            let mut c = sc.clone();
            c.wreck.remove(i);
            out.push(c);
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 20_000_000, secs: 500.0 }
        } else {
            Budget { runs: 200_000, secs: 30.0 }
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one document's life: parsed or built, brought into various states, and printed (whole or in parts: children block, node, entry, identifier, value, parse error, diagnostic, serde error) into simulated writers; distinct by what was printed and how much of it had been accepted when the fault struck, non-trivial when at least one writer fault struck"
    }
    fn describe(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["kdl crate built from /repo: every Display implementation", "std's fmt and io adapters"],
            "stub": ["the destination: fmt::Write and io::Write sinks"],
            "faults": ["write fails for good", "write fails once", "write panics", "part of the failing write accepted", "short writes", "EINTR", "write of zero bytes", "full disk", "another object printed inside a write"],
            "simulated_time": "no clock in this part of the system; steps are prints and changes"
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the normal text is what to_string gives before the faulty print"]
    }
    fn show(&self, sc: &Sc) -> serde_json::Value {
        serde_json::json!({"file": sc.base.to_text(), "steps": sc.steps})
    }
}
