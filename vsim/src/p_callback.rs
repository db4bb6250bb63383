//! W02: filtering and sorting entries with closures that panic, contradict themselves, or look at
//! other things meanwhile; the document lives on: edited, saved, reloaded.
use crate::core::*;
use crate::doc::*;
use crate::ensure;
use crate::p_print::{draw_prep, node, node_mut, prep, rand_entry, Prep};
use crate::rng::{fnv, mix, Rng};
use kdl::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub base: SDoc,
    /// More entries for the chosen node, so that sorting has work to do.
    pub extra: Vec<MEntry>,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Prep(Prep),
    Push(u32, Vec<MEntry>),
    Call { n: u32, op: Call, fault: Fault, peek: bool },
    Save,
    Reload,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Call {
    /// Keeps entry i if bit i of the mask (cyclic) is set.
    Retain(u64),
    /// Sorts by a key with few distinct values.
    SortBy(u8, u64),
    SortByKey(u8, u64),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// The closure panics at this call.
    Panic(u32),
    /// From this call on a comparison's answers are drawn at random.
    Lie(u32, u64),
}
pub struct Callback;

/// What an entry is, its text included.
fn ident(e: &KdlEntry) -> String {
    format!("{:?} {:?}", k_entry(e), e.to_string())
}
fn key(by: u8, salt: u64, e: &KdlEntry) -> u64 {
    match by % 4 {
        0 => mix(salt ^ fnv(e.value().to_string().as_bytes())) % 3,
        1 => e.name().is_some() as u64,
        2 => mix(salt ^ fnv(e.to_string().as_bytes())),
        _ => 0,
    }
}
/// A key whose comparison is the call under fault.
struct Key<'a>(u64, &'a std::cell::Cell<u32>, Fault);
impl PartialEq for Key<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Key<'_> {}
impl PartialOrd for Key<'_> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key<'_> {
    fn cmp(&self, o: &Self) -> Ordering {
        answer(self.1, self.2, self.0.cmp(&o.0))
    }
}
fn answer(calls: &std::cell::Cell<u32>, f: Fault, honest: Ordering) -> Ordering {
    let c = calls.get();
    calls.set(c + 1);
    match f {
        Fault::Panic(n) if n == c => inject_panic(),
        Fault::Lie(n, s) if c >= n => [Ordering::Less, Ordering::Equal, Ordering::Greater][(mix(s ^ c as u64) % 3) as usize],
        _ => honest,
    }
}

impl Callback {
    fn call(&self, d: &mut KdlDocument, n: u32, op: Call, fault: Fault, peek: bool, cx: &mut Ctx) {
        let Some(k) = node_mut(d, n) else { return };
        let before: Vec<String> = k.entries().iter().map(ident).collect();
        let rest_before = {
            let mut c = k.clone();
            c.entries_mut().clear();
            c.to_string()
        };
        let orig: Vec<KdlEntry> = k.entries().to_vec();
        let calls = std::cell::Cell::new(0u32);
        let seen = std::cell::RefCell::new(Vec::<String>::new());
        let look = |e: &KdlEntry| {
            seen.borrow_mut().push(ident(e));
            if peek {
                // uses of the library from inside the closure
                let _ = KdlEntry::parse(&e.to_string());
                let _ = e.clone() == *e;
            }
        };
        let c = catch(|| match op {
            Call::Retain(m) => k.retain(|e| {
                look(e);
                let i = calls.get();
                answer(&calls, fault, Ordering::Equal);
                m >> (i % 64) & 1 == 1
            }),
            Call::SortBy(by, salt) => k.sort_by(|a, b| {
                if peek {
                    look(a);
                }
                answer(&calls, fault, key(by, salt, a).cmp(&key(by, salt, b)))
            }),
            Call::SortByKey(by, salt) => k.sort_by_key(|a| {
                if peek {
                    look(a);
                }
                Key(key(by, salt, a), &calls, fault)
            }),
        });
        let after: Vec<String> = k.entries().iter().map(ident).collect();
        let n_calls = calls.get();
        let fired = match fault {
            Fault::None => false,
            Fault::Panic(n) => n < n_calls,
            Fault::Lie(n, _) => n < n_calls && !matches!(op, Call::Retain(_)),
        };
        cx.log(format!("{op:?} {fault:?}: {n_calls} calls, {} -> {} entries, fired {fired}", before.len(), after.len()));
        let whole = matches!(op, Call::SortBy(..) | Call::SortByKey(..));
        match (&c, fault) {
            (Caught::Injected, _) if fired => cx.count("fault: closure panics"),
            // An order that is none may make sorting panic (as std's sort documents).
            (Caught::Panic(m), Fault::Lie(..)) if fired && m.contains("total order") => cx.count("fault: inconsistent order, refused"),
            (Caught::Ok(()), Fault::Lie(..)) if fired => cx.count("fault: inconsistent order"),
            (Caught::Ok(()), _) if !fired => {}
            (Caught::Panic(m), _) => return cx.fail("panic", format!("{op:?} {fault:?}: {m}")),
            (_, _) => return cx.fail("swallowed", format!("{op:?} {fault:?}: the closure's panic vanished")),
        }
        if fired {
            cx.out.nontrivial = true;
        }
        // Only original entries, each at most once; all of them when sorting.
        let mut left: Vec<&String> = before.iter().collect();
        for a in &after {
            match left.iter().position(|x| *x == a) {
                Some(i) => {
                    left.remove(i);
                }
                None => {
                    return cx.fail("corrupt", format!("{op:?} {fault:?} on {before:?}: {a} afterwards is not an original entry, or is there twice"))
                }
            }
        }
        if whole {
            ensure!(cx, left.is_empty(), "lost", "{op:?} {fault:?} on {before:?} lost {left:?}");
        }
        if !fired {
            match op {
                Call::Retain(m) => {
                    let want: Vec<&String> = before.iter().enumerate().filter(|(i, _)| m >> (i % 64) & 1 == 1).map(|(_, e)| e).collect();
                    ensure!(cx, after.iter().collect::<Vec<_>>() == want, "filter", "{op:?} on {before:?} left {after:?}");
                    ensure!(cx, *seen.borrow() == before, "filter", "{op:?} on {before:?} asked about {:?}", seen.borrow());
                }
                Call::SortBy(by, salt) | Call::SortByKey(by, salt) => {
                    let mut idx: Vec<(u64, usize)> = orig.iter().enumerate().map(|(i, e)| (key(by, salt, e), i)).collect();
                    idx.sort();
                    let want: Vec<&String> = idx.iter().map(|(_, i)| &before[*i]).collect();
                    ensure!(cx, after.iter().collect::<Vec<_>>() == want, "sort", "{op:?} on {before:?} gave {after:?}");
                }
            }
        }
        let rest_after = {
            let mut c = k.clone();
            c.entries_mut().clear();
            c.to_string()
        };
        ensure!(cx, rest_before == rest_after, "rest changed", "{op:?} {fault:?} changed the rest of the node from {rest_before:?} to {rest_after:?}");
        // it can be asked and edited
        let args = k.entries().iter().filter(|e| e.name().is_none()).count();
        for i in 0..=args {
            ensure!(cx, k.get(i).is_some() == (i < args), "lookup", "argument {i} of {args} after {op:?} {fault:?}");
        }
        cx.sig(mix(n_calls as u64) ^ mix(before.len() as u64) << 3 ^ fnv(format!("{after:?}").as_bytes()) ^ fired as u64);
    }
    /// The text as a whole still loads, with the content the document has.
    fn whole(&self, d: &KdlDocument, cx: &mut Ctx) {
        let t = d.to_string();
        match KdlDocument::parse_v2(&t) {
            Ok(l) => {
                if let Some(x) = diff(&k_doc(d), &k_doc(&l)) {
                    cx.fail("reload", format!("{t:?} reads back differently: {x}"));
                }
            }
            Err(e) => cx.fail("reload", format!("{t:?} no longer loads: {:?}", e.diagnostics)),
        }
    }
}

impl Prop for Callback {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        "W02"
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        let base = rand_doc(r).1;
        // Long lists take the other paths of sorting.
        let n = match r.below(10) {
            0..=3 => r.below(5),
            4..=7 => r.range(5, 30),
            _ => r.range(30, 120),
        };
        let extra = (0..n).map(|_| rand_entry(r)).collect();
        let steps = (0..r.range(2, 10))
            .map(|_| match r.below(10) {
                0 | 1 => match draw_prep(r) {
                    // Children added to a parsed node are D03's subject, and a listed finding of it.
                    Prep::Children(n) => Step::Prep(Prep::ClearNode(n)),
                    p => Step::Prep(p),
                },
                2 => Step::Push(r.u64() as u32, (0..r.range(1, 4)).map(|_| rand_entry(r)).collect()),
                3 => Step::Save,
                4 => Step::Reload,
                _ => {
                    let op = match r.below(3) {
                        0 => Call::Retain(match r.below(4) {
                            0 => u64::MAX,
                            1 => r.u64() | r.u64(),
                            2 => 0,
                            _ => r.u64(),
                        }),
                        1 => Call::SortBy(r.below(4) as u8, r.u64()),
                        _ => Call::SortByKey(r.below(4) as u8, r.u64()),
                    };
                    let span = [4, 20, 100, 500][r.below(4)];
                    let at = r.below(span) as u32;
                    let fault = match r.below(10) {
                        0..=2 => Fault::None,
                        3..=7 => Fault::Panic(at),
                        _ => Fault::Lie(at, r.u64()),
                    };
                    Step::Call { n: r.pick(&[0, 0, 0, r_n(at)]).to_owned(), op, fault, peek: r.pct(30) }
                }
            })
            .collect();
        Sc { base, extra, steps }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        let text = sc.base.to_text();
        let mut d = KdlDocument::parse_v2(&text).unwrap_or_else(|_| crate::p_print::build_doc(&m_doc(&sc.base)));
        if d.nodes().is_empty() {
            d = KdlDocument::new();
            d.nodes_mut().push(KdlNode::new("n"));
        }
        prep(&mut d, &Prep::Push(0, MEntry { name: None, ty: None, val: Val::Null }));
        for e in &sc.extra {
            prep(&mut d, &Prep::Push(0, e.clone()));
        }
        let mut saved = d.to_string();
        for s in &sc.steps {
            match s {
                Step::Prep(p) => prep(&mut d, p),
                Step::Push(n, es) => {
                    for e in es {
                        prep(&mut d, &Prep::Push(*n, e.clone()));
                    }
                    if let Some(k) = node(&d, *n) {
                        let m: Vec<MEntry> = k.entries().iter().map(k_entry).collect();
                        ensure!(cx, m.ends_with(es), "edit", "pushed {es:?}, the node holds {m:?}");
                    }
                }
                Step::Call { n, op, fault, peek } => self.call(&mut d, *n, *op, *fault, *peek, cx),
                Step::Save => saved = d.to_string(),
                Step::Reload => {
                    cx.count("crash and reload");
                    match KdlDocument::parse_v2(&saved) {
                        Ok(l) => d = l,
                        Err(e) => return cx.fail("reload", format!("{saved:?} no longer loads: {:?}", e.diagnostics)),
                    }
                }
            }
            if cx.failed() {
                return;
            }
            self.whole(&d, cx);
            if cx.failed() {
                return;
            }
            cx.log(format!("{:x}", fnv(d.to_string().as_bytes())));
        }
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        for i in 0..sc.steps.len() {
            let mut c = sc.clone();
            c.steps.remove(i);
            out.push(c);
        }
        let n = sc.extra.len();
        if n > 3 {
            for (a, b) in [(0, n / 2), (n / 2, n)] {
                let mut c = sc.clone();
                c.extra.drain(a..b);
                out.push(c);
            }
        }
        for i in 0..n.min(40) {
            let mut c = sc.clone();
            c.extra.remove(i);
            out.push(c);
        }
        for d in shrink_doc(&sc.base) {
            out.push(Sc { base: d, ..sc.clone() });
        }
        for i in 0..n.min(40) {
            let simple = MEntry { name: None, ty: None, val: Val::Int(i.to_string()) };
            if sc.extra[i] != simple {
                let mut c = sc.clone();
                c.extra[i] = simple;
                out.push(c);
            }
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 20_000_000, secs: 500.0 }
        } else {
            Budget { runs: 150_000, secs: 30.0 }
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one document's life: entries filtered and sorted (up to ~120 per node) by closures that panic at a chosen call or contradict themselves, between edits, reformatting, saves and reloads; distinct by number of calls made, entries before and entries after each call, non-trivial when at least one closure fault struck"
    }
    fn describe(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["kdl crate built from /repo: retain, sort_by, sort_by_key, editing, printing, parsing"],
            "stub": ["the application's closures"],
            "faults": ["closure panics at its n-th call", "comparison answers at random from its n-th call on", "closure uses the library itself", "crash and reload"],
            "simulated_time": "no clock in this part of the system; steps are operations"
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["sorting with answers that are no total order may panic with std's message, and may give any order"]
    }
    fn show(&self, sc: &Sc) -> serde_json::Value {
        serde_json::json!({"file": sc.base.to_text(), "extra_entries": sc.extra.len(), "steps": sc.steps})
    }
}
fn r_n(x: u32) -> u32 {
    x.wrapping_mul(2654435761)
}
