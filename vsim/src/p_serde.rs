//! S01 / S02 / S03: user types that fail or panic in the middle of being written or read, and
//! values that have to survive a save, a crash and a reload.
use crate::core::*;
use crate::disk::{snippet, Fault};
use crate::doc::{k_val, rand_doc, rand_string, Val};
use crate::ensure;
use crate::rng::{fnv, Rng};
use crate::shape::*;
use miette::Diagnostic;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub sh: Sh,
    pub v: Va,
    /// Another value of the same type, used before or after.
    pub w: Va,
    pub input: Input,
    pub steps: Vec<Step>,
}
/// What is read (S02).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    /// What writing the value gave, damaged.
    Written(Vec<Fault>),
    Text(String, Vec<Fault>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// One attempt during which the type strikes at callback `at` (per mille of all callbacks).
    Strike { at: u32, how: Strike, doc: bool },
    /// One without a fault.
    Fine { doc: bool },
    Save,
    /// Saving the other value is interrupted: what the disk holds is damaged.
    Crash(Vec<Fault>),
    Reload,
}
pub struct Serde {
    pub id: &'static str,
}

fn write(sh: &Sh, v: &Va, t: &Ticker, doc: bool) -> Result<String, String> {
    let s = Ser(sh, v, t);
    if doc {
        kdl::se::to_document(&s).map(|d| d.to_string()).map_err(|e| e.to_string())
    } else {
        kdl::se::to_string(&s).map_err(|e| e.to_string())
    }
}
fn show<T: std::fmt::Debug>(c: &Caught<T>) -> String {
    match c {
        Caught::Ok(v) => format!("{v:?}"),
        Caught::Injected => "the type's panic".into(),
        Caught::Panic(m) => format!("panic {m}"),
    }
}
/// An error of reading says something and points into the text.
pub fn judge(cx: &mut Ctx, e: &kdl::de::Error, text: &str) {
    let mut spans: Vec<miette::SourceSpan> = e.span().into_iter().collect();
    if let Some(d) = e.diagnostic() {
        ensure!(cx, *d.input == text, "input lost", "reading {text:?}: the error's diagnostic carries {:?}", d.input);
        spans.push(d.span);
    }
    spans.extend(e.labels().into_iter().flatten().map(|l| *l.inner()));
    for s in spans {
        let (o, l) = (s.offset(), s.len());
        let end = o.saturating_add(l);
        ensure!(
            cx,
            end <= text.len() && text.is_char_boundary(o) && text.is_char_boundary(end),
            "span",
            "reading {text:?} failed ({e}) with a span {o}..{end} that is not in the text"
        );
    }
    // (whether it can be rendered at all)
    let _ = (e.to_string(), e.related().map(|r| r.count()), e.source_code().is_some(), format!("{e:?}"));
}

/// S04: where pieces that hold `v` lie.
fn places(d: &kdl::KdlDocument, v: &Val, variant: bool, out: &mut Vec<(&'static str, miette::SourceSpan)>) {
    let mut ident = |what, i: &kdl::KdlIdentifier| {
        if *v == Val::Str(i.value().into()) {
            out.push((what, i.span()));
        }
    };
    for n in d.nodes() {
        ident("node name", n.name());
        n.ty().into_iter().for_each(|t| ident("node type", t));
        for e in n.entries() {
            e.ty().into_iter().for_each(|t| ident("entry type", t));
            e.name().into_iter().for_each(|t| ident("property name", t));
        }
    }
    for n in d.nodes() {
        for e in n.entries() {
            let named = |i: &kdl::KdlIdentifier| *v == Val::Str(i.value().into());
            if k_val(e.value()) == *v || variant && e.name().is_some_and(named) {
                out.push(("entry", e.span()));
            }
        }
        // the variant with its content
        if variant && *v == Val::Str(n.name().value().into()) {
            out.push(("node", n.span()));
        }
        n.children().into_iter().for_each(|k| places(k, v, variant, out));
    }
}
/// The type refused `v`: the error says where that stands.
fn located(cx: &mut Ctx, e: &kdl::de::Error, v: &Val, variant: bool, text: &str) {
    let Ok(d) = kdl::KdlDocument::parse_v2(text) else { return cx.count("probe: KDL 1 text, places not compared") };
    let mut all = vec![];
    places(&d, v, variant, &mut all);
    // (there are bools that are not written: an empty node, a field that is not there)
    if all.is_empty() && !matches!(v, Val::Bool(_)) { return cx.fail("invented", format!("reading {text:?}: the type was given {v:?}, which is not there")); }
    if all.is_empty() || e.span().is_none() && matches!(v, Val::Bool(_)) {
        return cx.count("probe: what was refused is not in the text");
    }
    let what = all.iter().find(|(_, s)| e.span() == Some(*s)).map(|x| x.0);
    ensure!(cx, what.is_some(), "place", "reading {text:?}: {v:?} was refused ({e}), the error points at {:?}, {v:?} stands at {all:?}", e.span());
    let d = e.diagnostic();
    ensure!(
        cx,
        d.as_ref().is_some_and(|d| *d.input == text && Some(d.span) == e.span() && d.to_string() == e.to_string()),
        "place",
        "reading {text:?}: {v:?} was refused ({e}), the diagnostic is {d:?}"
    );
    let l: Vec<_> = e.labels().into_iter().flatten().map(|l| *l.inner()).collect();
    ensure!(cx, l.first().copied() == e.span() && e.source_code().is_some(), "place", "reading {text:?}: labels {l:?}, span {:?}", e.span());
    cx.count(&format!("probe: error at the {}", what.unwrap()));
    if all.len() == 1 {
        cx.count("probe: only one place possible");
    }
}

impl Serde {
    fn writing(&self, sc: &Sc, cx: &mut Ctx) {
        let base_t = Ticker::quiet();
        let base = match catch(|| write(&sc.sh, &sc.v, &base_t, false)) {
            Caught::Panic(m) => return cx.fail("panic", format!("writing {:?}: {m}", sc.v)),
            Caught::Injected => unreachable!(),
            Caught::Ok(b) => b,
        };
        let total = base_t.ticks.get();
        let other = match catch(|| write(&sc.sh, &sc.w, &Ticker::quiet(), false)) {
            Caught::Ok(b) => b,
            c => return cx.fail("panic", format!("writing {:?}: {}", sc.w, show(&c))),
        };
        cx.log(format!("{total} callbacks; {base:?}"));
        cx.count(if base.is_ok() { "probe: value can be written" } else { "probe: value cannot be written" });
        for s in &sc.steps {
            match s {
                Step::Strike { at, how, doc } => {
                    let mut t = Ticker::new((total as u64 * *at as u64 / 1000) as u32, Some(how.clone()));
                    let (sh, w, o2) = (sc.sh.clone(), sc.w.clone(), other.clone());
                    let nested = std::rc::Rc::new(std::cell::RefCell::new(None));
                    let n2 = nested.clone();
                    t.reenter = Some(Box::new(move || {
                        let r = write(&sh, &w, &Ticker::quiet(), false);
                        *n2.borrow_mut() = Some((r == o2, r));
                    }));
                    let r = catch(|| write(&sc.sh, &sc.v, &t, *doc));
                    cx.log(format!("{how:?} at {}: {}", t.at, show(&r)));
                    if let Caught::Panic(m) = &r {
                        return cx.fail("panic", format!("writing {:?} with {how:?} at callback {}: {m}", sc.v, t.at));
                    }
                    if let Some((same, r)) = nested.borrow_mut().take() {
                        cx.count("fault: type writes something itself");
                        ensure!(cx, same, "changed", "{:?} written inside another gives {r:?}, normally {other:?}", sc.w);
                    }
                    if t.fired.get() {
                        cx.out.nontrivial = true;
                        cx.sig(fnv(format!("{:?}", sc.sh).as_bytes()) ^ t.at as u64);
                        match how {
                            Strike::Error(m) => {
                                cx.count("fault: type reports an error");
                                ensure!(
                                    cx,
                                    matches!(&r, Caught::Ok(Err(e)) if e == m),
                                    "error lost",
                                    "writing {:?}: the type reported {m:?} at callback {}, the result is {}",
                                    sc.v,
                                    t.at,
                                    show(&r)
                                );
                            }
                            _ => {
                                cx.count("fault: type panics");
                                ensure!(cx, matches!(r, Caught::Injected), "error lost", "writing {:?}: the type panicked at callback {}, the result is {}", sc.v, t.at, show(&r));
                            }
                        }
                        ensure!(cx, t.after.get() == 0, "went on", "writing {:?}: {} callbacks after the one that failed ({})", sc.v, t.after.get(), t.at);
                    } else {
                        ensure!(cx, matches!(&r, Caught::Ok(x) if *x == base), "changed", "{:?} gives {}, at first {base:?}", sc.v, show(&r));
                    }
                }
                Step::Fine { doc } => {
                    for (v, want) in [(&sc.v, &base), (&sc.w, &other)] {
                        let t = Ticker::quiet();
                        let r = catch(|| write(&sc.sh, v, &t, *doc));
                        cx.log(format!("fine: {}", show(&r)));
                        ensure!(cx, matches!(&r, Caught::Ok(x) if x == want), "changed", "after the faults {v:?} gives {}, before them {want:?}", show(&r));
                    }
                }
                _ => {}
            }
            if cx.failed() {
                return;
            }
        }
    }
    fn reading(&self, sc: &Sc, cx: &mut Ctx) {
        let (text, faults) = match &sc.input {
            Input::Written(f) => match catch(|| write(&sc.sh, &sc.v, &Ticker::quiet(), false)) {
                Caught::Ok(Ok(t)) => (t, f),
                Caught::Ok(Err(_)) => (String::new(), f),
                c => return cx.fail("panic", format!("writing {:?}: {}", sc.v, show(&c))),
            },
            Input::Text(t, f) => (t.clone(), f),
        };
        let mut b = text.into_bytes();
        for f in faults {
            f.apply(&mut b);
            cx.count(f.name());
        }
        let text = String::from_utf8_lossy(&b).into_owned();
        let base_t = Ticker::quiet();
        let read = |t: &Ticker| catch(|| from_str(&sc.sh, t, &text).map_err(|e| (e.to_string(), e)));
        let flat = |r: Result<Va, (String, kdl::de::Error)>| r.map_err(|e| e.0);
        let base = match read(&base_t) {
            Caught::Ok(r) => {
                if let Err((_, e)) = &r {
                    judge(cx, e, &text);
                    if let (Some(v), "S04", false) = (&*base_t.given.borrow(), self.id, cx.failed()) {
                        cx.count("probe: refused by the type itself");
                        located(cx, e, v, base_t.variant.get(), &text);
                        cx.out.nontrivial = true;
                    }
                }
                if cx.failed() {
                    return;
                }
                flat(r)
            }
            c => {
                let m = show(&c);
                if known_site(&m) {
                    return cx.count("listed finding met");
                }
                return cx.fail("panic", format!("reading {text:?}: {m}"));
            }
        };
        let total = base_t.ticks.get();
        cx.log(format!("{total} callbacks; {base:?}"));
        cx.count(if base.is_ok() { "probe: text can be read" } else { "probe: text cannot be read" });
        for s in &sc.steps {
            match s {
                Step::Strike { at, how, .. } => {
                    let gifts = base_t.gifts.borrow();
                    let at = if self.id == "S04" && !gifts.is_empty() {
                        gifts[gifts.len() * *at as usize / 1000]
                    } else {
                        (total as u64 * *at as u64 / 1000) as u32
                    };
                    let mut t = Ticker::new(at, Some(how.clone()));
                    let (sh, tx, want) = (sc.sh.clone(), text.clone(), base.clone());
                    let nested = std::rc::Rc::new(std::cell::RefCell::new(None));
                    let n2 = nested.clone();
                    t.reenter = Some(Box::new(move || {
                        let r = from_str(&sh, &Ticker::quiet(), &tx).map_err(|e| e.to_string());
                        *n2.borrow_mut() = Some((r == want, r));
                    }));
                    let r = read(&t);
                    if let Caught::Ok(Err((_, e))) = &r {
                        judge(cx, e, &text);
                        if let (Some(v), "S04", false, true) = (&*t.given.borrow(), self.id, cx.failed(), t.fired.get()) {
                            located(cx, e, v, t.variant.get(), &text);
                        }
                        if cx.failed() {
                            return;
                        }
                    }
                    let r = match r {
                        Caught::Ok(r) => Caught::Ok(flat(r)),
                        Caught::Injected => Caught::Injected,
                        Caught::Panic(m) => return cx.fail("panic", format!("reading {text:?} with {how:?} at callback {}: {m}", t.at)),
                    };
                    cx.log(format!("{how:?} at {}: {}", t.at, show(&r)));
                    if let Some((same, r)) = nested.borrow_mut().take() {
                        cx.count("fault: type reads something itself");
                        ensure!(cx, same, "changed", "{text:?} read while it is being read gives {r:?}, normally {base:?}");
                    }
                    if t.fired.get() {
                        cx.out.nontrivial = true;
                        cx.sig(fnv(format!("{:?}", sc.sh).as_bytes()) ^ t.at as u64);
                        match how {
                            Strike::Error(m) => {
                                cx.count("fault: type reports an error");
                                ensure!(
                                    cx,
                                    matches!(&r, Caught::Ok(Err(e)) if e == m),
                                    "error lost",
                                    "reading {text:?}: the type reported {m:?} at callback {}, the result is {}",
                                    t.at,
                                    show(&r)
                                );
                            }
                            _ => {
                                cx.count("fault: type panics");
                                ensure!(cx, matches!(r, Caught::Injected), "error lost", "reading {text:?}: the type panicked at callback {}, the result is {}", t.at, show(&r));
                            }
                        }
                        ensure!(cx, t.after.get() == 0, "went on", "reading {text:?}: {} callbacks after the one that failed ({})", t.after.get(), t.at);
                    } else {
                        ensure!(cx, matches!(&r, Caught::Ok(x) if *x == base), "changed", "reading {text:?} gives {}, at first {base:?}", show(&r));
                    }
                }
                Step::Fine { .. } => {
                    let t = Ticker::quiet();
                    let r = match read(&t) {
                        Caught::Ok(r) => Caught::Ok(flat(r)),
                        Caught::Injected => Caught::Injected,
                        Caught::Panic(m) => Caught::Panic(m),
                    };
                    cx.log(format!("fine: {}", show(&r)));
                    ensure!(cx, matches!(&r, Caught::Ok(x) if *x == base), "changed", "after the faults reading {text:?} gives {}, before them {base:?}", show(&r));
                }
                _ => {}
            }
            if cx.failed() {
                return;
            }
        }
    }
    fn storing(&self, sc: &Sc, cx: &mut Ctx) {
        // (value in memory, bytes on disk, whether they are known to hold a value)
        let mut mem = sc.v.clone();
        let mut disk: Option<(Vec<u8>, Option<Va>)> = None;
        let mut next = sc.w.clone();
        for s in &sc.steps {
            match s {
                Step::Save => {
                    let a = catch(|| write(&sc.sh, &mem, &Ticker::quiet(), false));
                    let b = catch(|| write(&sc.sh, &mem, &Ticker::quiet(), true));
                    let text = match (a, b) {
                        (Caught::Ok(Ok(a)), Caught::Ok(Ok(b))) => {
                            ensure!(cx, a == b, "changed", "{mem:?} gives {a:?} as text and {b:?} as a document");
                            a
                        }
                        (a, b) => return cx.fail("refused", format!("{mem:?} cannot be written: {} / {}", show(&a), show(&b))),
                    };
                    cx.log(format!("saved {text:?}"));
                    cx.sig(fnv(text.as_bytes()));
                    disk = Some((text.into_bytes(), Some(mem.clone())));
                }
                Step::Crash(faults) => {
                    // the next value was being written over the last one
                    if let Some((b, v)) = &mut disk {
                        for f in faults {
                            f.apply(b);
                            cx.count(f.name());
                        }
                        if !faults.is_empty() {
                            *v = None;
                        }
                        cx.log(format!("crash, {} faults", faults.len()));
                    }
                }
                Step::Reload => {
                    let Some((b, want)) = &disk else { continue };
                    let text = String::from_utf8_lossy(b).into_owned();
                    let r = catch(|| from_str(&sc.sh, &Ticker::quiet(), &text));
                    match (&r, want) {
                        (Caught::Ok(Ok(v)), Some(w)) => {
                            ensure!(cx, v == w, "differs", "{w:?} was stored as {text:?} and reads back as {v:?}");
                            cx.count("probe: intact value reads back");
                            cx.out.nontrivial = true;
                        }
                        (Caught::Ok(Err(e)), Some(w)) => {
                            return cx.fail("unreadable", format!("{w:?} was stored as {text:?}, which cannot be read: {e}"));
                        }
                        (Caught::Ok(Ok(v)), None) => {
                            cx.count("probe: damaged text reads as a value");
                            // some value of the type: it can be stored again
                            if let Caught::Panic(m) = catch(|| write(&sc.sh, v, &Ticker::quiet(), false)) {
                                return cx.fail("panic", format!("writing {v:?}, read from damaged text: {m}"));
                            }
                        }
                        (Caught::Ok(Err(e)), None) => {
                            cx.count("probe: damaged text refused");
                            judge(cx, e, &text);
                        }
                        (Caught::Panic(m), _) if known_site(m) => cx.count("listed finding met"),
                        (c, _) => return cx.fail("panic", format!("reading {text:?}: {}", show(c))),
                    }
                    // generic readers see the same text
                    match catch(|| kdl::de::from_str::<serde_json::Value>(&text).map(|v| v.to_string()).map_err(|e| e.to_string())) {
                        Caught::Ok(r) => cx.log(format!("as json: {r:?}")),
                        Caught::Panic(m) if known_site(&m) => cx.count("listed finding met"),
                        c => return cx.fail("panic", format!("reading {text:?} as JSON: {}", show(&c))),
                    }
                    cx.log(format!("reload: {}", match r { Caught::Ok(r) => format!("{r:?}"), c => show(&c) }));
                    std::mem::swap(&mut mem, &mut next);
                }
                _ => {}
            }
            if cx.failed() {
                return;
            }
        }
    }
}

impl Prop for Serde {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        let supported = self.id == "S03" || r.pct(60);
        let by_hand = (matches!(self.id, "S02" | "S04") && r.pct(45)).then(|| crate::p_map::drawn(r));
        let mut g = Gen::new(r, supported);
        let sh = match &by_hand {
            Some(x) => x.0.clone(),
            None => g.shape(At::Top, 0),
        };
        let (v, w) = (g.value(&sh), g.value(&sh));
        let len = 200;
        let draw = |r: &mut Rng, n: usize| (0..n).map(|_| Fault::draw(r, len, &mut |r| snippet(r))).collect::<Vec<_>>();
        let input = if self.id == "S04" && r.pct(35) {
            // one token of it is something else
            let t = match by_hand {
                Some(x) => x.2,
                None => write(&sh, &v, &Ticker::quiet(), false).unwrap_or_default(),
            };
            let f = crate::p_spec::token_fault(r, &t);
            Input::Text(t, vec![f])
        } else if let Some(x) = by_hand {
            let n = if r.pct(75) { 0 } else { 1 };
            Input::Text(x.2, draw(r, n))
        } else if r.pct(75) {
            let n = if r.pct(60) { 0 } else { r.range(1, 2) };
            Input::Written(draw(r, n))
        } else {
            let t = rand_doc(r).1.to_text();
            let n = r.below(2);
            Input::Text(t, draw(r, n))
        };
        let steps = if self.id == "S03" {
            let mut s = vec![Step::Save, Step::Crash(vec![]), Step::Reload];
            for _ in 0..r.below(4) {
                s.push(Step::Save);
                if r.pct(70) {
                    let n = r.below(4);
                    s.push(Step::Crash(draw(r, n)));
                }
                s.push(Step::Reload);
            }
            s
        } else {
            (0..r.range(2, 8))
                .map(|_| {
                    let doc = r.pct(40);
                    if r.pct(20) {
                        return Step::Fine { doc };
                    }
                    let how = match r.below(if self.id == "S04" { 5 } else { 10 }) {
                        0..=4 => Strike::Error(if r.pct(60) { format!("no. {}", r.below(1000)) } else { rand_string(r, true) }),
                        5..=7 => Strike::Panic,
                        _ => Strike::Reenter,
                    };
                    Step::Strike { at: r.below(1000) as u32, how, doc }
                })
                .chain([Step::Fine { doc: false }])
                .collect()
        };
        Sc { sh, v, w, input, steps }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        match self.id {
            "S01" => self.writing(sc, cx),
            "S02" | "S04" => self.reading(sc, cx),
            _ => self.storing(sc, cx),
        }
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        for i in 0..sc.steps.len() {
            let mut c = sc.clone();
            c.steps.remove(i);
            out.push(c);
        }
        for (i, s) in sc.steps.iter().enumerate() {
            if let Step::Crash(f) = s {
                for j in 0..f.len() {
                    let mut c = sc.clone();
                    if let Step::Crash(f) = &mut c.steps[i] {
                        f.remove(j);
                    }
                    out.push(c);
                }
            }
        }
        match &sc.input {
            Input::Written(f) if !f.is_empty() => out.push(Sc { input: Input::Written(vec![]), ..sc.clone() }),
            Input::Text(t, f) if !f.is_empty() => out.push(Sc { input: Input::Text(t.clone(), vec![]), ..sc.clone() }),
            _ => {}
        }
        if sc.w != sc.v {
            out.push(Sc { w: sc.v.clone(), ..sc.clone() });
        } else {
            for (sh, v) in shrink(&sc.sh, &sc.v) {
                out.push(Sc { sh, w: v.clone(), v, ..sc.clone() });
            }
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 20_000_000, secs: 500.0 }
        } else {
            Budget { runs: 400_000, secs: 40.0 }
        }
    }
    fn rule(&self) -> &'static str {
        match self.id {
            "S01" => "one run = one generated user type and value (any nesting of structs, maps, sequences, options, enums, tuples, newtypes and scalars) written several times while its Serialize implementation fails, panics or re-enters the library at a chosen callback; distinct by type and callback struck, non-trivial when a fault struck",
            "S04" => "one run = one generated user type and a text (what writing a value gave or an independent writer put down in any documented form, perhaps with a token lost, doubled or replaced, or any other document) read several times while the type refuses a number, string or boolean it is given; every error's place is compared with where the refused value stands; distinct by type and callback struck, non-trivial when a value was refused",
            "S02" => "one run = one generated user type and a text (what writing a value gave, what an independent writer put down in any documented form, damaged or not, or any other document) read several times while the type's Deserialize implementation fails, panics or re-enters the library at a chosen callback; distinct by type and callback struck, non-trivial when a fault struck",
            _ => "one run = one generated user type whose values are saved, overwritten, damaged by crashes and reloaded; distinct by the texts saved, non-trivial when an intact value was read back",
        }
    }
    fn describe(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["kdl crate built from /repo: se and de modules, parser, printer"],
            "stub": ["the user's type: Serialize and Deserialize driven by a generated shape, as derive would", "disk: block device model holding one file"],
            "faults": match self.id {
                "S03" => vec!["torn overwrite", "truncation", "zeroed block", "bit flip", "byte changed", "write duplicated", "write lost", "writes swapped", "foreign bytes"],
                _ => vec!["error at the n-th callback", "panic at the n-th callback", "library used from inside a callback", "storage faults in the text read"],
            },
            "simulated_time": "no clock in this part of the system; steps are attempts, saves, crashes and reloads"
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        match self.id {
            "S03" => vec![
                "shapes KDL gives no distinct text to are not counted as supported: Some of something written as nothing or null, sequences of compound values inside nodes, scalars and unit variants as a whole document, map keys other than strings, characters and unit variants, argument and property fields in struct variants",
                "a bool or unit field of a whole document or of a struct variant carries #[serde(default)] (see known findings)",
            ],
            _ => vec!["types are driven as serde's derive drives them"],
        }
    }
    fn show(&self, sc: &Sc) -> serde_json::Value {
        serde_json::json!({"type": sc.sh, "value": sc.v, "steps": sc.steps})
    }
}
