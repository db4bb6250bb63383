//! D01 / D02: what a crash or a bad disk left of a file is loaded, explained, printed, saved again.
use crate::core::*;
use crate::disk::{damage, snippet, Fault};
use crate::doc::*;
use crate::ensure;
use crate::rng::{fnv, Rng};
use kdl::*;
use miette::Diagnostic;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub base: Base,
    pub faults: Vec<Fault>,
    /// How often the loaded file is saved and loaded again.
    pub rounds: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Base {
    Doc(SDoc),
    Text(String),
    /// `pre`, `a` n times, `m`, `b` n times, `post`
    Nest { pre: String, a: String, m: String, b: String, post: String, n: usize },
}
impl Base {
    fn text(&self) -> String {
        match self {
            Base::Doc(d) => d.to_text(),
            Base::Text(t) => t.clone(),
            Base::Nest { pre, a, m, b, post, n } => format!("{pre}{}{m}{}{post}", a.repeat(*n), b.repeat(*n)),
        }
    }
}
pub struct Load {
    pub id: &'static str,
}

fn other(r: &mut Rng) -> String {
    if r.pct(80) { rand_doc(r).1.to_text() } else { (0..r.range(1, 8)).map(|_| snippet(r)).collect() }
}
/// One parse result, judged. Returns the diagnostics' signature.
fn judge_err(cx: &mut Ctx, what: &str, text: &str, e: &KdlError) -> u64 {
    ensure!(cx, *e.input == text, "input lost", "{what}: the error carries {:?} instead of the text", e.input);
    ensure!(cx, !e.diagnostics.is_empty(), "unexplained", "{what}: an error without diagnostics");
    ensure!(
        cx,
        e.diagnostics.iter().any(|d| d.severity == miette::Severity::Error),
        "unexplained",
        "{what}: no diagnostic is an error: {:?}",
        e.diagnostics
    );
    let mut sig = 0;
    for d in &e.diagnostics {
        ensure!(cx, *d.input == text, "input lost", "{what}: a diagnostic carries {:?} instead of the text", d.input);
        let (o, l) = (d.span.offset(), d.span.len());
        let end = o.checked_add(l).unwrap_or(usize::MAX);
        ensure!(cx, end <= text.len(), "span", "{what}: span {o}..{end} is outside the text (len {}): {d}", text.len());
        ensure!(
            cx,
            text.is_char_boundary(o) && text.is_char_boundary(end),
            "span",
            "{what}: span {o}..{end} splits a character: {d}"
        );
        let src = d.source_code().and_then(|s| s.read_span(&d.span, 0, 0).ok());
        ensure!(cx, src.is_some(), "span", "{what}: the span {o}..{end} cannot be read from the source");
        let ls: Vec<_> = d.labels().into_iter().flatten().collect();
        ensure!(cx, !ls.is_empty() && ls.iter().all(|l| l.label().is_some_and(|t| !t.is_empty())), "unexplained", "{what}: diagnostic without a label");
        ensure!(
            cx,
            ls[0].offset() == o && ls[0].len() == d.span.len() && (d.label.is_none() || ls[0].label() == d.label.as_deref()),
            "unexplained",
            "{what}: the report's label is {:?}, the diagnostic {d:?}",
            ls[0]
        );
        ensure!(
            cx,
            d.severity() == Some(d.severity) && d.help().map(|h| h.to_string()) == d.help && d.message.as_ref().is_none_or(|m| *m == d.to_string()),
            "unexplained",
            "{what}: the report and the diagnostic differ: {d:?}"
        );
        let m = d.to_string();
        ensure!(cx, !m.is_empty(), "unexplained", "{what}: a diagnostic with an empty message");
        sig ^= fnv(m.as_bytes()) ^ (l as u64).min(4);
    }
    ensure!(
        cx,
        e.related().map(|r| r.map(|d| d.to_string()).collect()) == Some(e.diagnostics.iter().map(|d| d.to_string()).collect::<Vec<_>>())
            && e.source_code().is_some_and(|s| s.read_span(&(0, text.len()).into(), 0, 0).is_ok_and(|s| s.data() == text.as_bytes())),
        "unexplained",
        "{what}: related() does not list the diagnostics"
    );
    sig
}

impl Load {
    fn one_text(&self, text: &str, cx: &mut Ctx) {
        let v2 = match catch(|| KdlDocument::parse_v2(text)) {
            Caught::Ok(r) => r,
            Caught::Panic(m) => return cx.fail("panic", format!("parse_v2: {m}")),
            _ => unreachable!(),
        };
        if self.id == "D10" {
            let (d, is_v2) = match v2 {
                Ok(d) => (d, true),
                Err(_) => match catch(|| KdlDocument::parse(text)) {
                    Caught::Ok(Ok(d)) => (d, false),
                    Caught::Panic(m) if known_site(&m) => return cx.count("listed finding met"),
                    Caught::Panic(m) => return cx.fail("panic", format!("KdlDocument::parse: {m}")),
                    _ => {
                        cx.log("refused");
                        return cx.count("probe: refused");
                    }
                },
            };
            cx.count(if is_v2 { "probe: accepted" } else { "probe: accepted as KDL 1" });
            let mut s = Spans { text, v2: is_v2, n: 0, sig: 0 };
            if let Err(m) = s.doc(&d, (0, text.len())) {
                return cx.fail("span", format!("{text:?}: {m}"));
            }
            cx.log(format!("accepted, {} pieces {:x}", s.n, s.sig));
            cx.add("probe: spans judged", s.n);
            cx.sig(s.sig);
            cx.out.nontrivial = s.n > 1;
            return;
        }
        if self.id == "D12" {
            return versions(text, v2, cx);
        }
        if self.id == "D02" {
            if let Ok(d) = &v2 {
                cx.count("probe: accepted");
                let p = d.to_string();
                cx.log(format!("accepted {} nodes, printed {:x}", d.nodes().len(), fnv(p.as_bytes())));
                ensure!(cx, p == text, "not lossless", "loaded {text:?} and printed {p:?}");
                cx.sig(fnv(format!("{:?}", skeleton(text)).as_bytes()));
                cx.out.nontrivial = !d.nodes().is_empty();
                // The general entry points must agree on an accepted KDL 2 text.
                match catch(|| text.parse::<KdlDocument>()) {
                    Caught::Ok(Ok(d2)) => {
                        ensure!(cx, d2.to_string() == text, "not lossless", "FromStr: loaded {text:?} and printed {:?}", d2.to_string());
                    }
                    Caught::Ok(Err(e)) => {
                        return cx.fail("not lossless", format!("parse_v2 accepts {text:?}, FromStr refuses it: {e:?}"))
                    }
                    Caught::Panic(m) => return cx.fail("panic", m),
                    _ => unreachable!(),
                }
            } else {
                cx.count("probe: refused");
                cx.log("refused");
            }
            return;
        }
        let mut sig = 0;
        match &v2 {
            Ok(d) => {
                cx.log(format!("v2 ok {} nodes", d.nodes().len()));
                cx.count("probe: accepted");
            }
            Err(e) => {
                sig = judge_err(cx, "parse_v2", text, e);
                cx.log(format!("v2 err {} {sig:x}", e.diagnostics.len()));
                cx.count("probe: refused");
                cx.add("probe: diagnostics", e.diagnostics.len() as u64);
            }
        }
        macro_rules! entry_point {
            ($what:expr, $e:expr) => {
                match catch(|| $e) {
                    Caught::Ok(Ok(v)) => {
                        // whatever was loaded can be printed
                        if let Caught::Panic(m) = catch(|| v.to_string()) {
                            return cx.fail("panic", format!("printing after {}: {m}", $what));
                        }
                        cx.log(concat!($what, " ok"));
                    }
                    Caught::Ok(Err(e)) => {
                        sig = sig.rotate_left(7) ^ judge_err(cx, $what, text, &e);
                        cx.log(concat!($what, " err"));
                    }
                    Caught::Panic(m) if known_site(&m) => {
                        cx.count("listed finding met");
                        cx.log(concat!($what, " listed finding"));
                    }
                    Caught::Panic(m) => return cx.fail("panic", format!("{}: {m}", $what)),
                    _ => unreachable!(),
                }
            };
        }
        entry_point!("KdlDocument::parse", KdlDocument::parse(text));
        entry_point!("KdlNode::parse", KdlNode::parse(text));
        entry_point!("KdlNode::from_str", text.parse::<KdlNode>());
        entry_point!("KdlEntry::parse", KdlEntry::parse(text));
        entry_point!("KdlIdentifier::parse", KdlIdentifier::parse(text));
        entry_point!("KdlDocument::parse_v1", KdlDocument::parse_v1(text));
        cx.sig(sig);
        cx.out.nontrivial = v2.is_err();
    }
}
/// D12: every way of loading tells KDL 2 from KDL 1 alike.
fn versions(text: &str, v2: Result<KdlDocument, KdlError>, cx: &mut Ctx) {
    // Debug text holds everything there is to a document or an error, spans included.
    fn all<T: std::fmt::Debug>(r: &T) -> String {
        format!("{r:?}")
    }
    macro_rules! call {
        ($what:expr, $e:expr) => {
            match catch(|| $e) {
                Caught::Ok(r) => r,
                Caught::Panic(m) if known_site(&m) => return cx.count("listed finding met"),
                Caught::Panic(m) => return cx.fail("panic", format!("{}: {m}", $what)),
                _ => unreachable!(),
            }
        };
    }
    let v1 = call!("KdlDocument::parse_v1", KdlDocument::parse_v1(text));
    let got = call!("KdlDocument::parse", KdlDocument::parse(text));
    let from = call!("KdlDocument::from_str", text.parse::<KdlDocument>());
    // What a reader of the documentation expects.
    let marked = text.lines().next().is_some_and(|l| l.contains("kdl-version 1"));
    let signs = [" true", " false", " null", "r#\"", " \"\n", " \"\r\n"];
    let (want, which) = match (&v2, &v1) {
        (Ok(_), _) => (&v2, "KDL 2"),
        (_, Ok(_)) => (&v1, "KDL 1"),
        _ if marked => (&v1, "errors of KDL 1, marked"),
        _ if signs.iter().any(|s| text.contains(s)) => (&v1, "errors of KDL 1, by its looks"),
        _ => (&v2, "errors of KDL 2"),
    };
    cx.count(&format!("probe: {which}"));
    cx.log(format!("{which} {:x}", fnv(all(want).as_bytes())));
    for (what, r) in [("parse", &got), ("from_str", &from)] {
        ensure!(cx, all(r) == all(want), "version", "{text:?}: KdlDocument::{what} gives {r:?} instead of {which}: {want:?}");
    }
    let serde = call!("serde's from_str", kdl::de::from_str::<serde::de::IgnoredAny>(text).map(|_| ()));
    match (want, &serde) {
        (Ok(_), Ok(())) => {}
        (Err(e), Err(s)) => {
            let first = s.diagnostic();
            ensure!(
                cx,
                first.as_ref() == e.diagnostics.first() && s.span() == first.map(|d| d.span) && s.to_string() == e.to_string(),
                "version",
                "{text:?}: serde reports {s:?} instead of {e:?}"
            );
            let related: Vec<String> = s.related().map(|r| r.map(|d| d.to_string()).collect()).unwrap_or_default();
            let d: Vec<String> = e.diagnostics.iter().map(|d| d.to_string()).collect();
            ensure!(cx, related == d, "version", "{text:?}: serde relates {related:?}, the document's errors are {d:?}");
        }
        _ => return cx.fail("version", format!("{text:?}: serde gives {serde:?}, but the document {want:?}")),
    }
    // The pieces: what either version allows is loaded, and errors are those of KDL 2.
    macro_rules! piece {
        ($t:ty, $what:expr, $spec:expr) => {{
            let one = call!($what, <$t>::parse(text));
            let old = call!(concat!($what, "_v1"), <$t>::parse_v1(text));
            let from = call!($what, text.parse::<$t>());
            ensure!(cx, all(&one) == all(&from), "version", "{text:?}: {} gives {one:?}, from_str {from:?}", $what);
            match (&one, &old) {
                (Err(e), Ok(k)) => return cx.fail("version", format!("{text:?}: {} refuses ({e:?}) what is KDL 1: {k:?}", $what)),
                (Err(e), Err(o)) => {
                    ensure!(cx, all(e) != all(o), "version", "{text:?}: {} gives the errors of KDL 1: {e:?}", $what);
                    cx.count(concat!("probe: not one ", stringify!($t)));
                }
                (Ok(k), o) => {
                    let v1 = $spec.is_none() && o.as_ref().is_ok_and(|o| all(o) == all(k));
                    cx.count(if v1 { concat!("probe: KDL 1 ", stringify!($t)) } else { concat!("probe: KDL 2 ", stringify!($t)) });
                    cx.sig(fnv(concat!("one ", stringify!($t)).as_bytes()) ^ v1 as u64);
                }
            }
        }};
    }
    piece!(KdlNode, "KdlNode::parse", crate::refparse::one_node(text));
    piece!(KdlEntry, "KdlEntry::parse", crate::refparse::one_entry(text));
    piece!(KdlIdentifier, "KdlIdentifier::parse", crate::refparse::one_string(text));
    cx.sig(fnv(which.as_bytes()) ^ fnv(skeleton(text).as_bytes()));
    cx.out.nontrivial = true;
}
/// D10: every span is the place of its piece in the text. `v2` is false for what the KDL 1 fallback
/// loaded: there only names and types are compared, and where things lie.
struct Spans<'a> {
    text: &'a str,
    v2: bool,
    /// pieces judged, and a signature of where they lay
    n: u64,
    sig: u64,
}
impl<'a> Spans<'a> {
    fn piece(&mut self, what: &str, o: usize, l: usize, within: (usize, usize)) -> Result<&'a str, String> {
        let end = o.checked_add(l).unwrap_or(usize::MAX);
        let Some(t) = self.text.get(o..end) else {
            return Err(format!("the span {o}..{end} of {what} is not a piece of the text (len {})", self.text.len()));
        };
        if o < within.0 || end > within.1 {
            return Err(format!("the span {o}..{end} of {what} {t:?} is not within {}..{}", within.0, within.1));
        }
        self.n += 1;
        self.sig = self.sig.rotate_left(5) ^ fnv(what.as_bytes()) ^ (l as u64).min(3);
        Ok(t)
    }
    fn ident(&mut self, what: &str, i: &KdlIdentifier, within: (usize, usize)) -> Result<(usize, usize), String> {
        let (o, l) = (i.span().offset(), i.span().len());
        let t = self.piece(what, o, l, within)?;
        if t != i.to_string() {
            return Err(format!("the span {o}..{} of {what} {:?} is that of {t:?}", o + l, i.to_string()));
        }
        Ok((o, o + l))
    }
    fn entry(&mut self, e: &KdlEntry, within: (usize, usize)) -> Result<usize, String> {
        let (o, l) = (e.span().offset(), e.span().len());
        let t = self.piece("entry", o, l, within)?;
        if self.v2 {
            let mut bare = e.clone();
            if let Some(f) = bare.format_mut() {
                f.leading.clear();
                f.trailing.clear();
            }
            if t != bare.to_string() {
                return Err(format!("the span {o}..{} of the entry {:?} is that of {t:?}", o + l, bare.to_string()));
            }
        }
        let mut at = o;
        if let Some(n) = e.name() {
            at = self.ident("property name", n, (at, o + l))?.1;
        }
        if let Some(t) = e.ty() {
            self.ident("entry type", t, (at, o + l))?;
        }
        Ok(o + l)
    }
    fn node(&mut self, n: &KdlNode, within: (usize, usize)) -> Result<(usize, usize), String> {
        let (o, l) = (n.span().offset(), n.span().len());
        let t = self.piece("node", o, l, within)?;
        if self.v2 {
            let mut bare = n.clone();
            if let Some(f) = bare.format_mut() {
                f.leading.clear();
                f.terminator.clear();
                f.trailing.clear();
            }
            if t != bare.to_string() {
                return Err(format!("the span {o}..{} of the node {:?} is that of {t:?}", o + l, bare.to_string()));
            }
        }
        let mut at = o;
        if let Some(t) = n.ty() {
            at = self.ident("node type", t, (at, o + l))?.1;
        }
        at = self.ident("node name", n.name(), (at, o + l))?.1;
        for e in n.entries() {
            at = self.entry(e, (at, o + l))?;
        }
        if let Some(k) = n.children() {
            self.doc(k, (at, o + l))?;
        }
        Ok((o, o + l))
    }
    fn doc(&mut self, d: &KdlDocument, within: (usize, usize)) -> Result<(), String> {
        let (o, l) = (d.span().offset(), d.span().len());
        self.piece("document", o, l, within)?;
        let (mut at, mut first) = (o, None);
        for n in d.nodes() {
            let (a, b) = self.node(n, (at, o + l))?;
            first = first.or(Some(a));
            at = b;
        }
        if self.v2 && first.is_some_and(|a| (a, at) != (o, o + l)) {
            return Err(format!("the span {o}..{} of a document, whose nodes lie at {}..{at}", o + l, first.unwrap()));
        }
        Ok(())
    }
}

/// A text's skeleton: what structure it has, whatever its letters.
pub fn skeleton(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        let k = if c.is_alphabetic() {
            'a'
        } else if c.is_ascii_digit() {
            '0'
        } else if c == ' ' {
            ' '
        } else {
            c
        };
        if !(o.ends_with(k) && (k == 'a' || k == '0' || k == ' ')) {
            o.push(k);
        }
    }
    o
}

impl Prop for Load {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        let lossless = self.id != "D01";
        let v1 = match self.id {
            "D01" => r.pct(10),
            "D10" => r.pct(20),
            "D12" => r.pct(60),
            _ => false,
        };
        if r.pct(if self.id == "D12" { 20 } else { 6 }) {
            let faults = if r.pct(50) { vec![] } else { vec![Fault::draw(r, 20, &mut other)] };
            return Sc { base: Base::Text(crate::p_spec::soup(r)), faults, rounds: r.below(3) };
        }
        let base = match {
            let heavy = r.pct(5);
            r.below(if heavy { 20 } else { 19 })
        } {
            19 => {
                let (pre, a, post) = *r.pick(&[
                    ("/*", "*", "*/\nn 1"),
                    ("/* ", "/", " */ n"),
                    ("/*", " * text\n", "*/\nn"),
                    ("n", " ", "1"),
                    ("", "\n", "n"),
                    ("", "n;", ""),
                    ("", "n\n", ""),
                    ("n", " 1", ""),
                    ("n", " k=#true", ""),
                    ("n", " \\\n", " 1"),
                    ("n \"", "\\n", "\""),
                    ("n \"", "x", "\""),
                    ("n \"", "\\\n   ", "\""),
                    ("n \"\"\"\n", "  l\n", "  \"\"\""),
                    ("n ", "#", "\"x\""),
                    ("n #\"", "\"", "\"#"),
                    ("n 0x", "f", ""),
                    ("n 1", "0", ".5"),
                    ("n 1e", "9", ""),
                    ("", "/-n\n", ""),
                    ("n", " /-1", ""),
                    ("n", " /-{}", ""),
                    ("", "// c\n", "n"),
                    ("n ", "}", ""),
                    ("n ", ")", ""),
                    ("", "\"", ""),
                    ("n ", "=", ""),
                    ("n ", "(", ""),
                ]);
                let n = *r.pick(&[10, 100, 1000, 4000]);
                Base::Nest { pre: pre.into(), a: a.into(), m: "".into(), b: "".into(), post: post.into(), n: r.range(n / 2, n) }
            }
            0 => Base::Text((0..r.range(1, 12)).map(|_| snippet(r)).collect()),
            1 => {
                let (a, m, b) = *r.pick(&[
                    ("a {", "b", "}"),
                    ("a {\n", "", "}\n"),
                    ("a /-{", "", "}"),
                    ("a /-{ b", "", "}"),
                    ("/*", "x", "*/"),
                    ("a { /- b {", "c 1", "} }\n"),
                    ("/- ", "a", ""),
                    ("(t)", "a", ""),
                    ("a 1 {b}\n", "", "c;"),
                    ("\"", "", "\""),
                    ("#", "\"x\"", "#"),
                    ("x \\\n", "1", ""),
                ]);
                Base::Nest { pre: "".into(), a: a.into(), m: m.into(), b: b.into(), post: "".into(), n: r.range(1, 60) }
            }
            _ if v1 => {
                let d = crate::p_migrate::rand_v1(r);
                let mut t = String::new();
                match d.nodes.first().filter(|_| self.id == "D12" && r.pct(30)) {
                    Some(n) if r.pct(50) => n.print(&mut t),
                    Some(_) => {
                        // perhaps an entry, a name or a value
                        let all = d.to_text();
                        let parts: Vec<&str> = all.split_whitespace().collect();
                        t = parts.get(r.below(parts.len())).unwrap_or(&"").to_string();
                    }
                    None => t = d.to_text(),
                }
                Base::Text(t)
            }
            _ => Base::Doc(rand_doc(r).1),
        };
        let len = base.text().len();
        let n = match r.below(10) {
            0..=2 if lossless => 0,
            0 => 0,
            1..=6 => 1,
            7 | 8 => 2,
            _ => r.range(3, 6),
        };
        let text = base.text();
        let mut faults: Vec<Fault> = (0..n)
            .map(|_| if r.pct(25) { crate::p_spec::token_fault(r, &text) } else { Fault::draw(r, len, &mut other) })
            .collect();
        if self.id == "D12" && r.pct(20) {
            let text = r.pick(&[
                "/- kdl-version 1\n", "/- kdl-version 2\n", "/-kdl-version 1;", "// kdl-version 1\n", "\n/- kdl-version 1\n", "\u{feff}/- kdl-version 1\r\n",
                "/- kdl-version 3\n", "kdl-version 1\n", "/- kdl-version 10\n",
            ]);
            faults.push(Fault::Foreign { at: 0, text: text.to_string() });
        }
        Sc { base, faults, rounds: r.below(3) }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        let text = sc.base.text();
        let bytes = damage(&text, &sc.faults, cx);
        // A reader refuses text that is not UTF-8; what a lossy reader makes of it is loaded too.
        let t = match String::from_utf8(bytes) {
            Ok(t) => t,
            Err(e) => {
                cx.count("probe: not UTF-8, loaded lossily");
                String::from_utf8_lossy(e.as_bytes()).into_owned()
            }
        };
        cx.log(format!("stored {} bytes {:x}", t.len(), fnv(t.as_bytes())));
        let mut t = t;
        if sc.faults.is_empty() {
            if let Base::Doc(d) = &sc.base {
                // generated documents are valid: refusing one, or misreading it, is its own defect
                match KdlDocument::parse_v2(&t) {
                    Ok(k) => {
                        cx.count("probe: intact document loaded");
                        if let Some(x) = diff(&m_doc(d), &k_doc(&k)) {
                            cx.count("probe: generated document read differently");
                            if std::env::var("VSIM_STRICT").is_ok() {
                                cx.fail("misread", format!("{t:?}: {x}"));
                            }
                        }
                    }
                    Err(e) => {
                        cx.count("probe: generated document refused");
                        if std::env::var("VSIM_STRICT").is_ok() {
                            cx.fail("refused", format!("{t:?}: {:?}", e.diagnostics));
                        }
                    }
                }
            }
        }
        for round in 0..=sc.rounds {
            self.one_text(&t, cx);
            if cx.failed() || self.id != "D02" {
                return;
            }
            // save what was loaded, restart, load again
            match KdlDocument::parse_v2(&t) {
                Ok(d) => {
                    let p = d.to_string();
                    ensure!(cx, p == t, "not lossless", "round {round}: {t:?} became {p:?}");
                    t = p;
                }
                Err(_) => return,
            }
        }
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        if sc.rounds > 0 {
            out.push(Sc { rounds: 0, ..sc.clone() });
        }
        for i in 0..sc.faults.len() {
            let mut c = sc.clone();
            c.faults.remove(i);
            out.push(c);
        }
        if let Base::Doc(d) = &sc.base {
            for s in shrink_doc(d) {
                out.push(Sc { base: Base::Doc(s), ..sc.clone() });
            }
        }
        if let Base::Nest { pre, a, m, b, post, n } = &sc.base {
            for k in [n / 2, n - n.min(&1)] {
                if k < *n {
                    out.push(Sc { base: Base::Nest { pre: pre.clone(), a: a.clone(), m: m.clone(), b: b.clone(), post: post.clone(), n: k }, ..sc.clone() });
                }
            }
        }
        {
            // the damaged text itself, then ever smaller parts of it
            match (&sc.base, sc.faults.is_empty()) {
                (Base::Text(t), true) => {
                    let c: Vec<char> = t.chars().collect();
                    let mut step = c.len() / 2;
                    while step > 0 {
                        for a in (0..c.len()).step_by(step) {
                            let rest: String = c[..a].iter().chain(c[(a + step).min(c.len())..].iter()).collect();
                            out.push(Sc { base: Base::Text(rest), ..sc.clone() });
                        }
                        step /= 2;
                    }
                }
                _ => {
                    let mut d = sc.base.text().into_bytes();
                    for f in &sc.faults {
                        f.apply(&mut d);
                    }
                    out.push(Sc {
                        base: Base::Text(String::from_utf8_lossy(&d).into_owned()),
                        faults: vec![],
                        rounds: sc.rounds,
                    });
                }
            }
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 20_000_000, secs: 600.0 }
        } else {
            Budget { runs: 1_000_000, secs: 45.0 }
        }
    }
    fn rule(&self) -> &'static str {
        if self.id == "D12" {
            "one run = one file history: a KDL 1 or KDL 2 file or a soup of tokens, perhaps with a version marker, zero to six storage faults, then loading what is left as a document (parse_v2, parse_v1, parse, FromStr, serde) and as a node, entry and identifier, and comparing all results; distinct by the version and structural skeleton"
        } else if self.id == "D10" {
            "one run = one file history: a generated KDL file, zero to six storage faults, then loading what is left and comparing the span of every document, node, entry, name and type with the text; distinct by kinds and lengths of the pieces, non-trivial when the text was accepted and holds at least one node"
        } else if self.id == "D01" {
            "one run = one file history: a generated KDL file (all of the KDL 2 grammar, nested up to 60 deep, or KDL 1 / random snippets), zero to six storage faults, then loading what is left through every parse entry point; distinct by the set of diagnostics produced, non-trivial when the damaged text was refused by the KDL 2 parser"
        } else {
            "one run = one file history: a generated KDL file, zero to six storage faults, then up to three load/print/save rounds; distinct by the structural skeleton of the accepted text, non-trivial when the text left on disk was accepted and holds at least one node"
        }
    }
    fn describe(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["kdl crate built from /repo (features span, serde, v1-fallback), including the kdl 4.7 fallback parser"],
            "stub": ["disk: block device model holding one file"],
            "faults": ["torn overwrite", "truncation", "zeroed block", "bit flip", "byte changed", "write duplicated", "write lost", "writes swapped", "foreign bytes"],
            "simulated_time": "no clock in this part of the system; steps are load/print/save events"
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a file that is no longer UTF-8 is refused by the reader, or decoded lossily, before KDL sees it", "each run gets 20 s of CPU and an 8 MB stack"]
    }
    fn show(&self, sc: &Sc) -> serde_json::Value {
        serde_json::json!({"file": sc.base.text(), "faults": sc.faults, "rounds": sc.rounds})
    }
}
