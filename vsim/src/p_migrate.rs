//! D08: a file is moved between KDL 1 and KDL 2, wholly or by way of edits, with crashes in between,
//! and says the same all along.
use crate::core::*;
use crate::doc::*;
use crate::p_print::{draw_prep, prep, Prep};
use crate::rng::{fnv, Rng};
use kdl::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    /// The pieces of a text in either version; what it says is known from them.
    pub start: SDoc,
    pub v1: bool,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Edit(Prep),
    /// Converts the document in memory.
    Convert { v1: bool },
    Format { no_comments: bool, level: u8, tabs: bool, keep: bool },
    /// Prints and parses the document in memory as it is.
    Look,
    /// Saves in a version, by way of a new file that takes the old one's place. A crash (0: none)
    /// leaves the old or the new one.
    Save { v1: bool, crash: u8 },
    /// Converts the file's text, and replaces the file.
    Rewrite { v1: bool, crash: u8 },
    /// 0: any version, 1: the file's.
    Reload { how: u8 },
}
pub struct Migrate;

// ------------------------------------------------------------------ KDL 1 texts

const NL1: [&str; 7] = ["\n", "\n", "\r\n", "\r", "\u{85}", "\u{c}", "\u{2028}"];
const SP1: [&str; 6] = [" ", " ", "\t", "  ", "\u{a0}", "\u{3000}"];
struct G1 {
    nl: Vec<&'static str>,
    comments: u32,
    slashdash: u32,
    escline: u32,
    ty: u32,
    prop: u32,
    kids: u32,
    odd: u32,
    semi: u32,
    names: Vec<String>,
}
fn bare1(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    !s.is_empty()
        && !matches!(s, "true" | "false" | "null")
        && !s.starts_with("true")
        && !s.starts_with("false")
        && !s.starts_with("null")
        && c.iter().all(|c| (c.is_alphanumeric() || "-_.:!@$%^&*|~'+?".contains(*c)) && *c != 'r')
        && !c[0].is_numeric()
        && !("+-.".contains(c[0]))
}
impl G1 {
    fn draw(r: &mut Rng) -> G1 {
        let mut on = |p: u32, v: u32| if r.pct(p) { v } else { 0 };
        let (comments, slashdash, escline) = (on(70, 25), on(50, 15), on(50, 12));
        let (ty, prop, kids, odd, semi) = (on(60, 25), on(80, 40), on(80, 35), on(60, 40), on(60, 35));
        let nl = if r.pct(60) { vec!["\n"] } else { (0..3).map(|_| *r.pick(&NL1)).collect() };
        let mut names: Vec<String> = ["a", "b", "node", "k", "x-1"].iter().map(|s| s.to_string()).collect();
        for _ in 0..r.below(3) {
            names.push(rand_string(r, odd > 0));
        }
        G1 { nl, comments, slashdash, escline, ty, prop, kids, odd, semi, names }
    }
    fn string(&self, r: &mut Rng, s: &str) -> String {
        if r.pct(25) && !s.contains('"') {
            return format!("r\"{s}\"");
        }
        if r.pct(25) {
            let mut h = "#".repeat(r.range(1, 2));
            while s.contains(&format!("\"{h}")) {
                h.push('#');
            }
            return format!("r{h}\"{s}\"{h}");
        }
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '/' if r.pct(50) => o.push_str("\\/"),
                '\n' if r.pct(50) => o.push_str("\\n"),
                '\r' if r.pct(50) => o.push_str("\\r"),
                '\t' if r.pct(50) => o.push_str("\\t"),
                '\u{8}' => o.push_str("\\b"),
                '\u{c}' => o.push_str("\\f"),
                c if r.pct(5) || (c as u32) < 0x20 && !"\n\r\t".contains(c) => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    fn id(&self, r: &mut Rng) -> SId {
        let value = r.pick(&self.names).clone();
        let text = if bare1(&value) && r.pct(75) { value.clone() } else { self.string(r, &value) };
        SId { text, value }
    }
    fn val(&self, r: &mut Rng) -> (String, Val) {
        loop {
            let odd = r.pct(self.odd);
            let v = rand_val(r, odd);
            let t = match &v {
                Val::Str(s) => self.string(r, s),
                Val::Bool(b) => b.to_string(),
                Val::Null => "null".into(),
                Val::Float(b) => {
                    let f = f64::from_bits(*b);
                    if !f.is_finite() {
                        continue;
                    }
                    let t = format!("{f:?}");
                    if t.contains('e') && r.pct(50) { t.replace('e', "E") } else { t }
                }
                Val::Int(i) => {
                    let Ok(i) = i.parse::<i64>() else { continue };
                    if i == i64::MIN {
                        continue;
                    }
                    let (s, a) = (if i < 0 { "-" } else if r.pct(10) { "+" } else { "" }, i.unsigned_abs());
                    match r.below(8) {
                        0 => format!("{s}0x{a:x}"),
                        1 => format!("{s}0o{a:o}"),
                        2 => format!("{s}0b{a:b}"),
                        3 if a > 9 => {
                            let d = a.to_string();
                            format!("{s}{}_{}", &d[..1], &d[1..])
                        }
                        _ => format!("{s}{a}"),
                    }
                }
            };
            return (t, v);
        }
    }
    fn nl(&self, r: &mut Rng) -> String {
        r.pick(&self.nl).to_string()
    }
    fn block(&self, r: &mut Rng) -> &'static str {
        *r.pick(&["/**/", "/* c */", "/* a /* b */ ; */", "/* \"q */", "/* { */", "/*\n*/", "/* // */", "/*\u{feff}*/"])
    }
    fn line(&self, r: &mut Rng) -> String {
        format!("{}{}", r.pick(&["//", "// c", "// { \" ;", "// /* ", "//\u{2003}é", "// \u{200e}\u{1b}"]), self.nl(r))
    }
    fn sp(&self, r: &mut Rng) -> String {
        let mut o = r.pick(&SP1).to_string();
        if r.pct(self.escline) {
            o.push('\\');
            if r.pct(30) {
                o.push_str(&format!(" {}", self.line(r)));
            } else {
                o.push_str(&self.nl(r));
            }
            if r.pct(50) {
                o.push_str(*r.pick(&SP1));
            }
        }
        if r.pct(self.comments / 2) {
            o.push_str(self.block(r));
            if r.pct(50) {
                o.push_str(*r.pick(&SP1));
            }
        }
        o
    }
    fn lines(&self, r: &mut Rng) -> String {
        let mut o = String::new();
        while r.pct(40) {
            match r.below(4) {
                0 => o.push_str(&self.nl(r)),
                1 if r.pct(self.comments * 2) => o.push_str(&self.line(r)),
                2 if r.pct(self.comments) => o.push_str(self.block(r)),
                _ => o.push_str(*r.pick(&SP1)),
            }
        }
        o
    }
    /// Removed parts written alike in both versions.
    fn gone(&self, r: &mut Rng) -> &'static str {
        *r.pick(&["1", "k=1", "\"a\"", "\"a;b\"", "(t)\"// x\"", "-1.5", "\"}\"=2"])
    }
    fn entry(&self, r: &mut Rng) -> SEntry {
        let name = r.pct(self.prop).then(|| (self.id(r), String::new(), String::new()));
        let ty = r.pct(self.ty).then(|| self.sty(r));
        let (text, val) = self.val(r);
        SEntry { name, ty, text, val }
    }
    fn sty(&self, r: &mut Rng) -> STy {
        STy { pre: String::new(), id: self.id(r), post: String::new(), after: String::new() }
    }
    fn node(&self, r: &mut Rng, depth: usize) -> SNode {
        let ty = r.pct(self.ty).then(|| self.sty(r));
        let name = self.id(r);
        let n = r.below(4);
        let mut gaps = vec![];
        let mut entries = vec![];
        for _ in 0..n {
            let mut g = self.sp(r);
            if r.pct(self.slashdash) {
                g.push_str("/-");
                g.push_str(self.gone(r));
                g.push_str(&self.sp(r));
            }
            gaps.push(g);
            entries.push(self.entry(r));
        }
        let kids = (depth < 3 && r.pct(self.kids)).then(|| {
            let mut before = self.sp(r);
            if r.pct(self.slashdash / 2) {
                before.push_str(&format!("/-{}{}", self.gone(r), self.sp(r)));
            }
            SKids { before, doc: self.doc(r, depth + 1) }
        });
        SNode { ty, name, gaps, entries, kids }
    }
    fn end(&self, r: &mut Rng, kids: bool, last: bool, depth: usize) -> String {
        let mut o = String::new();
        if !kids && r.pct(self.slashdash / 2) {
            o.push_str(&format!("{}/-{}", self.sp(r), self.gone(r)));
        }
        if r.pct(self.slashdash / 3) {
            o.push_str(&format!("{}/-{{ b \"x;\"; c \"//\"\n}}", self.sp(r)));
        }
        if r.pct(40) {
            o.push_str(&self.sp(r));
        }
        if last && depth == 0 && r.pct(30) {
            return o;
        }
        if r.pct(self.semi) || o.ends_with('\r') {
            o.push(';');
        } else if r.pct(self.comments) {
            if !o.ends_with([' ', '\t']) {
                o.push(' ');
            }
            o.push_str(&self.line(r));
        } else {
            o.push_str(&self.nl(r));
        }
        o
    }
    fn doc(&self, r: &mut Rng, depth: usize) -> SDoc {
        let n = if depth == 0 { r.range(0, 4) } else { r.below(4) };
        let (mut gaps, mut nodes, mut pend) = (vec![], vec![], String::new());
        for i in 0..n {
            pend.push_str(&self.lines(r));
            if r.pct(self.slashdash) {
                pend.push_str(&format!("/-x {} {{\n y 1; }}{}", self.gone(r), self.nl(r)));
            }
            gaps.push(std::mem::take(&mut pend));
            nodes.push(self.node(r, depth));
            pend = self.end(r, nodes[i].kids.is_some(), i + 1 == n, depth);
        }
        if n == 0 || pend.ends_with(';') || pend.ends_with('\n') {
            pend.push_str(&self.lines(r));
        }
        gaps.push(pend);
        SDoc { gaps, nodes }
    }
}

/// Whether KDL 1, as its parser has it, can hold this.
/// A KDL 1 file.
pub fn rand_v1(r: &mut Rng) -> SDoc {
    let g = G1::draw(r);
    g.doc(r, 0)
}
fn fits_v1(m: &MDoc) -> bool {
    m.iter().all(|n| {
        n.kids.as_ref().is_none_or(fits_v1)
            && n.entries.iter().all(|e| match &e.val {
                Val::Int(i) => i.parse::<i64>().is_ok_and(|i| i != i64::MIN),
                Val::Float(b) => f64::from_bits(*b).is_finite(),
                _ => true,
            })
    })
}
/// KDL 1 has no infinities and no NaN: the library writes what comes nearest, or something refused.
fn nearest(want: &MDoc, got: &mut MDoc) {
    for (w, g) in want.iter().zip(got) {
        for (w, g) in w.entries.iter().zip(&mut g.entries) {
            if let (Val::Float(x), Val::Float(_)) = (&w.val, &g.val) {
                if !f64::from_bits(*x).is_finite() {
                    g.val = w.val.clone();
                }
            }
        }
        if let (Some(w), Some(g)) = (&w.kids, &mut g.kids) {
            nearest(w, g);
        }
    }
}
fn read(t: &str, v1: bool) -> Result<KdlDocument, String> {
    if v1 { KdlDocument::parse_v1(t) } else { KdlDocument::parse_v2(t) }.map_err(|e| format!("{:?}", e.diagnostics))
}
fn ensure(d: &mut KdlDocument, v1: bool) {
    if v1 {
        d.ensure_v1()
    } else {
        d.ensure_v2()
    }
}
struct File {
    text: String,
    v1: bool,
    says: MDoc,
}
struct St {
    doc: KdlDocument,
    /// What every value, name and type is written as, if all are in one version.
    is: Option<bool>,
    file: File,
}
impl Migrate {
    /// `text` has to say `want` in version `v1`, unless that version has no such values.
    fn says(&self, cx: &mut Ctx, text: &str, v1: bool, want: &MDoc, what: &str) -> bool {
        let v = if v1 { 1 } else { 2 };
        match read(text, v1) {
            Ok(d) => {
                let mut got = k_doc(&d);
                if v1 {
                    nearest(want, &mut got);
                }
                if let Some(x) = diff(want, &got) {
                    cx.fail("content", format!("{what}: reading {text:?} as KDL {v}: {x}"));
                    return false;
                }
                true
            }
            Err(_) if v1 && !fits_v1(want) => {
                cx.count("probe: not to be had in KDL 1, and refused");
                false
            }
            Err(e) => {
                cx.fail("refused", format!("{what}: {text:?} is not KDL {v}: {}", e.chars().take(600).collect::<String>()));
                false
            }
        }
    }
    fn step(&self, s: &Step, st: &mut St, cx: &mut Ctx) {
        let what = format!("{s:?}");
        match s {
            Step::Edit(p) => {
                prep(&mut st.doc, p);
                st.is = None;
                cx.count("edit");
            }
            Step::Convert { v1 } => {
                let want = k_doc(&st.doc);
                ensure(&mut st.doc, *v1);
                if let Some(x) = diff(&want, &k_doc(&st.doc)) {
                    return cx.fail("content", format!("{what}, in memory: {x}"));
                }
                st.is = Some(*v1);
                cx.count(if *v1 { "converted to KDL 1 in memory" } else { "converted to KDL 2 in memory" });
            }
            Step::Format { no_comments, level, tabs, keep } => {
                let want = k_doc(&st.doc);
                if st.is == Some(true) || *keep {
                    // Kept formatting has to be KDL 2 first.
                    ensure(&mut st.doc, false);
                }
                let mut f = FormatConfig::builder().indent(if *tabs { "\t" } else { "    " }).no_comments(*no_comments).build();
                f.indent_level = *level as usize;
                f.entry_autoformate_keep = *keep;
                st.doc.autoformat_config(&f);
                st.is = Some(false);
                cx.count("formatted");
                let t = st.doc.to_string();
                self.says(cx, &t, false, &want, &what);
            }
            Step::Look => {
                if let Some(v1) = st.is {
                    let t = st.doc.to_string();
                    let want = k_doc(&st.doc);
                    self.says(cx, &t, v1, &want, &what);
                    cx.count("printed and read again");
                }
            }
            Step::Save { v1, crash } => {
                let want = k_doc(&st.doc);
                let mut d = st.doc.clone();
                ensure(&mut d, *v1);
                let text = d.to_string();
                if !self.says(cx, &text, *v1, &want, &what) || *v1 && !fits_v1(&want) {
                    return;
                }
                self.replace(st, File { text, v1: *v1, says: want }, *crash, cx);
            }
            Step::Rewrite { v1, crash } => {
                if st.file.v1 == *v1 {
                    return;
                }
                let old = &st.file.text;
                let r = if *v1 { KdlDocument::v2_to_v1(old) } else { KdlDocument::v1_to_v2(old) };
                match r {
                    Err(e) => cx.fail("refused", format!("{what}: {old:?} is not converted: {:?}", e.diagnostics)),
                    Ok(text) => {
                        let says = st.file.says.clone();
                        if !self.says(cx, &text, *v1, &says, &what) || *v1 && !fits_v1(&says) {
                            return;
                        }
                        cx.count(if *v1 { "file rewritten in KDL 1" } else { "file rewritten in KDL 2" });
                        self.replace(st, File { text, v1: *v1, says }, *crash, cx);
                    }
                }
            }
            Step::Reload { how } => self.reload(st, *how, cx),
        }
    }
    fn replace(&self, st: &mut St, new: File, crash: u8, cx: &mut Ctx) {
        match crash {
            1 => {
                cx.count("fault: crash, the old file survives");
                self.reload(st, 0, cx)
            }
            2 => {
                cx.count("fault: crash, the new file survives");
                st.file = new;
                self.reload(st, 0, cx)
            }
            _ => {
                cx.count("saved");
                st.file = new;
            }
        }
    }
    fn reload(&self, st: &mut St, how: u8, cx: &mut Ctx) {
        let f = &st.file;
        let r = if how == 0 { KdlDocument::parse(&f.text).map_err(|e| format!("{:?}", e.diagnostics)) } else { read(&f.text, f.v1) };
        match r {
            Err(e) => cx.fail("refused", format!("the file {:?} does not load: {e}", f.text)),
            Ok(d) => {
                if let Some(x) = diff(&f.says, &k_doc(&d)) {
                    return cx.fail("content", format!("loading the file {:?}: {x}", f.text));
                }
                // Not touched, it prints as it was.
                let t = d.to_string();
                if t != f.text && !(f.v1 && t.strip_suffix('\n') == Some(&f.text)) {
                    return cx.fail("text", format!("the file {:?}, loaded, prints as {t:?}", f.text));
                }
                st.doc = d;
                st.is = Some(f.v1);
                cx.count("reloaded");
            }
        }
    }
}
fn draw_step(r: &mut Rng) -> Step {
    let v1 = r.pct(50);
    let crash = if r.pct(50) { r.below(3) as u8 } else { 0 };
    match r.below(12) {
        0 | 1 => Step::Edit(draw_prep(r)),
        2 | 3 => Step::Convert { v1 },
        4 => Step::Format { no_comments: r.pct(30), level: r.below(2) as u8, tabs: r.pct(40), keep: r.pct(50) },
        5 => Step::Look,
        6 | 7 => Step::Save { v1, crash },
        8 | 9 | 10 => Step::Rewrite { v1, crash },
        _ => Step::Reload { how: r.below(2) as u8 },
    }
}
impl Prop for Migrate {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        "D08"
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        let v1 = r.pct(55);
        let start = if v1 {
            G1::draw(r).doc(r, 0)
        } else {
            let mut f = Feat::draw(r);
            // Removed parts stay as they are written, see DESIGN.md.
            f.slashdash = 0;
            f.max_depth = f.max_depth.min(3);
            sdoc(r, &f, 0)
        };
        let n = r.range(1, 8);
        Sc { start, v1, steps: (0..n).map(|_| draw_step(r)).collect() }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        let text = sc.start.to_text();
        let says = m_doc(&sc.start);
        let file = File { text, v1: sc.v1, says };
        let mut st = St { doc: KdlDocument::new(), is: None, file };
        self.reload(&mut st, 1, cx);
        for s in &sc.steps {
            if cx.failed() {
                return;
            }
            cx.out.steps += 1;
            self.step(s, &mut st, cx);
            cx.log(format!("{s:?} {:x} {:x}", fnv(st.doc.to_string().as_bytes()), fnv(st.file.text.as_bytes())));
        }
        if cx.failed() {
            return;
        }
        // In the end, both ways, from what is in memory.
        for v1 in [false, true] {
            let mut d = st.doc.clone();
            ensure(&mut d, v1);
            let t = d.to_string();
            let want = k_doc(&st.doc);
            self.says(cx, &t, v1, &want, "in the end");
            if cx.failed() {
                return;
            }
        }
        cx.sig(fnv(format!("{} {:?} {}", sc.v1, sc.steps.iter().map(std::mem::discriminant).collect::<Vec<_>>(), sc.start.count()).as_bytes()));
        cx.out.nontrivial = sc.start.count() > 0;
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        for i in 0..sc.steps.len() {
            let mut c = sc.clone();
            c.steps.remove(i);
            out.push(c);
        }
        for d in shrink_doc(&sc.start) {
            out.push(Sc { start: d, ..sc.clone() });
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 40_000_000, secs: 600.0 }
        } else {
            Budget { runs: 2_000_000, secs: 45.0 }
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one file's history: a generated KDL 1 or KDL 2 file, then up to eight edits, conversions of the document in memory or of the file's text, reformattings, saves with crashes, and reloads; distinct by starting version, kinds of steps and size; non-trivial when the file holds at least one node"
    }
    fn describe(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["kdl crate built from /repo (features span, serde, v1-fallback)", "kdl 4.7's parser, which reads KDL 1"],
            "stub": ["disk: one file, replaced as a whole"],
            "faults": ["crash before the new file took the old one's place", "crash after"],
            "oracle": "what the generated pieces say; what the document said before the conversion",
            "simulated_time": "no clock in this part of the system; steps are edit/convert/save events"
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "slashdashed parts are written alike in both versions: their text is not converted",
            "a value KDL 1's parser has no room for (beyond 64 bits, infinite, not a number) may be refused, but not read as another",
            "replacing a file is atomic",
        ]
    }
    fn show(&self, sc: &Sc) -> serde_json::Value {
        serde_json::json!({"file": sc.start.to_text(), "KDL 1": sc.v1, "steps": format!("{:?}", sc.steps)})
    }
}
