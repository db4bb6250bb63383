//! D09: what a crash or a bad disk left of a file is loaded by the library and by the reference
//! parser: both refuse it, or both load the same content.
use crate::core::*;
use crate::disk::{damage, snippet, Fault};
use crate::doc::*;
use crate::refparse::{one_entry, one_node, one_string, reference, Verdict};
use crate::ensure;
use crate::rng::{fnv, Rng};
use kdl::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub base: Base,
    pub faults: Vec<Fault>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Base {
    Doc(SDoc),
    Text(String),
}
impl Base {
    fn text(&self) -> String {
        match self {
            Base::Doc(d) => d.to_text(),
            Base::Text(t) => t.clone(),
        }
    }
}
pub struct Spec;

const TOKENS: [&str; 102] = [
    "a", "b", "node", "x-y", "-", "+", "-a", "--", ".", ".a", "-.a", "a.b", "é", "true", "false", "null", "inf", "nan", "-inf", "+inf", "#true", "#false", "#null", "#inf", "#-inf", "#nan",
    "1", "-1", "+0", "0x1f", "0o17", "0b10", "1.5", "1e3", "-1.5E-3", "1_000", "\"s\"", "\"\"", "\"\\n\"", "\"\\u{e9}\"", "\"\\s\"",
    "\"a \\ b\"", "#\"r\"#", "##\"r\"#\"##", "#\"\"#", "#\"\\\"#", "#\"\"x\"#", "\"\"\"\n  l\n  \"\"\"", "\"\"\"\n\"\"\"", "\"\"\"\n \\\n a\n \"\"\"",
    "\"\"\"\n\t\n\tq\"\"\n\t\"\"\"", "#\"\"\"\n  l\n\n  \"\"\"#", "(t)", "( t )", "(\"t\")", "(t)1", "k=1", "k = 1", "k=(t)v", "\"k\"=#true", "=",
    " ", " ", " ", "  ", "\t", "\u{a0}", "\\\n", "\\ // c\n", "\\/* c */\n", "/* c */", "/* /* c */ */", "/**/", "// c\n", "//\n", "\n", "\n",
    "\r\n", "\r", "\u{c}", "\u{2028}", ";", ";", "{", "}", "{}", "{ b }", "{\n b 1\n}", "/-", "/- ", "/-\n", "/-a", " /-1", " /-k=1", " /-{}",
    " /-{ b }", "/-(t)a", "/-// c\n", "/- /* c */ ", "\u{feff}", "a 1\n", "\n}",
];
/// Where the grammar's classes of characters begin and end.
const EDGES: [u32; 78] = [
    0x0, 0x1, 0x8, 0x9, 0xa, 0xb, 0xc, 0xd, 0xe, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30,
    0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x40, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60, 0x7b, 0x7c, 0x7d, 0x7e, 0x7f, 0x80, 0x84, 0x85, 0x86,
    0x9f, 0xa0, 0xa1, 0x660, 0x1680, 0x180e, 0x1fff, 0x2000, 0x2003, 0x200a, 0x200b, 0x200d, 0x200e, 0x200f, 0x2010, 0x2028, 0x2029,
    0x202a, 0x202e, 0x202f, 0x205f, 0x2066, 0x2067, 0x2069, 0x206a, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10ffff,
];
fn edge(r: &mut Rng) -> char {
    let c = *r.pick(&EDGES);
    let c = if r.pct(20) { c + 1 } else { c };
    char::from_u32(c).unwrap_or('\u{2068}')
}
/// A token made up of the characters one kind of token is made of.
fn made(r: &mut Rng) -> String {
    const DIGITS: [&str; 24] = ["0", "1", "7", "8", "9", "a", "F", "g", "_", "_", ".", "e", "E", "+", "-", "0x", "0o", "0b", "1e", "1.", "00", "12", "e1", "#"];
    const ESCAPES: [&str; 32] = [
        "\\n", "\\r", "\\t", "\\\\", "\\\"", "\\b", "\\f", "\\s", "\\/", "\\u{", "}", "\\u{0}", "\\u{e000}", "\\u{d7ff}", "\\u{d800}", "\\u{dfff}",
        "\\u{10FFFF}", "\\u{110000}", "\\u{}", "\\u{0000041}", "\\u{000041}", "\\u{fEfF}", "\\ ", "\\\n", "\\\t\r\n ", "\\\u{2029}", "x", " ", "\"", "\\", "{", "é",
    ];
    const LINES: [&str; 24] = [
        "\n", "\n", "\n", "\n", "\r\n", "\r", "\u{c}", "\u{2028}", "  ", "  ", " ", "\t", "\u{3000}", "x", "y z", "\\n", "\\s", "\\\n", "\\  \n  ", "\"", "\"\"", "\\\"", "\\", "#",
    ];
    let some = |r: &mut Rng, t: &[&str], n: usize| -> String { (0..r.below(n + 1)).map(|_| if r.pct(4) { edge(r).to_string() } else { r.pick(t).to_string() }).collect() };
    match r.below(8) {
        0 | 1 => {
            let lead = *r.pick(&["", "", "-", "+", "0x", "-0b", "0o", "1", "0"]);
            lead.to_string() + &some(r, &DIGITS, 6)
        }
        2 | 3 => format!("\"{}\"", some(r, &ESCAPES, 5)),
        4 | 5 => {
            let h = "#".repeat(if r.pct(30) { r.range(1, 3) } else { 0 });
            let indent = *r.pick(&["", "", "  ", "\t", " \t", "\u{3000}", " \\\n"]);
            let n = r.below(4);
            let mut t = format!("{h}\"\"\"{}", if r.pct(95) { *r.pick(&["\n", "\n", "\r\n", "\r"]) } else { "" });
            for _ in 0..n {
                if !r.pct(15) {
                    t += indent;
                }
                t += &some(r, &LINES, 3);
                t.push('\n');
            }
            t + if r.pct(90) { indent } else { "" } + "\"\"\"" + &h
        }
        6 => {
            let h = "#".repeat(r.range(1, 3));
            format!("{h}\"{}\"{}", some(r, &["x", "\"", "\"", "#", "#", "\\", "\"#", " ", "\n"], 6), if r.pct(90) { &h } else { "#" })
        }
        _ => {
            // an identifier, perhaps
            let lead = *r.pick(&["", "", ".", "-", "+", "-.", "+.", "#", "--", "."]);
            lead.to_string() + &some(r, &["a", "b", "-", "+", ".", "1", "0", "é", "#", "_", "inf", "nan", "true", "null", "false", "🦀", "'", ",", "<", ">"], 3)
        }
    }
}
/// One token.
fn token(r: &mut Rng) -> String {
    match r.below(100) {
        0..=3 => snippet(r),
        4..=13 => edge(r).to_string(),
        14..=28 => made(r),
        _ => r.pick(&TOKENS).to_string(),
    }
}
pub fn soup(r: &mut Rng) -> String {
    let mut t = String::new();
    let spaced = r.pct(50);
    if r.pct(40) {
        t += *r.pick(&["a ", "a ", "a k=", "(", "a (", "a 1 ", "a {", "/-"]);
    }
    let most = if r.pct(45) { 3 } else { 14 };
    for _ in 0..r.range(1, most) {
        t += &token(r);
        if spaced && r.pct(40) {
            t.push(' ');
        }
    }
    t
}
/// A fault that leaves most of the text's grammar alone: a token lost, doubled or foreign.
pub fn token_fault(r: &mut Rng, text: &str) -> Fault {
    let b: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
    let at = *r.pick(&b);
    let end = b.iter().copied().find(|e| *e > at).unwrap_or(at);
    match r.below(4) {
        0 => Fault::Lost { at, len: end - at },
        1 => Fault::Duplicate { at, len: end - at, times: 1 },
        _ => Fault::Foreign { at, text: token(r) },
    }
}
fn other(r: &mut Rng) -> String {
    if r.pct(80) { rand_doc(r).1.to_text() } else { soup(r) }
}

impl Prop for Spec {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        "D09"
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        let base = match r.below(20) {
            0..=6 => Base::Text(soup(r)),
            7 => {
                let f = Feat::draw(r);
                let mut t = String::new();
                match r.below(3) {
                    0 => sentry(r, &f).print(&mut t),
                    1 => snode(r, &f, 2).print(&mut t),
                    _ => {
                        let s = rand_string(r, true);
                        t = mk_sid(r, &f, &s).text
                    }
                }
                Base::Text(t)
            }
            _ => Base::Doc(rand_doc(r).1),
        };
        let text = base.text();
        let n = match r.below(10) {
            0 | 1 => 0,
            2..=7 => 1,
            8 => 2,
            _ => r.range(3, 5),
        };
        let faults = (0..n)
            .map(|_| if r.pct(60) { token_fault(r, &text) } else { Fault::draw(r, text.len(), &mut other) })
            .collect();
        Sc { base, faults }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        macro_rules! unit {
            ($what:expr, $t:expr, $want:expr, $lib:expr, $content:expr) => {
                if let Some(want) = $want {
                    match catch(|| $lib) {
                        Caught::Ok(Ok(k)) => {
                            let got = $content(&k);
                            ensure!(cx, want == got, "misread", "{} {:?}: the specification {want:?}, the library {got:?}", $what, $t);
                            let p = k.to_string();
                            ensure!(cx, p == *$t, "not lossless", "{} loaded from {:?} prints {p:?}", $what, $t);
                            cx.count(concat!("probe: one ", $what));
                        }
                        Caught::Ok(Err(e)) => {
                            return cx.fail("refused", format!("{} {:?}: {}", $what, $t, e.diagnostics.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("; ")))
                        }
                        Caught::Panic(m) => return cx.fail("panic", format!("{} {:?}: {m}", $what, $t)),
                        _ => unreachable!(),
                    }
                }
            };
        }
        let bytes = damage(&sc.base.text(), &sc.faults, cx);
        let t = match String::from_utf8(bytes) {
            Ok(t) => t,
            Err(e) => {
                cx.count("probe: not UTF-8, loaded lossily");
                String::from_utf8_lossy(e.as_bytes()).into_owned()
            }
        };
        cx.log(format!("stored {} bytes {:x}", t.len(), fnv(t.as_bytes())));
        let lib = match catch(|| KdlDocument::parse_v2(&t)) {
            Caught::Ok(r) => r,
            Caught::Panic(m) => return cx.fail("panic", format!("{t:?}: {m}")),
            _ => unreachable!(),
        };
        unit!("node", &t, one_node(&t), KdlNode::parse(&t), k_node);
        unit!("entry", &t, one_entry(&t), KdlEntry::parse(&t), k_entry);
        unit!("identifier", &t, one_string(&t), KdlIdentifier::parse(&t), |k: &KdlIdentifier| k.value().to_string());
        match (reference(&t), lib) {
            (Verdict::Unjudged(why), _) => {
                cx.count(&format!("not judged: {why}"));
                cx.log("not judged");
            }
            (Verdict::Accept(m), Ok(d)) => {
                cx.count("probe: both load it");
                cx.log(format!("loaded, {} nodes", m.len()));
                if let Some(x) = diff(&m, &k_doc(&d)) {
                    return cx.fail("misread", format!("{t:?}: the specification against the library: {x}"));
                }
                cx.out.nontrivial = !m.is_empty();
                cx.sig(fnv(crate::p_load::skeleton(&t).as_bytes()));
            }
            (Verdict::Accept(_), Err(e)) => cx.fail(
                "refused",
                format!("{t:?} is KDL 2.0.0, but: {}", e.diagnostics.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("; ")),
            ),
            (Verdict::Refuse(why), Ok(d)) => cx.fail("accepted", format!("{t:?} is not KDL 2.0.0 ({why}), but was loaded as {:?}", k_doc(&d))),
            (Verdict::Refuse(why), Err(_)) => {
                cx.count("probe: both refuse it");
                let kind = why.split(" at character").next().unwrap_or("").to_string();
                cx.log(format!("refused: {why}"));
                cx.count(&format!("refusal: {kind}"));
                cx.sig(fnv(kind.as_bytes()));
                cx.out.nontrivial = true;
            }
        }
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        for i in 0..sc.faults.len() {
            let mut c = sc.clone();
            c.faults.remove(i);
            out.push(c);
        }
        if let Base::Doc(d) = &sc.base {
            for s in shrink_doc(d) {
                out.push(Sc { base: Base::Doc(s), ..sc.clone() });
            }
        }
        match (&sc.base, sc.faults.is_empty()) {
            (Base::Text(t), true) => {
                let c: Vec<char> = t.chars().collect();
                let mut step = c.len() / 2;
                while step > 0 {
                    for a in (0..c.len()).step_by(step) {
                        let rest: String = c[..a].iter().chain(c[(a + step).min(c.len())..].iter()).collect();
                        out.push(Sc { base: Base::Text(rest), faults: vec![] });
                    }
                    step /= 2;
                }
            }
            _ => {
                let mut d = sc.base.text().into_bytes();
                for f in &sc.faults {
                    f.apply(&mut d);
                }
                out.push(Sc { base: Base::Text(String::from_utf8_lossy(&d).into_owned()), faults: vec![] });
            }
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 50_000_000, secs: 600.0 }
        } else {
            Budget { runs: 1_500_000, secs: 45.0 }
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one file history: a generated KDL 2 file or a soup of KDL tokens, zero to five storage faults (block-wise or of one token), then loading what is left with the library and with the reference parser; distinct by the structural skeleton of what both load and by the reason of what both refuse, non-trivial when the reference judged it and it holds a node or is refused"
    }
    fn describe(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["kdl crate built from /repo: the KDL 2 parser"],
            "stub": ["disk: block device model holding one file"],
            "oracle": "refparse.rs: recursive descent over the characters, from the KDL 2.0.0 grammar",
            "faults": ["torn overwrite", "truncation", "zeroed block", "bit flip", "byte changed", "write duplicated", "write lost", "writes swapped", "foreign bytes"],
            "simulated_time": "no clock in this part of the system; steps are store/load events"
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "where published revisions of the KDL 2 grammar differ, or the grammar and its prose, nothing is claimed: these texts are counted as not judged",
            "integers beyond 128 bits and floats beyond 64 bits are not judged",
        ]
    }
    fn show(&self, sc: &Sc) -> serde_json::Value {
        serde_json::json!({"file": sc.base.text(), "faults": sc.faults})
    }
}
