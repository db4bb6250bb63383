//! A tiny concrete syntax tree for KDL 2 text. Printing it is concatenation, its meaning is a
//! projection, so it serves both as the workload generator's documents and as the executable
//! reference model that the real library is compared with. It shares no code with the library.
use crate::rng::Rng;
use kdl::{KdlDocument, KdlEntry, KdlNode, KdlValue};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Str(String),
    Int(String),
    Float(u64),
    Bool(bool),
    Null,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SId {
    pub text: String,
    pub value: String,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct STy {
    pub pre: String,
    pub id: SId,
    pub post: String,
    pub after: String,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SEntry {
    pub name: Option<(SId, String, String)>,
    pub ty: Option<STy>,
    pub text: String,
    pub val: Val,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SKids {
    pub before: String,
    pub doc: SDoc,
}
/// `entries[i]` is preceded by `gaps[i]`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SNode {
    pub ty: Option<STy>,
    pub name: SId,
    pub gaps: Vec<String>,
    pub entries: Vec<SEntry>,
    pub kids: Option<SKids>,
}
/// `nodes[i]` sits between `gaps[i]` and `gaps[i + 1]`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SDoc {
    pub gaps: Vec<String>,
    pub nodes: Vec<SNode>,
}

impl STy {
    pub fn print(&self, o: &mut String) {
        o.push('(');
        o.push_str(&self.pre);
        o.push_str(&self.id.text);
        o.push_str(&self.post);
        o.push(')');
        o.push_str(&self.after);
    }
}
impl SEntry {
    pub fn print(&self, o: &mut String) {
        if let Some((n, a, b)) = &self.name {
            o.push_str(&n.text);
            o.push_str(a);
            o.push('=');
            o.push_str(b);
        }
        if let Some(t) = &self.ty {
            t.print(o);
        }
        o.push_str(&self.text);
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.print(&mut s);
        s
    }
}
impl SNode {
    pub fn head(&self, o: &mut String) {
        if let Some(t) = &self.ty {
            t.print(o);
        }
        o.push_str(&self.name.text);
    }
    pub fn print(&self, o: &mut String) {
        self.head(o);
        for (g, e) in self.gaps.iter().zip(&self.entries) {
            o.push_str(g);
            e.print(o);
        }
        if let Some(k) = &self.kids {
            o.push_str(&k.before);
            o.push('{');
            k.doc.print(o);
            o.push('}');
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.print(&mut s);
        s
    }
}
impl SDoc {
    pub fn print(&self, o: &mut String) {
        for (i, n) in self.nodes.iter().enumerate() {
            o.push_str(&self.gaps[i]);
            n.print(o);
        }
        o.push_str(&self.gaps[self.nodes.len()]);
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.print(&mut s);
        s
    }
    pub fn count(&self) -> usize {
        self.nodes
            .iter()
            .map(|n| 1 + n.entries.len() + n.kids.as_ref().map_or(0, |k| k.doc.count()))
            .sum()
    }
}

// ------------------------------------------------------------------ meaning

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MEntry {
    pub name: Option<String>,
    pub ty: Option<String>,
    pub val: Val,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MNode {
    pub ty: Option<String>,
    pub name: String,
    pub entries: Vec<MEntry>,
    pub kids: Option<Vec<MNode>>,
}
pub type MDoc = Vec<MNode>;

pub fn m_entry(e: &SEntry) -> MEntry {
    MEntry {
        name: e.name.as_ref().map(|n| n.0.value.clone()),
        ty: e.ty.as_ref().map(|t| t.id.value.clone()),
        val: e.val.clone(),
    }
}
pub fn m_node(n: &SNode) -> MNode {
    MNode {
        ty: n.ty.as_ref().map(|t| t.id.value.clone()),
        name: n.name.value.clone(),
        entries: n.entries.iter().map(m_entry).collect(),
        kids: n.kids.as_ref().map(|k| m_doc(&k.doc)),
    }
}
pub fn m_doc(d: &SDoc) -> MDoc {
    d.nodes.iter().map(m_node).collect()
}
pub fn fbits(f: f64) -> u64 {
    if f.is_nan() {
        f64::NAN.to_bits()
    } else {
        f.to_bits()
    }
}
pub fn k_val(v: &KdlValue) -> Val {
    match v {
        KdlValue::String(s) => Val::Str(s.clone()),
        KdlValue::Integer(i) => Val::Int(i.to_string()),
        KdlValue::Float(f) => Val::Float(fbits(*f)),
        KdlValue::Bool(b) => Val::Bool(*b),
        KdlValue::Null => Val::Null,
    }
}
pub fn to_kdl(v: &Val) -> KdlValue {
    match v {
        Val::Str(s) => KdlValue::String(s.clone()),
        Val::Int(i) => KdlValue::Integer(i.parse().unwrap()),
        Val::Float(b) => KdlValue::Float(f64::from_bits(*b)),
        Val::Bool(b) => KdlValue::Bool(*b),
        Val::Null => KdlValue::Null,
    }
}
pub fn k_entry(e: &KdlEntry) -> MEntry {
    MEntry {
        name: e.name().map(|n| n.value().to_string()),
        ty: e.ty().map(|n| n.value().to_string()),
        val: k_val(e.value()),
    }
}
pub fn k_node(n: &KdlNode) -> MNode {
    MNode {
        ty: n.ty().map(|t| t.value().to_string()),
        name: n.name().value().to_string(),
        entries: n.entries().iter().map(k_entry).collect(),
        kids: n.children().map(k_doc),
    }
}
pub fn k_doc(d: &KdlDocument) -> MDoc {
    d.nodes().iter().map(k_node).collect()
}
/// Where two trees first differ, in words.
pub fn diff(a: &MDoc, b: &MDoc) -> Option<String> {
    fn go(a: &MDoc, b: &MDoc, path: &str) -> Option<String> {
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            let p = format!("{path}/{}[{i}]", x.name.escape_debug());
            if x.name != y.name {
                return Some(format!("{p}: name {:?} vs {:?}", x.name, y.name));
            }
            if x.ty != y.ty {
                return Some(format!("{p}: type {:?} vs {:?}", x.ty, y.ty));
            }
            for (j, (e, f)) in x.entries.iter().zip(&y.entries).enumerate() {
                if e != f {
                    return Some(format!("{p} entry {j}: {e:?} vs {f:?}"));
                }
            }
            if x.entries.len() != y.entries.len() {
                return Some(format!("{p}: {} entries vs {}", x.entries.len(), y.entries.len()));
            }
            match (&x.kids, &y.kids) {
                (None, None) => {}
                (Some(k), Some(l)) => {
                    if let Some(d) = go(k, l, &p) {
                        return Some(d);
                    }
                }
                (k, l) => {
                    return Some(format!("{p}: children {} vs {}", k.is_some(), l.is_some()));
                }
            }
        }
        (a.len() != b.len()).then(|| format!("{path}: {} nodes vs {}", a.len(), b.len()))
    }
    go(a, b, "")
}

// ------------------------------------------------------------------ generation

/// Which features a run uses ("swarm" configuration, drawn per run).
#[derive(Clone, Debug)]
pub struct Feat {
    pub nls: Vec<&'static str>,
    pub comments: u32,
    pub slashdash: u32,
    pub escline: u32,
    pub unispace: u32,
    pub ty: u32,
    pub prop: u32,
    pub kids: u32,
    pub fancy_str: u32,
    pub exotic: u32,
    pub semi: u32,
    pub bom: u32,
    pub tight: u32,
    pub max_nodes: usize,
    pub max_entries: usize,
    pub max_depth: usize,
    pub names: Vec<String>,
}
const NLS: [&str; 8] = ["\n", "\r\n", "\r", "\u{85}", "\u{b}", "\u{c}", "\u{2028}", "\u{2029}"];
const SPACES: [&str; 8] = [" ", "\t", "\u{a0}", "\u{1680}", "\u{2003}", "\u{202f}", "\u{205f}", "\u{3000}"];

impl Feat {
    pub fn draw(r: &mut Rng) -> Feat {
        let mut on = |p: u32, v: u32| if r.pct(p) { v } else { 0 };
        let (comments, slashdash, escline, unispace) = (on(70, 25), on(60, 20), on(50, 12), on(40, 15));
        let (ty, prop, kids, fancy_str) = (on(70, 25), on(85, 45), on(85, 35), on(75, 50));
        let (exotic, semi, bom, tight) = (on(60, 30), on(60, 30), on(20, 60), on(40, 30));
        let nls = match r.below(4) {
            0 | 1 => vec!["\n"],
            2 => vec!["\r\n"],
            _ => {
                let n = r.range(1, 4);
                (0..n).map(|_| *r.pick(&NLS)).collect()
            }
        };
        let mut names: Vec<String> = ["a", "b", "node", "-", "k"].iter().map(|s| s.to_string()).collect();
        for _ in 0..r.below(3) {
            names.push(rand_string(r, exotic > 0));
        }
        Feat {
            nls,
            comments,
            slashdash,
            escline,
            unispace,
            ty,
            prop,
            kids,
            fancy_str,
            exotic,
            semi,
            bom,
            tight,
            max_nodes: r.range(1, 5),
            max_entries: r.range(1, 5),
            max_depth: r.range(0, 4),
            names,
        }
    }
    fn nl(&self, r: &mut Rng) -> &'static str {
        *r.pick(&self.nls)
    }
}

/// Any string a value, name or type may hold.
pub fn rand_string(r: &mut Rng, exotic: bool) -> String {
    const PLAIN: [&str; 30] = [
        "foo", "bar", "x", "hello world", "", " ", "a\"b", "back\\slash", "two\nlines", "t\tab", "#true", "#", "true",
        "null", "inf", "-inf", "nan", "-", "+", ".", "-.", "+.x", "--x", "1", "-1", "0x10", "é", "名前", "🦀z", "a=b",
    ];
    const ODD: [&str; 36] = [
        "\u{85}", "a\u{2028}b", "\u{2029}", "\u{b}", "\u{c}f", "\u{8}", "\u{0}", "\u{1f}", "\u{7f}", "\u{feff}x", "\u{200e}",
        "\u{202a}b", "\u{2066}", "\r", "\r\n", "\n\n", "  pad  ", "a/b", "a;b", "{", "}", "(t)", "/-", "//", "/*", "*/", "\"\"\"",
        "#\"", "\\/", "c:\\/d", "//x/\\y", "r\"x\"", "+.5", "-.5", ".5", "e\u{301}\u{10ffff}",
    ];
    match r.below(10) {
        0..=5 => r.pick(&PLAIN).to_string(),
        6 | 7 if exotic => {
            let mut s = r.pick(&ODD).to_string();
            if r.pct(40) {
                s.push_str(*r.pick(&PLAIN));
            }
            if r.pct(30) {
                s.insert_str(0, *r.pick(&PLAIN));
            }
            s
        }
        8 if exotic => {
            let n = r.range(1, 6);
            (0..n)
                .map(|_| loop {
                    let c = match r.below(4) {
                        0 => r.below(0x80) as u32,
                        1 => r.below(0x3000) as u32,
                        2 => 0x2000 + r.below(0x80) as u32,
                        _ => r.below(0x110000) as u32,
                    };
                    if let Some(c) = char::from_u32(c) {
                        break c;
                    }
                })
                .collect()
        }
        _ => {
            let n = r.range(1, 8);
            (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'q', 'z', '0', '7', '_', '-', '.', 'é', ' '])).collect()
        }
    }
}

pub fn rand_val(r: &mut Rng, exotic: bool) -> Val {
    match r.below(10) {
        0..=3 => Val::Str(rand_string(r, exotic)),
        4..=6 => Val::Int(rand_int(r).to_string()),
        7 => Val::Float(fbits(rand_float(r))),
        8 => Val::Bool(r.pct(50)),
        _ => Val::Null,
    }
}
pub fn rand_int(r: &mut Rng) -> i128 {
    match r.below(8) {
        0..=3 => r.below(200) as i128 - 50,
        4 => r.u64() as i64 as i128,
        5 => *r.pick(&[0, -1, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i128::MAX, i128::MIN + 1]),
        6 => (r.u64() as i128) << r.below(62),
        _ => -((r.u64() as i128) >> r.below(60)),
    }
}
pub fn rand_float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0..=2 => (r.below(2000) as f64 - 1000.0) / 8.0,
        3 => *r.pick(&[0.0, -0.0, 1e300, -1e-300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e16, 1e15, 123456789.125, 1e21, 1e22]),
        4 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        5 => f64::from_bits(r.u64()),
        _ => r.below(100000) as f64 * 1e-3,
    }
}

fn disallowed(c: char) -> bool {
    matches!(c, '\0'..='\u{8}' | '\u{e}'..='\u{1f}' | '\u{7f}' | '\u{200e}' | '\u{200f}' | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' | '\u{feff}')
}
fn is_nl(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{85}' | '\u{b}' | '\u{c}' | '\u{2028}' | '\u{2029}')
}
fn is_space(c: char) -> bool {
    matches!(c, '\t' | ' ' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}
/// Whether `s` may be written without quotes (KDL 2.0.0 `identifier-string`).
pub fn plain_ident(s: &str) -> bool {
    if s.is_empty() || matches!(s, "true" | "false" | "null" | "inf" | "-inf" | "nan") {
        return false;
    }
    if s.chars().any(|c| is_nl(c) || is_space(c) || disallowed(c) || "\\/(){}[];\"#=".contains(c)) {
        return false;
    }
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    if matches!(c[0], '+' | '-') {
        i = 1;
    }
    if c.get(i) == Some(&'.') {
        i += 1;
    }
    !c.get(i).is_some_and(|c| c.is_ascii_digit())
}

fn esc_char(r: &mut Rng, c: char, force: bool, o: &mut String) {
    let named = match c {
        '\\' => Some("\\\\"),
        '"' => Some("\\\""),
        '\n' => Some("\\n"),
        '\r' => Some("\\r"),
        '\t' => Some("\\t"),
        '\u{8}' => Some("\\b"),
        '\u{c}' => Some("\\f"),
        ' ' => Some("\\s"),
        _ => None,
    };
    match named {
        Some(n) if r.pct(70) => o.push_str(n),
        _ if force || r.pct(30) => {
            let w = r.below(7);
            let u = c as u32;
            let h = if r.pct(50) { format!("{u:0w$x}") } else { format!("{u:0w$X}") };
            o.push_str(&format!("\\u{{{h}}}"));
        }
        _ => o.push(c),
    }
}

/// Some text the KDL 2 grammar reads as the string `s`.
pub fn string_text(r: &mut Rng, f: &Feat, s: &str) -> String {
    let fancy = r.pct(f.fancy_str);
    if plain_ident(s) && !(fancy && r.pct(60)) {
        return s.to_string();
    }
    let lit_ok = |c: char| !disallowed(c);
    if fancy && r.pct(35) && s.chars().all(|c| lit_ok(c) && !is_nl(c)) && !s.starts_with('"') {
        let mut n = 1;
        while s.contains(&format!("\"{}", "#".repeat(n))) {
            n += 1;
        }
        n += r.small(2);
        let h = "#".repeat(n);
        return format!("{h}\"{s}\"{h}");
    }
    if fancy && r.pct(45) {
        if let Some(t) = ml_text(r, f, s) {
            return t;
        }
    }
    let mut o = String::from("\"");
    let mut eating = false; // just after a whitespace escape: literal whitespace would be swallowed
    for c in s.chars() {
        if fancy && r.pct(8) && !eating {
            o.push('\\');
            for _ in 0..r.range(1, 2) {
                if r.pct(50) {
                    o.push_str(f.nl(r));
                }
                o.push_str(*r.pick(&SPACES));
            }
            eating = true;
        }
        let must = c == '\\' || c == '"' || is_nl(c) || disallowed(c) || (eating && is_space(c));
        if must || (fancy && r.pct(8)) {
            esc_char(r, c, true, &mut o);
        } else {
            o.push(c);
        }
        eating = false;
    }
    o.push('"');
    o
}

/// Multi-line string literal (raw or not), if `s` can be one of the requested sort.
fn ml_text(r: &mut Rng, f: &Feat, s: &str) -> Option<String> {
    if s.contains('\r') || s.chars().any(|c| is_nl(c) && c != '\n') || s.chars().any(disallowed) {
        return None;
    }
    let indent: String = (0..r.below(4)).map(|_| if r.pct(80) { ' ' } else { '\t' }).collect();
    let lines: Vec<&str> = s.split('\n').collect();
    let blank = |l: &str| l.chars().all(is_space);
    let raw = r.pct(40);
    let mut o = String::new();
    if raw {
        if lines.iter().any(|l| !l.is_empty() && blank(l)) || s.contains("\"\"\"") {
            return None;
        }
        let h = "#".repeat(r.range(1, 2));
        o.push_str(&h);
        o.push_str("\"\"\"");
        push_nl(f, r, &mut o);
        for l in &lines {
            if !(l.is_empty() && r.pct(50)) {
                o.push_str(&indent);
                o.push_str(l);
            }
            push_nl(f, r, &mut o);
        }
        o.push_str(&indent);
        o.push_str("\"\"\"");
        o.push_str(&h);
        return Some(o);
    }
    o.push_str("\"\"\"");
    push_nl(f, r, &mut o);
    for l in &lines {
        if l.is_empty() && r.pct(50) {
            push_nl(f, r, &mut o);
            continue;
        }
        o.push_str(&indent);
        let ws_only = blank(l);
        for c in l.chars() {
            if c == '\\' || c == '"' || ws_only || r.pct(6) {
                esc_char(r, c, true, &mut o);
            } else {
                o.push(c);
            }
        }
        push_nl(f, r, &mut o);
    }
    o.push_str(&indent);
    o.push_str("\"\"\"");
    Some(o)
}

/// A newline that does not melt into a `\r` before it.
fn push_nl(f: &Feat, r: &mut Rng, o: &mut String) {
    let nl = f.nl(r);
    o.push_str(if o.ends_with('\r') && nl.starts_with('\n') { "\r" } else { nl });
}

fn underscored(r: &mut Rng, digits: &str, p: u32) -> String {
    let mut o = String::new();
    for (i, c) in digits.chars().enumerate() {
        if i > 0 && r.pct(p) {
            o.push('_');
        }
        o.push(c);
    }
    if r.pct(p / 3) {
        o.push('_');
    }
    o
}
pub fn val_text(r: &mut Rng, f: &Feat, v: &Val) -> String {
    let up = if r.pct(f.exotic) { 25 } else { 0 };
    match v {
        Val::Str(s) => string_text(r, f, s),
        Val::Bool(b) => format!("#{b}"),
        Val::Null => "#null".into(),
        Val::Int(i) => {
            let i: i128 = i.parse().unwrap();
            let sign = if i < 0 {
                "-"
            } else if r.pct(8) {
                "+"
            } else {
                ""
            };
            let u = i.unsigned_abs();
            let notations = if r.pct(f.exotic) { 5 } else { 1 };
            let (pre, d) = match r.below(notations) {
                0 | 1 => ("", format!("{}{u}", if up > 0 && r.pct(20) { "00" } else { "" })),
                2 => ("0x", if r.pct(50) { format!("{u:x}") } else { format!("{u:X}") }),
                3 => ("0o", format!("{u:o}")),
                _ => ("0b", format!("{u:b}")),
            };
            format!("{sign}{pre}{}", underscored(r, &d, up))
        }
        Val::Float(b) => {
            let x = f64::from_bits(*b);
            if x.is_nan() {
                return "#nan".into();
            }
            if x.is_infinite() {
                return if x > 0.0 { "#inf".into() } else { "#-inf".into() };
            }
            // shortest digits that read back as x, in one of several notations
            let s = format!("{x:e}");
            let (m, e) = s.split_once('e').unwrap();
            let plain = format!("{x:?}");
            if !plain.contains('e') && plain.len() < 30 && r.pct(60) {
                let (sg, d) = plain.strip_prefix('-').map_or(("", &plain[..]), |p| ("-", p));
                let (ip, fp) = d.split_once('.').unwrap();
                return format!("{sg}{}.{}", underscored(r, ip, up), underscored(r, fp, up));
            }
            let (sg, m) = m.strip_prefix('-').map_or(("", m), |p| ("-", p));
            let m = if m.contains('.') || r.pct(50) { m.to_string() } else { format!("{m}.0") };
            let es = if e.starts_with('-') || r.pct(60) { "" } else { "+" };
            format!("{sg}{m}{}{es}{e}", if r.pct(50) { 'e' } else { 'E' })
        }
    }
}

fn comment_body(r: &mut Rng) -> String {
    const B: [&str; 10] = ["", " c ", "note", "é🦀", "\"q", " { } ; ", "/- x", "#", "\\", " = "];
    r.pick(&B).to_string()
}
fn mlc(r: &mut Rng, f: &Feat, depth: usize) -> String {
    let mut o = String::from("/*");
    for _ in 0..r.below(3) {
        match r.below(5) {
            0 if depth < 2 => {
                if o.len() > 2 && o.ends_with('*') {
                    o.push(' ');
                }
                o.push_str(&mlc(r, f, depth + 1));
            }
            1 => o.push_str(f.nl(r)),
            2 => o.push('*'),
            _ => o.push_str(&comment_body(r).replace('/', ".")),
        }
    }
    // "*" then "/" would close it early, "/" then "*" would open another
    if o.ends_with('/') {
        o.push(' ');
    }
    o.push_str("*/");
    o
}
fn ws(r: &mut Rng, f: &Feat) -> String {
    if r.pct(f.comments / 2) {
        mlc(r, f, 0)
    } else if r.pct(f.unispace) {
        r.pick(&SPACES).to_string()
    } else {
        " ".into()
    }
}
fn ws0(r: &mut Rng, f: &Feat) -> String {
    let mut o = String::new();
    if r.pct(30) {
        for _ in 0..r.range(1, 2) {
            o.push_str(&ws(r, f));
        }
    }
    o
}
fn escline(r: &mut Rng, f: &Feat) -> String {
    let mut o = ws0(r, f);
    o.push('\\');
    o.push_str(&ws0(r, f));
    if r.pct(f.comments) {
        o.push_str(&slc(r, f));
    } else {
        o.push_str(f.nl(r));
    }
    o.push_str(&ws0(r, f));
    o
}
/// `//` comment with its newline.
fn slc(r: &mut Rng, f: &Feat) -> String {
    format!("//{}{}", comment_body(r), f.nl(r))
}
/// At least one node-space.
pub fn ns1(r: &mut Rng, f: &Feat) -> String {
    if r.pct(70) {
        return " ".into();
    }
    if r.pct(f.escline) {
        return escline(r, f);
    }
    let mut o = String::new();
    for _ in 0..r.range(1, 3) {
        o.push_str(&ws(r, f));
    }
    o
}
pub fn ns0(r: &mut Rng, f: &Feat, p: u32) -> String {
    if r.pct(p) { ns1(r, f) } else { String::new() }
}
/// Anything allowed between lines.
fn lines0(r: &mut Rng, f: &Feat) -> String {
    let mut o = String::new();
    for _ in 0..r.small(3) {
        match r.below(4) {
            0 => o.push_str(&ns1(r, f)),
            1 if r.pct(f.comments * 3) => o.push_str(&slc(r, f)),
            _ => o.push_str(f.nl(r)),
        }
    }
    o
}
fn sid(r: &mut Rng, f: &Feat) -> SId {
    let value = r.pick(&f.names).clone();
    SId { text: string_text(r, f, &value), value }
}
pub fn mk_sid(r: &mut Rng, f: &Feat, v: &str) -> SId {
    SId { text: string_text(r, f, v), value: v.to_string() }
}
pub fn sty(r: &mut Rng, f: &Feat) -> STy {
    let p = f.tight / 2;
    STy { pre: ns0(r, f, p), id: sid(r, f), post: ns0(r, f, p), after: ns0(r, f, p) }
}
pub fn sentry(r: &mut Rng, f: &Feat) -> SEntry {
    let name = r.pct(f.prop).then(|| {
        let id = sid(r, f);
        let p = f.tight / 2;
        (id, ns0(r, f, p), ns0(r, f, p))
    });
    let ty = r.pct(f.ty).then(|| sty(r, f));
    let odd = r.pct(f.exotic);
    let val = rand_val(r, odd);
    SEntry { name, ty, text: val_text(r, f, &val), val }
}
/// `/-` with what may follow it on the way to the thing it removes.
fn sd(r: &mut Rng, f: &Feat) -> String {
    format!("/-{}", if r.pct(40) { lines0(r, f) } else { String::new() })
}
pub fn snode(r: &mut Rng, f: &Feat, depth: usize) -> SNode {
    let ty = r.pct(f.ty).then(|| sty(r, f));
    let name = sid(r, f);
    let n = r.below(f.max_entries + 1);
    let mut gaps = vec![];
    let mut entries = vec![];
    for _ in 0..n {
        let mut g = ns1(r, f);
        if r.pct(f.slashdash / 2) {
            g.push_str(&sd(r, f));
            g.push_str(&sentry(r, f).to_text());
            g.push_str(&ns1(r, f));
        }
        gaps.push(g);
        entries.push(sentry(r, f));
    }
    let kids = (depth < f.max_depth && r.pct(f.kids)).then(|| {
        let mut before = String::new();
        if r.pct(f.slashdash / 2) {
            before.push_str(&ns1(r, f));
            before.push_str(&sd(r, f));
            before.push_str(&sentry(r, f).to_text());
        }
        if r.pct(f.slashdash / 3) {
            before.push_str(&ns1(r, f));
            before.push_str(&sd_kids(r, f, depth));
        }
        let p = if r.pct(f.tight) { 50 } else { 100 };
        before.push_str(&ns0(r, f, p));
        SKids { before, doc: sdoc(r, f, depth + 1) }
    });
    SNode { ty, name, gaps, entries, kids }
}
fn sd_kids(r: &mut Rng, f: &Feat, depth: usize) -> String {
    let inner = if r.pct(50) && depth < f.max_depth { sdoc(r, f, depth + 1).to_text() } else { String::new() };
    format!("{}{{{inner}}}", sd(r, f))
}
/// What may follow a node up to and including its terminator; `last`: nothing needs to follow.
fn node_end(r: &mut Rng, f: &Feat, n: &SNode, depth: usize, last: bool) -> (String, bool) {
    let mut o = String::new();
    if n.kids.is_none() {
        if r.pct(f.slashdash / 4) {
            o.push_str(&ns1(r, f));
            o.push_str(&sd(r, f));
            o.push_str(&sentry(r, f).to_text());
        }
    }
    if r.pct(f.slashdash / 4) {
        o.push_str(&ns1(r, f));
        o.push_str(&sd_kids(r, f, depth));
    }
    o.push_str(&ns0(r, f, f.tight / 2));
    if last && r.pct(f.tight) {
        return (o, false);
    }
    if r.pct(f.semi) {
        o.push(';');
    } else if r.pct(f.comments) {
        if !o.ends_with(is_space) {
            o.push(' ');
        }
        o.push_str(&slc(r, f));
    } else {
        o.push_str(f.nl(r));
    }
    (o, true)
}
/// Line space, possibly with slashdashed nodes, each ended by a newline.
fn node_gap(r: &mut Rng, f: &Feat, depth: usize) -> String {
    let mut o = lines0(r, f);
    while r.pct(f.slashdash) {
        o.push_str(&sd(r, f));
        let mut g = f.clone();
        g.max_nodes = 1;
        let n = snode(r, &g, depth + 1);
        n.print(&mut o);
        o.push_str(f.nl(r));
        o.push_str(&lines0(r, f));
    }
    o
}
pub fn sdoc(r: &mut Rng, f: &Feat, depth: usize) -> SDoc {
    let n = if depth == 0 { r.range(0, f.max_nodes) } else { r.below(f.max_nodes + 1) };
    let mut gaps = vec![];
    let mut nodes = vec![];
    let mut pend = String::new();
    let mut terminated = false;
    if depth == 0 && r.pct(f.bom) {
        pend.push('\u{feff}');
    }
    for i in 0..n {
        pend.push_str(&node_gap(r, f, depth));
        gaps.push(std::mem::take(&mut pend));
        let nd = snode(r, f, depth);
        let (e, t) = node_end(r, f, &nd, depth, i + 1 == n);
        pend.push_str(&e);
        terminated = t;
        nodes.push(nd);
    }
    // an unterminated last node must be followed by nothing that could join it
    if n == 0 || terminated {
        pend.push_str(&node_gap(r, f, depth));
        if depth == 0 && r.pct(f.comments / 3) {
            pend.push_str("// end");
        }
    }
    gaps.push(pend);
    SDoc { gaps, nodes }
}
/// Any text that means `d`.
pub fn render(r: &mut Rng, f: &Feat, d: &[MNode], depth: usize) -> SDoc {
    let ty = |r: &mut Rng, t: &Option<String>| {
        let p = f.tight / 2;
        t.as_ref().map(|t| STy { pre: ns0(r, f, p), id: mk_sid(r, f, t), post: ns0(r, f, p), after: ns0(r, f, p) })
    };
    let mut gaps = vec![];
    let mut nodes = vec![];
    let mut pend = String::new();
    let mut terminated = true;
    if depth == 0 && r.pct(f.bom) {
        pend.push('\u{feff}');
    }
    for (i, m) in d.iter().enumerate() {
        pend.push_str(&node_gap(r, f, depth));
        gaps.push(std::mem::take(&mut pend));
        let mut nd = SNode { ty: ty(r, &m.ty), name: mk_sid(r, f, &m.name), gaps: vec![], entries: vec![], kids: None };
        for e in &m.entries {
            let mut g = ns1(r, f);
            if r.pct(f.slashdash / 2) {
                g.push_str(&sd(r, f));
                g.push_str(&sentry(r, f).to_text());
                g.push_str(&ns1(r, f));
            }
            nd.gaps.push(g);
            let p = f.tight / 2;
            let name = e.name.as_ref().map(|n| (mk_sid(r, f, n), ns0(r, f, p), ns0(r, f, p)));
            nd.entries.push(SEntry { name, ty: ty(r, &e.ty), text: val_text(r, f, &e.val), val: e.val.clone() });
        }
        nd.kids = m.kids.as_ref().map(|k| {
            let mut before = String::new();
            if r.pct(f.slashdash / 2) {
                before.push_str(&ns1(r, f));
                before.push_str(&sd(r, f));
                before.push_str(&sentry(r, f).to_text());
            }
            if r.pct(f.slashdash / 3) {
                before.push_str(&ns1(r, f));
                before.push_str(&sd_kids(r, f, depth));
            }
            let p = if r.pct(f.tight) { 50 } else { 100 };
            before.push_str(&ns0(r, f, p));
            SKids { before, doc: render(r, f, k, depth + 1) }
        });
        let (e, t) = node_end(r, f, &nd, depth, i + 1 == d.len());
        pend.push_str(&e);
        terminated = t;
        nodes.push(nd);
    }
    if terminated {
        pend.push_str(&node_gap(r, f, depth));
        if depth == 0 && r.pct(f.comments / 3) {
            pend.push_str("// end");
        }
    }
    gaps.push(pend);
    SDoc { gaps, nodes }
}
pub fn rand_doc(r: &mut Rng) -> (Feat, SDoc) {
    let f = Feat::draw(r);
    let d = sdoc(r, &f, 0);
    (f, d)
}

// ------------------------------------------------------------------ shrinking

/// Smaller documents that are still well formed.
pub fn shrink_doc(d: &SDoc) -> Vec<SDoc> {
    let mut out = vec![];
    let n = d.nodes.len();
    if n > 2 {
        for (a, b) in [(0, n / 2), (n / 2, n)] {
            let mut c = d.clone();
            c.nodes.drain(a..b);
            c.gaps.drain(a + 1..b + 1);
            out.push(c);
        }
    }
    for i in 0..n {
        let mut c = d.clone();
        c.nodes.remove(i);
        c.gaps.remove(i + 1);
        out.push(c);
    }
    for i in 0..=n {
        let simple = if i == 0 { "" } else { "\n" };
        if d.gaps[i] != simple {
            let mut c = d.clone();
            c.gaps[i] = simple.into();
            out.push(c);
        }
    }
    for i in 0..n {
        for s in shrink_node(&d.nodes[i]) {
            let mut c = d.clone();
            c.nodes[i] = s;
            out.push(c);
        }
    }
    out
}
fn shrink_sid(s: &SId) -> Option<SId> {
    let t = SId { text: "a".into(), value: "a".into() };
    (s.text.len() > 1).then_some(t)
}
fn shrink_ty(t: &STy) -> Vec<Option<STy>> {
    let mut out = vec![None];
    let plain = STy { pre: String::new(), id: t.id.clone(), post: String::new(), after: String::new() };
    if plain != *t {
        out.push(Some(plain));
    }
    if let Some(i) = shrink_sid(&t.id) {
        out.push(Some(STy { id: i, ..t.clone() }));
    }
    out
}
fn shrink_node(n: &SNode) -> Vec<SNode> {
    let mut out = vec![];
    if n.kids.is_some() {
        let mut c = n.clone();
        c.kids = None;
        out.push(c);
    }
    for i in 0..n.entries.len() {
        let mut c = n.clone();
        c.entries.remove(i);
        c.gaps.remove(i);
        out.push(c);
    }
    if let Some(k) = &n.kids {
        if k.before != " " {
            let mut c = n.clone();
            c.kids.as_mut().unwrap().before = " ".into();
            out.push(c);
        }
        for s in shrink_doc(&k.doc) {
            let mut c = n.clone();
            c.kids.as_mut().unwrap().doc = s;
            out.push(c);
        }
    }
    if let Some(t) = &n.ty {
        for s in shrink_ty(t) {
            let mut c = n.clone();
            c.ty = s;
            out.push(c);
        }
    }
    if let Some(i) = shrink_sid(&n.name) {
        let mut c = n.clone();
        c.name = i;
        out.push(c);
    }
    for i in 0..n.entries.len() {
        if n.gaps[i] != " " {
            let mut c = n.clone();
            c.gaps[i] = " ".into();
            out.push(c);
        }
        let e = &n.entries[i];
        let mut alts = vec![];
        if e.name.is_some() {
            alts.push(SEntry { name: None, ..e.clone() });
        }
        if let Some(t) = &e.ty {
            for s in shrink_ty(t) {
                alts.push(SEntry { ty: s, ..e.clone() });
            }
        }
        if e.text.len() > 1 {
            alts.push(SEntry { text: "1".into(), val: Val::Int("1".into()), ..e.clone() });
        }
        for a in alts {
            let mut c = n.clone();
            c.entries[i] = a;
            out.push(c);
        }
    }
    out
}
