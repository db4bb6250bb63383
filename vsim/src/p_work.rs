//! D06: a file that grows by repeating what it holds, whatever the disk did to it, never costs more
//! than its length (or, where it is refused, the square of its length) accounts for. The clock is
//! simulated: it ticks at every branch the code under test takes and at every 64 bytes it asks for.
use crate::alloc;
use crate::core::*;
use crate::p_lsp::Pull;
use crate::disk::{snippet, Fault};
use crate::doc::rand_doc;
use crate::rng::{fnv, Rng};
use kdl::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub pre: String,
    pub a: String,
    pub m: String,
    pub b: String,
    pub post: String,
    /// Storage faults, each at a place given in thousandths of the file.
    pub faults: Vec<(usize, Fault)>,
    pub op: u8,
    /// How long the longest file may get.
    #[serde(default = "max_len")]
    pub max: usize,
}
fn max_len() -> usize {
    5000
}
pub struct Work;

pub const OPS: [&str; 10] = [
    "parse_v2 and print",
    "FromStr",
    "parse, autoformat, print",
    "KdlNode::parse",
    "KdlEntry::parse",
    "serde: from_str, to_string",
    "clone, compare, v2 to v1 and back",
    "KdlDocument::parse_v1",
    "kdl-lsp: open, pull diagnostics",
    "parse, clear format, print",
];
/// No step of a run takes more work, or the growth so far is judged without it.
const MAX_WORK: u64 = 400_000_000;

struct Cost {
    work: u64,
    ok: bool,
    diags: usize,
    out: usize,
}
fn cost(op: u8, t: &str) -> Cost {
    let (s0, b0) = (alloc::steps(), alloc::bytes());
    let (mut out, mut diags) = (0, 0);
    let mut err = |e: &KdlError| diags = e.diagnostics.len();
    let ok = match op {
        0 => KdlDocument::parse_v2(t).map(|d| out = d.to_string().len()).map_err(|e| err(&e)).is_ok(),
        1 => t.parse::<KdlDocument>().map_err(|e| err(&e)).is_ok(),
        2 => KdlDocument::parse_v2(t)
            .map(|mut d| {
                d.autoformat();
                out = d.to_string().len();
            })
            .map_err(|e| err(&e))
            .is_ok(),
        3 => KdlNode::parse(t).map(|d| out = d.to_string().len()).map_err(|e| err(&e)).is_ok(),
        4 => KdlEntry::parse(t).map(|d| out = d.to_string().len()).map_err(|e| err(&e)).is_ok(),
        5 => match kdl::de::from_str::<serde_json::Value>(t) {
            Ok(v) => {
                out = kdl::se::to_string(&v).map(|s| s.len()).unwrap_or(0);
                true
            }
            Err(_) => false,
        },
        9 => KdlDocument::parse_v2(t)
            .map(|mut d| {
                d.clear_format_recursive();
                out = d.to_string().len();
            })
            .map_err(|e| err(&e))
            .is_ok(),
        6 => match KdlDocument::parse_v2(t) {
            Ok(d) => {
                let mut c = d.clone();
                c.ensure_v1();
                c.ensure_v2();
                out = c.to_string().len() + (c == d) as usize;
                true
            }
            Err(e) => {
                err(&e);
                false
            }
        },
        _ => KdlDocument::parse_v1(t).map_err(|e| err(&e)).is_ok(),
    };
    Cost { work: alloc::steps() - s0 + (alloc::bytes() - b0) / 64, ok, diags, out }
}

/// Stands for the number of the repetition.
const NUMBER: char = '\u{e000}';

impl Sc {
    fn text(&self, n: usize) -> String {
        let many = |t: &str| (0..n).map(|i| t.replace(NUMBER, &i.to_string())).collect::<String>();
        let mut d = format!("{}{}{}{}{}", self.pre, many(&self.a), self.m, many(&self.b), self.post).into_bytes();
        for (pm, f) in &self.faults {
            f.moved(d.len() * pm / 1000).apply(&mut d);
        }
        String::from_utf8_lossy(&d).into_owned()
    }
}

/// Pieces whose opening, repeated, must be matched by a closing, repeated.
const PAIRS: [(&str, &str); 24] = [
    ("a {", "}"),
    ("a {\n", "}\n"),
    ("a\n/- {", "}"),
    ("a\n/- b {", "}\n"),
    ("/- a {", "};"),
    ("a /-{", "}"),
    ("a {} /-{", "}"),
    ("a 1 /-2 {\n", "}\n"),
    ("a /-b=1 /-{\n", "}\n"),
    ("/*", "*/"),
    ("/* ", " */ "),
    ("a /*", "*/ 1\n"),
    ("a { b; ", " c }\n"),
    ("(t)a {\n  /- x\n", "}\n"),
    ("- {- {", "}}"),
    ("a { // c\n", "} // d\n"),
    ("{", "}"),
    ("/- {", "}"),
    ("a \\\n {", "}"),
    ("a /-1{", "}"),
    ("a\n\n/-\n\\\n b {", "\n}"),
    ("a \"", "\""),
    ("n\u{e000} {\n", "}\n"),
    ("n k\u{e000}=1 {a b;", "m\u{e000}\n}\n"),
];
const UNITS: [&str; 48] = [
    "a\n", "a;", "a 1\n", "a b=1\n", " 1", " k=#true", " /-1", " /-k=1", " /-{}", "/-a\n", "/-a {}\n", "a {};", "// c\n", "/* c */", "/* c */\n",
    " \\\n", "\\\n", "\n", "\r\n", "\t", "\u{2028}", "(t)a (u)1\n", "a \"x\"\n", "a #\"x\"#\n", "a \"\"\"\n  x\n  \"\"\"\n", "a ##\"\"\"\nx\n\"\"\"##\n",
    "\\n", "\\u{41}", "\\\n   ", "x", "é", "0", "_", "#", "f", " a \\ // c\n", " \"k\"=\"v\"", "- 1.5e10\n", "/- a /- 1 /- {}\n", "a { b 1; c }\n",
    "n\u{e000} 1\n", "a \u{e000}\n", "n\u{e000}\n", " k\u{e000}=1", " \u{e000}", "n\u{e000} { a\u{e000} #false; }\n", "- k\u{e000}=1\n", "(t\u{e000})n\u{e000};",
];
fn piece(r: &mut Rng) -> String {
    let n = [1, 1, 2, 2, 3, 4][r.below(6)];
    (0..n)
        .map(|_| match r.below(14) {
            0..=5 => snippet(r),
            6 => "a".into(),
            7 => " ".into(),
            8 => "\n".into(),
            9 => "{".into(),
            _ => r.pick(&UNITS).to_string(),
        })
        .collect()
}

/// What the run may cost, and how it may grow.
struct Rule {
    base: u64,
    per_byte: u64,
    per_byte2: u64,
    growth: f64,
    growth_from: u64,
}
const ACCEPTED: Rule = Rule { base: 1_000_000, per_byte: 20_000, per_byte2: 0, growth: 1.35, growth_from: 8_000_000 };
const REFUSED: Rule = Rule { base: 1_000_000, per_byte: 20_000, per_byte2: 1000, growth: 2.5, growth_from: 30_000_000 };

fn grow(sc: &Sc, cx: &mut Ctx) {
    for (_, f) in &sc.faults {
        cx.count(f.name());
    }
    cx.count(&format!("op {}", OPS[sc.op as usize % OPS.len()]));
    let mut points: Vec<(usize, u64, bool)> = vec![];
    let mut n = 4;
    let mut shape = 0;
    while n <= 1 << 15 {
        let t = sc.text(n);
        if t.len() > sc.max {
            break;
        }
        let op = sc.op;
        // What the KDL 1 parser, a dependency, does with a text is a listed finding.
        if matches!(op, 1 | 3 | 5) && !KdlDocument::parse_v2(&t).is_ok_and(|d| op != 3 || d.nodes().len() == 1 && !t.contains("/-")) {
            cx.log("left to the KDL 1 parser");
            break;
        }
        let c = if op == 8 {
            // A refused text goes to the KDL 1 parser, too: see above. A deep nest is the end of the
            // server's stack.
            let refused = KdlDocument::parse_v2(&t).is_err();
            if refused && t.contains("/-") || n > 128 && t.matches(['{', '/']).count() > n {
                break;
            }
            match crate::p_lsp::pull_cost(&t, cx) {
                Pull::Report { work, items, bytes } => Cost { work, ok: !refused, diags: items, out: bytes },
                Pull::None => break,
                Pull::Hang => {
                    return cx.fail("work", format!("the server does not come to an end with {n} repetitions, {} bytes", t.len()))
                }
            }
        } else {
            alloc::step_limit(4_000_000_000);
            match catch(|| cost(op, &t)) {
                Caught::Ok(c) => c,
                Caught::Panic(m) if known_site(&m) => {
                    cx.count("listed finding met");
                    return;
                }
                Caught::Panic(m) => return cx.fail("panic", m),
                Caught::Injected => unreachable!(),
            }
        };
        let len = t.len().max(1) + c.out;
        cx.log(format!("n {n} len {} out {} ok {} work {} diags {}", t.len(), c.out, c.ok, c.work, c.diags));
        cx.add("probe: simulated work, in millions", c.work / 1_000_000);
        let rule = if c.ok && op != 7 { ACCEPTED } else { REFUSED };
        let what = format!("{} of {n} repetitions, {} bytes ({}…)", OPS[op as usize], t.len(), t.chars().take(60).collect::<String>().escape_debug());
        let l = len as u64;
        let cap = rule.base + rule.per_byte * l + rule.per_byte2 * l * l;
        if c.work > cap {
            return cx.fail("work", format!("{what} took {} units of work; {cap} are allowed", c.work));
        }
        if c.diags > 16 + 12 * t.len() {
            return cx.fail("diagnostics", format!("{what} gave {} diagnostics", c.diags));
        }
        // Damage may make one size an exception: two doublings in a row have to grow too much.
        points.push((len, c.work.max(1), rule.per_byte2 == 0));
        if let [.., x, y, z] = points[..] {
            let e = |p: (usize, u64, bool), q: (usize, u64, bool)| (q.1 as f64 / p.1 as f64).ln() / (q.0 as f64 / p.0 as f64).ln();
            if z.1 > rule.growth_from && x.2 == y.2 && y.2 == z.2 && x.0 < y.0 && y.0 < z.0 && e(x, y) > rule.growth && e(y, z) > rule.growth {
                return cx.fail(
                    "work",
                    format!(
                        "{what} took {} units of work, {} bytes took {}, {} bytes {}: it grows with the length to the power of {:.2}",
                        z.1, y.0, y.1, x.0, x.1, e(y, z)
                    ),
                );
            }
        }
        shape = fnv(format!("{} {} {} {}", c.ok, c.diags.min(3), op, c.work * 4 / l).as_bytes());
        cx.count(if c.ok { "probe: accepted" } else { "probe: refused" });
        if c.work > MAX_WORK || c.work > MAX_WORK / 8 && t.len() > max_len() {
            break;
        }
        n *= 2;
    }
    cx.out.nontrivial = points.last().is_some_and(|l| l.0 > 1000);
    cx.sig(shape);
}

impl Prop for Work {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        "D06"
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        let opt = |r: &mut Rng, p: u32| if r.pct(p) { piece(r) } else { String::new() };
        let (mut pre, mut m, mut post) = (opt(r, 40), opt(r, 40), opt(r, 40));
        let (mut a, mut b) = (piece(r), opt(r, 40));
        match r.below(10) {
            0..=3 => {
                // a nest, mostly well-formed; closed or left open
                let (x, y) = *r.pick(&PAIRS);
                let ((x2, y2), two) = (*r.pick(&PAIRS), r.pct(30));
                a = if two { format!("{x}{x2}") } else { x.to_string() };
                b = if two { format!("{y2}{y}") } else { y.to_string() };
                if r.pct(60) {
                    (pre, m, post) = (String::new(), String::new(), String::new());
                }
                if r.pct(20) {
                    b = String::new();
                }
            }
            4 | 5 => {
                // a well-formed repetition
                a = (0..r.range(1, 3)).map(|_| *r.pick(&UNITS)).collect();
                b = String::new();
                pre = r.pick(&["", "n", "n \"", "n {\n", "n /*", "n #\"", "n \"\"\"\n", "n 1", "/- ", "n 0x"]).to_string();
                m = String::new();
                post = r.pick(&["", "\n", "\"", "}", "*/", "\"#", "\n\"\"\"", " 2"]).to_string();
            }
            6 => {
                // whole files, repeated or nested
                let t = rand_doc(r).1.to_text();
                if t.len() < 600 {
                    (pre, m, post) = (String::new(), String::new(), String::new());
                    (a, b) = if r.pct(50) { (t + "\n", String::new()) } else { (format!("n {{\n{t}\n"), "}\n".into()) };
                }
            }
            _ => {}
        }
        let mut faults = vec![];
        while r.pct(25) && faults.len() < 4 {
            let pm = r.below(1001);
            faults.push((pm, Fault::draw(r, 0, &mut |r| piece(r))));
        }
        let op = [0, 0, 0, 1, 2, 2, 3, 4, 5, 5, 6, 8, 8, 9][r.below(14)];
        // What reads a file into maps is given wide ones.
        let wide = op == 5 && r.pct(50) || r.pct(5);
        if wide {
            let u = |r: &mut Rng| *r.pick(&UNITS[40..]);
            (a, b, m, faults) = ((0..r.range(1, 2)).map(|_| u(r)).collect(), String::new(), String::new(), vec![]);
            if a.starts_with(' ') {
                (pre, post) = ("n".into(), String::new());
            } else {
                (pre, post) = if r.pct(50) { ("n {\n".into(), "\n}".into()) } else { (String::new(), String::new()) };
            }
        }
        Sc { pre, a, m, b, post, faults, op, max: if wide || r.pct(5) { 110_000 } else { max_len() } }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        // Deep nests run out of stack, not out of work: give them plenty of it.
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 30)
                .spawn_scoped(s, || match catch(|| grow(sc, cx)) {
                    Caught::Panic(m) => cx.fail("panic", m),
                    _ => {}
                })
                .expect("[harness] thread");
        });
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        for i in 0..sc.faults.len() {
            let mut c = sc.clone();
            c.faults.remove(i);
            out.push(c);
        }
        let fields: [fn(&mut Sc) -> &mut String; 5] = [|s| &mut s.pre, |s| &mut s.m, |s| &mut s.post, |s| &mut s.b, |s| &mut s.a];
        for f in fields {
            let t = f(&mut sc.clone()).clone();
            let c: Vec<char> = t.chars().collect();
            let mut step = c.len();
            while step > 0 {
                for i in (0..c.len()).step_by(step) {
                    let mut s = sc.clone();
                    *f(&mut s) = c[..i].iter().chain(c[(i + step).min(c.len())..].iter()).collect();
                    out.push(s);
                }
                step /= 2;
            }
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 2_000_000, secs: 700.0 }
        } else {
            Budget { runs: 20_000, secs: 60.0 }
        }
    }
    fn cpu_secs(&self) -> u64 {
        120
    }
    fn rule(&self) -> &'static str {
        "one run = one family of files: a file of ever more repetitions (doubling, up to 5000 or 110000 bytes) of a piece, before and after other pieces, with up to four storage faults, loaded by one entry point; distinct by outcome, entry point and work per byte of the largest file; non-trivial when that file was longer than 1000 bytes"
    }
    fn describe(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["kdl crate built from /repo (features span, serde, v1-fallback), kdl-lsp, winnow, miette, ropey and kdl 4.7, compiled with a hook at every branch", "tower-lsp, serde_json (not counted)"],
            "stub": ["tokio: the simulated runtime of the L properties", "CPU clock: one tick per branch taken and per 64 bytes requested from the allocator", "disk: block device model holding one file"],
            "faults": ["torn overwrite", "truncation", "zeroed block", "bit flip", "byte changed", "write duplicated", "write lost", "writes swapped", "foreign bytes"],
            "bounds": {"accepted": "1e6 + 20000 x (bytes in + out); past 8e6 units, growth at most (length)^1.35 over two doublings in a row", "refused": "1e6 + 20000 x length + 1000 x length^2; past 3e7 units, growth at most (length)^2.5 over two doublings in a row", "diagnostics": "16 + 12 x length"},
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the work of a file is the branches it makes the code take plus the memory it asks for; copying and scanning inside the standard library is not seen",
            "stack depth is not bounded here: each run has 8 GB of it",
        ]
    }
    fn show(&self, sc: &Sc) -> serde_json::Value {
        serde_json::json!({"pre": sc.pre, "repeated": sc.a, "middle": sc.m, "closing, repeated": sc.b, "post": sc.post, "faults": sc.faults, "op": OPS[sc.op as usize]})
    }
}
