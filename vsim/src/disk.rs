//! The simulated disk a KDL file lives on: block-wise writes, of which a crash keeps some, and the
//! ways storage damages what was written.
use crate::core::Ctx;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// The file was being overwritten by `new` in blocks when the machine crashed; bit i of `kept`
    /// says whether block i reached the disk, `trunc` whether the length was already updated.
    TornOverwrite { new: String, block: usize, kept: u64, trunc: bool },
    /// Only the first `n` bytes reached the disk.
    Truncate { n: usize },
    /// A block of zeroes (allocated, never written).
    Zero { at: usize, len: usize },
    FlipBit { at: usize, bit: u8 },
    SetByte { at: usize, to: u8 },
    /// A write landed twice.
    Duplicate { at: usize, len: usize, times: usize },
    /// A write was lost and what follows slid forward.
    Lost { at: usize, len: usize },
    /// Two writes swapped places.
    Swap { a: usize, b: usize, len: usize },
    /// Some other file's bytes.
    Foreign { at: usize, text: String },
}

const SNIPS: [&str; 64] = [
    "{", "}", "(", ")", "\"", "\"\"\"", "\"\"\"\n", "#", "##\"", "#\"", "\"#", "/-", "//", "/*", "*/", "\\", "\\\n", "=", ";", "\n",
    "\r", "\r\n", "\u{feff}", "\u{85}", "\u{2028}", "\u{c}", "\u{b}", "#true", "#nul", "#inf", "true", "0x", "0xZ", "0b12", "1.", "1.e",
    "1e400", "1_", "-", "+", ".", "-.5", "1.2.3", "\\u{", "\\u{110000}", "\\u{D800}", "\\q", "é", "🦀", "\u{0}", "\u{7f}", "\u{200e}",
    "(t", "(t)", "a=", "=1", "a = 1", " ", "\t", "// c", "/- {", "/-(", "340282366920938463463374607431768211456", "kdl-version 1",
];
const V1: [&str; 8] = [
    "node true false null\n", "r#\"raw\"#", "a r\"x\" 1\n", "\"multi\nline\"", "node \"\\/\" {\n b; }\n", "/- kdl-version 1\nnode 1\n",
    "a (t)\"x\" k=null\n", "- 0x_1 1.0e+5\n",
];

pub fn snippet(r: &mut Rng) -> String {
    if r.pct(10) { r.pick(&V1).to_string() } else { r.pick(&SNIPS).to_string() }
}

impl Fault {
    pub fn draw(r: &mut Rng, len: usize, other: &mut dyn FnMut(&mut Rng) -> String) -> Fault {
        let at = r.below(len + 1);
        match r.below(12) {
            0 | 1 => Fault::TornOverwrite {
                new: other(r),
                block: *r.pick(&[1, 2, 4, 8, 16, 64]),
                kept: r.u64(),
                trunc: r.pct(50),
            },
            2 | 3 => Fault::Truncate { n: at },
            4 => Fault::Zero { at, len: r.range(1, 8) },
            5 => Fault::FlipBit { at, bit: r.below(8) as u8 },
            6 => Fault::SetByte { at, to: *r.pick(b"{}()\"#/\\=;\n\r -*0_.a\x00\x7f\xff\xc3") },
            7 => Fault::Duplicate { at, len: r.range(1, 24), times: r.range(1, 4) },
            8 => Fault::Lost { at, len: r.range(1, 8) },
            9 => Fault::Swap { a: at, b: r.below(len + 1), len: r.range(1, 16) },
            _ => Fault::Foreign { at, text: snippet(r) },
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Fault::TornOverwrite { .. } => "fault torn overwrite",
            Fault::Truncate { .. } => "fault truncation",
            Fault::Zero { .. } => "fault zeroed block",
            Fault::FlipBit { .. } => "fault bit flip",
            Fault::SetByte { .. } => "fault byte changed",
            Fault::Duplicate { .. } => "fault write duplicated",
            Fault::Lost { .. } => "fault write lost",
            Fault::Swap { .. } => "fault writes swapped",
            Fault::Foreign { .. } => "fault foreign bytes",
        }
    }
    /// The same fault at another place.
    pub fn moved(&self, to: usize) -> Fault {
        let mut f = self.clone();
        match &mut f {
            Fault::TornOverwrite { .. } => {}
            Fault::Truncate { n: at }
            | Fault::Zero { at, .. }
            | Fault::FlipBit { at, .. }
            | Fault::SetByte { at, .. }
            | Fault::Duplicate { at, .. }
            | Fault::Lost { at, .. }
            | Fault::Foreign { at, .. } => *at = to,
            Fault::Swap { a, b, .. } => (*a, *b) = (to / 2, to),
        }
        f
    }
    pub fn apply(&self, d: &mut Vec<u8>) {
        let n = d.len();
        match self {
            Fault::TornOverwrite { new, block, kept, trunc } => {
                let new = new.as_bytes();
                let mut out = d.clone();
                if *trunc {
                    out.resize(new.len(), 0);
                } else if out.len() < new.len() {
                    out.resize(new.len(), 0);
                }
                for (i, b) in new.chunks(*block).enumerate() {
                    if kept >> (i % 64) & 1 == 1 {
                        out[i * block..i * block + b.len()].copy_from_slice(b);
                    } else if i * block >= n {
                        // never written: a hole at the end is usually not there at all
                        if kept >> ((i + 7) % 64) & 1 == 0 {
                            out.truncate(out.len().min(i * block));
                            break;
                        }
                    }
                }
                *d = out;
            }
            Fault::Truncate { n } => d.truncate(*n),
            Fault::Zero { at, len } => {
                let e = (at + len).min(n);
                d[(*at).min(n)..e].fill(0);
            }
            Fault::FlipBit { at, bit } => {
                if let Some(b) = d.get_mut(*at) {
                    *b ^= 1 << bit;
                }
            }
            Fault::SetByte { at, to } => {
                if let Some(b) = d.get_mut(*at) {
                    *b = *to;
                }
            }
            Fault::Duplicate { at, len, times } => {
                let a = (*at).min(n);
                let e = (a + len).min(n);
                let part = d[a..e].repeat(*times);
                d.splice(e..e, part);
            }
            Fault::Lost { at, len } => {
                let a = (*at).min(n);
                d.drain(a..(a + len).min(n));
            }
            Fault::Swap { a, b, len } => {
                let (a, b) = (*a.min(b), *a.max(b));
                for i in 0..*len {
                    if a + i < b && b + i < n {
                        d.swap(a + i, b + i);
                    }
                }
            }
            Fault::Foreign { at, text } => {
                let a = (*at).min(n);
                d.splice(a..a, text.bytes());
            }
        }
    }
}
pub fn damage(text: &str, faults: &[Fault], cx: &mut Ctx) -> Vec<u8> {
    let mut d = text.as_bytes().to_vec();
    for f in faults {
        let before = d.clone();
        f.apply(&mut d);
        if d != before {
            cx.count(f.name());
        } else {
            cx.count("fault without effect");
        }
    }
    d
}
