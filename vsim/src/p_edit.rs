//! D03 / D04 / D05: an editing session over a file: edits through the document API, reformatting,
//! saves, failing saves, crashes and reloads, compared with a reference model after every step.
use crate::core::*;
use crate::doc::*;
use crate::rng::{fnv, Rng};
use kdl::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;

pub struct Edit {
    pub id: &'static str,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub base: SDoc,
    pub ops: Vec<Op>,
}
/// A node to be inserted.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NewNode {
    /// Parsed from its text.
    Text(SNode),
    /// Parsed from its text with the rest of its line, TAILS[.1], which it keeps.
    Line(SNode, u8),
    /// Built through the API.
    Built(MNode),
}
const TAILS: [&str; 8] = ["\n", ";\n", "; // c\n", " // c\n", "; /* c */\n", " ;\n\n", ";\n/-x\n", "\r\n// d\n"];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NewEntry {
    Text(SEntry),
    Built(MEntry),
}
/// `n`, `d`, `e` select a node, document, entry among those there are (modulo).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    InsertNode { d: u32, at: u32, node: NewNode, bare: bool },
    RemoveNode { n: u32 },
    ReplaceNode { n: u32, node: NewNode },
    MoveNode { n: u32, d: u32, at: u32 },
    RetainNodes { d: u32, mask: u64 },
    SetNodeName { n: u32, to: String, how: u8 },
    SetNodeTy { n: u32, to: Option<String>, how: u8 },
    SetKids { n: u32, doc: Option<SDoc>, how: u8 },
    PushKid { n: u32, node: NewNode },
    InsertEntry { n: u32, at: u32, entry: NewEntry, how: u8 },
    InsertProp { n: u32, key: String, val: Val },
    RemoveEntry { n: u32, e: u32, how: u8 },
    ClearEntries { n: u32 },
    RetainEntries { n: u32, mask: u64 },
    SortEntries { n: u32, by: u8 },
    SetValue { n: u32, e: u32, to: Val, how: u8 },
    SetEntryName { n: u32, e: u32, to: Option<String>, how: u8 },
    SetEntryTy { n: u32, e: u32, to: String, how: u8 },
    Save,
    /// The disk fills up while saving.
    SaveFails { at: u32 },
    /// Crash, restart, load what was saved.
    CrashReload { how: u8 },
    CloneDoc,
    /// Look everything up, through every accessor, mutable ones included, without changing it.
    Inspect,
    Autoformat { n: Option<u32>, indent: u8, level: u8, no_comments: bool, how: u8 },
    ClearFormat { n: Option<u32>, how: u8 },
    EnsureV2 { n: Option<u32> },
    EntryFormat { n: u32, e: u32, how: u8 },
}
impl Op {
    fn kind(&self) -> String {
        let s = format!("{self:?}");
        s.split([' ', '{']).next().unwrap().to_string()
    }
}

// ------------------------------------------------------------------ finding things

fn node_paths(m: &MDoc) -> Vec<Vec<usize>> {
    fn go(m: &MDoc, at: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
        for (i, n) in m.iter().enumerate() {
            at.push(i);
            o.push(at.clone());
            if let Some(k) = &n.kids {
                go(k, at, o);
            }
            at.pop();
        }
    }
    let mut o = vec![];
    go(m, &mut vec![], &mut o);
    o
}
/// Documents: the root, then every node's children block.
fn doc_paths(m: &MDoc) -> Vec<Vec<usize>> {
    let mut o = vec![vec![]];
    for p in node_paths(m) {
        if m_at(m, &p).kids.is_some() {
            o.push(p);
        }
    }
    o
}
fn m_at<'a>(m: &'a MDoc, p: &[usize]) -> &'a MNode {
    let n = &m[p[0]];
    if p.len() == 1 { n } else { m_at(n.kids.as_ref().unwrap(), &p[1..]) }
}
fn m_at_mut<'a>(m: &'a mut MDoc, p: &[usize]) -> &'a mut MNode {
    let n = &mut m[p[0]];
    if p.len() == 1 { n } else { m_at_mut(n.kids.as_mut().unwrap(), &p[1..]) }
}
fn m_doc_mut<'a>(m: &'a mut MDoc, p: &[usize]) -> &'a mut MDoc {
    if p.is_empty() { m } else { m_at_mut(m, p).kids.as_mut().unwrap() }
}
fn k_doc_mut<'a>(k: &'a mut KdlDocument, p: &[usize]) -> &'a mut KdlDocument {
    if p.is_empty() { k } else { k_at(k, p).children_mut().as_mut().expect("[harness] children") }
}
fn k_at<'a>(k: &'a mut KdlDocument, p: &[usize]) -> &'a mut KdlNode {
    let n = &mut k.nodes_mut()[p[0]];
    if p.len() == 1 { n } else { k_at(n.children_mut().as_mut().expect("[harness] children"), &p[1..]) }
}
fn k_ref<'a>(k: &'a KdlDocument, p: &[usize]) -> &'a KdlNode {
    let n = &k.nodes()[p[0]];
    if p.len() == 1 { n } else { k_ref(n.children().expect("[harness] children"), &p[1..]) }
}
fn s_at<'a>(s: &'a mut SDoc, p: &[usize]) -> &'a mut SNode {
    let n = &mut s.nodes[p[0]];
    if p.len() == 1 { n } else { s_at(&mut n.kids.as_mut().unwrap().doc, &p[1..]) }
}
fn s_doc_at<'a>(s: &'a mut SDoc, p: &[usize]) -> &'a mut SDoc {
    if p.is_empty() { s } else { &mut s_at(s, p).kids.as_mut().unwrap().doc }
}

#[derive(Clone, Copy)]
enum Part {
    Node,
    Ty,
    Name,
    /// The gap before entry i; for i == entries.len(): after the last entry, up to the children
    /// block or, without one, up to the next node.
    EGap(usize),
    EName(usize),
    ETy(usize),
    EVal(usize),
    Entry(usize),
    Kids,
}
/// Byte range of a part of the node at `p` in the document's text.
fn locate(s: &SDoc, p: &[usize], part: Part) -> (usize, usize) {
    let mut o = String::new();
    for i in 0..p[0] {
        o.push_str(&s.gaps[i]);
        s.nodes[i].print(&mut o);
    }
    o.push_str(&s.gaps[p[0]]);
    let n = &s.nodes[p[0]];
    let start = o.len();
    if p.len() > 1 {
        let k = n.kids.as_ref().unwrap();
        n.head(&mut o);
        for (g, e) in n.gaps.iter().zip(&n.entries) {
            o.push_str(g);
            e.print(&mut o);
        }
        o.push_str(&k.before);
        let base = o.len() + 1;
        let (a, b) = locate(&k.doc, &p[1..], part);
        return (base + a, base + b);
    }
    if let Part::Node = part {
        return (start, start + n.to_text().len());
    }
    if let Some(t) = &n.ty {
        t.print(&mut o);
    }
    if let Part::Ty = part {
        return (start, o.len());
    }
    let a = o.len();
    o.push_str(&n.name.text);
    if let Part::Name = part {
        return (a, o.len());
    }
    for (i, (g, e)) in n.gaps.iter().zip(&n.entries).enumerate() {
        let a = o.len();
        o.push_str(g);
        if matches!(part, Part::EGap(j) if j == i) {
            return (a, o.len());
        }
        let a = o.len();
        if let Some((n, x, y)) = &e.name {
            o.push_str(&n.text);
            o.push_str(x);
            o.push('=');
            o.push_str(y);
        }
        if matches!(part, Part::EName(j) if j == i) {
            return (a, o.len());
        }
        let t = o.len();
        if let Some(ty) = &e.ty {
            ty.print(&mut o);
        }
        if matches!(part, Part::ETy(j) if j == i) {
            return (t, o.len());
        }
        let v = o.len();
        o.push_str(&e.text);
        match part {
            Part::EVal(j) if j == i => return (v, o.len()),
            Part::Entry(j) if j == i => return (a, o.len()),
            _ => {}
        }
    }
    let a = o.len();
    match (part, &n.kids) {
        (Part::EGap(_), Some(k)) => (a, a + k.before.len()),
        (Part::EGap(_), None) => (a, a + s.gaps[p[0] + 1].len()),
        (Part::Kids, Some(k)) => (a, a + k.before.len() + 2 + k.doc.to_text().len()),
        (Part::Kids, None) => (a, a),
        _ => panic!("[harness] no such part"),
    }
}
/// Byte range of gap `i` of the document at `p`.
fn locate_gap(s: &SDoc, p: &[usize], i: usize) -> (usize, usize) {
    let mut base = 0;
    let mut d = s;
    if !p.is_empty() {
        let (_, e) = locate(s, p, Part::Kids);
        let mut n = &s.nodes[p[0]];
        for j in &p[1..] {
            n = &n.kids.as_ref().unwrap().doc.nodes[*j];
        }
        d = &n.kids.as_ref().unwrap().doc;
        base = e - 1 - d.to_text().len();
    }
    let mut o = String::new();
    for j in 0..i {
        o.push_str(&d.gaps[j]);
        d.nodes[j].print(&mut o);
    }
    (base + o.len(), base + o.len() + d.gaps[i].len())
}

/// `new` must be `old[..s] + y + old[e..]` with s in `lo` and e in `hi`; gives s and e.
fn splice(old: &str, new: &str, lo: (usize, usize), hi: (usize, usize), y: &str) -> Option<(usize, usize)> {
    let cut = (old.len() + y.len()).checked_sub(new.len())?;
    (lo.0..=lo.1).find_map(|s| {
        let e = s + cut;
        let ok = e >= hi.0
            && e <= hi.1
            && old.is_char_boundary(s)
            && old.is_char_boundary(e)
            && new.as_bytes().starts_with(&old.as_bytes()[..s])
            && new.as_bytes()[s..].starts_with(y.as_bytes())
            && new.as_bytes()[s + y.len()..] == old.as_bytes()[e..];
        ok.then_some((s, e))
    })
}
fn marked() -> KdlIdentifier {
    let mut i = KdlIdentifier::from("x");
    i.set_repr(MARK);
    i
}
/// As `splice` with `lo` for an insertion, where several places explain the new text: `find` tells
/// which one it really is.
fn inserted(old: &str, new: &str, g: (usize, usize), y: &str, find: impl Fn() -> usize) -> Option<usize> {
    let (a, _) = splice(old, new, g, g, y).filter(|(a, b)| a == b)?;
    match splice(old, new, (a + 1, g.1), g, y).filter(|(a, b)| a == b) {
        None => Some(a),
        Some(_) => {
            let s = find();
            splice(old, new, (s, s), g, y).map(|_| s)
        }
    }
}
const MARK: &str = "\u{1}mark\u{1}";
/// `new` must be `old` with only `old[a..b]` changed; gives what replaced it.
fn region(old: &str, new: &str, (a, b): (usize, usize)) -> Option<String> {
    let tail = &old[b..];
    (new.len() >= a + tail.len() && new.as_bytes().starts_with(&old.as_bytes()[..a]) && new.ends_with(tail))
        .then(|| String::from_utf8_lossy(&new.as_bytes()[a..new.len() - tail.len()]).into_owned())
}

// ------------------------------------------------------------------ building things

fn val_of(v: &Val) -> KdlValue {
    to_kdl(v)
}
fn fresh_entry(e: &NewEntry, cx: &mut Ctx) -> Option<(KdlEntry, SEntry)> {
    match e {
        NewEntry::Text(s) => {
            let t = s.to_text();
            let k = match KdlEntry::parse(&t) {
                Ok(k) => k,
                // which texts are accepted and what they mean is N01, not decided here
                Err(_) => {
                    cx.count("piece refused by the parser");
                    return None;
                }
            };
            if k_entry(&k) != m_entry(s) {
                cx.count("piece misread by the parser");
                return None;
            }
            Some((k, s.clone()))
        }
        NewEntry::Built(m) => {
            let mut k = match &m.name {
                None => KdlEntry::new(val_of(&m.val)),
                Some(n) => KdlEntry::new_prop(n.as_str(), val_of(&m.val)),
            };
            if let Some(t) = &m.ty {
                k.set_ty(t.as_str());
            }
            Some((k, built_entry(m)))
        }
    }
}
fn id_text(v: &str) -> String {
    KdlIdentifier::from(v).to_string()
}
fn built_ty(t: &str) -> STy {
    STy { pre: String::new(), id: SId { text: id_text(t), value: t.into() }, post: String::new(), after: String::new() }
}
fn built_entry(m: &MEntry) -> SEntry {
    SEntry {
        name: m.name.as_ref().map(|n| (SId { text: id_text(n), value: n.clone() }, String::new(), String::new())),
        ty: m.ty.as_deref().map(built_ty),
        text: val_of(&m.val).to_string(),
        val: m.val.clone(),
    }
}
/// A node and the text its piece of the document has: `lead` + the node + `tail`.
struct Fresh {
    k: KdlNode,
    s: SNode,
    lead: String,
    tail: String,
}
fn fresh_node(n: &NewNode, bare: bool, cx: &mut Ctx) -> Option<Fresh> {
    match n {
        NewNode::Text(s) | NewNode::Line(s, _) => {
            let tail = match n {
                NewNode::Line(_, t) => TAILS[*t as usize % TAILS.len()],
                _ => "",
            };
            let t = s.to_text() + tail;
            let mut k = match KdlNode::parse(&t) {
                Ok(k) => k,
                Err(_) => {
                    cx.count("piece refused by the parser");
                    return None;
                }
            };
            if diff(&vec![m_node(s)], &vec![k_node(&k)]).is_some() {
                cx.count("piece misread by the parser");
                return None;
            }
            if tail.is_empty() {
                settle(&mut k);
                return Some(Fresh { k, s: s.clone(), lead: "\n".into(), tail: "\n".into() });
            }
            if k.format().is_none() {
                return None;
            }
            k.format_mut().unwrap().leading = "\n".into();
            Some(Fresh { k, s: s.clone(), lead: "\n".into(), tail: tail.into() })
        }
        NewNode::Built(m) => {
            let mut k = KdlNode::new(m.name.as_str());
            let mut s = SNode {
                ty: m.ty.as_deref().map(built_ty),
                name: SId { text: id_text(&m.name), value: m.name.clone() },
                gaps: vec![],
                entries: vec![],
                kids: None,
            };
            if let Some(t) = &m.ty {
                k.set_ty(t.as_str());
            }
            for e in &m.entries {
                let (ke, se) = fresh_entry(&NewEntry::Built(e.clone()), cx)?;
                k.push(ke);
                s.gaps.push(" ".into());
                s.entries.push(se);
            }
            let mut lead = String::new();
            if !bare {
                lead = "\n".into();
                if let Some(f) = k.format_mut() {
                    f.leading = "\n".into();
                }
            }
            Some(Fresh { k, s, lead, tail: "\n".into() })
        }
    }
}
fn unformatted_kids(k: &KdlNode) -> bool {
    k.children().is_some_and(|d| d.format().is_none() || d.nodes().iter().any(unformatted_kids))
}
/// Puts a node on a line of its own, as the documentation asks editors to.
fn settle(k: &mut KdlNode) {
    if k.format().is_none() {
        k.set_format(KdlNodeFormat::default());
    }
    let f = k.format_mut().unwrap();
    f.leading = "\n".into();
    f.before_terminator.clear();
    f.terminator = "\n".into();
    f.trailing.clear();
}
fn new_node(r: &mut Rng, f: &Feat, depth: usize) -> NewNode {
    let mut g = f.clone();
    g.max_depth = g.max_depth.min(depth + 1);
    if r.pct(30) {
        NewNode::Text(snode(r, &g, depth))
    } else if r.pct(30) {
        NewNode::Line(snode(r, &g, depth), r.below(TAILS.len()) as u8)
    } else {
        let n = r.below(4);
        NewNode::Built(MNode {
            ty: r.pct(f.ty).then(|| name(r, f)),
            name: name(r, f),
            entries: (0..n).map(|_| m_rand_entry(r, f)).collect(),
            kids: None,
        })
    }
}
fn name(r: &mut Rng, f: &Feat) -> String {
    if r.pct(70) { r.pick(&f.names).clone() } else { rand_string(r, f.exotic > 0) }
}
fn m_rand_entry(r: &mut Rng, f: &Feat) -> MEntry {
    let odd = r.pct(f.exotic);
    MEntry { name: r.pct(f.prop).then(|| name(r, f)), ty: r.pct(f.ty).then(|| name(r, f)), val: rand_val(r, odd) }
}
fn new_entry(r: &mut Rng, f: &Feat) -> NewEntry {
    if r.pct(40) { NewEntry::Text(sentry(r, f)) } else { NewEntry::Built(m_rand_entry(r, f)) }
}

// ------------------------------------------------------------------ the session

struct St {
    k: KdlDocument,
    m: MDoc,
    /// D04: the text, in pieces.
    s: Option<SDoc>,
    disk: (String, MDoc, Option<SDoc>),
    /// Changed through the API since it was loaded.
    edited: bool,
}
/// A disk with room for `left` more bytes.
struct SmallDisk {
    left: usize,
    got: String,
}
impl std::fmt::Write for SmallDisk {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

fn arg_index(n: &MNode, e: usize) -> Option<usize> {
    n.entries[e].name.is_none().then(|| n.entries[..e].iter().filter(|x| x.name.is_none()).count())
}
fn last_of_key(n: &MNode, e: usize) -> bool {
    n.entries[e].name.is_some() && !n.entries[e + 1..].iter().any(|x| x.name == n.entries[e].name)
}

impl St {
    fn node(&self, n: u32) -> Option<Vec<usize>> {
        let p = node_paths(&self.m);
        (!p.is_empty()).then(|| p[n as usize % p.len()].clone())
    }
    fn doc(&self, d: u32) -> Vec<usize> {
        let p = doc_paths(&self.m);
        p[d as usize % p.len()].clone()
    }
    fn entry(&self, n: u32, e: u32) -> Option<(Vec<usize>, usize)> {
        // prefer a node that has entries
        let p: Vec<_> = node_paths(&self.m).into_iter().filter(|p| !m_at(&self.m, p).entries.is_empty()).collect();
        if p.is_empty() {
            return None;
        }
        let p = p[n as usize % p.len()].clone();
        let c = m_at(&self.m, &p).entries.len();
        Some((p, e as usize % c))
    }
    /// Listed finding: a node without children keeps slashdashed entries behind it where they stay
    /// behind a children block added later, and the grammar has none there.
    fn slashdash_behind(&self, p: &[usize]) -> bool {
        let k = k_ref(&self.k, p);
        k.children().is_none() && k.format().is_some_and(|f| f.before_terminator.contains("/-"))
    }
    /// Where a fresh node may go without a line end of its own before it.
    fn bare_ok(&self, d: &[usize], at: usize) -> bool {
        let mut k = &self.k;
        for i in d {
            k = k.nodes()[*i].children().unwrap();
        }
        let lead = k.format().map(|f| f.leading.clone()).unwrap_or_default();
        (lead.is_empty() || lead.ends_with('\n') && !lead.contains('\\'))
            && k.nodes()[..at].iter().all(|n| {
                n.format().is_none_or(|f| {
                    let end = format!("{}{}", f.terminator, f.trailing);
                    !f.terminator.is_empty() && end.ends_with('\n') && !end.contains('\\')
                })
            })
    }
}

macro_rules! bail {
    ($cx:expr, $k:expr, $($a:tt)*) => {{ $cx.fail($k, format!($($a)*)); return; }};
}

impl Edit {
    fn insert_node(&self, st: &mut St, d: &[usize], at: usize, fr: Fresh, push: bool, cx: &mut Ctx) {
        let old = st.s.as_ref().map(|s| s.to_text());
        m_doc_mut(&mut st.m, d).insert(at, k_node(&fr.k));
        let kd = k_doc_mut(&mut st.k, d);
        let piece = fr.k.to_string();
        if push && at == kd.nodes().len() {
            kd.nodes_mut().push(fr.k);
        } else {
            kd.nodes_mut().insert(at, fr.k);
        }
        if let (Some(old), Some(s)) = (old, st.s.as_mut()) {
            let new = st.k.to_string();
            let y = format!("{}{}{}", fr.lead, fr.s.to_text(), fr.tail);
            if y != piece {
                bail!(cx, "not lossless", "a node made as {y:?} prints {piece:?}");
            }
            let g = locate_gap(s, d, at);
            let find = || {
                let mut c = st.k.clone();
                let n = &mut k_doc_mut(&mut c, d).nodes_mut()[at];
                (*n.ty_mut(), *n.name_mut()) = (None, marked());
                c.to_string().find(MARK).expect("[harness] mark") - fr.lead.len()
            };
            let Some(a) = inserted(&old, &new, g, &y, find) else {
                bail!(cx, "other text touched", "inserting {y:?} made {old:?} into {new:?}");
            };
            let sd = s_doc_at(s, d);
            let gap = std::mem::take(&mut sd.gaps[at]);
            let (l, r) = gap.split_at(a - g.0);
            sd.gaps[at] = format!("{l}{}", fr.lead);
            sd.gaps.insert(at + 1, format!("{}{r}", fr.tail));
            sd.nodes.insert(at, fr.s);
        }
    }
    fn remove_node(&self, st: &mut St, p: &[usize], cx: &mut Ctx) -> Option<(KdlNode, Option<SNode>)> {
        let (d, i) = (&p[..p.len() - 1], p[p.len() - 1]);
        let old = st.s.as_ref().map(|s| s.to_text());
        m_doc_mut(&mut st.m, d).remove(i);
        let k = k_doc_mut(&mut st.k, d).nodes_mut().remove(i);
        let mut sn = None;
        if let (Some(old), Some(s)) = (old, st.s.as_mut()) {
            let new = st.k.to_string();
            let (lo, hi) = (locate_gap(s, d, i), locate_gap(s, d, i + 1));
            let Some((a, b)) = splice(&old, &new, lo, hi, "") else {
                cx.fail("other text touched", format!("removing node {p:?} made {old:?} into {new:?}"));
                return None;
            };
            let sd = s_doc_at(s, d);
            let left = sd.gaps[i][..a - lo.0].to_string();
            let right = sd.gaps.remove(i + 1)[b - hi.0..].to_string();
            sd.gaps[i] = left + &right;
            sn = Some(sd.nodes.remove(i));
        }
        Some((k, sn))
    }
    /// After an edit confined to one part of one node.
    fn part(&self, st: &mut St, p: &[usize], part: Part, old: &Option<String>, cx: &mut Ctx) -> Option<String> {
        let old = old.as_ref()?;
        let new = st.k.to_string();
        let at = locate(st.s.as_ref().unwrap(), p, part);
        let x = region(old, &new, at);
        if x.is_none() {
            cx.fail("other text touched", format!("an edit of {:?} made {old:?} into {new:?}", &old[at.0..at.1]));
        }
        x
    }
    /// The text around entry `e`: the gap before it and the gap after it.
    fn set_gap(s: &mut SDoc, p: &[usize], i: usize, text: String) {
        let n = s_at(s, p);
        if i < n.gaps.len() {
            n.gaps[i] = text;
        } else if let Some(k) = &mut n.kids {
            k.before = text;
        } else {
            let (d, j) = (&p[..p.len() - 1], p[p.len() - 1]);
            s_doc_at(s, d).gaps[j + 1] = text;
        }
    }
    fn add_entry(&self, st: &mut St, p: &[usize], at: usize, se: SEntry, y: (String, String), old: Option<String>, cx: &mut Ctx) {
        let Some(old) = old else { return };
        let s = st.s.as_mut().unwrap();
        let new = st.k.to_string();
        let g = locate(s, p, Part::EGap(at));
        let yt = format!("{}{}{}", y.0, se.to_text(), y.1);
        let find = || {
            let mut c = st.k.clone();
            let e = &mut k_at(&mut c, p).entries_mut()[at];
            let (f, mut n) = (e.format().cloned(), KdlEntry::new_prop(marked(), 1));
            n.set_format(KdlEntryFormat { leading: f.map_or(" ".into(), |f| f.leading), ..Default::default() });
            *e = n;
            c.to_string().find(MARK).expect("[harness] mark") - y.0.len()
        };
        let Some(a) = inserted(&old, &new, g, &yt, find) else {
            bail!(cx, "other text touched", "inserting {yt:?} made {old:?} into {new:?}");
        };
        let (l, r) = (old[g.0..a].to_string(), old[a..g.1].to_string());
        Self::set_gap(s, p, at, format!("{}{r}", y.1));
        let n = s_at(s, p);
        n.gaps.insert(at, l + &y.0);
        n.entries.insert(at, se);
    }
    fn del_entries(&self, st: &mut St, p: &[usize], from: usize, to: usize, old: Option<String>, cx: &mut Ctx) {
        let Some(old) = old else { return };
        let s = st.s.as_mut().unwrap();
        let new = st.k.to_string();
        let (lo, hi) = (locate(s, p, Part::EGap(from)), locate(s, p, Part::EGap(to)));
        let Some((a, b)) = splice(&old, &new, lo, hi, "") else {
            bail!(cx, "other text touched", "removing entries {from}..{to} of {p:?} made {old:?} into {new:?}");
        };
        let text = format!("{}{}", &old[lo.0..a], &old[b..hi.1]);
        Self::set_gap(s, p, to, text);
        let n = s_at(s, p);
        n.gaps.drain(from..to);
        n.entries.drain(from..to);
    }

    fn apply(&self, st: &mut St, op: &Op, cx: &mut Ctx) {
        let old = st.s.as_ref().map(|s| s.to_text());
        match op {
            Op::CrashReload { .. } => st.edited = false,
            Op::Save | Op::SaveFails { .. } | Op::CloneDoc | Op::Inspect | Op::Autoformat { .. } | Op::EnsureV2 { .. } => {}
            _ => st.edited = true,
        }
        macro_rules! node {
            ($n:expr) => {
                match st.node(*$n) {
                    Some(p) => p,
                    None => return cx.count("op without target"),
                }
            };
        }
        macro_rules! entry {
            ($n:expr, $e:expr) => {
                match st.entry(*$n, *$e) {
                    Some(p) => p,
                    None => return cx.count("op without target"),
                }
            };
        }
        cx.count(&format!("op {}", op.kind()));
        match op {
            Op::InsertNode { d, at, node, bare } => {
                let d = st.doc(*d);
                let len = m_doc_mut(&mut st.m, &d).len();
                let at = *at as usize % (len + 1);
                let bare = *bare && matches!(node, NewNode::Built(_)) && st.bare_ok(&d, at);
                let Some(fr) = fresh_node(node, bare, cx) else { return };
                self.insert_node(st, &d, at, fr, bare, cx);
            }
            Op::RemoveNode { n } => {
                let p = node!(n);
                self.remove_node(st, &p, cx);
            }
            Op::ReplaceNode { n, node } => {
                let p = node!(n);
                let Some(fr) = fresh_node(node, false, cx) else { return };
                *m_at_mut(&mut st.m, &p) = k_node(&fr.k);
                *k_at(&mut st.k, &p) = fr.k;
                if let (Some(old), Some(s)) = (old, st.s.as_mut()) {
                    let (d, i) = (&p[..p.len() - 1], p[p.len() - 1]);
                    let new = st.k.to_string();
                    let y = format!("{}{}{}", fr.lead, fr.s.to_text(), fr.tail);
                    let (lo, hi) = (locate_gap(s, d, i), locate_gap(s, d, i + 1));
                    let Some((a, b)) = splice(&old, &new, lo, hi, &y) else {
                        bail!(cx, "other text touched", "replacing node {p:?} by {y:?} made {old:?} into {new:?}");
                    };
                    let sd = s_doc_at(s, d);
                    sd.gaps[i] = format!("{}{}", &sd.gaps[i][..a - lo.0], fr.lead);
                    sd.gaps[i + 1] = format!("{}{}", fr.tail, &sd.gaps[i + 1][b - hi.0..]);
                    sd.nodes[i] = fr.s;
                }
            }
            Op::MoveNode { n, d, at } => {
                let p = node!(n);
                if st.s.is_some() && unformatted_kids(k_ref(&st.k, &p)) {
                    // such a block is laid out anew for the depth it is printed at
                    return cx.count("move of unformatted children skipped");
                }
                let Some((mut k, sn)) = self.remove_node(st, &p, cx) else { return };
                if cx.failed() {
                    return;
                }
                let d = st.doc(*d);
                let len = m_doc_mut(&mut st.m, &d).len();
                let at = *at as usize % (len + 1);
                settle(&mut k);
                let s = sn.unwrap_or_else(|| SNode {
                    ty: None,
                    name: SId { text: String::new(), value: String::new() },
                    gaps: vec![],
                    entries: vec![],
                    kids: None,
                });
                self.insert_node(st, &d, at, Fresh { k, s, lead: "\n".into(), tail: "\n".into() }, false, cx);
            }
            Op::RetainNodes { d, mask } => {
                let d = st.doc(*d);
                if st.s.is_some() {
                    return;
                }
                let mut i = 0;
                m_doc_mut(&mut st.m, &d).retain(|_| {
                    i += 1;
                    mask >> (i % 64) & 1 == 1
                });
                let mut i = 0;
                k_doc_mut(&mut st.k, &d).nodes_mut().retain(|_| {
                    i += 1;
                    mask >> (i % 64) & 1 == 1
                });
            }
            Op::SetNodeName { n, to, how } => {
                let p = node!(n);
                let k = k_at(&mut st.k, &p);
                match how % 3 {
                    0 => k.set_name(to.as_str()),
                    1 => k.name_mut().set_value(to.clone()),
                    _ => *k.name_mut() = to.clone().into(),
                }
                m_at_mut(&mut st.m, &p).name = to.clone();
                if let Some(x) = self.part(st, &p, Part::Name, &old, cx) {
                    s_at(st.s.as_mut().unwrap(), &p).name = SId { text: x, value: to.clone() };
                }
            }
            Op::SetNodeTy { n, to, how } => {
                let p = node!(n);
                let k = k_at(&mut st.k, &p);
                match (to, k.ty_mut()) {
                    (None, t) => *t = None,
                    (Some(x), Some(t)) if how % 3 == 1 => t.set_value(x.clone()),
                    (Some(x), t) if how % 3 == 2 => *t = Some(x.as_str().into()),
                    (Some(x), _) => k.set_ty(x.as_str()),
                }
                m_at_mut(&mut st.m, &p).ty = to.clone();
                if let Some(x) = self.part(st, &p, Part::Ty, &old, cx) {
                    let ty = match to {
                        None if x.is_empty() => None,
                        Some(v) if x.starts_with('(') && x.contains(')') => Some(opaque_ty(&x, v)),
                        _ => bail!(cx, "other text touched", "type set to {to:?} prints {x:?}"),
                    };
                    s_at(st.s.as_mut().unwrap(), &p).ty = ty;
                }
            }
            Op::SetKids { n, doc, how } => {
                let p = node!(n);
                if doc.is_some() && *how < 200 && st.slashdash_behind(&p) {
                    return cx.count("listed finding avoided");
                }
                let k = k_at(&mut st.k, &p);
                let mk = match doc {
                    None => {
                        if how % 2 == 0 {
                            k.clear_children();
                        } else {
                            *k.children_mut() = None;
                        }
                        None
                    }
                    Some(sd) => {
                        let t = sd.to_text();
                        let kd = match KdlDocument::parse_v2(&t) {
                            Ok(d) => d,
                            Err(_) => return cx.count("piece refused by the parser"),
                        };
                        let mk = k_doc(&kd);
                        if diff(&m_doc(sd), &mk).is_some() {
                            return cx.count("piece misread by the parser");
                        }
                        match how % 3 {
                            0 => k.set_children(kd),
                            1 => *k.children_mut() = Some(kd),
                            _ => *k.ensure_children() = kd,
                        }
                        Some(mk)
                    }
                };
                m_at_mut(&mut st.m, &p).kids = mk;
                if let Some(old) = old {
                    let new = st.k.to_string();
                    let s = st.s.as_mut().unwrap();
                    let had = s_at(s, &p).kids.is_some();
                    let (a, b) = locate(s, &p, Part::Kids);
                    match doc {
                        None if had => {
                            // the children block goes; the space before it may go or stay
                            let c = a + s_at(s, &p).kids.as_ref().unwrap().before.len();
                            let (d, i) = (&p[..p.len() - 1], p[p.len() - 1]);
                            let gap = locate_gap(s, d, i + 1);
                            let Some((x, y)) = splice(&old, &new, (a, c), (b, gap.1), "") else {
                                bail!(cx, "other text touched", "removing children of {p:?} made {old:?} into {new:?}");
                            };
                            s_at(s, &p).kids = None;
                            s_doc_at(s, d).gaps[i + 1] = format!("{}{}", &old[a..x], &old[y..gap.1]);
                        }
                        None => {
                            if new != old {
                                bail!(cx, "other text touched", "removing no children made {old:?} into {new:?}");
                            }
                        }
                        Some(sd) => {
                            let Some(x) = region(&old, &new, (a, b)) else {
                                bail!(cx, "other text touched", "setting children of {p:?} made {old:?} into {new:?}");
                            };
                            let inner = format!("{{{}}}", sd.to_text());
                            let Some(before) = x.strip_suffix(inner.as_str()) else {
                                bail!(cx, "other text touched", "children {inner:?} print as {x:?}");
                            };
                            s_at(s, &p).kids = Some(SKids { before: before.into(), doc: sd.clone() });
                        }
                    }
                }
            }
            Op::PushKid { n, node } => {
                let p = node!(n);
                if st.slashdash_behind(&p) {
                    return cx.count("listed finding avoided");
                }
                if m_at(&st.m, &p).kids.is_none() {
                    // adding to a node without children creates the block
                    k_at(&mut st.k, &p).ensure_children();
                    m_at_mut(&mut st.m, &p).kids = Some(vec![]);
                    if let Some(x) = self.part(st, &p, Part::Kids, &old, cx) {
                        let Some((a, b)) = x.find('{').zip(x.rfind('}')) else {
                            bail!(cx, "other text touched", "new children block prints {x:?}");
                        };
                        s_at(st.s.as_mut().unwrap(), &p).kids = Some(SKids {
                            before: x[..a].into(),
                            doc: SDoc { gaps: vec![x[a + 1..b].into()], nodes: vec![] },
                        });
                    }
                }
                if cx.failed() {
                    return;
                }
                let Some(fr) = fresh_node(node, false, cx) else { return };
                let at = m_at(&st.m, &p).kids.as_ref().unwrap().len();
                self.insert_node(st, &p, at, fr, true, cx);
            }
            Op::InsertEntry { n, at, entry, how } => {
                let p = node!(n);
                let Some((mut ke, se)) = fresh_entry(entry, cx) else { return };
                let me = m_entry(&se);
                let len = m_at(&st.m, &p).entries.len();
                let mut at = *at as usize % (len + 1);
                let mut y = (" ".to_string(), String::new());
                if ke.format().is_some() {
                    let f = ke.format_mut().unwrap();
                    f.leading = " ".into();
                    y.1 = f.trailing.clone();
                } else if how % 4 == 3 {
                    // an editor that chooses its own spacing
                    let f = KdlEntryFormat {
                        leading: "  ".into(),
                        value_repr: ke.value().to_string(),
                        ..Default::default()
                    };
                    ke.set_format(f);
                    y.0 = "  ".into();
                }
                let k = k_at(&mut st.k, &p);
                let m = m_at_mut(&mut st.m, &p);
                match (how % 4, me.name.is_none()) {
                    (0, _) => {
                        at = len;
                        k.push(ke);
                    }
                    (1, true) => {
                        // by argument index
                        let args: Vec<usize> = (0..len).filter(|i| m.entries[*i].name.is_none()).collect();
                        let j = at % (args.len() + 1);
                        at = args.get(j).copied().unwrap_or(len);
                        let got = k.insert(j, ke);
                        if got.is_some() {
                            bail!(cx, "lookup", "insert({j}) of an argument returned {got:?}");
                        }
                    }
                    _ => k.entries_mut().insert(at, ke),
                }
                m.entries.insert(at, me);
                self.add_entry(st, &p, at, se, y, old, cx);
            }
            Op::InsertProp { n, key, val } => {
                let p = node!(n);
                let k = k_at(&mut st.k, &p);
                let prev = k.insert(key.as_str(), val_of(val));
                let m = m_at_mut(&mut st.m, &p);
                let me = MEntry { name: Some(key.clone()), ty: None, val: val.clone() };
                let se = built_entry(&me);
                match m.entries.iter().rposition(|e| e.name.as_ref() == Some(key)) {
                    Some(i) => {
                        let was = std::mem::replace(&mut m.entries[i], me);
                        if prev.as_ref().map(k_entry) != Some(was.clone()) {
                            bail!(cx, "lookup", "insert({key:?}) replaced {was:?} but returned {prev:?}");
                        }
                        if let Some(old) = old {
                            let new = st.k.to_string();
                            let s = st.s.as_mut().unwrap();
                            let (lo, hi) = (locate(s, &p, Part::EGap(i)), locate(s, &p, Part::EGap(i + 1)));
                            let y = format!(" {}", se.to_text());
                            let Some((a, b)) = splice(&old, &new, lo, hi, &y) else {
                                bail!(cx, "other text touched", "replacing entry {i} of {p:?} made {old:?} into {new:?}");
                            };
                            let (g, h) = (format!("{} ", &old[lo.0..a]), old[b..hi.1].to_string());
                            Self::set_gap(s, &p, i + 1, h);
                            Self::set_gap(s, &p, i, g);
                            s_at(s, &p).entries[i] = se;
                        }
                    }
                    None => {
                        if prev.is_some() {
                            bail!(cx, "lookup", "insert({key:?}) returned {prev:?} although there was none");
                        }
                        let at = m.entries.len();
                        m.entries.push(me);
                        self.add_entry(st, &p, at, se, (" ".into(), String::new()), old, cx);
                    }
                }
            }
            Op::RemoveEntry { n, e, how } => {
                let (p, mut i) = entry!(n, e);
                let m = m_at(&st.m, &p);
                let k = k_at(&mut st.k, &p);
                let got = match (how % 3, &m.entries[i].name) {
                    (1, None) => k.remove(arg_index(m, i).unwrap()),
                    (1, Some(key)) => {
                        let got = k.remove(key.as_str());
                        // which one of several goes is not promised; that one of them goes is
                        let now: Vec<MEntry> = k.entries().iter().map(k_entry).collect();
                        let gone = (0..m.entries.len()).filter(|j| m.entries[*j].name.as_ref() == Some(key)).find(|j| {
                            let mut c = m.entries.clone();
                            c.remove(*j);
                            c == now
                        });
                        match gone {
                            Some(j) => i = j,
                            None => bail!(cx, "content", "remove({key:?}) made {:?} into {now:?}", m.entries),
                        }
                        got
                    }
                    _ => Some(k.entries_mut().remove(i)),
                };
                if got.as_ref().map(k_entry).as_ref() != Some(&m.entries[i]) {
                    bail!(cx, "lookup", "removing {:?} returned {got:?}", m.entries[i]);
                }
                m_at_mut(&mut st.m, &p).entries.remove(i);
                self.del_entries(st, &p, i, i + 1, old, cx);
            }
            Op::ClearEntries { n } => {
                let p = node!(n);
                k_at(&mut st.k, &p).clear();
                let c = m_at(&st.m, &p).entries.len();
                m_at_mut(&mut st.m, &p).entries.clear();
                if c > 0 {
                    self.del_entries(st, &p, 0, c, old, cx);
                }
            }
            Op::RetainEntries { n, mask } => {
                if st.s.is_some() {
                    return;
                }
                let (p, _) = entry!(n, &0);
                let mut i = 0;
                k_at(&mut st.k, &p).retain(|_| {
                    i += 1;
                    mask >> (i % 64) & 1 == 1
                });
                let mut i = 0;
                m_at_mut(&mut st.m, &p).entries.retain(|_| {
                    i += 1;
                    mask >> (i % 64) & 1 == 1
                });
            }
            Op::SortEntries { n, by } => {
                if st.s.is_some() {
                    return;
                }
                let (p, _) = entry!(n, &0);
                let key = |e: &MEntry| match by % 3 {
                    0 => e.name.clone().unwrap_or_default(),
                    1 => format!("{:?}", e.val).chars().take(4).collect(),
                    _ => String::new(),
                };
                let k = k_at(&mut st.k, &p);
                if by % 2 == 0 {
                    k.sort_by(|a, b| key(&k_entry(a)).cmp(&key(&k_entry(b))));
                } else {
                    k.sort_by_key(|a| key(&k_entry(a)));
                }
                m_at_mut(&mut st.m, &p).entries.sort_by_key(key);
            }
            Op::SetValue { n, e, to, how } => {
                let (p, i) = entry!(n, e);
                let m = m_at(&st.m, &p).clone();
                let arg = arg_index(&m, i);
                let last = last_of_key(&m, i);
                let to = &if how / 7 % 3 == 0 { twin(&m.entries[i].val) } else { to.clone() };
                let v = val_of(to);
                let (d, j) = (&p[..p.len() - 1], p[p.len() - 1]);
                let first = m_doc_mut(&mut st.m, d).iter().position(|n| n.name == m.name) == Some(j);
                match (how % 7, arg) {
                    (1, _) => *k_at(&mut st.k, &p).entries_mut()[i].value_mut() = v,
                    (2, Some(a)) => *k_at(&mut st.k, &p).get_mut(a).expect("[harness]") = v,
                    (2, None) if last => *k_at(&mut st.k, &p).get_mut(m.entries[i].name.clone().unwrap()).expect("get_mut finds the property") = v,
                    (3, Some(a)) => k_at(&mut st.k, &p)[a] = v,
                    (3, None) if last => k_at(&mut st.k, &p)[m.entries[i].name.as_deref().unwrap()] = v,
                    (4, Some(0)) if first => *k_doc_mut(&mut st.k, d).get_arg_mut(&m.name).expect("get_arg_mut finds the argument") = v,
                    (4, Some(a)) if first => {
                        k_doc_mut(&mut st.k, d).get_mut(&m.name).expect("get_mut finds the node").entry_mut(a).expect("entry_mut finds the argument").set_value(v)
                    }
                    (5, _) => k_at(&mut st.k, &p).iter_mut().nth(i).expect("iter_mut reaches the entry").set_value(v),
                    (6, None) if last => k_at(&mut st.k, &p).entry_mut(m.entries[i].name.clone().unwrap()).expect("entry_mut finds the property").set_value(v),
                    _ => k_at(&mut st.k, &p).entries_mut()[i].set_value(v),
                }
                m_at_mut(&mut st.m, &p).entries[i].val = to.clone();
                if let Some(x) = self.part(st, &p, Part::EVal(i), &old, cx) {
                    let e = &mut s_at(st.s.as_mut().unwrap(), &p).entries[i];
                    e.text = x;
                    e.val = to.clone();
                }
            }
            Op::SetEntryName { n, e, to, how } => {
                let (p, i) = entry!(n, e);
                let k = &mut k_at(&mut st.k, &p).entries_mut()[i];
                match (to, k.name_mut()) {
                    (None, _) => k.set_name(None::<&str>),
                    (Some(x), Some(n)) if how % 3 == 1 => n.set_value(x.clone()),
                    (Some(x), Some(n)) if how % 3 == 2 => *n = x.as_str().into(),
                    (Some(x), _) => k.set_name(Some(x.as_str())),
                }
                m_at_mut(&mut st.m, &p).entries[i].name = to.clone();
                if let Some(x) = self.part(st, &p, Part::EName(i), &old, cx) {
                    let nm = match to {
                        None if x.is_empty() => None,
                        Some(v) if x.contains('=') => {
                            let q = x.find('=').unwrap();
                            Some((SId { text: x[..q].into(), value: v.clone() }, String::new(), x[q + 1..].to_string()))
                        }
                        _ => bail!(cx, "other text touched", "entry name {to:?} prints {x:?}"),
                    };
                    s_at(st.s.as_mut().unwrap(), &p).entries[i].name = nm;
                }
            }
            Op::SetEntryTy { n, e, to, how } => {
                let (p, i) = entry!(n, e);
                let k = &mut k_at(&mut st.k, &p).entries_mut()[i];
                match k.ty_mut() {
                    Some(t) if how % 3 == 1 => t.set_value(to.clone()),
                    Some(t) if how % 3 == 2 => *t = to.as_str().into(),
                    _ => k.set_ty(to.as_str()),
                }
                m_at_mut(&mut st.m, &p).entries[i].ty = Some(to.clone());
                if let Some(x) = self.part(st, &p, Part::ETy(i), &old, cx) {
                    if !x.starts_with('(') || !x.contains(')') {
                        bail!(cx, "other text touched", "type set to {to:?} prints {x:?}");
                    }
                    s_at(st.s.as_mut().unwrap(), &p).entries[i].ty = Some(opaque_ty(&x, to));
                }
            }
            Op::Save => {
                st.disk = (st.k.to_string(), st.m.clone(), st.s.clone());
            }
            Op::SaveFails { at } => {
                let full = st.k.to_string();
                let room = *at as usize % (full.len() + 1);
                let mut w = SmallDisk { left: room, got: String::new() };
                let r = write!(w, "{}", st.k);
                cx.count(if r.is_err() { "fault disk full while saving" } else { "fault without effect" });
                if r.is_ok() != (room >= full.len()) || !full.starts_with(&w.got) {
                    bail!(cx, "save", "saving {full:?} with room for {room} bytes gave {r:?} and {:?}", w.got);
                }
                if st.k.to_string() != full {
                    bail!(cx, "save", "a failed save changed {full:?} into {:?}", st.k.to_string());
                }
            }
            Op::CrashReload { how } => {
                cx.count("fault crash and reload");
                let t = st.disk.0.clone();
                let r = match how % 3 {
                    0 => KdlDocument::parse_v2(&t),
                    1 => KdlDocument::parse(&t),
                    _ => t.parse(),
                };
                match r {
                    Err(e) => bail!(cx, "reload refused", "saved text {t:?} does not load: {:?}", e.diagnostics),
                    Ok(k) => st.k = k,
                }
                st.m = st.disk.1.clone();
                st.s = st.disk.2.clone();
                if let Some(x) = diff(&st.m, &k_doc(&st.k)) {
                    bail!(cx, "reload differs", "saved text {t:?} loads as something else: expected vs loaded {x}");
                }
            }
            Op::CloneDoc => {
                let c = st.k.clone();
                if c != st.k || c.to_string() != st.k.to_string() {
                    bail!(cx, "content", "a clone differs from its original: {:?}", st.k.to_string());
                }
                st.k = c;
            }
            Op::Inspect => inspect(st, cx),
            Op::Autoformat { n, indent, level, no_comments, how } => {
                let f = Formatting::of(*indent, *level, *no_comments, *how);
                let path = match n {
                    Some(n) => {
                        let p = node!(n);
                        if !st.bare_ok(&p[..p.len() - 1], p[p.len() - 1]) {
                            return cx.count("node that shares a line not reformatted alone");
                        }
                        Some(p)
                    }
                    None => None,
                };
                let before = (self.id == "D07" && !f.no_comments).then(|| comments(&st.k));
                let texts = (self.id == "D07").then(|| kept_texts(&st.k, path.as_deref(), f.keep));
                f.apply(&mut st.k, path.as_deref());
                if let Some(b) = texts {
                    let a = entry_texts(&st.k, path.as_deref());
                    if let Some((i, x)) = b.iter().enumerate().find(|(i, x)| x.is_some() && **x != a[*i]) {
                        bail!(cx, "kept", "an entry to be kept, {x:?}, was formatted to {:?}", a[i]);
                    }
                    if b.iter().any(|x| x.is_some()) {
                        cx.count("entries kept through formatting");
                    }
                }
                if let Some(b) = before {
                    let a = comments(&st.k);
                    if a != b {
                        bail!(cx, "comments", "formatting turned the comments {b:?} into {a:?}");
                    }
                }
                if self.id == "D07" {
                    settled(&st.k, &f, path.as_deref(), st.edited, cx);
                }
            }
            Op::ClearFormat { n, how } => match n {
                Some(n) => {
                    let p = node!(n);
                    if how % 2 == 0 && !st.bare_ok(&p[..p.len() - 1], p[p.len() - 1]) {
                        return cx.count("node that shares a line not reformatted alone");
                    }
                    let k = k_at(&mut st.k, &p);
                    if how % 2 == 0 {
                        k.clear_format_recursive();
                    } else if let Some(c) = k.children_mut() {
                        c.clear_format_recursive();
                    }
                }
                None => st.k.clear_format_recursive(),
            },
            Op::EnsureV2 { n } => match n {
                Some(n) => {
                    let p = node!(n);
                    k_at(&mut st.k, &p).ensure_v2();
                }
                None => st.k.ensure_v2(),
            },
            Op::EntryFormat { n, e, how } => {
                let (p, i) = entry!(n, e);
                let k = &mut k_at(&mut st.k, &p).entries_mut()[i];
                match how % 4 {
                    0 => k.clear_format(),
                    1 => k.autoformat(),
                    2 => k.ensure_v2(),
                    _ => {
                        k.keep_format();
                        k.autoformat();
                    }
                }
            }
        }
    }
    fn invariants(&self, st: &St, cx: &mut Ctx) {
        if let Some(x) = diff(&st.m, &k_doc(&st.k)) {
            bail!(cx, "content", "the document does not hold what the edits made: expected vs held {x}");
        }
        if let Some(s) = &st.s {
            let t = s.to_text();
            let k = st.k.to_string();
            if t != k {
                bail!(cx, "other text touched", "expected {t:?} but it prints {k:?}");
            }
            if let Some(x) = diff(&m_doc(s), &st.m) {
                panic!("[harness] models disagree: {x}");
            }
        }
    }
}
// ------------------------------------------------------------------ D11: equality over a history

fn hash_of(v: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    v.hash(&mut h);
    h.finish()
}
/// Equality takes NaN for 0, the infinities for the largest floats, and -0 for 0, and says so.
fn collapsed(d: &MDoc) -> MDoc {
    fn val(v: &mut Val) {
        if let Val::Float(b) = v {
            let f = f64::from_bits(*b);
            let f = if f.is_nan() || f == 0.0 { 0.0 } else { f.clamp(-f64::MAX, f64::MAX) };
            *b = f.to_bits();
        }
    }
    let mut d = d.clone();
    for n in d.iter_mut() {
        n.entries.iter_mut().for_each(|e| val(&mut e.val));
        n.kids = n.kids.take().map(|k| collapsed(&k));
    }
    d
}
struct Past {
    k: KdlDocument,
    text: String,
    m: MDoc,
    hash: u64,
}
fn all_nodes<'a>(d: &'a KdlDocument, o: &mut Vec<&'a KdlNode>) {
    for n in d.nodes() {
        o.push(n);
        if let Some(k) = n.children() {
            all_nodes(k, o);
        }
    }
}
/// Two pieces that compare equal are alike in every way but where they stand.
fn alike<T: PartialEq + std::hash::Hash + std::fmt::Display>(
    what: &str,
    a: &T,
    b: &T,
    content: impl Fn(&T) -> MDoc,
    equal: &mut u64,
) -> Result<(), String> {
    if (a == b) != (b == a) {
        return Err(format!("{what} {:?} equals {:?} one way only", a.to_string(), b.to_string()));
    }
    if a == b {
        *equal += 1;
        let (m, n) = (content(a), content(b));
        if let Some(x) = diff(&collapsed(&m), &collapsed(&n)) {
            return Err(format!("{what} {:?} and {:?} are equal, but {x}", a.to_string(), b.to_string()));
        }
        if m == n && a.to_string() != b.to_string() {
            return Err(format!("two {what} are equal, but print {:?} and {:?}", a.to_string(), b.to_string()));
        }
        if hash_of(a) != hash_of(b) {
            return Err(format!("two {what} {:?} are equal, but their hashes are not", a.to_string()));
        }
    }
    Ok(())
}
fn entry_doc(e: &KdlEntry) -> MDoc {
    vec![MNode { ty: None, name: String::new(), entries: vec![k_entry(e)], kids: None }]
}
fn ident_doc(i: &KdlIdentifier) -> MDoc {
    vec![MNode { ty: None, name: i.value().into(), entries: vec![], kids: None }]
}
impl Past {
    fn of(k: &KdlDocument) -> Past {
        Past { k: k.clone(), text: k.to_string(), m: k_doc(k), hash: hash_of(k) }
    }
}
fn equality(past: &mut Vec<Past>, k: &KdlDocument, cx: &mut Ctx) -> Result<(), String> {
    let mut equal = 0;
    let c = k.clone();
    if c != *k || hash_of(&c) != hash_of(k) {
        return Err(format!("a clone of {:?} is not equal to it, or hashes differently", k.to_string()));
    }
    let now = Past::of(k);
    for (i, p) in past.iter().enumerate() {
        // A snapshot is a value: nothing done to the document since then reaches it.
        if p.k.to_string() != p.text || hash_of(&p.k) != p.hash {
            return Err(format!("the snapshot {i} {:?} has changed to {:?}", p.text, p.k.to_string()));
        }
        alike("documents", &p.k, k, k_doc, &mut equal)?;
        if p.m != now.m && collapsed(&p.m) != collapsed(&now.m) && p.k == *k {
            return Err(format!("{:?} and {:?} are equal", p.text, now.text));
        }
    }
    // pieces of this state and of the last
    let (mut a, mut b) = (vec![], vec![]);
    all_nodes(k, &mut a);
    if let Some(p) = past.last() {
        all_nodes(&p.k, &mut b);
    }
    a.truncate(6);
    b.truncate(6);
    b.extend(&a);
    for x in &a {
        for y in &b {
            alike("nodes", *x, *y, |n| vec![k_node(n)], &mut equal)?;
            alike("names", x.name(), y.name(), ident_doc, &mut equal)?;
            for (e, f) in x.entries().iter().zip(y.entries()) {
                alike("entries", e, f, entry_doc, &mut equal)?;
            }
        }
    }
    values(&a, &b)?;
    // what is loaded from one text is one value, wherever in a text it stands
    let seen = past.iter().any(|p| p.text == now.text) || (now.text.len() > 400 && past.len() % 3 != 0);
    if let (false, Ok(l)) = (seen, KdlDocument::parse_v2(if seen { "" } else { &now.text })) {
        let again = KdlDocument::parse_v2(&now.text).map_err(|_| "a text was loaded once and refused once")?;
        if l != again || hash_of(&l) != hash_of(&again) {
            return Err(format!("{:?} loaded twice is not equal, or hashes differently", now.text));
        }
        for p in past.iter() {
            alike("documents", &p.k, &l, k_doc, &mut equal)?;
        }
        if !now.text.starts_with('\u{feff}') {
            let moved = KdlDocument::parse_v2(&format!("pad é;{}", now.text)).map_err(|e| format!("{e:?}"))?;
            for (x, y) in l.nodes().iter().zip(&moved.nodes()[1..]) {
                if x != y || hash_of(x) != hash_of(y) {
                    return Err(format!("the node {:?} is not equal to itself further down in a text", x.to_string()));
                }
            }
        }
    }
    cx.add("probe: equal pieces compared", equal);
    past.push(now);
    if past.len() > 8 {
        past.remove(0);
    }
    Ok(())
}

/// Values met in a history, and ones a hair's breadth from them: equal, alone and in pieces built
/// around them, exactly if they say the same; and in an order that agrees.
fn values(a: &[&KdlNode], b: &[&KdlNode]) -> Result<(), String> {
    let mut pool: Vec<Val> = vec![];
    for v in a.iter().chain(b).flat_map(|n| n.entries()).map(|e| k_val(e.value())).take(12) {
        if pool.len() < 24 && !pool.contains(&v) {
            let near = match &v {
                Val::Float(f) => {
                    let f = f64::from_bits(*f);
                    let fs = [f.next_up(), f.next_down(), -f, f / 3.0, f * 1e-300, f.trunc(), f + 0.5];
                    let mut o: Vec<Val> = fs.iter().map(|f| Val::Float(f.to_bits())).collect();
                    o.push(Val::Int(format!("{}", f as i128)));
                    o.extend([0.0, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].map(|f| Val::Float(f.to_bits())));
                    o
                }
                Val::Int(i) => {
                    let i: i128 = i.parse().unwrap_or(0);
                    let is = [i.wrapping_add(1), i.wrapping_neg(), i ^ (1 << 64), i as i64 as i128, i ^ i128::MIN];
                    let mut o: Vec<Val> = is.iter().map(|i| Val::Int(i.to_string())).collect();
                    o.push(Val::Float((i as f64).to_bits()));
                    o.push(Val::Str(i.to_string()));
                    o
                }
                Val::Str(s) => {
                    let mut o = vec![format!("{s} "), format!("{s}\0"), s.to_uppercase(), format!(" {s}"), s.chars().skip(1).collect()];
                    o.push(s.chars().rev().collect());
                    o.into_iter().map(Val::Str).collect()
                }
                Val::Bool(b) => vec![Val::Bool(!b), Val::Null, Val::Int((*b as u8).to_string()), Val::Str(format!("{b}"))],
                Val::Null => vec![Val::Bool(false), Val::Str(String::new()), Val::Str("null".into()), Val::Int("0".into())],
            };
            pool.push(v);
            pool.extend(near);
        }
    }
    let piece = |v: &Val| {
        let mut e = KdlEntry::new_prop("k", to_kdl(v));
        e.set_ty("t");
        let mut n = KdlNode::new("n");
        n.push(KdlEntry::new(to_kdl(v)));
        (KdlEntry::new(to_kdl(v)), e, n)
    };
    let built: Vec<_> = pool
        .iter()
        .map(|v| {
            let one = vec![MNode { ty: None, name: "n".into(), entries: vec![MEntry { ty: None, name: None, val: v.clone() }], kids: None }];
            (to_kdl(v), piece(v), collapsed(&one))
        })
        .collect();
    for (i, (v, (e, p, n), m)) in built.iter().enumerate() {
        for (w, (f, q, o), l) in &built[i..] {
            let same = m == l;
            for (what, eq, eh) in [
                ("values", [v == w, w == v], hash_of(v) == hash_of(w)),
                ("arguments", [e == f, f == e], hash_of(e) == hash_of(f)),
                ("properties", [p == q, q == p], hash_of(p) == hash_of(q)),
                ("nodes", [n == o, o == n], hash_of(n) == hash_of(o)),
            ] {
                if eq != [same; 2] {
                    return Err(format!("equality of the {what} made of {v:?} and {w:?} is {eq:?}"));
                }
                if same && !eh {
                    return Err(format!("the {what} made of {v:?} and {w:?} are equal, but their hashes are not"));
                }
            }
            let order = (v.partial_cmp(w), w.partial_cmp(v));
            let agrees = match order {
                (Some(x), Some(y)) => x == y.reverse() && (x == std::cmp::Ordering::Equal) == same,
                _ => false,
            };
            if !agrees {
                return Err(format!("{v:?} and {w:?} compare as {order:?}"));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ D13: canonical forms

/// The document with this content that a program makes from nothing.
fn built(m: &MDoc) -> KdlDocument {
    let mut d = KdlDocument::new();
    for x in m {
        let mut n = KdlNode::new(x.name.as_str());
        if let Some(t) = &x.ty {
            n.set_ty(t.as_str());
        }
        for e in &x.entries {
            let v = to_kdl(&e.val);
            let mut k = match &e.name {
                Some(name) => KdlEntry::new_prop(name.as_str(), v),
                None => KdlEntry::new(v),
            };
            if let Some(t) = &e.ty {
                k.set_ty(t.as_str());
            }
            n.push(k);
        }
        if let Some(c) = &x.kids {
            n.set_children(built(c));
        }
        d.nodes_mut().push(n);
    }
    d
}
fn canonical(k: &KdlDocument, m: &MDoc, cx: &mut Ctx) -> Result<(), String> {
    let same = |what: &str, a: &KdlDocument, b: &KdlDocument| -> Result<(), String> {
        let (t, u) = (a.to_string(), b.to_string());
        if t != u {
            return Err(format!("{what} gives {t:?}, for the same content made anew {u:?}"));
        }
        if a != b || hash_of(a) != hash_of(b) {
            return Err(format!("{what} gives {t:?} twice, which are not equal or hash differently"));
        }
        Ok(())
    };
    let (mut a, mut b) = (k.clone(), built(m));
    a.clear_format_recursive();
    b.clear_format_recursive();
    same("clearing the formats", &a, &b)?;
    let t = a.to_string();
    let mut l = KdlDocument::parse_v2(&t).map_err(|e| format!("{t:?}, left by clearing the formats, does not load: {:?}", e.diagnostics))?;
    if let Some(x) = diff(m, &k_doc(&l)) {
        return Err(format!("{t:?}, left by clearing the formats, says something else: {x}"));
    }
    l.clear_format_recursive();
    same("clearing the formats of what was loaded from it", &l, &a)?;
    // node by node, in any order
    let mut c = k.clone();
    c.clear_format();
    for n in c.nodes_mut().iter_mut().rev() {
        n.clear_format_recursive();
    }
    same("clearing the formats of node after node", &c, &a)?;
    cx.count("probe: cleared");
    if any_kept(k) {
        cx.count("probe: kept entries");
        return Ok(());
    }
    // Empty blocks are formatted as they came about.
    let lines = |d: &KdlDocument| d.to_string().lines().filter(|l| !l.trim().is_empty()).map(|l| format!("{l}\n")).collect::<String>();
    let forms: Vec<String> = [k, &a, &l, &built(m)]
        .into_iter()
        .map(|d| {
            let mut d = d.clone();
            d.autoformat_no_comments();
            lines(&d)
        })
        .collect();
    for f in &forms[1..] {
        if *f != forms[0] {
            return Err(format!("formatting without comments gives {:?}, for the same content made anew or cleared {f:?}", forms[0]));
        }
    }
    cx.count("probe: formatted alike");
    Ok(())
}

/// One way to call the formatter.
struct Formatting {
    indent: &'static str,
    level: usize,
    no_comments: bool,
    keep: bool,
    /// Through autoformat() or autoformat_no_comments(), which take no configuration.
    plain: bool,
}
impl Formatting {
    fn of(indent: u8, level: u8, no_comments: bool, how: u8) -> Self {
        match how % 3 {
            2 => Formatting {
                indent: ["    ", "  ", "\t", "", " "][indent as usize % 5],
                level: level as usize % 4,
                no_comments,
                keep: how % 4 < 2,
                plain: false,
            },
            h => Formatting { indent: "    ", level: 0, no_comments: h == 1, keep: false, plain: true },
        }
    }
    fn apply(&self, k: &mut KdlDocument, path: Option<&[usize]>) {
        let b = FormatConfig::builder();
        let mut cfg = match (self.level + self.indent.len()) % 3 {
            0 => b.indent(self.indent).indent_level(self.level).no_comments(self.no_comments),
            1 => b.maybe_no_comments(Some(self.no_comments)).maybe_indent_level(Some(self.level)).maybe_indent(Some(self.indent)),
            // what is left out is as by default
            _ => b
                .maybe_indent((self.indent != "    ").then_some(self.indent))
                .maybe_no_comments(self.no_comments.then_some(true))
                .maybe_indent_level((self.level > 0).then_some(self.level)),
        }
        .build();
        cfg.entry_autoformate_keep = self.keep;
        match path {
            Some(p) => {
                let k = k_at(k, p);
                match (self.plain, self.no_comments) {
                    (true, false) => k.autoformat(),
                    (true, true) => k.autoformat_no_comments(),
                    _ => k.autoformat_config(&cfg),
                }
            }
            None => match (self.plain, self.no_comments) {
                (true, false) => k.autoformat(),
                (true, true) => k.autoformat_no_comments(),
                _ => k.autoformat_config(&cfg),
            },
        }
    }
}
/// White space and text of the entries at and below `path`, in order.
fn entry_texts(d: &KdlDocument, path: Option<&[usize]>) -> Vec<Option<(String, String)>> {
    fn go(n: &KdlNode, o: &mut Vec<Option<(String, String)>>) {
        o.extend(n.entries().iter().map(|e| e.format().map(|f| (f.leading.clone(), f.value_repr.clone()))));
        if let Some(c) = n.children() {
            c.nodes().iter().for_each(|n| go(n, o));
        }
    }
    let mut o = vec![];
    match path {
        Some(p) => go(k_ref(d, p), &mut o),
        None => d.nodes().iter().for_each(|n| go(n, &mut o)),
    }
    o
}
/// What formatting is to leave of them as it is: `None` for an entry that isn't kept.
fn kept_texts(d: &KdlDocument, path: Option<&[usize]>, all: bool) -> Vec<Option<(String, String)>> {
    fn go(n: &KdlNode, all: bool, o: &mut Vec<Option<(String, String)>>) {
        for e in n.entries() {
            let kept = e.format().is_some_and(|f| all || f.autoformat_keep);
            let mut e = e.clone();
            e.ensure_v2();
            o.push(e.format().filter(|_| kept).map(|f| (f.leading.clone(), f.value_repr.clone())));
        }
        if let Some(c) = n.children() {
            c.nodes().iter().for_each(|n| go(n, all, o));
        }
    }
    let mut o = vec![];
    match path {
        Some(p) => go(k_ref(d, p), all, &mut o),
        None => d.nodes().iter().for_each(|n| go(n, all, &mut o)),
    }
    o
}
/// The comments on, before and behind lines, without their white space.
fn comments(d: &KdlDocument) -> String {
    fn add(o: &mut String, t: &str) {
        o.extend(t.chars().filter(|c| !c.is_whitespace() && !"\u{feff}\\".contains(*c)));
    }
    fn go(d: &KdlDocument, o: &mut String) {
        if let Some(f) = d.format() {
            add(o, &f.leading);
        }
        for n in d.nodes() {
            if let Some(f) = n.format() {
                add(o, &f.leading);
            }
            for e in n.entries() {
                if let Some(f) = e.format() {
                    add(o, &f.leading);
                    if strict() {
                        // a listed finding: these are not kept
                        [&f.after_key, &f.after_eq, &f.before_ty_name, &f.after_ty_name, &f.after_ty].map(|t| add(o, t));
                    }
                }
                o.push(',');
            }
            if let Some(f) = n.format() {
                add(o, &f.before_children);
            }
            if let Some(k) = n.children() {
                go(k, o);
            }
            if let Some(f) = n.format() {
                add(o, &f.before_terminator);
                add(o, f.terminator.strip_prefix(';').unwrap_or(&f.terminator));
                add(o, &f.trailing);
            }
            o.push('|');
        }
        if let Some(f) = d.format() {
            add(o, &f.trailing);
        }
    }
    let mut o = String::new();
    go(d, &mut o);
    o
}
fn built_empty(d: &KdlDocument) -> bool {
    d.nodes().iter().filter_map(|n| n.children()).any(|c| c.nodes().is_empty() && c.format().is_none() || built_empty(c))
}
fn any_kept(d: &KdlDocument) -> bool {
    d.nodes().iter().any(|n| {
        n.entries().iter().any(|e| e.format().is_some_and(|f| f.autoformat_keep)) || n.children().is_some_and(any_kept)
    })
}
/// The lines a formatted document consists of, comments aside.
fn lines_of(d: &KdlDocument, f: &Formatting, level: usize, out: &mut Vec<String>) {
    for n in d.nodes() {
        let mut l = f.indent.repeat(level);
        if let Some(t) = n.ty() {
            l += &format!("({})", KdlIdentifier::from(t.value()));
        }
        l += &KdlIdentifier::from(n.name().value()).to_string();
        for e in n.entries() {
            if f.keep || e.format().is_some_and(|f| f.autoformat_keep) {
                let t = e.to_string();
                l += if e.format().is_none() { " " } else { "" };
                l += &t;
                continue;
            }
            l += e.format().map_or(" ", |f| &f.leading);
            if let Some(n) = e.name() {
                l += &format!("{}=", KdlIdentifier::from(n.value()));
            }
            if let Some(t) = e.ty() {
                l += &format!("({t})");
            }
            l += &e.value().to_string();
        }
        match n.children() {
            Some(c) => {
                l += n.format().map_or(" ", |f| &f.before_children);
                l += "{";
                out.push(l);
                lines_of(c, f, level + 1, out);
                out.push(f.indent.repeat(level) + "}");
            }
            None => out.push(l),
        }
    }
}
/// Formatting once more changes nothing, also after a reload, and the result has the asked-for shape.
fn settled(k: &KdlDocument, f: &Formatting, path: Option<&[usize]>, edited: bool, cx: &mut Ctx) {
    let text = k.to_string();
    if text.is_empty() {
        // a listed finding: an empty document or block without a format
        return;
    }
    let mut again = k.clone();
    f.apply(&mut again, path);
    if again.to_string() != text {
        bail!(cx, "not settled", "formatting again turned {text:?} into {:?}", again.to_string());
    }
    if path.is_none() && (f.keep || !any_kept(k)) {
        let Ok(mut r) = KdlDocument::parse_v2(&text) else {
            bail!(cx, "reload refused", "formatted text {text:?} does not load");
        };
        if diff(&k_doc(k), &k_doc(&r)).is_some() {
            bail!(cx, "reload differs", "formatted text {text:?} loads as something else");
        }
        f.apply(&mut r, path);
        if edited {
            // Comments may have to find the node they belong to first.
            let once = r.to_string();
            let Ok(mut r2) = KdlDocument::parse_v2(&once) else {
                bail!(cx, "reload refused", "formatted text {once:?} does not load");
            };
            f.apply(&mut r2, path);
            if r2.to_string() != once {
                bail!(cx, "not settled", "formatting after reloads turned {once:?} into {:?}", r2.to_string());
            }
            cx.count("formatting after two reloads");
        } else if r.to_string() != text {
            bail!(cx, "not settled", "formatting again after a reload turned {text:?} into {:?}", r.to_string());
        }
        cx.count("formatting again after a reload");
    }
    if path.is_none() {
        if !strict() && built_empty(k) && (f.indent != "    " || f.level != 0) {
            // a listed finding
            return cx.count("shape not compared: empty block without format");
        }
        let mut want = vec![];
        lines_of(k, f, f.level, &mut want);
        if f.no_comments {
            let lines = |t: &str| t.split('\n').filter(|l| !l.is_empty()).map(|l| format!("{l}\n")).collect::<String>();
            let t = lines(&want.join("\n"));
            if t != lines(&text) {
                bail!(cx, "shape", "expected {t:?} but formatting gave {text:?}");
            }
        } else {
            let all = format!("\n{}", text.strip_prefix('\u{feff}').unwrap_or(&text));
            let mut at = 0;
            for w in &want {
                match all[at..].find(&format!("\n{w}")) {
                    Some(i) => at += i + w.len() + 1,
                    _ => bail!(cx, "shape", "no line {w:?} where it should be, formatted as {text:?}"),
                }
            }
        }
        cx.count("shape compared");
    }
}
fn opaque_ty(x: &str, v: &str) -> STy {
    let q = x.rfind(')').unwrap();
    STy { pre: x[1..q].into(), id: SId { text: String::new(), value: v.into() }, post: String::new(), after: x[q + 1..].into() }
}

/// Every lookup agrees with the content.
fn inspect(st: &mut St, cx: &mut Ctx) {
    for d in doc_paths(&st.m) {
        let m = m_doc_mut(&mut st.m, &d).clone();
        let k = k_doc_mut(&mut st.k, &d);
        for name in m.iter().map(|n| n.name.as_str()).chain(["no such node", "-"]) {
            let want = m.iter().find(|n| n.name == name);
            if k.get(name).map(k_node).as_ref() != want || k.get_mut(name).map(|n| k_node(n)).as_ref() != want {
                bail!(cx, "lookup", "get({name:?}) gives {:?}, the first such node is {want:?}", k.get(name).map(k_node));
            }
            let args: Vec<Val> =
                want.map(|n| n.entries.iter().filter(|e| e.name.is_none()).map(|e| e.val.clone()).collect()).unwrap_or_default();
            let got: Vec<Val> = k.iter_args(name).map(k_val).collect();
            if got != args || k.get_arg(name).map(k_val).as_ref() != args.first() || k.clone().get_arg_mut(name).map(|v| k_val(v)).as_ref() != args.first() {
                bail!(cx, "lookup", "arguments of {name:?}: {got:?} and {:?}, expected {args:?}", k.get_arg(name));
            }
            let dash: Vec<Val> = want
                .and_then(|n| n.kids.as_ref())
                .map(|k| {
                    k.iter()
                        .filter(|n| n.name == "-")
                        .filter_map(|n| n.entries.iter().find(|e| e.name.is_none()).map(|e| e.val.clone()))
                        .collect()
                })
                .unwrap_or_default();
            let got: Vec<Val> = k.iter_dash_args(name).map(k_val).collect();
            if got != dash {
                bail!(cx, "lookup", "dash arguments of {name:?}: {got:?}, expected {dash:?}");
            }
        }
    }
    for p in node_paths(&st.m) {
        let m = m_at(&st.m, &p).clone();
        let k = &mut k_ref(&st.k, &p).clone();
        let n = |x: Option<&KdlNode>| x.map(|n| n as *const KdlNode);
        let kids: Vec<_> = k.iter_children_mut().map(|c| n(Some(c))).collect();
        if kids != k.iter_children().map(|c| n(Some(c))).collect::<Vec<_>>() {
            bail!(cx, "lookup", "{p:?}: iter_children_mut and iter_children give different nodes");
        }
        let entries: Vec<KdlEntry> = k.iter_mut().map(|e| e.clone()).collect();
        if entries != k.entries() || !k.iter().eq(k.entries()) {
            bail!(cx, "lookup", "{p:?}: iter, iter_mut and entries give different entries");
        }
        for e in k.entries() {
            let v = e.value();
            let v = (v.as_string(), v.as_integer(), v.as_float().map(f64::to_bits), v.as_bool(), v.is_null());
            let is = e.value();
            let is = (is.is_string(), is.is_integer(), is.is_float(), is.is_bool(), is.is_null());
            let want = match e.value() {
                KdlValue::String(s) => (Some(s.as_str()), None, None, None, false),
                KdlValue::Integer(i) => (None, Some(*i), None, None, false),
                KdlValue::Float(x) => (None, None, Some(x.to_bits()), None, false),
                KdlValue::Bool(b) => (None, None, None, Some(*b), false),
                KdlValue::Null => (None, None, None, None, true),
            };
            if v != want || is != (v.0.is_some(), v.1.is_some(), v.2.is_some(), v.3.is_some(), v.4) {
                bail!(cx, "lookup", "{:?} is said to be {v:?} and {is:?}", e.value());
            }
        }
        for (i, e) in m.entries.iter().filter(|e| e.name.is_none()).enumerate() {
            if k_val(&k[i]) != e.val || k.entry_mut(i).map(|e| k_entry(e)).as_ref() != Some(e) || k.get_mut(i).map(|v| k_val(v)).as_ref() != Some(&e.val) {
                bail!(cx, "lookup", "argument {i} of {p:?} is {:?}, expected {e:?}", k[i]);
            }
        }
        for name in m.entries.iter().filter_map(|e| e.name.as_deref()) {
            let e = m.entries.iter().rfind(|e| e.name.as_deref() == Some(name)).unwrap();
            if k_val(&k[name]) != e.val || k.entry_mut(name).map(|e| k_entry(e)).as_ref() != Some(e) || k.get_mut(name).map(|v| k_val(v)).as_ref() != Some(&e.val) {
                bail!(cx, "lookup", "property {name:?} of {p:?} is {:?}, expected {e:?}", k[name]);
            }
        }
        let k = k_ref(&st.k, &p);
        let args: Vec<&MEntry> = m.entries.iter().filter(|e| e.name.is_none()).collect();
        for i in 0..=args.len() {
            let want = args.get(i).map(|e| (*e).clone());
            if k.entry(i).map(k_entry) != want || k.get(i).map(k_val) != want.map(|e| e.val) {
                bail!(cx, "lookup", "argument {i} of {p:?} is {:?}, expected {:?}", k.entry(i), args.get(i));
            }
        }
        for name in m.entries.iter().filter_map(|e| e.name.as_deref()).chain(["no such key"]) {
            let want = m.entries.iter().rfind(|e| e.name.as_deref() == Some(name));
            if k.entry(name).map(k_entry).as_ref() != want || k.get(name).map(k_val) != want.map(|e| e.val.clone()) {
                bail!(cx, "lookup", "property {name:?} of {p:?} is {:?}, expected {want:?}", k.entry(name));
            }
        }
        if k.len() != m.entries.len() || k.is_empty() != m.entries.is_empty() || k.iter().count() != m.entries.len() {
            bail!(cx, "lookup", "{p:?} has {} entries, expected {}", k.len(), m.entries.len());
        }
        if k.iter_children().count() != m.kids.as_ref().map_or(0, |k| k.len()) {
            bail!(cx, "lookup", "{p:?}: iter_children gives {}", k.iter_children().count());
        }
    }
}

/// Another value that is easily taken for this one.
fn twin(v: &Val) -> Val {
    let f = |x: f64| Val::Float(fbits(x));
    match v {
        Val::Float(b) => match f64::from_bits(*b) {
            x if x.is_nan() => f(0.0),
            x if x.is_infinite() => f(f64::MAX.copysign(x)),
            x if x.abs() == f64::MAX => f(f64::INFINITY.copysign(x)),
            x if x == 0.0 => f(if x.is_sign_negative() { f64::NAN } else { -0.0 }),
            x if x.fract() == 0.0 && x.abs() < 1e15 => Val::Int((x as i64).to_string()),
            x => f(-x),
        },
        Val::Int(i) if i.len() < 16 => f(i.parse().unwrap_or(0.0)),
        Val::Int(i) => Val::Str(i.clone()),
        Val::Str(s) => match s.parse::<i64>() {
            Ok(i) => Val::Int(i.to_string()),
            _ if s == "true" => Val::Bool(true),
            _ if s == "null" => Val::Null,
            _ if s.chars().any(char::is_lowercase) => Val::Str(s.to_uppercase()),
            _ => Val::Str(format!("{s} ")),
        },
        Val::Bool(b) => Val::Str(format!("{b}")),
        Val::Null => Val::Str("null".into()),
    }
}
fn gen_op(r: &mut Rng, f: &Feat, w: &[u32]) -> Op {
    let total: u32 = w.iter().sum();
    let mut x = r.below(total as usize) as u32;
    let mut k = 0;
    while x >= w[k] {
        x -= w[k];
        k += 1;
    }
    let (n, d, e, at) = (r.below(1000) as u32, r.below(1000) as u32, r.below(1000) as u32, r.below(1000) as u32);
    let how = r.below(84) as u8;
    let odd = r.pct(f.exotic);
    match k {
        0 => Op::InsertNode { d, at, node: new_node(r, f, 1), bare: r.pct(50) },
        1 => Op::RemoveNode { n },
        2 => Op::ReplaceNode { n, node: new_node(r, f, 1) },
        3 => Op::MoveNode { n, d, at },
        4 => Op::RetainNodes { d, mask: r.u64() | r.u64() },
        5 => Op::SetNodeName { n, to: name(r, f), how },
        6 => Op::SetNodeTy { n, to: r.pct(75).then(|| name(r, f)), how },
        7 => Op::SetKids {
            n,
            doc: r.pct(60).then(|| {
                let mut g = f.clone();
                (g.max_depth, g.max_nodes, g.bom) = (1, 2, 0);
                closed(sdoc(r, &g, 1))
            }),
            how,
        },
        8 => Op::PushKid { n, node: new_node(r, f, 1) },
        9 => Op::InsertEntry { n, at, entry: new_entry(r, f), how },
        10 => Op::InsertProp { n, key: name(r, f), val: rand_val(r, odd) },
        11 => Op::RemoveEntry { n, e, how },
        12 => Op::ClearEntries { n },
        13 => Op::RetainEntries { n, mask: r.u64() | r.u64() },
        14 => Op::SortEntries { n, by: how },
        15 => Op::SetValue { n, e, to: rand_val(r, odd), how },
        16 => Op::SetEntryName { n, e, to: r.pct(70).then(|| name(r, f)), how },
        17 => Op::SetEntryTy { n, e, to: name(r, f), how },
        18 => Op::Save,
        19 => Op::SaveFails { at: r.below(1 << 20) as u32 },
        20 => Op::CrashReload { how },
        21 => Op::CloneDoc,
        22 => Op::Inspect,
        23 => Op::Autoformat {
            n: r.pct(40).then_some(n),
            indent: r.below(5) as u8,
            level: if r.pct(70) { 0 } else { r.below(4) as u8 },
            no_comments: r.pct(40),
            how,
        },
        24 => Op::ClearFormat { n: r.pct(40).then_some(n), how },
        25 => Op::EnsureV2 { n: r.pct(40).then_some(n) },
        _ => Op::EntryFormat { n, e, how },
    }
}
/// No comment or line continuation that runs to the end of the text.
fn closed(mut d: SDoc) -> SDoc {
    let l = d.gaps.len() - 1;
    if d.gaps[l].contains("//") || d.gaps[l].contains('\\') {
        d.gaps[l].push('\n');
    }
    d
}

/// Does a document in here end in a line continuation that a following LF would extend (`\`, CR)?
fn open_cr(d: &SDoc) -> bool {
    let g = d.gaps.last().unwrap();
    g.ends_with('\r') && g.contains('\\') || d.nodes.iter().any(node_open_cr)
}
fn node_open_cr(n: &SNode) -> bool {
    n.kids.as_ref().is_some_and(|k| open_cr(&k.doc))
}
fn op_open_cr(o: &Op) -> bool {
    match o {
        Op::InsertNode { node: NewNode::Text(s) | NewNode::Line(s, _), .. }
        | Op::ReplaceNode { node: NewNode::Text(s) | NewNode::Line(s, _), .. }
        | Op::PushKid { node: NewNode::Text(s) | NewNode::Line(s, _), .. } => node_open_cr(s),
        Op::SetKids { doc: Some(d), .. } => open_cr(d),
        _ => false,
    }
}

impl Prop for Edit {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        let (f, base) = rand_doc(r);
        // which operations this session uses at all
        let mut w: Vec<u32> = [8u32, 6, 4, 5, 2, 7, 6, 6, 6, 9, 7, 8, 2, 3, 3, 14, 7, 7, 8, 3, 6, 2, 6, 0, 0, 0, 0].to_vec();
        if matches!(self.id, "D05" | "D07" | "D11" | "D13") {
            for (i, x) in [(23, 25), (24, 10), (25, 12), (26, 10)] {
                w[i] = x;
            }
        }
        for x in w[..18].iter_mut() {
            if r.pct(35) {
                *x = 0;
            }
        }
        if self.id == "D07" {
            w[23] = 60;
            if r.pct(40) {
                w[..18].fill(0);
                w[24..].fill(0);
            }
        }
        let most = if r.pct(20) { 40 } else { 12 };
        let n = r.range(1, most);
        let ops = (0..n).map(|_| gen_op(r, &f, &w)).collect();
        Sc { base: closed(base), ops }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        if open_cr(&sc.base) || sc.ops.iter().any(op_open_cr) {
            return cx.count("run without a place for new lines");
        }
        let t = sc.base.to_text();
        let k = match KdlDocument::parse_v2(&t) {
            Ok(k) => k,
            Err(_) => return cx.count("file refused by the parser"),
        };
        let m = m_doc(&sc.base);
        if diff(&m, &k_doc(&k)).is_some() {
            return cx.count("file misread by the parser");
        }
        let s = (self.id == "D04").then(|| sc.base.clone());
        let mut st = St { k, m: m.clone(), s: s.clone(), disk: (t, m, s), edited: false };
        let mut changes = 0;
        let ops = sc.ops.iter().chain(&[Op::Inspect, Op::Save, Op::CrashReload { how: 0 }, Op::Inspect]);
        let mut past = vec![];
        for op in ops {
            self.apply(&mut st, op, cx);
            if self.id == "D11" {
                // what an edit does is not this property's matter
                if cx.out.violation.take().is_some() {
                    return cx.count("session given up: an edit went wrong");
                }
                if let Err(m) = equality(&mut past, &st.k, cx) {
                    return cx.fail("equality", format!("after {op:?}: {m}"));
                }
            } else if self.id == "D13" {
                if cx.out.violation.take().is_some() {
                    return cx.count("session given up: an edit went wrong");
                }
                if diff(&st.m, &k_doc(&st.k)).is_some() {
                    return cx.count("session given up: an edit went wrong");
                }
                if let Err(m) = canonical(&st.k, &st.m, cx) {
                    return cx.fail("canonical", format!("after {op:?}: {m}"));
                }
            } else if !cx.failed() {
                self.invariants(&st, cx);
            }
            if cx.failed() {
                let v = cx.out.violation.as_mut().unwrap();
                v.detail = format!("after {op:?}: {}", v.detail);
                return;
            }
            let h = fnv(format!("{:?}", st.m).as_bytes());
            cx.log(format!("{} -> {h:x} {:x}", op.kind(), fnv(st.k.to_string().as_bytes())));
            cx.sig(fnv(op.kind().as_bytes()) ^ h);
            changes += 1;
        }
        cx.out.nontrivial = changes > 4 && !st.m.is_empty();
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        let n = sc.ops.len();
        let mut step = n / 2;
        while step > 0 {
            for a in (0..n).step_by(step) {
                let mut c = sc.clone();
                c.ops.drain(a..(a + step).min(n));
                out.push(c);
            }
            step /= 2;
        }
        if n == 1 {
            out.push(Sc { ops: vec![], ..sc.clone() });
        }
        for s in shrink_doc(&sc.base) {
            out.push(Sc { base: s, ops: sc.ops.clone() });
        }
        for i in 0..n {
            for o in shrink_op(&sc.ops[i]) {
                let mut c = sc.clone();
                c.ops[i] = o;
                out.push(c);
            }
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 20_000_000, secs: 600.0 }
        } else {
            Budget { runs: 1_000_000, secs: 45.0 }
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one editing session: a generated KDL 2 file is loaded and up to 40 operations (edits, lookups, reformatting where the property is about it, saves, saves onto a full disk, crash and reload) are applied, then it is saved and reloaded; distinct by the sequence of (operation kind, content hash), non-trivial when the session performed operations and ends with a non-empty document"
    }
    fn describe(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["kdl crate built from /repo: parser, document model, printing, formatting"],
            "stub": ["disk: one file, atomically replaced by a successful save"],
            "faults": ["disk full while saving (the n-th byte is refused)", "crash and reload of the last saved version"],
            "oracle": "reference model: an independent tree of names, types, entries, values and children (D03, D05); the file's own text cut into pieces, of which an edit may change only one (D04)",
            "simulated_time": "no clock in this part of the system; steps are operations"
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the editor gives new and moved nodes a line of their own through KdlNodeFormat, as the documentation of the formatting API asks; all other edits use the API alone",
            "a save replaces the file atomically (write to a temporary file, then rename)",
        ]
    }
    fn show(&self, sc: &Sc) -> serde_json::Value {
        serde_json::json!({"file": sc.base.to_text(), "operations": sc.ops.iter().map(|o| format!("{o:?}").chars().take(160).collect::<String>()).collect::<Vec<_>>()})
    }
}
fn shrink_op(o: &Op) -> Vec<Op> {
    let mut out = vec![];
    let simple = NewNode::Built(MNode { ty: None, name: "n".into(), entries: vec![], kids: None });
    let tiny = |v: &Val| -> Vec<Val> {
        match v {
            Val::Str(s) if s.chars().count() > 1 => {
                let c: Vec<char> = s.chars().collect();
                vec![
                    Val::Str(c[..c.len() / 2].iter().collect()),
                    Val::Str(c[c.len() / 2..].iter().collect()),
                    Val::Str(c[1..].iter().collect()),
                ]
            }
            Val::Str(_) => vec![],
            Val::Int(i) if i == "7" => vec![],
            _ => vec![Val::Int("7".into())],
        }
    };
    match o {
        Op::InsertNode { d, at, node, bare } => {
            if !matches!(node, NewNode::Built(m) if m.entries.is_empty() && m.ty.is_none()) {
                out.push(Op::InsertNode { d: *d, at: *at, node: simple, bare: *bare });
            }
            if let NewNode::Text(s) = node {
                for n in shrink_doc(&SDoc { gaps: vec!["".into(), "".into()], nodes: vec![s.clone()] }) {
                    if n.nodes.len() == 1 {
                        out.push(Op::InsertNode { d: *d, at: *at, node: NewNode::Text(n.nodes[0].clone()), bare: *bare });
                    }
                }
            }
        }
        Op::PushKid { n, node } if !matches!(node, NewNode::Built(m) if m.entries.is_empty() && m.ty.is_none()) => {
            out.push(Op::PushKid { n: *n, node: simple })
        }
        Op::ReplaceNode { n, node } if !matches!(node, NewNode::Built(m) if m.entries.is_empty() && m.ty.is_none()) => {
            out.push(Op::ReplaceNode { n: *n, node: simple })
        }
        Op::SetKids { n, doc: Some(d), how } => {
            for s in shrink_doc(d) {
                out.push(Op::SetKids { n: *n, doc: Some(s), how: *how });
            }
        }
        Op::SetValue { n, e, to, how } => {
            for t in tiny(to) {
                out.push(Op::SetValue { n: *n, e: *e, to: t, how: *how });
            }
        }
        Op::InsertProp { n, key, val } => {
            for t in tiny(val) {
                out.push(Op::InsertProp { n: *n, key: key.clone(), val: t });
            }
            if key != "k" {
                out.push(Op::InsertProp { n: *n, key: "k".into(), val: val.clone() });
            }
        }
        Op::InsertEntry { n, at, entry, how } => {
            let m = match entry {
                NewEntry::Text(s) => m_entry(s),
                NewEntry::Built(m) => m.clone(),
            };
            if let NewEntry::Text(_) = entry {
                out.push(Op::InsertEntry { n: *n, at: *at, entry: NewEntry::Built(m.clone()), how: *how });
            }
            let mut alts: Vec<MEntry> = tiny(&m.val).into_iter().map(|v| MEntry { val: v, ..m.clone() }).collect();
            if m.ty.is_some() {
                alts.push(MEntry { ty: None, ..m.clone() });
            }
            if m.name.is_some() {
                alts.push(MEntry { name: None, ..m.clone() });
            }
            for a in alts {
                out.push(Op::InsertEntry { n: *n, at: *at, entry: NewEntry::Built(a), how: *how });
            }
        }
        _ => {}
    }
    out
}
