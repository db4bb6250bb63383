//! S05: what a hand-written file means to a type. An independent writer puts a value down in any of
//! the forms the documentation of `kdl::de` gives it; every reload has to give the value.
use crate::core::*;
use crate::disk::{snippet, Fault};
use crate::doc::*;
use crate::ensure;
use crate::p_serde::judge;
use crate::rng::{fnv, Rng};
use crate::shape::*;
use serde::{Deserialize, Serialize};
use serde_json::Value as Json;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub sh: Sh,
    pub v: Va,
    /// Decides in which form each part is written.
    pub seed: u64,
    /// 0: any form and any notation, 1: any form, plain notation, 2: the plainest of both.
    pub plain: u8,
    /// `#[serde(deny_unknown_fields)]`
    pub deny: bool,
    /// This is on the disk instead.
    pub text: Option<String>,
    /// And that is supposed to mean `v`.
    #[serde(default)]
    pub says: bool,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// A tool loads the file, perhaps formats it, and writes it back.
    Rewrite(u8),
    Crash(Vec<Fault>),
    Read,
    /// A program without a type of its own reads it.
    Json,
}

// ------------------------------------------------------------------ types

fn fields(g: &mut G, depth: u32, node: bool) -> Vec<Field> {
    let mut out = vec![];
    let put = |out: &mut Vec<Field>, name: String, sh: Sh| out.push(Field { name, sh, default: false });
    if node {
        if g.r.pct(35) {
            let k = g.r.below(4);
            for i in 0..k {
                let sh = g.scalar(0);
                put(&mut out, format!("#{i}"), sh);
                if g.r.pct(25) {
                    let sh = g.text();
                    put(&mut out, format!("#{i}#type"), sh);
                }
            }
            // the annotation of an argument no field is for
            if g.r.pct(20) {
                let sh = opt_text(g);
                put(&mut out, format!("#{}#type", k + g.r.below(2)), sh);
            }
            if g.r.pct(45) {
                let nm = if k == 0 && g.r.pct(50) { "#args" } else { "#rest" };
                let mut sh = Sh::Seq(Box::new(g.scalar(0)));
                if g.r.pct(20) {
                    sh = Sh::Opt(Box::new(sh));
                }
                if g.r.pct(20) {
                    sh = Sh::New(g.fresh("N"), Box::new(sh));
                }
                put(&mut out, nm.into(), sh);
            }
        }
        if g.r.pct(35) {
            for _ in 0..g.r.range(1, 3) {
                let (n, sh) = (g.fresh("p"), g.scalar(0));
                put(&mut out, format!("#@{n}"), sh);
                if g.r.pct(30) {
                    let sh = g.text();
                    put(&mut out, format!("#@{n}#type"), sh);
                }
            }
        }
        if g.r.pct(10) {
            let (n, sh) = (g.fresh("q"), opt_text(g));
            put(&mut out, format!("#@{n}#type"), sh);
        }
        for n in ["#name", "#type"] {
            if g.r.pct(15) {
                let sh = if n == "#name" { Sh::Str } else { g.text() };
                put(&mut out, n.into(), sh);
            }
        }
    }
    for _ in 0..g.r.below(5) {
        let (n, sh) = (g.fresh("f"), g.node(depth + 1));
        if node && is_scalar(&sh) && g.r.pct(10) {
            let sh = opt_text(g);
            put(&mut out, format!("#@{n}#type"), sh);
        }
        out.push(Field { name: n, sh, default: !node && g.r.pct(25) });
    }
    // their order in the type is the user's
    for i in (1..out.len()).rev() {
        let j = g.r.below(i + 1);
        out.swap(i, j);
    }
    out
}
fn opt_text(g: &mut G) -> Sh {
    match g.text() {
        i if nullable(&i) => i,
        i => Sh::Opt(Box::new(i)),
    }
}
struct G<'a> {
    r: &'a mut Rng,
    exotic: bool,
    n: u32,
}
impl G<'_> {
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        let n = self.n;
        if self.exotic && self.r.pct(20) {
            return format!("{p}{n}_{}", rand_string(self.r, true));
        }
        format!("{p}{n}")
    }
    fn units(&mut self) -> Sh {
        let n = self.r.range(1, 4);
        Sh::Enum(self.fresh("E"), (0..n).map(|_| (self.fresh("V"), Var::Unit)).collect())
    }
    /// What a name or a type annotation can be read as.
    fn text(&mut self) -> Sh {
        match self.r.below(8) {
            0 => self.units(),
            1 => match self.text() {
                i if nullable(&i) => i,
                i => Sh::New(self.fresh("N"), Box::new(i)),
            },
            2 => match self.text() {
                i if nullable(&i) => i,
                i => Sh::Opt(Box::new(i)),
            },
            _ => Sh::Str,
        }
    }
    fn scalar(&mut self, depth: u32) -> Sh {
        match self.r.below(if depth > 2 { 13 } else { 17 }) {
            0 | 1 => Sh::Bool,
            2 | 3 => Sh::I([1, 2, 4, 8][self.r.below(4)]),
            4 | 5 => Sh::U([1, 2, 4, 8][self.r.below(4)]),
            6 => Sh::F32,
            7 => Sh::F64,
            8 => Sh::Char,
            9..=11 => Sh::Str,
            12 => self.units(),
            13 => match self.r.below(2) {
                0 => Sh::Unit,
                _ => Sh::UnitStruct(self.fresh("U")),
            },
            14 => Sh::New(self.fresh("N"), Box::new(self.scalar(depth + 1))),
            _ => match self.scalar(depth + 1) {
                i if nullable(&i) => i,
                i => Sh::Opt(Box::new(i)),
            },
        }
    }
    fn node(&mut self, depth: u32) -> Sh {
        let k = if depth > 4 { 0 } else { self.r.below(100) };
        match k {
            0..=34 => self.scalar(0),
            35..=42 => match self.node(depth + 1) {
                i if nullable(&i) => i,
                i => Sh::Opt(Box::new(i)),
            },
            43..=48 => Sh::New(self.fresh("N"), Box::new(self.node(depth + 1))),
            49..=60 => Sh::Seq(Box::new(self.node(depth + 1))),
            61..=66 => self.tuple(depth),
            67..=75 => self.map(depth),
            76..=90 => {
                let f = fields(self, depth, true);
                Sh::Struct(self.fresh("S"), f)
            }
            _ => self.choice(depth),
        }
    }
    fn tuple(&mut self, depth: u32) -> Sh {
        let is = (0..self.r.below(5)).map(|_| self.node(depth + 1)).collect();
        if self.r.pct(50) { Sh::Tup(is) } else { Sh::TupS(self.fresh("T"), is) }
    }
    fn map(&mut self, depth: u32) -> Sh {
        let key = match self.r.below(10) {
            0..=6 => Key::Str,
            7 => Key::Char,
            _ => Key::Variant((0..self.r.range(1, 5)).map(|_| self.fresh("K")).collect()),
        };
        Sh::Map(key, Box::new(self.node(depth + 1)))
    }
    fn choice(&mut self, depth: u32) -> Sh {
        let n = self.r.range(1, 4);
        let vs = (0..n)
            .map(|_| {
                let v = match self.r.below(4) {
                    0 => Var::Unit,
                    1 => Var::New(self.node(depth + 1)),
                    2 => Var::Tup((0..[0, 2, 3][self.r.below(3)]).map(|_| self.node(depth + 1)).collect()),
                    _ => Var::Struct(fields(self, depth, false)),
                };
                (self.fresh("V"), v)
            })
            .collect();
        Sh::Enum(self.fresh("E"), vs)
    }
    fn top(&mut self) -> Sh {
        match self.r.below(20) {
            0..=10 => {
                let f = fields(self, 0, false);
                Sh::Struct(self.fresh("S"), f)
            }
            11..=13 => self.map(0),
            14 => Sh::Seq(Box::new(self.node(1))),
            15 => self.tuple(0),
            16 | 17 => self.choice(0),
            18 => Sh::New(self.fresh("N"), Box::new(self.top())),
            _ => match self.top() {
                i if nullable(&i) => i,
                i => Sh::Opt(Box::new(i)),
            },
        }
    }
}

// ------------------------------------------------------------------ the writer

/// Can it stand as an argument or the value of a property?
fn is_scalar(sh: &Sh) -> bool {
    match sh {
        Sh::Opt(i) | Sh::New(_, i) => is_scalar(i),
        Sh::Enum(_, vs) => vs.iter().all(|v| v.1 == Var::Unit),
        Sh::Seq(_) | Sh::Tup(_) | Sh::TupS(..) | Sh::Map(..) | Sh::Struct(..) => false,
        _ => true,
    }
}
/// Those of a list or of a tuple.
fn elems(sh: &Sh, n: usize) -> Vec<Sh> {
    match sh {
        Sh::Seq(i) => vec![(**i).clone(); n],
        Sh::Tup(is) | Sh::TupS(_, is) => is.clone(),
        _ => panic!("[harness] elements of {sh:?}"),
    }
}
struct W {
    r: Rng,
    seed: u64,
    plain: bool,
    deny: bool,
    forms: Vec<&'static str>,
}
fn arg(val: Val) -> MEntry {
    MEntry { name: None, ty: None, val }
}
impl W {
    fn pct(&mut self, p: u32) -> bool {
        self.r.pct(p) && !self.plain
    }
    fn form(&mut self, f: &'static str) {
        self.forms.push(f);
    }
    fn val(&mut self, sh: &Sh, v: &Va) -> Val {
        match (sh, v) {
            (Sh::Unit | Sh::UnitStruct(_), _) | (Sh::Opt(_), Va::None) => Val::Null,
            (Sh::Opt(i), Va::Some(x)) => self.val(i, x),
            (Sh::New(_, i), x) => self.val(i, x),
            (_, Va::Bool(b)) => Val::Bool(*b),
            (_, Va::Int(i)) => Val::Int(i.clone()),
            (_, Va::Float(b)) => {
                let x = f64::from_bits(*b);
                if x.fract() == 0.0 && x.abs() < 9e15 && (x != 0.0 || x.is_sign_positive()) && self.pct(30) {
                    self.form("form: whole number for a float");
                    return Val::Int((x as i64).to_string());
                }
                Val::Float(*b)
            }
            (_, Va::Char(c)) => Val::Str(c.to_string()),
            (_, Va::Str(s)) => Val::Str(s.clone()),
            (Sh::Enum(_, vs), Va::Var(k, _)) => Val::Str(vs[*k].0.clone()),
            z => panic!("[harness] {z:?}"),
        }
    }
    fn ty(&mut self) -> Option<String> {
        self.pct(12).then(|| rand_string(&mut self.r, true))
    }
    fn arg(&mut self, sh: &Sh, v: &Va) -> MEntry {
        MEntry { name: None, ty: self.ty(), val: self.val(sh, v) }
    }
    /// The name an element whose name is free goes by.
    fn free_name(&mut self, sh: &Sh, v: &Va) -> String {
        match (sh, v) {
            (Sh::New(_, i), x) => return self.free_name(i, x),
            (Sh::Opt(i), Va::Some(x)) => return self.free_name(i, x),
            (Sh::Struct(_, fs), Va::List(xs)) => {
                if let Some((_, Va::Str(s))) = fs.iter().zip(xs).find(|(f, _)| f.name == "#name") {
                    self.form("form: name chosen by #name");
                    return s.clone();
                }
            }
            _ => {}
        }
        if self.pct(25) { rand_string(&mut self.r, true) } else { "-".into() }
    }
    /// The nodes `v` may be, given a name of its own.
    fn nodes(&mut self, sh: &Sh, v: &mut Va, name: &str) -> Vec<MNode> {
        // the form does not depend on what was written before (so that less can be written)
        let own = Rng::new(self.seed ^ fnv(name.as_bytes()));
        let before = std::mem::replace(&mut self.r, own);
        let n = self.nodes_of(sh, v, name);
        self.r = before;
        n
    }
    fn nodes_of(&mut self, sh: &Sh, v: &mut Va, name: &str) -> Vec<MNode> {
        match (sh, &mut *v) {
            (Sh::New(_, i), x) => return self.nodes_of(i, x, name),
            (Sh::Opt(i), Va::Some(x)) if matches!(**i, Sh::Seq(_) | Sh::Tup(_) | Sh::TupS(..) | Sh::New(..)) => {
                let n = self.nodes_of(i, x, name);
                if n.len() > 1 {
                    return n;
                }
                // one node must not look like nothing
                return vec![self.one(sh, v, name, false)];
            }
            (Sh::Seq(_) | Sh::Tup(_) | Sh::TupS(..), Va::List(xs)) if xs.len() > 1 && self.pct(35) => {
                self.form("form: repeated nodes");
                let is = elems(sh, xs.len());
                return is.iter().zip(xs).map(|(i, x)| self.one(i, x, name, false)).collect();
            }
            _ => {}
        }
        vec![self.one(sh, v, name, false)]
    }
    fn list(&mut self, n: &mut MNode, is: &[Sh], xs: &mut [Va], solid: bool) {
        if xs.is_empty() {
            if solid || self.pct(40) {
                n.kids = Some(vec![]);
            }
            self.form("form: nothing for an empty list");
            return;
        }
        let args = is.iter().all(is_scalar);
        // one null argument is a null
        let null = solid && xs.len() == 1;
        if args && !null && (self.plain || self.r.pct(60)) {
            self.form("form: list as arguments");
            n.entries = is.iter().zip(xs).map(|(i, x)| self.arg(i, x)).collect();
        } else {
            self.form("form: list as children");
            let kids = is
                .iter()
                .zip(xs)
                .map(|(i, x)| {
                    let nm = self.free_name(i, x);
                    self.one(i, x, &nm, false)
                })
                .collect();
            n.kids = Some(kids);
        }
    }
    /// A single node; `solid`: not one that means nothing.
    fn one(&mut self, sh: &Sh, v: &mut Va, name: &str, solid: bool) -> MNode {
        let mut n = MNode { ty: self.ty(), name: name.to_string(), entries: vec![], kids: None };
        match (sh, v) {
            (Sh::New(_, i), x) => return self.one(i, x, name, solid),
            (Sh::Opt(i), Va::Some(x)) => return self.one(i, x, name, true),
            (Sh::Opt(_), Va::None) => {
                if self.pct(50) {
                    self.form("form: empty node for None");
                } else {
                    n.entries.push(arg(Val::Null));
                }
            }
            (Sh::Seq(_) | Sh::Tup(_) | Sh::TupS(..), Va::List(xs)) => self.list(&mut n, &elems(sh, xs.len()), xs, solid),
            (Sh::Map(_, i), Va::Map(m)) => {
                let mut groups = vec![];
                let mut props = vec![];
                for (k, x) in m {
                    if is_scalar(i) && self.pct(50) {
                        self.form("form: map entry as property");
                        props.push(MEntry { name: Some(k.clone()), ty: self.ty(), val: self.val(i, x) });
                    } else {
                        self.form("form: map entry as child");
                        groups.push(self.nodes(i, x, k));
                    }
                }
                self.shuffle(&mut props);
                n.entries = props;
                if !groups.is_empty() || solid && n.entries.is_empty() || self.pct(20) {
                    n.kids = Some(self.weave(groups));
                }
            }
            (Sh::Struct(_, fs), Va::List(xs)) => self.strukt(&mut n, fs, xs, solid),
            (Sh::Enum(_, vs), Va::Var(k, x)) => {
                let (vn, var) = &vs[*k];
                match var {
                    Var::Unit if self.plain || self.r.pct(60) => n.entries.push(arg(Val::Str(vn.clone()))),
                    Var::New(i) if is_scalar(i) && self.pct(35) => {
                        self.form("form: newtype variant as property");
                        n.entries.push(MEntry { name: Some(vn.clone()), ty: self.ty(), val: self.val(i, x) });
                    }
                    _ => n.kids = Some(vec![self.variant(vn, var, x)]),
                }
            }
            // a flag
            (Sh::Bool, Va::Bool(true)) if !solid && self.pct(50) => self.form("form: empty node for true"),
            (Sh::Unit | Sh::UnitStruct(_), _) if self.pct(50) => self.form("form: empty node for unit"),
            (sh, v) => n.entries.push(self.arg(sh, v)),
        }
        n
    }
    /// The node a variant with its content is.
    fn variant(&mut self, vn: &str, var: &Var, x: &mut Va) -> MNode {
        let mut n = MNode { ty: self.ty(), name: vn.to_string(), entries: vec![], kids: None };
        match (var, x) {
            (Var::Unit, _) => self.form("form: unit variant as node"),
            (Var::New(i), x) => return self.one(i, x, vn, false),
            (Var::Tup(is), Va::List(xs)) => self.list(&mut n, is, xs, false),
            (Var::Struct(fs), Va::List(xs)) => {
                let (props, kids) = self.plain_fields(fs, xs, false);
                n.entries = props;
                if !kids.is_empty() {
                    n.kids = Some(kids);
                }
            }
            z => panic!("[harness] {z:?}"),
        }
        n
    }
    /// A type annotation as a field wants it.
    fn ty_for(&mut self, fs: &[Field], xs: &[Va], field: &str) -> Option<String> {
        match fs.iter().position(|f| f.name == field) {
            Some(i) => match self.val(&fs[i].sh, &xs[i]) {
                Val::Str(s) => {
                    self.form("form: type annotation read");
                    Some(s)
                }
                _ => None,
            },
            None => self.ty(),
        }
    }
    fn strukt(&mut self, n: &mut MNode, fs: &[Field], xs: &mut [Va], solid: bool) {
        let at = |f: &str| fs.iter().position(|x| x.name == f);
        if let Some(i) = at("#name") {
            xs[i] = Va::Str(n.name.clone());
        }
        n.ty = self.ty_for(fs, xs, "#type");
        // arguments
        let mut args = vec![];
        let mut missing = false;
        for k in 0.. {
            let Some(i) = at(&format!("#{k}")) else { break };
            let ty = self.ty_for(fs, xs, &format!("#{k}#type"));
            let e = MEntry { name: None, ty, val: self.val(&fs[i].sh, &xs[i]) };
            args.push((e, none(&fs[i].sh, &xs[i])));
        }
        let rest = at("#rest").or(at("#args"));
        match rest {
            Some(i) => {
                let mut sh = &fs[i].sh;
                let mut v = &mut xs[i];
                loop {
                    match (sh, v) {
                        (Sh::New(_, i), x) => (sh, v) = (i, x),
                        (Sh::Opt(_), x) if *x == Va::Some(Box::new(Va::List(vec![]))) => {
                            // no arguments: None
                            *x = Va::None;
                            break;
                        }
                        (Sh::Opt(i), Va::Some(x)) => (sh, v) = (i, &mut **x),
                        (Sh::Opt(_), _) => break,
                        (Sh::Seq(i), Va::List(ys)) => {
                            for y in ys {
                                args.push((self.arg(i, y), false));
                            }
                            break;
                        }
                        z => panic!("[harness] {z:?}"),
                    }
                }
            }
            None if self.pct(15) => {
                self.form("form: arguments nobody wants");
                for _ in 0..self.r.range(1, 2) {
                    args.push((MEntry { name: None, ty: self.ty(), val: rand_val(&mut self.r, true) }, false));
                }
            }
            None => {}
        }
        for k in 0.. {
            let Some(i) = at(&format!("#{k}#type")).filter(|_| at(&format!("#{k}")).is_none()) else {
                if k > 6 {
                    break;
                }
                continue;
            };
            match args.get_mut(k) {
                Some(a) => a.0.ty = self.ty_for(fs, xs, &format!("#{k}#type")),
                None => xs[i] = Va::None,
            }
        }
        while args.last().is_some_and(|a| a.1 && a.0.ty.is_none()) && self.pct(50) {
            args.pop();
            missing = true;
        }
        if missing {
            self.form("form: trailing argument left out");
        }
        // properties
        let mut props = vec![];
        for (i, f) in fs.iter().enumerate() {
            let Some(p) = f.name.strip_prefix("#@") else { continue };
            if p.ends_with("#type") {
                continue;
            }
            let ty = self.ty_for(fs, xs, &format!("#@{p}#type"));
            if none(&f.sh, &xs[i]) && ty.is_none() && self.pct(50) {
                self.form("form: property left out");
                continue;
            }
            props.push(MEntry { name: Some(p.to_string()), ty, val: self.val(&f.sh, &xs[i]) });
        }
        let (mut more, kids) = self.plain_fields(fs, xs, true);
        for (i, f) in fs.iter().enumerate() {
            let Some(p) = f.name.strip_prefix("#@").and_then(|p| p.strip_suffix("#type")) else { continue };
            if at(&format!("#@{p}")).is_some() {
                continue;
            }
            if at(p).is_none() && self.pct(70) {
                // (nobody reads the property itself)
                self.form("form: only the annotation of a property read");
                more.push(MEntry { name: Some(p.to_string()), ty: None, val: rand_val(&mut self.r, true) });
            }
            match more.iter_mut().find(|e| e.name.as_deref() == Some(p)) {
                Some(e) => e.ty = self.ty_for(fs, xs, &f.name),
                None => xs[i] = Va::None,
            }
        }
        props.extend(more);
        self.shuffle(&mut props);
        // one that is given again replaces the earlier one
        if !props.is_empty() && self.pct(10) {
            self.form("form: property given twice");
            let early = MEntry { name: props[0].name.clone(), ty: self.ty(), val: rand_val(&mut self.r, true) };
            props.insert(0, early);
        }
        // arguments keep their order, and so do properties
        let (mut a, mut p) = (args.into_iter().map(|a| a.0).peekable(), props.into_iter().peekable());
        while a.peek().is_some() || p.peek().is_some() {
            let first = p.peek().is_none() || a.peek().is_some() && (self.plain || self.r.pct(60));
            n.entries.extend(if first { a.next() } else { p.next() });
        }
        let null = n.entries.len() == 1 && n.entries[0].name.is_none() && n.entries[0].val == Val::Null;
        if !kids.is_empty() || solid && (null || n.entries.is_empty()) || self.pct(15) {
            n.kids = Some(kids);
        }
    }
    /// Fields without a special name: properties or children. `known`: the reader knows the fields.
    fn plain_fields(&mut self, fs: &[Field], xs: &mut [Va], known: bool) -> (Vec<MEntry>, Vec<MNode>) {
        let mut props = vec![];
        let mut groups = vec![];
        for (f, x) in fs.iter().zip(xs) {
            if f.name.starts_with('#') {
                continue;
            }
            let absent = none(&f.sh, x) || known && falsy(&f.sh, x) || f.default && *x == default(&f.sh);
            if absent && self.pct(50) {
                self.form("form: field left out");
            } else if is_scalar(&f.sh) && self.pct(45) {
                self.form("form: field as property");
                props.push(MEntry { name: Some(f.name.clone()), ty: self.ty(), val: self.val(&f.sh, x) });
            } else {
                groups.push(self.nodes(&f.sh, x, &f.name));
            }
        }
        if !self.deny && self.pct(15) {
            self.form("form: fields nobody wants");
            if self.r.pct(50) {
                props.push(MEntry { name: Some("zz".into()), ty: self.ty(), val: rand_val(&mut self.r, true) });
            } else {
                groups.push(m_doc(&rand_doc(&mut self.r).1).into_iter().map(|n| MNode { name: "zz".into(), ..n }).collect());
            }
        }
        self.shuffle(&mut props);
        let kids = self.weave(groups);
        (props, kids)
    }
    fn shuffle<T>(&mut self, xs: &mut [T]) {
        if self.plain {
            return;
        }
        for i in (1..xs.len()).rev() {
            let j = self.r.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// In any order, each group in its own.
    fn weave(&mut self, groups: Vec<Vec<MNode>>) -> Vec<MNode> {
        if self.plain {
            return groups.into_iter().flatten().collect();
        }
        let mut gs: Vec<_> = groups.into_iter().map(std::collections::VecDeque::from).collect();
        let mut out = vec![];
        loop {
            gs.retain(|g| !g.is_empty());
            if gs.is_empty() {
                return out;
            }
            let i = self.r.below(gs.len());
            out.extend(gs[i].pop_front());
            // usually together
            while self.r.pct(70) && !gs[i].is_empty() {
                out.extend(gs[i].pop_front());
            }
        }
    }
    fn top(&mut self, sh: &Sh, v: &mut Va) -> MDoc {
        match (sh, &mut *v) {
            (Sh::New(_, i), x) => self.top(i, x),
            (Sh::Opt(i), Va::Some(x)) => {
                let d = self.top(i, x);
                if d.is_empty() {
                    *v = Va::None;
                }
                d
            }
            (Sh::Opt(_), _) => vec![],
            (Sh::Struct(_, fs), Va::List(xs)) => {
                // no properties at this level: everything is a node
                let mut groups = vec![];
                for (f, x) in fs.iter().zip(xs) {
                    if (none(&f.sh, x) || f.default && *x == default(&f.sh)) && self.pct(50) {
                        self.form("form: field left out");
                    } else {
                        groups.push(self.nodes(&f.sh, x, &f.name));
                    }
                }
                if !self.deny && self.pct(15) {
                    groups.push(m_doc(&rand_doc(&mut self.r).1).into_iter().map(|n| MNode { name: "zz".into(), ..n }).collect());
                }
                self.weave(groups)
            }
            (Sh::Map(_, i), Va::Map(m)) => {
                let groups = m.iter_mut().map(|(k, x)| self.nodes(i, x, k)).collect();
                self.weave(groups)
            }
            (Sh::Seq(_) | Sh::Tup(_) | Sh::TupS(..), Va::List(xs)) => {
                let is = elems(sh, xs.len());
                is.iter()
                    .zip(xs)
                    .map(|(i, x)| {
                        let nm = self.free_name(i, x);
                        self.one(i, x, &nm, false)
                    })
                    .collect()
            }
            (Sh::Enum(_, vs), Va::Var(k, x)) => {
                let (vn, var) = &vs[*k];
                match (var, &mut **x) {
                    (Var::Tup(is), Va::List(xs)) if xs.len() > 1 && self.pct(50) => {
                        self.form("form: tuple variant as repeated nodes");
                        return is.iter().zip(xs).map(|(i, x)| self.one(i, x, vn, false)).collect();
                    }
                    _ => {}
                }
                vec![self.variant(vn, var, x)]
            }
            z => panic!("[harness] {z:?}"),
        }
    }
}
fn none(sh: &Sh, v: &Va) -> bool {
    match (sh, v) {
        (Sh::Opt(_), Va::None) => true,
        // (a newtype around an option is no option to derive)
        _ => false,
    }
}
/// Means the same when it is not there, to a reader that knows it might be.
fn falsy(sh: &Sh, v: &Va) -> bool {
    match (sh, v) {
        (Sh::Bool, Va::Bool(false)) | (Sh::Unit | Sh::UnitStruct(_), _) | (Sh::Opt(_), Va::None) => true,
        (Sh::New(_, i), x) => falsy(i, x),
        _ => false,
    }
}

// ------------------------------------------------------------------ the untyped reading

/// What a program without types of its own sees, in the order in which it sees it.
#[derive(Clone, PartialEq, Debug)]
pub enum Un {
    Null,
    Bool(bool),
    Int(i128),
    Float(u64),
    Str(String),
    List(Vec<Un>),
    Map(Vec<(String, Un)>),
}
fn loose(u: &Un) -> Un {
    match u {
        Un::List(l) => Un::List(l.iter().map(loose).collect()),
        Un::Map(m) => {
            let mut m: Vec<_> = m.iter().map(|(k, v)| (k.clone(), loose(v))).collect();
            m.sort_by(|a, b| a.0.cmp(&b.0));
            Un::Map(m)
        }
        u => u.clone(),
    }
}
fn given_again(d: &[MNode]) -> bool {
    d.iter().any(|n| {
        let again = |i: usize, e: &MEntry| e.name.is_some() && n.entries[i + 1..].iter().any(|f| f.name == e.name);
        n.entries.iter().enumerate().any(|(i, e)| again(i, e)) || n.kids.as_deref().is_some_and(given_again)
    })
}
struct UnVisitor;
impl<'de> serde::de::Visitor<'de> for UnVisitor {
    type Value = Un;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_unit<E>(self) -> Result<Un, E> {
        Ok(Un::Null)
    }
    fn visit_none<E>(self) -> Result<Un, E> {
        Ok(Un::Null)
    }
    fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Un, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<Un, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_bool<E>(self, b: bool) -> Result<Un, E> {
        Ok(Un::Bool(b))
    }
    fn visit_i64<E>(self, i: i64) -> Result<Un, E> {
        Ok(Un::Int(i.into()))
    }
    fn visit_u64<E>(self, i: u64) -> Result<Un, E> {
        Ok(Un::Int(i.into()))
    }
    fn visit_i128<E>(self, i: i128) -> Result<Un, E> {
        Ok(Un::Int(i))
    }
    fn visit_f64<E>(self, f: f64) -> Result<Un, E> {
        Ok(Un::Float(f.to_bits()))
    }
    fn visit_str<E>(self, s: &str) -> Result<Un, E> {
        Ok(Un::Str(s.into()))
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Un, A::Error> {
        let mut o = vec![];
        while let Some(x) = a.next_element()? {
            o.push(x);
        }
        Ok(Un::List(o))
    }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Un, A::Error> {
        let mut o = vec![];
        while let Some(x) = a.next_entry()? {
            o.push(x);
        }
        Ok(Un::Map(o))
    }
}
impl<'de> serde::Deserialize<'de> for Un {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Un, D::Error> {
        d.deserialize_any(UnVisitor)
    }
}
fn un_val(v: &Val) -> Option<Un> {
    Some(match v {
        Val::Str(s) => Un::Str(s.clone()),
        Val::Bool(b) => Un::Bool(*b),
        Val::Null => Un::Null,
        Val::Int(i) => Un::Int(i.parse().ok()?),
        Val::Float(b) => Un::Float(*b),
    })
}
/// The mapping documented in `kdl::de`; `None`: it says nothing about some part of it.
fn un_nodes(ns: &[MNode], m: &mut Vec<(String, Un)>) -> Option<()> {
    let mut groups: Vec<(&str, Vec<Un>)> = vec![];
    for n in ns {
        let v = un_node(n)?;
        match groups.iter_mut().find(|g| g.0 == n.name) {
            Some(g) => g.1.push(v),
            None => groups.push((&n.name, vec![v])),
        }
    }
    for (k, mut g) in groups {
        let v = if g.len() == 1 { g.remove(0) } else { Un::List(g) };
        if m.iter().any(|x| x.0 == k) {
            return None;
        }
        m.push((k.to_string(), v));
    }
    Some(())
}
fn un_node(n: &MNode) -> Option<Un> {
    let args: Vec<&MEntry> = n.entries.iter().filter(|e| e.name.is_none()).collect();
    if n.kids.is_none() && args.len() == n.entries.len() {
        return match args.len() {
            0 => Some(Un::Bool(true)),
            1 => un_val(&args[0].val),
            _ => args.iter().map(|a| un_val(&a.val)).collect::<Option<Vec<_>>>().map(Un::List),
        };
    }
    let mut m = vec![];
    for (i, e) in n.entries.iter().enumerate() {
        let again = |k: &String| n.entries[i + 1..].iter().any(|f| f.name.as_ref() == Some(k));
        match &e.name {
            Some(k) if !again(k) => m.push((k.clone(), un_val(&e.val)?)),
            _ => {}
        };
    }
    un_nodes(n.kids.as_deref().unwrap_or(&[]), &mut m)?;
    Some(Un::Map(m))
}

// ------------------------------------------------------------------ runs

/// Properties and children of a map have no common order.
fn sorted(v: &Va) -> Va {
    match v {
        Va::Some(x) => Va::Some(Box::new(sorted(x))),
        Va::List(x) => Va::List(x.iter().map(sorted).collect()),
        Va::Map(x) => {
            let mut x: Vec<_> = x.iter().map(|(k, v)| (k.clone(), sorted(v))).collect();
            x.sort_by(|a, b| a.0.cmp(&b.0));
            Va::Map(x)
        }
        Va::Var(i, x) => Va::Var(*i, Box::new(sorted(x))),
        v => v.clone(),
    }
}
fn made(sc: &Sc) -> (String, Va, Vec<&'static str>) {
    let mut r = Rng::new(sc.seed);
    let mut v = sc.v.clone();
    let (doc, forms) = {
        let mut w = W { r: Rng::new(r.u64()), seed: sc.seed, plain: sc.plain > 1, deny: sc.deny, forms: vec![] };
        let d = w.top(&sc.sh, &mut v);
        (d, w.forms)
    };
    let mut f = Feat::draw(&mut r);
    if sc.plain > 0 {
        f = Feat { nls: vec!["\n"], comments: 0, slashdash: 0, escline: 0, unispace: 0, fancy_str: 0, exotic: 0, semi: 0, bom: 0, tight: 0, ..f };
        r = Rng::new(1);
    }
    let mut text = render(&mut r, &f, &doc, 0).to_text();
    if sc.plain > 0 {
        text = text.lines().filter(|l| !l.trim().is_empty()).map(|l| format!("{l}\n")).collect();
        if m_doc_of(&text).as_ref() != Some(&doc) {
            text = render(&mut Rng::new(1), &f, &doc, 0).to_text();
        }
    }
    (text, v, forms)
}
/// A type, a value of it and a text that says so in any of the documented forms.
pub fn drawn(r: &mut Rng) -> (Sh, Va, String) {
    let exotic = r.pct(60);
    let sh = G { r, exotic, n: 0 }.top();
    let v = Gen::new(r, true).value(&sh);
    let sc = Sc { sh, v, seed: r.u64(), plain: if r.pct(30) { 2 } else { 0 }, deny: false, text: None, says: false, steps: vec![] };
    let (text, v, _) = made(&sc);
    (sc.sh, v, text)
}
fn m_doc_of(t: &str) -> Option<MDoc> {
    kdl::KdlDocument::parse_v2(t).ok().map(|d| k_doc(&d))
}

pub struct Map;
impl Prop for Map {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        "S05"
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        let exotic = r.pct(60);
        let sh = G { r, exotic, n: 0 }.top();
        let v = Gen::new(r, true).value(&sh);
        let text = r.pct(12).then(|| rand_doc(r).1.to_text());
        let mut steps = vec![Step::Read, Step::Json];
        let mut damaged = false;
        for _ in 0..r.below(5) {
            match r.below(6) {
                0 | 1 if !damaged => {
                    steps.push(Step::Rewrite(r.below(3) as u8));
                    steps.push(Step::Read);
                }
                2 => {
                    let n = r.range(1, 3);
                    let faults = (0..n).map(|_| Fault::draw(r, 200, &mut |r| if r.pct(50) { snippet(r) } else { rand_doc(r).1.to_text() })).collect();
                    damaged = true;
                    steps.push(Step::Crash(faults));
                    steps.push(Step::Read);
                }
                3 => steps.push(Step::Read),
                _ => steps.push(Step::Json),
            }
        }
        Sc { sh, v, seed: r.u64(), plain: 0, deny: r.pct(25), text, says: false, steps }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        let (mut text, v, forms) = made(sc);
        let mut want = Some(v);
        if let Some(t) = &sc.text {
            text = t.clone();
            want = sc.says.then(|| sc.v.clone());
        } else {
            forms.iter().for_each(|f| cx.count(f));
        }
        cx.log(format!("on disk: {text:?}"));
        cx.sig(fnv(text.as_bytes()));
        for s in &sc.steps {
            match s {
                Step::Rewrite(how) => {
                    let r = catch(|| {
                        let mut d: kdl::KdlDocument = text.parse().ok()?;
                        match how {
                            1 => d.autoformat(),
                            2 => d.autoformat_no_comments(),
                            _ => {}
                        }
                        Some(d.to_string())
                    });
                    match r {
                        Caught::Ok(Some(t)) => text = t,
                        Caught::Ok(None) => {}
                        Caught::Panic(m) if known_site(&m) => return cx.count("listed finding met"),
                        _ => return cx.fail("panic", format!("rewriting {text:?}")),
                    }
                    cx.count(["probe: loaded and written back", "probe: formatted", "probe: formatted without comments"][*how as usize % 3]);
                    cx.log(format!("rewritten: {text:?}"));
                }
                Step::Crash(faults) => {
                    let b = crate::disk::damage(&text, faults, cx);
                    let t = String::from_utf8_lossy(&b).into_owned();
                    if t != text {
                        want = None;
                    }
                    text = t;
                    cx.log(format!("damaged: {text:?}"));
                }
                Step::Read => {
                    let mut t = Ticker::quiet();
                    t.deny = sc.deny;
                    let r = catch(|| from_str(&sc.sh, &t, &text));
                    match (&r, &want) {
                        (Caught::Ok(Ok(g)), Some(w)) => {
                            ensure!(cx, sorted(g) == sorted(w), "differs", "{text:?} read as {:?} gives {g:?}, it says {w:?}", sc.sh);
                            cx.count("probe: value read");
                            cx.out.nontrivial = true;
                        }
                        (Caught::Ok(Err(e)), Some(w)) => return cx.fail("refused", format!("{text:?} says {w:?}, reading it as {:?} fails: {e}", sc.sh)),
                        (Caught::Ok(Ok(_)), None) => cx.count("probe: other text read as a value"),
                        (Caught::Ok(Err(e)), None) => {
                            cx.count("probe: other text refused");
                            judge(cx, e, &text);
                        }
                        (Caught::Panic(m), _) if known_site(m) => return cx.count("listed finding met"),
                        _ => return cx.fail("panic", format!("reading {text:?}")),
                    }
                    if let Caught::Ok(r) = r {
                        cx.log(format!("read: {r:?}"));
                    }
                }
                Step::Json => {
                    let r = catch(|| {
                        let d: Option<kdl::KdlDocument> = text.parse().ok();
                        (d.map(|d| k_doc(&d)), kdl::de::from_str::<Un>(&text).map_err(|e| e.to_string()))
                    });
                    match r {
                        Caught::Ok((Some(d), r)) => {
                            let mut m = vec![];
                            let want = un_nodes(&d, &mut m).map(|_| Un::Map(m));
                            cx.log(format!("without a type: {r:?}"));
                            if let Some(w) = want {
                                // Where a property stands that is given again is nobody's promise.
                                let same = match &r {
                                    Ok(g) if given_again(&d) => loose(g) == loose(&w),
                                    r => r.as_ref() == Ok(&w),
                                };
                                ensure!(cx, same, "untyped", "{text:?} read without a type gives {r:?}, it says {w:?}");
                                cx.count("probe: read without a type");
                                cx.out.nontrivial = true;
                            } else {
                                cx.count("probe: not in the documented mapping");
                            }
                        }
                        Caught::Ok((None, r)) => ensure!(cx, r.is_err(), "invented", "{text:?} does not load, but reads as {r:?}"),
                        Caught::Panic(m) if known_site(&m) => return cx.count("listed finding met"),
                        _ => return cx.fail("panic", format!("reading {text:?} without a type")),
                    }
                }
            }
            if cx.failed() {
                return;
            }
        }
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        let mut out = vec![];
        for i in 0..sc.steps.len() {
            let mut c = sc.clone();
            c.steps.remove(i);
            out.push(c);
        }
        if sc.text.is_some() {
            return out;
        }
        for p in sc.plain + 1..3 {
            out.push(Sc { plain: p, ..sc.clone() });
        }
        if sc.deny {
            out.push(Sc { deny: false, ..sc.clone() });
        }
        for (sh, v) in less(&sc.sh, &sc.v) {
            // every smaller value may need other forms to show it
            for k in 0..3 {
                out.push(Sc { sh: sh.clone(), v: v.clone(), seed: sc.seed.wrapping_add(k), ..sc.clone() });
            }
        }
        out
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: 20_000_000, secs: 500.0 }
        } else {
            Budget { runs: 500_000, secs: 45.0 }
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one generated user type and value, put down as KDL by an independent writer in any of the documented forms (arguments, properties, children, repeated nodes, flags, left-out fields, annotations, in any order and notation), then reloaded, rewritten, formatted and damaged in turn; distinct by text, non-trivial when the value, or the untyped reading, was compared"
    }
    fn describe(&self) -> Json {
        serde_json::json!({
            "real": ["kdl crate built from /repo: de module, parser, printer, formatter"],
            "stub": ["the user's type: Deserialize driven by a generated shape, as derive would", "the person or program that wrote the file", "disk: block device model holding one file"],
            "faults": ["torn overwrite", "truncation", "zeroed block", "bit flip", "byte changed", "write duplicated", "write lost", "writes swapped", "foreign bytes"],
            "simulated_time": "no clock in this part of the system; steps are reloads, rewrites and crashes"
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "types are driven as serde's derive drives them",
            "a property and a child of one node never share a name (the mapping does not say which wins)",
            "#[serde(default)] only where the reader does not know the fields: whole documents and struct variants (see known findings)",
        ]
    }
    fn show(&self, sc: &Sc) -> Json {
        serde_json::json!({"text": sc.text.clone().unwrap_or_else(|| made(sc).0), "type": sc.sh, "value": sc.v, "steps": sc.steps})
    }
}
/// Smaller types with values, of the same kind.
fn less(sh: &Sh, v: &Va) -> Vec<(Sh, Va)> {
    let mut out = vec![];
    match (sh, v) {
        (Sh::New(n, i), x) => {
            out.push(((**i).clone(), x.clone()));
            out.extend(less(i, x).into_iter().map(|(s, v)| (Sh::New(n.clone(), Box::new(s)), v)));
        }
        (Sh::Opt(i), Va::Some(x)) => {
            out.push(((**i).clone(), (**x).clone()));
            out.extend(less(i, x).into_iter().filter(|(s, _)| !nullable(s)).map(|(s, v)| (Sh::Opt(Box::new(s)), Va::Some(Box::new(v)))));
        }
        (Sh::Seq(i), Va::List(xs)) => {
            for k in 0..xs.len() {
                let mut c = xs.clone();
                c.remove(k);
                out.push((sh.clone(), Va::List(c)));
            }
            if xs.len() == 1 {
                out.extend(less(i, &xs[0]).into_iter().map(|(s, v)| (Sh::Seq(Box::new(s)), Va::List(vec![v]))));
            }
        }
        (Sh::Tup(is) | Sh::TupS(_, is), Va::List(xs)) => {
            for k in 0..xs.len() {
                let (mut a, mut b) = (is.clone(), xs.clone());
                a.remove(k);
                b.remove(k);
                out.push((Sh::Tup(a), Va::List(b)));
                for (s, v) in less(&is[k], &xs[k]) {
                    let (mut a, mut b) = (is.clone(), xs.clone());
                    (a[k], b[k]) = (s, v);
                    out.push((Sh::Tup(a), Va::List(b)));
                }
            }
        }
        (Sh::Map(k, i), Va::Map(m)) => {
            for j in 0..m.len() {
                let mut c = m.clone();
                c.remove(j);
                out.push((sh.clone(), Va::Map(c)));
            }
            if m.len() == 1 {
                out.extend(less(i, &m[0].1).into_iter().map(|(s, v)| (Sh::Map(k.clone(), Box::new(s)), Va::Map(vec![(m[0].0.clone(), v)]))));
            }
        }
        (Sh::Struct(n, fs), Va::List(xs)) => out.extend(less_fields(fs, xs).into_iter().map(|(f, x)| (Sh::Struct(n.clone(), f), Va::List(x)))),
        (Sh::Enum(n, vs), Va::Var(k, x)) => {
            if vs.len() > 1 {
                out.push((Sh::Enum(n.clone(), vec![vs[*k].clone()]), Va::Var(0, x.clone())));
            } else {
                let vn = &vs[0].0;
                let mut put = |v: Var, x: Va| out.push((Sh::Enum(n.clone(), vec![(vn.clone(), v)]), Va::Var(0, Box::new(x))));
                match (&vs[0].1, &**x) {
                    (Var::New(i), x) => less(i, x).into_iter().for_each(|(s, v)| put(Var::New(s), v)),
                    (Var::Struct(f), Va::List(x)) => less_fields(f, x).into_iter().for_each(|(f, x)| put(Var::Struct(f), Va::List(x))),
                    (Var::Tup(i), x) => {
                        for (s, v) in less(&Sh::Tup(i.clone()), x) {
                            match s {
                                Sh::Tup(i) if i.len() != 1 => put(Var::Tup(i), v),
                                _ => {}
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        (Sh::Str, Va::Str(s)) if s != "a" => out.push((Sh::Str, Va::Str("a".into()))),
        (Sh::I(_) | Sh::U(_), Va::Int(i)) if i != "1" => out.push((sh.clone(), Va::Int("1".into()))),
        (Sh::F32 | Sh::F64, Va::Float(b)) if *b != 1f64.to_bits() => out.push((sh.clone(), Va::Float(1f64.to_bits()))),
        _ => {}
    }
    out
}
fn less_fields(fs: &[Field], xs: &[Va]) -> Vec<(Vec<Field>, Vec<Va>)> {
    let mut out = vec![];
    // the argument fields are numbered: only the last of them may go, and not while others follow
    let number = |f: &Field| f.name.strip_prefix('#').and_then(|n| n.split('#').next()).and_then(|n| n.parse::<u32>().ok());
    let last = fs.iter().filter_map(number).max();
    let more = fs.iter().any(|f| f.name == "#rest" || f.name == "#args");
    for k in 0..fs.len() {
        let typed = |k: usize| fs.iter().any(|f| f.name == format!("{}#type", fs[k].name));
        if number(&fs[k]).is_some() && !fs[k].name.ends_with("#type") && (number(&fs[k]) != last || more || typed(k)) || typed(k) {
            continue;
        }
        let (mut a, mut b) = (fs.to_vec(), xs.to_vec());
        a.remove(k);
        b.remove(k);
        out.push((a, b));
    }
    for k in 0..fs.len() {
        if fs[k].name.starts_with('#') {
            continue;
        }
        for (s, v) in less(&fs[k].sh, &xs[k]) {
            let (mut a, mut b) = (fs.to_vec(), xs.to_vec());
            (a[k].sh, b[k]) = (s, v);
            out.push((a, b));
        }
    }
    out
}
