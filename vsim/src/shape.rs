//! User types as data: a shape says what a Rust type looks like to serde, and (de)serialization is
//! driven the way `#[derive]` would drive it, with every callback a place where a fault may strike.
use crate::core::inject_panic;
use crate::doc::{fbits, rand_float, rand_string};
use crate::rng::{mix, Rng};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant, Serializer,
};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sh {
    Unit,
    UnitStruct(String),
    Bool,
    I(u8),
    U(u8),
    F32,
    F64,
    Char,
    Str,
    Opt(Box<Sh>),
    New(String, Box<Sh>),
    Seq(Box<Sh>),
    Tup(Vec<Sh>),
    TupS(String, Vec<Sh>),
    Map(Key, Box<Sh>),
    Struct(String, Vec<Field>),
    Enum(String, Vec<(String, Var)>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Key {
    Str,
    Char,
    /// Unit variants of an enum.
    Variant(Vec<String>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Field {
    pub name: String,
    pub sh: Sh,
    /// `#[serde(default)]`
    pub default: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Var {
    Unit,
    New(Sh),
    Tup(Vec<Sh>),
    Struct(Vec<Field>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Va {
    Unit,
    Bool(bool),
    /// Kept as text: JSON cannot hold every width.
    Int(String),
    Float(u64),
    Char(char),
    Str(String),
    None,
    Some(Box<Va>),
    List(Vec<Va>),
    Map(Vec<(String, Va)>),
    Var(usize, Box<Va>),
}

/// Rust's names are static; those of simulated types live as long as the run.
pub fn name(s: &str) -> &'static str {
    thread_local!(static T: RefCell<std::collections::BTreeMap<String, &'static str>> = const { RefCell::new(std::collections::BTreeMap::new()) });
    T.with(|t| *t.borrow_mut().entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str())))
}
fn names<'a>(it: impl Iterator<Item = &'a String>) -> &'static [&'static str] {
    Box::leak(it.map(|s| name(s)).collect::<Vec<_>>().into_boxed_slice())
}

// ------------------------------------------------------------------ faults

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Strike {
    Error(String),
    Panic,
    /// Not a fault: the type uses the library itself at this point.
    Reenter,
}
/// Counts every callback into the type; one of them may fail.
pub struct Ticker {
    pub at: u32,
    pub strike: Option<Strike>,
    pub ticks: Cell<u32>,
    pub fired: Cell<bool>,
    /// Callbacks after the failed one.
    pub after: Cell<u32>,
    pub seen: Cell<u64>,
    pub reenter: Option<Box<dyn Fn()>>,
    /// The scalar the type is being given, if the last callback gave it one and has not returned.
    pub given: RefCell<Option<crate::doc::Val>>,
    /// `#[serde(deny_unknown_fields)]`
    pub deny: bool,
    /// As the name of a variant.
    pub variant: Cell<bool>,
    /// At which callbacks it was given one.
    pub gifts: RefCell<Vec<u32>>,
}
impl Ticker {
    pub fn new(at: u32, strike: Option<Strike>) -> Self {
        Ticker {
            at,
            strike,
            ticks: Cell::new(0),
            fired: Cell::new(false),
            after: Cell::new(0),
            seen: Cell::new(0),
            reenter: None,
            given: RefCell::new(None),
            deny: false,
            variant: Cell::new(false),
            gifts: RefCell::new(vec![]),
        }
    }
    pub fn quiet() -> Self {
        Ticker::new(0, None)
    }
    fn tick(&self, what: u64) -> Result<(), String> {
        self.seen.set(mix(self.seen.get() ^ what));
        if self.fired.get() {
            self.after.set(self.after.get() + 1);
            return Ok(());
        }
        let t = self.ticks.get();
        self.ticks.set(t + 1);
        if t == self.at {
            match &self.strike {
                None => {}
                Some(Strike::Error(m)) => {
                    self.fired.set(true);
                    return Err(m.clone());
                }
                Some(Strike::Panic) => {
                    self.fired.set(true);
                    inject_panic();
                }
                Some(Strike::Reenter) => {
                    if let Some(f) = &self.reenter {
                        f();
                    }
                }
            }
        }
        Ok(())
    }
    fn ser<E: ser::Error>(&self, what: u64) -> Result<(), E> {
        self.tick(what).map_err(E::custom)
    }
    fn de<E: de::Error>(&self, what: u64) -> Result<(), E> {
        self.variant.set(false);
        *self.given.borrow_mut() = None;
        self.tick(what).map_err(E::custom)
    }
    fn give<E: de::Error>(&self, what: u64, v: crate::doc::Val) -> Result<(), E> {
        // (before the tick: it may fail)
        self.variant.set(what == 32);
        *self.given.borrow_mut() = Some(v);
        self.gifts.borrow_mut().push(self.ticks.get());
        self.tick(what).map_err(E::custom)
    }
}

// ------------------------------------------------------------------ serializing

#[derive(Clone, Copy)]
pub struct Ser<'a>(pub &'a Sh, pub &'a Va, pub &'a Ticker);

impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let Ser(sh, v, t) = *self;
        t.ser(1)?;
        let sub = |sh, v| Ser(sh, v, t);
        match (sh, v) {
            (Sh::Unit, _) => s.serialize_unit(),
            (Sh::UnitStruct(n), _) => s.serialize_unit_struct(name(n)),
            (Sh::Bool, Va::Bool(b)) => s.serialize_bool(*b),
            (Sh::I(w), Va::Int(i)) => {
                let i: i64 = i.parse().expect("[harness] int");
                match w {
                    1 => s.serialize_i8(i as i8),
                    2 => s.serialize_i16(i as i16),
                    4 => s.serialize_i32(i as i32),
                    _ => s.serialize_i64(i),
                }
            }
            (Sh::U(w), Va::Int(i)) => {
                let i: u64 = i.parse().expect("[harness] int");
                match w {
                    1 => s.serialize_u8(i as u8),
                    2 => s.serialize_u16(i as u16),
                    4 => s.serialize_u32(i as u32),
                    _ => s.serialize_u64(i),
                }
            }
            (Sh::F32, Va::Float(b)) => s.serialize_f32(f64::from_bits(*b) as f32),
            (Sh::F64, Va::Float(b)) => s.serialize_f64(f64::from_bits(*b)),
            (Sh::Char, Va::Char(c)) => s.serialize_char(*c),
            (Sh::Str, Va::Str(x)) => s.serialize_str(x),
            (Sh::Opt(_), Va::None) => s.serialize_none(),
            (Sh::Opt(i), Va::Some(x)) => s.serialize_some(&sub(i, x)),
            (Sh::New(n, i), x) => s.serialize_newtype_struct(name(n), &sub(i, x)),
            (Sh::Seq(i), Va::List(xs)) => {
                let mut q = s.serialize_seq(Some(xs.len()))?;
                for x in xs {
                    t.ser(2)?;
                    q.serialize_element(&sub(i, x))?;
                }
                t.ser(3)?;
                q.end()
            }
            (Sh::Tup(is), Va::List(xs)) => {
                let mut q = s.serialize_tuple(xs.len())?;
                for (i, x) in is.iter().zip(xs) {
                    t.ser(2)?;
                    q.serialize_element(&sub(i, x))?;
                }
                t.ser(3)?;
                q.end()
            }
            (Sh::TupS(n, is), Va::List(xs)) => {
                let mut q = s.serialize_tuple_struct(name(n), xs.len())?;
                for (i, x) in is.iter().zip(xs) {
                    t.ser(2)?;
                    q.serialize_field(&sub(i, x))?;
                }
                t.ser(3)?;
                q.end()
            }
            (Sh::Map(k, i), Va::Map(xs)) => {
                let mut q = s.serialize_map(Some(xs.len()))?;
                for (n, (kk, x)) in xs.iter().enumerate() {
                    t.ser(2)?;
                    // Both ways a user may write an entry.
                    if n % 2 == 0 {
                        q.serialize_entry(&SerKey(k, kk, t), &sub(i, x))?;
                    } else {
                        q.serialize_key(&SerKey(k, kk, t))?;
                        t.ser(4)?;
                        q.serialize_value(&sub(i, x))?;
                    }
                }
                t.ser(3)?;
                q.end()
            }
            (Sh::Struct(n, fs), Va::List(xs)) => {
                let mut q = s.serialize_struct(name(n), fs.len())?;
                for (f, x) in fs.iter().zip(xs) {
                    t.ser(2)?;
                    q.serialize_field(name(&f.name), &sub(&f.sh, x))?;
                }
                t.ser(3)?;
                q.end()
            }
            (Sh::Enum(n, vs), Va::Var(k, x)) => {
                let (vn, var) = &vs[*k];
                match (var, &**x) {
                    (Var::Unit, _) => s.serialize_unit_variant(name(n), *k as u32, name(vn)),
                    (Var::New(i), x) => s.serialize_newtype_variant(name(n), *k as u32, name(vn), &sub(i, x)),
                    (Var::Tup(is), Va::List(xs)) => {
                        let mut q = s.serialize_tuple_variant(name(n), *k as u32, name(vn), xs.len())?;
                        for (i, x) in is.iter().zip(xs) {
                            t.ser(2)?;
                            q.serialize_field(&sub(i, x))?;
                        }
                        t.ser(3)?;
                        q.end()
                    }
                    (Var::Struct(fs), Va::List(xs)) => {
                        let mut q = s.serialize_struct_variant(name(n), *k as u32, name(vn), xs.len())?;
                        for (f, x) in fs.iter().zip(xs) {
                            t.ser(2)?;
                            q.serialize_field(name(&f.name), &sub(&f.sh, x))?;
                        }
                        t.ser(3)?;
                        q.end()
                    }
                    z => panic!("[harness] {z:?}"),
                }
            }
            z => panic!("[harness] {z:?}"),
        }
    }
}
struct SerKey<'a>(&'a Key, &'a String, &'a Ticker);
impl Serialize for SerKey<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.2.ser(5)?;
        match self.0 {
            Key::Str => s.serialize_str(self.1),
            Key::Char => s.serialize_char(self.1.chars().next().expect("[harness] char key")),
            Key::Variant(vs) => {
                let i = vs.iter().position(|v| v == self.1).expect("[harness] variant key");
                s.serialize_unit_variant("K", i as u32, name(self.1))
            }
        }
    }
}

// ------------------------------------------------------------------ deserializing

#[derive(Clone, Copy)]
pub struct De<'a>(pub &'a Sh, pub &'a Ticker);

thread_local!(static ROOT: RefCell<Option<(*const Sh, *const Ticker)>> = const { RefCell::new(None) });
/// `from_str` for a shape.
pub fn from_str(sh: &Sh, t: &Ticker, text: &str) -> Result<Va, kdl::de::Error> {
    struct Root(Va);
    impl<'de> Deserialize<'de> for Root {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let (sh, t) = ROOT.with(|r| r.borrow_mut().take()).expect("[harness] root");
            unsafe { De(&*sh, &*t) }.deserialize(d).map(Root)
        }
    }
    ROOT.with(|r| *r.borrow_mut() = Some((sh, t)));
    kdl::de::from_str::<Root>(text).map(|r| r.0)
}

impl<'de> DeserializeSeed<'de> for De<'_> {
    type Value = Va;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Va, D::Error> {
        let De(sh, t) = self;
        t.de(11)?;
        let v = match sh {
            Sh::Unit => d.deserialize_unit(self),
            Sh::UnitStruct(n) => d.deserialize_unit_struct(name(n), self),
            Sh::Bool => d.deserialize_bool(self),
            Sh::I(1) => d.deserialize_i8(self),
            Sh::I(2) => d.deserialize_i16(self),
            Sh::I(4) => d.deserialize_i32(self),
            Sh::I(_) => d.deserialize_i64(self),
            Sh::U(1) => d.deserialize_u8(self),
            Sh::U(2) => d.deserialize_u16(self),
            Sh::U(4) => d.deserialize_u32(self),
            Sh::U(_) => d.deserialize_u64(self),
            Sh::F32 => d.deserialize_f32(self),
            Sh::F64 => d.deserialize_f64(self),
            Sh::Char => d.deserialize_char(self),
            Sh::Str => d.deserialize_string(self),
            Sh::Opt(_) => d.deserialize_option(self),
            Sh::New(n, _) => d.deserialize_newtype_struct(name(n), self),
            Sh::Seq(_) => d.deserialize_seq(self),
            Sh::Tup(i) => d.deserialize_tuple(i.len(), self),
            Sh::TupS(n, i) => d.deserialize_tuple_struct(name(n), i.len(), self),
            Sh::Map(..) => d.deserialize_map(self),
            Sh::Struct(n, fs) => d.deserialize_struct(name(n), names(fs.iter().map(|f| &f.name)), self),
            Sh::Enum(n, vs) => d.deserialize_enum(name(n), names(vs.iter().map(|v| &v.0)), self),
        }?;
        t.de(12)?;
        Ok(v)
    }
}
fn int<E: de::Error>(sh: &Sh, i: i128) -> Result<Va, E> {
    let ok = match sh {
        Sh::I(w) => {
            let b = *w as u32 * 8;
            i >= -(1i128 << (b - 1)) && i < 1i128 << (b - 1)
        }
        Sh::U(w) => i >= 0 && i < 1i128 << (*w as u32 * 8),
        Sh::F32 => return Ok(Va::Float(fbits(i as f32 as f64))),
        Sh::F64 => return Ok(Va::Float(fbits(i as f64))),
        _ => return Err(E::invalid_type(de::Unexpected::Other("integer"), &"something else")),
    };
    if ok {
        Ok(Va::Int(i.to_string()))
    } else {
        Err(E::invalid_value(de::Unexpected::Other("integer"), &"a smaller one"))
    }
}
impl<'de> Visitor<'de> for De<'_> {
    type Value = Va;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self.0 {
            Sh::Struct(n, _) => write!(f, "struct {n}"),
            _ => f.write_str("a value of the simulated type"),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Va, E> {
        self.1.de(13)?;
        match self.0 {
            Sh::Unit | Sh::UnitStruct(_) => Ok(Va::Unit),
            Sh::Opt(_) => Ok(Va::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<Va, E> {
        self.1.give(14, crate::doc::Val::Bool(b))?;
        match self.0 {
            Sh::Bool => Ok(Va::Bool(b)),
            _ => Err(E::invalid_type(de::Unexpected::Bool(b), &self)),
        }
    }
    fn visit_i64<E: de::Error>(self, i: i64) -> Result<Va, E> {
        self.1.give(15, crate::doc::Val::Int(i.to_string()))?;
        int(self.0, i as i128)
    }
    fn visit_u64<E: de::Error>(self, i: u64) -> Result<Va, E> {
        self.1.give(15, crate::doc::Val::Int(i.to_string()))?;
        int(self.0, i as i128)
    }
    fn visit_f64<E: de::Error>(self, x: f64) -> Result<Va, E> {
        self.1.give(16, crate::doc::Val::Float(fbits(x)))?;
        match self.0 {
            Sh::F32 => Ok(Va::Float(fbits(x as f32 as f64))),
            Sh::F64 => Ok(Va::Float(fbits(x))),
            _ => Err(E::invalid_type(de::Unexpected::Float(x), &self)),
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Va, E> {
        self.1.give(17, crate::doc::Val::Str(s.to_string()))?;
        match self.0 {
            Sh::Str => Ok(Va::Str(s.to_string())),
            Sh::Char => {
                let mut c = s.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Ok(Va::Char(c)),
                    _ => Err(E::invalid_value(de::Unexpected::Str(s), &self)),
                }
            }
            _ => Err(E::invalid_type(de::Unexpected::Str(s), &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Va, E> {
        self.1.de(18)?;
        match self.0 {
            Sh::Opt(_) => Ok(Va::None),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Va, D::Error> {
        self.1.de(19)?;
        match self.0 {
            Sh::Opt(i) => De(i, self.1).deserialize(d).map(|v| Va::Some(Box::new(v))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Va, D::Error> {
        self.1.de(20)?;
        match self.0 {
            Sh::New(_, i) => De(i, self.1).deserialize(d),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Va, A::Error> {
        let De(sh, t) = self;
        t.de(21)?;
        let mut fixed = |is: Vec<&Sh>| {
            let mut out = vec![];
            for (n, i) in is.iter().enumerate() {
                t.de(22)?;
                match a.next_element_seed(De(i, t))? {
                    Some(v) => out.push(v),
                    None => return Err(de::Error::invalid_length(n, &"more elements")),
                }
            }
            Ok(Va::List(out))
        };
        match sh {
            Sh::Seq(i) => {
                let mut out = vec![];
                loop {
                    t.de(22)?;
                    match a.next_element_seed(De(i, t))? {
                        Some(v) => out.push(v),
                        None => return Ok(Va::List(out)),
                    }
                }
            }
            Sh::Tup(is) | Sh::TupS(_, is) => fixed(is.iter().collect()),
            // derive reads structs and newtypes from sequences too
            Sh::Struct(_, fs) => fixed(fs.iter().map(|f| &f.sh).collect()),
            Sh::New(_, i) => match a.next_element_seed(De(i, t))? {
                Some(v) => Ok(v),
                None => Err(de::Error::invalid_length(0, &"one element")),
            },
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Va, A::Error> {
        let De(sh, t) = self;
        t.de(23)?;
        match sh {
            Sh::Map(k, i) => {
                // a map that keeps the order
                let mut out: Vec<(String, Va)> = vec![];
                let mut put = |k: String, v: Va| match out.iter_mut().find(|x| x.0 == k) {
                    Some(x) => x.1 = v,
                    None => out.push((k, v)),
                };
                let mut n = 0;
                loop {
                    t.de(24)?;
                    n += 1;
                    if n % 2 == 0 {
                        match a.next_entry_seed(DeKey(k, t), De(i, t))? {
                            Some((k, v)) => put(k, v),
                            None => break,
                        };
                    } else {
                        let Some(k) = a.next_key_seed(DeKey(k, t))? else { break };
                        t.de(25)?;
                        put(k, a.next_value_seed(De(i, t))?);
                    }
                }
                Ok(Va::Map(out))
            }
            Sh::Struct(_, fs) => fields(fs, t, a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Va, A::Error> {
        let De(sh, t) = self;
        t.de(26)?;
        let Sh::Enum(_, vs) = sh else {
            return Err(de::Error::invalid_type(de::Unexpected::Enum, &self));
        };
        let all: Vec<&String> = vs.iter().map(|v| &v.0).collect();
        let (i, acc) = a.variant_seed(Pick(&all, t, false, false))?;
        let i = i.expect("[harness] variant");
        t.de(27)?;
        let body = match &vs[i].1 {
            Var::Unit => {
                acc.unit_variant()?;
                Va::Unit
            }
            Var::New(s) => acc.newtype_variant_seed(De(s, t))?,
            Var::Tup(is) => acc.tuple_variant(is.len(), De(&Sh::Tup(is.clone()), t))?,
            Var::Struct(fs) => {
                let s = Sh::Struct(vs[i].0.clone(), fs.clone());
                acc.struct_variant(names(fs.iter().map(|f| &f.name)), De(&s, t))?
            }
        };
        Ok(Va::Var(i, Box::new(body)))
    }
}
fn fields<'de, A: MapAccess<'de>>(fs: &[Field], t: &Ticker, mut a: A) -> Result<Va, A::Error> {
    let all: Vec<&String> = fs.iter().map(|f| &f.name).collect();
    let mut got: Vec<Option<Va>> = vec![None; fs.len()];
    loop {
        t.de(24)?;
        match a.next_key_seed(Pick(&all, t, true, false))? {
            None => break,
            Some(None) if t.deny => return Err(de::Error::custom("unknown field")),
            Some(None) => {
                a.next_value::<IgnoredAny>()?;
            }
            Some(Some(i)) => {
                if got[i].is_some() {
                    return Err(de::Error::duplicate_field(name(&fs[i].name)));
                }
                t.de(25)?;
                got[i] = Some(a.next_value_seed(De(&fs[i].sh, t))?);
            }
        }
    }
    t.de(28)?;
    let mut out = vec![];
    for (f, v) in fs.iter().zip(got) {
        out.push(match v {
            Some(v) => v,
            None if f.default => default(&f.sh),
            None if matches!(f.sh, Sh::Opt(_)) => Va::None,
            None => return Err(de::Error::missing_field(name(&f.name))),
        });
    }
    Ok(Va::List(out))
}
/// What `Default` gives.
pub fn default(sh: &Sh) -> Va {
    match sh {
        Sh::Bool => Va::Bool(false),
        Sh::New(_, i) => default(i),
        Sh::Opt(_) => Va::None,
        Sh::I(_) | Sh::U(_) => Va::Int("0".into()),
        Sh::F32 | Sh::F64 => Va::Float(0),
        Sh::Char => Va::Char('\0'),
        Sh::Str => Va::Str(String::new()),
        Sh::Seq(_) => Va::List(vec![]),
        Sh::Map(..) => Va::Map(vec![]),
        Sh::Tup(i) | Sh::TupS(_, i) => Va::List(i.iter().map(default).collect()),
        Sh::Struct(_, f) => Va::List(f.iter().map(|f| default(&f.sh)).collect()),
        _ => Va::Unit,
    }
}
/// A field or variant name, as derive's generated identifier types read it.
struct Pick<'a>(&'a [&'a String], &'a Ticker, bool, bool);
impl<'de> DeserializeSeed<'de> for Pick<'_> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        self.1.de(31)?;
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Pick<'_> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(if self.2 { "field identifier" } else { "variant identifier" })
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
        // (a field's or a key's)
        if self.2 || self.3 {
            self.1.de(32)?;
        } else {
            self.1.give(32, crate::doc::Val::Str(s.to_string()))?;
        }
        match self.0.iter().position(|n| *n == s) {
            Some(i) => Ok(Some(i)),
            None if self.2 => Ok(None),
            None => Err(E::unknown_variant(s, &[])),
        }
    }
}
struct DeKey<'a>(&'a Key, &'a Ticker);
impl<'de> DeserializeSeed<'de> for DeKey<'_> {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        self.1.de(33)?;
        match self.0 {
            Key::Str => d.deserialize_string(self),
            Key::Char => d.deserialize_char(self),
            Key::Variant(vs) => d.deserialize_enum("K", names(vs.iter()), self),
        }
    }
}
impl<'de> Visitor<'de> for DeKey<'_> {
    type Value = String;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("a key")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<String, E> {
        self.1.de(34)?;
        if *self.0 == Key::Char && s.chars().count() != 1 {
            return Err(E::invalid_value(de::Unexpected::Str(s), &self));
        }
        Ok(s.to_string())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<String, A::Error> {
        self.1.de(35)?;
        let Key::Variant(vs) = self.0 else { return Err(de::Error::custom("enum key")) };
        let all: Vec<&String> = vs.iter().collect();
        let (i, acc) = a.variant_seed(Pick(&all, self.1, false, true))?;
        acc.unit_variant()?;
        Ok(vs[i.expect("[harness] key")].clone())
    }
}

// ------------------------------------------------------------------ generation

/// Where a value stands decides what shapes KDL can hold there.
#[derive(Clone, Copy, PartialEq)]
pub enum At {
    Top,
    Node,
    Scalar,
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    /// Only what can be read back.
    pub supported: bool,
    pub exotic: bool,
    n: u32,
}
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, supported: bool) -> Self {
        let exotic = r.pct(60);
        Gen { r, supported, exotic, n: 0 }
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        if self.exotic && self.r.pct(25) {
            // names are unique and never begin with '#'
            let s = rand_string(self.r, true);
            return format!("{}{}_{s}", p, self.n);
        }
        format!("{p}{}", self.n)
    }
    fn scalar(&mut self) -> Sh {
        match self.r.below(12) {
            0 => Sh::Bool,
            1 | 2 => Sh::I([1, 2, 4, 8][self.r.below(4)]),
            3 | 4 => Sh::U([1, 2, 4, 8][self.r.below(4)]),
            5 => Sh::F32,
            6 => Sh::F64,
            7 => Sh::Char,
            _ => Sh::Str,
        }
    }
    pub fn shape(&mut self, at: At, depth: u32) -> Sh {
        let k = self.r.below(100);
        match at {
            At::Scalar => match k {
                0..=64 => self.scalar(),
                65..=74 => match self.shape(At::Scalar, depth) {
                    // Some(()) and Some(None) cannot be told from None in any notation like this
                    i if nullable(&i) => i,
                    i => Sh::Opt(Box::new(i)),
                },
                75..=79 => Sh::Unit,
                80..=82 => Sh::UnitStruct(self.fresh("U")),
                83..=90 => Sh::New(self.fresh("N"), Box::new(self.shape(At::Scalar, depth))),
                91..=93 if !self.supported => self.shape(At::Node, depth + 1),
                _ => {
                    let n = self.r.range(1, 3);
                    Sh::Enum(self.fresh("E"), (0..n).map(|_| (self.fresh("V"), Var::Unit)).collect())
                }
            },
            At::Node | At::Top => {
                let k = if at == At::Top {
                    match self.r.below(100) {
                        0..=49 => 70,
                        50..=64 => 60,
                        65..=74 => 40,
                        75..=82 => 50,
                        83..=88 => 90,
                        89..=92 => 32,
                        93..=95 => 25,
                        _ if !self.supported => k,
                        _ => 70,
                    }
                } else if depth > 4 {
                    k % 50
                } else {
                    k
                };
                let inner = if at == At::Top || !self.supported { At::Node } else { At::Scalar };
                match k {
                    0..=24 => self.shape(At::Scalar, depth),
                    25..=31 => match self.shape(at, depth + 1) {
                        i if nullable(&i) => i,
                        // an enum that is a whole document has no absent form
                        i => Sh::Opt(Box::new(i)),
                    },
                    32..=36 => Sh::New(self.fresh("N"), Box::new(self.shape(at, depth + 1))),
                    37..=47 => Sh::Seq(Box::new(self.shape(inner, depth + 1))),
                    48..=54 => {
                        let n = self.r.range(if at == At::Top { 1 } else { 0 }, 4);
                        let is = (0..n).map(|_| self.shape(inner, depth + 1)).collect();
                        if self.r.pct(50) { Sh::Tup(is) } else { Sh::TupS(self.fresh("T"), is) }
                    }
                    55..=66 => {
                        let key = match self.r.below(10) {
                            0..=6 => Key::Str,
                            7 => Key::Char,
                            _ => Key::Variant((0..self.r.range(1, 5)).map(|_| self.fresh("K")).collect()),
                        };
                        Sh::Map(key, Box::new(self.shape(At::Node, depth + 1)))
                    }
                    67..=86 => {
                        let fs = self.fields(at, depth);
                        Sh::Struct(self.fresh("S"), fs)
                    }
                    _ => {
                        let n = self.r.range(1, 4);
                        let vs = (0..n)
                            .map(|_| {
                                let v = match self.r.below(8) {
                                    0..=2 if at == At::Node || !self.supported => Var::Unit,
                                    0..=4 => Var::New(self.shape(if self.supported { At::Scalar } else { At::Node }, depth + 1)),
                                    5 => {
                                        let n = self.r.below(3);
                                        let n = if n == 1 || at == At::Top { 2 } else { n };
                                        Var::Tup((0..n).map(|_| self.shape(inner, depth + 1)).collect())
                                    }
                                    _ => Var::Struct(self.fields(At::Top, depth)),
                                };
                                (self.fresh("V"), v)
                            })
                            .collect();
                        Sh::Enum(self.fresh("E"), vs)
                    }
                }
            }
        }
    }
    fn fields(&mut self, at: At, depth: u32) -> Vec<Field> {
        let mut out = vec![];
        if at == At::Node {
            // argument and property fields
            if self.r.pct(25) {
                let k = self.r.below(3);
                for i in 0..k {
                    out.push(Field { name: format!("#{i}"), sh: self.shape(At::Scalar, depth), default: false });
                }
                if self.r.pct(40) {
                    let nm = if k == 0 && self.r.pct(50) { "#args" } else { "#rest" };
                    out.push(Field { name: nm.into(), sh: Sh::Seq(Box::new(self.shape(At::Scalar, depth))), default: false });
                }
            }
            if self.r.pct(25) {
                for _ in 0..self.r.range(1, 3) {
                    let n = self.fresh("p");
                    out.push(Field { name: format!("#@{n}"), sh: self.shape(At::Scalar, depth), default: false });
                }
            }
        }
        for _ in 0..self.r.below(5) {
            let sh = self.shape(At::Node, depth + 1);
            // What is left out when false or null needs `#[serde(default)]` to be read where the
            // reader does not know the fields: in whole documents and in struct variants.
            let default = at == At::Top && omittable(&sh);
            out.push(Field { name: self.fresh("f"), sh, default });
        }
        out
    }
    pub fn value(&mut self, sh: &Sh) -> Va {
        match sh {
            Sh::Unit | Sh::UnitStruct(_) => Va::Unit,
            Sh::Bool => Va::Bool(self.r.pct(50)),
            Sh::I(w) => {
                let x = self.r.u64() as i64;
                let s = 64 - *w as u32 * 8;
                Va::Int(
                    match self.r.below(6) {
                        0 => i64::MIN >> s,
                        1 => i64::MAX >> s,
                        2 => x >> s,
                        _ => (x % 100) >> 2,
                    }
                    .to_string(),
                )
            }
            Sh::U(w) => {
                let x = self.r.u64();
                let s = 64 - *w as u32 * 8;
                Va::Int(
                    match self.r.below(6) {
                        0 => u64::MAX >> s,
                        1 => 0,
                        2 => x >> s,
                        _ => x % 100,
                    }
                    .to_string(),
                )
            }
            Sh::F32 => {
                let f = rand_float(self.r) as f32;
                Va::Float(fbits(if self.r.pct(30) { f32::from_bits(self.r.u64() as u32) as f64 } else { f as f64 }))
            }
            Sh::F64 => {
                let f = rand_float(self.r);
                Va::Float(fbits(if self.r.pct(30) { f64::from_bits(self.r.u64()) } else { f }))
            }
            Sh::Char => Va::Char(
                rand_string(self.r, self.exotic).chars().next().unwrap_or_else(|| char::from(b'a' + self.r.below(26) as u8)),
            ),
            Sh::Str => Va::Str(rand_string(self.r, self.exotic)),
            Sh::Opt(i) => {
                let v = self.value(i);
                if self.r.pct(35) || looks_none(i, &v) { Va::None } else { Va::Some(Box::new(v)) }
            }
            Sh::New(_, i) => self.value(i),
            Sh::Seq(i) => {
                let n = self.r.small(6);
                Va::List((0..n).map(|_| self.value(i)).collect())
            }
            Sh::Tup(is) | Sh::TupS(_, is) => Va::List(is.iter().map(|i| self.value(i)).collect()),
            Sh::Map(k, i) => {
                let mut m = std::collections::BTreeMap::new();
                for _ in 0..self.r.small(5) {
                    let key = match k {
                        Key::Str => rand_string(self.r, self.exotic),
                        Key::Char => rand_string(self.r, self.exotic).chars().next().unwrap_or('k').to_string(),
                        Key::Variant(v) => self.r.pick(v).clone(),
                    };
                    let v = self.value(i);
                    m.insert(key, v);
                }
                let mut m: Vec<_> = m.into_iter().collect();
                for i in (1..m.len()).rev() {
                    m.swap(i, self.r.below(i + 1));
                }
                Va::Map(m)
            }
            Sh::Struct(_, fs) => Va::List(fs.iter().map(|f| self.value(&f.sh)).collect()),
            Sh::Enum(_, vs) => {
                let k = self.r.below(vs.len());
                let b = match &vs[k].1 {
                    Var::Unit => Va::Unit,
                    Var::New(i) => self.value(i),
                    Var::Tup(is) => Va::List(is.iter().map(|i| self.value(i)).collect()),
                    Var::Struct(fs) => Va::List(fs.iter().map(|f| self.value(&f.sh)).collect()),
                };
                Va::Var(k, Box::new(b))
            }
        }
    }
}
/// Written as `#null` whatever it is, or possibly.
pub fn nullable(sh: &Sh) -> bool {
    match sh {
        Sh::Unit | Sh::UnitStruct(_) | Sh::Opt(_) => true,
        Sh::New(_, i) => nullable(i),
        _ => false,
    }
}
fn omittable(sh: &Sh) -> bool {
    match sh {
        Sh::Unit | Sh::UnitStruct(_) | Sh::Bool => true,
        Sh::New(_, i) => omittable(i) || nullable(i),
        _ => false,
    }
}
fn null(sh: &Sh, v: &Va) -> bool {
    match (sh, v) {
        (Sh::Unit | Sh::UnitStruct(_), _) | (Sh::Opt(_), Va::None) => true,
        (Sh::Opt(i), Va::Some(x)) => null(i, x),
        (Sh::New(_, i), x) => null(i, x),
        _ => false,
    }
}
/// Would this value, as content of a node or as a whole document, leave nothing, or only a null, behind?
fn looks_none(sh: &Sh, v: &Va) -> bool {
    match (sh, v) {
        (Sh::New(_, i), x) => looks_none(i, x),
        (Sh::Seq(i), Va::List(x)) => x.is_empty() || (x.len() == 1 && null(i, &x[0])),
        (Sh::Tup(i) | Sh::TupS(_, i), Va::List(x)) => x.is_empty() || (x.len() == 1 && null(&i[0], &x[0])),
        (Sh::Map(..), Va::Map(m)) => m.is_empty(),
        (Sh::Struct(_, f), Va::List(x)) => {
            // all fields left out, or only null arguments
            f.iter().zip(x).all(|(f, x)| null(&f.sh, x) || *x == Va::Bool(false) || *x == Va::List(vec![]) || looks_none(&f.sh, x))
        }
        (Sh::Enum(_, vs), Va::Var(k, x)) => match (&vs[*k].1, &**x) {
            (Var::Tup(i), Va::List(x)) => i.is_empty() || x.is_empty(),
            _ => false,
        },
        _ => null(sh, v),
    }
}

/// Simpler values of the same shape, and simpler shapes with a value.
pub fn shrink(sh: &Sh, v: &Va) -> Vec<(Sh, Va)> {
    let mut out = vec![];
    match (sh, v) {
        (Sh::New(_, i), x) => {
            out.push(((**i).clone(), x.clone()));
            if let Sh::New(n, i) = sh {
                out.extend(shrink(i, x).into_iter().map(|(s, v)| (Sh::New(n.clone(), Box::new(s)), v)));
            }
        }
        (Sh::Opt(i), Va::Some(x)) => {
            out.push(((**i).clone(), (**x).clone()));
            out.extend(shrink(i, x).into_iter().filter(|(s, v)| !looks_none(s, v)).map(|(s, v)| (Sh::Opt(Box::new(s)), Va::Some(Box::new(v)))));
        }
        (Sh::Seq(i), Va::List(xs)) => {
            for k in 0..xs.len() {
                let mut c = xs.clone();
                c.remove(k);
                out.push((sh.clone(), Va::List(c)));
            }
            if xs.len() == 1 {
                out.extend(shrink(i, &xs[0]).into_iter().map(|(s, v)| (Sh::Seq(Box::new(s)), Va::List(vec![v]))));
            }
        }
        (Sh::Tup(is) | Sh::TupS(_, is), Va::List(xs)) => {
            let mk = |is: Vec<Sh>| if let Sh::TupS(n, _) = sh { Sh::TupS(n.clone(), is) } else { Sh::Tup(is) };
            for k in 0..xs.len() {
                let (mut a, mut b) = (is.clone(), xs.clone());
                a.remove(k);
                b.remove(k);
                out.push((mk(a), Va::List(b)));
                for (s, v) in shrink(&is[k], &xs[k]) {
                    let (mut a, mut b) = (is.clone(), xs.clone());
                    a[k] = s;
                    b[k] = v;
                    out.push((mk(a), Va::List(b)));
                }
            }
        }
        (Sh::Map(k, i), Va::Map(m)) => {
            for j in 0..m.len() {
                let mut c = m.clone();
                c.remove(j);
                out.push((sh.clone(), Va::Map(c)));
            }
            if m.len() == 1 {
                out.extend(
                    shrink(i, &m[0].1)
                        .into_iter()
                        .map(|(s, v)| (Sh::Map(k.clone(), Box::new(s)), Va::Map(vec![(m[0].0.clone(), v)]))),
                );
                if *k == Key::Str && m[0].0 != "a" {
                    out.push((sh.clone(), Va::Map(vec![("a".into(), m[0].1.clone())])));
                }
            }
        }
        (Sh::Struct(n, fs), Va::List(xs)) => {
            for (f, x) in shrink_fields(fs, xs) {
                out.push((Sh::Struct(n.clone(), f), Va::List(x)));
            }
        }
        (Sh::Enum(n, vs), Va::Var(k, x)) => {
            if vs.len() > 1 {
                out.push((Sh::Enum(n.clone(), vec![vs[*k].clone()]), Va::Var(0, x.clone())));
            } else {
                let vn = &vs[0].0;
                let mut put = |v: Var, x: Va| out.push((Sh::Enum(n.clone(), vec![(vn.clone(), v)]), Va::Var(0, Box::new(x))));
                match (&vs[0].1, &**x) {
                    (Var::New(i), x) => shrink(i, x).into_iter().for_each(|(s, v)| put(Var::New(s), v)),
                    (Var::Struct(f), Va::List(x)) => shrink_fields(f, x).into_iter().for_each(|(f, x)| put(Var::Struct(f), Va::List(x))),
                    (Var::Tup(i), x) => {
                        for (s, v) in shrink(&Sh::Tup(i.clone()), x) {
                            if let Sh::Tup(i) = s {
                                put(Var::Tup(i), v);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        (Sh::Str, Va::Str(s)) if s != "a" => {
            out.push((Sh::Str, Va::Str("a".into())));
            if s.chars().count() > 1 {
                let c: Vec<char> = s.chars().collect();
                out.push((Sh::Str, Va::Str(c[..c.len() / 2].iter().collect())));
                out.push((Sh::Str, Va::Str(c[c.len() / 2..].iter().collect())));
                out.push((Sh::Str, Va::Str(c[1..].iter().collect())));
            }
        }
        (Sh::I(_) | Sh::U(_), Va::Int(i)) if i != "1" => out.push((sh.clone(), Va::Int("1".into()))),
        (Sh::F32 | Sh::F64, Va::Float(b)) if *b != 1f64.to_bits() => out.push((sh.clone(), Va::Float(1f64.to_bits()))),
        _ => {}
    }
    out
}
fn shrink_fields(fs: &[Field], xs: &[Va]) -> Vec<(Vec<Field>, Vec<Va>)> {
    let mut out = vec![];
    for k in 0..fs.len() {
        // argument fields are numbered: only the last may go
        let arg = fs[k].name.starts_with('#') && !fs[k].name.starts_with("#@");
        if !arg || !fs.get(k + 1).is_some_and(|f| f.name.starts_with('#') && !f.name.starts_with("#@")) {
            let (mut a, mut b) = (fs.to_vec(), xs.to_vec());
            a.remove(k);
            b.remove(k);
            out.push((a, b));
        }
    }
    for k in 0..fs.len() {
        for (s, v) in shrink(&fs[k].sh, &xs[k]) {
            // a field stays readable where its position allows it
            if !fs[k].default && (omittable(&s) && !omittable(&fs[k].sh)) {
                continue;
            }
            let (mut a, mut b) = (fs.to_vec(), xs.to_vec());
            a[k].sh = s;
            b[k] = v;
            out.push((a, b));
        }
    }
    out
}
