//! An executable reference for KDL 2.0.0: a plain recursive descent over the characters, written
//! from the grammar of the specification. It shares no code with the library. Constructs the
//! grammar's published revisions disagree on, and values a machine cannot hold, are `Unjudged`.
use crate::doc::*;

#[derive(Debug, PartialEq)]
pub enum Verdict {
    Accept(MDoc),
    Refuse(String),
    Unjudged(&'static str),
}
pub fn reference(text: &str) -> Verdict {
    let mut p = P { c: text.chars().collect(), i: 0, unjudged: None };
    let r = p.document();
    match (p.unjudged, r) {
        (Some(u), _) => Verdict::Unjudged(u),
        (_, Ok(d)) => Verdict::Accept(d),
        (_, Err(e)) => Verdict::Refuse(format!("{e} at character {}", p.i)),
    }
}
fn unit<T>(text: &str, f: impl FnOnce(&mut P) -> R<Option<T>>) -> Option<T> {
    let mut p = P { c: text.chars().collect(), i: 0, unjudged: None };
    let v = f(&mut p).ok()??;
    (p.eof() && p.unjudged.is_none()).then_some(v)
}
/// What a text says that is one node, with nothing but space around it.
pub fn one_node(text: &str) -> Option<MNode> {
    unit(text, |p| {
        p.line_space()?;
        let n = p.node()?;
        let _ = p.eof() || p.eat(";") || p.newline() || p.line_comment();
        p.line_space()?;
        Ok(Some(n))
    })
}
pub fn one_entry(text: &str) -> Option<MEntry> {
    unit(text, |p| {
        p.line_space()?;
        let e = p.entry()?;
        p.line_space()?;
        Ok(e)
    })
}
pub fn one_string(text: &str) -> Option<String> {
    unit(text, |p| p.string())
}
type R<T> = Result<T, String>;
struct P {
    c: Vec<char>,
    i: usize,
    unjudged: Option<&'static str>,
}
fn is_space(c: char) -> bool {
    matches!(c, '\t' | ' ' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}
fn is_nl(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}')
}
fn banned(c: char) -> bool {
    matches!(c, '\0'..='\u{8}' | '\u{e}'..='\u{1f}' | '\u{7f}' | '\u{200e}' | '\u{200f}'
        | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' | '\u{feff}')
}
fn ident_char(c: char) -> bool {
    !(is_space(c) || is_nl(c) || banned(c) || "\\/(){};[]\"#=".contains(c))
}
#[derive(PartialEq, Clone, Copy)]
enum Item {
    Lit(char),
    Esc(char),
    Nl,
}
fn err<T>(s: &str) -> R<T> {
    Err(s.to_string())
}
impl P {
    fn at(&self, k: usize) -> Option<char> {
        self.c.get(self.i + k).copied()
    }
    fn sees(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, c)| self.at(k) == Some(c))
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.sees(s);
        if y {
            self.i += s.chars().count();
        }
        y
    }
    fn eof(&self) -> bool {
        self.i >= self.c.len()
    }
    fn newline(&mut self) -> bool {
        if self.eat("\r\n") {
            return true;
        }
        let y = self.at(0).is_some_and(is_nl);
        self.i += y as usize;
        y
    }
    fn comment_char(&mut self) {
        if self.at(0).is_some_and(banned) {
            self.unjudged = Some("a disallowed code point in a comment");
        }
        self.i += 1;
    }
    fn line_comment(&mut self) -> bool {
        if !self.eat("//") {
            return false;
        }
        while !self.eof() && !self.newline() {
            self.comment_char();
        }
        true
    }
    fn ws(&mut self) -> R<bool> {
        if self.at(0).is_some_and(is_space) {
            self.i += 1;
            return Ok(true);
        }
        if !self.eat("/*") {
            return Ok(false);
        }
        let mut depth = 1;
        while depth > 0 {
            if self.eof() {
                return err("a comment without end");
            } else if self.eat("/*") {
                depth += 1;
            } else if self.eat("*/") {
                depth -= 1;
            } else {
                self.comment_char();
            }
        }
        Ok(true)
    }
    fn node_space(&mut self) -> R<bool> {
        let start = self.i;
        loop {
            if self.ws()? {
                continue;
            }
            if self.at(0) != Some('\\') {
                break;
            }
            let back = self.i;
            self.i += 1;
            while self.ws()? {}
            if !(self.line_comment() || self.newline() || self.eof()) {
                self.i = back;
                break;
            }
        }
        Ok(self.i > start)
    }
    fn line_space(&mut self) -> R<()> {
        while self.node_space()? || self.newline() || self.line_comment() {}
        Ok(())
    }

    fn document(&mut self) -> R<MDoc> {
        self.eat("\u{feff}");
        let d = self.nodes(false)?;
        if !self.eof() {
            return err("something after the last node");
        }
        Ok(d)
    }
    fn nodes(&mut self, inside: bool) -> R<MDoc> {
        let mut out = vec![];
        loop {
            self.line_space()?;
            if self.eof() || self.at(0) == Some('}') {
                return Ok(out);
            }
            let dashed = self.eat("/-");
            if dashed {
                self.line_space()?;
            }
            let n = self.node()?;
            if !dashed {
                out.push(n);
            }
            if self.eof() || self.eat(";") || self.newline() || self.line_comment() || inside && self.at(0) == Some('}') {
                continue;
            }
            return err("a node is not terminated");
        }
    }
    fn children(&mut self) -> R<MDoc> {
        self.i += 1;
        let d = self.nodes(true)?;
        if !self.eat("}") {
            return err("a block without end");
        }
        Ok(d)
    }
    fn node(&mut self) -> R<MNode> {
        let ty = self.ty()?;
        let Some(name) = self.string()? else { return err("no node name") };
        let mut n = MNode { ty, name, entries: vec![], kids: None };
        let mut entries_over = false;
        loop {
            let spaced = self.node_space()?;
            if self.at(0) == Some('{') {
                if n.kids.is_some() {
                    return err("two blocks");
                }
                n.kids = Some(self.children()?);
                entries_over = true;
            } else if self.eat("/-") {
                self.line_space()?;
                if self.at(0) == Some('{') {
                    if !spaced {
                        self.unjudged = Some("a slashdashed block that no space precedes");
                    }
                    self.children()?;
                    entries_over = true;
                } else if entries_over {
                    return err("a slashdashed entry behind a block");
                } else if !spaced {
                    return err("a slashdashed entry that no space precedes");
                } else if self.entry()?.is_none() {
                    return err("nothing behind a slashdash");
                }
            } else {
                let start = self.i;
                let Some(e) = self.entry()? else { return Ok(n) };
                if !spaced || entries_over {
                    self.i = start;
                    return err("an entry where none may be");
                }
                n.entries.push(e);
            }
        }
    }
    fn ty(&mut self) -> R<Option<String>> {
        if !self.eat("(") {
            return Ok(None);
        }
        self.node_space()?;
        let Some(t) = self.string()? else { return err("no type name") };
        self.node_space()?;
        if !self.eat(")") {
            return err("a type without end");
        }
        self.node_space()?;
        Ok(Some(t))
    }
    fn entry(&mut self) -> R<Option<MEntry>> {
        let start = self.i;
        if self.at(0) == Some('(') {
            return self.value();
        }
        if let Some(s) = self.string()? {
            let end = self.i;
            self.node_space()?;
            if self.eat("=") {
                self.node_space()?;
                let Some(mut v) = self.value()? else { return err("no property value") };
                v.name = Some(s);
                return Ok(Some(v));
            }
            self.i = end;
            return Ok(Some(MEntry { name: None, ty: None, val: Val::Str(s) }));
        }
        self.i = start;
        self.value()
    }
    fn value(&mut self) -> R<Option<MEntry>> {
        let ty = self.ty()?;
        let val = if let Some(s) = self.string()? {
            Val::Str(s)
        } else if self.at(0) == Some('#') {
            self.i += 1;
            let w = self.word();
            match w.as_str() {
                "true" => Val::Bool(true),
                "false" => Val::Bool(false),
                "null" => Val::Null,
                "inf" => Val::Float(fbits(f64::INFINITY)),
                "-inf" => Val::Float(fbits(f64::NEG_INFINITY)),
                "nan" => Val::Float(fbits(f64::NAN)),
                _ => return err("not a keyword"),
            }
        } else if self.at(0).is_some_and(ident_char) {
            let w = self.word();
            self.number(&w)?
        } else if ty.is_some() {
            return err("no value behind a type");
        } else {
            return Ok(None);
        };
        Ok(Some(MEntry { name: None, ty, val }))
    }
    fn word(&mut self) -> String {
        let start = self.i;
        while self.at(0).is_some_and(ident_char) {
            self.i += 1;
        }
        self.c[start..self.i].iter().collect()
    }
    fn number(&mut self, w: &str) -> R<Val> {
        let (neg, rest) = match w.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, w.strip_prefix('+').unwrap_or(w)),
        };
        let digits = |s: &str, radix: u32| -> Option<String> {
            let first = s.chars().next()?;
            (first.is_digit(radix) && s.chars().all(|c| c == '_' || c.is_digit(radix))).then(|| s.replace('_', ""))
        };
        for (pre, radix) in [("0x", 16), ("0o", 8), ("0b", 2)] {
            if let Some(d) = rest.strip_prefix(pre) {
                let Some(d) = digits(d, radix) else { return err("not a number") };
                return Ok(self.int(neg, &d, radix));
            }
        }
        if let Some("0X" | "0O" | "0B") = rest.get(..2) {
            self.unjudged = Some("a radix in upper case");
            return Ok(Val::Null);
        }
        let (mantissa, exp) = match rest.find(['e', 'E']) {
            Some(k) => (&rest[..k], Some(&rest[k + 1..])),
            None => (rest, None),
        };
        let (whole, frac) = match mantissa.split_once('.') {
            Some((a, b)) => (a, Some(b)),
            None => (mantissa, None),
        };
        let Some(whole) = digits(whole, 10) else { return err("not a number") };
        if frac.is_none() && exp.is_none() {
            return Ok(self.int(neg, &whole, 10));
        }
        let mut t = format!("{}{whole}", if neg { "-" } else { "" });
        if let Some(f) = frac {
            let Some(f) = digits(f, 10) else { return err("not a fraction") };
            t += &format!(".{f}");
        }
        if let Some(e) = exp {
            let (s, d) = match e.strip_prefix('-') {
                Some(d) => ("-", d),
                None => ("", e.strip_prefix('+').unwrap_or(e)),
            };
            let Some(d) = digits(d, 10) else { return err("not an exponent") };
            t += &format!("e{s}{d}");
        }
        let f: f64 = t.parse().map_err(|_| "not a float".to_string())?;
        if !f.is_finite() {
            self.unjudged = Some("a float beyond the range of the machine's");
        }
        Ok(Val::Float(fbits(f)))
    }
    fn int(&mut self, neg: bool, d: &str, radix: u32) -> Val {
        match i128::from_str_radix(&format!("{}{d}", if neg { "-" } else { "" }), radix) {
            Ok(i) => Val::Int(i.to_string()),
            Err(_) => {
                self.unjudged = Some("an integer beyond 128 bits");
                Val::Null
            }
        }
    }
    /// A string of any kind, or nothing: then no character has been used up.
    fn string(&mut self) -> R<Option<String>> {
        let Some(c) = self.at(0) else { return Ok(None) };
        if c == '"' {
            return self.quoted().map(Some);
        }
        if c == '#' {
            let mut k = 0;
            while self.at(k) == Some('#') {
                k += 1;
            }
            if self.at(k) != Some('"') {
                return Ok(None);
            }
            return self.raw(k).map(Some);
        }
        if !ident_char(c) {
            return Ok(None);
        }
        let digit = |k: usize| self.at(k).is_some_and(|c| c.is_ascii_digit());
        let sign = matches!(c, '+' | '-') as usize;
        if digit(sign) {
            return Ok(None); // a number
        }
        if self.at(sign) == Some('.') && digit(sign + 1) {
            return err("a number needs a digit before the point");
        }
        let w = self.word();
        if ["true", "false", "null", "inf", "-inf", "nan"].contains(&w.as_str()) {
            return err("a bare keyword");
        }
        Ok(Some(w))
    }
    fn escape(&mut self) -> R<Option<char>> {
        // the backslash is used up
        let mut ws = false;
        while self.at(0).is_some_and(is_space) || self.at(0).is_some_and(is_nl) {
            self.i += 1;
            ws = true;
        }
        if ws {
            return Ok(None);
        }
        let Some(c) = self.at(0) else { return err("a string without end") };
        self.i += 1;
        Ok(Some(match c {
            '\\' => '\\',
            '"' => '"',
            'b' => '\u{8}',
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            's' => ' ',
            'u' => {
                if !self.eat("{") {
                    return err("not an escape");
                }
                let mut h = String::new();
                while let Some(c) = self.at(0).filter(|c| c.is_ascii_hexdigit()) {
                    h.push(c);
                    self.i += 1;
                }
                if h.is_empty() || h.len() > 6 || !self.eat("}") {
                    return err("not a unicode escape");
                }
                match char::from_u32(u32::from_str_radix(&h, 16).unwrap()) {
                    Some(c) => c,
                    None => return err("not a scalar value"),
                }
            }
            _ => return err("not an escape"),
        }))
    }
    fn quoted(&mut self) -> R<String> {
        if !self.sees("\"\"\"") {
            self.i += 1;
            let mut s = String::new();
            loop {
                let Some(c) = self.at(0) else { return err("a string without end") };
                if is_nl(c) || banned(c) {
                    return err("not allowed in a string");
                }
                self.i += 1;
                match c {
                    '"' => return Ok(s),
                    '\\' => s.extend(self.escape()?),
                    _ => s.push(c),
                }
            }
        }
        self.i += 3;
        if !self.newline() {
            return err("a multi-line string starts with a line break");
        }
        let mut items = vec![];
        loop {
            if self.eat("\"\"\"") {
                return dedent(&items);
            }
            if self.newline() {
                items.push(Item::Nl);
                continue;
            }
            let Some(c) = self.at(0) else { return err("a string without end") };
            if banned(c) {
                return err("not allowed in a string");
            }
            self.i += 1;
            if c == '\\' {
                items.extend(self.escape()?.map(Item::Esc));
            } else {
                items.push(Item::Lit(c));
            }
        }
    }
    fn raw(&mut self, hashes: usize) -> R<String> {
        self.i += hashes;
        let close: String = std::iter::repeat_n('#', hashes).collect();
        // `"""` opens a multi-line string if a line break follows; a raw string that merely begins
        // with quotes cannot be one of a single line either.
        if self.eat("\"\"\"") {
            if !self.newline() {
                return err("a multi-line string starts with a line break");
            }
            let close = format!("\"\"\"{close}");
            let mut items = vec![];
            loop {
                if self.eat(&close) {
                    if !items.split(|i| *i == Item::Nl).next_back().is_some_and(blank) {
                        self.unjudged = Some("a raw string's closing quotes within a line");
                    }
                    return dedent(&items);
                }
                if self.newline() {
                    items.push(Item::Nl);
                    continue;
                }
                let Some(c) = self.at(0) else { return err("a string without end") };
                if banned(c) {
                    return err("not allowed in a string");
                }
                self.i += 1;
                items.push(Item::Lit(c));
            }
        }
        self.i += 1;
        let close = format!("\"{close}");
        let mut s = String::new();
        loop {
            if self.eat(&close) {
                return Ok(s);
            }
            let Some(c) = self.at(0) else { return err("a string without end") };
            if is_nl(c) || banned(c) {
                return err("not allowed in a string");
            }
            self.i += 1;
            s.push(c);
        }
    }
}
fn blank(l: &[Item]) -> bool {
    l.iter().all(|i| matches!(i, Item::Lit(c) if is_space(*c)))
}
/// Whitespace escapes are resolved by now, other escapes are not yet text.
fn dedent(items: &[Item]) -> R<String> {
    let lines: Vec<&[Item]> = items.split(|i| *i == Item::Nl).collect();
    let (prefix, body) = lines.split_last().unwrap();
    if !blank(prefix) {
        return err("text before the closing quotes");
    }
    let mut out = vec![];
    for l in body {
        if blank(l) {
            out.push(String::new());
        } else if let Some(rest) = l.strip_prefix(*prefix) {
            out.push(rest.iter().map(|i| if let Item::Lit(c) | Item::Esc(c) = i { *c } else { unreachable!() }).collect());
        } else {
            return err("a line is not indented like the closing quotes");
        }
    }
    Ok(out.join("\n"))
}
