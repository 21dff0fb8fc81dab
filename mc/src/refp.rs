//! Reference model of KDL 1.0: a boring recursive-descent recogniser that
//! follows the published grammar production by production and records spans.
//! It shares no code with knuffel.
use std::collections::BTreeMap;

pub type Sp = (usize, usize);

#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    /// integer that fits i64 or u64
    I(i128),
    /// integer outside both
    Big,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Null,
    Bool(bool),
    Int(Num),
    /// bits of the f64 and the f32 nearest to the decimal text
    Dec(u64, u32),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub ty: Option<(String, Sp)>,
    pub lit: Lit,
    pub span: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub ty: Option<(String, Sp)>,
    pub name: (String, Sp),
    pub args: Vec<Val>,
    /// key -> (spans of every occurrence of the key, last value)
    pub props: BTreeMap<String, (Vec<Sp>, Val)>,
    pub children: Option<(Vec<Node>, Sp)>,
    pub span: Sp,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpenKind { Brace, Str, Raw, Comment, Paren }

#[derive(Clone, Debug)]
pub struct Rej {
    /// byte length of the longest prefix that some KDL document starts with
    pub pos: usize,
    /// constructs open at `pos`, outermost first: kind and span of the opener
    pub open: Vec<(OpenKind, Sp)>,
    /// grammar production that was active (used for state signatures only)
    pub prod: &'static str,
}

pub fn is_newline(c: char) -> bool {
    matches!(c, '\r' | '\n' | '\x0C' | '\u{85}' | '\u{2028}' | '\u{2029}')
}
pub fn is_ws(c: char) -> bool {
    matches!(c, '\t' | ' ' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200A}'
        | '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}')
}
pub fn is_id(c: char) -> bool {
    c > '\u{20}' && !is_newline(c) && !is_ws(c)
        && !matches!(c, '\\' | '/' | '(' | ')' | '{' | '}' | '<' | '>' | ';'
            | '[' | ']' | '=' | ',' | '"')
}

pub struct P<'a> {
    s: &'a str,
    p: usize,
    open: Vec<(OpenKind, Sp)>,
    prod: &'static str,
}

type R<T> = Result<T, Rej>;


impl<'a> P<'a> {
    fn peek(&self) -> Option<char> { self.s[self.p..].chars().next() }
    fn peek2(&self) -> Option<char> { self.s[self.p..].chars().nth(1) }
    fn bump(&mut self) { if let Some(c) = self.peek() { self.p += c.len_utf8() } }
    fn starts(&self, t: &str) -> bool { self.s[self.p..].starts_with(t) }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) { self.bump(); true } else { false }
    }
    fn fail<T>(&self, pos: usize) -> R<T> {
        Err(Rej { pos, open: self.open.clone(), prod: self.prod })
    }
    /// fails here; at end of input that means "incomplete"
    fn fail_here<T>(&self) -> R<T> { self.fail(self.p) }

    fn newline(&mut self) -> bool {
        match self.peek() {
            Some('\r') => { self.bump(); self.eat('\n'); true }
            Some(c) if is_newline(c) => { self.bump(); true }
            _ => false,
        }
    }
    fn ml_comment(&mut self) -> R<()> {
        self.prod = "ml_comment";
        // at "/*"
        let depth0 = self.open.len();
        self.open.push((OpenKind::Comment, (self.p, self.p + 2)));
        self.p += 2;
        loop {
            if self.starts("*/") {
                self.p += 2;
                self.open.pop();
                if self.open.len() == depth0 { return Ok(()) }
            } else if self.starts("/*") {
                self.open.push((OpenKind::Comment, (self.p, self.p + 2)));
                self.p += 2;
            } else if self.peek().is_some() {
                self.bump();
            } else {
                return self.fail_here();
            }
        }
    }
    /// one ws: unicode space or multi-line comment
    fn ws1(&mut self) -> R<bool> {
        match self.peek() {
            Some(c) if is_ws(c) => { self.bump(); Ok(true) }
            Some('/') if self.peek2() == Some('*') => {
                self.ml_comment()?; Ok(true)
            }
            _ => Ok(false),
        }
    }
    fn at_line_comment(&self) -> bool { self.starts("//") }
    fn line_comment(&mut self) {
        self.prod = "line_comment";
        self.p += 2;
        loop {
            if self.newline() { return }
            if self.peek().is_none() { return }
            self.bump();
        }
    }
    fn esc_line(&mut self) -> R<()> {
        self.prod = "esc_line";
        // at '\\'
        self.bump();
        while self.ws1()? {}
        if self.at_line_comment() { self.line_comment(); return Ok(()) }
        if self.newline() { return Ok(()) }
        self.fail_slash()
    }
    /// fail at this point, where a '/' could begin a comment: `/` followed by
    /// end of input is still viable
    fn fail_slash<T>(&self) -> R<T> {
        if self.peek() == Some('/') { self.fail(self.p + 1) }
        else { self.fail_here() }
    }
    fn node_space(&mut self) -> R<bool> {
        let mut any = false;
        loop {
            if self.ws1()? { any = true; continue }
            if self.peek() == Some('\\') { self.esc_line()?; any = true; continue }
            return Ok(any)
        }
    }
    fn line_space(&mut self) -> R<bool> {
        let mut any = false;
        loop {
            if self.newline() { any = true; continue }
            if self.ws1()? { any = true; continue }
            if self.at_line_comment() { self.line_comment(); any = true; continue }
            return Ok(any)
        }
    }

    fn at_raw(&self) -> bool {
        let r = &self.s[self.p..];
        r.starts_with('r') && r[1..].trim_start_matches('#').starts_with('"')
    }
    fn raw_string(&mut self) -> R<String> {
        self.prod = "raw_string";
        let st = self.p;
        self.bump();
        let mut n = 0;
        while self.eat('#') { n += 1 }
        self.bump(); // quote
        self.open.push((OpenKind::Raw, (st, self.p)));
        let close = format!("\"{}", "#".repeat(n));
        match self.s[self.p..].find(&close) {
            Some(i) => {
                let v = self.s[self.p..self.p + i].to_string();
                self.p += i + close.len();
                self.open.pop();
                Ok(v)
            }
            None => self.fail(self.s.len()),
        }
    }
    fn esc_string(&mut self) -> R<String> {
        self.prod = "esc_string";
        self.open.push((OpenKind::Str, (self.p, self.p + 1)));
        self.bump();
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return self.fail_here(),
                Some('"') => { self.bump(); self.open.pop(); return Ok(out) }
                Some('\\') => {
                    self.bump();
                    match self.peek() {
                        None => return self.fail_here(),
                        Some(c@('"' | '\\' | '/')) => { out.push(c); self.bump() }
                        Some('b') => { out.push('\u{8}'); self.bump() }
                        Some('f') => { out.push('\u{c}'); self.bump() }
                        Some('n') => { out.push('\n'); self.bump() }
                        Some('r') => { out.push('\r'); self.bump() }
                        Some('t') => { out.push('\t'); self.bump() }
                        Some('u') => {
                            self.bump();
                            if !self.eat('{') { return self.fail_here() }
                            let mut v: u32 = 0;
                            let mut k = 0;
                            loop {
                                match self.peek() {
                                    Some(c) if c.is_ascii_hexdigit() && k < 6 => {
                                        let nv = v * 16 + c.to_digit(16).unwrap();
                                        k += 1;
                                        let ok = char::from_u32(nv).is_some()
                                            || (k < 6 && nv <= 0x10ffff);
                                        if !ok { return self.fail_here() }
                                        v = nv;
                                        self.bump();
                                    }
                                    Some('}') if k > 0 => {
                                        match char::from_u32(v) {
                                            Some(c) => out.push(c),
                                            None => return self.fail_here(),
                                        }
                                        self.bump();
                                        break;
                                    }
                                    _ => return self.fail_here(),
                                }
                            }
                        }
                        Some(_) => return self.fail_here(),
                    }
                }
                Some(c) => { out.push(c); self.bump() }
            }
        }
    }
    fn bare(&mut self) -> &'a str {
        let st = self.p;
        while self.peek().map_or(false, is_id) { self.bump() }
        &self.s[st..self.p]
    }
    /// identifier := string | bare-identifier (not a keyword, not a number)
    fn ident(&mut self) -> R<String> {
        self.prod = "ident";
        if self.at_raw() { return self.raw_string() }
        match self.peek() {
            Some('"') => self.esc_string(),
            Some(c) if c.is_ascii_digit() => self.fail_here(),
            Some('+' | '-') if self.peek2().map_or(false, |c| c.is_ascii_digit())
                => self.fail(self.p + 1),
            Some(c) if is_id(c) => {
                let b = self.bare();
                if matches!(b, "true" | "false" | "null") {
                    return self.fail_here();
                }
                Ok(b.to_string())
            }
            _ => self.fail_here(),
        }
    }
    fn digits(&mut self, radix: u32, out: &mut String) -> R<()> {
        self.prod = "digits";
        match self.peek() {
            Some(c) if c.is_digit(radix) => {}
            _ => return self.fail_here(),
        }
        while let Some(c) = self.peek() {
            if c.is_digit(radix) { out.push(c) }
            else if c != '_' { break }
            self.bump();
        }
        Ok(())
    }
    fn number(&mut self) -> R<Lit> {
        self.prod = "number";
        let mut neg = false;
        let mut text = String::new();
        if let Some(c@('+' | '-')) = self.peek() {
            neg = c == '-';
            if neg { text.push('-') }
            self.bump();
        }
        if self.peek() == Some('0') && matches!(self.peek2(), Some('x' | 'o' | 'b')) {
            self.bump();
            let radix = match self.peek() { Some('x') => 16, Some('o') => 8, _ => 2 };
            self.bump();
            let mut d = String::new();
            self.digits(radix, &mut d)?;
            return Ok(Lit::Int(int_value(neg, radix, &d)));
        }
        let mut d = String::new();
        self.digits(10, &mut d)?;
        let mut dec = false;
        text.push_str(&d);
        if self.peek() == Some('.') {
            dec = true;
            self.bump();
            text.push('.');
            self.digits(10, &mut text)?;
        }
        if let Some('e' | 'E') = self.peek() {
            dec = true;
            self.bump();
            text.push('e');
            if let Some(c@('+' | '-')) = self.peek() {
                self.bump();
                if c == '-' { text.push('-') }
            }
            self.digits(10, &mut text)?;
        }
        if dec {
            Ok(Lit::Dec(text.parse::<f64>().unwrap().to_bits(),
                        text.parse::<f32>().unwrap().to_bits()))
        } else {
            Ok(Lit::Int(int_value(neg, 10, &d)))
        }
    }
    fn at_number(&self) -> bool {
        match self.peek() {
            Some(c) if c.is_ascii_digit() => true,
            Some('+' | '-') => self.peek2().map_or(false, |c| c.is_ascii_digit()),
            _ => false,
        }
    }
    /// value without type, where no bare identifier may stand
    fn literal(&mut self) -> R<(Lit, Sp)> {
        self.prod = "literal";
        let st = self.p;
        if self.at_raw() { let s = self.raw_string()?; return Ok((Lit::Str(s), (st, self.p))) }
        if self.peek() == Some('"') { let s = self.esc_string()?; return Ok((Lit::Str(s), (st, self.p))) }
        if self.at_number() { let l = self.number()?; return Ok((l, (st, self.p))) }
        for (k, l) in [("true", Lit::Bool(true)), ("false", Lit::Bool(false)), ("null", Lit::Null)] {
            if self.starts(k) { self.p += k.len(); return Ok((l, (st, self.p))) }
        }
        // longest viable prefix of r#.., sign+digit or a keyword
        let rest = &self.s[self.p..];
        let mut best = 0;
        for k in ["true", "false", "null"] {
            let n = k.bytes().zip(rest.bytes()).take_while(|(a, b)| a == b).count();
            best = best.max(n);
        }
        if rest.starts_with('r') {
            best = 1 + (rest[1..].len() - rest[1..].trim_start_matches('#').len());
        }
        if rest.starts_with(&['+', '-'][..]) { best = 1 }
        self.fail(st + best)
    }
    fn type_name(&mut self) -> R<(String, Sp)> {
        self.prod = "type_name";
        let st = self.p;
        self.open.push((OpenKind::Paren, (st, st + 1)));
        self.bump();
        let id = self.ident()?;
        if !self.eat(')') { return self.fail_here() }
        self.open.pop();
        Ok((id, (st, self.p)))
    }
    fn value(&mut self) -> R<Val> {
        self.prod = "value";
        let ty = if self.peek() == Some('(') { Some(self.type_name()?) } else { None };
        let (lit, span) = self.literal()?;
        Ok(Val { ty, lit, span })
    }
    /// prop or arg; Ok(None) if none can start here
    fn prop_or_arg(&mut self) -> R<Item> {
        self.prod = "prop_or_arg";
        let st = self.p;
        if self.peek() == Some('(') { return Ok(Item::Arg(self.value()?)) }
        let is_string = self.at_raw() || self.peek() == Some('"');
        if is_string {
            let (lit, span) = self.literal()?;
            if self.eat('=') {
                let v = self.value()?;
                match lit { Lit::Str(s) => return Ok(Item::Prop(s, span, v)), _ => unreachable!() }
            }
            return Ok(Item::Arg(Val { ty: None, lit, span }));
        }
        if self.at_number() {
            let (lit, span) = self.literal()?;
            return Ok(Item::Arg(Val { ty: None, lit, span }));
        }
        match self.peek() {
            Some(c) if is_id(c) => {
                let b = self.bare();
                let span = (st, self.p);
                let kw = match b {
                    "true" => Some(Lit::Bool(true)),
                    "false" => Some(Lit::Bool(false)),
                    "null" => Some(Lit::Null),
                    _ => None,
                };
                if let Some(lit) = kw { return Ok(Item::Arg(Val { ty: None, lit, span })) }
                if self.eat('=') {
                    let v = self.value()?;
                    return Ok(Item::Prop(b.to_string(), span, v));
                }
                self.fail_here()
            }
            _ => self.fail_slash(),
        }
    }
    fn node(&mut self) -> R<Node> {
        self.prod = "node";
        let st = self.p;
        let ty = if self.peek() == Some('(') { Some(self.type_name()?) } else { None };
        let nst = self.p;
        let name = self.ident()?;
        let name = (name, (nst, self.p));
        let mut args = Vec::new();
        let mut props: BTreeMap<String, (Vec<Sp>, Val)> = BTreeMap::new();
        let mut children = None;
        loop {
            let sp = self.node_space()?;
            self.prod = if sp { "node-sp" } else { "node-nosp" };
            // slashdash?
            if self.starts("/-") {
                self.p += 2;
                self.node_space()?;
                if self.peek() == Some('{') {
                    self.children()?;
                    return self.finish(st, ty, name, args, props, None);
                }
                if !sp { return self.fail_here() }
                self.prop_or_arg()?;
                continue;
            }
            match self.peek() {
                Some('{') => {
                    children = Some(self.children()?);
                    return self.finish(st, ty, name, args, props, children);
                }
                None | Some(';') => return self.finish(st, ty, name, args, props, children),
                Some(c) if is_newline(c) => return self.finish(st, ty, name, args, props, children),
                _ if self.at_line_comment() => return self.finish(st, ty, name, args, props, children),
                Some('/') => return self.fail(self.p + 1),
                _ => {}
            }
            if !sp { return self.fail_here() }
            match self.prop_or_arg()? {
                Item::Arg(v) => args.push(v),
                Item::Prop(k, sp, v) => {
                    let e = props.entry(k).or_insert_with(|| (Vec::new(), v.clone()));
                    e.0.push(sp);
                    e.1 = v;
                }
            }
        }
    }
    fn finish(&mut self, st: usize, ty: Option<(String, Sp)>, name: (String, Sp),
              args: Vec<Val>, props: BTreeMap<String, (Vec<Sp>, Val)>,
              children: Option<(Vec<Node>, Sp)>) -> R<Node> {
        self.prod = "finish";
        self.node_space()?;
        if self.at_line_comment() { self.line_comment() }
        else if self.newline() || self.eat(';') || self.peek().is_none() {}
        else { return self.fail_slash() }
        // a node that ends at the end of input inside braces is handled by the caller
        Ok(Node { ty, name, args, props, children, span: (st, self.p) })
    }
    fn children(&mut self) -> R<(Vec<Node>, Sp)> {
        self.prod = "children";
        let st = self.p;
        self.open.push((OpenKind::Brace, (st, st + 1)));
        self.bump();
        let v = self.nodes(true)?;
        if !self.eat('}') { return self.fail_slash() }
        self.open.pop();
        Ok((v, (st, self.p)))
    }
    fn nodes(&mut self, inner: bool) -> R<Vec<Node>> {
        self.prod = "nodes";
        let mut v = Vec::new();
        loop {
            self.line_space()?;
            self.prod = "nodes";
            match self.peek() {
                None => return if inner { self.fail_here() } else { Ok(v) },
                Some('}') if inner => return Ok(v),
                _ => {}
            }
            if self.starts("/-") {
                self.p += 2;
                self.node_space()?;
                if self.peek().is_none() { return self.fail_here() }
                self.node()?;
            } else if self.peek() == Some('/') {
                return self.fail(self.p + 1);
            } else {
                let n = self.node()?;
                v.push(n);
            }
        }
    }
}

enum Item { Arg(Val), Prop(String, Sp, Val) }

pub fn int_value(neg: bool, radix: u32, d: &str) -> Num {
    let mut m: u128 = 0;
    for c in d.chars() {
        m = m.saturating_mul(radix as u128).saturating_add(c.to_digit(radix).unwrap() as u128);
        if m > 1 << 70 { m = 1 << 70 }
    }
    let v = if neg { -(m as i128) } else { m as i128 };
    if v >= i64::MIN as i128 && v <= u64::MAX as i128 { Num::I(v) } else { Num::Big }
}

pub struct Out {
    pub res: Result<Vec<Node>, Rej>,
    /// signature of the model's control state after reading the whole input
    pub sig: u64,
    /// no extension of the input is a KDL document
    pub dead: bool,
}

pub fn parse(s: &str) -> Result<Vec<Node>, Rej> {
    let mut p = P { s, p: 0, open: Vec::new(), prod: "nodes" };
    p.nodes(false)
}

pub fn run(s: &str) -> Out {
    let mut p = P { s, p: 0, open: Vec::new(), prod: "nodes" };
    let res = p.nodes(false);
    use crate::engine::h64;
    match res {
        Ok(v) => {
            let last = v.last().map(|n| (
                n.ty.is_some(), n.args.len().min(2), n.props.len().min(2),
                n.children.as_ref().map(|c| c.0.len().min(2)),
                n.span.1 == s.len(), n.name.1.1 == s.len(),
                n.args.last().map(|a| (a.span.1 == s.len(), std::mem::discriminant(&a.lit))),
            ));
            let sig = h64(&(1u8, p.prod, v.len().min(2), last, s.chars().last().map(class)));
            Out { res: Ok(v), sig, dead: false }
        }
        Err(r) => {
            let dead = r.pos < s.len();
            let kinds: Vec<u8> = r.open.iter().map(|o| o.0 as u8).collect();
            let sig = h64(&(2u8 + dead as u8, r.prod, kinds, s.len().saturating_sub(r.pos).min(1),
                if dead { None } else { s.chars().last().map(class) }));
            Out { res: Err(r), sig, dead }
        }
    }
}

/// lexical class of a character
pub fn class(c: char) -> u8 {
    if is_newline(c) { 0 } else if is_ws(c) { 1 }
    else if c.is_ascii_digit() { 2 } else if c.is_ascii_alphabetic() { 3 }
    else if c.is_ascii() { c as u8 } else if is_id(c) { 4 } else { 5 }
}
