//! Grammar-directed documents: a tree is rendered with explicit choices for
//! every trivia slot and every `/-` flag, so the expected tree is known by
//! construction (no parser is involved in the oracle).
use crate::engine::{h64, thorough, Task, Worker};
use crate::obs;
use crate::pchecks::{brief, first_msg, same_nodes};
use crate::refp::{self, Lit, Node, Num, Val};
use knuffel::span::Span;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum GItem { Arg(&'static str, &'static str), Prop(&'static str, &'static str, &'static str, &'static str) }
// Arg(type, text)   Prop(key text, key value, type, text)

#[derive(Clone, Debug)]
pub struct GNode { ty: &'static str, name: &'static str, items: Vec<GItem>, children: Option<Vec<GNode>> }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Line, Sp1, Sp0, Term, LastTerm, Gap }

#[derive(Clone, Debug)]
pub enum Piece { Text(String), Slot(Kind) }

fn lit(text: &str) -> Lit {
    match text {
        "1" => Lit::Int(Num::I(1)),
        "-0x1F" => Lit::Int(Num::I(-31)),
        "2.5" => Lit::Dec(2.5f64.to_bits(), 2.5f32.to_bits()),
        "true" => Lit::Bool(true),
        "null" => Lit::Null,
        "\"x//y\"" => Lit::Str("x//y".into()),
        "\"/*z*/ /-\"" => Lit::Str("/*z*/ /-".into()),
        "r#\"\\\n;\"#" => Lit::Str("\\\n;".into()),
        "\"\"" => Lit::Str("".into()),
        _ => panic!("literal {}", text),
    }
}

fn val(ty: &str, text: &str) -> Val {
    Val { ty: if ty.is_empty() { None } else { Some((ty.to_string(), (0, 0))) }, lit: lit(text), span: (0, 0) }
}

struct R<'a> { out: Vec<Piece>, flags: &'a [bool], next: usize }

impl<'a> R<'a> {
    fn text(&mut self, s: &str) {
        if let Some(Piece::Text(t)) = self.out.last_mut() { t.push_str(s) } else { self.out.push(Piece::Text(s.to_string())) }
    }
    fn slot(&mut self, k: Kind) { self.out.push(Piece::Slot(k)) }
    fn flag(&mut self) -> bool {
        let f = self.flags.get(self.next).copied().unwrap_or(false);
        self.next += 1;
        if f { self.text("/-"); self.slot(Kind::Gap) }
        f
    }
    fn nodes(&mut self, v: &[GNode], top: bool) -> Vec<Node> {
        let mut res = Vec::new();
        for (i, n) in v.iter().enumerate() {
            self.slot(Kind::Line);
            let f = self.flag();
            let r = self.node(n, top && i + 1 == v.len());
            if !f { res.push(r) }
        }
        self.slot(Kind::Line);
        res
    }
    fn node(&mut self, n: &GNode, last: bool) -> Node {
        let mut r = Node {
            ty: if n.ty.is_empty() { None } else { Some((n.ty.to_string(), (0, 0))) },
            name: (n.name.trim_matches('"').to_string(), (0, 0)),
            args: vec![], props: Default::default(), children: None, span: (0, 0),
        };
        if !n.ty.is_empty() { self.text(&format!("({})", n.ty)) }
        self.text(n.name);
        for it in &n.items {
            self.slot(Kind::Sp1);
            let f = self.flag();
            match it {
                GItem::Arg(ty, t) => {
                    if !ty.is_empty() { self.text(&format!("({})", ty)) }
                    self.text(t);
                    if !f { r.args.push(val(ty, t)) }
                }
                GItem::Prop(kt, k, ty, t) => {
                    self.text(&format!("{}=", kt));
                    if !ty.is_empty() { self.text(&format!("({})", ty)) }
                    self.text(t);
                    if !f { r.props.insert(k.to_string(), (vec![], val(ty, t))); }
                }
            }
        }
        if let Some(c) = &n.children {
            self.slot(Kind::Sp0);
            let f = self.flag();
            self.text("{");
            let ch = self.nodes(c, false);
            self.text("}");
            if !f { r.children = Some((ch, (0, 0))) }
        }
        self.slot(Kind::Sp0);
        self.slot(if last { Kind::LastTerm } else { Kind::Term });
        r
    }
}

/// pieces, expected tree, number of flaggable elements
pub fn render(doc: &[GNode], flags: &[bool]) -> (Vec<Piece>, Vec<Node>, usize) {
    let mut r = R { out: vec![], flags, next: 0 };
    let t = r.nodes(doc, true);
    (r.out, t, r.next)
}

pub const SPACES: &[&str] = &[" ", "\t", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}",
    "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}", "\u{202f}", "\u{205f}", "\u{3000}", "\u{feff}",
    "  ", " \t ", "/*c*/", "/**/", "/***/", "/* a // b */", "/*/*n*/m*/", "/*\n\r*/", "/*\"*/", "/*{*/", " /*c*/ ", "/*a*//*b*/",
    "/*é中😀*/", "/*/**//**/*/"];
pub const ESCS: &[&str] = &["\\\n", "\\\r\n", "\\\r", "\\\x0c", "\\\u{85}", "\\\u{2028}", "\\\u{2029}", " \\\n ", "\\ \n", "\\\t/*c*/\n",
    "\\//c\n", "\\ // c\r\n", "\\//\n", "\\\n\\\n", " \\\n\t\\ //x\n /*y*/"];
pub const NEWLINES: &[&str] = &["\n", "\r\n", "\r", "\x0c", "\u{85}", "\u{2028}", "\u{2029}"];
pub const LCOMS: &[&str] = &["//c\n", "//\n", "//c\r\n", "//c\r", "//c\u{2028}", "// /* c\n", "// \"x\n", "///\n", "//\\\n", "//é中\n"];

pub fn options(k: Kind) -> Vec<String> {
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    match k {
        // the first one is the default
        Kind::Line => {
            let mut v = own(&["", "\n\n", "\n//c\n/*d*/\n", "\r\r\n\n", " \n\t\n"]);
            v.extend(own(NEWLINES)); v.extend(own(SPACES)); v.extend(own(LCOMS)); v
        }
        Kind::Sp1 => { let mut v = own(SPACES); v.extend(own(ESCS)); v }
        Kind::Sp0 | Kind::Gap => { let mut v = own(&[""]); v.extend(own(SPACES)); v.extend(own(ESCS)); v }
        Kind::Term | Kind::LastTerm => {
            let mut v = own(NEWLINES);
            v.push(";".into());
            v.extend(own(LCOMS));
            if k == Kind::LastTerm { v.push("".into()); v.push("//c".into()); v.push("//".into()) }
            v
        }
    }
}
/// a small menu for combinations of deviations
pub fn few(k: Kind) -> Vec<String> {
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    match k {
        Kind::Line => own(&["", "\r\n", "//c\n", "/*c*/", "\u{feff}"]),
        Kind::Sp1 => own(&[" ", "/*c*/", "\\\r\n", "\t \\ //c\n", "\u{3000}"]),
        Kind::Sp0 | Kind::Gap => own(&["", "/*/**/*/", " \\\n", " "]),
        Kind::Term | Kind::LastTerm => own(&["\n", ";", "//c\r", "\r"]),
    }
}

/// several pieces in one slot: every sequence of up to `n`, and each piece many times over
pub fn chains(k: Kind, n: usize) -> Vec<String> {
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let pieces = match k {
        Kind::Line => own(&["\n", "\r\n", "\r", " ", "//c\n", "/*c*/"]),
        Kind::Sp1 | Kind::Sp0 | Kind::Gap => own(&[" ", "\u{3000}", "/*c*/", "/*\n*/", "\\\n", "\\ //c\r\n"]),
        Kind::Term | Kind::LastTerm => return vec![],
    };
    let mut out: Vec<String> = vec![];
    let mut last = vec![String::new()];
    for _ in 0..n {
        last = last.iter().flat_map(|a| pieces.iter().map(move |p| format!("{}{}", a, p))).collect();
        out.extend(last.iter().cloned());
    }
    for p in &pieces { for r in [5, 8, 9, 16, 17, 33, 70] { out.push(p.repeat(r)) } }
    if k != Kind::Line {
        // between the backslash and the end of its line
        let inner = ["", " ", "\t", "/**/", "/*\n*/"];
        for i in 0..inner.len().pow(n as u32 + 1) {
            let mut i = i;
            let mut s = String::from("\\");
            for _ in 0..n + 1 { s.push_str(inner[i % inner.len()]); i /= inner.len() }
            for e in ["\n", "//\r\n"] { out.push(format!("{}{}", s, e)) }
        }
        for p in [" ", "/**/"] { for r in [5, 8, 9, 16, 17, 33, 70] { out.push(format!("\\{}\n", p.repeat(r))); out.push(format!(" \\{}// x\n ", p.repeat(r))) } }
    }
    out.sort();
    out.dedup();
    out
}

/// a lone CR in one slot and an LF in the next would read as one CRLF
fn fuses(s: &str, t: &str) -> bool { s.ends_with('\r') && t.starts_with('\n') }

/// replaces slots by text; `dev` lists (slot number, option text)
pub fn fill(p: &[Piece], dev: &[(usize, &str)]) -> String {
    let mut s = String::new();
    let mut i = 0;
    for x in p {
        match x {
            Piece::Text(t) => s.push_str(t),
            Piece::Slot(k) => {
                let t = match dev.iter().find(|d| d.0 == i) {
                    Some(d) => d.1,
                    None => match k { Kind::Sp1 => " ", Kind::Term | Kind::LastTerm => "\n", _ => "" },
                };
                if fuses(&s, t) { return String::new() }
                s.push_str(t);
                i += 1;
            }
        }
    }
    s
}

pub fn slots(p: &[Piece]) -> Vec<Kind> {
    p.iter().filter_map(|x| if let Piece::Slot(k) = x { Some(*k) } else { None }).collect()
}

fn leaf(name: &'static str, items: Vec<GItem>) -> GNode { GNode { ty: "", name, items, children: None } }

pub fn bases() -> Vec<Vec<GNode>> {
    use GItem::*;
    let items = [Arg("", "1"), Arg("", "\"x//y\""), Arg("t", "true"), Prop("k", "k", "", "-0x1F"),
        Prop("k", "k", "u", "\"\""), Prop("\"/*q\"", "/*q", "", "null"), Arg("", "\"/*z*/ /-\""),
        Arg("", "r#\"\\\n;\"#"), Arg("u8", "2.5")];
    let mut seqs: Vec<Vec<GItem>> = vec![vec![]];
    for a in &items { seqs.push(vec![a.clone()]) }
    for a in &items[..6] { for b in &items[..6] { seqs.push(vec![a.clone(), b.clone()]) } }
    seqs.push(vec![items[0].clone(), items[3].clone(), items[4].clone(), items[2].clone()]);
    let kids: Vec<Option<Vec<GNode>>> = vec![None, Some(vec![]), Some(vec![leaf("c", vec![])]),
        Some(vec![leaf("c", vec![items[0].clone()]), leaf("d", vec![])]),
        Some(vec![GNode { ty: "t", name: "c", items: vec![items[3].clone()], children: Some(vec![leaf("e", vec![])]) }])];
    let mut out = vec![vec![]];
    for s in &seqs { for (ki, k) in kids.iter().enumerate() {
        if s.len() == 2 && ki > 3 { continue }
        for ty in ["", "t"] {
            if s.len() == 2 && ty == "t" { continue }
            out.push(vec![GNode { ty, name: if ty.is_empty() { "n" } else { "\"na\"" }, items: s.clone(), children: k.clone() }]);
        }
    } }
    let some: Vec<GNode> = vec![
        leaf("a", vec![]), leaf("b", vec![items[0].clone()]), leaf("b", vec![items[3].clone(), items[4].clone()]),
        GNode { ty: "t", name: "a", items: vec![], children: Some(vec![leaf("c", vec![])]) },
        GNode { ty: "", name: "b", items: vec![items[1].clone()], children: Some(vec![]) },
    ];
    for a in &some { for b in &some { out.push(vec![a.clone(), b.clone()]) } }
    for a in &some { out.push(vec![a.clone(), some[1].clone(), a.clone()]) }
    out
}

/// the implementation's tree of `doc` is `want`
pub fn expect(doc: &str, want: &[Node]) -> Result<u64, String> {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<u64, String> {
        match knuffel::parse_ast::<Span>("doc.kdl", doc) {
            Err(e) => Err(format!("valid document rejected: {}", first_msg(&e))),
            Ok(d) => {
                let d = obs::doc(&d);
                if same_nodes(want, &d) { Ok(h64(&brief(&d))) }
                else { Err(format!("tree differs\n  expected {:?}\n  found    {:?}", brief(want), brief(&d))) }
            }
        }
    }));
    r.unwrap_or_else(|p| Err(format!("panicked: {}", crate::spaces::panic_msg(&p))))
}

fn go(w: &mut Worker, doc: &str, want: &[Node], base: u64, dev: u64) {
    if doc.is_empty() && !want.is_empty() { return } // combination that does not exist
    let o = refp::run(doc);
    // the model must agree with the construction: otherwise the check is wrong
    match &o.res {
        Ok(t) if same_nodes(want, t) => {}
        _ => { eprintln!("model and construction disagree on {:?}", doc); std::process::exit(3) }
    }
    w.state(o.sig);
    w.transition(base, dev);
    w.stats.accepted += 1;
    w.begin(doc);
    let r = expect(doc, want);
    w.end();
    match r { Ok(h) => w.outcome(h), Err(m) => w.violation(doc, m) }
}

pub fn c05() -> Vec<Task> {
    let mut tasks: Vec<Task> = Vec::new();
    for (bi, b) in bases().into_iter().enumerate() {
        let b = Arc::new(b);
        let nm = format!("documents x {} trivia deviations", if thorough() { "<=3" } else { "<=2" });
        tasks.push((nm, Box::new(move |w| {
            let (p, want, _) = render(&b, &[]);
            let ks = slots(&p);
            let base = fill(&p, &[]);
            let hb = h64(&base);
            go(w, &base, &want, hb, 0);
            let last_term = ks.iter().position(|k| *k == Kind::LastTerm);
            let ok = |dev: &[(usize, &str)]| {
                // an absent terminator needs the end of input right after it
                let Some(lt) = last_term else { return true };
                let t = dev.iter().find(|d| d.0 == lt).map_or("\n", |d| d.1);
                let open = t.is_empty() || t.starts_with("//") && !t.chars().last().map_or(false, refp::is_newline);
                !open || !dev.iter().any(|d| d.0 > lt)
            };
            // every single deviation
            for (i, k) in ks.iter().enumerate() {
                for o in options(*k) {
                    if w.stopped() { return }
                    let dev = [(i, &o[..])];
                    if ok(&dev) { go(w, &fill(&p, &dev), &want, hb, h64(&(i, &o))) }
                }
            }
            // long ones
            if thorough() || bi % 23 == 3 {
                for (i, k) in ks.iter().enumerate() {
                    for o in chains(*k, if thorough() { 4 } else { 3 }) {
                        if w.stopped() { return }
                        let dev = [(i, &o[..])];
                        if ok(&dev) { go(w, &fill(&p, &dev), &want, hb, h64(&(i, &o))) }
                    }
                }
            }
            // every pair: full menus in the thorough tier
            let full = thorough() || bi % 9 == 0;
            for i in 0..ks.len() { for j in i + 1..ks.len() {
                let (a, c) = if full && j == i + 1 { (options(ks[i]), options(ks[j])) } else { (few(ks[i]), few(ks[j])) };
                for x in &a { for y in &c {
                    if w.stopped() { return }
                    let dev = [(i, &x[..]), (j, &y[..])];
                    if ok(&dev) { go(w, &fill(&p, &dev), &want, hb, h64(&(i, x, j, y))) }
                } }
            } }
            if thorough() {
                for i in 0..ks.len() { for j in i + 1..ks.len() { for l in j + 1..ks.len() {
                    for x in &few(ks[i]) { for y in &few(ks[j]) { for z in &few(ks[l]) {
                        if w.stopped() { return }
                        let dev = [(i, &x[..]), (j, &y[..]), (l, &z[..])];
                        if ok(&dev) { go(w, &fill(&p, &dev), &want, hb, h64(&(i, x, j, y, l, z))) }
                    } } }
                } } }
            }
            // all slots at once, one option each
            for n in 0..64 {
                let v: Vec<Vec<String>> = ks.iter().map(|k| options(*k)).collect();
                let dev: Vec<(usize, &str)> = v.iter().enumerate().map(|(i, o)| (i, &o[n % o.len()][..])).collect();
                if ok(&dev) { go(w, &fill(&p, &dev), &want, hb, h64(&(n, "all"))) }
            }
        })));
    }
    tasks
}

pub fn c06() -> Vec<Task> {
    let mut tasks: Vec<Task> = Vec::new();
    for (bi, b) in bases().into_iter().enumerate() {
        let b = Arc::new(b);
        tasks.push(("documents x sets of slash-dashed elements x trivia".to_string(), Box::new(move |w| {
            let (_, _, n) = render(&b, &[]);
            let hb = h64(&fill(&render(&b, &[]).0, &[]));
            for set in 0u32..(1 << n.min(10)) {
                let flags: Vec<bool> = (0..n).map(|i| set >> i & 1 == 1).collect();
                let (p, want, _) = render(&b, &flags);
                let doc = fill(&p, &[]);
                go(w, &doc, &want, hb, h64(&(set, 0)));
                if w.stopped() { return }
                let ks = slots(&p);
                // `n/-{}`-style contact and every gap, alone and next to others
                let max_dev = set.count_ones() <= if thorough() { 3 } else { 2 };
                if max_dev {
                    for (i, k) in ks.iter().enumerate() {
                        if *k == Kind::Gap {
                            for o in options(*k) { go(w, &fill(&p, &[(i, &o)]), &want, hb, h64(&(set, i, &o))) }
                            if set.count_ones() == 1 && (thorough() || bi % 23 == 3) {
                                for o in chains(*k, 3) { go(w, &fill(&p, &[(i, &o)]), &want, hb, h64(&(set, i, &o))); if w.stopped() { return } }
                            }
                            for j in [i.wrapping_sub(1), i + 1] {
                                if j < ks.len() && ks[j] != Kind::LastTerm {
                                    for o in few(*k) { for q in few(ks[j]) {
                                        go(w, &fill(&p, &[(i, &o), (j, &q)]), &want, hb, h64(&(set, i, &o, j, &q)));
                                    } }
                                }
                            }
                        } else if set.count_ones() == 1 {
                            for o in few(*k) {
                                go(w, &fill(&p, &[(i, &o)]), &want, hb, h64(&(set, i, &o)));
                            }
                        }
                        if w.stopped() { return }
                    }
                }
            }
        })));
    }
    tasks
}
