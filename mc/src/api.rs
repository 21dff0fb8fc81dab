//! C30 (values that carry spans) and C31 (errors raised by decoders written by hand).
use crate::engine::h64;
use crate::obs::{self, ToSp};
use crate::refp;
use crate::spaces::Check;
use knuffel::ast::{BuiltinType, Document, Literal, SpannedNode, TypeName};
use knuffel::decode::{Context, Kind};
use knuffel::errors::{DecodeError, ExpectedType};
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::{DecodeChildren, ErrorSpan};
use std::borrow::Borrow;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// everything in a tree that carries a span
struct Parts<'a, S> {
    names: Vec<&'a Spanned<Box<str>, S>>,
    types: Vec<&'a Spanned<TypeName, S>>,
    lits: Vec<&'a Spanned<Literal, S>>,
    nodes: Vec<&'a SpannedNode<S>>,
    blocks: Vec<&'a Spanned<Vec<SpannedNode<S>>, S>>,
}
fn parts<S>(nodes: &[SpannedNode<S>]) -> Parts<'_, S> {
    fn go<'a, S>(nodes: &'a [SpannedNode<S>], p: &mut Parts<'a, S>) {
        for n in nodes {
            p.nodes.push(n);
            p.types.extend(&n.type_name);
            p.names.push(&n.node_name);
            for v in &n.arguments { p.types.extend(&v.type_name); p.lits.push(&v.literal) }
            for (k, v) in &n.properties { p.names.push(k); p.types.extend(&v.type_name); p.lits.push(&v.literal) }
            if let Some(c) = &n.children { p.blocks.push(c); go(c, p) }
        }
    }
    let mut p = Parts { names: vec![], types: vec![], lits: vec![], nodes: vec![], blocks: vec![] };
    go(nodes, &mut p);
    p
}

/// less only if both parts are
#[derive(Debug, Clone, PartialEq)]
struct Both(usize, u8);
impl PartialOrd for Both {
    fn partial_cmp(&self, o: &Both) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if self == o { Some(Equal) } else if self.0 <= o.0 && self.1 <= o.1 { Some(Less) } else if self.0 >= o.0 && self.1 >= o.1 { Some(Greater) } else { None }
    }
}

macro_rules! must { ($e:expr, $($m:tt)*) => { if !$e { return Err(format!($($m)*)) } } }

fn spanned<S: ErrorSpan + ToSp + PartialEq>(a: &Document<S>, b: &Document<S>) -> Result<(), String> {
    let (p, q) = (parts(&a.nodes), parts(&b.nodes));
    const CAP: usize = 14;
    let names: Vec<_> = p.names.iter().take(CAP).chain(q.names.iter().take(CAP)).copied().collect();
    let mut tree: BTreeSet<Spanned<Box<str>, S>> = BTreeSet::new();
    let mut table: HashSet<Spanned<Box<str>, S>> = HashSet::new();
    let (mut tree0, mut table0) = (BTreeSet::new(), HashSet::new());
    for x in &names {
        let v: &Box<str> = x;
        let r: &str = x.as_ref();
        must!(r == &**v, "as_ref of {:?} is {:?}", v, r);
        must!(<Spanned<Box<str>, S> as Borrow<Box<str>>>::borrow(x) == v, "borrow of {:?}", v);
        must!(<Spanned<Box<str>, S> as Borrow<str>>::borrow(x) == &**v, "borrow of {:?} as str", v);
        must!(hash(*x) == hash(v), "hash of {:?} with a span differs", v);
        must!(tree.insert((*x).clone()) == tree0.insert(v.clone()), "BTreeSet insert of {:?}", v);
        must!(table.insert((*x).clone()) == table0.insert(v.clone()), "HashSet insert of {:?}", v);
        must!(tree.contains(&**v) && table.contains(&**v), "{:?} is not found again", v);
        let m = (*x).clone().map(|s| s.len());
        must!(*m == v.len() && m.span() == x.span(), "map of {:?}", v);
        let m = (*x).clone().map_span(|s| (s, 7u8));
        must!(m.span() == &(x.span().clone(), 7) && &*m == v, "map_span of {:?}", v);
        let mut m = (*x).clone();
        *m = "other".into();
        must!(&**m == "other" && m.span() == x.span() && (m == **x) == (&****x == "other"), "assignment through {:?}", v);
        let mut m = (*x).clone();
        { let s: &mut str = m.as_mut(); s.make_ascii_uppercase() }
        must!(**m == *v.to_ascii_uppercase() && m.span() == x.span(), "as_mut of {:?}", v);
        for y in &names {
            let w: &Box<str> = y;
            must!((x == y) == (v == w) && (x != y) == (v != w), "{:?} == {:?} with spans {:?} {:?} is {}", v, w, x.span(), y.span(), x == y);
            must!(x.cmp(y) == v.cmp(w) && x.partial_cmp(y) == v.partial_cmp(w), "order of {:?} and {:?} with spans", v, w);
            // values of which neither is less
            let f = |s: &Box<str>| Both(s.len(), s.bytes().next().unwrap_or(0));
            let (a, b) = ((*x).clone().map(|s| f(&s)), (*y).clone().map(|s| f(&s)));
            must!(a.partial_cmp(&b) == f(v).partial_cmp(&f(w)) && (a < b) == (f(v) < f(w)) && (a >= b) == (f(v) >= f(w)) && (a == b) == (f(v) == f(w)), "partial order of {:?} and {:?} with spans", f(v), f(w));
            must!((x < y) == (v < w) && (x <= y) == (v <= w) && (x > y) == (v > w) && (x >= y) == (v >= w), "comparison of {:?} and {:?} with spans", v, w);
        }
    }
    must!(tree.iter().map(|s| &**s).eq(tree0.iter()), "order of names {:?}", tree0);
    let lits: Vec<_> = p.lits.iter().take(CAP).chain(q.lits.iter().take(CAP)).collect();
    for x in &lits { for y in &lits {
        must!((x == y) == (***x == ***y), "{:?} == {:?} with spans is {}", ***x, ***y, x == y);
        // equal literals are of one kind and value
        if x == y { must!(obs::lit(x) == obs::lit(y), "{:?} and {:?} are equal", ***x, ***y) }
    } }
    let types: Vec<_> = p.types.iter().take(CAP).chain(q.types.iter().take(CAP)).collect();
    for x in &types { for y in &types {
        must!((x == y) == (x.as_str() == y.as_str()), "type names {:?} == {:?} is {}", x.as_str(), y.as_str(), x == y);
    } }
    // the same elements, elsewhere
    must!(p.names.len() == q.names.len() && p.names.iter().zip(&q.names).all(|(x, y)| x == y), "names of a shifted copy are not equal");
    must!(p.lits.len() == q.lits.len() && p.lits.iter().zip(&q.lits).all(|(x, y)| x == y), "literals of a shifted copy are not equal");
    must!(p.types.len() == q.types.len() && p.types.iter().zip(&q.types).all(|(x, y)| x == y), "type names of a shifted copy are not equal");
    for n in &p.nodes {
        let direct: Vec<*const SpannedNode<S>> = n.children.iter().flat_map(|c| c.iter()).map(|c| c as *const _).collect();
        must!(n.children().len() == direct.len(), "children() of {:?} has length {}, there are {}", n.node_name, n.children().len(), direct.len());
        must!(n.children().map(|c| c as *const _).eq(direct.iter().copied()), "children() of {:?}", n.node_name);
        let keys: Vec<&str> = n.properties.keys().map(|k| &***k).collect();
        must!(keys.windows(2).all(|w| w[0] < w[1]), "property names {:?} are not in order", keys);
        for (k, v) in &n.properties {
            must!(n.properties.get::<str>(k).map(|x| x as *const _) == Some(v as *const _), "property {:?} is not found by its name", k);
        }
        for k in ["", "a", "b", "k", "zzz", "\u{e9}"] {
            must!(n.properties.contains_key(k) == keys.contains(&k), "property {:?} in {:?}", k, keys);
        }
    }
    for s in p.names.iter().map(|x| x.span()).chain(p.nodes.iter().map(|x| x.span())).chain(p.blocks.iter().map(|x| x.span())) {
        let m: miette::SourceSpan = s.clone().into();
        let (i, j) = s.sp();
        must!((m.offset(), m.len()) == (i, j - i), "{:?} as a label is at {} with length {}", s, m.offset(), m.len());
    }
    Ok(())
}

pub fn c30() -> Check {
    Arc::new(|doc: &str, out: &refp::Out| {
        if out.res.is_err() || doc.starts_with('\u{feff}') { return Ok(0) }
        let Ok(a) = knuffel::parse_ast::<Span>("doc.kdl", doc) else { return Ok(1) };
        let shifted = format!("//x\n\n{}", doc);
        let Ok(b) = knuffel::parse_ast::<Span>("doc.kdl", &shifted) else { return Ok(1) };
        spanned(&a, &b)?;
        for n in &a.nodes {
            let s = n.span();
            must!(s.to_string() == format!("{}..{}", s.0, s.1), "{:?} displays as {}", s, s);
            must!(&Span::from(s.0..s.1) == s, "{:?} from its range", s);
            must!(s.length() == s.1 - s.0, "length of {:?} is {}", s, s.length());
        }
        let (Ok(la), Ok(lb)) = (knuffel::parse_ast::<LineSpan>("doc.kdl", doc), knuffel::parse_ast::<LineSpan>("doc.kdl", &shifted)) else { return Ok(1) };
        spanned(&la, &lb)?;
        // copies into the other kind of span
        let conv = knuffel::parse_with_context::<Vec<SpannedNode<Span>>, LineSpan, _>("doc.kdl", doc, |_| {}).map_err(|_| "a list of nodes is not decoded")?;
        must!(conv.iter().map(|n| obs::node(n)).eq(a.nodes.iter().map(|n| obs::node(n))), "spans converted from line spans differ");
        let p = parts(&a.nodes);
        Ok(h64(&(p.names.len().min(5), p.types.len().min(4), p.lits.len().min(5), p.nodes.len().min(5), p.blocks.len().min(3))))
    })
}

// ---------------------------------------------------------------- C31

const FORMS: usize = 12;
const TEXTS: &[&str] = &["", "plain message", "\u{e9} `x` {} \"q\"\n2nd line", "expected"];
const KINDS: &[(&str, Kind)] = &[("integer", Kind::Int), ("decimal", Kind::Decimal), ("string", Kind::String), ("boolean", Kind::Bool), ("null", Kind::Null)];
fn kind(l: &Literal) -> &'static str {
    match l { Literal::Null => "null", Literal::Bool(_) => "boolean", Literal::Int(_) => "integer", Literal::Decimal(_) => "decimal", Literal::String(_) => "string" }
}

/// what has to be reported: words of the message, words of the label, its place
#[derive(Debug)]
struct Want { exact: Option<String>, words: Vec<String>, label: Vec<String>, at: Option<(usize, usize)> }

thread_local! { static PLAN: std::cell::RefCell<(usize, usize, Vec<Want>)> = const { std::cell::RefCell::new((0, 0, Vec::new())) }; }

struct Raise;
fn raise<T, S: ErrorSpan + ToSp>(x: &Spanned<T, S>, lit: Option<&Spanned<Literal, S>>, ty: Option<&Spanned<TypeName, S>>, node: Option<&SpannedNode<S>>, form: usize, text: usize, i: usize)
    -> Option<(DecodeError<S>, Want)>
{
    let at = Some(x.span().sp());
    // the same text every time, or not
    let msg = if text == 1 { TEXTS[text].to_string() } else { format!("{}{}", TEXTS[text], i) };
    let w = |label: &[&str]| Want { exact: Some(msg.clone()), words: vec![], label: label.iter().map(|s| s.to_string()).collect(), at };
    Some(match form {
        0 => (DecodeError::conversion(x, msg.clone()), w(&["invalid value"])),
        1 => (DecodeError::unexpected(x, "gadget", msg.clone()), w(&["gadget"])),
        2 => (DecodeError::unsupported(x, msg.clone()), w(&["unsupported"])),
        3 => { let n = node?; (DecodeError::missing(n, msg.clone()), Want { at: Some(n.node_name.span().sp()), ..w(&[]) }) }
        4 | 5 => {
            let l = lit?;
            let (name, k) = KINDS[(i + form) % KINDS.len()];
            (DecodeError::scalar_kind(k, l), Want { exact: None, words: vec![format!("expected {}", name), format!("found {}", kind(l))], label: vec![kind(l).into()], at })
        }
        6..=8 => {
            let t = ty?;
            let own: TypeName = if i % 2 == 0 { BuiltinType::I16.into() } else { "my-type".parse().unwrap() };
            let name = own.as_str().to_string();
            let (e, mut words) = match form {
                6 => (ExpectedType::no_type(), vec!["no type".to_string()]),
                7 => (ExpectedType::required(own), vec![name]),
                _ => (ExpectedType::optional(own), vec![name, "no type".into()]),
            };
            words.push(format!("found {}", t.as_str()));
            words.push("rust-thing".into());
            (DecodeError::TypeName { span: t.span().clone(), found: Some((**t).clone()), expected: e, rust_type: "rust-thing" }, Want { exact: None, words, label: vec!["type name".into()], at })
        }
        9 => (DecodeError::MissingNode { message: msg.clone() }, Want { at: None, ..w(&[]) }),
        10 => (DecodeError::Custom(msg.clone().into()), Want { at: None, ..w(&[]) }),
        _ => (DecodeError::Conversion { span: x.span().clone(), source: Box::new(format!("x{}", msg).parse::<u8>().unwrap_err()) },
              Want { exact: Some(format!("x{}", msg).parse::<u8>().unwrap_err().to_string()), words: vec![], label: vec![], at }),
    })
}
impl<S: ErrorSpan + ToSp> DecodeChildren<S> for Raise {
    fn decode_children(nodes: &[SpannedNode<S>], ctx: &mut Context<S>) -> Result<Raise, DecodeError<S>> {
        let (form, text) = PLAN.with(|p| { let p = p.borrow(); (p.0, p.1) });
        let p = parts(nodes);
        let mut all = Vec::new();
        let mut i = 0;
        let mut add = |x: Option<(DecodeError<S>, Want)>| { i += 1; all.extend(x); i };
        let mut k = 0;
        for x in p.names { k = add(raise(x, None, None, None, form, text, k)) }
        for x in p.types { k = add(raise(x, None, Some(x), None, form, text, k)) }
        for x in p.lits { k = add(raise(x, Some(x), None, None, form, text, k)) }
        for x in p.nodes { k = add(raise(x, None, None, Some(x), form, text, k)) }
        for x in p.blocks { k = add(raise(x, None, None, None, form, text, k)) }
        let mut last = None;
        let n = all.len();
        for (j, (e, w)) in all.into_iter().enumerate() {
            PLAN.with(|p| p.borrow_mut().2.push(w));
            // the last one is returned instead
            if j + 1 == n && text % 2 == 0 { last = Some(e) } else { ctx.emit_error(e) }
        }
        match last { Some(e) => Err(e), None => Ok(Raise) }
    }
}

fn raised<S: knuffel::traits::Span + ToSp>(doc: &str, form: usize, text: usize) -> Result<u64, String> {
    PLAN.with(|p| *p.borrow_mut() = (form, text, Vec::new()));
    let r = knuffel::parse_with_context::<Raise, S, _>("my file.kdl", doc, |_| {});
    let want = PLAN.with(|p| std::mem::take(&mut p.borrow_mut().2));
    match r {
        Ok(_) => must!(want.is_empty(), "{} errors were raised, the parse succeeds", want.len()),
        Err(e) => {
            use miette::Diagnostic;
            let ds = obs::diags(&e);
            must!(!want.is_empty(), "no error was raised, the parse fails");
            must!(ds.len() == want.len(), "{} errors were raised, {} are reported", want.len(), ds.len());
            let mut left: Vec<&Want> = want.iter().collect();
            for d in &ds {
                let fits = |w: &Want| w.exact.as_ref().map_or(true, |m| m == &d.msg) && w.words.iter().all(|x| d.msg.contains(x.as_str()))
                    && match (&w.at, &d.labels[..]) {
                        (None, []) => true,
                        (Some(sp), [(t, o, l)]) => (*o, o + l) == *sp && w.label.iter().all(|x| t.contains(x.as_str())),
                        _ => false,
                    };
                match left.iter().position(|w| fits(w)) {
                    Some(k) => { left.remove(k); }
                    None => return Err(format!("form {} text {}: {:?} is reported, none of {:?}", form, text, d, left)),
                }
            }
            let src = e.source_code().ok_or("no source code attached")?;
            let c = src.read_span(&(0, doc.len()).into(), 0, 0).map_err(|e| format!("source not readable: {:?}", e))?;
            must!(c.data() == doc.as_bytes() && c.name() == Some("my file.kdl"), "the source attached is not the document, or its name is {:?}", c.name());
        }
    }
    Ok(h64(&(form, want.len().min(6))))
}

pub fn c31() -> Check {
    let th = crate::engine::thorough();
    Arc::new(move |doc: &str, out: &refp::Out| {
        if out.res.is_err() { return Ok(0) }
        if knuffel::parse_ast::<Span>("doc.kdl", doc).is_err() { return Ok(1) }
        let mut sig = Vec::new();
        for form in 0..FORMS {
            for text in 0..TEXTS.len() {
                // the two ways of raising, with every text in turn
                if th || text % 2 == form % 2 { sig.push(raised::<Span>(doc, form, text)?) }
                if th || text == form % 4 { sig.push(raised::<LineSpan>(doc, form, text)?) }
            }
        }
        Ok(h64(&sig))
    })
}

pub fn c31_tasks() -> Vec<crate::engine::Task> {
    let c = c31();
    let mut t = crate::docs::elements(&c);
    if !crate::engine::thorough() { t.retain(|(n, _)| n != "pairs of entries") }
    t.extend(crate::spaces::list("size sweep", crate::docs::size_docs(), &c));
    t
}
