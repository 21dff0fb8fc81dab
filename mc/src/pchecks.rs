//! Oracles of the parsing properties.
use crate::engine::h64;
use crate::obs;
use crate::refp::{self, Node, Val};
use crate::spaces::Check;
use knuffel::span::{LineSpan, Span};
use std::sync::Arc;

pub fn h_dbg<T: std::fmt::Debug>(t: &T) -> u64 { h64(&format!("{:?}", t)) }

pub fn first_msg(e: &knuffel::Error) -> String {
    obs::diags(e).first().map(|d| d.msg.clone()).unwrap_or_else(|| "(no diagnostic)".into())
}

/// trees equal, spans ignored
pub fn same_val(a: &Val, b: &Val) -> bool {
    a.lit == b.lit && a.ty.as_ref().map(|t| &t.0) == b.ty.as_ref().map(|t| &t.0)
}
pub fn same_node(a: &Node, b: &Node) -> bool {
    a.ty.as_ref().map(|t| &t.0) == b.ty.as_ref().map(|t| &t.0)
        && a.name.0 == b.name.0
        && a.args.len() == b.args.len() && a.args.iter().zip(&b.args).all(|(x, y)| same_val(x, y))
        && a.props.len() == b.props.len()
        && a.props.iter().zip(&b.props).all(|(x, y)| x.0 == y.0 && same_val(&x.1.1, &y.1.1))
        && match (&a.children, &b.children) {
            (None, None) => true,
            (Some(x), Some(y)) => same_nodes(&x.0, &y.0),
            _ => false,
        }
}
pub fn same_nodes(a: &[Node], b: &[Node]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_node(x, y))
}

/// spans equal (trees already known to be the same)
pub fn span_diff(a: &Node, b: &Node) -> Option<String> {
    let ty = |x: &Option<(String, refp::Sp)>| x.as_ref().map(|t| t.1);
    let d = |what: &str, e: String, f: String| Some(format!("span of {}: expected {}, found {}", what, e, f));
    if a.span != b.span { return d(&format!("node {:?}", a.name.0), format!("{:?}", a.span), format!("{:?}", b.span)) }
    if a.name.1 != b.name.1 { return d(&format!("name {:?}", a.name.0), format!("{:?}", a.name.1), format!("{:?}", b.name.1)) }
    if ty(&a.ty) != ty(&b.ty) { return d("node type", format!("{:?}", ty(&a.ty)), format!("{:?}", ty(&b.ty))) }
    let v = |what: &str, x: &Val, y: &Val| {
        if x.span != y.span { return d(what, format!("{:?}", x.span), format!("{:?}", y.span)) }
        if ty(&x.ty) != ty(&y.ty) { return d(&format!("type of {}", what), format!("{:?}", ty(&x.ty)), format!("{:?}", ty(&y.ty))) }
        None
    };
    for (i, (x, y)) in a.args.iter().zip(&b.args).enumerate() {
        if let Some(m) = v(&format!("argument {}", i), x, y) { return Some(m) }
    }
    for (x, y) in a.props.iter().zip(&b.props) {
        // which occurrence of a repeated key is kept is not specified
        if !x.1.0.contains(&y.1.0[0]) {
            return d(&format!("property name {:?}", x.0), format!("{:?}", x.1.0), format!("{:?}", y.1.0[0]));
        }
        if let Some(m) = v(&format!("property {:?}", x.0), &x.1.1, &y.1.1) { return Some(m) }
    }
    if let (Some(x), Some(y)) = (&a.children, &b.children) {
        if x.1 != y.1 { return d("children", format!("{:?}", x.1), format!("{:?}", y.1)) }
        for (p, q) in x.0.iter().zip(&y.0) {
            if let Some(m) = span_diff(p, q) { return Some(m) }
        }
    }
    None
}

pub fn c01() -> Check {
    Arc::new(|doc, out| {
        let im = knuffel::parse_ast::<Span>("doc.kdl", doc);
        match (&out.res, im) {
            (Ok(_), Ok(_)) => Ok(1),
            (Err(_), Err(e)) => Ok(h64(&first_msg(&e))),
            (Ok(_), Err(e)) => Err(format!("valid KDL document rejected: {}", first_msg(&e))),
            (Err(r), Ok(_)) => Err(format!("invalid KDL document accepted (no document starts with its first {} bytes and the next character)", r.pos)),
        }
    })
}

/// runs the implementation on a valid document and hands both trees over
pub fn on_valid(f: impl Fn(&str, &[Node], &[Node]) -> Result<u64, String> + Send + Sync + 'static) -> Check {
    Arc::new(move |doc, out| {
        let im = knuffel::parse_ast::<Span>("doc.kdl", doc);
        match (&out.res, im) {
            (Ok(r), Ok(d)) => f(doc, r, &obs::doc(&d)),
            (Ok(_), Err(e)) => Err(format!("valid document rejected: {}", first_msg(&e))),
            (Err(_), Err(_)) => Ok(0),
            (Err(_), Ok(_)) => Err("invalid document accepted".into()),
        }
    })
}

pub fn tree() -> Check {
    on_valid(|_, r, d| {
        if !same_nodes(r, d) {
            return Err(format!("tree differs\n  expected {:?}\n  found    {:?}", brief(r), brief(d)));
        }
        Ok(h_dbg(&brief(r)))
    })
}

pub fn c07() -> Check {
    on_valid(|_, r, d| {
        if !same_nodes(r, d) {
            return Err(format!("tree differs\n  expected {:?}\n  found    {:?}", brief(r), brief(d)));
        }
        for (x, y) in r.iter().zip(d) {
            if let Some(m) = span_diff(x, y) { return Err(m) }
        }
        Ok(h_dbg(&r))
    })
}

/// compact tree without spans
pub fn brief(v: &[Node]) -> String {
    let mut s = String::new();
    for n in v {
        if let Some(t) = &n.ty { s += &format!("({:?})", t.0) }
        s += &format!("{:?}", n.name.0);
        let val = |v: &Val| format!("{}{:?}", v.ty.as_ref().map(|t| format!("({:?})", t.0)).unwrap_or_default(), v.lit);
        for a in &n.args { s += &format!(" {}", val(a)) }
        for (k, v) in &n.props { s += &format!(" {:?}={}", k, val(&v.1)) }
        if let Some(c) = &n.children { s += &format!(" {{{}}}", brief(&c.0)) }
        s += "; ";
    }
    s
}

/// line/column tracking, recomputed from scratch for every offset
pub fn linecol(doc: &str, offset: usize) -> (usize, usize) {
    let (mut line, mut col) = (0, 0);
    let mut prev = '\0';
    for (i, c) in doc.char_indices() {
        if i >= offset { break }
        if c == '\n' && prev == '\r' { /* second half of CRLF */ }
        else if refp::is_newline(c) { line += 1; col = 0 }
        else if c == '\t' { col += 8 }
        else { col += crate::width::width(c) }
        prev = c;
    }
    (line, col)
}

pub fn c08() -> Check {
    use knuffel::ast::{SpannedNode, Value};
    fn pos(doc: &str, what: &str, s: &LineSpan) -> Result<(), String> {
        for p in [&s.0, &s.1] {
            let e = linecol(doc, p.offset);
            // inside a CRLF pair the position is that of the new line
            if (p.line, p.column) != e {
                return Err(format!("{}: offset {} is line {} column {}, reported line {} column {}",
                    what, p.offset, e.0, e.1, p.line, p.column));
            }
        }
        Ok(())
    }
    fn val(doc: &str, v: &Value<LineSpan>) -> Result<(), String> {
        if let Some(t) = &v.type_name { pos(doc, "type", t.span())? }
        pos(doc, "value", v.literal.span())
    }
    fn node(doc: &str, n: &SpannedNode<LineSpan>) -> Result<(), String> {
        pos(doc, "node", n.span())?;
        pos(doc, "node name", n.node_name.span())?;
        if let Some(t) = &n.type_name { pos(doc, "type", t.span())? }
        for a in &n.arguments { val(doc, a)? }
        for (k, v) in &n.properties { pos(doc, "property", k.span())?; val(doc, v)? }
        if let Some(c) = &n.children {
            pos(doc, "children", c.span())?;
            for x in c.iter() { node(doc, x)? }
        }
        Ok(())
    }
    Arc::new(|doc, out| {
        let a = knuffel::parse_ast::<LineSpan>("doc.kdl", doc);
        match (&out.res, a) {
            (Ok(r), Ok(d)) => {
                for n in &d.nodes { node(doc, n)? }
                let t = obs::doc(&d);
                if !same_nodes(r, &t) {
                    return Err(format!("tree differs\n  expected {:?}\n  found    {:?}", brief(r), brief(&t)));
                }
                for (x, y) in r.iter().zip(&t) {
                    if let Some(m) = span_diff(x, y) { return Err(m) }
                }
                Ok(h_dbg(&t))
            }
            (Ok(_), Err(e)) => Err(format!("valid document rejected: {}", first_msg(&e))),
            (Err(_), Ok(_)) => Err("invalid document accepted".into()),
            (Err(_), Err(e)) => {
                // same diagnostics as with plain byte spans
                let b = knuffel::parse_ast::<Span>("doc.kdl", doc);
                match b {
                    Ok(_) => Err("accepted with byte spans, rejected with line spans".into()),
                    Err(f) => {
                        let (x, y) = (obs::diags(&e), obs::diags(&f));
                        if x != y { return Err(format!("diagnostics differ: {:?} vs {:?}", x, y)) }
                        Ok(h_dbg(&x))
                    }
                }
            }
        }
    })
}

/// derived types with every kind of field, tolerant and strict
mod shapes {
    use knuffel::span::Span;
    use knuffel::{Decode, DecodeScalar};
    use knuffel::span::Spanned;
    #[derive(Decode, Debug)] #[knuffel(span_type=Span)]
    pub struct All { #[knuffel(span)] pub s: Span, #[knuffel(node_name)] pub n: String, #[knuffel(type_name)] pub t: Option<String>, #[knuffel(arguments)] pub a: Vec<Option<Spanned<String, Span>>>, #[knuffel(properties)] pub p: std::collections::BTreeMap<String, Option<String>>, #[knuffel(children)] pub k: Vec<All> }
    #[derive(Decode, Debug)] pub struct Nothing {}
    #[derive(Decode, Debug)] pub struct Unit;
    #[derive(Decode, Debug)] pub struct One { #[knuffel(argument)] pub a: u8, #[knuffel(property)] pub k: i64, #[knuffel(child)] pub b: Box<One> }
    #[derive(Decode, Debug)] pub struct Some1 { #[knuffel(argument)] pub a: Option<u64>, #[knuffel(argument)] pub b: Option<f32>, #[knuffel(argument, default)] pub c: bool, #[knuffel(property)] pub k: Option<i8>, #[knuffel(property, default)] pub a_b: f64, #[knuffel(child)] pub b1: bool, #[knuffel(child, unwrap(argument))] pub c1: Option<String>, #[knuffel(children(name="a"))] pub aa: Vec<Some1>, #[knuffel(children, unwrap(arguments))] pub rest: Vec<Vec<i16>> }
    #[derive(Decode, Debug)] pub struct Conv { #[knuffel(node_name)] pub n: std::net::IpAddr, #[knuffel(type_name)] pub t: u8, #[knuffel(arguments, str)] pub a: Vec<u16>, #[knuffel(property, bytes)] pub k: Vec<u8>, #[knuffel(children)] pub c: Vec<Conv> }
    #[derive(Decode, Debug)] pub struct Bytes { #[knuffel(arguments, bytes)] pub a: Vec<Vec<u8>>, #[knuffel(properties, bytes)] pub p: std::collections::HashMap<String, Vec<u8>>, #[knuffel(children)] pub c: Vec<Bytes> }
    #[derive(DecodeScalar, Debug)] pub enum Word { A, BC, X1 }
    #[derive(Decode, Debug)] pub enum Pick { A(#[knuffel(argument)] Word), B, C(Box<Some1>), N(#[knuffel(arguments)] Vec<u32>, #[knuffel(properties)] std::collections::HashMap<String, u8>), #[knuffel(skip)] Never }
    #[derive(Decode, Debug, Default)] pub struct Inner { #[knuffel(property)] pub k: Option<u8>, #[knuffel(child)] pub b: bool, #[knuffel(child, unwrap(argument))] pub c: Option<u8> }
    #[derive(Decode, Debug)] pub struct Flat { #[knuffel(flatten(child, property))] pub i: Inner, #[knuffel(arguments)] pub a: Vec<std::path::PathBuf> }
    #[derive(Decode, Debug)] pub struct New(pub Some1);
    #[derive(Decode, Debug)] pub struct NewOpt(pub Option<One>);
}

/// every derived type on every node: values or diagnostics, never a panic
fn decode_all(nodes: &[knuffel::ast::SpannedNode<Span>]) -> Result<(), String> {
    fn one<T: knuffel::Decode<Span> + std::fmt::Debug>(n: &knuffel::ast::SpannedNode<Span>) -> Result<(), String> {
        match knuffel::decode::node::<T, Span>(n) {
            Ok(v) => { let _ = format!("{:?}", v); }
            Err(es) => {
                if es.is_empty() { return Err("decoding failed without any diagnostic".into()) }
                for e in &es {
                    if e.to_string().trim().is_empty() { return Err("diagnostic with an empty message".into()) }
                    let _ = format!("{:?}", e);
                }
            }
        }
        Ok(())
    }
    for n in nodes {
        one::<shapes::All>(n)?; one::<shapes::Nothing>(n)?; one::<shapes::Unit>(n)?; one::<shapes::One>(n)?; one::<shapes::Some1>(n)?;
        one::<shapes::Conv>(n)?; one::<shapes::Bytes>(n)?; one::<shapes::Pick>(n)?; one::<shapes::Flat>(n)?; one::<shapes::New>(n)?; one::<shapes::NewOpt>(n)?;
    }
    Ok(())
}

/// C09: every call returns; failures carry diagnostics that can be rendered
pub fn c09() -> Check {
    Arc::new(|doc, _| {
        use miette::{GraphicalReportHandler, GraphicalTheme, JSONReportHandler, NarratableReportHandler};
        let a = knuffel::parse_ast::<Span>("doc.kdl", doc);
        let l = knuffel::parse_ast::<LineSpan>("doc.kdl", doc);
        let p = knuffel::parse::<Vec<knuffel::ast::SpannedNode<Span>>>("doc.kdl", doc);
        if a.is_ok() != l.is_ok() || a.is_ok() != p.is_ok() {
            return Err("the entry points disagree on whether the document is valid".into());
        }
        let mut o = 1;
        if let Ok(d) = &a { decode_all(&d.nodes)? }
        for e in [a.err(), l.err(), p.err()].iter().flatten() {
            let ds = obs::diags(e);
            if ds.is_empty() { return Err("failure without any diagnostic".into()) }
            for d in &ds {
                if d.msg.trim().is_empty() { return Err("diagnostic with an empty message".into()) }
            }
            let mut s = String::new();
            GraphicalReportHandler::new_themed(GraphicalTheme::unicode_nocolor())
                .render_report(&mut s, e).map_err(|_| "graphical rendering fails")?;
            if !s.contains("error parsing KDL") && s.trim().is_empty() { return Err("empty rendering".into()) }
            let mut s = String::new();
            NarratableReportHandler::new().render_report(&mut s, e).map_err(|_| "narrated rendering fails")?;
            let mut s = String::new();
            JSONReportHandler::new().render_report(&mut s, e).map_err(|_| "JSON rendering fails")?;
            let _ = format!("{:?} {}", e, e);
            o = h_dbg(&ds);
        }
        Ok(o)
    })
}

/// C10: what diagnostics of syntax errors point at
pub fn c10() -> Check {
    Arc::new(|doc, out| {
        let im = knuffel::parse_ast::<Span>("doc.kdl", doc);
        let (r, e) = match (&out.res, im) {
            (Err(r), Err(e)) => (r, e),
            (Err(_), Ok(_)) => return Err("invalid document produces no diagnostic".into()),
            (Ok(_), Ok(_)) => return Ok(0),
            (Ok(_), Err(e)) => return Err(format!("valid document produces a diagnostic: {}", first_msg(&e))),
        };
        use miette::Diagnostic;
        let ds = obs::diags(&e);
        if ds.is_empty() { return Err("no diagnostic".into()) }
        // the attached source is the text that was parsed, under the given name
        let src = e.source_code().ok_or("error carries no source code")?;
        let whole = src.read_span(&miette::SourceSpan::from((0, doc.len())), 0, 0)
            .map_err(|_| "source code of the error is not the document")?;
        if whole.data() != doc.as_bytes() {
            return Err("source code of the error is not the document".into());
        }
        if whole.name() != Some("doc.kdl") { return Err("source name is not the file name".into()) }
        for d in &ds {
            if d.labels.is_empty() { return Err(format!("diagnostic without a position: {}", d.msg)) }
            for l in &d.labels {
                if l.1 + l.2 > doc.len() || !doc.is_char_boundary(l.1) || !doc.is_char_boundary(l.1 + l.2) {
                    return Err(format!("label {:?} of {:?} does not cover whole characters of the document", l, d.msg));
                }
            }
            let (_, off, len) = d.labels[0];
            let text = &doc[off..off + len];
            if let Some(f) = d.msg.strip_prefix("found `") {
                // names a character or a keyword: the label covers exactly it
                let shown = match text {
                    "\"" | "'" | "\\" => text.to_string(),
                    "true" | "false" | "null" => text.to_string(),
                    t => t.chars().map(|c| c.escape_default().to_string()).collect(),
                };
                if !f.starts_with(&format!("{}`", shown)) {
                    return Err(format!("{:?} points at {:?}", d.msg, text));
                }
            }
            if d.msg.starts_with("found end of input") && (off, len) != (doc.len(), 0) {
                return Err(format!("{:?} points at {}..{}", d.msg, off, off + len));
            }
            let as_arg = |t: &str| refp::parse(&format!("n {}", t));
            let lit_of = |t: &str| match as_arg(t) {
                Ok(v) if v.len() == 1 && v[0].args.len() == 1 && v[0].args[0].span == (2, 2 + t.len()) => Some(v[0].args[0].lit.clone()),
                _ => None,
            };
            if d.msg.contains("numbers cannot be used as property names") &&
                !matches!(lit_of(text), Some(refp::Lit::Int(_)) | Some(refp::Lit::Dec(..))) {
                return Err(format!("{:?} points at {:?}", d.msg, text));
            }
            if d.msg.contains("identifiers cannot be used as arguments") &&
                (text.is_empty() || !text.chars().all(refp::is_id)
                 || !doc[..off].ends_with("/-") && doc[..off].chars().last().map_or(false, refp::is_id)
                 || doc[off + len..].chars().next().map_or(false, refp::is_id)) {
                return Err(format!("{:?} points at {:?}", d.msg, text));
            }
            if d.msg.starts_with("found keyword") && !matches!(text, "true" | "false" | "null") {
                return Err(format!("{:?} points at {:?}", d.msg, text));
            }
            if d.msg.starts_with("found number") && !matches!(lit_of(text), Some(refp::Lit::Int(_)) | Some(refp::Lit::Dec(..))) {
                return Err(format!("{:?} points at {:?}", d.msg, text));
            }
            if d.msg.starts_with("unclosed") {
                let kind = match text {
                    "{" => Some(refp::OpenKind::Brace),
                    "\"" => Some(refp::OpenKind::Str),
                    "/*" => Some(refp::OpenKind::Comment),
                    t if t.starts_with('r') && t.ends_with('"') && t[1..t.len() - 1].chars().all(|c| c == '#')
                        => Some(refp::OpenKind::Raw),
                    _ => None,
                };
                let word = match kind {
                    Some(refp::OpenKind::Brace) => "curly braces",
                    Some(refp::OpenKind::Str) => "string",
                    Some(refp::OpenKind::Comment) => "comment",
                    Some(refp::OpenKind::Raw) => "raw string",
                    _ => return Err(format!("{:?} points at {:?}", d.msg, text)),
                };
                // it names what is open there
                if !d.msg.contains(word) || !d.msg.contains(text) { return Err(format!("{:?} points at {:?}", d.msg, text)) }
                if r.pos == doc.len() && !r.open.iter().any(|x| x.1 == (off, off + len)) {
                    return Err(format!("{:?} at {} which is not open at the end of input", d.msg, off));
                }
                match d.labels.get(1) {
                    Some(l) if (l.1, l.2) == (doc.len(), 0) => {}
                    l => return Err(format!("{:?} expects the closing at {:?}, not at the end of input", d.msg, l)),
                }
            }
        }
        // a document that only lacks its closers says so, at an innermost opener
        let mut closed = doc.to_string();
        let mut n_closable = 0;
        for o in r.open.iter().rev() {
            match o.0 {
                refp::OpenKind::Brace => { closed.push_str("}\n"); n_closable += 1 }
                refp::OpenKind::Str => { closed.push_str("\"\n"); n_closable += 1 }
                refp::OpenKind::Comment => { closed.push_str("*/"); n_closable += 1 }
                refp::OpenKind::Raw => {
                    closed.push('"');
                    closed.push_str(&"#".repeat(o.1.1 - o.1.0 - 2));
                    closed.push('\n');
                    n_closable += 1;
                }
                refp::OpenKind::Paren => closed.push_str(")x\n"),
            }
        }
        if r.pos == doc.len() && n_closable > 0 && refp::parse(&closed).is_ok()
            && !ds.iter().any(|d| d.msg.starts_with("unclosed")) {
            return Err(format!("nothing but the closing is missing, but no diagnostic says so: {:?}",
                ds.iter().map(|d| &d.msg).collect::<Vec<_>>()));
        }
        Ok(h_dbg(&ds))
    })
}

/// C04: numeric exactness in every width
pub fn c04() -> Check {
    use knuffel::ast::{Literal, SpannedNode};
    fn lits<'a>(n: &'a SpannedNode<Span>, out: &mut Vec<&'a Literal>) {
        for a in &n.arguments { out.push(&a.literal) }
        for v in n.properties.values() { out.push(&v.literal) }
        for c in n.children() { lits(c, out) }
    }
    fn rlits<'a>(n: &'a Node, out: &mut Vec<(&'a refp::Lit, refp::Sp)>) {
        for a in &n.args { out.push((&a.lit, a.span)) }
        for v in n.props.values() { out.push((&v.1.lit, v.1.span)) }
        if let Some(c) = &n.children { for x in &c.0 { rlits(x, out) } }
    }
    macro_rules! width { ($i:expr, $text:expr, $want:expr, $($t:ident)*) => { $(
        let got = <$t>::try_from($i).ok();
        let want = match $want { refp::Num::I(v) => <$t>::try_from(*v).ok(), refp::Num::Big => None };
        let neg_zero = $text.starts_with('-') && *$want == refp::Num::I(0) && $t::MIN == 0;
        if got != want && !(neg_zero && got.is_none()) {
            return Err(format!("{} as {}: expected {:?}, found {:?}", $text, stringify!($t), want, got));
        }
    )* } }
    Arc::new(|doc, out| {
        let im = knuffel::parse_ast::<Span>("doc.kdl", doc);
        let (r, d) = match (&out.res, im) {
            (Ok(r), Ok(d)) => (r, d),
            (Err(_), Err(_)) => return Ok(0),
            (Ok(_), Err(e)) => return Err(format!("valid document rejected: {}", first_msg(&e))),
            (Err(_), Ok(_)) => return Err("malformed number accepted".into()),
        };
        if !same_nodes(r, &obs::doc(&d)) {
            return Err(format!("tree differs\n  expected {:?}\n  found    {:?}", brief(r), brief(&obs::doc(&d))));
        }
        let (mut a, mut b) = (Vec::new(), Vec::new());
        for n in &d.nodes { lits(n, &mut a) }
        for n in r { rlits(n, &mut b) }
        for (l, (m, sp)) in a.iter().zip(&b) {
            let text = &doc[sp.0..sp.1];
            if let (Literal::Int(i), refp::Lit::Int(n)) = (l, m) {
                width!(i, text, n, i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
            }
        }
        Ok(h_dbg(&b))
    })
}

/// C24: binary serialization round trip
pub fn c24() -> Check {
    fn rt<S>(doc: &str) -> Result<u64, String>
        where S: knuffel::traits::Span + minicbor::Encode<()> + for<'b> minicbor::Decode<'b, ()> + obs::ToSp,
    {
        let Ok(d) = knuffel::parse_ast::<S>("doc.kdl", doc) else { return Ok(0) };
        let bytes = minicbor::to_vec(&d).map_err(|e| format!("encoding fails: {}", e))?;
        let back: knuffel::ast::Document<S> = minicbor::decode(&bytes).map_err(|e| format!("decoding fails: {}", e))?;
        let (x, y) = (format!("{:?}", d), format!("{:?}", back));
        if x != y { return Err(format!("round trip changes the document\n  before {}\n  after  {}", x, y)) }
        if obs::doc(&d) != obs::doc(&back) { return Err("round trip changes the document".into()) }
        // a single node, and self-delimitation: two documents back to back
        let mut two = bytes.clone();
        two.extend_from_slice(&bytes);
        let mut dec = minicbor::Decoder::new(&two);
        for _ in 0..2 {
            let b: knuffel::ast::Document<S> = dec.decode().map_err(|e| format!("decoding back to back fails: {}", e))?;
            if format!("{:?}", b) != x { return Err("back to back round trip changes the document".into()) }
        }
        if dec.position() != two.len() { return Err("decoder stops at a different position".into()) }
        Ok(h64(&x))
    }
    Arc::new(|doc, out| {
        if out.res.is_err() { return Ok(0) }
        rt::<Span>(doc)?;
        rt::<LineSpan>(doc)
    })
}

/// C23: decoding into the tree's own types changes nothing
pub fn c23() -> Check {
    use knuffel::ast::{Literal, Node as KNode, SpannedNode, Value};
    use knuffel::decode::Context;
    use knuffel::errors::DecodeError;
    use knuffel::traits::{Decode, DecodeScalar, ErrorSpan};
    use knuffel::span::Spanned;
    type D<T, S> = Result<T, DecodeError<S>>;
    /// decodes every argument and property as Value, Literal and Spanned<Literal>
    struct Probe<T> { vals: Vec<(Value<T>, Literal, Spanned<Literal, T>)>, node: KNode<T> }
    impl<S: knuffel::traits::Span, T: knuffel::traits::DecodeSpan<S>> Decode<S> for Probe<T> where S: ErrorSpan {
        fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> D<Self, S> {
            let mut vals = Vec::new();
            for v in n.arguments.iter().chain(n.properties.values()) {
                vals.push((DecodeScalar::decode(v, ctx)?, DecodeScalar::decode(v, ctx)?, DecodeScalar::decode(v, ctx)?));
            }
            Ok(Probe { vals, node: Decode::decode_node(n, ctx)? })
        }
    }
    fn cmp<A: std::fmt::Debug, B: std::fmt::Debug>(what: &str, a: &A, b: &B) -> Result<(), String> {
        let (x, y) = (format!("{:?}", a), format!("{:?}", b));
        if x != y { return Err(format!("{}\n  in the tree {}\n  decoded     {}", what, x, y)) }
        Ok(())
    }
    Arc::new(|doc, out| {
        if out.res.is_err() { return Ok(0) }
        let Ok(a) = knuffel::parse_ast::<Span>("doc.kdl", doc) else { return Ok(0) };
        let Ok(l) = knuffel::parse_ast::<LineSpan>("doc.kdl", doc) else { return Ok(0) };
        let x = knuffel::parse::<Vec<SpannedNode<Span>>>("doc.kdl", doc).map_err(|e| format!("rejected: {}", first_msg(&e)))?;
        cmp("nodes", &a.nodes, &x)?;
        let x = knuffel::parse_with_context::<Vec<SpannedNode<LineSpan>>, LineSpan, _>("doc.kdl", doc, |_| {})
            .map_err(|e| format!("rejected: {}", first_msg(&e)))?;
        cmp("nodes with line spans", &l.nodes, &x)?;
        let x = knuffel::parse_with_context::<Vec<SpannedNode<Span>>, LineSpan, _>("doc.kdl", doc, |_| {})
            .map_err(|e| format!("rejected: {}", first_msg(&e)))?;
        cmp("nodes, line spans converted to byte spans", &a.nodes, &x)?;
        let bare: Vec<&KNode<Span>> = a.nodes.iter().map(|n| &**n).collect();
        let x = knuffel::parse::<Vec<Probe<Span>>>("doc.kdl", doc).map_err(|e| format!("rejected: {}", first_msg(&e)))?;
        cmp("bare nodes", &bare, &x.iter().map(|p| &p.node).collect::<Vec<_>>())?;
        for (n, p) in a.nodes.iter().zip(&x) {
            for (v, (a, b, c)) in n.arguments.iter().chain(n.properties.values()).zip(&p.vals) {
                cmp("value", v, a)?;
                cmp("literal", &*v.literal, b)?;
                cmp("spanned literal", &v.literal, c)?;
            }
        }
        let single = a.nodes.iter().map(|n| knuffel::decode::node::<SpannedNode<Span>, Span>(n)).collect::<Result<Vec<_>, _>>();
        match single { Ok(v) => cmp("single nodes", &a.nodes, &v)?, Err(_) => return Err("single node rejected".into()) }
        Ok(h_dbg(&a.nodes.len()) ^ out.sig)
    })
}
