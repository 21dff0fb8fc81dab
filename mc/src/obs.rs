//! Observation of the implementation through its public API, mapped into the
//! reference model's vocabulary.
use crate::refp::{Lit, Node, Num, Sp, Val};
use knuffel::ast;
use knuffel::span::{LineSpan, Span};

pub trait ToSp { fn sp(&self) -> Sp; }
impl ToSp for Span { fn sp(&self) -> Sp { (self.0, self.1) } }
impl ToSp for LineSpan { fn sp(&self) -> Sp { (self.0.offset, self.1.offset) } }

pub fn lit(l: &ast::Literal) -> Lit {
    use ast::Literal as L;
    match l {
        L::Null => Lit::Null,
        L::Bool(b) => Lit::Bool(*b),
        L::String(s) => Lit::Str(s.to_string()),
        L::Int(i) => Lit::Int(match i64::try_from(i) {
            Ok(v) => Num::I(v as i128),
            Err(_) => match u64::try_from(i) {
                Ok(v) => Num::I(v as i128),
                Err(_) => Num::Big,
            },
        }),
        L::Decimal(d) => Lit::Dec(
            match f64::try_from(d) { Ok(v) => v.to_bits(), Err(_) => 0x7ff8_dead_dead_dead },
            match f32::try_from(d) { Ok(v) => v.to_bits(), Err(_) => 0x7fff_dead },
        ),
    }
}

pub fn val<S: ToSp>(v: &ast::Value<S>) -> Val {
    Val {
        ty: v.type_name.as_ref().map(|t| (t.as_str().to_string(), t.span().sp())),
        lit: lit(&v.literal),
        span: v.literal.span().sp(),
    }
}

pub fn node<S: ToSp>(n: &ast::SpannedNode<S>) -> Node {
    Node {
        ty: n.type_name.as_ref().map(|t| (t.as_str().to_string(), t.span().sp())),
        name: (n.node_name.to_string(), n.node_name.span().sp()),
        args: n.arguments.iter().map(val).collect(),
        props: n.properties.iter()
            .map(|(k, v)| (k.to_string(), (vec![k.span().sp()], val(v)))).collect(),
        children: n.children.as_ref()
            .map(|c| (c.iter().map(node).collect(), c.span().sp())),
        span: n.span().sp(),
    }
}

pub fn doc<S: ToSp>(d: &ast::Document<S>) -> Vec<Node> {
    d.nodes.iter().map(node).collect()
}

/// one diagnostic of an error
#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    pub msg: String,
    pub help: Option<String>,
    /// label text, offset, length
    pub labels: Vec<(String, usize, usize)>,
}

pub fn diag(d: &dyn miette::Diagnostic) -> Diag {
    Diag {
        msg: d.to_string(),
        help: d.help().map(|h| h.to_string()),
        labels: d.labels().map(|ls| ls.map(|l|
            (l.label().unwrap_or("").to_string(), l.offset(), l.len())).collect())
            .unwrap_or_default(),
    }
}

pub fn diags(e: &knuffel::Error) -> Vec<Diag> {
    use miette::Diagnostic;
    match e.related() {
        Some(r) => r.map(|d| diag(d)).collect(),
        None => Vec::new(),
    }
}
