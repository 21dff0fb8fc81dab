#!/usr/bin/env python3
"""Generates the schema grids (Rust definitions next to their models), one binary per property."""
import itertools, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))

PRE = '''// generated by gen.py
#![allow(dead_code, non_camel_case_types, unused_imports)]
use dec::*;
use knuffel::{Decode, DecodeScalar};
use knuffel::span::{Span, LineSpan, Spanned};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::rc::Rc;

/// accepts lowercase words only
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Low(String);
impl std::fmt::Debug for Low { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Low({:?})", self.0) } }
impl std::str::FromStr for Low {
    type Err = String;
    fn from_str(s: &str) -> Result<Low, String> {
        if !s.is_empty() && s.chars().all(|c| c.is_ascii_lowercase() || c == '-') { Ok(Low(s.into())) } else { Err(format!("bad word")) }
    }
}
/// every pair, in a fixed order
pub struct Bag<K, V>(Vec<(K, V)>);
impl<K, V> FromIterator<(K, V)> for Bag<K, V> { fn from_iter<I: IntoIterator<Item=(K, V)>>(i: I) -> Self { Bag(i.into_iter().collect()) } }
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for Bag<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut v: Vec<(String, String)> = self.0.iter().map(|(k, v)| (format!("{:?}", k), format!("{:?}", v))).collect();
        v.sort();
        write!(f, "[{}]", v.iter().map(|(k, v)| format!("({}, {})", k, v)).collect::<Vec<_>>().join(", "))
    }
}
/// a user's span type
#[derive(Debug, Clone)]
pub struct Off(usize, usize);
impl knuffel::traits::DecodeSpan<Span> for Off { fn decode_span(s: &Span, _: &mut knuffel::decode::Context<Span>) -> Off { Off(s.0, s.1) } }
impl knuffel::traits::DecodeSpan<LineSpan> for Off { fn decode_span(s: &LineSpan, _: &mut knuffel::decode::Context<LineSpan>) -> Off { Off(s.0.offset, s.1.offset) } }
impl From<Off> for miette::SourceSpan { fn from(o: Off) -> miette::SourceSpan { (o.0, o.1 - o.0).into() } }
pub fn kind(l: &knuffel::ast::Literal) -> &'static str {
    use knuffel::ast::Literal::*;
    match l { Null => "null", Bool(_) => "boolean", Int(_) => "integer", Decimal(_) => "decimal", String(_) => "string" }
}
/// a user's wrapper of scalars
pub struct Via<T>(T);
impl<T: std::fmt::Debug> std::fmt::Debug for Via<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl<S: knuffel::traits::ErrorSpan, T: knuffel::DecodeScalar<S>> knuffel::DecodeScalar<S> for Via<T> {
    fn type_check(t: &Option<Spanned<knuffel::ast::TypeName, S>>, ctx: &mut knuffel::decode::Context<S>) { T::type_check(t, ctx) }
    fn raw_decode(v: &Spanned<knuffel::ast::Literal, S>, ctx: &mut knuffel::decode::Context<S>) -> Result<Self, knuffel::errors::DecodeError<S>> { T::raw_decode(v, ctx).map(Via) }
}
pub trait Show { fn show(&self) -> String; }
impl Show for knuffel::ast::Literal { fn show(&self) -> String { kind(self).into() } }
impl<S> Show for knuffel::ast::Value<S> { fn show(&self) -> String { format!("{} {:?}", kind(&self.literal), self.type_name.as_ref().map(|t| t.as_str())) } }
impl<T: Show> Show for Option<T> { fn show(&self) -> String { match self { Some(x) => format!("Some({})", x.show()), None => "None".into() } } }
impl<T: Show> Show for Box<T> { fn show(&self) -> String { (**self).show() } }
impl<T: Show> Show for Rc<T> { fn show(&self) -> String { (**self).show() } }
impl<T: Show> Show for Arc<T> { fn show(&self) -> String { (**self).show() } }
impl<T: Show> Show for Vec<T> { fn show(&self) -> String { format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) } }
impl<T: Show> Show for Spanned<T, Span> { fn show(&self) -> String { format!("Spanned {{ span: Span({}, {}), value: {} }}", self.span().0, self.span().1, (**self).show()) } }

fn nodes<T: Decode<Span> + std::fmt::Debug>(t: &str) -> Result<String, knuffel::Error> {
    knuffel::parse::<Vec<T>>("doc.kdl", t).map(|v| format!("{:?}", v))
}
fn root<T: knuffel::traits::DecodeChildren<Span> + std::fmt::Debug>(t: &str) -> Result<String, knuffel::Error> {
    knuffel::parse::<T>("doc.kdl", t).map(|v| format!("{:?}", v))
}
fn nodes_l<T: Decode<LineSpan> + std::fmt::Debug>(t: &str) -> Result<String, knuffel::Error> {
    knuffel::parse_with_context::<Vec<T>, LineSpan, _>("doc.kdl", t, |_| {}).map(|v| format!("{:?}", v))
}
fn root_l<T: knuffel::traits::DecodeChildren<LineSpan> + std::fmt::Debug>(t: &str) -> Result<String, knuffel::Error> {
    knuffel::parse_with_context::<T, LineSpan, _>("doc.kdl", t, |_| {}).map(|v| format!("{:?}", v))
}
// other ways in
use mc::obs::{diag, diags, Diag};
type Alt = Result<String, Vec<Diag>>;
fn with_context<T: Decode<Span> + std::fmt::Debug>(t: &str) -> Alt {
    knuffel::parse_with_context::<Vec<T>, Span, _>("doc.kdl", t, |c| { c.set(7u8); c.set("x") }).map(|v| format!("{:?}", v)).map_err(|e| diags(&e))
}
fn with_context_root<T: knuffel::traits::DecodeChildren<Span> + std::fmt::Debug>(t: &str) -> Alt {
    knuffel::parse_with_context::<T, Span, _>("doc.kdl", t, |c| { c.set(7u8); c.set("x") }).map(|v| format!("{:?}", v)).map_err(|e| diags(&e))
}
fn by_line<T: Decode<LineSpan> + std::fmt::Debug>(t: &str) -> Alt { nodes_l::<T>(t).map_err(|e| diags(&e)) }
fn by_line_root<T: knuffel::traits::DecodeChildren<LineSpan> + std::fmt::Debug>(t: &str) -> Alt { root_l::<T>(t).map_err(|e| diags(&e)) }
fn each<T: Decode<S> + std::fmt::Debug, S: knuffel::traits::ErrorSpan>(nodes: &[knuffel::ast::SpannedNode<S>]) -> Alt {
    let (mut vals, mut errs) = (Vec::new(), Vec::new());
    for n in nodes {
        match knuffel::decode::node::<T, S>(n) { Ok(v) => vals.push(v), Err(es) => errs.extend(es.iter().map(|e| diag(e))) }
    }
    if errs.is_empty() && vals.len() == nodes.len() { Ok(format!("{:?}", vals)) } else { Err(errs) }
}
fn tree<S: knuffel::traits::Span>(t: &str) -> Result<Vec<knuffel::ast::SpannedNode<S>>, Vec<Diag>> {
    knuffel::parse_ast::<S>("doc.kdl", t).map(|d| d.nodes).map_err(|e| diags(&e))
}
fn by_node<T: Decode<Span> + std::fmt::Debug>(t: &str) -> Alt { each::<T, Span>(&tree(t)?) }
fn by_node_line<T: Decode<LineSpan> + std::fmt::Debug>(t: &str) -> Alt { each::<T, LineSpan>(&tree(t)?) }
fn by_node_copy<T: Decode<Span> + std::fmt::Debug>(t: &str) -> Alt {
    each::<T, Span>(&knuffel::parse::<Vec<knuffel::ast::SpannedNode<Span>>>("doc.kdl", t).map_err(|e| diags(&e))?)
}
fn by_node_own_span<T: Decode<Off> + std::fmt::Debug>(t: &str) -> Alt {
    each::<T, Off>(&knuffel::parse::<Vec<knuffel::ast::SpannedNode<Off>>>("doc.kdl", t).map_err(|e| diags(&e))?)
}
/// parsed with line spans, its nodes decoded as nodes with byte spans
fn by_node_cross<T: Decode<Span> + std::fmt::Debug>(t: &str) -> Alt {
    each::<T, Span>(&knuffel::parse_with_context::<Vec<knuffel::ast::SpannedNode<Span>>, LineSpan, _>("doc.kdl", t, |_| {}).map_err(|e| diags(&e))?)
}
/// the document as the children of one node
fn inside<T: Decode<Span> + std::fmt::Debug>(t: &str) -> Alt {
    knuffel::parse::<Vec<T>>("doc.kdl", &format!("x {{\n{}\n}}", t)).map_err(|e| diags(&e)).map(|v| format!("{:?}", v[0]))
}
fn inside_line<T: Decode<LineSpan> + std::fmt::Debug>(t: &str) -> Alt {
    knuffel::parse_with_context::<Vec<T>, LineSpan, _>("doc.kdl", &format!("x {{\n{}\n}}", t), |_| {}).map_err(|e| diags(&e)).map(|v| format!("{:?}", v[0]))
}
'''

def q(s):  # s-expression atom
    return '|%s|' % s if s == '' or any(c in '()|' or c.isspace() for c in s) else s

def rs(s):  # Rust string literal
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\0', '\\0').replace('\u2028', '\\u{2028}') + '"'

class SC:
    def __init__(self, rust, sx): self.rust, self.sx = rust, sx
U8, I8, STR, BOOL, F64, F32 = SC('u8', 'u8'), SC('i8', 'i8'), SC('String', 'str'), SC('bool', 'bool'), SC('f64', 'f64'), SC('f32', 'f32')
U16S = SC('u16', 'u8')  # with str
LOWS = SC('Low', 'u8')
BYTES = SC('Vec<u8>', 'u8')
def sopt(s): return SC('Option<%s>' % s.rust, '(opt %s)' % s.sx)

class Ty:
    def __init__(self, rust, sx, src, st=None): self.rust, self.sx, self.src, self.st = rust, sx, src, st

class F:
    """one field: attribute text, Rust type, model"""
    def __init__(self, name, attr, rust, kind, opt=False, dflt=None):
        self.name, self.opt, self.dflt, self.kind = name, opt, dflt, kind
        self.attr = attr
        if dflt is not None:
            self.attr += ', default' + ('=' + dflt[0] if dflt[0] else '')
        self.rust = 'Option<%s>' % rust if opt else rust
        self.src, self.own = '', None
    def starts(self, text, dbg=None):
        """what the `Default` of the struct it is in gives"""
        self.own = (text, dbg or text)
        return self
    def sx(self, named=True):
        return '(%s %s %s %s)' % (q(self.name if named else ''), 'opt' if self.opt else 'req', q('own:' + self.own[1]) if self.own else q(self.dflt[1]) if self.dflt else '-', self.kind)
    def code(self, named):
        a = '#[knuffel(%s)] ' % self.attr if self.attr else ''
        return a + ('r#%s: ' % self.name if self.name in RAW else self.name + ': ' if named else '') + self.rust

def kebab(n):
    """words in lower case joined by dashes, as documented ("names are converted to kebab-case")"""
    words, cur, mode = [], '', ''
    for i, c in enumerate(n):
        if not c.isalnum():
            if cur: words.append(cur)
            cur, mode = '', ''
            continue
        m = 'u' if c.isupper() else 'l' if c.islower() else mode
        nxt = n[i + 1:i + 2]
        if c.isupper() and cur and (mode == 'l' or (mode == 'u' and nxt.islower())):
            words.append(cur); cur = ''
        cur += c; mode = m
    if cur: words.append(cur)
    return '-'.join(w.lower() for w in words)
RAW = ('type', 'match', 'fn', 'async', 'loop', 'move')
FIELDS = ['two_words', 'type', '_lead', 'a__b', 'camelCase', 'HTTPPort', 'with2digits', 'v2_x', 'async', 'SHOUT', 'max_3', 'x1y2', 'ipv4Addr', 'aB', 'A', '\u00e9_x', 'x_Y_z', 'Ab_Cd', 'n_', 'e2E']
VARIANTS = ['HTTPServer', 'V2', 'Snake_Case', 'ABc', 'A1B', 'X86Arch', 'Utf8', 'Ipv4Addr', 'SHOUT', 'Type_', 'E2e', 'Plain', '\u00c9a', 'AB', 'A_', 'IOError']
ODD = ['-a', '--', '', 'a b', '\u00e9', '\0', 'A', '_', '-1', 'true', 'null', 'q"w', '+', '.', 'x' * 300, '\U0001f600', 'a=b', '//', ' a', 'a ', '\u2028']
def kstr(s): return '"%s"' % ''.join({'"': '\\"', '\\': '\\\\', '\0': '\\u{0}', '\u2028': '\\u{2028}'}.get(c, c) for c in s)
def spellings(n):
    """the documented name of a Rust name, and names it could be confused with"""
    k = kebab(n)
    out = [k, n, n.replace('_', '-'), n.lower(), n.replace('_', '-').lower(), k.replace('-', '_'), k.replace('-', ''), k + '-', '-' + k, k.upper(), k.title()]
    return [x for x in dict.fromkeys(out) if x and not x[0].isdigit() and not (x[0] == '-' and x[1:2].isdigit()) and x not in ('true', 'false', 'null')]
def md(mode): return {'n': '', 'bytes': ', bytes'}.get(mode, ', str')
def arg(n, sc, mode='n', opt=False, dflt=None): return F(n, 'argument' + md(mode), sc.rust, 'arg %s %s' % (mode, sc.sx), opt, dflt)
def args(n, sc, mode='n', coll='vec'):
    return F(n, 'arguments' + md(mode), {'vec': 'Vec<%s>', 'set': 'BTreeSet<%s>'}[coll] % sc.rust, 'args %s %s %s' % (mode, sc.sx, coll))
def prop(n, sc, mode='n', opt=False, dflt=None, kdl=None):
    return F(n, 'property' + ('(name=%s)' % rs(kdl) if kdl is not None else '') + md(mode), sc.rust, 'prop %s %s %s' % (q(kebab(n) if kdl is None else kdl), mode, sc.sx), opt, dflt)
def props(n, sc, mode='n', coll='vec', key='string'):
    k = {'string': 'String', 'low': 'Low', 'u16': 'u16'}[key]
    return F(n, 'properties' + md(mode), {'vec': 'Bag<%s, %s>', 'map': 'BTreeMap<%s, %s>'}[coll] % (k, sc.rust), 'props %s %s %s %s' % (mode, sc.sx, coll, key))
def child(n, ty, opt=False, dflt=None):
    f = F(n, 'child', ty.rust, 'child %s %s' % (q(kebab(n)), ty.sx), opt, dflt); f.src = ty.src; return f
def childu(n, inner, opt=False, dflt=None):
    f = F(n, 'child, unwrap(%s)' % inner.attr, inner.rust, 'child %s (unwrap %s)' % (q(kebab(n)), inner.sx()), opt, dflt); f.src = inner.src; return f
def flag(n, dflt=None): return F(n, 'child', 'bool', 'flag %s' % q(kebab(n)), False, dflt)
def many(n, ty, kdl=None, opt=False, dflt=None, coll='vec'):
    f = F(n, 'children' + ('(name=%s)' % rs(kdl) if kdl is not None else ''), {'vec': 'Vec<%s>', 'set': 'BTreeSet<%s>'}[coll] % ty.rust,
        'many %s %s %s' % (q(kdl) if kdl is not None else '-', ty.sx, coll), opt, dflt); f.src = ty.src; return f
def manyu(n, inner, kdl=None, opt=False, dflt=None):
    f = F(n, 'children' + ('(name=%s)' % rs(kdl) if kdl is not None else '') + ', unwrap(%s)' % inner.attr, 'Vec<%s>' % inner.rust,
        'many %s (unwrap %s) vec' % (q(kdl) if kdl is not None else '-', inner.sx()), opt, dflt); f.src = inner.src; return f
def flat(n, ty, what):
    f = F(n, 'flatten(%s)' % ', '.join({'c': 'child', 'p': 'property'}[c] for c in what), ty.rust, 'flat %s %s' % (what, ty.sx)); f.src = ty.src; return f
def span(n, how='Span'): return F(n, 'span', how, 'span %s' % how)
def nname(n, c='string'): return F(n, 'node_name', {'string': 'String', 'low': 'Low', 'u16': 'u16'}[c], 'nodename %s' % c)
def tname(n, c='string', opt=False): return F(n, 'type_name', {'string': 'String', 'low': 'Low', 'u16': 'u16'}[c], 'typename %s' % c, opt)
def skip(n, rust, dbg): return F(n, '', rust, 'skip %s' % q(dbg))
def wrapty(w, ty): return Ty('%s<%s>' % (w, ty.rust), '(wrap %s)' % ty.sx, ty.src, ty.st)

def closed(k):
    """KDL 1.0 wants a terminator after the last child"""
    out, quoted, i = '', False, 0
    while i < len(k):
        c = k[i]
        if quoted and c == '\\': out += k[i:i + 2]; i += 2; continue
        if c == '"': quoted = not quoted
        if c == '}' and not quoted and out.rstrip()[-1:] not in ('{', ';'): out = out.rstrip() + '; '
        out += c; i += 1
    return out

RICH = ['u', '(t)u', '(t)u "1"', 'u p=1', '(t)u "1" null p=2 { z; (t)z 3; }', '("")u', 'u { z 1; }', '(t)v "1"', 'v', '(u8)u p=(u8)1']
def rich(b, **kw):
    """a node of which nothing is refused"""
    z = b.struct([tname('t', opt=True), nname('n'), args('a', U8)], base='Z')
    return b.struct([tname('t', opt=True), nname('n'), args('a', sopt(STR)), props('p', U8), many('k', z)], base='R', **kw)
def rich_fields(b):
    R = rich(b)
    return [[child('u', R)], [child('u', R, opt=True)], [many('us', R, 'u')], [many('us', R, 'u', opt=True)], [many('us', R)], [child('v', R, opt=True), many('us', R)], [child('u', wrapty('Box', R), opt=True)],
        [many('us', b.newtype(R), 'u')], [child('u', b.enum([('U', 'u', ('nested', R)), ('V', 'v', 'unit')]), opt=True)], [many('us', b.enum([('U', 'u', ('optnested', R)), ('V', 'v', ('nested', wrapty('Box', R)))]))]]

def forests(n, labels):
    """every ordered forest of n labelled nodes, as KDL"""
    if n == 0: return ['']
    out = []
    for k in range(1, n + 1):
        # the first tree has k nodes
        for kids in forests(k - 1, labels):
            for l in labels:
                first = l + (' { %s}' % kids if kids else '') + '; '
                out += [first + rest for rest in forests(n - k, labels)]
    return out
def chain(labels, bottom):
    """nodes inside each other"""
    out = bottom + '; '
    for l in reversed(labels): out = '%s { %s}; ' % (l, out)
    return out
def recursive(b, sub=False):
    """types inside of themselves, at every depth"""
    size = 2 if b.alts is True else 3 if sub else 4
    chains = (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 32, 33, 40) if b.alts is not True else (1, 3, 4, 5, 8, 9, 17)
    def go(ty, labels, root=False, more=()):
        docs = [d for n in range(1, size + 1) for d in forests(n, labels if n < 4 else labels[:3])]
        for d in chains:
            for x in labels:
                docs.append(chain([labels[0]] * d, x))
                docs.append(chain([labels[0]] * d, labels[0]).replace(labels[0] + ' {', x + ' {', 1))
                docs.append(chain([labels[0]] * (d // 2) + [x] + [labels[0]] * (d - d // 2), labels[0]))
        docs = list(dict.fromkeys(docs + list(more)))
        b.reg('recursive', ty, kids=docs, mk=1, root=root)
    r = b.fwd()
    A = b.struct([arg('a', U8), many('k', r)], fwd=r)
    go(A, ['n 1', 'm 300', 'm', '(t)n 1'])
    go(b.struct([many('k', A)]), ['n 1', 'm 300', 'n 2 3'], root=True)
    r = b.fwd()
    go(b.struct([arg('a', U8, opt=True), many('k', r, 'n'), flag('f')], fwd=r), ['n', 'f', 'n 1', 'n "z"'])
    r = b.fwd()
    t = b.struct([prop('p', U8, opt=True), child('next', wrapty('Box', r), opt=True), flag('end')], fwd=r)
    go(t, ['next', 'end', 'next p=1', 'next p="z"'])
    go(b.struct([child('next', t, opt=True), flag('end')]), ['next', 'end', 'next p=1', 'next p=300'], root=True)
    r = b.fwd()
    G = b.struct([arg('a', U8, dflt=('7', '7')), many('k', r)])
    E = b.enum([('Leaf', 'leaf', 'unit'), ('Group', 'group', ('nested', G)), ('Pair', 'pair', ('tuple', [arg('a', U8, opt=True), many('k', r)]))], fwd=r)
    go(E, ['group', 'leaf', 'pair 1', 'leaf 1', 'pair "z"'])
    r = b.fwd()
    go(b.struct([arg('a', U8, opt=True), childu('sub', many('sub', r), opt=True), many('n', r, 'n', opt=True)], fwd=r), ['n', 'sub', 'n 1', 'sub 1'])
    r = b.fwd()
    I = b.struct([many('n', r, 'n', opt=True), child('m', wrapty('Box', r), opt=True)], default=True)
    go(b.struct([arg('a', U8, opt=True), flat('i', I, 'c')], fwd=r), ['n', 'm', 'n 1', 'm "z"'])
    r = b.fwd()
    go(b.struct([span('s'), nname('name'), tname('t', opt=True), many('k', r)], span_type='Span', fwd=r), ['n', '(t)m', 'n 1'])
    r = b.fwd()
    go(b.newtype(b.struct([nname('name', 'low'), many('k', wrapty('Rc', r))], fwd=r)), ['n', 'm', 'N', '(t)n'])

class Bin:
    def __init__(self, id, level='Value'):
        self.id, self.level, self.n, self.defs, self.regs, self.seen = id, level, 0, [], [], set()
        self.names, self.alts = {}, False
    def new(self, base):
        self.n += 1
        return '%s%d' % (base, self.n)
    def fwd(self, base='Rec'):
        """a type to be defined later on, for use inside of itself"""
        name = self.new(base)
        return Ty(name, '(ref %s)' % name, '')
    def struct(self, fields, shape='named', default=False, span_type=None, base='N', show=False, fwd=None):
        name = fwd.rust if fwd else self.new(base)
        named = shape == 'named'
        body = ', '.join(f.code(named) for f in fields)
        own = any(f.own for f in fields)
        dv = ['Decode'] + ([] if show else ['Debug']) + (['Default'] if default and not own else [])
        st = '#[knuffel(span_type=%s)]\n' % span_type if span_type else ''
        src = '#[derive(%s)]\n%sstruct %s%s' % (', '.join(dv), st, name,
            {'named': ' { %s }' % body, 'tuple': '(%s);' % body, 'unit': ';'}[shape])
        if own:
            src += '\nimpl Default for %s { fn default() -> Self { %s { %s } } }' % (name, name, ', '.join('%s: %s' % (f.name if named else i, f.own[0] if f.own else 'Default::default()') for i, f in enumerate(fields)))
        self.defs.append(src)
        if show:
            self.defs.append('impl std::fmt::Debug for %s { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "%s {{ %s }}", %s) } }' % (
                name, name, ', '.join(f.name + ': {}' for f in fields), ', '.join('self.%s.show()' % f.name for f in fields)))
        inner = ''.join(f.src for f in fields)
        sx = '(struct %s %s %s)' % (name, 'tuple' if shape == 'tuple' else 'named', ' '.join(f.sx(named) for f in fields))
        return Ty(name, '(def %s %s)' % (name, sx) if fwd else sx, inner + src + '\n', span_type)
    def enum(self, variants, base='E', span_type=None, fwd=None):
        """variants: (RustName, kdl, 'unit' | ('nested', ty) | ('optnested', ty) | ('tuple', fields) | 'skip')"""
        name = fwd.rust if fwd else self.new(base)
        parts, sx, inner = [], [], ''
        for rn, kdl, v in variants:
            if v == 'unit': parts.append(rn); sx.append('(%s %s unit)' % (kdl, rn))
            elif v == 'skip': parts.append('#[knuffel(skip)] %s { x: u8 }' % rn); sx.append('(%s %s skip)' % (kdl, rn))
            elif v == 'skipunit': parts.append('#[knuffel(skip)] %s' % rn); sx.append('(%s %s skip)' % (kdl, rn))
            elif v == 'skiptuple': parts.append('#[knuffel(skip)] %s(u8)' % rn); sx.append('(%s %s skip)' % (kdl, rn))
            elif v == 'skipfield': parts.append('#[knuffel(skip)] %s(Vec<Low>, std::time::Duration)' % rn); sx.append('(%s %s skip)' % (kdl, rn))
            elif v[0] == 'nested': parts.append('%s(%s)' % (rn, v[1].rust)); sx.append('(%s %s nested %s)' % (kdl, rn, v[1].sx)); inner += v[1].src
            elif v[0] == 'optnested': parts.append('%s(Option<%s>)' % (rn, v[1].rust)); sx.append('(%s %s optnested %s)' % (kdl, rn, v[1].sx)); inner += v[1].src
            else:
                parts.append('%s(%s)' % (rn, ', '.join(f.code(False) for f in v[1]))); inner += ''.join(f.src for f in v[1])
                sx.append('(%s %s tuple %s)' % (kdl, rn, ' '.join(f.sx(False) for f in v[1])))
        st = '#[knuffel(span_type=%s)]\n' % span_type if span_type else ''
        src = '#[derive(Decode, Debug)]\n%senum %s { %s }' % (st, name, ', '.join(parts))
        self.defs.append(src)
        sx = '(enum %s)' % ' '.join(sx)
        return Ty(name, '(def %s %s)' % (name, sx) if fwd else sx, inner + src + '\n', span_type)
    def newtype(self, inner, opt=False):
        name = self.new('W')
        src = '#[derive(Decode, Debug)]\nstruct %s(%s);' % (name, 'Option<%s>' % inner.rust if opt else inner.rust)
        self.defs.append(src)
        return Ty(name, '(new %s %s %s)' % (name, 'opt' if opt else 'req', inner.sx), inner.src + src + '\n')
    def reg(self, group, ty, heads=(), entries=(), me=0, kids=(), mk=0, root=False, bare=None, line=False):
        self.names[group] = self.names.get(group, 0) + 1
        fn = ('root' if root else 'nodes') + ('_l' if line else '')
        arr = lambda xs: '&[%s]' % ', '.join(rs(x) for x in xs)
        # identical alphabets are shared
        key = []
        heads, kids = [closed(x) for x in heads], [closed(x) for x in kids]
        for xs in (heads, entries, kids):
            t = arr(xs)
            if t not in self.names: self.names[t] = 'A%d' % len([1 for k in self.names if str(k).startswith('&[')])
            key.append(self.names[t])
        alts = []
        if self.alts:
            gen = ty.st is None
            ways = [('with_context_root', 1, 1), ('by_line_root', 1, gen), ('inside', 0, 1), ('inside_line', 0, gen)] if root else \
                [('with_context', 1, 1), ('by_line', 1, gen), ('by_node', 1, 1), ('by_node_line', 1, gen), ('by_node_copy', 1, 1), ('by_node_cross', 1, 1), ('by_node_own_span', 1, gen)]
            if self.alts is not True: ways = [w for w in ways if w[0] in self.alts]
            alts = ['("%s", %s, %s::<%s>)' % (w, 'true' if same else 'false', w, ty.rust) for w, same, ok in ways if ok and not line]
        self.regs.append('Entry { name: %s, model: %s, src: %s, kind: Kind::%s, run: %s::<%s>, bare: %s, alts: &[%s], heads: %s, entries: %s, max_e: %d, kids: %s, max_k: %d }' % (
            rs('%s %d' % (group, self.names[group])), rs(ty.sx), rs(ty.src), 'Root' if root else 'Nodes', fn, ty.rust,
            'Some(%s::<%s>)' % (fn, bare.rust) if bare else 'None', ', '.join(alts), key[0], key[1], me, key[2], mk))
    def write(self):
        out = [PRE] + self.defs
        out += ['static %s: &[&str] = %s;' % (v, k) for k, v in self.names.items() if str(k).startswith('&[')]
        out.append('static ENTRIES: &[Entry] = &[\n%s];' % ''.join('    %s,\n' % r for r in self.regs))
        out.append('fn main() { dec::main("%s", Level::%s, ENTRIES) }\n' % (self.id, self.level))
        text = '\n'.join(out)
        d = os.path.join(HERE, 'src', 'bin')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.id.lower() + '.rs')
        if not os.path.exists(p) or open(p).read() != text:
            open(p, 'w').write(text)

# ---------------------------------------------------------------- arguments

ARGK = {
    'A': lambda n: arg(n, U8), 'S': lambda n: arg(n, STR), 'O': lambda n: arg(n, U8, opt=True), 'D': lambda n: arg(n, U8, dflt=('7', '7')),
    'E': lambda n: arg(n, U8, opt=True, dflt=('Some(9)', 'Some(9)')), 'T': lambda n: arg(n, U16S, 'str:u16'), 'B': lambda n: arg(n, BYTES, 'bytes', opt=True),
    'V': lambda n: args(n, U8), 'W': lambda n: args(n, sopt(STR)), 'X': lambda n: args(n, U8, coll='set'), 'Y': lambda n: args(n, U16S, 'str:u16'),
}
ARGV = ['1', '2', '"x"', 'null', '(u8)3', '(u8)null']

def argseq(s, names='abcdef'): return [ARGK[c](names[i]) for i, c in enumerate(s)]

def c12(b, sub=False):
    seqs = [''.join(t) for n in range(0, 4) for t in itertools.product('ASOD', repeat=n)]
    if sub: seqs = [s for s in seqs if len(s) <= 2]
    for s in seqs:
        for v in ['', 'V', 'W']:
            if sub and v == 'W': continue
            b.reg('args named', b.struct(argseq(s + v)), ['n'], ARGV, 4 if len(s) > 1 else 3)
    small = [s for s in seqs if len(s) <= 2]
    for s in small:
        for v in ['', 'V', 'W']:
            if sub and (v == 'W' or len(s) > 1): continue
            if s + v == '': continue
            b.reg('args tuple', b.struct(argseq(s + v), 'tuple'), ['n'], ARGV, 3)
            b.reg('args variant', b.enum([('FooBar', 'foo-bar', ('tuple', argseq(s + v))), ('Other', 'other', 'unit')]), ['foo-bar', 'other', 'n'], ARGV, 3)
    if sub: return
    for s in ['E', 'T', 'B', 'ET', 'TE', 'AX', 'AY', 'EB', 'SX', 'DE', 'OE', 'ED', 'TTY', 'AAAA', 'AOAO', 'SASA', 'ASAV', 'ODOD', 'AAAAV']:
        b.reg('args named', b.struct(argseq(s)), ['n'], ['1', '2', '"7"', 'null', 'true'], 4)
    # arguments between properties and children, in the definition and in the document
    C = b.struct([arg('x', U8)], base='C')
    for s in ['A', 'AS', 'AO', 'AD', 'AV', 'ASV', 'OV']:
        fs = argseq(s)
        for where in range(len(fs) + 1):
            mixed = fs[:where] + [prop('p', U8, opt=True), flag('f')] + fs[where:]
            b.reg('args among others', b.struct(mixed), ['n'], ['1', '"x"', 'p=5', 'p="y"'], 4, ['f', 'g'], 1)
            mixed = fs[:where] + [props('p', U8), many('k', C)] + fs[where:]
            b.reg('args among others', b.struct(mixed), ['n'], ['1', '"x"', 'p=5', '/-3'], 4, ['c 1', 'c'], 1)
            # by position: what stands where in a tuple
            mixed = fs[:where] + [prop('p', U8, kdl='p', dflt=('6', '6'))] + fs[where:]
            b.reg('args among others', b.struct(mixed, 'tuple'), ['n'], ['1', '"x"', 'p=5', 'p="y"'], 4)
            b.reg('args among others', b.enum([('N', 'n', ('tuple', mixed)), ('M', 'm', ('tuple', mixed[::-1] if 'V' not in s else mixed))]), ['n', 'm'], ['1', '2', '"x"', 'p=5', 'p="y"'], 3)
            mixed = fs[:where] + [many('k', C)] + fs[where:]
            b.reg('args among others', b.struct(mixed, 'tuple'), ['n'], ['1', '"x"', '/-3'], 3, ['c 1', 'c'], 1)
            b.reg('args among others', b.enum([('N', 'n', ('tuple', mixed))]), ['n'], ['1', '"x"', '/-3'], 3, ['c 1', 'c'], 1)

# ---------------------------------------------------------------- properties

def c13(b, sub=False):
    def slots(extra=()):
        k = [lambda n, kdl: None, lambda n, kdl: prop(n, U8, kdl=kdl), lambda n, kdl: prop(n, U8, opt=True, kdl=kdl), lambda n, kdl: prop(n, U8, dflt=('7', '7'), kdl=kdl)]
        k += list(extra)
        return k
    toks = ['alpha=1', 'alpha=2', 'alpha=(u8)3', 'alpha=null', 'beta-two=3', 'beta_two=4', 'gammaX=5', 'gamma=6', '"alpha"="9"', '8']
    for i, j, k in itertools.product(range(4), repeat=3):
        if sub and (i, j, k) not in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 3), (1, 1, 1), (2, 2, 2), (3, 3, 3)]: continue
        fs = [f for f in [slots()[i]('alpha', None), slots()[j]('beta_two', None), slots()[k]('gamma', 'gammaX')] if f]
        for c in [None, props('rest', U8), props('rest', U8, coll='map', key='low')]:
            if sub and c and c.rust.startswith('Bag'): continue
            b.reg('properties', b.struct(fs + ([c] if c else [])), ['n'], toks, 3)
    if sub: return
    ext = ['alpha=1', 'alpha="7"', 'alpha=null', '"7"=3', 'z=4', '"z y"=5', '"plugin name"=6', 'z="7"']
    for f in [prop('alpha', U16S, 'str:u16'), prop('alpha', U16S, 'str:u16', opt=True), prop('alpha', BYTES, 'bytes'), prop('alpha', STR), prop('alpha', STR, opt=True, dflt=('Some("d".into())', 'Some("d")')),
              prop('alpha', STR, kdl='plugin name'), prop('alpha', STR, kdl='z y')]:
        for c in [None, props('rest', U8, key='u16'), props('rest', U16S, 'str:u16'), props('rest', sopt(U8), coll='map'), props('rest', STR)]:
            b.reg('properties', b.struct([f] + ([c] if c else [])), ['n'], ext, 3)
    # tuple structs and enum variants take explicitly named properties
    for o in [dict(), dict(opt=True), dict(dflt=('7', '7'))]:
        fs = [prop('a', U8, kdl='alpha', **o), prop('b', U8, kdl='beta-two', opt=True)]
        b.reg('properties tuple', b.struct(fs, 'tuple'), ['n'], toks, 3)
        b.reg('properties tuple', b.struct(fs + [props('c', U8)], 'tuple'), ['n'], toks, 3)
        b.reg('properties variant', b.enum([('One', 'one', ('tuple', fs)), ('Two', 'two', ('tuple', [arg('x', U8, opt=True)] + fs + [props('r', U8)]))]), ['one', 'two'], toks, 3)
    for perm in itertools.permutations([prop('a', U8, kdl='alpha'), prop('b', U8, kdl='beta-two', dflt=('8', '8')), arg('x', U8), prop('c', U8, kdl='gamma', dflt=('9', '9'))]):
        b.reg('properties tuple', b.struct(list(perm), 'tuple'), ['n'], toks, 3)
        b.reg('properties variant', b.enum([('One', 'one', ('tuple', list(perm)))]), ['one'], toks, 3)
    # order of the definition does not matter
    for perm in itertools.permutations([prop('alpha', U8), prop('beta_two', U8, opt=True), prop('gamma', U8, kdl='gammaX', dflt=('7', '7'))]):
        b.reg('properties', b.struct([arg('x', U8, opt=True)] + list(perm)), ['n'], toks, 3)
    # names that need care
    b.reg('properties', b.struct([prop('type', U8), prop('match', U8, opt=True)]), ['n'], ['type=1', 'match=2', '"type"=3', 'r-type=4'], 3)
    b.reg('properties', b.struct([prop('with_two_words', U8), prop('v2', U8, opt=True)]), ['n'], ['with-two-words=1', 'with_two_words=2', 'v2=3', 'v-2=4', 'withTwoWords=5'], 3)
    for n in FIELDS:
        for o in [dict(), dict(opt=True), dict(dflt=('7', '7'))]:
            for c in [None, props('rest', U8)]:
                b.reg('property names', b.struct([prop(n, U8, **o)] + ([c] if c else [])), ['n'], ['%s=%d' % (x, i + 1) for i, x in enumerate(spellings(n))], 2)
    odd = ['%s=%d' % (kstr(x), i + 1) for i, x in enumerate(ODD)] + ['-a=91', '--=92', '\u00e9=93', 'r#"q"w"#=94', '+=95', '.=96', '"\\u{61} b"=97', '"-\\u{61}"=98']
    for c in [props('rest', U8), props('rest', U8, coll='map')]:
        b.reg('odd property names', b.struct([c]), ['n'], odd, 2)
        b.reg('odd property names', b.enum([('Vv', 'vv', ('tuple', [c]))]), ['vv'], odd, 2)
    for x in ODD:
        if x == 'x' * 300: continue
        for o in [dict(), dict(opt=True)]:
            b.reg('odd explicit names', b.struct([prop('p', U8, kdl=x, **o)]), ['n'], odd + ['p=99'], 1)
            b.reg('odd explicit names', b.struct([prop('p', U8, kdl=x, **o), props('rest', U8)]), ['n'], odd + ['p=99'], 1)

# ---------------------------------------------------------------- children

def c14(b, sub=False):
    X = b.struct([arg('x', U8)], base='X')
    Any = b.struct([nname('name'), arg('x', U8, opt=True)], base='Any')
    E = b.enum([('Item', 'item', ('nested', X)), ('Other', 'other', ('tuple', [arg('v', U8)]))])
    kids = ['one 1', 'one 2', 'one', 'two-words', 'two-words 1', 'item 3', 'item "z"', 'other 5', 'two_words 6']
    ones = [None, child('one', X), child('one', X, opt=True)]
    flags = [None, flag('two_words')]
    items = [None, many('items', X, 'item'), many('items', X, 'item', opt=True)]
    rests = [None, many('rest', Any), many('rest', E)]
    for o, f, i, r in itertools.product(ones, flags, items, rests):
        if sub and r is rests[2]: continue
        t = b.struct([x for x in (o, f, i, r) if x])
        if sub:
            b.reg('children', t, ['n'], [], 0, kids, 2)
            b.reg('children of the document', t, kids=kids, mk=2, root=True)
        else:
            b.reg('children', t, ['n'], [], 0, kids, 3)
            b.reg('children of the document', t, kids=kids, mk=3, root=True)
    for fs in rich_fields(b):
        b.reg('rich children', b.struct(fs), ['n'], [], 0, RICH, 2)
        b.reg('rich children', b.struct(fs), kids=RICH, mk=2, root=True)
    recursive(b, sub)
    if sub: return
    # several of a kind, other positions of the declaration
    kids2 = ['a 1', 'a 2', 'b 1', 'b', 'c', 'c {}', 'd 1', 'e']
    for fs in [[child('a', X), child('b', X)], [child('a', X), child('b', X, opt=True), flag('c'), flag('e')], [many('xs', X, 'a'), many('ys', X, 'b')],
               [many('ys', X, 'b'), many('xs', X, 'a'), many('rest', Any)], [flag('c'), child('d', X), many('xs', X, 'a')], [many('xs', X, 'a'), child('b', X), flag('c'), many('rest', Any)],
               [child('a', X, opt=True), child('b', X, opt=True), child('d', X, opt=True)], [flag('c'), flag('e'), flag('a')]]:
        t = b.struct(fs)
        b.reg('children', t, ['n'], [], 0, kids2, 4)
        b.reg('children of the document', t, kids=kids2, mk=4, root=True)
        t = b.struct([arg('x', U8, opt=True), prop('p', U8, opt=True)] + fs)
        b.reg('children', t, ['n', 'n 1', 'n p=2'], [], 0, kids2, 2)
    # nested levels
    L1 = b.struct([many('xs', X, 'a'), flag('c')])
    L2 = b.struct([child('l', L1), many('rest', Any)])
    L3 = b.struct([child('m', L2, opt=True), many('ls', L1, 'l')])
    deep = ['m { l { a 1; a 2; c }; q 1 }', 'm { l }', 'm', 'l { a 1 }', 'l { c; c }', 'l { b }', 'm { l { a }; l }', 'a 1']
    b.reg('children nested', L3, ['n'], [], 0, deep, 3)
    b.reg('children nested', L3, kids=deep, mk=3, root=True)
    # flag contents
    t = b.struct([flag('c'), flag('c_c')])
    fl = ['c', 'c 1', 'c x=1', 'c { y }', 'c {}', '(t)c', 'c-c', 'c_c', 'c-c /-1']
    b.reg('flags', t, ['n'], [], 0, fl, 3)
    b.reg('flags', t, kids=fl, mk=3, root=True)
    for n in FIELDS:
        for f, sfx in [(child(n, X), ' 1'), (child(n, X, opt=True), ' 1'), (flag(n), ''), (childu(n, arg(n, U8)), ' 1'), (childu(n, prop(n, U8), opt=True), ' %s=2' % kebab(n))]:
            for r in [None, many('rest', Any)]:
                t = b.struct([f] + ([r] if r else []))
                ks = [x + sfx for x in spellings(n)]
                b.reg('child names', t, ['n'], [], 0, ks, 2)
                b.reg('child names', t, kids=ks, mk=2, root=True)
    odd = [kstr(x) + ' 1' for x in ODD] + ['-a 2', '-- 3', '\u00e9 4', 'r#"q"w"# 5', '+ 6', '. 7', '"\\u{61} b" 8', '"-\\u{61}" 9']
    b.reg('odd child names', b.struct([many('rest', Any)]), kids=odd, mk=2, root=True)
    b.reg('odd child names', b.struct([many('rest', Any), arg('a', U8, opt=True)]), ['n'], [], 0, odd, 2)
    for x in ODD:
        if x == 'x' * 300: continue
        t = b.struct([many('xs', X, x, opt=True)])
        b.reg('odd explicit names', t, kids=odd + ['xs 7'], mk=1, root=True)
        t = b.struct([many('xs', X, x), many('rest', Any)])
        b.reg('odd explicit names', t, ['n'], [], 0, odd + ['xs 7'], 1)

# ---------------------------------------------------------------- optional and default

def c15(b, sub=False):
    X = b.struct([arg('x', U8, dflt=('5', '5'))], base='X', default=True)
    vals = {'n8': (U8, 'n', [('', '0'), ('7', '7')], ['1', '0', 'null', '"z"', '300']),
            'ns': (STR, 'n', [('', '""'), ('"dd".into()', '"dd"')], ['"v"', '""', 'null', '1']),
            'nb': (BOOL, 'n', [('', 'false'), ('true', 'true')], ['true', 'false', 'null', '1']),
            'su': (U16S, 'str:u16', [('', '0'), ('7', '7')], ['"1"', '"z"', 'null', '1']),
            'by': (BYTES, 'bytes', [('', '[]'), ('vec![7]', '[7]')], ['"a"', '""', 'null', '1', '(base64)"YQ=="'])}
    for k, (sc, mode, dfs, vs) in vals.items():
        forms = [dict(), dict(opt=True)] + [dict(dflt=d) for d in dfs] + [dict(opt=True, dflt=('', 'None')), dict(opt=True, dflt=('Some(%s)' % dfs[1][0], 'Some(%s)' % dfs[1][1]))]
        for f in forms:
            b.reg('argument', b.struct([arg('a', sc, mode, **f)]), ['n'], vs, 2)
            b.reg('argument', b.struct([arg('a', U8), arg('z', sc, mode, **f)], 'tuple'), ['n'], ['1'] + vs, 2)
            pv = ['a=' + v for v in vs]
            b.reg('property', b.struct([prop('a', sc, mode, **f)]), ['n'], pv, 3 if len(pv) < 5 else 2)
            b.reg('property', b.struct([prop('a', sc, mode, kdl='a', **f), prop('b', U8, kdl='b')], 'tuple'), ['n b=1'], pv, 2)
            b.reg('property', b.enum([('Vv', 'vv', ('tuple', [prop('a', sc, mode, kdl='a', **f)]))]), ['vv'], pv, 2)
            # unwrapped child with an outer form
            if mode.startswith('str') and f.get('opt') and 'dflt' in f: continue  # does not compile, not documented
            t = b.struct([childu('a', arg('a', sc, mode), **f)])
            kv = ['a ' + v for v in vs] + ['a']
            b.reg('unwrapped child', t, ['n'], [], 0, kv, 2)
            b.reg('unwrapped child', t, kids=kv, mk=2, root=True)
            if not f.get('opt') and 'dflt' in f:
                t = b.struct([childu('a', arg('a', sc, mode, dflt=f['dflt']))])
                b.reg('unwrapped default', t, ['n'], [], 0, kv, 2)
                t = b.struct([childu('a', prop('x', sc, mode, dflt=f['dflt'], kdl='x'))])
                b.reg('unwrapped default', t, ['n'], [], 0, ['a x=' + v for v in vs] + ['a'], 2)
    # inside a flattened struct an absent field keeps what that struct's Default has
    for k, (sc, mode, dfs, vs) in vals.items():
        for own in [None, 'Some(%s)' % dfs[1][0]]:
            dbg = 'Some(%s)' % dfs[1][1]
            def o(f): return f.starts(own, dbg) if own else f
            for what, fs, es, ks in [('p', [o(prop('a', sc, mode, opt=True)), prop('b', U8, opt=True)], ['a=' + v for v in vs], []),
                                     ('c', [childu('a', arg('a', sc, mode), opt=True), flag('f')], [], ['a ' + v for v in vs] + ['a', 'f']),
                                     ('cp', [childu('a', prop('x', sc, mode, kdl='x'), opt=True), o(prop('z', sc, mode, opt=True, kdl='a'))], ['a=' + v for v in vs], ['a x=' + v for v in vs] + ['a'])]:
                I = b.struct(fs, default=True)
                b.reg('flattened', b.struct([flat('i', I, what)]), ['n'], es, 2, ks, 2 if not es else 1)
                if what == 'c': b.reg('flattened', b.struct([flat('i', I, what)]), kids=ks, mk=2, root=True)
    kx = ['x 1', 'x', 'x "z"', 'x 1 2']
    for f in [dict(), dict(opt=True), dict(dflt=('', '%s { x: 0 }' % X.rust)), dict(dflt=('%s { x: 9 }' % X.rust, '%s { x: 9 }' % X.rust)),
              dict(opt=True, dflt=('', 'None')), dict(opt=True, dflt=('Some(%s { x: 9 })' % X.rust, 'Some(%s { x: 9 })' % X.rust))]:
        t = b.struct([child('x', X, **f)])
        b.reg('child', t, ['n'], [], 0, kx, 3)
        b.reg('child', t, kids=kx, mk=3, root=True)
    for f in [dict(), dict(opt=True), dict(dflt=('', '[]')), dict(dflt=('vec![%s { x: 9 }]' % X.rust, '[%s { x: 9 }]' % X.rust)),
              dict(opt=True, dflt=('', 'None')), dict(opt=True, dflt=('Some(vec![%s { x: 9 }])' % X.rust, 'Some([%s { x: 9 }])' % X.rust))]:
        t = b.struct([many('xs', X, 'x', **f)])
        b.reg('children', t, ['n'], [], 0, kx, 3)
        b.reg('children', t, kids=kx, mk=3, root=True)
        if f.get('opt'): continue  # an optional list of unwrapped children does not compile, not documented
        fu = dict(f)
        if 'dflt' in fu: fu['dflt'] = tuple(s.replace('%s { x: 9 }' % X.rust, '9') for s in fu['dflt'])
        t = b.struct([manyu('xs', arg('xs', U8), 'x', **fu)])
        b.reg('children', t, ['n'], [], 0, kx, 3)
    # fields that are not decoded
    for s in [[skip('s', 'u8', '0'), skip('t', 'Option<String>', 'None'), skip('u', 'Vec<u8>', '[]')]]:
        b.reg('not decoded', b.struct(s), ['n'], ['s=1', '1', 'null'], 2, ['s', 't 1'], 2)
        b.reg('not decoded', b.struct([arg('a', U8)] + s + [prop('b', U8, opt=True)]), ['n'], ['s=1', '1', 'b=2'], 3, ['s'], 1)
        b.reg('not decoded', b.struct(s + [flag('b')]), kids=['s', 't', 'b', 'u 1'], mk=3, root=True)
        b.reg('not decoded', b.struct(s + [arg('a', U8)], 'tuple'), ['n'], ['s=1', '1'], 3)

# ---------------------------------------------------------------- unwrap

def c16(b, sub=False):
    X = b.struct([arg('x', U8)], base='X')
    inner = {
        'arg': (lambda n: arg(n, U8), 'u8', '9'), 'args': (lambda n: args(n, U8), 'Vec<u8>', 'vec![9]'),
        'str': (lambda n: arg(n, U16S, 'str:u16'), 'u16', '9'), 'bytes': (lambda n: arg(n, BYTES, 'bytes'), 'Vec<u8>', 'vec![9]'),
        'argd': (lambda n: arg(n, U8, dflt=('4', '4')), 'u8', '9'), 'argsS': (lambda n: args(n, sopt(U8)), None, None),
        'prop': (lambda n: prop(n, U8), 'u8', '9'), 'propn': (lambda n: prop(n, U8, kdl='x'), 'u8', '9'), 'props': (lambda n: props(n, U8, coll='map'), None, None),
        'child': (lambda n: child(n, X), None, None), 'children': (lambda n: many(n, X), None, None), 'childrenn': (lambda n: many(n, X, 'x'), None, None),
        'childu': (lambda n: childu(n, arg(n, U8)), 'u8', '9'), 'childrenu': (lambda n: manyu(n, arg(n, U8)), None, None), 'childrennu': (lambda n: manyu(n, arg(n, U8), 'x'), None, None),
        'childup': (lambda n: childu(n, prop(n, U8, kdl='x')), 'u8', '9'), 'childuu': (lambda n: childu(n, childu(n, arg(n, U8))), 'u8', '9'),
        'childrenua': (lambda n: manyu(n, args(n, U8)), None, None), 'propsb': (lambda n: props(n, STR), None, None),
    }
    kids = ['w', 'w 1', 'w "7"', 'w 1 2', 'w x=1', 'w w=1', 'w x=1 w=2', 'w { x 1 }', 'w { x 1; x 2 }', 'w { w 3 }', 'w { w { w 3 } }', 'w { w x=4 }', 'w {}',
            '(t)w 1', 'w 1 { x 1 }', 'w { (t)w 3 }', 'v 1', 'w w="s"']
    for k, (mk, rust, d) in inner.items():
        if k == 'arg':
            for o in [childu('u', child('u', rich(b))), childu('u', child('u', rich(b)), opt=True), childu('u', many('us', rich(b))), childu('u', many('us', rich(b), 'u')), manyu('u', child('u', rich(b)), 'u'), manyu('u', many('us', rich(b)), 'u')]:
                rk = ['u { %s; }' % x for x in RICH] + ['u', '(t)u', '(t)u { u; }', 'u { us; }', 'u { (t)us "1"; }']
                b.reg('unwrap rich', b.struct([o]), ['n'], [], 0, rk, 1)
                b.reg('unwrap rich', b.struct([o]), kids=rk, mk=1, root=True)
        if sub and k in ('argsS', 'childup', 'childrenua', 'propsb', 'childuu'): continue
        outs = [childu('w', mk('w')), childu('w', mk('w'), opt=True), manyu('w', mk('w'), 'w'), manyu('w', mk('w'))]
        if d and not sub:
            dbg = d.replace('vec!', '')
            outs += [childu('w', mk('w'), dflt=(d, dbg))]
            if k not in ('argd', 'str'): outs += [childu('w', mk('w'), opt=True, dflt=('Some(%s)' % d, 'Some(%s)' % dbg))]
        for i, o in enumerate(outs):
            if sub and i >= 2: continue
            t = b.struct([o])
            b.reg('unwrap ' + k, t, ['n'], [], 0, kids, 1 if sub else 2)
            b.reg('unwrap root ' + k, t, kids=kids, mk=1 if sub else 2, root=True)
            if sub or i > 0: continue
            # next to other fields
            t = b.struct([arg('a', U8), o, childu('v', arg('v', U8), opt=True), flag('f')])
            b.reg('unwrap among others', t, ['n 1', 'n'], [], 0, kids + ['f', 'v'], 2)
            # the equivalent explicit definition must agree with the same model
            W = b.struct([mk('w')])
            b.reg('explicit', b.struct([child('w', W)]), ['n'], [], 0, kids, 1)

# ---------------------------------------------------------------- flatten

def c17(b, sub=False):
    X = b.struct([arg('x', U8)], base='X')
    P = b.struct([prop('pa', U8, opt=True), prop('pb', U8, opt=True)], default=True, base='P')
    P2 = b.struct([prop('pc', U16S, 'str:u16', opt=True)], default=True, base='P')
    PT = b.struct([prop('x', U8, opt=True, kdl='pc')], 'tuple', default=True, base='P')
    K = b.struct([flag('ka'), childu('kb', arg('kb', U8), opt=True)], default=True, base='K')
    K2 = b.struct([child('kc', X, opt=True), many('kd', X, 'kd', opt=True)], default=True, base='K')
    B = b.struct([prop('pd', U8, opt=True), flag('kf')], default=True, base='B')
    DP = b.struct([flat('in', P, 'p') if False else flat('inner', P, 'p'), prop('pe', U8, opt=True)], default=True, base='D')
    DK = b.struct([flat('inner', K, 'c'), child('ke', X, opt=True)], default=True, base='D')
    DB = b.struct([flat('inner', B, 'cp'), flat('more', K2, 'c'), prop('pe', U8, opt=True)], default=True, base='D')
    ents = ['pa=1', 'pb=2', 'pa=null', 'pb="z"', 'pc="7"', 'pd=4', 'pe=5', 'own=6', 'q=7']
    kids = ['ka', 'ka 1', 'kb 1', 'kb', 'kc 1', 'kd 1', 'kd 2', 'ke 1', 'kf', 'own 1', 'q']
    Any = b.struct([nname('name')], base='Any')
    own_p = [None, prop('own', U8), prop('own', U8, opt=True)]
    flats_p = [[flat('f', P, 'p')], [flat('f', P, 'p'), flat('g', P2, 'p')], [flat('f', DP, 'p')], [flat('f', PT, 'p')], [flat('f', B, 'p')], [flat('f', B, 'cp')], [flat('f', DB, 'p')],
               [flat('f', P, 'p'), flat('g', B, 'cp')]]
    for fl in flats_p:
        for o in own_p:
            for r in [None, props('rest', U8)]:
                for order in [0, 1]:
                    if order and not o: continue
                    if sub and (order or r): continue
                    fs = ([o] if o else []) + fl if order == 0 else fl + [o]
                    b.reg('flatten properties', b.struct(fs + ([r] if r else [])), ['n'], ents, 2 if sub else 3)
    flats_c = [[flat('f', K, 'c')], [flat('f', K, 'c'), flat('g', K2, 'c')], [flat('f', DK, 'c')], [flat('f', DB, 'c')], [flat('f', B, 'c')], [flat('f', K2, 'c')]]
    own_c = [None, childu('own', arg('own', U8)), child('own', X, opt=True)]
    for fl in flats_c:
        for o in own_c:
            for r in [None, many('rest', Any)]:
                for order in [0, 1]:
                    if order and not o: continue
                    if sub and (order or r): continue
                    fs = ([o] if o else []) + fl if order == 0 else fl + [o]
                    t = b.struct(fs + ([r] if r else []))
                    b.reg('flatten children', t, ['n'], [], 0, kids, 2)
                    b.reg('flatten children', t, kids=kids, mk=2 if sub else 3, root=True)
    # a Default written by hand: what it gives stays exactly where no property is written
    # (a child it already has counts as the first of two: not specified)
    PO = b.struct([prop('pa', U8, opt=True).starts('Some(3)'), prop('pb', U16S, 'str:u16', opt=True).starts('Some(4)')], default=True, base='P')
    BO = b.struct([prop('pd', U8, opt=True).starts('Some(6)'), flag('kf'), flag('ka')], default=True, base='B')
    TO = b.struct([prop('x', U8, opt=True, kdl='pc').starts('Some(7)'), prop('y', U8, opt=True, kdl='pe')], 'tuple', default=True, base='T')
    DO = b.struct([flat('inner', BO, 'cp'), prop('pe', U8, opt=True).starts('Some(8)')], default=True, base='D')
    for fl in [[flat('f', PO, 'p')], [flat('f', BO, 'cp')], [flat('f', DO, 'cp')], [flat('f', TO, 'p')], [flat('f', PO, 'p'), flat('g', BO, 'cp')], [flat('f', wrapty('Box', PO), 'p')]]:
        for r in [[], [props('rest', STR)]]:
            b.reg('flatten own default', b.struct(fl + r), ['n'], ['pa=1', 'pa=null', 'pb="2"', 'pb=null', 'pc=null', 'pc=4', 'pd=null', 'pd=9', 'pe=null', 'q="z"'], 2 if sub else 3, ['ka', 'kf'], 1)
    for fs in rich_fields(b):
        if any(f.kind.startswith('many -') for f in fs) or not fs[0].opt: continue
        I = b.struct(fs, default=True)
        for t in [b.struct([flat('i', I, 'c')]), b.struct([flat('i', I, 'c'), many('rest', rich(b))]), b.struct([flat('o', b.struct([flat('i', I, 'c'), flag('z')], default=True), 'c')]), b.struct([flat('i', wrapty('Box', I), 'c')])]:
            b.reg('flatten rich', t, ['n'], [], 0, RICH, 2)
            b.reg('flatten rich', t, kids=RICH, mk=2, root=True)
    for fl in [[flat('f', B, 'cp')], [flat('f', DB, 'cp')], [flat('f', P, 'p'), flat('g', K, 'c')], [flat('f', P, 'cp'), flat('g', K, 'cp')], [flat('f', B, 'cp'), flat('g', DP, 'cp')]]:
        b.reg('flatten both', b.struct(fl), ['n'], ents, 2, kids, 1 if sub else 2)
    if sub: return
    for w in ['Box', 'Rc', 'Arc']:
        b.reg('flatten wrapped', b.struct([flat('f', wrapty(w, P), 'p'), flat('g', wrapty(w, K), 'c')]), ['n'], ents, 2, kids, 1)
        b.reg('flatten wrapped', b.struct([flat('f', wrapty(w, B), 'cp')]), ['n'], ents, 2, kids, 1)
        b.reg('flatten wrapped', b.struct([flat('f', wrapty(w, DK), 'c')]), kids=kids, mk=2, root=True)
    # names that are no identifiers
    for nm, t in [('', '""'), ('a b', '"a b"'), ('é', 'é'), ('true', '"true"'), ('1', '"1"')]:
        Q = b.struct([prop('x', U8, opt=True, kdl=nm), many('l', X, nm, opt=True)], default=True, base='Q')
        QQ = b.struct([flat('q', Q, 'cp')], default=True, base='Q')
        for fl in [[flat('f', Q, 'cp')], [flat('f', QQ, 'cp')], [flat('f', K, 'c'), flat('g', Q, 'cp')]]:
            b.reg('flatten odd names', b.struct(fl), ['n'], [t + '=1', t + '=(u8)2', 'q=1'], 2, [t + ' 1', t, 'q'], 2)
    b.reg('flatten with arguments', b.struct([arg('a', U8), flat('f', DB, 'cp'), args('r', U8)]), ['n'], ['1', '"z"', 'pd=4', 'pe=5', 'q=1'], 3, ['kf', 'kc 1', 'q'], 1)

# ---------------------------------------------------------------- enums

def c18(b, sub=False):
    X = b.struct([arg('x', U8)], base='X')
    Y = b.struct([prop('p', U8, opt=True), flag('k')], base='Y')
    In = b.enum([('FooBar', 'foo-bar', 'unit'), ('Zed', 'zed', ('tuple', [arg('a', U8)]))])
    V = {
        'unit': ('FooBar', 'foo-bar', 'unit'), 'unit2': ('Unit', 'unit', 'unit'), 'unit3': ('X2', 'x2', 'unit'),
        'nested': ('Nest', 'nest', ('nested', X)), 'nested2': ('NestTwo', 'nest-two', ('nested', Y)), 'box': ('Boxed', 'boxed', ('nested', wrapty('Box', X))),
        'opt': ('OptNest', 'opt-nest', ('optnested', X)), 'optY': ('OptY', 'opt-y', ('optnested', Y)),
        'arg': ('Arg', 'arg', ('tuple', [arg('a', U8)])), 'argprop': ('ArgProp', 'arg-prop', ('tuple', [arg('a', U8), prop('p', U8, kdl='p', opt=True)])),
        'args': ('Args', 'args', ('tuple', [args('a', U8)])), 'props': ('Props', 'props', ('tuple', [props('p', U8)])),
        'kids': ('Kids', 'kids', ('tuple', [many('k', X)])), 'kidsn': ('KidsN', 'kids-n', ('tuple', [many('k', X, 'k')])),
        'mix': ('Mix', 'mix', ('tuple', [arg('a', U8, dflt=('7', '7')), props('p', U8), many('k', X)])),
        'skip': ('SkipMe', 'skip-me', 'skip'), 'skipu': ('SkipU', 'skip-u', 'skipunit'), 'skipt': ('SkipT', 'skip-t', 'skiptuple'), 'skipf': ('SkipF', 'skip-f', 'skipfield'), 'enum': ('Nope', 'nope', ('nested', In)),
        'rich': ('Rich', 'rich', ('nested', rich(b))), 'optrich': ('OptRich', 'opt-rich', ('optnested', rich(b))), 'tuprich': ('TupRich', 'tup-rich', ('tuple', [tname('t', opt=True), args('a', sopt(U8)), many('k', rich(b))])),
        'special': ('Spec', 'spec', ('tuple', [nname('n'), tname('t', opt=True), arg('a', U8, opt=True)])),
    }
    ents, kids = ['1', '"z"', 'p=2', 'q=3'], ['k', 'k 1', 'j 2']
    extra = ['FooBar', 'foo_bar', 'foobar', 'unknown', '(t)unit', '(t)arg 1']
    def heads(ks): return sorted({V[k][1] for k in ks}) + ['(t)' + V[k][1] for k in ks if not str(V[k][2]).startswith('skip')] + ['zz', V[ks[0]][0], V[ks[0]][1].replace('-', '_')]
    ks = list(V)
    for k in ks:
        b.reg('enum one', b.enum([V[k]]), list(dict.fromkeys(heads([k]))), ents, 2, kids, 1)
    pairs = list(itertools.combinations(ks, 2))
    for p in pairs:
        if sub and (ks.index(p[0]) + ks.index(p[1])) % 6: continue
        b.reg('enum two', b.enum([V[x] for x in p]), list(dict.fromkeys(heads(p))), ents, 1, kids, 1)
    allv = b.enum([V[k] for k in ks])
    b.reg('enum all', allv, list(dict.fromkeys(heads(ks) + extra)), ents, 2, kids, 1 if sub else 2)
    if sub: return
    for n in VARIANTS:
        ks2 = spellings(n)
        for v in ['unit', ('nested', X), ('optnested', X), ('tuple', [arg('a', U8)])]:
            b.reg('variant names', b.enum([(n, kebab(n), v), ('Other', 'other', 'unit')]), ks2 + ['other'], ['1'], 1)
    # the enum in a list, in a document, in a catch-all, wrapped
    small = ['foo-bar', 'foo-bar 1', 'nest 1', 'nest', 'arg 3', 'opt-nest', 'zz', 'skip-me', 'unit']
    b.reg('enum list', allv, kids=small, mk=3)
    b.reg('enum list', b.struct([many('all', allv)]), kids=small, mk=3, root=True)
    b.reg('enum list', b.struct([many('all', wrapty('Box', allv))]), ['n'], [], 0, small, 2)
    b.reg('enum list', b.struct([many('un', allv, 'unit'), child('arg', allv, opt=True), many('all', allv)]), kids=small, mk=3, root=True)
    b.reg('enum nested', b.newtype(allv), ['foo-bar', 'arg', 'zz', 'nest'], ents, 2)
    b.reg('enum newtype', b.newtype(X), ['n', '(t)n'], ents, 2, kids, 1)
    b.reg('enum newtype', b.newtype(X, True), ['n', '(t)n'], ents, 2, kids, 1)
    b.reg('enum newtype', b.newtype(b.newtype(Y, True)), ['n', '(t)n'], ents, 2, kids, 1)

# ---------------------------------------------------------------- scalars

INTS = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize']
def lits(sub=False):
    out = ['null', 'true', 'false', '""', '"a"', '"ab c"', '"5"', '"YQ=="', '"YQ"', 'r"a\\b"', '"\\u{e9}"', '"\\n"', '1.0', '-0.5', '1e3', '1e-3', '1.5e400', '0', '1', '-1', '+1', '1_000', '"a-b"', '"A"',
           '"red"', '"Red"', '"infra-red"', '"InfraRed"', '"infra_red"', '"70000"', '"a\\u{0}"', '"\\u{0}a"', '" a "', '"\\u{feff}"', '"\u00e9\U0001f600"', '"\\r\\n"', '"/a/../b//c/."', '"%s"' % ('w' * 400), '"-1"', '" 5"', '12345678901234567890123456789', '0x_1' if False else '0x1f', '-0x1f', '+0b101', '-0o17', '0xff', '0x100', '0b1_0', '3.4028236e38', '16777217.0', '0.1']
    for bits in (8, 16, 32, 64):
        for v in (2 ** bits - 1, 2 ** bits, 2 ** (bits - 1) - 1, 2 ** (bits - 1), -2 ** (bits - 1), -2 ** (bits - 1) - 1):
            out.append(str(v))
            if not sub: out.append(('-' if v < 0 else '') + '0x%x' % abs(v))
    return out
ANN = ['', '(u8)', '(i8)', '(u16)', '(i16)', '(u32)', '(i32)', '(u64)', '(i64)', '(usize)', '(isize)', '(f32)', '(f64)', '(base64)', '(string)', '(custom)', '("u8")']

def c19(b, sub=False):
    CE = SC('Color', '(enum (red Red) (infra-red InfraRed) (a A) (ab AB))')
    b.defs.append('#[derive(DecodeScalar, Debug, Clone)]\nenum Color { Red, InfraRed, A, AB }')
    C2 = SC('Color2', '(enum (infra-red InfraRed) (5 NoMatch))'.replace(' (5 NoMatch)', ''))
    b.defs.append('#[derive(DecodeScalar, Debug, Clone)]\nenum Color2 { InfraRed }')
    types = [(SC(t, t), 'n') for t in INTS] + [(F32, 'n'), (F64, 'n'), (STR, 'n'), (BOOL, 'n'), (SC('std::path::PathBuf', 'str'), 'n'), (SC('Arc<str>', 'str'), 'n'), (SC('Arc<std::path::Path>', 'str'), 'n'),
             (CE, 'n'), (C2, 'n'), (U16S, 'str:u16'), (LOWS, 'str:low'), (SC('String', 'u8'), 'str:string'), (BYTES, 'bytes')]
    ann = ANN if not sub else ['', '(u8)', '(f64)', '(base64)', '(custom)']
    toks = [a + l for a in ann for l in lits(sub)]
    for sc, mode in types:
        b.reg('scalar argument', b.struct([arg('a', sc, mode)]), ['n'], toks, 1)
        b.reg('scalar argument optional', b.struct([arg('a', sc, mode, opt=True)]), ['n'], toks, 1)
        if sub: continue
        b.reg('scalar property', b.struct([prop('p', sc, mode)]), ['n'], ['p=' + t for t in toks], 1)
        b.reg('scalar property optional', b.struct([prop('p', sc, mode, opt=True)]), ['n'], ['p=' + t for t in toks], 1)
        b.reg('scalar arguments', b.struct([args('p', sc, mode)]), ['n'], toks, 1)
        b.reg('scalar properties', b.struct([props('p', sc, mode)]), ['n'], ['q=' + t for t in toks], 1)
        b.reg('scalar unwrapped', b.struct([childu('p', arg('p', sc, mode))]), ['n'], [], 0, ['p ' + t for t in toks], 1)
        # several values, kept apart
        few = ['1', '"a"', '"5"', 'true', '1.5', 'null', '(base64)"YQ=="', '-3', '"red"']
        b.reg('scalar several', b.struct([args('p', sc, mode)]), ['n'], few, 3)
        if mode == 'n':
            b.reg('scalar several', b.struct([args('p', sopt(sc), mode)]), ['n'], few, 3)
    if sub: return
    for i in range(0, len(VARIANTS), 4):
        for vs in ([VARIANTS[i:i + 4]] if i else [VARIANTS[:4], VARIANTS]):
            nm = b.new('Se')
            b.defs.append('#[derive(DecodeScalar, Debug, Clone)]\nenum %s { %s }' % (nm, ', '.join(vs)))
            sc = SC(nm, '(enum %s)' % ' '.join('(%s %s)' % (kebab(v), v) for v in vs))
            toks = list(dict.fromkeys([kstr(x) for v in vs for x in spellings(v)])) + ['%s' % kstr(kebab(vs[0]) + x) for x in (' ', '\0', '\u00a0')] + ['"%s\\n"' % kebab(vs[0]), '""', 'null', '1', 'true']
            b.reg('scalar enum names', b.struct([arg('a', sc)]), ['n'], toks, 1)
            b.reg('scalar enum names', b.struct([prop('p', sc, opt=True)]), ['n'], ['p=' + t for t in toks], 1)
    b64 = ['(base64)"%s"' % ''.join(t) for n in range(0, 6) for t in itertools.product('AQ/=-', repeat=n)]
    b64 += ['(base64)"%s"' % s for s in ['SGVsbG8gd29ybGQh', 'SGVsbG8=', 'SGVsbG8', 'SGVs bG8=', 'AAAA\\n', '////', '++++', '__--', 'YWI=', 'YWJj', 'YR==', 'YWJ=']]
    b.reg('base64', b.struct([arg('a', BYTES, 'bytes')]), ['n'], b64, 1)
    b.reg('base64', b.struct([prop('a', BYTES, 'bytes', opt=True)]), ['n'], ['a=' + t for t in b64], 1)
    # one of every width at once: neighbours do not leak into each other
    b.reg('widths together', b.struct([arg('a', SC(t, t), opt=True) if False else arg('a%d' % i, SC(t, t)) for i, t in enumerate(['u8', 'i16', 'u64'])]), ['n'], ['1', '-1', '300', '-32769', '18446744073709551615', '(u8)1', '(i16)2', '(u64)3'], 3)

# ---------------------------------------------------------------- errors

def c20(b):
    b.alts = ('by_node', 'inside')
    X = b.struct([arg('x', U8)], base='X')
    full = b.struct([arg('a', U8), prop('p', U8, opt=True), flag('f'), childu('w', arg('w', STR), opt=True), many('xs', X, 'x')])
    kids = ['n 1', 'n 2 p=3 { f; w "s"; x 1; x 2 }', 'n "bad"', 'n', 'n 1 2', 'n 1 p="z"', 'n 1 q=1', 'n 1 { f 1 }', 'n 1 { w 1 }', 'n 1 { x 300; x "z" }', '(t)n 1', 'n 1 { q }', 'n { }', 'n 1 { }', 'n "z" { f }']
    b.reg('list of nodes', full, kids=kids, mk=3)
    b.reg('list of nodes', wrapty('Box', full), kids=kids, mk=2)
    E = b.enum([('N', 'n', ('nested', full)), ('U', 'u', 'unit'), ('T', 't', ('tuple', [arg('a', U8), props('p', U8)]))])
    b.reg('list of enums', E, kids=kids[:6] + ['u', 'u 1', 't 1 p=2', 't 1 p="z"', 't', 'zz'], mk=3)
    b.reg('list of new types', b.newtype(full), kids=kids, mk=2)
    # every scalar type turns its failure into an error of the whole parse
    fields = [arg('a', SC(t, t)) for t in INTS] + [arg('a', F32), arg('a', F64), arg('a', STR), arg('a', BOOL), arg('a', SC('std::path::PathBuf', 'str')), arg('a', SC('Arc<str>', 'str')),
              arg('a', SC('Arc<std::path::Path>', 'str')), arg('a', U16S, 'str:u16'), arg('a', BYTES, 'bytes'), arg('a', U16S, 'str:u16', opt=True), arg('a', BYTES, 'bytes', opt=True), arg('a', BYTES, 'bytes', dflt=('', '[]'))]
    vals = ['n 1', 'n "7"', 'n true', 'n 1.5', 'n null', 'n (custom)1', 'n 99999999999999999999', 'n (base64)"!"', 'n 1 2']
    for f in fields:
        b.reg('scalar faults', b.struct([f]), kids=vals, mk=2)
        g = F('a', f.attr.replace('argument', 'property'), f.rust, f.kind.replace('arg ', 'prop a '), False, None)
        g.opt, g.dflt = f.opt, f.dflt
        b.reg('scalar faults', b.struct([g]), kids=[v.replace('n ', 'n a=', 1) for v in vals], mk=2)
    # documents as structs: several faults in different fields
    t = b.struct([child('one', X), flag('f'), many('xs', X, 'x'), childu('w', arg('w', STR), opt=True), many('rest', E)])
    dk = ['one 1', 'one "z"', 'f', 'f 1', 'x 1', 'x "z"', 'w "s"', 'w 1', 'u', 'u 1', 'zz']
    b.reg('document', t, kids=dk, mk=3, root=True)
    t = b.struct([child('one', X), flag('f'), many('xs', X, 'x'), childu('w', arg('w', STR), opt=True)])
    b.reg('document', t, kids=dk, mk=3, root=True)
    b.reg('list with children', b.struct([many('xs', X, 'x'), flag('f')]), kids=['n { x 1 }', 'n { x "z" }', 'n { f; f }', 'n { q; x 1 }', 'n { x 300; x }', 'n'], mk=4)
    fl = b.struct([prop('pa', U8, opt=True), flag('ka'), childu('kb', arg('kb', U8), opt=True)], default=True)
    recursive(b, True)
    b.reg('list with flatten', b.struct([flat('f', fl, 'cp')]), kids=['n pa=1 { ka; kb 1 }', 'n pa="z"', 'n { ka 1 }', 'n { kb "z" }', 'n { ka; ka }', 'n q=1', 'n { q }', 'n { kb 1; kb 2 }'], mk=3)

# ---------------------------------------------------------------- wrappers

def c22(b):
    X = b.struct([arg('x', U8), prop('p', STR, opt=True), flag('f')], base='X')
    few = ['1', '300', '"a"', '"7"', 'true', '1.5', 'null', '(u8)1', '(i8)1', '(custom)"a"', '(base64)"YQ=="', '"a\\u{0}"', '" \u00e9 "', '"bc"', '(u8)null', '(i8)null', '(custom)null']
    scs = [U8, SC('i64', 'i64'), F64, F32, STR, BOOL, SC('std::path::PathBuf', 'str'), SC('Arc<str>', 'str'), SC('Arc<std::path::Path>', 'str')]
    b.defs.append('#[derive(DecodeScalar, Debug, Clone)]\nenum Color { A, BC }')
    scs.append(SC('Color', '(enum (a A) (bc BC))'.replace('(bc BC)', '(bc BC)').replace('bc', 'bc')))
    scs[-1] = SC('Color', '(enum (a A) (bc BC))')
    def w(name, s):
        if name == 'Option': return sopt(s)
        if name == 'Spanned': return SC('Spanned<%s, Span>' % s.rust, '(spanned %s)' % s.sx)
        return SC('%s<%s>' % (name, s.rust), '(wrap %s)' % s.sx)
    chains = [['Box'], ['Rc'], ['Arc'], ['Spanned'], ['Option'], ['Box', 'Option'], ['Option', 'Box'], ['Option', 'Spanned'], ['Spanned', 'Option'], ['Arc', 'Spanned'], ['Box', 'Box'], ['Option', 'Rc'],
        ['Via'], ['Via', 'Spanned'], ['Via', 'Box'], ['Via', 'Rc', 'Arc'], ['Option', 'Via', 'Arc'], ['Via', 'Option'], ['Via', 'Option', 'Spanned'], ['Box', 'Via'], ['Spanned', 'Via']]
    for s in scs:
        bare_a, bare_p, bare_v = b.struct([arg('a', s)]), b.struct([prop('a', s)]), b.struct([args('a', s)])
        bare_oa, bare_op = b.struct([arg('a', s, opt=True)]), b.struct([prop('a', s, opt=True)])
        bare_ov = b.struct([args('a', sopt(s))])
        for ch in chains:
            x = s
            for c in reversed(ch): x = w(c, x)
            st = 'Span' if 'Spanned' in ch else None
            pv = ['a=' + f for f in few]
            o = 'Option' in ch
            if ch[0] == 'Option':
                inner = s
                for c in reversed(ch[1:]): inner = w(c, inner)
                b.reg('wrapped argument', b.struct([arg('a', inner, opt=True)], span_type=st), ['n'], few, 2, bare=bare_oa)
                b.reg('wrapped property', b.struct([prop('a', inner, opt=True)], span_type=st), ['n'], pv, 2, bare=bare_op)
            else:
                b.reg('wrapped argument', b.struct([arg('a', x)], span_type=st), ['n'], few, 2, bare=None if o else bare_a)
                b.reg('wrapped property', b.struct([prop('a', x)], span_type=st), ['n'], pv, 2, bare=None if o else bare_p)
            b.reg('wrapped arguments', b.struct([args('a', x)], span_type=st), ['n'], few, 2, bare=bare_ov if o else bare_v)
    # the literal and value of the syntax tree, wrapped
    LIT, VAL = SC('knuffel::ast::Literal', 'lit'), SC('knuffel::ast::Value<Span>', 'val')
    for s in [LIT, VAL]:
        for ch in [[]] + [c for c in chains if 'Via' not in c]:
            x = s
            for c in reversed(ch): x = w(c, x)
            if ch and ch[0] == 'Option':
                inner = s
                for c in reversed(ch[1:]): inner = w(c, inner)
                b.reg('wrapped tree value', b.struct([arg('a', inner, opt=True)], span_type='Span', show=True), ['n'], few, 2)
            else:
                b.reg('wrapped tree value', b.struct([arg('a', x)], span_type='Span', show=True), ['n'], few, 2)
            b.reg('wrapped tree value', b.struct([args('a', x)], span_type='Span', show=True), ['n'], few, 2)
            b.reg('wrapped tree value', b.struct([prop('a', inner, opt=True) if ch and ch[0] == 'Option' else prop('a', x)], span_type='Span', show=True), ['n'], ['a=' + f for f in few], 2)
    # nodes, children, documents
    ents, xk = ['1', '"z"', 'p="s"', 'p=1', 'q=1'], ['f', 'g']
    E = b.enum([('X', 'x', ('nested', X)), ('U', 'u', 'unit')])
    kk = ['x 1', 'x', 'x "z"', 'x 1 p="s" { f }', 'x 1 { g }', 'u', '(t)x 1', 'y 1']
    for t in [X, E]:
        for ch in [['Box'], ['Rc'], ['Arc'], ['Box', 'Rc'], ['Arc', 'Box']]:
            wt = t
            for c in reversed(ch): wt = wrapty(c, wt)
            b.reg('wrapped node', wt, ['x', 'u', '(t)x'], ents, 2, xk, 1, bare=t)
            bare = b.struct([child('x', t), many('rest', t)])
            b.reg('wrapped child', b.struct([child('x', wt), many('rest', wt)]), ['n'], [], 0, kk, 2, bare=bare)
            bare = b.struct([child('x', t, opt=True), many('us', t, 'u')])
            b.reg('wrapped child', b.struct([child('x', wt, opt=True), many('us', wt, 'u')]), ['n'], [], 0, kk, 2, bare=bare)
            doc = b.struct([child('x', t), flag('g'), many('us', t, 'u')])
            wd = doc
            for c in reversed(ch): wd = wrapty(c, wd)
            b.reg('wrapped document', wd, kids=kk, mk=2, root=True, bare=doc)
    P = b.struct([prop('pa', U8, opt=True), prop('pb', STR, opt=True), flag('ka'), childu('kb', arg('kb', U8), opt=True), many('kc', X, 'kc', opt=True)], default=True, base='P')
    fe, fk = ['pa=1', 'pa="z"', 'pb="s"', 'pb=1', 'q=1'], ['ka', 'ka 1', 'kb 1', 'kb "z"', 'kc 1', 'kc', 'q']
    bare = b.struct([flat('f', P, 'cp'), arg('a', U8, opt=True)])
    for ch in [['Box'], ['Rc'], ['Arc'], ['Box', 'Arc']]:
        wt = P
        for c in reversed(ch): wt = wrapty(c, wt)
        b.reg('wrapped flatten', b.struct([flat('f', wt, 'cp'), arg('a', U8, opt=True)]), ['n', 'n 1'], fe, 2, fk, 2, bare=bare)

# ---------------------------------------------------------------- special fields

def c27(b, sub=False):
    heads = ['n', '(t)n', '(Type)n', '"n n"', '(t)Node', '("a b")n', '("7")"7"', 'r"raw"']
    ents, kids = ['1', 'p=2', '"z"'], ['k', '(t)k 1', 'k /*c*/ ;']
    names = [None, 'string', 'low', 'u16']
    types = [None, ('string', False), ('string', True), ('low', False), ('low', True), ('u16', True)]
    spans = [None, 'Span', 'Off']
    C = b.struct([tname('t', opt=True), arg('x', U8, opt=True)], base='C')
    CS = b.struct([span('s'), nname('nn'), arg('x', U8, opt=True)], span_type='Span', base='C')
    for n, t, s in itertools.product(names, types, spans):
        if sub and (n == 'u16' or s == 'Off'): continue
        fs = []
        if s: fs.append(span('s', s))
        if n: fs.append(nname('name', n))
        if t: fs.append(tname('ty', t[0], t[1]))
        fs.append(arg('a', U8, opt=True))
        st = 'Span' if s else None
        b.reg('special', b.struct(fs + [many('k', CS if s else C)], span_type=st), heads, ents, 1, kids, 1)
        if sub: continue
        b.reg('special tuple', b.struct(fs[:-1] + [arg('a', U8, opt=True)], 'tuple', span_type=st), heads, ents, 1)
        if n or t or s:
            b.reg('special variant', b.enum([('N', 'n', ('tuple', fs)), ('Node', 'node', ('tuple', fs))], span_type=st), heads, ents, 1)
            b.reg('special unwrapped', b.struct([child('k', CS if s else C), arg('a', U8, opt=True)] + fs[:-1], span_type=st), ['n', '(t)n'], ents, 1, kids, 1)
    if sub: return
    # positions of the span of a node: every layout around the node
    S = b.struct([span('s'), nname('name'), tname('t', opt=True), args('a', U8), many('k', CS)], span_type='Span')
    lay = ['n', 'n 1', '(t)n 1 2', 'n ;', 'n /*c*/ ;', 'n 1 // c', 'n 1 /-2 ', 'n {}', 'n { k }', '/-n 1', 'n \\\n 1', '(t)"\u00e9\u00e9" 1', 'n 1 { k 1; k 2 } ;', '   n', 'n {\n\tk 1\n}', '\u00e9 1']
    b.reg('spans', S, kids=lay, mk=3)
    L = b.struct([span('s', 'Off'), nname('name'), args('a', U8)], span_type='LineSpan')
    b.reg('spans of lines', L, kids=[x for x in lay if 'k' not in x and '(t)' not in x], mk=3, line=True)
    Y = b.struct([span('s'), nname('name'), args('a', STR)], span_type='LineSpan')
    b.reg('spans of lines', Y, kids=['n', 'm ;', '\u00e9 "\u4e2d\u00e9"', '  "x y" "\u4e2d"', 'n "a\nb"', '\t\u4e2d "1"'], mk=3, line=True)
    T = b.struct([span('s', 'Off'), nname('name')], 'tuple', span_type='LineSpan')
    b.reg('spans of lines', T, kids=['n', 'm ;', '\u00e9', '  "x y"', '(t)n', 'n 1'], mk=3, line=True)
    # every order of fields of one type
    for perm in itertools.permutations([nname('name'), tname('ty'), arg('a', STR), prop('p', STR, kdl='p')]):
        for shape in ('named', 'tuple'):
            b.reg('special order', b.struct(list(perm), shape), ['(t)n', 'n'], ['"x"', 'p="y"', '"z"'], 3)
        b.reg('special order', b.enum([('N', 'n', ('tuple', list(perm)))]), ['(t)n', 'n'], ['"x"', 'p="y"', '"z"'], 3)
    # types are checked wherever no field takes them
    X = b.struct([arg('x', U8, opt=True)], base='X')
    tk = ['x', '(t)x', '(t)x 1', 'f', '(t)f', 'u 1', '(t)u 1', '(t)y', 'y', '("")x', '("")f']
    t = b.struct([child('x', X, opt=True), flag('f'), childu('u', arg('u', U8), opt=True), many('rest', X)])
    b.reg('types refused', t, ['n', '(t)n'], [], 0, tk, 2)
    b.reg('types refused', t, kids=tk, mk=2, root=True)
    P = b.struct([child('x', X, opt=True), flag('f'), childu('u', arg('u', U8), opt=True)], default=True)
    b.reg('types refused', b.struct([flat('p', P, 'c')]), ['n', '(t)n'], [], 0, tk, 2)
    b.reg('types refused', b.enum([('X', 'x', ('nested', X)), ('F', 'f', 'unit'), ('U', 'u', ('tuple', [arg('a', U8)])), ('Y', 'y', ('optnested', X))]), kids=tk, mk=2)
    b.reg('types refused', b.struct([], 'unit'), ['n', '(t)n', '("")n'], ents, 1, ['k'], 1)
    b.reg('types refused', b.struct([], 'named'), ['n', '(t)n'], ents, 1, ['k'], 1)

# ---------------------------------------------------------------- combinations of every kind of field

def c28(b):
    X = b.struct([arg('x', U8, dflt=('5', '5'))], base='X', default=True)
    PP = b.struct([prop('fp', U8, opt=True)], default=True, base='P')
    PC = b.struct([flag('fc'), childu('fd', arg('fd', U8), opt=True)], default=True, base='P')
    PB = b.struct([prop('fp', U8, opt=True), flag('fc')], default=True, base='P')
    Any = b.struct([nname('name'), args('x', U8), props('p', U8)], base='A')
    K = {
        'arg': lambda i: arg('a%d' % i, U8), 'argO': lambda i: arg('a%d' % i, U8, opt=True), 'argD': lambda i: arg('a%d' % i, STR, dflt=('"dd".into()', '"dd"')), 'args': lambda i: args('a%d' % i, U8),
        'prop': lambda i: prop('p%d' % i, U8, kdl='p%d' % i), 'propO': lambda i: prop('p%d' % i, U8, opt=True, kdl='p%d' % i), 'props': lambda i: props('p%d' % i, U8),
        'child': lambda i: child('c%d' % i, X), 'childO': lambda i: child('c%d' % i, X, opt=True), 'flag': lambda i: flag('c%d' % i), 'unw': lambda i: childu('c%d' % i, arg('c%d' % i, U8), opt=True),
        'named': lambda i: many('c%d' % i, X, 'c%d' % i), 'many': lambda i: many('k%d' % i, Any),
        'flatP': lambda i: flat('g%d' % i, PP, 'p'), 'flatC': lambda i: flat('g%d' % i, PC, 'c'), 'flatB': lambda i: flat('g%d' % i, PB, 'cp'),
        'nname': lambda i: nname('n%d' % i), 'tname': lambda i: tname('t%d' % i, opt=True), 'skip': lambda i: skip('s%d' % i, 'Option<u8>', 'None'),
    }
    after = {'args': ('arg', 'argO', 'argD', 'args'), 'props': ('prop', 'propO', 'props', 'flatP', 'flatB'), 'many': ('child', 'childO', 'flag', 'unw', 'named', 'many', 'flatC', 'flatB')}
    def ok(seq):
        if any(b_ in after.get(a, ()) for a, b_ in itertools.combinations(seq, 2)): return False
        # two takers of the same name
        if len([k for k in seq if k in ('flatP', 'flatB')]) > 1 or len([k for k in seq if k in ('flatC', 'flatB')]) > 1: return False
        return all(seq.count(k) <= 1 for k in ('nname', 'tname', 'skip'))
    small = ['arg', 'argO', 'args', 'propO', 'props', 'childO', 'flag', 'many', 'flatB', 'tname']
    seqs = [t for n in range(0, 3) for t in itertools.product(K, repeat=n)] + list(itertools.product(small, repeat=3))
    CH = ('child', 'childO', 'flag', 'unw', 'named', 'many', 'flatC', 'skip')
    for seq in seqs:
        if not ok(seq): continue
        t = b.struct([K[k](i) for i, k in enumerate(seq)])
        ents, kids = ['1', 'p0=2'], []
        if 'argD' in seq: ents.append('"s"')
        if len(seq) > 1: ents.append('p1=3')
        if any(k.startswith('flat') for k in seq): ents.append('fp=4')
        if any(k in CH[:-1] + ('flatB',) for k in seq):
            kids = ['c0 6', 'c1'] + (['fc', 'fd 7'] if any(k.startswith('flat') for k in seq) else []) + ['(t)z 8']
        b.reg('combination ' + ' '.join(sorted(seq)[:1]), t, ['n', '(t)n'] if 'tname' in seq else ['n'], ents, 2, kids, 2 if kids else 0)
        if seq and all(k in CH for k in seq):
            b.reg('combination root', t, kids=kids or ['c0', 'z'], mk=3, root=True)

BINS = {}
def add(id, fn, level='Value'):
    b = Bin(id, level); fn(b); BINS[id] = b

def c21(b):
    for f in (c12, c13, c14, c16, c17, c18, c19, c27): f(b, True)
    # sets of optional and default forms are small enough to take whole
    c15(b)

def c29(b):
    b.alts = True
    for f in (c12, c13, c14, c16, c17, c18, c19, c27): f(b, True)

if __name__ == '__main__':
    want = sys.argv[1:]
    table = {'C12': (c12,), 'C13': (c13,), 'C14': (c14,), 'C15': (c15,), 'C16': (c16,), 'C17': (c17,), 'C18': (c18,), 'C19': (c19,),
             'C20': (c20, 'PerNode'), 'C21': (c21, 'Diag'), 'C22': (c22,), 'C27': (c27, 'Place'), 'C28': (c28,), 'C29': (c29,)}
    for id in want or table:
        b = Bin(id, table[id][1] if len(table[id]) > 1 else 'Value')
        table[id][0](b)
        b.write()
        print(id, len(b.regs), 'schemas')
