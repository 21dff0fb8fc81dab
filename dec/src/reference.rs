//! The interpreter.  It computes the value (as Debug text) and ALL faults of a
//! document; the implementation may report any non-empty part of them.
use crate::model::*;
use mc::refp::{Lit, Node, Num, Sp, Val};

#[derive(Debug, Clone)]
pub struct Fault {
    /// acceptable places of the label; empty: no label (something is missing at the top level)
    pub at: Vec<Sp>,
    /// what the message has to mention
    pub words: Vec<String>,
}

#[derive(Default)]
pub struct R { pub faults: Vec<Fault>, pub vague: bool, pub states: Vec<&'static str> }

impl R {
    fn fault(&mut self, at: &[Sp], words: &[&str]) -> Option<String> {
        self.faults.push(Fault { at: at.to_vec(), words: words.iter().map(|s| s.to_string()).collect() });
        None
    }
}

fn kind_of(l: &Lit) -> &'static str {
    match l { Lit::Null => "null", Lit::Bool(_) => "boolean", Lit::Int(_) => "integer", Lit::Dec(..) => "decimal", Lit::Str(_) => "string" }
}

fn no_type(v: &Val, r: &mut R) -> bool {
    if let Some((t, sp)) = &v.ty { r.fault(&[*sp], &[t]); return false }
    true
}

pub fn scalar(s: &Sc, v: &Val, r: &mut R) -> Option<String> {
    let kind = |r: &mut R, want: &str| r.fault(&[v.span], &[&format!("expected {}", want), &format!("found {}", kind_of(&v.lit))]);
    match s {
        Sc::Opt(i) if v.lit == Lit::Null => {
            // the annotation still has to fit
            type_ok(i, v, r).then(|| "None".to_string())
        }
        Sc::Opt(i) => scalar(i, v, r).map(|x| format!("Some({})", x)),
        Sc::Wrap(i) => scalar(i, v, r),
        Sc::Spanned(i) => scalar(i, v, r).map(|x| format!("Spanned {{ span: Span({}, {}), value: {} }}", v.span.0, v.span.1, x)),
        Sc::Lit => Some(kind_of(&v.lit).to_string()),
        Sc::Val => Some(format!("{} {:?}", kind_of(&v.lit), v.ty.as_ref().map(|t| &t.0))),
        _ => {
            let t = type_ok(s, v, r);
            let x = match (s, &v.lit) {
                (Sc::Int(_, lo, hi), Lit::Int(n)) => match n {
                    Num::I(n) if lo <= n && n <= hi => Some(n.to_string()),
                    _ => r.fault(&[v.span], &[]),
                },
                (Sc::Int(..), _) => kind(r, "integer"),
                (Sc::F64, Lit::Dec(b, _)) => Some(format!("{:?}", f64::from_bits(*b))),
                (Sc::F32, Lit::Dec(_, b)) => Some(format!("{:?}", f32::from_bits(*b))),
                (Sc::F32 | Sc::F64, _) => kind(r, "decimal"),
                (Sc::Str, Lit::Str(s)) => Some(format!("{:?}", s)),
                (Sc::Str, _) => kind(r, "string"),
                (Sc::Bool, Lit::Bool(b)) => Some(b.to_string()),
                (Sc::Bool, _) => kind(r, "boolean"),
                (Sc::Enum(vs), Lit::Str(s)) => match vs.iter().find(|(k, _)| k == s) {
                    Some((_, n)) => Some(n.clone()),
                    None => r.fault(&[v.span], &["expected"]),
                },
                (Sc::Enum(_), _) => kind(r, "string"),
                _ => unreachable!(),
            };
            if t { x } else { None }
        }
    }
}

fn type_ok(s: &Sc, v: &Val, r: &mut R) -> bool {
    match s {
        Sc::Opt(i) | Sc::Wrap(i) | Sc::Spanned(i) => type_ok(i, v, r),
        Sc::Lit | Sc::Val => true,
        Sc::Int(n, ..) => v.ty.as_ref().map_or(true, |t| &t.0 == n) || no_type(v, r),
        Sc::F32 => v.ty.as_ref().map_or(true, |t| t.0 == "f32") || no_type(v, r),
        Sc::F64 => v.ty.as_ref().map_or(true, |t| t.0 == "f64") || no_type(v, r),
        Sc::Str | Sc::Bool | Sc::Enum(_) => no_type(v, r),
    }
}

pub fn conv(c: &Conv, s: &str) -> Option<String> {
    match c {
        Conv::String => Some(format!("{:?}", s)),
        Conv::U16 => s.parse::<u16>().ok().map(|n| n.to_string()),
        Conv::Low => (!s.is_empty() && s.chars().all(|c| c.is_ascii_lowercase() || c == '-')).then(|| format!("Low({:?})", s)),
    }
}

fn b64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 { return None }
    let mut out = Vec::new();
    let n = b.len() / 4;
    for (k, q) in b.chunks(4).enumerate() {
        let pad = q.iter().rev().take_while(|c| **c == b'=').count();
        if pad > 2 || (pad > 0 && k + 1 != n) { return None }
        let mut w = 0u32;
        for c in &q[..4 - pad] {
            let d = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63, _ => return None };
            w = w << 6 | d as u32;
        }
        match pad {
            0 => out.extend([(w >> 16) as u8, (w >> 8) as u8, w as u8]),
            1 => { if w & 3 != 0 { return None } out.extend([(w >> 10) as u8, (w >> 2) as u8]) }
            _ => { if w & 15 != 0 { return None } out.push((w >> 4) as u8) }
        }
    }
    Some(out)
}

/// value of a field with mode; `opt`: the field is optional
fn value(m: &Mode, s: &Sc, opt: bool, v: &Val, r: &mut R) -> Option<String> {
    match m {
        Mode::Normal => if opt { scalar(&Sc::Opt(Box::new(s.clone())), v, r) } else { scalar(s, v, r) },
        Mode::Str(c) => {
            let t = no_type(v, r);
            let x = match &v.lit {
                Lit::Null if opt => Some("None".to_string()),
                Lit::Str(s) => match conv(c, s) {
                    Some(x) => Some(if opt { format!("Some({})", x) } else { x }),
                    None => r.fault(&[v.span], &[]),
                },
                l => { let k = kind_of(l); r.fault(&[v.span], &["expected string", &format!("found {}", k)]) }
            };
            if t { x } else { None }
        }
        Mode::Bytes => {
            if v.lit == Lit::Null && opt {
                // an annotation on null is not specified
                if v.ty.as_ref().map_or(false, |t| t.0 != "base64") { r.vague = true }
                return Some("None".into());
            }
            let base = match &v.ty {
                None => false,
                Some((t, _)) if t == "base64" => true,
                Some((t, sp)) => { r.fault(&[*sp], &[t]); false }
            };
            let bad_type = v.ty.is_some() && !base;
            let x = match &v.lit {
                Lit::Str(s) => {
                    let bytes = if base { b64(s) } else { Some(s.as_bytes().to_vec()) };
                    match bytes {
                        Some(b) => Some(if opt { format!("Some({:?})", b) } else { format!("{:?}", b) }),
                        None => r.fault(&[v.span], &[]),
                    }
                }
                l => { let k = kind_of(l); r.fault(&[v.span], &["expected string", &format!("found {}", k)]) }
            };
            if bad_type { None } else { x }
        }
    }
}

fn list(items: Vec<Option<String>>, c: Coll) -> Option<String> {
    let mut v = items.into_iter().collect::<Option<Vec<String>>>()?;
    match c {
        Coll::Vec => Some(format!("[{}]", v.join(", "))),
        // sets are only used with numbers and with values whose text order is their order
        Coll::Set => { v.sort_by_key(|x| (x.parse::<u64>().unwrap_or(0), x.clone())); v.dedup(); Some(format!("{{{}}}", v.join(", "))) }
        Coll::Map => unreachable!(),
    }
}

struct Where { missing: Vec<Sp> }

fn knows_prop(f: &[Field], name: &str) -> bool {
    f.iter().any(|f| match &f.kind { FK::Prop(n, ..) => n == name, FK::Flat(_, true, fs, _) => knows_prop(fs, name), _ => false })
}
fn knows_child(f: &[Field], name: &str) -> bool {
    f.iter().any(|f| match &f.kind {
        FK::Child(n, _) | FK::Flag(n) | FK::Many(Some(n), ..) => n == name,
        FK::Flat(true, _, fs, _) => knows_child(fs, name), _ => false })
}

/// Values of the fields in order; None where a fault was found.
fn fields(fs: &[Field], args: &[Val], props: &[(String, Vec<Sp>, Val)], kids: &[Node], node: Option<&Node>, w: &Where, r: &mut R)
    -> Vec<Option<String>>
{
    let mut out = Vec::new();
    let mut next = 0;
    let has_type = fs.iter().any(|f| matches!(f.kind, FK::TypeName(_)));
    if let (Some(n), false) = (node, has_type) {
        if let Some((_, sp)) = &n.ty { r.fault(&[*sp], &["type name"]); }
    }
    let mut taken_p = vec![false; props.len()];
    let mut taken_c = vec![false; kids.len()];
    let some = |f: &Field, x: Option<String>| if f.opt { x.map(|x| format!("Some({})", x)) } else { x };
    for f in fs {
        let v = match &f.kind {
            FK::Arg(m, s) => {
                let a = args.get(next);
                next += 1;
                match a {
                    Some(v) => { r.states.push("arg"); value(m, s, f.opt, v, r) }
                    None => absent(f, w, &[], r),
                }
            }
            FK::Args(m, s, c) => {
                let rest = args.get(next..).unwrap_or(&[]);
                next = args.len();
                let items = rest.iter().map(|v| value(m, s, false, v, r)).collect();
                list(items, *c)
            }
            FK::Prop(n, m, s) => match props.iter().position(|p| &p.0 == n) {
                Some(i) => { taken_p[i] = true; r.states.push("prop"); value(m, s, f.opt, &props[i].2, r) }
                None => absent(f, w, &[n], r),
            },
            FK::Props(m, s, c, cv) => {
                let mut items = Vec::new();
                for (i, p) in props.iter().enumerate() {
                    if knows_prop(fs, &p.0) { continue }
                    taken_p[i] = true;
                    let k = match conv(cv, &p.0) { Some(k) => Some(k), None => r.fault(&p.1, &[]) };
                    let v = value(m, s, false, &p.2, r);
                    items.push(k.zip(v));
                }
                // properties have no order: only the set of pairs counts, and it is compared sorted
                if *c == Coll::Vec { items.sort() }
                let items: Vec<_> = items.into_iter().map(|x| x.map(|(k, v)| if *c == Coll::Map { format!("{}: {}", k, v) } else { format!("({}, {})", k, v) })).collect();
                if *c == Coll::Vec {
                    list(items, Coll::Vec)
                } else {
                    items.into_iter().collect::<Option<Vec<_>>>().map(|v| format!("{{{}}}", v.join(", ")))
                }
            }
            FK::Child(n, c) => {
                let mut first = None;
                for (i, k) in kids.iter().enumerate().filter(|(_, k)| &k.name.0 == n) {
                    taken_c[i] = true;
                    // an Option passed on to what is inside: what a null there means is not specified
                    if f.opt && f.default.is_some() && matches!(c, Content::Unwrap(u) if !scalar_like(u)) && has_null(k) { r.vague = true }
                    let x = content(c, f, k, r);
                    if first.is_none() { first = Some(x) } else {
                        r.states.push("duplicate");
                        r.fault(&[k.name.1], &["duplicate", n]);
                    }
                }
                match first {
                    // null for an optional unwrapped scalar with a default is none
                    Some(Some(x)) if f.opt && f.default.is_some() && matches!(c, Content::Unwrap(u) if scalar_like(u)) => Some(x),
                    Some(x) => some(f, x),
                    None => absent(f, w, &[n], r),
                }
            }
            FK::Flag(n) => {
                let mut seen = false;
                let mut ok = true;
                for (i, k) in kids.iter().enumerate().filter(|(_, k)| &k.name.0 == n) {
                    taken_c[i] = true;
                    if seen { r.fault(&[k.name.1], &["duplicate", n]); ok = false }
                    ok &= flag(k, r);
                    seen = true;
                }
                if !seen && f.own.is_some() { f.own.clone() } else if ok { Some(seen.to_string()) } else { None }
            }
            FK::Many(Some(n), c, cl) => {
                let mut items = Vec::new();
                for (i, k) in kids.iter().enumerate().filter(|(_, k)| &k.name.0 == n) {
                    taken_c[i] = true;
                    items.push(content(c, f, k, r));
                }
                if items.is_empty() && f.default.is_some() { f.default.clone() }
                else if items.is_empty() && f.opt { Some("None".into()) }
                else { some(f, list(items, *cl)) }
            }
            FK::Many(None, c, cl) => {
                let mut items = Vec::new();
                for (i, k) in kids.iter().enumerate() {
                    if knows_child(fs, &k.name.0) { continue }
                    taken_c[i] = true;
                    items.push(content(c, f, k, r));
                }
                list(items, *cl)
            }
            FK::Flat(c, p, inner, nm) => {
                let mut ps = Vec::new();
                let mut ks = Vec::new();
                if *p { for (i, x) in props.iter().enumerate() { if knows_prop(inner, &x.0) { taken_p[i] = true; ps.push(x.clone()) } } }
                if *c { for (i, x) in kids.iter().enumerate() { if knows_child(inner, &x.name.0) { taken_c[i] = true; ks.push(x.clone()) } } }
                r.states.push("flat");
                let v = fields(inner, &[], &ps, &ks, None, w, r);
                let (n, t) = nm.as_ref().unwrap();
                show(n, *t, inner, v)
            }
            FK::Span(how) => { let n = node.unwrap(); Some(format!("{}({}, {})", how, n.span.0, n.span.1)) }
            FK::NodeName(c) => { let n = node.unwrap(); match conv(c, &n.name.0) { Some(x) => Some(x), None => r.fault(&[n.name.1], &[]) } }
            FK::TypeName(c) => {
                let n = node.unwrap();
                match &n.ty {
                    Some((t, sp)) => match conv(c, t) { Some(x) => some(f, Some(x)), None => r.fault(&[*sp], &[]) },
                    None if f.opt => Some("None".into()),
                    None => r.fault(&w.missing, &["type name"]),
                }
            }
            FK::Skip(d) => Some(d.clone()),
        };
        out.push(v);
    }
    for a in args.iter().skip(next) { r.states.push("extra arg"); r.fault(&[a.span], &["argument"]); }
    for (i, p) in props.iter().enumerate() { if !taken_p[i] { r.states.push("extra prop"); r.fault(&p.1, &[&p.0]); } }
    for (i, k) in kids.iter().enumerate() { if !taken_c[i] { r.states.push("extra child"); r.fault(&[k.span], &[&k.name.0]); } }
    out
}

fn absent(f: &Field, w: &Where, words: &[&str], r: &mut R) -> Option<String> {
    if let Some(d) = &f.own { r.states.push("own default"); return Some(d.clone()) }
    if let Some(d) = &f.default { r.states.push("default"); return Some(d.clone()) }
    if f.opt { r.states.push("none"); return Some("None".into()) }
    r.states.push("missing");
    let nm = [f.name.as_str()];
    r.fault(&w.missing, if words.is_empty() && !f.name.is_empty() { &nm } else { words })
}

/// presence flags: nothing but the name
fn flag(k: &Node, r: &mut R) -> bool {
    let before = r.faults.len();
    if let Some((_, sp)) = &k.ty { r.fault(&[*sp], &["type name"]); }
    for a in &k.args { r.fault(&[a.span], &["argument"]); }
    for (n, (sps, _)) in &k.props { r.fault(sps, &[n]); }
    if let Some((c, _)) = &k.children { for c in c { r.fault(&[c.span], &[&c.name.0]); } }
    r.faults.len() == before
}

fn has_null(k: &Node) -> bool {
    k.args.iter().chain(k.props.values().map(|p| &p.1)).any(|v| v.lit == Lit::Null) || k.children.as_ref().map_or(false, |c| c.0.iter().any(has_null))
}

/// one value, decoded the normal way
fn scalar_like(f: &Field) -> bool { matches!(f.kind, FK::Arg(Mode::Normal, _) | FK::Prop(_, Mode::Normal, _)) }

fn content(c: &Content, outer: &Field, k: &Node, r: &mut R) -> Option<String> {
    match c {
        Content::Node(t) => node(t, k, r),
        Content::Unwrap(f) => {
            r.states.push("unwrap");
            let mut inner = (**f).clone();
            // an optional unwrapped scalar: whether `null` means none is only specified together with a default
            if outer.opt && matches!(outer.kind, FK::Child(..)) {
                match &inner.kind {
                    _ if outer.default.is_some() && scalar_like(&inner) => inner.opt = true,
                    FK::Arg(..) => if k.args.first().map_or(false, |a| a.lit == Lit::Null) { r.vague = true },
                    FK::Prop(n, ..) => if k.props.get(n).map_or(false, |p| p.1.lit == Lit::Null) { r.vague = true },
                    _ => {}
                }
                if inner.opt && inner.default.is_none() {
                    // the value must still be there
                    let gone = match &inner.kind { FK::Arg(..) => k.args.is_empty(), FK::Prop(n, ..) => !k.props.contains_key(n), _ => false };
                    if gone { inner.opt = false }
                }
            }
            one(&[inner], k, r).pop().unwrap()
        }
    }
}

fn one(fs: &[Field], k: &Node, r: &mut R) -> Vec<Option<String>> {
    let props: Vec<_> = k.props.iter().map(|(n, (s, v))| (n.clone(), s.clone(), v.clone())).collect();
    let none = Vec::new();
    let kids = k.children.as_ref().map_or(&none, |c| &c.0);
    fields(fs, &k.args, &props, kids, Some(k), &Where { missing: vec![k.name.1, k.span] }, r)
}

fn show(name: &str, tuple: bool, fs: &[Field], v: Vec<Option<String>>) -> Option<String> {
    let v = v.into_iter().collect::<Option<Vec<String>>>()?;
    Some(if v.is_empty() { name.to_string() }
        else if tuple { format!("{}({})", name, v.join(", ")) }
        else { format!("{} {{ {} }}", name, fs.iter().zip(v).map(|(f, v)| format!("{}: {}", f.name, v)).collect::<Vec<_>>().join(", ")) })
}

pub fn node(t: &Ty, k: &Node, r: &mut R) -> Option<String> {
    match t {
        Ty::Struct { name, tuple, fields } => { let v = one(fields, k, r); show(name, *tuple, fields, v) }
        Ty::Wrap(t) => node(t, k, r),
        Ty::Ref(n) => node(defined(n), k, r),
        Ty::New { name, opt, inner } => {
            if *opt {
                if k.children.as_ref().map_or(false, |c| c.0.is_empty()) { r.vague = true }
                if bare(k) { return Some(format!("{}(None)", name)) }
                node(inner, k, r).map(|v| format!("{}(Some({}))", name, v))
            } else { node(inner, k, r).map(|v| format!("{}({})", name, v)) }
        }
        Ty::Enum { variants } => match variants.iter().find(|v| v.0 == k.name.0 && !matches!(v.2, Var::Skip)) {
            None => { r.states.push("no variant"); r.fault(&[k.name.1], &["expected"]) }
            Some((_, name, var)) => { r.states.push("variant"); match var {
                Var::Unit => if flag(k, r) { Some(name.clone()) } else { None },
                Var::Nested(false, t) => node(t, k, r).map(|v| format!("{}({})", name, v)),
                Var::Nested(true, t) => {
                    if k.children.as_ref().map_or(false, |c| c.0.is_empty()) { r.vague = true }
                    if bare(k) { Some(format!("{}(None)", name)) } else { node(t, k, r).map(|v| format!("{}(Some({}))", name, v)) }
                }
                Var::Tuple(fs) => { let v = one(fs, k, r); show(name, true, fs, v) }
                Var::Skip => unreachable!(),
            } }
        },
    }
}

fn bare(k: &Node) -> bool { k.ty.is_none() && k.args.is_empty() && k.props.is_empty() && k.children.is_none() }

/// the whole document as a struct
pub fn root(t: &Ty, doc: &[Node], r: &mut R) -> Option<String> {
    match t {
        Ty::Wrap(t) => root(t, doc, r),
        Ty::Ref(n) => root(defined(n), doc, r),
        Ty::Struct { name, tuple, fields: fs } => {
            let v = fields(fs, &[], &[], doc, None, &Where { missing: vec![] }, r);
            show(name, *tuple, fs, v)
        }
        _ => unreachable!(),
    }
}
