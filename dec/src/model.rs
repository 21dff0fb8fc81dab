//! Schemas, written as s-expressions next to the Rust definitions they describe.

#[derive(Debug, Clone)]
pub enum Sx { A(String), L(Vec<Sx>) }

impl Sx {
    pub fn a(&self) -> &str { if let Sx::A(s) = self { s } else { panic!("atom expected: {:?}", self) } }
    pub fn l(&self) -> &[Sx] { if let Sx::L(v) = self { v } else { panic!("list expected: {:?}", self) } }
}

pub fn sexp(s: &str) -> Sx {
    fn go(b: &[char], i: &mut usize) -> Sx {
        while b[*i].is_whitespace() { *i += 1 }
        match b[*i] {
            '(' => {
                *i += 1;
                let mut v = Vec::new();
                loop {
                    while b[*i].is_whitespace() { *i += 1 }
                    if b[*i] == ')' { *i += 1; return Sx::L(v) }
                    v.push(go(b, i));
                }
            }
            // |text| is a quoted atom
            '|' => {
                *i += 1;
                let st = *i;
                while b[*i] != '|' { *i += 1 }
                *i += 1;
                Sx::A(b[st..*i - 1].iter().collect())
            }
            _ => {
                let st = *i;
                while *i < b.len() && !b[*i].is_whitespace() && b[*i] != '(' && b[*i] != ')' { *i += 1 }
                Sx::A(b[st..*i].iter().collect())
            }
        }
    }
    let b: Vec<char> = s.chars().chain([' ']).collect();
    go(&b, &mut 0)
}

#[derive(Debug, Clone)]
pub enum Sc {
    Int(String, i128, i128), F32, F64, Str, Bool,
    Opt(Box<Sc>), Spanned(Box<Sc>), Wrap(Box<Sc>),
    Enum(Vec<(String, String)>),
    /// the literal itself, with any type: prints only its kind
    Lit, Val,
}

#[derive(Debug, Clone)]
pub enum Mode { Normal, Str(Conv), Bytes }

/// conversions from text
#[derive(Debug, Clone)]
pub enum Conv { String, U16, Low }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Coll { Vec, Set, Map }

#[derive(Debug, Clone)]
pub enum FK {
    Arg(Mode, Sc), Args(Mode, Sc, Coll),
    Prop(String, Mode, Sc), Props(Mode, Sc, Coll, Conv),
    Child(String, Content), Flag(String), Many(Option<String>, Content, Coll),
    Flat(bool, bool, Vec<Field>, Option<(String, bool)>),
    Span(String), NodeName(Conv), TypeName(Conv), Skip(String),
}

#[derive(Debug, Clone)]
pub enum Content { Node(Box<Ty>), Unwrap(Box<Field>) }

#[derive(Debug, Clone)]
pub struct Field { pub name: String, pub kind: FK, pub opt: bool, pub default: Option<String>,
    /// what the struct's own `Default` has there, where it is flattened
    pub own: Option<String> }

#[derive(Debug, Clone)]
pub enum Ty {
    Struct { name: String, tuple: bool, fields: Vec<Field> },
    Enum { variants: Vec<(String, String, Var)> },
    New { name: String, opt: bool, inner: Box<Ty> },
    Wrap(Box<Ty>),
    /// a type inside of itself
    Ref(String),
}

static DEFS: std::sync::Mutex<std::collections::BTreeMap<String, &'static Ty>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
/// the definition a `Ref` stands for
pub fn defined(name: &str) -> &'static Ty { DEFS.lock().unwrap().get(name).unwrap_or_else(|| panic!("no definition of {}", name)) }

#[derive(Debug, Clone)]
pub enum Var { Unit, Nested(bool, Box<Ty>), Tuple(Vec<Field>), Skip }

fn sc(x: &Sx) -> Sc {
    match x {
        Sx::A(s) => match &s[..] {
            "u8" => Sc::Int(s.clone(), 0, u8::MAX as i128), "i8" => Sc::Int(s.clone(), i8::MIN as i128, i8::MAX as i128),
            "u16" => Sc::Int(s.clone(), 0, u16::MAX as i128), "i16" => Sc::Int(s.clone(), i16::MIN as i128, i16::MAX as i128),
            "u32" => Sc::Int(s.clone(), 0, u32::MAX as i128), "i32" => Sc::Int(s.clone(), i32::MIN as i128, i32::MAX as i128),
            "u64" | "usize" => Sc::Int(s.clone(), 0, u64::MAX as i128),
            "i64" | "isize" => Sc::Int(s.clone(), i64::MIN as i128, i64::MAX as i128),
            "f32" => Sc::F32, "f64" => Sc::F64, "str" => Sc::Str, "bool" => Sc::Bool, "lit" => Sc::Lit, "val" => Sc::Val,
            _ => panic!("scalar {}", s),
        },
        Sx::L(v) => match v[0].a() {
            "opt" => Sc::Opt(Box::new(sc(&v[1]))), "spanned" => Sc::Spanned(Box::new(sc(&v[1]))),
            "wrap" => Sc::Wrap(Box::new(sc(&v[1]))),
            "enum" => Sc::Enum(v[1..].iter().map(|p| (p.l()[0].a().to_string(), p.l()[1].a().to_string())).collect()),
            o => panic!("scalar {}", o),
        },
    }
}
fn conv(x: &Sx) -> Conv { match x.a() { "string" => Conv::String, "u16" => Conv::U16, "low" => Conv::Low, o => panic!("{}", o) } }
fn mode(x: &Sx) -> Mode {
    match x.a() { "n" => Mode::Normal, "bytes" => Mode::Bytes, s => Mode::Str(conv(&Sx::A(s.strip_prefix("str:").unwrap().into()))) }
}
fn coll(x: &Sx) -> Coll { match x.a() { "vec" => Coll::Vec, "set" => Coll::Set, "map" => Coll::Map, o => panic!("{}", o) } }
fn content(x: &Sx) -> Content {
    let v = x.l();
    if v[0].a() == "unwrap" { Content::Unwrap(Box::new(field(&v[1]))) } else { Content::Node(Box::new(ty(x))) }
}
/// (NAME opt|req DEFAULT|- KIND ...)
pub fn field(x: &Sx) -> Field {
    let v = x.l();
    let name = v[0].a().to_string();
    let opt = v[1].a() == "opt";
    let own = v[2].a().strip_prefix("own:").map(String::from);
    let default = if own.is_some() || v[2].a() == "-" { None } else { Some(v[2].a().to_string()) };
    let k = &v[4..];
    let kind = match v[3].a() {
        "arg" => FK::Arg(mode(&k[0]), sc(&k[1])),
        "args" => FK::Args(mode(&k[0]), sc(&k[1]), coll(&k[2])),
        "prop" => FK::Prop(k[0].a().into(), mode(&k[1]), sc(&k[2])),
        "props" => FK::Props(mode(&k[0]), sc(&k[1]), coll(&k[2]), conv(&k[3])),
        "child" => FK::Child(k[0].a().into(), content(&k[1])),
        "flag" => FK::Flag(k[0].a().into()),
        "many" => FK::Many(if k[0].a() == "-" { None } else { Some(k[0].a().into()) }, content(&k[1]), coll(&k[2])),
        "flat" => {
            let mut t = ty(&k[1]);
            while let Ty::Wrap(i) = t { t = *i }
            let Ty::Struct { name: n, tuple: tup, fields: fs } = t else { panic!() };
            FK::Flat(k[0].a().contains('c'), k[0].a().contains('p'), fs, Some((n, tup)))
        }
        "span" => FK::Span(k[0].a().into()),
        "nodename" => FK::NodeName(conv(&k[0])), "typename" => FK::TypeName(conv(&k[0])),
        "skip" => FK::Skip(k[0].a().into()),
        o => panic!("field kind {}", o),
    };
    Field { name, kind, opt, default, own }
}
pub fn ty(x: &Sx) -> Ty {
    let v = x.l();
    match v[0].a() {
        "struct" => Ty::Struct { name: v[1].a().into(), tuple: v[2].a() == "tuple", fields: v[3..].iter().map(field).collect() },
        "enum" => Ty::Enum { variants: v[1..].iter().map(|p| {
            let p = p.l();
            (p[0].a().to_string(), p[1].a().to_string(), match p[2].a() {
                "unit" => Var::Unit, "skip" => Var::Skip,
                "nested" => Var::Nested(false, Box::new(ty(&p[3]))), "optnested" => Var::Nested(true, Box::new(ty(&p[3]))),
                "tuple" => Var::Tuple(p[3..].iter().map(field).collect()),
                o => panic!("{}", o),
            })
        }).collect() },
        "new" => Ty::New { name: v[1].a().into(), opt: v[2].a() == "opt", inner: Box::new(ty(&v[3])) },
        "wrap" => Ty::Wrap(Box::new(ty(&v[1]))),
        "def" => {
            let t = ty(&v[2]);
            DEFS.lock().unwrap().entry(v[1].a().into()).or_insert_with(|| Box::leak(Box::new(t.clone())));
            t
        }
        "ref" => Ty::Ref(v[1].a().into()),
        o => panic!("type {}", o),
    }
}
