//! Runs every schema on every document of its space and compares with the model.
use crate::model::{sexp, ty, Ty};
use crate::reference::{node, root, Fault, R};
use mc::engine::{conclude, h64, shrink, thorough, Task, Worker};
use mc::obs::{diags, Diag};
use mc::refp;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Nodes, Root }

/// another way to decode the same document
pub type Alt = fn(&str) -> Result<String, Vec<Diag>>;
pub type Run = fn(&str) -> Result<String, knuffel::Error>;

#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    pub model: &'static str,
    pub src: &'static str,
    pub kind: Kind,
    pub run: Run,
    /// the same definition without wrappers: diagnostics have to be identical
    pub bare: Option<Run>,
    /// other entry points (and whether the diagnostics are the same ones)
    pub alts: &'static [(&'static str, bool, Alt)],
    /// node heads; empty: documents are sequences of `kids`
    pub heads: &'static [&'static str],
    pub entries: &'static [&'static str],
    pub max_e: usize,
    pub kids: &'static [&'static str],
    pub max_k: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Level {
    Value,
    /// the place of each diagnostic
    Place,
    /// its place and wording
    Diag,
    /// diagnostics of each node of a list
    PerNode,
}

fn matches(d: &Diag, f: &Fault, level: Level) -> bool {
    let place = match d.labels.len() {
        0 => f.at.is_empty(),
        1 => f.at.iter().any(|s| (s.0, s.1 - s.0) == (d.labels[0].1, d.labels[0].2)),
        _ => false,
    };
    place && (level == Level::Place || f.words.iter().all(|w| d.msg.contains(w.as_str()) || d.msg.contains(&w.escape_default().to_string()) || d.msg.contains(&w.escape_debug().to_string())))
}

fn show_diags(ds: &[Diag]) -> String {
    ds.iter().map(|d| format!("{:?} at {:?}", d.msg, d.labels.iter().map(|l| (l.1, l.1 + l.2)).collect::<Vec<_>>())).collect::<Vec<_>>().join("; ")
}

pub fn check(e: &Entry, t: &Ty, level: Level, doc: &str) -> Result<(u64, Vec<&'static str>, bool), String> {
    let Ok(tree) = refp::parse(doc) else { return Ok((0, vec!["not a document"], false)) };
    // whether unsigned types take a negative zero is not specified
    if neg_zero(&tree, doc) { return Ok((0, vec!["negative zero"], false)) }
    let mut r = R::default();
    let mut ranges = Vec::new();
    let want = match e.kind {
        Kind::Root => root(t, &tree, &mut r),
        Kind::Nodes => {
            let mut vs = Vec::new();
            for n in &tree {
                let before = r.faults.len();
                vs.push(node(t, n, &mut r));
                ranges.push((n.span, r.faults.len() - before));
            }
            vs.into_iter().collect::<Option<Vec<_>>>().map(|v| format!("[{}]", v.join(", ")))
        }
    };
    let got = (e.run)(doc);
    if let Some(b) = e.bare {
        let other = b(doc);
        match (&got, &other) {
            (Ok(_), Ok(_)) => {}
            (Err(a), Err(b)) => {
                let (a, b) = (diags(a), diags(b));
                if a != b { return Err(format!("wrapped: {}\nbare: {}", show_diags(&a), show_diags(&b))) }
            }
            (a, b) => return Err(format!("wrapped type: {}, bare type: {}", verdict(a), verdict(b))),
        }
    }
    for (what, same, alt) in e.alts {
        let other = alt(doc);
        match (&got, &other) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(a), Err(b)) => if *same {
                let (mut a, mut b) = (diags(a), b.clone());
                let key = |d: &Diag| (d.labels.clone(), d.msg.clone());
                a.sort_by_key(key);
                b.sort_by_key(key);
                if a != b { return Err(format!("knuffel::parse: {}\n{}: {}", show_diags(&a), what, show_diags(&b))) }
            },
            (a, b) => return Err(format!("knuffel::parse {}\n{}: {}", verdict(a), what, match b { Ok(v) => format!("decoded {}", v), Err(d) => format!("failed: {}", show_diags(d)) })),
        }
    }
    let sig = h64(&(e.name, &r.states, r.faults.len().min(4)));
    if r.vague { return Ok((sig, r.states, got.is_ok())) }
    match (&got, r.faults.is_empty()) {
        (Ok(v), true) => {
            let want = want.expect("a value or a fault");
            if *v != want { return Err(format!("decoded {}\nexpected {}", v, want)) }
        }
        (Err(_), false) => {}
        (Ok(v), false) => return Err(format!("decoded {} although it does not fit: {:?}", v, r.faults)),
        (Err(x), true) => return Err(format!("expected {}, got errors: {}", want.unwrap_or_default(), show_diags(&diags(x)))),
    }
    if let Err(x) = &got {
        let ds = diags(x);
        if ds.is_empty() { return Err("failed without any diagnostic".into()) }
        if matches!(level, Level::Diag | Level::Place) {
            if level == Level::Diag { source_ok(x, doc)? }
            for d in &ds {
                if !r.faults.iter().any(|f| matches(d, f, level)) {
                    return Err(format!("diagnostic {} describes none of the faults {:?}", show_diags(std::slice::from_ref(d)), r.faults));
                }
            }
        }
        if level == Level::PerNode && e.kind == Kind::Nodes {
            for (sp, faults) in &ranges {
                let n = ds.iter().filter(|d| d.labels.iter().all(|l| sp.0 <= l.1 && l.1 + l.2 <= sp.1) && !d.labels.is_empty()).count();
                if (*faults > 0) != (n > 0) {
                    return Err(format!("node at {:?} has {} faults but {} diagnostics: {}", sp, faults, n, show_diags(&ds)));
                }
            }
        }
    }
    Ok((sig, r.states, got.is_ok()))
}

fn neg_zero(ns: &[refp::Node], doc: &str) -> bool {
    ns.iter().any(|n| n.args.iter().chain(n.props.values().map(|p| &p.1)).any(|v| v.lit == refp::Lit::Int(refp::Num::I(0)) && doc[v.span.0..].starts_with('-'))
        || n.children.as_ref().map_or(false, |c| neg_zero(&c.0, doc)))
}

fn source_ok(e: &knuffel::Error, doc: &str) -> Result<(), String> {
    use miette::Diagnostic;
    let src = e.source_code().ok_or("no source code attached")?;
    let c = src.read_span(&(0, doc.len()).into(), 0, 0).map_err(|e| format!("source not readable: {:?}", e))?;
    if c.data() != doc.as_bytes() { return Err("the source attached is not the document".into()) }
    if c.name() != Some("doc.kdl") { return Err(format!("source is called {:?}", c.name())) }
    Ok(())
}

fn verdict(r: &Result<String, knuffel::Error>) -> String {
    match r { Ok(v) => format!("decoded {}", v), Err(e) => format!("failed: {}", show_diags(&diags(e))) }
}

fn guarded(e: &Entry, t: &Ty, level: Level, doc: &str) -> Result<(u64, Vec<&'static str>, bool), String> {
    catch_unwind(AssertUnwindSafe(|| check(e, t, level, doc)))
        .unwrap_or_else(|p| Err(format!("panicked: {}", mc::spaces::panic_msg(&p))))
}

fn drive(w: &mut Worker, e: &Entry, t: &Ty, level: Level, doc: &str, from: u64, label: u64) -> u64 {
    w.begin(&format!("{}\n{}", e.name, doc));
    let x = guarded(e, t, level, doc);
    w.end();
    w.transition(from, label);
    match x {
        Ok((sig, _, ok)) => {
            w.state(sig);
            if ok { w.stats.accepted += 1 } else { w.stats.rejected += 1 }
            w.outcome(h64(&(sig, ok)));
            sig
        }
        Err(mut m) => {
            let small = shrink(doc, &|s| guarded(e, t, level, s).err(), &mut m);
            w.violation(&format!("{}\n{}", e.name, small), format!("definition:\n{}\nproblem: {}", e.src, m));
            0
        }
    }
}

/// calls f for every sequence over `alpha` of length <= max, with the index of the last token
fn seqs(alpha: &[&str], max: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, max: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if cur.len() == max { return }
        for i in 0..n { cur.push(i); go(n, max, cur, f); cur.pop(); }
    }
    go(alpha.len(), max, &mut Vec::new(), f)
}

/// The depths of the definition, and more while the space stays small: the cap is the budget of the tier.
fn depth(e: &Entry, level: Level) -> (usize, usize) {
    let (mut me, mut mk) = (if e.entries.is_empty() { 0 } else { e.max_e }, if e.kids.is_empty() { 0 } else { e.max_k });
    let all = |n: usize, d: usize| (0..=d as u32).map(|i| (n as f64).powi(i as i32)).sum::<f64>();
    let size = |me: usize, mk: usize| if e.heads.is_empty() { all(e.kids.len(), mk) } else {
        e.heads.len() as f64 * all(e.entries.len(), me) * (1.0 + if e.kids.is_empty() { 0.0 } else { all(e.kids.len(), mk) })
    };
    let cap = match (thorough(), level) { (false, _) if e.alts.len() > 2 => 800.0, (false, _) => 3_000.0, (true, Level::Value | Level::Place) => 150_000.0, (true, _) => 60_000.0 };
    loop {
        // the side that costs less first
        let a = if e.entries.is_empty() || me >= 6 { f64::MAX } else { size(me + 1, mk) };
        let b = if e.kids.is_empty() || mk >= 6 { f64::MAX } else { size(me, mk + 1) };
        if a.min(b) > cap { return (me, mk) }
        if a <= b { me += 1 } else { mk += 1 }
    }
}

fn explore(w: &mut Worker, e: &Entry, level: Level) {
    let t = ty(&sexp(e.model));
    let (me, mk) = depth(e, level);
    let mut last: Vec<u64> = vec![0; 64];
    if e.heads.is_empty() {
        for sep in ["\n", "; "] {
            seqs(e.kids, mk, &mut |s| {
                if w.stopped() { return }
                let doc = s.iter().map(|i| e.kids[*i]).collect::<Vec<_>>().join(sep);
                let l = s.len();
                let sig = drive(w, e, &t, level, &doc, last[l.saturating_sub(1)], h64(&s.last().map(|i| e.kids[*i])));
                last[l] = sig;
            });
            if !thorough() { break }
        }
        return
    }
    for head in e.heads {
        seqs(e.entries, me, &mut |s| {
            if w.stopped() { return }
            let mut line = head.to_string();
            for i in s { line.push(' '); line.push_str(e.entries[*i]) }
            let l = s.len();
            let sig = drive(w, e, &t, level, &line, last[l.saturating_sub(1)], h64(&s.last().map(|i| e.entries[*i])));
            last[l] = sig;
            if e.kids.is_empty() { return }
            let mut klast: Vec<u64> = vec![sig; 64];
            seqs(e.kids, mk, &mut |k| {
                if w.stopped() { return }
                let doc = format!("{} {{{}\n}}", line, k.iter().map(|i| e.kids[*i]).collect::<Vec<_>>().join("\n"));
                let l = k.len();
                klast[l] = drive(w, e, &t, level, &doc, klast[l.saturating_sub(1)], h64(&k.last().map(|i| e.kids[*i])));
            });
        });
    }
}

/// The alphabets again, one token at a time but many times over: limits on how many there are show here.
fn repeats(w: &mut Worker, e: &Entry, level: Level) {
    let t = ty(&sexp(e.model));
    let lens: &[usize] = if thorough() { &[5, 8, 9, 16, 17, 20, 21, 32, 33, 64, 65, 100, 128, 129, 256, 257] } else { if e.alts.len() <= 2 { &[9, 17, 33, 70] } else { &[9, 17, 70] } };
    let some = |xs: &'static [&'static str]| -> Vec<&'static str> { let step = if thorough() { 1 } else { (xs.len() + 11) / 12 }; xs.iter().step_by(step.max(1)).copied().collect() };
    let mut lists: Vec<(Vec<&str>, &dyn Fn(&str) -> String, &str)> = Vec::new();
    let top = |s: &str| s.to_string();
    let head = e.heads.first().copied().unwrap_or("");
    let entry = |s: &str| format!("{} {}", head, s);
    let child = |s: &str| format!("{} {{{}\n}}", head, s);
    let first = e.entries.first().copied().unwrap_or("");
    let child_e = |s: &str| format!("{} {} {{{}\n}}", head, first, s);
    if e.heads.is_empty() { lists.push((some(e.kids), &top, "\n")) } else {
        if !e.entries.is_empty() { lists.push((some(e.entries), &entry, " ")) }
        if !e.kids.is_empty() {
            lists.push((some(e.kids), &child, "\n"));
            if !first.is_empty() { lists.push((some(e.kids), &child_e, "\n")) }
        }
    }
    let mut lines: Vec<String> = Vec::new();
    if !e.heads.is_empty() && e.kind == Kind::Nodes {
        for h in e.heads.iter().take(2) {
            lines.push(h.to_string());
            lines.extend(some(e.entries).iter().take(3).map(|x| format!("{} {}", h, x)));
            lines.extend(some(e.kids).iter().take(2).map(|x| format!("{} {{{}\n}}", h, x)));
        }
    }
    let refs: Vec<&str> = lines.iter().map(|s| &s[..]).collect();
    if !refs.is_empty() { lists.push((refs, &top, "\n")) }
    for (toks, wrap, sep) in lists {
        for (i, x) in toks.iter().enumerate() {
            let y = toks[(i + 1) % toks.len()];
            for n in lens {
                if w.stopped() { return }
                // whole trees cost too much many times over
                if x.len() * *n > 6_000 { continue }
                let many = vec![*x; *n].join(sep);
                for body in [many.clone(), format!("{}{}{}", many, sep, y), format!("{}{}{}", y, sep, many)] {
                    drive(w, e, &t, level, &wrap(&body), 0, *n as u64);
                }
            }
        }
    }
}

const TEXTS: &[&str] = &["", " ", "x ", " x", "\u{feff}x", "x\ty", "x\n", "\u{0}", "true", "false", "null", "1", "-1", "1.5", "u8", "i8", "base64", "str", "A", "N", "n_", "-", "é", "中\u{301}", "\u{1F600}", "x.y", "x::y", "r#x", "{}", "{:?}", "`", "\"", "\\", "(", "0x1F", "inf", "NaN", "YQ==", "c2FmZQ==", " YQ==", "xn"];
const OTHER: &[&str] = &["null", "true", "false", "0", "1", "-1", "255", "256", "65536", "-129", "18446744073709551616", "0x_F", "0o7", "0b1", "1_0", "1.5", "-0.0", "1e3", "1E-400", "r\"x\"", "r#\"7\"#"];
const TYPES: &[&str] = &["u8", "i8", "u16", "f32", "f64", "base64", "t", "\"\"", "\"u8 \"", "U8", "str", "usize", "\"a b\""];

fn quoted(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() { match c { '"' | '\\' => { s.push('\\'); s.push(c) } '\n' => s.push_str("\\n"), '\0' => s.push_str("\\u{0}"), _ => s.push(c) } }
    s.push('"');
    s
}

/// every document that differs from `doc` in one text, value, type or the layout around it
fn variants(doc: &str, long: bool, f: &mut dyn FnMut(String)) {
    fn points(ns: &[refp::Node], texts: &mut Vec<refp::Sp>, vals: &mut Vec<(refp::Sp, bool)>, heads: &mut Vec<(usize, bool)>) {
        for n in ns {
            heads.push((n.ty.as_ref().map_or(n.name.1.0, |t| t.1.0), n.ty.is_some()));
            texts.push(n.name.1);
            texts.extend(n.ty.iter().map(|t| t.1));
            for (ks, v) in n.props.values() {
                texts.extend(ks);
                texts.extend(v.ty.iter().map(|t| t.1));
                vals.push((v.span, v.ty.is_some()));
            }
            for v in &n.args { texts.extend(v.ty.iter().map(|t| t.1)); vals.push((v.span, v.ty.is_some())) }
            if let Some(c) = &n.children { points(&c.0, texts, vals, heads) }
        }
    }
    let Ok(tree) = refp::parse(doc) else { return };
    let (mut texts, mut vals, mut heads) = (Vec::new(), Vec::new(), Vec::new());
    points(&tree, &mut texts, &mut vals, &mut heads);
    let put = |sp: refp::Sp, t: &str| format!("{}{}{}", &doc[..sp.0], t, &doc[sp.1..]);
    for sp in &texts { for t in TEXTS { f(put(*sp, &quoted(t))) } }
    for (sp, typed) in &vals {
        for t in TEXTS { f(put(*sp, &quoted(t))) }
        for t in OTHER { f(put(*sp, t)) }
        if *typed { continue }
        for t in TYPES { for l in [&doc[sp.0..sp.1], "null", "1", "true", "1.5", "\"YQ==\""] { f(put(*sp, &format!("({}){}", t, l))) } }
    }
    for (at, typed) in &heads {
        if !*typed { for t in TYPES { f(put((*at, *at), &format!("({})", t))) } f(put((*at, *at), "/-")) }
    }
    for (a, b) in [("\u{feff}", ""), ("\r\n", "\r\n"), ("// é\n", ""), ("/* é\n */", ""), ("", " "), ("", ";"), ("", " // é"), ("", " /* é */"), ("", " \\\n"), ("", "\u{2028}"), ("/-z 1 { y; }\n", ""), ("\u{feff}\u{feff}\n", "\n\n"), ("\t \u{3000}", "\n/-z")] {
        f(format!("{}{}{}", a, doc, b));
    }
    if !long { return }
    for n in [8usize, 16, 20, 30, 31, 32, 39, 40, 41, 47, 48, 50, 60, 63, 64, 72, 80, 99, 100, 127, 128, 200, 255, 256, 512, 1024] {
        for c in ["é", "\u{1F600}"] {
            // a character over the boundary of `n` bytes
            let t = quoted(&format!("{}{}", "x".repeat(n - 1), c));
            for sp in texts.iter().chain(vals.iter().map(|v| &v.0)) { f(put(*sp, &t)) }
        }
    }
}

fn vary(w: &mut Worker, e: &Entry, level: Level) {
    let t = ty(&sexp(e.model));
    let mut base: Vec<String> = Vec::new();
    // every way in multiplies the cost
    let (ne, nk, np) = match (thorough(), e.alts.len() <= 2) { (true, true) => (40, 40, 10), (true, false) => (10, 10, 4), (false, true) => (8, 12, 3), (false, false) => (1, 1, 0) };
    let (entries, kids) = (&e.entries[..e.entries.len().min(ne)], &e.kids[..e.kids.len().min(nk)]);
    if e.heads.is_empty() {
        base.extend(kids.iter().map(|k| k.to_string()));
        base.extend(kids.iter().take(np).map(|k| format!("{}\n{}", k, k)));
    }
    for (i, h) in e.heads.iter().enumerate() {
        if i > 0 && nk < 10 { break }
        base.push(h.to_string());
        base.extend(entries.iter().map(|x| format!("{} {}", h, x)));
        if i > 0 && !thorough() { continue }
        base.extend(kids.iter().map(|x| format!("{} {{{}\n}}", h, x)));
        if let Some(x) = e.entries.first() { base.extend(kids.iter().map(|k| format!("{} {} {{{}\n}}", h, x, k))) }
        // twice the same, twice almost the same
        base.extend(entries.iter().take(np).map(|x| format!("{} {} {}", h, x, x)));
        base.extend(entries.windows(2).take(np).map(|x| format!("{} {} {}", h, x[0], x[1])));
        base.extend(kids.iter().take(np).map(|x| format!("{} {{{}\n{}\n}}", h, x, x)));
        // the fourth, the fifth ...
        if i == 0 && np > 0 {
            base.extend(entries.iter().take(2).map(|x| format!("{} {}", h, vec![*x; 5].join(" "))));
            base.extend(kids.iter().take(1).map(|x| format!("{} {{{}\n}}", h, vec![*x; 4].join("\n"))));
        }
    }
    let mut seen = std::collections::HashSet::new();
    for (i, b) in base.iter().enumerate() {
        variants(b, i < 2 && nk > 3 || thorough(), &mut |d| {
            if w.stopped() || !seen.insert(h64(&d)) { return }
            drive(w, e, &t, level, &d, h64(b), h64(&d));
        });
    }
}

pub fn main(id: &str, level: Level, entries: &'static [Entry]) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| &s[..]) {
        Some(how @ ("--replay" | "--one")) => {
            let text = std::fs::read_to_string(&args[1]).expect("replay file");
            let input = if how == "--one" { text } else {
                mc::engine::unjson(text.lines().find_map(|l| l.strip_prefix("input (JSON string): ")).expect("input line"))
            };
            let (name, doc) = input.split_once('\n').expect("schema and document");
            let e = entries.iter().find(|e| e.name == name).expect("schema");
            match guarded(e, &ty(&sexp(e.model)), level, doc) {
                Ok(_) => { println!("holds on this input"); std::process::exit(0) }
                Err(m) => { println!("violated: {}", m); std::process::exit(1) }
            }
        }
        Some("--child") => {}
        _ => mc::engine::supervise(id, &["--child"], Some(&["--one"]), "derive definitions x documents"),
    }
    for e in entries {
        ty(&sexp(e.model));
        // a token that makes no document would explore nothing
        let docs = e.heads.iter().map(|x| x.to_string()).chain(e.entries.iter().map(|x| format!("n {}", x))).chain(e.kids.iter().map(|x| format!("n {{{}\n}}", x)));
        for d in docs { if refp::parse(&d).is_err() { eprintln!("{}: no document: {:?}", e.name, d); std::process::exit(2) } }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut groups: std::collections::BTreeMap<&str, Vec<&'static Entry>> = Default::default();
    for e in entries { groups.entry(e.name.trim_end_matches(|c: char| c.is_ascii_digit())).or_default().push(e) }
    // thousands of definitions, whose kinds of fields the others vary already
    let vary_it = id != "C28" || thorough();
    let mut tasks: Vec<Task> = Vec::new();
    // large spaces first
    let mut all: Vec<(&str, &'static Entry)> = groups.iter().flat_map(|(g, v)| v.iter().map(move |e| (*g, *e))).collect();
    all.sort_by_key(|(_, e)| std::cmp::Reverse((e.entries.len() + 1).pow(e.max_e as u32) * (e.kids.len() + 1).pow(e.max_k as u32)));
    for (g, e) in all {
        let e = Arc::new(*e);
        tasks.push((format!("schemas {}", g), Box::new(move |w| { explore(w, &e, level); repeats(w, &e, level); if vary_it { vary(w, &e, level) } })));
    }
    let n = entries.len();
    let r = mc::engine::run(id, tasks);
    conclude(id, &r, &format!("{} derive definitions x every document of their spaces (all sequences of the entry and child alphabets up to the depth); verdict, value{} against the schema interpreter",
        n, match level { Level::Value => "", Level::Place => ", every diagnostic's place", Level::Diag => ", every diagnostic's place and wording", Level::PerNode => ", diagnostics of every node" }), &[])
}
