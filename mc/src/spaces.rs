//! Finite document spaces.  Every space is enumerated completely.
use crate::engine::{h64, shrink, Task, Worker};
use crate::refp;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type Check = Arc<dyn Fn(&str, &refp::Out) -> Result<u64, String> + Send + Sync>;

/// One execution: reference model and implementation on `doc`.
pub fn drive(w: &mut Worker, doc: &str, from: u64, label: u64, check: &Check) -> (u64, bool) {
    let out = refp::run(doc);
    w.state(out.sig);
    w.transition(from, label);
    if out.res.is_ok() { w.stats.accepted += 1 } else { w.stats.rejected += 1 }
    w.begin(doc);
    let r = guarded(doc, &out, check);
    w.end();
    match r {
        Ok(o) => w.outcome(o),
        Err(msg) => {
            let mut msg = msg;
            w.begin(doc);
            let fails = |s: &str| guarded(s, &refp::run(s), check).err();
            let small = shrink(doc, &fails, &mut msg);
            w.end();
            w.violation(&small, msg);
        }
    }
    (out.sig, out.dead)
}

pub fn guarded(doc: &str, out: &refp::Out, check: &Check) -> Result<u64, String> {
    match catch_unwind(AssertUnwindSafe(|| check(doc, out))) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", panic_msg(&p))),
    }
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else { "?".into() }
}

/// All token sequences over `tokens` of length <= depth, each appended to
/// `prefix`.  A prefix that no KDL document starts with is extended by at most
/// `dead` further tokens (usize::MAX: no pruning).
pub fn sequences(name: &str, prefix: &str, tokens: &[&str], depth: usize, dead: usize,
                 suffix: &str, check: &Check) -> Vec<Task> {
    let tokens: Arc<Vec<String>> = Arc::new(tokens.iter().map(|s| s.to_string()).collect());
    let mut tasks: Vec<Task> = Vec::new();
    let split = depth.min(2);
    // shorter ones first
    {
        let (tokens, check, prefix, suffix) = (tokens.clone(), check.clone(), prefix.to_string(), suffix.to_string());
        tasks.push((name.to_string(), Box::new(move |w| {
            let mut b = prefix.clone();
            let d = if split == depth { depth } else { split - 1 };
            seq(w, &mut b, 0, u64::MAX, &tokens, d, dead, &suffix, &check);
        })));
    }
    if split < depth {
        for i in 0..tokens.len() { for j in 0..tokens.len() {
            let (tokens, check, prefix, suffix) = (tokens.clone(), check.clone(), prefix.to_string(), suffix.to_string());
            tasks.push((name.to_string(), Box::new(move |w| {
                let mut b = prefix.clone();
                b.push_str(&tokens[i]);
                let o1 = refp::run(&b);
                let mut dd = dead;
                if o1.dead { if dd == 0 { return } dd = dd.saturating_sub((dd != usize::MAX) as usize) }
                b.push_str(&tokens[j]);
                seq(w, &mut b, o1.sig, h64(&tokens[j]), &tokens, depth - 2, dd, &suffix, &check);
            })));
        } }
    }
    tasks
}

fn seq(w: &mut Worker, buf: &mut String, from: u64, label: u64, tokens: &[String],
       depth: usize, dead: usize, suffix: &str, check: &Check) {
    if w.stopped() { return }
    let (sig, is_dead) = if suffix.is_empty() {
        drive(w, buf, from, label, check)
    } else {
        let o = refp::run(buf);
        let l = buf.len();
        buf.push_str(suffix);
        drive(w, buf, from, label, check);
        buf.truncate(l);
        (o.sig, o.dead)
    };
    if depth == 0 { return }
    let mut dead = dead;
    if is_dead {
        if dead == 0 { return }
        if dead != usize::MAX { dead -= 1 }
    }
    for t in tokens {
        let l = buf.len();
        buf.push_str(t);
        seq(w, buf, sig, h64(t), tokens, depth - 1, dead, suffix, check);
        buf.truncate(l);
    }
}

/// Every document produced by `f(i)` for i in 0..n
pub fn indexed(name: &str, n: u64, check: &Check,
               f: impl Fn(u64) -> String + Send + Sync + 'static) -> Vec<Task> {
    let f = Arc::new(f);
    let chunk = (n / 64).clamp(1, 4096);
    let mut tasks: Vec<Task> = Vec::new();
    let mut s = 0;
    while s < n {
        let e = (s + chunk).min(n);
        let (f, check) = (f.clone(), check.clone());
        let nm = name.to_string();
        tasks.push((name.to_string(), Box::new(move |w| {
            for i in s..e {
                if w.stopped() { return }
                let d = f(i);
                drive(w, &d, h64(&nm), i, &check);
            }
        })));
        s = e;
    }
    tasks
}

pub fn list(name: &str, docs: Vec<String>, check: &Check) -> Vec<Task> {
    let docs = Arc::new(docs);
    let n = docs.len() as u64;
    indexed(name, n, check, move |i| docs[i as usize].clone())
}

/// Every Unicode scalar value substituted for `@` in every template.
pub fn unicode(name: &str, templates: &[&str], check: &Check) -> Vec<Task> {
    let ts: Vec<String> = templates.iter().map(|s| s.to_string()).collect();
    let total = 0x110000u64 - 0x800;
    indexed(name, total * ts.len() as u64, check, move |i| {
        let c = scalar(i % total);
        ts[(i / total) as usize].replace('@', c.encode_utf8(&mut [0; 4]))
    })
}

/// Scalars at which any boundary of the lexical grammar lies, and neighbours.
pub fn edge_scalars() -> Vec<char> {
    let mut v: Vec<u32> = (0..0x180).collect();
    for b in [0x1680u32, 0x2000, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000, 0xFEFF,
              0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x180e, 0x200b,
              0x2060, 0xfffd, 0x0660, 0xff11, 0x1d7d8, 0x4e00, 0x1f600, 0x0301, 0x00ad] {
        for d in -2i64..=2 {
            let x = b as i64 + d;
            if x >= 0 { v.push(x as u32) }
        }
    }
    v.sort(); v.dedup();
    v.into_iter().filter_map(char::from_u32).collect()
}

pub fn scalar(i: u64) -> char {
    let v = if i < 0xd800 { i as u32 } else { i as u32 + 0x800 };
    char::from_u32(v).unwrap()
}

/// Breadth-first search over the reference model's abstract control states:
/// keeps `reps` shortest representatives per signature, extends each with
/// every token, and runs every resulting document, alone and followed by each
/// probe suffix, on the implementation.
pub fn abstract_bfs(name: &str, tokens: &[&str], probes: &[&str], reps: usize,
                    max_len: usize, max_states: usize, check: &Check) -> Vec<Task> {
    // the graph is explored on the model (cheap); replays are then sharded
    let mut count: std::collections::HashMap<u64, usize> = Default::default();
    let mut queue: std::collections::VecDeque<String> = Default::default();
    queue.push_back(String::new());
    count.insert(refp::run("").sig, 1);
    let mut edges: Vec<(u64, u64, String)> = Vec::new();
    while let Some(d) = queue.pop_front() {
        let o = refp::run(&d);
        for t in tokens {
            let n = format!("{}{}", d, t);
            let on = refp::run(&n);
            edges.push((o.sig, h64(t), n.clone()));
            if !on.dead && n.chars().count() < max_len && count.len() < max_states {
                let c = count.entry(on.sig).or_insert(0);
                if *c < reps { *c += 1; queue.push_back(n) }
            }
        }
    }
    let probes: Arc<Vec<String>> = Arc::new(probes.iter().map(|s| s.to_string()).collect());
    let edges = Arc::new(edges);
    let n = edges.len();
    let chunk = (n / 128).max(1);
    let mut tasks: Vec<Task> = Vec::new();
    let mut s = 0;
    while s < n {
        let e = (s + chunk).min(n);
        let (edges, probes, check) = (edges.clone(), probes.clone(), check.clone());
        tasks.push((name.to_string(), Box::new(move |w| {
            for (from, label, doc) in &edges[s..e] {
                if w.stopped() { return }
                let (sig, _) = drive(w, doc, *from, *label, &check);
                for p in probes.iter() {
                    let d = format!("{}{}", doc, p);
                    drive(w, &d, sig, h64(p), &check);
                }
            }
        })));
        s = e;
    }
    tasks
}
