//! C11 (histories), C25 (decoding context) and C26 (type names).
use crate::engine::{h64, thorough, Task, Worker};
use crate::obs;
use knuffel::ast::{BuiltinType, SpannedNode, TypeName};
use knuffel::span::{LineSpan, Span};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::Arc;

// ---------------------------------------------------------------- C11

pub const DOCS: &[&str] = &[
    "", "a 1", "a", "a 1 k=2 {\n b \"x\"\n}\n", "(t)a /-1 2; b true null\n", "a \"é\\u{1F600}\" r#\"z\"# 0x1f -2.5e3",
    "a {", "a \"x", "a b", "1", "a /* x", "a 1=2", "a \"\\u{d800}\"", "a {\n b {\n c k=1 k=2\n}\n}\n", "a \\\n 1 //c\nb", "a 2", "b 1", "a\tx=1",
];
const GONE: &str = "fresh process failed";
const FNS: usize = 9;
const NAMES: &[&str] = &["doc.kdl", "", "other.kdl"];

pub struct Op { f: usize, doc: usize, name: usize }

pub fn ops() -> Vec<Op> {
    let mut v = Vec::new();
    for f in 0..FNS { for doc in 0..DOCS.len() {
        // every document under the main name, some under the other names
        if f < 4 { for name in 0..NAMES.len() { if name == 0 || doc % 5 == 1 { v.push(Op { f, doc, name }) } } }
        // user code that panics, parses again, or does so in the setup callback: on a few documents
        else if [3, 8, 13, 16].contains(&doc) { v.push(Op { f, doc, name: 0 }) }
    } }
    v
}

/// complete observation of one call
pub fn observe(op: &Op) -> String {
    catch_unwind(AssertUnwindSafe(|| observe_in(op))).unwrap_or_else(|p| format!("panicked: {}", crate::spaces::panic_msg(&p)))
}

fn observe_in(op: &Op) -> String {
    let (doc, name) = (DOCS[op.doc], NAMES[op.name]);
    fn err(e: knuffel::Error) -> String {
        let mut s = String::new();
        let _ = miette::NarratableReportHandler::new().render_report(&mut s, &e);
        format!("Err {:?} {}", obs::diags(&e), s)
    }
    match op.f {
        0 => match knuffel::parse_ast::<Span>(name, doc) { Ok(d) => format!("{:?}", d), Err(e) => err(e) },
        1 => match knuffel::parse_ast::<LineSpan>(name, doc) { Ok(d) => format!("{:?}", d), Err(e) => err(e) },
        2 => match knuffel::parse::<Vec<SpannedNode<Span>>>(name, doc) { Ok(d) => format!("{:?}", d), Err(e) => err(e) },
        3 => {
            let r = knuffel::parse_with_context::<Vec<CtxNode>, Span, _>(name, doc, |c| {
                point();
                c.set::<u32>(doc.len() as u32);
            });
            match r { Ok(d) => format!("{:?}", d), Err(e) => err(e) }
        }
        // a decoder that panics, one that parses, setup that panics, setup that parses
        4 | 5 => {
            let f = op.f as u8;
            let r = knuffel::parse_with_context::<Vec<CtxNode>, Span, _>(name, doc, |c| c.set::<u8>(f));
            match r { Ok(d) => format!("{:?}", d), Err(e) => err(e) }
        }
        6 | 7 => {
            let mut inner = String::new();
            let r = knuffel::parse_with_context::<Vec<CtxNode>, Span, _>(name, doc, |c| {
                c.set::<u32>(doc.len() as u32);
                if op.f == 6 { panic!("setup panics") }
                inner = nested_calls();
            });
            match r { Ok(d) => format!("{:?} {}", d, inner), Err(e) => format!("{} {}", err(e), inner) }
        }
        _ => {
            let r = knuffel::parse_with_context::<Vec<CtxNode>, LineSpan, _>(name, doc, |c| {
                point();
                c.set::<String>(format!("{}", doc.len()));
            });
            match r { Ok(d) => format!("{:?}", d), Err(e) => err(e) }
        }
    }
}

/// what user code sees that calls the library while a call is running
fn nested_calls() -> String {
    let mut out = String::new();
    for f in [0, 1, 2, 3, 8] { for doc in [3, 5, 6, 11, 13] { out.push_str(&observe(&Op { f, doc, name: 2 })); out.push('\n') } }
    out
}

/// One schedule of two threads: whose turn it is at every switching point.
/// Switching points are where the library calls user code.
struct Gate { plan: Vec<u8>, st: std::sync::Mutex<GateState>, cv: std::sync::Condvar }
#[derive(Default)]
struct GateState { pos: usize, done: [bool; 2], open: bool, passed: usize }
thread_local! { static GATE: std::cell::RefCell<Option<(Arc<Gate>, u8)>> = const { std::cell::RefCell::new(None) }; }

impl Gate {
    fn new(plan: Vec<u8>) -> Gate { Gate { plan, st: Default::default(), cv: Default::default() } }
    fn wait(&self, me: u8, advance: bool) {
        let mut st = self.st.lock().unwrap();
        if advance { st.pos += 1; st.passed += 1; self.cv.notify_all() }
        loop {
            while st.pos < self.plan.len() && st.done[self.plan[st.pos] as usize] { st.pos += 1 }
            if st.open || st.pos >= self.plan.len() || self.plan[st.pos] == me { return }
            let (g, t) = self.cv.wait_timeout(st, std::time::Duration::from_millis(500)).unwrap();
            st = g;
            // the other thread waits for something this one holds: this schedule is not possible
            if t.timed_out() { st.open = true; self.cv.notify_all() }
        }
    }
    fn finish(&self, me: u8) {
        let mut st = self.st.lock().unwrap();
        st.done[me as usize] = true;
        st.pos += 1;
        self.cv.notify_all();
    }
}
fn point() {
    let g = GATE.with(|g| g.borrow().clone());
    if let Some((g, me)) = g { g.wait(me, true) }
}

/// Both operations on threads of their own, switching as planned; the
/// observations and the number of points passed.
fn interleaved(a: &Op, b: &Op, plan: Vec<u8>) -> (String, String, usize) {
    let g = Arc::new(Gate::new(plan));
    let (x, y) = std::thread::scope(|s| {
        let hs: Vec<_> = [(a, 0u8), (b, 1u8)].into_iter().map(|(op, me)| {
            let g = g.clone();
            s.spawn(move || {
                GATE.with(|c| *c.borrow_mut() = Some((g.clone(), me)));
                g.wait(me, false);
                let r = observe(op);
                g.finish(me);
                r
            })
        }).collect();
        let mut it = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "thread died".into()));
        (it.next().unwrap(), it.next().unwrap())
    });
    let n = g.st.lock().unwrap().passed;
    (x, y, n)
}

/// every order of `a` zeros and `b` ones
fn plans(a: usize, b: usize, cur: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
    if a + b == 0 { return f(cur) }
    for (k, x, y) in [(0u8, a.wrapping_sub(1), b), (1, a, b.wrapping_sub(1))] {
        if (k == 0 && a == 0) || (k == 1 && b == 0) { continue }
        cur.push(k); plans(x, y, cur, f); cur.pop();
    }
}

#[derive(Debug)]
pub struct CtxNode(String, Option<u32>, Option<String>);
impl<S: knuffel::traits::ErrorSpan> knuffel::Decode<S> for CtxNode {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut knuffel::decode::Context<S>)
        -> Result<Self, knuffel::errors::DecodeError<S>>
    {
        point();
        match ctx.get::<u8>() {
            Some(4) if n.children.is_some() || n.node_name.len() != 1 || n.arguments.len() != 1 => panic!("decoder panics"),
            Some(5) => return Ok(CtxNode(n.node_name.to_string(), None, Some(nested_calls()))),
            _ => {}
        }
        if n.children.is_some() { ctx.emit_error(knuffel::errors::DecodeError::unexpected(n, "node", "no children here")) }
        Ok(CtxNode(n.node_name.to_string(), ctx.get::<u32>().copied(), ctx.get::<String>().cloned()))
    }
}

/// prints the observation of operation k (run in a fresh process)
pub fn fresh(k: usize) { print!("{}", observe(&ops()[k])) }

/// the cyclic sequence over 0..k in which every word of length n occurs once
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n { if n % p == 0 { out.extend_from_slice(&a[1..=p]) } return }
        a[t] = a[t - p];
        db(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k { a[t] = j; db(t + 1, t, k, n, a, out) }
    }
    let mut out = Vec::new();
    db(1, 1, k, n, &mut vec![0; k * n + 1], &mut out);
    assert_eq!(out.len(), k.pow(n as u32));
    out
}

pub fn c11() -> Vec<Task> {
    let all = ops();
    let exe = std::env::current_exe().unwrap();
    // every operation alone, in its own process
    let hs: Vec<_> = (0..all.len()).map(|k| {
        std::process::Command::new("timeout").args(["-s", "KILL", "60"]).arg(&exe).args(["C11", "--fresh", &k.to_string()])
            .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap()
    }).collect();
    let want: Arc<Vec<String>> = Arc::new(hs.into_iter().map(|h| {
        let o = h.wait_with_output().unwrap();
        if !o.status.success() { return format!("{}: {}", GONE, o.status) }
        String::from_utf8(o.stdout).unwrap()
    }).collect());
    let all = Arc::new(all);
    let mut tasks: Vec<Task> = Vec::new();
    let n = all.len();
    // a call that does not come back even on its own
    if let Some(k) = want.iter().position(|w| w.starts_with(GONE)) {
        let (f, doc, m) = (all[k].f, DOCS[all[k].doc], want[k].clone());
        return vec![("calls on their own".into(), Box::new(move |w| w.violation(&format!("call {} of {:?}", f, doc), format!("{} (a crash, or no return within 60 s)", m))))];
    }
    fn step(w: &mut Worker, all: &[Op], want: &[String], hist: &[usize]) -> bool {
        let k = *hist.last().unwrap();
        let op = &all[k];
        let text = format!("history {:?}: call {} of {:?} as {:?}", hist, op.f, DOCS[op.doc], NAMES[op.name]);
        w.begin(&text);
        let got = observe(op);
        w.end();
        w.state(h64(&(hist.len() > 1).then(|| hist[hist.len() - 2]).map(|p| (p, k))));
        w.transition(h64(&hist[..hist.len() - 1]), k as u64);
        w.outcome(h64(&got));
        if want[k].starts_with("Err") { w.stats.rejected += 1 } else { w.stats.accepted += 1 }
        if got != want[k] {
            w.violation(&text, format!("differs from the same call in a fresh process\n  fresh {}\n  here  {}", want[k], got));
            return false;
        }
        true
    }
    // every history of three calls (thorough: and of four over a part of them) as a window of one long history,
    // a de Bruijn sequence cut into overlapping pieces
    let mut windows = |name: &str, ks: Vec<usize>, len: usize| {
        let seq: Arc<Vec<usize>> = Arc::new(de_bruijn(ks.len(), len).into_iter().map(|i| ks[i]).collect());
        let m = seq.len();
        let piece = m.div_ceil(64);
        for p in (0..m).step_by(piece) {
            let (all, want, seq) = (all.clone(), want.clone(), seq.clone());
            tasks.push((name.to_string(), Box::new(move |w| {
                for i in p..(p + piece).min(m) + len - 1 {
                    if w.stopped() { return }
                    let hist: Vec<usize> = (i.saturating_sub(len - 1).max(p)..=i).map(|j| seq[j % m]).collect();
                    if !step(w, &all, &want, &hist) { return }
                }
            })));
        }
    };
    windows("every history of three calls on one thread", (0..n).collect(), 3);
    if thorough() { windows("every history of four calls, every third call", (0..n).step_by(3).collect(), 4) }
    // long histories: the same and alternating calls many times
    for a in 0..n {
        let (all, want) = (all.clone(), want.clone());
        tasks.push(("long repetitions".into(), Box::new(move |w| {
            let reps = if thorough() { 20000 } else { 700 };
            for i in 0..reps {
                if !step(w, &all, &want, &[if i % 3 == 2 { (a + 1) % n } else { a }]) { return }
            }
        })));
    }
    // every pair of operations from two threads started together
    for a in 0..n {
        let (all, want) = (all.clone(), want.clone());
        tasks.push(("pairs of concurrent calls (free-running)".into(), Box::new(move |w| {
            for b in 0..n {
                if w.stopped() { return }
                let bar = Arc::new(std::sync::Barrier::new(2));
                let hs: Vec<_> = [a, b].into_iter().map(|k| {
                    let (all, bar) = (all.clone(), bar.clone());
                    std::thread::spawn(move || { bar.wait(); (k, observe(&all[k])) })
                }).collect();
                let text = format!("concurrent {} and {}", a, b);
                w.begin(&text);
                for h in hs {
                    let (k, got) = h.join().unwrap();
                    if got != want[k] {
                        w.violation(&format!("{}: {:?}", text, DOCS[all[k].doc]), format!("differs from a fresh process\n  fresh {}\n  here  {}", want[k], got));
                    }
                }
                w.end();
                w.transition(h64(&("conc", a)), b as u64);
            }
        })));
    }
    // every interleaving of two calls at the points where they call user code
    let gated: Vec<usize> = (0..n).filter(|k| [3, 8].contains(&all[*k].f) && all[*k].name == 0 && [1, 4, 6, 8, 11, 13, 14, 17].contains(&all[*k].doc)).collect();
    for a in gated.clone() {
        let (all, want, gated) = (all.clone(), want.clone(), gated.clone());
        tasks.push(("every interleaving of two calls, switching wherever user code is called".into(), Box::new(move |w| {
            for &b in &gated {
                // one after the other: each passes all of its points
                let points = |k: usize| interleaved(&all[k], &all[k], [vec![0; 64], vec![1; 64]].concat()).2 / 2;
                let (pa, pb) = (points(a) + 1, points(b) + 1);
                let mut all_plans = Vec::new();
                plans(pa, pb, &mut Vec::new(), &mut |p| all_plans.push(p.to_vec()));
                for p in all_plans {
                    if w.stopped() { return }
                    let text = format!("interleaving {:?} of {} {:?} and {} {:?}", p, all[a].f, DOCS[all[a].doc], all[b].f, DOCS[all[b].doc]);
                    w.begin(&text);
                    let (x, y, _) = interleaved(&all[a], &all[b], p.clone());
                    w.end();
                    let mut h = h64(&(a, b));
                    for k in &p { let to = h64(&(h, *k)); w.transition(h, *k as u64); w.state(to); h = to }
                    w.outcome(h64(&(&x, &y)));
                    w.stats.accepted += 1;
                    for (k, got) in [(a, x), (b, y)] {
                        if got != want[k] {
                            w.violation(&text, format!("differs from a fresh process\n  fresh {}\n  here  {}", want[k], got));
                            return;
                        }
                    }
                }
            }
        })));
    }
    tasks
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum COp { SetA(u8), SetB(u8), SetC(u8), Emit, Same, Has }
#[derive(Clone, Debug, PartialEq)]
struct A(u8);
#[derive(Clone, Debug, PartialEq)]
struct B(u8); // same layout as A: only the type tells them apart
type C = String;
struct Z; // no size at all; comes and goes with C

const COPS: &[COp] = &[COp::SetA(1), COp::SetA(2), COp::SetB(1), COp::SetB(3), COp::SetC(1), COp::SetC(2), COp::Emit, COp::Same, COp::Has];

#[derive(Clone, Default, Debug, PartialEq)]
struct CModel { a: Option<u8>, b: Option<u8>, c: Option<u8>, errs: usize, msgs: Vec<String> }

fn cmsg(op: COp, k: usize) -> String { if op == COp::Same { "same error".into() } else { format!("error {}", k) } }
fn capply(op: COp, m: &mut CModel, k: usize) {
    match op {
        COp::SetA(x) => m.a = Some(x), COp::SetB(x) => m.b = Some(x), COp::SetC(x) => m.c = Some(x),
        COp::Emit | COp::Same => { m.errs += 1; m.msgs.push(cmsg(op, k)) } COp::Has => {}
    }
}
fn creal(op: COp, ctx: &mut knuffel::decode::Context<Span>, k: usize) {
    match op {
        COp::SetA(x) => ctx.set(A(x)), COp::SetB(x) => ctx.set(B(x)), COp::SetC(x) => { ctx.set::<C>(x.to_string()); ctx.set(Z) }
        COp::Emit | COp::Same => ctx.emit_error(knuffel::errors::DecodeError::Custom(cmsg(op, k).into())), COp::Has => {}
    }
}
fn ccheck(ctx: &knuffel::decode::Context<Span>, m: &CModel) -> Result<(), String> {
    let got = (ctx.get::<A>().map(|a| a.0), ctx.get::<B>().map(|b| b.0), ctx.get::<C>().cloned(), ctx.get::<u64>().copied());
    let want = (m.a, m.b, m.c.map(|x| x.to_string()), None);
    if got != want { return Err(format!("expected {:?}, found {:?}", want, got)) }
    if ctx.get::<Z>().is_some() != m.c.is_some() { return Err(format!("a value without a size: set {}, found {}", m.c.is_some(), ctx.get::<Z>().is_some())) }
    if ctx.has_errors() != (m.errs > 0) { return Err(format!("has_errors is {} after {} errors", ctx.has_errors(), m.errs)) }
    Ok(())
}

thread_local! {
    static SCRIPT: std::cell::RefCell<(Vec<COp>, usize, CModel, Result<(), String>)> = std::cell::RefCell::new((Vec::new(), 0, CModel::default(), Ok(())));
}

/// runs the next operation of the script when a node is decoded
#[derive(Debug)]
struct Step;
impl knuffel::Decode<Span> for Step {
    fn decode_node(n: &SpannedNode<Span>, ctx: &mut knuffel::decode::Context<Span>)
        -> Result<Self, knuffel::errors::DecodeError<Span>>
    {
        let ret = SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            let (i, op) = (s.1, s.0[s.1]);
            let r = ccheck(ctx, &s.2);
            if s.3.is_ok() { s.3 = r }
            capply(op, &mut s.2, i);
            s.1 += 1;
            // in a decoder an error may be returned instead of emitted
            if (op == COp::Emit || op == COp::Same) && i % 2 == 1 && n.children().len() == 0 { return Err(knuffel::errors::DecodeError::Custom(cmsg(op, i).into())) }
            creal(op, ctx, i);
            let r = ccheck(ctx, &s.2);
            if s.3.is_ok() { s.3 = r }
            Ok(())
        });
        for c in n.children() { <Step as knuffel::Decode<Span>>::decode_node(c, ctx)?; }
        ret.map(|_| Step)
    }
}
impl Default for Step { fn default() -> Self { Step } }

fn c25_one(before: &[COp], inside: &[COp], nested: bool) -> Result<u64, String> {
    let mut doc = String::new();
    if nested { for _ in inside { doc.push_str("n {\n") } for _ in inside { doc.push_str("}\n") } }
    else { for _ in inside { doc.push_str("n\n") } }
    SCRIPT.with(|s| *s.borrow_mut() = (inside.to_vec(), 0, CModel::default(), Ok(())));
    let mut pre: Result<(), String> = Ok(());
    let r = knuffel::parse_with_context::<Vec<Step>, Span, _>("doc.kdl", &doc, |ctx| {
        let mut m = CModel::default();
        for (i, op) in before.iter().enumerate() {
            creal(*op, ctx, 100 + i);
            capply(*op, &mut m, 100 + i);
            if pre.is_ok() { pre = ccheck(ctx, &m) }
        }
        SCRIPT.with(|s| s.borrow_mut().2 = m);
    });
    pre?;
    let (done, m, res) = SCRIPT.with(|s| { let s = s.borrow(); (s.1, s.2.clone(), s.3.clone()) });
    res?;
    // a returned error stops the nodes nested around it, nothing else
    if !nested && done != inside.len() { return Err(format!("only {} of {} nodes were decoded", done, inside.len())) }
    match r {
        Ok(v) => {
            if m.errs > 0 { return Err(format!("{} errors were raised but the parse succeeds", m.errs)) }
            if !nested && v.len() != inside.len() { return Err("node count".into()) }
        }
        Err(e) => {
            let mut got: Vec<String> = obs::diags(&e).into_iter().map(|d| d.msg).collect();
            if m.errs == 0 { return Err("no error was raised but the parse fails".into()) }
            let mut want = m.msgs.clone();
            got.sort();
            want.sort();
            if got != want { return Err(format!("errors {:?} were raised, {:?} are reported", want, got)) }
        }
    }
    Ok(h64(&format!("{:?}", m)))
}

pub fn c25() -> Vec<Task> {
    let depth = if thorough() { 6 } else { 5 };
    let n = COPS.len();
    let mut tasks: Vec<Task> = Vec::new();
    for first in 0..n * n {
        tasks.push(("all operation sequences, split between setup and decoders".into(), Box::new(move |w| {
            for len in 0..=depth {
                let total = if len < 2 { if first == 0 { n.pow(len as u32) } else { 0 } } else { n.pow(len as u32 - 2) };
                for i in 0..total {
                    let mut seq = Vec::new();
                    let mut k = i;
                    let rest = if len < 2 { len } else { seq.push(COPS[first / n]); seq.push(COPS[first % n]); len - 2 };
                    for _ in 0..rest { seq.push(COPS[k % n]); k /= n }
                    for split in 0..=len { for nested in [false, true] {
                        if w.stopped() { return }
                        let text = format!("setup {:?}, then decoders {:?}, nested: {}", &seq[..split], &seq[split..], nested);
                        w.begin(&text);
                        let r = catch_unwind(AssertUnwindSafe(|| c25_one(&seq[..split], &seq[split..], nested)))
                            .unwrap_or_else(|p| Err(format!("panicked: {}", crate::spaces::panic_msg(&p))));
                        w.end();
                        let mut m = CModel::default();
                        let mut from = h64(&format!("{:?}", m));
                        for op in &seq { capply(*op, &mut m, 0); let to = h64(&format!("{:?}", m)); w.state(to); w.transition(from, h64(op)); from = to }
                        if m.errs > 0 { w.stats.rejected += 1 } else { w.stats.accepted += 1 }
                        match r { Ok(o) => w.outcome(o), Err(e) => { w.violation(&text, e); return } }
                    } }
                }
            }
        })));
    }
    tasks
}

// ---------------------------------------------------------------- C26

pub const BUILTINS: &[(&str, BuiltinType)] = &[
    ("u8", BuiltinType::U8), ("i8", BuiltinType::I8), ("u16", BuiltinType::U16), ("i16", BuiltinType::I16),
    ("u32", BuiltinType::U32), ("i32", BuiltinType::I32), ("u64", BuiltinType::U64), ("i64", BuiltinType::I64),
    ("usize", BuiltinType::Usize), ("isize", BuiltinType::Isize), ("f32", BuiltinType::F32), ("f64", BuiltinType::F64),
    ("base64", BuiltinType::Base64),
];

pub fn c26_one(s: &str) -> Result<u64, String> {
    let known = BUILTINS.iter().find(|b| b.0 == s).map(|b| b.1.clone());
    let check = |what: &str, t: &TypeName| -> Result<(), String> {
        if t.as_str() != s { return Err(format!("{}: text is {:?}", what, t.as_str())) }
        if &**t != s { return Err(format!("{}: dereferences to {:?}", what, &**t)) }
        if t.to_string() != s { return Err(format!("{}: displays as {:?}", what, t.to_string())) }
        let b = t.as_builtin();
        // names that later versions make builtin are out of scope
        if known.is_some() && b != known.as_ref() { return Err(format!("{}: builtin is {:?}, expected {:?}", what, b, known)) }
        if let Some(b) = b { if b.as_str() != s { return Err(format!("{}: builtin {:?} is called {:?}", what, b, b.as_str())) } }
        Ok(())
    };
    let t = TypeName::from_str(s).map_err(|_| "infallible conversion failed")?;
    check("from string", &t)?;
    match (BuiltinType::from_str(s), &known) {
        (Ok(b), _) => {
            if b.as_str() != s { return Err(format!("builtin {:?} from {:?}", b, s)) }
            check("from builtin", &b.clone().as_type())?;
            let tn: TypeName = b.into();
            check("from builtin (into)", &tn)?;
            if tn != t { return Err("same name, unequal types".into()) }
        }
        (Err(()), Some(k)) => return Err(format!("{:?} is not recognised although {:?} is builtin", s, k)),
        (Err(()), None) => {}
    }
    // as written in documents: quoted everywhere, bare where it is an identifier
    let q = format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
    let mut forms = vec![q];
    if crate::refp::parse(s).map_or(false, |v| v.len() == 1 && v[0].name.0 == s && v[0].name.1 == (0, s.len()) && v[0].args.is_empty()) {
        forms.push(s.to_string());
    }
    for f in forms {
        let doc = format!("({f})n ({f})1 k=({f})2");
        match knuffel::parse_ast::<Span>("doc.kdl", &doc) {
            Err(e) => return Err(format!("{}: {}", doc, crate::pchecks::first_msg(&e))),
            Ok(d) => {
                let n = &d.nodes[0];
                for (what, t) in [("node type", n.type_name.as_ref()), ("argument type", n.arguments[0].type_name.as_ref()),
                                  ("property type", n.properties.values().next().unwrap().type_name.as_ref())] {
                    let Some(x) = t else { return Err(format!("{} missing", what)) };
                    check(what, x)?;
                    if x.as_builtin() != TypeName::from_str(s).unwrap().as_builtin() {
                        return Err(format!("{} differs from the type made from the string", what));
                    }
                }
            }
        }
    }
    Ok(h64(&known.map(|k| k.as_str())))
}

pub fn c26() -> Vec<Task> {
    let mut tasks: Vec<Task> = Vec::new();
    const T: &[&str] = &["u", "i", "f", "s", "z", "e", "b", "a", "6", "4", "8", "1", "3", "2"];
    let depth = if thorough() { 6 } else { 5 };
    fn one(w: &mut Worker, s: &str) {
        w.begin(s);
        let r = catch_unwind(AssertUnwindSafe(|| c26_one(s))).unwrap_or_else(|p| Err(format!("panicked: {}", crate::spaces::panic_msg(&p))));
        w.end();
        w.state(h64(&(s.len(), s.chars().next(), s.chars().last())));
        w.transition(h64(&s.chars().next_back().map(|c| &s[..s.len() - c.len_utf8()])), h64(&s.chars().last()));
        if BUILTINS.iter().any(|b| b.0 == s) { w.stats.accepted += 1 } else { w.stats.rejected += 1 }
        match r { Ok(o) => w.outcome(o), Err(m) => w.violation(s, m) }
    }
    fn rec(w: &mut Worker, s: &mut String, d: usize) {
        if w.stopped() { return }
        one(w, s);
        if d == 0 { return }
        for t in T { s.push_str(t); rec(w, s, d - 1); s.truncate(s.len() - t.len()) }
    }
    tasks.push(("all names over the letters of the builtin names".into(), Box::new(|w| rec(w, &mut String::new(), 1))));
    for a in T { for b in T {
        tasks.push(("all names over the letters of the builtin names".into(), Box::new(move |w| rec(w, &mut format!("{}{}", a, b), depth - 2))));
    } }
    tasks.push(("builtin names and every edit of distance 1".into(), Box::new(|w| {
        for (b, _) in BUILTINS {
            one(w, b);
            for i in 0..=b.len() {
                for c in "uifszebaAUIF0123456789 _-\u{e9}\"\\".chars() {
                    one(w, &format!("{}{}{}", &b[..i], c, &b[i..]));
                    if i < b.len() { one(w, &format!("{}{}{}", &b[..i], c, &b[i + 1..])) }
                }
                if i < b.len() { one(w, &format!("{}{}", &b[..i], &b[i + 1..])) }
            }
            one(w, &b.to_uppercase());
        }
    })));
    let es: Arc<Vec<char>> = Arc::new(crate::spaces::edge_scalars());
    for (b, _) in BUILTINS {
        let es = es.clone();
        tasks.push(("builtin names with any other character in any place".into(), Box::new(move |w| {
            for i in 0..=b.len() { for c in es.iter() {
                if w.stopped() { return }
                one(w, &format!("{}{}{}", &b[..i], c, &b[i..]));
                one(w, &format!("{}{}{}{}", &b[..i], c, c, &b[i..]));
                if i < b.len() { one(w, &format!("{}{}{}", &b[..i], c, &b[i + 1..])) }
            } }
            for (c, _) in BUILTINS { for s in ["", " ", "-", ",", "\0"] { one(w, &format!("{}{}{}", b, s, c)) } }
        })));
    }
    for k in 0..64u64 {
        tasks.push(("every scalar around a builtin name".into(), Box::new(move |w| {
            for i in (k..1_112_064).step_by(64) {
                if w.stopped() { return }
                let c = crate::spaces::scalar(i);
                one(w, &format!("u8{}", c));
                if thorough() { one(w, &format!("{}base64", c)) }
            }
        })));
    }
    tasks.push(("every scalar as a type name".into(), Box::new(|w| {
        let n = if thorough() { 0x110000 } else { 0x3000 };
        for c in (0..n).filter_map(char::from_u32) { if w.stopped() { return } one(w, &c.to_string()) }
    })));
    tasks
}
