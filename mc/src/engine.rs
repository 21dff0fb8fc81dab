//! Exploration engine: parallel, deterministic enumeration of finite spaces of
//! documents, with crash/hang supervision, shrinking, replay files and
//! evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SLOT: u64 = 1 << 16;
/// A single call on one bounded document takes well under a second; this is
/// the horizon after which it counts as not terminating.
pub const HANG_S: u64 = 30;

#[derive(Clone, Debug)]
pub struct Violation {
    /// the input (document text, or a description of the history)
    pub input: String,
    pub msg: String,
    pub space: String,
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub states: HashSet<u64>,
    pub transitions: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
}

pub fn h64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    // fixed keys: deterministic
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Worker {
    pub stats: Stats,
    slot: usize,
    shared: Arc<Shared>,
    pub space: String,
    /// signature of the state the current transition starts from
    pub from: u64,
}

pub struct Shared {
    stop: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    busy: Vec<AtomicU64>, // millis since start + 1 when the current run began; 0 idle
    t0: Instant,
    current: Vec<Mutex<String>>,
    slots: Option<std::fs::File>,
    id: String,
}

impl Worker {
    pub fn stopped(&self) -> bool { self.shared.stop.load(SeqCst) }
    /// Mark the beginning of one execution of the implementation on `input`.
    pub fn begin(&mut self, input: &str) {
        self.stats.runs += 1;
        if self.stats.runs.is_power_of_two() && self.stats.runs >= 64 {
            let t: String = input.chars().take(160).collect();
            self.stats.samples.push(t);
        }
        {
            let mut c = self.shared.current[self.slot].lock().unwrap();
            c.clear();
            c.push_str(input);
        }
        if let Some(f) = &self.shared.slots {
            let b = input.as_bytes();
            let n = b.len().min(SLOT as usize - 8);
            let mut buf = Vec::with_capacity(n + 8);
            buf.extend_from_slice(&(b.len() as u64).to_le_bytes());
            buf.extend_from_slice(&b[..n]);
            let _ = f.write_at(&buf, self.slot as u64 * SLOT);
        }
        let now = self.shared.t0.elapsed().as_millis() as u64 + 1;
        self.shared.busy[self.slot].store(now, SeqCst);
    }
    pub fn end(&mut self) {
        self.shared.busy[self.slot].store(0, SeqCst);
    }
    pub fn state(&mut self, sig: u64) { self.stats.states.insert(sig); }
    pub fn transition(&mut self, from: u64, label: u64) {
        self.stats.transitions.insert(from.rotate_left(17) ^ label);
    }
    pub fn outcome(&mut self, o: u64) {
        if self.stats.outcomes.len() < 2_000_000 { self.stats.outcomes.insert(o); }
    }
    pub fn violation(&self, input: &str, msg: String) {
        self.shared.violations.lock().unwrap().push(Violation {
            input: input.to_string(), msg, space: self.space.clone() });
        self.shared.stop.store(true, SeqCst);
    }
}

pub type Task = (String, Box<dyn Fn(&mut Worker) + Send + Sync>);

pub struct Report {
    pub stats: Stats,
    pub per_space: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub wall: f64,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

/// Runs every task to completion (unless a violation is found).
pub fn run(id: &str, tasks: Vec<Task>) -> Report {
    let n = threads();
    let slots = std::env::var("MC_SLOTS").ok()
        .and_then(|p| std::fs::OpenOptions::new().write(true).create(true).open(p).ok());
    let shared = Arc::new(Shared {
        stop: AtomicBool::new(false),
        violations: Mutex::new(Vec::new()),
        busy: (0..n).map(|_| AtomicU64::new(0)).collect(),
        t0: Instant::now(),
        current: (0..n).map(|_| Mutex::new(String::new())).collect(),
        slots,
        id: id.to_string(),
    });
    let next = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicBool::new(false));
    // hang monitor
    let mon = {
        let shared = shared.clone();
        let done = done.clone();
        std::thread::spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = shared.t0.elapsed().as_millis() as u64;
                for i in 0..shared.busy.len() {
                    let b = shared.busy[i].load(SeqCst);
                    if b != 0 && now > b + HANG_S * 1000 {
                        let input = shared.current[i].lock().unwrap().clone();
                        let v = Violation {
                            input,
                            msg: format!("call did not return within {} s", HANG_S),
                            space: "hang monitor".into(),
                        };
                        let r = Report {
                            stats: Stats::default(), per_space: BTreeMap::new(),
                            violations: vec![v], wall: shared.t0.elapsed().as_secs_f64(),
                        };
                        conclude(&shared.id, &r, "", &[]);
                    }
                }
            }
        })
    };
    let tasks = Arc::new(tasks);
    let mut hs = Vec::new();
    for slot in 0..n {
        let shared = shared.clone();
        let next = next.clone();
        let tasks = tasks.clone();
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut w = Worker { stats: Stats::default(), slot, shared, space: String::new(), from: 0 };
            let mut per: BTreeMap<String, u64> = BTreeMap::new();
            loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= tasks.len() || w.stopped() { break }
                let before = w.stats.runs;
                w.space = tasks[i].0.clone();
                (tasks[i].1)(&mut w);
                *per.entry(tasks[i].0.clone()).or_default() += w.stats.runs - before;
            }
            (w.stats, per)
        }).unwrap());
    }
    let mut total = Stats::default();
    let mut per_space: BTreeMap<String, u64> = BTreeMap::new();
    for h in hs {
        let (s, p) = h.join().expect("worker");
        total.runs += s.runs;
        total.accepted += s.accepted;
        total.rejected += s.rejected;
        total.states.extend(s.states);
        total.transitions.extend(s.transitions);
        total.outcomes.extend(s.outcomes);
        total.samples.extend(s.samples.into_iter().take(6));
        for (k, v) in p { *per_space.entry(k).or_default() += v }
    }
    done.store(true, SeqCst);
    let _ = mon.join();
    let wall = shared.t0.elapsed().as_secs_f64();
    let mut violations = std::mem::take(&mut *shared.violations.lock().unwrap());
    violations.sort_by(|a, b| (a.input.len(), &a.input).cmp(&(b.input.len(), &b.input)));
    Report { stats: total, per_space, violations, wall }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) > 0x7e => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}
pub fn thorough() -> bool { tier() == "thorough" }

pub fn evdir() -> String {
    std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into())
}

/// Write evidence, print the verdict, exit.
pub fn conclude(id: &str, r: &Report, rule: &str, samples: &[String]) -> ! {
    let dir = evdir();
    let _ = std::fs::create_dir_all(&dir);
    let mut o = String::new();
    o.push_str(&format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n",
        jstr(id), jstr(&tier()),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0)));
    o.push_str(" \"coverage\": {\n");
    o.push_str(&format!("  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n",
        r.stats.states.len(), r.stats.transitions.len(), r.stats.runs));
    o.push_str(&format!("  \"accepted\": {}, \"rejected\": {}, \"distinct_outcomes\": {},\n",
        r.stats.accepted, r.stats.rejected, r.stats.outcomes.len()));
    o.push_str(&format!("  \"exhaustive\": {},\n", r.violations.is_empty()));
    o.push_str(&format!("  \"rule\": {},\n", jstr(rule)));
    o.push_str("  \"per_space\": {");
    o.push_str(&r.per_space.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n  \"samples\": [");
    let samples: Vec<String> = samples.iter().chain(&r.stats.samples).cloned().collect();
    o.push_str(&samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    o.push_str("]\n },\n");
    o.push_str(&format!(" \"wall_s\": {:.2}, \"violations\": {}\n}}\n", r.wall, r.violations.len()));
    let _ = std::fs::write(format!("{}/{}.json", dir, id), o);
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "{}: runs={} states={} transitions={} accepted={} rejected={} outcomes={} wall={:.1}s",
        id, r.stats.runs, r.stats.states.len(), r.stats.transitions.len(),
        r.stats.accepted, r.stats.rejected, r.stats.outcomes.len(), r.wall);
    if let Some(v) = r.violations.first() {
        let path = format!("{}/{}.replay.txt", dir, id);
        let body = format!("property: {}\nspace: {}\nproblem: {}\ninput (JSON string): {}\n\nreplay: /verif/run.sh {} --replay {}\n",
            id, v.space, v.msg, jstr(&v.input), id, path);
        let _ = std::fs::write(&path, &body);
        let _ = writeln!(out, "{}", body);
        let _ = writeln!(out, "VIOLATION property={} replay={}", id, path);
        let _ = out.flush();
        std::process::exit(1);
    }
    let _ = out.flush();
    std::process::exit(0);
}

/// Greedy deletion shrinker over characters: deterministic, bounded.
pub fn shrink(input: &str, fails: &dyn Fn(&str) -> Option<String>, msg: &mut String) -> String {
    let mut cur: Vec<char> = input.chars().collect();
    let t0 = Instant::now();
    let mut size = (cur.len() / 2).max(1);
    loop {
        let mut changed = false;
        let mut i = 0;
        while i + size <= cur.len() {
            if t0.elapsed().as_secs() > 10 { return cur.into_iter().collect() }
            let mut t = cur.clone();
            t.drain(i..i + size);
            let s: String = t.iter().collect();
            if let Some(m) = fails(&s) {
                *msg = m;
                cur = t;
                changed = true;
            } else {
                i += 1;
            }
        }
        if size > 1 { size /= 2 } else if !changed { break }
    }
    cur.into_iter().collect()
}

pub fn unjson(s: &str) -> String {
    let mut out: Vec<u16> = Vec::new();
    let mut it = s.trim().trim_start_matches('"').chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '"' => break,
            '\\' => match it.next() {
                Some('n') => out.push(10), Some('r') => out.push(13), Some('t') => out.push(9),
                Some('u') => {
                    let h: String = (0..4).filter_map(|_| it.next()).collect();
                    out.push(u16::from_str_radix(&h, 16).unwrap());
                }
                Some(c) => out.extend(c.encode_utf16(&mut [0; 2]).iter()),
                None => break,
            },
            c => out.extend(c.encode_utf16(&mut [0; 2]).iter()),
        }
    }
    String::from_utf16(&out).unwrap()
}

/// Runs the exploration in a child; if the implementation kills the child
/// (stack overflow, abort), find out which input does and report that.
pub fn supervise(id: &str, child: &[&str], one: Option<&[&str]>, rule: &str) -> ! {
    use std::os::unix::fs::FileExt;
    use std::os::unix::process::ExitStatusExt;
    use std::process::{exit, Command};
    let dir = evdir();
    let _ = std::fs::create_dir_all(&dir);
    let slots = format!("{}/{}.slots", dir, id);
    let _ = std::fs::remove_file(&slots);
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let st = Command::new(&exe).args(child).env("MC_SLOTS", &slots).status().expect("spawn");
    if let Some(c) = st.code() {
        let _ = std::fs::remove_file(&slots);
        exit(c)
    }
    eprintln!("exploration was killed by signal {:?}; looking for the input", st.signal());
    let (mut verdict, mut last) = (None, Vec::new());
    if let Ok(f) = std::fs::File::open(&slots) {
        for i in 0..threads() as u64 {
            let mut b = [0u8; 8];
            if f.read_at(&mut b, i * SLOT).unwrap_or(0) < 8 { continue }
            let n = u64::from_le_bytes(b);
            if n > SLOT - 8 { continue }
            let mut d = vec![0; n as usize];
            if f.read_exact_at(&mut d, i * SLOT + 8).is_err() { continue }
            let text = String::from_utf8_lossy(&d).into_owned();
            last.push(text.clone());
            let Some(one) = one else { continue };
            let path = format!("{}/{}.one", dir, id);
            let _ = std::fs::write(&path, &d);
            let s = Command::new(&exe).args(one).arg(&path).status().expect("spawn");
            let _ = std::fs::remove_file(&path);
            if s.code().is_none() && verdict.as_ref().map_or(true, |v: &String| text.len() < v.len()) { verdict = Some(text) }
        }
    }
    let _ = std::fs::remove_file(&slots);
    // killed from outside (out of memory, a time limit) is no verdict; a fault of the code itself is
    let own = matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11));
    let found = match verdict {
        Some(d) => Some((d, "the process is killed by a signal".to_string())),
        None if own => Some((last.first().cloned().unwrap_or_default(),
            format!("the exploration is killed by signal {:?} while these inputs are running: {:?}", st.signal(), last))),
        None => None,
    };
    match found {
        Some((input, msg)) => {
            let r = Report {
                stats: Stats::default(), per_space: Default::default(), wall: t0.elapsed().as_secs_f64(),
                violations: vec![Violation { input, msg, space: "crash triage".into() }],
            };
            conclude(id, &r, rule, &[])
        }
        None => { eprintln!("no input reproduces the crash: error of the check"); exit(3) }
    }
}
