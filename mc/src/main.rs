use mc::{api, docs, engine, gdocs, hist, pchecks, refp, spaces};

use engine::*;
use std::process::{exit, Command};

struct Prop {
    rule: &'static str,
    tasks: fn() -> Vec<Task>,
    /// re-run one input; None: the property is not about single documents
    one: Option<fn() -> spaces::Check>,
}

fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop {
            rule: "every document of each listed space; verdict of knuffel::parse_ast against the reference KDL 1.0 recogniser",
            tasks: || docs::common(&pchecks::c01()),
            one: Some(pchecks::c01),
        },
        "C02" => Prop {
            rule: "every document of each listed space; tree (names, types, order, values, properties, children) against the reference model",
            tasks: || docs::common(&pchecks::tree()),
            one: Some(pchecks::tree),
        },
        "C05" => Prop {
            rule: "every base document x every choice of trivia in at most 2 (thorough: 3) slots; tree equals the tree the document was built from",
            tasks: || { let mut t = gdocs::c05(); t.extend(docs::elements(&pchecks::tree())); t.extend(docs::trivia_chars(&pchecks::tree())); t },
            one: Some(pchecks::tree),
        },
        "C06" => Prop {
            rule: "every base document x every subset of its elements prefixed by `/-`, with every gap and neighbouring trivia for small subsets; tree equals the construction without those elements",
            tasks: || { let mut t = gdocs::c06(); t.extend(docs::slashdash(&pchecks::tree())); t },
            one: Some(pchecks::tree),
        },
        "C03" => Prop {
            rule: "every Unicode scalar, escape and raw-string delimiter combination in each listed space; decoded text against the reference model, malformed strings rejected",
            tasks: || docs::strings(&pchecks::tree()),
            one: Some(pchecks::tree),
        },
        "C04" => Prop {
            rule: "every number text of each listed space; value in every integer width and both float widths against exact arithmetic, malformed numbers rejected",
            tasks: || docs::numbers(&pchecks::c04()),
            one: Some(pchecks::c04),
        },
        "C09" => Prop {
            rule: "every document of each listed space through every entry point and report renderer, and decoded into derived types of every kind; no panic, no hang, diagnostics present",
            tasks: || { let mut t = docs::common(&pchecks::c09()); t.extend(docs::bad_escapes(&pchecks::c09())); t.extend(docs::pumps(&pchecks::c09())); t },
            one: Some(pchecks::c09),
        },
        "C10" => Prop {
            rule: "every rejected document of each listed space; position and wording of every diagnostic against the reference model's open constructs",
            tasks: || docs::common(&pchecks::c10()),
            one: Some(pchecks::c10),
        },
        "C11" => Prop {
            rule: "every history of three calls over the call alphabet (windows of a de Bruijn sequence), long alternations, every interleaving of two calls at user code, concurrent pairs; each observation against the same call in a fresh process",
            tasks: hist::c11,
            one: None,
        },
        "C25" => Prop {
            rule: "every sequence of context operations up to the depth, split at every point between the setup callback and decoders, against a map model",
            tasks: hist::c25,
            one: None,
        },
        "C26" => Prop {
            rule: "every name of each listed space, through every way of making a type name, against the table of builtin names",
            tasks: hist::c26,
            one: None,
        },
        "C23" => Prop {
            rule: "every valid document of each listed space decoded into node, value and literal types, compared with the parsed tree",
            tasks: || docs::common(&pchecks::c23()),
            one: Some(pchecks::c23),
        },
        "C24" => Prop {
            rule: "every valid document of each listed space, with both span types, encoded and decoded back",
            tasks: || docs::common(&pchecks::c24()),
            one: Some(pchecks::c24),
        },
        "C07" => Prop {
            rule: "every document of each listed space; every byte span in the tree against the reference model",
            tasks: || docs::common(&pchecks::c07()),
            one: Some(pchecks::c07),
        },
        "C08" => Prop {
            rule: "every document of each listed space; line, column and offset of every span against a recount from the start of the text",
            tasks: || docs::common(&pchecks::c08()),
            one: Some(pchecks::c08),
        },
        "C30" => Prop {
            rule: "every valid document of each listed space, with both span types; every pair of span-carrying values (names, types, literals, nodes, blocks) compared, hashed, ordered, mapped and looked up like the values they carry",
            tasks: || docs::common(&api::c30()),
            one: Some(api::c30),
        },
        "C31" => Prop {
            rule: "every valid document of each listed space x every constructor of a decoding error x every message, raised at every element of the tree; the report lists each once, as given, at its element",
            tasks: api::c31_tasks,
            one: Some(api::c31),
        },
        _ => return None,
    })
}

fn samples(tasks: &[Task]) -> Vec<String> {
    let _ = tasks;
    Vec::new()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() { eprintln!("usage: mc ID [--replay FILE | --one JSON-FREE-TEXT-FILE]"); exit(2) }
    let id = args[0].clone();
    let Some(p) = prop(&id) else { eprintln!("unknown property {}", id); exit(2) };
    match args.get(1).map(|s| &s[..]) {
        // one document from a file: exit 0 ok, 1 violation (used for crash triage and replays)
        Some("--one") => {
            let doc = std::fs::read_to_string(&args[2]).expect("input file");
            let Some(c) = p.one else { eprintln!("no single-document form"); exit(2) };
            let c = c();
            match spaces::guarded(&doc, &refp::run(&doc), &c) {
                Ok(_) => { println!("holds on this input"); exit(0) }
                Err(m) => { println!("violated: {}", m); exit(1) }
            }
        }
        Some("--replay") => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let line = t.lines().find_map(|l| l.strip_prefix("input (JSON string): ")).expect("input line");
            let doc = unjson(line);
            let Some(c) = p.one else { println!("input: {}", doc); println!("(histories are replayed by rerunning the check)"); exit(2) };
            match spaces::guarded(&doc, &refp::run(&doc), &c()) {
                Ok(_) => { println!("holds on this input"); exit(0) }
                Err(m) => { println!("violated: {}", m); exit(1) }
            }
        }
        Some("--fresh") => hist::fresh(args[2].parse().unwrap()),
        Some("--deep") => deep(&args[2], args[3].parse().unwrap()),
        Some("--child") => {
            if id == "C09" { deep_probes() }
            std::panic::set_hook(Box::new(|_| {}));
            let tasks = (p.tasks)();
            let s = samples(&tasks);
            let r = run(&id, tasks);
            conclude(&id, &r, p.rule, &s);
        }
        _ => {
            let one: [&str; 2] = [&id, "--one"];
            supervise(&id, &[&id, "--child"], p.one.is_some().then_some(&one[..]), p.rule)
        }
    }
}

/// one nesting probe on a thread with the usual 8 MiB stack
fn deep(kind: &str, n: usize) {
    let doc = match kind {
        "braces" => "a {\n".repeat(n) + &"}\n".repeat(n),
        "unclosed-braces" => "a {\n".repeat(n),
        "comments" => format!("a {}{} 1", "/*".repeat(n), "*/".repeat(n)),
        "unclosed-comments" => format!("a {}", "/*".repeat(n)),
        "slashdash-braces" => "/-a {\n".repeat(n) + &"}\n".repeat(n),
        _ => exit(2),
    };
    let unclosed = kind.starts_with("unclosed");
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let r = knuffel::parse_ast::<knuffel::span::Span>("doc.kdl", &doc);
        let ok = r.is_ok();
        std::mem::forget(r);
        if ok != unclosed { exit(0) } else { exit(1) }
    }).unwrap().join().unwrap();
}



/// Nesting that ordinary stacks must carry, and the recorded finding that
/// very deep nesting overflows the stack.
fn deep_probes() {
    let exe = std::env::current_exe().unwrap();
    let known = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    for kind in ["braces", "unclosed-braces", "comments", "unclosed-comments", "slashdash-braces"] {
        for n in [1usize, 16, 64, 128, 5000] {
            let t0 = std::time::Instant::now();
            let mut ch = Command::new(&exe).args(["C09", "--deep", kind, &n.to_string()])
                .stderr(std::process::Stdio::null()).spawn().unwrap();
            let st = loop {
                if let Some(s) = ch.try_wait().unwrap() { break Some(s) }
                if t0.elapsed().as_secs() > HANG_S * 2 { let _ = ch.kill(); let _ = ch.wait(); break None }
                std::thread::sleep(std::time::Duration::from_millis(2));
            };
            if st.map_or(false, |s| s.success()) { continue }
            let id = format!("deep-nesting/{}/{}", kind, n);
            let what = match st { None => "does not return".to_string(), Some(s) if s.code().is_none() => "aborts the process (stack overflow)".into(), Some(_) => "gives the wrong verdict".into() };
            if known.lines().any(|l| l.starts_with("KNOWN-FINDING: property=C09 ") && l.contains(&format!("[{}]", id)))
                && st.map_or(false, |s| s.code().is_none()) {
                println!("KNOWN-FINDING: property=C09 [{}] {} levels of nested {}: parsing {}", id, n, kind, what);
                continue;
            }
            let r = Report {
                stats: Stats::default(), per_space: Default::default(), wall: t0.elapsed().as_secs_f64(),
                violations: vec![Violation { input: format!("{} levels of {}", n, kind), msg: what, space: "nesting probes".into() }],
            };
            conclude("C09", &r, "nesting probes", &[]);
        }
    }
}
