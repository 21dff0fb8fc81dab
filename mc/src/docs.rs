//! The shared document spaces for properties about parsing text into a tree.
use crate::engine::{thorough, Task};
use crate::spaces::*;
use std::sync::Arc;

pub const CHARS: &[&str] = &["a", "1", " ", "\"", "/", "*", "-", "{", "}", ";", "=", "(", ")",
    "\n", "r", "#", "\\", "é", "\r", "."];
pub const TOKENS: &[&str] = &["a", " ", "\n", ";", "{", "}", "1", "\"b\"", "=", "/-", "(t)", "b",
    "true", "r#\"c\"#", "/*c*/", "//c", "\\\n", "-", "null", "\r\n", "2.5e1", "\"\"", "é", "/", "\t"];
pub const PROBES: &[&str] = &["\n", " 1\n", "=1\n", ";b\n", "}\n", ";}\n", "{\nc 2\n}\n", "\"\n",
    "*/\n", "\"#\n", "a\n", " /-b=1 c=2\n", " \\\n 3\n", "(t)x\n", ") 1\n", "//z\n", "\n}\n}\n"];

pub const STRING_TOK: &[&str] = &["\"", "\\", "a", "n", "u{", "}", "0", "d", "8", "1", "\n", "é", "/", "r", "u", "{"];
pub const RAW_TOK: &[&str] = &["r", "#", "\"", "a", " ", "\\", "=", "1", "\n"];
pub const NUM_TOK: &[&str] = &["0", "1", "9", "_", "-", "+", ".", "e", "E", "x", "b", "o", "a", "f"];
pub const COM_TOK: &[&str] = &["/*", "*/", "/", "*", "a", "\n", "//", " ", "-"];
pub const NL_TOK: &[&str] = &["\r", "\n", "\r\n", "\x0c", "\u{85}", "\u{2028}", "\u{2029}", "a", " ", "\\", "//x", "\t", "中", "{", "}", ";"];

/// templates with a hole `@` for one character: every lexical position
pub const CHAR_TEMPLATES: &[&str] = &["@", "a@", "@a", "a @", "a @=1", "a b@=1", "a b@c=1", "a@b", "a 1@", "a 1@2",
    "a \"@\"", "a r\"@\"", "a r#\"@\"#", "(@)a", "(t@)a", "(t)@a", "a (@)1", "a b=@", "a b@=1 c=2", "a /*@*/ 1", "a //@\nb",
    "a \"\\@\"", "a \"\\u{@}\"", "a {@}", "a {@\n}", "a;@b", "a\\@b", "a \\ @ 1", "/-@a", "/-a@\nb", "a /-@1 2", "a /-1@ 2",
    "a 0x@", "a 0b1@", "a 1.@", "a 1e@", "a true@", "a -@", "-@", "+@", "a @1", "a 1 @{}", "a {b;@}", "a {}@", "a;\u{20}@",
    "a /*/@*/ 1", "a /**@*/ 1", "a /*@/ */ 1", "a /*@**/ 1", "a /*x/@/*@*/*/ 1", "a \\//@\n1", "a \\ /*@*/\n1", "a //@", "//@\na", "a r#\"\"@\"#", "a \"\\n@\"", "a {//@\n}",
    "a /-/*@*/1", "/-/*/@*/a\nb", "a /*\n@\n*/ 1"];

pub const SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,
    26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 40, 48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201,
    255, 256, 257, 299, 300, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025];

pub fn size_docs() -> Vec<String> {
    let mut v = Vec::new();
    let big: &[usize] = &[2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537];
    for &n in SIZES {
        v.push("a\n".repeat(n));
        v.push("a;".repeat(n));
        v.push(format!("a{}", " 1".repeat(n)));
        v.push(format!("a{}", " \"s\"".repeat(n)));
        v.push((0..n).fold("a".to_string(), |s, i| format!("{} k{}={}", s, i, i)));
        v.push((0..n).fold("a".to_string(), |s, i| format!("{} k={}", s, i)));
        v.push((0..n).fold("a".to_string(), |s, i| format!("{} {} k{}={}", s, i, i % 7, i)));
        v.push(format!("a {{\n{}}}", "b 1\n".repeat(n)));
        v.push(format!("a {{{}}}", "b;".repeat(n)));
        v.push(format!("a{}1", " ".repeat(n)));
        v.push(format!("a{}b", "\n".repeat(n)));
        v.push(format!("{}b", "\r\n".repeat(n)));
        v.push(format!("{}a", "//c\n".repeat(n)));
        v.push(format!("a{} 1", "/*c*/".repeat(n)));
        v.push(format!("a{} 1", " \\\n".repeat(n)));
        v.push(format!("{}b", "/-a\n".repeat(n)));
        v.push(format!("a{} 2", " /-1".repeat(n)));
        v.push(format!("a /*{}*/ 1", "*".repeat(n)));
        v.push(format!("a //{}\nb", "/".repeat(n)));
        // left open
        v.push(format!("a {{{}", "b".repeat(n)));
        v.push(format!("a {{b {{c}}\n{}", "b 1\n".repeat(n)));
        v.push(format!("a \"{}", "s".repeat(n)));
        v.push(format!("a k=\"{}", "é".repeat(n)));
        v.push(format!("a r##\"{}\"#", "s".repeat(n)));
        v.push(format!("a /*{}", "c".repeat(n)));
        v.push(format!("a {{\n/*{}", "é\n".repeat(n)));
        v.push(format!("a ({}", "t".repeat(n)));
        v.push(format!("{}{{", "a\n".repeat(n)));
        v.push(format!("{} b {{", "a;".repeat(n)));
    }
    for &n in SIZES.iter().filter(|n| **n <= 300) {
        // nested constructs
        v.push(format!("{}{}", "a {\n".repeat(n.min(40)), "}\n".repeat(n.min(40))));
        v.push(format!("{}x 1\n{}", "a {\n".repeat(n.min(40)), "}\n".repeat(n.min(40))));
        v.push(format!("{}{}", "a {\n".repeat(n.min(40)), "}\n".repeat((n + 1).min(41))));
        v.push(format!("{}{}", "a {\n".repeat((n + 1).min(41)), "}\n".repeat(n.min(40))));
        v.push(format!("a {}{} 1", "/*".repeat(n), "*/".repeat(n)));
        v.push(format!("a {}{} 1", "/*".repeat(n), "*/".repeat(n + 1)));
        v.push(format!("a {}{} 1", "/*".repeat(n + 1), "*/".repeat(n)));
    }
    let mut lens: Vec<usize> = SIZES.to_vec();
    lens.extend_from_slice(big);
    for &n in &lens {
        v.push("a".repeat(n));
        v.push(format!("a {}=1", "k".repeat(n)));
        v.push(format!("a \"{}\"", "s".repeat(n)));
        v.push(format!("a \"{}\"", "é".repeat(n)));
        v.push(format!("a \"{}\"", "\\n".repeat(n)));
        v.push(format!("a r\"{}\"", "s".repeat(n)));
        v.push(format!("({})a", "t".repeat(n)));
        v.push(format!("a {}", "9".repeat(n)));
        v.push(format!("a 0x{}", "f".repeat(n)));
        v.push(format!("a 0.{}", "5".repeat(n)));
        v.push(format!("a 1{}", "_".repeat(n)));
    }
    for n in 0..300usize {
        let h = "#".repeat(n);
        v.push(format!("a r{h}\"x\"{h}", h = h));
        v.push(format!("r{h}\"x\"{h} k=r{h}\"\"{g}z\"{h}", h = h, g = if n > 0 { "#".repeat(n - 1) } else { "".into() }));
        v.push(format!("a r{h}#\"x\"{h}", h = h));
        v.push(format!("a r{h}\"x\"{h}#", h = h));
    }
    v
}

const TYPES: &[&str] = &["", "(t)", "(u8)", "(\"q t\")", "(r#\"x\"y\"#)", "(-)"];
const LITS: &[&str] = &["\"s\"", "r#\"s\"\\t\"#", "\"\"", "\"\\u{e9}\\n\"", "1", "-0x1_F", "2.5e-1", "1E5", "0b1", "+0o7", "true", "false", "null"];
const KEYS: &[&str] = &["k", "\"q q\"", "r\"k\"", "-k", "\"1\"", "\"\"", "truex"];
const NAMES: &[&str] = &["a", "\"q n\"", "r#\"x\"#", "-", "--x", "\"\"", "é!"];
const KIDS: &[&str] = &["", " {}", "{c;}", " {\nc 1\n(t)d k=2;}", " /-{c;}", " {/-c\n}", " {c{d{};}\n}"];

fn values() -> Vec<String> {
    TYPES.iter().flat_map(|t| LITS.iter().map(move |l| format!("{}{}", t, l))).collect()
}
fn entries() -> Vec<String> {
    let v = values();
    let mut e: Vec<String> = v.clone();
    for k in KEYS { for x in &v { e.push(format!("{}={}", k, x)) } }
    e
}

/// documents put together from every form of every element
pub fn elements(check: &Check) -> Vec<Task> {
    let th = thorough();
    let mut t = Vec::new();
    let e = Arc::new(entries());
    let n = e.len() as u64;
    let heads: Arc<Vec<String>> = Arc::new(TYPES.iter().flat_map(|t| NAMES.iter().map(move |n| format!("{}{}", t, n))).collect());
    let hn = heads.len() as u64;
    let kn = KIDS.len() as u64;
    // every header x entry (or its slash-dashed form) x children
    let (e1, h1) = (e.clone(), heads.clone());
    let step = if th { 1 } else { 7 };
    t.extend(indexed("header x entry x children", n * 2 * hn * kn / step, check, move |i| {
        let i = i * step + i / hn % step;
        let x = &e1[(i / 2 % n) as usize];
        format!("{} {}{}{}", h1[(i / 2 / n % hn) as usize], if i % 2 == 0 { "" } else { "/-" }, x, KIDS[(i / 2 / n / hn % kn) as usize])
    }));
    let e1 = e.clone();
    t.extend(indexed("pairs of entries", n * n, check, move |i| {
        format!("a {} {}", e1[(i / n) as usize], e1[(i % n) as usize])
    }));
    // fewer forms, longer sequences
    let few: Arc<Vec<String>> = Arc::new(["1", "(t)\"s\"", "k=1", "k=(t)2", "\"k\"=null", "r\"k\"=\"x\"", "j=true", "/-1", "/-k=3", "/- (t)null", "null", "(u8)-1", "l=2.5"]
        .iter().map(|s| s.to_string()).collect());
    let m = few.len() as u64;
    let len = if th { 5 } else { 4 };
    t.extend(indexed("sequences of entries", m.pow(len), check, move |i| {
        let mut s = String::from("a");
        let mut i = i;
        for _ in 0..len { s.push(' '); s.push_str(&few[(i % m) as usize]); i /= m }
        s
    }));
    // how many of which kind stand before: every arrangement of numbered arguments, new and repeated properties, and left-out ones
    let len = if th { 9 } else { 7 };
    t.extend(indexed("arrangements of entries", 4u64.pow(len), check, move |i| {
        let mut s = String::from("a");
        for p in 0..len { s += &match i >> (2 * p) & 3 { 0 => format!(" {}", p), 1 => format!(" k{}={}", p, p), 2 => format!(" k={}", p), _ => format!(" /-{}", p) } }
        s
    }));
    // the same of nodes: bare, with an entry, with a block, left out; at document level and in a block
    let len = if th { 8 } else { 6 };
    t.extend(indexed("arrangements of nodes", 2 * 4u64.pow(len), check, move |i| {
        let mut s = String::new();
        for p in 0..len { s += &match i >> (2 * p + 1) & 3 { 0 => format!("n{};", p), 1 => format!("n {};", p), 2 => format!("n {{ c {}; }}\n", p), _ => format!("/-n {}\n", p) } }
        if i & 1 == 0 { s } else { format!("a {{{}}}", s) }
    }));
    // sequences of nodes, at document level and in a block
    let nodes: Arc<Vec<String>> = Arc::new(["a", "(t)b 1", "\"c\" k=1 k=2", "d {e 1\nf;}", "/-g {h;}", "i {}", "/-(t)j 1", "k 1 {l {m;}; }", "r\"n\" /-1 {/-o\n}", "p /-{q;} "]
        .iter().map(|s| s.to_string()).collect());
    let m = nodes.len() as u64;
    t.extend(indexed("sequences of nodes", m * m * m * 8, check, move |i| {
        let sep = ["\n", ";", " //c\n", "\r\n\n"][(i % 4) as usize];
        let (a, b, c) = (&nodes[(i / 8 % m) as usize], &nodes[(i / 8 / m % m) as usize], &nodes[(i / 8 / m / m) as usize]);
        if i / 4 % 2 == 0 { format!("{}{}{}{}{}", a, sep, b, sep, c) }
        else { format!("z {{{}{}{}{}{}{} }} {}y", a, sep, b, sep, c, sep, sep) }
    }));
    t
}

/// every short text over characters that content is likely to be confused by, in every position of a string
const TEXT_TOK: &[&str] = &["", " ", "\t", "\n", "\r", "a", "A", "u8", "base64", "0", "-", ".", "/", "\"", "\\", "\0", "\u{e9}", "\u{feff}", "_", "true", "(", "{", "=", "#"];
const TEXT_POS: &[&str] = &["@", "a @", "a k=@", "a @=1", "(@)a", "a (@)1", "a k=(@)\"\"", "a {\n(@)@ (@)@ @=(@)@\n}"];
fn quoted(text: &str) -> String {
    let mut s = String::from("\"");
    for c in text.chars() {
        match c { '"' | '\\' => { s.push('\\'); s.push(c) } '\0' => s.push_str("\\u{0}"), _ => s.push(c) }
    }
    s.push('"');
    s
}
pub fn texts(check: &Check) -> Vec<Task> {
    let n = TEXT_TOK.len() as u64;
    let len = if thorough() { 4 } else { 3 };
    indexed("texts in every position", n.pow(len) * TEXT_POS.len() as u64 * 2, check, move |i| {
        let (pos, raw, mut i) = (TEXT_POS[(i % 8) as usize], i / 8 % 2 == 1, i / 16);
        let mut text = String::new();
        for _ in 0..len { text.push_str(TEXT_TOK[(i % n) as usize]); i /= n }
        pos.replace('@', &if raw { format!("r##\"{}\"##", text) } else { quoted(&text) })
    })
}

/// names, strings and keys of growing length whose last character lies across a byte boundary
fn long_docs() -> Vec<String> {
    let mut v = Vec::new();
    let lens: Vec<usize> = (1..if thorough() { 300 } else { 82 }).chain([96, 99, 100, 127, 128, 199, 200, 254, 255, 256, 511, 512, 1023, 1024, 4095, 4096]).collect();
    for n in lens { for c in ["é", "中", "😀"] {
        let t = format!("{}{}", "x".repeat(n - 1), c);
        for p in ["@", "a \"@\"", "a @=1", "\"@\" 1", "(@)a", "a @", "a (@)1", "a @ 1", "a \"@", "@\"", "@ {", "a /*@*/ {", "a r#\"@", "a \"@\\q\"", "a @ @", "/*@", "// @\n}", "a=@", "@ @=@=@"] { v.push(p.replace('@', &t)) }
    } }
    v
}

/// Every tree-level space, for a property checked on arbitrary documents.
pub fn common(check: &Check) -> Vec<Task> {
    let th = thorough();
    let mut t = Vec::new();
    t.extend(sequences("characters", "", CHARS, if th { 5 } else { 4 }, usize::MAX, "", check));
    t.extend(sequences("tokens (viable prefixes + 1)", "", TOKENS, if th { 6 } else { 4 }, 1, "", check));
    t.extend(sequences("tokens after `a `", "a ", TOKENS, if th { 5 } else { 3 }, 1, "", check));
    t.extend(sequences("tokens inside braces", "a {", TOKENS, if th { 5 } else { 3 }, 1, "}\n", check));
    t.extend(sequences("string tokens", "a \"", STRING_TOK, if th { 6 } else { 4 }, 1, "", check));
    t.extend(sequences("string tokens, closed", "a \"", STRING_TOK, if th { 5 } else { 4 }, 1, "\"", check));
    t.extend(sequences("raw string tokens as value", "a ", RAW_TOK, if th { 7 } else { 5 }, 1, "", check));
    t.extend(sequences("raw string tokens as name", "", RAW_TOK, if th { 7 } else { 5 }, 1, "", check));
    t.extend(sequences("number tokens", "a ", NUM_TOK, if th { 6 } else { 4 }, 1, "", check));
    t.extend(sequences("number tokens as name", "", NUM_TOK, if th { 5 } else { 3 }, 1, "", check));
    t.extend(sequences("comment tokens", "a ", COM_TOK, if th { 7 } else { 5 }, 1, "", check));
    t.extend(sequences("comment tokens at document level", "", COM_TOK, if th { 6 } else { 4 }, 1, "", check));
    t.extend(sequences("newline tokens", "", NL_TOK, if th { 5 } else { 4 }, 1, "", check));
    t.extend(abstract_bfs("model-state BFS", TOKENS, PROBES, if th { 4 } else { 1 },
        if th { 24 } else { 14 }, if th { 20000 } else { 900 }, check));
    t.extend(elements(check));
    t.extend(texts(check));
    t.extend(list("characters across a byte boundary", long_docs(), check));
    t.extend(list("size sweep", size_docs(), check));
    if th {
        t.extend(unicode("every scalar in every position", CHAR_TEMPLATES, check));
    } else {
        let es = edge_scalars();
        let n = es.len() as u64;
        t.extend(indexed("edge scalars in every position", n * CHAR_TEMPLATES.len() as u64, check, move |i| {
            CHAR_TEMPLATES[(i / n) as usize].replace('@', es[(i % n) as usize].encode_utf8(&mut [0; 4]))
        }));
    }
    t
}

/// every scalar that is special to some rule, inside comments and behind line continuations
pub fn trivia_chars(check: &Check) -> Vec<Task> {
    const T: &[&str] = &["a /*@*/ 1", "a /*/@*/ 1", "a /**@*/ 1", "a /*@/ */ 1", "a /*@**/ 1", "a /*x/@/*@*/*/ 1", "a //@\n1", "a //@", "a \\//@\n1", "a \\ /*@*/\n1",
        "//@\na", "/*/@*/a", "/*@*/ a", "a;//@\nb", "a {//@\nb}", "a {/*/@*/b}", "a /-/*@*/1 2", "/-/*/@*/a\nb", "a k=1/*@*/", "a/*@*/", "a /*\n@\n*/ 1", "a \\@1", "a@1", "a @ 1"];
    let es = edge_scalars();
    let n = es.len() as u64;
    indexed("edge scalars in trivia", n * T.len() as u64, check, move |i| {
        T[(i / n) as usize].replace('@', es[(i % n) as usize].encode_utf8(&mut [0; 4]))
    })
}

/// slash-dash in arbitrary token contexts
pub fn slashdash(check: &Check) -> Vec<Task> {
    const T: &[&str] = &["/-", "a", " ", "1", "k=2", "{", "}", "\n", ";", "(t)", "/*c*/", "\\\n", "\"s\"", "true"];
    let th = thorough();
    let mut t = Vec::new();
    t.extend(sequences("slash-dash tokens", "", T, if th { 6 } else { 5 }, 1, "", check));
    t.extend(sequences("slash-dash tokens after a node name", "a /-", T, if th { 6 } else { 4 }, 1, "", check));
    t.extend(sequences("slash-dash tokens in braces", "a {/-", T, if th { 5 } else { 4 }, 1, "\n}\n", check));
    const E: &[&str] = &["1", "k=1", "j=2", "i=(t)3", "/-1", "/-k=9", "/-j=8", "(u)null"];
    let len = if th { 7 } else { 6 };
    t.extend(indexed("long sequences of slash-dashed and other entries", (E.len() as u64).pow(len), check, move |i| {
        let (mut s, mut i) = (String::from("a"), i);
        for _ in 0..len { s.push(' '); s.push_str(E[(i % 8) as usize]); i /= 8 }
        s
    }));
    const N: &[&str] = &["a", "/-b", "c 1", "/-d k=1 {", "e {", "}", "/-{", "f /-{", "\n", ";"];
    let len = if th { 7 } else { 5 };
    t.extend(indexed("sequences of slash-dashed nodes and blocks", (N.len() as u64).pow(len) * 2, check, move |i| {
        let mut s = String::new();
        let close = i % 2 == 1;
        let (mut i, mut open) = (i / 2, 0);
        for _ in 0..len { let x = N[(i % 10) as usize]; i /= 10; s.push_str(x); if x.ends_with('{') { open += 1 } else if x == "}" { open -= 1 } else if x.len() > 1 { s.push(' ') } }
        if close { for _ in 0..open { s.push_str(" }") } s.push_str("\nz 1") }
        s
    }));
    t.extend(elements(check));
    t
}

/// escapes that name no character, and every way to misspell one
pub fn bad_escapes(check: &Check) -> Vec<Task> {
    let mut t = Vec::new();
    t.extend(indexed("invalid \\u escapes", 0x800 + 0x2000, check, |i| {
        let v = if i < 0x800 { 0xd800 + i } else { 0x110000 + (i - 0x800) * 0xff7 };
        format!("a \"\\u{{{:x}}}\"", v)
    }));
    let mut v = Vec::new();
    for d in ["", "0", "41", "041", "0041", "00041", "000041", "0000041", "00000041", "1F600", "1f600", "01f600", "110000", "10ffff", "10FFFF",
              "ffffff", "d7ff", "d800", "dfff", "e000", "g", "-1", "+1", " 1", "1 ", "_1", "1_0", "0x1", "é"] {
        for (o, c) in [("{", "}"), ("{", ""), ("", "}"), ("", ""), ("(", ")"), ("{{", "}}"), ("{", "}}")] {
            v.push(format!("a \"\\u{}{}{}\"", o, d, c));
            v.push(format!("a \"x\\u{}{}{}y\" 1", o, d, c));
            v.push(format!("\"\\u{}{}{}\" k=1", o, d, c));
            v.push(format!("a \"\\U{}{}{}\"", o, d, c));
        }
    }
    t.extend(list("\\u forms", v, check));
    t
}

pub fn strings(check: &Check) -> Vec<Task> {
    let th = thorough();
    let mut t = Vec::new();
    let total = 0x110000u64 - 0x800;
    t.extend(unicode("every scalar in every string position",
        &["(\"p@\")\"n@q\" \"@\" r#\"@z\"# \"k@\"=(\"@\")\"v@@\" r##\"@\"##=r\"@\""], check));
    t.extend(unicode("every scalar alone", &["a \"@\"", "a r\"@\"", "a \"\\@\""], check));
    // \u{...}: every code point, eight to a string, plus every invalid one alone
    let w = if th { 4 } else { 1 };
    t.extend(indexed("every \\u escape", w * (0x110000 / 8), check, |i| {
        let style = i / (0x110000 / 8);
        let base = (i % (0x110000 / 8)) * 8;
        let mut s = String::from("a \"");
        for v in base..base + 8 {
            if char::from_u32(v as u32).is_none() { continue }
            match style {
                0 => s.push_str(&format!("\\u{{{:x}}}", v)),
                1 => s.push_str(&format!("\\u{{{:X}}}x", v)),
                2 => s.push_str(&format!("\\u{{{:06x}}}", v)),
                _ => s.push_str(&format!("y\\u{{0{:X}}}", v & 0xfffff)),
            }
        }
        s.push('"');
        s
    }));
    t.extend(bad_escapes(check));
    for (nm, pre, suf) in [("value", "a \"", "\""), ("name", "\"", "\" 1"), ("property name", "a \"", "\"=1"),
                           ("property value", "a k=\"", "\""), ("type", "(\"", "\")a")] {
        t.extend(sequences(&format!("string tokens, {}", nm), pre, STRING_TOK, if th { 5 } else { 4 }, 1, suf, check));
    }
    for (nm, pre, suf) in [("value", "a ", ""), ("name", "", ""), ("property", "a ", "=1"), ("property value", "a k=", " 2"), ("type", "(", ")a")] {
        t.extend(sequences(&format!("raw string tokens, {}", nm), pre, RAW_TOK, if th { 7 } else { 5 }, 1, suf, check));
    }
    for (nm, pre, suf) in [("1", "a r#\"", "\"#"), ("2", "a r##\"", "\"##"), ("3", "a r###\"", "\"### 1")] {
        t.extend(sequences(&format!("raw string contents, {} hashes", nm), pre, &["\"", "#", "a", "\\", "\n"], if th { 8 } else { 6 }, 1, suf, check));
    }
    // pairs of escapes / special characters
    let es: Vec<String> = ["\\n", "\\r", "\\t", "\\b", "\\f", "\\/", "\\\\", "\\\"", "\\u{41}", "a", "n", "u", "\n", "\r", "{", "}", "/", "é", "😀", "\u{0}", "\u{85}",
        "\u{feff}", "/*", "*/", "//", "/-", ";", "=", "(", "'", "`", "#", "$", "%"].iter().map(|s| s.to_string()).collect();
    let n = es.len() as u64;
    t.extend(indexed("triples of string elements", n * n * n, check, move |i| {
        format!("a \"{}{}{}\"", es[(i / n / n) as usize], es[(i / n % n) as usize], es[(i % n) as usize])
    }));
    let _ = total;
    t.extend(list("size sweep", size_docs().into_iter().filter(|d| d.contains('"')).collect(), check));
    t
}

fn radix_text(v: i128, radix: u32) -> String {
    let (neg, mut m) = (v < 0, v.unsigned_abs());
    let mut d = Vec::new();
    loop { d.push(char::from_digit((m % radix as u128) as u32, radix).unwrap()); m /= radix as u128; if m == 0 { break } }
    let pre = match radix { 16 => "0x", 8 => "0o", 2 => "0b", _ => "" };
    format!("{}{}{}", if neg { "-" } else { "" }, pre, d.iter().rev().collect::<String>())
}

pub fn numbers(check: &Check) -> Vec<Task> {
    let th = thorough();
    let mut t = Vec::new();
    t.extend(sequences("number tokens, argument", "a ", NUM_TOK, if th { 7 } else { 5 }, 1, "", check));
    t.extend(sequences("number tokens, property value", "a k=", NUM_TOK, if th { 5 } else { 4 }, 1, " 1", check));
    t.extend(sequences("number tokens, typed", "a (u8)", NUM_TOK, if th { 5 } else { 4 }, 1, ";", check));
    t.extend(sequences("number tokens, next to a comment", "a ", NUM_TOK, 3, 1, "/*c*/2", check));
    for (nm, pre) in [("hexadecimal", "a 0x"), ("octal", "a 0o"), ("binary", "a 0b"), ("negative hexadecimal", "a -0x"), ("exponent", "a 1e"), ("fraction", "a 1.")] {
        t.extend(sequences(nm, pre, &["0", "1", "7", "8", "9", "a", "F", "g", "_", "-", "+", ".", "e", "x"], if th { 5 } else { 4 }, 1, "", check));
    }
    // all values near every power of two and ten, in every radix and spelling
    let mut vals: Vec<i128> = (-70000..70000).step_by(if th { 1 } else { 7 }).collect();
    vals.extend(-520..520);
    for b in 0..68 { for d in -3..=3i128 { vals.push((1i128 << b) + d); vals.push(-(1i128 << b) + d) } }
    let mut p = 1i128;
    for _ in 0..24 { for d in -2..=2 { vals.push(p + d); vals.push(-p + d) } p *= 10 }
    vals.sort(); vals.dedup();
    let n = vals.len() as u64;
    t.extend(indexed("integers near every boundary, every radix and spelling", n * 4 * 6, check, move |i| {
        let v = vals[(i / 24) as usize];
        let r = [10, 16, 8, 2][(i % 4) as usize];
        let s = radix_text(v, r);
        let s = match i / 4 % 6 {
            1 => format!("{}{}", if s.starts_with('-') { "" } else { "+" }, s),
            2 => s.to_uppercase().replace("0X", "0x").replace("0B", "0b").replace("0O", "0o"),
            3 => { let k = s.len(); if k > 1 { format!("{}_{}", &s[..k - 1], &s[k - 1..]) } else { format!("{}_", s) } }
            4 => if r == 10 { let (sg, d) = if s.starts_with('-') { ("-", &s[1..]) } else { ("", &s[..]) }; format!("{}000{}", sg, d) }
                 else { s.replacen("0x", "0x00", 1).replacen("0b", "0b0", 1).replacen("0o", "0o000", 1) },
            5 => format!("{}__", s),
            _ => s,
        };
        // `-_1` and the like are not numbers; the model decides
        format!("a {} k={}", s, s)
    }));
    // any number of leading zeros, with and without underscores, next to every width boundary
    let mut small: Vec<i128> = vec![0, 1, 5, 7, 8, 10, 15, 101];
    for b in [7, 8, 15, 16, 31, 32, 63, 64] { for d in [-1i128, 0] { small.push((1 << b) + d); small.push(-(1 << b) + d) } }
    small.push(-1);
    let lens: Vec<usize> = (0..=80).chain(127..=130).chain(254..=258).chain([511, 512, 513, 1023, 1024, 1025]).collect();
    let (ns, nl) = (small.len() as u64, lens.len() as u64);
    t.extend(indexed("leading zeros of every length", ns * nl * 4 * 3 * 2, check, move |i| {
        let (v, z) = (small[(i % ns) as usize], lens[(i / ns % nl) as usize]);
        let r = [10, 16, 8, 2][(i / ns / nl % 4) as usize];
        let zeros = match i / ns / nl / 4 % 3 { 0 => "0".repeat(z), 1 => "0_".repeat(z), _ => { let mut s = "0".repeat(z); s.push_str("__"); s } };
        let zeros = if zeros.starts_with('_') { String::new() } else { zeros };
        let s = radix_text(v, r);
        let (sg, s) = match s.strip_prefix('-') { Some(x) => ("-", x), None => ("", &s[..]) };
        let (pre, d) = if r == 10 { ("", s) } else { s.split_at(2) };
        let plus = if i / ns / nl / 12 == 1 && sg.is_empty() { "+" } else { sg };
        format!("a {}{}{}{}", plus, pre, zeros, d)
    }));
    // decimals
    let ints = ["0", "1", "9", "10", "123456789", "9007199254740993", "16777217", "340282350000000000000000000000000000000", "00", "0_1"];
    let fracs = ["", ".0", ".5", ".1", ".25", ".000001", ".3333333333333333", ".9_9", ".123456789012345678901234567890"];
    let exps = ["", "e0", "e1", "E5", "e+3", "e-3", "e22", "e23", "e-5_0", "e38", "e39", "e-45", "e-46", "e308", "e309", "e-323", "e-324", "e-400", "e400", "E+1_0"];
    let mut v = Vec::new();
    for s in ["", "-", "+"] { for a in ints { for f in fracs { for e in exps { v.push(format!("a {}{}{}{}", s, a, f, e)) } } } }
    // fractions and exponents of every length
    for z in (0..=80usize).chain(127..=130).chain(254..=258).chain(305..=330).chain(397..=403).chain([511, 512, 513, 1023, 1024, 1025]) {
        for (o, p) in [("0", "0"), ("9", "9"), ("0_", "0"), ("1", "_0")] {
            v.push(format!("a {}1.5", o.repeat(z)));
            v.push(format!("a 1.5{}", p.repeat(z)));
            v.push(format!("a 1.{}1", o.repeat(z)));
            v.push(format!("a 1.{}1e{}", o.repeat(z), z));
            v.push(format!("a 1{}.5e-{}", p.repeat(z), z));
            v.push(format!("a 1e{}5", if o == "9" { "0".repeat(z) } else { o.repeat(z) }));
            v.push(format!("a -1.5E-{}1", if o == "9" { "0".repeat(z) } else { o.repeat(z) }));
        }
    }
    t.extend(list("decimals", v, check));
    // next to the middle of two neighbouring f32 (and f64) values: twice rounded is wrong there
    let mut v = Vec::new();
    for e in -30i32..31 { for m in [0u32, 1, 2, 0x3fffff, 0x400000, 0x7ffffe, 0x7fffff, 0x2aaaaa] {
        let a = f32::from_bits((((e + 127) as u32) << 23) | m);
        let mid = (a as f64 + f32::from_bits(a.to_bits() + 1) as f64) / 2.0;
        let s = format!("{:.80}", mid);
        let s = s.trim_end_matches('0').to_string();
        let s = if s.ends_with('.') { s + "0" } else { s };
        let below = if s.ends_with(".0") { format!("{:.0}.99999999999999999999999", mid - 1.0) } else { format!("{}4999999999999999999999999", &s[..s.len() - 1]) };
        for x in [s.clone(), format!("{}00000000000000000000000001", s), below] {
            v.push(format!("a {}", x)); v.push(format!("a k=-{}", x)); v.push(format!("a {}e0", x));
        }
    } }
    t.extend(list("decimals next to rounding ties", v, check));
    t.extend(list("size sweep", size_docs().into_iter().filter(|d| d.starts_with("a ") && d.as_bytes().get(2).map_or(false, |c| c.is_ascii_digit())).collect(), check));
    let es = edge_scalars();
    let n = es.len() as u64;
    const TP: &[&str] = &["a @", "a 1@", "a 1@2", "a -@", "a 1.@", "a 1.5@", "a 1e@", "a 1e5@", "a 0x@", "a 0xf@", "a 0o@", "a 0o7@", "a 0b@", "a 0b1@", "a 1_@", "a 0@1", "a @1", "a k=@1", "a +@", "a 1e-@", "a 1.2@3"];
    t.extend(indexed("edge scalars in every number position", n * TP.len() as u64, check, move |i| {
        TP[(i / n) as usize].replace('@', es[(i % n) as usize].encode_utf8(&mut [0; 4]))
    }));
    t
}

/// repeated patterns: exponential behaviour shows up as a call that does not
/// return within the horizon
pub fn pumps(check: &Check) -> Vec<Task> {
    const T: &[&str] = &["a", " ", "\n", ";", "{", "}", "1", "\"", "=", "/-", "(", ")", "r#\"", "/*", "*/", "//", "\\", "\\\n", "-", "true", "\r\n", "é", "/", "*", "\"b\"", "u{", "#"];
    let mut pats: Vec<String> = Vec::new();
    for a in T { pats.push(a.to_string()); for b in T { pats.push(format!("{}{}", a, b));
        for c in T { pats.push(format!("{}{}{}", a, b, c)) } } }
    let th = thorough();
    let mut t = Vec::new();
    let p2 = pats.clone();
    let n = pats.len() as u64;
    const PRE: &[&str] = &["", "a ", "a {", "a \"", "(", "a (", "a /-"];
    let reps: &'static [usize] = if th { &[8, 26, 40] } else { &[26] };
    let npre = if th { PRE.len() as u64 } else { 2 };
    t.extend(indexed("pumped patterns", n * npre * reps.len() as u64, check, move |i| {
        let p = &p2[(i % n) as usize];
        format!("{}{}", PRE[(i / n % npre) as usize], p.repeat(reps[(i / n / npre) as usize]))
    }));
    // opener^n middle closer^n
    let short: Vec<String> = pats.iter().filter(|p| p.chars().count() <= 3).cloned().collect();
    let m = T.len() as u64;
    let ns = (short.len() as u64).min(27 + 27 * 27);
    t.extend(indexed("pumped pairs", ns * m, check, move |i| {
        format!("{}{}", short[(i / m) as usize].repeat(24), T[(i % m) as usize].repeat(24))
    }));
    // long linear inputs: polynomial degree stays small
    let mut v = Vec::new();
    for p in T { for pre in PRE { v.push(format!("{}{}", pre, p.repeat(if "{(".contains(p) || *p == "/*" { 100 } else { 2000 }))) } }
    t.extend(list("long repetitions", v, check));
    // very long linear documents: time worse than linear shows
    const U: &[&str] = &[" 1", " k=1", " \"x\"", " (t)1", " /-1", " /**/1", " \\\n1", "\na", ";a", "\na {b;}", "\n/-a", "\n//x", "\n(t)a 1", "/*x*/", "\r\n", " r#\"x\"#", " -1.5e3", " true"];
    let mut v = Vec::new();
    let n = 8_000;
    for u in U {
        let n = if u.contains('a') { 8_000 } else { 24_000 } * if th { 2 } else { 1 };
        v.push(format!("a{}", u.repeat(n)));
        v.push(format!("a {{b{}\n}}", u.repeat(n)));
    }
    v.push(format!("a {}", (0..n).map(|i| format!("k{}=1 ", i)).collect::<String>()));
    v.push(format!("a \"{}\"", "\\u{e9}x".repeat(n)));
    v.push(format!("a {}", "7".repeat(n)));
    t.extend(list("very long linear documents", v, check));
    t
}
