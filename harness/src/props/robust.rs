//! Any input ends in an object or an error: C01.

use super::includes::in_dir;
use super::limits::small_stack;
use super::util::*;
use crate::bridge::Lift;
use crate::gen::{self, Gen, Prof};
use crate::model;
use crate::rng::Rng;
use crate::sup::{self, guard, must, Ctx, Merged, PropDef};
use over::value::Value;
use over::Obj;
use std::fs;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub static C01: PropDef = PropDef {
    id: "C01",
    run: c01,
    quick: 135_000,
    thorough: 2_500_000,
    level: "exploration",
    rule: "token soup, valid documents with up to ten edits, spliced documents, random and damaged bytes in files and \
           included files, one construct repeated up to a million times, objects nested in or inherited from one another up \
           to 200,000 deep, unusual paths and files, and the documents of the \
           monitors of the language, includes and faults, loaded on the main \
           stack and on a 2 MB stack, then used (looked up, compared, cloned, printed) and dropped, under a supervisor \
           that observes panics, signals, CPU time and heap; non-trivial: distinct inputs of at least 8 characters",
    must: &[
        "soup", "edited", "spliced", "bytes", "spikes", "paths", "include_bytes", "alias_chains", "deep_chains", "deep_100k", "word_bounds", "small_stack", "ended_ok", "ended_err",
        "printed", "not_utf8", "longest_100k", "other_workloads",
    ],
    assumptions: &[
        "a load that takes more than 60 s of CPU time or 2.5 GB of heap counts as not ending; ordinary ones take microseconds",
        "values doubled by every line (exponentially large data) are not counted against the property",
        "the known findings are run apart, in a child process with limits",
    ],
};

const BITS: [&str; 84] = [
    "a", "b", "c", "foo", "_", "é", "@a", "@b", "@", "^", "^:", ":", ":", ":", "a:", "b:", "c:", "@a:", "{", "}", "{", "}", "[", "]", "[", "]",
    "(", ")", "<", ">", "<Obj ", "<Arr ", "<Tup ", "<Str ", "\"x\"", "\"\"", "\"", "\\", "\\n", "1", "0", "-1", "2.5", ".5", "1.", "1_0",
    "12345678901234567890", "1/3", "1+1", "+", "-", "*", "/", "%", ".", ",", "=", ";", "null", "true", "false", "Obj", "Str", "Arr", "Tup",
    " ", " ", " ", "\n", "\t", "\r\n", "#", "# c\n", "a.b", "a.0", "a.a.a", "[]", "()", "{}", "[1 2]", "{a: 1}", "\u{0}", "\u{feff}", "字",
];

pub fn soup(rng: &mut Rng) -> String {
    let n = *rng.pick(&[3, 8, 20, 60, 200]);
    let mut s = String::new();
    if rng.bool() {
        s.push_str("a: ");
    }
    let spaced = rng.bool();
    for _ in 0..n {
        if rng.pct(4) {
            s.push(gen::any_char(rng));
        } else {
            s.push_str(rng.pick::<&str>(&BITS));
        }
        if spaced && rng.bool() {
            s.push(' ');
        }
    }
    s
}

fn valid(ctx: &mut Ctx) -> String {
    let prof = vary(ctx, Prof::std());
    let toks = document(ctx, prof);
    let l = gen::layout(&mut ctx.rng);
    gen::render(&mut ctx.rng, &toks, l).text
}

/// One construct, very often.
fn spike(rng: &mut Rng) -> (String, usize) {
    let n = *rng.pick(&[10usize, 63, 64, 65, 66, 100, 1_000, 5_000, 20_000, 100_000, 100_000, 300_000, 1_000_000]);
    let rep = |s: &str, n: usize| s.repeat(n);
    let k = n.min(3_000);
    let d = n.min(5_000);
    let s = match rng.below(58) {
        0 => format!("a: {}", rep("[", n)),
        1 => format!("a: {}", rep("(", n)),
        2 => rep("a:{", n),
        3 => rep("^:{", n),
        4 => format!("a: {}1", rep("-", n)),
        5 => format!("a: {}1", rep("+-", n)),
        6 => format!("a: 1{}", rep("+1", n.min(200_000))),
        7 => format!("a: 1{}", rep("-1*1", n.min(100_000))),
        8 => format!("a: b{}", rep(".b", n)),
        9 => format!("a: {{b: 1}} c: a{}", rep(".b", n)),
        10 => format!("a: {}", rep("7", d)),
        11 => format!("a: 1.{}", rep("7", d)),
        12 => format!("a: {}", rep("1_", n.min(50_000))),
        13 => format!("{}: 1", rep("_", n)),
        14 => format!("a: {}", rep("a", n)),
        15 => format!("a: {}", rep("@", n)),
        16 => format!("a: \"{}", rep("x", n)),
        17 => format!("a: \"{}\"", rep("é", n)),
        18 => format!("a: \"{}\"", rep("\\n", n)),
        19 => format!("a: \"{}", rep("\\", n)),
        20 => rep("#", n),
        21 => rep("# c\n", n),
        22 => rep(" ", n),
        23 => rep("\n", n),
        24 => rep("\r", n),
        25 => rep("\u{a0}", n),
        26 => format!("a: [{}]", rep("1 ", n.min(300_000))),
        27 => format!("a: ({})", rep("() ", k * 10)),
        28 => format!("a: [{}]", rep("[] ", k * 10)),
        29 => (0..k * 2).map(|i| format!("f{}: {}\n", i, i)).collect(),
        30 => (0..k).map(|i| format!("@g{}: {}\n", i, i)).collect(),
        31 => rep("a: 1 ", n),
        32 => format!("a: []{}", rep("+[]", n.min(100_000))),
        33 => format!("a: [1]{}", rep("+[1]", k)),
        34 => format!("a: \"x\"{}", rep("+\"x\"", n.min(20_000))),
        35 => format!("a: 1{}", rep("/3", n.min(1_000))),
        36 => format!("a: 1{}", rep("*9999999999", n.min(500))),
        37 => format!("a: {}", rep("<", n)),
        38 => format!("a: {}", rep("<Obj ", n)),
        39 => format!("a: <Obj \"{}\">", rep("x", n)),
        40 => format!("a: <Obj \"{}x\">", rep("./", n.min(50_000))),
        41 => format!("a: <Obj \"{}x\">", rep("../", n.min(50_000))),
        42 => rep(":", n),
        43 => rep("\"", n),
        44 => rep("}", n),
        45 => format!("a: {}", rep("]", n)),
        46 => format!("a: {}{}", rep("[", n.min(64)), rep("]", n)),
        47 => format!("a: {}{}", rep("({x:[", 21), rep("]})", 21)),
        48 => rep("^", n),
        49 => rep("^: {} ", n),
        50 => format!("a: {}", rep("[(", n)),
        51 => format!("a: {{b: {}", rep("[{c: ", n)),
        52 => format!("a: {}", rep("1.", n)),
        53 => format!("a: {}", rep("+", n)),
        54 => format!("a: {}", rep("null", n)),
        55 => format!("a: {}", rep("true ", n)),
        56 => format!("a: [1] b: {}a.0", rep("a.0+", n.min(20_000))),
        _ => format!("a: (1 2) b: a.{}", rep("0", n)),
    };
    (s, n)
}

/// A chain of fields, each one mentioning the previous one.
pub fn chain(rng: &mut Rng) -> String {
    let n = rng.range(2, 400);
    let g = if rng.bool() { "@" } else { "" };
    let k = if g.is_empty() { rng.range(1, 3) } else { rng.below(4) };
    let mut s = format!("{}a0: {}\n", g, ["{}", "[]", "()", "{}"][k]);
    for i in 1..=n {
        let old = format!("{}a{}", g, i - 1);
        let v = match k {
            0 => format!("{{x: {}}}", old),
            1 => format!("[{}]", old),
            2 => format!("({})", old),
            _ => format!("{{^: {}}}", old),
        };
        s.push_str(&format!("{}a{}: {}\n", g, i, v));
    }
    s + &format!("r: {}a{}\n", g, n)
}

/// Objects nested in one another, or inherited, far deeper than text can be; no type gets deep.
fn deep(rng: &mut Rng) -> (String, usize) {
    let n = *rng.pick(&[3_000, 20_000, 100_000, 200_000]) + rng.below(100);
    let k = rng.below(7);
    let mut s = String::from("@a0: {z: 0}\n");
    for i in 1..=n {
        let v = match if k == 6 { i % 6 } else { k } {
            0 => "{x: @P}",
            1 => "{^: @P}",
            2 => "{x: [@P]}",
            3 => "{x: (1 @P)}",
            4 => "{^: @P x: @P}",
            _ => "{y: ([@P] 1) x: @P}",
        };
        s.push_str(&format!("@a{}: {}\n", i, v.replace("@P", &format!("@a{}", i - 1))));
    }
    match rng.below(5) {
        0 => s.push_str("r: nowhere\n"),
        1 => s.push_str(&format!("r: @a{} r: 1\n", n)),
        2 => s.push_str(&format!("r: [@a{} @a{}] s: {{^: @a{}}}\n", n, n / 2, n)),
        3 => s.push_str(&format!("^: @a{}\n", n)),
        _ => s.push_str(&format!("r: @a{}\n", n)),
    }
    (s, n)
}

/// What is deep is looked up in, cloned and released, here and in another thread; not printed or compared.
fn use_deep(r: Result<Obj, over::OverError>) -> (bool, bool) {
    let o = match r {
        Err(e) => return (e.to_string().is_empty(), false),
        Ok(o) => o,
    };
    let look = |q: &Obj| (q.get("nothere").is_some(), q.contains("z"), q.get_with_source("z").is_some());
    look(&o);
    let mut last = vec![];
    for p in o.iter() {
        if let Value::Obj(q) = &p.1 {
            look(q);
            last.push(q.clone());
        }
    }
    let half = o.get("r");
    drop(o);
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || drop(half));
    drop(last);
    let _ = must(t, "thread").join();
    (true, false)
}

pub fn bytes(rng: &mut Rng, from: &str) -> Vec<u8> {
    let mut v: Vec<u8> = from.as_bytes().to_vec();
    match rng.below(5) {
        0 => (0..rng.range(1, 80)).map(|_| rng.next() as u8).collect(),
        1 => {
            // UTF-16, Latin-1 and the like.
            let mut w = vec![0xff, 0xfe];
            for u in from.encode_utf16() {
                w.extend_from_slice(&u.to_le_bytes());
            }
            w
        }
        _ => {
            for _ in 0..rng.range(1, 6) {
                let at = rng.below(v.len() + 1);
                let b = *rng.pick(&[0u8, 0x80, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf4, 0xff, 0xfe, b'"', b'\\', 0xbf, 0xa0]);
                if at < v.len() && rng.bool() {
                    if rng.bool() {
                        v[at] = b;
                    } else {
                        v.remove(at);
                    }
                } else {
                    v.insert(at, b);
                }
            }
            v
        }
    }
}

/// What a program does with what it loaded.
fn use_it(r: Result<Obj, over::OverError>) -> (bool, bool) {
    match r {
        Err(e) => {
            let s = e.to_string();
            let d = format!("{:?}", e);
            let _ = (s.len(), d.len());
            (false, false)
        }
        Ok(o) => {
            let c = o.clone();
            let mut printed = false;
            let m = Lift::default().obj(&o);
            if model::tree_size(&m) < 20_000 {
                assert!(o == c);
                let s = o.to_string();
                printed = s.len() + o.write_to_string().len() > 0;
            }
            for p in o.iter() {
                let _ = o.get(&p.0).map(|v| v.get_type().has_any());
                if let Value::Obj(q) = &p.1 {
                    let _ = (q.get("nothere").is_some(), q.contains("nothere"));
                }
            }
            drop(o);
            drop(c);
            (true, printed)
        }
    }
}

fn load(ctx: &mut Ctx, text: &str, file: Option<&Path>) -> Result<(), String> {
    load_with(ctx, text, file, use_it)
}

type Use = fn(Result<Obj, over::OverError>) -> (bool, bool);

fn load_with(ctx: &mut Ctx, text: &str, file: Option<&Path>, use_it: Use) -> Result<(), String> {
    let small = ctx.rng.pct(30);
    let f = file.map(|p| p.to_str().unwrap_or("").to_string());
    let (ok, printed) = if small {
        ctx.count("small_stack", 1);
        ctx.evals += 1;
        let t = text.to_string();
        small_stack(move || match f {
            None => use_it(t.parse::<Obj>()),
            Some(p) => use_it(Obj::from_file(&p)),
        })?
    } else {
        ctx.over(|| match f {
            None => use_it(text.parse::<Obj>()),
            Some(p) => use_it(Obj::from_file(&p)),
        })?
    };
    ctx.count(if ok { "ended_ok" } else { "ended_err" }, 1);
    if printed {
        ctx.count("printed", 1);
    }
    Ok(())
}

/// Monitors whose documents are loaded here as well; only panics count.
const OTHERS: [&str; 16] =
    ["C02", "C03", "C03", "C04", "C07", "C08", "C09", "C09", "C10", "C11", "C14", "C15", "C15", "C16", "C24", "C26"];

fn others(ctx: &mut Ctx) -> Result<(), String> {
    let id = *ctx.rng.pick(&OTHERS);
    let def = super::find(id).unwrap();
    ctx.note("workload", id);
    let before = ctx.counts.clone();
    let (seen, samples) = (std::mem::take(&mut ctx.seen), std::mem::take(&mut ctx.samples));
    let r = guard(|| (def.run)(ctx));
    ctx.counts = before;
    ctx.samples = samples;
    let _ = std::env::set_current_dir(&ctx.dir);
    ctx.count("other_workloads", 1);
    // Inputs of theirs are inputs here.
    let theirs = std::mem::replace(&mut ctx.seen, seen);
    ctx.seen.extend(theirs);
    match r {
        Ok(Err(e)) | Err(e) if e.starts_with("panic: ") => Err(format!("in the workload of {}: {}", id, e)),
        _ => Ok(()),
    }
}

/// Numbers around the bounds of machine words, wherever a number may stand.
fn word_bounds(rng: &mut Rng) -> String {
    let mut num = || -> String {
        let k = *rng.pick(&[7usize, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128]);
        let mut n = (num_bigint::BigInt::from(1) << k) + (rng.below(5) as i64 - 2);
        if rng.pct(15) {
            n = -n;
        }
        n.to_string()
    };
    let (n, m) = (num(), num());
    let f = *rng.pick(&[
        "a: [1 2] x: a.N", "a: (1 2) x: a.N", "a: [1 2] n: N x: a.n", "a: (1 2) n: N x: a.n", "a: [] @g: N x: a.@g", "a: () @g: N x: a.@g",
        "x: N/M", "x: N%M", "x: N-M*N", "x: 1/N%M", "x: N.M", "x: -N/-M", "x: [N M]", "o: {a: [1]} x: o.a.N", "o: {a: (1)} x: o.a.N", "x: 0.N",
        "x: -N%M", "x: N/M/N", "N: 1", "x: {}.N", "a: [[1]] x: a.N.M",
    ]);
    f.replace('N', &n).replace('M', &m)
}

fn c01(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.rng.below(1000) == 0 {
        let (text, n) = deep(&mut ctx.rng);
        ctx.count("deep_chains", 1);
        if n >= 100_000 {
            ctx.count("deep_100k", 1);
        }
        ctx.note("deep_chains", &text[..300]);
        ctx.nontrivial(&text);
        return load_with(ctx, &text, None, use_deep);
    }
    if ctx.rng.pct(30) {
        return others(ctx);
    }
    let (text, what) = match ctx.rng.below(100) {
        0..=28 => (soup(&mut ctx.rng), "soup"),
        29..=34 => (word_bounds(&mut ctx.rng), "word_bounds"),
        35..=59 => {
            let mut t = valid(ctx);
            for _ in 0..ctx.rng.range(1, 5) {
                t = super::err::edit(&mut ctx.rng, &t);
            }
            (t, "edited")
        }
        60..=69 => {
            // Two documents spliced somewhere.
            let (a, b) = (valid(ctx), valid(ctx));
            let a: Vec<char> = a.chars().collect();
            let b: Vec<char> = b.chars().collect();
            let (i, j) = (ctx.rng.below(a.len() + 1), ctx.rng.below(b.len() + 1));
            (a[..i].iter().chain(&b[j..]).collect(), "spliced")
        }
        70..=84 => return raw(ctx),
        85..=86 => {
            let (s, n) = spike(&mut ctx.rng);
            if n >= 100_000 {
                ctx.count("longest_100k", 1);
            }
            (s, "spikes")
        }
        87..=90 => (chain(&mut ctx.rng), "alias_chains"),
        91..=95 => return paths(ctx),
        _ => return tree(ctx),
    };
    ctx.count(what, 1);
    ctx.note(what, if text.len() > 20_000 { &text[..text.char_indices().nth(300).map_or(text.len(), |x| x.0)] } else { &text });
    if text.len() >= 8 {
        ctx.nontrivial(&text);
        if text.len() < 500 {
            ctx.sample(|| text.clone());
        }
    }
    let file = if ctx.rng.pct(12) {
        let p = ctx.dir.join("in.over");
        write(&p, text.as_bytes());
        Some(p)
    } else {
        None
    };
    let dir = ctx.dir.clone();
    in_dir(&dir, || load(ctx, &text, file.as_deref()))
}

/// Bytes that need not be text, in a file or an included file.
fn raw(ctx: &mut Ctx) -> Result<(), String> {
    let from = if ctx.rng.bool() { valid(ctx) } else { soup(&mut ctx.rng) };
    let b = bytes(&mut ctx.rng, &from);
    ctx.count("bytes", 1);
    if std::str::from_utf8(&b).is_err() {
        ctx.count("not_utf8", 1);
    }
    ctx.note("bytes", &format!("{:?}", b));
    ctx.nontrivial(&format!("{:?}", b));
    let p = ctx.dir.join("raw.over");
    write(&p, &b);
    if ctx.rng.bool() {
        return load(ctx, "", Some(&p));
    }
    ctx.count("include_bytes", 1);
    let k = *ctx.rng.pick(&["Obj", "Str", "Arr", "Tup", "Int", ""]);
    let doc = format!("a: <{} \"raw.over\"> b: a", k);
    let dir = ctx.dir.clone();
    in_dir(&dir, || load(ctx, &doc, None))
}

fn paths(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "p");
    must(fs::create_dir_all(root.join("sub/dir")), "scratch directory");
    write(&root.join("ok.over"), b"a: 1");
    write(&root.join("sub/ok.over"), b"b: <Obj \"../ok.over\">");
    write(&root.join("self.over"), b"b: <Obj \"self.over\">");
    let _ = std::os::unix::fs::symlink("loop", root.join("loop"));
    let _ = std::os::unix::fs::symlink("ok.over", root.join("link"));
    let _ = std::os::unix::fs::symlink("gone", root.join("dangling"));
    // No path outside the scratch directory is given to the code under test.
    let _ = std::os::unix::fs::symlink("/dev/null", root.join("null"));
    // A file that claims to be larger than any memory.
    let huge = must(fs::File::create(root.join("huge")), "scratch file");
    let has_huge = huge.set_len(1 << 62).is_ok();
    let long = "x".repeat(*ctx.rng.pick(&[255, 256, 4095, 4096, 100_000]));
    let deep = "sub/../".repeat(*ctx.rng.pick(&[1, 100, 600, 20_000]));
    let mut all: Vec<String> = [
        "", ".", "..", "/", "./", "ok.over", "./ok.over", "ok.over/", "ok.over/.", "sub", "sub/", "sub/dir", "sub/ok.over", "gone", "gone/gone",
        "loop", "link", "dangling", "self.over", "a\u{0}b", "\u{0}", "é", " ", "~", "*", "ok.over\n", ".//", "sub//ok.over", "null", "%s%n",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    all.push(long.clone());
    all.push(format!("{}ok.over", deep));
    all.push(format!("sub/{}", long));
    if has_huge {
        all.push("huge".into());
        all.push("huge".into());
    }
    let p = all[ctx.rng.below(all.len())].clone();
    ctx.note("path", &p[..p.len().min(300)]);
    ctx.count("paths", 1);
    ctx.nontrivial(&p);
    let r = in_dir(&root, || {
        if ctx.rng.bool() {
            load(ctx, "", Some(Path::new(&p)))
        } else {
            let k = *ctx.rng.pick(&["Obj", "Str", "Arr", "Tup"]);
            let lit = gen::string_literal(&mut ctx.rng, &p);
            load(ctx, &format!("a: <{} {}>", k, lit), None)
        }
    });
    drop(huge);
    let _ = fs::remove_file(root.join("huge"));
    r
}

/// Trees of includes, some of them edited.
fn tree(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "t");
    let mut prof = Prof::std();
    prof.p_inc = 40;
    let mut g = Gen::new(&mut ctx.rng, prof);
    g.root = root.to_str().unwrap().to_string();
    let toks = g.document("");
    let (files, dirs) = (std::mem::take(&mut g.files), g.dirs.clone());
    drop(g);
    let texts = write_files(ctx, &root, &files, &dirs, None);
    let l = gen::layout(&mut ctx.rng);
    let mut text = gen::render(&mut ctx.rng, &toks, l).text;
    if ctx.rng.bool() {
        text = super::err::edit(&mut ctx.rng, &text);
    }
    for (f, t) in files.iter().zip(&texts) {
        if ctx.rng.pct(30) {
            let e = super::err::edit(&mut ctx.rng, t);
            write(&root.join(&f.path), e.as_bytes());
        }
    }
    write(&root.join("main.over"), text.as_bytes());
    ctx.count("trees", 1);
    ctx.note("main file", &text);
    ctx.nontrivial(&text);
    let p = root.join("main.over");
    load(ctx, "", Some(&p))
}

// ---------------------------------------------------------------- known findings

/// Findings recorded in /verif/known_findings.txt and not repaired: name, what fails.
const KNOWN: [(&str, &str); 2] = [
    ("wide-type", "36 globals each being a tuple of the previous one twice take exponential time and memory for their type"),
    ("deep-types", "14000 globals each being a tuple of the previous one overflow a stack of 2 MB with their type"),
];

/// The inputs of the known findings.
fn known_text(name: &str) -> String {
    let (n, line) = match name {
        "wide-type" => (36, "(@P @P)"),
        _ => (14_000, "(@P)"),
    };
    let mut s = String::from("@a0: ()\n");
    for i in 1..=n {
        s.push_str(&format!("@a{}: {}\n", i, line.replace("@P", &format!("@a{}", i - 1))));
    }
    s + &format!("r: @a{}\n", n)
}

/// Runs one known finding in this process: `known NAME`.
pub fn known_main(a: &[String]) -> i32 {
    let name = a.first().map(|s| s.as_str()).unwrap_or("");
    if !KNOWN.iter().any(|k| k.0 == name) {
        return 64;
    }
    let (cap, stack) = if name == "wide-type" { (700_000_000, 8 << 20) } else { (4_000_000_000, 2 << 20) };
    crate::alloc::CAP.store(cap, std::sync::atomic::Ordering::Relaxed);
    let text = known_text(name);
    let t = std::thread::Builder::new().stack_size(stack).spawn(move || guard(move || text.parse::<Obj>().is_ok()));
    match must(t, "thread").join() {
        Ok(Ok(_)) => 0,
        _ => 1,
    }
}

/// Runs the listed findings in child processes; those that still fail are reported as known.
pub fn known(m: &mut Merged) {
    let root = std::env::var("OVERMON_ROOT").unwrap_or_else(|_| "/verif".into());
    let list = fs::read_to_string(Path::new(&root).join("known_findings.txt")).unwrap_or_default();
    let exe = must(std::env::current_exe(), "current_exe");
    let mut jobs = vec![];
    for (name, what) in KNOWN {
        let mut c = Command::new(&exe);
        c.args(["special", "known", name]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                // No core files; a CPU limit of its own.
                let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &none);
                let cpu = libc::rlimit { rlim_cur: 40, rlim_max: 40 };
                libc::setrlimit(libc::RLIMIT_CPU, &cpu);
                let st = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
                libc::setrlimit(libc::RLIMIT_STACK, &st);
                Ok(())
            });
        }
        jobs.push((name, what, must(c.spawn(), "spawn")));
    }
    for (name, what, mut c) in jobs {
        let t = Instant::now();
        let st = loop {
            match must(c.try_wait(), "wait") {
                Some(st) => break Some(st),
                None if t.elapsed() > Duration::from_secs(90) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                None => std::thread::sleep(Duration::from_millis(10)),
            }
        };
        let how = match st {
            Some(st) if st.code() == Some(0) => continue,
            Some(st) => match (st.code(), st.signal()) {
                (Some(crate::alloc::CAP_EXIT), _) => "heap limit".to_string(),
                (_, Some(s)) => format!("signal {}", s),
                (c, _) => format!("exit code {:?}", c),
            },
            None => "did not end".into(),
        };
        *m.counts.entry("known_findings_run".into()).or_insert(0) += 1;
        let id = format!("[{}]", name);
        if list.lines().any(|l| l.starts_with("known: property=C01") && l.contains(&id)) {
            m.known.push(format!("{} {}", id, what));
        } else {
            m.viols.push((0, format!("{} ({})", what, how), sup::head(&known_text(name), 2000)));
        }
    }
}
