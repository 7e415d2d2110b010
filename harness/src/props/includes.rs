//! Files including files: C10, C11, and histories of loads: C26.

use super::util::*;
use crate::gen::{self, Gen, Layout, Prof};
use crate::interpose::{self, State};
use crate::model::{self, Kind};
use crate::rng::Rng;
use crate::sup::{self, must, Ctx, PropDef};
use over::Obj;
use std::collections::{BTreeSet, HashMap};
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

const MODEL: &str = "the model in harness/src/model.rs reads the language as README.md lays it down";
const LINKS: &str = "what a relative include in a file reached through a symbolic link in another directory means is left open";

/// Runs with another working directory.
pub fn in_dir<T>(dir: &Path, f: impl FnOnce() -> T) -> T {
    let old = must(std::env::current_dir(), "current directory");
    must(std::env::set_current_dir(dir), "chdir");
    let r = f();
    must(std::env::set_current_dir(old), "chdir");
    r
}

// ---------------------------------------------------------------- C10

pub static C10: PropDef = PropDef {
    id: "C10",
    run: c10,
    quick: 432_000,
    thorough: 2_880_000,
    level: "exploration",
    rule: "trees of up to 14 generated files in nested directories including each other as every kind, with detours, \
           absolute paths and links, loaded from a file (relative and absolute) or from a string in the directory; \
           files with content valid as several kinds included as sequences of kinds; strings of exact content up to \
           300 KB; files of the same and similar names in other directories; files of odd names next to ones they may be mistaken for; targets that do not exist or are not regular files or not readable; some of large sizes; non-trivial: an include was \
           evaluated, counted by distinct set of files",
    must: &[
        "large_cases",
        "include", "include_cached", "from_string", "from_file", "several_kinds", "exact_strings", "bad_targets", "through_links",
        "main_in_subdirectory", "lookalikes_taken", "lookalikes_refused", "odd_names_taken", "odd_names_refused",
    ],
    assumptions: &[MODEL, LINKS, "runs as root, so 'unreadable' means a device, a directory, a missing file or invalid UTF-8"],
};

fn c10(ctx: &mut Ctx) -> Result<(), String> {
    match ctx.rng.below(22) {
        20..=21 => odd_names(ctx),
        0..=8 => tree(ctx),
        9..=10 => lookalikes(ctx),
        11..=14 => several(ctx),
        15..=16 => exact(ctx),
        _ => bad_target(ctx),
    }
}

fn tree(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "t");
    let mut prof = vary(ctx, Prof::std());
    prof.size = prof.size.min(80);
    prof.p_inc = *ctx.rng.pick(&[20, 40, 70]);
    let sub = ctx.rng.pct(30);
    let mut g = Gen::new(&mut ctx.rng, prof);
    g.root = root.to_str().unwrap().to_string();
    let dir = if sub { "m/n" } else { "" };
    if sub {
        g.dirs.push("m".into());
        g.dirs.push("m/n".into());
    }
    let toks = g.document(dir);
    let (files, dirs) = (std::mem::take(&mut g.files), g.dirs.clone());
    drop(g);
    let texts = write_files(ctx, &root, &files, &dirs, None);
    let l = gen::layout(&mut ctx.rng);
    let text = gen::render(&mut ctx.rng, &toks, l).text;
    ctx.note("main document", &text);
    let here = root.join(dir);
    must(fs::create_dir_all(&here), "directory");
    let main = here.join("main.over");
    write(&main, text.as_bytes());
    let abs = main.to_str().unwrap().to_string();
    let (seen, _) = match ctx.rng.below(6) {
        0 => {
            ctx.count("from_string", 1);
            in_dir(&here, || agree(ctx, Src::Str(&text), Dirs { accept: true, reject: true, sharing: true }))?
        }
        k => {
            ctx.count("from_file", 1);
            let dirs = Dirs { accept: true, reject: true, sharing: true };
            match k {
                1 => in_dir(&here, || agree(ctx, Src::File("main.over"), dirs))?,
                2 => in_dir(&here, || agree(ctx, Src::File("./main.over"), dirs))?,
                3 => {
                    let rel = if sub { "m/n/../n/main.over".to_string() } else { "../t/main.over".to_string() };
                    in_dir(&root, || agree(ctx, Src::File(&rel), dirs))?
                }
                4 => {
                    // Through a link to the directory, and a link to the file next to it.
                    let link = ctx.dir.join("link");
                    let _ = fs::remove_file(&link);
                    must(symlink(&here, &link), "link");
                    must(symlink("main.over", here.join("alias.over")), "link");
                    ctx.count("through_links", 1);
                    let p = link.join("alias.over");
                    agree(ctx, Src::File(p.to_str().unwrap()), dirs)?
                }
                _ => agree(ctx, Src::File(&abs), dirs)?,
            }
        }
    };
    if sub {
        ctx.count("main_in_subdirectory", 1);
    }
    if !files.is_empty() {
        ctx.nontrivial(&format!("{}{:?}", text, texts));
        if let Seen::Same(..) = seen {
            ctx.sample(|| format!("{}\n{:?}", text, texts));
        }
    }
    Ok(())
}

/// Files of the same name in several places, the right one there or not.
fn lookalikes(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "s");
    let places = ["", "sub", "sub/sub", "other", "other/sub", "cwd", "cwd/sub", "cwd/sub/sub"];
    for p in places {
        must(fs::create_dir_all(root.join(p)), "directory");
    }
    let names = ["leaf", "leaf.over", "leaf.OVER", "Leaf", "leaf ", ".leaf", "leaf.over.over", "sub/leaf"];
    let mut n = 0;
    for p in places {
        for name in names {
            if ctx.rng.pct(if name == "leaf" || name == "leaf.over" { 45 } else { 20 }) {
                n += 1;
                write(&root.join(p).join(name), format!("id: {} # {}/{}", n, p, name).as_bytes());
            }
        }
    }
    // The main document includes a file in a directory, which includes the one in question.
    let leaf = *ctx.rng.pick(&[
        "leaf", "leaf", "leaf", "leaf.over", "./leaf", "../leaf", "sub/leaf", "sub/../leaf", "./sub/leaf.over", "../sub/leaf", "leaf ", "Leaf", "../other/leaf",
        "../../leaf",
    ]);
    let kind = *ctx.rng.pick(&["", "Obj ", "Str "]);
    let inc = format!("<{}\"{}\">", kind, leaf);
    let mid = *ctx.rng.pick(&["sub/mid", "other/mid", "sub/sub/mid", "mid", "cwd/mid"]);
    let frame = *ctx.rng.pick(&["x: E", "x: [E]", "@g: E x: @g", "x: {y: (1 E)}"]);
    write(&root.join(mid), frame.replace('E', &inc).as_bytes());
    let text = match ctx.rng.below(4) {
        0 => format!("a: {}", inc),
        1 => format!("m: <\"{}\"> a: {}", mid, inc),
        2 => format!("a: {} m: <\"{}\">", inc, mid),
        _ => format!("m: <\"{}\">", mid),
    };
    write(&root.join("main.over"), text.as_bytes());
    ctx.note("document", &text);
    ctx.note("file in between", &format!("{}: {}", mid, frame.replace('E', &inc)));
    let cwd = root.join(*ctx.rng.pick(&["cwd", "cwd/sub", "sub", "other", "", ".."]));
    let dirs = Dirs { accept: true, reject: true, sharing: true };
    let abs = root.join("main.over");
    let (seen, _) = match ctx.rng.below(4) {
        0 => in_dir(&root, || agree(ctx, Src::Str(&text), dirs))?,
        1 => {
            write(&cwd.join("here"), b"");
            let up = if cwd == root.join("..") { "s/main.over".to_string() } else {
                let depth = cwd.strip_prefix(&root).map(|p| p.components().count()).unwrap_or(0);
                format!("{}main.over", "../".repeat(depth))
            };
            in_dir(&cwd, || agree(ctx, Src::File(&up), dirs))?
        }
        _ => in_dir(&cwd, || agree(ctx, Src::File(abs.to_str().unwrap()), dirs))?,
    };
    match seen {
        Seen::Same(..) => ctx.count("lookalikes_taken", 1),
        Seen::Rejected(..) => ctx.count("lookalikes_refused", 1),
        _ => (),
    }
    ctx.nontrivial(&format!("{}{}{}{}", text, inc, mid, n));
    Ok(())
}

/// Ways in which one name might be taken for another.
fn confuse(rng: &mut Rng, name: &str) -> String {
    let half = |n: &str| n.char_indices().nth(n.chars().count() / 2).map_or(0, |c| c.0);
    match rng.below(24) {
        0 => name.replace('\\', "/"),
        1 => name.replace('\\', ""),
        2 => name.replace('\\', "\\\\"),
        3 => name.trim_matches(|c| c == '"' || c == '\'').to_string(),
        4 => format!("\"{}\"", name),
        5 => name.trim().to_string(),
        6 => format!("{} ", name),
        7 => format!(" {}", name),
        8 => name.to_lowercase(),
        9 => name.to_uppercase(),
        10 => name.replace("%41", "A").replace("%2F", "/"),
        11 => name.replace("e\u{301}", "\u{e9}"),
        12 => name.split(|c| c == '#' || c == '?' || c == ';').next().unwrap().to_string(),
        13 => name[..half(name)].to_string(),
        14 => name[half(name)..].to_string(),
        15 => format!("{}.over", name),
        16 => name.strip_suffix(".over").unwrap_or(name).to_string(),
        17 => name.lines().next().unwrap_or("").to_string(),
        18 => name.replace("\r\n", "\n"),
        19 => name.replace('\n', "\\n"),
        20 => name.replace('\n', " "),
        21 => name.chars().filter(|c| !c.is_control() && *c != '\u{feff}' && *c != '\u{200b}').collect(),
        22 => name.chars().filter(|c| c.is_ascii_alphanumeric()).collect(),
        _ => name.chars().filter(|c| c.is_ascii()).collect(),
    }
}

/// Any name the system allows for a file names that file and no other.
fn odd_names(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "o");
    let mut base = String::new();
    for _ in 0..ctx.rng.range(1, 3) {
        let part = match ctx.rng.below(4) {
            0 => "f".to_string(),
            1 => ctx.rng.pick(&["name", "Ab.over", "é", "1"]).to_string(),
            _ => ctx.rng.pick(&gen::ODD_PARTS).to_string(),
        };
        base.push_str(&part);
    }
    if ctx.rng.pct(4) {
        // As long as a name may be.
        let n = 254 - base.len() + ctx.rng.below(3);
        let at = if ctx.rng.bool() { 0 } else { base.len() };
        base.insert_str(at, &"n".repeat(n));
    }
    let usable = |n: &str| !n.is_empty() && n != "." && n != ".." && !n.contains('\0') && n.split('/').all(|p| !p.is_empty() && p.len() < 256 && p != "." && p != "..");
    let mut names = vec![base.clone()];
    for _ in 0..8 {
        let n = confuse(&mut ctx.rng, &base);
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let dir = *ctx.rng.pick(&["", "", "d/", "d\\/", "\"/", "~/", " /"]);
    must(fs::create_dir_all(root.join(dir)), "directory");
    let mut written = vec![];
    for (i, n) in names.iter().enumerate() {
        let p = root.join(format!("{}{}", dir, n));
        if usable(n) && (i == 0 && ctx.rng.pct(80) || ctx.rng.pct(40)) && !p.exists() {
            if let Some(up) = p.parent() {
                if fs::create_dir_all(up).is_err() {
                    continue;
                }
            }
            if fs::write(&p, format!("id: {} # {}", i, n.replace('\n', " "))).is_ok() {
                written.push(i);
            }
        }
    }
    let mut text = String::new();
    for f in 0..ctx.rng.range(1, 3) {
        let n = if f == 0 || written.is_empty() { &names[ctx.rng.below(names.len().min(3))] } else { &names[*ctx.rng.pick(&written)] };
        let n = if ctx.rng.pct(60) && written.contains(&0) { &names[0] } else { n };
        let path = match ctx.rng.below(5) {
            0 => format!("{}/{}{}", root.to_str().unwrap(), dir, n),
            1 => format!("./{}{}", dir, n),
            _ => format!("{}{}", dir, n),
        };
        let lit = gen::string_literal(&mut ctx.rng, &path);
        let kind = *ctx.rng.pick(&["", "Obj ", "Str "]);
        text.push_str(&format!("f{}: <{}{}>\n", f, kind, lit));
    }
    ctx.note("document", &text);
    for i in &written {
        ctx.note("file", &format!("{:?} in {:?}", names[*i], dir));
    }
    let dirs = Dirs { accept: true, reject: true, sharing: true };
    let seen = if ctx.rng.bool() {
        ctx.count("from_string", 1);
        in_dir(&root, || agree(ctx, Src::Str(&text), dirs))?.0
    } else {
        ctx.count("from_file", 1);
        // The file with the document may have an odd name, too.
        let main = if ctx.rng.pct(30) { format!("{}m", ctx.rng.pick(&gen::ODD_PARTS)) } else { "main.over".into() };
        let p = root.join(main);
        if p.is_dir() || !usable(p.file_name().unwrap().to_str().unwrap()) {
            return Ok(());
        }
        write(&p, text.as_bytes());
        if ctx.rng.bool() {
            let n = p.file_name().unwrap().to_str().unwrap().to_string();
            in_dir(&root, || agree(ctx, Src::File(&n), dirs))?.0
        } else {
            agree(ctx, Src::File(p.to_str().unwrap()), dirs)?.0
        }
    };
    match seen {
        Seen::Same(..) => ctx.count("odd_names_taken", 1),
        Seen::Rejected(..) => ctx.count("odd_names_refused", 1),
        _ => (),
    }
    ctx.nontrivial(&format!("{}{:?}{:?}", text, names, written));
    Ok(())
}

/// Contents that are valid as more than one kind, or only just not.
const POLY: [&str; 26] = [
    "", " ", "# nothing\n", "\n\n", "1 2 3", "[1] [2]", "[] [[1]]", "\"s\"", "(1) (2)", "1 \"a\"", "{a: 1} {b: 2}", "a: 1", "a: 1 b: [1 2]",
    "@g: 1 x: @g", "^: {a: 1}", "1 -2.5", "[1] [\"x\"]", "x", "1 2 3 ]", "a:", "null null", "<Str \"p0\">", "<\"p0\">", "a: <Tup \"p1\">",
    "<Arr \"p1\"> <Arr \"p1\">", "(1 [2]) (3 [])",
];

fn several(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "k");
    let n = ctx.rng.range(1, 4);
    let mut key = String::new();
    // The name says nothing about the content.
    let ext = *ctx.rng.pick(&[
        "", "", "", ".over", ".txt", ".json", ".str", ".arr", ".tup", ".obj", ".TXT", ".bak", "~", ".gz", ".md", ".Str", " Str", ".", "..", ".o",
        ".rs", ".bin", ".tmp", "#", ":1", "?", "*", "%20", "\u{e9}",
    ]);
    for i in 0..n {
        let text = ctx.rng.pick(&POLY).replace("\"p0\"", &format!("\"p0{}\"", ext)).replace("\"p1\"", &format!("\"p1{}\"", ext));
        write(&root.join(format!("p{}{}", i, ext)), text.as_bytes());
        ctx.note(&format!("file p{}{}", i, ext), &text);
        key.push_str(&text);
        key.push('\u{1}');
        if ctx.rng.pct(30) {
            must(symlink(format!("p{}{}", i, ext), root.join(format!("l{}", i))), "link");
        }
    }
    must(fs::create_dir(root.join("d")), "directory");
    let mut text = String::new();
    for f in 0..ctx.rng.range(2, 7) {
        let i = ctx.rng.below(n);
        let name = format!("p{}{}", i, ext);
        let kind = *ctx.rng.pick(&["", "Obj ", "Str ", "Arr ", "Tup ", "Arr ", "Tup "]);
        let path = match ctx.rng.below(6) {
            0 => format!("./{}", name),
            1 => format!("d/../{}", name),
            2 => root.join(&name).to_str().unwrap().to_string(),
            3 if root.join(format!("l{}", i)).exists() => {
                ctx.count("through_links", 1);
                format!("l{}", i)
            }
            _ => name,
        };
        let inc = format!("<{}\"{}\">", kind, path);
        let frame = *ctx.rng.pick(&["F: E", "F: E", "F: [E]", "F: (E E)", "F: {a: E}", "@F: E F: @F", "F: [E E]"]);
        text.push_str(&frame.replace('F', &format!("f{}", f)).replace('E', &inc));
        text.push('\n');
    }
    key.push_str(&text);
    ctx.note("document", &text);
    let dirs = Dirs { accept: true, reject: true, sharing: true };
    let seen = if ctx.rng.bool() {
        ctx.count("from_string", 1);
        in_dir(&root, || agree(ctx, Src::Str(&text), dirs))?.0
    } else {
        ctx.count("from_file", 1);
        let p = root.join("main.over");
        write(&p, text.as_bytes());
        agree(ctx, Src::File(p.to_str().unwrap()), dirs)?.0
    };
    if let Seen::Same(..) = seen {
        ctx.count("several_kinds", 1);
        ctx.sample(|| key.clone());
    }
    ctx.nontrivial(&key);
    Ok(())
}

fn exact(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "e");
    let n = match ctx.rng.below(8) {
        0 => 0,
        1..=4 => ctx.rng.range(1, 60),
        5 | 6 => ctx.rng.range(1000, 9000),
        _ => ctx.rng.range(30_000, 100_000),
    };
    let pool: &[&str] = match ctx.rng.below(4) {
        0 => &["a", "\n", "\r\n", "\r", "\t", " "],
        1 => &["\"", "\\", "\\n", "$", "'", "#", ">", "<", "{", "\\u{41}"],
        2 => &["é", "漢", "😀", "\u{feff}", "\0", "\u{2028}", "\u{10ffff}", "\u{1b}", "e\u{301}"],
        _ => &["x", "y", "\n", "é", "😀", "\"", "\\", "\0", "\u{feff}"],
    };
    let mut s = String::new();
    if ctx.rng.pct(20) {
        s.push('\u{feff}');
    }
    for _ in 0..n {
        s.push_str(ctx.rng.pick(pool));
    }
    let name = *ctx.rng.pick(&["s.txt", "sub/s", "s .over", "ß.over", "main.txt"]);
    write(&root.join(name), s.as_bytes());
    let frames = ["r: E", "a: [E E] r: E", "@g: E r: @g", "o: {r: E} r: o.r", "r: \"\"+E", "a: <Str \"main.over\" > r: E"];
    let frame = ctx.rng.below(5);
    let text = frames[frame].replace('E', &format!("<Str \"{}\">", name));
    let p = root.join("main.over");
    write(&p, text.as_bytes());
    ctx.note("document", &text);
    ctx.note("included string", &model::short(&s));
    match load_file(ctx, p.to_str().unwrap())? {
        Ok(o) => {
            let got = o.get_str("r").map_err(|e| e.to_string())?;
            if got != s {
                return Err(format!(
                    "a file of {} bytes included as a string gives {} bytes: {:?} instead of {:?}",
                    s.len(),
                    got.len(),
                    model::short(&got),
                    model::short(&s)
                ));
            }
        }
        Err(e) => return Err(format!("including a file as a string failed: {}", model::short(&e))),
    }
    ctx.count("exact_strings", 1);
    ctx.nontrivial(&s);
    Ok(())
}

/// Changes who may do what with a file.
pub fn mode(p: &Path, m: u32) {
    use std::os::unix::fs::PermissionsExt;
    must(fs::set_permissions(p, fs::Permissions::from_mode(m)), "mode");
}

fn bad_target(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "b");
    write(&root.join("good"), b"");
    must(fs::create_dir(root.join("dir")), "directory");
    let which = ctx.rng.below(if sup::is_root() { 16 } else { 18 });
    let path: String = match which {
        0 => "missing".into(),
        1 => "dir".into(),
        2 => "dir/".into(),
        3 => ".".into(),
        4 => "".into(),
        5 => "good/".into(),
        6 => "good/x".into(),
        7 => {
            must(symlink("nowhere", root.join("l")), "link");
            "l".into()
        }
        8 => {
            must(symlink("l2", root.join("l1")), "link");
            must(symlink("l1", root.join("l2")), "link");
            "l1".into()
        }
        9 => {
            must(symlink("dir", root.join("ld")), "link");
            "ld".into()
        }
        10 => {
            let c = must(std::ffi::CString::new(root.join("fifo").to_str().unwrap()), "path");
            if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
                return Ok(());
            }
            "fifo".into()
        }
        11 => {
            must(symlink("/dev/null", root.join("null")), "link");
            "null".into()
        }
        12 => "x".repeat(5000),
        13 => "GOOD".into(),
        14 => {
            // Read, but not as text.
            let bad: &[u8] = *ctx.rng.pick(&[&b"\xff"[..], b"a: 1 \xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\"\xc0\x80\"", b"# \x80\n"]);
            write(&root.join("bytes"), bad);
            "bytes".into()
        }
        16 => {
            ctx.count("forbidden", 1);
            write(&root.join("locked"), b"");
            mode(&root.join("locked"), 0o200);
            "locked".into()
        }
        17 => {
            ctx.count("forbidden", 1);
            write(&root.join("dir/f"), b"");
            mode(&root.join("dir"), 0o600);
            "dir/f".into()
        }
        _ => {
            // A socket.
            if std::os::unix::net::UnixListener::bind(root.join("sock")).is_err() {
                return Ok(());
            }
            "sock".into()
        }
    };
    let kind = *ctx.rng.pick(&["", "Obj ", "Str ", "Arr ", "Tup "]);
    let inc = format!("<{}\"{}\">", kind, path);
    let frame = *ctx.rng.pick(&["f: E", "a: 1 f: [E]", "^: E", "@g: E", "f: {g: (E)}", "f: <Str \"good\"> g: E", "f: <Tup E>"]);
    let mut text = frame.replace('E', &inc);
    ctx.note("document", &text);
    let from_file = ctx.rng.bool();
    if ctx.rng.pct(25) {
        // One level down.
        write(&root.join("mid"), text.as_bytes());
        text = "m: <\"mid\">".into();
    }
    let got = if from_file {
        write(&root.join("main"), text.as_bytes());
        let p = root.join("main");
        load_file(ctx, p.to_str().unwrap())?
    } else {
        in_dir(&root, || load_str(ctx, &text))?
    };
    mode(&root.join("dir"), 0o700);
    if got.is_ok() {
        return Err(format!("including {:?} was accepted", path));
    }
    ctx.count("bad_targets", 1);
    ctx.nontrivial(&format!("{}{}{}", which, kind, frame));
    Ok(())
}

// ---------------------------------------------------------------- C11

pub static C11: PropDef = PropDef {
    id: "C11",
    run: c11,
    quick: 288_000,
    thorough: 1_920_000,
    level: "exploration",
    rule: "include graphs of up to 9 files with random edges of every kind, forwards (acyclic) or with back edges, \
           spelled with detours, absolute paths, links to files and directories, loaded from files or strings; ladders \
           of up to 62 files each including the next up to 4 times; the log of opened files shows how often each was \
           read, the data how instances are shared; some of large sizes; non-trivial: distinct graphs with a cycle or a repeated include",
    must: &["large_cases", "cyclic", "acyclic", "self_include", "cycle_through_link", "repeated", "ladders", "opens_logged", "cycle_as_string", "empty_files"],
    assumptions: &[
        MODEL,
        LINKS,
        "files are opened through libc's open/openat and read through read/readv/pread, as the standard library does",
    ],
};

struct Edge {
    to: usize,
    kind: Kind,
}

struct Node {
    /// Path below the root.
    path: String,
    dir: String,
    /// Fields (true) or elements.
    fields: bool,
    edges: Vec<Edge>,
}

/// What the language says: files and kinds read in order, up to the first cycle.
fn walk(g: &[Node], i: usize, kind: Kind, stack: &mut Vec<usize>, done: &mut Vec<(usize, Kind)>) -> bool {
    done.push((i, kind));
    if kind == Kind::Str {
        return true;
    }
    stack.push(i);
    for e in &g[i].edges {
        if stack.contains(&e.to) {
            return false;
        }
        if done.contains(&(e.to, e.kind)) {
            continue;
        }
        if !walk(g, e.to, e.kind, stack, done) {
            return false;
        }
    }
    stack.pop();
    true
}

fn c11(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "g");
    let ladder = ctx.rng.pct(12);
    let mut g: Vec<Node> = vec![];
    let dirs: Vec<String> = vec!["".into(), "a".into(), "a/b".into(), "c".into()];
    for d in &dirs {
        must(fs::create_dir_all(root.join(d)), "directory");
    }
    let n = if ladder { ctx.rng.range(20, 62) } else { ctx.rng.range(1, 9) };
    let p_back = if ladder { *ctx.rng.pick(&[0, 0, 3]) } else { *ctx.rng.pick(&[0, 0, 10, 30, 60]) };
    for i in 0..n {
        let dir = ctx.rng.pick(&dirs).clone();
        let name = format!("n{}.over", i);
        let path = if dir.is_empty() || i == 0 { name } else { format!("{}/{}", dir, name) };
        let dir = if i == 0 { String::new() } else { dir };
        let fields = i == 0 || if ladder { true } else { ctx.rng.bool() };
        g.push(Node { path, dir, fields, edges: vec![] });
    }
    for i in 0..n {
        let k = if ladder { ctx.rng.range(2, 4) } else { ctx.rng.weighted(&[15, 30, 30, 15, 10]) };
        for _ in 0..k {
            let back = ctx.rng.pct(p_back);
            let to = if back {
                ctx.rng.below(i + 1)
            } else if ladder {
                i + 1
            } else {
                i + 1 + ctx.rng.below(n.saturating_sub(i + 1).max(1))
            };
            if to >= n {
                continue;
            }
            let kind = if g[to].fields {
                *ctx.rng.pick(&[Kind::Obj, Kind::Obj, Kind::Obj, Kind::Str])
            } else {
                *ctx.rng.pick(&[Kind::Tup, Kind::Tup, Kind::Arr, Kind::Str])
            };
            let kind = if ladder && kind == Kind::Str && !ctx.rng.pct(20) { Kind::Obj } else { kind };
            g[i].edges.push(Edge { to, kind });
        }
    }
    // Links: to files in their own directories, and to directories.
    let mut linked = false;
    let use_links = ctx.rng.pct(50);
    if use_links {
        must(symlink("a", root.join("la")), "link");
        must(symlink("../c", root.join("a/lc")), "link");
        for x in &g {
            let name = x.path.rsplit('/').next().unwrap().to_string();
            must(symlink(&name, root.join(&x.dir).join(format!("L{}", name))), "link");
        }
    }
    let r = root.to_str().unwrap().to_string();
    let mut key = String::new();
    let mut via_link = vec![];
    for i in 0..n {
        let mut text = String::from(*ctx.rng.pick(&["", "", "# c\n", "\n"]));
        let bare = g[i].edges.is_empty() && ctx.rng.pct(30);
        if bare {
            ctx.count("empty_files", 1);
        } else if g[i].fields {
            text.push_str("@g0: 5 z: 1\n");
        }
        let all_same = !g[i].fields;
        for k in 0..g[i].edges.len() {
            let (to, kind) = (g[i].edges[k].to, g[i].edges[k].kind);
            let mut path = gen::spell(&mut ctx.rng, &r, &g[i].dir, &g[to].path, &dirs);
            if use_links && ctx.rng.pct(50) {
                let base = match ctx.rng.below(4) {
                    0 | 1 => {
                        let name = g[to].path.rsplit('/').next().unwrap();
                        let p = if g[to].dir.is_empty() { format!("L{}", name) } else { format!("{}/L{}", g[to].dir, name) };
                        gen::spell(&mut ctx.rng, &r, &g[i].dir, &p, &dirs)
                    }
                    2 if g[to].path.starts_with("a/") => format!("{}/l{}", r, g[to].path),
                    3 if g[to].path.starts_with("c/") => format!("{}/la/l{}", r, g[to].path),
                    _ => path.clone(),
                };
                if base != path {
                    via_link.push((i, to));
                    linked = true;
                }
                path = base;
            }
            let word = match kind {
                Kind::Obj => *ctx.rng.pick(&["", "Obj "]),
                Kind::Str => "Str ",
                Kind::Arr => "Arr ",
                Kind::Tup => "Tup ",
            };
            let inc = format!("<{}\"{}\">", word, path);
            if g[i].fields {
                // Frames with containers count towards the depth, too.
                let all = ["K: E", "K: E", "@K: E", "@K: E K: @K", "K: [E]", "K: (1 E)", "K: {k: E}"];
                let f = *ctx.rng.pick(if n > 25 { &all[..4] } else { &all });
                text.push_str(&f.replace('K', &format!("k{}", k)).replace('E', &inc));
            } else if all_same {
                // One type for all elements, so that the file can be an array, too.
                let f = *ctx.rng.pick(&["{k: E}", "{^: {} k: [E]}", "{@kK: E}"]);
                text.push_str(&f.replace('K', &k.to_string()).replace('E', &inc));
            }
            text.push_str(*ctx.rng.pick(&["\n", " ", "\r\n"]));
        }
        if !g[i].fields && g[i].edges.is_empty() && !bare {
            text.push_str("{z: 1}\n");
        }
        write(&root.join(&g[i].path), text.as_bytes());
        ctx.note(&format!("file {}", g[i].path), &text);
        key.push_str(&text);
        key.push('\u{1}');
    }
    // The oracle.
    let mut reads = vec![];
    let from_string = ctx.rng.pct(20);
    let ok = if from_string {
        // The text is no file, so including the main file is no cycle yet.
        let mut stack = vec![];
        let mut done = vec![];
        let mut ok = true;
        for e in &g[0].edges {
            if done.contains(&(e.to, e.kind)) {
                continue;
            }
            if !walk(&g, e.to, e.kind, &mut stack, &mut done) {
                ok = false;
                break;
            }
        }
        reads.extend(done);
        ok
    } else {
        walk(&g, 0, Kind::Obj, &mut vec![], &mut reads)
    };
    let mut pairs: BTreeSet<(usize, u8)> = BTreeSet::new();
    for (i, k) in &reads {
        pairs.insert((*i, *k as u8));
    }
    let text = must(fs::read_to_string(root.join(&g[0].path)), "file");
    let main = match ctx.rng.below(4) {
        0 if use_links => format!("{}/L{}", r, g[0].path),
        1 => format!("{}/a/../{}", r, g[0].path),
        2 => g[0].path.clone(),
        _ => format!("{}/{}", r, g[0].path),
    };
    let dirs = Dirs { accept: true, reject: true, sharing: true };
    let (got, log) = in_dir(&root, || {
        interpose::watch(State::default(), &r, || {
            if from_string {
                load_str(ctx, &text)
            } else {
                load_file(ctx, &main)
            }
        })
    });
    let got = got?;
    // How often each file was read.
    let mut count: HashMap<PathBuf, usize> = HashMap::new();
    for o in &log.opens {
        if o.fd >= 0 && o.bytes_read > 0 {
            let p = in_dir(&root, || fs::canonicalize(&o.path).unwrap_or_else(|_| PathBuf::from(&o.path)));
            *count.entry(p).or_insert(0) += 1;
            ctx.count("opens_logged", 1);
        }
    }
    for i in 0..n {
        let p = must(fs::canonicalize(root.join(&g[i].path)), "canonical path");
        let want = pairs.iter().filter(|x| x.0 == i).count();
        let have = count.get(&p).copied().unwrap_or(0);
        // Reads that found nothing are not counted.
        let empty = must(fs::metadata(&p), "metadata").len() == 0;
        if interpose::ACTIVE && !empty && (have > want || (ok && have != want)) {
            return Err(format!("{} was read {} times; it should be {} (once per requested kind)", g[i].path, have, want));
        }
    }
    match (&got, ok) {
        (Ok(_), false) => return Err("a circular include was accepted".into()),
        (Err(e), true) => return Err(format!("includes without a cycle were rejected: {}", model::short(e))),
        (Err(_), false) => {
            ctx.count("cyclic", 1);
            if linked {
                ctx.count("cycle_through_link", 1);
            }
            if g.iter().enumerate().any(|(i, x)| x.edges.iter().any(|e| e.to == i)) {
                ctx.count("self_include", 1);
            }
            if g.iter().enumerate().any(|(i, x)| x.edges.iter().any(|e| e.to <= i && e.kind == Kind::Str)) {
                ctx.count("cycle_as_string", 1);
            }
            ctx.nontrivial(&key);
        }
        (Ok(_), true) => {
            ctx.count("acyclic", 1);
            if ladder {
                ctx.count("ladders", 1);
            }
            let edges: usize = g.iter().map(|x| x.edges.len()).sum();
            if edges >= pairs.len() {
                ctx.count("repeated", 1);
                ctx.nontrivial(&key);
                ctx.sample(|| key.clone());
            }
        }
    }
    // The data, and which instances are shared.
    if ok {
        in_dir(&root, || if from_string { agree(ctx, Src::Str(&text), dirs) } else { agree(ctx, Src::File(&main), dirs) })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

pub static C26: PropDef = PropDef {
    id: "C26",
    run: c26,
    quick: 230_400,
    thorough: 1_152_000,
    level: "exploration",
    rule: "histories of 10 to 40 steps over up to 6 documents and 5 files with several contents each: loads from \
           strings and files, changes of files (also with equal length and unchanged time stamps), removals, files \
           becoming directories or links and back, failing loads of every kind in between, results kept and dropped; \
           every load is compared with the model, with every earlier load of the same text and files, with the other \
           way of loading it, and a sample with a fresh process; texts of any layout, cut off or edited, from a string and \
           from a file; some of large sizes; non-trivial: distinct (document, files) states loaded",
    must: &["large_cases", "loads", "same_state_again", "after_change", "string_and_file", "errors_repeated", "fresh_process", "same_length_change", "twins_accepted", "twins_rejected"],
    assumptions: &[MODEL],
};

/// What the load of a document shows to the outside: data or error.
fn show(r: &Result<Obj, String>) -> String {
    match r {
        Ok(o) => format!("ok {}", o.write_to_string()),
        Err(e) => format!("error {}", e),
    }
}

const CONTENTS: [&str; 30] = [
    "", "v: 1", "v: 2", "v: \"1\"", "v: [1]", "1", "2", "\"a\" \"b\"", "1 \"a\"", "v: <Str \"i1\">", "v: <\"i2\">", "<Tup \"i2\">", "v: <Arr \"i3\">",
    "v: }", "v: 1 v: 2", "v: x", "@g: 1 v: @g", "^: {w: 1} v: 3", "# c", "v: 1/0", "v: [1 \"a\"]", "v: \"\\q\"", "v: [[[[1]]]]", "v: (1 2.5)", "é", "v: <\"i0\">",
    "v: 1.5", "v: 2.5", "v: tru", "v: true",
];

fn c26_doc(rng: &mut Rng) -> String {
    let mut s = String::new();
    for f in 0..rng.range(1, 5) {
        let inc = match rng.below(8) {
            0 => "<\"i0\">",
            1 => "<Str \"i1\">",
            2 => "<Tup \"i2\">",
            3 => "<Arr \"i3\">",
            4 => "<\"i4\">",
            5 => "<\"./i1\">",
            6 => "<\"i0\">.v",
            _ => "",
        };
        let e = match rng.below(9) {
            0 => "1".to_string(),
            1 => format!("[{}]", rng.pick(&["1 2", "", "\"x\""])),
            2 if !inc.is_empty() => format!("({} {})", inc, inc),
            3 => (*rng.pick(&["\"a\nb\"", "zz", "1+\"a\"", "-true", "{a: {b: [1]}}", "@q", "2+3*4", "]", "null"])).to_string(),
            _ if inc.ends_with(".v") => "(1 2)".into(),
            _ if inc.is_empty() => "5".into(),
            _ => inc.to_string(),
        };
        s.push_str(&match rng.below(8) {
            0 => format!("@f{}: {}", f, e),
            1 => format!("^: {}", e),
            2 => format!("@h{}: {} f{}: @h{}", f, e, f, f),
            _ => format!("f{}: {}", f, e),
        });
        s.push_str(*rng.pick(&["\n", " ", "\r\n", "\t# c\n"]));
    }
    s
}

fn set_file(root: &Path, i: usize, text: &str, keep_time: bool) {
    change(&root.join(format!("i{}", i)), text, keep_time);
}

/// Gives a file new content, perhaps with its old time.
pub fn change(p: &Path, text: &str, keep_time: bool) {
    let old = fs::metadata(p).ok().filter(|m| m.is_file());
    if let Ok(m) = fs::symlink_metadata(p) {
        if m.is_dir() {
            must(fs::remove_dir(p), "remove directory");
        } else if !m.is_file() {
            must(fs::remove_file(p), "remove link");
        }
    }
    must(fs::write(p, text), "write file");
    if let (true, Some(m)) = (keep_time, old) {
        if let Ok(t) = m.modified() {
            let f = must(fs::OpenOptions::new().write(true).open(p), "open");
            must(f.set_modified(t), "set time");
        }
    }
}

/// One text as a string and as a file, faulty more often than not.
fn c26_twin(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "h");
    let mut p = Prof::std();
    p.size = *ctx.rng.pick(&[2, 10, 40]);
    let toks = document(ctx, p);
    let l = gen::layout(&mut ctx.rng);
    let whole = gen::render(&mut ctx.rng, &toks, l).text;
    for _ in 0..6 {
        let mut t = match ctx.rng.below(4) {
            0 => whole.clone(),
            1 => super::err::edit(&mut ctx.rng, &whole),
            _ => {
                let n = whole.chars().count();
                whole.chars().take(ctx.rng.below(n + 1)).collect()
            }
        };
        if ctx.rng.pct(10) {
            t = format!("{}{}", ctx.rng.pick(&["\u{feff}", "\n", "\r\n", "#!x\n", "\0", "\u{2028}", " "]), t);
        }
        if ctx.rng.pct(50) {
            t.push_str(*ctx.rng.pick(&["\n", "\r\n", "\r", "\n\n", " ", "\t", "\0", "\u{1a}", "\u{feff}", "#", "#\n", "\u{85}", "\u{2029}", "\\\n", "\"\n", "{\n", ":\n"]));
        }
        let name = *ctx.rng.pick(&["t.over", "t.txt", "t", "t.OVER"]);
        write(&root.join(name), t.as_bytes());
        ctx.note("document", &t);
        let (s, f) = in_dir(&root, || -> Result<_, String> { Ok((load_str(ctx, &t)?, load_file(ctx, name)?)) })?;
        ctx.count("string_and_file", 1);
        ctx.count(if s.is_ok() { "twins_accepted" } else { "twins_rejected" }, 1);
        let (s, f) = (show(&s), show(&f));
        if s != f.replace(&format!("error {}: ", name), "error ") {
            return Err(format!("from a string it gives {:?}, from a file {:?}", model::short(&s), model::short(&f)));
        }
        ctx.nontrivial(&t);
    }
    Ok(())
}

fn c26(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.rng.pct(25) {
        return c26_twin(ctx);
    }
    let root = fresh_dir(ctx, "h");
    let mut docs: Vec<String> = (0..ctx.rng.range(2, 5)).map(|_| c26_doc(&mut ctx.rng)).collect();
    if ctx.rng.pct(50) {
        let mut p = Prof::std();
        p.size = 20;
        let toks = document(ctx, p);
        let t = gen::render(&mut ctx.rng, &toks, Layout::Minimal).text;
        docs.push(if ctx.rng.bool() { super::err::edit(&mut ctx.rng, &t) } else { t });
    }
    for (k, d) in docs.iter().enumerate() {
        write(&root.join(format!("doc{}.over", k)), d.as_bytes());
        ctx.note(&format!("document {}", k), d);
    }
    // The files' states, as text, for the memory of earlier results.
    let mut state: Vec<String> = vec![];
    for i in 0..5 {
        let t = *ctx.rng.pick(&CONTENTS);
        set_file(&root, i, t, false);
        state.push(format!("={}", t));
    }
    let mut memo: HashMap<(usize, bool, Vec<String>), String> = HashMap::new();
    let mut kept: Vec<Obj> = vec![];
    let mut steps = String::new();
    let mut changed = false;
    let n = ctx.rng.range(10, 40);
    for _ in 0..n {
        match ctx.rng.below(10) {
            0..=2 => {
                let i = ctx.rng.below(5);
                changed = true;
                match ctx.rng.below(10) {
                    0 => {
                        let p = root.join(format!("i{}", i));
                        if !p.is_dir() {
                            let _ = fs::remove_file(&p);
                        } else {
                            let _ = fs::remove_dir(&p);
                        }
                        state[i] = "missing".into();
                    }
                    1 => {
                        let p = root.join(format!("i{}", i));
                        if !p.is_dir() {
                            let _ = fs::remove_file(&p);
                            must(fs::create_dir(&p), "directory");
                        }
                        state[i] = "directory".into();
                    }
                    2 => {
                        let p = root.join(format!("i{}", i));
                        if p.is_dir() {
                            let _ = fs::remove_dir(&p);
                        } else {
                            let _ = fs::remove_file(&p);
                        }
                        let t = *ctx.rng.pick(&CONTENTS[..9]);
                        write(&root.join(format!("x{}", i)), t.as_bytes());
                        must(symlink(format!("x{}", i), &p), "link");
                        state[i] = format!("link={}", t);
                    }
                    _ => {
                        let mut t = *ctx.rng.pick(&CONTENTS);
                        let old = state[i].strip_prefix('=').map(|s| s.to_string());
                        if let (Some(old), true) = (&old, ctx.rng.pct(60)) {
                            // Another content of the same length.
                            let same: Vec<&&str> = CONTENTS.iter().filter(|c| c.len() == old.len() && ***c != **old).collect();
                            if !same.is_empty() {
                                t = same[ctx.rng.below(same.len())];
                                ctx.count("same_length_change", 1);
                            }
                        }
                        let keep = ctx.rng.pct(70);
                        set_file(&root, i, t, keep);
                        state[i] = format!("={}", t);
                    }
                }
                steps.push_str(&format!("i{} {}\n", i, state[i]));
            }
            3 => {
                // Something else in between.
                let bad = *ctx.rng.pick(&["a: [[[", "a: <\"self.over\">", "a: \"", "x: {y: <\"missing\">}", "a: ----------1 b: @z", "\u{1}"]);
                write(&root.join("self.over"), bad.as_bytes());
                let _ = in_dir(&root, || {
                    let p = ctx.rng.bool();
                    if p {
                        load_file(ctx, "self.over").map(|r| r.is_ok())
                    } else {
                        load_str(ctx, bad).map(|r| r.is_ok())
                    }
                })?;
                steps.push_str("a failing load\n");
            }
            4 => {
                if ctx.rng.bool() {
                    kept.clear();
                } else if !kept.is_empty() {
                    let k = ctx.rng.below(kept.len());
                    kept.swap_remove(k);
                }
                steps.push_str("drop\n");
            }
            _ => {
                let k = ctx.rng.below(docs.len());
                let text = docs[k].clone();
                let file = format!("doc{}.over", k);
                let first_str = ctx.rng.bool();
                let mut both: Vec<(bool, String)> = vec![];
                for turn in 0..2 {
                    let via_str = first_str == (turn == 0);
                    if turn == 1 && ctx.rng.pct(60) {
                        break;
                    }
                    steps.push_str(&format!("load {} from {}\n", k, if via_str { "string" } else { "file" }));
                    let (seen, _) = in_dir(&root, || {
                        let src = if via_str { Src::Str(&text) } else { Src::File(&file) };
                        agree(ctx, src, BOTH)
                    })
                    .map_err(|e| format!("{}\nhistory:\n{}", e, steps))?;
                    let r = in_dir(&root, || if via_str { load_str(ctx, &text) } else { load_file(ctx, &file) })?;
                    drop(seen);
                    ctx.count("loads", 1);
                    if changed {
                        ctx.count("after_change", 1);
                        changed = false;
                    }
                    let s = show(&r);
                    let key = (k, via_str, state.clone());
                    ctx.nontrivial(&format!("{}{:?}", text, key));
                    if let Some(old) = memo.get(&key) {
                        ctx.count("same_state_again", 1);
                        if r.is_err() {
                            ctx.count("errors_repeated", 1);
                        }
                        if *old != s {
                            return Err(format!(
                                "loading document {} gave {:?} before and gives {:?} now, with the same files\nhistory:\n{}",
                                k,
                                model::short(old),
                                model::short(&s),
                                steps
                            ));
                        }
                    }
                    if ctx.rng.pct(1) {
                        let fresh = fresh_load(&root, &file, via_str);
                        ctx.count("fresh_process", 1);
                        if fresh != s {
                            return Err(format!(
                                "loading document {} gives {:?}, and {:?} in a fresh process\nhistory:\n{}",
                                k,
                                model::short(&s),
                                model::short(&fresh),
                                steps
                            ));
                        }
                    }
                    memo.insert(key, s.clone());
                    both.push((via_str, s));
                    if let Ok(o) = r {
                        kept.push(o);
                    }
                }
                if both.len() == 2 {
                    ctx.count("string_and_file", 1);
                    let s = &both.iter().find(|b| b.0).unwrap().1;
                    let f = &both.iter().find(|b| !b.0).unwrap().1;
                    let f2 = f.replace(&format!("error {}: ", file), "error ");
                    if *s != f2 {
                        return Err(format!(
                            "document {} from a string gives {:?}, from a file {:?}\nhistory:\n{}",
                            k,
                            model::short(s),
                            model::short(f),
                            steps
                        ));
                    }
                }
            }
        }
    }
    ctx.sample(|| format!("{:?}\n{}", docs, steps));
    Ok(())
}

fn fresh_load(root: &Path, file: &str, via_str: bool) -> String {
    let exe = must(std::env::current_exe(), "current_exe");
    let out = std::process::Command::new(exe)
        .args(["special", "load", if via_str { "string" } else { "file" }, file])
        .current_dir(root)
        .output();
    let out = must(out, "fresh process");
    String::from_utf8_lossy(&out.stdout).into_owned()
}

/// Body of the fresh process.
pub fn load_main(a: &[String]) -> i32 {
    let r = if a[0] == "string" {
        let text = must(fs::read_to_string(&a[1]), "file");
        text.parse::<Obj>().map_err(|e| e.to_string())
    } else {
        Obj::from_file(&a[1]).map_err(|e| e.to_string())
    };
    print!("{}", show(&r));
    0
}
