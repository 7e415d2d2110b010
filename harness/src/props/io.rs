//! Reading and writing files whatever the system does: C23.

use super::includes::{in_dir, mode};
use super::mem::input;
use super::util::*;
use super::{err, round};
use crate::gen;
use crate::interpose::{self, Plan, Fail, State, Step};
use crate::model;
use crate::rng::Rng;
use crate::sup::{self, guard, must, Ctx, PropDef};
use over::Obj;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Path, PathBuf};
use std::time::Duration;

pub static C23: PropDef = PropDef {
    id: "C23",
    run: c23,
    quick: 180_000,
    thorough: 1_440_000,
    level: "exploration",
    rule: "objects written to new, existing, longer, linked and impossible targets while write calls are cut short, \
           interrupted or fail after a chosen number of bytes, or run into a limit on the size of files; documents and \
           trees of includes, also larger than any buffer, loaded while read calls are cut short, interrupted or fail \
           at a chosen byte of a chosen file, and through pipes filled bit by bit; the harness's own read and write \
           calls deliver the faults and log what was done; directories are compared before and after; some of large sizes; non-trivial: \
           distinct contents with their fault plan",
    must: &[
        "writes_ok", "writes_failed", "short_writes", "interrupted_writes", "enospc", "failed_once", "read_failed_once", "size_limit", "longer_before", "through_link", "impossible",
        "loads_ok", "loads_failed", "short_reads", "interrupted_reads", "read_errors", "include_read_errors", "pipes", "large", "large_cases", "tree_unchanged",
        "opens_seen", "write_opens_seen",
    ],
    assumptions: &["the library reads and writes through the C library's open, read and write, which the harness replaces"],
};

fn c23(ctx: &mut Ctx) -> Result<(), String> {
    if !interpose::ACTIVE {
        sup::harness_fail("needs the interposed system calls");
    }
    match ctx.rng.below(10) {
        0..=3 => writes(ctx),
        4..=5 => soft_reads(ctx),
        6..=7 => hard_reads(ctx),
        8 => pipe(ctx),
        _ if !sup::is_root() && ctx.rng.pct(30) => forbidden(ctx),
        _ => impossible(ctx),
    }
}

/// Names, contents and times of everything below a directory.
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, (u32, u64, Option<Vec<u8>>)> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in must(fs::read_dir(&d), "list").flatten() {
            let p = e.path();
            let md = must(fs::symlink_metadata(&p), "metadata");
            let text = if md.is_file() { fs::read(&p).ok() } else { None };
            if md.is_dir() {
                todo.push(p.clone());
            }
            // Directories change their times when something is made in them.
            let t = if md.is_dir() { 0 } else { (md.mtime() * 1_000_000_000 + md.mtime_nsec()) as u64 };
            m.insert(p, (md.mode(), t, text));
        }
    }
    m
}

fn differs(a: &BTreeMap<PathBuf, (u32, u64, Option<Vec<u8>>)>, b: &BTreeMap<PathBuf, (u32, u64, Option<Vec<u8>>)>, but: &[&Path]) -> Option<String> {
    for (p, x) in a {
        if but.contains(&p.as_path()) {
            continue;
        }
        match b.get(p) {
            None => return Some(format!("{:?} is gone", p)),
            Some(y) if y != x => return Some(format!("{:?} changed", p)),
            _ => (),
        }
    }
    b.keys().find(|p| !a.contains_key(*p) && !but.contains(&p.as_path())).map(|p| format!("{:?} appeared", p))
}

/// Cuts and interruptions the caller has to cope with.
fn soft(rng: &mut Rng, p_eintr: u32) -> Plan {
    let mut p = Plan::default();
    for _ in 0..rng.below(30) {
        p.steps.push(if rng.pct(p_eintr) { Step::Err(libc::EINTR) } else { Step::Max(*rng.pick(&[1, 1, 2, 3, 5, 7, 16, 100, 4096])) });
    }
    if rng.bool() {
        p.rest = Some(*rng.pick(&[1, 2, 3, 7, 50, 1000, 8191]));
    }
    p
}

/// Long enough that one byte at a time takes too long.
fn calmed(mut p: Plan, len: usize) -> Plan {
    if len > 20_000 {
        p.rest = p.rest.map(|m| m.max(len / 500));
    }
    p
}

fn writes(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "w");
    let (o, _) = match round::subject(ctx)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let o = if ctx.rng.pct(6) {
        ctx.count("large", 1);
        let s = "wört ".repeat(ctx.rng.range(2_000, 60_000));
        must(Obj::from_pairs(vec![over::obj::Pair("x".into(), s.as_str().into()), over::obj::Pair("y".into(), o.into())], None), "object")
    } else {
        o
    };
    if round::size(&o) > 30_000 {
        return Ok(());
    }
    write_one(ctx, &root, o)
}

/// Objects whose written form is larger than any buffer.
pub fn large_write(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "w");
    let (v, _, what) = super::scale::value(&mut ctx.rng, 20_000);
    let x = guard(|| crate::bridge::Build::default().val(&v))??;
    let o = match x {
        over::value::Value::Obj(o) => o,
        x => must(Obj::from_pairs(vec![over::obj::Pair("x".into(), x), over::obj::Pair("y".into(), "é".into())], None), "object"),
    };
    ctx.count("large_cases", 1);
    ctx.count("large", 1);
    ctx.note("object", what);
    write_one(ctx, &root, o)
}

fn write_one(ctx: &mut Ctx, root: &Path, o: Obj) -> Result<(), String> {
    let want = guard(|| o.write_to_string())?;
    if ctx.rng.pct(5) {
        return size_limit(ctx, root, &o, &want);
    }
    // What is there before.
    let target = root.join(*ctx.rng.pick(&["out.over", "o", "ö ü.over", ".hidden"]));
    write(&root.join("other.over"), b"a: 1");
    must(fs::create_dir(root.join("d")), "directory");
    write(&root.join("d/deep.over"), b"b: 2");
    let mut path = target.clone();
    match ctx.rng.below(6) {
        0 => write(&target, b"short"),
        1 => {
            ctx.count("longer_before", 1);
            write(&target, "z: \"old content\"\n".repeat(want.len() / 10 + 5).as_bytes());
        }
        2 => {
            ctx.count("longer_before", 1);
            write(&target, format!("{}{}", want, "x: 1").as_bytes());
        }
        3 => {
            ctx.count("through_link", 1);
            write(&target, "old ".repeat(200).as_bytes());
            path = root.join("link");
            must(symlink(&target, &path), "link");
        }
        _ => (),
    }
    let mut plan = Plan::default();
    let mut opens = vec![];
    let mut hard = 0;
    match ctx.rng.below(8) {
        0..=3 => plan = calmed(soft(&mut ctx.rng, 25), want.len()),
        4..=5 => {
            let at = match ctx.rng.below(4) {
                0 => 0,
                1 => want.len().saturating_sub(1),
                _ => ctx.rng.below(want.len() + 1),
            };
            hard = *ctx.rng.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG]);
            if ctx.rng.bool() {
                plan = calmed(soft(&mut ctx.rng, 10), want.len());
            }
            plan.limit = Some((at, hard));
            plan.once = ctx.rng.pct(40);
        }
        6 => {
            hard = *ctx.rng.pick(&[libc::EACCES, libc::EROFS, libc::EMFILE, libc::ENOSPC, libc::EISDIR]);
            opens = vec![hard];
        }
        _ => (),
    }
    ctx.note("written form", &model::short(&want));
    ctx.note("plan", &format!("{:?} {:?}", opens, plan));
    let before = snapshot(root);
    let st = State { writes: plan.clone(), open_errors: opens, ..State::default() };
    let relative = ctx.rng.bool();
    let p = if relative { path.strip_prefix(root).unwrap().to_path_buf() } else { path.clone() };
    let p = p.to_str().unwrap().to_string();
    let d = root.to_str().unwrap().to_string();
    ctx.evals += 1;
    let (r, st) = in_dir(root, || interpose::watch(st, &d, || guard(|| o.write_to_file(&p).map_err(|e| e.to_string()))));
    let r = r?;
    let errs: Vec<i32> = st.opens.iter().flat_map(|o| o.errors.iter().copied()).collect();
    let hit = errs.iter().any(|e| *e != libc::EINTR) || (st.injected > 0 && st.opens.is_empty() && hard != 0);
    if errs.contains(&libc::EINTR) {
        ctx.count("interrupted_writes", 1);
    }
    if st.injected > errs.len() as u64 {
        ctx.count("short_writes", 1);
    }
    if hit && plan.once {
        ctx.count("failed_once", 1);
    }
    if hit && [libc::ENOSPC, libc::EDQUOT].contains(&hard) {
        ctx.count("enospc", 1);
    }
    ctx.count("write_opens_seen", st.opens.len() as u64);
    match &r {
        Ok(()) => {
            ctx.count("writes_ok", 1);
            let got = fs::read(&path).map_err(|e| format!("writing succeeded, but there is no file: {}", e))?;
            if got != want.as_bytes() {
                return Err(format!(
                    "writing succeeded{}, but the file holds {} bytes instead of {}: {}",
                    if hit { " although the system reported an error" } else { "" },
                    got.len(),
                    want.len(),
                    model::short(&String::from_utf8_lossy(&got))
                ));
            }
        }
        Err(e) => {
            ctx.count("writes_failed", 1);
            if !hit {
                return Err(format!("writing failed though the system stored everything it was asked to, if in parts: {}", e));
            }
        }
    }
    let after = snapshot(root);
    if r.is_ok() {
        if let Some(d) = differs(&before, &after, &[&target, &path]) {
            return Err(format!("writing {:?}: {}", path, d));
        }
    }
    ctx.count("tree_unchanged", 1);
    ctx.nontrivial(&format!("{}{:?}", want, plan));
    Ok(())
}

/// The kernel itself refuses to let the file grow. (A device that is always full would do as well, but
/// code under test that renames or removes its target must not get near a device.)
fn size_limit(ctx: &mut Ctx, root: &Path, o: &Obj, want: &str) -> Result<(), String> {
    let target = root.join("out.over");
    if ctx.rng.bool() {
        write(&target, "z: 1\n".repeat(ctx.rng.below(200)).as_bytes());
    }
    let at = match ctx.rng.below(4) {
        0 => 0,
        1 => want.len().saturating_sub(1),
        2 => want.len(),
        _ => ctx.rng.below(want.len() + 2),
    };
    let path = target.to_str().unwrap().to_string();
    let r = guard(|| {
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            if libc::getrlimit(libc::RLIMIT_FSIZE, &mut old) != 0 {
                sup::harness_fail("getrlimit");
            }
            let new = libc::rlimit { rlim_cur: at as libc::rlim_t, rlim_max: old.rlim_max };
            if libc::setrlimit(libc::RLIMIT_FSIZE, &new) != 0 {
                sup::harness_fail("setrlimit");
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.write_to_file(&path).is_ok()));
        if unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &old) } != 0 {
            sup::harness_fail("setrlimit");
        }
        r.unwrap_or_else(|e| std::panic::resume_unwind(e))
    })?;
    ctx.count("size_limit", 1);
    ctx.nontrivial(&format!("{} {}", at, want));
    if r && at < want.len() {
        return Err(format!("writing {} bytes succeeded where a file may have {}", want.len(), at));
    }
    if !r && at >= want.len() {
        return Err(format!("writing {} bytes failed where a file may have {}", want.len(), at));
    }
    if r && must(fs::read(&target), "read back") != want.as_bytes() {
        return Err("the file does not hold the written form".into());
    }
    Ok(())
}

/// Targets that cannot be written.
fn impossible(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "w");
    must(fs::create_dir(root.join("d")), "directory");
    write(&root.join("f"), b"a: 1");
    must(symlink("loop", root.join("loop")), "link");
    let o: Obj = must("a: 1 b: [1 2]".parse::<Obj>(), "document");
    let long = "x".repeat(300);
    let all = ["d", "d/", "none/x", "f/x", "", "a\u{0}b", "loop", "d/../none/x", "f/", long.as_str()];
    let p = *ctx.rng.pick(&all);
    ctx.note("target", p);
    let abs = ctx.rng.bool() && !p.is_empty();
    let full = if abs { format!("{}/{}", root.display(), p) } else { p.to_string() };
    let before = snapshot(&root);
    let r = in_dir(&root, || ctx.over(|| o.write_to_file(&full).is_ok()))?;
    if r {
        return Err(format!("writing to {:?} succeeded", p));
    }
    if let Some(d) = differs(&before, &snapshot(&root), &[]) {
        return Err(format!("writing to the impossible target {:?}: {}", p, d));
    }
    // Loading from there fails as well, and as an error.
    let r = in_dir(&root, || ctx.over(|| Obj::from_file(&full).is_ok()))?;
    if r {
        return Err(format!("loading from {:?} succeeded", p));
    }
    ctx.count("impossible", 1);
    Ok(())
}

/// Files and directories this user may not read or write.
fn forbidden(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "w");
    must(fs::create_dir(root.join("d")), "directory");
    must(fs::create_dir(root.join("d/e")), "directory");
    let o: Obj = must("a: 1 b: [1 2]".parse::<Obj>(), "document");
    let want = o.write_to_string();
    let old = *ctx.rng.pick(&["", "x: 1", "x: \"a longer text than the new one, so that some of it may be left\""]);
    let (file, dir) = (root.join("d/f"), root.join("d"));
    let there = ctx.rng.pct(70);
    if there {
        write(&file, old.as_bytes());
    }
    let (fm, dm) = *ctx.rng.pick(&[(0o444, 0o700), (0o000, 0o700), (0o200, 0o700), (0o644, 0o500), (0o444, 0o500), (0o644, 0o600), (0o644, 0o000)]);
    if there {
        mode(&file, fm);
    }
    mode(&dir, dm);
    let p = file.to_str().unwrap().to_string();
    let abs = ctx.rng.bool();
    let p = if abs { p } else { "d/f".to_string() };
    ctx.note("modes", &format!("{} {:o} {:o} {:?}", there, fm, dm, old));
    let read = in_dir(&root, || ctx.over(|| Obj::from_file(&p).is_ok()));
    let wrote = in_dir(&root, || ctx.over(|| o.write_to_file(&p).is_ok()));
    mode(&dir, 0o700);
    if there {
        let _ = fs::symlink_metadata(&file).map(|_| mode(&file, 0o600));
    }
    let (read, wrote) = (read?, wrote?);
    let may_read = there && fm & 0o400 != 0 && dm & 0o100 != 0;
    if read != may_read {
        return Err(format!("loading a file that may {}be read {}", if may_read { "" } else { "not " }, if read { "succeeded" } else { "failed" }));
    }
    let may_write = if there { fm & 0o200 != 0 && dm & 0o100 != 0 } else { dm & 0o300 == 0o300 };
    // A way round the mode of a file, through its directory, would do as well.
    let possible = may_write || dm & 0o300 == 0o300;
    if wrote && !possible {
        return Err("writing succeeded where nothing may be written".into());
    }
    if !wrote && may_write && dm & 0o200 != 0 {
        return Err("writing failed where it is allowed".into());
    }
    let now = fs::read(&file).ok();
    if wrote && now.as_deref() != Some(want.as_bytes()) {
        return Err("writing succeeded, but the file does not hold the written form".into());
    }
    if !wrote && !may_write && now.as_deref() != if there { Some(old.as_bytes()) } else { None } {
        return Err("writing failed for lack of permission, but changed the file".into());
    }
    let mut names: Vec<_> = must(fs::read_dir(&dir), "list").flatten().map(|e| e.file_name()).collect();
    names.sort();
    if names.iter().any(|n| n != "e" && n != "f") {
        return Err(format!("writing left {:?} behind", names));
    }
    ctx.count("forbidden", 1);
    ctx.nontrivial(&format!("{} {:o} {:o} {} {}", there, fm, dm, old.len(), abs));
    Ok(())
}

/// What a load gave, comparable between loads.
fn shown(r: &Result<Obj, String>) -> String {
    match r {
        Ok(o) => format!("object {}", o.write_to_string()),
        Err(e) => format!("error {}", e),
    }
}

/// A document in a file, perhaps with included files; large now and then.
fn subject(ctx: &mut Ctx, root: &Path) -> Option<PathBuf> {
    if ctx.rng.pct(12) {
        ctx.count("large", 1);
        let n = ctx.rng.range(3_000, 60_000);
        let filler = *ctx.rng.pick(&["wört ", "x", "€ \n", "# c\n"]);
        let main = match ctx.rng.below(4) {
            0 => format!("a: \"{}\" b: 2", filler.repeat(n)),
            1 => format!("# {}\na: 1 b: 2", "é€ ".repeat(n)),
            2 => {
                write(&root.join("big.txt"), filler.repeat(n).as_bytes());
                "a: <Str \"big.txt\"> b: [<Str \"big.txt\">]".to_string()
            }
            _ => {
                write(&root.join("arr.over"), "12 -3.5\n\t".repeat(n / 10).as_bytes());
                "a: <Tup \"arr.over\"> b: 1".to_string()
            }
        };
        let p = root.join("main.over");
        write(&p, main.as_bytes());
        return Some(p);
    }
    match input(ctx, root).0 {
        super::mem::Input::File(p) => Some(p),
        super::mem::Input::Text(t) => {
            let p = root.join("main.over");
            write(&p, t.as_bytes());
            Some(p)
        }
    }
}

fn reads_only(st: &State) -> Result<(), String> {
    for o in &st.opens {
        if o.flags & libc::O_ACCMODE != libc::O_RDONLY || o.flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 {
            return Err(format!("a load opened {:?} for writing", o.path));
        }
    }
    Ok(())
}

/// Reads that are cut and interrupted make no difference.
fn soft_reads(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "r");
    let main = match subject(ctx, &root) {
        Some(p) => p,
        None => return Ok(()),
    };
    let len = fs::metadata(&main).map(|m| m.len() as usize).unwrap_or(0);
    let text = fs::read(&main).ok().and_then(|b| String::from_utf8(b).ok());
    let p = main.to_str().unwrap().to_string();
    let d = root.to_str().unwrap().to_string();
    let before = snapshot(&root);
    let calm = ctx.over(|| Obj::from_file(&p).map_err(|e| e.to_string()))?;
    let total: usize = before.values().filter_map(|x| x.2.as_ref().map(|t| t.len())).sum();
    let plan = calmed(soft(&mut ctx.rng, 25), total.max(len));
    ctx.note("plan", &format!("{:?}", plan));
    let st = State { reads: plan.clone(), ..State::default() };
    ctx.evals += 1;
    let (r, st) = in_dir(&root, || interpose::watch(st, &d, || guard(|| Obj::from_file(&p).map_err(|e| e.to_string()))));
    let r = r?;
    reads_only(&st)?;
    ctx.count("opens_seen", st.opens.len() as u64);
    let errs = st.opens.iter().map(|o| o.errors.len() as u64).sum::<u64>();
    if errs > 0 {
        ctx.count("interrupted_reads", 1);
    }
    if st.injected > errs {
        ctx.count("short_reads", 1);
    }
    let (a, b) = (guard(|| shown(&calm))?, guard(|| shown(&r))?);
    if a != b {
        return Err(format!("with reads cut short the load gives {} instead of {}", model::short(&b), model::short(&a)));
    }
    if let (Ok(x), Ok(y)) = (&calm, &r) {
        if guard(|| x != y)? {
            return Err("with reads cut short the load gives another object".into());
        }
    }
    // The same as loading the content as text, there.
    if let Some(t) = text {
        let s = in_dir(&root, || ctx.over(|| t.parse::<Obj>().map_err(|e| e.to_string())))?;
        match (&s, &r) {
            (Ok(x), Ok(y)) => {
                if guard(|| x != y || x.write_to_string() != y.write_to_string())? {
                    return Err("loading a file gives another object than loading its content as text".into());
                }
            }
            (Err(x), Err(y)) => {
                // Errors in included files name them differently, and a cycle through the main
                // file itself is met one round later from text.
                let bare = err::strip_file(y, &main);
                let same = bare.map_or(true, |y| y == x.as_str());
                if !same && !x.contains("ircular") && !y.contains("ircular") && !x.contains("depth") && !y.contains("depth") {
                    return Err(format!("loading a file gives the error {:?}, its content as text {:?}", model::short(y), model::short(x)));
                }
            }
            (Ok(_), Err(e)) if !e.contains("ircular") && !e.contains("depth") => {
                return Err(format!("loading a file gives the error {:?}, its content as text none", model::short(e)))
            }
            (Err(e), Ok(_)) => return Err(format!("loading its content as text gives the error {:?}, the file none", model::short(e))),
            _ => (),
        }
    }
    if let Some(d) = differs(&before, &snapshot(&root), &[]) {
        return Err(format!("loading changed the files: {}", d));
    }
    ctx.count("tree_unchanged", 1);
    ctx.count(if r.is_ok() { "loads_ok" } else { "loads_failed" }, 1);
    ctx.nontrivial(&format!("{}{:?}", a, plan));
    Ok(())
}

/// A read that fails anywhere makes the load fail, the same way wherever it happens in the file.
fn hard_reads(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "r");
    let main = match subject(ctx, &root) {
        Some(p) => p,
        None => return Ok(()),
    };
    let p = main.to_str().unwrap().to_string();
    let d = root.to_str().unwrap().to_string();
    let (calm, st) = {
        ctx.evals += 1;
        in_dir(&root, || interpose::watch(State::default(), &d, || guard(|| Obj::from_file(&p).map_err(|e| e.to_string()))))
    };
    let calm = calm?;
    reads_only(&st)?;
    ctx.count("opens_seen", st.opens.len() as u64);
    let opened: Vec<(String, u64)> = st.opens.iter().filter(|o| o.fd >= 0).map(|o| (o.path.clone(), o.bytes_read)).collect();
    if opened.is_empty() {
        return Ok(());
    }
    let (path, n) = opened[ctx.rng.below(opened.len())].clone();
    let included = fs::canonicalize(&path).ok() != fs::canonicalize(&main).ok();
    let errno = *ctx.rng.pick(&[libc::EIO, libc::EIO, libc::ENOMEM, libc::ESTALE]);
    let after = match ctx.rng.below(4) {
        0 => n,
        1 => n.saturating_sub(1),
        _ => ctx.rng.below(n as usize + 1) as u64,
    };
    ctx.note("plan", &format!("reading {:?} fails after {} of {} bytes with error {}", path, after, n, errno));
    // The disk may recover: then reading again would do, but going on as if nothing had happened would not.
    let once = ctx.rng.pct(30);
    let mut one = |ctx: &mut Ctx, after: u64| -> Result<(Result<Obj, String>, State), String> {
        let mut st = State { fail: Some(Fail { path: path.clone(), after, errno, once }), ..State::default() };
        if ctx.rng.bool() {
            st.reads.rest = Some((*ctx.rng.pick(&[1usize, 5, 64, 4096])).max(n as usize / 500));
        }
        ctx.evals += 1;
        let (r, st) = in_dir(&root, || interpose::watch(st, &d, || guard(|| Obj::from_file(&p).map_err(|e| e.to_string()))));
        Ok((r?, st))
    };
    let (r, st) = one(ctx, after)?;
    let (r0, _) = one(ctx, 0)?;
    if st.opens.iter().all(|o| o.errors.is_empty()) {
        // It never asked for more than it got.
        if shown(&r) != shown(&calm) {
            return Err(format!("gives {} instead of {}", model::short(&shown(&r)), model::short(&shown(&calm))));
        }
        return Ok(());
    }
    ctx.count(if included { "include_read_errors" } else { "read_errors" }, 1);
    if once {
        ctx.count("read_failed_once", 1);
        for (r, at) in [(&r, after), (&r0, 0)] {
            if r.is_ok() && shown(r) != shown(&calm) {
                return Err(format!("reading {:?} failed once after {} bytes, and the load gives {} instead of {}", path, at, model::short(&shown(r)), model::short(&shown(&calm))));
            }
        }
    }
    match (&r, &r0) {
        _ if once && (r.is_ok() || r0.is_ok() || calm.is_err()) => Ok(()),
        (Ok(o), _) => Err(format!("reading {:?} failed after {} of {} bytes, but the load succeeded: {}", path, after, n, model::short(&o.to_string()))),
        (_, Ok(_)) => Err(format!("reading {:?} failed at its first byte, but the load succeeded", path)),
        (Err(a), Err(b)) if a != b => Err(format!(
            "reading {:?} failed after {} bytes and the load reports {:?}; failing at its first byte it reports {:?}",
            path, after, model::short(a), model::short(b)
        )),
        (Err(a), _) => {
            if Err(a) == calm.as_ref() {
                // Then it is not about the failed read, unless it met the fault of the text first.
                let first = st.opens.iter().position(|o| !o.errors.is_empty()).unwrap_or(0);
                let last = first + 1 == st.opens.len();
                if !last {
                    return Ok(());
                }
                return Err(format!("reading {:?} failed after {} bytes, but the load reports {:?}", path, after, model::short(a)));
            }
            ctx.count("loads_failed", 1);
            ctx.nontrivial(&format!("{}{}{}", shown(&calm), path, after));
            Ok(())
        }
    }
}

/// A pipe gives its content bit by bit and has no size.
fn pipe(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "p");
    let prof = vary(ctx, gen::Prof::std());
    let toks = document(ctx, prof);
    let l = gen::layout(&mut ctx.rng);
    let mut text = gen::render(&mut ctx.rng, &toks, l).text;
    if ctx.rng.pct(20) {
        text = err::edit(&mut ctx.rng, &text);
    }
    if ctx.rng.pct(10) {
        text.push_str(&format!("\nzz: \"{}\"", "ö".repeat(50_000)));
    }
    ctx.note("text", &text);
    let fifo = root.join("fifo");
    let c = std::ffi::CString::new(fifo.to_str().unwrap()).unwrap();
    if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
        return Ok(());
    }
    let b = text.clone().into_bytes();
    let mut rng = Rng::new(ctx.rng.next());
    let f2 = fifo.clone();
    let t = std::thread::spawn(move || {
        let mut w = match fs::OpenOptions::new().write(true).open(&f2) {
            Ok(w) => w,
            Err(_) => return,
        };
        let mut at = 0;
        let cuts = rng.range(1, 6);
        for i in 0..=cuts {
            let end = if i == cuts { b.len() } else { at + rng.below(b.len() - at + 1) };
            if w.write_all(&b[at..end]).is_err() {
                return;
            }
            at = end;
            if rng.bool() {
                std::thread::sleep(Duration::from_micros(rng.below(300) as u64));
            }
        }
    });
    let p = fifo.to_str().unwrap().to_string();
    let r = ctx.over(|| Obj::from_file(&p).map_err(|e| e.to_string()));
    {
        // Lets the writer go if nobody ever opened the pipe.
        use std::os::unix::fs::OpenOptionsExt;
        let _ = fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&fifo);
    }
    let _ = t.join();
    let r = r?;
    ctx.count("pipes", 1);
    let s = ctx.over(|| text.parse::<Obj>().map_err(|e| e.to_string()))?;
    match (&s, &r) {
        (Ok(x), Ok(y)) if guard(|| x == y)? => Ok(()),
        (Err(x), Err(y)) if err::strip_file(y, &fifo).unwrap_or(y) == x => Ok(()),
        _ => Err(format!("a pipe gives {}, its content {}", model::short(&shown(&r)), model::short(&shown(&s)))),
    }
}
