//! Memory: no invalid use (C21), and everything is released (C22).

use super::includes::in_dir;
use super::limits::small_stack;
use super::{err, robust, util::*};
use crate::alloc;
use crate::gen::{self, Gen, Prof};
use crate::interpose::{self, Plan, State, Step};
use crate::rng::Rng;
use crate::sup::{guard, must, Ctx, PropDef};
use over::arr::Arr;
use over::obj::Pair;
use over::tup::Tup;
use over::value::Value;
use over::Obj;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

/// What one load is given.
#[derive(Clone)]
pub enum Input {
    Text(String),
    File(PathBuf),
}

impl Input {
    pub fn load(&self) -> Result<Obj, over::OverError> {
        match self {
            Input::Text(t) => t.parse::<Obj>(),
            Input::File(p) => Obj::from_file(p.to_str().unwrap_or("")),
        }
    }
}

fn small(ctx: &mut Ctx) -> Prof {
    let mut p = vary(ctx, Prof::std());
    p.size = p.size.min(if light() { 12 } else { 80 });
    p
}

/// Runs under a tool that makes everything much slower use small inputs.
pub fn light() -> bool {
    use std::sync::OnceLock;
    static L: OnceLock<bool> = OnceLock::new();
    *L.get_or_init(|| std::env::var_os("OVERMON_LIGHT").is_some())
}

fn text_of(ctx: &mut Ctx, prof: Prof) -> String {
    let toks = document(ctx, prof);
    let l = gen::layout(&mut ctx.rng);
    gen::render(&mut ctx.rng, &toks, l).text
}

/// Some input, good or bad; its files are below `root`.
pub fn input(ctx: &mut Ctx, root: &Path) -> (Input, &'static str) {
    let large = ctx.idx >= crate::sup::LARGE;
    if large || (ctx.prop == "C21" && ctx.rng.pct(1)) {
        let fam = *ctx.rng.pick(&super::scale::ALL);
        let bad = ctx.rng.pct(40);
        let mut t = super::scale::text(&mut ctx.rng, fam, bad);
        // Slow tools get less; what is cut off is a fault of its own.
        let mut most = if large { 400_000 } else { 30_000 };
        if t.len() > most {
            while !t.is_char_boundary(most) {
                most -= 1;
            }
            t.truncate(most);
        }
        ctx.note("large document", &format!("{:?}, {} bytes", fam, t.len()));
        if ctx.rng.bool() {
            return (Input::Text(t), "large_cases");
        }
        let p = root.join("large.over");
        write(&p, t.as_bytes());
        return (Input::File(p), "large_cases");
    }
    let prof = small(ctx);
    let (text, what) = match ctx.rng.below(100) {
        0..=17 => (text_of(ctx, prof), "valid"),
        18..=27 => {
            let mut t = text_of(ctx, prof);
            for _ in 0..ctx.rng.range(1, 4) {
                t = err::edit(&mut ctx.rng, &t);
            }
            (t, "edited")
        }
        28..=35 => (robust::soup(&mut ctx.rng), "soup"),
        36..=47 => match err::faulty(ctx, prof, false) {
            Some(f) => {
                let l = gen::layout(&mut ctx.rng);
                (gen::render(&mut ctx.rng, &f.toks, l).text, "faulty")
            }
            None => (String::new(), "valid"),
        },
        48..=52 => (robust::chain(&mut ctx.rng), "alias_chains"),
        53..=60 => {
            let t = text_of(ctx, prof);
            let b = robust::bytes(&mut ctx.rng, &t);
            let p = root.join("raw.over");
            write(&p, &b);
            ctx.note("bytes", &format!("{:?}", b));
            return (Input::File(p), "bytes");
        }
        61..=64 => {
            // Too deep, by brackets or by files.
            let n = ctx.rng.range(60, 80);
            if ctx.rng.bool() {
                let b = *ctx.rng.pick(&[("[", "]"), ("(", ")"), ("{a:", "}")]);
                (format!("x: {}{}", b.0.repeat(n), b.1.repeat(n)), "deep")
            } else {
                for i in 0..n {
                    write(&root.join(format!("f{}.over", i)), format!("a: <Obj \"f{}.over\"> b: [1 2]", i + 1).as_bytes());
                }
                let last = *ctx.rng.pick(&["a: 1", "a: <Obj \"f0.over\">", "a: ["]);
                write(&root.join(format!("f{}.over", n)), last.as_bytes());
                return (Input::File(root.join("f0.over")), "deep");
            }
        }
        _ => {
            let mut prof = prof;
            prof.p_inc = 40;
            let faulty = ctx.rng.below(3);
            let (toks, files, dirs) = if faulty == 0 {
                let r = root.to_str().unwrap().to_string();
                match err::faulty_in(ctx, prof, &r, true) {
                    Some(f) => (f.toks, f.files, f.dirs),
                    None => return (Input::Text(String::new()), "valid"),
                }
            } else {
                let mut g = Gen::new(&mut ctx.rng, prof);
                g.root = root.to_str().unwrap().to_string();
                let toks = g.document("");
                let (f, d) = (std::mem::take(&mut g.files), g.dirs.clone());
                (toks, f, d)
            };
            let texts = write_files(ctx, root, &files, &dirs, None);
            if faulty == 1 {
                for (f, t) in files.iter().zip(&texts) {
                    match ctx.rng.below(6) {
                        0 => write(&root.join(&f.path), err::edit(&mut ctx.rng, t).as_bytes()),
                        1 => write(&root.join(&f.path), format!("{} z: <Obj \"{}/main.over\">", t, root.display()).as_bytes()),
                        2 => drop(std::fs::remove_file(root.join(&f.path))),
                        _ => (),
                    }
                }
            }
            let l = gen::layout(&mut ctx.rng);
            let main = gen::render(&mut ctx.rng, &toks, l).text;
            let p = root.join("main.over");
            write(&p, main.as_bytes());
            ctx.note("main file", &main);
            return (Input::File(p), if faulty == 2 { "tree" } else { "faulty_tree" });
        }
    };
    ctx.note("text", &text);
    if ctx.rng.pct(25) {
        let p = root.join("text.over");
        write(&p, text.as_bytes());
        return (Input::File(p), what);
    }
    (Input::Text(text), what)
}

/// Everything a program may still hold of what it loaded.
#[derive(Default)]
pub struct Held {
    vals: Vec<Value>,
    errors: Vec<over::OverError>,
    texts: Vec<String>,
    types: Vec<over::types::Type>,
    /// Strings that are not UTF-8.
    bad: Vec<String>,
}

impl Held {
    fn text(&mut self, s: &str) {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            self.bad.push(format!("{:?}", s.as_bytes()));
        }
    }

    /// Reads all of a value (up to a limit); keeps some of what it meets.
    fn read(&mut self, v: &Value, rng: &mut Rng, left: &mut usize) {
        if *left == 0 {
            return;
        }
        *left -= 1;
        if rng.pct(8) {
            self.vals.push(v.clone());
        }
        match v {
            Value::Str(s) => self.text(s),
            Value::Arr(a) => {
                for x in a.iter() {
                    self.read(x, rng, left);
                }
                if rng.pct(10) {
                    self.types.push(a.inner_type());
                }
            }
            Value::Tup(t) => {
                for x in t.iter() {
                    self.read(x, rng, left);
                }
            }
            Value::Obj(o) => {
                for p in o.iter() {
                    self.text(&p.0);
                    self.read(&p.1, rng, left);
                }
                if rng.bool() {
                    if let Some(x) = o.get("a") {
                        self.vals.push(x);
                    }
                }
                if let Some(p) = o.get_parent() {
                    self.read(&Value::Obj(p), rng, left);
                }
            }
            _ => (),
        }
    }

    pub fn use_result(&mut self, r: Result<Obj, over::OverError>, rng: &mut Rng) -> bool {
        match r {
            Err(e) => {
                let s = e.to_string();
                self.text(&s);
                if rng.bool() {
                    self.errors.push(e);
                } else {
                    drop(e);
                    self.texts.push(s);
                }
                false
            }
            Ok(o) => {
                let mut left = 3000;
                self.read(&Value::Obj(o.clone()), rng, &mut left);
                if left > 0 {
                    match rng.below(4) {
                        0 => self.texts.push(o.write_to_string()),
                        1 => {
                            let s = o.to_string();
                            self.text(&s);
                            // What was printed is input again.
                            if let Ok(Ok(v)) = guard(|| format!("x: {}", s).parse::<Obj>()) {
                                self.vals.push(v.into());
                            }
                        }
                        2 => self.types.push(Value::Obj(o.clone()).get_type()),
                        _ => {
                            let _ = o == o.clone();
                        }
                    }
                }
                if rng.pct(70) {
                    self.vals.push(o.into());
                }
                true
            }
        }
    }

    /// Builds new values from what is held, some of them refused.
    pub fn build(&mut self, rng: &mut Rng) {
        if self.vals.is_empty() {
            return;
        }
        for _ in 0..rng.below(4) {
            let some: Vec<Value> = (0..rng.below(4)).map(|_| self.vals[rng.below(self.vals.len())].clone()).collect();
            match rng.below(4) {
                0 => match Arr::from_values(some) {
                    Ok(a) => self.vals.push(a.into()),
                    Err(e) => self.errors.push(e),
                },
                1 => self.vals.push(Tup::from_values(some).into()),
                2 => {
                    let names = ["a", "b", "b2", "0", "", "é", "x y"];
                    let parent = some.iter().find_map(|v| if let Value::Obj(o) = v { Some(o.clone()) } else { None });
                    let pairs: Vec<Pair> = some.into_iter().enumerate().map(|(i, v)| Pair(format!("{}{}", rng.pick(&names), i), v)).collect();
                    match Obj::from_pairs(pairs, if rng.bool() { parent } else { None }) {
                        Ok(o) => self.vals.push(o.into()),
                        Err(e) => self.errors.push(e),
                    }
                }
                _ => {
                    for v in some {
                        if let Err(e) = v.get_int() {
                            self.errors.push(e);
                        }
                        if let Ok(a) = v.get_arr() {
                            match a.get(rng.below(4)) {
                                Ok(x) => self.vals.push(x),
                                Err(e) => self.errors.push(e),
                            }
                        }
                    }
                }
            }
        }
    }

    /// Lets go of everything in some order, using the rest in between.
    pub fn release(mut self, rng: &mut Rng) -> Vec<String> {
        rng.shuffle(&mut self.vals);
        rng.shuffle(&mut self.errors);
        if rng.pct(10) && !self.vals.is_empty() {
            let half = self.vals.split_off(self.vals.len() / 2);
            let _ = small_stack(move || drop(half));
        }
        while let Some(v) = self.vals.pop() {
            if rng.pct(20) {
                let mut left = 200;
                let mut h = Held::default();
                h.read(&v, rng, &mut left);
                self.bad.extend(h.bad);
            }
            drop(v);
            if rng.pct(30) {
                drop(self.errors.pop());
            }
        }
        for e in &self.errors {
            let s = format!("{} {:?}", e, e);
            if std::str::from_utf8(s.as_bytes()).is_err() {
                self.bad.push(format!("{:?}", s.as_bytes()));
            }
        }
        self.bad
    }
}

// ---------------------------------------------------------------- C21

pub static C21: PropDef = PropDef {
    id: "C21",
    run: c21,
    quick: 6_000,
    thorough: 400_000,
    level: "exploration",
    rule: "histories of loads (valid, faulty, hostile, from strings, files and trees of includes) whose results, \
           errors and derived handles are used, combined into new values and released in random orders, and the \
           workloads of all other monitors, in four builds: with the compiler's undefined-behaviour and overflow \
           checks, with AddressSanitizer, under valgrind memcheck, and a corpus of small inputs under the Miri \
           interpreter (thorough: also MemorySanitizer); every string met must be valid UTF-8; some of large sizes; non-trivial: distinct \
           histories that loaded at least one object",
    must: &["histories", "loads_ok", "loads_failed", "strings_checked", "other_workloads", "large_cases", "asan: histories", "memcheck: histories", "miri: texts_ok", "miri: texts_failed"],
    assumptions: &[
        "AddressSanitizer, valgrind and Miri report what they are documented to report; uninitialised reads are looked for by valgrind and Miri",
    ],
};

pub fn history(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "m");
    let n = ctx.rng.range(1, 4);
    let mut held = Held::default();
    let mut oks = 0;
    let mut key = String::new();
    for i in 0..n {
        let dir = root.join(format!("d{}", i));
        must(std::fs::create_dir_all(&dir), "scratch directory");
        let (inp, what) = input(ctx, &dir);
        ctx.count(what, 1);
        if let Input::Text(t) = &inp {
            key.push_str(t);
        } else {
            key.push_str(&ctx.idx.to_string());
        }
        let mut rng = Rng::new(ctx.rng.next());
        let r = ctx.over(|| in_dir(&dir, || held.use_result(inp.load(), &mut rng)));
        // Panics are C01's matter.
        if let Ok(ok) = r {
            ctx.count(if ok { "loads_ok" } else { "loads_failed" }, 1);
            oks += usize::from(ok);
        }
        let _ = ctx.over(|| held.build(&mut rng));
        if ctx.rng.pct(30) {
            // Something goes while other things stay.
            let k = held.vals.len();
            if k > 0 {
                held.vals.swap_remove(ctx.rng.below(k));
            }
        }
    }
    let mut rng = Rng::new(ctx.rng.next());
    ctx.count("strings_checked", 1 + held.texts.len() as u64);
    ctx.count("handles_held", held.vals.len() as u64);
    let bad = guard(|| held.release(&mut rng)).unwrap_or_default();
    if let Some(b) = bad.first() {
        return Err(format!("a string is not UTF-8: {}", b));
    }
    ctx.count("histories", 1);
    if oks > 0 {
        ctx.nontrivial(&key);
    }
    Ok(())
}

/// Monitors whose workloads are run again here.
const OTHERS: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C24",
    "C25", "C26",
];

fn c21(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.rng.pct(60) || light() {
        return history(ctx);
    }
    let id = *ctx.rng.pick(&OTHERS);
    let def = super::find(id).unwrap();
    ctx.note("workload", id);
    // Its verdict is its own check's matter.
    let before = ctx.counts.clone();
    let (seen, samples) = (std::mem::take(&mut ctx.seen), std::mem::take(&mut ctx.samples));
    let _ = guard(|| (def.run)(ctx));
    ctx.counts = before;
    ctx.seen = seen;
    ctx.samples = samples;
    let _ = std::env::set_current_dir(&ctx.dir);
    ctx.count("other_workloads", 1);
    Ok(())
}

// ---------------------------------------------------------------- C22

pub static C22: PropDef = PropDef {
    id: "C22",
    run: c22,
    quick: 360_000,
    thorough: 3_600_000,
    level: "exploration",
    rule: "loads that succeed, that fail at every kind of fault in the text or in included files, and that fail at a \
           chosen open or read call (injected error), followed by use, building of new values, writing (also \
           failing) and release in random order; bytes and blocks held from the allocator and open file \
           descriptors are compared before and after; growth that comes again when the same or a renamed input \
           is loaded counts; some of large sizes; non-trivial: distinct inputs",
    must: &["balanced", "loads_ok", "loads_failed", "blocks_taken", "large_cases", "injected_open", "injected_read", "tree", "faulty_tree", "faulty", "deep", "bytes", "writes"],
    assumptions: &[
        "memory is what the process takes from Rust's global allocator",
        "growth happening once for the whole process (lazily built statics) is not a leak",
    ],
};

static WARM: AtomicUsize = AtomicUsize::new(0);
static ONCE: AtomicUsize = AtomicUsize::new(0);

fn fds() -> Vec<(u32, String)> {
    let mut v: Vec<(u32, String)> = must(std::fs::read_dir("/proc/self/fd"), "/proc/self/fd")
        .filter_map(|e| {
            let e = e.ok()?;
            let n = e.file_name().to_str()?.parse().ok()?;
            Some((n, std::fs::read_link(e.path()).ok()?.display().to_string()))
        })
        // The listing's own descriptor.
        .filter(|(_, p)| !p.contains("/proc/") && !p.ends_with("/fd"))
        .collect();
    v.sort();
    v
}

#[derive(Clone)]
struct Act {
    input: Input,
    dir: PathBuf,
    opens: Vec<i32>,
    reads: Plan,
    writes: Plan,
    /// Write what was loaded.
    out: Option<PathBuf>,
    seed: u64,
}

#[derive(Default)]
struct Took {
    ok: u64,
    injected: u64,
    wrote: u64,
}

impl Act {
    /// Everything from the load to the last release.
    fn run(&self) -> Took {
        let mut rng = Rng::new(self.seed);
        let st = State {
            open_errors: self.opens.clone(),
            reads: self.reads.clone(),
            writes: self.writes.clone(),
            ..State::default()
        };
        let mut took = Took::default();
        let d = self.dir.to_str().unwrap();
        let (_, st) = interpose::watch(st, d, || {
            let mut held = Held::default();
            let r = guard(|| {
                let r = self.input.load();
                if let (Ok(o), Some(p)) = (&r, &self.out) {
                    took.wrote += 1;
                    if let Err(e) = o.write_to_file(p.to_str().unwrap()) {
                        held.errors.push(e);
                    }
                }
                held.use_result(r, &mut rng)
            });
            took.ok = u64::from(r == Ok(true));
            let _ = guard(|| held.build(&mut rng));
            let _ = guard(|| held.release(&mut rng));
        });
        took.injected = st.injected;
        took
    }

    fn measure(&self) -> (Took, (i64, i64), i64, u64) {
        let fd0 = fds();
        let n0 = fd0.len() as i64;
        drop(fd0);
        let t0 = alloc::TOTAL_BLOCKS.load(Ordering::Relaxed);
        let a = alloc::live();
        let took = self.run();
        let b = alloc::live();
        let t1 = alloc::TOTAL_BLOCKS.load(Ordering::Relaxed);
        let fd1 = fds().len() as i64;
        (took, (b.0 - a.0, b.1 - a.1), fd1 - n0, t1 - t0)
    }
}

fn warm_up(ctx: &Ctx) {
    if WARM.fetch_add(1, Ordering::Relaxed) > 0 {
        return;
    }
    let p = ctx.dir.join("warm.over");
    write(&p, b"a: 1 b: [1.5 2] c: (\"x\" {d: 1}) @g: {e: a} h: @g.e");
    write(&ctx.dir.join("warm2.over"), b"a: <Obj \"warm.over\"> b: <Str \"warm.over\"> c: a.b.0");
    for input in [Input::File(ctx.dir.join("warm2.over")), Input::Text("a: [1 \"x\"]".into()), Input::File(ctx.dir.join("gone.over"))] {
        for k in 0..4 {
            let act = Act {
                input: input.clone(),
                dir: ctx.dir.clone(),
                opens: vec![],
                reads: Plan::default(),
                writes: Plan::default(),
                out: Some(ctx.dir.join("warm.out")),
                seed: k,
            };
            act.measure();
        }
    }
    let _ = small_stack(|| ());
}

/// The same text with other names and digits.
fn renamed(act: &Act, k: usize) -> Option<Act> {
    let ren = |t: &str| -> String {
        t.chars()
            .map(|c| match c {
                'p'..='z' => (b'p' + ((c as u8 - b'p') as usize + k) as u8 % 11) as char,
                '2'..='8' => (b'2' + ((c as u8 - b'2') as usize + k) as u8 % 7) as char,
                c => c,
            })
            .collect()
    };
    let mut a = act.clone();
    a.input = match &act.input {
        Input::Text(t) => Input::Text(ren(t)),
        Input::File(p) => {
            let t = String::from_utf8(std::fs::read(p).ok()?).ok()?;
            let q = p.with_file_name(format!("renamed{}.over", k));
            write(&q, ren(&t).as_bytes());
            Input::File(q)
        }
    };
    Some(a)
}

pub fn c22(ctx: &mut Ctx) -> Result<(), String> {
    warm_up(ctx);
    let root = fresh_dir(ctx, "m");
    let (inp, what) = input(ctx, &root);
    ctx.count(what, 1);
    let mut act = Act { input: inp, dir: root.clone(), opens: vec![], reads: Plan::default(), writes: Plan::default(), out: None, seed: ctx.rng.next() };
    let mut injected = "";
    if interpose::ACTIVE && matches!(act.input, Input::File(_)) && ctx.rng.bool() {
        let k = ctx.rng.below(5);
        if ctx.rng.bool() {
            injected = "injected_open";
            act.opens = vec![0; k];
            act.opens.push(*ctx.rng.pick(&[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO]));
        } else {
            injected = "injected_read";
            act.reads.steps = vec![Step::Max(ctx.rng.range(1, 40)); k * 2];
            act.reads.steps.push(Step::Err(*ctx.rng.pick(&[libc::EIO, libc::EISDIR, libc::EBADF])));
        }
        ctx.note("injected", &format!("{} {:?} {:?}", injected, act.opens, act.reads));
    }
    if ctx.rng.pct(15) {
        act.out = Some(root.join(if ctx.rng.bool() { "out.over" } else { "none/out.over" }));
        if interpose::ACTIVE && ctx.rng.bool() {
            act.writes.limit = Some((ctx.rng.below(40), libc::ENOSPC));
        }
    }
    let key = match &act.input {
        Input::Text(t) => t.clone(),
        Input::File(_) => format!("file {} {}", ctx.seed, ctx.idx),
    };
    let act2 = act.clone();
    let dir = root.clone();
    let (took, grew, fd, blocks) = in_dir(&dir, || act.measure());
    ctx.evals += 1;
    ctx.count(if took.ok > 0 { "loads_ok" } else { "loads_failed" }, 1);
    ctx.count("blocks_taken", blocks);
    ctx.count("writes", took.wrote);
    if took.injected > 0 && !injected.is_empty() {
        ctx.count(injected, 1);
    }
    ctx.nontrivial(&key);
    if grew.0 > 0 || grew.1 > 0 || fd > 0 {
        // Once may be a static; twice is not.
        ctx.count("grew_once", 1);
        let again: Vec<_> = (0..3)
            .map(|k| {
                let a = if k == 2 { renamed(&act2, 3).unwrap_or_else(|| act2.clone()) } else { act2.clone() };
                in_dir(&dir, || a.measure())
            })
            .collect();
        for (i, (_, g, f, _)) in again.iter().enumerate() {
            if g.0 > 0 || g.1 > 0 || *f > 0 {
                return Err(format!(
                    "not everything was released: {} bytes in {} blocks and {} file descriptors more after the first time, {} in {} and {} after {}",
                    grew.0, grew.1, fd, g.0, g.1, f,
                    if i == 2 { "loading it with other names" } else { "doing the same again" }
                ));
            }
        }
        if ONCE.fetch_add(1, Ordering::Relaxed) > 12 {
            return Err(format!("again and again something stays: this time {} bytes in {} blocks and {} file descriptors", grew.0, grew.1, fd));
        }
        return Ok(());
    }
    ctx.count("balanced", 1);
    Ok(())
}
