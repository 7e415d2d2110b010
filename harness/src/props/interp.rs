//! Phases under other builds and tools: AddressSanitizer, MemorySanitizer, ThreadSanitizer,
//! valgrind memcheck and the Miri interpreter (C20, C21).

use super::api::ids_of;
use super::mem::{Held, Input};
use crate::rng::{hash_str, mix, Rng};
use crate::sup::{self, guard, must, Ctx, Exe, Merged, PropDef};
use over::arr::Arr;
use over::tup::Tup;
use over::value::Value;
use over::{Obj, ReferenceType};
use std::collections::HashSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

fn build(name: &str) -> Option<PathBuf> {
    std::env::var_os(name).map(PathBuf::from).filter(|p| p.exists())
}

fn exe(path: &Path, slow: f64, env: &[(&str, &str)]) -> Exe {
    let mut e = Exe::at(path);
    e.slow = slow;
    e.env = env.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    e
}

pub fn after(def: &PropDef, m: &mut Merged, seed: u64, thorough: bool) {
    let n = |quick: u64, deep: u64| if thorough { deep } else { quick };
    if def.id == "C20" {
        if let Some(p) = build("OVERMON_TSAN") {
            let e = exe(&p, 10.0, &[("TSAN_OPTIONS", "exitcode=66:halt_on_error=1:second_deadlock_stack=1")]);
            m.absorb(sup::run_shards(def, &e, mix(seed ^ 1), thorough, n(1_600, 40_000), 4), "tsan: ");
        }
        miri(m, seed, "threads", n(25, 900), "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.05", None);
    }
    if def.id == "C21" {
        if let Some(p) = build("OVERMON_ASAN") {
            let opt = "exitcode=77:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1";
            let e = exe(&p, 6.0, &[("ASAN_OPTIONS", opt)]);
            m.absorb(sup::run_shards(def, &e, mix(seed ^ 2), thorough, n(5_000, 300_000), 8), "asan: ");
        }
        if thorough {
            if let Some(p) = build("OVERMON_MSAN") {
                let e = exe(&p, 6.0, &[("MSAN_OPTIONS", "exitcode=77")]);
                m.absorb(sup::run_shards(def, &e, mix(seed ^ 3), thorough, 200_000, 8), "msan: ");
            }
        }
        let me = must(std::env::current_exe(), "current_exe");
        let mut e = exe(&me, 60.0, &[("OVERMON_LIGHT", "1")]);
        let args = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--max-stackframe=8000000", "--main-stacksize=16000000"];
        e.cmd = args.iter().map(|s| s.to_string()).chain(e.cmd).collect();
        m.absorb(sup::run_shards(def, &e, mix(seed ^ 4), thorough, n(240, 12_000), 8), "memcheck: ");
        let dir = sup::scratch_dir();
        corpus(&dir, seed, n(2_000, 40_000));
        miri(m, seed, "mem", n(25, 900), "-Zmiri-disable-isolation -Zmiri-ignore-leaks", Some(&dir));
        let _ = fs::remove_dir_all(&dir);
    }
}

/// Small inputs, written by this build, for the interpreter.
fn corpus(dir: &Path, seed: u64, n: u64) {
    let work = dir.join("gen");
    must(fs::create_dir_all(&work), "scratch directory");
    let mut ctx = Ctx::new("C21", seed, false, work.clone());
    let mut k = 0;
    for i in 0..n * 4 {
        ctx.start(i);
        let sub = work.join("i");
        let _ = fs::remove_dir_all(&sub);
        must(fs::create_dir_all(&sub), "scratch directory");
        let (inp, _) = super::mem::input(&mut ctx, &sub);
        match inp {
            Input::Text(t) if t.len() <= 160 => must(fs::write(dir.join(format!("{}.s", k)), t), "corpus"),
            Input::File(_) => {
                // A few small files, the main one last.
                let all: Vec<PathBuf> = files(&sub);
                let size: u64 = all.iter().filter_map(|p| fs::metadata(p).ok()).map(|m| m.len()).sum();
                if size > 250 || all.len() > 4 {
                    continue;
                }
                must(fs::rename(&sub, dir.join(format!("{}.d", k))), "corpus");
            }
            _ => continue,
        }
        k += 1;
        if k >= n {
            break;
        }
    }
    let _ = fs::remove_dir_all(&work);
}

fn files(dir: &Path) -> Vec<PathBuf> {
    let mut v = vec![];
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                v.extend(files(&p));
            } else {
                v.push(p);
            }
        }
    }
    v
}

/// Runs `special miri MODE` in 8 interpreters for about `secs` seconds.
fn miri(m: &mut Merged, seed: u64, mode: &str, secs: u64, flags: &str, dir: Option<&Path>) {
    let harness = match build("OVERMON_MIRI") {
        Some(h) => h,
        None => return,
    };
    let target = std::env::var("OVERMON_MIRI_TARGET").unwrap_or_default();
    let scratch = sup::scratch_dir();
    let mut kids: Vec<(Child, PathBuf)> = vec![];
    for k in 0..8u64 {
        let log = scratch.join(k.to_string());
        must(fs::create_dir_all(&log), "scratch directory");
        let out = must(fs::File::create(log.join("out")), "log");
        let err = must(fs::File::create(log.join("err")), "log");
        let work = log.join("w");
        must(fs::create_dir_all(&work), "scratch directory");
        let child = Command::new("cargo")
            .args(["+nightly", "miri", "run", "--quiet", "--offline", "--locked", "--no-default-features", "--"])
            .args(["special", "miri", mode])
            .arg(mix(seed ^ k).to_string())
            .arg(secs.to_string())
            .arg(&work)
            .args(dir)
            .args(dir.map(|_| format!("{}", k)))
            .current_dir(&harness)
            .env("CARGO_TARGET_DIR", &target)
            .env("MIRIFLAGS", format!("{} -Zmiri-seed={}", flags, mix(seed ^ (k << 8)) >> 1))
            .stdin(Stdio::null())
            .stdout(out)
            .stderr(err)
            .spawn();
        kids.push((must(child, "spawn miri"), log));
    }
    let began = Instant::now();
    let limit = Duration::from_secs(secs * 3 + 120);
    for (mut c, log) in kids {
        let st = loop {
            match must(c.try_wait(), "wait") {
                Some(st) => break Some(st),
                None if began.elapsed() > limit => {
                    let _ = Command::new("pkill").args(["-P", &c.id().to_string()]).status();
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                None => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        let out = fs::read(log.join("out")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let err = fs::read(log.join("err")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let mut last = "";
        for l in out.lines() {
            match l.split_once(' ') {
                Some(("count", k)) => *m.counts.entry(format!("miri: {}", k)).or_insert(0) += 1,
                Some(("at", x)) => last = x,
                Some(("wrong", x)) => m.viols.push((0, format!("miri: {}", x), format!("{}\n", last))),
                _ => (),
            }
        }
        m.evals += out.lines().filter(|l| l.starts_with("count ")).count() as u64;
        // What it was loading when it stopped.
        let shown = || dir.and_then(|d| show(&d.join(last))).unwrap_or_default();
        let ub = err.lines().position(|l| l.starts_with("error") && l.contains("Undefined Behavior"));
        if let Some(at) = ub {
            let text: Vec<&str> = err.lines().skip(at).take(40).collect();
            m.viols.push((0, format!("miri: {}", text.join("\n")), format!("while loading {}\n{}", last, shown())));
        } else if st.map_or(false, |s| !s.success()) && !out.lines().any(|l| l.starts_with("wrong ")) {
            // Something the interpreter cannot do: observed less, but no verdict against the code.
            let why = err.lines().find(|l| l.starts_with("error")).unwrap_or("?");
            *m.counts.entry(format!("miri: stopped: {}", sup::head(why, 200))).or_insert(0) += 1;
        } else if st.is_none() {
            *m.counts.entry("miri: stopped: out of time".into()).or_insert(0) += 1;
        }
    }
    let _ = fs::remove_dir_all(&scratch);
}

fn show(p: &Path) -> Option<String> {
    if p.is_dir() {
        let mut s = String::new();
        for f in files(p) {
            let b = fs::read(&f).ok()?;
            s.push_str(&format!("--- {}\n{}\n", f.display(), String::from_utf8_lossy(&b)));
        }
        return Some(s);
    }
    fs::read(p).ok().map(|b| String::from_utf8_lossy(&b).into_owned())
}

// ---------------------------------------------------------------- inside the interpreter

/// `special miri MODE SEED SECONDS WORKDIR [DIR K]`
pub fn miri_main(a: &[String]) -> i32 {
    let mode = a.first().map(|s| s.as_str()).unwrap_or("");
    if mode == "nothing" {
        return 0;
    }
    let seed: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let work = PathBuf::from(a.get(3).map(|s| s.as_str()).unwrap_or("."));
    sup::install_panic_hook();
    let end = Instant::now() + Duration::from_secs(secs);
    match mode {
        "mem" => {
            let dir = PathBuf::from(a.get(4).map(|s| s.as_str()).unwrap_or("."));
            let k: u64 = a.get(5).and_then(|s| s.parse().ok()).unwrap_or(0);
            miri_mem(seed, end, &dir, k)
        }
        "threads" => miri_threads(seed, end, &work),
        _ => 64,
    }
}

fn miri_mem(seed: u64, end: Instant, dir: &Path, k: u64) -> i32 {
    let mut rng = Rng::new(seed);
    let mut held = Held::default();
    let mut i = k;
    while Instant::now() < end {
        let (s, d) = (dir.join(format!("{}.s", i)), dir.join(format!("{}.d", i)));
        let inp = if let Ok(t) = fs::read_to_string(&s) {
            println!("at {}.s", i);
            Input::Text(t)
        } else if d.exists() {
            println!("at {}.d", i);
            let main = ["main.over", "text.over", "raw.over", "f0.over"].iter().map(|n| d.join(n)).find(|p| p.exists());
            match main {
                Some(p) => Input::File(p),
                None => {
                    i += 8;
                    continue;
                }
            }
        } else {
            break;
        };
        match guard(|| held.use_result(inp.load(), &mut rng)) {
            Ok(true) => println!("count texts_ok"),
            Ok(false) => println!("count texts_failed"),
            Err(_) => (),
        }
        let _ = guard(|| held.build(&mut rng));
        if rng.pct(40) {
            let h = std::mem::take(&mut held);
            if let Ok(bad) = guard(|| h.release(&mut rng)) {
                if let Some(b) = bad.first() {
                    println!("wrong a string is not UTF-8: {}", b);
                    return 3;
                }
            }
            println!("count releases");
        }
        i += 8;
    }
    0
}

const TEXTS: [&str; 10] = [
    "a: 1 b: [1 2]",
    "a: (1 \"x\") b: a.1",
    "@g: {x: 1} y: @g z: @g.x",
    "p: {a: 2} q: {^: <\"inc.over\"> b: -1.5}",
    "a: <\"inc.over\"> b: <Str \"inc.over\"> c: a.k",
    "a: [1 \"x\"]",
    "a: b",
    "a: {b: <\"bad.over\">}",
    "a: 1+2*3/4 b: \"p\"+\"q\" c: [1]+[2]",
    "a: <Arr \"arr.over\"> b: <Tup \"arr.over\">",
];

fn result(t: &str) -> (String, Option<Obj>) {
    match t.parse::<Obj>() {
        Ok(o) => (o.to_string(), Some(o)),
        Err(e) => (e.to_string(), None),
    }
}

fn miri_threads(seed: u64, end: Instant, work: &Path) -> i32 {
    let _ = fs::write(work.join("inc.over"), "k: 7 @h: [1] l: @h");
    let _ = fs::write(work.join("bad.over"), "k: 7 l: m");
    let _ = fs::write(work.join("arr.over"), "1 2 3");
    let _ = std::env::set_current_dir(work);
    let mut rng = Rng::new(seed);
    // The very first uses of the library race too.
    let mut alone: Option<Vec<String>> = None;
    while Instant::now() < end {
        let n = rng.range(2, 3);
        let picks: Vec<Vec<usize>> = (0..n).map(|_| (0..rng.range(1, 4)).map(|_| rng.below(TEXTS.len() + 5)).collect()).collect();
        let shared: Vec<Obj> = if alone.is_none() { vec![] } else { vec![result(TEXTS[0]).1.unwrap(), result(TEXTS[2]).1.unwrap()] };
        let counts: Vec<usize> = shared.iter().map(|o| o.num_references()).collect();
        let pool: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
        let bar = Arc::new(Barrier::new(n));
        let order = Arc::new(Mutex::new(String::new()));
        let ts: Vec<_> = picks
            .iter()
            .cloned()
            .enumerate()
            .map(|(me, ops)| {
                let (shared, pool, bar, order) = (shared.clone(), pool.clone(), bar.clone(), order.clone());
                std::thread::spawn(move || {
                    let mut ids: Vec<usize> = vec![];
                    let mut res: Vec<(usize, String)> = vec![];
                    bar.wait();
                    for op in ops {
                        if op < TEXTS.len() {
                            let (s, o) = result(TEXTS[op]);
                            res.push((op, s));
                            if let Some(o) = o {
                                let v: Value = o.into();
                                ids.extend(ids_of(&v).values());
                                if op % 2 == 0 {
                                    pool.lock().unwrap().push(v);
                                }
                            }
                        } else {
                            match op - TEXTS.len() {
                                0 => {
                                    ids.push(Obj::empty().id());
                                    ids.push(Arr::empty().id());
                                    ids.push(Tup::empty().id());
                                }
                                1 => {
                                    for (o, t) in shared.iter().zip([0, 2]) {
                                        res.push((t, o.to_string()));
                                    }
                                }
                                2 => {
                                    let v: Vec<Obj> = shared.iter().cloned().chain(shared.iter().cloned()).collect();
                                    drop(v);
                                }
                                3 => {
                                    for o in &shared {
                                        pool.lock().unwrap().push(o.clone().into());
                                        let _ = o.get("b").map(|v| v == v.clone());
                                    }
                                }
                                _ => {
                                    let v = pool.lock().unwrap().pop();
                                    if let Some(v) = v {
                                        let _ = v.to_string();
                                    }
                                }
                            }
                        }
                        order.lock().unwrap().push((b'0' + me as u8) as char);
                    }
                    (ids, res)
                })
            })
            .collect();
        let mut seen: HashSet<usize> = HashSet::new();
        let mut results = vec![];
        for t in ts {
            match t.join() {
                Ok((ids, res)) => {
                    let own: HashSet<usize> = ids.iter().copied().collect();
                    for id in own {
                        if !seen.insert(id) {
                            println!("wrong identifier {} was given to containers of two threads", id);
                            return 3;
                        }
                    }
                    results.extend(res);
                }
                Err(_) => {
                    println!("wrong a thread panicked: {}", sup::last_panic());
                    return 3;
                }
            }
        }
        pool.lock().unwrap().clear();
        let solo = alone.get_or_insert_with(|| TEXTS.iter().map(|t| result(t).0).collect());
        for (i, s) in &results {
            if *s != solo[*i] {
                println!("wrong {:?} gave {:?} among threads and {:?} alone", TEXTS[*i], s, solo[*i]);
                return 3;
            }
            println!("count thread_results");
        }
        for (o, c) in shared.iter().zip(counts) {
            if o.num_references() != c {
                println!("wrong {} references to a shared object instead of {}", o.num_references(), c);
                return 3;
            }
        }
        println!("count runs");
        println!("order {}", hash_str(&order.lock().unwrap()));
    }
    0
}
