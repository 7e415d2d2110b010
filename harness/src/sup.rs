//! Running cases: the context handed to a case, and the supervisor that runs shards of cases in
//! child processes and turns what it observes (results, signals, CPU time, heap) into verdicts.

use crate::alloc;
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Exit code for "the harness itself failed": no verdict.
pub const HARNESS_EXIT: i32 = 70;

/// CPU seconds one case may take. Ordinary cases take well under a second.
const CASE_CPU_S: f64 = 60.0;
/// With a violation found, the rest is stopped after this long.
const FOUND: Duration = Duration::from_secs(100);
/// No case of the quick tier begins after this long.
const ENOUGH: Duration = Duration::from_secs(450);
/// Seconds without any CPU time spent by a blocked case.
const BLOCKED_S: f64 = 90.0;
/// Cases from here on are large ones.
pub const LARGE: u64 = 1 << 40;
/// Live heap of one shard; ordinary cases stay below 200 MB.
const HEAP_CAP: i64 = 2_500_000_000;

pub struct Ctx {
    pub prop: &'static str,
    pub rng: Rng,
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    /// Scratch directory of this shard. Absolute, canonical.
    pub dir: PathBuf,
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    keys: Vec<String>,
    notes: Vec<(String, String)>,
    pub dump: Option<PathBuf>,
    pub known: Vec<String>,
}

pub struct PropDef {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Result<(), String>,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    /// Counters that must not stay at zero: a run that observed none of these is inconclusive.
    pub must: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", crate::model::short(&msg), at));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Runs library code, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", last_panic()))
}

/// The harness could not do its part: no verdict.
pub fn harness_fail(msg: &str) -> ! {
    eprintln!("overmon: harness error: {}", msg);
    std::process::exit(HARNESS_EXIT);
}

pub fn must<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(e) => harness_fail(&format!("{}: {}", what, e)),
    }
}

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, thorough: bool, dir: PathBuf) -> Ctx {
        Ctx {
            prop,
            rng: Rng::new(0),
            seed,
            idx: 0,
            thorough,
            dir,
            evals: 0,
            counts: BTreeMap::new(),
            seen: HashSet::new(),
            samples: vec![],
            keys: vec![],
            notes: vec![],
            dump: None,
            known: vec![],
        }
    }

    pub fn start(&mut self, idx: u64) {
        self.idx = idx;
        let p = crate::rng::hash_str(self.prop);
        self.rng = Rng::new(mix(self.seed ^ mix(p ^ mix(idx))));
        self.notes.clear();
    }

    /// One execution of library code.
    pub fn over<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.evals += 1;
        guard(f)
    }

    pub fn count(&mut self, key: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.counts.get_mut(key) {
            *c += n;
        } else {
            self.counts.insert(key.to_string(), n);
        }
    }

    /// This case is non-trivial; `key` identifies it.
    pub fn nontrivial(&mut self, key: &str) {
        // Bounds the memory of long runs; then the number reported is a lower bound.
        if self.seen.len() < 2_000_000 {
            self.seen.insert(crate::rng::hash_str(key));
        }
        if self.keys.len() < 2 && key.len() <= 2000 {
            self.keys.push(key.to_string());
        }
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = s();
            if s.len() <= 4000 {
                self.samples.push(s);
            }
        }
    }

    /// What the case is about to do, for the replay file.
    pub fn note(&mut self, name: &str, text: &str) {
        if let Some(d) = &self.dump {
            let mut f = must(fs::OpenOptions::new().append(true).create(true).open(d), "dump");
            let _ = writeln!(f, "--- {}\n{}", name, text);
        }
        self.notes.push((name.to_string(), text.to_string()));
    }

    pub fn feats(&mut self, f: &[u64; 16]) {
        for (n, k) in crate::model::FEATS.iter().zip(f) {
            self.count(n, *k);
        }
    }
}

fn run_case(def: &PropDef, ctx: &mut Ctx) -> Result<(), String> {
    let body = if ctx.idx >= LARGE { crate::props::scale::run } else { def.run };
    match panic::catch_unwind(AssertUnwindSafe(|| body(ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic())),
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Body of a child process: cases `shard`, `shard + shards`, ... below `total`.
pub fn shard_main(def: &PropDef, seed: u64, thorough: bool, shard: u64, shards: u64, total: u64, dir: &Path) -> i32 {
    install_panic_hook();
    alloc::CAP.store(HEAP_CAP, std::sync::atomic::Ordering::Relaxed);
    let work = dir.join("w");
    must(fs::create_dir_all(&work), "scratch directory");
    let work = must(fs::canonicalize(&work), "scratch directory");
    must(std::env::set_current_dir(&work), "chdir");
    let mut ctx = Ctx::new(def.id, seed, thorough, work);
    ctx.count(if is_root() { "workers running as root" } else { "workers without privileges" }, 1);
    let progress = must(fs::File::create(dir.join("progress")), "progress file");
    let mut out = must(fs::File::create(dir.join("out")), "out file");
    let slow_log = std::env::var_os("OVERMON_SLOW").is_some();
    let mut viols = 0;
    let all = Instant::now();
    // Large cases in between, where the check has them and runs by itself.
    let own = total == if thorough { def.thorough } else { def.quick };
    let large = if own { crate::props::scale::cases(def.id, thorough) } else { 0 };
    let each = (total / large.max(1)).max(1);
    let order = (0..total).flat_map(|i| std::iter::once(i).chain(if large > 0 && i % each == each - 1 { Some(LARGE + i / each) } else { None }));
    for i in order.filter(|i| i % shards == shard) {
        // Slow machines, or a slow library, get fewer cases.
        if !thorough && all.elapsed() > ENOUGH {
            ctx.count("cases left out for lack of time", (total - i % LARGE) / shards + 1);
            break;
        }
        {
            use std::os::unix::fs::FileExt;
            must(progress.write_all_at(&i.to_le_bytes(), 0), "progress");
        }
        ctx.start(i);
        let began = Instant::now();
        let res = run_case(def, &mut ctx);
        if slow_log && began.elapsed() > Duration::from_millis(400) {
            let n: String = ctx.notes.iter().map(|n| format!("{} {:?} ", n.0, head(&n.1, 60))).collect();
            let _ = writeln!(out, "T\t{} {} ms {}", i, began.elapsed().as_millis(), n);
        }
        if let Err(e) = res {
            let mut notes = String::new();
            for (n, t) in &ctx.notes {
                notes.push_str(&format!("--- {}\n{}\n", n, t));
            }
            must(writeln!(out, "V\t{}\t{}\t{}", i, esc(&e), esc(&notes)), "out");
            viols += 1;
            if viols >= 3 {
                break;
            }
        }
    }
    for k in &ctx.known {
        must(writeln!(out, "K\t{}", esc(k)), "out");
    }
    must(writeln!(out, "E\t{}", ctx.evals), "out");
    for (k, v) in &ctx.counts {
        must(writeln!(out, "C\t{}\t{}", k, v), "out");
    }
    for s in if ctx.samples.is_empty() { &ctx.keys } else { &ctx.samples } {
        must(writeln!(out, "S\t{}", esc(s)), "out");
    }
    let mut h: Vec<u8> = Vec::with_capacity(ctx.seen.len() * 8);
    for x in &ctx.seen {
        h.extend_from_slice(&x.to_le_bytes());
    }
    must(fs::write(dir.join("hashes"), h), "hashes");
    must(writeln!(out, "DONE"), "out");
    0
}

/// Runs one case in this process and prints what happened.
pub fn replay_main(def: &PropDef, seed: u64, thorough: bool, idx: u64, dump: Option<PathBuf>) -> i32 {
    install_panic_hook();
    let dir = must(fs::canonicalize(scratch_dir()), "scratch directory");
    // As in a shard: edits may hit a path, so its length matters.
    let work = dir.join("s0/w");
    must(fs::create_dir_all(&work), "scratch directory");
    must(std::env::set_current_dir(&work), "chdir");
    let mut ctx = Ctx::new(def.id, seed, thorough, work);
    let quiet = dump.is_some();
    ctx.dump = dump;
    ctx.start(idx);
    let r = run_case(def, &mut ctx);
    if !quiet {
        for (n, t) in &ctx.notes {
            println!("--- {}\n{}", n, t);
        }
        println!("result: {:?}", r);
    }
    let _ = std::env::set_current_dir("/");
    let _ = fs::remove_dir_all(&dir);
    i32::from(r.is_err())
}

/// Scratch files go to memory where there is room for them.
fn scratch_base() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let mut st: libc::statvfs = unsafe { std::mem::zeroed() };
    let ok = unsafe { libc::statvfs(b"/dev/shm\0".as_ptr().cast(), &mut st) } == 0
        && st.f_bavail as u64 * st.f_frsize as u64 > 1 << 30;
    if ok && std::env::var_os("TMPDIR").is_none() {
        shm
    } else {
        std::env::temp_dir()
    }
}

pub fn scratch_dir() -> PathBuf {
    let mut base = scratch_base();
    if fs::create_dir(base.join(format!("overmon-{}-probe", std::process::id()))).is_err() {
        base = std::env::temp_dir();
    } else {
        let _ = fs::remove_dir(base.join(format!("overmon-{}-probe", std::process::id())));
    }
    for k in 0.. {
        let d = base.join(format!("overmon-{:09}-{}", std::process::id(), k));
        if fs::create_dir(&d).is_ok() {
            return d;
        }
        if k > 1000 {
            harness_fail("cannot create a scratch directory");
        }
    }
    unreachable!()
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    Some((ut + st) / hz)
}

struct Run {
    child: Option<Child>,
    dir: PathBuf,
    idx: Option<u64>,
    idx_cpu: f64,
    idx_since: Instant,
    last_cpu: f64,
}

#[derive(Default)]
pub struct Merged {
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<(u64, String, String)>,
    pub known: Vec<String>,
    pub errors: Vec<String>,
}

/// How to start a child: this program or another build of it, perhaps under a tool.
#[derive(Clone)]
pub struct Exe {
    pub cmd: Vec<String>,
    pub env: Vec<(String, String)>,
    /// How much slower than a plain run it may be.
    pub slow: f64,
}

impl Exe {
    pub fn this() -> Exe {
        Exe::at(&must(std::env::current_exe(), "current_exe"))
    }

    pub fn at(p: &Path) -> Exe {
        Exe { cmd: vec![p.to_string_lossy().into_owned()], env: vec![], slow: 1.0 }
    }

    pub fn command(&self) -> Command {
        let mut c = Command::new(&self.cmd[0]);
        c.args(&self.cmd[1..]).envs(self.env.iter().cloned());
        c
    }

    /// The code under test must not be able to reach anything but its scratch directory: root hands
    /// `dir` to an unprivileged user and starts the child as that user, where the system lets it.
    pub fn confined(&self, dir: &Path) -> Command {
        let mut c = self.command();
        if let Some(id) = unprivileged() {
            must(chown(dir, id), "chown");
            c.uid(id).gid(id);
        }
        c
    }
}

const NOBODY: u32 = 65534;

fn chown(p: &Path, id: u32) -> std::io::Result<()> {
    std::os::unix::fs::chown(p, Some(id), Some(id))
}

pub fn is_root() -> bool {
    unsafe { libc::geteuid() == 0 }
}

/// The user to run children as; none if this is not root, or if such a child could not run.
pub fn unprivileged() -> Option<u32> {
    static ID: std::sync::OnceLock<Option<u32>> = std::sync::OnceLock::new();
    *ID.get_or_init(|| {
        if !is_root() {
            return None;
        }
        let dir = scratch_dir();
        let ok = chown(&dir, NOBODY).is_ok()
            && std::env::current_exe()
                .and_then(|p| {
                    let mut c = Command::new(p);
                    c.args(["special", "probe"]).arg(&dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
                    c.uid(NOBODY).gid(NOBODY).status()
                })
                .map_or(false, |s| s.code() == Some(0));
        let _ = fs::remove_dir_all(&dir);
        if ok {
            Some(NOBODY)
        } else {
            None
        }
    })
}

/// `special probe DIR`: can this user do what a shard does?
pub fn probe_main(dir: &Path) -> i32 {
    let own = scratch_dir();
    let f = dir.join("w").join("f");
    let ok = !is_root()
        && fs::create_dir(dir.join("w")).is_ok()
        && fs::write(&f, "x").is_ok()
        && fs::canonicalize(&f).is_ok()
        && fs::read_dir("/proc/self/fd").is_ok()
        && std::env::current_exe().and_then(fs::File::open).is_ok();
    let _ = fs::remove_dir_all(&own);
    i32::from(!ok)
}

/// Runs all cases of a property in child processes of `exe`.
pub fn run_shards(def: &PropDef, exe: &Exe, seed: u64, thorough: bool, total: u64, shards: u64) -> Merged {
    let began = Instant::now();
    let m = run_shards_(def, exe, seed, thorough, total, shards);
    if std::env::var_os("OVERMON_SLOW").is_some() {
        eprintln!("{} {} cases: {:.1} s", exe.cmd.join(" "), total, began.elapsed().as_secs_f64());
    }
    m
}

fn run_shards_(def: &PropDef, exe: &Exe, seed: u64, thorough: bool, total: u64, shards: u64) -> Merged {
    let base = scratch_dir();
    let mut m = Merged::default();
    let mut runs = vec![];
    for i in 0..shards.min(total.max(1)) {
        let dir = base.join(format!("s{}", i));
        must(fs::create_dir(&dir), "shard directory");
        let err = must(fs::File::create(dir.join("err")), "err file");
        let child = exe
            .confined(&dir)
            .args(["shard", def.id])
            .args([seed.to_string(), u8::from(thorough).to_string(), i.to_string(), shards.to_string(), total.to_string()])
            .arg(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn();
        let child = must(child, "spawn");
        runs.push(Run { child: Some(child), dir, idx: None, idx_cpu: 0.0, idx_since: Instant::now(), last_cpu: 0.0 });
    }
    let mut open = runs.len();
    let began = Instant::now();
    while open > 0 {
        std::thread::sleep(Duration::from_millis(15));
        // What is found need not wait for cases that take long.
        if began.elapsed() > FOUND && (!m.viols.is_empty() || runs.iter().any(|r| reported(&r.dir))) {
            for r in &mut runs {
                if let Some(mut c) = r.child.take() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
        for r in &mut runs {
            let child = match &mut r.child {
                Some(c) => c,
                None => continue,
            };
            let pid = child.id();
            let status = must(child.try_wait(), "wait");
            let idx = fs::read(r.dir.join("progress")).ok().filter(|b| b.len() == 8).map(|b| {
                let mut a = [0; 8];
                a.copy_from_slice(&b);
                u64::from_le_bytes(a)
            });
            match status {
                None => {
                    let cpu = cpu_seconds(pid).unwrap_or(r.last_cpu);
                    if idx != r.idx {
                        r.idx = idx;
                        r.idx_cpu = cpu;
                        r.idx_since = Instant::now();
                        r.last_cpu = cpu;
                        continue;
                    }
                    if cpu > r.last_cpu + 0.05 {
                        r.last_cpu = cpu;
                        r.idx_since = Instant::now();
                    }
                    let spent = cpu - r.idx_cpu;
                    let verdict = if spent > CASE_CPU_S * exe.slow {
                        Some(format!("did not end within {} s of CPU time", CASE_CPU_S * exe.slow))
                    } else if r.idx_since.elapsed().as_secs_f64() > BLOCKED_S {
                        Some("blocked: no progress and no CPU time spent".to_string())
                    } else {
                        None
                    };
                    if let Some(v) = verdict {
                        let _ = child.kill();
                        let _ = child.wait();
                        r.child = None;
                        open -= 1;
                        match idx {
                            Some(i) => m.viols.push((i, v, String::new())),
                            None => m.errors.push("shard stuck before its first case".into()),
                        }
                    }
                }
                Some(st) => {
                    r.child = None;
                    open -= 1;
                    let err = fs::read_to_string(r.dir.join("err")).unwrap_or_default();
                    let tail: String = err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
                    match (st.code(), st.signal(), idx) {
                        (Some(0), _, _) => (),
                        (Some(alloc::CAP_EXIT), _, Some(i)) => {
                            m.viols.push((i, format!("took more than {} bytes of heap", HEAP_CAP), String::new()))
                        }
                        (_, Some(s), Some(i)) if [4, 6, 7, 8, 11].contains(&s) => {
                            m.viols.push((i, format!("died of signal {}: {}", s, tail.trim()), String::new()))
                        }
                        // Sanitizer runtimes and valgrind report through these.
                        (Some(66 | 77 | 99), _, Some(i)) if err.contains("Sanitizer") || err.contains("==") => {
                            m.viols.push((i, format!("memory or race report: {}", head(&err, 3000)), String::new()))
                        }
                        (c, s, _) => m.errors.push(format!("shard ended with code {:?} signal {:?}: {}", c, s, tail)),
                    }
                }
            }
        }
    }
    for r in &runs {
        collect(&r.dir, &mut m);
    }
    let _ = fs::remove_dir_all(&base);
    // For a case that killed its process, let another process write down what it was doing.
    let mut viols = std::mem::take(&mut m.viols);
    viols.sort();
    for v in &mut viols {
        if v.2.is_empty() {
            let d = scratch_dir();
            let dump = d.join("dump");
            if let Ok(mut c) = exe
                .confined(&d)
                .args(["replay", def.id, &seed.to_string(), &u8::from(thorough).to_string(), &v.0.to_string()])
                .arg(&dump)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
            {
                let t = Instant::now();
                while t.elapsed() < Duration::from_secs(3) && matches!(c.try_wait(), Ok(None)) {
                    std::thread::sleep(Duration::from_millis(20));
                }
                let _ = c.kill();
                let _ = c.wait();
            }
            v.2 = fs::read(&dump).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
            let _ = fs::remove_dir_all(&d);
        }
    }
    m.viols = viols;
    m
}

impl Merged {
    /// Takes in what another phase observed; its counters get a prefix.
    pub fn absorb(&mut self, o: Merged, prefix: &str) {
        self.evals += o.evals;
        for (k, v) in o.counts {
            *self.counts.entry(format!("{}{}", prefix, k)).or_insert(0) += v;
        }
        self.seen.extend(o.seen);
        self.viols.extend(o.viols.into_iter().map(|(i, w, n)| (i, format!("{}{}", prefix, w), n)));
        self.errors.extend(o.errors.into_iter().map(|e| format!("{}{}", prefix, e)));
    }
}

pub fn head(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn reported(dir: &Path) -> bool {
    fs::read(dir.join("out")).map_or(false, |b| b.split_inclusive(|c| *c == b'\n').any(|l| l.starts_with(b"V\t") && l.ends_with(b"\n")))
}

fn collect(dir: &Path, m: &mut Merged) {
    let text = fs::read(dir.join("out")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "V" if f.len() >= 4 => m.viols.push((f[1].parse().unwrap_or(0), unesc(f[2]), unesc(&f[3..].join("\t")))),
            "E" => m.evals += f[1].parse::<u64>().unwrap_or(0),
            "C" => *m.counts.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
            "S" => m.samples.push(unesc(&f[1..].join("\t"))),
            "T" => eprintln!("slow case {}", l),
            "K" => m.known.push(unesc(f[1])),
            _ => (),
        }
    }
    let h = fs::read(dir.join("hashes")).unwrap_or_default();
    for c in h.chunks_exact(8) {
        let mut a = [0; 8];
        a.copy_from_slice(c);
        m.seen.insert(u64::from_le_bytes(a));
    }
}

// ---------------------------------------------------------------- verdict and evidence

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Verdict<'a> {
    pub def: &'a PropDef,
    pub root: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub started: Instant,
}

impl<'a> Verdict<'a> {
    pub fn finish(&self, mut m: Merged) -> i32 {
        let def = self.def;
        for k in def.must {
            // What the interpreter cannot do is no fault of the code it runs.
            let stopped = k.starts_with("miri: ") && m.counts.keys().any(|c| c.starts_with("miri: stopped"));
            if m.counts.get(*k).copied().unwrap_or(0) == 0 && m.viols.is_empty() && !stopped {
                m.errors.push(format!("nothing observed for counter {:?}", k));
            }
        }
        let ev = self.root.join("evidence");
        must(fs::create_dir_all(&ev), "evidence directory");
        let mut s = String::new();
        s.push_str("{\n");
        s.push_str(&format!("  \"property\": {},\n", json(def.id)));
        s.push_str(&format!("  \"tier\": {},\n", json(if self.thorough { "thorough" } else { "quick" })));
        s.push_str(&format!("  \"seed\": {},\n", self.seed));
        s.push_str(&format!("  \"level\": {},\n", json(def.level)));
        s.push_str("  \"coverage\": {\n");
        s.push_str(&format!("    \"evaluations\": {},\n", m.evals));
        s.push_str(&format!("    \"distinct_nontrivial\": {},\n", m.seen.len()));
        s.push_str(&format!("    \"rule\": {},\n", json(def.rule)));
        let samples: Vec<String> = m.samples.iter().take(5).map(|x| json(x)).collect();
        s.push_str(&format!("    \"samples\": [{}],\n", samples.join(", ")));
        let counts: Vec<String> = m.counts.iter().map(|(k, v)| format!("      {}: {}", json(k), v)).collect();
        s.push_str(&format!("    \"observed\": {{\n{}\n    }}\n", counts.join(",\n")));
        s.push_str("  },\n");
        let a: Vec<String> = def.assumptions.iter().map(|x| json(x)).collect();
        s.push_str(&format!("  \"assumptions\": [{}],\n", a.join(", ")));
        s.push_str(&format!("  \"wall_s\": {:.2},\n", self.started.elapsed().as_secs_f64()));
        s.push_str(&format!("  \"violations\": {}\n}}\n", m.viols.len()));
        must(fs::write(ev.join(format!("{}.json", def.id)), s), "evidence");

        m.known.sort();
        m.known.dedup();
        for k in &m.known {
            println!("KNOWN-FINDING: property={} {}", def.id, k);
        }
        if !m.viols.is_empty() {
            let rd = self.root.join("replays");
            must(fs::create_dir_all(&rd), "replay directory");
            for (i, (idx, what, notes)) in m.viols.iter().enumerate() {
                let p = rd.join(format!("{}-s{}-c{}-{}.txt", def.id, self.seed, idx, i));
                let text = format!(
                    "property {}\nseed {} tier {} case {}\nviolation: {}\nreplay: ./check.sh replay {} {} {} {}\n{}\n",
                    def.id,
                    self.seed,
                    if self.thorough { "thorough" } else { "quick" },
                    idx,
                    what,
                    def.id,
                    self.seed,
                    u8::from(self.thorough),
                    idx,
                    notes
                );
                must(fs::write(&p, text), "replay file");
                if i < 5 {
                    println!("VIOLATION property={} replay={}", def.id, p.display());
                    println!("  {}", head(what, 700).replace('\n', "\n  "));
                }
            }
            return 1;
        }
        if !m.errors.is_empty() {
            for e in m.errors.iter().take(5) {
                eprintln!("no verdict: {}", e);
            }
            return 2;
        }
        println!(
            "{}: held on {} executions, {} distinct non-trivial cases, {:.1} s",
            def.id,
            m.evals,
            m.seen.len(),
            self.started.elapsed().as_secs_f64()
        );
        0
    }
}
