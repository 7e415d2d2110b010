//! The cost of a load grows in proportion to what is loaded: C27.

use super::includes::in_dir;
use super::util::*;
use crate::alloc;
use crate::sup::{guard, Ctx, PropDef};
use over::value::Value;
use over::arr::Arr;
use over::obj::{Obj, Pair};
use over::tup::Tup;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::Relaxed;

pub static C27: PropDef = PropDef {
    id: "C27",
    run: c27,
    quick: 900,
    thorough: 15_000,
    level: "exploration",
    rule: "one construct repeated n and 6n times (71 constructs, alone or between others, with random fillers; as text, in a \
           file, in an included file of each kind; accepted or rejected at the end), loaded, looked up, compared, printed \
           and released; CPU time of the thread, bytes allocated and peak heap of both sizes give the growth; non-trivial: \
           every case, counted by construct, way and size",
    must: &[
        "measured", "as_text", "as_file", "as_include", "accepted", "rejected", "printed", "compared", "cpu_ms_large", "kb_allocated_large", "built",
    ],
    assumptions: &[
        "growth is judged from six times the size: linear costs at most 6^1.75 times the CPU time (least of three runs, four \
         attempts) and 6^1.5 times the memory; constructs that are quadratic by their nature 6^2.6 and 6^2.4, and 6^1.5 of heap at a time",
        "sizes below what the counters resolve are not judged",
    ],
};

const STEP: usize = 6;

/// A construct repeated until the text has about `n` characters; whether cost may be quadratic.
fn text(k: usize, f: &Fill, n: usize) -> (String, bool) {
    let rep = |unit: &str| -> String { unit.repeat(n / unit.chars().count().max(1) + 1) };
    let count = |len: usize| n / len + 1;
    let each = |len: usize, g: &dyn Fn(usize) -> String| -> String { (0..count(len)).map(g).collect() };
    let s = &f.s;
    let i = &f.i;
    let mut quadratic = false;
    let t = match k {
        0 => format!("a: \"{}\"", rep("x")),
        1 => format!("a: \"{}\"", rep(s)),
        2 => format!("a: \"{}\"", rep("\\n\\\"")),
        3 => format!("a: \"{}\"", rep("é字😀")),
        4 => format!("a: \"{}\"", rep("line\n")),
        5 => format!("#{}\na: 1", rep(s)),
        6 => format!("{}a: 1", rep("# c\n")),
        7 => format!("{}a: 1", rep("\n")),
        8 => format!("a: 1{}", rep(" ")),
        9 => format!("a: 1{}b: 2", rep("\t\r\n")),
        10 => format!("a: 1 # {}", rep(s)),
        11 => format!("a: [{}]", rep(&format!("{} ", i))),
        12 => format!("a: ({})", rep(&format!("{} ", i))),
        13 => format!("a: [{}]", rep("-1.25\n")),
        14 => format!("a: [{}]", rep("1/3 ")),
        15 => format!("a: [{}]", rep(&format!("\"{}\" ", s))),
        16 => format!("a: ({})", rep("null true false 1 2.5 \"x\" [] () {} ")),
        17 => format!("a: [{}]", rep("[] ")),
        18 => format!("a: [{}]", rep("() ")),
        19 => format!("a: [{}]", rep("{} ")),
        20 => format!("a: [{}]", rep("[1 2 3] ")),
        21 => format!("a: [{}]", rep("(1 \"x\" [2.5]) ")),
        22 => format!("a: [{}]", rep(&format!("{{x: 1 y: {{z: {}}}}} ", i))),
        23 => format!("a: ({})", rep("({x: [({y: 1})]}) ")),
        24 => format!("a: ({})", rep("{x: 1 ^: {y: 2}}\n")),
        25 => each(14, &|i| format!("@g{:06}: {}\n", i, i)),
        26 => format!("@g: {{x: {}}} a: [{}]", i, rep("@g ")),
        27 => format!("b: {} a: [{}]", i, rep("b ")),
        28 => format!("b: {{c: {{d: [{}]}}}} a: [{}]", i, rep("b.c.d.0 ")),
        29 => format!("b: (0 1 2) i: 1 a: [{}]", rep("b.i ")),
        30 => format!("@b: [0 1 2] @i: 2 a: [{}]", rep("@b.@i ")),
        31 => format!("a: 0{}", rep("+1")),
        32 => format!("a: 1{}", rep("-2*3")),
        33 => format!("a: 1{}", rep("*1%7")),
        34 => format!("a: [{}]", rep("1+2*3-4 ")),
        35 => format!("a: [{}]", rep("--1 ")),
        36 => format!("{}: 1", rep("x")),
        37 => format!("@{}: 1 b: 2", rep("é")),
        38 => each(30, &|i| if i == 0 { "@g0: {}\n".into() } else { format!("@g{}: {{x: @g{}}}\n", i, i - 1) }),
        39 => each(30, &|i| if i == 0 { "@g0: {}\n".into() } else { format!("@g{}: {{^: @g{}}}\n", i, i - 1) }),
        40 => format!("a: [{}]", rep("<Str \"s.txt\"> ")),
        41 => format!("a: [{}]", rep("<Obj \"o.over\"> ")),
        42 => format!("a: ({})", rep("<Arr \"e.over\"> <Tup \"e.over\"> ")),
        43 => {
            // Depth stays below the limit.
            let (open, close) = ("[".repeat(55), "]".repeat(55));
            format!("a: ({})", rep(&format!("{}1{} ", open, close)))
        }
        44 => {
            let (open, close) = ("{x: ".repeat(55), "}".repeat(55));
            format!("a: ({})", rep(&format!("{}1{} ", open, close)))
        }
        45 => format!("a: [{}]", rep("\"\" + \"x\" ").replace(" + ", "+")),
        46 => format!("a: [{}]", rep("[]+[1] ")),
        // Fields are compared with all earlier ones of their object.
        47 => {
            quadratic = true;
            each(14, &|i| format!("f{:06}: {}\n", i, i))
        }
        48 => {
            quadratic = true;
            format!("o: {{{}}}", each(18, &|i| format!("f{:06}: \"{}\"\n", i, i)))
        }
        // Digits are converted one by one.
        49 => {
            quadratic = true;
            format!("a: {}", rep("7"))
        }
        50 => {
            quadratic = true;
            format!("a: 0.{}", rep("7"))
        }
        // Every step copies what is there so far.
        51 => {
            quadratic = true;
            format!("a: \"\"{}", rep("+\"x\""))
        }
        52 => {
            quadratic = true;
            format!("a: []{}", rep("+[1]"))
        }
        // Products are long numbers.
        53 => {
            quadratic = true;
            format!("a: 1{}", rep("*7"))
        }
        54 => each(26, &|i| format!("@g{:06}: {{x: {}}}\n", i, i)),
        55 => format!("{}a: [{}]", each(28, &|i| format!("@g{:06}: 1\n", i)), "{x: @g000000} ".repeat(count(28))),
        56 => format!("@a: {{^: {{^: {{y: {}}}}}}} a: [{}]", i, rep("@a.y ")),
        57 => format!("a: ({})", each(20, &|i| format!("{{f{}: {{g: {}}}}} ", i, i))),
        58 => format!("a: [{}]", each(24, &|i| format!("({} \"s{}\" [{}.5]) ", i, i, i))),
        59 => format!("a: {{b: {{c: [{}\n # end\n]}} d: 1}} e: 2", rep("1 # x\n")),
        // Many globals, each used.
        60 => {
            let m = count(24);
            let all: String = (0..m).map(|i| format!("@g{:06}: {}\n", i, i)).collect();
            let uses: String = (0..m).map(|i| format!("@g{:06} ", (i * 7919) % m)).collect();
            format!("{}a: [{}]", all, uses)
        }
        61 => {
            let m = count(40);
            let all: String = (0..m).map(|i| format!("@g{:06}: \"{}\"\n", i, i)).collect();
            let uses: String = (0..m).map(|i| format!("{{x: @g{:06}}} ", (i * 7919) % m)).collect();
            format!("{}a: [{}]", all, uses)
        }
        // Objects inside a document of many globals.
        62 => {
            let m = count(28);
            let all: String = (0..m).map(|i| format!("@g{:06}: 1\n", i)).collect();
            format!("{}a: ({})", all, "<Obj \"o.over\"> ".repeat(m))
        }
        // Objects used twice by the next one: they are shared, not copied.
        63 => each(48, &|i| match i % 40 {
            0 => format!("@d{:05}: {{}}\n", i),
            _ => format!("@d{:05}: {{x: @d{:05} y: @d{:05} z: [@d{:05}]}}\n", i, i - 1, i - 1, i - 1),
        }),
        // Many files.
        64 => {
            for i in 0..n / 12 {
                let f = Path::new("many").join(format!("f{}.over", i));
                if !f.exists() {
                    let _ = fs::create_dir_all("many");
                    write(&f, format!("x: {}", i).as_bytes());
                }
            }
            let g: String = (0..n / 12).map(|i| format!("<Obj \"many/f{}.over\"> ", i)).collect();
            format!("a: ({})", g)
        }
        65 => format!("a: {{{}}}", each(34, &|i| if i == 0 { "@o: {z: 1} ".into() } else { format!("@o{}: {{^: @o v{}: {{}}}} ", i, i % 9) })),
        // Parents of parents, never too many.
        66 => {
            let m = count(36);
            let all: String = (0..m)
                .map(|i| match i % 40 {
                    0 => format!("@d{:05}: {{}}\n", i),
                    _ => format!("@d{:05}: {{^: @d{:05} x{}: {{}}}}\n", i, i - 1, i % 7),
                })
                .collect();
            let ends: String = (0..m).filter(|i| i % 40 == 39).map(|i| format!("@d{:05} @d{:05}.x3 ", i, i)).collect();
            format!("{}a: [{}]", all, ends)
        }
        // Large containers mentioned many times.
        67 => format!("@g: [{}] a: [{}]", "1 ".repeat(n / 4), "@g ".repeat(n / 6)),
        68 => format!("@g: {{x: [{}]}} a: ({}) b: [{}]", "1 ".repeat(n / 4), "@g ".repeat(n / 12), "{^: @g} ".repeat(n / 32)),
        69 => format!("b: [{}] a: [{}]", "1 ".repeat(n / 4), "b.1 ".repeat(n / 8)),
        _ => {
            let m = n / 400 + 1;
            (0..m).map(|j| format!("f{:04}: [{}]\n", j, format!("{} ", i).repeat(60))).collect()
        }
    };
    (t, quadratic)
}

/// Where every step copies everything, less text will do.
fn shorter(k: usize, n: usize) -> usize {
    match k {
        51 | 53 => n / 4,
        49 | 50 => n / 12,
        52 => n / 15,
        _ => n,
    }
}

const FAMILIES: usize = 71;

struct Fill {
    s: String,
    i: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Text,
    File,
    Included,
    AsStr,
    AsArr,
    AsTup,
}

#[derive(Clone, Copy, Debug, Default)]
struct Cost {
    cpu: u64,
    bytes: u64,
    peak: u64,
}

fn cpu_now() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// What is done with a document; whether it was accepted.
fn work(text: &str, path: Option<&Path>) -> bool {
    let load = || match path {
        None => text.parse::<Obj>(),
        Some(p) => Obj::from_file(p.to_str().unwrap_or("")),
    };
    match load() {
        Err(e) => e.to_string().is_empty(),
        Ok(o) => {
            let c = o.clone();
            let mut n = 0;
            for p in o.iter().take(50) {
                n += usize::from(o.get(&p.0).is_some()) + usize::from(c.contains(&p.0));
                match &p.1 {
                    Value::Arr(a) => a.with_each(|v| n += usize::from(v.is_null())),
                    Value::Tup(a) => n += a.iter().filter(|v| v.is_null()).count(),
                    Value::Obj(q) => n += q.len(),
                    _ => (),
                }
            }
            n < usize::MAX
        }
    }
}

fn measured<T>(f: impl Fn() -> T) -> Result<(T, Cost), String> {
    let mut least: Option<Cost> = None;
    let mut out = None;
    for _ in 0..3 {
        let (live, _) = alloc::live();
        alloc::PEAK.store(live, Relaxed);
        let b = alloc::TOTAL_BYTES.load(Relaxed);
        let t = cpu_now();
        let r = guard(&f)?;
        let cpu = cpu_now() - t;
        let bytes = alloc::TOTAL_BYTES.load(Relaxed) - b;
        let peak = (alloc::PEAK.load(Relaxed) - live).max(0) as u64;
        out = Some(r);
        let l = least.get_or_insert(Cost { cpu, bytes, peak });
        *l = Cost { cpu: l.cpu.min(cpu), bytes: l.bytes.min(bytes), peak: l.peak.min(peak) };
        if l.cpu > 700_000_000 {
            break;
        }
    }
    match (out, least) {
        (Some(r), Some(l)) => Ok((r, l)),
        _ => Err("nothing measured".into()),
    }
}

/// Whether `b` is more than `a` to the power allowed for STEP times the size.
fn too_much(a: u64, b: u64, exp: f64, floor: u64) -> bool {
    b as f64 > (a.max(floor)) as f64 * (STEP as f64).powf(exp)
}

fn judge(what: &str, a: Cost, b: Cost, quadratic: bool) -> Option<(bool, String)> {
    let more = if quadratic { 1.0 } else { 0.0 };
    let say = |name: &str, x: u64, y: u64| format!("{}: {} times the text takes {} instead of {} {}", what, STEP, y, x, name);
    if too_much(a.bytes, b.bytes, 1.5 + more * 0.9, 50_000) {
        return Some((false, say("bytes allocated", a.bytes, b.bytes)));
    }
    if too_much(a.peak, b.peak, 1.5, 50_000) {
        return Some((false, say("bytes of heap at a time", a.peak, b.peak)));
    }
    if too_much(a.cpu, b.cpu, 1.75 + more * 0.85, 3_000_000) {
        return Some((true, say("ns of CPU time", a.cpu, b.cpu)));
    }
    None
}

/// Repeats a measurement that only time speaks against.
fn growth(ctx: &mut Ctx, what: &str, quadratic: bool, mut f: impl FnMut() -> Result<(Cost, Cost), String>) -> Result<(), String> {
    let mut last = String::new();
    for _ in 0..4 {
        let (a, b) = f()?;
        ctx.count("measured", 1);
        ctx.count("cpu_ms_large", b.cpu / 1_000_000);
        ctx.count("kb_allocated_large", b.bytes / 1000);
        match judge(what, a, b, quadratic) {
            None => return Ok(()),
            Some((false, e)) => return Err(e),
            Some((true, e)) => last = e,
        }
        if b.cpu > 1_500_000_000 {
            break;
        }
    }
    Err(last)
}

fn c27(ctx: &mut Ctx) -> Result<(), String> {
    let k = if ctx.rng.pct(15) { ctx.rng.below(FAMILIES) } else { (ctx.idx as usize) % FAMILIES };
    let fill = Fill {
        s: ctx.rng.pick::<&str>(&["ab", "wörter ", "x y z ", "{[(<", "🙂", "'", "a: 1 "]).to_string(),
        i: ctx.rng.pick::<&str>(&["0", "1", "-17", "123456789", "98765432109876543210", "1_000"]).to_string(),
    };
    let way = *ctx.rng.pick(&[Way::Text, Way::Text, Way::File, Way::Included, Way::AsStr, Way::AsArr, Way::AsTup]);
    let fault = ctx.rng.pct(25);
    let n = shorter(k, *ctx.rng.pick(&[12_000, 20_000, 30_000]));
    let root = fresh_dir(ctx, "k");
    write(&root.join("s.txt"), "text ".repeat(20).as_bytes());
    write(&root.join("o.over"), b"x: [1 2 3] y: {z: null}");
    write(&root.join("e.over"), b"1 2 3");
    let mut made: Vec<(String, PathBuf)> = vec![];
    let mut quadratic = false;
    for (j, n) in [n, n * STEP].into_iter().enumerate() {
        let (mut t, q) = in_dir(&root, || text(k, &fill, n));
        quadratic = q;
        match way {
            Way::AsArr => t = format!("{{{}}} {{{}}}", t, "z: 1\n"),
            Way::AsTup => t = format!("{{{}\n}} 1", t),
            _ => (),
        }
        if fault {
            t.push_str("\n?");
        }
        let part = root.join(format!("part{}.over", j));
        let main = root.join(format!("main{}.over", j));
        let inc = |kind: &str| format!("r: <{} \"part{}.over\"> q: r", kind, j);
        let (doc, path) = match way {
            Way::Text => (t, None),
            Way::File => (t, Some(main.clone())),
            Way::Included => {
                write(&part, t.as_bytes());
                (inc("Obj"), Some(main.clone()))
            }
            Way::AsStr => {
                write(&part, t.as_bytes());
                (inc("Str"), Some(main.clone()))
            }
            Way::AsArr => {
                write(&part, t.as_bytes());
                (inc("Arr"), Some(main.clone()))
            }
            Way::AsTup => {
                write(&part, t.as_bytes());
                (inc("Tup"), None)
            }
        };
        if let Some(p) = &path {
            write(p, doc.as_bytes());
        }
        made.push((doc, path.unwrap_or_default()));
    }
    let what = format!("construct {} ({:?}{})", k, way, if fault { ", rejected" } else { "" });
    ctx.note("construct", &format!("{} of {} characters, {} filled with {:?} and {:?}", what, n, k, fill.s, fill.i));
    ctx.note("begin", &made[0].0.chars().take(200).collect::<String>());
    ctx.count(match way { Way::Text => "as_text", Way::File => "as_file", _ => "as_include" }, 1);
    let path = |j: usize| -> Option<&Path> { Some(made[j].1.as_path()).filter(|p| !p.as_os_str().is_empty()) };
    let what = what.as_str();
    in_dir(&root, || {
        growth(ctx, &format!("loading {}", what), quadratic, || {
            let (_, a) = measured(|| work(&made[0].0, path(0)))?;
            let (_, b) = measured(|| work(&made[1].0, path(1)))?;
            Ok((a, b))
        })
    })?;
    ctx.evals += 6;
    // Printing and comparing what was loaded.
    let both: Vec<Option<(Obj, Obj)>> = in_dir(&root, || {
        (0..2)
            .map(|j| {
                let one = || match path(j) {
                    None => made[j].0.parse::<Obj>().ok(),
                    Some(p) => Obj::from_file(p.to_str().unwrap_or("")).ok(),
                };
                guard(|| one().and_then(|a| one().map(|b| (a, b))))
            })
            .collect::<Result<Vec<_>, String>>()
    })?;
    match (&both[0], &both[1]) {
        (Some(a), Some(b)) => {
            ctx.count("accepted", 1);
            // What is shared is printed at every mention, and compared there.
            if ![38, 39, 63, 67, 68].contains(&k) {
                ctx.count("printed", 1);
                growth(ctx, &format!("printing {}", what), quadratic, || {
                    Ok((measured(|| a.0.write_to_string().len())?.1, measured(|| b.0.write_to_string().len())?.1))
                })?;
                ctx.count("compared", 1);
                growth(ctx, &format!("comparing {}", what), quadratic, || Ok((measured(|| a.0 == a.1)?.1, measured(|| b.0 == b.1)?.1)))?;
            }
        }
        (None, None) => ctx.count("rejected", 1),
        _ => return Err(format!("{}: one size is accepted, the other rejected", what)),
    }
    built(ctx)?;
    let _ = fs::remove_dir_all(&root);
    ctx.nontrivial(&format!("{}{}", what, n));
    Ok(())
}

/// Values made, read and compared by a program.
fn built(ctx: &mut Ctx) -> Result<(), String> {
    let kind = ctx.rng.below(8);
    let n = *ctx.rng.pick(&[3_000, 6_000]);
    let one = |i: usize| -> Value {
        match kind {
            0 => Value::from(i as i64),
            1 => Value::from(format!("s{}", i)),
            2 => Value::Arr(Arr::empty()),
            3 => arr_of(vec![Value::from(i as i64)]),
            4 => Value::Tup(Tup::from(vec![Value::Null, Value::from(i as i64)])),
            5 => Value::Obj(Obj::empty()),
            6 => arr_of(vec![Value::Arr(Arr::empty())]),
            _ => Value::Obj(Obj::from_pairs_unchecked(vec![Pair("x".into(), Value::from(i as i64))], None)),
        }
    };
    let vals = |n: usize| (0..n).map(one).collect::<Vec<_>>();
    let (small, large) = (vals(n), vals(n * STEP));
    ctx.note("kind of element", &kind.to_string());
    ctx.count("built", 1);
    let whats: [(&str, fn(&[Value]) -> bool); 6] = [
        ("making an array", |v| Arr::from_values(v.to_vec()).is_ok()),
        ("making a tuple", |v| Tup::from(v.to_vec()).len() > 1),
        ("comparing arrays", |v| Arr::from_values(v.to_vec()).ok() == Arr::from_values(v.to_vec()).ok()),
        ("the type of a tuple", |v| Tup::from(v.to_vec()).inner_type_vec().len() > 1),
        ("printing an array", |v| Arr::from_values(v.to_vec()).map(|a| a.to_string()).is_ok()),
        ("reading elements", |v| {
            let t = Tup::from(v.to_vec());
            (0..t.len()).all(|i| t.get(i).is_ok())
        }),
    ];
    for (what, f) in whats.iter() {
        growth(ctx, what, false, || Ok((measured(|| f(&small))?.1, measured(|| f(&large))?.1)))?;
    }
    Ok(())
}

fn arr_of(v: Vec<Value>) -> Value {
    Arr::from_values(v).map(Value::Arr).unwrap_or(Value::Null)
}
