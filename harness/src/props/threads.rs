//! Many threads at once: C20.

use super::api::{ids_of, Graph};
use super::util::*;
use crate::bridge::{Build, VGen};
use crate::gen::{self, Gen, Prof};
use crate::model::{self, MTy};
use crate::rng::{hash_str, Rng};
use crate::sup::{guard, must, Ctx, PropDef};
use over::arr::Arr;
use over::tup::Tup;
use over::value::Value;
use over::{Obj, ReferenceType};
use std::collections::{HashMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier, Mutex};
use std::thread;

pub static C20: PropDef = PropDef {
    id: "C20",
    run: c20,
    quick: 1_600,
    thorough: 96_000,
    level: "exploration",
    rule: "2 to 8 threads run random scripts (load own text, load shared files and trees of includes, load faulty text, \
           build, look up, compare, print, write, clone, drop, hand values to another thread) on their own and on \
           shared documents, started by a barrier, with random yields and pauses; every result is compared with the \
           one the same operation gave alone before; afterwards identifiers of all containers made are checked for \
           uniqueness and reference counts of shared documents for balance; a part of the cases again under \
           ThreadSanitizer, and scripted documents under Miri with many schedules; non-trivial: distinct orders in \
           which the operations of the threads ended",
    must: &[
        "operations", "threads", "shared_reads", "loads", "file_loads", "faulty_loads", "built", "handed_over", "ids_compared", "counts_balanced",
        "bursts", "writes", "switches", "tsan: operations", "tsan: threads", "miri: runs",
    ],
    assumptions: &["interleavings are those the scheduler, random yields and 8 cores give; Miri and ThreadSanitizer add theirs"],
};

/// One operation, with what it gives when run alone.
#[derive(Clone)]
enum Op {
    Load(Arc<str>, u64),
    File(PathBuf, u64),
    Shared(usize, u64),
    Compare(usize, usize, bool),
    Build(u64, u64),
    Write(usize, u64),
    /// Make many small containers.
    Burst(usize),
    CloneDrop(usize, usize),
    HandOver(usize),
    Receive,
    Pause(u32),
}

/// Everything a load tells, as one number.
fn outcome(r: &Result<Obj, String>) -> u64 {
    match r {
        Ok(o) => reading(o),
        Err(e) => hash_str(e),
    }
}

/// Reads an object through and through.
fn reading(o: &Obj) -> u64 {
    let mut h = hash_str(&o.write_to_string());
    for p in o.iter() {
        let v = o.get(&p.0);
        let t = v.map(|v| format!("{}", v.get_type())).unwrap_or_default();
        h = h.rotate_left(7) ^ hash_str(&t) ^ hash_str(&p.0);
        if let Value::Obj(q) = &p.1 {
            h ^= q.get_with_source("a").map_or(3, |x| hash_str(&x.0.to_string()) ^ hash_str(&x.1.to_string()));
        }
        if let Value::Arr(a) = &p.1 {
            h ^= a.get(0).map_or(5, |x| hash_str(&x.to_string()));
        }
    }
    h ^ o.len() as u64
}

fn build(seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let mut g = VGen::new(&mut r, 12, 0);
    g.depth = 4;
    let m = g.val(&MTy::Obj, 1);
    Build::default().val(&m).unwrap_or(Value::Null)
}

struct Made {
    ids: Vec<usize>,
    keep: Vec<Value>,
    errors: Vec<String>,
    ops: u64,
    counts: HashMap<&'static str, u64>,
}

struct World {
    shared: Vec<Obj>,
    dir: PathBuf,
    order: Mutex<Vec<u8>>,
    done: AtomicUsize,
}

#[allow(clippy::too_many_arguments)]
fn body(me: usize, w: &World, ops: &[Op], seed: u64, tx: Sender<Value>, rx: Receiver<Value>, start: &Barrier) -> Made {
    let mut m = Made { ids: vec![], keep: vec![], errors: vec![], ops: 0, counts: HashMap::new() };
    let mut rng = Rng::new(seed);
    // Handles of its own on everything shared.
    let mine: Vec<Obj> = w.shared.to_vec();
    start.wait();
    for op in ops {
        let name = match op {
            Op::Load(t, want) => {
                let r = t.parse::<Obj>().map_err(|e| e.to_string());
                if outcome(&r) != *want {
                    m.errors.push(format!("loading gives {:?} instead of what it gives alone", r.as_ref().map(|o| model::short(&o.to_string()))));
                }
                let faulty = r.is_err();
                if let Ok(o) = r {
                    m.keep_or_drop(&mut rng, o.into());
                }
                if faulty {
                    "faulty_loads"
                } else {
                    "loads"
                }
            }
            Op::File(p, want) => {
                let r = Obj::from_file(p.to_str().unwrap()).map_err(|e| e.to_string());
                if outcome(&r) != *want {
                    m.errors.push(format!("loading {:?} gives {:?} instead of what it gives alone", p, r.as_ref().map(|o| model::short(&o.to_string()))));
                }
                if let Ok(o) = r {
                    m.keep_or_drop(&mut rng, o.into());
                }
                "file_loads"
            }
            Op::Shared(i, want) => {
                if reading(&mine[*i]) != *want {
                    m.errors.push("reading a shared document gives another result than alone".into());
                }
                if !mine[*i].ptr_eq(&w.shared[*i]) || mine[*i].id() != w.shared[*i].id() {
                    m.errors.push("a clone of a shared document is another instance".into());
                }
                "shared_reads"
            }
            Op::Compare(i, j, want) => {
                if (mine[*i] == w.shared[*j]) != *want {
                    m.errors.push("comparing shared documents gives another result than alone".into());
                }
                "comparisons"
            }
            Op::Build(s, want) => {
                let v = build(*s);
                if hash_str(&v.to_string()) != *want {
                    m.errors.push("building a value gives another one than alone".into());
                }
                m.keep_or_drop(&mut rng, v);
                "built"
            }
            Op::Write(i, want) => {
                let p = w.dir.join(format!("out{}.over", me));
                if let Err(e) = mine[*i].write_to_file(p.to_str().unwrap()) {
                    m.errors.push(format!("writing fails: {}", e));
                } else {
                    let r = Obj::from_file(p.to_str().unwrap()).map_err(|e| e.to_string());
                    if outcome(&r) != *want {
                        m.errors.push("a written file reads back differently than alone".into());
                    }
                    if let Ok(o) = r {
                        m.keep_or_drop(&mut rng, o.into());
                    }
                }
                "writes"
            }
            Op::Burst(n) => {
                for i in 0..*n {
                    let id = match i % 3 {
                        0 => Obj::empty().id(),
                        1 => Arr::empty().id(),
                        _ => Tup::empty().id(),
                    };
                    m.ids.push(id);
                }
                "bursts"
            }
            Op::CloneDrop(i, n) => {
                let mut v: Vec<Value> = vec![];
                for _ in 0..*n {
                    v.push(mine[*i].clone().into());
                    for p in mine[*i].iter() {
                        v.push(p.1.clone());
                    }
                    if rng.bool() {
                        v.pop();
                    }
                    if mine[*i].num_references() < 2 {
                        m.errors.push("a shared document reports fewer references than there are".into());
                    }
                }
                rng.shuffle(&mut v);
                v.truncate(rng.below(3));
                "clones"
            }
            Op::HandOver(i) => {
                let v: Value = match m.keep.pop() {
                    Some(v) if rng.bool() => v,
                    _ => mine[*i].clone().into(),
                };
                for (_, id) in ids_of(&v) {
                    m.ids.push(id);
                }
                let _ = tx.send(v);
                "handed_over"
            }
            Op::Receive => {
                while let Ok(v) = rx.try_recv() {
                    if v.to_string().is_empty() || v != v.clone() {
                        m.errors.push("a received value is not equal to itself".into());
                    }
                }
                "received"
            }
            Op::Pause(k) => {
                if *k == 0 {
                    thread::yield_now();
                } else {
                    thread::sleep(std::time::Duration::from_micros(u64::from(*k)));
                }
                continue;
            }
        };
        *m.counts.entry(name).or_insert(0) += 1;
        m.ops += 1;
        w.order.lock().unwrap_or_else(|e| e.into_inner()).push(me as u8);
    }
    w.done.fetch_add(1, Ordering::Relaxed);
    for v in &m.keep {
        m.ids.extend(ids_of(v).values());
    }
    m
}

impl Made {
    fn keep_or_drop(&mut self, rng: &mut Rng, v: Value) {
        if rng.bool() {
            self.keep.push(v);
        } else {
            self.ids.extend(ids_of(&v).values());
        }
    }
}

pub fn c20(ctx: &mut Ctx) -> Result<(), String> {
    // A tree of files all threads load.
    let root = fresh_dir(ctx, "t");
    let mut prof = Prof::std();
    prof.p_inc = 40;
    prof.size = 15;
    let mut g = Gen::new(&mut ctx.rng, prof);
    g.root = root.to_str().unwrap().to_string();
    let toks = g.document("");
    let (files, dirs) = (std::mem::take(&mut g.files), g.dirs.clone());
    drop(g);
    write_files(ctx, &root, &files, &dirs, None);
    let l = gen::layout(&mut ctx.rng);
    let main = gen::render(&mut ctx.rng, &toks, l).text;
    write(&root.join("main.over"), main.as_bytes());
    write(&root.join("bad.over"), b"a: 1\nb: <Obj \"main.over\">\nc: [1 \"x\"]\n");
    write(&root.join("loop.over"), b"a: <Obj \"loop.over\">\n");
    // Files of one name in two directories, which say which is which.
    for d in ["d1", "d2"] {
        write(&root.join(d).join("m.over"), format!("w: \"{}\" n: <Arr \"n.over\"> s: <Str \"n.over\">", d).as_bytes());
        write(&root.join(d).join("n.over"), format!("\"{}\"", d).as_bytes());
    }
    let cwd = std::env::current_dir().ok();
    let paths: Vec<PathBuf> = ["main.over", "main.over", "bad.over", "loop.over", "d1/m.over", "d2/m.over"]
        .iter()
        .map(|p| {
            let p = root.join(p);
            match cwd.as_ref().and_then(|c| p.strip_prefix(c).ok()) {
                Some(rel) if ctx.rng.bool() => rel.to_path_buf(),
                _ => p,
            }
        })
        .collect();
    // Texts, good and bad.
    let mut texts: Vec<Arc<str>> = vec![];
    for i in 0..4 {
        let mut p = Prof::std();
        p.size = 12;
        let toks = document(ctx, p);
        let l = gen::layout(&mut ctx.rng);
        let mut t = gen::render(&mut ctx.rng, &toks, l).text;
        if i == 3 {
            t = super::err::edit(&mut ctx.rng, &t);
        }
        texts.push(t.into());
    }
    for t in &texts {
        ctx.note("text", t);
    }
    // What they give alone.
    let solo: Vec<u64> = guard(|| texts.iter().map(|t| outcome(&t.parse::<Obj>().map_err(|e| e.to_string()))).collect())?;
    let solo_files: Vec<u64> =
        guard(|| paths.iter().map(|p| outcome(&Obj::from_file(p.to_str().unwrap()).map_err(|e| e.to_string()))).collect())?;
    let mut shared: Vec<Obj> = vec![];
    for t in &texts {
        if let Ok(o) = guard(|| t.parse::<Obj>())? {
            shared.push(o);
        }
    }
    if let Ok(o) = guard(|| Obj::from_file(paths[0].to_str().unwrap()))? {
        shared.push(o);
    }
    shared.push("@g: {b: [1 2 3]} a: @g c: a d: (a a) e: {^: @g f: @g.b}".parse::<Obj>().map_err(|e| format!("does not load: {}", e))?);
    let solo_shared: Vec<u64> = guard(|| shared.iter().map(reading).collect())?;
    let solo_written: Vec<u64> = guard(|| {
        shared.iter().map(|o| outcome(&o.write_to_string().parse::<Obj>().map_err(|e| e.to_string()))).collect()
    })?;
    let before: Vec<_> = {
        let mut g = Graph::default();
        shared.iter().for_each(|o| g.obj(o));
        let mut v: Vec<_> = g.nodes.into_iter().collect();
        v.sort_unstable();
        v
    };
    // Scripts.
    let n = ctx.rng.range(2, 8);
    let focus = ctx.rng.below(4);
    let scripts: Vec<Vec<Op>> = (0..n)
        .map(|_| {
            let k = ctx.rng.range(4, 24);
            (0..k)
                .map(|_| {
                    let s = ctx.rng.below(shared.len());
                    let r = &mut ctx.rng;
                    let kind = if focus == 1 && r.bool() { 6 } else if focus == 2 && r.bool() { 7 } else { r.below(13) };
                    match kind {
                        0 | 1 => {
                            let i = r.below(texts.len());
                            Op::Load(texts[i].clone(), solo[i])
                        }
                        2 | 11 => {
                            let i = r.below(paths.len());
                            Op::File(paths[i].clone(), solo_files[i])
                        }
                        3 => Op::Shared(s, solo_shared[s]),
                        4 => {
                            let j = r.below(shared.len());
                            Op::Compare(s, j, shared[s] == shared[j])
                        }
                        5 => {
                            let seed = r.next();
                            Op::Build(seed, hash_str(&build(seed).to_string()))
                        }
                        6 => Op::Burst(r.range(20, 400)),
                        7 => Op::CloneDrop(s, r.range(5, 60)),
                        8 => Op::HandOver(s),
                        9 => Op::Receive,
                        10 => Op::Write(s, solo_written[s]),
                        _ => Op::Pause(if r.bool() { 0 } else { r.below(60) as u32 }),
                    }
                })
                .collect()
        })
        .collect();
    let world = Arc::new(World { shared: shared.clone(), dir: root, order: Mutex::new(vec![]), done: AtomicUsize::new(0) });
    let start = Arc::new(Barrier::new(n));
    let mut chans: Vec<(Sender<Value>, Option<Receiver<Value>>)> = (0..n)
        .map(|_| {
            let (a, b) = channel();
            (a, Some(b))
        })
        .collect();
    let mut ts = vec![];
    for (me, ops) in scripts.iter().enumerate() {
        let tx = chans[(me + 1) % n].0.clone();
        let rx = chans[me].1.take().unwrap();
        let (w, ops, start, seed) = (world.clone(), ops.clone(), start.clone(), ctx.rng.next());
        ts.push(must(
            thread::Builder::new().stack_size(2 << 20).spawn(move || {
                let b = start.clone();
                guard(move || body(me, &w, &ops, seed, tx, rx, &b))
            }),
            "thread",
        ));
    }
    drop(chans);
    let mut seen: HashSet<usize> = before.iter().map(|x| (x.1).0).collect();
    let base = seen.clone();
    let mut err: Option<String> = None;
    let mut made = vec![];
    for t in ts {
        match t.join() {
            Ok(Ok(m)) => made.push(m),
            Ok(Err(e)) => err = Some(format!("a thread panicked: {}", e)),
            Err(_) => err = Some("a thread panicked".into()),
        }
    }
    if let Some(e) = err {
        return Err(e);
    }
    for (i, m) in made.iter().enumerate() {
        if let Some(e) = m.errors.first() {
            return Err(format!("thread {} of {}: {}", i, n, e));
        }
        // A thread's list may name a container twice, which another thread must not.
        let mine: HashSet<usize> = m.ids.iter().copied().filter(|id| !base.contains(id)).collect();
        for id in &mine {
            if !seen.insert(*id) {
                return Err(format!("identifier {} was given to containers of two threads", id));
            }
        }
        ctx.count("ids_compared", mine.len() as u64);
        ctx.count("operations", m.ops);
        for (k, c) in &m.counts {
            ctx.count(k, *c);
        }
        ctx.evals += m.ops;
    }
    // Bursts name every container once.
    for m in &made {
        let mut s = HashSet::new();
        let burst: Vec<_> = m.ids.iter().filter(|id| !base.contains(id)).collect();
        let dup = burst.iter().filter(|id| !s.insert(***id)).count();
        if dup > 0 && m.counts.get("handed_over").is_none() {
            return Err("one thread was given an identifier twice".into());
        }
    }
    ctx.count("threads", n as u64);
    drop(made);
    let order = match Arc::try_unwrap(world) {
        Ok(w) => {
            drop(w.shared);
            w.order.into_inner().unwrap_or_else(|e| e.into_inner())
        }
        Err(_) => return Err("a thread's handles outlive it".into()),
    };
    // Everybody is gone: the shared documents are referenced by us alone again.
    let after: Vec<_> = {
        let mut g = Graph::default();
        shared.iter().for_each(|o| g.obj(o));
        let mut v: Vec<_> = g.nodes.into_iter().collect();
        v.sort_unstable();
        v
    };
    if before != after {
        let d = before.iter().zip(&after).find(|(a, b)| a != b);
        return Err(format!("reference counts or identifiers of shared documents changed (address, (id, handles, count)): {:?}", d));
    }
    for (o, h) in shared.iter().zip(&solo_shared) {
        if guard(|| reading(o))? != *h {
            return Err("a shared document reads differently afterwards".into());
        }
    }
    ctx.count("counts_balanced", after.len() as u64);
    ctx.count("switches", order.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    ctx.nontrivial(&order.iter().map(|b| char::from(b'0' + b)).collect::<String>());
    Ok(())
}
