//! Written forms read back: C12 and C13.

use super::includes::in_dir;
use super::util::*;
use crate::bridge::{self, Build, Lift, VGen};
use crate::gen::{self, Gen, Prof};
use crate::model::{self, MObj, MTy, MV};
use crate::sup::{guard, must, Ctx, PropDef};
use over::arr::Arr;
use over::value::Value;
use over::{Obj, ReferenceType};
use std::fs;
use std::rc::Rc;

const MODEL: &str = "the model in harness/src/model.rs reads the language as README.md lays it down";

/// Levels of the written form of a value.
pub fn depth_of(v: &MV) -> usize {
    match v {
        MV::Obj(o) => model::written_depth(o),
        MV::Arr(_) | MV::Tup(_) => {
            let o = MObj { fields: vec![(Rc::from("x"), v.clone())], parent: None };
            model::written_depth(&o) - 1
        }
        _ => 0,
    }
}

pub fn size_of(v: &MV) -> u64 {
    model::tree_size(&MObj { fields: vec![(Rc::from("x"), v.clone())], parent: None })
}

/// A nest of containers of exactly this depth.
pub fn deep(rng: &mut crate::rng::Rng, depth: usize) -> MV {
    let mut v = if rng.bool() { MV::int(1) } else { MV::arr(vec![]).unwrap() };
    let from = usize::from(matches!(v, MV::Arr(_)));
    for i in from..depth {
        v = match rng.below(5) {
            0 => MV::arr(vec![v]).unwrap(),
            1 => MV::tup(vec![MV::str("s"), v]),
            2 => match v {
                MV::Obj(o) => MV::obj(vec![(Rc::from("p"), MV::int(i as i64))], Some(o)),
                v => MV::tup(vec![v]),
            },
            3 => MV::arr(vec![v.clone(), v]).unwrap(),
            _ => MV::obj(vec![(Rc::from("a"), MV::Null), (Rc::from("b"), v)], None),
        };
        if size_of(&v) > 20_000 {
            v = MV::tup(vec![MV::int(0)]);
            for _ in 1..=i {
                v = MV::tup(vec![v]);
            }
        }
    }
    v
}

/// An object to write, and what it holds.
pub fn subject(ctx: &mut Ctx) -> Result<Option<(Obj, Rc<MObj>)>, String> {
    let odd = *ctx.rng.pick(&[0, 15, 60]);
    match ctx.rng.below(10) {
        0..=2 => {
            // Loaded.
            let prof = vary(ctx, Prof::std());
            let toks = document(ctx, prof);
            let l = gen::layout(&mut ctx.rng);
            let text = gen::render(&mut ctx.rng, &toks, l).text;
            ctx.note("loaded from", &text);
            match agree(ctx, Src::Str(&text), ACCEPT)?.0 {
                Seen::Same(o, m) => {
                    ctx.count("loaded", 1);
                    Ok(Some((o, m)))
                }
                _ => Ok(None),
            }
        }
        3 => {
            // Loaded with includes.
            let root = fresh_dir(ctx, "r");
            let mut prof = Prof::std();
            prof.p_inc = 40;
            let mut g = Gen::new(&mut ctx.rng, prof);
            g.root = root.to_str().unwrap().to_string();
            let toks = g.document("");
            let (files, dirs) = (std::mem::take(&mut g.files), g.dirs.clone());
            drop(g);
            write_files(ctx, &root, &files, &dirs, None);
            let l = gen::layout(&mut ctx.rng);
            let text = gen::render(&mut ctx.rng, &toks, l).text;
            let p = root.join("main.over");
            write(&p, text.as_bytes());
            ctx.note("loaded from", &text);
            match agree(ctx, Src::File(p.to_str().unwrap()), ACCEPT)?.0 {
                Seen::Same(o, m) => {
                    ctx.count("loaded_with_includes", 1);
                    Ok(Some((o, m)))
                }
                _ => Ok(None),
            }
        }
        k => {
            let size = *ctx.rng.pick(&[5, 20, 60, 200]);
            let m = if k == 4 {
                let d = *ctx.rng.pick(&[64, 64, 63, 40, 20]);
                let v = deep(&mut ctx.rng, d - 1);
                let m = if let (MV::Obj(p), true) = (&v, ctx.rng.bool()) {
                    Rc::new(MObj { fields: vec![(Rc::from("x"), MV::int(1))], parent: Some(p.clone()) })
                } else {
                    Rc::new(MObj { fields: vec![(Rc::from("x"), v)], parent: None })
                };
                if model::written_depth(&m) == 64 {
                    ctx.count("depth_64", 1);
                }
                m
            } else {
                let mut g = VGen::new(&mut ctx.rng, size, odd);
                g.depth = 8;
                g.obj(1)
            };
            // Reserved words are accepted as names by construction, but cannot be written.
            let mut b = Build::with(ctx.rng.pct(20));
            let o = guard(|| b.obj(&m))??;
            ctx.count("built", 1);
            Ok(Some((o, m)))
        }
    }
}

/// Values in an object, mentions counted again each time.
pub fn size(o: &Obj) -> u64 {
    let m = crate::bridge::Lift::default().obj(o);
    model::tree_size(&m)
}

fn writable(m: &Rc<MObj>) -> bool {
    model::tree_size(m) < 30_000 && model::written_depth(m) <= model::LIMIT
}

// ---------------------------------------------------------------- C12

pub static C12: PropDef = PropDef {
    id: "C12",
    run: c12,
    quick: 36_000,
    thorough: 720_000,
    level: "exploration",
    rule: "objects loaded from generated documents and include trees and objects built through the API (all types, \
           nasty strings and names, parents, shared instances, nests up to the limit, numbers of thousands of digits), \
           written to a string and to a file and loaded again, compared by == and node by node with the model \
           (order, types, parents); some of large sizes; non-trivial: at least 5 values, counted by distinct written form",
    must: &["large_cases", "loaded", "loaded_with_includes", "built", "depth_64", "via_file", "parents", "values_compared"],
    assumptions: &[MODEL, "objects whose written form has more than 30000 values are not written"],
};

fn has_parent(m: &MObj) -> bool {
    fn val(v: &MV) -> bool {
        match v {
            MV::Obj(o) => has_parent(o),
            MV::Arr(a) => a.vals.iter().any(val),
            MV::Tup(a) => a.vals.iter().any(val),
            _ => false,
        }
    }
    m.parent.is_some() || m.fields.iter().any(|f| val(&f.1))
}

fn c12(ctx: &mut Ctx) -> Result<(), String> {
    let (o, m) = match subject(ctx)? {
        Some(x) => x,
        None => return Ok(()),
    };
    if !writable(&m) {
        ctx.count("too_deep_or_large", 1);
        return Ok(());
    }
    let text = ctx.over(|| o.write_to_string())?;
    ctx.note("written form", &text);
    let back = match load_str(ctx, &text)? {
        Ok(b) => b,
        Err(e) => return Err(format!("the written form does not load: {}", model::short(&e))),
    };
    let eq = ctx.over(|| (o == back, back == o, o != back))?;
    if eq != (true, true, false) {
        return Err(format!("reading the written form back gives an object that is not equal: {:?}", eq));
    }
    let mut c = bridge::Cmp::new(false);
    guard(|| c.obj(&back, &m, "$"))?.map_err(|e| format!("after writing and reading: {}", e))?;
    ctx.count("values_compared", c.nodes);
    if ctx.rng.pct(35) {
        let p = ctx.dir.join("out.over");
        let spelled = if ctx.rng.bool() { "out.over".to_string() } else { p.to_str().unwrap().to_string() };
        if ctx.rng.bool() {
            // Something to replace.
            let old = *ctx.rng.pick(&["", "old: content that is rather longer than what replaces it # # #\n", "x"]);
            write(&p, old.as_bytes());
        } else {
            let _ = fs::remove_file(&p);
        }
        let dir = ctx.dir.clone();
        let r = in_dir(&dir, || ctx.over(|| o.write_to_file(&spelled).map_err(|e| e.to_string())))?;
        r.map_err(|e| format!("writing to a file failed: {}", e))?;
        let bytes = must(fs::read(&p), "written file");
        if bytes != text.as_bytes() {
            return Err(format!(
                "the file has {} bytes, the written form {}: {:?}",
                bytes.len(),
                text.len(),
                model::short(&String::from_utf8_lossy(&bytes))
            ));
        }
        match load_file(ctx, p.to_str().unwrap())? {
            Ok(b) => {
                if !(b == o && b == back) {
                    return Err("the object read from the written file is not equal".into());
                }
                guard(|| bridge::same_obj(&b, &m))?.map_err(|e| format!("after writing to a file and reading: {}", e))?;
            }
            Err(e) => return Err(format!("the written file does not load: {}", model::short(&e))),
        }
        ctx.count("via_file", 1);
    }
    if has_parent(&m) {
        ctx.count("parents", 1);
    }
    if model::tree_size(&m) >= 5 {
        ctx.nontrivial(&text);
        ctx.sample(|| text.clone());
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub static C13: PropDef = PropDef {
    id: "C13",
    run: c13,
    quick: 36_000,
    thorough: 500_000,
    level: "exploration",
    rule: "values of every type printed (as values, and as arrays, tuples and objects), the text put in every place a \
           value may stand, loaded, compared node by node and printed again; the same data built with and without \
           sharing, loaded from independent source text and read back must print the same bytes, always; \
           some of large sizes; non-trivial: distinct texts",
    must: &["large_cases", "printed", "frames", "reprinted", "other_origin", "written_again", "arrays", "tuples", "objects", "scalars", "arrays_as_files"],
    assumptions: &[MODEL, "an operand of an operator is not taken as a place where any value may stand"],
};

fn c13(ctx: &mut Ctx) -> Result<(), String> {
    let odd = *ctx.rng.pick(&[0, 15, 60]);
    let v = if ctx.rng.pct(8) {
        let d = *ctx.rng.pick(&[60, 62, 62, 30]);
        deep(&mut ctx.rng, d)
    } else {
        let size = *ctx.rng.pick(&[1, 5, 20, 80]);
        let t = match ctx.rng.below(6) {
            0 => MTy::arr(MTy::Any),
            1 => MTy::Obj,
            2 => MTy::Tup((0..ctx.rng.below(5)).map(|_| MTy::Any).collect()),
            3 => ctx.rng.pick(&[MTy::Null, MTy::Bool, MTy::Int, MTy::Frac, MTy::Frac, MTy::Str, MTy::Str]).clone(),
            _ => MTy::Any,
        };
        let mut g = VGen::new(&mut ctx.rng, size, odd);
        g.depth = 7;
        g.val(&t, 1)
    };
    if size_of(&v) > 30_000 {
        return Ok(());
    }
    let depth = depth_of(&v);
    let x = guard(|| Build::default().val(&v))??;
    let text = ctx.over(|| x.to_string())?;
    ctx.note("printed", &text);
    ctx.count("printed", 1);
    // The same through the container's own type.
    let inner = ctx.over(|| match &x {
        Value::Arr(a) => a.to_string(),
        Value::Tup(a) => a.to_string(),
        Value::Obj(a) => a.to_string(),
        _ => text.clone(),
    })?;
    ctx.count(
        match &x {
            Value::Arr(_) => "arrays",
            Value::Tup(_) => "tuples",
            Value::Obj(_) => "objects",
            _ => "scalars",
        },
        1,
    );
    let is_obj = matches!(v, MV::Obj(_));
    for t in if inner == text { vec![&text] } else { vec![&text, &inner] } {
        // Where it may stand: (frame, how to reach it, levels around it).
        let frames: [(&str, &str, usize); 9] = [
            ("r: V", "r", 1),
            ("a: 1 r: V b: 2", "r", 1),
            ("r: [V]", "r.0", 2),
            ("r: [V V]", "r.1", 2),
            ("r: (\"x\" V V)", "r.2", 2),
            ("@g: V\nr: @g", "r", 1),
            ("r: {r: V}", "r.r", 2),
            ("r: {^: {r: V} s: 1}", "r.r", 3),
            ("r: {^: V}", "r.^", 2),
        ];
        for _ in 0..2 {
            let (frame, at, around) = *ctx.rng.pick(&frames);
            if at == "r.^" && !is_obj || depth + around > model::LIMIT {
                continue;
            }
            let doc = frame.replace('V', t);
            ctx.note("in a document", frame);
            let o = match load_str(ctx, &doc)? {
                Ok(o) => o,
                Err(e) => return Err(format!("the printed form is not valid in {:?}: {}", frame, model::short(&e))),
            };
            ctx.count("frames", 1);
            let got = guard(|| reach(&o, at))??;
            let eq = ctx.over(|| (got == x, x == got))?;
            if eq != (true, true) {
                return Err(format!("the printed form reads back as another value in {:?}: {:?}", frame, eq));
            }
            guard(|| bridge::same_val(&got, &v))?.map_err(|e| format!("in {:?}: {}", frame, e))?;
            let again = ctx.over(|| got.to_string())?;
            if again != text {
                return Err(format!("printing what was read back gives {:?}", model::short(&again)));
            }
            ctx.count("reprinted", 1);
        }
    }
    // Twice the same, and whatever the origin of the data.
    let again = ctx.over(|| x.clone().to_string())?;
    if again != text {
        return Err("printing twice gives different texts".into());
    }
    let y = guard(|| Build::with(true).val(&v))??;
    let other = ctx.over(|| y.to_string())?;
    if other != text {
        return Err(format!("equal data built without sharing prints differently: {:?}", model::short(&other)));
    }
    if depth < model::LIMIT {
        let mut src = String::from("r: ");
        bridge::source(&mut ctx.rng, &v, &mut src);
        match load_str(ctx, &src)? {
            Ok(o) => {
                let got = o.get("r").ok_or("no field r")?;
                let t = ctx.over(|| got.to_string())?;
                if t != text {
                    return Err(format!("equal data loaded from {:?} prints differently: {:?}", model::short(&src), model::short(&t)));
                }
                ctx.count("other_origin", 1);
            }
            Err(e) => return Err(format!("source text {:?} does not load: {}", model::short(&src), model::short(&e))),
        }
    }
    // Whole objects: writing what was just read gives the same bytes.
    if let (Value::Obj(o), true) = (&x, depth <= model::LIMIT) {
        let w = ctx.over(|| o.write_to_string())?;
        let b = match load_str(ctx, &w)? {
            Ok(b) => b,
            Err(e) => return Err(format!("the written form does not load: {}", model::short(&e))),
        };
        let w2 = ctx.over(|| b.write_to_string())?;
        if w != w2 {
            return Err(format!("writing again gives {:?} instead of {:?}", model::short(&w2), model::short(&w)));
        }
        let lifted = Lift::default().obj(&b);
        let built = guard(|| Build::default().obj(&lifted))??;
        if ctx.over(|| built.write_to_string())? != w {
            return Err("equal data built through the API is written differently".into());
        }
        ctx.count("written_again", 1);
    }
    // Elements of a printed array are the content of an array file.
    if let (Value::Arr(a), true) = (&x, ctx.rng.pct(15) && depth <= model::LIMIT - 2) {
        let p = ctx.dir.join("arr.over");
        let body: Vec<String> = guard(|| a.iter().map(|v| v.to_string()).collect())?;
        write(&p, body.join("\n").as_bytes());
        let doc = "r: <Arr \"arr.over\">";
        let dir = ctx.dir.clone();
        let o = match in_dir(&dir, || load_str(ctx, doc))? {
            Ok(o) => o,
            Err(e) => return Err(format!("the printed elements are not a valid array file: {}", model::short(&e))),
        };
        let b: Arr = o.get_arr("r").map_err(|e| e.to_string())?;
        if b.to_string() != text || b.id() == a.id() {
            return Err("an array file of the printed elements is another array".into());
        }
        ctx.count("arrays_as_files", 1);
    }
    ctx.nontrivial(&text);
    ctx.sample(|| text.clone());
    Ok(())
}

fn reach(o: &Obj, path: &str) -> Result<Value, String> {
    let mut v: Value = o.clone().into();
    for p in path.split('.') {
        v = match (&v, p) {
            (Value::Obj(o), "^") => o.get_parent().ok_or("no parent")?.into(),
            (Value::Obj(o), f) => o.get(f).ok_or("no field")?,
            (Value::Arr(a), i) => a.get(i.parse().unwrap()).map_err(|e| e.to_string())?,
            (Value::Tup(a), i) => a.get(i.parse().unwrap()).map_err(|e| e.to_string())?,
            _ => return Err("wrong path".into()),
        };
    }
    Ok(v)
}
