//! Types, equality, accessors and identity: C05, C06, C17, C18, C19.

use super::includes::in_dir;
use super::util::*;
use crate::bridge::{self, mty, otype, Build, Lift, VGen};
use crate::gen::{self, Prof};
use crate::model::{self, unify, MObj, MTy, MV};
use crate::rng::Rng;
use crate::sup::{guard, harness_fail, Ctx, PropDef};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::ToPrimitive;
use over::arr::Arr;
use over::obj::Pair;
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use over::{arr, frac, int, obj, try_arr, try_obj, tup};
use over::{Obj, OverError, ReferenceType};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::convert::TryFrom;
use std::rc::Rc;

const MODEL: &str = "the model in harness/src/model.rs reads the language as README.md lays it down";

// ---------------------------------------------------------------- types

/// A second reading of unification, by positions instead of recursion: the known constructor at
/// every position of a type. Unknown parts have no entry.
fn positions(t: &MTy) -> BTreeMap<Vec<usize>, MTy> {
    let mut out = BTreeMap::new();
    let mut todo = vec![(vec![], t)];
    while let Some((at, t)) = todo.pop() {
        match t {
            MTy::Any => (),
            MTy::Arr(e) => {
                out.insert(at.clone(), MTy::arr(MTy::Any));
                let mut p = at;
                p.push(0);
                todo.push((p, &**e));
            }
            MTy::Tup(ts) => {
                out.insert(at.clone(), MTy::Tup(ts.iter().map(|_| MTy::Any).collect()));
                for (i, e) in ts.iter().enumerate() {
                    let mut p = at.clone();
                    p.push(i);
                    todo.push((p, e));
                }
            }
            t => {
                out.insert(at, t.clone());
            }
        }
    }
    out
}

fn rebuild(at: &[usize], m: &BTreeMap<Vec<usize>, MTy>) -> MTy {
    let sub = |i: usize| {
        let mut p = at.to_vec();
        p.push(i);
        rebuild(&p, m)
    };
    match m.get(at) {
        None => MTy::Any,
        Some(MTy::Arr(_)) => MTy::arr(sub(0)),
        Some(MTy::Tup(ts)) => MTy::Tup((0..ts.len()).map(sub).collect()),
        Some(t) => t.clone(),
    }
}

fn join(a: &MTy, b: &MTy) -> Option<MTy> {
    let mut m = positions(a);
    for (p, c) in positions(b) {
        if let Some(d) = m.get(&p) {
            if *d != c {
                return None;
            }
        } else if (0..p.len()).any(|k| match m.get(&p[..k]) {
            // A position below something that has no parts.
            Some(MTy::Arr(_)) | None => false,
            Some(MTy::Tup(ts)) => p[k] >= ts.len(),
            Some(_) => true,
        }) {
            return None;
        }
        m.insert(p, c);
    }
    Some(rebuild(&[], &m))
}

fn universe() -> Vec<MTy> {
    let base = [MTy::Any, MTy::Null, MTy::Bool, MTy::Int, MTy::Frac, MTy::Str, MTy::Obj];
    let few = [MTy::Any, MTy::Int, MTy::Str, MTy::Obj];
    let mut one: Vec<MTy> = few.to_vec();
    for t in &few {
        one.push(MTy::arr(t.clone()));
        one.push(MTy::Tup(vec![t.clone()]));
    }
    one.push(MTy::Tup(vec![]));
    for t in &few[..3] {
        for u in &few[..3] {
            one.push(MTy::Tup(vec![t.clone(), u.clone()]));
        }
    }
    let mut all: Vec<MTy> = base.to_vec();
    for t in base.iter().chain(&one) {
        all.push(MTy::arr(t.clone()));
        all.push(MTy::Tup(vec![t.clone()]));
    }
    all.push(MTy::Tup(vec![]));
    for t in &one {
        for u in &one {
            all.push(MTy::Tup(vec![t.clone(), u.clone()]));
        }
    }
    for t in &few {
        for u in &few {
            all.push(MTy::Tup(vec![t.clone(), MTy::Any, u.clone()]));
            all.push(MTy::arr(MTy::Tup(vec![t.clone(), u.clone()])));
            all.push(MTy::arr(MTy::arr(MTy::Tup(vec![MTy::arr(t.clone()), u.clone()]))));
        }
    }
    let mut seen = HashSet::new();
    all.retain(|t| seen.insert(t.clone()));
    all
}

fn random_type(rng: &mut Rng, depth: usize, any: u32) -> MTy {
    if depth > 0 && rng.pct(60) {
        if rng.bool() {
            MTy::arr(random_type(rng, depth - 1, any))
        } else {
            let n = *rng.pick(&[0, 1, 2, 2, 3, 5]);
            MTy::Tup((0..n).map(|_| random_type(rng, depth - 1, any)).collect())
        }
    } else if rng.pct(any) {
        MTy::Any
    } else {
        rng.pick(&[MTy::Null, MTy::Bool, MTy::Int, MTy::Frac, MTy::Str, MTy::Obj]).clone()
    }
}

/// The same type with some parts unknown, and sometimes one part different.
fn hollow(rng: &mut Rng, t: &MTy, p: u32, q: u32) -> MTy {
    if rng.pct(p) {
        return MTy::Any;
    }
    if rng.pct(q) {
        return random_type(rng, 1, 10);
    }
    match t {
        MTy::Arr(e) => MTy::arr(hollow(rng, e, p, q)),
        MTy::Tup(ts) => {
            let mut v: Vec<MTy> = ts.iter().map(|t| hollow(rng, t, p, q)).collect();
            if rng.pct(q) {
                if rng.bool() {
                    v.pop();
                } else {
                    v.push(MTy::Int);
                }
            }
            MTy::Tup(v)
        }
        t => t.clone(),
    }
}

fn check_pair(ctx: &mut Ctx, a: &MTy, b: &MTy, x: &Type, y: &Type) -> Result<(), String> {
    let want = unify(a, b);
    if want != join(a, b) {
        harness_fail(&format!("the two readings of unification differ on {} and {}", a.show(), b.show()));
    }
    let got = ctx.over(|| Type::most_specific(x, y))?;
    let back = ctx.over(|| Type::most_specific(y, x))?;
    let say = |r: &Option<(Type, bool)>| match r {
        None => "nothing".to_string(),
        Some((t, f)) => format!("{} with flag {}", mty(t).show(), f),
    };
    let exp = want.as_ref().map(|t| (t.clone(), t.has_any()));
    for (r, how) in [(&got, "most_specific(a, b)"), (&back, "most_specific(b, a)")] {
        if r.as_ref().map(|(t, f)| (mty(t), *f)) != exp {
            return Err(format!(
                "a = {}, b = {}: {} is {} instead of {}",
                a.show(),
                b.show(),
                how,
                say(r),
                match &exp {
                    None => "nothing".into(),
                    Some((t, f)) => format!("{} with flag {}", t.show(), f),
                }
            ));
        }
    }
    #[allow(clippy::nonminimal_bool)]
    let (e, f, n) = ctx.over(|| (x == y, y == x, x != y))?;
    if e != want.is_some() || f != e || n == e {
        return Err(format!("a = {}, b = {}: a == b is {}, b == a is {}, a != b is {}", a.show(), b.show(), e, f, n));
    }
    let (i, j) = ctx.over(|| (x.is(y), y.is(x)))?;
    if i != (a == b) || j != i {
        return Err(format!("a = {}, b = {}: a.is(b) is {}, b.is(a) is {}", a.show(), b.show(), i, j));
    }
    ctx.count("pairs", 1);
    ctx.count(if want.is_some() { "compatible" } else { "incompatible" }, 1);
    if i {
        ctx.count("identical", 1);
    } else if e {
        ctx.count("equal_up_to_unknown", 1);
    }
    Ok(())
}

pub static C06: PropDef = PropDef {
    id: "C06",
    run: c06,
    quick: 2_700_000,
    thorough: 18_000_000,
    level: "exploration",
    rule: "every ordered pair of a fixed universe of several hundred types (all scalars, arrays and tuples of up to \
           three parts, nested up to four levels, with unknown parts everywhere), and random related deep types: \
           existence, symmetry, result, flag, equality, strict identity and has_any against two independent oracles; \
           the types reported by built and loaded values at every node against their content; some of large sizes; non-trivial: distinct \
           types or values",
    must: &["large_cases", "pairs", "compatible", "incompatible", "identical", "equal_up_to_unknown", "rows", "built_values", "loaded_values", "unknown_parts"],
    assumptions: &["the universe bounds the exhaustive part; deeper types are sampled"],
};

thread_local! {
    static UNI: (Vec<MTy>, Vec<Type>) = {
        let u = universe();
        let o = u.iter().map(otype).collect();
        (u, o)
    };
}

/// Types of many parts, or deep ones.
pub fn large_types(ctx: &mut Ctx, a: &MTy, b: &MTy) -> Result<(), String> {
    let (x, y) = (otype(a), otype(b));
    if ctx.over(|| (x.has_any(), y.has_any()))? != (a.has_any(), b.has_any()) {
        return Err("has_any is wrong".into());
    }
    check_pair(ctx, a, b, &x, &y)?;
    check_pair(ctx, a, a, &x, &x.clone())
}

fn c06(ctx: &mut Ctx) -> Result<(), String> {
    let idx = ctx.idx as usize;
    let n = UNI.with(|u| u.0.len());
    if idx < n {
        return UNI.with(|u| {
            ctx.count("rows", 1);
            let (a, x) = (&u.0[idx], &u.1[idx]);
            if ctx.over(|| x.has_any())? != a.has_any() {
                return Err(format!("{}: has_any is {}", a.show(), !a.has_any()));
            }
            let c = ctx.over(|| x.clone())?;
            if mty(&c) != *a {
                return Err(format!("a clone of {} is {}", a.show(), mty(&c).show()));
            }
            ctx.nontrivial(&a.show());
            for (b, y) in u.0.iter().zip(&u.1) {
                check_pair(ctx, a, b, x, y)?;
            }
            Ok(())
        });
    }
    match ctx.rng.below(4) {
        0 | 1 => {
            let t = random_type(&mut ctx.rng, 5, 10);
            let (p, q) = *ctx.rng.pick(&[(15, 0), (15, 4), (0, 4), (30, 0), (5, 15)]);
            let a = hollow(&mut ctx.rng, &t, p, q);
            let b = hollow(&mut ctx.rng, &t, p, q);
            let (x, y) = (otype(&a), otype(&b));
            ctx.note("types", &format!("{}\n{}", a.show(), b.show()));
            if ctx.over(|| x.has_any())? != a.has_any() {
                return Err(format!("{}: has_any is {}", a.show(), !a.has_any()));
            }
            check_pair(ctx, &a, &b, &x, &y)?;
            check_pair(ctx, &a, &a, &x, &x.clone())?;
            if a.size() > 3 {
                ctx.nontrivial(&(a.show() + &b.show()));
            }
        }
        2 => {
            let v = typed_value(&mut ctx.rng);
            ctx.note("value", &model::show(&v));
            let x = guard(|| Build::default().val(&v))??;
            if v.ty().has_any() {
                ctx.count("unknown_parts", 1);
            }
            guard(|| bridge::same_val(&x, &v))??;
            ctx.count("built_values", 1);
            let mut t = String::new();
            bridge::source(&mut ctx.rng, &v, &mut t);
            ctx.nontrivial(&t);
            let doc = format!("r: {}", t);
            match load_str(ctx, &doc)? {
                Ok(o) => {
                    let y = o.get("r").ok_or("no field r")?;
                    guard(|| bridge::same_val(&y, &v))?.map_err(|e| format!("loaded from text: {}", e))?;
                    ctx.count("loaded_values", 1);
                }
                Err(e) => return Err(format!("{:?} does not load: {}", model::short(&doc), model::short(&e))),
            }
        }
        _ => {
            // Values made by operators and references.
            let toks = document(ctx, Prof::std());
            let text = gen::render(&mut ctx.rng, &toks, gen::Layout::Minimal).text;
            ctx.note("document", &text);
            if let Seen::Same(_, m) = agree(ctx, Src::Str(&text), ACCEPT)?.0 {
                ctx.count("loaded_values", 1);
                if m.fields.len() > 2 {
                    ctx.nontrivial(&text);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- values of a type

/// A value of this type; unknown parts become empty arrays of whatever type.
fn val_of(rng: &mut Rng, t: &MTy, top: bool) -> MV {
    match t {
        MTy::Any => {
            if top {
                MV::Null
            } else {
                MV::arr(vec![]).unwrap()
            }
        }
        MTy::Null => MV::Null,
        MTy::Bool => MV::Bool(rng.bool()),
        MTy::Int => MV::int(rng.below(9) as i64 - 4),
        MTy::Frac => MV::Frac(BigRational::new((rng.below(9) as i64 - 4).into(), (1 + rng.below(5) as i64).into())),
        MTy::Str => MV::str(*rng.pick(&["", "s", "é", "[", "a b"])),
        MTy::Obj => {
            let mut f: Vec<(Rc<str>, MV)> = vec![];
            if rng.bool() {
                f.push((Rc::from("a"), MV::int(1)));
            }
            let parent = if rng.pct(20) { Some(Rc::new(MObj { fields: vec![], parent: None })) } else { None };
            MV::obj(f, parent)
        }
        MTy::Arr(e) => {
            let n = if **e == MTy::Any || rng.pct(30) { 0 } else { rng.range(1, 3) };
            let v: Vec<MV> = (0..n).map(|_| val_of(rng, e, false)).collect();
            MV::arr(v).unwrap_or_else(|| MV::arr(vec![]).unwrap())
        }
        MTy::Tup(ts) => MV::tup(ts.iter().map(|t| val_of(rng, t, false)).collect()),
    }
}

/// Types that values can have: unknown parts only as elements of arrays.
fn value_type(rng: &mut Rng, depth: usize) -> MTy {
    if depth > 0 && rng.pct(65) {
        if rng.pct(60) {
            if rng.pct(12) {
                MTy::arr(MTy::Any)
            } else {
                MTy::arr(value_type(rng, depth - 1))
            }
        } else {
            let n = *rng.pick(&[0, 1, 2, 2, 3]);
            MTy::Tup((0..n).map(|_| value_type(rng, depth - 1)).collect())
        }
    } else {
        rng.pick(&[MTy::Null, MTy::Bool, MTy::Int, MTy::Int, MTy::Frac, MTy::Str, MTy::Obj]).clone()
    }
}

fn typed_value(rng: &mut Rng) -> MV {
    let d = rng.range(1, 5);
    let t = value_type(rng, d);
    val_of(rng, &t, true)
}

/// The type with one part replaced.
fn misfit(rng: &mut Rng, t: &MTy) -> MTy {
    match t {
        MTy::Arr(e) if rng.pct(80) => MTy::arr(misfit(rng, e)),
        MTy::Tup(ts) if !ts.is_empty() && rng.pct(80) => {
            let mut v = ts.clone();
            let i = rng.below(v.len());
            v[i] = misfit(rng, &v[i]);
            MTy::Tup(v)
        }
        MTy::Tup(ts) if rng.bool() => {
            let mut v = ts.clone();
            v.push(MTy::Int);
            MTy::Tup(v)
        }
        _ => value_type(rng, 1),
    }
}

// ---------------------------------------------------------------- C05

pub static C05: PropDef = PropDef {
    id: "C05",
    run: c05,
    quick: 1_440_000,
    thorough: 14_400_000,
    level: "exploration",
    rule: "lists of up to nine elements of related nested types (with empty arrays anywhere and sometimes one part that \
           does not fit), made into an array by a literal, by an included array file, by concatenation of every kind \
           of split, by Arr::from_values, TryFrom and try_arr!, in several orders: each way must accept exactly when \
           the model finds a common type, and report exactly that type; some of large sizes; non-trivial: at least two elements, distinct",
    must: &[
        "large_cases",
        "literal", "included", "concatenated", "from_values", "try_from", "macro", "accepted_ways", "rejected_ways", "permutations",
        "unknown_element_type", "empty", "nested_in_array",
    ],
    assumptions: &[MODEL],
};

fn c05(ctx: &mut Ctx) -> Result<(), String> {
    let d = ctx.rng.below(5);
    let base = value_type(&mut ctx.rng, d);
    let n = *ctx.rng.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 9]);
    let odd = if ctx.rng.pct(45) && n > 0 { ctx.rng.below(n) } else { usize::MAX };
    let mut vals: Vec<MV> = vec![];
    for i in 0..n {
        let t = if i == odd { misfit(&mut ctx.rng, &base) } else { base.clone() };
        vals.push(val_of(&mut ctx.rng, &t, true));
    }
    // One and the same value several times.
    if n > 1 && ctx.rng.pct(10) {
        vals[n - 1] = vals[0].clone();
    }
    let mut reported: Vec<(String, MTy)> = vec![];
    for round in 0..3 {
        if round > 0 {
            ctx.rng.shuffle(&mut vals);
            ctx.count("permutations", 1);
        }
        let want = MV::arr(vals.clone());
        let mut items: Vec<String> = vec![];
        for v in &vals {
            let mut s = String::new();
            bridge::source(&mut ctx.rng, v, &mut s);
            items.push(s);
        }
        ctx.note("elements", &items.join(" , "));
        if round == 0 && n > 1 {
            ctx.nontrivial(&items.join(" "));
            ctx.sample(|| items.join(" "));
        }
        let sep = *ctx.rng.pick(&[" ", "\n", "  # x\n"]);
        let lit = format!("[{}]", items.join(sep));
        let verdict = |ctx: &mut Ctx, how: &str, got: Result<Value, String>, want: &Option<MV>| -> Result<Option<MTy>, String> {
            ctx.count(how, 1);
            match (got, want) {
                (Ok(x), Some(w)) => {
                    ctx.count("accepted_ways", 1);
                    guard(|| bridge::same_val(&x, w))?.map_err(|e| format!("{}: {}", how, e))?;
                    Ok(Some(mty(&guard(|| x.get_type())?)))
                }
                (Err(_), None) => {
                    ctx.count("rejected_ways", 1);
                    Ok(None)
                }
                (Ok(x), None) => Err(format!(
                    "{}: accepted although the elements have no common type; reports {}",
                    how,
                    mty(&guard(|| x.get_type())?).show()
                )),
                (Err(e), Some(w)) => {
                    Err(format!("{}: rejected although all elements fit {}: {}", how, w.ty().show(), model::short(&e)))
                }
            }
        };
        let field = |r: Result<Obj, String>, f: &str| r.and_then(|o| o.get(f).ok_or_else(|| "no such field".to_string()));
        // The construction API.
        let built = guard(|| -> Result<Vec<Value>, String> {
            let mut b = Build::with(false);
            vals.iter().map(|v| b.val(v)).collect()
        })??;
        let b2 = built.clone();
        let r = ctx.over(|| Arr::from_values(b2).map(Value::from).map_err(|e| e.to_string()))?;
        if let Some(t) = verdict(ctx, "from_values", r, &want)? {
            reported.push(("from_values".into(), t));
        }
        let b2 = built.clone();
        let r = ctx.over(|| Arr::try_from(b2).map(Value::from).map_err(|e| e.to_string()))?;
        verdict(ctx, "try_from", r, &want)?;
        if (1..=3).contains(&n) {
            let b2 = built.clone();
            let r = ctx.over(|| {
                let mut i = b2.into_iter();
                let mut next = || i.next().unwrap();
                match n {
                    1 => try_arr![next()],
                    2 => try_arr![next(), next()],
                    _ => try_arr![next(), next(), next(),],
                }
                .map(Value::from)
                .map_err(|e| e.to_string())
            })?;
            verdict(ctx, "macro", r, &want)?;
        }
        // A literal, alone and inside other containers.
        let doc = match ctx.rng.below(4) {
            0 => format!("r: {}", lit),
            1 => format!("x: 1 r: {} y: r", lit),
            2 => format!("@g: {}\nr: @g", lit),
            _ => format!("s: ({} 1) r: s.0", lit),
        };
        let r = load_str(ctx, &doc)?;
        if let Some(t) = verdict(ctx, "literal", field(r, "r"), &want)? {
            reported.push(("literal".into(), t));
        }
        // An included file.
        if ctx.rng.pct(35) {
            write(&ctx.dir.join("elems.over"), items.join(sep).as_bytes());
            let dir = ctx.dir.clone();
            let r = in_dir(&dir, || load_str(ctx, "r: <Arr \"elems.over\">"))?;
            if let Some(t) = verdict(ctx, "included", field(r, "r"), &want)? {
                reported.push(("included".into(), t));
            }
        }
        // Concatenations of parts that are arrays themselves.
        if n > 0 {
            let parts = ctx.rng.range(2, 4);
            let mut cuts: Vec<usize> = (1..parts).map(|_| ctx.rng.below(n + 1)).collect();
            cuts.sort_unstable();
            cuts.insert(0, 0);
            cuts.push(n);
            let slices: Vec<(usize, usize)> = cuts.windows(2).map(|w| (w[0], w[1])).collect();
            if slices.iter().all(|&(a, b)| MV::arr(vals[a..b].to_vec()).is_some()) {
                let lits: Vec<String> = slices.iter().map(|&(a, b)| format!("[{}]", items[a..b].join(" "))).collect();
                let named = ctx.rng.bool();
                let doc = if named {
                    let mut s = String::new();
                    for (i, l) in lits.iter().enumerate() {
                        s.push_str(&format!("p{}: {}\n", i, l));
                    }
                    s + "r: " + &(0..lits.len()).map(|i| format!("p{}", i)).collect::<Vec<_>>().join("+")
                } else {
                    format!("r: {}", lits.join("+"))
                };
                ctx.note("concatenation", &doc);
                let r = load_str(ctx, &doc)?;
                if let (true, Ok(o)) = (named, &r) {
                    // The operands stay what they were.
                    for (i, &(a, b)) in slices.iter().enumerate() {
                        let v = o.get(&format!("p{}", i)).ok_or("operand lost")?;
                        let m = MV::arr(vals[a..b].to_vec()).unwrap();
                        guard(|| bridge::same_val(&v, &m))?.map_err(|e| format!("operand {} of a concatenation: {}", i, e))?;
                    }
                }
                if let Some(t) = verdict(ctx, "concatenated", field(r, "r"), &want)? {
                    reported.push(("concatenated".into(), t));
                }
            }
        }
        // As an element of an outer array, next to another array.
        if n > 0 && ctx.rng.pct(30) {
            let k = ctx.rng.below(n + 1);
            let (l, r) = (MV::arr(vals[..k].to_vec()), MV::arr(vals[k..].to_vec()));
            if let (Some(l), Some(r)) = (l, r) {
                let outer = MV::arr(vec![l, r]);
                let doc = format!("r: [[{}] [{}]]", items[..k].join(" "), items[k..].join(" "));
                let got = load_str(ctx, &doc)?;
                verdict(ctx, "nested_in_array", field(got, "r"), &outer)?;
            }
        }
        if let Some(w) = &want {
            if w.ty().has_any() {
                ctx.count("unknown_element_type", 1);
            }
            if n == 0 {
                ctx.count("empty", 1);
            }
        }
    }
    for w in reported.windows(2) {
        if w[0].1 != w[1].1 {
            return Err(format!("{} reports {}, {} reports {}", w[0].0, w[0].1.show(), w[1].0, w[1].1.show()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

pub static C17: PropDef = PropDef {
    id: "C17",
    run: c17,
    quick: 3_600_000,
    thorough: 36_000_000,
    level: "exploration",
    rule: "pairs of values of which one is derived from the other by nothing, by rebuilding without sharing, reloading, \
           reordering fields or one change anywhere (a scalar, a kind, an element, a field, a parent, a nesting level): \
           ==, != and both sides against structural equality of the model, in every typed form; triples for \
           transitivity; comparison with every native type at and around its limits; some of large sizes; non-trivial: distinct pairs",
    must: &[
        "large_cases",
        "pairs_equal", "pairs_different", "reordered", "reloaded", "triples", "native_int", "native_hits", "native_other", "containers",
        "change_scalar", "change_kind", "change_list", "change_field", "change_parent", "declared",
    ],
    assumptions: &["objects with two fields of one name cannot be written down and are not compared"],
};

/// One change somewhere in the value; None if nothing fits.
fn change(rng: &mut Rng, v: &MV, what: &mut &'static str) -> Option<MV> {
    let list = |rng: &mut Rng, vals: &[MV], what: &mut &'static str| -> Option<Vec<MV>> {
        let mut w = vals.to_vec();
        if !w.is_empty() && rng.pct(65) {
            let i = rng.below(w.len());
            w[i] = change(rng, &w[i], what)?;
            return Some(w);
        }
        *what = "change_list";
        match rng.below(4) {
            0 if !w.is_empty() => {
                let i = rng.below(w.len());
                w.remove(i);
            }
            1 if w.len() > 1 => {
                let i = rng.below(w.len() - 1);
                w.swap(i, i + 1);
            }
            2 if !w.is_empty() => {
                let i = rng.below(w.len());
                w.insert(i, w[i].clone());
            }
            _ => w.push(w.last().cloned().unwrap_or(MV::Null)),
        }
        Some(w)
    };
    if rng.pct(10) {
        // Another kind with the same look.
        *what = "change_kind";
        return match v {
            MV::Null => Some(MV::arr(vec![]).unwrap()),
            MV::Bool(b) => Some(MV::int(i64::from(*b))),
            MV::Int(i) => Some(if rng.bool() { MV::Frac(BigRational::from_integer(i.clone())) } else { MV::str(&i.to_string()) }),
            MV::Frac(f) => Some(if f.is_integer() { MV::Int(f.to_integer()) } else { MV::str("f") }),
            MV::Str(s) => Some(MV::arr(vec![MV::Str(s.clone())]).unwrap()),
            MV::Arr(a) => Some(MV::tup(a.vals.clone())),
            MV::Tup(a) => MV::arr(a.vals.clone()),
            MV::Obj(o) => Some(if rng.bool() {
                MV::tup(o.fields.iter().map(|f| f.1.clone()).collect())
            } else {
                MV::tup(vec![MV::Obj(o.clone())])
            }),
        };
    }
    match v {
        MV::Null => {
            *what = "change_kind";
            Some(MV::Bool(false))
        }
        MV::Bool(b) => {
            *what = "change_scalar";
            Some(MV::Bool(!b))
        }
        MV::Int(i) => {
            *what = "change_scalar";
            Some(MV::Int(match rng.below(4) {
                0 => -i,
                1 => i + BigInt::from(1u64 << 32) * BigInt::from(1u64 << 32),
                _ => i + BigInt::from(1),
            }))
        }
        MV::Frac(f) => {
            *what = "change_scalar";
            let g = match rng.below(3) {
                0 => -f,
                1 => f + BigRational::from_integer(1.into()),
                _ => f * BigRational::new(2.into(), 3.into()),
            };
            Some(MV::Frac(g))
        }
        MV::Str(s) => {
            *what = "change_scalar";
            let mut c: Vec<char> = s.chars().collect();
            let i = rng.below(c.len() + 1);
            if i < c.len() && rng.bool() {
                if rng.bool() {
                    c.remove(i);
                } else {
                    c[i] = if c[i] == 'x' { 'X' } else { 'x' };
                }
            } else {
                c.insert(i, *rng.pick(&[' ', 'x', '\n', '\u{301}']));
            }
            Some(MV::str(&c.into_iter().collect::<String>()))
        }
        MV::Arr(a) => MV::arr(list(rng, &a.vals, what)?),
        MV::Tup(a) => Some(MV::tup(list(rng, &a.vals, what)?)),
        MV::Obj(o) => {
            let mut f = o.fields.clone();
            let mut p = o.parent.clone();
            match rng.below(10) {
                0 => {
                    *what = "change_parent";
                    p = match p {
                        Some(_) => None,
                        None => Some(Rc::new(MObj { fields: vec![], parent: None })),
                    };
                }
                1 | 2 if p.is_some() => {
                    // A different ancestor, or the parent's fields moved down.
                    *what = "change_parent";
                    let q = p.clone().unwrap();
                    if rng.bool() {
                        match change(rng, &MV::Obj(q), what)? {
                            MV::Obj(q) => p = Some(q),
                            _ => return None,
                        }
                        *what = "change_parent";
                    } else {
                        for (n, v) in &q.fields {
                            if !f.iter().any(|g| g.0 == *n) {
                                f.push((n.clone(), v.clone()));
                            }
                        }
                        p = q.parent.clone();
                    }
                }
                3 => {
                    *what = "change_field";
                    let n: Rc<str> = Rc::from("zz");
                    if !f.iter().any(|g| g.0 == n) {
                        f.push((n, MV::Null));
                    }
                }
                4 | 5 if !f.is_empty() => {
                    *what = "change_field";
                    let i = rng.below(f.len());
                    match rng.below(3) {
                        0 => {
                            f.remove(i);
                        }
                        1 => {
                            let n: Rc<str> = Rc::from(format!("{}_", f[i].0));
                            if f.iter().any(|g| g.0 == n) {
                                return None;
                            }
                            f[i].0 = n;
                        }
                        _ => {
                            // Two fields exchange their values.
                            let j = rng.below(f.len());
                            let t = f[i].1.clone();
                            f[i].1 = f[j].1.clone();
                            f[j].1 = t;
                        }
                    }
                }
                _ if !f.is_empty() => {
                    let i = rng.below(f.len());
                    f[i].1 = change(rng, &f[i].1, what)?;
                }
                _ => return None,
            }
            Some(MV::obj(f, p))
        }
    }
}

/// The same value with the fields of its objects in other orders.
fn reorder(rng: &mut Rng, v: &MV) -> MV {
    match v {
        MV::Arr(a) => MV::arr(a.vals.iter().map(|v| reorder(rng, v)).collect()).unwrap(),
        MV::Tup(a) => MV::tup(a.vals.iter().map(|v| reorder(rng, v)).collect()),
        MV::Obj(o) => {
            let mut f: Vec<(Rc<str>, MV)> = o.fields.iter().map(|(n, v)| (n.clone(), reorder(rng, v))).collect();
            rng.shuffle(&mut f);
            let p = o.parent.as_ref().map(|p| match reorder(rng, &MV::Obj(p.clone())) {
                MV::Obj(p) => p,
                _ => unreachable!(),
            });
            MV::obj(f, p)
        }
        v => v.clone(),
    }
}

/// All the answers to "are they equal".
fn answers(x: &Value, y: &Value) -> Vec<(&'static str, bool)> {
    let mut v = vec![("a == b", x == y), ("b == a", y == x), ("!(a != b)", !(x != y)), ("!(b != a)", !(y != x))];
    macro_rules! typed {
        ($kind:ident) => {
            if let Value::$kind(b) = y {
                v.push(("value == typed", *x == *b));
                v.push(("typed == value", *b == *x));
                if let Value::$kind(a) = x {
                    v.push(("typed == typed", a == b));
                    v.push(("!(typed != typed)", !(a != b)));
                }
            }
        };
    }
    typed!(Bool);
    typed!(Int);
    typed!(Frac);
    typed!(Str);
    typed!(Arr);
    typed!(Tup);
    typed!(Obj);
    if let Value::Str(s) = y {
        let s: &str = s;
        v.push(("value == &str", *x == s));
        v.push(("&str == value", s == *x));
    }
    if let (Value::Obj(a), Value::Obj(b)) = (x, y) {
        v.push(("pair == pair", Pair("n".into(), a.clone().into()) == Pair("n".into(), b.clone().into())));
    }
    v
}

fn compare(ctx: &mut Ctx, x: &Value, y: &Value, want: bool, what: &str) -> Result<(), String> {
    let all = ctx.over(|| answers(x, y))?;
    for (how, got) in all {
        if got != want {
            return Err(format!("{}: {} is {} instead of {}", what, how, got, want));
        }
    }
    if matches!(x, Value::Arr(_) | Value::Tup(_) | Value::Obj(_)) {
        ctx.count("containers", 1);
    }
    ctx.count(if want { "pairs_equal" } else { "pairs_different" }, 1);
    Ok(())
}

fn c17(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.rng.pct(30) {
        return natives(ctx);
    }
    let size = *ctx.rng.pick(&[1, 4, 10, 40]);
    let odd = *ctx.rng.pick(&[0, 20]);
    let mut g = VGen::new(&mut ctx.rng, size, odd);
    g.depth = 5;
    let v = if g.rng.pct(40) { MV::Obj(g.obj(1)) } else { g.val(&MTy::Any, 1) };
    if size_of(&v) > 3_000 {
        return Ok(());
    }
    let x = guard(|| Build::default().val(&v))??;
    ctx.note("a", &model::show(&v));
    let c = ctx.over(|| x.clone())?;
    compare(ctx, &x, &x, true, "a value and itself")?;
    compare(ctx, &x, &c, true, "a value and its clone")?;
    // The same data by other routes.
    let again = guard(|| Build::with(true).val(&v))??;
    compare(ctx, &x, &again, true, "a value and the same built anew")?;
    let mut others = vec![(v.clone(), again)];
    if ctx.rng.pct(40) {
        // Empty arrays of which more is known.
        let mut b = Build::with(true);
        let t = over::types::Type::Int;
        b.declare = Some(match ctx.rng.below(5) {
            0 => t,
            1 => over::types::Type::Arr(Box::new(t)),
            2 => over::types::Type::Arr(Box::new(over::types::Type::Any)),
            3 => over::types::Type::Obj,
            _ => over::types::Type::Tup(vec![t, over::types::Type::Any]),
        });
        // Next to elements of other types it would not fit.
        if let Ok(y) = guard(|| b.val(&v))? {
            compare(ctx, &x, &y, true, "a value and the same with element types declared for empty arrays")?;
            ctx.count("declared", 1);
        }
    }
    if super::round::depth_of(&v) < model::LIMIT {
        let mut s = String::from("r: ");
        bridge::source(&mut ctx.rng, &v, &mut s);
        ctx.note("text", &s);
        match load_str(ctx, &s)? {
            Ok(o) => {
                let y = o.get("r").ok_or("no field r")?;
                compare(ctx, &x, &y, true, "a value and the same loaded from text")?;
                ctx.count("reloaded", 1);
                others.push((v.clone(), y));
            }
            Err(e) => return Err(format!("{:?} does not load: {}", model::short(&s), model::short(&e))),
        }
    }
    let w = reorder(&mut ctx.rng, &v);
    let y = guard(|| Build::default().val(&w))??;
    compare(ctx, &x, &y, true, "a value and the same with fields in another order")?;
    ctx.count("reordered", 1);
    others.push((w, y));
    // One change.
    for _ in 0..4 {
        let from = others[ctx.rng.below(others.len())].0.clone();
        let mut what = "change";
        if let Some(w) = change(&mut ctx.rng, &from, &mut what) {
            let want = model::eq(&v, &w);
            let y = guard(|| Build::with(ctx.rng.bool()).val(&w))??;
            ctx.note("b", &format!("{} ({})", model::show(&w), what));
            let mut s = String::new();
            bridge::source(&mut ctx.rng, &w, &mut s);
            compare(ctx, &x, &y, want, &format!("{} and a value with one change ({}): {}", model::show(&v), what, model::short(&s)))?;
            if !want {
                ctx.count(what, 1);
            }
            ctx.nontrivial(&s);
            others.push((w, y));
        }
    }
    // Transitivity on what we have, with the model as judge.
    for _ in 0..4 {
        let (i, j, k) = (ctx.rng.below(others.len()), ctx.rng.below(others.len()), ctx.rng.below(others.len()));
        let (a, b, c) = (&others[i].1, &others[j].1, &others[k].1);
        let (ab, bc, ac) = ctx.over(|| (a == b, b == c, a == c))?;
        if ab && bc && !ac {
            return Err("a == b and b == c but not a == c".into());
        }
        if ab != model::eq(&others[i].0, &others[j].0) {
            return Err(format!("a == b is {}", ab));
        }
        ctx.count("triples", 1);
    }
    Ok(())
}

fn natives(ctx: &mut Ctx) -> Result<(), String> {
    // An integer at or around the limits of some native type.
    let bits = *ctx.rng.pick(&[0u32, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 200]);
    let mut i = BigInt::from(1) << bits as usize;
    if ctx.rng.bool() {
        i = -i;
    }
    i += BigInt::from(ctx.rng.below(5) as i64 - 2);
    if ctx.rng.pct(20) {
        i = BigInt::from(ctx.rng.next()) - BigInt::from(ctx.rng.next() >> 1);
    }
    if ctx.rng.pct(15) {
        i = BigInt::from(ctx.rng.below(300) as i64 - 150);
    }
    ctx.note("integer", &i.to_string());
    ctx.nontrivial(&i.to_string());
    let v = Value::Int(i.clone());
    let f = Value::Frac(BigRational::from_integer(i.clone()));
    let s = Value::Str(i.to_string());
    let a = Value::from(guard(|| arr![i.clone()])?);
    macro_rules! side {
        ($t:ty, $to:ident) => {{
            // Candidates: the value itself if it fits, its low bits, neighbours, limits.
            let low = (&i & &BigInt::from(u64::max_value())).to_u64().unwrap_or(0) as $t;
            let mut c: Vec<$t> = vec![low, low.wrapping_add(1), 0, 1, <$t>::max_value(), <$t>::min_value(), <$t>::max_value() - 1];
            if let Some(x) = i.$to() {
                c.push(x);
                ctx.count("native_hits", 1);
            }
            for n in c {
                let want = BigInt::from(n) == i;
                let (l, r, nl, nr) = ctx.over(|| (v == n, n == v, v != n, n != v))?;
                if l != want || r != want || nl == want || nr == want {
                    return Err(format!("integer {} compared with {} as {}: {} {}, {} {}", i, n, stringify!($t), l, r, nl, nr));
                }
                for o in [&f, &s, &a, &Value::Null] {
                    let (l, r) = ctx.over(|| (*o == n, n == *o))?;
                    if l || r {
                        return Err(format!("{} of type {} equals the {} {}", bridge::show_over(o), mty(&o.get_type()).show(), stringify!($t), n));
                    }
                }
                // The other way: a value made from the native one.
                let w = Value::from(n);
                if ctx.over(|| w == v)? != want || ctx.over(|| w == n)? != true {
                    return Err(format!("Value::from({} as {}) compares wrongly", n, stringify!($t)));
                }
                ctx.count("native_int", 1);
            }
        }};
    }
    side!(usize, to_usize);
    side!(u8, to_u8);
    side!(u16, to_u16);
    side!(u32, to_u32);
    side!(u64, to_u64);
    side!(i8, to_i8);
    side!(i16, to_i16);
    side!(i32, to_i32);
    side!(i64, to_i64);
    // Other natives against every kind of value.
    let t = gen::string_content(&mut ctx.rng, 30);
    let q = BigRational::new(i.clone(), BigInt::from(1 + ctx.rng.below(4) as i64));
    let objects = guard(|| {
        let a = Arr::from_values(vec![i.clone().into()]).unwrap();
        let u = Tup::from_values(vec![i.clone().into()]);
        let o = Obj::from_pairs(vec![Pair("a".into(), i.clone().into())], None).unwrap();
        (a, u, o)
    })?;
    let (a1, t1, o1) = objects.clone();
    let vals: Vec<(&str, Value)> = vec![
        ("null", Value::Null),
        ("true", true.into()),
        ("false", false.into()),
        ("int", i.clone().into()),
        ("frac", q.clone().into()),
        ("str", t.as_str().into()),
        ("arr", a1.into()),
        ("tup", t1.into()),
        ("obj", o1.into()),
    ];
    let is_int_q = q.is_integer();
    for (k, v) in &vals {
        macro_rules! other {
            ($n:expr, $name:expr, $want:expr) => {{
                let n = $n;
                let (l, r, nl, nr) = ctx.over(|| (*v == n, n == *v, *v != n, n != *v))?;
                let want: bool = $want;
                if l != want || r != want || nl == want || nr == want {
                    return Err(format!("{} value compared with native {}: {} {} instead of {}", k, $name, l, r, want));
                }
                ctx.count("native_other", 1);
            }};
        }
        other!(true, "true", *k == "true");
        other!(false, "false", *k == "false");
        other!(i.clone(), "BigInt", *k == "int");
        other!(&i + BigInt::from(1), "BigInt + 1", false);
        other!(q.clone(), "BigRational", *k == "frac");
        other!(-q.clone() - BigRational::from_integer(1.into()), "another BigRational", *k == "frac" && {
            let z = -q.clone() - BigRational::from_integer(1.into());
            z == q
        });
        other!(t.clone(), "String", *k == "str");
        other!(t.as_str(), "&str", *k == "str");
        other!(format!("{}x", t), "another String", false);
        other!(objects.0.clone(), "Arr", *k == "arr");
        other!(objects.1.clone(), "Tup", *k == "tup");
        other!(objects.2.clone(), "Obj", *k == "obj");
        let _ = is_int_q;
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

pub static C18: PropDef = PropDef {
    id: "C18",
    run: c18,
    quick: 2_160_000,
    thorough: 14_400_000,
    level: "exploration",
    rule: "every getter on every field (own, inherited, absent) of objects built through the API and loaded from text, \
           on every value inside them, at every index and beyond; all views of every container compared with each \
           other and with the model; every native conversion and macro with values at the limits; some of large sizes; non-trivial: \
           distinct objects with at least four fields or natives",
    must: &[
        "large_cases",
        "getter_ok", "getter_mismatch", "getter_missing", "frac_from_int", "index_ok", "index_out", "views", "inherited", "natives", "macros",
        "built", "loaded",
    ],
    assumptions: &[MODEL],
};

const GETTERS: [&str; 7] = ["get_bool", "get_int", "get_frac", "get_str", "get_arr", "get_tup", "get_obj"];

fn expected(k: usize) -> MTy {
    match k {
        0 => MTy::Bool,
        1 => MTy::Int,
        2 => MTy::Frac,
        3 => MTy::Str,
        4 => MTy::arr(MTy::Any),
        5 => MTy::Tup(vec![]),
        _ => MTy::Obj,
    }
}

/// Calls getter number `k` on the value, or on the field of the object.
fn getter(k: usize, on: Result<&Value, (&Obj, &str)>) -> Result<Value, OverError> {
    macro_rules! g {
        ($name:ident) => {
            match on {
                Ok(v) => v.$name().map(Value::from),
                Err((o, f)) => o.$name(f).map(Value::from),
            }
        };
    }
    match k {
        0 => g!(get_bool),
        1 => g!(get_int),
        2 => g!(get_frac),
        3 => g!(get_str),
        4 => g!(get_arr),
        5 => g!(get_tup),
        _ => g!(get_obj),
    }
}

/// What getter number `k` must give for this value.
fn wanted(k: usize, m: &MV) -> Option<MV> {
    match (k, m) {
        (0, MV::Bool(_)) | (1, MV::Int(_)) | (2, MV::Frac(_)) | (3, MV::Str(_)) | (4, MV::Arr(_)) | (5, MV::Tup(_)) | (6, MV::Obj(_)) => {
            Some(m.clone())
        }
        (2, MV::Int(i)) => Some(MV::Frac(BigRational::from_integer(i.clone()))),
        _ => None,
    }
}

fn same_instance(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Arr(a), Value::Arr(b)) => a.ptr_eq(b) && a.id() == b.id(),
        (Value::Tup(a), Value::Tup(b)) => a.ptr_eq(b) && a.id() == b.id(),
        (Value::Obj(a), Value::Obj(b)) => a.ptr_eq(b) && a.id() == b.id(),
        (Value::Arr(_), _) | (Value::Tup(_), _) | (Value::Obj(_), _) => false,
        _ => true,
    }
}

fn check_getters(ctx: &mut Ctx, on: Result<&Value, (&Obj, &str)>, stored: &Value, m: &MV, at: &str) -> Result<(), String> {
    for (k, name) in GETTERS.iter().enumerate() {
        let got = ctx.over(|| getter(k, on))?;
        match (got, wanted(k, m)) {
            (Ok(v), Some(w)) => {
                guard(|| bridge::same_val(&v, &w))?.map_err(|e| format!("{} of {}: {}", name, at, e))?;
                if k > 3 && !same_instance(&v, stored) {
                    return Err(format!("{} of {} gives another instance than the stored one", name, at));
                }
                ctx.count(if k == 2 && matches!(m, MV::Int(_)) { "frac_from_int" } else { "getter_ok" }, 1);
            }
            (Err(OverError::TypeMismatch(e, f)), None) => {
                if mty(&e) != expected(k) || mty(&f) != m.ty() {
                    return Err(format!(
                        "{} of {} ({}): mismatch reported as expected {}, found {}",
                        name,
                        at,
                        m.ty().show(),
                        mty(&e).show(),
                        mty(&f).show()
                    ));
                }
                says(&OverError::TypeMismatch(e, f), &[&expected(k).show(), &m.ty().show()])?;
                ctx.count("getter_mismatch", 1);
            }
            (Ok(v), None) => return Err(format!("{} of {} ({}) gives {}", name, at, m.ty().show(), bridge::show_over(&v))),
            (Err(e), w) => {
                return Err(format!("{} of {} ({}): {:?}, {}", name, at, m.ty().show(), e, if w.is_some() { "has that type" } else { "no mismatch" }))
            }
        }
    }
    let null = ctx.over(|| stored.is_null())?;
    if null != matches!(m, MV::Null) {
        return Err(format!("is_null of {} is {}", at, null));
    }
    Ok(())
}

fn check_list(
    ctx: &mut Ctx,
    vals: &[MV],
    at: &str,
    is_arr: bool,
    len: usize,
    empty: bool,
    by_ref: &[Value],
    by_iter: Vec<Value>,
    by_each: Vec<Value>,
    get: &dyn Fn(usize) -> Result<Value, OverError>,
) -> Result<(), String> {
    let n = vals.len();
    if len != n || empty != (n == 0) || by_ref.len() != n || by_iter.len() != n || by_each.len() != n {
        return Err(format!(
            "{} has {} elements: len {}, is_empty {}, values_ref {}, iter {}, with_each {}",
            at,
            n,
            len,
            empty,
            by_ref.len(),
            by_iter.len(),
            by_each.len()
        ));
    }
    for (i, m) in vals.iter().enumerate() {
        let g = ctx.over(|| get(i))?.map_err(|e| format!("{}.get({}) of {}: {:?}", at, i, n, e))?;
        for (v, how) in [(&g, "get"), (&by_ref[i], "values_ref"), (&by_iter[i], "iter"), (&by_each[i], "with_each")] {
            guard(|| bridge::same_val(v, m))?.map_err(|e| format!("{} by {}({}): {}", at, how, i, e))?;
            if !same_instance(v, &by_ref[i]) {
                return Err(format!("{} by {}({}): another instance", at, how, i));
            }
        }
        ctx.count("index_ok", 1);
    }
    for i in [n, n + 1, n + ctx.rng.below(1000), usize::max_value(), usize::max_value() / 2 + 1, 1 << 32, (1 << 32) + n.saturating_sub(1)] {
        let g = ctx.over(|| get(i))?;
        let ok = match &g {
            Err(OverError::ArrOutOfBounds(k)) => is_arr && *k == i,
            Err(OverError::TupOutOfBounds(k)) => !is_arr && *k == i,
            _ => false,
        };
        if !ok {
            return Err(format!("{}.get({}) of {} elements: {:?}", at, i, n, g.map(|v| bridge::show_over(&v))));
        }
        if let Err(e) = &g {
            says(e, &[&i.to_string()])?;
        }
        ctx.count("index_out", 1);
    }
    ctx.count("views", 1);
    Ok(())
}

struct Walk {
    seen: HashSet<usize>,
    left: usize,
}

fn walk_val(ctx: &mut Ctx, w: &mut Walk, v: &Value, m: &MV, at: &str) -> Result<(), String> {
    if w.left == 0 {
        return Ok(());
    }
    w.left -= 1;
    check_getters(ctx, Ok(v), v, m, at)?;
    match (v, m) {
        (Value::Arr(a), MV::Arr(b)) if w.seen.insert(a.values_ref() as *const _ as usize) => {
            let each = RefCell::new(vec![]);
            ctx.over(|| a.with_each(|v| each.borrow_mut().push(v.clone())))?;
            let it = ctx.over(|| a.iter().cloned().collect::<Vec<_>>())?;
            let (len, empty) = ctx.over(|| (a.len(), a.is_empty()))?;
            check_list(ctx, &b.vals, at, true, len, empty, a.values_ref(), it, each.into_inner(), &|i| a.get(i))?;
            for (i, (x, y)) in a.values_ref().iter().zip(&b.vals).enumerate() {
                walk_val(ctx, w, x, y, &format!("{}.{}", at, i))?;
            }
        }
        (Value::Tup(a), MV::Tup(b)) if w.seen.insert(a.values_ref() as *const _ as usize) => {
            let each = RefCell::new(vec![]);
            ctx.over(|| a.with_each(|v| each.borrow_mut().push(v.clone())))?;
            let it = ctx.over(|| a.iter().cloned().collect::<Vec<_>>())?;
            let (len, empty) = ctx.over(|| (a.len(), a.is_empty()))?;
            check_list(ctx, &b.vals, at, false, len, empty, a.values_ref(), it, each.into_inner(), &|i| a.get(i))?;
            for (i, (x, y)) in a.values_ref().iter().zip(&b.vals).enumerate() {
                walk_val(ctx, w, x, y, &format!("{}.{}", at, i))?;
            }
        }
        (Value::Obj(a), MV::Obj(b)) => walk_obj(ctx, w, a, b, at)?,
        _ => (),
    }
    Ok(())
}

fn walk_obj(ctx: &mut Ctx, w: &mut Walk, o: &Obj, m: &Rc<MObj>, at: &str) -> Result<(), String> {
    if !w.seen.insert(o.pairs_ref() as *const _ as usize) {
        return Ok(());
    }
    let n = m.fields.len();
    let each = RefCell::new(vec![]);
    ctx.over(|| o.with_each(|f, v| each.borrow_mut().push(Pair(f.clone(), v.clone()))))?;
    let each = each.into_inner();
    let it: Vec<Pair> = ctx.over(|| o.iter().cloned().collect())?;
    let refs = o.pairs_ref();
    let (len, empty, has, par) = ctx.over(|| (o.len(), o.is_empty(), o.has_parent(), o.get_parent()))?;
    if len != n || empty != (n == 0) || refs.len() != n || it.len() != n || each.len() != n {
        return Err(format!(
            "{} has {} fields: len {}, is_empty {}, pairs_ref {}, iter {}, with_each {}",
            at,
            n,
            len,
            empty,
            refs.len(),
            it.len(),
            each.len()
        ));
    }
    if has != m.parent.is_some() || par.is_some() != has {
        return Err(format!("{}: has_parent is {}, get_parent gives {}", at, has, if par.is_some() { "one" } else { "none" }));
    }
    for (i, (f, mv)) in m.fields.iter().enumerate() {
        for (p, how) in [(&refs[i], "pairs_ref"), (&it[i], "iter"), (&each[i], "with_each")] {
            if p.0 != **f {
                return Err(format!("{} by {}: field {} is {:?} instead of {:?}", at, how, i, p.0, f));
            }
            guard(|| bridge::same_val(&p.1, mv))?.map_err(|e| format!("{}.{} by {}: {}", at, f, how, e))?;
            if !same_instance(&p.1, &refs[i].1) {
                return Err(format!("{}.{} by {}: another instance", at, f, how));
            }
        }
    }
    ctx.count("views", 1);
    // Every name of the chain, and some that are not there.
    let mut names: Vec<(Rc<str>, bool)> = m.fields.iter().map(|f| (f.0.clone(), true)).collect();
    let mut p = m.parent.clone();
    let mut hops = 0;
    while let Some(q) = p {
        for f in &q.fields {
            if !names.iter().any(|x| x.0 == f.0) {
                names.push((f.0.clone(), false));
            }
        }
        hops += 1;
        p = if hops < 6 { q.parent.clone() } else { None };
    }
    let mut absent: Vec<String> = vec!["".into(), "^".into(), "nothere".into(), "@a".into(), " a".into(), "0".into()];
    if let Some(f) = m.fields.first() {
        absent.push(format!("{}x", f.0));
        absent.push(f.0.to_uppercase());
        absent.push(f.0.chars().skip(1).collect());
        absent.push(format!("{} ", f.0));
    }
    for (f, own) in &names {
        let mv = m.lookup(f).unwrap();
        let (c, g, s) = ctx.over(|| (o.contains(f), o.get(f), o.get_with_source(f)))?;
        if c != *own {
            return Err(format!("{}: contains({:?}) is {}", at, f, c));
        }
        let g = g.ok_or_else(|| format!("{}: get({:?}) finds nothing", at, f))?;
        guard(|| bridge::same_val(&g, mv))?.map_err(|e| format!("{}.get({:?}): {}", at, f, e))?;
        let (v, src) = s.ok_or_else(|| format!("{}: get_with_source({:?}) finds nothing", at, f))?;
        if !same_instance(&v, &g) || !src.contains(f) || *own != src.ptr_eq(o) {
            return Err(format!("{}: get_with_source({:?}) names the wrong object or value", at, f));
        }
        if !own {
            ctx.count("inherited", 1);
        }
        if w.left > 0 {
            check_getters(ctx, Err((o, f)), &g, mv, &format!("{}[{:?}]", at, f))?;
        }
    }
    for f in &absent {
        if m.lookup(f).is_some() {
            continue;
        }
        let (c, g, s) = ctx.over(|| (o.contains(f), o.get(f).is_some(), o.get_with_source(f).is_some()))?;
        if c || g || s {
            return Err(format!("{}: absent field {:?}: contains {}, get {}, get_with_source {}", at, f, c, g, s));
        }
        for (k, name) in GETTERS.iter().enumerate() {
            match ctx.over(|| getter(k, Err((o, f))))? {
                Err(OverError::FieldNotFound(n)) if n == *f => says(&OverError::FieldNotFound(n), &[f])?,
                r => return Err(format!("{}: {}({:?}) of an absent field: {:?}", at, name, f, r.map(|v| bridge::show_over(&v)))),
            }
        }
        ctx.count("getter_missing", 1);
    }
    for (f, mv) in &m.fields {
        let v = o.get(f).ok_or("field lost")?;
        walk_val(ctx, w, &v, mv, &format!("{}.{}", at, f))?;
    }
    if let (Some(p), Some(q)) = (par, &m.parent) {
        walk_obj(ctx, w, &p, q, &format!("{}.^", at))?;
    }
    Ok(())
}

fn c18(ctx: &mut Ctx) -> Result<(), String> {
    match ctx.rng.below(10) {
        0 | 1 => return from_natives(ctx),
        2 => return macros(ctx),
        _ => (),
    }
    let size = *ctx.rng.pick(&[5, 20, 60]);
    let odd = *ctx.rng.pick(&[0, 30]);
    let m = if ctx.rng.pct(30) {
        // A chain of parents.
        let mut m: Option<Rc<MObj>> = None;
        for i in 0..ctx.rng.range(1, 6) {
            let mut g = VGen::new(&mut ctx.rng, 12, odd);
            g.depth = 3;
            let mut f: Vec<(Rc<str>, MV)> = vec![];
            for n in ["a", "b", "c", "d"] {
                if g.rng.pct(45) {
                    let v = g.val(&MTy::Any, 1);
                    f.push((Rc::from(n), v));
                }
            }
            f.push((Rc::from(format!("only{}", i)), MV::int(i as i64)));
            g.rng.shuffle(&mut f);
            m = Some(Rc::new(MObj { fields: f, parent: m }));
        }
        m.unwrap()
    } else {
        let mut g = VGen::new(&mut ctx.rng, size, odd);
        g.depth = 4;
        g.obj(1)
    };
    if model::tree_size(&m) > 2_000 {
        return Ok(());
    }
    let mut s = String::new();
    bridge::source_fields(&mut ctx.rng, &m, &mut s);
    ctx.note("object", &s);
    let o = if ctx.rng.bool() && model::written_depth(&m) <= model::LIMIT {
        ctx.count("loaded", 1);
        match load_str(ctx, &s)? {
            Ok(o) => o,
            Err(e) => return Err(format!("{:?} does not load: {}", model::short(&s), model::short(&e))),
        }
    } else {
        ctx.count("built", 1);
        guard(|| Build::default().obj(&m))??
    };
    if m.fields.len() >= 4 {
        ctx.nontrivial(&s);
    }
    walk_obj(ctx, &mut Walk { seen: HashSet::new(), left: 60 }, &o, &m, "$")
}

fn from_natives(ctx: &mut Ctx) -> Result<(), String> {
    macro_rules! one {
        ($t:ty) => {{
            let mut all = vec![<$t>::min_value(), <$t>::max_value(), 0, 1, ctx.rng.next() as $t, (ctx.rng.next() >> ctx.rng.below(64)) as $t];
            all.push(<$t>::max_value() / 2 + 1);
            for x in all {
                let v = ctx.over(|| Value::from(x))?;
                guard(|| bridge::same_val(&v, &MV::Int(BigInt::from(x))))?.map_err(|e| format!("Value::from({} as {}): {}", x, stringify!($t), e))?;
                let i = ctx.over(|| int!(x))?;
                if i != BigInt::from(x) {
                    return Err(format!("int!({} as {}) is {}", x, stringify!($t), i));
                }
                let a = ctx.over(|| arr![x, x])?;
                let m = MV::arr(vec![MV::Int(BigInt::from(x)), MV::Int(BigInt::from(x))]).unwrap();
                guard(|| bridge::same_val(&a.into(), &m))?.map_err(|e| format!("arr![{0} as {1}, {0}]: {2}", x, stringify!($t), e))?;
                ctx.count("natives", 1);
            }
        }};
    }
    one!(usize);
    one!(u8);
    one!(u16);
    one!(u32);
    one!(u64);
    one!(i8);
    one!(i16);
    one!(i32);
    one!(i64);
    let mut g = VGen::new(&mut ctx.rng, 1, 60);
    let (n, d) = (g.num(), g.num());
    let d = if d == BigInt::from(0) { BigInt::from(-7) } else { d };
    let text = gen::string_content(&mut ctx.rng, 60);
    ctx.note("natives", &format!("{} / {}, {:?}", n, d, text));
    ctx.nontrivial(&format!("{} {} {}", n, d, text));
    let f = ctx.over(|| frac!(n.clone(), d.clone()))?;
    let q = BigRational::new(n.clone(), d.clone());
    let cases: Vec<(&str, Value, MV)> = vec![
        ("frac!", f.into(), MV::Frac(q.clone())),
        ("BigRational", q.clone().into(), MV::Frac(q.clone())),
        ("BigInt", n.clone().into(), MV::Int(n.clone())),
        ("int!", Value::from(int!(n.clone())), MV::Int(n.clone())),
        ("String", text.clone().into(), MV::str(&text)),
        ("&str", text.as_str().into(), MV::str(&text)),
        ("true", true.into(), MV::Bool(true)),
        ("false", false.into(), MV::Bool(false)),
        ("frac! of small", frac!(-6, 4).into(), MV::Frac(BigRational::new((-3).into(), 2.into()))),
        ("int! of small", int!(-5i8).into(), MV::int(-5)),
    ];
    for (how, v, m) in &cases {
        guard(|| bridge::same_val(v, m))?.map_err(|e| format!("{}: {}", how, e))?;
        check_getters(ctx, Ok(v), v, m, how)?;
        ctx.count("natives", 1);
    }
    Ok(())
}

fn macros(ctx: &mut Ctx) -> Result<(), String> {
    let mut g = VGen::new(&mut ctx.rng, 10, 20);
    g.depth = 3;
    let m: Vec<MV> = (0..4).map(|_| g.val(&MTy::Any, 1)).collect();
    let v: Vec<Value> = guard(|| {
        let mut b = Build::default();
        m.iter().map(|m| b.val(m)).collect::<Result<Vec<_>, _>>()
    })??;
    ctx.note("values", &m.iter().map(model::show).collect::<Vec<_>>().join(" "));
    ctx.nontrivial(&m.iter().map(model::show).collect::<Vec<_>>().join(" "));
    let val = |i: usize| v[i].clone();
    // Tuples.
    let t = ctx.over(|| {
        (Tup::from(vec![]), tup!(val(0)), tup!(val(0), val(1)), tup!(val(0), val(1), val(2), val(3),))
    })?;
    for (t, n) in [(t.0, 0), (t.1, 1), (t.2, 2), (t.3, 4)] {
        let want = MV::tup(m[..n].to_vec());
        guard(|| bridge::same_val(&t.clone().into(), &want))?.map_err(|e| format!("tup! of {}: {}", n, e))?;
        ctx.count("macros", 1);
    }
    // Tuples and arrays from vectors.
    let t2 = ctx.over(|| Tup::from(v.clone()))?;
    guard(|| bridge::same_val(&t2.into(), &MV::tup(m.clone())))?.map_err(|e| format!("Tup::from: {}", e))?;
    // Arrays.
    let want = MV::arr(m[..2].to_vec());
    let a = ctx.over(|| try_arr![val(0), val(1)])?;
    match (&a, &want) {
        (Ok(a), Some(w)) => {
            guard(|| bridge::same_val(&a.clone().into(), w))?.map_err(|e| format!("try_arr!: {}", e))?;
            let b = ctx.over(|| arr![val(0), val(1),])?;
            guard(|| bridge::same_val(&b.into(), w))?.map_err(|e| format!("arr!: {}", e))?;
        }
        (Err(e @ OverError::ArrTypeMismatch(..)), None) => says(e, &[&m[0].ty().show(), &m[1].ty().show()])?,
        (r, _) => return Err(format!("try_arr!: {:?}", r.as_ref().map(|_| "accepted"))),
    }
    let e = ctx.over(|| (arr![], Arr::default(), Arr::empty(), Tup::default(), Tup::empty(), Obj::default(), obj! {}))?;
    for x in [&e.0, &e.1, &e.2] {
        guard(|| bridge::same_val(&x.clone().into(), &MV::arr(vec![]).unwrap()))?.map_err(|e| format!("empty array: {}", e))?;
    }
    for x in [&e.3, &e.4] {
        guard(|| bridge::same_val(&x.clone().into(), &MV::tup(vec![])))?.map_err(|e| format!("empty tuple: {}", e))?;
    }
    for x in [&e.5, &e.6] {
        guard(|| bridge::same_val(&x.clone().into(), &MV::obj(vec![], None)))?.map_err(|e| format!("empty object: {}", e))?;
    }
    ctx.count("macros", 2);
    // Objects, with the parent at any place.
    let fields = |n: &[(&str, usize)]| -> Vec<(Rc<str>, MV)> { n.iter().map(|(f, i)| (Rc::from(*f), m[*i].clone())).collect() };
    let o = ctx.over(|| {
        try_obj! { "b" => val(0), "a" => val(1), "é_1" => "text" }
    })?;
    let o = o.map_err(|e| format!("try_obj!: {}", e))?;
    let mut f = fields(&[("b", 0), ("a", 1)]);
    f.push((Rc::from("é_1"), MV::str("text")));
    let want = Rc::new(MObj { fields: f, parent: None });
    guard(|| bridge::same_obj(&o, &want))?.map_err(|e| format!("try_obj!: {}", e))?;
    let parent = ctx.over(|| obj! { "p" => val(2) })?;
    let mp = Rc::new(MObj { fields: fields(&[("p", 2)]), parent: None });
    let k = ctx.rng.below(3);
    let c = ctx.over(|| match k {
        0 => obj! { "^" => parent.clone(), "x" => val(3), "y" => 5u8 },
        1 => obj! { "x" => val(3), "^" => parent.clone(), "y" => 5i64, },
        _ => obj! { "x" => val(3), "y" => int!(5), "^" => parent.clone() },
    })?;
    let mut f = fields(&[("x", 3)]);
    f.push((Rc::from("y"), MV::int(5)));
    let want = Rc::new(MObj { fields: f, parent: Some(mp) });
    guard(|| bridge::same_obj(&c, &want))?.map_err(|e| format!("obj! with a parent: {}", e))?;
    match c.get_parent() {
        Some(p) if p.ptr_eq(&parent) => (),
        _ => return Err("obj! with a parent: the parent is another instance".into()),
    }
    // A parent that is not an object.
    let r = ctx.over(|| {
        try_obj! { "x" => 1, "^" => val(0) }
    })?;
    match (&r, &m[0]) {
        (Ok(_), MV::Obj(_)) => (),
        (Err(OverError::TypeMismatch(e, f)), x) if mty(e) == MTy::Obj && mty(f) == x.ty() => (),
        (r, x) => return Err(format!("try_obj! with a parent of type {}: {:?}", x.ty().show(), r.as_ref().map(|_| "accepted"))),
    }
    match ctx.over(|| {
        try_obj! { "x" => 1, "9y" => val(0) }
    })? {
        Err(OverError::InvalidFieldName(n)) if n == "9y" => says(&OverError::InvalidFieldName(n), &["9y"])?,
        r => return Err(format!("try_obj! with a bad name: {:?}", r.map(|_| "accepted"))),
    }
    ctx.count("macros", 4);
    Ok(())
}

/// The text of an error names what it is about.
fn says(e: &OverError, what: &[&str]) -> Result<(), String> {
    let text = guard(|| e.to_string())?;
    match what.iter().find(|w| !text.contains(**w)) {
        Some(w) => Err(format!("the text of an error does not mention {:?}: {:?}", w, text)),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- C19

pub static C19: PropDef = PropDef {
    id: "C19",
    run: c19,
    quick: 360_000,
    thorough: 7_200_000,
    level: "exploration",
    rule: "histories of up to 60 operations (build, load, clone, look up, index, nest, inherit, compare, print, write, \
           drop) on a set of handles; after every operation a walk over everything alive counts handles per instance \
           and compares with num_references, looks every identifier up in the register of all identifiers ever seen \
           in the process, and compares identity with addresses; loaded documents are compared with the model's \
           sharing; every handle's content is compared with its snapshot at the end; two cases make over a million \
           containers each; some of large sizes; non-trivial: distinct histories of at least 10 operations",
    must: &[
        "large_cases",
        "operations", "instances_walked", "ids_registered", "counts_checked", "documents", "shared_mentions", "snapshots", "op_build", "op_load", "burst",
        "op_clone", "op_lookup", "op_nest", "op_inherit", "op_drop", "op_print", "op_compare", "op_include",
        "same_instance", "other_instance",
    ],
    assumptions: &[
        MODEL,
        "identifiers are observed for the life of a shard process (thousands of cases, millions of identifiers)",
    ],
};

thread_local! {
    /// Every identifier ever seen in this process.
    static IDS: RefCell<HashSet<usize>> = RefCell::new(HashSet::new());
}

#[derive(Default)]
pub struct Graph {
    /// address -> (identifier, number of handles, reported count)
    pub nodes: HashMap<usize, (usize, usize, usize)>,
}

impl Graph {
    pub fn val(&mut self, v: &Value) {
        let (addr, id, count) = match v {
            Value::Arr(a) => (a.values_ref() as *const Vec<Value> as usize, a.id(), a.num_references()),
            Value::Tup(a) => (a.values_ref() as *const Vec<Value> as usize, a.id(), a.num_references()),
            Value::Obj(o) => {
                self.obj(o);
                return;
            }
            _ => return,
        };
        let first = !self.nodes.contains_key(&addr);
        self.nodes.entry(addr).or_insert((id, 0, count)).1 += 1;
        if first {
            match v {
                Value::Arr(a) => a.values_ref().iter().for_each(|v| self.val(v)),
                Value::Tup(a) => a.values_ref().iter().for_each(|v| self.val(v)),
                _ => (),
            }
        }
    }

    pub fn obj(&mut self, o: &Obj) {
        let addr = o.pairs_ref() as *const Vec<Pair> as usize;
        let first = !self.nodes.contains_key(&addr);
        self.nodes.entry(addr).or_insert((o.id(), 0, o.num_references())).1 += 1;
        if first {
            o.pairs_ref().iter().for_each(|p| self.val(&p.1));
            if let Some(p) = o.get_parent() {
                // The temporary handle is one more than the stored one.
                let paddr = p.pairs_ref() as *const Vec<Pair> as usize;
                let fresh = !self.nodes.contains_key(&paddr);
                self.obj(&p);
                if fresh {
                    self.nodes.get_mut(&paddr).unwrap().2 -= 1;
                }
            }
        }
    }
}

struct Handle {
    v: Value,
    snap: MV,
    ids: BTreeMap<usize, usize>,
}

pub fn ids_of(v: &Value) -> BTreeMap<usize, usize> {
    let mut g = Graph::default();
    g.val(v);
    g.nodes.iter().map(|(a, n)| (*a, n.0)).collect()
}

/// Looks at everything alive: reference counts, identifiers.
fn survey(ctx: &mut Ctx, hs: &[Handle], before: &mut HashMap<usize, usize>, growing: bool, what: &str) -> Result<(), String> {
    let g = guard(|| {
        let mut g = Graph::default();
        for h in hs {
            g.val(&h.v);
        }
        g
    })?;
    let mut now = HashMap::new();
    let mut ids: HashMap<usize, usize> = HashMap::new();
    for (addr, (id, handles, count)) in &g.nodes {
        if handles != count {
            return Err(format!("after {}: container {} has {} live handles but reports {}", what, id, handles, count));
        }
        if let Some(other) = ids.insert(*id, *addr) {
            return Err(format!("after {}: two containers at {:x} and {:x} have identifier {}", what, other, addr, id));
        }
        match before.get(addr) {
            Some(old) if old == id => (),
            Some(old) if growing => {
                return Err(format!("after {}: the identifier of a live container changed from {} to {}", what, old, id));
            }
            _ => {
                if !IDS.with(|s| s.borrow_mut().insert(*id)) {
                    return Err(format!("after {}: a new container has the identifier {} of an earlier one", what, id));
                }
                ctx.count("ids_registered", 1);
            }
        }
        now.insert(*addr, *id);
        ctx.count("counts_checked", 1);
    }
    ctx.count("instances_walked", g.nodes.len() as u64);
    *before = now;
    // One handle against all others.
    if !hs.is_empty() {
        let v = &hs[ctx.rng.below(hs.len())].v;
        for h in hs {
            for (a, b) in [(v, &h.v), (&h.v, v)] {
                if let (Some(said), Some(is)) = guard(|| (ptr_eq(a, b), address(a).zip(address(b)).map(|(a, b)| a == b)))? {
                    ctx.count(if is { "same_instance" } else { "other_instance" }, 1);
                    if said != is {
                        return Err(format!("after {}: ptr_eq says {} of containers {} and {}", what, said, show_id(a), show_id(b)));
                    }
                }
            }
        }
    }
    Ok(())
}

/// What `ptr_eq` says of two containers of the same kind.
fn ptr_eq(a: &Value, b: &Value) -> Option<bool> {
    match (a, b) {
        (Value::Arr(a), Value::Arr(b)) => Some(a.ptr_eq(b)),
        (Value::Tup(a), Value::Tup(b)) => Some(a.ptr_eq(b)),
        (Value::Obj(a), Value::Obj(b)) => Some(a.ptr_eq(b)),
        _ => None,
    }
}

fn address(v: &Value) -> Option<usize> {
    match v {
        Value::Arr(a) => Some(a.values_ref() as *const Vec<Value> as usize),
        Value::Tup(a) => Some(a.values_ref() as *const Vec<Value> as usize),
        Value::Obj(o) => Some(o.pairs_ref() as *const Vec<Pair> as usize),
        _ => None,
    }
}

fn show_id(v: &Value) -> String {
    match v {
        Value::Arr(a) => a.id().to_string(),
        Value::Tup(a) => a.id().to_string(),
        Value::Obj(o) => o.id().to_string(),
        _ => String::new(),
    }
}

fn pick_kind<'a>(rng: &mut Rng, hs: &'a [Handle], f: impl Fn(&Value) -> bool) -> Option<&'a Handle> {
    let c: Vec<&Handle> = hs.iter().filter(|h| f(&h.v)).collect();
    if c.is_empty() {
        None
    } else {
        Some(c[rng.below(c.len())])
    }
}

/// More than a million containers in one process, none with an identifier seen before.
fn c19_burst(ctx: &mut Ctx) -> Result<(), String> {
    let n = if ctx.thorough { 6_000_000 } else { 1_150_000 };
    let mut kept: Vec<(Value, usize)> = vec![];
    let texts = ["a: [] b: {c: ()} d: [[1] []]", "a: {} b: ({} [2])", "a: [()] b: ({x: {}})"];
    let mut made = 0;
    while made < n {
        let k = ctx.rng.below(40);
        let v: Value = ctx.over(|| -> Result<Value, OverError> {
            Ok(match k {
                0 => texts[made % texts.len()].parse::<Obj>()?.into(),
                1..=9 => Obj::from_pairs(vec![], None)?.into(),
                10..=19 => Tup::from_values(vec![]).into(),
                20..=24 => Arr::empty().into(),
                25..=29 => Tup::from_values(vec![1.into()]).into(),
                30..=34 => Obj::from_pairs(vec![Pair("x".into(), 1.into())], None)?.into(),
                _ => Arr::from_values(vec![1.into(), 2.into()])?.into(),
            })
        })?
        .map_err(|e| format!("building a small container: {}", e))?;
        let mut g = Graph::default();
        g.val(&v);
        made += g.nodes.len();
        for (id, _, _) in g.nodes.values() {
            if !IDS.with(|s| s.borrow_mut().insert(*id)) {
                return Err(format!("after {} containers, identifier {} is given out again", made, id));
            }
        }
        if ctx.rng.below(1000) == 0 {
            let id = ids_of(&v).len();
            kept.push((v, id));
        }
    }
    let mut g = Graph::default();
    for (v, _) in &kept {
        g.val(v);
    }
    let ids: HashSet<usize> = g.nodes.values().map(|n| n.0).collect();
    if ids.len() != g.nodes.len() {
        return Err("two containers that are alive have the same identifier".into());
    }
    ctx.count("burst", made as u64);
    ctx.nontrivial(&format!("burst {}", ctx.idx));
    Ok(())
}

fn c19(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.idx < 2 {
        return c19_burst(ctx);
    }
    if ctx.rng.pct(30) {
        return c19_document(ctx);
    }
    let mut hs: Vec<Handle> = vec![];
    let mut live: HashMap<usize, usize> = HashMap::new();
    let steps = ctx.rng.range(5, 40);
    let mut log = String::new();
    for _ in 0..steps {
        let op = ctx.rng.below(14);
        let mut add: Option<Value> = None;
        let mut growing = true;
        let what = match op {
            0 | 1 => {
                let mut g = VGen::new(&mut ctx.rng, 8, 0);
                g.depth = 3;
                g.p_share = 35;
                let m = if g.rng.bool() { MV::Obj(g.obj(1)) } else { g.val(&MTy::Any, 1) };
                add = Some(guard(|| Build::default().val(&m))??);
                "op_build"
            }
            2 => {
                let t = *ctx.rng.pick(&[
                    "a: [] b: [] c: a d: (a b a) e: {x: 1}",
                    "@g: {x: 1} a: @g b: @g c: {^: @g} d: [@g @g]",
                    "a: {b: {c: [1]}} d: a.b.c e: d+[2] f: d",
                    "a: () b: () c: (a b) d: c.0",
                    "a: {} b: {} c: [a b a] d: c+[]",
                    "a: [[] [1]] b: a.0 c: a.1 d: b+c",
                ]);
                let o = load_str(ctx, t)?.map_err(|e| format!("{:?} does not load: {}", t, e))?;
                add = Some(o.into());
                "op_load"
            }
            3 | 4 if !hs.is_empty() => {
                let i = ctx.rng.below(hs.len());
                let c = ctx.over(|| hs[i].v.clone())?;
                if !same_instance(&c, &hs[i].v) {
                    return Err("a clone is another instance".into());
                }
                add = Some(c);
                "op_clone"
            }
            5 | 6 => {
                // Look something up.
                let Some(h) = pick_kind(&mut ctx.rng, &hs, |v| match v {
                    Value::Obj(o) => !o.is_empty(),
                    Value::Arr(a) => !a.is_empty(),
                    Value::Tup(a) => !a.is_empty(),
                    _ => false,
                }) else {
                    continue;
                };
                let k = ctx.rng.next() as usize;
                let x = ctx.over(|| match &h.v {
                    Value::Obj(o) => {
                        let n = &o.pairs_ref()[k % o.len()].0;
                        let (a, (b, s)) = (o.get(n).unwrap(), o.get_with_source(n).unwrap());
                        (a, b, s.ptr_eq(o) && s.id() == o.id(), o.iter().nth(k % o.len()).unwrap().1.clone())
                    }
                    Value::Arr(a) => {
                        let i = k % a.len();
                        (a.get(i).unwrap(), a.iter().nth(i).unwrap().clone(), true, a.values_ref()[i].clone())
                    }
                    Value::Tup(a) => {
                        let i = k % a.len();
                        (a.get(i).unwrap(), a.iter().nth(i).unwrap().clone(), true, a.values_ref()[i].clone())
                    }
                    _ => unreachable!(),
                })?;
                if !x.2 || !same_instance(&x.0, &x.1) || !same_instance(&x.0, &x.3) {
                    return Err("looking up one element in several ways gives several instances".into());
                }
                add = Some(x.0);
                "op_lookup"
            }
            7 | 8 if !hs.is_empty() => {
                // Nest: the same instance may go in twice.
                let n = ctx.rng.below(4);
                let vs: Vec<Value> = (0..n).map(|_| hs[ctx.rng.below(hs.len())].v.clone()).collect();
                let k = ctx.rng.below(3);
                let x = ctx.over(|| match k {
                    0 => Tup::from_values(vs).into(),
                    1 => match Arr::from_values(vs) {
                        Ok(a) => a.into(),
                        Err(_) => Arr::empty().into(),
                    },
                    _ => {
                        let p = vs.into_iter().enumerate().map(|(i, v)| Pair(format!("f{}", i), v)).collect();
                        Value::from(Obj::from_pairs(p, None).unwrap())
                    }
                })?;
                add = Some(x);
                "op_nest"
            }
            9 => {
                let Some(h) = pick_kind(&mut ctx.rng, &hs, |v| matches!(v, Value::Obj(_))) else { continue };
                let p = h.v.get_obj().unwrap();
                let o = ctx.over(|| Obj::from_pairs(vec![Pair("own".into(), 1.into())], Some(p.clone())).unwrap())?;
                match ctx.over(|| o.get_parent())? {
                    Some(q) if q.ptr_eq(&p) && q.id() == p.id() => (),
                    _ => return Err("the parent of an object is another instance than the one given".into()),
                }
                add = Some(o.into());
                "op_inherit"
            }
            10 if !hs.is_empty() => {
                let i = ctx.rng.below(hs.len());
                let h = &hs[i];
                ctx.over(|| match &h.v {
                    Value::Obj(o) => o.write_to_string().len() + o.to_string().len(),
                    v => v.to_string().len(),
                })?;
                "op_print"
            }
            11 if hs.len() > 1 => {
                let (i, j) = (ctx.rng.below(hs.len()), ctx.rng.below(hs.len()));
                let want = model::eq(&hs[i].snap, &hs[j].snap);
                if ctx.over(|| hs[i].v == hs[j].v)? != want {
                    return Err(format!("comparison gives {}", !want));
                }
                ctx.over(|| (hs[i].v.get_type(), hs[j].v.get_type()))?;
                "op_compare"
            }
            12 | 13 if hs.len() > 1 => {
                let i = ctx.rng.below(hs.len());
                let h = hs.swap_remove(i);
                ctx.over(|| drop(h.v))?;
                growing = false;
                "op_drop"
            }
            _ => continue,
        };
        ctx.count(what, 1);
        ctx.count("operations", 1);
        log.push_str(&what[3..]);
        log.push(' ');
        if let Some(v) = add {
            let snap = guard(|| Lift::default().val(&v))?;
            if size_of(&snap) < 400 && hs.len() < 25 {
                let ids = ids_of(&v);
                hs.push(Handle { v, snap, ids });
            } else {
                // Made and dropped: its identifiers count as used all the same.
                let mut tmp = live.clone();
                hs.push(Handle { v, snap, ids: BTreeMap::new() });
                survey(ctx, &hs, &mut tmp, true, &what[3..])?;
                live = tmp;
                hs.pop();
                growing = false;
            }
        }
        ctx.note("operations", &log);
        survey(ctx, &hs, &mut live, growing, &what[3..])?;
    }
    for h in &hs {
        let now = guard(|| Lift::default().val(&h.v))?;
        if !model::eq(&now, &h.snap) || now.ty() != h.snap.ty() {
            return Err(format!("a container changed from {} to {}", model::show(&h.snap), model::show(&now)));
        }
        guard(|| bridge::same_val(&h.v, &h.snap))?.map_err(|e| format!("a container changed: {}", e))?;
        if !h.ids.is_empty() && ids_of(&h.v) != h.ids {
            return Err("the identifiers inside a container changed".into());
        }
        ctx.count("snapshots", 1);
    }
    if steps >= 10 {
        ctx.nontrivial(&log);
    }
    Ok(())
}

/// Sharing inside loaded documents.
fn c19_document(ctx: &mut Ctx) -> Result<(), String> {
    let text = if ctx.rng.pct(60) {
        let mut prof = vary(ctx, Prof::std());
        prof.p_cont = 60;
        let toks = document(ctx, prof);
        let l = gen::layout(&mut ctx.rng);
        gen::render(&mut ctx.rng, &toks, l).text
    } else {
        aliases(&mut ctx.rng)
    };
    ctx.note("document", &text);
    let inc = ctx.rng.pct(30);
    let seen = if inc {
        // The same content included several times over.
        write(&ctx.dir.join("part.over"), text.as_bytes());
        let k = *ctx.rng.pick(&["Obj", "Obj", "Obj", "Str"]);
        let doc = format!("a: <{0} \"part.over\"> b: <{0} \"part.over\"> c: {{d: <{0} \"./part.over\">}} e: a", k);
        let dir = ctx.dir.clone();
        ctx.count("op_include", 1);
        in_dir(&dir, || agree(ctx, Src::Str(&doc), Dirs { accept: true, reject: false, sharing: true }))?.0
    } else {
        agree(ctx, Src::Str(&text), Dirs { accept: true, reject: false, sharing: true })?.0
    };
    let (o, m) = match seen {
        Seen::Same(o, m) => (o, m),
        _ => return Ok(()),
    };
    ctx.count("documents", 1);
    if model::tree_size(&m) > 5 {
        ctx.nontrivial(&text);
    }
    let snap = MV::Obj(m);
    let v: Value = o.into();
    let hs = vec![Handle { ids: ids_of(&v), v, snap }];
    let mut live = HashMap::new();
    survey(ctx, &hs, &mut live, true, "loading")?;
    let g = {
        let mut g = Graph::default();
        g.val(&hs[0].v);
        g
    };
    let shared = g.nodes.values().filter(|n| n.1 > 1).count();
    ctx.count("shared_mentions", shared as u64);
    // Using it changes nothing.
    ctx.over(|| {
        let t = hs[0].v.to_string();
        let c = hs[0].v.clone();
        let _ = c == hs[0].v;
        if let Value::Obj(o) = &c {
            for p in o.iter() {
                let _ = o.get(&p.0);
                let _ = p.1.get_type();
            }
        }
        t.len()
    })?;
    survey(ctx, &hs, &mut live, true, "using")?;
    guard(|| bridge::same_val(&hs[0].v, &hs[0].snap))??;
    ctx.count("snapshots", 1);
    Ok(())
}

/// A document full of aliases of containers.
fn aliases(rng: &mut Rng) -> String {
    let mut s = String::new();
    let n = rng.range(3, 14);
    let mut names: Vec<(String, u8)> = vec![];
    for i in 0..n {
        let glob = rng.pct(35);
        let name = format!("{}v{}", if glob { "@" } else { "" }, i);
        let old = |rng: &mut Rng, names: &[(String, u8)]| -> String {
            if names.is_empty() || rng.pct(25) {
                rng.pick(&["[]", "()", "{}", "{x: []}", "([] [])"]).to_string()
            } else {
                names[rng.below(names.len())].0.clone()
            }
        };
        // Kind of the new field: 0 array of int, 1 tuple, 2 object.
        let k = rng.below(3) as u8;
        let arrs: Vec<String> = names.iter().filter(|n| n.1 == 0).map(|n| n.0.clone()).collect();
        let objs: Vec<String> = names.iter().filter(|n| n.1 == 2).map(|n| n.0.clone()).collect();
        let e = match k {
            0 => match rng.below(3) {
                0 => "[1]".to_string(),
                1 if !arrs.is_empty() => rng.pick(&arrs).clone(),
                _ if !arrs.is_empty() => format!("{}+{}", rng.pick(&arrs), rng.pick(&arrs)),
                _ => "[2]+[]".to_string(),
            },
            1 => {
                let a = old(rng, &names);
                let b = old(rng, &names);
                format!("({} {} {})", a, b, a)
            }
            _ => {
                // Inner objects see globals only.
                let globs: Vec<(String, u8)> = names.iter().filter(|n| n.0.starts_with('@')).cloned().collect();
                let a = old(rng, &globs);
                if !objs.is_empty() && rng.pct(40) {
                    let o = rng.pick(&objs).clone();
                    if o.starts_with('@') {
                        format!("{{^: {} x: {} y: x}}", o, a)
                    } else {
                        o
                    }
                } else {
                    format!("{{x: {} y: x z: [x y]}}", a)
                }
            }
        };
        s.push_str(&format!("{}: {}\n", name, e));
        names.push((name, k));
    }
    let t: Vec<String> = names.iter().map(|n| n.0.clone()).collect();
    s + &format!("all: ({})\n", t.join(" "))
}

fn size_of(v: &MV) -> u64 {
    super::round::size_of(v)
}

