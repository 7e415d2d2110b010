//! The nesting limit (C24) and the naming rule (C25).

use super::util::*;
use crate::model;
use crate::rng::Rng;
use crate::sup::{self, Ctx, PropDef};
use over::obj::Pair;
use over::{value::Value, Obj, OverError};
use std::path::Path;

/// Runs a load on a thread with the stack a Rust thread gets by default.
pub fn small_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    let t = std::thread::Builder::new().stack_size(if crate::interpose::ACTIVE { 2 << 20 } else { 32 << 20 }).spawn(move || sup::guard(f));
    match sup::must(t, "thread").join() {
        Ok(r) => r,
        Err(_) => Err("a thread panicked".into()),
    }
}

fn load_small(ctx: &mut Ctx, text: &str, file: Option<&Path>) -> Result<Result<Obj, String>, String> {
    ctx.evals += 1;
    match file {
        None => {
            let t = text.to_string();
            small_stack(move || t.parse::<Obj>().map_err(|e| e.to_string()))
        }
        Some(p) => {
            let p = p.to_str().unwrap().to_string();
            small_stack(move || Obj::from_file(&p).map_err(|e| e.to_string()))
        }
    }
}

// ---------------------------------------------------------------- C24

pub static C24: PropDef = PropDef {
    id: "C24",
    run: c24,
    quick: 112_500,
    thorough: 1_500_000,
    level: "exploration",
    rule: "nests of objects, arrays, tuples, parents, globals and files included as object, array, tuple or string in \
           random order, with shallower nests, operators and other content around every level; total depth mostly 62 \
           to 66 and up to 5000, by construction, loaded on threads with 2 MB of stack; chains of up to 300000 signs, \
           dots, indices and includes within the path of an include; some of large sizes; non-trivial: a document of depth 60 or more, counted by distinct order of containers",
    must: &[
        "large_cases",
        "accepted_at_64", "rejected_at_65", "rejected_deep", "sign_chain_rejected", "dot_chain_rejected", "sign_chain_value",
        "nest_mixed_files", "include_chain_63", "include_chain_64", "str_leaf", "siblings", "operators", "dot_chain_value", "index_chain_value", "index_chain_rejected", "path_chain_value", "path_chain_rejected",
    ],
    assumptions: &["a thread's stack of 2 MB suffices for 64 levels in an optimised-for-debugging build"],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Obj,
    Arr,
    Tup,
    IncObj,
    IncArr,
    IncTup,
    IncStr,
}

struct Nest<'a> {
    rng: &'a mut Rng,
    root: String,
    files: usize,
    sib: u64,
    ops: u64,
    budget: usize,
    names: usize,
}

impl<'a> Nest<'a> {
    fn name(&mut self) -> String {
        self.names += 1;
        format!("n{}", self.names)
    }

    fn sp(&mut self) -> &'static str {
        *self.rng.pick(&[" ", " ", "\n", "\t", " # [ ( {\n", "\r\n", "  "])
    }

    fn file(&mut self, text: &str) -> String {
        self.files += 1;
        let n = format!("f{}.over", self.files);
        write(&Path::new(&self.root).join(&n), text.as_bytes());
        n
    }

    /// A value of depth at most `room` (number of further levels), for decoration.
    fn side(&mut self, room: usize) -> String {
        self.sib += 1;
        let max = if self.budget > 0 { room } else { room.min(3) };
        let n = if self.rng.pct(25) { max } else { self.rng.below(max.min(6) + 1) };
        self.budget = self.budget.saturating_sub(n);
        if n == 0 {
            return self.rng.pick(&["1", "-2.5", "\"[[((\"", "\"(\"", "null", "1+2*3", "-4"]).to_string();
        }
        let mut s = String::new();
        let mut close = vec![];
        for i in 0..n {
            match self.rng.below(3) {
                0 => {
                    s.push('[');
                    close.push("]");
                }
                1 => {
                    s.push('(');
                    close.push(")");
                }
                _ if i + 1 < n => {
                    s.push_str("{q: ");
                    close.push("}");
                }
                _ => {
                    s.push('{');
                    close.push("}");
                }
            }
        }
        for c in close.iter().rev() {
            s.push_str(c);
        }
        s
    }

    /// Content of an object that has `v`, which stands one level below it.
    fn body(&mut self, v: &str, kind: Option<K>, room: usize) -> String {
        let mut s = String::new();
        let mut plain = vec![];
        for _ in 0..self.rng.weighted(&[60, 30, 10]) {
            let (n, x) = (self.name(), self.side(room));
            let sp = self.sp();
            s.push_str(&format!("{}: {}{}", n, x, sp));
            plain.push(n);
        }
        let is_obj = matches!(kind, Some(K::Obj) | Some(K::IncObj));
        let is_arr = matches!(kind, Some(K::Arr) | Some(K::IncArr));
        let n = self.name();
        let sp = self.sp();
        s.push_str(&match self.rng.below(10) {
            0 | 1 => format!("@{}:{}{}", n, sp, v),
            2 if is_obj => format!("^:{}{}", sp, v),
            3 if is_obj => format!("^:{}{}", sp, v),
            4 if is_arr => {
                self.ops += 1;
                format!("{}:{}[]+{}", n, sp, v)
            }
            5 if is_arr => {
                self.ops += 1;
                format!("{}:{}{}+[]", n, sp, v)
            }
            _ => format!("{}:{}{}", n, sp, v),
        });
        s.push_str(self.sp());
        for _ in 0..self.rng.weighted(&[70, 25, 5]) {
            let (n, x) = (self.name(), self.side(room));
            let sp = self.sp();
            s.push_str(&format!("{}: {}{}", n, x, sp));
        }
        s
    }

    fn elems(&mut self, v: &str, tup: bool, kind: Option<K>, room: usize) -> String {
        let mut s = String::new();
        if tup {
            for _ in 0..self.rng.weighted(&[60, 30, 10]) {
                s.push_str(&self.side(room));
                s.push_str(self.sp());
            }
        } else if matches!(kind, Some(K::Obj) | Some(K::IncObj)) && self.rng.pct(30) && room >= 1 {
            self.sib += 1;
            let n = self.name();
            let x = self.side(room - 1);
            s.push_str(&format!("{{{}: {}}} ", n, x));
        } else if matches!(kind, Some(K::Arr) | Some(K::IncArr)) && self.rng.pct(30) && room >= 1 {
            self.sib += 1;
            s.push_str("[] ");
        }
        s.push_str(v);
        s.push_str(self.sp());
        if tup {
            for _ in 0..self.rng.weighted(&[70, 25, 5]) {
                s.push_str(&self.side(room));
                s.push_str(self.sp());
            }
        }
        s
    }
}

/// The order of containers of a nest.
fn kinds(rng: &mut Rng, n: usize) -> Vec<K> {
    let w: [u32; 6] = match rng.below(9) {
        0 => [1, 0, 0, 0, 0, 0],
        1 => [0, 1, 0, 0, 0, 0],
        2 => [0, 0, 1, 0, 0, 0],
        3 => [1, 1, 1, 0, 0, 0],
        4 if n <= 100 => [0, 0, 0, 1, 0, 0],
        5 if n <= 100 => [0, 0, 0, 2, 1, 1],
        6 if n <= 100 => [6, 6, 6, 1, 1, 1],
        7 if n <= 100 => [3, 3, 3, 1, 1, 1],
        _ => [1, 1, 1, 0, 0, 0],
    };
    let all = [K::Obj, K::Arr, K::Tup, K::IncObj, K::IncArr, K::IncTup];
    // Runs of the same kind, too.
    let stick = *rng.pick(&[0, 0, 50, 90]);
    let mut v: Vec<K> = vec![];
    for _ in 0..n {
        let k = match v.last() {
            Some(k) if rng.pct(stick) => *k,
            _ => all[rng.weighted(&w)],
        };
        v.push(k);
    }
    if n > 0 && rng.pct(10) && w[3] + w[4] > 0 {
        v[n - 1] = K::IncStr;
    }
    v
}

fn c24(ctx: &mut Ctx) -> Result<(), String> {
    match ctx.rng.below(20) {
        0..=16 => nest(ctx),
        17 => signs(ctx),
        18 => {
            if ctx.rng.bool() {
                signs(ctx)
            } else {
                paths(ctx)
            }
        }
        _ => dots(ctx),
    }
}

fn nest(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "n");
    let depth = match ctx.rng.below(10) {
        0..=2 => 64,
        3..=5 => 65,
        6 => ctx.rng.range(62, 67),
        7 => ctx.rng.range(1, 70),
        8 => ctx.rng.range(66, 200),
        _ => *ctx.rng.pick(&[128, 129, 256, 300, 1000, 5000]),
    };
    let n = depth - 1;
    let ks = kinds(&mut ctx.rng, n);
    let plain = ctx.rng.pct(20) || depth > 300;
    let mut g = Nest {
        rng: &mut ctx.rng,
        root: root.to_str().unwrap().to_string(),
        files: 0,
        sib: 0,
        ops: 0,
        budget: 300,
        names: 0,
    };
    // From the inside out. The content of container i (from 1) is at depth i + 1, so anything
    // in it may have 64 - (i + 1) levels.
    let mut v = String::new();
    let mut inner: Option<K> = None;
    for i in (1..=n).rev() {
        let k = ks[i - 1];
        let room = if plain { 0 } else { 64usize.saturating_sub(i + 1) };
        let leaf = inner.is_none();
        let content = match k {
            K::IncStr => "[[[ {{{ not a document".to_string(),
            K::Obj | K::IncObj => {
                if leaf && g.rng.bool() {
                    String::new()
                } else if leaf {
                    g.body("1", None, room)
                } else if plain {
                    format!("a:{}", v)
                } else {
                    g.body(&v, inner, room)
                }
            }
            K::Arr | K::IncArr | K::Tup | K::IncTup => {
                let tup = matches!(k, K::Tup | K::IncTup);
                if leaf && g.rng.bool() {
                    String::new()
                } else if leaf {
                    g.elems("\"x\"", tup, None, room)
                } else if plain {
                    v.clone()
                } else {
                    g.elems(&v, tup, inner, room)
                }
            }
        };
        v = match k {
            K::Obj => format!("{{{}}}", content),
            K::Arr => format!("[{}]", content),
            K::Tup => format!("({})", content),
            _ => {
                let f = g.file(&content);
                let word = match k {
                    K::IncObj => *g.rng.pick(&["", "Obj ", "Obj\n"]),
                    K::IncArr => "Arr ",
                    K::IncTup => "Tup ",
                    _ => "Str ",
                };
                format!("<{}\"{}\">", word, f)
            }
        };
        inner = Some(k);
    }
    let text = if n == 0 {
        "a: 1".to_string()
    } else if plain {
        format!("a: {}", v)
    } else {
        g.body(&v, inner, 63)
    };
    let (files, sib, ops) = (g.files, g.sib, g.ops);
    let main = root.join("main.over");
    let from_file = files > 0 || ctx.rng.pct(20);
    ctx.note("document", if text.len() < 20_000 { &text } else { "(long)" });
    ctx.note("containers, from the outside", &format!("{:?}", ks.iter().take(200).collect::<Vec<_>>()));
    if from_file {
        write(&main, text.as_bytes());
    }
    let got = load_small(ctx, &text, if from_file { Some(&main) } else { None })?;
    let ok = depth <= 64;
    match (&got, ok) {
        (Ok(_), true) | (Err(_), false) => (),
        (Ok(_), false) => return Err(format!("containers nested {} deep were accepted", depth)),
        (Err(e), true) => return Err(format!("containers nested only {} deep were rejected: {}", depth, model::short(e))),
    }
    match &got {
        Err(e) if !e.to_lowercase().contains("depth") => {
            return Err(format!("nested {} deep, rejected with an error that is not about the depth: {}", depth, model::short(e)));
        }
        Ok(o) => {
            // And it loads as the data it writes down.
            let (want, _) =
                if from_file { model::load_file(main.to_str().unwrap()) } else { model::load_str(&text) };
            match want {
                Ok(m) => crate::bridge::same_obj(o, &m)?,
                Err(e) => sup::harness_fail(&format!("the model rejects a nest of depth {}: {:?}\n{}", depth, e, text)),
            }
        }
        _ => (),
    }
    if depth == 64 {
        ctx.count("accepted_at_64", 1);
    } else if depth == 65 {
        ctx.count("rejected_at_65", 1);
    } else if depth > 100 {
        ctx.count("rejected_deep", 1);
    }
    let inc = ks.iter().filter(|k| matches!(k, K::IncObj | K::IncArr | K::IncTup | K::IncStr)).count();
    if inc > 0 && inc < n {
        ctx.count("nest_mixed_files", 1);
    }
    if inc == n && n == 63 {
        ctx.count("include_chain_63", 1);
    }
    if inc == n && n == 64 {
        ctx.count("include_chain_64", 1);
    }
    if ks.last() == Some(&K::IncStr) {
        ctx.count("str_leaf", 1);
    }
    ctx.count("siblings", sib);
    ctx.count("operators", ops);
    if depth >= 60 {
        ctx.nontrivial(&format!("{:?}", ks));
        ctx.sample(|| text.clone());
    }
    Ok(())
}

fn signs(ctx: &mut Ctx) -> Result<(), String> {
    // Levels of brackets around the chain, beyond the document itself.
    let around = *ctx.rng.pick(&[0, 0, 1, 5, 30, 50]);
    let n = match ctx.rng.below(6) {
        0 | 1 => ctx.rng.range(1, 58 - around),
        2 => ctx.rng.range(50 - around.min(49), 58 - around),
        3 => ctx.rng.range(59 - around, 140),
        4 => ctx.rng.range(700, 5000),
        _ => ctx.rng.range(5000, if ctx.thorough { 3_000_000 } else { 300_000 }),
    };
    let plus = *ctx.rng.pick(&[0, 50, 100]);
    let mut neg = false;
    let mut s = String::with_capacity(n * 2 + 40);
    for _ in 0..n {
        if ctx.rng.pct(plus) {
            s.push('+');
        } else {
            neg = !neg;
            s.push('-');
        }
    }
    let frame = *ctx.rng.pick(&["r: E", "r: [E]", "q: 1 r: (E)", "r: 1+E", "@g: E r: @g", "r: E*2"]);
    let (lead, lit) = *ctx.rng.pick(&[("", "5"), ("v: 5 ", "v"), ("", "5.0")]);
    let around = if frame.contains("E*") || frame.contains("+E") || frame.contains("@") { 0 } else { around };
    let mut chain = format!("{}{}", s, lit);
    for _ in 0..around {
        let (a, b) = *ctx.rng.pick(&[("[", "]"), ("(", ")")]);
        chain = format!("{}{}{}", a, chain, b);
    }
    let text = format!("{}{}", lead, frame.replace('E', &chain));
    ctx.note("signs", &format!("{} signs, {} brackets, frame {}, operand {}", n, around, frame, lit));
    let got = load_small(ctx, &text, None)?;
    match got {
        Ok(o) => {
            if n + around >= 72 {
                return Err(format!("a chain of {} signs in {} brackets was accepted", n, around));
            }
            let (want, _) = model::load_str(&text);
            if let Ok(m) = want {
                crate::bridge::same_obj(&o, &m)?;
                ctx.count("sign_chain_value", 1);
                ctx.nontrivial(&format!("{}{}{}{}", n, frame, neg, lit));
            }
        }
        Err(e) => {
            if n + around <= 58 {
                return Err(format!("a chain of {} signs in {} brackets was rejected: {}", n, around, model::short(&e)));
            }
            if !e.to_lowercase().contains("depth") {
                return Err(format!("a chain of {} signs was rejected with another error: {}", n, model::short(&e)));
            }
            if n + around >= 72 {
                ctx.count("sign_chain_rejected", 1);
                ctx.nontrivial(&format!("{}{}", n, frame));
            }
        }
    }
    Ok(())
}

/// `<Str <Str <Str "p">>>`: the path of an include is itself included.
fn paths(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "p");
    let own = root.join("p").to_str().unwrap().to_string();
    let object = root.join("o.over").to_str().unwrap().to_string();
    // A file that contains its own path, one that contains the path of an object, and the object.
    write(Path::new(&own), own.as_bytes());
    write(&root.join("pq"), object.as_bytes());
    write(Path::new(&object), b"x: 1");
    let total = match ctx.rng.below(8) {
        0 | 1 => 64,
        2 | 3 => 65,
        4 => ctx.rng.range(62, 67),
        5 => ctx.rng.range(4, 70),
        6 => ctx.rng.range(66, 300),
        _ => ctx.rng.range(300, 20_000),
    };
    let below = total - 1;
    let around = *ctx.rng.pick(&[0, 0, 1, 7, 30, 60]);
    let around = around.min(below.saturating_sub(3));
    let n = below - around;
    // The last include reads an object or another text.
    let last = n >= 2 && ctx.rng.bool();
    let mut chain = format!("\"{}\"", own);
    for i in 0..n {
        let tail = *ctx.rng.pick(&["", "", "+\"\"", " #\n"]);
        chain = if last && i == n - 2 {
            format!("<Str {}+\"q\">", chain)
        } else if last && i == n - 1 {
            format!("<{}{}>", *ctx.rng.pick(&["", "Obj ", " "]), chain)
        } else {
            format!("<Str {}{}>", chain, tail)
        };
    }
    let mut doc = chain;
    for _ in 0..around {
        let (a, b) = *ctx.rng.pick(&[("[", "]"), ("(", ")")]);
        doc = format!("{}{}{}", a, doc, b);
    }
    let text = format!("r: {}", doc);
    ctx.note("paths", &format!("{} includes in {} brackets, object {}: {}", n, around, last, model::short(&text)));
    match load_small(ctx, &text, None)? {
        Ok(o) => {
            if total > 64 {
                return Err(format!("{} includes within each other in {} brackets were accepted", n, around));
            }
            let mut v = o.get("r");
            for _ in 0..around {
                v = match v {
                    Some(Value::Arr(a)) => a.get(0).ok(),
                    Some(Value::Tup(t)) => t.get(0).ok(),
                    _ => None,
                };
            }
            let right = match &v {
                Some(Value::Str(s)) => !last && *s == own,
                Some(Value::Obj(o)) => last && o.get("x") == Some(Value::Int(1.into())),
                _ => false,
            };
            if !right {
                return Err(format!("{} includes in {} brackets gave {:?}", n, around, v.map(|v| v.to_string())));
            }
            ctx.count("path_chain_value", 1);
        }
        Err(e) => {
            if total <= 64 {
                return Err(format!("{} includes in {} brackets were rejected: {}", n, around, model::short(&e)));
            }
            if !e.to_lowercase().contains("depth") {
                return Err(format!("{} includes in {} brackets were rejected otherwise: {}", n, around, model::short(&e)));
            }
            ctx.count("path_chain_rejected", 1);
        }
    }
    if total >= 60 {
        ctx.nontrivial(&text.replace(&own, "p"));
    }
    Ok(())
}

/// `o: {a: {a: {a: 7}}} r: o.a.a.a` and the like.
fn dots(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.rng.pct(40) {
        return indices(ctx);
    }
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.range(1, 58),
        1 => ctx.rng.range(45, 90),
        2 => ctx.rng.range(700, 3000),
        _ => ctx.rng.range(3000, 12_000),
    };
    // Objects nested n deep by aliases, so that no nesting is written.
    let style = ctx.rng.below(3);
    let mut s = String::with_capacity(n * 24);
    s.push_str("@o0: 7\n");
    for i in 0..n {
        s.push_str(&match (style, i) {
            (1, 0) => "@o1: [@o0]\n".to_string(),
            (2, 0) => "@o1: (\"\" @o0)\n".to_string(),
            _ if i % 7 == 3 => format!("@o{}: {{b: 5 a: @o{}}}\n", i + 1, i),
            _ => format!("@o{}: {{a: @o{}}}\n", i + 1, i),
        });
    }
    let mut chain = format!("@o{}", n);
    for i in (0..n).rev() {
        chain.push_str(match (style, i) {
            (1, 0) => ".0",
            (2, 0) => ".1",
            _ => ".a",
        });
    }
    let text = format!("{}r: {}", s, chain);
    ctx.note("dots", &format!("{} dots, style {}", n, style));
    // The values themselves are deep, too: release them with room to spare.
    ctx.evals += 1;
    let t = std::thread::Builder::new().stack_size(256 << 20);
    let got = sup::must(
        t.spawn(move || sup::guard(|| text.parse::<Obj>().map(|o| o.get("r")).map_err(|e| e.to_string()))),
        "thread",
    )
    .join();
    let got = got.unwrap_or_else(|_| Err("a thread panicked".into()))?;
    match got {
        Ok(v) => {
            if n >= 72 {
                return Err(format!("a chain of {} dots was accepted", n));
            }
            if v != Some(Value::Int(7.into())) {
                return Err(format!("a chain of {} dots gave {:?}", n, v.map(|v| v.to_string())));
            }
            ctx.count("dot_chain_value", 1);
            ctx.nontrivial(&format!("dots {} {}", n, style));
        }
        Err(e) => {
            if n <= 58 {
                return Err(format!("a chain of {} dots was rejected: {}", n, model::short(&e)));
            }
            if !e.to_lowercase().contains("depth") {
                return Err(format!("a chain of {} dots was rejected with another error: {}", n, model::short(&e)));
            }
            ctx.count("dot_chain_rejected", 1);
            ctx.nontrivial(&format!("dots {} {}", n, style));
        }
    }
    Ok(())
}

/// `a: [0] r: a.a.a.0`: what follows each dot is the index, itself an access.
fn indices(ctx: &mut Ctx) -> Result<(), String> {
    let n = match ctx.rng.below(5) {
        0 => ctx.rng.range(1, 58),
        1 => ctx.rng.range(45, 90),
        2 => ctx.rng.range(72, 700),
        3 => ctx.rng.range(700, 5000),
        _ => ctx.rng.range(5000, if ctx.thorough { 1_000_000 } else { 100_000 }),
    };
    let lead = *ctx.rng.pick(&["a: [0]", "a: (0)", "@a: [0 5]", "a: (0 null)", "o: {x: 0} a: [0]"]);
    let name = if lead.starts_with('@') { "@a" } else { "a" };
    let mut chain = String::with_capacity(n * 3 + 8);
    for _ in 0..n {
        chain.push_str(name);
        chain.push('.');
    }
    chain.push_str(if lead.starts_with('o') { "o.x" } else { "0" });
    let frame = *ctx.rng.pick(&["r: E", "@r: E r: @r", "r: 0+E", "q: [5 E] r: 0"]);
    let text = format!("{} {}", lead, frame.replace('E', &chain));
    ctx.note("indices", &format!("{} indices, {} {}", n, lead, frame));
    match load_small(ctx, &text, None)? {
        Ok(o) => {
            if n >= 72 {
                return Err(format!("a chain of {} dots in indices was accepted", n));
            }
            if o.get("r") != Some(Value::Int(0.into())) {
                return Err(format!("a chain of {} dots in indices gave {:?}", n, o.get("r").map(|v| v.to_string())));
            }
            ctx.count("index_chain_value", 1);
        }
        Err(e) => {
            if n <= 56 {
                return Err(format!("a chain of {} dots in indices was rejected: {}", n, model::short(&e)));
            }
            if !e.to_lowercase().contains("depth") {
                return Err(format!("a chain of {} dots in indices was rejected with another error: {}", n, model::short(&e)));
            }
            ctx.count("index_chain_rejected", 1);
        }
    }
    ctx.nontrivial(&format!("indices {} {} {}", n, lead, frame));
    Ok(())
}

// ---------------------------------------------------------------- C25

pub static C25: PropDef = PropDef {
    id: "C25",
    run: c25,
    quick: 1_088 + 250_000,
    thorough: 1_088 + 15_000_000,
    level: "exploration",
    rule: "every Unicode scalar value as the only, the first, a middle and the last character of a name, through the \
           character predicate, the name predicate, checked construction, and (all letters and digits, a sample of the \
           rest) documents; random names of up to 12 characters from nasty pools as fields, globals and references, \
           sets of fields with one bad name; some of large sizes; non-trivial: distinct names decided",
    must: &["large_cases", "scalars", "names_ok", "names_bad", "docs_ok", "docs_bad", "reserved_api", "reserved_doc", "sets_bad", "sets_ok", "globals_bad"],
    assumptions: &["'alphabetic' is Unicode's Alphabetic property as in the pinned standard library"],
};

/// The naming rule, from the property.
fn is_name(s: &str) -> bool {
    let mut it = s.chars();
    let start = |c: char| c.is_alphabetic() || c == '_';
    match it.next() {
        Some(c) if start(c) => it.all(|c| start(c) || ('0'..='9').contains(&c)),
        _ => false,
    }
}

const RESERVED: [&str; 7] = ["null", "true", "false", "Obj", "Str", "Arr", "Tup"];

fn api(ctx: &mut Ctx, name: &str) -> Result<(), String> {
    let want = is_name(name);
    let n = name.to_string();
    let got = ctx.over(move || {
        let v = Obj::is_valid_field(&n);
        (v, Obj::from_pairs(vec![Pair(n, Value::Null)], None))
    })?;
    if got.0 != want {
        return Err(format!("is_valid_field({:?}) says {}", name, got.0));
    }
    match got.1 {
        Ok(o) => {
            if !want {
                return Err(format!("checked construction accepted the name {:?}", name));
            }
            if o.len() != 1 || !o.contains(name) || o.get(name) != Some(Value::Null) {
                return Err(format!("an object with the field {:?} does not have it", name));
            }
            ctx.count("names_ok", 1);
        }
        Err(OverError::InvalidFieldName(s)) => {
            if want {
                return Err(format!("checked construction rejected the name {:?}", name));
            }
            if s != name {
                return Err(format!("checked construction of {:?} complains about {:?}", name, s));
            }
            ctx.count("names_bad", 1);
        }
        Err(e) => return Err(format!("checked construction of {:?} failed with {:?}", name, e)),
    }
    Ok(())
}

/// The name as a field and as a global of documents.
fn doc(ctx: &mut Ctx, name: &str, dir: bool) -> Result<(), String> {
    // Characters that mean something else in this place.
    let special = |c: char| {
        c.is_whitespace() || ":#{}[]()<>\"'^@.,+-*/%".contains(c)
    };
    if name.chars().any(special) || name.is_empty() {
        return Ok(());
    }
    let reserved = RESERVED.contains(&name);
    let want = is_name(name) && !reserved;
    let text = format!("{}: 1", name);
    let text = if dir { format!("x0: {{{}}}", text) } else { text };
    match load_str(ctx, &text)? {
        Ok(o) => {
            if !want {
                return Err(format!("the document {:?} was accepted", text));
            }
            let o = if dir { o.get_obj("x0").map_err(|e| e.to_string())? } else { o };
            if o.len() != 1 || o.get(name) != Some(Value::Int(1.into())) {
                return Err(format!("the document {:?} gives {}", text, o));
            }
            ctx.count("docs_ok", 1);
        }
        Err(e) => {
            if want {
                return Err(format!("the document {:?} was rejected: {}", text, e));
            }
            ctx.count("docs_bad", 1);
            if reserved {
                ctx.count("reserved_doc", 1);
            }
        }
    }
    // The same name as a global, defined and used; reserved words are left open here.
    if !reserved {
        let text = format!("@{}: 1 zz: @{}", name, name);
        match load_str(ctx, &text)? {
            Ok(o) => {
                if !want {
                    return Err(format!("the document {:?} was accepted", text));
                }
                if o.len() != 1 || o.get("zz") != Some(Value::Int(1.into())) {
                    return Err(format!("the document {:?} gives {}", text, o));
                }
            }
            Err(e) => {
                if want {
                    return Err(format!("the document {:?} was rejected: {}", text, e));
                }
                ctx.count("globals_bad", 1);
            }
        }
    }
    Ok(())
}

const POOL: &[char] = &[
    'a', 'Z', '_', '0', '9', 'é', 'ß', 'Ω', 'я', 'あ', '漢', 'ª', 'ǅ', 'ʰ', 'ⅷ', 'Ⓐ', '²', '½', '٣', '०', '\u{301}', '\u{345}', '\u{200d}',
    '\u{feff}', '\0', '$', '-', '.', '@', '^', ' ', ':', '\u{a0}', '\u{3000}', '😀', '\u{10ffff}', '﹏', '‿', '·', '߀', '\u{11066}', '\u{e0100}', '/', '[',
    '\'', '"', '#', '\n', '`', '{', '~', '\u{7f}', '!', '@', 'A', 'z', 'k',
];

fn random_name(rng: &mut Rng) -> String {
    if rng.pct(8) {
        let w = *rng.pick(&RESERVED);
        return match rng.below(5) {
            0 => w.to_string(),
            1 => format!("{}_", w),
            2 => format!("_{}", w),
            3 => w.to_uppercase(),
            _ => w.to_lowercase(),
        };
    }
    let n = rng.weighted(&[4, 20, 20, 20, 10, 5, 3, 2, 2, 1, 1, 1, 1]);
    let odd = *rng.pick(&[0, 10, 40, 100]);
    (0..n)
        .map(|_| match rng.pct(odd) {
            true => *rng.pick(POOL),
            false => *rng.pick(&['a', 'b', '_', 'X', '1', '7', 'é', 'Ж']),
        })
        .collect()
}

fn c25(ctx: &mut Ctx) -> Result<(), String> {
    let k = ctx.idx as u32;
    if k < 1_088 {
        // All scalar values, 1024 at a time.
        for u in k * 1024..(k + 1) * 1024 {
            let c = match char::from_u32(u) {
                Some(c) => c,
                None => continue,
            };
            ctx.count("scalars", 1);
            let start = c.is_alphabetic() || c == '_';
            let inner = start || ('0'..='9').contains(&c);
            let got = sup::guard(|| (Obj::is_valid_field_char(c, true), Obj::is_valid_field_char(c, false)))?;
            // '^' is a first character in documents: the parent.
            if (got.0 != start && c != '^') || got.1 != inner {
                return Err(format!("is_valid_field_char({:?}) says {:?}", c, got));
            }
            let one = c.to_string();
            let names = [one.clone(), format!("a{}", c), format!("_{}b", c), format!("{}9", c)];
            for (j, n) in names.iter().enumerate() {
                ctx.note("name", n);
                api(ctx, n)?;
                if c.is_alphanumeric() || u < 0x300 || ctx.rng.pct(2) {
                    if j < 2 || u < 0x300 || ctx.thorough {
                        doc(ctx, n, j == 1)?;
                    }
                }
            }
            if c.is_alphanumeric() || u < 0x3000 {
                ctx.nontrivial(&one);
            }
            ctx.start(ctx.idx); // the notes
        }
        return Ok(());
    }
    if ctx.rng.bool() {
        for _ in 0..4 {
            let n = random_name(&mut ctx.rng);
            ctx.note("name", &n);
            api(ctx, &n)?;
            let d = ctx.rng.bool();
            doc(ctx, &n, d)?;
            if RESERVED.contains(&&*n) {
                ctx.count("reserved_api", 1);
            }
            ctx.nontrivial(&n);
        }
        return Ok(());
    }
    // A set of fields: accepted exactly when every name is.
    let n = ctx.rng.range(1, 8);
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let s = random_name(&mut ctx.rng);
        if is_name(&s) && !names.contains(&s) {
            names.push(s);
        }
    }
    let mut bad = None;
    if ctx.rng.pct(60) {
        let mut s = random_name(&mut ctx.rng);
        while is_name(&s) {
            s = random_name(&mut ctx.rng);
        }
        let at = ctx.rng.below(names.len() + 1);
        names.insert(at, s.clone());
        bad = Some(s);
    }
    ctx.note("names", &format!("{:?}", names));
    let parent = if ctx.rng.bool() { Some(Obj::empty()) } else { None };
    let pairs: Vec<Pair> = names.iter().enumerate().map(|(i, s)| Pair(s.clone(), Value::Int(i.into()))).collect();
    match (ctx.over(|| Obj::from_pairs(pairs, parent))?, bad) {
        (Ok(o), None) => {
            let got: Vec<String> = o.iter().map(|p| p.0.clone()).collect();
            if got != names {
                return Err(format!("built with fields {:?}, has {:?}", names, got));
            }
            ctx.count("sets_ok", 1);
        }
        (Err(OverError::InvalidFieldName(s)), Some(b)) => {
            if s != b {
                return Err(format!("the bad name is {:?}, the error says {:?}", b, s));
            }
            ctx.count("sets_bad", 1);
        }
        (r, b) => return Err(format!("bad name {:?}: {:?}", b, r.map(|o| o.to_string()).map_err(|e| e.to_string()))),
    }
    ctx.nontrivial(&format!("{:?}", names));
    Ok(())
}
