//! Large cases: a few of the executions of many checks use documents and values of a size at
//! which code may behave in another way (tables that are full, counters that wrap, shortcuts for
//! long lists). Sizes are spread evenly over their magnitudes, and lie at round numbers too; what
//! is wrong, or differs, mostly lies towards the end.

use super::util::*;
use crate::bridge::{self, Build};
use crate::gen;
use crate::model::{self, Kind, MObj, MV};
use crate::rng::Rng;
use crate::sup::{guard, Ctx};
use num_bigint::BigInt;
use num_rational::BigRational;
use over::arr::Arr;
use over::obj::{Obj, Pair};
use over::value::Value;
use over::ReferenceType;
use std::rc::Rc;

const EDGES: [usize; 26] = [
    31, 32, 63, 64, 99, 100, 127, 128, 199, 255, 256, 499, 511, 512, 999, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 9_999, 16_384, 32_767, 65_535,
];

/// A large number, at most `cap`.
pub fn size(rng: &mut Rng, cap: usize) -> usize {
    let n = if rng.pct(35) {
        *rng.pick(&EDGES) + rng.below(4)
    } else {
        let bits = (usize::BITS - cap.leading_zeros()) as usize;
        let b = rng.range(5, bits - 1);
        (1 << b) + rng.below(1 << b)
    };
    if n > cap {
        // Towards the end of what is allowed.
        cap - rng.below(cap / 3)
    } else {
        n
    }
}

/// A position among `n`, mostly near the end.
pub fn late(rng: &mut Rng, n: usize) -> usize {
    match rng.below(10) {
        0..=4 => n - 1 - rng.below(n.min(3)),
        5 | 6 => {
            let e = *rng.pick(&EDGES) + rng.below(3);
            if e < n {
                e
            } else {
                n - 1
            }
        }
        _ => rng.below(n),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fam {
    Arr,
    Tup,
    Fields,
    Globals,
    Literal,
    Ops,
    Concat,
    Index,
    Parents,
    Names,
    Blank,
    Records,
    Siblings,
    Shared,
}

pub use self::Fam::*;

pub const ALL: [Fam; 14] = [Arr, Tup, Fields, Globals, Literal, Ops, Concat, Index, Parents, Names, Blank, Records, Siblings, Shared];

fn sep(rng: &mut Rng) -> &'static str {
    *rng.pick(&[" ", " ", " ", " ", " ", " ", "\n", "\t", "\r\n", " # c\n"])
}

/// Elements of one type, and one that does not fit them.
const SETS: [(&[&str], &str); 9] = [
    (&["1", "-2", "3_0", "07"], "\"x\""),
    (&["1.5", "1/3", "-.25", "2."], "1"),
    (&["\"a\"", "\"\"", "\"é\\n\"", "\"]\""], "null"),
    (&["null"], "0"),
    (&["true", "false"], "null"),
    (&["{}", "{a: 1}", "{a: \"x\" b: {}}"], "()"),
    (&["(1 \"a\")", "(2 \"\")"], "(\"a\" 1)"),
    (&["[]", "[]", "[]", "[]", "[1]"], "[\"x\"]"),
    (&["[[]]", "[[1]]", "[]"], "[1]"),
];

/// A fault of any kind that can stand where a value can.
const BAD: [&str; 18] = [
    "?", "\"\\q\"", "1.2.3", "nope", "@nope", "1+\"a\"", "-null", "1/0", "[1 \"a\"]", "{x: 1 x: 2}", "{null: 1}", "(1]", "1__0", "{x:1}.y", "(1).1", "<1>", "1%0", "tru",
];

/// The text of a large document; perhaps with a fault.
pub fn text(rng: &mut Rng, fam: Fam, bad: bool) -> String {
    let mut s = String::new();
    match fam {
        Arr => {
            let n = size(rng, 70_000);
            let (good, odd) = *rng.pick(&SETS);
            // Empty ones fit anything: the type may become known late.
            let open = if good[0] == "[]" { late(rng, n) } else { 0 };
            let k = if bad { late(rng, n) } else { n };
            for i in 0..n {
                s.push_str(if i == k {
                    if rng.pct(75) {
                        odd
                    } else {
                        *rng.pick(&BAD)
                    }
                } else if i < open {
                    "[]"
                } else {
                    *rng.pick(good)
                });
                s.push_str(sep(rng));
            }
            frame(rng, &format!("[{}]", s))
        }
        Tup => {
            let n = size(rng, 19_000);
            let k = if bad { late(rng, n) } else { n };
            for i in 0..n {
                let (good, odd) = *rng.pick(&SETS);
                s.push_str(if i == k {
                    *rng.pick(&BAD)
                } else if rng.bool() {
                    good[0]
                } else {
                    odd
                });
                s.push_str(sep(rng));
            }
            frame(rng, &format!("({})", s))
        }
        Fields => {
            let n = size(rng, 4_000);
            let k = if bad { late(rng, n) } else { n };
            let stem = *rng.pick(&["f", "f_", "é", "ключ", "_"]);
            for i in 0..n {
                let j = if i == 0 { 0 } else { late(rng, i) };
                if i == k {
                    s.push_str(&match rng.below(6) {
                        0..=2 if i > 0 => format!("{}{}: 1", stem, j),
                        3 => format!("{}{}: {}{}", stem, i, stem, late(rng, n).max(i)),
                        4 => format!("{}{}.: 1", stem, i),
                        _ => format!("{}{}: {}", stem, i, rng.pick(&BAD)),
                    });
                } else if i > 0 && rng.pct(30) {
                    s.push_str(&format!("{}{}: {}{}", stem, i, stem, j));
                } else {
                    s.push_str(&format!("{}{}: {}", stem, i, i));
                }
                s.push_str(sep(rng));
            }
            if rng.bool() {
                s
            } else {
                frame(rng, &format!("{{{}}}", s))
            }
        }
        Globals => {
            let n = size(rng, 30_000);
            let k = if bad { late(rng, n) } else { n };
            s.push_str("first: 1\n");
            for i in 0..n {
                let j = if i == 0 { 0 } else { late(rng, i) };
                if i == k {
                    s.push_str(&match rng.below(4) {
                        0 | 1 if i > 0 => format!("@g{}: 1", j),
                        2 => format!("@g{}: @g{}", i, late(rng, n).max(i)),
                        _ => format!("@g{}: {}", i, rng.pick(&BAD)),
                    });
                } else if i > 0 && rng.pct(30) {
                    s.push_str(&format!("@g{}: @g{}", i, j));
                } else {
                    s.push_str(&format!("@g{}: {}", i, i));
                }
                s.push_str(sep(rng));
            }
            if !bad {
                for i in 0..20 {
                    s.push_str(&format!("r{}: @g{}\n", i, late(rng, n)));
                }
            }
            s
        }
        Literal => {
            let lit = match rng.below(6) {
                0 => {
                    let n = size(rng, 20_000);
                    gen::digits(rng, n)
                }
                1 => {
                    let (n, d) = (size(rng, 2_000), rng.below(5));
                    format!("{}.{}", gen::digits(rng, d), gen::digits(rng, n))
                }
                2 => {
                    let n = size(rng, 100_000);
                    let e = *rng.pick(&["\\n", "\\\\", "\\\"", "\\$", "\\t", "\\'"]);
                    format!("\"{}\"", e.repeat(n))
                }
                k => {
                    let n = size(rng, if k == 3 { 1_300_000 } else { 60_000 });
                    let c = *rng.pick(&["a", "é", "\n", "😀", " # ", "] }", "0"]);
                    let m = n / c.len();
                    let at = late(rng, m + 1);
                    let odd = *rng.pick(&["", "\\\"", "\\\\", "\\n", "\r", "é", "#", "\0", "'"]);
                    format!("\"{}{}{}\"", c.repeat(at), odd, c.repeat(m - at))
                }
            };
            let lit = if bad {
                match (lit.starts_with('"'), rng.below(3)) {
                    (true, 0) => format!("{}\\x\"", &lit[..lit.len() - 1]),
                    (true, 1) => format!("{}\"", lit),
                    (true, _) => lit[..lit.len() - 1].to_string(),
                    (_, 0) => format!("{}a", lit),
                    (_, 1) => format!("{}__1", lit),
                    _ => format!("{}.1.", lit),
                }
            } else {
                lit
            };
            frame(rng, &lit)
        }
        Ops => {
            let n = size(rng, 1_500);
            let style = rng.below(5);
            let k = if bad { late(rng, n) } else { n };
            s.push_str("v: 3 w: ");
            for i in 0..n {
                if i > 0 {
                    // Few divisions: each may make the fraction longer.
                    s.push(match style {
                        0 => *rng.pick(&['+', '-']),
                        1 => *rng.pick(&['+', '-', '*']),
                        2 => *rng.pick(&['+', '-', '*', '%']),
                        3 => *rng.pick(&['*', '%']),
                        _ => {
                            if rng.pct(10) {
                                '/'
                            } else {
                                *rng.pick(&['+', '-', '*'])
                            }
                        }
                    });
                }
                if i == k {
                    s.push_str(*rng.pick(&["\"a\"", "null", "nope", "?", "", "()", "0%0", "0/0"]));
                    continue;
                }
                s.push_str(*rng.pick(&["1", "2", "7", "-3", "v", "10", "-v", "+5", "3"]));
            }
            s.push_str(" z: 1");
            s
        }
        Concat => {
            let strs = rng.bool();
            let parts = rng.range(2, 6);
            let n = size(rng, 300);
            let parts = if rng.pct(20) { n } else { parts };
            let each = if parts > 6 { 3 } else { size(rng, 5_000) };
            let k = if bad { late(rng, parts) } else { parts };
            s.push_str("r: ");
            for i in 0..parts {
                if i > 0 {
                    s.push('+');
                }
                let m = rng.below(each + 1);
                let odd = i == k;
                if strs {
                    s.push_str(&if odd { "[1]".to_string() } else { format!("\"{}\"", gen::any_char(rng).to_string().replace(|c| c == '"' || c == '\\', "q").repeat(m)) });
                } else {
                    let w = if odd { format!("{}\"x\"", "7 ".repeat(if i == 0 { 0 } else { m })) } else { "7 ".repeat(m.max(1)) };
                    s.push_str(&format!("[{}]", w));
                }
            }
            s
        }
        Index => {
            let tup = rng.bool();
            let n = size(rng, if tup { 19_000 } else { 70_000 });
            let (open, close) = if tup { ("(", ")") } else { ("[", "]") };
            s.push_str(&format!("a: {}", open));
            for i in 0..n {
                s.push_str(&format!("{} ", i));
            }
            s.push_str(close);
            s.push('\n');
            for i in 0..rng.range(1, 8) {
                let at = late(rng, n);
                s.push_str(&match rng.below(3) {
                    0 => format!("r{}: a.{}\n", i, at),
                    1 => format!("i{}: {} r{}: a.i{}\n", i, at, i, i),
                    _ => format!("@i{}: {} r{}: a.@i{}\n", i, at, i, i),
                });
            }
            if bad {
                let past = *rng.pick(&[n, n + 1, 2 * n, n + 256, n + 65_536]);
                s.push_str(&format!("bad: a.{}", past));
            }
            s
        }
        Parents => {
            let n = size(rng, 2_000);
            s.push_str("@o0: {x0: 0 y: 0}\n");
            for i in 1..n {
                s.push_str(&format!("@o{}: {{ ^: @o{} x{}: {}{} }}\n", i, i - 1, i, i, if rng.pct(1) { format!(" y: {}", i) } else { String::new() }));
            }
            s.push_str(&format!("o: @o{}\n", n - 1));
            for i in 0..6 {
                let at = n - 1 - late(rng, n);
                s.push_str(&format!("r{}: o.x{}\n", i, at));
            }
            s.push_str("ry: o.y\n");
            if bad {
                s.push_str(&match rng.below(3) {
                    0 => format!("bad: o.x{}", n),
                    1 => format!("bad: @o{}.x{}", n / 2, n / 2 + 1),
                    _ => "bad: o.z".to_string(),
                });
            }
            s
        }
        Names => {
            // Names that differ only at their end.
            let n = size(rng, 20_000);
            let c = *rng.pick(&["a", "ж", "_", "x1"]);
            let stem = format!("q{}", c.repeat(n / c.len()));
            let g = if rng.bool() { "@" } else { "" };
            let ends = ["", "a", "b", "1"];
            for (i, e) in ends.iter().enumerate() {
                s.push_str(&format!("{}{}{}: {}\n", g, stem, e, i));
            }
            for (i, e) in ends.iter().enumerate() {
                s.push_str(&format!("r{}: {}{}{}\n", i, g, stem, e));
            }
            s.push_str(&format!("o: {{{}: 1 {}b: 2}} p: o.{}b\n", stem, stem, stem));
            if bad {
                let e = *rng.pick(&["", "a", "1"]);
                s.push_str(&match rng.below(6) {
                    0 => format!("{}{}{}: 0", g, stem, e),
                    1 => format!("z: {}{}c", g, stem),
                    2 => format!("z: o.{}a", stem),
                    3 => format!("{}{}-: 0", g, stem),
                    4 => format!("{}{}٣: 0", g, stem),
                    _ => format!("{}{}^: 0", g, stem),
                });
            }
            s
        }
        Blank => {
            let n = size(rng, 140_000);
            let pad = match rng.below(6) {
                0 => "\n".repeat(n),
                1 => " ".repeat(n),
                2 => format!("#{}\n", "x".repeat(n)),
                3 => "#}\"é\n".repeat(n),
                4 => "\u{2003}".repeat(n),
                _ => "\r\n\t".repeat(n),
            };
            let at = rng.below(6);
            let slots: Vec<&str> = (0..6).map(|i| if i == at { pad.as_str() } else { " " }).collect();
            let tail = if bad { *rng.pick(&BAD) } else { "\"v\"" };
            format!("{}a: [1{}2 ]{}b:{}{{ c: 3 {}}} d: ({}) {}e: {}", slots[0], slots[1], slots[2], slots[3], slots[4], 4, slots[5], tail)
        }
        Records => {
            let n = size(rng, 8_000);
            let k = if bad { late(rng, n) } else { n };
            let tup = rng.pct(30) && n < 5_000;
            s.push_str(if tup { "t: (\n" } else { "t: [\n" });
            for i in 0..n {
                if i == k {
                    s.push_str(&format!("{{id: {} v: {} w: 1}}\n", i, rng.pick(&BAD)));
                } else {
                    s.push_str(&format!("{{id: {} v: \"{}\" w: id*2}}\n", i, i % 7));
                }
            }
            s.push(if tup { ')' } else { ']' });
            s.push_str(&format!(" last: t.{}.w", late(rng, n.min(k.max(1)))));
            s
        }
        Siblings => {
            // Many nests one after the other, then one that just fits or just does not.
            let n = size(rng, 3_000);
            let d = rng.range(1, 30);
            for i in 0..n {
                s.push_str(&format!("s{}: {}{}\n", i, "(".repeat(d), ")".repeat(d)));
            }
            let deep = if bad { 64 } else { 63 };
            let (o, c) = *rng.pick(&[("(", ")"), ("[", "]"), ("{a: ", "}")]);
            let inner = if o.len() > 1 { "1" } else { "" };
            s.push_str(&format!("z: {}{}{}", o.repeat(deep), inner, c.repeat(deep)));
            s
        }
        Shared => {
            let n = size(rng, 3_000);
            for i in 0..n {
                let j = if i == 0 { 0 } else { late(rng, i) };
                s.push_str(&match rng.below(6) {
                    0 => format!("c{}: [{}]\n", i, i),
                    1 => format!("c{}: ({} {{}})\n", i, i),
                    2 => format!("c{}: {{x: {}}}\n", i, i),
                    3 => format!("@c{}: {{}} c{}: [@c{} @c{}]\n", i, i, i, i),
                    _ if i > 0 => format!("c{}: c{}\n", i, j),
                    _ => format!("c{}: []\n", i),
                });
            }
            if bad {
                s.push_str(&format!("z: c{}", n));
            }
            s
        }
    }
}

/// Puts a value somewhere in a document.
fn frame(rng: &mut Rng, v: &str) -> String {
    match rng.below(6) {
        0 => format!("a: {} b: a", v),
        1 => format!("@a: {}\nb: @a", v),
        2 => format!("o: {{ p: {} }}", v),
        3 => format!("t: ({} 1)", v),
        4 => format!("l: [{}]", v),
        _ => format!("a: {}", v),
    }
}

/// Loads a large document of one of the families and holds it against the model.
pub fn docs(ctx: &mut Ctx, fams: &[Fam], p_bad: u32, dirs: Dirs) -> Result<(), String> {
    let fam = *ctx.rng.pick(fams);
    let bad = ctx.rng.pct(p_bad);
    let t = text(&mut ctx.rng, fam, bad);
    ctx.count("large_cases", 1);
    ctx.count(&format!("large_{:?}", fam).to_lowercase(), 1);
    ctx.nontrivial(&t);
    ctx.note("large document", &format!("{:?}, {} bytes", fam, t.len()));
    check(ctx, &t, dirs).map_err(|e| format!("{:?} of {} bytes: {}", fam, t.len(), e))?;
    Ok(())
}

/// As `check_text`, without a note of the text.
pub fn check(ctx: &mut Ctx, t: &str, dirs: Dirs) -> Result<Seen, String> {
    if let Some(d) = &ctx.dump {
        crate::sup::must(std::fs::write(d.with_extension("over"), t), "dump");
    }
    if ctx.rng.pct(30) {
        let p = ctx.dir.join("large.over");
        write(&p, t.as_bytes());
        return Ok(agree(ctx, Src::File(p.to_str().unwrap()), dirs)?.0);
    }
    Ok(agree(ctx, Src::Str(t), dirs)?.0)
}

// ---------------------------------------------------------------- values

fn elem(set: usize, i: usize) -> MV {
    match set {
        0 => MV::int(i as i64),
        1 => MV::str(&format!("s{}", i % 50)),
        2 => MV::Frac(BigRational::new(BigInt::from(i), BigInt::from(7))),
        3 => MV::Bool(i % 3 == 0),
        4 => MV::obj(vec![(Rc::from("i"), MV::int(i as i64))], None),
        5 => MV::tup(vec![MV::int(i as i64), MV::Null]),
        6 => MV::int(1),
        _ => MV::arr(vec![MV::int(i as i64)]).unwrap(),
    }
}

/// A large value and one that differs from it in one place.
pub fn value(rng: &mut Rng, most: usize) -> (MV, MV, &'static str) {
    let set = rng.below(8);
    let list = |rng: &mut Rng, n: usize| -> (Vec<MV>, Vec<MV>) {
        let a: Vec<MV> = (0..n).map(|i| elem(set, i)).collect();
        let mut b = a.clone();
        let k = late(rng, n);
        match rng.below(4) {
            0 => {
                b.pop();
            }
            1 => b.push(elem(set, n + 1)),
            _ if set == 3 => {
                b[k] = match &b[k] {
                    MV::Bool(x) => MV::Bool(!x),
                    _ => MV::Null,
                }
            }
            _ => b[k] = elem(set, n + 2),
        }
        if set == 6 && b.len() == n {
            b[k] = MV::int(2);
        }
        (a, b)
    };
    match rng.below(7) {
        0 | 1 => {
            let n = size(rng, most);
            let (a, b) = list(rng, n);
            (MV::arr(a).unwrap(), MV::arr(b).unwrap(), "array")
        }
        2 => {
            let n = size(rng, most.min(9_000));
            let (a, b) = list(rng, n);
            (MV::tup(a), MV::tup(b), "tuple")
        }
        3 | 4 => {
            let n = size(rng, 2_500);
            let (a, b) = list(rng, n);
            let nm = |v: Vec<MV>| -> Vec<(Rc<str>, MV)> { v.into_iter().enumerate().map(|(i, v)| (Rc::from(format!("f{}", i)), v)).collect() };
            let (a, mut b) = (nm(a), nm(b));
            if b.len() == n && rng.pct(40) {
                let k = late(rng, n);
                b[k].0 = Rc::from("other");
            }
            let p = if rng.pct(20) { Some(Rc::new(MObj { fields: a[..n / 2].to_vec(), parent: None })) } else { None };
            (MV::obj(a, p.clone()), MV::obj(b, p), "object")
        }
        5 => {
            let n = size(rng, most * 4);
            let c = *rng.pick(&["a", "é", "\n", "😀", "\\", "\"", "$", "\0"]);
            let mut cs: Vec<char> = c.repeat(n / c.len() + 1).chars().collect();
            for _ in 0..rng.below(3) {
                // One that stands out.
                let k = late(rng, cs.len());
                cs[k] = *rng.pick(&['"', '\\', '$', '\n', '\r', '\t', '\'', '\0', 'é', '#']);
            }
            let a: String = cs.iter().collect();
            let k = late(rng, cs.len());
            match rng.below(3) {
                0 => cs[k] = 'b',
                1 => {
                    cs.pop();
                }
                _ => cs.push('a'),
            }
            (MV::str(&a), MV::str(&cs.into_iter().collect::<String>()), "string")
        }
        _ => {
            let n = size(rng, 2_000);
            let d = gen::digits(rng, n);
            let i = BigInt::parse_bytes(format!("1{}", d).as_bytes(), 10).unwrap();
            let j = &i + rng.range(1, 3);
            if rng.bool() {
                (MV::Int(i), MV::Int(j), "integer")
            } else {
                let den = BigInt::from(*rng.pick(&[1, 3, 10, 1 << 20]));
                (MV::Frac(BigRational::new(i, den.clone())), MV::Frac(BigRational::new(j, den)), "fraction")
            }
        }
    }
}

fn noted(ctx: &mut Ctx, most: usize) -> (MV, MV) {
    let (a, b, what) = value(&mut ctx.rng, most);
    let n = super::round::size_of(&a);
    ctx.count("large_cases", 1);
    ctx.note("large value", &format!("{} of about {} nodes", what, n));
    ctx.nontrivial(&format!("{} {} {}", what, n, ctx.idx));
    (a, b)
}

/// C12, C13: large values are written and read back.
pub fn round(ctx: &mut Ctx) -> Result<(), String> {
    let (v, _) = noted(ctx, 20_000);
    let x = guard(|| Build::default().val(&v))??;
    let printed = ctx.over(|| x.to_string())?;
    let (o, m) = match (&x, &v) {
        (Value::Obj(o), MV::Obj(m)) => (o.clone(), m.clone()),
        _ => (
            Obj::from_pairs_unchecked(vec![Pair("x".into(), x.clone()), Pair("y".into(), Value::Null)], None),
            Rc::new(MObj { fields: vec![(Rc::from("x"), v.clone()), (Rc::from("y"), MV::Null)], parent: None }),
        ),
    };
    let text = ctx.over(|| o.write_to_string())?;
    let back = load_str(ctx, &text)?.map_err(|e| format!("the written form does not load: {}", model::short(&e)))?;
    if ctx.over(|| (o == back, back == o))? != (true, true) {
        return Err("reading the written form back gives an object that is not equal".into());
    }
    guard(|| bridge::same_obj(&back, &m))?.map_err(|e| format!("after writing and reading: {}", e))?;
    if ctx.over(|| back.write_to_string())? != text {
        return Err("writing what was read back gives another text".into());
    }
    // The printed form, in a document.
    let (pre, post) = *ctx.rng.pick(&[("r: ", ""), ("r: ", " s: 1"), ("@g: ", " r: @g"), ("t: (1 ", ") r: t.1")]);
    let d = format!("{}{}{}", pre, printed, post);
    let b = load_str(ctx, &d)?.map_err(|e| format!("the printed form does not load: {}", model::short(&e)))?;
    let y = b.get("r").ok_or("no field r")?;
    guard(|| bridge::same_val(&y, &v))?.map_err(|e| format!("the printed form reads back as another value: {}", e))?;
    if ctx.over(|| (x == y, y == x))? != (true, true) {
        return Err("the printed form reads back as a value that is not equal".into());
    }
    let again = ctx.over(|| y.to_string())?;
    if again != printed {
        return Err("printing what was read back gives another text".into());
    }
    Ok(())
}

/// C17: large values that are equal, or differ in one place.
pub fn equality(ctx: &mut Ctx) -> Result<(), String> {
    let (a, b) = noted(ctx, 20_000);
    let x = guard(|| Build::default().val(&a))??;
    let same = guard(|| Build::with(true).val(&a))??;
    let y = guard(|| Build::default().val(&b))??;
    let want = model::eq(&a, &b);
    let inner = |v: &Value, w: &Value| -> Vec<bool> {
        match (v, w) {
            (Value::Arr(p), Value::Arr(q)) => vec![p == q, v == q, p == w, !(p != q)],
            (Value::Tup(p), Value::Tup(q)) => vec![p == q, v == q, p == w, !(p != q)],
            (Value::Obj(p), Value::Obj(q)) => vec![p == q, v == q, p == w, !(p != q)],
            (Value::Str(p), Value::Str(q)) => vec![v == q, p == w, *v == q.as_str(), p.as_str() == *w],
            (Value::Int(p), Value::Int(q)) => vec![v == q, p == w],
            (Value::Frac(p), Value::Frac(q)) => vec![v == q, p == w],
            _ => vec![],
        }
    };
    for (p, q, want, what) in [(&x, &same, true, "the same data"), (&x, &y, want, "data that differ in one place"), (&same, &y, want, "data that differ in one place")] {
        let got = ctx.over(|| {
            let mut v = vec![p == q, q == p, !(p != q)];
            v.extend(inner(p, q));
            v.extend(inner(q, p));
            v
        })?;
        if got.iter().any(|g| *g != want) {
            return Err(format!("{}: {:?} instead of {}", what, got, want));
        }
    }
    // Fields in another order.
    if let (MV::Obj(m), true) = (&a, ctx.rng.bool()) {
        let mut f = m.fields.clone();
        if ctx.rng.bool() {
            f.reverse();
        } else {
            let n = f.len();
            let k = late(&mut ctx.rng, n);
            f.swap(k, 0);
        }
        let z = guard(|| Build::default().val(&MV::obj(f, m.parent.clone())))??;
        if ctx.over(|| (x == z, z == x))? != (true, true) {
            return Err("the same fields in another order are not equal".into());
        }
        if ctx.over(|| (z == y, y == z))? != (want, want) {
            return Err("an object with its fields in another order equals one that differs, or the other way round".into());
        }
    }
    Ok(())
}

/// C08, C18: every view of a large container.
pub fn views(ctx: &mut Ctx) -> Result<(), String> {
    let (a, _) = noted(ctx, 20_000);
    let x = guard(|| Build::default().val(&a))??;
    match (&x, &a) {
        (Value::Arr(v), MV::Arr(m)) => list(ctx, &m.vals, v.len(), v.values_ref(), v.iter().cloned().collect(), &|i| v.get(i).ok(), &|f| v.with_each(|x| f(x))),
        (Value::Tup(v), MV::Tup(m)) => list(ctx, &m.vals, v.len(), v.values_ref(), v.iter().cloned().collect(), &|i| v.get(i).ok(), &|f| v.with_each(|x| f(x))),
        (Value::Obj(o), MV::Obj(m)) => {
            let n = m.fields.len();
            let mut each: Vec<Pair> = vec![];
            ctx.over(|| o.with_each(|f, v| each.push(Pair(f.clone(), v.clone()))))?;
            let it: Vec<Pair> = ctx.over(|| o.iter().cloned().collect())?;
            let refs = o.pairs_ref();
            if o.len() != n || o.is_empty() || refs.len() != n || each.len() != n || it.len() != n {
                return Err(format!("{} fields: len {}, pairs_ref {}, with_each {}, iter {}", n, o.len(), refs.len(), each.len(), it.len()));
            }
            for (i, (f, v)) in m.fields.iter().enumerate() {
                for p in [&refs[i], &each[i], &it[i]] {
                    if *p.0 != **f {
                        return Err(format!("field {} is {:?} instead of {:?}", i, p.0, f));
                    }
                    guard(|| bridge::same_val(&p.1, v))??;
                }
            }
            for _ in 0..60 {
                let k = late(&mut ctx.rng, n);
                let f = &*m.fields[k].0;
                let (c, g, s) = ctx.over(|| (o.contains(f), o.get(f), o.get_with_source(f)))?;
                let g = g.ok_or_else(|| format!("get({:?}) of {} fields finds nothing", f, n))?;
                guard(|| bridge::same_val(&g, &m.fields[k].1))??;
                let (v, src) = s.ok_or_else(|| format!("get_with_source({:?}) of {} fields finds nothing", f, n))?;
                guard(|| bridge::same_val(&v, &m.fields[k].1))??;
                if !c || !src.ptr_eq(o) {
                    return Err(format!("{:?} of {} fields: contains {}, own source {}", f, n, c, src.ptr_eq(o)));
                }
                ctx.count("large_lookups", 1);
            }
            for f in [format!("f{}", n), "g".to_string(), format!("f{}_", n - 1), format!("f0{}", n - 1)] {
                if m.lookup(&f).is_some() {
                    continue;
                }
                if ctx.over(|| o.contains(&f) || o.get(&f).is_some() || o.get_with_source(&f).is_some())? {
                    return Err(format!("absent field {:?} of {} fields is found", f, n));
                }
            }
            Ok(())
        }
        _ => {
            // Scalars: what was stored comes back.
            guard(|| bridge::same_val(&x, &a))??;
            let o = Obj::from_pairs_unchecked(vec![Pair("x".into(), x.clone())], None);
            let y = match &x {
                Value::Str(_) => Value::from(o.get_str("x").map_err(|e| e.to_string())?),
                Value::Int(_) => Value::from(o.get_int("x").map_err(|e| e.to_string())?),
                Value::Frac(_) => Value::from(o.get_frac("x").map_err(|e| e.to_string())?),
                _ => x.clone(),
            };
            guard(|| bridge::same_val(&y, &a))?
        }
    }
}

fn list(
    ctx: &mut Ctx,
    m: &[MV],
    len: usize,
    refs: &[Value],
    it: Vec<Value>,
    get: &dyn Fn(usize) -> Option<Value>,
    with: &dyn Fn(&mut dyn FnMut(&Value)),
) -> Result<(), String> {
    let n = m.len();
    let mut each: Vec<Value> = vec![];
    ctx.over(|| with(&mut |v| each.push(v.clone())))?;
    if len != n || refs.len() != n || it.len() != n || each.len() != n {
        return Err(format!("{} elements: len {}, values_ref {}, iter {}, with_each {}", n, len, refs.len(), it.len(), each.len()));
    }
    for i in 0..n {
        let g = guard(|| get(i))?.ok_or_else(|| format!("get({}) of {} fails", i, n))?;
        for v in [&g, &refs[i], &it[i], &each[i]] {
            guard(|| bridge::same_val(v, &m[i]))?.map_err(|e| format!("element {} of {}: {}", i, n, e))?;
        }
    }
    for i in [n, n + 1, 2 * n, n + 256, n + 65_536, n + (1 << 32)] {
        if ctx.over(|| get(i))?.is_some() {
            return Err(format!("get({}) of {} elements gives something", i, n));
        }
    }
    Ok(())
}

/// C05: large arrays made through the API, from a file, and by joining.
pub fn arrays(ctx: &mut Ctx) -> Result<(), String> {
    let n = size(&mut ctx.rng, 30_000);
    let set = ctx.rng.below(8);
    let mut vals: Vec<MV> = (0..n).map(|i| elem(set, i)).collect();
    let k = late(&mut ctx.rng, n);
    if ctx.rng.pct(60) {
        vals[k] = match set {
            1 => MV::int(1),
            7 => MV::arr(vec![MV::str("x")]).unwrap(),
            5 => MV::tup(vec![MV::Null, MV::Null]),
            _ => MV::str("x"),
        };
    } else if set == 7 {
        // Nothing is known of the elements until late.
        for v in vals.iter_mut().take(k) {
            *v = MV::arr(vec![]).unwrap();
        }
    }
    let want = MV::arr(vals.clone());
    ctx.note("large array", &format!("{} elements, set {}, odd one at {}", n, set, k));
    ctx.count("large_cases", 1);
    ctx.nontrivial(&format!("{} {} {} {}", n, set, k, want.is_some()));
    let mut b = Build::default();
    let built: Vec<Value> = guard(|| vals.iter().map(|v| b.val(v)).collect::<Result<_, _>>())??;
    let r = ctx.over(|| Arr::from_values(built).map(Value::from).map_err(|e| e.to_string()))?;
    fits("from_values", r, &want)?;
    let mut src = String::new();
    bridge::source_elems(&mut ctx.rng, &vals, &mut src);
    write(&ctx.dir.join("many.over"), src.as_bytes());
    let dir = ctx.dir.clone();
    let r = super::includes::in_dir(&dir, || load_str(ctx, "r: <Arr \"many.over\">"))?;
    fits("an array file", r.map(|o| o.get("r").unwrap_or(Value::Null)), &want)?;
    let r = load_str(ctx, &format!("r: [{}]", src))?;
    fits("a literal", r.map(|o| o.get("r").unwrap_or(Value::Null)), &want)?;
    let cut = late(&mut ctx.rng, n);
    if MV::arr(vals[..cut].to_vec()).is_some() && MV::arr(vals[cut..].to_vec()).is_some() {
        let (mut p, mut q) = (String::new(), String::new());
        bridge::source_elems(&mut ctx.rng, &vals[..cut], &mut p);
        bridge::source_elems(&mut ctx.rng, &vals[cut..], &mut q);
        let r = load_str(ctx, &format!("r: [{}]+[{}]", p, q))?;
        fits("joined", r.map(|o| o.get("r").unwrap_or(Value::Null)), &want)?;
    }
    Ok(())
}

fn fits(how: &str, got: Result<Value, String>, want: &Option<MV>) -> Result<(), String> {
    match (got, want) {
        (Ok(v), Some(w)) => guard(|| bridge::same_val(&v, w))?.map_err(|e| format!("{}: {}", how, e)),
        (Err(_), None) => Ok(()),
        (Ok(_), None) => Err(format!("{}: accepted though the elements have no common type", how)),
        (Err(e), Some(_)) => Err(format!("{}: rejected though the elements fit: {}", how, model::short(&e))),
    }
}

/// C18 and C25: the last of many tuples, names and so on.
pub fn names(ctx: &mut Ctx) -> Result<(), String> {
    let n = size(&mut ctx.rng, 100_000);
    let c = *ctx.rng.pick(&["a", "_", "ж", "9", "漢"]);
    let mut s = format!("q{}", c.repeat(n / c.len()));
    let bad = ctx.rng.bool();
    if bad {
        let cs: Vec<(usize, char)> = s.char_indices().collect();
        let k = cs[1 + late(&mut ctx.rng, cs.len() - 1)].0;
        s.insert(k, *ctx.rng.pick(&[' ', '-', '.', '^', '@', '٣', ':', '\0']));
    }
    ctx.note("long name", &format!("{} bytes, bad: {}", s.len(), bad));
    ctx.count("large_cases", 1);
    let (v, r) = ctx.over(|| (Obj::is_valid_field(&s), Obj::from_pairs(vec![Pair("x".into(), Value::Null), Pair(s.clone(), Value::Null)], None)))?;
    if v == bad {
        return Err(format!("is_valid_field of a name of {} bytes is {}", s.len(), v));
    }
    match (r, bad) {
        (Ok(o), false) if o.contains(&s) && o.get(&s).is_some() => (),
        (Err(over::error::OverError::InvalidFieldName(t)), true) if t == s => (),
        _ => return Err(format!("construction with a name of {} bytes, bad: {}, says otherwise", s.len(), bad)),
    }
    // In a document.
    let got = load_str(ctx, &format!("{}: 1", s))?;
    if got.is_ok() == bad && !s.contains(':') {
        return Err(format!("a document with a name of {} bytes, bad: {}, says otherwise", s.len(), bad));
    }
    // A late one of many.
    let n = size(&mut ctx.rng, 5_000);
    let k = late(&mut ctx.rng, n);
    let mut pairs: Vec<Pair> = (0..n).map(|i| Pair(format!("f{}", i), Value::Int(i.into()))).collect();
    let wrong = *ctx.rng.pick(&["a b", "", "9", "^", "@f", "f-", "a.b"]);
    if bad {
        pairs[k].0 = wrong.into();
    }
    match (ctx.over(|| Obj::from_pairs(pairs, None))?, bad) {
        (Ok(o), false) if o.len() == n => Ok(()),
        (Err(over::error::OverError::InvalidFieldName(t)), true) if t == wrong => Ok(()),
        _ => Err(format!("construction from {} fields, bad name: {}, says otherwise", n, bad)),
    }
}

/// C10, C11, C19: many files in one load, and each of them again.
pub fn files(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "many");
    let n = size(&mut ctx.rng, 700);
    let mut kinds: Vec<Kind> = vec![];
    let mut main = String::new();
    for i in 0..n {
        let k = *ctx.rng.pick(&[Kind::Obj, Kind::Obj, Kind::Str, Kind::Arr, Kind::Tup]);
        let body = match k {
            Kind::Obj if i > 0 && ctx.rng.pct(20) => format!("id: {} sub: <\"../many/f{}\">", i, i - 1),
            Kind::Obj => format!("id: {}", i),
            Kind::Str => format!("text {}", i),
            _ => format!("{} {}", i, i + 1),
        };
        // Only files without further includes are named by others.
        let body = if body.contains("sub") && kinds.last() != Some(&Kind::Str) { format!("id: {}", i) } else { body };
        let body = body.replace("sub: <", "sub: <Str ");
        kinds.push(k);
        write(&root.join(format!("f{}", i)), body.as_bytes());
    }
    let word = |k: Kind| match k {
        Kind::Obj => "",
        Kind::Str => "Str ",
        Kind::Arr => "Arr ",
        Kind::Tup => "Tup ",
    };
    for (i, k) in kinds.iter().enumerate() {
        main.push_str(&format!("a{}: <{}\"f{}\">\n", i, word(*k), i));
    }
    for j in 0..40.min(n) {
        // Early ones as well as late ones.
        let at = late(&mut ctx.rng, n);
        let i = if ctx.rng.bool() { at } else { n - 1 - at };
        main.push_str(&format!("b{}: <{}\"./f{}\">\n", j, word(kinds[i]), i));
        // The same as text.
        if ctx.rng.pct(15) {
            main.push_str(&format!("c{}: <Str \"f{}\">\n", j, i));
        }
    }
    let cyclic = ctx.rng.pct(35);
    if cyclic {
        match ctx.rng.below(3) {
            0 => main.push_str("z: <\"main.over\">"),
            1 => {
                write(&root.join("back"), b"x: <\"main.over\">");
                main.push_str("z: <\"back\">");
            }
            _ => {
                write(&root.join("back"), b"x: {y: <\"./back\">}");
                main.push_str("z: [<\"back\">]");
            }
        }
    }
    let p = root.join("main.over");
    write(&p, main.as_bytes());
    ctx.note("many files", &format!("{} files, cyclic: {}", n, cyclic));
    ctx.count("large_cases", 1);
    ctx.count("many_files", 1);
    ctx.nontrivial(&format!("{}{}", main, cyclic));
    let (seen, _) = agree(ctx, Src::File(p.to_str().unwrap()), Dirs { accept: true, reject: true, sharing: true })?;
    match (seen, cyclic) {
        (Seen::Same(..), false) | (Seen::Rejected(..), true) => Ok(()),
        _ => Err(format!("{} files, cyclic: {}: unexpected outcome", n, cyclic)),
    }
}

/// C06: types of many parts.
pub fn tuple_type(rng: &mut Rng) -> (model::MTy, model::MTy) {
    use crate::model::MTy;
    let n = size(rng, 1_500);
    let part = |i: usize| match i % 5 {
        0 => MTy::Int,
        1 => MTy::Str,
        2 => MTy::arr(MTy::Any),
        3 => MTy::Obj,
        _ => MTy::arr(MTy::Frac),
    };
    let mut a: Vec<MTy> = (0..n).map(part).collect();
    let mut b = a.clone();
    for _ in 0..rng.range(0, 3) {
        let k = late(rng, b.len());
        match rng.below(6) {
            0 => a[k] = MTy::Any,
            1 => b[k] = MTy::Any,
            2 => b[k] = MTy::arr(MTy::Int),
            3 => a[k] = MTy::arr(MTy::Any),
            4 => {
                b.pop();
            }
            _ => b[k] = MTy::Null,
        }
    }
    if rng.pct(20) {
        // Deep instead.
        let n = size(rng, 300);
        let (mut x, mut y) = (MTy::Int, if rng.bool() { MTy::Any } else { MTy::Str });
        if rng.bool() {
            x = MTy::Any;
        }
        for i in 0..n {
            if i % 3 == 0 {
                x = MTy::Tup(vec![x, MTy::Any]);
                y = MTy::Tup(vec![y, MTy::Int]);
            } else {
                x = MTy::arr(x);
                y = MTy::arr(y);
            }
        }
        return (x, y);
    }
    (MTy::Tup(a), MTy::Tup(b))
}

/// C16: the same tokens with and without much between them.
pub fn layouts(rng: &mut Rng) -> (String, String) {
    let t = "a:¦[¦1¦2¦]¦b¦:¦{¦c:¦\"x\"¦}¦@g:¦(¦a¦)¦r:¦@g¦";
    let t = t.replace("b¦:", "b:");
    let n = size(rng, 120_000);
    let pad = match rng.below(7) {
        0 => "\n".repeat(n),
        1 => " ".repeat(n),
        2 => format!("#{}\n", "x".repeat(n)),
        3 => "#]\"é\r\n".repeat(n),
        4 => "\u{2003}\u{85}".repeat(n),
        5 => "\r\n\t".repeat(n),
        _ => format!("#{}\n", "#\"{[(\\é ".repeat(n / 8)),
    };
    let k = t.matches('¦').count();
    let at = rng.below(k);
    let mut i = 0;
    let mut out = String::new();
    for c in t.chars() {
        if c == '¦' {
            out.push_str(if i == at { &pad } else { " " });
            i += 1;
        } else {
            out.push(c);
        }
    }
    (t.replace('¦', " "), out)
}

/// The number of large cases a check has.
pub fn cases(id: &str, thorough: bool) -> u64 {
    let n = match id {
        "C10" | "C11" | "C19" => 480,
        "C12" | "C13" => 2_560,
        "C04" | "C08" => 1_600,
        "C02" | "C03" | "C05" | "C06" | "C07" | "C09" | "C14" | "C15" | "C16" | "C17" | "C18" | "C25" => 3_200,
        "C24" => 320,
        "C21" => 160,
        "C26" => 640,
        "C22" | "C23" => 960,
        _ => 0,
    };
    if thorough {
        n * 10
    } else {
        n
    }
}

/// One large case of a check.
pub fn run(ctx: &mut Ctx) -> Result<(), String> {
    match ctx.prop {
        "C02" => docs(ctx, &ALL, 0, ACCEPT),
        "C03" => docs(ctx, &[Ops, Ops, Concat], 30, BOTH),
        "C04" => docs(ctx, &[Literal], 30, BOTH),
        "C05" => {
            if ctx.rng.pct(70) {
                arrays(ctx)
            } else {
                docs(ctx, &[Arr, Concat, Index, Records], 30, BOTH)
            }
        }
        "C06" => {
            let (a, b) = tuple_type(&mut ctx.rng);
            ctx.count("large_cases", 1);
            ctx.nontrivial(&format!("{} {}", a.size(), ctx.idx));
            super::api::large_types(ctx, &a, &b)
        }
        "C07" => docs(ctx, &[Fields, Fields, Globals, Globals, Names, Records], 40, BOTH),
        "C08" => {
            if ctx.rng.bool() {
                views(ctx)
            } else {
                docs(ctx, &[Parents], 30, BOTH)
            }
        }
        "C09" => docs(ctx, &[Index, Index, Fields, Records, Parents], 35, BOTH),
        "C10" | "C11" => files(ctx),
        "C12" | "C13" => round(ctx),
        "C14" => docs(ctx, &ALL, 100, REJECT),
        "C15" => faults(ctx),
        "C16" => {
            let (a, b) = layouts(&mut ctx.rng);
            ctx.count("large_cases", 1);
            ctx.note("large layout", &format!("{} bytes", b.len()));
            ctx.nontrivial(&b);
            let (x, y) = (load_str(ctx, &a)?, load_str(ctx, &b)?);
            super::lang::same_outcome(ctx, x, y)
        }
        "C17" => equality(ctx),
        "C18" => views(ctx),
        "C19" => {
            if ctx.rng.bool() {
                files(ctx)
            } else {
                docs(ctx, &[Shared], 0, Dirs { accept: true, reject: false, sharing: true })
            }
        }
        "C24" => docs(ctx, &[Siblings], 0, BOTH),
        "C21" => super::mem::history(ctx),
        "C22" => super::mem::c22(ctx),
        "C23" => super::io::large_write(ctx),
        "C25" => names(ctx),
        "C26" => changing(ctx),
        _ => Ok(()),
    }
}

/// C15: where the fault in a large document is.
fn faults(ctx: &mut Ctx) -> Result<(), String> {
    let fam = *ctx.rng.pick(&ALL);
    let t = text(&mut ctx.rng, fam, true);
    ctx.note("large document", &format!("{:?}, {} bytes", fam, t.len()));
    ctx.nontrivial(&t);
    let p = ctx.dir.join("large.over");
    let from_file = ctx.rng.pct(40);
    write(&p, t.as_bytes());
    let (seen, _) = agree(ctx, if from_file { Src::File(p.to_str().unwrap()) } else { Src::Str(&t) }, ACCEPT)?;
    if let Seen::Rejected(f, msg) = seen {
        ctx.count("large_cases", 1);
        let col = if f.kind == "end" { None } else { Some(f.col) };
        super::err::judge(&msg, if from_file { Some(&p) } else { None }, f.line, col, &[])
            .map_err(|e| format!("{:?} of {} bytes, {} fault: {}", fam, t.len(), f.kind, e))?;
    }
    Ok(())
}

/// C26: large documents loaded again and again, unchanged and changed, as text, file and include.
fn changing(ctx: &mut Ctx) -> Result<(), String> {
    let root = fresh_dir(ctx, "changing");
    let fam = *ctx.rng.pick(&[Arr, Tup, Fields, Globals, Literal, Concat, Index, Names, Blank, Records]);
    let bad = ctx.rng.pct(20);
    let first = text(&mut ctx.rng, fam, bad);
    // The same length, another value somewhere, mostly near the end.
    let mut texts = vec![first];
    for _ in 0..ctx.rng.range(1, 3) {
        let mut b = texts[0].clone().into_bytes();
        let at: Vec<usize> = b.iter().enumerate().filter(|(_, c)| c.is_ascii_digit()).map(|(i, _)| i).collect();
        if at.is_empty() {
            break;
        }
        let k = at[late(&mut ctx.rng, at.len())];
        b[k] = b'1' + ctx.rng.below(9) as u8;
        texts.push(String::from_utf8(b).unwrap_or_default());
    }
    if ctx.rng.pct(20) {
        let t = format!("{} zz: 1", texts[0]);
        texts.push(t);
    }
    ctx.note("large document", &format!("{:?}, {} bytes, {} versions", fam, texts[0].len(), texts.len()));
    ctx.count("large_cases", 1);
    ctx.nontrivial(&texts[texts.len() - 1]);
    let (p, main) = (root.join("large.over"), root.join("main.over"));
    write(&main, b"a: <\"large.over\"> b: <Str \"large.over\">");
    for step in 0..ctx.rng.range(3, 7) {
        let k = ctx.rng.below(texts.len());
        let how = ctx.rng.below(4);
        let keep = ctx.rng.pct(70);
        super::includes::change(&p, &texts[k], keep);
        let seen = match how {
            0 => agree(ctx, Src::Str(&texts[k]), BOTH),
            1 => agree(ctx, Src::File(p.to_str().unwrap()), BOTH),
            2 => agree(ctx, Src::File(main.to_str().unwrap()), BOTH),
            _ => super::includes::in_dir(&root, || agree(ctx, Src::File("large.over"), BOTH)),
        };
        seen.map_err(|e| format!("step {}, version {}, way {}: {}", step, k, how, e))?;
        ctx.count("large_loads", 1);
    }
    Ok(())
}
