//! Documents against the model of the language: C02, C03, C04, C07, C08, C09, C16.

use super::util::*;
use crate::bridge::{self, VGen};
use crate::gen::{self, Layout, Prof};
use crate::model::{self, MTy, MV};
use crate::sup::{guard, Ctx, PropDef};
use num_bigint::BigInt;
use num_rational::BigRational;
use std::rc::Rc;

const MODEL: &str = "the model in harness/src/model.rs reads the language as README.md lays it down";

pub static C02: PropDef = PropDef {
    id: "C02",
    run: c02,
    quick: 297_000,
    thorough: 3_960_000,
    level: "exploration",
    rule: "documents generated from a grammar with tracked shapes (all value kinds, operators, references, \
           parents, globals; three layouts) and edited variants of them, loaded from strings and files and compared \
           node by node with the model; some of large sizes; non-trivial: valid with at least 5 values, counted by distinct text",
    must: &["large_cases", "accepted", "values_compared", "dot", "binary_op", "parent", "global_ref", "plain_ref"],
    assumptions: &[MODEL],
};

fn c02(ctx: &mut Ctx) -> Result<(), String> {
    let prof = vary(ctx, Prof::std());
    let toks = document(ctx, prof);
    let l = gen::layout(&mut ctx.rng);
    let mut text = gen::render(&mut ctx.rng, &toks, l).text;
    if ctx.rng.pct(25) {
        text = super::err::edit(&mut ctx.rng, &text);
    }
    let seen = check_text(ctx, &text, ACCEPT)?;
    if let Seen::Same(_, m) = seen {
        if model::tree_size(&m) >= 5 {
            ctx.nontrivial(&text);
            ctx.sample(|| text.clone());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

pub static C03: PropDef = PropDef {
    id: "C03",
    run: c03,
    quick: 216_000,
    thorough: 1_440_000,
    level: "exploration",
    rule: "documents defining variables of every type and expressions over literals and variables: chains of up to \
           200 operands, signs, magnitudes up to thousands of digits and around the bounds of machine words; every ordered pair of operand types with every \
           operator and every unary sign, in every context; model: exact rational arithmetic by cross-multiplication; \
           some of large sizes; non-trivial: at least two operators, or a rejected type combination, counted by distinct text",
    must: &["large_cases", "accepted", "rejected", "binary_op", "unary_op", "type_pairs", "long_chains", "word_bounds"],
    assumptions: &[MODEL, "num-bigint's integer operations are exact"],
};

const OPERANDS: [(&str, &str); 32] = [
    ("null", "null"),
    ("bool", "true"),
    ("int", "6"),
    ("int", "vi"),
    ("int", "0"),
    ("frac", "1.5"),
    ("frac", "@vf"),
    ("frac", "0.0"),
    ("str", "\"s\""),
    ("str", "vs"),
    ("arr", "[1 2]"),
    ("arr", "va"),
    ("arr", "[\"x\"]"),
    ("arr", "[]"),
    ("arr", "[[]]"),
    ("tup", "(1 2)"),
    ("tup", "vt"),
    ("obj", "{}"),
    ("obj", "vo"),
    ("bool", "false"),
    ("null", "@gn"),
    ("str", "\"\""),
    ("str", "\"-1\""),
    ("int", "1"),
    ("int", "36893488147419103232"),
    ("frac", "2.0"),
    ("frac", "1.0"),
    ("arr", "[1.5]"),
    ("arr", "[\"\"]"),
    ("arr", "[()]"),
    ("tup", "()"),
    ("tup", "(1)"),
];

const PRELUDE: &str = "vi: -7 @vf: 22/7 vs: \"str\" va: [3 4] vt: (1 \"a\") vo: {x: 1 y: 1/2} @gi: 12 n: -3 @gn: null\n";

fn c03(ctx: &mut Ctx) -> Result<(), String> {
    let ops = ['+', '-', '*', '/', '%'];
    let pairs = OPERANDS.len() * OPERANDS.len() * ops.len();
    let k = ctx.idx as usize;
    if k < pairs {
        // Every pair of operands with every operator, alone and inside a chain.
        let (a, rest) = (k % OPERANDS.len(), k / OPERANDS.len());
        let (b, o) = (rest % OPERANDS.len(), rest / OPERANDS.len());
        let e = format!("{}{}{}", OPERANDS[a].1, ops[o], OPERANDS[b].1);
        ctx.count("type_pairs", 1);
        for ctxt in ["r: E", "r: {q: (E)}", "r: 1+E", "r: E+1", "r: E*2", "r: [E]", "@r: E q: @r"] {
            // Inside an object only literals and globals are visible.
            let e = if ctxt.contains("{q") { e.replace("vi", "1_0").replace("vs", "\"t\"").replace("va", "[5]").replace("vt", "(2)").replace("vo", "{}") } else { e.clone() };
            let text = format!("{}{}", PRELUDE, ctxt.replace('E', &e));
            check_text(ctx, &text, BOTH)?;
            ctx.nontrivial(&text);
        }
        return Ok(());
    }
    if k < pairs + OPERANDS.len() * 6 {
        let j = k - pairs;
        let (a, s) = (j % OPERANDS.len(), j / OPERANDS.len());
        let e = format!("{}{}", ["-", "+", "--", "+-", "2*-", "1/+"][s], OPERANDS[a].1);
        for ctxt in ["r: E", "r: (E E)", "r: [E]", "@r: E", "r: {q: 1} s: E t: 1", "r: 1+E", "r: \"\"+E"] {
            let text = format!("{}{}", PRELUDE, ctxt.replace('E', &e));
            ctx.nontrivial(&text);
            check_text(ctx, &text, BOTH)?;
        }
        return Ok(());
    }
    let mut text = String::from(PRELUDE);
    let n = ctx.rng.range(1, 4);
    let mut operators = 0;
    let mut names: Vec<(String, bool)> = vec![];
    for i in 0..n {
        let e = expression(ctx, &names, &mut operators);
        let name = format!("r{}", i);
        match ctx.rng.below(5) {
            0 => text.push_str(&format!("{}: ({} {})\n", name, e, e)),
            1 => text.push_str(&format!("{}: [{}]\n", name, e)),
            _ => {
                text.push_str(&format!("{}: {}\n", name, e));
                names.push((name, false));
            }
        }
    }
    check_text(ctx, &text, BOTH)?;
    if operators >= 2 {
        ctx.nontrivial(&text);
        ctx.sample(|| text.clone());
    }
    Ok(())
}

fn expression(ctx: &mut Ctx, names: &[(String, bool)], operators: &mut usize) -> String {
    if ctx.rng.pct(6) {
        // Strings and arrays.
        let strs = ["\"s\"", "vs", "\"\"", "\"a\\n\"", "\"+\""];
        let arrs = ["va", "[1]", "[]", "[-1 2*3]", "va+[0]"];
        let k = ctx.rng.range(2, 6);
        *operators += k;
        let set = if ctx.rng.bool() { &strs } else { &arrs };
        let v: Vec<&str> = (0..k).map(|_| *ctx.rng.pick(&set[..])).collect();
        let mut e = v.join("+");
        if ctx.rng.pct(10) {
            // A sign is not for these.
            let at = ctx.rng.below(e.split('+').count());
            let (sign, mut parts) = (*ctx.rng.pick(&["+", "-"]), e.split('+').map(String::from).collect::<Vec<_>>());
            parts[at].insert_str(0, sign);
            e = parts.join("+");
        }
        return e;
    }
    if ctx.rng.pct(12) {
        return boundary(ctx, operators);
    }
    let style = ctx.rng.below(10);
    let k = if ctx.rng.pct(6) {
        ctx.count("long_chains", 1);
        ctx.rng.range(20, 200)
    } else {
        ctx.rng.range(1, 8)
    };
    let mut s = String::new();
    for i in 0..k {
        if i > 0 {
            *operators += 1;
            let op = match style {
                0..=1 => *ctx.rng.pick(&['+', '-']),
                2 => *ctx.rng.pick(&['*', '%']),
                3 => *ctx.rng.pick(&['*', '/']),
                4 => *ctx.rng.pick(&['+', '-', '*', '%']),
                _ => *ctx.rng.pick(&['+', '-', '*', '/', '%', '+', '-', '*', '/']),
            };
            s.push(op);
        }
        let huge = ctx.rng.pct(3);
        for _ in 0..*ctx.rng.pick(&[0usize, 0, 0, 0, 1, 1, 2, 3]) {
            s.push(if ctx.rng.pct(70) { '-' } else { '+' });
        }
        let ints_only = style == 2 || style == 4;
        let t = match ctx.rng.below(12) {
            0 => "vi".into(),
            1 => "@gi".into(),
            2 if !ints_only => "@vf".into(),
            3 => "vo.x".into(),
            4 if !ints_only => "vo.y".into(),
            5 => "va.1".into(),
            6 if !names.is_empty() => names[ctx.rng.below(names.len())].0.clone(),
            7 if !ints_only => gen::decimal_literal(&mut ctx.rng, if huge { 100 } else { 5 }),
            8 => "n".into(),
            _ if huge => {
                let n = ctx.rng.range(50, 2500);
                format!("1{}", gen::digits(&mut ctx.rng, n))
            }
            _ if ctx.rng.pct(40) => gen::int_literal(&mut ctx.rng, 5),
            _ => ctx.rng.below(12).to_string(),
        };
        s.push_str(&t);
    }
    s
}

/// Operands at and around the bounds of machine words.
fn boundary(ctx: &mut Ctx, operators: &mut usize) -> String {
    ctx.count("word_bounds", 1);
    let bits = *ctx.rng.pick(&[8usize, 16, 31, 32, 53, 62, 63, 63, 63, 64, 64, 127, 128]);
    let k = ctx.rng.range(2, 4);
    *operators += k;
    let mut s = String::new();
    for i in 0..k {
        if i > 0 {
            s.push(*ctx.rng.pick(&['+', '-', '*', '/', '%', '+', '-', '*']));
        }
        if ctx.rng.pct(35) {
            s.push('-');
        }
        let b = BigInt::from(1) << bits;
        let d = ctx.rng.below(5) as i64 - 2;
        let t = match ctx.rng.below(8) {
            0 | 1 => b + d,
            2 => b - 1,
            3 => b / 2 + d,
            4 => b * 2 + d,
            5 => BigInt::from(d.abs()),
            6 => BigInt::from(ctx.rng.below(1000)),
            _ => BigInt::from(1) << (bits / 2),
        };
        s.push_str(&t.to_string().replace('-', ""));
        if ctx.rng.pct(8) {
            s.push_str(*ctx.rng.pick(&[".0", ".5", ".", ".25"]));
        }
    }
    s
}

// ---------------------------------------------------------------- C04

pub static C04: PropDef = PropDef {
    id: "C04",
    run: c04,
    quick: 864_000,
    thorough: 8_640_000,
    level: "exploration",
    rule: "number literals of 1 to 6000 digits (a few of more than 65535) with underscores, leading and trailing zeros and both decimal marks, \
           malformed ones too; string literals for random contents over all of Unicode, escaped at random, up to \
           20000 characters (a few of up to 140000); every Unicode scalar value once after a backslash and once raw; each followed by every \
           kind of terminator; the expected value is the content the literal was made from; some of large sizes; non-trivial: distinct \
           literals longer than 2 characters",
    must: &["large_cases", "accepted", "rejected", "escapes_swept", "raw_swept", "long_numbers", "long_strings", "huge_literals"],
    assumptions: &[MODEL],
};

fn c04(ctx: &mut Ctx) -> Result<(), String> {
    // Sweep all scalar values in slices over the first 1088 cases.
    const SLICES: u64 = 1088;
    if ctx.idx < SLICES {
        let from = (ctx.idx * 1024) as u32;
        let mut raw = String::new();
        for u in from..from + 1024 {
            let c = match char::from_u32(u) {
                Some(c) => c,
                None => continue,
            };
            let text = format!("a: \"\\{}\"", c);
            let want = match c {
                '\\' => Some('\\'),
                '"' => Some('"'),
                '\'' => Some('\''),
                '$' => Some('$'),
                'n' => Some('\n'),
                'r' => Some('\r'),
                't' => Some('\t'),
                _ => None,
            };
            let got = load_str(ctx, &text)?;
            ctx.count("escapes_swept", 1);
            match (want, got) {
                (None, Err(_)) => (),
                (Some(w), Ok(o)) if o.get("a").map_or(false, |v| v == over::value::Value::Str(w.to_string())) => (),
                (w, g) => {
                    ctx.note("document", &text);
                    return Err(format!("escape of U+{:04X}: expected {:?}, got {}", u, w, g.map(|o| o.to_string()).unwrap_or_else(|e| e)));
                }
            }
            if c != '"' && c != '\\' {
                raw.push(c);
            }
        }
        if !raw.is_empty() {
            let text = format!("a: \"{}\"", raw);
            ctx.note("document", &text);
            ctx.count("raw_swept", raw.chars().count() as u64);
            ctx.nontrivial(&text);
            let o = load_str(ctx, &text)??;
            match o.get("a") {
                Some(over::value::Value::Str(s)) if s == raw => (),
                _ => return Err(format!("raw characters U+{:04X}.. are not kept", from)),
            }
        }
        return Ok(());
    }
    let huge = ctx.idx % 6_000 == SLICES + 1;
    if huge {
        ctx.count("huge_literals", 1);
    }
    let turn = (ctx.idx / 6_000) as usize;
    let rng = &mut ctx.rng;
    let (lit, want): (String, Option<MV>) = match if huge { 10 + turn % 3 } else { rng.below(10) } {
        10 => {
            // Past 65535 digits. Few of them are significant, as the arithmetic is slow.
            let n = if turn % 2 == 0 { rng.range(65_536, 66_500) } else { rng.range(65_500, 65_540) };
            let d = gen::digits(rng, 3);
            let d = format!("{}1", d);
            let den = num_traits::pow(BigInt::from(10), n + d.len());
            let v = BigRational::new(BigInt::parse_bytes(d.as_bytes(), 10).unwrap(), den);
            (format!("0.{}{}", "0".repeat(n), d), Some(MV::Frac(v)))
        }
        11 => {
            let n = if turn % 2 == 0 { rng.range(65_536, 66_500) } else { rng.range(65_500, 65_540) };
            let d = gen::digits(rng, n);
            let v = BigInt::parse_bytes(d.as_bytes(), 10).unwrap();
            (d, Some(MV::Int(v)))
        }
        12 => {
            let n = rng.range(65_000, 140_000);
            let s: String = (0..n).map(|_| gen::any_char(rng)).collect();
            (gen::string_literal(rng, &s), Some(MV::str(&s)))
        }
        0..=2 => {
            let n = match rng.below(20) {
                0..=12 => rng.range(1, 20),
                13..=17 => rng.range(20, 300),
                18 => rng.range(300, 2000),
                _ => rng.range(2000, 6000),
            };
            let d = match rng.below(5) {
                0 => format!("1{}", "0".repeat(n)),
                1 => "9".repeat(n),
                _ => gen::digits(rng, n),
            };
            let lit = decorate(rng, &d);
            let v = BigInt::parse_bytes(d.as_bytes(), 10).unwrap();
            signed(rng, lit, MV::Int(v))
        }
        3..=5 => {
            let (n, m) = match rng.below(12) {
                0..=8 => (rng.range(0, 12), rng.range(0, 25)),
                9..=10 => (rng.range(0, 60), rng.range(10, 200)),
                _ => (rng.range(0, 300), rng.range(100, 1500)),
            };
            let a = gen::digits(rng, n);
            let mut b = match rng.below(4) {
                0 => "0".repeat(m),
                1 => format!("{}{}", "0".repeat(m), rng.below(10)),
                _ => gen::digits(rng, m),
            };
            if rng.pct(25) {
                b.push_str(&"0".repeat(rng.range(1, 40)));
            }
            if a.is_empty() && b.is_empty() {
                b.push('0');
            }
            let num = BigInt::parse_bytes(format!("{}{}", a, b).as_bytes(), 10).unwrap();
            let den = num_traits::pow(BigInt::from(10), b.len());
            let v = MV::Frac(BigRational::new(num, den));
            let lit = format!("{}{}{}", decorate(rng, &a), if rng.pct(20) { ',' } else { '.' }, decorate(rng, &b));
            signed(rng, lit, v)
        }
        6 => {
            // Malformed or borderline numbers: the model decides.
            let base: Vec<char> = gen::decimal_literal(rng, 5).chars().collect();
            let mut s: String = base.iter().collect();
            for _ in 0..rng.range(1, 2) {
                let mut v: Vec<char> = s.chars().collect();
                let at = rng.below(v.len() + 1);
                let c = *rng.pick(&['.', ',', '_', '_', 'e', 'x', 'a', '0', '"', '(', '٣', '@', '\'', ':', 'é', '½']);
                v.insert(at, c);
                s = v.into_iter().collect();
            }
            (s, None)
        }
        _ => {
            let s = if rng.pct(3) {
                let n = rng.range(3000, 20_000);
                (0..n).map(|_| gen::any_char(rng)).collect()
            } else {
                gen::string_content(rng, 40)
            };
            (gen::string_literal(rng, &s), Some(MV::str(&s)))
        }
    };
    let frames: [(&str, &str); 12] = [
        ("a: ", ""),
        ("a: ", " "),
        ("a: ", "\n"),
        ("a: ", "#c"),
        ("a:", "\r\n"),
        ("a: [", "]"),
        ("a: (", ")"),
        ("a: (", " 1)"),
        ("a: {b: ", "}"),
        ("@a: ", " a: (@a)"),
        ("a: (", "\u{3000})"),
        ("a: (\"\\\\\" ", "# \" \\\n)"),
    ];
    let (pre, post) = frames[rng.below(frames.len())];
    let text = format!("{}{}{}", pre, lit, post);
    if lit.len() > 2 {
        ctx.nontrivial(&text);
    }
    if lit.len() > 500 {
        ctx.count(if lit.starts_with('"') { "long_strings" } else { "long_numbers" }, 1);
    }
    ctx.sample(|| text.clone());
    let seen = check_text(ctx, &text, BOTH)?;
    if let Some(want) = want {
        // The value is known by construction as well.
        let o = match seen {
            Seen::Same(o, _) => o,
            // Too big for the model, but the value is known.
            Seen::Open => load_str(ctx, &text)??,
            _ => return Err("a valid literal was rejected".into()),
        };
        guard(|| {
            let mut v = o.get("a").ok_or("field a is missing")?;
            let inner = pre.contains('[') || pre.contains('(') || post.contains('(');
            if inner {
                let i = if pre.contains('\\') { 1 } else { 0 };
                v = match &v {
                    over::value::Value::Arr(a) => a.get(i).map_err(|e| e.to_string())?,
                    over::value::Value::Tup(a) => a.get(i).map_err(|e| e.to_string())?,
                    _ => return Err("not a container".to_string()),
                };
            } else if pre.contains('{') {
                v = v.get_obj().map_err(|e| e.to_string())?.get("b").ok_or("field b is missing")?;
            }
            bridge::same_val(&v, &want)
        })??;
        ctx.count("by_construction", 1);
    }
    Ok(())
}

fn decorate(rng: &mut crate::rng::Rng, d: &str) -> String {
    let mut out = String::new();
    let zeros = if d.is_empty() || !rng.pct(15) { 0 } else { 0 };
    let _ = zeros;
    let p = *rng.pick(&[0u32, 0, 0, 20, 60, 100]);
    for (i, c) in d.chars().enumerate() {
        if i > 0 && rng.pct(p) {
            out.push('_');
        }
        out.push(c);
    }
    out
}

fn signed(rng: &mut crate::rng::Rng, lit: String, v: MV) -> (String, Option<MV>) {
    let zeros = if lit.starts_with(|c: char| c.is_ascii_digit()) && rng.pct(15) { "0".repeat(rng.range(1, 30)) } else { String::new() };
    let (sign, neg) = *rng.pick(&[("", false), ("", false), ("-", true), ("+", false), ("--", false), ("-+", true)]);
    let v = match v {
        MV::Int(i) if neg => MV::Int(-i),
        MV::Frac(f) if neg => MV::Frac(-f),
        v => v,
    };
    (format!("{}{}{}", sign, zeros, lit), Some(v))
}

// ---------------------------------------------------------------- C07

pub static C07: PropDef = PropDef {
    id: "C07",
    run: c07,
    quick: 2_400_000,
    thorough: 24_000_000,
    level: "exploration",
    rule: "documents of nested objects, arrays and tuples over three names (also near-equal ones) and three globals with values that \
           identify their definition, references to names that are visible, later, enclosing, inner, sibling, \
           inherited or in another file, and redefinitions; objects of up to 300 names; the model resolves; some of large sizes; non-trivial: distinct documents with \
           a resolved reference or rejected for a name",
    must: &["large_cases", "accepted", "rejected", "plain_ref", "global_ref", "bad_refs", "redefinitions", "include", "wide"],
    assumptions: &[MODEL],
};

struct Scopes {
    text: String,
    next: i64,
    globals: Vec<Vec<String>>,
    fields: Vec<Vec<String>>,
    spoil: i32,
    files: Vec<(String, String)>,
    kinds: Vec<&'static str>,
    left: i32,
    names: Vec<&'static str>,
    /// How deep the document may nest.
    deep: usize,
}

/// An object with many names, and one mention or definition that depends on a far one.
fn wide(ctx: &mut Ctx) -> Result<(), String> {
    let n = *ctx.rng.pick(&[9usize, 17, 33, 40, 65, 100, 130, 257, 300]);
    let stem = *ctx.rng.pick(&["f", "field_", "é", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "_", "a_1_"]);
    let mut fields: Vec<String> = vec![];
    let mut globals: Vec<String> = vec![];
    let mut parent = false;
    let mut body = String::new();
    let at = if ctx.rng.pct(70) { n } else { ctx.rng.below(n) };
    for i in 0..=n {
        body.push(if ctx.rng.pct(10) { '\n' } else { ' ' });
        if i == at {
            let have = |v: &Vec<String>, r: &mut crate::rng::Rng| -> String {
                // An early one, a late one, or any.
                match r.below(4) {
                    _ if v.is_empty() => "zz".into(),
                    0 => v[0].clone(),
                    1 => v[v.len() - 1].clone(),
                    2 => v[r.below(v.len().min(8))].clone(),
                    _ => v[r.below(v.len())].clone(),
                }
            };
            let f = have(&fields, &mut ctx.rng);
            let g = have(&globals, &mut ctx.rng);
            let x = match ctx.rng.below(12) {
                0..=2 => format!("{}: 0", f),
                3 | 4 => format!("@{}: 0", g),
                5 => format!("{}: @{}", f, g),
                6 => format!("zz1: {}", f),
                7 => format!("zz1: @{}", g),
                8 => format!("zz1: {{ x: {} }}", f),
                9 => format!("zz1: [@{} @{}]", g, g),
                10 => format!("zz1: {}_", f),
                _ => format!("zz1: @{}_ zz2: 1", g),
            };
            body.push_str(&x);
            continue;
        }
        if !parent && ctx.rng.pct(2) {
            parent = true;
            body.push_str("^: {p: 1}");
            continue;
        }
        let name = format!("{}{}", stem, i);
        if ctx.rng.pct(30) {
            body.push_str(&format!("@{}: {}", name, i));
            globals.push(name);
        } else {
            body.push_str(&format!("{}: {}", name, i));
            fields.push(name);
        }
    }
    if parent && ctx.rng.pct(40) {
        body.push_str(" ^: {p: 2}");
    }
    let text = match ctx.rng.below(3) {
        0 => format!("o: {{{}}}", body),
        1 => format!("l: [{{{}}}]", body),
        _ => body,
    };
    ctx.count("wide", 1);
    ctx.nontrivial(&text);
    check_text(ctx, &text, BOTH)?;
    Ok(())
}

fn c07(ctx: &mut Ctx) -> Result<(), String> {
    if ctx.rng.pct(2) {
        return wide(ctx);
    }
    let dir = fresh_dir(ctx, "c07");
    let spoil = if ctx.rng.pct(45) { ctx.rng.range(1, 15) as i32 } else { -1 };
    let mut s = Scopes {
        text: String::new(),
        next: 1,
        globals: vec![vec![]],
        fields: vec![vec![]],
        spoil,
        files: vec![],
        kinds: vec![],
        left: 40,
        names: ctx.rng.pick(&NMS).to_vec(),
        deep: if ctx.rng.pct(12) { ctx.rng.range(5, 24) } else { 4 },
    };
    if ctx.rng.pct(20) {
        s.names.extend_from_slice(&["p", "q", "r", "s", "t", "u"]);
    }
    scope_fields(ctx, &mut s, 0);
    for (n, t) in &s.files {
        write(&dir.join(n), t.as_bytes());
        ctx.note(&format!("file {}", n), t);
    }
    let text = s.text.replace("$DIR", dir.to_str().unwrap());
    ctx.note("document", &text);
    for k in &s.kinds {
        ctx.count(k, 1);
    }
    let (seen, _) = if s.files.is_empty() && ctx.rng.pct(80) {
        agree(ctx, Src::Str(&text), BOTH)?
    } else {
        let p = dir.join("main.over");
        write(&p, text.as_bytes());
        agree(ctx, Src::File(p.to_str().unwrap()), BOTH)?
    };
    match seen {
        Seen::Same(..) | Seen::Rejected(..) => {
            ctx.nontrivial(&text);
            ctx.sample(|| text.clone());
        }
        _ => (),
    }
    Ok(())
}

/// Names of one document, also ones easily mistaken for each other.
const NMS: [[&str; 3]; 12] = [
    ["a", "b", "c"],
    ["a", "b", "c"],
    ["a", "b", "c"],
    ["a", "A", "a_"],
    ["é", "É", "e"],
    ["x", "x1", "x11"],
    ["_", "__", "_1"],
    ["k", "K", "\u{212a}"],
    ["ab", "a", "b"],
    ["ﬁ", "fi", "f"],
    ["a", "а", "ａ"],
    ["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"],
];

fn scope_fields(ctx: &mut Ctx, s: &mut Scopes, depth: usize) {
    let n = ctx.rng.range(if depth == 0 { 3 } else { 0 }, 6);
    let mut had_parent = false;
    for _ in 0..n {
        s.spoil -= 1;
        let spoil = s.spoil == 0;
        let redefine = spoil && ctx.rng.pct(50);
        if redefine {
            s.kinds.push("redefinitions");
        }
        if ctx.rng.pct(30) {
            // A global.
            let have = s.globals.last().unwrap().clone();
            let g = ctx.rng.pick(&s.names).to_string();
            if have.contains(&g) != redefine {
                continue;
            }
            s.text.push_str(&format!("@{}: ", g));
            // Visible only after its value, which may itself define globals.
            scope_value(ctx, s, depth);
            if !s.globals.last().unwrap().contains(&g) {
                s.globals.last_mut().unwrap().push(g);
            }
        } else if ctx.rng.pct(if redefine && had_parent { 60 } else { 12 }) && (!had_parent || redefine) {
            had_parent = true;
            s.text.push_str("^: ");
            scope_object(ctx, s, depth + 1);
        } else {
            let have = s.fields.last().unwrap().clone();
            let f = ctx.rng.pick(&s.names).to_string();
            if have.contains(&f) != redefine {
                continue;
            }
            s.text.push_str(&format!("{}: ", f));
            scope_value(ctx, s, depth);
            s.fields.last_mut().unwrap().push(f);
        }
        s.text.push(if ctx.rng.bool() { '\n' } else { ' ' });
    }
}

fn scope_object(ctx: &mut Ctx, s: &mut Scopes, depth: usize) {
    s.text.push('{');
    s.fields.push(vec![]);
    if depth < s.deep && s.left > 0 {
        scope_fields(ctx, s, depth);
    }
    s.fields.pop();
    s.text.push('}');
}

fn scope_value(ctx: &mut Ctx, s: &mut Scopes, depth: usize) {
    s.left -= 1;
    s.spoil -= 1;
    if s.spoil == 0 {
        // A name that is not visible here.
        s.kinds.push("bad_refs");
        let bad: Vec<String> = if ctx.rng.bool() {
            s.names.iter().filter(|n| !s.fields.last().unwrap().contains(&n.to_string())).map(|n| n.to_string()).collect()
        } else {
            s.names.iter().filter(|n| !s.globals.last().unwrap().contains(&n.to_string())).map(|n| format!("@{}", n)).collect()
        };
        let bad = if bad.is_empty() { "zz".to_string() } else { ctx.rng.pick(&bad).clone() };
        let frame = ctx.rng.pick(&["E", "(E)", "[E]", "1+E", "(1 (E))", "E.x", "-E"]).to_string();
        s.text.push_str(&frame.replace('E', &bad));
        return;
    }
    // Documents that nest deeply do so by few values.
    let inner = s.deep > 4 && depth < s.deep && s.left > 0 && ctx.rng.pct(60);
    match if inner { 6 + ctx.rng.below(4) } else { ctx.rng.below(if depth >= s.deep || s.left <= 0 { 6 } else { 10 }) } {
        0 | 1 => {
            if ctx.rng.pct(15) {
                s.text.push_str(*ctx.rng.pick(&["null", "true", "false", "\"\"", "0", "[]", "()", "{}", "null"]));
            } else {
                s.text.push_str(&s.next.to_string());
                s.next += 1;
            }
        }
        2 | 3 => match s.fields.last().unwrap().clone() {
            v if v.is_empty() => s.text.push_str("null"),
            v => s.text.push_str(&ctx.rng.pick(&v).clone()),
        },
        4 | 5 => match s.globals.last().unwrap().clone() {
            v if v.is_empty() => s.text.push_str("true"),
            v => s.text.push_str(&format!("@{}", ctx.rng.pick(&v))),
        },
        6 => {
            s.text.push('(');
            let most = if s.deep > 4 { 3 } else { 4 };
            for i in 0..ctx.rng.below(most) {
                if i > 0 {
                    s.text.push(' ');
                }
                scope_value(ctx, s, depth + 1);
            }
            s.text.push(')');
        }
        7 if s.files.len() < 3 => {
            // Another file has its own globals and fields.
            let name = format!("f{}.over", s.files.len());
            s.files.push((name.clone(), String::new()));
            let at = s.files.len() - 1;
            let outer = std::mem::take(&mut s.text);
            s.globals.push(vec![]);
            s.fields.push(vec![]);
            let kw = if ctx.rng.pct(70) {
                scope_fields(ctx, s, depth + 1);
                ""
            } else if ctx.rng.bool() {
                for _ in 0..ctx.rng.below(4) {
                    scope_value(ctx, s, depth + 1);
                    s.text.push(' ');
                }
                "Tup "
            } else {
                // One element of any type, wrapped so that more can stand next to it.
                for _ in 0..ctx.rng.below(3) {
                    s.text.push('{');
                    s.text.push_str("x:");
                    s.fields.push(vec!["x".into()]);
                    scope_value(ctx, s, depth + 1);
                    s.fields.pop();
                    s.text.push_str("} ");
                }
                if s.text.is_empty() {
                    scope_value(ctx, s, depth + 1);
                }
                "Arr "
            };
            s.fields.pop();
            s.globals.pop();
            s.files[at].1 = std::mem::replace(&mut s.text, outer);
            s.text.push_str(&format!("<{}\"{}\">", kw, name));
        }
        8 => {
            s.text.push('[');
            scope_value(ctx, s, depth + 1);
            s.text.push(']');
        }
        _ => scope_object(ctx, s, depth + 1),
    }
}

// ---------------------------------------------------------------- C08

pub static C08: PropDef = PropDef {
    id: "C08",
    run: c08,
    quick: 1_008_000,
    thorough: 6_720_000,
    level: "exploration",
    rule: "objects with parent chains of 0 to 60 levels (some up to 300), built through the API and loaded from documents (parents \
           given as globals, fields, literals, dotted names), every field name of the chain and absent ones looked up \
           through get, get_with_source, the typed getters and dot notation, and compared with a walk of the chain; \
           non-objects as parents; some of large sizes; non-trivial: distinct chains of length at least 2",
    must: &["large_cases", "lookups", "found_in_ancestor", "shadowed", "dot_lookups", "bad_parents", "absent", "long_chains"],
    assumptions: &[MODEL],
};

fn c08(ctx: &mut Ctx) -> Result<(), String> {
    let names = *ctx.rng.pick(&[
        ["a", "b", "c", "d", "e", "f1", "ñ"],
        ["a", "b", "c", "d", "e", "f1", "ñ"],
        ["a", "A", "a_", "aa", "_a", "á", "ａ"],
    ]);
    let len = match ctx.rng.below(100) {
        0..=79 => ctx.rng.range(1, 5),
        80..=89 => ctx.rng.range(5, 15),
        90..=98 => ctx.rng.range(15, 60),
        _ => {
            ctx.count("long_chains", 1);
            *ctx.rng.pick(&[62, 64, 65, 66, 67, 127, 129, 130, 255, 257, 258, 300, 513])
        }
    };
    // The chain, root first: each level gives some of the names a value that identifies it.
    let mut chain: Vec<Rc<model::MObj>> = vec![];
    let sparse = len >= 10 && ctx.rng.pct(60);
    let mut id = 0;
    for l in 0..len {
        let mut fields: Vec<(Rc<str>, MV)> = vec![];
        let mut ns: Vec<&str> = names.to_vec();
        ctx.rng.shuffle(&mut ns);
        let most = if ctx.rng.pct(10) { 8 } else { 4 };
        let mut k = ctx.rng.below(most);
        // Then most lookups go all the way up.
        if sparse && l > 0 && ctx.rng.pct(98) {
            k = 0;
        }
        for n in ns.iter().take(k) {
            id += 1;
            let v = match ctx.rng.below(8) {
                // Values that could be taken for none, or are the same on several levels.
                6 | 7 => match ctx.rng.below(10) {
                    0 | 1 => MV::Null,
                    2 => MV::Bool(ctx.rng.bool()),
                    3 => MV::int(0),
                    4 => MV::str(""),
                    5 => MV::arr(vec![]).unwrap(),
                    6 => MV::tup(vec![]),
                    7 => MV::obj(vec![], None),
                    8 => MV::Frac(BigRational::new(BigInt::from(0), BigInt::from(1))),
                    _ => MV::int(7),
                },
                0 => MV::str(&format!("v{}", id)),
                1 => MV::arr(vec![MV::int(id)]).unwrap(),
                2 => MV::tup(vec![MV::int(id), MV::Null]),
                3 => MV::obj(vec![(Rc::from("id"), MV::int(id))], None),
                4 => MV::Frac(BigRational::new(BigInt::from(id), BigInt::from(7))),
                _ => MV::int(id),
            };
            fields.push((Rc::from(*n), v));
        }
        let parent = if l == 0 { None } else { chain.last().cloned() };
        chain.push(Rc::new(model::MObj { fields, parent }));
    }
    let top = chain.last().unwrap().clone();
    let mut key = String::new();
    bridge::source_fields(&mut ctx.rng, &top, &mut key);

    // Through a document, with the levels as globals or fields.
    let mut text = String::new();
    let style = ctx.rng.below(4);
    let mut prev = String::new();
    for (l, o) in chain.iter().enumerate() {
        let body = model::MObj { fields: o.fields.clone(), parent: None };
        let mut s = String::new();
        bridge::source_fields(&mut ctx.rng, &body, &mut s);
        let par = if l == 0 { String::new() } else { format!("^: {}", prev) };
        let inner = if ctx.rng.bool() { format!("{} {}", par, s) } else { format!("{} {}", s, par) };
        let inner = inner.trim().to_string();
        match style {
            0 => {
                text.push_str(&format!("@o{}: {{{}}}\n", l, inner));
                prev = format!("@o{}", l);
            }
            1 => {
                // A dotted name of an object kept in a global.
                text.push_str(&format!("@w{}: {{in: {{{}}}}}\n", l, inner));
                prev = format!("@w{}.in", l);
            }
            2 if len < 40 => prev = format!("{{{}}}", inner),
            _ => {
                text.push_str(&format!("@t{}: ({{{}}})\n", l, inner));
                prev = format!("@t{}.0", l);
            }
        }
    }
    text.push_str(&format!("o: {}\n", prev));
    let base = text.clone();
    for n in names.iter() {
        if top.lookup(n).is_some() {
            text.push_str(&format!("r_{}: o.{}\n", n, n));
            ctx.count("dot_lookups", 1);
        }
    }
    ctx.note("document", &text);
    let (seen, _) = agree(ctx, Src::Str(&text), BOTH)?;
    let o = match seen {
        Seen::Same(o, _) => o,
        Seen::Open => return Ok(()),
        _ => return Err("a valid document was rejected".into()),
    };
    if len >= 2 {
        ctx.nontrivial(&text);
        ctx.sample(|| text.clone());
    }
    // A name nobody defines.
    for n in names.iter().chain(&["zz", "in", "^", "", "parent"]) {
        if top.lookup(n).is_none() {
            if model::is_name(n) && ctx.rng.pct(50) {
                let t = format!("{}r: o.{}\n", base, n);
                ctx.note("document", &t);
                if load_str(ctx, &t)?.is_ok() {
                    return Err(format!("o.{} was accepted though no object of the chain has {}", n, n));
                }
            }
            ctx.count("absent", 1);
        }
    }
    // A parent that is not an object.
    if ctx.rng.pct(40) {
        let bad = *ctx.rng.pick(&["1", "null", "\"s\"", "[{}]", "({})", "true", "1.5", "[]", "@o0.a+1"]);
        let t = format!("o: {{ a: 1 ^: {} }}", bad);
        ctx.note("document", &t);
        ctx.count("bad_parents", 1);
        if load_str(ctx, &t)?.is_ok() {
            return Err(format!("parent {} was accepted", bad));
        }
        let t = format!("a: 1\n^: {}\n", bad);
        if load_str(ctx, &t)?.is_ok() {
            return Err(format!("parent {} was accepted at the top level", bad));
        }
    }
    // Through the API, on the loaded object and on one built by hand.
    let mut b = bridge::Build::default();
    let built = guard(|| b.obj(&top))??;
    let loaded = guard(|| o.get("o").and_then(|v| v.get_obj().ok()))?.ok_or("field o is missing")?;
    for (what, obj) in [("built", built), ("loaded", loaded)] {
        lookups(ctx, &obj, &top, &names, what)?;
    }
    Ok(())
}

fn lookups(ctx: &mut Ctx, obj: &over::Obj, m: &Rc<model::MObj>, names: &[&str], what: &str) -> Result<(), String> {
    use over::ReferenceType;
    // The instances of the chain, nearest first.
    let mut inst: Vec<(over::Obj, Rc<model::MObj>)> = vec![(obj.clone(), m.clone())];
    loop {
        let (o, m) = inst.last().unwrap().clone();
        match (guard(|| o.get_parent())?, &m.parent) {
            (Some(p), Some(q)) => {
                if !guard(|| o.has_parent())? {
                    return Err(format!("{}: has_parent is false though there is one", what));
                }
                inst.push((p, q.clone()))
            }
            (None, None) => {
                if guard(|| o.has_parent())? {
                    return Err(format!("{}: has_parent is true though there is none", what));
                }
                break;
            }
            _ => return Err(format!("{}: wrong chain of parents", what)),
        }
    }
    for (i, (o, m)) in inst.iter().enumerate() {
        if i > 3 && i + 2 < inst.len() {
            continue;
        }
        for n in names.iter().chain(&["zz", "", "^"]) {
            ctx.count("lookups", 1);
            let at = inst[i..].iter().position(|(_, q)| q.own(n).is_some()).map(|k| k + i);
            let got = ctx.over(|| o.get(n))?;
            let src = ctx.over(|| o.get_with_source(n))?;
            match at {
                None => {
                    if got.is_some() || src.is_some() {
                        return Err(format!("{}: {:?} found though no object of the chain has it", what, n));
                    }
                    if guard(|| o.get_int(n).is_ok() || o.get_obj(n).is_ok() || o.get_str(n).is_ok())? {
                        return Err(format!("{}: typed getter found {:?}", what, n));
                    }
                }
                Some(k) => {
                    if k > i {
                        ctx.count("found_in_ancestor", 1);
                    }
                    if inst[k + 1..].iter().any(|(_, q)| q.own(n).is_some()) {
                        ctx.count("shadowed", 1);
                    }
                    let want = inst[k].1.own(n).unwrap();
                    let v = got.ok_or_else(|| format!("{}: {:?} not found", what, n))?;
                    guard(|| bridge::same_val(&v, want))?.map_err(|e| format!("{}: get({:?}): {}", what, n, e))?;
                    let (v, s) = src.ok_or_else(|| format!("{}: {:?} not found with source", what, n))?;
                    guard(|| bridge::same_val(&v, want))?.map_err(|e| format!("{}: get_with_source({:?}): {}", what, n, e))?;
                    if !s.ptr_eq(&inst[k].0) {
                        return Err(format!("{}: get_with_source({:?}) names the wrong object", what, n));
                    }
                    let typed = guard(|| match want {
                        MV::Int(x) => o.get_int(n).ok().map_or(false, |y| y == *x),
                        MV::Str(x) => o.get_str(n).ok().map_or(false, |y| *y == **x),
                        MV::Frac(x) => o.get_frac(n).ok().map_or(false, |y| y == *x),
                        MV::Arr(x) => o.get_arr(n).ok().map_or(false, |y| bridge::same_val(&y.into(), &MV::Arr(x.clone())).is_ok()),
                        MV::Tup(x) => o.get_tup(n).ok().map_or(false, |y| bridge::same_val(&y.into(), &MV::Tup(x.clone())).is_ok()),
                        MV::Obj(x) => o.get_obj(n).ok().map_or(false, |y| bridge::same_obj(&y, x).is_ok()),
                        _ => true,
                    })?;
                    if !typed {
                        return Err(format!("{}: typed getter for {:?} differs", what, n));
                    }
                }
            }
            let own = m.own(n).is_some();
            if guard(|| o.contains(n))? != own {
                return Err(format!("{}: contains({:?}) is {}", what, n, !own));
            }
        }
        let own: Vec<&str> = m.fields.iter().map(|f| &*f.0).collect();
        guard(|| {
            let mut seen = vec![];
            o.with_each(|n, _| seen.push(n.clone()));
            let it: Vec<String> = o.iter().map(|p| p.0.clone()).collect();
            if seen != own || it != own || o.len() != own.len() || o.is_empty() != own.is_empty() {
                return Err(format!("{}: own fields are {:?}, with_each {:?}, iter {:?}, len {}", what, own, seen, it, o.len()));
            }
            Ok(())
        })??;
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

pub static C09: PropDef = PropDef {
    id: "C09",
    run: c09,
    quick: 2_700_000,
    thorough: 18_000_000,
    level: "exploration",
    rule: "documents defining nested objects, arrays, tuples and index variables, then dotted references: every \
           field and index of them, indices at and beyond the ends, negative, fractional, huge and of every other \
           type, literal and through plain and global variables, absent fields, keywords as fields, and dots on \
           scalars; the model resolves; some of large sizes; non-trivial: distinct documents",
    must: &["large_cases", "accepted", "rejected", "dot", "valid_refs", "probes"],
    assumptions: &[MODEL],
};

fn c09(ctx: &mut Ctx) -> Result<(), String> {
    let mut text = String::from("i0: 0 i1: 1 i2: 2 i3: 3 neg: -1 half: 1/2 one: 1.0 big: 18446744073709551616 @g0: 0 @g1: 1 @g2: 2 @gn: -2 s: \"0\" t: true u: null\n");
    // Names of fields used for something else too.
    for f in ["a", "b", "c", "_", "foo"] {
        if ctx.rng.pct(12) {
            let at = if ctx.rng.bool() { "@" } else { "" };
            let v = *ctx.rng.pick(&["0", "1", "\"a\"", "\"b\"", "{a: 1}", "[1]", "null"]);
            text.push_str(&format!("{}{}: {} ", at, f, v));
        }
    }
    // Containers.
    let n = ctx.rng.range(1, 4);
    let mut bases: Vec<(String, MV)> = vec![];
    for k in 0..n {
        let mut g = VGen::new(&mut ctx.rng, 25, 0);
        g.depth = 4;
        g.p_share = 5;
        let want = match g.rng.below(4) {
            0 => MTy::arr(MTy::Any),
            1 => MTy::Tup(vec![MTy::Any; 3]),
            _ => MTy::Obj,
        };
        let v = g.val(&want, 1);
        let mut src = String::new();
        bridge::source(&mut ctx.rng, &v, &mut src);
        let name = if ctx.rng.bool() { format!("v{}", k) } else { format!("@v{}", k) };
        text.push_str(&format!("{}: {}\n", name, src));
        bases.push((name, v));
    }
    let refs = ctx.rng.range(1, 8);
    let probe = ctx.rng.pct(50);
    for k in 0..refs {
        let (name, v) = bases[ctx.rng.below(bases.len())].clone();
        let bad = probe && k == refs - 1;
        if bad {
            ctx.count("probes", 1);
        } else {
            ctx.count("valid_refs", 1);
        }
        let p = path(ctx, name, &v, bad);
        let frame = *ctx.rng.pick(&["E", "E", "E", "(E)", "[E]", "(E 1 E)", "{n: 1}"]);
        text.push_str(&format!("r{}: {}\n", k, frame.replace('E', &p)));
    }
    ctx.nontrivial(&text);
    ctx.sample(|| text.clone());
    check_text(ctx, &text, BOTH)?;
    Ok(())
}

fn path(ctx: &mut Ctx, base: String, v: &MV, bad: bool) -> String {
    let mut text = base;
    let mut cur = v.clone();
    let mut direct = true;
    let hops = ctx.rng.range(1, 5);
    for h in 0..hops {
        let last = h == hops - 1;
        match &cur {
            MV::Obj(o) => {
                let o = o.clone();
                if bad && (last || ctx.rng.pct(30)) {
                    let x = *ctx.rng.pick(&["nope", "0", "null", "@g0", "Str", "i0", "^", "true", "a b", "1x", ".a", "\"a\"", "-a"]);
                    // Or a global called like a field that is there.
                    match o.fields.is_empty() || ctx.rng.pct(70) {
                        true => text.push_str(&format!(".{}", x)),
                        false => {
                            let n = ctx.rng.below(o.fields.len());
                            text.push_str(&format!(".@{}", o.fields[n].0));
                        }
                    }
                    return text;
                }
                let mut all: Vec<(String, MV)> = vec![];
                let mut q = Some(o);
                while let Some(o) = q {
                    for (n, _) in &o.fields {
                        all.push((n.to_string(), MV::Null));
                    }
                    q = o.parent.clone();
                }
                if all.is_empty() {
                    return text;
                }
                let n = ctx.rng.pick(&all).0.clone();
                if let MV::Obj(o) = &cur {
                    let v = o.lookup(&n).unwrap().clone();
                    text.push_str(&format!(".{}", n));
                    cur = v;
                    direct = false;
                }
            }
            MV::Arr(_) | MV::Tup(_) => {
                let len = match &cur {
                    MV::Arr(a) => a.vals.len(),
                    MV::Tup(a) => a.vals.len(),
                    _ => 0,
                };
                if bad {
                    let x = match ctx.rng.below(8) {
                        0 => len.to_string(),
                        1 => (len + 1).to_string(),
                        2 => format!("{}", BigInt::from(1) << *ctx.rng.pick(&[31usize, 32, 63, 64, 65, 128])),
                        3 => format!("{}", (BigInt::from(1) << *ctx.rng.pick(&[32usize, 64])) + ctx.rng.below(len + 1)),
                        4 => ctx.rng.pick(&["neg", "@gn", "half", "one", "big", "s", "t", "u", "zz", "@zz"]).to_string(),
                        5 => ctx.rng.pick(&["0.0", "1.0", "-1", "+0", "0,0", ".0", "true", "null", "Str", "\"0\"", "[0]", "(0)", "^", "@", "0x"]).to_string(),
                        _ => ctx.rng.pick(&["0.a", "i0.a", "0.0.0", "99999999999999999999999999", "0_", "00", "i3", "@g2"]).to_string(),
                    };
                    text.push_str(&format!(".{}", x));
                    return text;
                }
                if len == 0 {
                    return text;
                }
                let i = ctx.rng.below(len);
                let t = match ctx.rng.below(4) {
                    0 if direct && i < 4 => format!("i{}", i),
                    1 if i < 3 => format!("@g{}", i),
                    2 => format!("00_{}", i),
                    _ => i.to_string(),
                };
                text.push_str(&format!(".{}", t));
                return text;
            }
            _ => {
                if bad {
                    text.push_str(*ctx.rng.pick(&[".a", ".0", ".@g0", ".i0", "..", "."]));
                }
                return text;
            }
        }
    }
    if bad {
        text.push_str(*ctx.rng.pick(&[".nope", ".99", ".", ".a.b"]));
    }
    text
}

// ---------------------------------------------------------------- C16

pub static C16: PropDef = PropDef {
    id: "C16",
    run: c16,
    quick: 540_000,
    thorough: 3_600_000,
    level: "exploration",
    rule: "the same token sequence (valid, or with a fault inserted) written with two layouts - minimal, ordinary and \
           wild ones of Unicode white space, CRLF and comments of any content - and the two loads compared with each \
           other; trees of includes, each file in two layouts; some of large sizes; non-trivial: pairs of texts that differ, counted by distinct pair",
    must: &["large_cases", "both_accepted", "both_rejected", "wild", "with_files"],
    assumptions: &["where the language requires white space is as the generator has it (README.md, Arithmetic)"],
};

fn c16(ctx: &mut Ctx) -> Result<(), String> {
    let mut prof = vary(ctx, Prof::std());
    prof.size = prof.size.min(100);
    prof.slots = ctx.rng.pct(40);
    if ctx.rng.pct(20) {
        return c16_files(ctx, prof);
    }
    let toks = if prof.slots {
        match super::err::faulty(ctx, prof, false) {
            Some(f) if f.layout_free => f.toks,
            _ => return Ok(()),
        }
    } else {
        document(ctx, prof)
    };
    let pair = *ctx.rng.pick(&[
        (Layout::Minimal, Layout::Wild),
        (Layout::Normal, Layout::Wild),
        (Layout::Minimal, Layout::Normal),
        (Layout::Wild, Layout::Wild),
    ]);
    let a = gen::render(&mut ctx.rng, &toks, pair.0).text;
    let mut b = gen::render(&mut ctx.rng, &toks, pair.1).text;
    // At the very end a comment needs no line break.
    if ctx.rng.pct(20) {
        b.push_str(*ctx.rng.pick(&[" # end", "\n#", " \u{3000}", "\r\n", "\n# } \" \\"]));
    }
    ctx.note("first layout", &a);
    ctx.note("second layout", &b);
    if pair.1 == Layout::Wild {
        ctx.count("wild", 1);
    }
    if a != b {
        ctx.nontrivial(&format!("{}\u{0}{}", a, b));
    }
    let x = load_str(ctx, &a)?;
    let y = load_str(ctx, &b)?;
    same_outcome(ctx, x, y)
}

/// The same with files, each of them in two layouts.
fn c16_files(ctx: &mut Ctx, mut prof: Prof) -> Result<(), String> {
    let root = fresh_dir(ctx, "l");
    prof.size = prof.size.min(40);
    prof.p_inc = *ctx.rng.pick(&[30, 60, 90]);
    prof.slots = false;
    // The text of a document is not free of its layout.
    prof.raw = false;
    let mut g = gen::Gen::new(&mut ctx.rng, prof);
    g.root = root.to_str().unwrap().to_string();
    let toks = g.document("");
    let (files, dirs) = (std::mem::take(&mut g.files), g.dirs.clone());
    drop(g);
    let pair = *ctx.rng.pick(&[(Layout::Minimal, Layout::Wild), (Layout::Normal, Layout::Wild), (Layout::Wild, Layout::Wild)]);
    let main = root.join("main.over");
    let mut got = vec![];
    let mut key = String::new();
    for l in [pair.0, pair.1] {
        let texts = write_files(ctx, &root, &files, &dirs, Some(l));
        let text = gen::render(&mut ctx.rng, &toks, l).text;
        write(&main, text.as_bytes());
        ctx.note("main document", &text);
        got.push(load_file(ctx, main.to_str().unwrap())?);
        key.push_str(&format!("{}{:?}", text, texts));
    }
    ctx.count("wild", 1);
    ctx.count("with_files", 1);
    ctx.nontrivial(&key);
    let y = got.pop().unwrap();
    let x = got.pop().unwrap();
    same_outcome(ctx, x, y)
}

pub fn same_outcome(ctx: &mut Ctx, x: Result<over::Obj, String>, y: Result<over::Obj, String>) -> Result<(), String> {
    match (x, y) {
        (Ok(x), Ok(y)) => {
            ctx.count("both_accepted", 1);
            guard(|| {
                let m = bridge::Lift::default().obj(&x);
                bridge::same_obj(&y, &m)
            })?
            .map_err(|e| format!("layout changes the data: {}", e))
        }
        (Err(_), Err(_)) => {
            ctx.count("both_rejected", 1);
            Ok(())
        }
        (x, y) => Err(format!(
            "layout changes acceptance: {} / {}",
            x.map(|_| "accepted".to_string()).unwrap_or_else(|e| e),
            y.map(|_| "accepted".to_string()).unwrap_or_else(|e| e)
        )),
    }
}
