//! Faulty documents: C14 (they are rejected) and C15 (the error says where and what).

use super::util::*;
use crate::gen::{self, FileRec, Gen, Layout, Prof, Rendered, Sh, Slot, Tok};
use crate::model::{self, Fault};
use crate::rng::Rng;
use crate::sup::{Ctx, PropDef};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- random edits

/// One to three random edits of a text.
pub fn edit(rng: &mut Rng, text: &str) -> String {
    const BITS: [&str; 48] = [
        "\"", "\\", "{", "}", "[", "]", "(", ")", "<", ">", ":", "@", "^", ".", ",", "_", "+", "-", "*", "/", "%", "#",
        " ", "\n", "\t", "\r", "0", "1", "9", "a", "é", "null", "true", "Obj", "Str", "Arr", "Tup", "\u{0}", "\u{85}",
        "\u{feff}", "字", "&", "=", ";", "^:", "@a", "\\x", "1.",
    ];
    let mut v: Vec<char> = text.chars().collect();
    for _ in 0..*rng.pick(&[1usize, 1, 1, 2, 3]) {
        let n = v.len();
        match rng.below(10) {
            8..=9 => {
                // At one of the characters that mean something.
                let at: Vec<usize> = (0..n).filter(|i| "<>{}[]():\"@^.,+-*/%\\_#".contains(v[*i])).collect();
                if at.is_empty() {
                    continue;
                }
                let at = *rng.pick(&at);
                match rng.below(4) {
                    0 => {
                        v.remove(at);
                    }
                    1 => v.insert(at, v[at]),
                    2 => {
                        let c = *rng.pick(&['<', '>', '{', '}', '[', ']', '(', ')', ':', '"', '@', '^', '.', ',', '+', '-', '*', '/', '%', ' ', '#', '\n', 'a', '1']);
                        v[at] = c;
                    }
                    _ => {
                        let s: Vec<char> = rng.pick(&BITS).chars().collect();
                        let to = at + rng.below(2);
                        v.splice(to..to, s);
                    }
                }
            }
            0..=2 => {
                let at = rng.below(n + 1);
                let s: Vec<char> = if rng.pct(15) { vec![gen::any_char(rng)] } else { rng.pick(&BITS).chars().collect() };
                v.splice(at..at, s);
            }
            3..=4 if n > 0 => {
                let at = rng.below(n);
                let k = if rng.pct(80) { 1 } else { rng.range(1, 12) };
                v.drain(at..(at + k).min(n));
            }
            5 if n > 0 => {
                let at = rng.below(n);
                let s: Vec<char> = rng.pick(&BITS).chars().collect();
                v.splice(at..at + 1, s);
            }
            6 if n > 1 => {
                // Move or copy a piece.
                let at = rng.below(n);
                let k = rng.range(1, 20).min(n - at);
                let piece: Vec<char> = v[at..at + k].to_vec();
                if rng.bool() {
                    v.drain(at..at + k);
                }
                let to = rng.below(v.len() + 1);
                v.splice(to..to, piece);
            }
            _ if n > 0 => {
                v.truncate(rng.below(n));
            }
            _ => (),
        }
    }
    v.into_iter().collect()
}

// ---------------------------------------------------------------- fault templates

/// Reads a template: `¦` marks where the offending token begins, `·` is optional white space,
/// `␣` white space that must be there.
fn tpl(s: &str) -> Vec<Tok> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        let t = match c {
            '¦' => Tok::Mark(0),
            '·' => Tok::Opt,
            '␣' => Tok::Req,
            c => {
                cur.push(c);
                continue;
            }
        };
        if !cur.is_empty() {
            out.push(Tok::S(std::mem::take(&mut cur)));
        }
        out.push(t);
    }
    if !cur.is_empty() {
        out.push(Tok::S(cur));
    }
    out
}

#[derive(Debug)]
struct Tpl {
    kind: &'static str,
    text: String,
    keys: Vec<String>,
    free: bool,
}

fn t(kind: &'static str, text: &str, keys: &[&str]) -> Tpl {
    Tpl { kind, text: text.to_string(), keys: keys.iter().map(|s| s.to_string()).collect(), free: true }
}

/// Faults that are values.
const VALUES: [(&str, &str, &[&str]); 96] = [
    ("escape", "\"ab\\¦Qc\"", &["Q"]),
    ("escape", "\"\\¦é\"", &["é"]),
    ("escape", "\"\\n\\\\\\¦?\"", &["?"]),
    ("escape", "\"line\nline\\t\n \\¦§\"", &["§"]),
    ("escape", "(\"\\¦\u{5b57}\")", &["\u{5b57}"]),
    ("escape", "\"x\\¦0\"", &["0"]),
    ("escape", "\"x\\¦u0041\"", &["u"]),
    ("char", "¦&", &["&"]),
    ("char", "¦!", &["!"]),
    ("char", "¦?", &["?"]),
    ("char", "¦;", &[";"]),
    ("char", "¦=", &["="]),
    ("char", "¦|", &["|"]),
    ("char", "¦~x", &["~"]),
    ("char", "¦§", &["§"]),
    ("char", "¦:", &[":"]),
    ("char", "¦*5", &["*"]),
    ("char", "¦/5", &["/"]),
    ("char", "¦%5", &["%"]),
    ("char", "¦\u{663}", &[]),
    ("char", "¦\\\"", &["\\"]),
    ("char", "¦'a'", &["'"]),
    ("char", "¦$x", &["$"]),
    ("char", "12¦x", &["x"]),
    ("char", "12¦\"", &["\""]),
    ("char", "1¦\u{662}", &[]),
    ("char", "0¦x1F", &["x"]),
    ("char", "1¦e5", &["e"]),
    ("char", "1.5¦f", &["f"]),
    ("char", "1¦(2)", &["("]),
    ("char", "\"a\"¦Q", &["Q"]),
    ("char", "\"a\"¦\"b\"", &["\""]),
    ("char", "\"a\"¦.b", &["."]),
    ("char", "[1]¦[2]", &["["]),
    ("char", "[1]¦.0", &["."]),
    ("char", "(1)¦@", &["@"]),
    ("char", "{}¦{}", &["{"]),
    ("char", "null¦&", &["&"]),
    ("char", "true¦\"\"", &["\""]),
    ("char", "1+¦*2", &["*"]),
    ("char", "1*¦:", &[":"]),
    ("char", "-¦&", &["&"]),
    ("char", "\"a\"+¦=", &["="]),
    ("char", "null¦:1", &[":"]),
    ("number", "1.2¦.3", &["."]),
    ("number", "1,2¦.3", &["."]),
    ("number", "1.¦,", &[","]),
    ("number", "1_¦_2", &["_"]),
    ("number", "1_2_¦_", &["_"]),
    ("number", "0._¦_1", &["_"]),
    ("number", "¦.", &[]),
    ("number", "¦,", &[]),
    ("number", "¦._", &[]),
    ("number", "(1␣¦.)", &[]),
    ("number", "1+¦.", &[]),
    ("zero", "1/¦0", &[]),
    ("zero", "1.5/¦0.0", &[]),
    ("zero", "7%¦0", &[]),
    ("zero", "2/¦-0", &[]),
    ("zero", "1.0/¦00", &[]),
    ("zero", "3*4/¦0*2", &[]),
    ("zero", "1+2/¦0-1", &[]),
    ("zero", "1/2/¦0", &[]),
    ("zero", "5-6%¦0_0", &[]),
    ("unary", "-¦\"x\"", &["Str", "-"]),
    ("unary", "+¦null", &["Null", "+"]),
    ("unary", "-¦[1]", &["Arr(Int)", "-"]),
    ("unary", "--¦true", &["Bool", "-"]),
    ("unary", "1+-¦{}", &["Obj", "-"]),
    ("unary", "-¦(1)", &["Tup(Int)", "-"]),
    ("binary", "1+¦\"a\"", &["Int", "Str", "+"]),
    ("binary", "\"a\"-¦\"b\"", &["Str", "-"]),
    ("binary", "\"a\"+¦1", &["Int", "Str", "+"]),
    ("binary", "null+¦1", &["Null", "Int", "+"]),
    ("binary", "[1]+¦[\"a\"]", &["Arr(Int)", "Arr(Str)", "+"]),
    ("binary", "[1]*¦2", &["Arr(Int)", "Int", "*"]),
    ("binary", "1+2*¦\"a\"", &["Int", "Str", "*"]),
    ("binary", "\"a\"+¦2*3", &["Int", "Str", "+"]),
    ("binary", "1.5%¦1", &["Frac", "%"]),
    ("binary", "(1)+¦(2)", &["Tup(Int)", "+"]),
    ("binary", "{}+¦{}", &["Obj", "+"]),
    ("binary", "true/¦false", &["Bool", "/"]),
    ("binary", "1-2-¦null", &["Int", "Null", "-"]),
    ("array", "[1␣¦\"a\"]", &["Int", "Str"]),
    ("array", "[1␣¦1.0␣\"a\"]", &["Int", "Frac"]),
    ("array", "[[1]␣[]␣¦[\"a\"]]", &["Arr(Int)", "Arr(Str)"]),
    ("array", "[(1␣\"a\")␣¦(1␣2)]", &["Tup(Int, Str)", "Tup(Int, Int)"]),
    ("array", "[null␣null␣¦true]", &["Null", "Bool"]),
    ("array", "[([]␣1)␣([\"s\"]␣2)␣¦([3]␣4)]", &["Int", "Str"]),
    ("array", "[{}␣¦1]", &["Obj", "Int"]),
    ("include", "<·¦5·>", &["Int"]),
    ("include", "<Str␣¦null·>", &["Null"]),
    ("include", "<Obj␣¦[]·>", &["Arr"]),
    ("include", "<Tup␣¦{}·>", &["Obj"]),
    ("include", "<·¦1/2·>", &["Frac"]),
    ("include", "<·¦(1)·>", &["Tup(Int)"]),
];

const VALUES2: [(&str, &str, &[&str]); 71] = [
    ("include", "<·¦\"missing.over\"·>", &["missing.over"]),
    ("include", "<Str␣¦\"no such file\"·>", &["no such file"]),
    ("include", "<Arr␣¦\"no\"+\"pe\"·>", &["nope"]),
    ("include", "<·¦\".\"·>", &["."]),
    ("include", "<Tup␣¦\"/\"·>", &["/"]),
    ("include", "<Str␣¦\"\"·>", &[]),
    ("include", "<Str␣¦\"missing\u{0}x\"·>", &["missing"]),
    ("include", "<·¦Foq7zZ␣\"x\"·>", &["Foq7zZ"]),
    ("include", "<Str␣¦Obj·>", &["Obj"]),
    ("include", "<Str¦>", &[">"]),
    ("include", "<¦>", &[">"]),
    ("include", "<\"x\"¦]", &["]", ">"]),
    ("include", "<Str␣\"x\"␣¦\"y\"·>", &[]),
    ("include", "<\"x\"␣¦)", &[")", ">"]),
    ("include", "<·Str␣¦>", &[">"]),
    ("keyword", "¦Obj", &["Obj"]),
    ("keyword", "¦Str", &["Str"]),
    ("keyword", "[¦Arr]", &["Arr"]),
    ("keyword", "(1␣¦Tup)", &["Tup"]),
    ("bracket", "(1␣2·¦]", &["]", ")"]),
    ("bracket", "[1·¦)", &[")", "]"]),
    ("bracket", "{a:·1·¦]", &["]", "}"]),
    ("bracket", "[·¦}", &["}", "]"]),
    ("bracket", "(·¦>", &[">", ")"]),
    ("bracket", "{·¦)", &[")", "}"]),
    ("bracket", "([]·¦}", &["}", ")"]),
    ("bracket", "{a:␣(1)·¦>", &[">", "}"]),
    ("missing", "{foo:·¦}", &["}"]),
    ("missing", "(1+¦)", &[")"]),
    ("missing", "[-¦]", &["]"]),
    ("missing", "{a:␣2*¦}", &["}"]),
    ("missing", "{a¦}", &["}"]),
    ("missing", "{a:␣1¦b:␣2}", &["b"]),
    ("missing", "{a:␣\"x\"¦b:␣2}", &["b"]),
    ("missing", "{a:␣{}¦b:␣2}", &["b"]),
    ("missing", "{a:␣1␣¦5}", &["5"]),
    ("missing", "{¦\"a\":␣1}", &["\""]),
    ("field", "{a:␣1␣¦a:␣2}", &["a"]),
    ("field", "{@zzz:␣1␣¦@zzz:␣2}", &["@zzz"]),
    ("field", "{^:␣{}␣¦^:␣{}}", &["^"]),
    ("field", "{^:␣¦5}", &["Obj", "Int"]),
    ("field", "{^:␣¦[{}]}", &["Obj", "Arr(Obj)"]),
    ("field", "{¦true:␣1}", &["true"]),
    ("reference", "{a:␣1␣b:␣{c:␣¦a}}", &["a"]),
    ("reference", "{a:␣¦a}", &["a"]),
    ("reference", "{a:␣[¦b]␣b:␣1}", &["b"]),
    ("field", "{¦@zzz:␣{@zzz:␣1}}", &["@zzz"]),
    ("field", "{a:␣1␣¦@zzz:␣[{b:␣{@zzz:␣1}}]}", &["@zzz"]),
    ("field", "{a:␣1␣¦@zzz:␣(5␣{b:␣{@zzz:␣1}})␣c:␣2}", &["@zzz"]),
    ("array", "[[]␣¦1]", &["Arr","Int"]),
    ("array", "[[]␣[]␣[1]␣¦[\"\"]]", &["Arr(Int)","Arr(Str)"]),
    ("array", "[([]␣1)␣¦([]␣\"\")]", &["Int","Str"]),
    ("array", "[[[]]␣[]␣¦{}]", &["Arr","Obj"]),
    ("binary", "[1␣2]*¦2", &["Arr(Int)", "Int", "*"]),
    ("binary", "[·1␣2·]+¦[\"\"]", &["Arr(Int)", "Arr(Str)", "+"]),
    ("binary", "5-(1␣2·)/¦3", &["Tup(Int, Int)", "Int", "/"]),
    ("binary", "{a:␣1·}%¦\"b\"", &["Obj", "Str", "%"]),
    ("binary", "{·a:␣1␣}-¦[·]", &["Obj", "-"]),
    ("binary", "2*3+(1␣2)*¦4", &["Tup(Int, Int)", "Int", "*"]),
    ("binary", "\"x\ny\"*¦2", &["Str", "Int", "*"]),
    ("binary", "[·]+[·]-¦[1␣2]", &["Arr(Int)", "-"]),
    ("unary", "-¦[␣1␣]", &["Arr(Int)", "-"]),
    ("include", "<Str␣¦[1␣2·]·>", &["Arr(Int)"]),
    ("array", "[[␣1·]␣¦{·a:␣1}]", &["Arr(Int)", "Obj"]),
    ("array", "[(·1␣2␣)␣¦(3·)]", &["Tup(Int, Int)", "Tup(Int)"]),
    ("include", "<·¦{}·>", &["Obj"]),
    ("include", "<·¦{a:␣1}␣\"x\"·>", &["Obj"]),
    ("include", "<Tup␣\"x\"·¦}", &["}", ">"]),
    ("include", "<Arr␣\"x\"·¦]", &["]", ">"]),
    ("dot", "{o:␣{a:␣1}␣b:␣o.¦@g}", &["@"]),
    ("dot", "{@g:␣0␣o:␣{a:␣1}␣b:␣[2␣o.¦@g]}", &["@"]),
];

/// The same with single spaces that matter.
const SPACED: [(&str, &str, &[&str]); 8] = [
    ("space", "1+¦ 2", &[" "]),
    ("space", "(1␣\"a\"+¦ \"b\")", &[" "]),
    ("space", "-¦ 5", &[" "]),
    ("space", "2*¦\t3", &[]),
    ("dot", "¦true.foo", &["Bool"]),
    ("dot", "(1␣¦null.0)", &["Null"]),
    ("space", "{a¦ : 1}", &[" "]),
    ("space", "{@a:␣1␣b:␣1␣¦+ 2}", &["+"]),
];

/// Faults that are fields.
const FIELDS: [(&str, &str, &[&str]); 40] = [
    ("field", "¦1a:␣1", &["1"]),
    ("field", "¦-a:␣1", &["-"]),
    ("field", "zq¦-b:␣1", &["-"]),
    ("field", "zq¦.b:␣1", &["."]),
    ("field", "zq¦\"b:␣1", &["\""]),
    ("field", "zq¦@b:␣1", &["@"]),
    ("field", "zq¦^:␣1", &["^"]),
    ("field", "zq¦&:␣1", &["&"]),
    ("field", "zq¦\u{663}:␣1", &[]),
    ("field", "zq¦'s:␣1", &["'"]),
    ("field", "@zq¦-:␣1", &["-"]),
    ("field", "@¦1:␣1", &["1"]),
    ("field", "@¦:␣1", &[":"]),
    ("field", "@¦@a:␣1", &["@"]),
    ("field", "¦:␣1", &[":"]),
    ("field", "¦null:␣1", &["null"]),
    ("field", "¦true:␣1", &["true"]),
    ("field", "¦false:␣1", &["false"]),
    ("field", "¦Obj:␣1", &["Obj"]),
    ("field", "¦Str:␣1", &["Str"]),
    ("field", "¦Arr:␣1", &["Arr"]),
    ("field", "¦Tup:␣1", &["Tup"]),
    ("field", "¦^a:␣{}", &["^a"]),
    ("field", "¦@^:␣{}", &["@^"]),
    ("field", "¦@^x:␣1", &["@^x"]),
    ("field", "¦\u{bd}:␣1", &["\u{bd}"]),
    ("field", "¦,a:␣1", &[","]),
    ("field", "¦$a:␣1", &["$"]),
    ("missing", "¦5", &["5"]),
    ("missing", "¦\"abc\"", &["\""]),
    ("missing", "¦[1␣2]", &["["]),
    ("missing", "¦(1)", &["("]),
    ("missing", "¦{a:␣1}", &["{"]),
    ("missing", "¦<\"x\">", &["<"]),
    ("missing", "zq1:␣1¦zq2:␣2", &["z"]),
    ("missing", "zq1:␣\"\"¦zq2:␣2", &["z"]),
    ("missing", "zq1:␣[]¦zq2:␣2", &["z"]),
    ("missing", "zq1:␣1,2¦,zq2:␣2", &[","]),
    ("missing", "zq1:␣()¦,␣zq2:␣2", &[","]),
    ("missing", "zq1:␣true¦;␣zq2:␣2", &[";"]),
];

/// Files with faults of their own, the kind to include them as, and what the error must name.
const FILES: [(&str, &str, &[&str]); 33] = [
    ("Arr", "1 ¦\"a\"", &["Int", "Str"]),
    ("Arr", "\n\n  [1]\n\t[]\r\n ¦[\"é\"] #", &["Arr(Int)", "Arr(Str)"]),
    ("Arr", "1 ¦zz", &["zz"]),
    ("Arr", "1 2 ¦]", &["]"]),
    ("Arr", "a¦: 1", &[":"]),
    ("Arr", "1+¦\"a\"", &["Int", "Str"]),
    ("Arr", "# é\n\"é\n\" ¦1", &["Str", "Int"]),
    ("Tup", "1 \"a\" ¦@g", &["@g"]),
    ("Tup", "(1 2) 3 ¦)", &[")"]),
    ("Tup", "1 2¦\"", &["\""]),
    ("Tup", "\"字\n字字\" 1/¦0", &[]),
    ("Tup", "{a: 1 b: ¦c}", &["c"]),
    ("Obj", "a: 1\nb: ¦c", &["c"]),
    ("Obj", "a: 1\n¦a: 2", &["a"]),
    ("Obj", "#\n@g: 1 ¦@g: 2", &["@g"]),
    ("Obj", "a: {b: [1 ¦null]}", &["Int", "Null"]),
    ("Obj", "¦}", &["}"]),
    ("Obj", "a: 1 ¦5", &["5"]),
    ("Obj", "a: \"\\¦Q\"", &["Q"]),
    ("Obj", "^: ¦5", &["Obj", "Int"]),
    ("Obj", "a: <¦\"nowhere\">", &["nowhere"]),
    ("Obj", "a: <Str ¦5>", &["Int"]),
    ("Obj", "a: -¦\"\"", &["Str"]),
    ("", "a: [1 2]\n\tb: a.¦2", &["2"]),
    ("", "x: \"\u{1F600}\u{1F600}\" y: ¦&", &["&"]),
    ("", "x: 1\r\n\r\n\u{2028}y: 2 ¦x: 3", &["x"]),
    ("Arr", "[]\n ¦1", &["Arr","Int"]),
    ("Arr", "[[]] []\n\n\t [[1]] ¦[[\"\"]]", &["Arr(Arr(Int))","Arr(Arr(Str))"]),
    ("Arr", "([] 1)\n  ¦([] null)", &["Int","Null"]),
    ("Obj", "a: 1\n\n ¦@g: {b: {@g: 2}}\nc: 3", &["@g"]),
    ("Obj", "a: {¦@g: {@g: 2}}", &["@g"]),
    ("Obj", "a: [1\n ¦)", &[")","]"]),
    ("Obj", "a: (1\n ¦}", &["}",")"]),
];

/// Faults that depend on what is in scope.
fn scoped(rng: &mut Rng, slot: &Slot) -> Option<Tpl> {
    let known = |n: &str| slot.fields.iter().any(|f| f.0 == n);
    Some(match rng.below(13) {
        0 => {
            // A field that comes later.
            let c: Vec<&String> = slot.later.iter().filter(|n| !known(n)).collect();
            if c.is_empty() {
                return None;
            }
            let n = rng.pick(&c).to_string();
            t("reference", &format!("¦{}", n), &[&n])
        }
        1 => {
            // A field of an enclosing object.
            let c: Vec<&String> = slot.enclosing.iter().filter(|n| !known(n)).collect();
            if c.is_empty() {
                return None;
            }
            let n = rng.pick(&c).to_string();
            t("reference", &format!("¦{}", n), &[&n])
        }
        2 => {
            let n = format!("{}q9", gen::odd_name(rng));
            let s = *rng.pick(&["¦N", "¦N.x", "1+¦N", "-¦N", "[¦N]", "(1␣¦N.0)", "{a:␣¦N}", "2*¦N+1", "¦N+[1]"]);
            t("reference", &s.replace('N', &n), &[&n])
        }
        3 => {
            let n = format!("@{}q9", gen::odd_name(rng));
            let s = *rng.pick(&["¦N", "¦N.x", "1+¦N", "-¦N", "[¦N]", "{a:␣{b:␣¦N}}"]);
            t("reference", &s.replace('N', &n), &[&n])
        }
        4 => {
            // A plain field as a global, or a global as a plain field.
            if rng.bool() {
                let c: Vec<&String> =
                    slot.fields.iter().map(|f| &f.0).filter(|n| !slot.globals.iter().any(|g| g.0[1..] == ***n)).collect();
                if c.is_empty() {
                    return None;
                }
                let n = format!("@{}", rng.pick(&c));
                t("reference", &format!("¦{}", n), &[&n])
            } else {
                let c: Vec<&str> = slot.globals.iter().map(|g| &g.0[1..]).filter(|n| !known(n) && !model::is_reserved(n)).collect();
                if c.is_empty() {
                    return None;
                }
                let n = rng.pick(&c).to_string();
                t("reference", &format!("¦{}", n), &[&n])
            }
        }
        5 => {
            // Inside an object the fields around it are not visible.
            if slot.fields.is_empty() {
                return None;
            }
            let n = rng.pick(&slot.fields).0.clone();
            t("reference", &format!("{{zq:␣¦{}}}", n), &[&n])
        }
        6..=11 => {
            let all: Vec<(String, Sh)> = slot.fields.iter().chain(&slot.globals).cloned().collect();
            if all.is_empty() {
                return None;
            }
            let (n, sh) = rng.pick(&all).clone();
            match sh {
                Sh::Obj(o) => {
                    let x = format!("{}q9", gen::odd_name(rng));
                    if o.visible().iter().any(|f| f.0 == x) {
                        return None;
                    }
                    let s = *rng.pick(&["N.¦X", "(N.¦X)", "1+N.¦X", "N.¦X.y", "N.¦1", "N.¦@g", "N.¦&", "N.¦\"a\"", "N.¦[0]"]);
                    if s.contains('X') {
                        t("dot", &s.replace('X', "\u{1}").replace('N', &n).replace('\u{1}', &x), &[&x])
                    } else {
                        t("dot", &s.replace('N', &n), &[])
                    }
                }
                Sh::Arr(..) | Sh::Tup(_) => {
                    let len = match &sh {
                        Sh::Arr(v, _) => v.len(),
                        Sh::Tup(v) => v.len(),
                        _ => 0,
                    };
                    let x = (len + rng.below(30)).to_string();
                    match rng.below(8) {
                        0..=2 => t("index", &format!("{}.¦{}", n, x), &[&x]),
                        3 => t("index", &format!("[{}.¦{}]", n, "99999999999999999999999"), &["99999999999999999999999"]),
                        4 => t("index", &format!("{}.¦1.5", n), &["Frac"]),
                        5 => t("index", &format!("{}.¦zz9", n), &["zz9"]),
                        6 => t("index", &format!("{}.¦-1", n), &["-"]),
                        _ => t("index", &format!("{}.¦true", n), &["Bool"]),
                    }
                }
                sh => {
                    let name = match sh {
                        Sh::Null => "Null",
                        Sh::Bool => "Bool",
                        Sh::Int(_) => "Int",
                        Sh::Frac => "Frac",
                        _ => "Str",
                    };
                    let s = *rng.pick(&["¦N.a", "¦N.0", "(¦N.null)", "¦N.@g", "1+¦N.a.b"]);
                    t("dot", &s.replace('N', &n), &[name])
                }
            }
        }
        _ => {
            // One container too many.
            if slot.depth > model::LIMIT {
                return None;
            }
            let n = model::LIMIT - slot.depth;
            let mut s = String::new();
            let mut close = String::new();
            for _ in 0..n {
                let (a, b) = *rng.pick(&[("[", "]"), ("(", ")"), ("{a:·", "}")]);
                s.push_str(a);
                close.insert_str(0, b);
            }
            let (a, b) = *rng.pick(&[("[", "]"), ("(", ")"), ("{", "}"), ("<\"x\"", ">")]);
            t("depth", &format!("{}¦{}{}{}", s, a, b, close), &[])
        }
    })
}

/// A document that ends where something is missing, after any amount of space.
fn stub(rng: &mut Rng) -> String {
    const LEADS: [&str; 8] = ["", "a: 1 ", "a: 1\n", "\n\n", "#\n", "a: \"x\ny\"\r\n", "é: [1\n2]\n\t", "a: {b: 2}\nc:\n\na "];
    const OPEN: [&str; 7] = ["", "", "[", "(1 ", "{y: ", "[(", "{@g: 1 y: ["];
    const ENDS: [&str; 33] = [
        "", "_<", "_<Str", "_<Str_", "_<Obj_", "_<Arr_", "_<Tup\n", "_<\"x\"", "_<Str_\"x\"", "_<Str_\"x\"_", "_<_\"x\"_", "_<Str \"x", "_[", "_[_",
        "_[1_", "_[1_2", "_(", "_(_", "_(1_", "_{", "_{_", "_{q", "_{q:", "_{q:_", "_{q: 1_", "_{q: 1", "_-", "_1+", "_[1_]+", "_\"", "_\"x\ny_",
        "_\"\\", "_a.",
    ];
    let mut s = String::from(*rng.pick(&LEADS));
    s.push_str("z:");
    s.push(' ');
    s.push_str(*rng.pick(&OPEN));
    for c in rng.pick(&ENDS).chars() {
        if c != '_' {
            s.push(c);
            continue;
        }
        for _ in 0..rng.below(4) {
            s.push_str(*rng.pick(&[" ", "\n", "\t", "\r\n", "# é\n", "\n\n", "\u{85}", "#}\r\n"]));
        }
    }
    if rng.pct(10) {
        s.push_str("#\n \n");
    }
    s
}

fn pick_value(rng: &mut Rng, slot: &Slot) -> Option<Tpl> {
    let k = rng.below(100);
    let (set, free): (&[(&'static str, &str, &[&str])], bool) = match k {
        0..=39 => return scoped(rng, slot),
        40..=69 => (&VALUES, true),
        70..=94 => (&VALUES2, true),
        _ => (&SPACED, false),
    };
    let (kind, text, keys) = *rng.pick(set);
    let mut x = t(kind, text, keys);
    x.free = free;
    // Deeper inside.
    if rng.pct(25) && !text.contains('\n') && kind != "space" && slot.depth < 40 {
        let (a, b) = *rng.pick(&[("[", "]"), ("(1␣\"x\"␣", ")"), ("{zq0:␣1␣zq1:␣", "}"), ("{@zq0:␣1␣^:␣{}␣zq1:·[", "]}")]);
        // The fields and index names of this template must not rely on what is around it.
        x.text = format!("{}{}·{}", a, x.text, b);
    }
    Some(x)
}

fn pick_field(rng: &mut Rng, slot: &Slot) -> Option<Tpl> {
    match rng.below(10) {
        0..=2 => {
            let (kind, text, keys) = *rng.pick(&FIELDS);
            if text.starts_with("zq1") && slot.depth > 60 {
                return None;
            }
            Some(t(kind, text, keys))
        }
        3 => {
            let (text, key): (String, String) = match rng.below(4) {
                0 if !slot.fields.is_empty() => {
                    let n = rng.pick(&slot.fields).0.clone();
                    (format!("¦{}:␣1", n), n)
                }
                1 if !slot.globals.is_empty() => {
                    let n = rng.pick(&slot.globals).0.clone();
                    (format!("¦{}:␣1", n), n)
                }
                2 if slot.parent_set => ("¦^:␣{}".to_string(), "^".to_string()),
                _ if !slot.parent_set => ("^:␣{}␣¦^:␣{}".to_string(), "^".to_string()),
                _ => return None,
            };
            Some(t("field", &text, &[&key]))
        }
        4 if !slot.parent_set => {
            let (v, ty) = *rng.pick(&[("5", "Int"), ("\"x\"", "Str"), ("[]", "Arr"), ("({})", "Tup(Obj)"), ("null", "Null"), ("1/2", "Frac")]);
            Some(t("parent", &format!("^:·¦{}", v), &["Obj", ty]))
        }
        _ => {
            let mut x = pick_value(rng, slot)?;
            let name = *rng.pick(&["zq0", "@zq0", "^"]);
            if name == "^" && slot.parent_set {
                return None;
            }
            x.text = format!("{}:·{}", name, x.text);
            Some(x)
        }
    }
}

/// A stray closing bracket.
fn stray(rng: &mut Rng, slot: &Slot) -> Tpl {
    loop {
        let c = *rng.pick(&[')', ']', '}', '>']);
        if Some(c) != slot.close {
            let close = slot.close.map(String::from).unwrap_or_default();
            return t("bracket", &format!("¦{}", c), &[&c.to_string(), &close]);
        }
    }
}

/// A document with one fault.
pub struct F {
    pub toks: Vec<Tok>,
    pub files: Vec<FileRec>,
    pub dirs: Vec<String>,
    /// The file with the fault, or None for the main document.
    pub site: Option<usize>,
    pub kind: &'static str,
    pub keys: Vec<String>,
    pub layout_free: bool,
}

/// Generates a document and puts a fault in it, together with the files it includes.
pub fn faulty_in(ctx: &mut Ctx, mut prof: Prof, root: &str, inc: bool) -> Option<F> {
    prof.slots = true;
    prof.p_inc = if inc { 25 } else { 0 };
    let mut g = Gen::new(&mut ctx.rng, prof);
    g.root = root.to_string();
    let mut toks = g.document("");
    let (mut files, dirs, slots) = (std::mem::take(&mut g.files), g.dirs.clone(), std::mem::take(&mut g.slots));
    drop(g);
    if slots.is_empty() {
        return None;
    }
    // Prefer slots in included files, if there are any.
    let inner: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].file.is_some()).collect();
    let id = if !inner.is_empty() && ctx.rng.pct(60) { *ctx.rng.pick(&inner) } else { ctx.rng.below(slots.len()) };
    let slot = slots[id].clone();
    let target = match slot.file {
        None => &mut toks,
        Some(k) => &mut files[k].toks,
    };
    let at = target.iter().position(|x| matches!(x, Tok::FSlot(k) | Tok::ESlot(k) if *k == id))?;
    let elem = matches!(target[at], Tok::ESlot(_));
    let rng = &mut ctx.rng;
    let x = if rng.pct(5) {
        stray(rng, &slot)
    } else if elem {
        pick_value(rng, &slot)?
    } else {
        pick_field(rng, &slot)?
    };
    let mut ins = tpl(&x.text);
    ins.push(Tok::Req);
    target.splice(at..at, ins);
    Some(F { toks, files, dirs, site: slot.file, kind: x.kind, keys: x.keys, layout_free: x.free })
}

pub fn faulty(ctx: &mut Ctx, prof: Prof, inc: bool) -> Option<F> {
    let root = ctx.dir.to_str().unwrap().to_string();
    faulty_in(ctx, prof, &root, inc)
}

// ---------------------------------------------------------------- writing them out

pub struct Placed {
    pub text: String,
    pub main: PathBuf,
    /// File with the fault, line and column.
    pub site: PathBuf,
    pub line: usize,
    pub col: usize,
}

fn place(ctx: &mut Ctx, f: &F, root: &Path) -> Option<Placed> {
    let l = gen::layout(&mut ctx.rng);
    let main = gen::render(&mut ctx.rng, &f.toks, l);
    let main_path = root.join("main.over");
    write(&main_path, main.text.as_bytes());
    ctx.note("main document", &main.text);
    let mut site: (PathBuf, Rendered) = (main_path.clone(), Rendered { text: main.text.clone(), marks: main.marks.clone() });
    for d in &f.dirs {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    for (i, r) in f.files.iter().enumerate() {
        let raw = r.kinds.len() == 1 && r.kinds[0].0 == model::Kind::Str;
        let l = if raw { Layout::Minimal } else { gen::layout(&mut ctx.rng) };
        let out = gen::render(&mut ctx.rng, &r.toks, l);
        let p = root.join(&r.path);
        write(&p, out.text.as_bytes());
        ctx.note(&format!("file {}", r.path), &out.text);
        if f.site == Some(i) {
            site = (p, out);
        }
    }
    let (line, col) = *site.1.marks.get(&0)?;
    Some(Placed { text: main.text, main: main_path, site: site.0, line, col })
}

// ---------------------------------------------------------------- C14

pub static C14: PropDef = PropDef {
    id: "C14",
    run: c14,
    quick: 234_000,
    thorough: 3_120_000,
    level: "exploration",
    rule: "one fault of about 250 kinds put at a random place of a generated valid document or of a file it \
           includes (any nesting), documents cut off at a random character, and random edits of valid documents \
           that the model calls faulty; all must be rejected; some of large sizes; non-trivial: distinct faulty documents",
    must: &[
        "large_cases",
        "fault_escape", "fault_char", "fault_number", "fault_zero", "fault_unary", "fault_binary", "fault_array",
        "fault_include", "fault_keyword", "fault_bracket", "fault_missing", "fault_field", "fault_reference",
        "fault_dot", "fault_index", "fault_parent", "fault_space", "fault_depth", "cut", "edits", "in_included_file",
        "tree_edits", "tree_cut",
    ],
    assumptions: &["the model in harness/src/model.rs says which documents are faulty"],
};

fn c14(ctx: &mut Ctx) -> Result<(), String> {
    let mut prof = vary(ctx, Prof::std());
    prof.size = prof.size.min(60);
    if ctx.rng.pct(12) {
        return edited_tree(ctx, prof);
    }
    match ctx.rng.below(10) {
        0..=5 => {
            let inc = ctx.rng.pct(30);
            let root = fresh_dir(ctx, "f");
            let f = match faulty_in(ctx, prof, root.to_str().unwrap(), inc) {
                Some(f) => f,
                None => return Ok(()),
            };
            let p = match place(ctx, &f, &root) {
                Some(p) => p,
                None => return Ok(()),
            };
            let main = p.main.to_str().unwrap().to_string();
            let (seen, _) = if inc || ctx.rng.pct(20) {
                agree(ctx, Src::File(&main), REJECT)?
            } else {
                agree(ctx, Src::Str(&p.text), REJECT)?
            };
            if let Seen::Rejected(..) = seen {
                ctx.count(&format!("fault_{}", f.kind), 1);
                if f.site.is_some() {
                    ctx.count("in_included_file", 1);
                }
                let key = format!("{}{}", p.text, std::fs::read_to_string(&p.site).unwrap_or_default());
                ctx.nontrivial(&key);
                ctx.sample(|| p.text.clone());
            }
        }
        6 => {
            let toks = document(ctx, prof);
            let l = gen::layout(&mut ctx.rng);
            let text = gen::render(&mut ctx.rng, &toks, l).text;
            let cs: Vec<char> = text.chars().collect();
            for _ in 0..6 {
                let n = ctx.rng.below(cs.len() + 1);
                let cut: String = if ctx.rng.pct(25) { stub(&mut ctx.rng) } else { cs[..n].iter().collect() };
                if let Seen::Rejected(..) = check_text(ctx, &cut, REJECT)? {
                    ctx.count("cut", 1);
                    ctx.nontrivial(&cut);
                }
            }
        }
        _ => {
            let toks = document(ctx, prof);
            let l = gen::layout(&mut ctx.rng);
            let text = gen::render(&mut ctx.rng, &toks, l).text;
            for _ in 0..6 {
                let e = edit(&mut ctx.rng, &text);
                if let Seen::Rejected(..) = check_text(ctx, &e, REJECT)? {
                    ctx.count("edits", 1);
                    ctx.nontrivial(&e);
                }
            }
        }
    }
    Ok(())
}

/// A valid tree of includes, then edits of single files of it.
fn edited_tree(ctx: &mut Ctx, mut prof: Prof) -> Result<(), String> {
    let root = fresh_dir(ctx, "e");
    prof.size = prof.size.min(30);
    prof.p_inc = *ctx.rng.pick(&[40, 70, 90]);
    let mut g = Gen::new(&mut ctx.rng, prof);
    g.root = root.to_str().unwrap().to_string();
    let toks = g.document("");
    let (files, dirs) = (std::mem::take(&mut g.files), g.dirs.clone());
    drop(g);
    let mut texts = write_files(ctx, &root, &files, &dirs, None);
    let l = gen::layout(&mut ctx.rng);
    texts.push(gen::render(&mut ctx.rng, &toks, l).text);
    let main = root.join("main.over");
    write(&main, texts.last().unwrap().as_bytes());
    for _ in 0..5 {
        // The main document, or one of the others.
        let k = if ctx.rng.pct(60) { texts.len() - 1 } else { ctx.rng.below(texts.len()) };
        let p = if k == texts.len() - 1 { main.clone() } else { root.join(&files[k].path) };
        let cut = ctx.rng.pct(20);
        let e: String = if cut {
            let n = texts[k].chars().count();
            texts[k].chars().take(ctx.rng.below(n + 1)).collect()
        } else {
            edit(&mut ctx.rng, &texts[k])
        };
        write(&p, e.as_bytes());
        ctx.note("edited file", &format!("{}: {}", p.display(), e));
        let (seen, _) = agree(ctx, Src::File(main.to_str().unwrap()), REJECT)?;
        if let Seen::Rejected(..) = seen {
            ctx.count(if cut { "tree_cut" } else { "tree_edits" }, 1);
            ctx.nontrivial(&e);
        }
        write(&p, texts[k].as_bytes());
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

pub static C15: PropDef = PropDef {
    id: "C15",
    run: c15,
    quick: 412_500,
    thorough: 3_300_000,
    level: "exploration",
    rule: "one fault of about 250 kinds put at a random place of a generated valid document or of a file it \
           includes, after wild layouts and multi-line strings; the message is searched for the file, the line and \
           column where the offending token was put and the name, character or types of the fault; documents cut \
           off: the line of the end; other rejected documents: a line and column that exist in the file named; faults beyond 65535 lines or columns; \
           some of large sizes; non-trivial: distinct faulty documents whose error was checked to the column",
    must: &[
        "large_cases",
        "at_escape", "at_char", "at_number", "at_zero", "at_unary", "at_binary", "at_array", "at_include", "at_keyword",
        "at_bracket", "at_missing", "at_field", "at_reference", "at_dot", "at_index", "at_parent", "at_depth", "ends",
        "in_included_file", "cycles", "unreadable", "bounds_checked", "far", "types_named",
    ],
    assumptions: &["the offending token of an operator is its right operand, of a sign what follows it"],
};

/// Splits a message into the file it names (compared by what it refers to) and the rest.
pub fn strip_file<'a>(msg: &'a str, file: &Path) -> Option<&'a str> {
    let want = std::fs::canonicalize(file).ok()?;
    let mut from = 0;
    while let Some(i) = msg[from..].find(": ") {
        let at = from + i;
        if std::fs::canonicalize(&msg[..at]).map_or(false, |p| p == want) {
            return Some(&msg[at + 2..]);
        }
        from = at + 2;
    }
    None
}

/// Does the text have this word followed by this number?
fn says(msg: &str, words: &[&str], n: usize) -> bool {
    let toks: Vec<&str> = msg.split(|c: char| !c.is_alphanumeric()).filter(|s| !s.is_empty()).collect();
    let n = n.to_string();
    toks.windows(2).any(|w| words.contains(&w[0]) && w[1] == n)
}

fn numbers(msg: &str, words: &[&str]) -> Vec<usize> {
    let toks: Vec<&str> = msg.split(|c: char| !c.is_alphanumeric()).filter(|s| !s.is_empty()).collect();
    toks.windows(2).filter(|w| words.contains(&w[0])).filter_map(|w| w[1].parse().ok()).collect()
}

const LINE: &[&str] = &["line"];
const COL: &[&str] = &["column", "col"];

pub fn judge(msg: &str, file: Option<&Path>, line: usize, col: Option<usize>, keys: &[String]) -> Result<(), String> {
    let rest = match file {
        Some(p) => match strip_file(msg, p) {
            Some(r) => r,
            None => return Err(format!("the error does not name the file {}: {:?}", p.display(), model::short(msg))),
        },
        None => msg,
    };
    if !says(rest, LINE, line) {
        return Err(format!("the fault is on line {}: {:?}", line, rest));
    }
    if let Some(c) = col {
        if !says(rest, COL, c) {
            return Err(format!("the fault is on line {} at column {}: {:?}", line, c, rest));
        }
    }
    for k in keys {
        let esc: String = k.chars().flat_map(|c| c.escape_debug()).collect();
        if !rest.contains(&**k) && !rest.contains(&*esc) {
            return Err(format!("the error does not mention {:?}: {:?}", k, rest));
        }
    }
    Ok(())
}

fn c15(ctx: &mut Ctx) -> Result<(), String> {
    let mut prof = vary(ctx, Prof::std());
    prof.size = prof.size.min(60);
    prof.p_odd = prof.p_odd.max(25);
    let root = fresh_dir(ctx, "f");
    if ctx.idx % 500 == 7 {
        return c15_far(ctx, &root);
    }
    if ctx.rng.pct(8) {
        return c15_types(ctx, &root);
    }
    match ctx.rng.below(20) {
        0..=12 => {
            let inc = ctx.rng.pct(40);
            let f = match faulty_in(ctx, prof, root.to_str().unwrap(), inc) {
                Some(f) => f,
                None => return Ok(()),
            };
            let p = match place(ctx, &f, &root) {
                Some(p) => p,
                None => return Ok(()),
            };
            let from_file = inc || ctx.rng.pct(30);
            let main = p.main.to_str().unwrap().to_string();
            let (seen, _) = agree(ctx, if from_file { Src::File(&main) } else { Src::Str(&p.text) }, ACCEPT)?;
            let (fault, msg) = match seen {
                Seen::Rejected(f, m) => (f, m),
                _ => return Ok(()),
            };
            // Only single faults: an earlier one, by accident, does not count.
            if !same_place(&fault, &p) {
                ctx.count("another_fault_first", 1);
                return Ok(());
            }
            let col = if fault.kind == "end" { None } else { Some(p.col) };
            judge(&msg, if from_file { Some(&p.site) } else { None }, p.line, col, &f.keys)
                .map_err(|e| format!("{} fault: {}", f.kind, e))?;
            ctx.count(&format!("at_{}", f.kind), 1);
            if f.site.is_some() {
                ctx.count("in_included_file", 1);
            }
            ctx.nontrivial(&format!("{}{}", p.text, std::fs::read_to_string(&p.site).unwrap_or_default()));
            ctx.sample(|| format!("{}\n=> {}", p.text, msg));
        }
        13..=14 => {
            // Cut off.
            let toks = document(ctx, prof);
            let l = gen::layout(&mut ctx.rng);
            let text = gen::render(&mut ctx.rng, &toks, l).text;
            let cs: Vec<char> = text.chars().collect();
            for _ in 0..6 {
                let n = ctx.rng.below(cs.len() + 1);
                let cut: String = if ctx.rng.pct(25) { stub(&mut ctx.rng) } else { cs[..n].iter().collect() };
                ctx.note("document", &cut);
                let from_file = ctx.rng.pct(30);
                let path = root.join("cut.over");
                let seen = if from_file {
                    write(&path, cut.as_bytes());
                    agree(ctx, Src::File(path.to_str().unwrap()), ACCEPT)?.0
                } else {
                    agree(ctx, Src::Str(&cut), ACCEPT)?.0
                };
                if let Seen::Rejected(f, msg) = seen {
                    if f.kind == "end" {
                        let (line, _) = gen::position(&cut);
                        judge(&msg, if from_file { Some(&path) } else { None }, line, None, &[])?;
                        ctx.count("ends", 1);
                        ctx.nontrivial(&cut);
                    } else {
                        bounds(ctx, &msg, &cut, if from_file { Some(&path) } else { None })?;
                    }
                }
            }
        }
        15..=16 => {
            // A file with a fault of its own, included somewhere.
            let (kind, body, keys) = *ctx.rng.pick(&FILES);
            let (before, after) = body.split_once('¦').unwrap();
            let (mut pad, inner) = (String::new(), format!("{}{}", before, after));
            if ctx.rng.bool() {
                pad = ctx.rng.pick(&["#\n", "\r\n", " \t", "# é\r\n\t", "\u{2028}\n ", "\u{3000}"]).to_string();
            }
            let (line, col) = gen::position(&format!("{}{}", pad, before));
            let site = root.join(*ctx.rng.pick(&["x.over", "sub/x.over", "ü: x.over"]));
            write(&site, format!("{}{}", pad, inner).as_bytes());
            let rel = site.strip_prefix(&root).unwrap().to_str().unwrap().to_string();
            let mut chain = format!("<{} \"{}\">", kind, rel);
            // Through further files.
            for i in 0..ctx.rng.below(3) {
                let n = format!("c{}.over", i);
                write(&root.join(&n), format!("\n\n a: {}", chain).as_bytes());
                chain = format!("<Obj\n\"{}\">", n);
            }
            let frame = *ctx.rng.pick(&["a: E", "a: [E]", "a: {b: (1 E)}", "^: E", "@a: E"]);
            let text = frame.replace('E', &chain);
            write(&root.join("main.over"), text.as_bytes());
            ctx.note("main document", &text);
            ctx.note("faulty file", &inner);
            let main = root.join("main.over");
            let (seen, _) = agree(ctx, Src::File(main.to_str().unwrap()), BOTH)?;
            if let Seen::Rejected(_, msg) = seen {
                let keys: Vec<String> = keys.iter().map(|s| s.to_string()).collect();
                judge(&msg, Some(&site), line, Some(col), &keys)?;
                ctx.count("in_included_file", 1);
                ctx.nontrivial(&format!("{}{}{}", text, pad, inner));
            } else {
                return Err("a faulty included file was accepted".into());
            }
        }
        17 => {
            // Cycles and unreadable files: the include is the offending token.
            write(&root.join("bad.bin"), b"a: 1\xff\xfe");
            let other = root.join("o.over");
            let l = gen::layout(&mut ctx.rng);
            let cyc = ctx.rng.bool();
            let (kind, target) = if cyc {
                (*ctx.rng.pick(&["", "Obj", "Arr", "Tup", "Str"]), "main.over")
            } else {
                (*ctx.rng.pick(&["", "Obj", "Arr", "Tup", "Str"]), "bad.bin")
            };
            let gap = if kind.is_empty() { "·" } else { "␣" };
            let frame = *ctx.rng.pick(&["zq:·E", "zq:·[E]", "zq:␣{a:·(1␣E)}", "^:·E", "@zq:␣\"a\nb\"␣z:·E"]);
            let mut toks = document(ctx, prof);
            toks.push(Tok::Req);
            toks.extend(tpl(&frame.replace('E', &format!("<{}{}¦\"{}\"·>", kind, gap, target))));
            let r = gen::render(&mut ctx.rng, &toks, l);
            let (line, col) = r.marks[&0];
            let main = root.join("main.over");
            let via = ctx.rng.bool();
            let site = if via {
                write(&main, b"x: <\"o.over\">");
                write(&other, r.text.as_bytes());
                other
            } else {
                write(&main, r.text.as_bytes());
                main.clone()
            };
            ctx.note("document", &r.text);
            let (seen, _) = agree(ctx, Src::File(main.to_str().unwrap()), ACCEPT)?;
            if let Seen::Rejected(f, msg) = seen {
                if (f.line, f.col) != (line, col) {
                    ctx.count("another_fault_first", 1);
                    return Ok(());
                }
                let keys = if cyc { vec![target.to_string()] } else { vec![] };
                judge(&msg, Some(&site), line, Some(col), &keys)?;
                ctx.count(if cyc { "cycles" } else { "unreadable" }, 1);
                ctx.nontrivial(&r.text);
            }
        }
        _ => {
            // Any rejected text: the position must exist.
            let toks = document(ctx, prof);
            let l = gen::layout(&mut ctx.rng);
            let text = gen::render(&mut ctx.rng, &toks, l).text;
            for _ in 0..5 {
                let e = edit(&mut ctx.rng, &text);
                ctx.note("document", &e);
                if let Err(msg) = load_str(ctx, &e)? {
                    bounds(ctx, &msg, &e, None)?;
                }
            }
        }
    }
    Ok(())
}

/// Faults further down or to the right than 16 bits count.
fn c15_far(ctx: &mut Ctx, root: &Path) -> Result<(), String> {
    let n = ctx.rng.range(65_000, 140_000);
    let pad = match ctx.rng.below(7) {
        0 => "\n".repeat(n),
        1 => "#é\r\n".repeat(n),
        2 => " ".repeat(n),
        3 => "\t".repeat(n),
        4 => format!("a: \"{}\" ", "ü".repeat(n)),
        5 => format!("a: \"{}\" ", "x\n".repeat(n)),
        _ => format!("a: {} ", "7".repeat(n.min(66_000))),
    };
    let (tail, key) = *ctx.rng.pick(&[
        ("zq: ¦?", "?"),
        ("zq: ¦nope", "nope"),
        ("¦%zq: 1", "%"),
        ("zq: [1 ¦\"x\"]", "Str"),
        ("zq: 1 ¦zq: 2", "zq"),
        ("zq: \"\\¦q\"", "q"),
        ("zq: ¦]", "]"),
        ("zq: [1].¦1", "1"),
        ("zq: 1+¦\"a\"", "Str"),
    ]);
    let (before, after) = tail.split_once('¦').unwrap();
    let before = format!("{}{}", pad, before);
    let (line, col) = gen::position(&before);
    let text = format!("{}{}", before, after);
    let from_file = ctx.rng.pct(40);
    let main = root.join("far.over");
    write(&main, text.as_bytes());
    ctx.note("document", &format!("{} bytes ending in {}", text.len(), tail));
    let src = if from_file { Src::File(main.to_str().unwrap()) } else { Src::Str(&text) };
    if let (Seen::Rejected(f, msg), _) = agree(ctx, src, ACCEPT)? {
        if (f.line, f.col) == (line, col) {
            judge(&msg, if from_file { Some(&main) } else { None }, line, Some(col), &[key.to_string()])?;
            ctx.count("far", 1);
            ctx.nontrivial(&text);
        }
    }
    Ok(())
}

/// The name of a type, in full.
fn type_name(t: &model::MTy) -> String {
    use model::MTy::*;
    match t {
        Any => "Any".into(),
        Null => "Null".into(),
        Bool => "Bool".into(),
        Int => "Int".into(),
        Frac => "Frac".into(),
        Str => "Str".into(),
        Obj => "Obj".into(),
        Arr(t) => format!("Arr({})", type_name(t)),
        Tup(ts) => format!("Tup({})", ts.iter().map(type_name).collect::<Vec<_>>().join(", ")),
    }
}

/// Values of large types where others are wanted.
fn c15_types(ctx: &mut Ctx, root: &Path) -> Result<(), String> {
    use model::MTy;
    let mut vals = vec![];
    for _ in 0..2 {
        let mut g = crate::bridge::VGen::new(&mut ctx.rng, 60, 0);
        g.depth = 6;
        let n = *g.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 9, 17, 33, 40]);
        let want = match g.rng.below(5) {
            0 => MTy::Any,
            1 => MTy::arr(MTy::Tup(vec![MTy::Any; n])),
            2 => {
                let mut t = MTy::Int;
                for _ in 0..n.min(12) {
                    t = if g.rng.bool() { MTy::arr(t) } else { MTy::Tup(vec![t]) };
                }
                t
            }
            _ => MTy::Tup((0..n).map(|i| [MTy::Int, MTy::Str, MTy::Any, MTy::Null][i % 4].clone()).collect()),
        };
        vals.push(g.val(&want, 1));
    }
    let (mut a, mut b) = (String::new(), String::new());
    crate::bridge::source(&mut ctx.rng, &vals[0], &mut a);
    crate::bridge::source(&mut ctx.rng, &vals[1], &mut b);
    let (ta, tb) = (type_name(&vals[0].ty()), type_name(&vals[1].ty()));
    let op = *ctx.rng.pick(&["+", "-", "*", "/", "%"]);
    let any = ctx.rng.pick(&["z: @vO¦@w", "z: [@vO¦@w]", "z: 2*3-@vO¦@w*4", "z: {y: @vO¦@w-5}"]).replace('O', op);
    let (tail, keys): (&str, Vec<&str>) = match ctx.rng.below(12) {
        // An Int in front of `%` becomes a Frac next to one.
        8..=11 if op == "%" && (ta == "Frac" || tb == "Frac") => (&any, vec!["Frac", op]),
        8..=11 => (&any, vec![&ta, &tb, op]),
        0 => ("z: -¦@v", vec![&ta, "-"]),
        1 => ("z: @v+¦@w", vec![&ta, &tb, "+"]),
        2 => ("z: @v*¦@w", vec![&ta, &tb, "*"]),
        3 => ("z: [@v ¦@w]", vec![&ta, &tb]),
        4 => ("z: <¦@v>", vec![&ta]),
        5 => ("z: {^: ¦@v}", vec!["Obj", &ta]),
        6 => ("^: ¦@w", vec!["Obj", &tb]),
        _ => ("z: (1 {y: @w-¦@v})", vec![&ta, &tb, "-"]),
    };
    let (before, after) = tail.split_once('¦').unwrap();
    let before = format!("@v: {}\n@w: {} {}", a, b, before);
    let (line, col) = gen::position(&before);
    let text = format!("{}{}", before, after);
    ctx.note("document", &text);
    let main = root.join("types.over");
    let from_file = ctx.rng.pct(20);
    if from_file {
        write(&main, text.as_bytes());
    }
    let src = if from_file { Src::File(main.to_str().unwrap()) } else { Src::Str(&text) };
    if let (Seen::Rejected(f, msg), _) = agree(ctx, src, ACCEPT)? {
        if (f.line, f.col) == (line, col) && f.kind != "io" {
            let keys: Vec<String> = keys.iter().map(|s| s.to_string()).collect();
            // A path that does not exist is no matter of types.
            if tail.contains('<') && ta == "Str" {
                return Ok(());
            }
            // Nor is a division by zero.
            if f.kind == "zero" {
                return Ok(());
            }
            judge(&msg, if from_file { Some(&main) } else { None }, line, Some(col), &keys)?;
            ctx.count("types_named", 1);
            ctx.nontrivial(&text);
            ctx.sample(|| format!("{}\n=> {}", text, msg));
        }
    }
    Ok(())
}

fn same_place(f: &Fault, p: &Placed) -> bool {
    if f.line != p.line || (f.kind != "end" && f.col != p.col) {
        return false;
    }
    match &f.file {
        None => p.site == p.main,
        Some(x) => std::fs::canonicalize(x).ok() == std::fs::canonicalize(&p.site).ok(),
    }
}

/// A line of the text, and a column in it (or just after it).
fn bounds(ctx: &mut Ctx, msg: &str, text: &str, file: Option<&Path>) -> Result<(), String> {
    let rest = match file {
        Some(p) => strip_file(msg, p).ok_or_else(|| format!("the error does not name the file: {:?}", msg))?,
        None => msg,
    };
    ctx.count("bounds_checked", 1);
    let lines: Vec<&str> = text.split('\n').collect();
    let ls = numbers(rest, LINE);
    let ok = ls.iter().any(|l| {
        if *l < 1 || *l > lines.len() {
            return false;
        }
        let cols = numbers(rest, COL);
        if cols.is_empty() {
            // Only a premature end has no column.
            return *l == lines.len();
        }
        // Where the offending character is a line feed, its column is left open (0 on the next
        // line, as it happens).
        let len = lines[l - 1].chars().count();
        cols.iter().any(|c| *c <= len + 1)
    });
    if !ok {
        return Err(format!("no such position in a document of {} lines: {:?}", lines.len(), rest));
    }
    Ok(())
}
