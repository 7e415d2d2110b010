//! Generator of OVER documents and include trees as token lists, with shapes tracked so that
//! most of what it writes is valid. What a document means is decided by the model.

use crate::model::{unify, Kind, MTy};
use crate::rng::Rng;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Tok {
    /// Text that must stay as it is.
    S(String),
    /// White space or comments may stand here.
    Opt,
    /// White space or a comment must stand here.
    Req,
    /// Remember this position.
    Mark(u8),
    /// A field may be inserted here.
    FSlot(usize),
    /// An element may be inserted here.
    ESlot(usize),
}

/// What the generator knows about a value.
#[derive(Clone, Debug)]
pub enum Sh {
    Null,
    Bool,
    Int(Option<i64>),
    Frac,
    Str,
    Arr(Rc<Vec<Sh>>, MTy),
    Tup(Rc<Vec<Sh>>),
    Obj(Rc<ShObj>),
}

#[derive(Clone, Debug, Default)]
pub struct ShObj {
    pub fields: Vec<(String, Sh)>,
    pub parent: Option<Rc<ShObj>>,
}

impl ShObj {
    pub fn visible(&self) -> Vec<(String, Sh)> {
        let mut v = self.fields.clone();
        let mut p = self.parent.clone();
        while let Some(o) = p {
            for f in &o.fields {
                if !v.iter().any(|g| g.0 == f.0) {
                    v.push(f.clone());
                }
            }
            p = o.parent.clone();
        }
        v
    }
}

impl Sh {
    pub fn ty(&self) -> MTy {
        match self {
            Sh::Null => MTy::Null,
            Sh::Bool => MTy::Bool,
            Sh::Int(_) => MTy::Int,
            Sh::Frac => MTy::Frac,
            Sh::Str => MTy::Str,
            Sh::Arr(_, t) => MTy::arr(t.clone()),
            Sh::Tup(v) => MTy::Tup(v.iter().map(Sh::ty).collect()),
            Sh::Obj(_) => MTy::Obj,
        }
    }

    pub fn arr(v: Vec<Sh>) -> Sh {
        let mut t = MTy::Any;
        for s in &v {
            if let Some(u) = unify(&t, &s.ty()) {
                t = u;
            }
        }
        Sh::Arr(Rc::new(v), t)
    }
}

#[derive(Clone, Debug)]
pub struct Prof {
    /// Rough number of values.
    pub size: i32,
    pub depth: usize,
    pub p_ref: u32,
    pub p_arith: u32,
    pub p_concat: u32,
    pub p_inc: u32,
    pub p_global: u32,
    pub p_parent: u32,
    /// Percentage of long or odd literals.
    pub p_odd: u32,
    /// Percentage of containers among unconstrained values.
    pub p_cont: u32,
    pub slots: bool,
    /// Include documents as strings, too.
    pub raw: bool,
}

impl Prof {
    pub fn std() -> Prof {
        Prof {
            size: 40,
            depth: 5,
            p_ref: 25,
            p_arith: 30,
            p_concat: 20,
            p_inc: 0,
            p_global: 20,
            p_parent: 15,
            p_odd: 15,
            p_cont: 45,
            slots: false,
            raw: true,
        }
    }
}

pub struct FileRec {
    /// Path relative to the root directory.
    pub path: String,
    pub toks: Vec<Tok>,
    pub kinds: Vec<(Kind, Sh)>,
}

#[derive(Clone, Debug)]
pub struct Slot {
    pub fields: Vec<(String, Sh)>,
    pub globals: Vec<(String, Sh)>,
    pub enclosing: Vec<String>,
    pub parent_set: bool,
    /// Index into Gen::files, or None for the main document.
    pub file: Option<usize>,
    pub depth: usize,
    /// Closing bracket of the container the slot is in (None: top level).
    pub close: Option<char>,
    /// Fields of the object still to come (filled in at its end).
    pub later: Vec<String>,
}

struct FileCtx {
    toks: Vec<Tok>,
    globals: Vec<(String, Sh)>,
    scopes: Vec<Vec<(String, Sh)>>,
    dir: String,
    index: Option<usize>,
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub prof: Prof,
    pub files: Vec<FileRec>,
    pub dirs: Vec<String>,
    /// Absolute path of the root directory of the files.
    pub root: String,
    pub slots: Vec<Slot>,
    cx: Vec<FileCtx>,
    left: i32,
    names: Vec<String>,
    inc_depth: usize,
}

pub const ODD_LETTERS: [&str; 18] = [
    "é", "ß", "ñ", "字", "Ω", "ж", "ǅ", "ª", "Ⅷ", "𝒳", "ا", "한", "ﬁ", "İ", "ı", "ͅ", "𐐷", "ꙮ",
];

pub fn odd_name(rng: &mut Rng) -> String {
    let mut s = String::new();
    let n = match rng.below(10) {
        0..=6 => rng.range(1, 6),
        7..=8 => rng.range(7, 40),
        _ => rng.range(41, 400),
    };
    for i in 0..n {
        match rng.below(6) {
            0 => s.push('_'),
            1 if i > 0 => s.push((b'0' + rng.below(10) as u8) as char),
            2 => s.push((b'A' + rng.below(26) as u8) as char),
            3 => s.push_str(rng.pick(&ODD_LETTERS[..])),
            _ => s.push((b'a' + rng.below(26) as u8) as char),
        }
    }
    if crate::model::is_reserved(&s) {
        s.push('_');
    }
    s
}

/// A name that is easily mistaken for the given one.
pub fn near_name(rng: &mut Rng, of: &str) -> String {
    let mut cs: Vec<char> = of.chars().collect();
    match rng.below(9) {
        0 | 1 => {
            // Another case, as long as it is one character.
            let i = rng.below(cs.len());
            let c = cs[i];
            let one = |mut it: Box<dyn Iterator<Item = char>>| match (it.next(), it.next()) {
                (Some(c), None) => Some(c),
                _ => None,
            };
            let up = one(Box::new(c.to_uppercase())).filter(|u| *u != c);
            if let Some(u) = up.or_else(|| one(Box::new(c.to_lowercase()))) {
                cs[i] = u;
            }
        }
        2 => cs.push('_'),
        3 => cs.insert(0, '_'),
        4 => {
            let c = cs[cs.len() - 1];
            cs.push(c);
        }
        5 if cs.len() > 1 => {
            cs.pop();
        }
        6 => {
            // The wide form, or an accent.
            let i = rng.below(cs.len());
            cs[i] = match cs[i] {
                c @ ('a'..='z' | 'A'..='Z') => char::from_u32(c as u32 + 0xfee0).unwrap(),
                'é' => 'e',
                c => c,
            };
        }
        7 => cs.extend("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa".chars()),
        _ => cs.push('1'),
    }
    let s: String = cs.into_iter().collect();
    if crate::model::is_reserved(&s) || !crate::model::is_name(&s) {
        return format!("{}_", of);
    }
    s
}

const PLAIN_NAMES: [&str; 24] = [
    "a", "b", "c", "x", "y", "foo", "bar", "val", "idx", "n", "_", "_1", "a1", "aa", "nulls", "nul",
    "True", "truex", "Objs", "obj", "str", "ARR", "tup", "e5",
];

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, prof: Prof) -> Gen<'a> {
        let mut names: Vec<String> = vec![];
        let k = rng.range(4, 9);
        while names.len() < k {
            let n = if !names.is_empty() && rng.pct(20) {
                let of = rng.pick(&names[..]).clone();
                near_name(rng, &of)
            } else if rng.pct(prof.p_odd) {
                odd_name(rng)
            } else {
                rng.pick(&PLAIN_NAMES[..]).to_string()
            };
            if !names.contains(&n) {
                names.push(n);
            }
        }
        let left = prof.size;
        Gen {
            rng,
            prof,
            files: vec![],
            dirs: vec![String::new()],
            root: String::new(),
            slots: vec![],
            cx: vec![],
            left,
            names,
            inc_depth: 0,
        }
    }

    /// A whole document, to stand in the given directory.
    pub fn document(&mut self, dir: &str) -> Vec<Tok> {
        self.open(dir, None);
        self.put(Tok::Opt);
        self.fields(1, None);
        self.put(Tok::Opt);
        self.cx.pop().unwrap().toks
    }

    fn open(&mut self, dir: &str, index: Option<usize>) {
        self.cx.push(FileCtx {
            toks: vec![],
            globals: vec![],
            scopes: vec![vec![]],
            dir: dir.to_string(),
            index,
        });
    }

    fn c(&mut self) -> &mut FileCtx {
        self.cx.last_mut().unwrap()
    }

    fn put(&mut self, t: Tok) {
        self.c().toks.push(t);
    }

    fn s<T: Into<String>>(&mut self, t: T) {
        let t = Tok::S(t.into());
        self.put(t);
    }

    fn slot(&mut self, elem: bool, parent_set: bool, depth: usize, close: Option<char>) -> Option<usize> {
        if !self.prof.slots {
            return None;
        }
        let c = self.cx.last().unwrap();
        let n = c.scopes.len();
        let mut enclosing = vec![];
        for s in &c.scopes[..n - 1] {
            for (f, _) in s {
                enclosing.push(f.clone());
            }
        }
        let slot = Slot {
            fields: c.scopes[n - 1].clone(),
            globals: c.globals.clone(),
            enclosing,
            parent_set,
            file: c.index,
            depth,
            close,
            later: vec![],
        };
        self.slots.push(slot);
        let id = self.slots.len() - 1;
        self.put(if elem { Tok::ESlot(id) } else { Tok::FSlot(id) });
        Some(id)
    }

    /// Field definitions of an object whose scope is on top. Returns its shape.
    fn fields(&mut self, depth: usize, close: Option<char>) -> Rc<ShObj> {
        let most = if depth == 1 { 12 } else { 5 };
        let n = if depth == 1 { self.rng.range(1, most) } else { self.rng.below(most + 1) };
        let mut parent: Option<Rc<ShObj>> = None;
        let mut had_parent = false;
        let mut my_slots = vec![];
        let mut i = 0;
        while i < n || (depth == 1 && self.left > 0 && i < 60) {
            my_slots.extend(self.slot(false, had_parent, depth, close));
            i += 1;
            if !had_parent && self.rng.pct(self.prof.p_parent) {
                self.s("^:");
                self.put(Tok::Opt);
                if let Sh::Obj(o) = self.value(&MTy::Obj, depth) {
                    parent = Some(o);
                }
                had_parent = true;
            } else if self.rng.pct(self.prof.p_global) {
                let g = self.fresh_global();
                self.s(format!("{}:", g));
                self.put(Tok::Opt);
                let sh = self.value(&MTy::Any, depth);
                self.c().globals.push((g, sh));
            } else {
                let f = self.fresh_field();
                self.s(format!("{}:", f));
                self.put(Tok::Opt);
                let sh = self.value(&MTy::Any, depth);
                self.c().scopes.last_mut().unwrap().push((f, sh));
            }
            let more = i < n || (depth == 1 && self.left > 0 && i < 60);
            self.put(if more || self.prof.slots { Tok::Req } else { Tok::Opt });
        }
        my_slots.extend(self.slot(false, had_parent, depth, close));
        let fields = self.c().scopes.last().unwrap().clone();
        for id in my_slots {
            let have = self.slots[id].fields.len();
            self.slots[id].later = fields[have..].iter().map(|f| f.0.clone()).collect();
        }
        Rc::new(ShObj { fields, parent })
    }

    fn fresh_field(&mut self) -> String {
        let mut tries = 0;
        loop {
            let mut n = self.rng.pick(&self.names).clone();
            if tries > 4 {
                n = format!("{}{}", n, self.rng.below(1000));
            }
            tries += 1;
            let sc = self.c().scopes.last().unwrap();
            if !sc.iter().any(|(m, _)| *m == n) {
                return n;
            }
        }
    }

    fn fresh_global(&mut self) -> String {
        let mut tries = 0;
        loop {
            let mut n = format!("@{}", self.rng.pick(&self.names));
            if self.rng.pct(3) {
                n = "@null".to_string();
            }
            if tries > 4 {
                n = format!("{}{}", n, self.rng.below(1000));
            }
            tries += 1;
            // A global defined inside the value of another one of the same name is an error,
            // so names under definition count as well.
            let taken = self.c().globals.iter().any(|(m, _)| *m == n)
                || self.c().toks.iter().any(|t| matches!(t, Tok::S(s) if s.len() == n.len() + 1 && s.starts_with(&*n)));
            if !taken {
                return n;
            }
        }
    }

    fn random_type(&mut self, depth: usize) -> MTy {
        let deep = depth >= self.prof.depth || self.left <= 0;
        if !deep && self.rng.pct(self.prof.p_cont) {
            match self.rng.weighted(&[3, 3, 3]) {
                0 => {
                    let t = self.random_type(depth + 1);
                    MTy::arr(t)
                }
                1 => {
                    let n = self.rng.below(4);
                    let mut v = vec![];
                    for _ in 0..n {
                        v.push(self.random_type(depth + 1));
                    }
                    MTy::Tup(v)
                }
                _ => MTy::Obj,
            }
        } else {
            match self.rng.weighted(&[2, 2, 6, 4, 5]) {
                0 => MTy::Null,
                1 => MTy::Bool,
                2 => MTy::Int,
                3 => MTy::Frac,
                _ => MTy::Str,
            }
        }
    }

    /// Writes an expression whose type is compatible with `want`.
    pub fn value(&mut self, want: &MTy, depth: usize) -> Sh {
        self.left -= 1;
        if self.rng.pct(self.prof.p_ref) {
            if let Some((text, sh)) = self.reference(want) {
                self.s(text);
                return sh;
            }
        }
        let t = match want {
            MTy::Any => self.random_type(depth),
            t => t.clone(),
        };
        match t {
            MTy::Any => unreachable!(),
            MTy::Null => {
                self.s("null");
                Sh::Null
            }
            MTy::Bool => {
                let b = if self.rng.bool() { "true" } else { "false" };
                self.s(b);
                Sh::Bool
            }
            MTy::Int | MTy::Frac => {
                let frac = t == MTy::Frac;
                if self.rng.pct(self.prof.p_arith) {
                    let text = self.arith(frac);
                    self.s(text);
                    if frac {
                        Sh::Frac
                    } else {
                        Sh::Int(None)
                    }
                } else {
                    let (text, sh) = self.signed_literal(frac);
                    self.s(text);
                    sh
                }
            }
            MTy::Str => {
                let k = if self.rng.pct(self.prof.p_concat) { self.rng.range(2, 4) } else { 1 };
                for i in 0..k {
                    if i > 0 {
                        self.s("+");
                    }
                    self.str_operand(depth);
                }
                Sh::Str
            }
            MTy::Arr(e) => {
                let k = if self.rng.pct(self.prof.p_concat) { self.rng.range(2, 3) } else { 1 };
                let mut all = vec![];
                for i in 0..k {
                    if i > 0 {
                        self.s("+");
                    }
                    if let Sh::Arr(v, _) = self.arr_operand(&e, depth) {
                        all.extend(v.iter().cloned());
                    }
                }
                Sh::arr(all)
            }
            MTy::Tup(ts) => {
                if self.may_include(depth) {
                    if let Some(sh) = self.include(Kind::Tup, &MTy::Tup(ts.clone()), depth) {
                        return sh;
                    }
                }
                self.s("(");
                self.put(Tok::Opt);
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    if i > 0 {
                        self.put(Tok::Req);
                    }
                    self.slot(true, false, depth + 1, Some(')'));
                    v.push(self.value(t, depth + 1));
                }
                self.put(if self.prof.slots && !ts.is_empty() { Tok::Req } else { Tok::Opt });
                self.slot(true, false, depth + 1, Some(')'));
                self.s(")");
                Sh::Tup(Rc::new(v))
            }
            MTy::Obj => {
                if self.may_include(depth) {
                    if let Some(sh) = self.include(Kind::Obj, &MTy::Obj, depth) {
                        return sh;
                    }
                }
                self.s("{");
                self.put(Tok::Opt);
                self.c().scopes.push(vec![]);
                let o = if depth + 1 > self.prof.depth + 3 {
                    Rc::new(ShObj::default())
                } else {
                    self.fields(depth + 1, Some('}'))
                };
                self.c().scopes.pop();
                self.s("}");
                Sh::Obj(o)
            }
        }
    }

    fn str_operand(&mut self, depth: usize) {
        if self.rng.pct(self.prof.p_ref) {
            if let Some((text, _)) = self.reference(&MTy::Str) {
                self.s(text);
                return;
            }
        }
        if self.may_include(depth) && self.include(Kind::Str, &MTy::Str, depth).is_some() {
            return;
        }
        let s = self.string_content();
        let lit = string_literal(self.rng, &s);
        self.s(lit);
    }

    fn arr_operand(&mut self, e: &MTy, depth: usize) -> Sh {
        if self.rng.pct(self.prof.p_ref) {
            if let Some((text, sh)) = self.reference(&MTy::arr(e.clone())) {
                self.s(text);
                return sh;
            }
        }
        if self.may_include(depth) {
            if let Some(sh) = self.include(Kind::Arr, &MTy::arr(e.clone()), depth) {
                return sh;
            }
        }
        let n = match self.rng.below(10) {
            0 | 1 => 0,
            2 | 3 => 1,
            _ => self.rng.range(2, 5),
        };
        let n = if self.left <= 0 { n.min(1) } else { n };
        self.s("[");
        self.put(Tok::Opt);
        let v = self.elements(e, n, depth + 1, Some(']'));
        self.s("]");
        Sh::arr(v)
    }

    fn elements(&mut self, e: &MTy, n: usize, depth: usize, close: Option<char>) -> Vec<Sh> {
        let mut v = vec![];
        let t = if *e == MTy::Any { self.random_type(depth) } else { e.clone() };
        for i in 0..n {
            if i > 0 {
                self.put(Tok::Req);
            }
            self.slot(true, false, depth, close);
            v.push(self.value(&t, depth));
        }
        self.put(if self.prof.slots && n > 0 { Tok::Req } else { Tok::Opt });
        self.slot(true, false, depth, close);
        v
    }

    // ------------------------------------------------------------ references

    /// Text of a reference to something in scope whose type is compatible with `want`.
    fn reference(&mut self, want: &MTy) -> Option<(String, Sh)> {
        for _ in 0..6 {
            let c = self.cx.last().unwrap();
            let fields = c.scopes.last().unwrap();
            let total = fields.len() + c.globals.len();
            if total == 0 {
                return None;
            }
            let k = self.rng.below(total);
            let c = self.cx.last().unwrap();
            let fields = c.scopes.last().unwrap();
            let (name, sh) = if k < fields.len() { fields[k].clone() } else { c.globals[k - fields.len()].clone() };
            let mut text = name;
            let mut cur = sh;
            let mut direct = true;
            let hops = self.rng.below(4);
            let mut h = 0;
            loop {
                if unify(&cur.ty(), want).is_some() && (h >= hops || self.rng.pct(30)) && (*want != MTy::Any || h >= hops) {
                    return Some((text, cur));
                }
                if h >= 4 {
                    break;
                }
                h += 1;
                match cur.clone() {
                    Sh::Obj(o) => {
                        let vis = o.visible();
                        if vis.is_empty() {
                            break;
                        }
                        let (n, s) = vis[self.rng.below(vis.len())].clone();
                        text.push('.');
                        text.push_str(&n);
                        cur = s;
                        direct = false;
                    }
                    Sh::Arr(v, _) | Sh::Tup(v) => {
                        if v.is_empty() {
                            break;
                        }
                        let (t, i) = self.index(v.len(), direct);
                        text.push('.');
                        text.push_str(&t);
                        cur = v[i].clone();
                        if unify(&cur.ty(), want).is_some() {
                            return Some((text, cur));
                        }
                        break;
                    }
                    _ => break,
                }
            }
        }
        None
    }

    fn index(&mut self, len: usize, direct: bool) -> (String, usize) {
        if self.rng.pct(45) {
            // A variable holding a usable index.
            let c = self.cx.last().unwrap();
            let mut cand = vec![];
            if direct {
                for (n, s) in c.scopes.last().unwrap() {
                    if let Sh::Int(Some(i)) = s {
                        if *i >= 0 && (*i as usize) < len {
                            cand.push((n.clone(), *i as usize));
                        }
                    }
                }
            }
            for (n, s) in &c.globals {
                if let Sh::Int(Some(i)) = s {
                    if *i >= 0 && (*i as usize) < len {
                        cand.push((n.clone(), *i as usize));
                    }
                }
            }
            if !cand.is_empty() {
                return cand[self.rng.below(cand.len())].clone();
            }
        }
        let i = self.rng.below(len);
        let t = match self.rng.below(10) {
            0 => format!("0{}", i),
            1 => format!("0_{}", i),
            _ => i.to_string(),
        };
        (t, i)
    }

    // ------------------------------------------------------------ numbers

    pub fn signed_literal(&mut self, frac: bool) -> (String, Sh) {
        let (t, sh) = if frac { (decimal_literal(self.rng, self.prof.p_odd), Sh::Frac) } else { self.int_literal() };
        let signs = match self.rng.below(20) {
            0..=11 => "",
            12..=16 => "-",
            17 => "+",
            18 => "--",
            _ => "-+-",
        };
        let neg = signs.matches('-').count() % 2 == 1;
        let sh = match sh {
            Sh::Int(Some(i)) if neg => Sh::Int(Some(-i)),
            s => s,
        };
        (format!("{}{}", signs, t), sh)
    }

    fn int_literal(&mut self) -> (String, Sh) {
        if self.rng.pct(60) {
            let i = self.rng.below(6) as i64;
            return (i.to_string(), Sh::Int(Some(i)));
        }
        (int_literal(self.rng, self.prof.p_odd), Sh::Int(None))
    }

    /// Text of an arithmetic expression of type Int or Frac.
    pub fn arith(&mut self, frac: bool) -> String {
        let terms = self.rng.range(1, 4);
        let must = if frac { self.rng.below(terms) } else { usize::MAX };
        let mut out = String::new();
        for t in 0..terms {
            if t > 0 {
                out.push(if self.rng.bool() { '+' } else { '-' });
            }
            let want_frac = t == must || (frac && self.rng.pct(25));
            let factors = self.rng.weighted(&[5, 4, 2, 1]) + 1;
            let mut is_frac = want_frac && self.rng.bool();
            out.push_str(&self.factor(is_frac, false));
            for i in 1..factors {
                let last = i == factors - 1;
                let need = want_frac && !is_frac && last;
                let ops: &[char] = if need {
                    &['/']
                } else if want_frac && is_frac {
                    &['*', '/']
                } else if want_frac {
                    &['*', '/', '%']
                } else {
                    &['*', '%', '*']
                };
                let op = *self.rng.pick(ops);
                let f = frac && want_frac && op != '%' && self.rng.pct(30);
                out.push(op);
                out.push_str(&self.factor(f, op != '*'));
                is_frac = is_frac || op == '/' || f;
            }
            if want_frac && !is_frac {
                out.push('/');
                out.push_str(&self.factor(false, true));
            }
        }
        out
    }

    fn factor(&mut self, frac: bool, nonzero: bool) -> String {
        if !nonzero && self.rng.pct(self.prof.p_ref) {
            if let Some((t, _)) = self.reference(if frac { &MTy::Frac } else { &MTy::Int }) {
                return if self.rng.pct(15) { format!("-{}", t) } else { t };
            }
        }
        for _ in 0..8 {
            let (t, _) = self.signed_literal(frac);
            let zero = !t.chars().any(|c| ('1'..='9').contains(&c));
            if !(nonzero && zero) || self.rng.pct(1) {
                return t;
            }
        }
        "7".into()
    }

    // ------------------------------------------------------------ strings

    pub fn string_content(&mut self) -> String {
        string_content(self.rng, self.prof.p_odd)
    }

    // ------------------------------------------------------------ includes

    fn may_include(&mut self, depth: usize) -> bool {
        self.prof.p_inc > 0 && depth < 40 && self.rng.pct(self.prof.p_inc)
    }

    fn include(&mut self, kind: Kind, want: &MTy, depth: usize) -> Option<Sh> {
        let mut found = None;
        if self.rng.pct(50) {
            let mut cand = vec![];
            for (i, f) in self.files.iter().enumerate() {
                if f.kinds.is_empty() {
                    continue;
                }
                if kind == Kind::Str && self.prof.raw {
                    cand.push((i, Sh::Str));
                }
                for (k, sh) in &f.kinds {
                    if *k == kind && unify(&sh.ty(), want).is_some() {
                        cand.push((i, sh.clone()));
                    }
                }
            }
            if !cand.is_empty() {
                found = Some(cand[self.rng.below(cand.len())].clone());
            }
        }
        if found.is_none() {
            if self.inc_depth >= 4 || self.files.len() > 12 {
                return None;
            }
            found = Some(self.new_file(kind, want, depth));
        }
        let (i, sh) = found?;
        let path = self.files[i].path.clone();
        let spelled = self.spell(&path);
        self.s("<");
        self.put(Tok::Opt);
        let kw = match kind {
            Kind::Obj => {
                if self.rng.bool() {
                    "Obj"
                } else {
                    ""
                }
            }
            Kind::Str => "Str",
            Kind::Arr => "Arr",
            Kind::Tup => "Tup",
        };
        if !kw.is_empty() {
            self.s(kw);
            self.put(Tok::Req);
        }
        if self.rng.pct(15) && spelled.chars().count() > 1 {
            let n = spelled.chars().count();
            let cut = self.rng.range(1, n - 1);
            let a: String = spelled.chars().take(cut).collect();
            let b: String = spelled.chars().skip(cut).collect();
            let (a, b) = (string_literal(self.rng, &a), string_literal(self.rng, &b));
            self.s(format!("{}+{}", a, b));
        } else {
            let lit = string_literal(self.rng, &spelled);
            self.s(lit);
        }
        self.put(Tok::Opt);
        self.s(">");
        Some(sh)
    }

    /// Some spelling of the path from the directory of the current file.
    pub fn spell(&mut self, path: &str) -> String {
        let dir = self.cx.last().unwrap().dir.clone();
        spell(self.rng, &self.root, &dir, path, &self.dirs)
    }

    fn new_file(&mut self, kind: Kind, want: &MTy, depth: usize) -> (usize, Sh) {
        let dir = if self.rng.pct(40) || self.dirs.len() > 6 {
            self.dirs[self.rng.below(self.dirs.len())].clone()
        } else {
            let base = self.dirs[self.rng.below(self.dirs.len())].clone();
            let name = *self.rng.pick(&["d", "inc", "sub dir", "δ", "d.over", "..x", "Str", "d\\e", "\"d\"", "~", "$HOME", "..."]);
            let d = if base.is_empty() { name.to_string() } else { format!("{}/{}", base, name) };
            if !self.dirs.contains(&d) {
                self.dirs.push(d.clone());
            }
            d
        };
        let n = self.files.len();
        let name = match self.rng.below(10) {
            4 => format!("{}{}{}", self.rng.pick(&ODD_PARTS), n, self.rng.pick(&ODD_PARTS)),
            0 => format!("f{}", n),
            1 => format!("f {}'$.over", n),
            2 => format!("ñ{}.over", n),
            3 => format!("#{}.over", n),
            _ => format!("f{}.over", n),
        };
        let path = if dir.is_empty() { name } else { format!("{}/{}", dir, name) };
        // Reserve the place; a file without kinds is not offered for inclusion.
        self.files.push(FileRec { path, toks: vec![], kinds: vec![] });
        self.open(&dir, Some(n));
        self.inc_depth += 1;
        let mut kinds = vec![];
        match kind {
            Kind::Str => {
                let s = self.string_content();
                self.s(s);
                kinds.push((Kind::Str, Sh::Str));
            }
            Kind::Obj => {
                self.put(Tok::Opt);
                let o = self.fields(depth.max(2), None);
                kinds.push((Kind::Obj, Sh::Obj(o)));
            }
            Kind::Arr => {
                let e = match want {
                    MTy::Arr(e) => (**e).clone(),
                    _ => MTy::Any,
                };
                self.put(Tok::Opt);
                let k = self.rng.below(5);
                let v = self.elements(&e, k, depth + 1, None);
                kinds.push((Kind::Tup, Sh::Tup(Rc::new(v.clone()))));
                kinds.push((Kind::Arr, Sh::arr(v)));
            }
            Kind::Tup => {
                let ts = match want {
                    MTy::Tup(ts) => ts.clone(),
                    _ => vec![],
                };
                self.put(Tok::Opt);
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    if i > 0 {
                        self.put(Tok::Req);
                    }
                    self.slot(true, false, depth + 1, None);
                    v.push(self.value(t, depth + 1));
                }
                self.put(Tok::Opt);
                kinds.push((Kind::Tup, Sh::Tup(Rc::new(v))));
            }
        }
        self.inc_depth -= 1;
        let cx = self.cx.pop().unwrap();
        let sh = kinds.iter().find(|k| k.0 == kind).unwrap().1.clone();
        self.files[n].toks = cx.toks;
        self.files[n].kinds = kinds;
        (n, sh)
    }
}

/// Parts of file names that mean something elsewhere, or are easily lost.
pub const ODD_PARTS: [&str; 34] = [
    "\\", "\"", "'", "\"f", "f\"", "~", "%41", "%2F", "$HOME", "${x}", "`", "\n", "\r\n", "\t", " ", "\u{a0}", "\u{feff}", "\u{200b}", "<", ">", "#", "*",
    "?", "[a]", "{b}", "a:b", "file:", "C:\\f", "\\n", "..\\", "-", ";", "e\u{301}", "\u{1}",
];

/// Some spelling of `path` (relative to root) as seen from directory `dir`.
pub fn spell(rng: &mut Rng, root: &str, dir: &str, path: &str, dirs: &[String]) -> String {
    let from: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
    let to: Vec<&str> = path.split('/').collect();
    let mut common = 0;
    while common < from.len() && common + 1 < to.len() && from[common] == to[common] {
        common += 1;
    }
    let mut parts: Vec<String> = vec![];
    for _ in common..from.len() {
        parts.push("..".into());
    }
    for t in &to[common..] {
        parts.push(t.to_string());
    }
    match rng.below(10) {
        0 => return format!("{}/{}", root, path),
        1 => parts.insert(0, ".".into()),
        2 => {
            let at = rng.below(parts.len());
            parts.insert(at, ".".into());
        }
        3 => {
            // Down into a directory and out again.
            let here: Vec<&String> = dirs
                .iter()
                .filter(|d| !d.is_empty() && (dir.is_empty() && !d.contains('/') || d.rsplit_once('/').map_or(false, |(p, _)| p == dir)))
                .collect();
            if !here.is_empty() {
                let d = here[rng.below(here.len())];
                let last = d.rsplit('/').next().unwrap().to_string();
                parts.insert(0, "..".into());
                parts.insert(0, last);
            }
        }
        4 => return parts.join("//"),
        5 if !from.is_empty() => {
            // All the way up and down again.
            let mut p: Vec<String> = from.iter().map(|_| "..".to_string()).collect();
            p.extend(to.iter().map(|t| t.to_string()));
            return p.join("/");
        }
        _ => (),
    }
    parts.join("/")
}

// ---------------------------------------------------------------- literals

pub fn digits(rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect()
}

fn underscored(rng: &mut Rng, s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && rng.pct(30) && !out.ends_with('_') {
            out.push('_');
        }
        out.push(c);
    }
    out
}

pub fn digit_count(rng: &mut Rng, odd: u32) -> usize {
    if rng.pct(odd) {
        match rng.below(8) {
            0..=3 => rng.range(10, 45),
            4..=6 => rng.range(46, 200),
            _ => rng.range(201, 1200),
        }
    } else {
        rng.range(1, 12)
    }
}

/// An unsigned integer literal.
pub fn int_literal(rng: &mut Rng, odd: u32) -> String {
    let mut s = match rng.below(4) {
        0 => {
            let k = *rng.pick(&[7u32, 8, 15, 16, 31, 32, 53, 62, 63, 64, 127, 128]);
            let b = num_bigint::BigInt::from(1) << (k as usize);
            let d = rng.below(3) as i64 - 1;
            (b + d).to_string()
        }
        1 => format!("1{}", "0".repeat(digit_count(rng, odd))),
        _ => {
            let n = digit_count(rng, odd);
            digits(rng, n)
        }
    };
    if rng.pct(10) {
        s = format!("{}{}", "0".repeat(rng.range(1, 4)), s);
    }
    if rng.pct(20) {
        s = underscored(rng, &s);
    }
    s
}

/// An unsigned decimal literal.
pub fn decimal_literal(rng: &mut Rng, odd: u32) -> String {
    let a = match rng.below(6) {
        0 => String::new(),
        1 => "0".into(),
        2 => "00".into(),
        _ => {
            let n = digit_count(rng, odd).min(300);
            digits(rng, n)
        }
    };
    let mut b = match rng.below(8) {
        0 => String::new(),
        1 => "0".repeat(rng.range(1, 5)),
        2 => {
            let z = rng.below(25);
            let n = rng.range(1, 3);
            format!("{}{}", "0".repeat(z), digits(rng, n))
        }
        _ => {
            let n = digit_count(rng, odd).min(300);
            digits(rng, n)
        }
    };
    if rng.pct(20) {
        b.push_str(&"0".repeat(rng.range(1, 30)));
    }
    if a.is_empty() && b.is_empty() {
        b.push('5');
    }
    let (mut a, mut b) = (a, b);
    if rng.pct(15) {
        a = underscored(rng, &a);
        b = underscored(rng, &b);
    }
    let point = if rng.pct(12) { ',' } else { '.' };
    format!("{}{}{}", a, point, b)
}

pub fn any_char(rng: &mut Rng) -> char {
    loop {
        let c = match rng.below(12) {
            0..=4 => (0x20 + rng.below(0x5f)) as u32,
            5 => *rng.pick(&[0x22u32, 0x5c, 0x27, 0x24, 0x0a, 0x0d, 0x09, 0x23]),
            6 => rng.below(0x20) as u32,
            7 => (0x7f + rng.below(0x180)) as u32,
            8 => *rng.pick(&[
                0xfeffu32, 0xfffd, 0xffff, 0x10ffff, 0x2028, 0x2029, 0x85, 0xa0, 0x200d, 0x301, 0x202e, 0xd7ff,
                0xe000, 0x1f468, 0x0,
            ]),
            9 => rng.below(0x3000) as u32,
            10 => rng.below(0x10000) as u32,
            _ => rng.below(0x110000) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

pub fn string_content(rng: &mut Rng, odd: u32) -> String {
    if !rng.pct(odd + 30) {
        return rng.pick(&["", "a", "x y", "hello", "smörgåsbord", "1", "null", "@a", "foo: 1"]).to_string();
    }
    let n = if rng.pct(odd) {
        match rng.below(8) {
            0..=3 => rng.range(10, 60),
            4..=6 => rng.range(60, 300),
            _ => rng.range(300, 3000),
        }
    } else {
        rng.range(0, 10)
    };
    match rng.below(10) {
        0 => {
            // Ends in backslashes or quotes, looks like something else.
            let p = *rng.pick(&["\\", "\\\\", "\\\"", "\\n", "$", "${x}", "'", "\"", "\r\n", "# no comment", "\n# \"", "}", "]"]);
            p.repeat(rng.range(1, 4))
        }
        _ => (0..n).map(|_| any_char(rng)).collect(),
    }
}

/// Some literal for the given content.
pub fn string_literal(rng: &mut Rng, content: &str) -> String {
    let mut out = String::with_capacity(content.len() + 2);
    out.push('"');
    let style = rng.below(3);
    for c in content.chars() {
        let esc = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '\'' => Some('\''),
            '$' => Some('$'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        let must = c == '"' || c == '\\';
        match esc {
            Some(e) if must || style == 0 || (style == 1 && rng.bool()) => {
                out.push('\\');
                out.push(e);
            }
            _ => out.push(c),
        }
    }
    out.push('"');
    out
}

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layout {
    Minimal,
    Normal,
    Wild,
}

pub const SPACES: [char; 25] = [
    ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}',
    '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}',
    '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

fn comment(rng: &mut Rng, wild: bool) -> String {
    let mut s = String::from("#");
    if wild {
        for _ in 0..rng.below(20) {
            let c = any_char(rng);
            if c != '\n' {
                s.push(c);
            }
        }
        if rng.pct(20) {
            s.push_str(rng.pick(&["\"", "}", "a: 1", "\\", "#", "\r", "<", "\u{85}", "\u{2028}"]));
        }
    } else {
        s.push_str(rng.pick(&[" c", "", " a: 1", " \"", "}"]));
    }
    if rng.pct(30) {
        s.push('\r');
    }
    s.push('\n');
    s
}

fn gap(rng: &mut Rng, layout: Layout, need: bool) -> String {
    let mut s = String::new();
    match layout {
        Layout::Minimal => {
            if need {
                s.push(if rng.pct(80) { ' ' } else { '\n' });
            }
        }
        Layout::Normal => {
            if need || rng.pct(40) {
                match rng.below(10) {
                    0..=4 => s.push(' '),
                    5..=7 => {
                        s.push('\n');
                        s.push_str(&" ".repeat(rng.below(5)));
                    }
                    8 => s.push_str("\r\n"),
                    _ => {
                        s.push(' ');
                        s.push_str(&comment(rng, false));
                    }
                }
            }
        }
        Layout::Wild => {
            let k = rng.below(4) + need as usize;
            for _ in 0..k {
                if rng.pct(25) {
                    s.push_str(&comment(rng, true));
                } else if rng.pct(30) {
                    s.push_str(rng.pick(&["\r\n", "\n", "\t", " "]));
                } else {
                    s.push(*rng.pick(&SPACES[..]));
                }
            }
        }
    }
    s
}

#[derive(Clone, Debug, Default)]
pub struct Rendered {
    pub text: String,
    /// Line and column of each mark.
    pub marks: HashMap<u8, (usize, usize)>,
}

pub fn render(rng: &mut Rng, toks: &[Tok], layout: Layout) -> Rendered {
    let mut out = Rendered::default();
    for t in toks {
        match t {
            Tok::S(s) => out.text.push_str(s),
            Tok::Opt => out.text.push_str(&gap(rng, layout, false)),
            Tok::Req => out.text.push_str(&gap(rng, layout, true)),
            Tok::Mark(m) => {
                let p = position(&out.text);
                out.marks.insert(*m, p);
            }
            Tok::FSlot(_) | Tok::ESlot(_) => (),
        }
    }
    out
}

/// Line and column of the character after this text.
pub fn position(text: &str) -> (usize, usize) {
    let line = 1 + text.matches('\n').count();
    let last = text.rsplit('\n').next().unwrap_or("");
    (line, 1 + last.chars().count())
}

pub fn layout(rng: &mut Rng) -> Layout {
    match rng.below(10) {
        0..=1 => Layout::Minimal,
        2..=6 => Layout::Normal,
        _ => Layout::Wild,
    }
}
