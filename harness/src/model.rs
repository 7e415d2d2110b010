//! Executable model of the OVER language: an interpreter of document text that
//! shares no code with the library under test. It is the oracle of most checks.

use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub const LIMIT: usize = 64;

// ---------------------------------------------------------------- types

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MTy {
    Any,
    Null,
    Bool,
    Int,
    Frac,
    Str,
    Arr(Box<MTy>),
    Tup(Vec<MTy>),
    Obj,
}

impl MTy {
    pub fn arr(t: MTy) -> MTy {
        MTy::Arr(Box::new(t))
    }

    pub fn size(&self) -> usize {
        match self {
            MTy::Arr(t) => 1 + t.size(),
            MTy::Tup(ts) => 1 + ts.iter().map(MTy::size).sum::<usize>(),
            _ => 1,
        }
    }

    pub fn has_any(&self) -> bool {
        match self {
            MTy::Any => true,
            MTy::Arr(t) => t.has_any(),
            MTy::Tup(ts) => ts.iter().any(MTy::has_any),
            _ => false,
        }
    }

    pub fn show(&self) -> String {
        match self {
            MTy::Arr(t) => format!("Arr({})", t.show()),
            MTy::Tup(ts) => {
                format!("Tup({})", ts.iter().map(MTy::show).collect::<Vec<_>>().join(", "))
            }
            t => format!("{:?}", t),
        }
    }
}

/// The least specific type that fills in the unknown parts of both, if there is one.
pub fn unify(a: &MTy, b: &MTy) -> Option<MTy> {
    match (a, b) {
        (MTy::Any, t) | (t, MTy::Any) => Some(t.clone()),
        (MTy::Arr(x), MTy::Arr(y)) => Some(MTy::arr(unify(x, y)?)),
        (MTy::Tup(x), MTy::Tup(y)) => {
            if x.len() != y.len() {
                return None;
            }
            let mut v = vec![];
            for (p, q) in x.iter().zip(y) {
                v.push(unify(p, q)?);
            }
            Some(MTy::Tup(v))
        }
        (x, y) if x == y => Some(x.clone()),
        _ => None,
    }
}

// ---------------------------------------------------------------- values

#[derive(Clone, Debug)]
pub enum MV {
    Null,
    Bool(bool),
    Int(BigInt),
    Frac(BigRational),
    Str(Rc<str>),
    Arr(Rc<MArr>),
    Tup(Rc<MTup>),
    Obj(Rc<MObj>),
}

#[derive(Debug)]
pub struct MArr {
    pub vals: Vec<MV>,
    pub inner: MTy,
}

#[derive(Debug)]
pub struct MTup {
    pub vals: Vec<MV>,
    pub ty: MTy,
}

#[derive(Debug)]
pub struct MObj {
    pub fields: Vec<(Rc<str>, MV)>,
    pub parent: Option<Rc<MObj>>,
}

impl MObj {
    pub fn own(&self, name: &str) -> Option<&MV> {
        self.fields.iter().find(|(n, _)| &**n == name).map(|(_, v)| v)
    }

    pub fn lookup(&self, name: &str) -> Option<&MV> {
        let mut o = self;
        loop {
            if let Some(v) = o.own(name) {
                return Some(v);
            }
            match &o.parent {
                Some(p) => o = p,
                None => return None,
            }
        }
    }
}

impl MV {
    pub fn str(s: &str) -> MV {
        MV::Str(Rc::from(s))
    }

    pub fn int(i: i64) -> MV {
        MV::Int(BigInt::from(i))
    }

    /// None if the elements have no common type.
    pub fn arr(vals: Vec<MV>) -> Option<MV> {
        let mut t = MTy::Any;
        for v in &vals {
            t = unify(&t, &v.ty())?;
        }
        Some(MV::Arr(Rc::new(MArr { vals, inner: t })))
    }

    pub fn tup(vals: Vec<MV>) -> MV {
        let ty = MTy::Tup(vals.iter().map(MV::ty).collect());
        MV::Tup(Rc::new(MTup { vals, ty }))
    }

    pub fn obj(fields: Vec<(Rc<str>, MV)>, parent: Option<Rc<MObj>>) -> MV {
        MV::Obj(Rc::new(MObj { fields, parent }))
    }

    pub fn ty(&self) -> MTy {
        match self {
            MV::Null => MTy::Null,
            MV::Bool(_) => MTy::Bool,
            MV::Int(_) => MTy::Int,
            MV::Frac(_) => MTy::Frac,
            MV::Str(_) => MTy::Str,
            MV::Arr(a) => MTy::arr(a.inner.clone()),
            MV::Tup(t) => t.ty.clone(),
            MV::Obj(_) => MTy::Obj,
        }
    }

    fn ty_size(&self) -> usize {
        match self {
            MV::Arr(a) => 1 + a.inner.size(),
            MV::Tup(t) => t.ty.size(),
            _ => 1,
        }
    }
}

/// Structural equality; the order of fields plays no part.
pub fn eq(a: &MV, b: &MV) -> bool {
    match (a, b) {
        (MV::Null, MV::Null) => true,
        (MV::Bool(x), MV::Bool(y)) => x == y,
        (MV::Int(x), MV::Int(y)) => x == y,
        (MV::Frac(x), MV::Frac(y)) => x == y,
        (MV::Str(x), MV::Str(y)) => x == y,
        (MV::Arr(x), MV::Arr(y)) => {
            x.vals.len() == y.vals.len() && x.vals.iter().zip(&y.vals).all(|(p, q)| eq(p, q))
        }
        (MV::Tup(x), MV::Tup(y)) => {
            x.vals.len() == y.vals.len() && x.vals.iter().zip(&y.vals).all(|(p, q)| eq(p, q))
        }
        (MV::Obj(x), MV::Obj(y)) => obj_eq(x, y),
        _ => false,
    }
}

pub fn obj_eq(x: &MObj, y: &MObj) -> bool {
    if x.fields.len() != y.fields.len() {
        return false;
    }
    let parents = match (&x.parent, &y.parent) {
        (None, None) => true,
        (Some(p), Some(q)) => obj_eq(p, q),
        _ => false,
    };
    parents
        && x.fields.iter().all(|(n, v)| match y.own(n) {
            Some(w) => eq(v, w),
            None => false,
        })
}

/// Nesting of the written form of an object (the document counts as 1).
pub fn written_depth(o: &MObj) -> usize {
    fn val(v: &MV, memo: &mut HashMap<usize, usize>) -> usize {
        match v {
            MV::Arr(a) => {
                let key = Rc::as_ptr(a) as usize;
                if let Some(d) = memo.get(&key) {
                    return *d;
                }
                let d = 1 + a.vals.iter().map(|v| val(v, memo)).max().unwrap_or(0);
                memo.insert(key, d);
                d
            }
            MV::Tup(a) => {
                let key = Rc::as_ptr(a) as usize;
                if let Some(d) = memo.get(&key) {
                    return *d;
                }
                let d = 1 + a.vals.iter().map(|v| val(v, memo)).max().unwrap_or(0);
                memo.insert(key, d);
                d
            }
            MV::Obj(o) => obj(o, memo),
            _ => 0,
        }
    }
    fn obj(o: &MObj, memo: &mut HashMap<usize, usize>) -> usize {
        let key = o as *const MObj as usize;
        if let Some(d) = memo.get(&key) {
            return *d;
        }
        let f = o.fields.iter().map(|(_, v)| val(v, memo)).max().unwrap_or(0);
        let p = o.parent.as_ref().map(|p| obj(p, memo)).unwrap_or(0);
        let d = 1 + f.max(p);
        memo.insert(key, d);
        d
    }
    obj(o, &mut HashMap::new())
}

/// Number of nodes of the value written out as a tree (saturating).
pub fn tree_size(o: &MObj) -> u64 {
    fn val(v: &MV, memo: &mut HashMap<usize, u64>) -> u64 {
        let (key, vals): (usize, &Vec<MV>) = match v {
            MV::Arr(a) => (Rc::as_ptr(a) as usize, &a.vals),
            MV::Tup(a) => (Rc::as_ptr(a) as usize, &a.vals),
            MV::Obj(o) => return obj(o, memo),
            MV::Str(s) => return 1 + s.len() as u64 / 8,
            MV::Int(i) => return 1 + i.bits() as u64 / 64,
            MV::Frac(f) => return 1 + (f.numer().bits() + f.denom().bits()) as u64 / 64,
            _ => return 1,
        };
        if let Some(d) = memo.get(&key) {
            return *d;
        }
        let mut d = 1u64;
        for v in vals {
            d = d.saturating_add(val(v, memo));
        }
        memo.insert(key, d);
        d
    }
    fn obj(o: &MObj, memo: &mut HashMap<usize, u64>) -> u64 {
        let key = o as *const MObj as usize;
        if let Some(d) = memo.get(&key) {
            return *d;
        }
        let mut d = 1u64;
        for (_, v) in &o.fields {
            d = d.saturating_add(val(v, memo));
        }
        if let Some(p) = &o.parent {
            d = d.saturating_add(obj(p, memo));
        }
        memo.insert(key, d);
        d
    }
    obj(o, &mut HashMap::new())
}

// ---------------------------------------------------------------- faults

#[derive(Clone, Debug)]
pub struct Fault {
    pub kind: &'static str,
    pub file: Option<String>,
    pub line: usize,
    pub col: usize,
}

#[derive(Debug)]
pub enum Stop {
    Fault(Fault),
    /// The language leaves this open.
    Unspec(&'static str),
    /// The value is too large to be worth computing.
    TooBig,
}

pub type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Obj,
    Str,
    Arr,
    Tup,
}

/// State of one load: what has been included, and what is being loaded.
pub struct World {
    cache: HashMap<(PathBuf, Kind), MV>,
    stack: Vec<PathBuf>,
    budget: i64,
    /// Every file read by this load, in order: canonical path and kind.
    pub reads: Vec<(PathBuf, Kind)>,
    /// Counts of the language constructs evaluated.
    pub feats: [u64; 16],
}

pub const FEATS: [&str; 16] = [
    "field", "global", "parent", "array", "tuple", "object", "string", "int", "decimal", "plain_ref",
    "global_ref", "dot", "binary_op", "unary_op", "include", "include_cached",
];
const F_FIELD: usize = 0;
const F_GLOBAL: usize = 1;
const F_PARENT: usize = 2;
const F_ARR: usize = 3;
const F_TUP: usize = 4;
const F_OBJ: usize = 5;
const F_STR: usize = 6;
const F_INT: usize = 7;
const F_DEC: usize = 8;
const F_REF: usize = 9;
const F_GREF: usize = 10;
const F_DOT: usize = 11;
const F_BIN: usize = 12;
const F_UN: usize = 13;
const F_INC: usize = 14;
const F_INCC: usize = 15;

impl World {
    pub fn new() -> World {
        World { cache: HashMap::new(), stack: vec![], budget: 3_000_000, reads: vec![], feats: [0; 16] }
    }

    fn charge(&mut self, n: usize) -> R<()> {
        self.budget -= n as i64;
        if self.budget < 0 {
            Err(Stop::TooBig)
        } else {
            Ok(())
        }
    }
}

/// What a load of this text must do.
pub fn load_str(text: &str) -> (R<Rc<MObj>>, World) {
    let mut w = World::new();
    let r = P::new(text, None, false).object_body(&mut w, None, 1);
    (r, w)
}

/// What a load of this file must do.
pub fn load_file(path: &str) -> (R<Rc<MObj>>, World) {
    let mut w = World::new();
    let r = (|| {
        let io = || Stop::Fault(Fault { kind: "io", file: None, line: 0, col: 0 });
        let bytes = std::fs::read(path).map_err(|_| io())?;
        let text = String::from_utf8(bytes).map_err(|_| io())?;
        let canon = std::fs::canonicalize(path).map_err(|_| io())?;
        let foreign = is_foreign_link(path, &canon);
        w.reads.push((canon.clone(), Kind::Obj));
        w.stack.push(canon);
        P::new(&text, Some(path.to_string()), foreign).object_body(&mut w, None, 1)
    })();
    (r, w)
}

// The file is reached through a symbolic link in another directory: what its own relative
// includes refer to is not laid down.
fn is_foreign_link(spelled: &str, canon: &Path) -> bool {
    let parent = Path::new(spelled).parent().unwrap_or_else(|| Path::new(""));
    let parent = if parent.as_os_str().is_empty() { Path::new(".") } else { parent };
    match (std::fs::canonicalize(parent), canon.parent()) {
        (Ok(a), Some(b)) => a != b,
        _ => true,
    }
}

// ---------------------------------------------------------------- parser

struct P {
    cs: Vec<char>,
    i: usize,
    line: usize,
    col: usize,
    file: Option<String>,
    foreign: bool,
    globals: HashMap<String, MV>,
}

type Scope<'a> = &'a [(Rc<str>, MV)];

pub fn is_name_start(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}

pub fn is_name_char(c: char) -> bool {
    is_name_start(c) || c.is_ascii_digit()
}

pub fn is_name(s: &str) -> bool {
    let mut cs = s.chars();
    match cs.next() {
        Some(c) => is_name_start(c) && cs.all(is_name_char),
        None => false,
    }
}

pub fn is_reserved(s: &str) -> bool {
    matches!(s, "null" | "true" | "false" | "Obj" | "Str" | "Arr" | "Tup")
}

fn is_close(c: char) -> bool {
    matches!(c, ')' | ']' | '}' | '>')
}

fn is_op(c: char) -> bool {
    matches!(c, '+' | '-' | '*' | '/' | '%')
}

fn ends_value(c: char) -> bool {
    c.is_whitespace() || c == '#' || is_close(c) || is_op(c)
}

impl P {
    fn new(text: &str, file: Option<String>, foreign: bool) -> P {
        P { cs: text.chars().collect(), i: 0, line: 1, col: 1, file, foreign, globals: HashMap::new() }
    }

    fn peek(&self) -> Option<char> {
        self.cs.get(self.i).copied()
    }

    fn bump(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += 1;
        if c == '\n' {
            self.line += 1;
            self.col = 1;
        } else {
            self.col += 1;
        }
        Some(c)
    }

    fn pos(&self) -> (usize, usize) {
        (self.line, self.col)
    }

    fn fault_at<T>(&self, kind: &'static str, (line, col): (usize, usize)) -> R<T> {
        Err(Stop::Fault(Fault { kind, file: self.file.clone(), line, col }))
    }

    fn fault<T>(&self, kind: &'static str) -> R<T> {
        self.fault_at(kind, self.pos())
    }

    fn end<T>(&self) -> R<T> {
        self.fault("end")
    }

    fn skip(&mut self) {
        while let Some(c) = self.peek() {
            if c == '#' {
                while let Some(c) = self.bump() {
                    if c == '\n' {
                        break;
                    }
                }
            } else if c.is_whitespace() {
                self.bump();
            } else {
                break;
            }
        }
    }

    /// Fields up to the closing bracket (consumed) or the end of the file.
    fn object_body(&mut self, w: &mut World, close: Option<char>, depth: usize) -> R<Rc<MObj>> {
        let mut fields: Vec<(Rc<str>, MV)> = vec![];
        let mut parent: Option<Rc<MObj>> = None;
        loop {
            self.skip();
            let c = match self.peek() {
                None if close.is_none() => break,
                None => return self.end(),
                Some(c) => c,
            };
            if Some(c) == close {
                self.bump();
                break;
            }
            if is_close(c) {
                return self.fault("bracket");
            }
            let at = self.pos();
            let name = self.field_name()?;
            let is_global = name.starts_with('@');
            let is_parent = name == "^";
            if is_reserved(&name) || (!is_parent && name.contains('^')) {
                return self.fault_at("field-name", at);
            }
            if is_global && self.globals.contains_key(&name) {
                return self.fault_at("dup-global", at);
            }
            if is_parent && parent.is_some() {
                return self.fault_at("dup-field", at);
            }
            if !is_global && !is_parent && fields.iter().any(|(n, _)| **n == *name) {
                return self.fault_at("dup-field", at);
            }
            self.skip();
            if self.peek().is_none() {
                return self.end();
            }
            let vat = self.pos();
            let v = self.expr(w, &fields, close, depth)?;
            w.charge(1)?;
            if is_global {
                w.feats[F_GLOBAL] += 1;
                if self.globals.contains_key(&name) {
                    return self.fault_at("dup-global", at);
                }
                self.globals.insert(name, v);
            } else if is_parent {
                w.feats[F_PARENT] += 1;
                match v {
                    MV::Obj(o) => parent = Some(o),
                    _ => return self.fault_at("parent-type", vat),
                }
            } else {
                w.feats[F_FIELD] += 1;
                fields.push((Rc::from(name.as_str()), v));
            }
        }
        Ok(Rc::new(MObj { fields, parent }))
    }

    /// The name of a field with its '@' or '^', up to and including the colon.
    fn field_name(&mut self) -> R<String> {
        let mut s = String::new();
        if self.peek() == Some('@') {
            s.push('@');
            self.bump();
        }
        let sigil = s.len();
        loop {
            let c = match self.peek() {
                None => return self.end(),
                Some(c) => c,
            };
            let first = s.len() == sigil;
            if c == ':' && !first {
                self.bump();
                return Ok(s);
            }
            let good = if first { is_name_start(c) || c == '^' } else { is_name_char(c) };
            if !good {
                return self.fault("field-char");
            }
            s.push(c);
            self.bump();
        }
    }

    /// A value: operands joined by operators, with nothing in between.
    fn expr(&mut self, w: &mut World, scope: Scope, close: Option<char>, depth: usize) -> R<MV> {
        let mut operands: Vec<(MV, (usize, usize))> = vec![];
        let mut ops: Vec<char> = vec![];
        loop {
            let at = self.pos();
            let v = self.operand(w, scope, depth, 0)?;
            operands.push((v, at));
            match self.peek() {
                Some(c) if is_op(c) => {
                    self.bump();
                    ops.push(c);
                    if self.peek().is_none() {
                        return self.end();
                    }
                }
                _ => break,
            }
        }
        match self.peek() {
            None => (),
            Some(c) if Some(c) == close => (),
            Some(c) if is_close(c) => return self.fault("bracket"),
            Some(c) if ends_value(c) => (),
            Some(_) => return self.fault("value-char"),
        }
        // First the products, then the sums, each from left to right.
        let mut terms: Vec<(MV, (usize, usize))> = vec![];
        let mut sums: Vec<char> = vec![];
        let mut it = operands.into_iter();
        terms.push(it.next().unwrap());
        for (op, (v, at)) in ops.into_iter().zip(it) {
            if op == '+' || op == '-' {
                sums.push(op);
                terms.push((v, at));
            } else {
                let (l, lat) = terms.pop().unwrap();
                let r = self.binary(w, l, op, v, at)?;
                terms.push((r, lat));
            }
        }
        let mut it = terms.into_iter();
        let (mut acc, _) = it.next().unwrap();
        for (op, (v, at)) in sums.into_iter().zip(it) {
            acc = self.binary(w, acc, op, v, at)?;
        }
        Ok(acc)
    }

    fn binary(&self, w: &mut World, l: MV, op: char, r: MV, at: (usize, usize)) -> R<MV> {
        w.feats[F_BIN] += 1;
        let bits = |v: &MV| -> usize {
            match v {
                MV::Int(i) => i.bits() as usize,
                MV::Frac(f) => (f.numer().bits() + f.denom().bits()) as usize,
                _ => 0,
            }
        };
        let (bl, br) = (bits(&l) / 64 + 1, bits(&r) / 64 + 1);
        w.charge(1 + if op == '+' || op == '-' { bl + br } else { bl * br })?;
        if matches!(l, MV::Frac(_)) || matches!(r, MV::Frac(_)) || op == '/' {
            // Reducing a fraction costs about the square of its length, bit by bit.
            w.charge((bl + br) * (bl + br))?;
        }
        let frac = |v: &MV| -> Option<BigRational> {
            match v {
                MV::Int(i) => Some(BigRational::from_integer(i.clone())),
                MV::Frac(f) => Some(f.clone()),
                _ => None,
            }
        };
        match (op, &l, &r) {
            ('+', MV::Str(a), MV::Str(b)) => {
                w.charge((a.len() + b.len()) / 8)?;
                return Ok(MV::Str(Rc::from(format!("{}{}", a, b))));
            }
            ('+', MV::Arr(a), MV::Arr(b)) => {
                w.charge(a.vals.len() + b.vals.len())?;
                return match unify(&a.inner, &b.inner) {
                    Some(inner) => {
                        let vals = a.vals.iter().chain(&b.vals).cloned().collect();
                        Ok(MV::Arr(Rc::new(MArr { vals, inner })))
                    }
                    None => self.fault_at("binary", at),
                };
            }
            (_, MV::Int(a), MV::Int(b)) => {
                return Ok(match op {
                    '+' => MV::Int(a + b),
                    '-' => MV::Int(a - b),
                    '*' => MV::Int(a * b),
                    _ if b.is_zero() => return self.fault_at("zero", at),
                    '/' => MV::Frac(BigRational::new(a.clone(), b.clone())),
                    _ => {
                        // Remainder of division truncated towards zero: sign of the dividend.
                        let m = a.abs() % b.abs();
                        MV::Int(if a.is_negative() { -m } else { m })
                    }
                });
            }
            _ => (),
        }
        match (frac(&l), frac(&r)) {
            (Some(a), Some(b)) => {
                // Cross-multiplied by hand rather than with the library's operators.
                let (an, ad, bn, bd) = (a.numer(), a.denom(), b.numer(), b.denom());
                Ok(MV::Frac(match op {
                    '+' => BigRational::new(an * bd + bn * ad, ad * bd),
                    '-' => BigRational::new(an * bd - bn * ad, ad * bd),
                    '*' => BigRational::new(an * bn, ad * bd),
                    '/' if bn.is_zero() => return self.fault_at("zero", at),
                    '/' => BigRational::new(an * bd, ad * bn),
                    _ => return self.fault_at("binary", at),
                }))
            }
            _ => self.fault_at("binary", at),
        }
    }

    /// `extra` counts the unary signs and dots the operand is nested in.
    fn operand(&mut self, w: &mut World, scope: Scope, depth: usize, extra: usize) -> R<MV> {
        w.charge(1)?;
        let c = match self.peek() {
            None => return self.end(),
            Some(c) => c,
        };
        match c {
            '"' => {
                w.feats[F_STR] += 1;
                let s = self.string()?;
                w.charge(s.len() / 8)?;
                Ok(MV::Str(Rc::from(s)))
            }
            '{' => {
                self.nest(depth)?;
                w.feats[F_OBJ] += 1;
                self.bump();
                Ok(MV::Obj(self.object_body(w, Some('}'), depth + 1)?))
            }
            '[' => {
                self.nest(depth)?;
                w.feats[F_ARR] += 1;
                self.bump();
                let vals = self.elements(w, scope, Some(']'), depth + 1)?;
                self.make_arr(w, vals)
            }
            '(' => {
                self.nest(depth)?;
                w.feats[F_TUP] += 1;
                self.bump();
                let vals = self.elements(w, scope, Some(')'), depth + 1)?;
                self.make_tup(w, vals)
            }
            '<' => {
                self.nest(depth)?;
                self.bump();
                self.include(w, scope, depth + 1)
            }
            '+' | '-' => {
                // A run of signs, innermost last.
                let mut minus = false;
                let mut n = 0;
                let start = self.pos();
                while let Some(c) = self.peek() {
                    if c != '+' && c != '-' {
                        break;
                    }
                    self.bump();
                    n += 1;
                    if depth + extra + n - 1 > LIMIT {
                        if n > 10 * LIMIT {
                            return self.fault_at("depth", start);
                        }
                    }
                    minus ^= c == '-';
                }
                let at = self.pos();
                if self.peek().is_none() {
                    return self.end();
                }
                if depth + extra + n - 1 > LIMIT {
                    return Err(Stop::Unspec("number of signs allowed at this depth"));
                }
                w.feats[F_UN] += n as u64;
                let v = self.operand(w, scope, depth, extra + n)?;
                match v {
                    MV::Int(i) => Ok(MV::Int(if minus { -i } else { i })),
                    MV::Frac(f) => Ok(MV::Frac(if minus { -f } else { f })),
                    _ => self.fault_at("unary", at),
                }
            }
            c if c.is_ascii_digit() || c == '.' || c == ',' => self.number(w),
            c if is_name_start(c) || c == '@' => self.variable(w, scope, depth, extra),
            _ => self.fault("value-char"),
        }
    }

    fn nest(&self, depth: usize) -> R<()> {
        if depth >= LIMIT {
            self.fault("depth")
        } else {
            Ok(())
        }
    }

    /// Elements with their positions up to the closing bracket (consumed) or the end of the file.
    fn elements(
        &mut self,
        w: &mut World,
        scope: Scope,
        close: Option<char>,
        depth: usize,
    ) -> R<Vec<(MV, (usize, usize))>> {
        let mut vals: Vec<(MV, (usize, usize))> = vec![];
        loop {
            self.skip();
            match self.peek() {
                None if close.is_none() => return Ok(vals),
                None => return self.end(),
                Some(c) if Some(c) == close => {
                    self.bump();
                    return Ok(vals);
                }
                Some(c) if is_close(c) => return self.fault("bracket"),
                Some(_) => {
                    let at = self.pos();
                    let v = self.expr(w, scope, close, depth)?;
                    vals.push((v, at));
                }
            }
        }
    }

    fn make_arr(&self, w: &mut World, vals: Vec<(MV, (usize, usize))>) -> R<MV> {
        let mut t = MTy::Any;
        let mut out = vec![];
        for (v, at) in vals {
            if v.ty_size() > 20_000 {
                return Err(Stop::TooBig);
            }
            w.charge(v.ty_size())?;
            t = match unify(&t, &v.ty()) {
                Some(t) => t,
                None => return self.fault_at("array-type", at),
            };
            out.push(v);
        }
        Ok(MV::Arr(Rc::new(MArr { vals: out, inner: t })))
    }

    fn make_tup(&self, w: &mut World, vals: Vec<(MV, (usize, usize))>) -> R<MV> {
        let size: usize = vals.iter().map(|(v, _)| v.ty_size()).sum();
        if size > 20_000 {
            return Err(Stop::TooBig);
        }
        w.charge(size)?;
        Ok(MV::tup(vals.into_iter().map(|(v, _)| v).collect()))
    }

    fn string(&mut self) -> R<String> {
        self.bump();
        let mut s = String::new();
        loop {
            match self.bump() {
                None => return self.end(),
                Some('"') => return Ok(s),
                Some('\\') => {
                    let at = self.pos();
                    s.push(match self.bump() {
                        None => return self.end(),
                        Some('n') => '\n',
                        Some('r') => '\r',
                        Some('t') => '\t',
                        Some(c) if matches!(c, '\\' | '"' | '\'' | '$') => c,
                        Some(_) => return self.fault_at("escape", at),
                    });
                }
                Some(c) => s.push(c),
            }
        }
    }

    fn number(&mut self, w: &mut World) -> R<MV> {
        let start = self.pos();
        let mut digits = String::new();
        let mut point: Option<usize> = None;
        let mut last_under = false;
        while let Some(c) = self.peek() {
            if ends_value(c) {
                break;
            }
            match c {
                '0'..='9' => {
                    digits.push(c);
                    last_under = false;
                }
                '.' | ',' if point.is_none() => {
                    point = Some(digits.len());
                    last_under = false;
                }
                '_' if !last_under => last_under = true,
                _ => return self.fault("value-char"),
            }
            self.bump();
        }
        if digits.is_empty() {
            return self.fault_at("number", start);
        }
        w.charge(digits.len() * digits.len() / 2000)?;
        // Trailing zeros after the point do not count.
        if let Some(p) = point {
            while digits.len() > p.max(1) && digits.ends_with('0') {
                digits.pop();
            }
        }
        let n = BigInt::parse_bytes(digits.as_bytes(), 10).unwrap();
        match point {
            None => {
                w.feats[F_INT] += 1;
                Ok(MV::Int(n))
            }
            Some(p) => {
                w.feats[F_DEC] += 1;
                let places = digits.len().saturating_sub(p);
                let den: BigInt = num_traits::pow(BigInt::from(10), places);
                w.charge(places * places / 4000)?;
                Ok(MV::Frac(BigRational::new(n, if places == 0 { BigInt::one() } else { den })))
            }
        }
    }

    /// A name with its '@'; what follows must end a value or be a dot.
    fn name(&mut self) -> R<String> {
        let mut s = String::new();
        if self.peek() == Some('@') {
            s.push('@');
            self.bump();
        }
        while let Some(c) = self.peek() {
            if c == '.' || ends_value(c) {
                break;
            }
            if !is_name_char(c) {
                return self.fault("value-char");
            }
            s.push(c);
            self.bump();
        }
        Ok(s)
    }

    fn resolve(&self, w: &mut World, scope: Scope, name: &str, at: (usize, usize)) -> R<MV> {
        if name == "@" {
            return self.fault_at("value", at);
        }
        if name.starts_with('@') {
            w.feats[F_GREF] += 1;
            return match self.globals.get(name) {
                Some(v) => Ok(v.clone()),
                None => self.fault_at("global", at),
            };
        }
        match name {
            "null" => Ok(MV::Null),
            "true" => Ok(MV::Bool(true)),
            "false" => Ok(MV::Bool(false)),
            _ => {
                w.feats[F_REF] += 1;
                match scope.iter().find(|(n, _)| &**n == name) {
                    Some((_, v)) => Ok(v.clone()),
                    None => self.fault_at("variable", at),
                }
            }
        }
    }

    fn variable(&mut self, w: &mut World, scope: Scope, depth: usize, extra: usize) -> R<MV> {
        let at = self.pos();
        let name = self.name()?;
        let has_dot = self.peek() == Some('.');
        if has_dot {
            self.after_dot()?;
        }
        let mut v = self.resolve(w, scope, &name, at)?;
        if !has_dot {
            return Ok(v);
        }
        let mut hops = 0;
        // Where the value before the dot was named.
        let mut base = at;
        loop {
            // Just after a dot.
            w.feats[F_DOT] += 1;
            hops += 1;
            if depth + extra + hops - 1 > LIMIT {
                if hops > 10 * LIMIT {
                    return self.fault("depth");
                }
                if !matches!(v, MV::Obj(_) | MV::Arr(_) | MV::Tup(_)) {
                    return self.fault_at("dot-type", base);
                }
            }
            let over = depth + extra + hops - 1 > LIMIT;
            let at = self.pos();
            let (vals, out_of) = match &v {
                MV::Obj(o) => {
                    if self.peek() == Some('@') {
                        return self.fault_at("value-char", at);
                    }
                    let o = o.clone();
                    let name = self.name()?;
                    let more = self.peek() == Some('.');
                    if more {
                        self.after_dot()?;
                    }
                    v = match o.lookup(&name) {
                        Some(v) => v.clone(),
                        None => return self.fault_at("variable", at),
                    };
                    if more {
                        base = at;
                        continue;
                    }
                    if over {
                        return Err(Stop::Unspec("number of dots allowed at this depth"));
                    }
                    return Ok(v);
                }
                MV::Arr(a) => (a.vals.clone(), "arr-index"),
                MV::Tup(a) => (a.vals.clone(), "tup-index"),
                _ => return self.fault_at("dot-type", base),
            };
            if over {
                return Err(Stop::Unspec("number of dots allowed at this depth"));
            }
            // An index.
            let c = match self.peek() {
                None => return self.end(),
                Some(c) => c,
            };
            let index = if c.is_ascii_digit() || c == '.' || c == ',' {
                self.number(w)?
            } else {
                let name = self.name()?;
                if self.peek() == Some('.') {
                    return Err(Stop::Unspec("dots after an index"));
                }
                if hops > 1 && !name.starts_with('@') && !matches!(&*name, "null" | "true" | "false") {
                    return Err(Stop::Unspec("scope of an index variable after an object"));
                }
                if is_reserved(&name) && !matches!(&*name, "null" | "true" | "false") {
                    return self.fault_at("variable", at);
                }
                self.resolve(w, scope, &name, at)?
            };
            return match index {
                MV::Int(i) => match i.to_usize() {
                    Some(i) if i < vals.len() => Ok(vals[i].clone()),
                    _ => self.fault_at(out_of, at),
                },
                _ => self.fault_at("index-type", at),
            };
        }
    }

    /// Consumes a dot and checks what follows it.
    fn after_dot(&mut self) -> R<()> {
        self.bump();
        match self.peek() {
            None => self.end(),
            Some(c) if c == '@' || is_name_start(c) || c.is_ascii_digit() || c == '.' || c == ',' => Ok(()),
            Some(_) => self.fault("value-char"),
        }
    }

    fn include(&mut self, w: &mut World, scope: Scope, depth: usize) -> R<MV> {
        w.feats[F_INC] += 1;
        self.skip();
        if self.peek().is_none() {
            return self.end();
        }
        // An optional keyword.
        let mut kind = Kind::Obj;
        let mut at = self.pos();
        let mut word = String::new();
        for c in &self.cs[self.i..] {
            if !is_name_char(*c) {
                break;
            }
            word.push(*c);
        }
        if is_reserved(&word) && !matches!(&*word, "null" | "true" | "false") {
            kind = match &*word {
                "Obj" => Kind::Obj,
                "Str" => Kind::Str,
                "Arr" => Kind::Arr,
                _ => Kind::Tup,
            };
            for _ in 0..3 {
                self.bump();
            }
            match self.peek() {
                None => return self.end(),
                Some(c) if c.is_whitespace() || c == '#' => (),
                Some(c) if c == '>' => return self.fault("value-char"),
                Some(_) => return self.fault("include-token"),
            }
            self.skip();
            if self.peek().is_none() {
                return self.end();
            }
            at = self.pos();
        }
        let v = self.expr(w, scope, Some('>'), depth)?;
        let spelled = match v {
            MV::Str(s) => s,
            _ => return self.fault_at("include-type", at),
        };
        self.skip();
        match self.peek() {
            None => return self.end(),
            Some('>') => {
                self.bump();
            }
            Some(_) => return self.fault("bracket"),
        }

        let joined = match &self.file {
            None => PathBuf::from(&*spelled),
            Some(f) => match Path::new(f).parent() {
                Some(p) => p.join(&*spelled),
                None => return Err(Stop::Unspec("file without a directory")),
            },
        };
        if self.foreign && !Path::new(&*spelled).is_absolute() {
            return Err(Stop::Unspec("relative include in a file reached through a link"));
        }
        let is_file = std::fs::metadata(&joined).map(|m| m.is_file()).unwrap_or(false);
        if !is_file {
            return self.fault_at("include-path", at);
        }
        let canon = match std::fs::canonicalize(&joined) {
            Ok(c) => c,
            Err(_) => return self.fault_at("include-path", at),
        };
        let joined_str = match (joined.to_str(), canon.to_str()) {
            (Some(j), Some(_)) => j.to_string(),
            _ => return Err(Stop::Unspec("include of a file whose name is not Unicode")),
        };
        if w.stack.contains(&canon) {
            return self.fault_at("cycle", at);
        }
        if let Some(v) = w.cache.get(&(canon.clone(), kind)) {
            let v = v.clone();
            w.feats[F_INCC] += 1;
            return Ok(v);
        }
        let bytes = match std::fs::read(&joined) {
            Ok(b) => b,
            Err(_) => return self.fault_at("io", at),
        };
        let text = match String::from_utf8(bytes) {
            Ok(t) => t,
            Err(_) => return self.fault_at("io", at),
        };
        w.charge(1 + text.len() / 8)?;
        w.reads.push((canon.clone(), kind));
        let foreign = is_foreign_link(&joined_str, &canon);
        let v = if kind == Kind::Str {
            MV::Str(Rc::from(text))
        } else {
            w.stack.push(canon.clone());
            let mut p = P::new(&text, Some(joined_str), foreign);
            let v = match kind {
                Kind::Obj => MV::Obj(p.object_body(w, None, depth)?),
                Kind::Arr => {
                    let vals = p.elements(w, &[], None, depth)?;
                    p.make_arr(w, vals)?
                }
                _ => {
                    let vals = p.elements(w, &[], None, depth)?;
                    p.make_tup(w, vals)?
                }
            };
            w.stack.pop();
            v
        };
        w.cache.insert((canon, kind), v.clone());
        Ok(v)
    }
}

// ---------------------------------------------------------------- rendering for messages

pub fn show(v: &MV) -> String {
    match v {
        MV::Null => "null".into(),
        MV::Bool(b) => b.to_string(),
        MV::Int(i) => short(&i.to_string()),
        MV::Frac(f) => short(&format!("{}/{}", f.numer(), f.denom())),
        MV::Str(s) => short(&format!("{:?}", s)),
        MV::Arr(a) => format!("[{} elements: {}]", a.vals.len(), a.inner.show()),
        MV::Tup(a) => format!("({} elements: {})", a.vals.len(), a.ty.show()),
        MV::Obj(o) => format!("{{{} fields}}", o.fields.len()),
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() <= 120 {
        return s.to_string();
    }
    let a: String = s.chars().take(80).collect();
    let n = s.chars().count();
    let b: String = s.chars().skip(n - 20).collect();
    format!("{}…({} chars)…{}", a, n, b)
}
