//! Between the library's values and the model's: comparison, construction, type conversion.

use crate::model::{self, short, show, MObj, MTy, MV};
use num_bigint::BigInt;
use over::arr::Arr;
use over::obj::{Obj, Pair};
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use over::ReferenceType;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub fn mty(t: &Type) -> MTy {
    match t {
        Type::Any => MTy::Any,
        Type::Null => MTy::Null,
        Type::Bool => MTy::Bool,
        Type::Int => MTy::Int,
        Type::Frac => MTy::Frac,
        Type::Str => MTy::Str,
        Type::Arr(t) => MTy::arr(mty(t)),
        Type::Tup(ts) => MTy::Tup(ts.iter().map(mty).collect()),
        Type::Obj => MTy::Obj,
    }
}

pub fn otype(t: &MTy) -> Type {
    match t {
        MTy::Any => Type::Any,
        MTy::Null => Type::Null,
        MTy::Bool => Type::Bool,
        MTy::Int => Type::Int,
        MTy::Frac => Type::Frac,
        MTy::Str => Type::Str,
        MTy::Arr(t) => Type::Arr(Box::new(otype(t))),
        MTy::Tup(ts) => Type::Tup(ts.iter().map(otype).collect()),
        MTy::Obj => Type::Obj,
    }
}

/// Compares loaded data with the model's value, node by node.
pub struct Cmp {
    seen: HashSet<(usize, usize)>,
    pub nodes: u64,
    /// Also require that instances are shared exactly as in the model.
    sharing: bool,
    id_to_model: HashMap<usize, usize>,
    model_to_id: HashMap<usize, (usize, usize)>,
    addr_to_model: HashMap<usize, usize>,
}

type Res = Result<(), String>;

impl Cmp {
    pub fn new(sharing: bool) -> Cmp {
        Cmp {
            seen: HashSet::new(),
            nodes: 0,
            sharing,
            id_to_model: HashMap::new(),
            model_to_id: HashMap::new(),
            addr_to_model: HashMap::new(),
        }
    }

    fn share(&mut self, id: usize, addr: usize, m: usize, path: &str) -> Res {
        if !self.sharing {
            return Ok(());
        }
        let a = *self.id_to_model.entry(id).or_insert(m);
        let b = *self.model_to_id.entry(m).or_insert((id, addr));
        if a != m {
            return Err(format!("{}: two distinct containers have one identifier ({})", path, id));
        }
        if *self.addr_to_model.entry(addr).or_insert(m) != m {
            return Err(format!("{}: two distinct containers are one instance (id {})", path, id));
        }
        if b != (id, addr) {
            return Err(format!("{}: one container has become two instances (ids {} and {})", path, b.0, id));
        }
        Ok(())
    }

    pub fn obj(&mut self, o: &Obj, m: &Rc<MObj>, path: &str) -> Res {
        self.nodes += 1;
        self.share(o.id(), o.pairs_ref() as *const Vec<Pair> as usize, Rc::as_ptr(m) as usize, path)?;
        let pairs = o.pairs_ref();
        if !self.seen.insert((pairs as *const Vec<Pair> as usize, Rc::as_ptr(m) as usize)) {
            return Ok(());
        }
        let got: Vec<&str> = pairs.iter().map(|p| p.0.as_str()).collect();
        let want: Vec<&str> = m.fields.iter().map(|f| &*f.0).collect();
        if got != want {
            return Err(format!("{}: fields {} instead of {}", path, short(&format!("{:?}", got)), short(&format!("{:?}", want))));
        }
        match (o.get_parent(), &m.parent) {
            (None, None) => (),
            (Some(p), Some(q)) => self.obj(&p, q, &format!("{}.^", path))?,
            (p, _) => {
                return Err(format!("{}: {} a parent", path, if p.is_some() { "has" } else { "lacks" }));
            }
        }
        for (p, (n, v)) in pairs.iter().zip(&m.fields) {
            self.val(&p.1, v, &format!("{}.{}", path, short(n)))?;
        }
        Ok(())
    }

    pub fn val(&mut self, v: &Value, m: &MV, path: &str) -> Res {
        self.nodes += 1;
        let same = match (v, m) {
            (Value::Null, MV::Null) => true,
            (Value::Bool(a), MV::Bool(b)) => a == b,
            (Value::Int(a), MV::Int(b)) => a == b,
            (Value::Frac(a), MV::Frac(b)) => {
                // Compared part by part: a fraction must be stored in lowest terms.
                a.numer() == b.numer() && a.denom() == b.denom()
            }
            (Value::Str(a), MV::Str(b)) => **a == **b,
            (Value::Arr(a), MV::Arr(b)) => {
                self.share(a.id(), a.values_ref() as *const Vec<Value> as usize, Rc::as_ptr(b) as usize, path)?;
                if !self.seen.insert((a.values_ref() as *const Vec<Value> as usize, Rc::as_ptr(b) as usize)) {
                    return Ok(());
                }
                self.list(a.values_ref(), &b.vals, path)?;
                let t = mty(&a.inner_type());
                if t != b.inner {
                    return Err(format!("{}: element type {} instead of {}", path, t.show(), b.inner.show()));
                }
                true
            }
            (Value::Tup(a), MV::Tup(b)) => {
                self.share(a.id(), a.values_ref() as *const Vec<Value> as usize, Rc::as_ptr(b) as usize, path)?;
                if !self.seen.insert((a.values_ref() as *const Vec<Value> as usize, Rc::as_ptr(b) as usize)) {
                    return Ok(());
                }
                self.list(a.values_ref(), &b.vals, path)?;
                let t = MTy::Tup(a.inner_type_vec().iter().map(mty).collect());
                if t != b.ty {
                    return Err(format!("{}: element types {} instead of {}", path, t.show(), b.ty.show()));
                }
                true
            }
            (Value::Obj(a), MV::Obj(b)) => {
                self.obj(a, b, path)?;
                true
            }
            _ => false,
        };
        if !same {
            return Err(format!("{}: {} instead of {}", path, show_over(v), show(m)));
        }
        let (t, u) = (mty(&v.get_type()), m.ty());
        if t != u {
            return Err(format!("{}: type {} instead of {}", path, t.show(), u.show()));
        }
        Ok(())
    }

    fn list(&mut self, a: &[Value], b: &[MV], path: &str) -> Res {
        if a.len() != b.len() {
            return Err(format!("{}: {} elements instead of {}", path, a.len(), b.len()));
        }
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            self.val(x, y, &format!("{}.{}", path, i))?;
        }
        Ok(())
    }
}

/// A short description that never prints a whole container.
pub fn show_over(v: &Value) -> String {
    match v {
        Value::Null => "null".into(),
        Value::Bool(b) => b.to_string(),
        Value::Int(i) => short(&i.to_string()),
        Value::Frac(f) => short(&format!("{}/{}", f.numer(), f.denom())),
        Value::Str(s) => short(&format!("{:?}", s)),
        Value::Arr(a) => format!("[{} elements]", a.len()),
        Value::Tup(a) => format!("({} elements)", a.len()),
        Value::Obj(o) => format!("{{{} fields}}", o.len()),
    }
}

pub fn same_obj(o: &Obj, m: &Rc<MObj>) -> Res {
    Cmp::new(false).obj(o, m, "$")
}

pub fn same_val(v: &Value, m: &MV) -> Res {
    Cmp::new(false).val(v, m, "$")
}

/// Builds library values from model values through the checked construction API, preserving
/// sharing.
#[derive(Default)]
pub struct Build {
    objs: HashMap<usize, Obj>,
    arrs: HashMap<usize, Arr>,
    tups: HashMap<usize, Tup>,
    /// Build every mention anew instead of sharing instances.
    pub unshared: bool,
    /// Element type to declare for empty arrays, where the API lets one.
    pub declare: Option<over::types::Type>,
}

impl Build {
    pub fn with(unshared: bool) -> Build {
        Build { unshared, ..Default::default() }
    }

    pub fn val(&mut self, m: &MV) -> Result<Value, String> {
        Ok(match m {
            MV::Null => Value::Null,
            MV::Bool(b) => (*b).into(),
            MV::Int(i) => i.clone().into(),
            MV::Frac(f) => f.clone().into(),
            MV::Str(s) => (&**s).into(),
            MV::Arr(a) => {
                let key = Rc::as_ptr(a) as usize;
                if let (false, Some(x)) = (self.unshared, self.arrs.get(&key)) {
                    return Ok(x.clone().into());
                }
                let mut v = vec![];
                for x in &a.vals {
                    v.push(self.val(x)?);
                }
                let x = match (&self.declare, v.is_empty()) {
                    // Every element, of which there are none, has that type.
                    (Some(t), true) => Arr::from_values_unchecked(v, t.clone()),
                    _ => Arr::from_values(v).map_err(|e| format!("Arr::from_values: {}", e))?,
                };
                self.arrs.insert(key, x.clone());
                x.into()
            }
            MV::Tup(a) => {
                let key = Rc::as_ptr(a) as usize;
                if let (false, Some(x)) = (self.unshared, self.tups.get(&key)) {
                    return Ok(x.clone().into());
                }
                let mut v = vec![];
                for x in &a.vals {
                    v.push(self.val(x)?);
                }
                let x = Tup::from_values(v);
                self.tups.insert(key, x.clone());
                x.into()
            }
            MV::Obj(o) => self.obj(o)?.into(),
        })
    }

    pub fn obj(&mut self, m: &Rc<MObj>) -> Result<Obj, String> {
        let key = Rc::as_ptr(m) as usize;
        if let (false, Some(x)) = (self.unshared, self.objs.get(&key)) {
            return Ok(x.clone());
        }
        let parent = match &m.parent {
            Some(p) => Some(self.obj(p)?),
            None => None,
        };
        let mut v = vec![];
        for (n, x) in &m.fields {
            v.push(Pair(n.to_string(), self.val(x)?));
        }
        let o = Obj::from_pairs(v, parent).map_err(|e| format!("Obj::from_pairs: {}", e))?;
        self.objs.insert(key, o.clone());
        Ok(o)
    }
}

// ---------------------------------------------------------------- random model values

pub struct VGen<'a> {
    pub rng: &'a mut crate::rng::Rng,
    pub odd: u32,
    pub left: i32,
    pub depth: usize,
    pub p_share: u32,
    pool: Vec<MV>,
    names: Vec<Rc<str>>,
}

impl<'a> VGen<'a> {
    pub fn new(rng: &'a mut crate::rng::Rng, size: i32, odd: u32) -> VGen<'a> {
        let mut names: Vec<Rc<str>> = vec![];
        for _ in 0..rng.range(3, 8) {
            let n: String = if rng.pct(odd) {
                crate::gen::odd_name(rng)
            } else {
                rng.pick(&["a", "b", "c", "d", "foo", "_", "_1", "x9", "nulls", "e"]).to_string()
            };
            if !names.iter().any(|m| **m == *n) {
                names.push(Rc::from(n));
            }
        }
        VGen { rng, odd, left: size, depth: 5, p_share: 15, pool: vec![], names }
    }

    fn any_type(&mut self, depth: usize) -> MTy {
        if depth < self.depth && self.left > 0 && self.rng.pct(50) {
            match self.rng.below(3) {
                0 => MTy::arr(self.any_type(depth + 1)),
                1 => {
                    let n = self.rng.below(4);
                    MTy::Tup((0..n).map(|_| self.any_type(depth + 1)).collect())
                }
                _ => MTy::Obj,
            }
        } else {
            self.rng.pick(&[MTy::Null, MTy::Bool, MTy::Int, MTy::Int, MTy::Frac, MTy::Str, MTy::Str]).clone()
        }
    }

    pub fn num(&mut self) -> BigInt {
        let s = crate::gen::int_literal(self.rng, self.odd).replace('_', "");
        let i = BigInt::parse_bytes(s.as_bytes(), 10).unwrap();
        if self.rng.pct(40) {
            -i
        } else if self.rng.pct(50) {
            BigInt::from(self.rng.below(5))
        } else {
            i
        }
    }

    /// A value equal to this one, or nearly: fields in another order, other instances, or one
    /// difference somewhere inside.
    pub fn twin(&mut self, v: &MV, differ: bool) -> MV {
        match v {
            MV::Arr(a) if !a.vals.is_empty() => {
                let k = self.rng.below(a.vals.len());
                let vals = a.vals.iter().enumerate().map(|(i, x)| self.twin(x, differ && i == k)).collect();
                MV::arr(vals).unwrap_or_else(|| v.clone())
            }
            MV::Tup(a) if !a.vals.is_empty() => {
                let k = self.rng.below(a.vals.len());
                MV::tup(a.vals.iter().enumerate().map(|(i, x)| self.twin(x, differ && i == k)).collect())
            }
            MV::Obj(o) if !o.fields.is_empty() || o.parent.is_some() => {
                let k = self.rng.below(o.fields.len() + o.parent.is_some() as usize);
                let mut fields: Vec<(Rc<str>, MV)> =
                    o.fields.iter().enumerate().map(|(i, f)| (f.0.clone(), self.twin(&f.1, differ && i == k))).collect();
                if self.rng.pct(60) {
                    self.rng.shuffle(&mut fields);
                }
                let parent = o.parent.clone().map(|p| match self.twin(&MV::Obj(p.clone()), differ && k == o.fields.len()) {
                    MV::Obj(p) => p,
                    _ => p,
                });
                MV::Obj(Rc::new(MObj { fields, parent }))
            }
            MV::Int(i) if differ => MV::Int(i + 1),
            MV::Frac(f) if differ => MV::Frac(-f.clone() + num_rational::BigRational::from_integer(1.into())),
            MV::Bool(b) if differ => MV::Bool(!b),
            MV::Str(s) if differ => MV::str(&format!("{}'", s)),
            v => v.clone(),
        }
    }

    /// Some elements or fields once more, as twins of others.
    fn twins(&mut self, v: &mut Vec<MV>, tuple: bool) {
        if v.is_empty() || !self.rng.pct(12) || v.len() > 20 {
            return;
        }
        for _ in 0..self.rng.range(1, 3) {
            let at = self.rng.below(v.len());
            let x = if self.rng.pct(25) {
                v[at].clone()
            } else {
                let d = self.rng.pct(35);
                let x = v[at].clone();
                self.twin(&x, d)
            };
            if !tuple && v.iter().any(|y| model::unify(&x.ty(), &y.ty()).is_none()) {
                continue;
            }
            v.insert(at + 1, x);
        }
    }

    /// A value whose type is compatible with `want` (Any: whatever).
    pub fn val(&mut self, want: &MTy, depth: usize) -> MV {
        self.left -= 1;
        if !self.pool.is_empty() && self.rng.pct(self.p_share) {
            for _ in 0..4 {
                let v = self.pool[self.rng.below(self.pool.len())].clone();
                if model::unify(&v.ty(), want).is_some() {
                    return v;
                }
            }
        }
        let t = if *want == MTy::Any { self.any_type(depth) } else { want.clone() };
        match t {
            MTy::Any | MTy::Null => MV::Null,
            MTy::Bool => MV::Bool(self.rng.bool()),
            MTy::Int => MV::Int(self.num()),
            MTy::Frac => {
                let (n, mut d) = (self.num(), self.num());
                if d == BigInt::from(0) || self.rng.pct(15) {
                    d = BigInt::from(1);
                }
                MV::Frac(num_rational::BigRational::new(n, d))
            }
            MTy::Str => MV::str(&crate::gen::string_content(self.rng, self.odd)),
            MTy::Arr(e) => {
                let n = if depth >= self.depth || self.left <= 0 { self.rng.below(2) } else { self.rng.below(5) };
                let e = if *e == MTy::Any { self.any_type(depth + 1) } else { *e };
                let mut v: Vec<MV> = (0..n).map(|_| self.val(&e, depth + 1)).collect();
                self.twins(&mut v, false);
                let a = MV::arr(v).unwrap_or_else(|| MV::arr(vec![]).unwrap());
                self.pool.push(a.clone());
                a
            }
            MTy::Tup(ts) => {
                let mut v: Vec<MV> = ts.iter().map(|t| self.val(t, depth + 1)).collect();
                if *want == MTy::Any {
                    self.twins(&mut v, true);
                }
                let a = MV::tup(v);
                self.pool.push(a.clone());
                a
            }
            MTy::Obj => {
                let o = MV::Obj(self.obj(depth + 1));
                self.pool.push(o.clone());
                o
            }
        }
    }

    pub fn obj(&mut self, depth: usize) -> Rc<MObj> {
        let n = if depth == 1 {
            self.rng.range(0, 8)
        } else if depth >= self.depth || self.left <= 0 {
            self.rng.below(2)
        } else {
            self.rng.below(5)
        };
        let mut fields: Vec<(Rc<str>, MV)> = vec![];
        for _ in 0..n {
            let name = self.names[self.rng.below(self.names.len())].clone();
            if fields.iter().any(|f| f.0 == name) {
                continue;
            }
            let v = self.val(&MTy::Any, depth);
            fields.push((name, v));
        }
        let parent = if self.rng.pct(20) && depth < self.depth {
            match self.val(&MTy::Obj, depth) {
                MV::Obj(o) => Some(o),
                _ => None,
            }
        } else {
            None
        };
        Rc::new(MObj { fields, parent })
    }
}

/// Source text for a value, written independently of the library's formatter.
pub fn source(rng: &mut crate::rng::Rng, v: &MV, out: &mut String) {
    fn sep(rng: &mut crate::rng::Rng, out: &mut String) {
        out.push_str(rng.pick(&[" ", "\n", "  ", "\t", " # c\n"]));
    }
    match v {
        MV::Null => out.push_str("null"),
        MV::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        MV::Int(i) => out.push_str(&i.to_string()),
        MV::Frac(f) => out.push_str(&format!("{}/{}", f.numer(), f.denom())),
        MV::Str(s) => {
            let l = crate::gen::string_literal(rng, s);
            out.push_str(&l)
        }
        MV::Arr(a) => {
            out.push('[');
            source_list(rng, &a.vals, out);
            out.push(']');
        }
        MV::Tup(a) => {
            out.push('(');
            source_list(rng, &a.vals, out);
            out.push(')');
        }
        MV::Obj(o) => {
            out.push('{');
            source_fields(rng, o, out);
            out.push('}');
        }
    }
    fn source_list(rng: &mut crate::rng::Rng, vals: &[MV], out: &mut String) {
        for (i, x) in vals.iter().enumerate() {
            if i > 0 {
                sep(rng, out);
            }
            source(rng, x, out);
        }
    }
}

pub fn source_elems(rng: &mut crate::rng::Rng, vals: &[MV], out: &mut String) {
    for (i, x) in vals.iter().enumerate() {
        if i > 0 {
            out.push_str(rng.pick(&[" ", "\n", " # c\n"]));
        }
        source(rng, x, out);
    }
}

pub fn source_fields(rng: &mut crate::rng::Rng, o: &MObj, out: &mut String) {
    let at = if o.parent.is_some() { rng.below(o.fields.len() + 1) } else { usize::MAX };
    let mut first = true;
    for i in 0..=o.fields.len() {
        if i == at {
            if !first {
                out.push_str(rng.pick(&[" ", "\n"]));
            }
            first = false;
            out.push_str("^: ");
            source(rng, &MV::Obj(o.parent.clone().unwrap()), out);
        }
        if i < o.fields.len() {
            if !first {
                out.push_str(rng.pick(&[" ", "\n"]));
            }
            first = false;
            out.push_str(&o.fields[i].0);
            out.push(':');
            out.push_str(rng.pick(&["", " ", "\n    "]));
            source(rng, &o.fields[i].1, out);
        }
    }
}

/// The model value of what was loaded (used to compare two loads with each other).
#[derive(Default)]
pub struct Lift {
    objs: HashMap<usize, Rc<MObj>>,
    arrs: HashMap<usize, Rc<model::MArr>>,
    tups: HashMap<usize, Rc<model::MTup>>,
}

impl Lift {
    pub fn obj(&mut self, o: &Obj) -> Rc<MObj> {
        let key = o.pairs_ref() as *const Vec<Pair> as usize;
        if let Some(m) = self.objs.get(&key) {
            return m.clone();
        }
        let parent = o.get_parent().map(|p| self.obj(&p));
        let fields = o.pairs_ref().iter().map(|p| (Rc::from(p.0.as_str()), self.val(&p.1))).collect();
        let m = Rc::new(MObj { fields, parent });
        self.objs.insert(key, m.clone());
        m
    }

    pub fn val(&mut self, v: &Value) -> MV {
        match v {
            Value::Null => MV::Null,
            Value::Bool(b) => MV::Bool(*b),
            Value::Int(i) => MV::Int(i.clone()),
            Value::Frac(f) => MV::Frac(f.clone()),
            Value::Str(s) => MV::str(s),
            Value::Arr(a) => {
                let key = a.values_ref() as *const Vec<Value> as usize;
                if let Some(m) = self.arrs.get(&key) {
                    return MV::Arr(m.clone());
                }
                let vals = a.values_ref().iter().map(|v| self.val(v)).collect();
                let m = Rc::new(model::MArr { vals, inner: mty(&a.inner_type()) });
                self.arrs.insert(key, m.clone());
                MV::Arr(m)
            }
            Value::Tup(a) => {
                let key = a.values_ref() as *const Vec<Value> as usize;
                if let Some(m) = self.tups.get(&key) {
                    return MV::Tup(m.clone());
                }
                let vals = a.values_ref().iter().map(|v| self.val(v)).collect();
                let m = Rc::new(model::MTup { vals, ty: MTy::Tup(a.inner_type_vec().iter().map(mty).collect()) });
                self.tups.insert(key, m.clone());
                MV::Tup(m)
            }
            Value::Obj(o) => MV::Obj(self.obj(o)),
        }
    }
}
