//! Helpers shared by the monitors.

use crate::bridge;
use crate::gen::{self, FileRec, Gen, Layout, Prof, Tok};
use crate::model::{self, Fault, Kind, MObj, Stop, World};
use crate::sup::{must, Ctx};
use over::Obj;
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// Where the text of a document comes from.
pub enum Src<'a> {
    Str(&'a str),
    File(&'a str),
}

pub enum Seen {
    Same(Obj, Rc<MObj>),
    Rejected(Fault, String),
    /// The library rejects (or accepts) it, but this check leaves that to another one.
    Other,
    /// The language leaves it open, or it is too large.
    Open,
}

#[derive(Clone, Copy)]
pub struct Dirs {
    /// Valid documents must be accepted with the right data.
    pub accept: bool,
    /// Faulty documents must be rejected.
    pub reject: bool,
    pub sharing: bool,
}

pub const BOTH: Dirs = Dirs { accept: true, reject: true, sharing: false };
pub const ACCEPT: Dirs = Dirs { accept: true, reject: false, sharing: false };
pub const REJECT: Dirs = Dirs { accept: false, reject: true, sharing: false };

pub fn load_str(ctx: &mut Ctx, text: &str) -> Result<Result<Obj, String>, String> {
    ctx.over(|| text.parse::<Obj>().map_err(|e| e.to_string()))
}

pub fn load_file(ctx: &mut Ctx, path: &str) -> Result<Result<Obj, String>, String> {
    ctx.over(|| Obj::from_file(path).map_err(|e| e.to_string()))
}

/// Loads with the library and with the model, and compares what they say.
pub fn agree(ctx: &mut Ctx, src: Src, dirs: Dirs) -> Result<(Seen, World), String> {
    let (want, w) = match src {
        Src::Str(t) => model::load_str(t),
        Src::File(p) => model::load_file(p),
    };
    let want = match want {
        Err(Stop::Unspec(why)) => {
            ctx.count(&format!("left_open: {}", why), 1);
            return Ok((Seen::Open, w));
        }
        Err(Stop::TooBig) => {
            ctx.count("too_big", 1);
            return Ok((Seen::Open, w));
        }
        Err(Stop::Fault(f)) => Err(f),
        Ok(o) => Ok(o),
    };
    let got = match src {
        Src::Str(t) => load_str(ctx, t)?,
        Src::File(p) => load_file(ctx, p)?,
    };
    match (want, got) {
        (Ok(m), Ok(o)) => {
            ctx.count("accepted", 1);
            if dirs.accept {
                let mut c = bridge::Cmp::new(dirs.sharing);
                crate::sup::guard(|| c.obj(&o, &m, "$"))??;
                ctx.count("values_compared", c.nodes);
                ctx.feats(&w.feats);
            }
            Ok((Seen::Same(o, m), w))
        }
        (Ok(_), Err(e)) => {
            if dirs.accept {
                return Err(format!("a valid document was rejected: {}", model::short(&e)));
            }
            Ok((Seen::Other, w))
        }
        (Err(f), Ok(_)) => {
            if dirs.reject {
                return Err(format!("a faulty document was accepted; fault: {:?}", f));
            }
            Ok((Seen::Other, w))
        }
        (Err(f), Err(e)) => {
            ctx.count("rejected", 1);
            Ok((Seen::Rejected(f, e), w))
        }
    }
}

/// An empty directory under the shard's scratch directory.
pub fn fresh_dir(ctx: &Ctx, name: &str) -> PathBuf {
    let d = ctx.dir.join(name);
    if d.exists() {
        must(fs::remove_dir_all(&d), "clean scratch directory");
    }
    must(fs::create_dir_all(&d), "scratch directory");
    d
}

pub fn write(path: &Path, text: &[u8]) {
    if let Some(p) = path.parent() {
        must(fs::create_dir_all(p), "scratch directory");
    }
    must(fs::write(path, text), "scratch file");
}

/// Renders and writes the generated files below `root`; returns their texts.
pub fn write_files(ctx: &mut Ctx, root: &Path, files: &[FileRec], dirs: &[String], layout: Option<Layout>) -> Vec<String> {
    let mut texts = vec![];
    for d in dirs {
        must(fs::create_dir_all(root.join(d)), "scratch directory");
    }
    for f in files {
        let l = layout.unwrap_or_else(|| gen::layout(&mut ctx.rng));
        let raw = f.kinds.len() == 1 && f.kinds[0].0 == Kind::Str;
        let text = if raw {
            f.toks.iter().map(|t| if let Tok::S(s) = t { s.as_str() } else { "" }).collect()
        } else {
            gen::render(&mut ctx.rng, &f.toks, l).text
        };
        write(&root.join(&f.path), text.as_bytes());
        ctx.note(&format!("file {}", f.path), &text);
        texts.push(text);
    }
    texts
}

/// A generated document without includes.
pub fn document(ctx: &mut Ctx, prof: Prof) -> Vec<Tok> {
    Gen::new(&mut ctx.rng, prof).document("")
}

/// Loads a text, from a string or through a file, and checks it against the model.
pub fn check_text(ctx: &mut Ctx, text: &str, dirs: Dirs) -> Result<Seen, String> {
    ctx.note("document", text);
    let seen = if ctx.rng.pct(15) {
        let p = ctx.dir.join("doc.over");
        write(&p, text.as_bytes());
        ctx.count("via_file", 1);
        agree(ctx, Src::File(p.to_str().unwrap()), dirs)?.0
    } else {
        agree(ctx, Src::Str(text), dirs)?.0
    };
    Ok(seen)
}

pub fn vary(ctx: &mut Ctx, mut p: Prof) -> Prof {
    if ctx.rng.pct(12) {
        p.size = p.size * 5;
    }
    if ctx.rng.pct(10) {
        p.depth = 12;
        p.p_cont = 75;
    }
    if ctx.rng.pct(10) {
        p.p_odd = 50;
    }
    p
}
