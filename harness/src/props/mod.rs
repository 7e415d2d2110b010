//! The monitors, one per property.

pub mod api;
pub mod cost;
pub mod err;
pub mod includes;
pub mod interp;
pub mod io;
pub mod lang;
pub mod limits;
pub mod mem;
pub mod robust;
pub mod round;
pub mod scale;
pub mod threads;
pub mod util;

use crate::sup::{Merged, PropDef};

pub static ALL: &[&PropDef] = &[
    &robust::C01,
    &lang::C02, &lang::C03, &lang::C04, &lang::C07, &lang::C08, &lang::C09, &err::C14, &err::C15, &lang::C16, &limits::C24,
    &limits::C25, &includes::C10, &includes::C11, &includes::C26,
    &round::C12, &round::C13,
    &api::C05, &api::C06, &api::C17, &api::C18, &api::C19, &threads::C20, &mem::C21, &mem::C22, &io::C23, &cost::C27,
];

pub fn find(id: &str) -> Option<&'static PropDef> {
    ALL.iter().find(|d| d.id == id).copied()
}

/// Extra phases after the shards.
pub fn after(def: &PropDef, m: &mut Merged, seed: u64, thorough: bool) {
    if def.id == "C01" {
        robust::known(m);
    }
    interp::after(def, m, seed, thorough);
}

/// Bodies of helper processes.
pub fn special(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("load") => includes::load_main(&args[1..]),
        Some("probe") => crate::sup::probe_main(std::path::Path::new(&args[1])),
        Some("known") => robust::known_main(&args[1..]),
        Some("miri") => interp::miri_main(&args[1..]),
        _ => 64,
    }
}
