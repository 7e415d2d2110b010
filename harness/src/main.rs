//! overmon: runtime monitors for the `over` crate. See /verif/DESIGN.md.

mod alloc;
mod bridge;
mod gen;
mod interpose;
mod model;
mod props;
mod rng;
mod sup;

use std::path::PathBuf;
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn usage() -> ! {
    eprintln!("usage: overmon check ID | replay ID SEED THOROUGH CASE [DUMP] | shard ... | list");
    std::process::exit(64)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| -> &str { a.get(i).map(|s| s.as_str()).unwrap_or_else(|| usage()) };
    let num = |i: usize| -> u64 { arg(i).parse().unwrap_or_else(|_| usage()) };
    let code = match arg(1) {
        "check" => {
            let def = props::find(arg(2)).unwrap_or_else(|| usage());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            let root = PathBuf::from(std::env::var("OVERMON_ROOT").unwrap_or_else(|_| "/verif".into()));
            let started = Instant::now();
            let mut total = if thorough { def.thorough } else { def.quick };
            if let Some(n) = std::env::var("OVERMON_CASES").ok().and_then(|s| s.parse().ok()) {
                total = n;
            }
            let exe = sup::Exe::this();
            let shards = std::env::var("OVERMON_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            let mut m = sup::run_shards(def, &exe, seed, thorough, total, shards);
            props::after(def, &mut m, seed, thorough);
            sup::Verdict { def, root, seed, thorough, started }.finish(m)
        }
        "shard" => {
            let def = props::find(arg(2)).unwrap_or_else(|| usage());
            sup::shard_main(def, num(3), num(4) == 1, num(5), num(6), num(7), &PathBuf::from(arg(8)))
        }
        "replay" if sup::unprivileged().is_some() => {
            let dir = sup::scratch_dir();
            let st = sup::must(sup::Exe::this().confined(&dir).args(&a[1..]).status(), "spawn");
            let _ = std::fs::remove_dir_all(&dir);
            st.code().unwrap_or_else(|| {
                println!("result: {}", st);
                1
            })
        }
        "replay" => {
            let def = props::find(arg(2)).unwrap_or_else(|| usage());
            sup::replay_main(def, num(3), num(4) == 1, num(5), a.get(6).map(PathBuf::from))
        }
        "special" => props::special(&a[2..]),
        "list" => {
            for d in props::ALL {
                println!("{}", d.id);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
