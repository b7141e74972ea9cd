mod algebra;
mod api;
mod compress;
#[cfg(not(feature = "share"))]
mod conc;
mod fieldck;
mod fields;
mod gen;
mod grain;
mod history;
mod inst;
mod memory;
mod misuse;
mod perm;
mod pristine;
mod randck;
mod refm;
mod tables;
mod trees;
mod util;

use util::*;

#[global_allocator]
static ALLOC: memory::Counting = memory::Counting;

fn main() {
    let mut a = std::collections::HashMap::new();
    let mut it = std::env::args().skip(1);
    let prop = it.next().unwrap_or_default();
    while let Some(k) = it.next() {
        a.insert(k, it.next().unwrap_or_default());
    }
    let g = |k: &str, d: &str| a.get(k).cloned().unwrap_or_else(|| d.to_string());
    let known = std::fs::read_to_string(g("--known", "/nonexistent"))
        .unwrap_or_default()
        .lines()
        .map(|s| s.trim().to_string())
        .filter(|s| !s.is_empty())
        .collect();
    let _ = CFG.set(Cfg {
        prop: g("--prop", &prop),
        variant: g("--variant", "release"),
        thorough: g("--tier", "quick") == "thorough",
        seed: g("--seed", "1").parse().unwrap_or(1),
        threads: g("--threads", "8").parse().unwrap_or(8),
        scale: g("--scale", "1").parse().unwrap_or(1.0),
        repo: g("--repo", "/repo"),
        out: a.get("--out").cloned(),
        replay_dir: g("--replay", "/tmp/vpmon-replay"),
        known,
        start: std::time::Instant::now(),
    });
    install_hook();
    if matches!(prop.as_str(), "C09" | "C10") {
        // before any other thread exists
        pristine::start(history::build_pool());
    }
    if !cfg!(miri) {
        watchdog();
    }
    let ev = match prop.as_str() {
        "noop" => return,
        "child-rand" => return randck::child_rand(),
        "child-first" => return history::child_first(&a),
        #[cfg(not(feature = "share"))]
        "child-conc" => return conc::child_conc(&a),
        "C09" => history::c09(),
        #[cfg(not(feature = "share"))]
        "C10" => conc::c10(),
        "C20" => misuse::c20(),
        "C21" => memory::c21(),
        "C19" => randck::c19(),
        "C01" => perm::c01(),
        "C02" => perm::c02(),
        "C03" => tables::c03(),
        "C11" => api::c11(),
        "C12" => trees::c12(),
        "C13" => trees::c13(),
        "C14" => trees::c14(),
        "C16" => algebra::c16(),
        "C22" => algebra::c22(),
        "C15" => compress::c15(),
        "C17" => fieldck::c17(),
        "C18" => fieldck::c18(),
        "C04" => perm::c04(),
        "C05" => perm::c05(),
        "C06" => perm::c06(),
        "C07" => perm::c07(),
        "C08" => perm::c08(),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    };
    write_out(&ev);
}
