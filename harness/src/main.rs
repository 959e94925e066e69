//! Runtime monitors for toon-rs. See /verif/DESIGN.md.

mod alloc_mon;
mod cli;
mod core;
mod docgen;
mod eq;
mod external;
mod gen;
mod model;
mod orch;
mod props;
mod rng;
mod sval;

use crate::core::{Obs, Prop, Tier};
use std::path::PathBuf;
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc_mon::Counting = alloc_mon::Counting;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn find(id: &str) -> &'static Prop {
    match props::all().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(64);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    match arg(1).as_str() {
        // check ID SEED TIER VERIF_DIR
        "check" if external::find(&arg(2)).is_some() => {
            std::process::exit(external::check(external::find(&arg(2)).unwrap(), num(3), tier(&arg(4)), &PathBuf::from(arg(5))))
        }
        "check" => std::process::exit(check(find(&arg(2)), num(3), tier(&arg(4)), PathBuf::from(arg(5)))),
        "worker" => orch::worker(find(&arg(2)), num(3), tier(&arg(4)), num(5), num(6), &PathBuf::from(arg(7)), num(8)),
        // one ID SEED TIER CASE: a single case in this process
        "one" => {
            core::install_panic_hook();
            let mut obs = Obs::default();
            match orch::run_case(find(&arg(2)), num(3), tier(&arg(4)), num(5), &mut obs) {
                Ok(()) => std::process::exit(0),
                Err(v) => {
                    println!("{}", serde_json::json!({"what": v.what, "input": v.input}));
                    std::process::exit(1)
                }
            }
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(arg(2)).expect("replay file")).expect("json");
            core::install_panic_hook();
            let id = v["property"].as_str().unwrap_or("");
            if let Some(e) = external::find(id) {
                // The whole run again: logs are judged as a whole
                let t = tier(v["tier"].as_str().unwrap_or("quick"));
                std::process::exit(external::check(e, v["seed"].as_u64().unwrap_or(1), t, &PathBuf::from(arg(3))));
            }
            let r = orch::run_case(
                find(id),
                v["seed"].as_u64().unwrap_or(1),
                tier(v["tier"].as_str().unwrap_or("quick")),
                v["case"].as_u64().unwrap_or(0),
                &mut Obs::default(),
            );
            match r {
                Ok(()) => println!("the property holds on this case"),
                Err(w) => {
                    println!("VIOLATION property={id} replay={}\n{}\n{:#}", arg(2), w.what, w.input);
                    std::process::exit(1)
                }
            }
        }
        "list" => {
            for p in props::all() {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
        }
        _ => {
            eprintln!("usage: toonmon check|worker|one|replay|list ...");
            std::process::exit(64)
        }
    }
}

fn check(p: &'static Prop, seed: u64, t: Tier, verif: PathBuf) -> i32 {
    let start = Instant::now();
    let scratch = std::env::temp_dir().join(format!("toonmon-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let cfg = orch::Config { prop: p, tier: t, seed, scratch: scratch.clone() };
    let total = if t == Tier::Quick { p.quick } else { p.thorough };
    let (outcome, tot) = orch::run_workers(&cfg, total);
    let _ = std::fs::remove_dir_all(&scratch);
    let wall = start.elapsed().as_secs_f64();
    orch::finish(p.id, p.rule, seed, t, &verif, outcome, &tot, wall, serde_json::Value::Null)
}
