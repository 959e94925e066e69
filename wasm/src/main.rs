//! The WebAssembly bindings, called natively, against the library (in a process of its own: the
//! bindings bring their own global allocator).
//!
//!     toonwasmmon run SEED FROM TO STEP FILE
//!     toonwasmmon one SEED CASE
#![allow(dead_code)]

#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/docgen.rs"]
mod docgen;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/rng.rs"]
mod rng;

use crate::core::*;
use rng::Rng;
use serde_json::{json, Value};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

const LIMIT: usize = 10 * 1024 * 1024;

fn call(f: impl FnOnce() -> Result<String, String>) -> Result<Result<String, String>, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn short(s: &str) -> String {
    if s.len() > 3000 {
        format!("{}... ({} bytes)", s.chars().take(200).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}

fn judge(name: &str, input: &Value, got: Result<Result<String, String>, String>, want: Result<String, String>, obs: &mut Obs) -> Verdict {
    match (got, want) {
        (Err(m), _) => violation(format!("{name} panics: {m}"), input.clone()),
        (Ok(Ok(a)), Ok(b)) if a == b => {
            obs.count(&format!("{name} converted"));
            Ok(())
        }
        (Ok(Err(e)), Err(_)) if !e.is_empty() => {
            obs.count(&format!("{name} refused"));
            Ok(())
        }
        (Ok(a), b) => violation(format!("{name} gives {:?}; the library gives {:?}", a.map(|x| short(&x)), b.map(|x| short(&x))), input.clone()),
    }
}

fn to_toon(text: &str, pipe: bool, strict: bool) -> Result<String, String> {
    if text.len() > LIMIT {
        return Err("too large".into());
    }
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let o = Options { delimiter: if pipe { Delimiter::Pipe } else { Delimiter::Comma }, strict, ..Options::default() };
    encode(&v, &o).map_err(|e| e.to_string())
}

fn to_json(text: &str, strict: bool, pretty: bool) -> Result<String, String> {
    if text.len() > LIMIT {
        return Err("too large".into());
    }
    let v = decode_value(text, &Options { strict, ..Options::default() }).map_err(|e| e.to_string())?;
    if pretty { serde_json::to_string_pretty(&v) } else { serde_json::to_string(&v) }.map_err(|e| e.to_string())
}

fn case(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    if c.no % 40000 == 7 {
        return limits(c);
    }
    let p = gen::profile(r);
    let mut v = gen::document(r, &p);
    if r.chance(1, 2000) {
        gen::enlarge(r, &mut v);
    }
    let (pipe, strict, pretty) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
    if r.chance(1, 2) {
        let mut t = if r.chance(1, 3) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
        if r.chance(1, 4) {
            t = gen::edit(r, &t);
        }
        let input = json!({"call": "json_to_toon", "text": t, "pipe": pipe, "strict": strict});
        let got = call(|| toon_wasm::json_to_toon(&t, pipe, strict));
        if let Ok(Ok(g)) = &got {
            c.obs.nontrivial(g.as_bytes());
        }
        judge("json_to_toon", &input, got, to_toon(&t, pipe, strict), c.obs)
    } else {
        let step = if r.chance(1, 8) { 4 } else { 2 };
        let mut t = if r.chance(1, 2) {
            let freedom = *r.pick(&[10, 40, 90]);
            docgen::write(r, &v, docgen::Style { strict, step, freedom, legacy: false, escapes: true, bare: false }).text()
        } else {
            let delimiter = *r.pick(&DELIMS);
            encode(&v, &Options { delimiter, ..Options::default() }).unwrap_or_default()
        };
        if r.chance(1, 3) {
            t = gen::edit(r, &t);
        }
        let input = json!({"call": "toon_to_json", "text": t, "strict": strict, "pretty": pretty});
        let got = call(|| toon_wasm::toon_to_json(&t, strict, pretty));
        if c.no % 100 < 8 {
            c.obs.sample(|| json!({"input": input, "result": format!("{got:?}")}));
        }
        if let Ok(Ok(g)) = &got {
            c.obs.nontrivial(g.as_bytes());
        }
        judge("toon_to_json", &input, got, to_json(&t, strict, pretty), c.obs)
    }
}

/// Around the size limit, also with characters of several bytes.
fn limits(c: &mut Case) -> Verdict {
    let wide = c.rng.chance(1, 2);
    for len in [LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, LIMIT + 3, 2 * LIMIT] {
        let body = len - 2;
        let mut text = String::with_capacity(len);
        text.push('"');
        if wide {
            for _ in 0..body / 3 {
                text.push('日');
            }
            for _ in 0..body % 3 {
                text.push('x');
            }
        } else {
            for _ in 0..body {
                text.push('x');
            }
        }
        text.push('"');
        c.obs.count("inputs around the limit");
        let input = json!({"bytes": len, "wide": wide});
        // Both calls: the text is a JSON string and a TOON string
        let a = call(|| toon_wasm::json_to_toon(&text, false, true));
        let b = call(|| toon_wasm::toon_to_json(&text, true, false));
        judge("json_to_toon", &input, a, to_toon(&text, false, true), c.obs)?;
        judge("toon_to_json", &input, b, to_json(&text, true, false), c.obs)?;
    }
    Ok(())
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let seed = num(2);
    let mut obs = Obs::default();
    let mut run = |no: u64, obs: &mut Obs| case(&mut Case { seed, no, tier: Tier::Quick, rng: Rng::for_case(seed, "C19", no), obs });
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let (from, to, step) = (num(3), num(4), num(5).max(1));
            let cur = std::fs::File::create(format!("{}.cur", a[6])).expect("progress file");
            let (mut no, mut evals) = (from, 0u64);
            let mut found = Value::Null;
            while no < to {
                let _ = cur.write_all_at(&no.to_le_bytes(), 0);
                evals += 1;
                if let Err(v) = run(no, &mut obs) {
                    found = json!({"case": no, "what": v.what, "input": v.input});
                    break;
                }
                no += step;
            }
            let hashes: Vec<u64> = obs.hashes.iter().copied().collect();
            std::fs::write(&a[6], json!({"evals": evals, "counters": obs.counters, "hashes": hashes, "samples": obs.samples, "violation": found}).to_string()).expect("result file");
        }
        Some("one") => match run(num(3), &mut obs) {
            Ok(()) => println!("held"),
            Err(v) => {
                println!("{}\n{:#}", v.what, v.input);
                std::process::exit(1);
            }
        },
        _ => std::process::exit(64),
    }
}
