//! Orchestrator: runs a property's cases in worker processes, watches them, attributes crashes
//! and hangs to the case that was running, and writes the verdict and the evidence.
//!
//! Verdicts are three-valued. Violated: exit 1 with a VIOLATION line (the witness is replayed in
//! a process of its own first). Held on what was observed: exit 0. Inconclusive (a worker was
//! killed from outside, nothing was observed, an auxiliary build failed): exit 2, never a violation.

use crate::core::{Case, Obs, Prop, Tier, Violation};
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Read;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// CPU seconds that a single case may use before it counts as never answering. Cases normally
/// take well under a second; the limit is on CPU time, so a loaded machine does not matter.
const CASE_CPU_LIMIT: u64 = 60;

pub struct Config {
    pub prop: &'static Prop,
    pub tier: Tier,
    pub seed: u64,
    pub scratch: PathBuf,
}

pub enum Outcome {
    Held,
    Violated(Violation, Option<u64>),
    Inconclusive(String),
}

pub fn run_case(p: &Prop, seed: u64, tier: Tier, no: u64, obs: &mut Obs) -> Result<(), Violation> {
    let mut case = Case { seed, no, tier, rng: Rng::for_case(seed, p.id, no), obs };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut case))) {
        Ok(v) => v,
        Err(_) => {
            let at = crate::core::last_panic();
            // A panic inside the harness itself is an error of the machinery, not of the library
            if at.contains(" at src/") {
                eprintln!("harness panic in case {no}: {at}");
                std::process::exit(70);
            }
            Err(Violation { what: format!("panic: {at}"), input: Value::Null })
        }
    }
}

/// Worker process: cases idx, idx+WORKERS, ... below `total`.
pub fn worker(p: &Prop, seed: u64, tier: Tier, idx: u64, total: u64, dir: &Path, wall: u64) {
    crate::core::install_panic_hook();
    let cur = fs::File::create(dir.join(format!("cur-{idx}"))).unwrap();
    let start = Instant::now();
    let mut obs = Obs::default();
    let mut evals = 0u64;
    let mut truncated = false;
    let mut found: Option<(u64, Violation)> = None;
    let mut no = idx;
    while no < total {
        if start.elapsed().as_secs() >= wall {
            truncated = true;
            break;
        }
        let _ = cur.write_at(&no.to_le_bytes(), 0);
        evals += 1;
        let before = Instant::now();
        let got = run_case(p, seed, tier, no, &mut obs);
        let ms = before.elapsed().as_millis() as u64;
        obs.max("max_case_ms", ms);
        if ms > 2000 {
            // For whoever looks why
            eprintln!("case {no} took {ms} ms");
        }
        if let Err(v) = got {
            found = Some((no, v));
            break;
        }
        no += WORKERS;
    }
    let mut bin = Vec::with_capacity(obs.hashes.len() * 8);
    for h in &obs.hashes {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("hash-{idx}")), bin).unwrap();
    let out = json!({
        "evals": evals,
        "truncated": truncated,
        "counters": obs.counters,
        "samples": obs.samples,
        "violation": found.map(|(n, v)| json!({"case": n, "what": v.what, "input": v.input})),
    });
    fs::write(dir.join(format!("out-{idx}.tmp")), serde_json::to_vec(&out).unwrap()).unwrap();
    fs::rename(dir.join(format!("out-{idx}.tmp")), dir.join(format!("out-{idx}"))).unwrap();
}

/// CPU seconds used so far by one of our own children.
fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ticks: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(ticks / 100.0)
}

fn current_case(dir: &Path, idx: u64) -> Option<u64> {
    let b = fs::read(dir.join(format!("cur-{idx}"))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

fn spawn_worker(cfg: &Config, idx: u64, total: u64, wall: u64) -> std::io::Result<Child> {
    Command::new(std::env::current_exe()?)
        .args(["worker", cfg.prop.id])
        .args([cfg.seed.to_string(), tier_name(cfg.tier).into(), idx.to_string(), total.to_string()])
        .arg(&cfg.scratch)
        .arg(wall.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(cfg.scratch.join(format!("err-{idx}")))?)
        .spawn()
}

pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

/// Re-run one case alone under a CPU limit; says what happened to it.
enum Alone {
    Passed,
    Violation(Violation),
    Inconclusive(String),
}

fn run_alone(cfg: &Config, case: u64) -> Alone {
    let exe = std::env::current_exe().unwrap();
    let child = Command::new("/bin/sh")
        .arg("-c")
        .arg(format!("ulimit -S -t {CASE_CPU_LIMIT}; ulimit -c 0; exec \"$0\" \"$@\""))
        .arg(exe)
        .args(["one", cfg.prop.id, &cfg.seed.to_string(), tier_name(cfg.tier), &case.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => return Alone::Inconclusive(format!("cannot start a process: {e}")),
    };
    let mut out = String::new();
    let mut err = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = err.read_to_end(&mut b);
        String::from_utf8_lossy(&b).chars().take(2000).collect::<String>()
    });
    let _ = child.stdout.take().unwrap().read_to_string(&mut out);
    let st = child.wait().unwrap();
    let err = reader.join().unwrap_or_default();
    match (st.code(), st.signal()) {
        (Some(0), _) => Alone::Passed,
        (Some(1), _) => match serde_json::from_str::<Value>(out.trim()) {
            Ok(v) => Alone::Violation(Violation { what: v["what"].as_str().unwrap_or("?").to_string(), input: v["input"].clone() }),
            Err(_) => Alone::Inconclusive(format!("unreadable result: {out}")),
        },
        (Some(c), _) => Alone::Inconclusive(format!("case {case} ended with code {c}: {err}")),
        // SIGXCPU or the hard limit's SIGKILL after the CPU limit
        (_, Some(24)) => Alone::Violation(Violation {
            what: format!("no answer within {CASE_CPU_LIMIT} CPU seconds"),
            input: Value::Null,
        }),
        (_, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => Alone::Violation(Violation {
            what: format!("the process died from signal {s}: {}", err.trim()),
            input: Value::Null,
        }),
        (_, s) => Alone::Inconclusive(format!("case {case} was killed from outside (signal {s:?}): {err}")),
    }
}

pub struct Totals {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<Value>,
    pub truncated: bool,
    pub notes: Vec<String>,
}

pub fn run_workers(cfg: &Config, total: u64) -> (Outcome, Totals) {
    let mut tot = Totals {
        evals: 0,
        counters: BTreeMap::new(),
        hashes: HashSet::new(),
        samples: vec![],
        truncated: false,
        notes: vec![],
    };
    let wall = if cfg.tier == Tier::Quick { 180 } else { 600 };
    let mut kids: Vec<(u64, Option<Child>, u64, f64)> = Vec::new();
    for i in 0..WORKERS.min(total) {
        match spawn_worker(cfg, i, total, wall) {
            Ok(c) => kids.push((i, Some(c), u64::MAX, 0.0)),
            Err(e) => return (Outcome::Inconclusive(format!("cannot start a worker: {e}")), tot),
        }
    }
    let mut suspects: Vec<u64> = vec![];
    let mut inconclusive: Option<String> = None;
    loop {
        let mut alive = false;
        for (i, slot, last, cpu_at) in kids.iter_mut() {
            let Some(c) = slot else { continue };
            match c.try_wait() {
                Ok(None) => {
                    alive = true;
                    let now = cpu_seconds(c.id()).unwrap_or(0.0);
                    match current_case(&cfg.scratch, *i) {
                        Some(n) if n == *last => {
                            if now - *cpu_at > CASE_CPU_LIMIT as f64 {
                                let _ = c.kill();
                                let _ = c.wait();
                                suspects.push(n);
                                *slot = None;
                            }
                        }
                        Some(n) => {
                            *last = n;
                            *cpu_at = now;
                        }
                        None => {}
                    }
                }
                Ok(Some(st)) => {
                    if !st.success() {
                        let err = fs::read_to_string(cfg.scratch.join(format!("err-{i}"))).unwrap_or_default();
                        match (st.signal(), current_case(&cfg.scratch, *i)) {
                            (Some(s), Some(n)) if [4, 6, 7, 8, 11].contains(&s) => suspects.push(n),
                            (s, n) => {
                                inconclusive = Some(format!("worker {i} ended with {st} (signal {s:?}) in case {n:?}: {}", err.trim()))
                            }
                        }
                    }
                    *slot = None;
                }
                Err(e) => {
                    inconclusive = Some(format!("worker {i}: {e}"));
                    *slot = None;
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let mut found: Option<(Violation, u64)> = None;
    for i in 0..WORKERS.min(total) {
        let Ok(b) = fs::read(cfg.scratch.join(format!("out-{i}"))) else { continue };
        let Ok(v) = serde_json::from_slice::<Value>(&b) else { continue };
        tot.evals += v["evals"].as_u64().unwrap_or(0);
        tot.truncated |= v["truncated"] == json!(true);
        for (k, n) in v["counters"].as_object().unwrap_or(&Map::new()) {
            let n = n.as_u64().unwrap_or(0);
            let e = tot.counters.entry(k.clone()).or_insert(0);
            *e = if k.starts_with("max_") { (*e).max(n) } else { *e + n };
        }
        tot.samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        if let Ok(h) = fs::read(cfg.scratch.join(format!("hash-{i}"))) {
            for c in h.chunks_exact(8) {
                tot.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Some(w) = v["violation"].as_object() {
            let n = w["case"].as_u64().unwrap_or(0);
            if found.as_ref().is_none_or(|(_, m)| n < *m) {
                found = Some((Violation { what: w["what"].as_str().unwrap_or("?").into(), input: w["input"].clone() }, n));
            }
        }
    }
    tot.samples.truncate(6);
    if let Some((v, n)) = found {
        // Replay the witness in a process of its own
        return match run_alone(cfg, n) {
            Alone::Violation(_) => (Outcome::Violated(v, Some(n)), tot),
            // Seen in-process after other cases but not alone: the library's answer depends on
            // what it was asked before, which no property here allows
            Alone::Passed => {
                let what = format!("{} (only after the cases before it in worker {}: depends on history)", v.what, n % WORKERS);
                (Outcome::Violated(Violation { what, input: v.input }, Some(n)), tot)
            }
            Alone::Inconclusive(e) => (Outcome::Inconclusive(e), tot),
        };
    }
    suspects.sort();
    for n in suspects {
        match run_alone(cfg, n) {
            Alone::Violation(v) => return (Outcome::Violated(v, Some(n)), tot),
            Alone::Passed => {
                // Perhaps it takes the cases before it as well: run that worker's slice once more
                let again = spawn_worker(cfg, n % WORKERS, total, wall).and_then(|mut c| c.wait());
                let died = matches!(&again, Ok(st) if st.signal().is_some_and(|s| [4, 6, 7, 8, 11].contains(&s)));
                if died && current_case(&cfg.scratch, n % WORKERS) == Some(n) {
                    let what = format!("the process dies in case {n} after the cases before it (depends on history)");
                    return (Outcome::Violated(Violation { what, input: Value::Null }, Some(n)), tot);
                }
                inconclusive = Some(format!("a worker died or hung in case {n}, which passes alone"))
            }
            Alone::Inconclusive(e) => inconclusive = Some(e),
        }
    }
    if let Some(e) = inconclusive {
        return (Outcome::Inconclusive(e), tot);
    }
    if tot.evals == 0 || tot.hashes.is_empty() {
        return (Outcome::Inconclusive("nothing was observed".into()), tot);
    }
    (Outcome::Held, tot)
}

/// Only the beginning of what is very long; the seed and the case give all of it.
fn clip(v: Value) -> Value {
    match v {
        Value::String(s) if s.len() > 3000 => {
            let n = s.chars().count();
            Value::String(format!("{} ... ({n} characters)", s.chars().take(2000).collect::<String>()))
        }
        Value::Array(a) => {
            let n = a.len();
            let mut b: Vec<Value> = a.into_iter().take(300).map(clip).collect();
            if n > 300 {
                b.push(json!(format!("... ({n} elements)")));
            }
            Value::Array(b)
        }
        Value::Object(m) => {
            let n = m.len();
            let mut o: Map<String, Value> = m.into_iter().take(300).map(|(k, v)| (if k.len() > 3000 { k.chars().take(2000).collect() } else { k }, clip(v))).collect();
            if n > 300 {
                o.insert("...".into(), json!(format!("{n} members")));
            }
            Value::Object(o)
        }
        v => v,
    }
}

/// Evidence, replay file, verdict line; the exit code.
#[allow(clippy::too_many_arguments)]
pub fn finish(id: &str, rule: &str, seed: u64, tier: Tier, verif: &Path, outcome: Outcome, tot: &Totals, wall: f64, extra: Value) -> i32 {
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(tot.evals));
    cov.insert("distinct_nontrivial".into(), json!(tot.hashes.len()));
    cov.insert("rule".into(), json!(rule));
    cov.insert("samples".into(), clip(json!(tot.samples)));
    cov.insert("observed".into(), json!(tot.counters));
    cov.insert("truncated_by_time".into(), json!(tot.truncated));
    if !tot.notes.is_empty() {
        cov.insert("notes".into(), json!(tot.notes));
    }
    if let Value::Object(m) = extra {
        for (k, v) in m {
            cov.insert(k, v);
        }
    }
    let ev = json!({
        "property": id,
        "tier": tier_name(tier),
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": crate::props::ASSUMPTIONS,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": matches!(outcome, Outcome::Violated(..)) as u64,
    });
    let _ = fs::create_dir_all(verif.join("evidence"));
    fs::write(verif.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    eprintln!("{id}: {} cases, {} distinct, {wall:.1} s", tot.evals, tot.hashes.len());
    match outcome {
        Outcome::Held => {
            println!("OK property={id} cases={} distinct={}", tot.evals, tot.hashes.len());
            0
        }
        Outcome::Violated(v, case) => {
            let v = Violation { what: clip(json!(v.what)).as_str().unwrap_or("?").to_string(), input: clip(v.input) };
            let dir = verif.join("replays");
            let _ = fs::create_dir_all(&dir);
            let path = dir.join(format!("{id}-{}.json", case.map(|c| c.to_string()).unwrap_or("x".into())));
            let doc = json!({
                "property": id,
                "seed": seed,
                "tier": tier_name(tier),
                "case": case,
                "what": v.what,
                "input": v.input,
                "replay": "bash /verif/check.sh replay <this file>",
            });
            fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").unwrap();
            println!("{}\n{:#}", v.what, v.input);
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
        Outcome::Inconclusive(why) => {
            println!("INCONCLUSIVE property={id}: {why}");
            2
        }
    }
}
