//! Checks that judge other processes: event logs of differently built libraries, the command line
//! program, and builds under sanitizers.

use crate::core::{Tier, Violation};
use crate::orch::{Outcome, Totals};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub start: Instant,
}

pub fn totals() -> Totals {
    Totals { evals: 0, counters: BTreeMap::new(), hashes: HashSet::new(), samples: vec![], truncated: false, notes: vec![] }
}

impl Totals {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
}

const SHARDS: u64 = 8;
const RECORD: usize = 9;
/// CPU seconds for a single case.
const LIMIT: u64 = 60;

fn bin(c: &Ctx, name: &str) -> PathBuf {
    c.verif.join("target/variants").join(name)
}

/// How a single case ends in one build.
#[derive(PartialEq, Clone, Debug)]
enum End {
    Events(Value),
    Died(i32),
    Other(String),
}

fn show(c: &Ctx, name: &str, fold: bool, case: u64) -> End {
    let out = Command::new("/bin/sh")
        .arg("-c")
        .arg(format!("ulimit -S -t {LIMIT}; ulimit -c 0; exec \"$0\" \"$@\""))
        .arg(bin(c, name))
        .args(["show", &c.seed.to_string(), if fold { "1" } else { "0" }, &case.to_string()])
        .stdin(Stdio::null())
        .output();
    match out {
        Err(e) => End::Other(e.to_string()),
        Ok(o) => match (o.status.signal(), o.status.code()) {
            (_, Some(0)) => serde_json::from_slice(&o.stdout).map(End::Events).unwrap_or(End::Other("unreadable".into())),
            (Some(s), _) if s != 9 && s != 15 => End::Died(s),
            _ => End::Other(format!("{}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>())),
        },
    }
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

/// Digest per case (None where the process died), and the cases in which it died.
type Log = BTreeMap<u64, Option<[u8; RECORD]>>;

/// Why there is no log.
enum NoLog {
    Cannot(String),
    /// A signal ended the program in different cases of the same run, or in one order of them only.
    Dies(u64, String),
}
impl From<String> for NoLog {
    fn from(s: String) -> NoLog {
        NoLog::Cannot(s)
    }
}
impl NoLog {
    fn outcome(self) -> Outcome {
        match self {
            NoLog::Cannot(e) => Outcome::Inconclusive(e),
            NoLog::Dies(n, what) => Outcome::Violated(Violation { what, input: json!({"case": n}) }, Some(n)),
        }
    }
}

fn record(c: &Ctx, name: &str, fold: bool, total: u64) -> Result<Log, NoLog> {
    record_as(c, "log", name, fold, total)
}

fn record_as(c: &Ctx, how: &str, name: &str, fold: bool, total: u64) -> Result<Log, NoLog> {
    let mut log: Log = BTreeMap::new();
    // (first case, shard)
    let mut todo: Vec<(u64, u64)> = (0..SHARDS).map(|i| (i, i)).collect();
    while !todo.is_empty() {
        let mut kids: Vec<(u64, u64, PathBuf, Option<Child>, u64, f64)> = vec![];
        for (from, shard) in todo.drain(..) {
            let file = c.scratch.join(format!("{name}-{shard}"));
            let child = Command::new(bin(c, name))
                .args([how, &c.seed.to_string(), if fold { "1" } else { "0" }, &from.to_string(), &total.to_string(), &SHARDS.to_string()])
                .arg(&file)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| format!("{name}: {e}"))?;
            kids.push((from, shard, file, Some(child), u64::MAX, 0.0));
        }
        loop {
            let mut alive = false;
            for (from, shard, file, slot, last, cpu_at) in kids.iter_mut() {
                let Some(k) = slot else { continue };
                let cur = || -> Option<u64> {
                    let b = fs::read(format!("{}.cur", file.display())).ok()?;
                    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
                };
                let mut bad = None;
                match k.try_wait() {
                    Ok(None) => {
                        alive = true;
                        let now = cpu_seconds(k.id()).unwrap_or(0.0);
                        match cur() {
                            Some(n) if n == *last && now - *cpu_at > LIMIT as f64 => {
                                let _ = k.kill();
                                let _ = k.wait();
                                bad = Some(n);
                            }
                            Some(n) if n != *last => {
                                *last = n;
                                *cpu_at = now;
                            }
                            _ => {}
                        }
                    }
                    Ok(Some(st)) if st.success() => {
                        let b = fs::read(&file).map_err(|e| e.to_string())?;
                        for (i, r) in b.chunks_exact(RECORD).enumerate() {
                            log.insert(*from + SHARDS * i as u64, Some(r.try_into().unwrap()));
                        }
                        *slot = None;
                    }
                    Ok(Some(st)) => match (st.signal(), cur()) {
                        (Some(s), Some(n)) if s != 9 && s != 15 => bad = Some(n),
                        _ => return Err(format!("{name} ended with {st}").into()),
                    },
                    Err(e) => return Err(format!("{name}: {e}").into()),
                }
                if let Some(n) = bad {
                    // What was logged before is lost with the process: log it again up to the case
                    if how == "back" {
                        return Err(NoLog::Dies(n, format!("build {name} ends abnormally in case {n} when the cases run in reverse order")));
                    }
                    if n > *from {
                        let st = Command::new(bin(c, name))
                            .args([how, &c.seed.to_string(), if fold { "1" } else { "0" }, &from.to_string(), &n.to_string(), &SHARDS.to_string()])
                            .arg(&file)
                            .status()
                            .map_err(|e| e.to_string())?;
                        if !st.success() {
                            if st.signal().is_some_and(|s| s != 9 && s != 15) {
                                return Err(NoLog::Dies(n, format!("build {name} is ended by a signal in case {n} of a run, and earlier when that run is repeated ({st})")));
                            }
                            return Err(format!("{name} ends with {st} before case {n}").into());
                        }
                        let b = fs::read(&file).map_err(|e| e.to_string())?;
                        for (i, r) in b.chunks_exact(RECORD).enumerate() {
                            log.insert(*from + SHARDS * i as u64, Some(r.try_into().unwrap()));
                        }
                    }
                    log.insert(n, None);
                    todo.push((n + SHARDS, *shard));
                    *slot = None;
                }
            }
            if !alive {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        if log.values().filter(|r| r.is_none()).count() > 20 {
            break; // enough
        }
        todo.retain(|(f, _)| *f < total);
    }
    Ok(log)
}

/// Differences of one case between two builds.
fn explain(c: &Ctx, a: &str, b: &str, fold: bool, case: u64) -> Option<Violation> {
    let (x, y) = (show(c, a, fold, case), show(c, b, fold, case));
    if x == y {
        return None;
    }
    let (x, y) = match (x, y) {
        (End::Events(x), End::Events(y)) => (x, y),
        (End::Events(x), y @ End::Died(_)) => {
            return Some(Violation { what: format!("build {b}: the process ends with {y:?}, build {a} answers"), input: x["input"].clone() })
        }
        (x @ End::Died(_), End::Events(y)) => {
            return Some(Violation { what: format!("build {a}: the process ends with {x:?}, build {b} answers"), input: y["input"].clone() })
        }
        _ => return None,
    };
    for (e, f) in x["events"].as_array()?.iter().zip(y["events"].as_array()?) {
        if e != f {
            let s = |v: &Value| v["result"].as_str().unwrap_or("?").to_string();
            return Some(Violation {
                what: format!("{}: build {a} gives\n{}\nbuild {b} gives\n{}", e["call"].as_str().unwrap_or("?"), s(e), s(f)),
                input: x["input"].clone(),
            });
        }
    }
    Some(Violation { what: format!("builds {a} and {b} made different calls"), input: x["input"].clone() })
}

/// Whether the last case of a shard has two results when the shard is run again up to that case.
fn differs_again(c: &Ctx, a: &str, b: &str, fold: bool, case: u64) -> bool {
    let last = |name: &str| -> Option<Option<Vec<u8>>> {
        let file = c.scratch.join(format!("again-{name}"));
        let _ = fs::remove_file(&file);
        let st = Command::new(bin(c, name))
            .args(["log", &c.seed.to_string(), if fold { "1" } else { "0" }, &(case % SHARDS).to_string(), &(case + 1).to_string(), &SHARDS.to_string()])
            .arg(&file)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .ok()?;
        match st.signal() {
            Some(s) if s != 9 && s != 15 => Some(None),
            _ if st.success() => Some(Some(fs::read(&file).ok()?.chunks_exact(RECORD).last()?.to_vec())),
            _ => None,
        }
    };
    matches!((last(a), last(b)), (Some(x), Some(y)) if x != y)
}

/// Compare the event logs of several builds with that of the first.
pub fn compare(c: &Ctx, builds: &[&str], fold: bool, total: u64) -> (Outcome, Totals) {
    let mut tot = totals();
    for b in builds {
        if !bin(c, b).exists() {
            return (Outcome::Inconclusive(format!("build {b} is missing")), tot);
        }
    }
    let base = match record(c, builds[0], fold, total) {
        Ok(l) => l,
        Err(e) => return (e.outcome(), tot),
    };
    for r in base.values().flatten() {
        if r[8] >> 4 > 0 {
            tot.hashes.insert(u64::from_le_bytes(r[..8].try_into().unwrap()));
        }
        tot.add("events in the base log", (r[8] & 15) as u64);
        tot.add("successful calls in the base log", (r[8] >> 4) as u64);
    }
    for b in &builds[1..] {
        let log = match record(c, b, fold, total) {
            Ok(l) => l,
            Err(e) => return (e.outcome(), tot),
        };
        tot.evals += log.len() as u64;
        tot.add(&format!("cases compared, {b} against {}", builds[0]), log.len() as u64);
        let mut differ: Vec<u64> = log.iter().filter(|(k, v)| base.get(k).is_some_and(|w| w != *v)).map(|x| *x.0).collect();
        differ.sort();
        if let Some(n) = differ.first() {
            return match explain(c, builds[0], b, fold, *n) {
                Some(v) => (Outcome::Violated(v, Some(*n)), tot),
                // Not alone: what it does depends on the cases before it, in one of the builds
                None if differs_again(c, builds[0], b, fold, *n) => {
                    let input = match show(c, b, fold, *n) {
                        End::Events(v) => v,
                        e => json!(format!("{e:?}")),
                    };
                    let what = format!("case {n} gives another result in build {b} than in {}, when cases {}, {}, ... run before it", builds[0], n % SHARDS, n % SHARDS + SHARDS);
                    (Outcome::Violated(Violation { what, input }, Some(*n)), tot)
                }
                None => (Outcome::Inconclusive(format!("case {n} differs in the log but not alone, build {b}")), tot),
            };
        }
    }
    samples(c, builds[0], &mut tot);
    (Outcome::Held, tot)
}

/// A few cases of the workload, written out.
fn samples(c: &Ctx, build: &str, tot: &mut Totals) {
    for n in [0, 1, 2, 3] {
        if let End::Events(v) = show(c, build, true, n) {
            tot.samples.push(v);
        }
    }
}

/// Run a program's own monitor over all cases in shards and gather what it reports.
pub fn gather(c: &Ctx, program: &Path, total: u64) -> (Outcome, Totals) {
    let mut tot = totals();
    if !program.exists() {
        return (Outcome::Inconclusive(format!("{} is missing", program.display())), tot);
    }
    let mut kids = vec![];
    for i in 0..SHARDS {
        let file = c.scratch.join(format!("out-{i}"));
        let k = Command::new(program)
            .args(["run", &c.seed.to_string(), &i.to_string(), &total.to_string(), &SHARDS.to_string()])
            .arg(&file)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn();
        match k {
            Ok(k) => kids.push((file, k)),
            Err(e) => return (Outcome::Inconclusive(e.to_string()), tot),
        }
    }
    let mut found: Option<(u64, Violation)> = None;
    let mut unclear = None;
    for (file, mut k) in kids {
        let st = match k.wait() {
            Ok(s) => s,
            Err(e) => return (Outcome::Inconclusive(e.to_string()), tot),
        };
        if !st.success() {
            let case = fs::read(format!("{}.cur", file.display())).ok().and_then(|b| Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?)));
            match (st.signal(), case) {
                (Some(s), Some(n)) if s != 9 && s != 15 => {
                    // Alone as well?
                    let again = Command::new(program).args(["one", &c.seed.to_string(), &n.to_string()]).stdin(Stdio::null()).output();
                    let how = match again {
                        Ok(o) if o.status.signal() == Some(s) => "",
                        _ => " (after the cases before it)",
                    };
                    found = Some((n, Violation { what: format!("the process dies from signal {s} in case {n}{how}"), input: json!({"case": n}) }));
                }
                _ => unclear = Some(format!("{} ended with {st}", program.display())),
            }
            continue;
        }
        let Ok(v) = fs::read(&file).map_err(|_| ()).and_then(|b| serde_json::from_slice::<Value>(&b).map_err(|_| ())) else {
            unclear = Some("unreadable result".to_string());
            continue;
        };
        tot.evals += v["evals"].as_u64().unwrap_or(0);
        for (k, n) in v["counters"].as_object().into_iter().flatten() {
            tot.add(k, n.as_u64().unwrap_or(0));
        }
        tot.hashes.extend(v["hashes"].as_array().into_iter().flatten().filter_map(|h| h.as_u64()));
        tot.samples.extend(v["samples"].as_array().into_iter().flatten().cloned());
        if let Some(w) = v["violation"].as_object() {
            let n = w["case"].as_u64().unwrap_or(0);
            if found.as_ref().is_none_or(|(m, _)| n < *m) {
                found = Some((n, Violation { what: w["what"].as_str().unwrap_or("?").into(), input: w["input"].clone() }));
            }
        }
    }
    tot.samples.truncate(4);
    if let Some((n, v)) = found {
        return (Outcome::Violated(v, Some(n)), tot);
    }
    if let Some(e) = unclear {
        return (Outcome::Inconclusive(e), tot);
    }
    (Outcome::Held, tot)
}

fn output(cmd: &mut Command) -> Result<(std::process::ExitStatus, String, String), String> {
    let o = cmd.stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    Ok((o.status, String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string()))
}

/// Run commands at the same time.
fn together(cmds: Vec<Command>) -> Vec<Result<(std::process::ExitStatus, String, String), String>> {
    std::thread::scope(|s| {
        let hs: Vec<_> = cmds.into_iter().map(|mut k| s.spawn(move || output(&mut k))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("thread".into()))).collect()
    })
}

fn tail(s: &str) -> String {
    let v: Vec<&str> = s.lines().collect();
    v[v.len().saturating_sub(40)..].join("\n")
}

/// C20: the same calls in another order, in several threads at once, in fresh processes.
fn independent(c: &Ctx) -> (Outcome, Totals) {
    let mut tot = totals();
    let total: u64 = if c.tier == Tier::Quick { 240_000 } else { 3_000_000 };
    let logs = record(c, "all", true, total).and_then(|a| record_as(c, "back", "all", true, total).map(|b| (a, b)));
    let (log, back) = match logs {
        Ok(l) => l,
        Err(e) => return (e.outcome(), tot),
    };
    for r in log.values().flatten() {
        if r[8] >> 4 > 0 {
            tot.hashes.insert(u64::from_le_bytes(r[..8].try_into().unwrap()));
        }
    }
    tot.evals += total;
    tot.add("cases in both orders", total);
    let input = |n: u64| match show(c, "all", true, n) {
        End::Events(v) => v,
        e => json!(format!("{e:?}")),
    };
    if let Some((n, _)) = log.iter().find(|(k, v)| back.get(k) != Some(v)) {
        let v = Violation { what: format!("case {n} gives another result when the cases run in reverse order"), input: input(*n) };
        return (Outcome::Violated(v, Some(*n)), tot);
    }
    // Fresh processes
    let fresh: Vec<u64> = (0..if c.tier == Tier::Quick { 400 } else { 4000 }).map(|i| i * 13 % total).collect();
    for part in fresh.chunks(8) {
        let ends: Vec<(u64, End)> = std::thread::scope(|s| {
            let hs: Vec<_> = part.iter().map(|n| (*n, s.spawn(move || show(c, "all", true, *n)))).collect();
            hs.into_iter().map(|(n, h)| (n, h.join().unwrap_or(End::Other("thread".into())))).collect()
        });
        for (n, e) in ends {
            let End::Events(v) = e else { continue };
            tot.evals += 1;
            tot.add("cases in a process of their own", 1);
            let d = log.get(&n).copied().flatten().map(|r| u64::from_le_bytes(r[..8].try_into().unwrap()));
            if d.is_some() && d != v["digest"].as_u64() {
                return (Outcome::Violated(Violation { what: format!("case {n} gives another result in a process of its own"), input: v }, Some(n)), tot);
            }
        }
    }
    // Threads, natively and under the race detector
    let (span, tspan) = if c.tier == Tier::Quick { (5_000u64, 1_500u64) } else { (60_000, 20_000) };
    for (name, span) in [("all", span), ("tsan", tspan)] {
        let cmds = (0..8u64)
            .map(|i| {
                let mut k = Command::new(bin(c, name));
                k.args(["threads", &c.seed.to_string(), "1", &(i * span).to_string(), &((i + 1) * span).to_string()]);
                k.env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66");
                k
            })
            .collect();
        for r in together(cmds) {
            let (st, out, err) = match r {
                Ok(r) => r,
                Err(e) => return (Outcome::Inconclusive(e), tot),
            };
            if err.contains("ThreadSanitizer: ") && !err.contains("FATAL: ThreadSanitizer") {
                let v = Violation { what: format!("data race:\n{}", tail(&err)), input: json!({"cases": span}) };
                return (Outcome::Violated(v, None), tot);
            }
            if let Some(n) = out.trim().strip_prefix("DIFFERS ") {
                let n = n.parse().unwrap_or(0);
                let v = Violation { what: format!("case {n} gives another result while other threads use the library"), input: input(n) };
                return (Outcome::Violated(v, Some(n)), tot);
            }
            if !st.success() {
                if st.signal().is_some_and(|s| s != 9 && s != 15) && name == "all" {
                    let v = Violation { what: format!("the process dies ({st}) when several threads use the library"), input: json!({"cases": span}) };
                    return (Outcome::Violated(v, None), tot);
                }
                tot.notes.push(format!("{name}: {st}: {}", tail(&err)));
                return (Outcome::Inconclusive(format!("{name} ended with {st}: {}", tail(&err))), tot);
            }
            tot.evals += 4 * span;
            tot.add(if name == "all" { "calls in threads" } else { "calls in threads under ThreadSanitizer" }, 4 * span);
        }
    }
    samples(c, "all", &mut tot);
    (Outcome::Held, tot)
}

/// C23: AddressSanitizer and Miri, on the workload and with the same results.
fn memory(c: &Ctx) -> (Outcome, Totals) {
    let mut tot = totals();
    let total: u64 = if c.tier == Tier::Quick { 40_000 } else { 800_000 };
    // Not instrumented, same compiler
    let log = match record(c, "nightly", true, total) {
        Ok(l) => l,
        Err(e) => return (e.outcome(), tot),
    };
    let compare = |got: &[u8], from: u64, step: u64| -> Option<u64> {
        got.chunks_exact(RECORD).enumerate().map(|(i, r)| (from + step * i as u64, r)).find(|(n, r)| log.get(n).copied().flatten().is_some_and(|w| w != **r)).map(|x| x.0)
    };
    for (name, counter) in [("asan", "cases under AddressSanitizer"), ("msan", "cases under MemorySanitizer")] {
        let cmds = (0..SHARDS)
            .map(|i| {
                let mut k = Command::new(bin(c, name));
                k.args(["log", &c.seed.to_string(), "1", &i.to_string(), &total.to_string(), &SHARDS.to_string()]).arg(c.scratch.join(format!("{name}-{i}")));
                k.env("ASAN_OPTIONS", "detect_leaks=0 abort_on_error=0 exitcode=67");
                k.env("TOON_CHECK_UTF8", "1");
                k.env("MSAN_OPTIONS", "abort_on_error=0 exitcode=67");
                k
            })
            .collect();
        for (i, r) in together(cmds).into_iter().enumerate() {
            let (st, _, err) = match r {
                Ok(r) => r,
                Err(e) => return (Outcome::Inconclusive(e), tot),
            };
            let report = ["ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "unsafe precondition(s) violated", "makes a string that is not UTF-8"].iter().any(|r| err.contains(r));
            if report || st.signal().is_some_and(|s| s != 9 && s != 15) {
                let v = Violation { what: format!("memory error ({st}):\n{}", tail(&err)), input: json!({"program": name, "shard": i}) };
                return (Outcome::Violated(v, None), tot);
            }
            if !st.success() {
                return (Outcome::Inconclusive(format!("the instrumented program ended with {st}: {}", tail(&err))), tot);
            }
            let got = fs::read(c.scratch.join(format!("{name}-{i}"))).unwrap_or_default();
            let n = (got.len() / RECORD) as u64;
            tot.evals += n;
            tot.add(counter, n);
            for r in got.chunks_exact(RECORD) {
                tot.hashes.insert(u64::from_le_bytes(r[..8].try_into().unwrap()));
            }
            if let Some(n) = compare(&got, i as u64, SHARDS) {
                let v = Violation { what: format!("case {n} gives another result in the instrumented build ({name})"), input: json!({"case": n}) };
                return (Outcome::Violated(v, Some(n)), tot);
            }
        }
    }
    // Live memory before and after
    let cmds = (0..SHARDS)
        .map(|i| {
            let mut k = Command::new(bin(c, "nightly"));
            k.args(["leaks", &c.seed.to_string(), "1", &i.to_string(), &total.to_string(), &SHARDS.to_string()]);
            k
        })
        .collect();
    for r in together(cmds) {
        let (st, out, err) = match r {
            Ok(r) => r,
            Err(e) => return (Outcome::Inconclusive(e), tot),
        };
        if let Some(l) = out.lines().find(|l| l.starts_with("LEAK ")) {
            let n = l.split(' ').nth(1).and_then(|n| n.parse().ok());
            let v = Violation { what: format!("memory is leaked each time a case runs: {l}"), input: json!({"case": n}) };
            return (Outcome::Violated(v, n), tot);
        }
        match out.strip_prefix("CLEAN ").and_then(|n| n.trim().parse::<u64>().ok()) {
            Some(n) if st.success() => tot.add("cases checked for leaks", n),
            _ => return (Outcome::Inconclusive(format!("the leak monitor ended with {st}: {}", tail(&err))), tot),
        }
    }
    // Miri: each shard a handful of consecutive cases
    let per: u64 = if c.tier == Tier::Quick { 12 } else { 200 };
    let cmds = (0..SHARDS)
        .map(|i| {
            let from = 8 * c.seed % 1000 + i * per;
            let mut k = Command::new("cargo");
            k.current_dir(c.verif.join("variant"))
                .args(["miri", "run", "--offline", "--locked", "--quiet", "--features", "json,perf_memchr,perf_smallvec,perf_lexical", "--"])
                .args(["log", &c.seed.to_string(), "1", &from.to_string(), &(from + per).to_string(), "1"])
                .arg(c.scratch.join(format!("miri-{i}")))
                .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
                .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-deterministic-floats")
                .env("TOON_CHECK_UTF8", "1")
                .env("CARGO_TARGET_DIR", c.verif.join("target/miri-target"));
            k
        })
        .collect();
    for (i, r) in together(cmds).into_iter().enumerate() {
        let (st, _, err) = match r {
            Ok(r) => r,
            Err(e) => return (Outcome::Inconclusive(e), tot),
        };
        if err.contains("makes a string that is not UTF-8") || err.contains("Undefined Behavior") || err.contains("error: memory leaked") {
            let v = Violation { what: format!("undefined behaviour:\n{}", err.lines().skip_while(|l| !l.starts_with("error")).take(40).collect::<Vec<_>>().join("\n")), input: json!({"shard": i}) };
            return (Outcome::Violated(v, None), tot);
        }
        if !st.success() {
            return (Outcome::Inconclusive(format!("Miri ended with {st}: {}", tail(&err))), tot);
        }
        let got = fs::read(c.scratch.join(format!("miri-{i}"))).unwrap_or_default();
        tot.evals += (got.len() / RECORD) as u64;
        tot.add("cases interpreted by Miri", (got.len() / RECORD) as u64);
        let from = 8 * c.seed % 1000 + i as u64 * per;
        if let Some(n) = compare(&got, from, 1) {
            let v = Violation { what: format!("case {n} gives another result under Miri"), input: json!({"case": n}) };
            return (Outcome::Violated(v, Some(n)), tot);
        }
    }
    samples(c, "nightly", &mut tot);
    (Outcome::Held, tot)
}

pub struct External {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&Ctx) -> (Outcome, Totals),
}

pub static ALL: &[External] = &[
    External {
        id: "C14",
        rule: "a fixed workload (serde values, documents, free and edited texts, typed decoding; a third with folding, a quarter with expansion) run by five builds with perf_memchr, perf_smallvec, perf_lexical, none and all of them; one digest of all results per case, logs compared offline. Non-trivial: at least one call succeeded; distinct by digest",
        run: |c| compare(c, &["base", "memchr", "smallvec", "lexical", "all"], true, if c.tier == Tier::Quick { 160_000 } else { 3_000_000 }),
    },
    External {
        id: "C16",
        rule: "the same workload without folding, run by builds with the json feature, with std and serde only, and without the standard library (alloc and serde); logs compared offline. Non-trivial: at least one call succeeded; distinct by digest",
        run: |c| compare(c, &["base", "nojson", "alloc"], false, if c.tier == Tier::Quick { 240_000 } else { 4_000_000 }),
    },
    External {
        id: "C18",
        rule: "toon-cli processes given valid, edited, loosely written and non-UTF-8 JSON and TOON through standard input (in pieces) or a file, with every combination of options, some with a full output device; output, exit status and messages against the library called in this process. Non-trivial: the library converts the input; distinct by input",
        run: crate::cli::c18,
    },
    External {
        id: "C19",
        rule: "the functions the WebAssembly bindings export, called natively with valid, edited and pretty-printed JSON and TOON texts under all flags, and with inputs from one byte below to twice the size limit in one- and three-byte characters; results against the library. Non-trivial: the text is converted; distinct by result",
        run: |c| gather(c, &c.verif.join("target/release/toonwasmmon"), if c.tier == Tier::Quick { 320_000 } else { 6_000_000 }),
    },
    External {
        id: "C20",
        rule: "the feature workload (all features on) run forwards, backwards, case by case in fresh processes, and by four threads at once over overlapping cases, natively and under ThreadSanitizer with an instrumented standard library: every case gives the same results each time. Non-trivial: at least one call succeeded; distinct by digest",
        run: independent,
    },
    External {
        id: "C23",
        rule: "the feature workload (all features on) under AddressSanitizer, under MemorySanitizer with an instrumented standard library, for some cases interpreted by Miri, and counting live memory over repeated runs; every string validated as UTF-8; no report, no growth, and the same results as natively. Non-trivial: all; distinct by digest",
        run: memory,
    },
];

pub fn find(id: &str) -> Option<&'static External> {
    ALL.iter().find(|e| e.id == id)
}

/// Run an external check and write its evidence; exit code.
pub fn check(e: &External, seed: u64, tier: Tier, verif: &Path) -> i32 {
    let start = Instant::now();
    let scratch = std::env::temp_dir().join(format!("toonmon-{}-{}", e.id, std::process::id()));
    let _ = fs::remove_dir_all(&scratch);
    fs::create_dir_all(&scratch).expect("scratch directory");
    let c = Ctx { seed, tier, verif: verif.to_path_buf(), scratch: scratch.clone(), start };
    let (outcome, tot) = (e.run)(&c);
    let _ = fs::remove_dir_all(&scratch);
    let outcome = match outcome {
        Outcome::Held if tot.evals == 0 || tot.hashes.is_empty() => Outcome::Inconclusive("nothing was observed".into()),
        o => o,
    };
    let wall = start.elapsed().as_secs_f64();
    crate::orch::finish(e.id, e.rule, seed, tier, verif, outcome, &tot, wall, json!(null))
}
