//! C18: the command line program against the library.

use crate::core::*;
use crate::external::{totals, Ctx};
use crate::orch::{Outcome, Totals};
use crate::rng::{fnv, Rng};
use crate::{docgen, gen};
use serde_json::{json, Value};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// JSON text with free spacing, escapes and number spellings.
fn json_text(r: &mut Rng, v: &Value, loose: bool) -> String {
    let ws = |r: &mut Rng| -> String {
        if loose {
            (0..r.below(3)).map(|_| *r.pick(&[" ", "\n", "\t", "\r\n"])).collect()
        } else {
            String::new()
        }
    };
    let string = |r: &mut Rng, s: &str| -> String {
        if !loose || r.chance(2, 3) {
            return Value::String(s.into()).to_string();
        }
        let mut out = String::from("\"");
        let mut b = [0u16; 2];
        for ch in s.chars() {
            if ch < ' ' || ch == '"' || ch == '\\' || r.chance(1, 3) {
                for u in ch.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{u:04x}"));
                }
            } else {
                out.push(ch);
            }
        }
        out.push('"');
        out
    };
    match v {
        Value::Array(a) => {
            let parts: Vec<String> = a.iter().map(|x| format!("{}{}{}", ws(r), json_text(r, x, loose), ws(r))).collect();
            format!("[{}{}]", parts.join(","), ws(r))
        }
        Value::Object(m) => {
            let parts: Vec<String> =
                m.iter().map(|(k, x)| format!("{}{}{}:{}{}", ws(r), string(r, k), ws(r), ws(r), json_text(r, x, loose))).collect();
            format!("{{{}{}}}", parts.join(","), ws(r))
        }
        Value::String(s) => string(r, s),
        p => p.to_string(),
    }
}

struct Job {
    args: Vec<String>,
    input: Vec<u8>,
    as_file: bool,
    want: Result<String, ()>,
    kind: &'static str,
    full: bool,
}

fn job(r: &mut Rng) -> Job {
    let p = gen::profile(r);
    let mut args: Vec<String> = vec![];
    let decode_mode = r.chance(1, 2);
    let delim = *r.pick(&DELIMS);
    if delim != Delimiter::Comma || r.chance(1, 3) {
        let n = format!("{delim:?}").to_lowercase();
        if r.chance(1, 2) {
            args.push(format!("--delimiter={n}"));
        } else {
            args.push("--delimiter".into());
            args.push(n);
        }
    }
    if r.chance(1, 4) {
        args.push("--strict".into());
    }
    let pretty = r.chance(1, 3);
    if pretty {
        args.push("--pretty".into());
    }
    if decode_mode {
        args.push(if r.chance(1, 2) { "-d".into() } else { "--decode".into() });
    }
    let o = Options { delimiter: delim, strict: true, indent: 2, ..Options::default() };
    let mut v = if r.chance(1, 40) { gen::wide(r) } else { gen::document(r, &p) };
    let large = r.chance(1, 40);
    if large {
        gen::enlarge(r, &mut v);
    }
    let mut input;
    let kind;
    if decode_mode {
        input = match r.below(4) {
            0 => encode(&v, &o).unwrap_or_default(),
            1 => {
                let strict = r.chance(2, 3);
                let freedom = *r.pick(&[10, 40, 90]);
                docgen::write(r, &v, docgen::Style { strict, step: 2, freedom, legacy: false, escapes: true, bare: false }).text()
            }
            _ => {
                let t = encode(&v, &o).unwrap_or_default();
                gen::edit(r, &t)
            }
        };
        if r.chance(1, 3) {
            input.push('\n');
        }
        kind = "decode";
    } else {
        let loose = r.chance(1, 2);
        input = json_text(r, &v, loose);
        if r.chance(1, 6) {
            input = gen::edit(r, &input);
        }
        kind = "encode";
    }
    if r.chance(1, 12) {
        gen::odd_ends(r, &mut input);
    }
    let mut input = input.into_bytes();
    if r.chance(1, 25) {
        let i = r.below(input.len() + 1);
        input.insert(i, 0xff);
    }
    let want = match std::str::from_utf8(&input) {
        Err(_) => Err(()),
        Ok(t) if decode_mode => decode_value(t, &o)
            .map_err(|_| ())
            .and_then(|v| if pretty { serde_json::to_string_pretty(&v) } else { serde_json::to_string(&v) }.map_err(|_| ())),
        Ok(t) => serde_json::from_str::<Value>(t).map_err(|_| ()).and_then(|v| encode(&v, &o).map_err(|_| ())),
    };
    Job { args, input, as_file: r.chance(1, 3), want, kind, full: r.chance(1, 40) }
}

fn run(c: &Ctx, bin: &std::path::Path, no: u64, seen: &Mutex<Totals>) -> Result<Verdict, String> {
    let mut r = Rng::for_case(c.seed, "C18", no);
    let j = job(&mut r);
    // A program that never ends is ended by its limit of CPU time
    let mut cmd = Command::new("/bin/sh");
    cmd.args(["-c", "ulimit -c 0; ulimit -S -t 60; exec \"$0\" \"$@\""]).arg(bin);
    cmd.args(&j.args).env_clear().current_dir(&c.scratch).stderr(Stdio::piped());
    let file = c.scratch.join(format!("in {no}.x"));
    let mut args = j.args.clone();
    if j.as_file {
        std::fs::write(&file, &j.input).map_err(|e| e.to_string())?;
        // Before or after the options
        cmd.arg(format!("in {no}.x")).stdin(Stdio::null());
        args.push("FILE".into());
    } else {
        cmd.stdin(Stdio::piped());
    }
    // A device without room, or a pipe that nobody reads
    // One process starts at a time: while another is being started it holds copies of all our
    // descriptors, the far end of a pipe that nobody is to read among them.
    static STARTING: Mutex<()> = Mutex::new(());
    let starting = STARTING.lock().unwrap_or_else(|e| e.into_inner());
    let is_full = match (j.full, no % 2) {
        (false, _) => None,
        (true, 0) => std::fs::OpenOptions::new().write(true).open("/dev/full").ok().map(Stdio::from),
        (true, _) => std::io::pipe().ok().map(|(_, w)| Stdio::from(w)),
    }
    .map(|f| {
        cmd.stdout(f);
    })
    .is_some();
    if !is_full {
        cmd.stdout(Stdio::piped());
    }
    let mut kid = cmd.spawn().map_err(|e| e.to_string())?;
    drop(cmd);
    drop(starting);
    let feeder = kid.stdin.take().map(|mut s| {
        let data = j.input.clone();
        let step = r.range(1, 5000);
        std::thread::spawn(move || {
            for part in data.chunks(step.max(data.len() / 50 + 1)) {
                if s.write_all(part).is_err() {
                    break;
                }
            }
        })
    });
    let out = kid.wait_with_output().map_err(|e| e.to_string())?;
    if let Some(f) = feeder {
        let _ = f.join();
    }
    if j.as_file {
        let _ = std::fs::remove_file(&file);
    }
    let stdout = String::from_utf8_lossy(&out.stdout).to_string();
    let stderr = String::from_utf8_lossy(&out.stderr).to_string();
    let ok = out.status.success();
    {
        let mut t = seen.lock().unwrap();
        t.evals += 1;
        t.add(if j.as_file { "from a file" } else { "from standard input" }, 1);
        let k = match (&j.want, is_full) {
            (_, true) => "output device full or pipe closed",
            (Ok(_), _) => "converted",
            (Err(_), _) => "refused",
        };
        t.add(&format!("{} {k}", j.kind), 1);
        if j.want.is_ok() {
            t.hashes.insert(fnv(&j.input));
        }
        if t.samples.len() < 4 && stdout.contains('\n') && stdout.len() < 600 && no % 5 == 0 {
            t.samples.push(json!({"args": args, "input": String::from_utf8_lossy(&j.input), "stdout": stdout, "code": out.status.code()}));
        }
    }
    let input = json!({"args": args, "input": String::from_utf8_lossy(&j.input), "stdout": stdout, "stderr": stderr, "status": out.status.to_string()});
    if is_full {
        if ok {
            return Ok(violation("success is reported though the output could not be written", input));
        }
        if stderr.trim().is_empty() {
            return Ok(violation("the program does not say that it could not write its output", input));
        }
        return Ok(Ok(()));
    }
    if stderr.contains("panicked at") || out.status.code().is_none() {
        return Ok(violation("the program panics, or is ended by a signal", input));
    }
    Ok(match &j.want {
        Ok(t) => {
            if !ok {
                violation("the program fails where the library succeeds", input)
            } else if stdout != format!("{t}\n") {
                violation(format!("the program prints\n{stdout}\ninstead of\n{t}"), input)
            } else if !stderr.is_empty() {
                violation("the program succeeds and writes to standard error", input)
            } else {
                Ok(())
            }
        }
        Err(()) => {
            if ok {
                violation("the program reports success where the library fails", input)
            } else if !stdout.is_empty() {
                violation("the program fails but prints a result", input)
            } else if stderr.trim().is_empty() {
                violation("the program fails without a message", input)
            } else {
                Ok(())
            }
        }
    })
}

pub fn c18(c: &Ctx) -> (Outcome, Totals) {
    let bin = c.verif.join("target/toon-cli");
    if !bin.exists() {
        return (Outcome::Inconclusive("toon-cli is not built".into()), totals());
    }
    crate::core::install_panic_hook();
    let total = if c.tier == Tier::Quick { 12_000 } else { 200_000 };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let seen = Mutex::new(totals());
    let found: Mutex<Option<(u64, Violation)>> = Mutex::new(None);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let n = next.fetch_add(1, Ordering::Relaxed);
                if n >= total || stop.load(Ordering::Relaxed) {
                    return;
                }
                match run(c, &bin, n, &seen) {
                    Ok(Ok(())) => {}
                    Ok(Err(v)) => {
                        // The program decides by its input alone, so the witness has to show again
                        let again = (0..3).any(|_| matches!(run(c, &bin, n, &Mutex::new(totals())), Ok(Err(_))));
                        if !again {
                            seen.lock().unwrap().add("seen once and not again in three runs", 1);
                            continue;
                        }
                        stop.store(true, Ordering::Relaxed);
                        let mut f = found.lock().unwrap();
                        if f.as_ref().is_none_or(|(m, _)| n < *m) {
                            *f = Some((n, v));
                        }
                    }
                    Err(e) => *broken.lock().unwrap() = Some(e),
                }
            });
        }
    });
    let mut tot = seen.into_inner().unwrap();
    // A file that is not there, an option that does not exist
    for args in [vec!["no such file"], vec!["-d", "no such file"], vec!["--no-such-option"], vec!["--delimiter", "semicolon"], vec!["."]] {
        let out = match Command::new(&bin).args(&args).env_clear().current_dir(&c.scratch).stdin(Stdio::null()).output() {
            Ok(o) => o,
            Err(e) => return (Outcome::Inconclusive(e.to_string()), tot),
        };
        tot.evals += 1;
        if out.status.success() || !out.stdout.is_empty() || out.stderr.is_empty() || out.status.code().is_none() {
            let v = Violation { what: format!("toon-cli {args:?} ends with {}", out.status), input: json!({"args": args}) };
            return (Outcome::Violated(v, None), tot);
        }
    }
    if let Some((n, v)) = found.into_inner().unwrap() {
        return (Outcome::Violated(v, Some(n)), tot);
    }
    if let Some(e) = broken.into_inner().unwrap() {
        return (Outcome::Inconclusive(e), tot);
    }
    (Outcome::Held, tot)
}
