//! One build of the library under one set of cargo features. Runs a fixed workload and records an
//! event log: what every call gave. Logs of differently built binaries are compared offline.
//!
//!     toonvariant log SEED FOLD FROM TO STEP FILE     one 64-bit digest per case
//!     toonvariant back ...                             the same from the last case to the first
//!     toonvariant show SEED FOLD CASE                 input and events of one case, as JSON
//!     toonvariant leaks SEED FOLD FROM TO STEP         every case three times, comparing live memory
//!     toonvariant threads SEED FOLD FROM TO           several threads at once against one alone
#![allow(dead_code)]

#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/docgen.rs"]
mod docgen;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/sval.rs"]
mod sval;

use crate::core::*;
use rng::{fnv, Rng};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicI64, Ordering};

/// The system allocator, counting live bytes (what is freed was allocated on any thread).
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

struct Event {
    call: String,
    result: String,
}

fn text(r: Result<String, Fail>) -> String {
    match r {
        Ok(t) => format!("ok {t}"),
        Err(e) => e.to_string(),
    }
}

/// A string that is the text of a value: made by a call from within the call that writes it, or before.
struct Quoted<'a>(&'a sval::S, &'a Options, bool, String);

impl<'a> Quoted<'a> {
    fn new(s: &'a sval::S, o: &'a Options, nested: bool) -> Self {
        Quoted(s, o, nested, if nested { String::new() } else { text(encode(s, o)) })
    }
}

impl serde::Serialize for Quoted<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.2 {
            s.serialize_str(&text(encode(self.0, self.1)))
        } else {
            s.serialize_str(&self.3)
        }
    }
}

/// A value whose serialization panics.
struct Panics;

impl serde::Serialize for Panics {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        panic!("by design")
    }
}

/// Text read as a document within the call that reads the text around it.
#[derive(serde::Deserialize)]
#[serde(from = "String")]
struct Document(String);

thread_local! {
    static READ_AS: std::cell::RefCell<Options> = std::cell::RefCell::new(Options::default());
}

impl From<String> for Document {
    fn from(s: String) -> Self {
        let o = READ_AS.with(|o| o.borrow().clone());
        Document(text(decode_value(&s, &o).map(|v| v.to_string())))
    }
}

#[cfg(not(feature = "alloc"))]
mod streams {
    use std::io;

    /// Accepts so many bytes, then fails.
    pub struct Narrow(pub Vec<u8>, pub usize);

    impl io::Write for Narrow {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            let n = b.len().min(self.1 - self.0.len()).min(7);
            if n == 0 && !b.is_empty() {
                return Err(io::ErrorKind::StorageFull.into());
            }
            self.0.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }

    /// Delivers so many bytes, then fails.
    pub struct Broken<'a>(pub &'a [u8], pub usize);

    impl io::Read for Broken<'_> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.1 == 0 {
                return Err(io::ErrorKind::TimedOut.into());
            }
            let n = self.0.len().min(b.len()).min(self.1).min(5);
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            self.1 -= n;
            Ok(n)
        }
    }
}

#[cfg(feature = "json")]
fn stream_calls(r: &mut Rng, s: &sval::S, o: &Options, t: &str, note: &mut dyn FnMut(&str, String)) {
    use streams::*;
    for k in 0..3 {
        let room = if r.chance(1, 2) { usize::MAX } else { r.below(t.len() + 1) };
        let mut w = Narrow(vec![], room);
        let res = match k {
            0 => guarded(|| toon_rs::encode_to_writer(&mut w, s, o)),
            1 => guarded(|| toon_rs::ser::to_writer(&mut w, s, o)),
            _ => guarded(|| toon_rs::ser::to_writer_streaming(&mut w, s, o)),
        };
        note("write", text(res.map(|_| String::new())) + &String::from_utf8_lossy(&w.0));
    }
    let end = if r.chance(1, 2) { usize::MAX } else { r.below(t.len() + 1) };
    let mut src = Broken(t.as_bytes(), end);
    note("read", text(guarded(|| toon_rs::decode_from_reader::<_, Value>(&mut src, o)).map(|v| v.to_string())));
}

#[cfg(not(feature = "json"))]
fn stream_calls(_: &mut Rng, _: &sval::S, _: &Options, _: &str, _: &mut dyn FnMut(&str, String)) {}

/// The text through a writer and back through a reader, where the build has them.
#[cfg(not(feature = "alloc"))]
fn through_streams(s: &sval::S, o: &Options) -> (Result<String, Fail>, Result<Value, Fail>) {
    let mut w = streams::Narrow(vec![], usize::MAX);
    let t = guarded(|| toon_rs::encode_to_writer(&mut w, s, o)).map(|()| String::from_utf8_lossy(&w.0).into_owned());
    let back = match &t {
        Ok(t) => guarded(|| toon_rs::decode_from_reader(streams::Broken(t.as_bytes(), usize::MAX), o)),
        Err(e) => Err(e.clone()),
    };
    (t, back)
}

#[cfg(feature = "alloc")]
fn through_streams(s: &sval::S, o: &Options) -> (Result<String, Fail>, Result<Value, Fail>) {
    let t = encode(s, o);
    let back = match &t {
        Ok(t) => decode_value(t, o),
        Err(e) => Err(e.clone()),
    };
    (t, back)
}

/// A document; some of the later cases (those that Miri never gets to) are large.
fn document(r: &mut Rng, p: &gen::Profile, no: u64) -> Value {
    let mut v = gen::document(r, p);
    if no >= 10_000 && r.chance(1, 800) {
        gen::enlarge(r, &mut v);
    }
    v
}

/// Input and events of a case. `nested`: where one call can be made from within another, it is.
fn case(seed: u64, fold: bool, no: u64, nested: bool) -> (Value, Vec<Event>) {
    let r = &mut Rng::for_case(seed, "variants", no);
    let mut p = gen::profile(r);
    p.max_depth = p.max_depth.max(2);
    let mut o = plain_options(r);
    if fold && r.chance(1, 3) {
        o.key_folding = KeyFolding::Safe;
        o.flatten_depth = *r.pick(&[None, Some(2), Some(3)]);
    }
    if r.chance(1, 4) {
        o.expand_paths = ExpandPaths::Safe;
    }
    let mut ev: Vec<Event> = vec![];
    let mut note = |call: &str, result: String| {
        if std::str::from_utf8(result.as_bytes()).is_err() {
            // Only its own check (C23) ends here; to the others it is a result
            if std::env::var_os("TOON_CHECK_UTF8").is_none() {
                return ev.push(Event { call: call.into(), result: format!("not UTF-8 {:?}", result.as_bytes()) });
            }
            eprintln!("ERROR: {call} of case {no} makes a string that is not UTF-8: {:?}", result.as_bytes());
            std::process::exit(66);
        }
        ev.push(Event { call: call.into(), result })
    };
    let both = |text: &str, note: &mut dyn FnMut(&str, String)| {
        // Exactly as long as the text, so that reading past its end leaves the allocation
        let text: Box<str> = text.into();
        let text = &*text;
        for strict in [true, false] {
            let o = Options { strict, ..o.clone() };
            note(if strict { "decode strict" } else { "decode lenient" }, self::text(decode_value(text, &o).map(|v| v.to_string())));
        }
    };
    let input;
    match no % 5 {
        0 => {
            let s = sval::value(r, &p, 0);
            let s = if r.chance(1, 8) { sval::poison(r, &s) } else { s };
            input = json!({"value": format!("{s:?}"), "options": opts_json(&o)});
            let t = encode(&s, &o);
            if let Ok(t) = &t {
                both(t, &mut note);
            }
            // The wording of a refusal is the value's own
            note("encode", text(t));
            note("stream", text(guarded(|| toon_rs::ser::to_string_streaming(&s, &o))));
        }
        1 => {
            let v = document(r, &p, no);
            input = json!({"value": v, "options": opts_json(&o)});
            let t = encode(&v, &o);
            if let Ok(t) = &t {
                both(t, &mut note);
            }
            note("encode", text(t));
        }
        2 => {
            let strict = r.chance(1, 2);
            let v = document(r, &p, no);
            let step = r.range(1, 4);
            let freedom = *r.pick(&[10, 40, 90]);
            let legacy = r.chance(1, 3);
            let d = docgen::write(r, &v, docgen::Style { strict, step, freedom, legacy, escapes: r_escapes(no), bare: no % 5 == 0 });
            let mut t = d.text();
            if r.chance(1, 2) {
                t = gen::edit(r, &t);
            }
            input = json!({"text": t, "options": opts_json(&Options { indent: step, ..o.clone() })});
            let t: Box<str> = t.into();
            for strict in [true, false] {
                let o = Options { strict, indent: step, ..o.clone() };
                note(if strict { "decode strict" } else { "decode lenient" }, text(decode_value(&t, &o).map(|v| v.to_string())));
            }
        }
        3 => {
            // Streams, calls within calls and calls that end badly
            p.max_depth = 2;
            let s = sval::value(r, &p, 0);
            input = json!({"value": format!("{s:?}"), "options": opts_json(&o)});
            if !cfg!(feature = "de_direct") {
                let q = Quoted::new(&s, &o, nested);
                let mut m = std::collections::BTreeMap::new();
                m.insert("a", &q);
                m.insert("b", &q);
                let t = encode(&(vec![&q], m, &s, &q), &o);
                note("nested encode", text(t));
                let doc = encode(&(text(encode(&s, &o)), "a: 1"), &o);
                if let Ok(doc) = doc {
                    READ_AS.with(|c| *c.borrow_mut() = o.clone());
                    let both = if nested {
                        decode::<(Document, Document)>(&doc, &o).map(|(a, b)| (a.0, b.0))
                    } else {
                        decode::<(String, String)>(&doc, &o).map(|(a, b)| (Document::from(a).0, Document::from(b).0))
                    };
                    note("nested decode", text(both.map(|(a, b)| format!("{a} {b}"))));
                }
            }
            let (t, back) = through_streams(&s, &o);
            note("through a writer", text(t));
            note("through a reader", text(back.map(|v| v.to_string())));
            if fold {
                let t = text(encode(&s, &o));
                stream_calls(r, &s, &o, t.trim_start_matches("ok "), &mut note);
                if r.chance(1, 8) {
                    note("panic", text(encode(&vec![(&s, None), (&s, Some(Panics))], &o)));
                }
                note("encode after", t);
            }
        }
        _ => {
            let t = sval::ty(r, 0);
            let v = sval::fitting(r, &t, &p, 0);
            let mut doc = model::encode(&v, &o);
            if r.chance(1, 6) {
                doc = gen::edit(r, &doc);
            }
            input = json!({"type": format!("{t:?}"), "text": doc, "options": opts_json(&o)});
            if !cfg!(feature = "de_direct") {
                note("decode as type", text(sval::with_type(&t, || decode::<sval::Dyn>(&doc, &o)).map(|d| d.0)));
            }
            both(&doc, &mut note);
        }
    }
    (input, ev)
}

fn r_escapes(no: u64) -> bool {
    no % 3 == 0
}

fn digest(ev: &[Event]) -> u64 {
    let mut b = Vec::new();
    for e in ev {
        b.extend_from_slice(e.call.as_bytes());
        b.push(0);
        b.extend_from_slice(e.result.as_bytes());
        b.push(1);
    }
    fnv(&b)
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let (seed, fold) = (num(2), num(3) == 1);
    match a.get(1).map(|s| s.as_str()) {
        // `back`: the same log, made from the last case to the first
        Some(how @ ("log" | "back")) => {
            let (from, to, step) = (num(4), num(5), num(6).max(1));
            let f = std::fs::File::create(&a[7]).expect("log file");
            let cur = std::fs::File::create(format!("{}.cur", a[7])).expect("progress file");
            let n = to.saturating_sub(from).div_ceil(step);
            let mut buf = vec![0u8; 9 * n as usize];
            for k in 0..n {
                let k = if how == "log" { k } else { n - 1 - k };
                let no = from + k * step;
                let _ = cur.write_all_at(&no.to_le_bytes(), 0);
                let (_, ev) = case(seed, fold, no, false);
                let at = 9 * k as usize;
                buf[at..at + 8].copy_from_slice(&digest(&ev).to_le_bytes());
                buf[at + 8] = (ev.iter().filter(|e| e.result.starts_with("ok ")).count() as u8) << 4 | ev.len() as u8;
            }
            f.write_all_at(&buf, 0).expect("log file");
        }
        Some("leaks") => {
            let (from, to, step) = (num(4), num(5), num(6).max(1));
            let live = || LIVE.load(Ordering::Relaxed);
            let mut n = 0;
            for no in (from..to).step_by(step as usize) {
                // The first run may fill caches
                drop(case(seed, fold, no, false));
                let before = live();
                drop(case(seed, fold, no, false));
                let middle = live();
                drop(case(seed, fold, no, false));
                if before < middle && middle < live() {
                    println!("LEAK {no} {} bytes", live() - middle);
                    std::process::exit(1);
                }
                n += 1;
            }
            println!("CLEAN {n}");
        }
        Some("show") => {
            let (input, ev) = case(seed, fold, num(4), false);
            let d = digest(&ev);
            let ev: Vec<Value> = ev.iter().map(|e| json!({"call": e.call, "result": e.result})).collect();
            println!("{}", json!({"input": input, "events": ev, "digest": d}));
        }
        Some("threads") => {
            let (from, to) = (num(4), num(5));
            let alone: Vec<u64> = (from..to).map(|n| digest(&case(seed, fold, n, false).1)).collect();
            std::thread::scope(|s| {
                for t in 0..4u64 {
                    let alone = &alone;
                    s.spawn(move || {
                        for k in 0..(to - from) {
                            let n = from + (k * 7 + t * 3) % (to - from);
                            let d = digest(&case(seed, fold, n, true).1);
                            if d != alone[(n - from) as usize] {
                                println!("DIFFERS {n}");
                                std::process::exit(1);
                            }
                        }
                    });
                }
            });
            println!("SAME {}", to - from);
        }
        _ => std::process::exit(64),
    }
}
