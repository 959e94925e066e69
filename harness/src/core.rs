//! Shared vocabulary of the monitors: observations, verdicts, and the wrappers through which
//! every call into the library goes (they turn panics into observations).

use crate::rng::{fnv, Rng};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[allow(unused_imports)]
pub use toon_rs::{Delimiter, ExpandPaths, KeyFolding, Options};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A refuted property: what was seen, and the input that shows it.
#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub input: Value,
}
pub type Verdict = Result<(), Violation>;

pub fn violation<T>(what: impl Into<String>, input: Value) -> Result<T, Violation> {
    Err(Violation { what: what.into(), input })
}

/// What one worker observed.
#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<Value>,
}

impl Obs {
    pub fn count(&mut self, name: &str) {
        self.add(name, 1)
    }
    pub fn add(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.counters.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Record a distinct non-trivial input.
    pub fn nontrivial(&mut self, what: &[u8]) {
        self.hashes.insert(fnv(what));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
}

pub struct Case<'a> {
    pub seed: u64,
    pub no: u64,
    pub tier: Tier,
    pub rng: Rng,
    pub obs: &'a mut Obs,
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub run: fn(&mut Case) -> Verdict,
}

/// Failure of a library call.
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Err { line: Option<usize>, msg: String },
    Panic(String),
}

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Fail::Err { msg, .. } => write!(f, "error: {msg}"),
            Fail::Panic(m) => write!(f, "PANIC: {m}"),
        }
    }
}

impl Fail {
    pub fn is_panic(&self) -> bool {
        matches!(self, Fail::Panic(_))
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn guarded<T>(f: impl FnOnce() -> Result<T, toon_rs::Error>) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => {
            let line = match &e {
                toon_rs::Error::Syntax { line, .. } => Some(*line),
                _ => None,
            };
            Err(Fail::Err { line, msg: e.to_string() })
        }
        Err(_) => Err(Fail::Panic(last_panic())),
    }
}

pub fn encode<T: Serialize + ?Sized>(v: &T, o: &Options) -> Result<String, Fail> {
    guarded(|| toon_rs::encode_to_string(&v, o))
}

pub fn decode<T: DeserializeOwned + 'static>(s: &str, o: &Options) -> Result<T, Fail> {
    guarded(|| toon_rs::decode_from_str(s, o))
}

pub fn decode_value(s: &str, o: &Options) -> Result<Value, Fail> {
    decode::<Value>(s, o)
}

pub const DELIMS: [Delimiter; 3] = [Delimiter::Comma, Delimiter::Tab, Delimiter::Pipe];

pub fn delim_char(d: Delimiter) -> char {
    match d {
        Delimiter::Comma => ',',
        Delimiter::Tab => '\t',
        Delimiter::Pipe => '|',
    }
}

pub fn opts_json(o: &Options) -> Value {
    json!({
        "delimiter": format!("{:?}", o.delimiter),
        "indent": o.indent,
        "strict": o.strict,
        "key_folding": format!("{:?}", o.key_folding),
        "flatten_depth": o.flatten_depth,
        "expand_paths": format!("{:?}", o.expand_paths),
    })
}

/// Delimiter, indent and strictness at random; no folding or expansion.
pub fn plain_options(r: &mut Rng) -> Options {
    Options {
        delimiter: *r.pick(&DELIMS),
        indent: *r.pick(&[2, 2, 2, 4, 1, 3, 8, 5]),
        strict: r.chance(1, 2),
        ..Options::default()
    }
}
