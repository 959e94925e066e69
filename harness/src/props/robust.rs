//! C08: decoding any text under any options terminates with a value or an error, within stack,
//! memory and time proportional to the text.

use crate::alloc_mon::measure;
use crate::core::*;
use crate::docgen;
use crate::rng::Rng;
use crate::{eq, gen};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

pub static PROPS: &[Prop] = &[Prop {
    id: "C08",
    quick: 160_000,
    thorough: 3_000_000,
    rule: "texts: mutated documents, soups of structural fragments, and about 60 growth patterns (deep nesting of every kind, long runs, wide tables, repeated keys, declared lengths up to 2^64) of up to 20 KiB, now and then 300 KiB, or up to 6,000 levels of nesting; decoded on a 2 MiB stack under random options (indent 0 to 2^32, strict or lenient, path expansion on or off) into JSON values and typed targets, and re-encoded when accepted. Non-trivial: at least 8 bytes; distinct by text and options",
    run: c08,
}];

const FRAGMENTS: &[&str] = &[
    "a", "b", "key", "k: v", "k:", ": ", ":", "- ", "-", "[", "]", "{", "}", "[3]", "[2]:", "[1]{a,b}:", "{a}", "[2|]", "[2\t]", "{a|b}", ",", "|", "\t", "\"", "\\", "\\n", "\\u0041", "\\u", "\\uD800",
    "\n", "\n", "\n", "\n  ", "\n    ", "\n      ", "\n   ", "\n\t", "\r", "\r\n", " ", "  ", "@", "@, a,b", "@|", "@é a", "#", "//", "1", "0", "-1", "1e9", "1e999", "00", "null", "true", ".", "a.b", "a.b.c", "x.", "..",
    "99999999999999999999", "[18446744073709551615]", "[99999999999]", "[4294967296]:", "[-1]", "[1e3]", "[ 2 ]", "[]", "[]:", "[0]:", "{}", "{}:", "{0}:", "é", "日本", "😀", "\u{200b}", "\u{feff}", "\u{a0}", "\u{0}", "\u{2028}", "\u{10ffff}", "\"a\"", "\"a\":", "\"a.b\":", "\"", "a[1]: x", "a[1]{b}:", "a[2]{b,c}:", "- [1]:", "- a[1]:", "- a:", "- \"q\": 1", "x[1]", "key[N]", "[1]{\"a,b\",c}:", "[#3]:", "[3,]:", "inf", "nan", "-inf",
];

pub fn soup(r: &mut Rng) -> String {
    let n = r.range(1, 40);
    (0..n).map(|_| *r.pick(FRAGMENTS)).collect()
}

fn mutate(r: &mut Rng, t: &str) -> String {
    let mut s: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 8) {
        if s.is_empty() {
            break;
        }
        let i = r.below(s.len());
        match r.below(9) {
            8 => {
                // A run that makes a token long
                let run: Vec<char> = gen::long_string(r, 120).chars().collect();
                s.splice(i..i, run);
            }
            0 => {
                s.remove(i);
            }
            1 | 2 => {
                let f: Vec<char> = r.pick(FRAGMENTS).chars().collect();
                s.splice(i..i, f);
            }
            3 => {
                let j = (i + r.range(1, 20)).min(s.len());
                s.drain(i..j);
            }
            4 => {
                let j = (i + r.range(1, 60)).min(s.len());
                let part: Vec<char> = s[i..j].to_vec();
                let k = r.below(s.len() + 1);
                s.splice(k..k, part);
            }
            5 => s.truncate(i),
            6 => {
                let j = r.below(s.len());
                s.swap(i, j);
            }
            _ => {
                if let Some(f) = r.pick(FRAGMENTS).chars().next() {
                    s[i] = f
                }
            }
        }
    }
    s.into_iter().collect()
}

/// Patterns that grow with `n` (bytes, roughly) in one dimension.
fn growth(r: &mut Rng, n: usize) -> (&'static str, String) {
    let rep = |s: &str| s.repeat(n / s.len().max(1) + 1);
    // as deep as n bytes allow when every level is indented
    let depth = ((n as f64).sqrt() as usize).max(2);
    let ladder = |line: &dyn Fn(usize) -> String, step: usize| {
        let mut s = String::new();
        for d in 0..depth {
            s += &" ".repeat(d * step);
            s += &line(d);
            s.push('\n');
        }
        s
    };
    match r.below(61) {
        0 => ("blank lines", rep("\n")),
        1 => ("spaces", rep(" ")),
        2 => ("blank lines below a key", format!("a:\n{}  b: 1", rep("\n"))),
        3 => ("nested keys", ladder(&|_| "a:".into(), 1)),
        4 => ("nested keys two spaces", ladder(&|_| "k:".into(), 2)),
        5 => ("hyphens on a line", rep("- ")),
        6 => ("hyphens with value", rep("- ") + "x"),
        7 => ("nested bare hyphens", ladder(&|_| "-".into(), 2)),
        8 => ("nested lists", ladder(&|d| if d == 0 { "[1]:".into() } else { "- [1]:".into() }, 2)),
        9 => ("nested keyed lists", ladder(&|d| if d == 0 { "a[1]:".into() } else { "- a[1]:".into() }, 4)),
        10 => ("nested keyed lists one space", ladder(&|d| if d == 0 { "a[1]:".into() } else { "- a[1]:".into() }, 1)),
        11 => ("nested list item keys", ladder(&|_| "- a:".into(), 2)),
        12 => ("nested hyphen keys", ladder(&|_| "- a:".into(), 4)),
        13 => ("opening brackets", rep("[")),
        14 => ("opening brackets below a key", format!("a{}", rep("["))),
        15 => ("list headers on a line", rep("[1]: ")),
        16 => ("hyphen headers on a line", rep("- [1]: ")),
        17 => ("hyphen keyed headers on a line", rep("- a[1]: ")),
        18 => ("quotes", rep("\"")),
        19 => ("backslashes", format!("a: \"{}\"", rep("\\"))),
        20 => ("escapes", format!("a: \"{}\"", rep("\\\\"))),
        21 => ("unicode escapes", format!("a: \"{}\"", rep("\\u0041"))),
        22 => ("open string", format!("a: \"{}", rep("x"))),
        23 => ("dotted path", format!("{}z: 1", rep("a."))),
        24 => ("dotted paths", (0..n / 12).map(|i| format!("a.b{i}.c: {i}\n")).collect()),
        25 => ("same dotted path", rep("a.b.c: 1\n")),
        26 => ("growing dotted paths", (0..depth).map(|i| format!("{}z{i}: 1\n", "a.".repeat(i))).collect()),
        27 => ("colons", rep(":")),
        28 => ("keys on a line", rep("a: ")),
        29 => ("fields", (0..n / 8).map(|i| format!("k{i}: {i}\n")).collect()),
        30 => ("same field", rep("k: v\n")),
        31 => ("inline values", format!("x[{}]: {}1", n / 2 + 2, rep("1,"))),
        32 => ("inline values, other length", format!("x[999999999]: {}1", rep("1,"))),
        33 => ("empty cells", format!("x[3]: {}", rep(","))),
        34 => ("columns", format!("x[1]{{{}z}}:\n  {}1", (0..n / 10).map(|i| format!("c{i},")).collect::<String>(), "1,".repeat(n / 10))),
        35 => ("rows", format!("x[{}]{{a,b}}:\n{}", n / 6 + 1, "  1,2\n".repeat(n / 6 + 1))),
        36 => ("rows of a huge table", format!("x[18446744073709551615]{{a,b}}:\n{}", rep("  1,2\n"))),
        37 => ("rows too wide", format!("x[1]{{a}}:\n  {}", rep("1,"))),
        38 => ("list of nothing", format!("x[{}]:\n{}", n / 4, rep("  -\n"))),
        39 => ("list of scalars", format!("x[{}]:\n{}", n / 6 + 1, "  - 1\n".repeat(n / 6 + 1))),
        40 => ("list items of two fields", format!("x[{}]:\n{}", n / 20 + 1, "  - a: 1\n    b: 2\n".repeat(n / 20 + 1))),
        41 => ("blank lines in a list", format!("x[2]:\n  - 1\n{}  - 2", rep("\n"))),
        42 => ("blank lines between items", format!("x[9]:\n{}", rep("  - 1\n\n\n"))),
        43 => ("long key", rep("k") + ": 1"),
        44 => ("long quoted key", format!("\"{}\": 1", rep("k"))),
        45 => ("long scalar", rep("word ")),
        46 => ("long number", format!("a: {}", rep("1"))),
        47 => ("long fraction", format!("a: 0.{}", rep("3"))),
        48 => ("long zeros", format!("a: {}", rep("0"))),
        49 => ("long exponent", format!("a: 1e{}", rep("9"))),
        50 => ("long bracket", format!("a[{}]: 1", rep("9"))),
        51 => ("legacy rows", format!("x:\n  @, a,b\n{}", rep("  - 1,2\n"))),
        52 => ("legacy columns", format!("x:\n  @, {}z\n  - 1", (0..n / 6).map(|i| format!("c{i},")).collect::<String>())),
        53 => ("staircase down", (0..depth).map(|d| format!("{}a:\n", " ".repeat(depth - d))).collect()),
        54 => ("zigzag", rep("a:\n  b:\n    c: 1\n")),
        55 => ("tabs", rep("\t")),
        56 => ("carriage returns", rep("a: 1\r\n")),
        57 => ("list of empty keys", rep("- a:\n")),
        58 => ("braces", format!("a[1]{}", rep("{"))),
        59 => ("deep then wide", ladder(&|_| "a:".into(), 1) + &rep("b: 1\n")),
        _ => {
            let a = r.pick(FRAGMENTS).to_string();
            let b = r.pick(FRAGMENTS).to_string();
            ("repeated pair of fragments", rep(&(a + &b)))
        }
    }
}

/// Thousands of levels, each line opening the next, of one kind or of several.
fn very_deep(r: &mut Rng) -> String {
    let kinds = ["a:", "- [1]:", "- a[1]:", "- a:", "-", "a[1]:", "[1]:", "- a[1]{b}:", "- \"q\":"];
    let one = *r.pick(&kinds);
    let mixed = r.chance(1, 3);
    let levels = *r.pick(&[700, 1500, 3000, 6000]);
    let mut s = String::new();
    let mut indent = 0;
    for d in 0..levels {
        let line = if mixed { *r.pick(&kinds) } else { one };
        let line = if d == 0 && line.starts_with("- ") && r.chance(3, 4) { &line[2..] } else { line };
        s.extend(std::iter::repeat_n(' ', indent));
        s += line;
        s.push('\n');
        // What is below the first field of an item is two levels down
        indent += if line.starts_with("- ") && !line.starts_with("- [") && r.chance(if mixed { 1 } else { 0 }, 2) { 2 } else { 1 };
    }
    if r.chance(1, 2) {
        s.extend(std::iter::repeat_n(' ', indent));
        s += "x: 1";
    }
    s
}

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/thread-self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit_once(')').map_or("", |x| x.1).split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

#[derive(serde::Deserialize, serde::Serialize, Debug, PartialEq)]
struct Rec {
    a: Option<Box<Rec>>,
    #[serde(default)]
    b: Vec<Rec>,
    k: Option<String>,
}

/// A value that can be re-encoded on this stack.
fn c08(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let big = r.chance(1, 400);
    let abyss = r.chance(1, 100);
    let mut kind = "mutated document";
    let text = match r.below(10) {
        0..=3 => {
            let p = gen::profile(r);
            let mut v = gen::document(r, &p);
            if r.chance(1, 1000) {
                gen::enlarge(r, &mut v);
            }
            let st = super::decode::style(r, true);
            let t = docgen::write(r, &v, st).text();
            mutate(r, &t)
        }
        4 => {
            // Long tokens, mostly in places where they do not belong
            kind = "long tokens";
            let mut tok = |r: &mut Rng| {
                let mut t: Vec<char> = gen::long_string(r, 130).chars().collect();
                let f: Vec<char> = r.pick(FRAGMENTS).chars().collect();
                let i = r.below(t.len() + 1);
                t.splice(i..i, f);
                t.into_iter().collect::<String>()
            };
            let tok = &mut tok;
            let (a, b) = (tok(r), if r.chance(1, 2) { tok(r) } else { "b".into() });
            let t = match r.below(12) {
                0 => format!("@, {a},{b}\n- 1,2"),
                1 => format!("x:\n  @| {a}|{b}\n  - 1|2"),
                2 => format!("{a}: {b}"),
                3 => format!("\"{a}\": \"{b}\""),
                4 => format!("x[2]: {a},{b}"),
                5 => format!("x[1]{{{a},{b}}}:\n  1,2"),
                6 => format!("x[1]{{a,b}}:\n  {a},{b}"),
                7 => format!("x[2]:\n  - {a}\n  - {b}"),
                8 => format!("x[{a}]: {b}"),
                9 => format!("k:\n  {a}\n   {b}: 1"),
                10 => format!("\"{a}: {b}"),
                _ => format!("[1]:\n  - {a}: 1\n    \"{b}\""),
            };
            if r.chance(1, 4) {
                mutate(r, &t)
            } else {
                t
            }
        }
        5 if abyss => {
            kind = "very deep";
            very_deep(r)
        }
        5 | 6 => {
            kind = "soup";
            soup(r)
        }
        _ => {
            let n = if big { 300_000 } else { *r.pick(&[20, 100, 300, 700, 2000, 6000, 20_000]) };
            let (k, t) = growth(r, n);
            kind = k;
            if r.chance(1, 8) {
                mutate(r, &t)
            } else {
                t
            }
        }
    };
    let o = Options {
        strict: r.chance(1, 2),
        indent: if kind == "very deep" { 1 } else { *r.pick(&[0, 1, 2, 2, 2, 3, 4, 8, 100, 1 << 32]) },
        delimiter: *r.pick(&DELIMS),
        expand_paths: if r.chance(1, 3) { ExpandPaths::Safe } else { ExpandPaths::Off },
        key_folding: if r.chance(1, 3) { KeyFolding::Safe } else { KeyFolding::Off },
        flatten_depth: *r.pick(&[None, None, Some(0), Some(1), Some(2), Some(usize::MAX)]),
    };
    let which = r.below(6);
    c.obs.count(kind);
    c.obs.max("max_bytes", text.len() as u64);
    if text.len() >= 8 {
        let mut id = text.clone().into_bytes();
        id.extend(format!("{o:?}").bytes());
        c.obs.nontrivial(&id);
    }
    if c.no % 4000 == 17 && text.len() < 400 {
        c.obs.sample(|| json!({"kind": kind, "text": text, "options": opts_json(&o)}));
    }
    let shown = || {
        let t: String = if text.len() > 4000 { text.chars().take(600).collect::<String>() + " ... (cut)" } else { text.clone() };
        json!({"kind": kind, "bytes": text.len(), "text": t, "options": opts_json(&o)})
    };
    let fixed = |res: Result<(), String>| res.or_else(|w| violation(w, shown()));
    let obs = &mut *c.obs;
    let verdict: Result<(), String> = std::thread::scope(|s| {
        let run = || -> (Result<(), String>, Vec<(&'static str, u64)>) {
            let mut seen = vec![];
            let res = (|| {
                let cpu = cpu_seconds();
                let (v, u) = measure(|| decode_value(&text, &o));
                let cpu = cpu_seconds() - cpu;
                seen.push(("max_bytes_per_byte", (u.peak.saturating_sub(1 << 16) / text.len().max(1)) as u64));
                seen.push(("max_calls_per_byte", (u.calls.saturating_sub(1000) / text.len().max(1)) as u64));
                seen.push(("max_cpu_ms", (cpu * 1000.0) as u64));
                if u.peak > (1 << 18) + 700 * text.len() {
                    return Err(format!("decoding {} bytes of text took {} bytes of memory", text.len(), u.peak));
                }
                if cpu > 20.0 {
                    return Err(format!("decoding {} bytes of text took {cpu:.0} s of CPU time", text.len()));
                }
                let v = match v {
                    Ok(v) => {
                        seen.push(("accepted", 1));
                        Some(v)
                    }
                    Err(Fail::Err { .. }) => {
                        seen.push(("rejected", 1));
                        None
                    }
                    Err(p) => return Err(format!("decode: {p}")),
                };
                // Typed targets take other paths through the library
                let p = match which {
                    0 => decode::<Rec>(&text, &o).err(),
                    1 => decode::<HashMap<String, String>>(&text, &o).err(),
                    2 => decode::<Vec<BTreeMap<String, Option<i64>>>>(&text, &o).err(),
                    3 => decode::<(u8, f32, char, bool)>(&text, &o).err(),
                    4 => guarded(|| toon_rs::decode_from_reader::<_, Value>(text.as_bytes(), &o)).err(),
                    _ => decode::<serde::de::IgnoredAny>(&text, &o).err(),
                };
                if let Some(p @ Fail::Panic(_)) = p {
                    return Err(format!("typed decode {which}: {p}"));
                }
                if let Some(v) = v {
                    let depth = eq::size(&v).1;
                    seen.push(("max_depth", depth as u64));
                    if depth > 1000 {
                        return Err(format!("decodes to a value nested {depth} deep"));
                    }
                    let out = Options { indent: o.indent.min(64), ..o.clone() };
                    if let Err(p @ Fail::Panic(_)) = encode(&v, &out) {
                        return Err(format!("encoding the decoded value: {p}"));
                    }
                }
                Ok(())
            })();
            (res, seen)
        };
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, run).expect("thread");
        let (res, seen) = match h.join() {
            Ok(x) => x,
            Err(_) => {
                eprintln!("harness panic in case {}: {}", c.no, last_panic());
                std::process::exit(70)
            }
        };
        for (k, n) in seen {
            if k.starts_with("max_") {
                obs.max(k, n)
            } else {
                obs.add(k, n)
            }
        }
        res
    });
    fixed(verdict)
}
