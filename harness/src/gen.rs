//! Workload generators: JSON values, hostile strings, keys and numbers.

use crate::rng::Rng;
use serde_json::{Map, Number, Value};

/// Tokens that have been or could plausibly be misread by a TOON reader or writer.
pub const HOSTILE: &[&str] = &[
    "", " ", "  ", "-", "--", "- ", "- a", "-a", "-1", "- 1", "-0", "-0.0", "+1", "+", "+a", "true", "false", "null",
    "True", "NULL", "TRUE", "nan", "NaN", "inf", "-inf", "Infinity", "-Infinity", "infinity", "0", "1", "00", "05", "007", "-05", "0.5",
    "0.50", ".5", "5.", "1e5", "1E5", "1e-5", "1.5e+3", "0x10", "1_000", "1,000", "0123abc", "12:30", "a,b", "a|b",
    "a\tb", ",", "|", "\t", "a,", ",a", "|a", "a|", "\ta", "a\t", "[", "]", "{", "}", "[]", "{}", "[0]", "[2]",
    "[2]:", "[2]: a,b", "[2|]: a|b", "[2]{a,b}:", "{0}", "{0}:", "[0]:", "a[2]", "a[2]: b", "a[0]:", "a[2]{x}:", "@", "@,", "@|", "@, a", "@a",
    "#", "# c", "// c", "---", "...", "key: v", "key:", ":", "::", ": ", "a:b", "a: b", "a :b", "\"", "\"\"", "\"a", "a\"",
    "\"a\"", "a\"b", "\\", "\\\\", "a\\", "\\n", "a\\nb", "\\u0041", "\\\"", "'", "'a'", "\n", "\r", "\r\n", "a\nb", "a\rb", "\n\n", "line1\nline2", "a\n",
    "\u{0}", "\u{1}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{a0}a", "a\u{a0}", "\u{200b}", "\u{200b}a", "\u{200b}a.b", "\u{200b}.x", "\u{feff}", "\u{feff}a", "\u{2028}", "\u{2029}", "\u{3000}",
    "é", "ß", "日本", "日本語", "😀", "👩‍👩‍👧", "\u{10ffff}", "e\u{301}", "٣", "１２", "−5", "½", "a.b", "a.b.c", ".", "..", ".a", "a.", "a..b", "1.2.3", "a.1", "a-b.c", "a b.c", "1.a",
    " a", "a ", " a ", "a  b", "a b", "\ta b", "\u{b}", "\u{c}", "a\u{c}", "x", "y", "id", "name", "value", "_", "_a", "a_b", "A1", "a-b", "9a", "$ref", "a/b", "%", "&", "*", "!", "~", "`", "^", "=", "<a>", "(a)", ";", "?",
    "1e400", "-1e400", "1e-400", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9007199254740993", "123456789012345678901234567890", "0.1", "1.0", "1e0", "0e0", "0e5", "-0e0", "1e", "e1", "1e+", "1.e5", ".e5", "--1", "+-1", "-+1", "1-", "1+1", "1-1",
];

const ALPHA: &[char] = &[
    '"', '\\', ',', '|', '\t', ':', '[', ']', '{', '}', '-', '#', '@', '.', '0', '1', '7', 'e', 'E', '+', 'a', 'b', 'n', 'u',
    '_', ' ', ' ', '\n', '\r', 'é', '日', '😀', '\u{200b}', '\u{a0}', '\u{1}', '\u{7f}', '/', '\'', '\u{b}', '\u{85}', '\u{2028}', '\u{feff}',
];
const IDENT: &[char] = &['a', 'b', 'c', 'x', 'y', 'z', 'A', 'Z', '_', '0', '1', '9'];

pub fn plain_word(r: &mut Rng) -> String {
    const W: &[&str] = &[
        "alpha", "beta", "gamma", "delta", "Ada", "Bob", "widget", "gizmo", "hello world", "red", "blue", "ok", "done", "in progress", "North", "user", "v2", "x1",
    ];
    if r.chance(2, 3) {
        r.pick(W).to_string()
    } else {
        let n = r.range(1, 8);
        let mut s = String::new();
        for _ in 0..n {
            s.push((b'a' + r.below(26) as u8) as char);
        }
        s
    }
}

pub fn ident(r: &mut Rng) -> String {
    let n = r.range(1, 5);
    let mut s = String::new();
    s.push(*r.pick(&['a', 'b', 'c', 'k', 'x', 'A', 'Z', '_']));
    for _ in 1..n {
        s.push(*r.pick(IDENT));
    }
    s
}

/// Sizes at which implementations like to change their ways.
pub fn edge_size(r: &mut Rng, max: usize) -> usize {
    let p = 1usize << r.range(2, 12);
    let n = match r.below(4) {
        0 => p - 1,
        1 => p,
        2 => p + 1,
        _ => *r.pick(&[10, 20, 24, 50, 99, 100, 101, 200, 250, 300]),
    };
    if n <= max {
        n
    } else {
        1 + n % max
    }
}

/// A long string of one or two characters with up to three others at any place.
pub fn long_string(r: &mut Rng, max: usize) -> String {
    let n = edge_size(r, max);
    let fill = *r.pick(&['x', 'a', '7', ' ', 'é', '日', '😀', '_', '"', '\\', '\n', '\u{1}', '.', ',']);
    let mut s: Vec<char> = match r.below(3) {
        0 => vec!['k'; n],
        _ => vec![fill; n],
    };
    for _ in 0..r.range(0, 3) {
        let i = match r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => r.below(n),
        };
        s[i] = *r.pick(ALPHA);
    }
    s.into_iter().collect()
}

pub fn hostile_string(r: &mut Rng) -> String {
    if r.chance(1, 40) {
        return long_string(r, 300);
    }
    match r.below(12) {
        0..=4 => r.pick(HOSTILE).to_string(),
        5 => {
            // two hostile tokens glued
            let mut s = r.pick(HOSTILE).to_string();
            if r.chance(1, 2) {
                s.push(*r.pick(ALPHA));
            }
            s.push_str(r.pick(HOSTILE));
            s
        }
        6..=8 => {
            let n = r.range(0, 10);
            (0..n).map(|_| *r.pick(ALPHA)).collect()
        }
        9 => {
            // any scalar values
            let n = r.range(1, 4);
            let mut s = String::new();
            while s.chars().count() < n {
                let c = match r.below(4) {
                    0 => r.below(0x80) as u32,
                    1 => r.below(0x800) as u32,
                    2 => r.below(0x10000) as u32,
                    _ => r.below(0x110000) as u32,
                };
                if let Some(c) = char::from_u32(c) {
                    s.push(c);
                }
            }
            s
        }
        10 => number_text(r),
        _ => {
            let n = r.range(1, 60);
            let mut s = plain_word(r);
            for _ in 0..n {
                if r.chance(1, 9) {
                    s.push(*r.pick(ALPHA));
                } else {
                    s.push((b'a' + r.below(26) as u8) as char);
                }
            }
            s
        }
    }
}

/// Text that looks like a number, in many spellings, valid or not.
pub fn number_text(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(8) {
        0 => s.push('+'),
        1 | 2 | 3 => s.push('-'),
        _ => {}
    }
    let n = r.range(0, 4);
    if r.chance(1, 6) {
        s.push_str("00");
    }
    if r.chance(1, 12) {
        for _ in 0..r.range(15, 30) {
            s.push((b'0' + r.below(10) as u8) as char);
        }
    }
    for _ in 0..n {
        s.push((b'0' + r.below(10) as u8) as char);
    }
    if r.chance(1, 2) {
        s.push('.');
        for _ in 0..r.range(0, 4) {
            s.push((b'0' + r.below(10) as u8) as char);
        }
    }
    if r.chance(1, 3) {
        s.push(*r.pick(&['e', 'E']));
        match r.below(3) {
            0 => s.push('-'),
            1 => s.push('+'),
            _ => {}
        }
        for _ in 0..r.range(0, 3) {
            s.push((b'0' + r.below(10) as u8) as char);
        }
    }
    s
}

pub fn float(r: &mut Rng) -> f64 {
    loop {
        let f = match r.below(14) {
            0 => f64::from_bits(r.next()),
            1 => 10f64.powi(r.range(0, 40) as i32 - 20),
            2 => 10f64.powi(r.range(0, 616) as i32 - 308) * (r.range(1, 9999) as f64),
            3 => (r.next() >> 11) as f64 / (1u64 << r.range(0, 60)) as f64,
            4 => {
                let k = r.range(50, 70);
                (2f64).powi(k as i32) + (r.range(0, 4) as f64 - 2.0) * (2f64).powi(k as i32 - 52)
            }
            5 => *r.pick(&[
                0.1, 0.2, 0.3, 1.0 / 3.0, 2.5, 1e21, 1e22, 1e23, 1e-5, 1e-6, 1e-7, 123456.789, 5e-324, f64::MIN_POSITIVE,
                f64::MAX, f64::EPSILON, 0.0, -0.0, 1.0, 100.0, 1e15, 1e16, 1e17, 9007199254740992.0, 9007199254740993.0,
                18446744073709551615.0, 9223372036854775807.0, 1e19, 1e20, 4.35, 0.000001, 1.7976931348623157e308, 2.2250738585072014e-308,
                9.5, 99.5, 0.05, 1e300, 6.02e23, 12345678901234567890.0,
            ]),
            6 => r.range(0, 1000) as f64 / 100.0,
            7 => r.range(0, 100000) as f64 / 8.0,
            8 => f64::from_bits(r.next() & 0x000f_ffff_ffff_ffff), // subnormal
            9 => (r.next() as i64) as f64,
            10 => (r.next()) as f64 * 10f64.powi(r.range(0, 20) as i32),
            11 => (r.next() as f32) as f64 / 3.0,
            12 => {
                let d = r.range(1, 17);
                let m = r.next() % 10u64.pow(d as u32);
                format!("{}e{}", m, r.range(0, 60) as i32 - 40).parse().unwrap()
            }
            _ => r.range(0, 20) as f64,
        };
        let f = if r.chance(1, 4) { -f } else { f };
        if f.is_finite() {
            return f;
        }
    }
}

pub fn int(r: &mut Rng) -> Number {
    match r.below(10) {
        0 => Number::from(r.next()),
        1 => Number::from(r.next() as i64),
        2 => Number::from(*r.pick(&[
            0i64, -1, 1, i64::MIN, i64::MAX, i64::MIN + 1, -128, 127, 255, 256, 65535, 65536, 2147483647, -2147483648, 4294967295, 4294967296,
            9007199254740991, 9007199254740992, 9007199254740993, -9007199254740993,
        ])),
        3 => Number::from(*r.pick(&[u64::MAX, u64::MAX - 1, 1u64 << 63, (1u64 << 63) + 1, 10000000000000000000])),
        4 => Number::from(10i64.pow(r.range(0, 18) as u32)),
        5 => Number::from((r.next() >> r.below(64)) as i64 as i128 as i64),
        _ => Number::from(r.range(0, 2000) as i64 - 1000),
    }
}

pub fn number(r: &mut Rng) -> Number {
    if r.chance(1, 2) {
        int(r)
    } else {
        Number::from_f64(float(r)).unwrap()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    /// out of 100: probability that a string / key is hostile
    pub hostile_str: usize,
    pub hostile_key: usize,
    pub max_depth: usize,
    pub max_len: usize,
    pub hostile_num: bool,
    /// keys may contain dots (always true except where a property excludes them)
    pub dotted: bool,
}

pub const PROFILES: &[Profile] = &[
    Profile { hostile_str: 10, hostile_key: 0, max_depth: 3, max_len: 4, hostile_num: false, dotted: true },
    Profile { hostile_str: 50, hostile_key: 30, max_depth: 3, max_len: 4, hostile_num: true, dotted: true },
    Profile { hostile_str: 90, hostile_key: 80, max_depth: 2, max_len: 3, hostile_num: true, dotted: true },
    Profile { hostile_str: 20, hostile_key: 10, max_depth: 6, max_len: 3, hostile_num: true, dotted: true },
    Profile { hostile_str: 30, hostile_key: 20, max_depth: 2, max_len: 12, hostile_num: true, dotted: true },
];

pub fn string(r: &mut Rng, p: &Profile) -> String {
    if r.below(100) < p.hostile_str {
        hostile_string(r)
    } else {
        plain_word(r)
    }
}

pub fn key(r: &mut Rng, p: &Profile) -> String {
    loop {
        let k = if r.below(100) < p.hostile_key {
            hostile_string(r)
        } else if r.chance(1, 3) {
            r.pick(&["a", "b", "c", "id", "name", "items", "user", "tags", "x", "meta", "data"]).to_string()
        } else {
            ident(r)
        };
        if p.dotted || !k.contains('.') {
            return k;
        }
    }
}

pub fn num(r: &mut Rng, p: &Profile) -> Value {
    if p.hostile_num {
        Value::Number(number(r))
    } else if r.chance(3, 4) {
        Value::from(r.range(0, 2000) as i64 - 500)
    } else {
        Value::from(r.range(0, 100000) as f64 / 100.0)
    }
}

pub fn primitive(r: &mut Rng, p: &Profile) -> Value {
    match r.below(10) {
        0 => Value::Null,
        1 => Value::Bool(r.chance(1, 2)),
        2..=4 => num(r, p),
        _ => Value::String(string(r, p)),
    }
}

fn keys(r: &mut Rng, p: &Profile, n: usize) -> Vec<String> {
    let mut ks: Vec<String> = Vec::new();
    let mut tries = 0;
    while ks.len() < n && tries < n * 4 {
        let k = key(r, p);
        if !ks.contains(&k) {
            ks.push(k);
        }
        tries += 1;
    }
    ks
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
}

/// A long array that is all of one kind, or all but for one element far down.
pub fn long_array(r: &mut Rng, p: &Profile, depth: usize) -> Value {
    let n = edge_size(r, 300);
    let cols = r.range(1, 3);
    let ks = keys(r, p, cols);
    let odd = match r.below(4) {
        0 => n,
        1 => n - 1,
        _ => r.below(n),
    };
    let kind = r.below(4);
    // Repeated elements keep it cheap
    let pool: Vec<Value> = (0..8).map(|_| primitive(r, p)).collect();
    let row = |r: &mut Rng| Value::Object(ks.iter().map(|k| (k.clone(), r.pick(&pool).clone())).collect());
    Value::Array(
        (0..n)
            .map(|i| match kind {
                0 if i == odd => value(r, p, depth + 1),
                0 => r.pick(&pool).clone(),
                1 => Value::Array(if i == odd { vec![value(r, p, depth + 1)] } else { vec![r.pick(&pool).clone()] }),
                _ if i == odd => {
                    let Value::Object(mut m) = row(r) else { unreachable!() };
                    match r.below(6) {
                        0 => return primitive(r, p),
                        1 => {
                            m.insert(key(r, p), primitive(r, p));
                        }
                        2 if m.len() > 1 => {
                            let k = r.pick(&ks).clone();
                            m.shift_remove(&k);
                        }
                        3 => {
                            // Other order
                            let (k, v) = m.iter().next().map(|(k, v)| (k.clone(), v.clone())).unwrap();
                            m.shift_remove(&k);
                            m.insert(k, v);
                        }
                        4 => {
                            // Same number of columns, one with another name
                            let i = r.below(m.len());
                            let k = m.keys().nth(i).unwrap().clone();
                            let v = m.shift_remove(&k).unwrap();
                            m.insert(key(r, p), v);
                        }
                        _ => {
                            let k = r.pick(&ks).clone();
                            let v = value(r, p, depth + 1);
                            m.insert(k, v);
                        }
                    }
                    Value::Object(m)
                }
                _ => row(r),
            })
            .collect(),
    )
}

pub fn array(r: &mut Rng, p: &Profile, depth: usize) -> Value {
    if r.chance(1, 150) {
        return long_array(r, p, depth);
    }
    let n = r.range(0, p.max_len);
    match r.below(9) {
        0 => Value::Array(vec![]),
        1 | 2 => Value::Array((0..n).map(|_| primitive(r, p)).collect()),
        3 | 4 => {
            // uniform rows of primitives; key order may differ between rows
            let cols = r.range(0, 4);
            let ks = keys(r, p, cols);
            let mixed = r.chance(1, 3);
            Value::Array(
                (0..n.max(1))
                    .map(|_| {
                        let mut order: Vec<usize> = (0..ks.len()).collect();
                        if mixed {
                            shuffle(r, &mut order);
                        }
                        let mut m = Map::new();
                        for i in order {
                            m.insert(ks[i].clone(), primitive(r, p));
                        }
                        Value::Object(m)
                    })
                    .collect(),
            )
        }
        5 => {
            // almost-uniform rows: one key missing / extra / non primitive
            let cols = r.range(1, 3);
            let ks = keys(r, p, cols);
            let bad = r.below(n.max(1));
            let how = r.below(4);
            Value::Array(
                (0..n.max(1))
                    .map(|i| {
                        let mut m = Map::new();
                        for k in &ks {
                            m.insert(k.clone(), primitive(r, p));
                        }
                        if i == bad {
                            match how {
                                0 => {
                                    m.insert(format!("x{}", i), primitive(r, p));
                                }
                                1 => {
                                    let k = r.pick(&ks).clone();
                                    m.shift_remove(&k);
                                }
                                2 => {
                                    let k = r.pick(&ks).clone();
                                    let v = value(r, p, depth + 1);
                                    m.insert(k, v);
                                }
                                _ => {}
                            }
                        }
                        Value::Object(m)
                    })
                    .collect(),
            )
        }
        6 => Value::Array((0..n).map(|_| if depth < p.max_depth { array(r, p, depth + 1) } else { primitive(r, p) }).collect()),
        _ => Value::Array((0..n).map(|_| value(r, p, depth + 1)).collect()),
    }
}

pub fn object(r: &mut Rng, p: &Profile, depth: usize) -> Value {
    let n = r.range(0, p.max_len);
    let ks = keys(r, p, n);
    let mut m = Map::new();
    for k in ks {
        let v = value(r, p, depth + 1);
        m.insert(k, v);
    }
    Value::Object(m)
}

pub fn value(r: &mut Rng, p: &Profile, depth: usize) -> Value {
    if depth >= p.max_depth {
        return primitive(r, p);
    }
    match r.below(10) {
        0..=2 => primitive(r, p),
        3..=5 => array(r, p, depth),
        _ => object(r, p, depth),
    }
}

/// A document: mostly containers at the root.
pub fn document(r: &mut Rng, p: &Profile) -> Value {
    match r.below(12) {
        0 => primitive(r, p),
        1..=4 => array(r, p, 0),
        _ => object(r, p, 0),
    }
}

/// Nested single-key chains with siblings: key-folding material.
pub fn foldable(r: &mut Rng, p: &Profile, depth: usize) -> Value {
    let mut m = Map::new();
    let n = r.range(1, 3);
    let ks = keys(r, p, n);
    for k in ks {
        let mut v = match r.below(7) {
            0 => array(r, p, p.max_depth.saturating_sub(1)),
            1 => Value::Object(Map::new()),
            2 if depth < 3 => foldable(r, p, depth + 1),
            4 if depth < 3 => {
                // Chains inside the array at the end of a chain
                let n = r.range(1, 3);
                Value::Array((0..n).map(|_| if r.chance(1, 4) { primitive(r, p) } else { foldable(r, p, depth + 1) }).collect())
            }
            3 => object(r, p, p.max_depth.saturating_sub(1)),
            _ => primitive(r, p),
        };
        for _ in 0..r.below(5) {
            let mut o = Map::new();
            o.insert(key(r, p), v);
            v = Value::Object(o);
        }
        m.insert(k, v);
    }
    Value::Object(m)
}

pub fn profile(r: &mut Rng) -> Profile {
    *r.pick(PROFILES)
}

/// Smaller variants of a value, for shrinking a counterexample.
pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    match v {
        Value::Array(a) if a.len() > 100 => {
            for c in chunks(a.len()) {
                let mut b = a.clone();
                b.drain(c);
                out.push(Value::Array(b));
            }
        }
        Value::Object(m) if m.len() > 100 => {
            for c in chunks(m.len()) {
                out.push(Value::Object(m.iter().enumerate().filter(|(i, _)| !c.contains(i)).map(|(_, (k, v))| (k.clone(), v.clone())).collect()));
            }
        }
        Value::Array(a) => {
            for x in a {
                out.push(x.clone());
            }
            if a.len() > 3 {
                out.push(Value::Array(a[..a.len() / 2].to_vec()));
                out.push(Value::Array(a[a.len() / 2..].to_vec()));
            }
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push(Value::Array(b));
            }
            for i in 0..a.len() {
                for s in shrink(&a[i]) {
                    let mut b = a.clone();
                    b[i] = s;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(m) => {
            for (_, x) in m {
                if x.is_object() || x.is_array() {
                    out.push(x.clone());
                }
            }
            let ks: Vec<String> = m.keys().cloned().collect();
            for k in &ks {
                let mut b = m.clone();
                b.shift_remove(k);
                out.push(Value::Object(b));
            }
            for k in &ks {
                for s in shrink(&m[k]) {
                    let mut b = m.clone();
                    b.insert(k.clone(), s);
                    out.push(Value::Object(b));
                }
            }
            for (i, k) in ks.iter().enumerate() {
                for nk in shrink_str(k) {
                    if m.contains_key(&nk) {
                        continue;
                    }
                    let mut b = Map::new();
                    for (j, kk) in ks.iter().enumerate() {
                        b.insert(if i == j { nk.clone() } else { kk.clone() }, m[kk].clone());
                    }
                    out.push(Value::Object(b));
                }
            }
        }
        Value::String(s) => {
            for t in shrink_str(s) {
                out.push(Value::String(t));
            }
        }
        Value::Number(n) => {
            if n.as_i64() != Some(0) && n.as_i64() != Some(1) {
                out.push(Value::from(0));
                out.push(Value::from(1));
            }
            if n.is_f64() && n.as_f64() != Some(0.5) {
                out.push(Value::from(0.5));
            }
        }
        Value::Bool(_) => out.push(Value::Null),
        Value::Null => {}
    }
    out
}

/// Ranges to leave out of something long.
fn chunks(n: usize) -> Vec<std::ops::Range<usize>> {
    let mut out = vec![];
    for part in [2, 4, 16, 64] {
        let w = n / part;
        let mut at = 0;
        while at < n {
            out.push(at..(at + w).min(n));
            at += w;
        }
    }
    out
}

fn shrink_str(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    if cs.len() > 100 {
        for c in chunks(cs.len()) {
            let mut b = cs.clone();
            b.drain(c);
            out.push(b.into_iter().collect());
        }
        return out;
    }
    if cs.len() > 3 {
        out.push(cs[..cs.len() / 2].iter().collect());
        out.push(cs[cs.len() / 2..].iter().collect());
    }
    for i in 0..cs.len() {
        let mut c = cs.clone();
        c.remove(i);
        out.push(c.into_iter().collect());
    }
    for i in 0..cs.len() {
        if cs[i] != 'a' && cs[i] != 'b' {
            let mut c = cs.clone();
            c[i] = 'a';
            out.push(c.into_iter().collect());
        }
    }
    out
}

/// Greedy shrinking with a step limit.
pub fn minimize(v: &Value, fails: &dyn Fn(&Value) -> bool) -> Value {
    let mut cur = v.clone();
    let mut budget = 3000usize;
    let start = std::time::Instant::now();
    'outer: loop {
        for c in shrink(&cur) {
            if budget == 0 || start.elapsed().as_secs() > 8 {
                break 'outer;
            }
            budget -= 1;
            if fails(&c) {
                cur = c;
                continue 'outer;
            }
        }
        break;
    }
    cur
}

pub fn minimize_text(t: &str, fails: &dyn Fn(&str) -> bool) -> String {
    let start = std::time::Instant::now();
    let mut cur: Vec<String> = t.split_inclusive('\n').map(|s| s.to_string()).collect();
    let mut budget = 3000usize;
    // whole lines first
    'l: loop {
        for i in 0..cur.len() {
            if budget == 0 || start.elapsed().as_secs() > 8 {
                break 'l;
            }
            budget -= 1;
            let mut c = cur.clone();
            c.remove(i);
            if fails(&c.concat()) {
                cur = c;
                continue 'l;
            }
        }
        break;
    }
    let mut s: Vec<char> = cur.concat().chars().collect();
    'c: loop {
        for i in 0..s.len() {
            if budget == 0 || start.elapsed().as_secs() > 12 {
                break 'c;
            }
            budget -= 1;
            let mut c = s.clone();
            c.remove(i);
            let t: String = c.iter().collect();
            if fails(&t) {
                s = c;
                continue 'c;
            }
        }
        break;
    }
    s.into_iter().collect()
}

/// Wide documents: big tables, long inline arrays, many fields, long lists.
pub fn wide(r: &mut Rng) -> Value {
    let p = PROFILES[r.below(2)];
    let n = r.range(50, 400);
    match r.below(5) {
        0 => {
            let ks = keys(r, &p, 5);
            Value::Array((0..n).map(|_| Value::Object(ks.iter().map(|k| (k.clone(), primitive(r, &p))).collect())).collect())
        }
        1 => Value::Array((0..n).map(|_| primitive(r, &p)).collect()),
        2 => Value::Object((0..n).map(|i| (format!("k{i}"), primitive(r, &p))).collect()),
        3 => Value::Array((0..n / 4).map(|_| value(r, &p, 1)).collect()),
        _ => {
            // deep chain
            let mut v = primitive(r, &p);
            for i in 0..r.range(10, 60) {
                v = match r.below(4) {
                    0 => Value::Array(vec![v]),
                    1 => Value::Array(vec![primitive(r, &p), v]),
                    _ => {
                        let mut m = Map::new();
                        if r.chance(1, 3) {
                            m.insert(format!("s{i}"), primitive(r, &p));
                        }
                        m.insert(key(r, &p), v);
                        Value::Object(m)
                    }
                };
            }
            v
        }
    }
}

/// One to three edits of single characters or lines.
pub fn edit(r: &mut Rng, text: &str) -> String {
    let mut t: Vec<char> = text.chars().collect();
    for _ in 0..r.range(1, 3) {
        if t.is_empty() {
            break;
        }
        let i = r.below(t.len());
        match r.below(4) {
            0 => {
                t.remove(i);
            }
            1 => t[i] = *r.pick(&['0', '1', '-', '"', ':', ',', ' ', 'x', '[', ']', '\n', 'é']),
            2 => t.insert(i, *r.pick(&['0', '1', '-', '"', ':', ',', ' ', 'x', '\\', '\n', '|'])),
            _ => {
                // drop or repeat a line
                let text: String = t.iter().collect();
                let mut l: Vec<&str> = text.split('\n').collect();
                let j = r.below(l.len());
                if r.chance(1, 2) {
                    l.remove(j);
                } else {
                    l.insert(j, l[j]);
                }
                t = l.join("\n").chars().collect();
            }
        }
    }
    t.into_iter().collect()
}

/// Things that turn up at the beginning or the end of files, and that tools like to strip.
pub fn odd_ends(r: &mut Rng, text: &mut String) {
    const ODD: &[&str] = &["\u{feff}", "\u{feff}\u{feff}", "\0", "\u{1a}", "\r", "\r\n", "\n", "\n\n", " ", "  ", "\t", "\u{a0}", "\u{85}", "\u{2028}", "\u{c}", "#!toon\n", "---\n", "# x\n", "// x\n", "\u{200b}", ";", ","];
    for _ in 0..r.range(1, 2) {
        let x = *r.pick(ODD);
        if r.chance(1, 2) {
            text.insert_str(0, x);
        } else {
            text.push_str(x);
        }
    }
}

/// A size beyond the ones small tests use: powers of two and their neighbours, round numbers, and
/// sizes in between.
pub fn big_size(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(8) {
        0..=3 => {
            let p = 1usize << r.range(6, 17);
            p - 1 + r.below(3)
        }
        4 => *r.pick(&[100, 150, 200, 500, 1000, 2000, 5000, 10_000, 50_000, 100_000]) + r.below(2),
        _ => {
            let b = r.range(6, 13);
            (1 << b) + r.below(1 << b)
        }
    };
    if n <= max {
        n
    } else {
        max / 2 + r.below(max / 2)
    }
}

fn visit(v: &mut Value, f: &mut dyn FnMut(&mut Value)) {
    f(v);
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| visit(x, f)),
        Value::Object(m) => m.values_mut().for_each(|x| visit(x, f)),
        _ => {}
    }
}

/// Some value below `v` for which `want` holds gets changed by `change`; false if there is none.
fn change_one(r: &mut Rng, v: &mut Value, want: &dyn Fn(&Value) -> bool, change: &mut dyn FnMut(&mut Value)) -> bool {
    let mut n = 0;
    visit(v, &mut |x| n += want(x) as usize);
    if n == 0 {
        return false;
    }
    let mut k = r.below(n) as isize;
    visit(v, &mut |x| {
        if k >= 0 && want(x) {
            if k == 0 {
                change(x);
            }
            k -= 1;
        }
    });
    true
}

pub fn pad_text(r: &mut Rng, s: &str, n: usize) -> String {
    let fill = *r.pick(&["x", "x", "a", "word ", "é", "日", "😀", "_", "k.", "7", "\\", "\"", "\n", ", ", "|"]);
    let pad: String = fill.repeat(n / fill.len() + 1);
    let pad: String = match r.below(4) {
        0 => pad,
        // The filling ends in a plain letter, so that only the end of the whole is what it was
        _ => format!("a{}z", pad.trim_end()),
    };
    match r.below(4) {
        0 => format!("{pad}{s}"),
        1 => format!("{s}{pad}"),
        _ => {
            let i = s.char_indices().map(|(i, _)| i).nth(r.below(s.chars().count() + 1)).unwrap_or(s.len());
            format!("{}{pad}{}", &s[..i], &s[i..])
        }
    }
}

pub fn pad_object(r: &mut Rng, m: &mut Map<String, Value>, n: usize, pool: &[Value]) {
    let old: Vec<(String, Value)> = std::mem::take(m).into_iter().collect();
    // Where the new members stand: before, after, or between any two
    let at = match r.below(4) {
        0 => 0,
        1 | 2 => old.len(),
        _ => r.below(old.len() + 1),
    };
    for (i, (k, v)) in old.iter().enumerate() {
        if i == at {
            for j in 0..n {
                m.insert(format!("pad{j}"), pool[j % pool.len()].clone());
            }
        }
        m.insert(k.clone(), v.clone());
    }
    if at >= old.len() {
        for j in 0..n {
            m.insert(format!("pad{j}"), pool[j % pool.len()].clone());
        }
    }
}

/// Blow up one part of a value: one array, object, table, string or key gets very long.
/// Everything else stays what it was, on both sides of the large part.
pub fn enlarge(r: &mut Rng, v: &mut Value) -> &'static str {
    for _ in 0..6 {
        let mut w = v.clone();
        let kind = enlarge_once(r, &mut w);
        let (mut nodes, mut bytes) = (0, 0);
        visit(&mut w, &mut |x| {
            nodes += 1;
            bytes += match x {
                Value::String(s) => s.len(),
                Value::Object(m) => m.keys().map(|k| k.len()).sum(),
                _ => 0,
            };
        });
        if nodes < 150_000 && bytes < 3_500_000 {
            *v = w;
            return kind;
        }
    }
    "nothing"
}

fn enlarge_once(r: &mut Rng, v: &mut Value) -> &'static str {
    let p = PROFILES[r.below(2)];
    let mut pool: Vec<Value> = (0..r.range(1, 6)).map(|_| primitive(r, &p)).collect();
    let mut kind = r.below(10);
    for _ in 0..4 {
        let mut q = r.clone();
        let done = match kind {
            // Elements
            0..=2 => {
                let n = match r.below(8) {
                    0 => big_size(r, 140_000),
                    1 | 2 => *r.pick(&[32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000, 100_001, 131_072]),
                    _ => big_size(r, 5000),
                };
                change_one(r, v, &|x| x.is_array(), &mut |x| {
                    let a = x.as_array_mut().unwrap();
                    let old = std::mem::take(a);
                    if q.chance(2, 3) && old.len() > 1 {
                        // More of what is there already
                        let keep = q.below(old.len());
                        let per = old.len() - keep;
                        let n = n.min(70_000.max(400_000 / per.max(1)));
                        a.extend(old[..keep].iter().cloned());
                        while a.len() < n {
                            a.extend(old[keep..].iter().cloned());
                        }
                    } else if !old.is_empty() && q.chance(1, 2) {
                        let at = q.below(old.len() + 1);
                        a.extend(old[..at].iter().cloned());
                        a.extend((0..n).map(|i| pool[i % pool.len()].clone()));
                        a.extend(old[at..].iter().cloned());
                    } else {
                        a.extend((0..n).map(|i| pool[i % pool.len()].clone()));
                        a.extend(old);
                    }
                })
            }
            // Members
            3 | 4 => {
                let n = big_size(r, 1500);
                if q.chance(1, 4) {
                    pool.push(Value::Array(vec![Value::Null]));
                }
                change_one(r, v, &|x| x.is_object(), &mut |x| pad_object(&mut q, x.as_object_mut().unwrap(), n, &pool))
            }
            // Columns
            5 => {
                let n = big_size(r, 1500);
                change_one(r, v, &|x| x.as_array().is_some_and(|a| !a.is_empty() && a.iter().all(|y| y.is_object())), &mut |x| {
                    let at = q.clone();
                    for y in x.as_array_mut().unwrap() {
                        pad_object(&mut at.clone(), y.as_object_mut().unwrap(), n, &pool);
                    }
                })
            }
            // Text
            6 | 7 => {
                let n = if r.chance(1, 6) { r.range(1, 3) << 20 } else { big_size(r, 140_000) };
                change_one(r, v, &|x| x.is_string(), &mut |x| {
                    *x = Value::String(pad_text(&mut q, x.as_str().unwrap(), n));
                })
            }
            // A key
            _ => {
                let n = if r.chance(1, 8) { big_size(r, 140_000) } else { big_size(r, 3000) };
                change_one(r, v, &|x| x.as_object().is_some_and(|m| !m.is_empty()), &mut |x| {
                    let m = x.as_object_mut().unwrap();
                    let i = q.below(m.len());
                    let k = m.keys().nth(i).unwrap().clone();
                    let nk = pad_text(&mut q, &k, n);
                    if !m.contains_key(&nk) {
                        let old = std::mem::take(m);
                        for (j, (k, v)) in old.into_iter().enumerate() {
                            m.insert(if i == j { nk.clone() } else { k }, v);
                        }
                    }
                })
            }
        };
        if done {
            return ["elements", "elements", "elements", "members", "members", "columns", "text", "text", "key", "key"][kind];
        }
        kind = r.below(10);
    }
    "nothing"
}

/// Many more members in the object itself or in some object below it.
pub fn crowd(r: &mut Rng, v: &mut Value, max: usize) {
    let n = big_size(r, max);
    let p = PROFILES[r.below(2)];
    let mut pool: Vec<Value> = (0..r.range(1, 4)).map(|_| primitive(r, &p)).collect();
    if r.chance(1, 4) {
        pool.push(Value::Array(vec![]));
    }
    let mut q = r.clone();
    match v {
        Value::Object(m) if r.chance(1, 2) => pad_object(&mut q, m, n, &pool),
        _ => {
            change_one(r, v, &|x| x.is_object(), &mut |x| pad_object(&mut q, x.as_object_mut().unwrap(), n, &pool));
        }
    }
}
