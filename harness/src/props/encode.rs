//! C01 round trip, C02 reference text, C03 numbers, C04 strings, C21 output structure.

use crate::core::*;
use crate::rng::Rng;
use crate::{eq, gen, model};
use serde::Serialize;
use serde_json::{json, Map, Number, Value};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        quick: 400_000,
        thorough: 6_000_000,
        rule: "random JSON documents (profiles from tame to hostile strings/keys/numbers, tables, near-tables, nested arrays, wide and deep shapes), each with a random delimiter, indent and strictness; encoded through every entry point and decoded again in both modes. Non-trivial: at least 3 nodes or a root primitive; distinct by document text",
        run: c01,
    },
    Prop {
        id: "C02",
        quick: 400_000,
        thorough: 6_000_000,
        rule: "random JSON documents as for C01; the output is compared byte for byte with an independently written TOON 3.0 reference encoder. Non-trivial: at least 2 output lines or an inline array; distinct by output text",
        run: c02,
    },
    Prop {
        id: "C03",
        quick: 250_000,
        thorough: 5_000_000,
        rule: "numbers (random bit patterns, powers of ten and two, decimal boundaries, integer limits, f32, i8..u64) in every position of a document and as typed fields; number spellings for the decoder; non-finite floats. Non-trivial: every number or spelling that is not a plain integer below 1000; distinct by number and position",
        run: c03,
    },
    Prop {
        id: "C04",
        quick: 200_000,
        thorough: 4_000_000,
        rule: "strings: exhaustively all of length 1 and 2 over 44 structurally relevant characters and a list of hostile tokens, then random hostile strings; each placed at every position (root, field, key, inline element, list item, table cell, column name, nested first field) under each delimiter. Non-trivial: every string; distinct by string and delimiter",
        run: c04,
    },
    Prop {
        id: "C21",
        quick: 300_000,
        thorough: 5_000_000,
        rule: "random JSON documents under random delimiter, indent and key folding; an independent line-oriented monitor checks the output. Non-trivial: outputs with at least 2 lines; distinct by output text",
        run: c21,
    },
];

/// The entry points that encode a serializable value.
pub fn all_encoders<T: Serialize>(v: &T, o: &Options) -> Vec<(&'static str, Result<String, Fail>)> {
    fn text(b: Vec<u8>) -> Result<String, toon_rs::Error> {
        String::from_utf8(b).map_err(|e| toon_rs::Error::Message(format!("output is not UTF-8: {e}")))
    }
    vec![
        ("encode_to_string", encode(v, o)),
        (
            "encode_to_writer",
            guarded(|| {
                let mut b = Vec::new();
                toon_rs::encode_to_writer(&mut b, v, o)?;
                text(b)
            }),
        ),
        ("ser::to_string", guarded(|| toon_rs::ser::to_string(v, o))),
        ("ser::to_string_streaming", guarded(|| toon_rs::ser::to_string_streaming(v, o))),
        (
            "ser::to_writer",
            guarded(|| {
                let mut b = Vec::new();
                toon_rs::ser::to_writer(&mut b, v, o)?;
                text(b)
            }),
        ),
        (
            "ser::to_writer_streaming",
            guarded(|| {
                let mut b = Vec::new();
                toon_rs::ser::to_writer_streaming(&mut b, v, o)?;
                text(b)
            }),
        ),
    ]
}

/// The entry points that decode to a value.
pub fn all_decoders(s: &str, o: &Options) -> Vec<(&'static str, Result<Value, Fail>)> {
    vec![
        ("decode_from_str", decode_value(s, o)),
        ("decode_from_reader", guarded(|| toon_rs::decode_from_reader(s.as_bytes(), o))),
        ("de::from_str", guarded(|| toon_rs::de::from_str(s, o))),
    ]
}

fn fail(v: &Value, o: &Options, what: String) -> Verdict {
    violation(what, json!({"value": v, "options": opts_json(o)}))
}

/// Check `test` on `v`; on failure shrink and report.
pub fn check_value(v: &Value, o: &Options, test: &dyn Fn(&Value) -> Result<(), String>) -> Verdict {
    if test(v).is_ok() {
        return Ok(());
    }
    let m = gen::minimize(v, &|x| test(x).is_err());
    let what = test(&m).unwrap_err();
    fail(&m, o, what)
}

/// A document, now and then a big one.
pub fn doc(r: &mut Rng) -> Value {
    doc_some_large(r, 1500)
}

/// One in `rare` is enlarged.
pub fn doc_some_large(r: &mut Rng, rare: usize) -> Value {
    if r.chance(1, 400) {
        return gen::wide(r);
    }
    let p = gen::profile(r);
    let mut v = gen::document(r, &p);
    if r.chance(1, rare) {
        gen::enlarge(r, &mut v);
    }
    v
}

fn round_trip(v: &Value, o: &Options, every: bool) -> Result<(), String> {
    let encs = if every { all_encoders(v, o) } else { vec![("encode_to_string", encode(v, o))] };
    let mut first: Option<String> = None;
    for (name, r) in encs {
        let t = r.map_err(|e| format!("{name}: {e}"))?;
        match &first {
            Some(f) if *f == t => continue,
            _ => {}
        }
        for strict in [o.strict, !o.strict] {
            let d = Options { strict, ..o.clone() };
            let decs = if every { all_decoders(&t, &d) } else { vec![("decode_from_str", decode_value(&t, &d))] };
            for (dn, r) in decs {
                let back = r.map_err(|e| format!("{name} gave {t:?}, which {dn} (strict {strict}) rejects: {e}"))?;
                if let Some(at) = eq::diff_rows(v, &back) {
                    return Err(format!("{name} gave {t:?}, which {dn} (strict {strict}) reads as {back} (differs at {at})"));
                }
                let again = encode(&back, o).map_err(|e| format!("decoded value does not encode: {e}"))?;
                if again != t {
                    return Err(format!("{t:?} decodes and encodes again to {again:?}"));
                }
            }
        }
        first = Some(t);
    }
    Ok(())
}

fn c01(c: &mut Case) -> Verdict {
    let v = doc(&mut c.rng);
    let o = plain_options(&mut c.rng);
    let every = c.no % 16 == 0;
    let (n, d) = eq::size(&v);
    c.obs.add("nodes", n as u64);
    c.obs.max("max_depth", d as u64);
    c.obs.max("max_nodes", n as u64);
    c.obs.count(&format!("indent_{}", o.indent));
    c.obs.count(&format!("delimiter_{:?}", o.delimiter));
    if n >= 3 || d == 0 {
        c.obs.nontrivial(v.to_string().as_bytes());
    }
    if c.no % 1000 == 17 {
        c.obs.sample(|| json!({"value": v, "options": opts_json(&o)}));
    }
    check_value(&v, &o, &|x| round_trip(x, &o, every))
}

fn c02(c: &mut Case) -> Verdict {
    let v = doc_some_large(&mut c.rng, 400);
    let o = plain_options(&mut c.rng);
    let every = c.no % 16 == 0;
    let expected = model::encode(&v, &o);
    let lines = expected.lines().count() as u64;
    c.obs.add("lines", lines);
    c.obs.max("max_lines", lines);
    c.obs.max("max_bytes", expected.len() as u64);
    c.obs.add("documents of over 64 KiB", (expected.len() > 65_536) as u64);
    if expected.contains('\n') || expected.contains("]: ") {
        c.obs.nontrivial(expected.as_bytes());
    }
    if c.no % 1000 == 17 {
        c.obs.sample(|| json!({"value": v, "text": expected}));
    }
    check_value(&v, &o, &|x| {
        let want = model::encode(x, &o);
        let got = if every { all_encoders(x, &o) } else { vec![("encode_to_string", encode(x, &o))] };
        for (name, r) in got {
            let t = r.map_err(|e| format!("{name}: {e}"))?;
            if t != want {
                return Err(format!("{name} wrote {t:?}, expected {want:?}"));
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C03

#[derive(Serialize)]
struct Typed {
    a: f64,
    b: f32,
    c: Option<f64>,
    d: Vec<f32>,
    e: (f64, i64),
    f: Vec<Inner>,
    g: u64,
    h: i8,
    i: u16,
    j: i32,
}
#[derive(Serialize)]
struct Inner {
    x: f64,
    y: f32,
}

/// Put a primitive at every kind of position. Each entry: (where, document, path to the value).
pub fn positions(p: &Value) -> Vec<(&'static str, Value, &'static str)> {
    vec![
        ("root", p.clone(), ""),
        ("field", json!({"a": p, "z": 1}), "/a"),
        ("last field", json!({"z": 1, "a": p}), "/a"),
        ("nested field", json!({"o": {"p": {"a": p}}, "z": true}), "/o/p/a"),
        ("inline first", json!({"l": [p, 1]}), "/l/0"),
        ("inline last", json!({"l": [1, p]}), "/l/1"),
        ("inline only", json!({"l": [p]}), "/l/0"),
        ("root inline", json!([p, "x"]), "/0"),
        ("root inline only", json!([p]), "/0"),
        ("list item", json!({"l": [p, {"q": {}}]}), "/l/0"),
        ("root list item", json!([[], p]), "/1"),
        ("first field of list item", json!([{"a": p, "b": []}]), "/0/a"),
        ("later field of list item", json!([{"b": [], "a": p}]), "/0/a"),
        ("array in list", json!([[p], [1, p]]), "/1/1"),
        ("table cell", json!({"t": [{"a": p, "b": 1}, {"a": 2, "b": p}]}), "/t/0/a"),
        ("last table cell", json!({"t": [{"a": 1, "b": p}]}), "/t/0/b"),
        ("single column", json!({"t": [{"a": p}, {"a": p}]}), "/t/1/a"),
        ("root table cell", json!([{"a": p, "b": 2}]), "/0/a"),
        ("table in list item", json!([{"t": [{"a": p, "b": 1}], "u": p}]), "/0/t/0/a"),
        ("deep list", json!({"l": [[[p, {}]]]}), "/l/0/0/0"),
    ]
}

fn canonical(s: &str) -> bool {
    let b = s.strip_prefix('-').unwrap_or(s);
    let (i, f) = match b.split_once('.') {
        Some((i, f)) => (i, Some(f)),
        None => (b, None),
    };
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
    digits(i) && (i == "0" || !i.starts_with('0')) && f.is_none_or(|f| digits(f) && !f.ends_with('0')) && s != "-0"
}

fn c03(c: &mut Case) -> Verdict {
    match c.no % 4 {
        0 | 1 => c03_values(c),
        2 => c03_typed(c),
        _ => c03_spellings(c),
    }
}

fn c03_values(c: &mut Case) -> Verdict {
    let n = gen::number(&mut c.rng);
    let v = Value::Number(n.clone());
    let o = plain_options(&mut c.rng);
    c.obs.nontrivial(n.to_string().as_bytes());
    c.obs.count(if n.is_f64() { "floats" } else { "integers" });
    let root = match encode(&v, &o) {
        Ok(t) => t,
        Err(e) => return violation(e.to_string(), json!({"number": n})),
    };
    if !canonical(&root) || root != model::number(&n) {
        return violation(format!("{n} is written as {root:?}, canonical form is {:?}", model::number(&n)), json!({"number": n}));
    }
    if c.no % 500 == 0 {
        c.obs.sample(|| json!({"number": n, "text": root}));
    }
    for (name, d, path) in positions(&v) {
        let t = match encode(&d, &o) {
            Ok(t) => t,
            Err(e) => return violation(e.to_string(), json!({"value": d, "options": opts_json(&o)})),
        };
        let want = model::encode(&d, &o);
        if t != want {
            return violation(format!("{n} at position {name}: wrote {t:?}, expected {want:?}"), json!({"value": d, "options": opts_json(&o)}));
        }
        for strict in [true, false] {
            let back = decode_value(&t, &Options { strict, ..o.clone() });
            let got = back.as_ref().ok().and_then(|b| b.pointer(path));
            let ok = match got {
                Some(Value::Number(m)) => eq::num_eq(m, &n),
                _ => false,
            };
            if !ok {
                return violation(format!("{n} at position {name} (strict {strict}): {t:?} reads back as {back:?}"), json!({"value": d, "options": opts_json(&o)}));
            }
        }
        c.obs.count("positions");
    }
    Ok(())
}

fn any_float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        _ => gen::float(r),
    }
}

fn fl(f: f64) -> Value {
    Number::from_f64(f).map(Value::Number).unwrap_or(Value::Null)
}

fn c03_typed(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let f = |r: &mut Rng| any_float(r);
    let g = |r: &mut Rng| any_float(r) as f32;
    let t = Typed {
        a: f(r),
        b: g(r),
        c: if r.chance(1, 3) { None } else { Some(f(r)) },
        d: (0..r.below(4)).map(|_| g(r)).collect(),
        e: (f(r), r.next() as i64),
        f: (0..r.below(4)).map(|_| Inner { x: f(r), y: g(r) }).collect(),
        g: r.next() >> r.below(64),
        h: r.next() as i8,
        i: r.next() as u16,
        j: r.next() as i32,
    };
    let o = plain_options(r);
    let w = |x: f32| fl(x as f64);
    let image = json!({
        "a": fl(t.a), "b": w(t.b), "c": t.c.map(fl), "d": t.d.iter().map(|x| w(*x)).collect::<Vec<_>>(),
        "e": [fl(t.e.0), t.e.1],
        "f": t.f.iter().map(|i| json!({"x": fl(i.x), "y": w(i.y)})).collect::<Vec<_>>(),
        "g": t.g, "h": t.h, "i": t.i, "j": t.j,
    });
    let want = model::encode(&image, &o);
    c.obs.nontrivial(want.as_bytes());
    c.obs.count("typed_values");
    for (name, got) in all_encoders(&t, &o) {
        match got {
            Ok(s) if s == want => {}
            other => {
                return violation(
                    format!("{name} of typed numbers gave {other:?}, expected {want:?}"),
                    json!({"image": image, "options": opts_json(&o)}),
                )
            }
        }
    }
    Ok(())
}

/// A number in one of its many spellings, with the value it denotes.
pub fn spelling(r: &mut Rng) -> (String, f64) {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('-');
    }
    let digits = |r: &mut Rng, n: usize, s: &mut String| {
        let zeros = n > 30 && r.chance(1, 2);
        for _ in 0..n {
            s.push(if zeros { '0' } else { (b'0' + r.below(10) as u8) as char });
        }
    };
    // Some are far longer than any number needs to be
    let long = r.chance(1, 60);
    let many = |r: &mut Rng| if r.chance(1, 10) { crate::gen::big_size(r, 20_000) } else { crate::gen::big_size(r, 1200) };
    if r.chance(1, 4) {
        s.push('0');
    } else {
        s.push((b'1' + r.below(9) as u8) as char);
        let n = if long && r.chance(1, 3) { r.range(20, 300) } else if r.chance(1, 8) { r.range(8, 24) } else { r.below(5) };
        digits(r, n, &mut s);
    }
    if long || r.chance(1, 2) {
        s.push('.');
        let n = if long { many(r) } else if r.chance(1, 8) { r.range(8, 24) } else { r.range(1, 5) };
        digits(r, n, &mut s);
        if r.chance(1, 3) {
            s.push('0');
        }
    }
    if r.chance(1, 2) {
        s.push(*r.pick(&['e', 'E']));
        s.push_str(r.pick(&["", "+", "-"]));
        if long && r.chance(1, 2) {
            let n = many(r);
            s.push_str(&"0".repeat(n));
        }
        let n = r.range(1, 2);
        digits(r, n, &mut s);
    }
    let f = s.parse::<f64>().expect("grammar");
    (s, f)
}

/// Text that must stay a string although it looks like a number.
const NOT_NUMBERS: &[&str] = &[
    "00", "01", "-01", "007", "00.5", "05.5", "-00", "-007", "01e5", "1-1", "1e5e5", "0x10", "1_000", "12abc", "1.2.3", "1e", "1e+", "1e-", "-", "--1",
    "nan", "NaN", "inf", "-inf", "Infinity", "-Infinity", "infinity", "True", "FALSE", "Null", "NULL", "١", "1 2", "1e5.5", "e5", "-e5", "1ee5", "2024-01-02", "1.2.3.4", "e", "E",
];

fn c03_spellings(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let bad = r.chance(1, 4);
    let (tok, f) = if bad { (r.pick(NOT_NUMBERS).to_string(), 0.0) } else { spelling(r) };
    if !bad && !f.is_finite() {
        return Ok(());
    }
    let tok = if bad && r.chance(1, 3) && tok.chars().all(|c| c.is_ascii_digit()) { format!("{tok}{}", r.below(1000)) } else { tok };
    c.obs.nontrivial(tok.as_bytes());
    c.obs.count(if bad { "non_number_tokens" } else { "number_tokens" });
    let mut docs = vec![
        (tok.clone(), ""),
        (format!("a: {tok}"), "/a"),
        (format!("a: {tok}\nb: 1"), "/a"),
        (format!("a[2]: {tok},1"), "/a/0"),
        (format!("a[2]: 1,{tok}"), "/a/1"),
        (format!("a[2|]: x | {tok}"), "/a/1"),
        (format!("[1]: {tok}"), "/0"),
        (format!("a[1]:\n  - {tok}"), "/a/0"),
        (format!("a[1]{{x,y}}:\n  {tok},2"), "/a/0/x"),
        (format!("a[1\t]{{x\ty}}:\n  1\t{tok}"), "/a/0/y"),
        (format!("[1]:\n  - a: {tok}\n    b: 2"), "/0/a"),
        (format!("[1]:\n  - b: 2\n    a: {tok}"), "/0/a"),
    ];
    if tok == "-" {
        docs.remove(0); // a hyphen alone on a line is a list item
        docs.retain(|d| !d.0.contains("- -"));
    }
    for (d, path) in docs {
        for strict in [true, false] {
            let o = Options { strict, ..Options::default() };
            let got = decode_value(&d, &o);
            let ok = match got.as_ref().ok().and_then(|v| v.pointer(path)) {
                Some(Value::Number(n)) if !bad => match (tok.parse::<i64>(), tok.parse::<u64>()) {
                    (Ok(i), _) => n.as_i64() == Some(i),
                    (_, Ok(u)) => n.as_u64() == Some(u),
                    _ => n.as_f64() == Some(f),
                },
                Some(Value::String(s)) if bad => *s == tok,
                _ => false,
            };
            if !ok {
                return violation(format!("{d:?} (strict {strict}) reads as {got:?}; the token {tok:?} denotes {}", if bad { "a string".into() } else { f.to_string() }), json!({"text": d}));
            }
            c.obs.count("decoded_spellings");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

const STRUCT_CHARS: &[char] = &[
    '"', '\\', ',', '|', '\t', ':', '[', ']', '{', '}', '-', '#', '@', '.', '0', '1', 'e', 'E', '+', 'a', 'n', 't', 'f', 'u', '_', ' ', '\n', '\r', 'é', '日', '😀',
    '\u{200b}', '\u{a0}', '\u{0}', '\u{1f}', '\u{7f}', '/', '\'', '\u{b}', '\u{85}', '\u{2028}', '\u{feff}', '\u{8}', '\u{c}',
];

/// The C04 strings in order: exhaustive short ones, hostile tokens, then random.
fn c04_string(c: &mut Case) -> String {
    let n = STRUCT_CHARS.len() as u64;
    let mut i = c.no;
    if i < n {
        c.obs.count("exhaustive_1");
        return STRUCT_CHARS[i as usize].to_string();
    }
    i -= n;
    if i < n * n {
        c.obs.count("exhaustive_2");
        return [STRUCT_CHARS[(i / n) as usize], STRUCT_CHARS[(i % n) as usize]].iter().collect();
    }
    i -= n * n;
    if i < gen::HOSTILE.len() as u64 {
        c.obs.count("token_list");
        return gen::HOSTILE[i as usize].to_string();
    }
    if c.rng.chance(1, 300) {
        c.obs.count("long");
        let s = gen::hostile_string(&mut c.rng);
        let n = if c.rng.chance(1, 8) { gen::big_size(&mut c.rng, 140_000) } else { gen::big_size(&mut c.rng, 3000) };
        return gen::pad_text(&mut c.rng, &s, n);
    }
    c.obs.count("random");
    gen::hostile_string(&mut c.rng)
}

fn key_positions(k: &str) -> Vec<(&'static str, Value)> {
    let o = |k: &str, v: Value| -> Value { Value::Object(std::iter::once((k.to_string(), v)).collect()) };
    let two = |k: &str, v: Value, rest: Value| -> Value {
        let mut m = Map::new();
        m.insert(k.to_string(), v);
        if k != "zz" {
            m.insert("zz".into(), rest);
        }
        Value::Object(m)
    };
    vec![
        ("key of a scalar", o(k, json!(1))),
        ("key of a string", two(k, json!("x"), json!(2))),
        ("key of an object", two(k, json!({"a": 1}), json!(2))),
        ("key of an empty object", two(k, json!({}), json!(2))),
        ("key of an empty array", two(k, json!([]), json!(2))),
        ("key of an inline array", two(k, json!([1, "b"]), json!(2))),
        ("key of a list", two(k, json!([1, {"a": {}}]), json!(2))),
        ("key of a table", two(k, json!([{"a": 1, "b": 2}]), json!(2))),
        ("column name", json!({"t": [two(k, json!(1), json!(2)), two(k, json!("x"), json!(null))]})),
        ("only column name", json!([o(k, json!(1))])),
        ("first key of a list item", json!([two(k, json!(1), json!([]))])),
        ("later key of a list item", json!([two("zz", json!([]), json!(1)), o(k, json!({}))])),
        ("first key of a list item with an array", json!([two(k, json!([1, 2]), json!(3))])),
        ("first key of a list item with a table", json!([two(k, json!([{"a": 1}]), json!(3))])),
        ("first key of a list item with a list", json!([two(k, json!([[]]), json!(3))])),
        ("first key of a list item with an object", json!([two(k, json!({"a": 1}), json!(3))])),
        ("nested key", json!({"o": two(k, json!({"p": 1}), json!([]))})),
    ]
}

fn c04(c: &mut Case) -> Verdict {
    let s = c04_string(c);
    let delim = DELIMS[c.rng.below(3)];
    let all_delims = c.no < 2500 || c.no % 8 == 0;
    for d in if all_delims { DELIMS.to_vec() } else { vec![delim] } {
        c.obs.nontrivial(format!("{d:?}{s}").as_bytes());
        let o = Options { delimiter: d, indent: *c.rng.pick(&[2, 2, 4, 3, 1]), ..Options::default() };
        if c.no % 5000 == 3000 {
            c.obs.sample(|| json!({"string": s, "text": model::string(&s, delim_char(d))}));
        }
        let v = Value::String(s.clone());
        let docs = positions(&v).into_iter().map(|(n, d, p)| (n, d, Some(p))).chain(key_positions(&s).into_iter().map(|(n, d)| (n, d, None)));
        for (name, doc, path) in docs {
            c.obs.count("placements");
            let input = || json!({"string": s, "value": doc, "options": opts_json(&o)});
            let t = match encode(&doc, &o) {
                Ok(t) => t,
                Err(e) => return violation(format!("{s:?} as {name}: {e}"), input()),
            };
            if let Some(ch) = t.chars().find(|ch| *ch != '\n' && *ch != '\t' && ((*ch as u32) < 0x20 || *ch as u32 == 0x7f)) {
                return violation(format!("{s:?} as {name}: raw control character {ch:?} in {t:?}"), input());
            }
            for strict in [true, false] {
                let back = decode_value(&t, &Options { strict, ..o.clone() });
                let ok = match (&back, path) {
                    (Ok(b), Some(p)) => b.pointer(p) == Some(&v) && eq::diff(&doc, b).is_none(),
                    (Ok(b), None) => eq::diff(&doc, b).is_none(),
                    _ => false,
                };
                if !ok {
                    return violation(format!("{s:?} as {name} (strict {strict}): {t:?} reads back as {back:?}"), input());
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn c21(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let v = if r.chance(1, 3) {
        let p = gen::profile(r);
        gen::foldable(r, &p, 0)
    } else {
        doc(r)
    };
    let mut o = plain_options(r);
    if r.chance(1, 3) {
        o.key_folding = KeyFolding::Safe;
        o.flatten_depth = *r.pick(&[None, Some(0), Some(1), Some(2), Some(3)]);
    }
    let t = match encode(&v, &o) {
        Ok(t) => t,
        Err(e) => return fail(&v, &o, e.to_string()),
    };
    let lines = t.split('\n').count();
    c.obs.add("lines", lines as u64);
    if lines >= 2 {
        c.obs.nontrivial(t.as_bytes());
    }
    if c.no % 1000 == 17 {
        c.obs.sample(|| json!({"value": v, "text": t}));
    }
    let mut seen = StructureCounts::default();
    let res = structure(&v, &t, &o, &mut seen);
    c.obs.add("arrays_checked", seen.arrays);
    c.obs.add("rows_checked", seen.rows);
    c.obs.add("items_checked", seen.items);
    c.obs.add("quoted_tokens", seen.quoted);
    if res.is_err() {
        return check_value(&v, &o, &|x| {
            let t = encode(x, &o).map_err(|e| e.to_string())?;
            structure(x, &t, &o, &mut StructureCounts::default()).map_err(|e| format!("{e}; output {t:?}"))
        });
    }
    Ok(())
}

#[derive(Default)]
pub struct StructureCounts {
    arrays: u64,
    rows: u64,
    items: u64,
    quoted: u64,
}

struct Header {
    len: usize,
    delim: char,
    fields: Option<usize>,
    inline: Option<String>,
}

/// Byte offsets outside quotes.
fn outside(s: &str) -> Result<Vec<(usize, char)>, String> {
    let mut out = vec![];
    let mut it = s.char_indices();
    while let Some((i, c)) = it.next() {
        if c == '"' {
            loop {
                match it.next() {
                    Some((_, '\\')) => match it.next() {
                        Some((_, 'n' | 'r' | 't' | '"' | '\\' | 'u')) => {}
                        e => return Err(format!("escape {e:?}")),
                    },
                    Some((_, '"')) => break,
                    Some(_) => {}
                    None => return Err("quote left open".into()),
                }
            }
        } else {
            out.push((i, c));
        }
    }
    Ok(out)
}

fn split_cells(s: &str, delim: char) -> Result<Vec<String>, String> {
    let mut cells = vec![];
    let mut start = 0;
    for (i, c) in outside(s)? {
        if c == delim {
            cells.push(s[start..i].to_string());
            start = i + c.len_utf8();
        }
    }
    cells.push(s[start..].to_string());
    Ok(cells)
}

/// Parse `prefix[N<delim>]{...}: rest` if the line (without list marker) is an array header.
fn header(s: &str) -> Result<Option<Header>, String> {
    let out = outside(s)?;
    let Some(&(colon, _)) = out.iter().find(|(_, c)| *c == ':') else { return Ok(None) };
    let Some(&(open, _)) = out.iter().find(|(i, c)| *c == '[' && *i < colon) else { return Ok(None) };
    let Some(&(close, _)) = out.iter().find(|(i, c)| *c == ']' && *i > open && *i < colon) else { return Err("bracket left open".into()) };
    let inner = &s[open + 1..close];
    let digits: String = inner.chars().take_while(|c| c.is_ascii_digit()).collect();
    let mark = &inner[digits.len()..];
    let delim = match mark {
        "" => ',',
        "|" => '|',
        "\t" => '\t',
        m => return Err(format!("array header delimiter {m:?}")),
    };
    if digits.is_empty() || (digits.len() > 1 && digits.starts_with('0')) {
        return Err(format!("array length {digits:?}"));
    }
    let mid = &s[close + 1..colon];
    let fields = if mid.is_empty() {
        None
    } else {
        let f = mid.strip_prefix('{').and_then(|m| m.strip_suffix('}')).ok_or(format!("text {mid:?} between length and colon"))?;
        Some(split_cells(f, delim)?.len())
    };
    let rest = &s[colon + 1..];
    let inline = if rest.is_empty() { None } else { Some(rest.strip_prefix(' ').ok_or("no space after the colon")?.to_string()) };
    Ok(Some(Header { len: digits.parse().map_err(|_| "array length")?, delim, fields, inline }))
}

/// The structural rules an output must satisfy whatever it encodes.
pub fn structure(v: &Value, text: &str, o: &Options, n: &mut StructureCounts) -> Result<(), String> {
    if text.ends_with('\n') {
        return Err("trailing newline".into());
    }
    if text.contains('\r') {
        return Err("carriage return".into());
    }
    if text.is_empty() {
        return if v.as_object().is_some_and(|m| m.is_empty()) { Ok(()) } else { Err("empty output".into()) };
    }
    if model::is_prim(v) {
        if text.contains('\n') {
            return Err("a primitive on several lines".into());
        }
        outside(text)?;
        return Ok(());
    }
    let want = delim_char(o.delimiter);
    let mut lines: Vec<(usize, &str)> = vec![];
    for (i, l) in text.split('\n').enumerate() {
        let body = l.trim_start_matches(' ');
        let ind = l.len() - body.len();
        if body.is_empty() {
            return Err(format!("line {} is blank", i + 1));
        }
        if ind % o.indent != 0 {
            return Err(format!("line {} is indented by {ind}", i + 1));
        }
        if l.ends_with(' ') {
            return Err(format!("line {} ends with a space", i + 1));
        }
        if body.starts_with('\t') {
            return Err(format!("line {} has a tab in its indentation", i + 1));
        }
        if body.chars().any(|c| ((c as u32) < 0x20 && !(c == '\t' && want == '\t')) || c as u32 == 0x7f) {
            return Err(format!("line {} has a raw control character", i + 1));
        }
        n.quoted += outside(body).map(|out| (body.chars().count() != out.len()) as u64).map_err(|e| format!("line {}: {e}", i + 1))?;
        lines.push((ind / o.indent, body));
    }
    if lines[0].0 != 0 {
        return Err("the first line is indented".into());
    }
    for (i, w) in lines.windows(2).enumerate() {
        // A table or list below "- key[N]:" is two levels deeper than its hyphen
        let max = w[0].0 + if w[0].1.starts_with("- ") { 2 } else { 1 };
        if w[1].0 > max {
            return Err(format!("line {} is indented too deep", i + 2));
        }
    }
    // Every header against what follows it
    for i in 0..lines.len() {
        let (depth, body) = lines[i];
        // Table rows hold no unquoted colon and are skipped as non-headers
        let (item, rest) = match body.strip_prefix("- ") {
            Some(r) => (true, r),
            None => (false, body),
        };
        let Some(h) = header(rest).map_err(|e| format!("line {}: {e}", i + 1))? else { continue };
        n.arrays += 1;
        if h.delim != want {
            return Err(format!("line {} declares delimiter {:?}", i + 1, h.delim));
        }
        // Below "- key[N]:" the elements are two levels deeper, below "- [N]:" one
        let inner = depth + if item && !rest.starts_with('[') { 2 } else { 1 };
        let below: Vec<(usize, &str)> = lines[i + 1..].iter().take_while(|l| l.0 >= inner).copied().collect();
        match (&h.fields, &h.inline) {
            (Some(cols), None) => {
                let rows: Vec<&str> = below.iter().take_while(|l| l.0 == inner).map(|l| l.1).collect();
                if h.len == 0 || rows.len() != h.len || below.len() != rows.len() {
                    return Err(format!("line {} declares {} rows, {} follow", i + 1, h.len, rows.len()));
                }
                for r in &rows {
                    n.rows += 1;
                    let cells = split_cells(r, want)?;
                    if cells.len() != *cols || cells.iter().any(|x| x.is_empty()) {
                        return Err(format!("row {r:?} does not have {cols} cells"));
                    }
                    if outside(r)?.iter().any(|(_, ch)| *ch == ':') {
                        return Err(format!("row {r:?} holds an unquoted colon"));
                    }
                }
            }
            (None, Some(vals)) => {
                let cells = split_cells(vals, want)?;
                if cells.len() != h.len || cells.iter().any(|x| x.is_empty()) {
                    return Err(format!("line {} declares {} elements, has {}", i + 1, h.len, cells.len()));
                }
                if !below.is_empty() {
                    return Err(format!("lines nested below the inline array of line {}", i + 1));
                }
            }
            (None, None) => {
                let items = below.iter().filter(|l| l.0 == inner && (l.1 == "-" || l.1.starts_with("- "))).count();
                n.items += items as u64;
                if items != h.len || below.iter().any(|l| l.0 == inner && !(l.1 == "-" || l.1.starts_with("- "))) {
                    return Err(format!("line {} declares {} items, {items} follow", i + 1, h.len));
                }
            }
            (Some(_), Some(_)) => return Err(format!("line {}: columns and inline values", i + 1)),
        }
    }
    Ok(())
}
