//! C24: the public building blocks (scanner, indentation checks, parser, path expansion, value
//! encoder, text of single tokens and headers) agree with the functions at the top.

use super::encode::doc;
use crate::core::*;
use crate::docgen;
use crate::{eq, gen, model};
use serde::de::Deserialize;
use serde_json::{json, Map, Value};
use toon_rs::decode::scanner::{scan, LineKind};
use toon_rs::decode::{parser, path_expand, validation};
use toon_rs::encode::writer::LineWriter;
use toon_rs::encode::{encoders, normalize, primitives};
use toon_rs::value::{Number as Inner, Value as Internal};
use toon_rs::{ExpandPaths, KeyFolding};

pub static PROPS: &[Prop] = &[Prop {
    id: "C24",
    quick: 1_000_000,
    thorough: 12_000_000,
    rule: "documents (well formed, damaged, edited, or soups of fragments) through every public parsing function, the scanner and the indentation checks; random values through the value encoder at any depth, the field encoder, the table test, and the functions that write single tokens, keys and headers; each compared with the top-level function or with a reference. Non-trivial: texts of at least 2 lines and values of at least 2 nodes; distinct by text",
    run: c24,
}];

fn json_of(v: &Internal) -> Value {
    match v {
        Internal::Null => Value::Null,
        Internal::Bool(b) => json!(b),
        Internal::Number(Inner::I64(i)) => json!(i),
        Internal::Number(Inner::U64(u)) => json!(u),
        Internal::Number(Inner::F64(f)) => json!(f),
        Internal::String(s) => json!(s),
        Internal::Array(a) => Value::Array(a.iter().map(json_of).collect()),
        Internal::Object(o) => {
            let mut m = Map::new();
            for (k, v) in o {
                m.insert(k.clone(), json_of(v));
            }
            Value::Object(m)
        }
    }
}

fn internal_of(v: &Value) -> Internal {
    match v {
        Value::Null => Internal::Null,
        Value::Bool(b) => Internal::Bool(*b),
        Value::Number(n) => Internal::Number(match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => Inner::I64(i),
            (_, Some(u)) => Inner::U64(u),
            _ => Inner::F64(n.as_f64().unwrap()),
        }),
        Value::String(s) => Internal::String(s.clone()),
        Value::Array(a) => Internal::Array(a.iter().map(internal_of).collect()),
        Value::Object(m) => Internal::Object(m.iter().map(|(k, v)| (k.clone(), internal_of(v))).collect()),
    }
}

fn infinite(v: &Internal) -> bool {
    match v {
        Internal::Number(Inner::F64(f)) => !f.is_finite(),
        Internal::Array(a) => a.iter().any(infinite),
        Internal::Object(o) => o.iter().any(|(_, v)| infinite(v)),
        _ => false,
    }
}

/// What a line is, by the rules of the format.
#[derive(Debug, PartialEq)]
enum Is {
    Blank,
    Field(String, Option<String>),
    Item(Option<String>),
    Other(String),
}

fn reference_scan(text: &str) -> Vec<(usize, Is)> {
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    lines
        .into_iter()
        .map(|l| {
            let indent = l.chars().take_while(|c| *c == ' ').count();
            let body = l.trim_matches(' ');
            let is = if body.chars().all(|c| c == ' ' || c == '\t') {
                Is::Blank
            } else if body == "-" {
                Is::Item(None)
            } else if let Some(v) = body.strip_prefix("- ") {
                Is::Item(Some(v.to_string()))
            } else if body.starts_with('@') {
                Is::Other(body.to_string())
            } else {
                let (mut quoted, mut skip, mut colon) = (false, false, None);
                for (i, c) in body.char_indices() {
                    if skip {
                        skip = false;
                    } else if quoted && c == '\\' {
                        skip = true;
                    } else if c == '"' {
                        quoted = !quoted;
                    } else if c == ':' && !quoted {
                        colon = Some(i);
                        break;
                    }
                }
                match colon {
                    None => Is::Other(body.to_string()),
                    Some(i) => {
                        let v = body[i + 1..].trim_start_matches([' ', '\t']);
                        Is::Field(body[..i].to_string(), if v.is_empty() { None } else { Some(v.to_string()) })
                    }
                }
            };
            (indent, is)
        })
        .collect()
}

/// The first line whose indentation strict mode forbids.
fn bad_indent(text: &str, step: usize, tabs: bool) -> Option<usize> {
    for (i, ((indent, is), line)) in reference_scan(text).into_iter().zip(text.split('\n')).enumerate() {
        if is == Is::Blank {
            continue;
        }
        let tab = line.chars().take_while(|c| *c == ' ' || *c == '\t').any(|c| c == '\t');
        if (tabs && tab) || indent % step != 0 {
            return Some(i + 1);
        }
    }
    None
}

fn some_text(c: &mut Case) -> (String, usize) {
    let r = &mut c.rng;
    if r.chance(1, 8) {
        return (super::robust::soup(r), *r.pick(&[1, 2, 2, 3, 4]));
    }
    let v = doc(r);
    let strict = r.chance(2, 3);
    let st = super::decode::style(r, strict);
    let d = docgen::write(r, &v, st);
    let mut t = match r.below(4) {
        0 => {
            let class = r.below(super::decode::CLASSES);
            super::decode::damage(r, &d, class).map(|m| m.text).unwrap_or_else(|| d.text())
        }
        1 => gen::edit(r, &d.text()),
        _ => d.text(),
    };
    if r.chance(1, 20) {
        gen::odd_ends(r, &mut t);
    }
    (t, st.step)
}

type Parsed = Result<Value, Fail>;

fn same(a: &Parsed, b: &Parsed) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => eq::diff(x, y).is_none(),
        (x, y) => x == y,
    }
}

fn parsing(c: &mut Case) -> Verdict {
    let (t, step) = some_text(c);
    let expand = c.rng.chance(1, 4);
    if t.contains('\n') {
        c.obs.nontrivial(t.as_bytes());
        if c.no % 1000 < 3 {
            c.obs.sample(|| json!({"text": t, "indent": step}));
        }
    }
    let bad = |what: String| violation(what, json!({"text": t, "indent": step}));
    // Lines
    let got: Vec<(usize, Is)> = scan(&t)
        .into_iter()
        .map(|l| {
            let s = |x: &str| x.to_string();
            (
                l.indent,
                match l.kind {
                    LineKind::Blank => Is::Blank,
                    LineKind::KeyValue { key, value } => Is::Field(s(key), Some(s(value))),
                    LineKind::KeyOnly { key } => Is::Field(s(key), None),
                    LineKind::ListItem { value } => Is::Item(value.map(s)),
                    LineKind::Scalar(x) => Is::Other(s(x)),
                },
            )
        })
        .collect();
    let want = reference_scan(&t);
    c.obs.add("lines", want.len() as u64);
    if got.len() != want.len() {
        return bad(format!("scan gives {} lines of {}", got.len(), want.len()));
    }
    if let Some(i) = (0..got.len()).find(|i| got[*i] != want[*i] && want[*i].1 != Is::Blank) {
        return bad(format!("scan reads line {} as {:?} instead of {:?}", i + 1, got[i], want[i]));
    }
    if let Some(i) = (0..got.len()).find(|i| (got[*i].1 == Is::Blank) != (want[*i].1 == Is::Blank)) {
        return bad(format!("scan reads line {} as {:?} instead of {:?}", i + 1, got[i], want[i]));
    }
    // Indentation
    let raw: Vec<&str> = t.split('\n').collect();
    let size = if step == 2 && c.rng.chance(1, 12) { 0 } else { step };
    let checked = validation::validate_indentation_with_size(&scan(&t), &raw, size).err();
    let want = bad_indent(&t, step, true);
    if checked.as_ref().map(|e| e.line) != want {
        return bad(format!("validate_indentation_with_size finds {checked:?}, the first bad line is {want:?}"));
    }
    let two = validation::validate_indentation(&scan(&t)).err().map(|e| e.line);
    if two != bad_indent(&t, 2, false) {
        return bad(format!("validate_indentation finds {two:?} instead of {:?}", bad_indent(&t, 2, false)));
    }
    if checked.is_some() {
        c.obs.count("bad_indentation");
    }
    // Parsers
    for strict in [false, true] {
        let o = Options { strict, indent: size, ..Options::default() };
        let want: Parsed = decode_value(&t, &o);
        if strict {
            if let Some(e) = &checked {
                let line = match &want {
                    Err(Fail::Err { line, .. }) => *line,
                    _ => None,
                };
                if line != Some(e.line) {
                    return bad(format!("the indentation check finds {e:?}, decoding gives {want:?}"));
                }
                continue;
            }
        }
        c.obs.count(if want.is_ok() { "accepted" } else { "rejected" });
        let inf = std::cell::Cell::new(false);
        let note = |v: Internal| {
            inf.set(inf.get() | infinite(&v));
            json_of(&v)
        };
        let mut others: Vec<(&str, Parsed)> = vec![(
            "parse_to_internal_value_with_options",
            guarded(|| parser::parse_to_internal_value_with_options(scan(&t), &o)).map(note),
        )];
        if step == 2 {
            others.push(("parse_to_internal_value_from_lines", guarded(|| parser::parse_to_internal_value_from_lines(scan(&t), strict)).map(note)));
            others.push(("parse_to_value_with_strict", guarded(|| parser::parse_to_value_with_strict(&t, strict)).map(note)));
            if !strict && want.is_ok() {
                others.push(("parse_to_internal_value", guarded(|| Ok(parser::parse_to_internal_value(&t))).map(note)));
                if !inf.get() {
                    others.push(("parse_to_value", guarded(|| Ok(parser::parse_to_value(&t)))));
                }
                let p = guarded(|| {
                    let mut p = parser::Parser::from_input(&t);
                    let empty = p.is_empty();
                    Ok((empty, p.parse_document()))
                });
                match p {
                    Ok((empty, v)) => {
                        if empty != t.is_empty() {
                            return bad(format!("is_empty is {empty} of {t:?}"));
                        }
                        others.push(("Parser::from_input", Ok(note(v))));
                    }
                    Err(e) => return bad(format!("Parser::from_input: {e}")),
                }
            }
        }
        for (name, got) in others {
            if !same(&got, &want) {
                return bad(format!("{name} (strict {strict}) gives {got:?}, decode_from_str {want:?}"));
            }
            c.obs.count("parses_compared");
        }
        // Through serde
        if let (false, Ok(v)) = (inf.get(), &want) {
            let back = guarded(|| {
                let d = toon_rs::de::Deserializer::from_value(internal_of(v));
                Value::deserialize(d).map_err(|e| toon_rs::Error::Message(e.to_string()))
            });
            if !same(&back, &want) {
                return bad(format!("Deserializer::from_value gives {back:?} of {v}"));
            }
        }
        if expand {
            let o = Options { expand_paths: ExpandPaths::Safe, ..o.clone() };
            let want = decode_value(&t, &o);
            let got = guarded(|| {
                let v = parser::parse_to_internal_value_with_options(scan(&t), &o)?;
                path_expand::expand_paths(v, strict).map_err(toon_rs::Error::Message)
            })
            .map(|v| json_of(&v));
            if !same(&got, &want) {
                return bad(format!("parsing and expand_paths (strict {strict}) give {got:?}, decode_from_str {want:?}"));
            }
            c.obs.count("expansions_compared");
        }
    }
    Ok(())
}

fn shift(text: &str, by: usize) -> String {
    text.split('\n').map(|l| " ".repeat(by) + l).collect::<Vec<_>>().join("\n")
}

fn encoding(c: &mut Case) -> Verdict {
    let v = doc(&mut c.rng);
    let mut o = plain_options(&mut c.rng);
    if c.rng.chance(1, 3) {
        o.key_folding = KeyFolding::Safe;
        o.flatten_depth = if c.rng.chance(1, 2) { None } else { Some(c.rng.below(5)) };
    }
    let by = c.rng.below(7);
    let bad = |what: String| violation(what, json!({"value": v, "options": opts_json(&o)}));
    let want = encode(&v, &o);
    if let Ok(t) = &want {
        if eq::size(&v).0 > 1 {
            c.obs.nontrivial(t.as_bytes());
        }
    }
    let got = guarded(|| toon_rs::encode::encode_value_to_string(&v, &o));
    if got != want {
        return bad(format!("encode_value_to_string gives {got:?}, encode_to_string {want:?}"));
    }
    c.obs.count("values_encoded");
    let Ok(t) = want else { return Ok(()) };
    let deeper = guarded(|| {
        let mut w = LineWriter::new();
        encoders::encode_value(&v, &mut w, &o, by)?;
        Ok(w.into_string())
    });
    let want = if t.is_empty() { String::new() } else { shift(&t, by) };
    if deeper.as_ref() != Ok(&want) {
        return bad(format!("encode_value at indent {by} gives {deeper:?} instead of {want:?}"));
    }
    if normalize::normalize_value(&v) != v {
        return bad("normalize_value changes the value".into());
    }
    if let Value::Object(m) = &v {
        // Field by field, with and without knowledge of the others
        let keys: Vec<String> = m.keys().cloned().collect();
        let fields = guarded(|| {
            let mut w = LineWriter::new();
            for (k, x) in m {
                encoders::encode_object_field_with_siblings(k, x, &mut w, &o, 0, &keys)?;
            }
            Ok(w.into_string())
        });
        if fields.as_ref() != Ok(&t) {
            return bad(format!("encode_object_field_with_siblings gives {fields:?} instead of {t:?}"));
        }
        for (k, x) in m {
            let alone = guarded(|| {
                let mut w = LineWriter::default();
                encoders::encode_object_field(k, x, &mut w, &o, 0)?;
                Ok(w.into_string())
            });
            let mut one = Map::new();
            one.insert(k.clone(), x.clone());
            let want = encode(&Value::Object(one), &o);
            if alone != want {
                return bad(format!("encode_object_field of {k:?} gives {alone:?} instead of {want:?}"));
            }
            c.obs.count("fields_encoded");
        }
    }
    let mut n = 0;
    let wrong = arrays(&v, &mut n);
    c.obs.add("arrays", n);
    wrong.map_or(Ok(()), bad)
}

/// The table test on every array of a document.
fn arrays(v: &Value, n: &mut u64) -> Option<String> {
    match v {
        Value::Array(a) => {
            *n += 1;
            let got = encoders::is_tabular_array(a);
            let want = model::table_columns(a);
            if got != want {
                return Some(format!("is_tabular_array gives {got:?} instead of {want:?} for {v}"));
            }
            a.iter().find_map(|x| arrays(x, n))
        }
        Value::Object(m) => m.values().find_map(|x| arrays(x, n)),
        _ => None,
    }
}

fn tokens(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let o = plain_options(r);
    let d = o.delimiter;
    let dc = delim_char(d);
    let p = gen::profile(r);
    let s = gen::string(r, &p);
    let bad = |what: String| violation(what, json!({"string": s, "options": opts_json(&o)}));
    if primitives::delimiter_char(d) != dc || primitives::delimiter_symbol(d) != if dc == ',' { None } else { Some(dc) } {
        return bad("delimiter_char or delimiter_symbol".into());
    }
    // Strings and keys
    let f = primitives::format_string(&s, d);
    if f != model::string(&s, dc) || primitives::needs_quotes(&s, d) != f.starts_with('"') || f != if f.starts_with('"') { primitives::escape_and_quote(&s) } else { s.clone() } {
        return bad(format!("format_string gives {f}, needs_quotes {}", primitives::needs_quotes(&s, d)));
    }
    let root = encode(&json!(s), &o);
    if root.as_ref() != Ok(&f) {
        return bad(format!("format_string gives {f}, encode_to_string {root:?}"));
    }
    let k = primitives::format_key(&s);
    let mut m = Map::new();
    m.insert(s.clone(), Value::Null);
    let field = encode(&Value::Object(m), &o);
    if field.as_ref() != Ok(&format!("{k}: null")) {
        return bad(format!("format_key gives {k}, encode_to_string {field:?}"));
    }
    c.obs.nontrivial(s.as_bytes());
    c.obs.count("strings");
    // Numbers
    let n = gen::number(r);
    let text = primitives::format_number(&n);
    if text != model::number(&n) || encode(&Value::Number(n.clone()), &o) != Ok(text.clone()) {
        return bad(format!("format_number gives {text} of {n}"));
    }
    let Internal::Number(inner) = internal_of(&Value::Number(n.clone())) else { unreachable!() };
    if inner.to_string() != text {
        return bad(format!("a number displays as {inner} instead of {text}"));
    }
    let x = gen::float(r);
    if x.is_finite() && primitives::format_f64(x) != model::float(x) {
        return bad(format!("format_f64 gives {} of {x:e}", primitives::format_f64(x)));
    }
    if primitives::format_bool(true) != "true" || primitives::format_bool(false) != "false" || primitives::format_null() != "null" {
        return bad("format_bool or format_null".into());
    }
    // Headers
    let len = gen::edge_size(r, 40) + 1;
    let sep = dc.to_string();
    let mark = if dc == ',' { "" } else { &sep };
    let names: Vec<String> = (0..r.range(1, 5)).map(|_| gen::key(r, &p)).collect();
    let written: Vec<String> = names.iter().map(|n| primitives::format_key(n)).collect();
    for (name, got, want) in [
        ("format_bracket_segment", primitives::format_bracket_segment(len, d), format!("[{len}{mark}]")),
        ("format_fields_segment", primitives::format_fields_segment(&written, d), format!("{{{}}}", written.join(&sep))),
        ("format_inline_array_header", primitives::format_inline_array_header(len, d), format!("[{len}{mark}]: ")),
        ("format_expanded_array_header", primitives::format_expanded_array_header(len, d), format!("[{len}{mark}]:")),
        ("format_tabular_header", primitives::format_tabular_header(len, &written, d), format!("[{len}{mark}]{{{}}}:", written.join(&sep))),
    ] {
        if got != want {
            return bad(format!("{name} gives {got:?} instead of {want:?}"));
        }
    }
    let mut row = Map::new();
    names.iter().for_each(|n| {
        row.insert(n.clone(), json!(1));
    });
    let columns: Vec<String> = row.keys().map(|n| primitives::format_key(n)).collect();
    let row = Value::Object(row);
    for (array, header) in [
        (json!(vec![1; len]), primitives::format_inline_array_header(len, d)),
        (Value::Array(vec![json!([1]); len]), primitives::format_expanded_array_header(len, d) + "\n"),
        (Value::Array(vec![row; len]), primitives::format_tabular_header(len, &columns, d) + "\n"),
    ] {
        match encode(&array, &o) {
            Ok(t) if t.starts_with(&header) => c.obs.count("headers"),
            t => return bad(format!("header {header:?} expected in {t:?}")),
        }
    }
    // Lines
    let (i, a, b) = (r.below(9), gen::plain_word(r), gen::plain_word(r));
    let mut w = LineWriter::new();
    w.line(i, &a);
    w.line_kv(i + 1, &a, &b);
    w.line_list_item(0, &b);
    w.line_key_only(i, &a);
    let (p0, p1) = (" ".repeat(i), " ".repeat(i + 1));
    let want = format!("{p0}{a}\n{p1}{a}: {b}\n- {b}\n{p0}{a}:");
    let got = w.into_string();
    if got != want {
        return bad(format!("LineWriter gives {got:?} instead of {want:?}"));
    }
    Ok(())
}

fn c24(c: &mut Case) -> Verdict {
    match c.rng.below(4) {
        0 => encoding(c),
        1 => tokens(c),
        _ => parsing(c),
    }
}
