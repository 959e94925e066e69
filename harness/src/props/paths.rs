//! C12 key folding, C13 path expansion.

use super::encode::{all_decoders, all_encoders, check_value};
use crate::core::*;
use crate::rng::Rng;
use crate::{eq, gen, model};
use serde_json::{json, Map, Value};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C12",
        quick: 250_000,
        thorough: 5_000_000,
        rule: "nested objects rich in single-key chains (identifier and other keys, siblings that collide with folded paths, chains ending in primitives, arrays, tables, empty objects, chains in list items), folded with every flatten depth 0 to 6 and unlimited; the text is compared with the reference encoder, and decoded again with and without expansion. Non-trivial: the folded text differs from the unfolded one; distinct by text",
        run: c12,
    },
    Prop {
        id: "C13",
        quick: 300_000,
        thorough: 5_000_000,
        rule: "documents written with dotted keys, quoted or bare, valid paths or not, repeated and conflicting, at the root, nested, in list items, as array keys and as column names; decoded with expansion in both modes and compared with a reference expansion (value or conflict). Non-trivial: at least one key is expanded; distinct by text",
        run: c13,
    },
];

/// Dotted keys excluded, does the value have one?
fn has_dot(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(has_dot),
        Value::Object(m) => m.iter().any(|(k, v)| k.contains('.') || has_dot(v)),
        _ => false,
    }
}

fn foldable_doc(r: &mut Rng) -> Value {
    let mut p = gen::profile(r);
    p.hostile_key = *r.pick(&[0, 0, 5, 20]);
    p.dotted = r.chance(1, 4);
    if r.chance(1, 5) {
        // in list items and nested arrays
        let n = r.range(1, 4);
        let items: Vec<Value> = (0..n).map(|_| gen::foldable(r, &p, 1)).collect();
        if r.chance(1, 2) {
            return json!({ "rows": items });
        }
        return Value::Array(items);
    }
    let mut v = gen::foldable(r, &p, 0);
    // A sibling with the name of a folded path
    if p.dotted && r.chance(1, 2) {
        if let Value::Object(m) = &mut v {
            let (k, x) = m.iter().next().map(|(k, x)| (k.clone(), x.clone())).unwrap();
            let mut path = k;
            let mut at = &x;
            for _ in 0..r.range(1, 4) {
                let Some((nk, nv)) = at.as_object().filter(|o| o.len() == 1).and_then(|o| o.iter().next()) else { break };
                path = format!("{path}.{nk}");
                at = nv;
            }
            let y = gen::primitive(r, &p);
            if r.chance(1, 2) {
                m.insert(path, y);
            } else {
                let old = std::mem::take(m);
                m.insert(path, y);
                m.extend(old);
            }
        }
    }
    v
}

fn c12(c: &mut Case) -> Verdict {
    let mut v = foldable_doc(&mut c.rng);
    if c.rng.chance(1, 300) {
        c.obs.count("crowded");
        gen::crowd(&mut c.rng, &mut v, 600);
    }
    let mut o = plain_options(&mut c.rng);
    o.key_folding = KeyFolding::Safe;
    o.flatten_depth = *c.rng.pick(&[None, None, None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(6), Some(usize::MAX)]);
    let every = c.no % 8 == 0;
    let plain = encode(&v, &Options { key_folding: KeyFolding::Off, ..o.clone() });
    let folded = encode(&v, &o);
    if let (Ok(a), Ok(b)) = (&plain, &folded) {
        if a != b {
            c.obs.count("folded");
            c.obs.nontrivial(b.as_bytes());
            if c.no % 2000 < 8 {
                c.obs.sample(|| json!({"value": v, "text": b, "flatten_depth": o.flatten_depth}));
            }
        }
    }
    let reversible = !has_dot(&v);
    if reversible {
        c.obs.count("expanded_again");
    }
    check_value(&v, &o, &|v| {
        let want = model::encode(v, &o);
        let encs = if every { all_encoders(v, &o) } else { vec![("encode_to_string", encode(v, &o))] };
        for (name, t) in encs {
            let t = t.map_err(|e| format!("{name}: {e}"))?;
            if t != want {
                return Err(format!("{name} writes\n{t}\ninstead of\n{want}"));
            }
        }
        if o.flatten_depth.is_some_and(|d| d < 2) {
            let plain = encode(v, &Options { key_folding: KeyFolding::Off, ..o.clone() }).map_err(|e| e.to_string())?;
            if plain != want {
                return Err(format!("flatten depth {:?} still folds:\n{want}", o.flatten_depth));
            }
        }
        for strict in [true, false] {
            let expand = Options { strict, expand_paths: ExpandPaths::Safe, ..o.clone() };
            if reversible && !has_dot(v) {
                let b = decode_value(&want, &expand).map_err(|e| format!("decoding with expansion (strict {strict}): {e}\n{want}"))?;
                if let Some(at) = eq::diff_rows(v, &b) {
                    return Err(format!("folding and expanding gives {b} (differs at {at}); text\n{want}"));
                }
            }
            // Without expansion the paths are ordinary keys; folding never makes a document invalid
            let b = decode_value(&want, &Options { strict, ..o.clone() }).map_err(|e| format!("decoding the folded text (strict {strict}): {e}\n{want}"))?;
            if let Some(at) = eq::diff_rows(&model::fold_value(v, &o), &b) {
                return Err(format!("the folded text\n{want}\nis read as {b} (differs at {at})"));
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C13

/// A document with what a reader has to know about each key: whether it was quoted.
#[derive(Clone, Debug)]
enum Tree {
    Prim(Value),
    Array(Vec<Tree>),
    Object(Vec<(String, bool, Tree)>),
}

fn path_key(r: &mut Rng) -> (String, bool) {
    let seg = |r: &mut Rng| {
        if r.chance(1, 12) {
            // Anything near an identifier
            let mut s = String::new();
            for _ in 0..r.range(1, 4) {
                s.push(*r.pick(&['a', 'b', 'c', 'a', 'Z', '_', '_', '0', '9', '-', 'é', 'ß', '日', '٣', '$', '/', '\u{301}', 'ª']));
            }
            return if s.starts_with('-') { format!("a{s}") } else { s };
        }
        r.pick(&["a", "b", "c", "a", "b", "x1", "_y", "Key"]).to_string()
    };
    match r.below(12) {
        0..=2 => (seg(r), r.chance(1, 4)),
        3..=7 => {
            let n = r.range(2, 4);
            ((0..n).map(|_| seg(r)).collect::<Vec<_>>().join("."), r.chance(1, 4))
        }
        8 => (r.pick(&["a-b.c", "a..b", "1.a", "a.1", "a.b.", "full-name.x", "a.b c", "a.é", "$a.b"]).to_string(), r.chance(1, 3)),
        9 => (r.pick(&["\u{200b}a.b", "\u{200b}", "a.\u{200b}b", "\u{200b}a", "", ".", "a.b:c", "a,b.c"]).to_string(), true),
        10 => (seg(r), true),
        _ => (format!("{}.{}", seg(r), seg(r)), true),
    }
}

fn prim(r: &mut Rng) -> Tree {
    Tree::Prim(match r.below(4) {
        0 => json!(r.below(10)),
        1 => json!(r.pick(&["a.b", "x", "true", "a b", "p.q.r: s"])),
        2 => json!(null),
        _ => json!(r.chance(1, 2)),
    })
}

fn tree(r: &mut Rng, depth: usize) -> Tree {
    if depth >= 3 {
        return prim(r);
    }
    match r.below(10) {
        0..=4 => prim(r),
        5 => Tree::Array((0..r.below(4)).map(|_| prim(r)).collect()),
        6 => {
            // table
            let mut cols: Vec<(String, bool)> = vec![];
            for _ in 0..r.range(1, 3) {
                let (k, q) = path_key(r);
                if !cols.iter().any(|c| c.0 == k) {
                    cols.push((k, q));
                }
            }
            Tree::Array((0..r.range(1, 3)).map(|_| Tree::Object(cols.iter().map(|(k, q)| (k.clone(), *q, prim(r))).collect())).collect())
        }
        7 => Tree::Array((0..r.range(1, 3)).map(|_| tree(r, depth + 1)).collect()),
        _ => object(r, depth + 1),
    }
}

fn object(r: &mut Rng, depth: usize) -> Tree {
    Tree::Object(
        (0..r.range(1, 4))
            .map(|_| {
                let (k, q) = path_key(r);
                let t = tree(r, depth);
                (k, q, t)
            })
            .collect(),
    )
}

/// Many plain keys in between.
fn crowd(r: &mut Rng, t: &mut Tree, deep: bool) {
    let n = gen::big_size(r, 600);
    match t {
        Tree::Object(f) => {
            if deep && r.chance(1, 2) {
                if let Some(x) = f.iter_mut().find(|x| !matches!(x.2, Tree::Prim(_))) {
                    return crowd(r, &mut x.2, deep);
                }
            }
            let at = r.below(f.len() + 1);
            let dotted = r.chance(1, 2);
            let new: Vec<_> = (0..n).map(|i| (if dotted && i % 3 == 0 { format!("pad.p{i}") } else { format!("pad{i}") }, false, prim(r))).collect();
            f.splice(at..at, new);
        }
        Tree::Array(a) => {
            if let Some(x) = a.iter_mut().find(|x| !matches!(x, Tree::Prim(_))) {
                crowd(r, x, deep);
            }
        }
        Tree::Prim(_) => {}
    }
}

fn key_text(k: &str, quoted: bool) -> String {
    if quoted {
        model::quote(k)
    } else {
        k.to_string()
    }
}

fn columns(a: &[Tree]) -> Option<Vec<(String, bool)>> {
    let of = |t: &Tree| match t {
        Tree::Object(f) if !f.is_empty() && f.iter().all(|x| matches!(x.2, Tree::Prim(_))) => Some(f.iter().map(|x| (x.0.clone(), x.1)).collect::<Vec<_>>()),
        _ => None,
    };
    let first = of(a.first()?)?;
    let distinct = first.iter().enumerate().all(|(i, c)| first[..i].iter().all(|d| d.0 != c.0));
    (distinct && a.iter().all(|t| of(t).as_ref() == Some(&first))).then_some(first)
}

#[derive(Clone, Copy)]
struct Layout {
    step: usize,
    delim: char,
}

fn write_field(ly: Layout, out: &mut Vec<String>, indent: usize, lead: &str, key: &str, t: &Tree, inner: usize) {
    let pad = " ".repeat(indent);
    match t {
        Tree::Prim(p) => out.push(format!("{pad}{lead}{key}: {}", model::prim(p, '"'))),
        Tree::Object(f) => {
            out.push(format!("{pad}{lead}{key}:"));
            write_fields(ly, out, inner, f);
        }
        Tree::Array(a) => write_array(ly, out, indent, &format!("{lead}{key}"), a, inner, true),
    }
}

fn write_fields(ly: Layout, out: &mut Vec<String>, indent: usize, f: &[(String, bool, Tree)]) {
    for (k, q, t) in f {
        write_field(ly, out, indent, "", &key_text(k, *q), t, indent + ly.step);
    }
}

fn write_array(ly: Layout, out: &mut Vec<String>, indent: usize, head: &str, a: &[Tree], inner: usize, tables: bool) {
    let sep = ly.delim.to_string();
    let mark = if ly.delim == ',' { "" } else { &sep };
    let pad = " ".repeat(indent);
    if let Some(cols) = columns(a).filter(|_| tables) {
        let names: Vec<String> = cols.iter().map(|(k, q)| key_text(k, *q)).collect();
        out.push(format!("{pad}{head}[{}{mark}]{{{}}}:", a.len(), names.join(&sep)));
        for row in a {
            let Tree::Object(f) = row else { unreachable!() };
            let cells: Vec<String> = f.iter().map(|x| match &x.2 {
                Tree::Prim(p) => model::prim(p, ly.delim),
                _ => unreachable!(),
            }).collect();
            out.push(format!("{}{}", " ".repeat(inner), cells.join(&sep)));
        }
    } else if !a.is_empty() && a.iter().all(|t| matches!(t, Tree::Prim(_))) {
        let cells: Vec<String> = a.iter().map(|t| match t {
            Tree::Prim(p) => model::prim(p, ly.delim),
            _ => unreachable!(),
        }).collect();
        out.push(format!("{pad}{head}[{}{mark}]: {}", a.len(), cells.join(&sep)));
    } else {
        out.push(format!("{pad}{head}[{}{mark}]:", a.len()));
        let at = " ".repeat(inner);
        for t in a {
            match t {
                Tree::Prim(p) => out.push(format!("{at}- {}", model::prim(p, '"'))),
                Tree::Array(b) => write_array(ly, out, inner, "- ", b, inner + ly.step, false),
                Tree::Object(f) if f.is_empty() => out.push(format!("{at}-")),
                Tree::Object(f) => {
                    write_field(ly, out, inner, "- ", &key_text(&f[0].0, f[0].1), &f[0].2, inner + 2 * ly.step);
                    write_fields(ly, out, inner + ly.step, &f[1..]);
                }
            }
        }
    }
}

fn merge(m: &mut Map<String, Value>, k: &str, v: Value, strict: bool) -> Result<(), ()> {
    match m.get_mut(k) {
        None => {
            m.insert(k.to_string(), v);
        }
        Some(old) => match (old, v) {
            (Value::Object(o), Value::Object(n)) => {
                for (k, v) in n {
                    merge(o, &k, v, strict)?;
                }
            }
            (old, v) => {
                if strict {
                    return Err(());
                }
                *old = v;
            }
        },
    }
    Ok(())
}

/// Reference expansion; Err on a conflict in strict mode.
fn expand(t: &Tree, strict: bool, expanded: &mut usize) -> Result<Value, ()> {
    Ok(match t {
        Tree::Prim(p) => p.clone(),
        Tree::Array(a) => Value::Array(a.iter().map(|x| expand(x, strict, expanded)).collect::<Result<_, _>>()?),
        Tree::Object(f) => {
            let mut m = Map::new();
            for (k, quoted, x) in f {
                let v = expand(x, strict, expanded)?;
                let parts: Vec<&str> = k.split('.').collect();
                if !*quoted && parts.len() > 1 && parts.iter().all(|p| model::identifier(p)) {
                    *expanded += 1;
                    let mut v = v;
                    for p in parts[1..].iter().rev() {
                        let mut o = Map::new();
                        o.insert(p.to_string(), v);
                        v = Value::Object(o);
                    }
                    merge(&mut m, parts[0], v, strict)?;
                } else {
                    merge(&mut m, k, v, strict)?;
                }
            }
            Value::Object(m)
        }
    })
}

/// The value without expansion; a repeated key keeps its place and takes the later value.
fn literal(t: &Tree) -> Value {
    match t {
        Tree::Prim(p) => p.clone(),
        Tree::Array(a) => Value::Array(a.iter().map(literal).collect()),
        Tree::Object(f) => {
            let mut m = Map::new();
            for (k, _, x) in f {
                m.insert(k.clone(), literal(x));
            }
            Value::Object(m)
        }
    }
}

fn c13(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    if r.chance(1, 200) {
        return deep_path(c);
    }
    let mut t = if r.chance(1, 6) {
        match tree(r, 0) {
            Tree::Prim(_) => object(r, 0),
            t => t,
        }
    } else {
        object(r, 0)
    };
    if r.chance(1, 300) {
        c.obs.count("crowded");
        crowd(r, &mut t, true);
    }
    let ly = Layout { step: *r.pick(&[2, 2, 2, 1, 3, 4, 8]), delim: *r.pick(&[',', ',', ',', '|', '\t']) };
    let delimiter = *r.pick(&DELIMS);
    let mut lines = vec![];
    match &t {
        Tree::Object(f) => write_fields(ly, &mut lines, 0, f),
        Tree::Array(a) => write_array(ly, &mut lines, 0, "", a, ly.step, true),
        _ => unreachable!(),
    }
    let text = lines.join("\n");
    let every = c.no % 16 == 0;
    for strict in [true, false] {
        let o = Options { strict, expand_paths: ExpandPaths::Safe, indent: ly.step, delimiter, ..Options::default() };
        let mut expanded = 0;
        let want = expand(&t, strict, &mut expanded);
        if expanded > 0 {
            c.obs.nontrivial(text.as_bytes());
            c.obs.count("with_expanded_keys");
        }
        c.obs.count(if want.is_err() { "conflicts" } else { "values" });
        if c.no % 2000 < 4 {
            c.obs.sample(|| json!({"text": text, "strict": strict, "value": want.clone().unwrap_or(json!("conflict"))}));
        }
        let input = || json!({"text": text, "options": opts_json(&o)});
        let got = if every { all_decoders(&text, &o) } else { vec![("decode_from_str", decode_value(&text, &o))] };
        for (name, got) in got {
            match (&want, got) {
                (_, Err(p @ Fail::Panic(_))) => return violation(format!("{name}: {p}"), input()),
                (Ok(w), Ok(g)) => {
                    if let Some(at) = eq::diff(w, &g) {
                        return violation(format!("{name} (strict {strict}) expands\n{text}\nto {g} instead of {w} (differs at {at})"), input());
                    }
                }
                (Err(()), Err(_)) => {}
                (Ok(w), Err(e)) => return violation(format!("{name} (strict {strict}) rejects\n{text}\nwhich expands to {w}: {e}"), input()),
                (Err(()), Ok(g)) => return violation(format!("{name} accepts conflicting paths in strict mode:\n{text}\nas {g}"), input()),
            }
        }
        // Expansion off: dotted keys are ordinary keys
        let o = Options { strict, indent: ly.step, delimiter, ..Options::default() };
        match decode_value(&text, &o) {
            Ok(g) => {
                if let Some(at) = eq::diff(&literal(&t), &g) {
                    return violation(format!("without expansion\n{text}\nreads as {g} (differs at {at})"), json!({"text": text, "options": opts_json(&o)}));
                }
            }
            Err(e) => return violation(format!("without expansion\n{text}\nis rejected: {e}"), json!({"text": text, "options": opts_json(&o)})),
        }
    }
    Ok(())
}

/// A single path of many segments is expanded level by level, or refused, never anything else.
fn deep_path(c: &mut Case) -> Verdict {
    let n = *c.rng.pick(&[2usize, 10, 100, 200, 250, 300, 1000, 5000]);
    let text = format!("{}z: 7", "s.".repeat(n - 1));
    let o = Options { strict: c.rng.chance(1, 2), expand_paths: ExpandPaths::Safe, ..Options::default() };
    c.obs.count("deep_paths");
    let input = json!({"segments": n, "options": opts_json(&o)});
    match decode_value(&text, &o) {
        Ok(v) => {
            let mut at = &v;
            for i in 0..n {
                let k = if i + 1 == n { "z" } else { "s" };
                match at.as_object().filter(|m| m.len() == 1).and_then(|m| m.get(k)) {
                    Some(x) => at = x,
                    None => return violation(format!("level {i} of a path of {n} segments is wrong"), input),
                }
            }
            if *at != json!(7) {
                return violation(format!("a path of {n} segments ends in {at}"), input);
            }
            Ok(())
        }
        Err(Fail::Err { .. }) if n > 255 => Ok(()),
        Err(e) => violation(format!("a path of {n} segments: {e}"), input),
    }
}
