//! Reference encoder, written from the TOON 3.0 rules rather than from the implementation. It
//! emits (depth, text) lines; the text form follows by indenting every line by depth * indent.

use crate::core::{delim_char, Delimiter, KeyFolding, Options};
use serde_json::{Map, Number, Value};

pub fn number(n: &Number) -> String {
    if n.is_f64() {
        float(n.as_f64().unwrap())
    } else {
        n.to_string()
    }
}

/// Shortest round-trip decimal (the digits serde_json prints), never in exponent form, no negative
/// zero.
pub fn float(f: f64) -> String {
    if !f.is_finite() {
        return "null".into();
    }
    if f == 0.0 {
        return "0".into();
    }
    let text = serde_json::to_string(&f).unwrap();
    let (sign, body) = match text.strip_prefix('-') {
        Some(b) => ("-", b),
        None => ("", text.as_str()),
    };
    let (mantissa, exp) = match body.split_once('e') {
        Some((m, e)) => (m, e.parse::<i64>().unwrap()),
        None => (body, 0),
    };
    let (int, frac) = mantissa.split_once('.').unwrap_or((mantissa, ""));
    // digits * 10^(exp - frac.len())
    let digits = format!("{int}{frac}");
    let point = int.len() as i64 + exp;
    let at = |i: i64| if i >= 0 && (i as usize) < digits.len() { digits.as_bytes()[i as usize] as char } else { '0' };
    let whole: String = (0.min(point)..point.max(0)).filter(|i| *i >= 0 || point > 0).map(at).collect();
    let fraction: String = (point..digits.len() as i64).map(at).collect();
    let whole = whole.trim_start_matches('0');
    let fraction = fraction.trim_end_matches('0');
    let whole = if whole.is_empty() { "0" } else { whole };
    if fraction.is_empty() {
        format!("{sign}{whole}")
    } else {
        format!("{sign}{whole}.{fraction}")
    }
}

fn control(c: char) -> bool {
    (c as u32) < 0x20 || c as u32 == 0x7f
}

/// Anything a reader might take for a number: an optional sign, then what Rust's f64 parser
/// accepts (this includes "inf" and "nan").
fn numeric_looking(s: &str) -> bool {
    let t = s.trim();
    t.strip_prefix(['+', '-']).unwrap_or(t).parse::<f64>().is_ok()
}

pub fn must_quote(s: &str, delim: char) -> bool {
    s.is_empty()
        || s.starts_with(' ')
        || s.ends_with(' ')
        || s.starts_with('-')
        || ["true", "false", "null"].contains(&s)
        || numeric_looking(s)
        || s.chars().any(|c| c == delim || control(c) || ":\"\\[]{}".contains(c))
}

pub fn quote(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '\n' => out += "\\n",
            '\r' => out += "\\r",
            '\t' => out += "\\t",
            c if control(c) => out += &format!("\\u{:04X}", c as u32),
            c => out.push(c),
        }
    }
    out + "\""
}

pub fn string(s: &str, delim: char) -> String {
    if must_quote(s, delim) {
        quote(s)
    } else {
        s.to_string()
    }
}

pub fn bare_key(k: &str) -> bool {
    let mut cs = k.chars();
    cs.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_')
        && cs.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.')
}

pub fn identifier(k: &str) -> bool {
    bare_key(k) && !k.contains('.')
}

pub fn key(k: &str) -> String {
    if bare_key(k) {
        k.to_string()
    } else {
        quote(k)
    }
}

pub fn is_prim(v: &Value) -> bool {
    !v.is_array() && !v.is_object()
}

pub fn prim(v: &Value, delim: char) -> String {
    match v {
        Value::Null => "null".into(),
        Value::Bool(true) => "true".into(),
        Value::Bool(false) => "false".into(),
        Value::Number(n) => number(n),
        Value::String(s) => string(s, delim),
        _ => unreachable!(),
    }
}

/// Columns of an array that is written as a table: all elements are objects with the same,
/// non-empty key set and only primitive values; order of the first element.
pub fn table_columns(items: &[Value]) -> Option<Vec<String>> {
    let first = items.first()?.as_object()?;
    if first.is_empty() {
        return None;
    }
    for it in items {
        let o = it.as_object()?;
        if o.len() != first.len() || !o.iter().all(|(k, v)| first.contains_key(k) && is_prim(v)) {
            return None;
        }
    }
    Some(first.keys().cloned().collect())
}

struct Writer {
    delim: char,
    mark: String,
    max_segments: usize,
    lines: Vec<(usize, String)>,
}

/// Reference text of `v` under `o`.
pub fn encode(v: &Value, o: &Options) -> String {
    let lines = encode_lines(v, o);
    lines.iter().map(|(d, s)| " ".repeat(d * o.indent) + s).collect::<Vec<_>>().join("\n")
}

pub fn encode_lines(v: &Value, o: &Options) -> Vec<(usize, String)> {
    let delim = delim_char(o.delimiter);
    let mut w = Writer {
        delim,
        mark: if o.delimiter == Delimiter::Comma { String::new() } else { delim.to_string() },
        max_segments: o.flatten_depth.unwrap_or(usize::MAX),
        lines: vec![],
    };
    let fold = o.key_folding == KeyFolding::Safe;
    match v {
        Value::Object(m) => w.fields(m, 0, fold),
        Value::Array(a) => w.array("", a, 0, 1, fold, true),
        p => {
            let s = prim(p, delim);
            w.put(0, s)
        }
    }
    w.lines
}

impl Writer {
    fn put(&mut self, depth: usize, s: String) {
        self.lines.push((depth, s));
    }

    fn fields(&mut self, m: &Map<String, Value>, depth: usize, fold: bool) {
        for (k, v) in m {
            self.field(m, k, v, depth, fold)
        }
    }

    fn field(&mut self, siblings: &Map<String, Value>, k: &str, v: &Value, depth: usize, fold: bool) {
        if fold {
            if let Some((path, leaf)) = self.chain(k, v) {
                // A folded path that collides with a sibling key keeps its whole subtree unfolded
                if siblings.contains_key(&path) {
                    return self.entry(&key(k), v, depth, false);
                }
                return self.entry(&path, leaf, depth, false);
            }
        }
        self.entry(&key(k), v, depth, fold)
    }

    /// The longest dotted path that stands for a chain of single-key objects below `k`.
    fn chain<'v>(&self, k: &str, v: &'v Value) -> Option<(String, &'v Value)> {
        if !identifier(k) {
            return None;
        }
        let mut path = k.to_string();
        let mut segments = 1;
        let mut leaf = v;
        while segments < self.max_segments {
            let Some((nk, nv)) = leaf.as_object().filter(|m| m.len() == 1).and_then(|m| m.iter().next()) else { break };
            if !identifier(nk) {
                break;
            }
            path = path + "." + nk;
            segments += 1;
            leaf = nv;
        }
        (segments > 1).then_some((path, leaf))
    }

    fn entry(&mut self, key_text: &str, v: &Value, depth: usize, fold: bool) {
        match v {
            Value::Array(a) => self.array(key_text, a, depth, depth + 1, fold, true),
            Value::Object(m) => {
                self.put(depth, format!("{key_text}:"));
                self.fields(m, depth + 1, fold)
            }
            p => {
                let s = format!("{key_text}: {}", prim(p, self.delim));
                self.put(depth, s)
            }
        }
    }

    fn array(&mut self, prefix: &str, a: &[Value], depth: usize, inner: usize, fold: bool, tables: bool) {
        let head = format!("{prefix}[{}{}]", a.len(), self.mark);
        let sep = self.delim.to_string();
        let columns = if tables { table_columns(a) } else { None };
        if let Some(cols) = columns {
            let names: Vec<String> = cols.iter().map(|c| key(c)).collect();
            self.put(depth, format!("{head}{{{}}}:", names.join(&sep)));
            for row in a {
                let cells: Vec<String> = cols.iter().map(|c| prim(&row[c], self.delim)).collect();
                self.put(inner, cells.join(&sep));
            }
        } else if a.is_empty() {
            self.put(depth, format!("{head}:"));
        } else if a.iter().all(is_prim) {
            let cells: Vec<String> = a.iter().map(|v| prim(v, self.delim)).collect();
            self.put(depth, format!("{head}: {}", cells.join(&sep)));
        } else {
            self.put(depth, format!("{head}:"));
            for item in a {
                self.item(item, inner, fold);
            }
        }
    }

    fn item(&mut self, item: &Value, depth: usize, fold: bool) {
        match item {
            // Arrays directly inside arrays are inline or lists, never tables
            Value::Array(a) => self.array("- ", a, depth, depth + 1, fold, false),
            Value::Object(m) => {
                let Some((k0, v0)) = m.iter().next() else {
                    return self.put(depth, "-".into());
                };
                let head = format!("- {}", key(k0));
                match v0 {
                    Value::Array(a) => self.array(&head, a, depth, depth + 2, fold, true),
                    Value::Object(inner) => {
                        self.put(depth, format!("{head}:"));
                        self.fields(inner, depth + 2, fold)
                    }
                    p => {
                        let s = format!("{head}: {}", prim(p, self.delim));
                        self.put(depth, s)
                    }
                }
                for (k, v) in m.iter().skip(1) {
                    self.field(m, k, v, depth + 1, fold)
                }
            }
            p => {
                let s = format!("- {}", prim(p, self.delim));
                self.put(depth, s)
            }
        }
    }
}

/// The value a folded text stands for when its dotted paths are taken as ordinary keys.
pub fn fold_value(v: &Value, o: &Options) -> Value {
    let w = Writer { delim: ',', mark: String::new(), max_segments: o.flatten_depth.unwrap_or(usize::MAX), lines: vec![] };
    fn go(w: &Writer, v: &Value, fold: bool, item: bool) -> Value {
        match v {
            Value::Array(a) => Value::Array(a.iter().map(|x| go(w, x, fold, true)).collect()),
            Value::Object(m) => {
                let mut out = Map::new();
                for (i, (k, x)) in m.iter().enumerate() {
                    // The first field of a list item stays on the hyphen line as it is
                    let chain = if fold && !(item && i == 0) { w.chain(k, x) } else { None };
                    match chain {
                        Some((path, leaf)) if !m.contains_key(&path) => out.insert(path, go(w, leaf, false, false)),
                        Some(_) => out.insert(k.clone(), go(w, x, false, false)),
                        None => out.insert(k.clone(), go(w, x, fold, false)),
                    };
                }
                Value::Object(out)
            }
            p => p.clone(),
        }
    }
    go(&w, v, o.key_folding == KeyFolding::Safe, false)
}
