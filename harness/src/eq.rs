//! Value comparison: numbers by numeric value, objects with the same keys in the same order.

use serde_json::{Number, Value};

pub fn num_eq(a: &Number, b: &Number) -> bool {
    if a.is_f64() || b.is_f64() {
        return a.as_f64() == b.as_f64();
    }
    fn i(n: &Number) -> Option<i128> {
        n.as_i64().map(|x| x as i128).or(n.as_u64().map(|x| x as i128))
    }
    i(a) == i(b)
}

/// None if the same; otherwise where the first difference is.
pub fn diff(a: &Value, b: &Value) -> Option<String> {
    fn go(a: &Value, b: &Value, path: &mut String) -> bool {
        match (a, b) {
            (Value::Number(x), Value::Number(y)) => num_eq(x, y),
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return false;
                }
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    let n = path.len();
                    path.push_str(&format!("[{i}]"));
                    if !go(p, q, path) {
                        return false;
                    }
                    path.truncate(n);
                }
                true
            }
            (Value::Object(x), Value::Object(y)) => {
                if x.len() != y.len() {
                    return false;
                }
                for ((k, p), (l, q)) in x.iter().zip(y) {
                    let n = path.len();
                    path.push_str(&format!("[{k:?}]"));
                    if k != l || !go(p, q, path) {
                        return false;
                    }
                    path.truncate(n);
                }
                true
            }
            _ => a == b,
        }
    }
    let mut p = String::from("$");
    if go(a, b, &mut p) {
        None
    } else {
        Some(p)
    }
}

/// Tabular rows take the column order of their first row (the only reordering an encoder does).
/// Arrays directly inside arrays are never written as tables.
pub fn normalise_rows(v: &Value) -> Value {
    fn go(v: &Value, tables: bool) -> Value {
        match v {
            Value::Array(items) => {
                if let Some(cols) = crate::model::table_columns(items).filter(|_| tables) {
                    return Value::Array(
                        items
                            .iter()
                            .map(|r| Value::Object(cols.iter().map(|c| (c.clone(), r[c].clone())).collect()))
                            .collect(),
                    );
                }
                Value::Array(items.iter().map(|x| go(x, false)).collect())
            }
            Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), go(v, true))).collect()),
            _ => v.clone(),
        }
    }
    go(v, true)
}

/// Same, allowing the column reordering of tables.
pub fn diff_rows(a: &Value, b: &Value) -> Option<String> {
    diff(&normalise_rows(a), &normalise_rows(b))
}

/// Nodes of a value and its nesting depth.
pub fn size(v: &Value) -> (usize, usize) {
    match v {
        Value::Array(a) => a.iter().map(size).fold((1, 1), |(n, d), (m, e)| (n + m, d.max(e + 1))),
        Value::Object(o) => o.values().map(size).fold((1, 1), |(n, d), (m, e)| (n + m, d.max(e + 1))),
        _ => (1, 0),
    }
}
