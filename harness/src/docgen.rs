//! Generator of TOON documents written the way other encoders or people would write them: any
//! legal choice of form, delimiter, quoting, escapes, number spelling, spacing, blank lines and,
//! for lenient documents, indentation. Every line carries what it is, so that monitors can damage
//! a document in a known way at a known place.

use crate::core::{delim_char, Delimiter};
use crate::model::{bare_key, identifier, is_prim, must_quote, table_columns};
use crate::rng::Rng;
use serde_json::{Map, Number, Value};

#[derive(Clone, Debug, Default)]
pub struct Line {
    pub indent: usize,
    pub body: String,
    /// Byte ranges of quoted tokens in the body.
    pub quoted: Vec<(usize, usize)>,
    /// Array whose header this line is.
    pub header: Option<usize>,
    /// Array of which this line starts an element (a row or a list item).
    pub element: Option<usize>,
    /// Arrays inside which this line lies (header excluded).
    pub region: Vec<usize>,
    /// Offset of the colon of a plain "key: value" or "key:" field.
    pub colon: Option<usize>,
    /// A "key: primitive" field.
    pub scalar_field: bool,
    pub blank: bool,
    /// The header or a row of a table of the old form: that array.
    pub old_header: Option<usize>,
    pub old_row: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Inline,
    List,
    Table,
    Legacy,
}

#[derive(Clone, Debug)]
pub struct Array {
    pub form: Form,
    pub len: usize,
    pub delim: char,
    /// Byte ranges in the header line's body: the bracket content and the column names.
    pub bracket: (usize, usize),
    pub columns: Option<(usize, usize)>,
    pub values: Option<(usize, usize)>,
    pub cols: usize,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub lines: Vec<Line>,
    pub arrays: Vec<Array>,
    pub step: usize,
    /// What the document means.
    pub value: Value,
    pub final_newlines: usize,
}

impl Doc {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (i, l) in self.lines.iter().enumerate() {
            if i > 0 {
                s.push('\n');
            }
            for _ in 0..l.indent {
                s.push(' ');
            }
            s.push_str(&l.body);
        }
        for _ in 0..self.final_newlines {
            s.push('\n');
        }
        s
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// Follow every rule of strict mode; otherwise indentation is free and blank lines go anywhere.
    pub strict: bool,
    pub step: usize,
    /// Out of 100: how often to deviate from the encoder's own choices.
    pub freedom: usize,
    pub legacy: bool,
    /// Write characters that need no escape as \\u escapes now and then.
    pub escapes: bool,
    /// Leave strings bare wherever their place lets them be read as they are.
    pub bare: bool,
}

struct Gen<'a> {
    r: &'a mut Rng,
    st: Style,
    lines: Vec<Line>,
    arrays: Vec<Array>,
}

/// Any legal quoted form of a string.
pub fn quote_freely(r: &mut Rng, s: &str, odd_escapes: usize) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        let u = c as u32;
        let odd = r.below(100) < odd_escapes;
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '\n' => out += "\\n",
            '\r' => out += "\\r",
            '\t' => out += "\\t",
            _ if u < 0x20 || u == 0x7f => out += &format!("\\u{u:04x}"),
            _ if odd && u < 0x10000 => out += &if r.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") },
            _ => out.push(c),
        }
    }
    out + "\""
}

/// Any spelling of a number that denotes exactly the same number.
pub fn spell(r: &mut Rng, n: &Number, freedom: usize) -> String {
    let plain = crate::model::number(n);
    if r.below(100) >= freedom / 2 {
        return plain;
    }
    let small = n.as_i64().is_some_and(|i| i.unsigned_abs() < 1 << 50);
    if r.chance(1, 400) && (plain.contains('.') || small) {
        let zeros = "0".repeat(crate::gen::big_size(r, 2000));
        return match r.below(3) {
            0 => format!("{plain}{}{zeros}", if small { "." } else { "" }),
            1 => format!("{plain}{}0e+{zeros}", if small { "." } else { "" }),
            _ => format!("{plain}E{zeros}"),
        };
    }
    let tail = *r.pick(&["e0", "E0", "e+0", "e-0", "E+00"]);
    if plain.contains('.') {
        match r.below(4) {
            0 => plain + "0",
            1 => plain + tail,
            2 => format!("{:e}", n.as_f64().unwrap()),
            _ => format!("{:E}", n.as_f64().unwrap()),
        }
    } else if small {
        match r.below(5) {
            0 => plain + ".0",
            1 => plain + tail,
            2 if plain != "0" => plain + "0e-1",
            3 => plain + ".000" + tail,
            _ => {
                let t = plain.trim_end_matches('0');
                if t.len() < plain.len() && !t.is_empty() && t != "-" {
                    format!("{t}e{}", plain.len() - t.len())
                } else {
                    plain
                }
            }
        }
    } else if n.is_f64() {
        format!("{:e}", n.as_f64().unwrap())
    } else {
        plain
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Place {
    Root,
    Field,
    Item,
    Inline,
    Row,
}

/// Whether a string can stand bare at this place although the encoder would quote it: what looks
/// like structure is none there.
fn bare_value(s: &str, delim: Option<char>, place: Place) -> bool {
    let typed = must_quote(&s.replace(|c: char| "[]{}:\"\\,|\t".contains(c), "x"), '"') || s.starts_with('"');
    let within = |not: &[char]| !s.contains(not);
    !typed
        && match place {
            Place::Root => false,
            Place::Field => within(&['\t']),
            Place::Item => within(&['\t', ':']) && !s.starts_with('['),
            Place::Inline => within(&['\t', '"', delim.unwrap()]),
            Place::Row => within(&['\t', '"', ':', delim.unwrap()]) && !s.starts_with('@'),
        }
}

impl Gen<'_> {
    fn free(&mut self) -> bool {
        self.r.below(100) < self.st.freedom
    }

    /// Append a primitive token to the line; `delim` is the active delimiter, if any.
    fn token(&mut self, l: &mut Line, v: &Value, delim: Option<char>, place: Place) {
        match v {
            Value::Null => l.body += "null",
            Value::Bool(b) => l.body += if *b { "true" } else { "false" },
            Value::Number(n) => l.body += &spell(self.r, n, self.st.freedom),
            Value::String(s) => {
                // Outside arrays the delimiters have no meaning
                let needs = must_quote(s, delim.unwrap_or('"')) && !(self.st.bare && bare_value(s, delim, place));
                let edges = s.starts_with('\t') || s.ends_with('\t');
                if needs || edges || self.r.below(100) < self.st.freedom / 3 {
                    let q = quote_freely(self.r, s, if self.st.escapes { self.st.freedom / 4 } else { 0 });
                    l.quoted.push((l.body.len(), l.body.len() + q.len()));
                    l.body += &q;
                } else {
                    l.body += s;
                }
            }
            _ => unreachable!(),
        }
    }

    fn key(&mut self, l: &mut Line, k: &str) {
        if !bare_key(k) || self.r.below(100) < self.st.freedom / 4 {
            let q = quote_freely(self.r, k, if self.st.escapes { self.st.freedom / 4 } else { 0 });
            l.quoted.push((l.body.len(), l.body.len() + q.len()));
            l.body += &q;
        } else {
            l.body += k;
        }
    }

    fn cells(&mut self, l: &mut Line, vs: &[&Value], delim: char, place: Place) {
        let pad = self.free() && self.r.chance(1, 2);
        for (i, v) in vs.iter().enumerate() {
            if i > 0 {
                if pad && self.r.chance(1, 4) {
                    l.body.push(' ');
                }
                l.body.push(delim);
                if pad && self.r.chance(1, 2) {
                    l.body.push(' ');
                }
            }
            self.token(l, v, Some(delim), place);
        }
    }

    fn gap(&mut self) -> &'static str {
        if self.free() && self.r.chance(1, 6) {
            self.r.pick(&["  ", "   "])
        } else {
            " "
        }
    }

    fn push(&mut self, l: Line) -> usize {
        self.lines.push(l);
        self.lines.len() - 1
    }

    fn deeper(&mut self, indent: usize, levels: usize) -> usize {
        if self.st.strict || self.r.chance(1, 2) {
            indent + levels * self.st.step
        } else {
            // Free indentation: anything deeper than what it must not be confused with
            indent + (levels - 1) * self.st.step + self.r.range(1, 2 * self.st.step + 1)
        }
    }

    fn fields(&mut self, m: &Map<String, Value>, indent: usize, region: &[usize]) -> Map<String, Value> {
        let mut out = Map::new();
        for (k, v) in m {
            let l = Line { indent, region: region.to_vec(), ..Line::default() };
            let w = self.field(l, k, v, indent, 1, region);
            out.insert(k.clone(), w);
        }
        out
    }

    /// A field whose line has been started (it may follow a hyphen). `levels` is how many steps
    /// below `indent` its children go.
    fn field(&mut self, mut l: Line, k: &str, v: &Value, indent: usize, levels: usize, region: &[usize]) -> Value {
        let inside: Vec<usize> = region.to_vec();
        if let Value::Array(a) = v {
            if self.st.legacy && levels == 1 && self.r.chance(1, 3) {
                if let Some(w) = self.legacy(Some((&l, k)), a, indent, &inside) {
                    return w;
                }
            }
        }
        self.key(&mut l, k);
        match v {
            Value::Array(a) => self.array(l, a, indent, levels, &inside),
            Value::Object(m) => {
                l.colon = Some(l.body.len());
                l.body.push(':');
                self.push(l);
                if m.is_empty() {
                    return Value::Object(Map::new());
                }
                let at = self.deeper(indent, levels);
                Value::Object(self.fields(m, at, &inside))
            }
            p => {
                l.colon = Some(l.body.len());
                l.body.push(':');
                l.body += self.gap();
                l.scalar_field = true;
                self.token(&mut l, p, None, Place::Field);
                self.push(l);
                p.clone()
            }
        }
    }

    /// The old table form: a line "@<delimiter> columns", then hyphenated rows beside it.
    fn legacy(&mut self, field: Option<(&Line, &str)>, a: &[Value], indent: usize, region: &[usize]) -> Option<Value> {
        let cols = table_columns(a)?;
        if field.is_some_and(|f| !identifier(f.1)) || !cols.iter().all(|c| identifier(c)) {
            return None;
        }
        let simple = |v: &Value| match v {
            Value::String(s) => identifier(s) && !["nan", "inf", "infinity"].contains(&s.to_lowercase().as_str()),
            Value::Number(n) => n.as_i64().is_some_and(|i| i >= 0),
            _ => true,
        };
        if !a.iter().all(|r| r.as_object().unwrap().values().all(simple)) || cols.iter().any(|c| ["true", "false", "null", "nan", "inf", "infinity"].contains(&c.to_lowercase().as_str())) {
            return None;
        }
        let delim = *self.r.pick(&[',', '|', '\t']);
        let sep = delim.to_string();
        if let Some((l, k)) = field {
            let mut first = l.clone();
            first.body += k;
            first.body.push(':');
            self.push(first);
        }
        let id = self.arrays.len();
        self.arrays.push(Array { form: Form::Legacy, len: a.len(), delim, bracket: (0, 0), columns: None, values: None, cols: cols.len() });
        let mut inner = region.to_vec();
        inner.push(id);
        let at = if field.is_some() { indent + self.st.step } else { indent };
        self.push(Line { indent: at, body: format!("@{delim} {}", cols.join(&sep)), region: inner.clone(), old_header: Some(id), ..Line::default() });
        let mut rows = vec![];
        for row in a {
            let cells: Vec<String> = cols.iter().map(|c| crate::model::prim(&row[c], delim)).collect();
            self.push(Line { indent: at, body: format!("- {}", cells.join(&sep)), region: inner.clone(), old_row: Some(id), ..Line::default() });
            rows.push(Value::Object(cols.iter().map(|c| (c.clone(), row[c].clone())).collect()));
        }
        Some(Value::Array(rows))
    }

    fn array(&mut self, mut l: Line, a: &[Value], indent: usize, levels: usize, region: &[usize]) -> Value {
        let d = *self.r.pick(&[Delimiter::Comma, Delimiter::Comma, Delimiter::Tab, Delimiter::Pipe]);
        let delim = delim_char(d);
        let cols = table_columns(a);
        let prims = a.iter().all(is_prim);
        let form = if a.is_empty() {
            Form::List
        } else if cols.is_some() && !(self.free() && self.r.chance(1, 3)) {
            Form::Table
        } else if prims && !(self.free() && self.r.chance(1, 2)) {
            Form::Inline
        } else {
            Form::List
        };
        let id = self.arrays.len();
        l.body.push('[');
        let b0 = l.body.len();
        l.body += &a.len().to_string();
        if d != Delimiter::Comma {
            l.body.push(delim);
        }
        let bracket = (b0, l.body.len());
        l.body.push(']');
        l.header = Some(id);
        let mut info = Array { form, len: a.len(), delim, bracket, columns: None, values: None, cols: cols.as_ref().map_or(0, |c| c.len()) };
        let mut inner = region.to_vec();
        inner.push(id);
        match form {
            Form::Inline => {
                l.body.push(':');
                l.body += self.gap();
                let s = l.body.len();
                let vs: Vec<&Value> = a.iter().collect();
                self.cells(&mut l, &vs, delim, Place::Inline);
                info.values = Some((s, l.body.len()));
                self.arrays.push(info);
                self.push(l);
                Value::Array(a.to_vec())
            }
            Form::Table => {
                let mut cols = cols.unwrap();
                if self.free() {
                    // Any column order is legal
                    for i in (1..cols.len()).rev() {
                        let j = self.r.below(i + 1);
                        cols.swap(i, j);
                    }
                }
                l.body.push('{');
                let s = l.body.len();
                let pad = self.free() && self.r.chance(1, 4);
                for (i, c) in cols.iter().enumerate() {
                    if i > 0 {
                        l.body.push(delim);
                        if pad {
                            l.body.push(' ');
                        }
                    }
                    self.key(&mut l, c);
                }
                info.columns = Some((s, l.body.len()));
                l.body += "}:";
                self.arrays.push(info);
                self.push(l);
                let at = self.deeper(indent, levels);
                let mut rows = vec![];
                for row in a {
                    let mut rl = Line { indent: at, region: inner.clone(), element: Some(id), ..Line::default() };
                    let vs: Vec<&Value> = cols.iter().map(|c| &row[c]).collect();
                    self.cells(&mut rl, &vs, delim, Place::Row);
                    self.push(rl);
                    rows.push(Value::Object(cols.iter().map(|c| (c.clone(), row[c].clone())).collect()));
                }
                Value::Array(rows)
            }
            _ => {
                l.body.push(':');
                self.arrays.push(info);
                self.push(l);
                let at = self.deeper(indent, levels);
                let items: Vec<Value> = a.iter().map(|v| self.item(v, at, id, &inner)).collect();
                Value::Array(items)
            }
        }
    }

    fn item(&mut self, v: &Value, indent: usize, id: usize, region: &[usize]) -> Value {
        let mut l = Line { indent, region: region.to_vec(), element: Some(id), ..Line::default() };
        match v {
            Value::Object(m) if m.is_empty() => {
                l.body = "-".into();
                self.push(l);
                v.clone()
            }
            Value::Object(m) => {
                if self.free() && self.r.chance(1, 6) {
                    // Hyphen alone, fields below it
                    l.body = "-".into();
                    self.push(l);
                    return Value::Object(self.fields(m, indent + self.st.step, region));
                }
                l.body = "- ".into();
                let (k0, v0) = m.iter().next().unwrap();
                let mut out = Map::new();
                let w = self.field(l, k0, v0, indent, 2, region);
                out.insert(k0.clone(), w);
                let rest: Map<String, Value> = m.iter().skip(1).map(|(k, v)| (k.clone(), v.clone())).collect();
                out.extend(self.fields(&rest, indent + self.st.step, region));
                Value::Object(out)
            }
            Value::Array(a) => {
                l.body = "- ".into();
                self.array(l, a, indent, 1, region)
            }
            p => {
                l.body = "- ".into();
                self.token(&mut l, p, None, Place::Item);
                self.push(l);
                p.clone()
            }
        }
    }
}

/// Write `v` as a document in a random style.
pub fn write(r: &mut Rng, v: &Value, st: Style) -> Doc {
    let mut g = Gen { r, st, lines: vec![], arrays: vec![] };
    let value = match v {
        Value::Object(m) => Value::Object(g.fields(m, 0, &[])),
        Value::Array(a) => {
            let old = if g.st.legacy && g.r.chance(1, 3) { g.legacy(None, a, 0, &[]) } else { None };
            old.unwrap_or_else(|| g.array(Line::default(), a, 0, 1, &[]))
        }
        p => {
            let mut l = Line::default();
            g.token(&mut l, p, None, Place::Root);
            g.push(l);
            p.clone()
        }
    };
    let (lines, arrays) = (g.lines, g.arrays);
    let mut out: Vec<Line> = vec![];
    let blanks = g.r.below(100) < st.freedom && g.r.chance(1, 3);
    let trailing = g.r.below(100) < st.freedom && g.r.chance(1, 3);
    for l in lines {
        if blanks && g.r.chance(1, 6) && (!st.strict || l.region.is_empty()) {
            let spaces = if g.r.chance(1, 3) { " ".repeat(g.r.below(5)) } else { String::new() };
            out.push(Line { body: spaces, blank: true, ..Line::default() });
        }
        out.push(l);
    }
    if trailing {
        for l in out.iter_mut().filter(|l| !l.blank) {
            if g.r.chance(1, 5) {
                l.body += *g.r.pick(&[" ", "  "]);
            }
        }
    }
    let final_newlines = if g.r.below(100) < st.freedom { g.r.below(3) } else { 0 };
    Doc { lines: out, arrays, step: st.step, value, final_newlines }
}
