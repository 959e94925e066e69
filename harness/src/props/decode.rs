//! C05 well-formed documents are accepted, C06 malformed ones are rejected, C07 strict against
//! lenient, C22 error positions.

use super::encode::{all_decoders, doc};
use crate::core::*;
use crate::docgen::{self, Doc, Form, Line, Style};
use crate::rng::Rng;
use crate::{eq, gen};
use serde_json::{json, Value};
use std::collections::HashSet;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C05",
        quick: 1_200_000,
        thorough: 12_000_000,
        rule: "random values written as documents with every legal freedom of form (inline, list or table; delimiter per array; optional quotes and escapes; number spellings; padding; blank lines; trailing spaces; hyphen alone; column order; legacy @ tables; free indentation in lenient documents), decoded and compared with the value they denote. Non-trivial: at least 2 lines; distinct by text",
        run: c05,
    },
    Prop {
        id: "C06",
        quick: 2_500_000,
        thorough: 25_000_000,
        rule: "a well-formed strict document is damaged in exactly one of 24 known ways; strict decoding must fail through every entry point, and lenient decoding where strings, escapes, lengths or widths are broken, and the undamaged document must be accepted. Non-trivial: every damaged document; distinct by text",
        run: c06,
    },
    Prop {
        id: "C07",
        quick: 1_200_000,
        thorough: 12_000_000,
        rule: "documents made of unique words, then 1 to 3 random edits of lines, indentation or characters; whenever strict decoding accepts, lenient decoding must give the same value and every word of the text must be found in it. Non-trivial: edited documents that strict mode accepts; distinct by text",
        run: c07,
    },
    Prop {
        id: "C22",
        quick: 2_500_000,
        thorough: 25_000_000,
        rule: "damaged documents as for C06, after 0 to 6 harmless blank or sibling lines; the line number of the error must be that of the damage (or of the header whose count is wrong), and within the document. Non-trivial: every error that reports a line; distinct by text and line",
        run: c22,
    },
];

pub fn style(r: &mut Rng, strict: bool) -> Style {
    Style { strict, step: *r.pick(&[2, 2, 2, 4, 3, 1]), freedom: *r.pick(&[0, 30, 60, 100]), legacy: r.chance(1, 5), escapes: true, bare: false }
}

/// An indent of 0 in the options means the default, 2.
pub fn decode_options(r: &mut Rng, step: usize, strict: bool) -> Options {
    let indent = if step == 2 && r.chance(1, 12) { 0 } else { step };
    Options { strict, indent, delimiter: *r.pick(&DELIMS), ..Options::default() }
}

fn c05(c: &mut Case) -> Verdict {
    let v = doc(&mut c.rng);
    let strict = c.rng.chance(2, 3);
    let st = Style { bare: c.rng.chance(1, 3), ..style(&mut c.rng, strict) };
    let seed = c.rng.next();
    let o = decode_options(&mut c.rng, st.step, strict);
    let every = c.no % 16 == 0;
    let d = docgen::write(&mut Rng::new(seed), &v, st);
    let t = d.text();
    c.obs.add("lines", d.lines.len() as u64);
    for a in &d.arrays {
        c.obs.count(match a.form {
            Form::Inline => "inline_arrays",
            Form::List => "lists",
            Form::Table => "tables",
            Form::Legacy => "legacy_tables",
        });
    }
    c.obs.count(if strict { "strict_documents" } else { "free_documents" });
    if d.lines.len() > 1 {
        c.obs.nontrivial(t.as_bytes());
    }
    if c.no % 1000 == 17 {
        c.obs.sample(|| json!({"text": t, "value": d.value}));
    }
    let test = |v: &Value| -> Result<(), (String, String)> {
        let d = docgen::write(&mut Rng::new(seed), v, st);
        let t = d.text();
        for s in if strict { vec![true, false] } else { vec![false] } {
            let o = Options { strict: s, ..o.clone() };
            let got = if every { all_decoders(&t, &o) } else { vec![("decode_from_str", decode_value(&t, &o))] };
            for (name, r) in got {
                match r {
                    Ok(b) => {
                        if let Some(at) = eq::diff(&d.value, &b) {
                            return Err((t.clone(), format!("{name} (strict {s}) reads {t:?} as {b}, it denotes {} (differs at {at})", d.value)));
                        }
                    }
                    Err(e) => return Err((t.clone(), format!("{name} (strict {s}) rejects {t:?}: {e}"))),
                }
            }
        }
        Ok(())
    };
    if test(&v).is_err() {
        let m = gen::minimize(&v, &|x| test(x).is_err());
        let (t, what) = test(&m).unwrap_err();
        return violation(what, json!({"text": t, "value": m, "options": opts_json(&o)}));
    }
    Ok(())
}

// ---------------------------------------------------------------- damage

pub struct Damaged {
    pub class: &'static str,
    pub text: String,
    /// Line (1-based) that an error has to name, if the class determines it.
    pub line: Option<usize>,
}

fn render(lines: &[Line], final_newlines: usize) -> String {
    Doc { lines: lines.to_vec(), arrays: vec![], step: 2, value: Value::Null, final_newlines }.text()
}

fn pick_line(r: &mut Rng, d: &Doc, ok: impl Fn(&Line) -> bool) -> Option<usize> {
    let c: Vec<usize> = (0..d.lines.len()).filter(|i| !d.lines[*i].blank && ok(&d.lines[*i])).collect();
    if c.is_empty() {
        None
    } else {
        Some(*r.pick(&c))
    }
}

fn elements(d: &Doc, id: usize) -> Vec<usize> {
    (0..d.lines.len()).filter(|i| d.lines[*i].element == Some(id)).collect()
}

fn shift(mut l: Line, d: isize) -> Line {
    l.indent = (l.indent as isize + d) as usize;
    l
}

pub const CLASSES: usize = 22;
const OLD_TABLE: usize = 20;
/// Those that lenient mode reports as well.
const LENIENT_CLASSES: [usize; 10] = [0, 1, 2, 3, 7, 8, 9, 13, 14, 18];

/// Damage a well-formed strict document in one known way; None if the document has no place for it.
pub fn damage(r: &mut Rng, d: &Doc, class: usize) -> Option<Damaged> {
    let mut ls = d.lines.clone();
    let at = |i: usize| Some(i + 1);
    let (name, line) = match class {
        0 | 1 => {
            // A declared length that is wrong: by one, or by a lot
            let i = pick_line(r, d, |l| l.header.is_some())?;
            let a = &d.arrays[d.lines[i].header.unwrap()];
            let wrong = if class == 0 {
                if a.len > 0 && r.chance(1, 2) {
                    a.len - 1
                } else {
                    a.len + 1
                }
            } else {
                let w = *r.pick(&[0usize, 1, 2, 3, 7, 10, 99, 1000, 4294967296, 1 << 40, usize::MAX]);
                if w == a.len {
                    w.wrapping_add(5)
                } else {
                    w
                }
            };
            let digits = a.len.to_string().len();
            ls[i].body.replace_range(a.bracket.0..a.bracket.0 + digits, &wrong.to_string());
            (if class == 0 { "length off by one" } else { "length wrong" }, at(i))
        }
        2 => {
            // A row loses its last cell
            let i = pick_line(r, d, |l| l.element.is_some_and(|a| d.arrays[a].form == Form::Table && d.arrays[a].cols > 1))?;
            let delim = d.arrays[d.lines[i].element.unwrap()].delim;
            let cut = ls[i].body.char_indices().filter(|(p, ch)| *ch == delim && !d.lines[i].quoted.iter().any(|q| q.0 <= *p && *p < q.1)).last()?.0;
            ls[i].body.truncate(cut);
            ("row with a cell too few", at(i))
        }
        3 => {
            let i = pick_line(r, d, |l| l.element.is_some_and(|a| d.arrays[a].form == Form::Table))?;
            let delim = d.arrays[d.lines[i].element.unwrap()].delim;
            let t = ls[i].body.trim_end_matches(' ').len();
            ls[i].body.truncate(t);
            ls[i].body.push(delim);
            ls[i].body += r.pick(&["x", "1", "\"\"", "null", "", ""]);
            ("row with a cell too many", at(i))
        }
        4 => {
            // Blank line inside a list or table, after its first line
            let id = r.below(d.arrays.len().max(1));
            let inside: Vec<usize> = (0..d.lines.len()).filter(|i| d.lines[*i].region.contains(&id)).skip(1).collect();
            if inside.is_empty() {
                return None;
            }
            let i = *r.pick(&inside);
            let n = r.range(1, 2);
            for _ in 0..n {
                ls.insert(i, Line { blank: true, ..Line::default() });
            }
            ("blank line inside an array", at(i))
        }
        5 => {
            let i = pick_line(r, d, |l| l.indent > 0)?;
            let ind = ls[i].indent;
            let p = r.below(ind);
            let body = format!("{}\t{}{}", " ".repeat(p), " ".repeat(ind - p - r.below(2).min(ind - p)), ls[i].body);
            ls[i] = Line { body, ..Line::default() };
            ("tab in indentation", at(i))
        }
        6 => {
            if d.step < 2 {
                return None;
            }
            let i = pick_line(r, d, |_| true)?;
            ls[i].indent += r.range(1, d.step - 1);
            ("indentation not a multiple", at(i))
        }
        7 => {
            // A quoted token loses its closing quote
            let i = pick_line(r, d, |l| !l.quoted.is_empty())?;
            let q = *r.pick(&d.lines[i].quoted);
            ls[i].body.remove(q.1 - 1);
            // Another quote further on might close it again
            if ls[i].body[q.1 - 1..].contains('"') {
                return None;
            }
            // In a header or a key it is the structure of the line that is lost
            let value = ls[i].body.trim_end_matches(' ').len() + 1 == q.1 && d.lines[i].header.is_none_or(|a| d.arrays[a].form == Form::Inline);
            ("quote left open", at(i).filter(|_| value))
        }
        8 => {
            let i = pick_line(r, d, |l| !l.quoted.is_empty())?;
            let q = *r.pick(&d.lines[i].quoted);
            if r.chance(1, 2) {
                // Four characters that are not all hexadecimal digits, or any other letter
                let bad = if r.chance(1, 2) {
                    let mut h: Vec<char> = (0..4).map(|_| *r.pick(&['0', '1', '4', '9', 'a', 'F', 'E'])).collect();
                    h[r.below(4)] = *r.pick(&['+', '-', '_', ' ', 'g', 'G', 'x', '.', '１', '٣', 'é', '{', 'o', ',']);
                    format!("\\u{}", h.iter().collect::<String>())
                } else {
                    loop {
                        let c = if r.chance(3, 4) { (0x20 + r.below(0x5f)) as u8 as char } else { *r.pick(&['é', '日', '😀', '\u{7f}', '\u{a0}']) };
                        if !"\"\\/bfnrtu".contains(c) {
                            break format!("\\{c}");
                        }
                    }
                };
                let start = r.chance(1, 2);
                ls[i].body.insert_str(if start { q.0 + 1 } else { q.1 - 1 }, &bad);
                return Some(Damaged { class: "invalid escape", text: render(&ls, d.final_newlines), line: at(i) });
            }
            let bad = *r.pick(&["\\x", "\\q", "\\u12", "\\uD800", "\\u00G0", "\\ ", "\\'", "\\0", "\\uDFFF", "\\a", "\\N", "\\u", "\\U0041", "\\v"]);
            // at the end of the token, so that short \u escapes cannot borrow digits
            ls[i].body.insert_str(q.1 - 1, bad);
            ("invalid escape", at(i))
        }
        9 => {
            // Text after a closing quote: of a key, a column, a cell
            if r.chance(1, 2) {
                let i = pick_line(r, d, |l| !l.quoted.is_empty())?;
                let q = *r.pick(&d.lines[i].quoted);
                ls[i].body.insert_str(q.1, r.pick(&["x", " x", "0", ".5", " null", "_", " \"b\"", "\"b\""]));
                return Some(Damaged { class: "text after a quote", text: render(&ls, d.final_newlines), line: at(i) });
            }
            // of a value
            let i = pick_line(r, d, |l| l.quoted.last().is_some_and(|q| l.body.trim_end_matches(' ').len() == q.1))?;
            let end = d.lines[i].quoted.last().unwrap().1;
            ls[i].body.truncate(end);
            ls[i].body += r.pick(&["x", " x", "0", " null", "\"", "\"a\"", ".5", " \"b\""]);
            ("text after a closing quote", at(i))
        }
        10 => {
            // A field without its colon
            let header = r.chance(1, 2);
            let i = if header {
                pick_line(r, d, |l| l.header.is_some() && l.element.is_none())?
            } else {
                pick_line(r, d, |l| l.scalar_field && l.element.is_none() && l.quoted.is_empty())?
            };
            // Not the first below its key or hyphen, where it would be that one's value
            let before = d.lines[..i].iter().rfind(|l| !l.blank);
            if !before.is_some_and(|l| l.scalar_field && l.element.is_none() && l.indent == d.lines[i].indent) {
                return None;
            }
            if header {
                let a = &d.arrays[d.lines[i].header.unwrap()];
                ls[i].body.remove(a.columns.map_or(a.bracket.1, |c| c.1) + 1);
                if ls[i].body.contains(':') {
                    return None;
                }
                return Some(Damaged { class: "missing colon of an array", text: render(&ls, d.final_newlines), line: None });
            }
            ls[i].body.remove(d.lines[i].colon.unwrap());
            if ls[i].body.contains([':', '[']) {
                return None;
            }
            ("missing colon", None)
        }
        11 => {
            // Column names separated by another delimiter than declared
            let i = pick_line(r, d, |l| l.header.is_some_and(|a| d.arrays[a].form == Form::Table && d.arrays[a].cols > 1))?;
            let a = &d.arrays[d.lines[i].header.unwrap()];
            let (s, e) = a.columns.unwrap();
            let other = *r.pick(match a.delim {
                ',' => &['|', '\t'],
                '|' => &[',', '\t'],
                _ => &[',', '|'],
            });
            let body = ls[i].body.clone();
            let mut cols = String::new();
            for (p, ch) in body[s..e].char_indices() {
                let quoted = d.lines[i].quoted.iter().any(|q| q.0 <= s + p && s + p < q.1);
                cols.push(if ch == a.delim && !quoted { other } else { ch });
            }
            ls[i].body = format!("{}{}{}", &body[..s], cols, &body[e..]);
            if r.chance(1, 2) {
                // rows that fit the single column a reader would see
                for j in 0..d.lines.len() {
                    if d.lines[j].element == d.lines[i].header {
                        let cut = d.lines[j].body.char_indices().find(|(p, ch)| *ch == a.delim && !d.lines[j].quoted.iter().any(|q| q.0 <= *p && *p < q.1));
                        ls[j].body = d.lines[j].body[..cut?.0].trim_end_matches([' ', '\t']).to_string();
                    }
                }
            }
            ("columns with another delimiter", at(i))
        }
        12 => {
            // A row separated by another delimiter than declared
            let i = pick_line(r, d, |l| l.element.is_some_and(|a| d.arrays[a].form == Form::Table && d.arrays[a].cols > 1))?;
            let a = &d.arrays[d.lines[i].element.unwrap()];
            let other = *r.pick(match a.delim {
                ',' => &['|', '\t'],
                '|' => &[',', '\t'],
                _ => &[',', '|'],
            });
            let body = ls[i].body.clone();
            ls[i].body = body
                .char_indices()
                .map(|(p, ch)| {
                    let quoted = d.lines[i].quoted.iter().any(|q| q.0 <= p && p < q.1);
                    if ch == a.delim && !quoted {
                        other
                    } else {
                        ch
                    }
                })
                .collect();
            ("row with another delimiter", at(i))
        }
        13 => {
            // An element is lost
            let i = pick_line(r, d, |l| l.element.is_some())?;
            let id = d.lines[i].element.unwrap();
            let end = (i + 1..ls.len()).find(|j| !ls[*j].blank && ls[*j].indent <= ls[i].indent).unwrap_or(ls.len());
            let head = (0..d.lines.len()).find(|j| d.lines[*j].header == Some(id)).unwrap();
            ls.drain(i..end);
            ("element missing", at(head))
        }
        14 => {
            // An element twice
            let i = pick_line(r, d, |l| l.element.is_some())?;
            let id = d.lines[i].element.unwrap();
            let end = (i + 1..ls.len()).find(|j| !ls[*j].blank && ls[*j].indent <= ls[i].indent).unwrap_or(ls.len());
            let head = (0..d.lines.len()).find(|j| d.lines[*j].header == Some(id)).unwrap();
            let end = i + 1 + ls[i..end].iter().rposition(|l| !l.blank).unwrap();
            let copy: Vec<Line> = ls[i..end].iter().filter(|l| !l.blank).cloned().collect();
            for (k, l) in copy.into_iter().enumerate() {
                ls.insert(end + k, l);
            }
            ("element repeated", at(head))
        }
        15 => {
            // Content after a root array or a root primitive
            if d.value.is_object() {
                return None;
            }
            let extra = r.pick(&["extra", "extra: 1", "\"x\"", "12", "[1]: 5", "k:", "t[1]{a}:", "null"]).to_string();
            let row = (extra == "t[1]{a}:").then(|| Line { indent: d.step, body: "1".into(), ..Line::default() });
            if r.chance(1, 3) {
                for _ in 0..r.range(1, 3) {
                    ls.push(Line { blank: true, ..Line::default() });
                }
            }
            ls.push(Line { body: extra, ..Line::default() });
            let at = ls.len();
            ls.extend(row);
            ("content after the root value", Some(at))
        }
        16 => {
            // A field one level deeper than the scalar sibling before it
            let c: Vec<usize> = (1..d.lines.len())
                .filter(|i| {
                    let (p, l) = (&d.lines[*i - 1], &d.lines[*i]);
                    !p.blank && p.scalar_field && p.element.is_none() && l.colon.is_some() && l.indent == p.indent && l.element.is_none()
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            ls[i] = shift(ls[i].clone(), d.step as isize);
            ("field below a scalar", None)
        }
        17 => {
            // The document ends in the middle of an array
            let ids: Vec<usize> = (0..d.arrays.len()).filter(|a| !elements(d, *a).is_empty()).collect();
            if ids.is_empty() {
                return None;
            }
            let id = *r.pick(&ids);
            let es = elements(d, id);
            let i = *r.pick(&es);
            ls.truncate(i);
            ("truncated inside an array", None)
        }
        18 => {
            // A value of an inline array is lost or added
            let i = pick_line(r, d, |l| l.header.is_some_and(|a| d.arrays[a].form == Form::Inline))?;
            let a = &d.arrays[d.lines[i].header.unwrap()];
            let (s, e) = a.values.unwrap();
            if a.len > 1 && r.chance(1, 2) {
                let cut = ls[i].body[s..e].char_indices().filter(|(p, ch)| *ch == a.delim && {
                    // Not in a quoted token; those are in order
                    let q = &d.lines[i].quoted;
                    let before = q.partition_point(|q| q.0 <= s + *p);
                    before == 0 || q[before - 1].1 <= s + *p
                }).last()?.0;
                ls[i].body.truncate(s + cut);
            } else {
                ls[i].body.insert_str(e, &format!("{}{}", a.delim, r.pick(&["1", "x", "\"\"", "null", ""])));
            }
            ("inline array with another length", at(i))
        }
        19 => {
            // Content on the line of a header whose elements are below it
            let i = pick_line(r, d, |l| l.header.is_some_and(|a| d.arrays[a].form != Form::Inline && d.arrays[a].len > 0))?;
            let t = ls[i].body.trim_end_matches(' ').len();
            ls[i].body.truncate(t);
            if !ls[i].body.ends_with(':') {
                return None;
            }
            let a = &d.arrays[d.lines[i].header.unwrap()];
            let mut extra = r.pick(&["x", "1", "\"q\"", "null", "- x", "a: 1"]).to_string();
            if r.chance(1, 2) {
                // As many values as are declared
                extra = vec![extra; a.len].join(&a.delim.to_string());
            }
            ls[i].body += &format!("{}{extra}", r.pick(&["", " ", "  "]));
            ("content behind a header", None)
        }
        OLD_TABLE => {
            // A table of the old form: a row with other cells than columns, or a bad header
            if r.chance(1, 4) {
                // A cell left bare that has to be quoted
                let i = pick_line(r, d, |l| l.old_row.is_some())?;
                let a = &d.arrays[d.lines[i].old_row.unwrap()];
                let body = d.lines[i].body.trim_end_matches(' ');
                let mut cells: Vec<&str> = body.strip_prefix("- ")?.split(a.delim).collect();
                let n = r.below(cells.len());
                cells[n] = r.pick(&["a:b", "x: y", "http://x", "say \"x\"", "a\\b", "C:\\n", "+5", "+x", "-x", "- 1", "-", "a\u{1}b", "a\u{7f}", "b\"", ""]);
                if cells.len() == 1 && cells[0].is_empty() {
                    return None;
                }
                ls[i].body = format!("- {}", cells.join(&a.delim.to_string()));
                ("bare cell of an old table", at(i))
            } else if r.chance(2, 3) {
                let i = pick_line(r, d, |l| l.old_row.is_some())?;
                let a = &d.arrays[d.lines[i].old_row.unwrap()];
                let t = ls[i].body.trim_end_matches(' ').len();
                ls[i].body.truncate(t);
                if a.cols > 1 && r.chance(1, 2) {
                    let cut = ls[i].body.rfind(a.delim)?;
                    ls[i].body.truncate(cut);
                } else {
                    ls[i].body.push(a.delim);
                    ls[i].body += r.pick(&["x", "1", "null", "\"\""]);
                }
                ("row of an old table with other cells", at(i))
            } else {
                let i = pick_line(r, d, |l| l.old_header.is_some())?;
                if r.chance(1, 2) {
                    let to = *r.pick(&[";", "x", "/", "é"]);
                    ls[i].body = ls[i].body.replace(d.arrays[d.lines[i].old_header.unwrap()].delim, to);
                } else {
                    let a = &d.arrays[d.lines[i].old_header.unwrap()];
                    let names = ls[i].body.trim_end_matches(' ')[3..].to_string();
                    let again = names.split(a.delim).next().unwrap().to_string();
                    ls[i].body = format!("@{} {names}{}{again}", a.delim, a.delim);
                }
                ("header of an old table", at(i))
            }
        }
        _ => {
            // A bare word where a field is expected below a key
            let i = pick_line(r, d, |l| l.colon.is_some() && !l.scalar_field && l.element.is_none())?;
            let mut j = i + 1;
            while j < ls.len() && ls[j].blank {
                j += 1;
            }
            let indent = ls[i].indent + d.step;
            if ls.get(j).is_none_or(|l| l.indent < indent) {
                return None;
            }
            ls.insert(j, Line { indent, body: r.pick(&["word", "two words", "12", "\"quoted\""]).to_string(), ..Line::default() });
            ("bare word below a key", None)
        }
    };
    Some(Damaged { class: name, text: render(&ls, d.final_newlines), line })
}

/// Somewhere in a document, an array that can be written in the old table form.
fn with_old_table(r: &mut Rng) -> Value {
    let cols: Vec<String> = (0..r.range(1, 4)).map(|i| format!("{}{i}", r.pick(&["a", "name", "x_"]))).collect();
    let rows = (0..r.range(1, 4))
        .map(|_| {
            let cell = |r: &mut Rng| match r.below(4) {
                0 => json!(r.below(1000)),
                1 => Value::Null,
                2 => json!(r.chance(1, 2)),
                _ => json!(format!("w{}", r.below(100))),
            };
            Value::Object(cols.iter().map(|k| (k.clone(), cell(r))).collect())
        })
        .collect();
    let mut v = Value::Array(rows);
    for _ in 0..r.below(4) {
        let mut m = serde_json::Map::new();
        let p = gen::profile(r);
        for i in 0..r.below(3) {
            m.insert(format!("f{i}"), if r.chance(1, 2) { json!(i) } else { gen::document(r, &p) });
        }
        m.insert("t".into(), v);
        for i in 0..r.below(3) {
            m.insert(format!("g{i}"), json!(format!("v{i}")));
        }
        v = Value::Object(m);
        if r.chance(1, 4) {
            v = json!([v]);
        }
    }
    v
}

/// A document with structure to damage in a given way.
fn damageable(c: &mut Case, strict: bool, class: usize) -> Doc {
    let r = &mut c.rng;
    if class == OLD_TABLE {
        let v = with_old_table(r);
        let st = Style { legacy: true, ..style(r, strict) };
        return docgen::write(r, &v, st);
    }
    let v = loop {
        let p = gen::profile(r);
        let mut v = gen::document(r, &p);
        if !crate::model::is_prim(&v) || r.chance(1, 4) {
            if r.chance(1, 4000) {
                gen::enlarge(r, &mut v);
            }
            break v;
        }
    };
    let mut st = style(r, strict);
    st.legacy = false;
    docgen::write(r, &v, st)
}

fn c06(c: &mut Case) -> Verdict {
    let class = c.rng.below(CLASSES);
    let d = damageable(c, true, class);
    let o = decode_options(&mut c.rng, d.step, true);
    let Some(m) = damage(&mut c.rng, &d, class) else {
        c.obs.count("no_place_for_damage");
        return Ok(());
    };
    c.obs.count(m.class);
    c.obs.nontrivial(m.text.as_bytes());
    if c.no % 1000 < 3 {
        c.obs.sample(|| json!({"damage": m.class, "text": m.text}));
    }
    let input = |t: &str| json!({"damage": m.class, "text": t, "undamaged": d.text(), "options": opts_json(&o)});
    if let Err(e) = decode_value(&d.text(), &o) {
        return violation(format!("the undamaged document is rejected: {e}"), input(&m.text));
    }
    let got = if c.no % 16 == 0 { all_decoders(&m.text, &o) } else { vec![("decode_from_str", decode_value(&m.text, &o))] };
    for (name, r) in got {
        match r {
            Err(Fail::Err { .. }) => c.obs.count("rejections"),
            Err(p) => return violation(format!("{name}: {p}"), input(&m.text)),
            Ok(v) => return violation(format!("{name} accepts a document with damage \"{}\" in strict mode: {:?} reads as {v}", m.class, m.text), input(&m.text)),
        }
    }
    // Some of it is no matter of strictness
    if LENIENT_CLASSES.contains(&class) && m.line.is_some() {
        let o = Options { strict: false, ..o };
        match decode_value(&m.text, &o) {
            Err(Fail::Err { .. }) => c.obs.count("lenient_rejections"),
            Err(p) => return violation(format!("lenient: {p}"), input(&m.text)),
            Ok(v) => return violation(format!("lenient mode accepts damage \"{}\": {:?} reads as {v}", m.class, m.text), input(&m.text)),
        }
    }
    Ok(())
}

fn c22(c: &mut Case) -> Verdict {
    // Wrong counts and broken strings are errors in lenient mode too, at the same lines
    let strict = c.rng.chance(2, 3);
    let class = if strict { c.rng.below(CLASSES) } else { *c.rng.pick(&LENIENT_CLASSES) };
    let d = damageable(c, strict, class);
    let o = decode_options(&mut c.rng, d.step, strict);
    let Some(mut m) = damage(&mut c.rng, &d, class) else {
        c.obs.count("no_place_for_damage");
        return Ok(());
    };
    // Harmless lines in front move the damage down
    let lead = if c.rng.chance(1, 2) { c.rng.range(1, 6) } else { 0 };
    let fields = d.value.is_object() && !m.text.is_empty();
    let mut front = String::new();
    for i in 0..lead {
        if fields && c.rng.chance(1, 2) {
            front += &format!("lead{i}: {i}\n");
        } else {
            front.push('\n');
        }
    }
    m.text = front + &m.text;
    let lines = m.text.split('\n').count();
    let input = || json!({"damage": m.class, "text": m.text, "options": opts_json(&o)});
    match decode_value(&m.text, &o) {
        Err(Fail::Err { line: Some(l), msg }) => {
            c.obs.nontrivial(format!("{l}{}", m.text).as_bytes());
            c.obs.count(m.class);
            if c.no % 1000 < 3 {
                c.obs.sample(|| json!({"damage": m.class, "text": m.text, "error": msg}));
            }
            if l == 0 || l > lines {
                return violation(format!("error names line {l} of a document of {lines} lines: {msg}"), input());
            }
            if let Some(want) = m.line {
                let want = want + lead;
                if l != want {
                    return violation(format!("damage \"{}\" on line {want} is reported at line {l}: {msg}", m.class), input());
                }
                c.obs.count(if strict { "exact_lines" } else { "exact_lines_lenient" });
            }
            Ok(())
        }
        Err(Fail::Err { line: None, msg }) => violation(format!("error without a line: {msg}"), input()),
        Err(p) => violation(p.to_string(), input()),
        Ok(_) => Ok(()),
    }
}

// ---------------------------------------------------------------- C07

/// Replace all strings, keys and numbers by unique words.
fn unique_words(v: &Value, n: &mut usize) -> Value {
    let mut word = |p: &str| {
        *n += 1;
        format!("{p}{n}")
    };
    match v {
        Value::String(_) | Value::Number(_) | Value::Bool(_) | Value::Null => Value::String(word("w")),
        Value::Array(a) => {
            if let Some(cols) = crate::model::table_columns(a) {
                let names: Vec<String> = cols.iter().map(|_| word("c")).collect();
                return Value::Array(a.iter().map(|_| Value::Object(names.iter().map(|k| (k.clone(), Value::String(word("w")))).collect())).collect());
            }
            Value::Array(a.iter().map(|x| unique_words(x, n)).collect())
        }
        Value::Object(m) => {
            let mut out = serde_json::Map::new();
            for x in m.values() {
                *n += 1;
                let k = format!("k{n}");
                let y = unique_words(x, n);
                out.insert(k, y);
            }
            Value::Object(out)
        }
    }
}

fn words(s: &str, out: &mut HashSet<String>) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if matches!(b[i], b'w' | b'k' | b'c') && b.get(i + 1).is_some_and(|x| x.is_ascii_digit()) {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            out.insert(s[i..j].to_string());
            i = j;
        } else {
            i += 1;
        }
    }
}

/// The same line with other words.
fn renamed(s: &str) -> String {
    let mut all = HashSet::new();
    words(s, &mut all);
    let mut all: Vec<String> = all.into_iter().collect();
    all.sort_by_key(|w| std::cmp::Reverse(w.len()));
    let mut t = s.to_string();
    for w in all {
        t = t.replace(&w, &format!("{}7{}", w[..1].to_uppercase(), &w[1..]));
    }
    t.replace('W', "w").replace('K', "k").replace('C', "c")
}

fn value_words(v: &Value, out: &mut HashSet<String>) {
    match v {
        Value::String(s) => words(s, out),
        Value::Array(a) => a.iter().for_each(|x| value_words(x, out)),
        Value::Object(m) => m.iter().for_each(|(k, x)| {
            words(k, out);
            value_words(x, out)
        }),
        _ => {}
    }
}

/// What begins a comment, a separator or a directive elsewhere.
const MARKS: &[&str] = &[
    "#", "# ", "//", "// ", ";", "; ", "%", "! ", "-- ", "/* ", "<!-- ", "--- ", "... ", "= ", "$", "&", "*", "~", "^", "+ ", "> ", "? ", "| ", "- ", "\\", "'", "`", "\u{feff}", "\u{200b}", "\u{a0}", "__",
];

fn c07(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let p = gen::profile(r);
    let v = unique_words(&gen::document(r, &p), &mut 0);
    let mut st = style(r, true);
    st.freedom = *r.pick(&[0, 0, 40]);
    st.escapes = false;
    let d = docgen::write(r, &v, st);
    let o = decode_options(r, st.step, true);
    let mut lines: Vec<String> = d.text().split('\n').map(|s| s.to_string()).collect();
    let edits = r.below(4);
    for _ in 0..edits {
        if lines.is_empty() {
            break;
        }
        let i = r.below(lines.len());
        match r.below(19) {
            12 => {
                let w = format!("{}w7{}", r.pick(&["", " ", "  ", ": ", ",", "|", "\t", "\"", " - "]), r.below(100));
                lines[i].push_str(&w);
            }
            13 | 14 => {
                // a word behind or before a structural character
                let ps: Vec<usize> = lines[i].char_indices().filter(|(_, ch)| ":-[]{},|\t\"".contains(*ch)).map(|(p, _)| p).collect();
                if !ps.is_empty() {
                    let p = *r.pick(&ps) + r.below(2);
                    let w = format!("{}w6{}{}", r.pick(&["", " "]), r.below(100), r.pick(&["", "", " "]));
                    lines[i].insert_str(p, &w);
                }
            }
            15 => {
                // two lines in one
                if i + 1 < lines.len() {
                    let l = lines.remove(i + 1);
                    lines[i].push_str(r.pick(&["", " "]));
                    lines[i].push_str(l.trim_start_matches(' '));
                }
            }
            0 => {
                lines.remove(i);
            }
            1 => {
                let j = r.below(lines.len());
                lines.swap(i, j);
            }
            2 => lines[i].insert_str(0, &" ".repeat(st.step)),
            3 => {
                if lines[i].starts_with(&" ".repeat(st.step)) {
                    lines[i].drain(..st.step);
                }
            }
            4 => {
                let j = r.below(lines.len() + 1);
                // with words of its own
                let l = renamed(&lines[i]);
                lines.insert(j, l);
            }
            k @ (5 | 6 | 7 | 16 | 17) => {
                let j = r.below(lines.len() + 1);
                // anywhere, or where its neighbours are
                let near = lines.get(j.saturating_sub(r.below(2))).map_or(0, |l| l.len() - l.trim_start_matches(' ').len());
                let fixed = st.step * r.below(3);
                let width = *r.pick(&[fixed, near, near, near + st.step, near.saturating_sub(st.step)]);
                let (m, n) = (r.below(100), r.below(100));
                // what other formats take for comments, separators and directives
                let mark = if k < 16 { "" } else { *r.pick(MARKS) };
                let text = match if k < 16 { k - 5 } else { r.below(3) } {
                    0 => format!("{mark}w9{m}"),
                    1 => format!("{mark}k9{m}: w8{n}"),
                    _ => format!("- {mark}w9{m}"),
                };
                lines.insert(j, format!("{}{text}", " ".repeat(width)));
            }
            18 => {
                let w = format!("{}{}w7{}", r.pick(&["", " ", "  ", "\t"]), r.pick(MARKS), r.below(100));
                lines[i].push_str(&w);
            }
            8 => lines.insert(i, String::new()),
            9 | 10 => {
                // delete one structural character
                let ps: Vec<usize> = lines[i].char_indices().filter(|(_, ch)| ":-[]{},|\t".contains(*ch)).map(|(p, _)| p).collect();
                if !ps.is_empty() {
                    let p = *r.pick(&ps);
                    lines[i].remove(p);
                }
            }
            _ => {
                // insert one structural character
                let p = r.below(lines[i].len() + 1);
                if lines[i].is_char_boundary(p) {
                    lines[i].insert(p, *r.pick(&[':', '-', ',', '|', ' ', '{', '}']));
                }
            }
        }
    }
    let t = lines.join("\n");
    c.obs.count("documents");
    let test = |t: &str| -> Result<bool, String> {
        let strict = match decode_value(t, &o) {
            Ok(v) => v,
            Err(Fail::Err { .. }) => return Ok(false),
            Err(p) => return Err(p.to_string()),
        };
        let lenient = decode_value(t, &Options { strict: false, ..o.clone() }).map_err(|e| format!("strict mode accepts {t:?}, lenient mode does not: {e}"))?;
        if let Some(at) = eq::diff(&strict, &lenient) {
            return Err(format!("{t:?} reads as {strict} in strict mode and {lenient} in lenient mode (differs at {at})"));
        }
        let mut want = HashSet::new();
        words(t, &mut want);
        // A key given twice keeps one of its values
        let mut keys = HashSet::new();
        for l in t.split('\n') {
            let l = l.trim_start();
            let item = l.strip_prefix("- ");
            let rest = item.unwrap_or(l).trim_start();
            let Some(p) = rest.find([':', '[']) else { continue };
            if !(item.is_some() && rest.starts_with('[')) && !keys.insert(rest[..p].replace(['"', ' '], "")) {
                return Ok(true);
            }
        }
        let mut have = HashSet::new();
        value_words(&strict, &mut have);
        let mut lost: Vec<&String> = want.difference(&have).collect();
        lost.sort();
        if !lost.is_empty() {
            return Err(format!("strict mode accepts {t:?} as {strict}, in which {lost:?} is lost"));
        }
        let w = Options { indent: st.step, ..o.clone() };
        let again = encode(&strict, &w).and_then(|s| decode_value(&s, &o)).map_err(|e| format!("the value of {t:?} does not round-trip: {e}"))?;
        if eq::diff_rows(&strict, &again).is_some() {
            return Err(format!("the value of {t:?} does not round-trip: {strict} becomes {again}"));
        }
        Ok(true)
    };
    match test(&t) {
        Ok(true) => {
            c.obs.count("accepted_by_strict");
            if edits > 0 {
                c.obs.count("accepted_after_edits");
                c.obs.nontrivial(t.as_bytes());
            }
            if c.no % 1000 == 17 {
                c.obs.sample(|| json!({"text": t}));
            }
            Ok(())
        }
        Ok(false) => Ok(()),
        Err(_) => {
            let m = gen::minimize_text(&t, &|x| test(x).is_err());
            violation(test(&m).unwrap_err(), json!({"text": m, "before_shrinking": t, "options": opts_json(&o)}))
        }
    }
}
