//! C09 all encoding entry points agree, C10 the encoder speaks serde, C11 typed decoding.

use super::encode::all_encoders;
use crate::core::*;
use crate::rng::Rng;
use crate::sval::{self, S};
use crate::{eq, gen, model, sval::Ty};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C09",
        quick: 1_500_000,
        thorough: 20_000_000,
        rule: "values over the whole serde data model (29 kinds, hinted and unhinted, map keys of 8 kinds, one in six with a member that refuses to be serialized), random options with and without folding, given to the six encoding entry points, whose texts must be identical or which must all fail. Non-trivial: at least two lines; distinct by text",
        run: c09,
    },
    Prop {
        id: "C10",
        quick: 1_000_000,
        thorough: 20_000_000,
        rule: "values over the whole serde data model, and derived types with renamed, optional, flattened, tagged and untagged members: the text is that of the JSON value serde assigns to them, and decodes to that value and, for derived types, to the original. Non-trivial: at least two lines; distinct by text",
        run: c10,
    },
    Prop {
        id: "C11",
        quick: 2_000_000,
        thorough: 40_000_000,
        rule: "types chosen at run time (27 kinds, nested up to 3), 14 derived types and one that reads only the first entries, each decoded from documents that fit, nearly fit or are edited: the same outcome as decoding to a JSON value first and converting that with serde_json. Non-trivial: the typed decoding succeeds; distinct by type and text",
        run: c11,
    },
];

fn profile(r: &mut Rng) -> gen::Profile {
    let mut p = gen::profile(r);
    p.max_depth = r.range(2, 5);
    p.max_len = r.range(1, 4);
    p
}

fn options(r: &mut Rng) -> Options {
    let mut o = plain_options(r);
    if r.chance(1, 4) {
        o.key_folding = KeyFolding::Safe;
        o.flatten_depth = *r.pick(&[None, Some(2), Some(3)]);
    }
    o
}

fn report(s: &S, o: &Options, bad: &dyn Fn(&S) -> Result<(), String>) -> Verdict {
    if bad(s).is_ok() {
        return Ok(());
    }
    let m = s.minimize(&|s| bad(s).is_err());
    match bad(&m) {
        Err(e) => violation(e, json!({"value": format!("{m:?}"), "image": m.image(), "options": opts_json(o)})),
        Ok(()) => Ok(()),
    }
}

fn c09(c: &mut Case) -> Verdict {
    let p = profile(&mut c.rng);
    let mut s = sval::value(&mut c.rng, &p, 0);
    if c.rng.chance(1, 6) {
        s = sval::poison(&mut c.rng, &s);
    }
    let o = options(&mut c.rng);
    match encode(&s, &o) {
        Ok(t) => {
            c.obs.count("encoded");
            if t.contains('\n') {
                c.obs.nontrivial(t.as_bytes());
            }
            if c.no % 4000 == 0 {
                c.obs.sample(|| json!({"value": format!("{s:?}"), "text": t}));
            }
        }
        Err(_) => c.obs.count("refused"),
    }
    report(&s, &o, &|s| {
        let want_err = s.image().is_none();
        let all = all_encoders(s, &o);
        for (name, t) in &all {
            match t {
                Err(Fail::Panic(m)) => return Err(format!("{name} panics: {m}")),
                Err(Fail::Err { msg, .. }) if !want_err => return Err(format!("{name} fails: {msg}")),
                Ok(t) if want_err => return Err(format!("{name} swallows the error of a member and writes\n{t}")),
                Ok(t) => {
                    let first = all[0].1.as_ref().unwrap();
                    if t != first {
                        return Err(format!("{name} writes\n{t}\nbut {} writes\n{first}", all[0].0));
                    }
                }
                _ => {}
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- derived types

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Address {
    street: String,
    zip: Option<u32>,
    #[serde(rename = "geo pos", skip_serializing_if = "Option::is_none")]
    pos: Option<(f64, f64)>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Person {
    id: u64,
    #[serde(rename = "full name")]
    name: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    nick: Option<String>,
    score: f64,
    initial: char,
    tags: Vec<String>,
    home: Option<Address>,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    extra: BTreeMap<String, i32>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Shape {
    Empty,
    Circle(f64),
    #[serde(rename = "a box")]
    Rect {
        w: f32,
        h: i16,
        label: Option<String>,
    },
    Poly(Vec<(i32, i32)>),
    Pair(i8, String),
    Nested(Box<Shape>),
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "type", rename_all = "snake_case")]
enum Event {
    Started,
    Moved { x: i64, y: i64, by: Option<String> },
    Named(Address),
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Nothing,
    Number(i64),
    Words(Vec<String>),
    Both(bool, String),
    Fields { a: u8, b: Shape },
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Any {
    Int(i64),
    Flag(bool),
    Text(String),
    Ints(Vec<i64>),
    Texts(Vec<String>),
    Obj { k: String, v: i64 },
    Other { list: Vec<Any> },
    Nil(()),
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Flat {
    id: i32,
    #[serde(flatten)]
    address: Address,
    #[serde(flatten)]
    rest: BTreeMap<String, Any>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, PartialOrd, Eq, Ord)]
#[serde(rename_all = "kebab-case")]
enum Colour {
    DeepRed,
    Green,
    Blue,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Wrapper(Vec<Shape>);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Triple(i32, String, Option<bool>);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Marker;

/// Types of the standard library, some of which are written otherwise for people than for machines.
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
struct Std {
    span: std::time::Duration,
    range: std::ops::RangeInclusive<i32>,
    ip: std::net::IpAddr,
    socket: Vec<std::net::SocketAddr>,
    positive: Option<std::num::NonZeroU8>,
    text: std::borrow::Cow<'static, str>,
    result: Result<i32, String>,
    bound: std::ops::Bound<u16>,
    set: std::collections::BTreeSet<String>,
    queue: std::collections::VecDeque<Result<Box<str>, bool>>,
    path: std::path::PathBuf,
    by_ip: BTreeMap<std::net::Ipv4Addr, Option<bool>>,
    wrapping: std::num::Wrapping<i8>,
    cell: std::cell::Cell<u32>,
    by_flag: BTreeMap<bool, [i8; 3]>,
    #[serde(default = "seven")]
    seven: u8,
    time: std::time::SystemTime,
    phantom: std::marker::PhantomData<u8>,
    reversed: std::cmp::Reverse<i64>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, PartialOrd, Eq, Ord)]
struct Name(String);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, PartialOrd, Eq, Ord)]
struct No<T>(T);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, PartialOrd)]
struct Fraction(f64);
impl Eq for Fraction {}
impl Ord for Fraction {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.total_cmp(&o.0)
    }
}

/// Everything that can be a key.
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Keys {
    names: BTreeMap<Name, u8>,
    numbers: BTreeMap<No<i64>, String>,
    deep: BTreeMap<No<No<u16>>, Option<bool>>,
    small: BTreeMap<i8, No<u8>>,
    options: BTreeMap<Option<No<u32>>, f64>,
    fractions: BTreeMap<Fraction, Vec<u8>>,
    plain_fractions: BTreeMap<No<Fraction>, BTreeMap<u64, i8>>,
    colours: BTreeMap<No<Colour>, BTreeMap<No<char>, ()>>,
    flags: BTreeMap<No<bool>, Shape>,
    boxed: BTreeMap<Box<str>, BTreeMap<std::num::NonZeroU16, bool>>,
}

fn seven() -> u8 {
    7
}

/// Reads no more than the first few elements or entries.
#[derive(Debug)]
struct Partial(#[allow(dead_code)] Vec<Value>);
thread_local!(static PARTS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
impl<'de> Deserialize<'de> for Partial {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Partial;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("an array or a map")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Partial, A::Error> {
                let mut all = Vec::new();
                for _ in 0..PARTS.get() {
                    all.extend(a.next_element()?);
                }
                Ok(Partial(all))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Partial, A::Error> {
                let mut all = Vec::new();
                for _ in 0..PARTS.get() {
                    all.extend(a.next_entry::<String, Value>()?.map(|(k, v)| json!([k, v])));
                }
                Ok(Partial(all))
            }
        }
        d.deserialize_any(V)
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(deny_unknown_fields)]
struct Doc {
    marker: Marker,
    people: Vec<Person>,
    shapes: Wrapper,
    by_id: BTreeMap<i32, Shape>,
    by_colour: BTreeMap<Colour, u8>,
    by_char: BTreeMap<char, Vec<u8>>,
    events: Vec<Event>,
    adjacent: Vec<Adjacent>,
    #[serde(alias = "another")]
    triple: Triple,
    #[serde(default)]
    missing: Vec<i32>,
    grid: Vec<Vec<i16>>,
    unit: (),
    matrix: [[u8; 2]; 2],
    maybe: Option<Vec<Option<i32>>>,
}

fn some<T>(r: &mut Rng, n: usize, f: &mut dyn FnMut(&mut Rng) -> T) -> Vec<T> {
    if r.chance(1, 20_000) {
        let n = gen::big_size(r, 3000);
        return (0..n).map(|_| f(r)).collect();
    }
    (0..r.below(n + 1)).map(|_| f(r)).collect()
}
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(1, 2) {
        Some(f(r))
    } else {
        None
    }
}

struct G<'a>(&'a gen::Profile);
impl G<'_> {
    fn str(&self, r: &mut Rng) -> String {
        gen::string(r, self.0)
    }
    fn float(&self, r: &mut Rng) -> f64 {
        let f = gen::float(r);
        if f.is_finite() {
            f
        } else {
            0.25
        }
    }
    fn int(&self, r: &mut Rng) -> i64 {
        gen::int(r).as_i64().unwrap_or(i64::MIN)
    }
    fn char(&self, r: &mut Rng) -> char {
        *r.pick(&['a', ' ', '"', '\n', '5', ',', 'é', '😀', '-', ':', '['])
    }
    fn address(&self, r: &mut Rng) -> Address {
        Address { street: self.str(r), zip: opt(r, |r| r.next() as u32), pos: opt(r, |r| (self.float(r), self.float(r))) }
    }
    fn person(&self, r: &mut Rng) -> Person {
        Person {
            id: r.next(),
            name: self.str(r),
            nick: opt(r, |r| self.str(r)),
            score: self.float(r),
            initial: self.char(r),
            tags: some(r, 3, &mut |r| self.str(r)),
            home: opt(r, |r| self.address(r)),
            extra: some(r, 2, &mut |r| (gen::key(r, self.0), r.next() as i32)).into_iter().collect(),
        }
    }
    fn shape(&self, r: &mut Rng) -> Shape {
        match r.below(7) {
            0 => Shape::Empty,
            1 => Shape::Circle(self.float(r)),
            2 => Shape::Rect { w: r.below(1000) as f32 / 8.0, h: r.next() as i16, label: opt(r, |r| self.str(r)) },
            3 => Shape::Poly(some(r, 3, &mut |r| (r.next() as i32, r.below(9) as i32))),
            4 => Shape::Pair(r.next() as i8, self.str(r)),
            5 => Shape::Nested(Box::new(self.shape(r))),
            _ => Shape::Empty,
        }
    }
    fn event(&self, r: &mut Rng) -> Event {
        match r.below(3) {
            0 => Event::Started,
            1 => Event::Moved { x: self.int(r), y: self.int(r), by: opt(r, |r| self.str(r)) },
            _ => Event::Named(self.address(r)),
        }
    }
    fn adjacent(&self, r: &mut Rng) -> Adjacent {
        match r.below(5) {
            0 => Adjacent::Nothing,
            1 => Adjacent::Number(self.int(r)),
            2 => Adjacent::Words(some(r, 3, &mut |r| self.str(r))),
            3 => Adjacent::Both(r.chance(1, 2), self.str(r)),
            _ => Adjacent::Fields { a: r.next() as u8, b: self.shape(r) },
        }
    }
    fn any(&self, r: &mut Rng, depth: usize) -> Any {
        match r.below(if depth > 1 { 4 } else { 8 }) {
            0 => Any::Int(self.int(r)),
            1 => Any::Flag(r.chance(1, 2)),
            2 => Any::Text(self.str(r)),
            3 => Any::Nil(()),
            4 => Any::Ints(some(r, 3, &mut |r| self.int(r))),
            5 => {
                let mut v = some(r, 3, &mut |r| self.str(r));
                v.push("x".into());
                Any::Texts(v)
            }
            6 => Any::Obj { k: self.str(r), v: self.int(r) },
            _ => Any::Other { list: some(r, 3, &mut |r| self.any(r, depth + 1)) },
        }
    }
    fn flat(&self, r: &mut Rng) -> Flat {
        let mut rest: BTreeMap<String, Any> = some(r, 3, &mut |r| (gen::key(r, self.0), self.any(r, 0))).into_iter().collect();
        for k in ["id", "street", "zip", "geo pos"] {
            rest.remove(k);
        }
        Flat { id: r.next() as i32, address: self.address(r), rest }
    }
    fn std(&self, r: &mut Rng) -> Std {
        use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
        let v4 = |r: &mut Rng| Ipv4Addr::from(r.next() as u32);
        let ip = |r: &mut Rng| if r.chance(1, 2) { IpAddr::V4(Ipv4Addr::from(r.next() as u32)) } else { IpAddr::V6(Ipv6Addr::from((r.next() as u128) << r.below(64))) };
        Std {
            span: std::time::Duration::new(r.below(1 << 40) as u64, r.below(1_000_000_000) as u32),
            range: -(r.below(9) as i32)..=r.next() as i32,
            ip: ip(r),
            socket: some(r, 3, &mut |r| (ip(r), r.next() as u16).into()),
            positive: std::num::NonZeroU8::new(r.below(4) as u8),
            text: self.str(r).into(),
            result: if r.chance(1, 2) { Ok(r.next() as i32) } else { Err(self.str(r)) },
            bound: *r.pick(&[std::ops::Bound::Unbounded, std::ops::Bound::Included(5), std::ops::Bound::Excluded(6)]),
            set: some(r, 3, &mut |r| self.str(r)).into_iter().collect(),
            queue: some(r, 3, &mut |r| if r.chance(1, 2) { Ok(self.str(r).into()) } else { Err(r.chance(1, 2)) }).into(),
            path: self.str(r).into(),
            by_ip: some(r, 3, &mut |r| (v4(r), opt(r, |r| r.chance(1, 2)))).into_iter().collect(),
            wrapping: std::num::Wrapping(r.next() as i8),
            cell: std::cell::Cell::new(r.next() as u32),
            by_flag: some(r, 2, &mut |r| (r.chance(1, 2), [1, -2, r.next() as i8])).into_iter().collect(),
            seven: r.next() as u8,
            time: std::time::UNIX_EPOCH + std::time::Duration::new(r.below(1 << 40) as u64, r.below(1_000_000_000) as u32),
            phantom: std::marker::PhantomData,
            reversed: std::cmp::Reverse(self.int(r)),
        }
    }
    fn keys(&self, r: &mut Rng) -> Keys {
        let fraction = |r: &mut Rng| Fraction((r.below(4000) as f64 * 2.0 - 3999.0) / 8.0);
        Keys {
            names: some(r, 3, &mut |r| (Name(gen::key(r, self.0)), r.next() as u8)).into_iter().collect(),
            numbers: some(r, 3, &mut |r| (No(self.int(r)), self.str(r))).into_iter().collect(),
            deep: some(r, 3, &mut |r| (No(No(r.next() as u16)), opt(r, |r| r.chance(1, 2)))).into_iter().collect(),
            small: some(r, 3, &mut |r| (r.next() as i8, No(r.next() as u8))).into_iter().collect(),
            options: some(r, 3, &mut |r| (Some(No(r.next() as u32)), self.float(r))).into_iter().collect(),
            fractions: some(r, 3, &mut |r| (fraction(r), some(r, 2, &mut |r| r.next() as u8))).into_iter().collect(),
            plain_fractions: some(r, 3, &mut |r| (No(fraction(r)), some(r, 2, &mut |r| (r.next(), r.next() as i8)).into_iter().collect())).into_iter().collect(),
            colours: some(r, 3, &mut |r| (No(r.pick(&[Colour::DeepRed, Colour::Green, Colour::Blue]).clone()), some(r, 2, &mut |r| (No(self.char(r)), ())).into_iter().collect())).into_iter().collect(),
            flags: some(r, 2, &mut |r| (No(r.chance(1, 2)), self.shape(r))).into_iter().collect(),
            boxed: some(r, 2, &mut |r| (gen::key(r, self.0).into(), some(r, 2, &mut |r| (std::num::NonZeroU16::new(r.range(1, 65535) as u16).unwrap(), true)).into_iter().collect())).into_iter().collect(),
        }
    }
    fn doc(&self, r: &mut Rng) -> Doc {
        Doc {
            marker: Marker,
            people: some(r, 3, &mut |r| self.person(r)),
            shapes: Wrapper(some(r, 3, &mut |r| self.shape(r))),
            by_id: some(r, 3, &mut |r| (r.next() as i32, self.shape(r))).into_iter().collect(),
            by_colour: some(r, 3, &mut |r| (r.pick(&[Colour::DeepRed, Colour::Green, Colour::Blue]).clone(), r.next() as u8)).into_iter().collect(),
            by_char: some(r, 3, &mut |r| (self.char(r), some(r, 2, &mut |r| r.next() as u8))).into_iter().collect(),
            events: some(r, 3, &mut |r| self.event(r)),
            adjacent: some(r, 3, &mut |r| self.adjacent(r)),
            triple: Triple(r.next() as i32, self.str(r), opt(r, |r| r.chance(1, 2))),
            missing: some(r, 2, &mut |r| r.next() as i32),
            grid: some(r, 3, &mut |r| some(r, 3, &mut |r| r.next() as i16)),
            unit: (),
            matrix: [[1, r.next() as u8], [3, 4]],
            maybe: opt(r, |r| some(r, 3, &mut |r| opt(r, |r| r.next() as i32))),
        }
    }
}

/// Text and value of one derived type, and back.
fn derived<T: Serialize + DeserializeOwned + PartialEq + Debug + 'static>(c: &mut Case, name: &str, v: T, o: &Options) -> Verdict {
    let text = encode(&v, o);
    let input = |t: &str| json!({"type": name, "value": format!("{v:?}"), "text": t, "options": opts_json(o)});
    let image = match serde_json::to_value(&v) {
        Ok(i) => i,
        Err(_) => return Ok(()),
    };
    let text = match text {
        Ok(t) => t,
        Err(e) => return violation(format!("{name} cannot be encoded: {e}"), input("")),
    };
    c.obs.count(&format!("derived {name}"));
    let want = model::encode(&image, o);
    if text != want {
        return violation(format!("{name} is encoded as\n{text}\ninstead of\n{want}"), input(&text));
    }
    if o.key_folding == KeyFolding::Safe {
        return Ok(());
    }
    match decode::<T>(&text, o) {
        Ok(b) if b == v => Ok(()),
        Ok(b) => violation(format!("{name} comes back as {b:?}\n{text}"), input(&text)),
        Err(e) => violation(format!("{name} is not read back: {e}\n{text}"), input(&text)),
    }
}

fn c10(c: &mut Case) -> Verdict {
    let p = profile(&mut c.rng);
    let o = options(&mut c.rng);
    if c.no % 4 == 0 {
        let g = G(&p);
        let r = &mut c.rng.clone();
        return match r.below(16) {
            14 => derived(c, "Keys", g.keys(r), &o),
            15 => derived(c, "Vec<Keys>", some(r, 3, &mut |r| g.keys(r)), &o),
            12 => derived(c, "Std", g.std(r), &o),
            13 => derived(c, "Vec<(Std, Shape)>", some(r, 3, &mut |r| (g.std(r), g.shape(r))), &o),
            0 => derived(c, "Address", g.address(r), &o),
            1 => derived(c, "Person", g.person(r), &o),
            2 => derived(c, "Shape", g.shape(r), &o),
            3 => derived(c, "Event", g.event(r), &o),
            4 => derived(c, "Adjacent", g.adjacent(r), &o),
            5 => derived(c, "Any", g.any(r, 0), &o),
            6 => derived(c, "Flat", g.flat(r), &o),
            7 => derived(c, "Wrapper", Wrapper(some(r, 4, &mut |r| g.shape(r))), &o),
            8 => derived(c, "Vec<Person>", some(r, 4, &mut |r| g.person(r)), &o),
            9 => derived(c, "Vec<Option<Adjacent>>", some(r, 4, &mut |r| opt(r, |r| g.adjacent(r))), &o),
            10 => derived(c, "BTreeMap<i64, Flat>", some(r, 3, &mut |r| (g.int(r), g.flat(r))).into_iter().collect::<BTreeMap<i64, Flat>>(), &o),
            _ => derived(c, "Doc", g.doc(r), &o),
        };
    }
    let s = sval::value(&mut c.rng, &p, 0);
    if let Ok(t) = encode(&s, &o) {
        if t.contains('\n') {
            c.obs.nontrivial(t.as_bytes());
        }
        if c.no % 4000 == 1 {
            c.obs.sample(|| json!({"value": format!("{s:?}"), "text": t}));
        }
    }
    c.obs.count("serde values");
    report(&s, &o, &|s| {
        let Some(image) = s.image() else { return Ok(()) };
        let want = model::encode(&image, &o);
        let t = encode(s, &o).map_err(|e| e.to_string())?;
        if t != want {
            return Err(format!("written as\n{t}\ninstead of\n{want}"));
        }
        if o.key_folding == KeyFolding::Safe {
            return Ok(());
        }
        let b = decode_value(&t, &o).map_err(|e| format!("not read back: {e}\n{t}"))?;
        match eq::diff_rows(&image, &b) {
            None => Ok(()),
            Some(at) => Err(format!("read back as {b} (differs at {at})\n{t}")),
        }
    })
}

/// Sees whether any map of an (edited) document has a repeated key; what such a document means
/// differs between targets, also with serde_json.
struct Repeats(bool);
impl<'de> Deserialize<'de> for Repeats {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Repeats;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_unit<E>(self) -> Result<Repeats, E> {
                Ok(Repeats(false))
            }
            fn visit_bool<E>(self, _: bool) -> Result<Repeats, E> {
                Ok(Repeats(false))
            }
            fn visit_i64<E>(self, _: i64) -> Result<Repeats, E> {
                Ok(Repeats(false))
            }
            fn visit_u64<E>(self, _: u64) -> Result<Repeats, E> {
                Ok(Repeats(false))
            }
            fn visit_f64<E>(self, _: f64) -> Result<Repeats, E> {
                Ok(Repeats(false))
            }
            fn visit_str<E>(self, _: &str) -> Result<Repeats, E> {
                Ok(Repeats(false))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Repeats, A::Error> {
                let mut any = false;
                while let Some(Repeats(b)) = a.next_element()? {
                    any |= b;
                }
                Ok(Repeats(any))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Repeats, A::Error> {
                let mut seen = std::collections::HashSet::new();
                let mut any = false;
                while let Some((k, Repeats(b))) = a.next_entry::<String, Repeats>()? {
                    any |= b | !seen.insert(k);
                }
                Ok(Repeats(any))
            }
        }
        d.deserialize_any(V)
    }
}

/// Numeric keys that integer parsing would accept in more than one spelling.
fn odd_keys(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(odd_keys),
        Value::Object(m) => m.iter().any(|(k, v)| {
            let digits = k.strip_prefix(['+', '-']).unwrap_or(k);
            let plain = k == "0" || (!digits.starts_with('0') && !k.starts_with('+'));
            (!digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit() || b"eE.+-".contains(&b)) && !(plain && digits.bytes().all(|b| b.is_ascii_digit()))) || odd_keys(v)
        }),
        _ => false,
    }
}

fn same<T: DeserializeOwned + 'static>(c: &mut Case, name: &str, text: &str, edited: bool, o: &Options, show: impl Fn(T) -> String) -> Verdict {
    let via: Result<Value, Fail> = decode_value(text, o);
    if via.as_ref().is_ok_and(odd_keys) {
        c.obs.count("skipped, odd numeric key");
        return Ok(());
    }
    // Edited numbers beyond the range of a double: null as a value, infinite as a float
    if edited && text.split(|c: char| !c.is_ascii_digit() && !"+-.eE".contains(c)).any(|t| t.parse::<f64>().is_ok_and(f64::is_infinite)) {
        c.obs.count("skipped, number out of range");
        return Ok(());
    }
    if edited && decode::<Repeats>(text, o).is_ok_and(|r| r.0) {
        c.obs.count("skipped, repeated key");
        return Ok(());
    }
    let want: Result<String, String> = match via {
        Err(e) => Err(format!("{e}")),
        Ok(v) => serde_json::from_value::<T>(v).map(&show).map_err(|e| e.to_string()),
    };
    let readers = [
        ("decode_from_str", decode::<T>(text, o)),
        ("decode_from_reader", guarded(|| toon_rs::decode_from_reader(text.as_bytes(), o))),
        ("de::from_str", guarded(|| toon_rs::de::from_str(text, o))),
    ];
    for (f, got) in readers {
        let got = match got {
            Err(Fail::Panic(m)) => return violation(format!("{f} to {name} panics: {m}"), json!({"type": name, "text": text, "options": opts_json(o)})),
            g => g.map(&show),
        };
        match (&got, &want) {
            (Ok(a), Ok(b)) if a == b => {
                c.obs.count("typed decoding succeeded");
                c.obs.nontrivial(format!("{name}\n{text}").as_bytes());
            }
            (Err(_), Err(_)) => c.obs.count("both refused"),
            // serde_json is pickier about enums than the data model asks: no variant by number, no
            // variant with fields from an array (structs it does read from arrays)
            (Ok(_), Err(e)) if ["variant identifier", "struct variant", "tuple variant"].iter().any(|x| e.contains(x)) => {
                c.obs.count("accepted though serde_json does not")
            }
            _ => {
                return violation(
                    format!("{f} to {name} gives {got:?}; decoding to a value and converting that gives {want:?}\n{text}"),
                    json!({"type": name, "text": text, "options": opts_json(o)}),
                )
            }
        }
    }
    Ok(())
}

fn c11(c: &mut Case) -> Verdict {
    let p = profile(&mut c.rng);
    let mut o = plain_options(&mut c.rng);
    if c.rng.chance(1, 6) {
        o.expand_paths = ExpandPaths::Safe;
    }
    let r = &mut c.rng.clone();
    if c.no % 3 == 0 {
        let g = G(&p);
        let text_of = |mut v: Value, r: &mut Rng| {
            if r.chance(1, 2500) {
                gen::enlarge(r, &mut v);
                return (model::encode(&v, &o), true);
            }
            let t = model::encode(&v, &o);
            if r.chance(1, 3) {
                (gen::edit(r, &t), true)
            } else {
                (t, false)
            }
        };
        fn img<T: Serialize>(v: T) -> Value {
            serde_json::to_value(v).unwrap_or(Value::Null)
        }
        macro_rules! of {
            ($t:ty, $v:expr) => {{
                let v = img($v);
                let (t, edited) = text_of(v, r);
                same::<$t>(c, stringify!($t), &t, edited, &o, |x| format!("{x:?}"))
            }};
        }
        return match r.below(17) {
            15 => of!(Keys, g.keys(r)),
            16 => of!(BTreeMap<No<Option<i32>>, Option<Keys>>, some(r, 2, &mut |r| (No(Some(r.next() as i32)), opt(r, |r| g.keys(r)))).into_iter().collect::<BTreeMap<_, _>>()),
            12 => of!(Std, g.std(r)),
            13 => of!(Vec<Option<Std>>, some(r, 2, &mut |r| opt(r, |r| g.std(r)))),
            14 => {
                let v = gen::document(r, &p);
                PARTS.set(r.below(4));
                let (t, edited) = text_of(if r.chance(1, 2) { v } else { json!([v]) }, r);
                if r.chance(1, 2) {
                    same::<Partial>(c, "Partial", &t, edited, &o, |x| format!("{x:?}"))
                } else {
                    same::<Vec<Option<Partial>>>(c, "Vec<Option<Partial>>", &t, edited, &o, |x| format!("{x:?}"))
                }
            }
            0 => of!(Address, g.address(r)),
            1 => of!(Person, g.person(r)),
            2 => of!(Shape, g.shape(r)),
            3 => of!(Event, g.event(r)),
            4 => of!(Adjacent, g.adjacent(r)),
            5 => of!(Any, g.any(r, 0)),
            6 => of!(Flat, g.flat(r)),
            7 => of!(Wrapper, Wrapper(some(r, 4, &mut |r| g.shape(r)))),
            8 => of!(Vec<Person>, some(r, 4, &mut |r| g.person(r))),
            9 => of!(Vec<Option<Adjacent>>, some(r, 4, &mut |r| opt(r, |r| g.adjacent(r)))),
            10 => of!(BTreeMap<i64, Flat>, some(r, 3, &mut |r| (g.int(r), g.flat(r))).into_iter().collect::<BTreeMap<i64, Flat>>()),
            _ => of!(Doc, g.doc(r)),
        };
    }
    let t: Ty = sval::ty(r, 0);
    let v = sval::fitting(r, &t, &p, 0);
    let mut text = model::encode(&v, &o);
    let edited = r.chance(1, 6);
    if edited {
        text = gen::edit(r, &text);
    }
    if c.no % 5000 == 1 {
        c.obs.sample(|| json!({"type": format!("{t:?}"), "text": text}));
    }
    let name = format!("{t:?}");
    sval::with_type(&t, || same::<sval::Dyn>(c, &name, &text, edited, &o, |d| d.0))
}
