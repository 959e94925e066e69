//! Values over the whole serde data model, with their JSON image, and decoding into types that
//! are chosen at run time.

use crate::rng::Rng;
use crate::{gen, model};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Number, Value};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub const NAMES: &[&str] = &["id", "name", "a", "b", "c", "value", "tags", "x_1", "full name", "a.b", "", "-", "true", "1", "né", "\"q\"", "[2]", "a:b", "a,b", "Alpha", "Beta", "Gamma", "x|y", "\n", " lead"];

#[derive(Clone, Debug)]
pub enum SKey {
    Str(String),
    Char(char),
    I64(i64),
    U8(u8),
    Bool(bool),
    Unit(&'static str),
    New(Box<SKey>),
    Some(Box<SKey>),
    F32(f32),
    F64(f64),
    U64(u64),
    I16(i16),
    Null(bool),
}

#[derive(Clone, Debug)]
pub enum S {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Shown(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<S>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    New(Box<S>),
    NewVariant(&'static str, Box<S>),
    Seq(Vec<S>, bool),
    Tuple(Vec<S>),
    TupleStruct(Vec<S>),
    TupleVariant(&'static str, Vec<S>),
    Map(Vec<(SKey, S)>, bool),
    Struct(Vec<(&'static str, S)>),
    StructVariant(&'static str, Vec<(&'static str, S)>),
    /// Serialization fails here.
    Fail,
}

impl Serialize for SKey {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            SKey::Str(s) => z.serialize_str(s),
            SKey::Char(c) => z.serialize_char(*c),
            SKey::I64(i) => z.serialize_i64(*i),
            SKey::U8(i) => z.serialize_u8(*i),
            SKey::Bool(b) => z.serialize_bool(*b),
            SKey::Unit(n) => z.serialize_unit_variant("K", 0, n),
            SKey::New(k) => z.serialize_newtype_struct("K", k),
            SKey::Some(k) => z.serialize_some(k),
            SKey::F32(f) => z.serialize_f32(*f),
            SKey::F64(f) => z.serialize_f64(*f),
            SKey::U64(i) => z.serialize_u64(*i),
            SKey::I16(i) => z.serialize_i16(*i),
            SKey::Null(true) => z.serialize_unit(),
            SKey::Null(false) => z.serialize_none(),
        }
    }
}

impl SKey {
    pub fn text(&self) -> String {
        match self {
            SKey::Str(s) => s.clone(),
            SKey::Char(c) => c.to_string(),
            SKey::I64(i) => i.to_string(),
            SKey::U8(i) => i.to_string(),
            SKey::Bool(b) => b.to_string(),
            SKey::Unit(n) => n.to_string(),
            SKey::New(k) | SKey::Some(k) => k.text(),
            SKey::F32(f) => model::float(*f as f64),
            SKey::F64(f) => model::float(*f),
            SKey::U64(i) => i.to_string(),
            SKey::I16(i) => i.to_string(),
            SKey::Null(_) => "null".into(),
        }
    }
}

impl Serialize for S {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            S::Bool(v) => z.serialize_bool(*v),
            S::I8(v) => z.serialize_i8(*v),
            S::I16(v) => z.serialize_i16(*v),
            S::I32(v) => z.serialize_i32(*v),
            S::I64(v) => z.serialize_i64(*v),
            S::U8(v) => z.serialize_u8(*v),
            S::U16(v) => z.serialize_u16(*v),
            S::U32(v) => z.serialize_u32(*v),
            S::U64(v) => z.serialize_u64(*v),
            S::F32(v) => z.serialize_f32(*v),
            S::F64(v) => z.serialize_f64(*v),
            S::Char(v) => z.serialize_char(*v),
            S::Str(v) => z.serialize_str(v),
            S::Shown(v) => z.collect_str(v),
            S::Bytes(v) => z.serialize_bytes(v),
            S::None => z.serialize_none(),
            S::Some(v) => z.serialize_some(v),
            S::Unit => z.serialize_unit(),
            S::UnitStruct => z.serialize_unit_struct("U"),
            S::UnitVariant(n) => z.serialize_unit_variant("E", 1, n),
            S::New(v) => z.serialize_newtype_struct("N", v),
            S::NewVariant(n, v) => z.serialize_newtype_variant("E", 2, n, v),
            S::Seq(v, hint) => {
                let mut s = z.serialize_seq(hint.then_some(v.len()))?;
                for x in v {
                    s.serialize_element(x)?;
                }
                s.end()
            }
            S::Tuple(v) => {
                let mut s = z.serialize_tuple(v.len())?;
                for x in v {
                    s.serialize_element(x)?;
                }
                s.end()
            }
            S::TupleStruct(v) => {
                let mut s = z.serialize_tuple_struct("T", v.len())?;
                for x in v {
                    s.serialize_field(x)?;
                }
                s.end()
            }
            S::TupleVariant(n, v) => {
                let mut s = z.serialize_tuple_variant("E", 3, n, v.len())?;
                for x in v {
                    s.serialize_field(x)?;
                }
                s.end()
            }
            S::Map(v, hint) => {
                let mut s = z.serialize_map(hint.then_some(v.len()))?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        s.serialize_entry(k, x)?;
                    } else {
                        s.serialize_key(k)?;
                        s.serialize_value(x)?;
                    }
                }
                s.end()
            }
            S::Struct(v) => {
                let mut s = z.serialize_struct("S", v.len())?;
                for (k, x) in v {
                    s.serialize_field(k, x)?;
                }
                s.skip_field("skipped")?;
                s.end()
            }
            S::StructVariant(n, v) => {
                let mut s = z.serialize_struct_variant("E", 4, n, v.len())?;
                for (k, x) in v {
                    s.serialize_field(k, x)?;
                }
                s.end()
            }
            S::Fail => Err(ser::Error::custom("refused")),
        }
    }
}

fn single(k: &str, v: Value) -> Value {
    let mut m = Map::new();
    m.insert(k.to_string(), v);
    Value::Object(m)
}

impl S {
    /// The JSON value that this stands for; None if it cannot be serialized.
    pub fn image(&self) -> Option<Value> {
        fn all(v: &[S]) -> Option<Value> {
            v.iter().map(|x| x.image()).collect::<Option<Vec<_>>>().map(Value::Array)
        }
        fn fields(v: &[(&'static str, S)]) -> Option<Value> {
            v.iter().map(|(k, x)| Some((k.to_string(), x.image()?))).collect::<Option<Map<_, _>>>().map(Value::Object)
        }
        Some(match self {
            S::Bool(v) => Value::Bool(*v),
            S::I8(v) => (*v).into(),
            S::I16(v) => (*v).into(),
            S::I32(v) => (*v).into(),
            S::I64(v) => (*v).into(),
            S::U8(v) => (*v).into(),
            S::U16(v) => (*v).into(),
            S::U32(v) => (*v).into(),
            S::U64(v) => (*v).into(),
            S::F32(v) => Number::from_f64(*v as f64).map_or(Value::Null, Value::Number),
            S::F64(v) => Number::from_f64(*v).map_or(Value::Null, Value::Number),
            S::Char(v) => Value::String(v.to_string()),
            S::Str(v) | S::Shown(v) => Value::String(v.clone()),
            S::Bytes(v) => Value::Array(v.iter().map(|b| Value::from(*b)).collect()),
            S::None | S::Unit | S::UnitStruct => Value::Null,
            S::Some(v) | S::New(v) => v.image()?,
            S::UnitVariant(n) => Value::String(n.to_string()),
            S::NewVariant(n, v) => single(n, v.image()?),
            S::Seq(v, _) | S::Tuple(v) | S::TupleStruct(v) => all(v)?,
            S::TupleVariant(n, v) => single(n, all(v)?),
            S::Map(v, _) => Value::Object(v.iter().map(|(k, x)| Some((k.text(), x.image()?))).collect::<Option<Map<_, _>>>()?),
            S::Struct(v) => fields(v)?,
            S::StructVariant(n, v) => single(n, fields(v)?),
            S::Fail => return None,
        })
    }

    /// Smaller variants.
    pub fn shrink(&self) -> Vec<S> {
        fn list(v: &[S]) -> Vec<Vec<S>> {
            let mut out = vec![];
            for i in 0..v.len() {
                let mut w = v.to_vec();
                w.remove(i);
                out.push(w);
                for x in v[i].shrink() {
                    let mut w = v.to_vec();
                    w[i] = x;
                    out.push(w);
                }
            }
            out
        }
        fn pairs<K: Clone>(v: &[(K, S)]) -> Vec<Vec<(K, S)>> {
            let mut out = vec![];
            for i in 0..v.len() {
                let mut w = v.to_vec();
                w.remove(i);
                out.push(w);
                for x in v[i].1.shrink() {
                    let mut w = v.to_vec();
                    w[i].1 = x;
                    out.push(w);
                }
            }
            out
        }
        let mut out: Vec<S> = vec![];
        match self {
            S::Some(v) => {
                out.push((**v).clone());
                out.extend(v.shrink().into_iter().map(|x| S::Some(Box::new(x))));
            }
            S::New(v) => {
                out.push((**v).clone());
                out.extend(v.shrink().into_iter().map(|x| S::New(Box::new(x))));
            }
            S::NewVariant(n, v) => {
                out.push((**v).clone());
                out.extend(v.shrink().into_iter().map(|x| S::NewVariant(n, Box::new(x))));
            }
            S::Seq(v, h) => {
                out.extend(v.iter().cloned());
                out.extend(list(v).into_iter().map(|w| S::Seq(w, *h)));
            }
            S::Tuple(v) => {
                out.extend(v.iter().cloned());
                out.extend(list(v).into_iter().map(S::Tuple));
            }
            S::TupleStruct(v) => {
                out.extend(v.iter().cloned());
                out.extend(list(v).into_iter().map(S::TupleStruct));
            }
            S::TupleVariant(n, v) => {
                out.extend(v.iter().cloned());
                out.extend(list(v).into_iter().map(|w| S::TupleVariant(n, w)));
            }
            S::Map(v, h) => {
                out.extend(v.iter().map(|x| x.1.clone()));
                out.extend(pairs(v).into_iter().map(|w| S::Map(w, *h)));
            }
            S::Struct(v) => {
                out.extend(v.iter().map(|x| x.1.clone()));
                out.extend(pairs(v).into_iter().map(S::Struct));
            }
            S::StructVariant(n, v) => {
                out.extend(v.iter().map(|x| x.1.clone()));
                out.extend(pairs(v).into_iter().map(|w| S::StructVariant(n, w)));
            }
            S::Str(s) if !s.is_empty() => out.push(S::Str("x".into())),
            S::F64(f) if *f != 1.0 => out.push(S::F64(1.0)),
            S::Bytes(b) if !b.is_empty() => out.push(S::Bytes(vec![])),
            _ => {}
        }
        if !matches!(self, S::Unit | S::Str(_) | S::Fail) {
            out.push(S::Unit);
        }
        out
    }

    pub fn minimize(&self, bad: &dyn Fn(&S) -> bool) -> S {
        let mut cur = self.clone();
        let mut budget = 3000;
        'outer: loop {
            for s in cur.shrink() {
                budget -= 1;
                if budget == 0 {
                    return cur;
                }
                if format!("{s:?}").len() < format!("{cur:?}").len() && bad(&s) {
                    cur = s;
                    continue 'outer;
                }
            }
            return cur;
        }
    }
}

fn skey(r: &mut Rng, p: &gen::Profile) -> SKey {
    match r.below(10) {
        0..=4 => SKey::Str(gen::key(r, p)),
        5 => SKey::Char(*r.pick(&['a', 'é', '"', ':', ' ', '7', '日'])),
        6 => SKey::I64(gen::int(r).as_i64().unwrap_or(7)),
        7 => SKey::U8(r.below(256) as u8),
        8 => match r.below(9) {
            0 => SKey::Bool(r.chance(1, 2)),
            1 => SKey::Unit(r.pick(NAMES)),
            2 => SKey::F64(gen::float(r)),
            3 => SKey::F32(gen::float(r) as f32),
            4 => SKey::U64(r.next()),
            5 => SKey::I16(r.next() as i16),
            6 if r.chance(1, 2) => SKey::Null(r.chance(1, 2)),
            7 => SKey::F64(*r.pick(&[1.0, 2.5, 1e21, -0.0, 1e-7, 0.1, 1e300, f64::NAN, 9007199254740993.0])),
            _ => SKey::Some(Box::new(SKey::U8(r.below(9) as u8))),
        },
        _ => SKey::New(Box::new(skey(r, p))),
    }
}

fn names(r: &mut Rng, max: usize) -> Vec<&'static str> {
    let mut out: Vec<&'static str> = vec![];
    for _ in 0..r.below(max + 1) {
        let n = if r.chance(2, 3) { NAMES[r.below(8)] } else { *r.pick(NAMES) };
        if !out.contains(&n) {
            out.push(n);
        }
    }
    out
}

fn scalar(r: &mut Rng, p: &gen::Profile) -> S {
    match r.below(20) {
        0 => S::Bool(r.chance(1, 2)),
        1 => S::I8(r.next() as i8),
        2 => S::I16(r.next() as i16),
        3 => S::I32(r.next() as i32),
        4 => S::I64(r.next() as i64),
        5 => S::U8(r.next() as u8),
        6 => S::U16(r.next() as u16),
        7 => S::U32(r.next() as u32),
        8 => S::U64(r.next()),
        9 => S::F32(match r.below(4) {
            0 => f32::NAN,
            1 => f32::from_bits(r.next() as u32),
            2 => 0.1,
            _ => r.below(100) as f32,
        }),
        10 => S::F64(match r.below(8) {
            0 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]),
            _ => gen::float(r),
        }),
        11 => S::Char(*r.pick(&['a', ' ', '"', '\n', '5', ',', 'é', '😀', '\u{0}', '-'])),
        12 => S::Shown(gen::string(r, p)),
        13 => S::None,
        14 => S::Unit,
        15 => S::UnitStruct,
        16 => S::UnitVariant(r.pick(NAMES)),
        _ => S::Str(gen::string(r, p)),
    }
}

pub fn value(r: &mut Rng, p: &gen::Profile, depth: usize) -> S {
    if depth >= p.max_depth || r.chance(1, 4) {
        return scalar(r, p);
    }
    let list = |r: &mut Rng| -> Vec<S> {
        let n = r.below(p.max_len + 1);
        match r.below(4) {
            0 => (0..n).map(|_| scalar(r, p)).collect(),
            1 => {
                // uniform rows
                let cols = names(r, 3);
                let as_map = r.chance(1, 2);
                (0..n)
                    .map(|_| {
                        let f: Vec<(&'static str, S)> = cols.iter().map(|c| (*c, scalar(r, p))).collect();
                        if as_map {
                            S::Map(f.into_iter().map(|(k, v)| (SKey::Str(k.into()), v)).collect(), true)
                        } else {
                            S::Struct(f)
                        }
                    })
                    .collect()
            }
            _ => (0..n).map(|_| value(r, p, depth + 1)).collect(),
        }
    };
    match r.below(14) {
        0 => S::Some(Box::new(value(r, p, depth + 1))),
        1 => S::New(Box::new(value(r, p, depth + 1))),
        2 => S::NewVariant(*r.pick(NAMES), Box::new(value(r, p, depth + 1))),
        3 | 4 => {
            let v = list(r);
            S::Seq(v, r.chance(1, 2))
        }
        5 => S::Tuple(list(r)),
        6 => S::TupleStruct(list(r)),
        7 => {
            let v = list(r);
            S::TupleVariant(*r.pick(NAMES), v)
        }
        8 | 9 => {
            let mut m: Vec<(SKey, S)> = vec![];
            for _ in 0..r.below(p.max_len + 1) {
                let k = skey(r, p);
                if m.iter().all(|x| x.0.text() != k.text()) {
                    m.push((k, value(r, p, depth + 1)));
                }
            }
            S::Map(m, r.chance(1, 2))
        }
        10..=12 => S::Struct(names(r, p.max_len).into_iter().map(|n| (n, value(r, p, depth + 1))).collect()),
        _ => {
            let f = names(r, 3).into_iter().map(|n| (n, value(r, p, depth + 1))).collect();
            if r.chance(1, 3) {
                return S::Bytes((0..r.below(6)).map(|_| r.next() as u8).collect());
            }
            S::StructVariant(*r.pick(NAMES), f)
        }
    }
}

/// Replace one scalar by something that refuses to be serialized.
pub fn poison(r: &mut Rng, s: &S) -> S {
    fn go(s: &S, left: &mut isize) -> S {
        *left -= 1;
        if *left == 0 {
            return S::Fail;
        }
        let mut list = |v: &Vec<S>| -> Vec<S> { v.iter().map(|x| go(x, left)).collect() };
        match s {
            S::Some(v) => S::Some(Box::new(go(v, left))),
            S::New(v) => S::New(Box::new(go(v, left))),
            S::NewVariant(n, v) => S::NewVariant(n, Box::new(go(v, left))),
            S::Seq(v, h) => S::Seq(list(v), *h),
            S::Tuple(v) => S::Tuple(list(v)),
            S::TupleStruct(v) => S::TupleStruct(list(v)),
            S::TupleVariant(n, v) => S::TupleVariant(n, list(v)),
            S::Map(v, h) => S::Map(v.iter().map(|(k, x)| (k.clone(), go(x, left))).collect(), *h),
            S::Struct(v) => S::Struct(v.iter().map(|(k, x)| (*k, go(x, left))).collect()),
            S::StructVariant(n, v) => S::StructVariant(n, v.iter().map(|(k, x)| (*k, go(x, left))).collect()),
            x => x.clone(),
        }
    }
    let mut left = r.range(1, 12) as isize;
    go(s, &mut left)
}

// ---------------------------------------------------------------- types chosen at run time

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    New(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<(&'static str, Ty)>),
}

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str,
    String,
    Bytes,
    Option(Box<Ty>),
    Unit,
    UnitStruct,
    New(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    /// Keys: one of the scalar types.
    Map(Box<Ty>, Box<Ty>),
    Struct(Vec<(&'static str, Ty)>),
    Enum(Vec<(&'static str, Var)>),
    Any,
    Ignored,
    /// A hand-written type that takes one kind of scalar only.
    Only(&'static str),
}

/// Takes what one method of a visitor is given.
struct One(&'static str);
impl<'de> Visitor<'de> for One {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "only {}", self.0)
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<String, E> {
        self.take("bool", v)
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<String, E> {
        self.take("i64", v)
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<String, E> {
        self.take("u64", v)
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<String, E> {
        self.take("f64", if v == 0.0 { 0.0 } else { v })
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
        self.take("str", v)
    }
    fn visit_unit<E: de::Error>(self) -> Result<String, E> {
        self.take("unit", ())
    }
    fn visit_none<E: de::Error>(self) -> Result<String, E> {
        self.take("none", ())
    }
}
impl One {
    fn take<T: fmt::Debug, E: de::Error>(self, kind: &str, v: T) -> Result<String, E> {
        if kind == self.0 {
            Ok(format!("{v:?} by {kind}"))
        } else {
            Err(E::custom(format!("{kind} instead of {}", self.0)))
        }
    }
}

const ONLY: &[&str] = &["bool", "i64", "u64", "u64", "f64", "str", "unit", "none"];

struct Seed<'a>(&'a Ty);

/// What was read, as text; floats by their bits.
impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        macro_rules! plain {
            ($t:ty) => {
                <$t>::deserialize(d).map(|x| format!("{x:?}{}", stringify!($t)))
            };
        }
        match self.0 {
            Ty::Bool => plain!(bool),
            Ty::I8 => plain!(i8),
            Ty::I16 => plain!(i16),
            Ty::I32 => plain!(i32),
            Ty::I64 => plain!(i64),
            Ty::I128 => plain!(i128),
            Ty::U8 => plain!(u8),
            Ty::U16 => plain!(u16),
            Ty::U32 => plain!(u32),
            Ty::U64 => plain!(u64),
            Ty::U128 => plain!(u128),
            Ty::F32 => f32::deserialize(d).map(|x| format!("f32:{:08x}", if x == 0.0 { 0 } else { x.to_bits() })),
            Ty::F64 => f64::deserialize(d).map(|x| format!("f64:{:016x}", if x == 0.0 { 0 } else { x.to_bits() })),
            Ty::Char => char::deserialize(d).map(|c| format!("char:{:x}", c as u32)),
            Ty::String => String::deserialize(d).map(|s| format!("string:{}", Value::String(s))),
            Ty::Str => d.deserialize_str(V(self.0)),
            Ty::Bytes => d.deserialize_byte_buf(V(self.0)),
            Ty::Option(_) => d.deserialize_option(V(self.0)),
            Ty::Unit => plain!(()),
            Ty::UnitStruct => d.deserialize_unit_struct("U", V(self.0)),
            Ty::New(_) => d.deserialize_newtype_struct("N", V(self.0)),
            Ty::Seq(_) => d.deserialize_seq(V(self.0)),
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), V(self.0)),
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("T", t.len(), V(self.0)),
            Ty::Map(..) => d.deserialize_map(V(self.0)),
            Ty::Struct(_) => d.deserialize_struct("S", &[], V(self.0)),
            Ty::Enum(_) => d.deserialize_enum("E", &[], V(self.0)),
            Ty::Any => Value::deserialize(d).map(|v| canonical(&v)),
            Ty::Only(kind) => match *kind {
                "bool" => d.deserialize_bool(One(kind)),
                "i64" => d.deserialize_i64(One(kind)),
                "u64" => d.deserialize_u64(One(kind)),
                "f64" => d.deserialize_f64(One(kind)),
                "str" => d.deserialize_str(One(kind)),
                "none" => d.deserialize_option(One(kind)),
                _ => d.deserialize_any(One(kind)),
            },
            Ty::Ignored => de::IgnoredAny::deserialize(d).map(|_| "ignored".into()),
        }
    }
}

/// JSON text with numbers by value.
fn canonical(v: &Value) -> String {
    match v {
        Value::Number(n) => model::number(n),
        Value::Array(a) => format!("[{}]", a.iter().map(canonical).collect::<Vec<_>>().join(",")),
        Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k:?}:{}", canonical(v))).collect::<Vec<_>>().join(",")),
        p => p.to_string(),
    }
}

struct V<'a>(&'a Ty);

fn tuple<'de, A: SeqAccess<'de>>(t: &[Ty], mut a: A) -> Result<String, A::Error> {
    let mut out = vec![];
    for (i, x) in t.iter().enumerate() {
        match a.next_element_seed(Seed(x))? {
            Some(s) => out.push(s),
            None => return Err(de::Error::invalid_length(i, &"more")),
        }
    }
    Ok(format!("({})", out.join(",")))
}

fn fields<'de, A: MapAccess<'de>>(t: &[(&'static str, Ty)], mut a: A) -> Result<String, A::Error> {
    let mut got: Vec<Option<String>> = vec![None; t.len()];
    while let Some(k) = a.next_key_seed(Ident)? {
        match t.iter().position(|x| x.0 == k) {
            Some(i) => {
                if got[i].is_some() {
                    return Err(de::Error::duplicate_field(t[i].0));
                }
                got[i] = Some(a.next_value_seed(Seed(&t[i].1))?);
            }
            None => {
                a.next_value::<de::IgnoredAny>()?;
            }
        }
    }
    let mut out = vec![];
    for (i, (k, ty)) in t.iter().enumerate() {
        match (&got[i], ty) {
            (Some(s), _) => out.push(format!("{k}={s}")),
            (None, Ty::Option(_)) => out.push(format!("{k}=missing")),
            (None, _) => return Err(de::Error::missing_field(k)),
        }
    }
    Ok(format!("{{{}}}", out.join(",")))
}

struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_identifier(V(&Ty::Str))
    }
}

struct Fields<'a>(&'a [(&'static str, Ty)]);
impl<'de> Visitor<'de> for Fields<'_> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("fields")
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<String, A::Error> {
        fields(self.0, a)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<String, A::Error> {
        let t: Vec<Ty> = self.0.iter().map(|x| x.1.clone()).collect();
        tuple(&t, a)
    }
}

struct Items<'a>(&'a [Ty]);
impl<'de> Visitor<'de> for Items<'_> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("items")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<String, A::Error> {
        tuple(self.0, a)
    }
}

impl<'de> Visitor<'de> for V<'_> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<String, E> {
        match self.0 {
            Ty::Str => Ok(s.to_string()),
            Ty::Bytes => Ok(format!("bytes {:?}", s.as_bytes())),
            _ => Err(de::Error::invalid_type(de::Unexpected::Str(s), &self)),
        }
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<String, E> {
        match self.0 {
            Ty::Bytes => Ok(format!("bytes {b:?}")),
            _ => Err(de::Error::invalid_type(de::Unexpected::Bytes(b), &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<String, E> {
        match self.0 {
            Ty::Option(_) => Ok("none".into()),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<String, E> {
        match self.0 {
            Ty::Option(_) => Ok("none".into()),
            Ty::UnitStruct => Ok("unit".into()),
            _ => Err(de::Error::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.0 {
            Ty::Option(t) => Ok(format!("some {}", Seed(t).deserialize(d)?)),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.0 {
            Ty::New(t) => Ok(format!("new {}", Seed(t).deserialize(d)?)),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut out = vec![];
                while let Some(s) = a.next_element_seed(Seed(t))? {
                    out.push(s);
                }
                Ok(format!("[{}]", out.join(",")))
            }
            Ty::Tuple(t) | Ty::TupleStruct(t) => tuple(t, a),
            Ty::New(t) => tuple(std::slice::from_ref(t), a),
            Ty::Struct(f) => Fields(f).visit_seq(a),
            Ty::Bytes => {
                let mut out: Vec<u8> = vec![];
                while let Some(b) = a.next_element()? {
                    out.push(b);
                }
                Ok(format!("bytes {out:?}"))
            }
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        match self.0 {
            Ty::Map(k, t) => {
                let mut out = vec![];
                while let Some(s) = a.next_key_seed(Seed(k))? {
                    out.push(format!("{s}:{}", a.next_value_seed(Seed(t))?));
                }
                Ok(format!("map{{{}}}", out.join(",")))
            }
            Ty::Struct(f) => fields(f, a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<String, A::Error> {
        let Ty::Enum(vs) = self.0 else {
            return Err(de::Error::invalid_type(de::Unexpected::Enum, &self));
        };
        let (name, v) = a.variant_seed(Ident)?;
        let Some((_, var)) = vs.iter().find(|x| x.0 == name) else {
            return Err(de::Error::unknown_variant(&name, &[]));
        };
        let s = match var {
            Var::Unit => {
                v.unit_variant()?;
                String::new()
            }
            Var::New(t) => v.newtype_variant_seed(Seed(t))?,
            Var::Tuple(t) => v.tuple_variant(t.len(), Items(t))?,
            Var::Struct(f) => v.struct_variant(&[], Fields(f))?,
        };
        Ok(format!("{name}({s})"))
    }
}

thread_local! {
    static TARGET: RefCell<Rc<Ty>> = RefCell::new(Rc::new(Ty::Any));
}

/// Decodes as the type set by `as_type`.
pub struct Dyn(pub String);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = TARGET.with(|t| t.borrow().clone());
        Seed(&t).deserialize(d).map(Dyn)
    }
}

pub fn with_type<T>(t: &Ty, f: impl FnOnce() -> T) -> T {
    TARGET.with(|x| *x.borrow_mut() = Rc::new(t.clone()));
    f()
}

pub fn ty(r: &mut Rng, depth: usize) -> Ty {
    if depth >= 3 || r.chance(1, 4) {
        return match r.below(23) {
            0 => Ty::Bool,
            21 | 22 => Ty::Only(r.pick(ONLY)),
            1 => Ty::I8,
            2 => Ty::I16,
            3 => Ty::I32,
            4 => Ty::I64,
            5 => Ty::I128,
            6 => Ty::U8,
            7 => Ty::U16,
            8 => Ty::U32,
            9 => Ty::U64,
            10 => Ty::U128,
            11 => Ty::F32,
            12 => Ty::F64,
            13 => Ty::Char,
            14 => Ty::Str,
            15 => Ty::Unit,
            16 => Ty::Any,
            17 => Ty::Ignored,
            18 => Ty::UnitStruct,
            _ => Ty::String,
        };
    }
    let some = |r: &mut Rng, n: usize| -> Vec<Ty> { (0..r.below(n + 1)).map(|_| ty(r, depth + 1)).collect() };
    let fields = |r: &mut Rng| -> Vec<(&'static str, Ty)> { names(r, 4).into_iter().map(|n| (n, ty(r, depth + 1))).collect() };
    match r.below(12) {
        0 | 1 => Ty::Option(Box::new(ty(r, depth + 1))),
        2 => Ty::New(Box::new(ty(r, depth + 1))),
        3 | 4 => Ty::Seq(Box::new(ty(r, depth + 1))),
        5 => Ty::Tuple(some(r, 4)),
        6 => Ty::TupleStruct(some(r, 4)),
        7 => {
            let mut k = match r.below(11) {
                0 => Ty::I32,
                1 => Ty::U8,
                2 => Ty::Bool,
                3 => Ty::Char,
                4 => Ty::Enum(NAMES.iter().map(|n| (*n, Var::Unit)).collect()),
                5 => Ty::U64,
                6 => r.pick(&[Ty::I8, Ty::I16, Ty::U16, Ty::U32, Ty::I64, Ty::I128, Ty::U128]).clone(),
                7 => r.pick(&[Ty::Str, Ty::Only("str"), Ty::Ignored]).clone(),
                _ => Ty::String,
            };
            while r.chance(1, 4) {
                k = if r.chance(2, 3) { Ty::New(Box::new(k)) } else { Ty::Option(Box::new(k)) };
            }
            Ty::Map(Box::new(k), Box::new(ty(r, depth + 1)))
        }
        8..=10 => Ty::Struct(fields(r)),
        _ => Ty::Enum(
            names(r, 4)
                .into_iter()
                .map(|n| {
                    let v = match r.below(4) {
                        0 => Var::Unit,
                        1 => Var::New(ty(r, depth + 1)),
                        2 => {
                            // serde_json takes an empty tuple variant for a unit
                            let mut t = some(r, 2);
                            t.push(ty(r, depth + 1));
                            Var::Tuple(t)
                        }
                        _ => Var::Struct(fields(r)),
                    };
                    (n, v)
                })
                .collect(),
        ),
    }
}

/// A JSON value that mostly fits the type.
pub fn fitting(r: &mut Rng, t: &Ty, p: &gen::Profile, depth: usize) -> Value {
    if depth > 0 && r.chance(1, 40) {
        // a misfit
        return gen::value(r, p, 3);
    }
    let int = |r: &mut Rng, lo: i128, hi: i128| -> Value {
        let v = match r.below(8) {
            0 => lo,
            1 => hi,
            2 if r.chance(1, 6) => hi + 1,
            3 if r.chance(1, 6) => lo - 1,
            _ => (r.below(200) as i128).clamp(lo, hi),
        };
        match (i64::try_from(v), u64::try_from(v)) {
            (Ok(i), _) => i.into(),
            (_, Ok(u)) => u.into(),
            _ => Value::from(7),
        }
    };
    let obj = |f: &[(&'static str, Ty)], r: &mut Rng| -> Value {
        let mut m = Map::new();
        for (k, t) in f {
            if (matches!(t, Ty::Option(_)) && r.chance(1, 4)) || r.chance(1, 50) {
                continue;
            }
            m.insert(k.to_string(), fitting(r, t, p, depth + 1));
        }
        if r.chance(1, 6) {
            m.insert(gen::key(r, p), gen::primitive(r, p));
        }
        Value::Object(m)
    };
    match t {
        Ty::Bool => Value::Bool(r.chance(1, 2)),
        Ty::I8 => int(r, -128, 127),
        Ty::I16 => int(r, -32768, 32767),
        Ty::I32 => int(r, i32::MIN as i128, i32::MAX as i128),
        Ty::I64 | Ty::I128 => int(r, i64::MIN as i128, i64::MAX as i128),
        Ty::U8 => int(r, 0, 255),
        Ty::U16 => int(r, 0, 65535),
        Ty::U32 => int(r, 0, u32::MAX as i128),
        Ty::U64 | Ty::U128 => int(r, 0, u64::MAX as i128),
        Ty::F32 | Ty::F64 => Value::Number(gen::number(r)),
        Ty::Char => Value::String(r.pick(&["a", "é", "\"", " ", "7", "ab", ",", "-"]).to_string()),
        Ty::Str | Ty::String => Value::String(gen::string(r, p)),
        Ty::Bytes => Value::Array((0..r.below(4)).map(|_| (r.below(256) as u8).into()).collect()),
        Ty::Option(t) => {
            if r.chance(1, 3) {
                Value::Null
            } else {
                fitting(r, t, p, depth + 1)
            }
        }
        Ty::Unit | Ty::UnitStruct => Value::Null,
        Ty::New(t) => fitting(r, t, p, depth + 1),
        Ty::Seq(t) => Value::Array((0..r.below(5)).map(|_| fitting(r, t, p, depth + 1)).collect()),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => {
            let mut v: Vec<Value> = ts.iter().map(|t| fitting(r, t, p, depth + 1)).collect();
            if r.chance(1, 15) {
                v.push(1.into());
            }
            if r.chance(1, 15) {
                v.pop();
            }
            Value::Array(v)
        }
        Ty::Map(k, t) => {
            let mut m = Map::new();
            for _ in 0..r.below(4) {
                let mut inner = &**k;
                while let Ty::New(t) | Ty::Option(t) = inner {
                    inner = t;
                }
                let key = match inner {
                    Ty::I16 | Ty::I64 | Ty::I128 => (r.below(70000) as i64 - 35000).to_string(),
                    Ty::I8 => (r.below(260) as i64 - 130).to_string(),
                    Ty::U16 | Ty::U32 | Ty::U128 => (r.next() >> r.below(64)).to_string(),
                    Ty::I32 => (r.below(2000) as i64 - 1000).to_string(),
                    Ty::U8 => r.below(260).to_string(),
                    Ty::Bool => r.chance(1, 2).to_string(),
                    Ty::Char => r.pick(&["a", "é", "\"", " ", "7", "ab"]).to_string(),
                    Ty::Enum(_) => r.pick(NAMES).to_string(),
                    Ty::U64 => r.next().to_string(),
                    _ => gen::key(r, p),
                };
                m.insert(if r.chance(1, 30) { "odd one".into() } else { key }, fitting(r, t, p, depth + 1));
            }
            Value::Object(m)
        }
        Ty::Struct(f) => {
            if r.chance(1, 20) {
                return Value::Array(f.iter().map(|(_, t)| fitting(r, t, p, depth + 1)).collect());
            }
            obj(f, r)
        }
        Ty::Enum(vs) => {
            if vs.is_empty() {
                return Value::String("none".into());
            }
            let (n, v) = r.pick(vs).clone();
            if r.chance(1, 20) {
                // the name alone, whatever the variant holds
                return Value::String(n.to_string());
            }
            match v {
                Var::Unit => {
                    if r.chance(1, 8) {
                        single(n, Value::Null)
                    } else {
                        Value::String(n.to_string())
                    }
                }
                Var::New(t) => single(n, fitting(r, &t, p, depth + 1)),
                Var::Tuple(ts) => single(n, Value::Array(ts.iter().map(|t| fitting(r, t, p, depth + 1)).collect())),
                Var::Struct(f) => single(n, obj(&f, r)),
            }
        }
        Ty::Only(kind) => match *kind {
            "bool" => Value::Bool(r.chance(1, 2)),
            "i64" => Value::from(-1 - r.below(300) as i64),
            "u64" => Value::from(if r.chance(1, 3) { r.next() } else { r.below(300) as u64 }),
            "f64" => Value::Number(gen::number(r)),
            "str" => Value::String(gen::string(r, p)),
            _ => Value::Null,
        },
        Ty::Any | Ty::Ignored => gen::value(r, p, 2),
    }
}
