//! Dynamic values of the whole serde data model: types, values, the reference
//! for what a node means as a type, and the seeds that drive a deserializer.
use crate::{core::Rng, model::*};
use serde::{
    de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor},
    ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant},
    Deserialize, Serialize, Serializer,
};
use std::fmt;

#[derive(Clone, Debug)]
pub enum T {
    Bool,
    /// Signed, bits
    Int(bool, u8),
    F32,
    F64,
    Char,
    /// `String`, or a borrowed-like visitor
    Str(bool),
    Bytes,
    Unit,
    UnitStruct,
    Opt(Box<T>),
    New(Box<T>),
    Seq(Box<T>),
    Tuple(Vec<T>),
    TupleStruct(Vec<T>),
    Map(Box<T>, Box<T>),
    Struct(Vec<(&'static str, T)>, bool),
    Enum(Vec<(&'static str, Var)>),
    Ignored,
}

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    New(T),
    Tuple(Vec<T>),
    Struct(Vec<(&'static str, T)>),
}

#[derive(Clone, Debug)]
pub enum D {
    Bool(bool),
    /// Signed, bits, negative, magnitude
    Int(bool, u8, bool, u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// The text of a scalar (reference only).
    Text(V),
    Bytes(Vec<u8>),
    Unit,
    UnitStruct,
    None,
    Some(Box<D>),
    New(Box<D>),
    Seq(Vec<D>),
    Tuple(Vec<D>),
    TupleStruct(Vec<D>),
    /// Entries, as entries or as keys and values
    Map(Vec<(D, D)>, bool),
    Struct(Vec<(&'static str, D)>),
    VUnit(&'static str),
    VNew(&'static str, Box<D>),
    VTuple(&'static str, Vec<D>),
    VStruct(&'static str, Vec<(&'static str, D)>),
    Ignored,
}

fn fsame(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// Reference equality; the signs of zeros are significant.
pub fn deq(a: &D, b: &D) -> bool {
    let all = |a: &[D], b: &[D]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| deq(a, b));
    let fields = |a: &[(&str, D)], b: &[(&str, D)]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && deq(&a.1, &b.1));
    match (a, b) {
        (D::Bool(a), D::Bool(b)) => a == b,
        (D::Int(a, b, c, d), D::Int(e, f, g, h)) => (a, b, c, d) == (e, f, g, h),
        (D::F32(a), D::F32(b)) => fsame(*a as f64, *b as f64),
        (D::F64(a), D::F64(b)) => fsame(*a, *b),
        (D::Char(a), D::Char(b)) => a == b,
        (D::Str(a), D::Str(b)) => a == b,
        // The sign of a zero integer does not matter
        (D::Text(V::Int(i)), D::F32(f)) => *i as f32 == *f,
        (D::Text(V::Int(i)), D::F64(f)) => *i as f64 == *f,
        (D::Text(v), D::Str(s)) | (D::Str(s), D::Text(v)) => match v {
            V::Int(i) => int_value(s) == Some(*i),
            V::Float(f) => float_value(s).is_some_and(|s| fsame(s, *f)),
            V::Bool(b) => *s == b.to_string(),
            V::Null => s == "null",
            _ => false,
        },
        (D::Bytes(a), D::Bytes(b)) => a == b,
        (D::Unit, D::Unit) | (D::UnitStruct, D::UnitStruct) | (D::None, D::None) | (D::Ignored, D::Ignored) => true,
        (D::Some(a), D::Some(b)) | (D::New(a), D::New(b)) => deq(a, b),
        (D::Seq(a), D::Seq(b)) | (D::Tuple(a), D::Tuple(b)) | (D::TupleStruct(a), D::TupleStruct(b)) => all(a, b),
        (D::Map(a, _), D::Map(b, _)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| deq(&a.0, &b.0) && deq(&a.1, &b.1)),
        (D::Struct(a), D::Struct(b)) => fields(a, b),
        (D::VUnit(a), D::VUnit(b)) => a == b,
        (D::VNew(a, x), D::VNew(b, y)) => a == b && deq(x, y),
        (D::VTuple(a, x), D::VTuple(b, y)) => a == b && all(x, y),
        (D::VStruct(a, x), D::VStruct(b, y)) => a == b && fields(x, y),
        _ => false,
    }
}

// ------------------------------------------------------------------ generators

pub const NAMES: &[&str] = &["a", "b", "name", "kind", "x1", "value", "Foo", "Bar", "null", "true", "1", "with space", "y-z", "日本", "", "~", "a: b", "#c"];

/// Names of variants, fields and types that mean something to someone.
const WORDS: &[&str] = &[
    "Struct", "struct", "Enum", "Unit", "unit", "Newtype", "Tuple", "Seq", "Map", "None", "Some", "Ok", "Err", "Null", "Bool", "True", "False", "Int", "Float", "Str", "String", "Alias", "type", "r#type", "tag", "anchor", "key", "keys",
    "len", "field0", "__field0", "0", "01", "-1", "1.5", "0x1", ".inf", ".NaN", "NULL", "Null", "TRUE", "yes", "no", "on", "off", "y", "n", "<<", "=", "-", "--", "---", "...", "?", ":", "::", "!", "!!str", "&a", "*a", "|", ">", "%", "@",
    "`", "'", "\"", "''", ",", "[]", "{}", "[", "}", "#", " ", "\t", "\n", "a\nb", " a", "a ", "a:", ":a", "a #b", "- a", "? a", "é", "É", "ß", "日本語", "😀", "\u{0}", "\u{7f}", "\u{85}", "\u{a0}", "\u{feff}", "snake_case", "camelCase",
    "kebab-case", "SHOUT", "Foo::Bar", "a.b", "a/b", "a b c", "$serde_json::private::Number", "$yaml", "inner", "flatten", "content", "id", "x", "X", "A", "B", "Name", "Kind",
];

/// All names, with some random ones.
pub fn pool() -> &'static [&'static str] {
    static POOL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    POOL.get_or_init(|| {
        let mut v = NAMES.to_vec();
        v.extend(WORDS);
        let r = &mut Rng::new(0x6e616d65);
        for i in 0..345usize {
            let s = if i % 3 == 0 { crate::props::parse::ident(r) } else { string(r, (i % 3) as u8) };
            v.push(Box::leak(s.into_boxed_str()));
        }
        v
    })
}

pub fn names(r: &mut Rng, n: usize) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    while v.len() < n {
        let s = if r.chance(1, 2) { r.ps(NAMES) } else { *r.pick(pool()) };
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}

pub fn scalar_type(r: &mut Rng) -> T {
    match r.below(10) {
        0 => T::Bool,
        1..=3 => T::Int(r.chance(1, 2), *r.pick(&[8, 16, 32, 64, 128])),
        4 => T::F32,
        5 => T::F64,
        6 => T::Char,
        _ => T::Str(r.chance(1, 2)),
    }
}

/// Can a value of the type be a null node.
pub fn nullable(t: &T) -> bool {
    match t {
        T::Unit | T::UnitStruct | T::Opt(_) | T::Ignored => true,
        T::New(t) => nullable(t),
        // A null is read as its text
        T::Str(_) => false,
        _ => false,
    }
}

fn fields(r: &mut Rng, depth: usize) -> Vec<(&'static str, T)> {
    let n = r.below(5);
    names(r, n).into_iter().map(|n| (n, random_type(r, depth))).collect()
}

fn items(r: &mut Rng, depth: usize) -> Vec<T> {
    let n = r.range(1, 4);
    (0..n).map(|_| random_type(r, depth)).collect()
}

pub fn random_type(r: &mut Rng, depth: usize) -> T {
    if depth == 0 {
        return scalar_type(r);
    }
    let d = depth - 1;
    match r.below(22) {
        0..=3 => scalar_type(r),
        4 => r.pick(&[T::Unit, T::UnitStruct, T::Bytes]).clone(),
        5 | 6 => loop {
            let t = random_type(r, d);
            if !nullable(&t) {
                break T::Opt(t.into());
            }
        },
        7 => T::New(random_type(r, d).into()),
        8..=10 => T::Seq(random_type(r, d).into()),
        11 => T::Tuple(items(r, d)),
        12 => T::TupleStruct(items(r, d)),
        13 | 14 => {
            let k = if r.chance(1, 8) { random_type(r, d.min(1)) } else { scalar_type(r) };
            T::Map(k.into(), random_type(r, d).into())
        }
        15..=18 => T::Struct(fields(r, d), r.chance(1, 3)),
        _ => {
            let n = r.range(1, 4);
            T::Enum(
                names(r, n)
                    .into_iter()
                    .map(|n| {
                        let v = match r.below(4) {
                            0 => Var::Unit,
                            1 => Var::New(random_type(r, d)),
                            2 => {
                                let mut v = items(r, d);
                                v.push(scalar_type(r));
                                Var::Tuple(v)
                            }
                            _ => Var::Struct(fields(r, d)),
                        };
                        (n, v)
                    })
                    .collect(),
            )
        }
    }
}

fn range(signed: bool, bits: u8) -> (i128, u128) {
    match (signed, bits) {
        (true, 128) => (i128::MIN, i128::MAX as u128),
        (true, b) => (-(1i128 << (b - 1)), (1u128 << (b - 1)) - 1),
        (false, 128) => (0, u128::MAX),
        (false, b) => (0, (1u128 << b) - 1),
    }
}

pub fn fits(signed: bool, bits: u8, v: i128) -> Option<D> {
    let (lo, hi) = range(signed, bits);
    if v < lo || (v >= 0 && v as u128 > hi) {
        return None;
    }
    Some(D::Int(signed, bits, v < 0, v.unsigned_abs()))
}

pub fn random_value(r: &mut Rng, t: &T) -> D {
    match t {
        T::Bool => D::Bool(r.chance(1, 2)),
        T::Int(s, b) => {
            let (lo, hi) = range(*s, *b);
            match r.below(6) {
                0 => D::Int(*s, *b, lo < 0, lo.unsigned_abs()),
                1 => D::Int(*s, *b, false, hi),
                2 => D::Int(*s, *b, false, hi - r.below(100) as u128),
                _ => {
                    let v = int(r, true);
                    let w = hi >> (r.below(*b as usize));
                    fits(*s, *b, v).unwrap_or(D::Int(*s, *b, false, (v.unsigned_abs()) & w))
                }
            }
        }
        T::F32 => D::F32(match r.below(4) {
            0 => float(r) as f32,
            1 => *r.pick(&[0., -0., f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-45, 16777216., 1e7, 0.1, 7.038531e-26]),
            _ => f32::from_bits(r.next() as u32),
        }),
        T::F64 => D::F64(if r.chance(1, 2) { float(r) } else { f64::from_bits(r.next()) }),
        T::Char => D::Char(if r.chance(1, 3) { *r.pick(&['1', '~', 'a', ' ', '\n', '\'', '"', '-', ':', '\0', 'é', '日', '#', '*']) } else { any_char(r) }),
        T::Str(_) => {
            let l = *r.pick(&[0, 1, 2, 2]);
            D::Str(string(r, l))
        }
        T::Bytes => {
            let n = r.below(6);
            D::Bytes((0..n).map(|_| r.next() as u8).collect())
        }
        T::Unit => D::Unit,
        T::UnitStruct => D::UnitStruct,
        T::Ignored => D::Ignored,
        T::Opt(t) => {
            if r.chance(1, 3) {
                D::None
            } else {
                D::Some(random_value(r, t).into())
            }
        }
        T::New(t) => D::New(random_value(r, t).into()),
        T::Seq(t) => {
            let n = *r.pick(&[0, 1, 1, 2, 3, 5]);
            D::Seq((0..n).map(|_| random_value(r, t)).collect())
        }
        T::Tuple(v) => D::Tuple(v.iter().map(|t| random_value(r, t)).collect()),
        T::TupleStruct(v) => D::TupleStruct(v.iter().map(|t| random_value(r, t)).collect()),
        T::Map(k, v) => {
            let n = *r.pick(&[0, 1, 1, 2, 3, 5]);
            let mut seen: Vec<N> = vec![];
            let mut m = vec![];
            for _ in 0..n {
                let k = random_value(r, k);
                let n = shape(&k);
                if !seen.contains(&n) {
                    seen.push(n);
                    m.push((k, random_value(r, v)));
                }
            }
            D::Map(m, r.chance(1, 2))
        }
        T::Struct(f, _) => D::Struct(f.iter().map(|(n, t)| (*n, random_value(r, t))).collect()),
        T::Enum(v) => {
            let (n, v) = r.pick(v);
            match v {
                Var::Unit => D::VUnit(n),
                Var::New(t) => D::VNew(n, random_value(r, t).into()),
                Var::Tuple(v) => D::VTuple(n, v.iter().map(|t| random_value(r, t)).collect()),
                Var::Struct(f) => D::VStruct(n, f.iter().map(|(n, t)| (*n, random_value(r, t))).collect()),
            }
        }
    }
}

/// The documented shape of the data as a node. Integers beyond `i128` are
/// strings of their digits here.
pub fn shape(d: &D) -> N {
    let seq = |v: &[D]| -> N { V::Seq(v.iter().map(shape).collect()).into() };
    let map = |v: &[(&'static str, D)]| -> N { V::Map(v.iter().map(|(n, d)| (N::str(n), shape(d))).collect()).into() };
    match d {
        D::Bool(b) => V::Bool(*b).into(),
        D::Int(_, _, neg, m) => match (neg, i128::try_from(*m)) {
            (false, Ok(n)) => V::Int(n).into(),
            (true, _) => V::Int((*m as i128).wrapping_neg()).into(),
            _ => N::str(&format!("<int {m}>")),
        },
        D::F32(f) => V::Float(*f as f64).into(),
        D::F64(f) => V::Float(*f).into(),
        D::Char(c) => N::str(&c.to_string()),
        D::Str(s) => N::str(s),
        D::Text(v) => v.clone().into(),
        D::Bytes(v) => V::Seq(v.iter().map(|b| V::Int(*b as i128).into()).collect()).into(),
        D::Unit | D::UnitStruct | D::None | D::Ignored => V::Null.into(),
        D::Some(d) | D::New(d) => shape(d),
        D::Seq(v) | D::Tuple(v) | D::TupleStruct(v) => seq(v),
        D::Map(m, _) => V::Map(m.iter().map(|(k, v)| (shape(k), shape(v))).collect()).into(),
        D::Struct(f) => map(f),
        D::VUnit(n) => N::str(n),
        D::VNew(n, d) => V::Map(vec![(N::str(n), shape(d))]).into(),
        D::VTuple(n, v) => V::Map(vec![(N::str(n), seq(v))]).into(),
        D::VStruct(n, f) => V::Map(vec![(N::str(n), map(f))]).into(),
    }
}

/// Singles are singles, so compare floats by both widths.
pub fn same_shape(a: &N, b: &N, f32s: bool) -> bool {
    match (&a.v, &b.v) {
        (V::Float(a), V::Float(b)) => fsame(*a, *b) || (f32s && (fsame(*a, *b as f32 as f64) || float_value(&(*a as f32).to_string()).is_some_and(|a| fsame(a, *b)))),
        (V::Seq(a), V::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_shape(a, b, f32s)),
        (V::Map(a), V::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_shape(&a.0, &b.0, f32s) && same_shape(&a.1, &b.1, f32s)),
        (a, b) => veq(a, b),
    }
}

pub fn has_f32(d: &D) -> bool {
    let mut b = false;
    visit(d, &mut |d| b |= matches!(d, D::F32(_)));
    b
}

pub fn visit(d: &D, f: &mut dyn FnMut(&D)) {
    f(d);
    match d {
        D::Some(d) | D::New(d) | D::VNew(_, d) => visit(d, f),
        D::Seq(v) | D::Tuple(v) | D::TupleStruct(v) | D::VTuple(_, v) => v.iter().for_each(|d| visit(d, f)),
        D::Map(m, _) => m.iter().for_each(|(k, v)| {
            visit(k, f);
            visit(v, f);
        }),
        D::Struct(m) | D::VStruct(_, m) => m.iter().for_each(|(_, d)| visit(d, f)),
        _ => {}
    }
}

pub fn kind(d: &D) -> &'static str {
    match d {
        D::Bool(_) => "bool",
        D::Int(true, 8, ..) => "i8",
        D::Int(true, 16, ..) => "i16",
        D::Int(true, 32, ..) => "i32",
        D::Int(true, 64, ..) => "i64",
        D::Int(true, ..) => "i128",
        D::Int(false, 8, ..) => "u8",
        D::Int(false, 16, ..) => "u16",
        D::Int(false, 32, ..) => "u32",
        D::Int(false, 64, ..) => "u64",
        D::Int(false, ..) => "u128",
        D::F32(_) => "f32",
        D::F64(_) => "f64",
        D::Char(_) => "char",
        D::Str(_) | D::Text(_) => "str",
        D::Bytes(_) => "bytes",
        D::Unit => "unit",
        D::UnitStruct => "unit struct",
        D::None => "none",
        D::Some(_) => "some",
        D::New(_) => "newtype",
        D::Seq(_) => "seq",
        D::Tuple(_) => "tuple",
        D::TupleStruct(_) => "tuple struct",
        D::Map(..) => "map",
        D::Struct(_) => "struct",
        D::VUnit(_) => "unit variant",
        D::VNew(..) => "newtype variant",
        D::VTuple(..) => "tuple variant",
        D::VStruct(..) => "struct variant",
        D::Ignored => "ignored",
    }
}


// ------------------------------------------------------------------- reference

/// What the node is as the type, or the position of the offending node and
/// the reason.
pub type Fit = Result<D, (u64, &'static str)>;

pub fn fit(t: &T, n: &N) -> Fit {
    let pos = n.pos.map_or(0, |p| p.0);
    let no = |why| Err((pos, why));
    match (t, &n.v) {
        (T::Ignored, _) => Ok(D::Ignored),
        (T::New(t), _) => Ok(D::New(fit(t, n)?.into())),
        (T::Opt(_), V::Null) => Ok(D::None),
        (T::Opt(t), _) => Ok(D::Some(fit(t, n)?.into())),
        (_, V::Alias(_)) => no("alias"),
        (T::Bool, V::Bool(b)) => Ok(D::Bool(*b)),
        (T::Int(s, b), V::Int(i)) => fits(*s, *b, *i).map_or(no("out of range"), Ok),
        (T::F32 | T::F64, V::Int(_)) => Ok(D::Text(n.v.clone())),
        // The text of a float is kept in its tag, since it is rounded once
        (T::F32, V::Float(f)) => Ok(D::F32(n.tag.as_ref().and_then(|t| t.parse().ok()).unwrap_or(*f as f32))),
        (T::F64, V::Float(f)) => Ok(D::F64(*f)),
        (T::Char, V::Str(s)) if s.chars().count() == 1 => Ok(D::Char(s.chars().next().unwrap())),
        // The text of an integer is kept in its tag
        (T::Char, V::Int(i)) if (0..10).contains(i) && n.tag.as_ref().is_none_or(|t| t.len() == 1) => Ok(D::Char(char::from(b'0' + *i as u8))),
        (T::Str(_), V::Str(s)) => Ok(D::Str(s.clone())),
        (T::Str(_), v @ (V::Int(_) | V::Float(_) | V::Bool(_) | V::Null)) => Ok(D::Text(v.clone())),
        (T::Bytes, V::Str(s)) => Ok(D::Bytes(s.clone().into_bytes())),
        (T::Bytes, V::Seq(v)) => {
            let mut b = vec![];
            for n in v {
                match fit(&T::Int(false, 8), n)? {
                    D::Int(_, _, _, n) => b.push(n as u8),
                    _ => unreachable!(),
                }
            }
            Ok(D::Bytes(b))
        }
        (T::Unit, V::Null) => Ok(D::Unit),
        (T::UnitStruct, V::Null) => Ok(D::UnitStruct),
        (T::Seq(t), V::Seq(v)) => Ok(D::Seq(v.iter().map(|n| fit(t, n)).collect::<Result<_, _>>()?)),
        (T::Tuple(t), V::Seq(v)) => Ok(D::Tuple(fit_items(t, v, pos)?)),
        (T::TupleStruct(t), V::Seq(v)) => Ok(D::TupleStruct(fit_items(t, v, pos)?)),
        (T::Map(k, t), V::Map(m)) => Ok(D::Map(m.iter().map(|(a, b)| Ok((fit(k, a)?, fit(t, b)?))).collect::<Result<_, _>>()?, false)),
        (T::Struct(f, deny), V::Map(m)) => Ok(D::Struct(fit_fields(f, *deny, m, pos)?)),
        (T::Struct(f, _), V::Seq(v)) => {
            let t: Vec<T> = f.iter().map(|f| f.1.clone()).collect();
            let v = fit_items(&t, v, pos)?;
            Ok(D::Struct(f.iter().map(|f| f.0).zip(v).collect()))
        }
        (T::Enum(v), V::Str(s)) => match v.iter().find(|v| v.0 == s) {
            Some((n, Var::Unit)) => Ok(D::VUnit(n)),
            Some(_) => no("variant without data"),
            None => no("unknown variant"),
        },
        (T::Enum(v), V::Map(m)) if m.len() == 1 => {
            let (k, x) = &m[0];
            let kpos = k.pos.map_or(0, |p| p.0);
            let xpos = x.pos.map_or(0, |p| p.0);
            let V::Str(s) = &k.v else { return Err((kpos, "variant name")) };
            match (v.iter().find(|v| v.0 == s), &x.v) {
                (None, _) => Err((kpos, "unknown variant")),
                (Some((n, Var::Unit)), V::Null) => Ok(D::VUnit(n)),
                (Some((_, Var::Unit)), _) => Err((xpos, "unit variant with data")),
                (Some((n, Var::New(t))), _) => Ok(D::VNew(n, fit(t, x)?.into())),
                (Some((n, Var::Tuple(t))), V::Seq(v)) => Ok(D::VTuple(n, fit_items(t, v, xpos)?)),
                (Some((n, Var::Struct(f))), V::Map(m)) => Ok(D::VStruct(n, fit_fields(f, false, m, xpos)?)),
                _ => Err((xpos, "data of the variant")),
            }
        }
        _ => no("kind"),
    }
}

fn fit_items(t: &[T], v: &[N], pos: u64) -> Result<Vec<D>, (u64, &'static str)> {
    let mut d = vec![];
    for (i, t) in t.iter().enumerate() {
        match v.get(i) {
            Some(n) => d.push(fit(t, n)?),
            None => return Err((pos, "too short")),
        }
    }
    if v.len() > t.len() {
        return Err((pos, "too long"));
    }
    Ok(d)
}

fn fit_fields(f: &[(&'static str, T)], deny: bool, m: &[(N, N)], pos: u64) -> Result<Vec<(&'static str, D)>, (u64, &'static str)> {
    let mut d: Vec<Option<D>> = vec![None; f.len()];
    for (k, v) in m {
        let kpos = k.pos.map_or(0, |p| p.0);
        let V::Str(s) = &k.v else { return Err((kpos, "field name")) };
        match f.iter().position(|f| f.0 == s) {
            Some(i) => d[i] = Some(fit(&f[i].1, v)?),
            None if deny => return Err((kpos, "unknown field")),
            None => {}
        }
    }
    let mut out = vec![];
    for ((n, t), d) in f.iter().zip(d) {
        match (d, t) {
            (Some(d), _) => out.push((*n, d)),
            (None, T::Opt(_)) => out.push((*n, D::None)),
            (None, _) => return Err((pos, "missing field")),
        }
    }
    Ok(out)
}

// --------------------------------------------------------------- serialization

impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            D::Bool(b) => s.serialize_bool(*b),
            D::Int(true, b, neg, m) => {
                let v = if *neg { (*m as i128).wrapping_neg() } else { *m as i128 };
                match b {
                    8 => s.serialize_i8(v as i8),
                    16 => s.serialize_i16(v as i16),
                    32 => s.serialize_i32(v as i32),
                    64 => s.serialize_i64(v as i64),
                    _ => s.serialize_i128(v),
                }
            }
            D::Int(false, b, _, m) => match b {
                8 => s.serialize_u8(*m as u8),
                16 => s.serialize_u16(*m as u16),
                32 => s.serialize_u32(*m as u32),
                64 => s.serialize_u64(*m as u64),
                _ => s.serialize_u128(*m),
            },
            D::F32(f) => s.serialize_f32(*f),
            D::F64(f) => s.serialize_f64(*f),
            D::Char(c) => s.serialize_char(*c),
            D::Str(t) => s.serialize_str(t),
            D::Text(_) | D::Ignored => unreachable!("reference only"),
            D::Bytes(b) => s.serialize_bytes(b),
            D::Unit => s.serialize_unit(),
            D::UnitStruct => s.serialize_unit_struct("U"),
            D::None => s.serialize_none(),
            D::Some(d) => s.serialize_some(&**d),
            D::New(d) => s.serialize_newtype_struct("N", &**d),
            D::Seq(v) => {
                let mut q = s.serialize_seq(if v.len() % 2 == 0 { Some(v.len()) } else { None })?;
                for d in v {
                    q.serialize_element(d)?;
                }
                q.end()
            }
            D::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for d in v {
                    q.serialize_element(d)?;
                }
                q.end()
            }
            D::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for d in v {
                    q.serialize_field(d)?;
                }
                q.end()
            }
            D::Map(m, entries) => {
                let mut q = s.serialize_map(if *entries { Some(m.len()) } else { None })?;
                for (k, v) in m {
                    if *entries {
                        q.serialize_entry(k, v)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(v)?;
                    }
                }
                q.end()
            }
            D::Struct(f) => {
                let mut q = s.serialize_struct("S", f.len())?;
                for (n, d) in f {
                    q.serialize_field(n, d)?;
                }
                q.end()
            }
            D::VUnit(n) => s.serialize_unit_variant("E", 0, n),
            D::VNew(n, d) => s.serialize_newtype_variant("E", 1, n, &**d),
            D::VTuple(n, v) => {
                let mut q = s.serialize_tuple_variant("E", 2, n, v.len())?;
                for d in v {
                    q.serialize_field(d)?;
                }
                q.end()
            }
            D::VStruct(n, f) => {
                let mut q = s.serialize_struct_variant("E", 3, n, f.len())?;
                for (n, d) in f {
                    q.serialize_field(n, d)?;
                }
                q.end()
            }
        }
    }
}

// ------------------------------------------------------------- deserialization

#[derive(Clone, Copy)]
pub struct Seed<'t>(pub &'t T);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = D;

    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        macro_rules! int {
            ($s:literal, $b:literal, $ty:ty) => {
                <$ty>::deserialize(d).map(|v| {
                    #[allow(unused_comparisons)]
                    let neg = v < 0;
                    D::Int($s, $b, neg, if neg { (v as i128).unsigned_abs() } else { v as u128 })
                })
            };
        }
        match self.0 {
            T::Bool => bool::deserialize(d).map(D::Bool),
            T::Int(true, 8) => int!(true, 8, i8),
            T::Int(true, 16) => int!(true, 16, i16),
            T::Int(true, 32) => int!(true, 32, i32),
            T::Int(true, 64) => int!(true, 64, i64),
            T::Int(true, _) => int!(true, 128, i128),
            T::Int(false, 8) => int!(false, 8, u8),
            T::Int(false, 16) => int!(false, 16, u16),
            T::Int(false, 32) => int!(false, 32, u32),
            T::Int(false, 64) => int!(false, 64, u64),
            T::Int(false, _) => int!(false, 128, u128),
            T::F32 => f32::deserialize(d).map(D::F32),
            T::F64 => f64::deserialize(d).map(D::F64),
            T::Char => char::deserialize(d).map(D::Char),
            T::Str(true) => String::deserialize(d).map(D::Str),
            T::Str(false) => d.deserialize_str(Vis(self.0)),
            T::Bytes => d.deserialize_bytes(Vis(self.0)),
            T::Unit => <()>::deserialize(d).map(|_| D::Unit),
            T::UnitStruct => d.deserialize_unit_struct("U", Vis(self.0)),
            T::Opt(_) => d.deserialize_option(Vis(self.0)),
            T::New(_) => d.deserialize_newtype_struct("N", Vis(self.0)),
            T::Seq(_) => d.deserialize_seq(Vis(self.0)),
            T::Tuple(v) => d.deserialize_tuple(v.len(), Vis(self.0)),
            T::TupleStruct(v) => d.deserialize_tuple_struct("T", v.len(), Vis(self.0)),
            T::Map(..) => d.deserialize_map(Vis(self.0)),
            T::Struct(..) => d.deserialize_struct("S", NAMES, Vis(self.0)),
            T::Enum(_) => d.deserialize_enum("E", NAMES, Vis(self.0)),
            T::Ignored => IgnoredAny::deserialize(d).map(|_| D::Ignored),
        }
    }
}

struct Vis<'t>(&'t T);
struct TupleVis<'t>(&'t [T]);
struct FieldsVis<'t>(&'t [(&'static str, T)], bool);
/// An identifier, `None` if it is unknown.
struct Ident<'t>(&'t dyn Fn(&str) -> Option<usize>, &'static str);

impl<'de> DeserializeSeed<'de> for Ident<'_> {
    type Value = Result<usize, String>;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<Self::Value, X::Error> {
        d.deserialize_identifier(self)
    }
}

impl Visitor<'_> for Ident<'_> {
    type Value = Result<usize, String>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.1)
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
        match (self.0)(s) {
            Some(n) => Ok(Ok(n)),
            None if self.1 == "variant" => Err(E::unknown_variant(s, NAMES)),
            None if self.1 == "known field" => Err(E::unknown_field(s, NAMES)),
            None => Ok(Err(s.to_string())),
        }
    }
}

impl<'de> Visitor<'de> for TupleVis<'_> {
    type Value = Vec<D>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<D>, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(t))? {
                Some(d) => v.push(d),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(v)
    }
}

impl<'de> Visitor<'de> for FieldsVis<'_> {
    type Value = Vec<(&'static str, D)>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut v = vec![];
        for (i, (n, t)) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(t))? {
                Some(d) => v.push((*n, d)),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(v)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let find = |s: &str| self.0.iter().position(|f| f.0 == s);
        let mut d: Vec<Option<D>> = vec![None; self.0.len()];
        while let Some(k) = a.next_key_seed(Ident(&find, if self.1 { "known field" } else { "field" }))? {
            match k {
                Ok(i) => {
                    if d[i].is_some() {
                        return Err(de::Error::duplicate_field(self.0[i].0));
                    }
                    d[i] = Some(a.next_value_seed(Seed(&self.0[i].1))?);
                }
                Err(_) => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = vec![];
        for ((n, t), d) in self.0.iter().zip(d) {
            match (d, t) {
                (Some(d), _) => out.push((*n, d)),
                (None, T::Opt(_)) => out.push((*n, D::None)),
                (None, _) => return Err(de::Error::missing_field(n)),
            }
        }
        Ok(out)
    }
}

impl<'de> Visitor<'de> for Vis<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<D, E> {
        match self.0 {
            T::Str(_) => Ok(D::Str(s.to_string())),
            T::Bytes => Ok(D::Bytes(s.as_bytes().to_vec())),
            _ => Err(E::invalid_type(de::Unexpected::Str(s), &self)),
        }
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<D, E> {
        match self.0 {
            T::Bytes => Ok(D::Bytes(s.to_vec())),
            _ => Err(E::invalid_type(de::Unexpected::Bytes(s), &self)),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<D, E> {
        match self.0 {
            T::UnitStruct => Ok(D::UnitStruct),
            T::Opt(_) => Ok(D::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<D, E> {
        match self.0 {
            T::Opt(_) => Ok(D::None),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        match self.0 {
            T::Opt(t) => Ok(D::Some(Seed(t).deserialize(d)?.into())),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        match self.0 {
            T::New(t) => Ok(D::New(Seed(t).deserialize(d)?.into())),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        match self.0 {
            T::Seq(t) => {
                let mut v = vec![];
                while let Some(d) = a.next_element_seed(Seed(t))? {
                    v.push(d);
                }
                Ok(D::Seq(v))
            }
            T::Bytes => {
                let mut v = vec![];
                while let Some(b) = a.next_element::<u8>()? {
                    v.push(b);
                }
                Ok(D::Bytes(v))
            }
            T::Tuple(t) => TupleVis(t).visit_seq(a).map(D::Tuple),
            T::TupleStruct(t) => TupleVis(t).visit_seq(a).map(D::TupleStruct),
            T::Struct(f, deny) => FieldsVis(f, *deny).visit_seq(a).map(D::Struct),
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        match self.0 {
            T::Map(k, t) => {
                let mut m = vec![];
                while let Some(k) = a.next_key_seed(Seed(k))? {
                    m.push((k, a.next_value_seed(Seed(t))?));
                }
                Ok(D::Map(m, false))
            }
            T::Struct(f, deny) => FieldsVis(f, *deny).visit_map(a).map(D::Struct),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        let T::Enum(v) = self.0 else { return Err(de::Error::invalid_type(de::Unexpected::Enum, &self)) };
        let find = |s: &str| v.iter().position(|v| v.0 == s);
        let (i, x) = a.variant_seed(Ident(&find, "variant"))?;
        let (n, v) = &v[i.map_err(de::Error::custom)?];
        match v {
            Var::Unit => x.unit_variant().map(|_| D::VUnit(n)),
            Var::New(t) => x.newtype_variant_seed(Seed(t)).map(|d| D::VNew(n, d.into())),
            Var::Tuple(t) => x.tuple_variant(t.len(), TupleVis(t)).map(|d| D::VTuple(n, d)),
            Var::Struct(f) => x.struct_variant(NAMES, FieldsVis(f, false)).map(|d| D::VStruct(n, d)),
        }
    }
}
