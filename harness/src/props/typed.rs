//! C28: derived types read from rendered documents.
use crate::{core::*, model::*, props::parse::resolve, render::*};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::{
    borrow::Cow,
    cell::Cell,
    collections::{BTreeMap, BTreeSet, HashMap, VecDeque},
    net::IpAddr,
    num::NonZeroU16,
    path::PathBuf,
    time::Duration,
};
use yaml_peg::{parse, repr::ArcRepr, serde::from_str};

pub const TYPED: Prop = Prop {
    id: "C28",
    rule: "distinct rendered documents of typed data",
    fixed: None,
    case,
    quick: 80_000,
    thorough: 1_500_000,
    must: &[
        "accepted", "streams", "aliases", "shuffled", "unknown fields", "unknown integers", "dropped defaults", "empty structures", "tags", "fault.missing field", "fault.unknown variant", "fault.parse", "fault.strict field", "fault.kind", "fault.range", "fault.variant tag", "fault.length", "fault.untagged",
    ],
    stack: 16 << 20,
    assumptions: &["the derived code of serde and serde_json (which describes the data independently of the crate) are trusted"],
};

/// Stands for an integer of more than 128 bits in unknown fields.
const WIDE: &str = "widewide";

fn title() -> String {
    "untitled".into()
}

fn is_false(b: &bool) -> bool {
    !*b
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(rename_all = "kebab-case")]
struct Config {
    config_id: u32,
    name: String,
    ratio: f64,
    scale: f32,
    flag: bool,
    letter: char,
    small: i8,
    big: u64,
    tags: Vec<String>,
    limits: BTreeMap<String, i64>,
    #[serde(rename = "the mode")]
    mode: Mode,
    modes: Vec<Mode>,
    extra: Option<Box<Strict>>,
    maybe: Option<String>,
    at: (i32, f32, String),
    three: [u8; 3],
    unit: (),
    wrap: Wrap,
    pair: Pair,
    #[serde(default)]
    level: u8,
    #[serde(default = "title")]
    title: String,
    #[serde(default, skip_serializing_if = "is_false")]
    hidden: bool,
    #[serde(default)]
    set: BTreeSet<i64>,
    shape: Shape,
    event: Event,
    any: Any,
    numbers: BTreeMap<i16, bool>,
    queue: VecDeque<Vec<Option<u8>>>,
    more: More,
    children: Vec<Config>,
}

/// Every field has a default.
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(default)]
struct More {
    more_id: u8,
    o_map: Option<BTreeMap<String, u8>>,
    o_defaults: Option<Defaults>,
    o_list: Option<Vec<String>>,
    o_flag: Option<bool>,
    o_int: Option<i64>,
    o_float: Option<f64>,
    o_char: Option<char>,
    o_mode: Option<Mode>,
    o_pair: Option<(u8, String)>,
    o_wrap: Option<Wrap>,
    o_shape: Option<Shape>,
    marker: Marker,
    by_gear: BTreeMap<Gear, Vec<Gear>>,
    by_char: BTreeMap<char, Option<Gear>>,
    cow: Cow<'static, str>,
    boxed: Box<str>,
    nonzero: NonZeroU16,
    result: Result<u8, String>,
    ip: IpAddr,
    path: PathBuf,
    grid: [[u8; 2]; 2],
    clear: Clear,
    time: Duration,
    range: std::ops::Range<i32>,
    figure: Figure,
    nested: BTreeMap<String, BTreeMap<String, Option<Defaults>>>,
    wide: u128,
    cell: Cell<i16>,
    signed: i128,
    long: (u8, u16, u32, u64, i8, i16, i32, i64),
    other: Other,
}

impl Default for More {
    fn default() -> Self {
        Self {
            more_id: 7,
            o_map: None,
            o_defaults: None,
            o_list: None,
            o_flag: None,
            o_int: None,
            o_float: None,
            o_char: None,
            o_mode: Some(Mode::Off),
            o_pair: None,
            o_wrap: None,
            o_shape: None,
            marker: Marker,
            by_gear: BTreeMap::new(),
            by_char: BTreeMap::new(),
            cow: "cow".into(),
            boxed: "".into(),
            nonzero: NonZeroU16::MIN,
            result: Ok(0),
            ip: [127, 0, 0, 1].into(),
            path: "/".into(),
            grid: [[0; 2]; 2],
            clear: Clear { inner: vec![] },
            time: Duration::ZERO,
            range: 0..1,
            figure: Figure::Both(Defaults::default()),
            nested: BTreeMap::new(),
            wide: 1,
            cell: Cell::new(-1),
            signed: -1,
            long: (1, 2, 3, 4, -1, -2, -3, -4),
            other: Other::One,
        }
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Default)]
#[serde(default)]
struct Defaults {
    a: u8,
    b: String,
    c: Option<bool>,
    d_list: Vec<u8>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Marker;

#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
enum Gear {
    Neutral,
    First,
    #[serde(rename = "2")]
    Second,
    #[serde(rename = "r e: v")]
    Reverse,
    #[serde(rename = "true")]
    True,
    #[serde(rename = "")]
    Empty,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(transparent)]
struct Clear {
    inner: Vec<Option<bool>>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "kind")]
enum Figure {
    Both(Defaults),
    Free { at: Option<u8>, list: Option<Vec<u8>> },
    Unit,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum Other {
    One,
    Deep(Box<Other>),
    List(Vec<Other>),
    Maybe(Option<Defaults>),
    Named(Defaults),
    Two(Option<u8>, Option<Vec<u8>>),
    Fields { x: Option<Gear>, y: () },
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(deny_unknown_fields)]
struct Strict {
    strict_id: i32,
    text: String,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Wrap(i64);

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Pair(String, bool);

#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum Mode {
    Off,
    #[serde(rename = "very fast")]
    Fast,
    Level(u8),
    Range(i32, i32),
    Custom {
        custom_id: String,
        on: bool,
    },
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "type", rename_all = "lowercase")]
enum Shape {
    Empty,
    Circle { r: f64 },
    Poly { points: Vec<(i32, i32)>, closed: bool },
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "t", content = "c")]
enum Event {
    Quit,
    Key(char),
    Move { x: i64, y: i64 },
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(untagged)]
enum Any {
    Flag(bool),
    Int(i64),
    Text(String),
    List(Vec<Any>),
    Map(BTreeMap<String, Any>),
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Open {
    open_id: String,
    #[serde(alias = "colour")]
    color: String,
    #[serde(flatten)]
    rest: BTreeMap<String, i64>,
}

// ------------------------------------------------------------------ generators

fn text(r: &mut Rng) -> String {
    string(r, 2)
}

fn many<T>(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = *r.pick(&[0, 1, 1, 2, 3]);
    (0..n).map(|_| f(r)).collect()
}

fn small_float(r: &mut Rng) -> f64 {
    // Exact in JSON and in both widths
    match r.below(6) {
        0 => 0.,
        1 => 1e10,
        2 => -1.,
        _ => (r.below(20001) as f64 - 10000.) / 8.,
    }
}

fn mode(r: &mut Rng) -> Mode {
    match r.below(5) {
        0 => Mode::Off,
        1 => Mode::Fast,
        2 => Mode::Level(r.next() as u8),
        3 => Mode::Range(r.next() as i32, 0),
        _ => Mode::Custom { custom_id: text(r), on: r.chance(1, 2) },
    }
}

fn any(r: &mut Rng, depth: usize) -> Any {
    match r.below(if depth == 0 { 3 } else { 5 }) {
        0 => Any::Flag(r.chance(1, 2)),
        1 => Any::Int(int(r, false) as i64),
        2 => Any::Text(text(r)),
        3 => Any::List(many(r, |r| any(r, depth - 1))),
        _ => Any::Map(many(r, |r| (text(r), any(r, depth - 1))).into_iter().collect()),
    }
}

fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(2, 5) {
        None
    } else {
        Some(f(r))
    }
}

fn gear(r: &mut Rng) -> Gear {
    match r.below(6) {
        0 => Gear::Neutral,
        1 => Gear::First,
        2 => Gear::Second,
        3 => Gear::Reverse,
        4 => Gear::True,
        _ => Gear::Empty,
    }
}

fn defaults(r: &mut Rng) -> Defaults {
    let mut d = Defaults::default();
    if r.chance(1, 3) {
        d.a = r.next() as u8;
    }
    if r.chance(1, 3) {
        d.b = text(r);
    }
    if r.chance(1, 3) {
        d.c = Some(r.chance(1, 2));
    }
    if r.chance(1, 3) {
        d.d_list = many(r, |r| r.next() as u8);
    }
    d
}

fn other(r: &mut Rng, depth: usize) -> Other {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => Other::One,
        1 => Other::Maybe(opt(r, defaults)),
        2 => Other::Named(defaults(r)),
        3 => Other::Two(opt(r, |r| r.next() as u8), opt(r, |r| many(r, |r| r.next() as u8))),
        4 => Other::Fields { x: opt(r, gear), y: () },
        5 => Other::Deep(Box::new(other(r, depth - 1))),
        _ => Other::List(many(r, |r| other(r, depth - 1))),
    }
}

fn shape(r: &mut Rng) -> Shape {
    match r.below(3) {
        0 => Shape::Empty,
        1 => Shape::Circle { r: small_float(r) },
        _ => Shape::Poly { points: many(r, |r| (r.next() as i32, -1)), closed: r.chance(1, 2) },
    }
}

fn more(r: &mut Rng) -> More {
    let mut m = More::default();
    if r.chance(1, 3) {
        return m;
    }
    m.more_id = *r.pick(&[0, 1, 7, 255]);
    m.o_map = opt(r, |r| many(r, |r| (text(r), r.next() as u8)).into_iter().collect());
    m.o_defaults = opt(r, defaults);
    m.o_list = opt(r, |r| many(r, text));
    m.o_flag = opt(r, |r| r.chance(1, 2));
    m.o_int = opt(r, |r| *r.pick(&[0, 1, -1, i64::MIN, i64::MAX]));
    m.o_float = opt(r, small_float);
    m.o_char = opt(r, any_char);
    m.o_mode = opt(r, mode);
    m.o_pair = opt(r, |r| (r.next() as u8, text(r)));
    m.o_wrap = opt(r, |r| Wrap(int(r, false) as i64));
    m.o_shape = opt(r, shape);
    m.by_gear = many(r, |r| (gear(r), many(r, gear))).into_iter().collect();
    m.by_char = many(r, |r| (any_char(r), opt(r, gear))).into_iter().collect();
    m.cow = text(r).into();
    m.boxed = text(r).into();
    m.nonzero = NonZeroU16::new(r.range(1, 65535) as u16).unwrap();
    m.result = if r.chance(1, 2) { Ok(r.next() as u8) } else { Err(text(r)) };
    m.ip = if r.chance(1, 2) { IpAddr::from((r.next() as u32).to_be_bytes()) } else { IpAddr::from((r.next() as u128).to_be_bytes()) };
    m.path = text(r).into();
    m.grid = [[1, r.next() as u8], [r.next() as u8, 4]];
    m.clear = Clear { inner: many(r, |r| opt(r, |r| r.chance(1, 2))) };
    m.time = Duration::new(*r.pick(&[0, 1, u64::MAX]), *r.pick(&[0, 1, 999_999_999]));
    m.range = r.next() as i32..*r.pick(&[0, -5, i32::MAX]);
    m.figure = match r.below(3) {
        0 => Figure::Both(defaults(r)),
        1 => Figure::Free { at: opt(r, |r| r.next() as u8), list: opt(r, |r| many(r, |r| r.next() as u8)) },
        _ => Figure::Unit,
    };
    m.nested = many(r, |r| (text(r), many(r, |r| (text(r), opt(r, defaults))).into_iter().collect())).into_iter().collect();
    m.wide = *r.pick(&[0, 1, u64::MAX as u128]);
    m.cell = Cell::new(r.next() as i16);
    m.signed = *r.pick(&[0, i64::MIN as i128, u64::MAX as i128]);
    m.long = (0, u16::MAX, u32::MAX, u64::MAX, i8::MIN, i16::MIN, i32::MIN, i64::MIN);
    m.other = other(r, 2);
    m
}

fn config(r: &mut Rng, depth: usize) -> Config {
    Config {
        config_id: r.next() as u32,
        name: text(r),
        ratio: small_float(r),
        scale: small_float(r) as f32,
        flag: r.chance(1, 2),
        letter: any_char(r),
        small: r.next() as i8,
        big: *r.pick(&[0, 1, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, 12345]),
        tags: many(r, text),
        limits: many(r, |r| (text(r), int(r, false) as i64)).into_iter().collect(),
        mode: mode(r),
        modes: many(r, mode),
        extra: if r.chance(1, 2) { None } else { Some(Box::new(Strict { strict_id: r.next() as i32, text: text(r) })) },
        maybe: if r.chance(1, 2) { None } else { Some(text(r)) },
        at: (r.next() as i32, small_float(r) as f32, text(r)),
        three: [r.next() as u8, 0, 255],
        unit: (),
        wrap: Wrap(int(r, false) as i64),
        pair: Pair(text(r), r.chance(1, 2)),
        level: *r.pick(&[0, 0, 1, 255]),
        title: if r.chance(1, 2) { title() } else { text(r) },
        hidden: r.chance(1, 2),
        set: many(r, |r| int(r, false) as i64).into_iter().collect(),
        shape: shape(r),
        event: match r.below(3) {
            0 => Event::Quit,
            1 => Event::Key(any_char(r)),
            _ => Event::Move { x: int(r, false) as i64, y: 0 },
        },
        any: any(r, 2),
        numbers: many(r, |r| (r.next() as i16, r.chance(1, 2))).into_iter().collect(),
        queue: many(r, |r| many(r, |r| if r.chance(1, 3) { None } else { Some(r.next() as u8) })).into(),
        more: more(r),
        children: if depth == 0 { vec![] } else { many(r, |r| config(r, depth - 1)) },
    }
}

/// The tree of the data, by another implementation.
fn tree_of(v: &Value, numbers: bool) -> N {
    match v {
        Value::Null => V::Null,
        Value::Bool(b) => V::Bool(*b),
        Value::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => V::Int(i as i128),
            (_, Some(i)) => V::Int(i as i128),
            _ => V::Float(n.as_f64().unwrap()),
        },
        Value::String(s) => V::Str(s.clone()),
        Value::Array(v) => V::Seq(v.iter().map(|v| tree_of(v, false)).collect()),
        Value::Object(m) => V::Map(
            m.iter()
                .map(|(k, v)| {
                    // JSON writes the numbers of keys as strings
                    let key = if numbers { V::Int(k.parse().unwrap()).into() } else { N::str(k) };
                    (key, tree_of(v, k == "numbers" && m.contains_key("config-id")))
                })
                .collect(),
        ),
    }
    .into()
}

fn has(m: &[(N, N)], k: &str) -> bool {
    m.iter().any(|e| e.0.v == V::Str(k.into()))
}

fn entry<'a>(m: &'a mut [(N, N)], k: &str) -> Option<&'a mut N> {
    m.iter_mut().find(|e| e.0.v == V::Str(k.into())).map(|e| &mut e.1)
}

fn remove(m: &mut Vec<(N, N)>, k: &str) {
    m.retain(|e| e.0.v != V::Str(k.into()));
}

/// Changes without a meaning for the types.
fn dress(cx: &mut Ctx, r: &mut Rng, n: &mut N) {
    let base = [serde_json::to_value(More::default()), serde_json::to_value(Defaults::default())].map(|v| match tree_of(&v.unwrap(), false).v {
        V::Map(m) => m,
        _ => unreachable!(),
    });
    n.walk_mut(&mut |n| {
        let V::Map(m) = &mut n.v else { return };
        if has(m, "config-id") {
            for (k, v) in [("level", V::Int(0)), ("title", V::Str(title())), ("set", V::Seq(vec![])), ("extra", V::Null), ("maybe", V::Null)] {
                if entry(m, k).is_some_and(|n| n.v == v) && r.chance(1, 2) {
                    remove(m, k);
                    cx.count("dropped defaults");
                }
            }
        }
        // The defaults of whole structures
        for (id, all) in [("more_id", &base[0]), ("d_list", &base[1])] {
            if has(m, id) {
                for (k, v) in all {
                    let V::Str(k) = &k.v else { continue };
                    if entry(m, k).is_some_and(|n| n.v == v.v) && r.chance(2, 3) {
                        remove(m, k);
                        cx.count("dropped defaults");
                        if m.is_empty() {
                            cx.count("empty structures");
                        }
                    }
                }
            }
        }
        if has(m, "config-id") || has(m, "custom_id") || has(m, "points") {
            for _ in 0..r.below(3) {
                let k: N = N::str(r.ps(&["unknown", "Name", "config_id", "x y", "", "nul", "zz"]));
                if !has_key(m, &k) {
                    // The buffers of tagged enums have no integers beyond 64 bits
                    let big = !has(m, "points");
                    let v = tree(r, &TreeOpt { nodes: 6, depth: 2, width: 3, big, ..TREE });
                    let mut any = false;
                    let v = if big && r.chance(1, 8) { N::str(WIDE) } else { v };
                    v.walk(&mut |n| any |= matches!(n.v, V::Int(i) if i64::try_from(i).is_err() && u64::try_from(i).is_err()));
                    if any {
                        cx.count("unknown integers");
                    }
                    let at = r.below(m.len() + 1);
                    m.insert(at, (k, v));
                    cx.count("unknown fields");
                }
            }
        }
        if m.len() > 1 && r.chance(1, 2) {
            cx.count("shuffled");
            for i in (1..m.len()).rev() {
                m.swap(i, r.below(i + 1));
            }
        }
    });
    // Tags do not matter
    if r.chance(1, 3) {
        n.walk_mut(&mut |n| {
            if n.is_coll() && r.chance(1, 12) {
                cx.count("tags");
                n.tag = Some(r.ps(&["thing", "x-y", "Config"]).into());
            }
        });
    }
}

/// Write equal values by aliases.
fn share(cx: &mut Ctx, r: &mut Rng, n: &mut N, seen: &mut Vec<(N, String)>, left: &mut usize) {
    if r.chance(1, 2) && n.tag.is_none() {
        if let Some((_, a)) = seen.iter().find(|s| s.0.v == n.v) {
            n.v = V::Alias(a.clone());
            cx.count("aliases");
            return;
        }
    }
    let whole = n.clone();
    match &mut n.v {
        V::Seq(v) => v.iter_mut().for_each(|n| share(cx, r, n, seen, left)),
        V::Map(m) => m.iter_mut().for_each(|(_, v)| share(cx, r, v, seen, left)),
        _ => {}
    }
    if *left > 0 && r.chance(1, 6) {
        *left -= 1;
        let a = format!("a{}", seen.len());
        n.anchor = Some(a.clone());
        seen.push((whole, a));
    }
}

/// Break the data somewhere, return what.
fn fault(r: &mut Rng, n: &mut N) -> Option<&'static str> {
    let V::Map(m) = &mut n.v else { return None };
    let how = r.below(11);
    // Sometimes in a nested value
    if r.chance(1, 3) {
        if let Some(V::Seq(v)) = entry(m, "children").map(|n| &mut n.v) {
            if let Some(c) = v.last_mut() {
                return fault(r, c);
            }
        }
    }
    Some(match how {
        0 => {
            remove(m, r.ps(&["config-id", "name", "ratio", "flag", "letter", "tags", "limits", "the mode", "modes", "at", "three", "wrap", "pair", "shape", "event", "any", "children", "unit", "queue"]));
            "fault.missing field"
        }
        1 => {
            *entry(m, "the mode")? = if r.chance(1, 2) { N::str(r.ps(&["off", "OFF", "Fast", "", "very  fast"])) } else { V::Map(vec![(N::str("level"), V::Int(1).into())]).into() };
            "fault.unknown variant"
        }
        2 => {
            match &mut entry(m, "extra")?.v {
                V::Map(e) => e.insert(r.below(3), (N::str("more"), V::Null.into())),
                _ => return None,
            }
            "fault.strict field"
        }
        3 => {
            let (k, v): (&str, V) = match r.below(10) {
                0 => ("flag", N::str("true").v),
                1 => ("flag", V::Int(1)),
                2 => ("tags", N::str("x").v),
                3 => ("limits", V::Seq(vec![])),
                4 => ("letter", N::str("ab").v),
                5 => ("wrap", N::str("1").v),
                6 => ("big", V::Float(1.5)),
                7 => ("config-id", V::Null),
                8 => ("unit", V::Bool(false)),
                _ => ("queue", V::Seq(vec![V::Seq(vec![V::Null.into(), N::str("x")]).into()])),
            };
            entry(m, k)?.v = v;
            "fault.kind"
        }
        4 => {
            let (k, v) = *r.pick(&[("config-id", -1i128), ("config-id", 1 << 32), ("small", 128), ("small", -129), ("big", -1), ("big", 1 << 64), ("level", 256), ("wrap", 1 << 63)]);
            let at = m.iter().position(|e| e.0.v == V::Str(k.into()));
            match at {
                Some(i) => m[i].1 = V::Int(v).into(),
                None => m.push((N::str(k), V::Int(v).into())),
            }
            "fault.range"
        }
        5 => {
            match &mut entry(m, "shape")?.v {
                V::Map(e) if r.chance(1, 2) => remove(e, "type"),
                V::Map(e) => *entry(e, "type")? = N::str("Circle"),
                _ => return None,
            }
            "fault.variant tag"
        }
        6 => {
            match &mut entry(m, "event")?.v {
                V::Map(e) if r.chance(1, 2) => remove(e, "t"),
                V::Map(e) => *entry(e, "t")? = N::str("quit"),
                _ => return None,
            }
            "fault.variant tag"
        }
        7 => {
            let k = r.ps(&["at", "three", "pair"]);
            match &mut entry(m, k)?.v {
                V::Seq(v) if r.chance(1, 2) => {
                    v.pop();
                }
                V::Seq(v) => v.push(V::Int(1).into()),
                _ => return None,
            }
            "fault.length"
        }
        8 => {
            *entry(m, "any")? = r.pick(&[V::Null, V::Float(1.5), V::Seq(vec![N::str("a"), V::Null.into()])]).clone().into();
            "fault.untagged"
        }
        9 => {
            // The data of another variant
            *entry(m, "the mode")? = V::Map(vec![match r.below(4) {
                0 => (N::str("Level"), V::Seq(vec![V::Int(1).into()]).into()),
                1 => (N::str("Range"), V::Seq(vec![V::Int(1).into()]).into()),
                2 => (N::str("Custom"), V::Map(vec![(N::str("custom_id"), N::str("x"))]).into()),
                _ => (N::str("Level"), V::Int(256).into()),
            }])
            .into();
            "fault.kind"
        }
        _ => {
            let key: N = if r.chance(1, 2) { N::str("x") } else { V::Int(40000).into() };
            match &mut entry(m, "numbers")?.v {
                V::Map(e) => e.push((key, V::Bool(true).into())),
                _ => return None,
            }
            "fault.kind"
        }
    })
}

fn case(cx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 6) {
        return open(cx, r);
    }
    let n = *r.pick(&[1, 1, 1, 1, 2, 3]);
    let data: Vec<Config> = (0..n)
        .map(|_| {
            let depth = *r.pick(&[0, 0, 0, 1, 1, 2]);
            config(r, depth)
        })
        .collect();
    let mut docs: Vec<N> = data.iter().map(|c| tree_of(&serde_json::to_value(c).unwrap(), false)).collect();
    let bad = r.chance(1, 3);
    let mut broken = None;
    if bad {
        let i = r.below(docs.len());
        broken = fault(r, &mut docs[i]);
        if broken.is_none() {
            cx.count("skipped.no fault");
            return;
        }
    }
    for d in &mut docs {
        dress(cx, r, d);
        if r.chance(1, 3) {
            let plain = d.clone();
            share(cx, r, d, &mut vec![], &mut 6);
            // The reference of the aliases
            if resolve(d, &mut BTreeMap::new(), &mut 100_000).is_none_or(|n| n.v != plain.v) {
                *d = plain;
                cx.count("skipped.alias");
            }
        }
    }
    let st = random_style(r);
    let (mut doc, _) = render(r, st, vec![], &mut docs);
    if !bad && r.chance(1, 20) {
        doc = match r.below(3) {
            0 => format!("{doc}\n---\n'abc\n"),
            1 => format!("{doc}\n---\n[a, b\n"),
            _ => format!("{doc}\n---\nconfig-id: *undefined\n"),
        };
        broken = Some("fault.parse");
    }
    // An integer beyond the model
    if doc.contains(WIDE) {
        cx.count("unknown integers");
        doc = doc.replace(WIDE, "340282366920938463463374607431768211456");
    }
    cx.input(&doc);
    cx.nontrivial(&doc);
    if cx.case % 1009 == 0 {
        cx.sample(doc.clone());
    }
    let got = from_str::<Config>(&doc);
    let arc = parse::<ArcRepr>(&doc).map_err(|e| e.to_string()).and_then(|v| v.into_iter().map(|n| Config::deserialize(n).map_err(|e| e.to_string())).collect::<Result<Vec<_>, _>>());
    if let Some(b) = broken {
        cx.count(b);
        cx.check(got.is_err(), &format!("accepted: {b}"), || brief(&format!("{got:?}")));
        cx.check(arc.is_err(), &format!("accepted (Arc): {b}"), || brief(&format!("{arc:?}")));
        if let Err(e) = got {
            cx.check(!e.to_string().is_empty(), "error without text", || format!("{e:?}"));
        }
        return;
    }
    cx.count("accepted");
    if n > 1 {
        cx.count("streams");
    }
    cx.check(got.as_ref().is_ok_and(|g| *g == data), "other data", || first_diff(&got.as_ref().map_err(|e| e.to_string()).cloned_dbg(), &data));
    cx.check(arc.as_ref().is_ok_and(|g| *g == data), "other data (Arc)", || first_diff(&arc.cloned_dbg(), &data));
}

trait Dbg {
    fn cloned_dbg(&self) -> Result<String, String>;
}

impl<T: std::fmt::Debug, E: std::fmt::Display> Dbg for Result<T, E> {
    fn cloned_dbg(&self) -> Result<String, String> {
        match self {
            Ok(v) => Ok(format!("{v:?}")),
            Err(e) => Err(e.to_string()),
        }
    }
}

fn first_diff(got: &Result<String, String>, want: &impl std::fmt::Debug) -> String {
    match got {
        Err(e) => e.clone(),
        Ok(g) => {
            let w = format!("{want:?}");
            let i = g.bytes().zip(w.bytes()).take_while(|(a, b)| a == b).count();
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(40).min(s.len())..(i + 40).min(s.len())]).into_owned();
            format!("…{}… instead of …{}…", cut(g), cut(&w))
        }
    }
}

/// Flattened fields, aliases of fields and maps with any order.
fn open(cx: &mut Ctx, r: &mut Rng) {
    let want = Open { open_id: text(r), color: text(r), rest: many(r, |r| (text(r), int(r, false) as i64)).into_iter().filter(|e| !["open_id", "color", "colour"].contains(&e.0.as_str())).collect() };
    let mut m: Vec<(N, N)> = want.rest.iter().map(|(k, v)| (N::str(k), V::Int(*v as i128).into())).collect();
    m.push((N::str("open_id"), N::str(&want.open_id)));
    m.push((N::str(r.ps(&["color", "colour"])), N::str(&want.color)));
    for i in (1..m.len()).rev() {
        m.swap(i, r.below(i + 1));
    }
    let all: HashMap<String, N> = m.iter().map(|(k, v)| (if let V::Str(s) = &k.v { s.clone() } else { String::new() }, v.clone())).collect();
    let missing = r.chance(1, 6);
    if missing {
        let k = r.ps(&["open_id", "color"]);
        remove(&mut m, k);
        if k == "color" {
            remove(&mut m, "colour");
        }
    }
    let mut docs = vec![V::Map(m).into()];
    let st = random_style(r);
    let (doc, _) = render(r, st, vec![], &mut docs);
    cx.input(&doc);
    cx.nontrivial(&doc);
    let got = from_str::<Open>(&doc);
    if missing {
        cx.count("fault.missing field");
        cx.check(got.is_err(), "accepted: fault.missing field", || format!("{got:?}"));
        return;
    }
    cx.count("accepted");
    cx.check(got.as_ref().is_ok_and(|g| g.len() == 1 && g[0] == want), "other flattened data", || first_diff(&got.cloned_dbg(), &want));
    // As a plain map of any values
    let got = from_str::<HashMap<String, yaml_peg::NodeRc>>(&doc);
    let same = got.as_ref().is_ok_and(|g| g.len() == 1 && g[0].len() == all.len() && all.iter().all(|(k, v)| g[0].get(k).is_some_and(|y| same(v, y, VAL).is_ok())));
    cx.check(same, "other map", || format!("{got:?}"));
}
