//! C16, C17, C18: serde through nodes and through text.
use crate::{core::*, dynser::*, model::*, render::*};
use serde::{de::DeserializeSeed, Serialize};
use yaml_peg::{
    dump, parse, parse_cyclic,
    repr::{ArcRepr, RcRepr, Repr},
    serde::{from_str, to_arc_node, to_node, to_string},
    Node, Yaml,
};

const MUST: &[&str] = &[
    "bool", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64", "char", "str", "bytes", "unit", "unit struct", "none", "some", "newtype", "seq", "tuple", "tuple struct", "map", "struct", "unit variant", "newtype variant", "tuple variant", "struct variant",
];

const TEXT_MUST: &[&str] = &[
    "bool", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64", "char", "str", "bytes", "unit", "unit struct", "none", "some", "newtype", "seq", "tuple", "tuple struct", "map", "struct", "unit variant", "newtype variant", "tuple variant", "struct variant", "from_str", "streams", "streams.null",
];

pub const NODES: Prop = Prop {
    id: "C16",
    rule: "distinct values with their types",
    fixed: None,
    case: nodes,
    quick: 2_000_000,
    thorough: 10_000_000,
    must: MUST,
    stack: 16 << 20,
    assumptions: &["options of types whose values can be null are not representable and not generated", "keys of a map are distinct as nodes"],
};

/// Compare the node with the documented shape. Numbers beyond `i128` are
/// recorded as their digits in both trees.
fn shaped<R: Repr>(cx: &mut Ctx, d: &D, y: &Node<R>) {
    let n = unbuild(y);
    let want = shape(d);
    cx.check(same_shape(&want, &n, has_f32(d)), "node of another shape", || format!("{}\nexpected {}", brief(&format!("{y:?}")), brief(&format!("{:?}", want.v))));
    let mut ok = true;
    n.walk(&mut |n| ok &= (n.tag.is_none() || matches!(&n.v, V::Str(s) if s.starts_with("<int "))) && n.pos == Some((0, 0)));
    cx.check(ok, "node has a tag or a position", || format!("{y:?}"));
}

fn back<R: Repr>(cx: &mut Ctx, t: &T, d: &D, y: Node<R>, what: &str) {
    match Seed(t).deserialize(y) {
        Ok(e) => cx.check(deq(d, &e), what, || format!("{}\nexpected {}", brief(&format!("{e:?}")), brief(&format!("{d:?}")))),
        Err(e) => cx.check(false, what, || format!("{e}, expected {}", brief(&format!("{d:?}")))),
    };
}

fn gen(cx: &mut Ctx, r: &mut Rng) -> (T, D) {
    let depth = *r.pick(&[0, 1, 2, 2, 3, 3, 4]);
    let t = random_type(r, depth);
    let d = random_value(r, &t);
    visit(&d, &mut |d| cx.count(kind(d)));
    cx.input(&format!("{t:?}\n{d:?}"));
    cx.nontrivial(&cx.input.clone());
    if cx.case % 1009 == 0 {
        cx.sample(format!("{d:?}"));
    }
    (t, d)
}

fn nodes(cx: &mut Ctx, r: &mut Rng) {
    let (t, d) = gen(cx, r);
    match to_node(&d) {
        Ok(y) => {
            shaped(cx, &d, &y);
            back(cx, &t, &d, y, "another value (Rc)");
        }
        Err(e) => {
            cx.check(false, "not serialized", || e.to_string());
        }
    }
    match to_arc_node(&d) {
        Ok(y) => {
            shaped(cx, &d, &y);
            back(cx, &t, &d, y, "another value (Arc)");
        }
        Err(e) => {
            cx.check(false, "not serialized (Arc)", || e.to_string());
        }
    }
}

pub const TEXT: Prop = Prop {
    id: "C17",
    rule: "distinct values with their types",
    fixed: None,
    case: text,
    quick: 800_000,
    thorough: 6_000_000,
    must: TEXT_MUST,
    stack: 16 << 20,
    assumptions: &["options of types whose values can be null are not representable and not generated", "keys of a map are distinct as nodes"],
};

struct Ser<'a>(&'a D);

thread_local! {
    static TYPE: std::cell::RefCell<Option<T>> = const { std::cell::RefCell::new(None) };
}

/// A value of the current type.
struct Own(D);

impl<'a> serde::Deserialize<'a> for Own {
    fn deserialize<X: serde::Deserializer<'a>>(d: X) -> Result<Self, X::Error> {
        let t = TYPE.with(|t| t.borrow().clone()).expect("type");
        Seed(&t).deserialize(d).map(Own)
    }
}

impl Serialize for Ser<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}

fn text(cx: &mut Ctx, r: &mut Rng) {
    let (t, d) = gen(cx, r);
    let n = *r.pick(&[0, 0, 0, 1, 2, 4]);
    let mut docs = vec![d];
    for _ in 0..n {
        docs.push(random_value(r, &t));
    }
    let text = if n == 0 {
        match to_string(&Ser(&docs[0])) {
            Ok(s) => s,
            Err(e) => {
                cx.check(false, "not serialized", || e.to_string());
                return;
            }
        }
    } else {
        cx.count("streams");
        let Ok(v) = docs.iter().map(to_node).collect::<Result<Vec<_>, _>>() else {
            cx.check(false, "not serialized", String::new);
            return;
        };
        dump(&v, &[])
    };
    cx.input(&format!("{t:?}\n{docs:?}\n=====\n{text}"));
    TYPE.with(|c| *c.borrow_mut() = Some(t.clone()));
    match from_str::<Own>(&text) {
        Err(e) => {
            cx.check(false, "text rejected", || e.to_string());
        }
        Ok(v) => {
            cx.count("from_str");
            if docs.len() > 1 && docs.iter().any(|d| matches!(d, D::None | D::Unit)) {
                cx.count("streams.null");
            }
            if cx.check(v.len() == docs.len(), "number of values", || format!("{} instead of {}", v.len(), docs.len())) {
                for (v, d) in v.iter().zip(&docs) {
                    cx.check(deq(d, &v.0), "another value from the text", || format!("{}\nexpected {}", brief(&format!("{:?}", v.0)), brief(&format!("{d:?}"))));
                }
            }
        }
    }
    match parse::<RcRepr>(&text) {
        Err(e) => {
            cx.check(false, "text rejected", || e.to_string());
        }
        Ok(v) => {
            if cx.check(v.len() == docs.len(), "number of documents", || format!("{}", v.len())) {
                for (y, d) in v.into_iter().zip(&docs) {
                    back(cx, &t, d, y, "another value");
                }
            }
        }
    }
}

// ------------------------------------------------------------------ acceptance

pub const FIT: Prop = Prop {
    id: "C18",
    rule: "distinct (document, type) pairs",
    fixed: Some(fit_fixed),
    case: fit_case,
    quick: 1_500_000,
    thorough: 8_000_000,
    must: &[
        "accepted", "rejected", "middles", "why.out of range", "why.kind", "why.too short", "why.too long", "why.missing field", "why.unknown field", "why.unknown variant", "why.variant without data", "why.unit variant with data", "why.data of the variant", "why.field name", "why.variant name", "why.alias", "deep", "Text",
    ],
    stack: 16 << 20,
    assumptions: &[
        "strings are read from any scalar as its text, characters from single digits, floats from integers, structs from lists, and variants from their name or a single pair map, as the crate documents and tests",
        "positions of the nodes themselves are decided by C09",
    ],
};

fn number_texts<R: Repr>(y: &Node<R>, out: &mut Vec<String>) {
    match y.yaml() {
        Yaml::Int(s) | Yaml::Float(s) => out.push(s.clone()),
        Yaml::Seq(v) => v.iter().for_each(|n| number_texts(n, out)),
        Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            number_texts(k, out);
            number_texts(v, out);
        }),
        _ => {}
    }
}

fn decide<R: Repr>(cx: &mut Ctx, t: &T, y: Node<R>) {
    let mut n = unbuild(&y);
    let mut texts = vec![];
    number_texts(&y, &mut texts);
    let mut texts = texts.into_iter();
    n.walk_mut(&mut |n| n.tag = if let V::Int(_) | V::Float(_) = n.v { texts.next() } else { None });
    let want = fit(t, &n);
    let got = Seed(t).deserialize(y);
    match (want, got) {
        (Ok(d), Ok(e)) => {
            cx.count("accepted");
            visit(&d, &mut |d| {
                if let D::Text(_) = d {
                    cx.count("Text")
                }
            });
            cx.check(deq(&d, &e), "another value", || format!("{}\nexpected {}", brief(&format!("{e:?}")), brief(&format!("{d:?}"))));
        }
        (Ok(d), Err(e)) => {
            cx.check(false, "rejected", || format!("{e}, expected {}", brief(&format!("{d:?}"))));
        }
        (Err((_, why)), Ok(e)) => {
            cx.check(false, &format!("accepted in spite of: {why}"), || brief(&format!("{e:?}")));
        }
        (Err((pos, why)), Err(e)) => {
            cx.count("rejected");
            cx.count(&format!("why.{why}"));
            cx.check(e.pos == pos, &format!("wrong position of: {why}"), || format!("{} instead of {pos}: {e}", e.pos));
            cx.check(!e.msg.is_empty(), "no message", String::new);
        }
    }
}

/// Break something in the tree.
fn mutate(r: &mut Rng, n: &mut N) {
    let size = n.size();
    let at = r.below(size);
    let mut i = 0;
    let other: N = match r.below(8) {
        0 => V::Seq(vec![]).into(),
        1 => V::Map(vec![]).into(),
        2 => V::Map(vec![(N::str(*r.pick(pool())), leaf(r, &TREE).into())]).into(),
        3 => N::str(*r.pick(pool())),
        4 => V::Int(int(r, true)).into(),
        5 => V::Alias("x".into()).into(),
        _ => leaf(r, &TREE).into(),
    };
    let how = r.below(6);
    let p = r.next() as usize;
    let (name, x): (N, N) = (N::str(*r.pick(pool())), leaf(r, &TREE).into());
    n.walk_mut(&mut |n| {
        if i == at {
            match (how, &mut n.v) {
                (0, V::Seq(v)) if !v.is_empty() => {
                    v.pop();
                }
                (1, V::Seq(v)) => v.push(x.clone()),
                (0, V::Map(m)) if !m.is_empty() => {
                    m.remove(p % m.len());
                }
                (1, V::Map(m)) if !has_key(m, &name) => m.insert(p % (m.len() + 1), (name.clone(), x.clone())),
                (2, V::Map(m)) if !m.is_empty() && !has_key(m, &x) => {
                    let j = p % m.len();
                    m[j].0 = x.clone();
                }
                (3, V::Map(m)) if m.len() > 1 => m.reverse(),
                (4, V::Map(m)) => n.v = V::Seq(m.iter().map(|m| m.1.clone()).collect()),
                _ => n.v = other.v.clone(),
            }
        }
        i += 1;
    });
    // The new keys may collide
    n.walk_mut(&mut |n| {
        if let V::Map(m) = &mut n.v {
            let mut out: Vec<(N, N)> = vec![];
            for e in std::mem::take(m) {
                if !has_key(&out, &e.0) {
                    out.push(e);
                }
            }
            *m = out;
        }
    });
}

/// The node for a value of the type, in other notations too.
fn loosen(r: &mut Rng, d: &D) -> N {
    let mut n = shape(d);
    n.walk_mut(&mut |n| {
        if let V::Str(s) = &n.v {
            if let Some(m) = s.strip_prefix("<int ") {
                // Beyond the reference model
                n.v = V::Int(m.trim_end_matches('>').parse::<u128>().map_or(0, |m| (m >> 1) as i128));
            } else if s.len() == 1 && s.as_bytes()[0].is_ascii_digit() && r.chance(1, 2) {
                n.v = V::Int((s.as_bytes()[0] - b'0') as i128);
            }
        }
    });
    n
}

/// The decimals next to the middle of two floats, which are rounded once.
fn middles(cx: &mut Ctx, r: &mut Rng) {
    let f = f32::from_bits(r.next() as u32);
    let f = match r.below(4) {
        0 if f.is_finite() => f,
        1 => (r.below(1 << 26) as f32) / 8.,
        2 => -(1. + r.below(1 << 23) as f32),
        _ => f32::from_bits((100 + r.below(54) as u32) << 23 | (r.next() as u32 & 0x7f_ffff)),
    };
    let g = f32::from_bits(f.to_bits() + 1);
    if !g.is_finite() {
        return;
    }
    // This is the exact middle
    let m = (f as f64 + g as f64) / 2.;
    let mut t = if r.chance(1, 2) { format!("{m:.160}") } else { format!("{m:.160e}") };
    let e = t.find('e').map_or(String::new(), |i| t.split_off(i));
    if t.contains('.') {
        t.truncate(t.trim_end_matches('0').len());
    }
    if t.ends_with('.') {
        t.push('0');
    }
    match r.below(3) {
        0 => {}
        1 => t.push_str(&format!("{}1", "0".repeat(r.below(20)))),
        _ => {
            let d = t.pop().filter(|d| ('1'..='9').contains(d)).map_or('0', |d| (d as u8 - 1) as char);
            t.push(d);
            t.push_str(&"9".repeat(1 + r.below(30)));
        }
    }
    t.push_str(&e);
    cx.count("middles");
    cx.input(&t);
    cx.nontrivial(&cx.input.clone());
    let (a, b): (f32, f64) = (t.parse().unwrap(), t.parse().unwrap());
    match from_str::<f32>(&t) {
        Ok(v) => {
            cx.check(v.len() == 1 && v[0].to_bits() == a.to_bits(), "another float (f32)", || format!("{v:?} instead of {a:?}"));
        }
        Err(e) => {
            cx.check(false, "rejected (f32)", || e.to_string());
        }
    }
    match from_str::<(f64,)>(&format!("[{t}]")) {
        Ok(v) => {
            cx.check(v.len() == 1 && v[0].0.to_bits() == b.to_bits(), "another float (f64)", || format!("{v:?} instead of {b:?}"));
        }
        Err(e) => {
            cx.check(false, "rejected (f64)", || e.to_string());
        }
    }
}

fn fit_case(cx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 12) {
        return middles(cx, r);
    }
    let depth = *r.pick(&[0, 1, 2, 2, 3, 3]);
    let t = random_type(r, depth);
    let d = random_value(r, &t);
    let mut n = match r.below(8) {
        0 => tree(r, &TreeOpt { nodes: 5, depth: 2, width: 3, ..TREE }),
        _ => loosen(r, &d),
    };
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
        mutate(r, &mut n);
    }
    // Inside of a document, whose other parts are not read
    let up = r.below(3);
    let mut path = vec![];
    let mut docs = vec![];
    for _ in 0..up {
        let (a, b): (N, N) = (leaf(r, &TreeOpt { strings: 1, ..TREE }).into(), leaf(r, &TREE).into());
        if r.chance(1, 2) {
            path.push((false, 1));
            n = V::Seq(vec![a, n, b]).into();
        } else {
            path.push((true, 1));
            n = V::Map(vec![(N::str("front"), a), (N::str("zz z"), n), (N::str("behind"), b)]).into();
        }
    }
    if up > 0 {
        cx.count("deep");
    }
    docs.push(n);
    let mut st = random_style(r);
    if r.chance(1, 2) {
        st = Style { comments: false, blanks: false, ..PLAIN };
    }
    let (doc, _) = render(r, st, vec![], &mut docs);
    cx.input(&format!("{t:?}\n=====\n{doc}"));
    cx.nontrivial(&cx.input.clone());
    if cx.case % 1009 == 0 {
        cx.sample(format!("{doc} as {t:?}"));
    }
    let get = |mut y: Node<RcRepr>| -> Option<Node<RcRepr>> {
        for (map, _) in path.iter().rev() {
            let c = if *map { y.get("zz z") } else { y.get_ind(yaml_peg::Ind(1)) };
            y = c.ok()?.clone();
        }
        Some(y)
    };
    let Ok((mut v, _)) = parse_cyclic::<RcRepr>(&doc) else {
        cx.count("skipped.rejected");
        return;
    };
    let Some(y) = v.pop().and_then(get) else {
        cx.count("skipped.other");
        return;
    };
    decide(cx, &t, y);
}

fn fit_fixed(cx: &mut Ctx) {
    // Every scalar type on every kind of node and all boundaries
    let mut ns: Vec<N> = vec![V::Null.into(), V::Bool(true).into(), V::Bool(false).into(), V::Seq(vec![]).into(), V::Map(vec![]).into(), V::Alias("a".into()).into()];
    for b in [7, 8, 15, 16, 31, 32, 63, 64, 126] {
        for o in -2..=2 {
            ns.push(V::Int((1i128 << b) + o).into());
            ns.push(V::Int(-(1i128 << b) + o).into());
        }
    }
    for i in [0, 1, 9, 10, -1, i128::MAX, i128::MIN] {
        ns.push(V::Int(i).into());
    }
    for f in [0., -0., 0.5, -1.5, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 16777217., 255., 1.] {
        ns.push(V::Float(f).into());
    }
    for s in ["", "a", "é", "日", "😀", "ab", "éa", "1", "true", "null", "~", "255", "1.5", "\n"] {
        ns.push(N::str(s));
    }
    let mut ts = vec![T::Bool, T::F32, T::F64, T::Char, T::Str(true), T::Str(false), T::Bytes, T::Unit, T::UnitStruct, T::Ignored, T::Opt(T::Char.into()), T::New(T::Bool.into()), T::Seq(T::Bool.into()), T::Map(T::Bool.into(), T::Bool.into()), T::Struct(vec![], true), T::Tuple(vec![T::Bool]), T::Enum(vec![("a", Var::Unit), ("1", Var::New(T::Bool))])];
    for b in [8, 16, 32, 64, 128] {
        ts.push(T::Int(true, b));
        ts.push(T::Int(false, b));
    }
    for t in &ts {
        for n in &ns {
            for wrap in 0..4 {
                let mut m = n.clone();
                m.pos = Some((0, 0));
                let y: Node<RcRepr> = build(&m);
                let y = Node::<RcRepr>::new_repr(y.clone_yaml(), 77 + wrap, "");
                cx.input(&format!("{t:?}\n{n:?}"));
                cx.nontrivial(&cx.input.clone());
                let two = Node::<RcRepr>::new(yaml_peg::Yaml::Str("b".into()), 50, "");
                match wrap {
                    0 => decide(cx, t, y),
                    1 => decide(cx, &T::Seq(t.clone().into()), Node::new(yaml_peg::Yaml::Seq(vec![y.clone()]), 60, "")),
                    2 => decide(cx, &T::Struct(vec![("b", t.clone())], true), Node::new(yaml_peg::Yaml::from_iter([(two, y)]), 60, "")),
                    _ => decide(cx, &T::Enum(vec![("b", Var::New(t.clone()))]), Node::new(yaml_peg::Yaml::from_iter([(two, y)]), 60, "")),
                }
            }
            let y: Node<ArcRepr> = build(n);
            decide(cx, t, Node::<ArcRepr>::new_repr(y.clone_yaml(), 77, ""));
        }
    }
}
