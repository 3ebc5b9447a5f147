//! C27: nodes as values of other Serde formats.
use crate::{
    core::*,
    dynfmt::{Feed, Plan, Rec},
    model::*,
};
use serde::{
    de::value::{self as val, Error as ValError},
    de::IntoDeserializer,
    Deserialize, Serialize,
};
use serde_json::Value;
use std::collections::BTreeMap;
use yaml_peg::{
    dump, parse,
    repr::{ArcRepr, RcRepr},
    serde::{from_str, to_arc_node, to_node, to_string},
    Node, NodeRc, Yaml,
};

pub const FORMATS: Prop = Prop {
    id: "C27",
    rule: "distinct trees",
    fixed: Some(fixed),
    case,
    quick: 150_000,
    thorough: 3_000_000,
    must: &["json", "json.keys", "json.value", "identity", "alias rejected", "range rejected", "from json", "from value", "embedded", "primitive", "notation", "recorded", "fed", "fed.repeated", "fed.failed"],
    stack: 16 << 20,
    assumptions: &[
        "serde_json writes NaN and infinities as null and reads integers beyond 64 bits as floats",
        "positions and tags are not a part of the Serde data model",
    ],
};

/// JSON text of the reference tree; the numbers as serde_json writes them.
fn json(n: &N, out: &mut String) {
    match &n.v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(&b.to_string()),
        V::Int(i) => out.push_str(&i.to_string()),
        V::Float(f) => out.push_str(&serde_json::to_string(f).unwrap()),
        V::Str(s) => out.push_str(&serde_json::to_string(s).unwrap()),
        V::Seq(v) => {
            out.push('[');
            for (i, n) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json(n, out);
            }
            out.push(']');
        }
        V::Map(m) => {
            out.push('{');
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                match &k.v {
                    V::Str(_) => json(k, out),
                    _ => {
                        out.push('"');
                        json(k, out);
                        out.push('"');
                    }
                }
                out.push(':');
                json(v, out);
            }
            out.push('}');
        }
        V::Alias(_) => unreachable!(),
    }
}

fn of_json(v: &Value) -> N {
    match v {
        Value::Null => V::Null,
        Value::Bool(b) => V::Bool(*b),
        Value::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => V::Int(i as i128),
            (_, Some(i)) => V::Int(i as i128),
            _ => V::Float(n.as_f64().unwrap()),
        },
        Value::String(s) => V::Str(s.clone()),
        Value::Array(v) => V::Seq(v.iter().map(of_json).collect()),
        Value::Object(m) => V::Map(m.iter().map(|(k, v)| (N::str(k), of_json(v))).collect()),
    }
    .into()
}

/// Keep the keys which JSON can write, distinct as texts.
fn json_keys(n: &mut N) {
    n.walk_mut(&mut |n| {
        if let V::Map(m) = &mut n.v {
            let mut seen = std::collections::HashSet::new();
            m.retain(|(k, _)| match &k.v {
                V::Str(s) => seen.insert(s.clone()),
                V::Int(i) => seen.insert(i.to_string()),
                V::Bool(b) => seen.insert(b.to_string()),
                _ => false,
            });
        }
    });
}

fn case(cx: &mut Ctx, r: &mut Rng) {
    let big = r.chance(1, 3);
    let o = TreeOpt { nodes: *r.pick(&[3, 10, 25]), big, ..TREE };
    let o = grow(r, o);
    let all = tree(r, &o);
    cx.input(&format!("{all:?}"));
    cx.nontrivial(&cx.input.clone());
    if cx.case % 1009 == 0 {
        cx.sample(cx.input.clone());
    }
    let mut n = all.clone();
    json_keys(&mut n);
    let y: NodeRc = build(&n);
    // Written by another serializer
    let mut want = String::new();
    json(&n, &mut want);
    let got = serde_json::to_string(&y);
    cx.count("json");
    cx.check(got.as_ref().is_ok_and(|g| *g == want), "another JSON text", || format!("{}\nexpected {}", brief(&format!("{got:?}")), brief(&want)));
    let got = serde_json::to_string(&build::<ArcRepr>(&n));
    cx.check(got.as_ref().is_ok_and(|g| *g == want), "another JSON text (Arc)", || format!("{}\nexpected {}", brief(&format!("{got:?}")), brief(&want)));
    let (mut keys, mut fits) = (false, true);
    n.walk(&mut |n| match &n.v {
        V::Map(m) => keys |= m.iter().any(|(k, _)| !matches!(k.v, V::Str(_))),
        V::Int(i) => fits &= i64::try_from(*i).is_ok() || u64::try_from(*i).is_ok(),
        _ => {}
    });
    if keys {
        cx.count("json.keys");
    }
    if fits {
        cx.count("json.value");
        let got = serde_json::to_value(&y);
        let want: Value = serde_json::from_str(&want).unwrap();
        // Through the text for the same parser of the floats
        let got = got.map(|v| serde_json::from_str::<Value>(&v.to_string()).unwrap());
        cx.check(got.as_ref().is_ok_and(|g| *g == want), "another JSON value", || format!("{}\nexpected {}", brief(&format!("{got:?}")), brief(&format!("{want:?}"))));
        // Read from another deserializer, in both orders of the data
        let text = want.to_string();
        let exp = of_json(&serde_json::from_str(&text).unwrap());
        for (src, exp) in [(text, exp), (json_of(&n), as_json(&n))] {
            cx.count("from json");
            let got = serde_json::from_str::<NodeRc>(&src);
            let d = got.map_err(|e| e.to_string()).and_then(|y| same(&exp, &y, Cmp { tags: true, pos: false }));
            cx.check(d.is_ok(), "another node from JSON", || format!("{:?}\n{src}", d));
            let got = serde_json::from_str::<Node<ArcRepr>>(&src);
            let d = got.map_err(|e| e.to_string()).and_then(|y| same(&exp, &y, VAL));
            cx.check(d.is_ok(), "another Arc node from JSON", || format!("{:?}\n{src}", d));
        }
        cx.count("from value");
        let exp = of_json(&want);
        let d = NodeRc::deserialize(&want).map_err(|e| e.to_string()).and_then(|y| same(&exp, &y, VAL));
        cx.check(d.is_ok(), "another node from a JSON value", || format!("{d:?}"));
        let d = serde_json::from_value::<NodeRc>(want).map_err(|e| e.to_string()).and_then(|y| same(&exp, &y, VAL));
        cx.check(d.is_ok(), "another node from an owned JSON value", || format!("{d:?}"));
    }
    // Nodes of nodes, with any keys
    let y: NodeRc = build(&all);
    cx.count("identity");
    let d = NodeRc::deserialize(y.clone()).map_err(|e| e.to_string()).and_then(|y| same(&all, &y, VAL));
    cx.check(d.is_ok(), "deserialized node is another one", || format!("{d:?}"));
    let d = Node::<ArcRepr>::deserialize(y.clone()).map_err(|e| e.to_string()).and_then(|y| same(&all, &y, VAL));
    cx.check(d.is_ok(), "deserialized Arc node is another one", || format!("{d:?}"));
    let d = to_node(&y).map_err(|e| e.to_string()).and_then(|y| same(&all, &y, VAL));
    cx.check(d.is_ok(), "serialized node is another one", || format!("{d:?}"));
    let d = to_arc_node(&y).map_err(|e| e.to_string()).and_then(|y| same(&all, &y, VAL));
    cx.check(d.is_ok(), "serialized Arc node is another one", || format!("{d:?}"));
    // A format which records what it is given, and another which gives anything
    cx.count("recorded");
    for (what, got) in [("", y.serialize(Rec)), (" (Arc)", build::<ArcRepr>(&all).serialize(Rec))] {
        cx.check(got.as_ref().is_ok_and(|g| *g == all), &format!("another record{what}"), || format!("{got:?}"));
    }
    for repeat in [false, true] {
        let (seed, mut plan) = (r.next(), 0);
        for fail in [false, true] {
            let fail = if fail { Some(r.below(plan)) } else { None };
            let arc = r.chance(1, 3);
            let p = Plan::new(&mut Rng::new(seed), fail, repeat);
            let d = if arc {
                Node::<ArcRepr>::deserialize(Feed(&all, &p)).map_err(|e| e.to_string()).map(|y| same(&all, &y, Cmp { tags: true, pos: false }))
            } else {
                NodeRc::deserialize(Feed(&all, &p)).map_err(|e| e.to_string()).map(|y| same(&all, &y, Cmp { tags: true, pos: false }))
            };
            plan = p.calls.get();
            if p.repeated.get() > 0 {
                cx.count("fed.repeated");
            }
            if fail.is_some() {
                cx.count("fed.failed");
                cx.check(d.is_err(), "an error of the other format is lost", || format!("{d:?}"));
            } else {
                cx.count("fed");
                let d = d.and_then(|d| d);
                cx.check(d.is_ok(), if p.repeated.get() > 0 { "another node of repeated entries" } else { "another fed node" }, || format!("{d:?}"));
            }
        }
    }
    // The text of the node
    let d = to_string(&y).map_err(|e| e.to_string()).and_then(|s| parse::<RcRepr>(&s).map_err(|e| e.to_string()));
    let d = d.and_then(|v| same_docs(&[all.clone()], &v, VAL));
    cx.check(d.is_ok(), "another node from the text", || format!("{d:?}"));
    // As a part of other types
    #[derive(Serialize, Deserialize)]
    struct Part {
        id: u8,
        node: NodeRc,
        list: Vec<NodeRc>,
        map: BTreeMap<String, NodeRc>,
        none: Option<NodeRc>,
    }
    let part = Part { id: 7, node: y.clone(), list: vec![y.clone(), y.clone()], map: [("x".to_string(), y.clone())].into(), none: None };
    match to_node(&part) {
        Err(e) => {
            cx.check(false, "not serialized", || e.to_string());
        }
        Ok(p) => {
            cx.count("embedded");
            let want: N = V::Map(vec![
                (N::str("id"), V::Int(7).into()),
                (N::str("node"), all.clone()),
                (N::str("list"), V::Seq(vec![all.clone(), all.clone()]).into()),
                (N::str("map"), V::Map(vec![(N::str("x"), all.clone())]).into()),
                (N::str("none"), V::Null.into()),
            ])
            .into();
            let d = same(&want, &p, VAL);
            cx.check(d.is_ok(), "embedded nodes are other ones", || format!("{d:?}"));
            let text = dump(&[p.clone()], &[]);
            let back = [Part::deserialize(p).map_err(|e| e.to_string()), from_str::<Part>(&text).map_err(|e| e.to_string()).and_then(|mut v| v.pop().ok_or("nothing".into()))];
            for b in back {
                let d = b.and_then(|b| {
                    same(&all, &b.node, VAL)?;
                    same_docs(&[all.clone(), all.clone()], &b.list, VAL)?;
                    same(&all, b.map.get("x").ok_or("no entry")?, VAL)?;
                    if b.id == 7 && b.map.len() == 1 && b.none.is_none() {
                        Ok(())
                    } else {
                        Err("other field".into())
                    }
                });
                cx.check(d.is_ok(), "deserialized embedded nodes are other ones", || format!("{d:?}\n{text}"));
            }
        }
    }
    // Something that can not be written, at any place
    let (bad, count): (Yaml<RcRepr>, _) = match r.below(4) {
        0 => (Yaml::Alias(word(r)), "alias rejected"),
        1 => (Yaml::Int("340282366920938463463374607431768211456".into()), "range rejected"),
        2 => (Yaml::Int("-170141183460469231731687303715884105729".into()), "range rejected"),
        _ => (Yaml::Int(format!("0x1{}", "0".repeat(r.range(32, 40)))), "range rejected"),
    };
    let bad = Node::new(bad, 0, "");
    let mut at = y;
    for _ in 0..r.below(3) {
        at = match r.below(3) {
            0 => Node::new(Yaml::Seq(vec![at.clone()]), 0, ""),
            1 => Node::new(Yaml::from_iter([(Node::new(Yaml::Str("k".into()), 0, ""), at.clone())]), 0, ""),
            _ => at,
        };
    }
    let bad = match r.below(3) {
        0 => bad,
        1 => Node::new(Yaml::Seq(vec![at, bad]), 0, ""),
        _ => Node::new(Yaml::from_iter([(Node::new(Yaml::Str("a".into()), 0, ""), at), (Node::new(Yaml::Str("b".into()), 0, ""), bad)]), 0, ""),
    };
    cx.count(count);
    let e = [("node", to_node(&bad).is_ok()), ("Arc node", to_arc_node(&bad).is_ok()), ("text", to_string(&bad).is_ok()), ("deserialized", NodeRc::deserialize(bad.clone()).is_ok())];
    for (what, ok) in e {
        cx.check(!ok, &format!("{what}: {}", if count == "alias rejected" { "alias accepted" } else { "number accepted" }), || format!("{bad:?}"));
    }
    if keys || n == all {
        cx.check(serde_json::to_string(&bad).is_err(), "JSON of a bad node", || format!("{bad:?}"));
    }
}

fn json_of(n: &N) -> String {
    let mut s = String::new();
    json(n, &mut s);
    s
}

/// What JSON keeps of the tree, in its order.
fn as_json(n: &N) -> N {
    match &n.v {
        V::Float(f) if !f.is_finite() => V::Null,
        V::Float(f) => return of_json(&serde_json::from_str(&serde_json::to_string(f).unwrap()).unwrap()),
        V::Seq(v) => V::Seq(v.iter().map(as_json).collect()),
        V::Map(m) => V::Map(
            m.iter()
                .map(|(k, v)| {
                    let k = match &k.v {
                        V::Str(_) => k.clone(),
                        _ => N::str(&json_of(k)),
                    };
                    (k, as_json(v))
                })
                .collect(),
        ),
        v => v.clone(),
    }
    .into()
}

fn fixed(cx: &mut Ctx) {
    // All methods of a visitor
    let prim = |cx: &mut Ctx, want: V, got: Result<NodeRc, ValError>| {
        cx.input(&format!("{want:?}"));
        cx.count("primitive");
        let n: N = want.into();
        let d = got.map_err(|e| e.to_string()).and_then(|y| same(&n, &y, Cmp { tags: true, pos: false }).and(if y.pos() == 0 { Ok(()) } else { Err("position".into()) }));
        cx.check(d.is_ok(), "another node of a primitive", || format!("{d:?}"));
    };
    macro_rules! ints {
        ($($t:ty),+) => {$(
            for i in [<$t>::MIN, <$t>::MAX, 0, 1, 9, <$t>::MAX / 2, <$t>::MIN / 2, <$t>::MAX - 1] {
                prim(cx, V::Int(i as i128), NodeRc::deserialize(i.into_deserializer()));
                // All data formats of this crate
                let d = to_node(&i).map_err(|e| e.to_string()).and_then(|y| same(&V::Int(i as i128).into(), &y, VAL));
                cx.check(d.is_ok(), "another node of an integer", || format!("{i}: {d:?}"));
            }
        )+};
    }
    ints!(i8, i16, i32, i64, i128, u8, u16, u32, u64);
    for f in [0., -0., 0.5, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        prim(cx, V::Float(f), NodeRc::deserialize(f.into_deserializer()));
        prim(cx, V::Float(f as f32 as f64), NodeRc::deserialize((f as f32).into_deserializer()));
    }
    for c in ['a', '0', '\0', '日', '\u{10FFFF}', '\n'] {
        prim(cx, V::Str(c.into()), NodeRc::deserialize(c.into_deserializer()));
    }
    for s in ["", "null", "1", "text", "a\nb", "日本"] {
        prim(cx, V::Str(s.into()), NodeRc::deserialize(IntoDeserializer::<ValError>::into_deserializer(s)));
        prim(cx, V::Str(s.into()), NodeRc::deserialize(s.to_string().into_deserializer()));
        prim(cx, V::Str(s.into()), NodeRc::deserialize(val::BorrowedStrDeserializer::new(s)));
    }
    for b in [true, false] {
        prim(cx, V::Bool(b), NodeRc::deserialize(b.into_deserializer()));
    }
    prim(cx, V::Null, NodeRc::deserialize(().into_deserializer()));
    let seq = vec![1u8, 2, 3];
    prim(cx, V::Seq(seq.iter().map(|i| V::Int(*i as i128).into()).collect()), NodeRc::deserialize(seq.into_deserializer()));
    let map: BTreeMap<u8, &str> = [(3, "x"), (1, "y")].into();
    prim(
        cx,
        V::Map(vec![(V::Int(1).into(), N::str("y")), (V::Int(3).into(), N::str("x"))]),
        NodeRc::deserialize(val::MapDeserializer::<_, ValError>::new(map.into_iter())),
    );
    // Any notation of an integer
    for b in [0, 1, 7, 8, 31, 32, 63, 64, 100, 126, 127] {
        for o in -1..=1i128 {
            let m = ((1u128 << b) as i128).wrapping_add(o);
            if m < 0 {
                continue;
            }
            for t in [format!("{m}"), format!("-{m}"), format!("0x{m:x}"), format!("0x{m:X}"), format!("0o{m:o}"), format!("00{m}")] {
                let Some(want) = int_value(&t) else { continue };
                cx.input(&t);
                cx.count("notation");
                let y: NodeRc = Node::new(Yaml::Int(t.clone()), 0, "");
                let got = serde_json::to_string(&y);
                cx.check(got.as_ref().is_ok_and(|g| *g == want.to_string()), "another number in JSON", || format!("{got:?}"));
                let d = to_node(&y).map_err(|e| e.to_string()).and_then(|y| same(&V::Int(want).into(), &y, VAL));
                cx.check(d.is_ok(), "another number", || format!("{d:?}"));
                let d = NodeRc::deserialize(y).map_err(|e| e.to_string()).and_then(|y| same(&V::Int(want).into(), &y, VAL));
                cx.check(d.is_ok(), "another number", || format!("{d:?}"));
            }
        }
    }
    // The integers which only `u128` has, in all notations
    for m in [1u128 << 127, u128::MAX, u128::MAX - 1, (1u128 << 127) + 1] {
        for t in [format!("{m}"), format!("0x{m:x}"), format!("0o{m:o}")] {
            cx.input(&t);
            let y: NodeRc = Node::new(Yaml::Int(t.clone()), 0, "");
            let got = serde_json::to_string(&y);
            cx.check(got.as_ref().is_ok_and(|g| *g == m.to_string()), "another number in JSON", || format!("{got:?}"));
            for got in [to_node(&y).map_err(|e| e.to_string()), NodeRc::deserialize(y).map_err(|e| e.to_string())] {
                cx.check(got.as_ref().is_ok_and(|g| matches!(g.yaml(), Yaml::Int(s) if *s == m.to_string())), "another number", || format!("{got:?}"));
            }
        }
    }
}
