//! C19, C20, C21, C26: nodes as values.
use crate::{core::*, guarded, model::*, props::{errors, total}, repr_mon::*};
use std::{
    collections::{hash_map::DefaultHasher, BTreeMap, HashMap, HashSet},
    hash::{BuildHasher, Hash, Hasher, RandomState},
    rc::Rc,
    sync::Arc,
};
use yaml_peg::{
    dump, node, parse, parse_cyclic,
    parser::{Anchors, Loader},
    repr::{ArcRepr, RcRepr, Repr},
    serde::{to_arc_node, to_node},
    Ind, Map, Node, NodeArc, NodeRc, Seq, Yaml, YamlArc, YamlRc,
};

// ------------------------------------------------------------------ C19

pub const EQUALITY: Prop = Prop {
    id: "C19",
    rule: "distinct pairs of trees that are equal, or differ only slightly",
    fixed: Some(equality_fixed),
    case: equality,
    quick: 500_000,
    thorough: 6_000_000,
    must: &["equal", "unequal", "notation", "map.found", "map.missing", "map.duplicate", "set", "changed", "shared", "parsed"],
    stack: 16 << 20,
    assumptions: &["the order of the entries is a part of a map", "integers beyond i128 and malformed numbers are compared by their text"],
};

/// Scalars that are easily confused.
const NEAR: &[fn() -> V] = &[
    || V::Null,
    || V::Bool(true),
    || V::Bool(false),
    || V::Int(0),
    || V::Int(1),
    || V::Int(-1),
    || V::Int(16),
    || V::Int(u64::MAX as i128),
    || V::Int(i128::MAX),
    || V::Int(i64::MIN as i128),
    || V::Float(0.),
    || V::Float(-0.),
    || V::Float(1.),
    || V::Float(-1.),
    || V::Float(16.),
    || V::Float(0.1),
    || V::Float(0.1 + 0.2),
    || V::Float(0.3),
    || V::Float(f64::NAN),
    || V::Float(f64::INFINITY),
    || V::Float(f64::NEG_INFINITY),
    || V::Float(u64::MAX as f64),
    || V::Str("".into()),
    || V::Str("null".into()),
    || V::Str("~".into()),
    || V::Str("true".into()),
    || V::Str("false".into()),
    || V::Str("0".into()),
    || V::Str("1".into()),
    || V::Str("1.0".into()),
    || V::Str("0x10".into()),
    || V::Str("16".into()),
    || V::Str("NaN".into()),
    || V::Str("a".into()),
    || V::Str("A".into()),
    || V::Str("a ".into()),
    || V::Alias("a".into()),
    || V::Alias("A".into()),
    || V::Alias("".into()),
    || V::Alias("null".into()),
    || V::Alias("1".into()),
    || V::Alias("b".into()),
    || V::Seq(vec![]),
    || V::Map(vec![]),
];

fn near(r: &mut Rng, depth: usize) -> N {
    if depth == 0 || r.chance(1, 2) {
        return if r.chance(1, 8) {
            leaf(r, &TREE).into()
        } else if r.chance(1, 40) {
            V::Alias(super::parse::ident(r)).into()
        } else { r.pick(NEAR)().into() };
    }
    let n = if r.chance(1, 800) { *r.pick(&[17, 33, 70, 140]) } else { r.below(4) };
    if r.chance(1, 2) {
        V::Seq((0..n).map(|_| near(r, depth - 1)).collect()).into()
    } else {
        let mut m: Vec<(N, N)> = vec![];
        for _ in 0..n {
            let d = if r.chance(1, 3) { depth - 1 } else { 0 };
            let k = near(r, d);
            if !has_key(&m, &k) {
                m.push((k, near(r, depth - 1)));
            }
        }
        V::Map(m).into()
    }
}

/// A text for the number.
fn notation(r: &mut Rng, v: &V) -> Option<String> {
    Some(match *v {
        V::Int(i) => match r.below(6) {
            0 if i >= 0 => format!("0x{i:x}"),
            1 if i >= 0 => format!("0x{i:X}"),
            2 if i >= 0 => format!("0o{i:o}"),
            3 if i >= 0 => format!("{}{i}", "0".repeat(r.range(1, 3))),
            3 => format!("-0{}", i.unsigned_abs()),
            4 if i == 0 => "-0".into(),
            4 if i >= 0 => format!("0x00{i:x}"),
            _ => i.to_string(),
        },
        V::Float(f) if f.is_nan() => "NaN".into(),
        V::Float(f) if f.is_infinite() => if f > 0. { r.ps(&["inf", "1e999", "infinity"]) } else { r.ps(&["-inf", "-1e999"]) }.into(),
        V::Float(f) => match r.below(4) {
            0 => format!("{f:e}"),
            1 => format!("{f:E}"),
            2 => format!("{f:?}"),
            _ => format!("{f}"),
        },
        _ => return None,
    })
}

/// A node for the tree with any metadata and notation; some parts are shared.
fn noisy<R: Repr>(cx: &mut Ctx, r: &mut Rng, n: &N, pool: &mut Vec<(N, Node<R>)>) -> Node<R> {
    if r.chance(1, 4) {
        if let Some((_, y)) = pool.iter().find(|p| p.0 == *n) {
            // Equal content in the same object
            cx.count("shared");
            return y.clone();
        }
    }
    let y: Yaml<R> = match &n.v {
        V::Int(i) => {
            cx.count("notation");
            Yaml::Int(notation(r, &V::Int(*i)).unwrap())
        }
        V::Float(f) => Yaml::Float(notation(r, &V::Float(*f)).unwrap()),
        V::Seq(v) => Yaml::Seq(v.iter().map(|n| noisy(cx, r, n, pool)).collect()),
        V::Map(m) => {
            let mut out = vec![];
            for (k, v) in m {
                out.push((noisy(cx, r, k, pool), noisy(cx, r, v, pool)));
            }
            Yaml::Map(out.into_iter().collect())
        }
        _ => build::<R>(n).yaml().clone(),
    };
    let y = Node::new(y, r.below(1000) as u64, r.ps(&["", "", "x", "tag:yaml.org,2002:str", "other"]));
    if pool.len() < 20 {
        pool.push((n.clone(), y.clone()));
    }
    y
}

/// Another scalar that is similar.
fn tweak(r: &mut Rng, v: &V) -> Option<V> {
    let text = |r: &mut Rng, s: &str| {
        let mut c: Vec<char> = s.chars().collect();
        let at = if r.chance(1, 3) { c.len().saturating_sub(1) } else { r.below(c.len().max(1)) };
        match r.below(7) {
            0 => c.push(any_char(r)),
            1 => c.insert(0, *r.pick(&[' ', '0', '-', 'a', '\u{feff}'])),
            2 => {
                c.pop();
            }
            3 if !c.is_empty() => {
                let x = c[at];
                c[at] = if x.is_lowercase() { x.to_uppercase().next().unwrap() } else { x.to_lowercase().next().unwrap() };
            }
            4 if !c.is_empty() => c[at] = any_char(r),
            5 if at > 0 => c.swap(at - 1, at),
            6 => return s.trim().to_string(),
            _ => c.push('\0'),
        }
        c.into_iter().collect()
    };
    Some(match v {
        V::Str(s) if r.chance(1, 8) => V::Alias(s.clone()),
        V::Alias(s) if r.chance(1, 8) => V::Str(s.clone()),
        V::Str(s) => V::Str(text(r, s)),
        V::Alias(s) => V::Alias(text(r, s)),
        V::Int(i) => match r.below(6) {
            0 => V::Int(i.wrapping_add(1)),
            1 => V::Int(i.wrapping_neg()),
            2 => V::Int(i ^ 1 << r.below(127)),
            3 => V::Float(*i as f64),
            4 => V::Str(i.to_string()),
            _ => V::Int(*i as i64 as i128),
        },
        V::Float(f) => match r.below(5) {
            0 => V::Float(-f),
            1 if f.is_finite() => V::Float(f64::from_bits(f.to_bits() ^ 1)),
            2 => V::Float(*f as f32 as f64),
            3 if f.abs() < 1e15 => V::Int(*f as i128),
            _ => V::Str(f.to_string()),
        },
        V::Bool(b) => V::Bool(!b),
        _ => return None,
    })
}

/// One small change.
fn change(r: &mut Rng, n: &mut N) {
    let at = r.below(n.size());
    let mut i = 0;
    let x = near(r, 1);
    let p = r.next() as usize;
    let how = r.below(6);
    let fine = r.chance(1, 2);
    n.walk_mut(&mut |n| {
        let close = if i == at && fine { tweak(r, &n.v) } else { None };
        if let Some(v) = close {
            n.v = v;
        } else if i == at {
            match (how, &mut n.v) {
                (0, V::Seq(v)) if v.len() > 1 => v.rotate_left(1),
                (1, V::Seq(v)) => v.push(x.clone()),
                (2, V::Seq(v)) if !v.is_empty() => {
                    v.remove(p % v.len());
                }
                (0, V::Map(m)) if m.len() > 1 => m.rotate_left(1),
                (1, V::Map(m)) if !has_key(m, &x) => m.push((x.clone(), V::Null.into())),
                (2, V::Map(m)) if !m.is_empty() => {
                    m.remove(p % m.len());
                }
                (3, V::Map(m)) if !m.is_empty() && !has_key(m, &x) => {
                    let j = p % m.len();
                    m[j].0 = x.clone();
                }
                _ => n.v = x.v.clone(),
            }
        }
        i += 1;
    });
    n.walk_mut(&mut |n| {
        if let V::Map(m) = &mut n.v {
            let mut out: Vec<(N, N)> = vec![];
            for e in std::mem::take(m) {
                if !has_key(&out, &e.0) {
                    out.push(e);
                }
            }
            *m = out;
        }
    });
}

struct Fnv(u64);

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

fn hashes<T: Hash>(t: &T, s: &RandomState) -> (u64, u64, u64) {
    let (mut a, mut b) = (DefaultHasher::new(), Fnv(7));
    t.hash(&mut a);
    t.hash(&mut b);
    (a.finish(), b.finish(), s.hash_one(t))
}

fn pair<R: Repr>(cx: &mut Ctx, want: bool, a: &Node<R>, b: &Node<R>, s: &RandomState) {
    cx.count(if want { "equal" } else { "unequal" });
    let got = [a == b, b == a, !(a != b), a.yaml() == b.yaml(), a.rc_ref() == b.rc_ref()];
    cx.check(got == [want; 5], if want { "equal nodes are not equal" } else { "different nodes are equal" }, || format!("{a:?} == {b:?}: {got:?}"));
    if want {
        let ok = hashes(a, s) == hashes(b, s) && hashes(a.yaml(), s) == hashes(b.yaml(), s) && hashes(a, s) == hashes(a.yaml(), s);
        cx.check(ok, "equal nodes have different hashes", || format!("{a:?} {b:?}"));
    }
}

fn lookup<R: Repr>(cx: &mut Ctx, r: &mut Rng, entries: &[(N, N)], probes: &[N]) {
    // A repeated key replaces the value
    let mut model: Vec<(N, N)> = vec![];
    let mut pool = vec![];
    let mut m = Map::<R>::new();
    let mut all = vec![];
    for (k, v) in entries {
        let (ky, vy) = (noisy(cx, r, k, &mut pool), noisy(cx, r, v, &mut pool));
        all.push((ky.clone(), vy.clone()));
        let old = m.insert(ky, vy);
        match model.iter().position(|e| e.0 == *k) {
            Some(i) => {
                cx.count("map.duplicate");
                let (_, w) = model.remove(i);
                cx.check(old.is_some_and(|o| same(&w, &o, VAL).is_ok()), "replaced another value", || format!("{w:?}"));
                model.push((k.clone(), v.clone()));
            }
            None => {
                cx.check(old.is_none(), "a new key replaced a value", || format!("{old:?}"));
                model.push((k.clone(), v.clone()));
            }
        }
    }
    let y = Node::<R>::from(all.into_iter().collect::<Yaml<R>>());
    let m = Node::<R>::new(m, 3, "");
    let s = RandomState::new();
    pair(cx, true, &y, &m, &s);
    let mut distinct = model.clone();
    for y in [&y, &m] {
        let got = unbuild(y);
        let want: N = V::Map(model.clone()).into();
        // The order: kept for new keys, repeated keys move to the end
        cx.check(veq(&got.v, &want.v), "other entries in the map", || format!("{got:?} instead of {want:?}"));
        for p in probes.iter().chain(entries.iter().map(|e| &e.0)) {
            let want = model.iter().find(|e| e.0 == *p).map(|e| &e.1);
            cx.count(if want.is_some() { "map.found" } else { "map.missing" });
            let k: Node<R> = noisy(cx, r, p, &mut pool);
            let Yaml::Map(m) = y.yaml() else { unreachable!() };
            cx.check(m.contains_key(&k) == want.is_some(), "lookup of a key", || format!("{p:?} in {y:?}"));
            let got = y.get(k.clone());
            let ok = match (want, &got) {
                (Some(w), Ok(g)) => same(w, g, VAL).is_ok(),
                (None, Err(e)) => *e == y.pos(),
                _ => false,
            };
            cx.check(ok, "lookup of a key", || format!("{p:?} in {y:?}: {got:?}"));
        }
    }
    // A set has one item of each content
    distinct.retain(|_| true);
    let set: HashSet<Node<R>> = entries.iter().flat_map(|e| [&e.0, &e.0]).map(|k| noisy(cx, r, k, &mut pool)).collect();
    cx.count("set");
    cx.check(set.len() == distinct.len(), "number of items in the set", || format!("{set:?}"));
}

fn equality(cx: &mut Ctx, r: &mut Rng) {
    let depth = r.below(4);
    let a = near(r, depth);
    let mut b = a.clone();
    for _ in 0..r.below(3) {
        change(r, &mut b);
        cx.count("changed");
    }
    if r.chance(1, 6) {
        b = near(r, depth);
    }
    cx.input(&format!("{a:?}\n{b:?}"));
    cx.nontrivial(&cx.input.clone());
    if cx.case % 1009 == 0 {
        cx.sample(cx.input.clone());
    }
    let s = RandomState::new();
    let want = veq(&a.v, &b.v);
    macro_rules! each {
        ($($t:ty),+) => {$({
            let mut pool = vec![];
            let x: Node<$t> = noisy(cx, r, &a, &mut pool);
            if r.chance(1, 2) {
                pool.clear();
            }
            let y: Node<$t> = noisy(cx, r, &b, &mut pool);
            pair(cx, want, &x, &y, &s);
            pair(cx, true, &x, &x.clone(), &s);
            pair(cx, true, &y, &Node::new(y.yaml().clone(), 9, "z"), &s);
        })+};
    }
    each!(RcRepr, ArcRepr, MonRepr);
    let n = if r.chance(1, 1000) { r.range(60, 300) } else { r.below(7) };
    let entries: Vec<(N, N)> = (0..n).map(|i| (near(r, if i % 3 == 0 { 2 } else { 0 }), near(r, 1))).collect();
    let probes: Vec<N> = (0..4).map(|_| near(r, 1)).chain([a.clone(), b.clone()]).collect();
    cx.input(&format!("{entries:?}\n{probes:?}"));
    if r.chance(1, 2) {
        lookup::<RcRepr>(cx, r, &entries, &probes);
    } else {
        lookup::<ArcRepr>(cx, r, &entries, &probes);
    }
    // Parsed nodes against built ones
    if r.chance(1, 4) {
        let text = dump(&[build::<RcRepr>(&a)], &[]);
        let mut alias = false;
        a.walk(&mut |n| alias |= matches!(n.v, V::Alias(_)));
        if !alias {
            if let Ok(v) = parse::<RcRepr>(&text) {
                cx.count("parsed");
                let y: NodeRc = noisy(cx, r, &b, &mut vec![]);
                pair(cx, want, &v[0], &y, &s);
            }
        }
    }
}

fn equality_fixed(cx: &mut Ctx) {
    // All pairs and triples of the near scalars, alone and in collections
    let s = RandomState::new();
    let mut r = Rng::new(3);
    let mut ns: Vec<N> = NEAR.iter().map(|f| f().into()).collect();
    for v in [V::Int(1), V::Float(1.), V::Str("1".into()), V::Null, V::Bool(true)] {
        ns.push(V::Seq(vec![v.clone().into()]).into());
        ns.push(V::Map(vec![(v.clone().into(), V::Null.into())]).into());
        ns.push(V::Map(vec![(V::Null.into(), v.into())]).into());
    }
    ns.push(V::Map(vec![(N::str("a"), V::Int(1).into()), (N::str("b"), V::Int(2).into())]).into());
    ns.push(V::Map(vec![(N::str("b"), V::Int(2).into()), (N::str("a"), V::Int(1).into())]).into());
    ns.push(V::Map(vec![(N::str("a"), V::Int(2).into()), (N::str("b"), V::Int(1).into())]).into());
    ns.push(V::Seq(vec![N::str("a"), V::Int(1).into()]).into());
    for a in &ns {
        for b in &ns {
            cx.input(&format!("{a:?}\n{b:?}"));
            for _ in 0..4 {
                let x: NodeRc = noisy(cx, &mut r, a, &mut vec![]);
                let y: NodeRc = noisy(cx, &mut r, b, &mut vec![]);
                pair(cx, veq(&a.v, &b.v), &x, &y, &s);
            }
        }
    }
    // Numbers that are not representable
    for (a, b, want) in [("99999999999999999999999999999999999999999999", "99999999999999999999999999999999999999999999", true), ("99999999999999999999999999999999999999999999", "99999999999999999999999999999999999999999998", false), ("99999999999999999999999999999999999999999999", "0", false)] {
        let [a, b] = [a, b].map(|s| NodeRc::new(Yaml::Int(s.into()), 0, ""));
        pair(cx, want, &a, &b, &s);
    }
}

// ------------------------------------------------------------------ C20

pub const ACCESS: Prop = Prop {
    id: "C20",
    rule: "distinct nodes with their arguments",
    fixed: Some(access_fixed),
    case: access,
    quick: 200_000,
    thorough: 4_000_000,
    must: &["null", "bool", "int", "float", "str", "seq", "map", "alias", "get.ok", "get.err", "ind.ok", "ind.err", "panic", "default.value", "default.default", "default.err", "default.factory", "anchor.ok", "anchor.err", "int.range", "set_yaml", "parsed"],
    stack: 16 << 20,
    assumptions: &["as_int and as_number are defined for the integers of i64, as their documentation says"],
};

fn accessors<R: Repr>(cx: &mut Ctx, n: &N, y: &Node<R>, text: &str) {
    cx.count(n.kind());
    let pos = y.pos();
    let err = || -> u64 { pos };
    macro_rules! acc {
        ($name:literal, $got:expr, $want:expr) => {{
            let (got, want) = ($got, $want);
            cx.check(got == want, $name, || format!("{got:?} instead of {want:?} of {y:?}"));
        }};
    }
    acc!("is_null", y.is_null(), n.v == V::Null);
    acc!("as_bool", y.as_bool(), if let V::Bool(b) = n.v { Ok(b) } else { Err(err()) });
    let int = match n.v {
        V::Int(i) => {
            if i64::try_from(i).is_err() {
                cx.count("int.range");
            }
            i64::try_from(i).map_err(|_| err())
        }
        _ => Err(err()),
    };
    acc!("as_int", y.as_int(), int);
    let bits = |r: Result<f64, u64>| r.map(|f| if f.is_nan() { 1 } else { f.to_bits() });
    acc!("as_float", bits(y.as_float()), bits(if let V::Float(f) = n.v { Ok(f) } else { Err(err()) }));
    acc!("as_number", bits(y.as_number()), bits(if let V::Float(f) = n.v { Ok(f) } else { int.map(|i| i as f64) }));
    acc!(
        "as_str",
        y.as_str(),
        match &n.v {
            V::Str(s) => Ok(s.as_str()),
            V::Null => Ok(""),
            _ => Err(err()),
        }
    );
    acc!(
        "as_value",
        y.as_value(),
        match &n.v {
            V::Str(s) => Ok(s.as_str()),
            V::Null => Ok(""),
            V::Bool(true) => Ok("true"),
            V::Bool(false) => Ok("false"),
            V::Int(_) | V::Float(_) => Ok(text),
            _ => Err(err()),
        }
    );
    match (y.as_seq(), &n.v) {
        (Ok(g), V::Seq(w)) => {
            let d = same_docs(w, &g, VAL);
            cx.check(d.is_ok(), "as_seq", || format!("{d:?}"));
        }
        (g, w) => {
            cx.check(g.is_err() && !matches!(w, V::Seq(_)) && g == Err(err()), "as_seq", || format!("{g:?}"));
        }
    }
    match (y.as_map(), &n.v) {
        (Ok(g), V::Map(_)) => {
            let d = same(n, &Node::<R>::from(g), VAL);
            cx.check(d.is_ok(), "as_map", || format!("{d:?}"));
        }
        (g, w) => {
            cx.check(g.is_err() && !matches!(w, V::Map(_)) && g == Err(err()), "as_map", || format!("{g:?}"));
        }
    }
    // The tag
    acc!("tag", y.tag(), n.tag.as_deref().unwrap_or(default_tag(&n.v)));
    acc!("rc_ref", std::ptr::eq(&**y.rc_ref(), y.yaml()), true);
    acc!("clone_yaml", std::ptr::eq(&*y.clone_yaml(), y.yaml()), true);
}

fn indices<R: Repr>(cx: &mut Ctx, r: &mut Rng, n: &N, y: &Node<R>) {
    // By position
    let len = if let V::Seq(v) = &n.v { v.len() } else { 0 };
    // An item of another index, which differs by a power of two
    let far = r.below(len + 1).wrapping_add(1usize.wrapping_shl(r.range(3, 64) as u32));
    for i in [0, 1, len.saturating_sub(1), len, len + 1, r.below(9), far, (1 << 32) + r.below(len + 1), usize::MAX - r.below(3)] {
        let want = if let V::Seq(v) = &n.v { v.get(i) } else { None };
        let got = y.get_ind(Ind(i));
        let ok = match (want, &got) {
            (Some(w), Ok(g)) => same(w, g, VAL).is_ok(),
            (None, Err(p)) => *p == y.pos(),
            _ => false,
        };
        cx.count(if want.is_some() { "ind.ok" } else { "ind.err" });
        cx.check(ok, "get_ind", || format!("{i} of {y:?}: {got:?}"));
        let idx = guarded(|| std::ptr::from_ref(&y[Ind(i)]));
        let ok = match (&idx, got) {
            (Ok(p), Ok(g)) => std::ptr::eq(*p, g),
            (Err(_), Err(_)) => {
                cx.count("panic");
                true
            }
            _ => false,
        };
        cx.check(ok, "index by position", || format!("{i} of {y:?}: {idx:?}"));
    }
    // By key
    let mut keys: Vec<N> = vec![N::str("a"), V::Int(1).into(), V::Null.into(), leaf(r, &TREE).into(), near(r, 1)];
    if let V::Map(m) = &n.v {
        keys.extend(m.iter().map(|e| e.0.clone()));
    }
    for k in keys {
        let want = if let V::Map(m) = &n.v { m.iter().find(|e| e.0 == k).map(|e| &e.1) } else { None };
        let y1: Node<R> = build(&k);
        let got = y.get(y1.clone());
        let ok = match (want, &got) {
            (Some(w), Ok(g)) => same(w, g, VAL).is_ok(),
            (None, Err(p)) => *p == y.pos(),
            _ => false,
        };
        cx.count(if want.is_some() { "get.ok" } else { "get.err" });
        cx.check(ok, "get", || format!("{k:?} of {y:?}: {got:?}"));
        let idx = guarded(|| std::ptr::from_ref(&y[y1.clone()]));
        let ok = match (&idx, &got) {
            (Ok(p), Ok(g)) => std::ptr::eq(*p, *g),
            (Err(_), Err(_)) => {
                cx.count("panic");
                true
            }
            _ => false,
        };
        cx.check(ok, "index by key", || format!("{k:?} of {y:?}: {idx:?}"));
        // The key as a Rust value
        let other = match &k.v {
            V::Str(s) => Some([y.get(s.as_str()), y.get(s.clone()), y.get(s)]),
            V::Int(i) => i64::try_from(*i).ok().map(|i| [y.get(i), y.get(i as i128), y.get(Yaml::from(i))]),
            V::Float(f) => Some([y.get(*f), y.get(Node::from(*f)), y.get(Yaml::Float(f.to_string()))]),
            V::Bool(b) => Some([y.get(*b), y.get(Node::from(*b)), y.get(Yaml::Bool(*b))]),
            V::Null => Some([y.get(()), y.get(Node::from(())), y.get(Yaml::Null)]),
            _ => None,
        };
        if let Some(o) = other {
            let ok = o.iter().all(|o| match (o, &got) {
                (Ok(a), Ok(b)) => std::ptr::eq(*a, *b),
                (a, b) => a == b,
            });
            cx.check(ok, "get with a Rust value", || format!("{k:?} of {y:?}"));
        }
        // With a default value
        let mut calls = 0;
        let d = y.get_default(y1.clone(), "<default>", |n| {
            calls += 1;
            n.as_str()
        });
        let want_d = match (&n.v, want) {
            (V::Map(_), Some(w)) => match (&w.v, got) {
                (V::Str(s), _) => Ok(s.as_str()),
                (V::Null, _) => Ok(""),
                (_, Ok(g)) => {
                    cx.count("default.factory");
                    Err(g.pos())
                }
                _ => Err(u64::MAX),
            },
            (V::Map(_), None) => Ok("<default>"),
            _ => Err(y.pos()),
        };
        cx.count(match (&n.v, want) {
            (V::Map(_), Some(_)) => "default.value",
            (V::Map(_), None) => "default.default",
            _ => "default.err",
        });
        cx.check(d == want_d && calls == want.is_some() as u8, "get_default", || format!("{k:?} of {y:?}: {d:?} instead of {want_d:?}"));
        let d = y.get_default(y1, vec![], Node::as_seq).map(|v: Seq<R>| v.len());
        let want_d = match (&n.v, want) {
            (V::Map(_), Some(w)) => match (&w.v, got) {
                (V::Seq(s), _) => Ok(s.len()),
                (_, Ok(g)) => Err(g.pos()),
                _ => Err(u64::MAX),
            },
            (V::Map(_), None) => Ok(0),
            _ => Err(y.pos()),
        };
        cx.check(d == want_d, "get_default with a sequence", || format!("{k:?} of {y:?}: {d:?} instead of {want_d:?}"));
    }
}

fn texts<R: Repr>(y: &Node<R>) -> String {
    match y.yaml() {
        Yaml::Int(s) | Yaml::Float(s) => s.clone(),
        _ => String::new(),
    }
}

fn every<R: Repr>(cx: &mut Ctx, r: &mut Rng, n: &N, y: &Node<R>, left: &mut usize) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    accessors(cx, n, y, &texts(y));
    indices(cx, r, n, y);
    match (&n.v, y.yaml()) {
        (V::Seq(a), Yaml::Seq(b)) => a.iter().zip(b).for_each(|(n, y)| every(cx, r, n, y, left)),
        (V::Map(a), Yaml::Map(b)) => a.iter().zip(b).for_each(|(n, y)| {
            every(cx, r, &n.0, y.0, left);
            every(cx, r, &n.1, y.1, left);
        }),
        _ => {}
    }
}

fn with_pos<R: Repr>(r: &mut Rng, n: &mut N) -> Node<R> {
    let y: Yaml<R> = match &mut n.v {
        V::Seq(v) => Yaml::Seq(v.iter_mut().map(|n| with_pos(r, n)).collect()),
        V::Map(m) => Yaml::Map(m.iter_mut().map(|(k, v)| (with_pos(r, k), with_pos(r, v))).collect()),
        V::Int(_) | V::Float(_) => match (notation(r, &n.v).unwrap(), &n.v) {
            (s, V::Int(_)) => Yaml::Int(s),
            (s, _) => Yaml::Float(s),
        },
        _ => build::<R>(n).yaml().clone(),
    };
    let p = if r.chance(1, 10) { u64::MAX - r.below(3) as u64 } else { r.next() % 100_000 };
    let t = r.ps(&["", "", "", "tag", "tag:yaml.org,2002:int"]);
    n.tag = (!t.is_empty()).then(|| t.to_string());
    n.pos = Some((p, p));
    Node::new(y, p, t)
}

const ALL: Cmp = Cmp { tags: true, pos: true };

fn access_of<R: Repr>(cx: &mut Ctx, r: &mut Rng, n: &N) {
    let mut n = n.clone();
    let y: Node<R> = with_pos(r, &mut n);
    let before = format!("{y:?}");
    every(cx, r, &n, &y, &mut 12);
    let d = same(&n, &y, ALL);
    cx.check(d.is_ok() && before == format!("{y:?}"), "the node was changed by an accessor", || format!("{d:?}"));
    // Anchors
    let mut anchors = Anchors::<R>::new();
    let name = r.ps(&["a", "b", "c"]);
    anchors.insert(name.into(), y.clone());
    for a in ["a", "b", "c"] {
        let al = Node::<R>::new(Yaml::Alias(a.into()), 5, "");
        let got = al.as_anchor(&anchors).map(|g| std::ptr::eq(g, &anchors[name]));
        let want = if a == name { Ok(true) } else { Err(5) };
        cx.count(if a == name { "anchor.ok" } else { "anchor.err" });
        cx.check(got == want, "as_anchor", || format!("*{a}: {got:?}"));
    }
    if !matches!(n.v, V::Alias(_)) {
        let got = y.as_anchor(&anchors).map(|g| std::ptr::eq(g, &y));
        cx.check(got == Ok(true), "as_anchor of a value", || format!("{got:?}"));
    }
    // A changed clone does not change the others
    let mut c = y.clone();
    let mut m: N = tree(r, &TreeOpt { nodes: 4, depth: 2, width: 2, ..TREE });
    let z: Node<R> = with_pos(r, &mut m);
    cx.count("set_yaml");
    if r.chance(1, 2) {
        c.set_yaml(z.yaml().clone());
    } else {
        c.set_repr(z.clone_yaml());
        cx.check(std::ptr::eq(c.yaml(), z.yaml()), "set_repr made a copy", String::new);
    }
    m.pos = n.pos;
    m.tag = n.tag.clone();
    let (d, e) = (same(&m, &c, ALL), same(&n, &y, ALL));
    cx.check(d.is_ok(), "set node", || format!("{d:?}"));
    cx.check(e.is_ok(), "a clone was changed", || format!("{e:?}"));
}

fn sized(r: &mut Rng) -> N {
    let o = grow(r, TreeOpt { nodes: 10, depth: 3, width: 4, ..TREE });
    tree(r, &o)
}

fn access(cx: &mut Ctx, r: &mut Rng) {
    let mut n = if r.chance(1, 2) { near(r, 2) } else { sized(r) };
    cx.input(&format!("{n:?}"));
    cx.nontrivial(&cx.input.clone());
    if cx.case % 1009 == 0 {
        cx.sample(cx.input.clone());
    }
    match r.below(3) {
        0 => access_of::<RcRepr>(cx, r, &n),
        1 => access_of::<ArcRepr>(cx, r, &n),
        _ => access_of::<MonRepr>(cx, r, &n),
    }
    // Parsed nodes
    let doc = total::rendered(r);
    if let Ok((v, _)) = parse_cyclic::<RcRepr>(&doc) {
        cx.input(&doc);
        cx.count("parsed");
        for y in v.iter().take(2) {
            n = unbuild(y);
            let mut big = false;
            n.walk(&mut |n| big |= matches!(&n.v, V::Str(s) if s.starts_with("<int") || s.starts_with("<float")));
            if !big {
                every(cx, r, &n, y, &mut 4);
            }
        }
    }
}

fn access_fixed(cx: &mut Ctx) {
    let mut r = Rng::new(5);
    for b in [7, 31, 32, 53, 62, 63, 64, 126] {
        for o in -2..=2 {
            for i in [(1i128 << b) + o, -(1i128 << b) + o] {
                let n: N = V::Int(i).into();
                cx.input(&format!("{n:?}"));
                access_of::<RcRepr>(cx, &mut r, &n);
            }
        }
    }
    for f in NEAR {
        let n: N = f().into();
        cx.input(&format!("{n:?}"));
        access_of::<RcRepr>(cx, &mut r, &n);
        access_of::<ArcRepr>(cx, &mut r, &n);
    }
    // Numbers which are not numbers
    for s in ["", "abc", "1.5", "0x", "-", "1e5", "99999999999999999999", "1 ", " 1", "0b1", "１"] {
        cx.input(s);
        let y = NodeRc::new(Yaml::Int(s.into()), 9, "");
        cx.check(y.as_int() == Err(9) && y.as_number() == Err(9), "as_int of a bad integer", || format!("{:?} {:?}", y.as_int(), y.as_number()));
        cx.check(y.as_value() == Ok(s), "as_value of a bad integer", || format!("{:?}", y.as_value()));
    }
    for s in ["", "abc", "0x1", "1.5.2", "-", "1e", "1 ", "１"] {
        cx.input(s);
        let y = NodeRc::new(Yaml::Float(s.into()), 9, "");
        cx.check(y.as_float() == Err(9) && y.as_number() == Err(9), "as_float of a bad float", || format!("{:?} {:?}", y.as_float(), y.as_number()));
    }
}

// ------------------------------------------------------------------ C26

pub const CONVERT: Prop = Prop {
    id: "C26",
    rule: "distinct values of the convertible types",
    fixed: Some(convert_fixed),
    case: convert,
    quick: 800_000,
    thorough: 8_000_000,
    must: &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char", "str", "unit", "seq", "map", "macro"],
    stack: 16 << 20,
    assumptions: &[],
};

/// All ways of converting one value.
macro_rules! ways {
    ($cx:expr, $kind:expr, $want:expr, $e:expr) => {{
        $cx.count($kind);
        let want: N = $want;
        let rc: Vec<(&str, NodeRc)> = vec![
            ("Node::from", NodeRc::from($e)),
            ("Into<Node>", $e.into()),
            ("Node::new", NodeRc::new($e, 0, "")),
            ("Yaml::from", Node::from(YamlRc::from($e))),
            ("Into<Yaml>", {
                let y: YamlRc = $e.into();
                y.into()
            }),
            ("node!", node!($e)),
            ("node!(rc)", node!(rc $e)),
            ("set_yaml", {
                let mut n = NodeRc::from(());
                n.set_yaml($e);
                n
            }),
        ];
        let arc: Vec<(&str, NodeArc)> = vec![("Arc Node::from", NodeArc::from($e)), ("Arc Yaml::from", Node::from(YamlArc::from($e))), ("node!(arc)", node!(arc $e))];
        for (how, y) in rc {
            converted($cx, &want, &y, how);
        }
        for (how, y) in arc {
            converted($cx, &want, &y, how);
        }
    }};
}

fn converted<R: Repr>(cx: &mut Ctx, want: &N, y: &Node<R>, how: &str) {
    let d = same(want, y, Cmp { tags: true, pos: false });
    let mut zero = true;
    fn pos<R: Repr>(y: &Node<R>, zero: &mut bool) {
        *zero &= y.pos() == 0;
        match y.yaml() {
            Yaml::Seq(v) => v.iter().for_each(|n| pos(n, zero)),
            Yaml::Map(m) => m.iter().for_each(|(k, v)| {
                pos(k, zero);
                pos(v, zero);
            }),
            _ => {}
        }
    }
    pos(y, &mut zero);
    cx.check(d.is_ok() && zero, &format!("{how}: another node"), || format!("{y:?}: {d:?}"));
}

fn int_ways(cx: &mut Ctx, x: u128) {
    cx.input(&format!("{x}"));
    cx.nontrivial(&x);
    macro_rules! ints {
        ($($t:ident),+) => {$({
            let i = x as $t;
            match i128::try_from(i) {
                Ok(w) => ways!(cx, stringify!($t), V::Int(w).into(), i),
                Err(_) => {
                    cx.count(stringify!($t));
                    for y in [NodeRc::from(i), node!(i), Node::from(YamlRc::from(i))] {
                        cx.check(matches!(y.yaml(), Yaml::Int(s) if *s == i.to_string()), "another large integer", || format!("{y:?}"));
                    }
                }
            }
            // It reads back equal
            let y = NodeRc::from(i);
            let want = i64::try_from(i).map_err(|_| 0u64);
            cx.check(y.as_int() == want, "integer reads back", || format!("{i}: {:?}", y.as_int()));
            cx.check(y.as_value() == Ok(i.to_string().as_str()), "integer text", || format!("{i}: {:?}", y.as_value()));
            let back: Result<$t, _> = serde::Deserialize::deserialize(y);
            cx.check(back.as_ref().is_ok_and(|b| *b == i), "integer reads back", || format!("{i}: {back:?}"));
        })+};
    }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
}

fn float_ways(cx: &mut Ctx, f: f64) {
    cx.input(&format!("{f:?}"));
    cx.nontrivial(&f.to_bits());
    ways!(cx, "f64", V::Float(f).into(), f);
    let bits = |f: f64| if f.is_nan() { 1 } else { f.to_bits() };
    let y = NodeRc::from(f);
    cx.check(y.as_float().map(bits) == Ok(bits(f)), "float reads back", || format!("{f}: {:?}", y.as_float()));
    let g = f as f32;
    cx.count("f32");
    // The shortest text of this width
    for y in [NodeRc::from(g), node!(g), Node::from(YamlRc::from(g))] {
        let t = match y.yaml() {
            Yaml::Float(s) => s.parse::<f32>().ok(),
            _ => None,
        };
        let ok = t.is_some_and(|t| t.to_bits() == g.to_bits() || (t.is_nan() && g.is_nan()));
        cx.check(ok, "f32 reads back", || format!("{g}: {y:?}"));
        // The digits that were written, without the ones of a wider type
        let h: f64 = g.to_string().parse().unwrap();
        cx.check(y.as_float().is_ok_and(|y| bits(y) == bits(h)), "f32 has other digits", || format!("{h}: {y:?}"));
    }
}

fn str_ways(cx: &mut Ctx, s: &str) {
    cx.input(s);
    cx.nontrivial(s);
    ways!(cx, "str", N::str(s), s);
    let o = s.to_string();
    ways!(cx, "str", N::str(s), o.clone());
    ways!(cx, "str", N::str(s), &o);
    if let Some(c) = s.chars().next() {
        ways!(cx, "char", N::str(&c.to_string()), c);
    }
}

fn convert(cx: &mut Ctx, r: &mut Rng) {
    match r.below(6) {
        0 => {
            let sh = r.below(128);
            let x = ((r.next() as u128) << 64 | r.next() as u128) >> sh;
            int_ways(cx, if r.chance(1, 2) { x } else { x.wrapping_neg() });
        }
        1 => {
            let f = if r.chance(1, 3) { f32::from_bits(r.next() as u32) as f64 } else { f64::from_bits(r.next()) };
            let f = if r.chance(1, 2) { float(r) } else { f };
            float_ways(cx, f)
        }
        2 => {
            let s = string(r, 2);
            str_ways(cx, &s)
        }
        3 => {
            // Collecting iterators
            let o = TreeOpt { nodes: 5, depth: 2, width: 3, ..TREE };
            let items: Vec<N> = (0..r.below(6)).map(|_| tree(r, &o)).collect();
            cx.input(&format!("{items:?}"));
            cx.nontrivial(&cx.input.clone());
            let want: N = V::Seq(items.clone()).into();
            let ys: Vec<NodeRc> = items.iter().map(build).collect();
            ways!(cx, "seq", want.clone(), items.iter().map(build).collect::<Vec<_>>());
            for (how, y) in [("collect Node", ys.iter().cloned().collect::<NodeRc>()), ("collect Yaml", ys.iter().cloned().collect::<YamlRc>().into()), ("Yaml::Seq", YamlRc::Seq(ys).into())] {
                converted(cx, &want, &y, how);
            }
            let mut m: Vec<(N, N)> = vec![];
            for k in items {
                if !has_key(&m, &k) {
                    m.push((k, tree(r, &o)));
                }
            }
            let want: N = V::Map(m.clone()).into();
            let ys: Vec<(NodeRc, NodeRc)> = m.iter().map(|(k, v)| (build(k), build(v))).collect();
            ways!(cx, "map", want.clone(), m.iter().map(|(k, v)| (build(k), build(v))).collect::<Map<_>>());
            for (how, y) in [("collect Node", ys.iter().cloned().collect::<NodeRc>()), ("collect Yaml", ys.iter().cloned().collect::<YamlRc>().into()), ("Yaml::Map", YamlRc::Map(ys.into_iter().collect()).into())] {
                converted(cx, &want, &y, how);
            }
        }
        _ => macros(cx, r),
    }
    if cx.case % 1009 == 0 {
        cx.sample(cx.input.clone());
    }
}

/// The forms of the macro with random expressions.
fn macros(cx: &mut Ctx, r: &mut Rng) {
    cx.count("macro");
    let (a, b, c, d, e): (i64, String, bool, f64, char) = (int(r, false) as i64, string(r, 2), r.chance(1, 2), float(r), any_char(r));
    let n = r.below(6);
    cx.input(&format!("{a} {b:?} {c} {d} {e:?} {n}"));
    cx.nontrivial(&cx.input.clone());
    let (va, vb, vc, vd, ve): (N, N, N, N, N) = (V::Int(a as i128).into(), N::str(&b), V::Bool(c).into(), V::Float(d).into(), N::str(&e.to_string()));
    let sub = tree(r, &TreeOpt { nodes: 6, depth: 2, width: 3, ..TREE });
    let seq = |v: Vec<N>| -> N { V::Seq(v).into() };
    let map = |v: Vec<(N, N)>| -> N {
        // As the map type: a repeated key replaces the value and moves
        let mut out: Vec<(N, N)> = vec![];
        for (k, v) in v {
            out.retain(|e| e.0 != k);
            out.push((k, v));
        }
        V::Map(out).into()
    };
    macro_rules! form {
        ($name:literal, $want:expr, $($t:tt)+) => {{
            let want = $want;
            converted(cx, &want, &node!($($t)+), $name);
            converted(cx, &want, &node!(rc $($t)+), concat!("rc ", $name));
            converted(cx, &want, &node!(arc $($t)+), concat!("arc ", $name));
        }};
    }
    form!("empty", seq(vec![]), []);
    form!("empty map", map(vec![]), {});
    form!("one", seq(vec![va.clone()]), [a]);
    form!("several", seq(vec![va.clone(), vb.clone(), vc.clone(), vd.clone(), ve.clone()]), [a, &b, c, d, e]);
    form!("trailing comma", seq(vec![vb.clone(), V::Null.into()]), [b.as_str(), (),]);
    form!("repeated", seq(vec![va.clone(); n]), [a; n]);
    form!("pairs", map(vec![(va.clone(), vb.clone()), (vb.clone(), vc.clone()), (vd.clone(), V::Null.into())]), {a => &b, &b => c, d => ()});
    form!("trailing pair", map(vec![(ve.clone(), vd.clone())]), {e => d,});
    form!("alias", V::Alias(b.clone()).into(), *b.as_str());
    form!("expression", V::Int(a as i128 + 1).into(), a as i128 + 1);
    form!("call", N::str(&b.to_uppercase()), b.to_uppercase());
    let y: NodeRc = build(&sub);
    let z: NodeArc = build(&sub);
    converted(cx, &seq(vec![sub.clone(), seq(vec![sub.clone(), va.clone()]), map(vec![(vb.clone(), sub.clone())])]), &node!([y.clone(), node!([y.clone(), a]), node!({&b => y.clone()})]), "nested");
    converted(
        cx,
        &map(vec![(N::str("x"), seq(vec![sub.clone(); n])), (sub.clone(), map(vec![(va.clone(), V::Alias("q".into()).into())]))]),
        &node!(arc {"x" => node!(arc [z.clone(); n]), z.clone() => node!(arc {a => node!(arc *"q")})}),
        "nested arc",
    );
    // Shared, not copied
    let v = node!([y.clone(), y.clone()]);
    let owners = Rc::strong_count(y.rc_ref());
    cx.check(owners == 3 && v[Ind(0)].yaml() == y.yaml(), "macro copies a node", || format!("{owners} owners"));
    let v = node!(arc [z.clone(); 3]);
    let owners = Arc::strong_count(z.rc_ref());
    cx.check(owners == 4 && v[Ind(2)] == z, "macro copies a node", || format!("{owners} owners"));
}

fn convert_fixed(cx: &mut Ctx) {
    cx.input("()");
    ways!(cx, "unit", V::Null.into(), ());
    for b in [true, false] {
        ways!(cx, "bool", V::Bool(b).into(), b);
    }
    for b in [0, 7, 8, 15, 16, 31, 32, 63, 64, 127] {
        for o in 0..5u128 {
            int_ways(cx, (1u128 << b).wrapping_add(o).wrapping_sub(2));
        }
    }
    for f in [0., -0., 1., -1., 0.1, 1e15, 1e16, 1e17, 1e-5, 1e-7, 1e100, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 16777217., 0.1f32 as f64, f32::MAX as f64, f32::MIN_POSITIVE as f64] {
        float_ways(cx, f);
    }
    for c in (0..0x300u32).chain([0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]) {
        str_ways(cx, &char::from_u32(c).unwrap().to_string());
    }
    for s in ["", "null", "~", "true", "1", "1.5", "- a", "a: b", "\n", "日本"] {
        str_ways(cx, s);
    }
}

// ------------------------------------------------------------------ C21

pub const REPRS: Prop = Prop {
    id: "C21",
    rule: "distinct inputs",
    fixed: None,
    case: reprs,
    quick: 150_000,
    thorough: 3_000_000,
    must: &["accepted", "rejected", "anchors", "dumped", "nodes", "serde", "soup", "mutated", "rendered", "deep", "loader", "changed"],
    stack: 16 << 20,
    assumptions: &["the representation of a user is a counting reference counter which forwards hashing and equality"],
};

/// Everything that can be seen of a node.
pub fn facts<R: Repr>(y: &Node<R>, out: &mut String, left: &mut usize) {
    use std::fmt::Write;
    if *left == 0 {
        return;
    }
    *left -= 1;
    let _ = write!(out, "({} {:?} ", y.pos(), y.tag());
    match y.yaml() {
        Yaml::Null => out.push('N'),
        Yaml::Bool(b) => out.push_str(if *b { "T" } else { "F" }),
        Yaml::Int(s) => {
            let _ = write!(out, "i{s:?}");
        }
        Yaml::Float(s) => {
            let _ = write!(out, "f{s:?}");
        }
        Yaml::Str(s) => {
            let _ = write!(out, "s{s:?}");
        }
        Yaml::Alias(s) => {
            let _ = write!(out, "*{s:?}");
        }
        Yaml::Seq(v) => v.iter().for_each(|n| facts(n, out, left)),
        Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            out.push('k');
            facts(k, out, left);
            out.push(':');
            facts(v, out, left);
        }),
    }
    out.push(')');
}

/// Which nodes share their data, in the order of the tree.
fn sharing<R: Repr>(y: &Node<R>, seen: &mut HashMap<*const Yaml<R>, usize>, out: &mut Vec<usize>) {
    if out.len() > 2000 {
        return;
    }
    let n = seen.len();
    let p: *const Yaml<R> = y.yaml();
    out.push(*seen.entry(p).or_insert(n));
    match y.yaml() {
        Yaml::Seq(v) => v.iter().for_each(|n| sharing(n, seen, out)),
        Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            sharing(k, seen, out);
            sharing(v, seen, out);
        }),
        _ => {}
    }
}

fn scan<R: Repr>(doc: &[u8]) -> Vec<(&'static str, String)> {
    let mut out = vec![];
    for cyclic in [false, true] {
        let mut l = Loader::<R>::new(doc).cyclic_mode(cyclic);
        let name = if cyclic { "cyclic" } else { "plain" };
        match l.parse() {
            Err(e) => out.push((name, format!("ERR {e} {e:?}"))),
            Ok(v) => {
                let anchors = l.get_anchors();
                let mut s = format!("{} {}", v.len(), anchors.len());
                v.iter().for_each(|n| facts(n, &mut s, &mut 2000));
                for a in &anchors {
                    for (k, n) in a {
                        s.push_str(&format!("\n&{k:?} "));
                        facts(n, &mut s, &mut 500);
                    }
                }
                out.push((name, s));
                let (mut seen, mut sh) = (HashMap::new(), vec![]);
                v.iter().for_each(|n| sharing(n, &mut seen, &mut sh));
                out.push(("sharing", format!("{sh:?}")));
                let size = v.iter().fold(0u64, |a, n| a.saturating_add(total::expanded(n, &mut HashMap::new())));
                if size < 3000 {
                    out.push(("dump", dump(&v, if cyclic { &anchors } else { &[] })));
                    out.push(("debug", format!("{v:?}")));
                    let mut h = DefaultHasher::new();
                    v.hash(&mut h);
                    out.push(("hash", h.finish().to_string()));
                    let mut eq = vec![];
                    for a in &v {
                        eq.extend(v.iter().map(|b| a == b));
                    }
                    out.push(("equality", format!("{eq:?}")));
                    let mut acc = String::new();
                    for n in v.iter().take(20) {
                        acc.push_str(&format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?};", n.is_null(), n.as_bool(), n.as_int(), n.as_number(), n.as_str(), n.as_value(), n.get("a")));
                    }
                    out.push(("accessors", acc));
                    let de: Vec<String> = v.iter().map(|n| format!("{:?}", <serde_json::Value as serde::Deserialize>::deserialize(n.clone()).map_err(|e| e.to_string()))).collect();
                    out.push(("deserialized", de.join(" ")));
                    let de: Vec<String> = v.iter().map(|n| format!("{:?}", <BTreeMap<String, Vec<u8>> as serde::Deserialize>::deserialize(n.clone()).map_err(|e| e.to_string()))).collect();
                    out.push(("deserialized", de.join(" ")));
                    let se: Vec<String> = v.iter().map(|n| format!("{:?}", serde_json::to_string(n).map_err(|e| e.to_string()))).collect();
                    out.push(("serialized", se.join(" ")));
                    // Changed in place
                    let mut w = v.clone();
                    for (i, n) in w.iter_mut().enumerate() {
                        n.set_yaml(i as u64);
                    }
                    let mut s = String::new();
                    v.iter().chain(&w).for_each(|n| facts(n, &mut s, &mut 2000));
                    out.push(("changed", s));
                }
            }
        }
    }
    out
}

fn reprs(cx: &mut Ctx, r: &mut Rng) {
    let doc = match r.below(8) {
        0 => {
            cx.count("soup");
            let n = r.range(1, 30);
            total::soup(r, n)
        }
        1 | 2 => {
            cx.count("mutated");
            let mut d = total::rendered(r);
            for _ in 0..r.range(1, 3) {
                errors::mutate(r, &mut d);
            }
            d
        }
        3 if r.chance(1, 10) => {
            cx.count("deep");
            total::deep(r)
        }
        _ => {
            cx.count("rendered");
            total::rendered(r)
        }
    };
    cx.input(&doc);
    cx.nontrivial(&doc);
    if cx.case % 1009 == 0 {
        cx.sample(doc.clone());
    }
    let mut bytes = doc.into_bytes();
    if r.chance(1, 20) && !bytes.is_empty() {
        let i = r.below(bytes.len());
        bytes[i] = r.next() as u8;
    }
    let (a, b, c) = (scan::<RcRepr>(&bytes), scan::<ArcRepr>(&bytes), scan::<MonRepr>(&bytes));
    cx.count("loader");
    cx.count(if a[0].1.starts_with("ERR") { "rejected" } else { "accepted" });
    for (n, s) in &a {
        match *n {
            "dump" => cx.count("dumped"),
            "serialized" => cx.count("serde"),
            "changed" => cx.count("changed"),
            "cyclic" if s.contains("\n&") => cx.count("anchors"),
            _ => {}
        }
    }
    for (other, what) in [(&b, "Arc"), (&c, "user-defined")] {
        cx.check(other.len() == a.len(), &format!("{what}: another outcome"), || format!("{:?}\n{:?}", a.last(), other.last()));
        for (x, y) in a.iter().zip(other) {
            cx.check(x == y, &format!("{what}: another {}", x.0), || format!("{}\ninstead of {}", brief(&y.1), brief(&x.1)));
        }
    }
    // Built nodes
    let n = if r.chance(1, 20) { sized(r) } else { near(r, 2) };
    cx.count("nodes");
    let mut pool = (Rng::new(cx.case), Rng::new(cx.case), Rng::new(cx.case));
    let (x, y, z): (NodeRc, NodeArc, Node<MonRepr>) = (noisy(cx, &mut pool.0, &n, &mut vec![]), noisy(cx, &mut pool.1, &n, &mut vec![]), noisy(cx, &mut pool.2, &n, &mut vec![]));
    let mut out = [String::new(), String::new(), String::new()];
    facts(&x, &mut out[0], &mut 500);
    facts(&y, &mut out[1], &mut 500);
    facts(&z, &mut out[2], &mut 500);
    cx.check(out[0] == out[1] && out[0] == out[2], "built nodes differ", || format!("{out:?}"));
    let t = [dump(&[x.clone()], &[]), dump(&[y.clone()], &[]), dump(&[z.clone()], &[])];
    cx.check(t[0] == t[1] && t[0] == t[2], "dumps of built nodes differ", || format!("{t:?}"));
    let e = [to_node(&x).map_err(|e| e.to_string()), to_node(&y).map_err(|e| e.to_string()), to_node(&z).map_err(|e| e.to_string())];
    cx.check(e[0] == e[1] && e[0] == e[2], "nodes of built nodes differ", || format!("{e:?}"));
    let f = to_arc_node(&x).map_err(|e| e.to_string());
    let same_arc = match (&e[0], &f) {
        (Ok(a), Ok(b)) => same(&unbuild(a), b, Cmp { tags: true, pos: true }).is_ok(),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    cx.check(same_arc, "to_node and to_arc_node differ", || format!("{:?} {f:?}", e[0]));
}
