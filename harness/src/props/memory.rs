//! C23: memory of nodes, loaders and errors.
use crate::{alloc_mon, core::*, dynser, guarded, model::*, props::{errors, parse as aliases, total}, render::*, repr_mon::*};
use serde::{de::DeserializeSeed, Deserialize, Serialize};
use std::{
    collections::{hash_map::DefaultHasher, BTreeMap, HashMap},
    hash::{Hash, Hasher},
};
use yaml_peg::{
    dump, parse, parse_cyclic,
    parser::{Anchors, Loader},
    repr::{ArcRepr, RcRepr, Repr},
    serde::{from_str, to_arc_node, to_node, to_string},
    Ind, Node, Seq, Yaml,
};

pub const MEMORY: Prop = Prop {
    id: "C23",
    rule: "distinct documents, values and histories",
    fixed: Some(memory_fixed),
    case: memory,
    quick: 100_000,
    thorough: 2_000_000,
    must: &[
        "released", "accepted", "rejected", "anchors", "cyclic", "typed", "typed.rejected", "serialized", "serialize.failed", "unwound", "audits", "objects", "op.parse", "op.clone", "op.drop", "op.set", "op.share", "op.collect", "op.edit", "op.read", "op.get", "op.loader", "op.deserialize", "aliases", "deep",
    ],
    stack: 64 << 20,
    assumptions: &["bytes are counted per thread, what stays behind the second repetition of a history is a leak", "the sanitizers and the interpreter see a part of the same workload"],
};

/// Run it, everything it allocates must be released.
fn released(cx: &mut Ctx, what: &str, mut f: impl FnMut()) {
    let mut left = 0;
    // The first run can fill caches of the runtime
    for _ in 0..3 {
        let a = alloc_mon::snap();
        let l = live();
        f();
        let b = alloc_mon::snap();
        left = b.live - a.live;
        cx.check(live() == l && stat().double == 0, &format!("{what}: objects are not freed exactly once"), || format!("{l} objects became {}, {:?}", live(), stat()));
        if left == 0 {
            break;
        }
    }
    cx.count("released");
    cx.check(left == 0, &format!("{what}: memory is not released"), || format!("{left} bytes"));
}

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Use the document in any way; returns the outcome.
fn using<R: Repr>(doc: &[u8], cyclic: bool, order: u64) -> (bool, usize) {
    let mut l = Loader::<R>::new(doc).cyclic_mode(cyclic);
    match l.parse() {
        Err(e) => {
            let s = format!("{e} {e:?}");
            assert!(total::encoded(&s), "the error is no text");
            if order & 1 == 0 {
                drop(l);
                drop(e);
            } else {
                drop(e);
                drop(l.get_anchors());
            }
            (false, s.len())
        }
        Ok(v) => {
            let anchors = l.get_anchors();
            let n = anchors.iter().map(BTreeMap::len).sum();
            let mut left = 1000;
            assert!(v.iter().all(|n| total::all_encoded(n, &mut left)), "the texts are no texts");
            let size = v.iter().fold(0u64, |a, n| a.saturating_add(total::expanded(n, &mut HashMap::new())));
            if size < 3000 {
                let c = v.clone();
                let _ = (c == v, hash64(&v), dump(&v, if cyclic { &anchors } else { &[] }), format!("{v:?}"));
                for y in &v {
                    let _ = (y.get("a"), y.get_ind(Ind(0)), y.as_int(), y.as_str());
                    if let Some(a) = anchors.first() {
                        let _ = y.as_anchor(a);
                    }
                    let _ = serde_json::to_string(y);
                    let _ = serde_json::Value::deserialize(y.clone());
                    let _ = <BTreeMap<String, Vec<u8>>>::deserialize(y.clone());
                    let _ = <Vec<BTreeMap<String, Option<i8>>>>::deserialize(y.clone());
                    let _ = to_node(y);
                    let _ = to_arc_node(y);
                }
                let mut w = c;
                w.iter_mut().for_each(|n| n.set_yaml(1));
                if order & 2 == 0 {
                    drop(v);
                    drop(anchors);
                    return (true, n);
                }
            }
            drop(anchors);
            (true, n)
        }
    }
}

fn any_doc(cx: &mut Ctx, r: &mut Rng) -> Vec<u8> {
    let small = cfg!(miri);
    let d = match r.below(10) {
        0 | 1 => {
            let n = r.range(1, if small { 8 } else { 30 });
            total::soup(r, n)
        }
        2..=4 => {
            let mut d = rendered(r);
            for _ in 0..r.range(1, 3) {
                errors::mutate(r, &mut d);
            }
            d
        }
        5 if !small && r.chance(1, 20) => {
            cx.count("deep");
            total::deep(r)
        }
        _ => rendered(r),
    };
    let mut b = d.into_bytes();
    if r.chance(1, 15) && !b.is_empty() {
        let i = r.below(b.len());
        b[i] = r.next() as u8;
    }
    b
}

fn opts(r: &mut Rng) -> TreeOpt {
    if cfg!(miri) {
        TreeOpt { nodes: 5, depth: 2, width: 3, strings: 1, ..TREE }
    } else {
        grow(r, TreeOpt { nodes: 25, ..TREE })
    }
}

fn rendered(r: &mut Rng) -> String {
    if !cfg!(miri) {
        return total::rendered(r);
    }
    let mut docs = {
        let o = opts(r);
        vec![tree(r, &o)]
    };
    let st = random_style(r);
    render(r, st, vec![], &mut docs).0
}

fn documents(cx: &mut Ctx, r: &mut Rng) {
    let doc = any_doc(cx, r);
    cx.input(&String::from_utf8_lossy(&doc));
    cx.nontrivial(&doc);
    let (cyclic, order) = (r.chance(1, 2), r.next());
    let mut out = (false, 0);
    match r.below(3) {
        0 => released(cx, "document (Rc)", || out = using::<RcRepr>(&doc, cyclic, order)),
        1 => released(cx, "document (Arc)", || out = using::<ArcRepr>(&doc, cyclic, order)),
        _ => released(cx, "document (user-defined)", || out = using::<MonRepr>(&doc, cyclic, order)),
    }
    cx.count(if out.0 { "accepted" } else { "rejected" });
    if cyclic {
        cx.count("cyclic");
    }
    if out.0 {
        cx.add("anchors", out.1 as u64);
    }
    if let Ok(s) = std::str::from_utf8(&doc) {
        released(cx, "from_str", || {
            let _ = from_str::<serde_json::Value>(s).map_err(|e| e.to_string());
            let _ = from_str::<BTreeMap<String, Vec<u8>>>(s).map_err(|e| format!("{e:?}"));
            let _ = parse_cyclic::<RcRepr>(s);
        });
    }
}

/// Serialization which stops at the n-th value.
struct Stop<'a>(&'a dynser::D, std::cell::Cell<usize>, bool);
struct Part<'a>(&'a V, &'a Stop<'a>);

impl Serialize for Stop<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let n = dynser::shape(self.0);
        Part(&n.v, self).serialize(s)
    }
}

impl Serialize for Part<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let left = self.1 .1.get();
        if left == 0 {
            if self.1 .2 {
                panic!("stopped by the user");
            }
            return Err(serde::ser::Error::custom("stopped by the user"));
        }
        self.1 .1.set(left - 1);
        match self.0 {
            V::Seq(v) => s.collect_seq(v.iter().map(|n| Part(&n.v, self.1))),
            V::Map(m) => s.collect_map(m.iter().map(|(k, v)| (Part(&k.v, self.1), Part(&v.v, self.1)))),
            V::Int(i) => s.serialize_i128(*i),
            V::Float(f) => s.serialize_f64(*f),
            V::Bool(b) => s.serialize_bool(*b),
            V::Str(t) => s.serialize_str(t),
            _ => s.serialize_unit(),
        }
    }
}

/// Deserialization by a visitor which unwinds at the n-th value.
struct Unwind;
thread_local!(static LEFT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

impl<'de> Deserialize<'de> for Unwind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if LEFT.get() == 0 {
            panic!("stopped by the user");
        }
        LEFT.set(LEFT.get() - 1);
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = Unwind;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Unwind, A::Error> {
                while a.next_element::<Unwind>()?.is_some() {}
                Ok(Unwind)
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Unwind, A::Error> {
                while a.next_entry::<Unwind, Unwind>()?.is_some() {}
                Ok(Unwind)
            }
            fn visit_unit<E>(self) -> Result<Unwind, E> {
                Ok(Unwind)
            }
            fn visit_str<E>(self, _: &str) -> Result<Unwind, E> {
                Ok(Unwind)
            }
            fn visit_bool<E>(self, _: bool) -> Result<Unwind, E> {
                Ok(Unwind)
            }
            fn visit_f64<E>(self, _: f64) -> Result<Unwind, E> {
                Ok(Unwind)
            }
        }
        d.deserialize_any(Vis)
    }
}

fn values(cx: &mut Ctx, r: &mut Rng) {
    let depth = if cfg!(miri) { 1 } else { r.below(4) };
    let t = dynser::random_type(r, depth);
    let d = dynser::random_value(r, &t);
    let other = dynser::random_type(r, depth);
    cx.input(&format!("{t:?}\n{d:?}\n{other:?}"));
    cx.nontrivial(&cx.input.clone());
    let mut ok = (0, 0);
    released(cx, "values", || {
        ok = (0, 0);
        if let Ok(y) = to_node(&d) {
            ok.0 += dynser::Seed(&t).deserialize(y.clone()).is_ok() as u64;
            match dynser::Seed(&other).deserialize(y) {
                Ok(v) => drop(v),
                Err(e) => ok.1 += !e.to_string().is_empty() as u64,
            }
        }
        if let Ok(y) = to_arc_node(&d) {
            let _ = dynser::Seed(&t).deserialize(y);
        }
        let _ = to_string(&d).map(|s| from_str::<serde_json::Value>(&s));
    });
    cx.add("typed", ok.0);
    cx.add("typed.rejected", ok.1);
    cx.count("serialized");
    // Stop at any place
    let size = dynser::shape(&d).size();
    for unwind in [false, true] {
        let n = r.below(size);
        let mut failed = 0;
        released(cx, if unwind { "an unwound serializer" } else { "a failed serializer" }, || {
            failed = 0;
            let g = |f: &mut dyn FnMut() -> bool| guarded(|| f()).unwrap_or(true) as u64;
            let stop = || Stop(&d, n.into(), unwind);
            failed += g(&mut || to_node(&stop()).is_err());
            failed += g(&mut || to_arc_node(stop()).is_err());
            failed += g(&mut || to_string(&stop()).is_err());
        });
        cx.add(if unwind { "unwound" } else { "serialize.failed" }, failed);
    }
    let n = r.below(size);
    released(cx, "an unwound visitor", || {
        let _ = guarded(|| {
            let y = to_node(&d);
            LEFT.set(n);
            let _ = y.map(Unwind::deserialize);
        });
    });
    cx.count("unwound");
}

// ------------------------------------------------------------ conservation

#[derive(Default)]
struct Pool {
    roots: Vec<Node<MonRepr>>,
    anchors: Vec<Anchors<MonRepr>>,
}

/// The reachable objects with the number of handles to them.
fn handles(p: &Pool) -> HashMap<u64, (usize, usize)> {
    fn go(y: &Node<MonRepr>, m: &mut HashMap<u64, (usize, usize)>) {
        let rc = y.rc_ref();
        let e = m.entry(rc.id()).or_insert((0, rc.owners()));
        e.0 += 1;
        if e.0 > 1 {
            return;
        }
        match y.yaml() {
            Yaml::Seq(v) => v.iter().for_each(|n| go(n, m)),
            Yaml::Map(x) => x.iter().for_each(|(k, v)| {
                go(k, m);
                go(v, m);
            }),
            _ => {}
        }
    }
    let mut m = HashMap::new();
    p.roots.iter().for_each(|n| go(n, &mut m));
    p.anchors.iter().flat_map(|a| a.values()).for_each(|n| go(n, &mut m));
    m
}

/// Objects are conserved: nothing else is alive, and nobody else owns them.
fn audit(cx: &mut Ctx, p: &Pool, base: usize, op: &str) {
    let m = handles(p);
    cx.count("audits");
    cx.add("objects", m.len() as u64);
    cx.check(live() - base == m.len(), &format!("{op}: objects are not conserved"), || format!("{} alive, {} reachable", live() - base, m.len()));
    if let Some((id, (n, owners))) = m.iter().find(|(_, (n, o))| n != o) {
        cx.check(false, &format!("{op}: hidden owners"), || format!("object {id} has {owners} owners, {n} can be reached"));
    }
    cx.check(stat().double == 0, &format!("{op}: freed twice"), || format!("{:?}", stat()));
}

fn history(cx: &mut Ctx, r: &mut Rng) {
    let base = live();
    let mut p = Pool::default();
    let mut trace = String::new();
    let steps = if cfg!(miri) { r.range(3, 8) } else { r.range(5, 40) };
    for _ in 0..steps {
        let made = stat().created;
        let n = p.roots.len();
        let i = r.below(n);
        let small = |y: &Node<MonRepr>| total::expanded(y, &mut HashMap::new()) < 2000;
        let op = match r.below(if n == 0 { 2 } else { 15 }) {
            0 => {
                let doc = any_doc(cx, r);
                let cyclic = r.chance(1, 2);
                trace += &format!("parse {cyclic} {:?}\n", String::from_utf8_lossy(&doc));
                cx.input(&trace);
                let mut l = Loader::<MonRepr>::new(&doc).cyclic_mode(cyclic);
                if let Ok(v) = l.parse() {
                    if v.len() < 20 {
                        p.roots.extend(v);
                    }
                    if r.chance(1, 2) {
                        p.anchors.extend(l.get_anchors());
                        if p.anchors.len() > 5 {
                            p.anchors.drain(..3);
                        }
                    }
                }
                "op.parse"
            }
            1 => {
                // A loader which is used twice, or dropped in between
                let doc = any_doc(cx, r);
                trace += &format!("loader {:?}\n", String::from_utf8_lossy(&doc));
                cx.input(&trace);
                let mut l = Loader::<MonRepr>::new(&doc).cyclic_mode(r.chance(1, 2));
                let a = l.parse();
                if r.chance(1, 2) {
                    let b = l.parse();
                    drop(a);
                    drop(l);
                    p.roots.extend(b.into_iter().flatten().take(3));
                } else {
                    drop(l);
                    p.roots.extend(a.into_iter().flatten().take(3));
                }
                "op.loader"
            }
            2 => {
                trace += &format!("clone {i}\n");
                let y = p.roots[i].clone();
                p.roots.push(y);
                cx.check(stat().created == made, "a clone copies the data", || trace.clone());
                "op.clone"
            }
            3 | 4 => {
                trace += &format!("drop {i}\n");
                if r.chance(1, 8) && !p.anchors.is_empty() {
                    p.anchors.pop();
                } else {
                    p.roots.swap_remove(i);
                }
                "op.drop"
            }
            5 => {
                trace += &format!("set {i}\n");
                match r.below(3) {
                    0 => p.roots[i].set_yaml(1),
                    1 => p.roots[i].set_yaml("text"),
                    _ => p.roots[i].set_yaml(Yaml::Seq(vec![1.into(), ().into()])),
                }
                "op.set"
            }
            6 => {
                let j = r.below(n);
                trace += &format!("share {i} {j}\n");
                let rc = p.roots[j].clone_yaml();
                if r.chance(1, 2) {
                    p.roots[i].set_repr(rc);
                } else {
                    p.roots.push(Node::new_repr(rc, 1, "t"));
                }
                cx.check(stat().created == made, "sharing copies the data", || trace.clone());
                "op.share"
            }
            7 => {
                trace += "collect\n";
                let all: Vec<_> = p.roots.iter().filter(|y| small(y)).take(4).cloned().collect();
                let y: Node<MonRepr> = match r.below(3) {
                    0 => all.into_iter().collect(),
                    1 => all.iter().cloned().zip(all.iter().rev().cloned()).collect(),
                    _ => Node::new(Yaml::Map(all.iter().map(|y| (y.clone(), y.clone())).collect()), 0, ""),
                };
                cx.check(stat().created == made + 1, "collecting copies the data", || trace.clone());
                p.roots.push(y);
                "op.collect"
            }
            8 | 9 => {
                trace += &format!("edit {i}\n");
                let j = r.below(n);
                let v = p.roots[j].clone();
                let y: Yaml<MonRepr> = match p.roots[i].yaml().clone() {
                    Yaml::Seq(mut s) => {
                        let at = r.below(s.len() + 1);
                        match r.below(3) {
                            0 => s.insert(at, v),
                            1 => s.truncate(at),
                            _ => s.extend_from_within(..at),
                        }
                        Yaml::Seq(s)
                    }
                    Yaml::Map(mut m) if small(&p.roots[i]) && small(&v) => {
                        let k = m.keys().nth(r.below(m.len())).cloned();
                        match (r.below(4), k) {
                            (0, Some(k)) => {
                                m.remove(&k);
                            }
                            (1, _) => {
                                m.pop_back();
                            }
                            (2, Some(k)) => {
                                m.insert(k, v);
                            }
                            _ => {
                                m.insert(v.clone(), v);
                            }
                        }
                        Yaml::Map(m)
                    }
                    y => y,
                };
                if r.chance(1, 2) && p.roots[i].yaml() != &Yaml::Null {
                    p.roots[i].set_yaml(y);
                } else {
                    p.roots.push(Node::new(y, 0, ""));
                }
                "op.edit"
            }
            10 | 11 => {
                trace += &format!("read {i}\n");
                let y = &p.roots[i];
                if small(y) {
                    let _ = (hash64(y), y == &p.roots[r.below(n)], format!("{y:?}"), dump(&[y.clone()], &p.anchors), serde_json::to_string(y));
                    let _ = (y.as_int(), y.as_seq().map(|s| s.len()), y.as_value(), y.as_map().map(|m| m.len()));
                }
                "op.read"
            }
            12 | 13 => {
                trace += &format!("get {i}\n");
                let y = &p.roots[i];
                let key = p.roots[r.below(n)].clone();
                if small(y) && small(&key) {
                    let z = match r.below(6) {
                        0 => y.get(key).ok().cloned(),
                        1 => y.get_ind(Ind(r.below(3))).ok().cloned(),
                        2 => y.get_default(key, "x", Node::as_str).ok().map(|_| 1.into()),
                        3 => guarded(|| y[key].clone()).ok(),
                        4 => guarded(|| y[Ind(r.below(3))].clone()).ok(),
                        _ => p.anchors.first().and_then(|a| y.as_anchor(a).ok().cloned()),
                    };
                    p.roots.extend(z);
                }
                "op.get"
            }
            _ => {
                trace += &format!("deserialize {i}\n");
                let y = p.roots[i].clone();
                if small(&y) {
                    match r.below(4) {
                        0 => drop(serde_json::Value::deserialize(y)),
                        1 => drop(<Vec<String>>::deserialize(y)),
                        2 => p.roots.extend(Node::<MonRepr>::deserialize(y)),
                        _ => drop(to_node(&y)),
                    }
                }
                "op.deserialize"
            }
        };
        cx.count(op);
        if n > 40 {
            p.roots.drain(..20);
        }
        cx.input(&trace);
        audit(cx, &p, base, op);
    }
    cx.nontrivial(&trace);
    drop(p);
    cx.check(live() == base, "objects are alive behind the last handle", || format!("{}", live() - base));
}

/// One object for every node of the document, and none for an alias.
fn copies(cx: &mut Ctx, r: &mut Rng) {
    let o = opts(r);
    let mut t = coll(r, &o);
    let (mut next, mut done, mut n) = (0, vec![], 0);
    aliases::plant(r, &mut t, false, &mut next, &mut done, &mut n);
    if aliases::resolve(&t, &mut BTreeMap::new(), &mut 3000).is_none() {
        cx.count("skipped.collision");
        return;
    }
    let mut docs = vec![t];
    let st = random_style(r);
    let (doc, _) = render(r, st, vec![], &mut docs);
    cx.input(&doc);
    cx.nontrivial(&doc);
    cx.add("aliases", n as u64);
    let base = live();
    let size = docs[0].size();
    for cyclic in [false, true] {
        let mut l = Loader::<MonRepr>::new(doc.as_bytes()).cyclic_mode(cyclic);
        let Ok(v) = l.parse() else {
            cx.check(false, "rejected", String::new);
            return;
        };
        let want = if cyclic { size } else { size - n };
        let p = Pool { roots: v, anchors: l.get_anchors() };
        audit(cx, &p, base, "loading");
        let m = handles(&p).len();
        cx.check(m == want, "an alias copies the data", || format!("{m} objects, expected {want} of {size} nodes and {n} aliases (cyclic: {cyclic})"));
        if !cyclic {
            // Without the anchors, and without the document
            let Pool { roots, anchors } = p;
            let p = Pool { roots, ..Pool::default() };
            drop(anchors);
            audit(cx, &p, base, "dropping the anchors");
        } else {
            let Pool { roots, anchors } = p;
            drop(roots);
            audit(cx, &Pool { anchors, ..Pool::default() }, base, "dropping the document");
        }
        cx.check(live() == base, "objects are alive behind the last handle", || format!("{}", live() - base));
    }
}

fn memory(cx: &mut Ctx, r: &mut Rng) {
    match r.below(4) {
        0 => documents(cx, r),
        1 => values(cx, r),
        2 => history(cx, r),
        _ => copies(cx, r),
    }
}

fn memory_fixed(cx: &mut Ctx) {
    const DOCS: &[&str] = &[
        "", "a", "&a [*a]", "&a {*a : *a}", "&a [&b [*a, *b], *b]", "- &a 1\n- &a 2\n- *a", "*x", "[*x]", "a: &a {b: *a}\nc: *a", "{a: 1, a: 2, a: 3}", "? [a]\n: &b x\n? [a]\n: *b", "%TAG !e! tag:x,\n---\n!e!a [1]\n---\n!e!b 2", "[[[[", "a: [1, 2\nb", "\"\\xZZ\"", "a\n---\n&b [*b]\n---\n*b",
        "- |\n  a\n  b\n- >-\n  c\n", "!t &a {a: !u [b]}",
    ];
    for d in DOCS {
        cx.input(d);
        for cyclic in [false, true] {
            for order in 0..4 {
                released(cx, "document (Rc)", || {
                    using::<RcRepr>(d.as_bytes(), cyclic, order);
                });
                released(cx, "document (Arc)", || {
                    using::<ArcRepr>(d.as_bytes(), cyclic, order);
                });
                released(cx, "document (user-defined)", || {
                    using::<MonRepr>(d.as_bytes(), cyclic, order);
                });
            }
        }
        released(cx, "from_str", || {
            let _ = from_str::<serde_json::Value>(d).map_err(|e| e.to_string());
            let _ = parse::<RcRepr>(d).map(|v: Seq<RcRepr>| v.len());
        });
    }
}
