//! C14, C15: what is dumped reads back as the same nodes.
use super::parse::{plant, resolve};
use crate::{core::*, model::*, render::*};
use std::collections::BTreeMap;
use yaml_peg::{
    dump,
    dumper::Dumper,
    parse, parse_cyclic,
    parser::{Anchors, Loader},
    repr::{ArcRepr, RcRepr, Repr},
    Node, Yaml,
};

const TAGGED: Cmp = Cmp { tags: true, pos: false };

pub const DUMP: Prop = Prop {
    id: "C14",
    rule: "distinct dumped texts",
    fixed: Some(dump_fixed),
    case: dump_case,
    quick: 500_000,
    thorough: 6_000_000,
    must: &["docs.many", "origin.built", "origin.parsed", "tagged", "key.complex", "str.literal", "str.quoted", "str.plain", "deep", "empty.coll", "stable"],
    stack: 16 << 20,
    assumptions: &["tags contain no white space and no angle brackets (they can not be written)", "integers and floats are those a document can hold"],
};

pub fn random_tag(r: &mut Rng) -> String {
    let pre = r.ps(&["", "", "tag:yaml.org,2002:", "tag:other:", "a/b,c:", "!", "!!", "é", "!h!"]);
    let suf = r.ps(&["str", "int", "float", "null", "map", "seq", "t", "A-b", "x1", "9", "a/b", "b%20", "c:d", "-", "#", "a#b", "&a", "*", "'", "\"", "x,", "[y]", "{", "|", "日"]);
    format!("{pre}{suf}")
}

/// The way the scalar is presented, as seen from the outside.
fn styles(cx: &mut Ctx, docs: &[N]) {
    for d in docs {
        d.walk(&mut |n| match &n.v {
            V::Str(s) if s.contains('\n') => cx.count("str.literal"),
            V::Str(s) if resolves(s).is_some() || s.is_empty() || s.chars().any(char::is_control) => cx.count("str.quoted"),
            V::Str(_) => cx.count("str.plain"),
            V::Seq(v) if v.is_empty() => cx.count("empty.coll"),
            V::Map(v) if v.is_empty() => cx.count("empty.coll"),
            V::Map(m) => m.iter().for_each(|(k, _)| {
                if k.is_coll() {
                    cx.count("key.complex")
                }
            }),
            _ => {}
        });
        let n = d.depth() as u64;
        if n > 40 {
            cx.count("deep");
        }
        if cx.counts.get("max.depth").is_none_or(|m| *m < n) {
            cx.counts.insert("max.depth".into(), n);
        }
    }
}

fn trip<R: Repr>(cx: &mut Ctx, docs: &[N], nodes: &[Node<R>], cmp: Cmp) {
    let text = dump(nodes, &[]);
    cx.input(&text);
    cx.nontrivial(&text);
    cx.check(text.ends_with('\n'), "no line break at the end", String::new);
    match parse::<R>(&text) {
        Err(e) => {
            cx.check(false, "dumped text rejected", || format!("{e}\nof {}", brief(&format!("{nodes:?}"))));
        }
        Ok(v) => {
            let d = same_docs(docs, &v, cmp);
            if !cx.check(d.is_ok(), "dumped text reads differently", || d.unwrap_err()) {
                return;
            }
            cx.check(v == nodes, "the nodes are not equal", || brief(&format!("{v:?}")));
            let again = dump(&v, &[]);
            cx.count("stable");
            cx.check(again == text, "dump of the dump differs", || again.clone());
            // A document of its own is the same text
            if v.len() == 1 {
                let one = Dumper::new(&v[0], &Anchors::new()).dump() + "\n";
                cx.check(one == text, "dumper of the only document differs", || one.clone());
            }
        }
    }
    if cx.case % 1009 == 0 {
        cx.sample(text);
    }
}

/// A chain of collections.
fn chain(r: &mut Rng, n: usize) -> N {
    let mut t: N = leaf(r, &TREE).into();
    let style = r.below(4);
    for i in 0..n {
        let seq = match style {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => r.chance(1, 2),
        };
        t = if seq {
            let mut v = vec![t];
            if r.chance(1, 5) {
                v.insert(r.below(2), leaf(r, &TREE).into());
            }
            V::Seq(v).into()
        } else {
            let k = N::str(&word(r));
            let mut m = vec![];
            if r.chance(1, 5) {
                m.push((N::str("zz first"), leaf(r, &TREE).into()));
            }
            if r.chance(1, 20) {
                m.push((t, leaf(r, &TREE).into()));
            } else {
                m.push((k, t));
            }
            if r.chance(1, 5) {
                m.push((N::str("zz last"), leaf(r, &TREE).into()));
            }
            V::Map(m).into()
        };
    }
    t
}

fn dump_case(cx: &mut Ctx, r: &mut Rng) {
    let n = *r.pick(&[1, 1, 1, 1, 2, 3, 5]);
    let tags = r.chance(1, 3);
    let mut docs = vec![];
    for _ in 0..n {
        let mut t = if r.chance(1, 60) {
            let n = r.range(10, 230);
            chain(r, n)
        } else {
            let o = TreeOpt {
                depth: r.range(1, 6),
                width: r.range(1, 6),
                nodes: *r.pick(&[4, 10, 30, 60]),
                strings: *r.pick(&[0, 1, 2, 2, 2]),
                ..TREE
            };
            let o = grow(r, o);
            tree(r, &o)
        };
        if tags {
            t.walk_mut(&mut |n| {
                if r.chance(1, 4) {
                    let t = random_tag(r);
                    if t != default_tag(&n.v) {
                        n.tag = Some(t);
                    }
                }
            });
            cx.count("tagged");
        }
        docs.push(t);
    }
    if n > 1 {
        cx.count("docs.many");
    }
    styles(cx, &docs);
    if r.chance(1, 4) && docs.iter().all(|d| d.depth() < 40) {
        // From a text
        cx.count("origin.parsed");
        docs.iter_mut().for_each(|d| d.walk_mut(&mut |n| n.tag = None));
        let st = random_style(r);
        let (doc, _) = render(r, st, vec![], &mut docs);
        cx.input(&doc);
        if let Ok(v) = parse::<RcRepr>(&doc) {
            // The texts of the numbers are kept
            let t: Vec<N> = v.iter().map(unbuild).collect();
            trip(cx, &t, &v, TAGGED);
        }
    } else if r.chance(1, 2) {
        cx.count("origin.built");
        let v: Vec<Node<RcRepr>> = docs.iter().map(build).collect();
        trip(cx, &docs, &v, TAGGED);
    } else {
        cx.count("origin.built");
        let v: Vec<Node<ArcRepr>> = docs.iter().map(build).collect();
        trip(cx, &docs, &v, TAGGED);
    }
}

fn dump_fixed(cx: &mut Ctx) {
    if !cfg!(miri) {
        for t in huge() {
            let v = [build::<RcRepr>(&t)];
            cx.count("huge");
            trip(cx, &[t], &v, TAGGED);
        }
    }
    cx.check(dump::<RcRepr>(&[], &[]).is_empty(), "dump of nothing", || dump::<RcRepr>(&[], &[]));
    // All short strings over the characters with a meaning, at all places
    let cs: Vec<char> = "a1 \n\t:-#'\"\\,[]{}&*!|>%@`?~.é\r\u{1}".chars().collect();
    let mut strs = vec![String::new()];
    for a in &cs {
        strs.push(a.to_string());
        for b in &cs {
            strs.push([*a, *b].iter().collect());
            for c in &cs {
                strs.push([*a, *b, *c].iter().collect());
            }
        }
    }
    for s in ["null", "true", "~", "0x1", "0o7", "1e5", ".inf", ".nan", "-.inf", "---", "...", "a: b", "- a", "? a", "<<", "\u{FEFF}", "\u{85}", "\u{2028}"] {
        for (a, b) in [("", ""), (" ", ""), ("", " "), ("", "\n"), ("\n", ""), ("a\n", ""), ("", "\na"), ("a ", ""), ("", "a")] {
            strs.push(format!("{a}{s}{b}"));
        }
    }
    for s in &strs {
        let n = || N::str(s);
        let one: N = V::Int(1).into();
        for d in [
            vec![n()],
            vec![n(), n()],
            vec![V::Seq(vec![n(), one.clone(), V::Seq(vec![n()]).into()]).into()],
            vec![V::Map(vec![(n(), n()), (N::str("zz zz"), n())]).into()],
            vec![V::Map(vec![(V::Seq(vec![n()]).into(), V::Seq(vec![V::Map(vec![(n(), one.clone())]).into()]).into())]).into()],
        ] {
            let v: Vec<Node<RcRepr>> = d.iter().map(build).collect();
            trip(cx, &d, &v, TAGGED);
        }
    }
    cx.count("fixed");
    // All scalars of one character
    for c in (0..0x3000u32).chain([0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]) {
        let Some(c) = char::from_u32(c) else { continue };
        let d = vec![V::Seq(vec![N::str(&c.to_string()), N::str(&format!("a{c}b")), N::str(&format!("{c}a\n{c}{c}b\n"))]).into()];
        let v: Vec<Node<RcRepr>> = d.iter().map(build).collect();
        trip(cx, &d, &v, TAGGED);
    }
}

// -------------------------------------------------------------------- anchors

pub const ANCHORS: Prop = Prop {
    id: "C15",
    rule: "distinct dumped texts with at least one anchor",
    fixed: Some(anchors_fixed),
    case: anchors_case,
    quick: 250_000,
    thorough: 3_000_000,
    must: &["anchors", "aliases", "aliases.key", "forward", "self", "docs.many", "plain.same", "cyclic.same", "expanded", "tagged"],
    stack: 16 << 20,
    assumptions: &["the anchors are the ones returned with the nodes by the loader", "names of anchors consist of ASCII alphanumerics and `-`"],
};

/// Aliases to any anchor of the document: later ones, or the own parents.
fn plant_any(r: &mut Rng, n: &mut N, names: &[String], used: &mut usize) {
    match &mut n.v {
        V::Seq(v) => v.iter_mut().for_each(|n| plant_any(r, n, names, used)),
        V::Map(m) => m.iter_mut().for_each(|(_, v)| plant_any(r, v, names, used)),
        _ if n.anchor.is_none() && r.chance(1, 3) => {
            *n = V::Alias(r.pick(names).clone()).into();
            *used += 1;
        }
        _ => {}
    }
}

fn names(n: &N) -> Vec<String> {
    let mut v = vec![];
    n.walk(&mut |n| v.extend(n.anchor.clone()));
    v
}

/// Anchors and aliases of a dumped text in the order of their appearance.
fn marks(text: &str) -> Vec<(bool, String)> {
    let mut out = vec![];
    let b = text.as_bytes();
    let is_id = |c: &u8| c.is_ascii_alphanumeric() || *c == b'-';
    for (i, c) in b.iter().enumerate() {
        let front = i == 0 || matches!(b[i - 1], b' ' | b'\n');
        if matches!(c, b'&' | b'*') && front {
            let n = b[i + 1..].iter().take_while(|c| is_id(c)).count();
            if n > 0 {
                out.push((*c == b'&', text[i + 1..i + 1 + n].to_string()));
            }
        }
    }
    out
}

fn same_anchors<R: Repr>(cx: &mut Ctx, a: &[Anchors<R>], b: &[Anchors<R>]) {
    let ok = a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.keys().eq(b.keys()));
    if !cx.check(ok, "other anchors", || {
        format!("{:?}, expected {:?}", b.iter().map(|a| a.keys().collect::<Vec<_>>()).collect::<Vec<_>>(), a.iter().map(|a| a.keys().collect::<Vec<_>>()).collect::<Vec<_>>())
    }) {
        return;
    }
    for (a, b) in a.iter().zip(b) {
        for (k, n) in a {
            let d = same(&unbuild(n), &b[k], TAGGED);
            cx.check(d.is_ok(), "anchor of another node", || format!("&{k}: {}", d.unwrap_err()));
        }
    }
}

/// The anchors of the table are the objects of the tree.
fn identities<R: Repr>(y: &Node<R>, anchors: &Anchors<R>) -> BTreeMap<String, usize> {
    fn go<R: Repr>(y: &Node<R>, f: &mut dyn FnMut(&Node<R>)) {
        f(y);
        match y.yaml() {
            Yaml::Seq(v) => v.iter().for_each(|n| go(n, f)),
            Yaml::Map(m) => m.iter().for_each(|(k, v)| {
                go(k, f);
                go(v, f);
            }),
            _ => {}
        }
    }
    let mut m = BTreeMap::new();
    go(y, &mut |n| {
        for (k, a) in anchors {
            if std::ptr::eq(a.yaml(), n.yaml()) {
                *m.entry(k.clone()).or_default() += 1;
            }
        }
    });
    m
}

fn anchors_case(cx: &mut Ctx, r: &mut Rng) {
    let o = TreeOpt { nodes: *r.pick(&[6, 12, 25]), strings: *r.pick(&[0, 0, 1, 2]), ..TREE };
    let o = grow(r, o);
    let forward = r.chance(1, 3);
    let tags = r.chance(1, 4);
    let mut docs = vec![];
    let mut exp = vec![];
    let mut total = 0;
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let mut t = if r.chance(1, 12) { tree(r, &o) } else { coll(r, &o) };
        let (mut next, mut done, mut n) = (0, vec![], 0);
        plant(r, &mut t, false, &mut next, &mut done, &mut n);
        if forward {
            if t.anchor.is_none() && r.chance(1, 2) {
                t.anchor = Some("root".into());
                cx.count("self");
            }
            let names = names(&t);
            if !names.is_empty() {
                plant_any(r, &mut t, &names, &mut n);
                cx.count("forward");
            }
        }
        if tags {
            t.walk_mut(&mut |n| {
                if !matches!(n.v, V::Alias(_)) && r.chance(1, 5) {
                    let p = r.ps(&["", "tag:yaml.org,2002:"]);
                    let s = r.ps(&["t", "A-b", "x1", "9", "str"]);
                    n.tag = Some(format!("{p}{s}"));
                }
            });
            cx.count("tagged");
        }
        match resolve(&t, &mut BTreeMap::new(), &mut 3000) {
            Some(e) => exp.push(e),
            None if forward => {}
            None => {
                cx.count("skipped.collision");
                return;
            }
        }
        let mut coll = false;
        t.walk(&mut |n| {
            if let V::Map(m) = &n.v {
                coll |= (0..m.len()).any(|i| has_key(&m[..i], &m[i].0));
                cx.add("aliases.key", m.iter().filter(|(k, _)| matches!(k.v, V::Alias(_))).count() as u64);
            }
        });
        if coll {
            cx.count("skipped.collision");
            return;
        }
        total += names(&t).len();
        cx.add("aliases", n as u64);
        docs.push(t);
    }
    cx.add("anchors", total as u64);
    if docs.len() > 1 {
        cx.count("docs.many");
    }
    let st = random_style(r);
    let (doc, _) = render(r, st, vec![], &mut docs);
    cx.input(&doc);
    anchors_of(cx, &doc, &docs, (exp.len() == docs.len()).then_some(&exp[..]));
}

fn anchors_of(cx: &mut Ctx, doc: &str, docs: &[N], exp: Option<&[N]>) {
    let Ok((v, anchors)) = parse_cyclic::<RcRepr>(doc) else {
        // Decided by another property
        cx.count("skipped.rejected");
        return;
    };
    if same_docs(docs, &v, TAGGED).is_err() {
        cx.count("skipped.other");
        return;
    }
    let text = dump(&v, &anchors);
    cx.input(&format!("{doc}\n=====\n{text}"));
    if anchors.iter().any(|a| !a.is_empty()) {
        cx.nontrivial(&text);
    }
    match parse_cyclic::<RcRepr>(&text) {
        Err(e) => {
            cx.check(false, "dumped text rejected (cyclic)", || format!("{e}"));
        }
        Ok((w, anchors2)) => {
            cx.count("cyclic.same");
            let d = same_docs(docs, &w, TAGGED);
            cx.check(d.is_ok(), "dumped text reads differently (cyclic)", || d.unwrap_err());
            same_anchors(cx, &anchors, &anchors2);
            for (i, (v, w)) in v.iter().zip(&w).enumerate() {
                if let (Some(a), Some(b)) = (anchors.get(i), anchors2.get(i)) {
                    let (a, b) = (identities(v, a), identities(w, b));
                    cx.check(a == b, "anchored objects differ", || format!("{b:?}, expected {a:?}"));
                }
            }
            cx.check(dump(&w, &anchors2) == text, "dump of the dump differs", || dump(&w, &anchors2));
        }
    }
    // Once, and in front of the use
    let plain = docs.iter().all(|d| {
        let mut ok = true;
        d.walk(&mut |n| ok &= !matches!(&n.v, V::Str(s) if s.contains(['&', '*', '\n'])));
        ok
    });
    if plain {
        for part in format!("\n{text}").split("\n---\n") {
            let m = marks(part);
            let mut seen = vec![];
            for (def, name) in m {
                if def {
                    cx.check(!seen.contains(&name), "anchor defined again", || name.clone());
                    seen.push(name);
                } else if exp.is_some() {
                    cx.check(seen.contains(&name), "alias in front of its anchor", || name.clone());
                }
            }
            cx.count("order");
        }
    }
    let Some(exp) = exp else {
        // The original can not be read without the placeholders, either
        cx.check(parse::<RcRepr>(&text).is_err() == parse::<RcRepr>(doc).is_err(), "only one of the texts is accepted", String::new);
        return;
    };
    match parse::<RcRepr>(&text) {
        Err(e) => {
            cx.check(false, "dumped text rejected", || format!("{e}"));
        }
        Ok(w) => {
            cx.count("plain.same");
            let d = same_docs(exp, &w, TAGGED);
            cx.check(d.is_ok(), "dumped text has other values", || d.unwrap_err());
        }
    }
    // The aliases are expanded, but the anchors are recorded
    let mut l = Loader::<ArcRepr>::new(doc.as_bytes());
    let Ok(v) = l.parse() else {
        cx.check(false, "valid document rejected", String::new);
        return;
    };
    let anchors = l.get_anchors();
    let text = dump(&v, &anchors);
    cx.input(&format!("{doc}\n=====\n{text}"));
    cx.count("expanded");
    match parse::<ArcRepr>(&text) {
        Err(e) => {
            cx.check(false, "dumped text rejected (expanded)", || format!("{e}"));
        }
        Ok(w) => {
            let d = same_docs(exp, &w, TAGGED);
            cx.check(d.is_ok(), "dumped text has other values (expanded)", || d.unwrap_err());
            let mut l = Loader::<ArcRepr>::new(text.as_bytes());
            if l.parse().is_ok() {
                same_anchors(cx, &anchors, &l.get_anchors());
            }
        }
    }
}

fn anchors_fixed(cx: &mut Ctx) {
    let a = |n: N, a: &str| N { anchor: Some(a.into()), ..n };
    let alias = |a: &str| -> N { V::Alias(a.into()).into() };
    let leafs: Vec<N> = vec![V::Null.into(), V::Bool(true).into(), V::Int(1).into(), V::Float(1.5).into(), N::str("x"), N::str(""), N::str("a\nb\n"), V::Seq(vec![]).into(), V::Map(vec![]).into(), V::Seq(vec![N::str("i")]).into(), V::Map(vec![(N::str("k"), N::str("v"))]).into(), V::Seq(vec![V::Seq(vec![V::Int(1).into()]).into()]).into()];
    // Every kind with an anchor at every place, used at every place
    for l in &leafs {
        let x = || a(l.clone(), "A1");
        for t in [
            x(),
            V::Seq(vec![x(), alias("A1")]).into(),
            V::Seq(vec![V::Seq(vec![x(), alias("A1")]).into(), alias("A1")]).into(),
            V::Map(vec![(N::str("p"), x()), (N::str("q"), alias("A1"))]).into(),
            V::Map(vec![(x(), N::str("q")), (N::str("r"), alias("A1"))]).into(),
            V::Map(vec![(N::str("p"), x()), (V::Seq(vec![alias("A1")]).into(), alias("A1"))]).into(),
            V::Seq(vec![x(), V::Map(vec![(alias("A1"), alias("A1")), (N::str("s"), a(N::str("t"), "A2"))]).into(), alias("A2")]).into(),
            V::Map(vec![(V::Map(vec![(N::str("p"), x())]).into(), V::Seq(vec![alias("A1"), alias("A1")]).into())]).into(),
        ] {
            let mut d = [t];
            let Some(e) = resolve(&d[0], &mut BTreeMap::new(), &mut 3000) else { continue };
            let mut r = Rng::new(7);
            let (doc, _) = render(&mut r, PLAIN, vec![], &mut d);
            anchors_of(cx, &doc, &d, Some(&[e]));
        }
    }
    // The anchors belong to their document
    for doc in ["--- &a x\n--- [y]\n--- &a z\n", "- &a 1\n---\n- 1\n- &a 2\n- *a\n", "--- &a\n--- null\n"] {
        cx.input(doc);
        let Ok((v, anchors)) = parse_cyclic::<RcRepr>(doc) else {
            cx.check(false, "valid document rejected", String::new);
            continue;
        };
        let text = dump(&v, &anchors);
        let Ok((w, anchors2)) = parse_cyclic::<RcRepr>(&text) else {
            cx.check(false, "dumped text rejected (cyclic)", || text.clone());
            continue;
        };
        cx.check(v == w, "dumped text reads differently (cyclic)", || text.clone());
        same_anchors(cx, &anchors, &anchors2);
        // Fewer tables than documents
        let text = dump(&v, &anchors[..1]);
        cx.check(text.matches('&').count() == anchors[0].len(), "anchors of another document", || text.clone());
        cx.check(matches!(parse_cyclic::<RcRepr>(&text), Ok((w, _)) if v == w), "dumped text reads differently (cyclic)", || text.clone());
    }
}
