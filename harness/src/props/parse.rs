//! Parsing: structure, plain scalars, aliases, streams, tags, positions.
use super::ctxt::{at, place, PLACES};
use crate::{core::*, model::*, render::*};
use std::{collections::BTreeMap, rc::Rc};
use yaml_peg::{parse, parse_cyclic, repr::RcRepr, Node, NodeRc, Yaml};

const RENDER_ASSUME: &[&str] = &[
    "the documents are written by the reference renderer: forms outside of its language (comments and line breaks behind properties inside of flow collections, indentation indicators, block scalar headers on an own line, compact maps behind `?`) are not decided here",
];

/// A tree in a random presentation.
fn gen(r: &mut Rng) -> N {
    if r.chance(1, 4) {
        // Deep structure of small leaves
        let o = TreeOpt { depth: 9, width: 4, nodes: 60, strings: 0, ..TREE };
        tree(r, &o)
    } else {
        {
        let o = grow(r, TREE);
        tree(r, &o)
    }
    }
}

fn used(cx: &mut Ctx, u: &[&'static str]) {
    for u in u {
        cx.count(&format!("use.{u}"));
    }
}

/// The documents of `huge` in some presentations.
fn huge_docs(cx: &mut Ctx, c: Cmp, sig: &str) {
    if cfg!(miri) {
        return;
    }
    let r = &mut Rng::new(1);
    for t in huge() {
        for i in 0..5 {
            let st = match i {
                0 => crate::render::PLAIN,
                1 => Style { block: false, flow: true, ..crate::render::PLAIN },
                2 => Style { multiline: true, escapes: true, ..crate::render::PLAIN },
                _ => random_style(r),
            };
            let mut t = [t.clone()];
            let (doc, _) = render(r, st, vec![], &mut t);
            cx.count("huge");
            expect(cx, &doc, &t, c, sig);
        }
    }
    // Wide indentation, many comments and blank lines, many digits
    let n = 66_000;
    let pair = |k: &str, v: N| (N::str(k), v);
    let ind = " ".repeat(n);
    let mut inner: N = V::Map(vec![pair("b", N::str("x")), pair("c", V::Seq(vec![N::str("y"), N::str("z")]).into())]).into();
    inner.pos = None;
    let t: N = V::Map(vec![pair("a", inner), pair("d", N::str("e"))]).into();
    for (doc, t) in [
        (format!("a:\n{ind}b: x\n{ind}c:\n{ind}- y\n{ind}- z\nd: e\n"), t.clone()),
        (format!("a:\n{ind}b: x\n{ind}c:\n{ind}{ind}- y\n{ind}{ind}- z\nd: e\n"), t.clone()),
        (format!("a:{ind}\n  b:{ind}x{ind}\n  c{ind}:{ind}#{ind}\n  -{ind}y\n  -{ind}z\nd:{ind}e"), t.clone()),
        (format!("{0}a:\n{0}  b: x\n{0}  c:\n{0}  - y\n{0}  - z\n{0}d: e\n", "# c\n".repeat(n)), t.clone()),
        (format!("{0}a:\n{0}  b: x\n{0}  c:\n{0}  - y\n{0}  - z\n{0}d: e\n", "\n".repeat(n)), t.clone()),
        (format!("{{{0}a:{0}{{{0}b:{0}x{0},{0}c:{0}[{0}y{0},{0}z{0}]{0}}}{0},{0}d{0}:{0}e{0}}}", "\n".repeat(n / 10)), t.clone()),
    ] {
        cx.count("huge");
        expect(cx, &doc, &[t], Cmp { pos: false, ..c }, sig);
    }
}

fn structure_fixed(cx: &mut Ctx) {
    huge_docs(cx, VAL, "structure differs");
    depths(cx);
}

/// One node in many levels, up to the supported depth.
fn depths(cx: &mut Ctx) {
    let r = &mut Rng::new(7);
    let mut ns: Vec<usize> = vec![7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 199, 200, 201, 240, 250];
    if cfg!(miri) {
        ns.truncate(4);
    }
    for n in ns {
        for kind in 0..8 {
            let mut t = N::str("x");
            let (mut pre, mut post) = (String::new(), String::new());
            for i in 0..n {
                let k = match kind {
                    6 => i % 3,
                    7 => r.below(3),
                    k => k,
                };
                t = match k {
                    0 | 3 => V::Seq(vec![t]).into(),
                    1 => V::Map(vec![(N::str("k"), t)]).into(),
                    2 => V::Seq(vec![V::Map(vec![(N::str("k"), t)]).into()]).into(),
                    4 => V::Map(vec![(N::str("k"), t)]).into(),
                    _ => V::Map(vec![(N::str("k"), V::Seq(vec![t]).into())]).into(),
                };
                // Written from the inner to the outer level
                match k {
                    0 => {
                        pre.insert(0, '[');
                        post.push(']');
                    }
                    1 => {
                        pre.insert_str(0, "{k: ");
                        post.push('}');
                    }
                    2 => {
                        pre.insert_str(0, "[k: ");
                        post.push(']');
                    }
                    3 => pre.insert_str(0, "- "),
                    _ => {}
                }
            }
            // A pair in a sequence is two levels
            if matches!(kind, 2 | 5 | 6 | 7) && n > 120 {
                continue;
            }
            match kind {
                4 => {
                    for i in 0..n {
                        pre.push_str(&format!("{}k:\n", " ".repeat(i)));
                    }
                    pre.push_str(&" ".repeat(n));
                }
                5 => {
                    for i in 0..n {
                        pre.push_str(&format!("{0}k:\n{0}- ", " ".repeat(2 * i)).trim_start_matches(if i > 0 { ' ' } else { '\n' }));
                    }
                }
                _ => {}
            }
            cx.count("depths");
            expect(cx, &format!("{pre}x{post}"), &[t.clone()], VAL, "structure differs");
            expect(cx, &format!("a: b\nc:\n  {}x{post}\nd: e", if kind == 4 || kind == 5 { pre.replace('\n', "\n  ") } else { pre }), &[V::Map(vec![(N::str("a"), N::str("b")), (N::str("c"), t), (N::str("d"), N::str("e"))]).into()], VAL, "structure differs");
        }
    }
}

/// Parse and compare.
fn expect(cx: &mut Ctx, doc: &str, exp: &[N], c: Cmp, sig: &str) {
    cx.input(doc);
    match parse::<RcRepr>(doc) {
        Err(e) => {
            cx.check(false, "valid document rejected", || format!("{e}"));
        }
        Ok(v) => {
            let d = same_docs(exp, &v, c);
            cx.check(d.is_ok(), sig, || d.unwrap_err());
        }
    }
}

// ------------------------------------------------------------------ C02

pub const STRUCTURE: Prop = Prop {
    id: "C02",
    rule: "distinct shapes of nested trees (kinds of all nodes, without leaf contents) of more than three nodes together with the styles they were written in",
    fixed: Some(structure_fixed),
    case: structure,
    quick: 900_000,
    thorough: 4_000_000,
    must: &[
        "use.block.seq", "use.block.map", "use.flow.seq", "use.flow.map", "use.block.compact", "use.key.explicit", "use.key.flow",
        "use.flow.explicit", "use.flow.break", "use.null.empty", "use.literal", "use.folded", "use.single", "use.double", "use.plain",
        "use.plain.fold", "use.plain.lines", "use.doc.inline", "use.flow.empty", "use.flow.pair", "use.key.alone", "use.block.compact.explicit",
        "huge", "depths", "use.tab", "use.far", "use.next-line", "use.block.compact.wide", "use.root.indent",
    ],
    stack: 16 << 20,
    assumptions: RENDER_ASSUME,
};

fn structure(cx: &mut Ctx, r: &mut Rng) {
    let mut t = gen(r);
    let st = random_style(r);
    let (doc, u) = render(r, st, vec![], std::slice::from_mut(&mut t));
    used(cx, &u);
    cx.add("nodes", t.size() as u64);
    expect(cx, &doc, std::slice::from_ref(&t), VAL, "structure differs");
    if t.size() > 3 {
        let mut s = String::new();
        t.shape(&mut s);
        let mut u = u;
        u.sort();
        u.dedup();
        cx.nontrivial(&(s, u));
    }
    if cx.case % 101 == 0 {
        cx.sample(doc);
    }
}

// ------------------------------------------------------------------ C03

pub const PLAIN: Prop = Prop {
    id: "C03",
    rule: "distinct (text, place) pairs of one-line plain scalars",
    fixed: Some(plain_fixed),
    case: plain,
    quick: 1_500_000,
    thorough: 12_000_000,
    must: &["kind.null", "kind.bool", "kind.int", "kind.float", "kind.str", "enumerated"],
    stack: 16 << 20,
    assumptions: &["texts starting with `+` or `.` followed by a digit are not generated: YAML versions disagree and the crate reads strings"],
};

fn plain_one(cx: &mut Ctx, text: &str, p: &super::ctxt::Place) {
    let exp = resolves(text).unwrap_or_else(|| V::Str(text.to_string()));
    if matches!(exp, V::Int(i128::MAX)) {
        return;
    }
    cx.count(&format!("kind.{}", N::from(exp.clone()).kind()));
    let doc = format!("{}{text}{}", p.pre, p.post);
    cx.input(&doc);
    cx.nontrivial(&(text, p.name));
    match parse::<RcRepr>(&doc) {
        Err(e) => {
            cx.check(false, "plain scalar rejected", || format!("{text:?} in {}: {e}", p.name));
        }
        Ok(v) => {
            let Some(n) = at(&v, p.path) else {
                cx.check(false, "plain scalar not found", || format!("{text:?} in {}: {v:?}", p.name));
                return;
            };
            let d = same(&exp.into(), n, Cmp { tags: true, pos: false });
            cx.check(d.is_ok(), "plain scalar resolved wrong", || format!("{text:?} in {}: {}", p.name, d.unwrap_err()));
        }
    }
}

fn plain_text_ok(s: &str) -> bool {
    let mut c = s.chars();
    let (Some(a), b) = (c.next(), c.next()) else { return false };
    !(a == '+' || (a == '.' && b.is_some_and(|b| b.is_ascii_digit())))
        && !s.starts_with("-.0") 
        && !(s.starts_with("-.") && s[2..].starts_with(|c: char| c.is_ascii_digit()))
        && s != "-"
        && !(s.starts_with("---") || s.starts_with("..."))
}

/// All texts up to 4 characters (quick: 3) of the number alphabet, and all
/// the words of the schema with one edit.
fn plain_fixed(cx: &mut Ctx) {
    const A: &[u8] = b"0178.-eExoaF_";
    let depth = if cx.tier == Tier::Thorough { 5 } else { 4 };
    let mut level: Vec<String> = vec![String::new()];
    let mut n = 0usize;
    for _ in 0..depth {
        let mut next = vec![];
        for s in &level {
            for c in A {
                let mut t = s.clone();
                t.push(*c as char);
                next.push(t);
            }
        }
        for t in &next {
            if plain_text_ok(t) {
                n += 1;
                cx.count("enumerated");
                plain_one(cx, t, &PLACES[n % PLACES.len()]);
            }
        }
        level = next;
    }
    const W: &[&str] = &[
        "~", "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE", ".nan", ".NaN", ".NAN", ".inf", ".Inf", ".INF",
        "-.inf", "-.Inf", "-.INF", "0x1F", "0o17", "-12", "1.5", "1e5", "-1.5E-3", "1.", "0", "-0", "00", "1.0", "1.00",
    ];
    let mut all: Vec<String> = vec![];
    for w in W {
        all.push(w.to_string());
        all.push(w.to_uppercase());
        all.push(w.to_lowercase());
        for i in 0..=w.len() {
            for c in "0a.-e_x~ ".chars() {
                let mut s = w.to_string();
                s.insert(i, c);
                all.push(s);
            }
            if i < w.len() {
                let mut s = w.to_string();
                s.remove(i);
                all.push(s);
                let mut s = w.to_string();
                let c = s.remove(i);
                s.insert(i, if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
                all.push(s);
            }
        }
    }
    for w in all {
        if plain_text_ok(&w) && plain_ok_text(&w) {
            for p in PLACES {
                plain_one(cx, &w, p);
            }
        }
    }
}

/// The same as `plain_ok` without the resolution and the leading indicators.
fn plain_ok_text(s: &str) -> bool {
    !s.is_empty() && s.trim() == s && !s.starts_with("- ") && !s.contains(" #") && !s.contains(": ")
}

fn plain(cx: &mut Ctx, r: &mut Rng) {
    let p = place(r, |_| true);
    let text = loop {
        let s = match r.below(8) {
            0 => {
                let i = int(r, true);
                if i >= 0 && r.chance(1, 2) {
                    if r.chance(1, 2) { format!("0x{i:x}") } else { format!("0o{i:o}") }
                } else {
                    i.to_string()
                }
            }
            1 | 2 => {
                let f = float(r);
                if !f.is_finite() {
                    continue;
                }
                match r.below(4) {
                    0 => format!("{f:e}"),
                    1 => format!("{f:?}"),
                    2 => format!("{f:.3}"),
                    _ => format!("{f:E}"),
                }
            }
            3 | 4 => {
                // Numbers with an edit
                let mut s: Vec<char> = match r.below(4) {
                    0 => int(r, false).to_string(),
                    1 => format!("{:?}", float(r)),
                    2 => format!("0x{:X}", r.below(100000)),
                    _ => format!("0o{:o}", r.below(100000)),
                }
                .chars()
                .collect();
                let i = r.below(s.len() + 1);
                s.insert(i, *r.pick(&['.', '-', 'e', 'x', 'o', '_', '0', '9', 'f', ' ', 'é', ',', '/', '\'', '"', '%', '!', '&', '*', '=']));
                s.into_iter().collect()
            }
            5 => string(r, 1),
            _ => {
                let s = string(r, 2);
                if s.contains('\n') {
                    continue;
                }
                s
            }
        };
        if !plain_text_ok(&s) || !plain_ok_text(&s) || (p.flow && s.contains([',', '[', ']', '{', '}', ':'])) {
            continue;
        }
        if resolves(&s).is_some() || plain_ok(&s, p.flow) || (s.starts_with('-') && !s.starts_with("- ") && plain_ok(&s[1..], p.flow)) {
            break s;
        }
    };
    plain_one(cx, &text, p);
    if cx.case % 1001 == 0 {
        let s = cx.input.clone();
        cx.sample(s);
    }
}

// ------------------------------------------------------------------ C06

pub const ALIAS: Prop = Prop {
    id: "C06",
    rule: "distinct documents with at least one alias",
    fixed: Some(alias_fixed),
    case: alias,
    quick: 300_000,
    thorough: 2_000_000,
    must: &["aliases", "aliases.key", "alias.nested", "anchors", "rejected.undefined", "rejected.duplicate", "cyclic.docs", "shared", "renamed.undefined", "renamed.defined", "renamed.duplicate"],
    stack: 16 << 20,
    assumptions: RENDER_ASSUME,
};

/// Put anchors and aliases into the tree, in document order.
pub fn plant(r: &mut Rng, n: &mut N, key: bool, next: &mut usize, done: &mut Vec<String>, aliases: &mut usize) {
    if !done.is_empty() && !n.is_coll() && r.chance(1, if key { 12 } else { 3 }) {
        let a = r.pick(done).clone();
        *n = V::Alias(a).into();
        *aliases += 1;
        return;
    }
    let a = if r.chance(1, 4) {
        *next += 1;
        Some(if r.chance(1, 3) {
            format!("{}-{next}{}", ident(r), r.ps(&["", "", "-", "--"]))
        } else {
            format!("{}{next}", r.ps(&["a", "b", "x-", "Anchor", "0"]))
        })
    } else {
        None
    };
    match &mut n.v {
        V::Seq(v) => v.iter_mut().for_each(|n| plant(r, n, false, next, done, aliases)),
        V::Map(m) => m.iter_mut().for_each(|(k, v)| {
            plant(r, k, true, next, done, aliases);
            plant(r, v, false, next, done, aliases);
        }),
        _ => {}
    }
    if let Some(a) = a {
        n.anchor = Some(a.clone());
        done.push(a);
    }
}

/// Replace the aliases, `None` if the keys collide or the tree becomes huge.
pub fn resolve(n: &N, env: &mut BTreeMap<String, N>, left: &mut i64) -> Option<N> {
    let v = match &n.v {
        V::Alias(a) => {
            let mut t = env.get(a).cloned()?;
            *left -= t.size() as i64;
            if *left < 0 {
                return None;
            }
            // The alias is another node, with its own properties
            t.tag = None;
            t.anchor = None;
            t.pos = n.pos;
            return Some(t);
        }
        V::Seq(v) => V::Seq(v.iter().map(|n| resolve(n, env, left)).collect::<Option<_>>()?),
        V::Map(m) => {
            let mut out: Vec<(N, N)> = vec![];
            for (k, v) in m {
                let k = resolve(k, env, left)?;
                let v = resolve(v, env, left)?;
                if has_key(&out, &k) {
                    return None;
                }
                out.push((k, v));
            }
            V::Map(out)
        }
        v => v.clone(),
    };
    let t = N { v, ..n.clone() };
    if let Some(a) = &n.anchor {
        env.insert(a.clone(), t.clone());
    }
    Some(t)
}

fn find<'a>(y: &'a NodeRc, f: &mut dyn FnMut(&'a NodeRc)) {
    f(y);
    match y.yaml() {
        Yaml::Seq(v) => v.iter().for_each(|n| find(n, f)),
        Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            find(k, f);
            find(v, f);
        }),
        _ => {}
    }
}

fn alias(cx: &mut Ctx, r: &mut Rng) {
    let o = TreeOpt { nodes: 25, strings: if r.chance(1, 3) { 2 } else { 0 }, ..TREE };
    let o = grow(r, o);
    let mut docs = vec![];
    let mut exp = vec![];
    let mut envs = vec![];
    let mut total = 0;
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let mut t = coll(r, &o);
        let (mut next, mut done, mut n) = (0, vec![], 0);
        plant(r, &mut t, false, &mut next, &mut done, &mut n);
        let mut env = BTreeMap::new();
        let Some(e) = resolve(&t, &mut env, &mut 3000) else {
            cx.count("skipped.collision");
            return;
        };
        total += n;
        cx.add("anchors", done.len() as u64);
        exp.push(e);
        envs.push(env);
        docs.push(t);
    }
    cx.add("aliases", total as u64);
    for d in &docs {
        d.walk(&mut |n| {
            if let V::Map(m) = &n.v {
                cx.add("aliases.key", m.iter().filter(|(k, _)| matches!(k.v, V::Alias(_))).count() as u64);
            }
        });
    }
    let mut st = random_style(r);
    if r.chance(1, 3) {
        st.comments = false;
    }
    let (doc, u) = render(r, st, vec![], &mut docs);
    used(cx, &u);
    if total > 0 {
        cx.nontrivial(&doc);
    }
    expect(cx, &doc, &exp, VAL, "alias is not the anchored value");
    // Shared value
    if let Ok(v) = parse::<RcRepr>(&doc) {
        for (d, y) in docs.iter().zip(&v) {
            share(cx, d, y, &mut BTreeMap::new());
        }
    }
    // With placeholders
    match parse_cyclic::<RcRepr>(&doc) {
        Err(e) => {
            cx.check(false, "valid document rejected (cyclic)", || format!("{e}"));
        }
        Ok((v, anchors)) => {
            cx.count("cyclic.docs");
            let d = same_docs(&docs, &v, VAL);
            cx.check(d.is_ok(), "alias placeholder differs", || d.unwrap_err());
            cx.check(anchors.len() == v.len(), "anchors of the documents", || format!("{} of {}", anchors.len(), v.len()));
            for (i, (a, d)) in anchors.iter().zip(&docs).enumerate() {
                let mut want = BTreeMap::new();
                d.walk(&mut |n| {
                    if let Some(a) = &n.anchor {
                        want.insert(a.clone(), n.clone());
                    }
                });
                let ok = a.keys().eq(want.keys());
                cx.check(ok, "recorded anchors differ", || {
                    format!("doc {i}: {:?}, expected {:?}", a.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>())
                });
                for (k, n) in want {
                    if let Some(y) = a.get(&k) {
                        let d = same(&n, y, VAL);
                        cx.check(d.is_ok(), "recorded anchor is another node", || format!("&{k}: {}", d.unwrap_err()));
                    }
                }
            }
        }
    }
    // Another name at a place of the document
    let i = r.below(docs.len());
    let mut other = docs.clone();
    let mut names: Vec<String> = envs.iter().flat_map(|e| e.keys().cloned()).collect();
    names.push("undefined".into());
    let name = variant(r, &names);
    let mut left = r.below(12);
    if replace(&mut other[i], &mut |n| {
        left = left.wrapping_sub(1);
        if left == usize::MAX {
            *n = V::Alias(name.clone()).into();
        }
        left == usize::MAX
    }) {
        let exp: Vec<Option<N>> = other.iter().map(|d| resolve(d, &mut BTreeMap::new(), &mut 100_000)).collect();
        let (doc, _) = render(r, st.clone(), vec![], &mut other);
        match exp.into_iter().collect::<Option<Vec<_>>>() {
            None => {
                rejected(cx, &doc, "rejected.undefined");
                cyclic_ok(cx, &doc);
                cx.count("renamed.undefined");
            }
            Some(exp) => {
                expect(cx, &doc, &exp, VAL, "alias is not the anchored value");
                cx.count("renamed.defined");
            }
        }
    }
    // The same anchor at two places
    if let Some(name) = envs[i].keys().nth(r.below(envs[i].len().max(1))) {
        let mut other = docs.clone();
        let mut left = r.below(12);
        if replace(&mut other[i], &mut |n| {
            if n.anchor.is_some() {
                return false;
            }
            left = left.wrapping_sub(1);
            if left == usize::MAX {
                n.anchor = Some(name.clone());
            }
            left == usize::MAX
        }) {
            let (doc, _) = render(r, st, vec![], &mut other);
            rejected(cx, &doc, "rejected.duplicate");
            let res = parse_cyclic::<RcRepr>(&doc);
            cx.check(res.is_err(), "accepted: duplicate (cyclic)", || format!("{res:?}"));
            cx.count("renamed.duplicate");
        }
    }
    // An alias of an anchor that is not defined (yet)
    let bad = r.ps(&["zz", "undefined", "Z-9", "a"]);
    let docs2 = [format!("- *{bad}\n- &{bad} 1\n"), format!("k: &{bad} [*{bad}]\n"), format!("--- &{bad} 1\n---\n- *{bad}\n"), format!("{{a: *{bad} }}")];
    let i = r.below(docs2.len());
    rejected(cx, &docs2[i], "rejected.undefined");
    if i != 2 {
        cyclic_ok(cx, &docs2[i]);
    }
    let docs2 = [
        format!("- &{bad} 1\n- &{bad} 2\n"),
        format!("a: &{bad}\n  b: &{bad} 2\n"),
        format!("[&{bad} a, {{b: &{bad} c}}]"),
        format!("- &{bad} &x 2\n"),
    ];
    let i = r.below(docs2.len());
    rejected(cx, &docs2[i], "rejected.duplicate");
    if cx.case % 101 == 0 {
        cx.sample(doc);
    }
}

/// A name like the others.
fn variant(r: &mut Rng, names: &[String]) -> String {
    let mut s = r.pick(names).clone();
    match r.below(6) {
        0 => s.push_str(r.ps(&["0", "a", "-", "1"])),
        1 if s.len() > 1 => {
            s.pop();
        }
        2 => s = s.chars().map(|c| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        3 => s.insert(0, *r.pick(&['a', '0', 'b'])),
        _ => {}
    }
    s
}

/// Change a scalar that is a value (not a part of a key).
fn replace(n: &mut N, f: &mut dyn FnMut(&mut N) -> bool) -> bool {
    match &mut n.v {
        V::Seq(v) => v.iter_mut().any(|n| replace(n, f)),
        V::Map(m) => m.iter_mut().any(|(_, n)| replace(n, f)),
        V::Alias(_) => false,
        _ => f(n),
    }
}

/// The value of an alias is the same object as the anchored one.
fn share(cx: &mut Ctx, n: &N, y: &NodeRc, env: &mut BTreeMap<String, NodeRc>) {
    match (&n.v, y.yaml()) {
        (V::Alias(a), _) => {
            if let Some(o) = env.get(a) {
                cx.count("shared");
                if o.yaml() != &Yaml::Null && matches!(o.yaml(), Yaml::Seq(_) | Yaml::Map(_)) {
                    cx.count("alias.nested");
                }
                cx.check(Rc::ptr_eq(o.rc_ref(), y.rc_ref()), "alias copies the anchored value", || format!("*{a}"));
            }
        }
        (V::Seq(v), Yaml::Seq(s)) => v.iter().zip(s).for_each(|(n, y)| share(cx, n, y, env)),
        (V::Map(v), Yaml::Map(s)) => v.iter().zip(s).for_each(|((nk, nv), (yk, yv))| {
            share(cx, nk, yk, env);
            share(cx, nv, yv, env);
        }),
        _ => {}
    }
    if let Some(a) = &n.anchor {
        env.insert(a.clone(), y.clone());
    }
}

fn rejected(cx: &mut Ctx, doc: &str, what: &str) {
    cx.input(doc);
    let res = parse::<RcRepr>(doc);
    cx.count(what);
    cx.check(res.is_err(), what.replace("rejected.", "accepted: ").as_str(), || format!("{res:?}"));
}

fn cyclic_ok(cx: &mut Ctx, doc: &str) {
    cx.input(doc);
    let res = parse_cyclic::<RcRepr>(doc);
    cx.check(res.is_ok(), "cyclic document rejected", || format!("{}", res.err().unwrap()));
}

fn alias_fixed(cx: &mut Ctx) {
    // Every scalar kind and collection as the anchored node, used at every place
    for (src, kind) in [
        ("~", "null"), ("", "null"), ("true", "bool"), ("12", "int"), ("1.5", "float"), ("text", "str"), ("'q: r'", "str"), ("\"d\\n\"", "str"),
        ("[a, b]", "seq"), ("{a: b}", "map"), ("[]", "seq"), ("{}", "map"), ("|\n    lit\n    x", "str"), (">-\n    fold\n    x", "str"),
        ("\n  - a\n  - b", "seq"), ("\n    a: b\n    c: d", "map"), ("!t x", "str"), ("!!str 12", "int"),
    ] {
        for (pre, post, path) in [
            ("y: ", "\n", "L"), ("y: [x, ", "]\n", "L1"), ("y: {k: ", "}\n", "Lv"), ("y:\n- x\n- ", "\n- z\n", "L1"), ("y:\n  k: ", "\n  z: z\n", "Lv"),
            ("? ", "\n: v\n", ""), ("y: {", " : v}\n", "LK"), ("y: [", "]", "L0"), ("", " : v", ""),
        ] {
            let doc = format!("base: &anc {src}\n{pre}*anc{post}");
            cx.input(&doc);
            match parse::<RcRepr>(&doc) {
                Err(e) => {
                    cx.check(false, "valid document rejected", || format!("{e}"));
                }
                Ok(v) => {
                    let base = v[0].get("base").ok();
                    let got = if path.is_empty() {
                        match v[0].yaml() {
                            Yaml::Map(m) => m.iter().nth(1).map(|e| e.0),
                            _ => None,
                        }
                    } else {
                        at(&v, path)
                    };
                    let ok = base.is_some() && base == got && unbuild(base.unwrap()).kind() == kind;
                    cx.check(ok, "alias is not the anchored value", || format!("{base:?} {got:?}"));
                    let mut n = 0;
                    find(&v[0], &mut |_| n += 1);
                    cx.add("nodes", n);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C07

pub const STREAM: Prop = Prop {
    id: "C07",
    rule: "distinct streams of at least two documents",
    fixed: Some(stream_fixed),
    case: stream,
    quick: 300_000,
    thorough: 1_500_000,
    must: &["use.doc.end", "use.doc.inline", "use.directive.yaml", "docs", "anchor.reused", "empty-docs", "independent", "many documents", "marker-like"],
    stack: 16 << 20,
    assumptions: RENDER_ASSUME,
};

fn stream(cx: &mut Ctx, r: &mut Rng) {
    let o = TreeOpt { nodes: 12, strings: if r.chance(1, 2) { 2 } else { 0 }, ..TREE };
    let mut o = grow(r, o);
    let mut n = r.range(2, 6);
    if r.chance(1, 1500) {
        n = r.range(20, 700);
        o.nodes = 4;
        cx.count("many documents");
    }
    let mut docs: Vec<N> = (0..n).map(|_| tree(r, &o)).collect();
    let mut exp = vec![];
    // Every document has its own anchors, with the same names
    for d in &mut docs {
        if r.chance(1, 2) {
            let (mut next, mut done, mut k) = (0, vec![], 0);
            let back = d.clone();
            plant(r, d, false, &mut next, &mut done, &mut k);
            match resolve(d, &mut BTreeMap::new(), &mut 2000) {
                Some(e) => {
                    cx.add("anchor.reused", done.len() as u64);
                    exp.push(e);
                }
                None => {
                    *d = back;
                    exp.push(d.clone());
                }
            }
        } else {
            exp.push(d.clone());
        }
    }
    let st = random_style(r);
    let (doc, u) = render(r, st, vec![], &mut docs);
    used(cx, &u);
    cx.add("docs", n as u64);
    cx.nontrivial(&doc);
    expect(cx, &doc, &exp, VAL, "documents of the stream differ");
    if cx.case % 101 == 0 {
        cx.sample(&*doc);
    }
    // Each document on its own has the same result as in the stream
    let texts: Vec<String> = docs
        .iter_mut()
        .map(|d| {
            let mut s = random_style(r);
            s.nl = st.nl;
            let (t, _) = render(r, s, vec![], std::slice::from_mut(d));
            t
        })
        .filter(|t| !t.contains('%') && !t.contains("---") && !t.contains("..."))
        .collect();
    if texts.len() < 2 {
        return;
    }
    let mut alone = vec![];
    for t in &texts {
        match parse::<RcRepr>(t) {
            Ok(v) if v.len() == 1 => alone.extend(v),
            _ => return,
        }
    }
    let mut all = String::new();
    for t in &texts {
        all.push_str("---");
        all.push_str(st.nl);
        all.push_str(t);
        if !t.ends_with(['\n', '\r']) {
            all.push_str(st.nl);
        }
    }
    cx.input(&all);
    cx.count("independent");
    match parse::<RcRepr>(&all) {
        Ok(v) => {
            cx.check(v == alone, "a document depends on its neighbours", || format!("{v:?} instead of {alone:?}"));
        }
        Err(e) => {
            cx.check(false, "a document is rejected behind its neighbours", || format!("{e}"));
        }
    }
}

fn stream_fixed(cx: &mut Ctx) {
    // Empty documents and markers: expected number of documents, all of them null
    for (doc, n) in [
        ("", 1), ("\n", 1), ("# c", 1), ("---", 1), ("---\n", 1), ("---\n...\n", 1), ("---\n---", 2), ("---\n---\n---\n", 3), ("---\n...\n---\n", 2),
        ("--- # c\n--- # d\n", 2), ("---\n# c\n---\n# d\n...\n", 2), ("%YAML 1.2\n---\n", 1), ("--- ~\n--- null\n---\n", 3), ("---\n\n\n---\n\n", 2),
        ("---\r\n---\r\n", 2), ("---\r---\r", 2), ("~\n---\n~\n", 2), ("~\n...\n---\n~\n", 2),
    ] {
        let exp: Vec<N> = (0..n).map(|_| V::Null.into()).collect();
        cx.count("empty-docs");
        expect(cx, doc, &exp, VAL, "empty documents");
    }
    marker_like(cx);
    if cfg!(miri) {
        return;
    }
    // More than 65536 documents, with one name of an anchor and few contents
    let n = 66_000;
    let mut doc = String::new();
    let mut exp: Vec<N> = vec![];
    for i in 0..n {
        match i % 4 {
            0 => doc.push_str(&format!("--- &a {i}\n")),
            1 => doc.push_str(&format!("---\n- &a {i}\n- *a\n...\n")),
            2 => doc.push_str("---\n"),
            _ => doc.push_str(&format!("--- {{k: &a {i}}}\n")),
        }
        let v: N = V::Int(i).into();
        exp.push(match i % 4 {
            0 => v,
            1 => V::Seq(vec![v.clone(), v]).into(),
            2 => V::Null.into(),
            _ => V::Map(vec![(N::str("k"), v)]).into(),
        });
    }
    cx.count("many documents");
    expect(cx, &doc, &exp, VAL, "document differs");
    let (v, a) = match parse_cyclic::<RcRepr>(&doc) {
        Ok(v) => v,
        Err(e) => {
            cx.check(false, "valid document rejected", || e.to_string());
            return;
        }
    };
    cx.check(v.len() == a.len() && a.len() == exp.len(), "number of anchor tables differs", || format!("{} {}", v.len(), a.len()));
    for (i, a) in a.iter().enumerate() {
        let got = a.get("a").and_then(|n| n.as_int().ok());
        let want = (i % 4 != 2).then_some(i as i64);
        cx.check(got == want, "anchor of another document", || format!("document {i}: {got:?}"));
    }
}

/// Lines in the first column of scalars that only look like markers.
fn marker_like(cx: &mut Ctx) {
    const W: &[&str] = &[
        "....", "...x", "...-", "...a b", ".... b", "----", "---x", "---- b", "---a: b", "..", ".. .", "--", "-- -", "...#", "---#", ".-.", "-..", "--.", "..-", "…", "---.", "...---", "---'", "...\"x",
        "...:", "---\u{a0}", "...\u{a0}x",
    ];
    for w in W {
        for nl in ["\n", "\r\n", "\r"] {
            for pre in ["", "---\n", "x\n---\n", "[a]\n...\n---\n", "%YAML 1.2\n---\n", "--- # c\n"] {
                let mut forms = vec![
                    (format!("a\n{w}\nb\n"), format!("a {w} b")),
                    (format!("a\n{w}\n"), format!("a {w}")),
                    (format!("a\n\n{w}\n\nb"), format!("a\n{w}\nb")),
                    (format!("|\n {w}\n b\n"), format!("{w}\nb\n")),
                    (format!("|\n{w}\nb\n"), format!("{w}\nb\n")),
                    (format!("|-\na\n{w}"), format!("a\n{w}")),
                    (format!(">\na\n{w}\nb\n"), format!("a {w} b\n")),
                    (format!(">+\n{w}\n\nb\n"), format!("{w}\nb\n")),
                ];
                if !w.contains('\'') {
                    forms.push((format!("'a\n{w}\nb'\n"), format!("a {w} b")));
                    forms.push((format!("'\n{w}'"), format!(" {w}")));
                }
                if !w.contains('"') {
                    forms.push((format!("\"a\n{w}\nb\"\n"), format!("a {w} b")));
                    forms.push((format!("\"a\\\n{w}\n\nb\""), format!("a{w}\nb")));
                }
                for (i, (src, want)) in forms.into_iter().enumerate() {
                    // Those are a mapping or not a plain text
                    if i < 3 && (w.contains(": ") || w.ends_with(':')) {
                        continue;
                    }
                    let doc = format!("{pre}{src}").replace('\n', nl);
                    cx.input(&doc);
                    cx.count("marker-like");
                    match parse::<RcRepr>(&doc) {
                        Err(e) => {
                            cx.check(false, "valid document rejected", || e.to_string());
                        }
                        Ok(v) => {
                            let got = v.last().and_then(|n| n.as_str().ok());
                            let n = 1 + usize::from(pre.starts_with(['x', '[']));
                            cx.check(v.len() == n && got == Some(&want), "a line that looks like a marker", || format!("expected {n} documents and {want:?}, got {} and {got:?}", v.len()));
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C08

pub const TAGS: Prop = Prop {
    id: "C08",
    rule: "distinct documents with at least one tag written",
    fixed: Some(tags_fixed),
    case: tags,
    quick: 800_000,
    thorough: 4_000_000,
    must: &["tagged", "use.directive.comment", "use.tab", "use.directive.tag", "use.props.both", "rejected.handle", "default", "handle.named", "handle.primary", "handle.secondary"],
    stack: 16 << 20,
    assumptions: &["suffixes of tags consist of ASCII alphanumerics and `-`, other tags are written in the full form `!<...>`", "directives are written for the first document of a stream"],
};

/// Any name of handles, anchors and suffixes.
pub fn ident(r: &mut Rng) -> String {
    const C: &[u8] = b"aAbzZeExnNtT0189--";
    let n = match r.below(60) {
        0 => r.range(60, 300),
        _ => *r.pick(&[1, 1, 2, 3, 4, 6, 9, 17, 40]),
    };
    let mut s = String::new();
    while s.len() < n {
        match *r.pick(C) {
            b'-' if s.is_empty() => {}
            c => s.push(c as char),
        }
    }
    if n > 1 && r.chance(1, 6) {
        s.push('-');
    }
    s
}

/// Any text of full tags and prefixes.
fn uri(r: &mut Rng) -> String {
    let n = *r.pick(&[1, 2, 3, 5, 8, 20, 70, 1, 2, 3, 5, 8, 20, 300]);
    (0..n)
        .map(|_| match r.below(12) {
            0 => *r.pick(&['é', '日', '😀', '\u{a0}', '\u{3000}', '\u{85}', 'İ', 'K']),
            1 => *r.pick(&['A', 'Z', 'T', 'E']),
            2 | 3 => *r.pick(&['0', '1', '9', 'x', 'e']),
            4 | 5 | 6 => *r.pick(b":/?#[]{}()@!$&'*+,;=%.~_-|\\\"`^") as char,
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}

fn tags(cx: &mut Ctx, r: &mut Rng) {
    let o = TreeOpt { nodes: 20, strings: if r.chance(1, 3) { 2 } else { 0 }, ..TREE };
    let o = grow(r, o);
    let mut t = tree(r, &o);
    const PRE: &[&str] = &["tag:example.com,2000:", "tag:x/", "my-", "!local-", "tag:yaml.org,2002:", "x", "http://e.org/%41#", "tag:é:"];
    let mut handles: Vec<(String, String)> = vec![];
    let own = [ident(r), ident(r)];
    for h in ["", "!", "e", "e-1", "Foo", "0", &own[0], &own[1]] {
        if r.chance(1, 4) && handles.iter().all(|e| e.0 != h) {
            let pre = if r.chance(1, 3) { uri(r) } else { r.ps(PRE).to_string() };
            handles.push((h.to_string(), pre));
            cx.count(match h {
                "" => "handle.primary",
                "!" => "handle.secondary",
                _ => "handle.named",
            });
        }
    }
    let (mut n, mut d) = (0, 0);
    t.walk_mut(&mut |x| {
        if r.chance(1, 3) {
            let pre = if !handles.is_empty() && r.chance(2, 3) {
                r.pick(&handles).1.clone()
            } else {
                r.ps(&["", "tag:yaml.org,2002:", "tag:other:", "a/b,c:"]).to_string()
            };
            let suf = r.ps(&["str", "int", "map", "t", "A-b", "x1", "foo", "9", "a/b", "b%20", "c:d"]).to_string();
            let suf = match r.below(6) {
                0 | 1 => ident(r),
                2 => uri(r),
                _ => suf,
            };
            x.tag = Some(format!("{pre}{suf}"));
            n += 1;
        } else {
            d += 1;
        }
        if r.chance(1, 8) {
            x.anchor = Some(format!("n{n}x{d}"));
        }
    });
    cx.add("tagged", n);
    cx.add("default", d);
    let st = random_style(r);
    let (doc, u) = render(r, st, handles, std::slice::from_mut(&mut t));
    used(cx, &u);
    if n > 0 {
        cx.nontrivial(&doc);
    }
    expect(cx, &doc, std::slice::from_ref(&t), Cmp { tags: true, pos: false }, "tag differs");
    if cx.case % 101 == 0 {
        cx.sample(doc);
    }
    // Handles are those of the document
    let own = match r.below(3) {
        0 => ident(r),
        1 => format!("{}{}", r.ps(&["e", "A", "x-y"]), r.below(10)),
        _ => r.ps(&["e", "east", "East-1", "a-b"]).to_string(),
    };
    // Similar ones
    let h = match r.below(9) {
        0 => format!("{own}-"),
        1 => ident(r),
        2 => r.ps(&["un", "e2", "E", "tag", "ee", "e-"]).to_string(),
        3 => format!("{own}{}", r.ps(&["0", "a", "A", "e"])),
        4 => own[..r.range(1, own.len())].to_string(),
        5 => own[r.below(own.len())..].trim_start_matches('-').to_string(),
        6 => own.to_ascii_uppercase(),
        7 => own.to_ascii_lowercase(),
        _ => format!("{}{own}", r.ps(&["0", "a", "A", "e"])),
    };
    if h == own || h.is_empty() {
        return;
    }
    let (a, b) = *r.pick(&[("", ""), ("- ", ""), ("k: ", ""), ("[", "]"), ("{k: ", "}"), ("? ", ": x")]);
    for (h, good) in [(&own, true), (&h, false)] {
        let doc = format!("%TAG !{own}! tag:e:\n--- \n{a}!{h}!x y{b}\n");
        cx.input(&doc);
        let res = parse::<RcRepr>(&doc);
        if good {
            cx.check(res.is_ok(), "well-formed document rejected", || res.err().unwrap().to_string());
        } else {
            cx.count("rejected.handle");
            cx.check(res.is_err(), "undefined handle accepted", || format!("{res:?}"));
        }
    }
}

fn tags_fixed(cx: &mut Ctx) {
    const Y: &str = "tag:yaml.org,2002:";
    let own = "%TAG ! tag:p:\n%TAG !! tag:s:\n%TAG !h! tag:h:\n---\n";
    for (dir, src, want) in [
        ("", "!!str", format!("{Y}str")),
        ("", "!local", "local".into()),
        ("", "!<tag:full,1:x/y>", "tag:full,1:x/y".into()),
        ("", "!<!x>", "!x".into()),
        (own, "!!str", "tag:s:str".into()),
        (own, "!local", "tag:p:local".into()),
        (own, "!h!x-1", "tag:h:x-1".into()),
        (own, "!<tag:h:z>", "tag:h:z".into()),
        ("%YAML 1.2\n%TAG !h! tag:h:\n---\n", "!h!q", "tag:h:q".into()),
        ("%TAG !h! tag:h:\n%YAML 1.1\n---\n", "!!q", format!("{Y}q")),
        ("%FOO bar\n%TAG !h! tag:h:\n# c\n---\n", "!h!q", "tag:h:q".into()),
        ("%TAG !h! tag:h:\t\n---\n", "!h!q", "tag:h:q".into()),
        ("%TAG\t!h!\ttag:h:# # c\n---\n", "!h!q", "tag:h:#q".into()),
        ("%TAG  !h!  tag:h:  # %TAG !h! x\n---\n", "!h!q", "tag:h:q".into()),
    ] {
        for v in ["x", "12", "1.5", "~", "true", "'s'", "[a]", "{a: b}", "|\n   l", "\n  - a", "\n    a: b"] {
            for (pre, path) in [("k: ", "v"), ("k: &a ", "v")] {
                let doc = format!("{dir}{pre}{src} {v}\n");
                cx.input(&doc);
                let res = parse::<RcRepr>(&doc);
                let got = res.as_ref().ok().and_then(|v| at(v, path)).map(|n: &Node<RcRepr>| n.tag().to_string());
                cx.check(got.as_deref() == Some(&want), "tag differs", || format!("expected {want}, got {got:?} {:?}", res.err().map(|e| e.to_string())));
            }
        }
    }
    // A directive without a prefix or without a handle defines nothing
    for dir in ["%TAG !h!", "%TAG !h! ", "%TAG !h!\t", "%TAG !h! \n%YAML 1.2", "%TAG !h!tag:h:", "%TAG h tag:h:", "%TAG", "%TAG !h tag:h:", "%tag !h! x", "# %TAG !h! tag:h:", "%FOO !h! tag:h:"] {
        for v in ["x", "[a]", "'s'", "|\n   l"] {
            let doc = format!("{dir}\n---\nk: !h!q {v}\n");
            cx.input(&doc);
            let res = parse::<RcRepr>(&doc);
            cx.count("rejected.handle");
            cx.check(res.is_err(), "undefined handle accepted", || format!("{res:?}"));
        }
    }
}

// ------------------------------------------------------------------ C09

pub const POS: Prop = Prop {
    id: "C09",
    rule: "distinct documents with at least three nodes of an expected position",
    fixed: Some(pos_fixed),
    case: pos,
    quick: 400_000,
    thorough: 2_500_000,
    must: &["exact", "range", "multibyte", "docs.later", "crlf", "reads-back", "huge", "aliases"],
    stack: 16 << 20,
    assumptions: &["a collection that starts on the line behind its parent may be reported from the parent's indicator up to its first entry; empty values have no expected position"],
};

fn pos_fixed(cx: &mut Ctx) {
    huge_docs(cx, Cmp { tags: false, pos: true }, "position differs");
}

fn pos(cx: &mut Ctx, r: &mut Rng) {
    let o = TreeOpt { strings: if r.chance(1, 2) { 2 } else { 1 }, nodes: 25, ..TREE };
    let o = grow(r, o);
    let mut docs: Vec<N> = (0..*r.pick(&[1, 1, 2, 3])).map(|_| tree(r, &o)).collect();
    docs.iter_mut().for_each(|d| {
        d.walk_mut(&mut |n| {
            if r.chance(1, 10) {
                n.tag = Some("t".into());
            }
        })
    });
    let st = random_style(r);
    // Aliases have their own positions
    let back = docs.clone();
    let alias = r.chance(1, 3);
    let mut k = 0;
    if alias {
        for d in &mut docs {
            let (mut next, mut done) = (0, vec![]);
            plant(r, d, false, &mut next, &mut done, &mut k);
        }
    }
    let (mut doc, _) = render(r, st, vec![], &mut docs);
    if alias {
        match docs.iter_mut().map(|d| resolve(d, &mut BTreeMap::new(), &mut 2000)).collect() {
            Some(d) => {
                docs = d;
                cx.add("aliases", k as u64);
            }
            None => {
                docs = back;
                doc = render(r, st, vec![], &mut docs).0;
            }
        }
    }
    if !doc.is_ascii() {
        cx.count("multibyte");
    }
    if st.nl == "\r\n" {
        cx.count("crlf");
    }
    let mut n = 0;
    for (i, d) in docs.iter().enumerate() {
        d.walk(&mut |x| {
            if let Some((a, b)) = x.pos {
                n += 1;
                cx.count(if a == b { "exact" } else { "range" });
                if i > 0 {
                    cx.count("docs.later");
                }
            }
        });
    }
    if n > 2 {
        cx.nontrivial(&doc);
    }
    expect(cx, &doc, &docs, Cmp { tags: false, pos: true }, "position differs");
    // The text at the position of a one-line scalar reads as the same scalar
    if let Ok(v) = parse::<RcRepr>(&doc) {
        for (d, y) in docs.iter().zip(&v) {
            let mut exp = vec![];
            d.walk(&mut |n| exp.push(n));
            let mut i = 0;
            let mut bad = None;
            find(y, &mut |y| {
                if let (Yaml::Str(s), Some(N { pos: Some(_), .. })) = (y.yaml(), exp.get(i)) {
                    let w: String = s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
                    let at = doc.get(y.pos() as usize..).unwrap_or("");
                    if !w.is_empty() && at.starts_with(|c: char| c.is_ascii_alphanumeric()) {
                        cx.count("reads-back");
                        if !at.starts_with(&w) {
                            bad = Some(format!("{s:?} at {}: {}", y.pos(), brief(at)));
                        }
                    }
                }
                i += 1;
            });
            cx.check(bad.is_none(), "the text at the position is another one", || bad.unwrap());
        }
    }
    if cx.case % 101 == 0 {
        cx.sample(doc);
    }
}
