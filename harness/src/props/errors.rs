//! Errors: location, rejection of malformed documents, no silent loss.
use super::layout::WS;
use crate::{core::*, model::*, render::*};
use std::collections::HashSet;
use yaml_peg::{
    indicated_msg, indicated_msg_file, parse, parse_cyclic,
    parser::{Loader, PError},
    repr::RcRepr,
    NodeRc, Yaml,
};

// ---------------------------------------------------------------- the oracle

/// Reference of the indicated message.
fn oracle(doc: &[u8], pos: u64) -> String {
    let pos = (pos as u128).min(doc.len() as u128) as usize;
    let mut line = 1;
    let mut start = 0;
    for (i, c) in doc[..pos].iter().enumerate() {
        if *c == b'\n' {
            line += 1;
            start = i + 1;
        }
    }
    let mut end = start;
    while end < doc.len() && doc[end] != b'\n' {
        end += 1;
    }
    let col = pos - start;
    let mut s = format!("{line}:{}\n{}\n", col + 1, String::from_utf8_lossy(&doc[start..end]));
    for _ in 0..col {
        s.push(' ');
    }
    s.push('^');
    s
}

/// Line, column and offset of an error, if the message is the exact
/// indication of a place of the document.
pub fn locate(doc: &[u8], msg: &str) -> Result<(usize, usize, usize), String> {
    let head = msg.lines().next().unwrap_or("");
    let (l, c) = head.split_once(':').ok_or("no line and column")?;
    let (l, c): (usize, usize) = (l.parse().map_err(|_| "line")?, c.parse().map_err(|_| "column")?);
    if l == 0 || c == 0 {
        return Err(format!("place {l}:{c}"));
    }
    let mut start = 0;
    for _ in 1..l {
        match doc[start..].iter().position(|c| *c == b'\n') {
            Some(n) => start += n + 1,
            None => return Err(format!("line {l} is behind the end")),
        }
    }
    let pos = start + c - 1;
    if pos > doc.len() || doc[start..pos].contains(&b'\n') {
        return Err(format!("column {c} is behind the end of the line {l}"));
    }
    let want = oracle(doc, pos as u64);
    if want != msg {
        return Err(format!("message {msg:?} instead of {want:?}"));
    }
    Ok((l, c, pos))
}

const NAMES: &[&str] = &[
    "document content", "document splitter", "checked version", "invalid version", "tag handle", "nesting depth", "quoted string terminator",
    "flow sequence item", "flow sequence terminator", "flow map key", "flow map value", "flow map splitter", "flow map terminator",
    "sequence item", "sequence terminator", "map key", "map value", "map splitter", "map terminator",
    "duplicated anchor definition", "duplicated tag definition", "anchor referenced before definition",
];

/// Check the error of a document. Return its line.
pub fn check_error(cx: &mut Ctx, doc: &str, e: &PError) -> Option<usize> {
    match e {
        PError::Mismatch => {
            cx.check(false, "error without location", || "mismatch".into());
            None
        }
        PError::Terminate { name, msg } => {
            let l = locate(doc.as_bytes(), msg);
            cx.check(l.is_ok(), "error message is not an indication of the document", || format!("{name}: {}", l.clone().unwrap_err()));
            cx.check(NAMES.contains(name), "unknown error name", || name.to_string());
            let text = e.to_string();
            cx.check(text == format!("invalid {name}: \n\n{msg}"), "displayed error differs", || text.clone());
            l.ok().map(|l| l.0)
        }
    }
}

// ---------------------------------------------------------------- the catalog

pub struct Bad {
    pub src: &'static str,
    /// In flow collections, too.
    pub flow: bool,
    /// Swallows the text behind it: no later text may complete it.
    pub open: bool,
}

const fn b(src: &'static str, flow: bool, open: bool) -> Bad {
    Bad { src, flow, open }
}

/// One-line malformed values.
pub const BADS: &[Bad] = &[
    b("*undefined", true, false),
    b("!undef!x y", true, false),
    b("!undef!x", true, false),
    b("[a, b]]", false, false),
    b("{a: 1}}", false, false),
    b("[a, {b: c]}", true, false),
    b("{a: [b}]", true, false),
    b("{a: b c: d}", true, false),
    b("[a b: c d: e]", true, false),
    b("[- a]", true, false),
    b("{a: - b}", true, false),
    b("[a: b c: d, e]", true, false),
    b("{a: [b: c}", true, false),
    b("\"a\" \"b\"", true, false),
    b("\"a\" b", true, false),
    b("'a' b", true, false),
    b("'a'b", true, false),
    b("[a]b", true, false),
    b("[a] b", true, false),
    b("{a: 1} b", true, false),
    b("[a] [b]", true, false),
    b("{a: 1} {b: 2}", true, false),
    b("*dup1 x", true, false),
    b("&x1 &x2 a", true, false),
    b("&x1 !t &x2 a", true, false),
    b("!t &x1 &x2 a", true, false),
    b("&x1 &x2 !t a", true, false),
    b("!t !s a", true, false),
    b("!t &x1 !s a", true, false),
    b("&x1 !t !s a", true, false),
    b("!!str !<s> a", true, false),
    b("&x1 [a] b", true, false),
    b("!t 'a' b", true, false),
    b("[!t &x1 &x2]", true, false),
    b("{!t !s a: b}", true, false),
    b("{&x1 &x2 a: b}", true, false),
    b("{a: &x1 !t &x2 b}", true, false),
    b("[&y1 a, &y1 b]", true, false),
    b("[&y1 a, [&y1 b]]", true, false),
    b("{&y1 a: &y1 b}", true, false),
    b("&y1 [&y1 b]", true, false),
    b("]", false, false),
    b("}", false, false),
    b("a: b: c", false, false),
    b("\"a\": b: c", false, false),
    b("{a: 1", false, true),
    b("[a, b", false, true),
    b("[a, [b]", false, true),
    b("{a: {b: c}", false, true),
    b("\"a", true, true),
    b("'a", true, true),
    b("'a''", true, true),
    b("\"a\\\"", true, true),
    b("[\"a]", true, true),
    b("{'a: b}", true, true),
];

const SPOT: &str = "*spot";

/// A document with a spot for a value, and whether the spot is inside of a
/// flow collection or the last value.
fn spot(r: &mut Rng) -> Option<(String, bool)> {
    let o = TreeOpt { nodes: 22, width: 4, strings: if r.chance(1, 3) { 1 } else { 0 }, ..TREE };
    let mut t = coll(r, &o);
    // Choose a value
    fn values<'a>(n: &'a mut N, out: &mut Vec<&'a mut N>) {
        if n.size() == 1 {
            return out.push(n);
        }
        match &mut n.v {
            V::Seq(v) => v.iter_mut().for_each(|n| values(n, out)),
            V::Map(m) => m.iter_mut().for_each(|(_, n)| values(n, out)),
            _ => {}
        }
    }
    let mut v = vec![];
    values(&mut t, &mut v);
    let i = r.below(v.len());
    *v[i] = V::Alias("spot".into()).into();
    let mut st = random_style(r);
    st.comments = false;
    st.nl = "\n";
    let (doc, _) = render(r, st, vec![], std::slice::from_mut(&mut t));
    if doc.matches(SPOT).count() != 1 {
        return None;
    }
    let at = doc.find(SPOT)?;
    // Inside of brackets? The text around tells
    let line = doc[..at].rfind('\n').map_or(0, |i| i + 1);
    let head = doc[line..at].trim_start_matches(WS);
    let tail = doc[at + SPOT.len()..].trim_start_matches(WS);
    let is_flow = tail.starts_with([',', ']', '}']) || head.ends_with(['[', '{', ',']);
    Some((doc, is_flow))
}

/// Put the fragment into the spot.
fn fill(doc: &str, s: &str) -> (String, usize) {
    let at = doc.find(SPOT).unwrap();
    let line = doc[..at].matches('\n').count() + 1;
    (format!("{}{s}{}", &doc[..at], &doc[at + SPOT.len()..]), line)
}

// ------------------------------------------------------------------ C10

pub const LOCATE: Prop = Prop {
    id: "C10",
    rule: "distinct rejected documents whose error was located",
    fixed: Some(locate_fixed),
    case: located,
    quick: 600_000,
    thorough: 4_000_000,
    must: &["errors", "errors.line", "messages", "messages.file", "beyond-end", "late", "far"],
    stack: 16 << 20,
    assumptions: &["a line ends with LF and columns are bytes, as the indication documents"],
};

fn locate_fixed(cx: &mut Ctx) {
    let docs: &[&[u8]] = &[b"", b"\n", b"a", b"a\n", b"\n\n", b"ab\ncd", b"a\r\nb\r\n", "é\n日本\nx".as_bytes(), b"\xff\xfe\n\x80", b"\t\n \n"];
    for d in docs {
        for pos in (0..=d.len() as u64 + 3).chain([u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63]) {
            message(cx, d, pos);
        }
    }
    if cfg!(miri) {
        return;
    }
    // Lines and columns of another order of magnitude
    for n in [255, 65_535, 65_536 * 4, 1 << 24] {
        for unit in ["\n", "x", "é", "# c\n"] {
            if n > 1 << 20 && unit != "\n" {
                continue;
            }
            let head = unit.repeat(n);
            let doc = format!("{head}[a");
            for pos in [head.len() - 1, head.len(), head.len() + 1, head.len() + 2] {
                message(cx, doc.as_bytes(), pos as u64);
            }
            if unit.ends_with('\n') {
                cx.input(&format!("{n} times {unit:?} in front of [a"));
                let e = parse::<RcRepr>(&doc).unwrap_err();
                check_error(cx, &doc, &e);
                cx.count("far");
            }
            let doc = format!("- a\n- {}]", "x".repeat(n.min(1 << 20)));
            cx.input(&format!("a long line of {n}"));
            if let Err(e) = parse::<RcRepr>(&doc) {
                check_error(cx, &doc, &e);
            }
        }
    }
}

fn message(cx: &mut Ctx, doc: &[u8], pos: u64) {
    cx.input(&format!("indicated_msg({:?}, {pos})", String::from_utf8_lossy(doc)));
    let want = oracle(doc, pos);
    let got = indicated_msg(doc, pos);
    cx.count("messages");
    if pos > doc.len() as u64 {
        cx.count("beyond-end");
    }
    cx.check(got == want, "indicated message differs", || format!("{got:?} instead of {want:?}"));
    let got = indicated_msg_file("dir/é.yaml", doc, pos);
    cx.count("messages.file");
    cx.check(got == format!("dir/é.yaml:{want}"), "indicated file message differs", || got.clone());
}

fn located(cx: &mut Ctx, r: &mut Rng) {
    // Any text
    if r.chance(1, 4) {
        let n = r.below(60);
        let mut d: Vec<u8> = vec![];
        for _ in 0..n {
            match r.below(6) {
                0 => d.push(b'\n'),
                1 => d.push(r.next() as u8),
                2 => d.extend(any_char(r).to_string().bytes()),
                _ => d.push(b'a' + r.below(26) as u8),
            }
        }
        let pos = if r.chance(1, 8) { r.next() } else { r.below(d.len() + 3) as u64 };
        message(cx, &d, pos);
        return;
    }
    let Some((doc, flow)) = spot(r) else { return };
    // Other documents in front of it
    let doc = match r.below(4) {
        0 => {
            let mut t = tree(r, &TreeOpt { nodes: 8, strings: 1, ..TREE });
            let (pre, _) = render(r, PLAIN, vec![], std::slice::from_mut(&mut t));
            let pre = pre.trim_end_matches('\n');
            cx.count("late");
            if doc.starts_with('%') || pre.starts_with('%') {
                return;
            }
            if doc.starts_with("---") {
                format!("{pre}\n{doc}")
            } else {
                format!("{pre}\n---\n{doc}")
            }
        }
        _ => doc,
    };
    if doc.matches(SPOT).count() != 1 {
        return;
    }
    let bad = r.pick(BADS);
    if flow && !bad.flow {
        return;
    }
    let (doc, line) = fill(&doc, bad.src);
    cx.input(&doc);
    for cyclic in [false, true] {
        let e = if cyclic { parse_cyclic::<RcRepr>(&doc).err() } else { parse::<RcRepr>(&doc).err() };
        if let Some(e) = e {
            cx.count("errors");
            cx.nontrivial(&doc);
            if let Some(l) = check_error(cx, &doc, &e) {
                cx.count("errors.line");
                cx.check(l >= line, "error is located before the defect", || format!("line {l}, defect in line {line}: {e}"));
                if !bad.open {
                    // The next line with content at most
                    let next = doc.split('\n').enumerate().skip(line).find(|(_, s)| !s.trim_matches(WS).is_empty()).map_or(usize::MAX, |(i, _)| i + 1);
                    cx.check(l <= next.max(line + 1), "error is located far behind the defect", || format!("line {l}, defect in line {line}: {e}"));
                }
            }
        }
    }
    if cx.case % 101 == 0 {
        cx.sample(doc);
    }
}

// ------------------------------------------------------------------ C11

pub const REJECT: Prop = Prop {
    id: "C11",
    rule: "distinct malformed documents, derived from a document that was accepted",
    fixed: Some(reject_fixed),
    case: reject,
    quick: 1_500_000,
    thorough: 8_000_000,
    must: &[
        "spot.block", "spot.flow", "control", "truncated.flow", "truncated.quoted", "structure.indent", "structure.dedent", "structure.colon",
        "structure.kind", "structure.tab", "catalog", "brackets", "commas", "second-line",
    ],
    stack: 16 << 20,
    assumptions: &["malformed means: rejected by YAML 1.2 and of a listed kind; text the crate deliberately reads as a plain string (such as `@x`) is not listed"],
};

/// Whole documents that have no reading.
const CATALOG: &[&str] = &[
    "k:\n   a: 1\n  b: 2\n", "k:\n  a: 1\n b: 2\n", "\tk: v", "k:\n\t- a", "- a\nb: 1", "a: 1\n- b", "[a]\n[b]", "k: 1\nx", "- a\nx", "- a\n x: y",
    "k: a\n  b: c", "k: \"a\"\n  b: c", "k: [a]\n  b: c", "a: 1\n b: 2", "- [1]\n - 2", "- - 1\n - - 2: 3", "? a: b: c", "a: 1\nb\n  c: d", "k: - a", "k: -", "!a !b x", "a: 1\n\"b\n  c\" : d", "a: x\nb", "- a\n-b",
    "k: v\nx:y", "'a' b: c", "\"a\nb\": c", "'a\nb': c", "[a,\nb]: c", "--- a\n b: c", "%YAML 1.3\n---\na", "%YAML 2.0\n---\na",
    "%YAML 1.2\n%YAML 1.2\n---\na", "a: 1\n...\nb: 2", "a\n... x", "--- a\n... x\n", "?a\n: b", "a: 1\n---x\n", "[a\n---\nb]", "'a\n'b", "{", "[", "'", "\"",
    "]", "}", "[}", "{]", "a: [", "- {", "- [a,\n- b", "{a: 1,", "[a,", "{a", "{a:", "{? a", "{? a : b", "[a, b\nc: d\n", "k: {a: 1\nj: 2\n",
    "a:\n  - b\n c: d\n", "a:\n    b:\n      c: 1\n   d: 2\n", "- a:\n    b: 1\n   c: 2\n", "*a", "- *a\n- &a b", "&a x\n---\n*a", "- &a x\n- &a y",
    "a: &x\n  &y b", "&x\n&y b", "a: !t\n  !s b", "a: &x\n  !t &y b", "- &x !t\n  &y b", "- !t &x\n  !s b", "a: &x b\nc:\n  &x d: e", "&x a: &x b", "? &x a\n: &x b", "? &x\n  &y a\n: b",
];

fn reject_fixed(cx: &mut Ctx) {
    for d in CATALOG {
        for nl in ["\n", "\r\n", "\r"] {
            let d = d.replace('\n', nl);
            cx.count("catalog");
            must_reject(cx, &d, "malformed document accepted");
        }
    }
    // Every place, with all the one-line defects
    for b in BADS {
        for p in super::ctxt::PLACES {
            if p.key || (p.flow && !b.flow) || (b.open && p.post.contains(['\'', '"', ']', '}'])) {
                continue;
            }
            // A map behind `- `, `? ` or at the root
            if b.src.contains(": b: ") || b.src.contains(": b: c") {
                // `a: b: c` is malformed everywhere
            }
            cx.count("catalog");
            must_reject(cx, &format!("{}{}{}", p.pre, b.src, p.post), "malformed value accepted");
        }
    }
}

fn must_reject(cx: &mut Ctx, doc: &str, sig: &str) {
    cx.input(doc);
    cx.nontrivial(doc);
    match parse::<RcRepr>(doc) {
        Err(e) => {
            cx.eval();
            if let PError::Mismatch = e {
                cx.fail("error without location", "");
            }
        }
        Ok(v) => {
            cx.check(false, sig, || format!("{v:?}"));
        }
    }
}

/// Lines of a block document of words.
fn plain_block(r: &mut Rng) -> (Vec<String>, N) {
    let o = TreeOpt { nodes: 18, width: 4, depth: 5, strings: 0, complex_keys: false, typed_keys: false, big: false };
    let mut t = coll(r, &o);
    let mut i = 0;
    // Words only
    fn words(n: &mut N, i: &mut usize) {
        match &mut n.v {
            V::Seq(v) if !v.is_empty() => v.iter_mut().for_each(|n| words(n, i)),
            V::Map(m) if !m.is_empty() => m.iter_mut().for_each(|(k, n)| {
                words(k, i);
                words(n, i);
            }),
            v => {
                *i += 1;
                *v = V::Str(format!("w{i}x"));
            }
        }
    }
    words(&mut t, &mut i);
    let (doc, _) = render(r, PLAIN, vec![], std::slice::from_mut(&mut t));
    (doc.lines().filter(|l| !l.is_empty()).map(String::from).collect(), t)
}

fn indent(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

fn reject(cx: &mut Ctx, r: &mut Rng) {
    match r.below(7) {
        4 => brackets(cx, r),
        5 => commas(cx, r),
        6 => second_line(cx, r),
        0 | 1 => {
            let Some((doc, flow)) = spot(r) else { return };
            let (good, _) = fill(&doc, "w");
            cx.input(&good);
            let res = parse::<RcRepr>(&good);
            cx.count("control");
            if !cx.check(res.is_ok(), "well-formed document rejected", || res.err().unwrap().to_string()) {
                return;
            }
            let bad = r.pick(BADS);
            if flow && !bad.flow {
                return;
            }
            let (doc, _) = fill(&doc, bad.src);
            if bad.open {
                // Nothing behind it may close it
                let tail = &doc[doc.rfind(bad.src).unwrap() + bad.src.len()..];
                if tail.contains(['\'', '"', ']', '}']) {
                    return;
                }
            }
            cx.count(if flow { "spot.flow" } else { "spot.block" });
            must_reject(cx, &doc, "malformed value accepted");
            if cx.case % 101 == 0 {
                cx.sample(doc);
            }
        }
        2 => truncate(cx, r),
        _ => structure(cx, r),
    }
}

/// One bracket more, less or another one in a flow collection of words.
fn brackets(cx: &mut Ctx, r: &mut Rng) {
    let o = TreeOpt { nodes: *r.pick(&[5, 10, 20]), width: 4, depth: 5, strings: 0, complex_keys: r.chance(1, 4), typed_keys: false, big: false };
    let mut t = coll(r, &o);
    let mut i = 0;
    t.walk_mut(&mut |n| {
        if !n.is_coll() {
            i += 1;
            n.v = V::Str(format!("w{i}x"));
        }
    });
    let mut st = random_style(r);
    st.block = false;
    st.comments = false;
    let (doc, _) = render(r, st, vec![], std::slice::from_mut(&mut t));
    let doc = doc.trim_end_matches(WS);
    if !doc.starts_with(['[', '{']) || doc.contains(['\'', '"', '#', '|', '>', '%']) {
        return;
    }
    // Well nested, and nothing behind the end
    let balanced = |s: &str| {
        let mut stack = vec![];
        for (i, c) in s.char_indices() {
            match c {
                '[' => stack.push(']'),
                '{' => stack.push('}'),
                ']' | '}' if stack.pop() != Some(c) => return false,
                ']' | '}' if stack.is_empty() && i + 1 != s.len() => return false,
                _ => {}
            }
        }
        stack.is_empty()
    };
    cx.input(doc);
    cx.count("control");
    let res = parse::<RcRepr>(doc);
    if !balanced(doc) || !cx.check(res.is_ok(), "well-formed document rejected", || res.err().unwrap().to_string()) {
        return;
    }
    for _ in 0..6 {
        let mut bad = doc.to_string();
        let at: Vec<usize> = bad.char_indices().filter(|(_, c)| "[]{}".contains(*c)).map(|(i, _)| i).collect();
        match r.below(4) {
            0 => {
                let i = *r.pick(&at);
                bad.remove(i);
            }
            1 => {
                let i = *r.pick(&at);
                bad.replace_range(i..i + 1, r.ps(&["[", "]", "{", "}"]));
            }
            _ => {
                // Behind the first one, which may be anywhere in the text
                let i = r.range(1, bad.len());
                if bad.is_char_boundary(i) {
                    bad.insert_str(i, r.ps(&["[", "]", "{", "}"]));
                }
            }
        }
        // The text behind a key is not a part of the collection
        let is_key = |s: &str| {
            let mut n = 0;
            s.char_indices().any(|(i, c)| {
                n += match c {
                    '[' | '{' => 1,
                    ']' | '}' => -1,
                    _ => 0,
                };
                n == 0 && s[i + c.len_utf8()..].trim_start_matches(WS).starts_with(':')
            })
        };
        if !bad.starts_with(['[', '{']) || balanced(&bad) || is_key(&bad) {
            continue;
        }
        let pre = if bad.contains(['\n', '\r']) { "" } else { r.ps(&["", "", "k: ", "- ", "- k: ", "--- "]) };
        cx.count("brackets");
        must_reject(cx, &format!("{pre}{bad}"), "unbalanced brackets accepted");
    }
}

/// A comma of a flow collection is missing.
fn commas(cx: &mut Ctx, r: &mut Rng) {
    let o = TreeOpt { nodes: *r.pick(&[5, 10, 20]), width: 4, depth: 5, strings: 0, complex_keys: r.chance(1, 4), typed_keys: false, big: false };
    let mut t = coll(r, &o);
    let mut i = 0;
    t.walk_mut(&mut |n| {
        if !n.is_coll() {
            i += 1;
            n.v = V::Str(format!("w{i}x"));
        }
    });
    let mut st = random_style(r);
    st.block = false;
    st.comments = false;
    st.escapes = false;
    let (doc, _) = render(r, st, vec![], std::slice::from_mut(&mut t));
    let doc = doc.trim_end_matches(WS);
    if !doc.starts_with(['[', '{']) || doc.contains(['#', '|', '>', '%', '?']) {
        return;
    }
    cx.input(doc);
    cx.count("control");
    let res = parse::<RcRepr>(doc);
    if !cx.check(res.is_ok(), "well-formed document rejected", || res.err().unwrap().to_string()) {
        return;
    }
    // The commas which can not be left out
    let (mut at, mut stack) = (vec![], vec![]);
    for (i, c) in doc.char_indices() {
        match c {
            '[' | '{' => stack.push(c),
            ']' | '}' => {
                stack.pop();
            }
            ',' => {
                let (a, b) = (doc[..i].trim_end_matches(WS), doc[i + 1..].trim_start_matches(WS));
                let closed = a.ends_with([']', '}', '"', '\'']) || b.starts_with(['[', '{']);
                if !b.starts_with([']', '}', ',']) && (closed || stack.last() == Some(&'{') && !b.starts_with(['"', '\''])) {
                    at.push(i);
                }
            }
            _ => {}
        }
    }
    for _ in 0..4 {
        if at.is_empty() {
            return;
        }
        let i = *r.pick(&at);
        let with = r.ps(&[" ", "\n", "\n\n ", "\t", " \r\n  ", " w0x ", ";"]);
        // Line breaks and spaces around it are kept or dropped
        let tail = if r.chance(1, 2) { doc[i + 1..].trim_start_matches(WS) } else { &doc[i + 1..] };
        let bad = format!("{}{with}{tail}", &doc[..i]);
        let pre = if bad.contains(['\n', '\r']) { "" } else { r.ps(&["", "", "k: ", "- ", "- k: ", "--- "]) };
        cx.count("commas");
        must_reject(cx, &format!("{pre}{bad}"), "missing comma accepted");
    }
}

/// Values with more text in the next line.
const SECOND: &[&str] = &[
    "\"a\"\n\"b\"", "'a'\n'b'", "'a'\nb", "\"a\"\nb", "[a]\nb", "[a]\n[b]", "[a]\n{b: c}", "{a: 1}\n{b: 2}", "{a: 1}\nb", "{}\n{}", "[]\n'b'", "\"a\"\nb: c", "'a'\n\"b\": c",
    "[a]\nb: c", "{a: 1}\nb: c", "w\nb: c", "w\n\"b\": c", "\"a\"\n- b", "[a]\n- b", "!t 'a'\n'b'", "&x1 [a]\n[b]", "'a'\n[b]", "\"a\"\n\n\"b\"", "[a]\n\n\nb", "!t\n!s a",
    "&x1\n&x2 a", "\"a\"\n*x", "[a]\n!t b", "'a'\n&x1 b",
];

/// More text in the line behind a closed value.
fn second_line(cx: &mut Ctx, r: &mut Rng) {
    let Some((doc, _)) = spot(r) else { return };
    let (good, _) = fill(&doc, "w");
    cx.input(&good);
    let res = parse::<RcRepr>(&good);
    cx.count("control");
    if !cx.check(res.is_ok(), "well-formed document rejected", || res.err().unwrap().to_string()) {
        return;
    }
    let at = doc.find(SPOT).unwrap();
    let line = doc[..at].rfind('\n').map_or(0, |i| i + 1);
    let col = doc[line..at].chars().count() + *r.pick(&[0, 0, 1, 3]);
    let s = r.ps(SECOND).replace('\n', &format!("\n{}", " ".repeat(col)));
    let (bad, _) = fill(&doc, &s);
    cx.count("second-line");
    must_reject(cx, &bad, "text behind a closed value accepted");
}

/// Every prefix of an open collection or a quoted scalar is rejected.
fn truncate(cx: &mut Ctx, r: &mut Rng) {
    let mut st = random_style(r);
    st.block = false;
    st.comments = false;
    let quoted = r.chance(1, 3);
    let (doc, end, sig) = if quoted {
        let double = r.chance(1, 2);
        let n = r.range(0, 8);
        let mut s = String::from(if double { "\"" } else { "'" });
        for _ in 0..n {
            s.push_str(if double {
                r.ps(&["a", "b c", "\\n", "\\\\", "\\\"", " ", "\\x41", "\\u00e9", "é", "'", "\n ", ": ", "# ", "\\t", "]", "---"])
            } else {
                r.ps(&["a", "b c", "\\", " ", "é", "\"", "\n ", ": ", " #", "}", "..."])
            });
        }
        let end = s.len();
        s.push_str(if double { "\"" } else { "'" });
        cx.count("truncated.quoted");
        (s, end, "unterminated quoted scalar accepted")
    } else {
        let o = TreeOpt { nodes: 14, width: 4, depth: 4, strings: if r.chance(1, 2) { 2 } else { 0 }, ..TREE };
        let o = grow(r, o);
        let mut t = coll(r, &o);
        let (doc, _) = render(r, st, vec![], std::slice::from_mut(&mut t));
        let t = doc.trim_end_matches(WS);
        let Some(end) = t.rfind([']', '}']) else { return };
        if end + 1 != t.len() || !(doc.starts_with(['[', '{'])) {
            return;
        }
        cx.count("truncated.flow");
        (doc, end, "unterminated flow collection accepted")
    };
    cx.input(&doc);
    let res = parse::<RcRepr>(&doc);
    cx.count("control");
    if !cx.check(res.is_ok(), "well-formed document rejected", || res.err().unwrap().to_string()) {
        return;
    }
    let (pre, path) = *r.pick(&[("", 0), ("k: ", 0), ("- ", 0), ("k:\n- ", 0), ("- [", 0)]);
    let _ = path;
    let n = if end > 60 { 12 } else { end };
    for i in 1..=n {
        let cut = if end > 60 { r.range(1, end) } else { i };
        if !doc.is_char_boundary(cut) {
            continue;
        }
        // The lines of a nested value need an indentation
        if !pre.is_empty() && doc[..cut].contains(['\n', '\r']) {
            continue;
        }
        must_reject(cx, &format!("{pre}{}", &doc[..cut]), sig);
    }
}

/// Defects of the block structure.
fn structure(cx: &mut Ctx, r: &mut Rng) {
    let (lines, _) = plain_block(r);
    if lines.len() < 3 || lines.iter().any(|l| l.contains("[]") || l.contains("{}") || l.contains('?') || l.starts_with("---")) {
        return;
    }
    let good = lines.join("\n") + "\n";
    cx.input(&good);
    let res = parse::<RcRepr>(&good);
    cx.count("control");
    if !cx.check(res.is_ok(), "well-formed document rejected", || res.err().unwrap().to_string()) {
        return;
    }
    let i = r.range(1, lines.len() - 1);
    let (l, p) = (&lines[i], &lines[i - 1]);
    let (li, pi) = (indent(l), indent(p));
    let mut out = lines.clone();
    let opens = p.ends_with(':') || p.trim_start_matches(WS) == "-" || p.ends_with(" -");
    let is_key = |s: &str| s.ends_with(':') || s.contains(": ");
    let what = match r.below(5) {
        0 if !opens && is_key(l) && !l.trim_start_matches(WS).starts_with('-') && !p.trim_start_matches(WS).starts_with('-') && li > 0 && p.contains(": ") && pi == li => {
            // An entry that is indented deeper than its siblings
            let n = r.range(1, 4);
            out[i] = format!("{}{l}", " ".repeat(n));
            "structure.indent"
        }
        1 if li > 0 => {
            // An entry between the levels of its parents
            let mut levels: HashSet<usize> = HashSet::new();
            for l in &lines {
                let mut s = l.as_str();
                let mut n = indent(l);
                s = &s[n..];
                levels.insert(n);
                while let Some(t) = s.strip_prefix("- ") {
                    n += 2;
                    levels.insert(n);
                    s = t;
                }
            }
            let n = r.below(li);
            if levels.contains(&n) || opens || !is_key(l) && !l.trim_start_matches(WS).starts_with('-') {
                return;
            }
            out[i] = format!("{}{}", " ".repeat(n), l.trim_start_matches(WS));
            "structure.dedent"
        }
        2 if is_key(l) && !l.trim_start_matches(WS).starts_with('-') && pi == li && !opens && is_key(p) && !p.trim_start_matches(WS).starts_with('-') => {
            // The splitter is missing
            out[i] = l.replacen(':', r.ps(&["", " =", ";", "-"]), 1);
            if lines.get(i + 1).is_some_and(|n| indent(n) > li) && out[i].ends_with('-') {
                return;
            }
            "structure.colon"
        }
        3 => {
            // An entry of the other kind
            let (a, b) = (l.trim_start_matches(WS), p.trim_start_matches(WS));
            if opens || li != pi {
                return;
            }
            let ind = " ".repeat(li);
            if !a.starts_with('-') && !b.starts_with('-') {
                out.insert(i, format!("{ind}- w0x"));
            } else if a.starts_with('-') && b.starts_with("- ") && !is_key(b) {
                out.insert(i, format!("{ind}w0x: w00x"));
                // Belongs to the parent map
                if li > 0 || lines.iter().any(|l| !l.starts_with(['-', ' '])) {
                    return;
                }
            } else {
                return;
            }
            "structure.kind"
        }
        4 if li > 0 && !opens => {
            // Tabs are no indentation
            out[i] = format!("\t{}", l.trim_start_matches(WS));
            "structure.tab"
        }
        _ => return,
    };
    cx.count(what);
    must_reject(cx, &(out.join("\n") + "\n"), &format!("malformed structure accepted: {what}"));
}

// ------------------------------------------------------------------ C12

pub const LOSS: Prop = Prop {
    id: "C12",
    rule: "distinct mutated documents that were accepted",
    fixed: None,
    case: loss,
    quick: 1_000_000,
    thorough: 8_000_000,
    must: &["accepted", "rejected", "words", "mutations", "accepted.cyclic"],
    stack: 16 << 20,
    assumptions: &["mutations insert no `#` and `%`, the only characters that start ignored text", "maps with keys that hold no word are not decided: their entries may replace each other"],
};

fn words_of(doc: &str) -> HashSet<&str> {
    doc.split(|c: char| !c.is_ascii_alphanumeric())
        .filter(|w| w.len() >= 3 && w.starts_with('w') && w.ends_with('x') && w[1..w.len() - 1].bytes().all(|c| c.is_ascii_digit()))
        .collect()
}

fn text_of(n: &NodeRc, out: &mut String, blank_key: &mut bool) {
    out.push(' ');
    out.push_str(n.tag());
    out.push(' ');
    match n.yaml() {
        Yaml::Str(s) | Yaml::Int(s) | Yaml::Float(s) | Yaml::Alias(s) => out.push_str(s),
        Yaml::Seq(v) => v.iter().for_each(|n| text_of(n, out, blank_key)),
        Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            let mut s = String::new();
            text_of(k, &mut s, blank_key);
            *blank_key |= words_of(s.strip_prefix(&format!(" {}", k.tag())).unwrap_or(&s)).is_empty();
            out.push_str(&s);
            text_of(v, out, blank_key);
        }),
        _ => {}
    }
}

fn loss(cx: &mut Ctx, r: &mut Rng) {
    let o = TreeOpt { nodes: 20, width: 4, ..TREE };
    let o = grow(r, o);
    let mut docs: Vec<N> = (0..*r.pick(&[1, 1, 1, 2])).map(|_| coll(r, &o)).collect();
    let mut i = 0;
    for d in &mut docs {
        d.walk_mut(&mut |n| {
            if !n.is_coll() {
                let mut s = String::new();
                for j in 0..*r.pick(&[1, 1, 1, 2, 4]) {
                    if j > 0 {
                        s.push_str(r.ps(&[" ", " ", "\n", "\n\n", ", ", ": ", " - ", "'", "\"", "] ", " {"]));
                    }
                    i += 1;
                    s.push_str(&format!("w{i}x"));
                }
                if r.chance(1, 12) {
                    s.push('\n');
                }
                n.v = V::Str(s);
                // An alias, of no anchor
                if r.chance(1, 10) {
                    i += 1;
                    n.v = V::Alias(format!("w{i}x"));
                    cx.count("aliases");
                    return;
                }
                if r.chance(1, 12) {
                    i += 1;
                    n.anchor = Some(format!("w{i}x"));
                }
                if r.chance(1, 12) {
                    i += 1;
                    n.tag = Some(format!("w{i}x"));
                }
            }
        });
    }
    let mut st = random_style(r);
    st.comments = false;
    // A key is written in one way
    st.escapes = false;
    let (mut doc, _) = render(r, st, vec![], &mut docs);
    if doc.contains(['#', '%']) {
        return;
    }
    let n = *r.pick(&[0, 1, 1, 1, 2, 3, 5]);
    for _ in 0..n {
        cx.count("mutations");
        mutate(r, &mut doc);
    }
    if doc.contains(['#', '%']) {
        return;
    }
    let words: HashSet<String> = words_of(&doc).into_iter().map(String::from).collect();
    // A word that is written twice may replace an entry
    let total = doc.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| words.contains(*w)).count();
    if total != words.len() {
        cx.count("skipped.repeated");
        return;
    }
    cx.input(&doc);
    let (v, anchors) = match parse_cyclic::<RcRepr>(&doc) {
        Ok(v) => v,
        Err(_) => {
            cx.eval();
            cx.count("rejected");
            return;
        }
    };
    cx.count("accepted");
    if n > 0 {
        cx.nontrivial(&doc);
    }
    if doc.contains('*') {
        cx.count("accepted.cyclic");
    }
    let mut text = String::new();
    let mut blank = false;
    for n in &v {
        text_of(n, &mut text, &mut blank);
    }
    for a in &anchors {
        for k in a.keys() {
            text.push(' ');
            text.push_str(k);
        }
    }
    let lost: Vec<&String> = words.iter().filter(|w| !text.contains(w.as_str())).collect();
    cx.add("words", words.len() as u64);
    if !lost.is_empty() && blank {
        cx.count("skipped.blank-key");
        return;
    }
    cx.check(lost.is_empty(), "accepted text is lost", || format!("{lost:?} in {v:?}"));
    if cx.case % 101 == 0 {
        cx.sample(doc);
    }
}

/// One edit of a text.
pub fn mutate(r: &mut Rng, doc: &mut String) {
    let at = |r: &mut Rng, d: &str| {
        let mut i = r.below(d.len() + 1);
        while !d.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    match r.below(14) {
        12 => {
            // Join words by an unusual character, or insert one behind a word
            let b = doc.as_bytes();
            let v: Vec<usize> = (1..b.len()).filter(|i| b[i - 1].is_ascii_alphanumeric() && (b[*i].is_ascii_whitespace() || b[*i].is_ascii_punctuation())).collect();
            if !v.is_empty() {
                let i = *r.pick(&v);
                let e = if r.chance(1, 2) { i } else { i + 1 };
                doc.replace_range(i..e, r.ps(&["_", ".", "/", "=", ";", "+", "~", "^", "$", "%", "(", ")", "@", "#", "é", "\\", "_b", ".b", "+b", "_w0x ", ".w0x\n", "=w0x"]));
            }
        }
        13 => {
            // Anything behind an alias, an anchor or a tag
            let b = doc.as_bytes();
            let v: Vec<usize> = (0..b.len()).filter(|i| b"*&!".contains(&b[*i])).collect();
            if !v.is_empty() {
                let i = *r.pick(&v);
                let i = i + 1 + b[i + 1..].iter().take_while(|c| c.is_ascii_alphanumeric()).count();
                doc.insert_str(i, r.ps(&["_", ".", "_w0x", ".w0x", "/w0x", "=w0x", "+w0x", "~w0x", " w0x", "\tw0x", "\nw0x", "éw0x", "\"w0x", "'w0x", ":w0x", ": w0x", ",w0x", "_b", ".b c", "/b", "+", "=b", "~", "é", "-", "!", "*", "&", ":", ",", "]", " b", "\tb", "\n", "#", " #c", "'", "\""]));
            }
        }
        0 | 1 => {
            // Insert an indicator
            let i = at(r, doc);
            doc.insert_str(i, r.ps(&[" ", "  ", "\n", ":", ": ", "-", "- ", "? ", "[", "]", "{", "}", ",", ", ", "'", "\"", "&", "*", "!", "|", ">", "@", "`", "@ ", "~", "=", "<", "(", "\t", "---\n", "\n---\n", "\n...\n", "\\", "|\n", "&w0x ", "*w0x ", "!w0x "]));
        }
        10 => {
            // Insert an unusual character, or a line of it
            let mut i = at(r, doc);
            if r.chance(1, 2) {
                i = doc[..i].rfind('\n').map_or(0, |i| i + 1);
            }
            let c = *r.pick(&['\0', '\x01', '\x08', '\x0b', '\x0c', '\x1a', '\x1b', '\x1f', '\x7f', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{10ffff}', '\t', '\r']);
            doc.insert(i, c);
            if r.chance(1, 2) {
                doc.insert(i + c.len_utf8(), '\n');
            }
        }
        2 | 3 => {
            // Remove a character
            let i = at(r, doc);
            if i < doc.len() {
                doc.remove(i);
            }
        }
        4 | 5 => {
            // Indentation of a line
            let mut l: Vec<String> = doc.split('\n').map(String::from).collect();
            let i = r.below(l.len());
            if r.chance(1, 2) {
                l[i] = format!("{}{}", " ".repeat(r.range(1, 4)), l[i]);
            } else {
                let n = r.range(1, 4);
                for _ in 0..n {
                    if let Some(s) = l[i].strip_prefix(' ') {
                        l[i] = s.to_string();
                    }
                }
            }
            *doc = l.join("\n");
        }
        6 => {
            // Swap lines
            let mut l: Vec<&str> = doc.split('\n').collect();
            let (i, j) = (r.below(l.len()), r.below(l.len()));
            l.swap(i, j);
            *doc = l.join("\n");
        }
        7 => {
            // Remove a line
            let mut l: Vec<&str> = doc.split('\n').collect();
            let i = r.below(l.len());
            l.remove(i);
            *doc = l.join("\n");
        }
        8 => {
            // Replace a space or a line break
            let v: Vec<usize> = doc.char_indices().filter(|(_, c)| c.is_ascii_whitespace()).map(|(i, _)| i).collect();
            if !v.is_empty() {
                let i = *r.pick(&v);
                doc.replace_range(i..i + 1, r.ps(&["", " ", "\n", "\n ", "  ", "\r\n"]));
            }
        }
        _ => {
            // Replace an indicator
            let v: Vec<usize> = doc.char_indices().filter(|(_, c)| c.is_ascii_punctuation()).map(|(i, _)| i).collect();
            if !v.is_empty() {
                let i = *r.pick(&v);
                doc.replace_range(i..i + 1, r.ps(&["", ":", "-", ",", "[", "]", "{", "}", "?", "'", "\"", "|", ">", "&", "*", "!"]));
            }
        }
    }
}

/// Bytes through the loader have the same indication.
#[allow(unused)]
pub fn bytes_error(cx: &mut Ctx, doc: &[u8]) {
    if let Err(PError::Terminate { name, msg }) = Loader::<RcRepr>::new(doc).parse() {
        let l = locate(doc, &msg);
        cx.check(l.is_ok(), "error message is not an indication of the document", || format!("{name}: {}", l.unwrap_err()));
    }
}
