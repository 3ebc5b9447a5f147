//! Layout without meaning, and JSON documents.
use crate::{core::*, model::*, render::*};
use yaml_peg::{parse, repr::RcRepr, NodeRc, Yaml};

// ------------------------------------------------------------------ C13

pub const LAYOUT: Prop = Prop {
    id: "C13",
    rule: "distinct (edited document, kind of edit) pairs whose edit changed the text",
    fixed: Some(layout_fixed),
    case: layout,
    quick: 600_000,
    thorough: 4_000_000,
    must: &[
        "edit.newline", "edit.comment", "edit.own-comment", "edit.blank", "edit.trailing", "edit.marker", "edit.end", "edit.directive",
        "edit.scale", "edit.wrap.map", "edit.wrap.seq", "edit.wrap.siblings", "edit.flow-space", "edit.noise", "combined", "edit.trailing.tab", "edit.comment.tab", "edit.tab",
    ],
    stack: 16 << 20,
    assumptions: &["lines are edited only in documents whose scalars do not span lines, whole documents are edited in any presentation"],
};

/// Other white space is text.
pub const WS: [char; 4] = [' ', '\t', '\r', '\n'];

fn starts(doc: &str) -> &str {
    doc.lines().map(|l| l.trim_end_matches(WS)).find(|l| !l.trim_start_matches(WS).is_empty() && !l.trim_start_matches(WS).starts_with('#')).unwrap_or("")
}

fn marked(doc: &str) -> bool {
    let s = starts(doc);
    s.starts_with('%') || s.starts_with("---")
}

fn has_marker(doc: &str) -> bool {
    doc.split(['\n', '\r']).any(|l| l.starts_with("---") || l.starts_with("...") || l.starts_with('%'))
}

/// Two documents must have the same content.
fn equal(cx: &mut Ctx, a: &[NodeRc], doc: &str, sig: &str, path: &str) {
    cx.input(doc);
    match parse::<RcRepr>(doc) {
        Err(e) => {
            cx.check(false, &format!("rejected after the edit: {sig}"), || e.to_string());
        }
        Ok(b) => {
            let b: Vec<NodeRc> = match path {
                "" => b,
                p => match super::ctxt::at(&b, p) {
                    Some(n) => vec![n.clone()],
                    None => vec![],
                },
            };
            let a: Vec<N> = a.iter().map(unbuild).collect();
            let d = same_docs(&a, &b, Cmp { tags: true, pos: false });
            cx.check(d.is_ok(), &format!("changed by the edit: {sig}"), || d.unwrap_err());
        }
    }
}

const COMMENTS: &[&str] = &["#", "# c", "#c", "# a: b", "#- x", "# [", "# ]}", "# \"", "# '", "# é {", "# ---", "# | >", "#\tx", "# &a *a !t", "# # #", "#: ", "#%"];

/// A few lines, rarely some hundreds.
fn lines(cx: &mut Ctx, r: &mut Rng, n: usize) -> usize {
    if r.chance(1, 2000) {
        cx.count("edit.many-lines");
        r.range(30, 700)
    } else {
        r.range(1, n)
    }
}

/// Edits of the lines; no scalar spans lines.
fn line_edit(cx: &mut Ctx, r: &mut Rng, doc: &str, kinds: &[&'static str]) -> String {
    let mut out = String::new();
    let many = r.range(1, 4);
    // A separator line has an end marker and no noise in front of the directives
    let mut directives = doc.starts_with('%');
    for l in doc.split_inclusive('\n') {
        let (text, nl) = match l.strip_suffix('\n') {
            Some(t) => (t, "\n"),
            None => (l, ""),
        };
        let skip = text.starts_with('%') || directives && !text.starts_with("---");
        if text.starts_with("---") {
            directives = false;
        }
        out.push_str(text);
        // A tab is a space only behind a complete value
        let word = text.rsplit(' ').next().unwrap_or("");
        let tab = !text.starts_with("---") && !word.starts_with(['&', '!', '|', '>']) && word.ends_with(|c: char| c.is_alphanumeric() || "]}'\"".contains(c));
        if !skip && r.below(4) < many {
            for k in kinds {
                match *k {
                    "edit.trailing" if tab && r.chance(1, 3) => {
                        out.push_str(r.ps(&["\t", " \t", "\t ", "\t\t"]));
                        cx.count("edit.trailing.tab");
                    }
                    "edit.trailing" => out.push_str(r.ps(&[" ", "  ", "   "])),
                    "edit.comment" => {
                        if !text.contains(" #") && !text.trim_start_matches(WS).starts_with('#') {
                            if tab && r.chance(1, 3) {
                                out.push_str(r.ps(&["\t", " \t", "\t "]));
                                cx.count("edit.comment.tab");
                            } else {
                                out.push_str(r.ps(&[" ", "  "]));
                            }
                            out.push_str(r.ps(COMMENTS));
                        }
                    }
                    _ => continue,
                }
                cx.count(k);
            }
        }
        out.push_str(nl);
        if !skip && !nl.is_empty() && r.below(4) < many {
            for k in kinds {
                match *k {
                    "edit.blank" => {
                        for _ in 0..lines(cx, r, 3) {
                            out.push_str(r.ps(&["", "", " ", "    ", "\t", " \t "]));
                            out.push('\n');
                        }
                    }
                    "edit.own-comment" => {
                        for _ in 0..lines(cx, r, 2) {
                            out.push_str(&" ".repeat(r.below(9)));
                            out.push_str(r.ps(COMMENTS));
                            out.push('\n');
                        }
                    }
                    _ => continue,
                }
                cx.count(k);
            }
        }
    }
    out
}

/// Separate the words with tabs.
///
/// The spaces in front of a compact collection are an indentation.
fn tabs(r: &mut Rng, doc: &str) -> String {
    let mut out = String::new();
    let many = r.range(1, 3);
    for l in doc.split_inclusive(['\n', '\r']) {
        let text = l.trim_end_matches(['\n', '\r']);
        let start = text.len() - text.trim_start_matches(WS).len();
        if text.starts_with('%') || text[start..].starts_with(['?', ':']) {
            out.push_str(l);
            continue;
        }
        for (i, c) in l.char_indices() {
            let (head, tail) = (&l[start.min(i)..i], l[i + c.len_utf8()..].trim_end_matches(WS));
            let word = head.rsplit([' ', '\t', '[', '{', ',']).next().unwrap_or("");
            let simple = tail.starts_with(['[', '{']) && !["]:", "}:", "] :", "} :"].iter().any(|s| tail.contains(s)) || !tail.contains(':') && !tail.trim_start_matches(WS).starts_with(['-', '?']);
            let ok = match word {
                "" => false,
                "-" => simple,
                _ => word.ends_with([':', ',']) || word.starts_with(['&', '!', '*']) || tail.starts_with(':'),
            };
            if c == ' ' && i > start && ok && !tail.is_empty() && !tail.starts_with(['|', '>']) && r.below(4) < many {
                out.push_str(r.ps(&["\t", "\t", " \t", "\t ", "\t\t"]));
            } else {
                out.push(c);
            }
        }
    }
    out
}

/// Multiply all indentation, includes the compact collections.
fn scale(doc: &str, k: usize) -> String {
    let mut out = String::new();
    for l in doc.split_inclusive('\n') {
        let mut s = l;
        loop {
            if let Some(t) = s.strip_prefix("  ") {
                out.push_str(&" ".repeat(2 * k));
                s = t;
            } else if s.starts_with("- ") || s.starts_with("? ") || s.starts_with(": ") {
                out.push_str(&s[..1]);
                out.push_str(&" ".repeat(2 * k - 1));
                s = &s[2..];
            } else {
                break;
            }
        }
        out.push_str(s);
    }
    out
}

/// Indent the lines which are not blank.
fn indent_by(doc: &str, n: usize, first: bool) -> String {
    let mut out = String::new();
    for (i, l) in doc.split_inclusive('\n').enumerate() {
        if (i > 0 || first) && !l.trim_matches(WS).is_empty() {
            out.push_str(&" ".repeat(n));
        }
        out.push_str(l);
    }
    out
}

fn flow_spaces(r: &mut Rng, doc: &str) -> String {
    let mut out = String::new();
    let c: Vec<char> = doc.chars().collect();
    for (i, ch) in c.iter().enumerate() {
        let sp = |r: &mut Rng| " ".repeat(r.below(3));
        match ch {
            '[' | '{' => {
                out.push(*ch);
                out.push_str(&sp(r));
            }
            ']' | '}' if c[..i].last() != Some(&'\n') => {
                out.push_str(&sp(r));
                out.push(*ch);
            }
            ',' => {
                out.push_str(&sp(r));
                out.push(',');
                out.push_str(&sp(r));
            }
            _ => out.push(*ch),
        }
    }
    out
}

fn layout_fixed(cx: &mut Ctx) {
    // Small documents with every newline and a comment at every line end
    const DOCS: &[&str] = &[
        "a: 1\nb:\n  - x\n  - y: z\n    w: v\nc:\n- d\n- e\n",
        "- - a\n  - b\n- c: d\n  e:\n    f: g\n- []\n- {}\n",
        "? a\n: b\n? - c\n  - d\n: e\n? f\n",
        "k:\n  k2:\n    k3: v\n  k4: w\nk5: x\n",
        "---\na: 1\n...\n---\nb: 2\n---\n- c\n",
        "-\n  a: b\n-\n  - c\n-\n- d\n",
        "a:\nb:\n  c:\n  d:\n",
        "\"a\": 'b'\n'c': \"d\"\n5: 1.5\n[x]: {y: z}\n",
    ];
    for d in DOCS {
        cx.input(d);
        let Ok(a) = parse::<RcRepr>(d) else {
            cx.check(false, "well-formed document rejected", || d.to_string());
            continue;
        };
        let lines = d.matches('\n').count();
        for nl in ["\r\n", "\r", "\n"] {
            equal(cx, &a, &d.replace('\n', nl), "newline", "");
            // At each line, everything alone
            for i in 0..lines {
                for ins in [" # c", " ", "   ", "   # c: [", " #", "\n", "\n\n", "\n# c", "\n      # c", "\n   ", " # c\n # d\n\n  # e"] {
                    let mut n = 0;
                    let mut s = String::new();
                    for l in d.split_inclusive('\n') {
                        s.push_str(l.trim_end_matches('\n'));
                        if n == i {
                            s.push_str(ins);
                        }
                        s.push('\n');
                        n += 1;
                    }
                    equal(cx, &a, &s.replace('\n', nl), "line", "");
                }
            }
        }
        cx.count("documents");
    }
}

fn layout(cx: &mut Ctx, r: &mut Rng) {
    let single = r.chance(2, 3);
    let o = TreeOpt { nodes: 30, strings: if r.chance(1, 3) { 0 } else { 2 }, depth: 6, ..TREE };
    let o = grow(r, o);
    let n = if r.chance(1, 5) { r.range(2, 3) } else { 1 };
    let mut docs: Vec<N> = (0..n).map(|_| tree(r, &o)).collect();
    let mut st = random_style(r);
    st.nl = "\n";
    if single {
        st.multiline = false;
        st.comments = false;
        st.trailing = false;
    }
    // Scaling needs even indentation
    let even = single && r.chance(1, 2);
    if even {
        st.wide = false;
        st.spaces = false;
        st.blanks = false;
    }
    let (doc, _) = render(r, st, vec![], &mut docs);
    cx.input(&doc);
    let a = match parse::<RcRepr>(&doc) {
        Ok(a) => a,
        Err(e) => {
            cx.check(false, "well-formed document rejected", || e.to_string());
            return;
        }
    };
    let mut out = doc.clone();
    let mut done: Vec<&str> = vec![];
    let mut path = "";
    if single {
        if even && r.chance(1, 2) && !doc.contains('\t') {
            out = scale(&out, r.range(2, 4));
            done.push("edit.scale");
        }
        if o.strings == 0 && r.chance(1, 2) && !out.starts_with('%') {
            out = flow_spaces(r, &out);
            done.push("edit.flow-space");
        }
        if o.strings == 0 && r.chance(1, 3) {
            let edited = tabs(r, &out);
            if edited != out {
                out = edited;
                done.push("edit.tab");
            }
        }
        let all = ["edit.trailing", "edit.comment", "edit.blank", "edit.own-comment"];
        let kinds: Vec<&'static str> = all.iter().copied().filter(|_| r.chance(1, 2)).collect();
        if !kinds.is_empty() {
            out = line_edit(cx, r, &out, &kinds);
            done.extend(kinds);
        }
    }
    // Edits of the whole document
    if r.chance(1, 2) && !marked(&out) {
        if n == 1 && !has_marker(&out) && r.chance(2, 3) && !starts(&out).is_empty() {
            // Into an outer collection
            let coll = docs[0].is_coll();
            let first = starts(&out);
            let head = out.lines().next().unwrap_or("");
            let same_line = head == first && !first.starts_with([' ', '\t']);
            let block = !first.trim_start_matches(WS).starts_with(['|', '>']);
            let k = r.range(1, 4);
            let tail = out.ends_with('\n');
            match r.below(4) {
                0 if block => {
                    out = format!("k:\n{}", indent_by(&out, k, true));
                    path = "v";
                    done.push("edit.wrap.map");
                }
                1 if same_line && !coll => {
                    out = format!("k: {}", indent_by(&out, k, false));
                    path = "v";
                    done.push("edit.wrap.map");
                }
                1 | 2 if same_line && r.chance(1, 2) => {
                    out = format!("-{}{}", " ".repeat(k), indent_by(&out, k + 1, false));
                    path = "0";
                    done.push("edit.wrap.seq");
                }
                2 | 3 if block && tail && r.chance(1, 2) => {
                    out = format!("z: 1\nk:\n{}y: 2\n", indent_by(&out, k, true));
                    path = "v";
                    done.push("edit.wrap.siblings");
                }
                _ if block => {
                    out = format!("-\n{}{}", indent_by(&out, k, true), if tail { "- x\n" } else { "" });
                    path = "0";
                    done.push("edit.wrap.seq");
                }
                _ => {}
            }
        } else {
            match r.below(3) {
                0 => {
                    out = format!("---\n{out}");
                    done.push("edit.marker");
                }
                1 => {
                    out = format!("{}\n---\n{out}", r.ps(&["%FOO", "%FOO bar baz", "%RESERVED a: b", "%X # c"]));
                    done.push("edit.directive");
                }
                _ => {
                    out = format!("{}{out}", r.ps(&["\n", "# c\n", "\n\n# c\n\n", "   # c\n", "#\n", " \n"]));
                    done.push("edit.noise");
                }
            }
        }
    }
    if r.chance(1, 3) && path.is_empty() && !out.split(['\n', '\r']).any(|l| l.starts_with("...")) && out.ends_with('\n') {
        out.push_str(r.ps(&["...", "...\n", "... \n", "... # c\n", "...\n\n", "...\n# c\n"]));
        done.push("edit.end");
    }
    if r.chance(1, 3) {
        let nl = r.ps(&["\r\n", "\r"]);
        out = out.replace('\n', nl);
        done.push("edit.newline");
    }
    if out == doc {
        return;
    }
    done.iter().filter(|k| !["edit.trailing", "edit.comment", "edit.blank", "edit.own-comment"].contains(k)).for_each(|k| cx.count(k));
    if done.len() > 1 {
        cx.count("combined");
    }
    cx.nontrivial(&out);
    if cx.case % 997 == 0 {
        cx.sample(out.clone());
    }
    equal(cx, &a, &out, &done.join(" "), path);
}

// ------------------------------------------------------------------ C29

pub const JSON: Prop = Prop {
    id: "C29",
    rule: "distinct JSON texts of more than two tokens",
    fixed: Some(json_fixed),
    case: json,
    quick: 1_200_000,
    thorough: 8_000_000,
    must: &["compact", "pretty", "wild", "surrogates", "escapes", "float", "int", "empty", "nested", "deep"],
    stack: 16 << 20,
    assumptions: &["keys are unique; a tab is generated only inside of a collection"],
};

fn json_string(cx: &mut Ctx, r: &mut Rng, s: &str, out: &mut String) {
    out.push('"');
    let level = r.below(3);
    for c in s.chars() {
        let must = c < ' ' || c == '"' || c == '\\';
        if !(must || level > 0 && r.chance(1, 8) || level > 1 && !c.is_ascii()) {
            out.push(c);
            continue;
        }
        let short = match c {
            '"' => "\\\"",
            '\\' => "\\\\",
            '/' => "\\/",
            '\x08' => "\\b",
            '\x0C' => "\\f",
            '\n' => "\\n",
            '\r' => "\\r",
            '\t' => "\\t",
            _ => "",
        };
        cx.count("escapes");
        if !short.is_empty() && r.chance(2, 3) {
            out.push_str(short);
        } else {
            let mut b = [0; 2];
            let b = c.encode_utf16(&mut b);
            if b.len() > 1 {
                cx.count("surrogates");
            }
            for u in b {
                out.push_str(&if r.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
            }
        }
    }
    out.push('"');
}

/// 0: compact, 1: pretty, 2: wild
fn json_ws(r: &mut Rng, mode: usize, inside: bool, out: &mut String) {
    if mode == 2 {
        for _ in 0..r.below(3) {
            out.push_str(r.ps(if inside { &[" ", "  ", "\n", "\r\n", "\r", "\t", " \t", "\n\t "] } else { &[" ", "\n", "\r\n", "\r"] }));
        }
    }
}

fn json_text(cx: &mut Ctx, r: &mut Rng, n: &N, mode: usize, ind: usize, out: &mut String) {
    let line = |out: &mut String, ind: usize| {
        if mode == 1 {
            out.push('\n');
            out.push_str(&"  ".repeat(ind));
        }
    };
    match &n.v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::Int(i) => {
            cx.count("int");
            out.push_str(&i.to_string());
        }
        V::Float(f) => {
            cx.count("float");
            match r.below(4) {
                0 => out.push_str(&format!("{f:e}")),
                1 => out.push_str(&format!("{f:E}")),
                2 => {
                    let s = format!("{f:e}");
                    let (m, e) = s.split_once('e').unwrap();
                    out.push_str(&if e.starts_with('-') { s.clone() } else { format!("{m}e+{e}") });
                }
                _ => out.push_str(&format!("{f:?}")),
            }
        }
        V::Str(s) => json_string(cx, r, s, out),
        V::Seq(v) => {
            out.push('[');
            if v.is_empty() {
                cx.count("empty");
            }
            json_ws(r, mode, true, out);
            for (i, n) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                line(out, ind + 1);
                json_ws(r, mode, true, out);
                json_text(cx, r, n, mode, ind + 1, out);
                json_ws(r, mode, true, out);
            }
            if !v.is_empty() {
                line(out, ind);
            }
            out.push(']');
        }
        V::Map(m) => {
            out.push('{');
            if m.is_empty() {
                cx.count("empty");
            }
            json_ws(r, mode, true, out);
            for (i, (k, n)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                line(out, ind + 1);
                json_ws(r, mode, true, out);
                json_text(cx, r, k, mode, ind + 1, out);
                json_ws(r, mode, true, out);
                out.push(':');
                if mode == 1 {
                    out.push(' ');
                }
                json_ws(r, mode, true, out);
                json_text(cx, r, n, mode, ind + 1, out);
                json_ws(r, mode, true, out);
            }
            if !m.is_empty() {
                line(out, ind);
            }
            out.push('}');
        }
        V::Alias(_) => unreachable!(),
    }
}

fn json_same(j: &serde_json::Value, y: &NodeRc) -> bool {
    use serde_json::Value as J;
    match (j, y.yaml()) {
        (J::Null, Yaml::Null) => true,
        (J::Bool(a), Yaml::Bool(b)) => a == b,
        (J::Number(a), Yaml::Int(b)) => a.as_i128().or(a.as_u64().map(|a| a as i128)).is_none_or(|a| int_value(b) == Some(a)),
        // The number parser of serde_json is not exact by default, the generating tree is
        (J::Number(a), Yaml::Float(b)) => a.as_f64().is_none_or(|a| float_value(b).is_some_and(|b| a == b || (a - b).abs() <= a.abs() * 1e-14 + 1e-322)),
        (J::String(a), Yaml::Str(b)) => a == b,
        (J::Array(a), Yaml::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| json_same(a, b)),
        (J::Object(a), Yaml::Map(b)) => a.len() == b.len() && a.iter().all(|(k, v)| y.get(k.as_str()).is_ok_and(|n| json_same(v, n))),
        _ => false,
    }
}

fn json_one(cx: &mut Ctx, doc: &str, n: Option<&N>) {
    cx.input(doc);
    let j = match serde_json::from_str::<serde_json::Value>(doc) {
        Ok(j) => Some(j),
        // Numbers beyond its range, and its limit of the depth
        Err(e) if e.to_string().contains("out of range") || e.to_string().contains("recursion") => None,
        Err(e) => panic!("the generated text is not JSON: {e}\n{doc}"),
    };
    match parse::<RcRepr>(doc) {
        Err(e) => {
            cx.check(false, "JSON document rejected", || e.to_string());
        }
        Ok(v) => {
            if let Some(n) = n {
                let d = same_docs(std::slice::from_ref(n), &v, Cmp { tags: true, pos: false });
                cx.check(d.is_ok(), "JSON document is read differently", || d.unwrap_err());
            }
            if let Some(j) = j {
                cx.check(v.len() == 1 && json_same(&j, &v[0]), "differs from the JSON parser", || format!("{j:?} read as {v:?}"));
            }
        }
    }
}

fn json_fixed(cx: &mut Ctx) {
    for d in [
        "{}", "[]", "[[]]", "[{}]", "{\"\":{}}", "\"\"", "0", "-0", "-0.0", "1e5", "1E+5", "1e-05", "0.1", "-1.5e300", "null", "true", "false", "[null,true,false]",
        "[\"a\",\"b\"]", "{\"a\":\"b\",\"c\":[1,2,{\"d\":null}]}", "{\"a\":1}", "{\"a\" : 1 }", "[1\n,2\n]", "{\"a\"\n:\n1\n}", "{\n\t\"a\": [\n\t\t1,\n\t\t2\n\t]\n}",
        "[\"\\\"\", \"\\\\\", \"\\/\", \"\\b\\f\\n\\r\\t\", \"\\u0041\\u00e9\\ud83d\\ude00\"]", "[\"// # not a comment\", \"a: b\", \"- a\", \"[\", \"{\"]",
        "{\"a b\": 1, \"c:d\": 2, \"#\": 3, \"?\": 4, \"-\": 5, \"null\": 6, \"1\": 7}", "[ ]", "{ }", "[\n]", "{\n}", "[ 1 , 2 ]", "[-1,-2.5,3e3]", "[1.0,10.00,100.0e0]", "\"a\"", " \"a\" ",
    ] {
        json_one(cx, d, None);
        json_one(cx, &format!("{d}\n"), None);
        json_one(cx, &format!("[{d}]"), None);
        json_one(cx, &format!("{{\"k\":{d}}}"), None);
        json_one(cx, &format!("{{\"k\":{d},\"l\":[{d},{d}]}}"), None);
    }
    for d in [10, 50, 100, 120] {
        cx.count("deep");
        json_one(cx, &format!("{}1{}", "[".repeat(d), "]".repeat(d)), None);
        json_one(cx, &format!("{}1{}", "{\"a\":".repeat(d), "}".repeat(d)), None);
        json_one(cx, &format!("{}{}", "[\n".repeat(d), "]\n".repeat(d)), None);
    }
    // Every escape of one unit
    for c in (0u32..0x300).chain(0x2000..0x2100).chain([0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF]) {
        json_one(cx, &format!("[\"a\\u{c:04x}b\"]"), Some(&V::Seq(vec![N::str(&format!("a{}b", char::from_u32(c).unwrap()))]).into()));
    }
    for c in [0x10000u32, 0x10001, 0x103FF, 0x10400, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF] {
        let m = c - 0x10000;
        let ch = char::from_u32(c).unwrap();
        let s = format!("{{\"\\u{:04x}\\u{:04x}\": \"x{ch}\"}}", 0xD800 + (m >> 10), 0xDC00 + (m & 0x3FF));
        json_one(cx, &s, Some(&V::Map(vec![(N::str(&ch.to_string()), N::str(&format!("x{ch}")))]).into()));
    }
}

fn json(cx: &mut Ctx, r: &mut Rng) {
    let o = TreeOpt { complex_keys: false, typed_keys: false, nodes: if r.chance(1, 20) { 200 } else { 30 }, depth: r.range(1, 9), width: 6, ..TREE };
    let mut t = tree(r, &o);
    // JSON has no special floats
    t.walk_mut(&mut |n| {
        if let V::Float(f) = &mut n.v {
            if !f.is_finite() {
                *f = 0.5;
            }
        }
    });
    let mode = r.below(3);
    cx.count(["compact", "pretty", "wild"][mode]);
    if t.depth() > 2 {
        cx.count("nested");
    }
    let mut doc = String::new();
    json_ws(r, mode, false, &mut doc);
    json_text(cx, r, &t, mode, 0, &mut doc);
    json_ws(r, mode, false, &mut doc);
    if t.size() > 2 {
        cx.nontrivial(&doc);
    }
    if cx.case % 499 == 0 {
        cx.sample(doc.clone());
    }
    json_one(cx, &doc, Some(&t));
}
