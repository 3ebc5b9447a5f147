//! Totality: any input returns nodes or an error, with proportional work.
use crate::{alloc_mon, core::*, model::*, render::*, repr_mon::*};
use std::{
    collections::{hash_map::DefaultHasher, HashMap},
    hash::{Hash, Hasher},
};
use yaml_peg::{
    dump,
    parser::{Loader, PError},
    repr::{RcRepr, Repr},
    Node, Yaml,
};

pub const TOTAL: Prop = Prop {
    id: "C01",
    rule: "distinct inputs of at least four bytes which were read in both modes",
    fixed: Some(total_fixed),
    case: total,
    quick: 400_000,
    thorough: 6_000_000,
    must: &[
        "soup", "bytes", "mutated", "truncated", "spliced", "long", "deep", "scale", "accepted", "rejected", "dumped", "hashed", "cyclic", "rejected.depth", "replaced",
    ],
    stack: 2 << 20,
    assumptions: &[
        "CPU time is compared only as a ratio of the same construct in eight sizes with a margin of three, after repetitions",
        "nodes that expand to more than 20000 nodes through aliases are not dumped, compared or hashed",
    ],
};

/// Allocations per byte of the input, an order of magnitude above what is observed.
const EVENTS_PER_BYTE: u64 = 30;
const BYTES_PER_BYTE: u64 = 4_000;

/// The number of nodes behind all aliases, `None` if it is too large.
pub fn expanded<R: Repr>(n: &Node<R>, seen: &mut HashMap<*const Yaml<R>, u64>) -> u64 {
    let p: *const Yaml<R> = n.yaml();
    if let Some(c) = seen.get(&p) {
        return *c;
    }
    let c = match n.yaml() {
        Yaml::Seq(v) => v.iter().fold(1u64, |a, n| a.saturating_add(expanded(n, seen))),
        Yaml::Map(m) => m.iter().fold(1u64, |a, (k, v)| a.saturating_add(expanded(k, seen)).saturating_add(expanded(v, seen))),
        _ => 1,
    };
    seen.insert(p, c);
    c
}

/// Texts are encoded by the rules of the language, in any case.
pub fn encoded(s: &str) -> bool {
    std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_ok()
}

/// All texts of the node are encoded by the rules.
pub fn all_encoded<R: Repr>(n: &Node<R>, left: &mut usize) -> bool {
    *left = left.saturating_sub(1);
    if *left == 0 {
        return true;
    }
    encoded(n.tag())
        && match n.yaml() {
            Yaml::Str(s) | Yaml::Int(s) | Yaml::Float(s) | Yaml::Alias(s) => encoded(s),
            Yaml::Seq(v) => v.iter().all(|n| all_encoded(n, left)),
            Yaml::Map(m) => m.iter().all(|(k, v)| all_encoded(k, left) && all_encoded(v, left)),
            _ => true,
        }
}

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Read the bytes in a mode, then use the result. Panics, signals, endless
/// loops and exhausted stacks are caught by the monitors outside.
fn read<R: Repr>(cx: &mut Ctx, doc: &[u8], cyclic: bool) -> bool {
    let a0 = alloc_mon::snap();
    let mut loader = Loader::<R>::new(doc).cyclic_mode(cyclic);
    let res = loader.parse();
    let a1 = alloc_mon::snap();
    cx.eval();
    let (events, bytes) = (a1.events - a0.events, a1.bytes - a0.bytes);
    let len = doc.len() as u64 + 16;
    if events > EVENTS_PER_BYTE * len || bytes > BYTES_PER_BYTE * len {
        cx.fail("work is not proportional", format!("{events} allocations of {bytes} bytes for {len} bytes"));
    }
    let m = (events * 100 / len).max(cx.counts.get("max.events-per-100-bytes").copied().unwrap_or(0));
    cx.counts.insert("max.events-per-100-bytes".into(), m);
    let m = (bytes / len).max(cx.counts.get("max.bytes-per-byte").copied().unwrap_or(0));
    cx.counts.insert("max.bytes-per-byte".into(), m);
    match res {
        Err(e) => {
            cx.count("rejected");
            if matches!(e, PError::Mismatch) {
                cx.fail("the loader returns an internal mismatch", String::new());
            }
            let s = e.to_string();
            cx.check(encoded(&s), "the error is no text", String::new);
            if s.contains("nesting depth") {
                cx.count("rejected.depth");
            }
            drop(loader);
            false
        }
        Ok(v) => {
            cx.count("accepted");
            cx.add("documents", v.len() as u64);
            let anchors = loader.get_anchors();
            let mut left = 3000;
            let ok = v.iter().all(|n| all_encoded(n, &mut left)) && anchors.iter().flatten().all(|(a, n)| encoded(a) && all_encoded(n, &mut left));
            cx.check(ok, "the texts are no texts", String::new);
            let mut seen = HashMap::new();
            let n = v.iter().fold(0u64, |a, n| a.saturating_add(expanded(n, &mut seen)));
            if n <= 20_000 {
                let c = v.clone();
                let ok = c == v && hash64(&c) == hash64(&v);
                cx.count("hashed");
                cx.check(ok, "a clone differs", || "the clone of the result is not equal or has another hash".into());
                let s = if cyclic { dump(&v, &anchors) } else { dump(&v, &[]) };
                let s2 = format!("{v:?}");
                if cyclic && !anchors.is_empty() && !anchors[0].is_empty() {
                    cx.count("dumped.anchors");
                }
                cx.count("dumped");
                cx.add("dumped.bytes", (s.len() + s2.len()) as u64);
            } else {
                cx.count("skipped.huge");
            }
            if cyclic {
                cx.count("cyclic");
            }
            true
        }
    }
}

fn both(cx: &mut Ctx, doc: &[u8]) {
    cx.input(&String::from_utf8_lossy(doc));
    if doc.len() >= 4 {
        cx.nontrivial(doc);
    }
    let a = read::<RcRepr>(cx, doc, false);
    let b = read::<RcRepr>(cx, doc, true);
    // Whatever is read with the aliases replaced can be read with placeholders
    cx.check(b || !a, "only the cyclic mode rejects", String::new);
    // Anything that is no text is read as the replacement characters
    if std::str::from_utf8(doc).is_err() {
        let text = String::from_utf8_lossy(doc);
        let a = Loader::<RcRepr>::new(doc).parse();
        let b = Loader::<RcRepr>::new(text.as_bytes()).parse();
        cx.count("replaced");
        match (a, b) {
            (Ok(a), Ok(b)) => {
                let n = a.iter().fold(0u64, |s, n| s.saturating_add(expanded(n, &mut HashMap::new())));
                cx.check(a.len() == b.len() && (n > 2000 || a == b), "broken encodings are read in another way", || format!("{} and {}", brief(&format!("{a:?}")), brief(&format!("{b:?}"))));
            }
            (a, b) => {
                cx.check(a.is_err() && b.is_err(), "broken encodings have another outcome", || format!("{:?} and {:?}", a.err(), b.err()));
            }
        }
    }
}

pub const TOKENS: &[&str] = &[
    " ", " ", " ", "  ", "    ", "\n", "\n", "\n", "\n  ", "\n    ", "\r", "\r\n", "\t", "- ", "- ", "-", "? ", "?", ": ", ": ", ":", ":\n", "[", "]", "{", "}", ",", ", ", "'", "\"", "''", "\\", "\\\"", "\\\\",
    "\\n", "\\u12", "\\ud83d\\ude00", "\\ud83d\\u0041", "\\xZZ", "#", " #", "# c\n", "&a ", "&", "*a", "*a ", "*", "!t ", "!", "!!", "!!str ", "!<x> ", "!<", "!u!x ", "|\n", "|", ">\n", ">", "|-\n", "|+\n", ">-", ">+ # c\n", "|2\n", "---", "---\n", "--- ",
    "...", "...\n", "%YAML 1.2\n", "%YAML", "%TAG ! x\n", "%TAG !u! y:\n", "%TAG", "%", "%X y\n", "a", "b", "a: b", "k: v\n", "- x\n", "1", "-1", "1.5", "1e3", "0x1F", "0o7", "0x", "-", "+", ".", "~", "null", "true", ".inf", "-.inf", ".nan", "é", "日本", "😀", "\u{FEFF}",
    "\u{85}", "\u{2028}", "\0", "\x07", "<<", "=", "@", "`", "a b c", "[]", "{}", "[a, b]", "{a: b}", "[a: b]", "{a}", "[? a : b]", "\n\n", "\n\n\n",
];

pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    // A few tokens make structure more likely than all of them
    let few: Vec<&str> = (0..r.range(2, 8)).map(|_| r.ps(TOKENS)).collect();
    let mix = r.below(4);
    for _ in 0..n {
        s.push_str(if r.below(4) < mix { r.ps(TOKENS) } else { few[r.below(few.len())] });
    }
    s
}

pub fn rendered(r: &mut Rng) -> String {
    let o = TreeOpt { nodes: 25, ..TREE };
    let n = if r.chance(1, 4) { r.range(2, 3) } else { 1 };
    let mut docs: Vec<N> = (0..n).map(|_| tree(r, &o)).collect();
    if r.chance(1, 3) {
        let (mut next, mut done, mut aliases) = (0, vec![], 0);
        docs.iter_mut().for_each(|d| {
            done.clear();
            super::parse::plant(r, d, false, &mut next, &mut done, &mut aliases)
        });
    }
    let st = random_style(r);
    render(r, st, vec![], &mut docs).0
}

const OPEN: &[(&str, &str)] = &[
    ("[", "]"), ("{", "}"), ("{a: ", "}"), ("[a, ", "]"), ("- ", ""), ("? ", ""), ("[{", "}]"), ("{[", "]}"), ("[? ", "]"), ("{? ", "}"), ("{a: [", "]}"), ("[a: ", "]"), ("&a ", ""), ("!t [", "]"), ("[\n", "]"), ("{\n", "}"), ("- [", "]"),
    ("? - ", ""), ("- ? ", ""), ("a: ", ""), ("-\n", ""), (": ", ""), ("[\"a\": ", "]"), ("{\"a\":", "}"), ("[[], ", "]"), ("{{}: ", "}"), ("{[a]: ", "}"), ("[{a: b}, ", "]"),
];

/// Deeper and deeper lines.
fn stairs(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let unit = r.ps(&["a:", "-", "- a:", "? a\n", "a: # c", "\"a\":", "- &x", "- !t", "?", "- - a:", "[a]:", "a:\n"]);
    let w = r.range(1, 2);
    for i in 0..n {
        s.push_str(&" ".repeat(i * w));
        s.push_str(unit);
        s.push('\n');
    }
    if r.chance(1, 2) {
        s.push_str(&" ".repeat(n * w));
        s.push_str(r.ps(&["x", "- x", "a: b", "[", "|\n x", "\"", "[]"]));
    }
    s
}

pub fn deep(r: &mut Rng) -> String {
    let n = match r.below(5) {
        0 => r.range(1, 40),
        1 => r.range(200, 300),
        2 => r.range(300, 2_000),
        3 => *r.pick(&[10_000, 100_000]),
        _ => r.range(80, 260),
    };
    if r.chance(1, 4) {
        return stairs(r, n.min(400));
    }
    let mut s = String::new();
    let mut close = vec![];
    let kinds: Vec<_> = (0..r.range(1, 3)).map(|_| *r.pick(OPEN)).collect();
    if r.chance(1, 3) {
        s.push_str(r.ps(TOKENS));
    }
    for _ in 0..n {
        let (o, c) = *r.pick(&kinds);
        s.push_str(o);
        close.push(c);
    }
    s.push_str(r.ps(&["", "a", "1", "\"x", "*a", "[]", "a: b", "\n", "#", "|\n", "]", "}"]));
    if r.chance(2, 3) {
        while let Some(c) = close.pop() {
            s.push_str(c);
        }
    }
    if r.chance(1, 3) {
        s.push_str(r.ps(&["\n", ": x", ": x\n", ", a", "\na: b\n"]));
    }
    s
}

extern "C" {
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
}

/// CPU time of this thread in nanoseconds.
fn cpu_ns() -> u64 {
    let mut t = [0; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

fn cost(doc: &str, cyclic: bool) -> (u64, u64, u64) {
    let a0 = alloc_mon::snap();
    let t = cpu_ns();
    let r = Loader::<RcRepr>::new(doc.as_bytes()).cyclic_mode(cyclic).parse();
    let t = cpu_ns() - t;
    let a1 = alloc_mon::snap();
    drop(r);
    (a1.events - a0.events, a1.bytes - a0.bytes, t)
}

fn numbered(pre: &str, unit: &str, post: &str, n: usize) -> String {
    let mut s = pre.to_string();
    if unit.contains('\u{1}') {
        for i in 0..n {
            s.push_str(&unit.replace('\u{1}', &format!("k{i:06}")));
        }
    } else {
        s.push_str(&unit.repeat(n));
    }
    s + post
}

/// The work for eight times the units is about eight times the work.
fn scale(cx: &mut Ctx, pre: &str, unit: &str, post: &str, size: usize) {
    let n = (size / unit.len().max(1)).max(8);
    let small = numbered(pre, unit, post, n);
    let large = numbered(pre, unit, post, n * 8);
    cx.input(&format!("{pre:?} + {unit:?} * {n} + {post:?}"));
    let input = cx.input.clone();
    for cyclic in [false, true] {
        let (e1, b1, mut t1) = cost(&small, cyclic);
        let (e2, b2, mut t2) = cost(&large, cyclic);
        cx.eval();
        cx.count("scale");
        // Rejected at different places is not comparable upwards, but never more
        if e2 > e1 * 12 + 2_000 || b2 > b1 * 24 + 400_000 {
            cx.fail("allocations grow more than the input", format!("{e1} allocations ({b1} bytes) of {n} units, {e2} ({b2} bytes) of 8 times as many: {input}"));
        }
        let slow = |t1: u64, t2: u64| t2 > 400_000_000 && t2 > t1.max(1_000_000) * 26;
        for _ in 0..4 {
            if !slow(t1, t2) {
                break;
            }
            cx.count("scale.repeated");
            t1 = t1.max(cost(&small, cyclic).2);
            t2 = t2.min(cost(&large, cyclic).2);
        }
        if slow(t1, t2) {
            cx.fail("time grows more than the input", format!("{} ms for {n} units, {} ms for 8 times as many: {input}", t1 / 1_000_000, t2 / 1_000_000));
        }
        if e2 > 0 {
            let m = ((e2 * 100) / (e1 + 20)).max(cx.counts.get("max.growth-percent").copied().unwrap_or(0));
            cx.counts.insert("max.growth-percent".into(), m);
        }
    }
}

/// Known super-linear expansions, which are listed as findings.
fn expansions(cx: &mut Ctx) {
    // A key of nested aliases is hashed with all expansions
    let laughs = |n: usize| {
        let mut s = String::from("k0: &a0 [x, x]\n");
        for i in 1..n {
            s.push_str(&format!("k{i}: &a{i} [*a{}, *a{}]\n", i - 1, i - 1));
        }
        s + &format!("? *a{}\n: y\n", n - 1)
    };
    let hashes = |s: &str| {
        let h = stat().hashes;
        let r = Loader::<MonRepr>::new(s.as_bytes()).parse();
        assert!(r.is_ok(), "{s}");
        drop(r);
        stat().hashes - h
    };
    let (s1, s2) = (laughs(6), laughs(12));
    cx.input(&s2);
    let (a, b) = (hashes(&s1), hashes(&s2));
    cx.eval();
    if b > a * 8 {
        cx.known("a key of nested aliases is hashed in its expanded form", &format!("{a} hashes for 6 levels, {b} for 12"));
    }
    // The prefix of a tag is copied to each node
    let tags = |n: usize| format!("%TAG !e! {}\n---\n{}", "p".repeat(n), "- !e!t x\n".repeat(n / 8));
    let (s1, s2) = (tags(2_000), tags(16_000));
    cx.input(&s2);
    let (a, b) = (cost(&s1, false).1, cost(&s2, false).1);
    cx.eval();
    if b > a * 24 {
        cx.known("a long tag prefix is copied to each tagged node", &format!("{a} bytes for 2000, {b} bytes for 16000"));
    }
}

const UNITS: &[(&str, &str, &str)] = &[
    ("", "- a\n", ""), ("", "\u{1}: v\n", ""), ("", "a ", ""), ("", "a\n", ""), ("", "\n", "a"), ("", "\n", ""), ("", "# c\n", ""), ("", "  # c\n", "- a"), ("# ", "c", ""), ("a #", "c", "\n"), ("\"", "a ", "\""), ("\"", "a\n", "\""), ("\"", "\\n", "\""), ("\"", "\\\\", "\""), ("\"", "\n", "\""), ("\"", " ", "\""),
    ("\"", "\\\n", "\""), ("\"", "\\ud83d\\ude00", "\""), ("\"", "\\x41", "\""), ("\"", "\\\"", "\""), ("'", "''", "'"), ("'", "a\n", "'"), ("'", " \n", "'"), ("\"", "a", ""), ("'", "''", ""), ("\"", "\\", ""), ("|\n", " a\n", ""), ("|\n", " a\n\n", ""), ("|\n", "\n", ""), ("|+\n", "\n", " a"),
    (">\n", " a\n", ""), (">\n", "  a\n", ""), (">\n", " \n", ""), (">-\n a\n", "\n", "b"), ("k: |\n", "  x\n", "z: 1\n"), ("|", " ", "\n"), ("| #", "c", "\n a"), ("[", "a, ", "]"), ("[", "a,", ""), ("[", "\n", "]"), ("[", "[], ", "]"), ("[", "{}, ", "]"), ("{", "\u{1}: v, ", "}"), ("{", "\u{1}: [], ", "}"), ("[", "a: b, ", "]"), ("[", "? a : b, ", "]"),
    ("[", "\"a\":b,", "]"), ("", "[a]\n", ""), ("", "? \u{1}\n: v\n", ""), ("", "? \u{1}\n", ""), ("", "? - a\n  - \u{1}\n: - b\n", ""), ("", "- - a\n", ""), ("", "- k: v\n  l: w\n", ""), ("", "-\n", ""), ("", "- \n", ""), ("", "- |\n  a\n", ""), ("", "- \"a\n  b\"\n", ""), ("", "- a\n  b\n", ""), ("", "\u{1}: # c\n  - a\n", ""), ("", "\u{1}:\n", ""),
    ("", "---\n", ""), ("", "--- a\n", ""), ("", "---\na: b\n...\n", ""), ("a\n", "...\n", ""), ("a\n", "...\n---\n", ""), ("", "%X y\n", "---\na"), ("", "%TAG !\u{1}! x\n", "---\na"), ("", "- &\u{1} a\n", ""), ("- &a x\n", "- *a\n", ""), ("", "- &\u{1} [*\u{1}]\n", ""), ("", "- !t a\n", ""), ("", "- !!str a\n", ""), ("", "- !<x> a\n", ""), ("- ", "&a ", "x"),
    ("", "- 1\n", ""), ("", "- 1.5\n", ""), ("", "- 1e5\n", ""), ("", "1", ""), ("1.", "1", ""), ("1e", "1", ""), ("-", "1", ""), ("0x", "F", ""), ("", "- 1\n\n\n\n\n", ""), ("", "1 ", ""), ("", "1\n", ""), ("- ", "1\n", ""), ("", "-", ""), ("", "- ", ""), ("", "?", ""), ("", "? ", ""), ("", ":", ""), ("", ": ", ""), ("", "a:", ""), ("", "a: ", ""), ("", "::", "\n"), ("a", "::", ": b"),
    ("", "#", ""), ("a", "#", ""), ("", "!", ""), ("!", "a", " x"), ("!<", "a", "> x"), ("&", "a", " x"), ("*", "a", ""), ("", "*", ""), ("", "&", ""), ("", "%", ""), ("", "@", ""), ("", "\t", ""), ("", " ", ""), ("", " ", "a"), ("- ", " ", "a"), ("", "\r", "a"), ("", "\r\n", "a"), ("", "\n\r", ""), ("a:\n", " \n", "  b"), ("a: b\n", " \n", "c: d"), ("a:", " ", "b"), ("", "é", ""), ("- ", "😀 ", ""),
    ("", "{", ""), ("", "}", ""), ("", "[", ""), ("", "]", ""), ("", ",", ""), ("a", ",", ""), ("a", "{", ""), ("a", " {", ""), ("[a", " ", "]"), ("[a", "\n", "]"), ("{a", " ", ": b}"), ("{a:", "\n", "b}"), ("[", ",", "]"), ("[a", " b", "]"), ("[a", "\nb", "]"), ("[", "\"a\", ", "]"), ("a: b\n", "# c\n", "c: d"), ("- a\n", "  # c\n", "- d"), ("a: |\n  x\n", "# c\n", "b: c"),
    ("a:\n  b:\n    c:\n      d:\n", "        - x\n", "e: f"), ("", "- a: b\n  c:\n    - d\n    - e: f\n", ""), ("", "\"\u{1}\": 'v'\n", ""), ("", "[\u{1}]: {a: b}\n", ""), ("", "{\u{1}: b}: c\n", ""), ("", "!t \u{1}: !u b\n", ""), ("a: ", "b c ", "# d"), ("a: ", "b#", ""), ("a: ", "b: ", ""), ("a: ", "b:", "\n"), ("", "a b\n", "c: d\n"), ("", "- \"\n", ""), ("", "- '\n", ""), ("", "\"\": 1\n", ""), ("", "~: 1\n", ""), ("", "1: 1\n", ""),
];

fn total_fixed(cx: &mut Ctx) {
    for (pre, unit, post) in UNITS {
        scale(cx, pre, unit, post, 20_000);
    }
    // Below something deep, where work might be repeated on each level
    for (o, c) in OPEN {
        let (o, c) = (o.repeat(60), c.repeat(60));
        for unit in ["a ", "a, ", "\n", "# c\n", "\"a\", ", "  \n", "1 ", "[], ", "x\n"] {
            scale(cx, &o, unit, &c, 3_000);
        }
    }
    expansions(cx);
    // All short texts over the indicators
    const A: &[&str] = &["a", " ", "\n", "-", ":", "?", "[", "]", "{", "}", ",", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "\\", "1", ".", "\r", "\t", "~", "x", "<", "é"];
    let mut n = 0u64;
    for i in A {
        for j in A {
            for k in A {
                for l in [""].iter().chain(A.iter().take(20)) {
                    n += 1;
                    let d = format!("{i}{j}{k}{l}");
                    both(cx, d.as_bytes());
                }
            }
        }
    }
    cx.add("enumerated", n);
}

fn total(cx: &mut Ctx, r: &mut Rng) {
    match r.below(100) {
        0..=29 => {
            cx.count("soup");
            let n = if r.chance(1, 10) { r.range(60, 400) } else { r.range(1, 40) };
            let s = soup(r, n);
            if cx.case % 9973 == 0 {
                cx.sample(s.clone());
            }
            both(cx, s.as_bytes());
        }
        30..=39 => {
            cx.count("bytes");
            let n = r.range(1, 60);
            let b: Vec<u8> = if r.chance(1, 2) {
                (0..n).map(|_| r.next() as u8).collect()
            } else {
                // Broken encodings in a document
                let mut b = if r.chance(1, 2) { rendered(r) } else { soup(r, 20) }.into_bytes();
                for _ in 0..r.range(1, 6) {
                    let i = r.below(b.len() + 1);
                    match r.below(3) {
                        0 if i < b.len() => {
                            b.remove(i);
                        }
                        1 if i < b.len() => b[i] = r.next() as u8,
                        _ => b.insert(i, *r.pick(&[0x80, 0xC3, 0xE2, 0xF0, 0xFF, 0xFE, 0, 0xED, 0xA0, 0x0C, 0x0B])),
                    }
                }
                b
            };
            both(cx, &b);
        }
        40..=59 => {
            cx.count("mutated");
            let mut s = rendered(r);
            for _ in 0..r.range(1, 8) {
                super::errors::mutate(r, &mut s);
            }
            both(cx, s.as_bytes());
        }
        60..=74 => {
            cx.count("truncated");
            let s = rendered(r);
            for _ in 0..6 {
                let i = r.below(s.len() + 1);
                // Bytes, may cut a character
                both(cx, &s.as_bytes()[..i]);
                if r.chance(1, 3) {
                    both(cx, &s.as_bytes()[i..]);
                }
            }
        }
        75..=84 => {
            cx.count("spliced");
            let (a, b) = (rendered(r), if r.chance(1, 3) { soup(r, 10) } else { rendered(r) });
            let mut s = a.as_bytes()[..r.below(a.len() + 1)].to_vec();
            s.extend_from_slice(&b.as_bytes()[r.below(b.len() + 1)..]);
            both(cx, &s);
        }
        85..=88 => {
            cx.count("long");
            let n = r.range(1_000, 20_000);
            let t = r.ps(TOKENS);
            let s = format!("{}{}{}", soup(r, 3), t.repeat(n / t.len()), soup(r, 3));
            both(cx, s.as_bytes());
        }
        89..=98 => {
            cx.count("deep");
            let s = deep(r);
            both(cx, s.as_bytes());
        }
        _ => {
            if !r.chance(1, 4) {
                return;
            }
            let n = r.range(1, 3);
            let (pre, post) = (soup(r, n), soup(r, 2));
            let k = r.range(1, 4);
            let mut unit: String = (0..k).map(|_| r.ps(TOKENS)).collect();
            if r.chance(1, 5) {
                unit.push('\u{1}');
            }
            scale(cx, &pre, &unit, &post, 12_000);
        }
    }
}
