//! Reference data model, independent of the crate under test.
use crate::core::Rng;
use yaml_peg::{repr::Repr, Node, Yaml};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Seq(Vec<N>),
    Map(Vec<(N, N)>),
    Alias(String),
}

#[derive(Clone, Debug)]
pub struct N {
    pub v: V,
    /// Resolved explicit tag.
    pub tag: Option<String>,
    pub anchor: Option<String>,
    /// Byte range where the content may be reported (filled by the renderer).
    pub pos: Option<(u64, u64)>,
}

impl PartialEq for N {
    fn eq(&self, o: &Self) -> bool {
        veq(&self.v, &o.v)
    }
}

fn feq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Reference equality: map order matters for content comparison.
pub fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Int(a), V::Int(b)) => a == b,
        (V::Float(a), V::Float(b)) => feq(*a, *b),
        (V::Str(a), V::Str(b)) => a == b,
        (V::Seq(a), V::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| veq(&a.v, &b.v)),
        (V::Map(a), V::Map(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| veq(&a.0.v, &b.0.v) && veq(&a.1.v, &b.1.v))
        }
        (V::Alias(a), V::Alias(b)) => a == b,
        _ => false,
    }
}

impl From<V> for N {
    fn from(v: V) -> Self {
        Self { v, tag: None, anchor: None, pos: None }
    }
}

impl N {
    pub fn str(s: &str) -> Self {
        V::Str(s.to_string()).into()
    }
    pub fn size(&self) -> usize {
        1 + match &self.v {
            V::Seq(v) => v.iter().map(N::size).sum(),
            V::Map(m) => m.iter().map(|(k, v)| k.size() + v.size()).sum(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        match &self.v {
            V::Seq(v) => 1 + v.iter().map(N::depth).max().unwrap_or(0),
            V::Map(m) => 1 + m.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn is_coll(&self) -> bool {
        matches!(self.v, V::Seq(_) | V::Map(_))
    }
    pub fn kind(&self) -> &'static str {
        match &self.v {
            V::Null => "null",
            V::Bool(_) => "bool",
            V::Int(_) => "int",
            V::Float(_) => "float",
            V::Str(_) => "str",
            V::Seq(_) => "seq",
            V::Map(_) => "map",
            V::Alias(_) => "alias",
        }
    }
    /// Shape without the leaf contents.
    pub fn shape(&self, out: &mut String) {
        match &self.v {
            V::Seq(v) => {
                out.push('[');
                v.iter().for_each(|n| n.shape(out));
                out.push(']');
            }
            V::Map(m) => {
                out.push('{');
                m.iter().for_each(|(k, v)| {
                    k.shape(out);
                    out.push(':');
                    v.shape(out);
                });
                out.push('}');
            }
            _ => out.push_str(&self.kind()[..1]),
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a N)) {
        f(self);
        match &self.v {
            V::Seq(v) => v.iter().for_each(|n| n.walk(f)),
            V::Map(m) => m.iter().for_each(|(k, v)| {
                k.walk(f);
                v.walk(f);
            }),
            _ => {}
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut N)) {
        f(self);
        match &mut self.v {
            V::Seq(v) => v.iter_mut().for_each(|n| n.walk_mut(f)),
            V::Map(m) => m.iter_mut().for_each(|(k, v)| {
                k.walk_mut(f);
                v.walk_mut(f);
            }),
            _ => {}
        }
    }
}

/// Reference value of an integer text.
pub fn int_value(s: &str) -> Option<i128> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let (radix, t) = match (t.strip_prefix("0x"), t.strip_prefix("0o")) {
        (Some(t), _) => (16, t),
        (_, Some(t)) => (8, t),
        _ => (10, t),
    };
    if t.is_empty() {
        return None;
    }
    let mut n: i128 = 0;
    for c in t.chars() {
        let d = c.to_digit(radix)? as i128;
        n = n.checked_mul(radix as i128)?;
        n = if neg { n.checked_sub(d)? } else { n.checked_add(d)? };
    }
    Some(n)
}

/// Reference value of a float text, as it is recorded in a node.
pub fn float_value(s: &str) -> Option<f64> {
    match s {
        "NaN" | ".nan" => Some(f64::NAN),
        "inf" | ".inf" => Some(f64::INFINITY),
        "-inf" | "-.inf" => Some(f64::NEG_INFINITY),
        _ => s.parse().ok(),
    }
}

pub fn brief(s: &str) -> String {
    let mut s = format!("{s:?}");
    if s.len() > 160 {
        let mut n = 160;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    s
}

#[derive(Default, Clone, Copy)]
pub struct Cmp {
    pub tags: bool,
    pub pos: bool,
}

pub const VAL: Cmp = Cmp { tags: false, pos: false };

pub fn default_tag(v: &V) -> &'static str {
    match v {
        V::Null => "tag:yaml.org,2002:null",
        V::Bool(_) => "tag:yaml.org,2002:bool",
        V::Int(_) => "tag:yaml.org,2002:int",
        V::Float(_) => "tag:yaml.org,2002:float",
        V::Str(_) => "tag:yaml.org,2002:str",
        V::Seq(_) => "tag:yaml.org,2002:seq",
        V::Map(_) => "tag:yaml.org,2002:map",
        V::Alias(_) => "",
    }
}

/// The oracle: compare the reference tree with the produced node.
/// Return the path and the difference.
pub fn same<R: Repr>(n: &N, y: &Node<R>, c: Cmp) -> Result<(), String> {
    let bad = |what: String| Err(format!("/: {what}"));
    match (&n.v, y.yaml()) {
        (V::Null, Yaml::Null) => {}
        (V::Bool(a), Yaml::Bool(b)) if a == b => {}
        (V::Int(a), Yaml::Int(b)) if int_value(b) == Some(*a) => {}
        (V::Float(a), Yaml::Float(b)) if float_value(b).is_some_and(|b| feq(*a, b)) => {}
        (V::Str(a), Yaml::Str(b)) if a == b => {}
        (V::Alias(a), Yaml::Alias(b)) if a == b => {}
        (V::Seq(a), Yaml::Seq(b)) => {
            if a.len() != b.len() {
                return bad(format!("sequence of {} items, expected {}: {}", b.len(), a.len(), brief(&format!("{b:?}"))));
            }
            for (i, (a, b)) in a.iter().zip(b).enumerate() {
                same(a, b, c).map_err(|e| format!("/{i}{e}"))?;
            }
        }
        (V::Map(a), Yaml::Map(b)) => {
            if a.len() != b.len() {
                return bad(format!("map of {} entries, expected {}: {}", b.len(), a.len(), brief(&format!("{b:?}"))));
            }
            for (i, (a, b)) in a.iter().zip(b).enumerate() {
                same(&a.0, b.0, c).map_err(|e| format!("/k{i}{e}"))?;
                same(&a.1, b.1, c).map_err(|e| format!("/v{i}{e}"))?;
            }
        }
        (e, g) => return bad(format!("expected {}, got {}", brief(&format!("{e:?}")), brief(&format!("{g:?}")))),
    }
    if c.tags {
        let e = n.tag.as_deref().unwrap_or(default_tag(&n.v));
        if y.tag() != e {
            return bad(format!("tag expected {e:?}, got {:?}", y.tag()));
        }
    }
    if c.pos {
        if let Some((a, b)) = n.pos {
            if y.pos() < a || y.pos() > b {
                return bad(format!("position expected {a}..={b}, got {} at {}", y.pos(), n.kind()));
            }
        }
    }
    Ok(())
}

pub fn same_docs<R: Repr>(a: &[N], b: &[Node<R>], c: Cmp) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} documents, expected {}", b.len(), a.len()));
    }
    for (i, (a, b)) in a.iter().zip(b).enumerate() {
        same(a, b, c).map_err(|e| format!("doc {i} {e}"))?;
    }
    Ok(())
}

/// Build a node from the reference tree.
pub fn build<R: Repr>(n: &N) -> Node<R> {
    let y: Yaml<R> = match &n.v {
        V::Null => Yaml::Null,
        V::Bool(b) => Yaml::Bool(*b),
        V::Int(i) => Yaml::Int(i.to_string()),
        V::Float(f) => Yaml::Float(f.to_string()),
        V::Str(s) => Yaml::Str(s.clone()),
        V::Alias(s) => Yaml::Alias(s.clone()),
        V::Seq(v) => Yaml::Seq(v.iter().map(build).collect()),
        V::Map(m) => Yaml::Map(m.iter().map(|(k, v)| (build(k), build(v))).collect()),
    };
    Node::new(y, 0, n.tag.clone().unwrap_or_default())
}

/// Reference tree of a node.
pub fn unbuild<R: Repr>(y: &Node<R>) -> N {
    let v = match y.yaml() {
        Yaml::Null => V::Null,
        Yaml::Bool(b) => V::Bool(*b),
        Yaml::Int(s) => int_value(s).map(V::Int).unwrap_or_else(|| V::Str(format!("<int {s}>"))),
        Yaml::Float(s) => float_value(s).map(V::Float).unwrap_or_else(|| V::Str(format!("<float {s}>"))),
        Yaml::Str(s) => V::Str(s.clone()),
        Yaml::Alias(s) => V::Alias(s.clone()),
        Yaml::Seq(v) => V::Seq(v.iter().map(unbuild).collect()),
        Yaml::Map(m) => V::Map(m.iter().map(|(k, v)| (unbuild(k), unbuild(v))).collect()),
    };
    let t = y.tag();
    let tag = (t != default_tag(&v)).then(|| t.to_string());
    N { v, tag, anchor: None, pos: Some((y.pos(), y.pos())) }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Copy)]
pub struct TreeOpt {
    pub depth: usize,
    pub width: usize,
    pub nodes: usize,
    /// Collections as map keys.
    pub complex_keys: bool,
    /// Non-string scalar keys.
    pub typed_keys: bool,
    /// 0: only words, 1: + spaces/punctuation, 2: + everything
    pub strings: u8,
    /// Numbers beyond 64 bits
    pub big: bool,
}

pub const TREE: TreeOpt =
    TreeOpt { depth: 5, width: 5, nodes: 40, complex_keys: true, typed_keys: true, strings: 2, big: true };

/// The same options, but now and then of another order of magnitude.
pub fn grow(r: &mut Rng, o: TreeOpt) -> TreeOpt {
    if cfg!(miri) || !r.chance(1, 400) {
        return o;
    }
    match r.below(4) {
        // Many entries in one place
        0 => TreeOpt { depth: 2, width: *r.pick(&[300, 700, 2000]), nodes: 3000, complex_keys: false, ..o },
        // Many places
        1 => TreeOpt { depth: o.depth.max(6), width: 12, nodes: 3000, ..o },
        // Chains
        2 => TreeOpt { depth: *r.pick(&[20, 40]), width: 3, nodes: 150, complex_keys: false, ..o },
        _ => TreeOpt { depth: 3, width: *r.pick(&[20, 70, 130, 270]), nodes: 1200, ..o },
    }
}

/// Text of another order of magnitude.
pub fn long_string(r: &mut Rng, level: u8) -> String {
    let n = *r.pick(&[70, 130, 260, 600, 5000]);
    if level < 2 || r.chance(1, 2) {
        // One line
        let parts = r.chance(1, 2);
        let mut s = word(r);
        while s.len() < n {
            if parts {
                s.push_str(r.ps(&[" ", " ", "  ", "-", ", ", ".", "\'", "\"", "é"]));
            }
            s.push_str(&word(r));
        }
        return s;
    }
    // Many lines
    let mut s = String::new();
    while s.len() < n {
        s.push_str(&string(r, 1));
        s.push_str(r.ps(&["\n", "\n", "\n", "\n\n"]));
    }
    if r.chance(1, 2) {
        s.truncate(s.trim_end().len());
    }
    s
}

pub fn word(r: &mut Rng) -> String {
    const W: &[&str] = &[
        "a", "b", "key", "name", "foo", "bar-baz", "x1", "item", "hello", "World", "nul", "truex", "yes", "no", "on",
        "e5", "o7", "Nan", "inf", "v1.2", "C++", "a_b", "path/to", "a.b", "äöü", "日本", "é", "😀", "null2", "ß",
    ];
    let w = r.ps(W);
    if r.chance(1, 2) {
        format!("{w}{}", r.below(1000))
    } else {
        w.to_string()
    }
}

/// Arbitrary string content.
pub fn string(r: &mut Rng, level: u8) -> String {
    if level == 0 || r.chance(4, 10) {
        return word(r);
    }
    if !cfg!(miri) && r.chance(1, 3000) {
        return long_string(r, level);
    }
    if level == 1 || r.chance(4, 10) {
        let n = r.range(1, 6);
        let mut s = word(r);
        for _ in 1..n {
            s.push_str(r.ps(&[" ", " ", " ", "-", ", ", ".", "/", "'", "\"", ":", "#", "  ", " - ", " & ", "\t", " \t"]));
            s.push_str(&word(r));
        }
        return s;
    }
    match r.below(12) {
        // Looks like something else
        0 => r
            .ps(&[
                "", "null", "Null", "NULL", "~", "true", "False", "TRUE", "1", "-1", "0x1F", "0o17", "1.5", "1e5", "-.5",
                ".inf", "-.inf", ".nan", ".NaN", "+1", ".5", "1_000", "0b1", "NaN", "inf", "1.", "-", "---", "...", "--",
                "?", ":", "- a", "? a", "a: b", "a:", ":a", "a #b", "#a", "a#b", "&a", "*a", "!a", "!!str", "|", ">", "|-",
                "%a", "@a", "`a", "[a", "a]", "{a", "a}", "[]", "{}", "[a]", "{a: b}", ",", "a,b", "a, b", "'", "''", "\"",
                "\"\"", "'a'", "\"a\"", "\\", "\\n", "\\\\", "a\\", "<<", "=", "yes", "2001-01-01", "12:30:45", "1 2",
                "0x", "0o", "0o8", "0xg", "1e", "1.5.2", "-a", "1a", "a - b", "-1-", "--- a", "... a", "a ---", "!", "&", "*",
            ])
            .to_string(),
        // Multi-line text
        1 | 2 | 3 => {
            let n = r.range(1, 5);
            let mut s = String::new();
            if r.chance(1, 6) {
                s.push('\n');
            }
            for i in 0..n {
                if i > 0 {
                    s.push_str(r.ps(&["\n", "\n", "\n\n", "\n\n\n"]));
                }
                s.push_str(&string(r, 1));
            }
            s.push_str(r.ps(&["", "", "\n", "\n", "\n\n", "\n\n\n"]));
            s
        }
        // White space around
        4 => {
            let w = string(r, 1);
            format!("{}{w}{}", r.ps(&["", " ", "  ", "\t", "\n", " \n"]), r.ps(&["", " ", "  ", "\t", "\n ", " \n"]))
        }
        // Any characters
        5 | 6 => (0..r.range(1, 12)).map(|_| any_char(r)).collect(),
        7 => {
            // Indented lines, and lines that look like structure
            let n = r.range(2, 5);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(r.ps(&["", "  ", "    ", "\t", " "]));
                s.push_str(r.ps(&["a", "- b", "# c", "d: e", "---", "...", "....", "...x", "----", "---x", "... x", "--", "..", "[x", "\"q", "", "%z", "'"]));
                s.push('\n');
            }
            s
        }
        // Long
        8 => (0..r.range(10, 40)).map(|_| word(r)).collect::<Vec<_>>().join(" "),
        _ => {
            const P: &[char] = &[
                'a', 'b', 'c', ' ', ':', '-', '#', '\'', '"', '\\', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '%',
                '@', '`', '?', '~', '.', '0', '1', 'e', '_', '/', '\n', '\t',
            ];
            (0..r.range(1, 10)).map(|_| *r.pick(P)).collect()
        }
    }
}

pub fn any_char(r: &mut Rng) -> char {
    match r.below(10) {
        0 => char::from(r.below(0x20) as u8),
        1 => *r.pick(&['\u{7F}', '\u{80}', '\u{85}', '\u{A0}', '\u{FEFF}', '\u{2028}', '\u{2029}', '\u{FFFD}', '\u{10FFFF}', '\u{3000}', '\u{200B}', '\u{E000}', '\u{FFFF}']),
        2 | 3 => char::from_u32(r.range(0xA1, 0x2FF) as u32).unwrap(),
        4 => char::from_u32(r.range(0x4E00, 0x9FFF) as u32).unwrap(),
        5 => char::from_u32(r.range(0x1F300, 0x1F6FF) as u32).unwrap(),
        _ => char::from(r.range(0x20, 0x7E) as u8),
    }
}

pub fn int(r: &mut Rng, big: bool) -> i128 {
    match r.below(if big { 10 } else { 8 }) {
        0 => 0,
        1..=3 => r.below(100) as i128 - 20,
        4 => *r.pick(&[127, 128, 255, 256, -128, -129, 32767, 65535, 65536, 2147483647, 2147483648, 4294967295, -2147483648, -2147483649]),
        5 => i64::MAX as i128 - r.below(3) as i128,
        6 => i64::MIN as i128 + r.below(3) as i128,
        7 => r.next() as i64 as i128,
        8 => r.next() as i128,
        _ => {
            let sh = r.below(64);
            (((r.next() as u128) << 64 | r.next() as u128) as i128) >> sh
        }
    }
}

pub fn float(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => r.below(100) as f64,
        1 => -(r.below(100) as f64) / 4.,
        2 => r.below(1_000_000) as f64 / 1000.,
        3 => *r.pick(&[0., -0., f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324]),
        4 => *r.pick(&[1e16, 1e15, 1e-5, 1e-7, 1e300, 123456789012345680., 0.1, 0.3, 1.0, 10., 100.]),
        5 => (r.next() as i64 as f64) * 1e3,
        _ => {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                f
            } else {
                1.5
            }
        }
    }
}

pub fn leaf(r: &mut Rng, o: &TreeOpt) -> V {
    match r.below(12) {
        0 => V::Null,
        1 => V::Bool(r.chance(1, 2)),
        2 | 3 => V::Int(int(r, o.big)),
        4 => V::Float(float(r)),
        _ => V::Str(string(r, o.strings)),
    }
}

/// Key equality as a user sees it: by value, and map keys by entries.
pub fn has_key(m: &[(N, N)], k: &N) -> bool {
    m.iter().any(|(a, _)| veq(&a.v, &k.v))
}

pub fn tree(r: &mut Rng, o: &TreeOpt) -> N {
    let mut left = r.range(1, o.nodes.max(1));
    tree_in(r, o, o.depth, &mut left)
}

pub fn coll(r: &mut Rng, o: &TreeOpt) -> N {
    let mut left = r.range(4, o.nodes.max(5));
    loop {
        let n = tree_in(r, o, o.depth, &mut left);
        if n.is_coll() {
            return n;
        }
        left += 4;
    }
}

fn tree_in(r: &mut Rng, o: &TreeOpt, depth: usize, left: &mut usize) -> N {
    *left = left.saturating_sub(1);
    if depth == 0 || *left == 0 || r.chance(3, 10) {
        return leaf(r, o).into();
    }
    let n = if r.chance(1, 14) { 0 } else { r.range(1, o.width) };
    if r.chance(1, 2) {
        let mut v = vec![];
        for _ in 0..n {
            v.push(tree_in(r, o, depth - 1, left));
        }
        V::Seq(v).into()
    } else {
        let mut m: Vec<(N, N)> = vec![];
        for _ in 0..n {
            let k: N = if o.complex_keys && r.chance(1, 16) {
                let mut few = 5;
                let o2 = TreeOpt { width: 3, ..*o };
                tree_in(r, &o2, depth.min(2), &mut few)
            } else if o.typed_keys && r.chance(1, 5) {
                leaf(r, o).into()
            } else {
                {
                    let l = if r.chance(1, 3) { o.strings } else { 0 };
                    V::Str(string(r, l)).into()
                }
            };
            if has_key(&m, &k) {
                continue;
            }
            let v = tree_in(r, o, depth - 1, left);
            m.push((k, v));
        }
        V::Map(m).into()
    }
}

/// Trees of more than 65536 entries, lines or characters in one place.
pub fn huge() -> Vec<N> {
    const N16: usize = 66_000;
    let int = |i: usize| -> N { V::Int(i as i128).into() };
    let text = |n: usize, s: &dyn Fn(usize) -> String| -> String { (0..n).map(s).collect() };
    let pad = |n: N| -> N {
        V::Map(vec![(N::str("first"), N::str("x")), (N::str("list"), V::Seq(vec![n]).into()), (N::str("last"), N::str("y"))]).into()
    };
    let mut v: Vec<N> = vec![
        V::Seq((0..N16).map(int).collect()).into(),
        V::Map((0..N16).map(|i| (N::str(&format!("k{i}")), int(i))).collect()).into(),
        V::Seq((0..300).map(|i| V::Map((0..300).map(|k| (N::str(&format!("k{k}")), int(i * k))).collect()).into()).collect()).into(),
        V::Seq((0..N16).map(|i| V::Seq(vec![int(i)]).into()).collect()).into(),
    ];
    let long = "x".repeat(N16);
    for s in [
        long.clone(),
        format!("é{long}"),
        text(N16 / 4, &|i| format!("w{i} ")).trim_end().to_string(),
        text(N16, &|i| format!("w{i}\n")),
        text(N16, &|i| format!("w{i}\n")).trim_end().to_string(),
        text(N16 / 2, &|i| format!("w{i}\n\n")).trim_end().to_string(),
        format!("a{}", "\n".repeat(N16)),
        format!("a{}b", "\n".repeat(N16)),
        format!("a{}b", " ".repeat(N16)),
        "\"'\\\t".repeat(N16 / 4),
    ] {
        v.push(pad(N::str(&s)));
    }
    v.push(V::Map(vec![(N::str(&long), int(1)), (N::str(&(long.clone() + "y")), int(2)), (N::str("z"), int(3))]).into());
    v
}
