//! The places of a document where a scalar can be written.
use crate::core::Rng;
use yaml_peg::{repr::Repr, Ind, Node};

pub struct Place {
    pub name: &'static str,
    pub pre: &'static str,
    pub post: &'static str,
    /// Inside of a flow collection.
    pub flow: bool,
    /// A key on one line.
    pub key: bool,
    /// Minimum indent of the continuation lines.
    pub ind: usize,
    /// Path: `i` digit index, `v` value of `k`, `K` first key, `M` value of the first key.
    pub path: &'static str,
}

const fn p(name: &'static str, pre: &'static str, post: &'static str, flow: bool, key: bool, ind: usize, path: &'static str) -> Place {
    Place { name, pre, post, flow, key, ind, path }
}

pub const PLACES: &[Place] = &[
    p("root", "", "", false, false, 1, ""),
    p("root.nl", "", "\n", false, false, 1, ""),
    p("root.comment", "", " # c\n", false, false, 1, ""),
    p("marker", "--- ", "\n...\n", false, false, 1, ""),
    p("marker.nl", "---\n", "\n---\nx\n", false, false, 1, ""),
    p("seq", "- x\n- ", "\n- y", false, false, 2, "1"),
    p("seq.end", "- x\n- ", "", false, false, 2, "1"),
    p("seq.comment", "- ", " # [c]\n\n# d\n- y\n", false, false, 2, "0"),
    p("seq.seq", "- - x\n  - ", "\n- y\n", false, false, 4, "01"),
    p("val", "k: ", "\nz: 1\n", false, false, 2, "v"),
    p("val.end", "a: 1\nk: ", "", false, false, 2, "v"),
    p("val.comment", "a: 1\nk:   ", "   # c: d\nz: 1", false, false, 2, "v"),
    p("val.deep", "k:\n  k:\n    k: ", "\n    a: 1\n  b: 2\nc: 3\n", false, false, 6, "vvv"),
    p("val.seq", "k:\n  - a\n  - ", "\nb: c\n", false, false, 4, "v1"),
    p("seq.val", "- k: ", "\n  a: 1\n- y\n", false, false, 4, "0v"),
    p("key", "", ": x\ny: z\n", false, true, 0, "K"),
    p("key.sp", "", " : x\n", false, true, 0, "K"),
    p("key2", "k:\n  ", ": x\n", false, true, 0, "vK"),
    p("quest", "? ", "\n: x\n", false, false, 2, "K"),
    p("quest.val", "? k\n: ", "\ny: z\n", false, false, 2, "v"),
    p("fseq", "[x, ", ", y]", true, false, 0, "1"),
    p("fseq.one", "[", "]", true, false, 0, "0"),
    p("fseq.end", "k: [ x , ", " ]\n", true, false, 2, "v1"),
    p("fval", "{k: ", ", z: 1}", true, false, 0, "v"),
    p("fval.end", "{z: 1, k: ", "}\n", true, false, 0, "v"),
    p("fval.sp", "{ k:  ", " }\n", true, false, 0, "v"),
    p("fkey", "{", ": x}", true, true, 0, "K"),
    p("fkey2", "- {a: b, c: {", ": x} }\n", true, true, 0, "0LK"),
    p("fdeep", "- [{k: [", ", x]}]\n", true, false, 2, "00v0"),
];

/// Follow the path.
pub fn at<'a, R: Repr>(docs: &'a [Node<R>], path: &str) -> Option<&'a Node<R>> {
    let mut n = docs.first()?;
    for c in path.chars() {
        n = match c {
            'v' => n.get("k").ok()?,
            'K' => match n.yaml() {
                yaml_peg::Yaml::Map(m) => m.iter().next()?.0,
                _ => return None,
            },
            'L' => match n.yaml() {
                yaml_peg::Yaml::Map(m) => m.iter().last()?.1,
                _ => return None,
            },
            c => n.get_ind(Ind(c.to_digit(10)? as usize)).ok()?,
        };
    }
    Some(n)
}

pub fn place(r: &mut Rng, f: impl Fn(&Place) -> bool) -> &'static Place {
    loop {
        let p = r.pick(PLACES);
        if f(p) {
            return p;
        }
    }
}
