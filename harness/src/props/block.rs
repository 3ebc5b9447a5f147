//! Block scalars: source lines with their meaning.
use super::ctxt::at;
use crate::{core::*, model::*, render::NOISE_NL};
use yaml_peg::{parse, repr::RcRepr};

pub const BLOCK: Prop = Prop {
    id: "C05",
    rule: "distinct block scalar sources with at least two content lines or blank lines around",
    fixed: Some(fixed),
    case: block,
    quick: 4_000_000,
    thorough: 20_000_000,
    must: &["literal", "folded", "chomp.-", "chomp.+", "chomp.", "lead", "inner-blank", "trail-blank", "more-indented", "eof-no-nl", "followed", "only-blank", "white-line"],
    stack: 16 << 20,
    assumptions: &[
        "more-indented lines and trailing blanks of folded scalars are not generated (folded as usual by the crate)",
        "indentation indicators are not generated (not supported by the crate)",
    ],
};

struct Place {
    name: &'static str,
    pre: &'static str,
    post: &'static str,
    /// Column of the parent
    col: i64,
    path: &'static str,
}

const PLACES: &[Place] = &[
    Place { name: "root", pre: "", post: "", col: -1, path: "" },
    Place { name: "marker", pre: "--- ", post: "...\n", col: -1, path: "" },
    Place { name: "docs", pre: "---\n", post: "---\nx\n", col: -1, path: "" },
    Place { name: "seq", pre: "- x\n- ", post: "- y\n", col: 0, path: "1" },
    Place { name: "seq.seq", pre: "- - x\n  - ", post: "  - z\n- y\n", col: 2, path: "01" },
    Place { name: "seq.up", pre: "- - ", post: "- y\n", col: 2, path: "00" },
    Place { name: "val", pre: "a: 1\nk: ", post: "z: 1\n", col: 0, path: "v" },
    Place { name: "val.deep", pre: "k:\n  k:\n    k: ", post: "    a: 1\n  b: 2\n", col: 4, path: "vvv" },
    Place { name: "val.up", pre: "k:\n  k: ", post: "b: 2\n", col: 2, path: "vv" },
    Place { name: "seq.val", pre: "- k: ", post: "  z: 2\n- 1\n", col: 2, path: "0v" },
    Place { name: "val.seq", pre: "k:\n- x\n- ", post: "- z\nb: 2\n", col: 0, path: "v1" },
    Place { name: "quest", pre: "? ", post: ": x\n", col: 0, path: "K" },
    Place { name: "quest.val", pre: "? k\n: ", post: "y: z\n", col: 0, path: "v" },
];

fn line(r: &mut Rng, first: bool, folded: bool) -> String {
    let mut s = String::new();
    if !folded && !first && r.chance(1, 4) {
        s.push_str(r.ps(&[" ", "  ", "\t", "    "]));
    }
    match r.below(6) {
        0 => s.push_str(r.ps(&[
            "# no comment", "- x", "a: b", "? x", "\"q", "'", "[", "{a", "&x", "*x", "!t", "|", ">", "%d", "---", "...", "\\n", "\\",
            "a #b", "a:", ": a", "---x", "-", "--- x", "😀", "\u{A0}x", "日本: x", "1", "null", "x\ty",
        ])),
        _ => {
            for i in 0..r.range(1, 4) {
                if i > 0 {
                    s.push_str(r.ps(&[" ", " ", " ", "  ", ": ", " #"]));
                }
                s.push_str(&word(r));
            }
        }
    }
    if !folded && r.chance(1, 8) {
        s.push_str(r.ps(&[" ", "  ", "\t"]));
    }
    s
}

fn block(cx: &mut Ctx, r: &mut Rng) {
    let nl = *r.pick(&NOISE_NL);
    let folded = r.chance(1, 2);
    let chomp = r.ps(&["", "-", "+"]);
    let p = r.pick(PLACES);
    cx.count(if folded { "folded" } else { "literal" });
    cx.count(&format!("chomp.{chomp}"));
    let mut ind = (p.col + 1).max(0) as usize + r.below(4);
    let n = if r.chance(1, 12) { 0 } else { r.range(1, 5) };
    let lead = if r.chance(1, 5) { r.range(1, 2) } else { 0 };
    let mut src = String::new();
    src.push(if folded { '>' } else { '|' });
    src.push_str(chomp);
    src.push_str(r.ps(&["", "", "", " ", " # c", "  #: |"]));
    src.push_str(nl);
    let mut exp = String::new();
    let mut lines: Vec<(usize, String)> = vec![];
    for i in 0..n {
        let blank = if i > 0 && r.chance(1, 4) { r.range(1, 3) } else { 0 };
        let mut l = line(r, i == 0, folded);
        if !folded && i > 0 && r.chance(1, 8) {
            // White spaces behind the indentation
            l = r.ps(&[" ", "  ", "\t", "   \t"]).to_string();
            cx.count("white-line");
        }
        if l.starts_with([' ', '\t']) {
            cx.count("more-indented");
        }
        lines.push((blank, l));
    }
    if ind == 0 && lines.iter().any(|l| l.1.starts_with("---") || l.1.starts_with("...") || l.1.starts_with(['#', '%'])) {
        ind = 1;
    }
    // White spaces of a blank line are less than the indent
    let blank = |r: &mut Rng, src: &mut String| {
        if r.chance(1, 4) {
            src.push_str(&" ".repeat(r.below(ind + 1)));
        }
        src.push_str(nl);
    };
    for _ in 0..lead {
        cx.count("lead");
        blank(r, &mut src);
        exp.push('\n');
    }
    for (i, (k, l)) in lines.iter().enumerate() {
        if i > 0 {
            src.push_str(nl);
            for _ in 0..*k {
                cx.count("inner-blank");
                blank(r, &mut src);
                exp.push('\n');
            }
            if !folded {
                exp.push('\n');
            } else if *k == 0 {
                exp.push(' ');
            }
        }
        src.push_str(&" ".repeat(ind));
        src.push_str(l);
        exp.push_str(l);
    }
    let mut trail = if r.chance(1, 3) { r.range(1, 3) } else { 0 };
    let followed = !p.post.is_empty() && r.chance(2, 3) || p.path == "K";
    let no_nl = !followed && trail == 0 && n > 0 && r.chance(1, 3);
    if n == 0 {
        // Only blank lines, which are all trailing ones
        cx.count("only-blank");
        trail = 0;
    } else if !no_nl {
        src.push_str(nl);
    } else {
        cx.count("eof-no-nl");
    }
    for _ in 0..trail {
        cx.count("trail-blank");
        blank(r, &mut src);
    }
    match chomp {
        "+" if n == 0 => {}
        _ if n == 0 => exp.clear(),
        "-" => {}
        "" => exp.push('\n'),
        _ => (0..=trail).for_each(|_| exp.push('\n')),
    }
    let mut doc = p.pre.replace('\n', nl) + &src;
    if followed {
        cx.count("followed");
        doc.push_str(&p.post.replace('\n', nl));
    }
    if n > 1 || lead + trail > 0 {
        cx.nontrivial(&src);
    }
    check(cx, p, &doc, &exp);
    if cx.case % 101 == 0 {
        cx.sample(doc);
    }
}

fn check(cx: &mut Ctx, p: &Place, doc: &str, exp: &str) {
    cx.input(doc);
    match parse::<RcRepr>(doc) {
        Err(e) => {
            cx.check(false, "block scalar rejected", || format!("in {}: {e}", p.name));
        }
        Ok(v) => {
            let got = at(&v, p.path).map(|n| n.yaml());
            let ok = matches!(got, Some(yaml_peg::Yaml::Str(s)) if s == exp);
            cx.check(ok, "block scalar decoded wrong", || format!("in {}: expected {exp:?}, got {got:?}", p.name));
        }
    }
}

/// All combinations of style, chomping, place and trailing lines.
fn fixed(cx: &mut Ctx) {
    for p in PLACES {
        for folded in [false, true] {
            for chomp in ["", "-", "+"] {
                for trail in 0..4 {
                    for followed in [false, true] {
                        if p.path == "K" && !followed {
                            continue;
                        }
                        let i = " ".repeat((p.col + 2) as usize);
                        let s = if folded { ">" } else { "|" };
                        let mut doc = format!("{}{s}{chomp}\n{i}a\n\n{i}b\n{i}c\n{}", p.pre, "\n".repeat(trail));
                        if followed {
                            doc += p.post;
                        }
                        let mut exp = if folded { "a\nb c" } else { "a\n\nb\nc" }.to_string();
                        match chomp {
                            "" => exp.push('\n'),
                            "+" => exp.push_str(&"\n".repeat(trail + 1)),
                            _ => {}
                        }
                        check(cx, p, &doc, &exp);
                    }
                }
            }
        }
    }
}
