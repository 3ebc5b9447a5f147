//! Quoted scalars: source tokens with their meaning.
use super::ctxt::*;
use crate::{core::*, model::*, render::NOISE_NL};
use yaml_peg::{parse, repr::RcRepr};

pub const QUOTED: Prop = Prop {
    id: "C04",
    rule: "distinct quoted scalar sources with at least two kinds of tokens (text, blank, escape, line break, escaped break, quote)",
    fixed: Some(fixed),
    case: quoted,
    quick: 5_000_000,
    thorough: 20_000_000,
    must: &["tok.escape", "tok.break", "tok.escaped-break", "tok.quote", "tok.blank", "tok.surrogates", "style.single", "style.double"],
    stack: 16 << 20,
    assumptions: &["a line break directly behind a \\n escape is not generated (documented manual wrapping of the crate)"],
};

struct B {
    src: String,
    out: Vec<(char, bool)>,
    /// Blanks are removed
    skip: bool,
}

impl B {
    fn lit(&mut self, c: char) {
        self.out.push((c, false));
        self.skip = false;
    }
}

const ESC: &[(&str, char)] = &[
    ("\\0", '\0'), ("\\a", '\x07'), ("\\b", '\x08'), ("\\t", '\t'), ("\\n", '\n'), ("\\v", '\x0B'), ("\\f", '\x0C'), ("\\r", '\r'),
    ("\\e", '\x1B'), ("\\ ", ' '), ("\\\"", '"'), ("\\/", '/'), ("\\\\", '\\'), ("\\N", '\u{85}'), ("\\_", '\u{A0}'),
    ("\\L", '\u{2028}'), ("\\P", '\u{2029}'),
];

fn text(r: &mut Rng) -> char {
    if r.chance(1, 5) {
        return *r.pick(&['é', '日', '😀', '\u{A0}', '\u{3000}', 'ß', '\u{2003}']);
    }
    *r.pick(&['a', 'b', 'n', 't', 'x', 'u', '0', '1', ':', '-', '#', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '%', '@', '`', '?', '~', '.', '/', 'N', '_'])
}

fn build(cx: &mut Ctx, r: &mut Rng, double: bool, lines: Option<usize>) -> (String, String) {
    let nl = *r.pick(&NOISE_NL);
    let mut b = B { src: String::new(), out: vec![], skip: false };
    let mut kinds = 0u32;
    let mut manual = false;
    for _ in 0..r.range(0, 14) {
        let k = r.below(12);
        let was_manual = std::mem::take(&mut manual);
        match k {
            0..=3 => {
                for _ in 0..r.range(1, 3) {
                    let c = text(r);
                    b.src.push(c);
                    b.lit(c);
                }
                kinds |= 1;
            }
            4 | 5 => {
                // Blanks
                for _ in 0..r.range(1, 2) {
                    let c = *r.pick(&[' ', ' ', ' ', '\t']);
                    b.src.push(c);
                    if !b.skip {
                        b.out.push((c, true));
                    }
                }
                manual = was_manual;
                cx.count("tok.blank");
                kinds |= 2;
            }
            6 if !double => {
                b.src.push_str("''");
                b.lit('\'');
                cx.count("tok.quote");
                kinds |= 4;
            }
            6 => {
                b.src.push('\'');
                b.lit('\'');
            }
            7 if !double => {
                let s = r.ps(&["\"", "\\", "\\n", "\\\\", "\\t", "\\x41", "\\\""]);
                b.src.push_str(s);
                s.chars().for_each(|c| b.lit(c));
                kinds |= 4;
            }
            7 | 8 if double => {
                cx.count("tok.escape");
                kinds |= 4;
                match r.below(5) {
                    0 => {
                        let c = loop {
                            let c = any_char(r);
                            if (c as u32) < 0x100 {
                                break c;
                            }
                        };
                        b.src.push_str(&if r.chance(1, 2) { format!("\\x{:02x}", c as u32) } else { format!("\\x{:02X}", c as u32) });
                        b.lit(c);
                    }
                    1 => {
                        let c = any_char(r);
                        let n = c as u32;
                        if n < 0x10000 {
                            b.src.push_str(&format!("\\u{n:04x}"));
                        } else {
                            cx.count("tok.surrogates");
                            let m = n - 0x10000;
                            b.src.push_str(&format!("\\u{:04x}\\u{:04X}", 0xD800 + (m >> 10), 0xDC00 + (m & 0x3FF)));
                        }
                        b.lit(c);
                    }
                    2 => {
                        let c = any_char(r);
                        b.src.push_str(&format!("\\U{:08X}", c as u32));
                        b.lit(c);
                    }
                    _ => {
                        let (s, c) = *r.pick(ESC);
                        b.src.push_str(s);
                        b.lit(c);
                        manual = s == "\\n";
                    }
                }
            }
            9 | 10 => {
                let Some(ind) = lines else { continue };
                // Line breaks in a row are one token
                if was_manual || b.skip {
                    manual = was_manual;
                    continue;
                }
                let escaped = double && r.chance(1, 3);
                let n = *r.pick(&[1, 1, 1, 2, 3]);
                if escaped {
                    b.src.push('\\');
                    cx.count("tok.escaped-break");
                    kinds |= 8;
                } else {
                    while b.out.last().is_some_and(|c| c.1) {
                        b.out.pop();
                    }
                    if r.chance(1, 4) {
                        b.src.push_str(r.ps(&[" ", "  ", "\t"]));
                    }
                    cx.count("tok.break");
                    kinds |= 16;
                }
                for i in 0..n {
                    if i > 0 && r.chance(1, 3) {
                        b.src.push_str(r.ps(&[" ", "    "]));
                    }
                    b.src.push_str(nl);
                }
                let extra = if r.chance(1, 3) { r.below(4) } else { 0 };
                b.src.push_str(&" ".repeat(ind + extra));
                if n == 1 && !escaped {
                    b.lit(' ');
                }
                for _ in 1..n {
                    b.lit('\n');
                }
                b.skip = true;
            }
            _ => {
                for c in word(r).chars() {
                    b.src.push(c);
                    b.lit(c);
                }
                kinds |= 1;
            }
        }
    }
    if kinds.count_ones() > 1 {
        cx.nontrivial(&b.src);
    }
    (b.src, b.out.into_iter().map(|c| c.0).collect())
}

fn check(cx: &mut Ctx, p: &Place, src: &str, exp: &str) {
    let doc = format!("{}{src}{}", p.pre, p.post);
    cx.input(&doc);
    match parse::<RcRepr>(&doc) {
        Err(e) => {
            cx.check(false, "quoted scalar rejected", || format!("in {}: {e}", p.name));
        }
        Ok(v) => {
            let got = at(&v, p.path).map(|n| n.yaml());
            let ok = matches!(got, Some(yaml_peg::Yaml::Str(s)) if s == exp);
            cx.check(ok, "quoted scalar decoded wrong", || format!("in {}: expected {exp:?}, got {got:?}", p.name));
        }
    }
}

fn quoted(cx: &mut Ctx, r: &mut Rng) {
    let double = r.chance(2, 3);
    cx.count(if double { "style.double" } else { "style.single" });
    let p = place(r, |_| true);
    let lines = if p.key || r.chance(1, 3) { None } else { Some(p.ind.max(1)) };
    let (body, exp) = build(cx, r, double, lines);
    let q = if double { '"' } else { '\'' };
    check(cx, p, &format!("{q}{body}{q}"), &exp);
    if cx.case % 101 == 0 {
        let s = cx.input.clone();
        cx.sample(s);
    }
}

/// Every escape of one character and every place.
fn fixed(cx: &mut Ctx) {
    for p in PLACES {
        for (s, c) in ESC {
            check(cx, p, &format!("\"{s}\""), &c.to_string());
            check(cx, p, &format!("\"a{s}b\""), &format!("a{c}b"));
            check(cx, p, &format!("'{}'", s.replace('\'', "''")), s);
        }
        check(cx, p, "''", "");
        check(cx, p, "\"\"", "");
        check(cx, p, "''''", "'");
        check(cx, p, "''''''", "''");
    }
    // All code points below U+0300, and the ends of the ranges
    for n in (0..0x300).chain([0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]) {
        let c = char::from_u32(n).unwrap();
        let p = &PLACES[n as usize % PLACES.len()];
        if n < 0x100 {
            check(cx, p, &format!("\"\\x{n:02x}0\""), &format!("{c}0"));
        }
        if n < 0x10000 {
            check(cx, p, &format!("\"\\u{n:04X}0\""), &format!("{c}0"));
        }
        check(cx, p, &format!("\"\\U{n:08x}0\""), &format!("{c}0"));
        if n >= 0x20 && n != 0x22 && n != 0x5C && n != 0x7F && !(0x80..0xA0).contains(&n) {
            check(cx, p, &format!("\"{c}0\""), &format!("{c}0"));
        }
    }
}
