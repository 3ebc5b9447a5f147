//! The cursor contract of the public sub-parsers.
use crate::core::*;
use std::collections::BTreeMap;
use yaml_peg::{
    parser::{Loader, PError, Parser, TakeOpt},
    repr::RcRepr,
};

pub const CURSOR: Prop = Prop {
    id: "C24",
    rule: "distinct (bytes around the cursor, sub-parser, result) observations",
    fixed: Some(cursor_fixed),
    case: cursor,
    quick: 5_000_000,
    thorough: 30_000_000,
    must: &[
        "matched", "mismatched", "terminated", "exact", "chunks", "context", "sym_seq", "take_while", "int", "float", "sci_float", "gap", "tag", "ind", "ind_define", "identifier", "anchor", "nl", "comment", "bound", "string_plain", "string_quoted", "string_literal", "string_folded",
        "loader.scalar", "loader.scalar_flow", "loader.seq", "loader.map", "loader.seq_flow", "loader.map_flow", "directive",
    ],
    stack: 16 << 20,
    assumptions: &["a sub-parser called off a checkpoint may return to the checkpoint, and match from there, instead of the place of the call"],
};

/// Reference result: `Ok` with the length and the text, or mismatch (`None`),
/// or an error (`Some(None)`).
#[derive(Debug, PartialEq, Clone)]
enum Want {
    Len(usize),
    Text(usize, String),
    Number(usize, f64),
    Count(usize, usize),
    Miss,
    Stop,
}

use Want::*;

fn ws(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | 0x0C)
}

fn inv(c: u8) -> bool {
    ws(c) || matches!(c, b'\n' | b'\r')
}

fn run(d: &[u8], f: impl Fn(u8) -> bool) -> usize {
    d.iter().take_while(|c| f(**c)).count()
}

fn nl(d: &[u8]) -> usize {
    match d {
        [b'\r', b'\n', ..] | [b'\n', b'\r', ..] => 2,
        [b'\n' | b'\r', ..] => 1,
        _ => 0,
    }
}

fn ident(d: &[u8]) -> usize {
    match d.first() {
        Some(c) if c.is_ascii_alphanumeric() => run(d, |c| c.is_ascii_alphanumeric() || c == b'-'),
        _ => 0,
    }
}

fn comment(d: &[u8]) -> usize {
    let w = run(d, ws);
    if d.get(w) == Some(&b'#') {
        w + run(&d[w..], |c| c != b'\n' && c != b'\r')
    } else {
        0
    }
}

fn bound(d: &[u8]) -> Want {
    match d.first() {
        None => Len(0),
        Some(c) if b":{}[] \t,\n\r".contains(c) => Len(run(d, ws)),
        _ => Miss,
    }
}

fn opt(lo: usize, hi: usize, n: usize) -> Want {
    let n = n.min(hi);
    if n < lo {
        Miss
    } else {
        Len(n)
    }
}

fn text(d: &[u8]) -> String {
    String::from_utf8_lossy(d).into_owned()
}

/// The spaces or the boundary behind a number.
fn number_end(d: &[u8], n: usize) -> Option<usize> {
    match run(&d[n..], ws) {
        0 => match bound(&d[n..]) {
            Len(w) => Some(n + w),
            _ => None,
        },
        w => Some(n + w),
    }
}

fn int(d: &[u8]) -> Want {
    let s = (d.first() == Some(&b'-')) as usize;
    let mut n = s + run(&d[s..], |c| c.is_ascii_digit());
    if n == s {
        return Miss;
    }
    if &d[..n] == b"0" {
        let more = match d.get(1) {
            Some(b'o') => run(&d[2..], |c| (b'0'..=b'7').contains(&c)),
            Some(b'x') => run(&d[2..], |c| c.is_ascii_hexdigit()),
            _ => 0,
        };
        if more > 0 {
            n = 2 + more;
        }
    }
    match number_end(d, n) {
        Some(e) => Text(e, text(&d[..n])),
        None => Miss,
    }
}

fn float(d: &[u8], sci: bool) -> Want {
    let s = (d.first() == Some(&b'-')) as usize;
    let mut n = s + run(&d[s..], |c| c.is_ascii_digit());
    if n == s {
        return Miss;
    }
    let point = d.get(n) == Some(&b'.');
    if point {
        n += 1;
        n += run(&d[n..], |c| c.is_ascii_digit());
    } else if !sci {
        return Miss;
    }
    if sci {
        if !matches!(d.get(n), Some(b'e' | b'E')) {
            return Miss;
        }
        n += 1;
        if matches!(d.get(n), Some(b'+' | b'-')) {
            n += 1;
        }
        let e = run(&d[n..], |c| c.is_ascii_digit());
        if e == 0 {
            return Miss;
        }
        n += e;
    }
    match number_end(d, n) {
        Some(e) => Number(e, text(&d[..n]).parse().unwrap()),
        None => Miss,
    }
}

fn gap(d: &[u8], cmt: bool) -> Want {
    let line = |i: usize| {
        let j = i + run(&d[i..], ws);
        if cmt {
            j + comment(&d[j..])
        } else {
            j
        }
    };
    let mut i = line(0);
    if nl(&d[i..]) == 0 {
        return Miss;
    }
    i += nl(&d[i..]);
    let mut t = 1;
    loop {
        let j = line(i);
        match nl(&d[j..]) {
            0 => return Count(if j == d.len() { j } else { i }, t),
            n => {
                t += 1;
                i = j + n;
            }
        }
    }
}

fn tag(d: &[u8], handles: &BTreeMap<String, String>) -> Want {
    if d.first() != Some(&b'!') {
        return Miss;
    }
    let d1 = &d[1..];
    let i = ident(d1);
    if i > 0 {
        let name = text(&d1[..i]);
        if d1.get(i) == Some(&b'!') {
            let Some(p) = handles.get(&name) else { return Stop };
            let s = ident(&d1[i + 1..]);
            return Text(2 + i + s, format!("{p}{}", text(&d1[i + 1..i + 1 + s])));
        }
        return Text(1 + i, format!("{}{name}", handles["!"]));
    }
    match d1.first() {
        Some(b'<') => {
            let n = run(&d1[1..], |c| !b" <>\n\r".contains(&c));
            if n > 0 && d1.get(1 + n) == Some(&b'>') {
                Text(n + 3, text(&d1[1..1 + n]))
            } else {
                Miss
            }
        }
        Some(b'!') => {
            let s = ident(&d1[1..]);
            Text(2 + s, format!("{}{}", handles["!!"], text(&d1[1..1 + s])))
        }
        _ => Text(1, handles["!"].clone()),
    }
}

/// What a call returned.
enum Got {
    Unit,
    Text(String),
    Count(usize),
}

fn unit(r: Result<(), PError>) -> Result<Got, PError> {
    r.map(|_| Got::Unit)
}

fn string(r: Result<String, PError>) -> Result<Got, PError> {
    r.map(Got::Text)
}

fn count(r: Result<usize, PError>) -> Result<Got, PError> {
    r.map(Got::Count)
}

fn take_opt(r: &mut Rng) -> (TakeOpt, usize, usize) {
    match r.below(3) {
        0 => (TakeOpt::One, 1, 1),
        1 => {
            let a = r.below(4);
            let b = a + r.below(4);
            (TakeOpt::Range(a, b), a, b)
        }
        _ => {
            let a = r.below(4);
            (TakeOpt::More(a), a, usize::MAX)
        }
    }
}

/// Reference of the indentation stack.
fn ind(stack: &mut Vec<usize>, level: usize, d: &[u8]) -> Want {
    while stack.len() <= level {
        stack.push(2);
    }
    stack.truncate(level + 1);
    let n = stack.iter().sum();
    if run(d, |c| c == b' ') >= n {
        Len(n)
    } else {
        Miss
    }
}

struct State<'a> {
    /// Unread bytes of the attached document.
    doc: &'a [u8],
    /// Offset of the attached document.
    base: usize,
    handles: BTreeMap<String, String>,
    stack: Vec<usize>,
}

#[allow(clippy::too_many_arguments)]
fn observe(cx: &mut Ctx, st: &State, name: &str, before: (usize, usize), p: &mut Parser, res: Result<Got, PError>, want: Option<Want>, low: bool) {
    let (pos0, eaten0) = before;
    let (pos, eaten) = (p.pos, p.eaten);
    let d = &st.doc[pos0..];
    let near = text(&d[..d.len().min(24)]);
    cx.count(name);
    let ctx = |s: String| format!("{name} at {near:?} (from {pos0}, checkpoint {eaten0}): {s}");
    let outside = pos > st.doc.len() || eaten > st.doc.len();
    cx.check(!outside, "cursor is beyond the end", || ctx(format!("pos {pos} eaten {eaten} of {}", st.doc.len())));
    if outside {
        return;
    }
    cx.check(p.food() == &st.doc[pos..], "food is not the rest", || ctx(String::new()));
    cx.check(p.indicator() == (st.base + pos) as u64, "wrong indicator", || ctx(format!("{} for {} + {pos}", p.indicator(), st.base)));
    let t = if eaten < pos { text(&st.doc[eaten..pos]) } else { String::new() };
    let got = p.text();
    cx.check(got == t, "text is not what was matched", || ctx(format!("{got:?}, expected {t:?}")));
    if low {
        cx.check(eaten == eaten0, "checkpoint moved", || ctx(format!("{eaten}")));
    }
    let code = match &res {
        Ok(_) => {
            cx.count("matched");
            cx.check(pos >= pos0.min(eaten0), "matched in front of the start", || ctx(format!("{pos}")));
            0
        }
        Err(PError::Mismatch) => {
            cx.count("mismatched");
            // The loader might have eaten the spaces, the breaks and the comments
            let ok = pos == pos0 || (eaten0 < pos0 && pos == eaten0) || (!low && pos > pos0 && is_gap(&st.doc[pos0..pos]));
            cx.check(ok, "mismatched, but the cursor is moved", || ctx(format!("cursor {pos}")));
            1
        }
        Err(PError::Terminate { msg, .. }) => {
            cx.count("terminated");
            let l = super::errors::locate(st.doc, msg);
            cx.check(l.is_ok(), "error message is not an indication of the document", || ctx(format!("{msg:?}")));
            2
        }
    };
    cx.nontrivial(&(name, &near, code));
    let Some(w) = want else { return };
    cx.count("exact");
    let n = pos as i64 - pos0 as i64;
    let ok = match (&w, &res) {
        (Len(l), Ok(_)) => n == *l as i64,
        (Text(l, t), Ok(Got::Text(s))) => n == *l as i64 && s == t,
        (Number(l, f), Ok(Got::Text(s))) => n == *l as i64 && s.parse::<f64>().is_ok_and(|s| s.to_bits() == f.to_bits()),
        (Count(l, c), Ok(Got::Count(k))) => n == *l as i64 && c == k,
        (Miss, Err(PError::Mismatch)) => true,
        (Stop, Err(PError::Terminate { .. })) => true,
        _ => false,
    };
    cx.check(ok, "matches another text", || {
        let r = match &res {
            Ok(Got::Text(s)) => format!("{n} bytes as {s:?}"),
            Ok(Got::Count(k)) => format!("{n} bytes, count {k}"),
            Ok(_) => format!("{n} bytes"),
            Err(e) => e.to_string(),
        };
        ctx(format!("expected {w:?}, got {r}"))
    });
}

/// Nothing but spaces, breaks and comments.
fn is_gap(d: &[u8]) -> bool {
    d.split(|c| matches!(c, b'\n' | b'\r')).all(|l| {
        let w = run(l, ws);
        w == l.len() || l[w] == b'#'
    })
}

const LOW: usize = 31;

/// One random call of a low level sub-parser.
fn call(cx: &mut Ctx, r: &mut Rng, st: &mut State, p: &mut Parser, k: usize) {
    let before = (p.pos, p.eaten);
    let d = &st.doc[p.pos..];
    let at = p.pos == p.eaten;
    const SYMS: &[u8] = b" \n\r\t-:?#[]{},&*!|>'\"%ab01x.eE";
    let (name, res, want): (&str, Result<Got, PError>, Option<Want>) = match k {
        0 => {
            let c = *r.pick(SYMS);
            ("sym", unit(p.sym(c)), Some(if d.first() == Some(&c) { Len(1) } else { Miss }))
        }
        1 => {
            let s: Vec<u8> = (0..r.below(5)).map(|_| *r.pick(SYMS)).collect();
            ("sym_set", unit(p.sym_set(&s)), Some(if d.first().is_some_and(|c| s.contains(c)) { Len(1) } else { Miss }))
        }
        2 => {
            let n = r.below(5).min(d.len());
            let mut s = d[..n].to_vec();
            if n > 0 && r.chance(1, 2) {
                s[r.below(n)] = *r.pick(SYMS);
            }
            if r.chance(1, 6) {
                s.push(*r.pick(SYMS));
            }
            let w = if d.starts_with(&s) { Len(s.len()) } else { Miss };
            ("sym_seq", unit(p.sym_seq(&s)), Some(w))
        }
        3 | 4 => {
            let (o, a, b) = take_opt(r);
            let s: Vec<u8> = (0..r.below(12)).map(|_| if r.chance(1, 2) && !d.is_empty() { d[r.below(d.len().min(8))] } else { *r.pick(SYMS) }).collect();
            let inside = r.chance(1, 2);
            let n = run(d, |c| s.contains(&c) == inside);
            let res = if inside { p.take_while(Parser::is_in(&s), o) } else { p.take_while(Parser::not_in(&s), o) };
            ("take_while", unit(res), Some(opt(a, b, n)))
        }
        5 => {
            let (o, a, b) = take_opt(r);
            ("ws", unit(p.ws(o)), Some(opt(a, b, run(d, ws))))
        }
        6 => {
            let (o, a, b) = take_opt(r);
            ("inv", unit(p.inv(o)), Some(opt(a, b, run(d, inv))))
        }
        7 => ("nl", unit(p.nl()), Some(match nl(d) {
            0 => Miss,
            n => Len(n),
        })),
        8 => ("identifier", unit(p.identifier()), Some(match ident(d) {
            0 => Miss,
            n => Len(n),
        })),
        9 | 10 => {
            let (name, c) = if k == 9 { ("anchor", b'&') } else { ("anchor_use", b'*') };
            let w = match d.split_first() {
                Some((s, d)) if *s == c && ident(d) > 0 => Text(ident(d) + 1, text(&d[..ident(d)])),
                _ => Miss,
            };
            (name, string(if k == 9 { p.anchor() } else { p.anchor_use() }), Some(w))
        }
        11 => ("comment", unit(p.comment()), Some(match comment(d) {
            0 => Miss,
            n => Len(n),
        })),
        12 => ("bound", unit(p.bound()), Some(bound(d))),
        13 => {
            let w = match d.split_first() {
                Some((b'?', d)) => match bound(d) {
                    Len(n) => Len(n + 1),
                    w => w,
                },
                _ => Miss,
            };
            ("complex_mapping", unit(p.complex_mapping()), Some(w))
        }
        14 => ("int", string(p.int()), at.then(|| int(d))),
        15 => ("float", string(p.float()), at.then(|| float(d, false))),
        16 => ("sci_float", string(p.sci_float()), at.then(|| float(d, true))),
        17 => ("gap", count(p.gap(true)), Some(gap(d, true))),
        18 => ("gap", count(p.gap(false)), Some(gap(d, false))),
        19 | 20 => ("tag", string(p.tag()), Some(tag(d, &st.handles))),
        21 => {
            let level = r.below(5);
            let w = ind(&mut st.stack, level, d);
            ("ind", unit(p.ind(level)), Some(w))
        }
        22 => {
            let level = r.below(5);
            let w = match level {
                0 => Len(0),
                l => ind(&mut st.stack, l - 1, d),
            };
            let w = match w {
                Len(n) => {
                    let m = run(&d[n..], |c| c == b' ');
                    if level < st.stack.len() {
                        st.stack[level] = m;
                    } else {
                        st.stack.push(m);
                    }
                    Count(n + m, m)
                }
                w => w,
            };
            ("ind_define", count(p.ind_define(level)), Some(w))
        }
        23 => {
            let _ = p.chomp();
            let n = d.first().is_some_and(|c| matches!(c, b'-' | b'+')) as usize;
            ("chomp", Ok(Got::Unit), Some(Len(n)))
        }
        24 => {
            let n = r.below(3);
            // The number of the counted bytes
            let res = p.count(|p| p.ws(TakeOpt::More(n)));
            let w = run(d, ws);
            ("count", count(res), Some(if w < n { Miss } else { Count(w, w) }))
        }
        25 => {
            // A local checkpoint: a mismatch inside goes back to its own start
            cx.count("context");
            let n = run(d, |c| c == b' ');
            let mut inner = (0, 0, 0);
            let pos = p.pos;
            let res = p.context(|p| {
                let e = p.eaten;
                let _ = p.take_while(|c| *c == b' ', TakeOpt::More(0));
                p.forward();
                let t = p.sym_set(&[]).is_err() as usize;
                inner = (e, p.pos, t);
                Ok(Got::Unit)
            });
            cx.check(inner.0 == pos && inner.1 == pos + n, "context has another checkpoint", || format!("{inner:?} at {pos}, {n} spaces"));
            ("context", res, Some(Len(n)))
        }
        26 => ("string_plain", string(p.string_plain(r.below(3), r.chance(1, 2))), None),
        27 => ("string_literal", string(p.string_literal(r.below(3))), None),
        28 => ("string_folded", string(p.string_folded(r.below(3))), None),
        29 => {
            let (c, i): (u8, &[u8]) = if r.chance(1, 2) { (b'"', b"\\\"") } else { (b'\'', b"''") };
            ("string_quoted", string(p.string_quoted(c, i)), None)
        }
        30 => {
            let res = unit(p.directive());
            cx.count("directive");
            ("directive", res, None)
        }
        _ => unreachable!(),
    };
    let st_ref: &State = st;
    // These ones keep their own marks of the indentation
    if (26..=28).contains(&k) {
        observe(cx, st_ref, name, before, p, res, want, true);
        return;
    }
    observe(cx, st_ref, name, before, p, res, want, true);
}

fn bytes(r: &mut Rng) -> Vec<u8> {
    const T: &[&str] = &[
        " ", " ", "  ", "   ", "\t", "\n", "\n", "\r", "\r\n", "\n\r", "\n  ", "\x0C", "-", "- ", "+", "0", "1", "12", "0x", "0xF", "0o7", "0o8", ".", "1.5", "1.0", "10.0", "1e5", "1E-3", "1.e", "e", "E", "-1", "--", ":", ": ", "?", "? ", "#", "# c", " # d", "&a", "&", "*a", "*a-1", "*", "!", "!t",
        "!!str", "!!", "!h!x", "!u!x", "!<a>", "!<", ">", "|", "|\n", "| # c\n ", ">-\n  ", "'", "''", "\"", "\\\"", "\\", "[", "]", "{", "}", ",", "a", "b", "abc", "a-b", "é", "日", "---", "...", "%", "%X y\n", "%TAG !h! p:\n", "%YAML 1.2\n", "[a]", "{a: b}", "a: b", "- a\n", "k:\n  v\n",
    ];
    let mut b: Vec<u8> = vec![];
    let few: Vec<&str> = (0..5).map(|_| r.ps(T)).collect();
    for _ in 0..r.range(1, 12) {
        if r.chance(1, 40) {
            b.push(r.next() as u8);
        } else {
            b.extend(if r.chance(1, 2) { r.ps(T) } else { few[r.below(5)] }.bytes());
        }
    }
    b
}

fn cursor(cx: &mut Ctx, r: &mut Rng) {
    let mut doc = bytes(r);
    let loader = r.chance(1, 6);
    let handles = r.chance(1, 4);
    if handles {
        let mut d = b"%TAG !h! pre:\n%TAG !! two:\n".to_vec();
        d.append(&mut doc);
        doc = d;
    }
    cx.input(&text(&doc));
    if loader {
        loader_calls(cx, r, &doc);
        return;
    }
    let mut st = State {
        doc: &doc,
        base: 0,
        handles: [("!".to_string(), String::new()), ("!!".to_string(), "tag:yaml.org,2002:".to_string())].into(),
        stack: vec![0],
    };
    let mut p = Parser::new(&doc);
    if handles {
        for _ in 0..2 {
            let ok = p.directive().is_ok();
            cx.check(ok, "directive is not matched", || text(p.food()));
            p.forward();
        }
        st.handles.insert("h".into(), "pre:".into());
        st.handles.insert("!!".into(), "two:".into());
    } else {
        let n = r.below(doc.len() + 1);
        p = p.pos(n);
        cx.check(p.pos == n && p.eaten == n, "start is not set", || format!("{} {}", p.pos, p.eaten));
    }
    let mut clean = true;
    for _ in 0..r.range(1, 12) {
        if r.chance(3, 4) {
            p.forward();
            cx.check(p.eaten == p.pos, "forward does not set the checkpoint", String::new);
        }
        let mut k = r.below(LOW);
        // The directives change the handles, the strings change the indentation
        if k == 30 && st.doc[p.pos..].starts_with(b"%TAG") {
            k = 0;
        }
        if !clean && (k == 21 || k == 22) {
            continue;
        }
        if (26..=28).contains(&k) {
            clean = false;
        }
        call(cx, r, &mut st, &mut p, k);
        match r.below(12) {
            0 => {
                let e = p.eaten;
                p.backward();
                cx.check(p.pos == e && p.eaten == e, "backward does not return to the checkpoint", String::new);
            }
            1 => {
                let n = r.below(p.pos - p.pos.min(p.eaten) + 1);
                let pos = p.pos;
                p.back(n);
                cx.check(p.pos == pos - n, "back is not exact", String::new);
            }
            2 => {
                // The next chunk
                cx.count("chunks");
                let at = p.pos;
                p.consume();
                st.base += at;
                st.doc = &st.doc[at..];
                p = p.with_doc(st.doc);
                let ok = p.pos == 0 && p.eaten == 0 && p.food() == st.doc && p.indicator() == st.base as u64;
                cx.check(ok, "the next chunk does not continue", || format!("{} {} {} {}", p.pos, p.eaten, p.indicator(), st.base));
            }
            _ => {}
        }
        if p.pos < p.eaten {
            p.forward();
        }
    }
}

/// The sub-parsers of the loader, each on its own.
fn loader_calls(cx: &mut Ctx, r: &mut Rng, doc: &[u8]) {
    let st = State { doc, base: 0, handles: BTreeMap::new(), stack: vec![] };
    let mut l = Loader::<RcRepr>::new(doc).cyclic_mode(r.chance(1, 3));
    if r.chance(1, 2) {
        l.parser = Parser::new(doc).pos(r.below(doc.len() + 1));
    }
    for _ in 0..r.range(1, 5) {
        l.forward();
        let before = (l.pos, l.eaten);
        let level = r.below(3);
        let (map, flow) = (r.chance(1, 3), r.chance(1, 3));
        let (name, res) = match r.below(9) {
            0 => ("loader.scalar", l.scalar(level, map, flow).map(|_| ())),
            1 => ("loader.scalar_flow", l.scalar_flow(level, flow).map(|_| ())),
            2 => ("loader.scalar_term", l.scalar_term(level, flow).map(|_| ())),
            3 => ("loader.seq_flow", l.seq_flow(level).map(|_| ())),
            4 => ("loader.map_flow", l.map_flow(level).map(|_| ())),
            5 => ("loader.seq", l.seq(level, map).map(|_| ())),
            6 => ("loader.map", l.map(level, map, flow).map(|_| ())),
            7 => {
                let e = l.doc_end();
                let d = &doc[l.pos..];
                let mark = (d.starts_with(b"---") || d.starts_with(b"...")) && d.get(3).is_none_or(|c| inv(*c));
                let w = run(d, ws);
                let end = w == d.len() || w + comment(&d[w..]) == d.len();
                cx.check(e == (mark || end), "wrong end of the document", || format!("{e} at {:?}", text(d)));
                ("loader.doc_end", Ok(()))
            }
            _ => ("loader.doc", l.doc().map(|_| ())),
        };
        let res = res.map(|_| Got::Unit);
        let stop = matches!(res, Err(PError::Terminate { .. }));
        observe(cx, &st, name, before, &mut l.parser, res, None, false);
        if stop {
            break;
        }
    }
}

fn cursor_fixed(cx: &mut Ctx) {
    // The sets are complements
    for s in [&b""[..], b"a", b"ab\n", b"\x00\xFF"] {
        for c in 0..=255u8 {
            let (a, b) = (Parser::is_in(s)(&c), Parser::not_in(s)(&c));
            cx.check(a == s.contains(&c) && a != b, "set detectors", || format!("{c} in {s:?}"));
        }
    }
    // All options on all lengths
    for n in 0..8 {
        let doc = "a".repeat(n) + "b";
        let doc2 = "a".repeat(n);
        for d in [&doc, &doc2] {
            cx.input(d);
            for a in 0..6usize {
                for b in a..7 {
                    let mut p = Parser::new(d.as_bytes());
                    let ok = p.take_while(|c| *c == b'a', TakeOpt::Range(a, b)).is_ok();
                    let want = if n < a { 0 } else { n.min(b) };
                    cx.check(ok == (n >= a) && p.pos == want, "range", || format!("{{{a},{b}}} of {d} matched {ok} {}", p.pos));
                }
                let mut p = Parser::new(d.as_bytes());
                let ok = p.take_while(|c| *c == b'a', TakeOpt::More(a)).is_ok();
                let want = if n < a { 0 } else { n };
                cx.check(ok == (n >= a) && p.pos == want, "more", || format!("{{{a},}} of {d} matched {ok} {}", p.pos));
            }
            let mut p = Parser::new(d.as_bytes());
            let ok = p.take_while(|c| *c == b'a', TakeOpt::One).is_ok();
            cx.check(ok == (n > 0) && p.pos == n.min(1), "one", || format!("one of {d} matched {ok} {}", p.pos));
        }
    }
    // Escapes are decoded by value
    for (s, t) in [("", ""), ("a", "a"), ("\\n", "\n"), ("\\\\n", "\\n"), ("\\x41", "A"), ("\\u00e9", "é"), ("\\U0001F600", "😀"), ("\\ud83d\\ude00", "😀"), ("\\\"", "\""), ("\\/", "/"), ("\\0", "\0"), ("\\e\\_", "\x1b\u{a0}")] {
        let g = Parser::escape(s);
        cx.check(g == t, "escape", || format!("{s:?} is {g:?}"));
    }
}
