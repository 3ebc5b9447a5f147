//! Reference renderer: writes a reference tree as YAML text in a randomly
//! chosen presentation.  It is the executable specification of the accepted
//! language; nothing of it comes from the crate under test.
use crate::{core::Rng, model::*};

#[derive(Clone, Copy)]
pub struct Style {
    pub flow: bool,
    pub block: bool,
    /// Folded scalars and multi-line flow collections.
    pub multiline: bool,
    pub comments: bool,
    pub blanks: bool,
    pub trailing: bool,
    /// Tabs as the white space inside of the lines.
    pub tabs: bool,
    /// Random indentation widths.
    pub wide: bool,
    pub escapes: bool,
    pub explicit_keys: bool,
    /// Spaces in front of the splitter and behind the indicators.
    pub spaces: bool,
    pub empty_null: bool,
    pub nl: &'static str,
}

pub const PLAIN: Style = Style {
    flow: false,
    block: true,
    multiline: false,
    comments: false,
    blanks: false,
    trailing: false,
    tabs: false,
    wide: false,
    escapes: false,
    explicit_keys: false,
    spaces: false,
    empty_null: false,
    nl: "\n",
};

pub fn random_style(r: &mut Rng) -> Style {
    Style {
        flow: r.chance(2, 3),
        block: r.chance(9, 10),
        multiline: r.chance(1, 2),
        comments: r.chance(1, 2),
        blanks: r.chance(1, 2),
        trailing: r.chance(1, 3),
        tabs: r.chance(1, 4),
        wide: r.chance(1, 2),
        escapes: r.chance(1, 2),
        explicit_keys: r.chance(1, 3),
        spaces: r.chance(1, 2),
        empty_null: r.chance(1, 2),
        nl: r.ps(&["\n", "\n", "\n", "\r\n", "\r"]),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    Root,
    Colon,
    Dash,
    Quest,
    /// Behind the `:` of an explicit key
    XColon,
    /// Behind `---` on the same line
    Marker,
}

pub struct W<'r> {
    pub out: String,
    pub r: &'r mut Rng,
    pub st: Style,
    /// Tag handles: name without `!`, prefix.
    pub handles: Vec<(String, String)>,
    /// The last line belongs to a block scalar. 1: clip/strip, 2: keep
    raw: u8,
    /// Styles used
    pub used: Vec<&'static str>,
}

fn is_ctl(c: char) -> bool {
    c.is_control() || c == '\u{FEFF}' || c == '\u{2028}' || c == '\u{2029}'
}

/// YAML core schema: is the plain text something other than a string?
pub fn resolves(s: &str) -> Option<V> {
    Some(match s {
        "~" | "null" | "Null" | "NULL" => V::Null,
        "true" | "True" | "TRUE" => V::Bool(true),
        "false" | "False" | "FALSE" => V::Bool(false),
        ".nan" | ".NaN" | ".NAN" => V::Float(f64::NAN),
        ".inf" | ".Inf" | ".INF" => V::Float(f64::INFINITY),
        "-.inf" | "-.Inf" | "-.INF" => V::Float(f64::NEG_INFINITY),
        _ => {
            let t = s.strip_prefix('-').unwrap_or(s);
            let digits = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit());
            if digits(t) {
                return int_value(s).map(V::Int).or(Some(V::Int(i128::MAX)));
            }
            if let Some(h) = s.strip_prefix("0x") {
                return (!h.is_empty() && h.bytes().all(|c| c.is_ascii_hexdigit())).then(|| V::Int(int_value(s).unwrap_or(i128::MAX)));
            }
            if let Some(h) = s.strip_prefix("0o") {
                return (!h.is_empty() && h.bytes().all(|c| (b'0'..b'8').contains(&c))).then(|| V::Int(int_value(s).unwrap_or(i128::MAX)));
            }
            let (m, e) = match t.find(['e', 'E']) {
                Some(i) => (&t[..i], Some(&t[i + 1..])),
                None => (t, None),
            };
            let (a, b) = match m.split_once('.') {
                Some((a, b)) => (a, Some(b)),
                None => (m, None),
            };
            let frac = b.is_none_or(|b| b.bytes().all(|c| c.is_ascii_digit()));
            let exp = e.is_none_or(|e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)));
            if digits(a) && frac && exp && (b.is_some() || e.is_some()) {
                return s.parse().ok().map(V::Float);
            }
            return None;
        }
    })
}

/// Conservative: the text can be a plain scalar on one line.
pub fn plain_ok(s: &str, flow: bool) -> bool {
    let Some(c) = s.chars().next() else { return false };
    if "-?:,[]{}#&*!|>'\"%@`".contains(c) || s.starts_with("...") {
        return false;
    }
    if s.chars().any(|c| is_ctl(c) && c != '\t') || s.trim_matches([' ', '\t']) != s || s.ends_with(':') {
        return false;
    }
    if [": ", ":\t", " #", "\t#"].iter().any(|t| s.contains(t)) || resolves(s).is_some() {
        return false;
    }
    if flow && s.contains([',', '[', ']', '{', '}', ':']) {
        return false;
    }
    true
}

pub fn block_ok(s: &str) -> bool {
    let t = s.trim_end_matches('\n');
    let first = t.trim_start_matches('\n');
    !first.is_empty()
        && !first.starts_with([' ', '\t'])
        && !s.chars().any(|c| is_ctl(c) && c != '\n' && c != '\t')
        && t.split('\n').all(|l| l.is_empty() || !l.trim_matches([' ', '\t']).is_empty())
}

fn fold_ok(s: &str) -> bool {
    block_ok(s)
        && !s.starts_with('\n')
        && s.trim_end_matches('\n').split('\n').all(|l| !l.starts_with([' ', '\t']) && !l.ends_with([' ', '\t']))
}

fn single_ok(s: &str, lines: bool) -> bool {
    if s.chars().any(|c| is_ctl(c) && c != '\n' && c != '\t') {
        return false;
    }
    // Folded lines: text on both sides of every break
    !s.contains('\n')
        || (lines
            && !s.starts_with('\n')
            && !s.ends_with('\n')
            && s.split('\n').all(|l| !l.starts_with([' ', '\t']) && !l.ends_with([' ', '\t'])))
}

impl<'r> W<'r> {
    pub fn new(r: &'r mut Rng, st: Style) -> Self {
        Self { out: String::new(), r, st, handles: vec![], raw: 0, used: vec![] }
    }

    fn u(&mut self, s: &'static str) {
        self.used.push(s);
    }

    fn pos(&self) -> u64 {
        self.out.len() as u64
    }

    fn sp(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }

    /// White space which is not an indentation.
    fn ws(&mut self, n: usize) {
        for _ in 0..n {
            let tab = self.st.tabs && self.r.chance(1, 3);
            if tab {
                self.u("tab");
            }
            self.out.push(if tab { '\t' } else { ' ' });
        }
    }

    fn comment(&mut self) {
        let c = self.r.ps(&["#", "# c", "# a: b", "#- x", "# [", "# \"", "# é ' {", "#!t &a *b", "# ---", "# | >", "#\tx"]);
        self.out.push_str(c);
    }

    /// End of a line, and the noise lines behind it.
    pub fn eol(&mut self) {
        if self.raw == 0 {
            if self.st.trailing && self.r.chance(1, 4) {
                let n = self.r.range(1, 3);
                self.ws(n);
            }
            if self.st.comments && self.r.chance(1, 5) {
                let n = self.r.range(1, 3);
                self.ws(n);
                self.comment();
            }
        }
        self.out.push_str(self.st.nl);
        let keep = self.raw == 2;
        let block = self.raw != 0;
        self.raw = 0;
        if keep {
            return;
        }
        let mut more = if self.r.chance(1, 3000) { self.r.range(30, 600) } else { 0 };
        if more > 0 && (self.st.blanks || self.st.comments) {
            self.u("many lines");
        }
        while (self.st.blanks || self.st.comments) && (more > 0 || self.r.chance(1, 6)) {
            more = more.saturating_sub(1);
            if self.st.comments && !block && self.r.chance(1, 2) {
                let n = self.r.below(7);
                self.ws(n);
                self.comment();
            } else if self.st.blanks {
                if self.st.trailing && !block && self.r.chance(1, 3) {
                    let n = self.r.range(1, 5);
                    self.ws(n);
                }
            } else {
                break;
            }
            self.out.push_str(self.st.nl);
        }
    }

    fn tag_text(&mut self, tag: &str) -> String {
        let ident = |s: &str| {
            !s.is_empty() && !s.starts_with('-') && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-')
        };
        let find = |h: &str| self.handles.iter().find(|(n, _)| n == h).map(|(_, p)| p.clone());
        let primary = find("").unwrap_or_default();
        let second = find("!").unwrap_or_else(|| "tag:yaml.org,2002:".to_string());
        let mut v = vec![format!("!<{tag}>")];
        if let Some(s) = tag.strip_prefix(primary.as_str()).filter(|s| ident(s)) {
            v.push(format!("!{s}"));
            v.push(format!("!{s}"));
        }
        if let Some(s) = tag.strip_prefix(second.as_str()).filter(|s| ident(s)) {
            v.push(format!("!!{s}"));
            v.push(format!("!!{s}"));
        }
        for (h, p) in &self.handles {
            if h.is_empty() || h == "!" {
                continue;
            }
            if let Some(s) = tag.strip_prefix(p.as_str()).filter(|s| ident(s)) {
                v.push(format!("!{h}!{s}"));
                v.push(format!("!{h}!{s}"));
            }
        }
        let i = self.r.below(v.len());
        v.swap_remove(i)
    }

    /// Anchor and tag in front of the node. Return whether anything was written.
    fn props(&mut self, n: &N) -> bool {
        let a = n.anchor.as_ref().map(|a| format!("&{a}"));
        let t = n.tag.as_ref().map(|t| t.clone()).map(|t| self.tag_text(&t));
        let mut v: Vec<String> = a.into_iter().chain(t).collect();
        if v.len() == 2 && self.r.chance(1, 2) {
            v.swap(0, 1);
        }
        if v.len() == 2 {
            self.u("props.both");
        }
        let s = v.join(if self.st.spaces && self.r.chance(1, 4) { "  " } else { " " });
        self.out.push_str(&s);
        !s.is_empty()
    }

    // ------------------------------------------------------------- scalars

    fn case_of(&mut self, s: &'static [&'static str]) -> &'static str {
        self.r.ps(s)
    }

    fn int_text(&mut self, i: i128) -> String {
        if i >= 0 && self.st.escapes {
            match self.r.below(8) {
                0 => return format!("0x{i:x}"),
                1 => return format!("0x{i:X}"),
                2 => return format!("0o{i:o}"),
                3 => return format!("0{i}"),
                _ => {}
            }
        }
        i.to_string()
    }

    fn float_text(&mut self, f: f64) -> String {
        if f.is_nan() {
            return self.case_of(&[".nan", ".NaN", ".NAN"]).into();
        }
        if f == f64::INFINITY {
            return self.case_of(&[".inf", ".Inf", ".INF"]).into();
        }
        if f == f64::NEG_INFINITY {
            return self.case_of(&["-.inf", "-.Inf", "-.INF"]).into();
        }
        match self.r.below(5) {
            0 => format!("{f:e}"),
            1 => format!("{f:E}"),
            2 => {
                // 1.5e+07
                let s = format!("{f:e}");
                let (m, e) = s.split_once('e').unwrap();
                let e: i32 = e.parse().unwrap();
                format!("{m}{}{}{:02}", self.r.ps(&["e", "E"]), if e < 0 { '-' } else { '+' }, e.abs())
            }
            _ => {
                let mut s = f.to_string();
                if !s.contains('.') {
                    s.push_str(self.r.ps(&[".0", ".", ".00"]));
                } else if self.r.chance(1, 4) {
                    s.push('0');
                }
                s
            }
        }
    }

    /// One line text of a non-string scalar.
    fn atom(&mut self, v: &V) -> String {
        match v {
            V::Null => self.case_of(&["null", "~", "Null", "NULL"]).into(),
            V::Bool(true) => self.case_of(&["true", "True", "TRUE"]).into(),
            V::Bool(false) => self.case_of(&["false", "False", "FALSE"]).into(),
            V::Int(i) => self.int_text(*i),
            V::Float(f) => self.float_text(*f),
            V::Alias(a) => format!("*{a}"),
            _ => unreachable!(),
        }
    }

    /// Break the line inside of a scalar: `n` line breaks, then the indent.
    fn brk(&mut self, n: usize, ind: usize) {
        if self.st.trailing && self.r.chance(1, 4) {
            self.ws(1);
        }
        for i in 0..n {
            self.out.push_str(self.st.nl);
            if i + 1 < n && self.st.trailing && self.r.chance(1, 4) {
                let k = self.r.below(4);
                self.ws(k);
            }
        }
        let extra = if self.r.chance(1, 3) { self.r.below(4) } else { 0 };
        self.sp(ind);
        self.ws(extra);
    }

    /// `ind`: indent of the continuation lines, `None` to stay on the line.
    fn single(&mut self, s: &str, ind: Option<usize>) {
        self.u("single");
        let c: Vec<char> = s.chars().collect();
        self.out.push('\'');
        let mut i = 0;
        while i < c.len() {
            if c[i] == '\n' {
                let mut n = 0;
                while c[i] == '\n' {
                    n += 1;
                    i += 1;
                }
                self.u("single.lines");
                self.brk(n + 1, ind.unwrap());
                continue;
            }
            let text = |c: Option<&char>| c.is_some_and(|c| !c.is_whitespace());
            if let (' ', Some(ind)) = (c[i], ind) {
                if i > 0 && text(c.get(i - 1)) && text(c.get(i + 1)) && self.r.chance(1, 3) {
                    self.u("single.fold");
                    self.brk(1, ind);
                    i += 1;
                    continue;
                }
            }
            if c[i] == '\'' {
                self.out.push('\'');
            }
            self.out.push(c[i]);
            i += 1;
        }
        self.out.push('\'');
    }

    fn esc(&mut self, c: char) {
        let n = c as u32;
        let short = match c {
            '\0' => Some("\\0"),
            '\x07' => Some("\\a"),
            '\x08' => Some("\\b"),
            '\t' => Some("\\t"),
            '\n' => Some("\\n"),
            '\x0B' => Some("\\v"),
            '\x0C' => Some("\\f"),
            '\r' => Some("\\r"),
            '\x1B' => Some("\\e"),
            ' ' => Some("\\ "),
            '"' => Some("\\\""),
            '/' => Some("\\/"),
            '\\' => Some("\\\\"),
            '\u{85}' => Some("\\N"),
            '\u{A0}' => Some("\\_"),
            '\u{2028}' => Some("\\L"),
            '\u{2029}' => Some("\\P"),
            _ => None,
        };
        let mut v: Vec<String> = short.map(String::from).into_iter().collect();
        // Short escapes are preferred, hexadecimal for the rest
        if v.is_empty() || self.r.chance(1, 3) {
            let up = self.r.chance(1, 2);
            let hex = |w: usize| if up { format!("{n:0w$X}") } else { format!("{n:0w$x}") };
            v.clear();
            if n <= 0xFF {
                v.push(format!("\\x{}", hex(2)));
            }
            if n <= 0xFFFF {
                v.push(format!("\\u{}", hex(4)));
            } else {
                let m = n - 0x10000;
                v.push(format!("\\u{:04X}\\u{:04x}", 0xD800 + (m >> 10), 0xDC00 + (m & 0x3FF)));
            }
            v.push(format!("\\U{}", hex(8)));
        }
        self.u("double.escape");
        let i = self.r.below(v.len());
        self.out.push_str(&v[i]);
    }

    fn double(&mut self, s: &str, ind: Option<usize>) {
        self.u("double");
        let c: Vec<char> = s.chars().collect();
        self.out.push('"');
        let mut i = 0;
        // The last character was written as an escape
        let mut escaped = false;
        // Whether the line has text, a break needs it
        let mut text = false;
        while i < c.len() {
            let raw = |c: Option<&char>| c.is_some_and(|c| !c.is_whitespace() && !is_ctl(*c) && *c != '\\' && *c != '"');
            if let Some(ind) = ind {
                if text && !escaped && i > 0 && raw(c.get(i - 1)) {
                    // `n` line feeds as an empty line
                    let n = c[i..].iter().take_while(|c| **c == '\n').count();
                    if n > 0 && raw(c.get(i + n)) && self.r.chance(1, 2) {
                        self.u("double.lines");
                        self.brk(n + 1, ind);
                        i += n;
                        continue;
                    }
                    if c[i] == ' ' && raw(c.get(i + 1)) && self.r.chance(1, 3) {
                        self.u("double.fold");
                        self.brk(1, ind);
                        i += 1;
                        continue;
                    }
                }
                // Escaped line break
                if i > 0 && !c[i].is_whitespace() && self.r.chance(1, 20) {
                    self.u("double.continue");
                    self.out.push('\\');
                    self.out.push_str(self.st.nl);
                    let extra = self.r.below(3);
                    self.sp(ind + extra);
                }
            }
            let must = is_ctl(c[i]) || c[i] == '"' || c[i] == '\\';
            if must || (self.st.escapes && self.r.chance(1, 12)) {
                self.esc(c[i]);
                escaped = true;
            } else {
                self.out.push(c[i]);
                escaped = false;
                if !c[i].is_whitespace() {
                    text = true;
                }
            }
            i += 1;
        }
        self.out.push('"');
    }

    fn plain(&mut self, s: &str, ind: Option<usize>) {
        self.u("plain");
        let Some(ind) = ind else {
            self.out.push_str(s);
            return;
        };
        // Break between the words
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < c.len() {
            let ok = |c: Option<&char>| c.is_some_and(|c| c.is_alphanumeric());
            if c[i] == '\n' {
                let n = c[i..].iter().take_while(|c| **c == '\n').count();
                self.u("plain.lines");
                self.brk(n + 1, ind);
                i += n;
                continue;
            }
            if c[i] == ' ' && i > 0 && !c[i - 1].is_whitespace() && ok(c.get(i + 1)) && self.r.chance(1, 3) {
                self.u("plain.fold");
                self.brk(1, ind);
            } else {
                self.out.push(c[i]);
            }
            i += 1;
        }
    }

    /// Literal or folded scalar, without the last line break.
    fn block_scalar(&mut self, s: &str, col: i64, folded: bool) {
        self.u(if folded { "folded" } else { "literal" });
        let body = s.trim_end_matches('\n');
        let t = s.len() - body.len();
        let mut keep = false;
        let chomp = match t {
            0 => "-",
            1 if !self.r.chance(1, 4) => "",
            _ => {
                keep = true;
                "+"
            }
        };
        self.u(match chomp {
            "-" => "chomp.strip",
            "" => "chomp.clip",
            _ => "chomp.keep",
        });
        self.out.push(if folded { '>' } else { '|' });
        self.out.push_str(chomp);
        if self.st.trailing && self.r.chance(1, 6) {
            self.ws(1);
        }
        if self.st.comments && self.r.chance(1, 6) {
            self.ws(1);
            self.comment();
        }
        self.out.push_str(self.st.nl);
        let ind = (col + 1).max(0) as usize + if self.st.wide { self.far(0, 4) } else { 1 };
        // A document marker needs an indent
        let ind = if ind == 0 && body.split([' ', '\t', '\n']).any(|w| w == "---" || w == "...") { 1 } else { ind };
        let lines: Vec<&str> = body.split('\n').collect();
        for (i, l) in lines.iter().enumerate() {
            if i > 0 {
                self.out.push_str(self.st.nl);
                // A break of the content is an empty line
                if folded && !l.is_empty() && !lines[i - 1].is_empty() {
                    self.out.push_str(self.st.nl);
                } else if folded && l.is_empty() && !lines[i - 1].is_empty() {
                    self.out.push_str(self.st.nl);
                }
            }
            if l.is_empty() {
                continue;
            }
            self.sp(ind);
            if !folded {
                self.out.push_str(l);
                continue;
            }
            let c: Vec<char> = l.chars().collect();
            for (j, ch) in c.iter().enumerate() {
                let ok = |c: Option<&char>| c.is_some_and(|c| !c.is_whitespace());
                if *ch == ' ' && j > 0 && ok(c.get(j - 1)) && ok(c.get(j + 1)) && self.r.chance(1, 4) {
                    self.u("folded.fold");
                    self.out.push_str(self.st.nl);
                    self.sp(ind);
                } else {
                    self.out.push(*ch);
                }
            }
        }
        for _ in 1..t {
            self.out.push_str(self.st.nl);
        }
        self.raw = if keep { 2 } else { 1 };
    }

    /// A string in a random style. `flow`: inside of a flow collection.
    fn string(&mut self, s: &str, ind: Option<usize>, flow: bool, block: Option<i64>) {
        let multi = ind.is_some();
        let mut v: Vec<u8> = vec![2, 2];
        if plain_ok(s, flow) {
            v.extend([0, 0, 0, 0, 0]);
            if multi {
                v.extend([5, 5]);
            }
        } else if multi
            && s.contains('\n')
            && single_ok(s, true)
            && plain_ok(&s.replace('\n', " "), flow)
            && s.split('\n').filter(|l| !l.is_empty()).all(|l| l.starts_with(char::is_alphanumeric))
        {
            v.extend([5, 5, 5]);
        }
        if single_ok(s, multi) {
            v.extend([1, 1]);
        }
        if block.is_some() && block_ok(s) {
            v.extend([3; 4]);
            if fold_ok(s) {
                v.extend([4; 4]);
            }
        }
        match *self.r.pick(&v) {
            0 => self.plain(s, None),
            1 => self.single(s, ind),
            3 => self.block_scalar(s, block.unwrap(), false),
            4 => self.block_scalar(s, block.unwrap(), true),
            5 => self.plain(s, ind),
            _ => self.double(s, ind),
        }
    }

    // ---------------------------------------------------------------- flow

    fn fsep(&mut self, ind: Option<usize>) {
        match ind {
            Some(ind) if self.r.chance(1, 5) => {
                self.u("flow.break");
                if self.st.trailing && self.r.chance(1, 3) {
                    self.sp(1);
                }
                self.out.push_str(self.st.nl);
                if self.st.blanks && self.r.chance(1, 6) {
                    self.out.push_str(self.st.nl);
                }
                let n = self.r.below(4);
                {
                    self.sp(ind);
                    self.ws(n)
                };
            }
            _ if self.st.spaces && self.r.chance(1, 3) => {
                let n = self.r.range(1, 2);
                self.ws(n);
            }
            _ => {}
        }
    }

    /// A pair of a flow collection.
    fn pair(&mut self, k: &mut N, v: &mut N, ind: Option<usize>) {
        let p = self.out.len();
        if self.st.explicit_keys && self.r.chance(1, 8) {
            self.u("flow.explicit");
            self.out.push('?');
            self.ws(1);
        }
        self.flow(k, None);
        // JSON-like keys do not need a space
        let written = self.out[p..].trim_start_matches(['?', ' ', '\t']);
        let json = written.starts_with(['"', '\'', '[', '{']) && k.anchor.is_none() && k.tag.is_none();
        let alias = matches!(k.v, V::Alias(_));
        if alias {
            self.ws(1);
        } else {
            self.fsep(None);
        }
        self.out.push(':');
        if !(json && self.st.spaces && self.r.chance(1, 2)) {
            self.ws(1);
        }
        if v.v == V::Null && v.tag.is_none() && v.anchor.is_none() && self.st.empty_null && self.r.chance(1, 3) {
            self.u("flow.empty");
            v.pos = None;
        } else {
            self.fsep(ind);
            self.flow(v, ind);
        }
    }

    /// A node inside of a flow collection, or a flow collection.
    fn flow(&mut self, n: &mut N, ind: Option<usize>) {
        if self.props(n) {
            self.ws(1);
        }
        let p = self.pos();
        n.pos = Some((p, p));
        match &mut n.v {
            V::Seq(v) => {
                self.u("flow.seq");
                self.out.push('[');
                self.fsep(ind);
                let len = v.len();
                for (i, n) in v.iter_mut().enumerate() {
                    let single = n.tag.is_none() && n.anchor.is_none() && matches!(&n.v, V::Map(m) if m.len() == 1);
                    if single && self.r.chance(1, 2) {
                        self.u("flow.pair");
                        let p = self.pos();
                        n.pos = Some((p, p));
                        let V::Map(m) = &mut n.v else { unreachable!() };
                        let (k, v) = &mut m[0];
                        self.pair(k, v, ind);
                    } else {
                        self.flow(n, ind);
                    }
                    self.fsep(ind);
                    if i + 1 < len || (self.st.spaces && self.r.chance(1, 8)) {
                        self.out.push(',');
                        if !self.st.spaces || self.r.chance(1, 2) {
                            self.ws(1);
                        }
                        self.fsep(ind);
                    }
                }
                self.out.push(']');
            }
            V::Map(m) => {
                self.u("flow.map");
                self.out.push('{');
                self.fsep(ind);
                let len = m.len();
                for (i, (k, v)) in m.iter_mut().enumerate() {
                    self.pair(k, v, ind);
                    self.fsep(ind);
                    if i + 1 < len || (self.st.spaces && self.r.chance(1, 8)) {
                        self.out.push(',');
                        if !self.st.spaces || self.r.chance(1, 2) {
                            self.ws(1);
                        }
                        self.fsep(ind);
                    }
                }
                self.out.push('}');
            }
            V::Str(s) => {
                let s = s.clone();
                let ind = if self.st.multiline { ind } else { None };
                self.string(&s, ind, true, None);
            }
            v => {
                let v = v.clone();
                let s = self.atom(&v);
                self.out.push_str(&s);
            }
        }
    }

    // --------------------------------------------------------------- block

    /// Key on one line.
    fn key(&mut self, k: &mut N) {
        if self.props(k) {
            self.ws(1);
        }
        let p = self.pos();
        k.pos = Some((p, p));
        match &k.v {
            V::Str(s) => {
                let s = s.clone();
                self.string(&s, None, false, None)
            }
            V::Seq(_) | V::Map(_) => {
                self.u("key.flow");
                let (a, t) = (k.anchor.take(), k.tag.take());
                self.flow(k, None);
                k.anchor = a;
                k.tag = t;
            }
            v => {
                let v = v.clone();
                let s = self.atom(&v);
                self.out.push_str(&s);
            }
        }
    }

    /// Block collection, the cursor is at the column of the first entry.
    fn block(&mut self, n: &mut N, col: i64) {
        let c = col as usize;
        match &mut n.v {
            V::Seq(v) => {
                self.u("block.seq");
                let len = v.len();
                for (i, n) in v.iter_mut().enumerate() {
                    self.out.push('-');
                    self.value(n, col, Place::Dash);
                    if i + 1 < len {
                        self.eol();
                        self.sp(c);
                    }
                }
            }
            V::Map(m) => {
                self.u("block.map");
                let len = m.len();
                for (i, (k, v)) in m.iter_mut().enumerate() {
                    let first = i == 0;
                    // Properties of the first key would belong to the map
                    let props = k.anchor.is_some() || k.tag.is_some();
                    let explicit = (props && first)
                        || (k.is_coll() && k.size() > 1 && (!self.st.flow || self.r.chance(1, 2)))
                        || (self.st.explicit_keys && self.r.chance(1, 6));
                    if explicit {
                        self.u("key.explicit");
                        self.out.push('?');
                        self.value(k, col, Place::Quest);
                        if v.v == V::Null && v.tag.is_none() && v.anchor.is_none() && self.st.empty_null && self.r.chance(1, 2) {
                            self.u("key.alone");
                            v.pos = None;
                            if i + 1 < len {
                                self.eol();
                                self.sp(c);
                            }
                            continue;
                        }
                        self.eol();
                        self.sp(c);
                    } else {
                        self.key(k);
                        if matches!(k.v, V::Alias(_)) || (self.st.spaces && self.r.chance(1, 6)) {
                            self.ws(1);
                        }
                    }
                    self.out.push(':');
                    self.value(v, col, if explicit { Place::XColon } else { Place::Colon });
                    if i + 1 < len {
                        self.eol();
                        self.sp(c);
                    }
                }
            }
            _ => unreachable!(),
        }
    }

    /// The value behind an indicator. No line break at the end.
    pub fn value(&mut self, n: &mut N, col: i64, place: Place) {
        let after = self.pos();
        let inline = !matches!(place, Place::Root);
        let has_props = n.tag.is_some() || n.anchor.is_some();
        // Spaces behind the indicator
        let gap = |w: &mut Self| {
            if inline {
                let n = if w.st.spaces && w.r.chance(1, 4) { w.r.range(2, 4) } else { 1 };
                w.ws(n);
            }
        };
        let empty = match &n.v {
            V::Seq(v) => v.is_empty(),
            V::Map(m) => m.is_empty(),
            _ => true,
        };
        if n.is_coll() && !empty && self.st.block && !(self.st.flow && self.r.chance(1, 4)) {
            let is_map = matches!(n.v, V::Map(_));
            let mut lo = after;
            if has_props {
                gap(self);
                self.props(n);
                lo = self.pos();
            }
            let compact = !has_props
                && match place {
                    Place::Dash => self.r.chance(4, 5),
                    Place::Quest | Place::XColon => !is_map && self.r.chance(1, 2),
                    _ => false,
                };
            // Spaces behind the indicator of a compact collection
            let width = if compact && self.st.spaces && self.r.chance(1, 5) {
                self.u("block.compact.wide");
                self.far(2, 4)
            } else {
                1
            };
            let child = match place {
                Place::Root | Place::Marker if self.st.wide && self.r.chance(1, 4) => {
                    self.u("root.indent");
                    self.far(1, 4) as i64
                }
                Place::Root | Place::Marker => 0,
                Place::Dash | Place::Quest | Place::XColon if compact => col + 1 + width as i64,
                Place::Dash => col + if self.st.wide { self.far(1, 4) as i64 } else { 2 },
                Place::Quest => col + if self.st.wide { self.far(1, 4) as i64 } else { 2 },
                Place::Colon | Place::XColon if is_map => col + if self.st.wide { self.far(1, 5) as i64 } else { 2 },
                Place::Colon | Place::XColon => col + if self.st.wide { self.far(0, 4) as i64 } else { self.r.below(2) as i64 * 2 },
            };
            if compact {
                self.u(if place == Place::Dash { "block.compact" } else { "block.compact.explicit" });
                self.sp(width);
                let p = self.pos();
                n.pos = Some((p, p));
            } else if inline || has_props {
                self.eol();
                self.sp(child as usize);
                n.pos = Some((lo, self.pos()));
            } else {
                self.sp(child as usize);
                n.pos = Some((lo, self.pos()));
            }
            self.block(n, child);
            return;
        }
        // The indent of the continuation lines
        let ind = if self.st.multiline {
            Some(match place {
                // Keep the document markers away from the line start
                Place::Root | Place::Marker => 1 + self.r.below(2),
                _ => (col + if self.r.chance(1, 2) { 1 } else { 2 }) as usize,
            })
        } else {
            None
        };
        let empty_null = n.v == V::Null && self.st.empty_null && place != Place::Quest && place != Place::Root && self.r.chance(1, 2);
        if empty_null && !n.is_coll() {
            if has_props {
                gap(self);
                self.props(n);
            }
            self.u("null.empty");
            n.pos = None;
            return;
        }
        // The content can start in the next line
        let root = matches!(place, Place::Root | Place::Marker);
        if self.st.multiline && (has_props || !root) && self.r.chance(1, 10) {
            self.u("next-line");
            let split = has_props && (root || self.r.chance(1, 2));
            let (a, t) = if split {
                self.u("next-line.props");
                gap(self);
                self.props(n);
                (n.anchor.take(), n.tag.take())
            } else {
                (None, None)
            };
            let lo = self.pos();
            self.eol();
            let more = if root { self.r.below(2) } else { self.r.range(1, 3) };
            self.sp((if root { 0 } else { col } + more as i64) as usize);
            self.content(n, ind, None);
            if split {
                n.anchor = a;
                n.tag = t;
                n.pos = Some((lo, n.pos.unwrap().1));
            } else {
                n.pos = Some((lo, n.pos.unwrap().1));
            }
            return;
        }
        gap(self);
        if place == Place::Root && self.st.wide && self.r.chance(1, 4) {
            let n = self.far(1, 3);
            self.sp(n);
        }
        let block = self.st.multiline.then_some(match place {
            Place::Root | Place::Marker => -1,
            _ => col,
        });
        self.content(n, ind, block);
    }

    /// A width, which is sometimes more than a screen.
    fn far(&mut self, lo: usize, hi: usize) -> usize {
        if self.r.chance(1, 60) {
            self.u("far");
            let far = *self.r.pick(&[40, 130, 130, 320]);
            self.r.range(8, far)
        } else {
            self.r.range(lo, hi)
        }
    }

    /// A scalar or a flow collection with its properties.
    fn content(&mut self, n: &mut N, ind: Option<usize>, block: Option<i64>) {
        if n.is_coll() {
            self.flow(n, ind);
            return;
        }
        if self.props(n) {
            self.ws(1);
        }
        let p = self.pos();
        n.pos = Some((p, p));
        match &n.v {
            V::Str(s) => {
                let s = s.clone();
                self.string(&s, ind, false, block);
            }
            v => {
                let v = v.clone();
                let s = self.atom(&v);
                self.out.push_str(&s);
            }
        }
    }

    fn noise(&mut self) {
        while (self.st.blanks || self.st.comments) && self.r.chance(1, 3) {
            if self.st.comments && self.r.chance(1, 2) {
                let n = self.r.below(3);
                self.ws(n);
                self.comment();
            }
            self.out.push_str(self.st.nl);
        }
    }

    fn directive_end(&mut self) {
        if self.st.trailing && self.r.chance(1, 4) {
            self.ws(1);
        }
        if self.st.comments && self.r.chance(1, 5) {
            self.u("directive.comment");
            self.ws(1);
            self.comment();
        }
        self.out.push_str(self.st.nl);
    }

    /// A stream of documents.
    pub fn docs(&mut self, docs: &mut [N]) {
        let n = docs.len();
        let mut marker = !self.handles.is_empty() || n > 1 && self.r.chance(1, 2) || self.r.chance(1, 4);
        if self.st.comments && self.r.chance(1, 3) {
            // Nothing is allowed in front of the directives
            if self.handles.is_empty() {
                self.noise();
            }
        }
        if self.r.chance(1, 8) {
            self.u("directive.yaml");
            self.out.push_str("%YAML");
            self.ws(1);
            self.out.push_str("1.2");
            self.directive_end();
            marker = true;
        }
        for (h, p) in self.handles.clone() {
            self.u("directive.tag");
            let h = match h.as_str() {
                "" => "!".to_string(),
                "!" => "!!".to_string(),
                h => format!("!{h}!"),
            };
            self.out.push_str("%TAG");
            self.ws(1);
            self.out.push_str(&h);
            self.ws(1);
            self.out.push_str(&p);
            self.directive_end();
        }
        for (i, d) in docs.iter_mut().enumerate() {
            if i > 0 || marker {
                self.out.push_str("---");
                let block = d.is_coll();
                if !block && self.r.chance(1, 2) {
                    self.u("doc.inline");
                    self.value(d, -1, Place::Marker);
                } else if block && self.r.chance(1, 3) {
                    // Flow collections, or properties behind the marker
                    self.value(d, -1, Place::Marker);
                } else {
                    self.eol();
                    self.value(d, -1, Place::Root);
                }
            } else {
                self.value(d, -1, Place::Root);
            }
            let last = i + 1 == n;
            let raw = self.raw;
            if !last || raw != 0 || self.r.chance(3, 4) {
                self.eol();
                if self.r.chance(1, 4) {
                    self.u("doc.end");
                    self.out.push_str("...");
                    if !last || self.r.chance(1, 2) {
                        self.eol();
                    }
                }
            }
        }
    }
}

/// Render a stream; fills the expected positions.
pub fn render(r: &mut Rng, st: Style, handles: Vec<(String, String)>, docs: &mut [N]) -> (String, Vec<&'static str>) {
    let mut w = W::new(r, st);
    w.handles = handles;
    w.docs(docs);
    (w.out, w.used)
}

pub const NOISE_NL: [&str; 4] = ["\n", "\n", "\r\n", "\r"];
