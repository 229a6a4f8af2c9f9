//! Seeded LOLCODE programs with known structure: units of lines, each line tagged.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tag {
    /// one complete statement alone on its line(s)
    Leaf,
    /// several comma-separated statements
    Comma,
    /// block header
    Open,
    /// branch of a block (YA RLY, MEBBE, NO WAI, OMG, OMGWTF)
    Mid,
    Close,
    /// whitespace only
    Blank,
    Comment,
}
impl Tag {
    pub fn s(self) -> &'static str {
        match self {
            Tag::Leaf => "leaf",
            Tag::Comma => "comma",
            Tag::Open => "open",
            Tag::Mid => "mid",
            Tag::Close => "close",
            Tag::Blank => "blank",
            Tag::Comment => "comment",
        }
    }
    pub fn parse(s: &str) -> Option<Tag> {
        Some(match s {
            "leaf" => Tag::Leaf,
            "comma" => Tag::Comma,
            "open" => Tag::Open,
            "mid" => Tag::Mid,
            "close" => Tag::Close,
            "blank" => Tag::Blank,
            "comment" => Tag::Comment,
            _ => return None,
        })
    }
}

/// Text without its final line break. May contain inner line breaks (continuations).
#[derive(Clone, PartialEq, Debug)]
pub struct Line {
    pub tag: Tag,
    pub text: String,
    /// fault that hit the line ("" for none) and what is stored there because of it
    pub fault: String,
    pub now: String,
}
impl Line {
    pub fn new(tag: Tag, text: String) -> Line {
        Line { tag, text, fault: String::new(), now: String::new() }
    }
    pub fn cur(&self) -> &str {
        if self.fault.is_empty() {
            &self.text
        } else {
            &self.now
        }
    }
    pub fn lost(&self) -> bool {
        self.fault == "lost"
    }
    pub fn hit(&mut self, fault: &str, now: String) {
        self.fault = fault.into();
        self.now = now;
    }
}
pub fn height(s: &str) -> usize {
    s.matches('\n').count() + 1
}

/// Self-contained at root level: simple statement, block with its closing word, blank, comment.
#[derive(Clone, PartialEq, Debug)]
pub struct Unit {
    pub lines: Vec<Line>,
}
impl Unit {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for l in &self.lines {
            s.push_str(&l.text);
            s.push('\n');
        }
        s
    }
    pub fn is_block(&self) -> bool {
        self.lines.iter().any(|l| l.tag == Tag::Open)
    }
}

pub type Doc = Vec<Unit>;
pub fn doc_text(d: &[Unit]) -> String {
    d.iter().map(|u| u.text()).collect()
}

/// Per-run mix ("swarm"): which features occur and how large things get.
#[derive(Clone, Debug)]
pub struct Mix {
    pub depth: u64,
    pub blocks: u64,
    pub commas: u64,
    pub continuations: u64,
    pub comments: u64,
    pub blanks: u64,
    pub garbage: u64,
    pub unicode: u64,
    pub indent: u64,
    pub expr_depth: u64,
    pub expr_statements: u64,
    /// Operand lists as the parser takes them, not only as they are meant: a dangling AN, many operands, no end.
    pub loose: bool,
    pub body: u64,
    /// strings and comments that contain line breaks
    pub multiline: u64,
    /// more than one blank between words
    pub wide: u64,
    /// now and then: lists with up to this many elements, words and strings with up to this many
    /// characters, expressions and blocks nested up to this deep
    pub many: u64,
    pub long: u64,
    pub deep: u64,
}
impl Mix {
    pub fn draw(r: &mut Rng) -> Mix {
        Mix {
            depth: r.range(0, 4),
            blocks: *r.pick(&[0, 10, 25, 45]),
            commas: *r.pick(&[0, 0, 10, 30]),
            continuations: *r.pick(&[0, 0, 8, 25]),
            comments: 0,
            blanks: *r.pick(&[0, 5, 20]),
            garbage: 0,
            unicode: *r.pick(&[0, 0, 20, 60]),
            indent: *r.pick(&[0, 50]),
            expr_depth: r.range(0, 4),
            expr_statements: *r.pick(&[5, 15, 50]),
            loose: false,
            body: r.range(1, 4),
            multiline: 0,
            wide: *r.pick(&[0, 0, 0, 15]),
            many: if r.pct(10) { *r.pick(&[10, 20, 70, 300]) } else { 0 },
            long: if r.pct(8) { *r.pick(&[40, 140, 300, 1100]) } else { 0 },
            deep: if r.pct(8) { *r.pick(&[10, 20, 40]) } else { 0 },
        }
    }
}

const IDS: &[&str] = &[
    "foo", "bar", "baz", "x", "y", "z", "i", "count", "kitteh", "cheez_burger", "_tmp", "Batata", "Foo", "VAR", "X",
    "CAT", "Zed", "loop", "fn_name", "an", "r", "itz", "mkay", "lower_yr", "very_long_identifier_name_used_here", "q", "Q_Q", "w",
    "x1", "R2", "ANother", "Apple", "WINNER", "HAIku", "NOOBs", "SUM", "BOTH", "NOTE", "O", "IM", "Rr", "A_", "_9", "YRs", "FAILURE1", "ITZy", "MKAYs",
];
pub const GARBAGE: &[&str] = &[
    "AN", "ITZ", "R", "MKAY", "YR", "A", "5", "-", "+", ".", "1.2.3", "99999999999", "'Z", "'", "!", "?", "SRS", "SRS 5", "@", "#",
    "foo", "bar baz", "SUM OF", "SUM OF 1", "BOTH SAEM foo AN", "NOT", "ALL OF", "SMOOSH foo AN", "I HAS A", "I HAS A 5",
    "I HAS A foo ITZ", "I HAS A foo 5", "GIMMEH", "GIMMEH 5", "FOUND YR", "FOUND YR AN", "foo R", "foo R R", "foo HAS A", "foo HAS A bar",
    "foo HAS A bar ITZ", "foo 'Z", "foo'Z", "foo'Z 5", "I IZ", "I IZ foo", "I IZ foo YR", "I IZ foo YR 5", "I IZ 5 MKAY", "I IZ foo YR 5 AN MKAY",
    "MAEK foo NUMBR", "foo IS NOW NUMBR", "VISIBLE AN", "VISIBLE foo ITZ", "VISIBLE ! 5", "TIL", "WILE foo", "UPPIN", "NUMBR", "TROOF", "BUKKIT",
    "HAS A", "FAIL WIN", "NOOB NOOB", "KTHXBYE 5", "GTFO foo", "foo foo foo", "\u{e9}", "\u{1F431}", "foo\u{e9}bar", "\u{0}", "\r", "\u{7f}",
    "12 foo", "\"a\" \"b\"", "WIN", "foo R 5 5", "TLDR", "x, , y", ",", ",,", "foo, 5 5, GIMMEH", "0x1F", "1e5", "~", "(", ")", "[foo]", "{", "}", "\\", "/", "$", "%", "^", "&", "*", "=", "|", ":", ";", "<", ">", "`",
    "FOUND YR SUM OF 1 AN", "SUM OF SUM OF 1 AN 2", "DIFFRINT foo", "ANY OF", "ANY OF AN MKAY", "SMOOSH MKAY", "SMOOSH 1 2 3 MKAY 4", "WON OF AN AN", "NERFIN YR x", "SRS foo'Z SRS", "I HAS A SRS", "I HAS A SRS foo ITZ R",
];
/// How many: usually from `a` to `b`, now and then far more.
fn count(r: &mut Rng, m: &Mix, a: u64, b: u64) -> u64 {
    if m.many > 0 && r.pct(if m.many > 100 { 4 } else { 15 }) {
        r.range(a, m.many)
    } else if r.pct(12) {
        r.range(b, b + 4)
    } else {
        r.range(a, b)
    }
}
/// The mix for the elements of a list of `n`.
fn elements(m: &Mix, n: u64) -> Mix {
    let mut e = m.clone();
    if n > 6 {
        e.many = 0;
        e.long = 0;
        e.deep = 0;
        e.expr_depth = e.expr_depth.min(1);
    }
    e
}
fn name(r: &mut Rng, m: &Mix) -> String {
    if m.long > 0 && r.pct(6) {
        let n = r.range(9, m.long);
        let mut s = String::from(*r.pick(&["x", "_", "Q"]));
        for _ in 0..n {
            s.push(*r.pick(&['a', 'b', 'Z', '0', '9', '_', 'O']));
        }
        return s;
    }
    ident(r)
}
pub fn ident(r: &mut Rng) -> String {
    if r.pct(70) {
        (*r.pick(IDS)).to_string()
    } else {
        let n = r.range(1, 8);
        (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
    }
}

pub fn string(r: &mut Rng, m: &Mix) -> String {
    let mut s = String::from("\"");
    let n = if m.long > 0 && r.pct(10) { r.below(m.long / 2) } else { r.below(4) };
    for _ in 0..n {
        if r.pct(m.multiline) {
            s.push('\n');
        }
        if r.pct(m.unicode) {
            s.push_str(r.pick(&["\u{e9}", "\u{4e2d}\u{6587}", "\u{1F431}", "\u{2026}", "na\u{ef}ve", "\u{df}\u{0}"]));
        } else {
            s.push_str(r.pick(&["hai ", "world", ":)", ":\"", "::", ":)::", "a:>b", ", ", "...", "BTW", "OIC", "O RLY?", "!", "1 2", "'Z", "KTHXBYE ", "OBTW", "x"]));
        }
    }
    s.push('"');
    s
}

pub fn literal(r: &mut Rng, m: &Mix) -> String {
    match r.below(8) {
        0 | 1 | 2 => format!("{}", r.below(1000) as i64 - 200),
        3 => format!("{}.{}", r.below(100), r.below(100)),
        4 => (*r.pick(&["WIN", "FAIL"])).into(),
        5 => "NOOB".into(),
        6 if m.long > 0 && r.pct(20) => {
            let n = r.range(1, m.long) as usize;
            let z = "0".repeat(n);
            r.pick(&[format!("-{}12", z), format!("0.5{}", z), format!("{}.25", z), format!("7.{}1", z)]).clone()
        }
        6 if r.pct(30) => {
            // of any size, down to the finest digit that tells
            let n = |r: &mut Rng, most: u64| (0..r.range(1, most)).map(|_| if r.pct(40) { '0' } else { (b'0' + r.below(10) as u8) as char }).collect::<String>();
            let sign = *r.pick(&["", "", "-", "+"]);
            match r.below(3) {
                0 => format!("{}0.{}{}", sign, "0".repeat(r.idx(12)), n(r, 3)),
                1 => format!("{}{}.{}", sign, n(r, 12), n(r, 9)),
                _ => format!("{}{}", sign, n(r, 9)),
            }
        }
        6 => (*r.pick(&["0", "+7", "-0.5", "2147483647", "-2147483648", "3.", "007"])).into(),
        _ => string(r, m),
    }
}

pub fn access(r: &mut Rng, m: &Mix) -> String {
    let mut s = if r.pct(10) { format!("SRS {}", name(r, m)) } else { name(r, m) };
    let n = if r.pct(25) { count(r, m, 1, 3) } else { 0 };
    for _ in 0..n {
        s.push_str("'Z ");
        if r.pct(20) {
            s.push_str("SRS ");
        }
        s.push_str(&name(r, m));
    }
    s
}

const BINARY: &[&str] = &[
    "SUM OF", "DIFF OF", "PRODUKT OF", "QUOSHUNT OF", "MOD OF", "BIGGR OF", "SMALLR OF", "BOTH SAEM", "BOTH OF", "EITHER OF", "WON OF", "DIFFRINT",
];

/// An expression nested `n` deep in one of its operands.
fn chain(r: &mut Rng, m: &Mix, n: u64, last: bool) -> String {
    let m = &elements(m, 7);
    let way = r.below(4);
    let mut s = expr(r, m, 0, false);
    for k in 0..n {
        let open = last && k + 1 == n;
        s = match if way == 3 { r.below(3) } else { way } {
            0 => format!("NOT {}", s),
            1 => {
                let (op, o) = (*r.pick(BINARY), expr(r, m, 0, false));
                let an = if r.pct(85) { "AN " } else { "" };
                if r.pct(50) {
                    format!("{} {} {}{}", op, s, an, o)
                } else {
                    format!("{} {} {}{}", op, o, an, s)
                }
            }
            _ => {
                let (op, o) = (*r.pick(&["ALL OF", "ANY OF", "SMOOSH"]), expr(r, m, 0, false));
                let end = if open && r.pct(50) { "" } else { " MKAY" };
                match r.below(3) {
                    0 => format!("{} {}{}", op, s, end),
                    1 => format!("{} {} AN {}{}", op, s, o, end),
                    _ => format!("{} {} AN {}{}", op, o, s, end),
                }
            }
        };
    }
    s
}

pub fn expr(r: &mut Rng, m: &Mix, depth: u64, last: bool) -> String {
    if m.deep > 0 && depth > 0 && r.pct(10) {
        let n = r.range(4, m.deep);
        return chain(r, m, n, last);
    }
    if depth == 0 || r.pct(35) {
        return if r.pct(50) { literal(r, m) } else { access(r, m) };
    }
    match r.below(10) {
        0..=5 => {
            let op = *r.pick(BINARY);
            let a = expr(r, m, depth - 1, false);
            let b = expr(r, m, depth - 1, last);
            let an = if r.pct(85) { "AN " } else { "" };
            format!("{} {} {}{}", op, a, an, b)
        }
        6 | 7 => format!("NOT {}", expr(r, m, depth - 1, last)),
        _ => {
            let op = *r.pick(&["ALL OF", "ANY OF", "SMOOSH"]);
            let n = count(r, m, 0, if m.loose { 8 } else { 3 });
            let e = elements(m, n);
            let mut s = String::from(op);
            for k in 0..n {
                s.push(' ');
                s.push_str(&expr(r, &e, (depth - 1).min(e.expr_depth), m.loose && last && k + 1 == n));
                if (k + 1 < n && r.pct(80)) || (m.loose && r.pct(30)) {
                    s.push_str(" AN");
                }
            }
            if !last || r.pct(if m.loose { 30 } else { 60 }) {
                s.push_str(" MKAY");
            }
            s
        }
    }
}

/// One valid statement that is no block, without line structure.
pub fn statement(r: &mut Rng, m: &Mix) -> String {
    let d = m.expr_depth;
    if r.pct(m.expr_statements) {
        return expr(r, m, d.max(1), true);
    }
    match r.below(13) {
        0 => format!("I HAS A {}", name(r, m)),
        1 => format!("I HAS A {} ITZ {}", name(r, m), expr(r, m, d, true)),
        2 => format!("I HAS A {} ITZ {}", name(r, m), r.pick(&["NUMBR", "NUMBAR", "YARN", "TROOF", "BUKKIT"])),
        3 | 4 => format!("{} R {}", access(r, m), expr(r, m, d, true)),
        5 => format!("{} HAS A {} ITZ {}", access(r, m), name(r, m), expr(r, m, d, true)),
        6 | 7 => {
            let n = count(r, m, 0, 3);
            let e = elements(m, n);
            let d = d.min(e.expr_depth);
            let mut s = String::from("VISIBLE");
            let bang = r.pct(25);
            for k in 0..n {
                s.push(' ');
                s.push_str(&expr(r, &e, d, k + 1 == n && !bang));
            }
            if bang {
                s.push_str(r.pick(&["!", " !"]));
            }
            s
        }
        8 => format!("GIMMEH {}", access(r, m)),
        9 => format!("FOUND YR {}", expr(r, m, d, true)),
        10 => (*r.pick(&["GTFO", "KTHXBYE", "GTFO", "HAI 1.2", "HAI", "HAI 1.3 foo"])).into(),
        11 => {
            let n = count(r, m, 0, 3);
            let e = elements(m, n);
            let d = d.min(e.expr_depth);
            let mut s = format!("I IZ {}", access(r, m));
            for k in 0..n {
                s.push_str(if k == 0 { " YR " } else { " AN YR " });
                s.push_str(&expr(r, &e, d, false));
            }
            s.push_str(" MKAY");
            s
        }
        _ => access(r, m),
    }
}

fn indent(r: &mut Rng, m: &Mix) -> String {
    if m.long > 0 && r.pct(5) {
        return r.pick(&[" ", "\t"]).repeat(r.range(1, m.long) as usize);
    }
    if r.pct(m.indent) {
        (*r.pick(&["  ", "\t", "    ", " ", "\t\t "])).into()
    } else {
        String::new()
    }
}

/// Splits a statement at a random blank outside strings with a line continuation.
fn continued(r: &mut Rng, s: &str) -> String {
    let mut inq = false;
    let mut escaped = false;
    let mut at = vec![];
    for (i, c) in s.char_indices() {
        if escaped {
            escaped = false;
        } else if inq && c == ':' {
            escaped = true;
        } else if c == '"' {
            inq = !inq;
        }
        // Only between words of different tokens is a split safe: "SUM OF" is one token.
        if c == ' ' && !inq {
            at.push(i);
        }
    }
    let multi = ["SUM OF", "DIFF OF", "PRODUKT OF", "QUOSHUNT OF", "MOD OF", "BIGGR OF", "SMALLR OF", "BOTH SAEM", "BOTH OF", "EITHER OF",
        "WON OF", "ALL OF", "ANY OF", "I HAS A", "HAS A", "FOUND YR", "I IZ"];
    at.retain(|&i| {
        !multi.iter().any(|w| {
            w.char_indices().filter(|(_, c)| *c == ' ').any(|(k, _)| i >= k && s.as_bytes()[i - k..].starts_with(w.as_bytes()))
        })
    });
    if at.is_empty() {
        return s.to_string();
    }
    let i = at[r.idx(at.len())];
    format!("{} {}\n{}{}", &s[..i], r.pick(&["...", "\u{2026}", "... ..."]), r.pick(&["", "  ", "\t"]), &s[i + 1..])
}

/// Doubles some blanks (also in strings, which then are other strings).
fn widened(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        o.push(c);
        if c == ' ' && r.pct(30) {
            o.push_str(r.pick(&[" ", "\t", "   "]));
        }
    }
    o
}

pub fn garbage(r: &mut Rng) -> String {
    let n = r.range(1, 3);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        v.push((*r.pick(GARBAGE)).to_string());
    }
    v.join(" ")
}

pub fn leaf(r: &mut Rng, m: &Mix) -> Line {
    let ind = indent(r, m);
    if r.pct(m.garbage) {
        return Line::new(Tag::Leaf, ind + &garbage(r));
    }
    if r.pct(m.commas) {
        let n = count(r, m, 2, 4);
        let mut s = String::new();
        for k in 0..n {
            if k > 0 {
                s.push_str(r.pick(&[", ", ",", " , ", ",,"]));
            }
            let note = r.pct(m.comments);
            if note && r.pct(30) {
                s.push_str(&format!("{}{}", aside(r, false), r.pick(&[" ", ", "])));
            }
            s.push_str(&statement(r, m));
            if note {
                s.push_str(&format!(" {}", aside(r, false)));
            }
        }
        s.push_str(r.pick(&["", "", "", "", "", ",", " ,", ",,", " , BTW c", ",BTW"]));
        return Line::new(Tag::Comma, ind + &s);
    }
    let s = statement(r, m);
    let s = if r.pct(m.continuations) { continued(r, &s) } else { s };
    let mut s = if r.pct(m.wide) { widened(r, &s) } else { s };
    if r.pct(m.comments) {
        match r.below(10) {
            0..=4 => s.push_str(r.pick(&[" BTW", " BTW why, \u{e9}", "\tBTW OIC \"", " BTW ...", " BTW OBTW TLDR"])),
            5 | 6 => s = format!("{} {}", s, remark(r, false)),
            7 => s = format!("{} {}", s, aside(r, false)),
            8 => s = format!("{} {}", aside(r, false), s),
            _ => s = format!("{} {} ", s, aside(r, true)),
        }
    }
    Line::new(Tag::Leaf, ind + &s)
}

const REMARKS: &[&str] = &[" ", " ", "x", "why", "\u{e9}", "\u{4e2d}", ",", " , ", "...", " ...", "\u{2026}", "!", "?", "\"", ":", "1", "'Z", "\t", "not", "a b"];

/// A comment to the end of the line; a plain one holds no words of the language.
fn remark(r: &mut Rng, plain: bool) -> String {
    let mut s = String::from("BTW");
    for _ in 0..r.below(6) {
        s.push_str(if plain || r.pct(70) { r.pick(REMARKS) } else { r.pick(&["OIC", " BTW", "KTHXBYE ", "O RLY?", "VISIBLE x", "OBTW", " TLDR", "MKAY", "SUM OF", " AN "]) });
    }
    s
}

/// A comment that ends on its line, or, if `long`, on a later one.
fn aside(r: &mut Rng, long: bool) -> String {
    let mut s = String::from("OBTW");
    for _ in 0..r.below(6) {
        s.push_str(if r.pct(70) { r.pick(REMARKS) } else { r.pick(&["OIC", " BTW", "KTHXBYE ", "O RLY?", "VISIBLE x", "OBTW", "TLD", "MKAY", "SUM OF", " AN "]) });
        if long && r.pct(40) {
            s.push('\n');
        }
    }
    s + r.pick(&["TLDR", " TLDR", "\tTLDR"])
}

/// The line of a block as people also write it: moved in, with wide gaps, with a comment.
fn dressed(r: &mut Rng, m: &Mix, tag: Tag, s: String) -> Line {
    let mut s = if tag == Tag::Open { s } else { indent(r, m) + &s };
    if r.pct(m.wide / 2) {
        s = widened(r, &s);
    }
    if r.pct(m.comments / 2) {
        s = format!("{} {}", s, remark(r, true));
    }
    Line::new(tag, s)
}

/// A line with no statement on it.
fn blank(r: &mut Rng) -> String {
    let t = if r.pct(75) { r.pick(&["", "  ", "\t"]) } else { r.pick(&[",", ",,", " , ", "...", "...,", ", ...", ",...,", "\u{2026}", "\u{2026} ,", "... ...", ",\n,", "...\n,", "...,\n..."]) };
    (*t).into()
}

/// A block unit with this many lines grows no further blocks or branches.
const LINES: usize = 400;

fn body(r: &mut Rng, m: &Mix, depth: u64, out: &mut Vec<Line>) {
    let n = r.range(1, m.body.max(1));
    for _ in 0..n {
        if depth > 0 && out.len() < LINES && r.pct(m.blocks) {
            block(r, m, depth - 1, out);
        } else if r.pct(m.blanks) {
            out.push(Line::new(Tag::Blank, blank(r)));
        } else if r.pct(m.comments / 2) {
            out.push(comment(r));
        } else {
            out.push(leaf(r, m));
        }
    }
    // A body of blanks only is an empty block, which has its own fault kind.
    if !out.last().map(|l| matches!(l.tag, Tag::Leaf | Tag::Comma | Tag::Close)).unwrap_or(false) {
        out.push(leaf(r, m));
    }
}

pub fn block(r: &mut Rng, m: &Mix, depth: u64, out: &mut Vec<Line>) {
    let d = m.expr_depth.min(2);
    match r.below(4) {
        0 => {
            let label = name(r, m);
            let mut h = format!("IM IN YR {}", label);
            if r.pct(50) {
                h.push_str(&format!(" {} YR {}", r.pick(&["UPPIN", "NERFIN"]), access(r, m)));
            }
            if r.pct(50) {
                h.push_str(&format!(" {} {}", r.pick(&["TIL", "WILE"]), expr(r, m, d, true)));
            }
            let i = indent(r, m);
            { let t: String = i + &h; let x = dressed(r, m, Tag::Open, t); out.push(x) }
            body(r, m, depth, out);
            let i = indent(r, m);
            { let t: String = i + &format!("IM OUTTA YR {}", label); let x = dressed(r, m, Tag::Close, t); out.push(x) }
        }
        1 => {
            let mut h = format!("HOW IZ I {}", name(r, m));
            for k in 0..count(r, m, 0, 3) {
                h.push_str(if k == 0 { " YR " } else { " AN YR " });
                h.push_str(&name(r, m));
            }
            let i = indent(r, m);
            { let t: String = i + &h; let x = dressed(r, m, Tag::Open, t); out.push(x) }
            body(r, m, depth, out);
            { let t: String = "IF U SAY SO".into(); let x = dressed(r, m, Tag::Close, t); out.push(x) }
        }
        2 => {
            let h = if r.pct(50) { format!("{}, O RLY?", expr(r, m, d, true)) } else { "O RLY?".into() };
            let i = indent(r, m);
            { let t: String = i + &h; let x = dressed(r, m, Tag::Open, t); out.push(x) }
            if r.pct(90) {
                { let t: String = "YA RLY".into(); let x = dressed(r, m, Tag::Mid, t); out.push(x) }
                body(r, m, depth, out);
            }
            for _ in 0..(if r.pct(40) { count(r, m, 1, 2).min(80) } else { 0 }) {
                if out.len() > LINES {
                    break;
                }
                { let t: String = format!("MEBBE {}", expr(r, m, d, true)); let x = dressed(r, m, Tag::Mid, t); out.push(x) }
                body(r, m, depth, out);
            }
            if r.pct(50) {
                { let t: String = "NO WAI".into(); let x = dressed(r, m, Tag::Mid, t); out.push(x) }
                body(r, m, depth, out);
            }
            { let t: String = "OIC".into(); let x = dressed(r, m, Tag::Close, t); out.push(x) }
        }
        _ => {
            let h = if r.pct(50) { format!("{}, WTF?", expr(r, m, d, true)) } else { "WTF?".into() };
            let i = indent(r, m);
            { let t: String = i + &h; let x = dressed(r, m, Tag::Open, t); out.push(x) }
            for _ in 0..count(r, m, 0, 3).min(80) {
                if out.len() > LINES {
                    break;
                }
                { let t: String = format!("OMG {}", literal(r, m)); let x = dressed(r, m, Tag::Mid, t); out.push(x) }
                body(r, m, depth, out);
            }
            if r.pct(60) {
                { let t: String = "OMGWTF".into(); let x = dressed(r, m, Tag::Mid, t); out.push(x) }
                body(r, m, depth, out);
            }
            { let t: String = "OIC".into(); let x = dressed(r, m, Tag::Close, t); out.push(x) }
        }
    }
}

pub fn comment(r: &mut Rng) -> Line {
    let text = match r.below(6) {
        3 => remark(r, false),
        4 => aside(r, false),
        5 => aside(r, true),
        0 => "BTW a comment, with stuff \u{e9}".to_string(),
        1 => "OBTW one line TLDR".to_string(),
        _ => "OBTW\nseveral \u{4e2d}\n lines TLDR".to_string(),
    };
    Line::new(Tag::Comment, text)
}

pub fn unit(r: &mut Rng, m: &Mix) -> Unit {
    if r.pct(m.blanks) {
        return Unit { lines: vec![Line::new(Tag::Blank, blank(r))] };
    }
    if r.pct(m.comments) {
        return Unit { lines: vec![comment(r)] };
    }
    if m.depth > 0 && r.pct(m.blocks) {
        let mut v = vec![];
        block(r, m, m.depth - 1, &mut v);
        return Unit { lines: v };
    }
    Unit { lines: vec![leaf(r, m)] }
}

/// A block in a block in a block ...
fn tower(r: &mut Rng, m: &Mix, n: u64, out: &mut Vec<Line>) {
    let l = Line::new;
    let close = match r.below(4) {
        0 => {
            out.push(l(Tag::Open, "IM IN YR l".into()));
            "IM OUTTA YR l"
        }
        1 => {
            out.push(l(Tag::Open, format!("HOW IZ I {}", ident(r))));
            "IF U SAY SO"
        }
        2 => {
            out.push(l(Tag::Open, "O RLY?".into()));
            out.push(l(Tag::Mid, r.pick(&["YA RLY", "NO WAI", "MEBBE x"]).to_string()));
            "OIC"
        }
        _ => {
            out.push(l(Tag::Open, "WTF?".into()));
            out.push(l(Tag::Mid, r.pick(&["OMG 1", "OMGWTF"]).to_string()));
            "OIC"
        }
    };
    if r.pct(30) {
        out.push(leaf(r, m));
    }
    if n > 0 {
        tower(r, m, n - 1, out);
    }
    if n == 0 || r.pct(30) {
        out.push(leaf(r, m));
    }
    out.push(l(Tag::Close, close.into()));
}

pub fn doc(r: &mut Rng, m: &Mix, units: usize) -> Doc {
    let mut d: Doc = (0..units).map(|_| unit(r, m)).collect();
    if m.deep > 0 && m.depth > 0 && r.pct(30) {
        let mut v = vec![];
        let n = r.range(3, m.deep);
        tower(r, &elements(m, 7), n, &mut v);
        let k = r.idx(d.len() + 1);
        d.insert(k, Unit { lines: v });
    }
    if m.many > 0 && r.pct(15) {
        let e = elements(m, 7);
        let k = r.idx(d.len() + 1);
        for _ in 0..r.range(1, m.many) {
            let l = leaf(r, &e);
            d.insert(k, Unit { lines: vec![l] });
        }
    }
    d
}

/// Arbitrary text: fragments of everything the lexer knows, glued at random.
pub fn soup(r: &mut Rng, n: usize) -> String {
    const F: &[&str] = &[
        " ", " ", " ", "\n", "\n", "\t", ",", "!", "?", "...", "\u{2026}", "'Z", "\"", "\"", ":", ":\"", "BTW", "OBTW", "TLDR", "OBTW x TLDR", "WIN", "FAIL", "NOOB",
        "0", "1", "42", "-", "+", ".", "3.14", "-7.", "99999999999", "a", "foo", "bar", "_x", "\u{e9}", "\u{1F431}", "\u{fffd}", "\u{0}", "\r\n", "\r", "\u{a0}", "\u{2028}", "\u{feff}",
        "HAI", "KTHXBYE", "I HAS A", "HAS A", "ITZ", "R", "A", "AN", "MKAY", "SRS", "SUM OF", "DIFF OF", "NOT", "ALL OF", "SMOOSH", "BOTH SAEM", "MAEK", "IS NOW", "VISIBLE", "GIMMEH",
        "O RLY", "O RLY?", "YA RLY", "NO WAI", "MEBBE", "OIC", "WTF", "WTF?", "OMG", "OMGWTF", "GTFO", "IM IN YR", "YR", "TIL", "WILE", "UPPIN", "NERFIN", "IM OUTTA YR",
        "HOW IZ I", "IF U SAY SO", "FOUND YR", "I IZ", "NUMBR", "NUMBAR", "YARN", "TROOF", "BUKKIT", "'", "@", "(", "foo'Z bar", "\"str\"", "\"\u{e9}\"",
    ];
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(F));
        if r.pct(60) {
            s.push(' ');
        }
    }
    s
}
