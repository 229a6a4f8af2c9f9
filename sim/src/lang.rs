//! C13, C14, C15: what the library makes of a text that storage and channels hand over, against
//! the reference model of the language.
use crate::checks::{self, Bk};
use crate::dbgtree::T;
use crate::disk::{self, Disk};
use crate::exec::*;
use crate::gen::{self, height, Doc, Line, Mix, Tag};
use crate::model::{self, Head, MTok, S};
use crate::rng::{hash_bytes, Rng};
use crate::scn::{Op, Scn};
use crate::model::opens;
use crate::sim::{self, die_violation, stat, St};
use lolcode_ast::lexer::{Keywords, NumberToken, Position, TokenError, TokenType, TokenValue};

fn nontrivial() {
    sim::page().nontrivial.store(1, std::sync::atomic::Ordering::SeqCst);
}

// ------------------------------------------------------------ C13

const PIECES: &[&str] = &[
    "0", "1", "12", "007", "-1", "+1", "-", "+", "--1", "1-1", "1.", "1.5", ".5", ".", "-.5", "1.2.3", "1..2", "1...", "..", "....", "2147483647",
    "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "99999999999.5", "1e5", "0x1F", "1_000", "3.14159265358979323846",
    "0.1", "123456789.123456789", "1a", "a1", "_", "__", "_1", "a_b", "\"", "\"\"", "\"a\"", "\"a", "\":\"\"", "\"::\"", "\":::\"\"", "\":)\"", ":\"", ":",
    "\"a\nb\"", "'Z", "'Zx", "'z", "'", "x'Z y", "x'Zy", "...", "\u{2026}", "BTW", "BTW x", "BTWx", "xBTW", "OBTW", "OBTW x TLDR", "OBTWTLDR", "OBTWTL", "TLDR",
    "OBTW BTW TLDR", "BTW OBTW", "OBTW\n\nTLDR", "OBTW \u{e9}\nTLDR", ",", ",,", "!", "?", "!?", "\n", "\r\n", "\r", "\n\n", " ", "\t", "  ", "\u{a0}", "\u{b}", "\u{c}", "\u{85}",
    "\u{2028}", "\u{feff}", "\u{0}", "\u{7f}", "\u{e9}", "\u{e9}\u{e9}", "\u{1F431}", "e\u{301}", "\u{4e2d}", "\u{ff11}", "\u{661}", "\u{ff21}", "@", "#", "(", "\\",
    "WINx", "WIN", "FAIL", "NOOB", "win", "Win",
];

fn word(r: &mut Rng) -> String {
    let t = model::keyword_table();
    let k = r.pick(&t).0.clone();
    match r.below(9) {
        0 | 1 => k,
        2 => k.replace(' ', r.pick(&["  ", "\t", " \t ", "\n", "\r", ""])),
        3 => format!("{}{}", k, r.pick(&["x", "1", "_", "\u{e9}", "S", "'Z", "?", "!", "\"", ".", "...", "-", ","])),
        4 => format!("{}{}", r.pick(&["x", "1", "_", "\u{e9}", "S", "'Z", "\"", ".", "-", "!", ","]), k),
        5 => {
            let n = r.idx(k.len() + 1);
            k[..n].to_string()
        }
        6 => {
            let n = r.idx(k.len() + 1);
            k[n..].to_string()
        }
        7 => k.to_lowercase(),
        _ => format!("{} {}", k.split(' ').next().unwrap(), r.pick(&t).0),
    }
}

/// A decimal number exactly at, or just beside, the middle of two neighbouring values.
fn edge_number(r: &mut Rng) -> String {
    let e = 127 - 20 + r.below(50) as u32;
    let x = f32::from_bits((e << 23) | (r.next() as u32 & 0x7f_ffff));
    let y = f32::from_bits(x.to_bits() + 1);
    let m = match r.below(4) {
        0 => x as f64,
        _ => (x as f64 + y as f64) / 2.0,
    };
    let mut t = format!("{:.60}", m);
    while t.ends_with('0') && !t.ends_with(".0") {
        t.pop();
    }
    match r.below(3) {
        0 => t.push('1'),
        1 => {
            // The last digit is not 0 unless the whole fraction is.
            let c = t.pop().unwrap();
            if c > '0' {
                t.push((c as u8 - 1) as char);
                t.push_str("999");
            } else {
                t.push('0');
            }
        }
        _ => {}
    }
    format!("{}{}", r.pick(&["", "", "-", "+"]), t)
}

fn scanner_text(r: &mut Rng) -> String {
    let mut t = match r.below(10) {
        0..=2 => {
            let n = 1 + r.idx(14);
            let glue = *r.pick(&[0, 30, 60, 100]);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(&if r.pct(2) {
                    edge_number(r)
                } else if r.pct(50) { word(r) } else { (*r.pick(PIECES)).to_string() });
                if r.pct(glue) {
                    t.push_str(r.pick(&[" ", " ", " ", "\n", "\t"]));
                }
            }
            t
        }
        3 => {
            let n = 1 + r.idx(25);
            gen::soup(r, n)
        }
        4 => {
            let n = r.range(1, 40);
            (0..n)
                .map(|_| match r.below(6) {
                    0 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                    1 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap_or('\u{e9}'),
                    2 => *r.pick(&['"', ':', '.', '-', '+', '\'', 'Z', 'B', 'T', 'W', '\n', ' ', '0', '9']),
                    _ => (r.below(128) as u8) as char,
                })
                .collect()
        }
        5 => checks::doc_for_damage(r),
        _ => {
            let mut m = Mix::draw(r);
            m.comments = *r.pick(&[0, 10, 30]);
            m.multiline = *r.pick(&[0, 0, 20]);
            m.garbage = *r.pick(&[0, 0, 20]);
            let n = 1 + r.idx(8);
            gen::doc_text(&gen::doc(r, &m, n))
        }
    };
    if r.below(400) == 0 {
        let n = *r.pick(&[32_767, 32_768, 65_535, 65_536, 70_000]);
        t = format!("{}{}", r.pick(&["\n", " ", ".", "\u{e9}", "x"]).repeat(n), t);
    } else if r.pct(6) {
        // far down the file
        t = format!("{}{}", r.pick(&["\n", "\r\n", "\u{e9}\n", "x\n", " ", "BTW \u{4e2d}\n"]).repeat(r.range(200, 3000) as usize), t);
    }
    t
}

pub fn draw_c13(r: &mut Rng, s: &mut Scn) {
    let t = scanner_text(r);
    if r.pct(55) {
        let other = checks::doc_for_damage(r);
        let n = *r.pick(&[1, 1, 2, 4, 8]);
        s.faults = disk::draw_faults(r, &t, &other, n);
    }
    s.texts.push(t);
}

/// Line, column, bytes and characters before the byte offset `at`.
struct Places<'a> {
    text: &'a str,
    at: usize,
    p: (i32, i32, i32, i32),
}
impl Places<'_> {
    /// Offsets must not decrease from call to call.
    fn of(&mut self, at: usize) -> (i32, i32, i32, i32) {
        for c in self.text[self.at..at].chars() {
            if c == '\n' {
                self.p.0 += 1;
                self.p.1 = 1;
            } else {
                self.p.1 += c.len_utf8() as i32;
            }
            self.p.2 += c.len_utf8() as i32;
            self.p.3 += 1;
        }
        self.at = at;
        self.p
    }
}
fn four(p: &Position) -> (i32, i32, i32, i32) {
    (p.line, p.column, p.bytes, p.chars)
}

/// `x` stands before `y`.
fn order_law(x: &Position, y: &Position, text: &str) {
    let ok = x < y && y > x && x <= y && y >= x && !(y < x) && !(y <= x) && x != y && x.partial_cmp(x) == Some(std::cmp::Ordering::Equal);
    if !ok {
        die_violation("position-order", &format!("{:?} stands before {:?} but does not compare so; text {:?}", four(x), four(y), clip(text, 400)));
    }
}

fn scanner_law(text: &str) -> u64 {
    let want = model::lex(text);
    let got = match tokenize(text) {
        Ok(r) => r,
        Err(p) => die_panic(&format!("tokenize panicked on {:?}: {}", clip(text, 300), p)),
    };
    let mut pl = Places { text, at: 0, p: (1, 1, 0, 0) };
    let got = match got {
        Ok(v) => v,
        Err(e) => {
            stat(St::unclosed_comment_errors, 1);
            #[allow(unreachable_patterns)]
            let r = match &e {
                TokenError::UnclosedMultilineComment(r) => r.clone(),
                _ => die_violation("refused", &format!("{:?} for {:?}", e, clip(text, 300))),
            };
            match want.unclosed {
                Some(a) => {
                    let (x, y) = (pl.of(a), pl.of(text.len()));
                    if (four(&r.0), four(&r.1)) != (x, y) {
                        die_violation(
                            "error-place",
                            &format!("the unclosed comment spans {:?} to {:?} but is reported at {:?} to {:?}; text {:?}", x, y, four(&r.0), four(&r.1), clip(text, 400)),
                        );
                    }
                }
                // Behind a number that is too large the model does not look; some comment must be open there.
                None if want.too_large.is_some() && text[want.too_large.unwrap()..].contains("OBTW") => {}
                None => die_violation("refused", &format!("no comment is left open in {:?}, but tokenize says {:?}", clip(text, 400), e)),
            }
            return 1;
        }
    };
    if want.unclosed.is_some() {
        die_violation("open-comment-accepted", &format!("a comment is left open in {:?}", clip(text, 400)));
    }
    // Every token stands for the text at its place, in order, and only blanks stand between them.
    let mut end = 0usize;
    let mut last: Option<Position> = None;
    for t in &got {
        stat(St::tokens_accounted, 1);
        let (a, e) = (t.range.0.bytes, t.range.1.bytes);
        let bad = a < end as i32 || e <= a || e as usize > text.len() || !text.is_char_boundary(a as usize) || !text.is_char_boundary(e as usize);
        if bad {
            die_violation("token-place", &format!("token {:?} at bytes {}..{} (previous token ends at {}); text {:?}", t.token_type, a, e, end, clip(text, 400)));
        }
        let (a, e) = (a as usize, e as usize);
        if let Some(c) = text[end..a].chars().find(|c| !matches!(c, ' ' | '\t' | '\n' | '\r')) {
            die_violation("swallowed", &format!("{:?} between bytes {} and {} belongs to no token; text {:?}", c, end, a, clip(text, 400)));
        }
        let (x, y) = (pl.of(a), pl.of(e));
        if (four(&t.range.0), four(&t.range.1)) != (x, y) {
            die_violation(
                "token-place",
                &format!("token {:?} spans {:?} to {:?} but says {:?} to {:?}; text {:?}", t.token_type, x, y, four(&t.range.0), four(&t.range.1), clip(text, 400)),
            );
        }
        order_law(&t.range.0, &t.range.1, text);
        if let TokenType::Keyword(k) = &t.token_type {
            let words: Vec<&str> = text[a..e].split([' ', '\t']).filter(|w| !w.is_empty()).collect();
            if k.to_string_slice() != words.join(" ") {
                die_violation("spelling", &format!("the keyword {:?} calls itself {:?}; text {:?}", &text[a..e], k.to_string_slice(), clip(text, 400)));
            }
        }
        // Also where the model is silent, a token holds what its text says.
        let src = &text[a..e];
        let held = match &t.token_type {
            TokenType::Identifier(n) | TokenType::Symbol(n) => n == src,
            TokenType::Value(TokenValue::Number(NumberToken::Int(n))) => src.parse::<i32>().ok() == Some(*n),
            TokenType::Value(TokenValue::Number(NumberToken::Float(n))) => src.parse::<f32>().ok().map(f32::to_bits) == Some(n.to_bits()),
            TokenType::Value(TokenValue::Boolean(b)) => src == if *b { "WIN" } else { "FAIL" },
            TokenType::Value(TokenValue::String(n)) => src.strip_prefix('"').map_or(false, |x| x == n || x.strip_suffix('"') == Some(n)),
            _ => true,
        };
        if !held {
            die_violation("token", &format!("{:?} at byte {} is delivered as {:?}; text {:?}", src, a, t.token_type, clip(text, 400)));
        }
        if let Some(p) = &last {
            order_law(p, &t.range.1, text);
            if *p == t.range.1 {
                die_violation("position-order", &format!("two tokens end at {:?}; text {:?}", p, clip(text, 400)));
            }
        }
        last = Some(t.range.1);
        end = e;
    }
    for t in got.iter().rev().take(2) {
        // Stepping over a text leads to the position behind it.
        let k = t.range.0.bytes as usize;
        let p = Position::default() + &text[..k];
        let mut q = t.range.0;
        q += &text[k..t.range.1.bytes as usize];
        if four(&p) != four(&t.range.0) || four(&q) != four(&t.range.1) {
            die_violation("position-step", &format!("stepping over the text leads to {:?} and {:?}, not to {:?} and {:?}; text {:?}", four(&p), four(&q), four(&t.range.0), four(&t.range.1), clip(text, 400)));
        }
        if p.to_string() != format!("(L{}, C{})", p.line, p.column) {
            die_violation("position-text", &format!("{:?} is written {:?}", four(&p), p.to_string()));
        }
    }
    if let Some(c) = text[end..].chars().find(|c| !matches!(c, ' ' | '\t' | '\n' | '\r')) {
        die_violation("swallowed", &format!("{:?} after byte {} belongs to no token; text {:?}", c, end, clip(text, 400)));
    }
    // And it is the token that the language defines there.
    for (i, w) in want.toks.iter().enumerate() {
        let g = got.get(i);
        if g.map(|t| (model::same_type(&t.token_type, &w.ty), t.range.0.bytes as usize, t.range.1.bytes as usize)) != Some((true, w.a, w.e)) {
            die_violation(
                "token",
                &format!("{:?} at byte {} is {:?}, but the lexer says {:?}; text {:?}", &text[w.a..w.e], w.a, w.ty, g, clip(text, 400)).replace('\n', " "),
            );
        }
    }
    match want.too_large {
        None if got.len() != want.toks.len() => {
            die_violation("token", &format!("{} tokens instead of {}; text {:?}", got.len(), want.toks.len(), clip(text, 400)))
        }
        Some(a) if got.get(want.toks.len()).map(|t| t.range.0.bytes as usize) != Some(a) => {
            die_violation("token", &format!("no token for the number at byte {}; text {:?}", a, clip(text, 400)))
        }
        _ => {}
    }
    hash_bytes(dump_tokens(&got).as_bytes())
}

pub fn run_c13(s: &Scn) {
    let text = s.texts.first().cloned().unwrap_or_default();
    let mut d = Disk::of(&text);
    for f in &s.faults {
        d.apply(f);
    }
    let after = d.read().0;
    nontrivial();
    if !after.is_ascii() {
        stat(St::multibyte_texts, 1);
    }
    sim::trace_add(scanner_law(&after));
    if after != text {
        sim::trace_add(scanner_law(&text));
    }
}

// ------------------------------------------------------------ C14

pub fn draw_c14(r: &mut Rng, s: &mut Scn) {
    checks::draw_lines(r, s, false);
}

struct Build<'a> {
    lines: &'a [L],
    start: Vec<i32>,
    i: usize,
    wild: Vec<(i32, i32)>,
    known: u64,
}
impl Build<'_> {
    /// The statements of one line, or a note that the model has no opinion on it.
    fn leaf(&mut self) -> Vec<S> {
        let l = &self.lines[self.i];
        let at = self.start[self.i];
        self.i += 1;
        let v: Option<Vec<S>> = model::statements(&l.text).and_then(|st| st.iter().map(|t| model::simple(t)).collect());
        match v {
            Some(v) => {
                self.known += v.len() as u64;
                v
            }
            None => {
                self.wild.push((at, at + height(&l.text) as i32 - 1));
                vec![]
            }
        }
    }
    fn leafy(&self) -> bool {
        self.lines.get(self.i).map(|l| matches!(l.tag, Tag::Leaf | Tag::Comma | Tag::Blank | Tag::Comment)).unwrap_or(false)
    }
    fn body(&mut self) -> Option<Vec<S>> {
        let mut o = vec![];
        loop {
            if self.leafy() {
                let v = self.leaf();
                o.extend(v);
                continue;
            }
            match self.lines.get(self.i) {
                Some(l) if l.tag == Tag::Open => {
                    let v = self.block()?;
                    o.extend(v);
                }
                _ => return Some(o),
            }
        }
    }
    fn block(&mut self) -> Option<Vec<S>> {
        let head = model::header(&self.lines[self.i].text)?;
        self.i += 1;
        let (before, mut v, name, branches) = match head {
            Head::Loop(b, v) => (b, v, "ImInYr", false),
            Head::Fun(b, v) => (b, v, "HowIzI", false),
            Head::If(b, v) => (b, v, "ORly", true),
            Head::Switch(b, v) => (b, v, "Wtf", true),
        };
        let mut o = before;
        let inner = self.body()?;
        if branches && !inner.is_empty() {
            return None;
        }
        if !inner.is_empty() {
            v.push(S::G("block".into(), inner));
        }
        while branches && self.lines.get(self.i)?.tag == Tag::Mid {
            v.extend(model::branch(&self.lines[self.i].text)?.1);
            self.i += 1;
            let inner = self.body()?;
            if !inner.is_empty() {
                v.push(S::G("block".into(), inner));
            }
        }
        let c = self.lines.get(self.i)?;
        if c.tag != Tag::Close {
            return None;
        }
        v.extend(model::closing(&c.text)?.1);
        self.i += 1;
        self.known += 1;
        o.push(S::G(name.into(), v));
        Some(o)
    }
}

fn differing<'a>(a: &'a [S], b: &'a [S]) -> String {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(S::G(n, x)), Some(S::G(m, y))) if n == m && x != y => return differing(x, y),
            (x, y) if x == y => {}
            (x, y) => {
                let f = |z: Option<&S>| z.map(|z| clip(&z.show(), 300)).unwrap_or("nothing".into());
                return format!("{} instead of {}", f(x), f(y));
            }
        }
    }
    String::new()
}

pub fn run_c14(s: &Scn) {
    let doc: Doc = s.docs.first().cloned().unwrap_or_default();
    let all: Vec<&Line> = doc.iter().flat_map(|u| &u.lines).collect();
    for l in &all {
        disk::count_line_fault(&l.fault);
    }
    let mut i = 0;
    let lines = match checks::settled(&all, &mut i, Bk::Root, true) {
        Some(l) => l,
        None => return,
    };
    let mut start = vec![];
    let mut at = 1;
    for l in &lines {
        start.push(at);
        at += height(&l.text) as i32;
    }
    let mut b = Build { lines: &lines, start, i: 0, wild: vec![], known: 0 };
    let want = match b.body() {
        Some(w) if b.i == lines.len() => w,
        _ => return,
    };
    if b.known > 0 {
        nontrivial();
    }
    stat(St::statements_understood, b.known);
    let wild = b.wild;
    let text = join(&lines);
    let v = match tokenize(&text) {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => return,
        Err(p) => die_panic(&p),
    };
    let tree = tree_of(&ast_of(v, &format!("{:?}", text)));
    let is_wild = |l: i32| wild.iter().any(|w| w.0 <= l && l <= w.1);
    let got = model::view(&root(&tree), &is_wild);
    sim::trace_add(hash_bytes(format!("{:?}", got).as_bytes()));
    if got != want {
        die_violation("meaning", &format!("the tree says {} (text {:?})", differing(&got, &want), clip(&text, 900)));
    }
    if let Some(m) = model::untidy(&tree, &is_wild) {
        die_violation("entangled", &format!("{} (text {:?})", m, clip(&text, 900)));
    }
}

// ------------------------------------------------------------ C15

pub fn draw_c15(r: &mut Rng, s: &mut Scn) {
    let t = match r.below(10) {
        0 => {
            let n = 1 + r.idx(25);
            gen::soup(r, n)
        }
        _ => checks::doc_for_damage(r),
    };
    if r.pct(45) {
        let other = checks::doc_for_damage(r);
        let n = *r.pick(&[1, 1, 2, 4]);
        s.faults = disk::draw_faults(r, &t, &other, n);
    }
    s.texts.push(t);
    let kinds: Vec<&str> = REWRITES.iter().filter(|_| r.pct(40)).copied().collect();
    for _ in 0..*r.pick(&[1u64, 2, 4, 8, 16]) {
        let k = if kinds.is_empty() { "crlf" } else { *r.pick(&kinds) };
        let (a, b) = (r.below(65536), r.next() >> 32);
        s.fault(8, k, a, b, "");
    }
}

const REWRITES: &[&str] = &[
    "crlf", "crlf-all", "blanks", "squeeze", "indent", "blankline", "trailing", "btw", "obtw", "uncomment", "comma", "newline", "commas", "dots", "split", "unsplit",
    "words", "final", "far", "wide",
];

/// What a text says, as far as separators and comments go.
fn said(text: &str) -> Option<Vec<Vec<TokenType>>> {
    let l = model::lex(text);
    if l.unclosed.is_some() || l.too_large.is_some() {
        return None;
    }
    Some(model::split(text, &l).into_iter().map(|s| s.into_iter().map(|t| t.ty).collect()).collect())
}

fn comment(t: &MTok) -> bool {
    matches!(t.ty, TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_))
}
fn glue(t: &MTok) -> bool {
    comment(t) || matches!(t.ty, TokenType::Comma | TokenType::Ellipsis)
}

/// One harmless rewriting of `text`, if there is a place for it.
fn rewrite(text: &str, toks: &[MTok], f: &Op) -> Option<String> {
    let mut r = Rng::new(f.b ^ 0x5eed);
    let n = toks.len();
    // The gap before token g (g = n: after the last one).
    let gap = |g: usize| (if g == 0 { 0 } else { toks[g - 1].e }, if g == n { text.len() } else { toks[g].a });
    let from = ((f.a as u128 * (n as u128 + 1)) >> 16) as usize;
    let order = (0..=n).map(|k| (from + k) % (n + 1));
    let put = |a: usize, e: usize, s: &str| Some(format!("{}{}{}", &text[..a], s, &text[e..]));
    let quiet = |g: usize| (g == 0 || !glue(&toks[g - 1])) && (g == n || !glue(&toks[g]));
    let apart = |g: usize| (g == 0 || toks[g - 1].ty != TokenType::Ellipsis) && (g == n || toks[g].ty != TokenType::Ellipsis);
    let after_btw = |g: usize| g > 0 && matches!(toks[g - 1].ty, TokenType::CommentSingleLine(_));
    let blanks = |r: &mut Rng| *r.pick(&[" ", "\t", "  ", " \t ", "      "]);
    for g in order {
        let (a, e) = gap(g);
        let t = &text[a..e];
        let nl = t.find('\n').map(|x| a + x);
        match f.kind.as_str() {
            "crlf" => {
                if let Some(x) = nl {
                    return put(x, x, "\r");
                }
            }
            "crlf-all" => {
                let mut o = String::new();
                let mut p = 0;
                for g in 0..=n {
                    let (a, e) = gap(g);
                    o.push_str(&text[p..a]);
                    o.push_str(&text[a..e].replace("\r\n", "\n").replace('\n', "\r\n"));
                    p = e;
                }
                return Some(o);
            }
            "blanks" if !after_btw(g) => return put(a, a, blanks(&mut r)),
            "squeeze" => {
                if let Some(x) = t.as_bytes().windows(2).position(|w| w.iter().all(|c| *c == b' ' || *c == b'\t')) {
                    return put(a + x, a + x + 1, "");
                }
            }
            "indent" => {
                if let Some(x) = nl {
                    return put(x + 1, x + 1, blanks(&mut r));
                }
            }
            "blankline" if apart(g) => {
                if let Some(x) = nl {
                    let l = *r.pick(&["\n", "\n\n", " \n", "\t\n\n", "\r\n"]);
                    return put(x, x, l).filter(|_| !after_btw(g) || l.starts_with('\n'));
                }
            }
            "trailing" => {
                if let Some(x) = nl {
                    return put(x, x, blanks(&mut r));
                }
            }
            "btw" if apart(g) => {
                if let Some(x) = nl {
                    return put(x, x, r.pick(&[" BTW", "\tBTW why", " BTW OIC, \"", " BTW \u{e9} ...", " BTW OBTW", " BTW KTHXBYE"]));
                }
                if g == n {
                    return put(e, e, " BTW the end");
                }
            }
            "obtw" if apart(g) && !after_btw(g) => {
                if let Some(x) = nl {
                    let c = *r.pick(&["OBTW why\nnot TLDR", "OBTW TLDR", "OBTW\n\nOIC\nTLDR", "OBTW \u{e9}, BTW \" TLDR"]);
                    return match r.below(3) {
                        0 => put(x, x, &format!(" {}", c)),
                        1 => put(x, x, &format!("\n{}", c)),
                        _ => put(x + 1, x + 1, &format!("{}\n", c)),
                    };
                }
                return put(a, a, r.pick(&[" OBTW why TLDR ", " OBTW TLDR ", " OBTW \u{e9}, BTW \" OIC TLDR "]));
            }
            "uncomment" if g < n && comment(&toks[g]) => {
                let k = text[toks[g].a..toks[g].e].matches('\n').count();
                return put(toks[g].a, toks[g].e, if k == 0 { " ".to_string() } else { "\n".repeat(k) }.as_str());
            }
            "comma" if quiet(g) && g > 0 && g < n && nl.is_some() => return put(a, e, r.pick(&[", ", ",", " , ", "\t,"])),
            "newline" if g < n && toks[g].ty == TokenType::Comma => {
                let (b, _) = gap(g);
                let (_, c) = gap(g + 1);
                return put(b, c, r.pick(&["\n", "\n  ", "\n\n", "\r\n"])).filter(|_| !after_btw(g));
            }
            "commas" if apart(g) && !after_btw(g) => {
                if g < n && toks[g].ty == TokenType::Comma {
                    return put(toks[g].a, toks[g].a, r.pick(&[",", ", ", ",,"]));
                }
                if let Some(x) = nl {
                    return match r.below(2) {
                        0 => put(x, x, r.pick(&[",", " ,", ", "])),
                        _ => put(x + 1, x + 1, r.pick(&[",", " ,", ", "])),
                    };
                }
            }
            "dots" if g < n && toks[g].ty == TokenType::Ellipsis => {
                let long = text[toks[g].a..toks[g].e].len() == 3 && text[toks[g].a..].starts_with('.');
                return put(toks[g].a, toks[g].e, if long { "\u{2026}" } else { "..." });
            }
            "split" if quiet(g) && g > 0 && g < n && nl.is_none() => {
                return put(a, e, r.pick(&[" ...\n", " ...\n  ", " \u{2026}\n\t", " ... \n", " ...\r\n", " ... ...\n", " ... BTW more\n", " ...\n...\n"]))
            }
            "unsplit" if g > 0 && g + 1 < n && toks[g].ty == TokenType::Ellipsis => {
                let (b, _) = gap(g);
                let (_, c) = gap(g + 1);
                return put(b, c, blanks(&mut r));
            }
            "words" if g < n && matches!(toks[g].ty, TokenType::Keyword(_)) => {
                if let Some(x) = text[toks[g].a..toks[g].e].rfind([' ', '\t']) {
                    return put(toks[g].a + x, toks[g].a + x, blanks(&mut r));
                }
            }
            "far" if g == 0 || (apart(g) && nl.is_some()) => {
                let k = *r.pick(&[1, 2, 126, 127, 254, 255, 256, 300, 300, 1000]);
                let k = if r.below(40) == 0 { *r.pick(&[32_767, 65_535, 65_536, 70_000]) } else { k };
                let x = nl.unwrap_or(a);
                return put(x, x, &"\n".repeat(k));
            }
            "wide" if g < n && !after_btw(g) => {
                let k = if r.below(40) == 0 { *r.pick(&[32_767, 65_536, 70_000]) } else { *r.pick(&[127, 255, 256, 300]) };
                return put(a, a, &" ".repeat(k));
            }
            "final" if g == n => {
                return match text.strip_suffix('\n') {
                    Some(t) if r.pct(70) => Some(t.to_string()),
                    _ => Some(format!("{}\n", text)),
                }
            }
            _ => {}
        }
    }
    None
}

fn nowhere(t: &T) -> T {
    match t {
        T::Tok { ty, .. } => T::Tok { sl: 0, sc: 0, el: 0, ec: 0, ty: ty.clone() },
        T::Node(n, v) => T::Node(n.clone(), v.iter().map(|(f, x)| (f.clone(), nowhere(x))).collect()),
        T::List(v) => T::List(v.iter().map(nowhere).collect()),
        T::Atom(a) => T::Atom(a.clone()),
    }
}

pub fn run_c15(s: &Scn) {
    let mut d = Disk::of(&s.texts.first().cloned().unwrap_or_default());
    for f in s.faults.iter().filter(|f| f.t != 8) {
        d.apply(f);
    }
    let text = d.read().0;
    let says = match said(&text) {
        Some(x) => x,
        None => return,
    };
    let mut now = text.clone();
    for f in s.faults.iter().filter(|f| f.t == 8) {
        let l = model::lex(&now);
        if let Some(t) = rewrite(&now, &l.toks, f) {
            // Some texts leave no room for some rewritings: "SUM" and "OF" on two lines must stay there.
            if t != now && said(&t).as_ref() == Some(&says) {
                stat(St::rewritings, 1);
                nontrivial();
                now = t;
            } else {
                stat(St::rewritings_refused, 1);
            }
        }
    }
    let tree = |t: &str| -> Vec<T> {
        match nodes(t) {
            Ok(v) => v.iter().map(nowhere).collect(),
            Err(e) => die_violation("refused", &format!("{} for {:?}", e, clip(t, 600))),
        }
    };
    let (a, b) = (tree(&text), tree(&now));
    sim::trace_add(hash_bytes(now.as_bytes()));
    if a != b {
        die_violation("rewritten", &format!("{} (delivered text {:?}; sent text {:?})", first_diff(&b, &a), clip(&now, 700), clip(&text, 700)));
    }
}

// ------------------------------------------------------------ C16

pub fn draw_c16(r: &mut Rng, s: &mut Scn) {
    checks::draw_lines(r, s, false);
}

pub fn run_c16(s: &Scn) {
    errors_law(s, false);
}

/// What is reported: that it is (C16), or where (C18).
fn errors_law(s: &Scn, places: bool) {
    let doc: Doc = s.docs.first().cloned().unwrap_or_default();
    let all: Vec<&Line> = doc.iter().flat_map(|u| &u.lines).collect();
    for l in &all {
        disk::count_line_fault(&l.fault);
    }
    let mut i = 0;
    let lines = match checks::settled(&all, &mut i, Bk::Root, true) {
        Some(l) => l,
        None => return,
    };
    let text = join(&lines);
    let v = match tokenize(&text) {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => return,
        Err(p) => die_panic(&p),
    };
    let ast = ast_of(v.clone(), &format!("{:?}", text));
    let tree = tree_of(&ast);
    // every error, by the places of its tokens
    let mut errors: Vec<Vec<(i32, i32)>> = vec![];
    collect(&tree, &mut errors);
    let mut at = 1;
    if places {
        // Whatever an error names is a token of the text, with the place and contents it has there.
        let there: std::collections::HashSet<(i32, i32, i32, i32, String)> =
            v.iter().map(|t| (t.range.0.line, t.range.0.column, t.range.1.line, t.range.1.column, format!("{:?}", t.token_type))).collect();
        let mut named = vec![];
        named_by_errors(&tree, &mut named);
        for t in named {
            let T::Tok { sl, sc, el, ec, ty } = t else { continue };
            if !there.contains(&(*sl, *sc, *el, *ec, ty.clone())) {
                die_violation("error-place", &format!("an error names {:?}, which is no token of the text; text {:?}", t, clip(&text, 500)));
            }
        }
        for l in &lines {
            let first = at;
            at += height(&l.text) as i32;
            places_law(l, first, &errors, &text);
        }
        sim::trace_add(hash_bytes(format!("{:?}", errors).as_bytes()));
        return;
    }
    for l in &lines {
        let first = at;
        at += height(&l.text) as i32;
        let on_lines = errors.iter().filter(|e| e.iter().any(|p| first <= p.0 && p.0 < at)).count();
        if matches!(l.tag, Tag::Open | Tag::Mid | Tag::Close) {
            let known = match l.tag {
                Tag::Open => model::header(&l.text).is_some(),
                Tag::Mid => model::branch(&l.text).is_some(),
                _ => model::closing(&l.text).is_some(),
            };
            if known && on_lines > 0 {
                die_violation("false-error", &format!("the block line {:?} is well-formed but reported as an error; text {:?}", l.text, clip(&text, 500)));
            }
            if !known && on_lines == 0 {
                die_violation("unreported", &format!("the block line {:?} is damaged but not reported; text {:?}", l.text, clip(&text, 500)));
            }
            continue;
        }
        let Some(st) = model::statements(&l.text) else { continue };
        let blocky = st.iter().flatten().any(|t| model::opens(&t.ty));
        if blocky && l.text.contains('\n') {
            // a rejected block: reported once
            nontrivial();
            stat(St::blocks_rejected, 1);
            // by its header or by the line at which it was rejected, not by what stands in it
            let told = match l.cut {
                Some((head, before)) => {
                    let here = |p: i32| (first <= p && p < first + head as i32) || (first + before as i32 <= p && p < at);
                    errors.iter().filter(|e| e.iter().any(|p| here(p.0))).count()
                }
                None => on_lines,
            };
            if told == 0 {
                die_violation("unreported", &format!("the block {:?} has a damaged line but is not reported; text {:?}", clip(&l.text, 200), clip(&text, 500)));
            }
            continue;
        }
        let mut pl = Places { text: &l.text, at: 0, p: (first, 1, 0, 0) };
        for t in st {
            let x = pl.of(t[0].a);
            let y = pl.of(t[t.len() - 1].e);
            let (x, y) = ((x.0, x.1), (y.0, y.1));
            let n = errors.iter().filter(|e| e.iter().any(|p| x <= *p && *p < y)).count();
            let src = &l.text[t[0].a..t[t.len() - 1].e];
            let good = model::simple(&t).is_some();
            if !good {
                nontrivial();
            }
            stat(if good { St::statements_accepted } else { St::statements_rejected }, 1);
            if good && n > 0 {
                die_violation("false-error", &format!("the statement {:?} is well-formed but reported as an error; text {:?}", src, clip(&text, 500)));
            }
            if !good && n == 0 {
                die_violation("unreported", &format!("the statement {:?} is damaged but not reported; text {:?}", src, clip(&text, 500)));
            }
        }
    }
    sim::trace_add(hash_bytes(format!("{:?}", errors).as_bytes()));
}
/// The report of a rejected statement names the token at which it went wrong, and those behind.
fn places_law(l: &L, first: i32, errors: &[Vec<(i32, i32)>], text: &str) {
    if matches!(l.tag, Tag::Open | Tag::Mid | Tag::Close) {
        return;
    }
    let Some(st) = model::statements(&l.text) else { return };
    let mut pl = Places { text: &l.text, at: 0, p: (first, 1, 0, 0) };
    for t in &st {
        if opens(&t[0].ty) && (l.text.contains('\n') || !matches!(t[0].ty, TokenType::Keyword(Keywords::IM_IN_YR | Keywords::HOW_IZ_I))) {
            return;
        }
        let Some(bad) = model::offence(t) else { continue };
        let at: Vec<(i32, i32)> = t
            .iter()
            .map(|x| {
                let p = pl.of(x.a);
                (p.0, p.1)
            })
            .collect();
        let got: Vec<&Vec<(i32, i32)>> = errors.iter().filter(|e| e.iter().any(|p| at.contains(p))).collect();
        let flat: Vec<(i32, i32)> = got.iter().flat_map(|e| e.iter().copied()).collect();
        nontrivial();
        stat(St::places_checked, 1);
        let ok = if bad < t.len() { flat == at[bad..] } else { flat.len() == 1 && at.contains(&flat[0]) };
        if !ok {
            let src = &l.text[t[0].a..t[t.len() - 1].e];
            let want = match t.get(bad) {
                Some(x) => format!("{:?} is the first token that does not fit", &l.text[x.a..x.e]),
                None => "its end is missing".into(),
            };
            die_violation(
                "error-place",
                &format!("in {:?} {} (its tokens are at {:?}), but the errors name {:?}; text {:?}", src, want, at, got, clip(text, 500)),
            );
        }
    }
}
fn named_by_errors<'a>(t: &'a T, out: &mut Vec<&'a T>) {
    match t {
        T::Node(n, v) if n == "ASTError" => v.iter().for_each(|x| out.extend(x.1.toks())),
        T::Node(_, v) => v.iter().for_each(|x| named_by_errors(&x.1, out)),
        T::List(v) => v.iter().for_each(|x| named_by_errors(x, out)),
        _ => {}
    }
}
fn collect(t: &T, out: &mut Vec<Vec<(i32, i32)>>) {
    match t {
        T::Node(n, v) if n == "ASTError" => out.push(
            v.iter()
                .flat_map(|x| x.1.toks().into_iter().map(|t| if let T::Tok { sl, sc, .. } = t { (*sl, *sc) } else { (0, 0) }).collect::<Vec<_>>())
                .collect(),
        ),
        T::Node(_, v) => v.iter().for_each(|x| collect(&x.1, out)),
        T::List(v) => v.iter().for_each(|x| collect(x, out)),
        _ => {}
    }
}

// ------------------------------------------------------------ C18

pub fn draw_c18(r: &mut Rng, s: &mut Scn) {
    checks::draw_lines(r, s, false);
}
pub fn run_c18(s: &Scn) {
    errors_law(s, true);
}

// ------------------------------------------------------------ C19

pub fn draw_c19(r: &mut Rng, s: &mut Scn) {
    let t = match r.below(6) {
        0 => {
            let n = 1 + r.idx(20);
            gen::soup(r, n)
        }
        1 => checks::doc_for_damage(r),
        2 => {
            checks::draw_lines(r, s, false);
            let t: String = s.docs[0].iter().flat_map(|u| &u.lines).filter(|l| !l.lost()).map(|l| format!("{}\n", l.cur())).collect();
            s.docs.clear();
            t
        }
        _ => {
            let u = r.range(1, 6);
            checks::text(r, u)
        }
    };
    s.texts.push(t.clone());
    match r.below(12) {
        10 | 11 => {
            // one token alone stands one column further on
            let l = model::lex(&t).toks;
            if l.len() < 2 {
                return;
            }
            let k = r.idx(l.len());
            let told = |far: usize| {
                let (mut o, mut at) = (String::new(), 0);
                for (i, x) in l.iter().enumerate() {
                    let gap = &t[at..x.a];
                    o.push_str(gap);
                    o.push_str(if i == far { "   " } else { "  " });
                    o.push_str(&t[x.a..x.e]);
                    o.push_str(if i == far { " " } else { "  " });
                    at = x.e;
                }
                o.push_str(&t[at..]);
                o
            };
            s.texts = vec![told(l.len()), told(k)];
        }
        0..=3 => {
            let n = checks::near(r, &t);
            s.texts.push(n);
        }
        4 | 5 => checks::draw_token_faults(r, s),
        6 => {
            // the same, told with other blanks or comments
            let l = model::lex(&t).toks;
            let mut now = t.clone();
            for _ in 0..3 {
                let f = Op { t: 8, kind: (*r.pick(REWRITES)).into(), d: 0, a: r.below(65536), b: r.next() >> 32, s: String::new() };
                if now == t {
                    now = rewrite(&t, &l, &f).unwrap_or(now);
                }
            }
            s.texts.push(now);
        }
        _ => {
            let other = checks::doc_for_damage(r);
            let n = *r.pick(&[1, 1, 1, 2, 4]);
            s.faults = disk::draw_faults(r, &t, &other, n);
        }
    }
}

/// What a printed result says; zero is zero, whatever its sign.
fn plain(t: &T) -> T {
    let f = |s: &String| s.replace("Float(-0.0)", "Float(0.0)");
    match t {
        T::Tok { sl, sc, el, ec, ty } => T::Tok { sl: *sl, sc: *sc, el: *el, ec: *ec, ty: f(ty) },
        T::Node(n, v) => T::Node(n.clone(), v.iter().map(|(k, x)| (k.clone(), plain(x))).collect()),
        T::List(v) => T::List(v.iter().map(plain).collect()),
        T::Atom(a) => T::Atom(if a == "-0.0" { "0.0".into() } else { a.clone() }),
    }
}

/// `==` and `!=` both ways round, against whether the two say the same.
#[allow(clippy::eq_op)]
fn tells<X: PartialEq + Clone>(what: &str, a: &X, b: &X, same: bool, shows: &dyn Fn() -> String) {
    stat(St::comparisons, 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (a == b, b == a, a != b, b != a)));
    let r = match r {
        Ok(r) => r,
        Err(_) => die_panic(&format!("comparing two {}: {}", what, shows())),
    };
    if r != (same, same, !same, !same) {
        let say = if same { "say the same but compare as different" } else { "differ but compare as equal" };
        let odd = r.0 != r.1 || r.0 == r.2 || r.1 == r.3;
        die_violation(if odd { "inconsistent" } else { "compared" }, &format!("two {} {}{}: {}", what, say, if odd { " (not each way round)" } else { "" }, shows()));
    }
}

pub fn run_c19(s: &Scn) {
    let first = s.texts.first().cloned().unwrap_or_default();
    let mut d = Disk::of(&first);
    for f in s.faults.iter().filter(|f| f.t < 8) {
        d.apply(f);
        nontrivial();
    }
    let second = match s.texts.get(1) {
        Some(t) => {
            nontrivial();
            t.clone()
        }
        None => d.read().0,
    };
    let get = |t: &str| match tokenize(t) {
        Ok(v) => v,
        Err(p) => die_panic(&p),
    };
    let (a, b) = (get(&first), get(&second));
    let sides = || format!("texts {:?} and {:?}", clip(&first, 300), clip(&second, 300));
    let (a, mut b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) => {
            #[allow(irrefutable_let_patterns)]
            let (TokenError::UnclosedMultilineComment(x), TokenError::UnclosedMultilineComment(y)) = (&a, &b) else {
                return;
            };
            let at = |r: &lolcode_ast::lexer::Range| (r.0.line, r.0.column, r.1.line, r.1.column);
            tells("scanner errors", &a, &b, at(x) == at(y), &sides);
            tells("scanner errors", &a, &a.clone(), true, &sides);
            return;
        }
        (x, y) => {
            tells("scanner results", &x, &y, false, &sides);
            return;
        }
    };
    if s.faults.iter().any(|f| f.t == 9) {
        let other: Vec<_> = a.iter().rev().cloned().collect();
        b = checks::deliver(&a, &other, &s.faults).into_iter().map(|x| x.1).collect();
    }
    let tok = |t: &lolcode_ast::lexer::Token| (t.range.0.line, t.range.0.column, t.range.1.line, t.range.1.column, format!("{:?}", t.token_type).replace("Float(-0.0)", "Float(0.0)"));
    let (ka, kb): (Vec<_>, Vec<_>) = (a.iter().map(tok).collect(), b.iter().map(tok).collect());
    tells("token lists", &a, &b, ka == kb, &sides);
    tells("token lists", &a, &a.clone(), true, &sides);
    for i in 0..a.len().min(200) {
        for j in i.saturating_sub(1)..(i + 2).min(b.len()) {
            let say = || format!("{:?} and {:?}", a[i], b[j]);
            tells("tokens", &a[i], &b[j], ka[i] == kb[j], &say);
            tells("token types", &a[i].token_type, &b[j].token_type, ka[i].4 == kb[j].4, &say);
            tells("ranges", &a[i].range, &b[j].range, (ka[i].0, ka[i].1, ka[i].2, ka[i].3) == (kb[j].0, kb[j].1, kb[j].2, kb[j].3), &say);
            tells("positions", &a[i].range.0, &b[j].range.0, (ka[i].0, ka[i].1) == (kb[j].0, kb[j].1), &say);
        }
    }
    let (x, y) = (ast_of(a.clone(), &format!("{:?}", first)), ast_of(b.clone(), &format!("{:?}", second)));
    let (tx, ty) = (plain(&tree_of(&x)), plain(&tree_of(&y)));
    tells("trees", &x, &y, tx == ty, &sides);
    tells("trees", &x, &x.clone(), true, &sides);
    tells("trees", &x, &ast_of(a.clone(), "again"), true, &sides);
    let (rx, ry) = (root(&tx), root(&ty));
    for i in 0..x.0.len().min(40) {
        for j in i.saturating_sub(1)..(i + 2).min(y.0.len()) {
            tells("statements", &x.0[i], &y.0[j], rx[i] == ry[j], &|| format!("{} and {}", show(&rx[i]), show(&ry[j])));
        }
        for j in i + 1..(i + 3).min(x.0.len()) {
            tells("statements", &x.0[i], &x.0[j], rx[i] == rx[j], &|| format!("{} and {}", show(&rx[i]), show(&rx[j])));
        }
    }
    let list = |b: &lolcode_ast::parser::ASTBlock| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.iter_errors().take(60).map(|e| (format!("{:?}", e).replace("Float(-0.0)", "Float(0.0)"), e)).collect::<Vec<_>>())) {
        Ok(v) => v,
        Err(_) => die_panic("listing errors"),
    };
    let (ex, ey) = (list(&x), list(&y));
    for i in 0..ex.len() {
        for j in i.saturating_sub(1)..(i + 2).min(ey.len()) {
            tells("errors", &ex[i].1, &ey[j].1, ex[i].0 == ey[j].0, &|| format!("{} and {}", ex[i].0, ey[j].0));
        }
    }
    sim::trace_add(hash_bytes(format!("{:?}{:?}", ty, tx == ty).as_bytes()));
}

// ------------------------------------------------------------ C20

/// A text arrives in pieces: short reads of a file, lines typed one after another.
pub fn draw_c20(r: &mut Rng, s: &mut Scn) {
    match r.below(10) {
        0..=4 => checks::draw_lines(r, s, false),
        n => {
            let t = match n {
                5 | 6 => scanner_text(r),
                7 => {
                    let n = 1 + r.idx(40);
                    gen::soup(r, n)
                }
                _ => checks::doc_for_damage(r),
            };
            if r.pct(50) {
                let other = checks::doc_for_damage(r);
                let n = *r.pick(&[1, 1, 2, 4]);
                s.faults = disk::draw_faults(r, &t, &other, n);
            }
            s.texts.push(t);
        }
    }
    for _ in 0..*r.pick(&[1, 2, 4, 8, 20]) {
        s.op(0, "read", 0, r.below(65536), r.below(2));
    }
    for _ in 0..*r.pick(&[1, 1, 2, 4, 20]) {
        s.op(0, "piece", 0, r.below(65536), 0);
    }
}

fn later(t: &T, by: i32) -> T {
    match t {
        T::Tok { sl, sc, el, ec, ty } => T::Tok { sl: sl + by, sc: *sc, el: el + by, ec: *ec, ty: ty.clone() },
        T::Node(n, v) => T::Node(n.clone(), v.iter().map(|(k, x)| (k.clone(), later(x, by))).collect()),
        T::List(v) => T::List(v.iter().map(|x| later(x, by)).collect()),
        T::Atom(_) => t.clone(),
    }
}

/// `p`, counted from the start of the text in which the piece starts at `from`.
fn moved(from: &Position, p: &Position) -> (i32, i32, i32, i32) {
    let c = if p.line == 1 { p.column + from.column - 1 } else { p.column };
    (p.line + from.line - 1, c, p.bytes + from.bytes, p.chars + from.chars)
}

pub fn run_c20(s: &Scn) {
    // Behind these bytes one outermost statement is complete and the next one has not started.
    let mut between: Vec<usize> = vec![];
    let text = match s.docs.first() {
        Some(d) => match checks::outermost(d) {
            Some((t, b)) => {
                between = b;
                t
            }
            None => return,
        },
        None => {
            let mut k = Disk::of(&s.texts.first().cloned().unwrap_or_default());
            for f in s.faults.iter().filter(|f| f.t < 8) {
                k.apply(f);
            }
            k.read().0
        }
    };
    // Short reads: stepping over them one after another leads to where stepping over all leads.
    let mut cuts: Vec<(usize, u64)> = s.ops.iter().filter(|o| o.kind == "read").map(|o| ((o.a as usize * (text.len() + 1)) >> 16, o.b)).collect();
    for c in cuts.iter_mut() {
        while !text.is_char_boundary(c.0) {
            c.0 -= 1;
        }
    }
    cuts.push((text.len(), 0));
    cuts.sort();
    let mut pl = Places { text: &text, at: 0, p: (1, 1, 0, 0) };
    let (mut at, mut p) = (0, Position::default());
    for (c, how) in cuts {
        let piece = &text[at..c];
        let was = p;
        let stepped = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if how == 0 {
                p += piece;
            } else {
                p = p + piece;
            }
        }));
        if stepped.is_err() {
            die_panic(&format!("stepping from {:?} over {:?}", four(&was), clip(piece, 300)));
        }
        let want = pl.of(c);
        if four(&p) != want {
            die_violation("position-step", &format!("stepping from {:?} over {:?} leads to {:?}, not to {:?}; text {:?}", four(&was), clip(piece, 200), four(&p), want, clip(&text, 400)));
        }
        if piece.is_empty() {
            if p != was || p.partial_cmp(&was) != Some(std::cmp::Ordering::Equal) {
                die_violation("position-order", &format!("{:?} differs from itself", want));
            }
        } else {
            order_law(&was, &p, &text);
        }
        stat(St::places_checked, 1);
        at = c;
    }
    // Pieces that end where a statement may end, each scanned on its own.
    let l = model::lex(&text);
    if l.too_large.is_some() {
        return;
    }
    let ends: Vec<usize> = match s.docs.is_empty() {
        false => between,
        true => {
            // the end of a line no token reaches beyond
            let mut from = 0;
            let mut v = vec![];
            for t in &l.toks {
                v.extend(text[from..t.a].match_indices('\n').map(|m| from + m.0 + 1));
                from = t.e;
                if t.ty == TokenType::Comma {
                    v.push(t.e);
                }
            }
            let behind = l.unclosed.unwrap_or(text.len());
            if behind > from {
                v.extend(text[from..behind].match_indices('\n').map(|m| from + m.0 + 1));
            }
            v.retain(|e| *e < text.len());
            v
        }
    };
    if ends.is_empty() {
        return;
    }
    let mut cuts: Vec<usize> = s.ops.iter().filter(|o| o.kind == "piece").map(|o| ends[o.a as usize % ends.len()]).collect();
    cuts.push(text.len());
    cuts.sort();
    cuts.dedup();
    if cuts.len() > 1 {
        nontrivial();
    }
    let scan = |t: &str| match tokenize(t) {
        Ok(r) => r,
        Err(p) => die_panic(&format!("tokenize panicked on {:?}: {}", clip(t, 300), p)),
    };
    let key = |at: &Position, t: &lolcode_ast::lexer::Token| (moved(at, &t.range.0), moved(at, &t.range.1), format!("{:?}", t.token_type));
    let origin = Position::default();
    let whole = scan(&text);
    let (mut at, mut p) = (0, origin);
    let mut got = vec![];
    let mut nodes: Vec<T> = vec![];
    let mut errors: Vec<T> = vec![];
    let mut open = None;
    let trees = !s.docs.is_empty();
    let list = |b: &lolcode_ast::parser::ASTBlock, by: i32| -> Vec<T> {
        match sim::call(|| b.iter_errors().map(|e| format!("{:?}", e)).collect::<Vec<_>>()) {
            Ok(v) => v.iter().map(|x| later(&crate::dbgtree::parse(x).unwrap_or_else(|| harness(&format!("cannot read error text {}", x))), by)).collect(),
            Err(p) => die_panic(&format!("listing errors: {}", p)),
        }
    };
    for c in &cuts {
        let piece = &text[at..*c];
        stat(St::tok_batches, 1);
        match scan(piece) {
            Err(TokenError::UnclosedMultilineComment(r)) => {
                open = Some((moved(&p, &r.0), moved(&p, &r.1)));
                if *c != text.len() {
                    die_violation("pieces", &format!("no comment is left open in {:?}", clip(piece, 400)));
                }
            }
            #[allow(unreachable_patterns)]
            Err(e) => die_violation("refused", &format!("{:?} for {:?}", e, clip(piece, 300))),
            Ok(v) => {
                got.extend(v.iter().map(|t| key(&p, t)));
                if trees {
                    let b = ast_of(v, piece);
                    nodes.extend(root(&tree_of(&b)).iter().map(|n| later(n, p.line - 1)));
                    errors.extend(list(&b, p.line - 1));
                }
            }
        }
        p += piece;
        at = *c;
    }
    let show_cuts = || format!("text {:?} in pieces that end at {:?}", clip(&text, 500), &cuts[..cuts.len().min(20)]);
    match (whole, open) {
        (Err(TokenError::UnclosedMultilineComment(r)), Some(o)) => {
            if (four(&r.0), four(&r.1)) != o {
                die_violation("pieces", &format!("the open comment stands at {:?} in the pieces, at {:?} in the whole; {}", o, (four(&r.0), four(&r.1)), show_cuts()));
            }
        }
        (Ok(v), None) => {
            let want: Vec<_> = v.iter().map(|t| key(&origin, t)).collect();
            if want != got {
                let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
                die_violation("pieces", &format!("token {} is {:?} in the whole and {:?} in the pieces; {}", i, want.get(i), got.get(i), show_cuts()));
            }
            if trees {
                let b = ast_of(v, &text);
                let want = root(&tree_of(&b));
                if want != nodes {
                    die_violation("pieces", &format!("{}; whole against pieces; {}", first_diff(&want, &nodes), show_cuts()));
                }
                let want = list(&b, 0);
                if want != errors {
                    die_violation("pieces", &format!("{}; errors of the whole against errors of the pieces; {}", first_diff(&want, &errors), show_cuts()));
                }
            }
        }
        (w, o) => die_violation("pieces", &format!("{:?} for the whole, {:?} for the pieces; {}", w.is_ok(), o, show_cuts())),
    }
    sim::trace_add(hash_bytes(format!("{:?}{:?}{:?}", cuts, got, nodes).as_bytes()));
}

// ------------------------------------------------------------ C09, on any text

pub fn draw_account(r: &mut Rng, s: &mut Scn) {
    match r.below(10) {
        0 | 1 => {
            let n = 1 + r.idx(40);
            s.texts.push(gen::soup(r, n));
        }
        2 | 3 => {
            checks::draw_lines(r, s, false);
            let t: String = s.docs[0].iter().flat_map(|u| &u.lines).filter(|l| !l.lost()).map(|l| format!("{}\n", l.cur())).collect();
            s.docs.clear();
            s.texts.push(t);
        }
        _ => s.texts.push(checks::doc_for_damage(r)),
    }
    let t = s.texts[0].clone();
    match r.below(10) {
        0..=3 => {
            let other = checks::doc_for_damage(r);
            let n = *r.pick(&[1, 1, 2, 4, 8]);
            s.faults = disk::draw_faults(r, &t, &other, n);
        }
        4..=7 => checks::draw_token_faults(r, s),
        _ => {}
    }
}

/// Every token of the tree was delivered, and none is used twice.
pub fn run_account(s: &Scn) {
    let mut d = Disk::of(&s.texts.first().cloned().unwrap_or_default());
    for f in s.faults.iter().filter(|f| f.t != 9) {
        d.apply(f);
        nontrivial();
    }
    let text = d.read().0;
    let v = match tokenize(&text) {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => return,
        Err(p) => die_panic(&p),
    };
    let faulty = s.faults.iter().any(|f| f.t == 9);
    let other: Vec<_> = v.iter().rev().cloned().collect();
    let v: Vec<_> = if faulty { checks::deliver(&v, &other, &s.faults).into_iter().map(|x| x.1).collect() } else { v };
    let tree = tree_of(&ast_of(v.clone(), &format!("{:?}", text)));
    let key = |sl: i32, sc: i32, el: i32, ec: i32, ty: &str| format!("{} at {}.{}-{}.{}", ty, sl, sc, el, ec);
    let mut have: std::collections::HashMap<String, i32> = Default::default();
    for t in &v {
        let (a, b) = (&t.range.0, &t.range.1);
        *have.entry(key(a.line, a.column, b.line, b.column, &format!("{:?}", t.token_type))).or_default() += 1;
    }
    for t in tree.toks() {
        if let T::Tok { sl, sc, el, ec, ty } = t {
            stat(St::tokens_accounted, 1);
            let k = key(*sl, *sc, *el, *ec, ty);
            match have.get_mut(&k) {
                None => die_violation("invented", &format!("the tree holds {}, which was never delivered; text {:?}", k, clip(&text, 500))),
                Some(n) => {
                    *n -= 1;
                    if *n < 0 {
                        die_violation("used-twice", &format!("{} occurs more often in the tree than it was delivered; text {:?}", k, clip(&text, 500)));
                    }
                }
            }
        }
    }
    sim::trace_add(hash_bytes(format!("{:?}", tree).as_bytes()));
    if !faulty {
        if let Some(m) = model::untidy(&tree, &|_| false) {
            die_violation("entangled", &format!("{} (text {:?})", m, clip(&text, 700)));
        }
    }
}
