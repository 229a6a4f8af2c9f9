//! The reference model: what LOLCODE, as this library documents it, makes of a text. Written from
//! the language, independently of the code under test: one scanner for every text, and one
//! recursive descent for well-formed statements.
use crate::dbgtree::T;
use lolcode_ast::lexer::{Keywords, NumberToken, TokenType, TokenValue};

#[derive(Clone, Debug, PartialEq)]
pub struct MTok {
    pub ty: TokenType,
    /// byte offsets
    pub a: usize,
    pub e: usize,
}

#[derive(Clone, Debug)]
pub struct Lexed {
    pub toks: Vec<MTok>,
    /// where a multi-line comment starts that never ends
    pub unclosed: Option<usize>,
    /// where a number too large to be represented starts: from there on the model is silent
    pub too_large: Option<usize>,
    /// a string that only ends because the text does
    pub open_string: bool,
}

macro_rules! keywords {
    ($($k:ident)*) => {
        pub fn keyword_table() -> Vec<(String, Keywords)> {
            vec![$((stringify!($k).replace('_', " "), Keywords::$k)),*]
        }
    };
}
keywords! {
    BTW HAS_A OBTW SRS TLDR BUKKIT HAI KTHXBYE I_HAS_A ITZ NOOB TROOF FAIL WIN NUMBR NUMBAR YARN MKAY ANY_OF AN SUM_OF DIFF_OF
    PRODUKT_OF QUOSHUNT_OF MOD_OF BIGGR_OF SMALLR_OF BOTH_SAEM BOTH_OF EITHER_OF WON_OF NOT UPPIN NERFIN ALL_OF DIFFRINT SMOOSH
    MAEK IS_NOW VISIBLE GIMMEH O_RLY YA_RLY NO_WAI OIC MEBBE WTF OMGWTF OMG GTFO IM_IN_YR YR TIL WILE IM_OUTTA_YR HOW_IZ_I
    IF_U_SAY_SO FOUND_YR I_IZ R A
}

fn wordy(c: u8) -> bool {
    c == b'_' || c.is_ascii_alphanumeric()
}
fn word_end(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && wordy(b[i]) {
        i += 1;
    }
    i
}
/// End of the keyword at `i`: its words, separated by blanks.
fn keyword_at(b: &[u8], i: usize, words: &str) -> Option<usize> {
    let mut p = i;
    for (n, w) in words.split(' ').enumerate() {
        if n > 0 {
            let s = p;
            while p < b.len() && (b[p] == b' ' || b[p] == b'\t') {
                p += 1;
            }
            if p == s {
                return None;
            }
        }
        let e = word_end(b, p);
        if &b[p..e] != w.as_bytes() {
            return None;
        }
        p = e;
    }
    Some(p)
}

thread_local! {
    static TABLE: Vec<(String, Keywords)> = keyword_table();
}

pub fn lex(text: &str) -> Lexed {
    TABLE.with(|t| lex_with(text, t))
}
fn lex_with(text: &str, table: &[(String, Keywords)]) -> Lexed {
    let b = text.as_bytes();
    let mut r = Lexed { toks: vec![], unclosed: None, too_large: None, open_string: false };
    let mut i = 0;
    while i < b.len() {
        let rest = &b[i..];
        let (ty, e) = match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => {
                i += 1;
                continue;
            }
            b',' => (TokenType::Comma, i + 1),
            b'!' => (TokenType::ExclamationMark, i + 1),
            _ if rest.starts_with(b"BTW") => {
                let e = b[i..].iter().position(|c| *c == b'\n').map(|n| i + n).unwrap_or(b.len());
                (TokenType::CommentSingleLine(text[i + 3..e].to_string()), e)
            }
            _ if rest.starts_with(b"OBTW") => match text[i + 4..].find("TLDR") {
                Some(n) => (TokenType::CommentMultiLine(text[i + 4..i + 4 + n].to_string()), i + 4 + n + 4),
                None => {
                    r.unclosed = Some(i);
                    return r;
                }
            },
            _ if rest.starts_with(b"'Z") => (TokenType::BukkitSlotAccess, i + 2),
            _ if rest.starts_with(b"...") => (TokenType::Ellipsis, i + 3),
            _ if text[i..].starts_with('\u{2026}') => (TokenType::Ellipsis, i + '\u{2026}'.len_utf8()),
            b'"' => {
                let mut p = i + 1;
                let mut end = None;
                while p < b.len() {
                    match b[p] {
                        b':' if matches!(b.get(p + 1), Some(b'"' | b':')) => p += 2,
                        b'"' => {
                            end = Some(p);
                            break;
                        }
                        _ => p += 1,
                    }
                }
                let (inner, e) = match end {
                    Some(p) => (&text[i + 1..p], p + 1),
                    None => {
                        r.open_string = true;
                        (&text[i + 1..], b.len())
                    }
                };
                (TokenType::Value(TokenValue::String(inner.to_string())), e)
            }
            c if wordy(c) && !c.is_ascii_digit() => {
                // The longest keyword, or else the whole word as a name.
                let k = table.iter().filter_map(|(w, k)| keyword_at(b, i, w).map(|e| (e, w, k))).max_by_key(|x| x.0);
                match k {
                    Some((e, w, k)) => (
                        match &w[..] {
                            "WIN" => TokenType::Value(TokenValue::Boolean(true)),
                            "FAIL" => TokenType::Value(TokenValue::Boolean(false)),
                            "NOOB" => TokenType::Value(TokenValue::NOOB),
                            _ => TokenType::Keyword(k.clone()),
                        },
                        e,
                    ),
                    None => {
                        let e = word_end(b, i);
                        (TokenType::Identifier(text[i..e].to_string()), e)
                    }
                }
            }
            c => {
                let mut p = i;
                if c == b'-' || c == b'+' {
                    p += 1;
                }
                let mut digits = 0;
                let mut dot = false;
                while p < b.len() && (b[p].is_ascii_digit() || (b[p] == b'.' && !dot)) {
                    dot |= b[p] == b'.';
                    digits += b[p].is_ascii_digit() as usize;
                    p += 1;
                }
                let w = &text[i..p];
                if digits > 0 {
                    let v = if dot { w.parse().ok().map(NumberToken::Float) } else { whole(w).map(NumberToken::Int) };
                    match v {
                        Some(v) => (TokenType::Value(TokenValue::Number(v)), p),
                        None => {
                            r.too_large = Some(i);
                            return r;
                        }
                    }
                } else {
                    let n = text[i..].chars().next().unwrap().len_utf8();
                    (TokenType::Symbol(text[i..i + n].to_string()), i + n)
                }
            }
        };
        r.toks.push(MTok { ty, a: i, e });
        i = e;
    }
    r
}

fn whole(w: &str) -> Option<i32> {
    let (neg, d) = match w.as_bytes()[0] {
        b'-' => (true, &w[1..]),
        b'+' => (false, &w[1..]),
        _ => (false, w),
    };
    let mut v: i64 = 0;
    for c in d.bytes() {
        v = v * 10 + (c - b'0') as i64;
        if v > 1 << 33 {
            return None;
        }
    }
    let v = if neg { -v } else { v };
    i32::try_from(v).ok()
}

/// The question mark has two names in the library.
pub fn same_type(a: &TokenType, b: &TokenType) -> bool {
    let q = |t: &TokenType| matches!(t, TokenType::QuestionMark) || matches!(t, TokenType::Symbol(s) if s == "?");
    a == b || (q(a) && q(b))
}
fn is_comment(t: &TokenType) -> bool {
    matches!(t, TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_))
}

// ------------------------------------------------------------ meaning

/// What a tree says, without the names of its fields and without filler words: tokens in source
/// order, grouped by statement, block and operation.
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    L(String),
    G(String, Vec<S>),
}
impl S {
    pub fn show(&self) -> String {
        match self {
            S::L(s) => s.clone(),
            S::G(n, v) => format!("({} {})", n, v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")),
        }
    }
}

/// The statements of a text: tokens between separators, with continuations joined. None where the
/// scanner is silent.
pub fn statements(text: &str) -> Option<Vec<Vec<MTok>>> {
    let l = lex(text);
    if l.unclosed.is_some() || l.too_large.is_some() || l.open_string {
        return None;
    }
    Some(split(text, &l))
}
pub fn split(text: &str, l: &Lexed) -> Vec<Vec<MTok>> {
    let mut v: Vec<Vec<MTok>> = vec![];
    let mut cur: Vec<MTok> = vec![];
    let mut end = 0;
    let mut glued = false;
    for t in l.toks.iter().cloned() {
        if is_comment(&t.ty) {
            continue;
        }
        let broken = text[end..t.a].contains('\n') && !glued;
        if broken || t.ty == TokenType::Comma {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        }
        end = t.e;
        glued = t.ty == TokenType::Ellipsis;
        if !matches!(t.ty, TokenType::Comma | TokenType::Ellipsis) {
            cur.push(t);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

struct P<'a> {
    t: &'a [MTok],
    i: usize,
    /// the furthest token looked at
    seen: std::cell::Cell<usize>,
}
type R<X> = Option<X>;

fn leaf(t: &TokenType) -> S {
    S::L(format!("{:?}", t))
}
fn kw(k: &Keywords) -> TokenType {
    TokenType::Keyword(k.clone())
}
/// `SUM_OF` as it is called in the tree: SumOf; both are reduced to SUMOF.
fn bare(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_uppercase()
}
const OPS: &[&str] = &[
    "SUMOF", "DIFFOF", "PRODUKTOF", "QUOSHUNTOF", "MODOF", "BIGGROF", "SMALLROF", "BOTHSAEM", "BOTHOF", "EITHEROF", "WONOF", "DIFFRINT", "NOT",
    "ALLOF", "ANYOF", "SMOOSH", "UPPIN", "NERFIN", "NUMBR", "NUMBAR", "YARN", "TROOF", "BUKKIT", "NOOB",
];
fn op(out: &mut Vec<S>, t: &TokenType) {
    if let TokenType::Keyword(k) = t {
        out.push(S::L(format!("op {}", bare(&format!("{:?}", k)))));
    }
    out.push(leaf(t));
}

impl P<'_> {
    fn new(t: &[MTok]) -> P<'_> {
        P { t, i: 0, seen: std::cell::Cell::new(0) }
    }
    fn peek(&self) -> Option<&TokenType> {
        self.seen.set(self.seen.get().max(self.i));
        self.t.get(self.i).map(|t| &t.ty)
    }
    fn next(&mut self) -> R<TokenType> {
        let t = self.peek()?.clone();
        self.i += 1;
        Some(t)
    }
    fn at(&self, k: Keywords) -> bool {
        self.peek() == Some(&TokenType::Keyword(k))
    }
    fn eat(&mut self, k: Keywords) -> bool {
        let y = self.at(k);
        self.i += y as usize;
        y
    }
    fn need(&mut self, k: Keywords) -> R<()> {
        if self.eat(k) {
            Some(())
        } else {
            None
        }
    }
    fn end(&self) -> bool {
        self.i == self.t.len()
    }
    fn name(&mut self) -> R<S> {
        match self.next()? {
            t @ TokenType::Identifier(_) => Some(leaf(&t)),
            _ => None,
        }
    }
    /// name | SRS name
    fn ident(&mut self, out: &mut Vec<S>) -> R<()> {
        if self.eat(Keywords::SRS) {
            out.push(leaf(&kw(&Keywords::SRS)));
        }
        let n = self.name()?;
        out.push(n);
        Some(())
    }
    fn access(&mut self) -> R<S> {
        let mut v = vec![];
        self.ident(&mut v)?;
        while self.peek() == Some(&TokenType::BukkitSlotAccess) {
            self.i += 1;
            self.ident(&mut v)?;
        }
        Some(S::G("VariableAccess".into(), v))
    }
    fn at_access(&self) -> bool {
        matches!(self.peek(), Some(TokenType::Identifier(_))) || self.at(Keywords::SRS)
    }
    fn expr(&mut self) -> R<S> {
        use Keywords::*;
        if self.at_access() {
            return self.access();
        }
        let t = self.next()?;
        match &t {
            TokenType::Value(_) => Some(leaf(&t)),
            TokenType::Keyword(k) => {
                let mut v = vec![];
                op(&mut v, &t);
                match k {
                    SUM_OF | DIFF_OF | PRODUKT_OF | QUOSHUNT_OF | MOD_OF | BIGGR_OF | SMALLR_OF | BOTH_SAEM | BOTH_OF | EITHER_OF | WON_OF
                    | DIFFRINT => {
                        v.push(self.expr()?);
                        self.eat(AN);
                        v.push(self.expr()?);
                        Some(S::G("BinaryOperation".into(), v))
                    }
                    NOT => {
                        v.push(self.expr()?);
                        Some(S::G("UnaryOperation".into(), v))
                    }
                    ALL_OF | ANY_OF | SMOOSH => {
                        while !self.end() && !self.at(MKAY) {
                            v.push(self.expr()?);
                            self.eat(AN);
                        }
                        self.eat(MKAY);
                        Some(S::G("NaryOperation".into(), v))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
}

/// The meaning of one well-formed statement that is no block; None if it is not well-formed.
pub fn simple(t: &[MTok]) -> Option<S> {
    let mut p = P::new(t);
    let s = simple_in(&mut p)?;
    if p.end() {
        Some(s)
    } else {
        None
    }
}
/// Where a malformed statement (or the header of a loop or function) stops being the beginning
/// of a well-formed one: the index of the offending token, or the number of tokens if the end
/// comes too early. The language needs one token of look-ahead, so the furthest token looked at
/// is the one.
pub fn offence(t: &[MTok]) -> Option<usize> {
    let mut p = P::new(t);
    let ok = if t.first().map(|x| opens(&x.ty)) == Some(true) { head_in(&mut p).is_some() } else { simple_in(&mut p).is_some() };
    match ok {
        true if p.end() => None,
        true => Some(p.i),
        false => Some(p.seen.get()),
    }
}
fn simple_in(p: &mut P) -> Option<S> {
    use Keywords::*;
    let g = |n: &str, v: Vec<S>| S::G(n.into(), v);
    let s = if p.at_access() {
        let a = p.access()?;
        if p.eat(R) {
            let e = p.expr()?;
            g("VariableAssignment", vec![a, e])
        } else if p.eat(HAS_A) {
            let mut v = vec![a];
            p.ident(&mut v)?;
            p.need(ITZ)?;
            v.push(p.expr()?);
            g("BukkitSetSlot", v)
        } else {
            g("Expression", vec![a])
        }
    } else {
        let first = p.peek()?.clone();
        let mut v = vec![leaf(&first)];
        match first {
            TokenType::Keyword(I_HAS_A) => {
                p.i += 1;
                p.ident(&mut v)?;
                if p.eat(ITZ) {
                    match p.peek() {
                        Some(TokenType::Keyword(NUMBR | NUMBAR | YARN | TROOF | BUKKIT)) => {
                            let t = p.next()?;
                            op(&mut v, &t);
                        }
                        _ => v.push(p.expr()?),
                    }
                }
                g("IHasA", v)
            }
            TokenType::Keyword(VISIBLE) => {
                p.i += 1;
                while !p.end() && p.peek() != Some(&TokenType::ExclamationMark) {
                    v.push(p.expr()?);
                }
                if let Some(TokenType::ExclamationMark) = p.peek() {
                    p.i += 1;
                    v.push(leaf(&TokenType::ExclamationMark));
                }
                g("Visible", v)
            }
            TokenType::Keyword(GIMMEH) => {
                p.i += 1;
                v.push(p.access()?);
                g("Gimmeh", v)
            }
            TokenType::Keyword(FOUND_YR) => {
                p.i += 1;
                v.push(p.expr()?);
                g("FoundYr", v)
            }
            TokenType::Keyword(HAI) => {
                p.i += 1;
                while let Some(t) = p.next() {
                    if !is_noise(&format!("{:?}", t)) {
                        v.push(leaf(&t));
                    }
                }
                g("Hai", v)
            }
            TokenType::Keyword(KTHXBYE) => {
                p.i += 1;
                g("KThxBye", v)
            }
            TokenType::Keyword(GTFO) => {
                p.i += 1;
                g("Gtfo", v)
            }
            TokenType::Keyword(I_IZ) => {
                p.i += 1;
                v.push(p.access()?);
                if p.eat(YR) {
                    v.push(p.expr()?);
                    // A separator may be left over at the end, as in other lists.
                    while p.eat(AN) && !p.at(MKAY) {
                        p.need(YR)?;
                        v.push(p.expr()?);
                    }
                }
                p.need(MKAY)?;
                g("IIz", v)
            }
            _ => g("Expression", vec![p.expr()?]),
        }
    };
    Some(s)
}

pub fn opens(t: &TokenType) -> bool {
    use Keywords::*;
    matches!(t, TokenType::Keyword(IM_IN_YR | HOW_IZ_I | O_RLY | WTF))
}

pub fn stops(t: &TokenType) -> bool {
    use Keywords::*;
    matches!(t, TokenType::Keyword(IF_U_SAY_SO | IM_OUTTA_YR | OIC | YA_RLY | NO_WAI | MEBBE | OMG | OMGWTF))
}

pub enum Head {
    /// statements that stand before the block on the header's line
    Loop(Vec<S>, Vec<S>),
    Fun(Vec<S>, Vec<S>),
    If(Vec<S>, Vec<S>),
    Switch(Vec<S>, Vec<S>),
}

/// A line that opens a block.
pub fn header(text: &str) -> Option<Head> {
    use Keywords::*;
    let st = statements(text)?;
    let (last, before) = st.split_last()?;
    let before: Vec<S> = before.iter().map(|t| simple(t)).collect::<Option<_>>()?;
    let mut p = P::new(last);
    let (k, v) = head_in(&mut p)?;
    if !p.end() {
        return None;
    }
    Some(match k {
        IM_IN_YR => Head::Loop(before, v),
        HOW_IZ_I => Head::Fun(before, v),
        O_RLY => Head::If(before, v),
        _ => Head::Switch(before, v),
    })
}
fn head_in(p: &mut P) -> Option<(Keywords, Vec<S>)> {
    use Keywords::*;
    let first = p.next()?;
    let mut v = vec![leaf(&first)];
    let TokenType::Keyword(k) = first.clone() else { return None };
    match first {
        TokenType::Keyword(IM_IN_YR) => {
            v.push(p.name()?);
            if p.at(UPPIN) || p.at(NERFIN) {
                let t = p.next()?;
                op(&mut v, &t);
                p.need(YR)?;
                v.push(p.access()?);
            }
            if p.eat(TIL) {
                v.push(S::G("TIL".into(), vec![p.expr()?]));
            } else if p.eat(WILE) {
                v.push(S::G("WILE".into(), vec![p.expr()?]));
            }
        }
        TokenType::Keyword(HOW_IZ_I) => {
            p.ident(&mut v)?;
            if p.eat(YR) {
                p.ident(&mut v)?;
                // A separator may be left over at the end, as in other lists.
                while p.eat(AN) && !p.end() {
                    p.need(YR)?;
                    p.ident(&mut v)?;
                }
            }
        }
        TokenType::Keyword(O_RLY | WTF) => {
            match p.next()? {
                TokenType::QuestionMark => {}
                TokenType::Symbol(s) if s == "?" => {}
                _ => return None,
            }
        }
        _ => return None,
    }
    Some((k, v))
}

/// A line that starts a branch: its word and, if it has one, its expression.
pub fn branch(text: &str) -> Option<(Keywords, Vec<S>)> {
    use Keywords::*;
    let st = statements(text)?;
    let [t] = &st[..] else { return None };
    let mut p = P::new(t);
    let first = p.next()?;
    let mut v = vec![leaf(&first)];
    let TokenType::Keyword(k) = first else { return None };
    match k {
        YA_RLY | NO_WAI | OMGWTF => {}
        MEBBE | OMG => v.push(p.expr()?),
        _ => return None,
    }
    if p.end() {
        Some((k, v))
    } else {
        None
    }
}

/// A line that closes a block: its word and, for loops, the label.
pub fn closing(text: &str) -> Option<(Keywords, Vec<S>)> {
    use Keywords::*;
    let st = statements(text)?;
    let [t] = &st[..] else { return None };
    let mut p = P::new(t);
    let TokenType::Keyword(k) = p.next()? else { return None };
    let mut v = vec![];
    match k {
        OIC | IF_U_SAY_SO => {}
        IM_OUTTA_YR => v.push(p.name()?),
        _ => return None,
    }
    if p.end() {
        Some((k, v))
    } else {
        None
    }
}

const NOISE: &[&str] = &[
    "Keyword(AN)", "Keyword(MKAY)", "Keyword(YR)", "Keyword(ITZ)", "Keyword(R)", "Keyword(HAS_A)", "BukkitSlotAccess", "Keyword(OIC)",
    "Keyword(IF_U_SAY_SO)", "Keyword(IM_OUTTA_YR)", "Symbol(\"?\")", "QuestionMark", "Keyword(TIL)", "Keyword(WILE)",
];
fn is_noise(s: &str) -> bool {
    NOISE.contains(&s)
}

/// The same view of a tree that the library built. Statements whose tokens all stand on `wild`
/// lines are left out, at every depth.
pub fn view(nodes: &[T], wild: &dyn Fn(i32) -> bool) -> Vec<S> {
    nodes.iter().filter_map(|n| item(n, wild)).collect()
}
/// Without the enum variant that only wraps a struct of the same name.
fn bared(t: &T) -> &T {
    match t {
        T::Node(n, v) if v.len() == 1 && v[0].0.is_empty() && matches!(&v[0].1, T::Node(m, _) if m == n) => bared(&v[0].1),
        t => t,
    }
}
fn item(n: &T, wild: &dyn Fn(i32) -> bool) -> Option<S> {
    let l = n.lines();
    if !l.is_empty() && l.iter().all(|x| wild(*x)) {
        return None;
    }
    let mut v = vec![];
    match bared(n) {
        T::Node(_, f) => f.iter().for_each(|x| parts(&x.1, wild, &mut v)),
        t => parts(t, wild, &mut v),
    }
    v.sort_by_key(|x: &(_, _)| x.0);
    Some(S::G(n.name().to_string(), v.into_iter().map(|x| x.1).collect()))
}
const GROUPS: &[&str] = &["BinaryOperation", "UnaryOperation", "NaryOperation", "VariableAccess", "TIL", "WILE"];

fn parts(t: &T, wild: &dyn Fn(i32) -> bool, out: &mut Vec<((i32, i32, u8), S)>) {
    match bared(t) {
        T::Tok { sl, sc, ty, .. } => {
            if !is_noise(ty) {
                out.push(((*sl, *sc, 1), S::L(ty.clone())));
            }
        }
        T::Atom(_) => {}
        T::List(v) => v.iter().for_each(|x| parts(x, wild, out)),
        T::Node(n, v) if n == "ASTBlock" => {
            let l: Vec<S> = v.iter().flat_map(|x| if let T::List(l) = &x.1 { view(l, wild) } else { vec![] }).collect();
            if !l.is_empty() {
                out.push((first(t), S::G("block".into(), l)));
            }
        }
        T::Node(n, v) if GROUPS.contains(&&n[..]) => {
            let mut o = vec![];
            v.iter().for_each(|x| parts(&x.1, wild, &mut o));
            o.sort_by_key(|x| x.0);
            out.push((first(t), S::G(n.clone(), o.into_iter().map(|x| x.1).collect())));
        }
        T::Node(n, v) => {
            if OPS.contains(&&bare(n)[..]) && v.len() == 1 {
                if let T::Tok { sl, sc, .. } = &v[0].1 {
                    out.push(((*sl, *sc, 0), S::L(format!("op {}", bare(n)))));
                }
            }
            v.iter().for_each(|x| parts(&x.1, wild, out));
        }
    }
}
fn first(t: &T) -> (i32, i32, u8) {
    let mut m = (i32::MAX, i32::MAX, 0);
    for x in t.toks() {
        if let T::Tok { sl, sc, .. } = x {
            m = m.min((*sl, *sc, 0));
        }
    }
    m
}

/// The parts of a statement must not be entangled: each part of a node covers a stretch of the
/// source of its own, lists are in source order, and what is called left stands left of what is
/// called right. Returns what is wrong.
pub fn untidy(t: &T, wild: &dyn Fn(i32) -> bool) -> Option<String> {
    let l = t.lines();
    if l.iter().any(|x| wild(*x)) && l.iter().all(|x| wild(*x)) {
        return None;
    }
    match t {
        T::Tok { .. } | T::Atom(_) => None,
        T::List(v) => {
            let s: Vec<_> = v.iter().filter_map(span).collect();
            if s.windows(2).any(|w| w[0].1 > w[1].0) {
                return Some(format!("a list of {} parts is out of source order, at line {}", v.len(), s[0].0 .0));
            }
            v.iter().find_map(|x| untidy(x, wild))
        }
        T::Node(n, v) => {
            let mut flat: Vec<(&str, &T)> = vec![];
            for (f, x) in v {
                match x {
                    T::List(l) => flat.extend(l.iter().map(|y| (&f[..], y))),
                    // an Option
                    T::Node(m, w) if m == "Some" && w.len() == 1 => match &w[0].1 {
                        T::List(l) => flat.extend(l.iter().map(|y| (&f[..], y))),
                        y => flat.push((f, y)),
                    },
                    x => flat.push((f, x)),
                }
            }
            let mut s: Vec<(&str, (Pos, Pos))> = flat.iter().filter_map(|(f, x)| span(x).map(|s| (*f, s))).collect();
            for a in &s {
                for b in &s {
                    let order = (a.0 == "left" && b.0 == "right") || (!a.0.starts_with("end_") && b.0.starts_with("end_"));
                    if order && a.1 .1 > b.1 .0 {
                        return Some(format!("{} of {} stands behind {}, at line {}", a.0, n, b.0, a.1 .0 .0));
                    }
                }
            }
            s.sort_by_key(|x| x.1);
            if let Some(w) = s.windows(2).find(|w| w[0].1 .1 > w[1].1 .0) {
                return Some(format!("{} and {} of {} are entangled, at line {}", w[0].0, w[1].0, n, w[0].1 .0 .0));
            }
            v.iter().find_map(|x| untidy(&x.1, wild))
        }
    }
}
type Pos = (i32, i32);
fn span(t: &T) -> Option<(Pos, Pos)> {
    let mut a = (i32::MAX, i32::MAX);
    let mut b = (i32::MIN, i32::MIN);
    for x in t.toks() {
        if let T::Tok { sl, sc, el, ec, .. } = x {
            a = a.min((*sl, *sc));
            b = b.max((*el, *ec));
        }
    }
    if a.0 == i32::MAX {
        None
    } else {
        Some((a, b))
    }
}
