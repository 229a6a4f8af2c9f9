//! Calls into the code under test and the oracles shared by the checks.
use crate::dbgtree::{self, T};
use crate::gen::{height, Tag};
use crate::sim::{self, call, die_violation, stat, St};
use crate::sys;
use lolcode_ast::lexer::{Keywords, Token, TokenError, TokenType};
use lolcode_ast::parser::ASTBlock;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let a: String = s.chars().take(n).collect();
        format!("{}...", a)
    }
}

/// Steps a call may take: a wide margin over linear, and over scanning the rest of the input once
/// per byte (which the lexer does on a run of digits that fits no number).
pub fn budget(bytes: usize) -> u64 {
    let n = bytes as u64;
    3_000_000 + 8_000 * n + 100 * n * n
}

pub fn tokenize(text: &str) -> Result<Result<Vec<Token>, TokenError>, String> {
    let s = sim::given(|| text.to_string());
    sim::set_budget(budget(text.len()));
    let r = call(move || lolcode_ast::tokenize(s));
    sim::no_budget();
    r
}
pub fn parse(v: Vec<Token>) -> Result<ASTBlock, String> {
    sim::set_budget(budget(8 * v.len()));
    let r = call(move || lolcode_ast::parse(v));
    sim::no_budget();
    stat(St::parses, 1);
    r
}
pub fn both(text: &str) -> Result<Result<ASTBlock, TokenError>, String> {
    let s = sim::given(|| text.to_string());
    sim::set_budget(budget(text.len()));
    let r = call(move || lolcode_ast::tokenize_and_parse(s));
    sim::no_budget();
    stat(St::parses, 1);
    r
}

pub fn die_panic(m: &str) -> ! {
    die_violation("panic", m)
}

pub fn toks(text: &str) -> Result<Vec<Token>, TokenError> {
    match tokenize(text) {
        Ok(r) => r,
        Err(p) => die_panic(&format!("tokenize panicked on {:?}: {}", clip(text, 300), p)),
    }
}
pub fn ast_of(v: Vec<Token>, what: &str) -> ASTBlock {
    match parse(v) {
        Ok(b) => b,
        Err(p) => die_panic(&format!("parse panicked on {}: {}", clip(what, 300), p)),
    }
}
/// The library's own Debug text of a tree, read back.
pub fn tree_of(b: &ASTBlock) -> T {
    let s = match catch_unwind(AssertUnwindSafe(|| format!("{:?}", b))) {
        Ok(s) => s,
        Err(_) => die_panic("printing a tree panicked"),
    };
    match dbgtree::parse(&s) {
        Some(t) => t,
        None => harness(&format!("cannot read tree text {}", clip(&s, 2000))),
    }
}
pub fn root(t: &T) -> Vec<T> {
    if let T::Node(n, v) = t {
        if n == "ASTBlock" {
            if let Some((_, T::List(l))) = v.first() {
                return l.clone();
            }
        }
    }
    harness("the root of the tree text is no ASTBlock")
}
pub fn harness(m: &str) -> ! {
    sim::set_armed(false);
    sim::put_msg(m);
    sim::page().status.store(3, SeqCst);
    unsafe { sys::_exit(0) }
}
pub fn nodes(text: &str) -> Result<Vec<T>, String> {
    match toks(text) {
        Err(e) => Err(format!("{:?}", e)),
        Ok(v) => Ok(root(&tree_of(&ast_of(v, &format!("{:?}", text))))),
    }
}
/// The nodes of a piece of text that stands `above` lines down.
pub fn nodes_at(above: usize, text: &str) -> Result<Vec<T>, String> {
    let mut s = "\n".repeat(above);
    s.push_str(text);
    nodes(&s)
}
pub fn tok_nodes(v: &[Token], what: &str) -> Vec<T> {
    root(&tree_of(&ast_of(sim::given(|| v.to_vec()), what)))
}
pub fn show(t: &T) -> String {
    clip(&format!("{:?}", t).replace("Tok ", "").replace("\\\"", "'"), 600)
}
pub fn first_diff(a: &[T], b: &[T]) -> String {
    let n = a.len().min(b.len());
    for i in 0..n {
        if a[i] != b[i] {
            return format!("node {} is {} but should be {}", i, show(&a[i]), show(&b[i]));
        }
    }
    if a.len() > b.len() {
        format!("{} nodes instead of {}; extra: {}", a.len(), b.len(), show(&a[n]))
    } else {
        format!("{} nodes instead of {}; missing: {}", a.len(), b.len(), b.get(n).map(show).unwrap_or_default())
    }
}

// ------------------------------------------------------------ outcomes of single calls

pub fn dump_tokens(v: &[Token]) -> String {
    let mut s = String::new();
    for t in v {
        let (a, b) = (&t.range.0, &t.range.1);
        s.push_str(&format!(
            "{}.{}.{}.{}-{}.{}.{}.{} {:?}\n",
            a.line, a.column, a.bytes, a.chars, b.line, b.column, b.bytes, b.chars, t.token_type
        ));
    }
    s
}
pub fn dump_err(e: &TokenError) -> String {
    match e {
        TokenError::UnclosedMultilineComment(r) => format!(
            "error unclosed {}.{}.{}.{}-{}.{}.{}.{}",
            r.0.line, r.0.column, r.0.bytes, r.0.chars, r.1.line, r.1.column, r.1.bytes, r.1.chars
        ),
        #[allow(unreachable_patterns)]
        e => format!("error {:?}", e),
    }
}
/// Everything a caller can see of a tree. Listing, walking and releasing it are calls like any other.
pub fn dump_ast(b: ASTBlock) -> Result<String, String> {
    let mut s = match catch_unwind(AssertUnwindSafe(|| format!("{:?}\n", b))) {
        Ok(s) => s,
        Err(_) => return Err("while printing a tree".into()),
    };
    let walks = call(|| {
        b.0.iter()
            .filter_map(|n| match n {
                lolcode_ast::parser::statements::Node::Expression(e) => Some(e.tokens().cloned().collect::<Vec<Token>>()),
                _ => None,
            })
            .collect::<Vec<_>>()
    })?;
    for v in &walks {
        s.push_str(&dump_tokens(v));
    }
    let errors = call(|| b.iter_errors().collect::<Vec<_>>())?;
    for e in &errors {
        s.push_str(&format!("{:?}\n", e));
    }
    call(move || drop((walks, errors, b)))?;
    Ok(s)
}
/// What a caller sees of one call: its result, its error, or its panic.
pub fn outcome(kind: &str, text: &str) -> String {
    let r = (|| -> Result<String, String> {
        Ok(match kind {
            "tok" => match tokenize(text)? {
                Ok(v) => format!("tokens {}\n{}", v.len(), dump_tokens(&v)),
                Err(e) => dump_err(&e),
            },
            "parse" => match tokenize(text)? {
                Ok(v) => dump_ast(parse(v)?)?,
                Err(e) => dump_err(&e),
            },
            _ => match both(text)? {
                Ok(b) => dump_ast(b)?,
                Err(e) => dump_err(&e),
            },
        })
    })();
    match r {
        Ok(s) => s,
        Err(p) => format!("panic {}", p),
    }
}

pub enum Died {
    Oom,
    Signal(i32),
}
/// Runs `f` in a freshly forked process and returns the text it produced.
pub fn in_fork(f: impl FnOnce() -> String) -> Result<String, Died> {
    let p = sim::page();
    p.buf_len.store(0, SeqCst);
    stat(St::refs_forked, 1);
    let pid = unsafe { sys::fork() };
    if pid < 0 {
        harness("fork failed");
    }
    if pid == 0 {
        unsafe { sys::prctl(1, 9, 0, 0, 0) };
        let s = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(s) => s,
            Err(_) => harness("harness panic in a forked call"),
        };
        sim::set_armed(false);
        let b = s.as_bytes();
        let n = b.len().min(sim::BUF_CAP);
        p.buf[..n].copy_from_slice(&b[..n]);
        p.buf_len.store(n, SeqCst);
        unsafe { sys::_exit(0) }
    }
    let mut st = 0i32;
    while unsafe { sys::waitpid(pid, &mut st, 0) } != pid {}
    if st & 0x7f != 0 {
        return Err(Died::Signal(st & 0x7f));
    }
    match p.status.load(SeqCst) {
        2 | 3 => unsafe { sys::_exit(0) },
        4 => {
            p.status.store(0, SeqCst);
            return Err(Died::Oom);
        }
        _ => {}
    }
    if st != 0 {
        return Err(Died::Signal(1000 + st));
    }
    Ok(String::from_utf8_lossy(&p.buf[..p.buf_len.load(SeqCst)]).into_owned())
}
/// The outcome of the call alone in a fresh process, under the plain environment.
pub fn reference(kind: &str, text: &str) -> String {
    match in_fork(|| outcome(kind, text)) {
        Ok(s) => s,
        Err(Died::Oom) => die_violation("memory-runaway", &format!("{} of {:?} alone exhausts memory", kind, clip(text, 300))),
        Err(Died::Signal(n)) => {
            die_violation("crash", &format!("signal {} in {} of {:?} alone", n, kind, clip(text, 300)))
        }
    }
}
pub fn line_diff(got: &str, want: &str) -> String {
    for (i, (a, b)) in got.lines().zip(want.lines()).enumerate() {
        if a != b {
            let k = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count().saturating_sub(40);
            let cut = |s: &str| clip(&s.chars().skip(k).collect::<String>(), 200);
            return format!("line {}: got ..{} expected ..{}", i, cut(a), cut(b));
        }
    }
    format!("{} lines instead of {}", got.lines().count(), want.lines().count())
}

// ------------------------------------------------------------ text structure

pub const OPENERS: &[&str] = &["HOW IZ I", "IM IN YR", "O RLY", "WTF"];

/// The words of a keyword may be separated by any amount of blanks.
pub fn single_blanks(l: &str) -> String {
    let mut o = String::with_capacity(l.len());
    for c in l.chars() {
        let c = if c == '\t' { ' ' } else { c };
        if c != ' ' || !o.ends_with(' ') {
            o.push(c);
        }
    }
    o
}

/// True if the (damaged) line can neither open a block nor reach into the next line.
pub fn neutral(line: &str) -> bool {
    let l = line.strip_suffix('\n').unwrap_or(line);
    let l = &single_blanks(l)[..];
    if l.contains('\n') || l.contains("OBTW") || l.contains("...") || l.contains('\u{2026}') {
        return false;
    }
    if OPENERS.iter().any(|w| l.contains(w)) {
        return false;
    }
    let q = l.matches('"').count();
    if q > 0 && (q % 2 == 1 || l.contains(':') || l.contains("BTW")) {
        return false;
    }
    true
}

/// parse(whole) must be the concatenation of parse(chunk) over chunks at their own place.
/// Returns the nodes of the last chunk.
pub fn chunk_law(text: &str, chunks: &[(usize, usize)], what: &str) -> Vec<T> {
    let whole = nodes(text);
    let mut want: Vec<T> = vec![];
    let mut bad = false;
    let mut last = vec![];
    let mut above = 0;
    let mut bounds = vec![];
    for &(a, b) in chunks {
        match nodes_at(above, &text[a..b]) {
            Ok(v) => {
                last = v.clone();
                bounds.push((want.len(), a, b));
                want.extend(v)
            }
            Err(_) => {
                bad = true;
                last = vec![];
            }
        }
        above += text[a..b].matches('\n').count();
        stat(St::units_checked, 1);
    }
    match whole {
        Err(e) => {
            stat(St::unclosed_comment_errors, 1);
            if !bad {
                die_violation("composition", &format!("{}: the whole text is rejected ({}) but none of its parts is; text {:?}", what, e, clip(text, 500)));
            }
        }
        Ok(w) => {
            if bad {
                die_violation("composition", &format!("{}: a part is rejected by the lexer but the whole is not; text {:?}", what, clip(text, 500)));
            }
            sim::trace_add(crate::rng::hash_bytes(format!("{:?}", w).as_bytes()));
            stat(St::nodes_seen, w.len() as u64);
            if w != want {
                let i = w.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
                let c = bounds.iter().rev().find(|x| x.0 <= i).map(|x| &text[x.1..x.2]).unwrap_or("");
                die_violation(
                    "composition",
                    &format!("{}: {} (piece {:?}; text {:?})", what, first_diff(&w, &want), clip(c, 120), clip(text, 700)),
                );
            }
        }
    }
    last
}

/// Cuts `text` into pieces that are parsed independently: intact units (given as byte ranges),
/// neutral lines, and from the first other line on everything as one last piece.
pub fn chunks_of(text: &str, intact: &[(usize, usize)]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = 0;
    while p < text.len() {
        if let Some(&(_, e)) = intact.iter().find(|x| x.0 == p && x.1 > p) {
            v.push((p, e));
            p = e;
            continue;
        }
        let e = text[p..].find('\n').map(|i| p + i + 1).unwrap_or(text.len());
        if neutral(&text[p..e]) {
            v.push((p, e));
            p = e;
        } else {
            stat(St::tails_exempt, 1);
            v.push((p, text.len()));
            break;
        }
    }
    v
}

// ------------------------------------------------------------ nested structure

#[derive(Clone, Debug)]
pub struct L {
    pub tag: Tag,
    pub text: String,
    /// Of a rejected block: how many lines its header takes, and how many stand before the line at
    /// which it was rejected.
    pub cut: Option<(usize, usize)>,
}
impl L {
    pub fn new(tag: Tag, text: &str) -> L {
        L { tag, text: text.to_string(), cut: None }
    }
}
fn is_leafy(t: Tag) -> bool {
    matches!(t, Tag::Leaf | Tag::Comma | Tag::Blank | Tag::Comment)
}
pub fn join(lines: &[L]) -> String {
    lines.iter().map(|l| format!("{}\n", l.text)).collect()
}

/// Every statement line, at whatever depth, yields the nodes it yields alone at its place, and
/// nothing else changes in the tree. Returns (tree text read back, expected errors in order).
pub fn structure_law(lines: &[L], what: &str) -> (ASTBlock, Vec<T>, bool) {
    let text = join(lines);
    let mut marker = String::new();
    let mut start = vec![];
    let mut iso: Vec<Option<Vec<T>>> = vec![];
    let mut depth = 0usize;
    let mut depths = vec![];
    let mut above = 0;
    let mut errors = vec![];
    for l in lines {
        start.push(above as i32 + 1);
        let h = height(&l.text);
        if l.tag == Tag::Close {
            depth = depth.saturating_sub(1);
        }
        depths.push(depth);
        if l.tag == Tag::Open {
            depth += 1;
        }
        if is_leafy(l.tag) {
            let v = match nodes_at(above, &format!("{}\n", l.text)) {
                Ok(v) => v,
                Err(e) => harness(&format!("leaf {:?} is rejected by the lexer: {}", l.text, e)),
            };
            for n in &v {
                if let T::Node(name, f) = n {
                    if name == "ASTError" {
                        errors.push(f[0].1.clone());
                        stat(St::error_nodes_seen, 1);
                    }
                }
            }
            if !v.is_empty() {
                marker.push_str("GTFO");
            }
            marker.push_str(&"\n".repeat(h));
            iso.push(Some(v));
            stat(St::leaves_checked, 1);
        } else {
            marker.push_str(&l.text);
            marker.push('\n');
            iso.push(None);
        }
        above += h;
    }
    let mt = match nodes(&marker) {
        Ok(v) => v,
        Err(e) => harness(&format!("skeleton rejected by the lexer: {}", e)),
    };
    let mut seen = vec![0usize; lines.len()];
    let want = fill(&mt, 0, &mut |line, d| {
        let k = start.iter().position(|s| *s == line)?;
        let v = iso[k].as_ref()?;
        if v.is_empty() {
            return None;
        }
        seen[k] += 1;
        if d != depths[k] {
            die_violation(
                "misplaced",
                &format!("{}: the statement on line {} stands in a block at depth {} instead of {}; text {:?}", what, line, d, depths[k], clip(&marker, 600)),
            );
        }
        Some(v.clone())
    });
    for (k, l) in lines.iter().enumerate() {
        if let Some(v) = &iso[k] {
            if !v.is_empty() && seen[k] != 1 {
                die_violation(
                    "lost-statement",
                    &format!("{}: the statement on line {} occurs {} times in the tree; text {:?} (line stands for {:?})", what, start[k], seen[k], clip(&marker, 600), clip(&l.text, 100)),
                );
            }
        }
    }
    let ast = match toks(&text) {
        Ok(v) => ast_of(v, &format!("{:?}", text)),
        Err(e) => die_violation("composition", &format!("{}: text rejected by the lexer ({:?}) although none of its lines is: {:?}", what, e, clip(&text, 500))),
    };
    let got = root(&tree_of(&ast));
    sim::trace_add(crate::rng::hash_bytes(format!("{:?}", got).as_bytes()));
    stat(St::skeletons_checked, 1);
    stat(St::nodes_seen, got.len() as u64);
    if got != want {
        die_violation("composition", &format!("{}: {} (text {:?})", what, first_diff(&got, &want), clip(&text, 900)));
    }
    let mut skeleton_errors = vec![];
    mt.iter().for_each(|t| t.errors(&mut skeleton_errors));
    (ast, errors, skeleton_errors.is_empty())
}

fn marker_line(t: &T) -> Option<i32> {
    let v = t.toks();
    if let [T::Tok { sl, ty, .. }] = v[..] {
        if ty == "Keyword(GTFO)" {
            return Some(*sl);
        }
    }
    None
}
fn fill(l: &[T], d: usize, f: &mut dyn FnMut(i32, usize) -> Option<Vec<T>>) -> Vec<T> {
    let mut o = vec![];
    for t in l {
        if let Some(v) = marker_line(t).and_then(|n| f(n, d)) {
            o.extend(v);
        } else {
            o.push(fill_t(t, d, f));
        }
    }
    o
}
fn fill_t(t: &T, d: usize, f: &mut dyn FnMut(i32, usize) -> Option<Vec<T>>) -> T {
    match t {
        T::Node(n, v) if n == "ASTBlock" => T::Node(
            n.clone(),
            v.iter()
                .map(|(k, x)| match x {
                    T::List(l) => (k.clone(), T::List(fill(l, d + 1, f))),
                    o => (k.clone(), fill_t(o, d, f)),
                })
                .collect(),
        ),
        T::Node(n, v) => T::Node(n.clone(), v.iter().map(|(k, x)| (k.clone(), fill_t(x, d, f))).collect()),
        T::List(v) => T::List(v.iter().map(|x| fill_t(x, d, f)).collect()),
        o => o.clone(),
    }
}

// ------------------------------------------------------------ token lists

pub fn is_opener(t: &Token) -> bool {
    matches!(
        t.token_type,
        TokenType::Keyword(Keywords::HOW_IZ_I | Keywords::IM_IN_YR | Keywords::O_RLY | Keywords::WTF)
    )
}

/// End of the statement that starts at `i` (separators before it are skipped and included).
pub fn segment_end(v: &[Token], mut i: usize) -> (usize, usize) {
    while i < v.len() && matches!(v[i].token_type, TokenType::Comma | TokenType::Ellipsis) {
        i += 1;
    }
    let first = i;
    if i == v.len() {
        return (first, i);
    }
    let mut line = v[i].range.0.line;
    while i < v.len() {
        let t = &v[i];
        if t.range.0.line != line {
            break;
        }
        match t.token_type {
            TokenType::Comma => break,
            TokenType::Ellipsis => {
                i += 1;
                if let Some(n) = v.get(i) {
                    line = n.range.0.line;
                }
            }
            _ => {
                line = t.range.1.line.max(line);
                i += 1;
            }
        }
    }
    (first, i)
}

/// Gives every token a unique column, so that it can be recognised in the tree.
pub fn label(v: &[Token]) -> Vec<Token> {
    let mut o = v.to_vec();
    for (i, t) in o.iter_mut().enumerate() {
        t.range.0.column = i as i32 + 1;
        t.range.1.column = i as i32 + 1;
    }
    o
}

pub fn is_comment(t: &Token) -> bool {
    matches!(t.token_type, TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_))
}
/// Comments belong to no statement.
pub fn without_comments(v: &[Token]) -> Vec<Token> {
    v.iter().filter(|t| !is_comment(t)).cloned().collect()
}

/// Conservation, order and composition over a delivered token list. `intact(i)` gives the end of
/// an undamaged block that starts at token `i` of the list without its comments.
pub fn token_law(v: &[Token], intact: &dyn Fn(usize) -> Option<usize>, what: &str) {
    let raw = v;
    let v = label(v);
    let desc = || clip(&v.iter().map(|t| format!("{}:{:?}", t.range.0.line, t.token_type)).collect::<Vec<_>>().join(" "), 900);
    let got = root(&tree_of(&ast_of(sim::given(|| v.clone()), what)));
    sim::trace_add(crate::rng::hash_bytes(format!("{:?}", got).as_bytes()));
    // Conservation: each token of the tree was delivered, is unaltered and occurs once.
    let mut used = vec![false; v.len()];
    for n in &got {
        for t in n.toks() {
            if let T::Tok { sl, sc, ty, .. } = t {
                let k = *sc as usize;
                if k == 0 || k > v.len() {
                    die_violation("foreign-token", &format!("{}: {} was never delivered; list {}", what, show(t), desc()));
                }
                let d = &v[k - 1];
                if d.range.0.line != *sl || format!("{:?}", d.token_type) != *ty {
                    die_violation("altered-token", &format!("{}: delivered {:?}, in the tree {}; list {}", what, d, show(t), desc()));
                }
                if used[k - 1] {
                    die_violation("duplicated-token", &format!("{}: token {} {:?} occurs twice in the tree; list {}", what, k, d.token_type, desc()));
                }
                used[k - 1] = true;
                stat(St::tokens_accounted, 1);
            }
        }
    }
    // Order among siblings, in every block.
    let mut lists: Vec<&Vec<T>> = vec![&got];
    got.iter().for_each(|t| t.blocks(&mut lists));
    for l in lists {
        stat(St::lists_checked, 1);
        let mut hi = 0;
        for n in l.iter() {
            let ids: Vec<i32> = n.toks().iter().map(|t| if let T::Tok { sc, .. } = t { *sc } else { 0 }).collect();
            let (a, b) = (ids.iter().min().copied().unwrap_or(0), ids.iter().max().copied().unwrap_or(0));
            if a <= hi {
                die_violation("order", &format!("{}: {} stands after token {}; list {}", what, show(n), hi, desc()));
            }
            hi = b;
        }
    }
    compose(&without_comments(&v), &got, intact, what);
    // Once more as delivered: without labels, repeated tokens are equal to each other.
    let got = root(&tree_of(&ast_of(sim::given(|| raw.to_vec()), what)));
    compose(&without_comments(raw), &got, intact, what);
}

fn compose(v: &[Token], got: &[T], intact: &dyn Fn(usize) -> Option<usize>, what: &str) {
    let desc = || clip(&v.iter().map(|t| format!("{}:{:?}", t.range.0.line, t.token_type)).collect::<Vec<_>>().join(" "), 900);
    // Composition.
    let mut want = vec![];
    let mut i = 0;
    let mut pieces = vec![];
    while i < v.len() {
        let (first, mut e) = segment_end(v, i);
        if first < v.len() {
            if let Some(x) = intact(first) {
                // The block must end where a statement ends.
                let mut p = first;
                while p < x {
                    p = segment_end(v, p).1;
                }
                if p == x {
                    e = x;
                } else {
                    e = v.len();
                }
            } else if is_opener(&v[first]) {
                e = v.len();
                stat(St::tails_exempt, 1);
            }
            stat(St::statements_delivered, 1);
            let n = tok_nodes(&v[first..e], what);
            if n.is_empty() {
                die_violation("vanished", &format!("{}: the statement of tokens {}..{} yields nothing when delivered alone; list {}", what, first + 1, e, desc()));
            }
            pieces.push((want.len(), first, e));
            want.extend(n);
        }
        i = e;
    }
    if got != want {
        let k = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
        let p = pieces.iter().rev().find(|x| x.0 <= k).map(|x| format!("tokens {}..{}", x.1 + 1, x.2)).unwrap_or_default();
        die_violation("composition", &format!("{}: {} ({}; list {})", what, first_diff(got, &want), p, desc()));
    }
}
