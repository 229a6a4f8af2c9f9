//! Per property: how a seed becomes a scenario, and how a scenario is executed and judged.
use crate::cost;
use crate::dbgtree::T;
use crate::disk::{self, Disk};
use crate::exec::*;
use crate::gen::{self, Doc, Line, Mix, Tag, Unit};
use crate::lang;
use crate::rng::{hash_bytes, mix, Rng};
use crate::scn::{Op, Scn};
use crate::sim::{self, call, die_violation, stat, AllocFault, Env, St};
use lolcode_ast::lexer::{Keywords, NumberToken, Token, TokenType, TokenValue};
use lolcode_ast::parser::expression::ASTExpression;
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::ASTBlock;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];

pub fn draw(prop: &str, seed: u64) -> Scn {
    let mut r = Rng::new(mix(seed) ^ hash_bytes(prop.as_bytes()));
    let mut s = Scn::new(prop, seed);
    match prop {
        "C01" => draw_c01(&mut r, &mut s),
        "C02" => draw_c02(&mut r, &mut s),
        "C03" => draw_c03(&mut r, &mut s),
        "C04" => draw_c04(&mut r, &mut s),
        "C05" => draw_c05(&mut r, &mut s),
        "C06" => draw_c06(&mut r, &mut s),
        "C07" => draw_c07(&mut r, &mut s),
        "C08" => draw_c08(&mut r, &mut s),
        "C09" => draw_c09(&mut r, &mut s),
        "C10" => draw_c10(&mut r, &mut s),
        "C11" => draw_c11(&mut r, &mut s),
        "C12" => draw_lines(&mut r, &mut s, true),
        "C13" => lang::draw_c13(&mut r, &mut s),
        "C14" => lang::draw_c14(&mut r, &mut s),
        "C15" => lang::draw_c15(&mut r, &mut s),
        "C16" => lang::draw_c16(&mut r, &mut s),
        "C17" => cost::draw_c17(&mut r, &mut s),
        "C18" => lang::draw_c18(&mut r, &mut s),
        "C19" => lang::draw_c19(&mut r, &mut s),
        "C20" => lang::draw_c20(&mut r, &mut s),
        _ => panic!("no such property {}", prop),
    }
    s
}

pub fn run(s: &Scn) {
    sim::apply_env(&Env::plain());
    match s.prop.as_str() {
        "C01" => run_c01(s),
        "C02" => run_c02(s),
        "C03" => run_c03(s),
        "C04" => run_c04(s),
        "C05" => run_c05(s),
        "C06" => run_c06(s),
        "C07" => run_c07(s, false),
        "C08" => run_c08(s),
        "C09" => run_c09(s),
        "C10" => run_c10(s),
        "C11" => run_c11(s),
        "C12" => run_c07(s, true),
        "C13" => lang::run_c13(s),
        "C14" => lang::run_c14(s),
        "C15" => lang::run_c15(s),
        "C16" => lang::run_c16(s),
        "C17" => cost::run_c17(s),
        "C18" => lang::run_c18(s),
        "C19" => lang::run_c19(s),
        "C20" => lang::run_c20(s),
        p => harness(&format!("no such property {}", p)),
    }
}

const STACK: usize = 16 << 20;
fn nontrivial() {
    sim::page().nontrivial.store(1, SeqCst);
}

// ------------------------------------------------------------ texts

fn small_mix(r: &mut Rng) -> Mix {
    let mut m = Mix::draw(r);
    m.depth = m.depth.min(2);
    m.body = m.body.min(2);
    m.comments = *r.pick(&[0, 0, 10]);
    m.garbage = *r.pick(&[0, 0, 20]);
    m
}

pub fn near(r: &mut Rng, t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    if cs.is_empty() {
        return "VISIBLE x\n".into();
    }
    let mut o = cs.clone();
    match r.below(9) {
        6 | 7 => return hurt(r, t),
        8 => {
            // one digit different: two numbers as near as can be
            let at: Vec<usize> = (0..o.len()).filter(|i| o[*i].is_ascii_digit()).collect();
            let last: Vec<usize> = at.iter().copied().filter(|i| !o.get(i + 1).is_some_and(|c| c.is_ascii_digit())).collect();
            let of = if r.pct(70) { last } else { at };
            if !of.is_empty() {
                let i = &of[r.idx(of.len())];
                o[*i] = char::from_digit((o[*i].to_digit(10).unwrap_or(0) + 1) % 10, 10).unwrap_or('0');
            }
        }
        0 => {
            // same length, one character different
            for _ in 0..8 {
                let i = r.idx(o.len());
                if o[i].is_ascii_digit() || o[i].is_ascii_lowercase() {
                    o[i] = if o[i].is_ascii_digit() { (b'0' + r.below(10) as u8) as char } else { (b'a' + r.below(26) as u8) as char };
                    break;
                }
            }
        }
        1 => {
            let n = r.idx(o.len());
            o.truncate(n.max(1));
        }
        2 => {
            o.extend("\nGTFO\n".chars());
        }
        3 => {
            o.insert(0, *r.pick(&['\n', ' ', ',', '\t']));
        }
        4 => {
            let n = o.len();
            let i = r.idx(n);
            let j = r.idx(n);
            o.swap(i, j);
        }
        _ => {
            o.extend(cs.iter());
        }
    }
    o.into_iter().collect()
}

/// A text some lines of which, block lines among them, lost or gained words.
fn hurt(r: &mut Rng, t: &str) -> String {
    let mut ls: Vec<String> = t.lines().map(|l| l.to_string()).collect();
    if ls.is_empty() {
        return t.to_string();
    }
    for _ in 0..r.range(1, 3) {
        let i = r.idx(ls.len());
        let mut w: Vec<&str> = ls[i].split(' ').collect();
        let k = r.idx(w.len());
        let g = gen::garbage(r);
        match r.below(8) {
            0 | 1 | 2 => w.truncate(k + 1),
            3 => drop(w.remove(k)),
            4 => w.insert(k, &g),
            5 => w[k] = &g,
            6 => w.push(&g),
            _ => w.clear(),
        }
        ls[i] = w.join(" ");
    }
    ls.join("\n") + "\n"
}

pub fn text(r: &mut Rng, units: u64) -> String {
    let m = small_mix(r);
    match r.below(10) {
        3 | 4 => {
            let t = gen::doc_text(&gen::doc(r, &m, units as usize));
            hurt(r, &t)
        }
        0..=4 => gen::doc_text(&gen::doc(r, &m, units as usize)),
        5 | 6 => {
            let d = gen::doc(r, &m, units as usize);
            let t = gen::doc_text(&d);
            let mut k = Disk::of(&t);
            let n = r.range(1, 3);
            for f in disk::draw_faults(r, &t, "VISIBLE \"old\"\nI HAS A old ITZ 1\n", n) {
                k.apply(&f);
            }
            k.read().0
        }
        7 => {
            let n = 4 + r.idx(20);
            gen::soup(r, n)
        }
        8 => {
            let d = gen::doc(r, &m, (units as usize).min(2));
            format!("{}OBTW never closed\n{}", gen::doc_text(&d), gen::statement(r, &m))
        }
        _ => {
            let k = r.range(1, 3);
            (0..k).map(|_| format!("{}\n", gen::statement(r, &m))).collect()
        }
    }
}

fn texts(r: &mut Rng, n: usize, units: u64) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        if !v.is_empty() && r.pct(45) {
            let b = r.pick(&v).clone();
            let t = near(r, &b);
            v.push(t);
        } else {
            let u = r.range(1, units);
            v.push(text(r, u));
        }
    }
    v
}

fn kind(r: &mut Rng) -> &'static str {
    *r.pick(&["tok", "parse", "both", "both"])
}
/// Steps of the build with finer switching points, relative to the usual one.
const FINE: u64 = if option_env!("LOLSIM_FINE").is_some() { 4 } else { 1 };


fn preempts(r: &mut Rng, estimate: u64, threads: usize) -> Vec<(u64, u8)> {
    let n = match r.below(10) {
        0 => 0,
        1..=4 => r.range(1, 6),
        5..=7 => r.range(8, 40),
        _ => r.range(60, 400),
    };
    let mut v: Vec<(u64, u8)> = (0..n).map(|_| (1 + r.below(estimate), r.below(threads as u64) as u8)).collect();
    if r.pct(30) && estimate > 50 {
        // a dense burst: almost every edge in a short window switches
        let a = r.below(estimate);
        for k in 0..r.range(10, 60) {
            v.push((a + k, r.below(threads as u64) as u8));
        }
    }
    v.sort();
    v
}

/// Switches at (or, in the upper bits, some edges behind) accesses to static variables: there may be none in a run, and then these do nothing.
fn shared_preempts(r: &mut Rng, threads: usize) -> Vec<(u64, u8)> {
    if r.pct(30) {
        return vec![];
    }
    let from = if r.pct(60) { 0 } else { { let j = r.below(15); r.below(1 << j) } };
    let pct = *r.pick(&[5, 20, 50, 80]);
    let n = r.range(10, 120);
    (0..n).filter(|_| r.pct(pct)).map(|k| k + from).collect::<Vec<_>>().into_iter().map(|k| (k, (r.below(threads as u64) + 8 * (if r.pct(30) { 0 } else { r.below(32) })) as u8)).collect()
}

fn cached_refs(s: &Scn, used: &[(usize, String)]) -> BTreeMap<(usize, String), String> {
    let mut m = BTreeMap::new();
    for (d, k) in used {
        if !m.contains_key(&(*d, k.clone())) {
            let t = s.texts.get(*d).cloned().unwrap_or_default();
            m.insert((*d, k.clone()), reference(k, &t));
        }
    }
    m
}

fn mismatch(class: &str, who: &str, kind: &str, text: &str, got: &str, want: &str) -> ! {
    let class = if got.starts_with("panic") && !want.starts_with("panic") { "panic" } else { class };
    let first = got.lines().next().unwrap_or("");
    die_violation(
        class,
        &format!("{}: {} of {:?} gives another result than alone in a fresh process: {} [{}]", who, kind, clip(text, 400), line_diff(got, want), clip(first, 200)),
    )
}

// ------------------------------------------------------------ C01

fn draw_c01(r: &mut Rng, s: &mut Scn) {
    let n = *r.pick(&[2usize, 2, 3, 4]);
    let k = r.range(1, 3) as usize;
    let units = *r.pick(&[1, 2, 4]);
    s.texts = texts(r, k, units);
    let mut est = 300;
    for t in 0..n {
        for _ in 0..r.range(1, 3) {
            let d = r.idx(s.texts.len());
            let kd = kind(r);
            s.op(t, kd, d, 0, 0);
            est += 70 * FINE * s.texts[d].len() as u64 + 100;
        }
    }
    s.preempts = preempts(r, est, n);
    s.shared = shared_preempts(r, n);
}

fn run_c01(s: &Scn) {
    let refs = cached_refs(s, &s.ops.iter().map(|o| (o.d, o.kind.clone())).collect::<Vec<_>>());
    let n = s.ops.iter().map(|o| o.t).max().unwrap_or(0) + 1;
    let out: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(vec![]));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..n.min(sim::MAX_SLOTS) {
        let mine: Vec<(usize, Op)> = s.ops.iter().cloned().enumerate().filter(|x| x.1.t == t).collect();
        let texts = s.texts.clone();
        let out = out.clone();
        bodies.push(Box::new(move || {
            for (i, o) in mine {
                let g = outcome_shared(&o.kind, texts.get(o.d).map(|x| x.as_str()).unwrap_or(""));
                out.lock().unwrap().push((i, g));
            }
        }));
    }
    let total: usize = s.ops.iter().map(|o| s.texts.get(o.d).map(|t| t.len()).unwrap_or(0)).sum();
    sim::set_budget(budget(2 * total) + 1_000_000);
    sim::run_threads(bodies, s.preempts.clone(), s.shared.clone(), STACK);
    sim::no_budget();
    for (i, g) in out.lock().unwrap().iter() {
        let o = &s.ops[*i];
        let want = &refs[&(o.d, o.kind.clone())];
        stat(St::calls_compared, 1);
        sim::trace_add(hash_bytes(g.as_bytes()));
        if g != want {
            mismatch("interference", &format!("thread {} op {}", o.t, i), &o.kind, &s.texts[o.d], g, want);
        }
    }
}

/// As `outcome`, but under the budget of the whole run.
fn outcome_shared(kind: &str, text: &str) -> String {
    let t = sim::given(|| text.to_string());
    let r: Result<String, String> = (|| {
        Ok(match kind {
            "both" => match call(move || lolcode_ast::tokenize_and_parse(t))? {
                Ok(b) => dump_ast(b)?,
                Err(e) => derr(&e),
            },
            k => match call(move || lolcode_ast::tokenize(t))? {
                Ok(v) if k == "tok" => format!("tokens {}\n{}", v.len(), dump_tokens(&v)),
                Ok(v) => dump_ast(call(move || lolcode_ast::parse(v))?)?,
                Err(e) => derr(&e),
            },
        })
    })();
    match r {
        Ok(s) => s,
        Err(p) => format!("panic {}", p),
    }
}
fn derr(e: &lolcode_ast::lexer::TokenError) -> String {
    dump_err(e)
}

// ------------------------------------------------------------ C02

fn draw_history(r: &mut Rng, s: &mut Scn, abort_pct: u64, threads: u64) {
    let long = r.pct(6);
    let k = if long { r.range(1, 3) } else { r.range(1, 5) } as usize;
    let units = if long { 1 } else { *r.pick(&[1, 2, 5]) };
    s.texts = texts(r, k, units);
    let n = if long { r.range(200, 1500) } else { *r.pick(&[2, 3, 5, 8, 16, 40]) };
    let nt = if long { 1 } else { r.range(1, threads) };
    for _ in 0..n {
        let d = r.idx(s.texts.len());
        let kd = kind(r);
        let t = r.below(nt) as usize;
        // a: 1 + position of the failing allocation in 1/65536 of the call's allocations
        let a = if r.pct(abort_pct) { 1 + r.below(65536) } else { 0 };
        s.op(t, kd, d, a, r.below(3));
    }
}

fn draw_c02(r: &mut Rng, s: &mut Scn) {
    let p = *r.pick(&[0, 10, 40]);
    draw_history(r, s, p, 3);
}

fn alloc_counts(s: &Scn) -> BTreeMap<(usize, String), u64> {
    let mut m = BTreeMap::new();
    for o in &s.ops {
        if o.a > 0 && !m.contains_key(&(o.d, o.kind.clone())) {
            let t = s.texts.get(o.d).cloned().unwrap_or_default();
            let n = match in_fork(|| {
                let a = sim::alloc_no();
                let _ = outcome(&o.kind, &t);
                format!("{}", sim::alloc_no() - a)
            }) {
                Ok(s) => s.parse().unwrap_or(0),
                Err(_) => 0,
            };
            m.insert((o.d, o.kind.clone()), n);
        }
    }
    m
}

/// One call of a history; Ok(outcome), or Err if it was aborted by the injected failure.
fn history_call(o: &Op, text: &str, allocs: u64) -> Result<String, ()> {
    if o.a == 0 || allocs == 0 {
        return Ok(outcome(&o.kind, text));
    }
    let n = 1 + (((o.a - 1) as u128 * allocs as u128) >> 16) as u64;
    sim::OOM_MODE.store(1, SeqCst);
    sim::set_alloc_fault(Some(&AllocFault { kind: [0u8, 1, 0][(o.b % 3) as usize], n, m: 0 }));
    let g = outcome(&o.kind, text);
    let fired = sim::faults_fired();
    sim::set_alloc_fault(None);
    sim::OOM_MODE.store(0, SeqCst);
    if fired > 0 {
        stat(St::calls_aborted, 1);
        Err(())
    } else {
        Ok(g)
    }
}

fn run_c02(s: &Scn) {
    let refs = cached_refs(s, &s.ops.iter().map(|o| (o.d, o.kind.clone())).collect::<Vec<_>>());
    let counts = alloc_counts(s);
    let n = (s.ops.iter().map(|o| o.t).max().unwrap_or(0) + 1).min(sim::MAX_SLOTS);
    let turn = Arc::new(AtomicUsize::new(0));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let ops = Arc::new(s.ops.clone());
    let texts = Arc::new(s.texts.clone());
    let refs = Arc::new(refs);
    let counts = Arc::new(counts);
    for me in 0..n {
        let (turn, ops, texts, refs, counts) = (turn.clone(), ops.clone(), texts.clone(), refs.clone(), counts.clone());
        bodies.push(Box::new(move || loop {
            let i = turn.load(SeqCst);
            if i >= ops.len() {
                return;
            }
            let o = &ops[i];
            if o.t % n != me {
                sim::yield_to(o.t % n);
                continue;
            }
            let t = texts.get(o.d).map(|x| x.as_str()).unwrap_or("");
            let k = (o.d, o.kind.clone());
            if i > 0 {
                nontrivial();
            }
            if let Ok(g) = history_call(o, t, counts.get(&k).copied().unwrap_or(0)) {
                stat(St::calls_compared, 1);
                sim::trace_add(hash_bytes(g.as_bytes()));
                if g != refs[&k] {
                    mismatch("history", &format!("call {} of the history", i), &o.kind, t, &g, &refs[&k]);
                }
            }
            turn.store(i + 1, SeqCst);
        }));
    }
    sim::run_threads(bodies, vec![], vec![], STACK);
}

// ------------------------------------------------------------ C03

fn fill_byte(r: &mut Rng) -> u8 {
    if r.pct(50) {
        r.below(256) as u8
    } else {
        *r.pick(&[0u8, 0xff, 0xA5, 0x5A, 0x20, 0x0a, 0x22, 1])
    }
}
fn draw_env(r: &mut Rng) -> Env {
    Env {
        clock_base: *r.pick(&[0u64, 1, 999_999_999, 1_700_000_000_000_000_000, 4_102_444_800_000_000_000, 8_000_000_000_000_000_000]) + r.below(1 << 40),
        clock_mode: r.below(5) as u8,
        entropy: r.next(),
        env: (*r.pick(&["", "1", "0", "true", "C", "de_DE.UTF-8", "full", "debug", "/tmp", "\u{e9}"])).to_string(),
        arena_shift: r.below(1 << 16) as usize,
        fill_new: fill_byte(r),
        fill_free: fill_byte(r),
        reuse: r.below(2) as u8,
        stack: r.below(60_000) as usize,
    }
}

fn draw_c03(r: &mut Rng, s: &mut Scn) {
    let u = *r.pick(&[1, 3, 6]);
    s.texts = texts(r, 1, u);
    if r.pct(10) {
        // larger memory footprint
        let m = Mix::draw(r);
        s.texts = vec![gen::doc_text(&gen::doc(r, &m, 40))];
    }
    let kd = kind(r);
    for i in 0..r.range(2, 5) as usize {
        s.envs.push(draw_env(r));
        s.op(r.below(3) as usize, kd, i, r.below(2), 0);
    }
}

#[inline(never)]
fn deep(n: usize, f: &mut dyn FnMut()) {
    let mut pad = [0u8; 1024];
    pad[n % 1024] = n as u8;
    std::hint::black_box(&mut pad);
    if n < 1024 {
        f()
    } else {
        deep(n - 1024, f)
    }
    std::hint::black_box(&mut pad);
}

fn run_c03(s: &Scn) {
    let text = s.texts.first().cloned().unwrap_or_default();
    let mut refs: BTreeMap<String, String> = BTreeMap::new();
    for o in &s.ops {
        let want = refs.entry(o.kind.clone()).or_insert_with(|| reference(&o.kind, &text)).clone();
        let e = match s.envs.get(o.d) {
            Some(e) => e.clone(),
            None => continue,
        };
        nontrivial();
        stat(St::layouts_varied, 1);
        if e.clock_mode == 1 || e.clock_mode == 3 {
            stat(St::clock_jumps_configured, 1);
        }
        let r = in_fork(|| {
            if o.a == 1 {
                // the environment of the process itself, for code that lists it
                const NAMES: &[&str] = &["LOLCODE", "LANG", "HOME", "PATH", "LC_ALL", "TERM", "RUST_LOG", "RUST_BACKTRACE", "DEBUG", "TZ", "USER", "NO_COLOR", "PWD"];
                let mut v = Rng::new(e.entropy ^ 0xE);
                if v.pct(60) {
                    for (k, _) in std::env::vars_os() {
                        std::env::remove_var(k);
                    }
                }
                for n in &NAMES[..v.idx(NAMES.len() + 1)] {
                    std::env::set_var(n, &e.env);
                }
            }
            if e.entropy % 40 == 7 {
                // the calling thread is by far not the first one of its process
                for _ in 0..300 {
                    let _ = std::thread::Builder::new().stack_size(64 << 10).spawn(|| ()).map(|h| h.join());
                }
            }
            sim::apply_env(&e);
            let res = Arc::new(Mutex::new(String::new()));
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for t in 0..=o.t.min(3) {
                let (res, text, kd, e, me) = (res.clone(), text.clone(), o.kind.clone(), e.clone(), o.t);
                bodies.push(Box::new(move || {
                    if t == me {
                        let mut g = String::new();
                        deep(e.stack, &mut || g = outcome(&kd, &text));
                        *res.lock().unwrap() = g;
                    }
                }));
            }
            sim::run_threads(bodies, vec![], vec![], STACK);
            let g = res.lock().unwrap().clone();
            sim::finish_counters();
            g
        });
        let g = match r {
            Ok(g) => g,
            Err(Died::Oom) => die_violation("memory-runaway", &format!("{:?}", clip(&text, 300))),
            Err(Died::Signal(n)) => die_violation("crash", &format!("signal {} under environment {:?} on {:?}", n, e, clip(&text, 300))),
        };
        stat(St::calls_compared, 1);
        sim::trace_add(hash_bytes(g.as_bytes()) ^ hash_bytes(format!("{:?}", e).as_bytes()));
        if g != want {
            mismatch("environment", &format!("environment {:?}", e), &o.kind, &text, &g, &want);
        }
    }
}

// ------------------------------------------------------------ C04

fn draw_c04(r: &mut Rng, s: &mut Scn) {
    let u = *r.pick(&[1, 2, 4, 8]);
    s.texts = texts(r, 1, u);
    let kd = kind(r);
    s.op(0, kd, 0, 0, 0);
    for _ in 0..r.range(4, 14) {
        // t: 0 the process ends on failure, 1 the call panics
        let t = r.below(2) as usize;
        match r.below(8) {
            0..=3 => s.fault(t, "once", r.below(65536), 0, ""),
            4 => s.fault(t, "from", r.below(65536), 0, ""),
            5 => {
                let n = *r.pick(&[16, 64, 100, 200, 400, 1000, 3000]);
                s.fault(t, "above", n, 0, "")
            }
            6 => s.fault(t, "every", r.range(2, 40), 0, ""),
            _ => s.fault(t, "burst", r.below(65536), r.range(2, 6), ""),
        }
    }
}

fn run_c04(s: &Scn) {
    let text = s.texts.first().cloned().unwrap_or_default();
    let kd = s.ops.first().map(|o| o.kind.clone()).unwrap_or("both".into());
    let (want, n) = match in_fork(|| {
        let a = sim::alloc_no();
        let o = outcome(&kd, &text);
        format!("{}\n{}", sim::alloc_no() - a, o)
    }) {
        Ok(x) => {
            let (a, b) = x.split_once('\n').unwrap();
            (b.to_string(), a.parse::<u64>().unwrap())
        }
        Err(_) => die_violation("crash", &format!("{} of {:?} alone dies", kd, clip(&text, 300))),
    };
    for f in &s.faults {
        let at = 1 + ((f.a as u128 * n as u128) >> 16) as u64;
        let af = match f.kind.as_str() {
            "once" => AllocFault { kind: 0, n: at, m: 0 },
            "from" => AllocFault { kind: 1, n: at, m: 0 },
            "above" => AllocFault { kind: 2, n: f.a, m: 0 },
            "every" => AllocFault { kind: 3, n: f.a, m: 0 },
            _ => AllocFault { kind: 4, n: at, m: f.b },
        };
        let r = in_fork(|| {
            sim::OOM_MODE.store(f.t as u32 & 1, SeqCst);
            sim::set_alloc_fault(Some(&af));
            let g = outcome(&kd, &text);
            let k = sim::faults_fired();
            sim::set_alloc_fault(None);
            // The process must still be usable for the caller that caught the panic.
            format!("{}\n{}", k, g)
        });
        stat(St::calls_compared, 1);
        match r {
            Ok(x) => {
                let (k, g) = x.split_once('\n').unwrap();
                sim::trace_add(hash_bytes(x.as_bytes()));
                let fired: u64 = k.parse().unwrap();
                if g != want && !(fired > 0 && g.starts_with("panic")) {
                    let class = if g.starts_with("panic") { "panic" } else { "silent-loss" };
                    die_violation(
                        class,
                        &format!("{} of {:?} with allocation fault {:?} ({} fired) returns a different result: {}", kd, clip(&text, 300), f, fired, line_diff(g, &want)),
                    );
                }
            }
            Err(Died::Oom) | Err(Died::Signal(6)) => {}
            Err(Died::Signal(x)) => die_violation("crash", &format!("signal {} in {} of {:?} with allocation fault {:?}", x, kd, clip(&text, 300), f)),
        }
    }
}

// ------------------------------------------------------------ C05

fn draw_c05(r: &mut Rng, s: &mut Scn) {
    let p = *r.pick(&[0, 20, 50]);
    draw_history(r, s, p, 1);
    if s.ops.len() > 60 {
        s.ops.truncate(60);
    }
    s.set("rounds", *r.pick(&[4, 6, 10]));
}

fn run_c05(s: &Scn) {
    let counts = alloc_counts(s);
    let rounds = s.get("rounds").clamp(3, 50);
    let s2 = s.clone();
    let body = move || {
        let mut lives: Vec<(i64, i64)> = vec![];
        for _ in 0..rounds {
            for o in &s2.ops {
                let t = s2.texts.get(o.d).map(|x| x.as_str()).unwrap_or("");
                let g = history_call(o, t, counts.get(&(o.d, o.kind.clone())).copied().unwrap_or(0));
                if let Ok(g) = &g {
                    sim::trace_add(hash_bytes(g.as_bytes()));
                }
            }
            stat(St::rounds, 1);
            nontrivial();
            lives.push(sim::live());
        }
        stat(St::live_checks, 1);
        let (a, b) = (lives[1], lives[lives.len() - 1]);
        if b.0 > a.0 || b.1 > a.1 {
            die_violation(
                "leak",
                &format!("repeating the history leaves memory allocated: live bytes and blocks after each round {:?}; texts {:?}", lives, clip(&format!("{:?}", s2.texts), 500)),
            );
        }
    };
    sim::run_threads(vec![Box::new(body)], vec![], vec![], STACK);
}

// ------------------------------------------------------------ C06

pub const RUNS: &[(&str, &str, &str)] = &[
    ("", ",", ""),
    ("", "...", ""),
    ("", "... ", "foo"),
    ("", "...\n", "foo"),
    ("foo ", "...\n", "bar"),
    ("", "\u{2026} ", ""),
    ("", "\n", "foo"),
    ("", " ", ""),
    ("", "\t", "x"),
    ("", "!", ""),
    ("", "?", ""),
    ("", "'Z", ""),
    ("foo", "'Z bar", ""),
    ("foo R bar", "'Z SRS bar", ""),
    ("", "foo ", ""),
    ("", "a", ""),
    ("", "1", ""),
    ("", "1.", ""),
    ("", "-", ""),
    ("", "\"", ""),
    ("\"", "x", ""),
    ("\"", ":\"", ""),
    ("VISIBLE \"", "\u{e9}", "\""),
    ("", "\u{1F431}", ""),
    ("", "AN ", ""),
    ("", "1 ", ""),
    ("VISIBLE ", "1 ", "!"),
    ("VISIBLE ", "\"a\" ", ""),
    ("SMOOSH ", "a AN ", "b MKAY"),
    ("ALL OF ", "a ", ""),
    ("I IZ f YR 1", " AN YR 1", " MKAY"),
    ("HOW IZ I f YR a", " AN YR a", "\nGTFO\nIF U SAY SO\n"),
    ("O RLY?\nYA RLY\nGTFO\n", "MEBBE x\nGTFO\n", "OIC\n"),
    ("WTF?\n", "OMG 1\nGTFO\n", "OIC\n"),
    ("", "WTF?\nOIC\n", ""),
    ("", "O RLY?\nOIC\n", ""),
    ("", "IM IN YR x\nIM OUTTA YR x\n", ""),
    ("", "HOW IZ I x\nIF U SAY SO\n", ""),
    ("", "KTHXBYE\n", ""),
    ("", "OIC\n", ""),
    ("", "AN\n", ""),
    ("", "HAI 1.2\n", ""),
    ("", "SUM OF 1 AN 2\n", ""),
    ("", "I HAS A x ITZ \"y\"\n", ""),
    ("", "BTW x\n", ""),
    ("", "OBTW x TLDR ", ""),
    ("", "OBTW\nx TLDR\n", ""),
    ("OBTW ", "x\n", ""),
    ("", "SRS ", ""),
    ("HAI ", "foo ", ""),
    ("", "foo, ", ""),
    ("", "\r\n", ""),
    ("", "\u{0}", ""),
    ("", "MKAY ", ""),
    ("IM IN YR x\n", "GTFO\n", ""),
    ("HOW IZ I x\n", ",\n", ""),
];

fn draw_c06(r: &mut Rng, s: &mut Scn) {
    match r.below(20) {
        0 => {
            let k = r.below(RUNS.len() as u64);
            s.set("run", k + 1);
            let most = if RUNS[k as usize].1 == "1" { 4000 } else { 15_000 };
            s.set("times", (*r.pick(&[100, 300, 1000, 1000, 4000, 15_000])).min(most));
        }
        1 => {
            let n = 1 + r.idx(60);
            s.texts.push(gen::soup(r, n));
        }
        2 => {
            let n = r.range(1, 40);
            let t: String = (0..n)
                .map(|_| match r.below(5) {
                    0 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                    1 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap_or('\u{e9}'),
                    _ => (r.below(128) as u8) as char,
                })
                .collect();
            s.texts.push(t);
        }
        3..=5 => {
            let n = 1 + r.idx(30);
            s.texts.push(gen::soup(r, n));
            draw_token_faults(r, s);
        }
        6..=10 => {
            let t = doc_for_damage(r);
            s.texts.push(t);
            draw_token_faults(r, s);
        }
        _ => {
            let t = doc_for_damage(r);
            let other = doc_for_damage(r);
            let n = *r.pick(&[1, 1, 2, 3, 5, 10]);
            s.faults = disk::draw_faults(r, &t, &other, n);
            s.texts.push(t);
        }
    }
}

pub fn doc_for_damage(r: &mut Rng) -> String {
    let mut m = Mix::draw(r);
    m.comments = *r.pick(&[0, 5, 20]);
    m.garbage = *r.pick(&[0, 0, 20]);
    let n = 1 + r.idx(8);
    gen::doc_text(&gen::doc(r, &m, n))
}

/// Faults of the channel between lexer and parser. a: position, b: argument.
pub fn draw_token_faults(r: &mut Rng, s: &mut Scn) {
    let kinds = ["lose", "dup", "swap", "move", "alter", "line", "place", "foreign", "cut", "truncate-front", "reverse", "redeliver"];
    let on: Vec<&str> = kinds.iter().filter(|_| r.pct(45)).copied().collect();
    for _ in 0..*r.pick(&[1u64, 1, 2, 4, 8]) {
        let k = if on.is_empty() { "lose" } else { *r.pick(&on) };
        if matches!(k, "cut" | "truncate-front" | "reverse") && r.pct(70) {
            continue;
        }
        let (a, b) = (r.below(65536), r.next() >> 16);
        s.fault(9, k, a, b, "");
    }
}

fn foreign_token(b: u64) -> TokenType {
    let mut r = Rng::new(b);
    match r.below(12) {
        0 => TokenType::Identifier((*r.pick(&["foo", "x", "", "loop"])).into()),
        1 => TokenType::Symbol((*r.pick(&["?", "#", "\u{e9}", "@", ""])).into()),
        2 => TokenType::Value(TokenValue::Number(NumberToken::Int(r.next() as i32))),
        3 => TokenType::Value(TokenValue::Number(NumberToken::Float(1.5))),
        4 => TokenType::Value(TokenValue::String((*r.pick(&["", "a\"b", "x\ny", "\\"])).into())),
        5 => TokenType::Value(TokenValue::Boolean(r.pct(50))),
        6 => TokenType::Value(TokenValue::NOOB),
        7 => (*r.pick(&[TokenType::CommentSingleLine(" c".into()), TokenType::CommentMultiLine(" c ".into())])).clone(),
        8 => (*r.pick(&[TokenType::BukkitSlotAccess, TokenType::Ellipsis, TokenType::Comma, TokenType::ExclamationMark, TokenType::QuestionMark])).clone(),
        _ => {
            let k = crate::model::keyword_table();
            TokenType::Keyword(r.pick(&k).1.clone())
        }
    }
}

/// Applies channel faults. Each token travels with its index in the sent list (-1: foreign).
pub fn deliver(sent: &[Token], other: &[Token], faults: &[Op]) -> Vec<(i64, Token)> {
    let mut v: Vec<(i64, Token)> = sent.iter().cloned().enumerate().map(|(i, t)| (i as i64, t)).collect();
    for f in faults.iter().filter(|f| f.t == 9) {
        let n = v.len();
        let at = |x: u64, n: usize| ((x as u128 * n as u128) >> 16) as usize;
        let i = at(f.a & 0xffff, n);
        let j = at(f.b & 0xffff, n);
        nontrivial();
        match f.kind.as_str() {
            "lose" if n > 0 => {
                v.remove(i);
                stat(St::tok_lost, 1);
            }
            "dup" if n > 0 => {
                let t = v[i].clone();
                let k = if f.b & 0x10000 == 0 { i + 1 } else { j };
                v.insert(k, (-1, t.1));
                stat(St::tok_duplicated, 1);
            }
            "swap" if n > 0 => {
                v.swap(i, j);
                stat(St::tok_reordered, 1);
            }
            "move" if n > 0 => {
                let t = v.remove(i);
                let k = j.min(v.len());
                v.insert(k, t);
                stat(St::tok_reordered, 1);
            }
            "reverse" => {
                v.reverse();
                stat(St::tok_reordered, 1);
            }
            "alter" if n > 0 => {
                v[i].1.token_type = foreign_token(f.b);
                v[i].0 = -1;
                stat(St::tok_altered, 1);
            }
            "line" if n > 0 => {
                let d = [1, -1, 2, 100, -100, 0x3fff_ffff, -0x3fff_ffff, 7][(f.b % 8) as usize];
                let r = &mut v[i].1.range;
                r.0.line = r.0.line.saturating_add(d);
                r.1.line = r.1.line.saturating_add(d);
                v[i].0 = -1;
                stat(St::tok_altered, 1);
            }
            "place" if n > 0 => {
                // Nothing promises that a place makes sense once it was altered on the way.
                let mut q = Rng::new(f.b);
                let r = &mut v[i].1.range;
                for p in [&mut r.0, &mut r.1] {
                    for x in [&mut p.line, &mut p.column, &mut p.bytes, &mut p.chars] {
                        if q.pct(40) {
                            *x = *q.pick(&[0, -1, 1, i32::MAX, i32::MIN, 1_000_000_000, -7, 65_536]);
                        }
                    }
                }
                if q.pct(20) {
                    std::mem::swap(&mut r.0, &mut r.1);
                }
                v[i].0 = -1;
                stat(St::tok_altered, 1);
            }
            "foreign" => {
                let mut t = match other.get(at(f.b & 0xffff, other.len())) {
                    Some(t) if f.b & 0x10000 == 0 => t.clone(),
                    _ => match v.get(i) {
                        Some(t) => Token { token_type: foreign_token(f.b), range: t.1.range.clone() },
                        None => continue,
                    },
                };
                if f.b & 0x20000 == 0 {
                    if let Some(x) = v.get(i) {
                        t.range = x.1.range.clone();
                    }
                }
                v.insert(i.min(n), (-1, t));
                stat(St::tok_mixed, 1);
            }
            "cut" => {
                v.truncate(i);
                stat(St::cuts, 1);
            }
            "truncate-front" => {
                v.drain(..i);
                stat(St::cuts, 1);
            }
            "losestmt" if n > 0 => {
                let (a, e) = statement_around(&v, i);
                v.drain(a..e);
                stat(St::tok_lost, (e - a) as u64);
            }
            "movestmt" if n > 0 => {
                let (a, e) = statement_around(&v, i);
                let x: Vec<_> = v.drain(a..e).collect();
                let mut k = j.min(v.len());
                k = if v.is_empty() { 0 } else { statement_around(&v, k.min(v.len() - 1)).0 };
                for (q, t) in x.into_iter().enumerate() {
                    v.insert(k + q, t);
                }
                stat(St::tok_reordered, 1);
            }
            "redeliver" if n > 0 => {
                // one statement comes twice (or thrice), each copy ended by a separator
                let (mut a, mut e) = statement_around(&v, i);
                a = (a..i).rev().find(|&k| v[k].1.token_type == TokenType::Comma).map(|k| k + 1).unwrap_or(a);
                e = (i..e).find(|&k| v[k].1.token_type == TokenType::Comma).unwrap_or(e);
                if a >= e {
                    continue;
                }
                let end = Token { token_type: TokenType::Comma, range: v[e - 1].1.range.clone() };
                let mut x: Vec<_> = v[a..e].iter().map(|t| (-1, t.1.clone())).collect();
                x.push((-1, end));
                if f.b & 0x10000 != 0 {
                    x.extend(x.clone());
                }
                for (q, t) in x.into_iter().enumerate() {
                    v.insert(a + q, t);
                }
                stat(St::tok_duplicated, 1);
            }
            "dupstmt" if n > 0 => {
                let (a, e) = statement_around(&v, i);
                let x: Vec<_> = v[a..e].iter().map(|t| (-1, t.1.clone())).collect();
                let k = if f.b & 0x10000 == 0 { e } else { statement_around(&v, j).0 };
                for (q, t) in x.into_iter().enumerate() {
                    v.insert(k + q, t);
                }
                stat(St::tok_duplicated, 1);
            }
            _ => {}
        }
    }
    v
}

/// The run of tokens on the same line around `i`.
fn statement_around(v: &[(i64, Token)], i: usize) -> (usize, usize) {
    let l = v[i].1.range.0.line;
    let mut a = i;
    while a > 0 && v[a - 1].1.range.0.line == l {
        a -= 1;
    }
    let mut e = i + 1;
    while e < v.len() && v[e].1.range.0.line == l {
        e += 1;
    }
    (a, e)
}

/// Everything a caller can do with a result, none of which may fail.
pub fn inspect(b: ASTBlock, len: usize) {
    let mut errs = 0u64;
    let mut exprs = 0u64;
    let mut walked = 0u64;
    sim::set_budget(4 * budget(len));
    let r = call(|| {
        let c = b.clone();
        let same = c == b;
        let t = format!("{:?}", b);
        let p = if t.len() < 200_000 { format!("{:#?}", c).len() } else { 0 };
        errs = b.iter_errors().count() as u64;
        for n in &b.0 {
            if let Node::Expression(e) = n {
                exprs += 1;
                let (x, y) = e.range();
                let _ = (x.line, y.line, x == y, x.partial_cmp(y));
                let _ = format!("{} {:?}", x, y);
                for k in e.tokens() {
                    walked += 1;
                    let _ = k.range.0.line;
                }
            }
        }
        drop(c);
        let mut m = 0;
        for n in b {
            m += 1;
            drop(n);
        }
        (same, t, p, m)
    });
    sim::no_budget();
    match r {
        Ok((_, t, p, m)) => {
            sim::trace_add(hash_bytes(t.as_bytes()) ^ p as u64 ^ m);
            stat(St::nodes_seen, m);
            stat(St::error_nodes_seen, errs);
            stat(St::expressions_walked, exprs);
            stat(St::walk_steps, walked);
        }
        Err(p) => die_violation("panic", &format!("inspecting a tree panicked: {}", p)),
    }
}

fn run_c06(s: &Scn) {
    let mut text = s.texts.first().cloned().unwrap_or_default();
    let run = s.get("run");
    if run > 0 {
        let (a, b, c) = RUNS[(run as usize - 1) % RUNS.len()];
        text = format!("{}{}{}", a, b.repeat(s.get("times") as usize), c);
        nontrivial();
    }
    if let Some((k, n)) = NEST.get(s.get("nest").wrapping_sub(1) as usize).map(|k| (k, s.get("times"))) {
        text = format!("{}{}", k.0.repeat(n as usize), k.1.repeat(n as usize));
        nontrivial();
    }
    let mut d = Disk::of(&text);
    for f in s.faults.iter().filter(|f| f.t != 9) {
        d.apply(f);
        nontrivial();
    }
    let text = d.read().0;
    if !text.is_ascii() {
        stat(St::multibyte_texts, 1);
    }
    let tf = s.faults.iter().any(|f| f.t == 9);
    let faults = s.faults.clone();
    let body = move || {
        let v = match tokenize(&text) {
            Err(p) => die_panic(&format!("tokenize panicked on {:?}: {}", clip(&text, 300), p)),
            Ok(Err(e)) => {
                stat(St::unclosed_comment_errors, 1);
                let _ = call(|| format!("{:?} {}", e, e == e.clone()));
                match both(&text) {
                    Err(p) => die_panic(&format!("tokenize_and_parse panicked on {:?}: {}", clip(&text, 300), p)),
                    Ok(_) => return,
                }
            }
            Ok(Ok(v)) => v,
        };
        sim::trace_add(v.len() as u64);
        if tf {
            let other: Vec<Token> = v.iter().rev().cloned().collect();
            let got: Vec<Token> = deliver(&v, &other, &faults).into_iter().map(|x| x.1).collect();
            let what = format!("{:?}", got);
            let n = got.len();
            match parse(got) {
                Err(p) => die_panic(&format!("parse panicked on delivered tokens {}: {}", clip(&what.replace('\n', " "), 500), p)),
                Ok(b) => inspect(b, 8 * n),
            }
        } else {
            let n = v.len();
            match parse(v) {
                Err(p) => die_panic(&format!("parse panicked on {:?}: {}", clip(&text, 400), p)),
                Ok(b) => inspect(b, text.len().max(8 * n)),
            }
        }
    };
    // The stack a thread has by default.
    sim::run_threads(vec![Box::new(body)], vec![], vec![], 2 << 20);
}

/// Nesting without bound overflows the stack: see known-findings.txt.
pub const NEST: &[(&str, &str)] = &[
    ("NOT ", "x"),
    ("SUM OF 1 AN ", "1 "),
    ("SMOOSH ", ""),
    ("HOW IZ I f\n", "IF U SAY SO\n"),
    ("IM IN YR l\n", "IM OUTTA YR l\n"),
    ("O RLY?\nYA RLY\n", "OIC\n"),
    ("WTF?\nOMG 1\n", "OIC\n"),
];

// ------------------------------------------------------------ C07 and C12

const STOPS: &[&str] = &["IF U SAY SO", "IM OUTTA YR", "OIC", "YA RLY", "NO WAI", "MEBBE", "OMG"];
pub fn no_stop_words(l: &str) -> bool {
    let l = single_blanks(l);
    !STOPS.iter().any(|w| l.contains(w))
}

#[derive(Clone, Copy, PartialEq)]
pub enum Bk {
    Root,
    Fun,
    Loop,
    If,
    Switch,
}
fn without_strings(l: &str) -> String {
    let mut o = String::new();
    let mut cs = l.chars().peekable();
    while let Some(c) = cs.next() {
        o.push(c);
        if c == '"' {
            while let Some(c) = cs.next() {
                if c == ':' && matches!(cs.peek(), Some('"' | ':')) {
                    cs.next();
                } else if c == '"' {
                    break;
                }
            }
        }
    }
    o
}
fn bk_of(header: &str) -> Bk {
    let header = single_blanks(&without_strings(header));
    // The keyword that opens the block is the last one of its kind on the line.
    let p = |w: &str| header.rfind(w).map(|x| x as i64).unwrap_or(-1);
    let v = [(p("HOW IZ I"), Bk::Fun), (p("IM IN YR"), Bk::Loop), (p("O RLY?"), Bk::If), (p("WTF?"), Bk::Switch)];
    v.iter().max_by_key(|x| x.0).unwrap().1
}
fn clash(parent: Bk, inner: Bk) -> bool {
    parent == inner || matches!((parent, inner), (Bk::If, Bk::Switch) | (Bk::Switch, Bk::If))
}

/// The lines as stored after the faults, with every line of a rejected block turned into a
/// statement line of the enclosing block. None: the damage is outside the property's scope.
pub fn settled(lines: &[&Line], i: &mut usize, parent: Bk, top: bool) -> Option<Vec<L>> {
    let mut o = vec![];
    while *i < lines.len() {
        let l = lines[*i];
        match l.tag {
            Tag::Leaf | Tag::Comma | Tag::Blank | Tag::Comment => {
                *i += 1;
                if l.lost() {
                    continue;
                }
                if !l.fault.is_empty() && l.fault != "dup" && (!neutral(l.cur()) || !no_stop_words(l.cur())) {
                    return None;
                }
                o.push(L::new(l.tag, l.cur()));
                if l.fault == "dup" {
                    o.push(L::new(l.tag, &l.text));
                }
            }
            Tag::Open => {
                *i += 1;
                let kind = bk_of(&l.text);
                let rejected = !l.fault.is_empty();
                let mut out = vec![L::new(if rejected { Tag::Leaf } else { Tag::Open }, l.cur())];
                let mut dissolved = rejected;
                loop {
                    let inside = if dissolved { parent } else { kind };
                    out.extend(settled(lines, i, inside, false)?);
                    let m = lines.get(*i)?;
                    *i += 1;
                    let bad = !m.fault.is_empty();
                    if dissolved {
                        out.push(L::new(Tag::Leaf, m.cur()));
                    } else if bad {
                        // Rejected here: what came before is one failed statement.
                        let before = join(&out);
                        let cut = Some((crate::gen::height(l.cur()), before.matches('\n').count()));
                        out = vec![L { tag: Tag::Leaf, text: before + m.cur(), cut }];
                        dissolved = m.tag != Tag::Close;
                    } else {
                        out.push(L::new(m.tag, m.cur()));
                    }
                    if m.tag == Tag::Close {
                        break;
                    }
                }
                if dissolved && clash(parent, kind) {
                    return None;
                }
                o.extend(out);
            }
            Tag::Mid | Tag::Close => {
                if top {
                    return None;
                }
                return Some(o);
            }
        }
    }
    if top {
        Some(o)
    } else {
        None
    }
}

const STRAY: &[&str] = &["ITZ", "ITZ 5", "! 5", "GTFO", "KTHXBYE foo", "MKAY 5", "\u{e9} x", "? ?", "R 5", "5 5 ITZ"];

fn draw_c07(r: &mut Rng, s: &mut Scn) {
    if r.pct(35) {
        // sectors of the whole file
        let mut m = Mix::draw(r);
        m.comments = *r.pick(&[0, 0, 10]);
        m.multiline = *r.pick(&[0, 0, 10]);
        let n = 2 + r.idx(14);
        let d = gen::doc(r, &m, n);
        let m2 = Mix::draw(r);
        let other = gen::doc_text(&gen::doc(r, &m2, 10));
        let n = *r.pick(&[1, 1, 2, 3, 6]);
        s.faults = disk::draw_faults(r, &gen::doc_text(&d), &other, n);
        s.docs.push(d);
        s.set("disk", 1);
        return;
    }
    draw_lines(r, s, false);
}

/// A program with faults confined to lines.
pub fn draw_lines(r: &mut Rng, s: &mut Scn, errors_only: bool) {
    let mut m = Mix::draw(r);
    m.depth = r.range(0, 4);
    m.comments = *r.pick(&[0, 0, 10]);
    m.multiline = *r.pick(&[0, 0, 10]);
    let n = 1 + r.idx(8);
    let mut d = gen::doc(r, &m, n);
    if m.depth > 0 && r.pct(50) {
        let mut v = vec![];
        gen::block(r, &m, m.depth, &mut v);
        let k = r.idx(d.len() + 1);
        d.insert(k, Unit { lines: v });
    }
    if r.below(1500) == 0 {
        let k = r.idx(d.len() + 1);
        let n = *r.pick(&[32_760, 65_530, 65_536, 70_000]);
        d.insert(k, Unit { lines: vec![Line::new(Tag::Blank, "\n".repeat(n))] });
    }
    let pool = disk::pool_of(&d);
    let rate = *r.pick(&[0, 10, 25, 60, 100]);
    let ins = *r.pick(&[0, 0, 10, 30]);
    let dup = *r.pick(&[0, 0, 10]);
    let lose = *r.pick(&[0, 0, 0, 30, 100]);
    let stray = *r.pick(&[0, 0, 8, 25]);
    for u in d.iter_mut() {
        let mut out: Vec<Line> = vec![];
        for mut l in std::mem::take(&mut u.lines) {
            match l.tag {
                Tag::Leaf | Tag::Comma | Tag::Blank if r.pct(lose) => l.hit("lost", String::new()),
                Tag::Leaf if r.pct(rate) => disk::damage_line(r, &m, &mut l, &pool),
                Tag::Comma if r.pct(rate / 2) => disk::damage_line(r, &m, &mut l, &pool),
                Tag::Leaf if r.pct(dup) => {
                    let t = l.text.clone();
                    l.hit("dup", t);
                }
                Tag::Open | Tag::Mid | Tag::Close if r.pct(stray) => {
                    let done = !(errors_only && l.tag != Tag::Open) && (r.pct(60) && disk::damage_block_line(r, &mut l, &pool));
                    if !(errors_only && l.tag != Tag::Open) && !done && !l.text.contains("BTW") {
                        let t = format!("{} {}", l.text, r.pick(STRAY));
                        l.hit("stray", t);
                    }
                }
                _ => {}
            }
            let block_end = l.tag == Tag::Close;
            out.push(l);
            if r.pct(ins) && !block_end {
                let last = out.last().unwrap();
                // Between a switch's header and its first branch no statement may stand.
                let head = last.tag == Tag::Open && matches!(bk_of(&last.text), Bk::If | Bk::Switch);
                if !head {
                    let g = gen::garbage(r);
                    if neutral(&g) && no_stop_words(&g) {
                        let mut x = Line::new(Tag::Leaf, String::new());
                        x.hit("inserted", g);
                        out.push(x);
                    }
                }
            }
        }
        u.lines = out;
    }
    s.docs.push(d);
}

/// The stored text of a program, and the ends of the lines behind which no block is open.
pub fn outermost(doc: &Doc) -> Option<(String, Vec<usize>)> {
    for l in doc.iter().flat_map(|u| &u.lines) {
        disk::count_line_fault(&l.fault);
    }
    let all: Vec<&Line> = doc.iter().flat_map(|u| &u.lines).collect();
    let mut i = 0;
    let lines = settled(&all, &mut i, Bk::Root, true)?;
    let (mut depth, mut at, mut ends) = (0, 0, vec![]);
    for l in &lines {
        match l.tag {
            Tag::Open => depth += 1,
            Tag::Close => depth -= 1,
            _ => {}
        }
        at += l.text.len() + 1;
        if depth == 0 {
            ends.push(at);
        }
    }
    let text = join(&lines);
    ends.retain(|e| *e < text.len());
    Some((text, ends))
}

fn run_c07(s: &Scn, errors_only: bool) {
    let doc: Doc = s.docs.first().cloned().unwrap_or_default();
    if s.get("disk") == 1 {
        let mut k = Disk::of(&gen::doc_text(&doc));
        for f in &s.faults {
            k.apply(f);
            nontrivial();
        }
        let (text, org) = k.read();
        let intact = disk::intact_ranges(&doc, &text, &org);
        let chunks = chunks_of(&text, &intact);
        chunk_law(&text, &chunks, "after storage faults");
        return;
    }
    for l in doc.iter().flat_map(|u| &u.lines) {
        disk::count_line_fault(&l.fault);
        if !l.fault.is_empty() {
            nontrivial();
        }
    }
    let all: Vec<&Line> = doc.iter().flat_map(|u| &u.lines).collect();
    let mut i = 0;
    let lines = match settled(&all, &mut i, Bk::Root, true) {
        Some(l) => l,
        None => return,
    };
    let mut dep = 0u64;
    for l in &lines {
        if l.tag == Tag::Open {
            dep += 1;
            stat_max_depth(dep);
        } else if l.tag == Tag::Close {
            dep = dep.saturating_sub(1);
        }
    }
    for w in lines.windows(2) {
        if matches!(w[0].tag, Tag::Open | Tag::Mid) && matches!(w[1].tag, Tag::Mid | Tag::Close) {
            stat(St::empty_blocks, 1);
        }
    }
    let (ast, errors, clean) = structure_law(&lines, "after line faults");
    if !errors_only {
        return;
    }
    // C12: the listing is exactly these errors, in this order.
    let n = ast.0.len();
    sim::set_budget(budget(16 * lines.len() * 40 + 64 * n));
    let listed = match call(|| ast.iter_errors().map(|e| format!("{:?}", e)).collect::<Vec<String>>()) {
        Ok(v) => v,
        Err(p) => die_violation("panic", &format!("listing errors panicked: {}", p)),
    };
    sim::no_budget();
    stat(St::lists_checked, 1);
    let text = join(&lines);
    let listed: Vec<T> = listed.iter().map(|x| crate::dbgtree::parse(x).unwrap_or_else(|| harness(&format!("cannot read error text {}", x)))).collect();
    if listed != errors {
        die_violation("error-list", &format!("{} (text {:?})", first_diff(&listed, &errors).replace("node", "error"), clip(&text, 900)));
    }
    if !clean {
        die_violation("error-list", &format!("intact blocks are listed as errors (text {:?})", clip(&text, 900)));
    }
    if all.iter().all(|l| l.fault.is_empty()) {
        stat(St::docs_valid, 1);
        if !listed.is_empty() {
            die_violation("error-list", &format!("an undamaged valid program lists {} (text {:?})", show(&listed[0]), clip(&text, 900)));
        }
    }
}
fn stat_max_depth(d: u64) {
    sim::stat_max(St::max_depth_seen, d);
}

// ------------------------------------------------------------ C08

fn draw_c08(r: &mut Rng, s: &mut Scn) {
    let mut m = Mix::draw(r);
    m.comments = *r.pick(&[0, 0, 10]);
    m.multiline = *r.pick(&[0, 0, 10]);
    m.garbage = *r.pick(&[0, 0, 15]);
    if r.pct(50) {
        m.blocks = 50;
        m.depth = m.depth.max(1);
    }
    let n = 1 + r.idx(9);
    let mut d = gen::doc(r, &m, n);
    // The history is checked after each of its steps.
    d.truncate(60);
    while d.len() > 1 && gen::doc_text(&d).len() > 30_000 {
        d.pop();
    }
    let long = gen::doc_text(&d).len() > 6_000;
    let total = gen::doc_text(&d).len() as u64;
    for _ in 0..r.range(1, 6) {
        match r.below(3) {
            0 => s.fault(0, "tokcut", r.below(65536), 0, ""),
            _ => {
                let mut a = r.below(total.max(1) + 1);
                if r.pct(30) {
                    // right at, before or behind a line break
                    let t = gen::doc_text(&d);
                    let nl: Vec<usize> = t.match_indices('\n').map(|x| x.0).collect();
                    let ends: Vec<u64> = d.iter().scan(0, |p, u| { *p += u.text().len() as u64; Some((*p, u.is_block())) }).filter(|x| x.1).map(|x| x.0).collect();
                    if !ends.is_empty() && r.pct(50) {
                        // in the last line of a block
                        a = r.pick(&ends).saturating_sub(1 + r.below(18));
                    } else if !nl.is_empty() {
                        a = (*r.pick(&nl) as u64 + r.below(3)).saturating_sub(r.below(2)).min(total);
                    }
                }
                s.fault(0, "cut", a, 0, "")
            }
        }
    }
    if r.pct(if long { 10 } else { 60 }) {
        let frag = !long && r.pct(50);
        for u in 0..d.len() {
            let parts = if frag { r.range(1, 4) } else { 1 };
            for k in 0..parts {
                s.op(0, "append", u, k, parts);
                if r.pct(30) {
                    s.op(0, "sync", 0, 0, 0);
                }
                if r.pct(15) {
                    let sector = *r.pick(&[1u64, 4, 8, 16, 64]);
                    s.op(0, if r.pct(70) { "crash" } else { "crash-zeros" }, 0, r.below(65536), sector);
                    s.op(0, "recover", 0, r.below(3), 0);
                }
            }
            if r.pct(10) {
                s.op(0, "check", 0, 0, 0);
            }
        }
    }
    s.docs.push(d);
}

/// The whole-text laws of C08 on what a reader finds.
fn cut_laws(doc: &Doc, text: &str, org: &[i64], what: &str) {
    let intact = disk::intact_ranges(doc, text, org);
    let chunks = chunks_of(text, &intact);
    let tail = chunk_law(text, &chunks, what);
    // Without its final line break (or with one more) a text means the same.
    let last_open = chunks.last().map(|&(a, b)| !intact.contains(&(a, b)) && !neutral(&text[a..b])).unwrap_or(false);
    if !last_open {
        let t = text.strip_suffix('\n').unwrap_or(text);
        stat(St::newline_checks, 1);
        let (a, b) = (nodes(t), nodes(&format!("{}\n", t)));
        if a != b {
            let d = match (&a, &b) {
                (Ok(a), Ok(b)) => first_diff(a, b),
                _ => "one of them is rejected".into(),
            };
            die_violation("final-newline", &format!("{}: without its final line break the text differs: {} (text {:?})", what, d, clip(t, 500)));
        }
    }
    // A block that is not closed is an error.
    if let Some(&(a, b)) = chunks.last() {
        if let Some(h) = open_block_at(doc, text, org, a, b) {
            stat(St::open_blocks_reported, 1);
            let above = text[..h].matches('\n').count() as i32 + 1;
            let done = tail.iter().any(|n| n.count("ASTBlock") > 0 && n.name() != "ASTError" && n.lines().iter().min() == Some(&above));
            if done {
                die_violation("open-block-accepted", &format!("{}: a block whose end was cut off is accepted as complete (text {:?})", what, clip(text, 600)));
            }
            if !tail.iter().any(|n| n.name() == "ASTError") && nodes(text).is_ok() {
                die_violation("open-block-unreported", &format!("{}: a block whose end was cut off is not reported (text {:?})", what, clip(text, 600)));
            }
        }
    }
}

/// How much of a block's last line makes the block complete: its closing words, and of a loop's
/// label one character.
fn closer_of(l: &str) -> usize {
    for (w, label) in [("IM OUTTA YR", true), ("IF U SAY SO", false), ("OIC", false)] {
        let mut at = 0;
        let found = w.split(' ').all(|w| {
            at = l.len() - l[at..].trim_start().len();
            let ok = l[at..].starts_with(w);
            at += w.len();
            ok
        });
        if found {
            return if label { l.len() - l[at..].trim_start().len() + 1 } else { at };
        }
    }
    0
}

/// If the last chunk is a proper prefix of a block unit that has its whole header but not its
/// closing word: where the header's line starts.
fn open_block_at(doc: &Doc, text: &str, org: &[i64], a: usize, b: usize) -> Option<usize> {
    let mut p = 0i64;
    for u in doc {
        let t = u.text();
        if u.lines.first().map(|l| l.tag == Tag::Open).unwrap_or(false) && org.get(a) == Some(&p) {
            let n = (b - a) as i64;
            if (0..n).all(|k| org[a + k as usize] == p + k) && b == text.len() {
                let head = u.lines[0].text.len();
                let last = u.lines.last()?;
                let close = t.len() - 1 - last.text.len() + closer_of(&last.text);
                if (b - a) >= head && (b - a) < close {
                    return Some(a);
                }
            }
        }
        p += t.len() as i64;
    }
    None
}

/// A block whose tokens are cut off before its closing words (and a loop's label) is an error.
fn open_tokens_law(got: &[Token], unit: &[Token], nodes: &[T]) {
    use lolcode_ast::lexer::Keywords::*;
    let key = |t: &Token| match &t.token_type { TokenType::Keyword(k) => Some(k.clone()), _ => None };
    let Some(close) = unit.iter().rposition(|t| matches!(key(t), Some(OIC | IF_U_SAY_SO | IM_OUTTA_YR))) else { return };
    let Some(open) = unit.iter().position(|t| matches!(key(t), Some(O_RLY | WTF | HOW_IZ_I | IM_IN_YR))) else { return };
    let need = close + 1 + matches!(key(&unit[close]), Some(IM_OUTTA_YR)) as usize;
    if got.len() <= open || got.len() >= need {
        return;
    }
    stat(St::open_blocks_reported, 1);
    let head = unit[open].range.0.line;
    let done = nodes.iter().any(|n| n.count("ASTBlock") > 0 && n.name() != "ASTError" && n.lines().iter().min() == Some(&head));
    if done || !nodes.iter().any(|n| n.name() == "ASTError") {
        die_violation("open-block-accepted", &format!("cut token list: a block whose end was cut off is accepted as complete ({} of the unit's tokens {})", got.len(), clip(&format!("{:?}", unit), 600)));
    }
}

fn run_c08(s: &Scn) {
    let doc: Doc = s.docs.first().cloned().unwrap_or_default();
    let whole = gen::doc_text(&doc);
    let starts: Vec<usize> = doc.iter().scan(0, |p, u| { let x = *p; *p += u.text().len(); Some(x) }).collect();
    let full = Disk::of(&whole);
    cut_laws(&doc, &whole, &full.o, "uncut");
    for f in &s.faults {
        nontrivial();
        stat(St::cuts, 1);
        match f.kind.as_str() {
            "cut" => {
                let mut d = full.clone();
                let n = (f.a as usize).min(d.b.len());
                d.b.truncate(n);
                d.o.truncate(n);
                let (t, o) = d.read();
                cut_laws(&doc, &t, &o, "cut text");
            }
            _ => {
                // the token list is cut
                let v = match tokenize(&whole) {
                    Ok(Ok(v)) => v,
                    Ok(Err(_)) => continue,
                    Err(p) => die_panic(&p),
                };
                let n = (f.a as usize * (v.len() + 1)) >> 16;
                // complete units before the cut, by the lines they stand on
                let mut line = 1;
                let mut ends = vec![];
                for u in &doc {
                    line += u.text().matches('\n').count() as i32;
                    ends.push(v.iter().position(|t| t.range.0.line >= line).unwrap_or(v.len()));
                }
                let mut want = vec![];
                let mut from = 0;
                for (i, &e) in ends.iter().enumerate() {
                    if e > n {
                        break;
                    }
                    want.extend(tok_nodes(&v[from..e], &format!("{:?}", doc[i].text())));
                    from = e;
                    stat(St::units_checked, 1);
                }
                let got = tok_nodes(&v[..n], &format!("the first {} tokens of {:?}", n, clip(&whole, 300)));
                let tail = tok_nodes(&v[from..n], "the tail");
                if let Some(&end) = ends.iter().find(|e| **e > n) {
                    open_tokens_law(&v[from..n], &v[from..end], &tail);
                }
                want.extend(tail);
                if got != want {
                    die_violation("composition", &format!("cut token list: {} (first {} tokens of {:?})", first_diff(&got, &want), n, clip(&whole, 700)));
                }
                sim::trace_add(hash_bytes(format!("{:?}", got).as_bytes()));
            }
        }
    }
    // history of appends, crashes and recoveries
    let mut durable = Disk::default();
    let mut pend = Disk::default();
    let mut dirty = false;
    let content = |a: &Disk, b: &Disk| {
        let mut c = a.clone();
        c.b.extend_from_slice(&b.b);
        c.o.extend_from_slice(&b.o);
        c
    };
    for o in &s.ops {
        match o.kind.as_str() {
            "append" => {
                let (Some(u), Some(&st)) = (doc.get(o.d), starts.get(o.d)) else { continue };
                let t = u.text().into_bytes();
                let (k, n) = (o.a as usize, (o.b as usize).max(1));
                let (x, y) = (t.len() * k.min(n) / n, t.len() * (k + 1).min(n) / n);
                pend.b.extend_from_slice(&t[x..y]);
                pend.o.extend((x..y).map(|i| (st + i) as i64));
                stat(St::appends, 1);
                dirty = true;
            }
            "sync" => {
                durable = content(&durable, &pend);
                pend = Disk::default();
            }
            "crash" | "crash-zeros" => {
                stat(St::crashes, 1);
                nontrivial();
                let keep = ((o.a as u128 * (pend.b.len() as u128 + 1)) >> 16) as usize;
                let sector = o.b.max(1) as usize;
                // Whole sectors of the file reach the medium.
                let end = durable.b.len() + keep;
                let keep = ((end / sector * sector).max(durable.b.len()) - durable.b.len()).min(keep);
                if keep < pend.b.len() {
                    stat(if keep > 0 { St::torn_tails } else { St::lost_tails }, 1);
                }
                let zeros = if o.kind == "crash-zeros" { sector.min(pend.b.len() - keep) } else { 0 };
                pend.b.truncate(keep);
                pend.o.truncate(keep);
                durable = content(&durable, &pend);
                durable.b.extend(std::iter::repeat(0).take(zeros));
                durable.o.extend(std::iter::repeat(-1).take(zeros));
                pend = Disk::default();
                let (t, org) = durable.read();
                cut_laws(&doc, &t, &org, "after a crash");
                dirty = false;
            }
            "recover" => {
                stat(St::recoveries, 1);
                match o.a {
                    1 => {
                        let n = durable.b.iter().rposition(|x| *x == b'\n').map(|x| x + 1).unwrap_or(0);
                        durable.b.truncate(n);
                        durable.o.truncate(n);
                    }
                    2 => {
                        durable.b.push(b'\n');
                        durable.o.push(-1);
                    }
                    _ => {}
                }
            }
            _ => {
                let (t, org) = content(&durable, &pend).read();
                cut_laws(&doc, &t, &org, "between appends");
                dirty = false;
            }
        }
    }
    if dirty {
        let (t, org) = content(&durable, &pend).read();
        cut_laws(&doc, &t, &org, "after the history");
    }
}

// ------------------------------------------------------------ C09

fn draw_c09(r: &mut Rng, s: &mut Scn) {
    if r.pct(30) {
        lang::draw_account(r, s);
        return;
    }
    let mut m = Mix::draw(r);
    m.garbage = *r.pick(&[0, 0, 20]);
    m.comments = *r.pick(&[0, 0, 10]);
    m.multiline = *r.pick(&[0, 0, 10]);
    if r.pct(50) {
        m.blocks = 0;
    }
    let n = 1 + r.idx(10);
    s.docs.push(gen::doc(r, &m, n));
    let m2 = Mix::draw(r);
    let n = 1 + r.idx(3);
    s.docs.push(gen::doc(r, &m2, n));
    let kinds = ["lose", "dup", "swap", "move", "alter", "line", "foreign", "cut", "losestmt", "movestmt", "dupstmt", "redeliver"];
    let on: Vec<&str> = kinds.iter().filter(|_| r.pct(40)).copied().collect();
    for _ in 0..*r.pick(&[0u64, 1, 1, 2, 3, 5, 9]) {
        let k = if on.is_empty() { "lose" } else { *r.pick(&on) };
        if k == "cut" && r.pct(80) {
            continue;
        }
        let (a, b) = (r.below(65536), r.next() >> 16);
        s.fault(9, k, a, b, "");
    }
}

fn run_c09(s: &Scn) {
    if !s.texts.is_empty() {
        lang::run_account(s);
        return;
    }
    let doc: Doc = s.docs.first().cloned().unwrap_or_default();
    let other: Doc = s.docs.get(1).cloned().unwrap_or_default();
    let text = gen::doc_text(&doc);
    let get = |t: &str| match tokenize(t) {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => vec![],
        Err(p) => die_panic(&p),
    };
    let with_comments = get(&text);
    let foreign = get(&gen::doc_text(&other));
    let sent = &with_comments;
    // token ranges of block units, by line
    let mut blocks: Vec<(i64, i64)> = vec![];
    let mut line = 1;
    for u in &doc {
        let l2 = line + u.text().matches('\n').count() as i32;
        if u.is_block() {
            let first_open = sent.iter().position(|t| t.range.0.line >= line && is_opener(t)).unwrap_or(0) as i64;
            let e = sent.iter().position(|t| t.range.0.line >= l2).unwrap_or(sent.len()) as i64;
            blocks.push((first_open, e));
        }
        line = l2;
    }
    let d = deliver(sent, &foreign, &s.faults);
    let ids: Vec<i64> = d.iter().filter(|x| !is_comment(&x.1)).map(|x| x.0).collect();
    let v: Vec<Token> = d.into_iter().map(|x| x.1).collect();
    let intact = |i: usize| -> Option<usize> {
        let &(a, e) = blocks.iter().find(|b| b.0 == ids[i])?;
        let own: Vec<i64> = (a..e).filter(|&k| !is_comment(&sent[k as usize])).collect();
        let n = own.len();
        if i + n <= ids.len() && ids[i..i + n] == own[..] {
            Some(i + n)
        } else {
            None
        }
    };
    token_law(&v, &intact, "delivered tokens");
}

// ------------------------------------------------------------ C10

fn draw_c10(r: &mut Rng, s: &mut Scn) {
    let mut m = Mix::draw(r);
    m.expr_statements = *r.pick(&[60, 100, 100]);
    m.loose = r.pct(40);
    m.expr_depth = r.range(1, 5);
    m.blocks = 0;
    m.blanks = 0;
    let n = 1 + r.idx(3);
    s.docs.push(gen::doc(r, &m, n));
    let threads = *r.pick(&[1usize, 2, 2, 3]);
    let mut est = 200;
    let len = gen::doc_text(&s.docs[0]).len() as u64;
    for t in 0..threads {
        for _ in 0..r.range(1, 5) {
            let k = *r.pick(&["walk", "walk", "walk", "inner", "pair", "range", "print", "clone", "abandon", "nest"]);
            let (d, a, b) = (r.idx(4), r.below(65536), r.next() >> 32);
            s.op(t, k, d, a, b);
            est += len * 6 * FINE + 50;
        }
    }
    s.preempts = preempts(r, est, threads);
    s.shared = shared_preempts(r, threads);
}

/// Crosses threads whether or not the type allows it: that it does is checked separately.
#[derive(Default)]
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait Not {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> Not for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    #[allow(dead_code)]
    fn shareable(&self) -> bool {
        true
    }
}
macro_rules! shareable {
    ($t:ty) => {
        Probe::<$t>(std::marker::PhantomData).shareable()
    };
}

fn tok_id(t: &Token) -> (i32, i32, i32, i32, i32, i32, i32, i32, String) {
    let (a, b) = (&t.range.0, &t.range.1);
    (a.line, a.column, a.bytes, a.chars, b.line, b.column, b.bytes, b.chars, format!("{:?}", t.token_type))
}

fn run_c10(s: &Scn) {
    if !(shareable!(ASTBlock) && shareable!(Node) && shareable!(ASTExpression) && shareable!(Token) && shareable!(lolcode_ast::lexer::TokenError)) {
        die_violation("not-shareable", "results can no longer be shared between threads (Send + Sync is gone)");
    }
    let text = gen::doc_text(s.docs.first().map(|d| d.as_slice()).unwrap_or(&[]));
    let v = match tokenize(&text) {
        Ok(Ok(v)) => without_comments(&v),
        Ok(Err(_)) => return,
        Err(p) => die_panic(&p),
    };
    let ast = Shared(ast_of(sim::given(|| v.clone()), &format!("{:?}", text)));
    let before = format!("{:?}", ast.0);
    // statement -> its tokens, from the token list alone
    let mut stmts: Vec<Vec<Token>> = vec![];
    let mut i = 0;
    while i < v.len() {
        let (a, e) = segment_end(&v, i);
        if a < e {
            stmts.push(v[a..e].iter().filter(|t| t.token_type != TokenType::Ellipsis).cloned().collect());
        }
        i = e;
    }
    // expressions that stand for a whole statement
    let mut targets: Vec<(usize, Vec<Token>)> = vec![];
    for (k, n) in ast.0 .0.iter().enumerate() {
        if let Node::Expression(e) = n {
            let first = match call(|| e.tokens().next().cloned()) {
                Ok(Some(t)) => t,
                Ok(None) => die_violation("walk", &format!("the walk of an expression yields no token; text {:?}", text)),
                Err(p) => die_panic(&p),
            };
            let leftover = matches!(ast.0 .0.get(k + 1), Some(Node::ASTError(_)));
            match stmts.iter().find(|s| tok_id(&s[0]) == tok_id(&first)) {
                Some(_) if leftover => {}
                Some(st) => targets.push((k, st.clone())),
                None => die_violation("walk", &format!("the walk of expression {} starts with {:?}, which starts no statement; text {:?}", k, first, text)),
            }
        }
    }
    if targets.is_empty() {
        return;
    }
    nontrivial();
    let ast = Arc::new(ast);
    let targets = Arc::new(Shared(targets));
    let text = Arc::new(text);
    let before = Arc::new(before);
    let n = (s.ops.iter().map(|o| o.t).max().unwrap_or(0) + 1).min(sim::MAX_SLOTS);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..n {
        let mine: Vec<Op> = s.ops.iter().filter(|o| o.t == t).cloned().collect();
        let (ast, targets, text, before) = (ast.clone(), targets.clone(), text.clone(), before.clone());
        bodies.push(Box::new(move || {
            for o in mine {
                let (k, want) = &targets.0[o.d % targets.0.len()];
                let e = match &ast.0 .0[*k] {
                    Node::Expression(e) => e,
                    _ => continue,
                };
                read_op(&o, e, want, &ast.0, &text, &before);
            }
        }));
    }
    sim::set_budget(budget(2000 * (s.ops.len() + 1) + text.len() * 64 * (s.ops.len() + 1)));
    sim::run_threads(bodies, s.preempts.clone(), s.shared.clone(), STACK);
    sim::no_budget();
    if format!("{:?}", ast.0) != *before {
        die_violation("changed", &format!("reading changed the tree of {:?}", text));
    }
    sim::trace_add(hash_bytes(before.as_bytes()));
}

type Walk<'a> = Box<dyn Iterator<Item = &'a Token> + 'a>;
fn inner_walk(e: &ASTExpression) -> Walk<'_> {
    match e {
        ASTExpression::BinaryOperation(x) => Box::new(x.tokens()),
        ASTExpression::UnaryOperation(x) => Box::new(x.tokens()),
        ASTExpression::NaryOperation(x) => Box::new(x.tokens()),
        ASTExpression::Value(x) => Box::new(x.tokens()),
    }
}

fn expect_next(got: Result<Option<Token>, String>, want: Option<&Token>, i: usize, o: &Op, text: &str) {
    stat(St::walk_steps, 1);
    match got {
        Err(p) => die_panic(&format!("walking {:?}: {}", text, p)),
        Ok(g) => {
            if g.as_ref().map(tok_id) != want.map(tok_id) {
                die_violation(
                    "walk",
                    &format!("{} of thread {}: step {} yields {:?} instead of {:?}; text {:?}", o.kind, o.t, i, g, want, clip(text, 400)).replace('\n', " "),
                );
            }
        }
    }
}

fn read_op(o: &Op, e: &ASTExpression, want: &[Token], ast: &ASTBlock, text: &str, before: &str) {
    let full = want.len() + 3;
    match o.kind.as_str() {
        "walk" | "inner" => {
            stat(St::walks, 1);
            let mut w: Walk = match call(|| if o.kind == "walk" { Box::new(e.tokens()) as Walk } else { inner_walk(e) }) {
                Ok(w) => w,
                Err(p) => die_panic(&p),
            };
            for i in 0..full {
                let g = call(|| w.next().cloned());
                expect_next(g, want.get(i), i, o, text);
            }
        }
        "abandon" => {
            stat(St::walks_abandoned, 1);
            let n = (o.a as usize * (want.len() + 1)) >> 16;
            let mut w = match call(|| e.tokens()) {
                Ok(w) => w,
                Err(p) => die_panic(&p),
            };
            for i in 0..n {
                let g = call(|| w.next().cloned());
                expect_next(g, want.get(i), i, o, text);
            }
        }
        "pair" | "nest" => {
            // two walks of the same expression, in a seeded alternation
            stat(St::walks, 2);
            let mut w: [Walk; 2] = [Box::new(e.tokens()), if o.kind == "pair" { Box::new(e.tokens()) } else { inner_walk(e) }];
            let mut at = [0usize; 2];
            let mut r = Rng::new(o.b);
            for _ in 0..2 * full {
                let k = r.below(2) as usize;
                if at[k] >= full {
                    continue;
                }
                let g = call(|| w[k].next().cloned());
                expect_next(g, want.get(at[k]), at[k], o, text);
                at[k] += 1;
                if r.pct(4) {
                    w[k] = Box::new(e.tokens());
                    at[k] = 0;
                    stat(St::walks_abandoned, 1);
                }
            }
        }
        "range" => {
            stat(St::ranges_checked, 1);
            match call(|| {
                let (a, b) = e.range();
                (*a, *b)
            }) {
                Err(p) => die_panic(&p),
                Ok((a, b)) => {
                    let (x, y) = (&want[0].range.0, &want[want.len() - 1].range.1);
                    if (a.line, a.column, a.bytes, a.chars) != (x.line, x.column, x.bytes, x.chars)
                        || (b.line, b.column, b.bytes, b.chars) != (y.line, y.column, y.bytes, y.chars)
                    {
                        die_violation(
                            "range",
                            &format!("range of an expression is {:?}-{:?} but its tokens span {:?}-{:?}; text {:?}", a, b, x, y, clip(text, 400)),
                        );
                    }
                }
            }
        }
        "print" => match call(|| format!("{:?}", ast)) {
            Err(p) => die_panic(&p),
            Ok(t) => {
                if t != before {
                    die_violation("changed", &format!("printing while others read gives another text; {:?}", clip(text, 300)));
                }
            }
        },
        _ => {
            stat(St::clones_compared, 1);
            match call(|| {
                let c = ast.clone();
                let same = c == *ast && ast.clone() == c;
                (same, format!("{:?}", c))
            }) {
                Err(p) => die_panic(&p),
                Ok((same, t)) => {
                    // NaN never occurs: no literal yields one.
                    if !same || t != before {
                        die_violation("changed", &format!("a clone differs from its original; {:?}", clip(text, 300)));
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------ C11

fn draw_c11(r: &mut Rng, s: &mut Scn) {
    let pipes = *r.pick(&[1usize, 1, 2]);
    let u = *r.pick(&[1, 3, 8]);
    s.texts = texts(r, pipes, u);
    let mut est = 300;
    for p in 0..pipes {
        // a: bit 0 copy instead of move; b: capacity the receiver reserves
        s.op(2 * p, "lex", p, r.below(2), 0);
        for _ in 0..r.range(1, 8) {
            s.op(2 * p, "batch", p, r.range(0, 9), r.below(4));
        }
        s.op(2 * p + 1, "parse", p, r.below(3), r.below(200));
        est += 80 * FINE * s.texts[p].len() as u64 + 100;
    }
    s.envs.push(draw_env(r));
    s.preempts = preempts(r, est, 2 * pipes);
    s.shared = shared_preempts(r, 2 * pipes);
}

#[derive(Default)]
struct Queue {
    q: VecDeque<Vec<Token>>,
    done: bool,
    failed: Option<String>,
}

fn run_c11(s: &Scn) {
    let pipes = s.texts.len().min(3);
    let want: Vec<String> = s.texts.iter().take(pipes).map(|t| reference("both", t)).collect();
    if let Some(e) = s.envs.first() {
        sim::apply_env(e);
    }
    let out: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(vec![]));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for p in 0..pipes {
        let q: Arc<Shared<Mutex<Queue>>> = Arc::new(Shared(Mutex::new(Queue::default())));
        let text = s.texts[p].clone();
        let mine: Vec<Op> = s.ops.iter().filter(|o| o.d == p && o.t == 2 * p).cloned().collect();
        let rx: Vec<Op> = s.ops.iter().filter(|o| o.d == p && o.t == 2 * p + 1).cloned().collect();
        let copy = mine.iter().any(|o| o.kind == "lex" && o.a == 1);
        let q1 = q.clone();
        bodies.push(Box::new(move || {
            let r = call(move || lolcode_ast::tokenize(text));
            let v = match r {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => {
                    let mut g = q1.0.lock().unwrap();
                    g.failed = Some(dump_err(&e));
                    g.done = true;
                    return;
                }
                Err(e) => {
                    let mut g = q1.0.lock().unwrap();
                    g.failed = Some(format!("panic {}", e));
                    g.done = true;
                    return;
                }
            };
            let total = v.len();
            let mut sent = 0;
            let mut it = v.iter();
            let mut owned = if copy { None } else { Some(v.clone().into_iter()) };
            let batches: Vec<&Op> = mine.iter().filter(|o| o.kind == "batch").collect();
            let mut k = 0;
            while sent < total {
                let n = if batches.is_empty() { total } else { batches[k % batches.len()].a as usize };
                let n = if k > 200 { total } else { n };
                let b: Vec<Token> = if let Some(o) = owned.as_mut() {
                    o.take(n).collect()
                } else {
                    stat(St::tok_cloned, n as u64);
                    match call(|| it.by_ref().take(n).cloned().collect::<Vec<_>>()) {
                        Ok(b) => b,
                        Err(e) => die_panic(&e),
                    }
                };
                sent += b.len();
                stat(St::tok_batches, 1);
                q1.0.lock().unwrap().q.push_back(b);
                let d = if batches.is_empty() { 0 } else { batches[k % batches.len()].b };
                for j in 0..d {
                    stat(St::tok_delayed, 1);
                    sim::yield_to(2 * p + 1 + j as usize);
                }
                k += 1;
            }
            q1.0.lock().unwrap().done = true;
        }));
        let out = out.clone();
        bodies.push(Box::new(move || {
            let (mode, cap) = rx.first().map(|o| (o.a, o.b)).unwrap_or((0, 0));
            let mut got: Vec<Token> = Vec::with_capacity(cap as usize);
            loop {
                let (b, done, failed) = {
                    let mut g = q.0.lock().unwrap();
                    (g.q.pop_front(), g.done, g.failed.clone())
                };
                if let Some(e) = failed {
                    out.lock().unwrap().push((p, e));
                    return;
                }
                match b {
                    Some(b) => got.extend(b),
                    None if done => break,
                    None => sim::yield_to(2 * p),
                }
            }
            let got = match mode {
                1 => {
                    let mut g = got;
                    g.shrink_to_fit();
                    g
                }
                2 => got.clone(),
                _ => got,
            };
            let r = call(move || lolcode_ast::parse(got));
            let g = match r {
                Ok(b) => dump_ast(b).unwrap_or_else(|e| format!("panic {}", e)),
                Err(e) => format!("panic {}", e),
            };
            out.lock().unwrap().push((p, g));
        }));
    }
    let total: usize = s.texts.iter().map(|t| t.len()).sum();
    sim::set_budget(2 * budget(total));
    sim::run_threads(bodies, s.preempts.clone(), s.shared.clone(), STACK);
    sim::no_budget();
    nontrivial();
    for (p, g) in out.lock().unwrap().iter() {
        stat(St::calls_compared, 1);
        sim::trace_add(hash_bytes(g.as_bytes()));
        if *g != want[*p] {
            let class = if g.starts_with("panic") && !want[*p].starts_with("panic") { "panic" } else { "staged" };
            die_violation(class, &format!("staged processing of {:?} differs from the one-shot call: {}", clip(&s.texts[*p], 400), line_diff(g, &want[*p])));
        }
    }
}
