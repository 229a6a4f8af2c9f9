//! Batches of simulated runs: worker processes, one fresh process per run, verdicts, evidence.
use crate::checks;
use crate::minimise;
use crate::rng::mix;
use crate::scn::Scn;
use crate::sim::{self, NSTAT, STAT_NAMES};
use crate::sys;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held,
    /// class, detail
    Broken(String, String),
    /// the machinery failed
    Error(String),
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub verdict: Verdict,
    pub trace: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub nontrivial: bool,
    pub stats: Vec<u64>,
}

/// Prepares the process: result page, hooks, arena. The code under test is never called here.
pub fn prepare() {
    sim::init_arena();
    sim::install_hooks();
    sim::use_page(sim::new_page());
    sim::set_cov(sys::map_shared(sim::COV_CAP));
}

const CPU_S: u64 = 80;

/// Executes one scenario in a fresh process.
pub fn run_once(s: &Scn) -> Outcome {
    sim::reset_page();
    let pid = unsafe { sys::fork() };
    if pid < 0 {
        return Outcome { verdict: Verdict::Error("fork failed".into()), trace: 0, steps: 0, sim_ns: 0, nontrivial: false, stats: vec![0; NSTAT] };
    }
    if pid == 0 {
        sys::die_with_parent();
        sys::cpu_limit(CPU_S);
        sys::alarm_s(400);
        if std::env::var_os("LOLSIM_STDERR").is_none() {
            sys::silence_stderr();
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| checks::run(s)));
        sim::set_armed(false);
        if r.is_err() {
            crate::exec::harness(&format!("harness panic: {}", sim::last_panic()));
        }
        sim::finish_counters();
        sim::page().status.store(1, SeqCst);
        unsafe { sys::_exit(0) }
    }
    let mut st = 0i32;
    while unsafe { sys::waitpid(pid, &mut st, 0) } != pid {}
    let p = sim::page();
    let sig = st & 0x7f;
    let verdict = if sig == 24 {
        Verdict::Broken("hang".into(), format!("no return within {} s of processor time", CPU_S))
    } else if sig == 9 || sig == 14 || sig == 15 || sig == 2 {
        Verdict::Error(format!("run ended by signal {}", sig))
    } else if sig != 0 {
        Verdict::Broken("crash".into(), format!("the process died of signal {} (11 and 6: memory fault, stack overflow or abort)", sig))
    } else {
        match p.status.load(SeqCst) {
            1 => Verdict::Held,
            2 => {
                let m = sim::get_msg();
                let (c, d) = m.split_once(": ").unwrap_or((&m, ""));
                Verdict::Broken(c.into(), d.into())
            }
            4 => Verdict::Broken("memory-runaway".into(), "the call asks for ever more memory".into()),
            0 => Verdict::Broken("exit".into(), format!("the code under test ended the process (status {})", st)),
            _ => Verdict::Error(sim::get_msg()),
        }
    };
    Outcome {
        verdict,
        trace: p.trace.load(SeqCst),
        steps: p.steps.load(SeqCst),
        sim_ns: p.sim_ns.load(SeqCst),
        nontrivial: p.nontrivial.load(SeqCst) == 1,
        stats: p.stat.iter().map(|x| x.load(SeqCst)).collect(),
    }
}

// ---------------------------------------------------------------- batches

const HASH_CAP: usize = 1 << 20;
#[repr(C)]
struct Share {
    runs: AtomicU64,
    nontrivial: AtomicU64,
    rerun: AtomicU64,
    rerun_differs: AtomicU64,
    steps: AtomicU64,
    sim_ns: AtomicU64,
    stats: [AtomicU64; NSTAT],
    bad_index: AtomicU64,
    slow_us: AtomicU64,
    slow_index: AtomicU64,
    err_len: AtomicU64,
    err: [u8; 4096],
    nhash: AtomicU64,
    hash: [u64; HASH_CAP],
    done: AtomicU32,
}
fn share() -> &'static mut Share {
    unsafe { &mut *(sys::map_shared(std::mem::size_of::<Share>()) as *mut Share) }
}
pub fn run_seed(base: u64, i: u64) -> u64 {
    mix(base.wrapping_mul(0x1_0000_0001) ^ mix(i)) >> 1
}
fn is_max(i: usize) -> bool {
    STAT_NAMES[i].starts_with("max_")
}

struct Batch {
    runs: u64,
    nontrivial: u64,
    rerun: u64,
    rerun_differs: u64,
    steps: u64,
    sim_ns: u64,
    stats: Vec<u64>,
    distinct: u64,
    bad: Option<u64>,
    error: Option<String>,
    wall: f64,
    slowest: (u64, u64),
}

fn batch(prop: &str, base: u64, total: u64, cap_s: f64, workers: usize) -> Batch {
    let t0 = sys::real_now();
    let stop: &AtomicU64 = unsafe { &*(sys::map_shared(4096) as *const AtomicU64) };
    stop.store(u64::MAX, SeqCst);
    let shares: Vec<&'static mut Share> = (0..workers).map(|_| share()).collect();
    let mut pids = vec![];
    for (w, sh) in shares.iter().enumerate() {
        sh.bad_index.store(u64::MAX, SeqCst);
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            sys::die_with_parent();
            sim::use_page(sim::new_page());
            let sh: &mut Share = unsafe { &mut *(std::ptr::addr_of!(**sh) as *mut Share) };
            let mut i = w as u64;
            while i < total && i < stop.load(SeqCst) && sys::real_now() - t0 < cap_s {
                let drawn = std::panic::catch_unwind(|| checks::draw(prop, run_seed(base, i)));
                let s = match drawn {
                    Ok(s) => s,
                    Err(_) => {
                        let m = format!("drawing run {}: {}", i, sim::last_panic());
                        sh.err[..m.len().min(4096)].copy_from_slice(&m.as_bytes()[..m.len().min(4096)]);
                        sh.err_len.store(m.len().min(4096) as u64, SeqCst);
                        break;
                    }
                };
                let began = sys::real_now();
                let o = run_once(&s);
                let us = ((sys::real_now() - began) * 1e6) as u64;
                if us > sh.slow_us.fetch_max(us, SeqCst) {
                    sh.slow_index.store(i, SeqCst);
                }
                sh.runs.fetch_add(1, SeqCst);
                sh.steps.fetch_add(o.steps, SeqCst);
                sh.sim_ns.fetch_add(o.sim_ns, SeqCst);
                for (k, v) in o.stats.iter().enumerate() {
                    if is_max(k) {
                        sh.stats[k].fetch_max(*v, SeqCst);
                    } else {
                        sh.stats[k].fetch_add(*v, SeqCst);
                    }
                }
                if o.nontrivial {
                    sh.nontrivial.fetch_add(1, SeqCst);
                    let n = sh.nhash.load(SeqCst) as usize;
                    if n < HASH_CAP {
                        sh.hash[n] = o.trace;
                        sh.nhash.store(n as u64 + 1, SeqCst);
                    }
                }
                match &o.verdict {
                    Verdict::Held => {
                        if i % 64 == 7 {
                            let p = run_once(&s);
                            sh.rerun.fetch_add(1, SeqCst);
                            if (p.trace, p.steps, p.sim_ns, &p.stats) != (o.trace, o.steps, o.sim_ns, &o.stats) {
                                sh.rerun_differs.fetch_add(1, SeqCst);
                            }
                        }
                    }
                    Verdict::Broken(..) => {
                        sh.bad_index.store(i, SeqCst);
                        stop.fetch_min(i, SeqCst);
                        break;
                    }
                    Verdict::Error(m) => {
                        let m = format!("seed {}: {}", run_seed(base, i), m);
                        let n = m.len().min(4096);
                        sh.err[..n].copy_from_slice(&m.as_bytes()[..n]);
                        sh.err_len.store(n as u64, SeqCst);
                        stop.fetch_min(i, SeqCst);
                        break;
                    }
                }
                i += workers as u64;
            }
            sh.done.store(1, SeqCst);
            unsafe { sys::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        while unsafe { sys::waitpid(p, &mut st, 0) } != p {}
    }
    let mut b = Batch {
        runs: 0,
        nontrivial: 0,
        rerun: 0,
        rerun_differs: 0,
        steps: 0,
        sim_ns: 0,
        stats: vec![0; NSTAT],
        distinct: 0,
        bad: None,
        error: None,
        wall: 0.0,
        slowest: (0, 0),
    };
    let mut set: HashSet<u64> = HashSet::new();
    for sh in &shares {
        b.runs += sh.runs.load(SeqCst);
        b.nontrivial += sh.nontrivial.load(SeqCst);
        b.rerun += sh.rerun.load(SeqCst);
        b.rerun_differs += sh.rerun_differs.load(SeqCst);
        b.steps += sh.steps.load(SeqCst);
        b.sim_ns = b.sim_ns.saturating_add(sh.sim_ns.load(SeqCst));
        b.slowest = b.slowest.max((sh.slow_us.load(SeqCst), sh.slow_index.load(SeqCst)));
        for k in 0..NSTAT {
            let v = sh.stats[k].load(SeqCst);
            b.stats[k] = if is_max(k) { b.stats[k].max(v) } else { b.stats[k] + v };
        }
        for k in 0..sh.nhash.load(SeqCst) as usize {
            set.insert(sh.hash[k]);
        }
        let x = sh.bad_index.load(SeqCst);
        if x != u64::MAX {
            b.bad = Some(b.bad.map_or(x, |y| y.min(x)));
        }
        let n = sh.err_len.load(SeqCst) as usize;
        if n > 0 && b.error.is_none() {
            b.error = Some(String::from_utf8_lossy(&sh.err[..n]).into_owned());
        } else if sh.done.load(SeqCst) == 0 && b.error.is_none() {
            b.error = Some("a worker process died".into());
        }
    }
    b.distinct = set.len() as u64;
    b.wall = sys::real_now() - t0;
    b
}

// ---------------------------------------------------------------- check

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}
fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Simulated runs of the quick tier, sized to some ten seconds on eight cores.
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C01" => 45_000,
        "C02" => 24_000,
        "C03" => 30_000,
        "C04" => 40_000,
        "C05" => 24_000,
        "C06" => 70_000,
        "C08" => 36_000,
        "C10" => 120_000,
        "C11" => 60_000,
        "C15" => 80_000,
        "C17" => 6_000,
        _ => 120_000,
    }
}

struct Known {
    prop: String,
    file: String,
    what: String,
}
/// Lines "open: property=ID replay=FILE class=CLASS what fails".
fn known_findings(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("open: property=") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let f = it.next().unwrap_or("").strip_prefix("replay=").unwrap_or("");
            if p == prop && !f.is_empty() {
                v.push(Known { prop: p.into(), file: f.into(), what: it.next().unwrap_or("").into() });
            }
        }
    }
    v
}

pub fn check(prop: &str) -> i32 {
    if !checks::PROPS.contains(&prop) {
        eprintln!("no such property: {}", prop);
        return 2;
    }
    let t0 = sys::real_now();
    prepare();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut total = quick_runs(prop);
    let mut cap = 150.0;
    if thorough {
        total *= 60;
        cap = 700.0;
    }
    total = env_u64("LOLSIM_RUNS", total);
    cap = env_u64("LOLSIM_CAP", cap as u64) as f64;
    let workers = env_u64("LOLSIM_WORKERS", 8) as usize;
    println!("lolsim {} seed {} tier {} runs {}", prop, seed, if thorough { "thorough" } else { "quick" }, total);

    let mut findings = vec![];
    for k in known_findings(prop) {
        let path = format!("{}/{}", verif_dir(), k.file);
        let s = match std::fs::read_to_string(&path).ok().and_then(|t| Scn::read(&t)) {
            Some(s) => s,
            None => {
                eprintln!("cannot read {}", path);
                return 2;
            }
        };
        let o = run_once(&s);
        match o.verdict {
            Verdict::Broken(c, _) => {
                println!("KNOWN-FINDING: property={} {} [{}; {}]", k.prop, k.what, c, k.file);
                findings.push(format!("{} [{}]: still fails", k.file, c));
            }
            Verdict::Held => findings.push(format!("{}: no longer fails", k.file)),
            Verdict::Error(m) => {
                eprintln!("harness error on {}: {}", path, m);
                return 2;
            }
        }
    }

    let b = batch(prop, seed, total, cap, workers);
    let mut code = 0;
    let mut violation = String::new();
    if let Some(i) = b.bad {
        let s = checks::draw(prop, run_seed(seed, i));
        println!("run {} (seed {}) broke the property; minimising", i, run_seed(seed, i));
        match report(prop, s) {
            Some((path, class, detail)) => {
                println!("{}: {}", class, detail.chars().take(2000).collect::<String>());
                println!("VIOLATION property={} replay={}", prop, path);
                violation = format!("{}: {}", class, detail);
                code = 1;
            }
            None => code = 2,
        }
    } else if let Some(e) = &b.error {
        eprintln!("harness error: {}", e);
        code = 2;
    }
    let wall = sys::real_now() - t0;
    let samples = samples(prop, seed, total);
    if let Err(e) = evidence(prop, seed, thorough, &b, wall, &violation, &findings, &samples, workers) {
        eprintln!("cannot write evidence: {}", e);
        code = 2;
    }
    println!(
        "{} {} runs ({} non-trivial, {} distinct executions) in {:.1} s, {} steps; slowest run {} (seed {}) took {:.2} s",
        prop, b.runs, b.nontrivial, b.distinct, b.wall, b.steps, b.slowest.1, run_seed(seed, b.slowest.1), b.slowest.0 as f64 / 1e6
    );
    code
}

/// Confirms, minimises and writes the failing scenario.
fn report(prop: &str, s: Scn) -> Option<(String, String, String)> {
    let mut class = None;
    for _ in 0..5 {
        if let Verdict::Broken(c, d) = run_once(&s).verdict {
            class = Some((c, d));
            break;
        }
    }
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.scn", dir, prop, s.seed);
    let (c, _) = match class {
        Some(c) => c,
        None => {
            // Seen once in a fresh process, then not again: its cause is outside the simulator.
            let _ = std::fs::write(&path, s.write());
            return Some((path, "unstable".into(), "the run broke the property once but not again: behaviour depends on something outside the simulated environment".into()));
        }
    };
    // The minimised run is kept if its file reproduces it, and the whole run otherwise.
    for m in [minimise::minimise(&s, &c, 45.0), s.clone()] {
        let text = m.write();
        let _ = std::fs::write(&path, &text);
        let back = std::fs::read_to_string(&path).ok().and_then(|t| Scn::read(&t));
        let back = match back {
            Some(b) if b.write() == text => b,
            _ => {
                eprintln!("harness error: the replay file cannot be read back");
                return None;
            }
        };
        for _ in 0..3 {
            if let Verdict::Broken(c2, d) = run_once(&back).verdict {
                if c2 == c {
                    return Some((path, c, d));
                }
            }
        }
    }
    Some((path, "unstable".into(), "the run broke the property more than once, but not every time: behaviour depends on something outside the simulated environment".into()))
}

pub fn replay(file: &str) -> i32 {
    prepare();
    let s = match std::fs::read_to_string(file).ok().and_then(|t| Scn::read(&t)) {
        Some(s) => s,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    let o = run_once(&s);
    println!("steps {} trace {:016x} simulated {} ns", o.steps, o.trace, o.sim_ns);
    match o.verdict {
        Verdict::Held => {
            println!("held");
            0
        }
        Verdict::Broken(c, d) => {
            println!("{}: {}", c, d);
            println!("VIOLATION property={} replay={}", s.prop, file);
            1
        }
        Verdict::Error(m) => {
            eprintln!("harness error: {}", m);
            2
        }
    }
}

/// Every seed executed repeatedly, in this process's children and in batches with different
/// worker counts, must give the same event trace, step count, clock and counters.
pub fn selftest(n: u64) -> i32 {
    prepare();
    let mut bad = 0;
    for p in checks::PROPS {
        let mut diff = 0;
        for i in 0..n {
            let s = checks::draw(p, run_seed(77, i));
            let text = s.write();
            let back = Scn::read(&text).expect("scenario text");
            assert_eq!(back.write(), text);
            let a = run_once(&s);
            for q in [&s, &back] {
                let b = run_once(q);
                if (a.trace, a.steps, a.sim_ns, &a.stats, &a.verdict) != (b.trace, b.steps, b.sim_ns, &b.stats, &b.verdict) {
                    diff += 1;
                    println!("{} seed {}: {:?} {} {} / {:?} {} {}", p, s.seed, a.verdict, a.trace, a.steps, b.verdict, b.trace, b.steps);
                }
            }
        }
        let x = batch(p, 78, n, 600.0, 1);
        let y = batch(p, 78, n, 600.0, 8);
        if (x.runs, x.steps, x.sim_ns, &x.stats, x.distinct) != (y.runs, y.steps, y.sim_ns, &y.stats, y.distinct) && x.bad.is_none() {
            diff += 1;
            println!("{}: batches of 1 and 8 workers differ", p);
        }
        println!("{}: {} seeds, {} differences{}", p, n, diff, if x.bad.is_some() { " (violations present)" } else { "" });
        bad += diff;
    }
    if bad > 0 {
        2
    } else {
        0
    }
}

// ---------------------------------------------------------------- evidence

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn samples(prop: &str, base: u64, total: u64) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    while v.len() < 3 && i < total.min(60) {
        let s = checks::draw(prop, run_seed(base, i));
        let o = run_once(&s);
        if o.nontrivial {
            let t: String = s.write().chars().take(1500).collect();
            v.push(format!("run {}: steps {}, trace {:016x}, {:?}\n{}", i, o.steps, o.trace, o.verdict, t));
        }
        i += 1;
    }
    v
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "one seed draws texts, per-thread call scripts and preemption points; non-trivial: at least one preemption moved the baton between threads inside library code; distinct: hash over all baton moves (step, from, to) and all results",
        "C02" => "one seed draws texts and a call history over up to three threads, with calls aborted at a drawn allocation; non-trivial: a call was made after another one; distinct: hash over faults fired and all results",
        "C03" => "one seed draws a text and several environments (clock, entropy, variables, memory layout and contents, stack depth, thread); non-trivial: a call ran under an environment other than the baseline; distinct: hash over environments and results",
        "C04" => "one seed draws a text and several allocation-fault plans; non-trivial: an allocation failed inside the call; distinct: hash over failed allocation numbers and results",
        "C05" => "one seed draws a history of calls (some aborted) and repeats it; non-trivial: at least one repetition; distinct: hash over faults fired and results",
        "C06" => "one seed draws a text and storage or delivery faults; non-trivial: at least one fault was applied; distinct: hash over resulting tree texts",
        "C07" => "one seed draws a program and storage faults on its lines or sectors; non-trivial: at least one fault was applied; distinct: hash over resulting trees",
        "C08" => "one seed draws a program, cut points, and a history of appends, syncs, crashes and recoveries; non-trivial: at least one cut or crash; distinct: hash over resulting trees",
        "C09" => "one seed draws two programs and faults on the token channel; non-trivial: at least one fault was applied; distinct: hash over resulting trees",
        "C10" => "one seed draws a program, reader scripts and preemption points; non-trivial: the tree has an expression statement that was read; distinct: hash over baton moves and the tree",
        "C11" => "one seed draws texts, batch sizes, delays, an environment and preemption points for lexer-parser pipelines; non-trivial: a hand-off took place; distinct: hash over baton moves and results",
        "C13" => "one seed draws a text and storage faults on its sectors; non-trivial: every run (both the intact and the damaged text are scanned); distinct: hash over all tokens and places",
        "C14" => "one seed draws a program and storage faults on its lines; non-trivial: the model knows the meaning of at least one delivered statement; distinct: hash over resulting trees",
        "C15" => "one seed draws a text, storage faults and harmless rewritings on the way; non-trivial: at least one rewriting was made; distinct: hash over rewritten texts",
        "C16" | "C18" => "one seed draws a program and storage faults on its lines; non-trivial: at least one statement is malformed; distinct: hash over all errors",
        "C17" => "one seed draws statements and the faults under which they are repeated (lost ends, redelivery, runs of one token); non-trivial: cost was compared at two sizes; distinct: hash over the repeated text",
        "C20" => "one seed draws a text, storage faults on it, and the places at which short reads cut it into pieces; non-trivial: the text was processed in more than one piece; distinct: hash over pieces, tokens and nodes",
        "C19" => "one seed draws a text and the faults or near miss that make a second text or token list of it; non-trivial: the two differ by at least one fault; distinct: hash over the second tree",
        _ => "one seed draws a program and damaged lines; non-trivial: at least one line fault; distinct: hash over resulting trees",
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, seed: u64, thorough: bool, b: &Batch, wall: f64, violation: &str, findings: &[String], samples: &[String], workers: usize) -> std::io::Result<()> {
    let cov = sim::cov_count();
    let mut o = String::new();
    let _ = write!(o, "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", prop, if thorough { "thorough" } else { "quick" }, seed);
    let _ = write!(o, " \"wall_s\": {:.3},\n \"violations\": {},\n", wall, if violation.is_empty() { 0 } else { 1 });
    let _ = write!(o, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", b.runs, b.distinct, json(rule(prop)));
    let _ = write!(o, "  \"nontrivial_runs\": {},\n  \"workers\": {},\n", b.nontrivial, workers);
    let _ = write!(
        o,
        "  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n",
        (b.runs as f64 * 3600.0 / b.wall.max(0.001)) as u64,
        (b.runs as f64 * 3600.0 / b.wall.max(0.001)) as u64
    );
    let _ = write!(o, "  \"steps\": {},\n  \"simulated_seconds\": {:.6},\n", b.steps, b.sim_ns as f64 * 1e-9);
    let _ = write!(o, "  \"library_edges_reached\": {},\n  \"library_edges_total\": {},\n", cov, sim::guards());
    let _ = write!(o, "  \"runs_executed_twice\": {},\n  \"runs_executed_twice_that_differed\": {},\n", b.rerun, b.rerun_differs);
    let _ = write!(o, "  \"fired\": {{");
    let mut first = true;
    for (k, v) in b.stats.iter().enumerate() {
        if *v > 0 {
            let _ = write!(o, "{}\n   {}: {}", if first { "" } else { "," }, json(STAT_NAMES[k]), v);
            first = false;
        }
    }
    let _ = write!(o, "\n  }},\n  \"components_real\": {},\n  \"components_simulated\": {},\n", json("lolcode_ast and lolcode_ast_derive, compiled from /repo unmodified (coverage callbacks added by the compiler)"), json("caller threads' scheduling, global allocator, clocks, entropy, environment variables, futex waits, storage, token channel"));
    let _ = write!(o, "  \"known_findings\": [{}],\n", findings.iter().map(|f| json(f)).collect::<Vec<_>>().join(", "));
    if !violation.is_empty() {
        let _ = write!(o, "  \"violation\": {},\n", json(&violation.chars().take(3000).collect::<String>()));
    }
    let _ = write!(o, "  \"samples\": [\n   {}\n  ]\n }},\n", samples.iter().map(|f| json(f)).collect::<Vec<_>>().join(",\n   "));
    let _ = write!(o, " \"assumptions\": [{}]\n}}\n", json("observations are made through the public API and the Debug text of trees; preemption points are basic-block edges and allocator calls; memory is sequentially consistent in simulated schedules"));
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir)?;
    std::fs::write(format!("{}/{}.json", dir, prop), o)
}
