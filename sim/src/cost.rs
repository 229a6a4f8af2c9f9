//! C17: what the calls cost, and how the cost grows with the text.
use crate::checks::{self, NEST, RUNS};
use crate::disk::{self, Disk};
use crate::exec::*;
use crate::gen;
use crate::rng::{hash_bytes, Rng};
use crate::scn::Scn;
use crate::sys;
use crate::sim::{self, call, cost_of, die_violation, stat, Cost, St};
use lolcode_ast::parser::statements::Node;

pub const PHASES: [&str; 5] = ["tokenize", "parse", "listing the errors", "walking the expressions", "releasing the tree"];

pub fn phases(text: &str) -> [Cost; 5] {
    let mut c = [Cost::default(); 5];
    let t = text.to_string();
    let fail = |w: &str, m: String| -> ! { die_panic(&format!("{} panicked on {:?}: {}", w, clip(text, 300), m)) };
    let (x, r) = cost_of(|| call(move || lolcode_ast::tokenize(t)));
    c[0] = x;
    let v = match r {
        Err(m) => fail("tokenize", m),
        Ok(Err(_)) => return c,
        Ok(Ok(v)) => v,
    };
    let (x, r) = cost_of(|| call(move || lolcode_ast::parse(v)));
    c[1] = x;
    let b = match r {
        Err(m) => fail("parse", m),
        Ok(b) => b,
    };
    let (x, _) = cost_of(|| call(|| b.iter_errors().count()));
    c[2] = x;
    let (x, _) = cost_of(|| {
        call(|| {
            let mut n = 0;
            for e in &b.0 {
                if let Node::Expression(e) = e {
                    n += e.tokens().count();
                }
            }
            n
        })
    });
    c[3] = x;
    let (x, _) = cost_of(|| call(move || drop(b)));
    c[4] = x;
    c
}

const MEASURES: [&str; 4] = ["steps", "bytes copied", "bytes of memory asked for", "bytes of memory in use at once"];

fn nontrivial() {
    sim::page().nontrivial.store(1, std::sync::atomic::Ordering::SeqCst);
}

/// The run of digits that fits no number is scanned again for each digit: see known-findings.txt.
pub fn digits(k: usize) -> bool {
    RUNS[k].1 == "1"
}

const BIG: usize = 3_000_000;

pub fn draw_c17(r: &mut Rng, s: &mut Scn) {
    match r.below(100) {
        0 => {
            s.set("big", 1);
            s.set("times", 1);
            s.texts.push((*r.pick(&[",", ",\n", "!", "! ", "!\r\n", "!,"])).into());
        }
        1..=44 => {
            let k = draw_run(r);
            s.set("run", k + 1);
            s.set("times", *r.pick(&[100, 200, 400, 800]));
        }
        45..=59 => {
            s.set("nest", 1 + r.below(NEST.len() as u64));
            s.set("open", r.below(2));
            s.set("times", *r.pick(&[20, 40, 60]));
        }
        n => {
            let mut t = match n {
                60..=69 => {
                    let n = 1 + r.idx(12);
                    gen::soup(r, n)
                }
                70..=79 => (0..2 + r.below(4))
                    .map(|_| {
                        let k = draw_run(r) as usize;
                        let p = RUNS[k].1;
                        if p == "\"" || p == ":\"" { "x" } else { p }
                    })
                    .collect(),
                _ => checks::doc_for_damage(r),
            };
            t.push_str(r.pick(&["\n", "\n", "\n\n", " "]));
            if r.pct(50) {
                let other = checks::doc_for_damage(r);
                let n = *r.pick(&[1, 1, 2, 4]);
                s.faults = disk::draw_faults(r, &t, &other, n);
            }
            s.set("times", (5000 / t.len() as u64).clamp(4, 400) & !1);
            s.texts.push(t);
        }
    }
    if s.get("big") == 0 && s.get("nest") == 0 && r.pct(30) {
        s.set("paged", 1);
    }
}
fn draw_run(r: &mut Rng) -> u64 {
    loop {
        let k = r.below(RUNS.len() as u64);
        if !digits(k as usize) {
            return k;
        }
    }
}

pub fn run_c17(s: &Scn) {
    let s = s.clone();
    sim::run_threads(vec![Box::new(move || judge(&s))], vec![], vec![], 512 << 20);
}

const PAGED: usize = 100_000;

/// Scans inside the standard library take no steps. Of this text only a few pages are in memory at
/// a time, so what is fetched again and again shows.
fn paged(text: &str, b: &str) {
    let t = {
        sim::set_armed(true);
        let t = text.to_string();
        sim::set_armed(false);
        t
    };
    let (p, n) = (t.as_ptr(), t.len());
    let pages = sys::page_out(p, n);
    let r = call(move || lolcode_ast::tokenize(t));
    let fetched = sys::page_in();
    stat(St::pages_fetched, fetched);
    if let Err(m) = r {
        die_panic(&format!("tokenize panicked on repetitions of {:?}: {}", clip(b, 300), m));
    }
    if fetched > 20 * pages + 200 {
        die_violation("cost", &format!("tokenize: {} pages fetched of a text that fills {}: repetitions of {:?}", fetched, pages, clip(b, 200)));
    }
    sim::trace_add(fetched);
}

fn judge(s: &Scn) {
    let times = s.get("times") as usize;
    let run = s.get("run");
    let nest = s.get("nest");
    let mut walks = false;
    let (mut a, mut b, mut c, mut d) = (String::new(), s.texts.first().cloned().unwrap_or_default(), String::new(), String::new());
    if run > 0 {
        let x = RUNS[(run as usize - 1) % RUNS.len()];
        (a, b, d) = (x.0.into(), x.1.into(), x.2.into());
        walks = true;
    } else if nest > 0 {
        let x = NEST[(nest as usize - 1) % NEST.len()];
        b = x.0.into();
        if s.get("open") == 0 {
            c = x.1.into();
        }
    } else {
        let mut k = Disk::of(&b);
        for f in &s.faults {
            k.apply(f);
        }
        b = k.read().0;
        if b.bytes().all(|c| c.is_ascii_digit()) {
            return;
        }
    }
    let text = |k: usize| format!("{}{}{}{}", a, b.repeat(k), c.repeat(k), d);
    if times == 0 {
        return;
    }
    nontrivial();
    stat(St::growth_checked, 1);
    if s.get("big") == 1 {
        // Scans inside the standard library take no steps of their own. On a text of this size,
        // scanning it once per token takes minutes instead of a fraction of a second: the limit
        // on the processor time of a run decides.
        match tokenize(&b.repeat(BIG / b.len().max(1))) {
            Ok(Ok(v)) => {
                if b.starts_with(',') {
                    let _ = parse(v);
                }
            }
            Ok(Err(_)) => {}
            Err(m) => die_panic(&m),
        }
        return;
    }
    if s.get("paged") == 1 {
        paged(&text((PAGED / b.len().max(1)).max(1)), &b);
        return;
    }
    let near = text(times);
    let far = text(8 * times);
    let (x, y) = (phases(&near), phases(&far));
    for p in 0..5 {
        if p == 3 && !walks {
            continue;
        }
        let f = |c: &Cost| [c.steps, c.moved, c.asked, c.peak];
        let (u, v) = (f(&x[p]), f(&y[p]));
        for m in 0..4 {
            let (k, slack) = if m == 0 { (12, 60_000) } else { (24, 400_000) };
            if v[m] > k * u[m] + slack {
                die_violation(
                    "cost",
                    &format!(
                        "{}: {} {} for {} bytes of text, but {} for the {} bytes of 8 times as many repetitions of {:?} (after {:?})",
                        PHASES[p],
                        u[m],
                        MEASURES[m],
                        near.len(),
                        v[m],
                        far.len(),
                        clip(&b, 200),
                        a
                    ),
                );
            }
        }
    }
    sim::trace_add(hash_bytes(format!("{:?}{:?}", x, y).as_bytes()));
}
