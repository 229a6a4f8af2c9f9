//! Shrinks a failing scenario while it keeps failing in the same way.
use crate::driver::{run_once, Verdict};
use crate::gen::{Tag, Unit};
use crate::scn::Scn;
use crate::sys::real_now;

struct Min<'a> {
    best: Scn,
    class: &'a str,
    until: f64,
    tries: u64,
}

fn weight(s: &Scn) -> usize {
    s.write().len()
}

impl Min<'_> {
    fn over(&self) -> bool {
        self.tries > 20_000 || real_now() > self.until
    }
    fn attempt(&mut self, c: Scn) -> bool {
        if self.over() || weight(&c) >= weight(&self.best) {
            return false;
        }
        self.tries += 1;
        if let Verdict::Broken(k, _) = run_once(&c).verdict {
            if k == self.class {
                self.best = c;
                return true;
            }
        }
        false
    }
    /// Removes chunks of a list, large ones first.
    fn list(&mut self, len: fn(&Scn) -> usize, cut: fn(&mut Scn, usize, usize)) {
        let mut n = len(&self.best);
        while n > 0 {
            let mut i = 0;
            while i < len(&self.best) {
                let l = len(&self.best);
                let mut c = self.best.clone();
                cut(&mut c, i, (i + n).min(l));
                if !self.attempt(c) {
                    i += n;
                }
                if self.over() {
                    return;
                }
            }
            n = if n == 1 { 0 } else { n.div_ceil(2) };
        }
    }
}

/// Ends of the balanced group of lines that starts at `i` (a single line unless it opens a block).
fn group(u: &Unit, i: usize) -> Option<usize> {
    match u.lines[i].tag {
        Tag::Open => {
            let mut d = 0;
            for (k, l) in u.lines.iter().enumerate().skip(i) {
                match l.tag {
                    Tag::Open => d += 1,
                    Tag::Close => {
                        d -= 1;
                        if d == 0 {
                            return Some(k + 1);
                        }
                    }
                    _ => {}
                }
            }
            None
        }
        Tag::Mid | Tag::Close => None,
        _ => Some(i + 1),
    }
}

fn shorter(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut n = cs.len();
    while n > 0 {
        let mut i = 0;
        while i < cs.len() {
            let e = (i + n).min(cs.len());
            v.push(cs[..i].iter().chain(cs[e..].iter()).collect());
            i += n;
        }
        n /= 2;
        if v.len() > 400 {
            break;
        }
    }
    v
}

pub fn minimise(s: &Scn, class: &str, seconds: f64) -> Scn {
    let mut m = Min { best: s.clone(), class, until: real_now() + seconds, tries: 0 };
    loop {
        let before = weight(&m.best);
        m.list(|s| s.preempts.len(), |s, a, b| { s.preempts.drain(a..b); });
        m.list(|s| s.shared.len(), |s, a, b| { s.shared.drain(a..b); });
        m.list(|s| s.ops.len(), |s, a, b| { s.ops.drain(a..b); });
        m.list(|s| s.faults.len(), |s, a, b| { s.faults.drain(a..b); });
        for d in 0..m.best.docs.len() {
            // units
            let mut n = m.best.docs[d].len();
            while n > 0 {
                let mut i = 0;
                while i < m.best.docs[d].len() {
                    let mut c = m.best.clone();
                    let e = (i + n).min(c.docs[d].len());
                    c.docs[d].drain(i..e);
                    if !m.attempt(c) {
                        i += n;
                    }
                }
                n = if n == 1 { 0 } else { n.div_ceil(2) };
            }
            // lines and nested blocks
            for u in 0..m.best.docs[d].len() {
                let mut i = 0;
                while i < m.best.docs[d][u].lines.len() {
                    let whole = m.best.docs[d][u].lines.len();
                    if let Some(e) = group(&m.best.docs[d][u], i) {
                        if e - i < whole {
                            let mut c = m.best.clone();
                            c.docs[d][u].lines.drain(i..e);
                            if m.attempt(c) {
                                continue;
                            }
                        }
                    }
                    let l = m.best.docs[d][u].lines[i].clone();
                    if !l.fault.is_empty() {
                        let mut c = m.best.clone();
                        c.docs[d][u].lines[i].fault.clear();
                        c.docs[d][u].lines[i].now.clear();
                        m.attempt(c);
                    }
                    if matches!(l.tag, Tag::Leaf | Tag::Comma) && l.fault.is_empty() && l.text != "GTFO" {
                        let mut c = m.best.clone();
                        c.docs[d][u].lines[i].text = "GTFO".into();
                        m.attempt(c);
                    }
                    i += 1;
                }
            }
        }
        for t in 0..m.best.texts.len() {
            loop {
                let mut hit = false;
                for x in shorter(&m.best.texts[t]) {
                    let mut c = m.best.clone();
                    c.texts[t] = x;
                    if m.attempt(c) {
                        hit = true;
                        break;
                    }
                }
                if !hit || m.over() {
                    break;
                }
            }
        }
        for i in 0..m.best.ops.len() {
            for k in 0..3 {
                let mut c = m.best.clone();
                match k {
                    0 => c.ops[i].a = 0,
                    1 => c.ops[i].b = 0,
                    _ => c.ops[i].t = 0,
                }
                m.attempt(c);
            }
        }
        let keys: Vec<String> = m.best.par.keys().cloned().collect();
        for k in keys {
            for _ in 0..20 {
                let v = m.best.get(&k);
                let mut c = m.best.clone();
                c.set(&k, v / 2);
                if v < 2 || k == "run" || k == "nest" || k == "disk" || !m.attempt(c) {
                    break;
                }
            }
        }
        if m.over() || weight(&m.best) >= before {
            break;
        }
    }
    eprintln!("minimised with {} executions", m.tries);
    m.best
}
