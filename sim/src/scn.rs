//! A scenario is the explicit description of one run: what is called, by whom, in which order,
//! and which faults happen. It is what replay files contain and what the minimiser edits.
use crate::gen::{Doc, Line, Tag, Unit};
use crate::sim::Env;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Op {
    pub t: usize,
    pub kind: String,
    pub d: usize,
    pub a: u64,
    pub b: u64,
    pub s: String,
}

#[derive(Clone, Debug, Default)]
pub struct Scn {
    pub prop: String,
    pub seed: u64,
    pub par: BTreeMap<String, u64>,
    pub docs: Vec<Doc>,
    pub texts: Vec<String>,
    /// operations of the simulated actors, in program order
    pub ops: Vec<Op>,
    /// injected faults, in order
    pub faults: Vec<Op>,
    pub preempts: Vec<(u64, u8)>,
    pub shared: Vec<(u64, u8)>,
    pub envs: Vec<Env>,
}

impl Scn {
    pub fn new(prop: &str, seed: u64) -> Scn {
        Scn { prop: prop.into(), seed, ..Default::default() }
    }
    pub fn get(&self, k: &str) -> u64 {
        *self.par.get(k).unwrap_or(&0)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.par.insert(k.into(), v);
    }
    pub fn op(&mut self, t: usize, kind: &str, d: usize, a: u64, b: u64) {
        self.ops.push(Op { t, kind: kind.into(), d, a, b, s: String::new() });
    }
    pub fn fault(&mut self, t: usize, kind: &str, a: u64, b: u64, s: &str) {
        self.faults.push(Op { t, kind: kind.into(), d: 0, a, b, s: s.into() });
    }

    pub fn write(&self) -> String {
        let mut o = String::from("lolsim-replay 1\n");
        o.push_str(&format!("prop {}\nseed {}\n", self.prop, self.seed));
        for (k, v) in &self.par {
            o.push_str(&format!("par {} {}\n", k, v));
        }
        for d in &self.docs {
            o.push_str("doc\n");
            for u in d {
                o.push_str("unit\n");
                for l in &u.lines {
                    if l.fault.is_empty() {
                        o.push_str(&format!("line {} {}\n", l.tag.s(), quote(&l.text)));
                    } else {
                        o.push_str(&format!("line {} {} fault {} {}\n", l.tag.s(), quote(&l.text), l.fault, quote(&l.now)));
                    }
                }
            }
        }
        for t in &self.texts {
            o.push_str(&format!("text {}\n", quote(t)));
        }
        for e in &self.envs {
            o.push_str(&format!(
                "env {} {} {} {} {} {} {} {} {}\n",
                e.clock_base, e.clock_mode, e.entropy, e.arena_shift, e.fill_new, e.fill_free, e.reuse, e.stack, quote(&e.env)
            ));
        }
        for (w, v) in [("op", &self.ops), ("fault", &self.faults)] {
            for x in v {
                o.push_str(&format!("{} {} {} {} {} {} {}\n", w, x.t, x.kind, x.d, x.a, x.b, quote(&x.s)));
            }
        }
        for (s, t) in &self.preempts {
            o.push_str(&format!("preempt {} {}\n", s, t));
        }
        for (s, t) in &self.shared {
            o.push_str(&format!("shared {} {}\n", s, t));
        }
        o.push_str("end\n");
        o
    }

    pub fn read(s: &str) -> Option<Scn> {
        let mut r = Scn::default();
        let mut ended = false;
        for (i, l) in s.lines().enumerate() {
            if i == 0 {
                if l != "lolsim-replay 1" {
                    return None;
                }
                continue;
            }
            let (w, rest) = l.split_once(' ').unwrap_or((l, ""));
            let f: Vec<&str> = rest.split(' ').collect();
            let q = |from: usize| -> Option<String> { unquote(&f.get(from..)?.join(" ")).map(|x| x.0) };
            match w {
                "prop" => r.prop = rest.into(),
                "seed" => r.seed = rest.parse().ok()?,
                "par" => {
                    r.par.insert(f[0].into(), f.get(1)?.parse().ok()?);
                }
                "doc" => r.docs.push(vec![]),
                "unit" => r.docs.last_mut()?.push(Unit { lines: vec![] }),
                "line" => {
                    let tag = Tag::parse(f[0])?;
                    let tail = f[1..].join(" ");
                    let (text, n) = unquote(&tail)?;
                    let mut line = Line::new(tag, text);
                    if let Some(x) = tail[n..].strip_prefix(" fault ") {
                        let (k, y) = x.split_once(' ')?;
                        line.hit(k, unquote(y)?.0);
                    }
                    r.docs.last_mut()?.last_mut()?.lines.push(line);
                }
                "text" => r.texts.push(q(0)?),
                "env" => r.envs.push(Env {
                    clock_base: f[0].parse().ok()?,
                    clock_mode: f.get(1)?.parse().ok()?,
                    entropy: f.get(2)?.parse().ok()?,
                    arena_shift: f.get(3)?.parse().ok()?,
                    fill_new: f.get(4)?.parse().ok()?,
                    fill_free: f.get(5)?.parse().ok()?,
                    reuse: f.get(6)?.parse().ok()?,
                    stack: f.get(7)?.parse().ok()?,
                    env: q(8)?,
                }),
                "op" | "fault" => {
                    let x = Op {
                        t: f[0].parse().ok()?,
                        kind: (*f.get(1)?).into(),
                        d: f.get(2)?.parse().ok()?,
                        a: f.get(3)?.parse().ok()?,
                        b: f.get(4)?.parse().ok()?,
                        s: q(5)?,
                    };
                    if w == "op" {
                        r.ops.push(x)
                    } else {
                        r.faults.push(x)
                    }
                }
                "preempt" => r.preempts.push((f[0].parse().ok()?, f.get(1)?.parse().ok()?)),
                "shared" => r.shared.push((f[0].parse().ok()?, f.get(1)?.parse().ok()?)),
                "end" => ended = true,
                _ if l.starts_with('#') => {}
                _ => return None,
            }
        }
        if ended {
            Some(r)
        } else {
            None
        }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str("\\\""),
            ' '..='~' => o.push(c),
            _ => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
        }
    }
    o.push('"');
    o
}

/// The string and the number of bytes of `s` it took.
pub fn unquote(s: &str) -> Option<(String, usize)> {
    let b = s.as_bytes();
    if b.first() != Some(&b'"') {
        return None;
    }
    let mut o = String::new();
    let mut i = 1;
    loop {
        match *b.get(i)? {
            b'"' => return Some((o, i + 1)),
            b'\\' => match *b.get(i + 1)? {
                b'u' => {
                    let e = i + s[i..].find('}')?;
                    o.push(char::from_u32(u32::from_str_radix(&s[i + 3..e], 16).ok()?)?);
                    i = e + 1;
                }
                c => {
                    o.push(c as char);
                    i += 2;
                }
            },
            c => {
                o.push(c as char);
                i += 1;
            }
        }
    }
}
