//! Simulated storage: bytes with their origin, and the faults that real disks show.
use crate::gen::{Doc, Line, Mix, Tag, Unit};
use crate::rng::Rng;
use crate::scn::Op;
use crate::sim::{stat, St};

/// Bytes together with the index they had in the undamaged text (-1: not from there).
#[derive(Clone, Default)]
pub struct Disk {
    pub b: Vec<u8>,
    pub o: Vec<i64>,
}

impl Disk {
    pub fn of(text: &str) -> Disk {
        Disk { b: text.as_bytes().to_vec(), o: (0..text.len() as i64).collect() }
    }
    fn clip(&self, a: u64, n: u64) -> (usize, usize) {
        let a = (a as usize).min(self.b.len());
        (a, (a + n as usize).min(self.b.len()))
    }
    fn splice(&mut self, a: usize, e: usize, new: &[u8], org: &[i64]) {
        self.b.splice(a..e, new.iter().copied());
        self.o.splice(a..e, org.iter().copied());
    }
    /// Applies one fault. `a` is a byte offset, `b` a length or bit.
    pub fn apply(&mut self, f: &Op) {
        let (a, b) = (f.a, f.b);
        match f.kind.as_str() {
            "flip" => {
                if let Some(x) = self.b.get_mut(a as usize) {
                    *x ^= 1 << (b % 8);
                    self.o[a as usize] = -1;
                    stat(St::flipped_bytes, 1);
                }
            }
            "set" => {
                if let Some(x) = self.b.get_mut(a as usize) {
                    *x = b as u8;
                    self.o[a as usize] = -1;
                    stat(St::flipped_bytes, 1);
                }
            }
            "zero" => {
                let (s, e) = self.clip(a, b);
                self.b[s..e].fill(0);
                self.o[s..e].fill(-1);
                stat(St::zeroed_ranges, 1);
            }
            "stale" => {
                // The sector still holds what another version of the file had there.
                let (s, e) = self.clip(a, b);
                let x = f.s.as_bytes();
                for i in s..e {
                    self.b[i] = *x.get(i - s).unwrap_or(&b' ');
                    self.o[i] = -1;
                }
                stat(St::stale_sectors, 1);
            }
            "lostrange" => {
                let (s, e) = self.clip(a, b);
                self.splice(s, e, &[], &[]);
                stat(St::lost_lines, 1);
            }
            "duprange" => {
                let (s, e) = self.clip(a, b);
                let x = self.b[s..e].to_vec();
                let o = vec![-1; x.len()];
                self.splice(e, e, &x, &o);
                stat(St::duplicated_lines, 1);
            }
            "insert" => {
                let (s, _) = self.clip(a, 0);
                let x = f.s.as_bytes().to_vec();
                let o = vec![-1; x.len()];
                self.splice(s, s, &x, &o);
                stat(St::inserted_lines, 1);
            }
            "misdirect" => {
                // A sector is written where another one belongs.
                let n = f.d as u64;
                let (s, e) = self.clip(a, n);
                let (t, _) = self.clip(b, n);
                let x = self.b[s..e].to_vec();
                for (i, c) in x.iter().enumerate() {
                    if t + i < self.b.len() {
                        self.b[t + i] = *c;
                        self.o[t + i] = -1;
                    }
                }
                stat(St::misdirected_sectors, 1);
            }
            "torn" => {
                let (s, _) = self.clip(a, 0);
                self.b.truncate(s);
                self.o.truncate(s);
                stat(St::torn_tails, 1);
            }
            _ => {}
        }
    }
    /// What a reader gets: invalid bytes become replacement characters.
    pub fn read(&self) -> (String, Vec<i64>) {
        let mut s = String::new();
        let mut o = vec![];
        let mut i = 0;
        while i < self.b.len() {
            let n = match std::str::from_utf8(&self.b[i..]) {
                Ok(_) => self.b.len() - i,
                Err(e) => e.valid_up_to(),
            };
            s.push_str(std::str::from_utf8(&self.b[i..i + n]).unwrap());
            o.extend_from_slice(&self.o[i..i + n]);
            i += n;
            if i < self.b.len() {
                s.push('\u{fffd}');
                o.extend_from_slice(&[-1, -1, -1]);
                i += 1;
            }
        }
        (s, o)
    }
}

/// Where undamaged units stand in the text that was read back.
pub fn intact_ranges(doc: &[Unit], text: &str, origin: &[i64]) -> Vec<(usize, usize)> {
    let mut starts = vec![];
    let mut p = 0i64;
    for u in doc {
        let n = u.text().len() as i64;
        starts.push((p, n));
        p += n;
    }
    let b = text.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if i == 0 || b[i - 1] == b'\n' {
            if let Some(&(s, n)) = starts.iter().find(|x| x.0 == origin[i] && x.1 > 0) {
                let mut k = 0;
                while k < n && i + (k as usize) < b.len() && origin[i + k as usize] == s + k {
                    k += 1;
                }
                if k == n || (k == n - 1 && i + k as usize == b.len()) {
                    v.push((i, i + k as usize));
                    i += k as usize;
                    continue;
                }
            }
        }
        i += 1;
    }
    v
}

/// Seeded storage faults on a text of length `len`.
pub fn draw_faults(r: &mut Rng, text: &str, other: &str, n: u64) -> Vec<Op> {
    let len = text.len().max(1) as u64;
    let sector = *r.pick(&[4u64, 8, 16, 32, 64]);
    let kinds: Vec<&str> = {
        let all = ["flip", "set", "zero", "stale", "lostrange", "duprange", "insert", "misdirect", "torn"];
        let mut k: Vec<&str> = all.iter().filter(|_| r.pct(50)).copied().collect();
        if k.is_empty() {
            k.push("flip");
        }
        k
    };
    let lines: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|x| x.0 + 1)).collect();
    let mut v = vec![];
    for _ in 0..n {
        let k = *r.pick(&kinds);
        let at = if r.pct(50) { r.below(len) } else { (r.below(len) / sector) * sector };
        let mut f = Op { kind: k.into(), a: at, ..Default::default() };
        match k {
            "flip" => f.b = r.below(8),
            "set" => f.b = *r.pick(&[b' ', b',', b'"', b'\n', b'.', b'A', b'!', b'?', b'0', b':', b'\'', 0xff, 0xc3, 0x80, 0, b'\r', b'\t']) as u64,
            "zero" => f.b = if r.pct(50) { sector } else { r.range(1, 12) },
            "stale" => {
                f.b = sector;
                let o = other.as_bytes();
                let s = (at as usize).min(o.len());
                let e = (s + sector as usize).min(o.len());
                f.s = String::from_utf8_lossy(&o[s..e]).into_owned();
            }
            "lostrange" | "duprange" => {
                if r.pct(50) {
                    // whole lines
                    let i = r.idx(lines.len());
                    f.a = lines[i] as u64;
                    let j = (i + 1 + r.idx(2)).min(lines.len() - 1);
                    f.b = (lines[j].saturating_sub(lines[i])).max(1) as u64;
                } else {
                    f.b = if r.pct(50) { sector } else { r.range(1, 20) };
                }
            }
            "insert" => {
                f.s = match r.below(3) {
                    0 => crate::gen::garbage(r),
                    1 => format!("{}\n", crate::gen::garbage(r)),
                    _ => {
                        f.a = *r.pick(&lines) as u64;
                        format!("{}\n", crate::gen::garbage(r))
                    }
                }
            }
            "misdirect" => {
                f.d = sector as usize;
                f.b = (r.below(len) / sector) * sector;
            }
            _ => {
                if v.len() > 1 && r.pct(60) {
                    f.kind = "flip".into();
                    f.b = r.below(8);
                }
            }
        }
        v.push(f);
    }
    v
}

fn flip_text(r: &mut Rng, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let i = r.idx(b.len());
        if r.pct(70) {
            b[i] ^= 1 << r.below(8);
        } else {
            b[i] = *r.pick(&[b' ', b',', b'!', b'0', b'R', b'A', 0, 0xff, 0xc3, b'\r', b'\'']);
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

/// One word or two of the line are lost, repeated, exchanged, or those of another place.
fn words_hit(r: &mut Rng, s: &str, pool: &[String]) -> String {
    const W: &[&str] = &[
        "AN", "ITZ", "R", "MKAY", "YR", "A", "!", "5", "-1.5", "\"a\"", "foo", "bar", "WIN", "NOOB", "SRS", "'Z", "'Z bar", "SUM OF", "NOT", "ALL OF", "SMOOSH", "BOTH SAEM",
        "I HAS A", "HAS A", "I IZ", "VISIBLE", "GIMMEH", "FOUND YR", "GTFO", "HAI", "KTHXBYE", "NUMBR", "YARN", "TROOF", "BUKKIT", "TIL", "WILE", "UPPIN", "NERFIN", "MAEK",
        "IS NOW", "?", ",", "TLDR",
    ];
    let mut w: Vec<String> = s.split(' ').map(|x| x.to_string()).collect();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        if w.is_empty() {
            break;
        }
        let i = if r.pct(20) { w.len() - 1 } else { r.idx(w.len()) };
        match r.below(8) {
            6 => w.push((*r.pick(W)).into()),
            7 => {
                // a letter arrives more than once
                if let Some(c) = w[i].chars().last() {
                    w[i].extend(std::iter::repeat(c).take(r.range(1, 3) as usize));
                }
            }
            0 => {
                w.remove(i);
            }
            1 => {
                let x = w[i].clone();
                w.insert(i, x);
            }
            2 => {
                let j = r.idx(w.len());
                w.swap(i, j);
            }
            3 => w[i] = (*r.pick(W)).into(),
            4 => w.insert(i + r.idx(2), (*r.pick(W)).into()),
            _ => {
                if !pool.is_empty() {
                    let o: Vec<&str> = r.pick(pool).split(' ').collect();
                    let x = *r.pick(&o);
                    w.insert(i, x.into());
                }
            }
        }
    }
    w.join(" ")
}

/// Damage confined to a statement line: what is stored there afterwards.
pub fn damage_line(r: &mut Rng, m: &Mix, l: &mut Line, pool: &[String]) {
    for _ in 0..6 {
        let (k, now) = match r.below(11) {
            8..=10 => ("word", words_hit(r, &l.text, pool)),
            0 => ("lost", String::new()),
            1 => ("garbage", crate::gen::garbage(r)),
            2 | 3 => ("flip", flip_text(r, &l.text)),
            4 => {
                let n = l.text.len();
                let mut e = r.idx(n + 1);
                while !l.text.is_char_boundary(e) {
                    e -= 1;
                }
                ("torn", l.text[..e].to_string())
            }
            5 => {
                let mut b = l.text.clone().into_bytes();
                if b.is_empty() {
                    continue;
                }
                let s = r.idx(b.len());
                let e = (s + r.range(1, 10) as usize).min(b.len());
                b[s..e].fill(0);
                ("zero", String::from_utf8_lossy(&b).into_owned())
            }
            6 => {
                // an old version of the line shows through after the new one's end
                let old = if pool.is_empty() { String::new() } else { r.pick(pool).clone() };
                let mut e = r.idx(l.text.len() + 1);
                while !l.text.is_char_boundary(e) {
                    e -= 1;
                }
                let tail: String = old.chars().skip(l.text[..e].chars().count()).collect();
                ("stale", format!("{}{}", &l.text[..e], tail))
            }
            _ => ("append", format!("{} {}", l.text, crate::gen::statement(r, m))),
        };
        if k == "lost" || (crate::exec::neutral(&now) && crate::checks::no_stop_words(&now)) {
            l.hit(k, now);
            return;
        }
    }
}

const LAST: &[&str] = &["WIN", "FAIL", "NOOB", "5", "-1.5", "\"loop\"", "SRS", "SRS loop", "'Z x", "YR", "?", "!", "MKAY", "AN", "NUMBR", "VISIBLE", "A", "\u{e9}", "loop loop", "loop'Z x", "loop MKAY", "x 5"];

/// Damage inside a line that opens a block, starts a branch or closes a block, such that the line
/// certainly is rejected but the program's block structure is otherwise as it was.
pub fn damage_block_line(r: &mut Rng, l: &mut Line, pool: &[String]) -> bool {
    use crate::model;
    for _ in 0..8 {
        let now = match r.below(if l.tag == Tag::Close { 12 } else { 8 }) {
            8..=11 => match l.text.trim_end().rsplit_once(' ') {
                Some((a, _)) => format!("{} {}", a, r.pick(LAST)),
                None => format!("{} {}", l.text, r.pick(LAST)),
            },
            0 => flip_text(r, &l.text),
            1 | 2 => {
                let mut e = r.idx(l.text.len() + 1);
                while !l.text.is_char_boundary(e) {
                    e -= 1;
                }
                l.text[..e].to_string()
            }
            _ => words_hit(r, &l.text, pool),
        };
        if now.contains('\n') || now == l.text {
            continue;
        }
        let Some(st) = model::statements(&now) else { continue };
        if st.is_empty() {
            continue;
        }
        let stop = |t: &model::MTok| model::stops(&t.ty);
        let ok = if l.tag == Tag::Open {
            st.iter().all(|t| !t.iter().any(stop) && !t[1..].iter().any(|x| model::opens(&x.ty)) && (!model::opens(&t[0].ty) || model::offence(t).is_some()))
        } else {
            let was = model::statements(&l.text).and_then(|v| v.first().map(|t| t[0].ty.clone()));
            st.len() == 1
                && Some(&st[0][0].ty) == was.as_ref()
                && !st[0][1..].iter().any(|t| stop(t) || model::opens(&t.ty))
                && if l.tag == Tag::Mid { model::branch(&now).is_none() } else { model::closing(&now).is_none() }
        };
        // Nothing may be left open beyond the line.
        if ok && crate::exec::neutral(&now.replace("IM IN YR", "ITZ").replace("HOW IZ I", "ITZ").replace("O RLY", "ITZ").replace("WTF", "ITZ")) {
            l.hit("header", now);
            return true;
        }
    }
    false
}

pub fn count_line_fault(k: &str) {
    let s = match k {
        "lost" => St::lost_lines,
        "garbage" | "append" => St::garbage_lines,
        "word" => St::words_hit,
        "flip" => St::flipped_bytes,
        "torn" => St::torn_lines,
        "zero" => St::zeroed_ranges,
        "stale" => St::stale_sectors,
        "dup" => St::duplicated_lines,
        "inserted" => St::inserted_lines,
        "stray" => St::header_garbage,
        "header" => St::headers_hit,
        _ => return,
    };
    stat(s, 1);
}

pub fn pool_of(d: &Doc) -> Vec<String> {
    d.iter().flat_map(|u| u.lines.iter()).filter(|l| l.tag == Tag::Leaf && !l.text.contains('\n')).map(|l| l.text.clone()).collect()
}
