//! Reads the `Debug` text of a tree back into a generic tree, so that the checks see every
//! token and every nested block through public behaviour only.
#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Tok { sl: i32, sc: i32, el: i32, ec: i32, ty: String },
    Node(String, Vec<(String, T)>),
    List(Vec<T>),
    Atom(String),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek() == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn num(&mut self) -> Option<i32> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i].is_ascii_digit()) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).ok()?.parse().ok()
    }
    fn token(&mut self) -> Option<T> {
        // (l, c) -> (l, c)\n<type>
        let save = self.i;
        let r = (|| {
            self.eat(b'(')?;
            let sl = self.num()?;
            self.eat(b',')?;
            let sc = self.num()?;
            self.eat(b')')?;
            self.eat(b'-')?;
            self.eat(b'>')?;
            self.eat(b'(')?;
            let el = self.num()?;
            self.eat(b',')?;
            let ec = self.num()?;
            self.eat(b')')?;
            self.ws();
            let st = self.i;
            self.value()?;
            let ty = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            Some(T::Tok { sl, sc, el, ec, ty })
        })();
        if r.is_none() {
            self.i = save;
        }
        r
    }
    fn list(&mut self, close: u8) -> Option<Vec<T>> {
        let mut v = vec![];
        loop {
            if self.peek() == close {
                self.i += 1;
                return Some(v);
            }
            v.push(self.value()?);
            if self.peek() == b',' {
                self.i += 1;
            } else if self.peek() != close {
                return None;
            }
        }
    }
    fn value(&mut self) -> Option<T> {
        match self.peek() {
            b'(' => {
                if let Some(t) = self.token() {
                    return Some(t);
                }
                self.i += 1;
                Some(T::List(self.list(b')')?))
            }
            b'[' => {
                self.i += 1;
                Some(T::List(self.list(b']')?))
            }
            b'{' => {
                self.i += 1;
                Some(T::List(self.list(b'}')?))
            }
            b'"' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                self.i += 1;
                if self.i > self.s.len() {
                    return None;
                }
                Some(T::Atom(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()))
            }
            0 => None,
            _ => {
                let st = self.i;
                while self.i < self.s.len() && !b" \n(){}[],:".contains(&self.s[self.i]) {
                    self.i += 1;
                }
                if self.i == st {
                    return None;
                }
                let name = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                // `Name(` and `Name {` belong together; a following `(` after a newline does not.
                if self.s.get(self.i) == Some(&b'(') {
                    self.i += 1;
                    let v = self.list(b')')?;
                    return Some(T::Node(name, v.into_iter().map(|t| (String::new(), t)).collect()));
                }
                if self.s.get(self.i) == Some(&b' ') && self.s.get(self.i + 1) == Some(&b'{') {
                    self.i += 2;
                    let mut v = vec![];
                    loop {
                        match self.peek() {
                            b'}' => {
                                self.i += 1;
                                break;
                            }
                            b',' => self.i += 1,
                            _ => {
                                let st = self.i;
                                while self.i < self.s.len() && self.s[self.i] != b':' {
                                    self.i += 1;
                                }
                                let f = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                                self.i += 1;
                                v.push((f, self.value()?));
                            }
                        }
                    }
                    return Some(T::Node(name, v));
                }
                Some(T::Atom(name))
            }
        }
    }
}

pub fn parse(s: &str) -> Option<T> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let t = p.value()?;
    p.ws();
    if p.i == s.len() {
        Some(t)
    } else {
        None
    }
}

impl T {
    pub fn tokens<'a>(&'a self, out: &mut Vec<&'a T>) {
        match self {
            T::Tok { .. } => out.push(self),
            T::Node(_, v) => v.iter().for_each(|(_, t)| t.tokens(out)),
            T::List(v) => v.iter().for_each(|t| t.tokens(out)),
            T::Atom(_) => {}
        }
    }
    pub fn toks(&self) -> Vec<&T> {
        let mut v = vec![];
        self.tokens(&mut v);
        v
    }
    pub fn name(&self) -> &str {
        match self {
            T::Node(n, _) => n,
            T::Atom(n) => n,
            _ => "",
        }
    }
    /// All statement lists (the contents of every block), outermost first.
    pub fn blocks<'a>(&'a self, out: &mut Vec<&'a Vec<T>>) {
        match self {
            T::Node(n, v) => {
                if n == "ASTBlock" {
                    if let Some((_, T::List(l))) = v.first() {
                        out.push(l);
                    }
                }
                v.iter().for_each(|(_, t)| t.blocks(out));
            }
            T::List(v) => v.iter().for_each(|t| t.blocks(out)),
            _ => {}
        }
    }
    /// Lines on which tokens of this subtree start.
    pub fn lines(&self) -> Vec<i32> {
        self.toks()
            .iter()
            .map(|t| match t {
                T::Tok { sl, .. } => *sl,
                _ => 0,
            })
            .collect()
    }
    pub fn count(&self, name: &str) -> usize {
        match self {
            T::Node(n, v) => (n == name) as usize + v.iter().map(|(_, t)| t.count(name)).sum::<usize>(),
            T::List(v) => v.iter().map(|t| t.count(name)).sum(),
            _ => 0,
        }
    }
    /// Error nodes in source order, as the text of their contents.
    pub fn errors(&self, out: &mut Vec<String>) {
        match self {
            T::Node(n, v) => {
                if n == "ASTError" {
                    out.push(format!("{:?}", v));
                } else {
                    v.iter().for_each(|(_, t)| t.errors(out));
                }
            }
            T::List(v) => v.iter().for_each(|t| t.errors(out)),
            _ => {}
        }
    }
}
