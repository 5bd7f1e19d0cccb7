//! Reads the text that `{:?}` makes of a value back into a tree. The client
//! hands messages and acknowledgements to the application in this form.

#[derive(Debug, Clone, PartialEq)]
pub enum D {
    Str(Vec<u8>),
    Num(i128),
    List(Vec<D>),
    /// Name { a: .. } / Name(..) / Name; unnamed fields have an empty name.
    Node(String, Vec<(String, D)>),
}

impl D {
    /// First field with that name, anywhere in the tree (depth first).
    pub fn find(&self, name: &str) -> Option<&D> {
        match self {
            D::Node(_, fs) => {
                for (n, d) in fs {
                    if n == name {
                        return Some(d);
                    }
                }
                fs.iter().find_map(|(_, d)| d.find(name))
            }
            D::List(l) => l.iter().find_map(|d| d.find(name)),
            _ => None,
        }
    }
    pub fn name(&self) -> &str {
        match self {
            D::Node(n, _) => n,
            _ => "",
        }
    }
    /// `Some(x)` and one-field wrappers are looked through.
    pub fn inner(&self) -> &D {
        match self {
            D::Node(n, fs) if n == "Some" && fs.len() == 1 => fs[0].1.inner(),
            d => d,
        }
    }
    pub fn num(&self) -> Option<i128> {
        match self.inner() {
            D::Num(n) => Some(*n),
            D::Node(_, fs) if fs.len() == 1 => fs[0].1.num(),
            _ => None,
        }
    }
    pub fn bytes(&self) -> Option<Vec<u8>> {
        match self.inner() {
            D::Str(s) => Some(s.clone()),
            D::List(l) => l
                .iter()
                .map(|d| match d {
                    D::Num(n) if (0..256).contains(n) => Some(*n as u8),
                    _ => None,
                })
                .collect(),
            D::Node(_, fs) if fs.len() == 1 => fs[0].1.bytes(),
            _ => None,
        }
    }
}

pub fn parse(s: &str) -> Option<D> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let d = p.value()?;
    p.ws();
    if p.i == p.s.len() {
        Some(d)
    } else {
        None
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn value(&mut self) -> Option<D> {
        match self.peek()? {
            b'"' => self.string(),
            b'[' => {
                self.i += 1;
                let mut l = vec![];
                loop {
                    if self.eat(b']') {
                        return Some(D::List(l));
                    }
                    l.push(self.value()?);
                    if !self.eat(b',') {
                        return if self.eat(b']') { Some(D::List(l)) } else { None };
                    }
                }
            }
            b'(' => {
                let fs = self.tuple()?;
                Some(D::Node(String::new(), fs))
            }
            c if c == b'-' || c.is_ascii_digit() => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                std::str::from_utf8(&self.s[st..self.i]).ok()?.parse().ok().map(D::Num)
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let n = self.ident();
                if self.peek() == Some(b'(') {
                    let fs = self.tuple()?;
                    return Some(D::Node(n, fs));
                }
                if self.eat(b'{') {
                    let mut fs = vec![];
                    loop {
                        if self.eat(b'}') {
                            return Some(D::Node(n, fs));
                        }
                        self.ws();
                        let k = self.ident();
                        if k.is_empty() || !self.eat(b':') {
                            return None;
                        }
                        let v = self.value()?;
                        fs.push((k, v));
                        if !self.eat(b',') {
                            return if self.eat(b'}') { Some(D::Node(n, fs)) } else { None };
                        }
                    }
                }
                Some(D::Node(n, vec![]))
            }
            _ => None,
        }
    }
    fn tuple(&mut self) -> Option<Vec<(String, D)>> {
        if !self.eat(b'(') {
            return None;
        }
        let mut fs = vec![];
        loop {
            if self.eat(b')') {
                return Some(fs);
            }
            fs.push((String::new(), self.value()?));
            if !self.eat(b',') {
                return if self.eat(b')') { Some(fs) } else { None };
            }
        }
    }
    fn ident(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn string(&mut self) -> Option<D> {
        self.i += 1;
        let mut out = vec![];
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return Some(D::Str(out)),
                b'\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'0' => out.push(0),
                        b'u' => {
                            if *self.s.get(self.i)? != b'{' {
                                return None;
                            }
                            let st = self.i + 1;
                            while *self.s.get(self.i)? != b'}' {
                                self.i += 1;
                            }
                            let h = std::str::from_utf8(&self.s[st..self.i]).ok()?;
                            self.i += 1;
                            let ch = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                            let mut b = [0; 4];
                            out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                        }
                        o => out.push(o),
                    }
                }
                o => out.push(o),
            }
        }
    }
}
