//! Reads `Debug` output of generated types back into a tree and compares it with an interpreted value.
use crate::rv::RV;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Num(i128),
    Char(char),
    Str(String),
    /// a bare name: unit variants, booleans, `None`
    Name(String),
    Call(String, Vec<T>),
    Rec(String, Vec<(String, T)>),
    Seq(Vec<T>),
    Tup(Vec<T>),
    Range(i128, i128),
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    text: &'a str,
}

pub fn parse(s: &str) -> Result<T, String> {
    let mut p = P { s: s.as_bytes(), i: 0, text: s };
    let t = p.value()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing debug text at {}: {}", p.i, &s[p.i..s.len().min(p.i + 40)]));
    }
    Ok(t)
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn err<X>(&self, m: &str) -> Result<X, String> {
        let lo = self.i.saturating_sub(20);
        Err(format!("{m} at {} near {:?}", self.i, String::from_utf8_lossy(&self.s[lo..self.s.len().min(self.i + 20)])))
    }
    fn int(&mut self) -> Result<i128, String> {
        let st = self.i;
        if self.s[self.i] == b'-' {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        self.text[st..self.i].parse::<i128>().or_else(|_| self.err("number"))
    }
    fn quoted(&mut self, q: u8) -> Result<String, String> {
        self.i += 1;
        let mut out = String::new();
        loop {
            let Some(c) = self.text[self.i..].chars().next() else { return self.err("open quote") };
            self.i += c.len_utf8();
            if c as u32 == q as u32 {
                return Ok(out);
            }
            if c != '\\' {
                out.push(c);
                continue;
            }
            let e = self.text[self.i..].chars().next().unwrap_or('\0');
            self.i += e.len_utf8();
            match e {
                'n' => out.push('\n'),
                't' => out.push('\t'),
                'r' => out.push('\r'),
                '0' => out.push('\0'),
                'u' => {
                    let end = self.text[self.i..].find('}').map(|k| k + self.i).ok_or("bad escape")?;
                    let n = u32::from_str_radix(&self.text[self.i + 1..end], 16).map_err(|e| e.to_string())?;
                    out.push(char::from_u32(n).ok_or("bad char")?);
                    self.i = end + 1;
                }
                'x' => {
                    let n = u32::from_str_radix(&self.text[self.i..self.i + 2], 16).map_err(|e| e.to_string())?;
                    out.push(char::from_u32(n).unwrap());
                    self.i += 2;
                }
                o => out.push(o),
            }
        }
    }
    fn list(&mut self, close: u8) -> Result<Vec<T>, String> {
        let mut v = vec![];
        loop {
            if self.eat(close) {
                return Ok(v);
            }
            v.push(self.value()?);
            if !self.eat(b',') {
                if self.eat(close) {
                    return Ok(v);
                }
                return self.err("list");
            }
        }
    }
    fn ident(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'#') {
            self.i += 1;
        }
        self.text[st..self.i].to_string()
    }
    fn value(&mut self) -> Result<T, String> {
        match self.peek() {
            b'[' => {
                self.i += 1;
                Ok(T::Seq(self.list(b']')?))
            }
            b'(' => {
                self.i += 1;
                Ok(T::Tup(self.list(b')')?))
            }
            b'\'' => {
                let s = self.quoted(b'\'')?;
                let mut c = s.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Ok(T::Char(c)),
                    _ => self.err("char"),
                }
            }
            b'"' => Ok(T::Str(self.quoted(b'"')?)),
            b'-' | b'0'..=b'9' => {
                let a = self.int()?;
                if self.text[self.i..].starts_with("..") {
                    self.i += 2;
                    let b = self.int()?;
                    return Ok(T::Range(a, b));
                }
                Ok(T::Num(a))
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let n = self.ident();
                if self.s.get(self.i) == Some(&b'<') {
                    let mut d = 0;
                    while self.i < self.s.len() {
                        match self.s[self.i] {
                            b'<' => d += 1,
                            b'>' => {
                                d -= 1;
                                if d == 0 {
                                    self.i += 1;
                                    break;
                                }
                            }
                            _ => {}
                        }
                        self.i += 1;
                    }
                    return Ok(T::Name(n));
                }
                if self.s.get(self.i) == Some(&b'(') {
                    self.i += 1;
                    return Ok(T::Call(n, self.list(b')')?));
                }
                if self.s.get(self.i) == Some(&b' ') && self.s.get(self.i + 1) == Some(&b'{') {
                    self.i += 2;
                    let mut fs = vec![];
                    loop {
                        if self.eat(b'}') {
                            return Ok(T::Rec(n, fs));
                        }
                        self.ws();
                        let f = self.ident();
                        if !self.eat(b':') {
                            return self.err("field");
                        }
                        fs.push((f, self.value()?));
                        self.eat(b',');
                    }
                }
                Ok(T::Name(n))
            }
            _ => self.err("value"),
        }
    }
}

pub fn munge(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect()
}

fn same_name(a: &str, b: &str) -> bool {
    a == b || munge(a).trim_matches('_') == munge(b.trim_start_matches("r#")).trim_matches('_')
}

/// `None` when equal, otherwise where and how they differ.
pub fn diff(v: &RV, t: &T) -> Option<String> {
    let bad = || Some(format!("{} vs {}", short(&v.to_string()), short(&format!("{t:?}"))));
    match (v, t) {
        (RV::Bool(b), T::Name(n)) if n == if *b { "true" } else { "false" } => None,
        (RV::Int(_, a), T::Num(b)) if a == b => None,
        (RV::Char(a), T::Char(b)) if a == b => None,
        (RV::Opt(None), T::Name(n)) if n == "None" => None,
        (RV::Opt(Some(v)), T::Call(n, ts)) if n == "Some" && ts.len() == 1 => diff(v, &ts[0]).map(|d| format!("Some.{d}")),
        (RV::Tup(vs), T::Tup(ts)) if vs.len() == ts.len() => vs.iter().zip(ts).enumerate().find_map(|(i, (v, t))| diff(v, t).map(|d| format!("{i}.{d}"))),
        // a tuple inside a variant
        (RV::Rec(vs), T::Rec(_, ts)) if vs.len() == ts.len() => vs.iter().zip(ts).find_map(|((l, v), (m, t))| {
            if same_name(l, m) { diff(v, t).map(|d| format!("{l}.{d}")) } else { Some(format!("field {l} vs {m}")) }
        }),
        (RV::Rec(vs), T::Tup(ts)) if vs.is_empty() && ts.is_empty() => None,
        (RV::Rec(vs), T::Name(_)) if vs.is_empty() => None,
        (RV::Tup(vs), T::Name(_)) if vs.is_empty() => None,
        (RV::Var(l, v), T::Name(n)) if same_name(l, n) => match &**v {
            RV::Tup(vs) if vs.is_empty() => None,
            RV::Rec(vs) if vs.is_empty() => None,
            _ => bad(),
        },
        (RV::Var(l, v), T::Call(n, ts)) if same_name(l, n) => {
            let r = match &**v {
                RV::Tup(vs) if vs.len() == ts.len() && ts.len() != 1 => vs.iter().zip(ts).enumerate().find_map(|(i, (v, t))| diff(v, t).map(|d| format!("{i}.{d}"))),
                v if ts.len() == 1 => diff(v, &ts[0]),
                _ => bad(),
            };
            r.map(|d| format!("{l}.{d}"))
        }
        (RV::Var(l, v), T::Rec(n, _)) if same_name(l, n) => diff(v, t).map(|d| format!("{l}.{d}")),
        (RV::Seq(vs), T::Seq(ts)) if vs.len() == ts.len() => vs.iter().zip(ts).enumerate().find_map(|(i, (v, t))| diff(v, t).map(|d| format!("[{i}].{d}"))),
        (RV::Seq(vs), T::Seq(ts)) => Some(format!("sequence length {} vs {}", vs.len(), ts.len())),
        (RV::Seq(vs), T::Range(a, b)) => {
            let ws: Vec<RV> = (*a..*b).map(|n| RV::Int(0, n)).collect();
            if *vs == ws { None } else { bad() }
        }
        (RV::View(o), T::Rec(n, fs)) if n == "View" => match fs.iter().find(|(f, _)| f == "start_offset") {
            Some((_, T::Num(k))) if *k == *o as i128 => None,
            None => None,
            _ => bad(),
        },
        (RV::Phantom, T::Name(n)) if n == "PhantomData" => None,
        _ => bad(),
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 160 { format!("{}…", s.chars().take(160).collect::<String>()) } else { s.to_string() }
}
