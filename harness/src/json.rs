//! Just enough JSON for scripts (in) and traces (out).
use std::fmt::Write;

#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k).is_some()
    }
    pub fn int(&self, k: &str) -> i64 {
        match self.get(k) {
            Some(J::Int(n)) => *n,
            _ => panic!("script: missing integer {k}"),
        }
    }
    pub fn int_or(&self, k: &str, d: i64) -> i64 {
        match self.get(k) {
            Some(J::Int(n)) => *n,
            _ => d,
        }
    }
    pub fn str(&self, k: &str) -> &str {
        match self.get(k) {
            Some(J::Str(s)) => s,
            _ => "",
        }
    }
    pub fn ints(&self, k: &str) -> Vec<i64> {
        match self.get(k) {
            Some(j) => j.as_ints(),
            None => panic!("script: missing array {k}"),
        }
    }
    pub fn as_ints(&self) -> Vec<i64> {
        match self {
            J::Arr(a) => a
                .iter()
                .map(|x| match x {
                    J::Int(n) => *n,
                    _ => panic!("script: integer expected"),
                })
                .collect(),
            _ => panic!("script: array expected"),
        }
    }
    pub fn arr(&self, k: &str) -> &[J] {
        match self.get(k) {
            Some(J::Arr(a)) => a,
            _ => &[],
        }
    }
    pub fn bytes(&self, k: &str) -> Vec<u8> {
        self.ints(k).into_iter().map(|n| n as u8).collect()
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(m) = self {
            if let Some(e) = m.iter_mut().find(|(n, _)| n == k) {
                e.1 = v;
            } else {
                m.push((k.to_owned(), v));
            }
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(n) => write!(o, "{n}").unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
pub fn b(bytes: &[u8]) -> J {
    J::Arr(bytes.iter().map(|x| J::Int(i64::from(*x))).collect())
}
pub fn v(ints: &[i64]) -> J {
    J::Arr(ints.iter().map(|x| J::Int(*x)).collect())
}
pub fn obj(fields: Vec<(&str, J)>) -> J {
    J::Obj(fields.into_iter().map(|(k, x)| (k.to_owned(), x)).collect())
}
pub fn s(x: &str) -> J {
    J::Str(x.to_owned())
}

pub fn parse(t: &str) -> J {
    let mut p = P { t: t.as_bytes(), i: 0 };
    p.value()
}
struct P<'a> {
    t: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.t.len() && self.t[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn value(&mut self) -> J {
        self.ws();
        match self.t[self.i] {
            b'{' => {
                self.i += 1;
                let mut m = Vec::new();
                loop {
                    self.ws();
                    match self.t[self.i] {
                        b'}' => {
                            self.i += 1;
                            return J::Obj(m);
                        }
                        b',' => self.i += 1,
                        _ => {
                            let k = self.string();
                            self.ws();
                            assert_eq!(self.t[self.i], b':');
                            self.i += 1;
                            m.push((k, self.value()));
                        }
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                loop {
                    self.ws();
                    match self.t[self.i] {
                        b']' => {
                            self.i += 1;
                            return J::Arr(a);
                        }
                        b',' => self.i += 1,
                        _ => a.push(self.value()),
                    }
                }
            }
            b'"' => J::Str(self.string()),
            b't' => {
                self.i += 4;
                J::Bool(true)
            }
            b'f' => {
                self.i += 5;
                J::Bool(false)
            }
            b'n' => {
                self.i += 4;
                J::Null
            }
            _ => {
                let st = self.i;
                while self.i < self.t.len()
                    && (self.t[self.i] == b'-' || self.t[self.i].is_ascii_digit())
                {
                    self.i += 1;
                }
                let x = std::str::from_utf8(&self.t[st..self.i]).unwrap();
                J::Int(x.parse().unwrap_or_else(|_| panic!("script: bad token at {st}")))
            }
        }
    }
    fn string(&mut self) -> String {
        assert_eq!(self.t[self.i], b'"');
        self.i += 1;
        let mut o = Vec::new();
        loop {
            match self.t[self.i] {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(o).unwrap();
                }
                b'\\' => {
                    o.push(self.t[self.i + 1]);
                    self.i += 2;
                }
                c => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
}
