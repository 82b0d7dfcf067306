//! A minimal JSON value, parser and printer.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    N(i64),
    S(String),
    T(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::S(x.to_string())
}
pub fn n(x: usize) -> J {
    J::N(x as i64)
}
pub fn bytes(b: &[u8]) -> J {
    J::A(b.iter().map(|x| J::N(*x as i64)).collect())
}
pub fn kv(k: &str, payload: J) -> J {
    J::A(vec![s(k), payload])
}

impl J {
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => bad(&format!("array expected: {:?}", self)),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(a) => a,
            _ => bad(&format!("string expected: {:?}", self)),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::N(a) => *a,
            _ => bad(&format!("number expected: {:?}", self)),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.num() as u8).collect()
    }
    pub fn text(&self) -> String {
        String::from_utf8(self.bytes()).unwrap_or_else(|_| bad("stimulus text is not UTF-8"))
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(o) => o.iter().find(|(a, _)| a == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn req(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| bad(&format!("no {} in {:?}", k, self)))
    }
    /// kind of a `[kind, payload]` pair
    pub fn kind(&self) -> &str {
        self.arr()[0].str()
    }
    pub fn pay(&self) -> &J {
        &self.arr()[1]
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::A(a) if a.len() == 2 && a[0] == J::S("null".into()))
    }
    pub fn print(&self, out: &mut String) {
        self.print_at(out, 0)
    }
    /// Nesting beyond what the reader of the trace takes is cut off: nothing is promised about such values.
    fn print_at(&self, out: &mut String, depth: usize) {
        match self {
            J::A(_) if depth > 225 => out.push_str("[\"deep\",[]]"),
            J::N(x) => write!(out, "{}", x).unwrap(),
            J::T(x) => write!(out, "{}", x).unwrap(),
            J::S(x) => {
                out.push('"');
                for c in x.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 32 || c as u32 > 126 => {
                            write!(out, "\\u{:04x}", c as u32 & 0xffff).unwrap()
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.print_at(out, depth + 1);
                }
                out.push(']');
            }
            J::O(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write!(out, "\"{}\":", k).unwrap();
                    x.print_at(out, depth + 1);
                }
                out.push('}');
            }
        }
    }
}

/// The stimulus is malformed: an error of the harness, never of the code.
pub fn bad(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR {}", msg);
    std::process::exit(3)
}

pub fn parse(text: &[u8]) -> J {
    let mut p = 0;
    let v = val(text, &mut p);
    v
}
fn ws(t: &[u8], p: &mut usize) {
    while *p < t.len() && (t[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}
fn val(t: &[u8], p: &mut usize) -> J {
    ws(t, p);
    match t[*p] {
        b'[' => {
            *p += 1;
            let mut a = Vec::new();
            loop {
                ws(t, p);
                if t[*p] == b']' {
                    *p += 1;
                    return J::A(a);
                }
                if t[*p] == b',' {
                    *p += 1;
                }
                ws(t, p);
                if t[*p] == b']' {
                    *p += 1;
                    return J::A(a);
                }
                a.push(val(t, p));
            }
        }
        b'{' => {
            *p += 1;
            let mut o = Vec::new();
            loop {
                ws(t, p);
                match t[*p] {
                    b'}' => {
                        *p += 1;
                        return J::O(o);
                    }
                    b',' => *p += 1,
                    _ => {}
                }
                ws(t, p);
                if t[*p] == b'}' {
                    *p += 1;
                    return J::O(o);
                }
                let k = match val(t, p) {
                    J::S(k) => k,
                    _ => bad("object key"),
                };
                ws(t, p);
                *p += 1; // ':'
                let v = val(t, p);
                o.push((k, v));
            }
        }
        b'"' => {
            *p += 1;
            let start = *p;
            while t[*p] != b'"' {
                if t[*p] == b'\\' {
                    bad("escapes are not used in stimuli");
                }
                *p += 1;
            }
            let r = std::str::from_utf8(&t[start..*p]).unwrap().to_string();
            *p += 1;
            J::S(r)
        }
        b't' => {
            *p += 4;
            J::T(true)
        }
        b'f' => {
            *p += 5;
            J::T(false)
        }
        _ => {
            let start = *p;
            while *p < t.len() && (t[*p] == b'-' || t[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::N(std::str::from_utf8(&t[start..*p]).unwrap().parse().unwrap_or_else(|_| bad("number")))
        }
    }
}
