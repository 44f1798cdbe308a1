//! A minimal JSON reader (the harness has no JSON dependency so that it builds fast).
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}

static NULL: J = J::Null;

impl J {
    pub fn g(&self, k: &str) -> &J {
        match self {
            J::O(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => &[],
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn n(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => 0,
        }
    }
    pub fn int_or(&self, d: i64) -> i64 {
        match self {
            J::N(n) => *n,
            _ => d,
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::B(true))
    }
    /// A text: array of code points.
    pub fn text(&self) -> String {
        match self {
            J::S(s) => s.clone(),
            _ => self
                .arr()
                .iter()
                .map(|c| char::from_u32(c.n() as u32).expect("code point"))
                .collect(),
        }
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let v = value(b, &mut i);
    v
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], b' ' | b'\t' | b'\n' | b'\r') {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            ws(b, i);
            if b[*i] == b'}' {
                *i += 1;
                return J::O(m);
            }
            loop {
                ws(b, i);
                let k = string(b, i);
                ws(b, i);
                assert_eq!(b[*i], b':');
                *i += 1;
                let v = value(b, i);
                m.insert(k, v);
                ws(b, i);
                *i += 1;
                if b[*i - 1] == b'}' {
                    return J::O(m);
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut a = Vec::new();
            ws(b, i);
            if b[*i] == b']' {
                *i += 1;
                return J::A(a);
            }
            loop {
                a.push(value(b, i));
                ws(b, i);
                *i += 1;
                if b[*i - 1] == b']' {
                    return J::A(a);
                }
            }
        }
        b'"' => J::S(string(b, i)),
        b't' => {
            *i += 4;
            J::B(true)
        }
        b'f' => {
            *i += 5;
            J::B(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::N(std::str::from_utf8(&b[st..*i]).unwrap().parse().expect("number"))
        }
    }
}

fn string(b: &[u8], i: &mut usize) -> String {
    assert_eq!(b[*i], b'"');
    *i += 1;
    let mut out = Vec::new();
    loop {
        match b[*i] {
            b'"' => {
                *i += 1;
                return String::from_utf8(out).unwrap();
            }
            b'\\' => {
                *i += 1;
                match b[*i] {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap();
                        let mut c = u32::from_str_radix(h, 16).unwrap();
                        *i += 4;
                        if (0xD800..0xDC00).contains(&c) {
                            let h2 = std::str::from_utf8(&b[*i + 3..*i + 7]).unwrap();
                            let d = u32::from_str_radix(h2, 16).unwrap();
                            c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00);
                            *i += 6;
                        }
                        let mut buf = [0; 4];
                        out.extend_from_slice(char::from_u32(c).unwrap().encode_utf8(&mut buf).as_bytes());
                    }
                    c => out.push(c),
                }
                *i += 1;
            }
            c => {
                out.push(c);
                *i += 1;
            }
        }
    }
}

/// A text as JSON array of code points.
pub fn text(s: &str) -> String {
    let v: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect();
    format!("[{}]", v.join(","))
}

pub fn bytes(s: &[u8]) -> String {
    let v: Vec<String> = s.iter().map(|c| c.to_string()).collect();
    format!("[{}]", v.join(","))
}
