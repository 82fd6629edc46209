//! A small JSON reader and writer, enough for the traces.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.num() as u8).collect()
    }
    pub fn strs(&self) -> Vec<String> {
        self.arr().iter().map(|x| x.str().to_string()).collect()
    }
    pub fn byte_lists(&self) -> Vec<Vec<u8>> {
        self.arr().iter().map(|x| x.bytes()).collect()
    }
    pub fn from_bytes(b: &[u8]) -> J {
        J::Arr(b.iter().map(|x| J::Num(*x as i64)).collect())
    }
    pub fn s(s: &str) -> J {
        J::Str(s.to_string())
    }
    pub fn obj(kv: Vec<(&str, J)>) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(&n.to_string()),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.write(o)
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    J::s(k).write(o);
                    o.push(':');
                    x.write(o)
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

pub fn parse(t: &str) -> J {
    let b = t.as_bytes();
    let mut i = 0;
    value(b, &mut i)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1
    }
}

fn string(b: &[u8], i: &mut usize) -> String {
    *i += 1;
    let mut out = Vec::new();
    while b[*i] != b'"' {
        if b[*i] == b'\\' {
            *i += 1;
            match b[*i] {
                b'n' => out.push(b'\n'),
                b't' => out.push(b'\t'),
                b'r' => out.push(b'\r'),
                b'u' => {
                    let h = u32::from_str_radix(std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap(), 16)
                        .unwrap();
                    *i += 4;
                    let mut t = [0; 4];
                    out.extend_from_slice(
                        char::from_u32(h).unwrap_or('?').encode_utf8(&mut t).as_bytes(),
                    )
                }
                c => out.push(c),
            }
        } else {
            out.push(b[*i])
        }
        *i += 1
    }
    *i += 1;
    String::from_utf8(out).unwrap()
}

fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                match b[*i] {
                    b'}' => {
                        *i += 1;
                        return J::Obj(m);
                    }
                    b',' => *i += 1,
                    _ => {
                        let k = string(b, i);
                        ws(b, i);
                        *i += 1;
                        let v = value(b, i);
                        m.insert(k, v);
                    }
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                match b[*i] {
                    b']' => {
                        *i += 1;
                        return J::Arr(v);
                    }
                    b',' => *i += 1,
                    _ => v.push(value(b, i)),
                }
            }
        }
        b'"' => J::Str(string(b, i)),
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let s = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1
            }
            J::Num(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
        }
    }
}
