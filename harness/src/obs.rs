//! Observations: what a call on the real crate showed, in the words of the specification.
use crate::json::J;
use cbored::*;

/// words and byte strings seen by the caller
pub type Seen = (Vec<String>, Vec<Vec<u8>>);
pub type Obs = Result<Seen, Seen>;

#[derive(Clone, Debug, Default)]
pub struct Op {
    /// family
    pub f: String,
    pub op: String,
    /// accessor, path or form
    pub how: String,
    /// number argument (width, size, ...)
    pub n: i64,
    /// byte string arguments
    pub a: Vec<Vec<u8>>,
    /// value argument (typed sessions)
    pub v: Option<J>,
}

impl Op {
    pub fn new(f: &str, op: &str, how: &str) -> Op {
        Op { f: f.into(), op: op.into(), how: how.into(), ..Default::default() }
    }
    pub fn n(mut self, n: i64) -> Op {
        self.n = n;
        self
    }
    pub fn a(mut self, a: Vec<Vec<u8>>) -> Op {
        self.a = a;
        self
    }
    pub fn v(mut self, v: J) -> Op {
        self.v = Some(v);
        self
    }
    pub fn from_json(j: &J) -> Op {
        Op {
            f: j.get("f").str().into(),
            op: j.get("op").str().into(),
            how: j.get("how").str().into(),
            n: j.get("n").num(),
            a: j.get("a").byte_lists(),
            v: match j.get("v") {
                J::Null => None,
                v => Some(v.clone()),
            },
        }
    }
    pub fn kv(&self) -> Vec<(&'static str, J)> {
        let mut kv = vec![
            ("f", J::s(&self.f)),
            ("op", J::s(&self.op)),
            ("how", J::s(&self.how)),
            ("n", J::Num(self.n)),
            ("a", J::Arr(self.a.iter().map(|x| J::from_bytes(x)).collect())),
        ];
        if let Some(v) = &self.v {
            kv.push(("v", v.clone()))
        }
        kv
    }
}

/// one recorded call
#[derive(Clone, Debug)]
pub struct Ev {
    pub op: Op,
    /// "ok", "err" or "panic"
    pub c: String,
    pub s: Vec<String>,
    pub b: Vec<Vec<u8>>,
    pub p: i64,
    /// value seen (typed sessions)
    pub r: Option<J>,
    /// measures (hostile sessions)
    pub m: Vec<usize>,
}

impl Ev {
    pub fn of(op: &Op, o: Obs, p: usize) -> Ev {
        let (c, (s, b)) = match o {
            Ok(x) => ("ok", x),
            Err(x) => ("err", x),
        };
        Ev { op: op.clone(), c: c.into(), s, b, p: p as i64, r: None, m: vec![] }
    }
    pub fn panic(op: &Op) -> Ev {
        Ev { op: op.clone(), c: "panic".into(), s: vec![], b: vec![], p: -1, r: None, m: vec![] }
    }
    pub fn json(&self) -> J {
        let mut kv = self.op.kv();
        kv.push(("c", J::s(&self.c)));
        kv.push(("s", J::Arr(self.s.iter().map(|x| J::s(x)).collect())));
        kv.push(("b", J::Arr(self.b.iter().map(|x| J::from_bytes(x)).collect())));
        kv.push(("p", J::Num(self.p)));
        if !self.m.is_empty() {
            kv.push(("m", J::Arr(self.m.iter().map(|x| J::Num((*x).min(2_000_000_000) as i64)).collect())))
        }
        if let Some(r) = &self.r {
            kv.push(("r", r.clone()))
        }
        J::obj(kv)
    }
}

pub fn n8(n: u64) -> Vec<u8> {
    n.to_be_bytes().to_vec()
}

pub fn st(s: &str) -> String {
    s.to_string()
}

pub fn no() -> Seen {
    (vec![], vec![])
}

pub fn kind(t: Type) -> String {
    format!("{:?}", t)
}

/// ReservedByte(..) style debug output: the lead errors have no public name
fn lead_err<T: std::fmt::Debug>(e: &T) -> Seen {
    let d = format!("{:?}", e);
    let n: u64 = d.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(999);
    let w = if d.starts_with("Reserved") { "reserved" } else { "noindef" };
    (vec![st("lead"), st(w)], vec![vec![n as u8]])
}

pub fn missing(m: &cbored::validate::CborDataMissing) -> Seen {
    (
        vec![st("missing"), format!("{:?}", m.context)],
        vec![n8(m.expecting_bytes as u64), n8(m.got_bytes as u64)],
    )
}

pub fn reader_err(e: &ReaderError) -> Seen {
    match e {
        ReaderError::LeadError(l) => lead_err(l),
        ReaderError::DataMissing(m) => missing(m),
        ReaderError::StateError(_) => (vec![st("state")], vec![]),
        ReaderError::WrongExpectedType { expected, got } => {
            (vec![st("type"), kind(*expected), kind(*got)], vec![])
        }
        ReaderError::WrongExpectedTypes { expected, got } => {
            let mut w: Vec<String> = expected.iter().map(|t| kind(*t)).collect();
            w.sort();
            let mut s = vec![st("type")];
            s.extend(w);
            s.push(kind(*got));
            (s, vec![])
        }
        ReaderError::WrongExpectedTag { expected, got } => {
            (vec![st("tag")], vec![n8(*expected), n8(*got)])
        }
        ReaderError::WrongExpectedTags { expected, got } => {
            let mut w: Vec<u64> = expected.to_vec();
            w.sort();
            let mut b: Vec<Vec<u8>> = w.into_iter().map(n8).collect();
            b.push(n8(*got));
            (vec![st("tag")], b)
        }
        ReaderError::WrongExpectedLength { expected, got } => {
            (vec![st("length")], vec![n8(*expected as u64), n8(*got as u64)])
        }
        ReaderError::UnexpectedBreakType => (vec![st("break")], vec![]),
        ReaderError::TextUTF8Error(_) => (vec![st("utf8")], vec![]),
        ReaderError::TextChunksInTextChunks => (vec![st("inner"), st("Text")], vec![]),
        ReaderError::BytesChunksInBytesChunks => (vec![st("inner"), st("Bytes")], vec![]),
        ReaderError::WrongExpectedTypeInText { got } => (vec![st("inner"), kind(*got)], vec![]),
        ReaderError::WrongExpectedTypeInBytes { got } => (vec![st("inner"), kind(*got)], vec![]),
        ReaderError::NotTerminated { at, remaining_bytes, next_byte } => (
            vec![st("trailing")],
            vec![n8(*at as u64), n8(*remaining_bytes as u64), vec![*next_byte]],
        ),
    }
}

pub fn validate_err(e: &cbored::validate::ValidateError) -> Seen {
    use cbored::validate::ValidateError as V;
    match e {
        V::LeadError(l) => lead_err(l),
        V::DataMissing(m) => missing(m),
        V::StateError(_) => (vec![st("state")], vec![]),
    }
}

pub fn kind_err(e: &DecodeErrorKind) -> Seen {
    match e {
        DecodeErrorKind::ReaderError(r) => reader_err(r),
        DecodeErrorKind::ReaderNotTerminated { remaining_bytes } => {
            (vec![st("left")], vec![n8(*remaining_bytes as u64)])
        }
        DecodeErrorKind::OutOfRange { min, max, got } => {
            (vec![st("range")], vec![n8(*min), n8(*max), n8(*got)])
        }
        DecodeErrorKind::UnexpectedLength { expected, got } => {
            (vec![st("length")], vec![n8(*expected as u64), n8(*got as u64)])
        }
        DecodeErrorKind::Custom(m) => {
            // the words and numbers in it, and first the number after "got"
            let words: Vec<&str> = m.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| !w.is_empty()).collect();
            let num = |w: &str| w.parse::<u64>().ok().map(n8);
            let got = words.iter().position(|w| *w == "got").and_then(|i| words.get(i + 1)).and_then(|w| num(w)).unwrap_or_default();
            let mut b = vec![got];
            b.extend(words.iter().filter_map(|w| num(w)));
            let mut s = vec![st("custom")];
            s.extend(words.iter().map(|w| st(w)));
            (s, b)
        }
    }
}
