//! Typed values: every entry point that decodes or encodes a Rust type.
use crate::gen::*;
use crate::json::*;
use crate::obs::*;
use cbored::tagged::*;
use cbored::*;
use std::borrow::Borrow;
use std::collections::BTreeMap;

/// a value as the specification sees it
#[derive(Clone, Debug, PartialEq)]
pub struct V {
    pub k: String,
    pub b: Vec<u8>,
    pub l: Vec<V>,
}

impl V {
    pub fn new(k: &str, b: Vec<u8>, l: Vec<V>) -> V {
        V { k: k.into(), b, l }
    }
    pub fn json(&self) -> J {
        J::obj(vec![
            ("k", J::s(&self.k)),
            ("b", J::from_bytes(&self.b)),
            ("l", J::Arr(self.l.iter().map(|x| x.json()).collect())),
        ])
    }
    pub fn from_json(j: &J) -> V {
        V {
            k: j.get("k").str().into(),
            b: j.get("b").bytes(),
            l: j.get("l").arr().iter().map(V::from_json).collect(),
        }
    }
    pub fn num(&self) -> u64 {
        self.b.iter().fold(0, |a, b| a << 8 | *b as u64)
    }
}

pub trait Val: Sized {
    fn to_v(&self) -> V;
    fn from_v(_: &V) -> Option<Self> {
        None
    }
    /// a value of the type, when values can be made
    fn sample(_: &mut Gen) -> Option<Self> {
        None
    }
    /// bytes that look like the type
    fn spell(_: &mut Gen) -> Option<Vec<u8>> {
        None
    }
}

impl Val for bool {
    fn to_v(&self) -> V {
        V::new(if *self { "True" } else { "False" }, vec![], vec![])
    }
    fn from_v(v: &V) -> Option<Self> {
        Some(v.k == "True")
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        Some(g.r.chance(50))
    }
}

macro_rules! uint {
    ($t:ident) => {
        impl Val for $t {
            fn to_v(&self) -> V {
                V::new("uint", n8(*self as u64), vec![])
            }
            fn from_v(v: &V) -> Option<Self> {
                Some(v.num() as $t)
            }
            fn sample(g: &mut Gen) -> Option<Self> {
                let v = g.num();
                Some(if g.r.chance(10) { $t::MAX } else { v as $t })
            }
            fn spell(g: &mut Gen) -> Option<Vec<u8>> {
                let k = *g.r.pick(&["positive", "positive", "positive", "negative"]);
                Some(g.kind(k))
            }
        }
    };
}
uint!(u8);
uint!(u16);
uint!(u32);
uint!(u64);

impl Val for String {
    fn to_v(&self) -> V {
        V::new("text", self.as_bytes().to_vec(), vec![])
    }
    fn from_v(v: &V) -> Option<Self> {
        String::from_utf8(v.b.clone()).ok()
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        String::from_utf8(long(g, true)).ok()
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        g.o.badtext = 20;
        let x = g.kind("text");
        g.o.badtext = 0;
        Some(x)
    }
}

/// content of a string, now and then around the header width boundaries
fn long(g: &mut Gen, text: bool) -> Vec<u8> {
    let n = match g.r.below(40) {
        _ if g.o.big > 0 => g.size().unwrap_or(3),
        0 => 255,
        1 => 256,
        2 => 300,
        3..=8 => *g.r.pick(&[22usize, 23, 24, 25]),
        _ => return if text { g.textbytes() } else { let n = g.r.below(7); g.rawbytes(n) },
    };
    if text { vec![b'x'; n] } else { g.rawbytes(n) }
}

impl Val for Vec<u8> {
    fn to_v(&self) -> V {
        V::new("bytes", self.clone(), vec![])
    }
    fn from_v(v: &V) -> Option<Self> {
        Some(v.b.clone())
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        Some(long(g, false))
    }
}

impl<const N: usize> Val for [u8; N] {
    fn to_v(&self) -> V {
        V::new("bytes", self.to_vec(), vec![])
    }
    fn from_v(v: &V) -> Option<Self> {
        v.b.clone().try_into().ok()
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        g.rawbytes(N).try_into().ok()
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        // lengths around N
        let n = match g.r.below(6) {
            0 => N.saturating_sub(1),
            1 => N + 1,
            _ => N,
        };
        let d = g.rawbytes(n);
        let mut b = vec![];
        canon(&mut b, 2, n as u64);
        b.extend(d);
        Some(g.respell(&b))
    }
}

impl Val for Scalar {
    fn to_v(&self) -> V {
        match self {
            Scalar::Positive(p) => V::new("Positive", n8(p.to_u64()), vec![]),
            Scalar::Negative(n) => V::new("Negative", n8(n.negative_u64()), vec![]),
        }
    }
    fn from_v(v: &V) -> Option<Self> {
        Some(if v.k == "Positive" { Scalar::canonical_positive(v.num()) } else { Scalar::canonical_negative(v.num()) })
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        let n = g.num();
        Some(if g.r.chance(50) { Scalar::canonical_positive(n) } else { Scalar::canonical_negative(n) })
    }
}

impl Val for DataOwned {
    fn to_v(&self) -> V {
        V::new("data", encode_to_bytes(self), vec![])
    }
    fn from_v(v: &V) -> Option<Self> {
        decode_from_bytes(&v.b).ok()
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        decode_from_bytes(&g.item()).ok()
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        Some(g.item())
    }
}

impl<T: Decode + Encode + Val> Val for CborDataOf<T> {
    fn to_v(&self) -> V {
        V::new("raw", self.as_ref().to_vec(), vec![])
    }
    fn from_v(v: &V) -> Option<Self> {
        let mut r = Reader::new(&v.b);
        r.exact_decodable_data::<T>().ok()
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        let t = T::sample(g)?;
        let b = encode_to_bytes(&t);
        let b = g.respell(&b);
        let mut r = Reader::new(&b);
        r.exact_decodable_data::<T>().ok()
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        T::spell(g)
    }
}

/// decode_vec / encode_vec
#[derive(Clone, Debug)]
pub struct List<T>(pub Vec<T>);

impl<T: Decode> Decode for List<T> {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        decode_vec(r).map(List)
    }
}
impl<T: Encode> Encode for List<T> {
    fn encode(&self, w: &mut Writer) {
        encode_vec(&self.0, w)
    }
}
impl<T: Val> Val for List<T> {
    fn to_v(&self) -> V {
        V::new("list", vec![], self.0.iter().map(|x| x.to_v()).collect())
    }
    fn from_v(v: &V) -> Option<Self> {
        v.l.iter().map(T::from_v).collect::<Option<Vec<T>>>().map(List)
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        let n = match g.r.below(16) {
            _ if g.o.big > 0 => g.size().unwrap_or(3),
            0 => *g.r.pick(&[23usize, 24, 25]),
            _ => g.r.below(4),
        };
        (0..n).map(|_| T::sample(g)).collect::<Option<Vec<T>>>().map(List)
    }
}

/// a simple value
#[derive(Clone, Debug)]
pub struct Simple(pub u8);
impl Decode for Simple {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        r.byte()
            .map(|b| Simple(b.to_u8()))
            .map_err(DecodeErrorKind::ReaderError)
            .map_err(|e| e.context::<Self>())
    }
}
impl Encode for Simple {
    fn encode(&self, w: &mut Writer) {
        w.encode(&Byte::canonical(self.0))
    }
}
impl Val for Simple {
    fn to_v(&self) -> V {
        V::new("byte", vec![self.0], vec![])
    }
    fn from_v(v: &V) -> Option<Self> {
        Some(Simple(v.b[0]))
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        Some(Simple(g.r.next() as u8))
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        Some(g.kind("byte"))
    }
}

/// reads nothing
#[derive(Clone, Debug)]
pub struct Nothing;
impl Decode for Nothing {
    fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Nothing)
    }
}
impl Encode for Nothing {
    fn encode(&self, _: &mut Writer) {}
}
impl Val for Nothing {
    fn to_v(&self) -> V {
        V::new("nothing", vec![], vec![])
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        Some(if g.r.chance(50) { vec![] } else { g.kind("positive") })
    }
}

/// reads two items
#[derive(Clone, Debug)]
pub struct Two(pub u64, pub u64);
impl Decode for Two {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Two(r.decode()?, r.decode()?))
    }
}
impl Encode for Two {
    fn encode(&self, w: &mut Writer) {
        w.encode(&self.0);
        w.encode(&self.1)
    }
}
impl Val for Two {
    fn to_v(&self) -> V {
        V::new("two", vec![], vec![self.0.to_v(), self.1.to_v()])
    }
    fn from_v(v: &V) -> Option<Self> {
        Some(Two(v.l[0].num(), v.l[1].num()))
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        Some(Two(g.num(), g.num()))
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        let mut b = g.kind("positive");
        b.extend(g.kind("positive"));
        Some(b)
    }
}

// -------------------------------------------------------------- tagged types
fn enc<T: Encode>(t: &T) -> V {
    V::new("enc", encode_to_bytes(t), vec![])
}

/// a value of a type whose values only come from bytes
fn spelled<T: Val + Decode>(g: &mut Gen) -> Option<T> {
    for _ in 0..20 {
        let b = T::spell(g)?;
        if let Ok(x) = decode_from_bytes(&b) {
            return Some(x);
        }
    }
    None
}

fn tagged(g: &mut Gen, tag: u64, content: Vec<u8>) -> Vec<u8> {
    let mut b = vec![];
    let tag = if g.r.chance(10) { *g.r.pick(&[0u64, 1, 2, 3, 4, 24, 30, 258]) } else { tag };
    g.hd(&mut b, 6, tag);
    b.extend(content);
    b
}

fn content(g: &mut Gen, kind: &str) -> Vec<u8> {
    if g.r.chance(10) {
        return g.item();
    }
    g.o.badtext = 10;
    let x = g.kind(kind);
    g.o.badtext = 0;
    x
}

impl Val for StandardDateTime {
    fn to_v(&self) -> V {
        V::new("datetime", vec![], vec![enc(self)])
    }
    fn from_v(v: &V) -> Option<Self> {
        decode_from_bytes(&v.l.last()?.b).ok()
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        spelled(g)
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        let c = content(g, "text");
        Some(tagged(g, 0, c))
    }
}
impl Val for PositiveBignum {
    fn to_v(&self) -> V {
        V::new("posbig", self.to_be_bytes(), vec![enc(self)])
    }
    fn from_v(v: &V) -> Option<Self> {
        decode_from_bytes(&v.l.last()?.b).ok()
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        spelled(g)
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        let c = content(g, "bytes");
        Some(tagged(g, 2, c))
    }
}
impl Val for NegativeBignum {
    fn to_v(&self) -> V {
        V::new("negbig", self.to_be_bytes(), vec![enc(self)])
    }
    fn from_v(v: &V) -> Option<Self> {
        decode_from_bytes(&v.l.last()?.b).ok()
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        spelled(g)
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        let c = content(g, "bytes");
        Some(tagged(g, 3, c))
    }
}
impl Val for EncodedCBOR {
    fn to_v(&self) -> V {
        V::new("encoded", self.to_bytes(), vec![enc(self)])
    }
    fn from_v(v: &V) -> Option<Self> {
        Some(EncodedCBOR::from_bytes(&v.b))
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        Some(EncodedCBOR::from_bytes(&long(g, false)))
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        let c = content(g, "bytes");
        Some(tagged(g, 24, c))
    }
}
impl Val for RationalNumber {
    fn to_v(&self) -> V {
        let n = match self.numerator() {
            RationalNumerator::Positive(p) => Scalar::Positive(*p).to_v(),
            RationalNumerator::Negative(p) => Scalar::Negative(*p).to_v(),
            RationalNumerator::PositiveBignum(p) => p.to_v(),
            RationalNumerator::NegativeBignum(p) => p.to_v(),
        };
        let d = match self.denominator() {
            RationalDenominator::Positive(p) => Scalar::Positive(*p).to_v(),
            RationalDenominator::PositiveBignum(p) => p.to_v(),
        };
        V::new("rational", vec![], vec![n, d, enc(self)])
    }
    fn from_v(v: &V) -> Option<Self> {
        decode_from_bytes(&v.l.last()?.b).ok()
    }
    fn sample(g: &mut Gen) -> Option<Self> {
        spelled(g)
    }
    fn spell(g: &mut Gen) -> Option<Vec<u8>> {
        let mut c = vec![];
        let n = if g.r.chance(90) { 2 } else { g.r.below(4) };
        let ind = g.r.chance(35);
        if ind {
            c.push(0x9f)
        } else {
            g.hd(&mut c, 4, n as u64)
        }
        for i in 0..n {
            let part = match g.r.below(if i == 0 { 9 } else { 11 }) {
                0 | 1 | 2 => g.kind("positive"),
                3 if i == 0 => g.kind("negative"),
                4 if i == 0 => NegativeBignum::spell(g).unwrap(),
                5 if i == 0 => NegativeBignum::spell(g).unwrap(),
                9 => g.kind("negative"),
                10 => NegativeBignum::spell(g).unwrap(),
                8 if g.r.chance(30) => g.item(),
                _ => PositiveBignum::spell(g).unwrap(),
            };
            c.extend(part)
        }
        if ind {
            c.push(0xff)
        }
        Some(tagged(g, 30, c))
    }
}

// ------------------------------------------------------------ generic calls
/// what the path of a decode error shows of list indexes and named fields
fn ctx(e: &DecodeError) -> Result<Vec<String>, ()> {
    let c: Vec<String> = e.context().iter().map(|c| c.to_string()).collect();
    let mut rev = c.clone();
    rev.reverse();
    let path = rev.join("->");
    if path != e.context_as_path() || !e.to_string().starts_with(&path) || c.is_empty() {
        return Err(());
    }
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
    Ok(c.into_iter().filter(|x| digits(x) || (x.starts_with('f') && digits(&x[1..]))).collect())
}

fn derr(e: &DecodeError) -> Seen {
    let (mut s, b) = kind_err(e.error());
    s.push(st("|"));
    match ctx(e) {
        Ok(c) => s.extend(c),
        Err(()) => s.push(st("the printed path is not the context")),
    }
    (s, b)
}

fn rerr(e: &ReaderError) -> Seen {
    let (mut s, b) = reader_err(e);
    s.push(st("|"));
    (s, b)
}

type Dec<T> = Result<T, Seen>;

/// the owned form of a slice of data has no public name of its own
type CborData = <CborSlice as ToOwned>::Owned;

fn cdata(b: &[u8]) -> CborData {
    Writer::new_from_vec(b.to_vec()).finalize_data()
}

fn prefixed(pre: &[u8], b: &[u8]) -> Vec<u8> {
    let mut x = pre.to_vec();
    x.extend_from_slice(b);
    x
}

fn dec<T: Decode>(how: &str, b: &[u8], p: &mut usize) -> Dec<T> {
    let de = |e: DecodeError| derr(&e);
    let re = |e: ReaderError| rerr(&e);
    match how {
        "bytes" => decode_from_bytes::<T>(b).map_err(de),
        "one" => Reader::new(b).decode_one::<T>().map_err(de),
        "dec" => {
            let mut r = Reader::new(b);
            let x = r.decode::<T>().map_err(de);
            *p = r.consumed_bytes();
            x
        }
        "trait" => {
            let mut r = Reader::new(b);
            let x = T::decode(&mut r).map_err(de);
            *p = r.consumed_bytes();
            x
        }
        "data" => cdata(b).decode::<T>().map_err(de),
        "slice" => {
            let d = cdata(b);
            let s: &CborSlice = d.borrow();
            s.decode::<T>().map_err(de)
        }
        "elem" => {
            let w = prefixed(&[0x81], b);
            let a = Reader::new(&w).array().map_err(re)?;
            a[0].decode::<T>().map_err(de)
        }
        "oelem" => {
            let w = prefixed(&[0x81], b);
            let a = Reader::new(&w).array().map_err(re)?.owned();
            a[0].decode::<T>().map_err(de)
        }
        "mapval" => {
            let w = prefixed(&[0xa1, 0xf6], b);
            let m = Reader::new(&w).map().map_err(re)?;
            m[0].1.decode::<T>().map_err(de)
        }
        "tag" => {
            let w = prefixed(&[0xc7], b);
            let t = Reader::new(&w).tag().map_err(re)?;
            t.decode_data::<T>().map_err(de)
        }
        "tagread" => {
            let w = prefixed(&[0xd8, 0x63], b);
            let t = Reader::new(&w).tag().map_err(re)?;
            let mut inner = None;
            t.read_data(|r| {
                r.decode::<T>().map_err(|e| {
                    inner = Some(derr(&e));
                    ReaderError::UnexpectedBreakType
                })
            })
            .map_err(|e| inner.take().unwrap_or_else(|| rerr(&e)))
        }
        "arrvec" => {
            let w = prefixed(&[0x9f], b);
            let w = [&w[..], &[0xff]].concat();
            let a = Reader::new(&w).array().map_err(re)?;
            let mut v = a.to_vec(|r| r.decode_one::<T>().map_err(|e| e.error().clone())).map_err(|k| {
                let (mut s, b) = kind_err(&k);
                s.push(st("|"));
                s.push(st("?"));
                (s, b)
            })?;
            if v.len() != 1 {
                return Err((vec![st("custom"), st("|")], vec![vec![]]));
            }
            Ok(v.remove(0))
        }
        "vslice" => {
            let d = cdata(b);
            let s: &CborSlice = d.borrow();
            s.validate_as::<T>().map_err(de)?;
            s.decode::<T>().map_err(de)
        }
        "vdata" => {
            let d = cdata(b);
            d.validate_as::<T>().map(|x| x.unserialize()).map_err(de)
        }
        _ => panic!("harness bug: decode path {}", how),
    }
}

/// the raw data in every form it can take
fn raw<T: Decode + Encode>(how: &str, b: &[u8], p: &mut usize) -> Dec<(Vec<Vec<u8>>, Vec<CborDataOf<T>>)> {
    let de = |e: DecodeError| derr(&e);
    fn shows<T: Decode + Encode>(s: &CborSliceOf<T>) -> (Vec<Vec<u8>>, Vec<CborDataOf<T>>) {
        let o = s.to_owned();
        let c = o.clone();
        let back: &CborSliceOf<T> = c.borrow();
        let mut w = Writer::new();
        w.encode(s);
        let bs = vec![
            s.untype().as_ref().to_vec(),
            o.as_ref().to_vec(),
            c.as_ref().to_vec(),
            back.untype().as_ref().to_vec(),
            w.finalize(),
            encode_to_bytes(&o),
            encode_to_bytes(&c.clone().untype()),
            encode_to_bytes(&back.untype().to_owned()),
        ];
        (bs, vec![o, c])
    }
    let mut r = Reader::new(b);
    match how {
        "exslice" => {
            let x = r.exact_decodable_slice::<T>();
            *p = r.consumed_bytes();
            x.map(shows).map_err(de)
        }
        "exdata" => {
            let x = r.exact_decodable_data::<T>();
            *p = r.consumed_bytes();
            x.map(|d| shows(d.borrow())).map_err(de)
        }
        "dec" => {
            let x = r.decode::<CborDataOf<T>>();
            *p = r.consumed_bytes();
            x.map(|d| shows(d.borrow())).map_err(de)
        }
        "bytes" => decode_from_bytes::<CborDataOf<T>>(b).map(|d| shows(d.borrow())).map_err(de),
        "vslice" => {
            let d = cdata(b);
            let s: &CborSlice = d.borrow();
            s.validate_as::<T>().map(shows).map_err(de)
        }
        "vdata" => cdata(b).validate_as::<T>().map(|d| shows(d.borrow())).map_err(de),
        "vowned" => {
            let d = cdata(b);
            let s: &CborSlice = d.borrow();
            s.to_owned().validate_as::<T>().map(|d| shows(d.borrow())).map_err(de)
        }
        "elem" => {
            let w = prefixed(&[0x81], b);
            let a = Reader::new(&w).array().map_err(|e| rerr(&e))?;
            let x = a[0].validate_as::<T>().map(shows).map_err(de);
            x
        }
        _ => panic!("harness bug: raw path {}", how),
    }
}

pub const DEC_PATHS: [&str; 14] = [
    "bytes", "one", "dec", "trait", "data", "slice", "elem", "oelem", "mapval", "tag", "tagread", "vslice", "vdata",
    "arrvec",
];
pub const RAW_PATHS: [&str; 8] = ["exslice", "exdata", "dec", "bytes", "vslice", "vdata", "vowned", "elem"];
pub const ENC_PATHS: [&str; 5] = ["fn", "writer", "raw", "builder", "vec"];

pub trait Ty: Sync {
    fn call(&self, op: &Op, buf: &[u8]) -> Ev;
    fn sample(&self, g: &mut Gen) -> Option<V>;
    fn spell(&self, g: &mut Gen) -> Vec<u8>;
    /// decode only, for the total profile
    fn touch(&self, b: &[u8], how: &str) -> (bool, usize);
}

pub struct Of<T>(pub std::marker::PhantomData<fn() -> T>);

pub fn of<T: Decode + Encode + Val + 'static>() -> Box<dyn Ty> {
    Box::new(Of::<T>(std::marker::PhantomData))
}

impl<T: Decode + Encode + Val> Ty for Of<T> {
    fn call(&self, op: &Op, buf: &[u8]) -> Ev {
        let mut p = 0;
        let fail = |e: Seen, p: usize| Ev::of(op, Err(e), p);
        match op.f.as_str() {
            "d" => match dec::<T>(&op.how, buf, &mut p) {
                Ok(x) => Ev { r: Some(x.to_v().json()), ..Ev::of(op, Ok(no()), p) },
                Err(e) => fail(e, p),
            },
            "w" => match raw::<T>(&op.how, buf, &mut p) {
                Err(e) => fail(e, p),
                Ok((b, raws)) => {
                    // the value it turns into, several times, and the value of its bytes
                    let mut l: Vec<V> = raws.iter().map(|d| d.unserialize().to_v()).collect();
                    match decode_from_bytes::<T>(&b[0]) {
                        Ok(x) => l.push(x.to_v()),
                        Err(_) => l.push(V::new("refused", vec![], vec![])),
                    }
                    let v = V::new("list", vec![], l);
                    Ev { r: Some(v.json()), ..Ev::of(op, Ok((vec![], b)), p) }
                }
            },
            "n" => {
                let v = V::from_json(op.v.as_ref().unwrap_or(&J::Null));
                let x = match T::from_v(&v) {
                    Some(x) => x,
                    None => return Ev { c: "novalue".into(), ..Ev::of(op, Ok(no()), 0) },
                };
                let b = match op.how.as_str() {
                    "fn" => encode_to_bytes(&x),
                    "writer" => {
                        let mut w = Writer::new();
                        w.encode(&x);
                        w.finalize()
                    }
                    "raw" => CborDataOf::from(&x).as_ref().to_vec(),
                    "builder" => {
                        let mut b = ArrayBuilder::new();
                        b.append_encodable(&x);
                        encode_to_bytes(&b.finite().borrow())
                    }
                    "vec" => {
                        let mut w = Writer::new();
                        encode_vec(&[x], &mut w);
                        w.finalize()
                    }
                    h => panic!("harness bug: encode path {}", h),
                };
                let e = match decode_from_bytes::<T>(match op.how.as_str() {
                    "builder" | "vec" => &b[1.min(b.len())..],
                    _ => &b,
                }) {
                    Ok(y) => y.to_v(),
                    Err(_) => V::new("refused", vec![], vec![]),
                };
                Ev { r: Some(e.json()), ..Ev::of(op, Ok((vec![], vec![b])), 0) }
            }
            f => panic!("harness bug: family {}", f),
        }
    }
    fn sample(&self, g: &mut Gen) -> Option<V> {
        T::sample(g).map(|x| x.to_v())
    }
    fn spell(&self, g: &mut Gen) -> Vec<u8> {
        let own = T::spell(g);
        if own.is_some() && (g.r.chance(50) || T::sample(g).is_none()) {
            return own.unwrap();
        }
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| T::sample(g).map(|x| encode_to_bytes(&x)))) {
            Ok(Some(b)) => g.respell(&b),
            _ => g.item(),
        }
    }
    fn touch(&self, b: &[u8], how: &str) -> (bool, usize) {
        let mut p = 0;
        if how.starts_with("w:") {
            let ok = match raw::<T>(&how[2..], b, &mut p) {
                Ok((_, raws)) => {
                    raws[0].unserialize();
                    true
                }
                Err(_) => false,
            };
            return (ok, p);
        }
        let ok = dec::<T>(how, b, &mut p).is_ok();
        (ok, p)
    }
}

pub struct Table(pub BTreeMap<String, Box<dyn Ty>>);

impl Table {
    pub fn call(&self, op: &Op, buf: &[u8]) -> Ev {
        match self.0.get(&op.op) {
            Some(t) => t.call(op, buf),
            None => panic!("harness bug: type {}", op.op),
        }
    }
    pub fn names(&self) -> Vec<String> {
        self.0.keys().cloned().collect()
    }
}

pub fn native_table() -> Table {
    let mut t = BTreeMap::new();
    macro_rules! add {
        ($n:literal, $t:ty) => {
            t.insert($n.to_string(), of::<$t>());
        };
    }
    add!("bool", bool);
    add!("u8", u8);
    add!("u16", u16);
    add!("u32", u32);
    add!("u64", u64);
    add!("text", String);
    add!("bytes", Vec<u8>);
    add!("b0", [u8; 0]);
    add!("b1", [u8; 1]);
    add!("b4", [u8; 4]);
    add!("b24", [u8; 24]);
    add!("b32", [u8; 32]);
    add!("b16", [u8; 16]);
    add!("b64", [u8; 64]);
    add!("b256", [u8; 256]);
    add!("b300", [u8; 300]);
    add!("scalar", Scalar);
    add!("data", DataOwned);
    add!("simple", Simple);
    add!("list_u8", List<u8>);
    add!("list_u64", List<u64>);
    add!("list_text", List<String>);
    add!("list_bytes", List<Vec<u8>>);
    add!("list_bool", List<bool>);
    add!("list_scalar", List<Scalar>);
    add!("list_list_u16", List<List<u16>>);
    add!("list_raw_u16", List<CborDataOf<u16>>);
    add!("list_b4", List<[u8; 4]>);
    add!("raw_u16", CborDataOf<u16>);
    add!("raw_text", CborDataOf<String>);
    add!("raw_data", CborDataOf<DataOwned>);
    add!("raw_list_u16", CborDataOf<List<u16>>);
    add!("list_u16", List<u16>);
    add!("datetime", StandardDateTime);
    add!("posbig", PositiveBignum);
    add!("negbig", NegativeBignum);
    add!("encoded", EncodedCBOR);
    add!("rational", RationalNumber);
    add!("nothing", Nothing);
    add!("two", Two);
    Table(t)
}
