//! The reads of a Reader, seen in the families r, v, p, e, s and f.
use crate::obs::*;
use cbored::state::HeaderValue;
use cbored::*;
use std::borrow::Borrow;

type RR<T> = Result<T, ReaderError>;

fn width(h: HeaderValue) -> String {
    st(match h {
        HeaderValue::Imm(_) => "0",
        HeaderValue::U8(_) => "1",
        HeaderValue::U16(_) => "2",
        HeaderValue::U32(_) => "4",
        HeaderValue::U64(_) => "8",
    })
}

pub fn hv(w: i64, v: &[u8]) -> HeaderValue {
    let mut n: u64 = 0;
    for b in v {
        n = n << 8 | *b as u64
    }
    match w {
        0 => HeaderValue::Imm(n as u8),
        1 => HeaderValue::U8(n as u8),
        2 => HeaderValue::U16(n as u16),
        4 => HeaderValue::U32(n as u32),
        _ => HeaderValue::U64(n),
    }
}

fn b2s(b: bool) -> String {
    st(if b { "true" } else { "false" })
}

fn i64s(v: Option<i64>) -> (String, Vec<u8>) {
    match v {
        None => (st("none"), vec![]),
        Some(x) => (st("some"), x.to_be_bytes().to_vec()),
    }
}

fn constant_name(c: Constant) -> String {
    format!("{:?}", c)
}

fn data_kind(d: &Data) -> String {
    st(match d {
        Data::Positive(_) => "Positive",
        Data::Negative(_) => "Negative",
        Data::Float(_) => "Float",
        Data::Byte(_) => "Byte",
        Data::Bytes(_) => "Bytes",
        Data::Text(_) => "Text",
        Data::Array(_) => "Array",
        Data::Map(_) => "Map",
        Data::Tag(_) => "Tag",
        Data::True => "True",
        Data::False => "False",
        Data::Null => "Null",
        Data::Undefined => "Undefined",
    })
}

pub fn fam_r(op: &str, r: &mut Reader) -> Obs {
    let x: RR<Seen> = (|| {
        Ok(match op {
            "positive" => r.positive().map(|_| no())?,
            "negative" => r.negative().map(|_| no())?,
            "scalar" => r.scalar().map(|_| no())?,
            "byte" => r.byte().map(|_| no())?,
            "float" => r.float().map(|_| no())?,
            "null" => r.null().map(|_| no())?,
            "undefined" => r.undefined().map(|_| no())?,
            "constant" => (vec![constant_name(r.constant()?)], vec![]),
            "bool" => (vec![st(if r.bool()? { "True" } else { "False" })], vec![]),
            "bytes" => r.bytes().map(|_| no())?,
            "text" => r.text().map(|_| no())?,
            "array" => r.array().map(|_| no())?,
            "map" => r.map().map(|_| no())?,
            "tag" => r.tag().map(|_| no())?,
            "peek" => (vec![kind(r.peek_type()?)], vec![]),
            "data" => (vec![data_kind(&r.data()?)], vec![]),
            "finished" => {
                let (mut s, mut b) = (vec![b2s(r.is_finished())], vec![n8(r.remaining_bytes() as u64)]);
                match r.expect_finished() {
                    Ok(()) => s.push(st("ok")),
                    Err(e) => {
                        let (es, eb) = reader_err(&e);
                        s.extend(es);
                        b.extend(eb)
                    }
                }
                (s, b)
            }
            _ => panic!("harness bug: unknown op {}", op),
        })
    })();
    x.map_err(|e| reader_err(&e))
}

pub fn fam_v(op: &str, r: &mut Reader) -> Obs {
    let x: RR<Seen> = (|| {
        Ok(match op {
            "positive" => {
                let v = r.positive()?;
                (vec![b2s(v.is_canonical()), width(v.raw_value())], vec![n8(v.to_u64())])
            }
            "negative" => {
                let v = r.negative()?;
                let (w, x) = i64s(v.to_i64());
                (
                    vec![b2s(v.is_canonical()), width(v.raw_value()), w],
                    vec![n8(v.negative_u64()), x],
                )
            }
            "scalar" => {
                let v = r.scalar()?;
                let (w, x) = i64s(v.to_i64());
                let k = match (v.is_positive(), v.is_negative()) {
                    (true, false) => "Positive",
                    (false, true) => "Negative",
                    _ => "confused",
                };
                let n = match v {
                    Scalar::Positive(p) => p.to_u64(),
                    Scalar::Negative(n) => n.negative_u64(),
                };
                let n2 = hvn(v.raw_value());
                if n != n2 {
                    return Ok((vec![st("raw value differs")], vec![]));
                }
                (vec![st(k), b2s(v.is_canonical()), width(v.raw_value()), w], vec![n8(n), x])
            }
            "byte" => {
                let v = r.byte()?;
                (vec![b2s(v.is_canonical())], vec![vec![v.to_u8()]])
            }
            "float" => match r.float()? {
                Float::FP16(x) => (vec![st("2")], vec![x.to_be_bytes().to_vec()]),
                Float::FP32(x) => (vec![st("4")], vec![x.to_be_bytes().to_vec()]),
                Float::FP64(x) => (vec![st("8")], vec![x.to_be_bytes().to_vec()]),
            },
            "constant" => (vec![constant_name(r.constant()?)], vec![]),
            "bool" => (vec![st(if r.bool()? { "True" } else { "False" })], vec![]),
            "null" => r.null().map(|_| no())?,
            "undefined" => r.undefined().map(|_| no())?,
            "bytes" => {
                let v = r.bytes()?;
                let o = v.owned();
                let mut b = vec![v.to_vec(), o.borrow().to_vec()];
                let mut s = vec![];
                match &v {
                    Bytes::Imm(c) => {
                        s.push(st("imm"));
                        s.push(v.len().to_string());
                        s.push(width(c.value()));
                        b.push(c.as_slice().to_vec())
                    }
                    Bytes::Chunks(cs) => {
                        s.push(st("chunks"));
                        s.push(v.len().to_string());
                        for c in cs {
                            s.push(width(c.value()));
                            b.push(c.as_slice().to_vec())
                        }
                    }
                }
                match &o {
                    BytesOwned::Imm(c) => b.push(c.as_slice().to_vec()),
                    BytesOwned::Chunks(cs) => b.extend(cs.iter().map(|c| c.as_slice().to_vec())),
                }
                (s, b)
            }
            "text" => {
                let v = r.text()?;
                let o = v.owned();
                let mut b = vec![v.to_string().into_bytes(), o.borrow().to_string().into_bytes()];
                let mut s = vec![];
                match &v {
                    Text::Imm(c) => {
                        s.push(st("imm"));
                        s.push(v.to_string().len().to_string());
                        s.push(width(c.value()));
                        if c.as_str() != *c.as_ref() {
                            s.push(st("as_ref differs"))
                        }
                    }
                    Text::Chunks(cs) => {
                        s.push(st("chunks"));
                        s.push(v.to_string().len().to_string());
                        for c in cs {
                            s.push(width(c.value()));
                            if c.as_str() != *c.as_ref() {
                                s.push(st("as_ref differs"))
                            }
                        }
                    }
                }
                b.extend(v.to_str_chunks().iter().map(|c| c.as_bytes().to_vec()));
                match &o {
                    TextOwned::Imm(c) => b.push(c.as_str().as_bytes().to_vec()),
                    TextOwned::Chunks(cs) => {
                        b.extend(cs.iter().map(|c| c.as_str().as_bytes().to_vec()))
                    }
                }
                (s, b)
            }
            "array" => {
                let v = r.array()?;
                let (f, w, n) = form(v.struct_len());
                (vec![f, w, v.len().to_string()], vec![n])
            }
            "map" => {
                let v = r.map()?;
                let (f, w, n) = form(v.struct_len());
                (vec![f, w, v.len().to_string()], vec![n])
            }
            "tag" => {
                let v = r.tag()?;
                if v.tag_repr().to_u64() != v.value() {
                    return Ok((vec![st("tag number differs")], vec![]));
                }
                (vec![width(v.tag_repr().raw_value())], vec![n8(v.value())])
            }
            _ => panic!("harness bug: unknown op {}", op),
        })
    })();
    x.map_err(|e| reader_err(&e))
}

fn hvn(h: HeaderValue) -> u64 {
    match h {
        HeaderValue::Imm(x) => x as u64,
        HeaderValue::U8(x) => x as u64,
        HeaderValue::U16(x) => x as u64,
        HeaderValue::U32(x) => x as u64,
        HeaderValue::U64(x) => x,
    }
}

fn form(l: StructureLength) -> (String, String, Vec<u8>) {
    match l {
        StructureLength::Indefinite if l.is_indefinite() => (st("indefinite"), st("0"), n8(0)),
        StructureLength::Definite(h) if !l.is_indefinite() => (st("definite"), width(h), n8(hvn(h))),
        _ => (st("confused"), st("0"), n8(0)),
    }
}

/// length of the part and, when it decodes, its bytes
fn through(mut r: Reader) -> (String, Vec<u8>) {
    let l = r.remaining_bytes().to_string();
    match r.exact_decodable_slice::<DataOwned>() {
        Ok(s) => (l, s.untype().as_ref().to_vec()),
        Err(_) => (l, vec![]),
    }
}

fn straight(b: &[u8]) -> (String, Vec<u8>) {
    (b.len().to_string(), b.to_vec())
}

type Raw = CborDataOf<DataOwned>;

fn take(r: &mut Reader) -> Result<Raw, DecodeErrorKind> {
    r.decode::<Raw>().map_err(|e| e.error().clone())
}

/// how much a reader has before it, nothing read
fn look(r: &mut Reader) -> Result<u64, DecodeErrorKind> {
    Ok(r.remaining_bytes() as u64)
}

fn seen(n: u64) -> (String, Vec<u8>) {
    (n.to_string(), vec![])
}

fn arr_view(a: &Array, how: &str) -> Result<Vec<(String, Vec<u8>)>, ()> {
    Ok(match how {
        "index" => (0..a.len()).map(|i| straight(a[i].as_ref())).collect(),
        "iter" => a.iter().map(through).collect(),
        "tovec" => a
            .to_vec(take)
            .map_err(|_| ())?
            .iter()
            .map(|x| straight(x.as_ref()))
            .collect(),
        "look" => a.to_vec(look).map_err(|_| ())?.into_iter().map(seen).collect(),
        _ => unreachable!(),
    })
}

fn map_view(a: &Map, how: &str) -> Result<Vec<(String, Vec<u8>)>, ()> {
    let mut out = vec![];
    match how {
        "index" => {
            for i in 0..a.len() {
                let (k, v) = a[i];
                out.push(straight(k.as_ref()));
                out.push(straight(v.as_ref()));
            }
        }
        "iter" => {
            for (k, v) in a.iter() {
                out.push(through(k));
                out.push(through(v));
            }
        }
        "keys" => out.extend(a.keys().map(through)),
        "values" => out.extend(a.values().map(through)),
        "tovec" => {
            for (k, v) in a.to_vec(take, take).map_err(|_| ())? {
                out.push(straight(k.as_ref()));
                out.push(straight(v.as_ref()));
            }
        }
        "look" => {
            for (k, v) in a.to_vec(look, look).map_err(|_| ())? {
                out.push(seen(k));
                out.push(seen(v))
            }
        }
        _ => unreachable!(),
    }
    Ok(out)
}

fn parts(f: (String, String, Vec<u8>), n: usize, xs: Result<Vec<(String, Vec<u8>)>, ()>) -> Seen {
    match xs {
        Err(()) => (vec![st("refused")], vec![]),
        Ok(xs) => {
            let mut s = vec![f.0, f.1, n.to_string()];
            let mut b = vec![f.2];
            for (l, x) in xs {
                s.push(l);
                b.push(x)
            }
            (s, b)
        }
    }
}

pub fn fam_p(op: &str, how: &str, r: &mut Reader) -> Obs {
    let x: RR<Seen> = (|| {
        Ok(match op {
            "array" => {
                let a = r.array()?;
                match how {
                    "index" | "iter" | "tovec" | "look" => parts(form(a.struct_len()), a.len(), arr_view(&a, how)),
                    "borrow" => {
                        let o = a.owned();
                        let b = o.borrow();
                        parts(form(b.struct_len()), b.len(), arr_view(&b, "index"))
                    }
                    _ => {
                        let o = a.owned();
                        let xs = match how {
                            "oindex" => Ok((0..o.len()).map(|i| straight(o[i].as_ref())).collect()),
                            "oiter" => Ok(o.iter().map(through).collect()),
                            "otovec" => o
                                .to_vec(take)
                                .map_err(|_| ())
                                .map(|v| v.iter().map(|x| straight(x.as_ref())).collect()),
                            "olook" => o.to_vec(look).map_err(|_| ()).map(|v| v.into_iter().map(seen).collect()),
                            _ => panic!("harness bug: view {}", how),
                        };
                        parts(form(o.struct_len()), o.len(), xs)
                    }
                }
            }
            "map" => {
                let a = r.map()?;
                match how {
                    "index" | "iter" | "tovec" | "look" | "keys" | "values" => {
                        parts(form(a.struct_len()), a.len(), map_view(&a, how))
                    }
                    "borrow" => {
                        let o = a.owned();
                        let b = o.borrow();
                        parts(form(b.struct_len()), b.len(), map_view(&b, "index"))
                    }
                    _ => {
                        let o = a.owned();
                        let mut xs = vec![];
                        let mut bad = false;
                        match how {
                            "oiter" => {
                                for (k, v) in o.iter() {
                                    xs.push(through(k));
                                    xs.push(through(v));
                                }
                            }
                            "okeys" => xs.extend(o.keys().map(through)),
                            "ovalues" => xs.extend(o.values().map(through)),
                            "otovec" => match o.to_vec(take, take) {
                                Ok(v) => {
                                    for (k, v) in v {
                                        xs.push(straight(k.as_ref()));
                                        xs.push(straight(v.as_ref()));
                                    }
                                }
                                Err(_) => bad = true,
                            },
                            "olook" => match o.to_vec(look, look) {
                                Ok(v) => {
                                    for (k, v) in v {
                                        xs.push(seen(k));
                                        xs.push(seen(v))
                                    }
                                }
                                Err(_) => bad = true,
                            },
                            _ => panic!("harness bug: view {}", how),
                        }
                        parts(form(o.struct_len()), o.len(), if bad { Err(()) } else { Ok(xs) })
                    }
                }
            }
            "tag" => {
                let t = r.tag()?;
                let o = t.owned();
                let (val, repr, x) = match how {
                    "data" => (t.value(), t.tag_repr(), straight(t.data().as_ref())),
                    "iter" => (t.value(), t.tag_repr(), through(t.reader())),
                    "oindex" => (o.value(), o.tag_repr(), straight(o.data().as_ref())),
                    "oiter" => (o.value(), o.tag_repr(), through(o.read_data())),
                    "borrow" => {
                        let b = o.borrow();
                        (b.value(), b.tag_repr(), straight(b.data().as_ref()))
                    }
                    _ => panic!("harness bug: view {}", how),
                };
                parts((st("tag"), width(repr.raw_value()), n8(val)), 1, Ok(vec![x]))
            }
            _ => panic!("harness bug: unknown op {}", op),
        })
    })();
    x.map_err(|e| reader_err(&e))
}

fn wr(f: impl FnOnce(&mut Writer)) -> Vec<u8> {
    let mut w = Writer::new();
    f(&mut w);
    w.finalize()
}

fn write_typed(r: &mut Reader, how: &str) -> RR<Vec<u8>> {
    Ok(match r.peek_type()? {
        Type::Positive | Type::Negative if how == "scalar" => {
            let v = r.scalar()?;
            wr(|w| w.scalar(v))
        }
        Type::Positive => {
            let v = r.positive()?;
            match how {
                "typed" => wr(|w| w.positive(v)),
                "typedowned" => encode_to_bytes(&Scalar::Positive(v)),
                _ => encode_to_bytes(&v),
            }
        }
        Type::Negative => {
            let v = r.negative()?;
            match how {
                "typed" => wr(|w| w.negative(v)),
                "typedowned" => encode_to_bytes(&Scalar::Negative(v)),
                _ => encode_to_bytes(&v),
            }
        }
        Type::Bytes => {
            let v = r.bytes()?;
            match how {
                "typed" => wr(|w| w.bytes(&v)),
                "typedowned" => encode_to_bytes(&v.owned()),
                _ => encode_to_bytes(&v),
            }
        }
        Type::Text => {
            let v = r.text()?;
            match how {
                "typed" => wr(|w| w.text(&v)),
                "typedowned" => wr(|w| w.text(&v.owned().borrow())),
                _ => encode_to_bytes(&v),
            }
        }
        Type::Array => {
            let v = r.array()?;
            match how {
                "typed" => wr(|w| w.array(&v)),
                "typedowned" => wr(|w| w.array(&v.owned().borrow())),
                _ => encode_to_bytes(&v),
            }
        }
        Type::Map => {
            let v = r.map()?;
            match how {
                "typed" => wr(|w| w.map(&v)),
                "typedowned" => wr(|w| w.map(&v.owned().borrow())),
                _ => encode_to_bytes(&v),
            }
        }
        Type::Tag => {
            let v = r.tag()?;
            match how {
                "typed" => wr(|w| w.tag(&v)),
                "typedowned" => wr(|w| w.tag(&v.owned().borrow())),
                _ => encode_to_bytes(&v),
            }
        }
        Type::False | Type::True if how == "typed" => {
            let v = r.bool()?;
            wr(|w| w.bool(v))
        }
        Type::False | Type::True if how == "typedowned" => {
            let v = r.bool()?;
            encode_to_bytes(&v)
        }
        Type::Null if how == "typed" => {
            r.null()?;
            wr(|w| w.constant(Constant::Null))
        }
        Type::Undefined if how == "typed" => {
            r.undefined()?;
            wr(|w| w.constant(Constant::Undefined))
        }
        Type::False | Type::True | Type::Null | Type::Undefined => {
            let v = r.constant()?;
            match how {
                "typedenc" => encode_to_bytes(&v),
                _ => wr(|w| w.constant(v)),
            }
        }
        Type::Float => {
            let v = r.float()?;
            match how {
                "typed" => wr(|w| w.float(v)),
                _ => encode_to_bytes(&v),
            }
        }
        Type::Byte => {
            let v = r.byte()?;
            match how {
                "typed" => wr(|w| w.byte(v)),
                _ => encode_to_bytes(&v),
            }
        }
        Type::Break => return Err(ReaderError::UnexpectedBreakType),
    })
}

fn rebuild(r: &mut Reader, deep: bool, w: &mut Writer) -> RR<()> {
    let mut err = None;
    match r.data()? {
        Data::Array(a) => w.array_build(a.struct_len(), |w| {
            for i in 0..a.len() {
                if deep {
                    if let Err(e) = rebuild(&mut a[i].reader(), deep, w) {
                        err = Some(e)
                    }
                } else {
                    w.encode(a[i])
                }
            }
        }),
        Data::Map(m) => w.map_build(m.struct_len(), |w| {
            for (k, v) in (0..m.len()).map(|i| m[i]) {
                for x in [k, v] {
                    if deep {
                        if let Err(e) = rebuild(&mut x.reader(), deep, w) {
                            err = Some(e)
                        }
                    } else {
                        w.encode(x)
                    }
                }
            }
        }),
        Data::Tag(t) => w.tag_build(t.tag_repr(), |w| {
            if deep {
                if let Err(e) = rebuild(&mut t.reader(), deep, w) {
                    err = Some(e)
                }
            } else {
                w.encode(t.data())
            }
        }),
        Data::Bytes(Bytes::Chunks(c)) => {
            let o: Vec<BytesDataOwned> = c.iter().map(|x| x.owned()).collect();
            w.bytes(&Bytes::Chunks(o.iter().map(|x| x.borrow()).collect()))
        }
        Data::Text(Text::Chunks(c)) => {
            let o: Vec<TextDataOwned> = c.iter().map(|x| x.owned()).collect();
            w.text(&Text::Chunks(o.iter().map(|x| x.borrow()).collect()))
        }
        d => w.data(&d),
    }
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// the value written back; position as the caller sees it
pub fn fam_e(how: &str, buf: &[u8], r: &mut Reader) -> (Obs, usize) {
    let dk = |e: DecodeError| kind_err(e.error());
    let rk = |e: ReaderError| reader_err(&e);
    let rest = &buf[r.consumed_bytes()..];
    let o: Result<Vec<u8>, Seen> = match how {
        "data" => r.data().map(|d| wr(|w| w.data(&d))).map_err(rk),
        "owned" => r.data().map(|d| d.owned()).map(|o| wr(|w| w.data(&o.borrow()))).map_err(rk),
        "encdata" => r.data().map(|d| encode_to_bytes(&d)).map_err(rk),
        "encowned" => r.data().map(|d| encode_to_bytes(&d.owned())).map_err(rk),
        "typed" | "typedenc" | "typedowned" | "scalar" => write_typed(r, how).map_err(rk),
        "raw" => r.exact_decodable_slice::<DataOwned>().map(|s| wr(|w| w.encode(s))).map_err(dk),
        "rawslice" => r.exact_decodable_slice::<DataOwned>().map(|s| wr(|w| w.encode(s.untype()))).map_err(dk),
        "rawdata" => r.exact_decodable_data::<DataOwned>().map(|s| encode_to_bytes(&s)).map_err(dk),
        "rawuntyped" => r.exact_decodable_data::<DataOwned>().map(|s| encode_to_bytes(&s.untype())).map_err(dk),
        "decode" => r.decode::<DataOwned>().map(|s| encode_to_bytes(&s)).map_err(dk),
        "deep" | "rebuild" => {
            let mut w = Writer::new();
            rebuild(r, how == "deep", &mut w).map(|()| w.finalize()).map_err(rk)
        }
        "generic" => {
            let x = decode_from_bytes::<DataOwned>(rest).map(|d| encode_to_bytes(&d)).map_err(dk);
            let p = if x.is_ok() { buf.len() } else { r.consumed_bytes() };
            return (x.map(|b| (vec![], vec![b])), p);
        }
        "generic2" => {
            let x = decode_from_bytes::<CborDataOf<DataOwned>>(rest).map(|d| encode_to_bytes(&d)).map_err(dk);
            let p = if x.is_ok() { buf.len() } else { r.consumed_bytes() };
            return (x.map(|b| (vec![], vec![b])), p);
        }
        _ => panic!("harness bug: path {}", how),
    };
    (o.map(|b| (vec![], vec![b])), r.consumed_bytes())
}

pub fn fam_s(op: &str, r: &mut Reader) -> Obs {
    match op {
        "slice" => r
            .exact_decodable_slice::<DataOwned>()
            .map(|s| (vec![], vec![s.untype().as_ref().to_vec()])),
        "sdata" => r.exact_decodable_data::<DataOwned>().map(|s| {
            let c: &CborSliceOf<DataOwned> = s.borrow();
            (vec![], vec![c.untype().as_ref().to_vec()])
        }),
        _ => panic!("harness bug: op {}", op),
    }
    .map_err(|e| kind_err(e.error()))
}

pub fn fam_f(r: &mut Reader) -> Obs {
    match r.float() {
        Err(e) => Err(reader_err(&e)),
        Ok(x) => {
            let (a, b) = (x.to_f32(), x.to_f64());
            let fa = if a.is_nan() { vec![] } else { a.to_bits().to_be_bytes().to_vec() };
            let fb = if b.is_nan() { vec![] } else { b.to_bits().to_be_bytes().to_vec() };
            Ok((vec![], vec![fa, fb, encode_to_bytes(&x)]))
        }
    }
}

pub fn call(op: &Op, buf: &[u8], r: &mut Reader) -> Ev {
    match op.f.as_str() {
        "e" => {
            let (o, p) = fam_e(&op.how, buf, r);
            Ev::of(op, o, p)
        }
        _ => {
            let o = match op.f.as_str() {
                "r" => fam_r(&op.op, r),
                "v" => fam_v(&op.op, r),
                "p" => fam_p(&op.op, &op.how, r),
                "s" => fam_s(&op.op, r),
                "f" => fam_f(r),
                f => panic!("harness bug: family {}", f),
            };
            let p = r.consumed_bytes();
            if p + r.remaining_bytes() != buf.len() {
                return Ev { c: "bad".into(), ..Ev::of(op, o, p) };
            }
            Ev::of(op, o, p)
        }
    }
}
