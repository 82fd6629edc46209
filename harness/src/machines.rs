//! Validator, event acceptor, writer, refill loop and pair comparison sessions.
use crate::obs::*;
use crate::reader_ops::hv;
use cbored::state::State;
use cbored::validate::{ValidateError, Validator};
use cbored::*;
use std::borrow::Borrow;

// ------------------------------------------------------------------ validator
pub fn validator(buf: &[u8], ops: &[Op], log: &mut dyn FnMut(Ev)) {
    let mut v = Validator::new(buf);
    let base = buf.as_ptr() as usize;
    for op in ops {
        let o: Obs = match v.next() {
            Ok((s, n)) => {
                let b: &[u8] = s.as_ref();
                let off = (b.as_ptr() as usize).wrapping_sub(base);
                Ok((
                    vec![off.to_string(), b.len().to_string(), n.to_string()],
                    vec![b.to_vec()],
                ))
            }
            Err(e) => Err(validate_err(&e)),
        };
        let rem = v.remaining_bytes();
        if rem > buf.len() {
            log(Ev { c: "bad".into(), ..Ev::of(op, o, 0) });
        } else {
            log(Ev::of(op, o, buf.len() - rem));
        }
    }
}

// ------------------------------------------------------------------- acceptor
pub fn acceptor(ops: &[Op], log: &mut dyn FnMut(Ev)) {
    let mut st_ = State::new();
    let mut first = true;
    for op in ops {
        let h = if op.how == "indef" { None } else { Some(hv(op.n, op.a.get(0).map(|x| &x[..]).unwrap_or(&[]))) };
        if op.op == "new" && !first {
            st_ = State::new()
        }
        let one = |s: &mut State| match op.op.as_str() {
            "new" => Ok(()),
            "simple" => s.simple(),
            "text" => s.text(h),
            "bytes" => s.bytes(h),
            "array" => s.array(h),
            "map" => s.map(h),
            "tag" => s.tag(),
            "brk" => s.brk(),
            o => panic!("harness bug: event {}", o),
        };
        // a second argument is how many times, up to the first refusal
        let times = op.a.get(1).map(|x| num(x)).unwrap_or(1);
        let x = (0..times).try_for_each(|_| one(&mut st_));
        first = false;
        let acc = if st_.acceptable() { "true" } else { "false" };
        let o = match x {
            Ok(()) => Ok((vec![st(acc)], vec![])),
            Err(_) => Err((vec![st(acc)], vec![])),
        };
        log(Ev::of(op, o, 0));
    }
}

// --------------------------------------------------------------------- writer
fn raw_item<'a, T>(op: &'a Op, f: impl FnOnce(&mut Reader<'a>) -> Result<T, ReaderError>) -> T {
    let mut r = Reader::new(&op.a[0]);
    f(&mut r).expect("harness: raw item argument")
}

fn head_bytes(major: u8, op: &Op) -> Vec<u8> {
    let mut v = Vec::new();
    crate::gen::head(&mut v, major, op.n as u8, num(&op.a[0]));
    v
}

fn utf8(v: &[u8]) -> &str {
    std::str::from_utf8(v).expect("harness: text")
}

fn num(v: &[u8]) -> u64 {
    v.iter().fold(0, |a, b| a << 8 | *b as u64)
}

fn length(op: &Op) -> StructureLength {
    match op.how.as_str() {
        "indef" => StructureLength::Indefinite,
        "from" => StructureLength::from(num(&op.a[0])),
        _ => StructureLength::Definite(hv(op.n, &op.a[0])),
    }
}

/// index after the "end" matching the builder opened before `from`
fn matching(ops: &[Op], from: usize) -> usize {
    let mut d = 1;
    let mut i = from;
    while i < ops.len() {
        match ops[i].op.as_str() {
            "abuild" | "mbuild" | "tbuild" | "obj" => d += 1,
            "end" => d -= 1,
            _ => (),
        }
        if d == 0 {
            return i;
        }
        i += 1
    }
    ops.len()
}

fn build_obj(op: &Op, ops: &[Op], from: usize, to: usize) -> ArrayOwned {
    // every top level call inside is one element
    let mut b = ArrayBuilder::new();
    let mut i = from;
    while i < to {
        let one_end = match ops[i].op.as_str() {
            "abuild" | "mbuild" | "tbuild" | "obj" => matching(ops, i + 1) + 1,
            _ => i + 1,
        };
        match (ops[i].op.as_str(), ops[i].how.as_str()) {
            ("fill", _) => {
                for _ in 0..num(&ops[i].a[0]) {
                    b.append_encodable(&num(&ops[i].a[1]))
                }
            }
            ("native", "u64") => b.append_encodable(&num(&ops[i].a[0])),
            ("native", "string") => b.append_encodable(&String::from_utf8(ops[i].a[0].clone()).unwrap()),
            ("native", "vec") => b.append_encodable(&ops[i].a[0].clone()),
            _ => {
                let mut w = Writer::new();
                program(&mut w, ops, i, one_end);
                b.append(w.finalize_data())
            }
        }
        i = one_end
    }
    if op.how == "indef" {
        b.indefinite()
    } else {
        b.finite()
    }
}

fn program(w: &mut Writer, ops: &[Op], from: usize, to: usize) {
    let mut i = from;
    while i < to {
        let op = &ops[i];
        match op.op.as_str() {
            "positive" if op.how == "canonical" => w.positive(Positive::canonical(num(&op.a[0]))),
            "negative" if op.how == "canonical" => w.negative(Negative::canonical(num(&op.a[0]))),
            "scalar" if op.how == "canonical" => w.scalar(Scalar::canonical_positive(num(&op.a[0]))),
            "nscalar" => w.scalar(Scalar::canonical_negative(num(&op.a[0]))),
            "positive" => {
                let h = head_bytes(0, op);
                let v = Reader::new(&h).positive().expect("harness: head");
                w.positive(v)
            }
            "negative" => {
                let h = head_bytes(1, op);
                let v = Reader::new(&h).negative().expect("harness: head");
                w.negative(v)
            }
            "byte" if op.how == "canonical" => w.byte(Byte::canonical(op.a[0][0])),
            "byte" => {
                let h = if op.how == "imm" { vec![0xe0 | op.a[0][0]] } else { vec![0xf8, op.a[0][0]] };
                let v = Reader::new(&h).byte().expect("harness: byte");
                w.byte(v)
            }
            "constant" => w.constant(match op.how.as_str() {
                "False" => Constant::False,
                "True" => Constant::True,
                "Null" => Constant::Null,
                _ => Constant::Undefined,
            }),
            "bool" => w.bool(op.how == "True"),
            "float" => w.float(match op.a[0].len() {
                2 => Float::FP16(num(&op.a[0]) as u16),
                4 => Float::FP32(num(&op.a[0]) as u32),
                _ => Float::FP64(num(&op.a[0])),
            }),
            // from owned parts, and through Encode
            "bytes" if op.how == "owned" => w.bytes(&BytesOwned::from_vec(op.a[0].clone()).borrow()),
            "bytes" if op.how == "enc" => w.encode(&BytesOwned::from_vec(op.a[0].clone())),
            "text" if op.how == "owned" => w.text(&TextOwned::from_string(utf8(&op.a[0]).to_string()).borrow()),
            "text" if op.how == "enc" => w.encode(&Text::from_str(utf8(&op.a[0]))),
            "bchunks" if op.how == "owned" => {
                let b = BytesOwned::Chunks(op.a.iter().map(|x| BytesDataOwned::from_vec(x.clone())).collect());
                w.bytes(&b.borrow())
            }
            "tchunks" if op.how == "owned" => {
                let t = TextOwned::Chunks(op.a.iter().map(|x| TextDataOwned::from_string(utf8(x).to_string())).collect());
                w.text(&t.borrow())
            }
            "bytes" => w.bytes(&Bytes::from_slice(&op.a[0])),
            "text" => w.text(&Text::from_str(utf8(&op.a[0]))),
            // canonical chunks
            "bchunks" => {
                let b = Bytes::Chunks(op.a.iter().map(|x| BytesData::from_slice(x)).collect());
                if op.how == "enc" {
                    w.encode(&b)
                } else {
                    w.bytes(&b)
                }
            }
            "tchunks" => {
                let t = Text::Chunks(op.a.iter().map(|x| TextData::from_str(utf8(x))).collect());
                if op.how == "enc" {
                    w.encode(&t)
                } else {
                    w.text(&t)
                }
            }
            // values that were read before
            "raw" => match op.how.as_str() {
                "bytes" => w.bytes(&raw_item(op, |r| r.bytes())),
                "text" => w.text(&raw_item(op, |r| r.text())),
                "array" => w.array(&raw_item(op, |r| r.array())),
                "map" => w.map(&raw_item(op, |r| r.map())),
                "tag" => w.tag(&raw_item(op, |r| r.tag())),
                "encode" => {
                    let d = raw_item(op, |r| r.data());
                    w.encode(&d)
                }
                "slice" => {
                    let mut r = Reader::new(&op.a[0]);
                    let s = r.exact_decodable_slice::<DataOwned>().expect("harness: raw item");
                    w.encode(s.untype())
                }
                _ => w.data(&raw_item(op, |r| r.data())),
            },
            "native" => match op.how.as_str() {
                "u64" => w.encode(&num(&op.a[0])),
                "string" => w.encode(std::str::from_utf8(&op.a[0]).expect("harness: text")),
                _ => w.encode(&op.a[0][..]),
            },
            // the same number again and again
            "fill" => {
                for _ in 0..num(&op.a[0]) {
                    w.encode(&num(&op.a[1]))
                }
            }
            "abuild" => {
                let e = matching(ops, i + 1);
                w.array_build(length(op), |w| program(w, ops, i + 1, e.min(to)));
                i = e
            }
            "mbuild" => {
                let e = matching(ops, i + 1);
                w.map_build(length(op), |w| program(w, ops, i + 1, e.min(to)));
                i = e
            }
            "tbuild" => {
                let e = matching(ops, i + 1);
                let tv = if op.how == "from" {
                    TagValue::from_u64(num(&op.a[0]))
                } else {
                    let mut h = head_bytes(6, op);
                    h.push(0xf6);
                    let mut r = Reader::new(&h);
                    r.tag().expect("harness: tag").tag_repr()
                };
                w.tag_build(tv, |w| program(w, ops, i + 1, e.min(to)));
                i = e
            }
            "obj" => {
                let e = matching(ops, i + 1);
                let a = build_obj(op, ops, i + 1, e.min(to));
                w.array(&a.borrow());
                i = e
            }
            "end" => (),
            o => panic!("harness bug: writer op {}", o),
        }
        i += 1
    }
}

/// ops: "new" (initial bytes), the program, "finalize"
pub fn writer(ops: &[Op], log: &mut dyn FnMut(Ev)) {
    let first = &ops[0];
    let mut w = if first.how == "vec" { Writer::new_from_vec(first.a[0].clone()) } else { Writer::new() };
    log(Ev::of(first, Ok(no()), 0));
    let last = ops.len() - 1;
    program(&mut w, ops, 1, last);
    for op in &ops[1..last] {
        log(Ev::of(op, Ok(no()), 0))
    }
    let out = if ops[last].how == "data" { w.finalize_data().as_ref().to_vec() } else { w.finalize() };
    log(Ev::of(&ops[last], Ok((vec![], vec![out])), 0));
}

// --------------------------------------------------------------------- feeder
fn attempt(how: &str, b: &[u8]) -> (Obs, usize) {
    match how {
        "validator" => {
            let mut v = Validator::new(b);
            match v.next() {
                Ok((_, n)) => (Ok(no()), n),
                Err(e @ ValidateError::DataMissing(_)) => (Err(validate_err(&e)), 0),
                Err(e) => (Err(validate_err(&e)), 0),
            }
        }
        _ => {
            let mut r = Reader::new(b);
            let o = match how {
                "slice" => crate::reader_ops::fam_s("slice", &mut r),
                "typed" => {
                    let k = r.peek_type();
                    match k {
                        Err(e) => Err(reader_err(&e)),
                        Ok(t) => crate::reader_ops::fam_r(type_op(t), &mut r),
                    }
                }
                "decode" => r.decode::<DataOwned>().map(|_| no()).map_err(|e| kind_err(e.error())),
                "raw" => r.decode::<CborDataOf<DataOwned>>().map(|_| no()).map_err(|e| kind_err(e.error())),
                "scalar" => crate::reader_ops::fam_r("scalar", &mut r),
                _ => crate::reader_ops::fam_r("data", &mut r),
            };
            let p = r.consumed_bytes();
            (o.map(|_| no()), p)
        }
    }
}

pub fn type_op(t: Type) -> &'static str {
    match t {
        Type::Positive => "positive",
        Type::Negative => "negative",
        Type::Bytes => "bytes",
        Type::Text => "text",
        Type::Array => "array",
        Type::Map => "map",
        Type::Tag => "tag",
        Type::False | Type::True => "bool",
        Type::Null => "null",
        Type::Undefined => "undefined",
        Type::Float => "float",
        Type::Byte => "byte",
        Type::Break => "data",
    }
}

/// ops: "cut" n (start over with n bytes), "try" path, "fetch" (append what was reported missing),
/// "loop" path: try and fetch until done, logged as tries and fetches
pub fn feeder(buf: &[u8], ops: &[Op], log: &mut dyn FnMut(Ev)) {
    let mut have = 0usize;
    for op in ops {
        match op.op.as_str() {
            "cut" => {
                have = op.n as usize;
                log(Ev::of(op, Ok(no()), have))
            }
            "try" => {
                let (o, p) = attempt(&op.how, &buf[..have]);
                log(Ev::of(op, o, p))
            }
            "loop" => {
                let mut rounds = 0;
                loop {
                    let (o, p) = attempt(&op.how, &buf[..have]);
                    let t = Op::new("", "try", &op.how).n(have as i64);
                    log(Ev::of(&t, o.clone(), p));
                    let short = match &o {
                        Err((s, b)) if s[0] == "missing" => num(&b[0]).wrapping_sub(num(&b[1])),
                        _ => break,
                    };
                    rounds += 1;
                    if short == 0 || short > (buf.len() - have) as u64 || rounds > 2 * buf.len() + 8 {
                        // nothing sensible to fetch
                        let f = Op::new("", "fetch", "stuck").n(have as i64);
                        log(Ev::of(&f, Err(no()), have));
                        break;
                    }
                    have += short as usize;
                    let f = Op::new("", "fetch", "").n(have as i64);
                    log(Ev::of(&f, Ok(no()), have));
                }
            }
            o => panic!("harness bug: feeder op {}", o),
        }
    }
}

// ----------------------------------------------------------------------- pair
pub fn pair(x: &[u8], ops: &[Op], log: &mut dyn FnMut(Ev)) {
    for op in ops {
        let y = &op.a[0];
        log(Ev::of(op, eq(&op.how, x, y), 0));
    }
}

fn both<T>(e: Result<(T, T), ReaderError>, f: impl FnOnce(&T, &T) -> bool, g: impl FnOnce(&T, &T) -> bool) -> Obs {
    match e {
        Err(_) => Err(no()),
        Ok((a, b)) => {
            let (e, n) = (f(&a, &b), g(&a, &b));
            Ok((vec![st(if e { "true" } else { "false" }), st(if n { "true" } else { "false" })], vec![]))
        }
    }
}

macro_rules! cmp {
    ($e:expr) => {
        both($e, |a, b| a == b, |a, b| a != b)
    };
}

fn eq(how: &str, x: &[u8], y: &[u8]) -> Obs {
    let (mut r, mut q) = (Reader::new(x), Reader::new(y));
    macro_rules! pair {
        ($m:ident) => {
            (|| -> Result<_, ReaderError> { Ok((r.$m()?, q.$m()?)) })()
        };
    }
    match how {
        "data" => cmp!(pair!(data)),
        "owned" => cmp!(pair!(data).map(|(a, b)| (a.owned(), b.owned()))),
        "clone" => cmp!(pair!(data).map(|(a, b)| (a.clone(), b.clone()))),
        "borrowed" => match pair!(data) {
            Err(_) => Err(no()),
            Ok((a, b)) => {
                let o = a.owned();
                let back = o.borrow();
                both(Ok((back, b.clone())), |x, y| x == y && y == x, |x, y| x != y)
            }
        },
        "ownedclone" => cmp!(pair!(data).map(|(a, b)| (a.owned().clone(), b.owned()))),
        "decoded" => match (decode_from_bytes::<DataOwned>(x), decode_from_bytes::<DataOwned>(y)) {
            (Ok(a), Ok(b)) => cmp!(Ok((a, b))),
            _ => Err(no()),
        },
        "raw" => match (r.exact_decodable_data::<DataOwned>(), q.exact_decodable_data::<DataOwned>()) {
            (Ok(a), Ok(b)) => cmp!(Ok((a, b))),
            _ => Err(no()),
        },
        "rawclone" => match (r.exact_decodable_data::<DataOwned>(), q.exact_decodable_data::<DataOwned>()) {
            (Ok(a), Ok(b)) => cmp!(Ok((a.clone(), b))),
            _ => Err(no()),
        },
        "untyped" => match (r.exact_decodable_data::<DataOwned>(), q.exact_decodable_data::<DataOwned>()) {
            (Ok(a), Ok(b)) => cmp!(Ok((a.untype(), b.untype()))),
            _ => Err(no()),
        },
        "slice" => match (r.exact_decodable_slice::<DataOwned>(), q.exact_decodable_slice::<DataOwned>()) {
            (Ok(a), Ok(b)) => cmp!(Ok((a.untype(), b.untype()))),
            _ => Err(no()),
        },
        "sliceowned" => match (r.exact_decodable_slice::<DataOwned>(), q.exact_decodable_slice::<DataOwned>()) {
            (Ok(a), Ok(b)) => {
                let (x, y) = (a.untype().to_owned(), b.untype().to_owned());
                let (bx, by): (&CborSlice, &CborSlice) = (x.borrow(), y.borrow());
                cmp!(Ok((bx, by)))
            }
            _ => Err(no()),
        },
        "array" => cmp!(pair!(array)),
        "arrayowned" => cmp!(pair!(array).map(|(a, b)| (a.owned(), b.owned()))),
        "map" => cmp!(pair!(map)),
        "mapowned" => cmp!(pair!(map).map(|(a, b)| (a.owned(), b.owned()))),
        "tag" => cmp!(pair!(tag)),
        "tagowned" => cmp!(pair!(tag).map(|(a, b)| (a.owned(), b.owned()))),
        "bytes" => cmp!(pair!(bytes)),
        "bytesowned" => cmp!(pair!(bytes).map(|(a, b)| (a.owned(), b.owned()))),
        "text" => cmp!(pair!(text)),
        "textowned" => cmp!(pair!(text).map(|(a, b)| (a.owned(), b.owned()))),
        "positive" => cmp!(pair!(positive)),
        "negative" => cmp!(pair!(negative)),
        "scalar" => cmp!(pair!(scalar)),
        "byte" => cmp!(pair!(byte)),
        "float" => cmp!(pair!(float)),
        "constant" => cmp!(pair!(constant)),
        _ => panic!("harness bug: comparison {}", how),
    }
}
