//! Which sessions to record for which purpose.
use crate::gen::*;
use crate::obs::*;
use crate::run::Session;
use crate::typed::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const TYPED: [&str; 14] = [
    "positive", "negative", "scalar", "byte", "float", "null", "undefined", "constant", "bool", "bytes", "text",
    "array", "map", "tag",
];
pub const PATHS: [&str; 16] = [
    "data", "owned", "encdata", "encowned", "typed", "typedenc", "typedowned", "scalar", "raw", "rawslice", "rawdata",
    "rawuntyped", "decode", "deep", "rebuild", "generic",
];
pub const ARRAY_VIEWS: [&str; 9] = ["index", "oindex", "iter", "oiter", "borrow", "tovec", "otovec", "look", "olook"];
pub const MAP_VIEWS: [&str; 12] =
    ["index", "iter", "oiter", "borrow", "tovec", "otovec", "look", "olook", "keys", "okeys", "values", "ovalues"];
pub const TAG_VIEWS: [&str; 5] = ["data", "oindex", "iter", "oiter", "borrow"];

fn r_op(g: &mut Gen) -> Op {
    let o = match g.r.below(10) {
        0 => "peek",
        1 | 2 => "data",
        3 => "finished",
        _ => g.r.pick(&TYPED),
    };
    Op::new("r", o, "")
}

/// the op that reads the item starting with this byte
fn fitting(g: &mut Gen, b: u8) -> &'static str {
    match b >> 5 {
        0 => *g.r.pick(&["positive", "scalar"]),
        1 => *g.r.pick(&["negative", "scalar"]),
        2 => "bytes",
        3 => "text",
        4 => "array",
        5 => "map",
        6 => "tag",
        _ => match b & 31 {
            0..=19 | 24 => "byte",
            20 | 21 => *g.r.pick(&["bool", "constant"]),
            22 => *g.r.pick(&["null", "constant"]),
            23 => *g.r.pick(&["undefined", "constant"]),
            25..=27 => "float",
            _ => "data",
        },
    }
}

fn reader(buf: Vec<u8>, ops: Vec<Op>) -> Session {
    Session::new("reader", buf, ops)
}

fn reads(g: &mut Gen) -> Session {
    let mut buf = vec![];
    for _ in 0..1 + g.r.below(3) {
        let k = *g.r.pick(&TYPED);
        g.o.badtext = 4;
        let mut x = g.kind(k);
        g.o.badtext = 0;
        if g.r.chance(15) {
            x = g.any()
        }
        buf.extend(x)
    }
    if g.r.chance(15) {
        g.mutate(&mut buf)
    }
    if g.r.chance(3) {
        buf.clear()
    }
    // wrong reads, then the right one, item by item as far as one can see
    let mut ops = vec![];
    let mut p = 0;
    for _ in 0..3 {
        for _ in 0..g.r.below(5) {
            ops.push(r_op(g))
        }
        if p < buf.len() {
            let f = fitting(g, buf[p]);
            ops.push(Op::new("r", f, ""));
            if g.r.chance(40) {
                ops.push(Op::new("r", f, ""))
            }
            p = end_of(&buf, p).unwrap_or(buf.len());
        }
    }
    reader(buf, ops)
}

/// a long text, or a chunk of one, with a fault right where pieces of some size meet
fn seam(g: &mut Gen) -> Session {
    let b = 1usize << if g.o.huge { 12 + g.r.below(5) } else { 5 + g.r.below(10) };
    let most = if g.o.huge { 70000 / b } else { 1 + 20000 / b };
    let at = (1 + g.r.below(most.clamp(1, 3))) * b;
    let n = at + 1 + g.r.below(b.min(200));
    let mut d: Vec<u8> = vec![0x61 + g.r.below(26) as u8; n];
    let fault: &[u8] = *g.r.pick(&[&[0x80u8][..], &[0xff], &[0xc3], &[0xc3, 0xa9], &[0xe2, 0x82, 0xac], &[0xe2, 0x82], &[0xf0, 0x90, 0x8d, 0x88], &[0xed, 0xa0, 0x80], &[0xc0, 0x80]]);
    let from = at - g.r.below(fault.len() + 1).min(at);
    for (i, x) in fault.iter().enumerate() {
        if from + i < d.len() {
            d[from + i] = *x
        }
    }
    let mut buf = vec![];
    let chunks = g.r.chance(30);
    if chunks {
        buf.push(0x7f);
        if g.r.chance(50) {
            buf.extend([0x61, 0x61])
        }
    }
    g.hd(&mut buf, 3, d.len() as u64);
    buf.extend(d);
    if chunks {
        buf.push(0xff)
    }
    let family = if g.r.chance(70) { ("v", "text") } else { ("r", "data") };
    reader(buf, vec![Op::new(family.0, family.1, "")])
}

fn values(g: &mut Gen) -> Session {
    if g.o.big > 0 && g.r.chance(20) {
        return seam(g);
    }
    let mut buf = vec![];
    let mut ops = vec![];
    for _ in 0..1 + g.r.below(4) {
        let k = *g.r.pick(&TYPED);
        g.o.badtext = 12;
        if g.r.chance(10) {
            g.o.maxstr = 40
        }
        buf.extend(g.kind(k));
        g.o.badtext = 0;
        g.o.maxstr = 5;
        let op = if g.r.chance(90) { k } else { *g.r.pick(&TYPED) };
        ops.push(Op::new("v", op, ""))
    }
    if g.r.chance(10) {
        g.mutate(&mut buf)
    }
    reader(buf, ops)
}

fn reencode(g: &mut Gen) -> Session {
    let mut buf = vec![];
    let mut ops = vec![];
    g.o.badtext = 3;
    let n = 1 + g.r.below(3);
    let mut item = g.item();
    for _ in 0..n {
        if g.r.chance(40) {
            item = g.item()
        }
        buf.extend_from_slice(&item);
        // "generic" starts over from the bytes: only on its own
        ops.push(Op::new("e", "", g.r.pick(&PATHS[..15])))
    }
    g.o.badtext = 0;
    match g.r.below(20) {
        0 => g.mutate(&mut buf),
        1 => ops.push(Op::new("e", "", "data")),
        _ => (),
    }
    if g.r.chance(8) {
        // the whole rest through the generic entry points
        let how = *g.r.pick(&["generic", "generic2"]);
        ops = vec![Op::new("e", "", how)];
        buf = g.item();
        if g.r.chance(15) {
            buf.push(0xf6)
        }
    }
    reader(buf, ops)
}

fn parts(g: &mut Gen) -> Session {
    g.o.badtext = 4;
    let k = *g.r.pick(&["array", "array", "map", "map", "tag"]);
    if g.r.chance(3) {
        g.o.fan = 30
    }
    let item = g.kind(k);
    g.o.fan = 4;
    let views: &[&str] = match k {
        "array" => &ARRAY_VIEWS,
        "map" => &MAP_VIEWS,
        _ => &TAG_VIEWS,
    };
    let mut buf = vec![];
    let mut ops = vec![];
    for _ in 0..1 + g.r.below(3) {
        buf.extend_from_slice(&item);
        ops.push(Op::new("p", k, g.r.pick(views)))
    }
    g.o.badtext = 0;
    if g.r.chance(12) {
        g.mutate(&mut buf)
    }
    reader(buf, ops)
}

fn wellformed(g: &mut Gen) -> Session {
    g.o.badtext = 4;
    let mut buf = g.any();
    g.o.badtext = 0;
    if g.r.chance(30) {
        // put it inside a container that the typed reads scan
        let (a, b): (&[u8], &[u8]) = match g.r.below(6) {
            0 => (&[0x81], &[]),
            1 => (&[0x9f], &[0xff]),
            2 => (&[0xa1, 0x00], &[]),
            3 => (&[0xbf, 0x00], &[0xff]),
            4 => (&[0xc1], &[]),
            _ => (&[0x9f, 0xbf], &[0xff, 0xff]),
        };
        buf = [a, &buf, b].concat()
    }
    let mut ops = vec![];
    let op = match g.r.below(4) {
        0 => Op::new("s", "slice", ""),
        1 => Op::new("s", "sdata", ""),
        2 => Op::new("r", "data", ""),
        _ => Op::new("r", if buf.is_empty() { "data" } else { fitting(g, buf[0]) }, ""),
    };
    ops.push(op);
    if g.r.chance(30) {
        ops.push(Op::new("s", "slice", ""))
    }
    reader(buf, ops)
}

fn floats(g: &mut Gen) -> Session {
    let mut buf = vec![];
    let mut ops = vec![];
    for _ in 0..3 {
        buf.extend(g.kind("float"));
        ops.push(Op::new("f", "float", ""))
    }
    reader(buf, ops)
}

/// a string cut far from its beginning, or much left over: reports with large numbers
fn far(g: &mut Gen) -> Session {
    let n = *g.r.pick(&[65534usize, 65535, 65536, 65537, 66000, 70000]);
    let more = *g.r.pick(&[1u64, 2, 255, 256, 65536, 1 << 32]);
    let m = 2 + g.r.below(2) as u8;
    let name = ["bytes", "text"][m as usize - 2];
    let mut b = vec![];
    let how = g.r.below(4);
    let ops: Vec<Op> = match how {
        0 => {
            b.resize(n + 1, 0x00);
            vec![Op::new("r", "positive", ""), Op::new("r", "finished", "")]
        }
        _ => {
            match how {
                2 => b.push(*g.r.pick(&[0x81u8, 0x9f])),
                3 => b.push(m << 5 | 31),
                _ => (),
            }
            let w = if more > 65536 { 8 } else { *g.r.pick(&[4u8, 8]) };
            head(&mut b, m, w, n as u64 + more);
            b.resize(b.len() + n, 97);
            let r = if how == 2 { "array" } else { name };
            let mut ops = vec![Op::new("r", r, "")];
            if how != 3 {
                ops.insert(0, Op::new("s", "slice", ""))
            }
            ops
        }
    };
    Session::new("reader", b, ops)
}

fn errors(g: &mut Gen) -> Session {
    if g.o.huge && g.r.chance(50) {
        return far(g);
    }
    let mut s = match g.r.below(5) {
        0 => reads(g),
        1 => values(g),
        2 => parts(g),
        _ => wellformed(g),
    };
    match g.r.below(3) {
        0 => {
            let n = g.r.below(s.input.len() + 1);
            s.input.truncate(n)
        }
        1 => g.mutate(&mut s.input),
        _ => (),
    }
    for o in &mut s.ops {
        if o.f == "p" {
            o.f = st("r");
            o.how = st("")
        }
    }
    // the reserved codes, everywhere
    if g.r.chance(10) && !s.input.is_empty() {
        let i = g.r.below(s.input.len());
        s.input[i] = (g.r.below(8) as u8) << 5 | 28 + g.r.below(4) as u8
    }
    if g.r.chance(20) {
        s.ops.push(Op::new("r", "finished", ""))
    }
    s
}

fn validates(g: &mut Gen) -> Session {
    let mut buf = vec![];
    let n = g.r.below(5);
    g.o.depth = 3;
    for _ in 0..n {
        g.o.badtext = if g.o.big > 0 { 0 } else { 5 };
        let mut x = g.item();
        g.o.badtext = 0;
        if g.r.chance(12) {
            g.mutate(&mut x)
        }
        if g.r.chance(8) {
            x = g.soup()
        }
        buf.extend(x)
    }
    g.o.depth = 4;
    if g.r.chance(10) {
        let n = g.r.below(buf.len() + 1);
        buf.truncate(n)
    }
    let ops = (0..n + 2 + g.r.below(3)).map(|_| Op::new("", "next", "")).collect();
    Session::new("validator", buf, ops)
}

fn validates_one(g: &mut Gen) -> Session {
    g.o.badtext = 4;
    let mut buf = g.any();
    g.o.badtext = 0;
    if g.r.chance(10) {
        buf = g.soup()
    }
    Session::new("validator", buf, vec![Op::new("", "next", "")])
}

/// few events, most of them many times over: counts and depths around the edges of small counters
fn runs(g: &mut Gen) -> Session {
    let edge = |g: &mut Gen| -> u64 {
        let n = if g.r.chance(70) {
            *g.r.pick(&[255u64, 256, 1000, 1024, 4096, 10000, 16384, 20000])
        } else {
            1 + g.r.below(20000) as u64
        };
        n + g.r.below(3) as u64 - 1
    };
    let times = |e: &str, how: &str, count: Vec<u8>, n: u64| Op::new("", e, how).a(vec![count, n.to_be_bytes().to_vec()]);
    let count = |g: &mut Gen, e: &str, v: u64, n: u64| {
        let w = g.width(v);
        let mut o = times(e, "", be(v, w), n);
        o.n = w as i64;
        o
    };
    let mut ops = vec![Op::new("", "new", "")];
    let n = edge(g);
    match g.r.below(4) {
        0 => {
            // a long container, closed on time, early or late
            let n = if g.r.chance(50) { *g.r.pick(&[65535u64, 65536, 65537, 70000, 100000, 131072]) } else { n };
            let e = *g.r.pick(&["array", "map"]);
            if g.r.chance(50) {
                // inside another
                ops.push(count(g, "array", 2, 1))
            }
            let items = if e == "map" { 2 * n } else { n };
            let ind = g.r.chance(30);
            ops.push(if ind { times(e, "indef", vec![], 1) } else { count(g, e, n, 1) });
            ops.push(times("simple", "", vec![], items - 1));
            ops.push(Op::new("", "brk", ""));
            ops.push(Op::new("", "simple", ""));
            ops.push(Op::new("", "brk", ""));
            ops.push(Op::new("", "simple", ""))
        }
        1 => {
            // chunks
            let e = *g.r.pick(&["text", "bytes"]);
            ops.push(times(e, "indef", vec![], 1));
            ops.push(count(g, e, 1, n));
            let other = *g.r.pick(&["text", "bytes", "simple", "tag"]);
            ops.push(if other == "text" || other == "bytes" { count(g, other, 1, 1) } else { Op::new("", other, "") });
            ops.push(Op::new("", "brk", ""));
            ops.push(Op::new("", "brk", ""))
        }
        _ => {
            // a tower of one, two or three kinds of containers, and out again
            let mut out = vec![];
            for _ in 0..1 + g.r.below(3) {
                let n = if g.r.chance(30) { 1 + g.r.below(3) as u64 } else { edge(g) };
                match g.r.below(6) {
                    0 => ops.push(times("tag", "", vec![], n)),
                    1 => {
                        ops.push(count(g, "array", 1, n));
                    }
                    2 => {
                        ops.push(count(g, "array", 2, n));
                        out.push(times("simple", "", vec![], n))
                    }
                    3 => {
                        // every key another map
                        ops.push(count(g, "map", 1, n));
                        out.push(times("simple", "", vec![], n))
                    }
                    4 => {
                        ops.push(times("map", "indef", vec![], n));
                        // a map as a key: one value for it before the next end
                        out.push(times("brk", "", vec![], 1));
                        for _ in 0..3 {
                            out.push(Op::new("", "simple", ""));
                            out.push(Op::new("", "brk", ""));
                        }
                    }
                    _ => {
                        ops.push(times("array", "indef", vec![], n));
                        out.push(times("brk", "", vec![], n))
                    }
                }
            }
            if g.r.chance(70) {
                ops.push(Op::new("", "simple", ""))
            }
            out.reverse();
            ops.extend(out);
            ops.push(Op::new("", "brk", ""));
            ops.push(Op::new("", "simple", ""))
        }
    }
    Session::new("acceptor", vec![], ops)
}

fn events(g: &mut Gen) -> Session {
    // a mostly sensible event sequence: a stack of what is open
    let mut ops = vec![Op::new("", "new", "")];
    let mut open: Vec<&str> = vec![];
    if g.o.big > 0 && g.r.chance(40) {
        // a tower in which every level waits for one item only, and what comes after
        let n = g.size().unwrap_or(20);
        let one = |e: &str| Op::new("", e, "").a(vec![vec![1]]);
        let simple = || Op::new("", "simple", "");
        let plain = g.r.chance(50);
        let mut close = vec![];
        for _ in 0..n {
            let kinds = if plain { 3 } else { 6 };
            match g.r.below(kinds) {
                0 => ops.push(one("array")),
                1 => ops.push(Op::new("", "tag", "")),
                2 => {
                    ops.push(one("map"));
                    ops.push(simple())
                }
                3 => {
                    ops.push(Op::new("", "array", "indef"));
                    close.push(ops.len())
                }
                4 => ops.push(one("array")),
                _ => {
                    ops.push(Op::new("", "map", "indef"));
                    ops.push(simple());
                    close.push(ops.len())
                }
            }
        }
        ops.push(simple());
        for _ in 0..close.len() {
            ops.push(Op::new("", "brk", ""))
        }
        for _ in 0..2 {
            ops.push(Op::new("", g.r.pick(&["brk", "simple", "array", "map", "text"]), ""))
        }
        for o in &mut ops {
            if o.a.is_empty() && o.how.is_empty() && ["array", "map", "text"].contains(&&o.op[..]) {
                o.a = vec![vec![0]]
            }
        }
        return Session::new("acceptor", vec![], ops);
    }
    if g.o.big > 0 && g.r.chance(30) {
        return runs(g);
    }
    let n = g.size().unwrap_or_else(|| 4 + g.r.below(14));
    // big ones: in deep first, then out again
    let (big, deep) = (n > 20, n / 2);
    for i in 0..n {
        let mut e = match g.r.below(14) {
            _ if big && i < deep && g.r.chance(70) => g.r.pick(&["array", "array", "map", "tag"]),
            _ if big && i > deep && g.r.chance(60) => g.r.pick(&["brk", "simple", "text", "bytes", "array"]),
            0 | 1 => "simple",
            2 => "text",
            3 => "bytes",
            4 | 5 | 6 => "array",
            7 | 8 | 9 => "map",
            10 => "tag",
            _ => "brk",
        };
        if let Some(t) = open.last() {
            if (*t == "stext" || *t == "sbytes") && g.r.chance(70) {
                e = if g.r.chance(50) { "brk" } else if *t == "stext" { "text" } else { "bytes" };
            }
        }
        if e == "brk" && open.is_empty() && g.r.chance(70) {
            e = "simple"
        }
        let takes = ["text", "bytes", "array", "map"].contains(&e);
        let in_str = matches!(open.last(), Some(&"stext") | Some(&"sbytes"));
        let ind = takes && g.r.chance(if in_str { 15 } else { 40 });
        let mut o = Op::new("", e, if ind { "indef" } else { "" });
        if takes && !ind {
            let v = match g.r.below(8) {
                0 => *g.r.pick(&[24u64, 255, 256, 65535, 65536, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX]),
                _ => g.r.next() % 4,
            };
            let w = g.width(v);
            let n = if w == 0 { 1 } else { w as usize };
            o.n = w as i64;
            o.a = vec![v.to_be_bytes()[8 - n..].to_vec()];
        }
        if ind {
            open.push(match e {
                "text" => "stext",
                "bytes" => "sbytes",
                _ => "s",
            })
        }
        if e == "brk" {
            open.pop();
        }
        ops.push(o)
    }
    Session::new("acceptor", vec![], ops)
}

fn be(v: u64, w: u8) -> Vec<u8> {
    let n = if w == 0 { 1 } else { w as usize };
    v.to_be_bytes()[8 - n..].to_vec()
}

/// borrowed, owned, or through Encode
const FROM: [&str; 3] = ["", "owned", "enc"];

fn write_ops(g: &mut Gen, depth: usize, left: &mut usize, out: &mut Vec<Op>) {
    *left = left.saturating_sub(1);
    let w = |o: &str, how: &str| Op::new("", o, how);
    match g.r.below(if depth == 0 || *left == 0 { 16 } else { 24 }) {
        0 => {
            let v = g.num();
            let o = *g.r.pick(&["positive", "negative", "scalar", "nscalar"]);
            out.push(w(o, "canonical").a(vec![n8(v)]))
        }
        1 | 2 => {
            let v = g.num();
            let wd = g.width(v);
            let o = *g.r.pick(&["positive", "negative"]);
            out.push(w(o, "width").n(wd as i64).a(vec![be(v, wd)]))
        }
        3 => {
            let x = *g.r.pick(&[0u8, 19, 20, 23, 24, 31, 32, 255]);
            out.push(w("byte", "canonical").a(vec![vec![x]]))
        }
        4 => {
            if g.r.chance(50) {
                let x = g.r.below(20) as u8;
                out.push(w("byte", "imm").a(vec![vec![x]]))
            } else {
                let x = g.r.next() as u8;
                out.push(w("byte", "two").a(vec![vec![x]]))
            }
        }
        5 => {
            let c = *g.r.pick(&["False", "True", "Null", "Undefined"]);
            out.push(w("constant", c))
        }
        6 => {
            let c = *g.r.pick(&["False", "True"]);
            out.push(w("bool", c))
        }
        7 => {
            let n = *g.r.pick(&[2usize, 4, 8]);
            let x = g.rawbytes(n);
            out.push(w("float", "").a(vec![x]))
        }
        8 => {
            let n = g.strlen();
            let x = g.rawbytes(n);
            out.push(w("bytes", *g.r.pick(&FROM)).a(vec![x]))
        }
        9 => {
            let x = g.textbytes();
            out.push(w("text", *g.r.pick(&FROM)).a(vec![x]))
        }
        10 => {
            let n = if g.o.huge { 3 } else { g.size().unwrap_or_else(|| g.r.below(4)) };
            let a = (0..n).map(|_| { let k = g.strlen(); g.rawbytes(k) }).collect();
            out.push(w("bchunks", *g.r.pick(&FROM)).a(a))
        }
        11 => {
            let n = if g.o.huge { 3 } else { g.size().unwrap_or_else(|| g.r.below(4)) };
            let a = (0..n).map(|_| g.textbytes()).collect();
            out.push(w("tchunks", *g.r.pick(&FROM)).a(a))
        }
        12 | 13 => {
            let (k, how) = *g.r.pick(&[
                ("bytes", "bytes"), ("text", "text"), ("array", "array"), ("map", "map"), ("tag", "tag"), ("", "data"),
                ("", "encode"), ("", "slice"),
            ]);
            let x = if k.is_empty() { g.item() } else { g.kind(k) };
            out.push(w("raw", how).a(vec![x]))
        }
        14 | 15 => {
            let how = *g.r.pick(&["u64", "string", "vec"]);
            let a = match how {
                "u64" => n8(g.num()),
                "string" => g.textbytes(),
                _ => {
                    let n = g.strlen();
                    g.rawbytes(n)
                }
            };
            out.push(w("native", how).a(vec![a]))
        }
        k => {
            let o = match k {
                16 | 17 => "abuild",
                18 | 19 => "mbuild",
                20 | 21 => "tbuild",
                _ => "obj",
            };
            let at = out.len();
            out.push(w(o, ""));
            let big = if *left > 0 { g.size() } else { None };
            let mut filled = 0;
            let n = match o {
                "tbuild" => 1,
                _ if big.is_some() && g.o.huge => {
                    *left = 0;
                    let n = big.unwrap() / 2 * 2;
                    let v = g.num();
                    out.push(w("fill", "").a(vec![n8(n as u64), n8(v)]));
                    filled = n;
                    0
                }
                _ if big.is_some() => {
                    *left = 0;
                    big.unwrap() / 2 * 2
                }
                "mbuild" => 2 * g.r.below(3),
                _ => g.r.below(4),
            };
            for _ in 0..n {
                write_ops(g, depth - 1, left, out)
            }
            out.push(w("end", ""));
            let n = n + filled;
            let count = (if o == "mbuild" { n / 2 } else { n }) as u64;
            let op = &mut out[at];
            if o == "tbuild" {
                let v = g.num();
                if g.r.chance(40) {
                    op.how = st("from");
                    op.a = vec![n8(v)]
                } else {
                    let wd = g.width(v);
                    op.n = wd as i64;
                    op.how = st("width");
                    op.a = vec![be(v, wd)]
                }
            } else if o == "obj" {
                op.how = st(if g.r.chance(50) { "indef" } else { "finite" })
            } else {
                match g.r.below(3) {
                    0 => op.how = st("indef"),
                    1 => {
                        op.how = st("from");
                        op.a = vec![n8(count)]
                    }
                    _ => {
                        // the announced count is the caller's business: now and then any number
                        let v = if g.r.chance(85) { count } else { g.num() };
                        let wd = g.width(v);
                        op.n = wd as i64;
                        op.how = st("width");
                        op.a = vec![be(v, wd)]
                    }
                }
            }
        }
    }
}

fn writes(g: &mut Gen) -> Session {
    let mut ops = vec![];
    if g.r.chance(40) {
        let n = g.r.below(6);
        let b = g.rawbytes(n);
        ops.push(Op::new("", "new", "vec").a(vec![b]))
    } else {
        ops.push(Op::new("", "new", ""))
    }
    let mut left = 14;
    for _ in 0..g.r.below(5) {
        write_ops(g, 3, &mut left, &mut ops)
    }
    let how = if g.r.chance(30) { "data" } else { "" };
    ops.push(Op::new("", "finalize", how));
    Session::new("writer", vec![], ops)
}

fn refills(g: &mut Gen) -> Session {
    let big = g.o.big > 0;
    g.o.depth = 3;
    let mut buf = g.item();
    g.o.depth = 4;
    if g.r.chance(30) {
        // something after the item, which is not to be touched
        let x = g.soup();
        buf.extend(x)
    }
    let end = end_of(&buf, 0).unwrap_or(buf.len());
    let mut ops = vec![];
    let paths: Vec<&str> = {
        let mut v = vec!["validator", "data", "slice", "typed", "decode", "raw"];
        if buf[0] < 0x40 {
            v.push("scalar")
        }
        v
    };
    for _ in 0..1 + g.r.below(3) {
        let how = *g.r.pick(&paths);
        let cut = g.r.below(end + 1);
        ops.push(Op::new("", "cut", "").n(cut as i64));
        ops.push(Op::new("", if !big && g.r.chance(50) { "loop" } else { "try" }, how))
    }
    Session::new("feeder", buf, ops)
}

fn refills_all(g: &mut Gen) -> Session {
    // every cut of one item
    g.o.depth = 2;
    let buf = g.item();
    g.o.depth = 4;
    let how = *g.r.pick(&["validator", "data", "slice", "typed", "decode", "raw"]);
    let mut ops = vec![];
    for c in 0..buf.len().min(12) {
        ops.push(Op::new("", "cut", "").n(c as i64));
        ops.push(Op::new("", "try", how))
    }
    Session::new("feeder", buf, ops)
}

/// many parts of a byte or two
fn long_one(g: &mut Gen) -> Vec<u8> {
    let n = if g.o.huge { *g.r.pick(&[65535usize, 65537, 66000]) } else { *g.r.pick(&[60usize, 130, 257, 600, 1025, 2050]) + g.r.below(40) };
    let ind = g.r.chance(40);
    let k = if g.o.huge { *g.r.pick(&[0usize, 2, 3, 4]) } else { g.r.below(6) };
    let mut b = vec![];
    let m = [4u8, 5, 2, 3, 2, 3][k];
    let chunks = k > 3;
    if ind || chunks {
        b.push(m << 5 | 31)
    } else {
        let w = g.width(n as u64);
        head(&mut b, m, w, n as u64)
    }
    match k {
        0 => b.resize(b.len() + n, 1),
        1 => b.resize(b.len() + 2 * n, 2),
        2 | 3 if ind => {
            for _ in 0..2 {
                canon(&mut b, m, n as u64);
                b.resize(b.len() + n, 97)
            }
        }
        2 | 3 => b.resize(b.len() + n, 97),
        _ => {
            for _ in 0..n / 2 {
                b.extend([m << 5 | 1, 97])
            }
        }
    }
    if ind || chunks {
        b.push(0xff)
    }
    b
}

fn pairs(g: &mut Gen) -> Session {
    g.o.depth = 3;
    let long = g.o.big > 0 && g.r.chance(if g.o.huge { 60 } else { 30 });
    let x = if long {
        long_one(g)
    } else if g.r.chance(50) {
        g.item()
    } else {
        let k = *g.r.pick(&TYPED);
        g.kind(k)
    };
    g.o.depth = 4;
    let mut ops = vec![];
    for _ in 0..if long && !g.o.huge { 5 } else { 2 } {
        // the same, another spelling of the same, a nearby one
        let y = match g.r.below(6) {
            1..=4 if long => {
                // one part is another, wherever it is
                let mut y = x.clone();
                let n = y.len();
                let i = match g.r.below(4) {
                    0 => n - 1 - g.r.below(3),
                    1 => n / 2 + g.r.below(n / 2),
                    2 => 5 + g.r.below(n / 2),
                    _ => g.r.below(n),
                };
                y[i] ^= *g.r.pick(&[1u8, 2, 8]);
                if end_of(&y, 0) == Some(y.len()) { y } else { x.clone() }
            }
            0 | 1 => x.clone(),
            2 | 3 => g.respell(&x),
            4 => {
                let mut y = x.clone();
                let i = g.r.below(y.len());
                y[i] ^= 1 << g.r.below(8);
                if end_of(&y, 0) == Some(y.len()) { y } else { x.clone() }
            }
            _ => {
                let y = g.damage(&x);
                if !y.is_empty() && end_of(&y, 0) == Some(y.len()) { y } else { g.item() }
            }
        };
        let typed: &[&str] = match (x[0] >> 5, x[0] & 31) {
            (0, _) => &["positive", "scalar"],
            (1, _) => &["negative", "scalar"],
            (2, _) => &["bytes", "bytesowned"],
            (3, _) => &["text", "textowned"],
            (4, _) => &["array", "arrayowned"],
            (5, _) => &["map", "mapowned"],
            (6, _) => &["tag", "tagowned"],
            (_, 0..=19) | (_, 24) => &["byte"],
            (_, 25..=27) => &["float"],
            _ => &["constant"],
        };
        let how = if g.r.chance(50) {
            *g.r.pick(typed)
        } else {
            *g.r.pick(&[
                "data", "owned", "clone", "borrowed", "ownedclone", "decoded", "raw", "rawclone", "untyped", "slice",
                "sliceowned",
            ])
        };
        ops.push(Op::new("", "eq", how).a(vec![y]))
    }
    Session::new("pair", x, ops)
}

// ---------------------------------------------------------------------- typed
fn candidate(g: &mut Gen, t: &dyn Ty) -> Vec<u8> {
    let b = t.spell(g);
    match g.r.below(12) {
        0 if !b.is_empty() => g.damage(&b),
        1 => g.any(),
        2 | 3 | 4 if !b.is_empty() => {
            let b = g.restructure(&b);
            if g.r.chance(30) { g.respell(&b) } else { b }
        }
        5 if !b.is_empty() => g.shuffle(&b),
        6 if !b.is_empty() => g.coerce(&b),
        _ => b,
    }
}

fn one_type(g: &mut Gen, names: &[String], t: &Table) -> String {
    let n = g.r.pick(names).clone();
    assert!(t.0.contains_key(&n), "harness bug: type {}", n);
    n
}

fn encodes(g: &mut Gen, names: &[String], t: &Table) -> Session {
    let n = one_type(g, names, t);
    let ty = &t.0[&n];
    match ty.sample(g) {
        None => decodes(g, names, t),
        Some(v) => {
            let how = *g.r.pick(&ENC_PATHS);
            Session::new("typed", vec![], vec![Op::new("n", &n, how).v(v.json())])
        }
    }
}

fn decodes(g: &mut Gen, names: &[String], t: &Table) -> Session {
    let n = one_type(g, names, t);
    let b = candidate(g, &*t.0[&n]);
    let how = *g.r.pick(&["bytes", "dec", "dec", "trait"]);
    Session::new("typed", b, vec![Op::new("d", &n, how)])
}

/// exactly so many bytes left: one item, many, or none
fn leftover(g: &mut Gen) -> Option<Vec<u8>> {
    if g.o.big == 0 {
        return None;
    }
    let n = if g.o.huge { *g.r.pick(&[65535usize, 65536, 65537, 65536 + 256]) } else { *g.r.pick(&[128usize, 255, 256, 257, 512, 768, 1024, 4096]) };
    let mut b = vec![];
    match g.r.below(3) {
        0 => b = vec![*g.r.pick(&[0xffu8, 0x00, 0x80, 0xf6, 0x1c]); n],
        m => {
            let len = n - if n < 24 { 1 } else if n < 258 { 2 } else if n < 65539 { 3 } else { 5 };
            canon(&mut b, 1 + m as u8, len as u64);
            b.resize(n, 97)
        }
    }
    Some(b)
}

fn whole(g: &mut Gen, names: &[String], t: &Table) -> Session {
    let n = one_type(g, names, t);
    let ty = &t.0[&n];
    let mut b = if g.r.chance(85) { ty.spell(g) } else { candidate(g, &**ty) };
    if let Some(n) = if g.r.chance(40) { leftover(g) } else { None } {
        b.extend(n)
    } else if g.r.chance(55) {
        match g.r.below(5) {
            0 => b.push(0xff),
            1 => {
                let x = g.r.next() as u8;
                b.push(x)
            }
            2 => {
                let x = b.clone();
                b.extend(x)
            }
            _ => {
                let x = g.item();
                b.extend(x)
            }
        }
    }
    let mut ops = vec![];
    for _ in 0..3 {
        let how = *g.r.pick(&DEC_PATHS);
        ops.push(Op::new("d", &n, how))
    }
    if g.r.chance(40) {
        let how = *g.r.pick(&RAW_PATHS);
        ops.push(Op::new("w", &n, how))
    }
    Session::new("typed", b, ops)
}

fn raws(g: &mut Gen, names: &[String], t: &Table) -> Session {
    let n = one_type(g, names, t);
    let ty = &t.0[&n];
    let mut b = if g.r.chance(80) { ty.spell(g) } else { candidate(g, &**ty) };
    if g.r.chance(20) {
        let x = g.item();
        b.extend(x)
    }
    let mut ops = vec![];
    for _ in 0..2 {
        let how = *g.r.pick(&RAW_PATHS);
        ops.push(Op::new("w", &n, how))
    }
    if g.r.chance(20) {
        if let Some(v) = ty.sample(g) {
            ops.push(Op::new("n", &n, "raw").v(v.json()))
        }
    }
    Session::new("typed", b, ops)
}

/// values around the width boundaries of an unsigned type, in every header width
fn narrow(g: &mut Gen) -> Session {
    let n = *g.r.pick(&["u8", "u16", "u32", "u64", "b0", "b1", "b4", "b16", "b24", "b32", "b64", "b256", "b300"]);
    let mut b = vec![];
    if n.starts_with('u') {
        let bits = n[1..].parse::<u32>().unwrap();
        let top: u64 = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let v = match g.r.below(7) {
            0 => top,
            1 => top.wrapping_add(1),
            2 => top.wrapping_add(2),
            3 => (g.r.next() & top).wrapping_add((g.r.next() % 3).wrapping_mul(top.wrapping_add(1))),
            4 => g.r.next() & top,
            5 => top.wrapping_add(1).wrapping_mul(g.r.next()),
            _ => g.num(),
        };
        let m = if g.r.chance(90) { 0 } else { 1 };
        let w = if fits(v, 4) && g.r.chance(60) { g.width(v) } else { canon_width(v) };
        head(&mut b, m, w, v);
        if g.r.chance(5) {
            b = g.item()
        }
    } else {
        let size = n[1..].parse::<usize>().unwrap();
        let len = match g.r.below(6) {
            0 => size.saturating_sub(1),
            1 => size + 1,
            2 => g.r.below(40),
            3 => size + 256,
            4 => size % 256,
            _ => size,
        };
        let mut d = g.rawbytes(len);
        if g.r.chance(30) {
            // zeros in front, behind or all over
            let (a, z) = *g.r.pick(&[(0, 1), (0, 2), (0, len), (len.saturating_sub(1), len), (len / 2, len)]);
            for x in &mut d[a.min(len)..z.min(len)] {
                *x = 0
            }
        }
        canon(&mut b, if g.r.chance(92) { 2 } else { 3 }, len as u64);
        b.extend(d);
        b = g.respell(&b)
    }
    let how = *g.r.pick(&["bytes", "dec", "one"]);
    Session::new("typed", b, vec![Op::new("d", n, how)])
}

// ---------------------------------------------------------------------- total
fn hostile(g: &mut Gen, names: &[String]) -> Session {
    let mut s = Session::new("total", vec![], vec![]);
    let big = *g.r.pick(&[1u64 << 16, 0xffff_ffff, 1 << 40, (1 << 63) - 1, 1 << 63, u64::MAX - 9, u64::MAX - 8, u64::MAX]);
    let depth = *g.r.pick(&[10usize, 500, 3000, 20000]);
    match g.r.below(12) {
        // claims of huge lengths and counts
        0 | 1 => {
            let m = 2 + g.r.below(5) as u8;
            if g.r.chance(40) {
                let x = *g.r.pick(&[0x81u8, 0x9f, 0xbf, 0xc1, 0x5f, 0x7f, 0x82]);
                s.input.push(x)
            }
            let w = if fits(big, 4) && g.r.chance(50) { 4 } else { 8 };
            head(&mut s.input, m, w, big);
            let n = g.r.below(20);
            let x = g.rawbytes(n);
            s.input.extend(x);
            if g.r.chance(30) {
                s.rl.push((1000, vec![0x00]))
            }
        }
        2 => {
            // nested huge claims
            let n = 1 + g.r.below(200);
            let mut x = vec![];
            let m = *g.r.pick(&[4u8, 5]);
            head(&mut x, m, 8, big);
            if m == 5 {
                x.push(0)
            }
            s.rl.push((n, x))
        }
        // deep nesting
        3 | 4 => {
            let x: &[u8] = *g.r.pick(&[&[0x81u8][..], &[0x9f], &[0xa1, 0x00], &[0xbf, 0x00], &[0xc1], &[0x82, 0x00], &[0xd8, 0x63], &[0x9f, 0xc1], &[0xa1]]);
            s.rl.push((depth, x.to_vec()));
            if g.r.chance(60) {
                s.rl.push((1, vec![0x00]));
            }
            if x[0] == 0x9f || x[0] == 0xbf {
                let n = if g.r.chance(60) { depth } else { depth / 2 };
                s.rl.push((n, vec![0xff]))
            }
        }
        // long flat ones
        5 => {
            let n = *g.r.pick(&[1000usize, 30000]);
            match g.r.below(3) {
                0 => {
                    s.input.push(0x9f);
                    s.rl.push((n, vec![0x00]));
                    s.rl.push((1, vec![0xff]))
                }
                1 => {
                    head(&mut s.input, 4, 4, n as u64);
                    s.rl.push((n, vec![0x61, 0x61]))
                }
                _ => {
                    s.input.push(0x5f);
                    s.rl.push((n, vec![0x41, 0x00]));
                    if g.r.chance(50) {
                        s.rl.push((1, vec![0xff]))
                    }
                }
            }
        }
        6 => s.input = vec![],
        7 => {
            let n = g.r.below(12);
            s.input = g.rawbytes(n)
        }
        8 => s.input = g.soup(),
        _ => {
            g.o.badtext = 5;
            s.input = g.any();
            g.o.badtext = 0
        }
    }
    for _ in 0..3 + g.r.below(8) {
        let op = match g.r.below(12) {
            0 | 1 => Op::new("val", "next", ""),
            2 | 3 => {
                let n = g.r.pick(names).clone();
                if g.r.chance(75) {
                    let how = *g.r.pick(&DEC_PATHS);
                    Op::new("d", &n, how)
                } else {
                    let how = format!("w:{}", g.r.pick(&RAW_PATHS));
                    Op::new("d", &n, &how)
                }
            }
            4 => Op::new("v", g.r.pick(&TYPED), ""),
            5 => match g.r.below(3) {
                0 => Op::new("p", "array", g.r.pick(&ARRAY_VIEWS)),
                1 => Op::new("p", "map", g.r.pick(&MAP_VIEWS)),
                _ => Op::new("p", "tag", g.r.pick(&TAG_VIEWS)),
            },
            6 => {
                let mut how = *g.r.pick(&PATHS);
                // the harness itself rebuilds recursively
                if how == "deep" {
                    how = "rebuild"
                }
                Op::new("e", "", how)
            }
            7 => Op::new("s", "slice", ""),
            8 => Op::new("f", "float", ""),
            _ => r_op(g),
        };
        s.ops.push(op)
    }
    s
}

pub fn record(profile: &str, seed: u64, n: usize, t: &Table, go: &mut dyn FnMut(&Session)) {
    let salt = profile.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    let mut g = Gen::new(seed.wrapping_mul(1000003).wrapping_add(salt));
    // "+big": with strings and containers of unusual sizes
    // "+huge": of sizes around 2^16
    let huge = profile.contains("+huge");
    let plain = profile.replace("+big", "").replace("+huge", "");
    let (profile, big) = match profile.split_once('+') {
        Some(_) => (&plain[..], 1),
        None => (profile, 0),
    };
    let (name, list) = match profile.split_once(':') {
        Some((a, b)) => (a, b.split(',').map(|x| x.to_string()).collect::<Vec<_>>()),
        None => (profile, t.names()),
    };
    let mut lost = 0;
    let mut i = 0;
    while i < n {
        // values are made with the crate's own functions, which may fail
        let keep = g.r.clone();
        g.o.big = big;
        g.o.huge = huge;
        let s = catch_unwind(AssertUnwindSafe(|| match name {
            "reads" => reads(&mut g),
            "values" => values(&mut g),
            "reencode" => reencode(&mut g),
            "parts" => parts(&mut g),
            "wellformed" => wellformed(&mut g),
            "floats" => floats(&mut g),
            "errors" => errors(&mut g),
            "validates" => validates(&mut g),
            "validates_one" => validates_one(&mut g),
            "events" => events(&mut g),
            "writes" => writes(&mut g),
            "refills" => refills(&mut g),
            "refills_all" => refills_all(&mut g),
            "pairs" => pairs(&mut g),
            "encodes" => encodes(&mut g, &list, t),
            "decodes" => decodes(&mut g, &list, t),
            "whole" => whole(&mut g, &list, t),
            "raws" => raws(&mut g, &list, t),
            "narrow" => narrow(&mut g),
            "hostile" => hostile(&mut g, &list),
            p => {
                eprintln!("harness bug: profile {}", p);
                std::process::exit(3)
            }
        }));
        i += 1;
        g.o = Opts::default();
        match s {
            Ok(s) => go(&s),
            Err(_) => {
                g.r = keep;
                g.r.next();
                lost += 1;
                if lost > n {
                    eprintln!("harness: no sessions can be made");
                    std::process::exit(98)
                }
            }
        }
    }
    if lost > 0 {
        println!("lost {}", lost)
    }
}
