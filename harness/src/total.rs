//! Hostile inputs: only whether every call comes back, where it left the reader, and what it cost.
use crate::alloc;
use crate::obs::*;
use crate::reader_ops;
use crate::typed::Table;
use cbored::validate::Validator;
use cbored::Reader;

pub fn total(buf: &[u8], ops: &[Op], t: &Table, log: &mut dyn FnMut(Ev)) {
    let mut r = Reader::new(buf);
    let mut v = Validator::new(buf);
    for op in ops {
        let base = alloc::start();
        let all = alloc::all();
        let start = alloc::cpu_ms();
        let (c, p, left) = match op.f.as_str() {
            "val" => {
                let ok = v.next().is_ok();
                (ok, buf.len().wrapping_sub(v.remaining_bytes()), v.remaining_bytes())
            }
            "d" => {
                let (ok, p) = t.0.get(&op.op).expect("harness bug: type").touch(&buf[..], &op.how);
                (ok, p, buf.len().wrapping_sub(p))
            }
            "e" | "r" | "v" | "p" | "s" | "f" => {
                let e = reader_ops::call(op, buf, &mut r);
                let ok = if e.c == "bad" { false } else { e.c == "ok" };
                // "generic" paths decode the rest of the buffer on their own
                let p = r.consumed_bytes();
                (ok, p, r.remaining_bytes())
            }
            f => panic!("harness bug: family {}", f),
        };
        let ms = alloc::cpu_ms() - start;
        let all = (alloc::all() - all).min(2_000_000_000 * 64) / 64;
        let peak = alloc::peak(base);
        let mut e = Ev::of(op, if c { Ok(no()) } else { Err(no()) }, 0);
        e.p = p.min(2_000_000_000) as i64;
        e.m = vec![left, peak / 64, ms, all];
        log(e)
    }
}
