//! Sessions: running them, reading and writing them.
use crate::json::*;
use crate::obs::*;
use crate::typed::Table;
use crate::{machines, reader_ops, total};
use cbored::Reader;
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone, Debug, Default)]
pub struct Session {
    pub k: String,
    pub input: Vec<u8>,
    /// run-length input, for long ones: (count, bytes)
    pub rl: Vec<(usize, Vec<u8>)>,
    pub ops: Vec<Op>,
}

impl Session {
    pub fn new(k: &str, input: Vec<u8>, ops: Vec<Op>) -> Session {
        Session { k: k.into(), input, rl: vec![], ops }
    }
    pub fn from_json(j: &J) -> Session {
        Session {
            k: j.get("k").str().into(),
            input: j.get("in").bytes(),
            rl: j.get("rl").arr().iter().map(|x| (x.get("c").num() as usize, x.get("b").bytes())).collect(),
            ops: j.get("ev").arr().iter().map(Op::from_json).collect(),
        }
    }
    pub fn buffer(&self) -> Vec<u8> {
        let mut b = self.input.clone();
        for (n, x) in &self.rl {
            for _ in 0..*n {
                b.extend_from_slice(x)
            }
        }
        b
    }
    fn json_with(&self, ev: Vec<J>) -> J {
        let mut kv = vec![("k", J::s(&self.k)), ("in", J::from_bytes(&self.input)), ("ev", J::Arr(ev))];
        if !self.rl.is_empty() {
            let rl = self.rl.iter().map(|(n, b)| J::obj(vec![("c", J::Num(*n as i64)), ("b", J::from_bytes(b))]));
            kv.push(("rl", J::Arr(rl.collect())));
        }
        if self.k == "total" {
            let n: usize = self.rl.iter().map(|(n, b)| n * b.len()).sum();
            kv.push(("len", J::Num((self.input.len() + n) as i64)));
        }
        J::obj(kv)
    }
    pub fn plan(&self) -> J {
        self.json_with(self.ops.iter().map(|o| J::obj(o.kv())).collect())
    }
}

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{} at {:?}", m, i.location().map(|l| l.to_string())));
    }));
}

/// a session; hostile ones on a small stack, which no input may exhaust
pub fn run(s: &Session, t: &Table) -> J {
    if s.k != "total" {
        return run_here(s, t);
    }
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(128 << 10).spawn_scoped(sc, || run_here(s, t));
        h.expect("harness: thread").join().expect("harness: thread")
    })
}

fn run_here(s: &Session, t: &Table) -> J {
    let buf = s.buffer();
    let evs = RefCell::new(Vec::<Ev>::new());
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut log = |e: Ev| evs.borrow_mut().push(e);
        match s.k.as_str() {
            "reader" => {
                let mut r = Reader::new(&buf);
                for op in &s.ops {
                    log(reader_ops::call(op, &buf, &mut r))
                }
            }
            "validator" => machines::validator(&buf, &s.ops, &mut log),
            "acceptor" => machines::acceptor(&s.ops, &mut log),
            "writer" => machines::writer(&s.ops, &mut log),
            "feeder" => machines::feeder(&buf, &s.ops, &mut log),
            "pair" => machines::pair(&buf, &s.ops, &mut log),
            "typed" => {
                for op in &s.ops {
                    log(t.call(op, &buf))
                }
            }
            "total" => total::total(&buf, &s.ops, t, &mut log),
            k => panic!("harness bug: session kind {}", k),
        }
    }));
    let mut evs = evs.into_inner();
    if r.is_err() {
        let m = LAST.with(|l| l.borrow().clone());
        if m.starts_with("harness bug") {
            eprintln!("{}", m);
            std::process::exit(3)
        }
        let op = s.ops.get(evs.len()).or(s.ops.last()).cloned().unwrap_or_default();
        let mut e = Ev::panic(&op);
        e.s = vec![m.chars().filter(|c| c.is_ascii()).collect()];
        evs.push(e);
    }
    s.json_with(evs.iter().map(|e| e.json()).collect())
}

/// milliseconds since the running session began, watched by another thread
pub static BEAT: AtomicU64 = AtomicU64::new(0);

pub fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let (mut last, mut n) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Relaxed);
            if b != last {
                last = b;
                n = 0
            } else {
                n += 1
            }
            if n >= 2 * limit_s {
                eprintln!("HANG: session {} does not return", b);
                std::process::exit(97)
            }
        }
    });
}

pub struct Sink {
    out: std::io::BufWriter<std::fs::File>,
    cur: String,
    n: u64,
}

impl Sink {
    pub fn new(out: &str) -> Sink {
        let f = std::fs::File::create(out).expect("harness: output file");
        Sink { out: std::io::BufWriter::with_capacity(1 << 20, f), cur: format!("{}.cur", out), n: 0 }
    }
    pub fn go(&mut self, s: &Session, t: &Table) {
        self.n += 1;
        BEAT.store(self.n, Relaxed);
        std::fs::write(&self.cur, s.plan().text()).expect("harness: session file");
        let mut line = run(s, t).text();
        line.push('\n');
        self.out.write_all(line.as_bytes()).expect("harness: write");
    }
    pub fn done(mut self) {
        self.out.flush().expect("harness: flush");
        let _ = std::fs::remove_file(&self.cur);
        println!("sessions {}", self.n);
    }
}

/// the command line shared by the two binaries
pub fn main_with(t: Table) {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    watchdog(20);
    match a.get(1).map(|s| s.as_str()) {
        Some("record") => {
            let (profile, seed, n, out) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<usize>().unwrap(), &a[5]);
            let mut sink = Sink::new(out);
            crate::profiles::record(profile, seed, n, &t, &mut |s: &Session| sink.go(s, &t));
            sink.done()
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).expect("harness: sessions file");
            let mut sink = Sink::new(&a[3]);
            for l in text.lines().filter(|l| !l.trim().is_empty()) {
                sink.go(&Session::from_json(&parse(l)), &t)
            }
            sink.done()
        }
        _ => {
            eprintln!("usage: harness record PROFILE SEED COUNT OUT | replay SESSIONS OUT");
            std::process::exit(2)
        }
    }
}
