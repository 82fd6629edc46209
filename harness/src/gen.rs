//! Seeded generation of CBOR inputs: well-formed items in every spelling, and damaged ones.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// header widths: 0 = immediate
pub const WIDTHS: [u8; 5] = [0, 1, 2, 4, 8];

pub const EDGES: [u64; 39] = [
    0, 1, 2, 10, 19, 20, 22, 23, 24, 25, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 32767, 32768,
    55799, 65534, 65535, 65536, 65537, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000,
    0x1_0000_0001, 0x0102_0304_0506_0708, 0x7fff_ffff_ffff_fffe, 0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff,
];

pub fn canon_width(v: u64) -> u8 {
    if v < 24 {
        0
    } else if v < 0x100 {
        1
    } else if v < 0x1_0000 {
        2
    } else if v < 0x1_0000_0000 {
        4
    } else {
        8
    }
}

pub fn fits(v: u64, w: u8) -> bool {
    match w {
        0 => v < 24,
        1 => v < 0x100,
        2 => v < 0x1_0000,
        4 => v < 0x1_0000_0000,
        _ => true,
    }
}

pub fn head(out: &mut Vec<u8>, major: u8, w: u8, v: u64) {
    let m = major << 5;
    match w {
        0 => out.push(m | v as u8),
        1 => {
            out.push(m | 24);
            out.push(v as u8)
        }
        2 => {
            out.push(m | 25);
            out.extend_from_slice(&(v as u16).to_be_bytes())
        }
        4 => {
            out.push(m | 26);
            out.extend_from_slice(&(v as u32).to_be_bytes())
        }
        _ => {
            out.push(m | 27);
            out.extend_from_slice(&v.to_be_bytes())
        }
    }
}

pub fn canon(out: &mut Vec<u8>, major: u8, v: u64) {
    head(out, major, canon_width(v), v)
}

#[derive(Clone)]
pub struct Opts {
    /// longest ordinary string
    pub maxstr: usize,
    /// percentage of invalid UTF-8 texts
    pub badtext: u64,
    /// percentage of non-shortest heads
    pub wide: u64,
    pub indef: u64,
    pub depth: usize,
    pub fan: usize,
    /// how many strings or containers of an unusual size (or depth) may still be made
    pub big: usize,
    /// the unusual sizes are those around 2^16
    pub huge: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { maxstr: 5, badtext: 0, wide: 35, indef: 35, depth: 4, fan: 4, big: 0, huge: false }
    }
}

pub struct Gen {
    pub r: Rng,
    pub o: Opts,
}

pub const TEXTS: [&str; 24] = [
    "", "a", "b", "ab", "é", "ß", "€", "日", "\u{7ff}", "\u{800}", "\u{ffff}", "𐍈", "\u{feff}", "\0", "\u{7f}", "\u{80}",
    "\u{d7ff}", "\u{e000}", "\u{10ffff}", "\u{fffd}", "e\u{301}", "\r\n", " ", "\u{10000}",
];

pub const BADTEXTS: [&[u8]; 10] = [
    &[0x80],
    &[0xc3],
    &[0xc0, 0x80],
    &[0xe0, 0x9f, 0xbf],
    &[0xed, 0xa0, 0x80],
    &[0xf0, 0x8f, 0x80, 0x80],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xff],
    &[0xe2, 0x82],
    &[0x61, 0xf5, 0x80, 0x80, 0x80],
];

impl Gen {
    pub fn new(seed: u64) -> Gen {
        Gen { r: Rng::new(seed), o: Opts::default() }
    }
    pub fn width(&mut self, v: u64) -> u8 {
        if self.r.chance(self.o.wide) {
            let ws: Vec<u8> = WIDTHS.iter().copied().filter(|w| fits(v, *w)).collect();
            *self.r.pick(&ws)
        } else {
            canon_width(v)
        }
    }
    pub fn hd(&mut self, out: &mut Vec<u8>, major: u8, v: u64) {
        let w = self.width(v);
        head(out, major, w, v)
    }
    pub fn num(&mut self) -> u64 {
        match self.r.below(10) {
            0..=4 => *self.r.pick(&EDGES),
            5 | 6 => self.r.next() % 24,
            7 => self.r.next() % 70000,
            8 => self.r.next() >> (self.r.next() % 64),
            _ => self.r.next(),
        }
    }
    /// now and then, where asked for, an unusual size: what a small buffer or a small counter would not hold
    pub fn size(&mut self) -> Option<usize> {
        if self.o.big == 0 || self.r.chance(30) {
            return None;
        }
        self.o.big -= 1;
        if self.o.huge {
            return Some(*self.r.pick(&[65535usize, 65536, 65537, 65536 + 255, 65536 + 256]));
        }
        Some(match self.r.below(4) {
            0 => *self.r.pick(&[255usize, 256, 257, 258]),
            1 => 1 + self.r.below(600),
            _ => *self.r.pick(&[16usize, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129]),
        })
    }
    pub fn strlen(&mut self) -> usize {
        if self.o.big > 0 && !self.o.huge && self.r.chance(15) {
            // longer than what is copied or looked at in one go
            self.o.big -= 1;
            return if self.r.chance(50) {
                *self.r.pick(&[1000usize, 1024, 2000, 2048, 3000, 4000, 4096, 5000, 8192, 10000]) + self.r.below(3) - 1
            } else {
                600 + self.r.below(6000)
            };
        }
        if let Some(n) = self.size() {
            return n;
        }
        match self.r.below(20) {
            0 => *self.r.pick(&[22usize, 23, 24, 25]),
            _ => self.r.below(self.o.maxstr + 1),
        }
    }
    pub fn rawbytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.r.next() as u8).collect()
    }
    pub fn textbytes(&mut self) -> Vec<u8> {
        if self.r.chance(self.o.badtext) {
            return self.badtext();
        }
        let n = self.strlen();
        self.goodtext(n)
    }
    fn goodtext(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::new();
        while out.len() < n {
            let mut t = *self.r.pick(&TEXTS);
            if n > 40 && out.len() + t.len() > n {
                t = "a"
            }
            out.extend_from_slice(t.as_bytes());
            if t.is_empty() && n < 10 {
                break;
            }
        }
        out
    }
    /// invalid on its own, or an ordinary text with something wrong somewhere
    fn badtext(&mut self) -> Vec<u8> {
        if self.r.chance(40) {
            return self.r.pick(&BADTEXTS).to_vec();
        }
        let n = if self.o.big > 0 && self.r.chance(70) { self.strlen().max(1) } else { 1 + self.r.below(36) };
        let mut out = if self.r.chance(60) { (0..n).map(|_| 0x61 + self.r.below(26) as u8).collect() } else { self.goodtext(n) };
        let at = match self.r.below(4) {
            0 => out.len(),
            1 => 0,
            _ if out.len() > 100 && self.r.chance(70) => {
                // where pieces of some size meet
                let b = 1usize << (4 + self.r.below(12));
                let k = self.r.below(1 + out.len() / b);
                (k * b + self.r.below(3)).saturating_sub(1).min(out.len())
            }
            _ => self.r.below(out.len() + 1),
        };
        match self.r.below(4) {
            0 => {
                let x = *self.r.pick(&BADTEXTS);
                for (i, b) in x.iter().enumerate() {
                    out.insert(at + i, *b)
                }
            }
            1 => {
                let i = at.min(out.len() - 1);
                out[i] |= 0x80
            }
            2 => {
                // the end of a character missing
                let c = *self.r.pick(&["é", "€", "𐍈", "\u{feff}", "\u{10ffff}"]);
                let k = 1 + self.r.below(c.len() - 1);
                for (i, b) in c.as_bytes()[..k].iter().enumerate() {
                    out.insert(at + i, *b)
                }
            }
            _ => {
                let i = at.min(out.len() - 1);
                out[i] = *self.r.pick(&[0x80u8, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xf8, 0xfe, 0xff])
            }
        }
        out
    }
    pub fn string(&mut self, out: &mut Vec<u8>, major: u8) {
        if self.r.chance(self.o.indef) {
            out.push(major << 5 | 31);
            let n = self.size().unwrap_or_else(|| self.r.below(4));
            let mut at = vec![];
            for _ in 0..n {
                if !self.again(out, &mut at, 1) {
                    self.defstring(out, major)
                }
            }
            out.push(0xff)
        } else {
            self.defstring(out, major)
        }
    }
    pub fn defstring(&mut self, out: &mut Vec<u8>, major: u8) {
        let d = if major == 3 {
            self.textbytes()
        } else {
            let n = self.strlen();
            self.rawbytes(n)
        };
        self.hd(out, major, d.len() as u64);
        out.extend_from_slice(&d)
    }
    pub fn int(&mut self, out: &mut Vec<u8>, major: u8) {
        let v = self.num();
        self.hd(out, major, v)
    }
    pub fn special(&mut self, out: &mut Vec<u8>) {
        match self.r.below(8) {
            0 => out.push(0xf4),
            1 => out.push(0xf5),
            2 => out.push(0xf6),
            3 => out.push(0xf7),
            4 => out.push(0xe0 + self.r.below(20) as u8),
            5 => {
                out.push(0xf8);
                let v = *self.r.pick(&[0u8, 1, 19, 20, 21, 22, 23, 24, 31, 32, 100, 254, 255]);
                out.push(v)
            }
            _ => self.float(out),
        }
    }
    pub fn float(&mut self, out: &mut Vec<u8>) {
        match self.r.below(3) {
            0 => {
                out.push(0xf9);
                let v = if self.r.chance(50) {
                    *self.r.pick(&[0u16, 0x8000, 0x3c00, 0x7c00, 0xfc00, 0x7e00, 0x7c01, 1, 0x03ff, 0x0400, 0x7bff, 0x83ff])
                } else {
                    self.r.next() as u16
                };
                out.extend_from_slice(&v.to_be_bytes())
            }
            1 => {
                out.push(0xfa);
                let v = if self.r.chance(40) {
                    *self.r.pick(&[0u32, 0x8000_0000, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 1, 0x007f_ffff, 0x7f7f_ffff, 0x7f80_0001])
                } else {
                    self.r.next() as u32
                };
                out.extend_from_slice(&v.to_be_bytes())
            }
            _ => {
                out.push(0xfb);
                let v = match self.r.below(4) {
                    0 => *self.r.pick(&[0u64, 1 << 63, 0x3ff0_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 1, 0x7ff0_0000_0000_0001, 0x7fef_ffff_ffff_ffff]),
                    // near the single precision range, with ties
                    1 => {
                        let e = 1023 - 160 + (self.r.next() % 300);
                        let m = self.r.next() & 0x000f_ffff_ffff_ffff;
                        let m = match self.r.below(4) {
                            0 => m & !0x1fff_ffff | 0x1000_0000,
                            1 => m & !0x1fff_ffff,
                            2 => m & !0x1fff_ffff | 0x1000_0001,
                            _ => m,
                        };
                        (self.r.next() & 1) << 63 | e << 52 | m
                    }
                    // subnormal singles with exact ties
                    2 => {
                        let e = 1023 - 150 + (self.r.next() % 26);
                        let m = (self.r.next() & 0x000f_ffff_ffff_ffff) & !((1u64 << (20 + self.r.next() % 33)) - 1);
                        (self.r.next() & 1) << 63 | e << 52 | m
                    }
                    _ => self.r.next(),
                };
                out.extend_from_slice(&v.to_be_bytes())
            }
        }
    }
    pub fn item_into(&mut self, out: &mut Vec<u8>, depth: usize) {
        let top = if depth == 0 { 8 } else { 15 };
        match self.r.below(top) {
            0 | 1 => self.int(out, 0),
            2 | 3 => self.int(out, 1),
            4 => self.string(out, 2),
            5 => self.string(out, 3),
            6 | 7 => self.special(out),
            8 | 9 | 10 => self.array(out, depth),
            11 | 12 => self.map(out, depth),
            _ => {
                let t = if self.r.chance(60) { *self.r.pick(&[0u64, 2, 3, 24, 30, 1, 4, 5, 32, 55799]) } else { self.num() };
                self.hd(out, 6, t);
                self.item_into(out, depth - 1)
            }
        }
    }
    /// the part before, or two before, once more
    fn again(&mut self, out: &mut Vec<u8>, at: &mut Vec<usize>, often: u64) -> bool {
        let n = at.len();
        at.push(out.len());
        if n == 0 || !self.r.chance(if often == 1 { 8 } else { often }) {
            return false;
        }
        let k = if often == 1 && self.r.chance(60) { 1 } else { 2 };
        if n < k {
            return false;
        }
        let piece = out[at[n - k]..at[n - k + 1]].to_vec();
        out.extend(piece);
        true
    }
    pub fn array(&mut self, out: &mut Vec<u8>, depth: usize) {
        let mut depth = depth;
        let mut tight = false;
        let n = match self.size() {
            Some(n) => {
                depth = 0;
                // as many elements as there are bytes
                tight = self.r.chance(if self.o.huge { 85 } else { 40 });
                n
            }
            None => self.r.below(self.o.fan + 1),
        };
        let ind = self.r.chance(self.o.indef);
        if ind {
            out.push(0x9f)
        } else {
            self.hd(out, 4, n as u64)
        }
        let mut at = vec![];
        for _ in 0..n {
            if tight {
                out.push(self.r.below(24) as u8)
            } else if !self.again(out, &mut at, 1) {
                self.item_into(out, depth.saturating_sub(1))
            }
        }
        if ind {
            out.push(0xff)
        }
    }
    pub fn map(&mut self, out: &mut Vec<u8>, depth: usize) {
        let mut depth = depth;
        let mut tight = false;
        let n = match self.size() {
            Some(n) => {
                depth = 0;
                // as many elements as there are bytes
                tight = self.r.chance(if self.o.huge { 85 } else { 40 });
                n
            }
            None => self.r.below(self.o.fan),
        };
        let ind = self.r.chance(self.o.indef);
        if ind {
            out.push(0xbf)
        } else {
            self.hd(out, 5, n as u64)
        }
        let mut at = vec![];
        // now and then an entry that was there before
        let twice = self.r.chance(15);
        for _ in 0..2 * n {
            if tight {
                out.push(self.r.below(24) as u8)
            } else if !self.again(out, &mut at, if twice { 90 } else { 2 }) {
                self.item_into(out, depth.saturating_sub(1))
            }
        }
        if ind {
            out.push(0xff)
        }
    }
    /// a random well-formed item (texts may be invalid when badtext > 0)
    pub fn item(&mut self) -> Vec<u8> {
        let mut out = Vec::new();
        let d = self.r.below(self.o.depth + 1);
        if self.o.big > 0 && !self.o.huge && self.r.chance(30) {
            return self.deep();
        }
        if self.o.big > 0 && self.r.chance(60) {
            let k = *self.r.pick(&["bytes", "text", "array", "map", "tag"]);
            return self.kind(k);
        }
        self.item_into(&mut out, d);
        out
    }
    /// an item inside many others
    pub fn deep(&mut self) -> Vec<u8> {
        let n = self.size().unwrap_or(20);
        let mut out = vec![];
        let mut close = vec![];
        // often all of one kind: many levels complete, or are closed, at once
        let same = if self.r.chance(50) { Some(self.r.below(8)) } else { None };
        for _ in 0..n {
            let k = same.unwrap_or_else(|| self.r.below(8));
            let (a, b): (&[u8], &[u8]) = match k {
                0 => (&[0x81], &[]),
                1 => (&[0x9f], &[0xff]),
                2 => (&[0xa1, 0x00], &[]),
                3 => (&[0xbf, 0x00], &[0xff]),
                4 => (&[0xc1], &[]),
                5 => (&[0x82], &[0x00]),
                6 => (&[0xa1], &[0x80]),
                _ => (&[0xbf], &[0x60, 0xff]),
            };
            out.extend_from_slice(a);
            close.push(b);
        }
        self.item_into(&mut out, 1);
        for b in close.iter().rev() {
            out.extend_from_slice(b)
        }
        out
    }
    /// an item of one kind
    pub fn kind(&mut self, k: &str) -> Vec<u8> {
        let mut out = Vec::new();
        match k {
            "positive" => self.int(&mut out, 0),
            "negative" => self.int(&mut out, 1),
            "scalar" => {
                let m = self.r.below(2) as u8;
                self.int(&mut out, m)
            }
            "bytes" => self.string(&mut out, 2),
            "text" => self.string(&mut out, 3),
            "array" => self.array(&mut out, 2),
            "map" => self.map(&mut out, 2),
            "tag" => {
                let t = self.num();
                self.hd(&mut out, 6, t);
                self.item_into(&mut out, 2)
            }
            "float" => self.float(&mut out),
            "byte" => {
                if self.r.chance(50) {
                    out.push(0xe0 + self.r.below(20) as u8)
                } else {
                    out.push(0xf8);
                    out.push(self.r.next() as u8)
                }
            }
            "null" => out.push(0xf6),
            "undefined" => out.push(0xf7),
            "bool" => out.push(0xf4 + self.r.below(2) as u8),
            _ => out.push(0xf4 + self.r.below(4) as u8),
        }
        out
    }
    /// a byte that matters to the decoder
    pub fn lead(&mut self) -> u8 {
        match self.r.below(4) {
            0 => self.r.next() as u8,
            1 => {
                let m = self.r.below(8) as u8;
                m << 5 | *self.r.pick(&[0u8, 1, 2, 3, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31])
            }
            2 => *self.r.pick(&[0x9f, 0xbf, 0x5f, 0x7f, 0xff, 0x80, 0xa0, 0x81, 0xa1, 0xc1, 0x40, 0x60]),
            _ => *self.r.pick(&[0x00, 0x20, 0x41, 0x61, 0x82, 0xa2, 0xf4, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xe0]),
        }
    }
    pub fn mutate(&mut self, b: &mut Vec<u8>) {
        for _ in 0..1 + self.r.below(2) {
            let n = b.len();
            match self.r.below(8) {
                0 if n > 0 => {
                    let k = self.r.below(n);
                    b.truncate(k)
                }
                1 if n > 0 => {
                    let k = self.r.below(n);
                    b[k] = self.lead()
                }
                2 if n > 0 => {
                    let k = self.r.below(n);
                    b[k] ^= 1 << self.r.below(8)
                }
                3 => {
                    let k = self.r.below(n + 1);
                    let x = self.lead();
                    b.insert(k, x)
                }
                4 if n > 0 => {
                    let k = self.r.below(n);
                    b.remove(k);
                }
                5 => {
                    let k = self.r.below(n + 1);
                    b.insert(k, 0xff)
                }
                6 if n > 1 => {
                    // move a piece
                    let a = self.r.below(n);
                    let l = 1 + self.r.below((n - a).min(4));
                    let piece: Vec<u8> = b[a..a + l].to_vec();
                    let k = self.r.below(n);
                    for (j, x) in piece.into_iter().enumerate() {
                        b.insert(k + j, x)
                    }
                }
                _ => {
                    let x = self.lead();
                    b.push(x)
                }
            }
        }
    }
    /// random token soup
    pub fn soup(&mut self) -> Vec<u8> {
        let n = 1 + self.r.below(10);
        let mut out = Vec::new();
        for _ in 0..n {
            match self.r.below(6) {
                0..=3 => {
                    let x = self.lead();
                    out.push(x)
                }
                4 => {
                    let v = self.r.below(4) as u64;
                    let m = self.r.below(8) as u8;
                    if m == 7 {
                        self.special(&mut out)
                    } else {
                        self.hd(&mut out, m, v)
                    }
                }
                _ => self.special(&mut out),
            }
        }
        out
    }
    /// any input: mostly items, often damaged, sometimes soup
    pub fn any(&mut self) -> Vec<u8> {
        match self.r.below(10) {
            0..=3 => self.item(),
            4..=6 => {
                let mut b = self.item();
                self.mutate(&mut b);
                b
            }
            7 => {
                let mut b = self.item();
                let c = self.item();
                b.extend_from_slice(&c);
                b
            }
            _ => self.soup(),
        }
    }

    /// another spelling of the same well-formed item: header widths, indefinite forms, chunks,
    /// entry order of maps
    pub fn respell(&mut self, b: &[u8]) -> Vec<u8> {
        let mut out = Vec::new();
        let mut p = 0;
        while p < b.len() {
            match self.spell_one(b, p, &mut out) {
                Some(q) => p = q,
                None => {
                    out.extend_from_slice(&b[p..]);
                    break;
                }
            }
        }
        out
    }
    fn spell_one(&mut self, b: &[u8], p: usize, out: &mut Vec<u8>) -> Option<usize> {
        let (maj, info) = (b[p] >> 5, b[p] & 31);
        if info == 31 && maj != 7 {
            let q = end_of(b, p)?;
            let back = out.len();
            if self.spell_ind(b, p, q, out).is_none() {
                out.truncate(back);
                out.extend_from_slice(&b[p..q])
            }
            return Some(q);
        }
        if maj == 7 {
            let q = end_of(b, p)?;
            // simple values have two forms
            if info < 20 && self.r.chance(self.o.wide) {
                out.extend_from_slice(&[0xf8, info])
            } else if info == 24 && b[p + 1] < 20 && self.r.chance(60) {
                out.push(0xe0 | b[p + 1])
            } else {
                out.extend_from_slice(&b[p..q])
            }
            return Some(q);
        }
        let w = match info {
            24 => 1,
            25 => 2,
            26 => 4,
            27 => 8,
            28.. => return None,
            _ => 0,
        };
        let v: u64 = if w == 0 { info as u64 } else { b.get(p + 1..p + 1 + w)?.iter().fold(0, |a, x| a << 8 | *x as u64) };
        let mut q = p + 1 + w;
        let ind = self.r.chance(self.o.indef);
        match maj {
            0 | 1 => self.hd(out, maj, v),
            2 | 3 => {
                let d = b.get(q..q.checked_add(v as usize)?)?.to_vec();
                q += v as usize;
                if !ind {
                    self.hd(out, maj, v);
                    out.extend_from_slice(&d)
                } else {
                    out.push(maj << 5 | 31);
                    let mut i = 0;
                    while i < d.len() {
                        let mut n = 1 + self.r.below(d.len() - i);
                        while maj == 3 && i + n < d.len() && d[i + n] & 0xc0 == 0x80 {
                            n += 1
                        }
                        self.hd(out, maj, n as u64);
                        out.extend_from_slice(&d[i..i + n]);
                        i += n;
                        if self.r.chance(10) {
                            out.push(maj << 5)
                        }
                    }
                    out.push(0xff)
                }
            }
            4 | 5 => {
                let per = if maj == 4 { 1 } else { 2 };
                let mut parts: Vec<Vec<u8>> = vec![];
                for _ in 0..v {
                    let mut x = vec![];
                    for _ in 0..per {
                        if q >= b.len() {
                            return None;
                        }
                        q = self.spell_one(b, q, &mut x)?
                    }
                    parts.push(x)
                }
                if maj == 5 {
                    for i in (1..parts.len()).rev() {
                        let j = self.r.below(i + 1);
                        parts.swap(i, j)
                    }
                }
                if ind {
                    out.push(maj << 5 | 31)
                } else {
                    self.hd(out, maj, v)
                }
                out.extend(parts.concat());
                if ind {
                    out.push(0xff)
                }
            }
            _ => {
                self.hd(out, maj, v);
                if q >= b.len() {
                    return None;
                }
                q = self.spell_one(b, q, out)?
            }
        }
        Some(q)
    }
    /// what is of indefinite length, p..q of b: the same chunks or parts, their heads otherwise, or the whole announced
    fn spell_ind(&mut self, b: &[u8], p: usize, q: usize, out: &mut Vec<u8>) -> Option<()> {
        let maj = b[p] >> 5;
        let stay = self.r.chance(60);
        let mut i = p + 1;
        let mut n = 0;
        let mut body = vec![];
        while i < q - 1 {
            if maj < 4 {
                let e = end_of(b, i)?;
                let w = match b[i] & 31 {
                    24 => 1,
                    25 => 2,
                    26 => 4,
                    27 => 8,
                    _ => 0,
                };
                let d = &b[i + 1 + w..e];
                if stay {
                    self.hd(&mut body, maj, d.len() as u64)
                }
                body.extend_from_slice(d);
                i = e
            } else {
                i = self.spell_one(b, i, &mut body)?
            }
            n += 1
        }
        if stay {
            out.push(b[p]);
            out.extend(body);
            out.push(0xff)
        } else {
            let l = match maj {
                2 | 3 => body.len(),
                4 => n,
                _ => n / 2,
            };
            self.hd(out, maj, l as u64);
            out.extend(body)
        }
        Some(())
    }
    /// a damaged spelling that stays close: one part dropped, doubled, replaced or renumbered
    pub fn damage(&mut self, b: &[u8]) -> Vec<u8> {
        // heads of the item, with the end of the part each begins
        let mut heads = vec![];
        walk(b, 0, &mut heads);
        if heads.is_empty() {
            let mut b = b.to_vec();
            self.mutate(&mut b);
            return b;
        }
        let (p, q) = *self.r.pick(&heads);
        let mut out = b[..p].to_vec();
        match self.r.below(7) {
            0 => out.extend_from_slice(&b[q..]),
            1 => {
                out.extend_from_slice(&b[p..q]);
                out.extend_from_slice(&b[p..])
            }
            2 | 3 => {
                let x = self.item();
                out.extend(x);
                out.extend_from_slice(&b[q..])
            }
            4 => {
                // another number in the head
                let mut x = b.to_vec();
                let i = p + self.r.below(2).min(x.len() - p - 1);
                x[i] = x[i].wrapping_add(*self.r.pick(&[1u8, 255, 2, 8, 32, 31]));
                return x;
            }
            5 => {
                let k = *self.r.pick(&["positive", "negative", "text", "bytes", "array", "map", "tag", "null", "bool"]);
                let x = self.kind(k);
                out.extend(x);
                out.extend_from_slice(&b[q..])
            }
            _ => {
                let mut x = b.to_vec();
                self.mutate(&mut x);
                return x;
            }
        }
        out
    }
}

/// an item as a tree
#[derive(Clone, Debug)]
enum Tree {
    Leaf(Vec<u8>),
    Int(u8, u64),
    Arr(Vec<Tree>),
    Map(Vec<(Tree, Tree)>),
    Tag(u64, Box<Tree>),
}

fn tree(b: &[u8], p: &mut usize) -> Option<Tree> {
    let q = end_of(b, *p)?;
    let (maj, info) = (b[*p] >> 5, b[*p] & 31);
    let (w, ind) = match info {
        24 => (1, false),
        25 => (2, false),
        26 => (4, false),
        27 => (8, false),
        31 => (0, true),
        _ => (0, false),
    };
    let start = *p;
    let v = if w == 0 { info as u64 } else { b[start + 1..start + 1 + w].iter().fold(0u64, |a, x| a << 8 | *x as u64) };
    if !matches!(maj, 0 | 1 | 4 | 5 | 6) {
        *p = q;
        return Some(Tree::Leaf(b[start..q].to_vec()));
    }
    *p += 1 + w;
    let more = |n: Option<u64>, p: &mut usize| -> Option<Vec<Tree>> {
        let mut l = vec![];
        loop {
            match n {
                Some(n) if l.len() as u64 >= n => return Some(l),
                None if b[*p] == 0xff => {
                    *p += 1;
                    return Some(l);
                }
                _ => l.push(tree(b, p)?),
            }
        }
    };
    Some(match maj {
        0 | 1 => Tree::Int(maj, v),
        4 => Tree::Arr(more(if ind { None } else { Some(v) }, p)?),
        5 => {
            let l = more(if ind { None } else { Some(2 * v) }, p)?;
            Tree::Map(l.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect())
        }
        _ => Tree::Tag(v, Box::new(tree(b, p)?)),
    })
}

impl Tree {
    fn put(&self, out: &mut Vec<u8>) {
        match self {
            Tree::Leaf(b) => out.extend_from_slice(b),
            Tree::Int(m, v) => canon(out, *m, *v),
            Tree::Arr(l) => {
                canon(out, 4, l.len() as u64);
                l.iter().for_each(|x| x.put(out))
            }
            Tree::Map(l) => {
                canon(out, 5, l.len() as u64);
                l.iter().for_each(|(k, v)| {
                    k.put(out);
                    v.put(out)
                })
            }
            Tree::Tag(n, x) => {
                canon(out, 6, *n);
                x.put(out)
            }
        }
    }
    /// the nodes worth changing
    fn nodes<'a>(&'a mut self, at: &mut usize, f: &mut dyn FnMut(&mut Tree)) {
        if *at == 0 {
            *at = usize::MAX;
            f(self);
            return;
        }
        *at -= 1;
        match self {
            Tree::Arr(l) => l.iter_mut().for_each(|x| if *at != usize::MAX { x.nodes(at, f) }),
            Tree::Map(l) => l.iter_mut().for_each(|(k, v)| {
                if *at != usize::MAX {
                    k.nodes(at, f)
                }
                if *at != usize::MAX {
                    v.nodes(at, f)
                }
            }),
            Tree::Tag(_, x) => x.nodes(at, f),
            _ => (),
        }
    }
    fn count(&self) -> usize {
        1 + match self {
            Tree::Arr(l) => l.iter().map(|x| x.count()).sum(),
            Tree::Map(l) => l.iter().map(|(k, v)| k.count() + v.count()).sum(),
            Tree::Tag(_, x) => x.count(),
            _ => 0,
        }
    }
}

impl Gen {
    /// entries of all maps in another order
    pub fn shuffle(&mut self, b: &[u8]) -> Vec<u8> {
        fn go(g: &mut Gen, t: &mut Tree) {
            match t {
                Tree::Map(l) => {
                    for i in 0..l.len() {
                        let j = i + g.r.below(l.len() - i);
                        l.swap(i, j);
                    }
                    l.iter_mut().for_each(|(_, v)| go(g, v))
                }
                Tree::Arr(l) => l.iter_mut().for_each(|x| go(g, x)),
                Tree::Tag(_, x) => go(g, x),
                _ => (),
            }
        }
        let mut p = 0;
        match tree(b, &mut p) {
            Some(mut t) if p == b.len() => {
                go(self, &mut t);
                let mut out = vec![];
                t.put(&mut out);
                out
            }
            _ => b.to_vec(),
        }
    }
    /// a part wrapped once more, unwrapped, or said in another kind: what a lenient decoder might take
    pub fn coerce(&mut self, b: &[u8]) -> Vec<u8> {
        let mut p = 0;
        let mut t = match tree(b, &mut p) {
            Some(t) if p == b.len() => t,
            _ => return self.damage(b),
        };
        let n = t.count();
        let mut at = if self.r.chance(50) { self.r.below(n.min(3)) } else { self.r.below(n) };
        let g = self;
        let bytes = |major: u8, x: &[u8]| {
            let mut o = vec![];
            canon(&mut o, major, x.len() as u64);
            o.extend_from_slice(x);
            Tree::Leaf(o)
        };
        t.nodes(&mut at, &mut |x| {
            let y = x.clone();
            let mut enc = vec![];
            y.put(&mut enc);
            *x = match (g.r.below(8), &y) {
                (0, _) => Tree::Arr(vec![y]),
                (1, _) => Tree::Tag(*g.r.pick(&[0u64, 1, 2, 3, 24, 30, 55799]), Box::new(y)),
                (2, _) => Tree::Tag(24, Box::new(bytes(2, &enc))),
                (3, _) => bytes(2, &enc),
                (_, Tree::Int(m, v)) => {
                    let be = v.to_be_bytes();
                    let s = &be[(v.leading_zeros() / 8) as usize..];
                    match g.r.below(8) {
                        0 => Tree::Tag(2 + *m as u64, Box::new(bytes(2, s))),
                        1 => Tree::Tag(2 + *m as u64, Box::new(bytes(2, &be))),
                        2 => bytes(2, s),
                        3 => bytes(3, (if *m == 0 { v.to_string() } else { format!("-{}", v) }).as_bytes()),
                        4 => {
                            let f = if *m == 0 { *v as f64 } else { -1.0 - *v as f64 };
                            let mut o = vec![0xfb];
                            o.extend(f.to_bits().to_be_bytes());
                            Tree::Leaf(o)
                        }
                        5 => Tree::Leaf(if *v < 24 { vec![0xe0 + *v as u8] } else { vec![0xf8, *v as u8] }),
                        6 => Tree::Leaf(vec![0xf4 + (*v as u8 & 1)]),
                        _ => Tree::Int(1 - *m, *v),
                    }
                }
                (_, Tree::Leaf(b)) if matches!(b[0] >> 5, 2 | 3) && b[0] & 31 < 24 => match g.r.below(3) {
                    0 => bytes(5 - (b[0] >> 5), &b[1..]),
                    1 => Tree::Arr(b[1..].iter().map(|c| Tree::Int(0, *c as u64)).collect()),
                    _ => Tree::Leaf([&[0x40 + (b[0] & 0x20) + 31][..], b, &[0xff]].concat()),
                },
                (_, Tree::Leaf(b)) if b[0] == 0xf4 || b[0] == 0xf5 => Tree::Int(0, b[0] as u64 & 1),
                (_, Tree::Leaf(_)) => Tree::Leaf(vec![0xf6]),
                (_, Tree::Arr(l)) => match g.r.below(3) {
                    0 if !l.is_empty() => l[0].clone(),
                    1 => Tree::Map(l.iter().enumerate().map(|(i, v)| (Tree::Int(0, i as u64), v.clone())).collect()),
                    _ => Tree::Leaf(l.iter().flat_map(|v| { let mut o = vec![]; v.put(&mut o); o }).collect()),
                },
                (_, Tree::Map(l)) => match g.r.below(3) {
                    0 => Tree::Arr(l.iter().map(|(_, v)| v.clone()).collect()),
                    1 => Tree::Arr(l.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect()),
                    _ => Tree::Map(l.iter().map(|(k, v)| (match k { Tree::Int(0, n) => bytes(3, n.to_string().as_bytes()), _ => k.clone() }, v.clone())).collect()),
                },
                (_, Tree::Tag(n, c)) => Tree::Arr(vec![Tree::Int(0, *n), (**c).clone()]),
            };
        });
        let mut out = vec![];
        t.put(&mut out);
        out
    }
    /// still well-formed, with an element more or less, another number, tag, key or order somewhere
    pub fn restructure(&mut self, b: &[u8]) -> Vec<u8> {
        let mut p = 0;
        let mut t = match tree(b, &mut p) {
            Some(t) if p == b.len() => t,
            _ => return self.damage(b),
        };
        let n = t.count();
        // the outer nodes more often
        let mut at = if self.r.chance(50) { self.r.below(n.min(3)) } else { self.r.below(n) };
        let other = {
            let x = if self.r.chance(50) { self.item() } else { let v = self.num(); let mut o = vec![]; canon(&mut o, 0, v); o };
            let mut p = 0;
            tree(&x, &mut p).unwrap_or(Tree::Leaf(x))
        };
        let g = self;
        t.nodes(&mut at, &mut |x| match x {
            Tree::Int(m, v) => match g.r.below(6) {
                0 => *v = v.wrapping_add(1),
                1 => *v = v.wrapping_sub(1),
                2 => *m = 1 - *m,
                3 => *v = v.wrapping_add(*g.r.pick(&[24u64, 32, 64, 256, 65536, 1 << 32, 1 << 63])),
                4 => *v = g.num(),
                _ => *x = other.clone(),
            },
            Tree::Leaf(_) => *x = other.clone(),
            Tree::Arr(l) => match g.r.below(6) {
                0 if !l.is_empty() => {
                    let i = g.r.below(l.len());
                    l.remove(i);
                }
                1 if !l.is_empty() => {
                    l.pop();
                }
                2 if l.len() > 1 => {
                    let i = g.r.below(l.len() - 1);
                    l.swap(i, i + 1)
                }
                3 => l.push(other.clone()),
                4 if !l.is_empty() => {
                    let i = g.r.below(l.len());
                    let y = l[i].clone();
                    l.insert(i, y)
                }
                _ => *x = other.clone(),
            },
            Tree::Map(l) => match g.r.below(8) {
                0 | 1 if !l.is_empty() => {
                    let i = g.r.below(l.len());
                    l.remove(i);
                }
                2 | 3 if !l.is_empty() => {
                    // the same key again, here or there
                    let i = g.r.below(l.len());
                    let y = l[i].clone();
                    let j = g.r.below(l.len() + 1);
                    l.insert(j, y)
                }
                4 | 5 => {
                    let k = if g.r.chance(80) { Tree::Int(0, g.num()) } else { other.clone() };
                    let v = if l.is_empty() { other.clone() } else { let i = g.r.below(l.len()); l[i].1.clone() };
                    let j = g.r.below(l.len() + 1);
                    l.insert(j, (k, v))
                }
                6 if l.len() > 1 => {
                    let i = g.r.below(l.len() - 1);
                    let a = l[i].1.clone();
                    l[i].1 = l[i + 1].1.clone();
                    l[i + 1].1 = a
                }
                _ => *x = other.clone(),
            },
            Tree::Tag(n, y) => match g.r.below(5) {
                0 => *n = n.wrapping_add(1),
                1 => *n = g.num(),
                2 => *x = (**y).clone(),
                3 => *x = Tree::Tag(*n, Box::new(x.clone())),
                _ => **y = other.clone(),
            },
        });
        let mut out = vec![];
        t.put(&mut out);
        out
    }
}

/// positions of all items inside a well-formed item
fn walk(b: &[u8], p: usize, out: &mut Vec<(usize, usize)>) -> Option<usize> {
    let q = end_of(b, p)?;
    out.push((p, q));
    let (maj, info) = (b[p] >> 5, b[p] & 31);
    let w = match info {
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => 0,
    };
    if maj == 4 || maj == 5 || maj == 6 || (info == 31 && maj < 7) {
        let mut i = p + 1 + w;
        while i < q && b[i] != 0xff {
            i = walk(b, i, out)?
        }
    }
    Some(q)
}

/// the end of the well-formed item at p
pub fn end_of(b: &[u8], p: usize) -> Option<usize> {
    let h = *b.get(p)?;
    let (maj, info) = (h >> 5, h & 31);
    let w = match info {
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => 0,
    };
    let v: u64 = if w == 0 { info as u64 } else { b.get(p + 1..p + 1 + w)?.iter().fold(0, |a, x| a << 8 | *x as u64) };
    let mut q = p + 1 + w;
    if info == 31 {
        while *b.get(q)? != 0xff {
            q = end_of(b, q)?
        }
        return Some(q + 1);
    }
    match maj {
        2 | 3 => {
            q = q.checked_add(v as usize)?;
            if q > b.len() {
                return None;
            }
        }
        4 | 5 | 6 => {
            let n = match maj {
                4 => v,
                5 => v.checked_mul(2)?,
                _ => 1,
            };
            for _ in 0..n {
                q = end_of(b, q)?
            }
        }
        _ => (),
    }
    Some(q)
}
