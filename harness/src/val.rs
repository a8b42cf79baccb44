//! Values as the specification (spec/Wire.tla) writes them, a small PRNG and JSON output.
use std::fmt::Write as _;

/// Integers are base-256 digits, most significant first; strings and byte strings are bytes.
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    B(Vec<u8>),
    Bool(bool),
    Name(String),
    Seq(Vec<V>),
}

impl V {
    pub fn b(&self) -> &[u8] {
        match self {
            V::B(x) => x,
            _ => panic!("harness: bytes expected"),
        }
    }
    pub fn s(&self) -> &[V] {
        match self {
            V::Seq(x) => x,
            _ => panic!("harness: sequence expected"),
        }
    }
    pub fn name(&self) -> &str {
        match self {
            V::Name(x) => x,
            _ => panic!("harness: name expected"),
        }
    }
    pub fn u(&self) -> u64 {
        self.b().iter().fold(0u64, |a, d| (a << 8) | *d as u64)
    }
    pub fn text(&self) -> String {
        String::from_utf8(self.b().to_vec()).expect("harness: generated text is UTF-8")
    }
    pub fn json(&self, o: &mut String) {
        match self {
            V::B(x) => jbytes(x, o),
            V::Bool(x) => o.push_str(if *x { "true" } else { "false" }),
            V::Name(x) => jstr(x, o),
            V::Seq(x) => {
                o.push('[');
                for (i, e) in x.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    e.json(o);
                }
                o.push(']');
            }
        }
    }
}

pub fn jbytes(x: &[u8], o: &mut String) {
    o.push('[');
    for (i, b) in x.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", b);
    }
    o.push(']');
}

pub fn jstr(x: &str, o: &mut String) {
    o.push_str(&serde_json::to_string(x).unwrap());
}

/// One JSON object, built field by field.
pub struct Ev(pub String);
impl Ev {
    pub fn new(op: &str) -> Ev {
        let mut o = String::from("{\"op\":");
        jstr(op, &mut o);
        Ev(o)
    }
    fn key(&mut self, k: &str) {
        self.0.push_str(",\"");
        self.0.push_str(k);
        self.0.push_str("\":");
    }
    pub fn s(mut self, k: &str, v: &str) -> Ev {
        self.key(k);
        jstr(v, &mut self.0);
        self
    }
    pub fn bytes(mut self, k: &str, v: &[u8]) -> Ev {
        self.key(k);
        jbytes(v, &mut self.0);
        self
    }
    pub fn v(mut self, k: &str, v: &V) -> Ev {
        self.key(k);
        v.json(&mut self.0);
        self
    }
    pub fn i(mut self, k: &str, v: i64) -> Ev {
        self.key(k);
        let _ = write!(self.0, "{}", v);
        self
    }
    pub fn t(mut self, k: &str, v: bool) -> Ev {
        self.key(k);
        self.0.push_str(if v { "true" } else { "false" });
        self
    }
    pub fn ints(mut self, k: &str, v: &[i64]) -> Ev {
        self.key(k);
        self.0.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            let _ = write!(self.0, "{}", x);
        }
        self.0.push(']');
        self
    }
    pub fn strs(mut self, k: &str, v: &[&str]) -> Ev {
        self.key(k);
        self.0.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            jstr(x, &mut self.0);
        }
        self.0.push(']');
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> Ev {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

/// Big-endian digits of a number.
pub fn digits(x: u64, n: usize) -> Vec<u8> {
    x.to_be_bytes()[8 - n..].to_vec()
}

/// xorshift64* with splitmix seeding.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        Rng((z ^ (z >> 31)) | 1)
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % (n as u64)) as usize
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 32) as u8
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}
