//! Drivers for the wire-format properties (C01-C08, C23, C24).
use crate::gen;
use crate::sink::Sink;
use crate::subjects::*;
use crate::table::{Tab, Ty};
use crate::val::{digits, Ev, Rng, V};
use std::convert::TryFrom;
use std::str::FromStr;
use stratumv2::codec::{deserialize, serialize, Message, Serializable};
use stratumv2::common::{Protocol, SetupConnectionErrorCode};
use stratumv2::mining::OpenMiningChannelErrorCode;
use stratumv2::types::{MessageType, STR0_255, U24};

pub struct Cx<'a> {
    pub tab: &'a Tab,
    pub subs: Vec<Sub>,
    pub sink: &'a mut Sink,
    pub rng: Rng,
    pub scale: usize,
}

fn lens_of(tab: &Tab, t: &str, v: &V, o: &mut Vec<i64>) {
    match tab.ty(t) {
        Ty::Str(_) | Ty::Bytes(_, _) => o.push(v.b().len() as i64),
        Ty::Msg(l, _) => l.iter().zip(v.s()).for_each(|((_, f), x)| lens_of(tab, f, x, o)),
        Ty::Sum => lens_of(tab, &tab.sum_body[v.s()[0].name()], &v.s()[1], o),
        _ => {}
    }
}

impl<'a> Cx<'a> {
    pub fn key(&mut self, op: &str, t: &str, b: &[u8]) {
        let mut k = Vec::with_capacity(b.len() + 40);
        k.extend_from_slice(op.as_bytes());
        k.extend_from_slice(t.as_bytes());
        k.extend_from_slice(b);
        self.sink.count(&k);
    }

    pub fn enc(&mut self, s: &Sub, v: &V) {
        let r = (s.construct)(v, &mut self.rng);
        let want = self.tab.encode(s.name, v);
        self.key("enc", s.name, &want);
        let bad = match &r {
            R::Ok(m) => m.bytes != want || m.n != want.len() as i64 || !m.same,
            R::Err(_) => false,
            R::Panic => true,
        };
        let class = format!("enc/{}/{}", s.name, r.tag());
        if bad || self.sink.wants(&class) {
            let mut e = Ev::new("enc").s("t", s.name).v("v", v).s("r", r.tag());
            if let R::Ok(m) = &r {
                e = e.bytes("bytes", &m.bytes).i("n", m.n).t("same", m.same);
            }
            self.sink.put(&class, e.end(), bad);
        }
    }

    pub fn rt(&mut self, s: &Sub, v: &V, suffix: &[u8], route: u8) {
        let dec = match s.decode {
            Some(d) => d,
            None => return,
        };
        let m = match (s.construct)(v, &mut self.rng) {
            R::Ok(m) => m,
            _ => return,
        };
        let mut buf = m.bytes.clone();
        buf.extend_from_slice(suffix);
        let r = dec(&buf, route);
        self.key("rt", s.name, &buf);
        let bad = match &r {
            R::Ok(d) => d.out != *v || (d.used >= 0 && d.used as usize != m.bytes.len()),
            _ => true,
        };
        let class = format!("rt/{}/{}/{}", s.name, r.tag(), suffix.is_empty());
        if bad || self.sink.wants(&class) {
            let mut e = Ev::new("rt").s("t", s.name).v("v", v).bytes("bytes", &m.bytes).bytes("suffix", suffix).s("r", r.tag()).s("kind", r.kind());
            if let R::Ok(d) = &r {
                e = e.v("out", &d.out).i("used", d.used);
            }
            self.sink.put(&class, e.end(), bad);
        }
    }

    pub fn dec(&mut self, s: &Sub, buf: &[u8], route: u8) {
        let f = match s.decode {
            Some(d) => d,
            None => return,
        };
        let r = f(buf, route);
        let d = self.tab.dec(s.name, buf, 0);
        self.key("dec", s.name, buf);
        let bad = match &r {
            R::Ok(x) => {
                !d.errs.none()
                    || d.v.as_ref() != Some(&x.out)
                    || (x.used >= 0 && x.used as usize != d.pos)
                    || (x.re[..] != buf[..d.pos.min(buf.len())] && !self.tab.has_bool(s.name))
            }
            R::Err(e) => d.errs.none() || !d.errs.has(e.kind) || e.chain > CHAIN_CAP || !e.shown,
            R::Panic => true,
        };
        let class = format!("dec/{}/{}/{}", s.name, r.kind(), r.tag());
        if bad || self.sink.wants(&class) {
            let ee = r.err();
            let mut e = Ev::new("dec").s("t", s.name).bytes("in", buf).s("r", r.tag()).s("kind", ee.kind).i("chain", ee.chain).t("shown", ee.shown);
            if let R::Ok(x) = &r {
                e = e.v("out", &x.out).ints("lf", &x.lf).bytes("re", &x.re).i("used", x.used);
            }
            self.sink.put(&class, e.end(), bad);
        }
    }

    /// All strict prefixes of a valid encoding at once.
    pub fn cut(&mut self, s: &Sub, v: &V) {
        let f = match s.decode {
            Some(d) => d,
            None => return,
        };
        let full = self.tab.encode(s.name, v);
        let mut tags = vec![];
        let mut bad = false;
        for k in 0..full.len() {
            // an exact-size allocation, so that an over-read has nothing to find
            let piece: Box<[u8]> = full[..k].to_vec().into_boxed_slice();
            let r = f(&piece, (k % 2) as u8);
            let tag = if r.tag() == "err" { r.kind() } else { r.tag() };
            bad |= tag != "Parse";
            tags.push(tag);
        }
        self.key("cut", s.name, &full);
        self.sink.note("prefixes", full.len() as u64);
        let class = format!("cut/{}", s.name);
        if bad || self.sink.wants(&class) {
            let e = Ev::new("cut").s("t", s.name).bytes("full", &full).strs("res", &tags);
            self.sink.put(&class, e.end(), bad);
        }
    }

    pub fn construct(&mut self, s: &Sub, v: &V) {
        let r = (s.construct)(v, &mut self.rng);
        let ce = self.tab.construct_errs(s.name, v);
        self.key("new", s.name, &self.tab.encode(s.name, v));
        let mut want = vec![];
        lens_of(self.tab, s.name, v, &mut want);
        let bad = match &r {
            R::Ok(m) => !ce.none() || m.out != *v || m.lf != want,
            R::Err(e) => !ce.has(e.kind) || e.chain > CHAIN_CAP,
            R::Panic => true,
        };
        let class = format!("new/{}/{}/{}", s.name, r.tag(), r.kind());
        if bad || self.sink.wants(&class) {
            let ee = r.err();
            let mut e = Ev::new("new").s("t", s.name).v("v", v).s("r", r.tag()).s("kind", ee.kind).i("chain", ee.chain).t("shown", ee.shown);
            if let R::Ok(m) = &r {
                e = e.v("out", &m.out).ints("lf", &m.lf);
            }
            self.sink.put(&class, e.end(), bad);
        }
    }

    /// Messages with every combination of extreme members, and with every phrase in every
    /// text member.
    fn shapes(&mut self, t: &str) -> Vec<V> {
        let tab = self.tab;
        let mut out = gen::combinations(tab, t, &mut self.rng);
        if let Ty::Msg(layout, _) = tab.ty(t) {
            for (i, (_, ft)) in layout.iter().enumerate() {
                if let Ty::Str(max) = tab.ty(ft) {
                    for x in gen::phrases(*max) {
                        let mut v = gen::value(tab, t, true, &mut self.rng);
                        if let V::Seq(fs) = &mut v {
                            fs[i] = V::B(x);
                        }
                        out.push(v);
                    }
                }
            }
        }
        out
    }

    /// Calls f with systematically chosen valid values of every type.
    pub fn each_value(&mut self, f: &mut dyn FnMut(&mut Cx, &Sub, &V)) {
        let subs = self.subs.clone();
        let tab = self.tab;
        for s in &subs {
            match tab.ty(s.name) {
                Ty::Bool => [false, true].iter().for_each(|b| f(self, s, &V::Bool(*b))),
                Ty::Int(n) if *n <= 2 => (0..1u64 << (8 * n)).for_each(|x| f(self, s, &V::B(digits(x, *n)))),
                Ty::Int(n) => {
                    for p in 0..8 * n {
                        for q in 0..=p {
                            let x = (1u64 << p) | (1u64 << q);
                            f(self, s, &V::B(digits(x, *n)));
                            f(self, s, &V::B(digits((x - 1) & ((1u64 << (8 * n)) - 1), *n)));
                            f(self, s, &V::B(digits(!x & ((1u64 << (8 * n)) - 1), *n)));
                        }
                    }
                    for i in 0..*n {
                        for b in 0..256u64 {
                            f(self, s, &V::B(digits(b << (8 * i), *n)));
                        }
                    }
                    if s.name == "f32" {
                        for e in 0..512u64 {
                            for m in [0u64, 1, 0x400000, 0x7fffff, 0x2aaaaa].iter() {
                                f(self, s, &V::B(digits(e << 23 | m, 4)));
                            }
                        }
                    }
                }
                Ty::Str(max) => {
                    for n in 0..=*max {
                        for _ in 0..12 {
                            let x = gen::text(n, &mut self.rng);
                            f(self, s, &V::B(x));
                        }
                    }
                    for x in gen::phrases(*max) {
                        f(self, s, &V::B(x));
                    }
                }
                Ty::Bytes(_, max) => {
                    for n in 0..=(*max).min(600) {
                        for _ in 0..8 {
                            let x = gen::blob(n, &mut self.rng);
                            f(self, s, &V::B(x));
                        }
                    }
                    if *max > 600 {
                        for p in 9..16 {
                            for d in [0usize, 1, 2].iter() {
                                let x = gen::blob(((1usize << p) + d - 1).min(*max), &mut self.rng);
                                f(self, s, &V::B(x));
                            }
                        }
                    }
                }
                Ty::Flags(bits) => {
                    for x in 0..=*bits {
                        if x & !bits == 0 {
                            f(self, s, &V::B(digits(x as u64, 4)));
                        }
                    }
                }
                Ty::Code(names) => names.keys().for_each(|k| f(self, s, &V::Name(k.clone()))),
                Ty::Proto => tab.protocols.keys().for_each(|k| f(self, s, &V::Name(k.clone()))),
                Ty::Msg(layout, _) => {
                    // every text length in every text field
                    for i in 0..layout.len() {
                        let lens: Vec<usize> = match tab.ty(&layout[i].1) {
                            Ty::Str(m) | Ty::Bytes(_, m) => (0..=*m).collect(),
                            _ => vec![],
                        };
                        for n in lens {
                            let mut v = gen::value(tab, s.name, true, &mut self.rng);
                            let x = if matches!(tab.ty(&layout[i].1), Ty::Str(_)) {
                                gen::text(n, &mut self.rng)
                            } else {
                                gen::blob(n, &mut self.rng)
                            };
                            if let V::Seq(fs) = &mut v {
                                fs[i] = V::B(x);
                            }
                            if tab.construct_errs(s.name, &v).none() {
                                f(self, s, &v);
                            }
                        }
                    }
                    for v in self.shapes(s.name) {
                        if tab.construct_errs(s.name, &v).none() {
                            f(self, s, &v);
                        }
                    }
                }
                _ => {}
            }
            let n = if matches!(tab.ty(s.name), Ty::Msg(_, _) | Ty::Sum | Ty::Frame) { 4000 } else { 1500 };
            for _ in 0..n * self.scale {
                let v = gen::value(tab, s.name, true, &mut self.rng);
                f(self, s, &v);
            }
        }
    }

    /// Calls f with byte strings to decode as each type.
    pub fn each_input(&mut self, f: &mut dyn FnMut(&mut Cx, &Sub, &[u8])) {
        let subs: Vec<Sub> = self.subs.iter().filter(|s| s.decode.is_some()).cloned().collect();
        let tab = self.tab;
        for s in &subs {
            f(self, s, &[]);
            for a in 0..=255u8 {
                f(self, s, &[a]);
                for b in 0..=255u8 {
                    f(self, s, &[a, b]);
                }
            }
            for v in self.shapes(s.name) {
                if fits(tab, s.name, &v) {
                    let b = tab.encode(s.name, &v);
                    f(self, s, &b);
                }
            }
            if let Ty::Str(_) = tab.ty(s.name) {
                for x in gen::phrases(255) {
                    let b = tab.encode(s.name, &V::B(x));
                    f(self, s, &b);
                }
            }
            // every value of every byte of one encoding
            let v = gen::value(tab, s.name, true, &mut self.rng);
            let base = tab.encode(s.name, &v);
            for i in 0..base.len().min(120) {
                for x in 0..=255u8 {
                    let mut b = base.clone();
                    b[i] = x;
                    f(self, s, &b);
                }
            }
            let n = if matches!(tab.ty(s.name), Ty::Msg(_, _) | Ty::Sum | Ty::Frame) { 6000 } else { 3000 };
            for _ in 0..n * self.scale {
                let b = gen::input(tab, s.name, &mut self.rng);
                f(self, s, &b);
            }
            for _ in 0..n * self.scale / 2 {
                // rule-breaking values, encoded
                let v = gen::value(tab, s.name, false, &mut self.rng);
                if fits(tab, s.name, &v) {
                    let b = tab.encode(s.name, &v);
                    f(self, s, &b);
                }
            }
        }
        // ill-formed text, systematically
        let edge: [u8; 24] = [
            0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
            0xf0, 0xf1, 0xf4, 0xf5, 0xff,
        ];
        for s in subs.iter().filter(|s| s.name.starts_with("STR0")) {
            for a in edge.iter() {
                for b in edge.iter() {
                    for c in edge.iter() {
                        f(self, s, &[3, *a, *b, *c]);
                        for d in edge.iter() {
                            f(self, s, &[4, *a, *b, *c, *d]);
                        }
                    }
                }
            }
        }
        // every value of the length prefixes and limits, with enough bytes behind
        for s in subs.iter() {
            match tab.ty(s.name) {
                Ty::Str(_) | Ty::Bytes(1, _) => {
                    for n in 0..=255usize {
                        let mut b = vec![n as u8];
                        b.extend(gen::text(n + 3, &mut self.rng));
                        f(self, s, &b);
                        b.truncate(n + 1);
                        f(self, s, &b);
                        b.truncate(n);
                        f(self, s, &b);
                    }
                }
                Ty::Flags(_) => {
                    for i in 0..32 {
                        for j in 0..32 {
                            let x: u32 = 1 << i | 1 << j;
                            f(self, s, &x.to_le_bytes());
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

/// The value can be written down at all (lengths fit their prefix).
fn fits(tab: &Tab, t: &str, v: &V) -> bool {
    match tab.ty(t) {
        Ty::Str(_) => v.b().len() <= 255,
        Ty::Bytes(n, _) => v.b().len() < 1 << (8 * n),
        Ty::Msg(l, _) => l.iter().zip(v.s()).all(|((_, f), x)| fits(tab, f, x)),
        Ty::Sum => fits(tab, &tab.sum_body[v.s()[0].name()], &v.s()[1]),
        _ => true,
    }
}

pub fn c01(cx: &mut Cx) {
    cx.each_value(&mut |cx, s, v| cx.enc(s, v));
    big_bytes(cx, true, false);
    big_frames(cx, &BIG);
}

pub fn c02(cx: &mut Cx) {
    let mut k = 0usize;
    cx.each_value(&mut |cx, s, v| {
        k += 1;
        let suffix = match k % 5 {
            0 | 1 => vec![],
            2 => {
                let n = 1 + cx.rng.below(12);
                gen::blob(n, &mut cx.rng)
            }
            3 => vec![if k % 2 == 0 { 0 } else { 0xff }; 1 + cx.rng.below(3)],
            _ => {
                let o = gen::value(cx.tab, s.name, true, &mut cx.rng);
                cx.tab.encode(s.name, &o)
            }
        };
        cx.rt(s, v, &suffix, (k % 7 == 0) as u8);
    });
    big_bytes(cx, false, true);
    big_frames(cx, &BIG);
}

const BIG: [usize; 12] = [32767, 32768, 65529, 65530, 65534, 65535, 65536, 65537, 131_071, 1 << 20, (1 << 24) - 2, (1 << 24) - 1];

pub fn c03(cx: &mut Cx) {
    let mut k = 0usize;
    cx.each_input(&mut |cx, s, b| {
        k += 1;
        cx.dec(s, b, (k % 11 == 0) as u8)
    });
}

pub fn c04(cx: &mut Cx) {
    let mut k = 0usize;
    cx.each_input(&mut |cx, s, b| {
        k += 1;
        cx.dec(s, b, (k % 3 == 0) as u8)
    });
    let subs = cx.subs.clone();
    for s in subs.iter().filter(|s| s.decode.is_some()) {
        for _ in 0..40 * cx.scale {
            let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
            cx.cut(s, &v);
        }
        if let Ty::Bytes(_, _) | Ty::Str(_) = cx.tab.ty(s.name) {
            // lengths of every magnitude
            for n in [0usize, 1, 2, 31, 32, 127, 128, 254, 255, 256, 257, 1000].iter() {
                let v = match cx.tab.ty(s.name) {
                    Ty::Str(m) if n <= m => V::B(gen::text(*n, &mut cx.rng)),
                    Ty::Bytes(_, m) if n <= m => V::B(gen::blob(*n, &mut cx.rng)),
                    _ => continue,
                };
                cx.cut(s, &v);
            }
        }
    }
    // long inputs and huge length claims
    for s in subs.iter().filter(|s| s.decode.is_some()) {
        for _ in 0..30 * cx.scale {
            let n = 200 + cx.rng.below(4000);
            let mut b = gen::blob(n, &mut cx.rng);
            if cx.rng.chance(1, 2) {
                for x in b.iter_mut().take(8) {
                    *x = 0xff;
                }
            }
            cx.dec(s, &b, 0);
        }
    }
}

pub fn c05(cx: &mut Cx) {
    let subs = cx.subs.clone();
    for s in &subs {
        let (is_str, max) = match cx.tab.ty(s.name) {
            Ty::Str(m) => (true, *m),
            Ty::Bytes(_, m) => (false, *m),
            _ => continue,
        };
        for n in 0..=(max.min(400) + 300) {
            for _ in 0..4 * cx.scale.min(4) {
                let v = V::B(if is_str { gen::text(n, &mut cx.rng) } else { gen::blob(n, &mut cx.rng) });
                cx.construct(s, &v);
                if fits(cx.tab, s.name, &v) {
                    let b = cx.tab.encode(s.name, &v);
                    cx.dec(s, &b, 0);
                    cx.dec(s, &b, 1);
                }
            }
        }
        if is_str {
            for x in gen::phrases(255) {
                let v = V::B(x);
                cx.construct(s, &v);
                let b = cx.tab.encode(s.name, &v);
                cx.dec(s, &b, 0);
            }
            // text whose number of characters is within the limit while its bytes are not
            for c in ["é", "€", "😀"].iter() {
                for k in 1..=(max + 2) {
                    let v = V::B(c.repeat(k).into_bytes());
                    cx.construct(s, &v);
                    if k * c.len() <= 255 {
                        let b = cx.tab.encode(s.name, &v);
                        cx.dec(s, &b, 0);
                    }
                }
            }
        }
    }
    big_lengths(cx);
    u24(cx);
    // members of messages
    let tab = cx.tab;
    for s in subs.iter().filter(|s| matches!(tab.ty(s.name), Ty::Msg(_, _))) {
        let layout = match cx.tab.ty(s.name) {
            Ty::Msg(l, _) => l.clone(),
            _ => continue,
        };
        for v in cx.shapes(s.name) {
            cx.construct(s, &v);
        }
        for (i, (_, ft)) in layout.iter().enumerate() {
            let (is_str, max) = match cx.tab.ty(ft) {
                Ty::Str(m) => (true, *m),
                Ty::Bytes(_, m) => (false, *m),
                _ => continue,
            };
            for n in (0..=max + 40).chain([max + 1, max + 2, 2 * max, 511, 512, 513, 768, 1000].iter().cloned()) {
                let mut v = gen::value(cx.tab, s.name, true, &mut cx.rng);
                if let V::Seq(fs) = &mut v {
                    fs[i] = V::B(if is_str { gen::text(n, &mut cx.rng) } else { gen::blob(n, &mut cx.rng) });
                }
                cx.construct(s, &v);
                if fits(cx.tab, s.name, &v) {
                    let b = cx.tab.encode(s.name, &v);
                    cx.dec(s, &b, 0);
                }
            }
        }
    }
}

/// The two types whose contents are too long to show to TLC byte by byte.
fn big_lengths(cx: &mut Cx) {
    let subs = cx.subs.clone();
    let m24 = 1usize << 24;
    for (name, lens) in [
        ("B0_64K", vec![0usize, 255, 256, 257, 32767, 32768, 65279, 65280, 65534, 65535, 65536, 65537, 65791, 131071, 131072, m24, m24 + 5]),
        ("B0_16M", vec![0, 255, 256, 65535, 65536, 65537, 1 << 20, (1 << 23) - 1, 1 << 23, m24 - 256, m24 - 2, m24 - 1, m24, m24 + 1, m24 + 255, m24 + 65536]),
        ("B0_255", vec![255, 256, 257, 511, 512, 65536]),
        ("B0_32", vec![32, 33, 256, 288, 65536]),
        ("B0_31", vec![31, 32, 256, 287, 65536]),
    ]
    .iter()
    {
        let s = subs.iter().find(|s| s.name == *name).unwrap();
        for n in lens {
            let mut body = vec![0u8; *n];
            for (i, x) in body.iter_mut().enumerate() {
                *x = (i as u32).wrapping_mul(2654435761) as u8 ^ (i >> 8) as u8;
            }
            let v = V::B(body);
            let r = (s.construct)(&v, &mut cx.rng);
            let same = r.ok().map_or(true, |m| m.out == v);
            let lf = r.ok().map_or(-1, |m| m.lf[0]);
            cx.key("newbig", name, &n.to_le_bytes());
            let e = Ev::new("newbig").s("t", name).i("len", *n as i64).s("r", r.tag()).s("kind", r.kind()).t("same", same).i("lf", lf);
            cx.sink.force(e.end());
            if fits(cx.tab, name, &v) {
                let b = cx.tab.encode(name, &v);
                let r = (s.decode.unwrap())(&b, 0);
                let same = r.ok().map_or(true, |m| m.out == v);
                let lf = r.ok().map_or(-1, |m| m.lf[0]);
                let e = Ev::new("newbig").s("t", name).i("len", *n as i64).s("r", r.tag()).s("kind", r.kind()).t("same", same).i("lf", lf);
                cx.sink.force(e.end());
            }
        }
    }
}

/// Long byte strings: header shown to TLC, body compared natively.
fn big_bytes(cx: &mut Cx, enc: bool, rt: bool) {
    let subs = cx.subs.clone();
    let m24 = 1usize << 24;
    for (name, ln, lens) in [
        ("B0_64K", 2usize, vec![300usize, 1000, 4096, 32767, 32768, 40000, 65279, 65280, 65281, 65534, 65535]),
        ("B0_16M", 3, vec![300, 65535, 65536, 65537, 100_000, 131_072, 1 << 20, (1 << 23) - 1, 1 << 23, m24 - 257, m24 - 256, m24 - 2, m24 - 1]),
    ]
    .iter()
    {
        let s = subs.iter().find(|s| s.name == *name).unwrap();
        for n in lens {
            let mut body = vec![0u8; *n];
            for (i, x) in body.iter_mut().enumerate() {
                *x = (i as u32).wrapping_mul(2654435761).rotate_left(7) as u8;
            }
            let v = V::B(body);
            let r = (s.construct)(&v, &mut cx.rng);
            let m = match &r {
                R::Ok(m) => m,
                _ => {
                    let e = Ev::new("encbig").s("t", name).i("len", *n as i64).s("r", r.tag());
                    cx.sink.force(e.end());
                    continue;
                }
            };
            cx.key("encbig", name, &n.to_le_bytes());
            if enc {
                let body_ok = m.bytes.len() == ln + n && m.bytes[*ln..] == v.b()[..];
                let head: Vec<u8> = m.bytes.iter().take(*ln).cloned().collect();
                let e = Ev::new("encbig").s("t", name).i("len", *n as i64).s("r", "ok").bytes("head", &head).t("body", body_ok)
                    .i("n", m.n).i("total", m.bytes.len() as i64).t("same", m.same);
                cx.sink.force(e.end());
            }
            if rt {
                for extra in [0usize, 5].iter() {
                    let mut b = m.bytes.clone();
                    b.extend(vec![0xaa; *extra]);
                    let d = (s.decode.unwrap())(&b, 0);
                    let same = d.ok().map_or(false, |d| d.out == v);
                    let used = d.ok().map_or(-1, |d| d.used);
                    let e = Ev::new("rtbig").s("t", name).i("len", *n as i64).s("r", d.tag()).t("same", same).i("used", used).i("total", m.bytes.len() as i64);
                    cx.sink.force(e.end());
                }
            }
        }
    }
}

fn u24(cx: &mut Cx) {
    let mut xs: Vec<u64> = vec![];
    for p in 0..64 {
        let b = 1u64 << p;
        xs.extend_from_slice(&[b - 1, b, b.wrapping_add(1)]);
        for q in [0u32, 8, 16, 23, 24, 31, 32].iter() {
            xs.push(b | 1 << q);
        }
    }
    xs.push(u64::MAX);
    xs.push(u64::MAX - 1);
    for _ in 0..4000 * cx.scale {
        let n = 1 + cx.rng.below(8);
        xs.push(gen::int(n, &mut cx.rng).iter().fold(0, |a, d| a << 8 | *d as u64));
    }
    for x in xs {
        for route in ["new", "u32", "usize"].iter() {
            if *route != "usize" && x > u32::MAX as u64 {
                continue;
            }
            let r = run(|| {
                let u = match *route {
                    "new" => U24::new(x as u32)?,
                    "u32" => U24::try_from(x as u32)?,
                    _ => U24::try_from(x as usize)?,
                };
                let back: u32 = u.clone().into();
                let back2: usize = u.clone().into();
                let eq = u == back && back == u && u.0 == back && back2 as u64 == back as u64;
                Ok((back, eq, serialize(&u)?))
            });
            cx.key("u24", route, &x.to_le_bytes());
            let want = x < 1 << 24;
            let bad = match &r {
                R::Ok(o) => !want || o.0 as u64 != x || !o.1,
                R::Err(e) => want || e.kind != "Requirement",
                R::Panic => true,
            };
            let mut e = Ev::new("u24").s("route", route).bytes("arg", &digits(x, 8)).s("r", r.tag()).s("kind", r.kind());
            if let R::Ok(o) = &r {
                e = e.bytes("out", &digits(o.0 as u64, 8)).t("eq", o.1);
            }
            cx.sink.offer(&format!("u24/{}/{}", route, r.tag()), e.end(), bad);
        }
    }
    // all 2^24 values natively, through the constructor and the codec
    if cx.scale >= 1 {
        let mut wrong = 0u64;
        let mut first = 0u32;
        for x in 0..1u32 << 24 {
            let ok = match U24::new(x) {
                Ok(u) => {
                    let mut b = [0u8; 3];
                    let mut w = &mut b[..];
                    u.0 == x && u.serialize(&mut w).map_or(false, |n| n == 3) && b == x.to_le_bytes()[..3]
                        && deserialize::<U24>(&b).map_or(false, |y| y.0 == x)
                }
                Err(_) => false,
            };
            if !ok {
                if wrong == 0 {
                    first = x;
                }
                wrong += 1;
            }
        }
        cx.sink.note("u24_exhaustive", 1 << 24);
        cx.sink.force(Ev::new("u24all").i("wrong", wrong as i64).i("first", first as i64).end());
    }
}

pub fn c06(cx: &mut Cx) {
    let subs: Vec<Sub> = cx.subs.iter().filter(|s| matches!(cx.tab.ty(s.name), Ty::Msg(_, _) | Ty::Sum)).cloned().collect();
    for s in &subs {
        // all combinations of the deciding fields
        let bodies: Vec<(Option<String>, String)> = match cx.tab.ty(s.name) {
            Ty::Sum => cx.tab.sum_body.iter().map(|(k, b)| (Some(k.clone()), b.clone())).collect(),
            _ => vec![(None, s.name.to_string())],
        };
        for (proto, body) in bodies {
            let (layout, rule) = match cx.tab.ty(&body) {
                Ty::Msg(l, r) => (l.clone(), r.clone()),
                _ => continue,
            };
            let mut vs: Vec<V> = cx.shapes(&body);
            match rule.as_str() {
                "setup" => {
                    for mn in [0u64, 1, 2, 3, 255, 256, 257, 512, 32768, 65534, 65535].iter() {
                        for mx in [0u64, 1, 2, 3, 255, 256, 257, 512, 32768, 65534, 65535].iter() {
                            for (a, b) in [(0usize, 0usize), (0, 4), (4, 0), (1, 1), (255, 255), (256, 1), (1, 256)].iter() {
                                let mut v = gen::value(cx.tab, &body, true, &mut cx.rng);
                                if let V::Seq(f) = &mut v {
                                    f[0] = V::B(digits(*mn, 2));
                                    f[1] = V::B(digits(*mx, 2));
                                    f[5] = V::B(gen::text(*a, &mut cx.rng));
                                    f[7] = V::B(gen::text(*b, &mut cx.rng));
                                }
                                vs.push(v);
                            }
                        }
                    }
                    // fields that must not matter may be empty, in every combination
                    for mask in 0..8 {
                        for fl in 0..8u64 {
                            let mut v = gen::value(cx.tab, &body, true, &mut cx.rng);
                            if let V::Seq(f) = &mut v {
                                for (k, i) in [3usize, 6, 8].iter().enumerate() {
                                    if mask >> k & 1 == 1 {
                                        f[*i] = V::B(vec![]);
                                    }
                                }
                                if cx.tab.construct_errs(&layout[2].1, &V::B(digits(fl, 4))).none() {
                                    f[2] = V::B(digits(fl, 4));
                                }
                                f[4] = V::B(digits(*cx.rng.pick(&[0u64, 1, 80, 65535]), 2));
                            }
                            vs.push(v);
                        }
                    }
                    // vendor and firmware that look empty but are not
                    for t in [" ", "\0", "\t", "\n", "\u{a0}", "\u{200b}", "\u{feff}", "0", "  ", "."].iter() {
                        let mut v = gen::value(cx.tab, &body, true, &mut cx.rng);
                        if let V::Seq(f) = &mut v {
                            f[5] = V::B(t.as_bytes().to_vec());
                            vs.push(V::Seq(f.clone()));
                            f[7] = V::B(t.as_bytes().to_vec());
                        }
                        vs.push(v);
                    }
                    // any single character is a name
                    let base = gen::value(cx.tab, &body, true, &mut cx.rng);
                    for c in (0..128u8).map(char::from).chain(gen::beyond_ascii(cx.scale > 1)) {
                        let mut v = base.clone();
                        if let V::Seq(f) = &mut v {
                            f[5] = V::B(c.to_string().into_bytes());
                            f[7] = f[5].clone();
                        }
                        vs.push(v);
                    }
                    // every version there is
                    for x in (0..65536u64).step_by(if cx.scale > 1 { 1 } else { 3 }) {
                        let mut v = base.clone();
                        if let V::Seq(f) = &mut v {
                            f[0] = V::B(digits(x, 2));
                            f[1] = V::B(digits(if x % 2 == 0 { x } else { 2 + x * 7919 % 60000 }, 2));
                        }
                        vs.push(v);
                    }
                    for mn in 0..40u64 {
                        for mx in 0..40u64 {
                            let mut v = gen::value(cx.tab, &body, true, &mut cx.rng);
                            if let V::Seq(f) = &mut v {
                                f[0] = V::B(digits(mn, 2));
                                f[1] = V::B(digits(mx, 2));
                            }
                            vs.push(v);
                        }
                    }
                }
                "setuperr" => {
                    for fl in 0..8u64 {
                        if cx.tab.construct_errs(&layout[0].1, &V::B(digits(fl, 4))).none() {
                            for c in SETUP_CODES.iter() {
                                vs.push(V::Seq(vec![V::B(digits(fl, 4)), V::Name(setup_code_name(c).into())]));
                            }
                        }
                    }
                }
                "window" => {
                    let pool = [0u64, 1, 2, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
                    for a in pool.iter() {
                        for b in pool.iter() {
                            let mut v = gen::value(cx.tab, &body, true, &mut cx.rng);
                            if let V::Seq(f) = &mut v {
                                f[1] = V::B(digits(*a, 4));
                                f[2] = V::B(digits(*b, 4));
                            }
                            vs.push(v);
                        }
                    }
                }
                _ => {}
            }
            for _ in 0..2500 * cx.scale {
                vs.push(gen::value(cx.tab, &body, false, &mut cx.rng));
            }
            for v in vs {
                let v = match &proto {
                    Some(p) => V::Seq(vec![V::Name(p.clone()), v]),
                    None => v,
                };
                cx.construct(s, &v);
                if s.decode.is_some() && fits(cx.tab, s.name, &v) {
                    let b = cx.tab.encode(s.name, &v);
                    cx.dec(s, &b, 0);
                }
            }
        }
    }
}

pub fn c07(cx: &mut Cx) {
    // the registry, as the code states it
    for (n, m) in MESSAGE_TYPES {
        let r = run(|| Ok((m.ext_type(), m.msg_type(), m.channel_bit())));
        cx.key("reg", n, &[]);
        let mut e = Ev::new("reg").s("name", n).s("r", r.tag());
        if let R::Ok((a, b, c)) = r {
            e = e.i("ext", a as i64).i("mt", b as i64).t("ch", c);
        }
        cx.sink.force(e.end());
    }
    // MessageType::new on all 2^24 (extension, type) pairs, including extensions over 15 bits
    let mut acc: Vec<String> = vec![];
    let mut odd: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
    for ext in 0..=u16::MAX {
        for mt in 0..=u8::MAX {
            match run(|| MessageType::new(ext, mt)) {
                R::Ok(m) => acc.push(format!("[{},{},\"{}\"]", ext, mt, message_type_name(&m))),
                R::Err(e) if e.kind == "UnknownMessageType" => {}
                r => {
                    let k = if r.tag() == "err" { r.kind() } else { r.tag() };
                    let o = odd.entry(k.into()).or_insert((0, 0));
                    o.0 += 1;
                    o.1 = (ext as u64) << 8 | mt as u64;
                }
            }
        }
    }
    cx.sink.evaluations += 1 << 24;
    let odds: Vec<String> = odd.iter().map(|(k, (n, ex))| format!("[\"{}\",{},{}]", k, n.min(&1_000_000_000), ex)).collect();
    acc.truncate(3000);
    cx.sink.force(Ev::new("regnew").raw("acc", &format!("[{}]", acc.join(","))).raw("odd", &format!("[{}]", odds.join(","))).end());
    // frame headers: all 2^24, with an empty and a short payload
    for body in [&[0u8, 0, 0][..], &[2, 0, 0, 7, 9]].iter() {
        let mut acc: Vec<String> = vec![];
        let mut chan: std::collections::BTreeMap<(u16, u8), ()> = Default::default();
        let mut odd: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
        let mut buf = vec![0u8; 3 + body.len()];
        buf[3..].copy_from_slice(body);
        for h in 0..1u32 << 24 {
            buf[..3].copy_from_slice(&h.to_le_bytes()[..3]);
            let raw = (h & 0xffff) as u16;
            let mt = (h >> 16) as u8;
            let r = run(|| deserialize::<Message>(&buf));
            match &r {
                R::Ok(m) => {
                    let ok = m.payload == body[3..];
                    acc.push(format!("[{},{},\"{}\",{}]", raw, mt, message_type_name(&m.message_type), ok));
                }
                R::Err(e) if e.kind == "UnknownMessageType" => {}
                R::Err(e) if e.kind == "UnexpectedChannelBit" => {
                    chan.insert((raw, mt), ());
                }
                _ => {
                    let k = if r.tag() == "err" { r.kind() } else { r.tag() };
                    let o = odd.entry(k.into()).or_insert((0, 0));
                    o.0 += 1;
                    o.1 = h as u64;
                }
            }
        }
        cx.sink.evaluations += 1 << 24;
        cx.sink.note("headers", 1 << 24);
        let chans: Vec<String> = chan.keys().take(3000).map(|(a, b)| format!("[{},{}]", a, b)).collect();
        let odds: Vec<String> = odd.iter().map(|(k, (n, ex))| format!("[\"{}\",{},{}]", k, n.min(&1_000_000_000), ex)).collect();
        acc.truncate(3000);
        cx.sink.force(
            Ev::new("headers").raw("acc", &format!("[{}]", acc.join(","))).raw("chan", &format!("[{}]", chans.join(","))).raw("odd", &format!("[{}]", odds.join(","))).end(),
        );
    }
    // headers written: every type with payloads of many lengths
    let lens: Vec<usize> = (0..300).chain([511, 512, 1000, 32767, 32768, 65535, 65536, 70000].iter().cloned()).collect();
    for (n, m) in MESSAGE_TYPES {
        for l in &lens {
            let msg = Message::new(*m, vec![0x5a; *l]);
            let r = run(|| serialize(&msg));
            cx.key("hdrout", n, &l.to_le_bytes());
            let mut e = Ev::new("hdrout").s("name", n).s("r", r.tag());
            let mut bad = true;
            if let R::Ok(b) = &r {
                let h: Vec<u8> = b.iter().take(3).cloned().collect();
                let reg = cx.tab.registry[*n];
                bad = h != [(reg.0 | (reg.2 as u16) << 15).to_le_bytes()[0], (reg.0 | (reg.2 as u16) << 15).to_le_bytes()[1], reg.1];
                e = e.bytes("hdr", &h);
            }
            cx.sink.offer(&format!("hdrout/{}", n), e.end(), bad);
        }
    }
    // every message class travels under its own type, whatever it contains
    let subs = cx.subs.clone();
    for s in subs.iter().filter(|s| s.frame.is_some()) {
        let want = cx.tab.frame_type[s.name].clone();
        let st = message_type_name(&(s.mtype.unwrap())());
        for i in 0..600 * cx.scale {
            let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
            let r = (s.frame.unwrap())(&v, &mut cx.rng);
            let mt = r.ok().map_or("-", |m| message_type_name(&m.0.message_type));
            cx.key("ftype", s.name, &(i as u64).to_le_bytes());
            let bad = mt != want || st != want;
            let e = Ev::new("ftype").s("t", s.name).s("r", r.tag()).s("mt", mt).s("static", st);
            cx.sink.offer(&format!("ftype/{}", s.name), e.end(), bad);
        }
    }
}

struct Tap {
    head: Vec<u8>,
    seen: u64,
    expect: Vec<u8>,
    same: bool,
    rep: u8,
}
impl std::io::Write for Tap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        for (i, x) in b.iter().enumerate() {
            let p = self.seen as usize + i;
            if p < 6 {
                self.head.push(*x);
            } else if p - 6 < self.expect.len() {
                self.same &= *x == self.expect[p - 6];
            } else {
                // only the first and last megabyte of a large zero payload is looked at
                if i < 1 << 20 || b.len() - i < 1 << 20 {
                    self.same &= *x == self.rep;
                }
            }
            if i > 1 << 20 && b.len() - i > 1 << 20 {
                continue;
            }
        }
        self.seen += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// An application's own classes, of every type and with bodies of any size and content, framed and
/// unframed as what they are and as others; and classes that give up while they are written.
fn own_classes(cx: &mut Cx) {
    use crate::own::{own_frame, own_unframe};
    let mut lens: Vec<usize> = (0..70).collect();
    lens.extend_from_slice(&[127, 128, 250, 252, 253, 255, 256, 257, 509, 1000, 1021, 1024, 4093, 4096, 16381, 65000, 65516, 65519, 65532, 65533, 65535, 65536, 70_000]);
    lens.extend((0..20 * cx.scale).map(|i| 300 + i * 3301));
    let mut big = vec![200_000usize, 1 << 20, (1 << 24) - 4];
    if cx.scale > 1 {
        big.extend_from_slice(&[(1 << 23) - 4, (1 << 23) - 3, (1 << 24) - 260]);
    }
    let kinds = MESSAGE_TYPES.len();
    let mut turn = 0usize;
    for l in lens.iter().chain(&big) {
        // content, and what it ends with
        let ends: &[u8] = if *l > 1 << 19 { &[0] } else { &[0, 1, 2, 3] };
        for end in ends {
            let mut body = match end {
                0 => vec![0u8; *l],
                1 => vec![0xff; *l],
                _ => cx.rng.bytes(*l),
            };
            let z = (1 + cx.rng.below(40)).min(*l);
            if *end == 3 {
                let fill = *cx.rng.pick(&[0u8, 0, 0, 0x0a, 0x20, 0xff]);
                body[l - z..].iter_mut().for_each(|x| *x = fill);
            }
            for _ in 0..if *l < 300 { 3 } else { 1 } {
                turn += 1;
                let k = turn % kinds;
                let fail = if *end == 2 && turn % 3 == 0 { Some(cx.rng.below(*l + 2)) } else { None };
                let fr = own_frame(k, &body, fail);
                let mut want = (*l as u32).to_le_bytes()[..3].to_vec();
                want.extend_from_slice(&body);
                let mut payload = false;
                let mut mt = "none";
                let mut own = "none";
                let mut same = false;
                let mut other = "none";
                let mut kind = "none";
                let mut after = true;
                let mut ask = MESSAGE_TYPES[k].0;
                if let R::Ok(m) = &fr {
                    payload = m.payload == want;
                    mt = message_type_name(&m.message_type);
                    let u = own_unframe(k, m);
                    own = u.tag();
                    same = u.ok() == Some(&body);
                    let j = (k + 1 + cx.rng.below(kinds - 1)) % kinds;
                    ask = MESSAGE_TYPES[j].0;
                    let o = own_unframe(j, m);
                    other = o.tag();
                    kind = o.kind();
                    // bytes after the message are not its business
                    if *l < 1 << 20 {
                        let mut p = m.payload.clone();
                        let tail = 1 + cx.rng.below(30);
                        p.extend(vec![*cx.rng.pick(&[0u8, 1, 0xff]); tail]);
                        after = own_unframe(k, &Message::new(m.message_type, p)).ok() == Some(&body);
                    }
                }
                cx.key("own", MESSAGE_TYPES[k].0, &[&body[..(*l).min(64)], &l.to_le_bytes()[..]].concat());
                let bad = match fail {
                    None => !(payload && same && after) || mt != MESSAGE_TYPES[k].0 || other != "err" || kind != "UnexpectedMessageType",
                    Some(_) => fr.tag() != "err" || fr.kind() != "Unimplemented",
                };
                let class = format!("own/{}/{}", end, fail.is_some());
                if bad || cx.sink.wants(&class) {
                    let e = Ev::new("own").s("t", MESSAGE_TYPES[k].0).i("len", *l as i64).t("gave_up", fail.is_some()).s("r", fr.tag()).s("rkind", fr.kind())
                        .s("mt", mt).t("payload", payload).s("own", own).t("same", same).t("after", after).s("ask", ask).s("other", other).s("kind", kind);
                    cx.sink.put(&class, e.end(), bad);
                }
            }
        }
    }
}

pub fn c08(cx: &mut Cx) {
    let subs: Vec<Sub> = cx.subs.iter().filter(|s| s.frame.is_some()).cloned().collect();
    let names: Vec<&str> = MESSAGE_TYPES.iter().map(|x| x.0).collect();
    // framing of every message class
    for s in &subs {
        for _ in 0..2000 * cx.scale {
            let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
            let r = (s.frame.unwrap())(&v, &mut cx.rng);
            let (m, own) = match &r {
                R::Ok(x) => x,
                _ => continue,
            };
            let wire = run(|| serialize(m));
            let back = match &wire {
                R::Ok(b) => run(|| deserialize::<Message>(b)),
                _ => R::Panic,
            };
            let un = match &back {
                R::Ok(m2) => (s.unframe.unwrap())(m2),
                _ => R::Panic,
            };
            let enc = cx.tab.encode(s.name, &v);
            cx.key("frame", s.name, &enc);
            let ft = cx.tab.frame_type[s.name].clone();
            let bad = m.payload != *own || message_type_name(&m.message_type) != ft
                || wire.ok().map_or(true, |b| *b != cx.tab.encode("Message", &V::Seq(vec![V::Name(ft.clone()), V::B(own.clone())])))
                || back.ok() != Some(m) || un.ok() != Some(&v);
            let class = format!("frame/{}", s.name);
            if bad || cx.sink.wants(&class) {
                let mut e = Ev::new("frame").s("t", s.name).v("v", &v).bytes("own", own).s("mt", message_type_name(&m.message_type)).bytes("payload", &m.payload)
                    .s("rw", wire.tag()).s("rb", back.tag()).s("ru", un.tag());
                if let R::Ok(b) = &wire {
                    e = e.bytes("wire", b);
                }
                if let R::Ok(b) = &back {
                    e = e.v("back", &b.proj());
                }
                if let R::Ok(b) = &un {
                    e = e.v("un", b);
                }
                cx.sink.put(&class, e.end(), bad);
            }
        }
        // unframing frames of every type: with the right payload, with other payloads, with noise
        for (k, n) in names.iter().enumerate() {
            for round in 0..(60 * cx.scale) {
                let payload = match round % 6 {
                    0 | 1 => {
                        let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
                        cx.tab.encode(s.name, &v)
                    }
                    2 => {
                        let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
                        let mut b = cx.tab.encode(s.name, &v);
                        b.extend(vec![round as u8; 1 + round % 5]);
                        b
                    }
                    3 => {
                        let o = &subs[(k + round) % subs.len()];
                        let v = gen::value(cx.tab, o.name, true, &mut cx.rng);
                        cx.tab.encode(o.name, &v)
                    }
                    4 => vec![],
                    _ => gen::input(cx.tab, s.name, &mut cx.rng),
                };
                let m = Message::new(message_type(n), payload.clone());
                let r = (s.unframe.unwrap())(&m);
                cx.key("unframe", s.name, &[n.as_bytes(), &payload].concat());
                let right = cx.tab.frame_type[s.name] == *n;
                let d = cx.tab.dec(s.name, &payload, 0);
                let bad = match &r {
                    R::Ok(v) => !right || !d.errs.none() || d.v.as_ref() != Some(v),
                    R::Err(e) => {
                        if right {
                            !d.errs.has(e.kind)
                        } else {
                            e.kind != "UnexpectedMessageType"
                        }
                    }
                    R::Panic => true,
                };
                let class = format!("unframe/{}/{}/{}", s.name, right, r.kind());
                if bad || cx.sink.wants(&class) {
                    let mut e = Ev::new("unframe").s("t", s.name).s("mt", n).bytes("payload", &payload).s("r", r.tag()).s("kind", r.kind());
                    if let R::Ok(v) = &r {
                        e = e.v("out", v);
                    }
                    cx.sink.put(&class, e.end(), bad);
                }
            }
        }
    }
    own_classes(cx);
    // raw frames: every type, many payload lengths, decoded with bytes after them
    for n in &names {
        for l in (0..280).chain([511usize, 512, 513, 1023, 1024, 4095, 4096].iter().cloned()) {
            let p = gen::blob(l, &mut cx.rng);
            let v = V::Seq(vec![V::Name(n.to_string()), V::B(p)]);
            let s = *cx.subs.iter().find(|s| s.name == "Message").unwrap();
            cx.enc(&s, &v);
            let suffix = if l % 2 == 0 { vec![] } else { vec![0xee; l % 7] };
            cx.rt(&s, &v, &suffix, 0);
        }
    }
    // long payloads
    let m24 = 1usize << 24;
    let mut lens = vec![65534, 65535, 65536, 65537, 131_071, 131_072, 1 << 20, (1 << 23) - 1, 1 << 23, m24 - 256, m24 - 2, m24 - 1];
    lens.extend_from_slice(&[m24, m24 + 1, m24 + 255, m24 + 65536, 2 * m24, 2 * m24 + 7]);
    lens.extend_from_slice(&[(1usize << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 300, (1usize << 32) + m24 - 1]);
    if cx.scale > 1 {
        lens.extend_from_slice(&[1 << 33, (1usize << 33) + 9, 1usize << 31, (1usize << 31) + 5, (1usize << 32) + m24]);
    }
    big_frames(cx, &lens);
}

fn big_frames(cx: &mut Cx, lens: &[usize]) {
    let names: Vec<&str> = MESSAGE_TYPES.iter().map(|x| x.0).collect();
    let m24 = 1usize << 24;
    for (i, l) in lens.iter().enumerate() {
        let n = names[i % names.len()];
        // zero pages are not touched unless read, so this is cheap in memory
        let mut payload = vec![0u8; *l];
        if *l <= 2 * m24 + 7 {
            for (i, x) in payload.iter_mut().enumerate() {
                *x = (i as u32).wrapping_mul(2654435761).rotate_left(9) as u8;
            }
        }
        let expect = if *l <= 2 * m24 + 7 { payload.clone() } else { vec![] };
        let m = Message::new(message_type(n), payload);
        let mut tap = Tap { head: vec![], seen: 0, expect, same: true, rep: 0 };
        let r = run(|| m.serialize(&mut tap));
        let mut same_back = true;
        if let (R::Ok(_), true) = (&r, *l < m24) {
            same_back = match run(|| deserialize::<Message>(&serialize(&m)?)) {
                R::Ok(b) => b == m,
                _ => false,
            };
        }
        cx.key("framebig", n, &l.to_le_bytes());
        let e = Ev::new("framebig").s("mt", n).bytes("len", &digits(*l as u64, 8)).s("r", r.tag()).s("kind", r.kind()).bytes("head", &tap.head)
            .bytes("seen", &digits(tap.seen, 8)).bytes("n", &digits(r.ok().map_or(0, |x| *x as u64), 8)).t("body", tap.same).t("back", same_back);
        cx.sink.force(e.end());
    }
}

pub fn c23(cx: &mut Cx) {
    let mut k = 0usize;
    cx.each_input(&mut |cx, s, b| {
        k += 1;
        cx.dec(s, b, (k % 5 == 0) as u8)
    });
    c06(cx);
    // what other calls return
    let mut evs: Vec<(String, &'static str, R<()>)> = vec![];
    let fr = |m: Message| run(|| stratumv2::codec::unframe::<stratumv2::mining::UpdateChannel>(&m).map(|_| ()));
    evs.push(("unframe wrong type".into(), "UnexpectedMessageType", fr(Message::new(MessageType::SetupConnection, vec![0; 40]))));
    evs.push(("unframe truncated".into(), "Parse", fr(Message::new(MessageType::UpdateChannel, vec![0; 39]))));
    evs.push(("frame too long".into(), "Requirement", run(|| serialize(&Message::new(MessageType::UpdateChannel, vec![0; 1 << 24])).map(|_| ()))));
    evs.push(("u24".into(), "Requirement", run(|| U24::new(1 << 24).map(|_| ()))));
    evs.push(("parser".into(), "Parse", run(|| stratumv2::codec::ByteParser::new(&[1, 2], 0).next_by(3).map(|_| ()))));
    evs.push(("parser start".into(), "Parse", run(|| stratumv2::codec::ByteParser::new(&[1, 2], 3).next_by(1).map(|_| ()))));
    for c in ["", "x", "unknown-user ", "UNKNOWN-USER"].iter() {
        evs.push(("code".into(), "UnknownErrorCode", run(|| OpenMiningChannelErrorCode::from_str(c).map(|_| ()))));
        evs.push(("code".into(), "UnknownErrorCode", run(|| SetupConnectionErrorCode::from_str(c).map(|_| ()))));
    }
    let before = std::time::UNIX_EPOCH - std::time::Duration::from_secs(5);
    evs.push(("time before the epoch".into(), "*", run(|| stratumv2::types::system_unix_time_to_u32(&before).map(|_| ()))));
    let pk = some_public_key();
    let snm = crate::cert::plain_snm(2, 1, 9);
    for (k, want) in [("", "*"), ("0OIl", "*"), ("1111", "*"), ("zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "*")].iter() {
        evs.push((format!("authority key {:?}", k), want, run(|| stratumv2::noise::CertificateFormat::new(k, &pk, &snm).map(|_| ()))));
    }
    for (what, want, r) in evs {
        cx.key("errkind", &what, &[]);
        let e = r.err();
        cx.sink.force(Ev::new("errkind").s("what", &what).s("want", want).s("r", r.tag()).s("kind", e.kind).i("chain", e.chain).t("shown", e.shown).end());
    }
    // errors of the noise layer, and the same wrapped in the library's error
    for (what, r) in crate::noise::error_zoo() {
        cx.key("noiseerr", &what, &[]);
        cx.sink.force(Ev::new("errkind").s("what", &what).s("want", "Noise").s("r", r.tag()).s("kind", r.kind()).i("chain", r.err().chain).t("shown", r.err().shown).end());
    }
}

pub fn c24(cx: &mut Cx) {
    let mut strings: Vec<String> = vec!["".into(), "-".into(), "unknown".into(), "unsupported".into()];
    let mut all: Vec<(String, String)> = vec![];
    for t in ["SetupErrorCode", "OpenChannelErrorCode"].iter() {
        if let Ty::Code(names) = cx.tab.ty(t) {
            for (n, s) in names {
                all.push((n.clone(), String::from_utf8(s.clone()).unwrap()));
            }
        }
    }
    for (n, s) in &all {
        let cs: Vec<char> = s.chars().collect();
        strings.push(s.clone());
        strings.push(n.clone());
        strings.push(s.to_uppercase());
        strings.push(s.replace("-", "_"));
        strings.push(s.replace("-", " "));
        strings.push(s.replace("-", ""));
        for pad in [" ", "\0", "\n", "\t", "-", "\u{feff}", "\u{a0}"].iter() {
            strings.push(format!("{}{}", s, pad));
            strings.push(format!("{}{}", pad, s));
        }
        for i in 0..cs.len() {
            let mut d = cs.clone();
            d.remove(i);
            strings.push(d.iter().collect());
            strings.push(cs[..i].iter().collect());
            strings.push(cs[i..].iter().collect());
            for x in (0u8..128).map(|b| b as char).chain(['é', 'ı', 'K', '\u{301}', '‐'].iter().cloned()) {
                let mut d = cs.clone();
                d[i] = x;
                strings.push(d.iter().collect());
                let mut d = cs.clone();
                d.insert(i, x);
                strings.push(d.iter().collect());
            }
            if i + 1 < cs.len() {
                let mut d = cs.clone();
                d.swap(i, i + 1);
                strings.push(d.iter().collect());
            }
        }
        for (_, o) in &all {
            strings.push(format!("{}{}", s, o));
        }
    }
    for _ in 0..2000 * cx.scale {
        let n = gen::len(255, false, &mut cx.rng);
        strings.push(String::from_utf8(gen::text(n, &mut cx.rng)).unwrap());
    }
    // every other character there is, at the front, at the end, and at the first dash: what any route takes is looked at below
    let mut taken: Vec<String> = vec![];
    for t in ["SetupErrorCode", "OpenChannelErrorCode"].iter() {
        let names = match cx.tab.ty(t) {
            Ty::Code(n) => n.clone(),
            _ => continue,
        };
        let own = *t == "SetupErrorCode";
        for (k, (_, s)) in names.iter().enumerate() {
            let s = String::from_utf8(s.clone()).unwrap();
            let dash = s.find('-').unwrap_or(0);
            for c in gen::beyond_ascii(true) {
                for place in 0..4 {
                    let st = match place {
                        0 => format!("{}{}", c, s),
                        1 => format!("{}{}", s, c),
                        2 => format!("{}{}{}", &s[..dash], c, &s[dash..]),
                        _ => format!("{}{}{}", &s[..dash], c, &s[(dash + 1).min(s.len())..]),
                    };
                    let odd = |r: R<()>| match r {
                        R::Err(e) => e.kind != "UnknownErrorCode",
                        _ => true,
                    };
                    let mut hit = odd(run(|| if own { SetupConnectionErrorCode::from_str(&st).map(|_| ()) } else { OpenMiningChannelErrorCode::from_str(&st).map(|_| ()) }));
                    if k == 0 {
                        let mut b = vec![st.len() as u8];
                        b.extend_from_slice(st.as_bytes());
                        hit |= odd(run(|| if own { deserialize::<SetupConnectionErrorCode>(&b).map(|_| ()) } else { deserialize::<OpenMiningChannelErrorCode>(&b).map(|_| ()) }));
                        cx.sink.evaluations += 1;
                    }
                    cx.sink.evaluations += 1;
                    if hit && taken.len() < 50 {
                        taken.push(st);
                    }
                }
            }
        }
    }
    strings.extend(taken);
    for st in &strings {
        if st.len() > 255 {
            continue;
        }
        for route in ["str", "string", "str0", "wire"].iter() {
            macro_rules! go {
                ($t:ty, $name:ident) => {
                    run(|| {
                        Ok($name(&match *route {
                            "str" => <$t>::from_str(st)?,
                            "string" => <$t>::try_from(st.clone())?,
                            "str0" => <$t>::try_from(STR0_255::new(st.as_str())?)?,
                            _ => {
                                let mut b = vec![st.len() as u8];
                                b.extend_from_slice(st.as_bytes());
                                deserialize::<$t>(&b)?
                            }
                        }))
                    })
                };
            }
            for t in ["SetupErrorCode", "OpenChannelErrorCode"].iter() {
                let r = if *t == "SetupErrorCode" { go!(SetupConnectionErrorCode, setup_code_name) } else { go!(OpenMiningChannelErrorCode, open_code_name) };
                let want = match cx.tab.ty(t) {
                    Ty::Code(n) => n.iter().find(|(_, s)| &s[..] == st.as_bytes()).map(|x| x.0.clone()),
                    _ => None,
                };
                cx.key("code", t, &[route.as_bytes(), st.as_bytes()].concat());
                let bad = match &r {
                    R::Ok(n) => want.as_deref() != Some(*n),
                    R::Err(e) => want.is_some() || e.kind != "UnknownErrorCode",
                    R::Panic => true,
                };
                let e = Ev::new("code").s("t", t).s("route", route).bytes("s", st.as_bytes()).s("r", r.tag()).s("kind", r.kind()).s("out", r.ok().map_or("-", |x| *x));
                cx.sink.offer(&format!("code/{}/{}/{}", t, route, r.tag()), e.end(), bad);
            }
        }
    }
    macro_rules! to {
        ($t:expr, $codes:expr, $name:ident) => {
            for c in $codes.iter() {
                let outs: Vec<(&str, R<(Vec<u8>, i64)>)> = vec![
                    ("display", run(|| Ok((format!("{}", c).into_bytes(), -1)))),
                    ("to_string", run(|| Ok((c.to_string().into_bytes(), -1)))),
                    ("padded", run(|| Ok((format!("{:>40}|{:<40}", c.to_string(), c.to_string()).into_bytes(), -1)))),
                    ("string", run(|| Ok((String::from(c).into_bytes(), -1)))),
                    ("str0", run(|| { let s = STR0_255::from(c); let n = s.length as i64; Ok((s.data.into_bytes(), n)) })),
                    ("wire", run(|| { let b = serialize(c)?; Ok((b[1..].to_vec(), b[0] as i64)) })),
                ];
                for (route, r) in outs {
                    if route == "padded" {
                        continue;
                    }
                    cx.key("codeto", $t, &[route.as_bytes(), $name(c).as_bytes()].concat());
                    let mut e = Ev::new("codeto").s("t", $t).s("name", $name(c)).s("route", route).s("r", r.tag());
                    if let R::Ok((s, n)) = &r {
                        e = e.bytes("s", s).i("len", *n);
                    }
                    cx.sink.force(e.end());
                }
            }
        };
    }
    to!("SetupErrorCode", SETUP_CODES, setup_code_name);
    to!("OpenChannelErrorCode", OPEN_CODES, open_code_name);
    for b in 0..=255u8 {
        for route in ["try_from", "wire"].iter() {
            let r = run(|| Ok(protocol_name(&if *route == "wire" { deserialize::<Protocol>(&[b, 9, 9])? } else { Protocol::try_from(b)? })));
            cx.key("proto", route, &[b]);
            cx.sink.force(Ev::new("proto").s("route", route).i("byte", b as i64).s("r", r.tag()).s("kind", r.kind()).s("out", r.ok().map_or("-", |x| *x)).end());
        }
    }
    for p in PROTOCOLS.iter() {
        for (route, r) in vec![
            ("from", run(|| Ok(u8::from(*p) as i64))),
            ("from_ref", run(|| Ok(u8::from(p) as i64))),
            ("wire", run(|| { let b = serialize(p)?; Ok(if b.len() == 1 { b[0] as i64 } else { -1 }) })),
        ] {
            cx.key("protoid", route, protocol_name(p).as_bytes());
            cx.sink.force(Ev::new("protoid").s("name", protocol_name(p)).s("route", route).s("r", r.tag()).i("byte", r.ok().map_or(-1, |x| *x)).end());
        }
    }
}
