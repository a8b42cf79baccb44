//! Generators of values and byte strings, boundary-directed.
use crate::table::{Tab, Ty};
use crate::val::{digits, Rng, V};

pub fn int(n: usize, r: &mut Rng) -> Vec<u8> {
    let bits = 8 * n as u32;
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let x = match r.below(10) {
        0 => r.below(4) as u64,
        1 => max - r.below(3) as u64,
        2 | 3 => {
            let p = 1u64 << r.below(bits as usize);
            match r.below(3) {
                0 => p,
                1 => p - 1,
                _ => p.wrapping_add(1) & max,
            }
        }
        4 => 0x0102_0304_0506_0708 & max,
        5 => r.below(300) as u64 & max,
        6 => {
            // one byte set
            (r.byte() as u64) << (8 * r.below(n)) & max
        }
        _ => r.next() & max,
    };
    digits(x & max, n)
}

pub fn f32bits(r: &mut Rng) -> Vec<u8> {
    let pool: [u32; 16] = [
        0, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001,
        0x7fff_ffff, 0xffff_ffff, 1, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff,
    ];
    let x = match r.below(4) {
        0 => *r.pick(&pool),
        1 => (r.below(256) as u32) << 23 | (r.next() as u32 & 0x807f_ffff),
        2 => (1234.5f32 * r.below(1000) as f32).to_bits(),
        _ => r.next() as u32,
    };
    digits(x as u64, 4)
}

pub fn len(max: usize, over: bool, r: &mut Rng) -> usize {
    let hi = if over { max + 60 } else { max };
    let l = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max - r.below(3).min(max),
        4 if over => max + 1 + r.below(3),
        5 => {
            let p = 1usize << r.below(9);
            p + 1 - r.below(3)
        }
        6..=9 => r.below(20),
        _ => r.below(hi + 1),
    };
    l.min(hi)
}

const CHARS: &[&str] = &[
    "a", "z", "A", "Z", "0", "9", " ", "\t", "\n", "\r", "\0", "\u{7f}", "-", "_", ".", "{", "}", "{}", "%", "\\", "\"",
    "'", "/", ":", "é", "ß", "İ", "ı", "ſ", "\u{80}", "\u{7ff}", "\u{800}", "€", "\u{feff}", "\u{d7ff}", "\u{e000}",
    "\u{ffff}", "\u{fffd}", "\u{10000}", "\u{10ffff}", "😀", "e\u{301}", "\u{301}", "ﬃ", "中", "\u{200b}", "\u{a0}",
    "\u{2028}", "\u{202e}",
];

/// Whole words as they occur in practice, and sequences that code likes to treat specially.
pub const WORDS: &[&str] = &[
    "0.0.0.0", "127.0.0.1:3333", "[2001:db8::1]", "::1", "[::1]:34254", "::ffff:10.0.0.1", "localhost", "pool.example.com",
    "pool.example.com.", "POOL.Example.COM", "stratum+tcp://", "stratum2+tcp://pool:3336", "http://", "https://a/b?c=d&e=f#g",
    "user:password@host", "worker.1", "bc1qar0srrr7xfkvy5l643lydnw9re59gtzzwf5mdq", "Bitmain", "S9i 13.5",
    "braiins-os-2018-09-22-1-hash", "some-device-uuid", "123e4567-e89b-12d3-a456-426614174000", "\r\n", "\n\n", "\r\r", "\n\r",
    "a\r\nb", "\0\0", "a\0b", "\0", "\t ", "  ", " a", "a ", "\u{feff}a", "%00", "%20", "%s%d%n", "{}", "{0}", "{{", "}}", "{:?}",
    "${x}", "$(x)", "`x`", "\\n", "\\x00", "\\u0041", "\\\\", "\"", "\"quoted\"", "'x'", "<b>", "&amp;", "<!-- -->", "../", "./",
    "/a//b", "C:\\a", "~", "true", "false", "null", "None", "nil", "NaN", "inf", "-0", "+1", "0x10", "1e9", "007", "0", "v2", "2.0",
    "e\u{301}", "\u{e9}", "\u{1100}\u{1161}", "\u{ac00}", "\u{212b}", "\u{c5}", "ß", "SS", "İ", "i\u{307}", "ſ", "ﬁ", "Ⅳ", "²", "½",
    "a\u{200d}b", "👨\u{200d}👩\u{200d}👧", "🇩🇪", "❤\u{fe0f}", "\u{202e}abc", "\u{2066}x\u{2069}", "a\u{ad}b", "\u{85}", "\u{2028}\u{2029}",
    "\u{3000}", "\u{a0}x\u{a0}", "\u{200b}", "\u{e000}", "\u{fdd0}", "\u{1fffe}", "\u{10fffe}", "ÿ", "\u{ff}\u{fe}", "ＡＢ", "аbс",
    "unsupported-feature-flags", "unsupported-protocol", "protocol-version-mismatch", "unknown-user", "max-target-out-of-range",
];

pub fn text(n: usize, r: &mut Rng) -> Vec<u8> {
    let mut s: Vec<u8> = vec![];
    let style = r.below(13);
    if style >= 9 {
        // words: alone, at the front, at the end, all over
        let fill = r.below(3);
        while s.len() < n {
            let w = *r.pick(WORDS);
            let at = match style {
                9 => s.is_empty(),
                10 => s.len() + w.len() == n,
                _ => style == 11 || r.below(2) == 0,
            };
            if at && s.len() + w.len() <= n {
                s.extend_from_slice(w.as_bytes());
            } else {
                s.push(match fill {
                    0 => b'x',
                    1 => b' ',
                    _ => b'a' + r.below(26) as u8,
                });
            }
        }
        return s;
    }
    let one = *r.pick(CHARS);
    while s.len() < n {
        let c: String = match style {
            0 | 1 => (b'a' + r.below(26) as u8) as char,
            2 => (32 + r.below(95) as u8) as char,
            3 => r.below(128) as u8 as char,
            _ => '\0',
        }
        .to_string();
        let c: &str = match style {
            0..=3 => &c,
            4 => one,
            5 | 6 => *r.pick(CHARS),
            7 => {
                if s.is_empty() || s.len() + 1 == n {
                    " "
                } else {
                    "x"
                }
            }
            _ => {
                let x = std::char::from_u32(r.below(0x110000) as u32);
                match x {
                    Some(ch) => {
                        let t = ch.to_string();
                        if s.len() + t.len() <= n {
                            s.extend_from_slice(t.as_bytes());
                        } else {
                            s.push(b'!');
                        }
                        continue;
                    }
                    None => "?",
                }
            }
        };
        if s.len() + c.len() <= n {
            s.extend_from_slice(c.as_bytes());
        } else {
            s.push(b'~');
        }
    }
    s
}

pub fn blob(n: usize, r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        3 => {
            let mut b = r.bytes(n);
            for x in b.iter_mut().rev().take(1 + n / 4) {
                *x = 0;
            }
            b
        }
        4 => {
            let mut b = r.bytes(n);
            for x in b.iter_mut().take(1 + n / 4) {
                *x = 0;
            }
            b
        }
        5 => {
            let mut b = vec![0; n];
            if n > 0 {
                let i = r.below(n);
                b[i] = 1 << r.below(8);
            }
            b
        }
        6 => vec![r.byte(); n],
        _ => r.bytes(n),
    }
}

/// The least (0), greatest (1) or any (2) content of a member of type t.
pub fn extreme(tab: &Tab, t: &str, k: usize, r: &mut Rng) -> V {
    if k == 2 {
        return value(tab, t, true, r);
    }
    let fill = if k == 0 { 0 } else { 0xff };
    match tab.ty(t) {
        Ty::Int(n) => V::B(vec![fill; *n]),
        Ty::Bool => V::Bool(k == 1),
        Ty::Str(max) => {
            let n = if k == 0 { 0 } else { *max };
            V::B(text(n, r))
        }
        Ty::Bytes(_, max) => V::B(vec![fill; if k == 0 { 0 } else { (*max).min(300) }]),
        Ty::Flags(bits) => V::B(digits(if k == 0 { 0 } else { *bits as u64 }, 4)),
        Ty::Code(names) => {
            let ks: Vec<&String> = names.keys().collect();
            V::Name(ks[if k == 0 { 0 } else { ks.len() - 1 }].clone())
        }
        _ => value(tab, t, true, r),
    }
}

/// Every combination of least, greatest and other contents of the members of message t
/// (values that break a rule included).
pub fn combinations(tab: &Tab, t: &str, r: &mut Rng) -> Vec<V> {
    let layout = match tab.ty(t) {
        Ty::Msg(l, _) => l,
        _ => return vec![],
    };
    let total = 3usize.pow(layout.len() as u32);
    (0..total)
        .map(|mut c| {
            V::Seq(
                layout
                    .iter()
                    .map(|(_, ft)| {
                        let k = c % 3;
                        c /= 3;
                        extreme(tab, ft, k, r)
                    })
                    .collect(),
            )
        })
        .collect()
}

/// Words alone, embedded, and doubled, no longer than max bytes.
pub fn phrases(max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for w in WORDS {
        for x in [w.to_string(), format!("x{}", w), format!("{}x", w), format!("x{}y", w), format!("{}{}", w, w), format!("{} ", w)].iter() {
            if x.len() <= max {
                out.push(x.clone().into_bytes());
            }
        }
    }
    out
}

/// A value of type t.  valid: it obeys every rule; otherwise limits and rules may be broken.
pub fn value(tab: &Tab, t: &str, valid: bool, r: &mut Rng) -> V {
    match tab.ty(t) {
        Ty::Int(n) => {
            if t == "f32" {
                V::B(f32bits(r))
            } else {
                V::B(int(*n, r))
            }
        }
        Ty::Raw(n) => {
            let mut b = blob(*n, r);
            if t == "PublicKey" {
                // stay clear of the small-order encodings
                b[15] = 77;
            }
            V::B(b)
        }
        Ty::Sig => {
            let mut b = blob(64, r);
            if valid || r.chance(3, 4) {
                b[63] &= 0x1f;
            }
            V::B(b)
        }
        Ty::Bool => V::Bool(r.chance(1, 2)),
        Ty::Str(max) => {
            let n = len(*max, !valid && r.chance(1, 4), r);
            V::B(text(n, r))
        }
        Ty::Bytes(_, max) => {
            let cap = if *max > 300 { 300 } else { *max };
            let n = len(cap, *max == cap && !valid && r.chance(1, 4), r);
            V::B(blob(n, r))
        }
        Ty::Flags(bits) => {
            let mut x = r.next() as u32 & bits;
            if r.chance(1, 4) {
                x = 0;
            }
            if !valid && r.chance(1, 4) {
                x |= 1 << r.below(32);
            }
            V::B(digits(x as u64, 4))
        }
        Ty::Code(names) => {
            let ks: Vec<&String> = names.keys().collect();
            V::Name((*r.pick(&ks)).clone())
        }
        Ty::Proto => {
            let ks: Vec<&String> = tab.protocols.keys().collect();
            V::Name((*r.pick(&ks)).clone())
        }
        Ty::Msg(layout, rule) => {
            let mut fs: Vec<V> = layout.iter().map(|(_, ft)| value(tab, ft, valid, r)).collect();
            // related fields: make equal-typed fields equal now and then
            if r.chance(1, 6) {
                let i = r.below(fs.len());
                let j = r.below(fs.len());
                if layout[i].1 == layout[j].1 {
                    fs[j] = fs[i].clone();
                }
            }
            match rule.as_str() {
                "setup" => {
                    for i in 0..2 {
                        if fs[i].u() < 2 && (valid || r.chance(3, 4)) {
                            fs[i] = V::B(digits(2 + r.below(2) as u64, 2));
                        }
                    }
                    for i in [5usize, 7].iter() {
                        if fs[*i].b().is_empty() && (valid || r.chance(3, 4)) {
                            fs[*i] = V::B(text(1 + r.below(3), r));
                        }
                    }
                }
                "setuperr" => {
                    if valid && fs[0].u() == 0 && fs[1].name() == "UnsupportedFeatureFlags" {
                        fs[0] = V::B(vec![0, 0, 0, 1]);
                    }
                }
                "window" => {
                    if r.chance(1, 4) && !valid {
                        fs[2] = fs[1].clone();
                    } else if r.chance(1, 3) {
                        let d = fs[1].u() as u32;
                        fs[2] = V::B(digits(d.wrapping_add(1) as u64, 4));
                    }
                    if valid && fs[1].u() >= fs[2].u() {
                        fs.swap(1, 2);
                        if fs[1].u() >= fs[2].u() {
                            let d = fs[1].u();
                            if d == 0xffff_ffff {
                                fs[1] = V::B(digits(d - 1, 4));
                            } else {
                                fs[2] = V::B(digits(d + 1, 4));
                            }
                        }
                    }
                }
                _ => {}
            }
            V::Seq(fs)
        }
        Ty::Sum => {
            let ks: Vec<&String> = tab.sum_body.keys().collect();
            let k = (*r.pick(&ks)).clone();
            let body = value(tab, &tab.sum_body[&k], valid, r);
            V::Seq(vec![V::Name(k), body])
        }
        Ty::Frame => {
            let ks: Vec<&String> = tab.registry.keys().collect();
            let k = (*r.pick(&ks)).clone();
            let n = if r.chance(1, 8) { r.below(700) } else { r.below(20) };
            V::Seq(vec![V::Name(k), V::B(blob(n, r))])
        }
    }
}

/// A byte string to decode as t: mutated encodings and noise.
pub fn input(tab: &Tab, t: &str, r: &mut Rng) -> Vec<u8> {
    let v = value(tab, t, r.chance(1, 2), r);
    let mut b = tab.encode(t, &v);
    let rounds = match r.below(8) {
        0 => 0,
        1..=5 => 1,
        _ => 1 + r.below(4),
    };
    for _ in 0..rounds {
        match r.below(14) {
            0 => {
                let k = r.below(b.len() + 1);
                b.truncate(k);
            }
            1 => {
                let n = 1 + r.below(6);
                let x = blob(n, r);
                b.extend(x);
            }
            2..=4 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = r.byte();
            }
            5 | 6 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            7 if !b.is_empty() => {
                let i = r.below(b.len());
                b.remove(i);
            }
            8 => {
                let i = r.below(b.len() + 1);
                let x = r.byte();
                b.insert(i, x);
            }
            9 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0xc0, 0xc2, 0xe0, 0xed, 0xa0, 0xf0, 0xf4, 0x90, 31, 32, 33]);
            }
            10 => {
                let w = value(tab, t, true, r);
                let o = tab.encode(t, &w);
                let k = r.below(b.len() + 1);
                let m = r.below(o.len() + 1);
                b.truncate(k);
                b.extend_from_slice(&o[m..]);
            }
            11 => {
                let n = r.below(40);
                b = r.bytes(n);
            }
            12 if b.len() > 1 => {
                let i = r.below(b.len() - 1);
                b.swap(i, i + 1);
            }
            _ => {}
        }
    }
    b
}

/// Characters outside ASCII: all of them, or the first plane, the tags, the last plane's ends and a spread of the rest.
pub fn beyond_ascii(all: bool) -> Vec<char> {
    (0x80u32..=0x10_ffff)
        .filter(|c| all || *c < 0x1_0000 || (*c >= 0xe_0000 && *c < 0xe_0200) || *c % 61 == 0 || *c & 0xffff >= 0xfff0)
        .filter_map(std::char::from_u32)
        .collect()
}
