//! Equality, copies, conversions and emptiness of values and keys (C27).
use crate::codec::Cx;
use crate::gen;
use crate::subjects::*;
use crate::table::{Tab, Ty};
use crate::val::{digits, Ev, Rng, V};
use noiseexplorer_nx::types as nx;
use std::str::FromStr;
use stratumv2::codec::{deserialize, serialize, Message};
use stratumv2::common::{ChannelEndpointChanged, Protocol, SetupConnectionErrorCode};
use stratumv2::mining::OpenMiningChannelErrorCode;
use stratumv2::network::{Channel, NetworkConfig, NoiseConfig};
use stratumv2::noise::{SignatureNoiseMessage, StaticKeyPair};
use stratumv2::types::*;
use stratumv2::{job_negotiation as jn, mining as mn};

pub struct EqOut {
    ab: bool,
    ba: bool,
    ne: bool,
}
struct Same {
    name: &'static str,
    eq: fn(&V, &V, &mut Rng) -> R<EqOut>,
    /// the copy, the copy after the original was changed and dropped, the original after the copy was
    copy: fn(&V, &V, &mut Rng) -> R<Vec<V>>,
}

/// Built by one of the ways a value can come about.
fn make<T: Subject>(v: &V, r: &mut Rng) -> stratumv2::error::Result<T> {
    let x = T::build(v, r)?;
    if r.chance(1, 2) {
        return deserialize::<T>(&serialize(&x)?);
    }
    Ok(x)
}
fn eq_of<T: Subject + PartialEq>(a: &V, b: &V, r: &mut Rng) -> R<EqOut> {
    run(|| {
        let (x, y) = (make::<T>(a, r)?, make::<T>(b, r)?);
        Ok(EqOut { ab: x == y, ba: y == x, ne: x != y })
    })
}
fn copy_of<T: Subject + Clone>(v: &V, w: &V, r: &mut Rng) -> R<Vec<V>> {
    run(|| {
        let mut x = make::<T>(v, r)?;
        let c = x.clone();
        let mut out = vec![x.proj(), c.proj()];
        x = make::<T>(w, r)?;
        out.push(c.proj());
        drop(x);
        out.push(c.proj());
        let mut d = make::<T>(w, r)?;
        d.clone_from(&c);
        drop(c);
        out.push(d.proj());
        Ok(out)
    })
}

macro_rules! same {
    ($($n:expr => $t:ty),* $(,)?) => {
        vec![$(Same { name: $n, eq: eq_of::<$t>, copy: copy_of::<$t> }),*]
    };
}

fn registry() -> Vec<Same> {
    same!(
        "U24" => U24, "U256" => U256,
        "STR0_32" => STR0_32, "STR0_255" => STR0_255,
        "B0_31" => B0_31, "B0_32" => B0_32, "B0_255" => B0_255, "B0_64K" => B0_64K, "B0_16M" => B0_16M,
        "MiningSetupFlags" => mn::SetupConnectionFlags, "JnSetupFlags" => jn::SetupConnectionFlags,
        "MiningSetupSuccessFlags" => mn::SetupConnectionSuccessFlags, "JnSetupSuccessFlags" => jn::SetupConnectionSuccessFlags,
        "SetupErrorCode" => SetupConnectionErrorCode, "OpenChannelErrorCode" => OpenMiningChannelErrorCode,
        "Protocol" => Protocol,
        "MiningSetupConnection" => mn::SetupConnection, "JnSetupConnection" => jn::SetupConnection,
        "MiningSetupConnectionError" => mn::SetupConnectionError, "JnSetupConnectionError" => jn::SetupConnectionError,
        "MiningSetupConnectionSuccess" => mn::SetupConnectionSuccess, "JnSetupConnectionSuccess" => jn::SetupConnectionSuccess,
        "ChannelEndpointChanged" => ChannelEndpointChanged,
        "OpenStandardMiningChannel" => mn::OpenStandardMiningChannel,
        "OpenStandardMiningChannelSuccess" => mn::OpenStandardMiningChannelSuccess,
        "OpenStandardMiningChannelError" => mn::OpenStandardMiningChannelError,
        "OpenExtendedMiningChannel" => mn::OpenExtendedMiningChannel,
        "OpenExtendedMiningChannelSuccess" => mn::OpenExtendedMiningChannelSuccess,
        "OpenExtendedMiningChannelError" => mn::OpenExtendedMiningChannelError,
        "UpdateChannel" => mn::UpdateChannel,
        "SignatureNoiseMessage" => SignatureNoiseMessage,
        "Message" => Message,
    )
}

/// The native rendering of SameValue of Wire.tla.
fn same(tab: &Tab, t: &str, a: &V, b: &V) -> bool {
    match tab.ty(t) {
        Ty::Msg(l, _) => l.iter().zip(a.s().iter().zip(b.s())).all(|((_, f), (x, y))| same(tab, f, x, y)),
        _ if t == "f32" => f32::from_bits(a.u() as u32) == f32::from_bits(b.u() as u32),
        _ => a == b,
    }
}

/// Values of t that differ from v in one place.
fn neighbours(tab: &Tab, t: &str, v: &V, o: &mut Vec<V>) {
    let bits = |x: &[u8], o: &mut Vec<V>, all: bool| {
        for i in 0..x.len() {
            for k in 0..8 {
                if all || k == i % 8 || (i + 1 == x.len() && k == 0) || (i == 0 && k == 7) {
                    let mut y = x.to_vec();
                    y[i] ^= 1 << k;
                    o.push(V::B(y));
                }
            }
        }
    };
    match tab.ty(t) {
        Ty::Int(n) => bits(v.b(), o, *n <= 4),
        Ty::Raw(_) => bits(v.b(), o, false),
        Ty::Sig => bits(v.b(), o, false),
        Ty::Flags(b) => {
            for k in 0..32 {
                if b & (1 << k) != 0 {
                    o.push(V::B(digits(v.u() ^ (1 << k), 4)));
                }
            }
        }
        Ty::Str(max) => {
            let cs: Vec<char> = v.text().chars().collect();
            for i in 0..cs.len() {
                if cs.len() > 40 && i > 3 && i + 3 < cs.len() && i % 16 != 15 {
                    continue;
                }
                let mut d = cs.clone();
                d[i] = if d[i] == 'q' { 'r' } else { 'q' };
                o.push(V::B(d.iter().collect::<String>().into_bytes()));
                let mut d = cs.clone();
                d[i] = if d[i].is_ascii_uppercase() { d[i].to_ascii_lowercase() } else { d[i].to_ascii_uppercase() };
                if d != cs {
                    o.push(V::B(d.iter().collect::<String>().into_bytes()));
                }
            }
            for tail in ["\0", " ", "x"].iter() {
                let mut s = v.text();
                s.push_str(tail);
                if s.len() <= *max {
                    o.push(V::B(s.into_bytes()));
                }
            }
            if !cs.is_empty() {
                o.push(V::B(cs[..cs.len() - 1].iter().collect::<String>().into_bytes()));
                o.push(V::B(cs[1..].iter().collect::<String>().into_bytes()));
                o.push(V::B(vec![]));
            }
        }
        Ty::Bytes(_, max) => {
            let x = v.b();
            bits(x, o, false);
            if x.len() < *max {
                for y in [0u8, 1, 255].iter() {
                    o.push(V::B([x, &[*y]].concat()));
                    o.push(V::B([&[*y], x].concat()));
                }
            }
            if !x.is_empty() {
                o.push(V::B(x[..x.len() - 1].to_vec()));
                o.push(V::B(x[1..].to_vec()));
                o.push(V::B(vec![]));
            }
        }
        Ty::Code(names) => names.keys().for_each(|k| o.push(V::Name(k.clone()))),
        Ty::Proto => tab.protocols.keys().for_each(|k| o.push(V::Name(k.clone()))),
        Ty::Bool => o.push(V::Bool(*v != V::Bool(true))),
        Ty::Msg(l, _) => {
            for (i, (_, f)) in l.iter().enumerate() {
                let mut ns = vec![];
                neighbours(tab, f, &v.s()[i], &mut ns);
                for n in ns {
                    let mut w = v.s().to_vec();
                    w[i] = n;
                    o.push(V::Seq(w));
                }
                // the values of two fields exchanged
                for j in 0..i {
                    if l[j].1 == *f && v.s()[i] != v.s()[j] {
                        let mut w = v.s().to_vec();
                        w.swap(i, j);
                        o.push(V::Seq(w));
                    }
                }
            }
        }
        Ty::Frame => {
            for k in tab.registry.keys() {
                o.push(V::Seq(vec![V::Name(k.clone()), v.s()[1].clone()]));
            }
            let mut ns = vec![];
            neighbours(tab, "B0_16M", &v.s()[1], &mut ns);
            for n in ns {
                o.push(V::Seq(vec![v.s()[0].clone(), n]));
            }
        }
        Ty::Sum => {}
    }
}

fn bytes_of(t: &str, tab: &Tab, v: &V) -> Vec<u8> {
    tab.encode(t, v)
}

fn pair(cx: &mut Cx, s: &Same, a: &V, b: &V) {
    if !cx.tab.construct_errs(s.name, a).none() || !cx.tab.construct_errs(s.name, b).none() {
        return;
    }
    let r = (s.eq)(a, b, &mut cx.rng);
    let want = same(cx.tab, s.name, a, b);
    let k = [bytes_of(s.name, cx.tab, a), vec![0xfe], bytes_of(s.name, cx.tab, b)].concat();
    cx.key("eq", s.name, &k);
    let bad = match &r {
        R::Ok(x) => x.ab != want || x.ba != want || x.ne == want,
        _ => true,
    };
    let class = format!("eq/{}/{}/{}", s.name, want, a == b);
    if bad || cx.sink.wants(&class) {
        let mut e = Ev::new("eq").s("t", s.name).v("a", a).v("b", b).s("r", r.tag());
        if let R::Ok(x) = &r {
            e = e.t("ab", x.ab).t("ba", x.ba).t("ne", x.ne);
        }
        cx.sink.put(&class, e.end(), bad);
    }
}

fn copied(cx: &mut Cx, s: &Same, v: &V, w: &V) {
    let r = (s.copy)(v, w, &mut cx.rng);
    let k = bytes_of(s.name, cx.tab, v);
    cx.key("copy", s.name, &k);
    let bad = match &r {
        R::Ok(x) => x.iter().any(|y| y != v),
        _ => true,
    };
    let class = format!("copy/{}", s.name);
    if bad || cx.sink.wants(&class) {
        let mut e = Ev::new("copy").s("t", s.name).v("v", v).s("r", r.tag());
        if let R::Ok(x) = r {
            e = e.v("outs", &V::Seq(x));
        }
        cx.sink.put(&class, e.end(), bad);
    }
}

fn a32(b: &[u8]) -> [u8; 32] {
    let mut a = [0u8; 32];
    a.copy_from_slice(b);
    a
}

/// Verdicts of comparing the value with a plain one, both ways round.
fn cross(t: &str, v: &V, p: &V, r: &mut Rng) -> R<Vec<bool>> {
    macro_rules! both {
        ($t:ty, $p:expr) => {{
            let x = make::<$t>(v, r)?;
            let p = $p;
            vec![x == p, p == x, !(x != p), !(p != x)]
        }};
    }
    run(|| {
        Ok(match t {
            "U24" => both!(U24, p.u() as u32),
            "U256" => both!(U256, a32(p.b())),
            "STR0_32" => both!(STR0_32, p.text()),
            "STR0_255" => both!(STR0_255, p.text()),
            "B0_31" => both!(B0_31, p.b().to_vec()),
            "B0_32" => both!(B0_32, p.b().to_vec()),
            "B0_255" => both!(B0_255, p.b().to_vec()),
            "B0_64K" => both!(B0_64K, p.b().to_vec()),
            _ => both!(B0_16M, p.b().to_vec()),
        })
    })
}
fn num(x: u64) -> V {
    V::B(digits(x, if x >> 32 == 0 { 4 } else { 8 }))
}
/// The plain values it converts into.
fn plain(t: &str, v: &V, r: &mut Rng) -> R<Vec<V>> {
    macro_rules! via {
        ($t:ty, $o:ty) => {
            vec![V::B(Vec::from(<$o>::from(make::<$t>(v, r)?)))]
        };
    }
    run(|| {
        Ok(match t {
            "U24" => vec![num(u32::from(make::<U24>(v, r)?) as u64), num(usize::from(make::<U24>(v, r)?) as u64)],
            "U256" => vec![V::B(<[u8; 32]>::from(make::<U256>(v, r)?).to_vec()), V::B(U256::from(a32(v.b())).0.to_vec())],
            "STR0_32" => via!(STR0_32, String),
            "STR0_255" => via!(STR0_255, String),
            "B0_31" => via!(B0_31, Vec<u8>),
            "B0_32" => via!(B0_32, Vec<u8>),
            "B0_255" => via!(B0_255, Vec<u8>),
            "B0_64K" => via!(B0_64K, Vec<u8>),
            _ => via!(B0_16M, Vec<u8>),
        })
    })
}
fn plain_of(t: &str, v: &V) -> V {
    if t == "U24" {
        V::B([&[0u8], v.b()].concat())
    } else {
        v.clone()
    }
}
const PLAIN: [&str; 9] = ["U24", "U256", "STR0_32", "STR0_255", "B0_31", "B0_32", "B0_255", "B0_64K", "B0_16M"];

fn with_plain(cx: &mut Cx, t: &str, v: &V, p: &V) {
    let r = cross(t, v, p, &mut cx.rng);
    let want = plain_of(t, v) == *p;
    cx.key("cross", t, &[v.b(), &[0xfe], p.b()].concat());
    let bad = match &r {
        R::Ok(x) => x.iter().any(|y| *y != want),
        _ => true,
    };
    let class = format!("cross/{}/{}", t, want);
    if bad || cx.sink.wants(&class) {
        let mut e = Ev::new("cross").s("t", t).v("v", v).v("p", p).s("r", r.tag());
        if let R::Ok(x) = r {
            e = e.v("res", &V::Seq(x.into_iter().map(V::Bool).collect()));
        }
        cx.sink.put(&class, e.end(), bad);
    }
}
fn to_plain(cx: &mut Cx, t: &str, v: &V) {
    let r = plain(t, v, &mut cx.rng);
    let want = plain_of(t, v);
    cx.key("conv", t, v.b());
    let bad = match &r {
        R::Ok(x) => x.iter().any(|y| *y != want),
        _ => true,
    };
    let class = format!("conv/{}", t);
    if bad || cx.sink.wants(&class) {
        let mut e = Ev::new("conv").s("t", t).v("v", v).s("r", r.tag());
        if let R::Ok(x) = r {
            e = e.v("outs", &V::Seq(x));
        }
        cx.sink.put(&class, e.end(), bad);
    }
}

// ------------------------------------------------------------------------------------------ long
fn long(cx: &mut Cx) {
    let lens: &[(&str, &[usize])] = &[
        ("B0_255", &[254, 255]),
        ("B0_64K", &[256, 1000, 4096, 65534, 65535]),
        ("B0_16M", &[256, 65535, 65536, 65537, 300_000, (1 << 24) - 1]),
        ("Message", &[256, 65535, 65536, 300_000]),
    ];
    for (t, ls) in lens {
        for n in ls.iter() {
            let x = cx.rng.bytes(*n);
            let mut at: Vec<i64> = vec![-1, 0, *n as i64 / 2, *n as i64 - 1, 255, 256];
            for _ in 0..4 {
                at.push(cx.rng.below(*n) as i64);
            }
            if *n > 255 {
                at.extend_from_slice(&[254.min(*n as i64 - 1), *n as i64 - 2]);
            }
            for pos in at {
                if pos >= *n as i64 {
                    continue;
                }
                let mut y = x.clone();
                if pos >= 0 {
                    y[pos as usize] ^= 1 << cx.rng.below(8);
                }
                macro_rules! go {
                    ($t:ty) => {
                        run(|| {
                            let (a, b) = (<$t>::new(&x[..])?, <$t>::new(&y[..])?);
                            let c = b.clone();
                            Ok(vec![a == b, b == a, !(a != b), a == y, y == a, b == x, x == b, a == c, Vec::from(c) == x, Vec::from(a) == y])
                        })
                    };
                }
                let r = match *t {
                    "B0_255" => go!(B0_255),
                    "B0_64K" => go!(B0_64K),
                    "B0_16M" => go!(B0_16M),
                    _ => run(|| {
                        let mt = MessageType::SetTarget;
                        let (a, b) = (Message::new(mt, &x[..]), Message::new(mt, &y[..]));
                        let c = b.clone();
                        Ok(vec![a == b, b == a, !(a != b), a == c, c.payload == x])
                    }),
                };
                cx.key("eqbig", t, &[digits(*n as u64, 8), digits((pos + 1) as u64, 8)].concat());
                let want = pos < 0;
                let bad = match &r {
                    R::Ok(v) => v.iter().any(|z| *z != want),
                    _ => true,
                };
                let mut e = Ev::new("eqbig").s("t", t).i("len", *n as i64).i("pos", pos).s("r", r.tag());
                if let R::Ok(v) = r {
                    e = e.v("res", &V::Seq(v.into_iter().map(V::Bool).collect()));
                }
                cx.sink.put("eqbig", e.end(), bad);
            }
        }
    }
}

/// Contents of which one is the beginning, or the end, of the other.
fn long_and_longer(cx: &mut Cx) {
    let steps = [1usize, 2, 255, 256, 257, 512, 32768, 65535, 65536, 65537, 131_072, 1 << 20, 1 << 24, (1 << 24) + 65536];
    for n in [0usize, 1, 5, 255, 256, 1000, 65535].iter() {
        for more in steps.iter() {
            for fill in [0u8, 3].iter() {
                for front in [false, true].iter() {
                    let x = vec![*fill; *n];
                    let y = if *fill == 0 && *front { vec![0u8; n + more] } else {
                        let mut y = x.clone();
                        let tail = vec![if *front { *fill } else { 0 }; *more];
                        y.extend(tail);
                        y
                    };
                    macro_rules! go {
                        ($t:ty, $u:ty) => {
                            run(|| {
                                let a = <$t>::new(&x[..])?;
                                let b = <$u>::new(&y[..])?;
                                let (p, q) = (<$u>::new(&x[..])?, &y);
                                Ok(vec![p == b, b == p, !(p != b), a == *q, *q == a, b == x, x == b])
                            })
                        };
                    }
                    let mut rs = vec![("Message", run(|| {
                        let mt = MessageType::SetTarget;
                        let (a, b) = (Message::new(mt, &x[..]), Message::new(mt, &y[..]));
                        Ok(vec![a == b, b == a, !(a != b)])
                    }))];
                    if n + more < 1 << 24 {
                        rs.push(("B0_16M", go!(B0_16M, B0_16M)));
                        rs.push(("B0_64K", go!(B0_64K, B0_16M)));
                    }
                    if n + more < 1 << 16 {
                        rs.push(("B0_64K", go!(B0_64K, B0_64K)));
                    }
                    if n + more < 256 {
                        rs.push(("B0_255", go!(B0_255, B0_255)));
                    }
                    for (t, r) in rs {
                        cx.key("longer", t, &[digits(*n as u64, 8), digits(*more as u64, 8), vec![*fill, *front as u8]].concat());
                        let bad = match &r {
                            R::Ok(v) => v.iter().any(|z| *z),
                            _ => true,
                        };
                        if bad || cx.sink.wants("longer") {
                            let mut e = Ev::new("eqbig").s("t", t).i("len", *n as i64).i("pos", *n as i64).s("r", r.tag());
                            if let R::Ok(v) = r {
                                e = e.v("res", &V::Seq(v.into_iter().map(V::Bool).collect()));
                            }
                            cx.sink.put("longer", e.end(), bad);
                        }
                    }
                }
            }
        }
    }
}

/// Every character, compared with itself and with what may pass for it.
fn characters(cx: &mut Cx) {
    for n in 0..=0x10ffffu32 {
        let c = match std::char::from_u32(n) {
            Some(c) => c,
            None => continue,
        };
        let s = c.to_string();
        let mut others: Vec<String> = vec![];
        for o in [c.to_lowercase().collect::<String>(), c.to_uppercase().collect::<String>()].iter() {
            if *o != s {
                others.push(o.clone());
            }
        }
        if n & 1 == 0 {
            others.push(std::char::from_u32(n ^ 1).unwrap_or('?').to_string());
        }
        let r = run(|| {
            let x = STR0_255::new(s.clone())?;
            let y = STR0_32::new(s.as_str())?;
            let mut ok = vec![x == s, s == x, x == x.clone(), y == s, s == y, y == y.clone(), String::from(x.clone()) == s, String::from(y.clone()) == s];
            for o in &others {
                let z = STR0_255::new(o.clone())?;
                ok.extend_from_slice(&[x != *o, *o != x, x != z, z != x, !(x == z), y != *o, *o != y]);
            }
            Ok(ok)
        });
        cx.key("chars", "STR0", s.as_bytes());
        let bad = match &r {
            R::Ok(v) => v.iter().any(|z| !*z),
            _ => true,
        };
        let class = format!("chars/{}", c.len_utf8());
        if bad || cx.sink.wants(&class) {
            let mut e = Ev::new("chars").bytes("text", s.as_bytes()).s("r", r.tag());
            if let R::Ok(v) = r {
                e = e.v("res", &V::Seq(v.into_iter().map(V::Bool).collect()));
            }
            cx.sink.put(&class, e.end(), bad);
        }
    }
}

// ------------------------------------------------------------------------------------------ keys
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn key_pairs(cx: &mut Cx) {
    let mut pairs: Vec<([u8; 32], [u8; 32])> = vec![];
    let mut bases: Vec<[u8; 32]> = vec![[0; 32], [255; 32], [1; 32], [0x80; 32]];
    for _ in 0..6 * cx.scale {
        bases.push(a32(&cx.rng.bytes(32)));
    }
    let mut one = [0u8; 32];
    one[31] = 1;
    bases.push(one);
    for b in &bases {
        pairs.push((*b, *b));
        for i in 0..32 {
            for k in 0..8 {
                let mut c = *b;
                c[i] ^= 1 << k;
                pairs.push((*b, c));
            }
            let mut c = *b;
            c[i] = 0;
            pairs.push((*b, c));
            let mut c = *b;
            c[i] = c[i].wrapping_add(128);
            c[(i + 1) % 32] = c[(i + 1) % 32].wrapping_add(128);
            pairs.push((*b, c));
        }
        let mut c = *b;
        c.reverse();
        pairs.push((*b, c));
    }
    for (a, b) in pairs {
        let want = a == b;
        // made from bytes or from text
        let text = cx.rng.chance(1, 4);
        let private = |x: &[u8; 32]| if text { nx::PrivateKey::from_str(&hex(x)) } else { Ok(nx::PrivateKey::from_bytes(*x)) };
        let mut seen: Vec<(&str, R<Vec<bool>>)> = vec![];
        seen.push((
            "private",
            run(|| {
                let (x, y) = (private(&a).map_err(e_noise)?, private(&b).map_err(e_noise)?);
                let z = y.clone();
                Ok(vec![x == y, y == x, !(x != y), x == z])
            }),
        ));
        if let (Ok(x), Ok(y)) = (nx::PublicKey::from_bytes(a), nx::PublicKey::from_bytes(b)) {
            seen.push((
                "public",
                run(|| {
                    let z = y.clone();
                    let s = serialize(&z)?;
                    Ok(vec![x == y, y == x, !(x != y), x == z, z.as_bytes() == a, s[..] == a[..]])
                }),
            ));
        }
        if a != [0; 32] && b != [0; 32] {
            let other = cx.rng.chance(1, 2);
            let mk = |x: &[u8; 32]| {
                let k = nx::PrivateKey::from_bytes(*x);
                if other { nx::Keypair::from_key(k) } else { nx::Keypair::from_private_key(k) }
            };
            seen.push((
                "pair",
                run(|| {
                    let (x, y) = (mk(&a).map_err(e_noise)?, mk(&b).map_err(e_noise)?);
                    let z = y.clone();
                    Ok(vec![x == y, y == x, !(x != y), x == z])
                }),
            ));
        }
        for (what, r) in seen {
            cx.key("keyeq", what, &[&a[..], &b[..]].concat());
            let bad = match &r {
                R::Ok(v) => v.iter().any(|z| *z != want),
                _ => true,
            };
            let class = format!("keyeq/{}/{}", what, want);
            if bad || cx.sink.wants(&class) {
                let mut e = Ev::new("keyeq").s("what", what).bytes("a", &a).bytes("b", &b).s("r", r.tag());
                if let R::Ok(v) = r {
                    e = e.v("res", &V::Seq(v.into_iter().map(V::Bool).collect()));
                }
                cx.sink.put(&class, e.end(), bad);
            }
        }
        let empt: Vec<(&str, R<Vec<bool>>)> = vec![
            ("key", run(|| Ok(vec![nx::Key::from_bytes(b).is_empty(), nx::Key::from_bytes(b).clone().is_empty(), nx::Key::from_str(&hex(&b)).map_err(e_noise)?.is_empty()]))),
            ("psk", run(|| Ok(vec![nx::Psk::from_bytes(b).is_empty(), nx::Psk::from_bytes(b).clone().is_empty(), nx::Psk::from_str(&hex(&b)).map_err(e_noise)?.is_empty()]))),
            ("private", run(|| Ok(vec![nx::PrivateKey::from_bytes(b).is_empty(), private(&b).map_err(e_noise)?.clone().is_empty()]))),
            ("public", run(|| Ok(match nx::PublicKey::from_bytes(b) { Ok(k) => vec![k.is_empty()], Err(_) => vec![] }))),
            ("pair", run(|| Ok(match nx::Keypair::from_private_key(nx::PrivateKey::from_bytes(b)) { Ok(k) => vec![k.is_empty(), k.clone().is_empty()], Err(_) => vec![] }))),
        ];
        for (what, r) in empt {
            empty(cx, what, &b, r);
        }
    }
    let z = [0u8; 32];
    empty(cx, "new", &z, run(|| Ok(vec![
        nx::Key::new().is_empty(), nx::Key::default().is_empty(), nx::Psk::default().is_empty(), nx::PrivateKey::empty().is_empty(),
        nx::PublicKey::empty().is_empty(), nx::Keypair::new_empty().is_empty(),
        nx::PublicKey::empty().as_bytes() == z, nx::PrivateKey::empty() == nx::PrivateKey::from_bytes(z),
        nx::Keypair::new_empty() == nx::Keypair::new_empty(),
        { let mut k = nx::Keypair::default(); k.clear(); k.is_empty() && k == nx::Keypair::new_empty() },
    ])));
}
fn e_noise(e: noiseexplorer_nx::error::NoiseError) -> stratumv2::error::Error {
    stratumv2::error::Error::NoiseError(e)
}
fn empty(cx: &mut Cx, what: &str, b: &[u8; 32], r: R<Vec<bool>>) {
    let want = *b == [0; 32];
    cx.key("empty", what, b);
    let bad = match &r {
        R::Ok(v) => v.iter().any(|z| *z != want),
        _ => true,
    };
    let class = format!("empty/{}/{}", what, want);
    if bad || cx.sink.wants(&class) {
        let mut e = Ev::new("empty").s("what", what).bytes("b", b).s("r", r.tag());
        if let R::Ok(v) = r {
            e = e.v("res", &V::Seq(v.into_iter().map(V::Bool).collect()));
        }
        cx.sink.put(&class, e.end(), bad);
    }
}

// ------------------------------------------------------------------------------------------ holders
/// Channels and configurations hold, and their clones keep, what they were given.
fn holders(cx: &mut Cx) {
    for _ in 0..60 * cx.scale {
        let id = cx.rng.next() as u32;
        for t in ["OpenStandardMiningChannel", "OpenExtendedMiningChannel", "SignatureNoiseMessage"].iter() {
            let v = gen::value(cx.tab, t, true, &mut cx.rng);
            let rng = &mut cx.rng;
            let r = run(|| {
                Ok(match *t {
                    "OpenStandardMiningChannel" => {
                        let c = Channel::StandardMiningChannel { id, channel: make(&v, rng)? };
                        match c.clone() {
                            Channel::StandardMiningChannel { id: i, channel } if i == id => vec![channel.proj()],
                            _ => vec![V::Seq(vec![])],
                        }
                    }
                    "OpenExtendedMiningChannel" => {
                        let c = Channel::ExtendedMiningChannel { id, channel: make(&v, rng)? };
                        match c.clone() {
                            Channel::ExtendedMiningChannel { id: i, channel } if i == id => vec![channel.proj()],
                            _ => vec![V::Seq(vec![])],
                        }
                    }
                    _ => {
                        let kp = StaticKeyPair::default();
                        let c = NoiseConfig::new(make(&v, rng)?, kp.clone());
                        let d = c.clone();
                        let ok = c.static_key == kp && d.static_key == kp;
                        vec![if ok { c.sig_noise_msg.proj() } else { V::Seq(vec![]) }, d.sig_noise_msg.proj()]
                    }
                })
            });
            let k = bytes_of(t, cx.tab, &v);
            cx.key("hold", t, &k);
            let bad = match &r {
                R::Ok(x) => x.iter().any(|y| *y != v),
                _ => true,
            };
            if bad || cx.sink.wants(&format!("hold/{}", t)) {
                let mut e = Ev::new("copy").s("t", t).v("v", &v).s("r", r.tag());
                if let R::Ok(x) = r {
                    e = e.v("outs", &V::Seq(x));
                }
                cx.sink.put(&format!("hold/{}", t), e.end(), bad);
            }
        }
        let n = gen::len(255, false, &mut cx.rng);
        let s = V::B(gen::text(n, &mut cx.rng));
        let b = cx.rng.chance(1, 2);
        let r = run(|| {
            let c = NetworkConfig::new(s.text(), b);
            let d = c.clone();
            let ok = c.local_network_encryption == b && d.local_network_encryption == b;
            Ok(vec![if ok { V::B(c.listening_addr.into_bytes()) } else { V::Seq(vec![]) }, V::B(d.listening_addr.into_bytes())])
        });
        cx.key("hold", "net", s.b());
        let bad = match &r {
            R::Ok(x) => x.iter().any(|y| *y != s),
            _ => true,
        };
        if bad || cx.sink.wants("hold/net") {
            let mut e = Ev::new("copy").s("t", "STR0_255").v("v", &s).s("r", r.tag());
            if let R::Ok(x) = r {
                e = e.v("outs", &V::Seq(x));
            }
            cx.sink.put("hold/net", e.end(), bad);
        }
    }
}

pub fn c27(cx: &mut Cx) {
    let reg = registry();
    let floats: Vec<u32> = vec![
        0, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001, 0x7fff_ffff,
        1, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0x3f80_0001, 0x4b80_0000, 0x4b80_0001,
    ];
    for s in &reg {
        let rounds = match cx.tab.ty(s.name) {
            Ty::Msg(_, _) | Ty::Frame => 24,
            _ => 60,
        } * cx.scale;
        for _ in 0..rounds {
            let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
            let w = gen::value(cx.tab, s.name, true, &mut cx.rng);
            pair(cx, s, &v, &v);
            pair(cx, s, &v, &w);
            copied(cx, s, &v, &w);
            let mut ns = vec![];
            neighbours(cx.tab, s.name, &v, &mut ns);
            for n in &ns {
                pair(cx, s, &v, n);
            }
            // two single differences that might cancel out
            if ns.len() > 1 {
                for _ in 0..40 {
                    let (x, y) = (cx.rng.below(ns.len()), cx.rng.below(ns.len()));
                    pair(cx, s, &ns[x], &ns[y]);
                }
            }
        }
        if let Ty::Msg(l, _) = cx.tab.ty(s.name) {
            if let Some(i) = l.iter().position(|(_, f)| f == "f32") {
                let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
                for x in &floats {
                    for y in &floats {
                        let (mut a, mut b) = (v.s().to_vec(), v.s().to_vec());
                        a[i] = V::B(digits(*x as u64, 4));
                        b[i] = V::B(digits(*y as u64, 4));
                        pair(cx, s, &V::Seq(a), &V::Seq(b));
                    }
                }
            }
        }
    }
    for t in PLAIN.iter() {
        for _ in 0..80 * cx.scale {
            let v = gen::value(cx.tab, t, true, &mut cx.rng);
            let w = gen::value(cx.tab, t, true, &mut cx.rng);
            to_plain(cx, t, &v);
            with_plain(cx, t, &v, &plain_of(t, &v));
            with_plain(cx, t, &v, &plain_of(t, &w));
            let mut ns = vec![];
            neighbours(cx.tab, t, &v, &mut ns);
            for n in &ns {
                with_plain(cx, t, &v, &plain_of(t, n));
            }
            if *t == "U24" {
                for k in 0..8 {
                    with_plain(cx, t, &v, &V::B(digits(v.u() | 1 << (24 + k), 4)));
                }
            } else if *t != "U256" {
                // longer than the type could ever hold
                let mut p = v.b().to_vec();
                p.extend(vec![b'x'; 256]);
                with_plain(cx, t, &v, &V::B(p));
                let mut p = v.b().to_vec();
                p.extend(vec![0u8; 65536]);
                if t.starts_with('B') {
                    let r = cross(t, &v, &V::B(p), &mut cx.rng);
                    let bad = match &r {
                        R::Ok(x) => x.iter().any(|y| *y),
                        _ => true,
                    };
                    if bad || cx.sink.wants("crossbig") {
                        let mut e = Ev::new("eqbig").s("t", t).i("len", v.b().len() as i64).i("pos", v.b().len() as i64).s("r", r.tag());
                        if let R::Ok(x) = r {
                            e = e.v("res", &V::Seq(x.into_iter().map(V::Bool).collect()));
                        }
                        cx.sink.put("crossbig", e.end(), bad);
                    }
                }
            }
        }
    }
    for (a, x) in MESSAGE_TYPES.iter() {
        for (b, y) in MESSAGE_TYPES.iter() {
            let r = run(|| {
                let c = x.clone();
                Ok(vec![x == y, y == x, !(x != y), c == *y])
            });
            cx.key("mteq", a, b.as_bytes());
            let mut e = Ev::new("mteq").s("a", a).s("b", b).s("r", r.tag());
            let bad = match &r {
                R::Ok(v) => v.iter().any(|z| *z != (a == b)),
                _ => true,
            };
            if let R::Ok(v) = r {
                e = e.v("res", &V::Seq(v.into_iter().map(V::Bool).collect()));
            }
            cx.sink.offer("mteq", e.end(), bad);
        }
    }
    long(cx);
    long_and_longer(cx);
    characters(cx);
    key_pairs(cx);
    holders(cx);
}
