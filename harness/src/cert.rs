//! Drivers for certificates (C18) and timestamps (C19), under a clock of our own.
use crate::codec::Cx;
use crate::noise::{pair_of, private};
use crate::subjects::{run, R};
use crate::val::{Ev, Rng};
use ed25519_dalek::Signer;
use std::cell::Cell;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use stratumv2::noise::{AuthorityKeyPair, CertificateFormat, Signature, SignatureNoiseMessage, SignedCertificate, StaticPublicKey};
use stratumv2::types::unix_timestamp::{system_unix_time_to_u32, unix_u32_now};

pub fn plain_snm(version: u16, from: u32, until: u32) -> SignatureNoiseMessage {
    SignatureNoiseMessage { version, valid_from: from, not_valid_after: until, signature: Signature::from_bytes(&[1u8; 64]).unwrap() }
}

// ------------------------------------------------------------------- clock
thread_local! { static CLOCK: Cell<Option<(i64, i64)>> = Cell::new(None); }

/// Stands in for the C library's: the wall clock says what the driver set.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Ok(Some((s, n))) = CLOCK.try_with(|c| c.get()) {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

pub fn set_clock(t: Option<(i64, i64)>) {
    CLOCK.with(|c| c.set(t));
}

fn check_clock() {
    set_clock(Some((12345, 678)));
    let t = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
    assert!(t == Duration::new(12345, 678), "harness: the clock could not be replaced");
    set_clock(None);
}

fn dig(n: u64) -> String {
    format!("[{},{},{},{}]", n >> 48, n >> 32 & 0xffff, n >> 16 & 0xffff, n & 0xffff)
}
/// Time as the specification writes it: distance from the epoch.
fn time_json(s: i64, ns: i64) -> String {
    // (s, ns) means s seconds plus ns nanoseconds, ns in 0..1e9
    if s >= 0 {
        format!("{{\"neg\":false,\"d\":{},\"ns\":{}}}", dig(s as u64), ns)
    } else {
        let (s, ns) = if ns == 0 { (-s, 0) } else { (-s - 1, 1_000_000_000 - ns) };
        format!("{{\"neg\":true,\"d\":{},\"ns\":{}}}", dig(s as u64), ns)
    }
}

// ----------------------------------------------------------------- base 58
const A58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub fn b58(data: &[u8]) -> String {
    let mut d: Vec<u8> = vec![];
    for b in data {
        let mut c = *b as u32;
        for x in d.iter_mut() {
            c += (*x as u32) << 8;
            *x = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            d.push((c % 58) as u8);
            c /= 58;
        }
    }
    let mut s: String = data.iter().take_while(|b| **b == 0).map(|_| '1').collect();
    s.extend(d.iter().rev().map(|x| A58[*x as usize] as char));
    s
}
fn unb58(s: &[u8]) -> Option<Vec<u8>> {
    let mut d: Vec<u8> = vec![];
    for ch in s {
        let mut c = A58.iter().position(|x| x == ch)? as u32;
        for x in d.iter_mut() {
            c += *x as u32 * 58;
            *x = c as u8;
            c >>= 8;
        }
        while c > 0 {
            d.push(c as u8);
            c >>= 8;
        }
    }
    let mut o: Vec<u8> = s.iter().take_while(|b| **b == b'1').map(|_| 0).collect();
    o.extend(d.iter().rev());
    Some(o)
}

// ------------------------------------------------------------------- C18
#[derive(Clone, Copy, PartialEq)]
struct Body {
    v: u16,
    from: u32,
    until: u32,
    stat: [u8; 32],
}

pub fn authority(r: &mut Rng) -> AuthorityKeyPair {
    let secret = ed25519_dalek::SecretKey::from_bytes(&r.bytes(32)).unwrap();
    let public = (&secret).into();
    AuthorityKeyPair { secret, public }
}

fn key(b: [u8; 32]) -> Option<StaticPublicKey> {
    StaticPublicKey::from_bytes(b).ok()
}

/// What the authority says about a body, by the library.
fn issue(a: &AuthorityKeyPair, b: Body) -> Option<SignatureNoiseMessage> {
    let k = key(b.stat)?;
    match run(|| SignedCertificate::new(b.v, b.from, b.until, &k).and_then(|c| SignatureNoiseMessage::from_auth_key(a, &c))) {
        R::Ok(m) => Some(m),
        _ => None,
    }
}

struct Ids(Vec<Vec<u8>>);
impl Ids {
    fn id(&mut self, b: &[u8]) -> i64 {
        if let Some(i) = self.0.iter().position(|x| x == b) {
            return i as i64 + 1;
        }
        self.0.push(b.to_vec());
        self.0.len() as i64
    }
}

fn body_json(ids: &mut Ids, e: Ev, b: &Body) -> Ev {
    let st = ids.id(&b.stat);
    e.i("v", b.v as i64).raw("from", &dig(b.from as u64)).raw("until", &dig(b.until as u64)).i("stat", st)
}

/// One verification: body and signature presented under an authority key at a time.
fn present(cx: &mut Cx, class: &str, auth: &[u8; 32], b: &Body, sig: Signature, by: Option<[u8; 32]>, over: &Body, now: (i64, i64)) {
    let k = match key(b.stat) {
        Some(k) => k,
        None => return,
    };
    let snm = SignatureNoiseMessage { version: b.v, valid_from: b.from, not_valid_after: b.until, signature: sig };
    let text = b58(auth);
    set_clock(Some(now));
    let r = run(|| CertificateFormat::new(&text, &k, &snm).and_then(|c| c.verify()));
    set_clock(None);
    let point = ed25519_dalek::PublicKey::from_bytes(auth).is_ok();
    let mut ids = Ids(vec![]);
    let (a, by) = (ids.id(auth), by.map(|x| ids.id(&x)).unwrap_or(0));
    let s = body_json(&mut ids, Ev::new("sig").i("by", by), over).end();
    let ev = body_json(&mut ids, Ev::new("verify").s("class", class), b).i("auth", a).t("point", point).raw("sig", &s).raw("now", &time_json(now.0, now.1)).s("r", r.tag()).end();
    let mut id = snm.signature.to_bytes().to_vec();
    id.extend_from_slice(auth);
    id.extend_from_slice(&b.stat);
    id.extend_from_slice(ev.as_bytes());
    cx.sink.count(&id);
    cx.sink.note(&format!("verifications: {}", class), 1);
    cx.sink.behaviours += 1;
    cx.sink.force(ev);
}

fn static_key(r: &mut Rng) -> [u8; 32] {
    pair_of(private(r)).get_public_key().as_bytes()
}

pub fn c18(cx: &mut Cx) {
    check_clock();
    let mut r = cx.rng.clone();
    cx.rng.next();
    let auths: Vec<AuthorityKeyPair> = (0..2).map(|_| authority(&mut r)).collect();
    let apub = |i: usize| auths[i].public.to_bytes();
    let stats = [static_key(&mut r), static_key(&mut r)];

    // presentations TLC generated (MCCert.tla), at several places of the time line
    let beh = crate::io::behaviours();
    cx.sink.note("presentations generated by TLC", beh.len() as u64);
    let bases = [0u32, 1, 255, 65534, 1 << 24, (1 << 31) - 3, 1_700_000_000, u32::max_value() - 4];
    let most = if cx.scale > 1 { beh.len() } else { 12000 };
    let step = (beh.len() / most).max(1);
    let off = cx.rng.below(step);
    for (i, s) in beh.iter().enumerate().skip(off).step_by(step) {
        let base = bases[i % bases.len()];
        let at = |t: i64| (base as u64 + t as u64) as u32;
        let vs = [[0u16, 1], [0, 256], [1, 0xffff]][i % 3];
        let body = |s: &[i64]| Body { v: vs[s[0] as usize], from: at(s[1]), until: at(s[2]), stat: stats[s[3] as usize - 1] };
        let shown = body(&s[2..6]);
        let over = body(&s[7..11]);
        let (sig, by) = if s[6] == 0 {
            (Signature::from_bytes(&{ let mut b = r.bytes(64); b[63] &= 0x0f; b }).unwrap(), None)
        } else {
            match issue(&auths[s[6] as usize - 1], over) {
                Some(m) => (m.signature, Some(apub(s[6] as usize - 1))),
                None => continue,
            }
        };
        let ns = [0, 1, 999_999_999, 500_000_000][i % 4];
        present(cx, "TLC", &apub(s[1] as usize - 1), &shown, sig, by, &over, (base as i64 + s[0], ns));
    }

    // every bit of every field, signature and key
    let rounds = 2 * cx.scale;
    for round in 0..rounds {
        let a = authority(&mut r);
        let ap = a.public.to_bytes();
        let from = 1000 + (r.next() as u32 >> 2);
        let good = Body { v: r.next() as u16, from, until: from + 1 + (r.next() as u32 >> 2), stat: static_key(&mut r) };
        let m = match issue(&a, good) {
            Some(m) => m,
            None => {
                // the specification issues every proper window: a refusal shows up as a failing presentation
                let z = Signature::from_bytes(&[0u8; 64]).unwrap();
                present(cx, "issue", &ap, &good, z, Some(ap), &good, (from as i64, 0));
                continue;
            }
        };
        let mid = (good.from as i64 + (good.until as i64 - good.from as i64) / 2, 5);
        present(cx, "genuine", &ap, &good, m.signature, Some(ap), &good, mid);
        for bit in 0..16 {
            present(cx, "version bit", &ap, &Body { v: good.v ^ (1 << bit), ..good }, m.signature, Some(ap), &good, mid);
        }
        for bit in 0..32 {
            let b = Body { from: good.from ^ (1 << bit), ..good };
            present(cx, "start bit", &ap, &b, m.signature, Some(ap), &good, mid);
            present(cx, "start bit", &ap, &b, m.signature, Some(ap), &good, (b.from as i64, 0));
            let b = Body { until: good.until ^ (1 << bit), ..good };
            present(cx, "end bit", &ap, &b, m.signature, Some(ap), &good, mid);
            present(cx, "end bit", &ap, &b, m.signature, Some(ap), &good, (good.from as i64, 0));
        }
        for bit in 0..256 {
            let mut b = good;
            b.stat[bit / 8] ^= 1 << (bit % 8);
            present(cx, "static key bit", &ap, &b, m.signature, Some(ap), &good, mid);
            let mut k = ap;
            k[bit / 8] ^= 1 << (bit % 8);
            present(cx, "authority key bit", &k, &good, m.signature, Some(ap), &good, mid);
        }
        for bit in 0..512 {
            let mut s = m.signature.to_bytes();
            s[bit / 8] ^= 1 << (bit % 8);
            if let Ok(s) = Signature::from_bytes(&s) {
                present(cx, "signature bit", &ap, &good, s, None, &good, mid);
            }
        }
        // s + L names the same scalar but is not the signature made
        let l: [u8; 32] = [
            0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
        ];
        let mut s = m.signature.to_bytes();
        let mut c = 0u32;
        for i in 0..32 {
            c += s[32 + i] as u32 + l[i] as u32;
            s[32 + i] = c as u8;
            c >>= 8;
        }
        if let Ok(s) = Signature::from_bytes(&s) {
            present(cx, "shifted signature", &ap, &good, s, None, &good, mid);
        }
        // signatures over part of the body, over other things, by other keys
        let other = Body { stat: static_key(&mut r), ..good };
        let raw = |b: &Body| {
            let mut v = b.v.to_le_bytes().to_vec();
            v.extend_from_slice(&b.from.to_le_bytes());
            v.extend_from_slice(&b.until.to_le_bytes());
            v.extend_from_slice(&b.stat);
            v
        };
        let whole = raw(&good);
        let mut parts: Vec<Vec<u8>> = vec![vec![], good.stat.to_vec(), whole[..10].to_vec(), whole[2..].to_vec(), whole[..41].to_vec(), whole.iter().rev().cloned().collect()];
        let mut x = whole.clone();
        x.push(0);
        parts.push(x);
        parts.push(raw(&other));
        parts.push(text_of(&whole));
        for cut in [2usize, 6, 10].iter() {
            let mut x = whole.clone();
            x.drain(cut - 2..*cut);
            parts.push(x);
        }
        for p in parts {
            let s = a.sign(&p);
            present(cx, "signature over something else", &ap, &good, s, None, &good, mid);
        }
        let b2 = authority(&mut r);
        if let Some(m2) = issue(&b2, good) {
            present(cx, "another authority", &ap, &good, m2.signature, Some(b2.public.to_bytes()), &good, mid);
            // halves of two signatures
            let mut s = m2.signature.to_bytes();
            s[..32].copy_from_slice(&m.signature.to_bytes()[..32]);
            if let Ok(s) = Signature::from_bytes(&s) {
                present(cx, "halves", &ap, &good, s, None, &good, mid);
            }
        }
        if let Some(m3) = issue(&a, other) {
            present(cx, "another server", &ap, &good, m3.signature, Some(ap), &other, mid);
            present(cx, "another server", &ap, &other, m.signature, Some(ap), &good, mid);
            present(cx, "another server", &ap, &other, m3.signature, Some(ap), &other, mid);
        }
        // fields exchanged
        let b = Body { from: good.until, until: good.from, ..good };
        present(cx, "window exchanged", &ap, &b, m.signature, Some(ap), &good, mid);
        let _ = round;
    }

    // authority keys nobody holds (points of small order): what passes the bare equation s*B = R + k*A was made by nobody
    let hex = |h: &str| {
        let mut b = [0u8; 32];
        for i in 0..32 {
            b[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap();
        }
        b
    };
    let small: Vec<[u8; 32]> = [
        "0100000000000000000000000000000000000000000000000000000000000000",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "0000000000000000000000000000000000000000000000000000000000000080",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
        "0100000000000000000000000000000000000000000000000000000000000080",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    ]
    .iter()
    .map(|h| hex(h))
    .collect();
    let base = hex("5866666666666666666666666666666666666666666666666666666666666666");
    let real = authority(&mut r).public.to_bytes();
    for ak in &small {
        let mut equation = 0;
        for v in 0..24u16 {
            let from = 1000 + (r.next() as u32 >> 2);
            let b = Body { v, from, until: from + 100, stat: static_key(&mut r) };
            let mut forged: Vec<[u8; 64]> = vec![];
            for (rr, s) in small[..8].iter().map(|x| (x, 0u8)).chain([(&base, 1u8)].iter().cloned()) {
                let mut f = [0u8; 64];
                f[..32].copy_from_slice(rr);
                f[32] = s;
                forged.push(f);
            }
            for f in forged {
                if let Ok(sig) = Signature::from_bytes(&f) {
                    let text = [b.v.to_le_bytes().to_vec(), b.from.to_le_bytes().to_vec(), b.until.to_le_bytes().to_vec(), b.stat.to_vec()].concat();
                    let passes = ed25519_dalek::PublicKey::from_bytes(ak).map(|k| ed25519_dalek::Verifier::verify(&k, &text, &sig).is_ok()).unwrap_or(false);
                    if passes {
                        equation += 1;
                    }
                    if passes || v < 2 {
                        present(cx, "key nobody holds", ak, &b, sig, None, &b, (from as i64 + 1, 0));
                        present(cx, "forged", &real, &b, sig, None, &b, (from as i64 + 1, 0));
                    }
                }
            }
        }
        cx.sink.note("forgeries that pass the bare equation", equation);
    }

    // the clock: around every edge, and around the edges of what a clock can say
    let mut windows: Vec<(u32, u32)> = vec![
        (0, 1), (0, u32::max_value()), (1, 2), (u32::max_value() - 1, u32::max_value()), (0, 1 << 31), ((1 << 31) - 1, 1 << 31), ((1 << 31) - 1, (1 << 31) + 1),
        (1 << 31, u32::max_value()), (65535, 65536), (255, 256), (1_600_000_000, 1_700_000_000),
    ];
    for _ in 0..60 * cx.scale {
        let a = r.next() as u32;
        let b = if r.chance(1, 2) { a.saturating_add(1 + r.below(4) as u32) } else { r.next() as u32 };
        if a != b {
            windows.push((a.min(b), a.max(b)));
        }
    }
    for (from, until) in windows {
        let a = authority(&mut r);
        let ap = a.public.to_bytes();
        let b = Body { v: r.next() as u16, from, until, stat: static_key(&mut r) };
        let m = match issue(&a, b) {
            Some(m) => m,
            None => {
                let z = Signature::from_bytes(&[0u8; 64]).unwrap();
                present(cx, "issue", &ap, &b, z, Some(ap), &b, (from as i64, 0));
                continue;
            }
        };
        let mut times: Vec<(i64, i64)> = vec![];
        for e in [from as i64, until as i64].iter() {
            for d in -2..=2 {
                for ns in [0, 1, 999_999_999].iter() {
                    times.push((e + d, *ns));
                }
            }
            // the same time a whole cycle of 32 (or 16, 31) bits earlier or later
            for c in [1i64 << 32, 1 << 33, 1 << 31, 1 << 16].iter() {
                times.push((e + c, 0));
                times.push((e - c, 0));
                times.push((e + c + (until - from) as i64 / 2, 0));
                times.push((e - c + (until - from) as i64 / 2, 7));
            }
        }
        times.push(((from as i64 + until as i64) / 2, 0));
        times.push((0, 0));
        times.push((-1, 0));
        times.push((-1, 999_999_999));
        times.push((i64::max_value() / 4, 0));
        times.push((from as i64 + (r.below(until.wrapping_sub(from).max(1) as usize)) as i64, 0));
        for t in times {
            present(cx, "clock", &ap, &b, m.signature, Some(ap), &b, t);
        }
    }

    // genuine signatures over windows that are empty or turned round: never acceptable
    let mut windows: Vec<(u32, u32)> = vec![
        (0, 0), (1, 1), (1, 0), (u32::max_value(), u32::max_value()), (u32::max_value(), 0), (u32::max_value(), u32::max_value() - 1), (1 << 31, 1 << 31),
        (1 << 31, (1 << 31) - 1), (1_700_000_000, 1_600_000_000), (1_700_000_000, 0), (1_700_000_000, 1_700_000_000), (65536, 65535), (256, 255),
    ];
    for _ in 0..40 * cx.scale {
        let a = r.next() as u32;
        let b = if r.chance(1, 3) { a } else if r.chance(1, 2) { a.saturating_sub(1 + r.below(4) as u32) } else { r.next() as u32 };
        windows.push((a.max(b), a.min(b)));
    }
    for (k, (from, until)) in windows.into_iter().enumerate() {
        let a = authority(&mut r);
        let ap = a.public.to_bytes();
        let b = Body { v: [0, 1, 2, r.next() as u16][k % 4], from, until, stat: static_key(&mut r) };
        let mut raw = b.v.to_le_bytes().to_vec();
        raw.extend_from_slice(&b.from.to_le_bytes());
        raw.extend_from_slice(&b.until.to_le_bytes());
        raw.extend_from_slice(&b.stat);
        let s = a.sign(&raw);
        let mut times = vec![(0i64, 0i64), (1, 0), ((from as i64 + until as i64) / 2, 0), (u32::max_value() as i64, 0), (1_650_000_000, 0)];
        for e in [from as i64, until as i64].iter() {
            for d in -1..=1 {
                times.push((e + d, 0));
            }
            times.push((*e, 999_999_999));
        }
        for t in times {
            present(cx, "no window", &ap, &b, s, Some(ap), &b, t);
        }
    }

    // a certificate assembled once and looked at as time passes
    for _ in 0..10 * cx.scale {
        let a = authority(&mut r);
        let ap = a.public.to_bytes();
        let from = r.next() as u32 / 2 + 5;
        let b = Body { v: 3, from, until: from + 3, stat: static_key(&mut r) };
        if let (Some(m), Some(k)) = (issue(&a, b), key(b.stat)) {
            let text = b58(&ap);
            let made = run(|| CertificateFormat::new(&text, &k, &m));
            if let R::Ok(c) = &made {
                for t in [-2i64, -1, 0, 1, 2, 3, 4, 3, 2, -1, 1, 5, 0].iter() {
                    let now = (from as i64 + t, 0);
                    set_clock(Some(now));
                    let v = run(|| c.verify());
                    set_clock(None);
                    let mut ids = Ids(vec![]);
                    let aid = ids.id(&ap);
                    let s = body_json(&mut ids, Ev::new("sig").i("by", aid), &b).end();
                    let ev = body_json(&mut ids, Ev::new("verify").s("class", "kept"), &b).i("auth", aid).t("point", true).raw("sig", &s).raw("now", &time_json(now.0, now.1)).s("r", v.tag()).end();
                    cx.sink.count(ev.as_bytes());
                    cx.sink.force(ev);
                }
            }
        }
    }

    // authority keys as text
    let mut texts: Vec<Vec<u8>> = vec![];
    let good: Vec<[u8; 32]> = (0..4 * cx.scale).map(|_| authority(&mut r).public.to_bytes()).collect();
    for g in &good {
        let t = b58(g).into_bytes();
        texts.push(t.clone());
        for i in 0..t.len() {
            for c in [b'0', b'O', b'I', b'l', b' ', b'+', 0u8, 127].iter() {
                let mut x = t.clone();
                x[i] = *c;
                texts.push(x);
            }
            let mut x = t.clone();
            x.remove(i);
            texts.push(x);
            let mut x = t.clone();
            x.insert(i, *r.pick(A58));
            texts.push(x);
            let mut x = t.clone();
            x[i] = *r.pick(A58);
            texts.push(x);
        }
        for (pre, post) in [("1", ""), ("11", ""), ("", "1"), (" ", ""), ("", " "), ("", "\n"), ("0x", ""), ("", "="), ("\u{e9}", ""), ("", "\u{e9}")].iter() {
            let mut x = pre.as_bytes().to_vec();
            x.extend(&t);
            x.extend(post.as_bytes());
            texts.push(x);
        }
        texts.push(g.iter().flat_map(|b| format!("{:02x}", b).into_bytes()).collect());
    }
    for n in 0..80usize {
        texts.push(b58(&r.bytes(n)).into_bytes());
        texts.push(b58(&vec![0; n]).into_bytes());
        texts.push(vec![b'1'; n]);
        texts.push(vec![b'z'; n]);
        let mut k = r.bytes(n);
        if n > 2 {
            k[0] = 0;
            k[1] = 0;
        }
        texts.push(b58(&k).into_bytes());
    }
    for _ in 0..200 * cx.scale {
        texts.push(b58(&r.bytes(32)).into_bytes());
    }
    for small in [0u8, 1].iter() {
        let mut k = [0u8; 32];
        k[0] = *small;
        texts.push(b58(&k).into_bytes());
    }
    let a = authority(&mut r);
    let b = Body { v: 0, from: 5, until: 9, stat: static_key(&mut r) };
    let m = issue(&a, b).unwrap_or_else(|| plain_snm(0, 5, 9));
    let k = key(b.stat).unwrap();
    // no other character belongs into an authority key
    let genuine = b58(&a.public.to_bytes());
    let mut taken = vec![];
    for c in crate::gen::beyond_ascii(cx.scale > 1) {
        for s in [format!("{}{}", c, genuine), format!("{}{}", genuine, c), format!("{}{}{}", &genuine[..20], c, &genuine[20..]), format!("{}{}", &genuine[..genuine.len() - 1], c)].iter() {
            cx.sink.evaluations += 1;
            if run(|| CertificateFormat::new(s, &k, &m).map(|_| ())).tag() != "err" && taken.len() < 50 {
                taken.push(s.clone().into_bytes());
            }
        }
    }
    texts.extend(taken);
    for t in texts {
        let s = match String::from_utf8(t.clone()) {
            Ok(s) => s,
            Err(_) => continue,
        };
        let res = run(|| CertificateFormat::new(&s, &k, &m).map(|_| ()));
        let bytes = unb58(&t).unwrap_or_default();
        let point = bytes.len() == 32 && ed25519_dalek::PublicKey::from_bytes(&bytes).is_ok();
        cx.sink.count(&t);
        cx.sink.note("authority key texts", 1);
        cx.sink.force(Ev::new("assemble").bytes("text", &t).bytes("bytes", &bytes).t("point", point).s("r", res.tag()).end());
    }
}

/// a longer thing that begins with the body
fn text_of(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v.extend_from_slice(b);
    v
}

// ------------------------------------------------------------------- C19
pub fn c19(cx: &mut Cx) {
    check_clock();
    let mut r = cx.rng.clone();
    let mut ts: Vec<(i64, i64)> = vec![];
    let nss = [0i64, 1, 2, 499_999_999, 500_000_000, 500_000_001, 999_999_998, 999_999_999];
    for k in 0..63 {
        for d in -2i64..=2 {
            for ns in nss.iter() {
                let s = (1i64 << k).checked_add(d);
                if let Some(s) = s {
                    ts.push((s, *ns));
                    ts.push((-s, *ns));
                }
            }
        }
    }
    for m in 1..40i64 {
        // multiples of 2^32 and what surrounds them
        for d in -2..=2 {
            ts.push((m * (1 << 32) + d, 0));
            ts.push((m * (1 << 31) + d, 999_999_999));
            ts.push((-m * (1 << 32) + d, 0));
        }
    }
    for s in -3..300 {
        for ns in nss.iter() {
            ts.push((s, *ns));
        }
    }
    for _ in 0..40000 * cx.scale {
        let ns = if r.chance(1, 2) { *r.pick(&nss) } else { r.below(1_000_000_000) as i64 };
        let s = match r.below(6) {
            0 => r.next() as i64 >> r.below(40),
            1 | 2 | 3 => r.next() as u32 as i64,
            4 => (1i64 << 32) + (r.next() as u32 >> 16) as i64 - 32768,
            _ => 1_500_000_000 + r.below(500_000_000) as i64,
        };
        ts.push((s, ns));
    }
    ts.push((i64::max_value(), 999_999_999));
    ts.push((i64::min_value() + 1, 0));
    for (i, (s, ns)) in ts.iter().enumerate() {
        let d = Duration::new(s.unsigned_abs(), 0);
        let t = if *s >= 0 { UNIX_EPOCH.checked_add(d) } else { UNIX_EPOCH.checked_sub(d) }.and_then(|t| t.checked_add(Duration::new(0, *ns as u32)));
        if let Some(t) = t {
            let x = run(|| system_unix_time_to_u32(&t));
            let out = *x.ok().unwrap_or(&0);
            // what the specification says, natively, to decide what TLC needs to see
            let want = if *s >= 0 && *s < 1 << 32 { Some(*s as u32) } else { None };
            let bad = match &x {
                R::Ok(v) => Some(*v) != want,
                R::Err(_) => want.is_some(),
                R::Panic => true,
            };
            let ev = Ev::new("time").raw("t", &time_json(*s, *ns)).s("r", x.tag()).raw("out", &dig(out as u64)).end();
            cx.sink.count(ev.as_bytes());
            if bad || i < 12000 || i % 8 == 0 {
                cx.sink.put("time", ev, bad);
            }
        }
        if i % 2 == 0 || i < 4000 {
            set_clock(Some((*s, *ns)));
            let x = run(|| unix_u32_now());
            set_clock(None);
            let out = *x.ok().unwrap_or(&0);
            let want = if *s >= 0 && *s < 1 << 32 { Some(*s as u32) } else { None };
            let bad = match &x {
                R::Ok(v) => Some(*v) != want,
                R::Err(_) => want.is_some(),
                R::Panic => true,
            };
            let ev = Ev::new("now").raw("t", &time_json(*s, *ns)).s("r", x.tag()).raw("out", &dig(out as u64)).end();
            cx.sink.count(ev.as_bytes());
            if bad || i < 8000 || i % 16 == 0 {
                cx.sink.put("now", ev, bad);
            }
        }
    }
    // the real clock: between two readings of it
    for _ in 0..2000 {
        let a = SystemTime::now();
        let x = run(|| unix_u32_now());
        let b = SystemTime::now();
        let (a, b) = (run(|| system_unix_time_to_u32(&a)), run(|| system_unix_time_to_u32(&b)));
        cx.sink.evaluations += 1;
        if let (R::Ok(a), R::Ok(b), R::Ok(x)) = (&a, &b, &x) {
            let t = if x < a { *a } else if x > b { *b } else { *x };
            if t != *x || cx.sink.wants("real clock") {
                cx.sink.put("real clock", Ev::new("now").raw("t", &time_json(t as i64, 0)).s("r", "ok").raw("out", &dig(*x as u64)).end(), t != *x);
            }
        }
    }
}
