//! Objects driven by scripts of their own, alone and in company (C28), recorded for spec/IndepTrace.tla.
use crate::cert::{authority, b58, set_clock};
use crate::codec::Cx;
use crate::gen;
use crate::noise::{pair_of, private, thin};
use crate::subjects::*;
use crate::table::{Tab, Ty};
use crate::val::{hash64, Ev, Rng};
use noiseexplorer_nx::noisesession::NoiseSession;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::process::Command;
use std::str::FromStr;
use std::sync::{Arc, Barrier};
use stratumv2::codec::{deserialize, serialize, ByteParser, Deserializable, Message};
use stratumv2::network::{ConnectionEncryptor, Encryptor, Peer};
use stratumv2::noise::{CertificateFormat, SignatureNoiseMessage, SignedCertificate};
use stratumv2::types::*;

const NOW: i64 = 1_700_000_000;
pub const STEPS: usize = 30;
pub const KINDS: [&str; 8] = ["session", "codec", "certificate", "queue", "reader", "encryptor", "keys", "frames"];

/// An object: every step does one thing to it and tells what came of it.
trait Obj {
    fn step(&mut self, r: &mut Rng, tab: &Tab) -> String;
}

fn say<T: Debug>(r: R<T>) -> String {
    match r {
        R::Ok(x) => format!("ok {:?}", x),
        R::Err(e) => format!("err {}", e.kind),
        R::Panic => "panic".into(),
    }
}

// ------------------------------------------------------------------------------------------ sessions
struct Sessions {
    s: Vec<NoiseSession>,
    /// messages written so far, with the session meant to read them
    net: Vec<(usize, Vec<u8>)>,
}
impl Sessions {
    fn new(r: &mut Rng) -> Sessions {
        let n = r.below(20);
        let pro = r.bytes(n);
        let mut s = vec![];
        for k in 0..4 {
            let mut x = NoiseSession::init_session(k % 2 == 0, &pro, pair_of(private(r)));
            x.set_ephemeral_keypair(pair_of(private(r)));
            s.push(x);
        }
        Sessions { s, net: vec![] }
    }
    fn look(&self, k: usize) -> String {
        let x = &self.s[k];
        format!("{} {:?} {} {:?}", x.is_transport(), x.get_handshake_hash(), x.get_message_count(), x.get_remote_static_public_key().map(|k| k.as_bytes()))
    }
}
impl Obj for Sessions {
    fn step(&mut self, r: &mut Rng, _: &Tab) -> String {
        let w = r.below(10);
        // mostly the honest course
        let pair = r.below(4) / 3;
        let (i, p) = (2 * pair, 2 * pair + 1);
        let (ti, tp) = (self.s[i].is_transport(), self.s[p].is_transport());
        let mut send = |me: &mut Self, k: usize, n: usize, r: &mut Rng| {
            let mut b = r.bytes(n);
            let x = run(|| me.s[k].send_message(&mut b).map_err(stratumv2::error::Error::NoiseError));
            let o = format!("send {} {} {:?} {}", k, say(x), b, me.look(k));
            me.net.push((k ^ 1, b));
            o
        };
        let recv = |me: &mut Self, k: usize, mut b: Vec<u8>| {
            let x = run(|| me.s[k].recv_message(&mut b).map_err(stratumv2::error::Error::NoiseError));
            format!("recv {} {} {:?} {}", k, say(x), b, me.look(k))
        };
        if w < 7 && !(ti && tp) {
            let mut o = String::new();
            if !ti && !tp {
                let n = 32 + r.below(30);
                o += &send(self, i, n, r);
                let m = self.net.last().unwrap().1.clone();
                o += &recv(self, p, m);
                let n = 96 + r.below(30);
                o += &send(self, p, n, r);
            }
            if let Some((_, m)) = self.net.iter().rev().find(|x| x.0 == i).cloned() {
                o += &recv(self, i, m);
            }
            return o;
        }
        match w {
            0..=4 => {
                let k = if r.chance(1, 2) { i } else { p };
                let n = 16 + r.below(40);
                let o = send(self, k, n, r);
                let m = self.net.last().unwrap().1.clone();
                o + &recv(self, k ^ 1, m)
            }
            5 => {
                let k = r.below(4);
                let n = r.below(200);
                send(self, k, n, r)
            }
            6 | 7 if !self.net.is_empty() => {
                let (mut to, mut m) = r.pick(&self.net).clone();
                if r.chance(1, 2) {
                    to = r.below(4);
                }
                if r.chance(1, 2) && !m.is_empty() {
                    let at = r.below(m.len());
                    m[at] ^= 1 << r.below(8);
                }
                recv(self, to, m)
            }
            8 => {
                let both = r.chance(3, 4);
                if r.chance(1, 2) {
                    self.s[i].rekey_local_cipherstate();
                    if both {
                        self.s[p].rekey_local_cipherstate();
                    }
                } else {
                    self.s[p].rekey_remote_cipherstate();
                    if both {
                        self.s[i].rekey_remote_cipherstate();
                    }
                }
                format!("rekey {} {}", self.look(i), self.look(p))
            }
            _ => {
                let k = r.below(4);
                if r.chance(1, 8) {
                    self.s[k].clear_local_cipherstate();
                }
                format!("look {}", self.look(k))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ codec
struct Narrow {
    room: usize,
    got: Vec<u8>,
}
impl std::io::Write for Narrow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.room - self.got.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::from_raw_os_error(28));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Codec {
    subs: Vec<Sub>,
}
impl Obj for Codec {
    fn step(&mut self, r: &mut Rng, tab: &Tab) -> String {
        let mut o = String::new();
        for _ in 0..6 {
            let s = *r.pick(&self.subs);
            let valid = r.chance(2, 3);
            let v = gen::value(tab, s.name, valid, r);
            let c = (s.construct)(&v, r);
            o += &match &c {
                R::Ok(m) => format!("{} {:?} {:?} {} ", s.name, m.out, m.bytes, m.n),
                x => format!("{} {} {} ", s.name, x.tag(), x.kind()),
            };
            if c.ok().is_some() {
                // a writer that takes so much and no more
                let room = r.below(80);
                let mut w = Narrow { room, got: vec![] };
                let x = (s.write)(&v, r, &mut w);
                o += &format!("{} {} {:?} ", x.tag(), x.ok().map_or(0, |n| *n), w.got);
            }
            if let Some(d) = s.decode {
                let b = gen::input(tab, s.name, r);
                o += &match d(&b, r.below(2) as u8) {
                    R::Ok(m) => format!("{:?} {:?} {} {:?} ", m.out, m.re, m.used, m.lf),
                    x => format!("{} {} ", x.tag(), x.kind()),
                };
            }
        }
        o
    }
}

struct Frames {
    subs: Vec<Sub>,
}
impl Obj for Frames {
    fn step(&mut self, r: &mut Rng, tab: &Tab) -> String {
        let s = *r.pick(&self.subs);
        let v = gen::value(tab, s.name, true, r);
        let mut o = format!("{} ", s.name);
        if let R::Ok((m, _)) = (s.frame.expect("harness: framed"))(&v, r) {
            let b = say(run(|| serialize(&m)));
            o += &format!("{} {:?} {}", message_type_name(&m.message_type), m.payload, b);
            let q = *r.pick(&self.subs);
            o += &say((q.unframe.expect("harness: framed"))(&m));
            o += &say((s.unframe.expect("harness: framed"))(&m));
            let h = r.bytes(6);
            // classes of the application's own, some of which give up on the way
            for _ in 0..3 {
                let (k, n) = (r.below(MESSAGE_TYPES.len()), r.below(50));
                let body = r.bytes(n);
                let fail = if r.chance(1, 2) { Some(r.below(n + 1)) } else { None };
                o += &match crate::own::own_frame(k, &body, fail) {
                    R::Ok(m) => format!("{} {:?} {} ", message_type_name(&m.message_type), m.payload, say(crate::own::own_unframe(k, &m))),
                    x => x.kind().to_string(),
                };
            }
            o += &match run(|| deserialize::<Message>(&h)) {
                R::Ok(m) => format!("{} {:?}", message_type_name(&m.message_type), m.payload),
                x => x.kind().to_string(),
            };
        }
        o
    }
}

// ------------------------------------------------------------------------------------------ certificates
struct Certificates {
    auth: Vec<stratumv2::noise::AuthorityKeyPair>,
    issued: Vec<(usize, [u8; 32], SignatureNoiseMessage)>,
}
impl Obj for Certificates {
    fn step(&mut self, r: &mut Rng, _: &Tab) -> String {
        set_clock(Some((NOW, 5)));
        let mut o = String::new();
        if self.issued.is_empty() || r.chance(1, 3) {
            let kp = pair_of(private(r));
            let a = r.below(self.auth.len());
            let from = (NOW - 1000 + r.below(2000) as i64) as u32;
            let until = (NOW - 1000 + r.below(2000) as i64) as u32;
            let (v, auth) = (r.below(3) as u16, &self.auth[a]);
            let m = run(|| SignedCertificate::new(v, from, until, &kp.get_public_key()).and_then(|c| SignatureNoiseMessage::from_auth_key(auth, &c)));
            o += &match &m {
                R::Ok(m) => format!("issued {:?} ", serialize(m).ok()),
                x => x.kind().to_string(),
            };
            if let R::Ok(m) = m {
                self.issued.push((a, kp.get_public_key().as_bytes(), m));
            }
        }
        for _ in 0..3 {
            if self.issued.is_empty() {
                break;
            }
            let (mut a, mut key, mut m) = r.pick(&self.issued).clone();
            match r.below(6) {
                0 => a = r.below(self.auth.len()),
                1 => key = r.pick(&self.issued).1,
                2 => m.signature = r.pick(&self.issued).2.signature,
                3 => m.version ^= 1,
                4 => m.not_valid_after = m.not_valid_after.wrapping_add(1),
                _ => {}
            }
            let text = b58(&self.auth[a].public.to_bytes());
            o += &say(run(|| {
                let k = stratumv2::noise::StaticPublicKey::from_bytes(key).map_err(stratumv2::error::Error::NoiseError)?;
                CertificateFormat::new(&text, &k, &m)?.verify()
            }));
        }
        set_clock(None);
        o
    }
}

// ------------------------------------------------------------------------------------------ queues, readers, encryptors, keys
struct Queue {
    p: Peer<ConnectionEncryptor>,
    n: u32,
}
impl Obj for Queue {
    fn step(&mut self, r: &mut Rng, _: &Tab) -> String {
        for _ in 0..r.below(6) {
            self.n += 1;
            let mt = r.pick(MESSAGE_TYPES).1;
            let k = r.below(9);
            let mut b = self.n.to_be_bytes().to_vec();
            b.extend(r.bytes(k));
            self.p.pending_msg_buffer.lock().expect("queue").push(Message::new(mt, b));
        }
        let mut o = format!("{} {} ", self.n, self.p.setup_conn_msg.is_some());
        if r.chance(1, 2) {
            for m in self.p.get_pending_msgs() {
                o += &format!("{} {:?} ", message_type_name(&m.message_type), m.payload);
            }
        }
        o
    }
}

struct Reader {
    p: ByteParser<'static>,
}
impl Obj for Reader {
    fn step(&mut self, r: &mut Rng, _: &Tab) -> String {
        let p = &mut self.p;
        match r.below(8) {
            0 => { let n = r.below(5); say(run(|| p.next_by(n).map(|b| b.to_vec()))) }
            1 => { let n = r.below(2000); say(run(|| p.next_by(n).map(|b| b.to_vec()))) }
            2 => say(run(|| u16::deserialize(p))),
            3 => say(run(|| U24::deserialize(p))),
            4 => say(run(|| STR0_32::deserialize(p))),
            5 => say(run(|| B0_31::deserialize(p))),
            6 => say(run(|| bool::deserialize(p))),
            _ => say(run(|| u8::deserialize(p))),
        }
    }
}

struct Encryptors {
    e: Vec<ConnectionEncryptor>,
    net: Vec<Vec<u8>>,
    key: [u8; 32],
}
impl Obj for Encryptors {
    fn step(&mut self, r: &mut Rng, _: &Tab) -> String {
        let k = r.below(2);
        let key = self.key;
        let e = &mut self.e[k];
        let x = if self.net.is_empty() || r.chance(1, 6) {
            run(|| e.init_handshake())
        } else {
            let mut m = if r.chance(4, 5) { self.net.last().unwrap().clone() } else { r.pick(&self.net).clone() };
            if r.chance(1, 8) && !m.is_empty() {
                let at = r.below(m.len());
                m[at] ^= 4;
            }
            run(|| e.recv_handshake(&mut m))
        };
        let o = format!("{} {} {} {} {:?}", k, x.tag(), x.kind(), e.is_handshake_complete(), e.get_remote_pubkey().map(|p| p.as_bytes() == key));
        // what is written carries random keys; its length does not
        let l = x.ok().map(|m| m.len());
        if let R::Ok(m) = x {
            if !m.is_empty() {
                self.net.push(m);
            }
        }
        format!("{} {:?}", o, l)
    }
}

struct Keys;
impl Obj for Keys {
    fn step(&mut self, r: &mut Rng, _: &Tab) -> String {
        let mut k = r.bytes(32);
        if r.chance(1, 4) {
            k = vec![0; 32];
            k[r.below(32)] = r.below(2) as u8;
        }
        let mut a = [0u8; 32];
        a.copy_from_slice(&k);
        let mut s: String = k.iter().map(|b| format!("{:02x}", b)).collect();
        if r.chance(1, 3) {
            s.truncate(r.below(64));
        }
        use noiseexplorer_nx::types::*;
        format!(
            "{:?} {:?} {:?} {:?}",
            PublicKey::from_bytes(a).ok().map(|p| p.as_bytes()),
            PublicKey::from_str(&s).ok().map(|p| p.as_bytes()),
            PrivateKey::from_str(&s).ok().map(|p| p.generate_public_key().ok().map(|p| p.as_bytes())),
            Keypair::from_private_key(PrivateKey::from_bytes(a)).ok().map(|p| p.get_public_key().as_bytes()),
        )
    }
}

fn create(kind: usize, r: &mut Rng, tab: &Tab) -> Box<dyn Obj> {
    match KINDS[kind] {
        "session" => Box::new(Sessions::new(r)),
        "codec" => Box::new(Codec { subs: subjects().into_iter().filter(|s| !matches!(tab.ty(s.name), Ty::Sum)).collect() }),
        "frames" => Box::new(Frames { subs: subjects().into_iter().filter(|s| s.frame.is_some()).collect() }),
        "certificate" => Box::new(Certificates { auth: (0..2).map(|_| authority(r)).collect(), issued: vec![] }),
        "queue" => Box::new(Queue { p: Peer::new(ConnectionEncryptor::new_outbound()), n: 0 }),
        "reader" => {
            let n = 40 + r.below(60);
            let b: Vec<u8> = (0..n).map(|_| if r.chance(1, 2) { r.below(4) as u8 } else { b'a' + r.below(26) as u8 }).collect();
            let b: &'static [u8] = Box::leak(b.into_boxed_slice());
            Box::new(Reader { p: ByteParser::new(b, r.below(3)) })
        }
        "encryptor" => {
            let kp = pair_of(private(r));
            let key = kp.get_public_key().as_bytes();
            Box::new(Encryptors { e: vec![ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(Some(kp))], net: vec![], key })
        }
        _ => Box::new(Keys),
    }
}

/// A script: kind and seed; a run of it.
pub struct Run {
    obj: Box<dyn Obj>,
    rng: Rng,
}
impl Run {
    fn new(script: (usize, u64), tab: &Tab) -> Run {
        let mut rng = Rng::new(script.1.wrapping_mul(0x9E37_79B9).wrapping_add(script.0 as u64));
        Run { obj: create(script.0, &mut rng, tab), rng }
    }
    fn step(&mut self, tab: &Tab) -> u64 {
        hash64(self.obj.step(&mut self.rng, tab).as_bytes())
    }
    fn all(script: (usize, u64), tab: &Tab) -> Vec<u64> {
        let mut x = Run::new(script, tab);
        (0..STEPS).map(|_| x.step(tab)).collect()
    }
}

/// sv2drive --alone TABLES kind:seed: prints what it answers.
pub fn child(tables: &str, arg: &str) {
    let tab = Tab::load(tables);
    let p: Vec<u64> = arg.split(':').map(|x| x.parse().unwrap()).collect();
    for x in Run::all((p[0] as usize, p[1]), &tab) {
        println!("{}", x);
    }
}
fn alone(tables: &str, s: (usize, u64)) -> Vec<u64> {
    let exe = std::env::current_exe().expect("harness: own path");
    let o = Command::new(exe).arg("--alone").arg(tables).arg(format!("{}:{}", s.0, s.1)).output().expect("harness: child");
    assert!(o.status.success(), "harness: child failed: {}", String::from_utf8_lossy(&o.stderr));
    String::from_utf8(o.stdout).unwrap().lines().map(|l| l.parse().unwrap()).collect()
}

type Script = (usize, u64);
type Seen = BTreeMap<Script, Vec<(String, usize, u64)>>;

pub fn c28(cx: &mut Cx, tables: &str) {
    let per = 6 * cx.scale as u64;
    let base = cx.rng.next() >> 16;
    let scripts: Vec<Script> = (0..KINDS.len()).flat_map(|k| (0..per).map(move |i| (k, base + i))).collect();
    let mut seen: Seen = BTreeMap::new();
    let add = |seen: &mut Seen, s: Script, ctx: &str, v: Vec<u64>| {
        let e = seen.entry(s).or_default();
        for (k, x) in v.into_iter().enumerate() {
            e.push((ctx.to_string(), k, x));
        }
    };
    // alone, each in a process of its own
    for chunk in scripts.chunks(8) {
        let hs: Vec<_> = chunk
            .iter()
            .map(|s| {
                let (s, t) = (*s, tables.to_string());
                std::thread::spawn(move || alone(&t, s))
            })
            .collect();
        for (s, h) in chunk.iter().zip(hs) {
            add(&mut seen, *s, "alone", h.join().expect("harness: thread"));
        }
    }
    // one after another, and again
    for round in 0..2 {
        for s in &scripts {
            let v = Run::all(*s, cx.tab);
            add(&mut seen, *s, if round == 0 { "after others" } else { "again" }, v);
        }
    }
    // step by step with others, in the orders TLC gives
    let list: Vec<(Vec<usize>, Vec<usize>)> = match std::env::var("SV2_BEHAVIOURS_indep") {
        Ok(p) => std::fs::read_to_string(p).expect("behaviours").lines().map(|l| serde_json::from_str(l).expect("behaviour")).collect(),
        Err(_) => vec![],
    };
    let phase = cx.rng.below(97);
    for (i, (runs, order)) in thin(&list, 400 * cx.scale, phase).into_iter().enumerate() {
        // the scripts the model's objects run: of one kind, or of several
        let k = i % (KINDS.len() + 2);
        let pick = |m: usize, r: &mut Rng| -> Script {
            if k < KINDS.len() {
                (k, base + ((m + i / KINDS.len()) as u64) % per)
            } else {
                *r.pick(&scripts)
            }
        };
        let chosen: Vec<Script> = (1..=3).map(|m| pick(m, &mut cx.rng)).collect();
        let mut objs: Vec<(Script, Run, usize)> = runs.iter().map(|m| (chosen[m - 1], Run::new(chosen[m - 1], cx.tab), 0)).collect();
        let burst = STEPS / (order.len() / runs.len());
        for o in order {
            for _ in 0..burst {
                let (s, x, n) = &mut objs[o - 1];
                let y = x.step(cx.tab);
                seen.entry(*s).or_default().push(("interleaved".to_string(), *n, y));
                *n += 1;
            }
        }
        cx.sink.behaviours += 1;
    }
    // all at once
    for round in 0..6 * cx.scale {
        for (kk, group) in (0..4).map(|g| {
            let mut v: Vec<Script> = vec![];
            for t in 0..8usize {
                v.push(match g {
                    0 => scripts[(t * per as usize + round) % scripts.len()],
                    1 => (round % KINDS.len(), base + t as u64 % per),
                    2 => ([0, 5][round % 2], base + (t + round) as u64 % per),
                    _ => scripts[(round * 7 + t / 2) % scripts.len()],
                });
            }
            (g, v)
        }) {
            let gate = Arc::new(Barrier::new(group.len()));
            let hs: Vec<_> = group
                .iter()
                .map(|s| {
                    let (s, g, t) = (*s, gate.clone(), tables.to_string());
                    std::thread::spawn(move || {
                        let tab = Tab::load(&t);
                        let mut out = vec![];
                        g.wait();
                        for _ in 0..4 {
                            out.push(Run::all(s, &tab));
                        }
                        out
                    })
                })
                .collect();
            for (s, h) in group.iter().zip(hs) {
                for v in h.join().expect("harness: thread") {
                    add(&mut seen, *s, ["threads", "threads", "threads", "twice at once"][kk], v);
                }
            }
        }
        cx.sink.behaviours += 4;
    }
    // the first thing a new thread does
    for s in &scripts {
        let v = {
            let t = tables.to_string();
            let s = *s;
            std::thread::spawn(move || Run::all(s, &Tab::load(&t))).join().expect("harness: thread")
        };
        add(&mut seen, *s, "new thread", v);
    }
    for (s, all) in seen {
        let reference: BTreeMap<usize, u64> = all.iter().filter(|x| x.0 == "alone").map(|x| (x.1, x.2)).collect();
        let mut evs = vec![];
        let mut shown: BTreeMap<(String, usize), usize> = BTreeMap::new();
        for (ctx, k, y) in &all {
            cx.key("indep", ctx, format!("{:?} {} {}", s, k, y).as_bytes());
            let differs = reference.get(k) != Some(y);
            let n = shown.entry((ctx.clone(), *k)).or_insert(0);
            *n += 1;
            if ctx != "alone" && !differs && *n > 1 {
                continue;
            }
            if differs {
                if *n > 3 {
                    continue;
                }
                cx.sink.interesting += 1;
            }
            let e = Ev::new("answer")
                .s("key", &format!("{}:{}:{}", KINDS[s.0], s.1, k))
                .s("ctx", ctx)
                .s("res", &format!("{:016x}", y))
                .t("first", evs.is_empty())
                .end();
            evs.push(e);
        }
        cx.sink.note(&format!("answers of {}", KINDS[s.0]), all.len() as u64);
        cx.sink.behaviours += 1;
        cx.sink.group(&evs);
    }
}
