//! Drivers for Noise sessions and connection encryptors (C11-C17, C21).  Everything the sessions do
//! is recorded as histories which TLC judges against spec/Noise.tla (NoiseTrace.tla).
use crate::codec::Cx;
use crate::mem;
use crate::refnx;
use crate::subjects::{chain_of, E, R};
use crate::val::{hash64, Ev, Rng};
use noiseexplorer_nx::error::NoiseError;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use stratumv2::network::{ConnectionEncryptor, Encryptor};
use stratumv2::noise::{new_noise_initiator, new_noise_responder, NoiseSession};

pub fn hooked() -> bool {
    cfg!(sv2_verif)
}

/// Result of a noise call.
pub fn nrun<T>(f: impl FnOnce() -> Result<T, NoiseError>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => R::Ok(x),
        Ok(Err(e)) => {
            let (chain, shown) = chain_of(&e);
            R::Err(E { kind: "Noise", chain, shown })
        }
        Err(_) => R::Panic,
    }
}

pub enum Ses {
    Plain(NoiseSession),
    Enc(ConnectionEncryptor),
}

pub struct S {
    pub x: Option<Ses>,
    pub init: bool,
    sec: Secrets,
}

/// The secrets of a session, as far as they are known here (C25).
#[derive(Default)]
struct Secrets {
    owner: u64,
    pro: Vec<u8>,
    stat: Option<[u8; 32]>,
    eph: Option<[u8; 32]>,
    /// ephemeral public key, read off the wire
    shown: Vec<u8>,
    a: Vec<u8>,
    b: Vec<u8>,
    hs: Vec<Vec<u8>>,
    /// per direction, the keys after 0, 1, .. rekeys
    keys: [Vec<Vec<u8>>; 2],
    gone: [bool; 2],
    done: bool,
    searched: usize,
}
static OWNERS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

/// One world: sessions, a network, and the record of everything that happened.
pub struct W {
    ids: HashMap<Vec<u8>, i64>,
    pub evs: Vec<String>,
    pub ses: Vec<S>,
    texts: Vec<Vec<u8>>,
    pub rng: Rng,
    pub calls: u64,
    sum: u64,
    pub each: Vec<u64>,
    /// the protocol, when memory is watched
    watch: Option<Arc<(refnx::Program, refnx::Program)>>,
    known: u64,
}

fn dig(n: u64) -> String {
    format!("[{},{},{},{}]", n >> 48, n >> 32 & 0xffff, n >> 16 & 0xffff, n & 0xffff)
}

pub fn private(r: &mut Rng) -> [u8; 32] {
    let mut k = [0u8; 32];
    k.copy_from_slice(&r.bytes(32));
    k
}
pub fn pair_of(k: [u8; 32]) -> Keypair {
    Keypair::from_private_key(PrivateKey::from_bytes(k)).expect("harness: key pair")
}

fn owner() -> u64 {
    OWNERS.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

impl Secrets {
    /// A handshake message went by: the first (a) or the second, of one's own if it was sent.
    fn saw(&mut self, init: bool, a: bool, m: &[u8]) {
        if a {
            self.a = m.to_vec();
        } else {
            self.b = m.to_vec();
        }
        if a == init && m.len() >= 32 {
            self.shown = m[..32].to_vec();
        }
    }
}

impl W {
    pub fn new(seed: u64) -> W {
        W { ids: HashMap::new(), evs: vec!["{\"op\":\"world\"}".into()], ses: vec![], texts: vec![], rng: Rng::new(seed), calls: 0, sum: seed, each: vec![], watch: None, known: 0 }
    }
    pub fn id(&mut self, b: &[u8]) -> i64 {
        let n = self.ids.len() as i64 + 1;
        *self.ids.entry(b.to_vec()).or_insert(n)
    }
    /// random bytes without zeros
    pub fn text(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| (self.rng.byte() % 255) + 1).collect()
    }
    fn tp(&self, s: usize) -> bool {
        match &self.ses[s].x {
            Some(Ses::Plain(x)) => x.is_transport(),
            Some(Ses::Enc(x)) => x.is_handshake_complete(),
            None => false,
        }
    }
    pub fn is_t(&self, s: usize) -> bool {
        self.tp(s)
    }
    fn obs(&mut self, s: usize) -> String {
        let (tp, h, rs, mc, n) = match &self.ses[s].x {
            Some(Ses::Plain(x)) => {
                #[cfg(sv2_verif)]
                let n = {
                    let (a, b) = x.verif_nonces();
                    format!("[{},{}]", dig(a), dig(b))
                };
                #[cfg(not(sv2_verif))]
                let n = "[]".to_string();
                (x.is_transport(), x.get_handshake_hash().map(|h| h.to_vec()), x.get_remote_static_public_key().map(|k| k.as_bytes().to_vec()), x.get_message_count() as i64, n)
            }
            Some(Ses::Enc(x)) => (x.is_handshake_complete(), None, x.get_remote_pubkey().map(|k| k.as_bytes().to_vec()), -1, "[]".to_string()),
            None => return "{\"tp\":false,\"h\":0,\"rs\":0,\"mc\":-1,\"n\":[]}".into(),
        };
        let enc = matches!(self.ses[s].x, Some(Ses::Enc(_)));
        let h = h.map(|h| self.id(&h)).unwrap_or(if enc { -1 } else { 0 });
        let rs = rs.map(|h| self.id(&h)).unwrap_or(0);
        format!("{{\"tp\":{},\"h\":{},\"rs\":{},\"mc\":{},\"n\":{}}}", tp, h, rs, mc, n)
    }
    fn log(&mut self, s: usize, e: Ev, r: &str) {
        self.calls += 1;
        if r == "panic" {
            self.ses[s].x = None;
        }
        let o = self.obs(s);
        let line = e.s("r", r).raw("obs", &o).end();
        self.sum = hash64(line.as_bytes()) ^ self.sum.rotate_left(5);
        self.evs.push(line);
        if self.watch.is_some() {
            self.mem(s);
        }
    }
    /// Which of the secrets known here are in the session's memory?
    fn mem(&mut self, s: usize) {
        let owner = self.ses[s].sec.owner;
        let image = match &self.ses[s].x {
            Some(Ses::Plain(x)) => mem::image(x, owner),
            Some(Ses::Enc(x)) => mem::image(x, owner),
            None => return,
        };
        let tp = self.tp(s);
        let init = self.ses[s].init;
        let prog = self.watch.clone().unwrap();
        let c = &mut self.ses[s].sec;
        if c.eph.is_none() && !c.shown.is_empty() && (init && !tp || c.searched < 2) {
            c.searched += 1;
            c.eph = mem::private_of(&image, &c.shown);
        }
        if tp && !c.done {
            c.done = true;
            let mut env = refnx::Env::new();
            let mut know = |k: &str, v: &[u8]| {
                env.insert(k.to_string(), v.to_vec());
            };
            if let (Some(e), true) = (c.eph, c.a.len() >= 32 && c.b.len() >= 96) {
                know("prologue", &c.pro);
                know("EI", &c.a[..32]);
                know("payloadA", &c.a[32..]);
                know("ER", &c.b[..32]);
                know("c1", &c.b[32..80]);
                know("c2", &c.b[80..]);
                let ok = if init {
                    know("eI", &e);
                    prog.0.fill(&mut env)
                } else {
                    know("eR", &e);
                    if let Some(k) = c.stat {
                        know("sR", &k);
                        know("SR", &refnx::public(&k));
                    }
                    prog.1.fill(&mut env)
                };
                if ok {
                    c.hs = ["ee", "es", "ck1", "k1", "ck2", "k2"].iter().filter_map(|n| env.get(*n).cloned()).collect();
                    for (d, n) in ["key1", "key2"].iter().enumerate() {
                        c.keys[d] = env.get(*n).into_iter().cloned().collect();
                    }
                }
            }
        }
        let mut held: Vec<String> = vec![];
        if c.stat.map_or(false, |k| mem::holds(&image, &k)) {
            held.push("[\"s\",0,0]".into());
        }
        if c.eph.map_or(false, |k| mem::holds(&image, &k)) {
            held.push("[\"e\",0,0]".into());
        }
        if c.hs.iter().any(|k| mem::holds(&image, k)) {
            held.push("[\"hs\",0,0]".into());
        }
        for d in 0..2 {
            for (j, k) in c.keys[d].iter().enumerate() {
                if mem::holds(&image, k) {
                    held.push(format!("[\"key\",{},{}]", d + 1, j));
                }
            }
        }
        if tp && !c.keys[0].is_empty() {
            self.known += 1;
        }
        let line = Ev::new("mem").i("s", s as i64 + 1).raw("held", &format!("[{}]", held.join(","))).end();
        self.evs.push(line);
    }
    fn born(&mut self, init: bool, pro: &[u8], stat: i64, eph: i64, x: Ses, sec: Secrets) -> usize {
        let pro = self.id(pro);
        self.ses.push(S { x: Some(x), init, sec });
        let s = self.ses.len() - 1;
        let e = Ev::new("new").s("role", if init { "I" } else { "R" }).i("pro", pro).i("stat", stat).i("eph", eph);
        self.log(s, e, "ok");
        s
    }
    pub fn plain(&mut self, init: bool, pro: &[u8], stat: Option<[u8; 32]>, eph: Option<[u8; 32]>) -> usize {
        let k = stat.unwrap_or_else(|| private(&mut self.rng));
        let kp = pair_of(k);
        let pk = self.id(&kp.get_public_key().as_bytes());
        let owner = owner();
        let mut x = mem::owned(owner, || NoiseSession::init_session(init, pro, kp));
        let mut e = 0;
        let eph = if eph.is_none() && self.watch.is_some() && self.rng.chance(3, 4) { Some(private(&mut self.rng)) } else { eph };
        if let Some(k) = eph {
            let kp = pair_of(k);
            e = self.id(&kp.get_public_key().as_bytes());
            mem::owned(owner, || x.set_ephemeral_keypair(kp));
        }
        self.born(init, pro, pk, e, Ses::Plain(x), Secrets { owner, pro: pro.to_vec(), stat: Some(k), eph, ..Secrets::default() })
    }
    /// through stratumv2::noise
    pub fn stock(&mut self, init: bool) -> usize {
        if init {
            let u = self.id(b"initiator static");
            let owner = owner();
            let x = mem::owned(owner, || new_noise_initiator());
            self.born(true, &[], u, 0, Ses::Plain(x), Secrets { owner, ..Secrets::default() })
        } else {
            let k = private(&mut self.rng);
            let kp = pair_of(k);
            let pk = self.id(&kp.get_public_key().as_bytes());
            let owner = owner();
            let x = mem::owned(owner, || new_noise_responder(Some(kp)));
            self.born(false, &[], pk, 0, Ses::Plain(x), Secrets { owner, stat: Some(k), ..Secrets::default() })
        }
    }
    pub fn enc(&mut self, init: bool, known: bool) -> usize {
        if init {
            let u = self.id(b"initiator static");
            let owner = owner();
            let x = mem::owned(owner, || ConnectionEncryptor::new_outbound());
            self.born(true, &[], u, 0, Ses::Enc(x), Secrets { owner, ..Secrets::default() })
        } else if known {
            let k = private(&mut self.rng);
            let kp = pair_of(k);
            let pk = self.id(&kp.get_public_key().as_bytes());
            let owner = owner();
            let x = mem::owned(owner, || ConnectionEncryptor::new_inbound(Some(kp)));
            self.born(false, &[], pk, 0, Ses::Enc(x), Secrets { owner, stat: Some(k), ..Secrets::default() })
        } else {
            self.born(false, &[], -1, 0, Ses::Enc(ConnectionEncryptor::new_inbound(None)), Secrets::default())
        }
    }

    /// Sends what is in buf; buf becomes the message.
    pub fn send(&mut self, s: usize, buf: &mut Vec<u8>) -> bool {
        let t = self.tp(s);
        let init = self.ses[s].init;
        let before = buf.clone();
        let owner = self.ses[s].sec.owner;
        let r = match &mut self.ses[s].x {
            Some(Ses::Plain(x)) => mem::owned(owner, || nrun(|| x.send_message(buf))),
            Some(Ses::Enc(x)) => {
                // opening: the encryptor chooses the buffer
                match mem::owned(owner, || crate::subjects::run(|| x.init_handshake())) {
                    R::Ok(v) => {
                        *buf = v;
                        R::Ok(())
                    }
                    R::Err(e) => R::Err(e),
                    R::Panic => R::Panic,
                }
            }
            None => return false,
        };
        let enc = matches!(self.ses[s].x, Some(Ses::Enc(_)));
        let len = if enc && r.tag() != "ok" { 1024 } else { buf.len() };
        let ok = r.tag() == "ok";
        if ok && !t {
            self.ses[s].sec.saw(init, init, buf);
        }
        let m = if ok { self.id(buf) } else { 0 };
        let e = if ok && !t && buf.len() >= 32 { self.id(&buf[..32].to_vec()) } else { 0 };
        let mut ks = 0;
        let pl = if enc || !ok {
            -1
        } else if t && before.len() >= 16 {
            let p = &before[..before.len() - 16];
            if p.len() >= 16 {
                let mut k: Vec<u8> = b"keystream".to_vec();
                k.extend((0..16).map(|i| p[i] ^ buf[i]));
                ks = self.id(&k);
                self.texts.push(p.to_vec());
            }
            let p = p.to_vec();
            self.id(&p)
        } else if !init && before.len() >= 96 {
            let p = before[80..before.len() - 16].to_vec();
            self.id(&p)
        } else {
            -1
        };
        let ev = Ev::new("send").i("s", s as i64 + 1).i("len", len as i64).i("m", m).i("e", e).i("pl", pl).i("ks", ks);
        self.log(s, ev, r.tag());
        ok
    }
    fn leaks(&self, input: &[u8], after: &[u8]) -> bool {
        self.texts.iter().rev().take(40).any(|p| {
            let n = p.len().min(after.len());
            let hits = |b: &[u8]| (0..n).filter(|i| b[*i] == p[*i]).count() * 4 >= n * 3;
            n >= 16 && hits(after) && !hits(input)
        })
    }
    /// Delivers a message; what the buffer holds afterwards if it was accepted.
    pub fn recv(&mut self, s: usize, msg: &[u8]) -> Option<Vec<u8>> {
        let t = self.tp(s);
        let init = self.ses[s].init;
        let mut buf = msg.to_vec();
        let owner = self.ses[s].sec.owner;
        let r = match &mut self.ses[s].x {
            Some(Ses::Plain(x)) => mem::owned(owner, || nrun(|| x.recv_message(&mut buf))),
            _ => return None,
        };
        let ok = r.tag() == "ok";
        if ok && !t {
            self.ses[s].sec.saw(init, !init, msg);
        }
        let n = buf.len();
        let out = if !ok {
            -1
        } else if t {
            let b = buf[..n.max(16) - 16].to_vec();
            self.id(&b)
        } else if init && n >= 96 {
            let b = buf[80..n - 16].to_vec();
            self.id(&b)
        } else if !init && n >= 32 {
            let b = buf[32..].to_vec();
            self.id(&b)
        } else {
            -1
        };
        let leak = t && !ok && self.leaks(msg, &buf);
        let ev = self.arrival("recv", s, msg, t).i("out", out).t("leak", leak);
        self.log(s, ev, r.tag());
        if ok {
            Some(buf)
        } else {
            None
        }
    }
    fn arrival(&mut self, op: &str, s: usize, msg: &[u8], t: bool) -> Ev {
        let m = self.id(msg);
        let pay = if !t && msg.len() >= 32 { self.id(&msg[32..].to_vec()) } else { -1 };
        Ev::new(op).i("s", s as i64 + 1).i("m", m).i("len", msg.len() as i64).bytes("eb", if !t && msg.len() >= 32 { &msg[..32] } else { &[] }).i("pay", pay)
    }
    /// An encryptor handles a handshake message; what it answers.
    pub fn handle(&mut self, s: usize, msg: &[u8]) -> Option<Vec<u8>> {
        let t = self.tp(s);
        let init = self.ses[s].init;
        let mut buf = msg.to_vec();
        let owner = self.ses[s].sec.owner;
        let r = match &mut self.ses[s].x {
            Some(Ses::Enc(x)) => mem::owned(owner, || crate::subjects::run(|| x.recv_handshake(&mut buf))),
            _ => return None,
        };
        let ans = r.ok().cloned();
        if let (false, Some(a)) = (t, &ans) {
            self.ses[s].sec.saw(init, !init, msg);
            if !init {
                self.ses[s].sec.saw(init, false, a);
            }
        }
        let (m2, e) = match &ans {
            Some(a) => (self.id(a), if !t && !init && a.len() >= 32 { self.id(&a[..32].to_vec()) } else { 0 }),
            None => (0, 0),
        };
        let ev = self.arrival("handle", s, msg, t).i("m2", m2).i("e", e);
        self.log(s, ev, r.tag());
        ans
    }
    /// Delivers by whatever means the session has.
    pub fn deliver(&mut self, s: usize, msg: &[u8]) -> Option<Vec<u8>> {
        match &self.ses[s].x {
            Some(Ses::Enc(_)) => self.handle(s, msg),
            _ => self.recv(s, msg),
        }
    }
    pub fn rekey(&mut self, s: usize, d: i64) {
        let r = match &mut self.ses[s].x {
            Some(Ses::Plain(x)) => nrun(|| Ok(if d == 1 { x.rekey_local_cipherstate() } else { x.rekey_remote_cipherstate() })),
            _ => return,
        };
        let c = &mut self.ses[s].sec;
        if let (false, Some(k)) = (c.gone[d as usize - 1], c.keys[d as usize - 1].last().map(|k| refnx::rekey(k))) {
            c.keys[d as usize - 1].push(k);
        }
        self.log(s, Ev::new("rekey").i("s", s as i64 + 1).i("d", d), r.tag());
    }
    pub fn clear(&mut self, s: usize, d: i64) {
        let r = match &mut self.ses[s].x {
            Some(Ses::Plain(x)) => nrun(|| Ok(if d == 1 { x.clear_local_cipherstate() } else { x.clear_remote_cipherstate() })),
            _ => return,
        };
        let c = &mut self.ses[s].sec;
        c.gone[d as usize - 1] |= c.done;
        self.log(s, Ev::new("clear").i("s", s as i64 + 1).i("d", d), r.tag());
    }
    pub fn set_eph(&mut self, s: usize, k: [u8; 32]) {
        let kp = pair_of(k);
        self.ses[s].sec.eph = Some(k);
        let e = self.id(&kp.get_public_key().as_bytes());
        let r = match &mut self.ses[s].x {
            Some(Ses::Plain(x)) => nrun(|| Ok(x.set_ephemeral_keypair(kp))),
            _ => return,
        };
        self.log(s, Ev::new("seteph").i("s", s as i64 + 1).i("e", e), r.tag());
    }
    #[allow(unused_variables)]
    pub fn set_n(&mut self, s: usize, n1: u64, n2: u64) {
        #[cfg(sv2_verif)]
        {
            let r = match &mut self.ses[s].x {
                Some(Ses::Plain(x)) => nrun(|| Ok(x.verif_set_nonces(n1, n2))),
                _ => return,
            };
            let ev = Ev::new("setn").i("s", s as i64 + 1).raw("n", &format!("[{},{}]", dig(n1), dig(n2)));
            self.log(s, ev, r.tag());
        }
    }
    pub fn look(&mut self, s: usize) {
        if self.ses[s].x.is_some() {
            self.log(s, Ev::new("look").i("s", s as i64 + 1), "ok");
        }
    }
    /// k messages from one end to the other, compared here; keystreams must differ.
    pub fn bulk(&mut self, s: usize, to: usize, k: usize, seen: &mut HashSet<[u8; 16]>) {
        let (mut sent, mut got, mut same, mut fresh) = (0i64, 0i64, true, true);
        let same_text = self.text(24);
        for _ in 0..k {
            let mut b = same_text.clone();
            b.extend_from_slice(&[0; 16]);
            let a = match &mut self.ses[s].x {
                Some(Ses::Plain(x)) => nrun(|| x.send_message(&mut b)).tag(),
                _ => "none",
            };
            if a != "ok" {
                break;
            }
            sent += 1;
            let mut ks = [0u8; 16];
            for i in 0..16 {
                ks[i] = b[i] ^ same_text[i];
            }
            fresh &= seen.insert(ks);
            let a = match &mut self.ses[to].x {
                Some(Ses::Plain(x)) => nrun(|| x.recv_message(&mut b)).tag(),
                _ => "none",
            };
            if a != "ok" {
                break;
            }
            got += 1;
            same &= b[..24] == same_text[..];
        }
        self.calls += 2 * k as u64;
        self.evs.push(Ev::new("bulk").i("s", s as i64 + 1).i("to", to as i64 + 1).i("k", k as i64).i("sent", sent).i("got", got).t("same", same).t("fresh", fresh).end());
        self.look(s);
        self.look(to);
    }
    /// k messages, with `ahead` more always on their way: at every one of them the later ones, old ones, altered ones
    /// and the message itself sent back are tried first.  Compared here.
    pub fn bulk_wild(&mut self, s: usize, to: usize, k: usize, ahead: usize) {
        let (mut sent, mut got, mut same) = (0i64, 0i64, true);
        let mut q: std::collections::VecDeque<(Vec<u8>, Vec<u8>)> = Default::default();
        let mut old: Vec<Vec<u8>> = vec![];
        let recv = |w: &mut W, at: usize, b: &mut Vec<u8>| match &mut w.ses[at].x {
            Some(Ses::Plain(x)) => nrun(|| x.recv_message(b)).tag() == "ok",
            _ => false,
        };
        'all: for n in 0..k {
            while q.len() <= ahead && n + q.len() < k {
                let mut b = self.text(8);
                let plain = b.clone();
                b.extend_from_slice(&[0; 16]);
                let a = match &mut self.ses[s].x {
                    Some(Ses::Plain(x)) => nrun(|| x.send_message(&mut b)).tag(),
                    _ => "none",
                };
                if a != "ok" {
                    break 'all;
                }
                sent += 1;
                q.push_back((b, plain));
            }
            let (m, plain) = q.pop_front().expect("queue");
            let mut tries: Vec<(usize, Vec<u8>)> = vec![];
            for j in 0..q.len().min(3) {
                tries.push((to, q[j].0.clone()));
            }
            if q.len() > 3 {
                let j = self.rng.below(q.len());
                tries.push((to, q[j].0.clone()));
            }
            for j in [1usize, 2, 64].iter() {
                if *j <= old.len() {
                    tries.push((to, old[old.len() - j].clone()));
                }
            }
            let mut x = m.clone();
            let at = self.rng.below(x.len());
            x[at] ^= 1 << self.rng.below(8);
            tries.push((to, x));
            tries.push((s, m.clone()));
            for (at, mut b) in tries {
                same &= !recv(self, at, &mut b);
                self.calls += 1;
            }
            let mut b = m.clone();
            if !recv(self, to, &mut b) {
                break;
            }
            got += 1;
            same &= b[..8] == plain[..];
            old.push(m);
        }
        self.calls += 2 * k as u64;
        self.evs.push(Ev::new("bulk").i("s", s as i64 + 1).i("to", to as i64 + 1).i("k", k as i64).i("sent", sent).i("got", got).t("same", same).t("fresh", true).end());
        self.look(s);
        self.look(to);
    }
    /// One message of every size in from..=upto (in steps), compared here.
    pub fn bulk_sizes(&mut self, s: usize, to: usize, from: usize, upto: usize, step: usize) {
        let (mut sent, mut got, mut same, mut k) = (0i64, 0i64, true, 0);
        let tail = self.text(64);
        let mut stuck = -1;
        for n in (from..=upto).step_by(step) {
            k += 1;
            if stuck >= 0 {
                continue;
            }
            let mut b = vec![(n % 251) as u8; n];
            for i in 0..tail.len().min(n - 16) {
                b[n - 17 - i] = tail[i];
            }
            let plain = b[..n - 16].to_vec();
            let a = match &mut self.ses[s].x {
                Some(Ses::Plain(x)) => nrun(|| x.send_message(&mut b)).tag(),
                _ => "none",
            };
            if a != "ok" {
                stuck = n as i64;
                continue;
            }
            sent += 1;
            let a = match &mut self.ses[to].x {
                Some(Ses::Plain(x)) => nrun(|| x.recv_message(&mut b)).tag(),
                _ => "none",
            };
            if a != "ok" {
                stuck = n as i64;
                continue;
            }
            got += 1;
            same &= b[..n - 16] == plain[..];
        }
        self.calls += 2 * k as u64;
        self.evs.push(
            Ev::new("bulk").i("s", s as i64 + 1).i("to", to as i64 + 1).i("k", k as i64).i("sent", sent).i("got", got).t("same", same).t("fresh", true).i("from", from as i64).i("stuck", stuck).end(),
        );
        self.look(s);
        self.look(to);
    }
    /// The same refused call k times: sending, or receiving msg (or messages of its length nobody sent).
    pub fn storm(&mut self, s: usize, send: bool, msg: &[u8], k: usize) {
        let mut errs = 0i64;
        let owner = self.ses[s].sec.owner;
        // sent or received here before: the same every time
        let known = self.ids.contains_key(msg);
        let m = if known { self.id(msg) } else { 0 };
        for _ in 0..k {
            let mut b = if known || send { msg.to_vec() } else { self.rng.bytes(msg.len()) };
            let r = match &mut self.ses[s].x {
                Some(Ses::Plain(x)) => mem::owned(owner, || nrun(|| if send { x.send_message(&mut b) } else { x.recv_message(&mut b) })).tag(),
                Some(Ses::Enc(x)) if send => mem::owned(owner, || crate::subjects::run(|| x.init_handshake())).tag(),
                _ => return,
            };
            if r == "err" {
                errs += 1;
            } else {
                break;
            }
        }
        self.calls += k as u64;
        let len = if let Some(Ses::Enc(_)) = self.ses[s].x { 1024 } else { msg.len() };
        let e = Ev::new("storm").i("s", s as i64 + 1).s("call", if send { "send" } else { "recv" }).i("m", m).i("len", len as i64).i("k", k as i64).i("errs", errs);
        let o = self.obs(s);
        let line = e.raw("obs", &o).end();
        self.sum = hash64(line.as_bytes()) ^ self.sum.rotate_left(5);
        self.evs.push(line);
    }
    pub fn rekeys(&mut self, s: usize, d: i64, k: usize) {
        let r = match &mut self.ses[s].x {
            Some(Ses::Plain(x)) => nrun(|| {
                for _ in 0..k {
                    if d == 1 {
                        x.rekey_local_cipherstate()
                    } else {
                        x.rekey_remote_cipherstate()
                    }
                }
                Ok(())
            }),
            _ => return,
        };
        self.calls += k as u64;
        self.log(s, Ev::new("rekeys").i("s", s as i64 + 1).i("d", d).i("k", k as i64), r.tag());
    }
    /// Says that another implementation made second message msg in answer to a.
    pub fn craft(&mut self, msg: &[u8], a: &[u8], pro: &[u8], stat: &[u8], pl: &[u8]) {
        let (m, a, p, st, pl) = (self.id(msg), self.id(a), self.id(pro), self.id(stat), self.id(pl));
        self.evs.push(Ev::new("craft").i("m", m).i("a", a).i("pro", p).i("stat", st).bytes("sb", stat).i("pl", pl).end());
    }
    pub fn ev(&mut self, line: String) {
        self.calls += 1;
        self.sum = hash64(line.as_bytes()) ^ self.sum.rotate_left(5);
        self.each.push(hash64(line.as_bytes()));
        self.evs.push(line);
    }

    /// An undisturbed handshake between sessions i and r.
    pub fn shake(&mut self, i: usize, r: usize, la: usize, lb: usize) -> bool {
        let mut a = self.text(la);
        if !self.send(i, &mut a) {
            return false;
        }
        self.recv(r, &a);
        let mut b = self.text(lb);
        if !self.send(r, &mut b) {
            return false;
        }
        self.recv(i, &b).is_some()
    }
    pub fn ready(&mut self) -> (usize, usize) {
        let np = self.rng.below(5) * 7;
        let pro = self.text(np);
        let i = self.plain(true, &pro, None, None);
        let r = self.plain(false, &pro, None, None);
        let (la, lb) = (32 + self.rng.below(40), 96 + self.rng.below(40));
        self.shake(i, r, la, lb);
        (i, r)
    }
    /// A transport message of n plaintext bytes.
    pub fn say(&mut self, s: usize, n: usize) -> Option<Vec<u8>> {
        let mut b = self.text(n + 16);
        if self.send(s, &mut b) {
            Some(b)
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- running
pub type Job = Box<dyn Fn(&mut W) + Send + Sync>;

pub fn run_jobs(cx: &mut Cx, jobs: Vec<(String, Job)>) {
    let seed = cx.rng.next();
    let n = jobs.len();
    let jobs = Arc::new(jobs);
    let next = Arc::new(Mutex::new(0usize));
    let out: Arc<Mutex<Vec<Option<(String, Vec<String>, u64, Vec<u64>)>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let (jobs, next, out) = (jobs.clone(), next.clone(), out.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let k = {
                        let mut g = next.lock().unwrap();
                        let k = *g;
                        *g += 1;
                        k
                    };
                    if k >= n {
                        break;
                    }
                    let mut w = W::new(seed ^ (k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
                    (jobs[k].1)(&mut w);
                    out.lock().unwrap()[k] = {
                        w.each.push(w.sum);
                        Some((jobs[k].0.clone(), w.evs, w.calls, w.each))
                    };
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().expect("harness: worker");
    }
    let mut g = out.lock().unwrap();
    for o in g.iter_mut() {
        let (class, evs, calls, each) = o.take().expect("harness: job result");
        cx.sink.evaluations += calls.max(each.len() as u64) - each.len() as u64;
        for k in each {
            cx.sink.count(&k.to_le_bytes());
        }
        cx.sink.note(&format!("histories: {}", class), 1);
        cx.sink.behaviours += 1;
        cx.sink.group(&evs);
    }
}

pub fn job(v: &mut Vec<(String, Job)>, class: &str, f: impl Fn(&mut W) + Send + Sync + 'static) {
    v.push((class.to_string(), Box::new(f)));
}

pub fn scripts(tag: &str) -> Vec<Vec<Vec<i64>>> {
    match std::env::var(format!("SV2_BEHAVIOURS_{}", tag)) {
        Ok(p) => std::fs::read_to_string(p).expect("behaviours").lines().map(|l| serde_json::from_str(l).expect("behaviour")).collect(),
        Err(_) => vec![],
    }
}

/// An even selection of at most n.
pub fn thin<T: Clone>(v: &[T], n: usize, phase: usize) -> Vec<T> {
    if v.len() <= n {
        return v.to_vec();
    }
    let step = v.len() as f64 / n as f64;
    (0..n).map(|i| v[((i as f64 + (phase % 97) as f64 / 97.0) * step) as usize % v.len()].clone()).collect()
}

/// Replays one history generated by TLC (MCNoise.tla).
fn replay(w: &mut W, setup: &str, ops: &[Vec<i64>], nonces: u64) {
    let mut net: Vec<Vec<u8>> = vec![];
    match setup {
        "pair" => {
            w.plain(true, b"one", None, None);
            w.plain(false, b"one", None, None);
        }
        "enc" => {
            w.enc(true, true);
            w.enc(false, true);
            w.enc(true, true);
        }
        "cross" => {
            w.plain(true, b"one", None, None);
            w.plain(false, b"one", None, None);
            w.plain(true, b"two", None, None);
            w.plain(false, b"one", None, None);
        }
        _ => {
            w.plain(true, b"one", None, None);
            w.plain(false, b"one", None, None);
            let mut a = w.text(140);
            w.send(0, &mut a);
            w.recv(1, &a);
            net.push(a);
            let mut b = w.text(140);
            w.send(1, &mut b);
            w.recv(0, &b);
            net.push(b);
            if nonces != 0 {
                w.set_n(0, nonces, nonces);
                w.set_n(1, nonces, nonces);
            }
        }
    }
    for o in ops {
        let s = o[1] as usize - 1;
        match o[0] {
            1 => {
                let n = 110 + w.rng.below(90);
                let mut b = w.text(n);
                if w.send(s, &mut b) {
                    net.push(b);
                }
            }
            5 => {
                let n = w.rng.below(16);
                let mut b = w.text(n);
                w.send(s, &mut b);
            }
            2 | 6 | 7 => {
                let k = o[2] as usize;
                let mut m = if k == 0 || k > net.len() { w.text(150) } else { net[k - 1].clone() };
                if o[0] == 6 {
                    let n = w.rng.below(16);
                    m.truncate(n);
                }
                if o[0] == 7 {
                    if let Some(a) = w.handle(s, &m) {
                        net.push(a);
                    }
                } else {
                    w.recv(s, &m);
                }
            }
            3 => w.rekey(s, o[2]),
            4 => w.clear(s, o[2]),
            8 => {
                let k = private(&mut w.rng);
                w.set_eph(s, k);
            }
            _ => panic!("harness: script op"),
        }
    }
    for s in 0..w.ses.len() {
        w.look(s);
    }
}

fn replays(cx: &mut Cx, jobs: &mut Vec<(String, Job)>, setup: &'static str, most: usize) {
    let all = scripts(setup);
    cx.sink.note(&format!("histories generated by TLC ({})", setup), all.len() as u64);
    let phase = cx.rng.below(97);
    for (i, sc) in thin(&all, most * cx.scale, phase).into_iter().enumerate() {
        // in the model a direction carries two messages; every other replay starts two short of the end
        let nonces = if setup == "transport" && i % 2 == 1 { u64::max_value() - 2 } else { 0 };
        job(jobs, &format!("TLC {}", setup), move |w| replay(w, setup, &sc, nonces));
    }
}

/// Mangles a message in one of many ways.
fn mangle(w: &mut W, m: &[u8]) -> Vec<u8> {
    let mut b = m.to_vec();
    match w.rng.below(9) {
        0 | 1 | 2 if !b.is_empty() => {
            let i = w.rng.below(b.len());
            b[i] ^= 1 << w.rng.below(8);
        }
        3 => {
            let n = w.rng.below(b.len() + 1);
            b.truncate(n);
        }
        4 => {
            let n = 1 + w.rng.below(20);
            let t = w.text(n);
            b.extend(t);
        }
        5 => b.extend_from_slice(&[0; 16]),
        6 if b.len() > 1 => {
            let i = w.rng.below(b.len() - 1);
            if b[i] == b[i + 1] {
                b[i] ^= 0x40;
            } else {
                b.swap(i, i + 1);
            }
        }
        7 if b.len() > 1 => {
            b.remove(0);
        }
        _ => {
            let n = m.len();
            b = w.text(n);
        }
    }
    if b == m {
        b.push(1);
    }
    b
}

#[derive(Clone, Copy)]
struct Mix {
    pairs: usize,
    enc: bool,
    ready: bool,
    keys: bool,
    sizes: bool,
    steps: usize,
}

const SIZES: [usize; 26] = [0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 79, 80, 81, 95, 96, 97, 111, 112, 113, 1024, 65535, 65536, 65537];

/// Everything at random: the network delivers, alters, repeats, reorders, drops and misroutes.
fn chaos(w: &mut W, m: Mix) {
    let mut net: Vec<(usize, Vec<u8>)> = vec![];
    for p in 0..m.pairs {
        let pro: Vec<u8> = if w.rng.chance(1, 3) { vec![p as u8] } else { vec![] };
        if m.enc {
            if w.rng.chance(1, 3) {
                w.stock(true);
            } else {
                w.enc(true, true);
            }
            if w.rng.chance(1, 3) {
                w.stock(false);
            } else {
                let k = w.rng.chance(2, 3);
                w.enc(false, k);
            }
        } else {
            w.plain(true, &pro, None, None);
            let other = w.rng.chance(1, 6);
            w.plain(false, if other { b"other" } else { &pro }, None, None);
        }
        if m.ready {
            let (i, r) = (w.ses.len() - 2, w.ses.len() - 1);
            let n = 1 + w.rng.below(96);
            let mut a = w.text(95 + n);
            if w.send(i, &mut a) {
                net.push((i, a.clone()));
                w.recv(r, &a);
                let mut b = w.text(96 + n);
                if w.send(r, &mut b) {
                    net.push((r, b.clone()));
                    w.recv(i, &b);
                }
            }
        }
    }
    let n = w.ses.len();
    // what each session was last sent, so that genuine traffic keeps flowing
    let mut inbox: Vec<Vec<Vec<u8>>> = vec![vec![]; n];
    let peer = |s: usize| s ^ 1;
    for _ in 0..m.steps {
        let s = w.rng.below(n);
        let size = if m.sizes && w.rng.chance(1, 2) {
            *w.rng.pick(&SIZES)
        } else if !w.is_t(s) {
            96 + w.rng.below(60)
        } else {
            16 + w.rng.below(80)
        };
        match w.rng.below(if m.keys { 22 } else { 16 }) {
            0..=4 => {
                let mut b = w.text(size);
                if w.send(s, &mut b) {
                    net.push((s, b.clone()));
                    inbox[peer(s)].push(b);
                }
            }
            5..=9 => {
                // the next genuine one
                if !inbox[s].is_empty() {
                    let b = inbox[s].remove(0);
                    if let Some(a) = w.deliver(s, &b) {
                        if matches!(w.ses[s].x, Some(Ses::Enc(_))) {
                            net.push((s, a.clone()));
                            inbox[peer(s)].push(a);
                        }
                    }
                }
            }
            10 | 11 => {
                if !net.is_empty() {
                    let b = w.rng.pick(&net).1.clone();
                    w.deliver(s, &b);
                }
            }
            12 | 13 => {
                if let Some(b) = inbox[s].get(0).cloned() {
                    let b = mangle(w, &b);
                    w.deliver(s, &b);
                }
            }
            14 => {
                let b = w.text(size);
                w.deliver(s, &b);
            }
            15 => {
                if inbox[s].len() > 1 {
                    let k = 1 + w.rng.below(inbox[s].len() - 1);
                    let b = inbox[s][k].clone();
                    w.deliver(s, &b);
                }
            }
            16 | 17 => {
                let d = 1 + w.rng.below(2) as i64;
                w.rekey(s, d);
            }
            18 | 19 => {
                // both ends rekey the same direction
                let d = 1 + w.rng.below(2) as i64;
                if inbox[s].is_empty() && inbox[peer(s)].is_empty() {
                    w.rekey(s, d);
                    w.rekey(peer(s), d);
                }
            }
            20 => {
                if w.rng.chance(1, 4) {
                    let d = 1 + w.rng.below(2) as i64;
                    w.clear(s, d);
                } else if w.rng.chance(1, 3) {
                    let k = private(&mut w.rng);
                    w.set_eph(s, k);
                }
            }
            _ => w.look(s),
        }
    }
    // the genuine traffic left over
    for s in 0..n {
        for b in inbox[s].drain(..).collect::<Vec<_>>() {
            w.deliver(s, &b);
        }
        w.look(s);
    }
}

fn chaoses(cx: &mut Cx, jobs: &mut Vec<(String, Job)>, n: usize, m: Mix) {
    for _ in 0..n * cx.scale {
        job(jobs, if m.ready { "random transport" } else { "random" }, move |w| chaos(w, m));
    }
}

const PLAIN: Mix = Mix { pairs: 1, enc: false, ready: false, keys: false, sizes: false, steps: 14 };

// -------------------------------------------------------------------- C11
pub fn c11(cx: &mut Cx) {
    let mut jobs = vec![];
    replays(cx, &mut jobs, "pair", 6000);
    chaoses(cx, &mut jobs, 1200, PLAIN);
    chaoses(cx, &mut jobs, 300, Mix { pairs: 2, steps: 30, keys: true, ..PLAIN });
    chaoses(cx, &mut jobs, 300, Mix { enc: true, ..PLAIN });
    // long lives: completion is never lost, whatever arrives afterwards
    for k in 0..40 * cx.scale {
        job(&mut jobs, "after completion", move |w| {
            let (i, r) = w.ready();
            for step in 0..20 {
                for &s in [i, r].iter() {
                    match (k + step) % 7 {
                        0 => {
                            let b = w.text(120);
                            w.recv(s, &b);
                        }
                        1 => {
                            w.say(s, 64);
                        }
                        2 => w.clear(s, 1),
                        3 => w.rekey(s, 2),
                        4 => {
                            let k = private(&mut w.rng);
                            w.set_eph(s, k);
                        }
                        5 => {
                            let mut b = vec![];
                            w.send(s, &mut b);
                            w.recv(s, &b);
                        }
                        _ => w.look(s),
                    }
                }
            }
        });
    }
    // whatever is done to the keys of a completed session
    for code in 0..6 * 6 * 6 * 6usize {
        job(&mut jobs, "after completion", move |w| {
            let (i, r) = w.ready();
            let s = if code % 7 < 4 { i } else { r };
            let mut c = code;
            for _ in 0..4 {
                match c % 6 {
                    0 => w.clear(s, 1),
                    1 => w.clear(s, 2),
                    2 => w.rekey(s, 1),
                    3 => w.rekey(s, 2),
                    4 => {
                        w.say(s, 5);
                    }
                    _ => {
                        let b = w.text(40);
                        w.recv(s, &b);
                    }
                }
                w.look(s);
                c /= 6;
            }
            w.look(i);
            w.look(r);
        });
    }
    // refused openings and answers, repeated, then the real thing
    for role in 0..2 {
        for n in 0..12usize {
            job(&mut jobs, "out of turn", move |w| {
                let i = w.plain(true, b"p", None, None);
                let r = w.plain(false, b"p", None, None);
                for _ in 0..n {
                    let l = 96 + w.rng.below(40);
                    let mut b = w.text(l);
                    if role == 0 {
                        w.send(r, &mut b);
                        w.recv(i, &b);
                    } else {
                        w.recv(i, &b);
                        w.send(r, &mut b);
                    }
                }
                let mut a = w.text(100);
                w.send(i, &mut a);
                for k in 0..n {
                    if role == 1 && k % 3 == 2 {
                        let e = private(&mut w.rng);
                        w.set_eph(i, e);
                    }
                    let mut b = w.text(100);
                    w.send(i, &mut b); // opening again
                }
                w.recv(r, &a);
                for _ in 0..n {
                    w.recv(r, &a);
                    let b = w.text(100);
                    w.recv(r, &b);
                }
                let mut b = w.text(100);
                w.send(r, &mut b);
                w.recv(i, &b);
                for _ in 0..3 {
                    for (x, y) in [(i, r), (r, i)].iter() {
                        if let Some(t) = w.say(*x, 40) {
                            w.recv(*y, &t);
                        }
                    }
                }
            });
        }
    }
    // rekeying and clearing before there is anything to rekey or clear
    for order in 0..16 {
        job(&mut jobs, "early key operations", move |w| early(w, order));
    }
    // out of turn again and again
    for n in [200usize, 300, 3000, 40000, 70000].iter().cloned() {
        for which in 0..4 {
            job(&mut jobs, "out of turn again and again", move |w| storms(w, which, n, &[100]));
        }
    }
    run_jobs(cx, jobs);
}

/// A handshake and some traffic, with storms of refused calls before (which & 1) and after the first message (which & 2).
fn storms(w: &mut W, which: usize, n: usize, sizes: &[usize]) {
    let i = w.plain(true, b"p", None, None);
    let r = w.plain(false, b"p", None, None);
    let both = |w: &mut W, on: bool, s: usize, send: bool| {
        if on {
            for l in sizes {
                let b = w.text(*l);
                w.storm(s, send, &b, n);
            }
        }
    };
    both(w, which & 1 != 0, r, true);
    both(w, which & 1 != 0, i, false);
    let mut a = w.text(100);
    w.send(i, &mut a);
    both(w, which & 2 != 0, i, true);
    both(w, which & 1 == 0, r, true);
    w.recv(r, &a);
    both(w, which & 2 != 0, r, false);
    w.storm(r, false, &a, n);
    let mut b = w.text(100);
    if !w.send(r, &mut b) {
        return;
    }
    both(w, which & 2 == 0, i, true);
    w.recv(i, &b);
    for _ in 0..2 {
        for (x, y) in [(i, r), (r, i)].iter() {
            if let Some(t) = w.say(*x, 40) {
                w.recv(*y, &t);
            }
        }
    }
}

fn early(w: &mut W, order: usize) {
    let i = w.plain(true, b"p", None, None);
    let r = w.plain(false, b"p", None, None);
    let ops = |w: &mut W, on: bool| {
        if on {
            for s in [i, r].iter() {
                w.rekey(*s, 1);
                w.clear(*s, 2);
                w.rekey(*s, 2);
                w.clear(*s, 1);
                w.rekey(*s, 1);
            }
        }
    };
    ops(w, order & 1 != 0);
    let mut a = w.text(100);
    w.send(i, &mut a);
    ops(w, order & 2 != 0);
    w.recv(r, &a);
    ops(w, order & 4 != 0);
    let mut b = w.text(100);
    w.send(r, &mut b);
    if order & 8 != 0 {
        for _ in 0..2 {
            w.rekey(i, 1);
            w.clear(i, 2);
        }
    }
    w.recv(i, &b);
    for _ in 0..3 {
        for (x, y) in [(i, r), (r, i)].iter() {
            if let Some(t) = w.say(*x, 40) {
                w.recv(*y, &t);
            }
        }
    }
}

// -------------------------------------------------------------------- C12
pub fn c12(cx: &mut Cx) {
    let mut jobs = vec![];
    crate::attack::attacks(cx, &mut jobs, 6000, 100);
    replays(cx, &mut jobs, "cross", 6000);
    chaoses(cx, &mut jobs, 500, Mix { pairs: 2, steps: 24, ..PLAIN });
    chaoses(cx, &mut jobs, 150, Mix { pairs: 4, steps: 60, ..PLAIN });
    chaoses(cx, &mut jobs, 150, Mix { pairs: 2, enc: true, steps: 24, ..PLAIN });
    // every bit of both messages
    for &(la, lb) in [(32usize, 96usize), (48, 113), (41, 128)].iter().take(if cx.scale > 1 { 3 } else { 2 }) {
        for bit in 0..la * 8 {
            job(&mut jobs, "bit of the first message", move |w| altered(w, la, lb, Some(bit), None));
        }
        for bit in 0..lb * 8 {
            job(&mut jobs, "bit of the second message", move |w| altered(w, la, lb, None, Some(bit)));
        }
    }
    for k in 0..200 * cx.scale {
        job(&mut jobs, "bits of long messages", move |w| {
            let (la, lb) = (1000 + w.rng.below(3000), 1000 + w.rng.below(3000));
            let (x, y) = (w.rng.below(la * 8), w.rng.below(lb * 8));
            if k % 2 == 0 {
                altered(w, la, lb, Some(x), None)
            } else {
                altered(w, la, lb, None, Some(y))
            }
        });
    }
    // the longest messages, in places
    for k in 7..17 {
        let len = (1usize << k) - 1;
        for at in vec![32, 33, 96, len / 2, len - 33, len - 17, len - 16, len - 2, len - 1] {
            for bit in [0usize, 7].iter().cloned() {
                job(&mut jobs, "bits of long messages", move |w| altered(w, len, 128, Some(at * 8 + bit), None));
                job(&mut jobs, "bits of long messages", move |w| altered(w, 64, len, None, Some(at * 8 + bit)));
            }
        }
    }
    for len in [33usize, 97, 127, 128, 129, 255, 256, 257, 1023, 1024, 4096, 16384, 16417, 32768, 40000, 65535].iter().cloned() {
        job(&mut jobs, "cut or extended", move |w| {
            for k in 0..4 {
                let i = w.plain(true, b"p", None, None);
                let r = w.plain(false, b"p", None, None);
                let mut a = w.text(len);
                w.send(i, &mut a);
                let mut a2 = a.clone();
                match k {
                    0 => a2.truncate(len - 1),
                    1 if len < 65535 => a2.push(0),
                    2 => a2.extend(vec![0; (65535 - len).min(64)]),
                    _ => a2.extend(vec![7; 65535 - len]),
                }
                w.recv(r, &a2);
                let mut b = w.text(130);
                if w.send(r, &mut b) {
                    w.recv(i, &b);
                }
            }
        });
    }
    // messages that are mostly one repeated byte, cut, extended or changed anywhere in it
    for len in [33usize, 64, 97, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65535].iter().cloned() {
        for fill in [0u8, 0xff, 0x20].iter().cloned() {
            job(&mut jobs, "cut or extended", move |w| {
                let cuts = [1usize, 2, 16, 64, len / 4, len / 2, len * 3 / 4, len - 33, len - 32];
                for k in 0..cuts.len() + 8 {
                    let i = w.plain(true, b"p", None, None);
                    let r = w.plain(false, b"p", None, None);
                    let mut a = vec![fill; len];
                    w.send(i, &mut a);
                    let mut a2 = a.clone();
                    match k {
                        0 => {}
                        1 if len < 65535 => a2.push(fill),
                        2 => a2.extend(vec![fill; (65535 - len).min(64)]),
                        3 => a2.extend(vec![fill; (65535 - len).min(len)]),
                        4 => a2.extend(vec![fill; 65535 - len]),
                        5 => a2[len - 1] ^= 1,
                        6 => a2[32 + (len - 32) / 2] ^= 0x20,
                        7 => a2.swap(31, len - 1),
                        _ => a2.truncate(len - cuts[k.saturating_sub(8).min(cuts.len() - 1)].min(len - 32)),
                    }
                    w.recv(r, &a2);
                    let mut b = vec![fill; 130];
                    if w.send(r, &mut b) {
                        w.recv(i, &b);
                    }
                }
            });
        }
    }
    // every truncation and extension
    for n in 0..260usize {
        job(&mut jobs, "cut or extended", move |w| {
            for first in [true, false].iter() {
                let i = w.plain(true, b"p", None, None);
                let r = w.plain(false, b"p", None, None);
                let mut a = w.text(130);
                w.send(i, &mut a);
                let fit = |w: &mut W, m: &[u8]| {
                    let mut m = m.to_vec();
                    let more = if w.rng.chance(1, 2) { vec![0; 400] } else { w.text(400) };
                    m.extend(more);
                    m.truncate(n);
                    m
                };
                let a2 = if *first { fit(w, &a) } else { a.clone() };
                w.recv(r, &a2);
                let mut b = w.text(130);
                if !w.send(r, &mut b) {
                    continue;
                }
                let b2 = if *first { b.clone() } else { fit(w, &b) };
                w.recv(i, &b2);
                w.recv(i, &b);
                if let Some(t) = w.say(r, 30) {
                    w.recv(i, &t);
                }
            }
        });
    }
    // prologues: equal ones agree, any difference shows
    let lens = [0usize, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 5000];
    for (n, fill) in lens.iter().map(|n| (*n, None)).chain([1usize, 32, 64, 100, 1000, 9000, 70_000].iter().flat_map(|n| vec![(*n, Some(0u8)), (*n, Some(0xff)), (*n, Some(0x20))])) {
        job(&mut jobs, "prologues", move |w| {
            let base = match fill {
                Some(x) => vec![x; n],
                None => w.text(n),
            };
            let mut vs: Vec<Vec<u8>> = vec![base.clone()];
            for k in [1usize, 2, 16, 32, 64, 4096].iter() {
                let mut v = base.clone();
                v.extend(vec![0; *k]);
                vs.push(v);
                let mut v = base.clone();
                v.extend(vec![fill.unwrap_or(0xff); *k]);
                vs.push(v);
                let mut v = vec![0; *k];
                v.extend(&base);
                vs.push(v);
                if *k <= n {
                    vs.push(base[..n - k].to_vec());
                    vs.push(base[*k..].to_vec());
                }
            }
            if n > 0 {
                for at in [0, n / 2, n - 1].iter() {
                    for bit in [1u8, 0x80].iter() {
                        let mut v = base.clone();
                        v[*at] ^= *bit;
                        vs.push(v);
                    }
                }
            }
            vs.sort();
            vs.dedup();
            for v in vs {
                for flip in [true, false].iter() {
                    let (p, q) = if *flip { (&base, &v) } else { (&v, &base) };
                    let i = w.plain(true, p, None, None);
                    let r = w.plain(false, q, None, None);
                    w.shake(i, r, 60, 120);
                }
            }
        });
    }
    // same keys, different sessions: no message of one handshake passes for another's
    for k in 0..60 * cx.scale {
        job(&mut jobs, "misrouted", move |w| {
            let stat = private(&mut w.rng);
            let is: Vec<usize> = (0..3).map(|_| w.plain(true, b"p", None, None)).collect();
            let rs: Vec<usize> = (0..3).map(|j| w.plain(false, b"p", if j < 2 { Some(stat) } else { None }, None)).collect();
            let same = w.text(130);
            let mut a = vec![];
            for i in &is {
                let mut m = same.clone();
                w.send(*i, &mut m);
                a.push(m);
            }
            let rot = 1 + k % 2;
            for (j, r) in rs.iter().enumerate() {
                let m = a[if k % 3 == 0 { 0 } else { j }].clone();
                w.recv(*r, &m);
            }
            let mut b = vec![];
            for r in &rs {
                let mut m = same.clone();
                w.send(*r, &mut m);
                b.push(m);
            }
            for (j, i) in is.iter().enumerate() {
                let m = b[(j + rot) % 3].clone();
                // pieces of different messages put together
                if k % 4 == 1 {
                    let mut mix = b[j].clone();
                    let cut = [32, 80, 114][k % 3];
                    mix[..cut].copy_from_slice(&m[..cut]);
                    w.recv(*i, &mix);
                } else {
                    w.recv(*i, &m);
                }
            }
            for (x, i) in is.iter().enumerate() {
                if let Some(t) = w.say(*i, 32) {
                    w.recv(rs[x], &t);
                }
            }
        });
    }
    // reflection: an initiator's own messages, a responder's own answer
    for _ in 0..4 {
        job(&mut jobs, "reflected", |w| {
            let i = w.plain(true, b"p", None, None);
            let r = w.plain(false, b"p", None, None);
            let mut a = w.text(130);
            w.send(i, &mut a);
            w.recv(i, &a);
            let i2 = w.plain(true, b"p", None, None);
            let mut a2 = w.text(130);
            w.send(i2, &mut a2);
            w.recv(r, &a2);
            let mut b = w.text(130);
            w.send(r, &mut b);
            w.recv(r, &b);
            w.recv(i2, &a);
            let i3 = w.plain(true, b"p", None, None);
            w.recv(i3, &b);
            w.recv(i2, &b);
        });
    }
    run_jobs(cx, jobs);
}

fn altered(w: &mut W, la: usize, lb: usize, fa: Option<usize>, fb: Option<usize>) {
    let i = w.plain(true, b"p", None, None);
    let r = w.plain(false, b"p", None, None);
    let mut a = w.text(la);
    w.send(i, &mut a);
    let mut a2 = a.clone();
    if let Some(b) = fa {
        a2[b / 8] ^= 1 << (b % 8);
    }
    w.recv(r, &a2);
    let mut b = w.text(lb);
    if !w.send(r, &mut b) {
        return;
    }
    let mut b2 = b.clone();
    if let Some(x) = fb {
        b2[x / 8] ^= 1 << (x % 8);
    }
    w.recv(i, &b2);
    if fb.is_some() {
        w.recv(i, &b);
    }
}

// -------------------------------------------------------------------- C14
pub fn c14(cx: &mut Cx) {
    let mut jobs = vec![];
    replays(cx, &mut jobs, "transport", 2500);
    chaoses(cx, &mut jobs, 700, Mix { ready: true, steps: 40, ..PLAIN });
    chaoses(cx, &mut jobs, 120, Mix { ready: true, pairs: 3, steps: 120, ..PLAIN });
    chaoses(cx, &mut jobs, 80, Mix { ready: true, steps: 60, keys: true, ..PLAIN });
    // every bit of a message, both directions; the genuine one goes through afterwards
    for &n in [0usize, 1, 16, 33, 64].iter() {
        for dir in 0..2 {
            job(&mut jobs, "bit of a transport message", move |w| {
                let (i, r) = w.ready();
                let (x, y) = if dir == 0 { (i, r) } else { (r, i) };
                let m = match w.say(x, n) {
                    Some(m) => m,
                    None => return,
                };
                for bit in 0..m.len() * 8 {
                    let mut b = m.clone();
                    b[bit / 8] ^= 1 << (bit % 8);
                    w.recv(y, &b);
                }
                w.recv(y, &m);
                w.recv(y, &m);
                if let Some(m) = w.say(x, n) {
                    w.recv(y, &m);
                }
                if let Some(m) = w.say(y, n) {
                    w.recv(x, &m);
                }
            });
            // every truncation and extension
            job(&mut jobs, "cut or extended", move |w| {
                let (i, r) = w.ready();
                let (x, y) = if dir == 0 { (i, r) } else { (r, i) };
                let m = match w.say(x, n) {
                    Some(m) => m,
                    None => return,
                };
                for k in 0..m.len() {
                    w.recv(y, &m[..k].to_vec());
                    w.recv(y, &m[m.len() - k..].to_vec());
                }
                for k in 1..40 {
                    for z in 0..2 {
                        let mut b = m.clone();
                        let e = if z == 0 { vec![0; k] } else { w.text(k) };
                        b.extend(&e);
                        w.recv(y, &b);
                        let mut b = e;
                        b.extend(&m);
                        w.recv(y, &b);
                    }
                }
                w.recv(y, &m);
                if let Some(m) = w.say(x, n) {
                    w.recv(y, &m);
                }
            });
        }
    }
    // windows: every order of delivery of four messages, each delivery repeated
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..4 {
        orders = orders.iter().flat_map(|o| (0..4).map(move |k| { let mut p = o.clone(); p.push(k); p })).collect();
    }
    for (j, o) in orders.into_iter().enumerate() {
        job(&mut jobs, "order of delivery", move |w| {
            let (i, r) = w.ready();
            let (x, y) = if j % 2 == 0 { (i, r) } else { (r, i) };
            let same = w.text(32);
            let ms: Vec<Vec<u8>> = (0..4)
                .map(|k| {
                    let mut b = if j % 3 == 0 { same.clone() } else { w.text(20 + k) };
                    b.extend_from_slice(&[0; 16]);
                    w.send(x, &mut b);
                    b
                })
                .collect();
            for k in &o {
                w.recv(y, &ms[*k]);
                if j % 5 == 0 {
                    w.recv(y, &ms[*k]);
                    w.recv(x, &ms[*k]); // reflected
                }
            }
            for m in &ms {
                w.recv(y, m);
            }
            if let Some(m) = w.say(y, 9) {
                w.recv(x, &m);
            }
        });
    }
    // contents of every uniform kind at every small length: delivered once, in order, and
    // neither again nor ahead of turn
    for fill in [0u8, 0xff, 1, 0x20, b'a'].iter().cloned() {
        for dir in 0..2 {
            job(&mut jobs, "uniform contents", move |w| {
                let (i, r) = w.ready();
                let (x, y) = if dir == 0 { (i, r) } else { (r, i) };
                let lens: Vec<usize> = (0..140).chain([255usize, 256, 257, 511, 512, 1008, 1024, 4080, 4096].iter().cloned()).collect();
                for n in lens {
                    let mut q = vec![];
                    for _ in 0..2 {
                        let mut b = vec![fill; n + 16];
                        if !w.send(x, &mut b) {
                            return;
                        }
                        q.push(b);
                    }
                    w.recv(y, &q[1]);
                    w.recv(y, &q[0]);
                    w.recv(y, &q[0]);
                    w.recv(x, &q[1]);
                    w.recv(y, &q[1]);
                    w.recv(y, &q[1]);
                    w.recv(y, &q[0]);
                }
                if let Some(m) = w.say(y, 30) {
                    w.recv(x, &m);
                }
            });
        }
    }
    // many rejections between genuine messages; long skips
    for k in 0..16 * cx.scale {
        job(&mut jobs, "rejections between messages", move |w| {
            let (i, r) = w.ready();
            for round in 0..6 {
                let (x, y) = if (k + round) % 2 == 0 { (i, r) } else { (r, i) };
                let mut q = vec![];
                for _ in 0..1 + w.rng.below(6) {
                    let n = w.rng.below(60);
                    if let Some(m) = w.say(x, n) {
                        q.push(m);
                    }
                }
                for g in 0..q.len() {
                    for _ in 0..w.rng.below(12) {
                        let b = if w.rng.chance(1, 2) { w.rng.pick(&q).clone() } else { let b = w.rng.pick(&q).clone(); mangle(w, &b) };
                        if b != q[g] {
                            w.recv(y, &b);
                        }
                    }
                    let m = q[g].clone();
                    w.recv(y, &m);
                }
            }
        });
    }
    // handshake messages again, and other sessions' traffic, in transport
    for _ in 0..30 * cx.scale {
        job(&mut jobs, "foreign", |w| {
            let stat = private(&mut w.rng);
            let mut hs = vec![];
            let mut ends = vec![];
            for _ in 0..2 {
                let i = w.plain(true, b"p", None, None);
                let r = w.plain(false, b"p", Some(stat), None);
                let mut a = w.text(120);
                w.send(i, &mut a);
                w.recv(r, &a);
                let mut b = w.text(120);
                w.send(r, &mut b);
                w.recv(i, &b);
                hs.push(a);
                hs.push(b);
                ends.push((i, r));
            }
            let same = w.text(50);
            let mut ts = vec![];
            for (i, r) in &ends {
                for s in [*i, *r].iter() {
                    let mut b = same.clone();
                    w.send(*s, &mut b);
                    ts.push(b);
                }
            }
            for s in 0..4 {
                for m in hs.iter() {
                    w.recv(s, m);
                }
                // own direction's peer message is at index s ^ 1; the rest are foreign or reflected
                for (k, m) in ts.iter().enumerate() {
                    if k != s ^ 1 {
                        w.recv(s, m);
                    }
                }
                w.recv(s, &ts[s ^ 1]);
                for m in ts.iter() {
                    w.recv(s, m);
                }
            }
        });
    }
    for n in [255usize, 256, 257, 4096, 16384, 65519].iter().cloned() {
        job(&mut jobs, "long messages", move |w| {
            let (i, r) = w.ready();
            for (x, y) in [(i, r), (r, i)].iter() {
                if let Some(m) = w.say(*x, n) {
                    for _ in 0..12 {
                        let b = mangle(w, &m);
                        w.recv(*y, &b);
                    }
                    w.recv(*y, &m);
                }
            }
        });
    }
    for k in 0..2usize {
        job(&mut jobs, "a million messages", move |w| {
            let (i, r) = w.ready();
            let (x, y) = if k == 0 { (i, r) } else { (r, i) };
            let mut seen = HashSet::new();
            w.bulk(x, y, (1 << 20) + 40_000, &mut seen);
            w.bulk(y, x, 70_000, &mut seen);
        });
    }
    for k in [300usize, 700, 70000].iter().cloned() {
        job(&mut jobs, "many messages", move |w| {
            let (i, r) = w.ready();
            let mut seen = HashSet::new();
            w.bulk(i, r, k, &mut seen);
            w.bulk(r, i, k + 5, &mut seen);
            let ms: Vec<Vec<u8>> = (0..3).filter_map(|_| w.say(i, 30)).collect();
            for j in [2usize, 0, 0, 2, 1, 2].iter() {
                if let Some(m) = ms.get(*j) {
                    w.recv(r, m);
                }
            }
        });
    }
    for (k, ahead) in [(2200usize, 1usize), (1100, 2), (1100, 5), (600, 70)].iter().cloned() {
        for dir in 0..2 {
            job(&mut jobs, "out of order everywhere", move |w| {
                let (i, r) = w.ready();
                let (x, y) = if dir == 0 { (i, r) } else { (r, i) };
                w.bulk_wild(x, y, k, ahead);
                w.bulk_wild(y, x, 40, ahead);
                if let Some(m) = w.say(x, 30) {
                    w.recv(y, &m);
                }
            });
        }
    }
    // long runs of rejected messages, then the genuine one
    for n in [17usize, 33, 65, 129, 257, 300, 1025, 5000, 40000, 70000].iter().cloned() {
        for dir in 0..2 {
            job(&mut jobs, "long runs of rejections", move |w| {
                let (i, r) = w.ready();
                let (x, y) = if dir == 0 { (i, r) } else { (r, i) };
                let old = match w.say(x, 30) {
                    Some(m) => m,
                    None => return,
                };
                w.recv(y, &old);
                for round in 0..3 {
                    let m = match w.say(x, 30) {
                        Some(m) => m,
                        None => return,
                    };
                    match round {
                        0 => {
                            let b = w.text(46);
                            w.storm(y, false, &b, n);
                        }
                        1 => w.storm(y, false, &old, n),
                        _ => {
                            let b = w.text(16);
                            w.storm(y, false, &b, n);
                            w.storm(y, false, &vec![], n);
                            w.storm(y, false, &m[..m.len() - 1].to_vec(), n);
                        }
                    }
                    w.recv(y, &m);
                    // the opposite direction
                    if let Some(m) = w.say(y, 8) {
                        w.recv(x, &m);
                    }
                }
            });
        }
    }
    at_nonces(&mut jobs, false);
    run_jobs(cx, jobs);
}

const EDGES: [u64; 14] = [
    126, 254, 255, 32766, 65534, 65535, (1 << 24) - 2, (1 << 31) - 2, (1 << 32) - 2, (1 << 32) - 1, (1 << 48) - 2, (1 << 56) - 2, (1 << 63) - 2, u64::max_value() - 4,
];

fn at_nonces(jobs: &mut Vec<(String, Job)>, keys: bool) {
    if !hooked() {
        return;
    }
    for &n in EDGES.iter() {
        for dir in 0..2 {
            job(jobs, "around a message number", move |w| {
                let (i, r) = w.ready();
                let (x, y) = if dir == 0 { (i, r) } else { (r, i) };
                let same = w.text(40);
                // the beginning of both directions, for comparison
                for (a, b) in [(i, r), (r, i)].iter() {
                    for _ in 0..4 {
                        let mut m = same.clone();
                        w.send(*a, &mut m);
                        w.recv(*b, &m);
                    }
                }
                let (n1, n2) = if dir == 0 { (n, 4) } else { (4, n) };
                w.set_n(i, n1, n2);
                w.set_n(r, n1, n2);
                let mut old = vec![];
                for round in 0..7 {
                    if keys && round == 3 {
                        w.rekey(x, dir + 1);
                        w.rekey(y, dir + 1);
                    }
                    let mut m = same.clone();
                    if w.send(x, &mut m) {
                        let bad = mangle(w, &m);
                        w.recv(y, &bad);
                        w.recv(y, &m);
                        w.recv(y, &m);
                        old.push(m);
                    } else {
                        let b = w.text(40);
                        w.recv(y, &b);
                    }
                    for m in old.clone().iter().rev().take(2) {
                        w.recv(y, m);
                    }
                    let mut m = same.clone();
                    w.send(y, &mut m);
                    w.recv(x, &m);
                }
            });
        }
    }
}

// -------------------------------------------------------------------- C15
pub fn c15(cx: &mut Cx) {
    let mut jobs = vec![];
    replays(cx, &mut jobs, "transport", 4300);
    chaoses(cx, &mut jobs, 500, Mix { ready: true, steps: 60, keys: true, ..PLAIN });
    chaoses(cx, &mut jobs, 60, Mix { ready: true, pairs: 2, steps: 150, keys: true, ..PLAIN });
    at_nonces(&mut jobs, false);
    at_nonces(&mut jobs, true);
    for order in 0..16 {
        job(&mut jobs, "early key operations", move |w| early(w, order));
    }
    // all ways of rekeying the two directions at the two ends up to three times
    for code in 0..256usize {
        job(&mut jobs, "rekey counts", move |w| {
            let (i, r) = w.ready();
            if code % 3 == 0 {
                for (x, y) in [(i, r), (r, i), (i, r)].iter() {
                    if let Some(m) = w.say(*x, 40) {
                        w.recv(*y, &m);
                    }
                }
            }
            let c = [code & 3, code >> 2 & 3, code >> 4 & 3, code >> 6];
            for k in 0..3 {
                for (j, (s, d)) in [(i, 1), (i, 2), (r, 1), (r, 2)].iter().enumerate() {
                    if k < c[j] {
                        w.rekey(*s, *d);
                    }
                }
            }
            let same = w.text(40);
            for _ in 0..2 {
                for (x, y) in [(i, r), (r, i)].iter() {
                    let mut m = same.clone();
                    if w.send(*x, &mut m) {
                        w.recv(*y, &m);
                    }
                }
            }
            // catch up with each other and go on
            for (d, a, b) in [(1, c[0], c[2]), (2, c[1], c[3])].iter() {
                for _ in 0..(*a).max(*b) - *a {
                    w.rekey(i, *d);
                }
                for _ in 0..(*a).max(*b) - *b {
                    w.rekey(r, *d);
                }
            }
            for (x, y) in [(i, r), (r, i)].iter() {
                let mut m = same.clone();
                if w.send(*x, &mut m) {
                    w.recv(*y, &m);
                }
            }
        });
    }
    // clearing each subset of directions, then everything else
    for code in 0..64usize {
        job(&mut jobs, "cleared", move |w| {
            let (i, r) = w.ready();
            let mut early = vec![];
            for (x, _) in [(i, r), (r, i)].iter() {
                if let Some(m) = w.say(*x, 40) {
                    early.push((*x, m));
                }
            }
            for (j, (s, d)) in [(i, 1), (i, 2), (r, 1), (r, 2)].iter().enumerate() {
                if code >> j & 1 == 1 {
                    w.clear(*s, *d);
                    if code & 16 != 0 {
                        w.rekey(*s, *d);
                    }
                    if code & 32 != 0 {
                        w.clear(*s, *d);
                        w.rekey(*s, *d);
                        w.rekey(*s, *d);
                    }
                }
            }
            for (x, m) in early {
                w.recv(if x == i { r } else { i }, &m);
            }
            for _ in 0..3 {
                for (x, y) in [(i, r), (r, i)].iter() {
                    if let Some(m) = w.say(*x, 40) {
                        w.recv(*y, &m);
                    }
                    let b = w.text(60);
                    w.recv(*y, &b);
                    let z = vec![0; 56];
                    w.recv(*y, &z);
                    // what a direction with an all-zero key would say
                    let m = refnx::seal(&[0; 32], 0, &[], &[7; 40]);
                    w.recv(*y, &m);
                }
            }
        });
    }
    // rekeying many times; the same plaintext never gives the same bytes
    for k in [1usize, 2, 3, 10, 100].iter().cloned() {
        job(&mut jobs, "rekeyed between messages", move |w| {
            let (i, r) = w.ready();
            let mut seen = HashSet::new();
            for round in 0..8 {
                w.bulk(i, r, k, &mut seen);
                w.bulk(r, i, k + 1, &mut seen);
                let d = 1 + (round % 2) as i64;
                w.rekey(i, d);
                w.rekey(r, d);
            }
        });
    }
    // rekeying one direction very often
    for k in [16usize, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 1000, 1024, 4096, 32768, 65535, 65536, 65537].iter().cloned() {
        for d in 1..3i64 {
            job(&mut jobs, "rekeyed very often", move |w| {
                let (i, r) = w.ready();
                let same = w.text(40);
                let go = |w: &mut W| {
                    for (x, y) in [(i, r), (r, i)].iter() {
                        let mut m = same.clone();
                        if w.send(*x, &mut m) {
                            w.recv(*y, &m);
                        }
                    }
                };
                go(w);
                w.rekeys(i, d, k - 1);
                w.rekeys(r, d, k - 1);
                go(w);
                w.rekeys(if d == 1 { i } else { r }, d, 1);
                go(w); // one behind
                w.rekeys(if d == 1 { r } else { i }, d, 1);
                go(w);
                w.rekeys(i, d, 1);
                w.rekeys(r, d, 1);
                go(w);
                w.clear(i, d);
                w.rekeys(i, d, k);
                go(w);
            });
        }
    }
    for k in [600usize, 66000].iter().cloned() {
        job(&mut jobs, "many messages", move |w| {
            let (i, r) = w.ready();
            let mut seen = HashSet::new();
            w.bulk(i, r, k, &mut seen);
            w.bulk(r, i, k, &mut seen);
            w.rekey(i, 1);
            w.rekey(r, 1);
            w.bulk(i, r, k, &mut seen);
            w.bulk(r, i, k, &mut seen);
        });
    }
    run_jobs(cx, jobs);
}

// -------------------------------------------------------------------- C16
pub fn c16(cx: &mut Cx) {
    let mut jobs = vec![];
    replays(cx, &mut jobs, "pair", 1500);
    chaoses(cx, &mut jobs, 500, Mix { sizes: true, steps: 20, ..PLAIN });
    chaoses(cx, &mut jobs, 200, Mix { sizes: true, ready: true, steps: 40, keys: true, ..PLAIN });
    let mut sizes: Vec<usize> = (0..=200).collect();
    sizes.extend(&[255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 16383, 16384, 32767, 32768, 65000]);
    sizes.extend(65500..=65560usize);
    sizes.extend(&[65535 + 16, 65535 + 32, 70000, 100000, 131071, 131072, 1 << 20]);
    for _ in 0..100 * cx.scale {
        sizes.push(cx.rng.below(66000));
    }
    for &n in &sizes {
        // a refused or accepted call of this size at every stage and for both roles, then the honest course
        for stage in 0..8 {
            job(&mut jobs, "size at a stage", move |w| sized(w, n, stage));
        }
    }
    // every size works, in each position
    let works: Vec<usize> = sizes.iter().cloned().filter(|n| *n <= 65535).collect();
    for &n in &works {
        job(&mut jobs, "size that must work", move |w| {
            let i = w.plain(true, b"p", None, None);
            let r = w.plain(false, b"p", None, None);
            w.shake(i, r, n.max(32), n.max(96));
            for (x, y) in [(i, r), (r, i)].iter() {
                if n >= 16 {
                    if let Some(m) = w.say(*x, n - 16) {
                        w.recv(*y, &m);
                    }
                }
                if let Some(m) = w.say(*x, 24) {
                    w.recv(*y, &m);
                }
            }
        });
    }
    // every size there is
    for part in 0..32usize {
        job(&mut jobs, "all sizes in transport", move |w| {
            let (i, r) = w.ready();
            let (x, y) = if part % 2 == 0 { (i, r) } else { (r, i) };
            w.bulk_sizes(x, y, 16 + part / 2, 65535, 16);
        });
    }
    for part in 0..64usize {
        job(&mut jobs, "all sizes in the handshake", move |w| shakes(w, 32 + part, 65535, 64));
    }
    // refused sizes again and again
    for n in [300usize, 20000, 70000].iter().cloned() {
        for which in 0..4 {
            job(&mut jobs, "refused sizes again and again", move |w| storms(w, which, n, &[0, 15, 31, 95]));
        }
    }
    run_jobs(cx, jobs);
}

/// Handshakes with first and second messages of every size (in steps).
fn shakes(w: &mut W, from: usize, upto: usize, step: usize) {
    let (mut k, mut ok, mut stuck) = (0i64, 0i64, -1i64);
    let (si, sr) = (private(&mut w.rng), private(&mut w.rng));
    for n in (from..=upto).step_by(step) {
        k += 1;
        let good = nrun(|| {
            let mut i = NoiseSession::init_session(true, b"p", pair_of(si));
            let mut r = NoiseSession::init_session(false, b"p", pair_of(sr));
            let mut a = vec![(n % 251) as u8; n];
            let pa = a[32..].to_vec();
            i.send_message(&mut a)?;
            let same_a = a[32..] == pa[..];
            r.recv_message(&mut a)?;
            let nb = n.max(96);
            let mut b = vec![(n % 241) as u8; nb];
            r.send_message(&mut b)?;
            i.recv_message(&mut b)?;
            Ok(same_a && i.is_transport() && r.is_transport() && i.get_handshake_hash() == r.get_handshake_hash())
        });
        if good.ok() == Some(&true) {
            ok += 1;
        } else if stuck < 0 {
            stuck = n as i64;
        }
    }
    w.calls += 4 * k as u64;
    w.ev(Ev::new("shakes").i("from", from as i64).i("k", k).i("ok", ok).i("stuck", stuck).end());
}


fn sized(w: &mut W, n: usize, stage: usize) {
    let i = w.plain(true, b"p", None, None);
    let r = w.plain(false, b"p", None, None);
    let bad = |w: &mut W, k: usize| {
        if k == stage {
            // only what must be refused for its size or turn is tried before the honest call
            for s in [i, r].iter() {
                let stage_min = |w: &W, send: bool| -> usize {
                    if w.is_t(*s) {
                        if send { 0 } else { 16 }
                    } else if (*s == i) == send {
                        32
                    } else {
                        96
                    }
                };
                let send_turn = (*s == i && k < 2) || (*s == r && (k == 2 || k == 3)) || w.is_t(*s);
                let recv_turn = (*s == r && k < 2) || (*s == i && (k == 2 || k == 3)) || w.is_t(*s);
                let fits = |min: usize| n >= min && n <= 65535;
                if w.is_t(*s) || !send_turn || !fits(stage_min(w, true)) {
                    let mut b = w.text(n);
                    if w.send(*s, &mut b) {
                        // an accepted transport message is also delivered
                        let to = if *s == i { r } else { i };
                        w.recv(to, &b);
                    }
                }
                if w.is_t(*s) || !recv_turn || !fits(stage_min(w, false)) {
                    let b = w.text(n);
                    w.recv(*s, &b);
                    for fill in [0u8, 1, 0x7f, 0x80, 0xff].iter() {
                        if *fill == 0 || n >= 65519 || (n + *fill as usize) % 16 == stage {
                            w.recv(*s, &vec![*fill; n]);
                        }
                    }
                }
            }
        }
    };
    bad(w, 0);
    bad(w, 1);
    let mut a = w.text(64);
    w.send(i, &mut a);
    if stage == 2 {
        // the initiator waits for an answer; the responder still waits for the first message
        if n < 32 || n > 65535 {
            let b = w.text(n);
            w.recv(r, &b);
        }
        if n < 96 || n > 65535 {
            let b = w.text(n);
            w.recv(i, &b);
        }
        let mut b = w.text(n);
        w.send(i, &mut b);
        w.send(r, &mut b);
    }
    w.recv(r, &a);
    if stage == 3 {
        let mut b = w.text(n);
        if n < 96 || n > 65535 {
            w.send(r, &mut b);
            w.recv(i, &b);
        }
        w.recv(r, &b);
    }
    let mut b = w.text(128);
    if !w.send(r, &mut b) {
        return;
    }
    if stage == 4 && (n < 96 || n > 65535) {
        let x = w.text(n);
        w.recv(i, &x);
    }
    w.recv(i, &b);
    for k in 5..8 {
        bad(w, k);
        for (x, y) in [(i, r), (r, i)].iter() {
            if let Some(m) = w.say(*x, 24) {
                if k == 6 && stage == 6 && n != m.len() {
                    let mut t = m.clone();
                    t.resize(n, 0);
                    w.recv(*y, &t);
                }
                w.recv(*y, &m);
            }
        }
    }
}

// -------------------------------------------------------------------- C17
fn smalls(cx: &Cx) -> Vec<[u8; 32]> {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&cx.tab.path).unwrap()).unwrap();
    j["small"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| {
            let mut o = [0u8; 32];
            for (i, b) in v.as_array().unwrap().iter().enumerate() {
                o[i] = b.as_u64().unwrap() as u8;
            }
            o
        })
        .collect()
}

fn hexs(b: &[u8], upper: usize) -> String {
    b.iter()
        .enumerate()
        .map(|(i, x)| if upper == 1 || (upper == 2 && i % 2 == 0) { format!("{:02X}", x) } else { format!("{:02x}", x) })
        .collect()
}

fn key_events(w: &mut W, k: [u8; 32]) {
    let r = nrun(|| PublicKey::from_bytes(k).map(|p| p.as_bytes()));
    let out = r.ok().cloned().unwrap_or([0; 32]);
    w.ev(Ev::new("pk").bytes("in", &k).s("r", r.tag()).bytes("out", &out).end());
}

fn text_event(w: &mut W, s: &str) {
    let r = nrun(|| PublicKey::from_str(s).map(|p| p.as_bytes()));
    let out = r.ok().cloned().unwrap_or([0; 32]);
    w.ev(Ev::new("pktext").bytes("in", s.as_bytes()).s("r", r.tag()).bytes("out", &out).end());
    for which in 0..3 {
        let r = match which {
            0 => nrun(|| PrivateKey::from_str(s).map(|_| ())),
            1 => nrun(|| Key::from_str(s).map(|_| ())),
            _ => nrun(|| Psk::from_str(s).map(|_| ())),
        };
        w.ev(Ev::new("keytext").i("which", which).bytes("in", s.as_bytes()).s("r", r.tag()).end());
    }
    // a private key read from text is the one from bytes: same public key
    if s.len() == 64 {
        if let (R::Ok(a), Ok(b)) = (nrun(|| PrivateKey::from_str(s)), hex_bytes(s)) {
            let x = nrun(|| a.generate_public_key().map(|p| p.as_bytes()));
            let zero = b.iter().all(|z| *z == 0);
            let want = refnx::public(&b);
            let same = x.ok().map(|p| p.to_vec() == want).unwrap_or(zero);
            w.ev(Ev::new("pair").bytes("in", &b).s("r", x.tag()).t("same", same).end());
        }
    }
}

fn hex_bytes(s: &str) -> Result<Vec<u8>, ()> {
    (0..s.len() / 2).map(|i| s.get(2 * i..2 * i + 2).and_then(|t| u8::from_str_radix(t, 16).ok()).ok_or(())).collect()
}

fn pair_events(w: &mut W, k: [u8; 32]) {
    let want = refnx::public(&k);
    let rs = vec![
        nrun(|| Keypair::from_private_key(PrivateKey::from_bytes(k)).map(|p| p.get_public_key().as_bytes())),
        nrun(|| Keypair::from_key(PrivateKey::from_bytes(k)).map(|p| p.get_public_key().as_bytes())),
        nrun(|| PrivateKey::from_bytes(k).generate_public_key().map(|p| p.as_bytes())),
    ];
    for r in rs {
        let same = r.ok().map(|p| p.to_vec() == want).unwrap_or(false);
        w.ev(Ev::new("pair").bytes("in", &k).s("r", r.tag()).t("same", same).end());
    }
}

pub fn c17(cx: &mut Cx) {
    refnx::self_test();
    let small = smalls(cx);
    // the specification's list is what it says: every multiple of the cofactor kills the point (X25519 drops
    // the top bit, so this can be computed for the encodings without it only)
    for p in small.iter().filter(|p| p[31] < 128) {
        let mut sk = [0u8; 32];
        sk[0] = 8;
        sk[31] = 64;
        assert!(refnx::dh(&sk, p).iter().all(|b| *b == 0), "the specification lists a point that is not of small order");
    }
    let mut jobs = vec![];
    // bytes: the listed values, every single-bit neighbour, neighbours in one byte, others
    let all = small.clone();
    for p in small.iter().cloned() {
        let all = all.clone();
        job(&mut jobs, "forbidden values and neighbours", move |w| {
            key_events(w, p);
            pair_events(w, p);
            for up in 0..3 {
                text_event(w, &hexs(&p, up));
            }
            for bit in 0..256 {
                let mut q = p;
                q[bit / 8] ^= 1 << (bit % 8);
                key_events(w, q);
                if bit % 16 == 0 {
                    text_event(w, &hexs(&q, bit % 3));
                }
            }
            for _ in 0..40 {
                let mut q = p;
                let i = w.rng.below(32);
                q[i] = w.rng.byte();
                key_events(w, q);
            }
            let mut q = p;
            q.reverse();
            key_events(w, q);
            for k in [16usize, 24, 28, 31].iter() {
                // the first or last k bytes of a forbidden value
                let mut q = p;
                for i in *k..32 {
                    q[i] = w.rng.byte();
                }
                key_events(w, q);
                let mut q = p;
                for i in 0..32 - *k {
                    q[i] = w.rng.byte();
                }
                key_events(w, q);
            }
            for o in &all {
                // mixtures of two forbidden values
                let mut q = p;
                q[16..].copy_from_slice(&o[16..]);
                key_events(w, q);
            }
        });
    }
    for _ in 0..20 * cx.scale {
        job(&mut jobs, "ordinary keys", |w| {
            for _ in 0..40 {
                let k = private(&mut w.rng);
                key_events(w, k);
                pair_events(w, k);
                let up = w.rng.below(3);
                text_event(w, &hexs(&k, up));
            }
            for i in 0..32 {
                // nearly zero, nearly all ones
                let mut k = [0u8; 32];
                k[i] = 1 + w.rng.byte() % 255;
                key_events(w, k);
                pair_events(w, k);
                let mut k = [255u8; 32];
                k[i] = w.rng.byte();
                key_events(w, k);
                pair_events(w, k);
            }
            pair_events(w, [0; 32]);
            key_events(w, [255; 32]);
        });
    }
    // text: every length, every kind of character at every place
    job(&mut jobs, "key text", |w| {
        let k = private(&mut w.rng);
        let good = hexs(&k, 0);
        for n in 0..140 {
            let mut s = good.repeat(3);
            s.truncate(n);
            text_event(w, &s);
        }
        for c in (0..128u8).map(|c| c as char) {
            let i = w.rng.below(64);
            let mut s: Vec<char> = good.chars().collect();
            s[i] = c;
            text_event(w, &s.iter().collect::<String>());
            s[0] = c;
            text_event(w, &s.iter().collect::<String>());
            s[63] = c;
            text_event(w, &s.iter().collect::<String>());
        }
        for i in 0..64 {
            for c in ['g', 'G', ' ', '-', '/', ':', '@', '`', '\u{0}', 'x'].iter() {
                let mut s: Vec<char> = good.chars().collect();
                s[i] = *c;
                text_event(w, &s.iter().collect::<String>());
            }
        }
        for p in ["0x", " ", "\n", "\t", "\u{feff}"].iter() {
            text_event(w, &format!("{}{}", p, good));
            text_event(w, &format!("{}{}", good, p));
            text_event(w, &format!("{}{}", p, &good[p.len().min(64)..]));
            text_event(w, &format!("{}{}", &good[..64 - p.len()], p));
        }
        for s in ["é", "0é", "ａ", "٣"].iter() {
            for n in [62usize, 61, 60, 63].iter() {
                text_event(w, &format!("{}{}", &good[..*n], s));
                text_event(w, &format!("{}{}", s, &good[..*n]));
            }
        }
    });
    // no other character belongs into a key
    for part in 0..16usize {
        job(&mut jobs, "characters in a key text", move |w| {
            let k = private(&mut w.rng);
            let good = hexs(&k, 0);
            let mut shown = 0;
            for c in crate::gen::beyond_ascii(true).into_iter().skip(part).step_by(16) {
                let n = c.len_utf8();
                for place in 0..5 {
                    let s = match place {
                        0 => format!("{}{}", c, good),
                        1 => format!("{}{}", good, c),
                        2 => format!("{}{}{}", &good[..31], c, &good[31 + n..]),
                        3 => format!("{}{}{}", &good[..10], c, &good[11..]),
                        _ => format!("{}{}", c, &good[n..]),
                    };
                    w.calls += 2;
                    let a = nrun(|| PublicKey::from_str(&s).map(|_| ()));
                    let b = nrun(|| if place < 2 { PrivateKey::from_str(&s).map(|_| ()) } else if place < 4 { Key::from_str(&s).map(|_| ()) } else { Psk::from_str(&s).map(|_| ()) });
                    if (a.tag() != "err" || b.tag() != "err" || c as u32 % 65537 == 0) && shown < 30 {
                        shown += 1;
                        text_event(w, &s);
                    }
                }
            }
        });
    }
    // forbidden ephemeral keys in both handshake messages, forbidden static keys inside the second
    let init = refnx::Program::load(&cx.tab.path, "initiator");
    let resp = refnx::Program::load(&cx.tab.path, "responder");
    for p in small.iter().cloned() {
        for len in [0usize, 40].iter().cloned() {
            job(&mut jobs, "forbidden key in the first message", move |w| {
                let i = w.plain(true, b"p", None, None);
                let r = w.plain(false, b"p", None, None);
                let mut m = p.to_vec();
                let t = w.text(len);
                m.extend(&t);
                w.recv(r, &m);
                // one bit off is an ordinary key
                let r2 = w.plain(false, b"p", None, None);
                let mut m2 = m.clone();
                let bit = w.rng.below(256);
                m2[bit / 8] ^= 1 << (bit % 8);
                w.recv(r2, &m2);
                w.shake(i, r, 60, 100);
            });
            let resp = resp.clone();
            job(&mut jobs, "forbidden key in the second message", move |w| {
                for what in 0..3 {
                    let ei = private(&mut w.rng);
                    let i = w.plain(true, b"p", None, Some(ei));
                    let mut a = w.text(32 + len);
                    w.send(i, &mut a);
                    if what == 0 {
                        let mut m = p.to_vec();
                        let t = w.text(64 + len);
                        m.extend(&t);
                        w.recv(i, &m);
                        continue;
                    }
                    // a responder whose static key (what = 1) or neither (what = 2) is forbidden
                    let mut env = refnx::Env::new();
                    let (er, sr) = (private(&mut w.rng), private(&mut w.rng));
                    let s_pub = if what == 1 { p.to_vec() } else { refnx::public(&sr) };
                    let pl = w.text(len);
                    for (k, v) in vec![
                        ("prologue", b"p".to_vec()),
                        ("EI", a[..32].to_vec()),
                        ("payloadA", a[32..].to_vec()),
                        ("eR", er.to_vec()),
                        ("ER", refnx::public(&er)),
                        ("sR", sr.to_vec()),
                        ("SR", s_pub.clone()),
                        ("payloadB", pl.clone()),
                    ] {
                        env.insert(k.into(), v);
                    }
                    if what == 1 {
                        // what the receiver would compute with such a key
                        env.insert("es".into(), refnx::dh(&ei, &p));
                    }
                    assert!(resp.fill(&mut env));
                    let b = env["msgB"].clone();
                    w.craft(&b, &a, b"p", &s_pub, &pl);
                    w.recv(i, &b);
                }
            });
        }
    }
    let _ = init;
    // many sessions: fresh ephemeral keys unless set
    for k in 0..6usize * cx.scale {
        job(&mut jobs, "fresh ephemeral keys", move |w| {
            let stat = private(&mut w.rng);
            for n in 0..60 {
                let how = (k + n) % 5;
                let (i, r) = match how {
                    0 => (w.plain(true, b"p", Some(stat), None), w.plain(false, b"p", Some(stat), None)),
                    1 => (w.stock(true), w.stock(false)),
                    2 => (w.enc(true, true), w.enc(false, n % 2 == 0)),
                    3 => {
                        let e = private(&mut w.rng);
                        let f = private(&mut w.rng);
                        (w.plain(true, b"p", None, Some(e)), w.plain(false, b"p", None, Some(f)))
                    }
                    _ => (w.plain(true, b"p", None, None), w.plain(false, b"p", None, None)),
                };
                if how == 4 && n % 2 == 0 {
                    // a refused attempt first
                    let mut b = w.text(20);
                    w.send(i, &mut b);
                    w.recv(r, &b);
                }
                let mut a = w.text(120);
                w.send(i, &mut a);
                if how == 2 {
                    if let Some(b) = w.handle(r, &a) {
                        if let Some(c) = w.handle(i, &b) {
                            w.handle(r, &c);
                        }
                    }
                } else {
                    w.recv(r, &a);
                    let mut b = w.text(120);
                    w.send(r, &mut b);
                    w.recv(i, &b);
                }
            }
            // sessions that answer the same first message
            let i = w.plain(true, b"p", None, None);
            let mut a = w.text(120);
            w.send(i, &mut a);
            for _ in 0..12 {
                let r = w.plain(false, b"p", Some(stat), None);
                w.recv(r, &a);
                let mut b = w.text(120);
                w.send(r, &mut b);
            }
        });
    }
    run_jobs(cx, jobs);
    crate::fresh::ephemerals(cx);
}

// -------------------------------------------------------------------- C21
pub fn c21(cx: &mut Cx) {
    let mut jobs = vec![];
    crate::attack::attacks(cx, &mut jobs, 0, 400);
    replays(cx, &mut jobs, "enc", 6000);
    chaoses(cx, &mut jobs, 900, Mix { enc: true, ..PLAIN });
    chaoses(cx, &mut jobs, 200, Mix { enc: true, pairs: 3, steps: 40, ..PLAIN });
    chaoses(cx, &mut jobs, 150, Mix { enc: true, sizes: true, steps: 20, ..PLAIN });
    // the exchange, undisturbed, between every kind of end
    for k in 0..48usize {
        job(&mut jobs, "undisturbed", move |w| {
            let i = if k & 1 == 0 { w.enc(true, true) } else { w.stock(true) };
            let r = match k >> 1 & 3 {
                0 => w.enc(false, true),
                1 => w.enc(false, false),
                2 => w.stock(false),
                _ => w.plain(false, &[], None, None),
            };
            w.look(i);
            w.look(r);
            let n = [32usize, 96, 97, 500, 1024, 65535][k % 6];
            let mut a = w.text(n);
            if !w.send(i, &mut a) {
                return;
            }
            w.look(r);
            let mut b = match w.ses[r].x {
                Some(Ses::Enc(_)) => match w.handle(r, &a) {
                    Some(b) => b,
                    None => return,
                },
                _ => {
                    w.recv(r, &a);
                    let mut b = w.text(96 + n % 1000);
                    w.send(r, &mut b);
                    b
                }
            };
            w.look(i);
            if let Some(c) = w.deliver(i, &b) {
                if let Some(Ses::Enc(_)) = w.ses[i].x {
                    // what the outbound side returns last is accepted
                    b = c;
                    for step in 0..4 {
                        let to = if step % 2 == 0 { r } else { i };
                        match w.deliver(to, &b) {
                            Some(d) if matches!(w.ses[to].x, Some(Ses::Enc(_))) => b = d,
                            _ => break,
                        }
                    }
                } else if let Some(m) = w.say(i, 90) {
                    w.deliver(r, &m);
                }
            }
        });
    }
    // every bit of the first 140 bytes, sampled bits of the rest, and the ends
    for bit in 0..(140 * 8 + 400 * cx.scale) {
        job(&mut jobs, "altered bit", move |w| {
            for which in 0..2 {
                let i = w.enc(true, true);
                let r = w.enc(false, true);
                let mut a = vec![];
                if !w.send(i, &mut a) {
                    return;
                }
                let at = |w: &mut W, n: usize| if bit < 140 * 8 { bit } else if bit % 8 == 0 { (n - 1) * 8 + bit / 8 % 8 } else { w.rng.below(n * 8) };
                if which == 0 {
                    let k = at(w, a.len());
                    a[k / 8] ^= 1 << (k % 8);
                }
                if let Some(mut b) = w.handle(r, &a) {
                    let good = b.clone();
                    if which == 1 {
                        let k = at(w, b.len());
                        b[k / 8] ^= 1 << (k % 8);
                    }
                    w.handle(i, &b);
                    w.handle(i, &good);
                }
            }
        });
    }
    for n in 0..140usize {
        job(&mut jobs, "cut", move |w| {
            for which in 0..3 {
                let i = w.enc(true, true);
                let r = w.enc(false, true);
                let mut a = vec![];
                if !w.send(i, &mut a) {
                    return;
                }
                let cut = |w: &mut W, m: &[u8]| match n % 3 {
                    0 => m[..n.min(m.len())].to_vec(),
                    1 => m[..m.len() - 1 - n].to_vec(),
                    _ => {
                        let mut m = m.to_vec();
                        let t = w.text(1 + n);
                        m.extend(t);
                        m
                    }
                };
                let a2 = if which == 0 { cut(w, &a) } else { a.clone() };
                let b = match w.handle(r, &a2) {
                    Some(b) => b,
                    None => {
                        w.handle(r, &a);
                        continue;
                    }
                };
                let b2 = if which == 1 { cut(w, &b) } else { b.clone() };
                let c = match w.handle(i, &b2) {
                    Some(c) => c,
                    None => {
                        w.handle(i, &b);
                        continue;
                    }
                };
                let c2 = if which == 2 { cut(w, &c) } else { c.clone() };
                w.handle(r, &c2);
                w.handle(r, &c);
            }
        });
    }
    run_jobs(cx, jobs);
}

// -------------------------------------------------------------------- C13
fn show(b: &[u8]) -> Vec<u8> {
    if b.len() <= 200 {
        b.to_vec()
    } else {
        let mut v = b[..100].to_vec();
        v.extend(refnx::hash(b));
        v
    }
}
fn nx(w: &mut W, what: &str, r: &str, want: &[u8], got: &[u8]) {
    let line = Ev::new("nx").s("what", what).s("r", r).bytes("want", &show(want)).bytes("got", &show(got)).end();
    w.ev(line);
}

struct Wire {
    key: [Vec<u8>; 2],
    n: [u64; 2],
}

/// One session against the specification's protocol, byte for byte.
fn conform(w: &mut W, prog: &refnx::Program, ours_init: bool, lp: usize, la: usize, lb: usize, traffic: usize) {
    let pro = w.rng.bytes(lp);
    let (ei, er, sr, si) = (private(&mut w.rng), private(&mut w.rng), private(&mut w.rng), private(&mut w.rng));
    let mut env = refnx::Env::new();
    env.insert("prologue".into(), pro.clone());
    let mut x = NoiseSession::init_session(ours_init, &pro, pair_of(if ours_init { si } else { sr }));
    x.set_ephemeral_keypair(pair_of(if ours_init { ei } else { er }));
    let (pa, pb) = (w.rng.bytes(la), w.rng.bytes(lb));
    let mut known = |k: &str, v: &[u8]| {
        env.insert(k.to_string(), v.to_vec());
    };
    known("payloadA", &pa);
    known("payloadB", &pb);
    known("EI", &refnx::public(&ei));
    known("ER", &refnx::public(&er));
    known("SR", &refnx::public(&sr));
    if ours_init {
        // the reference plays the responder
        known("eR", &er);
        known("sR", &sr);
    } else {
        known("eI", &ei);
    }
    assert!(prog.fill(&mut env));
    let (wa, wb) = (env["msgA"].clone(), env["msgB"].clone());
    if ours_init {
        let mut a = w.rng.bytes(32);
        a.extend(&pa);
        let r = nrun(|| x.send_message(&mut a));
        nx(w, "first message", r.tag(), &wa, &a);
        let mut b = wb.clone();
        let r = nrun(|| x.recv_message(&mut b));
        nx(w, "second message read", r.tag(), &pb, &b[80..b.len() - 16]);
        let k = x.get_remote_static_public_key().map(|k| k.as_bytes().to_vec()).unwrap_or_default();
        nx(w, "remote key", "ok", &env["SR"], &k);
    } else {
        let mut a = wa.clone();
        let r = nrun(|| x.recv_message(&mut a));
        nx(w, "first message read", r.tag(), &pa, &a[32..]);
        let mut b = w.rng.bytes(80);
        b.extend(&pb);
        b.extend(w.rng.bytes(16));
        let r = nrun(|| x.send_message(&mut b));
        nx(w, "second message", r.tag(), &wb, &b);
    }
    let h = x.get_handshake_hash().map(|h| h.to_vec()).unwrap_or_default();
    nx(w, "handshake hash", "ok", &env["h6"], &h);
    let mut wire = Wire { key: [env["key1"].clone(), env["key2"].clone()], n: [0, 0] };
    for t in 0..traffic {
        if hooked() && t % 12 == 11 {
            let e = *w.rng.pick(&EDGES);
            if e > wire.n[0].max(wire.n[1]) && e < u64::max_value() - 64 {
                wire.n = [e, e + 1];
                #[cfg(sv2_verif)]
                x.verif_set_nonces(e, e + 1);
            }
        }
        if t % 9 == 8 {
            let d = w.rng.below(2);
            wire.key[d] = refnx::rekey(&wire.key[d]);
            if d == 0 {
                x.rekey_local_cipherstate()
            } else {
                x.rekey_remote_cipherstate()
            }
        }
        let n = match w.rng.below(4) {
            0 => w.rng.below(4),
            1 => 60 + w.rng.below(10),
            2 => w.rng.below(300),
            _ => 16 * w.rng.below(12),
        };
        let p = w.rng.bytes(n);
        let out = w.rng.chance(1, 2);
        let d = if out == ours_init { 0 } else { 1 };
        let ct = refnx::seal(&wire.key[d], wire.n[d], &[], &p);
        if out {
            let mut b = p.clone();
            b.extend(w.rng.bytes(16));
            let r = nrun(|| x.send_message(&mut b));
            nx(w, "transport message", r.tag(), &ct, &b);
        } else {
            let mut b = ct.clone();
            let r = nrun(|| x.recv_message(&mut b));
            nx(w, "transport message read", r.tag(), &p, &b[..n]);
        }
        wire.n[d] += 1;
    }
}

/// A long conversation, compared here: the first disagreement, or the last message of each direction, is shown.
fn conform_long(w: &mut W, prog: &refnx::Program, ours_init: bool, out: bool, many: usize, few: usize) {
    let (ei, er, sr, si) = (private(&mut w.rng), private(&mut w.rng), private(&mut w.rng), private(&mut w.rng));
    let mut env = refnx::Env::new();
    let mut x = NoiseSession::init_session(ours_init, b"", pair_of(if ours_init { si } else { sr }));
    x.set_ephemeral_keypair(pair_of(if ours_init { ei } else { er }));
    for (k, v) in vec![("prologue", vec![]), ("payloadA", vec![]), ("payloadB", vec![]), ("EI", refnx::public(&ei)), ("ER", refnx::public(&er)), ("SR", refnx::public(&sr))] {
        env.insert(k.into(), v);
    }
    if ours_init {
        env.insert("eR".into(), er.to_vec());
        env.insert("sR".into(), sr.to_vec());
    } else {
        env.insert("eI".into(), ei.to_vec());
    }
    assert!(prog.fill(&mut env));
    let r = if ours_init {
        let (mut a, mut b) = (vec![0; 32], env["msgB"].clone());
        nrun(|| x.send_message(&mut a).and_then(|_| x.recv_message(&mut b)))
    } else {
        let (mut a, mut b) = (env["msgA"].clone(), vec![0; 96]);
        nrun(|| x.recv_message(&mut a).and_then(|_| x.send_message(&mut b)))
    };
    nx(w, "handshake hash", r.tag(), &env["h6"], &x.get_handshake_hash().map(|h| h.to_vec()).unwrap_or_default());
    let keys = [env["key1"].clone(), env["key2"].clone()];
    // mostly one direction, then the other
    for (out, k) in [(out, many), (!out, few)].iter().cloned() {
        let d = if out == ours_init { 0 } else { 1 };
        let mut p = w.rng.bytes(9);
        for n in 0..k {
            p[n % 9] = p[n % 9].wrapping_add(n as u8 | 1);
            let ct = refnx::seal(&keys[d], n as u64, &[], &p);
            let (tag, want, got) = if out {
                let mut b = p.clone();
                b.extend_from_slice(&[0; 16]);
                let r = nrun(|| x.send_message(&mut b));
                (r.tag(), &ct[..], b)
            } else {
                let mut b = ct.clone();
                let r = nrun(|| x.recv_message(&mut b));
                b.truncate(9);
                (r.tag(), &p[..], b)
            };
            w.calls += 1;
            let wrong = tag != "ok" || want != &got[..];
            if wrong || n + 1 == k {
                nx(w, if out { "transport message" } else { "transport message read" }, tag, want, &got);
            }
            if wrong {
                return;
            }
        }
    }
}

pub fn c13(cx: &mut Cx) {
    refnx::self_test();
    let init = refnx::Program::load(&cx.tab.path, "initiator");
    let resp = refnx::Program::load(&cx.tab.path, "responder");
    let mut jobs = vec![];
    for k in 0..4 {
        let prog = if k % 2 == 0 { resp.clone() } else { init.clone() };
        job(&mut jobs, "a million messages", move |w| conform_long(w, &prog, k % 2 == 0, k < 2, (1 << 20) + 40_000, 140_000));
    }
    let mut cases: Vec<(usize, usize, usize, usize)> = vec![];
    for n in 0..140 {
        cases.push((n, 0, 0, 4));
        cases.push((0, n, 0, 4));
        cases.push((0, 0, n, 4));
    }
    for n in [255usize, 256, 1000, 1024, 4096, 30000, 65503].iter() {
        cases.push((*n, 10, 10, 4));
        cases.push((3, *n, 10, 4));
        cases.push((3, 10, (*n).min(65439), 4));
    }
    for _ in 0..60 * cx.scale {
        cases.push((cx.rng.below(100), cx.rng.below(300), cx.rng.below(300), 80));
    }
    for _ in 0..2 {
        cases.push((9, 9, 9, 3000));
    }
    for (lp, la, lb, t) in cases {
        for ours_init in [true, false].iter().cloned() {
            let prog = if ours_init { resp.clone() } else { init.clone() };
            job(&mut jobs, if ours_init { "initiator" } else { "responder" }, move |w| conform(w, &prog, ours_init, lp, la, lb, t));
        }
    }
    // stock sessions and encryptors: an ephemeral key of their own, read off the wire
    for k in 0..30 * cx.scale {
        let resp = resp.clone();
        job(&mut jobs, "own ephemeral key", move |w| {
            // the reference answers; it needs no secrets of the other side
            let mut x = new_noise_initiator();
            let mut a = w.rng.bytes(32 + k);
            if nrun(|| x.send_message(&mut a)).tag() != "ok" {
                nx(w, "first message", "err", &[], &[]);
                return;
            }
            let (er, sr) = (private(&mut w.rng), private(&mut w.rng));
            let mut env = refnx::Env::new();
            let pl = w.rng.bytes(k % 50);
            for (k, v) in vec![
                ("prologue", vec![]),
                ("EI", a[..32].to_vec()),
                ("payloadA", a[32..].to_vec()),
                ("eR", er.to_vec()),
                ("ER", refnx::public(&er)),
                ("sR", sr.to_vec()),
                ("SR", refnx::public(&sr)),
                ("payloadB", pl.clone()),
            ] {
                env.insert(k.into(), v);
            }
            assert!(resp.fill(&mut env));
            let mut b = env["msgB"].clone();
            let r = nrun(|| x.recv_message(&mut b));
            nx(w, "second message read", r.tag(), &pl, &b[80..b.len() - 16]);
            nx(w, "handshake hash", "ok", &env["h6"], &x.get_handshake_hash().map(|h| h.to_vec()).unwrap_or_default());
        });
        let init = init.clone();
        job(&mut jobs, "own ephemeral key", move |w| {
            let (ei, sr) = (private(&mut w.rng), private(&mut w.rng));
            let kp = pair_of(sr);
            let pa = w.rng.bytes(if k % 2 == 0 { 96 + k } else { 992 });
            let mut env = refnx::Env::new();
            for (k, v) in vec![("prologue", vec![]), ("eI", ei.to_vec()), ("EI", refnx::public(&ei)), ("payloadA", pa.clone())] {
                env.insert(k.into(), v);
            }
            assert!(init.fill(&mut env));
            let mut a = env["msgA"].clone();
            let (b, h) = if k % 3 == 0 {
                let mut x = ConnectionEncryptor::new_inbound(Some(kp));
                match crate::subjects::run(|| x.recv_handshake(&mut a)) {
                    R::Ok(b) => (b, None),
                    _ => {
                        nx(w, "second message", "err", &[], &[]);
                        return;
                    }
                }
            } else {
                let mut x = new_noise_responder(Some(kp));
                let mut b = w.rng.bytes(100 + k);
                let r = nrun(|| x.recv_message(&mut a).and_then(|_| x.send_message(&mut b)));
                if r.tag() != "ok" {
                    nx(w, "second message", r.tag(), &[], &[]);
                    return;
                }
                (b, x.get_handshake_hash())
            };
            if b.len() < 96 {
                nx(w, "second message", "err", &[], &[]);
                return;
            }
            env.insert("ER".into(), b[..32].to_vec());
            env.insert("c1".into(), b[32..80].to_vec());
            env.insert("c2".into(), b[80..].to_vec());
            let ok = init.fill(&mut env);
            nx(w, "second message opens", if ok { "ok" } else { "err" }, &refnx::public(&sr), env.get("SR").map(|v| &v[..]).unwrap_or(&[]));
            if let (true, Some(h)) = (ok, h) {
                nx(w, "handshake hash", "ok", &env["h6"], &h);
            }
        });
    }
    run_jobs(cx, jobs);
}

// -------------------------------------------------------------------- C25
pub fn c25(cx: &mut Cx) {
    let prog = Arc::new((refnx::Program::load(&cx.tab.path, "initiator"), refnx::Program::load(&cx.tab.path, "responder")));
    let mut jobs = vec![];
    replays(cx, &mut jobs, "pair", 1500);
    replays(cx, &mut jobs, "transport", 1500);
    chaoses(cx, &mut jobs, 200, PLAIN);
    chaoses(cx, &mut jobs, 200, Mix { enc: true, ..PLAIN });
    chaoses(cx, &mut jobs, 200, Mix { ready: true, keys: true, steps: 30, ..PLAIN });
    chaoses(cx, &mut jobs, 100, Mix { pairs: 2, ready: true, keys: true, steps: 50, ..PLAIN });
    // every order of rekeying and clearing both directions at both ends, with traffic between
    for code in 0..625 {
        job(&mut jobs, "keys", move |w| {
            let (i, r) = w.ready();
            let mut c = code;
            for step in 0..4 {
                let s = if step % 2 == 0 { i } else { r };
                match c % 5 {
                    0 => w.rekey(s, 1),
                    1 => w.rekey(s, 2),
                    2 => w.clear(s, 1),
                    3 => w.clear(s, 2),
                    _ => {
                        if let Some(m) = w.say(s, 20) {
                            w.recv(i + r - s, &m);
                        }
                    }
                }
                c /= 5;
            }
            w.say(i, 20);
            w.say(r, 20);
        });
    }
    // sizes of prologue and payloads, and handshake messages refused on the way
    for n in 0..120 * cx.scale {
        job(&mut jobs, "sizes", move |w| {
            let pro = w.text(n % 70);
            let i = w.plain(true, &pro, None, None);
            let r = w.plain(false, &pro, None, None);
            let mut a = w.text(32 + n % 90);
            w.send(i, &mut a);
            let short = w.text(n % 32);
            w.recv(r, &short);
            w.recv(r, &a);
            let mut few = w.text(16 + n % 80);
            w.send(r, &mut few);
            let mut b = w.text(96 + n % 100);
            w.send(r, &mut b);
            if n % 3 == 0 {
                w.recv(i, &b[..40 + n % 50].to_vec());
            }
            w.recv(i, &b);
            for _ in 0..3 {
                if let Some(m) = w.say(i, n) {
                    w.recv(r, &m);
                }
                if let Some(m) = w.say(r, n) {
                    w.recv(i, &m);
                }
            }
        });
    }
    let known = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let jobs = jobs
        .into_iter()
        .map(|(c, j)| {
            let (prog, known) = (prog.clone(), known.clone());
            let f: Job = Box::new(move |w: &mut W| {
                Keypair::default(); // the thread's generator belongs to nobody
                w.watch = Some(prog.clone());
                j(w);
                known.fetch_add(w.known, std::sync::atomic::Ordering::Relaxed);
            });
            (c, f)
        })
        .collect();
    run_jobs(cx, jobs);
    cx.sink.note("looks at a session in transport whose keys are known", known.load(std::sync::atomic::Ordering::Relaxed));
}

// -------------------------------------------------------------------- C23
/// Refusals of noise operations, as the rest of the library shows them.
pub fn error_zoo() -> Vec<(String, R<()>)> {
    use crate::subjects::run;
    use stratumv2::error::Error;
    let mut v: Vec<(String, R<()>)> = vec![];
    let mut r = Rng::new(99);
    let mut fresh = |init: bool| NoiseSession::init_session(init, &[], pair_of(private(&mut r)));
    for n in [0usize, 15, 65536].iter() {
        let mut i = fresh(true);
        v.push((format!("send {} bytes", n), run(|| i.send_message(&mut vec![0; *n]).map_err(Error::from))));
        let mut x = fresh(false);
        v.push((format!("receive {} bytes", n), run(|| x.recv_message(&mut vec![0; *n]).map_err(Error::from))));
    }
    let mut x = fresh(false);
    v.push(("responder opens".into(), run(|| x.send_message(&mut vec![1; 200]).map_err(Error::from))));
    v.push(("forbidden key".into(), run(|| x.recv_message(&mut vec![0; 200]).map_err(Error::from))));
    let mut i = fresh(true);
    let mut a = vec![1; 200];
    let _ = i.send_message(&mut a);
    let _ = x.recv_message(&mut a);
    let mut b = vec![1; 200];
    v.push(("short answer".into(), run(|| x.send_message(&mut vec![1; 95]).map_err(Error::from))));
    let _ = x.send_message(&mut b);
    let mut j = fresh(true);
    let mut ja = vec![1; 200];
    let _ = j.send_message(&mut ja);
    v.push(("foreign answer".into(), run(|| j.recv_message(&mut b.clone()).map_err(Error::from))));
    v.push(("short answer read".into(), run(|| i.recv_message(&mut vec![1; 95]).map_err(Error::from))));
    let _ = i.recv_message(&mut b);
    v.push(("forged message".into(), run(|| i.recv_message(&mut vec![1; 60]).map_err(Error::from))));
    i.clear_local_cipherstate();
    v.push(("cleared direction".into(), run(|| i.send_message(&mut vec![1; 60]).map_err(Error::from))));
    for s in ["", "00", "zz", &"z".repeat(64), &"0".repeat(64)].iter() {
        v.push((format!("public key {:?}", s), run(|| PublicKey::from_str(s).map(|_| ()).map_err(Error::from))));
    }
    v.push(("zero private key".into(), run(|| Keypair::from_private_key(PrivateKey::from_bytes([0; 32])).map(|_| ()).map_err(Error::from))));
    let mut e = ConnectionEncryptor::new_inbound(None);
    v.push(("encryptor".into(), run(|| e.recv_handshake(&mut [1; 20]).map(|_| ()))));
    v.push(("encryptor opens".into(), run(|| e.init_handshake().map(|_| ()))));
    v
}
