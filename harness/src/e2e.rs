//! Drivers for the whole path between two connected ends (C22): queue, frame, serialize, encrypt,
//! carry, decrypt, decode, unframe; and certificates sent over a handshake.
use crate::cert::{authority, b58, set_clock};
use crate::codec::Cx;
use crate::gen;
use crate::noise::{nrun, pair_of, private, scripts, thin};
use crate::own::{own_frame, own_unframe};
use crate::subjects::*;
use crate::val::{hash64, Ev, Rng, V};
use std::collections::HashMap;
use stratumv2::codec::{deserialize, serialize, ByteParser, Deserializable, Message};
use stratumv2::network::{ConnectionEncryptor, Peer};
use stratumv2::noise::{new_noise_initiator, new_noise_responder, AuthorityKeyPair, CertificateFormat, NoiseSession, SignatureNoiseMessage, SignedCertificate, StaticPublicKey};

struct Dir {
    queued: Vec<(Option<(Sub, V)>, i64)>,
    /// bodies of the application's own classes among them
    own: HashMap<usize, (usize, Vec<u8>)>,
    stream: Vec<u8>,
    put: usize,
    pk: Vec<Vec<u8>>,
    got: usize,
    rx: Vec<u8>,
    pos: usize,
    n: usize,
}

pub struct Conn {
    s: [NoiseSession; 2],
    peer: [Peer<ConnectionEncryptor>; 2],
    d: [Dir; 2],
    ids: HashMap<Vec<u8>, i64>,
    pub evs: Vec<String>,
    stat: [u8; 32],
    pub rng: Rng,
}

impl Conn {
    fn id(&mut self, b: &[u8]) -> i64 {
        let n = self.ids.len() as i64 + 1;
        *self.ids.entry(b.to_vec()).or_insert(n)
    }
    fn mid(&mut self, m: &Message) -> i64 {
        let mut k = message_type_name(&m.message_type).as_bytes().to_vec();
        k.push(0);
        k.extend_from_slice(&m.payload);
        self.id(&k)
    }
    fn remote(&mut self) -> (i64, Option<StaticPublicKey>) {
        match self.s[0].get_remote_static_public_key() {
            Some(k) => (self.id(&k.as_bytes()), Some(k)),
            None => (0, None),
        }
    }
    /// A connection; the server may answer with a payload of its own.
    pub fn open(rng: Rng, secret: Option<[u8; 32]>, pay: &[u8], room: usize) -> (Conn, Vec<u8>) {
        let mut rng = rng;
        let kp = pair_of(secret.unwrap_or_else(|| private(&mut rng)));
        let stat = kp.get_public_key().as_bytes();
        let fresh = || Dir { queued: vec![], own: HashMap::new(), stream: vec![], put: 0, pk: vec![], got: 0, rx: vec![], pos: 0, n: 0 };
        let mut c = Conn {
            s: [new_noise_initiator(), new_noise_responder(Some(kp))],
            peer: [Peer::new(ConnectionEncryptor::new_outbound()), Peer::new(ConnectionEncryptor::new_inbound(None))],
            d: [fresh(), fresh()],
            ids: HashMap::new(),
            evs: vec![],
            stat,
            rng,
        };
        let mut a = c.rng.bytes(48 + room);
        let mut r = nrun(|| c.s[0].send_message(&mut a)).tag();
        if r == "ok" {
            r = nrun(|| c.s[1].recv_message(&mut a)).tag();
        }
        let mut b = c.rng.bytes(80);
        b.extend_from_slice(pay);
        b.extend(c.rng.bytes(16));
        if r == "ok" {
            r = nrun(|| c.s[1].send_message(&mut b)).tag();
        }
        if r == "ok" {
            r = nrun(|| c.s[0].recv_message(&mut b)).tag();
        }
        let said = b[80..80 + pay.len()].to_vec();
        let st = c.id(&stat);
        let (rem, _) = c.remote();
        c.evs.push(Ev::new("conn").s("hs", r).i("stat", st).i("remote", rem).end());
        (c, said)
    }
    /// Queues a message of the library's classes, or a body as one of the application's own.
    fn queue(&mut self, d: usize, what: Option<(Sub, V)>, own: Option<(usize, Vec<u8>)>) {
        let e = Ev::new("queue").i("d", d as i64 + 1);
        let m = match (&what, &own) {
            (Some((s, v)), _) => (s.frame.unwrap())(v, &mut self.rng).map(|x| x.0),
            (None, x) => {
                let (k, b) = x.as_ref().expect("harness: a message");
                own_frame(*k, b, None)
            }
        };
        let m = match m {
            R::Ok(x) => x,
            x => {
                self.evs.push(e.s("r", x.tag()).i("len", 0).i("payload", 0).i("id", 0).end());
                return;
            }
        };
        let wire = run(|| serialize(&m));
        let id = self.mid(&m);
        self.evs.push(e.s("r", wire.tag()).i("len", wire.ok().map_or(0, |b| b.len() as i64)).i("payload", m.payload.len() as i64).i("id", id).end());
        self.d[d].queued.push((what, id));
        let at = self.d[d].queued.len() - 1;
        if let Some(x) = own {
            self.d[d].own.insert(at, x);
        }
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.peer[d].pending_msg_buffer.lock().unwrap().push(m)));
    }
    fn drain(&mut self, d: usize) {
        let r = run(|| Ok(self.peer[d].get_pending_msgs()));
        let mut ids = vec![];
        let mut tag = r.tag();
        if let R::Ok(ms) = &r {
            for m in ms {
                ids.push(self.mid(m));
                match run(|| serialize(m)) {
                    R::Ok(b) => self.d[d].stream.extend(b),
                    x => tag = x.tag(),
                }
            }
        }
        self.evs.push(Ev::new("drain").i("d", d as i64 + 1).ints("ids", &ids).s("r", tag).end());
    }
    fn pending(&self, d: usize) -> usize {
        self.d[d].stream.len() - self.d[d].put
    }
    fn send(&mut self, d: usize, k: usize) {
        let k = k.min(self.pending(d)).min(65519);
        if k == 0 {
            return;
        }
        let p = self.d[d].put;
        let mut b = self.d[d].stream[p..p + k].to_vec();
        b.extend(self.rng.bytes(16));
        let r = nrun(|| self.s[d].send_message(&mut b));
        self.d[d].put += k;
        self.d[d].pk.push(b);
        self.evs.push(Ev::new("send").i("d", d as i64 + 1).i("k", k as i64).s("r", r.tag()).end());
    }
    /// Delivery of packet i (from 1), or of something that is none.
    fn deliver(&mut self, d: usize, i: usize) {
        let mut m = if i > 0 {
            self.d[d].pk[i - 1].clone()
        } else {
            let next = self.d[d].got;
            match self.d[d].pk.get(next).or(self.d[d].pk.last()).cloned() {
                Some(mut m) => {
                    let n = m.len();
                    match self.rng.below(4) {
                        0 => m.truncate(n - 1),
                        1 => m.push(0),
                        2 => m[n - 1 - self.rng.below(16)] ^= 1 << self.rng.below(8),
                        _ => m[self.rng.below(n)] ^= 1 << self.rng.below(8),
                    }
                    m
                }
                None => {
                    let n = self.rng.below(60);
                    self.rng.bytes(n)
                }
            }
        };
        let r = nrun(|| self.s[1 - d].recv_message(&mut m));
        let mut k = 0;
        if let R::Ok(_) = r {
            k = m.len() - 16;
            let x = m[..k].to_vec();
            self.d[d].rx.extend(x);
            self.d[d].got += 1;
        }
        self.evs.push(Ev::new("deliver").i("d", d as i64 + 1).i("i", i as i64).i("k", k as i64).s("r", r.tag()).end());
    }
    fn take(&mut self, d: usize) -> bool {
        let (rx, pos) = (self.d[d].rx.clone(), self.d[d].pos);
        // the rest of the stream is looked at with a reader placed at it, or on its own
        let at = self.rng.chance(1, 2);
        let x = run(|| {
            if at {
                Message::deserialize(&mut ByteParser::new(&rx, pos))
            } else {
                deserialize::<Message>(&rx[pos..])
            }
        });
        let mut id = 0;
        let mut tag = x.tag();
        if let R::Ok(m) = &x {
            let n = self.d[d].n;
            let seen = self.mid(m);
            match self.d[d].queued.get(n).map(|q| q.0.clone()) {
                Some(Some((s, v))) => match (s.unframe.unwrap())(m) {
                    R::Ok(got) => id = if got == v { seen } else { 0 },
                    o => tag = o.tag(),
                },
                Some(None) => {
                    let (k, b) = &self.d[d].own[&n];
                    match own_unframe(*k, m) {
                        R::Ok(got) => id = if got == *b { seen } else { 0 },
                        o => tag = o.tag(),
                    }
                }
                None => id = seen,
            }
            self.d[d].pos += 6 + m.payload.len();
            self.d[d].n += 1;
        }
        self.evs.push(Ev::new("take").i("d", d as i64 + 1).s("r", tag).i("id", id).end());
        tag == "ok"
    }
    fn rekey(&mut self, d: usize) {
        for e in 0..2 {
            if d == 0 {
                self.s[e].rekey_local_cipherstate()
            } else {
                self.s[e].rekey_remote_cipherstate()
            }
        }
        self.evs.push(Ev::new("rekey").i("d", d as i64 + 1).s("r", "ok").end());
    }
    fn flush(&mut self) {
        for d in 0..2 {
            self.drain(d);
            while self.pending(d) > 0 {
                let k = self.pending(d);
                self.send(d, k);
            }
            while self.d[d].got < self.d[d].pk.len() {
                let g = self.d[d].got;
                self.deliver(d, g + 1);
                if self.d[d].got == g {
                    break;
                }
            }
            while self.d[d].pos < self.d[d].rx.len() && self.take(d) {}
            self.take(d);
        }
    }
    /// Looks at a certificate message with a server key, an authority key and a clock.
    fn cert(&mut self, snm: &SignatureNoiseMessage, holder: &[u8; 32], used: &StaticPublicKey, auth: &[u8; 32], right: bool, from: u32, until: u32, now: i64) {
        let text = b58(auth);
        set_clock(Some((now, 0)));
        let r = run(|| CertificateFormat::new(&text, used, snm).and_then(|c| c.verify()));
        set_clock(None);
        let (h, u, st) = (self.id(holder), self.id(&used.as_bytes()), self.id(&self.stat.clone()));
        let (rem, _) = self.remote();
        let win = from as i64 <= now && now < until as i64;
        self.evs.push(Ev::new("cert").i("stat", st).i("remote", rem).i("holder", h).i("used", u).t("auth", right).t("win", win).s("r", r.tag()).end());
    }
    fn finish(self, cx: &mut Cx, class: &str) {
        let calls = self.evs.len() as u64;
        let k = self.evs.iter().fold(0u64, |a, e| a.rotate_left(5) ^ hash64(e.as_bytes()));
        let mut key = k.to_le_bytes().to_vec();
        for d in &self.d {
            key.extend(hash64(&d.stream).to_le_bytes());
        }
        cx.sink.count(&key);
        cx.sink.evaluations += calls - 1;
        cx.sink.note(&format!("connections: {}", class), 1);
        cx.sink.behaviours += 1;
        cx.sink.group(&self.evs);
    }
}

pub fn c22(cx: &mut Cx) {
    let subs: Vec<Sub> = cx.subs.iter().filter(|s| s.frame.is_some()).cloned().collect();
    let mut turn = 0usize;
    let mut rng = Rng::new(cx.rng.next());
    let pick = |cx: &mut Cx, turn: &mut usize| {
        // consecutive messages run through all pairs of classes
        let n = subs.len();
        let s = subs[(*turn + *turn / n * 3) % n];
        *turn += 1;
        let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
        (s, v)
    };

    // histories TLC generated (MCE2E.tla)
    let all = scripts("e2e");
    cx.sink.note("histories generated by TLC", all.len() as u64);
    let phase = cx.rng.below(97);
    for sc in thin(&all, 5000 * cx.scale, phase) {
        let (mut c, _) = Conn::open(Rng::new(rng.next()), None, &[], 0);
        let mut made = [vec![], vec![]];
        for o in &sc {
            let d = o[1] as usize - 1;
            match o[0] {
                1 => {
                    let w = pick(cx, &mut turn);
                    c.queue(d, Some(w), None);
                }
                2 => c.drain(d),
                3 => {
                    let p = c.pending(d);
                    let k = if o[2] == o[3] { p } else { (p * o[2] as usize / o[3] as usize).max(1) };
                    made[d].push(c.d[d].pk.len());
                    c.send(d, k);
                }
                4 => {
                    // the i-th packet of the model is the first one made for it
                    let i = o[2] as usize;
                    let i = if i == 0 { 0 } else { made[d].get(i - 1).map_or(0, |k| k + 1) };
                    if i <= c.d[d].pk.len() {
                        c.deliver(d, i);
                    }
                }
                _ => {
                    c.take(d);
                }
            }
        }
        c.flush();
        c.finish(cx, "TLC");
    }

    // long conversations
    for round in 0..120 * cx.scale {
        let pay = rng.bytes(round % 40);
        let room = rng.below(30);
        let (mut c, _) = Conn::open(Rng::new(rng.next()), None, &pay, room);
        let steps = 40 + rng.below(200);
        for _ in 0..steps {
            let d = c.rng.below(2);
            match c.rng.below(12) {
                0..=3 => {
                    let w = pick(cx, &mut turn);
                    c.queue(d, Some(w), None);
                }
                4 => c.drain(d),
                5 | 6 => {
                    let p = c.pending(d);
                    let k = match c.rng.below(4) {
                        0 => 1 + c.rng.below(8),
                        1 => p,
                        _ => 1 + c.rng.below(p.max(1)),
                    };
                    c.send(d, k);
                }
                7 | 8 => {
                    let (g, n) = (c.d[d].got, c.d[d].pk.len());
                    let i = match c.rng.below(6) {
                        0 => 0,
                        1 if n > 0 => 1 + c.rng.below(n),
                        _ => (g + 1).min(n),
                    };
                    c.deliver(d, i);
                }
                11 if c.rng.chance(1, 4) => {
                    if c.d[d].got == c.d[d].pk.len() {
                        c.rekey(d);
                    }
                }
                _ => {
                    c.take(d);
                }
            }
        }
        c.flush();
        c.finish(cx, "long");
    }

    // payloads of any size, cut into many packets
    let sizes = [0usize, 1, 255, 256, 65519 - 9, 65520 - 9, 65001, 65535, 65536, 131_072, 450_000, 1 << 20, (1 << 24) - 4];
    for (i, n) in sizes.iter().enumerate() {
        let (mut c, _) = Conn::open(Rng::new(rng.next()), None, &[], 0);
        let d = i % 2;
        for k in 0..3 {
            let t = c.rng.below(MESSAGE_TYPES.len());
            let fill = if i % 3 == k { 0 } else { c.rng.byte() };
            let mut p = vec![fill; if k == 1 { *n } else { n / 7 }];
            // some end with a long run of one byte
            let some = p.len() - if k == 1 { 0 } else { p.len().min(100) };
            for (j, b) in p[..some].iter_mut().enumerate().step_by(251) {
                *b = (j / 251) as u8;
            }
            c.queue(d, None, Some((t, p)));
            let w = pick(cx, &mut turn);
            c.queue(d, Some(w), None);
        }
        c.flush();
        c.finish(cx, "large");
    }

    // certificates
    for round in 0..150 * cx.scale {
        let (auth, other_auth): (AuthorityKeyPair, AuthorityKeyPair) = (authority(&mut rng), authority(&mut rng));
        let secret = private(&mut rng);
        let stat = pair_of(secret).get_public_key();
        let stranger = pair_of(private(&mut rng)).get_public_key();
        let from = 100 + (rng.next() as u32 >> 1);
        let until = from + 1 + (rng.next() as u32 >> 3);
        let version = rng.next() as u16;
        // the server's own certificate, or one made for somebody else
        for own in [true, false].iter() {
            let holder = if *own { &stat } else { &stranger };
            let snm = run(|| SignedCertificate::new(version, from, until, holder).and_then(|x| SignatureNoiseMessage::from_auth_key(&auth, &x)));
            let wire = match &snm {
                R::Ok(m) => run(|| serialize(m)),
                _ => R::Panic,
            };
            let wire = wire.ok().cloned().unwrap_or_else(|| vec![0; 74]);
            let in_handshake = round % 2 == 0;
            let (mut c, said) = Conn::open(Rng::new(rng.next()), Some(secret), if in_handshake { &wire } else { &[] }, 0);
            let got = if in_handshake {
                said
            } else {
                let mut b = wire.clone();
                let room = c.rng.below(3) * 300;
                b.extend(vec![0; room + 16]);
                let mut ok = nrun(|| c.s[1].send_message(&mut b)).tag() == "ok";
                ok = ok && nrun(|| c.s[0].recv_message(&mut b)).tag() == "ok";
                if ok {
                    b.truncate(b.len() - 16);
                    b
                } else {
                    vec![]
                }
            };
            let seen = run(|| deserialize::<SignatureNoiseMessage>(&got));
            let hb = holder.as_bytes();
            let mid = from as i64 + (until - from) as i64 / 2;
            let ap = auth.public.to_bytes();
            match &seen {
                R::Ok(m) => {
                    if let (_, Some(k)) = c.remote() {
                        for now in [mid, from as i64, until as i64 - 1, from as i64 - 1, until as i64, until as i64 + 5].iter() {
                            c.cert(m, &hb, &k, &ap, true, from, until, *now);
                        }
                        c.cert(m, &hb, &k, &other_auth.public.to_bytes(), false, from, until, mid);
                    }
                    c.cert(m, &hb, &stranger, &ap, true, from, until, mid);
                    for _ in 0..4 {
                        let mut k = hb;
                        k[c.rng.below(32)] ^= 1 << c.rng.below(8);
                        if let Ok(k) = StaticPublicKey::from_bytes(k) {
                            c.cert(m, &hb, &k, &ap, true, from, until, mid);
                        }
                    }
                }
                x => {
                    let tag = x.tag();
                    let (h, st) = (c.id(&hb), c.id(&stat.as_bytes()));
                    let (rem, _) = c.remote();
                    c.evs.push(Ev::new("cert").i("stat", st).i("remote", rem).i("holder", h).i("used", h).t("auth", true).t("win", true).s("r", tag).end());
                }
            }
            // and the connection goes on
            let w = pick(cx, &mut turn);
            c.queue(round % 2, Some(w), None);
            c.flush();
            c.finish(cx, if in_handshake { "certificate in the handshake" } else { "certificate after the handshake" });
        }
    }
}
