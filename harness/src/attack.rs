//! The attacker of spec/Attack.tla on real sessions: composes second handshake messages by TLC's
//! recipes from what he has seen and can compute, and gives them to initiators (C12, C21).
use crate::codec::Cx;
use crate::noise::{job, nrun, pair_of, private, scripts, thin, Job, W};
use crate::refnx::{dh, hash, hmac, open, public, seal};
use crate::subjects::{run, R};
use crate::val::Ev;
use noiseexplorer_nx::noisesession::NoiseSession;
use stratumv2::network::{ConnectionEncryptor, Encryptor};
use std::sync::Arc;

type Row = Vec<Vec<i64>>;
type B = Vec<u8>;

fn h(a: &[u8], b: &[u8]) -> B {
    hash(&[a, b].concat())
}
fn o1(t: &[u8]) -> B {
    hmac(t, &[1])
}
fn o2(t: &[u8]) -> B {
    let mut x = o1(t);
    x.push(2);
    hmac(t, &x)
}
fn h4(pro: &[u8], ei: &[u8], pa: &[u8], re: &[u8]) -> B {
    h(&h3(pro, ei, pa), re)
}
fn h0() -> B {
    hash(b"Noise_NX_25519_ChaChaPoly_BLAKE2s")
}
fn h3(pro: &[u8], ei: &[u8], pa: &[u8]) -> B {
    h(&h(&h(&h0(), pro), ei), pa)
}

/// What an honest responder with ephemeral key er and static key sr answers.
fn answer(pro: &[u8], ei: &[u8], pa: &[u8], er: &[u8; 32], sr: &[u8; 32], pb: &[u8]) -> B {
    let (re, rs) = (public(er), public(sr));
    let t1 = hmac(&h0(), &dh(er, ei));
    let ad = h4(pro, ei, pa, &re);
    let c1 = seal(&o2(&t1), 0, &ad, &rs);
    let t2 = hmac(&o1(&t1), &dh(sr, ei));
    let c2 = seal(&o2(&t2), 0, &h(&ad, &c1), pb);
    [re, c1, c2].concat()
}

/// The same by the library, if it answers.
fn by_library(pro: &[u8], ei: &[u8], pa: &[u8], er: &[u8; 32], sr: &[u8; 32], pb: &[u8]) -> B {
    let mut x = NoiseSession::init_session(false, pro, pair_of(*sr));
    x.set_ephemeral_keypair(pair_of(*er));
    let mut a = [ei, pa].concat();
    let mut b = vec![0u8; 96 + pb.len()];
    b[80..80 + pb.len()].copy_from_slice(pb);
    if nrun(|| x.recv_message(&mut a).and_then(|_| x.send_message(&mut b))).tag() == "ok" {
        b
    } else {
        answer(pro, ei, pa, er, sr, pb)
    }
}

enum Victim {
    Plain(NoiseSession),
    Enc(ConnectionEncryptor),
}

struct Scene {
    pro: B,
    opro: B,
    pa: B,
    px: B,
    ei: B,
    ex: [u8; 32],
    sx: [u8; 32],
    /// public keys by name
    names: Vec<(&'static str, B)>,
    answers: Vec<B>,
}

impl Scene {
    fn new(w: &mut W, pro: B, ei: B, pa: B, library: bool) -> Scene {
        let mut opro = pro.clone();
        if !opro.is_empty() && w.rng.chance(1, 2) {
            let i = w.rng.below(opro.len());
            opro[i] ^= 1 << w.rng.below(8);
        } else {
            opro.push(w.rng.byte());
        }
        let mut px = pa.clone();
        if !px.is_empty() && w.rng.chance(1, 2) {
            let i = w.rng.below(px.len());
            px[i] ^= 1 << w.rng.below(8);
        } else {
            px.push(w.rng.byte());
        }
        let n = w.rng.below(70);
        let pb = w.rng.bytes(n);
        let k: Vec<[u8; 32]> = (0..10).map(|_| private(&mut w.rng)).collect();
        let (ej, ex, sx, sr, sq) = (k[0], k[1], k[2], k[3], k[4]);
        let er = &k[5..10];
        let mk = |e: &[u8], pay: &[u8], er: &[u8; 32], s: &[u8; 32]| if library { by_library(&pro, e, pay, er, s, &pb) } else { answer(&pro, e, pay, er, s, &pb) };
        let answers = vec![
            mk(&ei, &pa, &er[0], &sr),
            mk(&public(&ex), &px, &er[1], &sr),
            mk(&ei, &px, &er[2], &sr),
            mk(&ei, &pa, &er[3], &sq),
            mk(&public(&ej), &pa, &er[4], &sr),
        ];
        let mut names = vec![("EX", public(&ex)), ("SX", public(&sx)), ("SR", public(&sr)), ("SQ", public(&sq)), ("EI", ei.clone())];
        for (i, n) in ["ER", "ER2", "ER3", "ER4", "ER5"].iter().enumerate() {
            names.push((n, public(&er[i])));
        }
        Scene { pro, opro, pa, px, ei, ex, sx, names, answers }
    }
    fn key(&self, n: &str) -> B {
        self.names.iter().find(|x| x.0 == n).unwrap().1.clone()
    }
    fn secret(&self, k: i64) -> B {
        match k {
            1 => dh(&self.ex, &self.ei),
            2 => dh(&self.sx, &self.ei),
            3 => dh(&self.ex, &self.key("SR")),
            4 => dh(&self.ex, &self.key("ER2")),
            _ => vec![],
        }
    }
    /// Message, handshake hash after it, and the two transport keys the recipe leads to.
    fn compose(&self, w: &mut W, row: &Row) -> (B, B, B, B) {
        let eph = ["EX", "ER", "ER2", "ER3", "ER4", "ER5", "EI", "SR", "SX"];
        let stat = ["SX", "SR", "SQ", "EX", "EI"];
        let re = self.key(eph[row[0][0] as usize - 1]);
        let ih4 = h4(&self.pro, &self.ei, &self.pa, &re);
        let r1 = &row[1];
        let c1 = if r1[0] != 0 {
            self.answers[r1[0] as usize - 1][32..80].to_vec()
        } else {
            let ad = match r1[2] {
                1 => ih4.clone(),
                2 => h4(&self.pro, &self.ei, &self.px, &re),
                3 => h4(&self.opro, &self.ei, &self.pa, &re),
                4 => h4(&self.pro, &self.key("EX"), &self.pa, &re),
                5 => h3(&self.pro, &self.ei, &self.pa),
                6 => h(&h(&h(&h0(), &self.ei), &self.pa), &re),
                _ => vec![],
            };
            seal(&o2(&hmac(&h0(), &self.secret(r1[1]))), 0, &ad, &self.key(stat[r1[3] as usize - 1]))
        };
        let r2 = &row[2];
        let t2 = |a: i64, b: i64| {
            let t1 = hmac(&h0(), &self.secret(a));
            if b == 6 {
                t1
            } else {
                hmac(&o1(&t1), &self.secret(b))
            }
        };
        let n = w.rng.below(50);
        let pay = w.rng.bytes(n);
        let (c2, t) = if r2[0] != 0 {
            (self.answers[r2[0] as usize - 1][80..].to_vec(), t2(1, 2))
        } else {
            let ad = match r2[3] {
                1 => h(&ih4, &c1),
                2 => ih4.clone(),
                _ => vec![],
            };
            let t = t2(r2[1], r2[2]);
            (seal(&o2(&t), 0, &ad, &pay), t)
        };
        let split = hmac(&o1(&t), &[]);
        let h6 = h(&h(&ih4, &c1), &c2);
        ([re, c1, c2].concat(), h6, o1(&split), o2(&split))
    }
    fn name(&self, k: Option<B>) -> String {
        match k {
            None => "none".into(),
            Some(k) => self.names.iter().find(|x| x.1 == k).map(|x| x.0.to_string()).unwrap_or("other".into()),
        }
    }
}

fn strike(w: &mut W, sc: &Scene, mut v: Victim, row: &Row) {
    let (mut m, h6, k1, k2) = sc.compose(w, row);
    w.calls += 3;
    let (r, tp, rs, hh, first) = match &mut v {
        Victim::Plain(x) => {
            let r = nrun(|| x.recv_message(&mut m)).tag();
            let hh = match x.get_handshake_hash() {
                None => "none",
                Some(z) if z.to_vec() == h6 => "same",
                Some(_) => "other",
            };
            (r, x.is_transport(), x.get_remote_static_public_key().map(|k| k.as_bytes().to_vec()), hh, None)
        }
        Victim::Enc(x) => {
            let out = run(|| x.recv_handshake(&mut m));
            let (r, first) = match out {
                R::Ok(b) => ("ok", Some(b)),
                R::Err(_) => ("err", None),
                R::Panic => ("panic", None),
            };
            (r, x.is_handshake_complete(), x.get_remote_pubkey().map(|k| k.as_bytes().to_vec()), "hidden", first)
        }
    };
    // a message each way under the keys the attacker arrives at
    let (mut inn, mut out) = ("none", "none");
    if tp {
        match &mut v {
            Victim::Plain(x) => {
                let mut c = seal(&k2, 0, &[], b"attacker speaking");
                inn = nrun(|| x.recv_message(&mut c)).tag();
                let mut c = vec![7u8; 40];
                let sent = nrun(|| x.send_message(&mut c)).tag();
                out = if sent == "ok" && open(&k1, 0, &[], &c).is_some() { "ok" } else { "err" };
            }
            Victim::Enc(_) => {
                inn = "hidden";
                out = if first.map(|c| open(&k1, 0, &[], &c).is_some()).unwrap_or(false) { "ok" } else { "err" };
            }
        }
    }
    let list = |x: &Vec<i64>| format!("[{}]", x.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    let ev = Ev::new("attack").i("e", row[0][0]).raw("c1", &list(&row[1])).raw("c2", &list(&row[2])).s("r", r).t("tp", tp).s("rs", &sc.name(rs)).s("h", hh).s("in", inn).s("out", out).end();
    w.ev(ev);
    w.each.push(w.rng.next());
}

/// Rows in order of how little they differ from one that is accepted.
fn ranked() -> Vec<(usize, Row)> {
    let all = scripts("attack");
    let acc: Vec<Row> = all.iter().filter(|r| r[3][0] == 1).cloned().collect();
    let off = |a: &Row, b: &Row| (0..3).map(|i| (0..a[i].len()).filter(|&j| a[i][j] != b[i][j]).count()).sum::<usize>();
    all.into_iter().map(|r| (acc.iter().map(|a| off(a, &r)).min().unwrap_or(9), r)).collect()
}

pub fn attacks(cx: &mut Cx, jobs: &mut Vec<(String, Job)>, plain: usize, enc: usize) {
    let rows = ranked();
    cx.sink.note("compositions generated by TLC", rows.len() as u64);
    let near = |d: usize| rows.iter().filter(|x| x.0 <= d).map(|x| x.1.clone()).collect::<Vec<Row>>();
    let far: Vec<Row> = rows.iter().filter(|x| x.0 > 2).map(|x| x.1.clone()).collect();
    if plain > 0 {
        let mut mine = near(2);
        let phase = cx.rng.below(97);
        mine.extend(thin(&far, plain * cx.scale, phase));
        cx.sink.note("compositions tried on sessions", mine.len() as u64);
        let mine = Arc::new(mine);
        let per = 150;
        for k in 0..(mine.len() + per - 1) / per {
            let mine = mine.clone();
            job(jobs, "composed messages", move |w| {
                let (lp, la) = (w.rng.below(60) * (k % 3), w.rng.below(70) * (k % 4));
                let (pro, pa) = (w.rng.bytes(lp), w.rng.bytes(la));
                let (ei, si) = (private(&mut w.rng), private(&mut w.rng));
                let sc = Scene::new(w, pro.clone(), public(&ei), pa.clone(), k % 2 == 0);
                for row in mine.iter().skip(k * per).take(per) {
                    let mut x = NoiseSession::init_session(true, &pro, pair_of(si));
                    x.set_ephemeral_keypair(pair_of(ei));
                    let mut a = vec![0u8; 32];
                    a.extend(&pa);
                    if nrun(|| x.send_message(&mut a)).tag() == "ok" && a[..32] == public(&ei)[..] && a[32..] == pa[..] {
                        strike(w, &sc, Victim::Plain(x), row);
                    }
                }
            });
        }
    }
    if enc > 0 {
        let mut mine = near(1);
        let phase = cx.rng.below(97);
        mine.extend(thin(&near(3), enc * cx.scale, phase));
        cx.sink.note("compositions tried on connection encryptors", mine.len() as u64);
        let mine = Arc::new(mine);
        let per = 20;
        for k in 0..(mine.len() + per - 1) / per {
            let mine = mine.clone();
            job(jobs, "composed messages, encryptor", move |w| {
                for row in mine.iter().skip(k * per).take(per) {
                    let mut x = ConnectionEncryptor::new_outbound();
                    if let R::Ok(a) = run(|| x.init_handshake()) {
                        if a.len() >= 32 {
                            let sc = Scene::new(w, vec![], a[..32].to_vec(), a[32..].to_vec(), k % 2 == 0);
                            strike(w, &sc, Victim::Enc(x), row);
                        }
                    }
                }
            });
        }
    }
}
