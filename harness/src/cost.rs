//! What decoding, encoding and session calls hold in memory while they run (C29).
use crate::codec::Cx;
use crate::gen;
use crate::mem::metered;
use crate::noise::{pair_of, private};
use crate::subjects::*;
use crate::val::Ev;
use noiseexplorer_nx::noisesession::NoiseSession;
use std::io::Write;
use stratumv2::codec::{deserialize, frame, serialize, unframe, ByteParser, Deserializable, Message, Serializable};
use stratumv2::common::{ChannelEndpointChanged, Protocol, SetupConnection, SetupConnectionErrorCode};
use stratumv2::mining::OpenMiningChannelErrorCode;
use stratumv2::network::{ConnectionEncryptor, Encryptor, Peer};
use stratumv2::noise::{Signature, SignatureNoiseMessage};
use stratumv2::types::*;
use stratumv2::{job_negotiation as jn, mining as mn};

fn bare<T: Deserializable>(buf: &[u8], route: u8) -> (&'static str, usize) {
    let (r, most) = metered(|| {
        run(|| {
            let x = if route == 1 { deserialize::<T>(buf)? } else { T::deserialize(&mut ByteParser::new(buf, 0))? };
            drop(x);
            Ok(())
        })
    });
    (r.tag(), most)
}

macro_rules! costs {
    ($($n:expr => $t:ty),* $(,)?) => {
        vec![$(($n, bare::<$t> as fn(&[u8], u8) -> (&'static str, usize))),*]
    };
}
fn registry() -> Vec<(&'static str, fn(&[u8], u8) -> (&'static str, usize))> {
    costs!(
        "bool" => bool, "u8" => u8, "u16" => u16, "u32" => u32, "f32" => f32, "U24" => U24, "U256" => U256, "Signature" => Signature,
        "STR0_32" => STR0_32, "STR0_255" => STR0_255,
        "B0_31" => B0_31, "B0_32" => B0_32, "B0_255" => B0_255, "B0_64K" => B0_64K, "B0_16M" => B0_16M,
        "MiningSetupFlags" => mn::SetupConnectionFlags, "JnSetupFlags" => jn::SetupConnectionFlags,
        "MiningSetupSuccessFlags" => mn::SetupConnectionSuccessFlags, "JnSetupSuccessFlags" => jn::SetupConnectionSuccessFlags,
        "SetupErrorCode" => SetupConnectionErrorCode, "OpenChannelErrorCode" => OpenMiningChannelErrorCode, "Protocol" => Protocol,
        "SetupConnection" => SetupConnection, "MiningSetupConnection" => mn::SetupConnection, "JnSetupConnection" => jn::SetupConnection,
        "MiningSetupConnectionError" => mn::SetupConnectionError, "JnSetupConnectionError" => jn::SetupConnectionError,
        "MiningSetupConnectionSuccess" => mn::SetupConnectionSuccess, "JnSetupConnectionSuccess" => jn::SetupConnectionSuccess,
        "ChannelEndpointChanged" => ChannelEndpointChanged,
        "OpenStandardMiningChannel" => mn::OpenStandardMiningChannel,
        "OpenStandardMiningChannelSuccess" => mn::OpenStandardMiningChannelSuccess,
        "OpenStandardMiningChannelError" => mn::OpenStandardMiningChannelError,
        "OpenExtendedMiningChannel" => mn::OpenExtendedMiningChannel,
        "OpenExtendedMiningChannelSuccess" => mn::OpenExtendedMiningChannelSuccess,
        "OpenExtendedMiningChannelError" => mn::OpenExtendedMiningChannelError,
        "UpdateChannel" => mn::UpdateChannel,
        "SignatureNoiseMessage" => SignatureNoiseMessage,
        "Message" => Message,
    )
}

/// The native rendering of Held of Wire.tla.
fn bound(n: usize) -> usize {
    8 * n + 16384
}

fn put(cx: &mut Cx, what: &str, t: &str, len: usize, most: usize, id: &[u8]) {
    cx.key(what, t, id);
    let bad = most > bound(len);
    let class = format!("{}/{}", what, t);
    if bad || cx.sink.wants(&class) {
        let e = Ev::new("held").s("what", what).s("t", t).i("len", len as i64).i("most", most.min(1 << 30) as i64).end();
        cx.sink.put(&class, e, bad);
    }
}

struct Sunk(usize);
impl Write for Sunk {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c29(cx: &mut Cx) {
    let reg = registry();
    let find = |n: &str| reg.iter().find(|x| x.0 == n).map(|x| x.1);
    // everything decoding is tried with elsewhere
    let mut k = 0u64;
    cx.each_input(&mut |cx, s, b| {
        if let Some(f) = find(s.name) {
            k += 1;
            let (_, most) = f(b, (k % 2) as u8);
            put(cx, "decode", s.name, b.len(), most, b);
        }
    });
    // length claims of every size at every place of an encoding, on inputs that stop at once or later
    let claims: [&[u8]; 8] = [&[0xff; 1], &[0xff; 2], &[0xff; 3], &[0xff; 4], &[0xff; 8], &[0, 0, 0x80], &[0, 0, 0, 1], &[0, 0x80]];
    for (t, f) in &reg {
        for _ in 0..6 * cx.scale {
            let v = gen::value(cx.tab, t, true, &mut cx.rng);
            let b = cx.tab.encode(t, &v);
            for i in 0..b.len() {
                if b.len() > 120 && i > 20 && i + 20 < b.len() && i % 7 != 0 {
                    continue;
                }
                for c in claims.iter() {
                    for tail in [0usize, 1, 40].iter() {
                        let mut x = b[..i].to_vec();
                        x.extend_from_slice(c);
                        let junk = b[i..].iter().take(*tail).cloned().collect::<Vec<u8>>();
                        x.extend(junk);
                        let (_, most) = f(&x, (i % 2) as u8);
                        put(cx, "claim", t, x.len(), most, &x);
                    }
                }
            }
        }
        // long inputs
        for n in [1000usize, 5000, 70_000].iter() {
            for fill in [0u8, 1, 0xff, b'a'].iter() {
                let x = vec![*fill; *n];
                let (_, most) = f(&x, 0);
                put(cx, "long", t, x.len(), most, &[&[*fill][..], &n.to_le_bytes()[..]].concat());
            }
        }
    }
    // long contents, whole and cut short
    for n in [255usize, 256, 65535, 65536, 1_000_000, (1 << 24) - 1].iter() {
        for t in ["B0_64K", "B0_16M", "Message"].iter() {
            let f = find(t).expect("harness: type");
            let mut x = match *t {
                "B0_64K" if *n > 65535 => continue,
                "B0_64K" => (*n as u16).to_le_bytes().to_vec(),
                "B0_16M" => (*n as u32).to_le_bytes()[..3].to_vec(),
                _ => [&[0u8, 0, 0][..], &(*n as u32).to_le_bytes()[..3]].concat(),
            };
            let h = x.len();
            x.extend(vec![7u8; *n]);
            for cut in [x.len(), x.len() - 1, h + n / 2, h + 1, h, h - 1].iter() {
                let (_, most) = f(&x[..*cut], 0);
                put(cx, "content", t, *cut, most, &[&n.to_le_bytes()[..], &cut.to_le_bytes()[..]].concat());
            }
        }
    }
    // raw reads
    for n in [0usize, 1, 1 << 16, 1 << 24, 1 << 32, 1 << 40, usize::MAX / 2, usize::MAX].iter() {
        let b = [1u8; 9];
        let (_, most) = metered(|| run(|| ByteParser::new(&b, 3).next_by(*n).map(|x| x.len())));
        put(cx, "read", "raw", b.len(), most, &n.to_le_bytes());
    }
    // serializing, framing and unframing
    let subs = cx.subs.clone();
    for s in &subs {
        for _ in 0..10 * cx.scale {
            let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
            let mut w = Sunk(0);
            // building is not what is measured, but is included
            let rng = &mut cx.rng;
            let (_, most) = metered(|| (s.write)(&v, rng, &mut w));
            let id = cx.tab.encode(s.name, &v);
            put(cx, "encode", s.name, id.len(), most, &id);
        }
    }
    for n in [0usize, 300, 65535, 1 << 20, (1 << 24) - 1].iter() {
        let m = Message::new(MessageType::SetTarget, vec![3u8; *n]);
        let (_, most) = metered(|| run(|| m.serialize(&mut Sunk(0))));
        put(cx, "encode", "Message", n + 6, most, &n.to_le_bytes());
        let (_, most) = metered(|| run(|| serialize(&m)));
        put(cx, "encode", "Message", n + 6, most, &[1, *n as u8]);
        let (_, most) = metered(|| run(|| unframe::<mn::UpdateChannel>(&m).map(|_| ())));
        put(cx, "unframe", "Message", *n, most, &n.to_le_bytes());
        let m = Message::new(MessageType::UpdateChannel, vec![3u8; *n]);
        let (_, most) = metered(|| run(|| unframe::<mn::UpdateChannel>(&m).map(|_| ())));
        put(cx, "unframe", "UpdateChannel", *n, most, &n.to_le_bytes());
    }
    if let Ok(x) = mn::UpdateChannel::new(1, 2.0, [3u8; 32]) {
        let (_, most) = metered(|| run(|| frame(&x).map(|_| ())));
        put(cx, "frame", "UpdateChannel", 40, most, &[]);
    }
    // sessions and encryptors
    for n in [0usize, 1, 15, 16, 31, 32, 48, 95, 96, 112, 200, 1000, 5000, 65535, 65536, 70_000, 1 << 20].iter() {
        for stage in 0..4 {
            for sending in [true, false].iter() {
                let p = b"p".to_vec();
                let mut i = NoiseSession::init_session(true, &p, pair_of(private(&mut cx.rng)));
                let mut r = NoiseSession::init_session(false, &p, pair_of(private(&mut cx.rng)));
                let mut a = vec![0u8; 40];
                let mut b = vec![0u8; 110];
                if stage > 0 {
                    let _ = i.send_message(&mut a);
                }
                if stage > 1 {
                    let _ = r.recv_message(&mut a);
                    let _ = r.send_message(&mut b);
                }
                if stage > 2 {
                    let _ = i.recv_message(&mut b);
                }
                let mut x = vec![5u8; *n];
                let (_, most) = metered(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if *sending { i.send_message(&mut x) } else { i.recv_message(&mut x) })));
                put(cx, "session", if *sending { "send" } else { "receive" }, *n, most, &[stage as u8, *n as u8, (*n >> 8) as u8]);
                let mut x = vec![5u8; *n];
                let (_, most) = metered(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if *sending { r.send_message(&mut x) } else { r.recv_message(&mut x) })));
                put(cx, "session", if *sending { "send" } else { "receive" }, *n, most, &[4 + stage as u8, *n as u8, (*n >> 8) as u8]);
            }
        }
        for out in [true, false].iter() {
            let mut e = if *out { ConnectionEncryptor::new_outbound() } else { ConnectionEncryptor::new_inbound(None) };
            if *out {
                let _ = run(|| e.init_handshake());
            }
            let mut x = vec![5u8; *n];
            let (_, most) = metered(|| run(|| e.recv_handshake(&mut x).map(|m| m.len())));
            put(cx, "encryptor", if *out { "outbound" } else { "inbound" }, *n, most, &n.to_le_bytes());
        }
    }
    queues(cx);
    again(cx);
}

/// Queueing and draining, over and over.
fn queues(cx: &mut Cx) {
    for (rounds, each, n) in [(1usize, 1usize, 0usize), (200, 1, 0), (60, 1, 300), (40, 7, 20), (3000, 1, 10), (5, 1000, 1), (4, 3, 100_000)].iter() {
        for empty in [0usize, 3].iter() {
            let p = Peer::new(ConnectionEncryptor::new_outbound());
            let (_, most) = metered(|| {
                run(|| {
                    for _ in 0..*rounds {
                        for _ in 0..*each {
                            p.pending_msg_buffer.lock().expect("queue").push(Message::new(MessageType::SetTarget, vec![1u8; *n]));
                        }
                        p.get_pending_msgs();
                        for _ in 0..*empty {
                            p.get_pending_msgs();
                        }
                    }
                    Ok(())
                })
            });
            put(cx, "drain", "queue", each * (n + 40), most, &[*rounds as u8, *each as u8, *n as u8, *empty as u8]);
        }
    }
}

/// The same thing many times: nothing may pile up.
fn again(cx: &mut Cx) {
    let times = 400 * cx.scale;
    for (t, f) in &registry() {
        for good in [true, false].iter() {
            let v = gen::value(cx.tab, t, true, &mut cx.rng);
            let mut b = cx.tab.encode(t, &v);
            if !*good {
                b.pop();
            }
            let (_, most) = metered(|| {
                for k in 0..times {
                    f(&b, (k % 2) as u8);
                }
            });
            put(cx, "again", t, b.len(), most, &b);
        }
        // one input for every answer there is, each over and over
        let mut kinds: std::collections::BTreeMap<String, Vec<Vec<u8>>> = Default::default();
        if let Some(d) = cx.subs.iter().find(|s| s.name == *t).and_then(|s| s.decode) {
            for k in 0..1500 {
                let b = if k % 2 == 0 {
                    gen::input(cx.tab, t, &mut cx.rng)
                } else {
                    let v = gen::value(cx.tab, t, false, &mut cx.rng);
                    cx.tab.encode(t, &v)
                };
                let r = d(&b, 0);
                let known = kinds.entry(format!("{}{}", r.tag(), r.kind())).or_default();
                if b.len() < 500 && known.len() < 4 {
                    known.push(b);
                }
            }
        }
        for b in kinds.values().flatten() {
            let (_, most) = metered(|| {
                for k in 0..3000 {
                    f(b, (k % 2) as u8);
                }
            });
            put(cx, "again", t, b.len(), most, b);
        }
        // and different ones
        let bs: Vec<Vec<u8>> = (0..times).map(|_| gen::input(cx.tab, t, &mut cx.rng)).collect();
        let n = bs.iter().map(|b| b.len()).max().unwrap_or(0);
        let (_, most) = metered(|| {
            for b in &bs {
                f(b, 0);
            }
        });
        put(cx, "others", t, n, most, &(times as u32).to_le_bytes());
    }
    let subs = cx.subs.clone();
    for s in &subs {
        let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
        let id = cx.tab.encode(s.name, &v);
        let rng = &mut cx.rng;
        let (_, most) = metered(|| {
            for _ in 0..times {
                (s.write)(&v, rng, &mut Sunk(0));
            }
        });
        put(cx, "again", s.name, id.len(), most, &id);
    }
    // sessions: made and dropped, and one that goes on and on
    let (a, b) = (private(&mut cx.rng), private(&mut cx.rng));
    let (_, most) = metered(|| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..60 {
                let mut i = NoiseSession::init_session(true, b"p", pair_of(a));
                let mut r = NoiseSession::init_session(false, b"p", pair_of(b));
                let mut x = vec![0u8; 200];
                let _ = i.send_message(&mut x);
                let _ = r.recv_message(&mut x);
                let _ = r.send_message(&mut x);
                let _ = i.recv_message(&mut x);
            }
        }))
    });
    put(cx, "again", "handshake", 200, most, &[]);
    let mut i = NoiseSession::init_session(true, b"p", pair_of(a));
    let mut r = NoiseSession::init_session(false, b"p", pair_of(b));
    let mut x = vec![0u8; 200];
    let _ = i.send_message(&mut x);
    let _ = r.recv_message(&mut x);
    let _ = r.send_message(&mut x);
    let _ = i.recv_message(&mut x);
    let (_, most) = metered(|| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for k in 0..20 * times {
                let mut x = vec![0u8; 100];
                let _ = i.send_message(&mut x);
                if k % 5 == 4 {
                    let mut y = x.clone();
                    y[3] ^= 1;
                    let _ = r.recv_message(&mut y);
                }
                let _ = r.recv_message(&mut x);
                if k % 50 == 7 {
                    i.rekey_local_cipherstate();
                    r.rekey_local_cipherstate();
                }
            }
        }))
    });
    put(cx, "again", "transport", 100, most, &[]);
}
