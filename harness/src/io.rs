//! Drivers for the reader (C09), the writer (C10) and the outgoing queue (C20).
use crate::codec::Cx;
use crate::gen;
use crate::subjects::*;
use crate::table::Ty;
use crate::val::{Ev, V};
use std::collections::{BTreeSet, HashMap};
use std::io::{self, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use stratumv2::codec::{ByteParser, Message};
use stratumv2::network::{ConnectionEncryptor, Peer};
use stratumv2::types::MessageType;

pub fn behaviours() -> Vec<Vec<i64>> {
    match std::env::var("SV2_BEHAVIOURS") {
        Ok(p) => std::fs::read_to_string(p)
            .expect("behaviours")
            .lines()
            .map(|l| serde_json::from_str(l).expect("behaviour"))
            .collect(),
        Err(_) => vec![],
    }
}

// ------------------------------------------------------------------ reader
#[derive(Clone)]
pub enum Rd {
    Raw(usize),
    Val(&'static str),
}

fn raw_k(buf: &[u8], k: usize) -> i64 {
    if k > buf.len() + 1000 {
        -1
    } else {
        k as i64
    }
}

/// Runs one history on the real reader, tracking natively where it may be.
fn history(cx: &mut Cx, class: &str, buf: &[u8], start: usize, ops: &[Rd]) {
    let subs: HashMap<&str, Sub> = cx.subs.iter().map(|s| (s.name, *s)).collect();
    let mut p = ByteParser::new(buf, start);
    let mut at: BTreeSet<usize> = std::iter::once(if start > buf.len() + 1000 { buf.len() + 1 } else { start }).collect();
    let mut evs = vec![];
    let mut bad = false;
    let mut key = buf.to_vec();
    key.extend_from_slice(&start.to_le_bytes());
    let len = buf.len();
    evs.push(Ev::new("open").bytes("buf", buf).i("start", raw_k(buf, start)).end());
    for o in ops {
        let mut next = BTreeSet::new();
        match o {
            Rd::Raw(k) => {
                key.extend_from_slice(&k.to_le_bytes());
                let r = run(|| p.next_by(*k).map(|x| V::B(x.to_vec())));
                for pos in &at {
                    let fits = *k <= len && pos + k <= len;
                    let ok = match &r {
                        R::Ok(v) if fits => v.b() == &buf[*pos..pos + k],
                        R::Ok(v) => *pos > len && *k == 0 && v.b().is_empty(),
                        R::Err(e) => !fits && e.kind == "Parse",
                        R::Panic => false,
                    };
                    if ok {
                        next.insert(if fits { pos + k } else { *pos });
                    }
                }
                let none = V::B(vec![]);
                evs.push(Ev::new("raw").i("k", raw_k(buf, *k)).s("r", r.tag()).s("kind", r.kind()).v("v", r.ok().unwrap_or(&none)).end());
            }
            Rd::Val(t) => {
                key.extend_from_slice(t.as_bytes());
                let r = (subs[t].read.unwrap())(&mut p);
                for pos in &at {
                    let d = cx.tab.dec(t, buf, *pos);
                    let only_parse = d.errs.only("Parse");
                    match &r {
                        R::Ok(v) if d.errs.none() => {
                            if Some(v) == d.v.as_ref() {
                                next.insert(d.pos);
                            }
                        }
                        R::Err(e) if !d.errs.none() && (!only_parse || e.kind == "Parse") => {
                            let fixed = matches!(cx.tab.ty(t), Ty::Int(_) | Ty::Raw(_) | Ty::Sig | Ty::Bool | Ty::Flags(_));
                            if *pos > len || (fixed && only_parse) {
                                next.insert(*pos);
                            } else {
                                next.extend(*pos..=len);
                            }
                        }
                        _ => {}
                    }
                }
                let none = V::B(vec![]);
                evs.push(Ev::new("val").s("t", t).s("r", r.tag()).s("kind", r.kind()).v("v", r.ok().unwrap_or(&none)).end());
            }
        }
        at = next;
        if at.is_empty() {
            bad = true;
            break;
        }
    }
    cx.sink.count(&key);
    if bad || cx.sink.wants(class) {
        cx.sink.put_group(class, &evs, bad);
    }
}

const HUGE: [usize; 8] = [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, (1 << 32) - 1, 1 << 31, 1 << 20];

pub fn c09(cx: &mut Cx) {
    // histories TLC generated (MCReader.tla)
    let bufs: Vec<Vec<u8>> = vec![
        vec![], vec![7], vec![0], vec![1, 65], vec![2, 65], vec![0, 1, 0], vec![3, 1, 255], vec![1, 195, 2, 65, 66], vec![5, 1, 0, 0, 1, 65],
        vec![0, 128, 22, 1, 0, 0, 9], vec![0, 0, 254, 0, 0, 0, 0, 0, 254, 0, 0, 0], vec![0, 0, 254, 2, 0, 0, 1],
    ];
    let vals = ["u8", "u16", "bool", "STR0_32", "Message"];
    let beh = behaviours();
    cx.sink.note("histories generated by TLC and replayed", beh.len() as u64);
    for (i, b) in beh.iter().enumerate() {
        let buf = &bufs[b[0] as usize - 1];
        let start = if b[1] == -1 { HUGE[i % 8] } else { b[1] as usize };
        let ops: Vec<Rd> = b[2..]
            .iter()
            .enumerate()
            .map(|(j, o)| match *o {
                9 => Rd::Raw(HUGE[(i + j) % 8]),
                o if o < 9 => Rd::Raw(o as usize),
                o => Rd::Val(vals[o as usize - 11]),
            })
            .collect();
        history(cx, &format!("tlc/{}/{}", b[0], b[1]), buf, start, &ops);
    }
    // longer random histories over streams of encoded items
    let names: Vec<&'static str> = cx.subs.iter().filter(|s| s.read.is_some()).map(|s| s.name).collect();
    for round in 0..6000 * cx.scale {
        let mut buf = vec![];
        let mut plan = vec![];
        let items = cx.rng.below(5);
        for _ in 0..items {
            let t = if cx.rng.chance(1, 3) { "Message" } else { *cx.rng.pick(&names) };
            let v = loop {
                let v = gen::value(cx.tab, t, true, &mut cx.rng);
                if cx.tab.encode(t, &v).len() < 700 {
                    break v;
                }
            };
            buf.extend(cx.tab.encode(t, &v));
            plan.push(Rd::Val(t));
        }
        let junk = cx.rng.below(6);
        buf.extend(gen::blob(junk, &mut cx.rng));
        if cx.rng.chance(1, 3) && !buf.is_empty() {
            let k = cx.rng.below(buf.len() + 1);
            buf.truncate(k);
        }
        let start = match cx.rng.below(6) {
            0 => cx.rng.below(buf.len() + 3),
            1 if round % 7 == 0 => *cx.rng.pick(&HUGE),
            _ => 0,
        };
        let mut ops = vec![];
        for o in plan {
            while cx.rng.chance(1, 4) {
                ops.push(other(cx, &names, buf.len()));
            }
            ops.push(o);
        }
        for _ in 0..cx.rng.below(5) {
            ops.push(other(cx, &names, buf.len()));
        }
        history(cx, "stream", &buf, start, &ops);
    }
    // a long stream of frames, read to the end, then refused
    for n in [200usize, 3000].iter() {
        let mut buf = vec![];
        for _ in 0..*n {
            let v = gen::value(cx.tab, "Message", true, &mut cx.rng);
            buf.extend(cx.tab.encode("Message", &v));
        }
        let ops = vec![Rd::Val("Message"); n + 2];
        history(cx, "long", &buf, 0, &ops);
    }
    // runs longer than 64 KiB and offsets beyond it
    let big = cx.rng.bytes(200_000);
    history(cx, "big", &big, 0, &[Rd::Raw(65535), Rd::Raw(65536), Rd::Raw(1), Rd::Raw(70_000), Rd::Raw(68_928), Rd::Raw(1), Rd::Raw(0)]);
    history(cx, "big", &big, 131_072, &[Rd::Raw(68_929), Rd::Raw(HUGE[0]), Rd::Raw(68_928), Rd::Raw(1)]);
}

fn other(cx: &mut Cx, names: &[&'static str], len: usize) -> Rd {
    match cx.rng.below(8) {
        0 => Rd::Raw(*cx.rng.pick(&HUGE)),
        1 => Rd::Raw(cx.rng.below(len + 4)),
        2 | 3 => Rd::Raw(cx.rng.below(5)),
        4 => Rd::Raw(0),
        _ => Rd::Val(*cx.rng.pick(names)),
    }
}

// ------------------------------------------------------------------ writer
/// A writer that follows a script: k>0 take at most k bytes, 0 take nothing, -1 fail, -2 interrupted;
/// the last entry repeats.
struct Scripted<'a> {
    script: &'a [i64],
    i: usize,
    got: Vec<u8>,
    log: Vec<(Vec<u8>, &'static str)>,
    fault: bool,
    kind: io::ErrorKind,
    calls: usize,
}
impl<'a> Write for Scripted<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 400_000 {
            panic!("the code keeps calling a writer that does not accept");
        }
        if b.is_empty() {
            return Ok(0);
        }
        let k = match (self.script.get(self.i), self.script.last()) {
            (Some(k), _) => *k,
            // interruptions end at some point: the code may go on trying
            (None, Some(-2)) | (None, None) => i64::MAX,
            (None, Some(k)) => *k,
        };
        self.i += 1;
        if k > 0 {
            let n = b.len().min(k as usize);
            self.got.extend_from_slice(&b[..n]);
            self.log.push((b[..n].to_vec(), "ok"));
            return Ok(n);
        }
        self.fault = true;
        match k {
            0 => {
                self.log.push((vec![], "zero"));
                Ok(0)
            }
            -2 => {
                self.log.push((vec![], "interrupted"));
                Err(io::Error::new(io::ErrorKind::Interrupted, "scripted"))
            }
            _ => {
                self.log.push((vec![], "err"));
                Err(io::Error::new(self.kind, "scripted"))
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero, io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
];

fn play(cx: &mut Cx, class: &str, s: &Sub, v: &V, script: &[i64]) {
    let enc = cx.tab.encode(s.name, v);
    let kind = *cx.rng.pick(&KINDS);
    let mut w = Scripted { script, i: 0, got: vec![], log: vec![], fault: false, kind, calls: 0 };
    let r = (s.write)(v, &mut cx.rng, &mut w);
    if r.kind() == "Build" {
        return;
    }
    let mut key = enc.clone();
    key.extend(s.name.as_bytes());
    for x in script.iter().take(600) {
        key.extend(&x.to_le_bytes());
    }
    cx.sink.count(&key);
    let prefix = w.got.len() <= enc.len() && w.got[..] == enc[..w.got.len()];
    let good = prefix
        && match &r {
            R::Ok(n) => w.got == enc && *n == enc.len(),
            R::Err(_) => w.fault,
            R::Panic => false,
        };
    if !good || cx.sink.wants(class) {
        let mut evs = vec![Ev::new("begin").s("t", s.name).v("v", v).end()];
        for (took, how) in &w.log {
            evs.push(Ev::new("w").bytes("took", took).s("how", how).end());
        }
        evs.push(Ev::new("end").s("r", r.tag()).i("n", r.ok().map(|n| *n as i64).unwrap_or(0)).end());
        cx.sink.put_group(class, &evs, !good);
    }
}

pub fn c10(cx: &mut Cx) {
    let subs = cx.subs.clone();
    let beh = behaviours();
    cx.sink.note("writer scripts generated by TLC and replayed", beh.len() as u64);
    for s in subs.iter() {
        for round in 0..3 * cx.scale.min(8) {
            let v = loop {
                let v = gen::value(cx.tab, s.name, true, &mut cx.rng);
                if cx.tab.encode(s.name, &v).len() < 900 && cx.tab.construct_errs(s.name, &v).none() {
                    break v;
                }
            };
            let n = cx.tab.encode(s.name, &v).len() as i64;
            let c = |k: &str| format!("{}/{}", s.name, k);
            // steady writers
            for k in [1, 2, 3, 5, 7, 8, 16, 31, 64, i64::MAX].iter() {
                play(cx, &c("steady"), s, &v, &[*k]);
            }
            // one fault at every offset, taking everything or single bytes before it
            for off in 0..=n {
                for f in [0i64, -1, -2].iter() {
                    // a full-speed writer that runs dry after off bytes
                    let mut sc: Vec<i64> = vec![1; off as usize];
                    sc.push(*f);
                    play(cx, &c("fault"), s, &v, &sc);
                    // a fault, then a writer that accepts everything again
                    sc.push(i64::MAX);
                    play(cx, &c("heal"), s, &v, &sc);
                }
            }
            // a fault at every call of a writer that takes all it is offered
            for call in 0..14usize {
                for f in [0i64, -1, -2].iter() {
                    let mut sc: Vec<i64> = vec![i64::MAX; call];
                    sc.push(*f);
                    play(cx, &c("call"), s, &v, &sc);
                    sc.push(i64::MAX);
                    play(cx, &c("callheal"), s, &v, &sc);
                }
            }
            // one short write at every call
            for call in 0..14usize {
                for k in [1i64, 2, 3].iter() {
                    let mut sc: Vec<i64> = vec![i64::MAX; call];
                    sc.push(*k);
                    sc.push(i64::MAX);
                    play(cx, &c("short"), s, &v, &sc);
                }
            }
            // scripts from the model
            for j in 0..400.min(beh.len()) {
                let b = &beh[(round * 7919 + j * 104_729 + s.name.len() * 31) % beh.len()];
                if b.is_empty() {
                    continue;
                }
                let mut sc = b.clone();
                if cx.rng.chance(1, 2) {
                    sc.push(i64::MAX);
                }
                play(cx, &c("model"), s, &v, &sc);
            }
            for _ in 0..60 {
                let m = 1 + cx.rng.below(20);
                let sc: Vec<i64> = (0..m)
                    .map(|_| if cx.rng.chance(1, 12) { -(cx.rng.below(3) as i64) } else { 1 + cx.rng.below(40) as i64 })
                    .collect();
                play(cx, &c("random"), s, &v, &sc);
            }
        }
    }
    // large payloads against a socket-like writer
    let big: [(&str, usize); 5] = [("B0_64K", 65535), ("B0_64K", 8193), ("B0_16M", 300_000), ("Message", 70_000), ("Message", 200_000)];
    for (t, len) in big.iter() {
        let s = *subs.iter().find(|s| s.name == *t).unwrap();
        let body = V::B(cx.rng.bytes(*len));
        let v = if *t == "Message" { V::Seq(vec![V::Name("UpdateChannel".into()), body]) } else { body };
        for sc in [vec![1460i64], vec![8192], vec![65536], vec![4096, 4096, 10, 0], vec![100_000, -1], vec![8192, -1], vec![60_000, 1, -2, 9, 4000]].iter() {
            play(cx, "large", &s, &v, sc);
        }
    }
}

// ------------------------------------------------------------------- queue
#[derive(Clone, Debug)]
enum Q {
    Push(u64, i64),
    Call(u64, usize, Vec<i64>),
    Ret(u64, usize, Vec<i64>),
}
fn stamp(q: &Q) -> u64 {
    match q {
        Q::Push(t, _) | Q::Call(t, _, _) | Q::Ret(t, _, _) => *t,
    }
}

/// In place of a size: messages of a small pool, equal ones queued again and again, some without payload.
const POOL: usize = usize::max_value();
fn pool(id: i64) -> Message {
    match id {
        0 => Message::new(MessageType::TestMessage2, vec![]),
        1 => Message::new(MessageType::SetupConnection, vec![]),
        2 => Message::new(MessageType::UpdateChannel, vec![0]),
        3 => Message::new(MessageType::NewMiningJob, vec![0; 40]),
        4 => Message::new(MessageType::UpdateChannel, vec![0; 40]),
        _ => Message::new(MessageType::UpdateChannel, vec![7; 3000]),
    }
}
fn pooled(n: u64) -> i64 {
    [0, 0, 0, 1, 1, 0, 2, 2, 3, 3, 3, 4, 4, 5, 5, 0, 1, 2, 3, 4, 5][n as usize % 21]
}

fn message(id: i64, size: usize, types: usize) -> Message {
    if size == POOL {
        return pool(id);
    }
    let kinds = [MessageType::SetupConnection, MessageType::UpdateChannel, MessageType::NewMiningJob, MessageType::TestMessage2];
    let mut p = id.to_le_bytes().to_vec();
    p.resize(8 + size, id as u8);
    Message::new(kinds[(id as usize) % types], p)
}
/// The number of a message as queued; altered messages get numbers of their own.
fn number(m: &Message, size: usize, types: usize, odd: &AtomicU64) -> i64 {
    if size == POOL {
        if let Some(id) = (0..6).find(|i| *m == pool(*i)) {
            return id;
        }
    } else if m.payload.len() >= 8 {
        let mut b = [0u8; 8];
        b.copy_from_slice(&m.payload[..8]);
        let id = i64::from_le_bytes(b);
        if id >= 0 && *m == message(id, size, types) {
            return id;
        }
    }
    -(1 + odd.fetch_add(1, Ordering::SeqCst) as i64)
}

struct Plan {
    pushers: usize,
    drainers: usize,
    msgs: usize,
    drains: usize,
    size: usize,
    preload: usize,
    same: bool,
    yields: bool,
}

fn stress(cx: &mut Cx, class: &str, pl: &Plan) {
    let peer = Arc::new(Peer::new(ConnectionEncryptor::new_outbound()));
    let clock = Arc::new(AtomicU64::new(0));
    let odd = Arc::new(AtomicU64::new(0));
    let gate = Arc::new(Barrier::new(pl.pushers + pl.drainers));
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let mut log: Vec<Q> = vec![];
    let same = pl.same;
    let size = if same { POOL } else { pl.size };
    let fresh = move |n: u64| if same { pooled(n) } else { n as i64 };
    for _ in 0..pl.preload {
        let id = fresh(next.fetch_add(1, Ordering::SeqCst));
        peer.pending_msg_buffer.lock().unwrap().push(message(id, size, 4));
        log.push(Q::Push(clock.fetch_add(1, Ordering::SeqCst), id));
    }
    let mut hs = vec![];
    for t in 0..pl.pushers {
        let (peer, clock, gate, next) = (peer.clone(), clock.clone(), gate.clone(), next.clone());
        let (msgs, yields) = (pl.msgs, pl.yields);
        hs.push(std::thread::spawn(move || {
            let mut l = vec![];
            gate.wait();
            for i in 0..msgs {
                let m = next.fetch_add(1, Ordering::SeqCst);
                let id = fresh(m);
                let msg = message(id, size, 4);
                {
                    let mut g = match peer.pending_msg_buffer.lock() {
                        Ok(g) => g,
                        Err(e) => e.into_inner(),
                    };
                    g.push(msg);
                    l.push(Q::Push(clock.fetch_add(1, Ordering::SeqCst), id));
                }
                if yields && (i + t) % 3 == 0 {
                    std::thread::yield_now();
                }
            }
            (l, false)
        }));
    }
    let drain = move |peer: &Peer<ConnectionEncryptor>, clock: &AtomicU64, odd: &AtomicU64, k: usize, l: &mut Vec<Q>| -> bool {
        let a = clock.fetch_add(1, Ordering::SeqCst);
        let r = run(|| Ok(peer.get_pending_msgs()));
        let z = clock.fetch_add(1, Ordering::SeqCst);
        match r {
            R::Ok(ms) => {
                let ids: Vec<i64> = ms.iter().map(|m| number(m, size, 4, odd)).collect();
                l.push(Q::Call(a, k, ids.clone()));
                l.push(Q::Ret(z, k, ids));
                true
            }
            _ => {
                l.push(Q::Call(a, k, vec![-1]));
                l.push(Q::Ret(z, k, vec![-1]));
                false
            }
        }
    };
    for t in 0..pl.drainers {
        let (peer, clock, gate, odd, stop) = (peer.clone(), clock.clone(), gate.clone(), odd.clone(), stop.clone());
        let (drains, yields) = (pl.drains, pl.yields);
        hs.push(std::thread::spawn(move || {
            let mut l = vec![];
            let mut died = false;
            gate.wait();
            for i in 0..drains {
                if !drain(&peer, &clock, &odd, t, &mut l) {
                    died = true;
                    break;
                }
                if yields && i % 2 == 0 {
                    std::thread::yield_now();
                }
                if stop.load(Ordering::Relaxed) {
                    break;
                }
            }
            (l, died)
        }));
    }
    let mut died = false;
    for h in hs {
        let (l, d) = h.join().expect("harness thread");
        log.extend(l);
        died |= d;
    }
    // a last drain, alone, empties the queue
    let mut l = vec![];
    drain(&peer, &clock, &odd, 99, &mut l);
    drain(&peer, &clock, &odd, 99, &mut l);
    log.extend(l);
    log.sort_by_key(stamp);
    let bad = died || !linear(&log);
    let mut key = vec![];
    for q in &log {
        key.extend(format!("{:?}", q).bytes().take(60));
    }
    cx.sink.count(&key);
    cx.sink.note("queue operations under concurrency", log.len() as u64);
    if bad || cx.sink.wants(class) {
        let mut evs = vec![Ev::new("fresh").end()];
        for q in &log {
            evs.push(match q {
                Q::Push(_, m) => Ev::new("push").i("m", *m).end(),
                Q::Call(_, k, r) => Ev::new("call").i("k", *k as i64).ints("res", r).end(),
                Q::Ret(_, k, r) => Ev::new("ret").i("k", *k as i64).ints("res", r).end(),
            });
        }
        cx.sink.put_group(class, &evs, bad);
    }
}

/// Native rendering of QueueTrace.tla: set of (queue contents as a window of the push sequence, open drains).
fn linear(log: &[Q]) -> bool {
    // configuration: first undrained push, open drains' state (k -> taken?)
    type Conf = (usize, Vec<(usize, bool)>);
    let mut pushed: Vec<i64> = vec![];
    let mut confs: BTreeSet<Conf> = std::iter::once((0, vec![])).collect();
    let mut will: HashMap<usize, Vec<i64>> = HashMap::new();
    for q in log {
        let mut next: BTreeSet<Conf> = BTreeSet::new();
        match q {
            Q::Push(_, m) => {
                pushed.push(*m);
                next = confs.clone();
            }
            Q::Call(_, k, r) => {
                will.insert(*k, r.clone());
                for (f, d) in &confs {
                    let mut d = d.clone();
                    d.push((*k, false));
                    next.insert((*f, d));
                }
            }
            Q::Ret(_, k, _) => {
                for (f, d) in &confs {
                    if d.iter().any(|x| *x == (*k, true)) {
                        next.insert((*f, d.iter().filter(|x| x.0 != *k).cloned().collect()));
                    }
                }
            }
        }
        // let open drains take effect
        let mut todo: Vec<Conf> = next.iter().cloned().collect();
        while let Some((f, d)) = todo.pop() {
            for i in 0..d.len() {
                if !d[i].1 && pushed[f..] == will[&d[i].0][..] {
                    let mut e = d.clone();
                    e[i].1 = true;
                    let c = (pushed.len(), e);
                    if next.insert(c.clone()) {
                        todo.push(c);
                    }
                }
            }
        }
        confs = next;
        if confs.is_empty() {
            return false;
        }
    }
    true
}

pub fn c20(cx: &mut Cx) {
    // sequential scripts from the model, over two queues
    let beh = behaviours();
    cx.sink.note("scripts generated by TLC and replayed", beh.len() as u64);
    for (j, b) in beh.iter().enumerate() {
        let peers = [Peer::new(ConnectionEncryptor::new_outbound()), Peer::new(ConnectionEncryptor::new_inbound(None))];
        let size = if j % 2 == 0 { [0usize, 3, 40][j % 3] } else { POOL };
        let odd = AtomicU64::new(0);
        let mut logs: [Vec<Q>; 2] = [vec![], vec![]];
        let mut t = 0u64;
        for (i, o) in b.iter().chain([3i64, 4, 3, 4].iter()).enumerate() {
            t += 2;
            let w = ((o - 1) % 2) as usize;
            if *o <= 2 {
                let id = if j % 2 == 0 { i as i64 } else { pooled((i + j / 2) as u64) };
                peers[w].pending_msg_buffer.lock().unwrap().push(message(id, size, 4));
                logs[w].push(Q::Push(t, id));
            } else {
                let r = run(|| Ok(peers[w].get_pending_msgs()));
                let ids: Vec<i64> = r.ok().map(|ms| ms.iter().map(|m| number(m, size, 4, &odd)).collect()).unwrap_or(vec![-1]);
                logs[w].push(Q::Call(t, 0, ids.clone()));
                logs[w].push(Q::Ret(t + 1, 0, ids));
            }
        }
        for (w, log) in logs.iter().enumerate() {
            let mut key = vec![w as u8, size as u8];
            b.iter().for_each(|x| key.push(*x as u8));
            cx.sink.count(&key);
            let bad = !linear(log);
            if bad || cx.sink.wants("script") {
                let mut evs = vec![Ev::new("fresh").end()];
                for q in log {
                    evs.push(match q {
                        Q::Push(_, m) => Ev::new("push").i("m", *m).end(),
                        Q::Call(_, k, r) => Ev::new("call").i("k", *k as i64).ints("res", r).end(),
                        Q::Ret(_, k, r) => Ev::new("ret").i("k", *k as i64).ints("res", r).end(),
                    });
                }
                cx.sink.put_group("script", &evs, bad);
            }
        }
    }
    // queue sizes
    for n in [0usize, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 65_535, 65_536, 65_537, 100_000, 300_000].iter() {
        for size in [0usize, 20].iter() {
            let p = Peer::new(ConnectionEncryptor::new_outbound());
            for i in 0..*n {
                p.pending_msg_buffer.lock().unwrap().push(message(i as i64, *size, 4));
            }
            let r = run(|| Ok(p.get_pending_msgs()));
            let out = r.ok().map(|x| x.len() as i64).unwrap_or(-1);
            let same = r.ok().map(|x| x.len() == *n && x.iter().enumerate().all(|(i, m)| *m == message(i as i64, *size, 4))).unwrap_or(false);
            let left = run(|| Ok(p.get_pending_msgs().len() as i64)).ok().cloned().unwrap_or(-1);
            cx.sink.count(format!("bulk{}/{}", n, size).as_bytes());
            cx.sink.put_group("bulk", &[Ev::new("fresh").end(), Ev::new("bulk").i("n", *n as i64).i("out", out).t("same", same).i("left", left).end()],
                !(same && left == 0));
        }
    }
    // many equal messages
    for n in [2usize, 3, 100, 5000].iter() {
        for id in 0..6i64 {
            let p = Peer::new(ConnectionEncryptor::new_outbound());
            for _ in 0..*n {
                p.pending_msg_buffer.lock().unwrap().push(pool(id));
            }
            let r = run(|| Ok(p.get_pending_msgs()));
            let out = r.ok().map(|x| x.len() as i64).unwrap_or(-1);
            let same = r.ok().map(|x| x.len() == *n && x.iter().all(|m| *m == pool(id))).unwrap_or(false);
            let left = run(|| Ok(p.get_pending_msgs().len() as i64)).ok().cloned().unwrap_or(-1);
            cx.sink.count(format!("equal{}/{}", n, id).as_bytes());
            cx.sink.put_group("equal", &[Ev::new("fresh").end(), Ev::new("bulk").i("n", *n as i64).i("out", out).t("same", same).i("left", left).end()],
                !(same && left == 0));
        }
    }
    // payload sizes, repeated fill and drain on one queue
    {
        let p = Peer::new(ConnectionEncryptor::new_outbound());
        for round in 0..3000usize {
            let n = round % 40;
            let size = [0usize, 1, 100, 70_000][round % 4];
            for i in 0..n {
                p.pending_msg_buffer.lock().unwrap().push(message(i as i64, size, 4));
            }
            let r = run(|| Ok(p.get_pending_msgs()));
            let same = r.ok().map(|x| x.len() == n && x.iter().enumerate().all(|(i, m)| *m == message(i as i64, size, 4))).unwrap_or(false);
            let left = p.pending_msg_buffer.lock().map(|g| g.len() as i64).unwrap_or(-1);
            cx.sink.count(format!("round{}", round).as_bytes());
            if !same || left != 0 || cx.sink.wants("round") {
                let out = r.ok().map(|x| x.len() as i64).unwrap_or(-1);
                cx.sink.put_group("round", &[Ev::new("fresh").end(), Ev::new("bulk").i("n", n as i64).i("out", out).t("same", same).i("left", left).end()],
                    !(same && left == 0));
            }
        }
    }
    // many short concurrent histories (judged in full), then longer ones
    let s = cx.scale;
    for i in 0..1500 * s {
        let pl = Plan { pushers: 1 + i % 3, drainers: 1 + (i / 3) % 2, msgs: 1 + i % 5, drains: 1 + i % 3, size: [0, 30][i % 2], preload: i % 4, same: i % 5 == 0, yields: i % 2 == 0 };
        stress(cx, "short", &pl);
    }
    for i in 0..60 * s {
        let pl = Plan { pushers: 1 + i % 5, drainers: 1 + i % 3, msgs: 800, drains: 300, size: [0, 200, 2000][i % 3], preload: [0, 500, 3000][i % 3], same: i % 4 == 3, yields: i % 2 == 0 };
        stress(cx, "long", &pl);
    }
}
