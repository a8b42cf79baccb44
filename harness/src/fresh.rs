//! Values the library generates, in many threads and processes (C26, and the ephemeral keys of C17),
//! recorded for spec/FreshTrace.tla.
use crate::cert::set_clock;
use crate::codec::Cx;
use crate::noise::{scripts, thin};
use crate::val::{hash64, Ev};
use ed25519_dalek::{Signer, Verifier};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Keypair, PrivateKey};
use std::collections::HashMap;
use std::process::Command;
use std::sync::{mpsc, Arc, Mutex};
use stratumv2::network::{new_channel_id, ConnectionEncryptor, Encryptor};
use stratumv2::noise::{generate_authority_keypair, new_noise_initiator, new_noise_responder};

pub const KINDS: [&str; 7] = ["noise", "authority", "responder", "inbound", "opening", "answer", "channels"];
pub type Made = (usize, bool, Vec<u8>);

/// The first message of a new initiator, its answer by r; the key r turned out to have.
fn meet(r: &mut NoiseSession) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut i = new_noise_initiator();
    let mut a = vec![0u8; 64];
    i.send_message(&mut a).ok()?;
    r.recv_message(&mut a).ok()?;
    let mut b = vec![0u8; 128];
    r.send_message(&mut b).ok()?;
    let eph = b[..32].to_vec();
    i.recv_message(&mut b).ok()?;
    Some((i.get_remote_static_public_key()?.as_bytes().to_vec(), eph))
}

/// Generates one value of the kind; thorough: its halves are also tried against each other.
pub fn make(kind: usize, thorough: bool) -> Made {
    let r = std::panic::catch_unwind(|| match KINDS[kind] {
        "noise" => {
            let kp = Keypair::default();
            let pk = kp.get_public_key().as_bytes().to_vec();
            let ok = !kp.is_empty() && (!thorough || meet(&mut new_noise_responder(Some(kp))).map_or(false, |(k, _)| k == pk));
            (ok, pk)
        }
        "authority" => {
            let kp = generate_authority_keypair();
            let pk = kp.public.to_bytes().to_vec();
            let ok = !thorough || kp.public.verify(&pk, &kp.sign(&pk)).is_ok() && ed25519_dalek::PublicKey::from(&kp.secret) == kp.public;
            (ok, pk)
        }
        "responder" => match meet(&mut new_noise_responder(None)) {
            Some((k, _)) => (true, k),
            None => (false, vec![]),
        },
        "inbound" => {
            let mut r = ConnectionEncryptor::new_inbound(None);
            let mut i = ConnectionEncryptor::new_outbound();
            let k = (|| {
                let mut a = i.init_handshake().ok()?;
                let mut b = r.recv_handshake(&mut a).ok()?;
                i.recv_handshake(&mut b).ok()?;
                i.get_remote_pubkey().map(|k| k.as_bytes().to_vec())
            })();
            (k.is_some(), k.unwrap_or_default())
        }
        "opening" => {
            let mut a = vec![0u8; 64];
            let ok = new_noise_initiator().send_message(&mut a).is_ok();
            (ok, a[..32].to_vec())
        }
        "answer" => match meet(&mut new_noise_responder(None)) {
            Some((_, e)) => (true, e),
            None => (false, vec![]),
        },
        _ => (true, (0..8).flat_map(|_| new_channel_id().to_be_bytes().to_vec()).collect()),
    });
    match r {
        Ok((ok, v)) => (kind, ok, v),
        Err(_) => (kind, false, vec![]),
    }
}

/// Steps (thread, kind) in order; kind 0 ends the thread, kind k makes one value of kind k - 1.
fn steps(list: &[(i64, i64)]) -> Vec<Made> {
    let mut threads: HashMap<i64, (mpsc::Sender<usize>, mpsc::Receiver<Made>, std::thread::JoinHandle<()>)> = HashMap::new();
    let mut out = vec![];
    for (t, k) in list {
        if *k == 0 {
            if let Some((s, _, h)) = threads.remove(t) {
                drop(s);
                h.join().expect("harness: thread");
            }
            continue;
        }
        let e = threads.entry(*t).or_insert_with(|| {
            let (s, r) = mpsc::channel::<usize>();
            let (s2, r2) = mpsc::channel();
            let h = std::thread::spawn(move || {
                for k in r {
                    s2.send(make(k, true)).expect("harness: channel");
                }
            });
            (s, r2, h)
        });
        e.0.send(*k as usize - 1).expect("harness: channel");
        out.push(e.1.recv().expect("harness: channel"));
    }
    out
}

fn render(made: &[Made]) -> String {
    made.iter().map(|(k, ok, v)| format!("{} {} {}\n", k, *ok as u8, hex(v))).collect()
}

/// Forks; the child goes on with `then`, prints what that made and ends.
fn fork(then: impl FnOnce() -> Vec<Made>) -> i32 {
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "harness: fork");
    if pid == 0 {
        let o = render(&then());
        let (mut done, b) = (0, o.as_bytes());
        while done < b.len() {
            let n = unsafe { libc::write(1, b[done..].as_ptr() as *const _, b.len() - done) };
            if n <= 0 {
                unsafe { libc::_exit(1) }
            }
            done += n as usize;
        }
        unsafe { libc::_exit(0) }
    }
    pid
}

fn reap(pid: i32) {
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    assert!(st == 0, "harness: forked process failed");
}

/// A history with forks, from the point of view of process `me`: its own steps from `at` on.
fn forked(me: i64, at: usize, h: &[[i64; 3]]) -> Vec<Made> {
    let (mut made, mut pids) = (vec![], vec![]);
    for i in at..h.len() {
        match h[i] {
            [p, q, -1] if p == me => pids.push(fork(|| forked(q, i + 1, h))),
            [p, _, k] if p == me && k > 0 => made.push(make(k as usize - 1, true)),
            _ => {}
        }
    }
    for p in pids {
        reap(p);
    }
    made
}

/// The ephemeral key of a session that was given its static key.
fn known(kind: usize) -> Vec<Made> {
    let fixed = || Keypair::from_private_key(PrivateKey::from_bytes([77; 32])).expect("harness: key pair");
    let r = std::panic::catch_unwind(|| {
        let mut a = vec![0u8; 64];
        if KINDS[kind] == "opening" {
            NoiseSession::init_session(true, b"", fixed()).send_message(&mut a).ok()?;
            return Some(a[..32].to_vec());
        }
        // a message anyone may have sent
        a[..32].copy_from_slice(&fixed().get_public_key().as_bytes());
        let mut r = NoiseSession::init_session(false, b"", fixed());
        r.recv_message(&mut a).ok()?;
        let mut b = vec![0u8; 128];
        r.send_message(&mut b).ok()?;
        Some(b[..32].to_vec())
    });
    let r = r.unwrap_or(None);
    vec![(kind, r.is_some(), r.unwrap_or_default())]
}

/// Forks after every one of n values of a kind; the children make a few.
fn forks(k: usize, n: usize) -> Vec<Made> {
    let mut made = vec![];
    for i in 0..n {
        made.push(make(k, false));
        // whatever amounts are drawn at a time, let the fork come in the middle of one
        if i % 3 == 1 {
            made.push(make(0, false));
        }
        if i % 5 == 2 {
            new_channel_id();
        }
        if KINDS[k] == "opening" || KINDS[k] == "answer" {
            let pids: Vec<i32> = (0..2).map(|_| fork(|| known(k))).collect();
            made.extend(known(k));
            for p in pids {
                reap(p);
            }
        }
        let pids: Vec<i32> = (0..2).map(|_| fork(|| (0..3).map(|_| make(k, false)).collect())).collect();
        for p in pids {
            reap(p);
        }
    }
    made
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// sv2drive --gen t:k,t:k,... or --gen many:N: prints what was made.
pub fn child(arg: &str) {
    let made = if let Some(n) = arg.strip_prefix("many:") {
        let n: usize = n.parse().unwrap();
        let mut v = many(&[0, 1, 2, 3, 4, 5, 6], n, 4, None);
        // and the first value of every kind in threads of their own
        for k in 0..KINDS.len() {
            v.extend(steps(&[(k as i64, k as i64 + 1)]));
        }
        v
    } else if let Some(h) = arg.strip_prefix("forks:") {
        (0..KINDS.len()).flat_map(|k| forks(k, h.parse().unwrap())).collect()
    } else if let Some(h) = arg.strip_prefix("forked:") {
        let n: Vec<i64> = h.split(',').map(|x| x.parse().unwrap()).collect();
        forked(n[0], 0, &n[1..].chunks(3).map(|c| [c[0], c[1], c[2]]).collect::<Vec<_>>())
    } else {
        steps(&arg.split(',').filter(|s| !s.is_empty()).map(|s| {
            let mut p = s.split(':').map(|x| x.parse::<i64>().unwrap());
            (p.next().unwrap(), p.next().unwrap())
        }).collect::<Vec<_>>())
    };
    print!("{}", render(&made));
}
fn ask(arg: &str) -> Vec<Made> {
    let exe = std::env::current_exe().expect("harness: own path");
    let o = Command::new(exe).arg("--gen").arg(arg).output().expect("harness: child");
    assert!(o.status.success(), "harness: child failed: {}", String::from_utf8_lossy(&o.stderr));
    String::from_utf8(o.stdout)
        .unwrap()
        .lines()
        .map(|l| {
            let p: Vec<&str> = l.split(' ').collect();
            let v = (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect();
            (p[0].parse().unwrap(), p[1] == "1", v)
        })
        .collect()
}

/// n values of each kind, spread over threads that live as long as the run; with the clock standing still if given.
pub fn many(kinds: &[usize], n: usize, threads: usize, clock: Option<(i64, i64)>) -> Vec<Made> {
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let kinds = kinds.to_vec();
            std::thread::spawn(move || {
                set_clock(clock);
                let mut v = Vec::with_capacity(n / threads * kinds.len());
                for i in 0..n / threads {
                    for k in &kinds {
                        v.push(make(*k, i % 16 == 0));
                    }
                }
                v
            })
        })
        .collect();
    hs.into_iter().flat_map(|h| h.join().expect("harness: thread")).collect()
}

/// One value in each of n new threads, eight at a time.
fn short_threads(kinds: &[usize], n: usize, clock: Option<(i64, i64)>) -> Vec<Made> {
    let mut v = vec![];
    for _ in 0..n / 8 {
        for k in kinds.iter().cloned() {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    std::thread::spawn(move || {
                        set_clock(clock);
                        make(k, false)
                    })
                })
                .collect();
            v.extend(hs.into_iter().map(|h| h.join().expect("harness: thread")));
        }
    }
    v
}

/// Everything of the given kinds, in all the ways above.
pub fn gather(cx: &mut Cx, kinds: &[usize]) -> Vec<(Made, String)> {
    let scale = cx.scale;
    let mut all: Vec<(Made, String)> = vec![];
    let mut add = |v: Vec<Made>, wh: &str| all.extend(v.into_iter().map(|m| (m, wh.to_string())));
    // histories of TLC's, each process of a history a process of its own
    let hist = thin(&scripts("fresh"), 400 * scale, cx.rng.below(97));
    let plain = hist.len();
    let hist: Vec<_> = hist.into_iter().chain(thin(&scripts("forks"), 700 * scale, cx.rng.below(89))).enumerate().collect();
    let hist = Arc::new(Mutex::new(hist));
    let out = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let (hist, out) = (hist.clone(), out.clone());
            std::thread::spawn(move || loop {
                let (n, h) = match hist.lock().unwrap().pop() {
                    Some(h) => h,
                    None => return,
                };
                let mut procs: Vec<i64> = h.iter().map(|s| s[0]).collect();
                procs.sort();
                procs.dedup();
                if n >= plain {
                    procs.retain(|p| !h.iter().any(|s| s[2] == -1 && s[1] == *p));
                    let all: Vec<String> = h.iter().flat_map(|s| s.iter().map(|x| x.to_string())).collect();
                    for p in procs {
                        let v = ask(&format!("forked:{},{}", p, all.join(",")));
                        out.lock().unwrap().push((n, p, v));
                    }
                    continue;
                }
                for p in procs {
                    let arg: Vec<String> = h.iter().filter(|s| s[0] == p).map(|s| format!("{}:{}", s[1], s[2])).collect();
                    let v = ask(&arg.join(","));
                    out.lock().unwrap().push((n, p, v));
                }
            })
        })
        .collect();
    for h in hs {
        h.join().expect("harness: thread");
    }
    for (n, p, v) in out.lock().unwrap().drain(..) {
        add(v.into_iter().filter(|m| kinds.contains(&m.0)).collect(), &format!("history {} process {}", n, p));
    }
    // forks after every value
    let hs: Vec<_> = (0..2).map(|_| std::thread::spawn(move || ask("forks:70"))).collect();
    for h in hs {
        add(h.join().expect("harness: thread").into_iter().filter(|m| kinds.contains(&m.0)).collect(), "forked processes");
    }
    // processes at the same time
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(move || ask(&format!("many:{}", 200 * scale)))).collect();
    for (i, h) in hs.into_iter().enumerate() {
        add(h.join().expect("harness: thread").into_iter().filter(|m| kinds.contains(&m.0)).collect(), &format!("process {}", i));
    }
    let still = Some((1_700_000_000, 123_456_789));
    add(short_threads(kinds, 4000, None), "short-lived threads");
    add(short_threads(kinds, 80 * scale, still), "short-lived threads, clock standing still");
    add(many(kinds, 400 * scale, 8, still), "8 threads, clock standing still");
    for k in kinds {
        // a generator with 32 bits of seed repeats within these
        let n = match KINDS[*k] {
            "noise" | "authority" | "channels" | "opening" => 200_000,
            _ => 20_000,
        };
        add(many(&[*k], n * if scale > 1 { 2 } else { 1 }, 8, None), "8 threads");
    }
    all
}

/// Which values to show: all that break the rule natively with the earlier one, and a sample.
pub fn select(all: &[(Made, String)], most: usize) -> (Vec<usize>, usize) {
    let mut first: HashMap<&[u8], usize> = HashMap::new();
    let mut show = vec![false; all.len()];
    let mut wrong = 0;
    for (i, ((_, ok, v), _)) in all.iter().enumerate() {
        let again = match first.get(v.as_slice()) {
            Some(j) => {
                if wrong < 200 {
                    show[*j] = true;
                }
                true
            }
            None => {
                first.insert(v, i);
                false
            }
        };
        if again || !ok {
            if wrong < 200 {
                show[i] = true;
            }
            wrong += 1;
        }
    }
    let step = (all.len() / most).max(1);
    for i in (0..all.len()).step_by(step) {
        show[i] = true;
    }
    ((0..all.len()).filter(|i| show[*i]).collect(), wrong)
}

pub fn c26(cx: &mut Cx) {
    let all = gather(cx, &[0, 1, 2, 3, 4, 5, 6]);
    let (show, wrong) = select(&all, 12_000);
    for ((k, _, v), wh) in &all {
        cx.sink.count(v);
        cx.sink.note(&format!("values: {}", KINDS[*k]), 1);
        if wh.starts_with("history") {
            cx.sink.note("values made in histories of TLC's", 1);
        }
    }
    cx.sink.interesting += wrong as u64;
    for i in show {
        let ((k, ok, v), wh) = &all[i];
        // equal values go to the same judge
        cx.sink.put_at(hash64(v) as usize, Ev::new("made").s("kind", KINDS[*k]).t("valid", *ok).s("v", &hex(v)).s("where", wh).end());
    }
}

/// Ephemeral keys of sessions in many threads and processes (C17).
pub fn ephemerals(cx: &mut Cx) {
    let all = gather(cx, &[4, 5]);
    let (show, wrong) = select(&all, 6_000);
    cx.sink.interesting += wrong as u64;
    let mut ids: HashMap<&[u8], i64> = HashMap::new();
    let mut groups: Vec<Vec<String>> = (0..8).map(|_| vec!["{\"op\":\"world\"}".to_string()]).collect();
    for ((_, _, v), _) in &all {
        cx.sink.count(v);
    }
    cx.sink.note("ephemeral keys of sessions in many threads and processes", all.len() as u64);
    for i in show {
        let ((k, ok, v), wh) = &all[i];
        let n = ids.len() as i64 + 1;
        let id = *ids.entry(v).or_insert(n);
        groups[hash64(v) as usize % 8].push(Ev::new("eph").i("e", id).t("ok", *ok).s("kind", KINDS[*k]).s("where", wh).end());
    }
    for g in groups {
        cx.sink.behaviours += 1;
        cx.sink.group(&g);
    }
}
