//! Evaluates the protocol of spec/NoiseTerms.tla (exported by TLC) on bytes: another implementation
//! of Noise_NX_25519_ChaChaPoly_BLAKE2s, whose every step comes from the specification.
use blake2_rfc::blake2s::blake2s;
use hacl_star::{chacha20poly1305, curve25519};
use std::collections::HashMap;

pub fn hash(d: &[u8]) -> Vec<u8> {
    blake2s(32, &[], d).as_bytes().to_vec()
}
pub fn hmac(key: &[u8], d: &[u8]) -> Vec<u8> {
    let mut k = key.to_vec();
    assert!(k.len() <= 64);
    k.resize(64, 0);
    let inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).chain(d.iter().cloned()).collect();
    let outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).chain(hash(&inner)).collect();
    hash(&outer)
}
fn a32(x: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o.copy_from_slice(x);
    o
}
pub fn dh(sk: &[u8], pk: &[u8]) -> Vec<u8> {
    let mut o = [0u8; 32];
    curve25519::scalarmult(&mut o, &a32(sk), &a32(pk));
    o.to_vec()
}
pub fn public(sk: &[u8]) -> Vec<u8> {
    let mut base = [0u8; 32];
    base[0] = 9;
    dh(sk, &base)
}
fn nonce(n: u64) -> [u8; 12] {
    let mut o = [0u8; 12];
    o[4..].copy_from_slice(&n.to_le_bytes());
    o
}
pub fn seal(k: &[u8], n: u64, ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut b = pt.to_vec();
    let mut mac = [0u8; 16];
    chacha20poly1305::key(&a32(k)).nonce(&nonce(n)).encrypt(ad, &mut b, &mut mac);
    b.extend_from_slice(&mac);
    b
}
pub fn open(k: &[u8], n: u64, ad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 16 {
        return None;
    }
    let (c, m) = ct.split_at(ct.len() - 16);
    let mut b = c.to_vec();
    let mut mac = [0u8; 16];
    mac.copy_from_slice(m);
    if chacha20poly1305::key(&a32(k)).nonce(&nonce(n)).decrypt(ad, &mut b, &mac) {
        Some(b)
    } else {
        None
    }
}
pub fn rekey(k: &[u8]) -> Vec<u8> {
    seal(k, u64::max_value(), &[], &[0u8; 32])[..32].to_vec()
}

pub type Env = HashMap<String, Vec<u8>>;

#[derive(Clone)]
pub struct Program {
    steps: Vec<(String, String, Vec<String>)>,
    protocol: Vec<u8>,
}

impl Program {
    pub fn load(tables: &str, role: &str) -> Program {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(tables).unwrap()).unwrap();
        let n = &j["noise"];
        let text = |v: &serde_json::Value| v.as_str().unwrap().to_string();
        Program {
            steps: n[role]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| (text(&s[0]), text(&s[1]), s[2].as_array().unwrap().iter().map(|a| text(a)).collect()))
                .collect(),
            protocol: n["protocol"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect(),
        }
    }
    /// Computes whatever follows from what is known; a known AEAD output gives its plaintext.
    /// False if a known ciphertext does not open.
    pub fn fill(&self, env: &mut Env) -> bool {
        env.insert("protocol".into(), self.protocol.clone());
        env.insert("empty".into(), vec![]);
        env.insert("byte1".into(), vec![1]);
        env.insert("byte2".into(), vec![2]);
        loop {
            let mut grew = false;
            for (out, op, args) in &self.steps {
                let known: Vec<Option<&Vec<u8>>> = args.iter().map(|a| env.get(a)).collect();
                if op == "aead" && env.contains_key(out) && known[0].is_some() && known[1].is_some() {
                    if known[2].is_none() {
                        match open(known[0].unwrap(), 0, known[1].unwrap(), &env[out]) {
                            Some(p) => {
                                env.insert(args[2].clone(), p);
                                grew = true;
                            }
                            None => return false,
                        }
                    }
                    continue;
                }
                if env.contains_key(out) || known.iter().any(|k| k.is_none()) {
                    continue;
                }
                let a: Vec<&[u8]> = known.iter().map(|k| &k.unwrap()[..]).collect();
                let v = match op.as_str() {
                    "hash" => hash(&a.concat()),
                    "cat" => a.concat(),
                    "hmac" => hmac(a[0], a[1]),
                    "hmac2" => hmac(a[0], &a[1..].concat()),
                    "dh" => dh(a[0], a[1]),
                    "aead" => seal(a[0], 0, a[1], a[2]),
                    o => panic!("harness: unknown step {}", o),
                };
                env.insert(out.clone(), v);
                grew = true;
            }
            if !grew {
                return true;
            }
        }
    }
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// The building blocks against the published vectors (RFC 7693, 7748, 8439).
pub fn self_test() {
    assert_eq!(hash(b"abc"), hex("508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982"));
    assert_eq!(
        dh(
            &hex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"),
            &hex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")
        ),
        hex("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")
    );
    // RFC 8439, A.5, whose nonce has four leading zero bytes: 00000000 0102030405060708
    let k = hex("1c9240a5eb55d38af333888604f6b5f0473917c1402b80099dca5cbc207075c0");
    let ad = hex("f33388860000000000004e91");
    let ct = hex("64a0861575861af460f062c79be643bd5e805cfd345cf389f108670ac76c8cb24c6cfc18755d43eea09ee94e382d26b0bdb7b73c321b0100d4f03b7f355894cf332f830e710b97ce98c8a84abd0b948114ad176e008d33bd60f982b1ff37c8559797a06ef4f0ef61c186324e2b3506383606907b6a7c02b0f9f6157b53c867e4b9166c767b804d46a59b5216cde7a4e99040c5a40433225ee282a1b0a06c523eaf4534d7f83fa1155b0047718cbc546a0d072b04b3564eea1b422273f548271a0bb2316053fa76991955ebd63159434ecebb4e466dae5a1073a6727627097a1049e617d91d361094fa68f0ff77987130305beaba2eda04df997b714d6c6f2c29a6ad5cb4022b02709beead9d67890cbb22392336fea1851f38");
    let pt = open(&k, u64::from_le_bytes([1, 2, 3, 4, 5, 6, 7, 8]), &ad, &ct).expect("RFC 8439 A.5");
    assert!(pt.starts_with(b"Internet-Drafts are draft documents"));
}
