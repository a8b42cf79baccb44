//! The type table, exported from spec/Wire.tla by TLC, and a native rendering of the
//! specification's encoder and decoder.  The native rendering only selects which executions are
//! worth showing to TLC (every disagreement, and a sample of agreements): TLC gives the verdict.
use crate::val::V;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Ty {
    Int(usize),
    Raw(usize),
    Sig,
    Bool,
    Str(usize),
    Bytes(usize, usize),
    Flags(u32),
    Code(BTreeMap<String, Vec<u8>>),
    Proto,
    Msg(Vec<(String, String)>, String),
    Sum,
    Frame,
}

pub struct Tab {
    pub path: String,
    pub types: BTreeMap<String, Ty>,
    pub registry: BTreeMap<String, (u16, u8, bool)>,
    pub frame_type: BTreeMap<String, String>,
    pub protocols: BTreeMap<String, u8>,
    pub sum_body: BTreeMap<String, String>,
}

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

impl Tab {
    pub fn load(path: &str) -> Tab {
        let where_from = path.to_string();
        let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("tables")).expect("tables json");
        let mut types = BTreeMap::new();
        for (name, d) in j["types"].as_object().unwrap() {
            let n = || d["n"].as_u64().unwrap() as usize;
            let ty = match d["k"].as_str().unwrap() {
                "int" => Ty::Int(n()),
                "raw" => Ty::Raw(n()),
                "sig" => Ty::Sig,
                "bool" => Ty::Bool,
                "str" => Ty::Str(d["max"].as_u64().unwrap() as usize),
                "bytes" => Ty::Bytes(n(), d["max"].as_u64().unwrap() as usize),
                "flags" => Ty::Flags(d["bits"].as_array().unwrap().iter().fold(0, |a, b| a | 1 << b.as_u64().unwrap())),
                "code" => Ty::Code(d["names"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), bytes(v))).collect()),
                "proto" => Ty::Proto,
                "msg" => Ty::Msg(
                    d["layout"].as_array().unwrap().iter()
                        .map(|f| (f[0].as_str().unwrap().to_string(), f[1].as_str().unwrap().to_string())).collect(),
                    d["rule"].as_str().unwrap().to_string(),
                ),
                "sum" => Ty::Sum,
                "frame" => Ty::Frame,
                k => panic!("unknown kind {}", k),
            };
            types.insert(name.clone(), ty);
        }
        Tab {
            path: where_from,
            types,
            registry: j["registry"].as_object().unwrap().iter()
                .map(|(k, v)| (k.clone(), (v[0].as_u64().unwrap() as u16, v[1].as_u64().unwrap() as u8, v[2].as_bool().unwrap()))).collect(),
            frame_type: j["frametype"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect(),
            protocols: j["protocols"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap() as u8)).collect(),
            sum_body: j["sumbody"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect(),
        }
    }

    pub fn ty(&self, t: &str) -> &Ty {
        &self.types[t]
    }

    fn rule_errs(rule: &str, v: &[V]) -> Errs {
        let mut e = Errs::default();
        match rule {
            "setup" => {
                if v[0].u() < 2 || v[1].u() < 2 {
                    e.add("Version");
                }
                if v[5].b().is_empty() || v[7].b().is_empty() {
                    e.add("Requirement");
                }
            }
            "setuperr" => {
                if v[0].u() == 0 && v[1].name() == "UnsupportedFeatureFlags" {
                    e.add("Requirement");
                }
            }
            "window" => {
                if v[1].u() >= v[2].u() {
                    e.add("Requirement");
                }
            }
            _ => {}
        }
        e
    }

    pub fn construct_errs(&self, t: &str, v: &V) -> Errs {
        let mut e = Errs::default();
        match self.ty(t) {
            Ty::Str(max) | Ty::Bytes(_, max) => {
                if v.b().len() > *max {
                    e.add("Requirement");
                }
            }
            Ty::Flags(bits) => {
                if v.u() as u32 & !bits != 0 {
                    e.add("UnknownFlags");
                }
            }
            Ty::Sig => {
                if v.b()[63] >= 32 {
                    e.add("Signature");
                }
            }
            Ty::Msg(layout, rule) => {
                for (i, (_, ft)) in layout.iter().enumerate() {
                    e.join(&self.construct_errs(ft, &v.s()[i]));
                }
                e.join(&Self::rule_errs(rule, v.s()));
            }
            Ty::Sum => return self.construct_errs(&self.sum_body[v.s()[0].name()].clone(), &v.s()[1]),
            _ => {}
        }
        e
    }

    pub fn encode(&self, t: &str, v: &V) -> Vec<u8> {
        match self.ty(t) {
            Ty::Int(_) | Ty::Flags(_) => v.b().iter().rev().cloned().collect(),
            Ty::Raw(_) | Ty::Sig => v.b().to_vec(),
            Ty::Bool => vec![(*v == V::Bool(true)) as u8],
            Ty::Str(_) => {
                let mut o = vec![v.b().len() as u8];
                o.extend_from_slice(v.b());
                o
            }
            Ty::Bytes(n, _) => {
                let mut o = (v.b().len() as u64).to_le_bytes()[..*n].to_vec();
                o.extend_from_slice(v.b());
                o
            }
            Ty::Code(names) => {
                let s = &names[v.name()];
                let mut o = vec![s.len() as u8];
                o.extend_from_slice(s);
                o
            }
            Ty::Proto => vec![self.protocols[v.name()]],
            Ty::Msg(layout, _) => layout.iter().zip(v.s()).flat_map(|((_, ft), x)| self.encode(ft, x)).collect(),
            Ty::Sum => {
                let mut o = vec![self.protocols[v.s()[0].name()]];
                o.extend(self.encode(&self.sum_body[v.s()[0].name()], &v.s()[1]));
                o
            }
            Ty::Frame => {
                let r = self.registry[v.s()[0].name()];
                let mut o = (r.0 | if r.2 { 0x8000 } else { 0 }).to_le_bytes().to_vec();
                o.push(r.1);
                o.extend_from_slice(&(v.s()[1].b().len() as u64).to_le_bytes()[..3]);
                o.extend_from_slice(v.s()[1].b());
                o
            }
        }
    }

    pub fn dec(&self, t: &str, buf: &[u8], pos: usize) -> Dec {
        let fail = |e: &[&'static str]| Dec { errs: Errs::of(e), v: None, pos };
        let le = |p: usize, n: usize| (0..n).fold(0usize, |a, i| a | (buf[p + i] as usize) << (8 * i));
        let has = |p: usize, n: usize| p + n <= buf.len();
        match self.ty(t) {
            Ty::Int(n) => {
                if has(pos, *n) {
                    Dec::got(V::B(buf[pos..pos + n].iter().rev().cloned().collect()), pos + n)
                } else {
                    fail(&["Parse"])
                }
            }
            Ty::Flags(bits) => {
                if !has(pos, 4) {
                    return fail(&["Parse"]);
                }
                let mut d = Dec::got(V::B(buf[pos..pos + 4].iter().rev().cloned().collect()), pos + 4);
                if le(pos, 4) as u32 & !bits != 0 {
                    d.errs.add("UnknownFlags");
                }
                d
            }
            Ty::Raw(n) => {
                if has(pos, *n) {
                    Dec::got(V::B(buf[pos..pos + n].to_vec()), pos + n)
                } else {
                    fail(&["Parse"])
                }
            }
            Ty::Sig => {
                if !has(pos, 64) {
                    return fail(&["Parse"]);
                }
                let mut d = Dec::got(V::B(buf[pos..pos + 64].to_vec()), pos + 64);
                if buf[pos + 63] >= 32 {
                    d.errs.add("Signature");
                }
                d
            }
            Ty::Bool => {
                if has(pos, 1) {
                    Dec::got(V::Bool(buf[pos] & 1 == 1), pos + 1)
                } else {
                    fail(&["Parse"])
                }
            }
            Ty::Str(max) => {
                if !has(pos, 1) {
                    return fail(&["Parse"]);
                }
                let n = buf[pos] as usize;
                let over = n > *max;
                if !has(pos + 1, n) {
                    let mut d = fail(&["Parse"]);
                    if over {
                        d.errs.add("Requirement");
                    }
                    return d;
                }
                let s = &buf[pos + 1..pos + 1 + n];
                let mut d = Dec::got(V::B(s.to_vec()), pos + 1 + n);
                if over {
                    d.errs.add("Requirement");
                }
                if std::str::from_utf8(s).is_err() {
                    d.errs.add("Utf8");
                }
                d
            }
            Ty::Bytes(ln, max) => {
                if !has(pos, *ln) {
                    return fail(&["Parse"]);
                }
                let n = le(pos, *ln);
                let over = n > *max;
                if !has(pos + ln, n) {
                    let mut d = fail(&["Parse"]);
                    if over {
                        d.errs.add("Requirement");
                    }
                    return d;
                }
                let mut d = Dec::got(V::B(buf[pos + ln..pos + ln + n].to_vec()), pos + ln + n);
                if over {
                    d.errs.add("Requirement");
                }
                d
            }
            Ty::Code(names) => {
                if !has(pos, 1) {
                    return fail(&["Parse"]);
                }
                let n = buf[pos] as usize;
                if !has(pos + 1, n) {
                    return fail(&["Parse"]);
                }
                let s = &buf[pos + 1..pos + 1 + n];
                match names.iter().find(|(_, x)| &x[..] == s) {
                    Some((k, _)) => Dec::got(V::Name(k.clone()), pos + 1 + n),
                    None => {
                        let mut d = Dec::got(V::Name("?".into()), pos + 1 + n);
                        d.errs.add(if std::str::from_utf8(s).is_ok() { "UnknownErrorCode" } else { "Utf8" });
                        d
                    }
                }
            }
            Ty::Proto => {
                if !has(pos, 1) {
                    return fail(&["Parse"]);
                }
                match self.protocols.iter().find(|(_, b)| **b == buf[pos]) {
                    Some((k, _)) => Dec::got(V::Name(k.clone()), pos + 1),
                    None => fail(&["Deserialization"]),
                }
            }
            Ty::Msg(layout, rule) => {
                let mut errs = Errs::default();
                let mut vs = vec![];
                let mut p = pos;
                for (_, ft) in layout {
                    let d = self.dec(ft, buf, p);
                    errs.join(&d.errs);
                    match d.v {
                        Some(v) => {
                            vs.push(v);
                            p = d.pos;
                        }
                        None => {
                            if rule == "setup" {
                                if vs.iter().take(2).any(|x| x.u() < 2) {
                                    errs.add("Version");
                                }
                                if [5usize, 7].iter().any(|i| vs.get(*i).map_or(false, |x| x.b().is_empty())) {
                                    errs.add("Requirement");
                                }
                            }
                            return Dec { errs, v: None, pos: p };
                        }
                    }
                }
                errs.join(&Self::rule_errs(rule, &vs));
                Dec { errs, v: Some(V::Seq(vs)), pos: p }
            }
            Ty::Sum => {
                let d = self.dec("Protocol", buf, pos);
                let name = match d.v {
                    None => return d,
                    Some(ref n) => n.name().to_string(),
                };
                match self.sum_body.get(&name) {
                    None => fail(&["Unimplemented"]),
                    Some(body) => {
                        let r = self.dec(body, buf, d.pos);
                        Dec { errs: r.errs, v: r.v.map(|x| V::Seq(vec![V::Name(name), x])), pos: r.pos }
                    }
                }
            }
            Ty::Frame => {
                if !has(pos, 3) {
                    return fail(&["Parse"]);
                }
                let raw = le(pos, 2) as u16;
                let hit = self.registry.iter().find(|(_, r)| r.0 == raw & 0x7fff && r.1 == buf[pos + 2]);
                let mut hdr = Errs::default();
                match hit {
                    None => hdr.add("UnknownMessageType"),
                    Some((_, r)) if r.2 != (raw >= 0x8000) => hdr.add("UnexpectedChannelBit"),
                    _ => {}
                }
                if !has(pos, 6) || !has(pos + 6, le(pos + 3, 3)) {
                    hdr.add("Parse");
                    return Dec { errs: hdr, v: None, pos };
                }
                let n = le(pos + 3, 3);
                if !hdr.none() {
                    return Dec { errs: hdr, v: None, pos };
                }
                Dec::got(V::Seq(vec![V::Name(hit.unwrap().0.clone()), V::B(buf[pos + 6..pos + 6 + n].to_vec())]), pos + 6 + n)
            }
        }
    }

    pub fn has_bool(&self, t: &str) -> bool {
        match self.ty(t) {
            Ty::Bool => true,
            Ty::Msg(l, _) => l.iter().any(|(_, f)| self.has_bool(f)),
            _ => false,
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Errs(Vec<&'static str>);
impl Errs {
    pub fn of(e: &[&'static str]) -> Errs {
        Errs(e.to_vec())
    }
    pub fn add(&mut self, e: &'static str) {
        if !self.0.contains(&e) {
            self.0.push(e);
        }
    }
    pub fn join(&mut self, o: &Errs) {
        for e in &o.0 {
            self.add(e);
        }
    }
    pub fn none(&self) -> bool {
        self.0.is_empty()
    }
    pub fn only(&self, e: &str) -> bool {
        self.0.len() == 1 && self.0[0] == e
    }
    pub fn has(&self, e: &str) -> bool {
        self.0.iter().any(|x| *x == e)
    }
}

pub struct Dec {
    pub errs: Errs,
    pub v: Option<V>,
    pub pos: usize,
}
impl Dec {
    fn got(v: V, pos: usize) -> Dec {
        Dec { errs: Errs::default(), v: Some(v), pos }
    }
}
