//! The real protocol types behind a uniform interface.
use crate::val::{digits, Rng, V};
use std::convert::TryFrom;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use stratumv2::codec::{frame, serialize, unframe, ByteParser, Deserializable, Frameable, Message, Serializable};
use stratumv2::common::{ChannelEndpointChanged, Protocol, SetupConnection, SetupConnectionErrorCode};
use stratumv2::error::{Error, Result};
use stratumv2::mining::OpenMiningChannelErrorCode;
use stratumv2::noise::{CertificateFormat, Signature, SignatureNoiseMessage, SignedCertificate, StaticPublicKey};
use stratumv2::types::*;
use stratumv2::{job_negotiation as jn, mining as mn};

#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub kind: &'static str,
    /// length of the chain of causes, capped: more than CHAIN_CAP means it does not end
    pub chain: i64,
    pub shown: bool,
}
pub const CHAIN_CAP: i64 = 64;

#[derive(Clone, Debug)]
pub enum R<T> {
    Ok(T),
    Err(E),
    Panic,
}
impl<T> R<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> R<U> {
        match self {
            R::Ok(x) => R::Ok(f(x)),
            R::Err(e) => R::Err(e),
            R::Panic => R::Panic,
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            R::Ok(_) => "ok",
            R::Err(_) => "err",
            R::Panic => "panic",
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            R::Err(e) => e.kind,
            _ => "-",
        }
    }
    pub fn err(&self) -> E {
        match self {
            R::Err(e) => e.clone(),
            _ => E { kind: "-", chain: 0, shown: true },
        }
    }
    pub fn ok(&self) -> Option<&T> {
        match self {
            R::Ok(x) => Some(x),
            _ => None,
        }
    }
}

pub fn chain_of(e: &(dyn std::error::Error + 'static)) -> (i64, bool) {
    let mut n = 1;
    let mut cur = e.source();
    let mut shown = !e.to_string().is_empty();
    while let Some(c) = cur {
        n += 1;
        if n > CHAIN_CAP {
            break;
        }
        shown = shown && !c.to_string().is_empty();
        cur = c.source();
    }
    (n, shown)
}

pub fn kind_of(e: &Error) -> &'static str {
    match e {
        Error::ParseError(_) => "Parse",
        Error::RequirementError(_) => "Requirement",
        Error::VersionError(_) => "Version",
        Error::Utf8Error(_) | Error::FromUtf8Error(_) => "Utf8",
        Error::UnknownFlags() => "UnknownFlags",
        Error::UnknownErrorCode() => "UnknownErrorCode",
        Error::UnknownMessageType() => "UnknownMessageType",
        Error::UnexpectedChannelBit(_) => "UnexpectedChannelBit",
        Error::UnexpectedMessageType(_, _) => "UnexpectedMessageType",
        Error::DeserializationError(_) => "Deserialization",
        Error::Unimplemented() => "Unimplemented",
        Error::AuthorityKeyError(_) => "Signature",
        Error::IOError(_) => "Io",
        Error::SystemTimeError(_) => "SystemTime",
        Error::Base58Error(_) => "Base58",
        Error::NoiseError(_) => "Noise",
        Error::ProtocolMismatchError(_) => "ProtocolMismatch",
        _ => "Other",
    }
}

pub fn run<T>(f: impl FnOnce() -> Result<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(|| match f() {
        Ok(x) => R::Ok(x),
        Err(e) => {
            let (chain, shown) = chain_of(&e);
            R::Err(E { kind: kind_of(&e), chain, shown })
        }
    })) {
        Ok(r) => r,
        Err(_) => R::Panic,
    }
}

pub trait Subject: Serializable + Deserializable {
    fn build(v: &V, r: &mut Rng) -> Result<Self>
    where
        Self: Sized;
    fn proj(&self) -> V;
    /// the length fields stored in length-limited members, in layout order
    fn lf(&self, _o: &mut Vec<i64>) {}
}

macro_rules! int_subject {
    ($t:ty, $n:expr) => {
        impl Subject for $t {
            fn build(v: &V, _: &mut Rng) -> Result<Self> {
                Ok(v.u() as $t)
            }
            fn proj(&self) -> V {
                V::B(digits(*self as u64, $n))
            }
        }
    };
}
int_subject!(u8, 1);
int_subject!(u16, 2);
int_subject!(u32, 4);

impl Subject for bool {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        Ok(*v == V::Bool(true))
    }
    fn proj(&self) -> V {
        V::Bool(*self)
    }
}
impl Subject for f32 {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        Ok(f32::from_bits(v.u() as u32))
    }
    fn proj(&self) -> V {
        V::B(digits(self.to_bits() as u64, 4))
    }
}
impl Subject for U24 {
    fn build(v: &V, r: &mut Rng) -> Result<Self> {
        match r.below(3) {
            0 => U24::new(v.u() as u32),
            1 => U24::try_from(v.u() as u32),
            _ => U24::try_from(v.u() as usize),
        }
    }
    fn proj(&self) -> V {
        // more digits than the type has, should the value not fit
        if self.0 < 1 << 24 {
            V::B(digits(self.0 as u64, 3))
        } else {
            V::B(digits(self.0 as u64, 4))
        }
    }
}
impl Subject for U256 {
    fn build(v: &V, r: &mut Rng) -> Result<Self> {
        let mut a = [0u8; 32];
        a.copy_from_slice(v.b());
        Ok(if r.chance(1, 2) { U256(a) } else { a.into() })
    }
    fn proj(&self) -> V {
        V::B(self.0.to_vec())
    }
}
impl Subject for Signature {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        Ok(Signature::from_bytes(v.b())?)
    }
    fn proj(&self) -> V {
        V::B(self.to_bytes().to_vec())
    }
}

macro_rules! str_subject {
    ($t:ident) => {
        impl Subject for $t {
            fn build(v: &V, r: &mut Rng) -> Result<Self> {
                let s = v.text();
                match r.below(2) {
                    0 => $t::new(s.as_str()),
                    _ => $t::new(s),
                }
            }
            fn proj(&self) -> V {
                V::B(self.data.as_bytes().to_vec())
            }
            fn lf(&self, o: &mut Vec<i64>) {
                o.push(self.length as i64)
            }
        }
    };
}
str_subject!(STR0_32);
str_subject!(STR0_255);

macro_rules! bytes_subject {
    ($t:ident, $len:expr) => {
        impl Subject for $t {
            fn build(v: &V, r: &mut Rng) -> Result<Self> {
                match r.below(3) {
                    0 => $t::new(v.b()),
                    1 => $t::new(v.b().to_vec()),
                    _ => $t::new(v.b().to_vec().into_boxed_slice()),
                }
            }
            fn proj(&self) -> V {
                V::B(self.data.clone())
            }
            fn lf(&self, o: &mut Vec<i64>) {
                let f: fn(&$t) -> i64 = $len;
                o.push(f(self))
            }
        }
    };
}
bytes_subject!(B0_31, |x| x.length as i64);
bytes_subject!(B0_32, |x| x.length as i64);
bytes_subject!(B0_255, |x| x.length as i64);
bytes_subject!(B0_64K, |x| x.length as i64);
bytes_subject!(B0_16M, |x| x.length.0 as i64);

macro_rules! flags_subject {
    ($t:ty) => {
        impl Subject for $t {
            fn build(v: &V, _: &mut Rng) -> Result<Self> {
                <$t>::from_bits(v.u() as u32).ok_or(Error::UnknownFlags())
            }
            fn proj(&self) -> V {
                V::B(digits(self.bits() as u64, 4))
            }
        }
    };
}
flags_subject!(mn::SetupConnectionFlags);
flags_subject!(jn::SetupConnectionFlags);
flags_subject!(mn::SetupConnectionSuccessFlags);
flags_subject!(jn::SetupConnectionSuccessFlags);

pub fn setup_code_name(c: &SetupConnectionErrorCode) -> &'static str {
    match c {
        SetupConnectionErrorCode::UnsupportedFeatureFlags => "UnsupportedFeatureFlags",
        SetupConnectionErrorCode::UnsupportedProtocol => "UnsupportedProtocol",
        SetupConnectionErrorCode::ProtocolVersionMismatch => "ProtocolVersionMismatch",
    }
}
pub const SETUP_CODES: [SetupConnectionErrorCode; 3] = [
    SetupConnectionErrorCode::UnsupportedFeatureFlags,
    SetupConnectionErrorCode::UnsupportedProtocol,
    SetupConnectionErrorCode::ProtocolVersionMismatch,
];
pub fn open_code_name(c: &OpenMiningChannelErrorCode) -> &'static str {
    match c {
        OpenMiningChannelErrorCode::UnknownUser => "UnknownUser",
        OpenMiningChannelErrorCode::MaxTargetOutOfRange => "MaxTargetOutOfRange",
    }
}
pub const OPEN_CODES: [OpenMiningChannelErrorCode; 2] =
    [OpenMiningChannelErrorCode::UnknownUser, OpenMiningChannelErrorCode::MaxTargetOutOfRange];
pub fn protocol_name(p: &Protocol) -> &'static str {
    match p {
        Protocol::Mining => "Mining",
        Protocol::JobNegotiation => "JobNegotiation",
        Protocol::TemplateDistribution => "TemplateDistribution",
        Protocol::JobDistribution => "JobDistribution",
    }
}
pub const PROTOCOLS: [Protocol; 4] =
    [Protocol::Mining, Protocol::JobNegotiation, Protocol::TemplateDistribution, Protocol::JobDistribution];

impl Subject for SetupConnectionErrorCode {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        Ok(*SETUP_CODES.iter().find(|c| setup_code_name(c) == v.name()).expect("harness: code name"))
    }
    fn proj(&self) -> V {
        V::Name(setup_code_name(self).into())
    }
}
impl Subject for OpenMiningChannelErrorCode {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        Ok(OPEN_CODES.iter().find(|c| open_code_name(c) == v.name()).expect("harness: code name").clone())
    }
    fn proj(&self) -> V {
        V::Name(open_code_name(self).into())
    }
}
impl Subject for Protocol {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        Ok(*PROTOCOLS.iter().find(|c| protocol_name(c) == v.name()).expect("harness: protocol name"))
    }
    fn proj(&self) -> V {
        V::Name(protocol_name(self).into())
    }
}

fn u16v(v: &V) -> u16 {
    v.u() as u16
}
fn u32v(v: &V) -> u32 {
    v.u() as u32
}
fn f32v(v: &V) -> f32 {
    f32::from_bits(v.u() as u32)
}
fn a32(v: &V) -> [u8; 32] {
    let mut a = [0u8; 32];
    a.copy_from_slice(v.b());
    a
}

macro_rules! setup_subject {
    ($m:ident) => {
        impl Subject for $m::SetupConnection {
            fn build(v: &V, r: &mut Rng) -> Result<Self> {
                let f = v.s();
                let flags = $m::SetupConnectionFlags::from_bits(f[2].u() as u32).ok_or(Error::UnknownFlags())?;
                if r.chance(1, 2) {
                    $m::SetupConnection::new(
                        u16v(&f[0]), u16v(&f[1]), flags, f[3].text(), u16v(&f[4]), f[5].text(), f[6].text(),
                        f[7].text(), f[8].text(),
                    )
                } else {
                    $m::SetupConnection::new(
                        u16v(&f[0]), u16v(&f[1]), flags, f[3].text().as_str(), u16v(&f[4]), f[5].text().as_str(),
                        f[6].text().as_str(), f[7].text().as_str(), f[8].text().as_str(),
                    )
                }
            }
            fn proj(&self) -> V {
                V::Seq(vec![
                    self.min_version.proj(), self.max_version.proj(), self.flags.proj(), self.endpoint_host.proj(),
                    self.endpoint_port.proj(), self.vendor.proj(), self.hardware_version.proj(),
                    self.firmware.proj(), self.device_id.proj(),
                ])
            }
            fn lf(&self, o: &mut Vec<i64>) {
                self.endpoint_host.lf(o);
                self.vendor.lf(o);
                self.hardware_version.lf(o);
                self.firmware.lf(o);
                self.device_id.lf(o);
            }
        }
        impl Subject for $m::SetupConnectionError {
            fn build(v: &V, r: &mut Rng) -> Result<Self> {
                let f = v.s();
                $m::SetupConnectionError::new(
                    $m::SetupConnectionFlags::from_bits(f[0].u() as u32).ok_or(Error::UnknownFlags())?,
                    SetupConnectionErrorCode::build(&f[1], r)?,
                )
            }
            fn proj(&self) -> V {
                V::Seq(vec![self.flags.proj(), self.error_code.proj()])
            }
        }
        impl Subject for $m::SetupConnectionSuccess {
            fn build(v: &V, _: &mut Rng) -> Result<Self> {
                let f = v.s();
                $m::SetupConnectionSuccess::new(
                    u16v(&f[0]),
                    $m::SetupConnectionSuccessFlags::from_bits(f[1].u() as u32).ok_or(Error::UnknownFlags())?,
                )
            }
            fn proj(&self) -> V {
                V::Seq(vec![self.used_version.proj(), self.flags.proj()])
            }
        }
    };
}
setup_subject!(mn);
setup_subject!(jn);

impl Subject for SetupConnection {
    fn build(v: &V, r: &mut Rng) -> Result<Self> {
        let f = v.s()[1].s();
        macro_rules! mk {
            ($m:ident, $ctor:ident, $var:ident) => {
                if r.chance(1, 2) {
                    Ok(SetupConnection::$var($m::SetupConnection::build(&v.s()[1], r)?))
                } else {
                    SetupConnection::$ctor(
                        u16v(&f[0]), u16v(&f[1]),
                        $m::SetupConnectionFlags::from_bits(f[2].u() as u32).ok_or(Error::UnknownFlags())?,
                        f[3].text(), u16v(&f[4]), f[5].text(), f[6].text(), f[7].text(), f[8].text(),
                    )
                }
            };
        }
        match v.s()[0].name() {
            "Mining" => mk!(mn, new_mining, Mining),
            _ => mk!(jn, new_job_negotation, JobNegotiation),
        }
    }
    fn proj(&self) -> V {
        match self {
            SetupConnection::Mining(m) => V::Seq(vec![V::Name("Mining".into()), m.proj()]),
            SetupConnection::JobNegotiation(m) => V::Seq(vec![V::Name("JobNegotiation".into()), m.proj()]),
        }
    }
    fn lf(&self, o: &mut Vec<i64>) {
        match self {
            SetupConnection::Mining(m) => m.lf(o),
            SetupConnection::JobNegotiation(m) => m.lf(o),
        }
    }
}

impl Subject for ChannelEndpointChanged {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        ChannelEndpointChanged::new(u32v(&v.s()[0]))
    }
    fn proj(&self) -> V {
        V::Seq(vec![self.channel_id.proj()])
    }
}
impl Subject for mn::OpenStandardMiningChannel {
    fn build(v: &V, r: &mut Rng) -> Result<Self> {
        let f = v.s();
        if r.chance(1, 2) {
            mn::OpenStandardMiningChannel::new(u32v(&f[0]), f[1].text(), f32v(&f[2]), a32(&f[3]))
        } else {
            mn::OpenStandardMiningChannel::new(u32v(&f[0]), f[1].text().as_str(), f32v(&f[2]), U256(a32(&f[3])))
        }
    }
    fn proj(&self) -> V {
        V::Seq(vec![self.request_id.proj(), self.user_identity.proj(), self.nominal_hash_rate.proj(), self.max_target.proj()])
    }
    fn lf(&self, o: &mut Vec<i64>) {
        self.user_identity.lf(o)
    }
}
impl Subject for mn::OpenExtendedMiningChannel {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        let f = v.s();
        mn::OpenExtendedMiningChannel::new(u32v(&f[0]), f[1].text(), f32v(&f[2]), a32(&f[3]), u16v(&f[4]))
    }
    fn proj(&self) -> V {
        V::Seq(vec![
            self.request_id.proj(), self.user_identity.proj(), self.nominal_hash_rate.proj(), self.max_target.proj(),
            self.min_extranonce_size.proj(),
        ])
    }
    fn lf(&self, o: &mut Vec<i64>) {
        self.user_identity.lf(o)
    }
}
impl Subject for mn::OpenStandardMiningChannelSuccess {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        let f = v.s();
        mn::OpenStandardMiningChannelSuccess::new(u32v(&f[0]), u32v(&f[1]), a32(&f[2]), f[3].b(), u32v(&f[4]))
    }
    fn proj(&self) -> V {
        V::Seq(vec![
            self.request_id.proj(), self.channel_id.proj(), self.target.proj(), self.extranonce_prefix.proj(),
            self.group_channel_id.proj(),
        ])
    }
    fn lf(&self, o: &mut Vec<i64>) {
        self.extranonce_prefix.lf(o)
    }
}
impl Subject for mn::OpenExtendedMiningChannelSuccess {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        let f = v.s();
        mn::OpenExtendedMiningChannelSuccess::new(u32v(&f[0]), u32v(&f[1]), a32(&f[2]), u16v(&f[3]), f[4].b())
    }
    fn proj(&self) -> V {
        V::Seq(vec![
            self.request_id.proj(), self.channel_id.proj(), self.target.proj(), self.extranonce_size.proj(),
            self.extranonce_prefix.proj(),
        ])
    }
    fn lf(&self, o: &mut Vec<i64>) {
        self.extranonce_prefix.lf(o)
    }
}
macro_rules! open_err {
    ($t:ty) => {
        impl Subject for $t {
            fn build(v: &V, r: &mut Rng) -> Result<Self> {
                <$t>::new(u32v(&v.s()[0]), OpenMiningChannelErrorCode::build(&v.s()[1], r)?)
            }
            fn proj(&self) -> V {
                V::Seq(vec![self.request_id.proj(), self.error_code.proj()])
            }
        }
    };
}
open_err!(mn::OpenStandardMiningChannelError);
open_err!(mn::OpenExtendedMiningChannelError);
impl Subject for mn::UpdateChannel {
    fn build(v: &V, _: &mut Rng) -> Result<Self> {
        let f = v.s();
        mn::UpdateChannel::new(u32v(&f[0]), f32v(&f[1]), a32(&f[2]))
    }
    fn proj(&self) -> V {
        V::Seq(vec![self.channel_id.proj(), self.nominal_hash_rate.proj(), self.max_target.proj()])
    }
}
impl Subject for SignatureNoiseMessage {
    fn build(v: &V, r: &mut Rng) -> Result<Self> {
        let f = v.s();
        let (version, valid_from, not_valid_after) = (u16v(&f[0]), u32v(&f[1]), u32v(&f[2]));
        let signature = Signature::build(&f[3], r)?;
        if valid_from < not_valid_after && r.chance(1, 2) {
            let pk = some_public_key();
            let cert = SignedCertificate::new(version, valid_from, not_valid_after, &pk)?;
            return Ok(SignatureNoiseMessage::new(&cert, signature));
        }
        Ok(SignatureNoiseMessage { version, valid_from, not_valid_after, signature })
    }
    fn proj(&self) -> V {
        V::Seq(vec![self.version.proj(), self.valid_from.proj(), self.not_valid_after.proj(), self.signature.proj()])
    }
}
impl Subject for Message {
    fn build(v: &V, r: &mut Rng) -> Result<Self> {
        let mt = message_type(v.s()[0].name());
        Ok(match r.below(3) {
            0 => Message::new(mt, v.s()[1].b().to_vec()),
            1 => Message::new(mt, v.s()[1].b()),
            _ => Message { message_type: mt, payload: v.s()[1].b().to_vec() },
        })
    }
    fn proj(&self) -> V {
        V::Seq(vec![V::Name(message_type_name(&self.message_type).into()), V::B(self.payload.clone())])
    }
}

macro_rules! mtypes {
    ($($n:ident),*) => {
        pub const MESSAGE_TYPES: &[(&str, MessageType)] = &[$((stringify!($n), MessageType::$n)),*];
        pub fn message_type_name(m: &MessageType) -> &'static str {
            match m { $(MessageType::$n => stringify!($n)),* }
        }
    };
}
mtypes!(
    SetupConnection, SetupConnectionSuccess, SetupConnectionError, ChannelEndpointChanged, OpenStandardMiningChannel,
    OpenStandardMiningChannelSuccess, OpenStandardMiningChannelError, OpenExtendedMiningChannel,
    OpenExtendedMiningChannelSuccess, OpenExtendedMiningChannelError, UpdateChannel, UpdateChannelError, CloseChannel,
    SetExtranoncePrefix, SubmitSharesStandard, SubmitSharesExtended, SubmitSharesSuccess, SubmitSharesError,
    NewMiningJob, NewExtendedMiningJob, SetNewPrevHash, SetTarget, SetCustomMiningJob, SetCustomMiningJobSuccess,
    SetCustomMiningJobError, Reconnect, SetGroupChannel, TestMessage1, TestMessage2
);
pub fn message_type(n: &str) -> MessageType {
    MESSAGE_TYPES.iter().find(|x| x.0 == n).expect("harness: message type").1
}

pub fn some_public_key() -> StaticPublicKey {
    StaticPublicKey::from_bytes([9u8; 32]).expect("harness: a public key")
}

pub struct Made {
    pub out: V,
    pub lf: Vec<i64>,
    pub n: i64,
    pub bytes: Vec<u8>,
    /// the other ways to serialize the same value gave the same bytes
    pub same: bool,
}
pub struct Decd {
    pub out: V,
    pub lf: Vec<i64>,
    pub re: Vec<u8>,
    pub used: i64,
}

/// Number of bytes the parser has passed, without moving it.
pub fn parser_pos(p: &mut ByteParser, buf: &[u8]) -> i64 {
    let base = buf.as_ptr() as usize;
    if let Ok(Ok(s)) = catch_unwind(AssertUnwindSafe(|| p.next_by(0))) {
        let a = s.as_ptr() as usize;
        if a >= base && a <= base + buf.len() && !buf.is_empty() {
            return (a - base) as i64;
        }
    }
    // otherwise by reading to the end, which moves it
    let mut rest = 0i64;
    while let Ok(Ok(_)) = catch_unwind(AssertUnwindSafe(|| p.next_by(1))) {
        rest += 1;
    }
    buf.len() as i64 - rest
}

fn construct<T: Subject>(v: &V, r: &mut Rng) -> R<Made> {
    run(|| {
        let x = T::build(v, r)?;
        let mut lf = vec![];
        x.lf(&mut lf);
        let mut bytes = vec![];
        let n = x.serialize(&mut bytes)? as i64;
        let mut again = vec![];
        x.serialize(&mut again)?;
        let free = serialize(&x)?;
        let same = again == bytes && free == bytes;
        Ok(Made { out: x.proj(), lf, n, bytes, same })
    })
}
fn decode<T: Subject>(buf: &[u8], route: u8) -> R<Decd> {
    run(|| {
        let (x, used) = if route == 1 {
            (stratumv2::codec::deserialize::<T>(buf)?, -1)
        } else {
            let mut p = ByteParser::new(buf, 0);
            let x = T::deserialize(&mut p)?;
            let used = parser_pos(&mut p, buf);
            (x, used)
        };
        let mut lf = vec![];
        x.lf(&mut lf);
        let re = serialize(&x)?;
        Ok(Decd { out: x.proj(), lf, re, used })
    })
}
fn write<T: Subject>(v: &V, r: &mut Rng, w: &mut dyn Write) -> R<usize> {
    let x = match run(|| T::build(v, r)) {
        R::Ok(x) => x,
        _ => return R::Err(E { kind: "Build", chain: 1, shown: true }),
    };
    let mut w = w;
    run(|| x.serialize(&mut w))
}
fn read<T: Subject>(p: &mut ByteParser) -> R<V> {
    run(|| Ok(T::deserialize(p)?.proj()))
}
fn do_frame<T: Subject + Frameable>(v: &V, r: &mut Rng) -> R<(Message, Vec<u8>)> {
    run(|| {
        let x = T::build(v, r)?;
        Ok((frame(&x)?, serialize(&x)?))
    })
}
fn do_unframe<T: Subject + Frameable>(m: &Message) -> R<V> {
    run(|| Ok(unframe::<T>(m)?.proj()))
}
fn type_of<T: Frameable>() -> MessageType {
    T::message_type()
}

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub construct: fn(&V, &mut Rng) -> R<Made>,
    pub decode: Option<fn(&[u8], u8) -> R<Decd>>,
    pub write: fn(&V, &mut Rng, &mut dyn Write) -> R<usize>,
    pub read: Option<fn(&mut ByteParser) -> R<V>>,
    pub frame: Option<fn(&V, &mut Rng) -> R<(Message, Vec<u8>)>>,
    pub unframe: Option<fn(&Message) -> R<V>>,
    pub mtype: Option<fn() -> MessageType>,
}

// Values that can only be serialized.
fn cert_construct(v: &V, r: &mut Rng) -> R<Made> {
    ser_only(v, r, |v, w| {
        let f = v.s();
        let pk = StaticPublicKey::from_bytes(a32(&f[3]))?;
        let c = SignedCertificate::new(u16v(&f[0]), u32v(&f[1]), u32v(&f[2]), &pk)?;
        let out = V::Seq(vec![c.version.proj(), c.valid_from.proj(), c.not_valid_after.proj(), V::B(c.public_key.as_bytes().to_vec())]);
        Ok((c.serialize(w)?, out))
    })
}
fn format_construct(v: &V, r: &mut Rng) -> R<Made> {
    ser_only(v, r, |v, w| {
        let f = v.s();
        let pk = StaticPublicKey::from_bytes(a32(&f[3]))?;
        let m = SignatureNoiseMessage {
            version: u16v(&f[0]),
            valid_from: u32v(&f[1]),
            not_valid_after: u32v(&f[2]),
            signature: Signature::from_bytes(&[1u8; 64])?,
        };
        let auth = stratumv2::bitcoin::util::base58::encode_slice(&AUTH_PUB);
        let c = CertificateFormat::new(&auth, &pk, &m)?;
        Ok((c.serialize(w)?, v.clone()))
    })
}
fn pk_construct(v: &V, r: &mut Rng) -> R<Made> {
    ser_only(v, r, |v, w| {
        let pk = StaticPublicKey::from_bytes(a32(v))?;
        Ok((pk.serialize(w)?, V::B(pk.as_bytes().to_vec())))
    })
}
/// RFC 8032 test key
const AUTH_PUB: [u8; 32] = [
    0xd7, 0x5a, 0x98, 0x01, 0x82, 0xb1, 0x0a, 0xb7, 0xd5, 0x4b, 0xfe, 0xd3, 0xc9, 0x64, 0x07, 0x3a, 0x0e, 0xe1, 0x72,
    0xf3, 0xda, 0xa6, 0x23, 0x25, 0xaf, 0x02, 0x1a, 0x68, 0xf7, 0x07, 0x51, 0x1a,
];
fn ser_only(v: &V, _r: &mut Rng, f: impl Fn(&V, &mut Vec<u8>) -> Result<(usize, V)>) -> R<Made> {
    run(|| {
        let (mut bytes, mut again) = (vec![], vec![]);
        let (n, out) = f(v, &mut bytes)?;
        f(v, &mut again)?;
        let same = again == bytes;
        Ok(Made { out, lf: vec![], n: n as i64, bytes, same })
    })
}
fn cert_write(v: &V, _: &mut Rng, w: &mut dyn Write) -> R<usize> {
    let mut w = w;
    run(|| {
        let f = v.s();
        let pk = StaticPublicKey::from_bytes(a32(&f[3]))?;
        SignedCertificate::new(u16v(&f[0]), u32v(&f[1]), u32v(&f[2]), &pk)?.serialize(&mut w)
    })
}
fn format_write(v: &V, _: &mut Rng, w: &mut dyn Write) -> R<usize> {
    let mut w = w;
    run(|| {
        let f = v.s();
        let pk = StaticPublicKey::from_bytes(a32(&f[3]))?;
        let m = SignatureNoiseMessage {
            version: u16v(&f[0]),
            valid_from: u32v(&f[1]),
            not_valid_after: u32v(&f[2]),
            signature: Signature::from_bytes(&[1u8; 64])?,
        };
        let auth = stratumv2::bitcoin::util::base58::encode_slice(&AUTH_PUB);
        let c = CertificateFormat::new(&auth, &pk, &m)?;
        c.serialize(&mut w)
    })
}
fn pk_write(v: &V, _: &mut Rng, w: &mut dyn Write) -> R<usize> {
    let mut w = w;
    run(|| StaticPublicKey::from_bytes(a32(v))?.serialize(&mut w))
}

macro_rules! sub {
    ($n:expr, $t:ty) => {
        Sub { name: $n, construct: construct::<$t>, decode: Some(decode::<$t>), write: write::<$t>, read: Some(read::<$t>), frame: None, unframe: None, mtype: None }
    };
    ($n:expr, $t:ty, f) => {
        Sub { name: $n, construct: construct::<$t>, decode: Some(decode::<$t>), write: write::<$t>, read: Some(read::<$t>), frame: Some(do_frame::<$t>), unframe: Some(do_unframe::<$t>), mtype: Some(type_of::<$t>) }
    };
}

pub fn subjects() -> Vec<Sub> {
    vec![
        sub!("bool", bool),
        sub!("u8", u8),
        sub!("u16", u16),
        sub!("u32", u32),
        sub!("f32", f32),
        sub!("U24", U24),
        sub!("U256", U256),
        sub!("Signature", Signature),
        sub!("STR0_32", STR0_32),
        sub!("STR0_255", STR0_255),
        sub!("B0_31", B0_31),
        sub!("B0_32", B0_32),
        sub!("B0_255", B0_255),
        sub!("B0_64K", B0_64K),
        sub!("B0_16M", B0_16M),
        sub!("MiningSetupFlags", mn::SetupConnectionFlags),
        sub!("JnSetupFlags", jn::SetupConnectionFlags),
        sub!("MiningSetupSuccessFlags", mn::SetupConnectionSuccessFlags),
        sub!("JnSetupSuccessFlags", jn::SetupConnectionSuccessFlags),
        sub!("SetupErrorCode", SetupConnectionErrorCode),
        sub!("OpenChannelErrorCode", OpenMiningChannelErrorCode),
        sub!("Protocol", Protocol),
        sub!("SetupConnection", SetupConnection, f),
        sub!("MiningSetupConnection", mn::SetupConnection, f),
        sub!("JnSetupConnection", jn::SetupConnection, f),
        sub!("MiningSetupConnectionError", mn::SetupConnectionError, f),
        sub!("JnSetupConnectionError", jn::SetupConnectionError, f),
        sub!("MiningSetupConnectionSuccess", mn::SetupConnectionSuccess, f),
        sub!("JnSetupConnectionSuccess", jn::SetupConnectionSuccess, f),
        sub!("ChannelEndpointChanged", ChannelEndpointChanged, f),
        sub!("OpenStandardMiningChannel", mn::OpenStandardMiningChannel, f),
        sub!("OpenStandardMiningChannelSuccess", mn::OpenStandardMiningChannelSuccess, f),
        sub!("OpenStandardMiningChannelError", mn::OpenStandardMiningChannelError, f),
        sub!("OpenExtendedMiningChannel", mn::OpenExtendedMiningChannel, f),
        sub!("OpenExtendedMiningChannelSuccess", mn::OpenExtendedMiningChannelSuccess, f),
        sub!("OpenExtendedMiningChannelError", mn::OpenExtendedMiningChannelError, f),
        sub!("UpdateChannel", mn::UpdateChannel, f),
        sub!("SignatureNoiseMessage", SignatureNoiseMessage),
        sub!("Message", Message),
        Sub { name: "PublicKey", construct: pk_construct, decode: None, write: pk_write, read: None, frame: None, unframe: None, mtype: None },
        Sub { name: "SignedCertificate", construct: cert_construct, decode: None, write: cert_write, read: None, frame: None, unframe: None, mtype: None },
        Sub { name: "CertificateFormat", construct: format_construct, decode: None, write: format_write, read: None, frame: None, unframe: None, mtype: None },
    ]
}
