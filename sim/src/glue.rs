//! The library's types behind one interface: build from values, encode, decode, read
//! back values, frame and unframe.
use crate::wire::{K, V};
use std::convert::TryFrom;
use std::io::Write;
use stratumv2::codec::{deserialize, frame, unframe, ByteParser, Deserializable, Message, Serializable};
use stratumv2::common::{self, Protocol, SetupConnectionErrorCode};
use stratumv2::error::Error;
use stratumv2::noise::{Signature, SignatureNoiseMessage, StaticPublicKey};
use stratumv2::types::*;
use stratumv2::{job_negotiation as jn, mining as mi};

pub enum L {
    Setup(common::SetupConnection),
    BareM(mi::SetupConnection),
    BareJ(jn::SetupConnection),
    MinS(mi::SetupConnectionSuccess),
    JobS(jn::SetupConnectionSuccess),
    MinE(mi::SetupConnectionError),
    JobE(jn::SetupConnectionError),
    Chg(common::ChannelEndpointChanged),
    Std(mi::OpenStandardMiningChannel),
    StdOk(mi::OpenStandardMiningChannelSuccess),
    StdErr(mi::OpenStandardMiningChannelError),
    Ext(mi::OpenExtendedMiningChannel),
    ExtOk(mi::OpenExtendedMiningChannelSuccess),
    ExtErr(mi::OpenExtendedMiningChannelError),
    Upd(mi::UpdateChannel),
    SigM(SignatureNoiseMessage),
    /// version, from, until, key: encoded through a SignedCertificate
    Cert(u16, u32, u32, StaticPublicKey),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    F32(f32),
    U24(U24),
    U256(U256),
    S32(STR0_32),
    S255(STR0_255),
    B31(B0_31),
    B32(B0_32),
    B255(B0_255),
    B64(B0_64K),
    B16(B0_16M),
    Proto(Protocol),
    MF(mi::SetupConnectionFlags),
    JF(jn::SetupConnectionFlags),
    MSF(mi::SetupConnectionSuccessFlags),
    JSF(jn::SetupConnectionSuccessFlags),
    SCode(SetupConnectionErrorCode),
    OCode(mi::OpenMiningChannelErrorCode),
    Sig(Signature),
    Pub(StaticPublicKey),
}

pub type R<T> = Result<T, Error>;

fn st(v: &V) -> R<String> {
    Ok(String::from_utf8(v.b().to_vec())?)
}
fn a32(v: &V) -> [u8; 32] {
    let mut a = [0; 32];
    a.copy_from_slice(v.b());
    a
}
/// Flags as a program writes them, by name; by number where no name is defined.
fn named<T: Copy + std::ops::BitOr<Output = T>>(bits: u64, none: T, names: &[T], number: impl Fn(u32) -> Option<T>) -> R<T> {
    if bits >> names.len() != 0 {
        return number(bits as u32).ok_or(Error::UnknownFlags());
    }
    Ok(names.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).fold(none, |f, (_, x)| f | *x))
}
fn mf(v: &V) -> R<mi::SetupConnectionFlags> {
    use mi::SetupConnectionFlags as T;
    named(v.n(), T::empty(), &[T::REQUIRES_STANDARD_JOBS, T::REQUIRES_WORK_SELECTION, T::REQUIRES_VERSION_ROLLING], T::from_bits)
}
fn jf(v: &V) -> R<jn::SetupConnectionFlags> {
    use jn::SetupConnectionFlags as T;
    named(v.n(), T::empty(), &[T::REQUIRES_ASYNC_JOB_MINING], T::from_bits)
}
fn msf(v: &V) -> R<mi::SetupConnectionSuccessFlags> {
    use mi::SetupConnectionSuccessFlags as T;
    named(v.n(), T::NONE, &[T::REQUIRES_FIXED_VERSION, T::REQUIRES_EXTENDED_CHANNELS], T::from_bits)
}
fn jsf(v: &V) -> R<jn::SetupConnectionSuccessFlags> {
    use jn::SetupConnectionSuccessFlags as T;
    named(v.n(), T::NONE, &[], T::from_bits)
}
// Chosen by name, not through the library's string table.
fn scode(v: &V) -> R<SetupConnectionErrorCode> {
    Ok(match v.b() {
        b"unsupported-feature-flags" => SetupConnectionErrorCode::UnsupportedFeatureFlags,
        b"unsupported-protocol" => SetupConnectionErrorCode::UnsupportedProtocol,
        b"protocol-version-mismatch" => SetupConnectionErrorCode::ProtocolVersionMismatch,
        _ => return Err(Error::UnknownErrorCode()),
    })
}
fn ocode(v: &V) -> R<mi::OpenMiningChannelErrorCode> {
    Ok(match v.b() {
        b"unknown-user" => mi::OpenMiningChannelErrorCode::UnknownUser,
        b"max-target-out-of-range" => mi::OpenMiningChannelErrorCode::MaxTargetOutOfRange,
        _ => return Err(Error::UnknownErrorCode()),
    })
}
fn scode_s(c: &SetupConnectionErrorCode) -> V {
    V::B(
        match c {
            SetupConnectionErrorCode::UnsupportedFeatureFlags => "unsupported-feature-flags",
            SetupConnectionErrorCode::UnsupportedProtocol => "unsupported-protocol",
            SetupConnectionErrorCode::ProtocolVersionMismatch => "protocol-version-mismatch",
        }
        .into(),
    )
}
fn ocode_s(c: &mi::OpenMiningChannelErrorCode) -> V {
    V::B(
        match c {
            mi::OpenMiningChannelErrorCode::UnknownUser => "unknown-user",
            mi::OpenMiningChannelErrorCode::MaxTargetOutOfRange => "max-target-out-of-range",
        }
        .into(),
    )
}
fn proto(n: u64) -> R<Protocol> {
    Ok(match n {
        0 => Protocol::Mining,
        1 => Protocol::JobNegotiation,
        2 => Protocol::TemplateDistribution,
        3 => Protocol::JobDistribution,
        _ => return Err(Error::Unimplemented()),
    })
}

/// Builds through the public constructors.
pub fn build(k: K, v: &[V]) -> R<L> {
    Ok(match k {
        K::SetupMining => {
            let v = &v[1..];
            L::Setup(common::SetupConnection::new_mining(
                v[0].n() as u16, v[1].n() as u16, mf(&v[2])?, st(&v[3])?, v[4].n() as u16, st(&v[5])?, st(&v[6])?, st(&v[7])?, st(&v[8])?,
            )?)
        }
        K::SetupJob => {
            let v = &v[1..];
            L::Setup(common::SetupConnection::new_job_negotation(
                v[0].n() as u16, v[1].n() as u16, jf(&v[2])?, st(&v[3])?, v[4].n() as u16, st(&v[5])?, st(&v[6])?, st(&v[7])?, st(&v[8])?,
            )?)
        }
        K::BareMining => L::BareM(mi::SetupConnection::new(
            v[0].n() as u16, v[1].n() as u16, mf(&v[2])?, st(&v[3])?, v[4].n() as u16, st(&v[5])?, st(&v[6])?, st(&v[7])?, st(&v[8])?,
        )?),
        K::BareJob => L::BareJ(jn::SetupConnection::new(
            v[0].n() as u16, v[1].n() as u16, jf(&v[2])?, st(&v[3])?, v[4].n() as u16, st(&v[5])?, st(&v[6])?, st(&v[7])?, st(&v[8])?,
        )?),
        K::MinSuccess => L::MinS(mi::SetupConnectionSuccess::new(v[0].n() as u16, msf(&v[1])?)?),
        K::JobSuccess => L::JobS(jn::SetupConnectionSuccess::new(v[0].n() as u16, jsf(&v[1])?)?),
        K::MinError => L::MinE(mi::SetupConnectionError::new(mf(&v[0])?, scode(&v[1])?)?),
        K::JobError => L::JobE(jn::SetupConnectionError::new(jf(&v[0])?, scode(&v[1])?)?),
        K::EndpointChanged => L::Chg(common::ChannelEndpointChanged::new(v[0].n() as u32)?),
        K::OpenStd => L::Std(mi::OpenStandardMiningChannel::new(v[0].n() as u32, st(&v[1])?, f32::from_bits(v[2].n() as u32), a32(&v[3]))?),
        K::OpenStdOk => L::StdOk(mi::OpenStandardMiningChannelSuccess::new(
            v[0].n() as u32, v[1].n() as u32, a32(&v[2]), v[3].b().to_vec(), v[4].n() as u32,
        )?),
        K::OpenStdErr => L::StdErr(mi::OpenStandardMiningChannelError::new(v[0].n() as u32, ocode(&v[1])?)?),
        K::OpenExt => L::Ext(mi::OpenExtendedMiningChannel::new(
            v[0].n() as u32, st(&v[1])?, f32::from_bits(v[2].n() as u32), a32(&v[3]), v[4].n() as u16,
        )?),
        K::OpenExtOk => L::ExtOk(mi::OpenExtendedMiningChannelSuccess::new(
            v[0].n() as u32, v[1].n() as u32, a32(&v[2]), v[3].n() as u16, v[4].b().to_vec(),
        )?),
        K::OpenExtErr => L::ExtErr(mi::OpenExtendedMiningChannelError::new(v[0].n() as u32, ocode(&v[1])?)?),
        K::Update => L::Upd(mi::UpdateChannel::new(v[0].n() as u32, f32::from_bits(v[1].n() as u32), a32(&v[2]))?),
        K::SigMsg => L::SigM(SignatureNoiseMessage {
            version: v[0].n() as u16,
            valid_from: v[1].n() as u32,
            not_valid_after: v[2].n() as u32,
            signature: Signature::try_from(v[3].b())?,
        }),
        K::Cert => L::Cert(v[0].n() as u16, v[1].n() as u32, v[2].n() as u32, StaticPublicKey::from_bytes(a32(&v[3]))?),
        K::FBool => L::Bool(v[0].n() == 1),
        K::FU8 => L::U8(v[0].n() as u8),
        K::FU16 => L::U16(v[0].n() as u16),
        K::FU32 => L::U32(v[0].n() as u32),
        K::FF32 => L::F32(f32::from_bits(v[0].n() as u32)),
        K::FU24 => L::U24(U24::new(v[0].n() as u32)?),
        K::FU256 => L::U256(U256(a32(&v[0]))),
        K::FStr32 => L::S32(STR0_32::new(st(&v[0])?)?),
        K::FStr255 => L::S255(STR0_255::new(st(&v[0])?)?),
        K::FB31 => L::B31(B0_31::new(v[0].b().to_vec())?),
        K::FB32 => L::B32(B0_32::new(v[0].b().to_vec())?),
        K::FB255 => L::B255(B0_255::new(v[0].b().to_vec())?),
        K::FB64K => L::B64(B0_64K::new(v[0].b().to_vec())?),
        K::FB16M => L::B16(B0_16M::new(v[0].b().to_vec())?),
        K::FProto => L::Proto(proto(v[0].n())?),
        K::FMinFlags => L::MF(mf(&v[0])?),
        K::FJobFlags => L::JF(jf(&v[0])?),
        K::FMinSFlags => L::MSF(msf(&v[0])?),
        K::FJobSFlags => L::JSF(jsf(&v[0])?),
        K::FSetupCode => L::SCode(scode(&v[0])?),
        K::FOpenCode => L::OCode(ocode(&v[0])?),
        K::FSig => L::Sig(Signature::try_from(v[0].b())?),
        K::FPub => L::Pub(StaticPublicKey::from_bytes(a32(&v[0]))?),
    })
}

macro_rules! each {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            L::Setup($x) => $e,
            L::BareM($x) => $e,
            L::BareJ($x) => $e,
            L::MinS($x) => $e,
            L::JobS($x) => $e,
            L::MinE($x) => $e,
            L::JobE($x) => $e,
            L::Chg($x) => $e,
            L::Std($x) => $e,
            L::StdOk($x) => $e,
            L::StdErr($x) => $e,
            L::Ext($x) => $e,
            L::ExtOk($x) => $e,
            L::ExtErr($x) => $e,
            L::Upd($x) => $e,
            L::SigM($x) => $e,
            L::Bool($x) => $e,
            L::U8($x) => $e,
            L::U16($x) => $e,
            L::U32($x) => $e,
            L::F32($x) => $e,
            L::U24($x) => $e,
            L::U256($x) => $e,
            L::S32($x) => $e,
            L::S255($x) => $e,
            L::B31($x) => $e,
            L::B32($x) => $e,
            L::B255($x) => $e,
            L::B64($x) => $e,
            L::B16($x) => $e,
            L::Proto($x) => $e,
            L::MF($x) => $e,
            L::JF($x) => $e,
            L::MSF($x) => $e,
            L::JSF($x) => $e,
            L::SCode($x) => $e,
            L::OCode($x) => $e,
            L::Sig($x) => $e,
            L::Pub($x) => $e,
            L::Cert(v, f, u, k) => {
                let c = stratumv2::noise::SignedCertificate { version: *v, valid_from: *f, not_valid_after: *u, public_key: k };
                let $x = &c;
                $e
            }
        }
    };
}

/// Encodes onto a stream.
pub fn encode(m: &L, w: &mut dyn Write) -> R<usize> {
    let mut w = w;
    each!(m, x => x.serialize(&mut w))
}

pub fn decode(k: K, b: &[u8]) -> R<L> {
    Ok(match k {
        K::SetupMining | K::SetupJob => L::Setup(deserialize(b)?),
        K::BareMining => L::BareM(deserialize(b)?),
        K::BareJob => L::BareJ(deserialize(b)?),
        K::MinSuccess => L::MinS(deserialize(b)?),
        K::JobSuccess => L::JobS(deserialize(b)?),
        K::MinError => L::MinE(deserialize(b)?),
        K::JobError => L::JobE(deserialize(b)?),
        K::EndpointChanged => L::Chg(deserialize(b)?),
        K::OpenStd => L::Std(deserialize(b)?),
        K::OpenStdOk => L::StdOk(deserialize(b)?),
        K::OpenStdErr => L::StdErr(deserialize(b)?),
        K::OpenExt => L::Ext(deserialize(b)?),
        K::OpenExtOk => L::ExtOk(deserialize(b)?),
        K::OpenExtErr => L::ExtErr(deserialize(b)?),
        K::Update => L::Upd(deserialize(b)?),
        K::SigMsg => L::SigM(deserialize(b)?),
        K::FBool => L::Bool(deserialize(b)?),
        K::FU8 => L::U8(deserialize(b)?),
        K::FU16 => L::U16(deserialize(b)?),
        K::FU32 => L::U32(deserialize(b)?),
        K::FF32 => L::F32(deserialize(b)?),
        K::FU24 => L::U24(deserialize(b)?),
        K::FU256 => L::U256(deserialize(b)?),
        K::FStr32 => L::S32(deserialize(b)?),
        K::FStr255 => L::S255(deserialize(b)?),
        K::FB31 => L::B31(deserialize(b)?),
        K::FB32 => L::B32(deserialize(b)?),
        K::FB255 => L::B255(deserialize(b)?),
        K::FB64K => L::B64(deserialize(b)?),
        K::FB16M => L::B16(deserialize(b)?),
        K::FProto => L::Proto(deserialize(b)?),
        K::FMinFlags => L::MF(deserialize(b)?),
        K::FJobFlags => L::JF(deserialize(b)?),
        K::FMinSFlags => L::MSF(deserialize(b)?),
        K::FJobSFlags => L::JSF(deserialize(b)?),
        K::FSetupCode => L::SCode(deserialize(b)?),
        K::FOpenCode => L::OCode(deserialize(b)?),
        K::FSig => L::Sig(deserialize(b)?),
        K::Cert | K::FPub => unreachable!(),
    })
}

/// Decodes one frame from `b[start..]` in place.
pub fn decode_message_at(b: &[u8], start: usize) -> R<Message> {
    Message::deserialize(&mut ByteParser::new(b, start))
}
pub fn decode_message(b: &[u8]) -> R<Message> {
    deserialize(b)
}
pub fn encode_message(m: &Message, w: &mut dyn Write) -> R<usize> {
    let mut w = w;
    m.serialize(&mut w)
}

pub fn to_frame(m: &L) -> R<Message> {
    match m {
        L::Setup(x) => frame(x),
        L::BareM(x) => frame(x),
        L::BareJ(x) => frame(x),
        L::MinS(x) => frame(x),
        L::JobS(x) => frame(x),
        L::MinE(x) => frame(x),
        L::JobE(x) => frame(x),
        L::Chg(x) => frame(x),
        L::Std(x) => frame(x),
        L::StdOk(x) => frame(x),
        L::StdErr(x) => frame(x),
        L::Ext(x) => frame(x),
        L::ExtOk(x) => frame(x),
        L::ExtErr(x) => frame(x),
        L::Upd(x) => frame(x),
        _ => unreachable!(),
    }
}
pub fn from_frame(k: K, m: &Message) -> R<L> {
    Ok(match k {
        K::SetupMining | K::SetupJob => L::Setup(unframe(m)?),
        K::BareMining => L::BareM(unframe(m)?),
        K::BareJob => L::BareJ(unframe(m)?),
        K::MinSuccess => L::MinS(unframe(m)?),
        K::JobSuccess => L::JobS(unframe(m)?),
        K::MinError => L::MinE(unframe(m)?),
        K::JobError => L::JobE(unframe(m)?),
        K::EndpointChanged => L::Chg(unframe(m)?),
        K::OpenStd => L::Std(unframe(m)?),
        K::OpenStdOk => L::StdOk(unframe(m)?),
        K::OpenStdErr => L::StdErr(unframe(m)?),
        K::OpenExt => L::Ext(unframe(m)?),
        K::OpenExtOk => L::ExtOk(unframe(m)?),
        K::OpenExtErr => L::ExtErr(unframe(m)?),
        K::Update => L::Upd(unframe(m)?),
        _ => unreachable!(),
    })
}

fn sv(x: &str) -> V {
    V::B(x.as_bytes().to_vec())
}
fn n(x: impl Into<u64>) -> V {
    V::N(x.into())
}
fn bare_m(x: &mi::SetupConnection) -> Vec<V> {
    vec![
        n(x.min_version), n(x.max_version), n(x.flags.bits()), sv(&x.endpoint_host.data), n(x.endpoint_port), sv(&x.vendor.data),
        sv(&x.hardware_version.data), sv(&x.firmware.data), sv(&x.device_id.data),
    ]
}
fn bare_j(x: &jn::SetupConnection) -> Vec<V> {
    vec![
        n(x.min_version), n(x.max_version), n(x.flags.bits()), sv(&x.endpoint_host.data), n(x.endpoint_port), sv(&x.vendor.data),
        sv(&x.hardware_version.data), sv(&x.firmware.data), sv(&x.device_id.data),
    ]
}
fn pn(p: &Protocol) -> V {
    n(match p {
        Protocol::Mining => 0u8,
        Protocol::JobNegotiation => 1,
        Protocol::TemplateDistribution => 2,
        Protocol::JobDistribution => 3,
    })
}

/// Reads the field values back.
pub fn values(m: &L) -> Vec<V> {
    let b = |x: &[u8]| V::B(x.to_vec());
    match m {
        L::Setup(common::SetupConnection::Mining(x)) => {
            let mut v = vec![V::N(0)];
            v.extend(bare_m(x));
            v
        }
        L::Setup(common::SetupConnection::JobNegotiation(x)) => {
            let mut v = vec![V::N(1)];
            v.extend(bare_j(x));
            v
        }
        L::BareM(x) => bare_m(x),
        L::BareJ(x) => bare_j(x),
        L::MinS(x) => vec![n(x.used_version), n(x.flags.bits())],
        L::JobS(x) => vec![n(x.used_version), n(x.flags.bits())],
        L::MinE(x) => vec![n(x.flags.bits()), scode_s(&x.error_code)],
        L::JobE(x) => vec![n(x.flags.bits()), scode_s(&x.error_code)],
        L::Chg(x) => vec![n(x.channel_id)],
        L::Std(x) => vec![n(x.request_id), sv(&x.user_identity.data), n(x.nominal_hash_rate.to_bits()), b(&x.max_target.0)],
        L::StdOk(x) => vec![n(x.request_id), n(x.channel_id), b(&x.target.0), b(&x.extranonce_prefix.data), n(x.group_channel_id)],
        L::StdErr(x) => vec![n(x.request_id), ocode_s(&x.error_code)],
        L::Ext(x) => vec![
            n(x.request_id), sv(&x.user_identity.data), n(x.nominal_hash_rate.to_bits()), b(&x.max_target.0), n(x.min_extranonce_size),
        ],
        L::ExtOk(x) => vec![n(x.request_id), n(x.channel_id), b(&x.target.0), n(x.extranonce_size), b(&x.extranonce_prefix.data)],
        L::ExtErr(x) => vec![n(x.request_id), ocode_s(&x.error_code)],
        L::Upd(x) => vec![n(x.channel_id), n(x.nominal_hash_rate.to_bits()), b(&x.max_target.0)],
        L::SigM(x) => vec![n(x.version), n(x.valid_from), n(x.not_valid_after), b(&x.signature.to_bytes())],
        L::Cert(v, f, u, k) => vec![n(*v), n(*f), n(*u), b(&k.as_bytes())],
        L::Bool(x) => vec![n(*x as u8)],
        L::U8(x) => vec![n(*x)],
        L::U16(x) => vec![n(*x)],
        L::U32(x) => vec![n(*x)],
        L::F32(x) => vec![n(x.to_bits())],
        L::U24(x) => vec![n(x.0)],
        L::U256(x) => vec![b(&x.0)],
        L::S32(x) => vec![sv(&x.data)],
        L::S255(x) => vec![sv(&x.data)],
        L::B31(x) => vec![b(&x.data)],
        L::B32(x) => vec![b(&x.data)],
        L::B255(x) => vec![b(&x.data)],
        L::B64(x) => vec![b(&x.data)],
        L::B16(x) => vec![b(&x.data)],
        L::Proto(x) => vec![pn(x)],
        L::MF(x) => vec![n(x.bits())],
        L::JF(x) => vec![n(x.bits())],
        L::MSF(x) => vec![n(x.bits())],
        L::JSF(x) => vec![n(x.bits())],
        L::SCode(x) => vec![scode_s(x)],
        L::OCode(x) => vec![ocode_s(x)],
        L::Sig(x) => vec![b(&x.to_bytes())],
        L::Pub(x) => vec![b(&x.as_bytes())],
    }
}

/// The type numbers the library gives to each of its named message types.
pub fn named_types() -> Vec<(MessageType, u8, bool)> {
    use MessageType::*;
    vec![
        (SetupConnection, 0x00, false),
        (SetupConnectionSuccess, 0x01, false),
        (SetupConnectionError, 0x02, false),
        (ChannelEndpointChanged, 0x03, true),
        (OpenStandardMiningChannel, 0x10, false),
        (OpenStandardMiningChannelSuccess, 0x11, false),
        (OpenStandardMiningChannelError, 0x12, false),
        (OpenExtendedMiningChannel, 0x13, false),
        (OpenExtendedMiningChannelSuccess, 0x14, false),
        (OpenExtendedMiningChannelError, 0x15, false),
        (UpdateChannel, 0x16, true),
        (UpdateChannelError, 0x17, true),
        (CloseChannel, 0x18, true),
        (SetExtranoncePrefix, 0x19, true),
        (SubmitSharesStandard, 0x1a, true),
        (SubmitSharesExtended, 0x1b, true),
        (SubmitSharesSuccess, 0x1c, true),
        (SubmitSharesError, 0x1d, true),
        (NewMiningJob, 0x1e, true),
        (NewExtendedMiningJob, 0x1f, true),
        (SetNewPrevHash, 0x20, true),
        (SetTarget, 0x21, true),
        (SetCustomMiningJob, 0x22, false),
        (SetCustomMiningJobSuccess, 0x23, false),
        (SetCustomMiningJobError, 0x24, false),
        (Reconnect, 0x25, false),
        (SetGroupChannel, 0x26, false),
    ]
}
