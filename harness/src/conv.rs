//! Binding between the model's abstract values and the crate's public types.
use crate::refm::*;
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, Eos, SizedEncode};
use std::fmt::Debug;
use std::time::Duration;
use stun_codec::{
    define_attribute_enums, rfc5245, rfc5389, rfc5766, rfc5780, Attribute, AttributeType, BrokenMessage, Message,
    MessageClass, MessageDecoder, MessageEncoder, Method, RawAttribute, TransactionId,
};

pub use stun_codec::rfc5245::attributes::*;
pub use stun_codec::rfc5389::attributes::*;
pub use stun_codec::rfc5766::attributes::*;
pub use stun_codec::rfc5780::attributes::*;
pub use stun_codec::rfc8016::attributes::*;
pub use stun_codec::rfc8656::attributes::*;

pub trait View: Attribute + Debug {
    const CP: u16;
    fn view(&self) -> Val;
    /// Through the public constructor; None if it refuses.
    fn make(v: &Val) -> Option<Self>;
}
macro_rules! view {
    ($t:ident, $pat:pat => $mk:expr, |$s:ident| $view:expr) => {
        impl View for $t {
            const CP: u16 = $t::CODEPOINT;
            fn view(&self) -> Val {
                let $s = self;
                $view
            }
            fn make(v: &Val) -> Option<Self> {
                match v {
                    $pat => $mk,
                    _ => None,
                }
            }
        }
    };
}
view!(MappedAddress, Val::Addr(a) => Some(MappedAddress::new(*a)), |s| Val::Addr(s.address()));
view!(AlternateServer, Val::Addr(a) => Some(AlternateServer::new(*a)), |s| Val::Addr(s.address()));
view!(XorMappedAddress, Val::Addr(a) => Some(XorMappedAddress::new(*a)), |s| Val::Addr(s.address()));
view!(XorMappedAddress2, Val::Addr(a) => Some(XorMappedAddress2::new(*a)), |s| Val::Addr(s.address()));
view!(XorPeerAddress, Val::Addr(a) => Some(XorPeerAddress::new(*a)), |s| Val::Addr(s.address()));
view!(XorRelayAddress, Val::Addr(a) => Some(XorRelayAddress::new(*a)), |s| Val::Addr(s.address()));
view!(ResponseOrigin, Val::Addr(a) => Some(ResponseOrigin::new(*a)), |s| Val::Addr(s.address()));
view!(OtherAddress, Val::Addr(a) => Some(OtherAddress::new(*a)), |s| Val::Addr(s.address()));
view!(Username, Val::Str(t) => Username::new(t.clone()).ok(), |s| Val::Str(s.name().to_string()));
view!(Realm, Val::Str(t) => Realm::new(t.clone()).ok(), |s| Val::Str(s.text().to_string()));
view!(Nonce, Val::Str(t) => Nonce::new(t.clone()).ok(), |s| Val::Str(s.value().to_string()));
view!(Software, Val::Str(t) => Software::new(t.clone()).ok(), |s| Val::Str(s.description().to_string()));
view!(ErrorCode, Val::Err(c, r) => ErrorCode::new(*c, r.clone()).ok(), |s| Val::Err(s.code(), s.reason_phrase().to_string()));
view!(UnknownAttributes, Val::Types(t) => Some(UnknownAttributes::new(t.iter().map(|x| AttributeType::new(*x)).collect())),
      |s| Val::Types(s.unknowns().iter().map(|x| x.as_u16()).collect()));
// Arbitrary digest values can only be had through the public value decoders.
view!(Fingerprint, Val::U(x) => FingerprintDecoder::new().decode_from_bytes(&(*x as u32).to_be_bytes()).ok(), |s| Val::U(s.crc32() as u64));
view!(MessageIntegrity, Val::Bytes(b) => MessageIntegrityDecoder::new().decode_from_bytes(b).ok(), |s| Val::Bytes(s.hmac_sha1().to_vec()));
view!(ChannelNumber, Val::U(x) => ChannelNumber::new(*x as u16).ok(), |s| Val::U(s.value() as u64));
view!(Lifetime, Val::U(x) => Lifetime::new(Duration::from_secs(*x)).ok(), |s| Val::U(s.lifetime().as_secs()));
view!(Data, Val::Bytes(b) => Data::new(b.clone()).ok(), |s| Val::Bytes(s.data().to_vec()));
view!(MobilityTicket, Val::Bytes(b) => MobilityTicket::new(b.clone()).ok(), |s| Val::Bytes(s.data().to_vec()));
view!(EvenPort, Val::U(x) => Some(EvenPort::new(*x != 0)), |s| Val::U(s.is_requested() as u64));
view!(RequestedTransport, Val::U(x) => Some(RequestedTransport::new(*x as u8)), |s| Val::U(s.protocol() as u64));
view!(DontFragment, Val::Unit => Some(DontFragment), |_s| Val::Unit);
view!(ReservationToken, Val::U(x) => Some(ReservationToken::new(*x)), |s| Val::U(s.token()));
view!(Priority, Val::U(x) => Some(Priority::new(*x as u32)), |s| Val::U(s.prio() as u64));
view!(UseCandidate, Val::Unit => Some(UseCandidate::new()), |_s| Val::Unit);
view!(IceControlled, Val::U(x) => Some(IceControlled::new(*x)), |s| Val::U(s.prio()));
view!(IceControlling, Val::U(x) => Some(IceControlling::new(*x)), |s| Val::U(s.prio()));
view!(ChangeRequest, Val::Flags(a, b) => Some(ChangeRequest::new(*a, *b)), |s| Val::Flags(s.ip(), s.port()));
view!(ResponsePort, Val::U(x) => Some(ResponsePort::new(*x as u16)), |s| Val::U(s.port() as u64));
fn fam(x: u64) -> Option<AddressFamily> {
    match x {
        1 => Some(AddressFamily::V4),
        2 => Some(AddressFamily::V6),
        _ => None,
    }
}
fn unfam(f: AddressFamily) -> u64 {
    match f {
        AddressFamily::V4 => 1,
        AddressFamily::V6 => 2,
    }
}
view!(RequestedAddressFamily, Val::U(x) => fam(*x).map(RequestedAddressFamily::new), |s| Val::U(unfam(s.address_family())));
view!(AdditionalAddressFamily, Val::U(x) => fam(*x).map(AdditionalAddressFamily::new), |s| Val::U(unfam(s.address_family())));

/// Calls `$m!(Type)` arguments for all 32 attribute types.
#[macro_export]
macro_rules! for_all_attrs {
    ($m:ident) => {
        $m!(
            MappedAddress, ChangeRequest, Username, MessageIntegrity, ErrorCode, UnknownAttributes, ChannelNumber,
            Lifetime, XorPeerAddress, Data, Realm, Nonce, XorRelayAddress, RequestedAddressFamily, EvenPort,
            RequestedTransport, DontFragment, XorMappedAddress, ReservationToken, Priority, UseCandidate,
            ResponsePort, AdditionalAddressFamily, XorMappedAddress2, Software, AlternateServer, Fingerprint,
            IceControlled, IceControlling, ResponseOrigin, OtherAddress, MobilityTicket
        );
    };
}

/// A set of attribute types a decoder is instantiated with.
pub trait AttrSet: Attribute + Debug + 'static {
    fn cps() -> Vec<u16>;
    fn cv(&self) -> (u16, Val);
    fn make(cp: u16, v: &Val) -> Option<Self>;
    /// What conversion to a reference of each type of the set yields.
    fn refs(&self) -> Vec<(u16, Option<Val>)> {
        vec![]
    }
    fn integrity(&self) -> Option<&MessageIntegrity> {
        None
    }
}
#[macro_export]
macro_rules! impl_set {
    ($e:ty, $en:ident, [$($t:ident),*] $(, |$s:ident| $mi:expr)?) => {
        impl $crate::conv::AttrSet for $e {
            fn cps() -> Vec<u16> {
                vec![$(<$t as $crate::conv::View>::CP),*]
            }
            fn cv(&self) -> (u16, $crate::refm::Val) {
                match self {
                    $($en::$t(a) => (<$t as $crate::conv::View>::CP, $crate::conv::View::view(a))),*
                }
            }
            fn make(cp: u16, v: &$crate::refm::Val) -> Option<Self> {
                match cp {
                    $(<$t as $crate::conv::View>::CP => <$t as $crate::conv::View>::make(v).map(|a| a.into()),)*
                    _ => None,
                }
            }
            fn refs(&self) -> Vec<(u16, Option<$crate::refm::Val>)> {
                use stun_codec::convert::TryAsRef;
                vec![$((
                    <$t as $crate::conv::View>::CP,
                    <$e as TryAsRef<$t>>::try_as_ref(self).map(|a| $crate::conv::View::view(a)),
                )),*]
            }
            $(fn integrity(&self) -> Option<&$crate::conv::MessageIntegrity> {
                let $s = self;
                $mi
            })?
        }
    };
}
/// Conversions of an enum which may lack a variant: what does not exist yields None, so that a
/// wrongly composed predefined enum is seen by the checks and not by the compiler.
pub struct Probe<T, E>(pub std::marker::PhantomData<(T, E)>);
pub trait Has<T, E> {
    fn wrap(&self, t: T) -> Option<E>;
    fn peek<'a>(&self, e: &'a E) -> Option<&'a T>;
}
impl<T, E: From<T> + stun_codec::convert::TryAsRef<T>> Has<T, E> for Probe<T, E> {
    fn wrap(&self, t: T) -> Option<E> {
        Some(t.into())
    }
    fn peek<'a>(&self, e: &'a E) -> Option<&'a T> {
        e.try_as_ref()
    }
}
pub trait Lacks<T, E> {
    fn wrap(&self, _: T) -> Option<E>;
    fn peek<'a>(&self, _: &'a E) -> Option<&'a T>;
}
impl<T, E> Lacks<T, E> for &Probe<T, E> {
    fn wrap(&self, _: T) -> Option<E> {
        None
    }
    fn peek<'a>(&self, _: &'a E) -> Option<&'a T> {
        None
    }
}
macro_rules! impl_predefined {
    ($e:ty, [$($t:ident),*]) => {
        impl AttrSet for $e {
            fn cps() -> Vec<u16> {
                vec![$($t::CP),*]
            }
            fn cv(&self) -> (u16, Val) {
                $(if let Some(a) = (&Probe::<$t, $e>(std::marker::PhantomData)).peek(self) {
                    return ($t::CP, a.view());
                })*
                // no variant that the documentation lists
                (self.get_type().as_u16(), Val::Str(format!("undocumented {:?}", self)))
            }
            fn make(cp: u16, v: &Val) -> Option<Self> {
                match cp {
                    $($t::CP => <$t as View>::make(v).and_then(|a| (&Probe::<$t, $e>(std::marker::PhantomData)).wrap(a)),)*
                    _ => None,
                }
            }
            fn refs(&self) -> Vec<(u16, Option<Val>)> {
                vec![$(($t::CP, (&Probe::<$t, $e>(std::marker::PhantomData)).peek(self).map(|a| a.view()))),*]
            }
            fn integrity(&self) -> Option<&MessageIntegrity> {
                (&Probe::<MessageIntegrity, $e>(std::marker::PhantomData)).peek(self)
            }
        }
    };
}
macro_rules! def_all {
    ($($t:ident),*) => {
        define_attribute_enums!(All, AllDecoder, AllEncoder, [$($t),*]);
        impl_set!(All, All, [$($t),*], |s| stun_codec::convert::TryAsRef::try_as_ref(s));
    };
}
for_all_attrs!(def_all);
// every attribute type is also a set of its own
macro_rules! bare_sets {
    ($($t:ident),*) => {
        $(impl AttrSet for $t {
            fn cps() -> Vec<u16> {
                vec![$t::CP]
            }
            fn cv(&self) -> (u16, Val) {
                ($t::CP, self.view())
            }
            fn make(cp: u16, v: &Val) -> Option<Self> {
                if cp == $t::CP { <$t as View>::make(v) } else { None }
            }
        })*
    };
}
for_all_attrs!(bare_sets);

pub use rfc5245::Attribute as A5245;
pub use rfc5389::Attribute as A5389;
pub use rfc5766::Attribute as A5766;
pub use rfc5780::Attribute as A5780;
impl_predefined!(A5389, [
    MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress,
    XorMappedAddress2, Software, AlternateServer, Fingerprint
]);
impl_predefined!(A5766, [
    ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport, DontFragment,
    ReservationToken
]);
impl_predefined!(A5245, [Priority, UseCandidate, IceControlled, IceControlling]);
impl_predefined!(A5780, [ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress]);

// ---------------------------------------------------------------- messages
pub fn class(c: u8) -> MessageClass {
    match c {
        0 => MessageClass::Request,
        1 => MessageClass::Indication,
        2 => MessageClass::SuccessResponse,
        _ => MessageClass::ErrorResponse,
    }
}
pub fn unclass(c: MessageClass) -> u8 {
    match c {
        MessageClass::Request => 0,
        MessageClass::Indication => 1,
        MessageClass::SuccessResponse => 2,
        MessageClass::ErrorResponse => 3,
    }
}
/// Builds the message through the public API; Err names what was refused.
pub fn build<S: AttrSet>(m: &MMsg) -> Result<Message<S>, String> {
    let method = Method::new(m.method).map_err(|e| format!("Method::new({}): {}", m.method, e))?;
    let mut msg = Message::new(class(m.class), method, TransactionId::new(m.tid));
    for a in &m.attrs {
        match &a.body {
            Body::Known(v) => match S::make(a.cp, v) {
                Some(x) => msg.add_attribute(x),
                None => return Err(format!("constructor of {} refuses {:?}", name_of(a.cp), v)),
            },
            Body::Raw(_) => return Err("raw attributes cannot be added to a typed message".into()),
        }
    }
    Ok(msg)
}
pub fn build_raw(m: &MMsg) -> Message<RawAttribute> {
    let mut msg = Message::new(class(m.class), Method::new(m.method).expect("method below 0x1000"), TransactionId::new(m.tid));
    for a in &m.attrs {
        msg.add_attribute(RawAttribute::new(AttributeType::new(a.cp), a.value_bytes(&m.tid)));
    }
    msg
}
/// What a user can observe of a message.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Seen {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub known: Vec<(u16, Val)>,
    pub unknown: Vec<(u16, Vec<u8>)>,
}
pub fn see<S: AttrSet>(m: &Message<S>) -> Seen {
    Seen {
        class: unclass(m.class()),
        method: m.method().as_u16(),
        tid: *m.transaction_id().as_bytes(),
        known: m.attributes().map(|a| a.cv()).collect(),
        unknown: m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect(),
    }
}
pub fn expect(m: &MMsg) -> Seen {
    let mut s = Seen { class: m.class, method: m.method, tid: m.tid, known: vec![], unknown: vec![] };
    for a in &m.attrs {
        match &a.body {
            Body::Known(v) => s.known.push((a.cp, v.clone())),
            Body::Raw(b) => s.unknown.push((a.cp, b.clone())),
        }
    }
    s
}
/// Observable outcome of one decode attempt.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Obs {
    Reject,
    Broken { class: u8, method: u16, tid: [u8; 12] },
    Ok(Seen),
    /// all bytes were taken and more are needed (only without end of stream)
    More,
    /// the decoder made no progress, consumed too much, or was idle at the wrong time
    Stuck(String),
}
impl Obs {
    pub fn kind(&self) -> &'static str {
        match self {
            Obs::Reject => "rejected",
            Obs::Broken { .. } => "broken",
            Obs::Ok(_) => "ok",
            Obs::More => "unfinished",
            Obs::Stuck(_) => "stuck",
        }
    }
}
pub fn want(o: &Out) -> Obs {
    match o {
        Out::Reject | Out::Short { .. } => Obs::Reject,
        Out::Broken { class, method, tid } => Obs::Broken { class: *class, method: *method, tid: *tid },
        Out::Ok(m) => Obs::Ok(expect(m)),
    }
}
/// Does the observation agree with the model? A message cut off by the end of the stream
/// may be refused or reported broken, but never completed.
pub fn agrees(obs: &Obs, out: &Out) -> bool {
    match out {
        Out::Short { class, method, tid } => *obs == Obs::Reject || *obs == Obs::Broken { class: *class, method: *method, tid: *tid },
        o => *obs == want(o),
    }
}
pub fn broken_obs(b: &BrokenMessage) -> Obs {
    Obs::Broken { class: unclass(b.class()), method: b.method().as_u16(), tid: *b.transaction_id().as_bytes() }
}
/// Finishes a decode attempt whose bytes have all been consumed.
pub fn finish<S: AttrSet>(d: &mut MessageDecoder<S>) -> (Obs, Option<Message<S>>) {
    match d.finish_decoding() {
        Err(_) => (Obs::Reject, None),
        Ok(Err(b)) => (broken_obs(&b), None),
        Ok(Ok(m)) => (Obs::Ok(see(&m)), Some(m)),
    }
}
/// Feeds `bytes` at once with end-of-stream behind them.
pub fn feed_whole<S: AttrSet>(d: &mut MessageDecoder<S>, bytes: &[u8]) -> (Obs, Option<Message<S>>, usize) {
    let cuts: [usize; 0] = [];
    let r = feed(d, bytes, &cuts, true);
    (r.obs, r.msg, r.consumed)
}
pub struct Fed<S: Attribute> {
    pub obs: Obs,
    pub msg: Option<Message<S>>,
    pub consumed: usize,
    pub calls: u64,
}
/// Feeds `bytes` in fragments ending at `cuts` (ascending, may repeat: empty fragments)
/// and at the end; `eos` marks the last fragment as end of stream.
pub fn feed<S: AttrSet>(d: &mut MessageDecoder<S>, bytes: &[u8], cuts: &[usize], eos: bool) -> Fed<S> {
    feed_eos(d, bytes, cuts, eos, &|last, _| Eos::new(eos && last))
}
/// The same where each call tells how many bytes are left in the stream.
pub fn feed_known<S: AttrSet>(d: &mut MessageDecoder<S>, bytes: &[u8], cuts: &[usize]) -> Fed<S> {
    feed_eos(d, bytes, cuts, true, &|_, left| Eos::with_remaining_bytes(bytecodec::ByteCount::Finite(left as u64)))
}
/// `tell(last fragment, bytes behind this one)`: what each call is told about the end of the stream.
fn feed_eos<S: AttrSet>(d: &mut MessageDecoder<S>, bytes: &[u8], cuts: &[usize], eos: bool, tell: &dyn Fn(bool, usize) -> Eos) -> Fed<S> {
    let mut consumed = 0;
    let mut calls = 0;
    let stuck = |s: String, consumed, calls| Fed { obs: Obs::Stuck(s), msg: None, consumed, calls };
    let mut start = 0;
    for i in 0..=cuts.len() {
        let end = if i < cuts.len() { cuts[i] } else { bytes.len() };
        let last = i == cuts.len();
        debug_assert!(start <= end);
        let mut first = true;
        // the decoder may take the fragment in several bites
        while first || consumed < end {
            first = false;
            calls += 1;
            let chunk = &bytes[consumed..end];
            let n = match d.decode(chunk, tell(last, bytes.len() - end)) {
                Ok(n) => n,
                Err(_) => return Fed { obs: Obs::Reject, msg: None, consumed, calls },
            };
            if n > chunk.len() {
                return stuck(format!("decode of {} bytes reports {} consumed", chunk.len(), n), consumed, calls);
            }
            consumed += n;
            if d.is_idle() {
                let (obs, msg) = finish(d);
                return Fed { obs, msg, consumed, calls: calls + 1 };
            }
            if n == 0 && !chunk.is_empty() {
                return stuck(format!("no progress at byte {}", consumed), consumed, calls);
            }
        }
        start = end;
    }
    if !eos {
        return Fed { obs: Obs::More, msg: None, consumed, calls };
    }
    // What DecodeExt::decode_from_bytes does with a decoder that is not idle at the end.
    let (obs, msg) = finish(d);
    Fed { obs, msg, consumed, calls: calls + 1 }
}
pub fn encode<S: Attribute>(m: Message<S>) -> Result<Vec<u8>, bytecodec::Error> {
    MessageEncoder::<S>::new().encode_into_bytes(m)
}
/// Drains an encoder with the given buffer sizes (cycled); returns bytes or an error text.
pub fn drain<E: Encode + SizedEncode>(e: &mut E, sizes: &[usize], limit: usize, calls: &mut u64) -> Result<Vec<u8>, String> {
    drain_with(e, sizes, limit, calls, false)
}
/// As `drain`, but an encoder that announced an empty item may become idle only with its first `encode` call
/// (what the byte-string encoders of bytecodec do).
pub fn drain_value<E: Encode + SizedEncode>(e: &mut E, sizes: &[usize], limit: usize, calls: &mut u64) -> Result<Vec<u8>, String> {
    drain_with(e, sizes, limit, calls, true)
}
fn drain_with<E: Encode + SizedEncode>(e: &mut E, sizes: &[usize], limit: usize, calls: &mut u64, lazy: bool) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut left = e.exact_requiring_bytes();
    if left as usize > limit {
        return Err(format!("announces {} bytes, more than the {} expected", left, limit));
    }
    let mut i = 0;
    let mut zero = 0;
    if lazy && left == 0 && !e.is_idle() {
        let mut buf = [0xA5u8; 4];
        *calls += 1;
        let n = e.encode(&mut buf[..sizes[0].min(4)], Eos::new(false)).map_err(|x| format!("encode error of an empty value: {}", x))?;
        if n != 0 || buf != [0xA5u8; 4] {
            return Err(format!("announces nothing, but produces {} bytes", n));
        }
    }
    loop {
        if e.is_idle() != (left == 0) {
            return Err(format!("idle={} with {} bytes announced after {} bytes", e.is_idle(), left, out.len()));
        }
        if left == 0 {
            return Ok(out);
        }
        let size = sizes[i % sizes.len()];
        i += 1;
        let mut buf = vec![0xA5u8; size + 4];
        *calls += 1;
        let n = e.encode(&mut buf[..size], Eos::new(false)).map_err(|x| format!("encode error after {} bytes: {}", out.len(), x))?;
        if n > size {
            return Err(format!("reports {} bytes in a buffer of {}", n, size));
        }
        if buf[n..].iter().any(|b| *b != 0xA5) {
            return Err(format!("wrote beyond the {} bytes reported", n));
        }
        zero = if n == 0 { zero + 1 } else { 0 };
        if zero > sizes.len() + 2 {
            return Err(format!("no progress after {} bytes", out.len()));
        }
        out.extend_from_slice(&buf[..n]);
        let now = e.exact_requiring_bytes();
        if now + n as u64 != left {
            return Err(format!("announced {} bytes, produced {}, announces {} now", left, n, now));
        }
        left = now;
    }
}
