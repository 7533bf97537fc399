//! C18 attribute sets, C21 assigned numbers and names, C22 conversion and formatting of errors, C23 responses.
use crate::conv::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_attr::{feed_value, fixed_len, plain, real_vals};
use crate::refm::*;
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};

use std::hash::Hash;
use stun_codec::{
    rfc5245, rfc5389, rfc5766, rfc8016, rfc8656, Attribute, AttributeType, Message, MessageDecoder, MessageEncoder, Method,
    RawAttribute, TransactionId,
};

// ---------------------------------------------------------------- C18
/// One step of a history of an enum decoder: a value of a type, its fragmentation, and how far it gets.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DStep {
    pub cp: u16,
    pub value: Vec<u8>,
    pub cuts: Vec<usize>,
    /// fed only so many bytes and abandoned
    pub stop: Option<usize>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum DRes {
    Unknown,
    Refused,
    Value(u16, u16, Val),
    Abandoned,
    Bad(String),
}
pub struct SetOps {
    pub name: &'static str,
    pub cps: Vec<u16>,
    pub start: fn(u16) -> DRes,
    pub dec: fn(&[DStep], &mut u64) -> Vec<DRes>,
    /// encodes values with one encoder: (type, value, buffer sizes, try to start this type's typical value after k bytes)
    pub enc: fn(&[(u16, Val, Vec<usize>, Option<(usize, u16)>)], &mut u64) -> std::result::Result<Vec<(u16, Vec<u8>)>, String>,
    pub refs: fn(u16, &Val) -> Option<((u16, Val), Vec<(u16, Option<Val>)>)>,
    pub msg: fn(&[u8]) -> (Obs, usize),
    pub emit: fn(&MMsg) -> std::result::Result<Vec<u8>, String>,
}
fn start_on<S: AttrSet>(cp: u16) -> DRes {
    let mut d = S::Decoder::default();
    match d.try_start_decoding(AttributeType::new(cp)) {
        Ok(false) => {
            if d.is_idle() != S::Decoder::default().is_idle() {
                return DRes::Bad("no longer as new after an unknown type".into());
            }
            // still usable
            let k = S::cps()[0];
            match d.try_start_decoding(AttributeType::new(k)) {
                Ok(true) => DRes::Unknown,
                o => DRes::Bad(format!("after an unknown type, its own type gives {:?}", o)),
            }
        }
        Ok(true) => {
            let Some(k) = kind_of(cp) else { return DRes::Bad("accepts an unassigned type".into()) };
            let v = &real_vals(k)[0];
            let b = encode_value(plain(k), v, &TID);
            let mut calls = 0;
            match feed_value(&mut d, &b, &[], true, fixed_len(k, &b), &mut calls) {
                Ok(Ok(a)) => DRes::Value(a.get_type().as_u16(), a.cv().0, a.cv().1),
                Ok(Err(())) => DRes::Refused,
                Err(e) => DRes::Bad(e),
            }
        }
        Err(e) => DRes::Bad(e.to_string()),
    }
}
fn dec_on<S: AttrSet>(h: &[DStep], calls: &mut u64) -> Vec<DRes> {
    let mut d = S::Decoder::default();
    let mut out = vec![];
    for s in h {
        *calls += 1;
        out.push(match d.try_start_decoding(AttributeType::new(s.cp)) {
            Ok(false) => DRes::Unknown,
            Err(e) => DRes::Bad(e.to_string()),
            Ok(true) => {
                let k = kind_of(s.cp).unwrap_or(Kind::Bytes);
                if let Some(n) = s.stop {
                    *calls += 1;
                    match d.decode(&s.value[..n], Eos::new(false)) {
                        Ok(m) if m <= n => DRes::Abandoned,
                        Ok(m) => DRes::Bad(format!("consumes {} of {}", m, n)),
                        Err(_) => DRes::Refused,
                    }
                } else if fixed_len(k, &s.value).map_or(false, |f| f != s.value.len()) {
                    // a value of the wrong length: it must not be taken as a whole
                    *calls += 1;
                    match d.decode(&s.value, Eos::new(true)) {
                        Ok(n) if n == s.value.len() && d.is_idle() => match d.finish_decoding() {
                            Ok(a) => DRes::Value(a.get_type().as_u16(), a.cv().0, a.cv().1),
                            Err(_) => DRes::Refused,
                        },
                        Ok(n) if n > s.value.len() => DRes::Bad(format!("consumes {} of {}", n, s.value.len())),
                        _ => DRes::Refused,
                    }
                } else {
                    match feed_value(&mut d, &s.value, &s.cuts, true, fixed_len(k, &s.value), calls) {
                        Ok(Ok(a)) => {
                            if d.is_idle() != S::Decoder::default().is_idle() {
                                DRes::Bad("not as new after a value".into())
                            } else {
                                DRes::Value(a.get_type().as_u16(), a.cv().0, a.cv().1)
                            }
                        }
                        Ok(Err(())) => DRes::Refused,
                        Err(e) => DRes::Bad(e),
                    }
                }
            }
        });
    }
    out
}
fn enc_on<S: AttrSet>(h: &[(u16, Val, Vec<usize>, Option<(usize, u16)>)], calls: &mut u64) -> std::result::Result<Vec<(u16, Vec<u8>)>, String> {
    let mut e = S::Encoder::default();
    let mut out = vec![];
    if !e.is_idle() || e.exact_requiring_bytes() != 0 {
        return Err("a new encoder is not idle".into());
    }
    for (cp, v, sizes, intrude) in h {
        let a = S::make(*cp, v).ok_or_else(|| format!("{} refused", name_of(*cp)))?;
        let t = a.get_type().as_u16();
        if !e.is_idle() {
            return Err("not idle before a value".into());
        }
        e.start_encoding(a).map_err(|e| e.to_string())?;
        let mut head = vec![];
        if let Some((at, other)) = intrude {
            head = vec![0; *at];
            *calls += 2;
            if e.encode(&mut head, Eos::new(false)).map_err(|e| e.to_string())? != *at {
                return Err("short".into());
            }
            let o = S::make(*other, &real_vals(kind_of(*other).unwrap())[0]).ok_or("refused")?;
            if e.start_encoding(o).is_ok() {
                return Err(format!("accepts {} while {} is being drained", name_of(*other), name_of(*cp)));
            }
        }
        head.extend(drain_value(&mut e, sizes, 1 << 17, calls)?);
        out.push((t, head));
    }
    Ok(out)
}
pub fn ops<S: AttrSet>(name: &'static str) -> SetOps {
    SetOps {
        name,
        cps: S::cps(),
        start: start_on::<S>,
        dec: dec_on::<S>,
        enc: enc_on::<S>,
        refs: |cp, v| S::make(cp, v).map(|a| (a.cv(), a.refs())),
        msg: |b| {
            let (o, _, n) = feed_whole(&mut MessageDecoder::<S>::new(), b);
            (o, n)
        },
        emit: |m| {
            let msg = build::<S>(m)?;
            MessageEncoder::<S>::new().encode_into_bytes(msg).map_err(|e| e.to_string())
        },
    }
}
macro_rules! bare_ops {
    ($($t:ident),*) => {
        fn bare() -> Vec<SetOps> {
            vec![$(ops::<$t>(concat!("bare ", stringify!($t)))),*]
        }
    };
}
for_all_attrs!(bare_ops);

/// Hand-written union of two predefined enums, as the crate documents for its own use.
#[derive(Debug, Clone)]
pub enum Two {
    A(A5389),
    B(A5766),
}
#[derive(Default)]
pub struct TwoDecoder {
    a: <A5389 as Attribute>::Decoder,
    b: <A5766 as Attribute>::Decoder,
    which: u8,
}
#[derive(Default)]
pub struct TwoEncoder {
    a: <A5389 as Attribute>::Encoder,
    b: <A5766 as Attribute>::Encoder,
}
impl Attribute for Two {
    type Decoder = TwoDecoder;
    type Encoder = TwoEncoder;
    fn get_type(&self) -> AttributeType {
        match self {
            Two::A(x) => x.get_type(),
            Two::B(x) => x.get_type(),
        }
    }
    fn before_encode<X: Attribute>(&mut self, m: &Message<X>) -> Result<()> {
        match self {
            Two::A(x) => x.before_encode(m),
            Two::B(x) => x.before_encode(m),
        }
    }
    fn after_decode<X: Attribute>(&mut self, m: &Message<X>) -> Result<()> {
        match self {
            Two::A(x) => x.after_decode(m),
            Two::B(x) => x.after_decode(m),
        }
    }
}
impl TryTaggedDecode for TwoDecoder {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
        self.which = 0;
        if self.a.try_start_decoding(t)? {
            self.which = 1;
        } else if self.b.try_start_decoding(t)? {
            self.which = 2;
        }
        Ok(self.which != 0)
    }
}
impl Decode for TwoDecoder {
    type Item = Two;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        match self.which {
            1 => self.a.decode(buf, eos),
            _ => self.b.decode(buf, eos),
        }
    }
    fn finish_decoding(&mut self) -> Result<Two> {
        match std::mem::take(&mut self.which) {
            1 => self.a.finish_decoding().map(Two::A),
            _ => self.b.finish_decoding().map(Two::B),
        }
    }
    fn requiring_bytes(&self) -> ByteCount {
        match self.which {
            0 => ByteCount::Finite(0),
            1 => self.a.requiring_bytes(),
            _ => self.b.requiring_bytes(),
        }
    }
    fn is_idle(&self) -> bool {
        match self.which {
            0 => true,
            1 => self.a.is_idle(),
            _ => self.b.is_idle(),
        }
    }
}
impl Encode for TwoEncoder {
    type Item = Two;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        // both parts are asked in turn, the idle one has nothing to add
        let n = self.a.encode(buf, eos)?;
        if !self.a.is_idle() {
            return Ok(n);
        }
        Ok(n + self.b.encode(&mut buf[n..], eos)?)
    }
    fn start_encoding(&mut self, item: Two) -> Result<()> {
        if !self.is_idle() {
            return Err(ErrorKind::EncoderFull.into());
        }
        match item {
            Two::A(x) => self.a.start_encoding(x),
            Two::B(x) => self.b.start_encoding(x),
        }
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.exact_requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.a.is_idle() && self.b.is_idle()
    }
}
impl SizedEncode for TwoEncoder {
    fn exact_requiring_bytes(&self) -> u64 {
        self.a.exact_requiring_bytes() + self.b.exact_requiring_bytes()
    }
}
impl AttrSet for Two {
    fn cps() -> Vec<u16> {
        [RFC5389.to_vec(), RFC5766.to_vec()].concat()
    }
    fn cv(&self) -> (u16, Val) {
        match self {
            Two::A(x) => x.cv(),
            Two::B(x) => x.cv(),
        }
    }
    fn make(cp: u16, v: &Val) -> Option<Self> {
        A5389::make(cp, v).map(Two::A).or_else(|| A5766::make(cp, v).map(Two::B))
    }
}
fn enums() -> Vec<SetOps> {
    let mut v = vec![ops::<A5389>("rfc5389"), ops::<A5766>("rfc5766"), ops::<A5245>("rfc5245"), ops::<A5780>("rfc5780"), ops::<All>("all 32")];
    v.extend(crate::sets_gen::generated());
    v
}
/// Members of the predefined enums according to the RFCs, and what the configuration says for the others.
fn documented(s: &SetOps) -> Vec<u16> {
    match s.name {
        "rfc5389" => RFC5389.to_vec(),
        "rfc5766" => RFC5766.to_vec(),
        "rfc5245" => RFC5245.to_vec(),
        "rfc5780" => RFC5780.to_vec(),
        _ => s.cps.clone(),
    }
}
fn judge(set: &[u16], h: &[DStep]) -> Vec<DRes> {
    h.iter()
        .map(|s| {
            if !set.contains(&s.cp) {
                return DRes::Unknown;
            }
            if s.stop.is_some() {
                return DRes::Abandoned;
            }
            match decode_value(plain(kind_of(s.cp).unwrap()), &s.value, &TID) {
                Some(v) => DRes::Value(s.cp, s.cp, v),
                None => DRes::Refused,
            }
        })
        .collect()
}
fn history(c: &mut Case, s: &SetOps, set: &[u16], h: &[DStep]) {
    c.state(&(s.name, h));
    c.sample(|| short(&format!("{}: {:?}", s.name, h)));
    let mut calls = 0;
    let got = (s.dec)(h, &mut calls);
    c.op(calls);
    let mut want = judge(set, h);
    // An abandoned value may be refused early, if what was seen of it is already wrong.
    for (g, w) in got.iter().zip(want.iter_mut()) {
        if *w == DRes::Abandoned && *g == DRes::Refused {
            *w = DRes::Refused;
        }
    }
    c.eq("decoder", || format!("{}: {:?}", s.name, h), &got, &want);
}
/// Calls on a decoder: (bytes, end of stream); usize::MAX - k: all but k of the rest; the last one is finish_decoding.
const LOCK_D: [(usize, bool); 11] = [(0, false), (1, false), (3, false), (4, false), (usize::MAX - 1, false), (usize::MAX, false), (0, true), (1, true), (usize::MAX - 1, true), (usize::MAX, true), (0, false)];
/// The decoder of the enum of all types and that of one type, called alike.
fn lock_dec<T: AttrSet>(c: &mut Case, wire: &[u8], ops: &[usize]) {
    let cp = T::cps()[0];
    let mut a = <All as Attribute>::Decoder::default();
    let mut b = T::Decoder::default();
    let t = AttributeType::new(cp);
    let say = |j: usize| format!("{} {}: {:?}", name_of(cp), hex(wire), ops[..=j].iter().map(|o| if *o == 10 { "finish".into() } else { format!("{:?}", LOCK_D[*o]) }).collect::<Vec<String>>());
    let r = (a.try_start_decoding(t).map_err(|e| *e.kind()), b.try_start_decoding(t).map_err(|e| *e.kind()));
    if !c.check("lockstep", r.0 == r.1, || format!("{}: start {:?}", name_of(cp), r)) {
        return;
    }
    let mut p = 0;
    for (j, o) in ops.iter().enumerate() {
        c.op(2);
        if *o == 10 {
            let r = (a.finish_decoding().map(|v| v.cv()).map_err(|e| *e.kind()), b.finish_decoding().map(|v| v.cv()).map_err(|e| *e.kind()));
            if !c.check("lockstep", r.0 == r.1, || format!("{}: the set gives {:?}, the type alone {:?}", say(j), r.0, r.1)) {
                return;
            }
            if r.0.is_ok() {
                c.outcome("finished");
                let end = (a.is_idle(), a.requiring_bytes() == ByteCount::Finite(0), a.finish_decoding().is_err());
                c.check("lockstep", end == (true, true, true), || format!("{}: afterwards idle, requiring nothing, nothing to finish: {:?}", say(j), end));
                return;
            }
        } else {
            let (n, eos) = LOCK_D[*o];
            let left = wire.len() - p;
            let n = if n > 1000 { left.saturating_sub(usize::MAX - n) } else { n.min(left) };
            let r = (a.decode(&wire[p..p + n], Eos::new(eos)).map_err(|e| *e.kind()), b.decode(&wire[p..p + n], Eos::new(eos)).map_err(|e| *e.kind()));
            if !c.check("lockstep", r.0 == r.1, || format!("{}: the set gives {:?}, the type alone {:?}", say(j), r.0, r.1)) {
                return;
            }
            match r.0 {
                Ok(n) => p += n,
                Err(_) => return c.outcome("refused"),
            }
        }
        let r = ((a.is_idle(), a.requiring_bytes()), (b.is_idle(), b.requiring_bytes()));
        if !c.check("lockstep", r.0 == r.1, || format!("{}: idle/requiring is {:?} for the set, {:?} for the type alone", say(j), r.0, r.1)) {
            return;
        }
    }
    c.outcome("unfinished");
}
/// Calls on an encoder: a buffer of so many bytes, end of stream; the last one is start_encoding.
const LOCK_E: [(usize, bool); 8] = [(0, false), (1, false), (3, false), (64, false), (0, true), (1, true), (64, true), (0, false)];
fn lock_enc<T: AttrSet>(c: &mut Case, v: &Val, ops: &[usize]) {
    let cp = T::cps()[0];
    let mut a = <All as Attribute>::Encoder::default();
    let mut b = T::Encoder::default();
    let say = |j: usize| format!("{} {:?}: {:?}", name_of(cp), v, ops[..=j].iter().map(|o| if *o == 7 { "start".into() } else { format!("{:?}", LOCK_E[*o]) }).collect::<Vec<String>>());
    for (j, o) in ops.iter().enumerate() {
        c.op(2);
        let (mut x, mut y) = ([0u8; 64], [0u8; 64]);
        let r = if *o == 7 {
            let (Some(va), Some(vb)) = (All::make(cp, v), T::make(cp, v)) else { return c.skip() };
            (a.start_encoding(va).map(|_| 0).map_err(|e| *e.kind()), b.start_encoding(vb).map(|_| 0).map_err(|e| *e.kind()))
        } else {
            let (n, eos) = LOCK_E[*o];
            (a.encode(&mut x[..n], Eos::new(eos)).map_err(|e| *e.kind()), b.encode(&mut y[..n], Eos::new(eos)).map_err(|e| *e.kind()))
        };
        let s = ((a.is_idle(), a.requiring_bytes(), a.exact_requiring_bytes()), (b.is_idle(), b.requiring_bytes(), b.exact_requiring_bytes()));
        if !c.check("lockstep", r.0 == r.1 && x == y && s.0 == s.1, || format!("{}: the set gives {:?} {} {:?}, the type alone {:?} {} {:?}", say(j), r.0, hex(&x), s.0, r.1, hex(&y), s.1)) {
            return;
        }
        // what an encoder does with a value it could not write is its own business
        if r.0.is_err() && *o != 7 {
            return c.outcome("refused");
        }
    }
    c.outcome("in step");
}
macro_rules! locks {
    ($($t:ident),*) => {
        fn locks() -> Vec<(u16, fn(&mut Case, &[u8], &[usize]), fn(&mut Case, &Val, &[usize]))> {
            vec![$((<$t as View>::CP, lock_dec::<$t> as fn(&mut Case, &[u8], &[usize]), lock_enc::<$t> as fn(&mut Case, &Val, &[usize]))),*]
        }
    };
}
for_all_attrs!(locks);
pub fn c18(x: &mut Ctx) {
    let en = enums();
    let mut sets = enums();
    sets.extend(bare());
    sets.push(ops::<Two>("hand-written union of rfc5389 and rfc5766"));
    let ns = sets.len();
    // membership
    x.space("types", &format!("{} attribute sets (4 predefined, all selections of 5 types, all orders of 4, all 32 in 4 orders, each type alone, a hand-written union) x all 65536 attribute types: decoder", ns), ns as u64 * 65536, |c, i| {
        let mut ix = Ix(i);
        let s = &sets[ix.take(ns)];
        let cp = ix.0 as u16;
        let set = documented(s);
        c.state(&i);
        c.op(2);
        c.sample(|| format!("{} type {:#06x}", s.name, cp));
        let want = if set.contains(&cp) { DRes::Value(cp, cp, real_vals(kind_of(cp).unwrap())[0].clone()) } else { DRes::Unknown };
        c.outcome(if want == DRes::Unknown { "unknown" } else { "known" });
        c.eq("member", || format!("{} type {:#06x}", s.name, cp), &(s.start)(cp), &want);
    });
    let few_sets: Vec<usize> = (0..ns).collect();
    let nf = few_sets.len();
    x.space("messages-types", &format!("{} sets x all 65536 attribute types in a received message, with a typical value or 3 bytes", nf), nf as u64 * 65536, |c, i| {
        let mut ix = Ix(i);
        let s = &sets[few_sets[ix.take(nf)]];
        let cp = ix.0 as u16;
        let b = wire_msg(1, &[(cp, typical(cp))]);
        message(c, s, &b);
    });
    // values through the enum = values alone
    let vals: Vec<(u16, Val)> = all_specs().flat_map(|s| real_vals(s.kind).into_iter().map(move |v| (s.cp, v))).collect();
    let nv = vals.len();
    x.space("values", &format!("{} sets x {} boundary values of all 32 types x 3 fragmentations: decoded and encoded through the set", ns, nv), (ns * nv * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let s = &sets[ix.take(ns)];
        let (cp, v) = &vals[ix.take(nv)];
        if !s.cps.contains(cp) {
            return c.skip();
        }
        let k = plain(kind_of(*cp).unwrap());
        let b = encode_value(k, v, &TID);
        let (cuts, sizes) = match ix.take(3) {
            0 => (vec![], vec![4096]),
            1 => ((1..b.len()).collect(), vec![1]),
            _ => (vec![0, b.len() / 2], vec![3, 0, 2]),
        };
        history(c, s, &s.cps, &[DStep { cp: *cp, value: b.clone(), cuts, stop: None }]);
        let mut calls = 0;
        let got = (s.enc)(&[(*cp, v.clone(), sizes, None)], &mut calls);
        c.op(calls);
        c.eq("encoder", || format!("{}: {} {:?}", s.name, name_of(*cp), v), &got, &Ok(vec![(*cp, b)]));
    });
    let w: Vec<(u16, Val)> = all_specs().filter(|s| !matches!(s.kind, Kind::Fp | Kind::Mi)).flat_map(|s| wide(s.kind).into_iter().map(move |v| (s.cp, v))).collect();
    let nw = w.len();
    x.space("wide-values", &format!("the 4 predefined sets and the hand-written union x {} values (complete or wide domains of each type): decoded and encoded through the set, one piece or bytewise", nw), 5 * nw as u64, |c, i| {
        let mut ix = Ix(i);
        let s = &sets[[0, 1, 2, 3, ns - 1][ix.take(5)]];
        let (cp, v) = &w[ix.take(nw)];
        if !s.cps.contains(cp) {
            return c.skip();
        }
        let b = encode_value(plain(kind_of(*cp).unwrap()), v, &TID);
        let (cuts, sizes) = if i / 5 % 2 == 0 { (vec![], vec![4096]) } else { ((1..b.len()).collect(), vec![1]) };
        history(c, s, &s.cps, &[DStep { cp: *cp, value: b.clone(), cuts, stop: None }]);
        let mut calls = 0;
        let got = (s.enc)(&[(*cp, v.clone(), sizes, None)], &mut calls);
        c.op(calls);
        c.eq("encoder", || format!("{}: {} {:?}", s.name, name_of(*cp), v), &got, &Ok(vec![(*cp, b)]));
    });
    x.space("malformed", &format!("{} sets x all 32 types x every length 0..=24 of 3 fillings: same verdict as the type alone", ns), (ns * 32 * 25 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let s = &sets[ix.take(ns)];
        let cp = SPEC[ix.take(32)].cp;
        let (n, fill) = (ix.take(25), [0u8, 0x41, 0xff][ix.take(3)]);
        if !s.cps.contains(&cp) {
            return c.skip();
        }
        history(c, s, &s.cps, &[DStep { cp, value: vec![fill; n], cuts: vec![], stop: None }]);
    });
    // conversions
    let ne = en.len();
    x.space("conversions", &format!("{} enums x {} values: From, then as_ref to every type of the enum", ne, nv), (ne * nv) as u64, |c, i| {
        let mut ix = Ix(i);
        let s = &en[ix.take(ne)];
        let (cp, v) = &vals[ix.take(nv)];
        if !s.cps.contains(cp) {
            return c.skip();
        }
        c.state(&(s.name, cp, v));
        c.op(1 + s.cps.len() as u64);
        let want = Some(((*cp, v.clone()), s.cps.iter().map(|t| (*t, (t == cp).then(|| v.clone()))).collect()));
        c.eq("conversion", || format!("{}: {} {:?}", s.name, name_of(*cp), v), &(s.refs)(*cp, v), &want);
    });
    x.space("equality", &format!("all pairs of {} values of all types in the enum of all 32: equal iff same type and value, equal ones hash alike, clones are equal", nv), (nv * nv) as u64, |c, i| {
        let mut ix = Ix(i);
        let (a, b) = (&vals[ix.take(nv)], &vals[ix.take(nv)]);
        c.state(&i);
        c.op(2);
        let (p, q) = (All::make(a.0, &a.1).unwrap(), All::make(b.0, &b.1).unwrap());
        c.outcome(if a == b { "equal" } else { "different" });
        c.check("equality", (p == q) == (a == b), || format!("{:?} == {:?} is {}", p, q, p == q));
        c.check("equality", p.clone() == p, || format!("clone of {:?} differs", p));
        let h = |x: &All| {
            let mut h = Fx::default();
            x.hash(&mut h);
            std::hash::Hasher::finish(&h)
        };
        c.check("equality", a != b || h(&p) == h(&q), || format!("{:?} hashes differently", p));
    });
    // hooks and order inside messages
    let alpha: Vec<(u16, Vec<u8>)> = vec![
        (0x20, wire(0x20, 0)),
        (0x20, wire(0x20, 4)),
        (0x8022, b"abc".to_vec()),
        (0x8028, vec![]),
        (0x8028, vec![9, 9, 9, 9]),
        (8, vec![]),
        (0x13, b"x".to_vec()),
        (0x7777, vec![1, 2]),
    ];
    let na = alpha.len() as u64;
    let d = x.pick(5u32, 6);
    let nsel = ne;
    x.space("messages", &format!("{} enums x all received messages of up to {} attributes over {} (XOR, text, digests right and wrong, opaque, unassigned)", nsel, d, na), nsel as u64 * seqs(na, d), |c, i| {
        let mut ix = Ix(i);
        let s = &en[ix.take(nsel)];
        let l: Vec<(u16, Vec<u8>)> = seq(ix.0, na).into_iter().map(|j| alpha[j].clone()).collect();
        message(c, s, &wire_msg(0x0101, &l));
    });
    // the enum next to the type alone, call by call
    let lk = locks();
    let nk = lk.len();
    let d = x.pick(4u32, 5);
    x.space("lockstep-decoder", &format!("the 32 types x 4 values (shortest, typical, longest, malformed) x all sequences of {} calls out of 11 (decoding 0, 1, 3, 4, all but one or all bytes, with the end of the stream or not; finishing): the enum and the type alone give the same", d), nk as u64 * 4 * 11u64.pow(d), |c, i| {
        let mut ix = Ix(i);
        let (k, w) = (&lk[ix.take(nk)], ix.take(4));
        let ops: Vec<usize> = (0..d).map(|_| ix.take(11)).collect();
        let vs = real_vals(kind_of(k.0).unwrap());
        let b = if w == 3 { vec![0xff; 6] } else { encode_value(plain(kind_of(k.0).unwrap()), &vs[w * (vs.len() - 1) / 2], &TID) };
        c.state(&(k.0, &b[..b.len().min(40)], &ops));
        (k.1)(c, &b, &ops)
    });
    let d = x.pick(5u32, 6);
    x.space("lockstep-encoder", &format!("the 32 types x 3 values x all sequences of {} calls out of 8 (starting, encoding into 0, 1, 3, 64 bytes with the end of the stream or not)", d), nk as u64 * 3 * 8u64.pow(d), |c, i| {
        let mut ix = Ix(i);
        let (k, w) = (&lk[ix.take(nk)], ix.take(3));
        let ops: Vec<usize> = (0..d).map(|_| ix.take(8)).collect();
        let vs = real_vals(kind_of(k.0).unwrap());
        c.state(&(k.0, w, &ops));
        (k.2)(c, &vs[w * (vs.len() - 1) / 2], &ops)
    });
    // histories of one decoder and one encoder
    let hs: Vec<usize> = (0..ns).filter(|i| [0usize, 1, 2, 3, 4, 30, 31, 36, ns - 1].contains(i) || x.thorough() && *i < ne && i % 3 == 0).collect();
    let nh = hs.len();
    let d = x.pick(4u32, 5);
    let nt = 12u64;
    x.space("decoder-histories", &format!("{} sets x all histories of {} steps over {} (values of 4 types whole, in bytes, abandoned or malformed; unknown type)", nh, d, nt), nh as u64 * nt.pow(d), |c, i| {
        let mut ix = Ix(i);
        let s = &sets[hs[ix.take(nh)]];
        let h: Vec<DStep> = (0..d).map(|_| dstep(s, ix.take(nt as usize))).collect();
        history(c, s, &s.cps, &h);
    });
    let nt = 10u64;
    x.space("encoder-histories", &format!("{} sets x all histories of {} steps over {} (values of 4 types, whole, in bytes, with another value offered in between)", nh, d, nt), nh as u64 * nt.pow(d), |c, i| {
        let mut ix = Ix(i);
        let s = &sets[hs[ix.take(nh)]];
        let m = s.cps.len();
        let h: Vec<_> = (0..d)
            .map(|_| {
                let j = ix.take(nt as usize);
                let cp = s.cps[[0, m / 2, m - 1, m / 3][j % 4]];
                let v = real_vals(kind_of(cp).unwrap())[if j < 5 { 0 } else { real_vals(kind_of(cp).unwrap()).len() / 2 }].clone();
                let n = encode_value(plain(kind_of(cp).unwrap()), &v, &TID).len();
                let intrude = if n > 0 && j >= 4 { Some(((j * 7) % n, s.cps[(j + m / 2) % m])) } else { None };
                (cp, v, [vec![1], vec![64], vec![0, 3]][j % 3].clone(), intrude)
            })
            .collect();
        c.state(&(s.name, &h));
        c.sample(|| short(&format!("{}: {:?}", s.name, h)));
        let mut calls = 0;
        let got = (s.enc)(&h, &mut calls);
        c.op(calls);
        let want = h.iter().map(|(cp, v, _, _)| (*cp, encode_value(plain(kind_of(*cp).unwrap()), v, &TID))).collect();
        c.eq("encoder", || format!("{}: {:?}", s.name, h), &got, &Ok(want));
    });
}
fn dstep(s: &SetOps, j: usize) -> DStep {
    let m = s.cps.len();
    let cp = s.cps[[0, m / 2, m - 1, m / 3][j % 4]];
    let k = kind_of(cp).unwrap();
    let vs = real_vals(k);
    let v = encode_value(plain(k), &vs[[0, vs.len() - 1, vs.len() / 2][j / 4 % 3]], &TID);
    match j {
        0..=3 => DStep { cp, value: v, cuts: vec![], stop: None },
        4 | 5 => DStep { cp, cuts: (1..v.len().max(1)).collect(), value: v, stop: None },
        6 | 7 => DStep { cp, stop: Some(v.len() / 2), value: v, cuts: vec![] },
        8 => DStep { cp, stop: Some(v.len()), value: v, cuts: vec![] },
        9 | 10 => DStep { cp, value: vec![0xff; 3], cuts: vec![1], stop: None },
        _ => DStep { cp: 0x7777, value: vec![], cuts: vec![], stop: None },
    }
}
/// Received message: verdict and content as the model says for the set, and what is known encodes again.
fn message(c: &mut Case, s: &SetOps, b: &[u8]) {
    c.state(&(s.name, b));
    c.sample(|| format!("{}: {}", s.name, hex(b)));
    c.op(2);
    let set = documented(s);
    let (out, n) = decode_msg(b, &set, FpMode::Received);
    let (obs, got) = (s.msg)(b);
    c.outcome(obs.kind());
    if !c.check("message", agrees(&obs, &out) && got == n, || format!("{}: {}: {:?} after {} bytes, expected {:?} after {}", s.name, hex(b), obs, got, want(&out), n)) {
        return;
    }
    if let Out::Ok(m) = out {
        if m.attrs.iter().all(|a| matches!(a.body, Body::Known(_))) {
            // what was received can be built and sent as well
            let again = (s.emit)(&m);
            c.op(1);
            c.check("emit", again.as_deref() == Ok(b), || format!("{}: {} encodes to {:?}", s.name, hex(b), again.as_ref().map(|b| hex(b))));
        }
    }
}

// ---------------------------------------------------------------- C21
macro_rules! numbers {
    ($($t:ident),*) => {
        /// (name of the Rust type, CODEPOINT, get_type of a value)
        fn numbers() -> Vec<(&'static str, u16, u16, bool)> {
            vec![$({
                let v = &real_vals(kind_of($t::CP).unwrap_or(Kind::Unit))[0];
                let a = <$t as View>::make(v);
                (stringify!($t), $t::CODEPOINT, a.as_ref().map(|a| a.get_type().as_u16()).unwrap_or(0xffff), a.map(|a| a.get_type().is_comprehension_required()).unwrap_or(false))
            }),*]
        }
    };
}
for_all_attrs!(numbers);
/// Registered names of the types, in the crate's spelling.
const NAMES: [(&str, u16); 32] = [
    ("MappedAddress", 0x0001),
    ("ChangeRequest", 0x0003),
    ("Username", 0x0006),
    ("MessageIntegrity", 0x0008),
    ("ErrorCode", 0x0009),
    ("UnknownAttributes", 0x000A),
    ("ChannelNumber", 0x000C),
    ("Lifetime", 0x000D),
    ("XorPeerAddress", 0x0012),
    ("Data", 0x0013),
    ("Realm", 0x0014),
    ("Nonce", 0x0015),
    ("XorRelayAddress", 0x0016),
    ("RequestedAddressFamily", 0x0017),
    ("EvenPort", 0x0018),
    ("RequestedTransport", 0x0019),
    ("DontFragment", 0x001A),
    ("XorMappedAddress", 0x0020),
    ("ReservationToken", 0x0022),
    ("Priority", 0x0024),
    ("UseCandidate", 0x0025),
    ("ResponsePort", 0x0027),
    ("AdditionalAddressFamily", 0x8000),
    ("XorMappedAddress2", 0x8020),
    ("Software", 0x8022),
    ("AlternateServer", 0x8023),
    ("Fingerprint", 0x8028),
    ("IceControlled", 0x8029),
    ("IceControlling", 0x802A),
    ("ResponseOrigin", 0x802B),
    ("OtherAddress", 0x802C),
    ("MobilityTicket", 0x8030),
];
struct ErrRow(&'static str, u16, u16, ErrorCode, &'static str);
fn errors() -> Vec<ErrRow> {
    macro_rules! row {
        ($t:path, $n:expr, $p:expr) => {
            ErrRow(stringify!($t), <$t>::CODEPOINT, $n, ErrorCode::from($t), $p)
        };
    }
    use rfc5389::errors as e5;
    use rfc5766::errors as e7;
    vec![
        row!(e5::TryAlternate, 300, "Try Alternate"),
        row!(e5::BadRequest, 400, "Bad Request"),
        row!(e5::Unauthorized, 401, "Unauthorized"),
        row!(e5::UnknownAttribute, 420, "Unknown Attribute"),
        row!(e5::StaleNonce, 438, "Stale Nonce"),
        row!(e5::ServerError, 500, "Server Error"),
        row!(e7::Forbidden, 403, "Forbidden"),
        row!(e7::AllocationMismatch, 437, "Allocation Mismatch"),
        row!(e7::WrongCredentials, 441, "Wrong Credentials"),
        row!(e7::UnsupportedTransportProtocol, 442, "Unsupported Transport Protocol"),
        row!(e7::AllocationQuotaReached, 486, "Allocation Quota Reached"),
        row!(e7::InsufficientCapacity, 508, "Insufficient Capacity"),
        row!(rfc8016::errors::MobilityForbidden, 405, "Mobility Forbidden"),
        row!(rfc5245::errors::RoleConflict, 487, "Role Conflict"),
        row!(rfc8656::errors::AddressFamilyNotSupported, 440, "Address Family not Supported"),
        row!(rfc8656::errors::PeerAddressFamilyMismatch, 443, "Peer Address Family Mismatch"),
    ]
}
const METHODS: [(u16, &str); 7] = [(1, "binding"), (3, "allocate"), (4, "refresh"), (6, "send"), (7, "data"), (8, "create permission"), (9, "channel bind")];
pub fn c21(x: &mut Ctx) {
    let nums = numbers();
    x.space("attributes", "CODEPOINT, get_type and comprehension bit of all 32 attribute types; all pairs differ", 32 * 32, |c, i| {
        let (a, b) = (&nums[(i % 32) as usize], &nums[(i / 32) as usize]);
        c.state(&i);
        c.op(1);
        let want = NAMES.iter().find(|n| n.0 == a.0).map(|n| n.1);
        c.sample(|| format!("{} {:#06x}", a.0, a.1));
        c.eq("codepoint", || a.0.to_string(), &Some(a.1), &want);
        c.eq("codepoint", || format!("get_type of {}", a.0), &a.2, &a.1);
        c.eq("comprehension", || a.0.to_string(), &a.3, &(a.1 < 0x8000));
        c.check("distinct", a.0 == b.0 || a.1 != b.1, || format!("{} and {} share {:#06x}", a.0, b.0, a.1));
    });
    let ours: [(Method, u16); 7] = [
        (rfc5389::methods::BINDING, 1),
        (rfc5766::methods::ALLOCATE, 3),
        (rfc5766::methods::REFRESH, 4),
        (rfc5766::methods::SEND, 6),
        (rfc5766::methods::DATA, 7),
        (rfc5766::methods::CREATE_PERMISSION, 8),
        (rfc5766::methods::CHANNEL_BIND, 9),
    ];
    x.space("methods", "Method::new, From<u8>, number and display of all 65536 codes; equality with the 7 constants", 65536, |c, i| {
        c.state(&i);
        c.op(2);
        let m = Method::new(i as u16);
        c.check("domain", m.is_ok() == (i < 0x1000), || format!("Method::new({:#x}) is ok: {}", i, m.is_ok()));
        let Ok(m) = m else { return c.outcome("refused") };
        c.eq("number", || format!("method {:#x}", i), &m.as_u16(), &(i as u16));
        let want = METHODS.iter().find(|n| n.0 as u64 == i).map(|n| n.1.to_string()).unwrap_or_else(|| format!("unknown ({})", i));
        c.outcome(if want.starts_with("unknown") { "unassigned" } else { "assigned" });
        c.sample(|| m.to_string());
        c.eq("display", || format!("method {:#x}", i), &m.to_string(), &want);
        for (k, n) in ours {
            c.check("constant", (m == k) == (i == n as u64), || format!("method {:#x} == constant {:#x} is {}", i, k.as_u16(), m == k));
        }
        if i < 256 {
            c.eq("number", || format!("Method::from({}u8)", i), &Method::from(i as u8), &m);
        }
    });
    let errs = errors();
    x.space("errors", "number and phrase of all 16 error types, directly and after a trip over the wire in every method; all pairs differ", 16 * 16 * 64, |c, i| {
        let mut ix = Ix(i);
        let (a, b) = (&errs[ix.take(16)], &errs[ix.take(16)]);
        let method = (ix.0 * 65) as u16;
        c.state(&i);
        c.op(2);
        c.sample(|| format!("{} {} {:?}", a.0, a.1, a.3));
        c.eq("error-number", || a.0.to_string(), &(a.1, a.3.code()), &(a.2, a.2));
        c.eq("error-phrase", || a.0.to_string(), &a.3.reason_phrase(), &a.4);
        c.check("distinct", a.0 == b.0 || a.1 != b.1, || format!("{} and {} share {}", a.0, b.0, a.1));
        let mut m = Message::<A5389>::new(class(3), Method::new(method).unwrap(), TransactionId::new(TID));
        m.add_attribute(a.3.clone());
        match MessageEncoder::new().encode_into_bytes(m) {
            Ok(bytes) => {
                let mut v = vec![0, 0, (a.2 / 100) as u8, (a.2 % 100) as u8];
                v.extend(a.4.bytes());
                c.eq("error-wire", || a.0.to_string(), &hex(&bytes), &hex(&wire_msg(type_field(3, method), &[(9, v)])));
            }
            Err(e) => c.fail("error-wire", || format!("{}: {}", a.0, e)),
        }
    });
    x.space("names", "display of classes, address families, all 4096 channel numbers; every transaction id byte", 4 + 2 + 4096 + 12 * 256, |c, i| {
        c.state(&i);
        c.op(1);
        if i < 4 {
            c.eq("class", || format!("class {}", i), &class(i as u8).to_string().as_str(), &["request", "indication", "success response", "error response"][i as usize]);
        } else if i < 6 {
            let f = [AddressFamily::V4, AddressFamily::V6][(i - 4) as usize];
            c.eq("family", || format!("{:?}", f), &f.to_string().as_str(), &["IPv4", "IPv6"][(i - 4) as usize]);
        } else if i < 6 + 4096 {
            let n = 0x4000 + (i - 6) as u16;
            let got = ChannelNumber::new(n).map(|n| n.to_string()).ok();
            c.sample(|| format!("{:?}", got));
            c.eq("channel", || format!("{:#x}", n), &got, &Some(n.to_string()));
        } else {
            let j = i - 6 - 4096;
            let mut t = TID;
            t[(j / 256) as usize] = j as u8;
            let id = TransactionId::new(t);
            let want = format!("TransactionId(0x{})", t.iter().map(|b| format!("{:02X}", b)).collect::<String>());
            c.eq("transaction", || hex(&t), &format!("{:?}", id), &want);
            c.eq("transaction", || hex(&t), &(id.as_bytes(), id.as_ref()), &(&t, &t[..]));
            c.check("transaction", (id == TransactionId::new(TID)) == (t == TID), || "equality".into());
        }
    });
    x.space("types", "AttributeType: number, conversion from u16, comprehension bits of all 65536", 65536, |c, i| {
        let n = i as u16;
        c.state(&i);
        c.op(1);
        let t = AttributeType::new(n);
        c.eq("type", || format!("{:#06x}", n), &(t.as_u16(), AttributeType::from(n), t.is_comprehension_required(), t.is_comprehension_optional()), &(n, t, n < 0x8000, n >= 0x8000));
        c.eq("type", || format!("RawAttribute {:#06x}", n), &RawAttribute::new(t, vec![1]).get_type(), &t);
    });
}

// ---------------------------------------------------------------- C22
const KINDS: [ErrorKind; 7] = [
    ErrorKind::InvalidInput,
    ErrorKind::DecoderTerminated,
    ErrorKind::EncoderFull,
    ErrorKind::IncompleteDecoding,
    ErrorKind::InconsistentState,
    ErrorKind::UnexpectedEos,
    ErrorKind::Other,
];
fn code_for(k: ErrorKind) -> (u16, String) {
    if k == ErrorKind::InvalidInput {
        (400, "Bad Request".into())
    } else {
        (500, "Server Error".into())
    }
}
fn code_of(e: bytecodec::Error) -> (u16, String) {
    let c = ErrorCode::from(e);
    (c.code(), c.reason_phrase().to_string())
}
/// Formats in every way; the result must not be empty.
fn shown<T: std::fmt::Debug>(c: &mut Case, what: &str, t: &T) {
    c.op(2);
    c.check("format", !format!("{:?}", t).is_empty() && !format!("{:#?}", t).is_empty(), || format!("{} is formatted as nothing", what));
}
fn failure<S: AttrSet>(c: &mut Case, b: &[u8]) {
    c.state(&(S::cps(), b));
    c.sample(|| hex(b));
    let mut d = MessageDecoder::<S>::new();
    let r = match bytecodec::DecodeExt::decode_from_bytes(&mut d, b) {
        Err(e) => Err(e),
        Ok(r) => Ok(r),
    };
    c.op(1);
    match r {
        Err(e) => {
            c.outcome("rejected");
            let k = *e.kind();
            c.check("format", !e.to_string().is_empty(), || "error shown as nothing".into());
            shown(c, "error", &e);
            c.eq("code", || format!("error of kind {:?} for {}", k, hex(b)), &code_of(e), &code_for(k));
        }
        Ok(Err(broken)) => {
            c.outcome("broken");
            shown(c, "broken message", &broken);
            let inner = broken.error().to_string();
            c.check("format", !inner.is_empty(), || "error shown as nothing".into());
            let k = *broken.error().kind();
            c.check("decoding-error", k != ErrorKind::EncoderFull, || format!("{} is broken with kind {:?}", hex(b), k));
            let e = bytecodec::Error::from(broken);
            c.eq("kind", || hex(b), e.kind(), &ErrorKind::InvalidInput);
            c.eq("code", || hex(b), &code_of(e), &code_for(ErrorKind::InvalidInput));
        }
        Ok(Ok(m)) => {
            c.outcome("ok");
            shown(c, "message", &m);
            m.attributes().for_each(|a| shown(c, "attribute", a));
            m.unknown_attributes().for_each(|a| shown(c, "raw attribute", a));
        }
    }
}
pub fn c22(x: &mut Ctx) {
    let d = x.pick(5u32, 6);
    x.space("kinds", &format!("all chains of up to {} error kinds taking over each other", d), seqs(7, d), |c, i| {
        let ks: Vec<ErrorKind> = seq(i, 7).into_iter().map(|j| KINDS[j]).collect();
        c.state(&i);
        c.op(1);
        c.sample(|| format!("{:?}", ks));
        use trackable::error::ErrorKindExt;
        let Some(first) = ks.first() else { return c.skip() };
        let mut e: bytecodec::Error = first.cause("planned").into();
        for k in &ks[1..] {
            e = k.takes_over(e).into();
        }
        let plain: bytecodec::Error = (*ks.last().unwrap()).into();
        c.eq("code", || format!("{:?}", ks), &code_of(e), &code_for(*ks.last().unwrap()));
        c.eq("code", || format!("{:?} without cause", ks.last()), &code_of(plain), &code_for(*ks.last().unwrap()));
    });
    let all: Vec<Vec<u8>> = bases().into_iter().chain(brokens()).chain(rejects()).collect();
    let n = all.len();
    x.space("inputs", &format!("{} well-formed, malformed and refused inputs x 5 attribute sets, at every truncation", n), n as u64 * 5 * 200, |c, i| {
        let mut ix = Ix(i);
        let b = &all[ix.take(n)];
        let s = ix.take(5);
        let cut = ix.take(200);
        if cut > b.len() {
            return c.skip();
        }
        let b = &b[..b.len() - cut];
        match s {
            0 => failure::<A5389>(c, b),
            1 => failure::<A5766>(c, b),
            2 => failure::<A5245>(c, b),
            3 => failure::<A5780>(c, b),
            _ => failure::<All>(c, b),
        }
    });
    let bs = bases();
    let starts: Vec<u64> = bs
        .iter()
        .scan(0u64, |a, b| {
            *a += b.len() as u64 * 256;
            Some(*a)
        })
        .collect();
    x.space("bytes", &format!("every byte of {} messages x 256 values", bs.len()), *starts.last().unwrap(), |c, i| {
        let t = starts.partition_point(|s| *s <= i);
        let j = i - if t == 0 { 0 } else { starts[t - 1] };
        let mut b = bs[t].clone();
        b[(j / 256) as usize] = j as u8;
        failure::<All>(c, &b);
    });
    let specs: Vec<(u16, Vec<u8>)> = all_specs().flat_map(|s| (0..=24usize).flat_map(move |n| [0u8, 1, 0x41, 0x80, 0xff].into_iter().map(move |f| (s.cp, vec![f; n])))).collect();
    x.space("values", "all 32 types x every length 0..=24 x 5 fillings: broken or formatted", specs.len() as u64, |c, i| {
        let (cp, v) = &specs[i as usize];
        failure::<All>(c, &frame(1, &tlv(*cp, v, None)));
    });
    // padding comes from the network, too
    let odd: Vec<(u16, Vec<u8>)> = all_cps().into_iter().map(|cp| (cp, typical(cp))).chain([(0x7001, vec![1]), (0x7001, vec![1, 2]), (0xC001, vec![1, 2, 3])]).filter(|(_, v)| padlen(v.len()) > 0).collect();
    let no = odd.len();
    let thirds = [0u8, 0x22, 0x41, 0x7f, 0x80, 0xa0, 0xbf, 0xc3, 0xe2, 0xff];
    x.space("padding", &format!("{} attributes with padding x all 65536 contents of its first two bytes x {} of the third: formatted in every way", no, thirds.len()), no as u64 * 65536 * 10, |c, i| {
        let mut ix = Ix(i);
        let (u, v, w) = (ix.take(256) as u8, ix.take(256) as u8, ix.take(10));
        let (cp, val) = &odd[ix.take(no)];
        let n = padlen(val.len());
        if n < 3 && w > 0 || n < 2 && v > 0 {
            return c.skip();
        }
        let b = frame(0x0101, &padded(*cp, val, &[u, v, thirds[w]][..n]));
        failure::<All>(c, &b);
    });
    let w = attrs_wide_wire();
    let nw = w.len() as u64;
    x.space("format-wide", &format!("{} values (complete or wide domains of each type) in a received message, complete or cut: formatted in every way, plain and pretty", nw), nw * 2, |c, i| {
        let mut b = encode_msg(&msg((i % 4) as u8, (i % 4096) as u16, TID, vec![w[(i / 2) as usize].clone()])).unwrap();
        if i % 2 == 1 {
            b.pop();
        }
        failure::<All>(c, &b);
    });
    let vals: Vec<(u16, Val)> = all_specs().flat_map(|s| real_vals(s.kind).into_iter().map(move |v| (s.cp, v))).collect();
    x.space("format", &format!("{} values of all types: as attribute, in a message built and received, their decoders and encoders", vals.len()), vals.len() as u64, |c, i| {
        let (cp, v) = &vals[i as usize];
        c.state(&i);
        let a = All::make(*cp, v).unwrap();
        shown(c, "attribute", &a);
        let mut m = Message::<All>::new(class(0), Method::new(1).unwrap(), TransactionId::new(TID));
        m.add_attribute(a.clone());
        shown(c, "message", &m);
        let mut e = <All as Attribute>::Encoder::default();
        let mut d = <All as Attribute>::Decoder::default();
        shown(c, "encoder", &e);
        shown(c, "decoder", &d);
        let started = d.try_start_decoding(AttributeType::new(*cp)).is_ok() && e.start_encoding(a).is_ok();
        c.check("start", started, || format!("{} {:?}", name_of(*cp), v));
        shown(c, "encoder", &e);
        shown(c, "decoder", &d);
        let mut me = MessageEncoder::<All>::new();
        shown(c, "message encoder", &me);
        c.check("start", me.start_encoding(m).is_ok(), || format!("{} {:?}", name_of(*cp), v));
        shown(c, "message encoder", &me);
        let mut md = MessageDecoder::<All>::new();
        shown(c, "message decoder", &md);
        let b = encode_msg(&msg(0, 1, TID, vec![MAttr::known(*cp, v.clone())])).unwrap();
        for j in 0..b.len().min(200) {
            if md.decode(&b[j..j + 1], Eos::new(false)).is_err() {
                break;
            }
            shown(c, "message decoder", &md);
        }
    });
}

// ---------------------------------------------------------------- C23
/// Server and client side of one exchange; the server knows `S`, the client rfc5389.
fn exchange<S: AttrSet>(c: &mut Case, req: &[u8], ec: Option<(u16, &str)>, sealed: bool) {
    c.state(&(S::cps(), req, ec, sealed));
    c.sample(|| short(&format!("{} {:?} sealed={}", hex(req), ec, sealed)));
    c.op(4);
    let set = S::cps();
    let (out, _) = decode_msg(req, &set, FpMode::Received);
    let (cls, method, tid, list, code) = match MessageDecoder::<S>::new().decode_bytes(req) {
        Err(_) => {
            c.outcome("no header to answer");
            c.check("answerable", matches!(out, Out::Reject | Out::Short { .. }), || format!("{}: refused without a header, expected {:?}", hex(req), want(&out)));
            return;
        }
        Ok(Err(b)) => {
            let (k, m, t) = (b.class(), b.method(), b.transaction_id());
            (k, m, t, vec![], ErrorCode::from(bytecodec::Error::from(b)))
        }
        Ok(Ok(m)) => {
            let l: Vec<AttributeType> = m.unknown_attributes().map(|a| a.get_type()).filter(|t| t.is_comprehension_required()).collect();
            let code: ErrorCode = if l.is_empty() { rfc5389::errors::ServerError.into() } else { rfc5389::errors::UnknownAttribute.into() };
            (m.class(), m.method(), m.transaction_id(), l, code)
        }
    };
    let (wc, wm, wt, wl, wcode) = match &out {
        Out::Ok(m) => {
            let l: Vec<u16> = m.attrs.iter().filter(|a| matches!(a.body, Body::Raw(_)) && a.cp < 0x8000).map(|a| a.cp).collect();
            let code = if l.is_empty() { (500, "Server Error") } else { (420, "Unknown Attribute") };
            (m.class, m.method, m.tid, l, code)
        }
        Out::Broken { class, method, tid } | Out::Short { class, method, tid } => (*class, *method, *tid, vec![], (400, "Bad Request")),
        Out::Reject => {
            c.fail("answerable", || format!("{}: accepted, expected a refusal", hex(req)));
            return;
        }
    };
    c.outcome(match wcode.0 {
        400 => "400",
        420 => "420",
        _ => "other",
    });
    let code = match ec {
        Some((n, p)) => match ErrorCode::new(n, p.to_string()) {
            Ok(e) => e,
            Err(e) => return c.fail("error-code", || format!("ErrorCode::new({}, {:?}): {}", n, p, e)),
        },
        None => code,
    };
    let wcode = ec.unwrap_or(wcode);
    let mut m = Message::<A5389>::new(class(3), method, tid);
    m.add_attribute(code);
    if !list.is_empty() {
        m.add_attribute(UnknownAttributes::new(list.clone()));
    }
    if sealed {
        match MessageIntegrity::new_short_term_credential(&m, PW) {
            Ok(a) => m.add_attribute(a),
            Err(e) => return c.fail("seal", || format!("MESSAGE-INTEGRITY: {}", e)),
        }
        match Fingerprint::new(&m) {
            Ok(a) => m.add_attribute(a),
            Err(e) => return c.fail("seal", || format!("FINGERPRINT: {}", e)),
        }
    }
    let bytes = match MessageEncoder::new().encode_into_bytes(m) {
        Ok(b) => b,
        Err(e) => return c.fail("encode", || format!("response to {}: {}", hex(req), e)),
    };
    let r = match MessageDecoder::<A5389>::new().decode_bytes(&bytes) {
        Ok(Ok(r)) => r,
        o => return c.fail("decode", || format!("response {} to {}: {:?}", hex(&bytes), hex(req), o)),
    };
    let got = (
        unclass(cls),
        unclass(r.class()),
        r.method().as_u16(),
        *r.transaction_id().as_bytes(),
        r.get_attribute::<ErrorCode>().map(|e| (e.code(), e.reason_phrase().to_string())),
        r.get_attribute::<UnknownAttributes>().map(|u| u.unknowns().iter().map(|t| t.as_u16()).collect::<Vec<_>>()).unwrap_or_default(),
    );
    let wanted = (wc, 3, wm, wt, Some((wcode.0, wcode.1.to_string())), wl);
    c.eq("response", || format!("response to {} with {} as understood by the client", hex(req), if sealed { "digests" } else { "no digests" }), &got, &wanted);
    if sealed {
        c.check("seal", r.get_attribute::<MessageIntegrity>().map(|m| m.check_short_term_credential(PW).is_ok()) == Some(true), || "MESSAGE-INTEGRITY of the response does not verify".into());
        c.check("seal", r.get_attribute::<Fingerprint>().is_some(), || "no FINGERPRINT".into());
    }
}
trait DecodeBytes<S: Attribute> {
    fn decode_bytes(&mut self, b: &[u8]) -> Result<std::result::Result<Message<S>, stun_codec::BrokenMessage>>;
}
impl<S: Attribute> DecodeBytes<S> for MessageDecoder<S> {
    fn decode_bytes(&mut self, b: &[u8]) -> Result<std::result::Result<Message<S>, stun_codec::BrokenMessage>> {
        bytecodec::DecodeExt::decode_from_bytes(self, b)
    }
}
fn exchange_on(c: &mut Case, set: usize, req: &[u8], ec: Option<(u16, &str)>, sealed: bool) {
    match set {
        0 => exchange::<A5389>(c, req, ec, sealed),
        1 => exchange::<A5766>(c, req, ec, sealed),
        2 => exchange::<All>(c, req, ec, sealed),
        3 => exchange::<A5245>(c, req, ec, sealed),
        4 => exchange::<A5780>(c, req, ec, sealed),
        _ => exchange::<Software>(c, req, ec, sealed),
    }
}
pub fn c23(x: &mut Ctx) {
    x.space("single", "requests with one attribute of each of the 65536 types x 6 attribute sets of the server", 65536 * 6, |c, i| {
        let mut ix = Ix(i);
        let s = ix.take(6);
        let cp = ix.0 as u16;
        exchange_on(c, s, &wire_msg(1, &[(cp, typical(cp))]), None, i % 5 == 0);
    });
    let alpha: Vec<(u16, Vec<u8>)> =
        vec![(0x8022, b"abc".to_vec()), (0x24, vec![1, 2, 3, 4]), (0x13, b"x".to_vec()), (0x7fff, vec![]), (0x8000, vec![1, 0, 0, 0]), (0x7fff, vec![1]), (0, vec![9; 5]), (0xffff, vec![]), (0x8028, vec![]), (9, vec![0xff; 2])];
    let na = alpha.len() as u64;
    let d = x.pick(5u32, 6);
    x.space("mixed", &format!("requests with all sequences of up to {} attributes over {} (known, unknown, required, optional, repeated, malformed) x 6 attribute sets, with and without digests", d, na), seqs(na, d) * 12, |c, i| {
        let mut ix = Ix(i);
        let s = ix.take(6);
        let sealed = ix.take(2) == 1;
        let l: Vec<(u16, Vec<u8>)> = seq(ix.0, na).into_iter().map(|j| alpha[j].clone()).collect();
        exchange_on(c, s, &wire_msg(0x0003, &l), None, sealed);
    });
    x.space("unknown", "requests with all 65536 types as attributes of 0..=5 zero bytes, alone, twice, or between two known ones; all classes and some methods", 65536 * 18, |c, i| {
        let mut ix = Ix(i);
        let (n, mode, cp) = (ix.take(6), ix.take(3), ix.take(65536) as u16);
        let a = (cp, vec![0; n]);
        let soft = (0x8022, b"abc".to_vec());
        let l = match mode {
            0 => vec![a],
            1 => vec![a.clone(), (cp, vec![1; n])],
            _ => vec![soft.clone(), a, soft],
        };
        let t = type_field((i % 4) as u8, [1, 3, 0x101, 0xfff][(i / 4 % 4) as usize]);
        exchange_on(c, (i % 5) as usize, &wire_msg(t, &l), None, i % 7 == 0);
    });
    let req = [wire_msg(1, &[]), wire_msg(1, &[(0x7ffe, vec![1])]), frame(1, &tlv(9, &[0], None))];
    x.space("headers", "empty, unknown-attribute and broken requests with all 16384 type fields; every byte of the transaction id", (16384 + 12 * 256) * 3, |c, i| {
        let mut b = req[(i % 3) as usize].clone();
        let j = i / 3;
        if j < 16384 {
            b[..2].copy_from_slice(&(j as u16).to_be_bytes());
        } else {
            let j = j - 16384;
            b[8 + (j / 256) as usize] = j as u8;
        }
        exchange_on(c, 2, &b, None, false);
    });
    let wide_ids = tids_wide();
    x.space("tids-wide", &format!("the same requests with {} transaction ids (words that mean something elsewhere, repeated bytes)", wide_ids.len()), wide_ids.len() as u64 * 3, |c, i| {
        let mut b = req[(i % 3) as usize].clone();
        b[8..20].copy_from_slice(&wide_ids[(i / 3) as usize]);
        exchange_on(c, 2, &b, None, false);
    });
    let strs: Vec<String> = strings().into_iter().chain(PHRASES.map(String::from)).collect();
    let ns = strs.len();
    x.space("codes", &format!("all 300 error codes x {} reason phrases x 3 requests x digests or not", ns), (300 * ns * 6) as u64, |c, i| {
        let mut ix = Ix(i);
        let n = 300 + ix.take(300) as u16;
        let p = &strs[ix.take(ns)];
        let r = &req[ix.take(3)];
        exchange_on(c, 0, r, Some((n, p)), ix.take(2) == 1);
    });
    x.space("phrases", "reason phrases of every length 0..=1100 of characters of 1 to 4 bytes", 1101 * 4, |c, i| {
        let mut ix = Ix(i);
        let ch = ["r", "é", "日", "\u{10ffff}"][ix.take(4)];
        exchange_on(c, 0, &req[0], Some((420, &ch.repeat(ix.0 as usize))), i % 2 == 0);
    });
    let all: Vec<Vec<u8>> = bases().into_iter().chain(brokens()).chain(rejects()).collect();
    let n = all.len();
    x.space("faulty", &format!("{} requests, well-formed, malformed and refused, x 6 attribute sets, at every truncation", n), n as u64 * 6 * 200, |c, i| {
        let mut ix = Ix(i);
        let b = &all[ix.take(n)];
        let s = ix.take(6);
        let cut = ix.take(200);
        if cut > b.len() {
            return c.skip();
        }
        let b = &b[..b.len() - cut];
        // cut inside the announced part: may be refused or broken
        if let (Out::Short { .. }, _) = decode_msg(b, &all_cps(), FpMode::Received) {
            if bytecodec::DecodeExt::decode_from_bytes(&mut MessageDecoder::<All>::new(), b).is_err() {
                return c.outcome("cut off");
            }
        }
        exchange_on(c, s, b, None, false);
    });
    let top = x.pick(5000u64, 16383);
    x.space("many", &format!("requests with 0..={} unknown attributes of distinct types", top), top + 1, |c, i| {
        let l: Vec<(u16, Vec<u8>)> = (0..i).map(|j| (0x3000 + (j * 7) as u16 % 0x6000, vec![])).collect();
        exchange_on(c, 0, &wire_msg(1, &l), None, i % 2 == 0);
    });
}
