//! C16 attribute hooks, C25 failures and panics of user attributes; instrumented attributes.
use crate::conv::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use stun_codec::{define_attribute_enums, Attribute, AttributeType, Message, MessageDecoder, MessageEncoder, Method, TransactionId};

// ------------------------------------------------------------------ recording attributes
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    phase: &'static str,
    cp: u16,
    value: Vec<u8>,
    class: u8,
    method: u16,
    tid: [u8; 12],
    known: Vec<(u16, Vec<u8>)>,
    unknown: Vec<(u16, Vec<u8>)>,
}
thread_local! {
    static LOG: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
}
fn take_log() -> Vec<Call> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// Value bytes: [before_encode mode, after_decode mode, counter, ...].
/// Modes: 0 nothing, 1 counts the counter up, 2 fails, 3 appends a byte.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Probe<const N: u16> {
    pub v: Vec<u8>,
}
impl<const N: u16> Probe<N> {
    pub const CODEPOINT: u16 = if N % 2 == 0 { 0x7F00 + N } else { 0x8F00 + N };
    fn act<A: Attribute>(&mut self, phase: &'static str, mode: u8, m: &Message<A>) -> Result<()> {
        let call = Call {
            phase,
            cp: Self::CODEPOINT,
            value: self.v.clone(),
            class: unclass(m.class()),
            method: m.method().as_u16(),
            tid: *m.transaction_id().as_bytes(),
            known: m.attributes().map(|a| (a.get_type().as_u16(), A::Encoder::default().encode_into_bytes(a.clone()).unwrap_or_default())).collect(),
            unknown: m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect(),
        };
        LOG.with(|l| l.borrow_mut().push(call));
        match mode {
            1 => self.v[2] = self.v[2].wrapping_add(1),
            2 => return Err(ErrorKind::Other.into()),
            3 => self.v.push(0xEE),
            _ => {}
        }
        Ok(())
    }
}
impl<const N: u16> Attribute for Probe<N> {
    type Decoder = ProbeDecoder<N>;
    type Encoder = ProbeEncoder<N>;
    fn get_type(&self) -> AttributeType {
        AttributeType::new(Self::CODEPOINT)
    }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        let mode = self.v[0];
        self.act("before_encode", mode, m)
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        let mode = self.v[1];
        self.act("after_decode", mode, m)
    }
}
#[derive(Debug, Default)]
pub struct ProbeDecoder<const N: u16>(RemainingBytesDecoder);
impl<const N: u16> Decode for ProbeDecoder<N> {
    type Item = Probe<N>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<Probe<N>> {
        let v = self.0.finish_decoding()?;
        if v.len() < 3 {
            return Err(ErrorKind::InvalidInput.into());
        }
        Ok(Probe { v })
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<const N: u16> TryTaggedDecode for ProbeDecoder<N> {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
        Ok(t.as_u16() == Probe::<N>::CODEPOINT)
    }
}
#[derive(Debug, Default)]
pub struct ProbeEncoder<const N: u16>(BytesEncoder<Vec<u8>>);
impl<const N: u16> Encode for ProbeEncoder<N> {
    type Item = Probe<N>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: Probe<N>) -> Result<()> {
        self.0.start_encoding(item.v)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<const N: u16> SizedEncode for ProbeEncoder<N> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}
pub type P0 = Probe<0>;
pub type P1 = Probe<1>;
pub type P2 = Probe<2>;
pub type P3 = Probe<3>;
define_attribute_enums!(PE, PEDecoder, PEEncoder, [P0, P1, P2, P3]);
const PCP: [u16; 4] = [P0::CODEPOINT, P1::CODEPOINT, P2::CODEPOINT, P3::CODEPOINT];
fn probe(t: usize, v: Vec<u8>) -> PE {
    match t {
        0 => P0 { v }.into(),
        1 => P1 { v }.into(),
        2 => P2 { v }.into(),
        _ => P3 { v }.into(),
    }
}
fn value(a: &PE) -> (u16, Vec<u8>) {
    match a {
        PE::P0(p) => (PCP[0], p.v.clone()),
        PE::P1(p) => (PCP[1], p.v.clone()),
        PE::P2(p) => (PCP[2], p.v.clone()),
        PE::P3(p) => (PCP[3], p.v.clone()),
    }
}
/// A message of probes given as (type, before_encode mode, after_decode mode).
pub fn hooked(spec: &[(usize, u8, u8)]) -> Message<PE> {
    let mut m = Message::new(class(2), Method::new(0x123).unwrap(), TransactionId::new(TID));
    for (i, (t, b, a)) in spec.iter().enumerate() {
        m.add_attribute(probe(*t, vec![*b, *a, (10 * i) as u8, 0x55]));
    }
    m
}
fn changed(v: &[u8], mode: u8) -> Vec<u8> {
    let mut v = v.to_vec();
    match mode {
        1 => v[2] = v[2].wrapping_add(1),
        3 => v.push(0xEE),
        _ => {}
    }
    v
}
/// Bytes of `hooked(spec)` with the changes its hooks make.
pub fn hooked_bytes(spec: &[(usize, u8, u8)]) -> Vec<u8> {
    let mut body = vec![];
    for (i, (t, b, a)) in spec.iter().enumerate() {
        body.extend(tlv(PCP[*t], &changed(&[*b, *a, (10 * i) as u8, 0x55], *b), None));
    }
    frame(type_field(2, 0x123), &body)
}
/// An element of a message as the model sees it.
#[derive(Clone, Debug, PartialEq, Eq)]
enum El {
    P(usize, Vec<u8>),
    Raw(u16, Vec<u8>),
}
/// Expected hook calls for elements, the values afterwards, and whether a hook fails.
fn expected(phase: &'static str, cl: u8, method: u16, els: &[El]) -> (Vec<Call>, Vec<El>, bool) {
    let mut calls = vec![];
    let mut out: Vec<El> = vec![];
    for e in els {
        match e {
            El::Raw(..) => out.push(e.clone()),
            El::P(t, v) => {
                let mode = if phase == "before_encode" { v[0] } else { v[1] };
                calls.push(Call {
                    phase,
                    cp: PCP[*t],
                    value: v.clone(),
                    class: cl,
                    method,
                    tid: NOW.with(|n| n.get()),
                    known: out.iter().filter_map(|e| if let El::P(t, v) = e { Some((PCP[*t], v.clone())) } else { None }).collect(),
                    unknown: out.iter().filter_map(|e| if let El::Raw(t, v) = e { Some((*t, v.clone())) } else { None }).collect(),
                });
                if mode == 2 {
                    return (calls, out, true);
                }
                out.push(El::P(*t, changed(v, mode)));
            }
        }
    }
    (calls, out, false)
}
thread_local! {
    /// The transaction id of the messages of this case.
    static NOW: std::cell::Cell<[u8; 12]> = const { std::cell::Cell::new(TID) };
}
fn els_bytes(cl: u8, method: u16, els: &[El]) -> Vec<u8> {
    let body: Vec<u8> = els
        .iter()
        .flat_map(|e| match e {
            El::P(t, v) => tlv(PCP[*t], v, None),
            El::Raw(t, v) => tlv(*t, v, None),
        })
        .collect();
    let mut b = frame(type_field(cl, method), &body);
    b[8..20].copy_from_slice(&NOW.with(|n| n.get()));
    b
}
/// Sets all padding bytes of a message to `pad`.
fn fill_padding(b: &mut [u8], pad: u8) {
    let mut p = 20;
    while p + 4 <= b.len() {
        let l = u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize;
        let end = p + 4 + l + padlen(l);
        if end > b.len() {
            return;
        }
        b[p + 4 + l..end].fill(pad);
        p = end;
    }
}
fn see_pe(m: &Message<PE>) -> (Vec<(u16, Vec<u8>)>, Vec<(u16, Vec<u8>)>) {
    (m.attributes().map(value).collect(), m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect())
}
fn els_seen(els: &[El]) -> (Vec<(u16, Vec<u8>)>, Vec<(u16, Vec<u8>)>) {
    (
        els.iter().filter_map(|e| if let El::P(t, v) = e { Some((PCP[*t], v.clone())) } else { None }).collect(),
        els.iter().filter_map(|e| if let El::Raw(t, v) = e { Some((*t, v.clone())) } else { None }).collect(),
    )
}
/// Decodes the bytes of `els`, checks hooks and values, then encodes the result and checks again.
fn hook_round(c: &mut Case, cl: u8, method: u16, els: &[El]) {
    hook_round_of(c, cl, method, els, 0)
}
fn hook_round_of(c: &mut Case, cl: u8, method: u16, els: &[El], pad: u8) {
    let mut b = els_bytes(cl, method, els);
    fill_padding(&mut b, pad);
    c.note(|| format!("decode {}", hex(&b)));
    take_log();
    let mut d = MessageDecoder::<PE>::new();
    let r = (|| {
        let n = d.decode(&b, Eos::new(true))?;
        Ok::<_, bytecodec::Error>((n, d.finish_decoding()?))
    })();
    c.op(1);
    let log = take_log();
    let (calls, after, fails) = expected("after_decode", cl, method, els);
    let say = || format!("{:?}", els);
    if !c.eq("decode-hooks", || format!("hook calls while decoding {}", say()), &log, &calls) {
        return;
    }
    let m = match r {
        Ok((_, Ok(m))) => m,
        Ok((_, Err(bm))) => {
            c.outcome("hook failed: broken message");
            c.check("decode-outcome", fails, || format!("decoding {} is broken: {}", say(), bm.error()));
            c.check("decode-outcome", unclass(bm.class()) == cl && bm.method().as_u16() == method && bm.transaction_id().as_bytes() == &NOW.with(|n| n.get()), || format!("broken message of {} has another header", say()));
            return;
        }
        Err(e) => return c.fail("decode-outcome", || format!("decoding {} fails: {}", say(), e)),
    };
    c.outcome("decoded");
    if !c.check("decode-outcome", !fails, || format!("decoding {} succeeds although a hook failed", say())) {
        return;
    }
    if !c.eq("decode-values", || format!("values decoded from {}", say()), &see_pe(&m), &els_seen(&after)) {
        return;
    }
    encode_round(c, cl, method, &after, m);
}
fn encode_round(c: &mut Case, cl: u8, method: u16, els: &[El], m: Message<PE>) {
    take_log();
    let got = encode(m);
    c.op(1);
    let log = take_log();
    let (calls, out, fails) = expected("before_encode", cl, method, els);
    let say = || format!("{:?}", els);
    if !c.eq("encode-hooks", || format!("hook calls while encoding {}", say()), &log, &calls) {
        return;
    }
    c.outcome(if fails { "hook failed: encoding refused" } else { "encoded" });
    match got {
        Err(_) => {
            c.check("encode-outcome", fails, || format!("encoding {} fails", say()));
        }
        Ok(mut b) => {
            let want = els_bytes(cl, method, &out);
            // what is sent as padding is no matter of the hooks
            fill_padding(&mut b, 0);
            c.check("encode-outcome", !fails && b == want, || format!("encoding {} gives {} instead of {}", say(), hex(&b), if fails { "an error".into() } else { hex(&want) }));
        }
    }
}
pub fn c16(x: &mut Ctx) {
    // building and encoding
    let d = x.pick(5, 6);
    let k = 4 * 4u64;
    x.space("encode", &format!("all lists of up to {} attributes of 4 types x 4 hook behaviours (nothing, change, fail, grow)", d), seqs(k, d), |c, i| {
        let els: Vec<El> = seq(i, k).into_iter().enumerate().map(|(j, s)| El::P(s / 4, vec![(s % 4) as u8, 0, (10 * j) as u8, 0x55])).collect();
        c.state(&i);
        c.sample(|| format!("{:?}", els));
        let mut m = Message::new(class(1), Method::new(0xABC).unwrap(), TransactionId::new(TID));
        for e in &els {
            if let El::P(t, v) = e {
                m.add_attribute(probe(*t, v.clone()));
            }
        }
        encode_round(c, 1, 0xABC, &els, m);
    });
    // receiving, with unknown attributes in between, then encoding what was received
    let d = x.pick(5, 6);
    let k = 3 * 4 + 2u64;
    x.space("decode-encode", &format!("all lists of up to {} received attributes: 3 types x 4 hook behaviours and 2 unknown attributes, padding zero or not; decode and encode", d), seqs(k, d), |c, i| {
        let els: Vec<El> = seq(i, k)
            .into_iter()
            .enumerate()
            .map(|(j, s)| match s {
                12 => El::Raw(0x7EEE, vec![j as u8]),
                13 => El::Raw(0xFFFF, vec![]),
                // before_encode behaves like after_decode of the next position
                s => El::P(s / 4, vec![((i >> j) % 4) as u8, (s % 4) as u8, (10 * j) as u8]),
            })
            .collect();
        c.state(&i);
        c.sample(|| format!("{:?}", els));
        hook_round_of(c, (i % 4) as u8, 0x5A5, &els, [0, 0x5A, 0xFF][(i % 3) as usize]);
    });
    // every header
    let shapes: Vec<Vec<El>> = {
        let p = |t: usize, m: u8, j: usize| El::P(t, vec![m, m, (10 * j) as u8, 0x55]);
        let raw = El::Raw(0x7EEE, vec![1]);
        vec![
            vec![p(0, 1, 0)],
            vec![p(1, 1, 0), p(0, 1, 1), p(2, 1, 2)],
            vec![raw.clone(), p(0, 1, 1), raw.clone(), p(1, 1, 3)],
            vec![p(0, 0, 0), p(1, 1, 1), p(2, 0, 2), p(1, 1, 3), p(0, 3, 4)],
            vec![p(2, 1, 0), p(1, 2, 1), p(0, 1, 2)],
            vec![p(0, 1, 0), p(0, 1, 1), p(0, 1, 2), p(0, 2, 3)],
            vec![p(2, 0, 0), p(2, 0, 1), raw, p(2, 1, 3), p(0, 1, 4), p(1, 1, 5), p(0, 1, 6)],
        ]
    };
    let header_case = |c: &mut Case, i: u64, cl: u8, method: u16, tid: [u8; 12], els: &[El]| {
        c.state(&(i, tid));
        NOW.with(|n| n.set(tid));
        hook_round(c, cl, method, els);
        if !els.iter().any(|e| matches!(e, El::Raw(..))) {
            let mut m = Message::new(class(cl), Method::new(method).unwrap(), TransactionId::new(tid));
            for e in els {
                if let El::P(t, v) = e {
                    m.add_attribute(probe(*t, v.clone()));
                }
            }
            encode_round(c, cl, method, els, m);
        }
        NOW.with(|n| n.set(TID));
    };
    let ns = shapes.len();
    x.space("headers", &format!("all 16384 class/method pairs x {} attribute lists of 1 to 7 attributes: encode and decode", ns), 16384 * ns as u64, |c, i| {
        let mut ix = Ix(i);
        let (s, cl, me) = (ix.take(ns), ix.take(4) as u8, ix.take(4096) as u16);
        header_case(c, i, cl, me, TID, &shapes[s])
    });
    let ids = tids_wide();
    x.space("tids", &format!("{} transaction ids of words that mean something elsewhere x {} attribute lists: encode and decode", ids.len(), ns), (ids.len() * ns) as u64, |c, i| {
        let mut ix = Ix(i);
        let (s, id) = (ix.take(ns), ids[ix.take(ids.len())]);
        header_case(c, i, (i % 4) as u8, (i % 4096) as u16, id, &shapes[s])
    });
    // one type used directly, without an enum
    let d = x.pick(8, 11);
    x.space("bare", &format!("all lists of up to {} attributes of one type x 4 hook behaviours, without an enum", d), seqs(4, d), |c, i| {
        let modes = seq(i, 4);
        let els: Vec<El> = modes.iter().enumerate().map(|(j, s)| El::P(0, vec![*s as u8, modes[modes.len() - 1 - j] as u8, j as u8])).collect();
        c.state(&i);
        c.sample(|| format!("{:?}", els));
        let b = els_bytes(0, 1, &els);
        take_log();
        let r = bytecodec::DecodeExt::decode_from_bytes(&mut MessageDecoder::<P0>::new(), &b);
        let (calls, after, fails) = expected("after_decode", 0, 1, &els);
        c.op(2);
        let log = take_log();
        if !c.eq("decode-hooks", || format!("hook calls while decoding {:?}", els), &log, &calls) {
            return;
        }
        let ok = matches!(&r, Ok(r) if r.is_err() == fails);
        c.outcome(if fails { "hook failed" } else { "decoded" });
        if !c.check("decode-outcome", ok, || format!("decoding {:?}: {:?}", els, r)) {
            return;
        }
        if let Ok(Ok(m)) = r {
            let got: Vec<El> = m.attributes().map(|p| El::P(0, p.v.clone())).collect();
            c.eq("decode-values", || format!("values of {:?}", els), &got, &after);
            let e = encode(m);
            let (calls, out, fails) = expected("before_encode", 0, 1, &after);
            c.eq("encode-hooks", || format!("hook calls while encoding {:?}", after), &take_log(), &calls);
            let want = if fails { None } else { Some(els_bytes(0, 1, &out)) };
            c.eq("encode-outcome", || format!("encoding {:?}", after), &e.ok(), &want);
        }
    });
    // many attributes, one of them special
    let top = x.pick(70usize, 300);
    x.space("many", &format!("1..={} attributes whose hooks change them or not, one at every position that fails, grows or does nothing: encode and decode", top), (top * top * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let (n, at, special, rest) = (ix.take(top) + 1, ix.take(top), ix.take(4) as u8, ix.take(2) as u8);
        if at >= n {
            return c.skip();
        }
        let els: Vec<El> = (0..n)
            .map(|j| {
                let m = if j == at { special } else { rest };
                if j % 7 == 6 && j != at {
                    El::Raw(0x7EEE, vec![j as u8])
                } else {
                    El::P(j % 4, vec![if j == (at + 2) % n { special } else { rest }, m, (2 * j) as u8, j as u8])
                }
            })
            .collect();
        c.state(&i);
        c.sample(|| format!("{:?}", els));
        hook_round(c, 2, 0x123, &els);
        if !els.iter().any(|e| matches!(e, El::Raw(..))) {
            let mut m = Message::new(class(2), Method::new(0x123).unwrap(), TransactionId::new(TID));
            for e in &els {
                if let El::P(t, v) = e {
                    m.add_attribute(probe(*t, v.clone()));
                }
            }
            encode_round(c, 2, 0x123, &els, m);
        }
    });
    // numbers of attributes around powers of two
    let counts: Vec<usize> = x.pick(vec![127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 260, 300, 511, 512, 513, 514, 1023, 1024, 1025], vec![1026, 2047, 2048, 2049, 127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 260, 300, 511, 512, 513, 514, 1023, 1024, 1025]);
    x.space("counts", &format!("{:?} attributes whose hooks change them or not, one special (fails, grows, does nothing) or none, at the ends, the middle and around 64, 128, 256, 512: encode and decode", counts), (counts.len() * 12 * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let (n, at, special, rest) = (counts[ix.take(counts.len())], ix.take(12), ix.take(4) as u8, ix.take(2) as u8);
        let at = [0, 1, 63, 64, 127, 128, 255, 256, n / 2, n - 2, n - 1, 512][at];
        if at >= n {
            return c.skip();
        }
        c.state(&i);
        let els: Vec<El> = (0..n).map(|j| El::P(j % 4, vec![if j == at { special } else { rest }, if j == at { special } else { rest }, (2 * j) as u8, j as u8])).collect();
        c.sample(|| format!("{} attributes, {} is special", n, at));
        hook_round(c, 2, 0x123, &els);
        let mut m = Message::new(class(2), Method::new(0x123).unwrap(), TransactionId::new(TID));
        for e in &els {
            if let El::P(t, v) = e {
                m.add_attribute(probe(*t, v.clone()));
            }
        }
        encode_round(c, 2, 0x123, &els, m);
    });
    // long values
    let lens: Vec<usize> = lengths(x.thorough()).into_iter().filter(|l| *l >= 60 && *l <= 65000).collect();
    x.space("sizes", &format!("two attributes with 4 x 4 hook behaviours around a value of {} lengths up to 65000, which may be of either of them or unknown: decode and encode", lens.len()), lens.len() as u64 * 16 * 3, |c, i| {
        let mut ix = Ix(i);
        let (a, b, how, l) = (ix.take(4) as u8, ix.take(4) as u8, ix.take(3), lens[ix.take(lens.len())]);
        let long: Vec<u8> = (0..l).map(|k| (k * 7 + k / 251) as u8).collect();
        let mut els = vec![El::P(0, vec![a, a, 2, 3]), El::Raw(0x7EEE, vec![1]), El::P(1, vec![b, b, 4, 5])];
        match (how, &mut els) {
            (0, els) => els[1] = El::Raw(0x7EEE, long),
            (n, els) => {
                if let El::P(_, v) = &mut els[2 * n - 2] {
                    v.extend(long)
                }
            }
        }
        c.state(&(a, b, how, l));
        c.sample(|| format!("hooks {} and {}, {} bytes", a, b, l));
        hook_round(c, 1, 0x7, &els);
    });
    // the same decoder and encoder again and again
    let lists: Vec<Vec<El>> = (0..seqs(5, 2)).map(|i| seq(i, 5).into_iter().enumerate().map(|(j, s)| if s == 4 { El::Raw(0x7EEE, vec![1]) } else { El::P(j, vec![s as u8, s as u8, 9]) }).collect()).collect();
    let n = lists.len() as u64;
    x.space("reuse", &format!("one decoder and one encoder for all sequences of 3 messages over {} attribute lists", n), n * n * n, |c, i| {
        let mut ix = Ix(i);
        c.state(&i);
        let mut d = MessageDecoder::<PE>::new();
        let mut e = MessageEncoder::<PE>::new();
        for _ in 0..3 {
            let els = &lists[ix.take(n as usize)];
            c.sample(|| format!("{:?}", els));
            let b = els_bytes(3, 0xFFF, els);
            take_log();
            let r = bytecodec::DecodeExt::decode_from_bytes(&mut d, &b);
            let (calls, after, fails) = expected("after_decode", 3, 0xFFF, els);
            c.op(2);
            if !c.eq("decode-hooks", || format!("hook calls while decoding {:?} with a used decoder", els), &take_log(), &calls) {
                return;
            }
            match r {
                Ok(Ok(m)) if !fails => {
                    let r = bytecodec::EncodeExt::encode_into_bytes(&mut e, m);
                    let (calls, out, fails) = expected("before_encode", 3, 0xFFF, &after);
                    c.outcome(if fails { "encoding refused" } else { "encoded" });
                    c.eq("encode-hooks", || format!("hook calls while encoding {:?} with a used encoder", after), &take_log(), &calls);
                    let want = if fails { None } else { Some(els_bytes(3, 0xFFF, &out)) };
                    if !c.eq("encode-outcome", || format!("encoding {:?} with a used encoder", after), &r.ok(), &want) {
                        return;
                    }
                }
                Ok(Err(_)) if fails => c.outcome("broken"),
                other => return c.fail("decode-outcome", || format!("decoding {:?}: {:?}", els, other)),
            }
        }
    });
}

// ------------------------------------------------------------------ C25
#[derive(Default)]
struct Ledger {
    /// serial number -> dropped
    seen: BTreeMap<u64, bool>,
    next: u64,
    errors: Vec<String>,
}
thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    static STEP: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<[u64; 2]> = const { Cell::new([0; 2]) };
    static PANICS: Cell<bool> = const { Cell::new(false) };
    static FIRED: Cell<u32> = const { Cell::new(0) };
}
const CANARY: u64 = 0xC0FF_EE11_D00D_F00D;
/// The part of an attribute value that must be dropped exactly once.
#[derive(Debug)]
struct Tok {
    id: u64,
    canary: u64,
}
impl Tok {
    fn new() -> Tok {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.next += 1;
            let id = l.next;
            l.seen.insert(id, false);
            Tok { id, canary: id ^ CANARY }
        })
    }
    fn live(&self, what: &str) {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            if self.canary != self.id ^ CANARY || l.seen.get(&self.id) != Some(&false) {
                let s = format!("{} used in {} although {}", self.id, what, if l.seen.contains_key(&self.id) { "already dropped" } else { "never created" });
                l.errors.push(s);
            }
        })
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.live("drop");
        let _ = LEDGER.try_with(|l| l.borrow_mut().seen.insert(self.id, true));
    }
}
/// A point where user code may fail; `can_err`: it can also return an error.
fn point(can_err: bool) -> Result<()> {
    let s = STEP.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if AT.with(|a| a.get()).contains(&s) && !std::thread::panicking() {
        if PANICS.with(|p| p.get()) {
            FIRED.with(|f| f.set(f.get() + 1));
            panic!("injected");
        } else if can_err {
            FIRED.with(|f| f.set(f.get() + 1));
            return Err(ErrorKind::Other.into());
        }
    }
    Ok(())
}
fn point_p() {
    let _ = point(false);
}
#[derive(Debug)]
pub struct Fault<const N: u16> {
    tok: Tok,
    v: u8,
}
impl<const N: u16> Fault<N> {
    pub const CODEPOINT: u16 = 0x7FA0 + N;
    fn new(v: u8) -> Self {
        Fault { tok: Tok::new(), v }
    }
    /// The hooks of the second type replace what the attribute holds, before and after they may fail.
    fn replace(&mut self) {
        if N == 1 {
            self.tok = Tok::new();
        }
    }
}
impl<const N: u16> Clone for Fault<N> {
    fn clone(&self) -> Self {
        self.tok.live("clone");
        point_p();
        Fault::new(self.v)
    }
}
impl<const N: u16> PartialEq for Fault<N> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<const N: u16> Eq for Fault<N> {}
impl<const N: u16> std::hash::Hash for Fault<N> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}
impl<const N: u16> Attribute for Fault<N> {
    type Decoder = FaultDecoder<N>;
    type Encoder = FaultEncoder<N>;
    fn get_type(&self) -> AttributeType {
        self.tok.live("get_type");
        point_p();
        AttributeType::new(Self::CODEPOINT)
    }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        self.tok.live("before_encode");
        m.attributes().for_each(|a| {
            a.get_type();
        });
        self.replace();
        point(true)?;
        self.replace();
        Ok(())
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        self.tok.live("after_decode");
        m.attributes().for_each(|a| {
            a.get_type();
        });
        // user code may also keep a copy for a moment
        let copy = m.clone();
        self.replace();
        let r = point(true);
        drop(copy);
        if r.is_ok() {
            self.replace();
        }
        r
    }
}
/// One byte of value; the attribute exists as soon as the byte has arrived.
#[derive(Debug)]
pub struct FaultDecoder<const N: u16>(Option<Fault<N>>);
impl<const N: u16> Default for FaultDecoder<N> {
    fn default() -> Self {
        point_p();
        FaultDecoder(None)
    }
}
impl<const N: u16> Decode for FaultDecoder<N> {
    type Item = Fault<N>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        point(true)?;
        if self.0.is_some() || buf.is_empty() {
            return if self.0.is_none() && eos.is_reached() { Err(ErrorKind::UnexpectedEos.into()) } else { Ok(0) };
        }
        self.0 = Some(Fault::new(buf[0]));
        Ok(1)
    }
    fn finish_decoding(&mut self) -> Result<Fault<N>> {
        point(true)?;
        self.0.take().ok_or_else(|| ErrorKind::IncompleteDecoding.into())
    }
    fn requiring_bytes(&self) -> ByteCount {
        point_p();
        ByteCount::Finite(self.0.is_none() as u64)
    }
    fn is_idle(&self) -> bool {
        point_p();
        self.0.is_some()
    }
}
impl<const N: u16> TryTaggedDecode for FaultDecoder<N> {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
        point(true)?;
        self.0 = None;
        Ok(t.as_u16() == Fault::<N>::CODEPOINT)
    }
}
#[derive(Debug)]
pub struct FaultEncoder<const N: u16>(Option<Fault<N>>);
impl<const N: u16> Default for FaultEncoder<N> {
    fn default() -> Self {
        point_p();
        FaultEncoder(None)
    }
}
impl<const N: u16> Encode for FaultEncoder<N> {
    type Item = Fault<N>;
    fn encode(&mut self, buf: &mut [u8], _eos: Eos) -> Result<usize> {
        point(true)?;
        if buf.is_empty() {
            return Ok(0);
        }
        match self.0.take() {
            None => Ok(0),
            Some(f) => {
                f.tok.live("encode");
                buf[0] = f.v;
                Ok(1)
            }
        }
    }
    fn start_encoding(&mut self, item: Fault<N>) -> Result<()> {
        point(true)?;
        if self.0.is_some() {
            return Err(ErrorKind::EncoderFull.into());
        }
        self.0 = Some(item);
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.exact_requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        point_p();
        self.0.is_none()
    }
}
impl<const N: u16> SizedEncode for FaultEncoder<N> {
    fn exact_requiring_bytes(&self) -> u64 {
        point_p();
        self.0.is_some() as u64
    }
}
pub type F0 = Fault<0>;
pub type F1 = Fault<1>;
define_attribute_enums!(FE, FEDecoder, FEEncoder, [F0, F1, Fingerprint, MessageIntegrity, XorMappedAddress]);
/// Wire elements: 0 F0, 1 F1, 2 unknown, 3 FINGERPRINT, 4 MESSAGE-INTEGRITY, 5 XOR-MAPPED-ADDRESS.
fn fault_bytes(els: &[usize]) -> Vec<u8> {
    let a: Vec<(u16, Vec<u8>)> = els
        .iter()
        .map(|e| match e {
            0 => (F0::CODEPOINT, vec![1]),
            1 => (F1::CODEPOINT, vec![2]),
            2 => (0x7EEE, vec![3, 4, 5]),
            3 => (0x8028, vec![]),
            4 => (8, vec![]),
            _ => (0x20, wire(0x20, 4)),
        })
        .collect();
    wire_msg(0x0101, &a)
}
fn build_fault(els: &[usize]) -> Message<FE> {
    let mut m = Message::new(class(2), Method::new(1).unwrap(), TransactionId::new(TID));
    for e in els {
        match e {
            0 => m.add_attribute(F0::new(1)),
            1 => m.add_attribute(F1::new(2)),
            3 => {
                if let Ok(f) = Fingerprint::new(&m) {
                    m.add_attribute(f)
                }
            }
            4 => {
                if let Ok(f) = MessageIntegrity::new_short_term_credential(&m, PW) {
                    m.add_attribute(f)
                }
            }
            5 => m.add_attribute(XorMappedAddress::new(addrs()[0])),
            _ => {}
        }
    }
    m
}
fn pump<S: Attribute>(d: &mut MessageDecoder<S>, b: &[u8], size: usize) -> Option<Message<S>> {
    let mut p = 0;
    while p < b.len() && !d.is_idle() {
        let e = (p + size).min(b.len());
        match d.decode(&b[p..e], Eos::new(e == b.len())) {
            Ok(0) if e == b.len() => break,
            Ok(n) => p += n,
            Err(_) => return None,
        }
        let _ = d.requiring_bytes();
    }
    d.finish_decoding().ok()?.ok()
}
fn flush<S: Attribute>(e: &mut MessageEncoder<S>, m: Message<S>, size: usize) -> bool {
    if e.start_encoding(m).is_err() {
        return false;
    }
    let mut buf = [0u8; 64];
    let mut idle = 0;
    while e.exact_requiring_bytes() > 0 && !e.is_idle() {
        match e.encode(&mut buf[..size], Eos::new(false)) {
            Ok(0) if idle > 3 => return false,
            Ok(0) => idle += 1,
            Ok(_) => {}
            Err(_) => return false,
        }
    }
    true
}
/// Runs `f`, absorbing injected panics.
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
const SCENARIOS: [&str; 7] = [
    "decode and drop",
    "decode, clone, inspect, format, drop",
    "decode, encode again",
    "decode twice with one decoder",
    "build, encode, encode another with one encoder",
    "decode input that ends in a malformed attribute, then good input",
    "decode and encode with the attribute type used directly",
];
fn scenario(s: usize, els: &[usize], size: usize) {
    let b = fault_bytes(els);
    match s {
        0 => {
            guard(|| drop(pump(&mut MessageDecoder::<FE>::new(), &b, size)));
        }
        1 => {
            let m = guard(|| pump(&mut MessageDecoder::<FE>::new(), &b, size)).flatten();
            if let Some(m) = m {
                let c = guard(|| m.clone());
                guard(|| drop(m.get_attribute::<F1>().map(|f| f.tok.live("get_attribute"))));
                guard(|| m.attributes().for_each(|a| drop(a.get_type())));
                guard(|| drop(format!("{:?}", m)));
                drop(c);
            }
        }
        2 => {
            let m = guard(|| pump(&mut MessageDecoder::<FE>::new(), &b, 4096)).flatten();
            if let Some(m) = m {
                guard(|| flush(&mut MessageEncoder::<FE>::new(), m, size));
            }
        }
        3 => {
            let mut d = guard(MessageDecoder::<FE>::new);
            if let Some(d) = &mut d {
                let m = guard(|| pump(d, &b, size)).flatten();
                let n = guard(|| pump(d, &fault_bytes(&[0, 1, 3]), 4096)).flatten();
                drop(n);
                drop(m);
            }
        }
        4 => {
            let mut e = guard(MessageEncoder::<FE>::new);
            if let Some(e) = &mut e {
                guard(|| flush(e, build_fault(els), size));
                guard(|| flush(e, build_fault(&[1, 0]), 64));
            }
        }
        5 => {
            let mut d = guard(MessageDecoder::<FE>::new);
            if let Some(d) = &mut d {
                let mut body = b[20..].to_vec();
                body.extend([0x7F, 0xA0, 0, 9, 1]);
                guard(|| drop(pump(d, &frame(0x0101, &body), size)));
                guard(|| drop(pump(d, &b, 4096)));
            }
        }
        _ => {
            let m = guard(|| pump(&mut MessageDecoder::<F0>::new(), &b, size)).flatten();
            if let Some(m) = m {
                let c = guard(|| m.clone());
                guard(|| flush(&mut MessageEncoder::<F0>::new(), m, size));
                drop(c);
            }
        }
    }
}
/// Runs a scenario with faults at the given points; returns points passed and faults fired.
fn run_fault(c: &mut Case, s: usize, els: &[usize], size: usize, panics: bool, at: [u64; 2]) -> (u64, u32) {
    LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
    STEP.with(|x| x.set(0));
    AT.with(|x| x.set(at));
    PANICS.with(|x| x.set(panics));
    FIRED.with(|x| x.set(0));
    scenario(s, els, size);
    let l = LEDGER.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let (steps, fired) = (STEP.with(|x| x.get()), FIRED.with(|x| x.get()));
    let say = || format!("{} over {:?}, chunks of {}, {} at points {:?}", SCENARIOS[s], els, size, if panics { "panic" } else { "error" }, at);
    c.op(1);
    c.outcome(match (fired, panics) {
        (0, _) => "no fault",
        (_, true) => "panic injected",
        _ => "error injected",
    });
    c.check("memory", l.errors.is_empty(), || format!("{}: value {}", say(), l.errors.join("; ")));
    let left = l.seen.values().filter(|d| !**d).count();
    if !panics || fired == 0 {
        c.check("leak", left == 0, || format!("{}: {} of {} values never dropped", say(), left, l.seen.len()));
    }
    (steps, fired)
}
pub fn c25(x: &mut Ctx) {
    let d = x.pick(4, 5);
    let k = 6u64;
    let lists = seqs(k, d);
    x.space("single", &format!("7 scenarios x all lists of up to {} elements over 6 (2 instrumented types, one whose hooks replace what it holds, unknown, FINGERPRINT, MESSAGE-INTEGRITY, XOR-MAPPED-ADDRESS) x chunk sizes 1, 5, 64 x error or panic at every point", d), 7 * lists * 3 * 2, |c, i| {
        let mut ix = Ix(i);
        let (p, size) = (ix.take(2) == 1, [64, 5, 1][ix.take(3)]);
        let s = ix.take(7);
        let els = seq(ix.0, k);
        c.sample(|| format!("{} over {:?}", SCENARIOS[s], els));
        let mut at = 0;
        loop {
            let (steps, _) = run_fault(c, s, &els, size, p, [at, 0]);
            c.state(&(i, at));
            at += 1;
            if at > steps {
                break;
            }
        }
    });
    let d = x.pick(3, 4);
    let lists = seqs(k, d);
    x.space("double", &format!("the same with all pairs of points, lists of up to {} elements, chunks of 64", d), 7 * lists * 2, |c, i| {
        let mut ix = Ix(i);
        let p = ix.take(2) == 1;
        let s = ix.take(7);
        let els = seq(ix.0, k);
        c.sample(|| format!("{} over {:?}", SCENARIOS[s], els));
        let mut a = 1;
        loop {
            let (mut steps, _) = run_fault(c, s, &els, 64, p, [a, 0]);
            if a > steps {
                break;
            }
            let mut b = a + 1;
            while b <= steps {
                steps = steps.max(run_fault(c, s, &els, 64, p, [a, b]).0);
                c.state(&(i, a, b));
                b += 1;
            }
            a += 1;
        }
    });
}

// ------------------------------------------------------------------ attributes whose codec fails
/// A user-defined attribute whose value says where its decoder, encoder or hooks fail, and with which kind of error:
/// [place, kind, ...]. Its decoder also takes the types above `CODEPOINT`, and fails to start them.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Fussy {
    pub v: Vec<u8>,
}
pub const PLACES: [&str; 8] = ["nowhere", "at the first bytes", "at the last bytes", "in finish_decoding", "after_decode", "before_encode", "start_encoding", "in the start of decoding"];
pub const KINDS: [ErrorKind; 7] =
    [ErrorKind::InvalidInput, ErrorKind::InconsistentState, ErrorKind::UnexpectedEos, ErrorKind::EncoderFull, ErrorKind::DecoderTerminated, ErrorKind::IncompleteDecoding, ErrorKind::Other];
impl Fussy {
    pub const CODEPOINT: u16 = 0x7FC0;
    /// The type whose decoding fails to start with the given kind.
    pub fn unstartable(kind: usize) -> u16 {
        Self::CODEPOINT + 1 + kind as u16
    }
}
fn fuss(v: &[u8], place: u8) -> Result<()> {
    match v {
        [p, k, ..] if *p == place => Err(KINDS[*k as usize % 7].into()),
        _ => Ok(()),
    }
}
impl Attribute for Fussy {
    type Decoder = FussyDecoder;
    type Encoder = FussyEncoder;
    fn get_type(&self) -> AttributeType {
        AttributeType::new(Self::CODEPOINT)
    }
    fn before_encode<A: Attribute>(&mut self, _: &Message<A>) -> Result<()> {
        fuss(&self.v, 5)
    }
    fn after_decode<A: Attribute>(&mut self, _: &Message<A>) -> Result<()> {
        fuss(&self.v, 4)
    }
}
#[derive(Debug, Default)]
pub struct FussyDecoder {
    v: Vec<u8>,
    done: bool,
}
impl Decode for FussyDecoder {
    type Item = Fussy;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.v.extend_from_slice(buf);
        fuss(&self.v, 1)?;
        if eos.is_reached() {
            fuss(&self.v, 2)?;
            self.done = true;
        }
        Ok(buf.len())
    }
    fn finish_decoding(&mut self) -> Result<Fussy> {
        fuss(&self.v, 3)?;
        self.done = false;
        Ok(Fussy { v: std::mem::take(&mut self.v) })
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.done {
            ByteCount::Finite(0)
        } else {
            ByteCount::Unknown
        }
    }
    fn is_idle(&self) -> bool {
        self.done
    }
}
impl TryTaggedDecode for FussyDecoder {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
        match t.as_u16().wrapping_sub(Fussy::CODEPOINT) {
            0 => Ok(true),
            k @ 1..=7 => Err(KINDS[k as usize - 1].into()),
            _ => Ok(false),
        }
    }
}
#[derive(Debug, Default)]
pub struct FussyEncoder(BytesEncoder<Vec<u8>>);
impl Encode for FussyEncoder {
    type Item = Fussy;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: Fussy) -> Result<()> {
        fuss(&item.v, 6)?;
        self.0.start_encoding(item.v)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl SizedEncode for FussyEncoder {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}
impl AttrSet for Fussy {
    fn cps() -> Vec<u16> {
        vec![Fussy::CODEPOINT]
    }
    fn cv(&self) -> (u16, Val) {
        (Fussy::CODEPOINT, Val::Bytes(self.v.clone()))
    }
    fn make(cp: u16, v: &Val) -> Option<Self> {
        match v {
            Val::Bytes(v) if cp == Fussy::CODEPOINT => Some(Fussy { v: v.clone() }),
            _ => None,
        }
    }
}
define_attribute_enums!(FZ, FZDecoder, FZEncoder, [Software, Fussy]);
impl AttrSet for FZ {
    fn cps() -> Vec<u16> {
        vec![0x8022, Fussy::CODEPOINT]
    }
    fn cv(&self) -> (u16, Val) {
        match self {
            FZ::Software(a) => (0x8022, a.view()),
            FZ::Fussy(a) => a.cv(),
        }
    }
    fn make(cp: u16, v: &Val) -> Option<Self> {
        match cp {
            0x8022 => <Software as View>::make(v).map(FZ::from),
            _ => <Fussy as AttrSet>::make(cp, v).map(FZ::from),
        }
    }
}
