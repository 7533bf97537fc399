//! C11 XOR addresses, C12 value domains, C13 value layouts, C19 standalone value codecs.
use crate::conv::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_enc::err_kind;
use crate::refm::*;
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, TryTaggedDecode};
use std::net::{IpAddr, SocketAddr};
use std::time::Duration;
use stun_codec::net::{socket_addr_xor, SocketAddrDecoder, SocketAddrEncoder};
use stun_codec::{Attribute, AttributeType, Message, MessageDecoder, Method, RawAttribute, RawAttributeDecoder, RawAttributeEncoder, TransactionId};

// ---------------------------------------------------------------- C11
fn addr(ip: &[u8], port: u16) -> SocketAddr {
    let ip = if ip.len() == 4 {
        IpAddr::from([ip[0], ip[1], ip[2], ip[3]])
    } else {
        let mut o = [0u8; 16];
        o.copy_from_slice(ip);
        IpAddr::from(o)
    };
    SocketAddr::new(ip, port)
}
fn xor_case(c: &mut Case, a: SocketAddr, t: [u8; 12]) {
    c.state(&(a, t));
    c.sample(|| format!("{} with {}", a, hex(&t)));
    let tid = TransactionId::new(t);
    let x = socket_addr_xor(a, tid);
    c.op(2);
    c.eq("xor", || format!("socket_addr_xor({}, {})", a, hex(&t)), &x, &xor_addr(a, &t));
    c.eq("involution", || format!("twice on {} with {}", a, hex(&t)), &socket_addr_xor(x, tid), &a);
}
fn typed_addr(cp: u16, a: SocketAddr) -> Option<All> {
    All::make(cp, &Val::Addr(a))
}
const ADDR_CPS: [u16; 8] = [0x0001, 0x0012, 0x0016, 0x0020, 0x8020, 0x8023, 0x802B, 0x802C];
/// Address attribute in a message: view, wire, view.
fn addr_case(c: &mut Case, cp: u16, a: SocketAddr, t: [u8; 12], before: &[MAttr]) {
    addr_case_in(c, 2, 1, cp, a, t, before)
}
fn addr_case_in(c: &mut Case, class: u8, method: u16, cp: u16, a: SocketAddr, t: [u8; 12], before: &[MAttr]) {
    c.state(&(class, method, cp, a, t, before));
    c.sample(|| format!("{}={} with {} in {}/{}", name_of(cp), a, hex(&t), class, method));
    let mut attrs = before.to_vec();
    attrs.push(MAttr::known(cp, Val::Addr(a)));
    attrs.push(MAttr::known(cp, Val::Addr(a)));
    let m = msg(class, method, t, attrs);
    let want = encode_msg(&m);
    let Some(x) = typed_addr(cp, a) else { return c.fail("refused", || name_of(cp)) };
    c.eq("view", || format!("{} before encoding", name_of(cp)), &x.cv().1, &Val::Addr(a));
    let msg: Message<All> = match build(&m) {
        Ok(m) => m,
        Err(e) => return c.fail("refused", || e),
    };
    c.op(3);
    c.eq("view", || format!("{} in the message", name_of(cp)), &see(&msg), &expect(&m));
    let got = encode(msg).ok();
    if !c.check("wire", got == want, || format!("{} {} encodes to {:?} instead of {:?}", name_of(cp), a, got.as_deref().map(hex), want.as_deref().map(hex))) {
        return;
    }
    let b = got.unwrap();
    let (obs, _, _) = feed_whole(&mut MessageDecoder::<All>::new(), &b);
    c.outcome(obs.kind());
    c.eq("decoded-view", || format!("{} decoded from {}", name_of(cp), hex(&b)), &obs, &Obs::Ok(expect(&m)));
}
pub fn c11(x: &mut Ctx) {
    x.assumptions.push("a transport address is an IP address and a port; flow information and scope of IPv6 socket addresses are not on the wire and not part of it".into());
    let t = tids();
    let v4 = [[192u8, 0, 2, 1], [0, 0, 0, 0], [255, 255, 255, 255], [0x21, 0x12, 0xa4, 0x42]];
    let v6: Vec<[u8; 16]> = vec![[0; 16], [0xff; 16], [0x20, 1, 0xd, 0xb8, 0x12, 0x34, 0x56, 0x78, 0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77], {
        let mut o = [0u8; 16];
        o[..4].copy_from_slice(&COOKIE);
        o[4..].copy_from_slice(&TID);
        o
    }];
    x.space("ports", "all 65536 ports x 4 IPv4 and 4 IPv6 addresses x 4 transaction ids", 65536 * 8 * 4, |c, i| {
        let mut ix = Ix(i);
        let p = ix.take(65536) as u16;
        let (k, ti) = (ix.take(8), ix.take(4));
        let a = if k < 4 { addr(&v4[k], p) } else { addr(&v6[k - 4], p) };
        xor_case(c, a, t[ti]);
    });
    let wide_ids = tids_wide();
    x.space("tids-wide", &format!("{} transaction ids of words that mean something elsewhere, repeated bytes x 4 IPv4 and 4 IPv6 addresses, and that which is all zero after XORing", wide_ids.len()), wide_ids.len() as u64 * 9, |c, i| {
        let mut ix = Ix(i);
        let (k, id) = (ix.take(9), wide_ids[ix.take(wide_ids.len())]);
        let a = match k {
            0..=3 => addr(&v4[k], 3478),
            8 => {
                let mut o = [0u8; 16];
                o[..4].copy_from_slice(&COOKIE);
                o[4..].copy_from_slice(&id);
                addr(&o, 3478)
            }
            _ => addr(&v6[k - 4], 3478),
        };
        xor_case(c, a, id);
    });
    x.space("tid-pairs", "all values of each pair of adjacent transaction id bytes on 2 backgrounds x IPv6", TID_PAIRS, |c, i| xor_case(c, addr(&v6[2], 80), tid_pair(i)));
    x.space("v4-pairs", "all values of each pair of IPv4 octets x 2 backgrounds", 6 * 65536 * 2, |c, i| {
        let mut ix = Ix(i);
        let (p, q) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][ix.take(6)];
        let (u, v) = (ix.take(256) as u8, ix.take(256) as u8);
        let mut o = v4[ix.take(2)];
        o[p] = u;
        o[q] = v;
        xor_case(c, addr(&o, 3478), TID);
    });
    x.space("v6-octet-tid", "all values of each IPv6 octet x all values of each transaction id byte", 16 * 256 * 12 * 256, |c, i| {
        let mut ix = Ix(i);
        let (p, u, q, v) = (ix.take(16), ix.take(256) as u8, ix.take(12), ix.take(256) as u8);
        let mut o = v6[2];
        o[p] = u;
        let mut t = TID;
        t[q] = v;
        xor_case(c, addr(&o, 65535), t);
    });
    {
        x.space("v6-pairs", "all values of each pair of IPv6 octets", 120 * 65536, |c, i| {
            let mut ix = Ix(i);
            let (u, v) = (ix.take(256) as u8, ix.take(256) as u8);
            let mut k = ix.take(120);
            let mut p = 0;
            while k >= 15 - p {
                k -= 15 - p;
                p += 1;
            }
            let mut o = v6[2];
            o[p] = u;
            o[p + 1 + k] = v;
            xor_case(c, addr(&o, 1), TID);
        });
        x.space("v4-tid", "IPv4 under all values of each pair of transaction id bytes (must not matter)", 66 * 65536, |c, i| {
            let mut ix = Ix(i);
            let (u, v) = (ix.take(256) as u8, ix.take(256) as u8);
            let mut k = ix.take(66);
            let mut p = 0;
            while k >= 11 - p {
                k -= 11 - p;
                p += 1;
            }
            let mut t = TID;
            t[p] = u;
            t[p + 1 + k] = v;
            xor_case(c, addr(&v4[0], 3478), t);
        });
    }
    // attributes in messages
    let befores: Vec<Vec<MAttr>> = vec![vec![], vec![attrs_core()[0].clone()], vec![attrs_core()[1].clone(), attrs_core()[3].clone()]];
    x.space("attr-ports", "all 65536 ports x 8 address attributes x IPv4 and IPv6", 65536 * 16, |c, i| {
        let mut ix = Ix(i);
        let p = ix.take(65536) as u16;
        let cp = ADDR_CPS[ix.take(8)];
        let a = if ix.take(2) == 0 { addr(&v4[0], p) } else { addr(&v6[2], p) };
        addr_case(c, cp, a, TID, &[]);
    });
    x.space("attr-headers", "all 4 classes x 4096 methods x 8 address attributes x IPv4 and IPv6, alone or behind others", 4 * 4096 * 32, |c, i| {
        let mut ix = Ix(i);
        let (class, method) = (ix.take(4) as u8, ix.take(4096) as u16);
        let cp = ADDR_CPS[ix.take(8)];
        let a = if ix.take(2) == 0 { addr(&v4[0], 3478) } else { addr(&v6[2], 3478) };
        addr_case_in(c, class, method, cp, a, TID, &befores[ix.take(2) * 2]);
    });
    x.space("attr-octets", "all values of each octet of IPv4 and IPv6 x 8 address attributes x 3 preceding attribute lists", 20 * 256 * 8 * 3, |c, i| {
        let mut ix = Ix(i);
        let (p, u) = (ix.take(20), ix.take(256) as u8);
        let cp = ADDR_CPS[ix.take(8)];
        let b = &befores[ix.take(3)];
        let a = if p < 4 {
            let mut o = v4[0];
            o[p] = u;
            addr(&o, 32853)
        } else {
            let mut o = v6[2];
            o[p - 4] = u;
            addr(&o, 32853)
        };
        addr_case(c, cp, a, TID, b);
    });
    x.space("attr-tid", "all values of each transaction id byte x 8 address attributes x IPv4 and IPv6", 12 * 256 * 16, |c, i| {
        let mut ix = Ix(i);
        let (p, u) = (ix.take(12), ix.take(256) as u8);
        let cp = ADDR_CPS[ix.take(8)];
        let mut t = TID;
        t[p] = u;
        addr_case(c, cp, if ix.take(2) == 0 { addr(&v4[0], 32853) } else { addr(&v6[2], 32853) }, t, &[]);
    });
    // addresses of special structure, plain and as they appear on the wire
    let groups: Vec<u16> = if x.thorough() { vec![0, 0xffff, 0x2001, 0xfe80, 1, 0x2112, 0xa442] } else { vec![0, 0xffff, 0x2001, 1] };
    let ng = groups.len() as u64;
    x.space("v6-structured", &format!("all 8-tuples of IPv6 groups over {:x?}, plain or XORed: XOR and 4 address attributes", groups), ng.pow(8) * 2, |c, i| {
        let mut ix = Ix(i);
        let xored = ix.take(2) == 1;
        let mut o = [0u8; 16];
        for g in 0..8 {
            o[2 * g..2 * g + 2].copy_from_slice(&groups[ix.take(groups.len())].to_be_bytes());
        }
        let mut a = addr(&o, 0x0102);
        if xored {
            a = xor_addr(a, &TID);
        }
        xor_case(c, a, TID);
        for cp in ADDR_CPS.into_iter().skip((i % 2) as usize * 4).take(4) {
            addr_case(c, cp, a, TID, &[]);
        }
    });
    let octs: Vec<u8> = if x.thorough() { (0..=255u8).filter(|o| o % 8 == 1 || [0, 2, 10, 100, 127, 128, 168, 169, 172, 191, 192, 223, 224, 239, 240, 254, 255].contains(o)).collect() } else { vec![0, 1, 2, 9, 10, 100, 127, 128, 169, 172, 191, 192, 224, 239, 240, 254, 255] };
    let no = octs.len() as u64;
    x.space("v4-structured", &format!("all IPv4 addresses over the octets {:?}, plain or XORed, 3 ports: XOR and all address attributes", octs), no.pow(4) * 6, |c, i| {
        let mut ix = Ix(i);
        let xored = ix.take(2) == 1;
        let port = [0u16, 0x2112, 32853][ix.take(3)];
        let o: Vec<u8> = (0..4).map(|_| octs[ix.take(octs.len())]).collect();
        let mut a = addr(&o, port);
        if xored {
            a = xor_addr(a, &TID);
        }
        xor_case(c, a, TID);
        addr_case(c, ADDR_CPS[(i % 8) as usize], a, TID, &[]);
        addr_case(c, ADDR_CPS[((i / 8) % 8) as usize], a, TID, &[]);
    });
    // IPv4 inside IPv6
    x.space("v6-embedded", "IPv4-mapped, -compatible, -translated, NAT64, 6to4, Teredo and ISATAP forms of 4^4 IPv4 addresses, plain or XORed, x all address attributes", 7 * 256 * 2 * 8, |c, i| {
        let mut ix = Ix(i);
        let cp = ADDR_CPS[ix.take(8)];
        let xored = ix.take(2) == 1;
        let v: Vec<u8> = (0..4).map(|_| [0u8, 1, 127, 255][ix.take(4)]).collect();
        let mut o = [0u8; 16];
        let at = match ix.take(7) {
            0 => {
                o[10] = 0xff;
                o[11] = 0xff;
                12
            }
            1 => 12,
            2 => {
                o[8] = 0xff;
                o[9] = 0xff;
                12
            }
            3 => {
                o[..4].copy_from_slice(&[0, 0x64, 0xff, 0x9b]);
                12
            }
            4 => {
                o[..2].copy_from_slice(&[0x20, 2]);
                2
            }
            5 => {
                o[..4].copy_from_slice(&[0x20, 1, 0, 0]);
                4
            }
            _ => {
                o[..2].copy_from_slice(&[0xfe, 0x80]);
                o[10..12].copy_from_slice(&[0x5e, 0xfe]);
                12
            }
        };
        o[at..at + 4].copy_from_slice(&v);
        let mut a = addr(&o, 3478);
        if xored {
            a = xor_addr(a, &TID);
        }
        xor_case(c, a, TID);
        addr_case(c, cp, a, TID, &[]);
    });
    let alpha: Vec<MAttr> = ADDR_CPS.iter().flat_map(|cp| [MAttr::known(*cp, Val::Addr(addrs()[0])), MAttr::known(*cp, Val::Addr(addrs()[4]))]).collect();
    let d = x.pick(4, 5);
    x.space("attr-seq", &format!("all lists of up to {} of {} address attributes in one message", d, alpha.len()), seqs(alpha.len() as u64, d), |c, i| {
        let l = seq(i, alpha.len() as u64).into_iter().map(|j| alpha[j].clone()).collect();
        let m = msg((i % 4) as u8, 1, t[(i % 4) as usize], l);
        c.state(&m);
        c.sample(|| format!("{:?}", m.attrs));
        let msg: Message<All> = match build(&m) {
            Ok(m) => m,
            Err(e) => return c.fail("refused", || e),
        };
        c.op(2);
        let (want, got) = (encode_msg(&m), encode(msg).ok());
        if c.check("wire", got == want, || format!("{:?} encodes to {:?} instead of {:?}", m.attrs, got.as_deref().map(hex), want.as_deref().map(hex))) {
            let b = got.unwrap();
            let (obs, dm, _) = feed_whole(&mut MessageDecoder::<All>::new(), &b);
            c.eq("decoded-view", || hex(&b), &obs, &Obs::Ok(expect(&m)));
            // forwarding the decoded message with another set of hooks run on the copy
            if let Some(dm) = dm {
                let copy = dm.clone();
                let again = encode(dm).ok();
                c.check("re-encode", again.as_deref() == Some(&b[..]), || format!("{} re-encodes to {:?}", hex(&b), again.as_deref().map(hex)));
                c.eq("decoded-view", || "clone kept while the message was encoded".into(), &see(&copy), &expect(&m));
            }
        }
    });
    // received values: the view is the XOR of the wire
    x.space("wire-octets", "all values of each value byte x 8 address attributes x IPv4 and IPv6", 20 * 256 * 16, |c, i| {
        let mut ix = Ix(i);
        let (p, u) = (ix.take(20), ix.take(256) as u8);
        let cp = ADDR_CPS[ix.take(8)];
        let mut v = wire(cp, if ix.take(2) == 0 { 0 } else { 4 });
        if p >= v.len() {
            return c.skip();
        }
        v[p] = u;
        let b = wire_msg(0x0101, &[(cp, v)]);
        c.state(&b);
        let (o, _) = decode_msg(&b, &all_cps(), FpMode::Received);
        let f = feed(&mut MessageDecoder::<All>::new(), &b, &[], true);
        c.op(1);
        c.outcome(f.obs.kind());
        c.check("received-view", agrees(&f.obs, &o), || format!("{}: {:?} expected {:?}", hex(&b), f.obs, want(&o)));
    });
}

// ---------------------------------------------------------------- codecs of single attributes
/// Monomorphic access to the codec of one attribute type.
pub struct Codec {
    pub cp: u16,
    pub kind: Kind,
    pub dec: fn(&[u8]) -> Result<Val, String>,
    pub enc: fn(&Val) -> Option<Result<Vec<u8>, String>>,
    /// decodes values one after the other with one decoder; (cuts, value)
    pub dec_seq: fn(&[(Vec<usize>, Vec<u8>, bool)], &mut u64) -> Result<Vec<Result<Val, ()>>, String>,
    /// encodes values one after the other with one encoder
    pub enc_seq: fn(&[(Vec<usize>, Val)], &mut u64) -> Result<Vec<Vec<u8>>, String>,
    /// compares a used decoder with a fresh one, neither of them started
    unstarted: fn(&mut Case, &[Vec<u8>], usize, &[usize]),
}
/// Kind of the value outside a message: no XOR there.
pub fn plain(k: Kind) -> Kind {
    if k == Kind::Xor {
        Kind::Addr
    } else {
        k
    }
}
/// Feeds one value in fragments; the decoder must be idle exactly when it is complete.
/// `eos` marks the last fragment as end of the value (values without a length of their own need it).
pub fn feed_value<D: Decode>(d: &mut D, b: &[u8], cuts: &[usize], eos: bool, fixed: Option<usize>, calls: &mut u64) -> Result<Result<D::Item, ()>, String> {
    let mut used = 0;
    let mut asked: Vec<(usize, bytecodec::ByteCount)> = vec![];
    // what it asks for: something until the value is complete, nothing behind a value with its own length
    let demand = |asked: &[(usize, bytecodec::ByteCount)], end: usize| match asked.iter().find(|(at, n)| match n {
        bytecodec::ByteCount::Finite(n) => *n == 0 && *at < end || fixed.is_some() && *n > (end - at) as u64,
        bytecodec::ByteCount::Infinite => fixed.is_some(),
        bytecodec::ByteCount::Unknown => false,
    }) {
        Some((at, n)) => Err(format!("asks for {:?} after {} of {} bytes", n, at, end)),
        None => Ok(()),
    };
    for i in 0..=cuts.len() {
        let end = if i < cuts.len() { cuts[i] } else { b.len() };
        let last = i == cuts.len();
        let mut first = true;
        while first || used < end {
            first = false;
            *calls += 1;
            if fixed != Some(0) {
                asked.push((used, d.requiring_bytes()));
            }
            let n = match d.decode(&b[used..end], Eos::new(eos && last)) {
                Ok(n) => n,
                Err(_) => return Ok(Err(())),
            };
            if n > end - used {
                return Err(format!("consumes {} of {} bytes", n, end - used));
            }
            used += n;
            if let Some(f) = fixed {
                // a value with its own length: idle exactly at its end
                if f > 0 && (used >= f) != d.is_idle() {
                    return Err(format!("idle={} after {} of {} bytes", d.is_idle(), used, f));
                }
                if used > f {
                    return Err(format!("consumed {} of a value of {} bytes", used, f));
                }
                if used == f {
                    let r = d.finish_decoding().map_err(|_| ());
                    if r.is_ok() {
                        demand(&asked, used)?;
                    }
                    return Ok(r);
                }
            } else if eos && last && used == b.len() {
                if !d.is_idle() {
                    return Ok(Err(()));
                }
                let r = d.finish_decoding().map_err(|_| ());
                if r.is_ok() {
                    demand(&asked, used)?;
                }
                return Ok(r);
            } else if d.is_idle() && !b.is_empty() {
                return Err(format!("idle after {} of {} bytes without end of stream", used, b.len()));
            }
            if n == 0 && end > used {
                return Err(format!("no progress at {}", used));
            }
        }
    }
    if !d.is_idle() {
        return Ok(Err(()));
    }
    Ok(d.finish_decoding().map_err(|_| ()))
}
/// Length of values of the kind when the layout fixes it (given the value for addresses).
pub fn fixed_len(k: Kind, v: &[u8]) -> Option<usize> {
    use Kind::*;
    Some(match k {
        Addr | Xor => {
            if v.len() == 8 {
                8
            } else {
                20
            }
        }
        Fp | U32 | Chan | Port | Trans | Fam | Change => 4,
        U64 => 8,
        Mi => 20,
        Even => 1,
        Unit => 0,
        Str | User | ErrCode | Types | Bytes => return None,
    })
}
macro_rules! codec_table {
    ($($t:ident),*) => {
        pub fn codecs() -> Vec<Codec> {
            vec![$({
                type D = <$t as Attribute>::Decoder;
                type E = <$t as Attribute>::Encoder;
                fn start(d: &mut D) -> Result<(), String> {
                    match d.try_start_decoding(AttributeType::new($t::CP)) {
                        Ok(true) => Ok(()),
                        o => Err(format!("try_start_decoding of its own type: {:?}", o)),
                    }
                }
                fn dec(b: &[u8]) -> Result<Val, String> {
                    let mut d = D::default();
                    start(&mut d)?;
                    d.decode_from_bytes(b).map(|x| x.view()).map_err(|e| e.to_string())
                }
                fn enc(v: &Val) -> Option<Result<Vec<u8>, String>> {
                    let x = <$t as View>::make(v)?;
                    Some(E::default().encode_into_bytes(x).map_err(|e| e.to_string()))
                }
                fn dec_seq(vs: &[(Vec<usize>, Vec<u8>, bool)], calls: &mut u64) -> Result<Vec<Result<Val, ()>>, String> {
                    let mut d = D::default();
                    let k = kind_of($t::CP).unwrap();
                    let mut out = vec![];
                    for (cuts, b, eos) in vs {
                        start(&mut d)?;
                        let r = feed_value(&mut d, b, cuts, *eos, fixed_len(k, b), calls)?;
                        out.push(r.map(|x| x.view()));
                        if matches!(out.last(), Some(Err(()))) {
                            break;
                        }
                    }
                    Ok(out)
                }
                fn enc_seq(vs: &[(Vec<usize>, Val)], calls: &mut u64) -> Result<Vec<Vec<u8>>, String> {
                    let mut e = E::default();
                    let mut out = vec![];
                    for (sizes, v) in vs {
                        let x = <$t as View>::make(v).ok_or("refused")?;
                        if !e.is_idle() {
                            return Err("encoder not idle before a value".into());
                        }
                        e.start_encoding(x).map_err(|x| format!("start: {}", x))?;
                        out.push(drain_value(&mut e, sizes, 1 << 17, calls)?);
                    }
                    Ok(out)
                }
                fn unstarted(c: &mut Case, v: &[Vec<u8>], used: usize, ops: &[usize]) {
                    unstarted_case::<D>(c, $t::CP, v, used, ops);
                }
                Codec { cp: $t::CP, kind: kind_of($t::CP).unwrap(), dec, enc, dec_seq, enc_seq, unstarted }
            }),*]
        }
    };
}
for_all_attrs!(codec_table);

pub fn real_vals(k: Kind) -> Vec<Val> {
    match k {
        Kind::Fp => vals(Kind::U32),
        Kind::Mi => vec![Val::Bytes((0..20).collect()), Val::Bytes(vec![0; 20]), Val::Bytes(vec![0xff; 20])],
        k => vals(k),
    }
}

// ---------------------------------------------------------------- C13
fn dec_case(c: &mut Case, k: &Codec, b: &[u8]) {
    c.state(&(k.cp, b));
    c.sample(|| format!("{} {}", name_of(k.cp), hex(b)));
    let want = decode_value(plain(k.kind), b, &TID);
    c.op(1);
    let got = (k.dec)(b).ok();
    c.outcome(if got.is_some() { "decoded" } else { "refused" });
    c.eq("decode", || format!("{} value {}", name_of(k.cp), hex(b)), &got, &want);
    if let Some(v) = got {
        enc_case(c, k, &v);
    }
}
fn enc_case(c: &mut Case, k: &Codec, v: &Val) {
    c.state(&(k.cp, v));
    let want = encode_value(plain(k.kind), v, &TID);
    c.op(2);
    match (k.enc)(v) {
        None => c.fail("refused", || format!("{} constructor refuses {:?}", name_of(k.cp), v)),
        Some(Err(e)) => c.fail("encode", || format!("{} {:?}: {}", name_of(k.cp), v, e)),
        Some(Ok(b)) => {
            if c.check("encode", b == want, || format!("{} {:?} encodes to {} instead of {}", name_of(k.cp), v, hex(&b), hex(&want))) {
                c.eq("identity", || format!("{} {}", name_of(k.cp), hex(&b)), &(k.dec)(&b).ok().as_ref(), &Some(v));
            }
        }
    }
}
pub fn c13(x: &mut Ctx) {
    let ks = codecs();
    let nk = ks.len();
    x.space("values", "boundary values of all 32 types, both directions", (nk * 64) as u64, |c, i| {
        let mut ix = Ix(i);
        let k = &ks[ix.take(nk)];
        let vs = real_vals(k.kind);
        let Some(v) = vs.get(ix.take(64)) else { return c.skip() };
        c.sample(|| format!("{} {:?}", name_of(k.cp), v));
        enc_case(c, k, v);
    });
    let maxlen = x.pick(2200u64, 65536);
    let fills: [u8; 9] = [0, 1, 2, 3, 4, 0x41, 0x40, 0x80, 0xff];
    x.space("lengths", &format!("all value lengths below {} x 32 types x 9 fillings (3 above 8,200)", maxlen), maxlen * nk as u64 * 9, |c, i| {
        let mut ix = Ix(i);
        let k = &ks[ix.take(nk)];
        let f = fills[ix.take(9)];
        if ix.0 > 8200 && ![0, 3, 0x41].contains(&f) {
            return c.skip();
        }
        dec_case(c, k, &vec![f; ix.0 as usize]);
    });
    // typical values cut or extended to every length
    x.space("cut-extend", "typical values cut to every shorter length and extended by up to 40 bytes x 32 types x 3 extensions", (nk * 64 * 3 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let k = &ks[ix.take(nk)];
        let e = [0u8, 1, 0x41][ix.take(3)];
        let vs = real_vals(k.kind);
        let v = &vs[if ix.take(2) == 0 { 0 } else { vs.len().min(5) - 1 }];
        let mut b = encode_value(plain(k.kind), v, &TID);
        let n = ix.0 as usize;
        if n > b.len() + 40 {
            return c.skip();
        }
        b.resize(n, e);
        dec_case(c, k, &b);
    });
    x.space("bytes", "every byte of every boundary value (first 24 bytes) replaced by all 256 values x 32 types", (nk * 24 * 256 * 30) as u64, |c, i| {
        let mut ix = Ix(i);
        let k = &ks[ix.take(nk)];
        let (p, u) = (ix.take(24), ix.take(256) as u8);
        let vs = real_vals(k.kind);
        let Some(v) = vs.get(ix.take(30)) else { return c.skip() };
        let mut b = encode_value(plain(k.kind), v, &TID);
        if p >= b.len() || b.len() > 64 {
            return c.skip();
        }
        b[p] = u;
        dec_case(c, k, &b);
    });
    let span = x.pick(8usize, 24);
    x.space("byte-pairs", &format!("all 65536 contents of each pair of adjacent bytes among the first {} of the first value of each type", span), (nk * (span - 1) * 65536) as u64, |c, i| {
        let mut ix = Ix(i);
        let (u, v) = (ix.take(256) as u8, ix.take(256) as u8);
        let p = ix.take(span - 1);
        let k = &ks[ix.take(nk)];
        let mut b = encode_value(plain(k.kind), &real_vals(k.kind)[0], &TID);
        if p + 2 > b.len() {
            return c.skip();
        }
        b[p] = u;
        b[p + 1] = v;
        dec_case(c, k, &b);
    });
    {
        x.space("word-bits", "all contents of any two bytes of 4-byte values x all types", (nk * 6 * 65536) as u64, |c, i| {
            let mut ix = Ix(i);
            let (u, v) = (ix.take(256) as u8, ix.take(256) as u8);
            let (p, q) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][ix.take(6)];
            let k = &ks[ix.take(nk)];
            let mut b = encode_value(plain(k.kind), &real_vals(k.kind)[0], &TID);
            if b.len() != 4 {
                return c.skip();
            }
            b[p] = u;
            b[q] = v;
            dec_case(c, k, &b);
        });
    }
    {
        const W: [u8; 12] = [0, 1, 2, 3, 4, 6, 0x21, 0x40, 0x4f, 0x7f, 0x80, 0xff];
        x.space("words4", &format!("all 4-byte values over {:x?} x all types", W), (nk * 20736) as u64, |c, i| {
            let mut ix = Ix(i);
            let b: Vec<u8> = (0..4).map(|_| W[ix.take(12)]).collect();
            dec_case(c, &ks[ix.take(nk)], &b);
        });
        let v: Vec<u8> = x.pick(vec![0, 1, 2, 0xff], vec![0, 1, 2, 0x7f, 0x80, 0xff]);
        let n = v.len();
        x.space("words8", &format!("all 8-byte values over {:x?} x all types", v), nk as u64 * (n as u64).pow(8), |c, i| {
            let mut ix = Ix(i);
            let b: Vec<u8> = (0..8).map(|_| v[ix.take(n)]).collect();
            dec_case(c, &ks[ix.take(nk)], &b);
        });
    }
    // complete domains
    let by = |cp: u16| ks.iter().find(|k| k.cp == cp).unwrap();
    x.space("u16", "all channel numbers, response ports, error codes, protocols, list elements", 65536 * 5, |c, i| {
        let mut ix = Ix(i);
        let n = ix.take(65536) as u16;
        match ix.0 {
            0 if (0x4000..=0x4fff).contains(&n) => enc_case(c, by(0xC), &Val::U(n as u64)),
            1 => enc_case(c, by(0x27), &Val::U(n as u64)),
            2 if (300..600).contains(&n) => enc_case(c, by(9), &Val::Err(n, "x".into())),
            3 if n < 256 => enc_case(c, by(0x19), &Val::U(n as u64)),
            4 => enc_case(c, by(0xA), &Val::Types(vec![n, !n, 0])),
            _ => c.skip(),
        }
    });
    x.space("bits", "each bit and pair of bits of 32- and 64-bit values", 64 * 64 * 6, |c, i| {
        let mut ix = Ix(i);
        let v = (1u64 << ix.take(64)) | (1u64 << ix.take(64));
        let cp = [0xDu16, 0x24, 0x8028, 0x22, 0x8029, 0x802A][ix.take(6)];
        let k = by(cp);
        if k.kind != Kind::U64 && v > u32::MAX as u64 {
            return c.skip();
        }
        enc_case(c, k, &Val::U(v));
        enc_case(c, k, &Val::U(if k.kind == Kind::U64 { !v } else { !v & 0xffff_ffff }));
    });
    x.space("utf8", "all 1- and 2-byte strings, and all 3-byte strings over 40 structurally distinct bytes, as text values of 5 types", (256 + 65536 + 64000) * 5, |c, i| {
        let mut ix = Ix(i);
        let k = by([6u16, 0x14, 0x15, 0x8022, 9][ix.take(5)]);
        let r = ix.0 as usize;
        const S: [u8; 40] = [
            0, 1, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xcf, 0xd0, 0xdf, 0xe0, 0xe1, 0xe2, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3,
            0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff,
        ];
        let s: Vec<u8> = if r < 256 {
            vec![r as u8]
        } else if r < 256 + 65536 {
            vec![(r - 256) as u8, ((r - 256) >> 8) as u8]
        } else {
            let q = r - 256 - 65536;
            vec![S[q % 40], S[q / 40 % 40], S[q / 1600]]
        };
        let b = if k.kind == Kind::ErrCode { [vec![0, 0, 4, 20], s].concat() } else { s };
        dec_case(c, k, &b);
    });
    let d = x.pick(5u32, 7);
    x.space("types", &format!("all UNKNOWN-ATTRIBUTES lists of up to {} over 8 types and all byte lengths 0..80", d), seqs(8, d) + 80, |c, i| {
        let n = seqs(8, d);
        if i >= n {
            return dec_case(c, by(0xA), &vec![0x12; (i - n) as usize]);
        }
        let t = [0u16, 1, 0x7fff, 0x8000, 0xffff, 0x0100, 0x00ff, 0x0a00];
        enc_case(c, by(0xA), &Val::Types(seq(i, 8).into_iter().map(|j| t[j]).collect()));
    });
    let w: Vec<(usize, Val)> = (0..nk)
        .filter(|j| !matches!(ks[*j].kind, Kind::Fp | Kind::Mi))
        .flat_map(|j| wide(ks[j].kind).into_iter().map(move |v| (j, v)))
        .collect();
    x.space("wide-values", &format!("{} values (complete or wide domains of each type), both directions", w.len()), w.len() as u64, |c, i| {
        let (j, v) = &w[i as usize];
        c.sample(|| format!("{} {:?}", name_of(ks[*j].cp), v));
        enc_case(c, &ks[*j], v);
    });
    // in a message: values stand between other attributes
    x.space("in-message", "boundary values of all types in a message between two others, both directions, through the message codec", (nk * 64) as u64, |c, i| {
        let mut ix = Ix(i);
        let k = &ks[ix.take(nk)];
        let vs = vals(k.kind);
        let Some(v) = vs.get(ix.take(64)) else { return c.skip() };
        let f = attrs_few();
        let m = msg(0, 1, TID, vec![f[2].clone(), MAttr::known(k.cp, v.clone()), f[5].clone()]);
        c.state(&m);
        let Some(want) = encode_msg(&m) else { return c.skip() };
        match build::<All>(&m) {
            Err(e) => c.fail("refused", || e),
            Ok(x) => {
                c.op(2);
                let got = encode(x).ok();
                if c.check("encode", got.as_ref() == Some(&want), || format!("{} {:?}: {:?}", name_of(k.cp), v, got.as_deref().map(hex))) {
                    let (obs, _, _) = feed_whole(&mut MessageDecoder::<All>::new(), &want);
                    c.eq("identity", || hex(&want), &obs, &Obs::Ok(expect(&m)));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C12
fn refused(c: &mut Case, what: &dyn Fn() -> String, r: Result<Val, bytecodec::Error>, valid: bool, arg: &Val) {
    c.op(1);
    c.outcome(if r.is_ok() { "accepted" } else { "refused" });
    match r {
        Ok(v) => {
            if c.check("domain", valid, || format!("{} is accepted", what())) {
                c.eq("accessor", what, &v, arg);
            }
        }
        Err(e) => {
            if c.check("domain", !valid, || format!("{} is refused: {}", what(), e)) {
                c.eq("kind", what, &err_kind(&e), &ErrorKind::InvalidInput);
            }
        }
    }
}
fn on_wire(c: &mut Case, cp: u16, v: &[u8]) {
    let b = wire_msg(0x0101, &[(cp, v.to_vec()), (0x7001, vec![1])]);
    c.state(&b);
    c.sample(|| format!("{} {}", name_of(cp), hex(v)));
    let (o, _) = decode_msg(&b, &all_cps(), FpMode::Received);
    let (obs, _, _) = feed_whole(&mut MessageDecoder::<All>::new(), &b);
    c.op(1);
    c.outcome(obs.kind());
    c.check("wire", agrees(&obs, &o), || format!("{} with value {}: {:?} expected {:?}", name_of(cp), hex(v), obs, want(&o)));
}
pub fn c12(x: &mut Ctx) {
    x.space("codes", "all 65536 arguments of ErrorCode::new, Method::new, ChannelNumber::new", 65536 * 3, |c, i| {
        let mut ix = Ix(i);
        let n = ix.take(65536) as u16;
        c.state(&i);
        match ix.0 {
            0 => {
                let reason = ["", "R", "日本"][n as usize % 3].to_string();
                let arg = Val::Err(n, reason.clone());
                refused(c, &|| format!("ErrorCode::new({})", n), ErrorCode::new(n, reason).map(|e| e.view()), (300..600).contains(&n), &arg)
            }
            1 => refused(c, &|| format!("Method::new({:#x})", n), Method::new(n).map(|m| Val::U(m.as_u16() as u64)), n < 0x1000, &Val::U(n as u64)),
            _ => refused(c, &|| format!("ChannelNumber::new({:#x})", n), ChannelNumber::new(n).map(|m| m.view()), (0x4000..=0x4fff).contains(&n), &Val::U(n as u64)),
        }
    });
    x.space("channel-cycle", "wrapping increment of all 4096 channel numbers; the full cycle from every 256th", 4096 + 16, |c, i| {
        c.state(&i);
        if i < 4096 {
            let n = 0x4000 + i as u16;
            let want = if n == 0x4fff { 0x4000 } else { n + 1 };
            c.op(1);
            c.eq("increment", || format!("{:#x}", n), &ChannelNumber::new(n).map(|x| x.wrapping_increment().value()).ok(), &Some(want));
        } else {
            let start = ChannelNumber::new(0x4000 + (i as u16 - 4096) * 256).unwrap();
            let mut seen = std::collections::HashSet::new();
            let mut x = start;
            loop {
                seen.insert(x.value());
                x = x.wrapping_increment();
                c.op(1);
                if x == start || seen.len() > 5000 {
                    break;
                }
            }
            c.eq("cycle", || "cycle length".into(), &seen.len(), &4096);
        }
    });
    x.space("consts", "channel bounds, u8 methods, transaction ids, attribute types", 256 + 65536, |c, i| {
        c.state(&i);
        c.op(1);
        if i < 256 {
            c.eq("accessor", || format!("Method::from({})", i), &Method::from(i as u8).as_u16(), &(i as u16));
            let t = [i as u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, !(i as u8)];
            c.eq("accessor", || "transaction id".into(), TransactionId::new(t).as_bytes(), &t);
            c.eq("accessor", || "transaction id".into(), &TransactionId::new(t).as_ref().to_vec(), &t.to_vec());
            c.eq("accessor", || "channel bounds".into(), &(ChannelNumber::min().value(), ChannelNumber::max().value(), ChannelNumber::MIN, ChannelNumber::MAX), &(0x4000, 0x4fff, 0x4000, 0x4fff));
        } else {
            let n = (i - 256) as u16;
            let (a, b) = (AttributeType::new(n), AttributeType::from(n));
            c.eq("accessor", || format!("{:#x}", n), &(a.as_u16(), b.as_u16(), a == b), &(n, n, true));
            c.eq("comprehension", || format!("{:#x}", n), &(a.is_comprehension_required(), a.is_comprehension_optional()), &(n < 0x8000, n >= 0x8000));
        }
    });
    let secs: Vec<u64> = {
        let mut v = vec![0, 1, 59, 3600, 0x7fff_ffff, 0x8000_0000];
        v.extend((0u64..40).map(|k| 0xffff_ffff - 20 + k));
        v.extend([1 << 33, 1 << 40, (1 << 32) + 3600, u64::MAX]);
        v.extend((0..64).map(|k| 1u64 << k));
        v
    };
    let nanos = [0u32, 1, 500_000_000, 999_999_999];
    x.space("lifetime", &format!("{} durations around every power of two and the limit x 4 fractions", secs.len()), (secs.len() * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let (s, n) = (secs[ix.take(secs.len())], nanos[ix.take(4)]);
        c.state(&(s, n));
        let r = Lifetime::new(Duration::new(s, n)).map(|l| {
            let d = l.lifetime();
            Val::Types(vec![(d.as_secs() >> 48) as u16, (d.as_secs() >> 32) as u16, (d.as_secs() >> 16) as u16, d.as_secs() as u16, (d.subsec_nanos() > 0) as u16])
        });
        let want = Val::Types(vec![(s >> 48) as u16, (s >> 32) as u16, (s >> 16) as u16, s as u16, 0]);
        refused(c, &|| format!("Lifetime::new({}.{:09}s)", s, n), r, s <= 0xffff_ffff, &want);
        if let Ok(l) = Lifetime::from_u32_checked(s) {
            c.eq("accessor", || format!("Lifetime::from_u32({})", s), &l, &s);
        }
    });
    // text: lengths in characters and bytes
    let chars = ["a", "\u{e9}", "\u{65e5}", "\u{10348}", "\0"];
    x.space("text", "texts of 0..=140 characters of each of 5 widths, with up to 2 characters of every other width mixed in x 4 constructors, wire and Software::new_static", 141 * 5 * 5 * 3 * 4, |c, i| {
        let mut ix = Ix(i);
        let (n, a, b, extra, which) = (ix.take(141), ix.take(5), ix.take(5), ix.take(3), ix.take(4));
        if n < extra {
            return c.skip();
        }
        let s = format!("{}{}", chars[b].repeat(extra), chars[a].repeat(n - extra));
        text_case(c, which, s);
    });
    let bytes = ["u", "\u{e9}", "\u{65e5}", "\u{10348}"];
    x.space("username-bytes", "usernames of every byte length 0..=530 made of characters of 1 to 4 bytes (rest filled with 1-byte characters)", 531 * 4, |c, i| {
        let mut ix = Ix(i);
        let ch = bytes[ix.take(4)];
        let n = ix.0 as usize;
        let mut s = ch.repeat(n / ch.len());
        s.push_str(&"u".repeat(n - s.len()));
        text_case(c, 0, s);
    });
    x.space("wire-long-text", "received texts of every byte length 0..=700 (1- and 4-byte characters) x 5 text attributes", 701 * 2 * 5, |c, i| {
        let mut ix = Ix(i);
        let ch = [bytes[0], bytes[3]][ix.take(2)];
        let cp = [6u16, 0x14, 0x15, 0x8022, 9][ix.take(5)];
        let n = ix.0 as usize;
        let mut v = if cp == 9 { vec![0, 0, 4, 0] } else { vec![] };
        v.extend(ch.repeat(n / ch.len()).bytes());
        v.extend(std::iter::repeat(b'u').take(n % ch.len()));
        on_wire(c, cp, &v);
    });
    x.space("blobs", "Data::new and MobilityTicket::new with every length 0..=300 and 65500..=65600, and 131072", (301 + 101 + 1) * 2, |c, i| {
        let mut ix = Ix(i);
        let which = ix.take(2);
        let k = ix.0 as usize;
        let n = if k <= 300 {
            k
        } else if k <= 401 {
            65500 + k - 301
        } else {
            131072
        };
        c.state(&(n, which));
        let v: Vec<u8> = (0..n).map(|j| j as u8).collect();
        let arg = Val::Bytes(v.clone());
        if which == 0 {
            refused(c, &|| format!("Data::new of {} bytes", n), Data::new(v).map(|d| d.view()), n <= 65535, &arg);
        } else {
            refused(c, &|| format!("MobilityTicket::new of {} bytes", n), MobilityTicket::new(v).map(|d| d.view()), n <= 65535, &arg);
            if n == 0 {
                c.eq("accessor", || "MobilityTicket::empty".into(), &MobilityTicket::empty().view(), &arg);
            }
        }
    });
    // wire domains
    x.space("wire-error", "all values of class and number bytes of a received ERROR-CODE", 65536, |c, i| on_wire(c, 9, &[0, 0, (i >> 8) as u8, i as u8, b'x']));
    x.space("wire-channel", "all received channel numbers", 65536, |c, i| on_wire(c, 0xC, &[(i >> 8) as u8, i as u8, 0, 0]));
    x.space("wire-family", "all family bytes of the 10 attributes that have one x IPv4 and IPv6 length", 256 * 20, |c, i| {
        let mut ix = Ix(i);
        let f = ix.take(256) as u8;
        let k = ix.take(10);
        let six = ix.take(2) == 1;
        if k < 8 {
            let mut v = wire(ADDR_CPS[k], if six { 4 } else { 0 });
            v[1] = f;
            on_wire(c, ADDR_CPS[k], &v)
        } else if six {
            c.skip()
        } else {
            on_wire(c, [0x17u16, 0x8000][k - 8], &[f, 0, 0, 0])
        }
    });
    x.space("wire-lifetime", "all pairs of bytes of a received LIFETIME", 6 * 65536, |c, i| {
        let mut ix = Ix(i);
        let (u, v) = (ix.take(256) as u8, ix.take(256) as u8);
        let (p, q) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][ix.take(6)];
        let mut b = [0xffu8; 4];
        b[p] = u;
        b[q] = v;
        on_wire(c, 0xD, &b);
    });
    // flags and enumerations
    x.space("accessors", "accessors of all boundary values of all types, and of all 8- and 16-bit arguments", 32 * 64 + 65536 * 3, |c, i| {
        c.op(1);
        if i < 32 * 64 {
            let s = &SPEC[(i % 32) as usize];
            let vs = real_vals(s.kind);
            let Some(v) = vs.get((i / 32) as usize) else { return c.skip() };
            c.state(&(s.cp, v));
            c.sample(|| format!("{} {:?}", s.name, v));
            let got = All::make(s.cp, v).map(|a| a.cv());
            c.eq("accessor", || format!("{} {:?}", s.name, v), &got, &Some((s.cp, v.clone())));
            return;
        }
        let j = i - 32 * 64;
        let n = (j % 65536) as u16;
        c.state(&j);
        match j / 65536 {
            0 => c.eq("accessor", || format!("ResponsePort {}", n), &ResponsePort::new(n).port(), &n),
            1 if n < 256 => c.eq("accessor", || format!("RequestedTransport {}", n), &RequestedTransport::new(n as u8).protocol(), &(n as u8)),
            2 => c.eq("accessor", || format!("UnknownAttributes {}", n), &UnknownAttributes::new(vec![AttributeType::new(n), AttributeType::new(!n)]).unknowns().to_vec(), &vec![AttributeType::new(n), AttributeType::new(!n)]),
            _ => {
                c.skip();
                true
            }
        };
    });
}
trait FromU32Checked {
    fn from_u32_checked(s: u64) -> Result<u64, ()>;
}
impl FromU32Checked for Lifetime {
    fn from_u32_checked(s: u64) -> Result<u64, ()> {
        u32::try_from(s).map(|s| Lifetime::from_u32(s).lifetime().as_secs()).map_err(|_| ())
    }
}
fn text_case(c: &mut Case, which: usize, s: String) {
    c.state(&(which, &s));
    c.sample(|| short(&format!("{} {:?}", which, s)));
    let n = s.chars().count();
    let arg = Val::Str(s.clone());
    let what = |name: &'static str| {
        let (n, l) = (n, s.len());
        move || format!("{}::new of {} characters, {} bytes", name, n, l)
    };
    let (cp, valid) = match which {
        0 => {
            let valid = s.len() <= 512;
            refused(c, &what("Username"), Username::new(s.clone()).map(|x| x.view()), valid, &arg);
            (6u16, valid)
        }
        1 => {
            refused(c, &what("Realm"), Realm::new(s.clone()).map(|x| x.view()), n < 128, &arg);
            (0x14, n < 128)
        }
        2 => {
            refused(c, &what("Nonce"), Nonce::new(s.clone()).map(|x| x.view()), n < 128, &arg);
            (0x15, n < 128)
        }
        _ => {
            refused(c, &what("Software"), Software::new(s.clone()).map(|x| x.view()), n < 128, &arg);
            let st: &'static str = Box::leak(s.clone().into_boxed_str());
            let r = std::panic::catch_unwind(|| Software::new_static(st).view());
            c.op(1);
            c.check("static", r.is_ok() == (n < 128), || format!("Software::new_static of {} characters, {} bytes: {}", n, s.len(), if r.is_ok() { "accepted" } else { "panics" }));
            if let Ok(v) = r {
                c.eq("accessor", || "Software::new_static".into(), &v, &arg);
                c.check("static", Some(Software::new_static(st)) == Software::new(s.clone()).ok(), || "Software::new_static differs from Software::new".into());
            }
            (0x8022, n < 128)
        }
    };
    // the same value on the wire
    let b = wire_msg(1, &[(cp, s.as_bytes().to_vec())]);
    let (obs, _, _) = feed_whole(&mut MessageDecoder::<All>::new(), &b);
    c.op(1);
    c.check("wire", matches!(obs, Obs::Ok(_)) == valid && matches!(obs, Obs::Ok(_) | Obs::Broken { .. }), || format!("received {} of {} characters, {} bytes: {}", name_of(cp), n, s.len(), obs.kind()));
}

// ---------------------------------------------------------------- C19
/// Calls on a decoder that has not been started: decode of all bytes, of one, of none, each with and without
/// end of stream, and finish_decoding.
const UNSTARTED: [&str; 7] = ["value", "value, end", "a byte", "a byte, end", "nothing", "nothing, end", "finish"];
fn unstarted_case<D>(c: &mut Case, cp: u16, v: &[Vec<u8>], used: usize, ops: &[usize])
where
    D: Decode + TryTaggedDecode<Tag = AttributeType> + Default,
    D::Item: std::fmt::Debug,
{
    let mut d = D::default();
    let mut calls = 0;
    for j in 0..used {
        let b = &v[j % v.len()];
        if !matches!(d.try_start_decoding(AttributeType::new(cp)), Ok(true)) {
            return c.fail("unstarted", || format!("{} does not start", name_of(cp)));
        }
        match feed_value(&mut d, b, &[], true, None, &mut calls) {
            Ok(Ok(_)) => {}
            other => return c.fail("unstarted", || format!("{} value {}: {}", name_of(cp), hex(b), if other.is_ok() { "refused" } else { "stuck" })),
        }
    }
    c.op(calls + 2 * ops.len() as u64);
    let run = |d: &mut D| {
        let mut log: Vec<String> = vec![];
        for o in ops {
            let b: &[u8] = match o / 2 {
                0 => &v[1],
                1 => &v[1][..v[1].len().min(1)],
                _ => &[],
            };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if *o == 6 {
                    d.finish_decoding().map(|x| format!("{:?}", x)).map_err(|e| *e.kind())
                } else {
                    d.decode(b, Eos::new(o % 2 == 1)).map(|n| n.to_string()).map_err(|e| *e.kind())
                }
            }));
            log.push(format!("{:?} {} {:?}", r.as_ref().map_err(|_| "panic"), d.is_idle(), d.requiring_bytes()));
            // nothing is promised after an error
            if !matches!(r, Ok(Ok(_))) {
                break;
            }
        }
        log
    };
    let (a, b) = (run(&mut d), run(&mut D::default()));
    c.outcome("compared");
    c.eq("unstarted", || format!("{} decoder after {} values, then without a new type {:?}", name_of(cp), used, ops.iter().map(|o| UNSTARTED[*o]).collect::<Vec<_>>()), &a, &b);
}
fn cuts_of(mask: u64, n: usize) -> Vec<usize> {
    (1..n).filter(|p| mask >> (p - 1) & 1 == 1).collect()
}
fn dec_split(c: &mut Case, k: &Codec, vs: &[(Vec<usize>, Vec<u8>, bool)]) {
    c.state(&(k.cp, vs));
    c.sample(|| format!("{} {:?}", name_of(k.cp), vs.iter().map(|v| (&v.0, hex(&v.1), v.2)).collect::<Vec<_>>()));
    let mut calls = 0;
    let got = (k.dec_seq)(vs, &mut calls);
    c.op(calls);
    let mut want = vec![];
    for (_, b, _) in vs {
        let w = decode_value(plain(k.kind), b, &TID).ok_or(());
        let stop = w.is_err();
        want.push(w);
        if stop {
            break;
        }
    }
    c.eq("fragments", || format!("{} values {:?}", name_of(k.cp), vs.iter().map(|v| (&v.0, hex(&v.1))).collect::<Vec<_>>()), &got, &Ok(want));
}
fn enc_split(c: &mut Case, k: &Codec, vs: &[(Vec<usize>, Val)]) {
    c.state(&(k.cp, vs));
    c.sample(|| short(&format!("{} {:?}", name_of(k.cp), vs)));
    let mut calls = 0;
    let got = (k.enc_seq)(vs, &mut calls);
    c.op(calls);
    let want: Vec<Vec<u8>> = vs.iter().map(|(_, v)| encode_value(plain(k.kind), v, &TID)).collect();
    c.eq("buffers", || format!("{} values {:?}", name_of(k.cp), vs), &got, &Ok(want));
}
/// Valid values of the kind in wire form, short ones first.
fn wires(k: Kind, max: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = real_vals(k).iter().map(|v| encode_value(plain(k), v, &TID)).filter(|b| b.len() <= max).collect();
    v.sort_by_key(|b| b.len());
    v.dedup();
    v
}
fn sizes_from_cuts(cuts: &[usize], n: usize) -> Vec<usize> {
    let mut out = vec![];
    let mut p = 0;
    for c in cuts {
        out.push(c - p);
        p = *c;
    }
    out.push((n - p).max(1));
    out
}
pub fn c19(x: &mut Ctx) {
    let ks = codecs();
    let nk = ks.len();
    let max = x.pick(16usize, 20);
    // all compositions of short values
    let mut table: Vec<(usize, Vec<u8>)> = vec![];
    for (j, k) in ks.iter().enumerate() {
        for w in wires(k.kind, max) {
            table.push((j, w));
        }
    }
    let starts: Vec<u64> = table
        .iter()
        .scan(0u64, |a, (_, w)| {
            *a += 1 << (w.len().max(1) - 1);
            Some(*a)
        })
        .collect();
    let locate = |i: u64| {
        let t = starts.partition_point(|s| *s <= i);
        (t, i - if t == 0 { 0 } else { starts[t - 1] })
    };
    x.space("compositions", &format!("{} values of up to {} bytes of all types x all ways of splitting each into fragments, decoding and encoding", table.len(), max), *starts.last().unwrap(), |c, i| {
        let (t, mask) = locate(i);
        let (j, w) = &table[t];
        let k = &ks[*j];
        let cuts = cuts_of(mask, w.len());
        dec_split(c, k, &[(cuts.clone(), w.clone(), true)]);
        let v = decode_value(plain(k.kind), w, &TID).unwrap();
        enc_split(c, k, &[(sizes_from_cuts(&cuts, w.len()), v)]);
    });
    // cuts with empty fragments, for values of any length up to 40
    let pos = x.pick(44usize, 90);
    x.space("cuts", &format!("3 values per type (up to {} bytes): all pairs of cut positions, with empty fragments at each cut or not, end of stream with the last bytes or not", pos), (nk * 3 * pos * pos * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let k = &ks[ix.take(nk)];
        let ws = wires(k.kind, pos);
        let w = match ws.get([0, ws.len() / 2, ws.len() - 1][ix.take(3)]) {
            Some(w) => w,
            None => return c.skip(),
        };
        let (p, q, empty, late) = (ix.take(pos), ix.take(pos), ix.take(2) == 1, ix.take(2) == 1);
        if p > q || q > w.len() {
            return c.skip();
        }
        let mut cuts = vec![p, q];
        if empty {
            cuts = vec![p, p, q, q];
        }
        if late {
            cuts.push(w.len()); // end of stream comes with an empty fragment
        }
        dec_split(c, k, &[(cuts.clone(), w.clone(), true)]);
        let v = decode_value(plain(k.kind), w, &TID).unwrap();
        enc_split(c, k, &[(sizes_from_cuts(&cuts, w.len()), v)]);
    });
    // fixed-length values followed by other bytes, no end of stream: only their own bytes are taken
    x.space("open-end", "all values of fixed-length types followed by 3 other bytes on an open stream, every first cut", (nk * 16 * 24) as u64, |c, i| {
        let mut ix = Ix(i);
        let k = &ks[ix.take(nk)];
        let ws = wires(k.kind, 20);
        let Some(w) = ws.get(ix.take(16)) else { return c.skip() };
        let p = ix.take(24);
        if p > w.len() || fixed_len(k.kind, w).is_none() || w.is_empty() {
            return c.skip();
        }
        dec_open(c, k, w, p);
    });
    // reuse: sequences of values with one decoder and one encoder
    let d = x.pick(3u32, 4);
    let nv = x.pick(7usize, 6);
    let pats: [&[usize]; 3] = [&[1], &[3, 1], &[0, 2, 0, 5]];
    let splits = |w: &[u8], m: usize| -> Vec<usize> {
        match m {
            0 => vec![],
            1 => (1..w.len()).collect(),
            _ => vec![0, w.len() / 2, w.len() / 2],
        }
    };
    let per = (nv * 3) as u64;
    x.space("reuse", &format!("all sequences of up to {} values over {} values x 3 fragmentations with one decoder and one encoder, all types", d, nv), nk as u64 * (per.pow(d) + per), |c, i| {
        let mut ix = Ix(i);
        let k = &ks[ix.take(nk)];
        let ws = wires(k.kind, 1100);
        let n = if ix.0 < per.pow(d) { d } else { 1 };
        let mut r = Ix(if n == d { ix.0 } else { ix.0 - per.pow(d) });
        let mut dv = vec![];
        let mut ev = vec![];
        for _ in 0..n {
            let (a, m) = (r.take(nv), r.take(3));
            let Some(w) = ws.get(a * ws.len().max(nv) / nv) else { return c.skip() };
            dv.push((splits(w, m), w.clone(), true));
            ev.push((pats[m].to_vec(), decode_value(plain(k.kind), w, &TID).unwrap()));
        }
        dec_split(c, k, &dv);
        enc_split(c, k, &ev);
    });
    // sizes and chunks around powers of two
    let lens = lengths(x.thorough());
    x.space("sizes", &format!("{} value lengths x {} chunk sizes x DATA, ticket, type list, reason phrase and a raw attribute, decoding and encoding", lens.len(), CHUNKS.len()), (lens.len() * CHUNKS.len() * 5) as u64, |c, i| {
        let mut ix = Ix(i);
        let (k, t, n) = (CHUNKS[ix.take(CHUNKS.len())], ix.take(5), lens[ix.take(lens.len())]);
        if n / k > 2100 {
            return c.skip();
        }
        let w = match t {
            2 => vec![0x80; n / 2 * 2],
            3 => [vec![0, 0, 4, 20], vec![b'r'; n]].concat(),
            _ => (0..n).map(|x| x as u8).collect(),
        };
        let cuts: Vec<usize> = (1..).map(|j| j * k).take_while(|p| *p < w.len()).collect();
        if t == 4 {
            return raw_case(c, &[(cuts, w)]);
        }
        let cp = [0x13u16, 0x8030, 0x0A, 9][t];
        let k = ks.iter().find(|k| k.cp == cp).unwrap();
        let v = decode_value(plain(k.kind), &w, &TID).unwrap();
        enc_split(c, k, &[(sizes_from_cuts(&cuts, w.len()), v)]);
        dec_split(c, k, &[(cuts, w, true)]);
    });
    // the same codec over and over
    let reps: Vec<usize> = x.pick(vec![9, 17, 33, 65, 128, 129, 255, 256, 257, 300, 1025], vec![9, 17, 33, 65, 128, 129, 255, 256, 257, 300, 513, 1025, 4097, 65537]);
    x.space("repeat", &format!("{:?} values with one decoder and one encoder, all types, 2 values alternating", reps), (nk * reps.len() * 9) as u64, |c, i| {
        let mut ix = Ix(i);
        let (k, r, a, b) = (&ks[ix.take(nk)], reps[ix.take(reps.len())], ix.take(3), ix.take(3));
        let ws = wires(k.kind, 40);
        let pick = |j: usize| ws[j * (ws.len() - 1) / 2].clone();
        let l: Vec<Vec<u8>> = (0..r).map(|j| pick(if j % 2 == 0 { a } else { b })).collect();
        dec_split(c, k, &l.iter().map(|w| (vec![], w.clone(), true)).collect::<Vec<_>>());
        enc_split(c, k, &l.iter().map(|w| (vec![64], decode_value(plain(k.kind), w, &TID).unwrap())).collect::<Vec<_>>());
    });
    let rounds = x.pick(66000usize, 140000);
    x.space("marathon", &format!("{} values with one decoder and one encoder, all types, one value or two alternating", rounds), nk as u64 * 4, |c, i| {
        let mut ix = Ix(i);
        let (k, a, b) = (&ks[ix.take(nk)], ix.take(2), ix.take(2));
        let ws = wires(k.kind, 40);
        let w: Vec<_> = [a, b].iter().map(|j| ws[j * (ws.len() - 1)].clone()).collect();
        dec_split(c, k, &(0..rounds).map(|j| (vec![], w[j % 2].clone(), true)).collect::<Vec<_>>());
        enc_split(c, k, &(0..rounds).map(|j| (vec![64], decode_value(plain(k.kind), &w[j % 2], &TID).unwrap())).collect::<Vec<_>>());
    });
    let small: Vec<(usize, Val)> = attrs_small()
        .into_iter()
        .filter_map(|a| match a.body {
            Body::Known(v) if !matches!(kind_of(a.cp), Some(Kind::Fp | Kind::Mi)) => Some((ks.iter().position(|k| k.cp == a.cp).unwrap(), v)),
            _ => None,
        })
        .collect();
    let ns = small.len();
    x.space("alternating", &format!("all pairs of values of one type among {} (all small lengths) taking turns, 300 rounds, with one decoder and one encoder", ns), (ns * ns) as u64, |c, i| {
        let ((j, a), (k, b)) = (&small[i as usize % ns], &small[i as usize / ns]);
        if j != k {
            return c.skip();
        }
        let (wa, wb) = (encode_value(plain(ks[*j].kind), a, &TID), encode_value(plain(ks[*j].kind), b, &TID));
        let byte = |w: &Vec<u8>| if i % 2 == 0 { vec![] } else { (1..w.len()).collect() };
        dec_split(c, &ks[*j], &(0..600).map(|r| if r % 2 == 0 { (byte(&wa), wa.clone(), true) } else { (byte(&wb), wb.clone(), true) }).collect::<Vec<_>>());
        enc_split(c, &ks[*j], &(0..600).map(|r| (vec![[64, 1][i as usize % 2]], if r % 2 == 0 { a.clone() } else { b.clone() })).collect::<Vec<_>>());
    });
    // raw attributes
    let w: Vec<(usize, Val)> = (0..nk)
        .filter(|j| !matches!(ks[*j].kind, Kind::Fp | Kind::Mi))
        .flat_map(|j| wide(ks[j].kind).into_iter().map(move |v| (j, v)))
        .collect();
    let strides = [0usize, 1, 17, 255];
    x.space("wide-values", &format!("chains a, b, a of {} values (complete or wide domains of each type) with one decoder and one encoder, {} choices of b for each a, bytewise or whole", w.len(), strides.len()), (w.len() * strides.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let (d, p) = (strides[ix.take(strides.len())], ix.take(w.len()));
        let ((j, a), Some((k, b))) = (&w[p], w.get(p + d)) else { return c.skip() };
        if j != k {
            return c.skip();
        }
        let mut ds = vec![];
        let mut es = vec![];
        for (n, v) in [a, b, a].into_iter().enumerate() {
            let wire = encode_value(plain(ks[*j].kind), v, &TID);
            let whole = (p + n) % 2 == 0;
            ds.push((if whole { vec![] } else { (1..wire.len()).collect() }, wire, true));
            es.push((if whole { vec![4096] } else { vec![1] }, v.clone()));
        }
        dec_split(c, &ks[*j], &ds);
        enc_split(c, &ks[*j], &es);
    });
    // what was decoded before makes no difference to a decoder that has not been told a new type either
    let (k, d) = (UNSTARTED.len() as u64, x.pick(3u32, 5));
    let kinds = nk * 2 + 1;
    x.space("unstarted", &format!("decoders of the 32 types, an enum of all, and raw attributes, fresh and after 1, 2 or 3 values: all sequences of {} calls without a new type out of {:?}", d, UNSTARTED), kinds as u64 * 3 * k.pow(d), |c, i| {
        let mut ix = Ix(i);
        let (t, used) = (ix.take(kinds), 1 + ix.take(3));
        let ops: Vec<usize> = (0..d).map(|_| ix.take(k as usize)).collect();
        c.state(&i);
        if t == nk * 2 {
            return unstarted_case::<RawAttributeDecoder>(c, 0x7abc, &[vec![], vec![1, 2, 3], vec![9]], used, &ops);
        }
        let k = &ks[t / 2];
        let ws = wires(k.kind, 40);
        let v: Vec<Vec<u8>> = (0..3).map(|j| ws[(j * 5) % ws.len()].clone()).collect();
        if t % 2 == 0 {
            (k.unstarted)(c, &v, used, &ops)
        } else {
            unstarted_case::<AllDecoder>(c, k.cp, &v, used, &ops)
        }
    });
    let rmax = x.pick(16usize, 20);
    x.space("raw-compositions", &format!("raw attributes of 1..={} bytes x all splittings, decoding and encoding", rmax), 1 << rmax, |c, i| {
        if i == 0 {
            return raw_case(c, &[(vec![], vec![])]);
        }
        let n = 64 - i.leading_zeros() as usize;
        let b: Vec<u8> = (0..n as u8).map(|x| x.wrapping_mul(37) ^ 0xA5).collect();
        raw_case(c, &[(cuts_of(i, n), b)]);
    });
    let d = x.pick(4u32, 5);
    x.space("raw-reuse", &format!("all sequences of up to {} raw attributes of 8 lengths x 2 fragmentations with one decoder and one encoder", d), seqs(16, d), |c, i| {
        let l = seq(i, 16)
            .into_iter()
            .enumerate()
            .map(|(q, s)| {
                let n = [0usize, 1, 2, 3, 4, 7, 33, 300][s / 2];
                let b: Vec<u8> = (0..n).map(|x| (x as u8) ^ (q as u8 * 17)).collect();
                (if s % 2 == 0 { vec![] } else { (0..=n).collect() }, b)
            })
            .collect::<Vec<_>>();
        raw_case(c, &l);
    });
    // socket addresses
    let full = true;
    let addrs: Vec<SocketAddr> = addrs();
    x.space("addr-v4", "IPv4 socket addresses: all 128 compositions x 4 addresses, decoding and encoding", 128 * 4, |c, i| {
        let mut ix = Ix(i);
        let m = ix.take(128) as u64;
        addr_codec(c, &[(cuts_of(m, 8), addrs[ix.take(4)])], None);
    });
    let n6 = if full { 1u64 << 19 } else { 1 << 14 };
    x.space("addr-v6", if full { "IPv6 socket addresses: all 2^19 compositions, decoding and encoding" } else { "IPv6 socket addresses: all 2^14 splittings of the first 15 bytes, decoding and encoding" }, n6, |c, i| addr_codec(c, &[(cuts_of(i, 20), addrs[4])], None));
    let d = x.pick(4u32, 5);
    x.space("addr-reuse", &format!("all sequences of up to {} socket addresses over 9 x 2 fragmentations with one decoder and one encoder", d), seqs(18, d), |c, i| {
        let l: Vec<(Vec<usize>, SocketAddr)> = seq(i, 18).into_iter().map(|s| (if s % 2 == 0 { vec![] } else { (0..=if addrs[s / 2].is_ipv4() { 8 } else { 20 }).collect() }, addrs[s / 2])).collect();
        addr_codec(c, &l, None);
    });
    x.space("addr-busy", "starting a second socket address after every number of drained bytes of the first: refused, output unchanged; 9 x 9 addresses", 81 * 21, |c, i| {
        let mut ix = Ix(i);
        let (a, b) = (addrs[ix.take(9)], addrs[ix.take(9)]);
        let at = ix.take(21);
        if at >= if a.is_ipv4() { 8 } else { 20 } {
            return c.skip();
        }
        addr_codec(c, &[(vec![], a)], Some((at, b)));
    });
    x.space("family", "all families x 12^3 contents of the other bytes of the attributes that are or begin with a family, whole or bytewise, twice with one decoder", 256 * 1728 * 2 * 2, |c, i| {
        const W: [u8; 12] = [0, 1, 2, 3, 4, 6, 17, 0x40, 0x7f, 0x80, 0xfe, 0xff];
        let mut ix = Ix(i);
        let cp = [0x17u16, 0x8000][ix.take(2)];
        let cuts = if ix.take(2) == 0 { vec![] } else { vec![1, 2, 3] };
        let mut b = vec![ix.take(256) as u8];
        b.extend((0..3).map(|_| W[ix.take(12)]));
        let Some(k) = ks.iter().find(|k| k.cp == cp) else { return c.skip() };
        c.state(&(cp, &b, &cuts));
        let ok = vec![2, 0, 0, 0];
        let ok_v = decode_value(plain(k.kind), &ok, &TID).ok_or(());
        let want = decode_value(plain(k.kind), &b, &TID).ok_or(());
        c.outcome(if want.is_ok() { "decoded" } else { "refused" });
        let mut calls = 0;
        let got = (k.dec_seq)(&vec![(vec![], ok.clone(), true), (cuts, b.clone(), true)], &mut calls);
        c.op(calls);
        c.eq("family", || format!("{} value {}", name_of(cp), hex(&b)), &got, &Ok(vec![ok_v, want]));
    });
    x.space("addr-family", "all 256 families x 256 first bytes x 3 fragmentations, with as many bytes as an IPv4 or an IPv6 address", 65536 * 6, |c, i| {
        let mut ix = Ix(i);
        let (f, z) = (ix.take(256) as u8, ix.take(256) as u8);
        let cuts: Vec<usize> = [vec![], vec![1], vec![1, 2, 3]][ix.take(3)].clone();
        let n = [8usize, 20][ix.take(2)];
        if (f, n) == (1, 20) || (f, n) == (2, 8) {
            return c.skip();
        }
        let mut b = vec![z, f];
        b.extend((2..n as u8).map(|x| x ^ 0x5a));
        c.state(&(&b, &cuts));
        let mut calls = 0;
        let mut d = SocketAddrDecoder::new();
        let r = feed_value(&mut d, &b, &cuts, true, Some(n), &mut calls);
        c.op(calls);
        let want = match decode_value(Kind::Addr, &b, &TID) {
            Some(Val::Addr(a)) => Ok(a),
            _ => Err(()),
        };
        c.outcome(if want.is_ok() { "decoded" } else { "refused" });
        c.eq("family", || format!("socket address {}", hex(&b)), &r, &Ok(want));
    });
}
fn dec_open(c: &mut Case, k: &Codec, w: &[u8], p: usize) {
    // dec_seq stops at the fixed length and must not consume what follows
    let mut b = w.to_vec();
    let vs = vec![(vec![p], std::mem::take(&mut b), false), (vec![], w.to_vec(), false)];
    c.state(&(k.cp, w, p));
    let mut calls = 0;
    let got = (k.dec_seq)(&vs, &mut calls);
    c.op(calls);
    let v = decode_value(plain(k.kind), w, &TID).ok_or(());
    c.eq("open-end", || format!("{} value {} cut at {} on an open stream", name_of(k.cp), hex(w), p), &got, &Ok(vec![v.clone(), v]));
}
fn raw_case(c: &mut Case, vs: &[(Vec<usize>, Vec<u8>)]) {
    c.state(&vs);
    c.sample(|| format!("{:?}", vs));
    let mut d = RawAttributeDecoder::new();
    let mut e = RawAttributeEncoder::new();
    for (j, (cuts, b)) in vs.iter().enumerate() {
        let cp = 0x7100 + j as u16;
        c.eq("raw-start", || "RawAttributeDecoder::try_start_decoding".into(), &d.try_start_decoding(AttributeType::new(cp)).ok(), &Some(true));
        let mut calls = 0;
        let r = feed_value(&mut d, b, cuts, true, None, &mut calls);
        let got = r.map(|r| r.map(|a| (a.get_type().as_u16(), a.value().to_vec())));
        c.eq("raw-decode", || format!("raw value {} #{}", hex(b), j), &got, &Ok(Ok((cp, b.clone()))));
        let a = RawAttribute::new(AttributeType::new(cp), b.clone());
        c.eq("raw-value", || "into_value".into(), &a.clone().into_value(), b);
        let r = e.start_encoding(a).map_err(|x| x.to_string()).and_then(|_| drain_value(&mut e, &sizes_from_cuts(&cuts.iter().copied().filter(|p| *p < b.len()).collect::<Vec<_>>(), b.len()), 1 << 17, &mut calls));
        c.op(calls);
        c.eq("raw-encode", || format!("raw value {} #{}", hex(b), j), &r, &Ok(b.clone()));
    }
}
fn addr_codec(c: &mut Case, vs: &[(Vec<usize>, SocketAddr)], busy: Option<(usize, SocketAddr)>) {
    c.state(&(vs, busy));
    c.sample(|| format!("{:?} {:?}", vs, busy));
    let mut d = SocketAddrDecoder::new();
    let mut e = SocketAddrEncoder::new();
    for (j, (cuts, a)) in vs.iter().enumerate() {
        let w = encode_value(Kind::Addr, &Val::Addr(*a), &TID);
        let mut calls = 0;
        let mut b = w.clone();
        b.extend([0xEE, 0xEE]);
        let r = feed_value(&mut d, &b, cuts, false, Some(w.len()), &mut calls);
        c.eq("addr-decode", || format!("socket address #{} {} cut at {:?}", j, a, cuts), &r, &Ok(Ok(*a)));
        let r = e.start_encoding(*a).map_err(|x| x.to_string()).and_then(|_| {
            let mut head = vec![];
            if let Some((at, other)) = busy {
                let mut buf = vec![0u8; at];
                let n = e.encode(&mut buf, Eos::new(false)).map_err(|x| x.to_string())?;
                if n != at {
                    return Err(format!("{} instead of {} bytes produced", n, at));
                }
                head = buf;
                if e.start_encoding(other).is_ok() {
                    return Err("a second address is accepted while the first is drained".into());
                }
            }
            let sizes = if cuts.is_empty() { vec![64] } else { sizes_from_cuts(cuts, w.len()) };
            let rest = drain(&mut e, &sizes, 64, &mut calls)?;
            head.extend(rest);
            Ok(head)
        });
        c.op(calls);
        c.eq("addr-encode", || format!("socket address #{} {} buffers {:?} busy {:?}", j, a, cuts, busy), &r, &Ok(w));
    }
}
