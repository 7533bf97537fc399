//! C09 FINGERPRINT and C10 MESSAGE-INTEGRITY against the model's CRC-32 and HMAC-SHA1.
use crate::conv::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use bytecodec::DecodeExt;
use stun_codec::convert::TryAsRef;
use stun_codec::{Message, MessageDecoder};

/// Type, value and offset of the attributes up to the first malformed one.
fn tlvs(b: &[u8]) -> Vec<(usize, u16, &[u8])> {
    let mut v = vec![];
    let mut p = 20;
    while p + 4 <= b.len() {
        let n = u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize;
        if p + 4 + n + padlen(n) > b.len() {
            break;
        }
        v.push((p, u16::from_be_bytes([b[p], b[p + 1]]), &b[p + 4..p + 4 + n]));
        p += 4 + n + padlen(n);
    }
    v
}
/// The first known attribute whose value does not survive decoding and encoding, that is
/// which has reserved bits set.
fn reserved_attr(b: &[u8], set: &[u16]) -> Option<String> {
    tlvs(b).into_iter().find_map(|(_, cp, v)| {
        if !set.contains(&cp) {
            return None;
        }
        let k = kind_of(cp)?;
        let d = decode_value(k, v, &TID)?;
        (encode_value(k, &d, &TID) != v).then(|| name_of(cp))
    })
}
fn judge_fp<S: AttrSet>(c: &mut Case, b: &[u8]) {
    let set = S::cps();
    let (o, _) = decode_msg(b, &set, FpMode::Received);
    let f = feed(&mut MessageDecoder::<S>::new(), b, &[], true);
    c.op(f.calls);
    c.outcome(f.obs.kind());
    c.note(|| format!("input {} -> {:?}, expected {:?}", hex(b), f.obs, want(&o)));
    if agrees(&f.obs, &o) {
        return c.checked();
    }
    let (canon, _) = decode_msg(b, &set, FpMode::Canonical);
    let sig = match reserved_attr(b, &set) {
        Some(a) if agrees(&f.obs, &canon) => format!("reserved-bits:{}", a),
        _ => "fingerprint".into(),
    };
    c.fail(sig, || format!("input {}: decoder says {:?}, expected {:?}", hex(b), f.obs, want(&o)));
}
fn judge_fp_in(c: &mut Case, b: &[u8], set: usize) {
    match set {
        0 => judge_fp::<All>(c, b),
        1 => judge_fp::<A5389>(c, b),
        _ => judge_fp::<A5766>(c, b),
    }
}
const HOW: [&str; 6] = ["right", "wrong", "first covered byte changed", "middle covered byte changed", "last covered byte changed", "followed by an attribute"];
/// `how` applied to a message `b` (length not yet set) with the digest attribute made by `digest`.
fn tampered(mut b: Vec<u8>, from: usize, to: usize, how: usize, digest: &dyn Fn(&[u8]) -> Vec<u8>) -> Option<Vec<u8>> {
    if (2..5).contains(&how) && from >= to {
        return None;
    }
    let l = b.len() - 20;
    b[2..4].copy_from_slice(&(l as u16).to_be_bytes());
    let d = digest(&b);
    b.extend(&d);
    match how {
        1 => *b.last_mut().unwrap() ^= 1,
        2 => b[from] ^= 1,
        3 => b[(from + to) / 2] ^= 0x80,
        4 => b[to - 1] ^= 0x10,
        5 => b.extend(tlv(0x7002, &[1, 2, 3], None)),
        _ => {}
    }
    let l = b.len() - 20;
    if l > 65535 {
        return None;
    }
    b[2..4].copy_from_slice(&(l as u16).to_be_bytes());
    Some(b)
}
fn sized(l: usize, cp: u16, how: usize, digest: &dyn Fn(&[u8]) -> Vec<u8>) -> Option<Vec<u8>> {
    let value: Vec<u8> = (0..l).map(|i| (i as u8).wrapping_mul(31) ^ (i >> 8) as u8).collect();
    let mut b = header(0x0101, 0, &TID);
    b.extend(tlv(cp, &value, None));
    tampered(b, 24, 24 + l, how, digest)
}
fn counted(a: &MAttr, n: usize, how: usize, digest: &dyn Fn(&[u8]) -> Vec<u8>) -> Option<Vec<u8>> {
    let b = encode_msg(&msg(2, 3, TID, copies(a, None, n)))?;
    // the changed byte is one of the transaction id: the values stay well-formed and the digest has to decide
    tampered(b, 8, 20, how, digest)
}
const AUTO: Vec<u8> = vec![];
/// Messages with one or more FINGERPRINTs, each preceded by something different.
fn fp_bases() -> Vec<Vec<u8>> {
    let mut v = vec![wire_msg(1, &[(0x8028, AUTO)])];
    for s in all_specs().filter(|s| s.cp != 0x8028) {
        v.push(wire_msg(0x0101, &[(s.cp, typical(s.cp)), (0x8028, AUTO)]));
    }
    v.push(wire_msg(1, &[(0x7fff, vec![1, 2, 3]), (0x8028, AUTO)]));
    v.push(wire_msg(0x3EEF, &[(0x8028, AUTO), (0x8028, AUTO)]));
    v.push(wire_msg(0x0011, &[(0x8028, AUTO), (0x8022, b"abcde".to_vec()), (0x20, wire(0x20, 4)), (0x8028, AUTO), (0x9999, vec![7])]));
    v.push(wire_msg(0x0101, &[(0x8022, b"ab".to_vec()), (0x20, wire(0x20, 0)), (8, AUTO), (0x8028, AUTO)]));
    v
}
/// Sequence elements: (type, value, padding); empty digests are computed over the bytes before them.
#[derive(Clone)]
enum Elem {
    Tlv(u16, Vec<u8>, Option<Vec<u8>>),
    Fp(u32),
    Mi(u8),
}
/// `total` puts the whole length into the header before computing digests if false.
fn assemble(t: u16, els: &[Elem]) -> Vec<u8> {
    let mut b = header(t, 0, &TID);
    for e in els {
        match e {
            Elem::Tlv(cp, v, p) => {
                let t = tlv(*cp, v, p.as_deref());
                b.extend(t)
            }
            Elem::Fp(x) => {
                let v = (fp_value(&b) ^ x).to_be_bytes();
                b.extend(tlv(0x8028, &v, None))
            }
            Elem::Mi(x) => {
                let mut v = mi_value(&b, PW.as_bytes());
                v[19] ^= x;
                b.extend(tlv(8, &v, None))
            }
        }
    }
    let l = (b.len() - 20) as u16;
    b[2..4].copy_from_slice(&l.to_be_bytes());
    b
}
fn elems() -> Vec<Elem> {
    let raw = |cp: u16, v: &[u8], p: Option<&[u8]>| Elem::Tlv(cp, v.to_vec(), p.map(|x| x.to_vec()));
    vec![
        Elem::Fp(0),
        Elem::Fp(1),
        Elem::Mi(0),
        Elem::Mi(0x80),
        raw(0x8022, b"abc", Some(&[0])),
        raw(0x8022, b"a", Some(&[1, 2, 3])),
        raw(0x20, &wire(0x20, 4), None),
        raw(0x12, &wire(0x12, 0), None),
        raw(0x7001, &[9, 9], Some(&[0xff, 0xfe])),
        raw(0x13, &[], None),
    ]
}
/// All ways a sender or verifier could get the covered bytes, length or constants wrong.
fn fp_variants(prefix: &[u8], total: usize) -> Vec<(&'static str, u32)> {
    let right = fp_value(prefix);
    let with_len = |l: usize| {
        let mut b = prefix.to_vec();
        b[2..4].copy_from_slice(&(l as u16).to_be_bytes());
        b
    };
    let n = prefix.len() - 20;
    const X: u32 = 0x5354_554E;
    let mut ext = with_len(n + 8);
    ext.extend([0x80, 0x28, 0, 4]);
    vec![
        ("right", right),
        ("not xored", right ^ X),
        ("xored with bytes swapped", right ^ X ^ X.swap_bytes()),
        ("bytes swapped", right.swap_bytes()),
        ("complement", !right),
        ("length before it", crc32(&with_len(n)) ^ X),
        ("length + 4", crc32(&with_len(n + 4)) ^ X),
        ("length + 20", crc32(&with_len(n + 20)) ^ X),
        ("length + 24", crc32(&with_len(n + 24)) ^ X),
        ("length 0", crc32(&with_len(0)) ^ X),
        ("total message length", crc32(&with_len(total)) ^ X),
        ("attribute header included", crc32(&ext) ^ X),
        ("without header", crc32(&prefix[20..]) ^ X),
        ("zero", 0),
        ("ones", u32::MAX),
    ]
}

pub fn c09(x: &mut Ctx) {
    x.assumptions.push("FINGERPRINT is CRC-32 (ISO-HDLC) xor 0x5354554E, RFC 5389 section 15.5; the model is checked against RFC 5769".into());
    let bases = fp_bases();
    let offs: Vec<u64> = bases
        .iter()
        .scan(0u64, |a, b| {
            *a += b.len() as u64;
            Some(*a)
        })
        .collect();
    let locate = |i: u64| {
        let k = offs.iter().position(|o| i < *o).unwrap();
        (k, (i - if k == 0 { 0 } else { offs[k - 1] }) as usize)
    };
    let bytes = *offs.last().unwrap();
    x.space("substitute", &format!("every byte of {} messages with FINGERPRINT replaced by each of the 255 other values x 3 sets", bases.len()), bytes * 255 * 3, |c, i| {
        let mut ix = Ix(i);
        let set = ix.take(3);
        let d = ix.take(255) as u8 + 1;
        let (k, p) = locate(ix.0);
        let mut b = bases[k].clone();
        b[p] ^= d;
        c.state(&(k, p, d));
        c.sample(|| hex(&b));
        judge_fp_in(c, &b, set);
    });
    // pairs of bit flips within one message
    let pm: Vec<&Vec<u8>> = bases.iter().filter(|b| b.len() <= x.pick(60, 4096)).collect();
    let lim = pm.iter().map(|b| b.len() * 8).max().unwrap();
    x.space("two-bits", &format!("all pairs of bit flips in {} messages of up to {} bytes", pm.len(), lim / 8), (pm.len() * lim * lim) as u64, |c, i| {
        let mut ix = Ix(i);
        let (p, q) = (ix.take(lim), ix.take(lim));
        let k = ix.take(pm.len());
        if p >= q || q >= pm[k].len() * 8 {
            return c.skip();
        }
        let mut b = pm[k].clone();
        b[p / 8] ^= 1 << (p % 8);
        b[q / 8] ^= 1 << (q % 8);
        c.state(&(k, p, q));
        judge_fp::<All>(c, &b);
    });
    // digest values computed in each wrong way, for FINGERPRINTs at the end and in the middle
    let heads: Vec<Vec<Elem>> = {
        let e = elems();
        let mut v = vec![vec![]];
        for a in &e {
            v.push(vec![a.clone()]);
            for b in &e {
                v.push(vec![a.clone(), b.clone()]);
            }
        }
        v
    };
    let tails: Vec<Vec<u8>> = vec![vec![], tlv(0x8022, b"xyz", None), tlv(0x7002, &[], None), [tlv(0x24, &[0, 0, 0, 1], None), tlv(0x13, &[1], None)].concat()];
    x.space("variants", &format!("{} preceding parts x {} following parts x 15 ways to compute the value x 3 sets", heads.len(), tails.len()), (heads.len() * tails.len() * 15 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let set = ix.take(3);
        let (v, t) = (ix.take(15), ix.take(tails.len()));
        let mut b = assemble(0x0101, &heads[ix.take(heads.len())]);
        let total = b.len() - 20 + 8 + tails[t].len();
        let (name, val) = fp_variants(&b, total)[v];
        b.extend(tlv(0x8028, &val.to_be_bytes(), None));
        b.extend(&tails[t]);
        b[2..4].copy_from_slice(&(total as u16).to_be_bytes());
        c.state(&b);
        c.sample(|| format!("{}: {}", name, hex(&b)));
        judge_fp_in(c, &b, set);
    });
    let d = x.pick(5, 6);
    let els = elems();
    x.space("positions", &format!("all lists of up to {} of {} attributes (right and wrong FINGERPRINT and MESSAGE-INTEGRITY, padding, XOR, unknown) x 3 sets", d, els.len()), seqs(els.len() as u64, d) * 3, |c, i| {
        let mut ix = Ix(i);
        let set = ix.take(3);
        let l: Vec<Elem> = seq(ix.0, els.len() as u64).into_iter().map(|j| els[j].clone()).collect();
        let b = assemble(0x0016, &l);
        c.state(&b);
        c.sample(|| hex(&b));
        judge_fp_in(c, &b, set);
    });
    // every header and every received padding is covered
    x.space("headers", "all 16384 type fields x right/wrong value", 16384 * 2, |c, i| {
        let b = assemble((i / 2) as u16, &[Elem::Tlv(0x20, wire(0x20, 0), None), Elem::Fp((i % 2) as u32)]);
        c.state(&b);
        judge_fp::<All>(c, &b);
    });
    x.space("padding", "all contents of one padding byte and pairs of a 3-byte padding x known and unknown attribute x right/wrong value", (256 + 65536) * 4, |c, i| {
        let mut ix = Ix(i);
        let cp = [0x8022u16, 0x7003][ix.take(2)];
        let w = ix.take(2) as u32;
        let r = ix.0;
        let (v, p): (&[u8], Vec<u8>) = if r < 256 { (b"abc", vec![r as u8]) } else { (b"a", vec![(r - 256) as u8, 0, ((r - 256) >> 8) as u8]) };
        let b = assemble(1, &[Elem::Tlv(cp, v.to_vec(), Some(p)), Elem::Fp(w)]);
        c.state(&b);
        judge_fp::<All>(c, &b);
    });
    // pairs of bytes of the value: differences, exchanges and rotations
    let few = attrs_few();
    x.space("value-pairs", "all changes of two bytes of a FINGERPRINT value", 6 * 65025, |c, i| {
        let mut ix = Ix(i);
        let (p, q) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][ix.take(6)];
        let mut b = assemble(0x0101, &[Elem::Tlv(0x8022, b"abc".to_vec(), None), Elem::Fp(0)]);
        let n = b.len() - 4;
        b[n + p] ^= ix.take(255) as u8 + 1;
        b[n + q] ^= ix.take(255) as u8 + 1;
        c.state(&b);
        judge_fp::<All>(c, &b);
    });
    let sizes = lengths(x.thorough());
    x.space("sizes", &format!("FINGERPRINT behind a value of {} lengths (known or unknown type), value right, wrong, or one byte of the covered value changed, x 2 sets", sizes.len()), sizes.len() as u64 * 2 * 6 * 2, |c, i| {
        let mut ix = Ix(i);
        let (set, cp, how) = (ix.take(2), [0x13u16, 0x7001][ix.take(2)], ix.take(6));
        let l = sizes[ix.take(sizes.len())];
        c.state(&(l, cp, how, set));
        c.sample(|| format!("{} bytes, {}", l, HOW[how]));
        match sized(l, cp, how, &|b| tlv(0x8028, &fp_value(b).to_be_bytes(), None)) {
            Some(b) => judge_fp_in(c, &b, set),
            None => c.skip(),
        }
    });
    let ns = counts(x.thorough());
    x.space("counts", &format!("FINGERPRINT behind {} numbers of {} attributes, right, wrong, or one byte of the covered part changed", ns.len(), few.len()), (ns.len() * few.len() * 6) as u64, |c, i| {
        let mut ix = Ix(i);
        let (how, k) = (ix.take(6), ix.take(few.len()));
        let n = ns[ix.take(ns.len())];
        c.state(&(n, k, how));
        match counted(&few[k], n, how, &|b| tlv(0x8028, &fp_value(b).to_be_bytes(), None)) {
            Some(b) => judge_fp::<All>(c, &b),
            None => c.skip(),
        }
    });
    // reserved bits of known attributes: listed findings unless the verdict is the RFC's
    reserved(x, |c, mut b, right| {
        let v = fp_value(&b);
        b.extend(tlv(0x8028, &(if right { v } else { v ^ 1 }).to_be_bytes(), None));
        let l = (b.len() - 20) as u16;
        b[2..4].copy_from_slice(&l.to_be_bytes());
        c.state(&b);
        c.sample(|| hex(&b));
        judge_fp::<All>(c, &b);
    });
    // creation
    let core = attrs_core();
    let d = x.pick(3, 4);
    x.space("create", &format!("FINGERPRINT created for all lists of up to {} of {} attributes, appended, encoded, decoded", d, few.len()), seqs(few.len() as u64, d), |c, i| create(c, i, &few));
    let d = x.pick(5, 6);
    x.space("create-core", &format!("the same for lists of up to {} of {} attributes", d, core.len()), seqs(core.len() as u64, d), |c, i| create(c, i, &core));
    let full = attrs_full();
    x.space("create-full", &format!("the same for each of {} attribute values, alone and behind another attribute, x 4 transaction ids", full.len()), full.len() as u64 * 8, |c, i| {
        let mut ix = Ix(i);
        let t = tids()[ix.take(4)];
        let two = ix.take(2) == 1;
        let a = full[ix.take(full.len())].clone();
        create_for(c, msg((i % 4) as u8, 1 + (i % 4000) as u16, t, if two { vec![few[3].clone(), a] } else { vec![a] }));
    });
    let w = attrs_wide();
    x.space("create-wide", &format!("the same for each of {} attribute values (complete or wide domains of each type)", w.len()), w.len() as u64, |c, i| {
        create_for(c, msg((i % 4) as u8, (i % 4096) as u16, tids()[(i / 4) as usize % 4], vec![w[i as usize].clone()]));
    });
    let wide_ids = tids_wide();
    x.space("create-tids", &format!("the same for {} transaction ids (words that mean something elsewhere, repeated bytes) x 3 attributes", wide_ids.len()), wide_ids.len() as u64 * 3, |c, i| {
        create_for(c, msg((i % 4) as u8, 1, wide_ids[(i / 3) as usize], vec![core[(i % 3) as usize].clone()]));
    });
    // created for a message that was received (with its padding and unknown attributes)
    let d = x.pick(4, 5);
    x.space("append", &format!("FINGERPRINT created for received messages of up to {} of {} attributes and appended", d, els.len()), seqs(els.len() as u64, d), |c, i| {
        let l: Vec<Elem> = seq(i, els.len() as u64).into_iter().map(|j| els[j].clone()).collect();
        let b = assemble(0x0101, &l);
        c.state(&b);
        c.sample(|| hex(&b));
        let Ok(Ok(mut m)) = MessageDecoder::<All>::new().decode_from_bytes(&b) else { return c.outcome("broken") };
        c.outcome("ok");
        c.op(4);
        match Fingerprint::new(&m) {
            Err(e) => c.fail("create-error", || format!("{}: {}", hex(&b), e)),
            Ok(fp) => {
                let v = fp_value(&b);
                c.eq("created-value", || format!("FINGERPRINT for received {}", hex(&b)), &fp.crc32(), &v);
                m.add_attribute(fp);
                let mut w = b.clone();
                w.extend(tlv(0x8028, &v.to_be_bytes(), None));
                let n = (w.len() - 20) as u16;
                w[2..4].copy_from_slice(&n.to_be_bytes());
                let got = encode(m).ok();
                c.check("append", got.as_ref() == Some(&w), || format!("{} with FINGERPRINT appended: {:?} instead of {}", hex(&b), got.as_deref().map(hex), hex(&w)));
            }
        }
    });
}
fn create(c: &mut Case, i: u64, alpha: &[MAttr]) {
    let l = seq(i, alpha.len() as u64).into_iter().map(|j| alpha[j].clone()).collect();
    let t = tids();
    create_for(c, msg((i % 4) as u8, ((i * 0x2b) % 4096) as u16, t[(i / 4) as usize % t.len()], l));
}
fn create_for(c: &mut Case, m: MMsg) {
    c.state(&m);
    c.sample(|| format!("{:?}", m.attrs));
    let Some(b) = encode_msg(&m) else { return c.skip() };
    let mut msg: Message<All> = match build(&m) {
        Ok(x) => x,
        Err(e) => return c.fail("refused", || e),
    };
    c.op(4);
    let fp = match Fingerprint::new(&msg) {
        Ok(f) => f,
        Err(e) => return c.fail("create-error", || format!("{}: {}", hex(&b), e)),
    };
    c.eq("created-value", || format!("FINGERPRINT for {}", hex(&b)), &fp.crc32(), &fp_value(&b));
    c.eq("source-changed", || "message after creating a FINGERPRINT for it".into(), &see(&msg), &expect(&m));
    msg.add_attribute(fp.clone());
    let e = match encode(msg) {
        Ok(e) => e,
        Err(e) => return c.fail("encode-error", || format!("{}: {}", hex(&b), e)),
    };
    let (obs, dm, _) = feed_whole(&mut MessageDecoder::<All>::new(), &e);
    c.outcome(obs.kind());
    match dm {
        None => c.fail("own-fingerprint", || format!("own FINGERPRINT in {} is not accepted: {:?}", hex(&e), obs)),
        Some(dm) => {
            let got = dm.attributes().filter_map(|a| <All as TryAsRef<Fingerprint>>::try_as_ref(a)).last().cloned();
            c.eq("decoded-value", || hex(&e), &got, &Some(fp));
        }
    }
}
/// Known attributes with each reserved bit set, and pairs of them.
fn reserved(x: &mut Ctx, f: impl Fn(&mut Case, Vec<u8>, bool) + Sync) {
    let mut msgs: Vec<Vec<u8>> = vec![];
    for s in all_specs() {
        let mut vs = vec![typical(s.cp)];
        if matches!(s.kind, Kind::Addr | Kind::Xor) {
            vs.push(wire(s.cp, 4));
        }
        for v in vs.into_iter().filter(|v| !v.is_empty()) {
            let d = decode_value(s.kind, &v, &TID);
            for bit in 0..v.len() * 8 {
                let mut w = v.clone();
                w[bit / 8] ^= 0x80 >> (bit % 8);
                if decode_value(s.kind, &w, &TID) == d && d.is_some() {
                    let mut b = header(0x0101, 0, &TID);
                    b.extend(tlv(s.cp, &w, None));
                    msgs.push(b.clone());
                    b.extend(tlv(0x8022, b"abc", None));
                    msgs.push(b);
                }
            }
        }
    }
    x.space("reserved", &format!("{} messages with one reserved bit of a known attribute set x right/wrong digest", msgs.len()), msgs.len() as u64 * 2, |c, i| f(c, msgs[(i / 2) as usize].clone(), i % 2 == 0));
}

// ---------------------------------------------------------------- MESSAGE-INTEGRITY
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Cred {
    Short(String),
    Long(String, String, String),
}
impl Cred {
    fn key(&self) -> Vec<u8> {
        match self {
            Cred::Short(p) => p.as_bytes().to_vec(),
            Cred::Long(u, r, p) => long_term_key(u, r, p).to_vec(),
        }
    }
    fn make<S: stun_codec::Attribute>(&self, m: &Message<S>) -> bytecodec::Result<MessageIntegrity> {
        match self {
            Cred::Short(p) => MessageIntegrity::new_short_term_credential(m, p),
            Cred::Long(u, r, p) => MessageIntegrity::new_long_term_credential(m, &Username::new(u.clone())?, &Realm::new(r.clone())?, p),
        }
    }
    fn check(&self, mi: &MessageIntegrity) -> Result<(), (u16, String)> {
        let r = match self {
            Cred::Short(p) => mi.check_short_term_credential(p),
            Cred::Long(u, r, p) => mi.check_long_term_credential(&Username::new(u.clone()).unwrap(), &Realm::new(r.clone()).unwrap(), p),
        };
        r.map_err(|e| (e.code(), e.reason_phrase().to_string()))
    }
}
fn short_cred(s: &str) -> Cred {
    Cred::Short(s.into())
}
fn long_cred(u: &str, r: &str, p: &str) -> Cred {
    Cred::Long(u.into(), r.into(), p.into())
}
/// Credentials that are easy to confuse with each other.
fn creds() -> Vec<Cred> {
    let mut v: Vec<Cred> = ["", "\0", "a", "a\0", "A", "ab", "a ", " a", "aa", "\u{e9}", "e\u{301}", "a\n", PW].iter().map(|p| short_cred(p)).collect();
    v.push(short_cred(&"k".repeat(63)));
    v.push(short_cred(&"k".repeat(64)));
    v.push(short_cred(&"k".repeat(65)));
    v.push(short_cred("u:r:p"));
    for (u, r, p) in [
        ("", "", ""),
        ("u", "r", "p"),
        ("u:r", "p", ""),
        ("u", "r:p", ""),
        ("u:r", "", "p"),
        ("u", "", "r:p"),
        ("r", "u", "p"),
        ("u", "p", "r"),
        ("U", "r", "p"),
        ("u", "R", "p"),
        ("u", "r", "P"),
        ("u", "r", ""),
        ("\u{30de}\u{30c8}", "example.org", "TheMatrIX"),
        ("u", "r", "p\0"),
        ("u ", "r", "p"),
    ] {
        v.push(long_cred(u, r, p));
    }
    for s in odd_strings() {
        v.push(short_cred(&s));
        v.push(long_cred(&s, "r", "p"));
        v.push(long_cred("u", &s, "p"));
        v.push(long_cred("u", "r", &s));
    }
    // what they might be mistaken for
    for s in ["r", "\\r\\", "\u{49}\u{58}", "fi", "ss", "a\u{62}", "\r", "mixed", "u"] {
        v.push(short_cred(s));
        v.push(long_cred("u", s, "p"));
        v.push(long_cred(s, "r", "p"));
    }
    v.sort_by_key(|c| format!("{:?}", c));
    v.dedup();
    v
}
fn verdict(c: &mut Case, sig: String, what: &dyn Fn() -> String, mi: &MessageIntegrity, cred: &Cred, valid: bool) {
    c.op(1);
    let got = cred.check(mi);
    c.outcome(if got.is_ok() { "accepted" } else { "refused" });
    let want = if valid { Ok(()) } else { Err((401, "Unauthorized".to_string())) };
    if got == want {
        c.checked()
    } else {
        c.fail(sig, || format!("{}: check with {:?} gives {:?}, expected {:?}", what(), cred, got, want))
    }
}
/// Decodes and checks every MESSAGE-INTEGRITY with every credential against the received bytes.
fn judge_mi<S: AttrSet>(c: &mut Case, b: &[u8], creds: &[Cred]) {
    let set = S::cps();
    let (Out::Ok(model), total) = decode_msg(b, &set, FpMode::Received) else {
        return c.outcome("no message");
    };
    let (obs, m, _) = feed_whole(&mut MessageDecoder::<S>::new(), b);
    c.op(1);
    let Some(m) = m else {
        // FINGERPRINT over reserved bits is C09's subject
        if reserved_attr(b, &set).is_none() {
            c.fail("decode", || format!("input {}: {:?}", hex(b), obs));
        }
        return;
    };
    let mis: Vec<&MessageIntegrity> = m.attributes().filter_map(|a| a.integrity()).collect();
    let pos: Vec<(usize, usize, &[u8])> = tlvs(&b[..total]).into_iter().enumerate().filter(|(_, t)| t.1 == 8).map(|(j, t)| (j, t.0, t.2)).collect();
    if !c.check("count", mis.len() == pos.len(), || format!("input {}: {} MESSAGE-INTEGRITY instead of {}", hex(b), mis.len(), pos.len())) {
        return;
    }
    for (k, (j, p, v)) in pos.iter().enumerate() {
        c.eq("value", || hex(b), &mis[k].hmac_sha1().to_vec(), &v.to_vec());
        for cred in creds {
            let key = cred.key();
            let valid = mi_value(&b[..*p], &key)[..] == **v;
            let prefix = MMsg { attrs: model.attrs[..*j].to_vec(), ..model.clone() };
            let canon = encode_msg(&prefix).map_or(false, |e| mi_value(&e, &key)[..] == **v);
            let got = cred.check(mis[k]).is_ok();
            let sig = match reserved_attr(&b[..*p], &set) {
                Some(a) if got != valid && got == canon => format!("reserved-bits:{}", a),
                _ => "verdict".into(),
            };
            verdict(c, sig, &|| format!("MESSAGE-INTEGRITY at {} of received {}", p, hex(b)), mis[k], cred, valid);
        }
    }
}
fn mi_variants(prefix: &[u8], total: usize, key: &[u8]) -> Vec<(&'static str, [u8; 20])> {
    let right = mi_value(prefix, key);
    let n = prefix.len() - 20;
    let with_len = |l: usize| {
        let mut b = prefix.to_vec();
        b[2..4].copy_from_slice(&(l as u16).to_be_bytes());
        hmac_sha1(key, &b)
    };
    let mut rev = right;
    rev.reverse();
    let mut cut = right;
    cut[19] = 0;
    let mut head = right;
    head[0] ^= 0x80;
    let mut mid = right;
    mid[10] ^= 1;
    let mut inc = prefix.to_vec();
    inc[2..4].copy_from_slice(&((n + 24) as u16).to_be_bytes());
    inc.extend([0, 8, 0, 20]);
    let mut s = [0u8; 20];
    s.copy_from_slice(&sha1(prefix));
    vec![
        ("right", right),
        ("length before it", with_len(n)),
        ("length + 8", with_len(n + 8)),
        ("length + 20", with_len(n + 20)),
        ("length + 4", with_len(n + 4)),
        ("length + 32 (FINGERPRINT included)", with_len(n + 32)),
        ("total length", with_len(total)),
        ("attribute header included", hmac_sha1(key, &inc)),
        ("without header", hmac_sha1(key, &prefix[20..])),
        ("empty key", mi_value(prefix, b"")),
        ("reversed", rev),
        ("last byte cleared", cut),
        ("first bit flipped", head),
        ("middle bit flipped", mid),
        ("plain SHA-1", s),
        ("zero", [0; 20]),
    ]
}

pub fn c10(x: &mut Ctx) {
    x.assumptions.push("passwords are used as their UTF-8 bytes: SASLprep is the caller's task (the crate's own RFC 5769 test says so)".into());
    let all = creds();
    let n = all.len();
    // creation for messages
    let (few, core, full) = (attrs_few(), attrs_core(), attrs_full());
    let some: Vec<Cred> = vec![short_cred(PW), short_cred(""), short_cred(&"k".repeat(65)), long_cred("u", "r", "p"), long_cred("u", "r", "P")];
    let d = x.pick(2, 3);
    x.space("create", &format!("MESSAGE-INTEGRITY created with {} credentials for all lists of up to {} of {} attributes, checked with all of them before encoding and after decoding, FINGERPRINT behind it or not", some.len(), d, few.len()), seqs(few.len() as u64, d) * some.len() as u64, |c, i| {
        let mut ix = Ix(i);
        let k = ix.take(some.len());
        let l = seq(ix.0, few.len() as u64).into_iter().map(|j| few[j].clone()).collect();
        let t = tids();
        make_mi(c, msg((i % 4) as u8, ((i * 0x2b) % 4096) as u16, t[(i / 4) as usize % t.len()], l), &some[k], &some, i % 2 == 0);
    });
    let d = x.pick(4, 5);
    x.space("create-core", &format!("the same for lists of up to {} of {} attributes, 2 credentials", d, core.len()), seqs(core.len() as u64, d) * 2, |c, i| {
        let l = seq(i / 2, core.len() as u64).into_iter().map(|j| core[j].clone()).collect();
        make_mi(c, msg(0, 1, TID, l), &some[(i % 2) as usize * 3], &some[..1], i % 3 == 0);
    });
    x.space("create-full", &format!("the same for each of {} attribute values x 4 transaction ids", full.len()), full.len() as u64 * 4, |c, i| {
        let m = msg((i % 4) as u8, 3, tids()[(i % 4) as usize], vec![full[(i / 4) as usize].clone()]);
        make_mi(c, m, &some[(i % 5) as usize], &some, true);
    });
    let w = attrs_wide();
    x.space("create-wide", &format!("the same for each of {} attribute values (complete or wide domains of each type)", w.len()), w.len() as u64, |c, i| {
        let k = (i % 5) as usize;
        make_mi(c, msg((i % 4) as u8, (i % 4096) as u16, tids()[(i / 4) as usize % 4], vec![w[i as usize].clone()]), &some[k], &some[k..k + 1], i % 2 == 0);
    });
    let wide_ids = tids_wide();
    x.space("create-tids", &format!("the same for {} transaction ids (words that mean something elsewhere, repeated bytes) x 3 attributes", wide_ids.len()), wide_ids.len() as u64 * 3, |c, i| {
        let k = (i % 5) as usize;
        make_mi(c, msg((i % 4) as u8, 1, wide_ids[(i / 3) as usize], vec![core[(i % 3) as usize].clone()]), &some[k], &some[k..k + 1], i % 2 == 0);
    });
    // credentials
    x.space("credentials", &format!("all pairs of {} easily confused credentials: created with one, checked with the other, before encoding and after decoding", n), (n * n) as u64, |c, i| {
        let mut ix = Ix(i);
        let (a, b) = (&all[ix.take(n)], &all[ix.take(n)]);
        c.state(&(a, b));
        c.sample(|| format!("{:?} / {:?}", a, b));
        make_mi(c, msg(0, 1, TID, vec![few[0].clone(), few[3].clone()]), a, std::slice::from_ref(b), false);
    });
    let maxlen = x.pick(1200u64, 5000);
    let chars = ["k", "\0", "\u{e9}", "\u{65e5}", "\u{10348}"];
    x.space("key-lengths", &format!("short-term passwords of 0..{} characters of 1 to 4 bytes, checked with itself and with one character less and more", maxlen), maxlen * 5, |c, i| {
        let mut ix = Ix(i);
        let ch = chars[ix.take(5)];
        let len = ix.0 as usize;
        let p = Cred::Short(ch.repeat(len));
        let others = [Cred::Short(ch.repeat(len)), Cred::Short(ch.repeat(len + 1)), Cred::Short(ch.repeat(len.saturating_sub(1))), Cred::Short(format!("{}x", ch.repeat(len)))];
        make_mi(c, msg(0, 1, TID, vec![few[1].clone()]), &p, &others, false);
    });
    let maxlen = 128u64;
    x.space("long-lengths", &format!("long-term credentials with one of username, realm, password of 0..{} characters of 1 to 4 bytes", maxlen), maxlen * 5 * 3, |c, i| {
        let mut ix = Ix(i);
        let s = chars[ix.take(5)].repeat({
            let r = i / 15;
            r as usize
        });
        let mk = |a: usize, s: String| match a {
            0 => Cred::Long(s, "r".into(), "p".into()),
            1 => Cred::Long("u".into(), s, "p".into()),
            _ => Cred::Long("u".into(), "r".into(), s),
        };
        let a = ix.take(3);
        let cr = mk(a, s.clone());
        let other = mk(a, format!("{}{}", s, if s.chars().count() < 127 { "x" } else { "" }));
        make_mi(c, msg(0, 1, TID, vec![]), &cr, &[cr.clone(), other], false);
    });
    // received messages
    let mut bases: Vec<Vec<u8>> = vec![wire_msg(1, &[(8, AUTO)])];
    for s in all_specs().filter(|s| s.cp != 8 && s.cp != 0x8028) {
        bases.push(wire_msg(1, &[(s.cp, typical(s.cp)), (8, AUTO)]));
    }
    bases.push(wire_msg(1, &[(8, AUTO), (0x8022, b"abc".to_vec())]));
    bases.push(wire_msg(1, &[(0x7fff, vec![1, 2, 3]), (8, AUTO), (0x9999, vec![1])]));
    bases.push(wire_msg(0x101, &[(6, b"ab".to_vec()), (8, AUTO), (0x20, wire(0x20, 4)), (8, AUTO), (0x13, vec![5])]));
    bases.push(wire_msg(0x101, &[(0x8022, b"x".to_vec()), (8, AUTO), (0x8028, AUTO)]));
    let offs: Vec<u64> = bases
        .iter()
        .scan(0u64, |a, b| {
            *a += b.len() as u64;
            Some(*a)
        })
        .collect();
    let locate = |i: u64| {
        let k = offs.iter().position(|o| i < *o).unwrap();
        (k, (i - if k == 0 { 0 } else { offs[k - 1] }) as usize)
    };
    let pw = [short_cred(PW)];
    let subst = 255u64;
    x.space("substitute", &format!("every byte of {} messages with MESSAGE-INTEGRITY (also followed by others) changed in {} ways x 2 sets", bases.len(), if subst == 8 { "8 single-bit" } else { "all 255" }), offs.last().unwrap() * subst * 2, |c, i| {
        let mut ix = Ix(i);
        let set = ix.take(2);
        let s = ix.take(subst as usize);
        let (k, p) = locate(ix.0);
        let mut b = bases[k].clone();
        b[p] ^= if subst == 8 { 1 << s } else { s as u8 + 1 };
        c.state(&(k, p, s));
        c.sample(|| hex(&b));
        if set == 0 {
            judge_mi::<All>(c, &b, &pw)
        } else {
            judge_mi::<A5389>(c, &b, &pw)
        }
    });
    let lt = [long_cred("u", "r", "p")];
    x.space("substitute-long", "every byte of a message with USERNAME, REALM, NONCE and a long-term MESSAGE-INTEGRITY changed in all 255 ways", 120 * 255, |c, i| {
        let mut ix = Ix(i);
        let d = ix.take(255) as u8 + 1;
        let mut b = wire_msg(1, &[(6, b"u".to_vec()), (0x14, b"r".to_vec()), (0x15, b"nonce".to_vec()), (0x20, wire(0x20, 4))]);
        let v = mi_value(&b, &lt[0].key());
        b.extend(tlv(8, &v, None));
        let l = (b.len() - 20) as u16;
        b[2..4].copy_from_slice(&l.to_be_bytes());
        if ix.0 as usize >= b.len() {
            return c.skip();
        }
        b[ix.0 as usize] ^= d;
        c.state(&b);
        judge_mi::<All>(c, &b, &lt);
    });
    // the same with the FINGERPRINT behind it made right again: only the HMAC can tell
    x.space("substitute-fp", &format!("every byte of {} messages changed in {} ways, with a correct FINGERPRINT put behind", bases.len(), subst), offs.last().unwrap() * subst, |c, i| {
        let mut ix = Ix(i);
        let s = ix.take(subst as usize);
        let (k, p) = locate(ix.0);
        let mut b = bases[k].clone();
        b[p] ^= if subst == 8 { 1 << s } else { s as u8 + 1 };
        let fp = fp_value(&b);
        b.extend(tlv(0x8028, &fp.to_be_bytes(), None));
        let l = (b.len() - 20) as u16;
        b[2..4].copy_from_slice(&l.to_be_bytes());
        c.state(&b);
        judge_mi::<All>(c, &b, &pw)
    });
    let els = elems();
    let d = x.pick(5, 6);
    let two = [short_cred(PW), short_cred("other")];
    x.space("positions", &format!("all lists of up to {} of {} attributes (right and wrong digests, padding, XOR, unknown) x 2 sets x 2 passwords", d, els.len()), seqs(els.len() as u64, d) * 2, |c, i| {
        let l: Vec<Elem> = seq(i / 2, els.len() as u64).into_iter().map(|j| els[j].clone()).collect();
        let b = assemble(0x0001, &l);
        c.state(&b);
        c.sample(|| hex(&b));
        if i % 2 == 0 {
            judge_mi::<All>(c, &b, &two)
        } else {
            judge_mi::<A5389>(c, &b, &two)
        }
    });
    let tails: Vec<Vec<u8>> = vec![vec![], tlv(0x8022, b"xyz", None), tlv(0x7002, &[], None), [tlv(0x24, &[0, 0, 0, 1], None), tlv(0x13, &[1], None)].concat()];
    let heads: Vec<Vec<Elem>> = {
        let mut v = vec![vec![]];
        for a in &els {
            v.push(vec![a.clone()]);
            for b in &els {
                v.push(vec![a.clone(), b.clone()]);
            }
        }
        v
    };
    let vc = [short_cred(PW), long_cred("u", "r", "p")];
    x.space("variants", &format!("{} preceding parts x {} following parts x 16 ways to compute the value x short and long term", heads.len(), tails.len()), (heads.len() * tails.len() * 16 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let (v, t, k) = (ix.take(16), ix.take(tails.len()), ix.take(2));
        let mut b = assemble(0x0101, &heads[ix.take(heads.len())]);
        let total = b.len() - 20 + 24 + tails[t].len();
        let (name, val) = mi_variants(&b, total, &vc[k].key())[v];
        b.extend(tlv(8, &val, None));
        b.extend(&tails[t]);
        b[2..4].copy_from_slice(&(total as u16).to_be_bytes());
        c.state(&b);
        c.sample(|| format!("{}: {}", name, hex(&b)));
        judge_mi::<All>(c, &b, &vc);
    });
    // changes of the value that keep some function of it: pairs of bytes, exchanges, rotations
    let pairs: Vec<(usize, usize)> = (0..20).flat_map(|p| (0..p).map(move |q| (q, p))).collect();
    x.space("value-changes", "two bytes of the HMAC value changed by the same or the opposite difference, exchanged, or the value rotated or reversed in part, short and long term", 190 * (255 * 3 + 3) * 2, |c, i| {
        let mut ix = Ix(i);
        let k = ix.take(2);
        let how = ix.take(255 * 3 + 3);
        let (p, q) = pairs[ix.take(190)];
        let mut b = assemble(0x0101, &[Elem::Tlv(0x8022, b"abc".to_vec(), None)]);
        let mut v = mi_value(&b, &vc[k].key());
        let d = (how / 3 + 1) as u8;
        match (how / 3, how % 3) {
            (255, 0) => v.swap(p, q),
            (255, 1) => v[p..=q].reverse(),
            (255, _) => v[p..=q].rotate_left(1),
            (_, 0) => {
                v[p] ^= d;
                v[q] ^= d
            }
            (_, 1) => {
                v[p] = v[p].wrapping_add(d);
                v[q] = v[q].wrapping_sub(d)
            }
            (_, _) => {
                v[p] ^= d;
                v[q] ^= d.rotate_left(3)
            }
        }
        b.extend(tlv(8, &v, None));
        let l = (b.len() - 20) as u16;
        b[2..4].copy_from_slice(&l.to_be_bytes());
        c.state(&(k, v));
        judge_mi::<All>(c, &b, &vc[k..k + 1]);
    });
    let sizes = lengths(x.thorough());
    x.space("sizes", &format!("MESSAGE-INTEGRITY behind a value of {} lengths (known or unknown type), value right, wrong, or one byte of the covered value changed, short and long term", sizes.len()), sizes.len() as u64 * 2 * 6 * 2, |c, i| {
        let mut ix = Ix(i);
        let (k, cp, how) = (ix.take(2), [0x13u16, 0x7001][ix.take(2)], ix.take(6));
        let l = sizes[ix.take(sizes.len())];
        c.state(&(l, cp, how, k));
        c.sample(|| format!("{} bytes, {}", l, HOW[how]));
        let key = vc[k].key();
        match sized(l, cp, how, &|b| tlv(8, &mi_value(b, &key), None)) {
            Some(b) => judge_mi::<All>(c, &b, &vc),
            None => c.skip(),
        }
    });
    let ns: Vec<usize> = counts(x.thorough());
    let lean: Vec<MAttr> = few.iter().filter(|a| a.cp != 8).cloned().collect();
    x.space("counts", &format!("MESSAGE-INTEGRITY behind {} numbers of {} attributes, right, wrong, or one byte of the covered part changed, short and long term", ns.len(), lean.len()), (ns.len() * lean.len() * 6 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let (cr, how, k) = (ix.take(2), ix.take(6), ix.take(lean.len()));
        let n = ns[ix.take(ns.len())];
        c.state(&(n, k, how, cr));
        let key = vc[cr].key();
        match counted(&lean[k], n, how, &|b| tlv(8, &mi_value(b, &key), None)) {
            Some(b) => judge_mi::<All>(c, &b, &vc),
            None => c.skip(),
        }
    });
    x.space("headers", "all 16384 type fields x right/wrong value", 16384 * 2, |c, i| {
        let b = assemble((i / 2) as u16, &[Elem::Tlv(0x20, wire(0x20, 0), None), Elem::Mi((i % 2) as u8)]);
        c.state(&b);
        judge_mi::<All>(c, &b, &pw);
    });
    reserved(x, |c, mut b, right| {
        let mut v = mi_value(&b, PW.as_bytes());
        if !right {
            v[3] ^= 4;
        }
        b.extend(tlv(8, &v, None));
        let l = (b.len() - 20) as u16;
        b[2..4].copy_from_slice(&l.to_be_bytes());
        c.state(&b);
        c.sample(|| hex(&b));
        judge_mi::<All>(c, &b, &[short_cred(PW)]);
    });
    // created for a message that was received (with its padding and unknown attributes)
    let d = x.pick(4, 5);
    x.space("append", &format!("MESSAGE-INTEGRITY created for received messages of up to {} of {} attributes", d, els.len()), seqs(els.len() as u64, d), |c, i| {
        let l: Vec<Elem> = seq(i, els.len() as u64).into_iter().map(|j| els[j].clone()).collect();
        let b = assemble(0x0101, &l);
        c.state(&b);
        let Ok(Ok(mut m)) = MessageDecoder::<All>::new().decode_from_bytes(&b) else { return c.outcome("broken") };
        for cred in &vc {
            c.op(2);
            match cred.make(&m) {
                Err(e) => c.fail("create-error", || format!("{}: {}", hex(&b), e)),
                Ok(mi) => {
                    c.eq("created-value", || format!("{:?} for received {}", cred, hex(&b)), &mi.hmac_sha1().to_vec(), &mi_value(&b, &cred.key()).to_vec());
                    verdict(c, "verdict".into(), &|| format!("created for received {}", hex(&b)), &mi, cred, true);
                }
            }
        }
        if let Ok(mi) = vc[0].make(&m) {
            m.add_attribute(mi);
            if let Ok(e) = encode(m) {
                judge_mi::<All>(c, &e, &vc);
            }
        }
    });
}
fn make_mi(c: &mut Case, m: MMsg, cred: &Cred, others: &[Cred], fp: bool) {
    c.state(&(&m, cred, fp));
    c.sample(|| format!("{:?} for {:?}", cred, m.attrs));
    let Some(b) = encode_msg(&m) else { return c.skip() };
    let mut msg: Message<All> = match build(&m) {
        Ok(x) => x,
        Err(e) => return c.fail("refused", || e),
    };
    c.op(4);
    let mi = match cred.make(&msg) {
        Ok(f) => f,
        Err(e) => return c.fail("create-error", || format!("{:?} for {}: {}", cred, hex(&b), e)),
    };
    let right = mi_value(&b, &cred.key());
    c.eq("created-value", || format!("{:?} for {}", cred, hex(&b)), &mi.hmac_sha1().to_vec(), &right.to_vec());
    c.eq("source-changed", || "message after creating a MESSAGE-INTEGRITY for it".into(), &see(&msg), &expect(&m));
    let checks = |c: &mut Case, mi: &MessageIntegrity, when: &str| {
        verdict(c, "verdict".into(), &|| format!("created with the same credential for {} {}", hex(&b), when), mi, cred, true);
        for o in others {
            let valid = mi_value(&b, &o.key()) == right;
            verdict(c, "verdict".into(), &|| format!("created with {:?} for {} {}", cred, hex(&b), when), mi, o, valid);
        }
    };
    checks(c, &mi, "before encoding");
    msg.add_attribute(mi);
    if fp {
        match Fingerprint::new(&msg) {
            Ok(f) => msg.add_attribute(f),
            Err(e) => return c.fail("create-error", || format!("FINGERPRINT behind it: {}", e)),
        }
    }
    let e = match encode(msg) {
        Ok(e) => e,
        Err(e) => return c.fail("encode-error", || format!("{}: {}", hex(&b), e)),
    };
    let (obs, dm, _) = feed_whole(&mut MessageDecoder::<All>::new(), &e);
    match dm {
        None => c.fail("own-message", || format!("own message {} is not accepted: {:?}", hex(&e), obs)),
        Some(dm) => match dm.attributes().filter_map(|a| <All as TryAsRef<MessageIntegrity>>::try_as_ref(a)).last() {
            None => c.fail("lost", || format!("MESSAGE-INTEGRITY missing in decoded {}", hex(&e))),
            Some(mi) => checks(c, mi, "after decoding"),
        },
    }
}
