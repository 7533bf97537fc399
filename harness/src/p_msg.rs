//! C01 wire format, C02 round trip, C03 lossless re-encoding, C14 attribute list, C17 type field.
use crate::conv::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use bytecodec::{DecodeExt, EncodeExt};
use stun_codec::{Attribute, AttributeType, Message, MessageDecoder, MessageEncoder, Method, RawAttribute, TransactionId};

pub fn brief(m: &MMsg) -> String {
    format!(
        "class {} method 0x{:03x} attrs [{}]",
        m.class,
        m.method,
        m.attrs.iter().map(|a| short(&format!("{}={:?}", name_of(a.cp), a.body))).collect::<Vec<_>>().join(", ")
    )
}
/// Sequences of attributes as case index: header variants x attribute lists.
struct Seqs {
    alpha: Vec<MAttr>,
    depth: u32,
}
impl Seqs {
    fn n(&self) -> u64 {
        seqs(self.alpha.len() as u64, self.depth)
    }
    fn get(&self, idx: u64) -> Vec<MAttr> {
        seq(idx, self.alpha.len() as u64).into_iter().map(|i| self.alpha[i].clone()).collect()
    }
}
/// Header varies along with the index so that every list also meets different headers.
fn with_header(idx: u64, attrs: Vec<MAttr>) -> MMsg {
    let t = tids();
    msg((idx % 4) as u8, ((idx * 0x3d1) % 4096) as u16, t[(idx / 4) as usize % t.len()], attrs)
}

fn enc_case(c: &mut Case, m: &MMsg) {
    c.sample(|| brief(m));
    c.state(m);
    let built: Message<All> = match build(m) {
        Ok(b) => b,
        Err(e) => return c.fail("refused", || format!("{}: {}", brief(m), e)),
    };
    c.op(1 + m.attrs.len() as u64);
    let want = encode_msg(m);
    let got = encode(built).ok();
    c.op(1);
    c.outcome(if got.is_some() { "encoded" } else { "refused" });
    c.note(|| format!("implementation: {}", got.as_deref().map(hex).unwrap_or("refused".into())));
    c.note(|| format!("model:          {}", want.as_deref().map(hex).unwrap_or("refused".into())));
    c.check("bytes", got == want, || {
        format!(
            "{}: encodes to {} but the RFC format is {}",
            brief(m),
            got.as_deref().map(hex).unwrap_or("error".into()),
            want.as_deref().map(hex).unwrap_or("error".into())
        )
    });
}

pub fn c01(x: &mut Ctx) {
    let t = tids();
    let bodies: Vec<Vec<MAttr>> = vec![vec![], vec![attrs_core()[0].clone()], vec![attrs_core()[1].clone(), attrs_core()[4].clone()]];
    x.space("headers", "4 classes x 4096 methods x 4 transaction ids x 3 bodies", 4 * 4096 * 4 * 3, |c, i| {
        let mut ix = Ix(i);
        let m = msg(ix.take(4) as u8, ix.take(4096) as u16, t[ix.take(4)], bodies[ix.take(3)].clone());
        enc_case(c, &m);
    });
    let full = Seqs { alpha: attrs_full(), depth: x.pick(2, 2) };
    x.space("seq-full", &format!("attribute lists of length <= {} over {} attribute values", full.depth, full.alpha.len()), full.n(), |c, i| {
        enc_case(c, &with_header(i, full.get(i)))
    });
    let few = Seqs { alpha: attrs_few(), depth: x.pick(4, 5) };
    x.space("seq-few", &format!("attribute lists of length <= {} over {} attribute values", few.depth, few.alpha.len()), few.n(), |c, i| {
        enc_case(c, &with_header(i, few.get(i)))
    });
    let core = Seqs { alpha: attrs_core(), depth: x.pick(5, 7) };
    x.space("seq-core", &format!("attribute lists of length <= {} over {} attribute values", core.depth, core.alpha.len()), core.n(), |c, i| {
        enc_case(c, &with_header(i, core.get(i)))
    });
    let far = Far::new(x.thorough(), false);
    x.space("offsets", &far.say(), far.n(), |c, i| {
        enc_case(c, &far.get(i))
    });
    let tl = TypeLists::new(3, x.pick(4, 5), false);
    x.space("type-lists", &tl.say(), tl.n(), |c, i| enc_case(c, &tl.get(i)));
    let tid_bodies: Vec<Vec<MAttr>> = vec![vec![], vec![attrs_core()[1].clone()], vec![attrs_core()[2].clone()], vec![attrs_core()[4].clone(), attrs_core()[5].clone()]];
    x.space("tids", "all values of each transaction id byte on 4 backgrounds x 4 bodies", 12 * 256 * 16, |c, i| {
        let mut ix = Ix(i);
        let mut id = t[ix.take(4)];
        let (p, v, b) = (ix.take(12), ix.take(256) as u8, ix.take(4));
        id[p] = v;
        enc_case(c, &msg((i % 4) as u8, 1, id, tid_bodies[b].clone()))
    });
    let every = attrs_few();
    let ne = every.len() as u64;
    x.space("headers-attrs", &format!("all 16384 class/method pairs x {} attributes (each type)", ne), 16384 * ne, |c, i| {
        let mut ix = Ix(i);
        let (cl, me) = (ix.take(4) as u8, ix.take(4096) as u16);
        enc_case(c, &msg(cl, me, TID, vec![every[ix.take(ne as usize)].clone()]))
    });
    x.space("tids-attrs", &format!("all values of each transaction id byte on 4 backgrounds x {} attributes (each type)", ne), 12 * 256 * 4 * ne, |c, i| {
        let mut ix = Ix(i);
        let mut id = t[ix.take(4)];
        let (p, v) = (ix.take(12), ix.take(256) as u8);
        id[p] = v;
        enc_case(c, &msg((i % 4) as u8, 1, id, vec![every[ix.take(ne as usize)].clone()]))
    });
    let wide_ids = tids_wide();
    x.space("tids-wide", &format!("{} transaction ids of words that mean something elsewhere, repeated bytes x {} attributes (each type)", wide_ids.len(), ne), wide_ids.len() as u64 * ne, |c, i| {
        let mut ix = Ix(i);
        let id = wide_ids[ix.take(wide_ids.len())];
        enc_case(c, &msg((i % 4) as u8, 1, id, vec![every[ix.take(ne as usize)].clone()]))
    });
    x.space("tid-pairs", "all values of each pair of adjacent transaction id bytes on 2 backgrounds x without attributes, XOR-MAPPED-ADDRESS", TID_PAIRS * 2, |c, i| {
        enc_case(c, &msg((i % 4) as u8, 1, tid_pair(i / 2), tid_bodies[(i % 2) as usize * 2].clone()))
    });
    let cnt = counts(x.thorough());
    let few1: Vec<MAttr> = attrs_small().into_iter().filter(|a| matches!(a.body, Body::Known(_))).collect();
    let nc = cnt.len() as u64;
    x.space("counts", &format!("{} numbers of copies up to {} of each of {} attributes, alone, before and behind another one", nc, cnt[cnt.len() - 1], few1.len()), nc * few1.len() as u64 * 3, |c, i| {
        let mut ix = Ix(i);
        let (a, mode, n) = (&few1[ix.take(few1.len())], ix.take(3), cnt[ix.take(cnt.len())]);
        if matches!(a.cp, 0x8028 | 0x0008) && n > 130 {
            return c.skip();
        }
        let other = &few1[if mode == 1 { 3 } else { few1.len() - 4 }];
        enc_case(c, &msg((i % 4) as u8, (i % 4096) as u16, TID, copies(a, if mode == 0 { None } else { Some(other) }, n)))
    });
    let w = attrs_wide();
    let nw = w.len() as u64;
    x.space("wide-values", &format!("{} values (complete or wide domains of each type), alone, before and behind another attribute", nw), nw * 3, |c, i| {
        let mut ix = Ix(i);
        let (mode, a) = (ix.take(3), w[ix.take(nw as usize)].clone());
        let other = MAttr::known(0x8022, Val::Str("abc".into()));
        let l = match mode {
            0 => vec![a],
            1 => vec![a, other],
            _ => vec![other, a],
        };
        enc_case(c, &with_header(i, l))
    });
    // raw attributes: any type and any length
    let raw_case = |c: &mut Case, m: MMsg| {
        c.sample(|| brief(&m));
        c.state(&m);
        let got = encode(build_raw(&m)).ok();
        c.op(1);
        c.outcome(if got.is_some() { "encoded" } else { "refused" });
        let want = encode_msg(&m);
        c.check("raw-bytes", got == want, || format!("raw {}: {:?} vs model {:?}", brief(&m), got.as_deref().map(hex), want.as_deref().map(hex)));
    };
    x.space("raw-types", "all 65536 attribute types x value lengths 0..=4", 65536 * 5, |c, i| {
        let mut ix = Ix(i);
        let n = ix.take(5);
        let m = msg(0, 1, TID, vec![MAttr::raw(ix.take(65536) as u16, vec![0xC3; n])]);
        raw_case(c, m)
    });
    let maxlen = x.pick(65536u64, 66000);
    x.space("raw-lengths", &format!("one raw attribute of each length below {}", maxlen), maxlen, |c, i| {
        raw_case(c, msg(1, 2, TID, vec![MAttr::raw(0x7001, vec![i as u8; i as usize])]))
    });
    let d = x.pick(5, 7);
    x.space("raw-padding", &format!("lists of up to {} raw attributes with lengths 0..=8", d), seqs(9, d), |c, i| {
        let a = seq(i, 9).into_iter().enumerate().map(|(j, n)| MAttr::raw(0x7000 + j as u16, vec![0xFF; n])).collect();
        raw_case(c, msg(2, 0xFFF, TID, a))
    });
    let emb = embedded();
    x.space("raw-values", &format!("{} values that are packets or texts themselves x 6 raw types x alone, before and behind another one", emb.len()), emb.len() as u64 * 18, |c, i| {
        let mut ix = Ix(i);
        let (cp, mode, v) = (RAW_CPS[ix.take(6)], ix.take(3), emb[ix.take(emb.len())].clone());
        raw_case(c, with_header(i, raw_mode(cp, v, mode)))
    });
}
const RAW_CPS: [u16; 6] = [0, 0x7001, 0xC001, 0xffff, 0x0013, 0x8028];
fn raw_mode(cp: u16, v: Vec<u8>, mode: usize) -> Vec<MAttr> {
    let other = MAttr::raw(0x7002, b"abc".to_vec());
    match mode {
        0 => vec![MAttr::raw(cp, v)],
        1 => vec![MAttr::raw(cp, v), other],
        _ => vec![other, MAttr::raw(cp, v)],
    }
}
fn see_raw(m: &Message<RawAttribute>) -> (u8, u16, [u8; 12], Vec<(u16, Vec<u8>)>, usize) {
    let l = m.attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect();
    (unclass(m.class()), m.method().as_u16(), *m.transaction_id().as_bytes(), l, m.unknown_attributes().count())
}
/// Round trip of a message of raw attributes, through raw decoders and one that knows all types (where it can).
fn rt_raw(c: &mut Case, m: &MMsg) {
    c.sample(|| brief(m));
    c.state(m);
    let built = build_raw(m);
    let before = see_raw(&built);
    let l: Vec<(u16, Vec<u8>)> = m.attrs.iter().map(|a| (a.cp, a.value_bytes(&m.tid))).collect();
    c.eq("built", || brief(m), &before, &(m.class, m.method, m.tid, l, 0));
    let Ok(bytes) = encode(built) else {
        return c.fail("encode-error", || format!("{} cannot be encoded", brief(m)));
    };
    c.op(3);
    match MessageDecoder::<RawAttribute>::new().decode_from_bytes(&bytes) {
        Ok(Ok(dm)) => {
            c.outcome("ok");
            c.eq("round-trip", || format!("{} via {}", brief(m), hex(&bytes)), &see_raw(&dm), &before);
            let again = encode(dm).ok();
            c.check("re-encode", again.as_deref() == Some(&bytes[..]), || format!("{}: {} re-encodes to {:?}", brief(m), hex(&bytes), again.as_deref().map(hex)));
        }
        o => return c.fail("decode", || format!("{}: own encoding {} does not decode: {:?}", brief(m), hex(&bytes), o.map(|r| r.map(|_| ()).map_err(|b| b.error().to_string())))),
    }
    if m.attrs.iter().all(|a| kind_of(a.cp).is_none()) {
        c.op(2);
        match MessageDecoder::<All>::new().decode_from_bytes(&bytes) {
            Ok(Ok(dm)) => {
                c.eq("unknown", || format!("{} via {}", brief(m), hex(&bytes)), &see(&dm), &expect(m));
                let again = encode(dm).ok();
                c.check("re-encode", again.as_deref() == Some(&bytes[..]), || format!("{}: {} re-encodes to {:?}", brief(m), hex(&bytes), again.as_deref().map(hex)));
            }
            o => c.fail("decode", || format!("{}: own encoding {} does not decode: {:?}", brief(m), hex(&bytes), o.map(|r| r.map(|_| ()).map_err(|b| b.error().to_string())))),
        }
    }
}

fn rt_case(c: &mut Case, m: &MMsg) {
    c.sample(|| brief(m));
    c.state(m);
    let built: Message<All> = match build(m) {
        Ok(b) => b,
        Err(e) => return c.fail("refused", || format!("{}: {}", brief(m), e)),
    };
    let before = see(&built);
    c.eq("built", || brief(m), &before, &expect(m));
    let Ok(bytes) = encode(built.clone()) else {
        return c.fail("encode-error", || format!("{} cannot be encoded", brief(m)));
    };
    // encoding must not change the message it was given a copy of
    c.eq("original-changed", || brief(m), &see(&built), &before);
    let mut d = MessageDecoder::<All>::new();
    let got = d.decode_from_bytes(&bytes);
    c.op(3);
    match got {
        Ok(Ok(dm)) => {
            c.outcome("ok");
            c.eq("round-trip", || format!("{} via {}", brief(m), hex(&bytes)), &see(&dm), &before);
            let again = encode(dm).ok();
            c.op(1);
            if again.as_deref() != Some(&bytes[..]) {
                c.fail("re-encode", || format!("{}: {} re-encodes to {:?}", brief(m), hex(&bytes), again.as_deref().map(hex)));
            }
        }
        Ok(Err(b)) => c.fail("decode-broken", || format!("{}: own encoding {} is broken: {}", brief(m), hex(&bytes), b.error())),
        Err(e) => c.fail("decode-error", || format!("{}: own encoding {} is rejected: {}", brief(m), hex(&bytes), e)),
    }
}

pub fn c02(x: &mut Ctx) {
    let t = tids();
    let bodies: Vec<Vec<MAttr>> = vec![vec![], vec![attrs_core()[0].clone()], vec![attrs_core()[1].clone(), attrs_core()[4].clone()]];
    x.space("headers", "4 classes x 4096 methods x 4 transaction ids x 3 bodies", 4 * 4096 * 4 * 3, |c, i| {
        let mut ix = Ix(i);
        rt_case(c, &msg(ix.take(4) as u8, ix.take(4096) as u16, t[ix.take(4)], bodies[ix.take(3)].clone()))
    });
    let full = Seqs { alpha: attrs_full(), depth: 2 };
    x.space("seq-full", &format!("attribute lists of length <= {} over {} attribute values", full.depth, full.alpha.len()), full.n(), |c, i| {
        rt_case(c, &with_header(i, full.get(i)))
    });
    let few = Seqs { alpha: attrs_few(), depth: x.pick(4, 5) };
    x.space("seq-few", &format!("attribute lists of length <= {} over {} attribute values", few.depth, few.alpha.len()), few.n(), |c, i| {
        rt_case(c, &with_header(i, few.get(i)))
    });
    let core = Seqs { alpha: attrs_core(), depth: x.pick(5, 7) };
    x.space("seq-core", &format!("attribute lists of length <= {} over {} attribute values", core.depth, core.alpha.len()), core.n(), |c, i| {
        rt_case(c, &with_header(i, core.get(i)))
    });
    let far = Far::new(x.thorough(), false);
    x.space("offsets", &far.say(), far.n(), |c, i| {
        rt_case(c, &far.get(i))
    });
    let tl = TypeLists::new(3, x.pick(4, 5), false);
    x.space("type-lists", &tl.say(), tl.n(), |c, i| rt_case(c, &tl.get(i)));
    let tid_bodies: Vec<Vec<MAttr>> = vec![vec![], vec![attrs_core()[1].clone()], vec![attrs_core()[2].clone()], vec![attrs_core()[4].clone(), attrs_core()[5].clone()]];
    x.space("tids", "all values of each transaction id byte on 4 backgrounds x 4 bodies", 12 * 256 * 16, |c, i| {
        let mut ix = Ix(i);
        let mut id = t[ix.take(4)];
        let (p, v, b) = (ix.take(12), ix.take(256) as u8, ix.take(4));
        id[p] = v;
        rt_case(c, &msg((i % 4) as u8, 1, id, tid_bodies[b].clone()))
    });
    let every = attrs_few();
    let ne = every.len() as u64;
    x.space("headers-attrs", &format!("all 16384 class/method pairs x {} attributes (each type)", ne), 16384 * ne, |c, i| {
        let mut ix = Ix(i);
        let (cl, me) = (ix.take(4) as u8, ix.take(4096) as u16);
        rt_case(c, &msg(cl, me, TID, vec![every[ix.take(ne as usize)].clone()]))
    });
    x.space("tids-attrs", &format!("all values of each transaction id byte on 4 backgrounds x {} attributes (each type)", ne), 12 * 256 * 4 * ne, |c, i| {
        let mut ix = Ix(i);
        let mut id = t[ix.take(4)];
        let (p, v) = (ix.take(12), ix.take(256) as u8);
        id[p] = v;
        rt_case(c, &msg((i % 4) as u8, 1, id, vec![every[ix.take(ne as usize)].clone()]))
    });
    let wide_ids = tids_wide();
    x.space("tids-wide", &format!("{} transaction ids of words that mean something elsewhere, repeated bytes x {} attributes (each type)", wide_ids.len(), ne), wide_ids.len() as u64 * ne, |c, i| {
        let mut ix = Ix(i);
        let id = wide_ids[ix.take(wide_ids.len())];
        rt_case(c, &msg((i % 4) as u8, 1, id, vec![every[ix.take(ne as usize)].clone()]))
    });
    x.space("tid-pairs", "all values of each pair of adjacent transaction id bytes on 2 backgrounds x without attributes, XOR-MAPPED-ADDRESS", TID_PAIRS * 2, |c, i| {
        rt_case(c, &msg((i % 4) as u8, 1, tid_pair(i / 2), tid_bodies[(i % 2) as usize * 2].clone()))
    });
    let cnt = counts(x.thorough());
    let few1: Vec<MAttr> = attrs_small().into_iter().filter(|a| matches!(a.body, Body::Known(_))).collect();
    let nc = cnt.len() as u64;
    x.space("counts", &format!("{} numbers of copies up to {} of each of {} attributes, alone, before and behind another one", nc, cnt[cnt.len() - 1], few1.len()), nc * few1.len() as u64 * 3, |c, i| {
        let mut ix = Ix(i);
        let (a, mode, n) = (&few1[ix.take(few1.len())], ix.take(3), cnt[ix.take(cnt.len())]);
        if matches!(a.cp, 0x8028 | 0x0008) && n > 130 {
            return c.skip();
        }
        let other = &few1[if mode == 1 { 3 } else { few1.len() - 4 }];
        rt_case(c, &msg((i % 4) as u8, (i % 4096) as u16, TID, copies(a, if mode == 0 { None } else { Some(other) }, n)))
    });
    let w = attrs_wide();
    let nw = w.len() as u64;
    x.space("wide-values", &format!("{} values (complete or wide domains of each type), alone, before and behind another attribute", nw), nw * 3, |c, i| {
        let mut ix = Ix(i);
        let (mode, a) = (ix.take(3), w[ix.take(nw as usize)].clone());
        let other = MAttr::known(0x8022, Val::Str("abc".into()));
        let l = match mode {
            0 => vec![a],
            1 => vec![a, other],
            _ => vec![other, a],
        };
        rt_case(c, &with_header(i, l))
    });
    let lens = x.pick(9000u64, 65529);
    x.space("data-lengths", &format!("DATA and MOBILITY-TICKET of each length below {}", lens), lens * 2, |c, i| {
        let v = Val::Bytes((0..i / 2).map(|k| (k * 7) as u8).collect());
        rt_case(c, &msg(1, 6, TID, vec![MAttr::known(if i % 2 == 0 { 0x13 } else { 0x8030 }, v)]))
    });
    // messages of raw attributes
    x.space("raw-types", "raw attributes of all 65536 types x value lengths 0..=4", 65536 * 5, |c, i| {
        let mut ix = Ix(i);
        let n = ix.take(5);
        rt_raw(c, &with_header(i, vec![MAttr::raw(ix.take(65536) as u16, vec![0xC3; n])]))
    });
    let lens = x.pick(4200u64, 65529);
    x.space("raw-lengths", &format!("raw attributes of each length below {} x 2 types", lens), lens * 2, |c, i| {
        rt_raw(c, &with_header(i, vec![MAttr::raw([0x7001, 0xC001][(i % 2) as usize], (0..i / 2).map(|k| (k * 7) as u8).collect())]))
    });
    let emb = embedded();
    x.space("raw-values", &format!("{} values that are packets or texts themselves x 6 raw types x alone, before and behind another one", emb.len()), emb.len() as u64 * 18, |c, i| {
        let mut ix = Ix(i);
        let (cp, mode, v) = (RAW_CPS[ix.take(6)], ix.take(3), emb[ix.take(emb.len())].clone());
        rt_raw(c, &with_header(i, raw_mode(cp, v, mode)))
    });
    let alpha: Vec<MAttr> = RAW_CPS.iter().flat_map(|cp| (0..4usize).map(move |n| MAttr::raw(*cp, (1..=n as u8).collect()))).collect();
    let d = x.pick(4, 5);
    x.space("raw-seq", &format!("lists of up to {} over {} raw attributes", d, alpha.len()), seqs(alpha.len() as u64, d), |c, i| {
        rt_raw(c, &with_header(i, seq(i, alpha.len() as u64).into_iter().map(|j| alpha[j].clone()).collect()))
    });
}

// ------------------------------------------------------------------ C03
fn lossless<S: AttrSet>(c: &mut Case, b: &[u8], setname: &str) {
    let (out, _) = decode_msg(b, &S::cps(), FpMode::Received);
    let Out::Ok(m) = out else {
        panic!("generator produced a malformed message {}", hex(b));
    };
    c.state(&m);
    let r = MessageDecoder::<S>::new().decode_from_bytes(b);
    c.op(1);
    match r {
        Ok(Ok(dm)) => {
            c.eq("view", || format!("{} with set {}", hex(b), setname), &see(&dm), &expect(&m));
            let again = encode(dm).ok();
            c.op(1);
            c.outcome("re-encoded");
            c.note(|| format!("received   {}", hex(b)));
            c.note(|| format!("re-encoded {}", again.as_deref().map(hex).unwrap_or("error".into())));
            if again.as_deref() != Some(b) {
                c.fail("re-encode", || format!("set {}: received {} re-encodes to {:?}", setname, hex(b), again.as_deref().map(hex)));
            }
        }
        o => c.fail("decode", || format!("set {}: well-formed {} does not decode: {:?}", setname, hex(b), o.map(|x| x.map(|_| ())))),
    }
}
const SETS: [&str; 6] = ["all", "rfc5389", "rfc5766", "rfc5245", "rfc5780", "raw"];
fn lossless_in(c: &mut Case, b: &[u8], set: usize) {
    match set {
        0 => lossless::<All>(c, b, SETS[0]),
        1 => lossless::<A5389>(c, b, SETS[1]),
        2 => lossless::<A5766>(c, b, SETS[2]),
        3 => lossless::<A5245>(c, b, SETS[3]),
        4 => lossless::<A5780>(c, b, SETS[4]),
        _ => {
            // RawAttribute as the attribute type: everything is "known" as raw bytes
            let r = MessageDecoder::<RawAttribute>::new().decode_from_bytes(b);
            c.op(2);
            match r {
                Ok(Ok(m)) => {
                    let again = encode(m).ok();
                    c.outcome("re-encoded");
                    if again.as_deref() != Some(b) {
                        c.fail("re-encode", || format!("set raw: received {} re-encodes to {:?}", hex(b), again.as_deref().map(hex)));
                    }
                }
                o => c.fail("decode", || format!("set raw: {} does not decode: {:?}", hex(b), o.map(|x| x.map(|_| ())))),
            }
        }
    }
}
pub fn c03(x: &mut Ctx) {
    // padding contents
    let carriers: [(u16, usize); 6] = [(0x8022, 0), (0x0006, 0), (0x0013, 0), (0x7001, 0), (0xC001, 0), (0x8030, 0)];
    x.space("pad1", "1-byte padding: all 256 contents x 6 attribute types x 6 sets", 256 * 36, |c, i| {
        let mut ix = Ix(i);
        let p = ix.take(256) as u8;
        let b = frame(1, &padded(carriers[ix.take(6)].0, b"abc", &[p]));
        c.sample(|| hex(&b));
        lossless_in(c, &b, ix.take(6));
    });
    x.space("pad2", "2-byte padding: all 65536 contents x 6 attribute types", 65536 * 6, |c, i| {
        let mut ix = Ix(i);
        let p = (ix.take(65536) as u16).to_be_bytes();
        let b = frame(1, &padded(carriers[ix.take(6)].0, b"ab", &p));
        c.sample(|| hex(&b));
        lossless_in(c, &b, if i & 1 == 0 { 0 } else { 1 });
    });
    let alpha: Vec<u8> = if x.thorough() { (0..=255).collect() } else { vec![0, 1, 0x20, 0x7f, 0x80, 0xff, 0x04, 0x28, 0x10, 0x55, 0xaa, 0xc3, 2, 0x40, 8, 0xfe] };
    let k = alpha.len() as u64;
    x.space("pad3", &format!("3-byte padding: all contents over {} byte values x 2 types (EVEN-PORT and unknown)", k), k * k * k * 2, |c, i| {
        let mut ix = Ix(i);
        let p = [alpha[ix.take(alpha.len())], alpha[ix.take(alpha.len())], alpha[ix.take(alpha.len())]];
        let b = if ix.take(2) == 0 { frame(1, &padded(0x18, &[0x80], &p)) } else { frame(1, &padded(0x4444, &[7], &p)) };
        c.sample(|| hex(&b));
        lossless_in(c, &b, (i % 6) as usize);
    });
    x.space("types", "all 65536 attribute types x value lengths 0..=5 as unknown attributes x 6 sets (known types skipped)", 65536 * 6 * 6, |c, i| {
        let mut ix = Ix(i);
        let (set, n, cp) = (ix.take(6), ix.take(6), ix.take(65536) as u16);
        let cps = [all_cps(), RFC5389.to_vec(), RFC5766.to_vec(), RFC5245.to_vec(), RFC5780.to_vec(), vec![]];
        if cps[set].contains(&cp) {
            return c.skip();
        }
        let b = frame(0x0111, &padded(cp, &[0xEE; 5][..n], &[0x99; 3][..padlen(n)]));
        c.sample(|| hex(&b));
        lossless_in(c, &b, set);
    });
    let lens = x.pick(9000u64, 65529);
    x.space("lengths", &format!("unknown, DATA and ticket values of every length below {} x 3 padding contents", lens), lens * 9, |c, i| {
        let n = (i / 9) as usize;
        let cp = [0x7abc, 0x0013, 0x8030][(i % 3) as usize];
        let v: Vec<u8> = (0..n).map(|k| (k * 31) as u8).collect();
        let b = frame(1, &padded(cp, &v, &[[0xAB; 3], [0xFF; 3], [0, 0, 0x20]][(i / 3 % 3) as usize][..padlen(n)]));
        c.sample(|| hex(&b));
        lossless_in(c, &b, 0);
    });
    let wide_ids = tids_wide();
    x.space("tids-wide", &format!("{} transaction ids of words that mean something elsewhere, repeated bytes x 3 bodies x 2 sets", wide_ids.len()), wide_ids.len() as u64 * 6, |c, i| {
        let mut ix = Ix(i);
        let mut b = frame(1, &[&[][..], &padded(0x0020, &[0, 2, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18], &[]), &padded(0x8022, b"ab", &[1, 2])][ix.take(3)]);
        let set = ix.take(2);
        b[8..20].copy_from_slice(&wide_ids[ix.take(wide_ids.len())]);
        c.sample(|| hex(&b));
        lossless_in(c, &b, set);
    });
    let heads: Vec<(u16, Vec<u8>)> = all_cps().into_iter().map(|cp| (cp, typical(cp))).chain([(0x7001, vec![1]), (0xC001, vec![])]).collect();
    let nh = heads.len() as u64;
    x.space("headers-attrs", &format!("all 16384 class/method pairs x {} attributes, with non-zero padding where there is any", nh), 16384 * nh, |c, i| {
        let mut ix = Ix(i);
        let t = type_field(ix.take(4) as u8, ix.take(4096) as u16);
        let (cp, v) = &heads[ix.take(nh as usize)];
        let mut b = wire_msg(t, &[(*cp, v.clone())]);
        let n = if v.is_empty() { 0 } else { padlen(v.len()) };
        let l = b.len();
        b[l - n..].fill(0x5a);
        lossless_in(c, &b, (i % 6) as usize);
    });
    let odd: Vec<(u16, Vec<u8>)> = heads.iter().filter(|(_, v)| padlen(v.len()) > 0).cloned().collect();
    let no = odd.len() as u64;
    x.space("pad-types", &format!("{} attribute types with padding x all 65536 contents of its first and last byte", no), 65536 * no, |c, i| {
        let mut ix = Ix(i);
        let (u, v) = (ix.take(256) as u8, ix.take(256) as u8);
        let (cp, val) = &odd[ix.take(no as usize)];
        let mut pad = vec![0xc3; padlen(val.len())];
        pad[0] = u;
        *pad.last_mut().unwrap() = v;
        let b = frame(0x0101, &[padded(*cp, val, &pad), padded(0x8022, b"z", &[1, 0, 2])].concat());
        c.sample(|| hex(&b));
        lossless_in(c, &b, (i % 6) as usize);
    });
    let w = attrs_wide_wire();
    let nw = w.len() as u64;
    x.space("wide-values", &format!("{} received values (complete or wide domains of each type) with non-zero padding, before another attribute, in the 6 sets in turn", nw), nw * 2, |c, i| {
        let a = &w[(i / 2) as usize];
        let mut b = encode_msg(&with_header(i, vec![a.clone()])).unwrap();
        if i % 2 == 1 {
            b.extend(padded(0x8022, b"zz", &[1, 0]));
            if kind_of(a.cp) == Some(Kind::Fp) {
                return c.skip();
            }
        }
        let l = u16::from_be_bytes([b[22], b[23]]) as usize;
        b[24 + l..24 + l + padlen(l)].fill(0x5a);
        let n = (b.len() - 20) as u16;
        b[2..4].copy_from_slice(&n.to_be_bytes());
        lossless_in(c, &b, ((i / 2) % 6) as usize);
    });
    // many attributes
    let cnt = counts(x.thorough());
    let some = [(0x8022u16, b"a".to_vec(), vec![7u8, 8, 9]), (0x7777, vec![1, 2, 3], vec![0xff]), (0xC123, vec![], vec![]), (0x0020, wire(0x20, 4), vec![]), (0x0025, vec![], vec![]), (0x0013, vec![5; 6], vec![1, 0])];
    x.space("counts", &format!("{} numbers of repeated attributes up to {}: all pairs of 6 attributes alternating x 6 sets", cnt.len(), cnt[cnt.len() - 1]), cnt.len() as u64 * 36 * 6, |c, i| {
        let mut ix = Ix(i);
        let (set, a, b, n) = (ix.take(6), &some[ix.take(6)], &some[ix.take(6)], cnt[ix.take(cnt.len())]);
        let one = [padded(a.0, &a.1, &a.2), padded(b.0, &b.1, &b.2)].concat();
        if one.len() * n > 65535 {
            return c.skip();
        }
        let b = frame(0x0101, &one.repeat(n));
        c.sample(|| format!("{} x {}", n, hex(&one)));
        lossless_in(c, &b, set);
    });
    let lens = lengths(x.thorough());
    x.space("text-lengths", &format!("all {} value lengths x 3 padding patterns x DATA, unknown, ticket, type list, reason phrase x 6 sets", lens.len()), lens.len() as u64 * 3 * 5 * 6, |c, i| {
        let mut ix = Ix(i);
        let (set, t, pat, n) = (ix.take(6), ix.take(5), ix.take(3), lens[ix.take(lens.len())]);
        let (cp, v) = match t {
            0 => (0x0013, vec![0x80; n]),
            1 => (0x6666, vec![0; n]),
            2 => (0x8030, vec![0xff; n]),
            3 => (0x000A, vec![0x7f; n / 2 * 2]),
            _ => (0x0009, [vec![0, 0, 4, 20], vec![b'r'; n]].concat()),
        };
        let pad = [[0, 0, 0], [0x20; 3], [1, 2, 3]][pat];
        let b = frame(0x0111, &[padded(cp, &v, &pad[..padlen(v.len())]), padded(0x8022, b"z", &pad)].concat());
        if b.len() > 65555 {
            return c.skip();
        }
        c.sample(|| format!("{} of {}", name_of(cp), v.len()));
        lossless_in(c, &b, set);
    });
    let far = Far::new(x.thorough(), true);
    x.space("offsets", &format!("{}; 6 sets in turn", far.say()), far.n(), |c, i| {
        lossless_in(c, &encode_msg(&far.get(i)).unwrap(), (i / 5 % 6) as usize)
    });
    // lists over all types, with non-zero padding
    let tl = TypeLists::new(3, x.pick(4, 5), true);
    x.space("type-lists", &format!("{}; padding not zero, 6 sets in turn", tl.say()), tl.n(), |c, i| {
        let m = tl.get(i);
        let mut b = encode_msg(&m).unwrap();
        let mut p = 20;
        // a FINGERPRINT covers the padding in front of it
        let fp = m.attrs.iter().any(|a| a.cp == 0x8028);
        while p + 4 <= b.len() {
            let n = u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize;
            if !fp {
                b[p + 4 + n..p + 4 + n + padlen(n)].fill(0x5A);
            }
            p += 4 + n + padlen(n);
        }
        lossless_in(c, &b, (i / 5 % 6) as usize);
    });
    // sequences of wire attributes, all sets
    let mut w: Vec<Vec<u8>> = vec![
        padded(0x8022, b"abc", &[0x20]),
        padded(0x8022, b"a", &[0, 1, 0]),
        padded(0x0006, b"evtj:h6vY", &[0x20; 3]),
        padded(0x7777, &[], &[]),
        padded(0x7777, &[1, 2], &[0xff, 0xfe]),
        padded(0xffff, &[1], &[0; 3]),
        padded(0x0000, &[9, 9, 9, 9], &[]),
        padded(0x0018, &[0x80], &[3, 2, 1]),
        padded(0x0020, &wire(0x20, 0), &[]),
        padded(0x0012, &wire(0x12, 4), &[]),
        padded(0x0024, &[1, 2, 3, 4], &[]),
        padded(0x0027, &[0x12, 0x34, 0, 0], &[]),
        padded(0x0003, &[0, 0, 0, 6], &[]),
        padded(0x0009, &wire(9, 0), &[7, 7][..padlen(wire(9, 0).len())]),
        padded(0x000A, &[0, 1], &[8, 8]),
        padded(0x001A, &[], &[]),
        padded(0x0008, &[0xAB; 20], &[]),
    ];
    w.push(vec![]); // FINGERPRINT, filled in per position
    let k = w.len() as u64;
    let depth = x.pick(4, 5);
    let n = seqs(k, depth);
    let nsets = 6;
    x.space("seq", &format!("lists of length <= {} over {} wire attributes (unknown, duplicate, non-zero padding, digests) x {} sets", depth, k, nsets), n * nsets, |c, i| {
        let s = seq(i / nsets, k);
        let mut b = header(0x0101, 0, &TID);
        for j in s {
            if w[j].is_empty() {
                let v = fp_value(&b);
                b.extend(tlv(0x8028, &v.to_be_bytes(), None));
            } else {
                b.extend_from_slice(&w[j]);
            }
        }
        let l = (b.len() - 20) as u16;
        b[2..4].copy_from_slice(&l.to_be_bytes());
        c.sample(|| hex(&b));
        lossless_in(c, &b, (i % nsets) as usize);
    });
}

// ------------------------------------------------------------------ C14
macro_rules! lookup_fn {
    ($($t:ident),*) => {
        /// First occurrence of every attribute type through `get_attribute`.
        fn lookup(m: &Message<All>) -> Vec<(u16, Option<Val>)> {
            vec![$((<$t as View>::CP, m.get_attribute::<$t>().map(|a| a.view()))),*]
        }
    };
}
for_all_attrs!(lookup_fn);

fn partition<S: AttrSet>(c: &mut Case, b: &[u8], set: &str) {
    let (out, _) = decode_msg(b, &S::cps(), FpMode::Received);
    let Out::Ok(m) = out else { panic!("generator produced {:?} for {}", out, hex(b)) };
    c.state(&m);
    let r = MessageDecoder::<S>::new().decode_from_bytes(b);
    c.op(1);
    match r {
        Ok(Ok(dm)) => {
            c.outcome(if dm.unknown_attributes().count() > 0 { "with unknown" } else { "all known" });
            c.eq("list", || format!("{} with set {}", hex(b), set), &see(&dm), &expect(&m));
            for a in dm.unknown_attributes() {
                let t = a.get_type();
                c.check("comprehension", t.is_comprehension_required() == (t.as_u16() < 0x8000) && t.is_comprehension_optional() == (t.as_u16() >= 0x8000), || {
                    format!("type 0x{:04x}: required={} optional={}", t.as_u16(), t.is_comprehension_required(), t.is_comprehension_optional())
                });
                c.check("into-value", a.clone().into_value() == a.value(), || "into_value differs from value".into());
            }
        }
        o => c.fail("decode", || format!("set {}: {} does not decode: {:?}", set, hex(b), o.map(|x| x.map(|_| ())))),
    }
}
/// What an iterator of a message yields, however it is driven.
fn iterators<'a, T: 'a, I: Iterator<Item = &'a T>>(c: &mut Case, name: &str, mk: impl Fn() -> I, n: usize) {
    c.op(4 + 3 * n as u64);
    let all: Vec<*const T> = mk().map(|a| a as *const T).collect();
    let (lo, hi) = mk().size_hint();
    let mut ok = all.len() == n && lo <= n && hi.map_or(true, |h| h >= n) && mk().count() == n && mk().last().map(|a| a as *const T) == all.last().copied();
    ok &= mk().fold(0, |k, _| k + 1) == n;
    for k in 0..=n {
        ok &= mk().nth(k).map(|a| a as *const T) == all.get(k).copied();
        let mut it = mk();
        for _ in 0..k {
            it.next();
        }
        let (lo, hi) = it.size_hint();
        ok &= lo <= n - k && hi.map_or(true, |h| h >= n - k);
        ok &= it.count() == n - k;
    }
    let mut it = mk();
    let by: Vec<*const T> = it.by_ref().step_by(2).map(|a| a as *const T).collect();
    ok &= by == all.iter().copied().step_by(2).collect::<Vec<_>>();
    c.check("iterator", ok, || format!("{}: the ways of iterating over {} elements disagree", name, n));
}
/// Lists, iterators and lookups of a message against the model.
fn observe(c: &mut Case, real: &Message<All>, m: &MMsg) {
    c.eq("list", || format!("in {:?}", m), &see(real), &expect(m));
    for (cp, got) in lookup(real) {
        let want = m.attrs.iter().find_map(|a| match &a.body {
            Body::Known(v) if a.cp == cp => Some(v.clone()),
            _ => None,
        });
        c.eq("lookup", || format!("get_attribute({}) in {:?}", name_of(cp), m), &got, &want);
    }
    c.op(33);
    if m.attrs.len() <= 12 {
        let n = m.attrs.iter().filter(|a| matches!(a.body, Body::Known(_))).count();
        iterators(c, "attributes", || real.attributes(), n);
        iterators(c, "unknown_attributes", || real.unknown_attributes(), m.attrs.len() - n);
    }
}
fn observed(c: &mut Case, m: &MMsg) {
    let Some(b) = encode_msg(m) else { return c.skip() };
    c.state(m);
    c.sample(|| hex(&b));
    match MessageDecoder::<All>::new().decode_from_bytes(&b) {
        Ok(Ok(d)) => {
            c.outcome("decoded");
            observe(c, &d, m)
        }
        _ => c.fail("decode", || format!("{} does not decode", hex(&b))),
    }
}
pub fn c14(x: &mut Ctx) {
    x.space("types", "every attribute type between known ones, unknown values of 0..=5 bytes, with each of 5 sets", 65536 * 5 * 6, |c, i| {
        let mut ix = Ix(i);
        let (set, cp, n) = (ix.take(5), ix.take(65536) as u16, ix.take(6));
        if n < 5 && kind_of(cp).is_some() {
            return c.skip();
        }
        let mut b = header(1, 0, &TID);
        b.extend(tlv(0x8022, b"abc", None));
        b.extend(tlv(0x0024, &[1, 2, 3, 4], None));
        match kind_of(cp) {
            Some(Kind::Fp) => {
                let v = fp_value(&b);
                b.extend(tlv(cp, &v.to_be_bytes(), None));
            }
            Some(Kind::Mi) => b.extend(tlv(cp, &[7; 20], None)),
            Some(_) => b.extend(tlv(cp, &wire(cp, 0), None)),
            None => b.extend(tlv(cp, &[1, 2, 3, 4, 5][..n], None)),
        }
        b.extend(tlv(0x0025, &[], None));
        b.extend(tlv(0x8022, b"second", None));
        let l = (b.len() - 20) as u16;
        b[2..4].copy_from_slice(&l.to_be_bytes());
        c.sample(|| hex(&b));
        match set {
            0 => partition::<All>(c, &b, SETS[0]),
            1 => partition::<A5389>(c, &b, SETS[1]),
            2 => partition::<A5766>(c, &b, SETS[2]),
            3 => partition::<A5245>(c, &b, SETS[3]),
            _ => partition::<A5780>(c, &b, SETS[4]),
        }
    });
    let heads: Vec<(u16, Vec<u8>)> = all_cps().into_iter().map(|cp| (cp, typical(cp))).chain([(0x7001, vec![1]), (0xC001, vec![])]).collect();
    let nh = heads.len() as u64;
    x.space("headers-attrs", &format!("all 16384 class/method pairs x {} attributes, followed by an unknown one", nh), 16384 * nh, |c, i| {
        let mut ix = Ix(i);
        let t = type_field(ix.take(4) as u8, ix.take(4096) as u16);
        let b = wire_msg(t, &[heads[ix.take(nh as usize)].clone(), (0x7abc, vec![1, 2])]);
        match i % 5 {
            0 => partition::<All>(c, &b, SETS[0]),
            1 => partition::<A5389>(c, &b, SETS[1]),
            2 => partition::<A5766>(c, &b, SETS[2]),
            3 => partition::<A5245>(c, &b, SETS[3]),
            _ => partition::<A5780>(c, &b, SETS[4]),
        }
    });
    // lists with repeated and unknown attributes, under all headers
    let kn = |cp: u16, v: usize| {
        let vs = vals(kind_of(cp).unwrap());
        MAttr::known(cp, vs[v % vs.len()].clone())
    };
    let alpha = vec![
        kn(0x8022, 1),
        kn(0x8022, 2),
        kn(0x20, 0),
        kn(0x20, 4),
        kn(9, 0),
        kn(9, 3),
        kn(0x12, 1),
        kn(0x24, 0),
        MAttr::raw(0x7777, vec![1, 2, 3]),
        MAttr::raw(0x7777, vec![]),
        MAttr::raw(0xC001, vec![5; 4]),
    ];
    let na = alpha.len() as u64;
    let lists: Vec<Vec<usize>> = vec![vec![], vec![0, 1], vec![2, 3, 2], vec![4, 5], vec![8, 0, 9, 1], vec![6, 7, 10, 6, 8], vec![1, 2, 4, 6, 7, 8, 9, 10, 0, 3, 5], vec![10, 8], vec![5, 4, 5, 4]];
    let nl = lists.len() as u64;
    let of = |l: &[usize]| l.iter().map(|j| alpha[*j].clone()).collect::<Vec<_>>();
    x.space("headers-lists", &format!("all 16384 class/method pairs x {} lists with repeated and unknown attributes: lists, iterators, lookups", nl), 16384 * nl, |c, i| {
        let mut ix = Ix(i);
        let (cl, me, l) = (ix.take(4) as u8, ix.take(4096) as u16, ix.take(nl as usize));
        observed(c, &msg(cl, me, TID, of(&lists[l])))
    });
    let ids = tids_wide();
    let nid = ids.len() as u64;
    x.space("tids-lists", &format!("{} transaction ids (words that mean something elsewhere, repeated bytes) x {} lists", nid, nl), nid * nl, |c, i| observed(c, &msg((i % 4) as u8, 1, ids[(i / nl) as usize], of(&lists[(i % nl) as usize]))));
    let far = Far::new(x.thorough(), true);
    x.space("offsets", &far.say(), far.n(), |c, i| {
        observed(c, &far.get(i))
    });
    let tl = TypeLists::new(3, x.pick(4, 5), true);
    x.space("type-lists", &tl.say(), tl.n(), |c, i| observed(c, &tl.get(i)));
    let d = x.pick(4, 5);
    x.space("lists", &format!("all lists of up to {} of {} attributes (repeated, unknown) x 4 classes x 3 methods: lists, iterators, lookups", d, na), seqs(na, d) * 12, |c, i| {
        let mut ix = Ix(i);
        let (cl, me) = (ix.take(4) as u8, [1, 3, 0xABC][ix.take(3)]);
        observed(c, &msg(cl, me, TID, of(&seq(ix.0, na))))
    });
    x.space("attribute-type", "all 65536 AttributeType values", 65536, |c, i| {
        let t = AttributeType::new(i as u16);
        let u: AttributeType = (i as u16).into();
        c.state(&i);
        c.op(5);
        c.sample(|| format!("{:?}", t));
        c.check("type", t.as_u16() == i as u16 && u == t && t.is_comprehension_required() == (i < 0x8000) && t.is_comprehension_optional() == (i >= 0x8000), || format!("AttributeType {:?} for {}", t, i));
    });
    // histories of building: start from a new or a decoded message, add attributes,
    // observe after every step, encode at the end
    let add = attrs_few();
    let starts: Vec<Vec<MAttr>> = vec![
        vec![],
        vec![MAttr::raw(0x7777, vec![1, 2, 3])],
        vec![MAttr::known(0x8022, Val::Str("abc".into())), MAttr::raw(0x9999, vec![]), MAttr::known(0x8022, Val::Str("z".into()))],
        vec![MAttr::raw(0x7777, vec![5]), MAttr::known(0x0001, Val::Addr(addrs()[0])), MAttr::raw(0x7777, vec![6, 6, 6, 6])],
    ];
    let k = add.len() as u64;
    let d = x.pick(3, 4);
    let n = seqs(k, d);
    let history = |c: &mut Case, start: &Vec<MAttr>, adds: Vec<MAttr>| {
        let mut m = msg(1, 0x7, TID, start.clone());
        let mut real: Message<All> = if start.is_empty() {
            Message::new(class(1), Method::new(7).unwrap(), TransactionId::new(TID))
        } else {
            let b = encode_msg(&m).unwrap();
            match MessageDecoder::<All>::new().decode_from_bytes(&b) {
                Ok(Ok(d)) => d,
                _ => return c.fail("decode", || format!("{} does not decode", hex(&b))),
            }
        };
        c.sample(|| format!("start {:?} then add {:?}", m, adds));
        for a in adds.iter().map(Some).chain([None]) {
            c.state(&m);
            observe(c, &real, &m);
            if let Some(a) = a {
                let Body::Known(v) = &a.body else { unreachable!() };
                let mut one = m.clone();
                one.attrs.push(a.clone());
                let m2 = resolve(one);
                let Body::Known(v2) = &m2.attrs.last().unwrap().body else { unreachable!() };
                let Some(av) = All::make(a.cp, v2) else { return c.fail("refused", || format!("{:?}", v)) };
                real.add_attribute(av);
                m = m2;
            }
        }
        let got = encode(real).ok();
        let want = encode_msg(&m);
        c.op(1);
        c.outcome("built");
        if got != want {
            c.fail("order", || format!("{:?} encodes to {:?} instead of {:?}", m, got.as_deref().map(hex), want.as_deref().map(hex)));
        }
    };
    x.space("histories", &format!("4 start messages (new, decoded with unknown and duplicate attributes) x up to {} additions of {} attributes, observed after each", d, k), n * 4, |c, i| {
        history(c, &starts[(i % 4) as usize], seq(i / 4, k).into_iter().map(|j| add[j].clone()).collect())
    });
    let w = attrs_wide();
    let nw = w.len() as u64;
    x.space("wide-values", &format!("{} added values (complete or wide domains of each type), behind another value of that type or not", nw), nw * 2, |c, i| {
        let a = w[(i / 2) as usize].clone();
        let first = add.iter().find(|b| b.cp == a.cp).unwrap().clone();
        history(c, &starts[(i / 2 % 4) as usize], if i % 2 == 0 { vec![a] } else { vec![first, a] })
    });
    // far apart
    let cnt: Vec<usize> = counts(x.thorough()).into_iter().filter(|n| *n <= 260).collect();
    let two: Vec<(MAttr, MAttr)> = all_specs()
        .filter(|s| !matches!(s.kind, Kind::Fp | Kind::Mi))
        .map(|s| {
            let v = vals(s.kind);
            (MAttr::known(s.cp, v[0].clone()), MAttr::known(s.cp, v[v.len() - 1].clone()))
        })
        .collect();
    let nk = two.len() as u64;
    x.space("far", &format!("{} numbers of other attributes (known, unknown) before and between two attributes of each of {} types, lookups in the decoded and re-decoded message", cnt.len(), nk), nk * cnt.len() as u64 * 4, |c, i| {
        let mut ix = Ix(i);
        let (a, mode, n) = (&two[ix.take(nk as usize)], ix.take(4), cnt[ix.take(cnt.len())]);
        let filler = if mode % 2 == 0 { MAttr::raw(0x7123, vec![9]) } else { two[(i as usize + 5) % two.len()].0.clone() };
        let mut l = copies(&filler, None, n);
        if mode >= 2 {
            l.insert(0, a.0.clone());
        } else {
            l.push(a.0.clone());
        }
        l.push(a.1.clone());
        let m = msg(0, 1, TID, l);
        let Some(b) = encode_msg(&m) else { return c.skip() };
        c.state(&m);
        c.sample(|| format!("{:?} after {} others", a, n));
        c.op(33);
        match MessageDecoder::<All>::new().decode_from_bytes(&b) {
            Ok(Ok(d)) => {
                c.outcome("decoded");
                observe(c, &d, &m);
            }
            _ => c.fail("decode", || format!("{} does not decode", hex(&b))),
        }
    });
    let core = attrs_core();
    let k = core.len() as u64;
    let d = x.pick(5, 6);
    let n = seqs(k, d);
    x.space("histories-deep", &format!("4 start messages x up to {} additions of {} core attributes", d, k), n * 4, |c, i| {
        history(c, &starts[(i % 4) as usize], seq(i / 4, k).into_iter().map(|j| core[j].clone()).collect())
    });
}

// ------------------------------------------------------------------ C17
pub fn c17(x: &mut Ctx) {
    x.space("encode", "all 4 x 4096 class/method pairs", 4 * 4096, |c, i| {
        let (cl, me) = ((i % 4) as u8, (i / 4) as u16);
        c.state(&(cl, me));
        let m = Message::<All>::new(class(cl), Method::new(me).expect("valid method"), TransactionId::new(TID));
        c.check("accessors", unclass(m.class()) == cl && m.method().as_u16() == me && *m.transaction_id().as_bytes() == TID, || format!("accessors of {:?}", m));
        let b = MessageEncoder::<All>::new().encode_into_bytes(m);
        c.op(2);
        c.sample(|| format!("class {} method {}: {:?}", cl, me, b.as_deref().map(hex)));
        match b {
            Ok(b) => {
                let t = if b.len() >= 2 { u16::from_be_bytes([b[0], b[1]]) } else { 0xFFFF };
                c.eq("encode", || format!("type field of class {} method 0x{:03x}", cl, me), &t, &type_field(cl, me));
                let r = MessageDecoder::<All>::new().decode_from_bytes(&b);
                c.op(1);
                match r {
                    Ok(Ok(d)) => {
                        c.eq("bijection", || format!("class {} method 0x{:03x} after round trip", cl, me), &(unclass(d.class()), d.method().as_u16()), &(cl, me));
                    }
                    _ => c.fail("bijection", || format!("class {} method 0x{:03x} does not decode from {}", cl, me, hex(&b))),
                }
            }
            Err(e) => c.fail("encode", || format!("class {} method {} refused: {}", cl, me, e)),
        }
        c.outcome("pair");
    });
    // the type field has nothing to do with what follows
    let mut with: Vec<MAttr> = attrs_types();
    with.push(MAttr::raw(0x7001, vec![1, 2, 3]));
    with.push(MAttr::raw(0xC001, vec![]));
    let nw = with.len();
    x.space("with-attributes", &format!("all 4 x 4096 class/method pairs x each of {} attributes (all types, unknown ones), received, broken, encoded again", nw), (4 * 4096 * nw * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let (cl, me, a, broken) = (ix.take(4) as u8, ix.take(4096) as u16, &with[ix.take(nw)], ix.take(2) == 1);
        let m = msg(cl, me, TID, vec![a.clone()]);
        let mut b = encode_msg(&m).expect("small");
        if broken {
            b.extend([0, 6, 0, 1]);
            let l = (b.len() - 20) as u16;
            b[2..4].copy_from_slice(&l.to_be_bytes());
        }
        c.state(&i);
        c.sample(|| hex(&b));
        let (obs, m, _) = feed_whole(&mut MessageDecoder::<All>::new(), &b);
        c.op(2);
        c.outcome(obs.kind());
        let got = match &obs {
            Obs::Ok(s) => Some((s.class, s.method)),
            Obs::Broken { class, method, .. } => Some((*class, *method)),
            _ => None,
        };
        c.eq("decode", || format!("class and method of {}", hex(&b)), &got, &Some((cl, me)));
        if let Some(m) = m {
            let again = encode(m).ok().map(|b| [b[0], b[1]]);
            c.op(1);
            c.eq("re-encode", || format!("type field of {} encoded again", hex(&b)), &again, &Some([b[0], b[1]]));
        }
    });
    x.space("decode", "all 65536 type fields x {empty, broken} attribute part", 65536 * 2, |c, i| {
        let t = (i / 2) as u16;
        let broken = i % 2 == 1;
        let mut b = header(t, if broken { 4 } else { 0 }, &TID);
        if broken {
            b.extend([0, 1, 0, 8]);
        }
        c.state(&(t, broken));
        c.sample(|| hex(&b));
        let (obs, m, _) = feed_whole(&mut MessageDecoder::<All>::new(), &b);
        c.op(2);
        c.outcome(obs.kind());
        let w = match untype(t) {
            None => Obs::Reject,
            Some((class, method)) if broken => Obs::Broken { class, method, tid: TID },
            Some((class, method)) => Obs::Ok(Seen { class, method, tid: TID, known: vec![], unknown: vec![] }),
        };
        c.eq("decode", || format!("type field 0x{:04x}", t), &obs, &w);
        if let Some(m) = m {
            let again = encode(m).ok();
            c.op(1);
            if again.as_deref() != Some(&b[..]) {
                c.fail("re-encode", || format!("type field 0x{:04x} re-encodes to {:?}", t, again.as_deref().map(hex)));
            }
        }
    });
}
