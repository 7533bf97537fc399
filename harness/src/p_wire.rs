//! C04 classification, C05 fragmentation, C07 decoder reuse, C20 framing, C24 memory.
use crate::conv::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use stun_codec::MessageDecoder;

/// Model outcomes acceptable for an input: normally one. Where reserved bits make the
/// FINGERPRINT verdict over received and over canonical bytes differ, both (see C09).
fn outs(b: &[u8], set: &[u16]) -> (Out, Option<Out>, usize) {
    let (o, total) = decode_msg(b, set, FpMode::Received);
    let alt = if set.contains(&0x8028) {
        let (o2, _) = decode_msg(b, set, FpMode::Canonical);
        (o2 != o).then_some(o2)
    } else {
        None
    };
    (o, alt, total)
}
fn out_kind(o: &Out) -> &'static str {
    match o {
        Out::Reject => "rejected",
        Out::Short { .. } => "cut off",
        Out::Broken { .. } => "broken",
        Out::Ok(_) => "ok",
    }
}
fn judge<S: AttrSet>(c: &mut Case, b: &[u8]) {
    let (o, alt, total) = outs(b, &S::cps());
    c.outcome(if alt.is_some() { "fingerprint over reserved bits (C09)" } else { out_kind(&o) });
    let mut d = MessageDecoder::<S>::new();
    let f = feed(&mut d, b, &[], true);
    c.op(f.calls);
    c.note(|| format!("input {} -> {:?}", hex(b), f.obs));
    let ok = agrees(&f.obs, &o) || alt.as_ref().map_or(false, |a| agrees(&f.obs, a));
    c.check("outcome", ok, || format!("input {}: decoder says {:?}, expected {:?}", hex(b), f.obs, want(&o)));
    if matches!(o, Out::Ok(_) | Out::Broken { .. }) && ok {
        c.check("consumed", f.consumed == total, || format!("input {}: {} bytes consumed instead of {}", hex(b), f.consumed, total));
        // the same on an open stream that goes on behind the message
        let mut longer = b[..total].to_vec();
        longer.extend_from_slice(&[0x00, 0x01, 0x00]);
        let g = feed(&mut MessageDecoder::<S>::new(), &longer, &[], false);
        c.op(g.calls);
        c.check("outcome", g.obs == f.obs && g.consumed == total, || format!("input {} on an open stream: {:?} with {} consumed, but {:?} alone", hex(b), g.obs, g.consumed, f.obs));
    }
}
fn judge_set(c: &mut Case, b: &[u8], set: usize) {
    match set {
        0 => judge::<All>(c, b),
        1 => judge::<A5389>(c, b),
        2 => judge::<A5766>(c, b),
        3 => judge::<A5245>(c, b),
        _ => judge::<A5780>(c, b),
    }
}

pub fn c04(x: &mut Ctx) {
    let bases = bases();
    let nb = bases.len() as u64;
    // --- header
    let bodies: Vec<Vec<u8>> = vec![vec![], tlv(0x8022, b"abc", None), vec![0, 1, 0, 8], tlv(0x20, &wire(0x20, 0), None)];
    x.space("type-field", "all 65536 type fields x 4 attribute parts", 65536 * 4, |c, i| {
        let mut ix = Ix(i);
        let t = ix.take(65536) as u16;
        let b = frame(t, &bodies[ix.take(4)]);
        c.state(&b);
        c.sample(|| hex(&b));
        judge::<All>(c, &b);
    });
    let wide_ids = tids_wide();
    let tb = [vec![], padded(0x0020, &[0, 1, 1, 2, 3, 4, 5, 6], &[]), padded(0x0020, &[0, 3, 1, 2, 3, 4, 5, 6], &[]), padded(0x8022, b"ab", &[1, 2])];
    x.space("tids-wide", &format!("{} transaction ids of words that mean something elsewhere, repeated bytes x 4 attribute parts x 4 type fields", wide_ids.len()), wide_ids.len() as u64 * 16, |c, i| {
        let mut ix = Ix(i);
        let mut b = frame([1, 0x0111, 0x3fff, 0x4001][ix.take(4)], &tb[ix.take(4)]);
        b[8..20].copy_from_slice(&wide_ids[ix.take(wide_ids.len())]);
        c.state(&b);
        c.sample(|| hex(&b));
        judge::<All>(c, &b);
    });
    x.space("cookie", "all contents of every pair of cookie bytes x 2 bodies", 6 * 65536 * 2, |c, i| {
        let mut ix = Ix(i);
        let (p, q) = [(4, 5), (4, 6), (4, 7), (5, 6), (5, 7), (6, 7)][ix.take(6)];
        let (u, v) = (ix.take(256) as u8, ix.take(256) as u8);
        let mut b = frame(1, &bodies[ix.take(2)]);
        b[p] = u;
        b[q] = v;
        c.state(&b);
        c.sample(|| hex(&b));
        judge::<All>(c, &b);
    });
    let shapes = 4u64;
    let step = x.pick(19u64, 1);
    x.space("length-field", &format!("announced lengths 0..=65535 (every {} and all below 600) x available one less / exact / one more x {} attribute-part shapes", step, shapes), (600 + 65536 / step) * 3 * shapes, |c, i| {
        let mut ix = Ix(i);
        let l = ix.take((600 + 65536 / step) as usize) as u64;
        let l = if l < 600 { l } else { (l - 600) * step } as usize;
        if l > 65535 {
            return c.skip();
        }
        let avail = (l + ix.take(3)).saturating_sub(1);
        let shape = ix.take(shapes as usize);
        let mut b = header(0x0001, l as u16, &TID);
        match shape {
            // one raw attribute filling the part
            0 if l >= 4 => {
                let v = (l - 4) / 4 * 4;
                b.extend(tlv(0x7001, &vec![0x5A; v], None));
            }
            // last attribute has an unaligned value and padding
            1 if l >= 8 => {
                let v = (l - 4) / 4 * 4 - 3;
                b.extend(tlv(0x0013, &vec![0xA5; v], Some(&[9, 9, 9])));
            }
            // one attribute announcing one byte too many
            2 if l >= 4 => {
                b.extend([0x70, 0x02]);
                b.extend(((l - 4 + 1) as u16).to_be_bytes());
            }
            // empty attributes only
            3 if l <= 4096 => {}
            3 => return c.skip(),
            _ => {}
        }
        b.resize(20 + avail, 0);
        c.state(&(l, avail, shape));
        c.sample(|| format!("announced {} available {} shape {}", l, avail, shape));
        judge::<All>(c, &b);
    });
    // --- cut off and contradictory lengths
    let maxlen = bases.iter().map(|b| b.len()).max().unwrap() as u64;
    x.space("cut", "every prefix of every base message, with the announced length kept, set to the prefix, one less, one more, x 2 sets", nb * (maxlen + 1) * 4 * 2, |c, i| {
        let mut ix = Ix(i);
        let b = &bases[ix.take(nb as usize)];
        let n = ix.take(maxlen as usize + 1);
        let (mode, set) = (ix.take(4), ix.take(2));
        if n > b.len() {
            return c.skip();
        }
        let mut v = b[..n].to_vec();
        if mode > 0 {
            if n < 20 {
                return c.skip();
            }
            let l = (n - 20) as i64 + [0, 0, -1, 1][mode];
            if l < 0 {
                return c.skip();
            }
            v[2..4].copy_from_slice(&(l as u16).to_be_bytes());
        }
        c.state(&v);
        c.sample(|| hex(&v));
        judge_set(c, &v, set);
    });
    // --- mutations
    x.space("mutate-1", "every base message, every byte position, all 256 values, x 5 sets", nb * maxlen * 256 * 5, |c, i| {
        let mut ix = Ix(i);
        let v = ix.take(256) as u8;
        let b = &bases[ix.take(nb as usize)];
        let (p, set) = (ix.take(maxlen as usize), ix.take(5));
        if p >= b.len() {
            return c.skip();
        }
        let mut m = b.clone();
        m[p] = v;
        c.state(&m);
        c.sample(|| hex(&m));
        judge_set(c, &m, set);
    });
    let al: Vec<u8> = x.pick(vec![0, 1, 3, 4, 0x20, 0x80, 0xff], vec![0, 1, 2, 3, 4, 5, 8, 9, 0x13, 0x20, 0x22, 0x28, 0x40, 0x7f, 0x80, 0xff]);
    let k = al.len() as u64;
    let small: Vec<Vec<u8>> = bases.iter().filter(|b| b.len() <= x.pick(32, 48)).cloned().collect();
    let (ns, m) = (small.len() as u64, x.pick(32u64, 48));
    x.space("mutate-2", &format!("{} short base messages, every pair of byte positions, {} values each", ns, k), ns * m * m * k * k, |c, i| {
        let mut ix = Ix(i);
        let (u, v) = (al[ix.take(k as usize)], al[ix.take(k as usize)]);
        let b = &small[ix.take(ns as usize)];
        let (p, q) = (ix.take(m as usize), ix.take(m as usize));
        if p >= q || q >= b.len() {
            return c.skip();
        }
        let mut w = b.clone();
        w[p] = u;
        w[q] = v;
        c.state(&w);
        c.sample(|| hex(&w));
        judge::<All>(c, &w);
    });
    // --- grammar of the attribute part
    let ga: Vec<u8> = vec![0x00, 0x01, 0x04, 0x24, 0x80, 0x22, 0x02, 0x28];
    let k = ga.len() as u64;
    let d = x.pick(7, 9);
    x.space("attribute-part", &format!("all attribute parts of up to {} bytes over {} byte values", d, k), seqs(k, d), |c, i| {
        let body: Vec<u8> = seq(i, k).into_iter().map(|j| ga[j]).collect();
        let b = frame(0x0101, &body);
        c.state(&body);
        c.sample(|| hex(&b));
        judge::<All>(c, &b);
    });
    // attribute header against the space left
    let types: Vec<u16> = all_cps().into_iter().chain([0x0000, 0x7001, 0x8001, 0xffff]).collect();
    let lens: Vec<u16> = (0..48).chain([252, 253, 255, 256, 260, 0x7fff, 0x8000, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff]).collect();
    let (nt, nl) = (types.len() as u64, lens.len() as u64);
    x.space("attribute-length", &format!("{} attribute types x {} value lengths x 0..=48 bytes left x 3 fillings x attribute behind or not", nt, nl), nt * nl * 49 * 3 * 2, |c, i| {
        let mut ix = Ix(i);
        let (t, l) = (types[ix.take(nt as usize)], lens[ix.take(nl as usize)]);
        let (left, fill, behind) = (ix.take(49), ix.take(3), ix.take(2) == 1);
        let mut body = t.to_be_bytes().to_vec();
        body.extend(l.to_be_bytes());
        match fill {
            0 => body.resize(4 + left, 0),
            1 => body.resize(4 + left, 1),
            _ => {
                let mut v = typical(t);
                v.resize(left, 0x41);
                body.extend(v);
            }
        }
        if behind {
            body.extend(tlv(0x8022, b"abc", None));
        }
        let b = frame(1, &body);
        c.state(&b);
        c.sample(|| hex(&b));
        judge::<All>(c, &b);
    });
    // all pairs of leading bytes of every value
    x.space("value-pairs", "32 attribute types, typical value with every content of its bytes (0,1) / (2,3) / last two", 32 * 3 * 65536, |c, i| {
        let mut ix = Ix(i);
        let w = (ix.take(65536) as u16).to_be_bytes();
        let s = &SPEC[ix.take(32)];
        let mut v = match s.kind {
            Kind::Fp => vec![0; 4],
            Kind::Mi => vec![0; 20],
            k => encode_value(k, &few(k)[0], &TID),
        };
        let at = match ix.take(3) {
            0 => 0,
            1 => 2,
            _ => v.len().saturating_sub(2),
        };
        if v.len() < at + 2 {
            return c.skip();
        }
        v[at..at + 2].copy_from_slice(&w);
        let b = wire_msg(1, &[(s.cp, v)]);
        c.state(&b);
        c.sample(|| hex(&b));
        judge::<All>(c, &b);
    });
    // text attributes: all short byte strings around the UTF-8 borders
    let ub: Vec<u8> = x.pick(
        vec![0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff],
        (0..=255u8).filter(|b| [0x00, 0x20, 0x41, 0x7f].contains(b) || *b >= 0x80 && (b % 4 == 0 || b % 16 == 15) || [0xc1, 0xc2, 0xe1, 0xed, 0xee, 0xf1, 0xf5].contains(b)).collect(),
    );
    let k = ub.len() as u64;
    let text = [6u16, 9, 0x14, 0x15, 0x8022];
    x.space("utf8", &format!("5 text attributes x all byte strings of length <= 4 over {} UTF-8 border bytes", k), seqs(k, 4) * 5, |c, i| {
        let cp = text[(i % 5) as usize];
        let mut v: Vec<u8> = seq(i / 5, k).into_iter().map(|j| ub[j]).collect();
        if cp == 9 {
            v = [vec![0, 0, 4, 1], v].concat();
        }
        let b = wire_msg(0x0111, &[(cp, v)]);
        c.state(&b);
        c.sample(|| hex(&b));
        judge::<All>(c, &b);
    });
    // text lengths in characters and bytes
    let units = ["a", "é", "日", "\u{10348}"];
    x.space("text-length", "5 text attributes x 1..4-byte characters x 0..=600 characters (x one ASCII character in front or not)", 5 * 4 * 601 * 2, |c, i| {
        let mut ix = Ix(i);
        let (cp, u, n, front) = (text[ix.take(5)], units[ix.take(4)], ix.take(601), ix.take(2));
        let mut v = "z".repeat(front).into_bytes();
        v.extend(u.repeat(n).into_bytes());
        if cp == 9 {
            v = [vec![0, 0, 4, 1], v].concat();
        }
        let b = wire_msg(0x0111, &[(cp, v), (0x24, vec![0; 4])]);
        c.state(&(cp, u, n, front));
        c.sample(|| format!("{} with {} x {:?}", name_of(cp), n, u));
        judge::<All>(c, &b);
    });
    // malformed attribute after every well-formed one, and vice versa
    let good: Vec<(u16, Vec<u8>)> = all_cps().into_iter().map(|cp| (cp, typical(cp))).chain([(0x7001, vec![1]), (0xC001, vec![])]).collect();
    let bads: Vec<Vec<u8>> = brokens().into_iter().map(|b| b[20..].to_vec()).collect();
    let (ng, nx) = (good.len() as u64, bads.len() as u64);
    x.space("good-and-bad", &format!("{} attributes x {} malformed parts, in both orders, x another attribute behind", ng, nx), ng * nx * 2 * ng, |c, i| {
        let mut ix = Ix(i);
        let (g, bad, order, g2) = (&good[ix.take(ng as usize)], &bads[ix.take(nx as usize)], ix.take(2), &good[ix.take(ng as usize)]);
        let m1 = wire_msg(0x0101, &[g.clone()]);
        let mut body = if order == 0 { [&m1[20..], bad].concat() } else { [bad, &m1[20..]].concat() };
        body.extend(tlv(g2.0, &g2.1, None));
        let b = frame(0x0101, &body);
        c.state(&b);
        c.sample(|| hex(&b));
        judge::<All>(c, &b);
    });
    let far = Far::new(x.thorough(), true);
    x.space("offsets", &format!("{}; right, or one of the last 40 bytes changed", far.say()), far.n() * 2, |c, i| {
        let mut b = encode_msg(&far.get(i / 2)).unwrap();
        if i % 2 == 1 {
            let n = b.len();
            b[n - 1 - (i / 16 % 40) as usize] ^= 1 << (i / 2 % 8);
        }
        c.state(&b);
        judge::<All>(c, &b)
    });
    let tl = TypeLists::new(3, x.pick(5, 6), true);
    x.space("type-lists", &tl.say(), tl.n(), |c, i| {
        let b = encode_msg(&tl.get(i)).unwrap();
        c.state(&b);
        judge::<All>(c, &b);
    });
    x.space("headers-attrs", &format!("all 16384 class/method pairs x {} attributes, right and with the value one byte shorter", ng), 16384 * ng * 2, |c, i| {
        let mut ix = Ix(i);
        let t = type_field(ix.take(4) as u8, ix.take(4096) as u16);
        let (cut, g) = (ix.take(2), &good[ix.take(ng as usize)]);
        let mut b = wire_msg(t, &[g.clone()]);
        if cut == 1 {
            let n = u16::from_be_bytes([b[22], b[23]]);
            if n == 0 {
                return c.skip();
            }
            let v = b[24..24 + n as usize - 1].to_vec();
            b = frame(t, &tlv(g.0, &v, None));
        }
        c.state(&b);
        judge::<All>(c, &b);
    });
    let w = attrs_wide_wire();
    let nw = w.len() as u64;
    x.space("wide-values", &format!("{} values (complete or wide domains of each type): right, one byte shorter, one byte longer, another attribute behind or not", nw), nw * 6, |c, i| {
        let mut ix = Ix(i);
        let (how, behind, a) = (ix.take(3), ix.take(2), &w[ix.take(nw as usize)]);
        let mut b = encode_msg(&msg((i % 4) as u8, (i % 4096) as u16, TID, vec![a.clone()])).unwrap();
        let n = u16::from_be_bytes([b[22], b[23]]) as usize;
        let mut v = b[24..24 + n].to_vec();
        if how == 1 && v.pop().is_none() {
            return c.skip();
        }
        if how == 2 {
            v.push(b'A');
        }
        b.truncate(20);
        b.extend(tlv(a.cp, &v, None));
        if behind == 1 {
            b.extend(tlv(0x8022, b"z", None));
        }
        let n = (b.len() - 20) as u16;
        b[2..4].copy_from_slice(&n.to_be_bytes());
        c.state(&b);
        judge::<All>(c, &b);
    });
    x.space("headers-bad", &format!("all 65536 type fields x {} malformed attribute parts", nx), 65536 * nx, |c, i| {
        let mut ix = Ix(i);
        let t = ix.take(65536) as u16;
        let b = frame(t, &bads[ix.take(nx as usize)]);
        c.state(&b);
        judge::<All>(c, &b);
    });
}

// ------------------------------------------------------------------ C05
/// Every way a fragment sequence can end.
const ENDS: [&str; 6] = [
    "end of stream with the last fragment",
    "stream stays open",
    "end of stream in an empty fragment",
    "bytes of the next message behind",
    "every fragment tells how much is left",
    "every fragment tells how much is left, bytes of the next message behind",
];
fn frag(c: &mut Case, b: &[u8], cuts: &[usize], end: usize) {
    let (o, total) = decode_msg(b, &all_cps(), FpMode::Received);
    let mut input = b.to_vec();
    let mut cuts = cuts.to_vec();
    match end {
        2 => cuts.push(b.len()),
        3 | 5 => input.extend_from_slice(&bases_tail()),
        _ => {}
    }
    let mut d = MessageDecoder::<All>::new();
    let f = if end >= 4 { feed_known(&mut d, &input, &cuts) } else { feed(&mut d, &input, &cuts, end != 1) };
    c.op(f.calls);
    c.outcome(f.obs.kind());
    let say = || format!("{} in fragments ending at {:?}, {}", hex(b), cuts, ENDS[end]);
    let ok = match (&o, end) {
        // with bytes behind or the stream open, a cut-off message has no verdict here
        (Out::Short { .. }, 1) => f.obs == Obs::More,
        _ => agrees(&f.obs, &o),
    };
    c.check("outcome", ok, || format!("{}: {:?} instead of {:?}", say(), f.obs, want(&o)));
    if ok && !matches!(o, Out::Reject | Out::Short { .. }) {
        c.check("consumed", f.consumed == total, || format!("{}: consumed {} instead of {}", say(), f.consumed, total));
    }
    c.note(|| format!("{} -> {:?}, consumed {}", say(), f.obs, f.consumed));
}
fn bases_tail() -> Vec<u8> {
    let mut v = frame(0x0101, &tlv(0x8022, b"next", None));
    v.extend([0xff; 3]);
    v
}
pub fn c05(x: &mut Ctx) {
    let lim = x.pick(60usize, 130);
    let mut inputs: Vec<Vec<u8>> = bases().into_iter().filter(|b| b.len() <= lim).collect();
    inputs.push(wire_msg(0x0101, &[(0x8022, b"abc".to_vec()), (0x20, wire(0x20, 0)), (0x8028, vec![])]));
    inputs.push(frame(0x0101, &[padded(0x7777, &[1], &[9, 8, 7]), padded(0x8022, b"ab", &[5, 5])].concat()));
    inputs.extend(brokens().into_iter().filter(|b| b.len() <= lim));
    inputs.extend(rejects());
    let n = inputs.len() as u64;
    let m = inputs.iter().map(|b| b.len()).max().unwrap() as u64 + 1;
    // 0..=3 cuts: positions a <= b <= c, equal positions are empty fragments
    x.space("cuts-2", &format!("{} inputs x all splittings into up to 3 fragments (empty ones included) x 6 endings", n), n * m * m * 6, |c, i| {
        let mut ix = Ix(i);
        let b = &inputs[ix.take(n as usize)];
        let (p, q, e) = (ix.take(m as usize), ix.take(m as usize), ix.take(6));
        if p > q || q > b.len() {
            return c.skip();
        }
        c.state(&(b, p, q, e));
        c.sample(|| format!("{} | {} {} {}", hex(b), p, q, ENDS[e]));
        frag(c, b, &[p, q], e);
    });
    let short: Vec<Vec<u8>> = inputs.iter().filter(|b| b.len() <= x.pick(48, 72)).cloned().collect();
    let ns = short.len() as u64;
    let m3 = short.iter().map(|b| b.len()).max().unwrap() as u64 + 1;
    x.space("cuts-3", &format!("{} inputs x all splittings into 4 fragments (empty ones included) x 2 endings", ns), ns * m3 * m3 * m3 * 2, |c, i| {
        let mut ix = Ix(i);
        let (p, q, r, e) = (ix.take(m3 as usize), ix.take(m3 as usize), ix.take(m3 as usize), ix.take(2));
        let b = &short[ix.take(ns as usize)];
        if p > q || q > r || r > b.len() {
            return c.skip();
        }
        c.state(&(b, p, q, r, e));
        c.sample(|| format!("{} | {} {} {} {}", hex(b), p, q, r, ENDS[e]));
        frag(c, b, &[p, q, r], e);
    });
    // every composition (2^(w-1) splittings) of a window of the message
    let w = x.pick(17usize, 21);
    let comp: Vec<(Vec<u8>, usize)> = {
        let mut v = vec![];
        for b in [
            wire_msg(0x0101, &[(0x8022, b"abc".to_vec())]),
            wire_msg(0x0101, &[(0x20, wire(0x20, 0))]),
            wire_msg(0x0101, &[(0x8022, b"a".to_vec()), (0x8028, vec![])]),
            wire_msg(0x0101, &[(0x20, wire(0x20, 4))]),
            wire_msg(0x0101, &[(9, wire(9, 12)), (0x0A, vec![1, 2, 3, 4])]),
            wire_msg(0x0101, &[(0x24, vec![1, 2, 3, 4]), (0x18, vec![0x80]), (0x25, vec![])]),
            frame(0x0101, &[padded(0x7777, &[1], &[9, 8, 7]), padded(0x7778, &[], &[])].concat()),
            frame(0x0101, &[tlv(1, &[0, 3, 0, 80, 127, 0, 0, 1], None), tlv(0x8022, b"abc", None)].concat()),
            frame(0x0101, &[tlv(0x8022, b"abc", None), vec![0x80, 0x22, 0, 9, 1, 2]].concat()),
        ] {
            let mut at = 0;
            while at < b.len() {
                v.push((b.clone(), at));
                at += w - 3;
            }
        }
        v
    };
    let nc = comp.len() as u64;
    x.space("compositions", &format!("{} windows of {} bytes of 9 messages x all 2^{} fragmentations inside the window x 2 endings", nc, w, w - 1), nc << w, |c, i| {
        let mut ix = Ix(i);
        let mask = ix.take(1 << (w - 1));
        let (b, at) = &comp[ix.take(nc as usize)];
        let e = ix.take(2);
        let width = w.min(b.len() - at);
        if mask >> (width.max(1) - 1) != 0 {
            return c.skip();
        }
        let mut cuts = vec![*at];
        cuts.extend((1..width).filter(|j| mask >> (j - 1) & 1 == 1).map(|j| at + j));
        cuts.push(at + width);
        c.state(&(b, &cuts, e));
        c.sample(|| format!("{} | {:?} {}", hex(b), cuts, ENDS[e]));
        frag(c, b, &cuts, e);
    });
    // regular chunking of everything, long messages included
    let mut longs = bases();
    longs.extend(brokens());
    longs.push(wire_msg(0x0101, &[(0x13, vec![0x33; 1500]), (0x8028, vec![])]));
    longs.push(wire_msg(0x0101, &[(0x7001, vec![0; 301]), (0x0a, (0..600).map(|k| k as u8).collect()), (6, vec![b'u'; 511])]));
    let nl = longs.len() as u64;
    let sizes = 70u64;
    x.space("regular", &format!("{} messages x chunk sizes 1..={} x first chunk 0..=7 x 6 endings", nl, sizes), nl * sizes * 8 * 6, |c, i| {
        let mut ix = Ix(i);
        let b = &longs[ix.take(nl as usize)];
        let (k, first, e) = (ix.take(sizes as usize) + 1, ix.take(8), ix.take(6));
        let mut cuts = vec![];
        let mut p = first;
        while p < b.len() {
            cuts.push(p);
            p += k;
        }
        c.state(&(b, k, first, e));
        c.sample(|| format!("{} bytes, chunks of {} after {} {}", b.len(), k, first, ENDS[e]));
        frag(c, b, &cuts, e);
    });
    // sizes of values, numbers of attributes and chunks around powers of two
    let lens = lengths(x.thorough());
    let kinds = 6;
    x.space("sizes", &format!("{} value lengths up to 65500 x {} kinds of attributes (DATA, unknown, type list, reason phrase, ticket, too long text) x {} chunk sizes x 2 endings", lens.len(), kinds, CHUNKS.len()), (lens.len() * kinds * CHUNKS.len() * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let (e, k, t, n) = (ix.take(2), CHUNKS[ix.take(CHUNKS.len())], ix.take(kinds), lens[ix.take(lens.len())]);
        // long values bit by bit cost much and show nothing more
        if n / k > 2100 {
            return c.skip();
        }
        let a = match t {
            0 => (0x13u16, vec![0x13; n]),
            1 => (0x7001, vec![0x70; n]),
            2 => (0x0A, vec![0x80; n]),
            3 => (9, [vec![0, 0, 4, 20], vec![b'r'; n]].concat()),
            4 => (0x8030, vec![0; n]),
            _ => (0x15, vec![b'n'; n]),
        };
        let mut l = vec![a, (0x8022, b"ab".to_vec())];
        if n <= 4100 {
            l.push((0x8028, vec![]));
        }
        let b = wire_msg(0x0101, &l);
        let cuts: Vec<usize> = (1..).map(|j| j * k).take_while(|p| *p < b.len()).collect();
        c.state(&(t, n, k, e));
        c.sample(|| format!("{} bytes of kind {} in chunks of {} {}", n, t, k, ENDS[e]));
        frag(c, &b, &cuts, [0, 3][e]);
    });
    let cnt = counts(x.thorough());
    x.space("counts", &format!("{} numbers of attributes x 5 kinds x {} chunk sizes", cnt.len(), CHUNKS.len()), (cnt.len() * 5 * CHUNKS.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let (k, t, n) = (CHUNKS[ix.take(CHUNKS.len())], ix.take(5), cnt[ix.take(cnt.len())]);
        let a = [(0x8022u16, b"abc".to_vec()), (0x7001, vec![]), (0x25, vec![]), (0x20, wire(0x20, 4)), (0x9001, vec![1; 9])][t].clone();
        let b = wire_msg(0x0101, &vec![a; n]);
        let cuts: Vec<usize> = (1..).map(|j| j * k).take_while(|p| *p < b.len()).collect();
        c.state(&(t, n, k));
        c.sample(|| format!("{} of kind {} in chunks of {}", n, t, k));
        frag(c, &b, &cuts, (i % 4) as usize);
    });
    let w = attrs_wide_wire();
    let nw = w.len() as u64;
    x.space("wide-values", &format!("{} values (complete or wide domains of each type) in chunks of 1, 3 and 5 bytes", nw), nw * 3, |c, i| {
        let mut ix = Ix(i);
        let (k, a) = ([1, 3, 5][ix.take(3)], &w[ix.take(nw as usize)]);
        let b = encode_msg(&msg((i % 4) as u8, (i % 4096) as u16, TID, vec![a.clone()])).unwrap();
        let cuts: Vec<usize> = (1..).map(|j| j * k).take_while(|p| *p < b.len()).collect();
        c.state(&(k, &b));
        frag(c, &b, &cuts, (i % 4) as usize);
    });
    // announced lengths which are no multiple of four, with any number of bytes behind
    let mut bodies: Vec<Vec<u8>> = vec![vec![]];
    for t in [0x7001u16, 0x8022, 0x13, 0x0A, 0x20] {
        for n in 0..=9usize {
            let v: Vec<u8> = if t == 0x20 { wire(0x20, 0)[..n.min(8)].to_vec() } else { vec![0x41; n] };
            bodies.push([padded(t, &v, &vec![0x5A; padlen(v.len())]), tlv(0x8022, b"ab", None)].concat());
        }
    }
    let nbo = bodies.len() as u64;
    let far = Far::new(x.thorough(), true);
    x.space("offsets", &format!("{}; split around the last attribute, or in chunks of 1021", far.say()), far.n() * 2, |c, i| {
        let b = encode_msg(&far.get(i / 2)).unwrap();
        let n = b.len();
        let cuts: Vec<usize> = if i % 2 == 0 { (n - 60..n).collect() } else { (1..).map(|j| j * 1021).take_while(|p| *p < n).collect() };
        c.state(&b);
        frag(c, &b, &cuts, (i / 2 % 4) as usize)
    });
    let tl = TypeLists::new(3, x.pick(3, 4), true);
    x.space("type-lists", &format!("{}; in chunks of 1 or 7 bytes", tl.say()), tl.n(), |c, i| {
        let b = encode_msg(&tl.get(i)).unwrap();
        let k = [1, 7][(i / 3 % 2) as usize];
        let cuts: Vec<usize> = (1..).map(|j| j * k).take_while(|p| *p < b.len()).collect();
        c.state(&(k, &b));
        frag(c, &b, &cuts, (i % 4) as usize);
    });
    x.space("behind", &format!("{} attribute parts x announced lengths up to 20 x 0..=9 bytes behind (the part goes on, zeros, ones, another message) x whole, header apart, bytewise, bytes behind apart x end of stream or not", nbo), nbo * 21 * 10 * 4 * 4 * 2, |c, i| {
        let mut ix = Ix(i);
        let (l, k, fill, split, eos) = (ix.take(21), ix.take(10), ix.take(4), ix.take(4), ix.take(2) == 1);
        let body = &bodies[ix.take(nbo as usize)];
        if l > body.len() || (k == 0 && fill > 0) {
            return c.skip();
        }
        let mut b = header(0x0111, l as u16, &TID);
        b.extend(&body[..l]);
        let rest: Vec<u8> = match fill {
            0 => body[l..].iter().copied().chain(bases_tail()).take(k).collect(),
            1 => vec![0; k],
            2 => vec![0xff; k],
            _ => bases_tail()[..k].to_vec(),
        };
        b.extend(rest);
        let (o, total) = decode_msg(&b, &all_cps(), FpMode::Received);
        let cuts: Vec<usize> = match split {
            0 => vec![],
            1 => vec![20],
            2 => (1..b.len()).collect(),
            _ => vec![20 + l],
        };
        c.state(&(&b, &cuts, eos));
        c.sample(|| format!("{} {:?}", hex(&b), cuts));
        let f = feed(&mut MessageDecoder::<All>::new(), &b, &cuts, eos);
        c.op(f.calls);
        c.outcome(f.obs.kind());
        c.check("outcome", agrees(&f.obs, &o), || format!("{} in fragments ending at {:?}: {:?} instead of {:?}", hex(&b), cuts, f.obs, want(&o)));
        if !matches!(o, Out::Reject) {
            c.check("consumed", f.consumed == total, || format!("{} in fragments ending at {:?}: consumed {} instead of {}", hex(&b), cuts, f.consumed, total));
        }
    });
    // a finished decoder takes nothing more until the item is fetched
    x.space("idle", &format!("{} messages: further input to a decoder that is idle", nl), nl, |c, i| {
        use bytecodec::{Decode, Eos};
        let b = &longs[i as usize];
        let (o, total) = decode_msg(b, &all_cps(), FpMode::Received);
        let mut d = MessageDecoder::<All>::new();
        let mut n = 0;
        while n < total && !d.is_idle() {
            match d.decode(&b[n..total], Eos::new(false)) {
                Ok(0) | Err(_) => return c.fail("idle", || format!("{} stops at {}", hex(b), n)),
                Ok(k) => n += k,
            }
        }
        let again = d.decode(&bases_tail(), Eos::new(false)).ok();
        c.op(3);
        c.state(b);
        c.sample(|| hex(b));
        c.check("idle", again == Some(0) && d.is_idle(), || format!("{}: idle decoder consumes {:?}", hex(b), again));
        let (obs, _) = finish(&mut d);
        c.outcome(obs.kind());
        c.check("outcome", agrees(&obs, &o), || format!("{}: {:?} instead of {:?}", hex(b), obs, want(&o)));
    });
}

// ------------------------------------------------------------------ C07
#[derive(Clone, Debug)]
struct Step {
    bytes: Vec<u8>,
    cuts: Vec<usize>,
    /// bytes fed behind the message (open stream)
    tail: Vec<u8>,
    eos: bool,
    /// the user gives up on the unfinished message: finish_decoding without end of stream
    abandon: bool,
    out: Out,
}
fn step(bytes: Vec<u8>, mode: usize, set: &[u16]) -> Step {
    let (out, _) = decode_msg(&bytes, set, FpMode::Received);
    let n = bytes.len();
    let short = matches!(out, Out::Short { .. }) || n < 20;
    let cuts = match mode {
        1 => (1..n).collect(),
        2 => vec![n.min(20), n.min(20) + n.saturating_sub(20) / 2],
        // an empty read comes with the end of the stream
        3 if short => vec![n / 2, n],
        // empty reads between all bytes
        3 => (1..n).flat_map(|p| [p, p]).collect(),
        _ => vec![],
    };
    // a cut-off input ends with the stream, the others alternate
    let abandon = short && mode == 2;
    let eos = (short || mode == 0) && !abandon;
    let tail = if mode == 2 && !short { vec![0, 1, 0, 4] } else { vec![] };
    Step { bytes, cuts, tail, eos, abandon, out }
}
/// Runs one step on a decoder with a past; true if it behaved like a fresh one.
fn run_step<S: AttrSet>(c: &mut Case, d: &mut MessageDecoder<S>, s: &Step, hist: &dyn Fn() -> String) -> bool {
    use bytecodec::Decode;
    let input = [&s.bytes[..], &s.tail[..]].concat();
    let mut f = feed(d, &input, &s.cuts, s.eos);
    c.op(f.calls);
    if s.abandon && f.obs == Obs::More {
        f.obs = finish(d).0;
    }
    c.outcome(f.obs.kind());
    c.note(|| format!("feed {} cuts {:?} eos {} -> {:?}", hex(&input), s.cuts, s.eos, f.obs));
    let mut ok = c.check("outcome", agrees(&f.obs, &s.out), || {
        format!("after {}: {} gives {:?} but a fresh decoder gives {:?}", hist(), hex(&s.bytes), f.obs, want(&s.out))
    });
    if ok && matches!(s.out, Out::Ok(_) | Out::Broken { .. }) {
        ok &= c.check("consumed", f.consumed == s.bytes.len(), || format!("after {}: {} consumed {}", hist(), hex(&s.bytes), f.consumed));
    }
    let fresh = MessageDecoder::<S>::new();
    let (a, b) = ((d.is_idle(), d.requiring_bytes()), (fresh.is_idle(), fresh.requiring_bytes()));
    ok &= c.check("between", a == b, || format!("after {} and {}: idle/requiring {:?}, a fresh decoder has {:?}", hist(), hex(&s.bytes), a, b));
    ok
}
fn steps(set: &[u16]) -> Vec<Step> {
    let mut ok = vec![
        wire_msg(0x0001, &[]),
        wire_msg(0x0101, &[(0x8022, b"abc".to_vec())]),
        wire_msg(0x3EEF, &[(0x20, wire(0x20, 4)), (0x8028, vec![])]),
        frame(0x0111, &[padded(0x7777, &[1, 2], &[9, 8]), padded(9, &[0, 0, 4, 20], &[])].concat()),
        wire_msg(0x0011, &[(6, b"user".to_vec()), (8, vec![]), (0x8028, vec![])]),
    ];
    let full = ok[4].clone();
    let v6 = ok[2].clone();
    ok.extend(brokens());
    let rj = rejects();
    ok.push(rj[0].clone());
    ok.push(rj[4].clone());
    // cut off: in the header, in an attribute header, in a value, in padding
    for n in [1, 3, 10, 19, 20, 21, 23, 24, 27, 30, 50] {
        ok.push(full[..n].to_vec());
    }
    ok.push(v6[..43].to_vec());
    ok.push(v6[..46].to_vec());
    let b = frame(0x0101, &[tlv(1, &[0, 3, 0, 80, 127, 0, 0, 1], None), tlv(0x8022, b"abcdef", None)].concat());
    for n in [26, 30, 38] {
        ok.push(b[..n].to_vec());
    }
    let mut v = vec![];
    for mode in 0..4 {
        for b in &ok {
            v.push(step(b.clone(), mode, set));
        }
    }
    v
}
fn histories<S: AttrSet>(x: &mut Ctx, name: &str, alpha: &[Step], depth: u32) {
    let k = alpha.len() as u64;
    // every history of exactly `depth` steps contains all shorter ones as prefixes
    x.space(name, &format!("all histories of {} inputs over {} (complete, broken, refused, cut off, abandoned; whole, bytewise, split with bytes behind, with empty reads)", depth, k), k.pow(depth), |c, i| {
        let mut d = MessageDecoder::<S>::new();
        let mut ix = Ix(i);
        let h: Vec<usize> = (0..depth).map(|_| ix.take(alpha.len())).collect();
        c.sample(|| h.iter().map(|j| hex(&alpha[*j].bytes)).collect::<Vec<_>>().join(" then "));
        c.state(&i);
        for (j, s) in h.iter().enumerate() {
            let hist = || h[..j].iter().map(|k| format!("{} [{}, cuts {:?}]", hex(&alpha[*k].bytes), out_kind(&alpha[*k].out), alpha[*k].cuts)).collect::<Vec<_>>().join(", ");
            if !run_step(c, &mut d, &alpha[*s], &hist) {
                break;
            }
        }
    });
}
pub fn c07(x: &mut Ctx) {
    let cps = all_cps();
    let a = steps(&cps);
    histories::<All>(x, "pairs", &a, 2);
    histories::<All>(x, "triples", &a, 3);
    let r = steps(&RFC5389);
    histories::<A5389>(x, "pairs-5389", &r, 2);
    // long histories over one input per kind
    let pickd: Vec<Step> = [
        (0, 0), (1, 1), (2, 2), (3, 0), (4, 1), // ok
        (6, 0), (9, 2), (13, 0), (16, 1), (17, 0), // broken
        (26, 0), (27, 0), // refused
        (30, 0), (33, 1), (37, 0), (41, 0),
    ]
    .iter()
    .filter_map(|(i, m)| {
        let n = a.len() / 4;
        a.get(m * n + i).cloned()
    })
    .collect();
    histories::<All>(x, "long", &pickd, x.pick(5, 6));
    let small = attrs_small();
    let ns = small.len();
    let one = |i: usize, n: usize, mode: usize| step(encode_msg(&msg((i % 4) as u8, (i % 4096) as u16, TID, vec![small[i].clone(); n])).unwrap(), mode, &cps);
    let r = x.pick(300usize, 1100);
    x.space("repeat-values", &format!("each of {} attributes (all types, all small lengths, known and unknown), once or twice in a message, {} times, then each other one", ns, r), (ns * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let (n, mode, p) = (1 + ix.take(2), ix.take(2), ix.take(ns));
        let a = one(p, n, mode);
        c.state(&i);
        let mut d = MessageDecoder::<All>::new();
        for k in 0..r {
            if !run_step(c, &mut d, &a, &|| format!("{} times itself", k)) {
                return;
            }
        }
        for j in 0..ns {
            if !run_step(c, &mut d, &one(j, 1, 0), &|| format!("{} times {} and others", r, hex(&a.bytes))) {
                return;
            }
        }
    });
    x.space("alternating", &format!("all pairs of {} attributes (all types, all small lengths, known and unknown) in messages taking turns, 12 rounds", ns), (ns * ns) as u64, |c, i| {
        let (p, q) = (i as usize % ns, i as usize / ns);
        let (a, b) = (one(p, 1 + p % 2, 0), one(q, 1, q % 2));
        c.state(&i);
        let mut d = MessageDecoder::<All>::new();
        for k in 0..24 {
            if !run_step(c, &mut d, if k % 2 == 0 { &a } else { &b }, &|| format!("{} of {} and {}", k, hex(&a.bytes), hex(&b.bytes))) {
                return;
            }
        }
    });
    // values of all kinds one after the other
    let w = attrs_wide_wire();
    let nw = w.len();
    let strides = [0usize, 1, 97, 4099, 131071, 300007];
    x.space("wide-values", &format!("chains a, b, a of messages with {} values (complete or wide domains of each type), {} choices of b for each a, whole and bytewise", nw, strides.len()), (nw * strides.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let (s, p) = (ix.take(strides.len()), ix.take(nw));
        let mk = |a: &MAttr, mode: usize| step(encode_msg(&msg((i % 4) as u8, (i % 4096) as u16, TID, vec![a.clone()])).unwrap(), mode, &cps);
        let (a, b) = (mk(&w[p], p % 2), mk(&w[(p + strides[s]) % nw], (p / 2) % 2));
        c.state(&i);
        let mut d = MessageDecoder::<All>::new();
        for (k, st) in [&a, &b, &a].into_iter().enumerate() {
            if !run_step(c, &mut d, st, &|| format!("{} of {} and {}", k, hex(&a.bytes), hex(&b.bytes))) {
                return;
            }
        }
    });
    user_histories::<crate::p_hook::FZ>(x, "user");
    user_histories::<crate::p_hook::Fussy>(x, "user-bare");
    let rounds = x.pick(66000usize, 140000);
    x.space("marathon", &format!("all pairs of {} inputs taking turns, {} of them with one decoder", pickd.len(), rounds), (pickd.len() * pickd.len()) as u64, |c, i| {
        let (a, b) = (&pickd[i as usize % pickd.len()], &pickd[i as usize / pickd.len()]);
        c.state(&i);
        let mut d = MessageDecoder::<All>::new();
        for k in 0..rounds {
            if !run_step(c, &mut d, if k % 2 == 0 { a } else { b }, &|| format!("{} of {} and {}", k, hex(&a.bytes), hex(&b.bytes))) {
                return;
            }
        }
    });
    // the same over and over, then something else: counters, growing buffers
    let reps: Vec<usize> = x.pick(vec![10, 17, 33, 64, 65, 129, 256, 257, 300, 513], vec![10, 17, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513, 1025, 65537]);
    let na = a.len() as u64;
    let np = pickd.len() as u64;
    x.space("repeat", &format!("each of {} inputs {:?} times, then each of {} others (16 for 65537 times)", na, reps, np), na * reps.len() as u64 * np, |c, i| {
        let mut ix = Ix(i);
        let (s, n, last) = (ix.take(na as usize), reps[ix.take(reps.len())], ix.take(np as usize));
        // 65537 times only for the representatives, and with one successor
        if n > 2000 && (s % 9 != 0 || last != s % np as usize) {
            return c.skip();
        }
        c.state(&i);
        c.sample(|| format!("{} times {} then {}", n, hex(&a[s].bytes), hex(&pickd[last].bytes)));
        let mut d = MessageDecoder::<All>::new();
        for k in 0..n {
            if !run_step(c, &mut d, &a[s], &|| format!("{} times itself", k)) {
                return;
            }
        }
        run_step(c, &mut d, &pickd[last], &|| format!("{} times {}", n, hex(&a[s].bytes)));
    });
}
/// Histories of messages in which a user-defined attribute fails in every place with every kind of error.
fn user_histories<S: AttrSet>(x: &mut Ctx, name: &str) {
    use crate::p_hook::{Fussy, KINDS, PLACES};
    let cps = S::cps();
    // an element: None for SOFTWARE, Some(place, kind); place 7 needs a type of its own
    let mk = |els: &[Option<(u8, usize)>], mode: usize, ty: u16| -> Step {
        let mut list = vec![];
        let mut model = vec![];
        let mut fails = false;
        for (j, e) in els.iter().enumerate() {
            let (cp, v) = match e {
                None => (0x8022, b"abc".to_vec()),
                Some((7, k)) => (Fussy::unstartable(*k), vec![1, 2, 3]),
                Some((p, k)) => (Fussy::CODEPOINT, [&[*p, *k as u8][..], &vec![0x40 + j as u8; j]].concat()),
            };
            fails |= matches!(e, Some((1..=4 | 7, _)));
            model.push(if !cps.contains(&cp) {
                MAttr::raw(cp, v.clone())
            } else if cp == 0x8022 {
                MAttr::known(cp, Val::Str("abc".into()))
            } else {
                MAttr::known(cp, Val::Bytes(v.clone()))
            });
            list.push((cp, v));
        }
        let bytes = wire_msg(ty, &list);
        let (class, method) = ((ty >> 4 & 1 | ty >> 7 & 2) as u8, ty & 0xf);
        let mut s = step(bytes, mode, &[]);
        s.out = if fails { Out::Broken { class, method, tid: TID } } else { Out::Ok(MMsg { class, method, tid: TID, attrs: model }) };
        s
    };
    let mut good = vec![];
    for mode in 0..4 {
        good.push(mk(&[], mode, 0x0001));
        good.push(mk(&[None, Some((0, 0))], mode, 0x0101));
        good.push(mk(&[Some((0, 0)), Some((5, 1)), None, Some((6, 2))], mode, 0x0112));
    }
    let places: &[u8] = if cps.len() == 1 { &[1, 2, 3, 4, 7] } else { &[1, 2, 3, 4] };
    let mut bad = vec![];
    for p in places {
        for k in 0..KINDS.len() {
            let f = Some((*p, k));
            let ok = Some((0, 0));
            for (j, l) in [vec![f], vec![None, f], vec![f, None], vec![ok, f, ok], vec![ok, None, f, f], vec![f, Some((3, (k + 1) % 7)), None]].iter().enumerate() {
                bad.push(mk(l, (j + k) % 4, 0x0113));
                bad.push(mk(l, (j + k + 1 + j % 2) % 4, 0x0002));
            }
        }
    }
    let (nb, ng) = (bad.len(), good.len());
    x.space(name, &format!("{} messages with a user-defined attribute that fails {:?}, with each of 7 kinds of errors, at every position: all pairs of them, each followed by {} valid ones", nb, places.iter().map(|p| PLACES[*p as usize]).collect::<Vec<_>>(), ng), (nb * nb) as u64, |c, i| {
        let (p, q) = (i as usize % nb, i as usize / nb);
        c.state(&i);
        c.sample(|| format!("{} then {}", hex(&bad[p].bytes), hex(&bad[q].bytes)));
        let mut d = MessageDecoder::<S>::new();
        for (k, s) in [&bad[p], &good[i as usize % ng], &bad[q], &good[(i as usize / ng) % ng], &good[(p + q) % ng]].into_iter().enumerate() {
            if !run_step(c, &mut d, s, &|| format!("{} of {} and {}", k, hex(&bad[p].bytes), hex(&bad[q].bytes))) {
                return;
            }
        }
    });
}

// ------------------------------------------------------------------ C20
struct Reader<'a> {
    data: &'a [u8],
    pos: usize,
    sizes: &'a [usize],
    call: usize,
}
impl<'a> std::io::Read for Reader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let lim = self.sizes[self.call % self.sizes.len()];
        self.call += 1;
        let n = buf.len().min(lim).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub fn c20(x: &mut Ctx) {
    use bytecodec::io::IoDecodeExt;
    use bytecodec::{ByteCount, Decode, Eos};
    let mut msgs = vec![
        wire_msg(0x0001, &[]),
        wire_msg(0x0101, &[(0x8022, b"abc".to_vec())]),
        wire_msg(0x3EEF, &[(0x20, wire(0x20, 4)), (0x8028, vec![])]),
        frame(0x0111, &[padded(0x7777, &[1, 2], &[9, 8]), padded(9, &[0, 0, 4, 20], &[])].concat()),
        wire_msg(0x0011, &[(6, b"user".to_vec()), (8, vec![]), (0x8028, vec![])]),
        wire_msg(0x0016, &[(0x13, vec![0; 70]), (0x25, vec![])]),
    ];
    let nok = msgs.len();
    msgs.extend(brokens());
    let outs: Vec<Out> = msgs.iter().map(|b| decode_msg(b, &all_cps(), FpMode::Received).0).collect();
    let n = msgs.len() as u64;
    // one decoder over streams of messages, bites of every size within what it asks for
    let caps: Vec<usize> = (1..=24).chain([40, 64, 100, 1000]).collect();
    let nc = caps.len() as u64;
    x.space("requiring", &format!("all streams of 3 over {} messages (well-formed and broken) x {} bite sizes x empty reads in between or not", n, nc), n * n * n * nc * 2, |c, i| {
        let mut ix = Ix(i);
        let (cap, empty) = (caps[ix.take(nc as usize)], ix.take(2) == 1);
        let h = [ix.take(n as usize), ix.take(n as usize), ix.take(n as usize)];
        c.sample(|| format!("{:?} in bites of {}", h.map(|j| hex(&msgs[j])), cap));
        c.state(&(h, cap, empty));
        let mut d = MessageDecoder::<All>::new();
        for (k, j) in h.iter().enumerate() {
            let b = &msgs[*j];
            let mut pos = 0;
            let say = |pos: usize| format!("message {} of {:?} at byte {}", k, h.map(|j| hex(&msgs[j])), pos);
            while pos < b.len() {
                let r = d.requiring_bytes();
                let want = match r {
                    ByteCount::Finite(r) => r,
                    ByteCount::Unknown => 1,
                    ByteCount::Infinite => u64::MAX,
                };
                if !c.check("requiring", want >= 1 && want <= (b.len() - pos) as u64, || format!("{}: requires {:?} of the {} bytes left", say(pos), r, b.len() - pos)) {
                    return;
                }
                if !c.check("idle", !d.is_idle(), || format!("{}: idle too early", say(pos))) {
                    return;
                }
                if empty {
                    let got = d.decode(&[], Eos::new(false)).ok();
                    c.op(1);
                    if !c.check("empty-read", got == Some(0) && !d.is_idle() && d.requiring_bytes() == r, || format!("{}: an empty read gives {:?}, then requires {:?}", say(pos), got, d.requiring_bytes())) {
                        return;
                    }
                }
                let take = (want as usize).min(cap);
                let got = d.decode(&b[pos..pos + take], Eos::new(false)).ok();
                c.op(1);
                if !c.check("progress", got == Some(take), || format!("{}: takes {:?} of {}", say(pos), got, take)) {
                    return;
                }
                pos += take;
            }
            if !c.check("idle", d.is_idle() && matches!(d.requiring_bytes(), ByteCount::Finite(0)), || format!("{}: not idle at the end, requires {:?}", say(pos), d.requiring_bytes())) {
                return;
            }
            let (obs, _) = finish(&mut d);
            c.outcome(obs.kind());
            if !c.check("outcome", agrees(&obs, &outs[*j]), || format!("{}: {:?} instead of {:?}", say(pos), obs, want(&outs[*j]))) {
                return;
            }
        }
    });
    // large messages
    let lens = lengths(x.thorough());
    let big: Vec<(u16, u8)> = vec![(0x13, 1), (0x7001, 0), (0x0a, 0x80), (0x8030, 0), (0x15, b'n')];
    x.space("large", &format!("{} value lengths up to 65500 x 5 types x largest bites of 1, 61, 1024, unlimited, followed by another message", lens.len()), (lens.len() * 5 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let (cap, t, n) = ([1, 61, 1024, 1 << 20][ix.take(4)], big[ix.take(5)], lens[ix.take(lens.len())]);
        if n / cap > 5000 {
            return c.skip();
        }
        let b = wire_msg(0x0101, &[(t.0, vec![t.1; n]), (0x8022, b"x".to_vec())]);
        let o = decode_msg(&b, &all_cps(), FpMode::Received).0;
        let mut d = MessageDecoder::<All>::new();
        c.state(&(cap, t, n));
        c.sample(|| format!("{} bytes of {} in bites of {}", n, name_of(t.0), cap));
        for (b, o) in [(&b, &o), (&msgs[1], &outs[1])] {
            let mut pos = 0;
            while pos < b.len() {
                let r = d.requiring_bytes();
                let want = match r {
                    ByteCount::Finite(r) => r,
                    ByteCount::Unknown => 1,
                    ByteCount::Infinite => u64::MAX,
                };
                let say = || format!("{} bytes of {} in bites of {}, at {}", n, name_of(t.0), cap, pos);
                if !c.check("requiring", want >= 1 && want <= (b.len() - pos) as u64 && !d.is_idle(), || format!("{}: requires {:?}, idle {}", say(), r, d.is_idle())) {
                    return;
                }
                let take = (want as usize).min(cap);
                let got = d.decode(&b[pos..pos + take], Eos::new(false)).ok();
                c.op(1);
                if !c.check("progress", got == Some(take), || format!("{}: takes {:?} of {}", say(), got, take)) {
                    return;
                }
                pos += take;
            }
            if !c.check("idle", d.is_idle(), || format!("not idle after {} bytes of {}", n, name_of(t.0))) {
                return;
            }
            let (obs, _) = finish(&mut d);
            c.outcome(obs.kind());
            if !c.check("outcome", agrees(&obs, o), || format!("{} bytes of {}: {} instead of {}", n, name_of(t.0), obs.kind(), want(o).kind())) {
                return;
            }
        }
    });
    // decode_exact from readers with all short-read schedules
    let rs: Vec<usize> = x.pick(vec![1, 2, 3, 4, 5, 7, 11, 2000], vec![1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16, 19, 20, 21, 24, 64, 2000]);
    let nr = rs.len() as u64;
    let exact = |c: &mut Case, h: &[usize], sizes: &[usize], cut: Option<usize>| {
        let mut stream: Vec<u8> = h.iter().flat_map(|j| msgs[*j].clone()).collect();
        let full = stream.len();
        if let Some(k) = cut {
            stream.truncate(full - k);
        }
        c.sample(|| format!("{} from reads of {:?}", hex(&stream), sizes));
        let mut rd = Reader { data: &stream, pos: 0, sizes, call: 0 };
        let mut d = MessageDecoder::<All>::new();
        let mut end = 0;
        for j in h {
            let r = d.decode_exact(&mut rd);
            c.op(1);
            end += msgs[*j].len();
            let obs = match &r {
                Err(_) => Obs::Reject,
                Ok(Err(b)) => broken_obs(b),
                Ok(Ok(m)) => Obs::Ok(see(m)),
            };
            c.outcome(obs.kind());
            let w = if end > stream.len() { Obs::Reject } else { want(&outs[*j]) };
            if !c.check("exact", obs == w, || format!("stream {} read in {:?}: message at {} gives {:?} instead of {:?}", hex(&stream), sizes, end - msgs[*j].len(), obs, w)) {
                return;
            }
            if end > stream.len() {
                return;
            }
            if !c.check("position", rd.pos == end, || format!("stream {} read in {:?}: at {} after the message ending at {}", hex(&stream), sizes, rd.pos, end)) {
                return;
            }
        }
    };
    x.space("short-reads", &format!("streams of 2 over {} messages x all read-size schedules of period 3 over {:?}", n, rs), n * n * nr * nr * nr, |c, i| {
        let mut ix = Ix(i);
        let s = [rs[ix.take(nr as usize)], rs[ix.take(nr as usize)], rs[ix.take(nr as usize)]];
        let h = [ix.take(n as usize), ix.take(n as usize)];
        c.state(&i);
        exact(c, &h, &s, None);
    });
    let d = x.pick(5, 7);
    let k = nok as u64 + 4;
    x.space("streams", &format!("streams of up to {} messages over {} (4 of them broken) x read sizes 1, 3, unlimited", d, k), seqs(k, d) * 3, |c, i| {
        let h: Vec<usize> = seq(i / 3, k).into_iter().map(|j| if j < nok { j } else { nok + (j - nok) * 4 + 1 }).collect();
        c.state(&i);
        exact(c, &h, &[[1], [3], [4096]][(i % 3) as usize], None);
    });
    x.space("cut-streams", &format!("streams of 2 over {} messages cut off at each of the last 60 bytes x 2 read sizes", n), n * n * 60 * 2, |c, i| {
        let mut ix = Ix(i);
        let (cut, r) = (ix.take(60) + 1, ix.take(2));
        let h = [ix.take(n as usize), ix.take(n as usize)];
        if cut > msgs[h[0]].len() + msgs[h[1]].len() {
            return c.skip();
        }
        c.state(&i);
        exact(c, &h, &[[1], [4096]][r], Some(cut));
    });
}

// ------------------------------------------------------------------ C24
/// Bytes a decoder may hold per received byte, and in addition to them: a decoded attribute
/// takes the size of the largest variant for 4 received bytes (twice while a list grows),
/// bytes are copied a few times by the digest hooks, and one value of the announced size
/// (at most 65535 bytes) may be reserved before it arrives.
fn mem_bound(received: usize, value: usize) -> i64 {
    let per = (std::mem::size_of::<All>() as i64 + 64) * 3 / 4 + 32;
    per * received as i64 + 2 * value as i64 + 24 * 1024
}
fn memory(c: &mut Case, sig: &'static str, b: &[u8], cuts: &[usize], value: usize) {
    let (kind, peak, left) = measured(b, cuts);
    c.op(1);
    c.outcome(kind);
    let bound = mem_bound(b.len(), value);
    c.note(|| format!("{} bytes received, peak {} bytes, bound {}, {} left", b.len(), peak, bound, left));
    c.check(sig, peak <= bound, || format!("decoding {} ({} bytes) held {} bytes, bound {}", hex(b), b.len(), peak, bound));
    // A scratch buffer may stay behind once; what is left again by the same input is lost.
    let left = if left > 0 { measured(b, cuts).2.min(measured(b, cuts).2) } else { left };
    c.check("leak", left == 0, || format!("{} bytes still allocated after dropping everything decoded from {}", left, hex(b)));
}
fn measured(b: &[u8], cuts: &[usize]) -> (&'static str, i64, i64) {
    use bytecodec::{Decode, Eos};
    let start = alloc::mark();
    // nothing of the harness itself may allocate between here and the second measurement
    let kind;
    let peak;
    {
        let mut d = MessageDecoder::<All>::new();
        let mut pos = 0;
        let mut k = 0;
        let mut err = false;
        while pos < b.len() {
            let end = if k < cuts.len() { cuts[k].clamp(pos, b.len()) } else { b.len() };
            k += 1;
            match d.decode(&b[pos..end], Eos::new(end == b.len())) {
                Ok(n) => pos += n,
                Err(_) => {
                    err = true;
                    break;
                }
            }
            if d.is_idle() || k > cuts.len() {
                break;
            }
        }
        let r = if err { None } else { Some(d.finish_decoding()) };
        kind = match &r {
            None | Some(Err(_)) => "rejected",
            Some(Ok(Err(_))) => "broken",
            Some(Ok(Ok(_))) => "ok",
        };
        peak = alloc::peak() - start;
    }
    (kind, peak, alloc::live() - start)
}
pub fn c24(x: &mut Ctx) {
    x.assumptions.push("memory = bytes requested from the global allocator by the decoding thread".into());
    // The first error creates lazily initialised runtime state; do that outside the measurement.
    for b in brokens() {
        let _ = feed_whole(&mut MessageDecoder::<All>::new(), &b);
    }
    let mut inputs = bases();
    inputs.extend(brokens());
    inputs.extend(rejects());
    let n = inputs.len() as u64;
    let m = inputs.iter().map(|b| b.len()).max().unwrap() as u64 + 1;
    x.space("cut", &format!("every prefix of {} inputs, announced message length kept or 65535, whole or bytewise", n), n * m * 4, |c, i| {
        let mut ix = Ix(i);
        let b = &inputs[ix.take(n as usize)];
        let (k, mode) = (ix.take(m as usize), ix.take(4));
        if k > b.len() {
            return c.skip();
        }
        let mut b = b[..k].to_vec();
        if mode & 1 == 1 && k >= 4 {
            b[2..4].copy_from_slice(&[0xff, 0xff]);
        }
        c.state(&(&b, mode));
        c.sample(|| hex(&b));
        let cuts: Vec<usize> = if mode & 2 == 2 { (1..b.len()).collect() } else { vec![] };
        memory(c, "memory", &b, &cuts, 700);
    });
    let types: Vec<u16> = all_cps().into_iter().chain([0x7001, 0xC001]).collect();
    let nt = types.len() as u64;
    let lens: Vec<u16> = (0..34).map(|k| (1u32 << (k % 17)).saturating_sub((k / 17) as u32).min(65535) as u16).collect();
    let nl = lens.len() as u64;
    x.space("announced", &format!("{} attribute types x {} announced value lengths x 0..=40 bytes there x whole / bytewise", nt, nl), nt * nl * 41 * 2, |c, i| {
        let mut ix = Ix(i);
        let (t, l, k, mode) = (types[ix.take(nt as usize)], lens[ix.take(nl as usize)], ix.take(41), ix.take(2));
        let mut b = header(0x0101, 0xffff, &TID);
        b.extend(t.to_be_bytes());
        b.extend(l.to_be_bytes());
        b.resize(24 + k, 0x41);
        c.state(&b);
        c.sample(|| hex(&b));
        let cuts: Vec<usize> = if mode == 1 { (1..b.len()).collect() } else { vec![] };
        memory(c, "memory", &b, &cuts, l as usize);
    });
    let reps: Vec<(u16, Vec<u8>)> = types.iter().filter(|t| **t != 8).map(|t| (*t, typical(*t))).collect();
    let nr = reps.len() as u64;
    let counts: Vec<usize> = x.pick(vec![1, 2, 3, 5, 9, 17, 33, 65, 129, 257, 513, 1025, 2049, 4097], vec![6, 7, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1024, 8193, 1, 2, 3, 5, 9, 17, 33, 65, 129, 257, 513, 1025, 2049, 4097]);
    let nk = counts.len() as u64;
    x.space("repeated", &format!("1..{} copies of each of {} attributes (MESSAGE-INTEGRITY apart), complete or last byte missing", counts[counts.len() - 1], nr), nr * nk * 2, |c, i| {
        let mut ix = Ix(i);
        let (t, v) = &reps[ix.take(nr as usize)];
        let (k, mode) = (counts[ix.take(nk as usize)], ix.take(2));
        if k * (v.len() + 8) > 60000 {
            return c.skip();
        }
        let mut b = wire_msg(0x0101, &vec![(*t, v.clone()); if *t == 0x8028 { k.min(600) } else { k }]);
        if mode == 1 {
            b.pop();
        }
        c.state(&b);
        c.sample(|| format!("{} x {}", k, name_of(*t)));
        memory(c, "memory", &b, &[], v.len());
    });
    let w: Vec<MAttr> = attrs_wide_wire().into_iter().filter(|a| !matches!(a.cp, 8 | 0x8028)).collect();
    let nw = w.len();
    x.space("wide-values", &format!("{} values (complete or wide domains of each type), 1, 12 and, one in 16, as many copies as fit into 4000 bytes", nw), nw as u64 * 3, |c, i| {
        let mut ix = Ix(i);
        let (p, k) = (ix.take(nw), ix.take(3));
        let v = w[p].value_bytes(&TID);
        let k = match k {
            0 => 1,
            1 => 12,
            _ if p % 16 != 0 => return c.skip(),
            _ => 4000 / (v.len() + 4 + padlen(v.len())),
        };
        let b = wire_msg(0x0101, &vec![(w[p].cp, v.clone()); k]);
        c.state(&b);
        c.sample(|| format!("{} x {} {}", k, name_of(w[p].cp), hex(&v)));
        memory(c, "memory", &b, &[], v.len());
    });
    // texts around the longest ones allowed, in characters of every width
    let texts: Vec<String> = ["q", "\u{e9}", "\u{65e5}", "\u{10348}"].iter().flat_map(|s| [1usize, 31, 32, 33, 63, 64, 65, 120, 126, 127, 128, 129].map(|n| s.repeat(n))).collect();
    x.space("texts", &format!("5 text attributes and ERROR-CODE with {} texts of 1..4-byte characters, 1, 2, 5, 20 and 80 copies", texts.len()), 6 * texts.len() as u64 * 5, |c, i| {
        let mut ix = Ix(i);
        let (t, s, k) = ([0x06u16, 0x14, 0x15, 0x8022, 0x09, 0x13][ix.take(6)], &texts[ix.take(texts.len())], [1, 2, 5, 20, 80][ix.take(5)]);
        let v = if t == 9 { [&[0, 0, 4, 20], s.as_bytes()].concat() } else { s.as_bytes().to_vec() };
        let b = wire_msg(0x0101, &vec![(t, v.clone()); k]);
        c.state(&b);
        c.sample(|| format!("{} x {} of {} bytes", k, name_of(t), v.len()));
        memory(c, "memory", &b, &[], v.len());
    });
    // each MESSAGE-INTEGRITY keeps a copy of the bytes before it
    let counts: Vec<usize> = (1..=16).chain([32, 64, 128, 256, 400]).collect();
    x.space("integrity", &format!("{:?} MESSAGE-INTEGRITY attributes", counts), counts.len() as u64, |c, i| {
        let k = counts[i as usize];
        let b = wire_msg(0x0101, &vec![(8, vec![7; 20]); k]);
        c.state(&b);
        c.sample(|| format!("{} x MESSAGE-INTEGRITY", k));
        memory(c, if k > 100 { "many-integrity" } else { "memory" }, &b, &[], 20);
    });
    let sizes: Vec<usize> = (0..200).chain([255, 256, 1000, 1024, 4095, 4096, 20000, 65000]).collect();
    let blob = [0x13u16, 0x8030, 0x7001, 0x0a, 0x0006];
    x.space("large", &format!("{} value lengths x 5 variable-length types x with digests behind or not", sizes.len()), sizes.len() as u64 * 5 * 2, |c, i| {
        let mut ix = Ix(i);
        let (l, t, dig) = (sizes[ix.take(sizes.len())], blob[ix.take(5)], ix.take(2));
        let mut a = vec![(t, vec![0x41; l])];
        if dig == 1 {
            a.push((8, vec![]));
            a.push((0x8028, vec![]));
        }
        let b = wire_msg(0x0101, &a);
        c.state(&b);
        c.sample(|| format!("{} of {} bytes", name_of(t), l));
        memory(c, "memory", &b, &[], l);
    });
}
