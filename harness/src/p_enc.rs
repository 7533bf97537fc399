//! C06 output buffers, C08 encoder reuse, C15 size limits.
use crate::conv::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use bytecodec::{ByteCount, Encode, Eos, ErrorKind, SizedEncode};
use stun_codec::{Attribute, AttributeType, Message, MessageEncoder, RawAttribute};

/// Messages whose encoding exercises every attribute encoder and every padding.
fn enc_msgs() -> Vec<MMsg> {
    let mut v: Vec<MMsg> = vec![msg(0, 1, TID, vec![])];
    for a in attrs_few() {
        v.push(msg(2, 0xFFF, TID, vec![a]));
    }
    let core = attrs_core();
    for i in 0..core.len() {
        v.push(msg(3, 0x080, TID, vec![core[i].clone(), core[(i + 3) % core.len()].clone(), core[(i + 7) % core.len()].clone()]));
    }
    v.push(msg(1, 0, TID, vec![]));
    v
}
fn sizes_text(s: &[usize]) -> String {
    format!("buffers of {:?}", s)
}
fn drain_case<A: Attribute>(c: &mut Case, m: Message<A>, want: &[u8], sizes: &[usize], what: &dyn Fn() -> String) {
    let mut e = MessageEncoder::<A>::new();
    c.check("fresh", e.is_idle() && e.exact_requiring_bytes() == 0, || "a fresh encoder is not idle".into());
    if let Err(x) = e.start_encoding(m) {
        c.fail("refused", || format!("{}: start_encoding fails: {}", what(), x));
        return;
    }
    c.check("announced", e.exact_requiring_bytes() == want.len() as u64 && matches!(e.requiring_bytes(), ByteCount::Finite(n) if n == want.len() as u64), || {
        format!("{}: announces {} bytes / {:?} for {}", what(), e.exact_requiring_bytes(), e.requiring_bytes(), want.len())
    });
    let mut calls = 1;
    let r = drain(&mut e, sizes, want.len() + 64, &mut calls);
    c.op(calls);
    c.outcome("drained");
    c.note(|| format!("{} -> {:?}", what(), r.as_ref().map(|b| hex(b))));
    match r {
        Ok(b) => {
            c.check("bytes", b == want, || format!("{} {}: {} instead of {}", what(), sizes_text(sizes), hex(&b), hex(want)));
        }
        Err(t) => c.fail("drain", || format!("{} {}: {}", what(), sizes_text(sizes), t)),
    }
}
pub fn c06(x: &mut Ctx) {
    let msgs = enc_msgs();
    let wants: Vec<Vec<u8>> = msgs.iter().map(|m| encode_msg(m).unwrap()).collect();
    let n = msgs.len() as u64;
    let sz: Vec<usize> = x.pick(vec![0, 1, 2, 3, 4, 5, 8, 19, 64], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 19, 20, 21, 64]);
    let k = sz.len() as u64;
    let run = |c: &mut Case, j: usize, sizes: &[usize]| {
        c.state(&(j, sizes));
        c.sample(|| format!("{} with {}", hex(&wants[j]), sizes_text(sizes)));
        match build::<All>(&msgs[j]) {
            Ok(m) => drain_case(c, m, &wants[j], sizes, &|| hex(&wants[j])),
            Err(e) => c.fail("build", || e),
        }
    };
    x.space("cyclic", &format!("{} messages x all buffer size patterns of period 4 over {:?}", n, sz), n * k.pow(4), |c, i| {
        let mut ix = Ix(i);
        let s: Vec<usize> = (0..4).map(|_| sz[ix.take(k as usize)]).collect();
        if s.iter().all(|v| *v == 0) {
            return c.skip();
        }
        run(c, ix.take(n as usize), &s);
    });
    // every composition of a window of the output
    let w = x.pick(14usize, 18);
    let mut win: Vec<(usize, usize)> = vec![];
    for (j, b) in wants.iter().enumerate() {
        let mut at = 0;
        while at < b.len() {
            win.push((j, at));
            at += w - 3;
        }
    }
    let nw = win.len() as u64;
    x.space("compositions", &format!("{} windows of {} output bytes x all 2^{} ways of splitting the window into buffers", nw, w, w - 1), nw << (w - 1), |c, i| {
        let mut ix = Ix(i);
        let mask = ix.take(1 << (w - 1));
        let (j, at) = win[ix.take(nw as usize)];
        let width = w.min(wants[j].len() - at);
        if mask >> (width.max(1) - 1) != 0 {
            return c.skip();
        }
        let mut s = vec![];
        if at > 0 {
            s.push(at);
        }
        let mut p = 0;
        for q in 1..width {
            if mask >> (q - 1) & 1 == 1 {
                s.push(q - p);
                p = q;
            }
        }
        s.push(width - p);
        s.push(4096);
        run(c, j, &s);
    });
    // two cuts anywhere, empty buffers between
    let m = wants.iter().map(|b| b.len()).max().unwrap() as u64 + 1;
    x.space("cuts", &format!("{} messages x all pairs of cut positions x empty buffer at the cuts or not", n), n * m * m * 2, |c, i| {
        let mut ix = Ix(i);
        let z = ix.take(2);
        let (p, q) = (ix.take(m as usize), ix.take(m as usize));
        let j = ix.take(n as usize);
        if p > q || q > wants[j].len() {
            return c.skip();
        }
        let s = if z == 0 { vec![p, q - p, 4096] } else { vec![p, 0, q - p, 0, 0, 4096] };
        run(c, j, &s);
    });
    // end of stream with the last buffer: complete if it fits exactly
    x.space("last-buffer", &format!("{} messages, every first buffer size, rest with end of stream", n), n * m, |c, i| {
        let mut ix = Ix(i);
        let (p, j) = (ix.take(m as usize), ix.take(n as usize));
        let want = &wants[j];
        if p > want.len() {
            return c.skip();
        }
        c.state(&(j, p));
        c.sample(|| format!("{} first {}", hex(want), p));
        let mut e = MessageEncoder::<All>::new();
        let mut out = vec![0u8; want.len()];
        let r = build::<All>(&msgs[j]).and_then(|m| e.start_encoding(m).map_err(|e| e.to_string())).and_then(|_| {
            let a = e.encode(&mut out[..p], Eos::new(p == want.len())).map_err(|e| e.to_string())?;
            let b = if a < want.len() { e.encode(&mut out[a..], Eos::new(true)).map_err(|e| e.to_string())? } else { 0 };
            Ok((a, a + b))
        });
        c.op(3);
        c.outcome("drained");
        c.check("last", r == Ok((p, want.len())) && out == *want && e.is_idle(), || format!("{}: {:?} with first buffer {}, {}", hex(want), r, p, hex(&out)));
    });
    // all attributes with all boundary values, and raw attributes of every length
    let full = attrs_full();
    let nf = full.len() as u64;
    let pat: [&[usize]; 6] = [&[1], &[2], &[3], &[7, 0, 1], &[64], &[1000, 1]];
    x.space("values", &format!("{} attributes with boundary values x 6 buffer patterns", nf), nf * 6, |c, i| {
        let m = msg(0, 1, TID, vec![full[(i / 6) as usize].clone()]);
        let s = pat[(i % 6) as usize];
        let want = encode_msg(&m).unwrap();
        c.state(&(i / 6, s));
        c.sample(|| format!("{} with {:?}", hex(&want), s));
        match build::<All>(&m) {
            Ok(r) => drain_case(c, r, &want, s, &|| hex(&want)),
            Err(e) => c.fail("build", || e),
        }
    });
    let w = attrs_wide();
    let nw = w.len() as u64;
    x.space("wide-values", &format!("{} values (complete or wide domains of each type) x 3 buffer patterns", nw), nw * 3, |c, i| {
        let a = &w[(i / 3) as usize];
        let m = msg((i % 4) as u8, (i % 4096) as u16, TID, vec![a.clone(), MAttr::known(0x8022, Val::Str("z".into()))]);
        let s = [pat[0], pat[2], pat[3]][(i % 3) as usize];
        let want = encode_msg(&m).unwrap();
        c.state(&(a, s));
        match build::<All>(&m) {
            Ok(r) => drain_case(c, r, &want, s, &|| hex(&want)),
            Err(e) => c.fail("build", || e),
        }
    });
    let far = Far::new(x.thorough(), false);
    x.space("offsets", &format!("{}; in buffers of 3, 1021 or 4096 bytes", far.say()), far.n(), |c, i| {
        let m = far.get(i);
        let want = encode_msg(&m).unwrap();
        c.state(&m);
        match build::<All>(&m) {
            Ok(r) => drain_case(c, r, &want, &[[3, 1021, 4096][(i % 3) as usize]], &|| format!("message {} of this space", i)),
            Err(e) => c.fail("build", || e),
        }
    });
    let tl = TypeLists::new(3, x.pick(3, 4), false);
    x.space("type-lists", &format!("{}; in buffers of 1, 3 or 7, 0, 1 bytes", tl.say()), tl.n(), |c, i| {
        let m = tl.get(i);
        let s = [pat[0], pat[2], pat[3]][(i % 3) as usize];
        let want = encode_msg(&m).unwrap();
        c.state(&(&m, s));
        match build::<All>(&m) {
            Ok(r) => drain_case(c, r, &want, s, &|| hex(&want)),
            Err(e) => c.fail("build", || e),
        }
    });
    let lens = lengths(x.thorough());
    x.space("sizes", &format!("{} value lengths up to 65500 x 4 kinds of attributes x {} buffer sizes", lens.len(), CHUNKS.len()), (lens.len() * 4 * CHUNKS.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let (k, t, n) = (CHUNKS[ix.take(CHUNKS.len())], ix.take(4), lens[ix.take(lens.len())]);
        if n / k > 2100 {
            return c.skip();
        }
        let a = match t {
            0 => MAttr::known(0x13, Val::Bytes(vec![0x13; n])),
            1 => MAttr::known(0x8030, Val::Bytes(vec![0; n])),
            2 => MAttr::known(0x0A, Val::Types(vec![0x8000; n / 2])),
            _ => MAttr::known(9, Val::Err(420, "r".repeat(n))),
        };
        let m = MMsg { class: 2, method: 1, tid: TID, attrs: vec![a, MAttr::known(0x8022, Val::Str("ab".into()))] };
        let Some(want) = encode_msg(&m) else { return c.skip() };
        c.state(&(t, n, k));
        c.sample(|| format!("{} bytes of kind {} in buffers of {}", n, t, k));
        match build::<All>(&m) {
            Ok(r) => drain_case(c, r, &want, &[k], &|| hex(&want)),
            Err(e) => c.fail("build", || e),
        }
    });
    let cnt = counts(x.thorough());
    let few = attrs_few();
    let pats: [&[usize]; 5] = [&[1], &[3], &[64], &[0, 1023], &[4096]];
    x.space("counts", &format!("{} numbers of copies of {} attributes x 5 buffer patterns", cnt.len(), few.len()), (cnt.len() * few.len() * 5) as u64, |c, i| {
        let mut ix = Ix(i);
        let (s, a, n) = (pats[ix.take(5)], &few[ix.take(few.len())], cnt[ix.take(cnt.len())]);
        if matches!(a.cp, 8 | 0x8028) && n > 66 {
            return c.skip();
        }
        let m = msg(2, 1, TID, copies(a, None, n));
        let Some(want) = encode_msg(&m) else { return c.skip() };
        c.state(&(a, n, s));
        c.sample(|| format!("{} x {:?} in buffers of {:?}", n, a, s));
        match build::<All>(&m) {
            Ok(r) => drain_case(c, r, &want, s, &|| hex(&want)),
            Err(e) => c.fail("build", || e),
        }
    });
    let lens = x.pick(1500u64, 9000);
    x.space("raw", &format!("raw attributes of 0..{} value bytes, one or two of them, x 6 buffer patterns", lens), lens * 2 * 6, |c, i| {
        let mut ix = Ix(i);
        let (l, two, s) = (ix.take(lens as usize), ix.take(2), pat[ix.take(6)]);
        let mut a = vec![MAttr::raw(0x7001, (0..l).map(|k| k as u8).collect())];
        if two == 1 {
            a.push(MAttr::raw(0x8028, vec![7; l % 9]));
        }
        let m = MMsg { class: 1, method: 0x123, tid: TID, attrs: a };
        let want = encode_msg(&m).unwrap();
        c.state(&(l, two, s));
        c.sample(|| format!("{} bytes with {:?}", want.len(), s));
        drain_case(c, build_raw(&m), &want, s, &|| hex(&want));
    });
}

// ------------------------------------------------------------------ C08
/// What a step of an encoder history does.
#[derive(Clone, Debug)]
enum EStep {
    /// encode to the end with these buffers
    Full(usize, Vec<usize>),
    /// start, drain k bytes, try to start another message, drain the rest
    Intrude(usize, usize, usize),
    /// a message that is refused
    Bad(usize),
}
pub fn err_kind(e: &bytecodec::Error) -> ErrorKind {
    *e.kind()
}
fn encoder_histories<A: Attribute>(x: &mut Ctx, name: &str, good: &[(Message<A>, Vec<u8>)], bad: &[Message<A>])
where
    Message<A>: Sync,
{
    // the same over and over, then something else
    let reps: Vec<usize> = x.pick(vec![10, 33, 65, 129, 257, 513], vec![10, 17, 33, 64, 65, 128, 129, 255, 256, 257, 513, 1025, 65537]);
    let n = good.len() + bad.len();
    x.space(&format!("{}-repeat", name), &format!("each of {} messages (valid and refused) {:?} times in buffers of 64, then each valid one", n, reps), (n * reps.len() * good.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let (j, r, last) = (ix.take(n), reps[ix.take(reps.len())], ix.take(good.len()));
        if r > 2000 && (j >= good.len() || last != 0) {
            return c.skip();
        }
        c.state(&i);
        c.sample(|| format!("message {} {} times, then {}", j, r, last));
        let mut e = MessageEncoder::<A>::new();
        let mut calls = 0;
        for k in 0..=r {
            let j = if k == r { last } else { j };
            if j >= good.len() {
                if !c.check("refused", e.start_encoding(bad[j - good.len()].clone()).is_err(), || format!("refused message {} accepted at its repetition {}", j, k)) {
                    return;
                }
            } else {
                let got = e.start_encoding(good[j].0.clone()).map_err(|e| e.to_string()).and_then(|_| drain(&mut e, &[64], 1 << 17, &mut calls));
                if !c.check("reuse", got.as_ref() == Ok(&good[j].1), || format!("repetition {} of message {}: {:?} instead of {}", k, j, got.as_ref().map(|b| hex(b)), hex(&good[j].1))) {
                    return;
                }
            }
        }
        c.op(calls);
        c.outcome("repeated");
    });
    let rounds = x.pick(66000usize, 140000);
    // short ones only: what is refused for its size is not
    let short: Vec<usize> = (0..n).filter(|j| if *j < good.len() { good[*j].1.len() <= 120 } else { !["typed", "raw", "received"].contains(&name) }).collect();
    let m = short.len().min(12);
    let pos = |j: usize| short[j * (short.len() - 1) / (m - 1).max(1)];
    x.space(&format!("{}-marathon", name), &format!("all pairs of {} messages (valid and refused) taking turns, {} of them with one encoder", m, rounds), (m * m) as u64, |c, i| {
        let p = [pos(i as usize % m), pos(i as usize / m)];
        c.state(&i);
        let mut e = MessageEncoder::<A>::new();
        let mut calls = 0;
        for k in 0..rounds {
            let j = p[k % 2];
            if j >= good.len() {
                if !c.check("refused", e.start_encoding(bad[j - good.len()].clone()).is_err(), || format!("refused message {} accepted after {} others", j, k)) {
                    return;
                }
            } else {
                let got = e.start_encoding(good[j].0.clone()).map_err(|e| e.to_string()).and_then(|_| drain(&mut e, &[64], 1 << 17, &mut calls));
                if !c.check("reuse", got.as_ref() == Ok(&good[j].1), || format!("message {} after {} others: {:?} instead of {:?}", j, k, got.as_ref().map(|b| hex(b)), hex(&good[j].1))) {
                    return;
                }
            }
        }
        c.op(calls);
        c.outcome("repeated");
    });
    // start while draining at every byte; histories of 2
    history_space(x, &format!("{}-dense", name), good, bad, 2, &|_| true);
    // at the borders of the parts of a message; longer histories
    history_space(x, name, good, bad, 3, &|at| [0, 1, 2, 3, 4, 7, 8, 19, 20, 21, 23, 24, 26].contains(&at));
    if x.thorough() {
        history_space(x, &format!("{}-deep", name), good, bad, 4, &|at| [0, 1, 19, 20, 24].contains(&at));
    }
}
fn history_space<A: Attribute>(x: &mut Ctx, name: &str, good: &[(Message<A>, Vec<u8>)], bad: &[Message<A>], depth: u32, points: &dyn Fn(usize) -> bool)
where
    Message<A>: Sync,
{
    let mut steps: Vec<EStep> = vec![];
    for g in 0..good.len() {
        steps.push(EStep::Full(g, vec![4096]));
        steps.push(EStep::Full(g, vec![1, 3]));
        let l = good[g].1.len();
        for at in 0..l {
            if points(at) || at + 1 == l {
                steps.push(EStep::Intrude(g, at, (g + 1) % (good.len() + bad.len())));
                steps.push(EStep::Intrude(g, at, (g + 3) % (good.len() + bad.len())));
            }
        }
    }
    for b in 0..bad.len() {
        steps.push(EStep::Bad(b));
    }
    let k = steps.len() as u64;
    let pickm = |j: usize| if j < good.len() { good[j].0.clone() } else { bad[j - good.len()].clone() };
    x.space(name, &format!("all histories of {} steps over {} (encode, refused message, start while draining at every stage)", depth, k), k.pow(depth), |c, i| {
        let mut ix = Ix(i);
        let h: Vec<usize> = (0..depth).map(|_| ix.take(k as usize)).collect();
        c.state(&i);
        c.sample(|| format!("{:?}", h.iter().map(|j| &steps[*j]).collect::<Vec<_>>()));
        let mut e = MessageEncoder::<A>::new();
        for (n, j) in h.iter().enumerate() {
            let say = || format!("step {} of {:?}", n, h.iter().map(|j| &steps[*j]).collect::<Vec<_>>());
            let mut calls = 0;
            match &steps[*j] {
                EStep::Full(g, sizes) => {
                    let r = e.start_encoding(good[*g].0.clone()).map_err(|e| e.to_string()).and_then(|_| drain(&mut e, sizes, 1 << 17, &mut calls));
                    c.outcome("encoded");
                    if !c.check("reuse", r.as_ref() == Ok(&good[*g].1), || format!("{}: {:?} instead of {}", say(), r.as_ref().map(|b| hex(b)), hex(&good[*g].1))) {
                        return;
                    }
                }
                EStep::Intrude(g, at, other) => {
                    let want = &good[*g].1;
                    let mut out = vec![0; want.len()];
                    let r = e.start_encoding(good[*g].0.clone()).is_ok() && e.encode(&mut out[..*at], Eos::new(false)).ok() == Some(*at);
                    if !c.check("reuse", r, || format!("{}: cannot start", say())) {
                        return;
                    }
                    let s = e.start_encoding(pickm(*other));
                    c.outcome("start while draining");
                    c.check("intrusion", s.is_err(), || format!("{}: accepted a message while draining another", say()));
                    let rest = drain(&mut e, &[5], 1 << 17, &mut calls).map(|r| [&out[..*at], &r].concat());
                    if !c.check("intrusion", rest.as_ref() == Ok(want), || format!("{}: {:?} instead of {}", say(), rest.as_ref().map(|b| hex(b)), hex(want))) {
                        return;
                    }
                }
                EStep::Bad(b) => {
                    let r = e.start_encoding(bad[*b].clone());
                    c.outcome("refused");
                    if !c.check("refused", r.is_err(), || format!("{}: accepted", say())) {
                        return;
                    }
                }
            }
            c.op(calls + 1);
            if !c.check("between", e.is_idle() && e.exact_requiring_bytes() == 0, || format!("{}: afterwards idle={} announcing {}", say(), e.is_idle(), e.exact_requiring_bytes())) {
                return;
            }
        }
    });
}
fn brief_attr(a: &MAttr) -> String {
    short(&format!("{}={:?}", name_of(a.cp), a.body))
}
pub fn c08(x: &mut Ctx) {
    let k = |cp: u16, i: usize| MAttr::known(cp, vals(kind_of(cp).unwrap())[i].clone());
    let good: Vec<(Message<All>, Vec<u8>)> = [
        msg(0, 1, TID, vec![]),
        msg(2, 0xFFF, TID, vec![k(0x8022, 0)]),
        msg(3, 0x10, TID, vec![k(0x20, 4), k(9, 2), k(0x8028, 0)]),
        msg(1, 0x123, TID, vec![k(0x25, 0), k(0x0A, 2), k(0x13, 7)]),
    ]
    .iter()
    .map(|m| (build::<All>(m).expect("valid"), encode_msg(m).unwrap()))
    .collect();
    let big = |n: usize, l: usize, pre: Option<MAttr>| {
        let mut a: Vec<MAttr> = pre.into_iter().collect();
        a.extend((0..n).map(|_| MAttr::known(0x13, Val::Bytes(vec![1; l]))));
        build::<All>(&MMsg { class: 0, method: 1, tid: TID, attrs: a }).expect("valid")
    };
    let types = |n: usize, post: bool| {
        let mut a = vec![k(0x20, 0), MAttr::known(0x0A, Val::Types(vec![0x102; n]))];
        if post {
            a.push(k(0x8022, 0));
        }
        build::<All>(&MMsg { class: 2, method: 0xABC, tid: TID, attrs: a }).expect("valid")
    };
    // attribute part too large; value too large; both at first or later attributes
    let bad = vec![big(1, 65535, None), big(2, 40000, Some(k(0x20, 4))), types(32768, false), types(40000, true), big(1, 65529, Some(k(0x8022, 1)))];
    encoder_histories(x, "typed", &good, &bad);
    // received messages: unknown attributes, padding, digests
    let received: Vec<Vec<u8>> = vec![
        wire_msg(0x0111, &[(0x7001, vec![5])]),
        frame(0x0101, &[padded(0x8022, b"a", &[7, 8, 9]), padded(0x7777, &[1, 2], &[3, 4]), tlv(0x20, &wire(0x20, 4), None)].concat()),
        wire_msg(0x0001, &[(0x7F02, vec![]), (8, vec![]), (0xC001, vec![1; 4]), (0x8028, vec![])]),
    ];
    let received: Vec<(Message<All>, Vec<u8>)> = received.into_iter().map(|b| (feed_whole(&mut stun_codec::MessageDecoder::<All>::new(), &b).1.expect("valid"), b)).collect();
    // too large only with what was added
    let grown = |n: usize, known: bool| {
        let b = frame(0x0111, &[tlv(if known { 0x13 } else { 0x7333 }, &vec![3; n], None), tlv(0x7001, &[1], Some(&[1, 2, 3]))].concat());
        let mut m = feed_whole(&mut stun_codec::MessageDecoder::<All>::new(), &b).1.expect("valid");
        m.add_attribute(All::make(0x13, &Val::Bytes(vec![1; 30000])).expect("valid"));
        m
    };
    encoder_histories(x, "received", &received, &[grown(40000, true), grown(40001, false)]);
    let small: Vec<MAttr> = attrs_small().into_iter().filter(|a| matches!(a.body, Body::Known(_))).collect();
    let ns = small.len();
    let r = x.pick(300usize, 1100);
    x.space("repeat-values", &format!("each of {} attributes (all types, all small lengths), once or twice in a message, {} times, then taking turns with each other one", ns, r), (ns * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let (n, size, p) = (1 + ix.take(2), [1, 64][ix.take(2)], ix.take(ns));
        let mk = |i: usize, n: usize| msg((i % 4) as u8, (i % 4096) as u16, TID, vec![small[i].clone(); n]);
        let (a, wa) = (mk(p, n), encode_msg(&mk(p, n)).unwrap());
        let Ok(a) = build::<All>(&a) else { return c.fail("build", || brief_attr(&small[p])) };
        c.state(&i);
        let mut e = MessageEncoder::<All>::new();
        let mut calls = 0;
        let mut put = |c: &mut Case, m: &Message<All>, want: &Vec<u8>, k: usize| {
            let got = e.start_encoding(m.clone()).map_err(|e| e.to_string()).and_then(|_| drain(&mut e, &[size], 1 << 17, &mut calls));
            c.check("reuse", got.as_ref() == Ok(want), || format!("message {} of a history with {}: {:?} instead of {}", k, brief_attr(&small[p]), got.as_ref().map(|b| hex(b)), hex(want)))
        };
        for k in 0..r {
            if !put(c, &a, &wa, k) {
                return;
            }
        }
        for j in 0..ns {
            let Ok(b) = build::<All>(&mk(j, 1)) else { return c.fail("build", || brief_attr(&small[j])) };
            let wb = encode_msg(&mk(j, 1)).unwrap();
            for k in 0..6 {
                if !(if k % 2 == 0 { put(c, &b, &wb, r + k) } else { put(c, &a, &wa, r + k) }) {
                    return;
                }
            }
        }
        c.op(calls);
        c.outcome("repeated");
    });
    // values of all kinds one after the other, a refused message in between or not
    let w = attrs_wide();
    let nw = w.len();
    let strides = [0usize, 1, 97, 4099, 131071, 300007];
    x.space("wide-values", &format!("chains a, b, a of messages with {} values (complete or wide domains of each type), {} choices of b for each a", nw, strides.len()), (nw * strides.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let (s, p) = (ix.take(strides.len()), ix.take(nw));
        let mk = |a: &MAttr| msg((i % 4) as u8, (i % 4096) as u16, TID, vec![a.clone()]);
        let (a, b) = (mk(&w[p]), mk(&w[(p + strides[s]) % nw]));
        c.state(&i);
        let mut e = MessageEncoder::<All>::new();
        for (k, m) in [&a, &b, &a].into_iter().enumerate() {
            if i % 64 == 5 && k == 1 && !c.check("refused", e.start_encoding(bad[(i / 64 % 5) as usize].clone()).is_err(), || "a refused message is accepted".into()) {
                return;
            }
            let want = encode_msg(m).unwrap();
            let mut calls = 0;
            let got = build::<All>(m).and_then(|m| e.start_encoding(m).map_err(|e| e.to_string())).and_then(|_| drain(&mut e, &[[4096, 1][p % 2]], 1 << 17, &mut calls));
            c.op(calls);
            if !c.check("reuse", got.as_ref() == Ok(&want), || format!("message {} of {} and {}: {:?}", k, brief_attr(&a.attrs[0]), brief_attr(&b.attrs[0]), got.as_ref().map(|b| hex(b)))) {
                return;
            }
        }
        c.outcome("encoded");
    });
    let raws: Vec<(Message<RawAttribute>, Vec<u8>)> = [
        MMsg { class: 0, method: 1, tid: TID, attrs: vec![] },
        MMsg { class: 1, method: 2, tid: [9; 12], attrs: vec![MAttr::raw(0x7001, vec![1])] },
        MMsg { class: 3, method: 0xF0, tid: [1; 12], attrs: vec![MAttr::raw(0x8001, vec![]), MAttr::raw(0x20, vec![5; 6])] },
    ]
    .iter()
    .map(|m| (build_raw(m), encode_msg(m).unwrap()))
    .collect();
    let braw = |ls: &[usize]| build_raw(&MMsg { class: 0, method: 1, tid: TID, attrs: ls.iter().map(|l| MAttr::raw(0x7001, vec![2; *l])).collect() });
    let bad = vec![braw(&[65536]), braw(&[3, 65536, 4]), braw(&[65536, 65536]), braw(&[65530]), braw(&[40000, 40000]), braw(&[100000])];
    encoder_histories(x, "raw", &raws, &bad);
    // failing hooks
    use crate::p_hook::{hooked, PE};
    let ok = |spec: &[(usize, u8, u8)]| {
        let m = hooked(spec);
        let b = MessageEncoder::<PE>::new();
        drop(b);
        m
    };
    let good: Vec<(Message<PE>, Vec<u8>)> = [vec![(0, 0, 0)], vec![(1, 1, 0), (2, 0, 0)], vec![(3, 3, 0), (0, 1, 0), (2, 0, 0)]]
        .iter()
        .map(|s| (ok(s), crate::p_hook::hooked_bytes(s)))
        .collect();
    let bad: Vec<Message<PE>> = [
        vec![(0, 2, 0)],
        vec![(0, 0, 0), (1, 2, 0)],
        vec![(0, 1, 0), (1, 2, 0), (2, 0, 0)],
        vec![(2, 2, 0), (1, 1, 0), (0, 2, 0)],
    ]
    .iter()
    .map(|s| ok(s))
    .collect();
    encoder_histories(x, "hooks", &good, &bad);
    user_encoders::<crate::p_hook::FZ>(x, "user");
    user_encoders::<crate::p_hook::Fussy>(x, "user-bare");
}
/// Messages refused because the encoder or the hook of a user-defined attribute fails, with every kind of error.
fn user_encoders<S: AttrSet + Clone>(x: &mut Ctx, name: &str)
where
    Message<S>: Sync,
{
    use crate::p_hook::{Fussy, KINDS};
    let enums = S::cps().len() > 1;
    let mk = |els: &[Option<(u8, usize)>], class: u8| -> (Message<S>, Vec<u8>) {
        let m = MMsg {
            class,
            method: 0x321,
            tid: TID,
            attrs: els
                .iter()
                .enumerate()
                .filter_map(|(j, e)| match e {
                    None => enums.then(|| MAttr::known(0x8022, Val::Str("abc".into()))),
                    Some((p, k)) => Some(MAttr::known(Fussy::CODEPOINT, Val::Bytes([&[*p, *k as u8][..], &vec![0x40 + j as u8; j]].concat()))),
                })
                .collect(),
        };
        let list: Vec<(u16, Vec<u8>)> = m.attrs.iter().map(|a| (a.cp, match &a.body {
            Body::Known(Val::Bytes(b)) => b.clone(),
            _ => b"abc".to_vec(),
        })).collect();
        (build::<S>(&m).expect("valid"), wire_msg(type_field(class, 0x321), &list))
    };
    let ok = Some((0, 0));
    let good = vec![mk(&[], 0), mk(&[None, ok], 1), mk(&[ok, Some((1, 2)), None, Some((4, 3))], 2)];
    let mut bad = vec![];
    let mut few = vec![];
    for p in [5u8, 6] {
        for k in 0..KINDS.len() {
            let f = Some((p, k));
            for l in [vec![f], vec![None, f], vec![f, None], vec![ok, f, ok], vec![ok, ok, None, f, f], vec![f, Some((11 - p, (k + 1) % 7))]] {
                bad.push(mk(&l, 3).0);
            }
            few.push(mk(&[ok, f, None], 3).0);
        }
    }
    let (nb, ng) = (bad.len(), good.len());
    x.space(&format!("{}-pairs", name), &format!("all pairs of {} messages refused by the hook or the encoder of a user-defined attribute at every position, with each of 7 kinds of errors, before, between and after {} valid ones", nb, ng), (nb * nb * ng) as u64, |c, i| {
        let mut ix = Ix(i);
        let (p, q, g) = (ix.take(nb), ix.take(nb), ix.take(ng));
        c.state(&i);
        c.sample(|| format!("{:?} then {:?}", bad[p], bad[q]));
        let mut e = MessageEncoder::<S>::new();
        let mut calls = 0;
        for (n, b) in [None, Some(p), None, Some(q), Some(p), None, None].into_iter().enumerate() {
            let say = || format!("step {}: {:?} and {:?} refused, {} valid", n, bad[p], bad[q], g);
            match b {
                Some(b) => {
                    let r = e.start_encoding(bad[b].clone());
                    if !c.check("refused", r.is_err(), || format!("{}: accepted", say())) || !c.check("reuse", e.is_idle() && e.exact_requiring_bytes() == 0, || format!("{}: {} bytes announced after a refused message", say(), e.exact_requiring_bytes())) {
                        return;
                    }
                }
                None => {
                    let (m, w) = &good[(g + n) % ng];
                    let got = e.start_encoding(m.clone()).map_err(|e| e.to_string()).and_then(|_| drain(&mut e, &[[64, 3][n % 2]], 1 << 17, &mut calls));
                    if !c.check("reuse", got.as_ref() == Ok(w), || format!("{}: {:?} instead of {}", say(), got.as_ref().map(|b| hex(b)), hex(w))) {
                        return;
                    }
                }
            }
        }
        c.op(calls);
        c.outcome("encoded after refused ones");
    });
    encoder_histories(x, name, &good, &few);
}

// ------------------------------------------------------------------ C15
fn enc_result<A: Attribute>(c: &mut Case, m: Message<A>, model: &MMsg, what: &dyn Fn() -> String) {
    let want = encode_msg(model);
    let got = encode(m);
    c.op(1);
    c.outcome(if want.is_some() { "fits" } else { "too large" });
    match (got, want) {
        (Ok(g), Some(w)) => {
            c.check("bytes", g == w, || format!("{}: wrong bytes: {} instead of {}", what(), hex(&g), hex(&w)));
        }
        (Err(e), None) => {
            c.check("kind", err_kind(&e) == ErrorKind::InvalidInput, || format!("{}: refused with {:?}", what(), e.kind()));
        }
        (Ok(g), None) => c.fail("accepted", || format!("{}: accepted with header {}", what(), hex(&g[..24.min(g.len())]))),
        (Err(e), Some(_)) => c.fail("refused", || format!("{}: refused: {}", what(), e)),
    }
}
pub fn c15(x: &mut Ctx) {
    // one raw attribute of every length
    let lens: Vec<usize> = if x.thorough() {
        (0..66200).collect()
    } else {
        (0..40).chain(60..70).chain(250..262).chain((0..66000).step_by(97)).chain(65480..65620).chain([98301, 131060, 131071, 131072, 131073, 196608]).collect()
    };
    let n = lens.len() as u64;
    x.space("one-raw", &format!("one raw attribute of {} lengths from 0 to 196608 (all around 65535)", n), n, |c, i| {
        let l = lens[i as usize];
        let m = MMsg { class: 0, method: 1, tid: TID, attrs: vec![MAttr::raw(0x7001, vec![l as u8; l])] };
        c.state(&l);
        c.sample(|| format!("{} bytes", l));
        enc_result(c, build_raw(&m), &m, &|| format!("raw attribute of {} bytes", l));
    });
    // two and three attributes whose sizes add up to around the limit
    let span = x.pick(40u64, 64);
    x.space("sum", &format!("two or three raw attributes, first 0..=40 or half, last such that the total is within {} bytes of the limit, x 3 middle attributes", span), 64 * span * 3, |c, i| {
        let mut ix = Ix(i);
        let a = ix.take(64);
        let a = if a > 40 { 32700 + a } else { a };
        let d = ix.take(span as usize);
        let mid = ix.take(3);
        let mut attrs = vec![MAttr::raw(0x7001, vec![1; a])];
        if mid > 0 {
            attrs.push(MAttr::raw(0x8022, vec![2; mid * 3 - 3]));
        }
        let used: usize = attrs.iter().map(|t| 4 + t.value_bytes(&TID).len() + padlen(t.value_bytes(&TID).len())).sum();
        let l = (65535 - used + span as usize / 2 - 4).saturating_sub(d);
        attrs.push(MAttr::raw(0x0013, vec![3; l]));
        let m = MMsg { class: 2, method: 0xFFF, tid: TID, attrs };
        c.state(&(a, d, mid));
        c.sample(|| format!("{} .. {}", a, l));
        enc_result(c, build_raw(&m), &m, &|| format!("attributes of {}, {} and {} bytes", a, mid, l));
    });
    let counts: Vec<usize> = (16370..16400).chain([8190, 8191, 8192, 13106, 13107, 13108, 21845, 32768, 65536]).collect();
    x.space("many", &format!("{} numbers of attributes with 0, 1 or 4 value bytes", counts.len()), counts.len() as u64 * 3, |c, i| {
        let n = counts[(i / 3) as usize];
        let l = [0, 1, 4][(i % 3) as usize];
        let m = MMsg { class: 0, method: 1, tid: TID, attrs: vec![MAttr::raw(0x7001, vec![7; l]); n] };
        c.state(&(n, l));
        c.sample(|| format!("{} x {}", n, l));
        enc_result(c, build_raw(&m), &m, &|| format!("{} attributes of {} bytes", n, l));
    });
    // typed attributes
    x.space("types", "UNKNOWN-ATTRIBUTES with 32700..=32800 entries, x attribute in front", 101 * 2, |c, i| {
        let n = 32700 + (i / 2) as usize;
        let mut attrs = vec![MAttr::known(0x0A, Val::Types((0..n).map(|k| k as u16).collect()))];
        if i % 2 == 1 {
            attrs.insert(0, MAttr::known(0x20, vals(Kind::Xor)[0].clone()));
        }
        let m = MMsg { class: 3, method: 1, tid: TID, attrs };
        c.state(&i);
        c.sample(|| format!("{} entries", n));
        match build::<All>(&m) {
            Ok(r) => enc_result(c, r, &m, &|| format!("UNKNOWN-ATTRIBUTES with {} entries", n)),
            Err(e) => c.fail("build", || e),
        }
    });
    x.space("text", "ERROR-CODE with reason phrases of 65480..=65560 bytes, DATA and MOBILITY-TICKET likewise", 81 * 3, |c, i| {
        let l = 65480 + (i / 3) as usize;
        let a = match i % 3 {
            0 => MAttr::known(9, Val::Err(420, "x".repeat(l))),
            1 => MAttr::known(0x13, Val::Bytes(vec![1; l])),
            _ => MAttr::known(0x8030, Val::Bytes(vec![1; l])),
        };
        let name = name_of(a.cp);
        let m = MMsg { class: 3, method: 1, tid: TID, attrs: vec![a] };
        c.state(&i);
        c.sample(|| format!("{} of {}", name, l));
        match build::<All>(&m) {
            Ok(r) => enc_result(c, r, &m, &|| format!("{} of {} bytes", name, l)),
            // refused by the constructor already (see C12)
            Err(_) => {
                c.outcome("refused by the constructor");
                c.check("refused", l > 65535 && i % 3 != 0, || format!("constructor of {} refuses {} bytes", name, l));
            }
        }
    });
    // digests of messages near the limit
    let span = x.pick(2000usize, 30000);
    x.space("digests", &format!("creating FINGERPRINT and MESSAGE-INTEGRITY for messages with attribute parts of 65536-{}..=65532 bytes (one or two attributes)", span), (span as u64 / 4) * 3 * 2, |c, i| {
        let mut ix = Ix(i);
        let part = 65536 - span + 4 * ix.take(span / 4);
        let (what, two) = (ix.take(3), ix.take(2));
        let attrs = if two == 1 {
            vec![MAttr::known(0x8022, Val::Str("abc".into())), MAttr::known(0x13, Val::Bytes(vec![9; part - 12]))]
        } else {
            vec![MAttr::known(0x13, Val::Bytes(vec![9; part - 4]))]
        };
        let m = MMsg { class: 0, method: 1, tid: TID, attrs };
        let Some(b) = encode_msg(&m) else { return c.skip() };
        let msg = match build::<All>(&m) {
            Ok(r) => r,
            Err(e) => return c.fail("build", || e),
        };
        c.state(&i);
        c.op(1);
        c.sample(|| format!("part of {} bytes, digest {}", part, what));
        let u = Username::new("u".into()).unwrap();
        let r = Realm::new("r".into()).unwrap();
        let (got, fits, want): (Result<Vec<u8>, ErrorKind>, bool, Vec<u8>) = match what {
            0 => (Fingerprint::new(&msg).map(|f| f.crc32().to_be_bytes().to_vec()).map_err(|e| err_kind(&e)), part + 8 <= 65535, fp_value(&b).to_be_bytes().to_vec()),
            1 => (
                MessageIntegrity::new_short_term_credential(&msg, PW).map(|f| f.hmac_sha1().to_vec()).map_err(|e| err_kind(&e)),
                part + 24 <= 65535,
                mi_value(&b, PW.as_bytes()).to_vec(),
            ),
            _ => (
                MessageIntegrity::new_long_term_credential(&msg, &u, &r, PW).map(|f| f.hmac_sha1().to_vec()).map_err(|e| err_kind(&e)),
                part + 24 <= 65535,
                mi_value(&b, &long_term_key("u", "r", PW)).to_vec(),
            ),
        };
        c.outcome(if fits { "digest fits" } else { "digest does not fit" });
        let name = ["FINGERPRINT", "MESSAGE-INTEGRITY (short-term)", "MESSAGE-INTEGRITY (long-term)"][what];
        if fits {
            c.check("digest", got.as_ref() == Ok(&want), || format!("{} for an attribute part of {} bytes: {:?} instead of {}", name, part, got.as_ref().map(|v| hex(v)), hex(&want)));
        } else {
            c.check("digest-too-large", got == Err(ErrorKind::InvalidInput), || {
                format!("{} for an attribute part of {} bytes gives {:?} although no message can hold both", name, part, got.as_ref().map(|v| hex(v)))
            });
        }
    });
    // receiving messages of the largest sizes
    x.space("receive", "messages of 65535-120..=65535 announced bytes: DATA, then nothing / FINGERPRINT / MESSAGE-INTEGRITY / both / SOFTWARE, digests right or wrong, x sets", 121 * 5 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let total = 65535 - ix.take(121);
        let (shape, wrong, set) = (ix.take(5), ix.take(2), ix.take(2));
        let tail: &[u16] = match shape {
            0 => &[],
            1 => &[0x8028],
            2 => &[8],
            3 => &[8, 0x8028],
            _ => &[0x8022],
        };
        let tl: usize = tail.iter().map(|t| [8, 24, 8][[0x8028, 8, 0x8022].iter().position(|x| x == t).unwrap()]).sum();
        let l = (total - tl - 4) / 4 * 4;
        let mut attrs = vec![(0x13u16, vec![0x5a; l])];
        attrs.extend(tail.iter().map(|t| (*t, if *t == 0x8022 { b"abcd".to_vec() } else { vec![] })));
        let mut b = wire_msg(0x0101, &attrs);
        // the announced length may leave a few bytes that form no attribute
        b[2..4].copy_from_slice(&(total as u16).to_be_bytes());
        b.resize(20 + total, 0);
        if wrong == 1 {
            b[30] ^= 1;
        }
        c.state(&i);
        c.sample(|| format!("{} bytes announced, shape {}", total, shape));
        let cps = if set == 0 { all_cps() } else { RFC5389.to_vec() };
        let (o, _) = decode_msg(&b, &cps, FpMode::Received);
        let obs = if set == 0 { feed_whole(&mut stun_codec::MessageDecoder::<All>::new(), &b).0 } else { feed_whole(&mut stun_codec::MessageDecoder::<A5389>::new(), &b).0 };
        c.op(1);
        c.outcome(obs.kind());
        c.check("receive", agrees(&obs, &o), || format!("announced {}, shape {}, wrong {}: {} instead of {}", total, shape, wrong, obs.kind(), want(&o).kind()));
    });
    // too large values must not slip through a message type that is re-encoded
    x.space("retype", "raw attributes of 65528..=65540 bytes under every known type", 13 * 32, |c, i| {
        let l = 65528 + (i / 32) as usize;
        let cp = SPEC[(i % 32) as usize].cp;
        let mut r = Message::<RawAttribute>::new(class(0), stun_codec::Method::new(1).unwrap(), stun_codec::TransactionId::new(TID));
        r.add_attribute(RawAttribute::new(AttributeType::new(cp), vec![3; l]));
        let m = MMsg { class: 0, method: 1, tid: TID, attrs: vec![MAttr::raw(cp, vec![3; l])] };
        c.state(&i);
        c.sample(|| format!("{} of {}", name_of(cp), l));
        enc_result(c, r, &m, &|| format!("raw {} of {} bytes", name_of(cp), l));
    });
}
