//! C26 (comparing and copying), C27 (independence of codecs), C28 (retained memory), C29 (call orders).
use crate::conv::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_attr::real_vals;
use crate::refm::*;
use bytecodec::{ByteCount, Decode, Encode, Eos, SizedEncode};
use std::fmt::Debug;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use stun_codec::{rfc5766, Attribute, AttributeType, BrokenMessage, Message, MessageDecoder, MessageEncoder, Method, RawAttribute, TransactionId};

// ---------------------------------------------------------------- C26
/// Two values of one type, made separately: equal exactly when their content is, with equal hashes then.
fn laws<T: Debug + Clone + PartialEq + Hash>(c: &mut Case, what: &dyn Fn() -> String, a: &T, b: &T, same: bool) {
    c.op(4);
    c.check("equality", (a == b) == same && (b == a) == same && (a != b) != same, || format!("{}: {:?} == {:?} gives {} {}", what(), a, b, a == b, b == a));
    let (ca, cb) = (a.clone(), b.clone());
    c.check("equality", ca == *a && (ca == cb) == same && *a == *a, || format!("{}: a clone of {:?} compares differently", what(), a));
    let mut d = cb;
    d.clone_from(a);
    c.check("equality", d == *a, || format!("{}: {:?} does not equal {:?} it was made a copy of", what(), d, a));
    if same {
        c.check("hash", fx(a) == fx(b) && fx(&ca) == fx(a), || format!("{}: equal values {:?} and {:?} have different hashes", what(), a, b));
    }
    c.outcome(if same { "equal" } else { "different" });
}
struct Law {
    cp: u16,
    vals: Vec<Val>,
    run: fn(&mut Case, u16, &Val, &Val),
}
fn law<T: View + Clone + PartialEq + Hash>(c: &mut Case, cp: u16, x: &Val, y: &Val)
where
    All: From<T>,
{
    let what = || format!("{} of {:?} and {:?}", name_of(cp), x, y);
    let (Some(a), Some(b)) = (T::make(x), T::make(y)) else {
        c.fail("constructor", || format!("{} refuses {:?} or {:?}", name_of(cp), x, y));
        return;
    };
    laws(c, &what, &a, &b, x == y);
    c.eq("clone", || format!("clone of {}", what()), &a.clone().view(), x);
    // through an enum; assigning a clone replaces the whole content
    let (ea, eb): (All, All) = (a.clone().into(), b.clone().into());
    laws(c, &what, &ea, &eb, x == y);
    let mut t = a.clone();
    t.clone_from(&b);
    c.check("clone", t == b && t.view() == *y && a.view() == *x, || format!("clone_from of {}: {:?}", what(), t));
    // one value at a later time
    c.check("equality", a == T::make(x).unwrap() && a.view() == *x, || format!("{} changes", what()));
}
macro_rules! law_rows {
    ($($t:ident),*) => {
        fn law_table() -> Vec<Law> {
            vec![$(Law { cp: <$t as View>::CP, vals: law_vals(<$t as View>::CP), run: law::<$t> }),*]
        }
    };
}
for_all_attrs!(law_rows);
/// Values differing in one bit or one character from each other, besides the boundary values.
fn law_vals(cp: u16) -> Vec<Val> {
    let k = kind_of(cp).unwrap();
    let mut v = real_vals(k);
    match k {
        Kind::U64 => v.extend((0..64).map(|i| Val::U(1 << i))),
        Kind::U32 | Kind::Fp => v.extend((0..32).map(|i| Val::U(1 << i))),
        Kind::Port => v.extend((0..16).map(|i| Val::U(1 << i))),
        Kind::Trans => v.extend((0..8).map(|i| Val::U(1 << i))),
        Kind::Chan => v.extend((0..12).map(|i| Val::U(0x4000 | 1 << i))),
        Kind::Mi => v.extend((0..160).map(|i| {
            let mut b = vec![0; 20];
            b[i / 8] = 1 << (i % 8);
            Val::Bytes(b)
        })),
        Kind::Bytes => v.extend((0..32).map(|i| {
            let mut b = vec![0x5a; 9];
            b[i / 4] ^= 1 << (i % 4 * 2);
            Val::Bytes(b)
        })),
        Kind::Addr | Kind::Xor => {
            for i in 0..16 {
                v.push(Val::Addr(format!("0.0.0.0:{}", 1u16 << i).parse().unwrap()));
                let mut o = [0u8; 16];
                o[i] = 1;
                v.push(Val::Addr((o, 0).into()));
                if i < 4 {
                    v.push(Val::Addr(([o[0], o[1], o[2], o[3]], 0).into()));
                }
            }
        }
        Kind::ErrCode => {
            v.extend([(420, "reason"), (420, "Reason "), (421, "Reason"), (320, "Reason"), (520, "Reason"), (402, "Reason")].map(|(c, r)| Val::Err(c, r.into())));
        }
        Kind::Types => v.extend([vec![0x7fff, 0x7fff], vec![0x8000, 1], vec![1], vec![0], vec![0, 0], vec![0x0100]].map(Val::Types)),
        Kind::Str | Kind::User => v.extend(["abd", "Abc", "abc ", "\u{e9}", "e\u{301}"].map(|s| Val::Str(s.into()))),
        _ => {}
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
/// Copies of one message and what each must contain.
struct Copies<S: AttrSet + Clone> {
    msgs: Vec<Option<(Message<S>, Seen, Vec<u8>)>>,
}
fn check_copy<S: AttrSet + Clone>(c: &mut Case, m: &Message<S>, want: &Seen, what: &dyn Fn() -> String) -> bool {
    c.op(1);
    let got = see(m);
    c.eq("copies", || format!("{}: content", what()), &got, want)
}
pub fn c26(x: &mut Ctx) {
    x.assumptions.push("MESSAGE-INTEGRITY values also remember the message they protect: only values made alike are demanded equal".into());
    let table = law_table();
    let m = table.iter().map(|l| l.vals.len()).max().unwrap();
    x.space("values", &format!("all pairs of up to {} values of each of the 32 types: boundary values and one-bit neighbours", m), (table.len() * m * m) as u64, |c, i| {
        let mut ix = Ix(i);
        let l = &table[ix.take(table.len())];
        let (a, b) = (ix.take(m), ix.take(m));
        if a >= l.vals.len() || b >= l.vals.len() {
            return c.skip();
        }
        c.state(&(l.cp, a, b));
        c.sample(|| format!("{}: {:?} and {:?}", name_of(l.cp), l.vals[a], l.vals[b]));
        (l.run)(c, l.cp, &l.vals[a], &l.vals[b]);
    });
    let w: Vec<(usize, Val)> = table
        .iter()
        .enumerate()
        .filter(|(_, l)| !matches!(kind_of(l.cp).unwrap(), Kind::Fp | Kind::Mi))
        .flat_map(|(j, l)| wide(kind_of(l.cp).unwrap()).into_iter().map(move |v| (j, v)))
        .collect();
    let strides = [0usize, 1, 2, 3, 16, 23, 128, 256];
    x.space("wide-values", &format!("{} values (complete or wide domains of each type) against themselves and {} others of that type", w.len(), strides.len() - 1), (w.len() * strides.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let (d, p) = (strides[ix.take(strides.len())], ix.take(w.len()));
        let (j, a) = &w[p];
        match w.get(p + d) {
            Some((k, b)) if j == k => {
                c.state(&i);
                (table[*j].run)(c, table[*j].cp, a, b)
            }
            _ => c.skip(),
        }
    });
    // every value differing from a base in one byte, for text and byte strings of every length
    let texts: Vec<u16> = vec![0x0006, 0x0014, 0x0015, 0x8022, 0x0013, 0x8030, 0x0009, 0x000A];
    let maxl = x.pick(24usize, 64);
    x.space("positions", &format!("{} variable-length types: values of 0..={} elements and each with one element changed, one more, one less", texts.len(), maxl), (texts.len() * (maxl + 1) * (maxl + 1)) as u64, |c, i| {
        let mut ix = Ix(i);
        let (t, n, p) = (ix.take(texts.len()), ix.take(maxl + 1), ix.take(maxl + 1));
        if p > n {
            return c.skip();
        }
        let cp = texts[t];
        let mk = |s: &[u8]| match kind_of(cp).unwrap() {
            Kind::Bytes => Val::Bytes(s.to_vec()),
            Kind::ErrCode => Val::Err(400, String::from_utf8(s.to_vec()).unwrap()),
            Kind::Types => Val::Types(s.iter().map(|b| *b as u16 * 0x101).collect()),
            _ => Val::Str(String::from_utf8(s.to_vec()).unwrap()),
        };
        let base: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
        let mut other = base.clone();
        if p == n {
            other.push(0);
        } else {
            other[p] ^= 0x20;
        }
        let l = table.iter().find(|l| l.cp == cp).unwrap();
        c.state(&i);
        c.sample(|| format!("{} {:?} and {:?}", name_of(cp), mk(&base), mk(&other)));
        (l.run)(c, cp, &mk(&base), &mk(&other));
        (l.run)(c, cp, &mk(&base), &mk(&base));
        if p < n {
            other.remove(p);
            (l.run)(c, cp, &mk(&base), &mk(&other));
        }
    });
    // different types never compare equal, whatever their content
    let all: Vec<MAttr> = attrs_few().into_iter().chain(attrs_full().into_iter().filter(|a| matches!(a.body, Body::Known(Val::U(0..=2)) | Body::Known(Val::Unit)))).collect();
    let resolved = |a: &MAttr| resolve(MMsg { class: 0, method: 1, tid: TID, attrs: vec![a.clone()] }).attrs.remove(0);
    let all: Vec<MAttr> = all.iter().map(resolved).collect();
    let n = all.len();
    x.space("types", &format!("all pairs of {} attributes of different types in one enum", n), (n * n) as u64, |c, i| {
        let (a, b) = (&all[i as usize % n], &all[i as usize / n]);
        let (Body::Known(va), Body::Known(vb)) = (&a.body, &b.body) else { unreachable!() };
        c.state(&i);
        c.sample(|| format!("{:?} and {:?}", a, b));
        let (Some(p), Some(q)) = (All::make(a.cp, va), All::make(b.cp, vb)) else {
            c.fail("constructor", || format!("{:?} or {:?} refused", a, b));
            return;
        };
        laws(c, &|| format!("{} and {}", name_of(a.cp), name_of(b.cp)), &p, &q, a == b);
    });
    // durations with fractions of a second, which LIFETIME cannot carry
    let secs = [0u64, 1, 2, 600, 601, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let nanos = [0u32, 1, 499_999_999, 500_000_000, 999_999_999];
    x.space("lifetimes", "all pairs of lifetimes of 9 seconds x 5 fractions: they are made of whole seconds", 45 * 45, |c, i| {
        let mut ix = Ix(i);
        let v = [(secs[ix.take(9)], nanos[ix.take(5)]), (secs[ix.take(9)], nanos[ix.take(5)])];
        c.state(&v);
        c.sample(|| format!("{:?}", v));
        let l: Vec<_> = v.iter().filter_map(|(s, n)| rfc5766::attributes::Lifetime::new(std::time::Duration::new(*s, *n)).ok()).collect();
        if !c.check("constructor", l.len() == 2, || format!("{:?} refused", v)) {
            return;
        }
        laws(c, &|| format!("lifetimes of {:?}", v), &l[0], &l[1], v[0].0 == v[1].0);
        for (l, v) in l.iter().zip(v) {
            c.eq("content", || format!("lifetime of {:?}", v), &l.lifetime(), &std::time::Duration::from_secs(v.0));
        }
    });
    // SOFTWARE made of a static text, of the same text elsewhere, of an owned one, received, and copied
    let mut texts: Vec<String> = ["", "a", "b", "ab", "abc", "abd", "abcd", "software", "Software", "\u{e9}", "\u{65e5}\u{672c}", "a\0", "\0"].map(String::from).to_vec();
    texts.extend([31usize, 32, 126, 127].map(|n| "s".repeat(n)));
    let leak = |s: &String| -> &'static str { Box::leak(s.clone().into_boxed_str()) };
    let statics: Vec<[&'static str; 2]> = texts.iter().map(|s| [leak(s), leak(s)]).collect();
    let n = texts.len();
    x.space("software", &format!("all pairs of SOFTWARE values of {} texts, each made of a static text, the same at another address, an owned text, received, and copied; alone and in an enum", n), (n * n * 25) as u64, |c, i| {
        let mut ix = Ix(i);
        let (p, q, f, g) = (ix.take(n), ix.take(n), ix.take(5), ix.take(5));
        let mk = |p: usize, f: usize| -> Option<Software> {
            Some(match f {
                0 | 1 => Software::new_static(statics[p][f]),
                2 => Software::new(texts[p].clone()).ok()?,
                3 => {
                    let b = wire_msg(0x0101, &[(0x8022, texts[p].as_bytes().to_vec())]);
                    feed_whole(&mut MessageDecoder::<All>::new(), &b).1?.get_attribute::<Software>()?.clone()
                }
                _ => Software::new_static(statics[p][0]).clone(),
            })
        };
        c.state(&i);
        c.sample(|| format!("{:?} {} and {:?} {}", texts[p], f, texts[q], g));
        let (Some(a), Some(b)) = (mk(p, f), mk(q, g)) else { return c.fail("constructor", || format!("{:?} or {:?} refused", texts[p], texts[q])) };
        let say = || format!("SOFTWARE {:?} (form {}) and {:?} (form {})", texts[p], f, texts[q], g);
        laws(c, &say, &a, &b, p == q);
        laws(c, &say, &All::from(a), &All::from(b), p == q);
    });
    // a copied MESSAGE-INTEGRITY still checks the message it was made for or received in
    let creds: [(Option<(&str, &str)>, &str); 6] = [(None, ""), (None, "p"), (None, "q"), (Some(("u", "r")), "p"), (Some(("u", "r")), "q"), (Some(("u", "s")), "p")];
    let creds: Vec<(Option<(Username, Realm)>, &str)> = creds
        .iter()
        .map(|(l, p)| (l.map(|(u, r)| (Username::new(u.into()).expect("short"), Realm::new(r.into()).expect("short"))), *p))
        .collect();
    let verdict = |i: &MessageIntegrity, k: usize| match &creds[k].0 {
        None => i.check_short_term_credential(creds[k].1).is_ok(),
        Some((u, r)) => i.check_long_term_credential(u, r, creds[k].1).is_ok(),
    };
    let carriers = attrs_full();
    let nc = carriers.len();
    x.space("integrity", &format!("MESSAGE-INTEGRITY made with 6 credentials for messages with none or one of {} attributes, made, received, copied in 6 ways: checked with all of them", nc), ((nc + 1) * 6 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let (k, received, a) = (ix.take(6), ix.take(2) == 1, ix.take(nc + 1));
        let m = msg((i % 4) as u8, 1, TID, carriers.get(a).into_iter().cloned().collect());
        c.state(&i);
        c.sample(|| format!("{} credential {}", crate::p_msg::brief(&m), k));
        let Ok(mut real) = build::<All>(&m) else { return c.skip() };
        let made = match &creds[k].0 {
            None => MessageIntegrity::new_short_term_credential(&real, creds[k].1),
            Some((u, r)) => MessageIntegrity::new_long_term_credential(&real, u, r, creds[k].1),
        };
        let Ok(made) = made else { return c.skip() };
        real.add_attribute(made);
        if received {
            let Ok(Ok(m)) = encode(real).and_then(|b| bytecodec::DecodeExt::decode_from_bytes(&mut MessageDecoder::<All>::new(), &b)) else {
                return c.fail("received", || format!("{} with MESSAGE-INTEGRITY does not come back", crate::p_msg::brief(&m)));
            };
            real = m;
        }
        let last = |m: &Message<All>| m.attributes().last().and_then(|a| stun_codec::convert::TryAsRef::<MessageIntegrity>::try_as_ref(a)).cloned();
        let known = real.attributes().last().cloned();
        let Some(orig) = real.attributes().last().and_then(|a| stun_codec::convert::TryAsRef::<MessageIntegrity>::try_as_ref(a)) else {
            return c.fail("lookup", || format!("{}: no MESSAGE-INTEGRITY at the end", crate::p_msg::brief(&m)));
        };
        let mut other = MessageIntegrity::new_short_term_credential(&Message::<All>::new(stun_codec::MessageClass::Request, stun_codec::rfc5389::methods::BINDING, TransactionId::new([1; 12])), "other").expect("small");
        other.clone_from(orig);
        let mut over = Message::<All>::new(stun_codec::MessageClass::Indication, stun_codec::rfc5389::methods::BINDING, TransactionId::new([2; 12]));
        over.clone_from(&real);
        let mut moved = Message::<All>::new(stun_codec::MessageClass::Request, stun_codec::rfc5389::methods::BINDING, TransactionId::new([3; 12]));
        moved.add_attribute(known.expect("looked up above"));
        let copies: Vec<(&str, Option<MessageIntegrity>)> = vec![
            ("clone", Some(orig.clone())),
            ("clone of a clone", Some(orig.clone().clone())),
            ("clone_from", Some(other)),
            ("in a clone of the message", last(&real.clone())),
            ("in a message made a copy by clone_from", last(&over)),
            ("as an attribute of another message", last(&moved)),
        ];
        c.op(6 * 7);
        for j in 0..6 {
            c.check("original", verdict(orig, j) == (j == k), || format!("{}: made with credential {}, checked with {}: {}", crate::p_msg::brief(&m), k, j, verdict(orig, j)));
        }
        for (how, copy) in &copies {
            let Some(copy) = copy else { return c.fail("lookup", || format!("{}: MESSAGE-INTEGRITY {} is gone", crate::p_msg::brief(&m), how)) };
            for j in 0..6 {
                c.check("copy", verdict(copy, j) == (j == k) && copy == orig && copy.hmac_sha1() == orig.hmac_sha1(), || {
                    format!("{}: MESSAGE-INTEGRITY made with credential {}, {}, checked with {}: {}", crate::p_msg::brief(&m), k, how, j, verdict(copy, j))
                });
            }
        }
    });
    // what was sent equals what is received
    let full = attrs_full();
    let few = attrs_few();
    let (nf, nw) = (full.len(), few.len());
    x.space("received", &format!("each of {} attributes alone, and before and after each of {}: sent message's attributes == received message's", nf, nw), (nf * (2 * nw + 1)) as u64, |c, i| {
        let mut ix = Ix(i);
        let (f, w) = (ix.take(nf), ix.take(2 * nw + 1));
        let mut attrs = vec![full[f].clone()];
        if w > 0 {
            attrs.insert(w % 2, few[(w - 1) / 2].clone());
        }
        let m = msg(2, 1, TID, attrs);
        c.state(&i);
        c.sample(|| format!("{:?}", m));
        let sent = match build::<All>(&m) {
            Ok(s) => s,
            Err(e) => return c.fail("build", || e),
        };
        let b = match encode(sent.clone()) {
            Ok(b) => b,
            Err(e) => return c.fail("encode", || format!("{:?}: {}", m, e)),
        };
        c.op(3);
        let (obs, got, _) = feed_whole(&mut MessageDecoder::<All>::new(), &b);
        let (_, again, _) = feed_whole(&mut MessageDecoder::<All>::new(), &b);
        let (Some(got), Some(again)) = (got, again) else { return c.fail("decode", || format!("{:?}: {:?}", m, obs)) };
        c.check("received", got.attributes().count() == m.attrs.len() && again.attributes().eq(got.attributes()), || format!("{:?} received twice: {:?} and {:?}", m, got, again));
        let plain = |a: &&All| a.integrity().is_none();
        c.check("received", sent.attributes().filter(plain).eq(got.attributes().filter(plain)), || format!("sent {:?} but received {:?}", sent, got));
        c.check("hash", sent.attributes().filter(plain).map(fx).eq(got.attributes().filter(plain).map(fx)), || format!("sent {:?} and received {:?} have different hashes", sent, got));
        c.check("received", sent.class() == got.class() && sent.method() == got.method() && sent.transaction_id() == got.transaction_id(), || format!("{:?}: header", m));
        c.outcome("received");
    });
    // numbers are ordered as numbers
    x.space("method-order", "all pairs of the 4096 methods: equality, hash and order are those of the numbers", 4096, |c, i| {
        let a = Method::new(i as u16).expect("below 0x1000");
        c.state(&i);
        c.op(4096);
        for k in 0..4096u16 {
            let b = Method::new(k).expect("below 0x1000");
            let want = (i as u16).cmp(&k);
            if !(a.cmp(&b) == want && a.partial_cmp(&b) == Some(want) && (a == b) == want.is_eq() && (!want.is_eq() || fx(&a) == fx(&b))) {
                return c.fail("order", || format!("methods {:#x} and {:#x}: {:?} {}", i, k, a.cmp(&b), a == b));
            }
            c.checked();
        }
        c.check("display", a.to_string() == Method::new(i as u16).unwrap().to_string(), || format!("method {}", i));
    });
    x.space("type-order", "all attribute types against 0..=0x100, 0x7f00..=0x8100, 0xff00.. and their neighbours", 65536, |c, i| {
        let a = AttributeType::new(i as u16);
        c.state(&i);
        let around = [i.wrapping_sub(1), i + 1, i ^ 0x8000, i ^ 1, i ^ 0x100, i.swap_bytes() >> 48];
        for k in (0..=0x100u64).chain(0x7f00..=0x8100).chain(0xff00..=0xffff).chain(around).filter(|k| *k <= 0xffff) {
            let b = AttributeType::from(k as u16);
            let want = i.cmp(&k);
            if !(a.cmp(&b) == want && a.partial_cmp(&b) == Some(want) && (a == b) == want.is_eq() && (!want.is_eq() || fx(&a) == fx(&b))) {
                return c.fail("order", || format!("types {:#x} and {:#x}: {:?} {}", i, k, a.cmp(&b), a == b));
            }
            c.checked();
        }
        c.op(1);
    });
    x.space("channel-order", "all pairs of the 4096 channel numbers", 4096, |c, i| {
        let a = rfc5766::attributes::ChannelNumber::new(0x4000 + i as u16).expect("in range");
        c.state(&i);
        c.op(4096);
        for k in 0..4096u16 {
            let b = rfc5766::attributes::ChannelNumber::new(0x4000 + k).expect("in range");
            let want = (i as u16).cmp(&k);
            if !(a.cmp(&b) == want && a.partial_cmp(&b) == Some(want) && (a == b) == want.is_eq() && (!want.is_eq() || fx(&a) == fx(&b))) {
                return c.fail("order", || format!("channels {} and {}: {:?} {}", i, k, a.cmp(&b), a == b));
            }
            c.checked();
        }
    });
    // transaction ids: lexicographic, every byte counts
    let mut ids: Vec<[u8; 12]> = tids();
    for p in 0..12 {
        for v in [1u8, 0x7f, 0x80, 0xff] {
            let mut t = [0; 12];
            t[p] = v;
            ids.push(t);
            let mut t = TID;
            t[p] ^= v;
            ids.push(t);
            let mut t = [0xff; 12];
            t[p] = v;
            ids.push(t);
        }
    }
    let n = ids.len();
    x.space("id-order", &format!("all pairs of {} transaction ids differing in every byte position", n), (n * n) as u64, |c, i| {
        let (p, q) = (ids[i as usize % n], ids[i as usize / n]);
        let (a, b) = (TransactionId::new(p), TransactionId::new(q));
        c.state(&i);
        c.sample(|| format!("{} {}", hex(&p), hex(&q)));
        c.op(3);
        c.check("order", a.cmp(&b) == p.cmp(&q) && a.partial_cmp(&b) == Some(p.cmp(&q)), || format!("{:?} and {:?}: {:?}", a, b, a.cmp(&b)));
        laws(c, &|| "transaction ids".into(), &a, &b, p == q);
        c.eq("content", || format!("bytes of {:?}", a), a.as_bytes(), &p);
        c.eq("content", || format!("bytes of {:?}", a), &AsRef::<[u8]>::as_ref(&a), &&p[..]);
        c.check("display", (format!("{:?}", a) == format!("{:?}", b)) == (p == q), || format!("{:?} and {:?} look the same", a, b));
    });
    copies_space::<All>(x, "copies");
    copies_space::<A5389>(x, "copies-rfc5389");
    copies_space::<RawAttributeSet>(x, "copies-raw");
    extended_space::<All>(x, "extended");
    extended_space::<A5389>(x, "extended-rfc5389");
    extended_space::<RawAttributeSet>(x, "extended-raw");
    // copies of broken messages
    let mut bad = brokens();
    bad.extend(bases().into_iter().map(|mut b| {
        b[3] = b[3].wrapping_add(4);
        let l = b.len();
        b.resize(l + 3, 0);
        b
    }));
    x.space("broken", &format!("clones of the broken messages of {} inputs, used after the original is gone", bad.len()), bad.len() as u64, |c, i| {
        let mut d = MessageDecoder::<All>::new();
        let b = &bad[i as usize];
        c.state(b);
        c.sample(|| hex(b));
        c.op(1);
        let n = d.decode(b, Eos::new(true)).unwrap_or(0);
        let Ok(Err(m)) = d.finish_decoding() else { return c.skip() };
        let seen = |m: &BrokenMessage| (broken_obs(m), *m.error().kind(), format!("{:?}", m));
        let before = seen(&m);
        let k = m.clone();
        c.check("copies", seen(&k) == before && seen(&m) == before, || format!("clone {:?} of {:?}", k, m));
        drop(m);
        let kk = k.clone();
        let e = bytecodec::Error::from(k);
        c.check("copies", seen(&kk) == before, || format!("clone {:?} after its original was converted to {}", kk, e));
        let _ = n;
        c.outcome("broken");
    });
}
/// `RawAttribute` as the set of no known types: every attribute is kept raw.
#[derive(Debug, Clone)]
pub struct RawAttributeSet(RawAttribute);
impl Attribute for RawAttributeSet {
    type Decoder = RawSetDecoder;
    type Encoder = RawSetEncoder;
    fn get_type(&self) -> AttributeType {
        self.0.get_type()
    }
}
#[derive(Debug, Default)]
pub struct RawSetDecoder(stun_codec::RawAttributeDecoder);
#[derive(Debug, Default)]
pub struct RawSetEncoder(stun_codec::RawAttributeEncoder);
impl Decode for RawSetDecoder {
    type Item = RawAttributeSet;
    fn decode(&mut self, b: &[u8], e: Eos) -> bytecodec::Result<usize> {
        self.0.decode(b, e)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<RawAttributeSet> {
        self.0.finish_decoding().map(RawAttributeSet)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl bytecodec::TryTaggedDecode for RawSetDecoder {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> bytecodec::Result<bool> {
        self.0.try_start_decoding(t)
    }
}
impl Encode for RawSetEncoder {
    type Item = RawAttributeSet;
    fn encode(&mut self, b: &mut [u8], e: Eos) -> bytecodec::Result<usize> {
        self.0.encode(b, e)
    }
    fn start_encoding(&mut self, i: RawAttributeSet) -> bytecodec::Result<()> {
        self.0.start_encoding(i.0)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl SizedEncode for RawSetEncoder {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}
impl AttrSet for RawAttributeSet {
    fn cps() -> Vec<u16> {
        vec![]
    }
    fn cv(&self) -> (u16, Val) {
        (self.0.get_type().as_u16(), Val::Bytes(self.0.value().to_vec()))
    }
    fn make(cp: u16, v: &Val) -> Option<Self> {
        let v = match (v, kind_of(cp)) {
            (Val::Bytes(b), None) => b.clone(),
            (v, Some(k)) => encode_value(if k == Kind::Xor { Kind::Addr } else { k }, v, &TID),
            _ => return None,
        };
        Some(RawAttributeSet(RawAttribute::new(AttributeType::new(cp), v)))
    }
}
/// What was received stays as it is on the wire, whatever is added behind it.
fn extended_space<S: AttrSet + Clone>(x: &mut Ctx, name: &str) {
    let pads: [[u8; 3]; 4] = [[0; 3], [7, 8, 9], [0xff; 3], [0x80, 0x28, 0]];
    let small = attrs_small();
    let types: Vec<u16> = all_specs().map(|s| s.cp).collect();
    let (ns, nt) = (small.len(), types.len());
    let adds: Vec<(u16, Val)> = vec![(0x20, Val::Addr("[2001:db8::1]:3478".parse().unwrap())), (0x8022, Val::Str("abcde".into())), (6, Val::Str("".into())), (0x13, Val::Bytes(vec![7]))];
    let na = adds.len();
    x.space(name, &format!("received messages of each of {} attributes (all types and small lengths, and unknown ones) before and behind each of {} types, with 4 paddings, copied or not, then 0..=2 of {} attributes added", ns, nt, na), (ns * nt * 2 * 4 * 2 * (1 + na + na * na)) as u64, |c, i| {
        let mut ix = Ix(i);
        let a = &small[ix.take(ns)];
        let cp = types[ix.take(nt)];
        let swap = ix.take(2) == 1;
        let (pad, copy) = (&pads[ix.take(4)], ix.take(2) == 1);
        let mut k = ix.take(1 + na + na * na);
        let mut l = vec![];
        if k > na {
            k -= na + 1;
            l.push(&adds[k / na]);
            l.push(&adds[k % na]);
        } else if k > 0 {
            l.push(&adds[k - 1]);
        }
        let other = wire(cp, i as usize % 3);
        let v = match &a.body {
            Body::Known(v) => encode_value(kind_of(a.cp).unwrap(), v, &TID),
            Body::Raw(b) => b.clone(),
        };
        let p = |cp: u16, v: &[u8]| padded(cp, v, &pad[..padlen(v.len())]);
        let mut parts = vec![p(a.cp, &v), p(cp, &other)];
        if swap {
            parts.reverse();
        }
        parts.insert(1, p(0x7000 + cp % 256, &[1, 2, 3, 4, 5][..i as usize % 5]));
        let b = frame(0x0101, &parts.concat());
        c.state(&i);
        c.sample(|| format!("{} and then {:?}", hex(&b), l));
        let (_, Some(mut m), _) = feed_whole(&mut MessageDecoder::<S>::new(), &b) else { return c.skip() };
        let kept = if copy { Some(m.clone()) } else { None };
        let mut want = b.clone();
        for (cp, v) in &l {
            let raw = S::cps().is_empty() && kind_of(*cp) == Some(Kind::Xor);
            let Some(x) = S::make(*cp, v) else { return c.skip() };
            m.add_attribute(x);
            want.extend(tlv(*cp, &encode_value(if raw { Kind::Addr } else { kind_of(*cp).unwrap() }, v, &TID), None));
        }
        let n = (want.len() - 20) as u16;
        want[2..4].copy_from_slice(&n.to_be_bytes());
        c.op(3 + l.len() as u64);
        let got = encode(m).map_err(|e| e.to_string());
        if !c.check("extended", got.as_ref() == Ok(&want), || format!("{} with {:?} added encodes {:?} instead of {}", hex(&b), l, got.as_ref().map(|b| hex(b)), hex(&want))) {
            return;
        }
        if let Some(m) = kept {
            let got = encode(m).map_err(|e| e.to_string());
            c.check("extended", got.as_ref() == Ok(&b), || format!("copy of {} with {:?} added to the original encodes {:?}", hex(&b), l, got.as_ref().map(|b| hex(b))));
        }
        c.outcome("extended");
    });
}
/// All sequences of copying, extending, dropping and encoding a message and its copies.
fn copies_space<S: AttrSet + Clone>(x: &mut Ctx, name: &str) {
    let depth = x.pick(if name == "copies" { 6u32 } else { 5 }, if name == "copies" { 7 } else { 6 });
    const SLOTS: usize = 3;
    let adds: Vec<(u16, Val)> = vec![(0x20, Val::Addr("[2001:db8::1]:3478".parse().unwrap())), (0x8022, Val::Str("abcde".into()))];
    // received messages: attributes of unknown types, non-zero padding, digests
    let mut start: Vec<Vec<u8>> = vec![wire_msg(0x0101, &[])];
    start.push(frame(0x0101, &[padded(0x8022, b"a", &[7, 8, 9]), padded(0x7777, &[1, 2], &[3, 4]), tlv(0x20, &wire(0x20, 4), None)].concat()));
    start.push(wire_msg(0x0101, &[(0x7001, vec![5]), (8, vec![]), (0x8028, vec![])]));
    start.push(frame(0x0111, &[padded(0x7777, &[1, 2], &[3, 4]), padded(0x8022, b"a", &[7, 8, 9])].concat()));
    let alphabet = SLOTS * adds.len() + 3 * SLOTS;
    let total = start.len() as u64 * (alphabet as u64).pow(depth);
    x.space(name, &format!("all {} sequences of {} operations (add one of {} attributes, clone, drop, encode; up to {} copies) after {} received messages", alphabet.pow(depth), depth, adds.len(), SLOTS, start.len()), total, |c, i| {
        let mut ix = Ix(i);
        let s = ix.take(start.len());
        let ops: Vec<usize> = (0..depth).map(|_| ix.take(alphabet)).collect();
        let (_, Some(m), _) = feed_whole(&mut MessageDecoder::<S>::new(), &start[s]) else { return c.fail("decode", || hex(&start[s])) };
        let seen = see(&m);
        let mut k = Copies { msgs: vec![Some((m, seen, start[s].clone()))] };
        c.sample(|| format!("start {} ops {:?}", s, ops));
        for (n, op) in ops.iter().enumerate() {
            let (slot, what) = (op % SLOTS, op / SLOTS);
            if slot >= k.msgs.len() || k.msgs[slot].is_none() {
                // nothing there: explored as the shorter sequence
                return c.skip();
            }
            c.op(1);
            if what < adds.len() {
                let (cp, v) = &adds[what];
                let (m, seen, bytes) = k.msgs[slot].as_mut().unwrap();
                let Some(a) = S::make(*cp, v) else { return c.skip() };
                seen.known.push(a.cv());
                // the value of an XOR address in a message goes out obfuscated, raw values as they are
                let raw = S::cps().is_empty() && kind_of(*cp) == Some(Kind::Xor);
                let val = encode_value(if raw { Kind::Addr } else { kind_of(*cp).unwrap() }, v, &TID);
                bytes.extend(tlv(*cp, &val, None));
                let l = (bytes.len() - 20) as u16;
                bytes[2..4].copy_from_slice(&l.to_be_bytes());
                m.add_attribute(a);
            } else if what == adds.len() {
                if k.msgs.len() == SLOTS {
                    return c.skip();
                }
                let copy = k.msgs[slot].as_ref().unwrap().clone();
                k.msgs.push(Some(copy));
            } else if what == adds.len() + 1 {
                k.msgs[slot] = None;
            } else {
                let (m, _, bytes) = k.msgs[slot].take().unwrap();
                let got = encode(m).map_err(|e| e.to_string());
                // digests and addresses of received messages go out as received
                if !c.check("copies", got.as_ref() == Ok(&bytes), || format!("start {} ops {:?}: step {} encodes {:?} instead of {}", s, ops, n, got.as_ref().map(|b| hex(b)), hex(&bytes))) {
                    return;
                }
                c.outcome("encoded");
            }
            for (j, e) in k.msgs.iter().enumerate() {
                if let Some((m, seen, _)) = e {
                    if !check_copy(c, m, seen, &|| format!("start {} ops {:?}: copy {} after step {}", s, ops, j, n)) {
                        return;
                    }
                }
            }
        }
        c.state(&(s, &ops));
        for (j, e) in k.msgs.into_iter().enumerate() {
            if let Some((m, _, bytes)) = e {
                let got = encode(m).map_err(|e| e.to_string());
                c.op(1);
                if !c.check("copies", got.as_ref() == Ok(&bytes), || format!("start {} ops {:?}: copy {} encodes {:?} instead of {}", s, ops, j, got.as_ref().map(|b| hex(b)), hex(&bytes))) {
                    return;
                }
            }
        }
        c.outcome("copied");
    });
}

// ---------------------------------------------------------------- C27
/// A user-defined attribute: every call the library makes on it is a scheduling point, and may use the library itself.
mod slow {
    use super::*;
    use bytecodec::fixnum::{U32beDecoder, U32beEncoder};
    use bytecodec::{Result, TryTaggedDecode};
    use std::cell::RefCell;
    use std::rc::Rc;
    pub const POINTS: [&str; 13] = ["clone", "get_type", "before_encode", "after_decode", "decode", "finish_decoding", "decoder is_idle", "decoder requiring_bytes", "try_start_decoding", "encode", "start_encoding", "encoder is_idle", "exact_requiring_bytes"];
    thread_local! {
        /// What the attribute does at point k, for the n-th time.
        pub static ACT: RefCell<Option<Rc<dyn Fn(usize)>>> = const { RefCell::new(None) };
    }
    fn at(k: usize) {
        gate::point(false);
        let act = ACT.with(|a| a.borrow().clone());
        if let Some(act) = act {
            act(k);
        }
    }
    #[derive(Debug, PartialEq, Eq, Hash)]
    pub struct Slow(pub u32);
    impl Slow {
        pub const CODEPOINT: u16 = 0x7055;
    }
    impl Clone for Slow {
        fn clone(&self) -> Slow {
            at(0);
            Slow(self.0)
        }
    }
    impl Attribute for Slow {
        type Decoder = SlowDecoder;
        type Encoder = SlowEncoder;
        fn get_type(&self) -> AttributeType {
            at(1);
            AttributeType::new(Self::CODEPOINT)
        }
        fn before_encode<A: Attribute>(&mut self, _: &Message<A>) -> Result<()> {
            at(2);
            Ok(())
        }
        fn after_decode<A: Attribute>(&mut self, _: &Message<A>) -> Result<()> {
            at(3);
            Ok(())
        }
    }
    #[derive(Debug, Default)]
    pub struct SlowDecoder(U32beDecoder);
    impl Decode for SlowDecoder {
        type Item = Slow;
        fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
            at(4);
            self.0.decode(buf, eos)
        }
        fn finish_decoding(&mut self) -> Result<Slow> {
            at(5);
            self.0.finish_decoding().map(Slow)
        }
        fn is_idle(&self) -> bool {
            at(6);
            self.0.is_idle()
        }
        fn requiring_bytes(&self) -> ByteCount {
            at(7);
            self.0.requiring_bytes()
        }
    }
    impl TryTaggedDecode for SlowDecoder {
        type Tag = AttributeType;
        fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
            at(8);
            Ok(t.as_u16() == Slow::CODEPOINT)
        }
    }
    #[derive(Debug, Default)]
    pub struct SlowEncoder(U32beEncoder);
    impl Encode for SlowEncoder {
        type Item = Slow;
        fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
            at(9);
            self.0.encode(buf, eos)
        }
        fn start_encoding(&mut self, s: Slow) -> Result<()> {
            at(10);
            self.0.start_encoding(s.0)
        }
        fn is_idle(&self) -> bool {
            at(11);
            self.0.is_idle()
        }
        fn requiring_bytes(&self) -> ByteCount {
            self.0.requiring_bytes()
        }
    }
    impl SizedEncode for SlowEncoder {
        fn exact_requiring_bytes(&self) -> u64 {
            at(12);
            self.0.exact_requiring_bytes()
        }
    }
    stun_codec::define_attribute_enums!(SlowSet, SlowSetDecoder, SlowSetEncoder, [Slow, XorMappedAddress, Software, MessageIntegrity, Fingerprint]);
    use stun_codec::rfc5389::attributes::{Fingerprint, MessageIntegrity, Software, XorMappedAddress};
}
use slow::{Slow, SlowSet};
/// Makes, seals, sends, receives and checks a message with user-defined attributes; `bare`: these alone are known.
fn slow_exchange(v: u32) -> String {
    let a: std::net::SocketAddr = ([10, 0, 0, v as u8], 99).into();
    let mut log = vec![];
    let mut m = Message::<SlowSet>::new(class(2), Method::new(1).unwrap(), TransactionId::new([v as u8; 12]));
    m.add_attribute(Slow(v));
    m.add_attribute(stun_codec::rfc5389::attributes::XorMappedAddress::new(a));
    m.add_attribute(Slow(!v));
    match MessageIntegrity::new_short_term_credential(&m, PW) {
        Ok(mi) => m.add_attribute(mi),
        Err(e) => log.push(e.to_string()),
    }
    match Fingerprint::new(&m) {
        Ok(f) => m.add_attribute(f),
        Err(e) => log.push(e.to_string()),
    }
    let b = encode(m).unwrap_or_default();
    log.push(hex(&b));
    let mut d = MessageDecoder::<SlowSet>::new();
    for (from, to) in [(0, 23), (23, 26), (26, b.len())] {
        log.push(format!("{:?} {:?}", d.decode(b.get(from..to.max(from)).unwrap_or(&[]), Eos::new(to == b.len())).ok(), d.requiring_bytes()));
    }
    match d.finish_decoding() {
        Ok(Ok(m)) => {
            log.push(format!("{:?}", m.attributes().filter(|a| !matches!(a, SlowSet::MessageIntegrity(_))).collect::<Vec<_>>()));
            log.push(format!("{:?}", m.get_attribute::<MessageIntegrity>().map(|mi| mi.check_short_term_credential(PW).map_err(|e| e.code()))));
            log.push(encode(m).map(|b| hex(&b)).unwrap_or_else(|e| e.to_string()));
        }
        r => log.push(format!("{:?}", r.map(|r| r.is_ok()).map_err(|e| e.to_string()))),
    }
    log.join(" | ")
}
/// One user of the library: a codec and its script, advanced one public call at a time.
trait Actor {
    fn steps(&self) -> usize;
    fn step(&mut self, n: usize);
    fn result(&mut self) -> String;
}
type Make = Box<dyn Fn() -> Box<dyn Actor> + Sync>;
struct Script<T, F: FnMut(&mut T, usize)> {
    state: T,
    n: usize,
    f: F,
    out: fn(&mut T) -> String,
}
impl<T, F: FnMut(&mut T, usize)> Actor for Script<T, F> {
    fn steps(&self) -> usize {
        self.n
    }
    fn step(&mut self, n: usize) {
        (self.f)(&mut self.state, n)
    }
    fn result(&mut self) -> String {
        (self.out)(&mut self.state)
    }
}
fn actor<T: 'static, F: FnMut(&mut T, usize) + 'static>(state: T, n: usize, f: F, out: fn(&mut T) -> String) -> Box<dyn Actor> {
    Box::new(Script { state, n, f, out })
}
/// Decodes `bytes` in pieces ending at `cuts`, then takes the item.
fn dec_actor<S: AttrSet>(bytes: Vec<u8>, cuts: Vec<usize>) -> Box<dyn Actor> {
    let n = cuts.len() + 2;
    actor(
        (MessageDecoder::<S>::new(), Vec::<String>::new(), 0usize),
        n,
        move |(d, log, pos), i| {
            if i + 1 == n {
                let (obs, m) = finish(d);
                log.push(format!("{:?}", obs));
                if let Some(m) = m {
                    log.push(encode(m).map(|b| hex(&b)).unwrap_or_else(|e| e.to_string()));
                }
            } else {
                let end = if i < cuts.len() { cuts[i] } else { bytes.len() };
                let r = d.decode(&bytes[*pos..end], Eos::new(i == cuts.len()));
                log.push(match &r {
                    Ok(k) => format!("{} idle={} asks {:?}", k, d.is_idle(), d.requiring_bytes()),
                    Err(e) => format!("{:?}", e.kind()),
                });
                *pos = end;
            }
        },
        |s| s.1.join(" | "),
    )
}
fn enc_actor<S: AttrSet>(m: MMsg, sizes: Vec<usize>) -> Box<dyn Actor> {
    let n = sizes.len() + 1;
    actor(
        (MessageEncoder::<S>::new(), Vec::<String>::new()),
        n,
        move |(e, log), i| {
            if i == 0 {
                match build::<S>(&m) {
                    Ok(m) => log.push(format!("{:?}", e.start_encoding(m).map_err(|e| *e.kind()))),
                    Err(e) => log.push(e),
                }
            } else {
                let mut b = vec![0; sizes[i - 1]];
                match e.encode(&mut b, Eos::new(false)) {
                    Ok(k) => log.push(hex(&b[..k])),
                    Err(x) => log.push(format!("{:?}", x.kind())),
                }
            }
            log.push(format!("idle={} left={}", e.is_idle(), e.exact_requiring_bytes()));
        },
        |s| s.1.join(" "),
    )
}
fn actors() -> Vec<(&'static str, Make)> {
    let k = |cp: u16, i: usize| MAttr::known(cp, vals(kind_of(cp).unwrap())[i].clone());
    let tid2 = [0x5a; 12];
    let w = wire_msg(0x0101, &[(0x8022, b"abcde".to_vec()), (0x20, wire(0x20, 4)), (8, vec![]), (0x8028, vec![])]);
    let mut w2 = frame(0x0113, &[tlv(0x16, &encode_value(Kind::Xor, &Val::Addr("192.0.2.1:99".parse().unwrap()), &tid2), None), padded(0x7777, &[9], &[1, 2, 3]), tlv(0x0A, &[0, 1, 0x80, 2], None)].concat());
    w2[8..20].copy_from_slice(&tid2);
    let broken = brokens()[8].clone();
    let reject = rejects()[3].clone();
    let m1 = msg(0, 1, TID, vec![k(0x8022, 0), k(0x20, 0), k(0x8028, 0)]);
    let m2 = msg(3, 0x123, tid2, vec![k(0x12, 4), k(9, 2), k(0x13, 3), k(0x0A, 2)]);
    let mut v: Vec<(&'static str, Make)> = vec![];
    v.push(("decode in 4", { let w = w.clone(); Box::new(move || dec_actor::<All>(w.clone(), vec![10, 24, 50])) }));
    v.push(("decode in 3", { let w = w2.clone(); Box::new(move || dec_actor::<All>(w.clone(), vec![22, 41])) }));
    v.push(("decode rfc5389", { let w = w.clone(); Box::new(move || dec_actor::<A5389>(w.clone(), vec![30, 37])) }));
    v.push(("decode broken", Box::new(move || dec_actor::<All>(broken.clone(), vec![3, 22]))));
    v.push(("decode rejected", Box::new(move || dec_actor::<All>(reject.clone(), vec![5, 19]))));
    v.push(("encode in 3", { let m = m1.clone(); Box::new(move || enc_actor::<All>(m.clone(), vec![7, 30, 4096])) }));
    v.push(("encode in 4", { let m = m2.clone(); Box::new(move || enc_actor::<All>(m.clone(), vec![21, 3, 20, 4096])) }));
    v.push(("encode refused", Box::new(move || {
        enc_actor::<All>(MMsg { class: 0, method: 1, tid: TID, attrs: vec![k(0x20, 4), MAttr::known(0x13, Val::Bytes(vec![1; 65535]))] }, vec![16, 16])
    })));
    // credentials: made, appended, sealed, sent, received and checked
    for (name, long) in [("short-term exchange", false), ("long-term exchange", true)] {
        let m = if long { m1.clone() } else { m2.clone() };
        v.push((name, Box::new(move || {
            let m = MMsg { attrs: m.attrs.iter().filter(|a| a.cp != 0x8028).cloned().collect(), ..m.clone() };
            let (u, r) = (Username::new("user".into()).unwrap(), Realm::new(if long { "realm" } else { "other" }.into()).unwrap());
            actor(
                (build::<All>(&m).unwrap(), None::<MessageIntegrity>, None::<Fingerprint>, vec![], Vec::<String>::new()),
                6,
                move |(m, mi, fp, bytes, log), i| match i {
                    0 => {
                        *mi = if long { MessageIntegrity::new_long_term_credential(m, &u, &r, PW) } else { MessageIntegrity::new_short_term_credential(m, PW) }.ok();
                        log.push(format!("{:?}", mi.as_ref().map(|m| hex(&m.hmac_sha1()[..]))));
                    }
                    1 => {
                        if let Some(mi) = mi.take() {
                            m.add_attribute(mi);
                        }
                    }
                    2 => {
                        *fp = Fingerprint::new(m).ok();
                        log.push(format!("{:?}", fp));
                        if let Some(fp) = fp.take() {
                            m.add_attribute(fp);
                        }
                    }
                    3 => {
                        *bytes = encode(m.clone()).unwrap_or_default();
                        log.push(hex(bytes));
                    }
                    4 => {
                        let (obs, got, _) = feed_whole(&mut MessageDecoder::<All>::new(), bytes);
                        log.push(format!("{:?}", obs));
                        if let Some(got) = got {
                            *m = got;
                        }
                    }
                    _ => {
                        let mi = m.get_attribute::<MessageIntegrity>();
                        log.push(match mi {
                            None => "none".into(),
                            Some(mi) => format!("{:?} {:?}", mi.check_short_term_credential(PW).map_err(|e| e.code()), mi.check_long_term_credential(&u, &r, PW).map_err(|e| e.code())),
                        });
                    }
                },
                |s| s.4.join(" | "),
            )
        })));
    }
    // value codecs on their own
    v.push(("socket address decoder", Box::new(move || {
        let b = encode_value(Kind::Addr, &Val::Addr("[2001:db8::7]:4321".parse().unwrap()), &TID);
        actor((stun_codec::net::SocketAddrDecoder::new(), vec![]), 4, move |(d, log): &mut (stun_codec::net::SocketAddrDecoder, Vec<String>), i| {
            let cuts = [0, 3, 9, 20];
            log.push(if i == 3 { format!("{:?}", d.finish_decoding().ok()) } else { format!("{:?}", d.decode(&b[cuts[i]..cuts[i + 1]], Eos::new(i == 2)).ok()) });
        }, |s| s.1.join(" "))
    })));
    v.push(("socket address encoder", Box::new(move || {
        actor((stun_codec::net::SocketAddrEncoder::new(), vec![]), 4, move |(e, log): &mut (stun_codec::net::SocketAddrEncoder, Vec<String>), i| {
            let mut b = [0; 16];
            log.push(match i {
                0 => format!("{}", e.start_encoding("192.0.2.200:80".parse().unwrap()).is_ok()),
                1 => format!("{:?} {}", e.encode(&mut b[..3], Eos::new(false)).ok(), hex(&b)),
                2 => format!("{:?} {}", e.encode(&mut b[..2], Eos::new(false)).ok(), hex(&b)),
                _ => format!("{:?} {}", e.encode(&mut b, Eos::new(true)).ok(), hex(&b)),
            });
        }, |s| s.1.join(" "))
    })));
    v.push(("raw attribute", Box::new(move || {
        use bytecodec::TryTaggedDecode;
        actor((stun_codec::RawAttributeDecoder::new(), vec![]), 4, move |(d, log): &mut (stun_codec::RawAttributeDecoder, Vec<String>), i| {
            log.push(match i {
                0 => format!("{:?}", d.try_start_decoding(AttributeType::new(0x7abc)).ok()),
                1 => format!("{:?}", d.decode(&[1, 2, 3], Eos::new(false)).ok()),
                2 => format!("{:?}", d.decode(&[4, 5], Eos::new(true)).ok()),
                _ => format!("{:?}", d.finish_decoding().ok().map(|a| (a.get_type().as_u16(), a.value().to_vec()))),
            });
        }, |s| s.1.join(" "))
    })));
    v.push(("exclusive or", Box::new(move || {
        let a: std::net::SocketAddr = "[2001:db8:1:2:3:4:5:6]:999".parse().unwrap();
        actor((a, vec![]), 2, move |(x, log): &mut (std::net::SocketAddr, Vec<String>), i| {
            *x = stun_codec::net::socket_addr_xor(*x, TransactionId::new(if i == 0 { TID } else { [7; 12] }));
            log.push(x.to_string());
        }, |s| s.1.join(" "))
    })));
    for (name, n) in [("user-defined exchange", 5u32), ("another user-defined exchange", 0x1234_5678)] {
        v.push((name, Box::new(move || actor(String::new(), 1, move |s, _| *s = slow_exchange(n), |s| s.clone()))));
    }
    v
}
/// All orders in which the steps of the actors can follow each other: the index of the actor at each point.
fn interleavings(counts: &[usize]) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for a in 0..left.len() {
            if left[a] > 0 {
                left[a] -= 1;
                cur.push(a as u8);
                go(left, cur, out);
                cur.pop();
                left[a] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut counts.to_vec(), &mut vec![], &mut out);
    out
}
struct Job(*mut dyn Actor, usize, Option<(&'static gate::Gate, gate::Plan)>);
unsafe impl Send for Job {}
/// Threads that run one step at a time when told to; everything else waits, so the schedule is the given one.
struct Crew {
    to: Vec<mpsc::Sender<Job>>,
    back: mpsc::Receiver<Result<u32, String>>,
}
thread_local! {
    static CREW: Crew = {
        let (tx, back) = mpsc::channel();
        let to = (0..2).map(|_| {
            let (jtx, jrx) = mpsc::channel::<Job>();
            let tx = tx.clone();
            std::thread::spawn(move || {
                while let Ok(Job(a, n, plan)) = jrx.recv() {
                    let r = match plan {
                        None => catch_unwind(AssertUnwindSafe(|| unsafe { (*a).step(n) })).map(|_| 0).map_err(|_| "panicked".to_string()),
                        Some((gate, plan)) => catch_unwind(AssertUnwindSafe(|| gate.run(plan, || (0..n).for_each(|i| unsafe { (*a).step(i) })))).map_err(|_| "panicked".to_string()),
                    };
                    if tx.send(r).is_err() {
                        return;
                    }
                }
            });
            jtx
        }).collect();
        Crew { to, back }
    };
}
fn on_thread(t: usize, a: &mut dyn Actor, n: usize) -> Result<(), String> {
    CREW.with(|c| {
        // the job is done before this function returns
        let p: *mut (dyn Actor + '_) = a;
        let p: *mut dyn Actor = unsafe { std::mem::transmute(p) };
        c.to[t].send(Job(p, n, None)).map_err(|e| e.to_string())?;
        c.back.recv().map_err(|e| e.to_string())?.map(|_| ())
    })
}
/// Runs both scripts from beginning to end in a thread each: the first starts, and the turn goes over when the
/// running one has passed its scheduling point with a number in `stops`, and when it has ended.
/// Returns the number of points either has passed (0 for one that panicked) and whether one was blocked.
fn gated(a: &mut [Box<dyn Actor>], stops: [[u32; 2]; 2], frees: bool) -> ([Result<u32, String>; 2], bool) {
    CREW.with(|c| {
        let gate = Box::into_raw(Box::<gate::Gate>::default());
        let gref: &'static gate::Gate = unsafe { &*gate };
        let mut sent = 0;
        for (me, s) in stops.iter().enumerate() {
            let n = a[me].steps();
            let p: *mut (dyn Actor + '_) = &mut *a[me];
            let p: *mut dyn Actor = unsafe { std::mem::transmute(p) };
            sent += c.to[me].send(Job(p, n, Some((gref, gate::Plan { me, stops: *s, frees })))).is_ok() as usize;
        }
        // which of the two a result belongs to does not matter: the counts are only used for equal scripts or alone
        let mut got = [Err("no thread".to_string()), Err("no thread".to_string())];
        for g in got.iter_mut().take(sent) {
            *g = c.back.recv().unwrap_or_else(|e| Err(e.to_string()));
        }
        let blocked = gref.blocked.load(std::sync::atomic::Ordering::SeqCst) > 0;
        drop(unsafe { Box::from_raw(gate) });
        (got, blocked)
    })
}
const PLACES: [&str; 4] = ["one thread", "a thread each", "moving between two threads with every call", "moving halfway"];
/// Runs the actors in the given order; place 0: here, 1: a thread each, 2 and 3: moving.
fn together(c: &mut Case, make: &[&(&'static str, Make)], order: &[u8], place: usize, alone: &[&String]) {
    let mut actors: Vec<Box<dyn Actor>> = make.iter().map(|m| (m.1)()).collect();
    let mut at = vec![0usize; actors.len()];
    for who in order {
        let w = *who as usize;
        let n = at[w];
        at[w] += 1;
        c.op(1);
        let r = match place {
            0 => {
                actors[w].step(n);
                Ok(())
            }
            1 => on_thread(w % 2, &mut *actors[w], n),
            2 => on_thread((w + n) % 2, &mut *actors[w], n),
            _ => on_thread((w + (2 * n >= actors[w].steps()) as usize) % 2, &mut *actors[w], n),
        };
        if let Err(e) = r {
            return c.fail("interference", || format!("{:?} in the order {:?} on {}: step {} of {} {}", make.iter().map(|m| m.0).collect::<Vec<_>>(), order, PLACES[place], n, make[w].0, e));
        }
    }
    for (w, a) in actors.iter_mut().enumerate() {
        let got = a.result();
        c.check("interference", got == *alone[w], || {
            format!("{:?} in the order {:?} on {}: {} gives {} but alone {}", make.iter().map(|m| m.0).collect::<Vec<_>>(), order, PLACES[place], make[w].0, short(&got), short(alone[w]))
        });
    }
}
pub fn c27(x: &mut Ctx) {
    x.assumptions.push("inside a call threads are switched at memory operations and calls of user code only (the crate has no other point at which a schedule can be controlled), at most once per thread".into());
    let table = actors();
    let n = table.len();
    // what each does alone, in a thread that has done nothing else
    let alone: Vec<String> = table
        .iter()
        .map(|t| {
            std::thread::scope(|s| {
                s.spawn(|| {
                    catch_unwind(AssertUnwindSafe(|| {
                        let mut a = (t.1)();
                        for i in 0..a.steps() {
                            a.step(i);
                        }
                        a.result()
                    }))
                    .unwrap_or_else(|_| "panics alone".into())
                })
                .join()
                .unwrap_or_default()
            })
        })
        .collect();
    x.space("alone", &format!("each of {} scripts alone: what it yields, repeated, and on moving threads", n), n as u64 * 8, |c, i| {
        let mut ix = Ix(i);
        let (a, place, _again) = (ix.take(n), ix.take(4), ix.take(2));
        let steps = (table[a].1)().steps();
        c.state(&(a, place));
        c.sample(|| format!("{}: {}", table[a].0, alone[a]));
        c.check("alone", !alone[a].contains("panic"), || format!("{} {}", table[a].0, alone[a]));
        together(c, &[&table[a]], &vec![0; steps], place, &[&alone[a]]);
        c.outcome("alone");
    });
    let counts: Vec<usize> = table.iter().map(|t| (t.1)().steps()).collect();
    let mut cases: Vec<(usize, usize, u32)> = vec![];
    let mut orders: std::collections::BTreeMap<(usize, usize), Vec<Vec<u8>>> = Default::default();
    for a in 0..n {
        for b in 0..n {
            let o = orders.entry((counts[a], counts[b])).or_insert_with(|| interleavings(&[counts[a], counts[b]]));
            cases.extend((0..o.len() as u32).map(|k| (a, b, k)));
        }
    }
    x.space("pairs", &format!("all pairs of {} scripts of 2..6 calls, all {} interleavings, on {}", n, cases.len(), PLACES.join(" / ")), cases.len() as u64 * 4, |c, i| {
        let mut ix = Ix(i);
        let place = ix.take(4);
        let (a, b, k) = cases[ix.0 as usize];
        let order = &orders[&(counts[a], counts[b])][k as usize];
        c.state(&(a, b, k, place));
        c.sample(|| format!("{} and {} in the order {:?} on {}", table[a].0, table[b].0, order, PLACES[place]));
        together(c, &[&table[a], &table[b]], order, place, &[&alone[a], &alone[b]]);
        c.outcome(PLACES[place]);
    });
    // three at once
    let three: Vec<usize> = if x.thorough() { (0..n).collect() } else { (0..n).filter(|a| counts[*a] <= 4).collect() };
    let mut cases: Vec<(usize, usize, usize, u32)> = vec![];
    let mut orders: std::collections::BTreeMap<[usize; 3], Vec<Vec<u8>>> = Default::default();
    let limit = x.pick(10, 12);
    for &a in &three {
        for &b in &three {
            for &d in &three {
                if b < a || d < b || counts[a] + counts[b] + counts[d] > limit {
                    continue; // the same scripts in another order give the same interleavings
                }
                let o = orders.entry([counts[a], counts[b], counts[d]]).or_insert_with(|| interleavings(&[counts[a], counts[b], counts[d]]));
                cases.extend((0..o.len() as u32).map(|k| (a, b, d, k)));
            }
        }
    }
    x.space("triples", &format!("triples of scripts with at most {} calls together, all {} interleavings", limit, cases.len()), cases.len() as u64, |c, i| {
        let place = 0;
        let (a, b, d, k) = cases[i as usize];
        let order = &orders[&[counts[a], counts[b], counts[d]]][k as usize];
        c.state(&(a, b, d, k, place));
        c.sample(|| format!("{}, {} and {} in the order {:?} on {}", table[a].0, table[b].0, table[d].0, order, PLACES[place]));
        together(c, &[&table[a], &table[b], &table[d]], order, place, &[&alone[a], &alone[b], &alone[d]]);
        c.outcome("three");
    });
    preempted(x, &table, &alone);
    nested(x);
    calls(x);
}
/// The scripts in two threads of which either is preempted inside its calls.
fn preempted(x: &mut Ctx, table: &[(&'static str, Make)], alone: &[String]) {
    let n = table.len();
    struct Idle;
    impl Actor for Idle {
        fn steps(&self) -> usize {
            0
        }
        fn step(&mut self, _: usize) {}
        fn result(&mut self) -> String {
            String::new()
        }
    }
    // the number of points of each script, when nothing is initialised for the first time
    let points: Vec<u32> = (0..n)
        .map(|a| {
            let count = || {
                let mut both: Vec<Box<dyn Actor>> = vec![(table[a].1)(), Box::new(Idle)];
                gated(&mut both, [[0; 2]; 2], true).0.into_iter().map(|r| r.unwrap_or(0)).max().unwrap_or(0)
            };
            count();
            count()
        })
        .collect();
    let (least, most) = (points.iter().min().copied().unwrap_or(0), points.iter().max().copied().unwrap_or(0));
    let run = |c: &mut Case, a: usize, b: usize, stops: [u32; 2], stop_b: u32, frees: bool| {
        let what = || {
            format!(
                "{} preempted at point {} by {}, {}",
                table[a].0,
                stops.iter().filter(|s| **s > 0).map(|s| s.to_string()).collect::<Vec<_>>().join(" and at point "),
                table[b].0,
                if stop_b == 0 { "which ends".into() } else { format!("itself preempted at point {}", stop_b) }
            )
        };
        c.state(&(a, b, stops, stop_b));
        c.sample(what);
        let mut both: Vec<Box<dyn Actor>> = vec![(table[a].1)(), (table[b].1)()];
        c.op((both[0].steps() + both[1].steps()) as u64);
        let (r, blocked) = gated(&mut both, [stops, [stop_b, 0]], frees);
        for r in r {
            if let Err(e) = r {
                return c.fail("interference", || format!("{}: {}", what(), e));
            }
        }
        for (w, k) in [a, b].into_iter().enumerate() {
            let got = both[w].result();
            c.check("interference", got == alone[k], || format!("{}: {} gives {} but alone {}", what(), table[k].0, short(&got), short(&alone[k])));
        }
        c.outcome(if blocked { "one waited for the other" } else { "independent" });
    };
    let mut starts: Vec<u64> = vec![];
    let mut total = 0u64;
    for a in 0..n {
        for b in 0..n {
            starts.push(total);
            total += points[a] as u64 * (points[b] as u64 + 1);
        }
    }
    x.space("preempted", &format!("all ordered pairs of {} scripts in two threads: the first is preempted at any of its {}..{} scheduling points (memory operations, releases included, and calls of user code), the second at any or none of its own", n, least, most), total, |c, i| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        let (a, b) = (k / n, k % n);
        let q = points[b] as u64 + 1;
        let (p, s) = ((i - starts[k]) / q + 1, (i - starts[k]) % q);
        run(c, a, b, [p as u32, 0], if s == q - 1 { 0 } else { s as u32 + 1 }, true)
    });
    if x.thorough() {
        // the first goes on after the second was preempted, and is preempted once more
        let points: Vec<u32> = (0..n)
            .map(|a| {
                let mut both: Vec<Box<dyn Actor>> = vec![(table[a].1)(), Box::new(Idle)];
                gated(&mut both, [[0; 2]; 2], false).0.into_iter().map(|r| r.unwrap_or(0)).max().unwrap_or(0)
            })
            .collect();
        let mut starts: Vec<u64> = vec![];
        let mut total = 0u64;
        let pairs: Vec<Vec<[u32; 2]>> = points.iter().map(|p| (1..=*p).flat_map(|i| (i + 1..=*p).map(move |j| [i, j])).collect()).collect();
        for a in 0..n {
            for b in 0..n {
                starts.push(total);
                total += pairs[a].len() as u64 * points[b] as u64;
            }
        }
        x.space("preempted-3", &format!("the same with two preemptions of the first and one of the second, at memory operations other than releases: {} schedules", total), total, |c, i| {
            let k = starts.partition_point(|s| *s <= i) - 1;
            let (a, b) = (k / n, k % n);
            let q = points[b] as u64;
            let (p, s) = ((i - starts[k]) / q, (i - starts[k]) % q);
            run(c, a, b, pairs[a][p as usize], s as u32 + 1, false)
        });
    }
}
/// User code that uses the library in the middle of a call of the library.
fn nested(x: &mut Ctx) {
    let table = alike();
    let n = table.len();
    let own: [(&str, u32); 2] = [("an exchange of its own", 5), ("another exchange", 99)];
    let plain: Vec<String> = own.iter().map(|o| slow_exchange(o.1)).collect();
    let whole = slow_exchange(5);
    x.space("nested", &format!("user-defined attribute that makes each of {} calls (or an exchange of its own) at each of {} points, at its first, second or third occurrence", n, slow::POINTS.len()), ((n + 2) * slow::POINTS.len() * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let (what, at, nth) = (ix.take(n + 2), ix.take(slow::POINTS.len()), ix.take(3));
        let name = || if what < n { table[what].name.clone() } else { own[what - n].0.to_string() };
        c.state(&(what, at, nth));
        c.sample(|| format!("{} in {} #{}", name(), slow::POINTS[at], nth));
        let seen = std::rc::Rc::new(std::cell::Cell::new((0usize, false)));
        let bad = std::rc::Rc::new(std::cell::RefCell::new(None));
        let (s, b) = (seen.clone(), bad.clone());
        // the closure is dropped at the end of the case
        let (t, p): (&'static [Call], &'static [String]) = unsafe { (std::mem::transmute(&table[..]), std::mem::transmute(&plain[..])) };
        slow::ACT.with(|a| {
            *a.borrow_mut() = Some(std::rc::Rc::new(move |k| {
                let (count, busy) = s.get();
                if busy || k != at {
                    return;
                }
                s.set((count + 1, false));
                if count == nth {
                    s.set((count + 1, true));
                    let (got, want) = if what < t.len() { ((t[what].run)(), &t[what].want) } else { (slow_exchange(own[what - t.len()].1), &p[what - t.len()]) };
                    if got != *want {
                        *b.borrow_mut() = Some((got, want.clone()));
                    }
                    s.set((count + 1, false));
                }
            }))
        });
        let got = catch_unwind(AssertUnwindSafe(|| slow_exchange(5)));
        slow::ACT.with(|a| *a.borrow_mut() = None);
        c.op(2);
        if seen.get().0 <= nth {
            c.outcome("never reached");
        } else {
            c.outcome("nested");
        }
        let place = || format!("{} within {} #{}", name(), slow::POINTS[at], nth);
        match got {
            Err(_) => c.fail("nested", || format!("{}: panicked", place())),
            Ok(got) => {
                c.check("nested", got == whole, || format!("{}: the outer exchange gives {} instead of {}", place(), short(&got), short(&whole)));
            }
        }
        let bad = bad.borrow_mut().take();
        c.check("nested", bad.is_none(), || format!("{}: the inner call gives {:?}", place(), bad));
    });
}
/// A call that keeps no codec: what it yields and what the model says it yields.
struct Call {
    name: String,
    run: Box<dyn Fn() -> String + Sync>,
    want: String,
}
/// Calls whose arguments resemble each other: same length, same characters in another order, same beginning,
/// same end, same sum and exclusive or, same transaction id, same header.
fn alike() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    let mut add = |name: String, want: String, run: Box<dyn Fn() -> String + Sync>| v.push(Call { name, run, want });
    let text = |s: &str| MAttr::known(0x8022, Val::Str(s.into()));
    let msgs: Vec<MMsg> = vec![
        msg(0, 1, TID, vec![text("ab")]),
        msg(0, 1, TID, vec![text("ba")]),
        msg(0, 1, TID, vec![text("ab"), text("ba")]),
        msg(0, 1, TID, vec![text("ba"), text("ab")]),
        msg(0, 1, [7; 12], vec![text("ab")]),
        msg(2, 1, TID, vec![text("ab")]),
    ];
    let long = |c: char, p: usize| {
        let mut s = "k".repeat(80);
        s.replace_range(p..p + 1, &c.to_string());
        s
    };
    let shorts: Vec<String> = ["", "ab", "ba", "aabb", "abab", "cccc", "ac", "bb", "user:realm:ab", "\0", "a\0b", "password-1", "password-2", "1-password", "2-password"].iter().map(|s| s.to_string()).chain([long('a', 0), long('b', 0), long('a', 79), long('b', 79), long('a', 40), "k".repeat(64), "k".repeat(65)]).collect();
    let longs: Vec<[&str; 3]> = vec![["user", "realm", "ab"], ["user", "realm", "ba"], ["realm", "user", "ab"], ["user", "ab", "realm"], ["u", "ser:realm", "ab"], ["us", "er:realm", "ab"], ["resu", "realm", "ab"], ["user", "mlaer", "ab"], ["user", "realm", "aabb"]];
    for (k, m) in msgs.iter().enumerate() {
        let bytes = encode_msg(m).expect("small");
        let real: Message<All> = build(m).expect("valid");
        let keys: Vec<(String, Vec<u8>, [String; 3])> = shorts
            .iter()
            .map(|s| (format!("short-term {:?}", short(s)), s.as_bytes().to_vec(), [String::new(), String::new(), s.clone()]))
            .chain(longs.iter().map(|l| (format!("long-term {:?}", l), long_term_key(l[0], l[1], l[2]).to_vec(), l.map(|s| s.to_string()))))
            .collect();
        for (n, (name, key, parts)) in keys.iter().enumerate() {
            if k > 0 && n % 4 > 1 {
                continue;
            }
            let is_long = n >= shorts.len();
            let mac = mi_value(&bytes, key);
            let (r, p) = (real.clone(), parts.clone());
            add(format!("make {} for message {}", name, k), hex(&mac), Box::new(move || {
                let r = if is_long { MessageIntegrity::new_long_term_credential(&r, &Username::new(p[0].clone()).unwrap(), &Realm::new(p[1].clone()).unwrap(), &p[2]) } else { MessageIntegrity::new_short_term_credential(&r, &p[2]) };
                r.map(|m| hex(&m.hmac_sha1())).unwrap_or_else(|e| e.to_string())
            }));
            // a received message sealed with the key of another entry: refused, with this one: accepted
            for other in [n, n ^ 1] {
                let Some((_, okey, _)) = keys.get(other) else { continue };
                let mut b = bytes.clone();
                let mac2 = mi_value(&b, okey);
                b.extend(tlv(8, &mac2, None));
                let l = b.len() - 20;
                b[2..4].copy_from_slice(&(l as u16).to_be_bytes());
                let (_, Some(got), _) = feed_whole(&mut MessageDecoder::<All>::new(), &b) else { continue };
                let p = parts.clone();
                add(format!("check {} of message {} sealed with entry {}", name, k, other), format!("{:?}", if mac == mac2 { None } else { Some(401u16) }), Box::new(move || {
                    let Some(mi) = got.get_attribute::<MessageIntegrity>() else { return "lost".into() };
                    let r = if is_long { mi.check_long_term_credential(&Username::new(p[0].clone()).unwrap(), &Realm::new(p[1].clone()).unwrap(), &p[2]) } else { mi.check_short_term_credential(&p[2]) };
                    format!("{:?}", r.err().map(|e| e.code()))
                }));
            }
        }
        let r = real.clone();
        add(format!("FINGERPRINT for message {}", k), fp_value(&bytes).to_string(), Box::new(move || Fingerprint::new(&r).map(|f| f.crc32().to_string()).unwrap_or_else(|e| e.to_string())));
        let r = real.clone();
        add(format!("encode message {}", k), hex(&bytes), Box::new(move || encode(r.clone()).map(|b| hex(&b)).unwrap_or_else(|e| e.to_string())));
    }
    // decoding: the same message with other contents, right and wrong digests, cut off
    let mut inputs: Vec<Vec<u8>> = msgs.iter().map(|m| encode_msg(m).unwrap()).collect();
    for t in [0x0101u16, 0x0111] {
        let b = wire_msg(t, &[(0x20, wire(0x20, 4)), (0x8022, b"ab".to_vec()), (0x8028, vec![])]);
        for p in [8, 19, 30, b.len() - 1] {
            let mut w = b.clone();
            w[p] ^= 1;
            inputs.push(w);
        }
        inputs.push(b);
    }
    inputs.extend([brokens()[1].clone(), brokens()[8].clone(), rejects()[0].clone(), rejects()[3].clone()]);
    for (k, b) in inputs.into_iter().enumerate() {
        let o = want(&decode_msg(&b, &all_cps(), FpMode::Received).0);
        add(format!("decode input {}: {}", k, hex(&b)), format!("{:?}", o), Box::new(move || format!("{:?}", feed_whole(&mut MessageDecoder::<All>::new(), &b).0)));
    }
    // XOR with similar addresses and transaction ids
    for a in ["10.1.2.3:80", "10.1.3.2:80", "[2001:db8::1]:80", "[2001:db8::1:0]:80"] {
        let a: std::net::SocketAddr = a.parse().unwrap();
        for t in [TID, [7; 12], { let mut t = TID; t.reverse(); t }] {
            add(format!("{} xor {}", a, hex(&t)), xor_addr(a, &t).to_string(), Box::new(move || stun_codec::net::socket_addr_xor(a, TransactionId::new(t)).to_string()));
        }
    }
    v
}
fn calls(x: &mut Ctx) {
    let table = alike();
    let n = table.len();
    let one = |c: &mut Case, at: &[usize], j: usize| {
        let t = &table[at[j]];
        let got = (t.run)();
        c.op(1);
        c.check("history", got == t.want, || format!("{}: {} instead of {} after {:?}", t.name, short(&got), short(&t.want), at[..j].iter().map(|k| &table[*k].name[..]).collect::<Vec<_>>()))
    };
    x.space("calls", &format!("all sequences of 2 of {} calls with arguments that resemble each other, in one thread", n), (n * n) as u64, |c, i| {
        let at = [i as usize % n, i as usize / n];
        c.state(&at);
        c.sample(|| format!("{} then {}", table[at[0]].name, table[at[1]].name));
        for j in 0..2 {
            if !one(c, &at, j) {
                return;
            }
        }
        c.outcome("as alone");
    });
    let few: Vec<usize> = if x.thorough() { (0..n).collect() } else { (0..n).filter(|k| k % 3 != 1).collect() };
    let m = few.len();
    x.space("calls-3", &format!("all sequences of 3 of {} calls", m), (m * m * m) as u64, |c, i| {
        let at = [few[i as usize % m], few[i as usize / m % m], few[i as usize / m / m]];
        c.state(&at);
        for j in 0..3 {
            if !one(c, &at, j) {
                return;
            }
        }
        c.outcome("as alone");
    });
}

// ---------------------------------------------------------------- C28
const ROUNDS: usize = 320;
const SHORT: usize = 80;
/// Memory an idle codec may keep: room for one message of maximal size, twice over.
const RETAINED: i64 = 2 * 65536 + 16384;
fn steady(c: &mut Case, rounds: usize, distinct: bool, what: &dyn Fn() -> String, mut round: impl FnMut(usize)) {
    let mut held = [0i64; ROUNDS];
    let base = alloc::live();
    for (r, h) in held.iter_mut().enumerate().take(rounds) {
        round(r);
        *h = alloc::live() - base;
    }
    let held = &held[..rounds];
    c.op(rounds as u64);
    let (mut early, mut late) = (*held[..16].iter().max().unwrap(), *held[16..].iter().max().unwrap());
    // What grew may be a scratch buffer that has reached its final size by now: the same rounds
    // again then add nothing.  Where each round brings something new, growth is growth.
    // Each time as many as all before, so that what doubles its capacity has to do so.
    for k in 0..3 {
        if late <= early || distinct {
            break;
        }
        early = late;
        for _ in 0..1 << k {
            for r in 0..rounds {
                round(r);
                late = late.max(alloc::live() - base);
            }
        }
        c.op((rounds << k) as u64);
    }
    c.check("growth", late <= early, || format!("{}: holds {} bytes within 16 rounds but {} within {}", what(), early, late, rounds));
    c.check("retained", early <= RETAINED, || format!("{}: holds {} bytes while idle", what(), early));
    c.outcome(if late == 0 { "holds nothing" } else { "holds a constant" });
}
pub fn c28(x: &mut Ctx) {
    x.assumptions.push("memory = bytes requested from the global allocator by the thread".into());
    for b in brokens() {
        let _ = feed_whole(&mut MessageDecoder::<All>::new(), &b);
    }
    let k = |cp: u16, i: usize| MAttr::known(cp, vals(kind_of(cp).unwrap())[i].clone());
    let mut inputs: Vec<Vec<u8>> = bases();
    inputs.extend(brokens());
    inputs.extend(rejects());
    inputs.push(wire_msg(0x0101, &[(0x13, vec![7; 60000]), (8, vec![])]));
    inputs.push(wire_msg(0x0101, &vec![(0x7001, vec![1]); 2000]));
    inputs.push(wire_msg(0x0101, &[(0x7002, vec![7; 65000]), (0x8028, vec![])]));
    let ways = 4; // whole; bytewise; cut off by end of stream; given up in the middle
    let n = inputs.len();
    let feed_one = |d: &mut MessageDecoder<All>, b: &[u8], way: usize| {
        let cuts: Vec<usize> = if way == 1 && b.len() < 3000 { (1..b.len()).collect() } else { vec![] };
        match way {
            0 | 1 => drop(feed(d, b, &cuts, false)),
            2 => drop(feed(d, &b[..b.len() - 1], &cuts, true)),
            _ => {
                // given up: what has arrived is finished early
                drop(feed(d, &b[..b.len() / 2], &cuts, false));
                drop(d.finish_decoding());
            }
        }
    };
    x.space("decoder", &format!("{} inputs x 4 ways to end them, {} rounds with one decoder", n, ROUNDS), (n * ways) as u64, |c, i| {
        let mut ix = Ix(i);
        let (b, way) = (&inputs[ix.take(n)], ix.take(ways));
        c.state(&(b, way));
        c.sample(|| format!("way {} {}", way, hex(b)));
        let mut d = MessageDecoder::<All>::new();
        steady(c, ROUNDS, false, &|| format!("decoder after {} (way {})", hex(b), way), |_| feed_one(&mut d, b, way));
        drop(d);
    });
    let small: Vec<usize> = (0..n).filter(|j| inputs[*j].len() < 200).collect();
    let s = small.len() * ways;
    x.space("decoder-pairs", &format!("all pairs of {} inputs and ways in turn, {} rounds with one decoder", s, SHORT), (s * s) as u64, |c, i| {
        let (p, q) = (i as usize % s, i as usize / s);
        let step = |j: usize| (&inputs[small[j / ways]], j % ways);
        c.state(&i);
        c.sample(|| format!("{} then {}", hex(step(p).0), hex(step(q).0)));
        let mut d = MessageDecoder::<All>::new();
        steady(c, SHORT, false, &|| format!("decoder after {} (way {}) and {} (way {})", hex(step(p).0), step(p).1, hex(step(q).0), step(q).1), |_| {
            feed_one(&mut d, step(p).0, step(p).1);
            feed_one(&mut d, step(q).0, step(q).1);
        });
    });
    // a fresh decoder every time: nothing stays behind in the process
    x.space("decoders", &format!("{} inputs x 4 ways, each round with a decoder of its own, errors and messages formatted and converted", n), (n * ways) as u64, |c, i| {
        let mut ix = Ix(i);
        let (b, way) = (&inputs[ix.take(n)], ix.take(ways));
        c.state(&(b, way, 1));
        c.sample(|| format!("way {} {}", way, hex(b)));
        steady(c, ROUNDS, false, &|| format!("process after decoding {} (way {})", hex(b), way), |r| {
            let mut d = MessageDecoder::<All>::new();
            feed_one(&mut d, b, way);
            let n = d.decode(&b[..b.len().min(20 + r)], Eos::new(false));
            if let Err(e) = n {
                drop(format!("{} {:?}", e, ErrorCode::from(e.clone())));
            }
            if let Ok(Err(m)) = d.finish_decoding() {
                drop(format!("{:?} {}", m, bytecodec::Error::from(m.clone())));
            }
        });
        // what is left when all is gone
        let left = || {
            let base = alloc::live();
            let mut d = MessageDecoder::<All>::new();
            feed_one(&mut d, b, way);
            drop(d);
            alloc::live() - base
        };
        c.eq("leak", || format!("after decoding {} (way {})", hex(b), way), &left(), &0);
    });
    let msgs: Vec<Message<All>> = attrs_few()
        .into_iter()
        .map(|a| vec![a])
        .chain([vec![], vec![k(0x20, 4), k(0x8022, 0), k(8, 0), k(0x8028, 0)], vec![MAttr::known(0x13, Val::Bytes(vec![1; 60000])), k(8, 0)], vec![MAttr::known(0x13, Val::Bytes(vec![1; 65535]))], vec![MAttr::known(0x0A, Val::Types(vec![1; 32768]))], copies(&k(0x20, 0), Some(&k(0x8022, 1)), 500)])
        .map(|a| build::<All>(&msg_any(a)).expect("valid"))
        .collect();
    let nm = msgs.len();
    x.space("encoder", &format!("{} messages (valid and refused) x drained whole, bytewise, or another message refused meanwhile; {} rounds with one encoder", nm, ROUNDS), (nm * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let (m, way) = (&msgs[ix.take(nm)], ix.take(3));
        c.state(&i);
        c.sample(|| format!("way {} {:?}", way, m));
        let mut e = MessageEncoder::<All>::new();
        steady(c, ROUNDS, false, &|| format!("encoder after {:?} (way {})", m, way), |_| {
            let mut calls = 0;
            let _ = e.start_encoding(m.clone());
            if way == 2 {
                let _ = e.start_encoding(msgs[0].clone());
            }
            let _ = drain(&mut e, if way == 1 { &[1, 7] } else { &[4096] }, 1 << 17, &mut calls);
        });
    });
    x.space("encoder-pairs", &format!("all pairs of {} messages in turn, {} rounds with one encoder", nm, SHORT), (nm * nm) as u64, |c, i| {
        let (p, q) = (&msgs[i as usize % nm], &msgs[i as usize / nm]);
        c.state(&i);
        c.sample(|| format!("{:?} then {:?}", p, q));
        let mut e = MessageEncoder::<All>::new();
        steady(c, SHORT, false, &|| format!("encoder after {:?} and {:?}", p, q), |_| {
            for m in [p, q] {
                let mut calls = 0;
                let _ = e.start_encoding(m.clone());
                let _ = drain(&mut e, &[4096], 1 << 17, &mut calls);
            }
        });
    });
    // never the same twice: nothing may be remembered per identifier, type, value or credential
    const VARY: [&str; 12] = ["transaction id", "method and class", "unknown type", "unknown value", "text", "address", "channel", "error code", "user", "password", "broken type", "refused cookie"];
    x.space("distinct", &format!("{} rounds that differ in one of {:?} x decoding with one decoder, with new ones, encoding with one encoder, credentials", ROUNDS, VARY), VARY.len() as u64 * 4 * 8, |c, i| {
        let mut ix = Ix(i);
        let (vary, way, salt) = (ix.take(VARY.len()), ix.take(4), ix.take(8));
        c.state(&i);
        c.sample(|| format!("{} way {}", VARY[vary], way));
        let mut d = MessageDecoder::<All>::new();
        let mut e = MessageEncoder::<All>::new();
        let what = || format!("{} differs in every round (way {})", VARY[vary], way);
        let num = |r: usize| (salt * ROUNDS + r) as u16;
        let one = |r: usize| -> MMsg {
            let r = num(r);
            let mut tid = TID;
            let mut attrs = vec![MAttr::raw(0x7001, vec![1, 2, 3, 4]), MAttr::known(0x8022, Val::Str("abcdef".into()))];
            let (mut cl, mut me) = (2, 1);
            match vary {
                0 => tid[4..6].copy_from_slice(&r.to_be_bytes()),
                1 => (cl, me) = ((r % 4) as u8, r % 4096),
                2 => attrs[0].cp = 0x4000 + r,
                3 => attrs[0].body = Body::Raw([[1, 2], r.to_be_bytes()].concat()),
                4 => attrs[1].body = Body::Known(Val::Str(format!("{:06}", r))),
                5 => attrs[1] = MAttr::known(0x20, Val::Addr(([10, 0, (r >> 8) as u8, r as u8], r).into())),
                6 => attrs[1] = MAttr::known(0x0C, Val::U(0x4000 + r as u64 % 4096)),
                7 => attrs[1] = MAttr::known(0x09, Val::Err(300 + r % 300, format!("{:06}", r))),
                8 => attrs[1] = MAttr::known(0x06, Val::Str(format!("{:06}", r))),
                _ => {}
            }
            msg(cl, me, tid, attrs)
        };
        let (user, realm) = (|r: usize| Username::new(format!("{:06}", if vary == 8 { num(r) } else { 0 })).unwrap(), Realm::new("realm".into()).unwrap());
        let bytes: Vec<Vec<u8>> = (0..ROUNDS)
            .map(|r| {
                let mut b = encode_msg(&one(r)).expect("small");
                if vary == 10 {
                    b[24 + 4 + 2..24 + 4 + 4].copy_from_slice(&(300 + num(r)).to_be_bytes());
                }
                if vary == 11 {
                    b[4..6].copy_from_slice(&num(r).to_be_bytes());
                }
                b
            })
            .collect();
        let known = |mut m: MMsg| {
            m.attrs.retain(|a| matches!(a.body, Body::Known(_)));
            m
        };
        let built: Vec<Message<All>> = (0..ROUNDS).map(|r| build(&known(one(r))).expect("valid")).collect();
        let pws: Vec<String> = (0..ROUNDS).map(|r| format!("{:06}", if vary == 9 { num(r) } else { 0 })).collect();
        steady(c, ROUNDS, true, &what, |r| match way {
            0 => feed_one(&mut d, &bytes[r], 0),
            1 => {
                let mut d = MessageDecoder::<All>::new();
                feed_one(&mut d, &bytes[r], 0);
                feed_one(&mut d, &bytes[r], 3);
            }
            2 => {
                let mut calls = 0;
                let _ = e.start_encoding(built[r].clone());
                let _ = drain(&mut e, &[4096], 1 << 17, &mut calls);
            }
            _ => {
                let mut m = built[r].clone();
                let u = user(r);
                if let Ok(mi) = MessageIntegrity::new_long_term_credential(&m, &u, &realm, &pws[r]) {
                    let _ = mi.check_long_term_credential(&u, &realm, &pws[r]);
                    let _ = mi.check_short_term_credential(&pws[r]);
                    m.add_attribute(mi);
                }
                if let Ok(mi) = MessageIntegrity::new_short_term_credential(&m, &pws[r]) {
                    m.add_attribute(mi);
                }
                drop(Fingerprint::new(&m));
                drop(format!("{:?} {}", m, m.method()));
            }
        });
    });
    x.space("headers", "all 4 classes x 4096 methods x decoded, broken, encoded, used (digests, formatting): 40 rounds with one codec", 4 * 4096 * 4, |c, i| {
        let mut ix = Ix(i);
        let (class, method, way) = (ix.take(4) as u8, ix.take(4096) as u16, ix.take(4));
        c.state(&i);
        let m = msg(class, method, TID, vec![k(0x20, 4), k(0x8022, 0), k(0x13, 3)]);
        c.sample(|| format!("{:?} way {}", m, way));
        let mut b = encode_msg(&m).expect("small");
        if way == 1 {
            b[20 + 4 + 1] = 9; // no such family
        }
        let built: Message<All> = build(&m).expect("valid");
        let mut d = MessageDecoder::<All>::new();
        let mut e = MessageEncoder::<All>::new();
        steady(c, 40, false, &|| format!("class {} method {:#x} (way {})", class, method, way), |_| match way {
            0 | 1 => feed_one(&mut d, &b, 0),
            2 => {
                let mut calls = 0;
                let _ = e.start_encoding(built.clone());
                let _ = drain(&mut e, &[4096], 1 << 17, &mut calls);
            }
            _ => {
                let mut m = built.clone();
                if let Ok(mi) = MessageIntegrity::new_short_term_credential(&m, "pw") {
                    let _ = mi.check_short_term_credential("pw");
                    m.add_attribute(mi);
                }
                if let Ok(f) = Fingerprint::new(&m) {
                    m.add_attribute(f);
                }
                drop(format!("{:?} {}", m, m.method()));
                let bytes = encode(m);
                if let Ok(bytes) = bytes {
                    feed_one(&mut d, &bytes, 0);
                }
            }
        });
    });
    // digests, lookups, formatting
    x.space("users", &format!("{} messages: FINGERPRINT and MESSAGE-INTEGRITY made and checked, attributes looked up, everything formatted; {} rounds", nm, ROUNDS), nm as u64, |c, i| {
        let m = &msgs[i as usize];
        c.state(&i);
        c.sample(|| format!("{:?}", m));
        let (u, r) = (Username::new("user".into()).unwrap(), Realm::new("realm".into()).unwrap());
        steady(c, ROUNDS, false, &|| format!("process after using {:?}", m), |_| {
            let mut m = m.clone();
            drop(Fingerprint::new(&m));
            if let Ok(mi) = MessageIntegrity::new_long_term_credential(&m, &u, &r, PW) {
                let _ = mi.check_long_term_credential(&u, &r, PW);
                let _ = mi.check_short_term_credential("wrong");
                m.add_attribute(mi);
            }
            let _ = m.get_attribute::<MessageIntegrity>().map(|mi| mi.check_short_term_credential(PW));
            drop(format!("{:?}", m));
            let _ = m.method().to_string();
        });
    });
}
fn msg_any(attrs: Vec<MAttr>) -> MMsg {
    // digests only where the preceding attributes fit into a message
    if attrs.iter().any(|a| matches!(&a.body, Body::Known(Val::Bytes(b)) if b.len() > 65000) || matches!(&a.body, Body::Known(Val::Types(t)) if t.len() > 32000)) {
        return MMsg { class: 2, method: 1, tid: TID, attrs };
    }
    msg(2, 1, TID, attrs)
}

// ---------------------------------------------------------------- C29
#[derive(Clone, Copy, Debug)]
enum DOp {
    /// so many of the next bytes; end of the stream behind them?
    Feed(usize, u8),
    Finish,
}
#[derive(Clone, Copy, Debug)]
enum EOp {
    Start(usize),
    Put(usize, bool),
}
/// What the decoder may be in the middle of.
struct Att {
    /// bytes of the current message taken so far
    buf: Vec<u8>,
    /// the stream was said to end before the message: a failure may follow, a message only if all of it comes nevertheless
    spoiled: bool,
}
fn header_ok(b: &[u8]) -> bool {
    b.is_empty() || b[0] >> 6 == 0 && b.iter().skip(4).zip(COOKIE).all(|(x, y)| *x == y)
}
fn announced(b: &[u8]) -> Option<usize> {
    (b.len() >= 20).then(|| 20 + u16::from_be_bytes([b[2], b[3]]) as usize)
}
fn drive<S: AttrSet>(c: &mut Case, stream: &[Vec<u8>], ops: &[DOp], set: &[u16]) {
    let say = |n: usize| format!("{:?} on {}: step {}", ops, stream.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "), n);
    let mut d = MessageDecoder::<S>::new();
    let mut at = 0; // message of the stream
    let mut a = Att { buf: vec![], spoiled: false };
    for (n, op) in ops.iter().enumerate() {
        c.op(1);
        let total = announced(&a.buf);
        let complete = !a.spoiled && total == Some(a.buf.len());
        match *op {
            DOp::Feed(k, mode) => {
                // the following bytes of the stream, from the current message on
                let rest: Vec<u8> = stream[at % stream.len()][a.buf.len().min(stream[at % stream.len()].len())..].iter().chain(&stream[(at + 1) % stream.len()]).copied().collect();
                let chunk = &rest[..k.min(rest.len())];
                let eos = match mode {
                    0 => Eos::new(false),
                    1 => Eos::new(true),
                    _ => Eos::with_remaining_bytes(ByteCount::Finite((rest.len() - chunk.len()) as u64)),
                };
                let r = d.decode(chunk, eos);
                let mut all = a.buf.clone();
                all.extend_from_slice(chunk);
                let ends = mode == 1 && announced(&all).map_or(true, |t| all.len() < t);
                match r {
                    Err(_) => {
                        c.outcome("error");
                        let bad = !header_ok(&all[..all.len().min(20)]);
                        if !c.check("order", bad || ends || a.spoiled, || format!("{}: refused", say(n))) {
                            return;
                        }
                        at += 1;
                        a = Att { buf: vec![], spoiled: false };
                    }
                    Ok(used) => {
                        if a.spoiled {
                            // more bytes although the stream had ended: they may be taken or not
                            c.outcome("after the end");
                            if !c.check("order", used <= chunk.len(), || format!("{}: takes {} of {} bytes", say(n), used, chunk.len())) {
                                return;
                            }
                            a.buf.extend_from_slice(&chunk[..used]);
                            continue;
                        }
                        let left = announced(&all).map_or(usize::MAX, |t| t - a.buf.len());
                        let most = chunk.len().min(left);
                        let fair = if complete { used == 0 } else { used <= most && (used > 0 || most == 0) };
                        if !c.check("order", fair, || format!("{}: takes {} of {} bytes, {} belong to the message", say(n), used, chunk.len(), most)) {
                            return;
                        }
                        a.buf.extend_from_slice(&chunk[..used]);
                        a.spoiled = ends;
                        c.outcome("taken");
                        if ends {
                            continue;
                        }
                        let done = announced(&a.buf) == Some(a.buf.len());
                        let asks = d.requiring_bytes();
                        if !c.check("order", d.is_idle() == done && (done || asks != ByteCount::Finite(0)), || format!("{}: idle={} asks {:?} after {} bytes", say(n), d.is_idle(), asks, a.buf.len())) {
                            return;
                        }
                        if a.buf.len() >= 20 && !c.check("order", header_ok(&a.buf), || format!("{}: accepts the header", say(n))) {
                            return;
                        }
                    }
                }
            }
            DOp::Finish => {
                let r = d.finish_decoding();
                let (obs, m) = match r {
                    Err(_) => (Obs::Reject, None),
                    Ok(Err(b)) => (broken_obs(&b), None),
                    Ok(Ok(m)) => (Obs::Ok(see(&m)), Some(m)),
                };
                c.outcome(obs.kind());
                let whole = a.spoiled && matches!(obs, Obs::Ok(_)) && total == Some(a.buf.len());
                let ok = if complete || whole {
                    let (out, _) = decode_msg(&a.buf, set, FpMode::Ignore);
                    let (real, _, _) = feed_whole(&mut MessageDecoder::<S>::new(), &a.buf);
                    // the model decides the outcome; a fresh decoder the digests
                    c.check("order", obs == real && (agrees(&real, &out) || matches!(real, Obs::Broken { .. }) && set.contains(&0x8028)), || format!("{}: complete message gives {:?} but a fresh decoder {:?}", say(n), obs, real))
                } else {
                    let fits = match &obs {
                        Obs::Reject => true,
                        Obs::Broken { class, method, tid } => a.buf.len() >= 20 && *tid == a.buf[8..20] && type_field(*class, *method) == u16::from_be_bytes([a.buf[0], a.buf[1]]),
                        _ => false,
                    };
                    c.check("order", fits, || format!("{}: {} of {:?} bytes give {:?}", say(n), a.buf.len(), total, obs))
                };
                if !ok {
                    return;
                }
                if let Some(m) = m {
                    let b = encode(m).unwrap_or_default();
                    if !c.check("order", b == a.buf, || format!("{}: decoded message encodes {} instead of {}", say(n), hex(&b), hex(&a.buf))) {
                        return;
                    }
                }
                if !a.buf.is_empty() || a.spoiled {
                    at += 1;
                }
                a = Att { buf: vec![], spoiled: false };
                if !c.check("order", !d.is_idle() && d.requiring_bytes() != ByteCount::Finite(0), || format!("{}: idle={} asks {:?} although finished", say(n), d.is_idle(), d.requiring_bytes())) {
                    return;
                }
            }
        }
        c.state(&(at, &a.buf, a.spoiled));
    }
}
pub fn c29(x: &mut Ctx) {
    let good = wire_msg(0x0101, &[(0x8022, b"abc".to_vec()), (0x20, wire(0x20, 0))]);
    let sealed = wire_msg(0x0001, &[(6, b"u".to_vec()), (8, vec![]), (0x8028, vec![])]);
    let empty = wire_msg(0x0011, &[]);
    let broken = brokens()[4].clone();
    let cut = brokens()[2].clone();
    let zero = frame(0x0101, &[tlv(0x25, &[], None), tlv(0x7001, &[], None)].concat());
    let reject = rejects()[4].clone();
    let streams: Vec<Vec<Vec<u8>>> = vec![
        vec![good.clone(), empty.clone()],
        vec![empty.clone(), sealed.clone()],
        vec![sealed.clone(), broken.clone(), good.clone()],
        vec![broken.clone(), good.clone()],
        vec![cut.clone(), empty.clone(), zero.clone()],
        vec![reject.clone(), zero.clone()],
        vec![zero.clone(), reject.clone()],
    ];
    let mut ops: Vec<DOp> = vec![DOp::Finish];
    for mode in 0..3 {
        for k in [0usize, 1, 4, 19, 20, 24, 200] {
            ops.push(DOp::Feed(k, mode));
        }
    }
    let (k, depth) = (ops.len() as u64, x.pick(4u32, 5));
    let ns = streams.len() as u64;
    let sets: [(&str, fn(&mut Case, &[Vec<u8>], &[DOp])); 2] = [
        ("decoder", |c, s, o| drive::<All>(c, s, o, &all_cps())),
        ("decoder-rfc5389", |c, s, o| drive::<A5389>(c, s, o, &RFC5389)),
    ];
    for (name, f) in sets {
        x.space(name, &format!("all sequences of {} calls (decode of 0, 1, 4, 19, 20, 24 or all bytes with no, unknown or known end; finish) over {} streams", depth, ns), k.pow(depth) * ns, |c, i| {
            let mut ix = Ix(i);
            let s = &streams[ix.take(ns as usize)];
            let o: Vec<DOp> = (0..depth).map(|_| ops[ix.take(k as usize)]).collect();
            c.sample(|| format!("{:?}", o));
            f(c, s, &o);
        });
    }
    // few kinds of calls, but long sequences
    let few: Vec<DOp> = vec![DOp::Finish, DOp::Feed(20, 0), DOp::Feed(7, 0), DOp::Feed(200, 0), DOp::Feed(13, 1), DOp::Feed(0, 0)];
    let (kf, depth) = (few.len() as u64, x.pick(7u32, 9));
    let ns = ns.min(x.pick(7, 4));
    x.space("decoder-long", &format!("all sequences of {} calls out of {:?} over {} streams", depth, few, ns), kf.pow(depth) * ns, |c, i| {
        let mut ix = Ix(i);
        let s = &streams[ix.take(ns as usize)];
        let o: Vec<DOp> = (0..depth).map(|_| few[ix.take(kf as usize)]).collect();
        c.sample(|| format!("{:?}", o));
        drive::<All>(c, s, &o, &all_cps());
    });
    // encoder
    let kk = |cp: u16, i: usize| MAttr::known(cp, vals(kind_of(cp).unwrap())[i].clone());
    let msgs: Vec<(Message<All>, Option<Vec<u8>>)> = [
        msg(0, 1, TID, vec![]),
        msg(2, 0x123, TID, vec![kk(0x8022, 0), kk(0x20, 0), kk(0x25, 0)]),
        MMsg { class: 0, method: 1, tid: TID, attrs: vec![kk(0x20, 4), MAttr::known(0x13, Val::Bytes(vec![1; 65535]))] },
        MMsg { class: 0, method: 1, tid: TID, attrs: vec![kk(0x8022, 1), MAttr::known(0x0A, Val::Types(vec![1; 32768]))] },
    ]
    .iter()
    .map(|m| (build::<All>(m).expect("valid"), encode_msg(m)))
    .collect();
    let puts = |ks: &[usize]| ks.iter().flat_map(|k| [EOp::Put(*k, false), EOp::Put(*k, true)]).collect::<Vec<_>>();
    let starts = |n: usize| (0..n).map(EOp::Start).collect::<Vec<_>>();
    encoder_calls(x, "encoder", &msgs, [starts(msgs.len()), puts(&[0, 1, 3, 20, 22, 40, 200])].concat(), x.pick(4, 5));
    encoder_calls(x, "encoder-long", &msgs, [starts(2), puts(&[0, 1, 20, 200])].concat(), x.pick(6, 7));
    value_calls(x);
}
/// Calls on the codec of one attribute type, outside a message.
#[derive(Clone, Copy, Debug)]
enum VOp {
    Start(usize),
    Feed(usize, bool),
    Finish,
    Put(usize, bool),
}
struct Misuse {
    cp: u16,
    dec: fn(&mut Case, &[VOp], u16),
    enc: fn(&mut Case, &[VOp], u16),
}
fn misuse_dec<S: AttrSet>(c: &mut Case, ops: &[VOp], cp: u16) {
    use bytecodec::TryTaggedDecode;
    let kind = kind_of(cp).unwrap_or(Kind::Bytes);
    // raw attributes take every type
    let any = S::cps().is_empty();
    let mut now = None;
    let values: Vec<Vec<u8>> = crate::p_attr::real_vals(kind).iter().take(2).map(|v| encode_value(crate::p_attr::plain(kind), v, &TID)).collect();
    let mut d = S::Decoder::default();
    // bytes taken since the last item
    let mut taken: Vec<u8> = vec![];
    let mut feeding = 0;
    for (n, op) in ops.iter().enumerate() {
        c.op(1);
        let say = |s: String| format!("{} {:?}: step {} {}", name_of(cp), ops, n, s);
        match op {
            VOp::Start(v) => {
                let t = if *v == 9 { 0x7abc } else { cp };
                let own = d.try_start_decoding(AttributeType::new(t));
                now = own.as_ref().ok().and_then(|ok| ok.then_some(t));
                c.check("calls", !matches!(own, Ok(ok) if ok != (any || *v != 9)), || say(format!("starts: {:?}", own)));
                feeding = *v % values.len();
            }
            VOp::Feed(k, eos) => {
                let v = &values[feeding];
                let at = taken.len().min(v.len());
                let chunk = &v[at..(at + k).min(v.len())];
                // after an error it is not known how many bytes were taken, at most all
                let used = d.decode(chunk, Eos::new(*eos)).unwrap_or(chunk.len());
                if !c.check("calls", used <= chunk.len(), || say(format!("takes {} of {} bytes", used, chunk.len()))) {
                    return;
                }
                taken.extend_from_slice(&chunk[..used]);
            }
            VOp::Finish => {
                if let Ok(item) = d.finish_decoding() {
                    let (got, v) = item.cv();
                    let wire = encode_value(crate::p_attr::plain(kind), &v, &TID);
                    c.outcome("item");
                    // nothing is made up: an item needs its bytes
                    if !c.check("calls", (if any { now.take() == Some(got) } else { got == cp }) && wire.len() <= taken.len(), || say(format!("yields {:?} from {} bytes", v, taken.len()))) {
                        return;
                    }
                    taken.clear();
                }
            }
            VOp::Put(..) => unreachable!(),
        }
        let _ = (d.is_idle(), d.requiring_bytes());
    }
    c.outcome("decoder calls");
}
fn misuse_enc<S: AttrSet>(c: &mut Case, ops: &[VOp], cp: u16) {
    let kind = kind_of(cp).unwrap_or(Kind::Bytes);
    let vals = crate::p_attr::real_vals(kind);
    let values: Vec<(&Val, Vec<u8>)> = [&vals[0], &vals[vals.len() / 2]].into_iter().map(|v| (v, encode_value(crate::p_attr::plain(kind), v, &TID))).collect();
    let mut e = S::Encoder::default();
    let mut left: Vec<u8> = vec![];
    for (n, op) in ops.iter().enumerate() {
        c.op(1);
        let say = |s: String| format!("{} {:?}: step {} {}", name_of(cp), ops, n, s);
        match op {
            VOp::Start(v) => {
                let (val, bytes) = &values[*v];
                let idle = e.is_idle();
                let r = e.start_encoding(S::make(cp, val).expect("valid"));
                c.outcome(if r.is_ok() { "started" } else { "refused" });
                if !c.check("calls", r.is_ok() == idle, || say(format!("start when idle={}: {:?}", idle, r))) {
                    return;
                }
                if r.is_ok() {
                    left = bytes.clone();
                }
            }
            VOp::Put(k, last) => {
                let mut b = vec![0xA5; k + 3];
                match e.encode(&mut b[..*k], Eos::new(*last)) {
                    Ok(used) => {
                        let most = left.len().min(*k);
                        if !c.check("calls", used <= most && b[..used] == left[..used] && b[used..].iter().all(|x| *x == 0xA5), || say(format!("writes {} instead of a beginning of {}", hex(&b), hex(&left)))) {
                            return;
                        }
                        left.drain(..used);
                    }
                    Err(_) => {
                        let now = e.exact_requiring_bytes() as usize;
                        if !c.check("calls", *last && *k < left.len() && now <= left.len() && left.len() - now <= *k, || say(format!("fails with {} to drain, announces {}", left.len(), now))) {
                            return;
                        }
                        left.drain(..left.len() - now);
                    }
                }
            }
            _ => unreachable!(),
        }
        if !c.check("calls", e.exact_requiring_bytes() == left.len() as u64 && (left.is_empty() || !e.is_idle()), || say(format!("idle={} announces {} of {}", e.is_idle(), e.exact_requiring_bytes(), left.len()))) {
            return;
        }
    }
    c.outcome("encoder calls");
}
macro_rules! misuse_rows {
    ($($t:ident),*) => {
        fn misuse_table() -> Vec<(Misuse, Misuse)> {
            vec![$((
                Misuse { cp: <$t as View>::CP, dec: misuse_dec::<$t>, enc: misuse_enc::<$t> },
                Misuse { cp: <$t as View>::CP, dec: misuse_dec::<All>, enc: misuse_enc::<All> },
            )),*]
        }
    };
}
for_all_attrs!(misuse_rows);
fn value_calls(x: &mut Ctx) {
    let mut table = misuse_table();
    let raw = || Misuse { cp: 0x7001, dec: misuse_dec::<RawAttributeSet>, enc: misuse_enc::<RawAttributeSet> };
    table.push((raw(), raw()));
    let n = table.len();
    let mut ops: Vec<VOp> = vec![VOp::Start(0), VOp::Start(1), VOp::Start(9), VOp::Finish];
    for k in [0, 1, 4, 200] {
        ops.push(VOp::Feed(k, false));
        ops.push(VOp::Feed(k, true));
    }
    let (k, depth) = (ops.len() as u64, x.pick(4u32, 5));
    x.space("value-decoders", &format!("all sequences of {} calls out of {:?} on the decoders of the 32 types, of an enum of all, and of raw attributes", depth, ops), n as u64 * 2 * k.pow(depth), |c, i| {
        let mut ix = Ix(i);
        let (t, en) = (ix.take(n), ix.take(2));
        let o: Vec<VOp> = (0..depth).map(|_| ops[ix.take(k as usize)]).collect();
        let m = if en == 0 { &table[t].0 } else { &table[t].1 };
        c.state(&i);
        c.sample(|| format!("{} {:?}", name_of(m.cp), o));
        (m.dec)(c, &o, m.cp);
    });
    let mut ops: Vec<VOp> = vec![VOp::Start(0), VOp::Start(1)];
    for k in [0, 1, 3, 4, 200] {
        ops.push(VOp::Put(k, false));
        ops.push(VOp::Put(k, true));
    }
    let (k, depth) = (ops.len() as u64, x.pick(4u32, 5));
    x.space("value-encoders", &format!("all sequences of {} calls out of {:?} on the encoders of the 32 types, of an enum of all, and of raw attributes", depth, ops), n as u64 * 2 * k.pow(depth), |c, i| {
        let mut ix = Ix(i);
        let (t, en) = (ix.take(n), ix.take(2));
        let o: Vec<VOp> = (0..depth).map(|_| ops[ix.take(k as usize)]).collect();
        let m = if en == 0 { &table[t].0 } else { &table[t].1 };
        c.state(&i);
        c.sample(|| format!("{} {:?}", name_of(m.cp), o));
        (m.enc)(c, &o, m.cp);
    });
}
fn encoder_calls(x: &mut Ctx, name: &str, msgs: &[(Message<All>, Option<Vec<u8>>)], ops: Vec<EOp>, depth: u32) {
    let k = ops.len() as u64;
    x.space(name, &format!("all sequences of {} calls out of {:?}", depth, ops), k.pow(depth), |c, i| {
        let mut ix = Ix(i);
        let o: Vec<EOp> = (0..depth).map(|_| ops[ix.take(k as usize)]).collect();
        c.sample(|| format!("{:?}", o));
        let say = |n: usize| format!("{:?}: step {}", o, n);
        let mut e = MessageEncoder::<All>::new();
        let mut left: Vec<u8> = vec![];
        for (n, op) in o.iter().enumerate() {
            c.op(1);
            match op {
                EOp::Start(j) => {
                    let (m, bytes) = &msgs[*j];
                    let r = e.start_encoding(m.clone());
                    let want = left.is_empty() && bytes.is_some();
                    c.outcome(if r.is_ok() { "started" } else { "refused" });
                    if !c.check("order", r.is_ok() == want, || format!("{}: start gives {:?} with {} bytes to drain", say(n), r, left.len())) {
                        return;
                    }
                    if want {
                        left = bytes.clone().unwrap();
                    }
                }
                EOp::Put(k, last) => {
                    let mut b = vec![0xA5; k + 3];
                    match e.encode(&mut b[..*k], Eos::new(*last)) {
                        Ok(used) => {
                            c.outcome("encoded");
                            let most = left.len().min(*k);
                            let fair = used <= most && (used > 0 || most == 0) && (!*last || used == left.len() || used == *k);
                            if !c.check("order", fair && b[..used] == left[..used] && b[used..].iter().all(|x| *x == 0xA5), || format!("{}: writes {} instead of a beginning of {}", say(n), hex(&b[..used.min(*k)]), hex(&left))) {
                                return;
                            }
                            left.drain(..used);
                        }
                        Err(_) => {
                            // only for a buffer that ends the stream too early
                            c.outcome("too small at the end");
                            if !c.check("order", *last && *k < left.len(), || format!("{}: fails with {} bytes to drain", say(n), left.len())) {
                                return;
                            }
                            // some bytes are lost; what it announces now is what follows
                            let now = e.exact_requiring_bytes() as usize;
                            if !c.check("order", now <= left.len() && left.len() - now <= *k, || format!("{}: announces {} of {} bytes", say(n), now, left.len())) {
                                return;
                            }
                            left.drain(..left.len() - now);
                        }
                    }
                }
            }
            if !c.check("order", e.is_idle() == left.is_empty() && e.exact_requiring_bytes() == left.len() as u64, || format!("{}: idle={} announces {} of {}", say(n), e.is_idle(), e.exact_requiring_bytes(), left.len())) {
                return;
            }
            c.state(&left);
        }
    });
}
