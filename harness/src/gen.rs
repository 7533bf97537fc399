//! Alphabets: small, collision-prone domains of values, attributes and messages.
use crate::fw::{seq, seqs};
use crate::refm::*;
use std::net::SocketAddr;

pub fn tids() -> Vec<[u8; 12]> {
    vec![
        [0; 12],
        [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12],
        [0xb7, 0xe7, 0xa7, 0x01, 0xbc, 0x34, 0xd6, 0x86, 0xfa, 0x87, 0xdf, 0xae],
        [0xff; 12],
    ]
}
/// Transaction ids made of words that mean something elsewhere in a message, and of repeated bytes.
pub fn tids_wide() -> Vec<[u8; 12]> {
    let words: [u32; 14] = [
        0, u32::MAX, 0x2112_a442, 0x42a4_1221, 0x5354_554e, 0x0001_0000, 0x0101_000c, 0x8028_0004, 0x0008_0014, 1, 0x8000_0000, 0xb7e7_a701,
        0x2112_0000, 0x7f00_0001,
    ];
    let mut v = Vec::new();
    for a in words {
        for b in words {
            for c in words {
                let mut t = [0; 12];
                for (d, w) in t.chunks_mut(4).zip([a, b, c]) {
                    d.copy_from_slice(&w.to_be_bytes());
                }
                v.push(t);
            }
        }
    }
    for bg in tids() {
        for p in 0..9 {
            for w in [0x2112_a442u32, 0x5354_554e, 0x8028_0004, 0x0008_0014] {
                let mut t = bg;
                t[p..p + 4].copy_from_slice(&w.to_be_bytes());
                v.push(t);
            }
        }
    }
    v.extend((0..=255).map(|b| [b; 12]));
    v.sort();
    v.dedup();
    v
}
/// Number of `tid_pair`s.
pub const TID_PAIRS: u64 = 11 * 65536 * 2;
/// Every value of two adjacent bytes on two backgrounds.
pub fn tid_pair(i: u64) -> [u8; 12] {
    let mut t = if i % 2 == 0 { [0; 12] } else { TID };
    let p = (i / 2 % 11) as usize;
    t[p..p + 2].copy_from_slice(&((i / 22) as u16).to_be_bytes());
    t
}
pub const TID: [u8; 12] = [0xb7, 0xe7, 0xa7, 0x01, 0xbc, 0x34, 0xd6, 0x86, 0xfa, 0x87, 0xdf, 0xae];
pub fn addrs() -> Vec<SocketAddr> {
    [
        "192.0.2.1:32853",
        "0.0.0.0:0",
        "255.255.255.255:65535",
        "33.18.164.66:8466",
        "[2001:db8:1234:5678:11:2233:4455:6677]:32853",
        "[::]:0",
        "[ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff]:65535",
        "[::ffff:1.2.3.4]:256",
        "[2112:a442:b7e7:a701:bc34:d686:fa87:dfae]:8466",
    ]
    .iter()
    .map(|s| s.parse().unwrap())
    .collect()
}
/// Addresses of special ranges, which careless code treats differently (mapped, embedded, scoped, multicast).
pub fn odd_addrs() -> Vec<SocketAddr> {
    [
        "127.0.0.1:1", "10.0.0.1:443", "169.254.1.1:80", "224.0.0.1:5353", "0.1.2.3:7", "[::1]:1", "[::ffff:0:0]:1", "[::ffff:33.18.164.66]:8466",
        "[::1.2.3.4]:80", "[::ffff:0:1.2.3.4]:80", "[64:ff9b::1.2.3.4]:80", "[2002:102:304::]:80", "[2001:0:102:304::1]:3544", "[fe80::1]:546", "[fec0::1]:1",
        "[fc00::1]:1", "[ff02::1]:5353", "[2112:a442::]:0", "[2112:a442:b7e7:a701:bc34:2979:f97a:dcac]:0",
    ]
    .iter()
    .map(|s| s.parse().unwrap())
    .collect()
}
pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = ["abc", "", "a", "ab", "abcd", "abcde", "é", "日本", "\u{10348}x", "\0", "a:b", "x y\u{7f}"].iter().map(|s| s.to_string()).collect();
    v.push("x".repeat(127));
    v.push("é".repeat(127));
    v.push("\u{10ffff}".repeat(127));
    v.extend(odd_strings());
    v
}
/// Text that careless handling (trimming, unquoting, case folding, normalisation, C strings) changes.
pub fn odd_strings() -> Vec<String> {
    [
        "\"r\"", "\"r", "r\"", "'r'", "\\\"r\\\"", "a\\b", " r", "r ", "\tr", "r\r\n", "\r\n", "R", "MiXeD", "\u{feff}r", "r\0", "\0r", "a\0b",
        "\u{2168}", "a\u{ad}b", "e\u{301}", "\u{fb01}", "\u{1e9e}", "\u{3000}x", "\u{aa}", "I\u{307}", "a,b=c;d", "%41", "user@example.org", "<r>", "\u{1}\u{1f}",
        "\u{7ff}\u{800}", "\u{d7ff}\u{e000}", "\u{ffff}\u{10000}", "obMatJos2AAAA",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}
pub fn blobs() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..=9).map(|n| (0..n).map(|i| 0x11 * (i as u8 + 1)).collect()).collect();
    v.push(vec![0; 4]);
    v.push(vec![0xff; 255]);
    v.push(vec![0; 256]);
    v.push((0..=255u8).cycle().take(1025).collect());
    // bytes that look like a STUN header with a cookie, and like a nested attribute
    v.push(header(0x0101, 8, &TID));
    v.push(tlv(0x8028, &[1, 2, 3, 4], None));
    v
}
/// Values that are themselves packets (STUN, ChannelData, RTP, DTLS, attributes, texts), exact, cut and extended.
pub fn embedded() -> Vec<Vec<u8>> {
    let mut base = vec![
        header(0x0001, 0, &TID),
        header(0x0101, 8, &TID),
        header(0x0017, 0, &[0; 12]),
        wire_msg(0x0001, &[(0x8022, b"abc".to_vec())]),
        wire_msg(0x0101, &[(0x0020, wire(0x0020, 0)), (0x8028, vec![])]),
        wire_msg(0x0016, &[(0x0012, wire(0x0012, 0)), (0x0013, b"x".to_vec())]),
        wire_msg(0x0111, &[(0x0009, wire(0x0009, 3)), (8, vec![])]),
        vec![0x21, 0x12, 0xa4, 0x42],
        vec![0x21, 0x12, 0xa4, 0x42, 0x21, 0x12, 0xa4, 0x42],
        TID.to_vec(),
        vec![0x40, 0, 0, 4, 1, 2, 3, 4],
        vec![0x40, 1, 0, 3, 1, 2, 3, 0],
        vec![0x4f, 0xff, 0, 0],
        vec![0x80, 0, 0, 1, 0, 0, 0, 160, 1, 2, 3, 4],
        vec![22, 0xfe, 0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4],
        vec![0, 20, 0, 1],
        tlv(0x0001, &[0, 1, 0, 80, 127, 0, 0, 1], None),
        tlv(0x8022, b"abc", None),
        [tlv(0x8022, b"abc", None), tlv(0x8028, &[1, 2, 3, 4], None)].concat(),
        vec![0x31, 0x32, 0x37, 0x2e, 0x30, 0x2e, 0x30, 0x2e, 0x31],
        vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3],
        vec![0xef, 0xbb, 0xbf, 0x61],
        vec![0x30, 0x82, 0, 4, 2, 2, 1, 1],
    ];
    for s in strings() {
        base.push(s.into_bytes());
    }
    let mut v = vec![];
    for b in base {
        for n in 1..=4usize {
            for f in [0u8, 9, 0xff] {
                v.push([&b[..], &vec![f; n][..]].concat());
                v.push([&vec![f; n][..], &b[..]].concat());
            }
            if b.len() >= n {
                v.push(b[..b.len() - n].to_vec());
                v.push(b[n..].to_vec());
            }
        }
        v.push([&b[..], &b[..]].concat());
        let mut r = b.clone();
        r.reverse();
        v.push(r);
        v.push(b);
    }
    v.sort();
    v.dedup();
    v
}
/// Placeholders replaced by `resolve` with the digest of the bytes preceding the attribute.
pub const FP_AUTO: Val = Val::U(u64::MAX);
pub fn mi_auto() -> Val {
    Val::Bytes(vec![])
}
pub const PW: &str = "VOkJxbRl1RmTxUk/WvJxBt";

/// Boundary values of an attribute kind.
pub fn vals(kind: Kind) -> Vec<Val> {
    use Kind::*;
    let u = |v: &[u64]| v.iter().map(|x| Val::U(*x)).collect::<Vec<_>>();
    match kind {
        Addr | Xor => addrs().into_iter().chain(odd_addrs()).map(Val::Addr).collect(),
        Str => strings().into_iter().map(Val::Str).collect(),
        User => {
            let mut v: Vec<Val> = strings().into_iter().filter(|s| s.len() <= 512).map(Val::Str).collect();
            v.push(Val::Str("u".repeat(512)));
            v.push(Val::Str("é".repeat(256)));
            v
        }
        ErrCode => {
            let mut v: Vec<Val> = [300u16, 301, 399, 400, 401, 420, 438, 487, 499, 500, 508, 599].iter().map(|c| Val::Err(*c, "Reason".into())).collect();
            v.extend(strings().into_iter().map(|s| Val::Err(420, s)));
            v.push(Val::Err(400, "r".repeat(763)));
            v
        }
        Fp => vec![FP_AUTO],
        Mi => vec![mi_auto()],
        Types => vec![
            Val::Types(vec![]),
            Val::Types(vec![0x7fff]),
            Val::Types(vec![1, 0x8000]),
            Val::Types(vec![0xffff, 0, 0x0102]),
            Val::Types((0..300).collect()),
        ],
        Chan => u(&[0x4000, 0x4001, 0x40ff, 0x4100, 0x4ffe, 0x4fff]),
        U32 => u(&[0, 1, 0x0102_0304, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]),
        U64 => u(&[0, 1, 0x0102_0304_0506_0708, 0x8000_0000_0000_0000, u64::MAX, 0x0000_0001_0000_0000]),
        Bytes => blobs().into_iter().map(Val::Bytes).collect(),
        Even => u(&[0, 1]),
        Trans => u(&[0, 1, 6, 17, 0x80, 255]),
        Unit => vec![Val::Unit],
        Change => vec![Val::Flags(false, false), Val::Flags(false, true), Val::Flags(true, false), Val::Flags(true, true)],
        Port => u(&[0, 1, 0x0102, 0x00ff, 0x8000, 65535]),
        Fam => u(&[1, 2]),
    }
}
/// A few values per kind, covering each padding class that the kind allows.
pub fn few(kind: Kind) -> Vec<Val> {
    use Kind::*;
    let a = vals(kind);
    let pick: &[usize] = match kind {
        Addr | Xor => &[0, 4],
        Str | User => &[0, 4],
        ErrCode => &[5],
        Types => &[1],
        Chan | U32 | U64 | Trans | Port => &[2],
        Bytes => &[1, 6],
        Change => &[2],
        Even | Fam => &[1],
        Fp | Mi | Unit => &[0],
    };
    pick.iter().map(|i| a[*i].clone()).collect()
}
/// Known attributes with all boundary values.
pub fn attrs_full() -> Vec<MAttr> {
    all_specs().flat_map(|s| vals(s.kind).into_iter().map(move |v| MAttr::known(s.cp, v))).collect()
}
pub fn attrs_few() -> Vec<MAttr> {
    all_specs().flat_map(|s| few(s.kind).into_iter().map(move |v| MAttr::known(s.cp, v))).collect()
}
/// A dozen attributes whose codecs and hooks interact most (digests, XOR, padding, empties).
pub fn attrs_core() -> Vec<MAttr> {
    let k = |cp: u16, i: usize| MAttr::known(cp, vals(kind_of(cp).unwrap())[i].clone());
    vec![
        k(0x8022, 0),
        k(0x0020, 0),
        k(0x0020, 4),
        k(0x0001, 0),
        k(0x8028, 0),
        k(0x0008, 0),
        k(0x0013, 1),
        k(0x0018, 1),
        k(0x0009, 12),
        k(0x000A, 1),
        k(0x001A, 0),
        k(0x0006, 4),
    ]
}
/// Replaces digest placeholders by correct values for their position.
pub fn resolve(mut m: MMsg) -> MMsg {
    for i in 0..m.attrs.len() {
        let fp = m.attrs[i].body == Body::Known(FP_AUTO) && m.attrs[i].cp == 0x8028;
        let mi = m.attrs[i].body == Body::Known(mi_auto()) && m.attrs[i].cp == 0x0008;
        if fp || mi {
            let prefix = MMsg { attrs: m.attrs[..i].to_vec(), ..m.clone() };
            let b = encode_msg(&prefix).expect("prefix fits");
            m.attrs[i].body = Body::Known(if fp { Val::U(fp_value(&b) as u64) } else { Val::Bytes(mi_value(&b, PW.as_bytes()).to_vec()) });
        }
    }
    m
}
pub fn msg(class: u8, method: u16, tid: [u8; 12], attrs: Vec<MAttr>) -> MMsg {
    resolve(MMsg { class, method, tid, attrs })
}
/// A valid example value (wire form) of a known type, for message-level wire alphabets.
pub fn wire(cp: u16, i: usize) -> Vec<u8> {
    let k = kind_of(cp).unwrap();
    let vs = vals(k);
    encode_value(k, &vs[i % vs.len()], &TID)
}

pub fn frame(t: u16, body: &[u8]) -> Vec<u8> {
    let mut v = header(t, body.len() as u16, &TID);
    v.extend_from_slice(body);
    v
}
pub fn padded(cp: u16, value: &[u8], pad: &[u8]) -> Vec<u8> {
    tlv(cp, value, Some(pad))
}
/// Appends attributes given as (type, value bytes); digests marked by an empty value are computed.
pub fn wire_msg(t: u16, attrs: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut b = header(t, 0, &TID);
    for (cp, v) in attrs {
        let v = match cp {
            0x8028 if v.is_empty() => fp_value(&b).to_be_bytes().to_vec(),
            0x0008 if v.is_empty() => mi_value(&b, PW.as_bytes()).to_vec(),
            _ => v.clone(),
        };
        b.extend(tlv(*cp, &v, None));
    }
    let l = (b.len() - 20) as u16;
    b[2..4].copy_from_slice(&l.to_be_bytes());
    b
}
/// A typical valid value per attribute type.
pub fn typical(cp: u16) -> Vec<u8> {
    match kind_of(cp) {
        Some(Kind::Fp) | Some(Kind::Mi) => vec![],
        Some(k) => encode_value(k, &few(k)[0], &TID),
        None => vec![1, 2, 3],
    }
}
/// Well-formed messages (all reserved bits zero): one per attribute type, then combinations.
pub fn bases() -> Vec<Vec<u8>> {
    let a = |cp: u16| (cp, typical(cp));
    let mut v = vec![wire_msg(1, &[])];
    for s in all_specs() {
        v.push(wire_msg(1, &[a(s.cp)]));
    }
    v.push(wire_msg(0x0001, &[(0x8022, b"STUN test client".to_vec()), (0x24, vec![0x6e, 0, 1, 0xff]), (0x8029, vec![0x93, 0x2f, 0xf9, 0xb1, 0x51, 0x26, 0x3b, 0x36]), (6, b"evtj:h6vY".to_vec()), a(8), a(0x8028)]));
    v.push(wire_msg(0x0101, &[(0x8022, b"test vector".to_vec()), (0x20, wire(0x20, 0)), a(8), a(0x8028)]));
    v.push(wire_msg(0x0101, &[(0x8022, b"test vector".to_vec()), (0x20, wire(0x20, 4)), a(8), a(0x8028)]));
    v.push(wire_msg(0x0001, &[(6, "マトリックス".as_bytes().to_vec()), (0x15, b"f//499k954d6OL34oL9FSTvy64sA".to_vec()), (0x14, b"example.org".to_vec()), a(8)]));
    v.push(wire_msg(0x0111, &[(9, wire(9, 6)), (10, vec![0, 3, 0x7f, 0xff]), a(0x8028)]));
    v.push(wire_msg(0x0016, &[(0x12, wire(0x12, 0)), (0x13, b"x".to_vec()), (0x7777, vec![9]), (0x13, vec![]), (0xC001, vec![])]));
    v.push(wire_msg(0x3EEF, &[a(0x8028), (0x25, vec![]), a(0x8028), (0x16, wire(0x16, 5)), (0x8020, wire(0x8020, 1)), (0x18, vec![0x80])]));
    v
}
/// Acceptable headers with a malformed attribute part, by distinct causes.
pub fn brokens() -> Vec<Vec<u8>> {
    let ok = tlv(0x8022, b"abc", None);
    let cat = |parts: &[Vec<u8>]| parts.concat();
    let mut v = vec![
        frame(0x0101, &[0, 1, 0]),                                         // attribute header cut
        frame(0x0101, &cat(&[ok.clone(), vec![0x80]])),                    // cut after an attribute
        frame(0x0101, &cat(&[ok.clone(), vec![0, 1, 0, 8, 0, 1]])),        // value cut
        frame(0x0101, &cat(&[ok.clone(), vec![0x80, 0x22, 0, 1, 0x41]])),  // padding cut
        frame(0x0101, &cat(&[ok.clone(), tlv(1, &[0, 3, 0, 80, 127, 0, 0, 1], None)])), // family
        frame(0x0101, &cat(&[tlv(1, &[0, 1, 0, 80, 127, 0, 0], None), ok.clone()])),    // value too short
        frame(0x0101, &cat(&[tlv(0x24, &[1, 2, 3, 4, 5], None), ok.clone()])),          // value too long
        frame(0x0101, &cat(&[tlv(6, &[0xff, 0xfe, 0xfd], None), ok.clone()])),          // not UTF-8
        frame(0x0101, &tlv(9, &[0, 0, 6, 0], None)),                       // error class
        frame(0x0101, &tlv(0xC, &[0x50, 0, 0, 0], None)),                  // channel range
        frame(0x0101, &tlv(0x17, &[3, 0, 0, 0], None)),                    // family attribute
        frame(0x0101, &cat(&[ok.clone(), tlv(0x8028, &[0; 4], None), ok.clone()])), // FINGERPRINT
        frame(0x0101, &tlv(0x8022, &[b'a'; 128], None)),                   // text too long
        frame(0x0101, &tlv(0x25, &[1], None)),                             // flag with value
        frame(0x0101, &cat(&[ok.clone(), vec![0x77, 0x77, 0, 2, 1]])),     // unknown value cut in the middle
        frame(0x0101, &cat(&[vec![0, 0x13, 0, 8, 1, 2, 3, 4, 5, 6, 7]])),  // DATA one byte short
        frame(0x0101, &cat(&[ok.clone(), vec![0x80, 0x22, 0, 4, 0x41, 0x42, 0x43]])), // text one byte short
        frame(0x0101, &cat(&[vec![0, 0x0a, 0, 8, 0, 1, 0, 2]])),           // list half there
        frame(0x0101, &cat(&[ok.clone(), vec![0x77, 0x77, 0, 9]])),        // value missing entirely
        frame(0x0101, &tlv(10, &[0, 1, 2], None)),                         // odd type list
    ];
    let mut fp = wire_msg(0x0101, &[(0x20, wire(0x20, 4)), (0x8028, vec![])]);
    fp[30] ^= 1;
    v.push(fp);
    v
}
/// Inputs refused because of the header.
pub fn rejects() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (i, x) in [(0usize, 0x40u8), (0, 0x80), (0, 0xc0), (4, 0x01), (5, 0x80), (7, 0xff)] {
        let mut b = wire_msg(1, &[(0x8022, b"abc".to_vec())]);
        b[i] ^= x;
        v.push(b);
    }
    v
}

// ---------------------------------------------------------------- sizes and numbers
/// Numbers of attributes around growth and wrap-around boundaries.
pub fn counts(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).chain(62..=66).chain(126..=130).collect();
    if deep {
        v.extend((41..=62).chain(67..=100).chain(254..=258).chain(510..=514).chain(1022..=1026));
    } else {
        v.extend([255, 256, 257]);
    }
    v
}
/// Value lengths around block, buffer and wrap-around boundaries.
pub fn lengths(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=72).collect();
    let r = if deep { 9 } else { 3 };
    for p in [128, 256, 512, 763, 1024, 1280, 1500, 2048, 4096, 8192, 16384, 32768] {
        v.extend(p - r..=p + r);
    }
    v.extend(65536 - 40 - r..=65500);
    v.retain(|l| *l <= 65500);
    v
}
pub const CHUNKS: [usize; 24] = [1, 2, 3, 4, 5, 7, 16, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096];
/// `n` copies of `a`, with `b` behind every copy if given.
pub fn copies(a: &MAttr, b: Option<&MAttr>, n: usize) -> Vec<MAttr> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(a.clone());
        v.extend(b.cloned());
    }
    v
}

// ---------------------------------------------------------------- wide domains
/// The phrases which the specifications suggest for error codes.
pub const PHRASES: [&str; 16] = [
    "Try Alternate", "Bad Request", "Unauthorized", "Unknown Attribute", "Stale Nonce", "Server Error", "Forbidden", "Allocation Mismatch", "Wrong Credentials",
    "Unsupported Transport Protocol", "Allocation Quota Reached", "Insufficient Capacity", "Mobility Forbidden", "Role Conflict", "Address Family not Supported", "Peer Address Family Mismatch",
];
/// Large (where possible complete) domains of one attribute value.
pub fn wide(kind: Kind) -> Vec<Val> {
    use Kind::*;
    let bits = |n: u32| {
        let m = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
        let mut v = vec![];
        for a in 0..n {
            for b in 0..=a {
                let w = (1u64 << a) | (1u64 << b);
                v.extend([w, !w & m, w.wrapping_sub(1) & m, w.wrapping_add(1) & m]);
            }
        }
        v.extend(0..4097);
        for sh in (0..n).step_by(8) {
            v.extend((0..256).map(|x| (x << sh) & m));
            v.extend((0..256).map(|x| !(x << sh) & m));
        }
        v.sort();
        v.dedup();
        v
    };
    let text = |max: usize, bytes: bool| {
        let mut v: Vec<String> = strings();
        v.extend((0u32..0x250).filter_map(char::from_u32).map(|c| c.to_string()));
        v.extend((0u32..0x110000).step_by(0x101).filter_map(char::from_u32).map(|c| format!("{}z", c)));
        for a in 0..128u8 {
            for b in 0..128u8 {
                v.push([a as char, b as char].iter().collect());
            }
        }
        for c in ["q", "\u{e9}", "\u{65e5}", "\u{10348}", "\0", " "] {
            v.extend((0..=max).map(|n| c.repeat(n)).filter(|s| !bytes || s.len() <= max));
        }
        // characters across every byte position
        for c in ["\u{e9}", "\u{65e5}", "\u{10348}"] {
            for k in 1..c.len() {
                v.extend((1..=max - k).map(|n| format!("{}{}", "abc".get(..k).unwrap(), c.repeat(n))).filter(|s| !bytes || s.len() <= max));
            }
        }
        v
    };
    match kind {
        Addr | Xor => {
            let mut v = vec![];
            for a in addrs().into_iter().chain(odd_addrs()) {
                let mut ports: Vec<u16> = (0..16).flat_map(|b| [1u16 << b, !(1u16 << b), (1u16 << b) - 1]).collect();
                ports.extend([0x2112, !0x2112, 0x1221, 53, 80, 443, 3478, 3479, 5349, 65535]);
                v.extend(ports.into_iter().map(|p| SocketAddr::new(a.ip(), p)));
            }
            for base in ["192.0.2.1:32853", "0.0.0.0:0"] {
                let SocketAddr::V4(a) = base.parse::<SocketAddr>().unwrap() else { unreachable!() };
                for (p, x) in (0..4).flat_map(|p| (0..=255u8).map(move |x| (p, x))) {
                    let mut o = a.ip().octets();
                    o[p] = x;
                    v.push(SocketAddr::new(std::net::IpAddr::V4(o.into()), a.port()));
                }
            }
            for base in ["[2001:db8:1234:5678:11:2233:4455:6677]:32853", "[::]:0", "[::ffff:1.2.3.4]:256"] {
                let SocketAddr::V6(a) = base.parse::<SocketAddr>().unwrap() else { unreachable!() };
                for (p, x) in (0..16).flat_map(|p| (0..=255u8).map(move |x| (p, x))) {
                    let mut o = a.ip().octets();
                    o[p] = x;
                    v.push(SocketAddr::new(std::net::IpAddr::V6(o.into()), a.port()));
                }
            }
            v.into_iter().map(Val::Addr).collect()
        }
        Str => text(127, false).into_iter().map(Val::Str).collect(),
        User => text(512, true).into_iter().filter(|s| s.len() <= 512).map(Val::Str).collect(),
        ErrCode => {
            let mut v = vec![];
            let mut ps: Vec<String> = PHRASES.iter().map(|s| s.to_string()).collect();
            ps.extend(["", "x", "Reason", " ", "unauthorized", "Role Conflict\0", "\u{e9}"].map(String::from));
            for c in 300..600 {
                v.extend(ps.iter().map(|p| Val::Err(c, p.clone())));
            }
            for c in [300, 400, 401, 420, 438, 487, 500, 508, 599] {
                v.extend(strings().into_iter().map(|s| Val::Err(c, s)));
            }
            v.extend((0..1100).map(|n| Val::Err(300 + (n % 300) as u16, "p".repeat(n))));
            v.extend((120..400).map(|n| Val::Err(300 + (n % 300) as u16, "\u{65e5}".repeat(n))));
            v.extend([2047, 2048, 4095, 4096, 8192, 32767, 32768].map(|n| Val::Err(400, "q".repeat(n))));
            v
        }
        Types => {
            const T: [u16; 7] = [0, 1, 0x8022, 0x7fff, 0x8000, 0xffff, 0x0020];
            let mut v: Vec<Val> = (0..seqs(7, 4)).map(|i| Val::Types(seq(i, 7).into_iter().map(|j| T[j]).collect())).collect();
            v.extend((0..=0xffffu16).map(|t| Val::Types(vec![t])));
            v.extend((0..400u16).map(|n| Val::Types((0..n).map(|i| i.wrapping_mul(257)).collect())));
            v.extend((0..40usize).map(|n| Val::Types(vec![0x7777; n])));
            v
        }
        Chan => (0x4000..0x5000).map(Val::U).collect(),
        Port => (0..65536).map(Val::U).collect(),
        Trans => (0..256).map(Val::U).collect(),
        U32 => bits(32).into_iter().map(Val::U).collect(),
        U64 => bits(64).into_iter().map(Val::U).collect(),
        Bytes => {
            let mut v = blobs();
            v.extend((0..=255u8).map(|x| vec![x]));
            v.extend((0..=255u8).flat_map(|x| (0..=255u8).map(move |y| vec![x, y])));
            for f in [0u8, 1, 0x21, 0xff] {
                v.extend((0..300).map(|n| vec![f; n]));
            }
            v.extend((0..300usize).map(|n| (0..n).map(|i| i as u8).collect()));
            v.extend(embedded());
            v.into_iter().map(Val::Bytes).collect()
        }
        k => vals(k),
    }
}
/// All attribute types with all values of their wide domain.
pub fn attrs_wide() -> Vec<MAttr> {
    all_specs().flat_map(|s| wide(s.kind).into_iter().map(move |v| MAttr::known(s.cp, v))).collect()
}
/// The same with unknown attributes, for what is received.
pub fn attrs_wide_wire() -> Vec<MAttr> {
    let mut v = attrs_wide();
    for cp in [0x7001u16, 0xC001] {
        v.extend(embedded().into_iter().map(|b| MAttr::raw(cp, b)));
    }
    v
}

/// Attributes of every type with values of every small length which the type allows, and unknown ones.
pub fn attrs_small() -> Vec<MAttr> {
    let mut v = vec![];
    for s in all_specs() {
        let of = |v: Val| MAttr::known(s.cp, v);
        match s.kind {
            Kind::Str | Kind::User => v.extend((0..=9).map(|n| of(Val::Str("abcdefghi"[..n].into())))),
            Kind::ErrCode => v.extend((0..=9).map(|n| of(Val::Err(300 + 33 * n as u16, "abcdefghi"[..n].into())))),
            Kind::Types => v.extend((0..=5).map(|n| of(Val::Types((0..n).map(|i| 0x7ff0 + i).collect())))),
            Kind::Bytes => v.extend((0..=9).map(|n| of(Val::Bytes((1..=n).collect())))),
            Kind::Fp | Kind::Mi | Kind::Unit => v.push(of(vals(s.kind)[0].clone())),
            k => {
                let a = vals(k);
                let n = a.len().min(10);
                v.extend([0, 1, n / 2, n - 1].into_iter().filter(|i| *i < n).collect::<std::collections::BTreeSet<_>>().into_iter().map(|i| of(a[i].clone())));
            }
        }
    }
    for cp in [0u16, 0x0002, 0x7001, 0xC001, 0xffff] {
        v.extend((0..=9u8).map(|n| MAttr::raw(cp, (1..=n).collect())));
    }
    v
}
/// One attribute of every type.
pub fn attrs_types() -> Vec<MAttr> {
    all_specs().map(|s| MAttr::known(s.cp, few(s.kind)[0].clone())).collect()
}
/// Lists of attributes of all types under the headers of common and other messages: all lists of up to `depth`
/// elements in every order, and all sets of up to `set` types in ascending or descending order; `extra` more elements.
pub struct TypeLists {
    alpha: Vec<MAttr>,
    depth: u32,
    sets: Vec<Vec<usize>>,
}
pub const TL_METHODS: [u16; 4] = [1, 3, 4, 0x0ABC];
impl TypeLists {
    pub fn new(depth: u32, set: usize, raw: bool) -> Self {
        let mut alpha = attrs_types();
        if raw {
            alpha.push(MAttr::raw(0x7001, vec![1, 2, 3]));
            alpha.push(MAttr::raw(0xC001, vec![4; 4]));
        }
        let mut sets = vec![];
        fn rec(n: usize, from: usize, left: usize, min: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if cur.len() >= min {
                out.push(cur.clone());
            }
            if left > 0 {
                for j in from..n {
                    cur.push(j);
                    rec(n, j + 1, left - 1, min, cur, out);
                    cur.pop();
                }
            }
        }
        rec(alpha.len(), 0, set, depth as usize + 1, &mut vec![], &mut sets);
        TypeLists { alpha, depth, sets }
    }
    fn lists(&self) -> u64 {
        seqs(self.alpha.len() as u64, self.depth)
    }
    pub fn n(&self) -> u64 {
        self.lists() * 16 + self.sets.len() as u64 * 2 * 4
    }
    pub fn get(&self, i: u64) -> MMsg {
        use crate::fw::Ix;
        let mut ix = Ix(i);
        let l = self.lists() * 16;
        if i < l {
            let (cl, me) = (ix.take(4) as u8, TL_METHODS[ix.take(4)]);
            return msg(cl, me, TID, seq(ix.0, self.alpha.len() as u64).into_iter().map(|j| self.alpha[j].clone()).collect());
        }
        let mut ix = Ix(i - l);
        let (cl, rev, s) = (ix.take(4) as u8, ix.take(2), &self.sets[ix.0 as usize]);
        let mut a: Vec<MAttr> = s.iter().map(|j| self.alpha[*j].clone()).collect();
        if rev == 1 {
            a.reverse();
        }
        msg(cl, TL_METHODS[ix.0 as usize % 4], TID, a)
    }
    pub fn say(&self) -> String {
        let k = self.sets.iter().map(|s| s.len()).max().unwrap_or(0);
        format!("all lists of up to {} of {} attributes (one per type) x 4 classes x 4 methods, and all sets of up to {} of them, in ascending and descending order, x 4 classes", self.depth, self.alpha.len(), k)
    }
}
/// Attributes of all types far into a message: behind a value that ends just before, at and behind offsets around
/// powers of two, and repeated there.
const COUNTS: [usize; 19] = [511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5461, 8191, 8192, 8193, 16383];
pub struct Far {
    gaps: Vec<usize>,
    alpha: Vec<MAttr>,
    /// without digests
    plain: Vec<MAttr>,
    gap_raw: bool,
}
impl Far {
    pub fn new(deep: bool, raw: bool) -> Self {
        let r = if deep { 6 } else { 2 };
        let mut gaps = vec![];
        for p in [256usize, 512, 1024, 1280, 1500, 2048, 4096, 8192, 16384, 32768, 65535 - 64] {
            for k in -r..=r {
                gaps.push((p as i64 + 4 * k - 24) as usize);
                gaps.push((p as i64 + 4 * k) as usize);
            }
        }
        gaps.retain(|g| *g <= 65400);
        gaps.sort();
        gaps.dedup();
        let mut alpha = attrs_few();
        if raw {
            alpha.push(MAttr::raw(0x7001, vec![1, 2, 3]));
            alpha.push(MAttr::raw(0xC001, vec![4; 4]));
        }
        let plain = alpha.iter().filter(|a| !matches!(a.cp, 8 | 0x8028)).cloned().collect();
        Far { gaps, alpha, plain, gap_raw: raw }
    }
    pub fn n(&self) -> u64 {
        self.n_far() + (COUNTS.len() * self.plain.len() * 3) as u64
    }
    fn n_far(&self) -> u64 {
        (self.gaps.len() * self.alpha.len() * 4) as u64
    }
    pub fn say(&self) -> String {
        format!("{} attributes behind a value of {} lengths up to {}, alone, repeated, before another one, between two; {:?} times as far as they fit, alone, behind and before another one", self.alpha.len(), self.gaps.len(), self.gaps[self.gaps.len() - 1], COUNTS)
    }
    pub fn get(&self, i: u64) -> MMsg {
        use crate::fw::Ix;
        if i >= self.n_far() {
            let mut ix = Ix(i - self.n_far());
            let (how, a, n) = (ix.take(3), self.plain[ix.take(self.plain.len())].clone(), COUNTS[ix.take(COUNTS.len())]);
            let value = match &a.body {
                Body::Known(v) => encode_value(kind_of(a.cp).unwrap(), v, &TID).len(),
                Body::Raw(b) => b.len(),
            };
            let one = 4 + value + padlen(value);
            let mut l = vec![a; n.min((65535 - 8) / one)];
            let z = MAttr::known(0x8022, Val::Str("z".into()));
            match how {
                0 => {}
                1 => l.insert(0, z),
                _ => l.push(z),
            }
            return msg((i % 4) as u8, (i % 4096) as u16, TID, l);
        }
        let mut ix = Ix(i);
        let (how, a, l) = (ix.take(4), self.alpha[ix.take(self.alpha.len())].clone(), self.gaps[ix.take(self.gaps.len())]);
        let v: Vec<u8> = (0..l).map(|k| (k * 7 + k / 251) as u8).collect();
        let g = if self.gap_raw && i % 3 == 0 { MAttr::raw(0x7ABC, v) } else { MAttr::known(if i % 2 == 0 { 0x13 } else { 0x8030 }, Val::Bytes(v)) };
        let z = MAttr::known(0x8022, Val::Str("z".into()));
        let l = match how {
            0 => vec![g, a],
            1 => vec![a.clone(), g, a],
            2 => vec![g, a, z],
            _ => vec![z.clone(), g, a, z],
        };
        msg((i % 4) as u8, (i % 4096) as u16, TID, l)
    }
}
