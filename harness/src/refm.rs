//! Reference model of the STUN wire format (RFC 5389, 5766, 5245, 5780, 8016, 8656),
//! written from the RFCs and independent of the crate under test: plain functions
//! from abstract messages to bytes and back, plus own CRC-32, MD5, SHA-1 and HMAC.
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const COOKIE: [u8; 4] = [0x21, 0x12, 0xA4, 0x42];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Addr(SocketAddr),
    Str(String),
    Err(u16, String),
    U(u64),
    Bytes(Vec<u8>),
    Types(Vec<u16>),
    Flags(bool, bool),
    Unit,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Addr,
    Xor,
    /// UTF-8, fewer than 128 characters
    Str,
    /// UTF-8, at most 512 bytes
    User,
    ErrCode,
    Fp,
    Mi,
    Types,
    Chan,
    U32,
    U64,
    Bytes,
    Even,
    Trans,
    Unit,
    Change,
    Port,
    Fam,
}
use Kind::*;

pub struct Spec {
    pub cp: u16,
    pub name: &'static str,
    pub kind: Kind,
}
const fn sp(cp: u16, name: &'static str, kind: Kind) -> Spec {
    Spec { cp, name, kind }
}
/// Registry of attribute types (IANA STUN attributes as implemented by the crate).
pub static SPEC: [Spec; 32] = [
    sp(0x0001, "MAPPED-ADDRESS", Addr),
    sp(0x0003, "CHANGE-REQUEST", Change),
    sp(0x0006, "USERNAME", User),
    sp(0x0008, "MESSAGE-INTEGRITY", Mi),
    sp(0x0009, "ERROR-CODE", ErrCode),
    sp(0x000A, "UNKNOWN-ATTRIBUTES", Types),
    sp(0x000C, "CHANNEL-NUMBER", Chan),
    sp(0x000D, "LIFETIME", U32),
    sp(0x0012, "XOR-PEER-ADDRESS", Xor),
    sp(0x0013, "DATA", Bytes),
    sp(0x0014, "REALM", Str),
    sp(0x0015, "NONCE", Str),
    sp(0x0016, "XOR-RELAYED-ADDRESS", Xor),
    sp(0x0017, "REQUESTED-ADDRESS-FAMILY", Fam),
    sp(0x0018, "EVEN-PORT", Even),
    sp(0x0019, "REQUESTED-TRANSPORT", Trans),
    sp(0x001A, "DONT-FRAGMENT", Unit),
    sp(0x0020, "XOR-MAPPED-ADDRESS", Xor),
    sp(0x0022, "RESERVATION-TOKEN", U64),
    sp(0x0024, "PRIORITY", U32),
    sp(0x0025, "USE-CANDIDATE", Unit),
    sp(0x0027, "RESPONSE-PORT", Port),
    sp(0x8000, "ADDITIONAL-ADDRESS-FAMILY", Fam),
    sp(0x8020, "XOR-MAPPED-ADDRESS2", Xor),
    sp(0x8022, "SOFTWARE", Str),
    sp(0x8023, "ALTERNATE-SERVER", Addr),
    sp(0x8028, "FINGERPRINT", Fp),
    sp(0x8029, "ICE-CONTROLLED", U64),
    sp(0x802A, "ICE-CONTROLLING", U64),
    sp(0x802B, "RESPONSE-ORIGIN", Addr),
    sp(0x802C, "OTHER-ADDRESS", Addr),
    sp(0x8030, "MOBILITY-TICKET", Bytes),
];
pub fn all_specs() -> impl Iterator<Item = &'static Spec> {
    SPEC.iter()
}
pub fn kind_of(cp: u16) -> Option<Kind> {
    all_specs().find(|s| s.cp == cp).map(|s| s.kind)
}
pub fn name_of(cp: u16) -> String {
    all_specs().find(|s| s.cp == cp).map(|s| s.name.to_string()).unwrap_or_else(|| format!("0x{:04x}", cp))
}
pub const RFC5389: [u16; 12] = [1, 6, 8, 9, 0xA, 0x14, 0x15, 0x20, 0x8020, 0x8022, 0x8023, 0x8028];
pub const RFC5766: [u16; 9] = [0xC, 0xD, 0x12, 0x13, 0x16, 0x18, 0x19, 0x1A, 0x22];
pub const RFC5245: [u16; 4] = [0x24, 0x25, 0x8029, 0x802A];
pub const RFC5780: [u16; 4] = [3, 0x802B, 0x27, 0x802C];
pub fn all_cps() -> Vec<u16> {
    all_specs().map(|s| s.cp).collect()
}

// ------------------------------------------------------------- addresses
pub fn xor_addr(a: SocketAddr, tid: &[u8; 12]) -> SocketAddr {
    let port = a.port() ^ 0x2112;
    let mut mask = COOKIE.to_vec();
    mask.extend_from_slice(tid);
    match a.ip() {
        IpAddr::V4(ip) => {
            let o = ip.octets();
            SocketAddr::new(IpAddr::V4(Ipv4Addr::new(o[0] ^ mask[0], o[1] ^ mask[1], o[2] ^ mask[2], o[3] ^ mask[3])), port)
        }
        IpAddr::V6(ip) => {
            let mut o = ip.octets();
            for i in 0..16 {
                o[i] ^= mask[i];
            }
            SocketAddr::new(IpAddr::V6(Ipv6Addr::from(o)), port)
        }
    }
}
fn enc_addr(a: &SocketAddr) -> Vec<u8> {
    let mut v = vec![0, if a.is_ipv4() { 1 } else { 2 }];
    v.extend_from_slice(&a.port().to_be_bytes());
    match a.ip() {
        IpAddr::V4(ip) => v.extend_from_slice(&ip.octets()),
        IpAddr::V6(ip) => v.extend_from_slice(&ip.octets()),
    }
    v
}
fn dec_addr(b: &[u8]) -> Option<SocketAddr> {
    if b.len() < 2 {
        return None;
    }
    match b[1] {
        1 if b.len() == 8 => Some(SocketAddr::new(
            IpAddr::V4(Ipv4Addr::new(b[4], b[5], b[6], b[7])),
            u16::from_be_bytes([b[2], b[3]]),
        )),
        2 if b.len() == 20 => {
            let mut o = [0u8; 16];
            o.copy_from_slice(&b[4..]);
            Some(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(o)), u16::from_be_bytes([b[2], b[3]])))
        }
        _ => None,
    }
}

// ------------------------------------------------------------- values
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| (a << 8) | *x as u64)
}
pub fn encode_value(kind: Kind, v: &Val, tid: &[u8; 12]) -> Vec<u8> {
    match (kind, v) {
        (Addr, Val::Addr(a)) => enc_addr(a),
        (Xor, Val::Addr(a)) => enc_addr(&xor_addr(*a, tid)),
        (Str, Val::Str(s)) | (User, Val::Str(s)) => s.as_bytes().to_vec(),
        (ErrCode, Val::Err(c, r)) => {
            let mut o = vec![0, 0, (c / 100) as u8, (c % 100) as u8];
            o.extend_from_slice(r.as_bytes());
            o
        }
        (Fp, Val::U(x)) | (U32, Val::U(x)) => (*x as u32).to_be_bytes().to_vec(),
        (U64, Val::U(x)) => x.to_be_bytes().to_vec(),
        (Mi, Val::Bytes(b)) | (Bytes, Val::Bytes(b)) => b.clone(),
        (Types, Val::Types(t)) => t.iter().flat_map(|x| x.to_be_bytes()).collect(),
        (Chan, Val::U(x)) | (Port, Val::U(x)) => {
            let p = (*x as u16).to_be_bytes();
            vec![p[0], p[1], 0, 0]
        }
        (Even, Val::U(x)) => vec![if *x != 0 { 0x80 } else { 0 }],
        (Trans, Val::U(x)) | (Fam, Val::U(x)) => vec![*x as u8, 0, 0, 0],
        (Unit, Val::Unit) => vec![],
        (Change, Val::Flags(ip, port)) => vec![0, 0, 0, (*ip as u8) * 4 + (*port as u8) * 2],
        _ => panic!("model: {:?} is no {:?}", v, kind),
    }
}
pub fn decode_value(kind: Kind, b: &[u8], tid: &[u8; 12]) -> Option<Val> {
    let n = b.len();
    Some(match kind {
        Addr => Val::Addr(dec_addr(b)?),
        Xor => Val::Addr(xor_addr(dec_addr(b)?, tid)),
        Str => {
            let s = std::str::from_utf8(b).ok()?;
            if s.chars().count() >= 128 {
                return None;
            }
            Val::Str(s.to_string())
        }
        User => {
            if n > 512 {
                return None;
            }
            Val::Str(std::str::from_utf8(b).ok()?.to_string())
        }
        ErrCode => {
            if n < 4 {
                return None;
            }
            let class = (b[2] & 7) as u16;
            let number = b[3] as u16;
            if !(3..=5).contains(&class) || number > 99 {
                return None;
            }
            Val::Err(class * 100 + number, std::str::from_utf8(&b[4..]).ok()?.to_string())
        }
        Fp | U32 if n == 4 => Val::U(be(b)),
        U64 if n == 8 => Val::U(be(b)),
        Mi if n == 20 => Val::Bytes(b.to_vec()),
        Bytes => Val::Bytes(b.to_vec()),
        Types if n % 2 == 0 => Val::Types(b.chunks(2).map(|c| be(c) as u16).collect()),
        Chan if n == 4 => {
            let c = be(&b[..2]);
            if !(0x4000..=0x4FFF).contains(&c) {
                return None;
            }
            Val::U(c)
        }
        Port if n == 4 => Val::U(be(&b[..2])),
        Even if n == 1 => Val::U((b[0] >> 7) as u64),
        Trans if n == 4 => Val::U(b[0] as u64),
        Fam if n == 4 && (b[0] == 1 || b[0] == 2) => Val::U(b[0] as u64),
        Unit if n == 0 => Val::Unit,
        Change if n == 4 => Val::Flags(b[3] & 4 != 0, b[3] & 2 != 0),
        _ => return None,
    })
}

// ------------------------------------------------------------- messages
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    Known(Val),
    Raw(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MAttr {
    pub cp: u16,
    pub body: Body,
    /// padding bytes as received; None: zeroes
    pub pad: Option<Vec<u8>>,
}
impl MAttr {
    pub fn known(cp: u16, v: Val) -> MAttr {
        MAttr { cp, body: Body::Known(v), pad: None }
    }
    pub fn raw(cp: u16, v: Vec<u8>) -> MAttr {
        MAttr { cp, body: Body::Raw(v), pad: None }
    }
    pub fn value_bytes(&self, tid: &[u8; 12]) -> Vec<u8> {
        match &self.body {
            Body::Known(v) => encode_value(kind_of(self.cp).unwrap(), v, tid),
            Body::Raw(b) => b.clone(),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MMsg {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub attrs: Vec<MAttr>,
}
pub fn padlen(n: usize) -> usize {
    (4 - n % 4) % 4
}
pub fn type_field(class: u8, method: u16) -> u16 {
    // M11..M7 | C1 | M6..M4 | C0 | M3..M0
    let mut t = 0u16;
    let bit = |v: u16, i: u32| (v >> i) & 1;
    let pos = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 5), (5, 6), (6, 7), (7, 9), (8, 10), (9, 11), (10, 12), (11, 13)];
    for (m, w) in pos {
        t |= bit(method, m) << w;
    }
    t |= bit(class as u16, 0) << 4;
    t |= bit(class as u16, 1) << 8;
    t
}
pub fn untype(t: u16) -> Option<(u8, u16)> {
    if t & 0xC000 != 0 {
        return None;
    }
    let bit = |i: u32| (t >> i) & 1;
    let mut m = 0;
    for (i, w) in [0u32, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13].iter().enumerate() {
        m |= bit(*w) << i;
    }
    Some(((bit(4) | bit(8) << 1) as u8, m))
}
pub fn tlv(cp: u16, value: &[u8], pad: Option<&[u8]>) -> Vec<u8> {
    let mut v = Vec::with_capacity(value.len() + 8);
    v.extend_from_slice(&cp.to_be_bytes());
    v.extend_from_slice(&(value.len() as u16).to_be_bytes());
    v.extend_from_slice(value);
    match pad {
        Some(p) => v.extend_from_slice(p),
        None => v.resize(v.len() + padlen(value.len()), 0),
    }
    v
}
pub fn header(t: u16, len: u16, tid: &[u8; 12]) -> Vec<u8> {
    let mut v = t.to_be_bytes().to_vec();
    v.extend_from_slice(&len.to_be_bytes());
    v.extend_from_slice(&COOKIE);
    v.extend_from_slice(tid);
    v
}
/// None: does not fit (value or attribute part over 65535 bytes).
pub fn encode_msg(m: &MMsg) -> Option<Vec<u8>> {
    let mut body = Vec::new();
    for a in &m.attrs {
        let v = a.value_bytes(&m.tid);
        if v.len() > 0xFFFF {
            return None;
        }
        body.extend(tlv(a.cp, &v, a.pad.as_deref()));
    }
    if body.len() > 0xFFFF {
        return None;
    }
    let mut out = header(type_field(m.class, m.method), body.len() as u16, &m.tid);
    out.extend(body);
    Some(out)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    /// an error of the decoder: not (yet) a message
    Reject,
    /// acceptable header, but fewer bytes than it announces: never a message
    Short { class: u8, method: u16, tid: [u8; 12] },
    Broken { class: u8, method: u16, tid: [u8; 12] },
    Ok(MMsg),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FpMode {
    /// RFC: over the bytes as received
    Received,
    /// over the canonical re-encoding of what was decoded (reserved bits cleared)
    Canonical,
    /// FINGERPRINT not verified
    Ignore,
}
/// CRC over the bytes before offset `off` with the length adjusted for a FINGERPRINT there.
pub fn fp_value(prefix: &[u8]) -> u32 {
    let mut b = prefix.to_vec();
    let l = (b.len() - 20 + 8) as u16;
    b[2..4].copy_from_slice(&l.to_be_bytes());
    crc32(&b) ^ 0x5354_554E
}
pub fn mi_value(prefix: &[u8], key: &[u8]) -> [u8; 20] {
    let mut b = prefix.to_vec();
    let l = (b.len() - 20 + 24) as u16;
    b[2..4].copy_from_slice(&l.to_be_bytes());
    hmac_sha1(key, &b)
}
pub fn long_term_key(user: &str, realm: &str, pw: &str) -> [u8; 16] {
    md5(format!("{}:{}:{}", user, realm, pw).as_bytes())
}
/// Decodes the bytes available until end of input. Returns the outcome and, for
/// Broken/Ok, the number of bytes belonging to the message.
pub fn decode_msg(b: &[u8], set: &[u16], fp: FpMode) -> (Out, usize) {
    if b.len() < 20 {
        return (Out::Reject, 0);
    }
    let t = u16::from_be_bytes([b[0], b[1]]);
    let Some((class, method)) = untype(t) else { return (Out::Reject, 0) };
    if b[4..8] != COOKIE {
        return (Out::Reject, 0);
    }
    let len = u16::from_be_bytes([b[2], b[3]]) as usize;
    let mut tid = [0u8; 12];
    tid.copy_from_slice(&b[8..20]);
    if b.len() < 20 + len {
        return (Out::Short { class, method, tid }, b.len());
    }
    let total = 20 + len;
    let broken = (Out::Broken { class, method, tid }, total);
    let mut msg = MMsg { class, method, tid, attrs: vec![] };
    let mut pos = 20;
    while pos < total {
        if pos + 4 > total {
            return broken;
        }
        let cp = u16::from_be_bytes([b[pos], b[pos + 1]]);
        let n = u16::from_be_bytes([b[pos + 2], b[pos + 3]]) as usize;
        let p = padlen(n);
        if pos + 4 + n + p > total {
            return broken;
        }
        let v = &b[pos + 4..pos + 4 + n];
        let pad = Some(b[pos + 4 + n..pos + 4 + n + p].to_vec());
        let body = if set.contains(&cp) {
            let kind = kind_of(cp).unwrap();
            let Some(val) = decode_value(kind, v, &tid) else { return broken };
            if kind == Fp && fp != FpMode::Ignore {
                let want = match fp {
                    FpMode::Received => {
                        if pos - 20 + 8 > 0xFFFF {
                            return broken;
                        }
                        fp_value(&b[..pos])
                    }
                    _ => match encode_msg(&msg) {
                        Some(c) if c.len() - 20 + 8 <= 0xFFFF => fp_value(&c),
                        _ => return broken,
                    },
                };
                if val != Val::U(want as u64) {
                    return broken;
                }
            }
            Body::Known(val)
        } else {
            Body::Raw(v.to_vec())
        };
        msg.attrs.push(MAttr { cp, body, pad });
        pos += 4 + n + p;
    }
    (Out::Ok(msg), total)
}

// ------------------------------------------------------------- digests
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}
fn md_pad(b: &[u8], big: bool) -> Vec<u8> {
    let mut m = b.to_vec();
    let bits = (b.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&if big { bits.to_be_bytes() } else { bits.to_le_bytes() });
    m
}
pub fn sha1(b: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    for blk in md_pad(b, true).chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut bb, mut c, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((bb & c) | (!bb & d), 0x5A827999),
                20..=39 => (bb ^ c ^ d, 0x6ED9EBA1),
                40..=59 => ((bb & c) | (bb & d) | (c & d), 0x8F1BBCDC),
                _ => (bb ^ c ^ d, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d;
            d = c;
            c = bb.rotate_left(30);
            bb = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, bb, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0u8; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
pub fn md5(b: &[u8]) -> [u8; 16] {
    let s: [u32; 16] = [7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21];
    let k: Vec<u32> = (0..64).map(|i| (((i + 1) as f64).sin().abs() * 4294967296.0) as u32).collect();
    let mut h: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    for blk in md_pad(b, false).chunks(64) {
        let m: Vec<u32> = (0..16)
            .map(|i| u32::from_le_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]))
            .collect();
        let [mut a, mut bb, mut c, mut d] = h;
        for i in 0..64usize {
            let (f, g) = match i / 16 {
                0 => ((bb & c) | (!bb & d), i),
                1 => ((d & bb) | (!d & c), (5 * i + 1) % 16),
                2 => (bb ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (bb | !d), (7 * i) % 16),
            };
            let t = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(m[g]);
            a = d;
            d = c;
            c = bb;
            bb = bb.wrapping_add(t.rotate_left(s[(i / 16) * 4 + i % 4]));
        }
        for (x, y) in h.iter_mut().zip([a, bb, c, d]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0u8; 16];
    for i in 0..4 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}
pub fn hmac_sha1(key: &[u8], msg: &[u8]) -> [u8; 20] {
    let mut k = if key.len() > 64 { sha1(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend_from_slice(&sha1(&i));
    sha1(&o)
}

/// Published vectors: FIPS 180, RFC 1321, RFC 2202, CRC catalogue, RFC 5769.
pub fn self_test() -> Result<(), String> {
    fn hx(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    let chk = |n: &str, a: String, b: &str| if a == b { Ok(()) } else { Err(format!("self-test {}: {} != {}", n, a, b)) };
    chk("crc32", format!("{:08x}", crc32(b"123456789")), "cbf43926")?;
    chk("sha1 abc", hx(&sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d")?;
    chk("sha1 empty", hx(&sha1(b"")), "da39a3ee5e6b4b0d3255bfef95601890afd80709")?;
    chk(
        "sha1 448",
        hx(&sha1(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")),
        "84983e441c3bd26ebaae4aa1f95129e5e54670f1",
    )?;
    chk("md5 abc", hx(&md5(b"abc")), "900150983cd24fb0d6963f7d28e17f72")?;
    chk("md5 empty", hx(&md5(b"")), "d41d8cd98f00b204e9800998ecf8427e")?;
    chk("hmac 1", hx(&hmac_sha1(&[0x0b; 20], b"Hi There")), "b617318655057264e28bc0b6fb378c8ef146be00")?;
    chk("hmac 2", hx(&hmac_sha1(b"Jefe", b"what do ya want for nothing?")), "effcdf6ae5eb2fa2d27416d5f184df9c259a7c79")?;
    chk(
        "hmac 6",
        hx(&hmac_sha1(&[0xaa; 80], b"Test Using Larger Than Block-Size Key - Hash Key First")),
        "aa4ae5e15272d00e95705637ce8a3b55ed402112",
    )?;
    // RFC 5769 2.1 sample request
    let m: [u8; 108] = [
        0x00, 0x01, 0x00, 0x58, 0x21, 0x12, 0xa4, 0x42, 0xb7, 0xe7, 0xa7, 0x01, 0xbc, 0x34, 0xd6, 0x86, 0xfa, 0x87,
        0xdf, 0xae, 0x80, 0x22, 0x00, 0x10, 0x53, 0x54, 0x55, 0x4e, 0x20, 0x74, 0x65, 0x73, 0x74, 0x20, 0x63, 0x6c,
        0x69, 0x65, 0x6e, 0x74, 0x00, 0x24, 0x00, 0x04, 0x6e, 0x00, 0x01, 0xff, 0x80, 0x29, 0x00, 0x08, 0x93, 0x2f,
        0xf9, 0xb1, 0x51, 0x26, 0x3b, 0x36, 0x00, 0x06, 0x00, 0x09, 0x65, 0x76, 0x74, 0x6a, 0x3a, 0x68, 0x36, 0x76,
        0x59, 0x20, 0x20, 0x20, 0x00, 0x08, 0x00, 0x14, 0x9a, 0xea, 0xa7, 0x0c, 0xbf, 0xd8, 0xcb, 0x56, 0x78, 0x1e,
        0xf2, 0xb5, 0xb2, 0xd3, 0xf2, 0x49, 0xc1, 0xb5, 0x71, 0xa2, 0x80, 0x28, 0x00, 0x04, 0xe5, 0x7a, 0x3b, 0xcf,
    ];
    chk("rfc5769 fp", format!("{:08x}", fp_value(&m[..100])), "e57a3bcf")?;
    chk("rfc5769 mi", hx(&mi_value(&m[..76], b"VOkJxbRl1RmTxUk/WvJxBt")), &hx(&m[80..100]))?;
    match decode_msg(&m, &all_cps(), FpMode::Received) {
        (Out::Ok(d), 108) => {
            if encode_msg(&d).as_deref() != Some(&m[..]) {
                return Err("model round trip of RFC 5769 2.1".into());
            }
        }
        o => return Err(format!("model decodes RFC 5769 2.1 to {:?}", o)),
    }
    for t in 0..0x4000u16 {
        let (c, m) = untype(t).unwrap();
        if type_field(c, m) != t {
            return Err("model type field".into());
        }
    }
    Ok(())
}
