//! Reference TLS 1.3 endpoint (RFC 8446) over OpenSSL primitives, written so that every
//! message, record and secret can be inspected and changed.
use crate::ossl::{self, EcKey, A, H};
use crate::rng::Rng;

pub const CCS: u8 = 20;
pub const ALERT: u8 = 21;
pub const HS: u8 = 22;
pub const APP: u8 = 23;

pub const CH: u8 = 1;
pub const SH: u8 = 2;
pub const NST: u8 = 4;
pub const EE: u8 = 8;
pub const CERT: u8 = 11;
pub const CR: u8 = 13;
pub const CV: u8 = 15;
pub const FIN: u8 = 20;
pub const KU: u8 = 24;

pub const AES128: u16 = 0x1301;
pub const AES256: u16 = 0x1302;
pub const CHACHA: u16 = 0x1303;
pub const SUITES: [u16; 3] = [AES128, AES256, CHACHA];
pub const HRR_RANDOM: [u8; 32] = [
    0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91, 0xC2, 0xA2, 0x11, 0x16, 0x7A, 0xBB, 0x8C,
    0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C,
];

pub fn suite_ha(id: u16) -> Option<(H, A)> {
    Some(match id {
        AES128 => (H::Sha256, A::Aes128Gcm),
        AES256 => (H::Sha384, A::Aes256Gcm),
        CHACHA => (H::Sha256, A::ChaPoly),
        _ => return None,
    })
}

pub fn u16b(v: usize) -> [u8; 2] {
    [(v >> 8) as u8, v as u8]
}
pub fn vec8(b: &[u8]) -> Vec<u8> {
    let mut v = vec![b.len() as u8];
    v.extend_from_slice(b);
    v
}
pub fn vec16(b: &[u8]) -> Vec<u8> {
    let mut v = u16b(b.len()).to_vec();
    v.extend_from_slice(b);
    v
}
pub fn vec24(b: &[u8]) -> Vec<u8> {
    let mut v = vec![(b.len() >> 16) as u8, (b.len() >> 8) as u8, b.len() as u8];
    v.extend_from_slice(b);
    v
}
pub fn msg(t: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![t];
    v.extend(vec24(body));
    v
}
pub fn record(t: u8, body: &[u8]) -> Vec<u8> {
    record_v(t, 0x0303, body)
}
pub fn record_v(t: u8, v: u16, body: &[u8]) -> Vec<u8> {
    let mut o = vec![t, (v >> 8) as u8, v as u8];
    o.extend(vec16(body));
    o
}
pub fn ext(t: u16, d: &[u8]) -> Vec<u8> {
    let mut o = u16b(t as usize).to_vec();
    o.extend(vec16(d));
    o
}

/// Cursor with bounds
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.left() < n {
            return Err(format!("{n} bytes expected, {} left", self.left()));
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn num(&mut self, n: usize) -> Result<usize, String> {
        Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as usize))
    }
    pub fn vec(&mut self, n: usize) -> Result<&'a [u8], String> {
        let l = self.num(n)?;
        self.take(l)
    }
    pub fn end(&self) -> Result<(), String> {
        if self.left() == 0 {
            Ok(())
        } else {
            Err(format!("{} trailing bytes", self.left()))
        }
    }
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub typ: u8,
    pub ver: u16,
    pub body: Vec<u8>,
}
impl Rec {
    pub fn raw(&self) -> Vec<u8> {
        record_v(self.typ, self.ver, &self.body)
    }
    pub fn header(&self) -> [u8; 5] {
        let l = u16b(self.body.len());
        [self.typ, (self.ver >> 8) as u8, self.ver as u8, l[0], l[1]]
    }
}
/// Complete records and the unparsed rest
pub fn records(mut b: &[u8]) -> (Vec<Rec>, &[u8]) {
    let mut o = vec![];
    while b.len() >= 5 {
        let l = (b[3] as usize) << 8 | b[4] as usize;
        if b.len() < 5 + l {
            break;
        }
        o.push(Rec { typ: b[0], ver: (b[1] as u16) << 8 | b[2] as u16, body: b[5..5 + l].to_vec() });
        b = &b[5 + l..];
    }
    (o, b)
}
/// Complete handshake messages (type, whole message) and the rest
pub fn messages(mut b: &[u8]) -> (Vec<(u8, Vec<u8>)>, &[u8]) {
    let mut o = vec![];
    while b.len() >= 4 {
        let l = (b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize;
        if b.len() < 4 + l {
            break;
        }
        o.push((b[0], b[..4 + l].to_vec()));
        b = &b[4 + l..];
    }
    (o, b)
}

pub fn expand_label(h: H, secret: &[u8], label: &str, ctx: &[u8], len: usize) -> Vec<u8> {
    let mut info = u16b(len).to_vec();
    info.extend(vec8(format!("tls13 {label}").as_bytes()));
    info.extend(vec8(ctx));
    ossl::hkdf_expand(h, secret, &info, len)
}

/// One direction of record protection
#[derive(Clone, Debug)]
pub struct Dir {
    pub a: A,
    pub h: H,
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub seq: u64,
}
impl Dir {
    pub fn new(suite: u16, secret: &[u8]) -> Dir {
        let (h, a) = suite_ha(suite).unwrap();
        Dir {
            a,
            h,
            secret: secret.to_vec(),
            key: expand_label(h, secret, "key", b"", a.key_len()),
            iv: expand_label(h, secret, "iv", b"", 12),
            seq: 0,
        }
    }
    pub fn nonce_at(&self, seq: u64) -> Vec<u8> {
        let mut n = self.iv.clone();
        for (i, b) in seq.to_be_bytes().iter().enumerate() {
            n[4 + i] ^= b;
        }
        n
    }
    /// Protected record with any inner plaintext
    pub fn seal_inner(&mut self, outer: u8, ver: u16, inner: &[u8]) -> Vec<u8> {
        let l = u16b(inner.len() + 16);
        let hdr = [outer, (ver >> 8) as u8, ver as u8, l[0], l[1]];
        let (ct, tag) = ossl::seal(self.a, &self.key, &self.nonce_at(self.seq), &hdr, inner).unwrap();
        self.seq = self.seq.wrapping_add(1);
        let mut o = hdr.to_vec();
        o.extend(ct);
        o.extend(tag);
        o
    }
    pub fn seal(&mut self, typ: u8, data: &[u8], pad: usize) -> Vec<u8> {
        let mut inner = data.to_vec();
        inner.push(typ);
        inner.resize(inner.len() + pad, 0);
        self.seal_inner(APP, 0x0303, &inner)
    }
    /// Strict opening of a record: (inner type, content, padding length)
    pub fn open(&mut self, r: &Rec) -> Result<(u8, Vec<u8>, usize), String> {
        if r.typ != APP {
            return Err(format!("record of outer type {} where a protected record was expected", r.typ));
        }
        if r.ver != 0x0303 {
            return Err(format!("protected record with version {:04x}", r.ver));
        }
        if r.body.len() < 17 {
            return Err(format!("protected record of {} bytes", r.body.len()));
        }
        if r.body.len() > 16384 + 256 {
            return Err(format!("protected record of {} bytes exceeds 2^14+256", r.body.len()));
        }
        let n = r.body.len() - 16;
        let p = ossl::open(self.a, &self.key, &self.nonce_at(self.seq), &r.header(), &r.body[..n], &r.body[n..])
            .ok_or_else(|| format!("record does not decrypt under the expected keys with sequence number {}", self.seq))?;
        self.seq = self.seq.wrapping_add(1);
        if p.len() > 16385 {
            return Err(format!("inner plaintext of {} bytes", p.len()));
        }
        match p.iter().rposition(|b| *b != 0) {
            Some(i) => Ok((p[i], p[..i].to_vec(), p.len() - 1 - i)),
            None => Err("record without an inner content type".into()),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Secrets {
    pub suite: u16,
    pub chs: Vec<u8>,
    pub shs: Vec<u8>,
    pub master: Vec<u8>,
}
pub fn handshake_secrets(suite: u16, shared: &[u8], th: &[u8]) -> Secrets {
    let (h, _) = suite_ha(suite).unwrap();
    let n = h.len();
    let z = vec![0u8; n];
    let e = ossl::digest(h, b"");
    let early = ossl::hkdf_extract(h, &z, &z);
    let d = expand_label(h, &early, "derived", &e, n);
    let hs = ossl::hkdf_extract(h, &d, shared);
    let chs = expand_label(h, &hs, "c hs traffic", th, n);
    let shs = expand_label(h, &hs, "s hs traffic", th, n);
    let d = expand_label(h, &hs, "derived", &e, n);
    let master = ossl::hkdf_extract(h, &d, &z);
    Secrets { suite, chs, shs, master }
}
impl Secrets {
    pub fn app(&self, th: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let (h, _) = suite_ha(self.suite).unwrap();
        (expand_label(h, &self.master, "c ap traffic", th, h.len()), expand_label(h, &self.master, "s ap traffic", th, h.len()))
    }
}
pub fn finished(h: H, secret: &[u8], th: &[u8]) -> Vec<u8> {
    let k = expand_label(h, secret, "finished", b"", h.len());
    ossl::hmac(h, &k, th)
}
pub fn cv_digest(server: bool, th: &[u8]) -> Vec<u8> {
    let mut c = vec![0x20; 64];
    c.extend_from_slice(if server { b"TLS 1.3, server CertificateVerify" } else { b"TLS 1.3, client CertificateVerify" });
    c.push(0);
    c.extend_from_slice(th);
    ossl::digest(H::Sha256, &c)
}

// ---------------------------------------------------------------- ClientHello
#[derive(Clone, Debug)]
pub struct Hello {
    pub version: u16,
    pub random: [u8; 32],
    pub sid: Vec<u8>,
    pub suites: Vec<u16>,
    pub compression: Vec<u8>,
    pub exts: Vec<(u16, Vec<u8>)>,
    pub secret: [u8; 32],
    pub sni: Option<String>,
}
pub fn ks_client(entries: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut l = vec![];
    for (g, k) in entries {
        l.extend(u16b(*g as usize));
        l.extend(vec16(k));
    }
    vec16(&l)
}
pub fn u16list(v: &[u16]) -> Vec<u8> {
    let mut o = vec![];
    for x in v {
        o.extend(u16b(*x as usize));
    }
    vec16(&o)
}
pub fn sni_ext(name: &str) -> Vec<u8> {
    let mut e = vec![0];
    e.extend(vec16(name.as_bytes()));
    vec16(&e)
}
pub const X25519: u16 = 0x1d;
impl Hello {
    pub fn new(rng: &mut Rng) -> Hello {
        let secret: [u8; 32] = rng.arr();
        let share = ossl::x25519_public(&secret).to_vec();
        let mut h = Hello {
            version: 0x0303,
            random: rng.arr(),
            sid: rng.bytes(32),
            suites: vec![AES128, AES256, CHACHA],
            compression: vec![0],
            exts: vec![],
            secret,
            sni: None,
        };
        h.exts = vec![
            (0x2b, vec![2, 3, 4]),
            (0x0a, u16list(&[X25519])),
            (0x0d, u16list(&[0x0403])),
            (0x33, ks_client(&[(X25519, share)])),
        ];
        h
    }
    pub fn set_ext(&mut self, t: u16, d: Vec<u8>) {
        match self.exts.iter_mut().find(|e| e.0 == t) {
            Some(e) => e.1 = d,
            None => self.exts.push((t, d)),
        }
    }
    pub fn del_ext(&mut self, t: u16) {
        self.exts.retain(|e| e.0 != t);
    }
    pub fn get_ext(&self, t: u16) -> Option<&Vec<u8>> {
        self.exts.iter().find(|e| e.0 == t).map(|e| &e.1)
    }
    pub fn body(&self) -> Vec<u8> {
        let mut o = u16b(self.version as usize).to_vec();
        o.extend(self.random);
        o.extend(vec8(&self.sid));
        o.extend(u16list(&self.suites));
        o.extend(vec8(&self.compression));
        let mut e = vec![];
        for (t, d) in &self.exts {
            e.extend(ext(*t, d));
        }
        o.extend(vec16(&e));
        o
    }
    pub fn msg(&self) -> Vec<u8> {
        msg(CH, &self.body())
    }
}

fn parse_exts(b: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut r = Rd::new(b);
    let mut o: Vec<(u16, Vec<u8>)> = vec![];
    while r.left() > 0 {
        let t = r.num(2)? as u16;
        let d = r.vec(2)?.to_vec();
        if o.iter().any(|e| e.0 == t) {
            return Err(format!("extension {t} twice"));
        }
        o.push((t, d));
    }
    Ok(o)
}

#[derive(Clone, Debug)]
pub struct ServerHelloInfo {
    pub random: [u8; 32],
    pub sid: Vec<u8>,
    pub suite: u16,
    pub exts: Vec<(u16, Vec<u8>)>,
    pub share: [u8; 32],
}
/// Strict parse of a TLS 1.3 ServerHello with an X25519 share
pub fn parse_server_hello(m: &[u8]) -> Result<ServerHelloInfo, String> {
    if m.len() < 4 || m[0] != SH {
        return Err(format!("handshake type {:?} instead of ServerHello", m.first()));
    }
    let mut r = Rd::new(&m[4..]);
    if r.num(2)? != 0x0303 {
        return Err("legacy_version of the ServerHello".into());
    }
    let random: [u8; 32] = r.take(32)?.try_into().unwrap();
    let sid = r.vec(1)?.to_vec();
    if sid.len() > 32 {
        return Err("session id too long".into());
    }
    let suite = r.num(2)? as u16;
    if r.num(1)? != 0 {
        return Err("compression method".into());
    }
    let exts = parse_exts(r.vec(2)?)?;
    r.end()?;
    let mut share = None;
    let mut v = false;
    for (t, d) in &exts {
        match t {
            0x2b => {
                if d != &[3, 4] {
                    return Err(format!("supported_versions {d:02x?}"));
                }
                v = true
            }
            0x33 => {
                let mut r = Rd::new(d);
                if r.num(2)? != X25519 as usize {
                    return Err("group of the server's key share".into());
                }
                let k = r.vec(2)?;
                r.end()?;
                share = Some(k.try_into().map_err(|_| format!("key share of {} bytes", k.len()))?);
            }
            t => return Err(format!("extension {t} in the ServerHello")),
        }
    }
    if !v {
        return Err("no supported_versions in the ServerHello".into());
    }
    Ok(ServerHelloInfo { random, sid, suite, exts, share: share.ok_or("no key share in the ServerHello")? })
}

#[derive(Clone, Debug)]
pub struct ClientHelloInfo {
    pub random: [u8; 32],
    pub sid: Vec<u8>,
    pub suites: Vec<u16>,
    pub exts: Vec<(u16, Vec<u8>)>,
    pub share: [u8; 32],
    pub sni: Option<String>,
}
/// Strict parse of a ClientHello with an X25519 share
pub fn parse_client_hello(m: &[u8]) -> Result<ClientHelloInfo, String> {
    if m.len() < 4 || m[0] != CH {
        return Err(format!("handshake type {:?} instead of ClientHello", m.first()));
    }
    let mut r = Rd::new(&m[4..]);
    if r.num(2)? != 0x0303 {
        return Err("legacy_version of the ClientHello".into());
    }
    let random: [u8; 32] = r.take(32)?.try_into().unwrap();
    let sid = r.vec(1)?.to_vec();
    if sid.len() > 32 {
        return Err("session id too long".into());
    }
    let mut s = Rd::new(r.vec(2)?);
    let mut suites = vec![];
    while s.left() > 0 {
        suites.push(s.num(2)? as u16);
    }
    if suites.is_empty() {
        return Err("no suites".into());
    }
    if r.vec(1)? != [0] {
        return Err("compression methods".into());
    }
    let exts = parse_exts(r.vec(2)?)?;
    r.end()?;
    let get = |t: u16| exts.iter().find(|e| e.0 == t).map(|e| e.1.as_slice());
    let v = get(0x2b).ok_or("no supported_versions")?;
    let mut vr = Rd::new(v);
    let vl = vr.vec(1)?;
    vr.end()?;
    if !vl.chunks(2).any(|c| c == [3, 4]) {
        return Err("TLS 1.3 not offered".into());
    }
    let list16 = |d: &[u8]| -> Result<Vec<u16>, String> {
        let mut r = Rd::new(d);
        let l = r.vec(2)?;
        r.end()?;
        if l.len() % 2 != 0 || l.is_empty() {
            return Err("bad list".into());
        }
        Ok(l.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect())
    };
    let groups = list16(get(0x0a).ok_or("no supported_groups")?)?;
    let sigs = list16(get(0x0d).ok_or("no signature_algorithms")?)?;
    if !groups.contains(&X25519) || !sigs.contains(&0x0403) {
        return Err("groups or signature algorithms".into());
    }
    let mut kr = Rd::new(get(0x33).ok_or("no key_share")?);
    let mut kl = Rd::new(kr.vec(2)?);
    kr.end()?;
    let mut share = None;
    while kl.left() > 0 {
        let g = kl.num(2)? as u16;
        let k = kl.vec(2)?;
        if !groups.contains(&g) {
            return Err("share for a group not in supported_groups".into());
        }
        if g == X25519 {
            if share.is_some() {
                return Err("two X25519 shares".into());
            }
            let k: [u8; 32] = k.try_into().map_err(|_| format!("key share of {} bytes", k.len()))?;
            share = Some(k);
        }
    }
    let mut sni = None;
    if let Some(d) = get(0) {
        let mut r = Rd::new(d);
        let mut l = Rd::new(r.vec(2)?);
        r.end()?;
        if l.num(1)? != 0 {
            return Err("name type".into());
        }
        sni = Some(String::from_utf8(l.vec(2)?.to_vec()).map_err(|_| "name")?);
        l.end()?;
    }
    Ok(ClientHelloInfo { random, sid, suites, exts, share: share.ok_or("no X25519 share")?, sni })
}

/// Certificate message: (context, [(der, extensions)])
pub fn parse_certificate(m: &[u8]) -> Result<(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>), String> {
    let mut r = Rd::new(&m[4..]);
    let ctx = r.vec(1)?.to_vec();
    let mut l = Rd::new(r.vec(3)?);
    r.end()?;
    let mut o = vec![];
    while l.left() > 0 {
        let c = l.vec(3)?.to_vec();
        let e = l.vec(2)?.to_vec();
        if c.is_empty() {
            return Err("empty certificate".into());
        }
        o.push((c, e));
    }
    Ok((ctx, o))
}
pub fn certificate_msg(ctx: &[u8], chain: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut l = vec![];
    for (c, e) in chain {
        l.extend(vec24(c));
        l.extend(vec16(e));
    }
    let mut b = vec8(ctx);
    b.extend(vec24(&l));
    msg(CERT, &b)
}
pub fn cv_msg(scheme: u16, sig: &[u8]) -> Vec<u8> {
    let mut b = u16b(scheme as usize).to_vec();
    b.extend(vec16(sig));
    msg(CV, &b)
}

// ---------------------------------------------------------------- framing of what the reference sends
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Framing {
    /// one record per message
    PerMessage,
    /// as few records as possible
    Coalesced,
    /// at most n bytes per record, boundaries anywhere
    Split(usize),
    /// random cuts
    Random,
}
impl Framing {
    pub fn random(rng: &mut Rng) -> Framing {
        match rng.below(5) {
            0 => Framing::PerMessage,
            1 => Framing::Coalesced,
            2 => Framing::Split(*rng.pick(&[1, 2, 3, 4, 5, 7, 50, 255, 1000])),
            _ => Framing::Random,
        }
    }
    /// Cut the messages into record payloads
    pub fn cut(self, msgs: &[Vec<u8>], rng: &mut Rng) -> Vec<Vec<u8>> {
        let all: Vec<u8> = msgs.concat();
        match self {
            Framing::PerMessage => msgs.iter().flat_map(|m| m.chunks(16384).map(|c| c.to_vec()).collect::<Vec<_>>()).collect(),
            Framing::Coalesced => all.chunks(16384).map(|c| c.to_vec()).collect(),
            // never hundreds of thousands of records
            Framing::Split(n) => all.chunks(n.max(all.len() / 3000).max(1)).map(|c| c.to_vec()).collect(),
            Framing::Random => {
                let mut o = vec![];
                let mut p = 0;
                while p < all.len() {
                    let n = match rng.below(4) {
                        0 => rng.range(1, 6),
                        1 => rng.range(1, 120),
                        2 => rng.range(1, 2000),
                        _ => all.len() - p,
                    };
                    let n = n.min(all.len() - p).min(16384);
                    o.push(all[p..p + n].to_vec());
                    p += n;
                }
                o
            }
        }
    }
}

/// What the reference does to each of its own messages before it is hashed and sent
pub type Edit<'a> = &'a mut dyn FnMut(&'static str, Vec<u8>) -> Vec<Vec<u8>>;
pub fn no_edit(_: &'static str, m: Vec<u8>) -> Vec<Vec<u8>> {
    vec![m]
}

/// A certificate with its key
pub struct Ident {
    pub der: Vec<u8>,
    pub key: EcKey,
}

#[derive(Clone)]
pub struct Session {
    pub suite: u16,
    pub h: H,
    pub secrets: Secrets,
    pub c_hs: Dir,
    pub s_hs: Dir,
    pub c_ap: Dir,
    pub s_ap: Dir,
    pub transcript: Vec<u8>,
    pub sh: Option<ServerHelloInfo>,
    pub cert_request: Option<(Vec<u8>, Vec<(u16, Vec<u8>)>)>,
    pub server_chain: Vec<Vec<u8>>,
    pub ee: Vec<(u16, Vec<u8>)>,
    pub ccs_seen: usize,
    pub app_th: Vec<u8>,
}
impl Session {
    pub fn th(&self) -> Vec<u8> {
        ossl::digest(self.h, &self.transcript)
    }
}

/// The reference client reads the complete first flight of a server. Any deviation from the
/// protocol is an Err.
pub fn client_process(out: &[u8], hello: &Hello, ch_msg: &[u8]) -> Result<Session, String> {
    let (recs, rest) = records(out);
    if !rest.is_empty() {
        return Err(format!("{} bytes behind the last record", rest.len()));
    }
    let mut it = recs.iter();
    let r = it.next().ok_or("nothing was sent")?;
    if r.typ == ALERT {
        return Err(format!("alert {:?}", r.body));
    }
    if r.typ != HS || r.ver != 0x0303 {
        return Err(format!("first record has type {} and version {:04x}", r.typ, r.ver));
    }
    let (m, rest) = messages(&r.body);
    if m.len() != 1 || !rest.is_empty() {
        return Err("the ServerHello is not alone in its record".into());
    }
    let sh = parse_server_hello(&m[0].1)?;
    if sh.sid != hello.sid {
        return Err(format!("session id not echoed: {:02x?}", sh.sid));
    }
    if !hello.suites.contains(&sh.suite) {
        return Err(format!("suite {:04x} was not offered", sh.suite));
    }
    let (h, _) = suite_ha(sh.suite).ok_or_else(|| format!("unknown suite {:04x}", sh.suite))?;
    if sh.random == HRR_RANDOM {
        return Err("HelloRetryRequest".into());
    }
    let mut transcript = ch_msg.to_vec();
    transcript.extend(&m[0].1);
    let shared = ossl::x25519(&hello.secret, &sh.share).ok_or("the server's share gives an all-zero secret")?;
    let sec = handshake_secrets(sh.suite, &shared, &ossl::digest(h, &transcript));
    let mut s = Session {
        suite: sh.suite,
        h,
        c_hs: Dir::new(sh.suite, &sec.chs),
        s_hs: Dir::new(sh.suite, &sec.shs),
        c_ap: Dir::new(sh.suite, &sec.chs),
        s_ap: Dir::new(sh.suite, &sec.shs),
        secrets: sec,
        transcript,
        sh: Some(sh),
        cert_request: None,
        server_chain: vec![],
        ee: vec![],
        ccs_seen: 0,
        app_th: vec![],
    };
    let mut buf = vec![];
    let mut done = false;
    let mut state = 0;
    for r in it {
        if done {
            return Err("records behind the server's Finished".into());
        }
        if r.typ == CCS {
            if r.body != [1] || r.ver != 0x0303 {
                return Err("malformed change_cipher_spec".into());
            }
            s.ccs_seen += 1;
            continue;
        }
        let (t, d, _) = s.s_hs.open(r)?;
        if t == ALERT {
            return Err(format!("protected alert {d:?}"));
        }
        if t != HS {
            return Err(format!("inner type {t} during the handshake"));
        }
        if d.is_empty() {
            return Err("empty handshake fragment".into());
        }
        buf.extend(d);
        let (ms, rest) = messages(&buf);
        let rest = rest.to_vec();
        for (t, m) in ms {
            match (state, t) {
                (0, EE) => {
                    let mut r = Rd::new(&m[4..]);
                    s.ee = parse_exts(r.vec(2)?)?;
                    r.end()?;
                    for (t, _) in &s.ee {
                        if hello.get_ext(*t).is_none() || ![0u16, 0x0a].contains(t) {
                            return Err(format!("extension {t} in EncryptedExtensions"));
                        }
                    }
                    state = 1;
                }
                (1, CR) => {
                    let mut r = Rd::new(&m[4..]);
                    let ctx = r.vec(1)?.to_vec();
                    let e = parse_exts(r.vec(2)?)?;
                    r.end()?;
                    let sa = e.iter().find(|x| x.0 == 0x0d).ok_or("CertificateRequest without signature_algorithms")?;
                    let mut r = Rd::new(&sa.1);
                    let l = r.vec(2)?;
                    r.end()?;
                    if !l.chunks(2).any(|c| c == [4, 3]) {
                        return Err("CertificateRequest without ecdsa_secp256r1_sha256".into());
                    }
                    s.cert_request = Some((ctx, e));
                    state = 2;
                }
                (1 | 2, CERT) => {
                    let (ctx, chain) = parse_certificate(&m)?;
                    if !ctx.is_empty() {
                        return Err("server certificate with a request context".into());
                    }
                    if chain.is_empty() {
                        return Err("no server certificate".into());
                    }
                    s.server_chain = chain.into_iter().map(|c| c.0).collect();
                    state = 3;
                }
                (3, CV) => {
                    let mut r = Rd::new(&m[4..]);
                    if r.num(2)? != 0x0403 {
                        return Err("signature scheme of the server".into());
                    }
                    let sig = r.vec(2)?;
                    r.end()?;
                    let (c, used) = ossl::Cert::parse(&s.server_chain[0]).ok_or("the server's certificate does not parse")?;
                    if used != s.server_chain[0].len() {
                        return Err("bytes behind the server's certificate".into());
                    }
                    let pk = c.info().pubkey.ok_or("no key in the server's certificate")?;
                    if !ossl::ecdsa_verify_der(&pk, &cv_digest(true, &s.th()), sig) {
                        return Err("the server's CertificateVerify does not verify".into());
                    }
                    state = 4;
                }
                (4, FIN) => {
                    if m[4..] != finished(s.h, &s.secrets.shs, &s.th())[..] {
                        return Err("the server's Finished is wrong".into());
                    }
                    if !rest.is_empty() {
                        return Err("data behind the Finished in one record".into());
                    }
                    done = true;
                }
                (st, t) => return Err(format!("message {t} in state {st}")),
            }
            s.transcript.extend(&m);
        }
        buf = rest;
    }
    if !done {
        return Err(format!("the server's flight ends early (state {state})"));
    }
    if !hello.sid.is_empty() && s.ccs_seen == 0 {
        // compatibility mode: MUST send it (D.4)
        return Err("no change_cipher_spec although the client sent a session id".into());
    }
    s.app_th = s.th();
    let (c, sv) = s.secrets.app(&s.app_th);
    s.c_ap = Dir::new(s.suite, &c);
    s.s_ap = Dir::new(s.suite, &sv);
    Ok(s)
}

/// How the reference client authenticates
pub struct ClientAuth<'a> {
    pub chain: Vec<(Vec<u8>, Vec<u8>)>,
    /// None: no CertificateVerify is sent
    pub key: Option<&'a EcKey>,
}
impl Session {
    /// Messages of the client's second flight; the transcript follows the edited messages
    pub fn client_flight(&mut self, auth: Option<&ClientAuth>, edit: Edit) -> Vec<Vec<u8>> {
        let mut o = vec![];
        let mut put = |s: &mut Session, label, m: Vec<u8>| {
            for m in edit(label, m) {
                s.transcript.extend(&m);
                o.push(m);
            }
        };
        if let Some(a) = auth {
            let ctx = self.cert_request.as_ref().map(|c| c.0.clone()).unwrap_or_default();
            put(self, "Certificate", certificate_msg(&ctx, &a.chain));
            if let Some(k) = a.key {
                let sig = k.sign(&cv_digest(false, &self.th()));
                put(self, "CertificateVerify", cv_msg(0x0403, &sig));
            }
        }
        let f = finished(self.h, &self.secrets.chs, &self.th());
        put(self, "Finished", msg(FIN, &f));
        o
    }
}
/// Protect handshake messages
pub fn protect(d: &mut Dir, msgs: &[Vec<u8>], fr: Framing, pad: usize, rng: &mut Rng) -> Vec<Vec<u8>> {
    fr.cut(msgs, rng).iter().map(|p| d.seal(HS, p, if pad > 0 { rng.below(pad + 1).min(16384 - p.len().min(16384)) } else { 0 })).collect()
}

/// As `protect`, with up to `max` unprotected change_cipher_spec records where RFC 8446 section 5
/// allows them: before any of the records which starts with a new message. Returns their number
pub fn protect_ccs(d: &mut Dir, msgs: &[Vec<u8>], fr: Framing, pad: usize, max: usize, rng: &mut Rng) -> (Vec<Vec<u8>>, usize) {
    let recs = protect(d, msgs, fr, pad, rng);
    let n = fr_len(&recs, d);
    let mut ends = vec![0];
    for m in msgs {
        ends.push(ends.last().unwrap() + m.len());
    }
    let mut o = vec![];
    let mut used = 0;
    let mut at = 0;
    for (r, l) in recs.into_iter().zip(n) {
        while used < max && ends.contains(&at) && rng.bool() {
            o.push(record(CCS, &[1]));
            used += 1;
        }
        at += l;
        o.push(r);
    }
    (o, used)
}
/// The length of what each of these handshake records, just sealed with `d`, contains
fn fr_len(recs: &[Vec<u8>], d: &Dir) -> Vec<usize> {
    let mut k = d.clone();
    k.seq -= recs.len() as u64;
    recs.iter().map(|r| k.open(&records(r).0[0]).unwrap().1.len()).collect()
}

// ---------------------------------------------------------------- reference server
pub struct ServerSpec<'a> {
    pub suite: u16,
    pub secret: [u8; 32],
    pub random: [u8; 32],
    pub chain: Vec<(Vec<u8>, Vec<u8>)>,
    pub key: &'a EcKey,
    pub ccs: bool,
    /// CertificateRequest with this context
    pub request: Option<Vec<u8>>,
    pub request_exts: Vec<(u16, Vec<u8>)>,
    pub ee: Vec<(u16, Vec<u8>)>,
}
impl<'a> ServerSpec<'a> {
    pub fn new(suite: u16, id: &'a Ident, rng: &mut Rng) -> Self {
        ServerSpec {
            suite,
            secret: rng.arr(),
            random: rng.arr(),
            chain: vec![(id.der.clone(), vec![])],
            key: &id.key,
            ccs: true,
            request: None,
            request_exts: vec![(0x0d, u16list(&[0x0403]))],
            ee: vec![],
        }
    }
}
pub fn server_hello_msg(spec: &ServerSpec, ch: &ClientHelloInfo) -> Vec<u8> {
    let mut b = vec![3, 3];
    b.extend(spec.random);
    b.extend(vec8(&ch.sid));
    b.extend(u16b(spec.suite as usize));
    b.push(0);
    let mut e = ext(0x2b, &[3, 4]);
    let mut k = u16b(X25519 as usize).to_vec();
    k.extend(vec16(&ossl::x25519_public(&spec.secret)));
    e.extend(ext(0x33, &k));
    b.extend(vec16(&e));
    msg(SH, &b)
}
pub fn exts_body(e: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    for (t, d) in e {
        o.extend(ext(*t, d));
    }
    vec16(&o)
}
/// The reference server answers a ClientHello: (session, plaintext messages, protected messages)
pub fn server_flight(spec: &ServerSpec, ch: &ClientHelloInfo, ch_msg: &[u8], edit: Edit) -> Result<(Session, Vec<Vec<u8>>, Vec<Vec<u8>>), String> {
    let (h, _) = suite_ha(spec.suite).ok_or("suite")?;
    let mut transcript = ch_msg.to_vec();
    let shs = edit("ServerHello", server_hello_msg(spec, ch));
    for m in &shs {
        transcript.extend(m);
    }
    let shared = ossl::x25519(&spec.secret, &ch.share).ok_or("the client's share gives an all-zero secret")?;
    let sec = handshake_secrets(spec.suite, &shared, &ossl::digest(h, &transcript));
    let mut s = Session {
        suite: spec.suite,
        h,
        c_hs: Dir::new(spec.suite, &sec.chs),
        s_hs: Dir::new(spec.suite, &sec.shs),
        c_ap: Dir::new(spec.suite, &sec.chs),
        s_ap: Dir::new(spec.suite, &sec.shs),
        secrets: sec,
        transcript,
        sh: None,
        cert_request: None,
        server_chain: vec![],
        ee: vec![],
        ccs_seen: 0,
        app_th: vec![],
    };
    let mut o = vec![];
    let mut put = |s: &mut Session, label, m: Vec<u8>| {
        for m in edit(label, m) {
            s.transcript.extend(&m);
            o.push(m);
        }
    };
    put(&mut s, "EncryptedExtensions", msg(EE, &exts_body(&spec.ee)));
    if let Some(ctx) = &spec.request {
        let mut b = vec8(ctx);
        b.extend(exts_body(&spec.request_exts));
        put(&mut s, "CertificateRequest", msg(CR, &b));
        s.cert_request = Some((ctx.clone(), vec![]));
    }
    put(&mut s, "Certificate", certificate_msg(&[], &spec.chain));
    let sig = spec.key.sign(&cv_digest(true, &s.th()));
    put(&mut s, "CertificateVerify", cv_msg(0x0403, &sig));
    let f = finished(h, &s.secrets.shs, &s.th());
    put(&mut s, "Finished", msg(FIN, &f));
    s.app_th = s.th();
    let (c, sv) = s.secrets.app(&s.app_th);
    s.c_ap = Dir::new(s.suite, &c);
    s.s_ap = Dir::new(s.suite, &sv);
    Ok((s, shs, o))
}
pub struct ClientFlight {
    /// Certificate list sent by the client, if it sent one
    pub chain: Option<Vec<Vec<u8>>>,
    pub verified: bool,
}
impl Session {
    /// The reference server reads the client's second flight, which has to be exactly that
    pub fn server_process(&mut self, out: &[u8]) -> Result<ClientFlight, String> {
        let (recs, rest) = records(out);
        if !rest.is_empty() {
            return Err(format!("{} bytes behind the last record", rest.len()));
        }
        let mut buf = vec![];
        let mut fl = ClientFlight { chain: None, verified: false };
        let mut state = if self.cert_request.is_some() { 0 } else { 2 };
        for r in &recs {
            if state == 3 {
                return Err("records behind the client's Finished".into());
            }
            if r.typ == CCS {
                if r.body != [1] || r.ver != 0x0303 {
                    return Err("malformed change_cipher_spec".into());
                }
                continue;
            }
            let (t, d, _) = self.c_hs.open(r)?;
            if t == ALERT {
                return Err(format!("protected alert {d:?}"));
            }
            if t != HS || d.is_empty() {
                return Err(format!("inner type {t}, {} bytes during the handshake", d.len()));
            }
            buf.extend(d);
            let (ms, rest) = messages(&buf);
            let rest = rest.to_vec();
            for (t, m) in ms {
                match (state, t) {
                    (0, CERT) => {
                        let (ctx, chain) = parse_certificate(&m)?;
                        if ctx != self.cert_request.as_ref().unwrap().0 {
                            return Err("request context not echoed".into());
                        }
                        state = if chain.is_empty() { 2 } else { 1 };
                        fl.chain = Some(chain.into_iter().map(|c| c.0).collect());
                    }
                    (1, CV) => {
                        let mut r = Rd::new(&m[4..]);
                        if r.num(2)? != 0x0403 {
                            return Err("signature scheme of the client".into());
                        }
                        let sig = r.vec(2)?;
                        r.end()?;
                        let (c, _) = ossl::Cert::parse(&fl.chain.as_ref().unwrap()[0]).ok_or("client certificate")?;
                        let pk = c.info().pubkey.ok_or("client key")?;
                        if !ossl::ecdsa_verify_der(&pk, &cv_digest(false, &self.th()), sig) {
                            return Err("the client's CertificateVerify does not verify".into());
                        }
                        fl.verified = true;
                        state = 2;
                    }
                    (2, FIN) => {
                        if m[4..] != finished(self.h, &self.secrets.chs, &self.th())[..] {
                            return Err("the client's Finished is wrong".into());
                        }
                        if !rest.is_empty() {
                            return Err("data behind the Finished".into());
                        }
                        state = 3;
                    }
                    (st, t) => return Err(format!("message {t} in state {st}")),
                }
                self.transcript.extend(&m);
            }
            buf = rest;
        }
        if state != 3 {
            return Err(format!("the client's flight ends early (state {state})"));
        }
        Ok(fl)
    }
}
/// Strictly open a stream of protected application records: (data, record sizes, alerts)
pub struct Opened {
    pub data: Vec<u8>,
    pub sizes: Vec<usize>,
    pub alerts: Vec<Vec<u8>>,
    pub other: Vec<u8>,
}
pub fn open_app(d: &mut Dir, out: &[u8]) -> Result<Opened, String> {
    let (recs, rest) = records(out);
    if !rest.is_empty() {
        return Err(format!("{} bytes behind the last record", rest.len()));
    }
    let mut o = Opened { data: vec![], sizes: vec![], alerts: vec![], other: vec![] };
    for r in &recs {
        let (t, p, _) = d.open(r)?;
        match t {
            APP => {
                if !o.alerts.is_empty() {
                    return Err("application data behind an alert".into());
                }
                o.sizes.push(p.len());
                o.data.extend(p);
            }
            ALERT => o.alerts.push(p),
            t => o.other.push(t),
        }
    }
    Ok(o)
}
