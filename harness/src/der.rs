//! DER and certificate writer for test certificates
use crate::ossl::{self, EcKey, H};
use crate::rng::Rng;

pub fn len_bytes(n: usize) -> Vec<u8> {
    if n < 0x80 {
        vec![n as u8]
    } else if n < 0x100 {
        vec![0x81, n as u8]
    } else if n < 0x10000 {
        vec![0x82, (n >> 8) as u8, n as u8]
    } else {
        vec![0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]
    }
}
pub fn tlv(tag: u8, v: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    o.extend(len_bytes(v.len()));
    o.extend_from_slice(v);
    o
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
pub fn set(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x31, &parts.concat())
}
/// Non-negative integer from big-endian bytes, minimal
pub fn int(b: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    if v.is_empty() || v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    tlv(2, &v)
}
pub fn oid(s: &str) -> Vec<u8> {
    let p: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
    let mut o = vec![];
    let mut put = |mut v: u64| {
        let mut t = vec![(v & 0x7f) as u8];
        v >>= 7;
        while v > 0 {
            t.push((v & 0x7f) as u8 | 0x80);
            v >>= 7;
        }
        t.reverse();
        o.extend(t);
    };
    put(p[0] * 40 + p[1]);
    for v in &p[2..] {
        put(*v);
    }
    tlv(6, &o)
}
pub fn sig_der(r: &[u8], s: &[u8]) -> Vec<u8> {
    seq(&[int(r), int(s)])
}

// ------------------------------------------------ calendar
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn unix(t: [i32; 6]) -> i64 {
    days_from_civil(t[0] as i64, t[1] as i64, t[2] as i64) * 86400 + t[3] as i64 * 3600 + t[4] as i64 * 60 + t[5] as i64
}
pub fn civil(t: i64) -> [i32; 6] {
    let z = t.div_euclid(86400) + 719468;
    let s = t.rem_euclid(86400);
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    [(y + (m <= 2) as i64) as i32, m as i32, d as i32, (s / 3600) as i32, (s / 60 % 60) as i32, (s % 60) as i32]
}
pub fn utc_time(t: i64) -> Vec<u8> {
    let c = civil(t);
    assert!((1950..2050).contains(&c[0]), "UTCTime can't carry the year {}", c[0]);
    tlv(0x17, format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", c[0] % 100, c[1], c[2], c[3], c[4], c[5]).as_bytes())
}
pub fn gen_time(t: i64) -> Vec<u8> {
    let c = civil(t);
    tlv(0x18, format!("{:04}{:02}{:02}{:02}{:02}{:02}Z", c[0], c[1], c[2], c[3], c[4], c[5]).as_bytes())
}

// ------------------------------------------------ certificates
pub const OID_ECDSA_SHA256: &str = "1.2.840.10045.4.3.2";
pub const OID_EC: &str = "1.2.840.10045.2.1";
pub const OID_P256: &str = "1.2.840.10045.3.1.7";
/// (attribute OID, string tag, value)
pub type Name = Vec<(&'static str, u8, Vec<u8>)>;

pub fn name(n: &Name) -> Vec<u8> {
    seq(&n.iter().map(|(o, t, v)| set(&[seq(&[oid(o), tlv(*t, v)])])).collect::<Vec<_>>())
}
pub fn cn(s: &str) -> Name {
    vec![("2.5.4.3", 0x0c, s.as_bytes().to_vec())]
}
pub fn spki(pubkey: &[u8]) -> Vec<u8> {
    let mut b = vec![0];
    b.extend_from_slice(pubkey);
    seq(&[seq(&[oid(OID_EC), oid(OID_P256)]), tlv(3, &b)])
}

#[derive(Clone)]
pub struct CertSpec {
    /// None: v1 (no version field)
    pub version: Option<u8>,
    pub serial: Vec<u8>,
    pub issuer: Name,
    pub subject: Name,
    pub not_before: Vec<u8>,
    pub not_after: Vec<u8>,
    pub spki: Vec<u8>,
    /// contents of the extensions SEQUENCE, already encoded Extension values
    pub extensions: Option<Vec<Vec<u8>>>,
    pub tbs_alg: Vec<u8>,
    pub outer_alg: Vec<u8>,
}
pub fn alg_ecdsa() -> Vec<u8> {
    seq(&[oid(OID_ECDSA_SHA256)])
}
pub fn alg_ecdsa_sha384() -> Vec<u8> {
    seq(&[oid("1.2.840.10045.4.3.3")])
}
impl CertSpec {
    pub fn new(subject: &str, issuer: &str, from: i64, to: i64, pubkey: &[u8], rng: &mut Rng) -> CertSpec {
        let mut serial = rng.bytes(16);
        serial[0] = (serial[0] & 0x7f) | 1;
        CertSpec {
            version: Some(2),
            serial: int(&serial),
            issuer: cn(issuer),
            subject: cn(subject),
            not_before: utc_time(from),
            not_after: utc_time(to),
            spki: spki(pubkey),
            extensions: None,
            tbs_alg: alg_ecdsa(),
            outer_alg: alg_ecdsa(),
        }
    }
    pub fn tbs(&self) -> Vec<u8> {
        let mut p = vec![];
        if let Some(v) = self.version {
            p.push(tlv(0xa0, &tlv(2, &[v])));
        }
        p.push(self.serial.clone());
        p.push(self.tbs_alg.clone());
        p.push(name(&self.issuer));
        p.push(seq(&[self.not_before.clone(), self.not_after.clone()]));
        p.push(name(&self.subject));
        p.push(self.spki.clone());
        if let Some(e) = &self.extensions {
            p.push(tlv(0xa3, &seq(e)));
        }
        seq(&p)
    }
    /// Sometimes a lot more in it, up to `max` bytes
    pub fn bulk(mut self, max: usize, rng: &mut Rng) -> CertSpec {
        if rng.one_in(6) {
            let n = *rng.pick(&[100usize, 250, 600, 2000, 4000, 8000, 13000, 16000, 17000, 30000, 60000]);
            let v = rng.bytes(n.min(max));
            self.extensions.get_or_insert_with(Vec::new).push(ext("2.16.840.1.113730.1.13", None, &v));
        }
        self
    }
    pub fn sign(&self, ca: &EcKey) -> Vec<u8> {
        let tbs = self.tbs();
        let h = if self.outer_alg == alg_ecdsa_sha384() { H::Sha384 } else { H::Sha256 };
        let s = ca.sign(&ossl::digest(h, &tbs));
        self.with_sig(&s)
    }
    pub fn with_sig(&self, sig: &[u8]) -> Vec<u8> {
        let mut b = vec![0];
        b.extend_from_slice(sig);
        seq(&[self.tbs(), self.outer_alg.clone(), tlv(3, &b)])
    }
}
/// Sizes of certificates at which a length field of a Certificate message (or of the certificate) grows a byte
/// or the message stops fitting into a record
pub fn cert_sizes() -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    v.extend((380..=390).chain(510..=514).chain(1020..=1030));
    v.extend(16355..=16390);
    v.extend([16639, 16640, 16641]);
    for k in [32768usize, 49152] {
        v.extend(k - 16..=k - 9);
        v.extend(k - 1..=k + 1);
    }
    v.extend(65515..=65545);
    v.extend([81900, 81910, 98300, 114688, 130000]);
    v
}
/// Signs a version of the certificate that has this many bytes (an extension is filled up)
pub fn sign_sized(spec: &CertSpec, ca: &EcKey, total: usize) -> Option<Vec<u8>> {
    let mut fill = total.saturating_sub(400);
    for _ in 0..400 {
        let mut s = spec.clone();
        s.extensions.get_or_insert_with(Vec::new).push(ext("2.16.840.1.113730.1.13", None, &vec![b'x'; fill]));
        let d = s.sign(ca);
        match total as i64 - d.len() as i64 {
            0 => return Some(d),
            // the length of the signature varies by itself
            x if x.abs() <= 1 && fill % 3 != 0 => fill = (fill as i64 + x) as usize,
            x if x.abs() <= 1 => {}
            x => fill = (fill as i64 + x).max(0) as usize,
        }
    }
    None
}
pub fn ext(o: &str, critical: Option<bool>, value: &[u8]) -> Vec<u8> {
    let mut p = vec![oid(o)];
    if let Some(c) = critical {
        p.push(tlv(1, &[if c { 0xff } else { 0 }]));
    }
    p.push(tlv(4, value));
    seq(&p)
}
pub fn pem(label: &str, der: &[u8], width: usize, eol: &str) -> String {
    let b = ossl::base64(der);
    let mut o = format!("-----BEGIN {label}-----{eol}");
    for c in b.as_bytes().chunks(width) {
        o += std::str::from_utf8(c).unwrap();
        o += eol;
    }
    o + &format!("-----END {label}-----{eol}")
}
pub fn pem64(label: &str, der: &[u8]) -> String {
    pem(label, der, 64, "\n")
}
