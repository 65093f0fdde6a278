//! X.509 parsing: total, and equal to what OpenSSL reads
use crate::common::{big, bytes32};
use crate::der::*;
use crate::eut::NOW;
use crate::mutate;
use crate::ossl::{self, EcKey};
use crate::rep::{hex, hexs, Case, Rep};
use crate::rng::Rng;
use crate::sim;
use anothertls::utils::der as ader;
use anothertls::utils::x509::{Algorithms, Version, X509};
use std::sync::Mutex;

pub const RULE: &str = "a case is one certificate built from the X.509 grammar, every field of which is compared with OpenSSL's reading, or one byte string (mutated, truncated, random, enumerated) on which the parser must return; distinct = (version, algorithms, name attributes and their lengths, extension size, key kind, length forms) or the byte string";

const ATTRS: [(&str, &str); 7] = [
    ("2.5.4.6", "countryName"),
    ("2.5.4.8", "stateOrProvinceName"),
    ("2.5.4.10", "organizationName"),
    ("2.5.4.3", "commonName"),
    ("1.2.840.113549.1.9.1", "emailAddress"),
    ("2.5.4.7", "localityName"),
    ("2.5.4.11", "organizationalUnitName"),
];
const PRINTABLE: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?";

fn text(rng: &mut Rng, tag: u8, n: usize) -> Vec<u8> {
    match tag {
        0x13 => (0..n).map(|_| *rng.pick(PRINTABLE)).collect(),
        0x16 => (0..n).map(|_| rng.range(0x20, 0x7e) as u8).collect(),
        _ => {
            let mut s = String::new();
            // white space, control characters and the like belong to the value, too
            let odd = rng.one_in(4);
            while s.len() < n {
                let c = match rng.below(6) {
                    _ if odd && rng.one_in(3) => Some(*rng.pick(&['\0', '\0', ' ', '\t', '\n', '\r', '\u{1}', '\u{1b}', '\u{7f}', '\u{80}', '\u{a0}', '\u{ad}', '\u{200b}', '\u{202e}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{301}', '\u{ffff}', '\u{10ffff}', '"', '\\', ',', '=', ';', '/', '*'])),
                    0 => char::from_u32(rng.range(0xa1, 0x24f) as u32),
                    1 => char::from_u32(rng.range(0x4e00, 0x9fff) as u32),
                    2 => char::from_u32(rng.range(0x1f300, 0x1f5ff) as u32),
                    _ => Some(rng.range(0x20, 0x7e) as u8 as char),
                };
                let c = c.unwrap();
                s.push(if s.len() + c.len_utf8() > n { 'x' } else { c });
            }
            s.into_bytes()
        }
    }
}
/// RDNs; each is a set of attributes
type Rdns = Vec<Vec<(String, u8, Vec<u8>)>>;
fn rdns(rng: &mut Rng) -> Rdns {
    let mut v: Rdns = vec![];
    for (o, _) in ATTRS {
        if rng.bool() {
            let tag = match o {
                "1.2.840.113549.1.9.1" => 0x16,
                "2.5.4.6" => 0x13,
                _ => *rng.pick(&[0x0c, 0x0c, 0x13]),
            };
            let n = match rng.below(12) {
                0 => 0,
                1 => rng.range(100, 400),
                _ => rng.range(1, 40),
            };
            v.push(vec![(o.to_string(), tag, text(rng, tag, n))]);
        }
    }
    if rng.one_in(4) {
        let o = rng.pick(&["2.5.4.5", "2.5.4.12", "2.5.4.42", "0.9.2342.19200300.100.1.1", "2.999.7", "1.3.6.1.4.1.311.60.2.1.3"]).to_string();
        let t = text(rng, 0x0c, 9);
        v.push(vec![(o, 0x0c, t)]);
    }
    if rng.one_in(3) {
        // the same attribute again: organisational units, host names ...
        for _ in 0..rng.range(1, 4) {
            let o = rng.pick(&ATTRS).0;
            let n = rng.range(1, 20);
            let t = text(rng, 0x0c, n);
            v.push(vec![(o.to_string(), 0x0c, t)]);
        }
    }
    rng.shuffle(&mut v);
    if v.len() > 1 && rng.one_in(4) {
        let x = v.pop().unwrap();
        v.last_mut().unwrap().extend(x);
    }
    v
}
fn enc_rdns(n: &Rdns) -> Vec<u8> {
    seq(&n
        .iter()
        .map(|s| {
            let mut e: Vec<Vec<u8>> = s.iter().map(|(o, t, v)| seq(&[oid(o), tlv(*t, v)])).collect();
            e.sort();
            set(&e)
        })
        .collect::<Vec<_>>())
}
#[derive(Clone)]
struct Made {
    der: Vec<u8>,
    tbs: Vec<u8>,
    serial: Vec<u8>,
    from: i64,
    to: i64,
    key: Vec<u8>,
    ec: Option<Vec<u8>>,
    rs: Option<(Vec<u8>, Vec<u8>)>,
    outer: usize,
    inner: usize,
    version: Option<u8>,
    kind: String,
}
fn alg(i: usize) -> Vec<u8> {
    match i {
        0 => seq(&[oid("1.2.840.10045.4.3.2")]),
        1 => seq(&[oid("1.2.840.10045.4.3.3")]),
        _ => seq(&[oid("1.2.840.113549.1.1.11"), tlv(5, &[])]),
    }
}
fn is_alg(a: &Algorithms, i: usize) -> bool {
    *a == [Algorithms::EcdsaWithSha256, Algorithms::EcdsaWithSha384, Algorithms::Sha256WithRSAEncryption][i]
}
struct Sizes {
    serial: usize,
    ext: Option<usize>,
    r: usize,
    s: usize,
    name: Option<usize>,
}
fn odd_int(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = rng.bytes(n);
    if let Some(x) = b.first_mut() {
        match rng.below(4) {
            0 => *x = 0x80,
            1 => *x = 1,
            2 => *x = 0x7f,
            _ => *x |= 1,
        }
    }
    b
}
fn make(rng: &mut Rng, z: &Sizes) -> Made {
    let version = *rng.pick(&[None, Some(1), Some(2), Some(2), Some(2)]);
    let serial = odd_int(rng, z.serial);
    let (issuer, subject) = match z.name {
        None => (rdns(rng), rdns(rng)),
        Some(n) => {
            let i = rng.below(ATTRS.len());
            let tag = *rng.pick(&[0x0c, 0x13, 0x16]);
            let t = text(rng, tag, n);
            let one = vec![vec![(ATTRS[i].0.to_string(), tag, t)]];
            let other = rdns(rng);
            if rng.bool() {
                (one, other)
            } else {
                (other, one)
            }
        }
    };
    let from = unix([rng.range(1950, 2049) as i32, 1, 1, 0, 0, 0]) + rng.below(365 * 86400) as i64;
    let to = unix([rng.range(1950, 2049) as i32, 1, 1, 0, 0, 0]) + rng.below(365 * 86400) as i64;
    let outer = *rng.pick(&[0, 0, 1, 2]);
    let inner = outer;
    let (spki, key, ec, kk) = match rng.below(5) {
        0 => {
            // RSA
            let n = rng.range(64, 520);
            let k = seq(&[int(&rng.bytes(n)), int(&[1, 0, 1])]);
            let mut b = vec![0];
            b.extend(&k);
            (seq(&[seq(&[oid("1.2.840.113549.1.1.1"), tlv(5, &[])]), tlv(3, &b)]), k, None, "rsa")
        }
        1 => {
            // another curve
            let mut k = vec![4];
            k.extend(rng.bytes(96));
            let mut b = vec![0];
            b.extend(&k);
            (seq(&[seq(&[oid(OID_EC), oid("1.3.132.0.34")]), tlv(3, &b)]), k, None, "p384")
        }
        _ => {
            let k = EcKey::random(rng).public.clone();
            (spki(&k), k.clone(), Some(k), "p256")
        }
    };
    let mut parts = vec![];
    if let Some(v) = version {
        parts.push(tlv(0xa0, &tlv(2, &[v])));
    }
    parts.push(int(&serial));
    parts.push(alg(inner));
    parts.push(enc_rdns(&issuer));
    parts.push(seq(&[utc_time(from), utc_time(to)]));
    parts.push(enc_rdns(&subject));
    parts.push(spki);
    let mut uid = 0;
    if version.is_some() {
        for t in [0x81u8, 0x82] {
            if rng.one_in(6) {
                uid += 1;
                let mut b = vec![0];
                let n = rng.range(0, 300);
                b.extend(rng.bytes(n));
                parts.push(tlv(t, &b));
            }
        }
    }
    let mut exts = 0;
    if version == Some(2) && (z.ext.is_some() || rng.bool()) {
        let mut e = vec![];
        for _ in 0..rng.range(1, 6) {
            let o = rng.pick(&["2.5.29.14", "2.5.29.15", "2.5.29.17", "2.5.29.19", "2.5.29.35", "2.5.29.37", "1.3.6.1.5.5.7.1.1", "2.999.3", "1.3.6.1.4.1.11129.2.4.2"]).to_string();
            let n = rng.range(0, 200);
            // contents that look like other parts of a certificate
            let v = match rng.below(5) {
                0 => utc_time(from + 86400),
                1 => alg(1),
                2 => enc_rdns(&rdns(rng)),
                3 => int(&rng.bytes(9)),
                _ => rng.bytes(n),
            };
            e.push(ext(&o, *rng.pick(&[None, Some(true)]), &v));
        }
        if let Some(n) = z.ext {
            e.push(ext("2.999.5", None, &rng.bytes(n)));
        }
        exts = e.len();
        parts.push(tlv(0xa3, &seq(&e)));
    }
    let tbs = seq(&parts);
    let (sig, rs) = if outer < 2 {
        let (r, s) = (odd_int(rng, z.r), odd_int(rng, z.s));
        (sig_der(&r, &s), Some((r, s)))
    } else {
        (rng.bytes(256), None)
    };
    let mut b = vec![0];
    b.extend(sig);
    let der = seq(&[tbs.clone(), alg(outer), tlv(3, &b)]);
    let kind = format!(
        "v{version:?} {kk} alg{outer} serial{} issuer{:?} subject{:?} uid{uid} ext{exts} len{}",
        z.serial,
        issuer.iter().map(|s| s.iter().map(|a| (a.1, a.2.len() / 16)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        subject.iter().map(|s| s.iter().map(|a| (a.1, a.2.len() / 16)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        der.len() / 64
    );
    Made { der, tbs, serial, from, to, key, ec, rs, outer, inner, version, kind }
}
fn parse(c: &mut Case, d: &[u8]) -> Option<Result<X509, String>> {
    let (r, heap) = sim::measure_heap(|| c.eut("parser", || format!("certificate {}", hex(d)), || X509::from_raw(d).map_err(|e| format!("{e:?}"))));
    let limit = 64 * d.len() as i64 + (1 << 20);
    c.check(heap <= limit, "parser memory", || format!("{heap} bytes of heap for {} bytes: {}", d.len(), hexs(d)));
    r
}
fn compare(c: &mut Case, m: &Made) {
    let d = &m.der;
    let Some((oc, used)) = ossl::Cert::parse(d) else {
        return c.fail("harness certificate", format!("OpenSSL refuses {}", hex(d)));
    };
    assert_eq!(used, d.len());
    let info = oc.info();
    c.ev(&m.kind);
    let Some(r) = parse(c, d) else { return };
    let x = match r {
        Ok(x) => x,
        Err(e) => return c.fail("well-formed certificate refused", format!("{e} for {} ({})", hex(d), m.kind)),
    };
    let ctx = || format!("certificate {} ({})", hex(d), m.kind);
    let t = &x.tbs_certificate;
    let v = match t.version {
        None | Some(Version::V1) => 0,
        Some(Version::V2) => 1,
        Some(Version::V3) => 2,
    };
    c.check(v == info.version, "version", || format!("{v}, OpenSSL {} in {}", info.version, ctx()));
    let _ = m.version;
    c.check(t.serial_number == big(&info.serial) && big(&info.serial) == big(&m.serial), "serial number", || {
        format!("{:x}, OpenSSL {} in {}", t.serial_number, hex(&info.serial), ctx())
    });
    for (who, name, theirs) in [("issuer", &t.issuer, &info.issuer), ("subject", &t.subject, &info.subject)] {
        for (o, n) in ATTRS {
            let want: Vec<&String> = theirs.iter().filter(|x| x.0 == o).map(|x| &x.1).collect();
            let got = name.get(n).ok();
            let ok = match &got {
                None => want.is_empty(),
                // the most specific one
                Some(g) => want.last() == Some(&g),
            };
            c.count("repeated attributes compared", (want.len() > 1) as u64);
            c.check(ok, &format!("{who} name"), || format!("{who} {n} = {got:?}, OpenSSL {want:?} in {}", ctx()));
            c.count("name attributes compared", want.len() as u64);
        }
    }
    c.check(is_alg(&x.signature_algorithm, m.outer) && is_alg(&t.signature.algorithm, m.inner), "signature algorithm", || {
        format!("{:?}/{:?}, OpenSSL {} in {}", x.signature_algorithm, t.signature.algorithm, info.sig_alg, ctx())
    });
    let k = t.subject_public_key_info.subject_public_key.as_slice();
    c.check(k == &m.key[..], "public key bits", || format!("{} instead of {} in {}", hex(k), hex(&m.key), ctx()));
    match (&m.ec, x.get_public_key()) {
        (Some(e), Some(p)) => {
            c.check(info.pubkey.as_ref() == Some(e), "harness key", || format!("OpenSSL reads {:?}", info.pubkey));
            let (a, b) = (bytes32(&p.point.x), bytes32(&p.point.y));
            let ok = a.map(|a| a == e[1..33]) == Some(true) && b.map(|b| b == e[33..]) == Some(true);
            c.check(ok, "public key point", || format!("({:x}, {:x}) instead of {} in {}", p.point.x, p.point.y, hex(e), ctx()));
            c.count("P-256 keys compared", 1);
        }
        (Some(_), None) => c.fail("public key refused", ctx()),
        (None, Some(p)) => c.fail("foreign key taken for P-256", format!("({:x}, {:x}) in {}", p.point.x, p.point.y, ctx())),
        (None, None) => {}
    }
    if let Some((r, s)) = &m.rs {
        match &x.signature {
            Some(g) => {
                c.check(g.r == big(r) && g.s == big(s), "signature", || format!("r {:x} s {:x} instead of {} {} in {}", g.r, g.s, hex(r), hex(s), ctx()));
                c.count("signatures compared", 1);
            }
            None => c.fail("signature refused", ctx()),
        }
    }
    c.check(t.raw_data.as_deref() == Some(&m.tbs[..]) && x.tbs_certificate_size == m.tbs.len(), "signed part", || {
        format!("the signed part is {:?} ({} bytes) instead of {}, {}", t.raw_data.as_ref().map(|x| hexs(x)), x.tbs_certificate_size, hexs(&m.tbs), ctx())
    });
    // the dates, as far as the clock shows them
    let (nb, na) = (info.not_before.map(unix), info.not_after.map(unix));
    c.check(nb == Some(m.from) && na == Some(m.to), "harness dates", || format!("OpenSSL {nb:?} {na:?}"));
    for now in [m.from - 1, m.from, m.to, m.to + 1, (m.from + m.to) / 2] {
        sim::set_clock(Some(now));
        let v = x.tbs_certificate.validity.is_valid();
        sim::set_clock(None);
        let want = m.from <= now && now <= m.to;
        c.check(v == want, "validity times", || format!("is_valid() = {v} at {now}, the certificate says {}..{}, {}", m.from, m.to, ctx()));
    }
}
/// A certificate which both this crate and OpenSSL accept says the same to both, whatever it is
fn agrees(c: &mut Case, x: &X509, d: &[u8], what: &str) {
    let Some((oc, _)) = ossl::Cert::parse(d) else {
        return c.count(&format!("{what}: parsed, but not by OpenSSL"), 1);
    };
    let info = oc.info();
    let t = &x.tbs_certificate;
    let v = match t.version {
        None | Some(Version::V1) => 0,
        Some(Version::V2) => 1,
        Some(Version::V3) => 2,
    };
    c.check(v == info.version, "version", || format!("{v}, OpenSSL {} in {}", info.version, hex(d)));
    if !info.serial_negative {
        c.check(t.serial_number == big(&info.serial), "serial number", || format!("{:x}, OpenSSL {} in {}", t.serial_number, hex(&info.serial), hex(d)));
    }
    for (who, name, theirs) in [("issuer", &t.issuer, &info.issuer), ("subject", &t.subject, &info.subject)] {
        for (o, n) in ATTRS {
            let want = theirs.iter().rfind(|x| x.0 == o).map(|x| &x.1);
            let got = name.get(n).ok();
            let ok = match (&got, want) {
                (None, None) => true,
                // in a PrintableString, OpenSSL takes bytes for characters
                (Some(g), Some(w)) => *g == *w || (w.chars().all(|c| (c as u32) < 256) && w.chars().map(|c| c as u8).eq(g.bytes())),
                _ => false,
            };
            c.check(ok, &format!("{who} name"), || format!("{who} {n} = {got:?}, OpenSSL {want:?} in {}", hex(d)));
        }
    }
    let key = c.eut("key", || hex(d), || x.get_public_key()).flatten();
    if let (Some(p), Some(k)) = (key, &info.pubkey) {
        let (a, b) = (bytes32(&p.point.x), bytes32(&p.point.y));
        let ok = k.len() == 65 && a.map(|a| a == k[1..33]) == Some(true) && b.map(|b| b == k[33..]) == Some(true);
        c.check(ok, "public key point", || format!("({:x}, {:x}) instead of {} in {}", p.point.x, p.point.y, hex(k), hex(d)));
    }
    if let (Some(from), Some(to)) = (info.not_before.map(unix), info.not_after.map(unix)) {
        for now in [from - 1, from, to, to + 1] {
            let v = c.eut("validity", || hex(d), || {
                sim::set_clock(Some(now));
                let v = x.tbs_certificate.validity.is_valid();
                sim::set_clock(None);
                v
            });
            let Some(v) = v else { continue };
            c.check(v == (from <= now && now <= to), "validity times", || format!("is_valid() = {v} at {now}, OpenSSL reads {from}..{to} in {}", hex(d)));
        }
    }
    c.count("altered certificates read by both", 1);
}
/// What was returned for a byte string that need not be a certificate
fn total(c: &mut Case, d: &[u8], what: &str) {
    let Some(r) = parse(c, d) else { return };
    c.evals(1);
    match r {
        Ok(x) => {
            c.count(&format!("{what}: parsed"), 1);
            let _ = c.eut("key", || hex(d), || x.get_public_key().is_some());
            let _ = c.eut("validity", || hex(d), || x.tbs_certificate.validity.is_valid());
            let _ = c.eut("names", || hex(d), || format!("{} {}", x.tbs_certificate.issuer, x.tbs_certificate.subject));
            // the bytes a signature is checked over are in the certificate
            let ok = match &x.tbs_certificate.raw_data {
                Some(t) => t.len() == x.tbs_certificate_size && d.windows(t.len().max(1)).any(|w| w == &t[..]) && t.first() == Some(&0x30),
                None => false,
            };
            c.check(ok, "signed part", || format!("the signed part is not in {}", hex(d)));
            agrees(c, &x, d, what);
        }
        Err(_) => c.count(&format!("{what}: error"), 1),
    }
}

/// A certificate of any kind, or what is left of one
#[allow(dead_code)]
pub fn any(rng: &mut Rng) -> Vec<u8> {
    let z = Sizes { serial: rng.range(1, 20), ext: None, r: 32, s: 32, name: None };
    let m = make(rng, &z);
    match rng.below(4) {
        0 => mutate::der(rng, &m.der),
        1 => mutate::corrupt(rng, &m.der).1,
        _ => m.der,
    }
}
fn sample(c: &mut Case, m: &Made) {
    c.sample("certificate", || format!("{} ({} bytes)", m.kind, m.der.len()));
}
pub fn run(rep: &Rep) {
    rep.group("grammar", rep.n(9000, 400_000), |c| {
        let z = Sizes {
            serial: c.rng.range(1, 20),
            ext: None,
            r: if c.rng.bool() { 32 } else { c.rng.range(1, 32) },
            s: if c.rng.bool() { 32 } else { c.rng.range(1, 32) },
            name: None,
        };
        let m = make(&mut c.rng, &z);
        sample(c, &m);
        compare(c, &m);
    });
    // every size around the changes of the length form
    let mut sizes: Vec<usize> = (0..300).collect();
    for b in [0x1000usize, 0xffff, 0x10000, 0x20000] {
        sizes.extend(b.saturating_sub(140)..b + 10);
    }
    if rep.thorough {
        sizes.extend(300..4000);
        sizes.extend((0xff0000usize - 2..0xff0000 + 2).chain(0x1000000 - 300..0x1000000 - 290).chain([0x1000000]));
    }
    rep.group("extension sizes", sizes.len(), |c| {
        let z = Sizes { serial: 8, ext: Some(sizes[c.idx]), r: 32, s: 32, name: None };
        let m = make(&mut c.rng, &z);
        compare(c, &m);
    });
    rep.group("name sizes", 700, |c| {
        let z = Sizes { serial: 8, ext: None, r: 32, s: 32, name: Some(c.idx) };
        let m = make(&mut c.rng, &z);
        compare(c, &m);
    });
    rep.group("serial sizes", 400, |c| {
        let z = Sizes { serial: c.idx, ext: None, r: 1 + c.idx % 32, s: 32 - c.idx / 32 % 32, name: None };
        let m = make(&mut c.rng, &z);
        compare(c, &m);
    });
    // totality
    let base: Vec<Made> = {
        let mut r = Rng::new(rep.seed ^ 0xc15);
        (0..64).map(|i| make(&mut r, &Sizes { serial: 5 + i % 13, ext: if i % 7 == 0 { Some(40) } else { None }, r: 32, s: 31, name: None })).collect()
    };
    rep.group("mutated structure", rep.n(40_000, 2_000_000), |c| {
        let m = c.rng.pick(&base).clone();
        let d = mutate::der(&mut c.rng, &m.der);
        c.distinct(&d);
        total(c, &d, "structure");
        if c.rng.one_in(3) {
            let d = mutate::bytes(&mut c.rng, &d);
            total(c, &d, "structure and bytes");
        }
    });
    rep.group("mutated bytes", rep.n(40_000, 2_000_000), |c| {
        let m = c.rng.pick(&base).clone();
        let d = mutate::bytes(&mut c.rng, &m.der);
        c.distinct(&d);
        total(c, &d, "bytes");
    });
    // one certificate: every truncation, every value of every byte
    let mut small = base.iter().map(|m| m.der.clone()).collect::<Vec<_>>();
    small.sort_by_key(|d| d.len());
    let which: Vec<Vec<u8>> = if rep.thorough { small[..6].to_vec() } else { small[..1].to_vec() };
    for (k, d) in which.iter().enumerate() {
        rep.group(&format!("every byte {k}"), d.len(), |c| {
            let i = c.idx;
            total(c, &d[..i], "truncated");
            let mut m = d.clone();
            for v in 0..=255u8 {
                m[i] = v;
                total(c, &m, "one byte");
            }
            c.distinct(&(i as u64).to_le_bytes());
        });
    }
    rep.group("short", 257, |c| {
        if c.idx == 256 {
            total(c, &[], "short");
            for a in 0..=255u8 {
                total(c, &[a], "short");
            }
            return;
        }
        for b in 0..=255u8 {
            total(c, &[c.idx as u8, b], "short");
            for t in [0u8, 1, 2, 0x30, 0x7f, 0x80, 0x81, 0x84, 0xff] {
                total(c, &[c.idx as u8, b, t], "short");
                total(c, &[0x30, 3, c.idx as u8, b, t], "short");
                total(c, &[0x30, 5, 0x30, 3, c.idx as u8, b, t], "short");
                total(c, &[0x30, 0x84, c.idx as u8, b, t, b], "short");
            }
        }
    });
    rep.group("random", rep.n(20_000, 800_000), |c| {
        let n = if c.rng.one_in(10) { c.rng.range(0, 3000) } else { c.rng.range(0, 60) };
        let d = if c.rng.bool() {
            c.rng.bytes(n)
        } else {
            (0..n).map(|_| *c.rng.pick(&[0x30u8, 0x31, 2, 3, 6, 0x0c, 0x13, 0x17, 0xa0, 0xa3, 0, 1, 4, 8, 0x80, 0x81, 0x82, 0x84, 0xff])).collect()
        };
        c.distinct(&d);
        total(c, &d, "random");
        // the element reader itself
        let at = c.rng.below(d.len() + 3);
        let mut used = at;
        if let Some(Ok((size, _))) = c.eut("der_parse", || format!("at {at} of {}", hex(&d)), || ader::der_parse(&mut used, &d)) {
            c.check(used > at && used.checked_add(size).is_some_and(|e| e <= d.len()), "element bounds", || {
                format!("der_parse({at}, {}) = {size} bytes at {used}", hex(&d))
            });
        }
    });
    // certificates whose dates are given in every way: the parser must return
    let odd = Mutex::new(0u64);
    rep.group("odd dates", rep.n(4000, 100_000), |c| {
        let mut m = c.rng.pick(&base).clone().der;
        let t = utc_time(NOW);
        if let Some(p) = m.windows(2).position(|w| w == [0x17, 13]) {
            let mut s = t[2..].to_vec();
            for _ in 0..c.rng.range(1, 4) {
                let i = c.rng.below(13);
                s[i] = *c.rng.pick(b"0123456789Z+-. :\0\xff\xc3\xa9az");
            }
            m[p + 2..p + 15].copy_from_slice(&s);
            *odd.lock().unwrap() += 1;
        }
        total(c, &m, "odd dates");
    });
    let _ = odd;
    // the same with all the logging there is
    sim::talkative();
    rep.group("logging", rep.n(20_000, 400_000), |c| {
        let m = c.rng.pick(&base).clone();
        let d = match c.rng.below(3) {
            0 => m.der.clone(),
            1 => mutate::der(&mut c.rng, &m.der),
            _ => mutate::bytes(&mut c.rng, &m.der),
        };
        c.distinct(&d);
        total(c, &d, "logging");
    });
    rep.require("name attributes compared", 5000);
    rep.require("repeated attributes compared", 200);
    rep.require("P-256 keys compared", 3000);
    rep.require("signatures compared", 3000);
    rep.require("structure: parsed", 100);
    rep.require("structure: error", 1000);
    rep.require("one byte: error", 1000);
    rep.require("altered certificates read by both", 30_000);
}
