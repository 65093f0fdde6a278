//! PEM, Base64 and key files decode exactly or are refused
use crate::der::*;
use crate::eut::*;
use crate::ossl::{self, EcKey, P256_N};
use crate::rep::{guarded, hex, hexs, Case, Rep};
use crate::rng::Rng;
use crate::sim;
use crate::tls::*;
use anothertls::crypto::ellipticcurve::PrivateKey;
use anothertls::net::handshake::Certificate;
use anothertls::utils::{base64, pem::get_pem_content_from_file};
use anothertls::{ClientConfigBuilder, ServerConfigBuilder};
use ibig::{IBig, UBig};
use std::collections::HashMap;
use std::sync::Arc;

pub const RULE: &str = "a case is one byte string encoded and decoded again, one text decoded, one PEM file (its objects, layout and damage), one key file, or one handshake with a certificate and key read from files; distinct = byte string or text, (objects, layout) of a file, (key, structure, damage), (role, key, size of the certificate)";

const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// What RFC 4648 says about a text: the bytes, and whether it is the canonical encoding of them
fn reference(t: &[u8]) -> Option<(Vec<u8>, bool)> {
    if t.len() % 4 != 0 {
        return None;
    }
    let pad = t.iter().rev().take_while(|b| **b == b'=').count();
    if pad > 2 {
        return None;
    }
    let mut o = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in &t[..t.len() - pad] {
        let v = ALPHA.iter().position(|a| a == b)? as u32;
        acc = (acc << 6 | v) & 0xffff;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
        }
    }
    Some((o, acc & ((1 << bits) - 1) == 0))
}

fn encode(c: &mut Case) {
    for _ in 0..64 {
        let n = match c.rng.below(8) {
            0 => c.rng.below(5),
            1 => 4095 + c.rng.below(3),
            2 => c.rng.below(1500),
            _ => c.rng.below(100),
        };
        let d = c.rng.odd_bytes(n);
        one_encode(c, &d);
    }
}
fn one_encode(c: &mut Case, d: &[u8]) {
    c.evals(1);
    c.distinct(d);
    let want = ossl::base64(d);
    let Some(got) = c.eut("encode", || hexs(d), || base64::encode(d)) else { return };
    c.check(got == want, "encoding differs", || format!("of {}: {got} instead of {want}", hexs(d)));
    let Some(back) = c.eut("decode", || want.clone(), || base64::decode(&want)) else { return };
    c.check(back.as_deref() == Some(d), "decoding is not the inverse", || format!("{want}: {back:?}"));
    c.count("byte strings encoded and decoded", 1);
}
fn judge_text(c: &mut Case, t: &str) {
    c.evals(1);
    c.distinct(t.as_bytes());
    let Some(got) = c.eut("decode", || format!("{t:?}"), || base64::decode(t)) else { return };
    match (reference(t.as_bytes()), got) {
        (None, None) => c.count("malformed texts refused", 1),
        (None, Some(g)) => c.fail("malformed text is decoded", format!("{t:?} gives {}", hexs(&g))),
        (Some((w, true)), g) => {
            c.check(g.as_deref() == Some(&w[..]), "decoding differs", || format!("{t:?} gives {g:?} instead of {}", hex(&w)));
            c.count("well-formed texts decoded", 1);
        }
        // the unused bits are not zero: the RFC leaves it open
        (Some((w, false)), Some(g)) => {
            c.check(g == w, "decoding differs", || format!("{t:?} gives {g:?} instead of {}", hex(&w)));
        }
        (Some(_), None) => c.count("texts with unused bits set refused", 1),
    }
}
const ODD: &[&str] = &[
    "=", "=", "==", "-", "_", " ", "\n", "\r\n", "\t", "\0", ".", "!", "@", "[", "`", "{", ":", "\u{7f}", "\u{80}", "é", "ÿ", "Ā", "€", "𝒜", "/", "+", "A", "z", "0",
];
fn texts(c: &mut Case) {
    for _ in 0..64 {
        let n = if c.rng.one_in(6) { c.rng.below(300) } else { c.rng.below(16) };
        let d = c.rng.odd_bytes(n);
        let mut t: Vec<String> = ossl::base64(&d).chars().map(String::from).collect();
        for _ in 0..=c.rng.below(3) {
            let at = c.rng.below(t.len() + 1);
            match c.rng.below(6) {
                0 if at < t.len() => {
                    t.remove(at);
                }
                1 => t.insert(at, c.rng.pick(ODD).to_string()),
                2 if at < t.len() => t[at] = c.rng.pick(ODD).to_string(),
                3 => {
                    // whole groups of padding, or a padded group in the middle
                    for _ in 0..4 {
                        let s = *c.rng.pick(&["A", "=", "=", "g"]);
                        t.insert(at.min(t.len()), s.to_string());
                    }
                }
                4 if at < t.len() => t[at] = char::from(c.rng.u8()).to_string(),
                5 if at < t.len() => t[at] = char::from(*c.rng.pick(ALPHA)).to_string(),
                _ => t.push(c.rng.pick(ODD).to_string()),
            }
        }
        if c.rng.one_in(20) {
            // bytes, not characters, make up a group of four
            t.push("é".repeat(c.rng.range(1, 6)));
        }
        let t = t.concat();
        judge_text(c, &t);
    }
}

/// A PEM file of some objects
struct Layout {
    width: usize,
    eol: &'static str,
    last_eol: bool,
    text: bool,
    utf8: bool,
    trailing: &'static str,
}
fn layout(r: &mut Rng) -> Layout {
    Layout {
        width: *r.pick(&[64, 64, 64, 76, 48, 72, 4, 1, 3, 5, 63, 65, 77, 128, 1000, 1 << 20]),
        eol: *r.pick(&["\n", "\n", "\r\n", "\r\n", "\r"]),
        last_eol: !r.one_in(4),
        text: r.one_in(2),
        utf8: !r.one_in(4),
        trailing: if r.one_in(10) { *r.pick(&[" ", "\t", "  "]) } else { "" },
    }
}
impl Layout {
    fn key(&self) -> String {
        format!("{} {:?} {} {} {} {:?}", self.width, self.eol, self.last_eol, self.text, self.utf8, self.trailing)
    }
    fn words(&self, r: &mut Rng) -> Vec<u8> {
        let mut o = vec![];
        for _ in 0..r.below(4) {
            let l: &[u8] = r.pick(&[
                &b"subject=CN = server.test"[..],
                b"",
                b"Bag Attributes",
                b"    localKeyID: 01 02 03",
                b"# comment: the certificate -----",
                b"-- not a boundary --",
                b"MIIB",
                b"A=",
                b"----",
                "Schlüssel für den Server".as_bytes(),
            ]);
            o.extend(l);
            o.extend(self.eol.as_bytes());
        }
        if !self.utf8 {
            o.extend(b"Schl\xfcssel \xff\xfe\x80");
            o.extend(self.eol.as_bytes());
        }
        o
    }
    fn write(&self, objs: &[(String, Vec<u8>)], r: &mut Rng) -> Vec<u8> {
        let mut o = vec![];
        for (label, d) in objs {
            if self.text {
                o.extend(self.words(r));
            }
            let p = pem(label, d, self.width, "\n");
            for l in p.lines() {
                o.extend(l.as_bytes());
                o.extend(self.trailing.as_bytes());
                o.extend(self.eol.as_bytes());
            }
        }
        if self.text {
            o.extend(self.words(r));
        }
        if !self.last_eol {
            while matches!(o.last(), Some(b'\n' | b'\r')) {
                o.pop();
            }
        }
        o
    }
}
const LABELS: &[&str] = &[
    "CERTIFICATE",
    "CERTIFICATE",
    "EC PRIVATE KEY",
    "EC PARAMETERS",
    "PRIVATE KEY",
    "PUBLIC KEY",
    "X509 CRL",
    "X",
    "CERTIFICATE REQUEST",
    "ENCRYPTED PRIVATE KEY",
    "PKCS7",
    "NEW CERTIFICATE-REQUEST 2",
];
fn read(c: &mut Case, dir: &Scratch, file: &[u8]) -> Option<Option<HashMap<String, Vec<u8>>>> {
    let p = dir.file(&format!("{}-{}.pem", c.group, c.idx), file);
    let r = c.eut("PEM reader", || show(file), || get_pem_content_from_file(p.clone()));
    let _ = std::fs::remove_file(&p);
    r
}
fn show(f: &[u8]) -> String {
    let s = String::from_utf8_lossy(f);
    format!("{:?}", s.chars().take(1500).collect::<String>())
}
fn objects(c: &mut Case) -> Vec<(String, Vec<u8>)> {
    let n = if c.rng.one_in(8) { c.rng.range(4, 12) } else { c.rng.range(1, 3) };
    (0..n)
        .map(|_| {
            let l = c.rng.pick(LABELS).to_string();
            let n = match c.rng.below(6) {
                0 => c.rng.range(1, 4),
                1 => c.rng.range(2000, 9000),
                2 => 48 * c.rng.range(1, 4),
                _ => c.rng.range(1, 800),
            };
            (l, c.rng.odd_bytes(n))
        })
        .collect()
}
fn layouts(c: &mut Case, dir: &Scratch) {
    for _ in 0..16 {
        let objs = objects(c);
        let l = layout(&mut c.rng);
        let f = l.write(&objs, &mut c.rng);
        c.evals(1);
        c.distinct(format!("{} {:?}", l.key(), objs.iter().map(|o| (&o.0, o.1.len())).collect::<Vec<_>>()).as_bytes());
        let Some(got) = read(c, dir, &f) else { return };
        let Some(m) = got else {
            c.fail("a PEM file is refused", format!("layout {}: {}", l.key(), show(&f)));
            return;
        };
        // of several objects with one label the first one counts (the own certificate in a chain)
        let mut want: HashMap<String, Vec<u8>> = HashMap::new();
        for (l, d) in &objs {
            want.entry(l.clone()).or_insert(d.clone());
        }
        c.check(m == want, "objects differ", || {
            let k: Vec<_> = want.iter().filter(|(k, v)| m.get(*k) != Some(v)).map(|(k, v)| format!("{k}: {} instead of {}", m.get(k).map(|v| hexs(v)).unwrap_or("nothing".into()), hexs(v))).collect();
            format!("layout {}: {k:?}, labels {:?} of {:?}; {}", l.key(), m.keys(), want.keys(), show(&f))
        });
        c.count(&format!("layouts read: end of line {:?}", l.eol), 1);
        if !l.utf8 && l.text {
            c.count("layouts read: text that is not UTF-8", 1);
        }
        c.count("layouts read", 1);
    }
}
/// Something in the file is damaged: never another object than the ones encoded
fn damaged(c: &mut Case, dir: &Scratch) {
    for _ in 0..16 {
        let objs = objects(c);
        let l = layout(&mut c.rng);
        let f = l.write(&objs, &mut c.rng);
        let kind = c.rng.below(7);
        // body: one object must not be returned under its label any more
        let mut bad: Option<(String, Vec<u8>)> = None;
        let mut g = f.clone();
        match kind {
            0 => g.truncate(c.rng.below(f.len())),
            1 => {
                // the end line is missing
                let w = c.rng.below(objs.len());
                let at = nth(&g, b"-----END ", w).unwrap();
                let to = at + g[at..].iter().position(|b| *b == b'\n' || *b == b'\r').unwrap_or(g.len() - at);
                g.drain(at..to);
                bad = Some(objs[w].clone());
            }
            2 => {
                // an illegal character within the data
                let w = c.rng.below(objs.len());
                let at = body(&g, w, &mut c.rng);
                let b = *c.rng.pick(b"!-_.,:;@[`{~\"\0\x7f\x80\xc3\xff=");
                if b == b'=' && g[at + 1..].iter().take(4).any(|b| *b == b'=' || *b == b'-' || *b == b'\n' || *b == b'\r' || *b == b' ' || *b == b'\t') {
                    continue; // may end up as another legal encoding
                }
                // "-----" would be a new boundary only with five of them
                g[at] = b;
                bad = Some(objs[w].clone());
            }
            3 => {
                // a character is lost
                let w = c.rng.below(objs.len());
                let at = body(&g, w, &mut c.rng);
                g.remove(at);
                bad = Some(objs[w].clone());
            }
            4 => {
                // other label at the end
                let w = c.rng.below(objs.len());
                let at = nth(&g, b"-----END ", w).unwrap() + 9;
                g[at] ^= 1;
            }
            5 => {
                let at = c.rng.below(g.len());
                g[at] = c.rng.u8();
                // a changed character of the data is another legal file
                if let (Some(a), Some(b)) = (ALPHA.iter().position(|x| *x == f[at]).or((f[at] == b'=').then_some(0)), ALPHA.iter().position(|x| *x == g[at]).or((g[at] == b'=').then_some(0))) {
                    let _ = (a, b);
                    continue;
                }
                // the label is changed, or a boundary
                if !matches!(f[at], b'\n' | b'\r') {
                    c.evals(1);
                    let _ = read(c, dir, &g);
                    continue;
                }
            }
            _ => {
                g = c.rng.odd_bytes(300);
                if c.rng.bool() {
                    g.extend(b"\n-----BEGIN ");
                    let t: &[u8] = c.rng.pick(&[&b"-----"[..], b"----", b"X", b"\xff-----", b"", b"X----", b"------", b"X-----\n-----END X-----", b"-----\n-----END -----"]);
                    g.extend(t);
                }
                c.evals(1);
                let _ = read(c, dir, &g);
                continue;
            }
        }
        c.evals(1);
        c.distinct(format!("{kind} {} {:?}", l.key(), objs.iter().map(|o| (&o.0, o.1.len())).collect::<Vec<_>>()).as_bytes());
        let Some(got) = read(c, dir, &g) else { return };
        let Some(m) = got else {
            c.count("damaged files refused", 1);
            continue;
        };
        if kind == 5 {
            continue; // an end of line less or more
        }
        for (k, v) in &m {
            if !objs.iter().any(|(l, d)| l == k && d == v) {
                c.fail("damaged file gives other bytes", format!("damage {kind}, layout {}: {k} = {} from {}", l.key(), hexs(v), show(&g)));
            }
        }
        if let Some((k, v)) = bad {
            if objs.iter().filter(|o| o.0 == k && o.1 == v).count() == 1 && m.get(&k) == Some(&v) {
                c.fail("damage goes unnoticed", format!("damage {kind}, layout {}: {k} is returned from {}", l.key(), show(&g)));
            }
        }
        c.count("damaged files read without the damaged object", 1);
    }
}
fn nth(f: &[u8], pat: &[u8], n: usize) -> Option<usize> {
    f.windows(pat.len()).enumerate().filter(|(_, w)| *w == pat).map(|(i, _)| i).nth(n)
}
/// A character of the base64 data (not the padding) of an object
fn body(f: &[u8], n: usize, r: &mut Rng) -> usize {
    let mut at = nth(f, b"-----BEGIN ", n).unwrap() + 11;
    while f[at..at + 5] != *b"-----" {
        at += 1;
    }
    let end = nth(f, b"-----END ", n).unwrap();
    let all: Vec<usize> = (at + 5..end).filter(|i| ALPHA.contains(&f[*i])).collect();
    *r.pick(&all)
}

/// Private keys with everything unusual about them
fn secret(r: &mut Rng) -> [u8; 32] {
    loop {
        let mut s: [u8; 32] = r.arr();
        match r.below(8) {
            0 => {
                let n = r.range(1, 4);
                s[..n].fill(0);
            }
            1 => {
                let n = r.range(5, 31);
                s[..n].fill(0);
            }
            2 => {
                let n = r.range(1, 31);
                s[32 - n..].fill(0);
            }
            3 => {
                // close to the order of the group
                s = P256_N;
                s[31] -= r.range(1, 0x51) as u8;
            }
            4 => {
                s = [0; 32];
                s[r.below(32)] = 1 << r.below(8);
            }
            5 => {
                s[..8].copy_from_slice(&P256_N[..8]);
                s[8..16].copy_from_slice(&[0xff; 8]);
                s[16] &= 0x3f;
            }
            _ => {}
        }
        if s != [0; 32] && s < P256_N {
            return s;
        }
    }
}
const PARAMS: [u8; 10] = [0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];
fn key_der(r: &mut Rng, k: &EcKey) -> (Vec<u8>, &'static str) {
    let mut p = vec![tlv(2, &[1]), tlv(4, &k.secret)];
    let mut public = vec![0];
    public.extend(&k.public);
    match r.below(5) {
        0 | 1 => (k.sec1_der(), "all"),
        2 => {
            p.push(tlv(0xa0, &PARAMS));
            (seq(&p), "no public key")
        }
        3 => {
            p.push(tlv(0xa1, &tlv(3, &public)));
            (seq(&p), "no parameters")
        }
        _ => (seq(&p), "only the key"),
    }
}
fn key_file(r: &mut Rng, der: &[u8], l: &Layout) -> Vec<u8> {
    let mut objs = vec![("EC PRIVATE KEY".to_string(), der.to_vec())];
    if r.one_in(3) {
        objs.insert(0, ("EC PARAMETERS".into(), PARAMS.to_vec()));
    }
    if r.one_in(6) {
        let n = r.range(100, 600);
        objs.insert(r.below(2), ("CERTIFICATE".into(), r.bytes(n)));
    }
    l.write(&objs, r)
}
fn secret_of(k: &PrivateKey) -> Option<[u8; 32]> {
    let v = UBig::try_from(k.secret.clone()).ok()?.to_be_bytes();
    let mut o = [0; 32];
    o.get_mut(32usize.checked_sub(v.len())?..)?.copy_from_slice(&v);
    Some(o)
}
fn load(c: &mut Case, dir: &Scratch, file: &[u8]) -> Option<Option<PrivateKey>> {
    let p = dir.file(&format!("{}-{}.key", c.group, c.idx), file);
    let r = c.eut("key file reader", || show(file), || PrivateKey::from_pem(p.clone()));
    let _ = std::fs::remove_file(&p);
    r
}
fn keys(c: &mut Case, dir: &Scratch) {
    for _ in 0..8 {
        let s = secret(&mut c.rng);
        let k = EcKey::from_secret(s);
        let (der, form) = key_der(&mut c.rng, &k);
        let l = layout(&mut c.rng);
        let f = key_file(&mut c.rng, &der, &l);
        c.evals(1);
        c.distinct(&s);
        let Some(got) = load(c, dir, &f) else { return };
        let Some(g) = got else {
            c.fail("a key file is refused", format!("{form}, key {}: {}", hex(&s), show(&f)));
            return;
        };
        c.check(secret_of(&g) == Some(s), "another key is used", || format!("{form}: {} instead of {}; {}", g.secret, hex(&s), show(&f)));
        c.check(g.curve.n == IBig::from(UBig::from_be_bytes(&P256_N)), "another curve is used", || hex(&s));
        if c.rng.one_in(8) {
            let Some(p) = c.eut("public key", || hex(&s), || g.get_public_key()) else { return };
            let (x, y) = (UBig::from_be_bytes(&k.public[1..33]), UBig::from_be_bytes(&k.public[33..]));
            c.check(p.point.x == IBig::from(x) && p.point.y == IBig::from(y), "another public key", || hex(&s));
            c.count("public keys compared", 1);
        }
        if s[0] == 0 {
            c.count("keys with leading zero bytes", 1);
        }
        c.count(&format!("key structure: {form}"), 1);
    }
}
/// The 32 byte string of an ECPrivateKey, whatever surrounds it
fn reference_key(d: &[u8]) -> Option<[u8; 32]> {
    fn el<'a>(d: &mut &'a [u8], tag: u8) -> Option<&'a [u8]> {
        let (t, r) = d.split_first()?;
        let (l, mut r) = r.split_first()?;
        let mut n = *l as usize;
        if n >= 0x80 {
            let k = n & 0x7f;
            if k == 0 || k > r.len() {
                return None;
            }
            n = 0;
            for b in &r[..k] {
                n = n.checked_mul(256)?.checked_add(*b as usize)?;
            }
            r = &r[k..];
        }
        if *t != tag || n > r.len() {
            return None;
        }
        *d = &r[n..];
        Some(&r[..n])
    }
    let mut o = d;
    let mut s = el(&mut o, 0x30)?;
    if el(&mut s, 2)? != [1] {
        return None;
    }
    let k: [u8; 32] = el(&mut s, 4)?.try_into().ok()?;
    (k != [0; 32] && k < P256_N).then_some(k)
}
fn bad_keys(c: &mut Case, dir: &Scratch) {
    for _ in 0..16 {
        let s = secret(&mut c.rng);
        let mut public = vec![0];
        public.extend(c.rng.bytes(65));
        let mut must_refuse = true;
        let kind = c.rng.below(10);
        let mut label = "EC PRIVATE KEY";
        let der = match kind {
            0 => seq(&[tlv(2, &[1]), tlv(4, &[0; 32]), tlv(0xa0, &PARAMS)]),
            1 => {
                let mut k = P256_N;
                match c.rng.below(3) {
                    0 => {}
                    1 => k[31] += c.rng.range(1, 0xae) as u8,
                    _ => k = [0xff; 32],
                }
                seq(&[tlv(2, &[1]), tlv(4, &k), tlv(0xa0, &PARAMS)])
            }
            2 => {
                // another length: a shorter key may only be padded on the left, in either case it
                // is not a P-256 key as RFC 5915 has it
                let n = *c.rng.pick(&[0usize, 1, 31, 33, 48, 64, 66]);
                let k = c.rng.bytes(n);
                must_refuse = n > 32 || n == 0;
                seq(&[tlv(2, &[1]), tlv(4, &k), tlv(0xa0, &PARAMS)])
            }
            3 => {
                // secp256k1, P-384, P-521
                let o: &[u8] = c.rng.pick(&[&[0x06, 0x05, 0x2b, 0x81, 0x04, 0x00, 0x0a][..], &[0x06, 0x05, 0x2b, 0x81, 0x04, 0x00, 0x22], &[0x06, 0x05, 0x2b, 0x81, 0x04, 0x00, 0x23]]);
                let n = *c.rng.pick(&[32, 32, 48]);
                let k = c.rng.bytes(n);
                seq(&[tlv(2, &[1]), tlv(4, &k), tlv(0xa0, o)])
            }
            4 => seq(&[tlv(2, &[*c.rng.pick(&[0, 2, 0xff])]), tlv(4, &s), tlv(0xa0, &PARAMS)]),
            5 => {
                let mut d = seq(&[tlv(2, &[1]), tlv(4, &s), tlv(0xa0, &PARAMS), tlv(0xa1, &tlv(3, &public))]);
                let n = c.rng.below(d.len());
                d.truncate(n);
                d
            }
            6 => {
                let n = c.rng.below(120);
                c.rng.odd_bytes(n)
            }
            7 => {
                label = *c.rng.pick(&["PRIVATE KEY", "CERTIFICATE", "PUBLIC KEY", "RSA PRIVATE KEY", "EC PARAMETERS", "EC PRIVATE KEY "]);
                must_refuse = false;
                seq(&[tlv(2, &[1]), tlv(4, &s), tlv(0xa0, &PARAMS)])
            }
            8 => {
                // the fields the other way round
                seq(&[tlv(4, &s), tlv(2, &[1]), tlv(0xa0, &PARAMS)])
            }
            _ => {
                must_refuse = false;
                let mut d = EcKey::from_secret(s).sec1_der();
                for _ in 0..=c.rng.below(2) {
                    let n = c.rng.below(d.len().min(60));
                    d[n] = if c.rng.bool() { d[n] ^ 1 << c.rng.below(8) } else { c.rng.u8() };
                }
                d
            }
        };
        let f = pem(label, &der, 64, "\n").into_bytes();
        c.evals(1);
        c.distinct(&der);
        let Some(got) = load(c, dir, &f) else { return };
        let got = got.map(|g| (secret_of(&g), g.secret.clone()));
        match got {
            None => c.count("unusable key files refused", 1),
            Some((_, g)) if must_refuse => c.fail("an unusable key is accepted", format!("kind {kind}: {g} from {}", hex(&der))),
            Some((g, _)) if kind == 9 => {
                let w = reference_key(&der);
                c.check(w.is_some() && g == w, "damaged key file gives another key", || format!("{g:x?} instead of {w:x?} from {}", hex(&der)));
                c.count("damaged key files that still hold their key", 1);
            }
            Some((g, _)) => {
                // read all the same: then exactly
                let w = if kind == 7 { Some(s) } else { None };
                if w.is_some() {
                    c.check(g == w, "another key is used", || format!("{g:x?} from {}", hex(&der)));
                }
            }
        }
    }
}

/// Configured from files: exactly this certificate and this key are used
fn used(c: &mut Case, dir: &Scratch, base: &World) {
    let server = c.rng.bool();
    let s = secret(&mut c.rng);
    let key = EcKey::from_secret(s);
    let mut spec = CertSpec::new(if server { "server.test" } else { "client.test" }, "Test CA", NOW - 1000, NOW + 100000, &key.public, &mut c.rng);
    let size = match c.rng.below(6) {
        0 => c.rng.range(1, 300),
        1 => c.rng.range(3000, 9000),
        2 => c.rng.range(15000, 18000),
        3 if server => c.rng.range(30000, 60000),
        _ => 0,
    };
    if size > 0 {
        let b = c.rng.bytes(size);
        spec.extensions = Some(vec![crate::der::ext("1.3.6.1.4.1.99999.1", None, &tlv(4, &b))]);
    }
    let der = if server && c.rng.one_in(4) {
        // signed by something the library has never heard of
        spec.tbs_alg = seq(&[oid("1.2.840.113549.1.1.11"), tlv(5, &[])]);
        spec.outer_alg = spec.tbs_alg.clone();
        let n = 256;
        let sig = c.rng.bytes(n);
        spec.with_sig(&sig)
    } else {
        spec.sign(&base.ca.key)
    };
    let l = layout(&mut c.rng);
    let mut certs = vec![("CERTIFICATE".to_string(), der.clone())];
    if c.rng.one_in(3) {
        certs.push(("CERTIFICATE".into(), base.ca.der.clone()));
    }
    let (kder, form) = key_der(&mut c.rng, &key);
    let one_file = c.rng.one_in(4);
    let (cert_file, key_path);
    if one_file {
        let (at, obj) = (c.rng.below(certs.len() + 1), ("EC PRIVATE KEY".to_string(), kder));
        certs.insert(at, obj);
        cert_file = dir.file(&format!("{}.cert", c.idx), &l.write(&certs, &mut c.rng));
        key_path = cert_file.clone();
    } else {
        cert_file = dir.file(&format!("{}.cert", c.idx), &l.write(&certs, &mut c.rng));
        let l = layout(&mut c.rng);
        let f = key_file(&mut c.rng, &kder, &l);
        key_path = dir.file(&format!("{}.key", c.idx), &f);
    }
    let what = format!("server {server}, key {}, {form}, layout {}, extension of {size} bytes, one file {one_file}", hex(&s), l.key());
    let suite = *c.rng.pick(&SUITES);
    let mut o = Opts::new(suite);
    o.client_auth = !server;
    let r = if server {
        let b = guarded(|| ServerConfigBuilder::new().add_cert_pem(cert_file.clone()).add_privkey_pem(key_path.clone()).build());
        match b {
            Ok(Ok(cfg)) => link_server(c, base, &sim::server(cfg), o),
            Ok(Err(e)) => return c.fail("the configuration is refused", format!("{what}: {e}")),
            Err(e) => return c.fail("the configuration is refused", format!("{what}: {e}")),
        }
    } else {
        let b = guarded(|| ClientConfigBuilder::new().add_client_cert_pem(cert_file.clone()).add_client_key_pem(key_path.clone()).build());
        match b {
            Ok(Ok(cfg)) => link_client(c, base, &Arc::new(cfg), o),
            Ok(Err(e)) => return c.fail("the configuration is refused", format!("{what}: {e}")),
            Err(e) => return c.fail("the configuration is refused", format!("{what}: {e}")),
        }
    };
    let _ = std::fs::remove_file(&cert_file);
    let _ = std::fs::remove_file(&key_path);
    let l = match r {
        Ok(l) => l,
        Err(e) => return c.fail("no handshake with the certificate and key of the files", format!("{what}: {e}")),
    };
    // what went over the wire
    let (ms, _) = messages(&l.sess.transcript);
    let nth = if server { 1 } else { 2 };
    let mut at = 0;
    let (mut nc, mut nv) = (0, 0);
    for (t, m) in ms {
        if t == CERT {
            nc += 1;
            if nc == nth {
                let chain = parse_certificate(&m).map(|x| x.1).unwrap_or_default();
                c.check(chain.first().map(|x| &x.0) == Some(&der), "another certificate is sent", || format!("{what}: {}", hexs(&m)));
                c.count("certificates compared", 1);
            }
        }
        if t == CV {
            nv += 1;
            if nv == nth {
                let th = ossl::digest(l.sess.h, &l.sess.transcript[..at]);
                c.check(key.verify(&cv_digest(server, &th), &m[8..]), "signed with another key", || format!("{what}: {}", hexs(&m)));
                c.count("signatures verified", 1);
            }
        }
        at += m.len();
    }
    c.check(nc >= nth && nv >= nth, "no certificate", || what.clone());
    c.ev(format!("{server} {} {size}", hex(&s)));
    c.sample(if server { "server" } else { "client" }, || what.clone());
}
/// Files a configuration cannot be made of
fn unusable(c: &mut Case, dir: &Scratch, base: &World) {
    let k = EcKey::from_secret(secret(&mut c.rng));
    let junk = c.rng.odd_bytes(200);
    let cert = pem64("CERTIFICATE", &base.server.der);
    let key = pem64("EC PRIVATE KEY", &k.sec1_der());
    let file: Vec<u8> = match c.rng.below(6) {
        0 => vec![],
        1 => junk,
        2 => pem64("CERTIFICATE REQUEST", &base.server.der).into_bytes(),
        3 => cert.as_bytes()[..c.rng.below(cert.len() - 30)].to_vec(),
        4 => key.as_bytes()[..c.rng.below(key.len() - 34)].to_vec(),
        _ => format!("-----BEGIN CERTIFICATE-----\n{}!\n-----END CERTIFICATE-----\n", ossl::base64(&base.server.der)).into_bytes(),
    };
    let p = match c.rng.below(8) {
        0 => dir.path("does not exist"),
        1 => dir.0.clone(),
        _ => dir.file(&format!("{}.x", c.idx), &file),
    };
    for which in 0..4 {
        c.evals(1);
        let ok = match which {
            0 => guarded(|| matches!(ServerConfigBuilder::new().add_cert_pem(p.clone()).add_privkey_pem(base.srv_key.clone()).build(), Ok(_))),
            1 => guarded(|| matches!(base.server_builder().add_privkey_pem(p.clone()).build(), Ok(_))),
            2 => guarded(|| matches!(base.server_builder().add_client_cert_ca(p.clone()).build(), Ok(_))),
            _ => guarded(|| matches!(base.client_builder(true).add_client_cert_pem(p.clone()).build(), Ok(_))),
        };
        c.check(ok != Ok(true), "an unusable file is taken", || format!("file {} as {which}", show(&file)));
        // neither Option nor panic may turn into something else: nothing is read out of it
        let r = guarded(|| Certificate::from_pem(p.clone()).is_some());
        c.check(r != Ok(true), "an unusable file is taken", || format!("file {} as certificate", show(&file)));
    }
    c.distinct(&file);
    c.count("unusable files refused", 1);
    let _ = std::fs::remove_file(dir.path(&format!("{}.x", c.idx)));
}

pub fn run(r: &Rep) {
    let dir = Scratch::new();
    let base = World::new(r.seed);
    // every string of up to two bytes, and three bytes of which one runs through everything
    r.group("every short string", 257, |c| {
        let a = c.idx;
        if a == 256 {
            one_encode(c, &[]);
            for x in 0..=255u8 {
                one_encode(c, &[x]);
            }
            return;
        }
        for x in 0..=255u8 {
            one_encode(c, &[a as u8, x]);
            let o = c.rng.u8();
            one_encode(c, &[o, a as u8, x]);
        }
    });
    // every group of four characters of the characters which matter
    const S: &[&str] = &["A", "Z", "a", "z", "0", "9", "+", "/", "=", "g", "w", "-", "_", " ", "\n", "\0", "\u{7f}", "@", "[", "`", "{", "é"];
    r.group("every group of four", S.len() * S.len(), |c| {
        let (a, b) = (S[c.idx / S.len()], S[c.idx % S.len()]);
        for x in S {
            for y in S {
                judge_text(c, &format!("{a}{b}{x}{y}"));
                if *y == "=" || *x == "=" || c.rng.one_in(8) {
                    judge_text(c, &format!("{a}{b}{x}{y}QUJD"));
                    judge_text(c, &format!("QUJD{a}{b}{x}{y}"));
                }
            }
        }
    });
    r.group("encode", r.n(2000, 40000), encode);
    r.group("texts", r.n(5000, 150000), texts);
    r.group("layouts", r.n(2000, 40000), |c| layouts(c, &dir));
    r.group("damaged", r.n(2000, 40000), |c| damaged(c, &dir));
    r.group("keys", r.n(1200, 20000), |c| keys(c, &dir));
    r.group("unusable keys", r.n(1000, 30000), |c| bad_keys(c, &dir));
    r.group("used", r.n(600, 12000), |c| used(c, &dir, &base));
    r.group("unusable files", r.n(150, 2000), |c| unusable(c, &dir, &base));
    r.require("malformed texts refused", 10000);
    r.require("well-formed texts decoded", 10000);
    r.require("layouts read", 5000);
    r.require("damaged files refused", 2000);
    r.require("keys with leading zero bytes", 300);
    r.require("unusable key files refused", 2000);
    r.require("certificates compared", 200);
    r.require("signatures verified", 200);
    r.require("unusable files refused", 100);
}
