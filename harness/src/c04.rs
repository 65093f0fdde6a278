//! AEAD decryption accepts nothing but what was sealed
use crate::common::{content, SUITES};
use crate::ossl::{self, A};
use crate::rep::{hexs, Case, Rep};
use anothertls::crypto::{Cipher, CipherSuite};
use std::sync::Arc;

pub const RULE: &str = "a case is one sealed message (sealed by OpenSSL) of which every single-bit change of ciphertext, tag, nonce, key and associated data, every truncated or extended component, every moved boundary between components and many random forgeries are given to decrypt; each must return an error, the unchanged one the plaintext, and none may panic; distinct = (suite, lengths, component, kind of change)";

struct Sealed {
    suite: u16,
    a: A,
    key: Vec<u8>,
    iv: Vec<u8>,
    aad: Vec<u8>,
    pt: Vec<u8>,
    ct: Vec<u8>,
    tag: Vec<u8>,
}
fn cipher(suite: u16) -> Arc<dyn Cipher + Send + Sync> {
    CipherSuite::new(suite).unwrap().get_cipher().unwrap()
}
fn sealed(c: &mut Case, i: usize, n: usize, m: usize) -> Sealed {
    let (suite, a) = SUITES[i % 3];
    let key = c.rng.bytes(a.key_len());
    let iv = c.rng.bytes(12);
    let (aad, pt) = (content(c, m), content(c, n));
    let (ct, tag) = ossl::seal(a, &key, &iv, &aad, &pt).unwrap();
    Sealed { suite, a, key, iv, aad, pt, ct, tag: tag.to_vec() }
}
fn refuse(c: &mut Case, s: &Sealed, how: &str, key: &[u8], iv: &[u8], ct: &[u8], aad: &[u8], tag: &[u8]) -> bool {
    if (key, iv, ct, aad, tag) == (&s.key[..], &s.iv[..], &s.ct[..], &s.aad[..], &s.tag[..]) {
        return true;
    }
    let x = cipher(s.suite);
    let d = || format!("{how}: suite {:04x} key {} iv {} aad {} ct {} tag {}", s.suite, hexs(key), hexs(iv), hexs(aad), hexs(ct), hexs(tag));
    let Some(r) = c.eut("decrypt", d, || x.decrypt(key, iv, ct, aad, tag)) else { return false };
    c.evals(1);
    c.count("forgeries refused", r.is_err() as u64);
    c.check(r.is_err(), &format!("forgery accepted: {how}"), d)
}
fn accept(c: &mut Case, s: &Sealed) -> bool {
    let x = cipher(s.suite);
    let d = || format!("suite {:04x}, {} bytes, {} bytes of associated data", s.suite, s.pt.len(), s.aad.len());
    let Some(r) = c.eut("decrypt", d, || x.decrypt(&s.key, &s.iv, &s.ct, &s.aad, &s.tag)) else { return false };
    c.ev(format!("ok {:x} {} {}", s.suite, s.ct.len(), s.aad.len()));
    c.check(r.ok().as_deref() == Some(&s.pt[..]), "genuine message refused", d)
}

fn bits(c: &mut Case, max: usize) {
    let n = c.idx / 3 % (max + 1);
    let m = *c.rng.pick(&[0, 1, 5, 13, 16, 17, 32, 33]);
    let s = sealed(c, c.idx, n, m);
    if !accept(c, &s) {
        return;
    }
    macro_rules! flip {
        ($f:ident, $name:expr) => {
            for i in 0..s.$f.len() * 8 {
                let mut $f = s.$f.clone();
                $f[i / 8] ^= 1 << (i % 8);
                let mut v = [&s.key[..], &s.iv[..], &s.ct[..], &s.aad[..], &s.tag[..]];
                v[["key", "nonce", "ciphertext", "associated data", "tag"].iter().position(|x| *x == $name).unwrap()] = &$f;
                if !refuse(c, &s, concat!("flipped bit of the ", $name), v[0], v[1], v[2], v[3], v[4]) {
                    return;
                }
                c.distinct(format!("{:x} {} {n} {m} {i}", s.suite, $name).as_bytes());
            }
        };
    }
    flip!(tag, "tag");
    flip!(ct, "ciphertext");
    flip!(aad, "associated data");
    flip!(iv, "nonce");
    flip!(key, "key");
    c.sample("flips", || format!("suite {:04x}, ciphertext of {n} bytes, {m} bytes of associated data: every bit of every input", s.suite));
}
/// n bytes cut off or added at either end
fn resize(c: &mut Case, b: &[u8]) -> Vec<u8> {
    let k = c.rng.range(1, 40);
    let mut v = b.to_vec();
    match c.rng.below(6) {
        0 => v.truncate(b.len().saturating_sub(k)),
        1 => {
            v.drain(..k.min(b.len()));
        }
        2 => v.extend(vec![0; k]),
        3 => v.extend(c.rng.bytes(k)),
        4 => {
            v.splice(0..0, vec![0; k]);
        }
        _ => v.clear(),
    }
    v
}
fn sizes(c: &mut Case) {
    let (n, m) = (c.rng.below(100), c.rng.below(50));
    let s = sealed(c, c.idx, n, m);
    if !accept(c, &s) {
        return;
    }
    // every prefix of the tag, longer tags, zero tags of all lengths
    for l in 0..=48 {
        if l != 16 {
            let mut t = s.tag.clone();
            t.resize(l, 0);
            if !refuse(c, &s, "tag of another length", &s.key, &s.iv, &s.ct, &s.aad, &t) {
                return;
            }
            if l > 16 {
                let t = [&s.tag[..], &c.rng.bytes(l - 16)].concat();
                if !refuse(c, &s, "tag with a suffix", &s.key, &s.iv, &s.ct, &s.aad, &t) {
                    return;
                }
            } else if !refuse(c, &s, "end of the tag", &s.key, &s.iv, &s.ct, &s.aad, &s.tag[16 - l..]) {
                return;
            }
        }
        if !refuse(c, &s, "zero tag", &s.key, &s.iv, &s.ct, &s.aad, &vec![0; l]) {
            return;
        }
        c.distinct(format!("tag {:x} {l}", s.suite).as_bytes());
    }
    for k in 0..40 {
        let (mut key, mut iv, mut ct, mut aad, mut tag) = (s.key.clone(), s.iv.clone(), s.ct.clone(), s.aad.clone(), s.tag.clone());
        let how = match k % 8 {
            0 => {
                ct = resize(c, &ct);
                "ciphertext of another length"
            }
            1 => {
                aad = resize(c, &aad);
                "associated data of another length"
            }
            2 => {
                iv = resize(c, &iv);
                "nonce of another length"
            }
            3 => {
                key = resize(c, &key);
                "key of another length"
            }
            4 => {
                // move the boundary between associated data and ciphertext
                let all = [&aad[..], &ct[..]].concat();
                let b = c.rng.below(all.len() + 1);
                aad = all[..b].to_vec();
                ct = all[b..].to_vec();
                "moved boundary between associated data and ciphertext"
            }
            5 => {
                // complete a block with zeros: the MAC input differs in its lengths only
                if c.rng.bool() {
                    ct.resize(ct.len().div_ceil(16) * 16, 0);
                } else {
                    aad.resize(aad.len().div_ceil(16) * 16, 0);
                }
                "zero padding made explicit"
            }
            6 => {
                tag = if c.rng.one_in(4) { c.rng.bytes(16) } else { crate::mutate::corrupt(&mut c.rng, &tag).1 };
                "another tag"
            }
            _ => {
                // two changes at once
                if !ct.is_empty() {
                    let i = c.rng.below(ct.len());
                    ct[i] ^= 0x80;
                }
                let i = c.rng.below(16);
                tag[i] ^= 0x80;
                "two changes"
            }
        };
        c.distinct(format!("{how} {:x} {} {}", s.suite, ct.len(), aad.len()).as_bytes());
        if !refuse(c, &s, how, &key, &iv, &ct, &aad, &tag) {
            return;
        }
    }
}
/// What was sealed under other circumstances
fn other(c: &mut Case) {
    let n = c.rng.below(60);
    let s = sealed(c, c.idx, n, 5);
    if !accept(c, &s) {
        return;
    }
    let mk = |key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]| ossl::seal(s.a, key, iv, aad, pt).unwrap();
    let (k2, iv2) = (c.rng.bytes(s.key.len()), c.rng.bytes(12));
    for (how, (ct, tag)) in [
        ("sealed under another key", mk(&k2, &s.iv, &s.aad, &s.pt)),
        ("sealed under another nonce", mk(&s.key, &iv2, &s.aad, &s.pt)),
        ("sealed with other associated data", mk(&s.key, &s.iv, b"", &s.pt)),
    ] {
        if !s.aad.is_empty() && !refuse(c, &s, how, &s.key, &s.iv, &ct, &s.aad, &tag) {
            return;
        }
        // tag of one message, ciphertext of the other
        if !refuse(c, &s, "tag of another message", &s.key, &s.iv, &s.ct, &s.aad, &tag) {
            return;
        }
        c.distinct(format!("{how} {:x} {n}", s.suite).as_bytes());
    }
    // a message of another suite with a key of the same length
    if s.key.len() == 32 {
        let b = if s.a == A::ChaPoly { A::Aes256Gcm } else { A::ChaPoly };
        let (ct, tag) = ossl::seal(b, &s.key, &s.iv, &s.aad, &s.pt).unwrap();
        refuse(c, &s, "sealed with another cipher", &s.key, &s.iv, &ct, &s.aad, &tag);
    }
    // nothing at all
    refuse(c, &s, "empty inputs", &[], &[], &[], &[], &[]);
    refuse(c, &s, "empty message", &s.key, &s.iv, &[], &[], &[]);
    for _ in 0..30 {
        let (kl, il, cl, al, tl) = (c.rng.below(40), c.rng.below(20), c.rng.below(70), c.rng.below(40), c.rng.below(20));
        let (k, i, x, a, t) = (c.rng.bytes(kl), c.rng.bytes(il), c.rng.bytes(cl), c.rng.bytes(al), c.rng.bytes(tl));
        if !refuse(c, &s, "random lengths and bytes", &k, &i, &x, &a, &t) {
            return;
        }
    }
}

pub fn run(r: &Rep) {
    r.group("every bit", r.n(3 * 81, 3 * 301), |c| bits(c, if c.thorough() { 300 } else { 80 }));
    r.group("lengths", r.n(2000, 100000), sizes);
    r.group("other circumstances", r.n(2000, 100000), other);
    r.require("forgeries refused", 100_000);
}
