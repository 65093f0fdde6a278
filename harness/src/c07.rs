//! ECDSA P-256
use crate::common::{big, bytes32};
use crate::der;
use crate::eut::*;
use crate::ossl::{self, EcKey, P256_N};
use crate::rep::{hex, hexs, Case, Rep};
use crate::rng::Rng;
use crate::sim::{Res, Status};
use crate::tls::*;
use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, Point, PrivateKey, PublicKey, Signature};
use ibig::{IBig, UBig};
use std::collections::HashMap;
use std::sync::Mutex;

pub const RULE: &str = "a case is one signature made by the code under test (judged by OpenSSL, raw and DER, and compared with all other signatures of the run for a repeated secret) or one (public key, digest, r, s) or (public key, digest, DER bytes) whose acceptance is compared with OpenSSL's; keys, digests and signatures are random, extreme, mutated, or computed to reach special points (equal summands, opposite summands, x coordinate at least the order, one of the factors zero); distinct = (kind, verdict, value class)";

fn n() -> IBig {
    big(&P256_N)
}
fn modn(x: &IBig) -> IBig {
    let r = x % n();
    if r < IBig::from(0) {
        r + n()
    } else {
        r
    }
}
fn inv(x: &IBig) -> IBig {
    // x^(n-2)
    let e = n() - IBig::from(2);
    let (mut r, mut b, e) = (IBig::from(1), modn(x), UBig::try_from(e).unwrap());
    for i in 0..e.bit_len() {
        if e.bit(i) {
            r = r * &b % n();
        }
        b = &b * &b % n();
    }
    r
}
fn point(public: &[u8]) -> Point {
    Point::new(big(&public[1..33]), big(&public[33..65]))
}
fn digest(r: &mut Rng) -> [u8; 32] {
    match r.below(8) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => P256_N,
        3 => {
            let mut d: [u8; 32] = r.arr();
            let k = r.range(1, 31);
            d[..k].fill(0);
            d
        }
        4 => {
            let mut d = P256_N;
            d[31] = d[31].wrapping_add(r.u8());
            d
        }
        _ => r.arr(),
    }
}
fn key(r: &mut Rng) -> EcKey {
    match r.below(6) {
        0 => {
            let mut s = [0; 32];
            s[31] = r.range(1, 20) as u8;
            EcKey::from_secret(s)
        }
        1 => {
            let mut s = P256_N;
            s[31] -= r.range(1, 20) as u8;
            EcKey::from_secret(s)
        }
        2 => {
            let mut s: [u8; 32] = r.arr();
            let k = r.range(1, 30);
            s[..k].fill(0);
            s[31] |= 1;
            EcKey::from_secret(s)
        }
        _ => EcKey::random(r),
    }
}

struct Seen {
    r: Mutex<HashMap<Vec<u8>, String>>,
}

fn strict_der(sig: &[u8], r: &[u8; 32], s: &[u8; 32]) -> bool {
    sig == der::sig_der(r, s)
}
fn sign(c: &mut Case, seen: &Seen) {
    let k = key(&mut c.rng);
    let d = digest(&mut c.rng);
    let what = || format!("key {} digest {}", hex(&k.secret), hex(&d));
    let res = c.eut("sign", what, || {
        let key = PrivateKey::new(Curve::secp256r1(), big(&k.secret));
        let mut e = Ecdsa::urandom();
        let mut v = vec![];
        for _ in 0..2 {
            let s = e.sign(&key, &d)?;
            let ok = Ecdsa::verify(key.get_public_key(), &s, &d);
            v.push((s.r.clone(), s.s.clone(), s.to_der(), ok));
        }
        let p = key.get_public_key();
        Ok::<_, String>((v, p.point.x, p.point.y))
    });
    let Some(res) = res else { return };
    let (v, x, y) = match res {
        Ok(v) => v,
        Err(e) => {
            c.fail("sign fails", format!("{}: {e}", what()));
            return;
        }
    };
    c.check(Point::new(x, y) == point(&k.public), "public key differs", what);
    for (r, s, der, ok) in v {
        let (Some(rb), Some(sb)) = (bytes32(&r), bytes32(&s)) else {
            c.fail("signature out of range", format!("{} r {r} s {s}", what()));
            return;
        };
        let w = || format!("{} r {} s {} DER {}", what(), hex(&rb), hex(&sb), hex(&der));
        c.check(ossl::ecdsa_verify_raw(&k.public, &d, &rb, &sb), "signature is invalid", w);
        c.check(ossl::ecdsa_verify_der(&k.public, &d, &der), "DER signature is invalid", w);
        c.check(strict_der(&der, &rb, &sb), "signature is not in strict DER", w);
        c.check(ok, "own signature refused", w);
        let Some(p) = c.eut("from_der", w, || Signature::from_der(&der).map(|(s, n)| (s.r, s.s, n)).ok()) else { return };
        c.check(p == Some((r.clone(), s.clone(), der.len())), "own DER signature refused", w);
        if let Some(o) = seen.r.lock().unwrap().insert(rb.to_vec(), what()) {
            c.fail("secret of a signature reused", format!("{}; {o}", what()));
        }
        c.count("signatures made", 1);
        c.ev(format!("sign {} {} {}", der.len(), rb[0] == 0, sb[0] == 0));
    }
}
/// The DER encoder and decoder for every r and s in range
fn der_codec(c: &mut Case) {
    for _ in 0..20 {
        let gen = |r: &mut Rng| -> [u8; 32] {
            let mut x: [u8; 32] = match r.below(4) {
                0 => r.arr(),
                1 => {
                    let mut x: [u8; 32] = r.arr();
                    let k = r.range(1, 31);
                    x[..k].fill(0);
                    if r.bool() {
                        x[k] |= 0x80
                    } else {
                        x[k] &= 0x7f
                    }
                    x
                }
                2 => {
                    let mut x = [0; 32];
                    x[r.below(32)] = *r.pick(&[1, 0x7f, 0x80, 0xff]);
                    x
                }
                _ => {
                    let mut x = P256_N;
                    x[31] -= r.range(1, 9) as u8;
                    x
                }
            };
            if x == [0; 32] {
                x[31] = 1;
            }
            x
        };
        let (r, s) = (gen(&mut c.rng), gen(&mut c.rng));
        let want = der::sig_der(&r, &s);
        let what = || format!("r {} s {}", hex(&r), hex(&s));
        let Some(e) = c.eut("to_der", what, || Signature::new(big(&s), big(&r)).to_der()) else { return };
        c.check(e == want, "DER encoding differs", || format!("{}: {}", what(), hex(&e)));
        let mut buf = want.clone();
        let k = if c.rng.bool() { 0 } else { c.rng.below(20) };
        buf.extend(c.rng.bytes(k));
        let Some(d) = c.eut("from_der", what, || Signature::from_der(&buf).map(|(x, n)| (x.r, x.s, n)).ok()) else { return };
        c.check(d == Some((big(&r), big(&s), want.len())), "DER decoding differs", || format!("{}: {d:?}", what()));
        c.ev(format!("der {} {}", want.len(), want[3]));
    }
}
/// A signature with chosen nonce k: (r, s), s may be anything if `z` and key are chosen to match
fn sign_k(k: &IBig, d: &IBig, z: &IBig) -> Option<(IBig, IBig)> {
    let p = ossl::p256_mul_g(&bytes32(k)?)?;
    let r = modn(&big(&p[1..33]));
    let s = modn(&(inv(k) * (z + &r * d)));
    Some((r, s))
}
fn raw(c: &mut Case) {
    let k = key(&mut c.rng);
    let mut public = k.public.clone();
    let mut d = digest(&mut c.rng);
    let dv = big(&k.secret);
    let kn = modn(&big(&c.rng.arr::<32>()));
    let kn = if c.rng.one_in(4) { IBig::from(c.rng.range(1, 20)) } else { kn };
    let (r, s) = match sign_k(&kn, &dv, &big(&d)) {
        Some(x) => x,
        None => return,
    };
    let (mut r, mut s) = (r, s);
    let one = IBig::from(1);
    let kind = c.rng.below(22);
    let name = match kind {
        0..=2 => "valid",
        3 => {
            s = n() - s;
            "negated s (also valid)"
        }
        4 => {
            r = IBig::from(0);
            "r = 0"
        }
        5 => {
            s = IBig::from(0);
            "s = 0"
        }
        6 => {
            r = &r + n();
            "r + n"
        }
        7 => {
            s = &s + n();
            "s + n"
        }
        8 => {
            r = n();
            "r = n"
        }
        9 => {
            s = n();
            "s = n"
        }
        10 => {
            r = -&r;
            "negative r"
        }
        11 => {
            s = -&s;
            "negative s"
        }
        12 => {
            r = &r + &one;
            "r + 1"
        }
        13 => {
            s = s ^ (IBig::from(1) << c.rng.below(256));
            "bit of s"
        }
        14 => {
            d[c.rng.below(32)] ^= 1 << c.rng.below(8);
            "bit of the digest"
        }
        15 => {
            public = EcKey::random(&mut c.rng).public.clone();
            "other key"
        }
        16 => {
            std::mem::swap(&mut r, &mut s);
            "r and s swapped"
        }
        17 => {
            // both summands are equal: z = r d
            let z = modn(&(&r * &dv));
            d = bytes32(&z).unwrap();
            s = modn(&(inv(&kn) * (&z + &r * &dv)));
            "equal summands"
        }
        18 => {
            // the sum is the point at infinity
            let z = modn(&-(&r * &dv));
            d = bytes32(&z).unwrap();
            "opposite summands"
        }
        19 => {
            // key for which the digest is zero and the first summand vanishes
            d = [0; 32];
            s = modn(&(inv(&kn) * (&r * &dv)));
            "zero digest"
        }
        20 => {
            // public key not on the curve
            let i = c.rng.range(1, 64);
            public[i] ^= 1 << c.rng.below(8);
            "key off the curve"
        }
        _ => {
            // digest congruent to another: z and z + n verify alike
            let z = big(&d);
            if let Some(x) = bytes32(&(&z + n())) {
                d = x;
            } else if z >= n() {
                d = bytes32(&(z - n())).unwrap();
            }
            "congruent digest"
        }
    };
    judge(c, name, &public, &d, &r, &s);
}
/// The two summands of a verification lie on the same line through zero, Q's = m G's: their sum
/// and everything that a wrong addition might take for it, as r
fn meeting(c: &mut Case) {
    let special = |c: &mut Case| -> IBig {
        match c.rng.below(5) {
            0 => IBig::from(c.rng.range(1, 20)),
            1 => n() - IBig::from(c.rng.range(1, 20)),
            2 => IBig::from(1) << c.rng.below(255),
            _ => modn(&big(&c.rng.arr::<32>())),
        }
    };
    let (u1, u2) = (special(c), special(c));
    let m = *c.rng.pick(&[-1i64, -1, -1, 1, 1, -2, 2, -3]);
    let j = *c.rng.pick(&[1i64, 2, 3, 4, -1 - m, 1 + m, m, 1 - m, 2 * m, 2 + m]);
    let j = if j == 0 { 2 } else { j };
    let x = modn(&(&u1 * IBig::from(j)));
    let Some(p) = bytes32(&x).and_then(|x| ossl::p256_mul_g(&x)) else { return };
    let r = modn(&big(&p[1..33]));
    let s = modn(&(&r * inv(&u2)));
    let z = modn(&(&u1 * &s));
    let d = modn(&(IBig::from(m) * &u1 * inv(&u2)));
    let (Some(zb), Some(q)) = (bytes32(&z), bytes32(&d).and_then(|d| ossl::p256_mul_g(&d))) else { return };
    judge(c, &format!("summands P and {m} P, r of {j} P"), &q, &zb, &r, &s);
    c.count("summands on a line", 1);
}
/// Independent verdict. Values outside 0..2^256 are never valid.
fn judge(c: &mut Case, name: &str, public: &[u8], d: &[u8; 32], r: &IBig, s: &IBig) {
    let want = match (bytes32(r), bytes32(s)) {
        (Some(r), Some(s)) => ossl::ecdsa_verify_raw(public, d, &r, &s),
        _ => false,
    };
    let what = || format!("{name}: public {} digest {} r {r} s {s}", hex(public), hex(d));
    let got = c.eut("verify", what, || {
        let k = PublicKey::new(point(public), Curve::secp256r1());
        Ecdsa::verify(k, &Signature::new(s.clone(), r.clone()), d)
    });
    let Some(got) = got else { return };
    c.ev(format!("raw {name} {want} {}", d[0]));
    c.count(if want { "valid signatures judged" } else { "invalid signatures judged" }, 1);
    c.check(got == want, if want { "valid signature refused" } else { "invalid signature accepted" }, what);
    c.sample(name, || format!("{want}: {}", what()));
}
/// Points outside of the field and the encodings of nothing
fn keys(c: &mut Case) {
    let p = big(&[
        0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
    ]);
    let k = EcKey::random(&mut c.rng);
    let d: [u8; 32] = c.rng.arr();
    let (r, s) = sign_k(&modn(&big(&c.rng.arr::<32>())), &big(&k.secret), &big(&d)).unwrap();
    let q = point(&k.public);
    let (bad, kind) = match c.rng.below(7) {
        0 => (Point::new(IBig::from(0), IBig::from(0)), "zero"),
        1 => (Point::new(&q.x + &p, q.y.clone()), "x + p"),
        2 => (Point::new(q.x.clone(), &q.y + &p), "y + p"),
        3 => (Point::new(q.y.clone(), q.x.clone()), "coordinates swapped"),
        4 => (Point::new(q.x.clone(), &p - &q.y), "negated"),
        5 => (Point::new(n(), n()), "n, n"),
        _ => (Point::new(big(&c.rng.arr::<32>()), big(&c.rng.arr::<32>())), "random"),
    };
    let what = || format!("public key {kind} {bad:?}");
    let Some(got) = c.eut("verify", what, || Ecdsa::verify(PublicKey::new(bad.clone(), Curve::secp256r1()), &Signature::new(s.clone(), r.clone()), &d)) else {
        return;
    };
    c.ev(format!("key {kind}"));
    c.check(!got, "signature under a wrong public key accepted", what);
}
/// A valid signature for a point whose logarithm nobody knows
fn fitting(c: &mut Case, q: &[u8]) -> ([u8; 32], IBig, IBig) {
    loop {
        let (u1, u2) = (modn(&big(&c.rng.arr::<32>())), modn(&big(&c.rng.arr::<32>())));
        let Some(p) = ossl::p256_lin(&bytes32(&u2).unwrap(), q, &bytes32(&u1).unwrap()) else { continue };
        let r = modn(&big(&p[1..33]));
        if r == IBig::from(0) {
            continue;
        }
        let s = modn(&(&r * inv(&u2)));
        let z = bytes32(&modn(&(&u1 * &s))).unwrap();
        return (z, r, s);
    }
}
/// Points with a small coordinate have a second encoding in 32 bytes (coordinate + p), which names no point
fn small_coordinates() -> Vec<[u8; 65]> {
    let mut v = vec![];
    for x in (0u8..40).chain([255]) {
        let mut b = [0; 32];
        b[31] = x;
        if let Some(p) = ossl::p256_from_x(&b) {
            v.push(p.try_into().unwrap());
        }
    }
    for (x, y) in [
        ("d7325d7646cd60d80a92738ceb345f844cffaf35841022cab176f692de8de1d7", 5u8),
        ("9b21c2de1da31d68731dbdaf97d7ab3f979131e28e3dc5b2077d5a7187914a78", 6u8),
        ("b2ed6eacbc9f7da8564d94b7e4df51fccffa296dc6693e4fd7acceaed56ac453", 7u8),
        ("52f4a176521ea9d79d3525b49b521d3296ebec6417f010f8af7905d169801454", 12u8),
        ("541d882cf07048ac60ac65ca77da76ac705747f85bffd3ebcc2ee7dd5f1dae78", 14u8),
        ("02793cf9c0a6611b8f16fa4beabf35b85335f77e545102f8a688b3ee82a0e1cb", 38u8),
        ("806c13dec210a009f5e2d20f9ef33d159551d69f66b742b014a34f3690ac525a", 39u8),
    ] {
        let x = bytes32(&IBig::from_str_radix(x, 16).unwrap()).unwrap();
        let mut p = [0; 65];
        p[0] = 4;
        p[1..33].copy_from_slice(&x);
        p[64] = y;
        v.push(p);
    }
    v
}
fn field() -> IBig {
    big(&[
        0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
    ])
}
fn noncanonical(c: &mut Case, pts: &[[u8; 65]]) {
    let mut q = pts[c.idx % pts.len()];
    if c.rng.bool() {
        // the opposite point
        let y = field() - big(&q[33..]);
        q[33..].copy_from_slice(&bytes32(&y).unwrap());
    }
    let (z, r, s) = fitting(c, &q);
    judge(c, "public key with a small coordinate", &q, &z, &r, &s);
    for at in [1, 33] {
        if let Some(b) = bytes32(&(big(&q[at..at + 32]) + field())) {
            let mut e = q;
            e[at..at + 32].copy_from_slice(&b);
            judge(c, "coordinate + p", &e, &z, &r, &s);
            c.count("keys with coordinates outside of the field", 1);
        }
    }
    // Values which do not fit into 32 bytes
    let p = field();
    let t = point(&q);
    for (dx, dy) in [(1, 0), (0, 1), (1, 1), (2, 0)] {
        let bad = Point::new(&t.x + &p * IBig::from(dx), &t.y + &p * IBig::from(dy));
        let what = || format!("public key {bad:?}");
        let Some(got) = c.eut("verify", what, || Ecdsa::verify(PublicKey::new(bad.clone(), Curve::secp256r1()), &Signature::new(s.clone(), r.clone()), &z)) else {
            return;
        };
        c.check(!got, "signature under a public key outside of the field accepted", what);
    }
}
/// x coordinate of R between n and p: r is x - n
fn large_x(c: &mut Case, pts: &[(Vec<u8>, IBig)]) {
    // R given, no logarithm known: Q = (s R - z G)/r, with OpenSSL computing points
    let (rp, r) = &pts[c.idx % pts.len()];
    let z: [u8; 32] = c.rng.arr();
    let s = modn(&big(&c.rng.arr::<32>()));
    let ri = inv(r);
    let a = bytes32(&modn(&(&s * &ri))).unwrap();
    let b = bytes32(&modn(&-(big(&z) * &ri))).unwrap();
    let Some(q) = ossl::p256_lin(&a, rp, &b) else { return };
    judge(c, "x coordinate above the order", &q, &z, r, &s);
    judge(c, "x coordinate above the order, r = x", &q, &z, &(r + n()), &s);
}
/// Mutated DER encodings
fn der_sig(c: &mut Case) {
    let k = EcKey::random(&mut c.rng);
    let d: [u8; 32] = c.rng.arr();
    let good = k.sign(&d);
    let (rr, ss) = split(&good);
    let strip = |x: &[u8]| x.iter().position(|b| *b != 0).map(|i| x[i..].to_vec()).unwrap_or_default();
    let pos = |x: &[u8]| if x[0] & 0x80 != 0 { [&[0][..], x].concat() } else { x.to_vec() };
    let int = |x: &[u8]| der::tlv(2, x);
    let (mut r, mut s) = (pos(&strip(&rr)), pos(&strip(&ss)));
    let name;
    let sig = match c.rng.below(20) {
        0 | 1 => {
            name = "valid";
            good.clone()
        }
        2 => {
            name = "padded r";
            r.insert(0, 0);
            der::tlv(0x30, &[int(&r), int(&s)].concat())
        }
        3 => {
            name = "padded s";
            s.splice(0..0, vec![0; c.rng.range(1, 40)]);
            der::tlv(0x30, &[int(&r), int(&s)].concat())
        }
        4 => {
            name = "r without sign byte";
            let r = strip(&rr);
            der::tlv(0x30, &[int(&r), int(&s)].concat())
        }
        5 => {
            name = "s without sign byte";
            let s = strip(&ss);
            der::tlv(0x30, &[int(&r), int(&s)].concat())
        }
        6 => {
            name = "long length form";
            let b = [int(&r), int(&s)].concat();
            [&[0x30, 0x81, b.len() as u8][..], &b].concat()
        }
        7 => {
            name = "long length form of r";
            let i = [&[2, 0x81, r.len() as u8][..], &r].concat();
            der::tlv(0x30, &[i, int(&s)].concat())
        }
        8 => {
            name = "trailing bytes";
            let k = c.rng.range(1, 5);
            [&good[..], &c.rng.bytes(k)].concat()
        }
        9 => {
            name = "trailing bytes inside";
            der::tlv(0x30, &[int(&r), int(&s), vec![5, 0]].concat())
        }
        10 => {
            name = "truncated";
            good[..c.rng.below(good.len())].to_vec()
        }
        11 => {
            name = "other tag";
            let mut g = good.clone();
            g[0] = *c.rng.pick(&[0x31, 0x10, 0x24, 0x70]);
            g
        }
        12 => {
            name = "other integer tag";
            let mut g = good.clone();
            let p = if c.rng.bool() { 2 } else { 4 + r.len() };
            g[p] = *c.rng.pick(&[3, 4, 0x22, 0x42, 0x0a]);
            g
        }
        13 => {
            name = "empty integer";
            der::tlv(0x30, &[int(&[]), int(&s)].concat())
        }
        14 => {
            name = "one integer";
            der::tlv(0x30, &int(&r))
        }
        15 => {
            name = "length";
            let mut g = good.clone();
            let p = *c.rng.pick(&[1, 3, 5 + r.len()]);
            g[p] = g[p].wrapping_add(*c.rng.pick(&[1, 0xff, 2, 0x80]));
            g
        }
        16 => {
            name = "indefinite length";
            [&[0x30, 0x80][..], &int(&r), &int(&s), &[0, 0]].concat()
        }
        17 => {
            name = "huge length";
            let l = *c.rng.pick(&[4u8, 8, 9, 126]);
            [&[0x30, 0x80 | l][..], &vec![0xff; l as usize], &int(&r), &int(&s)].concat()
        }
        18 => {
            name = "random bytes";
            let k = c.rng.below(80);
            let mut b = c.rng.bytes(k);
            if k > 0 && c.rng.bool() {
                b[0] = 0x30;
            }
            b
        }
        _ => {
            name = "bit";
            let mut g = good.clone();
            let p = c.rng.below(g.len() * 8);
            g[p / 8] ^= 1 << (p % 8);
            g
        }
    };
    let want = ossl::ecdsa_verify_der(&k.public, &d, &sig);
    let what = || format!("{name}: public {} digest {} signature {}", hex(&k.public), hex(&d), hex(&sig));
    // a whole signature: everything has to be consumed
    let got = c.eut("DER signature", what, || match Signature::from_der(&sig) {
        Ok((x, used)) => used == sig.len() && Ecdsa::verify(PublicKey::new(point(&k.public), Curve::secp256r1()), &x, &d),
        Err(_) => false,
    });
    let Some(got) = got else { return };
    c.ev(format!("sig {name} {want} {}", sig.len()));
    c.count("DER signatures judged", 1);
    c.check(got == want, if want { "valid DER signature refused" } else { "invalid DER signature accepted" }, what);
}
fn split(sig: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let l = sig[3] as usize;
    (sig[4..4 + l].to_vec(), sig[6 + l..].to_vec())
}
/// CertificateVerify on the wire, checked by the reference with OpenSSL
fn wire(c: &mut Case, w: &World, seen: &Seen) {
    let server = c.rng.bool();
    let mut o = Opts::new(*c.rng.pick(&SUITES));
    o.client_auth = !server;
    let mut cap = vec![];
    let r = if server {
        let srv = w.server(false);
        let mut e = crate::sim::Eut::new(Some(NOW));
        e.accept(&srv);
        let h = Hello::new(&mut c.rng);
        let m = h.msg();
        e.conn.feed(&record(HS, &m));
        let _ = e.wait(c);
        let out = e.conn.take();
        match client_process(&out, &h, &m) {
            Ok(s) => {
                cap = s.transcript.clone();
                Ok(())
            }
            Err(e) => Err(e),
        }
    } else {
        let cfg = w.client_cfg(true);
        match link_client(c, w, &cfg, o) {
            Ok(l) => {
                cap = l.sess.transcript.clone();
                Ok(())
            }
            Err(e) => Err(e),
        }
    };
    match r {
        Ok(()) => {
            // the last CertificateVerify of the transcript
            let (ms, _) = messages(&cap);
            if let Some((_, m)) = ms.iter().rev().find(|m| m.0 == CV) {
                let sig = m[8..].to_vec();
                let (r, _) = split(&sig);
                let strict = {
                    let (a, b) = split(&sig);
                    der::tlv(0x30, &[der::tlv(2, &a), der::tlv(2, &b)].concat()) == sig
                };
                c.check(strict, "CertificateVerify is not in strict DER", || hexs(&sig));
                let r: Vec<u8> = r.iter().skip_while(|b| **b == 0).copied().collect();
                if seen.r.lock().unwrap().insert(r, "CertificateVerify".into()).is_some() {
                    c.fail("secret of a signature reused", hexs(&sig));
                }
                c.ev(format!("wire {server} {}", sig.len()));
                c.count("CertificateVerify messages checked", 1);
            }
        }
        Err(e) => c.fail("handshake fails", e),
    }
    let _ = (Status::Blocked, Res::Ok(vec![]));
}

/// Digests of other lengths than 32 bytes: the leftmost 256 bits count
fn lengths(c: &mut Case) {
    let k = key(&mut c.rng);
    let n = *c.rng.pick(&[1usize, 8, 20, 28, 31, 33, 40, 48, 48, 48, 63, 64, 64, 100]);
    let mut d = c.rng.bytes(n);
    if c.rng.one_in(6) {
        let v = *c.rng.pick(&[0u8, 0xff]);
        let m = c.rng.range(1, n);
        d[..m].fill(v);
    }
    let what = || format!("key {} digest of {n} bytes {}", hex(&k.secret), hex(&d));
    let theirs = k.sign(&d);
    let mut x = d.clone();
    let i = c.rng.below(n);
    x[i] ^= 1 << c.rng.below(8);
    let want = ossl::ecdsa_verify_der(&k.public, &x, &theirs);
    let same = ossl::ecdsa_verify_der(&k.public, &d, &theirs);
    let res = c.eut("digest of another length", what, || {
        let key = PrivateKey::new(Curve::secp256r1(), big(&k.secret));
        let public = || PublicKey::new(point(&k.public), Curve::secp256r1());
        let s = Ecdsa::urandom().sign(&key, &d)?;
        let t = Signature::from_der(&theirs).map_err(|e| format!("{e:?}"))?.0;
        Ok::<_, String>((s.to_der(), Ecdsa::verify(public(), &t, &d), Ecdsa::verify(public(), &t, &x)))
    });
    let Some(res) = res else { return };
    let (mine, ok, other) = match res {
        Ok(v) => v,
        Err(e) => {
            c.fail("sign fails", format!("{}: {e}", what()));
            return;
        }
    };
    c.check(ossl::ecdsa_verify_der(&k.public, &d, &mine), "signature over a digest of another length is invalid", what);
    c.check(ok == same, "verdict on a digest of another length", || format!("{}: signature {} valid {same}, verified {ok}", what(), hex(&theirs)));
    c.check(other == want, "verdict on a changed digest of another length", || format!("{}: byte {i} changed, signature {} valid {want}, verified {other}", what(), hex(&theirs)));
    c.count("digests of other lengths", 1);
    c.ev(format!("length {n} {want}"));
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    let seen = Seen { r: Mutex::new(HashMap::new()) };
    r.group("sign", r.n(250, 12000), |c| sign(c, &seen));
    r.group("lengths", r.n(200, 8000), lengths);
    r.require("digests of other lengths", 100);
    r.group("DER codec", r.n(1500, 60000), der_codec);
    r.group("verify", r.n(2200, 80000), raw);
    r.group("meeting", r.n(600, 20_000), meeting);
    r.require("summands on a line", 500);
    r.group("public keys", r.n(400, 12000), keys);
    let small = small_coordinates();
    r.group("keys outside of the field", r.n(150, 6000), |c| noncanonical(c, &small));
    r.require("keys with coordinates outside of the field", 100);
    // points with n <= x < p: about one in 2^128 by chance, but x can be chosen
    let mut pts = vec![];
    let mut i = 0u32;
    while pts.len() < 8 {
        let x = n() + IBig::from(i);
        if let Some(p) = ossl::p256_from_x(&bytes32(&x).unwrap()) {
            if i > 0 {
                pts.push((p, IBig::from(i)));
            }
        }
        i += 1;
    }
    r.group("x above the order", r.n(60, 2000), |c| large_x(c, &pts));
    r.group("DER signatures", r.n(3000, 100000), der_sig);
    r.group("on the wire", r.n(120, 4000), |c| wire(c, &w, &seen));
    r.require("valid signatures judged", 200);
    r.require("invalid signatures judged", 500);
    r.require("signatures made", 200);
    r.require("CertificateVerify messages checked", 50);
}
