//! AEADs and their building blocks compute the standard functions
use crate::common::{content, SUITES};
use crate::ossl::{self, A};
use crate::rep::{hexs, Case, Rep};
use anothertls::crypto::aes::gcm::Gcm;
use anothertls::crypto::aes::{Blocksize, AES};
use anothertls::crypto::chacha20::cipher::ChaCha20Block;
use anothertls::crypto::chacha20::{ChaCha20, Poly1305};
use anothertls::crypto::{Cipher, CipherSuite};
use ibig::UBig;

pub const RULE: &str = "every output of the code under test is compared with OpenSSL: a case is one (suite, key, nonce, plaintext, associated data) with lengths swept through all values 0..=600 and up to 20000, boundary-biased contents (all-zero, all-one, carries), nonces of every accepted length including those computed so that the GCM counter wraps, and the primitives AES, ChaCha20 and Poly1305 on their own; distinct = (function, lengths, content class)";

const AADS: &[usize] = &[0, 1, 5, 12, 13, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 128, 255, 256, 257];

fn one(c: &mut Case, suite: u16, a: A, key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> bool {
    let what = || format!("suite {suite:04x} key {} iv {} aad {} ({}) pt {} ({})", hexs(key), hexs(iv), hexs(aad), aad.len(), hexs(pt), pt.len());
    let cipher = CipherSuite::new(suite).unwrap().get_cipher().unwrap();
    let Some((ct, tag)) = ossl::seal(a, key, iv, aad, pt) else { panic!("OpenSSL refuses {}", what()) };
    c.ev(format!("{suite:x} {} {} {} {}", iv.len(), aad.len(), pt.len(), pt.first() == pt.last()));
    let Some(r) = c.eut("encrypt", what, || cipher.encrypt(key, iv, pt, aad)) else { return false };
    match r {
        Ok((c2, t2)) => {
            if c2 != ct || t2 != tag {
                let i = c2.iter().zip(&ct).position(|(x, y)| x != y);
                c.fail("encrypt differs", format!("{}: ciphertext equal: {} (first difference {i:?}), tag equal: {}", what(), c2 == ct, t2 == tag));
                return false;
            }
        }
        Err(e) => {
            c.fail("encrypt fails", format!("{}: {e:?}", what()));
            return false;
        }
    }
    let Some(r) = c.eut("decrypt", what, || cipher.decrypt(key, iv, &ct, aad, &tag)) else { return false };
    match r {
        Ok(p) if p == pt => {}
        Ok(p) => {
            c.fail("decrypt differs", format!("{}: {}", what(), hexs(&p)));
            return false;
        }
        Err(e) => {
            c.fail("decrypt refuses", format!("{}: {e:?}", what()));
            return false;
        }
    }
    true
}

// GF(2^128) as in GCM, to find nonces with a given counter block
fn gmul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in 0..128 {
        if x >> (127 - i) & 1 == 1 {
            z ^= v;
        }
        v = if v & 1 == 1 { (v >> 1) ^ (0xe1u128 << 120) } else { v >> 1 };
    }
    z
}
fn ginv(x: u128) -> u128 {
    // x^(2^128 - 2); 1 is the top bit
    let (mut r, mut b) = (1u128 << 127, x);
    for i in 0..128 {
        if i > 0 {
            r = gmul(r, b);
        }
        b = gmul(b, b);
    }
    r
}
/// 16-byte nonce for which GCM starts at counter block j0
fn nonce_for(key: &[u8], j0: u128) -> Vec<u8> {
    let h = u128::from_be_bytes(ossl::aes_block(key, &[0; 16], true));
    let i = ginv(h);
    let n = gmul(gmul(j0, i) ^ 128, i);
    n.to_be_bytes().to_vec()
}
/// The first counter block of a nonce that is not 96 bits long
fn j0(key: &[u8], iv: &[u8]) -> u128 {
    let h = u128::from_be_bytes(ossl::aes_block(key, &[0; 16], true));
    let mut x = 0;
    for b in iv.chunks(16) {
        let mut v = [0; 16];
        v[..b.len()].copy_from_slice(b);
        x = gmul(x ^ u128::from_be_bytes(v), h);
    }
    gmul(x ^ (iv.len() as u128 * 8), h)
}

fn wrap(c: &mut Case) {
    let (suite, a) = SUITES[c.rng.below(2)];
    let key = c.rng.bytes(a.key_len());
    let back = c.rng.below(8) as u128;
    let j0 = (u128::from_be_bytes(c.rng.arr()) >> 32 << 32) | (0xffff_ffff - back);
    let j0 = if c.rng.one_in(3) { j0 | !0 << 32 } else { j0 };
    let iv = nonce_for(&key, j0);
    let n = c.rng.below(220);
    let pt = content(c, n);
    let n = *c.rng.pick(AADS);
    let aad = content(c, n);
    if one(c, suite, a, &key, &iv, &aad, &pt) {
        c.count("GCM counter wraps", (pt.len() > 16 * back as usize) as u64);
        c.sample("wrap", || format!("{suite:04x} counter block {j0:032x}, {} bytes", pt.len()));
    }
}

fn sweep(c: &mut Case, max: usize) {
    let n = c.idx % (max + 1);
    for (suite, a) in SUITES {
        let key = content(c, a.key_len());
        let iv = content(c, 12);
        let m = if c.rng.bool() { *c.rng.pick(AADS) } else { c.rng.below(300) };
        let aad = content(c, m);
        let pt = content(c, n);
        if !one(c, suite, a, &key, &iv, &aad, &pt) {
            return;
        }
        // the same for the associated data
        let m = c.rng.below(70);
        let (aad, pt) = (content(c, n), content(c, m));
        if !one(c, suite, a, &key, &iv, &aad, &pt) {
            return;
        }
    }
}
fn long(c: &mut Case) {
    let (suite, a) = SUITES[c.idx % 3];
    let key = c.rng.bytes(a.key_len());
    let iv = c.rng.bytes(12);
    let n = match c.rng.below(5) {
        0 => *c.rng.pick(&[16384, 16385, 16400, 16640, 4096, 4097, 4080]),
        1 => c.rng.range(600, 3000) / 64 * 64,
        _ => c.rng.range(600, 20000),
    };
    let pt = content(c, n);
    let m = *c.rng.pick(AADS);
    let aad = content(c, m);
    if one(c, suite, a, &key, &iv, &aad, &pt) {
        c.sample("long", || format!("{suite:04x}, {n} bytes, {m} bytes of associated data"));
    }
}
/// Any lengths: the API refuses them, or the result is the standard one
fn lengths(c: &mut Case) {
    let (suite, _) = SUITES[c.idx % 3];
    let kl = if c.rng.bool() { c.rng.below(70) } else { *c.rng.pick(&[0, 15, 16, 17, 23, 24, 25, 31, 32, 33, 64]) };
    let il = match c.rng.below(3) {
        0 => c.rng.below(40),
        1 => c.rng.below(300),
        _ => *c.rng.pick(&[0, 1, 4, 7, 8, 11, 12, 13, 15, 16, 17, 31, 32, 33, 64, 128]),
    };
    let (key, iv) = (c.rng.bytes(kl), content(c, il));
    let n = c.rng.below(70);
    let pt = content(c, n);
    let m = c.rng.below(40);
    let aad = content(c, m);
    let cipher = CipherSuite::new(suite).unwrap().get_cipher().unwrap();
    let what = || format!("suite {suite:04x}, key of {kl}, nonce of {il} bytes");
    let Some(r) = c.eut("encrypt", what, || cipher.encrypt(&key, &iv, &pt, &aad)) else { return };
    c.ev(format!("l {suite:x} {kl} {il} {}", r.is_ok()));
    let a = match (suite, kl) {
        (0x1303, 32) => A::ChaPoly,
        (0x1303, _) => {
            c.check(r.is_err(), "bad key accepted", what);
            return;
        }
        (_, 16) => A::Aes128Gcm,
        (_, 32) => A::Aes256Gcm,
        (_, 24) => return, // AES-192 is judged as a block cipher only
        _ => {
            c.check(r.is_err(), "bad key accepted", what);
            return;
        }
    };
    match r {
        Ok((ct, tag)) => {
            c.count("other lengths accepted", 1);
            // OpenSSL takes nonces up to 128 bytes: use one that leads to the same counter block
            let eq = if il > 128 { nonce_for(&key, j0(&key, &iv)) } else { iv.clone() };
            match ossl::seal(a, &key, &eq, &aad, &pt) {
                Some(e) => {
                    c.check(e == (ct, tag), "encrypt differs", what);
                }
                None => {
                    c.fail("refused by OpenSSL", what());
                }
            }
        }
        Err(_) => {
            let own = SUITES.iter().find(|s| s.0 == suite).unwrap().1;
            c.check(!(il == 12 && kl == own.key_len()), "encrypt fails", what);
        }
    }
}

fn aes(c: &mut Case) {
    let kl = [16, 24, 32][c.idx % 3];
    for _ in 0..20 {
        let key = content(c, kl);
        let mut block: [u8; 16] = content(c, 16).try_into().unwrap();
        if c.rng.one_in(4) {
            block = [0; 16];
            block[c.rng.below(16)] = 1 << c.rng.below(8);
        }
        let what = || format!("AES-{} key {} block {}", kl * 8, hexs(&key), hexs(&block));
        let r = c.eut("AES", what, || {
            let mut a = AES::init(&key, Blocksize::new(kl * 8).unwrap());
            let e = a.encrypt(block);
            let d = a.decrypt(block);
            // the object is reusable
            let e2 = a.encrypt(block);
            (e, d, e2)
        });
        let Some((e, d, e2)) = r else { return };
        let x = ossl::aes_block(&key, &block, true);
        c.check(e == x && e2 == x, "AES encryption differs", what);
        c.check(d == ossl::aes_block(&key, &block, false), "AES decryption differs", what);
        c.ev(format!("aes {kl} {}", hexs(&block[..2])));
    }
}
fn chacha(c: &mut Case) {
    let key: [u8; 32] = content(c, 32).try_into().unwrap();
    let nonce: [u8; 12] = content(c, 12).try_into().unwrap();
    let n = if c.idx <= 400 { c.idx } else { c.rng.below(5000) };
    let data = content(c, n);
    let ctr: u32 = match c.rng.below(4) {
        0 => 0,
        1 => 1,
        2 => u32::MAX - (n as u32).div_ceil(64),
        _ => (c.rng.u64() as u32) >> 1,
    };
    let mut cn = [0u8; 16];
    cn[..4].copy_from_slice(&ctr.to_le_bytes());
    cn[4..].copy_from_slice(&nonce);
    let want = ossl::chacha20(&key, &cn, &data);
    let what = || format!("ChaCha20 key {} nonce {} counter {ctr} {n} bytes", hexs(&key), hexs(&nonce));
    let Some(r) = c.eut("ChaCha20", what, || (ChaCha20::encrypt(&data, &key, &nonce, ctr as usize), ChaCha20::decrypt(&want, &key, &nonce, ctr as usize))) else {
        return;
    };
    c.check(r.0.as_deref() == Some(&want[..]), "ChaCha20 differs", what);
    c.check(r.1.as_deref() == Some(&data[..]), "ChaCha20 decryption differs", what);
    let Some(b) = c.eut("ChaCha20", what, || ChaCha20Block::init(&key, &nonce, ctr).map(|mut b| b.get_block())) else { return };
    c.check(b.map(|b| b.to_vec()) == Some(ossl::chacha20(&key, &cn, &[0; 64])), "ChaCha20 block differs", what);
    c.ev(format!("chacha {n} {}", ctr >> 28));
}
fn poly(c: &mut Case) {
    // corners: r and s extreme, accumulators around 2^130 - 5, carries over all limbs
    let mut key = [0u8; 32];
    match c.rng.below(6) {
        0 => key[c.rng.below(16)] = 1 << c.rng.below(8),
        1 => key = [0xff; 32],
        2 => {
            key[0] = c.rng.pick(&[1u8, 2, 4]).to_owned();
            for b in key[16..].iter_mut() {
                *b = 0xff;
            }
        }
        3 => {
            c.rng.fill(&mut key[..16]);
            key[16..].copy_from_slice(&[0xff; 16]);
        }
        _ => c.rng.fill(&mut key),
    }
    let n = match c.rng.below(3) {
        _ if c.idx <= 130 => c.idx,
        0 => c.rng.range(1, 4) * 16,
        1 => c.rng.below(70),
        _ => c.rng.below(2000),
    };
    let mut msg = vec![];
    while msg.len() < n {
        let b: Vec<u8> = match c.rng.below(6) {
            0 => vec![0xff; 16],
            1 => {
                let mut b = vec![0xff; 16];
                b[0] = c.rng.pick(&[0xfau8, 0xfb, 0xfc, 0xfd, 0xfe]).to_owned();
                b
            }
            2 => vec![0; 16],
            3 => {
                let mut b = vec![0; 16];
                b[0] = c.rng.u8();
                b
            }
            _ => c.rng.bytes(16),
        };
        msg.extend(b);
    }
    msg.truncate(n);
    let what = || format!("Poly1305 key {} message {} ({n})", hexs(&key), hexs(&msg));
    let Some(t) = c.eut("Poly1305", what, || Poly1305::mac(&key, &msg)) else { return };
    c.check(t == ossl::poly1305(&key, &msg), "Poly1305 differs", what);
    c.ev(format!("poly {n} {}", hexs(&key[..1])));
    let (k, iv): (Vec<u8>, Vec<u8>) = (c.rng.bytes(32), c.rng.bytes(12));
    let mut cn = [0u8; 16];
    cn[4..].copy_from_slice(&iv);
    let Some(g) = c.eut("Poly1305", what, || Poly1305::key_gen(&k, &iv)) else { return };
    c.check(g == ossl::chacha20(&k.clone().try_into().unwrap(), &cn, &[0; 32]), "Poly1305 key differs", || hexs(&k));
}
// ---- Poly1305 with a chosen accumulator
fn num(b: &[u8]) -> UBig {
    UBig::from_le_bytes(b)
}
fn p1305() -> UBig {
    (UBig::from(1u8) << 130) - UBig::from(5u8)
}
fn pinv(x: &UBig) -> UBig {
    let p = p1305();
    let (mut r, mut b, e) = (UBig::from(1u8), x % &p, &p - UBig::from(2u8));
    for i in 0..e.bit_len() {
        if e.bit(i) {
            r = r * &b % &p;
        }
        b = &b * &b % &p;
    }
    r
}
fn clamp(k: &[u8]) -> UBig {
    let mut r: [u8; 16] = k[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    num(&r)
}
fn absorb(acc: &UBig, r: &UBig, block: &[u8]) -> UBig {
    let n = num(block) + (UBig::from(1u8) << (8 * block.len()));
    (acc + n) * r % p1305()
}
/// A value where an implementation may carry or reduce wrongly
fn corner(c: &mut Case) -> UBig {
    let p = p1305();
    let d = UBig::from(c.rng.below(12));
    match c.rng.below(7) {
        0 => d,
        1 => &p - UBig::from(1u8) - d,
        2 => (UBig::from(1u8) << 128) + d,
        3 => (UBig::from(1u8) << 128) - UBig::from(1u8) - d,
        _ => {
            // limb boundaries
            let k = *c.rng.pick(&[26usize, 32, 44, 52, 64, 78, 88, 96, 104, 120, 129]);
            let x = UBig::from(1u8) << k;
            if c.rng.bool() {
                x + d
            } else {
                x - UBig::from(1u8) - d
            }
        }
    }
}
/// Blocks after which the accumulator is `t`: some random blocks, and a last one that is solved for
fn reach(c: &mut Case, acc: &UBig, r: &UBig, t: &UBig) -> Option<Vec<u8>> {
    let p = p1305();
    let top = UBig::from(1u8) << 128;
    let want = t * pinv(r) % &p;
    for _ in 0..40 {
        let mut a = acc.clone();
        let mut out = vec![];
        for _ in 0..c.rng.below(3) {
            let b = c.rng.bytes(16);
            a = absorb(&a, r, &b);
            out.extend(b);
        }
        let m = (&want + &p - a) % &p;
        if m >= top && m < &top * UBig::from(2u8) {
            let mut b = (m - &top).to_le_bytes();
            b.resize(16, 0);
            out.extend(b);
            return Some(out);
        }
    }
    None
}
fn poly_corner(c: &mut Case) {
    let mut key: [u8; 32] = c.rng.arr();
    match c.rng.below(4) {
        0 => key[16..].fill(0xff),
        1 => key[16..].fill(0),
        _ => {}
    }
    let r = clamp(&key);
    if r == UBig::from(0u8) {
        return;
    }
    let t = corner(c);
    let Some(mut msg) = reach(c, &UBig::from(0u8), &r, &t) else { return };
    // and go on from there, or not
    let mut kind = "last";
    match c.rng.below(3) {
        0 => {
            let u = corner(c);
            if let Some(m) = reach(c, &t, &r, &u) {
                msg.extend(m);
            }
            kind = "twice";
        }
        1 => {
            let k = c.rng.below(60);
            msg.extend(content(c, k));
            kind = "then more";
        }
        _ => {}
    }
    let what = || format!("Poly1305 key {} message {} (accumulator {t} reached)", hexs(&key), hexs(&msg));
    let Some(tag) = c.eut("Poly1305", what, || Poly1305::mac(&key, &msg)) else { return };
    c.check(tag == ossl::poly1305(&key, &msg), "Poly1305 differs", what);
    c.ev(format!("corner {kind} {t}"));
    c.count("accumulators at a corner", 1);
}
/// The same through the AEAD, where the last block holds the lengths
fn aead_corner(c: &mut Case) {
    let key = c.rng.bytes(32);
    let iv = c.rng.bytes(12);
    let mut cn = [0u8; 16];
    cn[4..].copy_from_slice(&iv);
    let k: [u8; 32] = key.clone().try_into().unwrap();
    let pk = ossl::chacha20(&k, &cn, &[0; 32]);
    let r = clamp(&pk);
    let p = p1305();
    let n = *c.rng.pick(&[0usize, 5, 16, 32]);
    let aad = c.rng.bytes(n);
    let mut acc = UBig::from(0u8);
    for b in aad.chunks(16) {
        let mut v = b.to_vec();
        v.resize(16, 0);
        acc = absorb(&acc, &r, &v);
    }
    let t = corner(c);
    for blocks in 1..5usize {
        // the length block fixes the accumulator before it
        let mut l = (n as u64).to_le_bytes().to_vec();
        l.extend((blocks as u64 * 16).to_le_bytes());
        let l = num(&l) + (UBig::from(1u8) << 128);
        let before = (&t * pinv(&r) % &p + &p - (l % &p)) % &p;
        for _ in 0..12 {
            let mut a = acc.clone();
            let mut ct = vec![];
            for _ in 1..blocks {
                let b = c.rng.bytes(16);
                a = absorb(&a, &r, &b);
                ct.extend(b);
            }
            let m = (&before * pinv(&r) % &p + &p - a) % &p;
            let top = UBig::from(1u8) << 128;
            if m >= top && m < &top * UBig::from(2u8) {
                let mut b = (m - &top).to_le_bytes();
                b.resize(16, 0);
                ct.extend(b);
                cn[0] = 1;
                let pt = ossl::chacha20(&k, &cn, &ct);
                if one(c, 0x1303, A::ChaPoly, &key, &iv, &aad, &pt) {
                    c.count("AEAD accumulators at a corner", 1);
                }
                return;
            }
            if blocks == 1 {
                break;
            }
        }
    }
}
/// GHASH with a chosen state, through the AEAD
fn ghash_corner(c: &mut Case) {
    let (suite, a) = SUITES[c.rng.below(2)];
    let key = c.rng.bytes(a.key_len());
    let iv = c.rng.bytes(12);
    let h = u128::from_be_bytes(ossl::aes_block(&key, &[0; 16], true));
    let t: u128 = match c.rng.below(6) {
        0 => 0,
        1 => !0,
        2 => 1 << c.rng.below(128),
        3 => !(1 << c.rng.below(128)),
        4 => u128::MAX >> c.rng.below(128),
        _ => u128::MAX << c.rng.below(128),
    };
    let n = *c.rng.pick(&[0usize, 5, 13, 16, 32]);
    let aad = c.rng.bytes(n);
    let mut x = 0u128;
    for b in aad.chunks(16) {
        let mut v = [0; 16];
        v[..b.len()].copy_from_slice(b);
        x = gmul(x ^ u128::from_be_bytes(v), h);
    }
    let k = c.rng.below(3);
    let mut ct = c.rng.bytes(16 * k);
    for b in ct.chunks(16) {
        x = gmul(x ^ u128::from_be_bytes(b.try_into().unwrap()), h);
    }
    // before the multiplication of the last block, or after all
    let last = if c.rng.bool() {
        t ^ x
    } else {
        let l = (n as u128 * 8) << 64 | ((k + 1) * 128) as u128;
        let i = ginv(h);
        gmul(gmul(t, i) ^ l, i) ^ x
    };
    ct.extend(last.to_be_bytes());
    // plaintext for this ciphertext
    let Some((ks, _)) = ossl::seal(a, &key, &iv, &[], &vec![0; ct.len()]) else { return };
    let pt: Vec<u8> = ct.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
    if one(c, suite, a, &key, &iv, &aad, &pt) {
        c.count("GHASH states at a corner", 1);
    }
}
/// Block counters past 16 bits
fn huge(c: &mut Case) {
    let (suite, a) = SUITES[c.idx % 3];
    let key = c.rng.bytes(a.key_len());
    let iv = c.rng.bytes(12);
    let block = if a == A::ChaPoly { 64 } else { 16 };
    let n = block * 65536 + c.rng.below(300);
    let pt = c.rng.bytes(n);
    if c.idx >= 3 && c.idx < 6 {
        // associated data instead
        let m = if a == A::ChaPoly { 1 << 20 } else { n };
        one(c, suite, a, &key, &iv, &pt[..m], &pt[..20]);
    } else {
        one(c, suite, a, &key, &iv, b"huge", &pt);
    }
    c.count("inputs of more than 65536 blocks", 1);
}
/// The object of each suite reports its own suite and is usable again and again
fn reuse(c: &mut Case) {
    let (suite, a) = SUITES[c.idx % 3];
    let id = CipherSuite::new(suite).unwrap();
    let cipher = id.get_cipher().unwrap();
    c.check(cipher.get_cipher_suite() == id && id.as_u16() == suite && id.get_key_and_iv_len() == (a.key_len(), 12), "suite parameters", || format!("{suite:04x}"));
    let g = Gcm::new(CipherSuite::TLS_AES_128_GCM_SHA256);
    for i in 0..20 {
        let key = c.rng.bytes(a.key_len());
        let iv = c.rng.bytes(12);
        let n = c.rng.below(200);
        let (aad, pt) = (c.rng.bytes(i), c.rng.bytes(n));
        let Some(r) = c.eut("encrypt", || format!("{suite:04x}"), || cipher.encrypt(&key, &iv, &pt, &aad)) else { return };
        c.check(r.ok() == ossl::seal(a, &key, &iv, &aad, &pt), "encrypt differs", || format!("reused object of suite {suite:04x}, call {i}"));
        if a != A::ChaPoly {
            let Some(r) = c.eut("encrypt", || format!("{suite:04x}"), || g.encrypt(&key, &iv, &pt, &aad)) else { return };
            c.check(r.ok() == ossl::seal(a, &key, &iv, &aad, &pt), "encrypt differs", || format!("reused Gcm, key of {} bytes, call {i}", key.len()));
        }
        c.ev(format!("reuse {suite:x} {i}"));
    }
}

pub fn run(r: &Rep) {
    r.group("lengths 0..=600", r.n(601 * 3, 601 * 300), |c| sweep(c, 600));
    r.group("long", r.n(300, 30000), long);
    r.group("counter wrap", r.n(1000, 100000), wrap);
    r.group("any key and nonce length", r.n(6000, 400000), lengths);
    r.group("AES", r.n(3000, 400000), aes);
    r.group("ChaCha20", r.n(3000, 300000), chacha);
    r.group("Poly1305", r.n(20000, 2000000), poly);
    r.group("Poly1305 corners", r.n(12000, 1000000), poly_corner);
    r.group("AEAD Poly1305 corners", r.n(4000, 300000), aead_corner);
    r.group("GHASH corners", r.n(4000, 300000), ghash_corner);
    r.group("huge", r.n(6, 60), huge);
    r.require("accumulators at a corner", 5000);
    r.require("AEAD accumulators at a corner", 1000);
    r.require("GHASH states at a corner", 2000);
    r.group("reuse", r.n(60, 1000), reuse);
    r.require("GCM counter wraps", 50);
}
