//! Hashes, HMAC and HKDF equal the standard functions
use crate::common::content;
use crate::ossl::{self, H};
use crate::rep::{hexs, Case, Rep};
use anothertls::hash::{sha_x, sha256, sha384, HashType, Hkdf, Hmac, Sha256, Sha384, TranscriptHash};

pub const RULE: &str = "a case is one history of a hash object (updates of random sizes, finalise and clone in between, all clones followed to their end), or one HMAC/HKDF computation; every digest that comes out is compared with OpenSSL's digest of exactly the bytes fed so far; message lengths 0..=1100 are swept completely; distinct = (function, length, partition class)";

const HS: [(H, HashType); 2] = [(H::Sha256, HashType::SHA256), (H::Sha384, HashType::SHA384)];

fn new(h: H) -> Box<dyn TranscriptHash> {
    match h {
        H::Sha256 => Box::new(Sha256::new()),
        H::Sha384 => Box::new(Sha384::new()),
    }
}
fn piece(c: &mut Case, left: usize) -> usize {
    let n = match c.rng.below(7) {
        0 => 0,
        1 => 1,
        2 => *c.rng.pick(&[55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 191, 192, 256]),
        3 => c.rng.range(1, 20),
        4 => c.rng.range(1, 300),
        _ => left,
    };
    n.min(left)
}

fn sweep(c: &mut Case, max: usize) {
    let n = c.idx % (max + 1);
    let m = content(c, n);
    for (h, t) in HS {
        let want = ossl::digest(h, &m);
        let what = || format!("{h:?} of {} ({n} bytes)", hexs(&m));
        let Some(one) = c.eut("hash", what, || (sha_x(t, &m), if h == H::Sha256 { sha256(&m) } else { sha384(&m) })) else { return };
        c.check(one.0 == want && one.1 == want, "digest differs", what);
        c.ev(format!("{h:?} {n}"));
        // split into two at a random and at each block boundary
        let cuts = [c.rng.below(n + 1), n.min(64), n.min(128), n.saturating_sub(1), n.min(1)];
        for cut in cuts {
            let Some(d) = c.eut("hash", what, || {
                let mut x = new(h);
                x.update(&m[..cut]);
                x.update(&m[cut..]);
                (x.finalize(), x.get_type())
            }) else {
                return;
            };
            c.check(d == (want.clone(), t), "digest of split message differs", || format!("{} cut at {cut}", what()));
            c.ev(format!("{h:?} {n} {cut}"));
        }
    }
}
fn history(c: &mut Case) {
    let (h, t) = HS[c.idx % 2];
    // (object, bytes fed to it)
    let mut v: Vec<(Box<dyn TranscriptHash>, Vec<u8>)> = vec![(new(h), vec![])];
    let mut log = String::new();
    for _ in 0..c.rng.range(2, 30) {
        let i = c.rng.below(v.len());
        let len = v[i].1.len();
        match c.rng.below(6) {
            0 if v.len() < 6 => {
                let Some(x) = c.eut("clone", || log.clone(), || TranscriptHash::clone(&*v[i].0)) else { return };
                let f = v[i].1.clone();
                v.push((x, f));
                log += &format!(" {i}:clone");
            }
            1 => {
                let Some(d) = c.eut("finalize", || log.clone(), || (v[i].0.finalize(), v[i].0.finalize())) else { return };
                let want = ossl::digest(h, &v[i].1);
                c.ev(format!("h {h:?} {} {}", len % 128, v.len()));
                if !c.check(d.0 == want && d.1 == want, "digest differs", || format!("{h:?}, history{log} {i}:finalize, {len} bytes")) {
                    return;
                }
            }
            _ => {
                let n = piece(c, 700);
                let d = content(c, n);
                log += &format!(" {i}:{n}");
                if c.eut("update", || log.clone(), || v[i].0.update(&d)).is_none() {
                    return;
                }
                v[i].1.extend(d);
            }
        }
    }
    for (i, (x, f)) in v.iter().enumerate() {
        let Some(d) = c.eut("finalize", || log.clone(), || x.finalize()) else { return };
        c.ev(format!("H {h:?} {} {}", f.len() % 128, v.len()));
        c.check(d == ossl::digest(h, f), "digest differs", || format!("{h:?}, history{log}, object {i}, {} bytes", f.len()));
        c.check(x.get_type() == t && t as usize == h.len(), "hash type", || log.clone());
    }
    c.count("objects followed", v.len() as u64);
    c.sample("history", || format!("{h:?}{log}"));
}
fn hmac(c: &mut Case) {
    let (h, t) = HS[c.idx % 2];
    let kl = (c.idx / 2) % 300;
    let (mut key, n) = (content(c, kl), c.rng.below(400));
    if kl > 0 && c.rng.one_in(4) {
        key[kl - 1] = 0;
    }
    let m = content(c, n);
    let want = ossl::hmac(h, &key, &m);
    let what = || format!("HMAC-{h:?}, key of {kl} bytes {}, message of {n}", hexs(&key));
    let cut = c.rng.below(n + 1);
    let Some(r) = c.eut("HMAC", what, || {
        let mut x = Hmac::new(t, &key);
        x.update(&m[..cut]);
        x.update(&m[cut..]);
        (x.result(), x.result())
    }) else {
        return;
    };
    c.check(r.0 == want && r.1 == want, "HMAC differs", what);
    c.ev(format!("hmac {h:?} {kl} {n}"));
}
fn hkdf(c: &mut Case) {
    let (h, t) = HS[c.idx % 2];
    let (sl, il, fl) = (c.rng.below(200), c.rng.below(200), c.rng.below(300));
    let (salt, ikm, info) = (content(c, sl), content(c, il), content(c, fl));
    let what = || format!("HKDF-{h:?} salt {} ikm {} info {}", hexs(&salt), hexs(&ikm), hexs(&info));
    let Some(x) = c.eut("HKDF", what, || Hkdf::extract(t, &salt, &ikm)) else { return };
    let prk = ossl::hkdf_extract(h, &salt, &ikm);
    if !c.check(x.pseudo_random_key == prk, "HKDF-Extract differs", what) {
        return;
    }
    let max = 255 * h.len();
    for _ in 0..3 {
        let n = match c.rng.below(6) {
            0 => *c.rng.pick(&[0, 1, 12, 16, 31, 32, 33, 47, 48, 49, 64, 96]),
            1 => max,
            2 => max - c.rng.below(60),
            3 => max + c.rng.range(1, 3),
            4 => c.rng.range(max, 1 << 20),
            _ => c.rng.below(500),
        };
        let p2 = if c.rng.bool() { prk.clone() } else { c.rng.bytes(h.len()) };
        let Some(r) = c.eut("HKDF", || format!("{}, {n} bytes", what()), || Hkdf::from_prk(t, p2.clone()).expand(&info, n)) else { return };
        let want = if n <= max { Some(ossl::hkdf_expand(h, &p2, &info, n)) } else { None };
        c.check(r == want, if want.is_some() { "HKDF-Expand differs" } else { "HKDF-Expand too long" }, || format!("{}, {n} bytes", what()));
        c.ev(format!("hkdf {h:?} {n} {fl}"));
        c.count("too long outputs refused", want.is_none() as u64);
    }
}
/// Long messages: the length field has 64/128 bits
fn long(c: &mut Case, bytes: u64) {
    let (h, _) = HS[c.idx % 2];
    let chunk = c.rng.bytes(1 << 20);
    let mut ck = ossl::Md::new(h);
    let n = bytes + c.rng.below(300) as u64;
    let Some(d) = c.eut("hash", || format!("{n} bytes"), || {
        let mut x = new(h);
        let mut left = n;
        while left > 0 {
            let k = left.min(chunk.len() as u64) as usize;
            x.update(&chunk[..k]);
            left -= k as u64;
        }
        x.finalize()
    }) else {
        return;
    };
    let mut left = n;
    while left > 0 {
        let k = left.min(chunk.len() as u64) as usize;
        ck.update(&chunk[..k]);
        left -= k as u64;
    }
    c.check(d == ck.finish(), "digest of a long message differs", || format!("{h:?}, {n} bytes"));
    c.ev(format!("long {h:?} {n}"));
    c.count("bytes in long messages", n);
}

pub fn run(r: &Rep) {
    r.group("message lengths 0..=1100", r.n(1101, 1101 * 8), |c| sweep(c, 1100));
    r.group("histories", r.n(8000, 400000), history);
    r.group("HMAC", r.n(4800, 200000), hmac);
    r.group("HKDF", r.n(800, 20000), hkdf);
    // 2^29 bytes are 2^32 bits
    const LONG: &[u64] = &[(1 << 32) - 100, 1 << 29, (1 << 29) - 200, (1 << 29) + (1 << 20), 1 << 16, 1 << 21, 33 << 20, 1 << 31];
    r.group("long messages", r.n(LONG.len() - 1, LONG.len()) * 2, |c| long(c, LONG[c.idx / 2]));
    r.require("objects followed", 1000);
    r.require("too long outputs refused", 20);
}
