//! Freshness of everything random, and one nonce per record
use crate::eut::*;
use crate::ossl;
use crate::rep::{hex, hexs, Case, Rep};
use crate::sim::{Caps, Eut, Res, Status};
use crate::tls::*;
use crate::{der, seq};
use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, PrivateKey};
use anothertls::net::client::ClientConfig;
use anothertls::rand::{RngCore, SeedableRng, SimpleRng, URandomRng};
use anothertls::ServerConnection;
use ibig::{ubig, IBig, UBig};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

pub const RULE: &str = "a case is a few connections whose random fields are compared with those of all others of the run, one request to the generator, or one stretch of records at a place of the 64-bit counter; distinct = (role, suite, client authentication) and field values seen, (length requested), (role, direction, suite, place of the counter)";

#[derive(Default)]
struct Seen {
    /// whole values -> field
    values: HashMap<Vec<u8>, &'static str>,
    /// 8 byte windows -> (field, value number)
    windows: HashMap<u64, (&'static str, u64)>,
    bits: BTreeMap<String, (u64, Vec<u64>)>,
    n: u64,
}
impl Seen {
    fn bits(&mut self, name: &str, v: &[u8]) {
        let e = self.bits.entry(name.to_string()).or_insert_with(|| (0, vec![0; v.len() * 8]));
        e.0 += 1;
        for (i, b) in v.iter().enumerate() {
            for j in 0..8 {
                e.1[i * 8 + j] += (b >> (7 - j) & 1) as u64;
            }
        }
    }
    /// None, or what repeats
    fn add(&mut self, name: &'static str, v: &[u8], windows: bool) -> Option<String> {
        self.n += 1;
        let n = self.n;
        if let Some(o) = self.values.insert(v.to_vec(), name) {
            return Some(format!("{name} {} was already used as {o}", hex(v)));
        }
        if windows {
            for w in v.windows(8) {
                let k = u64::from_be_bytes(w.try_into().unwrap());
                if let Some((o, m)) = self.windows.insert(k, (name, n)) {
                    return Some(format!("8 bytes {} of {name} {} were already part of {o}{}", hex(w), hex(v), if m == n { " (the same value)" } else { "" }));
                }
            }
        }
        None
    }
}

fn order() -> UBig {
    UBig::from_str_radix("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16).unwrap()
}
fn be(b: &[u8]) -> UBig {
    UBig::from_be_bytes(b)
}
fn mod_inv(a: &UBig, n: &UBig) -> UBig {
    // n is prime
    let mut r = ubig!(1);
    let mut b = a % n;
    let e = n - ubig!(2);
    for i in 0..256 {
        if e.clone() >> i & ubig!(1) == ubig!(1) {
            r = r * &b % n;
        }
        b = &b * &b % n;
    }
    r
}
fn bytes32(v: &UBig) -> Vec<u8> {
    let b = v.to_be_bytes();
    let mut o = vec![0; 32 - b.len()];
    o.extend(b);
    o
}
/// (r, k) of a signature whose key is known: k = (e + r d) / s
fn ecdsa_nonce(sig: &[u8], digest: &[u8], d: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut r = Rd::new(sig);
    if r.num(1).ok()? != 0x30 {
        return None;
    }
    let mut q = Rd::new(r.vec(1).ok()?);
    let mut num = || -> Option<UBig> {
        if q.num(1).ok()? != 2 {
            return None;
        }
        Some(be(q.vec(1).ok()?))
    };
    let (rr, s) = (num()?, num()?);
    let n = order();
    let k = (be(digest) + &rr * be(d)) % &n * mod_inv(&s, &n) % &n;
    Some((bytes32(&rr), bytes32(&k)))
}
/// The CertificateVerify of one side within a transcript, with the digest it signs
fn cv(s: &Session, server: bool) -> Option<(Vec<u8>, Vec<u8>)> {
    let (ms, _) = messages(&s.transcript);
    let mut at = 0;
    let mut n = 0;
    for (t, m) in ms {
        if t == CV {
            n += 1;
            if n == if server { 1 } else { 2 } {
                let th = ossl::digest(s.h, &s.transcript[..at]);
                return Some((m[8..].to_vec(), cv_digest(server, &th)));
            }
        }
        at += m.len();
    }
    None
}

struct Set {
    w: World,
    srv: [Arc<ServerConnection>; 2],
    cfg: [Arc<ClientConfig>; 2],
    seen: Mutex<Seen>,
}
fn fresh(c: &mut Case, s: &Set) {
    for _ in 0..3 {
        let server = c.rng.bool();
        let auth = c.rng.bool();
        let suite = *c.rng.pick(&SUITES);
        let mut o = Opts::new(suite);
        o.client_auth = auth;
        // a new object now and then, as when the program restarts
        let new = c.rng.one_in(4);
        let l = if server {
            let srv = if new { s.w.server(auth) } else { s.srv[auth as usize].clone() };
            if c.rng.one_in(3) {
                // the peer's own random must have no influence: repeat it
                let mut h = Hello::new(&mut c.rng);
                h.suites = vec![suite];
                h.random = [7; 32];
                h.sid = vec![9; 32];
                h.secret = [3; 32];
                h.set_ext(0x33, ks_client(&[(X25519, ossl::x25519_public(&h.secret).to_vec())]));
                o.hello = Some(h);
            }
            link_server(c, &s.w, &srv, o)
        } else {
            let cfg = if new { s.w.client_cfg(auth) } else { s.cfg[auth as usize].clone() };
            link_client(c, &s.w, &cfg, o)
        };
        let l = match l {
            Ok(l) => l,
            Err(e) => return c.inconclusive(&e.chars().take(60).collect::<String>()),
        };
        let x = &l.sess;
        // (name, value, windows too, bits too)
        let mut f: Vec<(&'static str, Vec<u8>, bool, bool)> = vec![];
        let (ms, _) = messages(&x.transcript);
        if server {
            let sh = x.sh.as_ref().unwrap();
            f.push(("server random", sh.random.to_vec(), true, true));
            f.push(("server share", sh.share.to_vec(), true, true));
            if let Some((ctx, _)) = &x.cert_request {
                f.push(("request context", ctx.clone(), true, true));
            }
        } else {
            let ch = parse_client_hello(&ms[0].1).unwrap();
            f.push(("client random", ch.random.to_vec(), true, true));
            f.push(("session id", ch.sid.clone(), true, true));
            f.push(("client share", ch.share.to_vec(), true, true));
        }
        for (n, d) in [("client handshake key", &x.c_hs), ("server handshake key", &x.s_hs), ("client key", &x.c_ap), ("server key", &x.s_ap)] {
            f.push((n, d.key.clone(), false, false));
            f.push(("traffic secret", d.secret.clone(), false, false));
            f.push(("iv", d.iv.clone(), false, false));
        }
        let key = if server { &s.w.server.key } else { &s.w.client.key };
        if let Some((sig, dig)) = cv(x, server) {
            match ecdsa_nonce(&sig, &dig, &key.secret) {
                Some((r, k)) => {
                    f.push(("signature r", r, true, true));
                    f.push(("signature nonce", k, true, true));
                    c.count("signature nonces recovered and compared", 1);
                }
                None => return c.inconclusive("signature"),
            }
        }
        let mut seen = s.seen.lock().unwrap();
        let role = if server { "server" } else { "client" };
        for (n, v, w, b) in &f {
            if let Some(e) = seen.add(n, v, *w) {
                drop(seen);
                return c.fail(&format!("not fresh: {n}"), format!("{role}, suite {suite:04x}: {e}"));
            }
            if *b {
                seen.bits(n, v);
            }
        }
        drop(seen);
        c.count("fields compared", f.len() as u64);
        c.count(&format!("connections as {role}"), 1);
        c.ev(format!("{role} {suite:04x} {auth} {new} {}", hex(&f[0].1)));
        c.sample(role, || format!("{role} {suite:04x}: {} {}", f[0].0, hex(&f[0].1)));
    }
}
/// The secret number of a signature follows neither from the digest nor from the key alone
fn nonces(c: &mut Case, s: &Set) {
    let base = c.rng.bytes(32);
    let mut digests = vec![base.clone()];
    for keep in [8usize, 16, 31] {
        // the same beginning, the same end
        let (mut a, mut b) = (base.clone(), base.clone());
        let mut r = c.rng.bytes(32);
        r[keep] = !base[keep];
        a[keep..].copy_from_slice(&r[keep..]);
        r[31 - keep] = !base[31 - keep];
        b[..32 - keep].copy_from_slice(&r[..32 - keep]);
        digests.extend([a, b]);
    }
    let keys: Vec<_> = (0..3).map(|_| ossl::EcKey::random(&mut c.rng)).collect();
    let mut mine: HashMap<Vec<u8>, String> = HashMap::new();
    for _ in 0..8 {
        let ki = c.rng.below(keys.len());
        let k = &keys[ki];
        let d = c.rng.pick(&digests).clone();
        let what = || format!("key {} digest {}", hex(&k.secret), hex(&d));
        let Some(sig) = c.eut("sign", what, || {
            let key = PrivateKey::new(Curve::secp256r1(), IBig::from(be(&k.secret)));
            Ecdsa::urandom().sign(&key, &d).ok().map(|s| s.to_der())
        }) else {
            return;
        };
        let Some((_, n)) = sig.and_then(|v| ecdsa_nonce(&v, &d, &k.secret)) else {
            c.fail("no signature", what());
            return;
        };
        let neg = bytes32(&(order() - be(&n)));
        for n in [n, neg] {
            if let Some(o) = mine.insert(n.clone(), what()) {
                // a nonce may be a function of both
                if o != what() {
                    c.fail("secret number of a signature repeats", format!("{} with {} and {o}", hex(&n), what()));
                    return;
                }
            } else if let Some(o) = s.seen.lock().unwrap().values.insert(n.clone(), "nonce") {
                c.fail("secret number of a signature repeats", format!("{} with {} was already used as {o}", hex(&n), what()));
                return;
            }
        }
        c.count("signatures of related digests", 1);
        c.ev(format!("sign {ki} {}", digests.iter().position(|x| *x == d).unwrap()));
    }
}
/// Bits which are (nearly) always the same
fn statistics(c: &mut Case, seen: &Mutex<Seen>) {
    let s = seen.lock().unwrap();
    for (name, (n, ones)) in &s.bits {
        if *n < 300 {
            continue;
        }
        // 7 sigma
        let lim = 3.5 / (*n as f64).sqrt();
        for (i, o) in ones.iter().enumerate() {
            let p = *o as f64 / *n as f64;
            if name.ends_with("share") && i == 31 * 8 {
                // X25519 values have 255 bits
                continue;
            }
            if (p - 0.5).abs() > lim {
                c.fail(&format!("bits of {} are not random", name.split(" of ").next().unwrap()), format!("{name}: bit {} of byte {} is set in {o} of {n}", 7 - i % 8, i / 8));
                break;
            }
        }
        c.evals(1);
        c.count("bit positions judged", ones.len() as u64);
    }
    c.ev("statistics");
}
/// Any length, in full
fn request(c: &mut Case, seen: &Mutex<Seen>, n: usize) {
    let mut r = URandomRng::new();
    for _ in 0..if n <= 128 { 4 } else { 2 } {
        let Some(v) = c.eut("URandomRng::bytes", || format!("{n}"), || RngCore::<IBig>::bytes(&mut r, n)) else { return };
        if !c.check(v.len() == n, "another number of bytes", || format!("bytes({n}) gave {}", v.len())) {
            return;
        }
        c.ev(format!("bytes {n}"));
        c.count("bytes judged", n as u64);
        if n >= 8 {
            let mut s = seen.lock().unwrap();
            // the generator does not repeat itself, within a request and between them
            let step = if n > 4000 { 4 } else { 1 };
            s.n += 1;
            let id = s.n;
            for w in v.windows(8).step_by(step) {
                let k = u64::from_be_bytes(w.try_into().unwrap());
                if let Some((_, m)) = s.windows.insert(k, ("bytes", id)) {
                    drop(s);
                    return c.fail("generator repeats itself", format!("bytes({n}): 8 bytes {} {}", hex(w), if m == id { "twice in one answer" } else { "again" }));
                }
            }
        }
        if n > 0 && n <= 512 {
            let mut s = seen.lock().unwrap();
            let m = n.min(512);
            s.bits(&format!("bytes of {}", n), &v[..m]);
            // the end of an answer, whatever its length
            if n >= 16 {
                s.bits("end of bytes", &v[n - 16..]);
            }
        } else if n > 512 {
            let mut s = seen.lock().unwrap();
            s.bits("end of bytes", &v[n - 16..]);
        }
    }
    // the seeded one delivers what is asked for, too
    let Some(v) = c.eut("SimpleRng::bytes", || format!("{n}"), || SimpleRng::<u32>::from_seed(n as u32).bytes(n)) else { return };
    c.check(v.len() == n, "another number of bytes", || format!("SimpleRng::<u32>::bytes({n}) gave {}", v.len()));
    if n < 300 {
        let Some(v) = c.eut("SimpleRng::bytes", || format!("{n}"), || SimpleRng::<IBig>::from_seed(IBig::from(n)).bytes(n)) else { return };
        c.check(v.len() == n, "another number of bytes", || format!("SimpleRng::<IBig>::bytes({n}) gave {}", v.len()));
    }
}
/// Numbers within their bounds, all their bits random
fn between(c: &mut Case, seen: &Mutex<Seen>) {
    let mut r = URandomRng::new();
    for _ in 0..40 {
        let lo = c.rng.below(32);
        let hi = c.rng.range(lo + 1, 32);
        let (lo, hi) = if c.rng.bool() { (1, 32) } else { (lo, hi) };
        let Some(v) = c.eut("URandomRng::between", || format!("{lo} {hi}"), || -> IBig { r.between(lo, hi) }) else { return };
        let one = IBig::from(1);
        let (min, max) = (one.clone() << (lo * 8), one << (hi * 8));
        if !c.check(v >= min && v < max, "number out of its bounds", || format!("between({lo}, {hi}) = {v}")) {
            return;
        }
        c.ev(format!("between {lo} {hi}"));
        if (lo, hi) == (1, 32) {
            let b = UBig::try_from(v).unwrap().to_be_bytes();
            let mut o = vec![0; 32 - b.len()];
            o.extend(b);
            let mut s = seen.lock().unwrap();
            // the second lowest byte is shifted by the minimum, which keeps it uniform
            s.bits("between", &o);
            if let Some(e) = s.add("between", &o, true) {
                drop(s);
                return c.fail("generator repeats itself", e);
            }
        }
    }
}

// ------------------------------------------------------------------ the counter
fn setup(c: &mut Case, s: &Set, server: bool, suite: u16) -> Option<Link> {
    let mut o = Opts::new(suite);
    if c.rng.one_in(8) {
        o.client_auth = true;
    }
    let l = if server { link_server(c, &s.w, &s.srv[o.client_auth as usize], o) } else { link_client(c, &s.w, &s.cfg[o.client_auth as usize], o) };
    match l {
        Ok(l) => Some(l),
        Err(e) => {
            c.inconclusive(&e.chars().take(60).collect::<String>());
            None
        }
    }
}
/// Which number a record was sealed with, if it is one of these
fn sealed_with(d: &Dir, r: &Rec, cand: &[u64]) -> Option<u64> {
    cand.iter().copied().find(|n| {
        let mut t = d.clone();
        t.seq = *n;
        t.open(r).is_ok()
    })
}
fn wrong(c: &mut Case, d: &Dir, r: &Rec, want: u64, what: &str) {
    let mut cand = vec![];
    for k in 0..64 {
        cand.push(want ^ (1 << k));
        cand.push(want & !(u64::MAX << k));
        cand.push(want & (u64::MAX << k));
    }
    cand.extend([0, 1, want.wrapping_add(1), want.wrapping_sub(1), want.wrapping_sub(2), want.swap_bytes()]);
    match sealed_with(d, r, &cand) {
        Some(n) => c.fail("record sealed with another number", format!("{what}: record {want:#x} was sealed with nonce number {n:#x}")),
        None => c.fail("record not sealed with its number", format!("{what}: record {want:#x}: {}", hexs(&r.raw()))),
    }
}
fn writes(c: &mut Case, s: &Set) {
    let server = c.idx % 2 == 0;
    let suite = SUITES[c.idx / 2 % 3];
    let k = c.idx / 6 % 64;
    let Some(mut l) = setup(c, s, server, suite) else { return };
    // across a carry into bit k, or anywhere
    let start = match c.rng.below(3) {
        0 => (1u64 << k).wrapping_sub(2),
        1 => (c.rng.u64() >> 1 | 1 << k) & (u64::MAX << k) & (u64::MAX >> 1),
        _ => c.rng.u64() >> c.rng.below(64),
    }
    .min(u64::MAX - 10);
    let start = if start == u64::MAX - 10 { 3 } else { start };
    if !seq::set(c, &mut l.eut, true, start) {
        c.count("hook not available", 1);
        return;
    }
    let what = format!("{} {suite:04x} writing from {start:#x}", if server { "server" } else { "client" });
    let mut want = start;
    for _ in 0..6 {
        let n = *c.rng.pick(&[0usize, 1, 10, 16384, 16385, 40000]);
        let d = c.rng.bytes(n);
        if c.rng.one_in(8) {
            l.eut.alert(anothertls::net::alert::TlsError::UserCanceled);
        } else {
            l.eut.write(d);
        }
        let st = l.eut.wait(c);
        if !matches!(st, Status::Done(Res::Ok(_))) {
            return c.fail("write fails", format!("{what}: {st:?}"));
        }
        let (recs, _) = records(&l.eut.conn.take());
        for r in recs {
            let d = l.rx();
            d.seq = want;
            if let Err(e) = d.open(&r) {
                let d = d.clone();
                c.count("failed", 1);
                let _ = e;
                return wrong(c, &d, &r, want, &what);
            }
            want += 1;
            c.count("records written and opened", 1);
            c.ev(format!("write {server} {suite:04x} {want:x}"));
        }
    }
    // what was read has its own counter
    let rx = c.rng.range(1, 300);
    let b = c.rng.bytes(rx);
    let r = l.tx().seal(APP, &b, 0);
    l.eut.conn.feed(&r);
    l.eut.read(400);
    let st = l.eut.wait(c);
    if !matches!(&st, Status::Done(Res::Ok(d)) if *d == b) {
        c.fail("writing moves the counter of the other direction", format!("{what}: {st:?}"));
    }
    c.sample("writes", || format!("{what}: records up to {want:#x} open with their own number"));
}
fn reads(c: &mut Case, s: &Set) {
    let server = c.idx % 2 == 0;
    let suite = SUITES[c.idx / 2 % 3];
    let k = c.idx / 6 % 64;
    let Some(mut l) = setup(c, s, server, suite) else { return };
    let start = if c.rng.bool() { (1u64 << k).wrapping_sub(2) } else { c.rng.u64() >> c.rng.below(64) }.min(u64::MAX - 10);
    if !seq::set(c, &mut l.eut, false, start) {
        c.count("hook not available", 1);
        return;
    }
    let what = format!("{} {suite:04x} reading from {start:#x}", if server { "server" } else { "client" });
    let d = l.tx();
    d.seq = start;
    let mut fed = vec![];
    let mut want = vec![];
    for i in 0..6u8 {
        fed.extend(l.tx().seal(APP, &[i; 9], 0));
        want.extend([i; 9]);
    }
    l.eut.conn.feed(&fed);
    let (got, _) = read_all(c, &mut l.eut, &mut || 100, 100);
    c.check(got == want, "records of the peer not opened with their numbers", || format!("{what}: {} of {} bytes delivered", got.len(), want.len()));
    c.count("records read", 6);
    c.ev(format!("read {server} {suite:04x} {start:x}"));
}
/// At the end of the counter
fn limit(c: &mut Case, s: &Set) {
    let server = c.idx % 2 == 0;
    let suite = SUITES[c.idx / 2 % 3];
    let back = c.idx / 6 % 4;
    let Some(mut l) = setup(c, s, server, suite) else { return };
    let start = u64::MAX - back as u64;
    if !seq::set(c, &mut l.eut, true, start) {
        c.count("hook not available", 1);
        return;
    }
    let what = format!("{} {suite:04x} writing from {start:#x}", if server { "server" } else { "client" });
    let mut used: Vec<u64> = vec![];
    let mut failed = false;
    let low: Vec<u64> = (0..12).chain((0..12).map(|i| u64::MAX - i)).collect();
    for i in 0..8 {
        let n = *c.rng.pick(&[1usize, 5, 20000]);
        match c.rng.below(4) {
            0 => l.eut.alert(anothertls::net::alert::TlsError::CloseNotify),
            _ => l.eut.write(vec![i; n]),
        }
        let st = l.eut.wait(c);
        match st {
            Status::Done(Res::Ok(_)) => {
                if failed {
                    c.fail("write succeeds behind the end of the counter", what.clone());
                    return;
                }
            }
            Status::Done(Res::Err(_)) => failed = true,
            st => return c.fail("panic at the end of the counter", format!("{what}: {st:?}")),
        }
        let out = l.eut.conn.take();
        let (recs, rest) = records(&out);
        if !rest.is_empty() {
            return c.fail("part of a record sent", what);
        }
        for r in recs {
            match sealed_with(l.rx(), &r, &low) {
                Some(n) if n >= start && !used.contains(&n) => used.push(n),
                Some(n) => return c.fail("nonce used again", format!("{what}: record sealed with number {n:#x}, before it {used:x?}")),
                None => return c.fail("record not sealed with its number", format!("{what}: {}", hexs(&r.raw()))),
            }
        }
    }
    c.check(failed, "counter does not end", || format!("{what}: {used:x?}"));
    c.count("ends of the counter reached", 1);
    c.ev(format!("limit {server} {suite:04x} {back} {}", used.len()));
    c.sample("limit", || format!("{what}: sealed with {used:x?}, then refused"));
    // the reading side, too: nothing of a second round is accepted
    if !seq::set(c, &mut l.eut, false, start) {
        return;
    }
    let mut fed = vec![];
    let d = l.tx();
    for i in 0..=back as u64 {
        d.seq = start + i;
        fed.extend(d.seal(APP, &[1], 0));
    }
    for i in 0..3 {
        d.seq = i;
        fed.extend(d.seal(APP, b"again", 0));
    }
    l.eut.conn.feed(&fed);
    let (got, st) = read_all(c, &mut l.eut, &mut || 100, 100);
    c.check(!got.windows(5).any(|w| w == b"again") && got.len() <= back + 1, "counter of the reader wraps", || format!("{what}: {got:?} {st:?}"));
}
/// Counting without the hook: more records than 16 bits can number
fn long(c: &mut Case, s: &Set) {
    let server = c.idx % 2 == 0;
    let suite = SUITES[c.idx / 2 % 3];
    let Some(mut l) = setup(c, s, server, suite) else { return };
    let total: u64 = if c.thorough() { 200_000 } else { 66_000 };
    let what = format!("{} {suite:04x}, {total} records", if server { "server" } else { "client" });
    let mut want = l.rx().seq;
    while want < total {
        l.eut.start(|st| {
            for _ in 0..500 {
                if let Err(e) = st.stream.as_mut().unwrap().tls_write(b"x") {
                    return Res::Err(e);
                }
            }
            Res::Ok(vec![])
        });
        let st = l.eut.wait(c);
        if !matches!(st, Status::Done(Res::Ok(_))) {
            return c.fail("write fails", format!("{what}: {st:?}"));
        }
        let out = l.eut.conn.take();
        let (recs, _) = records(&out);
        if recs.len() != 500 {
            return c.fail("number of records", format!("{what}: {}", recs.len()));
        }
        for r in &recs {
            let d = l.rx();
            if d.open(r).is_err() {
                let d = d.clone();
                return wrong(c, &d, r, want, &what);
            }
            want += 1;
        }
    }
    c.count("records written and opened", want);
    c.evals(want);
    c.ev(format!("long {server} {suite:04x}"));
}
/// Handshakes at the same time
fn parallel(c: &mut Case, s: &Set) {
    let mut v = vec![];
    for _ in 0..8 {
        let mut e = Eut::new(Some(NOW));
        e.conn.set_caps(Caps::All, Caps::All);
        e.connect(&s.cfg[0]);
        v.push(e);
    }
    for mut e in v {
        let _ = e.wait(c);
        let (recs, _) = records(&e.conn.take());
        let all: Vec<u8> = recs.iter().flat_map(|r| r.body.clone()).collect();
        let i = match parse_client_hello(&all) {
            Ok(i) => i,
            Err(x) => return c.inconclusive(&x),
        };
        for (n, v) in [("client random", i.random.to_vec()), ("session id", i.sid.clone()), ("client share", i.share.to_vec())] {
            let r = s.seen.lock().unwrap().add(n, &v, true);
            if let Some(x) = r {
                return c.fail(&format!("not fresh: {n}"), format!("simultaneous clients: {x}"));
            }
        }
        c.ev(hex(&i.random));
        c.count("simultaneous hellos", 1);
    }
}

pub fn run(rep: &Rep) {
    let w = World::new(rep.seed);
    let srv = [w.server(false), w.server(true)];
    let cfg = [w.client_cfg(false), w.client_cfg(true)];
    let s = Set { w, srv, cfg, seen: Mutex::new(Seen::default()) };
    let _ = der::oid;
    rep.group("fresh", rep.n(500, 12_000), |c| fresh(c, &s));
    rep.group("parallel", rep.n(60, 1_500), |c| parallel(c, &s));
    let lens = 1200;
    rep.group("lengths", lens * rep.n(1, 20), |c| {
        let n = c.idx % lens;
        request(c, &s.seen, n)
    });
    rep.group("long requests", rep.n(40, 800), |c| {
        let n = c.rng.range(1200, 70_000);
        request(c, &s.seen, n)
    });
    rep.group("usual lengths", rep.n(400, 4000), |c| {
        let n = *c.rng.pick(&[32usize, 32, 16, 31, 33, 99, 100, 101, 200, 300]);
        request(c, &s.seen, n)
    });
    rep.group("between", rep.n(60, 1_000), |c| between(c, &s.seen));
    rep.group("signatures", rep.n(120, 4_000), |c| nonces(c, &s));
    rep.group("statistics", 1, |c| statistics(c, &s.seen));
    rep.group("writes", 6 * 64 * rep.n(2, 40), |c| writes(c, &s));
    rep.group("reads", 6 * 64 * rep.n(1, 30), |c| reads(c, &s));
    rep.group("limit", 6 * 4 * rep.n(3, 60), |c| limit(c, &s));
    rep.group("long", 6, |c| long(c, &s));
    rep.require("fields compared", 5_000);
    rep.require("signature nonces recovered and compared", 300);
    rep.require("signatures of related digests", 800);
    rep.require("bit positions judged", 2_000);
    rep.require("simultaneous hellos", 300);
    if rep.counter("hook not available") == 0 {
        rep.require("records written and opened", 300_000);
        rep.require("records read", 2_000);
        rep.require("ends of the counter reached", 50);
    }
}
