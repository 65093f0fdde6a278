//! X25519
use crate::eut::*;
use crate::ossl;
use crate::rep::{hex, Case, Rep};
use crate::rng::Rng;
use crate::sim::{Caps, Eut, Res, Status};
use crate::tls::*;
use anothertls::crypto::ellipticcurve::{math, Curve, Point, PrivateKey};
use anothertls::hash::{Sha256, Sha384, TranscriptHash};
use anothertls::net::extensions::{KeyShareEntry, NamedGroup};
use anothertls::net::key_schedule::KeySchedule;
use ibig::IBig;
use std::sync::Arc;

pub const RULE: &str = "a case is one (scalar, peer u-coordinate) given to the curve code or to the key schedule, or one handshake in which the reference endpoint chooses its share such that the shares or the shared secret have zero bytes at either end, are special, low-order, non-canonical or of the wrong length; public keys, shared secrets and traffic secrets are compared with OpenSSL's X25519 and HKDF; distinct = (layer, role, kind of value, value class)";

/// The code under test reads the little-endian encoding as a big-endian number
fn be(b: &[u8]) -> IBig {
    let mut x = IBig::from(0);
    for v in b {
        x = (x << 8) + IBig::from(*v);
    }
    x
}
fn unbe(x: &IBig) -> Option<[u8; 32]> {
    let u = ibig::UBig::try_from(x.clone()).ok()?;
    let b = u.to_be_bytes();
    if b.len() > 32 {
        return None;
    }
    let mut o = [0; 32];
    o[32 - b.len()..].copy_from_slice(&b);
    Some(o)
}
fn p_plus(k: i32) -> [u8; 32] {
    // 2^255 - 19 + k, little-endian
    let mut o = [0xff; 32];
    o[31] = 0x7f;
    o[0] = (0xed + k) as u8;
    o
}
/// Points whose multiples by 8 are zero, with all their encodings
pub fn low_order() -> Vec<[u8; 32]> {
    let h = |s: &str| {
        let mut o = [0; 32];
        for (i, b) in o.iter_mut().enumerate() {
            *b = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
        }
        o
    };
    let mut one = [0; 32];
    one[0] = 1;
    let mut v = vec![
        [0; 32],
        one,
        h("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
        h("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
        p_plus(-1),
        p_plus(0),
        p_plus(1),
    ];
    for i in 0..v.len() {
        let mut x = v[i];
        x[31] |= 0x80;
        v.push(x);
    }
    v
}
/// A peer value, and what kind it is
fn point(r: &mut Rng) -> ([u8; 32], String) {
    match r.below(9) {
        0 => {
            let l = low_order();
            let i = r.below(l.len());
            (l[i], format!("low order {i}"))
        }
        1 => {
            let k = r.below(19) as i32 - 1;
            (p_plus(k.clamp(-1, 18)), format!("p+{k}"))
        }
        2 => {
            let mut x: [u8; 32] = r.arr();
            x[31] |= 0x80;
            (x, "high bit".into())
        }
        3 => {
            let mut x = [0; 32];
            x[r.below(32)] = r.u8();
            (x, "one byte".into())
        }
        4 => {
            let mut x: [u8; 32] = r.arr();
            let n = r.range(1, 31);
            x[..n].fill(0);
            (x, format!("{n} zero bytes first"))
        }
        5 => {
            let mut x: [u8; 32] = r.arr();
            let n = r.range(1, 31);
            x[32 - n..].fill(0);
            (x, format!("{n} zero bytes last"))
        }
        6 => {
            let mut x = [0xff; 32];
            x[r.below(32)] = r.u8();
            (x, "ones".into())
        }
        _ => (ossl::x25519_public(&r.arr()), "public key".into()),
    }
}
fn scalar(r: &mut Rng) -> [u8; 32] {
    match r.below(6) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => {
            let mut x = [0; 32];
            x[r.below(32)] = 1 << r.below(8);
            x
        }
        3 => {
            let mut x: [u8; 32] = r.arr();
            let n = r.range(1, 20);
            if r.bool() {
                x[..n].fill(0)
            } else {
                x[32 - n..].fill(0)
            };
            x
        }
        _ => r.arr(),
    }
}
fn zeros(b: &[u8]) -> &'static str {
    match (b[0] == 0, b[b.len() - 1] == 0) {
        (false, false) => "",
        (true, false) => "z-",
        (false, true) => "-z",
        _ => "z-z",
    }
}
/// A secret for which f(secret) begins or ends with a zero byte
fn grind(r: &mut Rng, f: impl Fn(&[u8; 32]) -> Option<[u8; 32]>) -> [u8; 32] {
    let last = r.bool();
    loop {
        let s: [u8; 32] = r.arr();
        if let Some(v) = f(&s) {
            if v[if last { 31 } else { 0 }] == 0 && v != [0; 32] {
                return s;
            }
        }
    }
}

fn curve(c: &mut Case) {
    let cv = Curve::curve25519();
    for _ in 0..8 {
        let k = scalar(&mut c.rng);
        let (u, kind) = point(&mut c.rng);
        let want = ossl::x25519(&k, &u).unwrap_or([0; 32]);
        let what = || format!("scalar {} u {} ({kind})", hex(&k), hex(&u));
        let Some(p) = c.eut("multiply", what, || math::multiply(&Point::new(be(&u), IBig::from(0)), be(&k), &cv)) else { return };
        c.check(unbe(&p.x) == Some(want), "X25519 differs", || format!("{}: {} instead of {}", what(), p.x, hex(&want)));
        c.ev(format!("m {kind} {} {}", zeros(&want), zeros(&k)));
        // public keys
        let k = if c.rng.one_in(8) { grind(&mut c.rng, |s| Some(ossl::x25519_public(s))) } else { k };
        let want = ossl::x25519_public(&k);
        let Some(p) = c.eut("public key", || hex(&k), || PrivateKey::new(Curve::curve25519(), be(&k)).get_public_key()) else { return };
        c.check(unbe(&p.point.x) == Some(want), "public key differs", || format!("scalar {}: {} instead of {}", hex(&k), p.point.x, hex(&want)));
        c.ev(format!("pub {}", zeros(&want)));
        c.count("public keys with a zero byte at an end", !zeros(&want).is_empty() as u64);
    }
}
fn schedule(c: &mut Case) {
    let k = scalar(&mut c.rng);
    let (u, kind) = match c.rng.below(4) {
        0 => {
            let s = grind(&mut c.rng, |s| ossl::x25519(&k, &ossl::x25519_public(s)));
            (ossl::x25519_public(&s), "zero byte in the secret".to_string())
        }
        _ => point(&mut c.rng),
    };
    let sha384 = c.rng.bool();
    let mut ts: Box<dyn TranscriptHash> = if sha384 { Box::new(Sha384::new()) } else { Box::new(Sha256::new()) };
    let n = c.rng.below(300);
    let t = c.rng.bytes(n);
    ts.update(&t);
    let suite = if sha384 { AES256 } else { AES128 };
    let (h, _) = suite_ha(suite).unwrap();
    let shared = ossl::x25519(&k, &u);
    let what = || format!("scalar {} u {} ({kind})", hex(&k), hex(&u));
    let Some(r) = c.eut("key schedule", what, || {
        let key = PrivateKey::new(Curve::curve25519(), be(&k));
        KeySchedule::from_handshake(&*ts, &key, &KeyShareEntry::new(NamedGroup::X25519, u.to_vec())).map(|s| {
            (s.client_handshake_traffic_secret.pseudo_random_key.clone(), s.server_handshake_traffic_secret.pseudo_random_key.clone(), s.hkdf_master_secret.pseudo_random_key.clone())
        })
    }) else {
        return;
    };
    c.ev(format!("ks {sha384} {kind} {}", shared.map(|s| zeros(&s)).unwrap_or("refused")));
    match shared {
        Some(s) => {
            let e = handshake_secrets(suite, &s, &ossl::digest(h, &t));
            c.check(r.ok() == Some((e.chs, e.shs, e.master)), "traffic secrets differ", what);
            c.count("secrets with a zero byte at an end", !zeros(&s).is_empty() as u64);
        }
        None => {
            c.check(r.is_err(), "all-zero shared secret accepted", what);
            c.count("all-zero shared secrets", 1);
        }
    }
    // any other length
    let l = *c.rng.pick(&[0, 1, 16, 31, 33, 64, 255]);
    let b = c.rng.bytes(l);
    let Some(r) = c.eut("key schedule", || format!("share of {l} bytes"), || {
        let key = PrivateKey::new(Curve::curve25519(), be(&k));
        KeySchedule::from_handshake(&*ts, &key, &KeyShareEntry::new(NamedGroup::X25519, b.clone())).is_ok()
    }) else {
        return;
    };
    c.check(!r, "share of wrong length accepted", || format!("{l} bytes"));
}
fn echo(c: &mut Case, l: &mut Link, what: &str) -> bool {
    let n = c.rng.range(1, 100);
    let d = c.rng.bytes(n);
    let r = l.tx().seal(APP, &d, 0);
    l.eut.conn.feed(&r);
    l.eut.read(200);
    match l.eut.wait(c) {
        Status::Done(Res::Ok(x)) if x == d => {}
        s => {
            c.fail("keys differ", format!("{what}: reading: {s:?}"));
            return false;
        }
    }
    l.eut.write(d.clone());
    let st = l.eut.wait(c);
    let out = l.eut.conn.take();
    match (st, open_app(l.rx(), &out)) {
        (Status::Done(Res::Ok(_)), Ok(o)) if o.data == d => true,
        (s, o) => {
            c.fail("keys differ", format!("{what}: writing: {s:?} {:?}", o.err()));
            false
        }
    }
}
/// Handshakes with a server whose share is known beforehand
fn server(c: &mut Case, w: &World, share: &[u8; 32]) {
    let mut h = Hello::new(&mut c.rng);
    h.suites = vec![*c.rng.pick(&SUITES)];
    let kind = match c.rng.below(3) {
        0 => {
            h.secret = grind(&mut c.rng, |s| ossl::x25519(s, share));
            "zero byte in the secret"
        }
        1 => {
            h.secret = grind(&mut c.rng, |s| Some(ossl::x25519_public(s)));
            "zero byte in the client's share"
        }
        _ => "random",
    };
    let p = ossl::x25519_public(&h.secret);
    h.set_ext(0x33, ks_client(&[(X25519, p.to_vec())]));
    let z = ossl::x25519(&h.secret, share).unwrap();
    let srv = w.simple_server();
    let mut o = Opts::new(h.suites[0]);
    let what = format!("server, {kind}: client secret {} server share {}", hex(&h.secret), hex(share));
    o.hello = Some(h);
    match link_server(c, w, &srv, o) {
        Ok(mut l) => {
            c.ev(format!("server {kind} {} {}", zeros(&z), zeros(&p)));
            c.count("handshakes with a zero byte at an end of the secret", !zeros(&z).is_empty() as u64);
            if l.sess.sh.as_ref().unwrap().share != *share {
                c.count("server share changed", 1);
            }
            echo(c, &mut l, &what);
            c.sample(kind, || what);
        }
        Err(e) => c.fail("handshake fails", format!("{what}: {e}")),
    }
}
/// Fresh shares of the server
fn server_share(c: &mut Case, w: &World, srv: &Arc<anothertls::ServerConnection>) {
    let o = Opts::new(*c.rng.pick(&SUITES));
    match link_server(c, w, srv, o) {
        Ok(mut l) => {
            let s = l.sess.sh.as_ref().unwrap().share;
            c.ev(format!("server share {}", hex(&s[..2])));
            c.count("own shares with a zero byte at an end", !zeros(&s).is_empty() as u64);
            echo(c, &mut l, &format!("server share {}", hex(&s)));
        }
        Err(e) => c.fail("handshake fails", e),
    }
}
fn client(c: &mut Case, w: &World) {
    let cfg = w.client_cfg(false);
    let (mut eut, info, raw) = match start_client(c, &cfg, Caps::All, Caps::All, NOW) {
        Ok(x) => x,
        Err(e) => {
            c.fail("no ClientHello", e);
            return;
        }
    };
    let suite = *c.rng.pick(&SUITES);
    let mut spec = ServerSpec::new(suite, &w.server, &mut c.rng);
    let kind = match c.rng.below(3) {
        0 => {
            spec.secret = grind(&mut c.rng, |s| ossl::x25519(s, &info.share));
            "zero byte in the secret"
        }
        1 => {
            spec.secret = grind(&mut c.rng, |s| Some(ossl::x25519_public(s)));
            "zero byte in the server's share"
        }
        _ => "random",
    };
    let z = ossl::x25519(&spec.secret, &info.share).unwrap();
    let what = format!("client, {kind}: server secret {} client share {}", hex(&spec.secret), hex(&info.share));
    let (mut sess, plain, prot) = match server_flight(&spec, &info, &raw, &mut no_edit) {
        Ok(x) => x,
        Err(e) => {
            c.fail("client share", e);
            return;
        }
    };
    let mut b = record(HS, &plain.concat());
    for r in protect(&mut sess.s_hs, &prot, Framing::PerMessage, 0, &mut c.rng) {
        b.extend(r);
    }
    eut.conn.feed(&b);
    let st = eut.wait(c);
    let out = eut.conn.take();
    if !matches!(st, Status::Done(Res::Ok(_))) {
        c.fail("handshake fails", format!("{what}: {st:?}"));
        return;
    }
    if let Err(e) = sess.server_process(&out) {
        c.fail("handshake fails", format!("{what}: {e}"));
        return;
    }
    c.ev(format!("client {kind} {} {}", zeros(&z), zeros(&info.share)));
    c.count("own shares with a zero byte at an end", !zeros(&info.share).is_empty() as u64);
    c.count("handshakes with a zero byte at an end of the secret", !zeros(&z).is_empty() as u64);
    let hs_out = eut.conn.sent_len();
    let mut l = Link { eut, sess, eut_is_server: false, hs_out };
    echo(c, &mut l, &what);
}
/// Shares that must end the handshake
fn degenerate(c: &mut Case, w: &World) {
    let server = c.idx % 2 == 0;
    let low = low_order();
    let i = c.idx / 2 % (low.len() + 8);
    let (share, kind) = if i < low.len() {
        (low[i].to_vec(), format!("low order {i}"))
    } else {
        let l = [0, 1, 16, 31, 33, 40, 64, 200][i - low.len()];
        (c.rng.bytes(l), format!("{l} bytes"))
    };
    let suite = *c.rng.pick(&SUITES);
    let role = if server { "server" } else { "client" };
    let (st, out, mut eut): (Status, Vec<u8>, Eut) = if server {
        let mut e = Eut::new(Some(NOW));
        let srv = w.server(false);
        e.accept(&srv);
        let mut h = Hello::new(&mut c.rng);
        h.suites = vec![suite];
        h.set_ext(0x33, ks_client(&[(X25519, share.clone())]));
        e.conn.feed(&record(HS, &h.msg()));
        (e.wait(c), e.conn.take(), e)
    } else {
        let cfg = w.client_cfg(false);
        let (mut e, info, raw) = match start_client(c, &cfg, Caps::All, Caps::All, NOW) {
            Ok(x) => x,
            Err(e) => {
                c.fail("no ClientHello", e);
                return;
            }
        };
        let spec = ServerSpec::new(suite, &w.server, &mut c.rng);
        let me = ossl::x25519_public(&spec.secret);
        let mut edit = |l: &'static str, m: Vec<u8>| {
            if l != "ServerHello" {
                return vec![m];
            }
            // exchange the share and correct the lengths around it
            let p = m.windows(32).position(|x| x == me).unwrap();
            let mut b = m[4..p - 8].to_vec();
            let mut ks = u16b(X25519 as usize).to_vec();
            ks.extend(vec16(&share));
            b.extend(ext(0x33, &ks));
            // the length of all extensions sits behind version, random, session id, suite, compression
            let q = 2 + 32 + 1 + b[34] as usize + 3;
            let n = b.len() - q - 2;
            b[q..q + 2].copy_from_slice(&u16b(n));
            vec![msg(SH, &b)]
        };
        let (mut sess, plain, prot) = server_flight(&spec, &info, &raw, &mut edit).expect("flight");
        // an attacker assumes the all-zero secret
        let th = ossl::digest(sess.h, &[&raw[..], &plain.concat()[..]].concat());
        let z = handshake_secrets(suite, &[0; 32], &th);
        sess.s_hs = Dir::new(suite, &z.shs);
        let mut b = record(HS, &plain.concat());
        let mut t = [raw.clone(), plain.concat()].concat();
        let mut ms = vec![];
        for m in prot {
            let m = match m[0] {
                CV => cv_msg(0x0403, &w.server.key.sign(&cv_digest(true, &ossl::digest(sess.h, &t)))),
                FIN => msg(FIN, &finished(sess.h, &z.shs, &ossl::digest(sess.h, &t))),
                _ => m,
            };
            t.extend(&m);
            ms.push(m);
        }
        for r in protect(&mut sess.s_hs, &ms, Framing::PerMessage, 0, &mut c.rng) {
            b.extend(r);
        }
        e.conn.feed(&b);
        (e.wait(c), e.conn.take(), e)
    };
    c.ev(format!("{role} {kind}"));
    c.count("degenerate shares", 1);
    match st {
        Status::Done(Res::Err(_)) => {
            c.check(records(&out).0.iter().all(|r| r.typ == ALERT), "sends behind a degenerate share", || format!("{role}, {kind}: {}", hex(&out)));
        }
        s => c.fail("degenerate share accepted", format!("{role}, {kind}: {s:?}")),
    }
    eut.finish(c);
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    r.group("curve", r.n(300, 20000), curve);
    r.group("key schedule", r.n(800, 40000), schedule);
    // the share of the simple server is the same in all connections
    let mut share = [9; 32];
    {
        let mut e = Eut::new(Some(NOW));
        e.accept(&w.simple_server());
        let h = Hello::new(&mut Rng::new(1));
        e.conn.feed(&record(HS, &h.msg()));
        let _ = e.try_wait();
        let o = e.conn.take();
        if let Some(Ok(s)) = records(&o).0.first().map(|m| parse_server_hello(&m.body)) {
            share = s.share;
        }
    }
    r.group("server", r.n(300, 6000), |c| server(c, &w, &share));
    r.group("server's own shares", r.n(500, 12000), |c| {
        let s = w.server(false);
        server_share(c, &w, &s)
    });
    r.group("client", r.n(600, 12000), |c| client(c, &w));
    r.group("degenerate shares", r.n(88, 880), |c| degenerate(c, &w));
    r.require("all-zero shared secrets", 30);
    r.require("handshakes with a zero byte at an end of the secret", 100);
    r.require("own shares with a zero byte at an end", 1);
}
