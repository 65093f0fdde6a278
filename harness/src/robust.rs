//! C13 and C14: hostile bytes at every stage of the server / the client
use crate::der::{self, int, sig_der, CertSpec};
use crate::eut::*;
use crate::hello::{conforming, GREASE, GROUPS};
use crate::mutate;
use crate::ossl::EcKey;
use crate::rep::{hexs, Case, Rep};
use crate::rng::Rng;
use crate::sim::{Caps, Eut, Res, Status};
use crate::tls::*;
use anothertls::net::alert::TlsError;
use anothertls::net::client::ClientConfig;
use anothertls::ServerConnection;
use std::sync::Arc;

pub const RULE: &str = "distinct = (stage, kind of hostile input, suite, how the call ended, what the following reads said)";

pub struct Set {
    pub w: World,
    pub server: bool,
    /// C23 and others: what is judged is something else than how the endpoint survives
    pub watch: Option<crate::c23::Windows>,
    pub judge: Judge,
    srv: Vec<(bool, Arc<ServerConnection>)>,
    cfg: Vec<(bool, Arc<ClientConfig>)>,
}
/// Looks at an endpoint after its connection: role, kind of input, details
pub type Judge = fn(&mut Case, &Set, &mut At, &str, &dyn Fn() -> String);
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stage {
    Start,
    Keys,
    Data,
}
/// An endpoint under test at some stage, and what is needed to go on with it
pub struct At<'a> {
    pub e: Eut,
    pub stage: Stage,
    pub suite: u16,
    /// application data written by the endpoint
    pub written: Vec<Vec<u8>>,
    /// honest next message in the clear (ServerHello for the client under test)
    plain: Vec<u8>,
    hs: Option<Dir>,
    ap: Option<Dir>,
    pub sess: Option<Session>,
    info: Option<(ClientHelloInfo, Vec<u8>)>,
    spec: Option<ServerSpec<'a>>,
    srv: usize,
}

fn reach<'a>(c: &mut Case, s: &'a Set, stage: Stage, recv: Caps, auth: bool) -> Option<At<'a>> {
    let suite = *c.rng.pick(&SUITES);
    let i = if auth { 1 } else { c.rng.below(2) };
    if s.server {
        let (auth, srv) = &s.srv[i];
        if stage == Stage::Data {
            let mut o = Opts::new(suite);
            o.client_auth = *auth;
            return match link_server(c, &s.w, srv, o) {
                Ok(l) => {
                    l.eut.conn.set_caps(recv, Caps::All);
                    Some(At { e: l.eut, stage, suite, written: vec![], plain: vec![], hs: Some(l.sess.c_hs.clone()), ap: Some(l.sess.c_ap.clone()), sess: Some(l.sess), info: None, spec: None, srv: i })
                }
                Err(x) => {
                    c.inconclusive(&x.chars().take(60).collect::<String>());
                    None
                }
            };
        }
        let mut e = Eut::new(Some(NOW));
        e.conn.set_caps(recv, Caps::All);
        e.accept(srv);
        let mut h = Hello::new(&mut c.rng);
        h.suites = vec![suite];
        let m = h.msg();
        if stage == Stage::Start {
            return Some(At { e, stage, suite, written: vec![], plain: m, hs: None, ap: None, sess: None, info: None, spec: None, srv: i });
        }
        e.conn.feed(&record(HS, &m));
        let st = e.wait(c);
        let out = e.conn.take();
        match client_process(&out, &h, &m) {
            Ok(x) if st.blocked() => Some(At { e, stage, suite, written: vec![], plain: m, hs: Some(x.c_hs.clone()), ap: Some(x.c_ap.clone()), sess: Some(x), info: None, spec: None, srv: i }),
            _ => {
                c.inconclusive("no server flight");
                None
            }
        }
    } else {
        let (auth, cfg) = &s.cfg[i];
        if stage == Stage::Data {
            let mut o = Opts::new(suite);
            o.client_auth = *auth;
            return match link_client(c, &s.w, cfg, o) {
                Ok(l) => {
                    l.eut.conn.set_caps(recv, Caps::All);
                    Some(At { e: l.eut, stage, suite, written: vec![], plain: vec![], hs: Some(l.sess.s_hs.clone()), ap: Some(l.sess.s_ap.clone()), sess: Some(l.sess), info: None, spec: None, srv: i })
                }
                Err(x) => {
                    c.inconclusive(&x.chars().take(60).collect::<String>());
                    None
                }
            };
        }
        let (e, info, raw) = match start_client(c, cfg, recv, Caps::All, NOW) {
            Ok(x) => x,
            Err(x) => {
                c.inconclusive(&x.chars().take(60).collect::<String>());
                return None;
            }
        };
        let mut spec = ServerSpec::new(suite, &s.w.server, &mut c.rng);
        if c.rng.bool() {
            spec.request = Some(vec![1, 2, 3]);
        }
        let plain = server_hello_msg(&spec, &info);
        if stage == Stage::Start {
            return Some(At { e, stage, suite, written: vec![], plain, hs: None, ap: None, sess: None, info: Some((info, raw)), spec: Some(spec), srv: i });
        }
        let (x, p, _) = server_flight(&spec, &info, &raw, &mut no_edit).unwrap();
        e.conn.feed(&record(HS, &p[0]));
        Some(At { e, stage, suite, written: vec![], plain: p[0].clone(), hs: Some(x.s_hs.clone()), ap: Some(x.s_ap.clone()), sess: Some(x), info: Some((info, raw)), spec: Some(spec), srv: i })
    }
}
fn label(s: &Status) -> String {
    match s {
        Status::Done(Res::Ok(_)) => "ok".into(),
        Status::Done(Res::Err(e)) => format!("{e:?}"),
        Status::Done(Res::Panic(_)) => "panic".into(),
        Status::Blocked => "waits".into(),
    }
}
/// Heap the endpoint may use at its peak: a message can be 128 KiB, and parsing keeps some copies
const HEAP: u64 = 2 << 20;

/// Lets the endpoint work on what was fed, to the end of the connection
fn settle(c: &mut Case, s: &Set, a: &mut At, kind: &str, detail: &dyn Fn() -> String) {
    settle_inner(c, s, a, kind, detail);
    if s.watch.is_some() {
        (s.judge)(c, s, a, kind, detail);
    }
}
fn panicked(c: &mut Case, s: &Set, a: &At, p: &str, what: String, detail: &dyn Fn() -> String) {
    if s.watch.is_some() {
        return c.count("panics (judged by C13 and C14)", 1);
    }
    c.fail(&format!("panic: {}", site(p)), format!("{:?} {what}: {p}: {}", a.stage, detail()));
}
fn settle_inner(c: &mut Case, s: &Set, a: &mut At, kind: &str, detail: &dyn Fn() -> String) {
    let mut st = a.e.wait(c);
    if st.blocked() {
        if c.rng.one_in(4) {
            a.e.conn.rst();
        } else {
            a.e.conn.eof();
        }
        st = a.e.wait(c);
    }
    let mut last = label(&st);
    let first = last.clone();
    let mut reads = 0;
    if let Status::Done(Res::Panic(p)) = &st {
        return panicked(c, s, a, p, kind.to_string(), detail);
    }
    // the application goes on with the stream
    if a.stage == Stage::Data || matches!(st, Status::Done(Res::Ok(_))) {
        let n = *c.rng.pick(&[1usize, 17, 4096, 20000]);
        while reads < 60_000 {
            a.e.read(n);
            let mut st = a.e.wait(c);
            if st.blocked() {
                a.e.conn.eof();
                st = a.e.wait(c);
            }
            reads += 1;
            last = label(&st);
            match st {
                Status::Done(Res::Ok(_)) => continue,
                Status::Done(Res::Panic(p)) => {
                    return panicked(c, s, a, &p, format!("{kind}, tls_read"), detail);
                }
                _ => break,
            }
        }
        let n = *c.rng.pick(&[0usize, 1, 100, 16384, 16385]);
        let steps: [u8; 3] = c.rng.arr();
        for k in steps {
            match k % 4 {
                0 => {
                    let d = c.rng.bytes(n);
                    a.written.push(d.clone());
                    a.e.write(d)
                }
                1 => a.e.read(10),
                2 => a.e.alert(TlsError::CloseNotify),
                _ => a.e.write(vec![]),
            }
            let mut st = a.e.wait(c);
            if st.blocked() {
                a.e.conn.eof();
                st = a.e.wait(c);
            }
            if let Status::Done(Res::Panic(p)) = &st {
                return panicked(c, s, a, p, format!("{kind}, call after the end"), detail);
            }
        }
    }
    let peak = a.e.peak();
    if peak > HEAP && s.watch.is_none() {
        c.fail("memory out of proportion", format!("{:?} {kind}: {peak} bytes of heap: {}", a.stage, detail()));
    }
    c.ev(format!("{:?} {kind} {:04x} {first} {last}", a.stage, a.suite));
    c.count(&format!("{:?}: {}", a.stage, if a.stage == Stage::Data { &last } else { &first }), 1);
    c.sample(&format!("{:?} {kind} {first}", a.stage), || format!("{:?} {kind}: {first}, reads {reads} then {last}; {}", a.stage, detail()));
    if s.server && s.watch.is_none() && c.rng.one_in(16) {
        again(c, s, a.srv, kind);
    }
}
/// Where a panic comes from, without the values in its message
fn site(p: &str) -> String {
    let p = p.split(" at ").last().unwrap_or(p);
    p.chars().take(80).collect()
}
/// The same server object serves the next client
fn again(c: &mut Case, s: &Set, i: usize, kind: &str) {
    let (auth, srv) = &s.srv[i];
    let mut o = Opts::new(*c.rng.pick(&SUITES));
    o.client_auth = *auth;
    match link_server(c, &s.w, srv, o) {
        Ok(mut l) => {
            let r = l.tx().seal(APP, b"ping", 0);
            l.eut.conn.feed(&r);
            l.eut.read(10);
            let st = l.eut.wait(c);
            c.check(matches!(&st, Status::Done(Res::Ok(d)) if d == b"ping"), "the next client is not served", || format!("after {kind}: {st:?}"));
            c.count("next clients served", 1);
        }
        Err(e) => c.fail("the next client is not served", format!("after {kind}: {e}")),
    }
}
fn feed(c: &mut Case, a: &At, wire: &[u8]) {
    let _ = c;
    a.e.conn.feed(wire);
}

// ------------------------------------------------------------------ raw bytes and records
fn raw(c: &mut Case, s: &Set) {
    let stage = *c.rng.pick(&[Stage::Start, Stage::Keys, Stage::Data]);
    let caps = Caps::random(&mut c.rng);
    let Some(mut a) = reach(c, s, stage, caps, false) else { return };
    let mut wire = vec![];
    let kind = match c.rng.below(6) {
        0 => {
            let n = *c.rng.pick(&[0usize, 1, 4, 5, 6, 40, 300, 5000, 20000]);
            wire = c.rng.bytes(n);
            "random bytes"
        }
        1 | 2 => {
            for _ in 0..c.rng.range(1, 6) {
                let t = *c.rng.pick(&[0u8, 20, 21, 22, 23, 24, 255]);
                let v = *c.rng.pick(&[0x0301u16, 0x0303, 0x0303, 0x0304, 0, 0xffff]);
                let n = *c.rng.pick(&[0usize, 1, 2, 3, 4, 5, 15, 16, 17, 18, 100, 16384, 16385, 16640, 16641]);
                let b = if c.rng.bool() { c.rng.bytes(n) } else { vec![*c.rng.pick(&[0u8, 1, 2, 0xff]); n] };
                wire.extend(record_v(t, v, &b));
            }
            "random records"
        }
        3 => {
            // length field says something else
            let n = c.rng.range(0, 60);
            let mut r = record(*c.rng.pick(&[20u8, 21, 22, 23]), &c.rng.bytes(n));
            let l = *c.rng.pick(&[0u16, 1, 16383, 16384, 16385, 16640, 16641, 0x7fff, 0x8000, 0xffff]);
            r[3..5].copy_from_slice(&l.to_be_bytes());
            wire.extend(r);
            let n = *c.rng.pick(&[0usize, 10, 20000, 70000]);
            wire.extend(c.rng.bytes(n));
            "lying record length"
        }
        4 => {
            for _ in 0..c.rng.range(1, 5) {
                let b = match c.rng.below(6) {
                    0 => vec![],
                    1 => vec![2],
                    2 => vec![c.rng.u8(), c.rng.u8()],
                    3 => vec![1, 0, 0],
                    4 => vec![c.rng.u8(); 200],
                    _ => vec![2, *c.rng.pick(&[0, 10, 253, 254, 255])],
                };
                wire.extend(record(ALERT, &b));
            }
            "plaintext alerts"
        }
        _ => {
            let t = c.rng.u8();
            let l = *c.rng.pick(&[0u32, 1, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x20001, 0xffffff]);
            let mut m = vec![t, (l >> 16) as u8, (l >> 8) as u8, l as u8];
            let n = c.rng.below(200);
            m.extend(c.rng.bytes(n));
            for p in Framing::random(&mut c.rng).cut(&[m], &mut c.rng) {
                wire.extend(record(HS, &p));
            }
            "handshake header"
        }
    };
    feed(c, &a, &wire);
    settle(c, s, &mut a, kind, &|| hexs(&wire));
}

// ------------------------------------------------------------------ hello messages
fn odd_ext_body(rng: &mut Rng, t: u16) -> Vec<u8> {
    let base: Vec<u8> = match t {
        0x00 => sni_ext("server.test"),
        0x0a => u16list(&[X25519, 0x17]),
        0x0d => u16list(&[0x0403, 0x0804]),
        0x2b => vec![2, 3, 4],
        0x2d => vec![1, 1],
        0x33 => ks_client(&[(X25519, vec![9; 32])]),
        0x10 => vec![0, 3, 2, b'h', b'2'],
        0x29 => rng.bytes(80),
        _ => rng.bytes(6),
    };
    match rng.below(8) {
        0 => vec![],
        1 => vec![0],
        2 => vec![0, 0],
        3 => vec![0xff; rng.range(1, 6)],
        4 => {
            // odd number of list bytes
            let mut b = base;
            b.pop();
            b
        }
        5 => {
            let n = rng.range(1, 2000);
            u16list(&(0..n).map(|_| rng.u16()).collect::<Vec<_>>())
        }
        6 => {
            let n = *rng.pick(&[1usize, 2, 3, 5, 64, 1000]);
            rng.bytes(n)
        }
        _ => mutate::bytes(rng, &base),
    }
}
fn odd_share(rng: &mut Rng) -> Vec<u8> {
    let g = if rng.bool() { X25519 } else { *rng.pick(&GREASE) };
    let n = *rng.pick(&[0usize, 1, 31, 32, 33, 65, 1000]);
    let k = match rng.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let mut v = vec![0; n];
            if n > 0 {
                v[0] = 1;
            }
            v
        }
        _ => rng.bytes(n),
    };
    let mut e = g.to_be_bytes().to_vec();
    e.extend(vec16(&k));
    if rng.one_in(3) {
        // many entries
        for _ in 0..rng.range(1, 300) {
            let (g, _) = *rng.pick(&GROUPS);
            e.extend(g.to_be_bytes());
            e.extend(vec16(&[1]));
        }
    }
    if rng.bool() { vec16(&e) } else { e }
}
fn hello(c: &mut Case, s: &Set) {
    let caps = Caps::random(&mut c.rng);
    let Some(mut a) = reach(c, s, Stage::Start, caps, false) else { return };
    let (kind, m) = match c.rng.below(7) {
        0 | 1 => {
            let b = mutate::bytes(&mut c.rng, &a.plain[4..]);
            ("mutated hello", msg(a.plain[0], &b))
        }
        2 => ("mutated hello with its header", mutate::bytes(&mut c.rng, &a.plain)),
        3 | 4 => {
            let mut h = if s.server { conforming(&mut c.rng) } else { Hello::new(&mut c.rng) };
            if s.server {
                for _ in 0..c.rng.range(1, 3) {
                    let t = *c.rng.pick(&[0u16, 0x0a, 0x0d, 0x2b, 0x2d, 0x33, 0x10, 0x29, 0x15, 0x2c, 0xff01]);
                    let b = if t == 0x33 && c.rng.bool() { odd_share(&mut c.rng) } else { odd_ext_body(&mut c.rng, t) };
                    if c.rng.bool() {
                        h.set_ext(t, b);
                    } else {
                        h.exts.push((t, b));
                    }
                }
                match c.rng.below(6) {
                    0 => h.sid = c.rng.bytes(33),
                    1 => h.suites = vec![],
                    2 => h.compression = vec![],
                    3 => h.exts.clear(),
                    _ => {}
                }
                ("odd hello", h.msg())
            } else {
                // ServerHello from the same kinds of extensions
                let (info, _) = a.info.as_ref().unwrap();
                let mut b = vec![3, 3];
                b.extend(if c.rng.one_in(6) { HRR_RANDOM } else { c.rng.arr::<32>() });
                let sid = if c.rng.one_in(5) { c.rng.bytes(40) } else { info.sid.clone() };
                b.extend(vec8(&sid));
                let su = if c.rng.one_in(5) { c.rng.u16() } else { a.suite };
                b.extend(su.to_be_bytes());
                b.push(if c.rng.one_in(8) { 1 } else { 0 });
                let mut ex = vec![(0x2bu16, vec![3, 4])];
                let mut ks = X25519.to_be_bytes().to_vec();
                ks.extend(vec16(&c.rng.bytes(32)));
                ex.push((0x33, ks));
                for _ in 0..c.rng.range(1, 3) {
                    let t = *c.rng.pick(&[0u16, 0x0a, 0x2b, 0x33, 0x29, 0x2c, 0x10]);
                    let b = if t == 0x33 && c.rng.bool() {
                        let x = odd_share(&mut c.rng);
                        if c.rng.bool() { x } else { x.get(2..).unwrap_or(&[]).to_vec() }
                    } else {
                        odd_ext_body(&mut c.rng, t)
                    };
                    if c.rng.bool() {
                        ex.retain(|e| e.0 != t);
                    }
                    ex.push((t, b));
                }
                b.extend(exts_body(&ex));
                ("odd hello", msg(SH, &b))
            }
        }
        5 => {
            // very long
            let n = *c.rng.pick(&[60_000usize, 120_000, 131_000, 131_072, 140_000, 300_000]);
            let mut b = a.plain[4..].to_vec();
            b.extend(c.rng.bytes(n));
            ("long hello", msg(a.plain[0], &b))
        }
        _ => {
            // many extensions
            let n = c.rng.range(500, 16000);
            let mut h = Hello::new(&mut c.rng);
            let mut t = 1000u16;
            for _ in 0..n {
                h.exts.push((t, vec![]));
                t += 1;
            }
            let m = h.msg();
            if m.len() > 65_000 {
                ("many extensions", m[..60_000].to_vec())
            } else {
                ("many extensions", m)
            }
        }
    };
    let fr = Framing::random(&mut c.rng);
    for p in fr.cut(&[m.clone()], &mut c.rng) {
        let r = record_v(HS, *c.rng.pick(&[0x301, 0x303]), &p);
        a.e.conn.feed(&r);
    }
    settle(c, s, &mut a, kind, &|| format!("{fr:?} {}", hexs(&m)));
}

// ------------------------------------------------------------------ the protected flight
fn odd_sig(rng: &mut Rng, good: &[u8]) -> Vec<u8> {
    match rng.below(9) {
        0 => vec![],
        1 => mutate::der(rng, good),
        2 => mutate::bytes(rng, good),
        3 => {
            let n = *rng.pick(&[33usize, 100, 1000, 16000]);
            let (r, s) = (rng.bytes(n), rng.bytes(n));
            der::seq(&[int(&r), int(&s)])
        }
        4 => sig_der(&[0], &[0]),
        5 => sig_der(&crate::ossl::P256_N, &[1]),
        6 => sig_der(&[1], &crate::ossl::P256_N),
        7 => der::seq(&[der::tlv(2, &[]), der::tlv(2, &[])]),
        _ => der::seq(&[der::tlv(2, &[0x80]), der::tlv(2, &[0xff; 32])]),
    }
}
fn odd_cert(c: &mut Case, key: &EcKey, ca: &EcKey) -> Vec<u8> {
    let mut s = CertSpec::new("x.test", "Test CA", NOW - 1000, NOW + 1000, &key.public, &mut c.rng);
    match c.rng.below(10) {
        0..=2 => {
            let d = s.sign(ca);
            mutate::der(&mut c.rng, &d)
        }
        3 => {
            let d = s.sign(ca);
            mutate::bytes(&mut c.rng, &d)
        }
        4 => {
            // signed correctly, but with an odd key
            let k = match c.rng.below(6) {
                0 => vec![],
                1 => vec![4],
                2 => [vec![4], vec![0; 64]].concat(),
                3 => [vec![4], vec![0xff; 64]].concat(),
                4 => [vec![4], c.rng.bytes(64)].concat(),
                _ => {
                    let n = c.rng.below(5000);
                    c.rng.bytes(n)
                }
            };
            s.spki = der::spki(&k);
            s.sign(ca)
        }
        5 => {
            let n = *c.rng.pick(&[1usize, 100, 5000, 40000]);
            s.serial = int(&c.rng.bytes(n));
            s.sign(ca)
        }
        6 => {
            // a mutated signed part with a right signature
            let t = s.tbs();
            let t = mutate::der(&mut c.rng, &t);
            let sig = ca.sign(&crate::ossl::digest(crate::ossl::H::Sha256, &t));
            let mut b = vec![0];
            b.extend(sig);
            der::seq(&[t, s.outer_alg.clone(), der::tlv(3, &b)])
        }
        7 => {
            let sig = ca.sign(&crate::ossl::digest(crate::ossl::H::Sha256, &s.tbs()));
            let sig = odd_sig(&mut c.rng, &sig);
            s.with_sig(&sig)
        }
        8 => {
            let n = *c.rng.pick(&[10usize, 1000, 60000]);
            s.extensions = Some(vec![der::tlv(4, &c.rng.bytes(n))]);
            s.sign(ca)
        }
        _ => {
            let n = c.rng.below(600);
            c.rng.bytes(n)
        }
    }
}
fn odd_msg(c: &mut Case, m: &[u8]) -> Vec<u8> {
    match c.rng.below(4) {
        0 => msg(m[0], &mutate::bytes(&mut c.rng, &m[4..])),
        1 => mutate::bytes(&mut c.rng, m),
        2 => {
            let n = c.rng.below(m.len() - 3);
            msg(m[0], &m[4..4 + n.min(m.len() - 4)])
        }
        _ => {
            let t = *c.rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 8, 11, 13, 15, 20, 24, 254, 255]);
            msg(t, &m[4..])
        }
    }
}
fn flight(c: &mut Case, s: &Set) {
    let caps = Caps::random(&mut c.rng);
    let target = c.rng.below(5);
    let Some(mut a) = reach(c, s, Stage::Keys, caps, target < 3) else { return };
    let kind = std::cell::RefCell::new(String::new());
    let key = EcKey::random(&mut c.rng);
    let cc = std::cell::RefCell::new(c);
    let ca = &s.w.ca.key;
    let mut edit = |label: &'static str, m: Vec<u8>| -> Vec<Vec<u8>> {
        let c = &mut **cc.borrow_mut();
        let mut k = kind.borrow_mut();
        let hit = match (label, target) {
            ("Certificate", 0 | 1) | ("CertificateVerify", 2) | ("Finished", 3) => true,
            _ => target == 4 && c.rng.one_in(3),
        };
        if !hit {
            return vec![m];
        }
        *k += &format!("odd {label} ");
        let ctx = parse_certificate(&m).map(|x| x.0).unwrap_or_default();
        vec![match label {
            "Certificate" if !c.rng.one_in(4) => {
                let d = odd_cert(c, &key, ca);
                let x = match c.rng.below(4) {
                    0 => c.rng.bytes(50),
                    _ => vec![],
                };
                if c.rng.one_in(6) {
                    let n = c.rng.range(2, 50);
                    certificate_msg(&ctx, &vec![(d.into_iter().take(1500).collect(), x); n])
                } else {
                    certificate_msg(&ctx, &[(d, x)])
                }
            }
            "CertificateVerify" if !c.rng.one_in(4) => {
                let sig = m.get(8..).unwrap_or(&[]).to_vec();
                let scheme = if c.rng.one_in(4) { c.rng.u16() } else { 0x0403 };
                cv_msg(scheme, &odd_sig(&mut c.rng, &sig))
            }
            _ => odd_msg(c, &m),
        }]
    };
    let msgs = if s.server {
        let sess = a.sess.as_mut().unwrap();
        let chain = vec![(s.w.client.der.clone(), vec![])];
        let auth = ClientAuth { chain, key: Some(if target == 0 { &key } else { &s.w.client.key }) };
        let auth = if sess.cert_request.is_some() { Some(&auth) } else { None };
        sess.client_flight(auth, &mut edit)
    } else {
        let (info, raw) = a.info.as_ref().unwrap();
        let mut spec = a.spec.take().unwrap();
        if target == 0 {
            spec.key = &key;
        }
        // the same ServerHello again, so the keys are those already in use
        match server_flight(&spec, info, raw, &mut edit) {
            Ok(x) => x.2,
            Err(_) => return,
        }
    };
    let c = cc.into_inner();
    let fr = Framing::random(&mut c.rng);
    let mut d = a.hs.clone().unwrap();
    let n = msgs.iter().map(|m| m.len()).sum::<usize>();
    if n > 400_000 {
        return;
    }
    for r in protect(&mut d, &msgs, fr, 0, &mut c.rng) {
        a.e.conn.feed(&r);
    }
    let k = kind.into_inner();
    settle(c, s, &mut a, k.trim(), &|| format!("{fr:?} {}", msgs.iter().map(|m| hexs(m)).collect::<Vec<_>>().join(" | ")));
}

// ------------------------------------------------------------------ odd content under the right keys
fn sealed(c: &mut Case, s: &Set) {
    let stage = *c.rng.pick(&[Stage::Keys, Stage::Data, Stage::Data]);
    let caps = Caps::random(&mut c.rng);
    let Some(mut a) = reach(c, s, stage, caps, false) else { return };
    let mut d = if stage == Stage::Keys && !c.rng.one_in(5) { a.hs.clone().unwrap() } else { a.ap.clone().unwrap() };
    let mut what = vec![];
    let mut wire = vec![];
    let mut kind = "";
    for _ in 0..c.rng.range(1, 4) {
        let outer = if c.rng.one_in(10) { *c.rng.pick(&[20u8, 21, 22, 24]) } else { APP };
        let ver = if c.rng.one_in(10) { c.rng.u16() } else { 0x0303 };
        let inner: Vec<u8> = match c.rng.below(12) {
            0 => {
                kind = "empty inner plaintext";
                vec![]
            }
            1 => {
                kind = "only padding";
                vec![0; *c.rng.pick(&[1usize, 2, 255, 16384, 16385])]
            }
            2 => {
                kind = "unknown inner type";
                let n = c.rng.below(50);
                let mut v = c.rng.bytes(n);
                v.push(*c.rng.pick(&[1u8, 19, 24, 25, 128, 255]));
                v
            }
            3 => {
                kind = "too long";
                let n = *c.rng.pick(&[16384usize, 16385, 16400, 16623]);
                let mut v = vec![b'a'; n];
                v.push(23);
                v
            }
            4 => {
                kind = "alert of odd length";
                let n = *c.rng.pick(&[0usize, 1, 3, 4, 100]);
                let mut v = c.rng.bytes(n);
                v.push(ALERT);
                v
            }
            5 => {
                kind = "change_cipher_spec inside";
                vec![1, CCS]
            }
            6 => {
                kind = "empty record of a type";
                vec![*c.rng.pick(&[20u8, 21, 22, 23])]
            }
            7 => {
                kind = "handshake message";
                let t = c.rng.u8();
                let n = c.rng.below(100);
                let mut v = msg(t, &c.rng.bytes(n));
                v.push(HS);
                v
            }
            8 => {
                kind = "ticket";
                let good = msg(NST, &[0, 0, 0, 9, 1, 2, 3, 4, 1, 7, 0, 2, 8, 8, 0, 0]);
                let mut v = odd_msg(c, &good);
                v.push(HS);
                v
            }
            9 => {
                kind = "handshake header only";
                let n = c.rng.below(5);
                let mut v = c.rng.bytes(n);
                v.push(HS);
                v
            }
            10 => {
                kind = "application data";
                let n = *c.rng.pick(&[0usize, 1, 100, 16384]);
                let mut v = vec![b'x'; n];
                v.push(APP);
                v.extend(vec![0; *c.rng.pick(&[0usize, 0, 1, 200])]);
                v
            }
            _ => {
                kind = "random inner plaintext";
                let n = c.rng.below(300);
                c.rng.bytes(n)
            }
        };
        let inner = if inner.len() > 16623 { inner[..16623].to_vec() } else { inner };
        what.push(hexs(&inner));
        wire.extend(d.seal_inner(outer, ver, &inner));
    }
    feed(c, &a, &wire);
    settle(c, s, &mut a, kind, &|| what.join(" | "));
}

// ------------------------------------------------------------------ the connection ends anywhere
fn ends(c: &mut Case, s: &Set) {
    let suite = SUITES[c.idx % 3];
    let at = c.idx;
    if s.server {
        let i = c.rng.below(2);
        let (auth, srv) = &s.srv[i];
        let mut e = Eut::new(Some(NOW));
        e.accept(srv);
        let mut h = Hello::new(&mut c.rng);
        h.suites = vec![suite];
        let m = h.msg();
        let first = record(HS, &m);
        let mut a = At { e, stage: Stage::Start, suite, written: vec![], plain: m.clone(), hs: None, ap: None, sess: None, info: None, spec: None, srv: i };
        let reset = c.rng.one_in(3);
        if at < first.len() {
            a.e.conn.feed(&first[..at]);
            a.e.wait(c);
            if reset {
                a.e.conn.rst();
            }
            settle(c, s, &mut a, "connection ends in the ClientHello", &|| format!("after {at} bytes"));
            return;
        }
        a.e.conn.feed(&first);
        a.e.wait(c);
        let out = a.e.conn.take();
        let Ok(mut sess) = client_process(&out, &h, &m) else {
            c.inconclusive("no server flight");
            return;
        };
        let who = ClientAuth { chain: vec![(s.w.client.der.clone(), vec![])], key: Some(&s.w.client.key) };
        let fl = sess.client_flight(if *auth { Some(&who) } else { None }, &mut no_edit);
        let mut d = sess.c_hs.clone();
        let mut wire = record(CCS, &[1]);
        for r in protect(&mut d, &fl, Framing::PerMessage, 0, &mut c.rng) {
            wire.extend(r);
        }
        wire.extend(sess.c_ap.seal(APP, b"0123456789", 3));
        let k = (at - first.len()) % (wire.len() + 1);
        a.e.conn.feed(&wire[..k]);
        a.stage = Stage::Keys;
        a.sess = Some(sess);
        a.e.wait(c);
        if reset {
            a.e.conn.rst();
        }
        settle(c, s, &mut a, "connection ends in the second flight", &|| format!("after {k} bytes"));
    } else {
        let i = c.rng.below(2);
        let cfg = &s.cfg[i].1;
        let Ok((e, info, raw)) = start_client(c, cfg, Caps::All, Caps::All, NOW) else {
            c.inconclusive("no ClientHello");
            return;
        };
        let spec = ServerSpec::new(suite, &s.w.server, &mut c.rng);
        let Ok((mut sess, plain, prot)) = server_flight(&spec, &info, &raw, &mut no_edit) else { return };
        let mut wire = record(HS, &plain[0]);
        wire.extend(record(CCS, &[1]));
        let mut d = sess.s_hs.clone();
        for r in protect(&mut d, &prot, Framing::PerMessage, 0, &mut c.rng) {
            wire.extend(r);
        }
        wire.extend(sess.s_ap.seal(APP, b"0123456789", 3));
        let k = at % (wire.len() + 1);
        let mut a = At { e, stage: Stage::Start, suite, written: vec![], plain: vec![], hs: None, ap: None, sess: None, info: None, spec: None, srv: 0 };
        a.sess = Some(sess);
        if c.rng.one_in(4) {
            // writing fails from now on
            let n = a.e.conn.with(|i| i.sends) as usize + c.rng.below(3);
            a.e.conn.fail_send_at(Some(n));
        }
        a.e.conn.feed(&wire[..k]);
        a.e.wait(c);
        if c.rng.one_in(3) {
            a.e.conn.rst();
        }
        settle(c, s, &mut a, "connection ends in the server's flight", &|| format!("after {k} bytes"));
    }
}

// ------------------------------------------------------------------ floods
fn flood(c: &mut Case, s: &Set) {
    let stage = *c.rng.pick(&[Stage::Start, Stage::Keys, Stage::Data]);
    let Some(mut a) = reach(c, s, stage, Caps::All, false) else { return };
    let mut d = match stage {
        Stage::Start => None,
        Stage::Keys => a.hs.clone(),
        Stage::Data => a.ap.clone(),
    };
    let big = c.thorough();
    let kind;
    let k = c.rng.below(8);
    let rounds = if big { 40 } else { 10 };
    let mut total = 0usize;
    let key_cert = vec![b'c'; 16384];
    let names = ["change_cipher_spec", "empty handshake records", "one-byte fragments of a huge message", "endless message", "empty application data", "tickets", "maximum records", "unfinished message"];
    kind = names[k];
    a.e.reset_peak();
    for round in 0..rounds {
        let mut wire = vec![];
        for j in 0..2000 {
            let (t, b): (u8, Vec<u8>) = match k {
                0 => (CCS, vec![1]),
                1 => (HS, vec![]),
                2 | 3 => {
                    let first = round == 0 && j == 0;
                    if first {
                        (HS, vec![if s.server { 1 } else { 2 }, 0xff, 0xff, 0xff])
                    } else {
                        (HS, vec![0; if k == 2 { 1 } else { 1000 }])
                    }
                }
                4 => (APP, vec![]),
                5 => (HS, msg(NST, &[0, 0, 0, 9, 1, 2, 3, 4, 1, 7, 0, 2, 8, 8, 0, 0])),
                6 => {
                    if j % 50 != 0 {
                        continue;
                    }
                    (if stage == Stage::Data { APP } else { HS }, key_cert.clone())
                }
                _ => {
                    // the largest allowed message, but it never ends
                    if round == 0 && j == 0 {
                        (HS, vec![if s.server { 1 } else { 2 }, 1, 0xff, 0xff])
                    } else if (round * 2000 + j) * 100 < 0x1ff00 {
                        (HS, vec![0; 100])
                    } else {
                        (HS, vec![])
                    }
                }
            };
            let r = match (&mut d, t) {
                (Some(d), t) if t != CCS => d.seal(t, &b, 0),
                _ => record(t, &b),
            };
            wire.extend(r);
        }
        total += wire.len();
        a.e.conn.feed(&wire);
        let st = a.e.wait(c);
        match st {
            Status::Blocked => {}
            Status::Done(Res::Ok(_)) if stage == Stage::Data => {
                // the application reads what there is
                loop {
                    if a.e.conn.unread() == 0 {
                        break;
                    }
                    a.e.read(50_000);
                    match a.e.wait(c) {
                        Status::Done(Res::Ok(_)) => {}
                        _ => break,
                    }
                }
                if !a.e.try_wait().map(|s| s.blocked() || matches!(s, Status::Done(Res::Ok(_)))).unwrap_or(false) {
                    break;
                }
            }
            _ => break,
        }
    }
    c.count("bytes of flood", total as u64);
    // settle() continues reads only when no call is running
    let mut st = a.e.wait(c);
    if st.blocked() {
        a.e.conn.eof();
        st = a.e.wait(c);
    }
    if let Status::Done(Res::Panic(p)) = &st {
        return panicked(c, s, &a, p, format!("flood of {kind}"), &|| String::new());
    }
    settle(c, s, &mut a, &format!("flood of {kind}"), &|| format!("{total} bytes"));
}

/// Writes of the endpoint fail at any point
fn broken_writes(c: &mut Case, s: &Set) {
    let suite = *c.rng.pick(&SUITES);
    let n = c.rng.below(6);
    if s.server {
        let i = c.rng.below(2);
        let mut e = Eut::new(Some(NOW));
        e.conn.fail_send_at(Some(n));
        e.accept(&s.srv[i].1);
        let mut h = Hello::new(&mut c.rng);
        h.suites = vec![suite];
        e.conn.feed(&record(HS, &h.msg()));
        let mut a = At { e, stage: Stage::Start, suite, written: vec![], plain: vec![], hs: None, ap: None, sess: None, info: None, spec: None, srv: i };
        settle(c, s, &mut a, "writes fail", &|| format!("from the {n}th write on"));
    } else {
        let mut e = Eut::new(Some(NOW));
        e.conn.fail_send_at(Some(n % 2));
        e.connect(&s.cfg[c.rng.below(2)].1);
        let mut a = At { e, stage: Stage::Start, suite, written: vec![], plain: vec![], hs: None, ap: None, sess: None, info: None, spec: None, srv: 0 };
        settle(c, s, &mut a, "writes fail", &|| format!("from the {n}th write on"));
    }
}

fn run(r: &Rep, server: bool) {
    let w = World::new(r.seed);
    let srv = vec![(false, w.server(false)), (true, w.server(true))];
    let cfg = vec![(false, w.client_cfg(false)), (true, w.client_cfg(true))];
    let s = Set { w, server, watch: None, judge: |_, _, _, _, _| (), srv, cfg };
    r.group("raw", r.n(2500, 60000), |c| raw(c, &s));
    r.group("hello", r.n(4000, 120_000), |c| hello(c, &s));
    r.group("flight", r.n(4000, 100_000), |c| flight(c, &s));
    r.group("sealed", r.n(3000, 60_000), |c| sealed(c, &s));
    r.group("ends", r.n(1800, 10_000), |c| ends(c, &s));
    r.group("writes", r.n(60, 600), |c| broken_writes(c, &s));
    r.group("flood", r.n(60, 600), |c| flood(c, &s));
    // what the other checks do with endpoints
    let judge = if server { server_seen } else { client_seen };
    #[cfg(feature = "c01")]
    r.watch("C01", 3, judge, crate::c01::run);
    #[cfg(feature = "c02")]
    r.watch("C02", 4, judge, crate::c02::run);
    #[cfg(feature = "c08")]
    if server {
        r.watch("C08", 3, judge, crate::c08::run);
    }
    #[cfg(feature = "c09")]
    if !server {
        r.watch("C09", 3, judge, crate::c09::run);
    }
    #[cfg(feature = "c10")]
    if !server {
        r.watch("C10", 3, judge, crate::c10::run);
    }
    #[cfg(feature = "c11")]
    if server {
        r.watch("C11", 3, judge, crate::c11::run);
    }
    #[cfg(feature = "c12")]
    r.watch("C12", 4, judge, crate::c12::run);
    #[cfg(feature = "c19")]
    r.watch("C19", 4, judge, crate::c19::run);
    #[cfg(feature = "c20")]
    r.watch("C20", 4, judge, crate::c20::run);
    #[cfg(feature = "c27")]
    r.watch("C27", 4, judge, crate::c27::run);
    r.require("endpoints in the workloads of other checks", 0);
    // the same with all the logging there is
    crate::sim::talkative();
    r.group("logging hello", r.n(1500, 30_000), |c| hello(c, &s));
    r.group("logging flight", r.n(2000, 30_000), |c| flight(c, &s));
    r.group("logging sealed", r.n(1500, 30_000), |c| sealed(c, &s));
    if server {
        r.group("next", 4, |c| again(c, &s, c.idx % 2, "everything"));
        r.require("next clients served", 300);
    }
    r.require("Start: waits", 0);
    r.require("Start: DecodeError", 50);
    r.require("Keys: DecodeError", 50);
    r.require("bytes of flood", 1_000_000);
}
fn server_seen(c: &mut Case, s: &crate::rep::Seen) {
    if s.server {
        endpoint_seen(c, s)
    }
}
fn client_seen(c: &mut Case, s: &crate::rep::Seen) {
    if s.client {
        endpoint_seen(c, s)
    }
}
fn endpoint_seen(c: &mut Case, s: &crate::rep::Seen) {
    for p in &s.panics {
        // the harness's own
        if !p.contains("panic at src/") {
            c.fail(&format!("panic: {}", site(p)), format!("{p} (case of another check)"));
        }
    }
    c.count("endpoints in the workloads of other checks", 1);
}
/// The same endpoints with key logs, to watch what they send
pub fn watched(seed: u64, server: bool, judge: Judge) -> Set {
    let w = World::new(seed);
    let log = w.dir.path("keylog");
    let srv = [false, true]
        .map(|auth| {
            let b = if auth { w.server_builder().add_client_cert_ca(w.ca_cert.clone()) } else { w.server_builder() };
            (auth, crate::sim::server(b.set_keylog_path(log.clone()).build().expect("server config")))
        })
        .to_vec();
    let cfg = [false, true].map(|auth| (auth, Arc::new(w.client_builder(auth).set_keylog_path(log.clone()).build().expect("client config")))).to_vec();
    let watch = Some(crate::c23::Windows::of(&w));
    Set { w, server, watch, judge, srv, cfg }
}
impl Set {
    pub fn server(&self, auth: bool) -> &Arc<ServerConnection> {
        &self.srv[auth as usize].1
    }
    pub fn client(&self, auth: bool) -> &Arc<ClientConfig> {
        &self.cfg[auth as usize].1
    }
}
pub fn watch(r: &Rep, s: &Set) {
    let n = if s.server { "server" } else { "client" };
    r.group(&format!("{n} raw"), r.n(900, 20000), |c| raw(c, s));
    r.group(&format!("{n} hello"), r.n(1500, 30_000), |c| hello(c, s));
    r.group(&format!("{n} flight"), r.n(1500, 30_000), |c| flight(c, s));
    r.group(&format!("{n} sealed"), r.n(1200, 20_000), |c| sealed(c, s));
    r.group(&format!("{n} ends"), r.n(900, 6_000), |c| ends(c, s));
    r.group(&format!("{n} writes"), r.n(60, 600), |c| broken_writes(c, s));
}
/// One hostile case of any kind
#[allow(dead_code)]
pub fn any(c: &mut Case, s: &Set) {
    match c.rng.below(9) {
        0 => raw(c, s),
        1..=3 => hello(c, s),
        4..=6 => flight(c, s),
        7 => sealed(c, s),
        _ => ends(c, s),
    }
}
pub fn c13(r: &Rep) {
    run(r, true)
}
pub fn c14(r: &Rep) {
    run(r, false)
}
