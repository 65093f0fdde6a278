//! Nothing but protected records after the hello messages
use crate::der::{self, pem64, CertSpec};
use crate::eut::*;
use crate::hello::conforming;
use crate::ossl::EcKey;
use crate::rep::{hex, hexs, Case, Rep};
use crate::robust::{self, At, Stage};
use crate::sim::{Caps, Eut, FileEv, Res, Status};
use crate::tls::{self, *};
use anothertls::net::alert::TlsError;
use anothertls::{ClientConfigBuilder, ServerConfigBuilder};
use std::collections::HashMap;
use std::sync::Arc;

pub const RULE: &str = "a case is one connection (or one stream without a connection), of which every byte sent is judged: the structure of the records, under which keys each of them opens, and that no 8 bytes of a certificate, private key, traffic secret or of the data written are among them; distinct = (role, stage, kind of input, suite, records sent in each phase)";

/// 8 byte windows of what must never be seen on the wire
#[derive(Default)]
pub struct Windows {
    m: HashMap<[u8; 8], &'static str>,
}
impl Windows {
    pub fn add(&mut self, what: &'static str, d: &[u8]) {
        for w in d.windows(8) {
            let mut u = w.to_vec();
            u.sort();
            u.dedup();
            // too plain to mean anything
            if u.len() >= 5 {
                self.m.insert(w.try_into().unwrap(), what);
            }
        }
    }
    fn find(&self, out: &[u8]) -> Option<(usize, &'static str)> {
        out.windows(8).enumerate().find_map(|(i, w)| self.m.get(w).map(|s| (i, *s)))
    }
    pub fn of(w: &World) -> Windows {
        let mut s = Windows::default();
        s.add("the server's certificate", &w.server.der);
        s.add("the client's certificate", &w.client.der);
        for (name, k) in [("the server's private key", &w.server.key), ("the client's private key", &w.client.key)] {
            s.add(name, &k.secret);
            let mut r = k.secret;
            r.reverse();
            s.add(name, &r);
        }
        s
    }
}

/// The traffic secrets of a connection as known from the reference endpoint and the key log
#[derive(Default)]
struct Keys {
    hs: Vec<Vec<u8>>,
    ap: Vec<Vec<u8>>,
    all: Vec<Vec<u8>>,
    logged: bool,
}
fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes().chunks(2).filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect()
}
fn keys_of(e: &Eut, sess: Option<&Session>, server: bool) -> Keys {
    let mut k = Keys::default();
    let mut log = vec![];
    for f in e.files() {
        if let FileEv::Write { fd, data } = f {
            if fd > 2 {
                log.extend(data);
            }
        }
    }
    let (mut h, mut a) = (false, false);
    for l in String::from_utf8_lossy(&log).lines() {
        let p: Vec<&str> = l.split(' ').collect();
        if p.len() != 3 {
            continue;
        }
        let s = unhex(p[2]);
        k.all.push(s.clone());
        let own = p[0].starts_with(if server { "SERVER" } else { "CLIENT" });
        if own && p[0].ends_with("HANDSHAKE_TRAFFIC_SECRET") {
            k.hs.push(s);
            h = true;
        } else if own && p[0].ends_with("_TRAFFIC_SECRET_0") {
            k.ap.push(s);
            a = true;
        }
    }
    k.logged = h && a;
    if let Some(s) = sess {
        let (h, a) = if server { (&s.secrets.shs, &s.s_ap.secret) } else { (&s.secrets.chs, &s.c_ap.secret) };
        k.hs.push(h.clone());
        k.ap.push(a.clone());
        k.all.extend([s.secrets.shs.clone(), s.secrets.chs.clone(), s.secrets.master.clone(), s.s_ap.secret.clone(), s.c_ap.secret.clone()]);
        for d in [Dir::new(s.suite, &s.secrets.chs), Dir::new(s.suite, &s.secrets.shs), s.c_ap.clone(), s.s_ap.clone()] {
            k.all.extend([d.key, d.iv]);
        }
    }
    k
}
fn dirs(suite: Option<u16>, s: &[Vec<u8>]) -> Vec<Dir> {
    let mut v = vec![];
    for s in s {
        for id in SUITES {
            let (h, _) = suite_ha(id).unwrap();
            if suite.unwrap_or(id) == id && s.len() == h.len() {
                v.push(Dir::new(id, s));
            }
        }
    }
    v
}

/// What was sent in which phase
#[derive(Default, Debug)]
struct Phases {
    hello: usize,
    ccs: usize,
    plain_alerts: usize,
    hs: usize,
    ap: usize,
    unknown: usize,
    data: Vec<u8>,
}
/// Judge every byte an endpoint has sent. `keyed`: the endpoint certainly had its keys from right
/// behind the hello on
#[allow(clippy::too_many_arguments)]
fn judge(c: &mut Case, server: bool, suite: Option<u16>, out: &[u8], k: &Keys, keyed: bool, cut: bool, what: &dyn Fn() -> String) -> Option<Phases> {
    let mut p = Phases::default();
    let (recs, rest) = records(out);
    if !rest.is_empty() && !cut {
        c.fail("something that is not a record is sent", format!("{} behind {} records: {}", hexs(rest), recs.len(), what()));
        return None;
    }
    let mut hello = vec![];
    let want = if server { SH } else { CH };
    let mut hs = dirs(suite, &k.hs);
    let mut ap = dirs(suite, &k.ap);
    let show = |i: usize, r: &Rec| format!("record {i}: {}", hexs(&r.raw()));
    for (i, r) in recs.iter().enumerate() {
        let hello_done = p.hello > 0;
        match r.typ {
            HS if !hello_done && p.plain_alerts == 0 => {
                hello.extend(&r.body);
                if hello[0] != want {
                    c.fail("a handshake message is sent in the clear", format!("type {}: {}: {}", hello[0], show(i, r), what()));
                    return None;
                }
                let (ms, rest) = messages(&hello);
                if ms.len() > 1 || (ms.len() == 1 && !rest.is_empty()) {
                    c.fail("something behind the hello is sent in the clear", format!("{}: {}", show(i, r), what()));
                    return None;
                }
                p.hello += ms.len();
            }
            HS => {
                c.fail("a handshake message is sent in the clear", format!("{}: {}", show(i, r), what()));
                return None;
            }
            CCS => {
                p.ccs += 1;
                if r.body != [1] || p.ap > 0 || !hello_done {
                    c.fail("an odd change_cipher_spec is sent", format!("{}: {}", show(i, r), what()));
                    return None;
                }
            }
            ALERT => {
                p.plain_alerts += 1;
                if r.body.len() != 2 {
                    c.fail("something other than an alert is sent in the clear", format!("{}: {}", show(i, r), what()));
                    return None;
                }
                if (server && hello_done) || p.hs + p.ap + p.unknown > 0 || (!server && keyed) {
                    c.fail("an alert is sent in the clear when there are keys", format!("{}: {}", show(i, r), what()));
                    return None;
                }
            }
            APP => {
                if !hello_done {
                    c.fail("application data is sent before the hello", format!("{}: {}", show(i, r), what()));
                    return None;
                }
                if p.plain_alerts > 0 {
                    c.fail("data behind the alert that ends the connection", format!("{}: {}", show(i, r), what()));
                    return None;
                }
                let mut open = None;
                if p.ap == 0 {
                    open = pick(&mut hs, r);
                    if open.is_some() {
                        p.hs += 1;
                    }
                }
                if open.is_none() {
                    open = pick(&mut ap, r);
                    if open.is_some() {
                        p.ap += 1;
                    }
                }
                let Some((t, d)) = open else {
                    if k.logged {
                        c.fail("a record does not open under the traffic keys", format!("{}, {} before it under handshake and {} under application keys: {}", show(i, r), p.hs, p.ap, what()));
                        return None;
                    }
                    p.unknown += 1;
                    continue;
                };
                match t {
                    APP if p.ap == 0 => {
                        c.fail("application data under the handshake keys", format!("{}: {}: {}", show(i, r), hexs(&d), what()));
                        return None;
                    }
                    APP => p.data.extend(d),
                    HS | ALERT => {}
                    t => {
                        c.fail("an odd record inside a protected one", format!("type {t}: {}: {}", show(i, r), what()));
                        return None;
                    }
                }
            }
            t => {
                c.fail("a record of an unknown type is sent", format!("type {t}: {}: {}", show(i, r), what()));
                return None;
            }
        }
    }
    c.count("bytes judged", out.len() as u64);
    c.count("records under handshake keys", p.hs as u64);
    c.count("records under application keys", p.ap as u64);
    c.count("plaintext alerts before there were keys", p.plain_alerts as u64);
    c.count("protected records with unknown keys", p.unknown as u64);
    Some(p)
}
/// The record opens as the next one of one of these; then the others are out
fn pick(d: &mut Vec<Dir>, r: &Rec) -> Option<(u8, Vec<u8>)> {
    for i in 0..d.len() {
        let mut t = d[i].clone();
        if let Ok((ty, p, _)) = t.open(r) {
            *d = vec![t];
            return Some((ty, p));
        }
    }
    None
}
fn scan(c: &mut Case, base: &Windows, out: &[u8], k: &Keys, written: &[Vec<u8>], what: &dyn Fn() -> String) {
    let mut own = Windows::default();
    for s in &k.all {
        own.add("a traffic secret", s);
    }
    for d in written {
        own.add("application data", d);
    }
    for w in [base, &own] {
        if let Some((at, s)) = w.find(out) {
            c.fail("secret bytes in the clear", format!("{s}: {} at byte {at} of {}: {}", hex(&out[at..at + 8]), out.len(), what()));
        }
        c.count("windows of secret bytes looked for", w.m.len() as u64);
    }
}

/// Called at the end of each case of the hostile workloads
pub fn hostile(c: &mut Case, s: &robust::Set, a: &mut At, kind: &str, detail: &dyn Fn() -> String) {
    let out = a.e.conn.sent();
    let k = keys_of(&a.e, a.sess.as_ref(), s.server);
    let cut = a.e.conn.with(|i| i.failed_sends) > 0;
    let what = || format!("server {}, {:?}, {kind}: {}", s.server, a.stage, detail());
    let keyed = a.stage != Stage::Start && k.logged;
    let suite = a.sess.as_ref().map(|s| s.suite);
    if let Some(p) = judge(c, s.server, suite, &out, &k, keyed, cut, &what) {
        if p.unknown > 0 {
            c.inconclusive("the keys of a record are not known");
        }
        c.ev(format!("{} {:?} {kind} {:04x} {} {} {} {} {}", s.server, a.stage, a.suite, p.hello, p.ccs, p.plain_alerts, p.hs, p.ap));
    }
    scan(c, s.watch.as_ref().unwrap(), &out, &k, &a.written, &what);
}

/// An application which writes at all times
fn healthy(c: &mut Case, s: &[robust::Set; 2]) {
    let server = c.rng.bool();
    let s = &s[server as usize];
    let auth = c.rng.bool();
    let mut o = Opts::new(*c.rng.pick(&SUITES));
    o.client_auth = auth;
    o.framing = Framing::random(&mut c.rng);
    o.recv = Caps::random(&mut c.rng);
    o.send = Caps::random(&mut c.rng);
    o.ccs = c.rng.bool();
    if server && c.rng.bool() {
        let mut h = conforming(&mut c.rng);
        h.suites = vec![o.suite];
        o.hello = Some(h);
    }
    if c.rng.one_in(3) {
        let n = c.rng.range(1, 3000);
        o.early = c.rng.bytes(n);
    }
    let suite = o.suite;
    let l = if server { link_server(c, &s.w, s.server(auth), o) } else { link_client(c, &s.w, s.client(auth), o) };
    let mut l = match l {
        Ok(l) => l,
        Err(e) => return c.inconclusive(&e.chars().take(60).collect::<String>()),
    };
    let mut written = vec![];
    let mut accepted = vec![];
    let mut ended = false;
    let mut trace = String::new();
    for _ in 0..c.rng.range(1, 8) {
        let st = match c.rng.below(10) {
            0 => {
                trace += "close_notify ";
                l.eut.alert(TlsError::CloseNotify);
                l.eut.wait(c)
            }
            1 => {
                trace += "alert ";
                let e = *c.rng.pick(&[TlsError::InternalError, TlsError::AccessDenied, TlsError::HandshakeFailure]);
                l.eut.alert(e);
                l.eut.wait(c)
            }
            2 => {
                // something bad arrives
                trace += "bad record ";
                let n = c.rng.below(50);
                let b = c.rng.bytes(n);
                l.eut.conn.feed(&record(*c.rng.pick(&[APP, HS, ALERT, CCS]), &b));
                l.eut.read(100);
                let mut st = l.eut.wait(c);
                if st.blocked() {
                    l.eut.conn.eof();
                    st = l.eut.wait(c);
                }
                st
            }
            3 => {
                trace += "data ";
                let n = c.rng.below(5000);
                let d = c.rng.bytes(n);
                let r = l.tx().seal(APP, &d, 0);
                l.eut.conn.feed(&r);
                continue;
            }
            4 if !ended => {
                trace += "end ";
                ended = true;
                let d = [1, *c.rng.pick(&[0u8, 40])];
                let r = l.tx().seal(ALERT, &d, 0);
                l.eut.conn.feed(&r);
                l.eut.read(100_000);
                let mut st = l.eut.wait(c);
                if st.blocked() {
                    l.eut.conn.eof();
                    st = l.eut.wait(c);
                }
                st
            }
            _ => {
                let n = *c.rng.pick(&[0usize, 1, 7, 8, 9, 100, 1000, 2048, 4096, 16383, 16384, 16385, 20000, 33000, 70000]);
                let d = c.rng.bytes(n);
                trace += &format!("write {n} ");
                written.push(d.clone());
                l.eut.write(d.clone());
                let st = l.eut.wait(c);
                if matches!(st, Status::Done(Res::Ok(_))) {
                    accepted.extend(d);
                }
                st
            }
        };
        if let Status::Done(Res::Panic(p)) = st {
            c.count("panics (judged by C13 and C14)", 1);
            trace += &p;
            break;
        }
    }
    let out = l.eut.conn.sent();
    let k = keys_of(&l.eut, Some(&l.sess), server);
    let what = || format!("server {server}, {suite:04x}, client authentication {auth}: {trace}");
    if let Some(p) = judge(c, server, Some(suite), &out, &k, k.logged, false, &what) {
        c.check(p.unknown == 0, "a record does not open under the traffic keys", what);
        c.check(p.data.len() >= accepted.len(), "data is missing", || format!("{} of {} bytes: {}", p.data.len(), accepted.len(), what()));
        c.count("application data found protected", p.data.len() as u64);
        c.ev(format!("healthy {server} {auth} {suite:04x} {} {} {} {trace}", p.ccs, p.hs, p.ap));
        c.sample(if server { "server" } else { "client" }, || format!("{}: {} records under handshake keys, {} under application keys, {} bytes of data", what(), p.hs, p.ap, p.data.len()));
    }
    scan(c, s.watch.as_ref().unwrap(), &out, &k, &written, &what);
}

/// Handshake messages of any size, up to several records
fn large(c: &mut Case, s: &[robust::Set; 2], sizes: &[usize]) {
    let server = c.rng.bool();
    let s = &s[server as usize];
    let w = &s.w;
    let n = match c.rng.below(3) {
        0 => *c.rng.pick(sizes),
        1 => c.rng.range(400, 9000),
        _ => c.rng.range(400, 70_000),
    };
    let key = EcKey::random(&mut c.rng);
    let (name, issuer) = if server { ("server.test", "server.test") } else { ("client.test", "Test CA") };
    let spec = CertSpec::new(name, issuer, NOW - 1000, NOW + 1000, &key.public, &mut c.rng);
    let Some(d) = der::sign_sized(&spec, if server { &key } else { &w.ca.key }, n) else {
        c.count("sizes not reachable", 1);
        return;
    };
    let mut own = Windows::default();
    own.add("the certificate", &d);
    own.add("the private key", &key.secret);
    let cert = w.dir.file(&format!("c23-{}.cert", c.idx), pem64("CERTIFICATE", &d).as_bytes());
    let kf = w.dir.file(&format!("c23-{}.key", c.idx), pem64("EC PRIVATE KEY", &key.sec1_der()).as_bytes());
    let log = w.dir.path("keylog");
    let suite = *c.rng.pick(&SUITES);
    let ctx = format!("server {server}, {suite:04x}, certificate of {n} bytes");
    let what = || ctx.clone();
    let fr = Framing::random(&mut c.rng);
    let (recv, send) = (Caps::random(&mut c.rng), Caps::random(&mut c.rng));
    let mut e;
    let sess;
    if server {
        let auth = c.rng.bool();
        let mut b = ServerConfigBuilder::new().add_cert_pem(cert).add_privkey_pem(kf).set_keylog_path(log);
        if auth {
            b = b.add_client_cert_ca(w.ca_cert.clone());
        }
        let Ok(cfg) = b.build() else { return c.inconclusive("configuration refused") };
        e = Eut::new(Some(NOW));
        e.conn.set_caps(recv, send);
        e.accept(&crate::sim::server(cfg));
        let mut h = Hello::new(&mut c.rng);
        h.suites = vec![suite];
        let ch = h.msg();
        for p in fr.cut(&[ch.clone()], &mut c.rng) {
            e.conn.feed(&record(HS, &p));
        }
        e.wait(c);
        let out = e.conn.sent();
        let mut k = keys_of(&e, None, true);
        // nothing is sent under the application keys as yet
        k.logged = !k.hs.is_empty();
        scan(c, &own, &out, &k, &[], &what);
        if judge(c, true, Some(suite), &out, &k, true, false, &what).is_none() {
            return;
        }
        let mut se = match tls::client_process(&out, &h, &ch) {
            Ok(s) => s,
            Err(_) => return c.inconclusive("no handshake"),
        };
        let ca = ClientAuth { chain: vec![(w.client.der.clone(), vec![])], key: Some(&w.client.key) };
        let fl = se.client_flight(se.cert_request.is_some().then_some(&ca), &mut no_edit);
        let mut dd = se.c_hs.clone();
        for r in protect(&mut dd, &fl, fr, 0, &mut c.rng) {
            e.conn.feed(&r);
        }
        sess = se;
    } else {
        let b = ClientConfigBuilder::new().add_client_cert_pem(cert).add_client_key_pem(kf).set_keylog_path(log);
        let Ok(cfg) = b.build() else { return c.inconclusive("configuration refused") };
        let Ok((x, info, raw)) = start_client(c, &Arc::new(cfg), recv, send, NOW) else { return c.inconclusive("no ClientHello") };
        e = x;
        let mut sp = ServerSpec::new(suite, &w.server, &mut c.rng);
        let l = *c.rng.pick(&[0, 0, 0, 1, 200, 255]);
        sp.request = Some(c.rng.bytes(l));
        let Ok((mut se, plain, prot)) = tls::server_flight(&sp, &info, &raw, &mut no_edit) else { return c.inconclusive("no handshake") };
        for p in fr.cut(&plain, &mut c.rng) {
            e.conn.feed(&record(HS, &p));
        }
        let mut dd = se.s_hs.clone();
        for r in protect(&mut dd, &prot, fr, 0, &mut c.rng) {
            e.conn.feed(&r);
        }
        se.s_hs = dd;
        sess = se;
    }
    let st = e.wait(c);
    let mut written = vec![];
    if matches!(st, Status::Done(Res::Ok(_))) {
        for _ in 0..c.rng.below(3) {
            let n = *c.rng.pick(&[8usize, 100, 5000, 16384, 40000]);
            let d = c.rng.bytes(n);
            e.write(d.clone());
            e.wait(c);
            written.push(d);
        }
    }
    let out = e.conn.sent();
    let mut k = keys_of(&e, Some(&sess), server);
    k.logged = true;
    scan(c, &own, &out, &k, &written, &what);
    if let Some(p) = judge(c, server, Some(suite), &out, &k, true, false, &what) {
        c.count("large handshake messages found protected", (p.hs > 0 && n > 4096) as u64);
        c.ev(format!("large {server} {suite:04x} {n} {} {}", p.hs, p.ap));
    }
}

/// Streams without a secure channel
fn bare(c: &mut Case) {
    let mut e = Eut::new(Some(NOW));
    e.conn.set_caps(Caps::random(&mut c.rng), Caps::random(&mut c.rng));
    e.bare();
    e.wait(c);
    let mut written = vec![];
    let mut trace = String::new();
    for _ in 0..c.rng.range(1, 6) {
        match c.rng.below(6) {
            0 => {
                trace += "alert ";
                e.alert(*c.rng.pick(&[TlsError::CloseNotify, TlsError::InternalError]));
            }
            1 => {
                let t = *c.rng.pick(&[APP, HS, ALERT, CCS]);
                let n = c.rng.below(60);
                let b = c.rng.bytes(n);
                trace += &format!("read of a record {t} ");
                e.conn.feed(&record(t, &b));
                e.read(100);
            }
            2 => {
                trace += "read of ClientHello ";
                let m = Hello::new(&mut c.rng).msg();
                e.conn.feed(&record(HS, &m));
                e.read(1000);
            }
            _ => {
                let n = *c.rng.pick(&[0usize, 1, 8, 100, 2047, 2048, 5000, 16384, 20000, 70000]);
                let d = c.rng.bytes(n);
                trace += &format!("write {n} ");
                written.push(d.clone());
                let before = e.conn.sent_len();
                e.write(d.clone());
                let st = e.wait(c);
                if let Status::Done(Res::Ok(_)) = st {
                    c.check(n == 0, "data is taken without a secure channel", || trace.clone());
                }
                c.check(e.conn.sent_len() == before, "data is sent without a secure channel", || format!("{} bytes: {trace}", e.conn.sent_len() - before));
                c.count("writes without a secure channel", 1);
            }
        }
        let mut st = e.wait(c);
        if st.blocked() {
            e.conn.eof();
            st = e.wait(c);
        }
        let _ = st;
    }
    e.drop_stream();
    e.wait(c);
    let out = e.conn.sent();
    let (recs, rest) = records(&out);
    c.check(rest.is_empty() && recs.iter().all(|r| r.typ == ALERT && r.body.len() == 2), "something is sent without a secure channel", || format!("{trace}: {}", hexs(&out)));
    scan(c, &Windows::default(), &out, &Keys::default(), &written, &|| trace.clone());
    c.ev(format!("bare {trace}"));
}
/// The application takes the protection of a stream away, or puts it on another one
fn unprotected(c: &mut Case, s: &[robust::Set; 2]) {
    let server = c.rng.bool();
    let s = &s[server as usize];
    let o = Opts::new(*c.rng.pick(&SUITES));
    let l = if server { link_server(c, &s.w, s.server(false), o) } else { link_client(c, &s.w, s.client(false), o) };
    let Ok(mut l) = l else { return c.inconclusive("no handshake") };
    let n = c.rng.range(8, 3000);
    let d = c.rng.bytes(n);
    l.eut.conn.take();
    l.eut.start(|st| {
        st.stream.as_mut().unwrap().set_protection(None);
        Res::Ok(vec![])
    });
    l.eut.wait(c);
    l.eut.write(d.clone());
    let st = l.eut.wait(c);
    let out = l.eut.conn.take();
    c.check(!matches!(st, Status::Done(Res::Ok(_))), "data is taken without a secure channel", || format!("{n} bytes"));
    c.check(out.is_empty(), "data is sent without a secure channel", || hexs(&out));
    c.count("writes without a secure channel", 1);
    c.ev(format!("unprotected {server} {n}"));
}

pub fn run(r: &Rep) {
    let s = [robust::watched(r.seed, false, hostile), robust::watched(r.seed, true, hostile)];
    r.group("healthy", r.n(1500, 30_000), |c| healthy(c, &s));
    let cs = der::cert_sizes();
    r.group("large", r.n(700, 12_000), |c| large(c, &s, &cs));
    r.group("bare", r.n(600, 10_000), bare);
    r.group("unprotected", r.n(60, 600), |c| unprotected(c, &s));
    for s in &s {
        robust::watch(r, s);
    }
    r.require("application data found protected", 1_000_000);
    r.require("large handshake messages found protected", 200);
    r.require("records under handshake keys", 5000);
    r.require("records under application keys", 5000);
    r.require("plaintext alerts before there were keys", 300);
    r.require("writes without a secure channel", 500);
}
