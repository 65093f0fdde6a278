//! Alerts: codes, received alerts, and what is sent when the endpoint aborts
use crate::der::CertSpec;
use crate::eut::*;
use crate::ossl::EcKey;
use crate::rep::{hexs, Case, Rep};
use crate::rng::Rng;
use crate::sim::{Caps, Eut, Res, Status};
use crate::tls::{self, *};
use anothertls::net::alert::{AlertLevel, TlsError};
use anothertls::net::client::ClientConfig;
use anothertls::ServerConnection;
use std::sync::Arc;

pub const RULE: &str = "a case is one alert received, written by the application, or sent because of a planted fault, in one phase of one role; distinct = (role, phase, suite, cause or code and its form, error returned)";

/// RFC 8446 section 6
const CODES: [(u8, &str); 27] = [
    (0, "CloseNotify"),
    (10, "UnexpectedMessage"),
    (20, "BadRecordMac"),
    (22, "RecordOverflow"),
    (40, "HandshakeFailure"),
    (42, "BadCertificate"),
    (43, "UnsupportedCertificate"),
    (44, "CertificateRevoked"),
    (45, "CertificateExpired"),
    (46, "CertificateUnknown"),
    (47, "IllegalParameter"),
    (48, "UnknownCa"),
    (49, "AccessDenied"),
    (50, "DecodeError"),
    (51, "DecryptError"),
    (70, "ProtocolVersion"),
    (71, "InsufficientSecurity"),
    (80, "InternalError"),
    (86, "InappropriateFallback"),
    (90, "UserCanceled"),
    (109, "MissingExtension"),
    (110, "UnsupportedExtension"),
    (112, "UnrecognizedName"),
    (113, "BadCertificateStatusResponse"),
    (115, "UnknownPskIdentity"),
    (116, "CertificateRequired"),
    (120, "NoApplicationProtocol"),
];
fn named(code: u8) -> Option<&'static str> {
    CODES.iter().find(|c| c.0 == code).map(|c| c.1)
}
fn all_errors() -> Vec<(u8, TlsError)> {
    use TlsError::*;
    vec![
        (0, CloseNotify),
        (10, UnexpectedMessage),
        (20, BadRecordMac),
        (22, RecordOverflow),
        (40, HandshakeFailure),
        (42, BadCertificate),
        (43, UnsupportedCertificate),
        (44, CertificateRevoked),
        (45, CertificateExpired),
        (46, CertificateUnknown),
        (47, IllegalParameter),
        (48, UnknownCa),
        (49, AccessDenied),
        (50, DecodeError),
        (51, DecryptError),
        (70, ProtocolVersion),
        (71, InsufficientSecurity),
        (80, InternalError),
        (86, InappropriateFallback),
        (90, UserCanceled),
        (109, MissingExtension),
        (110, UnsupportedExtension),
        (112, UnrecognizedName),
        (113, BadCertificateStatusResponse),
        (115, UnknownPskIdentity),
        (116, CertificateRequired),
        (120, NoApplicationProtocol),
    ]
}

struct Set {
    w: World,
    srv: [Arc<ServerConnection>; 4],
    cfg: [Arc<ClientConfig>; 3],
}
const PLAIN: usize = 0;
const AUTH: usize = 1;
const PICKY: usize = 2;
const NAMED: usize = 3;
impl Set {
    fn new(seed: u64) -> Set {
        let w = World::new(seed);
        let picky = w.server_builder().add_client_cert_ca(w.ca_cert.clone()).set_client_cert_custom_verify_fn(|_| false).build().unwrap();
        let name = w.server_builder().set_server_name("name.test".into()).build().unwrap();
        let srv = [w.server(false), w.server(true), crate::sim::server(picky), crate::sim::server(name)];
        let named = Arc::new(w.client_builder(false).set_server_name("name.test".into()).build().unwrap());
        let cfg = [w.client_cfg(false), w.client_cfg(true), named];
        Set { w, srv, cfg }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Start,
    Keys,
    Data,
}
/// Endpoint under test at a phase; `out` protects what the peer sends next, `sent` opens what the
/// endpoint sends next (None: in the clear)
struct At {
    e: Eut,
    server: bool,
    phase: Phase,
    suite: u16,
    hello: Option<Hello>,
    info: Option<(ClientHelloInfo, Vec<u8>)>,
    sess: Option<Session>,
    prot: Vec<Vec<u8>>,
    out: Option<Dir>,
    sent: Option<Dir>,
}
fn reach(c: &mut Case, s: &Set, server: bool, phase: Phase, which: usize, edit: Edit, id: Option<&Ident>) -> Option<At> {
    let suite = *c.rng.pick(&SUITES);
    let mut a = At { e: Eut::new(Some(NOW)), server, phase, suite, hello: None, info: None, sess: None, prot: vec![], out: None, sent: None };
    let no = |c: &mut Case, e: String| {
        c.inconclusive(&e.chars().take(60).collect::<String>());
        None
    };
    if phase == Phase::Data {
        let mut o = Opts::new(suite);
        o.client_auth = which == AUTH;
        let l = if server { link_server(c, &s.w, &s.srv[which], o) } else { link_client(c, &s.w, &s.cfg[which], o) };
        let mut l = match l {
            Ok(l) => l,
            Err(e) => return no(c, e),
        };
        a.out = Some(l.tx().clone());
        a.sent = Some(l.rx().clone());
        a.e = l.eut;
        a.sess = Some(l.sess);
        return Some(a);
    }
    let recv = Caps::random(&mut c.rng);
    let send = Caps::random(&mut c.rng);
    if server {
        a.e.conn.set_caps(recv, send);
        a.e.accept(&s.srv[which]);
        let mut h = Hello::new(&mut c.rng);
        h.suites = vec![suite];
        if which == NAMED {
            h.set_ext(0, sni_ext("name.test"));
        }
        if phase == Phase::Keys {
            let m = h.msg();
            a.e.conn.feed(&record(HS, &m));
            let st = a.e.wait(c);
            let out = a.e.conn.take();
            match client_process(&out, &h, &m) {
                Ok(x) if st.blocked() => {
                    a.out = Some(x.c_hs.clone());
                    // the server sends with the application keys after its Finished
                    a.sent = Some(x.s_ap.clone());
                    a.sess = Some(x);
                }
                r => return no(c, format!("server flight {:?}", r.err())),
            }
        }
        a.hello = Some(h);
    } else {
        let (e, info, raw) = match start_client(c, &s.cfg[which], recv, send, NOW) {
            Ok(x) => x,
            Err(e) => return no(c, e),
        };
        a.e = e;
        if phase == Phase::Keys {
            let mut spec = ServerSpec::new(suite, id.unwrap_or(&s.w.server), &mut c.rng);
            if which == AUTH {
                spec.request = Some(vec![1]);
            }
            let (x, plain, prot) = match server_flight(&spec, &info, &raw, edit) {
                Ok(x) => x,
                Err(e) => return no(c, e),
            };
            a.e.conn.feed(&record(HS, &plain[0]));
            let st = a.e.wait(c);
            let out = a.e.conn.take();
            if !st.blocked() || !out.is_empty() {
                return no(c, format!("client after the ServerHello: {st:?}"));
            }
            a.out = Some(x.s_hs.clone());
            a.sent = Some(x.c_hs.clone());
            a.sess = Some(x);
            a.prot = prot;
        }
        a.info = Some((info, raw));
    }
    Some(a)
}
impl At {
    /// Start the call that meets what the peer sends next
    fn arm(&mut self) {
        if self.phase == Phase::Data {
            self.e.read(100);
        }
    }
    fn seal(&mut self, typ: u8, d: &[u8], pad: usize) -> Vec<u8> {
        match self.out.as_mut() {
            Some(k) => k.seal(typ, d, pad),
            None => record(typ, d),
        }
    }
    /// (decrypted) records the endpoint sent since
    fn sent(&mut self) -> Result<Vec<(u8, Vec<u8>)>, String> {
        let out = self.e.conn.take();
        let (recs, rest) = records(&out);
        if !rest.is_empty() {
            return Err(format!("{} bytes behind the last record: {}", rest.len(), hexs(&out)));
        }
        let mut v = vec![];
        for r in recs {
            match self.sent.as_mut() {
                Some(k) => {
                    let (t, d, _) = k.open(&r).map_err(|e| format!("{e}: {}", hexs(&r.raw())))?;
                    v.push((t, d));
                }
                None => v.push((r.typ, r.body)),
            }
        }
        Ok(v)
    }
    fn label(&self) -> String {
        format!("{} {:?} {:04x}", if self.server { "server" } else { "client" }, self.phase, self.suite)
    }
    /// The application goes on; nothing may be sent. Returns the results of the calls
    fn go_on(&mut self, c: &mut Case) -> Vec<Status> {
        let mut v = vec![];
        if self.phase != Phase::Data {
            return v;
        }
        for _ in 0..4 {
            match c.rng.below(2) {
                0 => self.e.read(10),
                _ => self.e.write(vec![1; 20]),
            }
            let st = self.e.wait(c);
            let waits = st.blocked();
            v.push(st);
            if waits {
                break;
            }
        }
        v
    }
}

// ------------------------------------------------------------------ received alerts
fn received(c: &mut Case, s: &Set) {
    let server = c.rng.bool();
    let phase = *c.rng.pick(&[Phase::Start, Phase::Keys, Phase::Data]);
    let code = if c.rng.one_in(3) { c.rng.u8() } else { c.rng.pick(&CODES).0 };
    let which = c.rng.below(2);
    let Some(mut a) = reach(c, s, server, phase, which, &mut no_edit, None) else { return };
    // somewhere within the peer's flight
    let mut progress = 0;
    if phase == Phase::Keys && !server {
        progress = c.rng.below(a.prot.len());
        for m in a.prot[..progress].to_vec() {
            let r = a.seal(HS, &m, 0);
            a.e.conn.feed(&r);
        }
    }
    let mut partial = false;
    if phase == Phase::Keys && server && which == AUTH && c.rng.bool() {
        let mut x = a.sess.clone().unwrap();
        let auth = ClientAuth { chain: vec![(s.w.client.der.clone(), vec![])], key: Some(&s.w.client.key) };
        let fl = x.client_flight(Some(&auth), &mut no_edit);
        progress = c.rng.range(1, 2);
        for m in &fl[..progress] {
            let r = a.seal(HS, m, 0);
            a.e.conn.feed(&r);
        }
    }
    if phase == Phase::Data {
        for _ in 0..c.rng.below(3) {
            partial = true;
            let n = c.rng.range(1, 200);
            let d = c.rng.bytes(n);
            let r = a.seal(APP, &d, 0);
            a.e.conn.feed(&r);
        }
    }
    a.arm();
    let level = c.rng.range(1, 2) as u8;
    let clear = a.out.is_some() && phase == Phase::Keys && c.rng.one_in(3);
    let mut pad = *c.rng.pick(&[0usize, 0, 1, 50, 16382]);
    if clear || a.out.is_none() {
        pad = 0;
    }
    let mut b = if clear { record(ALERT, &[level, code]) } else { a.seal(ALERT, &[level, code], pad) };
    // the peer may have sent more behind it
    let more = c.rng.below(4);
    match more {
        1 => {
            let r = a.seal(if phase == Phase::Data { APP } else { HS }, &[1, 2, 3], 0);
            b.extend(r)
        }
        2 => b.extend(c.rng.bytes(20)),
        3 => {
            let r = a.seal(ALERT, &[2, 47], 0);
            b.extend(r)
        }
        _ => {}
    }
    a.e.conn.feed(&b);
    let what = format!("{} alert ({level}, {code}), clear {clear}, padding {pad}, progress {progress}, more {more}", a.label());
    // data sent before the alert may be read first
    let mut st = a.e.wait(c);
    let mut n = 0;
    while let (Status::Done(Res::Ok(d)), true) = (&st, phase == Phase::Data) {
        n += d.len();
        if n > 1000 {
            break;
        }
        a.e.read(100);
        st = a.e.wait(c);
    }
    if partial && n == 0 {
        c.fail("data before the alert lost", what.clone());
    }
    let err = match &st {
        Status::Done(Res::Err(e)) => *e,
        s => return c.fail("received alert does not end the connection", format!("{what}: {s:?}")),
    };
    match named(code) {
        Some(n) => {
            c.check(format!("{err:?}") == n, "received alert reported as another error", || format!("{what}: {err:?} instead of {n}"));
        }
        None => {
            c.check(err != TlsError::CloseNotify, "unknown alert taken for close_notify", || format!("{what}: {err:?}"));
        }
    }
    match a.sent() {
        Ok(v) if v.is_empty() => {}
        Ok(v) => c.fail("received alert answered", format!("{what}: sent {v:?}")),
        Err(e) => c.fail("received alert answered", format!("{what}: {e}")),
    }
    // afterwards: the same error again, and no more data
    if phase == Phase::Data {
        let closed = err == TlsError::CloseNotify;
        for _ in 0..4 {
            if c.rng.bool() {
                a.e.read(10);
                let st = a.e.wait(c);
                if !matches!(&st, Status::Done(Res::Err(e)) if *e == err) {
                    c.fail("error not kept", format!("{what}: {err:?}, then {st:?}"));
                    break;
                }
            } else {
                a.e.write(vec![3; 10]);
                let st = a.e.wait(c);
                match a.sent() {
                    Ok(v) if v.is_empty() => {}
                    Ok(v) if closed && v.iter().all(|r| r.0 == APP && r.1 == vec![3; 10]) => {}
                    r => {
                        c.fail("sent after a fatal alert", format!("{what}: {r:?}, write {st:?}"));
                        break;
                    }
                }
                if !closed && st.is_ok() {
                    c.fail("write succeeds after a fatal alert", what.clone());
                    break;
                }
            }
        }
    }
    c.count(&format!("received {:?} {}", phase, if server { "server" } else { "client" }), 1);
    if named(code).is_none() {
        c.count("received unknown codes", 1);
    }
    c.ev(format!("received {} {code} {level} {clear} {progress} {more} {err:?}", a.label()));
    c.sample("received", || format!("{what}: {err:?}"));
}
trait IsOk {
    fn is_ok(&self) -> bool;
}
impl IsOk for Status {
    fn is_ok(&self) -> bool {
        matches!(self, Status::Done(Res::Ok(_)))
    }
}

// ------------------------------------------------------------------ aborts
/// (name, allowed codes); the fault was fed to the endpoint
type Fault = (String, Vec<u8>);

fn judge(c: &mut Case, a: &mut At, f: Fault) {
    let what = format!("{} {}", a.label(), f.0);
    let mut st = a.e.wait(c);
    if st.blocked() && a.phase != Phase::Data {
        // errors in the certificate are reported after the Finished, which may be missing now
        a.e.conn.eof();
        st = a.e.wait(c);
        if st.blocked() {
            return c.fail("no reaction", what);
        }
        let out = a.sent();
        c.fail(&format!("no abort: {}", f.0), format!("{what}: then {st:?}, sent {out:?}"));
        return;
    }
    let err = match &st {
        Status::Done(Res::Err(e)) => *e,
        s => return c.fail(&format!("no abort: {}", f.0), format!("{what}: {s:?}")),
    };
    let mut v = match a.sent() {
        Ok(v) => v,
        Err(e) => return c.fail("abort not in one protected alert", format!("{what}: {err:?}, {e}")),
    };
    let rest = a.go_on(c);
    match a.sent() {
        Ok(w) => v.extend(w),
        Err(e) => return c.fail("sent after the alert", format!("{what}: {err:?}, {e}")),
    }
    if rest.iter().any(|s| s.is_ok() || s.blocked()) {
        c.fail("calls succeed after an abort", format!("{what}: {rest:?}"));
    }
    if v.len() != 1 {
        return c.fail(if v.is_empty() { "no alert sent" } else { "more than one record sent" }, format!("{what}: {err:?}, sent {v:02x?}"));
    }
    let (t, d) = &v[0];
    if *t != ALERT || d.len() != 2 {
        return c.fail("something else than an alert sent", format!("{what}: {err:?}, sent {v:02x?}"));
    }
    c.check(d[0] == 2, "alert not fatal", || format!("{what}: {d:?}"));
    c.check(d[1] == err.as_u8() && named(d[1]) == Some(format!("{err:?}").as_str()), "alert sent differs from the error returned", || format!("{what}: {d:?} sent, {err:?} returned"));
    c.check(f.1.contains(&d[1]), &format!("wrong alert for {}", f.0), || format!("{what}: alert {} ({err:?}), expected one of {:?}", d[1], f.1));
    c.count(&format!("abort {:?} {}", a.phase, if a.server { "server" } else { "client" }), 1);
    c.count(&format!("alert {}", d[1]), 1);
    c.ev(format!("abort {what} {err:?}"));
    c.sample(&f.0, || format!("{what}: {err:?}"));
}
fn feed(a: &mut At, b: &[u8]) {
    a.e.conn.feed(b);
    a.arm();
}
fn junk_records(c: &mut Case, a: &mut At) -> Fault {
    let s = |x: &str| x.to_string();
    let big = match c.rng.below(3) {
        0 => c.rng.range(16385, 16640 + 300),
        1 => *c.rng.pick(&[16385, 16386, 16640, 16641, 32768, 65535]),
        _ => c.rng.range(16385, 65535),
    };
    match c.rng.below(if a.out.is_some() { 15 } else { 5 }) {
        0 => {
            let t = *c.rng.pick(&[0u8, 1, 19, 24, 25, 63, 128, 255]);
            feed(a, &record(t, &[1, 2, 3]));
            (s("unknown record type"), vec![10])
        }
        1 => {
            // only the header is needed to see it
            let big = if a.out.is_some() { big.max(16384 + 257) } else { big };
            let t = if a.out.is_some() { APP } else { HS };
            let mut b = vec![t, 3, 3];
            b.extend(u16b(big));
            b.extend(c.rng.bytes(1));
            if c.rng.bool() {
                b.extend(vec![0; big - 1]);
            }
            feed(a, &b);
            (s("record too long"), vec![22])
        }
        2 => {
            let n = *c.rng.pick(&[0usize, 1, 3, 4, 100]);
            let d = vec![2; n];
            let pad = if a.out.is_some() { c.rng.below(3) } else { 0 };
            // an empty alert cannot be told apart from padding rules
            let b = a.seal(ALERT, &d, pad);
            feed(a, &b);
            (s("malformed alert"), vec![50, 10, 47])
        }
        3 => {
            // application data before the handshake is over; change_cipher_spec after it or before it
            let (t, n) = if a.phase == Phase::Data { (CCS, "change_cipher_spec after the handshake") } else { (APP, "application data during the handshake") };
            if a.phase == Phase::Data {
                if c.rng.bool() {
                    feed(a, &record(CCS, &[1]));
                } else {
                    let b = a.seal(CCS, &[1], 0);
                    feed(a, &b);
                }
            } else {
                let b = a.seal(t, b"hello", 0);
                feed(a, &b);
            }
            (s(n), vec![10])
        }
        4 => {
            // the only content allowed is one byte of value 1, and for a server nothing before the ClientHello
            let d = c.rng.pick(&[&[0u8][..], &[2], &[255], &[1, 1], &[], &[0, 1], &[1, 0], &[0x81], &[1, 1, 1, 1]]).to_vec();
            if a.phase == Phase::Keys && c.rng.one_in(4) {
                // protected
                let b = a.seal(CCS, &[1], 0);
                feed(a, &b);
                (s("protected change_cipher_spec"), vec![10])
            } else if a.server && a.phase == Phase::Start && c.rng.one_in(3) {
                feed(a, &record(CCS, &[1]));
                (s("change_cipher_spec before the ClientHello"), vec![10])
            } else {
                feed(a, &record(CCS, &d));
                (s("malformed change_cipher_spec"), vec![10, 50, 47])
            }
        }
        5 | 14 => {
            let n = c.rng.below(300);
            let d = c.rng.bytes(n);
            let t = if a.phase == Phase::Data { APP } else { HS };
            let mut b = a.seal(t, &d, 0);
            let i = c.rng.range(5, b.len() - 1);
            b[i] ^= 1 << c.rng.below(8);
            feed(a, &b);
            (s("altered record"), vec![20])
        }
        6 => {
            let n = *c.rng.pick(&[0usize, 1, 2, 15, 16]);
            let d = c.rng.bytes(n);
            feed(a, &record(APP, &d));
            (s("record too short for a tag"), vec![20, 50])
        }
        7 => {
            let n = c.rng.below(100);
            let k = a.out.as_mut().unwrap();
            let b = k.seal_inner(APP, 0x0303, &vec![0; n]);
            feed(a, &b);
            (s("no inner content type"), if n == 0 { vec![10, 50, 20] } else { vec![10] })
        }
        8 => {
            let t = *c.rng.pick(&[1u8, 19, 24, 99, 255]);
            let b = a.seal(t, &[1, 2], 0);
            feed(a, &b);
            (s("unknown inner type"), vec![10])
        }
        9 => {
            let k = a.out.as_mut().unwrap();
            let t = if a.phase == Phase::Data { APP } else { HS };
            let n = if c.rng.bool() { 16385 } else { c.rng.range(16385, 16385 + 200) };
            let mut inner = vec![5; n];
            inner.push(t);
            inner.resize(inner.len().min(16384 + 256 - 16), t);
            let b = k.seal_inner(APP, 0x0303, &inner);
            feed(a, &b);
            (s("inner plaintext too long"), vec![22])
        }
        10 => {
            let d = msg(FIN, &[0; 32]);
            feed(a, &record(HS, &d));
            (s("handshake record in the clear"), vec![10])
        }
        11 => {
            // the keys of a wrong sequence number
            let k = a.out.as_mut().unwrap();
            k.seq += c.rng.range(1, 3) as u64;
            let t = if a.phase == Phase::Data { APP } else { HS };
            let b = a.seal(t, b"abc", 0);
            feed(a, &b);
            (s("record missing"), vec![20])
        }
        12 => {
            if a.phase == Phase::Data {
                let t = if a.server { *c.rng.pick(&[CH, SH, NST, NST, NST, NST, EE, CERT, CV, FIN, 99]) } else { *c.rng.pick(&[CH, SH, EE, CERT, CV, FIN, 99]) };
                let b = a.seal(HS, &msg(t, &[0; 40]), 0);
                feed(a, &b);
                (s("handshake message after the handshake"), vec![10])
            } else {
                let t = *c.rng.pick(&[CH, SH, NST, CR, 99, 0, 255]);
                let b = a.seal(HS, &msg(t, &[0; 40]), 0);
                feed(a, &b);
                (s("handshake message out of order"), vec![10])
            }
        }
        _ => {
            // another record between the parts of a message
            let b = a.seal(HS, &msg(if a.server { CERT } else { EE }, &[0; 40])[..20].to_vec(), 0);
            a.e.conn.feed(&b);
            let b = if a.phase == Phase::Data { a.seal(APP, b"between", 0) } else { record(CCS, &[1]) };
            feed(a, &b);
            (s("record between the parts of a message"), vec![10])
        }
    }
}
fn records_fault(c: &mut Case, s: &Set) {
    let server = c.rng.bool();
    let phase = *c.rng.pick(&[Phase::Start, Phase::Keys, Phase::Keys, Phase::Data, Phase::Data]);
    let which = c.rng.below(2);
    let Some(mut a) = reach(c, s, server, phase, which, &mut no_edit, None) else { return };
    let f = junk_records(c, &mut a);
    judge(c, &mut a, f);
}
/// Faults in the ClientHello
fn hello_fault(c: &mut Case, s: &Set) {
    let which = *c.rng.pick(&[PLAIN, AUTH, NAMED]);
    let Some(mut a) = reach(c, s, true, Phase::Start, which, &mut no_edit, None) else { return };
    let mut h = a.hello.clone().unwrap();
    let mut raw = None;
    let f: (&str, Vec<u8>) = match c.rng.below(23) {
        0 => {
            h.del_ext(0x2b);
            ("no supported_versions", vec![70])
        }
        1 => {
            let l = *c.rng.pick(&[&[3u8, 3][..], &[3, 3, 3, 2], &[0x0a, 0x0a, 3, 3], &[3, 5]]);
            h.set_ext(0x2b, vec8(l));
            ("TLS 1.3 not offered", vec![70])
        }
        2 => {
            h.suites = c.rng.pick(&[&[0xc02fu16][..], &[0x1304], &[0x1305, 0x00ff], &[0x0a0a]]).to_vec();
            ("no common suite", vec![40])
        }
        3 => {
            h.compression = c.rng.pick(&[&[1u8][..], &[0, 1], &[1, 0], &[255]]).to_vec();
            ("compression", vec![47])
        }
        4 => {
            h.set_ext(0x33, ks_client(&[(0x17, vec![4; 65])]));
            h.set_ext(0x0a, u16list(&[0x17]));
            ("no common group", vec![40, 71])
        }
        5 => {
            h.del_ext(0x33);
            ("no key_share", vec![109, 40, 71])
        }
        6 => {
            let n = *c.rng.pick(&[0usize, 1, 31, 33]);
            let k = c.rng.bytes(n);
            h.set_ext(0x33, ks_client(&[(X25519, k)]));
            ("key share of the wrong size", vec![47, 50])
        }
        7 => {
            h.set_ext(0x33, ks_client(&[(X25519, vec![c.rng.below(2) as u8; 1].into_iter().chain(vec![0; 31]).collect())]));
            ("share of low order", vec![47])
        }
        8 if which == NAMED => {
            let n = *c.rng.pick(&["other.test", "name.tes", "name.testt", "a", "xname.test"]);
            h.set_ext(0, sni_ext(n));
            ("another server name", vec![112])
        }
        8 | 9 => {
            let mut m = h.msg();
            let n = c.rng.range(4, m.len() - 1);
            m.truncate(n);
            let l = n - 4;
            m[1..4].copy_from_slice(&[(l >> 16) as u8, (l >> 8) as u8, l as u8]);
            raw = Some(m);
            ("truncated ClientHello", vec![50, 70])
        }
        10 => {
            let mut m = h.msg();
            let k = c.rng.range(1, 20);
            m.extend(c.rng.bytes(k));
            let l = m.len() - 4;
            m[1..4].copy_from_slice(&[(l >> 16) as u8, (l >> 8) as u8, l as u8]);
            raw = Some(m);
            ("bytes behind the ClientHello", vec![50])
        }
        11 => {
            // those the server looks at
            let t = *c.rng.pick(&[0x2bu16, 0x33]);
            let e = (t, h.get_ext(t).unwrap().clone());
            let at = c.rng.below(h.exts.len() + 1);
            h.exts.insert(at, e);
            ("extension twice", vec![47, 50])
        }
        12 => {
            raw = Some(msg(*c.rng.pick(&[SH, EE, CERT, CV, FIN, NST, KU]), &h.body()));
            ("another message than ClientHello", vec![10])
        }
        13 => {
            raw = Some(msg(*c.rng.pick(&[0u8, 3, 99, 200]), &h.body()));
            ("unknown message", vec![10, 50])
        }
        14 => {
            let mut m = h.msg();
            m.extend([FIN, 0, 0, 0]);
            raw = Some(m);
            ("message behind the ClientHello", vec![10])
        }
        15 => {
            h.sid = c.rng.bytes(33);
            ("session id too long", vec![50, 47])
        }
        16 => {
            let mut m = h.msg();
            m.truncate(4);
            m[1..4].copy_from_slice(c.rng.pick(&[[2u8, 0, 1], [255, 255, 255], [3, 0, 0]]));
            m.extend(vec![0; 200]);
            raw = Some(m);
            ("message too long", vec![50, 47, 22, 10])
        }
        17 => {
            let d = *c.rng.pick(&[&[][..], &[0], &[5, 3, 4], &[3, 3, 4, 3], &[2, 3, 4, 3, 4]]);
            h.set_ext(0x2b, d.to_vec());
            ("malformed supported_versions", vec![50, 70])
        }
        18 => {
            // well-formed extensions behind the end the length gives
            let k = c.rng.range(1, 3);
            let inside: usize = h.exts.iter().map(|e| 4 + e.1.len()).sum();
            for i in 0..k {
                let n = c.rng.below(6);
                h.exts.push((0x7a00 + i as u16, c.rng.bytes(n)));
            }
            let mut m = h.msg();
            let all: usize = h.exts.iter().map(|e| 4 + e.1.len()).sum();
            let at = m.len() - all - 2;
            m[at..at + 2].copy_from_slice(&u16b(inside));
            raw = Some(m);
            ("extensions behind the list of the ClientHello", vec![50])
        }
        19 => {
            // the last extension ends behind the end the length gives
            let mut m = h.msg();
            let all: usize = h.exts.iter().map(|e| 4 + e.1.len()).sum();
            let at = m.len() - all - 2;
            let d = c.rng.range(1, (4 + h.exts.last().unwrap().1.len()).min(all) - 1);
            let n = if c.rng.bool() { all - d } else { all + d };
            m[at..at + 2].copy_from_slice(&u16b(n));
            raw = Some(m);
            ("wrong length of the extensions of the ClientHello", vec![50, 70])
        }
        20 => {
            let mut d = sni_ext("name.test");
            let n = d.len();
            let by = c.rng.range(1, 300);
            match c.rng.below(5) {
                0 => d[..2].copy_from_slice(&u16b(n - 2 + by)),
                1 => d[..2].copy_from_slice(&u16b(n - 2 - by.min(n - 2))),
                2 => d[3..5].copy_from_slice(&u16b(n - 5 + by)),
                3 => d.truncate(*c.rng.pick(&[0, 1, 4, n - 1])),
                _ => d.push(c.rng.u8()),
            }
            h.set_ext(0, d);
            ("malformed server_name", vec![50])
        }
        21 => {
            let mut d = h.get_ext(0x33).unwrap().clone();
            let n = d.len() - 2;
            let by = c.rng.range(1, 300);
            match c.rng.below(3) {
                0 => d[..2].copy_from_slice(&u16b(n + by)),
                1 => d[..2].copy_from_slice(&u16b(n - by.min(n))),
                _ => d.push(c.rng.u8()),
            }
            h.set_ext(0x33, d);
            ("wrong length of the key_share", vec![50])
        }
        _ => {
            let d = *c.rng.pick(&[&[][..], &[0], &[0, 9, 0, 0x1d], &[0, 4, 0, 0x1d, 0, 32]]);
            h.set_ext(0x33, d.to_vec());
            ("malformed key_share", vec![50, 47, 109])
        }
    };
    let m = raw.unwrap_or_else(|| h.msg());
    let fr = if f.0.starts_with("message behind") { Framing::PerMessage } else { Framing::random(&mut c.rng) };
    for p in fr.cut(&[m], &mut c.rng) {
        a.e.conn.feed(&record(HS, &p));
    }
    judge(c, &mut a, (f.0.into(), f.1));
}
/// Faults in the ServerHello
fn server_hello_fault(c: &mut Case, s: &Set) {
    let Some(mut a) = reach(c, s, false, Phase::Start, 0, &mut no_edit, None) else { return };
    let (info, _) = a.info.clone().unwrap();
    let spec = ServerSpec::new(a.suite, &s.w.server, &mut c.rng);
    let mut sid = info.sid.clone();
    let mut suite = a.suite;
    let mut ver = [3u8, 3];
    let mut comp = 0;
    let mut random = spec.random;
    let mut share = (X25519, crate::ossl::x25519_public(&spec.secret).to_vec());
    let mut vers = Some(vec![3, 4]);
    let mut extra = vec![];
    let mut has_share = true;
    let mut hrr = false;
    let mut kind = c.rng.below(19);
    let mut behind = vec![];
    if kind == 0 && sid.is_empty() {
        kind = 1;
    }
    let mut trunc = None;
    let mut typ = SH;
    let f: (&str, Vec<u8>) = match kind {
        0 => {
            match c.rng.below(3) {
                0 => sid[3] ^= 1,
                1 => sid.clear(),
                _ => {
                    sid.pop();
                }
            }
            ("another session id", vec![47])
        }
        1 => {
            suite = *c.rng.pick(&[0x1304u16, 0x1305, 0xc02f, 0x0035]);
            ("suite not offered", vec![47, 40, 71])
        }
        2 => {
            comp = *c.rng.pick(&[1u8, 255]);
            ("compression", vec![47])
        }
        3 => {
            vers = Some(vec![3, *c.rng.pick(&[3u8, 2, 5])]);
            ("another version selected", vec![47, 70])
        }
        4 => {
            vers = None;
            ("TLS 1.2 selected", vec![70, 47])
        }
        5 => {
            has_share = false;
            ("no key_share", vec![109, 47, 40])
        }
        6 => {
            share = (*c.rng.pick(&[0x17u16, 0x18, 0x1e, 0x11ec]), vec![4; 65]);
            ("group not offered", vec![47, 40, 71])
        }
        7 => {
            share.1 = vec![0; 32];
            share.1[0] = c.rng.below(2) as u8;
            ("share of low order", vec![47])
        }
        8 => {
            let n = *c.rng.pick(&[0usize, 1, 31, 33]);
            share.1 = c.rng.bytes(n);
            ("key share of the wrong size", vec![47, 50])
        }
        9 => {
            extra = ext(0x33, &[0, 0x17, 0, 1, 4]);
            ("two key shares", vec![47, 50, 40, 71])
        }
        10 => {
            trunc = Some(());
            ("truncated ServerHello", vec![50, 70, 47])
        }
        11 => {
            typ = *c.rng.pick(&[CH, EE, CERT, FIN, NST, CR]);
            ("another message than ServerHello", vec![10])
        }
        12 => {
            random = HRR_RANDOM;
            hrr = true;
            ("HelloRetryRequest", vec![10, 40, 47, 50, 71, 109])
        }
        13 => {
            ver = *c.rng.pick(&[[3u8, 1], [3, 0], [3, 4], [2, 0]]);
            ("legacy version", vec![47, 70])
        }
        14 => {
            extra = ext(0x2b, &[3, 4]);
            ("extension twice", vec![47, 50])
        }
        15 => {
            typ = *c.rng.pick(&[0u8, 3, 99, 200]);
            ("unknown message", vec![10, 50])
        }
        16 => ("message behind the ServerHello", vec![10]),
        17 => {
            let k = c.rng.range(1, 3);
            for i in 0..k {
                let n = c.rng.below(6);
                behind.extend(ext(0x7a00 + i as u16, &c.rng.bytes(n)));
            }
            ("extensions behind the list of the ServerHello", vec![50])
        }
        _ => {
            let k = c.rng.range(1, 20);
            behind = c.rng.bytes(k);
            ("bytes behind the ServerHello", vec![50])
        }
    };
    let mut b = ver.to_vec();
    b.extend(random);
    b.extend(vec8(&sid));
    b.extend(u16b(suite as usize));
    b.push(comp);
    let mut e = vec![];
    if let Some(v) = vers {
        e.extend(ext(0x2b, &v));
    }
    if has_share {
        let mut k = u16b(share.0 as usize).to_vec();
        if !hrr {
            k.extend(vec16(&share.1));
        }
        e.extend(ext(0x33, &k));
    }
    e.extend(extra);
    b.extend(vec16(&e));
    b.extend(behind);
    if trunc.is_some() {
        let n = c.rng.below(b.len());
        b.truncate(n);
    }
    let mut m = msg(typ, &b);
    if kind == 16 {
        m.extend(msg(EE, &[0, 0]));
    }
    let fr = if f.0.starts_with("message behind") { Framing::PerMessage } else { Framing::random(&mut c.rng) };
    for p in fr.cut(&[m], &mut c.rng) {
        a.e.conn.feed(&record(HS, &p));
    }
    judge(c, &mut a, (f.0.into(), f.1));
}
fn spoil_last(m: &mut [u8], rng: &mut Rng) {
    let n = m.len();
    let i = rng.range(4, n - 1);
    m[i] ^= 1 << rng.below(8);
}
/// An expired, not yet valid or foreign certificate with its key
fn odd_ident(c: &mut Case, s: &Set, client: bool) -> (Ident, &'static str, Vec<u8>) {
    let ca = ("Test CA", &s.w.ca.key);
    let y = 365 * 86400;
    match c.rng.below(if client { 4 } else { 2 }) {
        0 => (ident_at("x", client.then_some(ca), NOW - 2 * y, NOW - 1, &mut c.rng), "expired certificate", vec![45]),
        1 => (ident_at("x", client.then_some(ca), NOW + 1, NOW + y, &mut c.rng), "certificate not yet valid", vec![45, 42]),
        2 => (ident("x", Some(("Test CA", &s.w.other_ca.key)), &mut c.rng), "certificate of another CA", vec![48]),
        _ => (ident("x", None, &mut c.rng), "self-signed certificate", vec![48]),
    }
}
/// A message with bytes behind its last field
fn behind(m: &[u8], rng: &mut Rng) -> Vec<u8> {
    let n = rng.range(1, 20);
    let mut b = m[4..].to_vec();
    b.extend(rng.bytes(n));
    msg(m[0], &b)
}
/// A Certificate whose list, or first certificate, is given another length
fn wrong_length(mut m: Vec<u8>, rng: &mut Rng) -> Vec<u8> {
    let at = m[4] as usize + *rng.pick(&[5usize, 8]);
    let n = (m[at] as usize) << 16 | (m[at + 1] as usize) << 8 | m[at + 2] as usize;
    // one certificate with an empty list of extensions: no other length leaves it well-formed
    let d = *rng.pick(&[1usize, 2, 3, 5, 255, 256]);
    let n = if rng.bool() { n + d } else { n.saturating_sub(d) };
    m[at..at + 3].copy_from_slice(&[(n >> 16) as u8, (n >> 8) as u8, n as u8]);
    m
}
/// A message or just the beginning of it
fn some_of(mut m: Vec<u8>, rng: &mut Rng) -> Vec<u8> {
    if rng.bool() {
        m.truncate(rng.range(1, m.len()));
    }
    m
}
/// Faults in the client's second flight
fn client_flight_fault(c: &mut Case, s: &Set) {
    let which = *c.rng.pick(&[PLAIN, AUTH, AUTH, AUTH, PICKY]);
    let Some(mut a) = reach(c, s, true, Phase::Keys, which, &mut no_edit, None) else { return };
    let mut x = a.sess.clone().unwrap();
    let mut id = None;
    let mut chain = vec![(s.w.client.der.clone(), vec![])];
    let mut nokey = false;
    let mut rng = c.rng.clone();
    let kind = if which == PLAIN { c.rng.below(4) } else { c.rng.below(14) };
    let f: (&str, Vec<u8>) = match (which, kind) {
        (PICKY, _) => ("certificate refused by the application", vec![49]),
        (_, 0) => ("wrong Finished", vec![51]),
        (_, 1) => ("Finished of the wrong length", vec![50, 51]),
        (_, 2) => ("Finished missing its order", vec![10]),
        (_, 3) => ("message behind the Finished", vec![10]),
        (_, 4) => {
            chain = vec![];
            nokey = true;
            ("no certificate", vec![116])
        }
        (_, 5) => ("wrong CertificateVerify", vec![51, 42]),
        (_, 6) => {
            chain = vec![(EcKey::random(&mut c.rng).public.to_vec(), vec![])];
            ("certificate that is none", vec![50, 42, 43, 46])
        }
        (_, 7) => ("signature scheme not offered", vec![47]),
        (_, 8) => ("bytes behind the certificates", vec![50]),
        (_, 9) => ("bytes behind the signature", vec![50]),
        (_, 10) => ("certificate with a context", vec![47, 10, 40, 50]),
        (_, 11) => ("wrong length in the Certificate", vec![50]),
        _ => {
            let (i, n, v) = odd_ident(c, s, true);
            chain = vec![(i.der.clone(), vec![])];
            id = Some(i);
            (n, v)
        }
    };
    let key = id.as_ref().map(|i| &i.key).unwrap_or(&s.w.client.key);
    let wrong = EcKey::random(&mut rng);
    let key = if kind == 5 && which != PICKY && which != PLAIN && rng.bool() { &wrong } else { key };
    let auth = ClientAuth { chain, key: if nokey { None } else { Some(key) } };
    let k = if which == PICKY { 99 } else { kind };
    let spoil_cv = kind == 5 && which != PICKY && std::ptr::eq(key, &s.w.client.key);
    let mut edit = |l: &'static str, mut m: Vec<u8>| -> Vec<Vec<u8>> {
        match (l, k) {
            ("Finished", 0) => {
                spoil_last(&mut m, &mut rng);
                vec![m]
            }
            ("Finished", 1) => {
                let n = *rng.pick(&[0usize, 1, 16, 31, 33, 47, 49, 64]);
                let n = if n + 4 == m.len() { n + 1 } else { n };
                let mut b = m[4..].to_vec();
                b.resize(n, 0);
                vec![msg(FIN, &b)]
            }
            ("Finished", 2) if which == PLAIN => vec![msg(*rng.pick(&[CERT, CV, EE, CH]), &m[4..])],
            ("Certificate", 2) => vec![],
            ("Finished", 3) => {
                m.extend(some_of(msg(KU, &[0]), &mut rng));
                vec![m]
            }
            ("CertificateVerify", 5) if spoil_cv => {
                // one bit of r or s
                let n = m.len();
                let i = n - 1 - rng.below(20);
                m[i] ^= 1 << rng.below(8);
                vec![m]
            }
            ("CertificateVerify", 7) => {
                m[4..6].copy_from_slice(rng.pick(&[[8u8, 4], [4, 1], [5, 3], [8, 7], [2, 3]]));
                vec![m]
            }
            ("Certificate", 8) | ("CertificateVerify", 9) => vec![behind(&m, &mut rng)],
            ("Certificate", 10) => {
                let (_, ch) = parse_certificate(&m).unwrap();
                vec![certificate_msg(&[1, 2, 3], &ch)]
            }
            ("Certificate", 11) => vec![wrong_length(m, &mut rng)],
            _ => vec![m],
        }
    };
    let fl = x.client_flight(if which == PLAIN { None } else { Some(&auth) }, &mut edit);
    // the Finished may still be the one the server expects although the message was not sent
    let mut d = a.out.clone().unwrap();
    let fr = if kind == 3 { Framing::PerMessage } else { Framing::random(&mut c.rng) };
    for r in protect(&mut d, &fl, fr, 0, &mut c.rng) {
        a.e.conn.feed(&r);
    }
    let mut f = f;
    if which != PLAIN && which != PICKY && kind == 5 {
        // the implementation may look at the Finished instead
        f.1.push(51);
    }
    judge(c, &mut a, (f.0.into(), f.1));
}
/// Faults in the server's encrypted flight
fn server_flight_fault(c: &mut Case, s: &Set) {
    let which = c.rng.below(2);
    let kind = match c.rng.below(15) {
        12 if which != AUTH => 13,
        k => k,
    };
    let mut rng = c.rng.clone();
    let mut id = None;
    let f: (&str, Vec<u8>) = match kind {
        0 => ("wrong Finished", vec![51]),
        1 => ("Finished of the wrong length", vec![50, 51]),
        2 => ("message left out", vec![10]),
        3 => ("message behind the Finished", vec![10]),
        4 => ("no certificate", vec![50, 116, 42, 47]),
        5 => ("wrong CertificateVerify", vec![51, 42]),
        6 => ("certificate that is none", vec![50, 42, 43, 46]),
        7 => ("signature scheme not offered", vec![47]),
        8 => ("certificate with a context", vec![47, 10, 40, 50]),
        9 => ("bytes behind the certificates", vec![50]),
        10 => ("bytes behind the signature", vec![50]),
        11 => ("wrong length in the Certificate", vec![50]),
        12 => ("CertificateRequest twice", vec![10]),
        _ => {
            let (i, n, v) = odd_ident(c, s, false);
            id = Some(i);
            (n, v)
        }
    };
    let drop = *rng.pick(&["EncryptedExtensions", "Certificate", "CertificateVerify"]);
    let mut edit = |l: &'static str, mut m: Vec<u8>| -> Vec<Vec<u8>> {
        match (l, kind) {
            ("Finished", 0) => {
                spoil_last(&mut m, &mut rng);
                vec![m]
            }
            ("Finished", 1) => {
                let n = *rng.pick(&[0usize, 1, 16, 31, 33, 47, 49, 64]);
                let mut b = m[4..].to_vec();
                b.resize(if n == b.len() { n + 1 } else { n }, 0);
                vec![msg(FIN, &b)]
            }
            (l, 2) if l == drop => vec![],
            ("Finished", 3) => {
                m.extend(some_of(msg(NST, &[0; 20]), &mut rng));
                vec![m]
            }
            ("Certificate", 4) => vec![certificate_msg(&[], &[])],
            ("CertificateVerify", 5) => {
                let n = m.len();
                let i = n - 1 - rng.below(20);
                m[i] ^= 1 << rng.below(8);
                vec![m]
            }
            ("Certificate", 6) => {
                let n = rng.range(1, 300);
                let d = rng.bytes(n);
                vec![certificate_msg(&[], &[(d, vec![])])]
            }
            ("CertificateVerify", 7) => {
                m[4..6].copy_from_slice(rng.pick(&[[8u8, 4], [4, 1], [5, 3], [8, 7], [2, 3]]));
                vec![m]
            }
            ("Certificate", 8) => {
                let (_, ch) = parse_certificate(&m).unwrap();
                vec![certificate_msg(&[1, 2, 3], &ch)]
            }
            ("Certificate", 9) | ("CertificateVerify", 10) => vec![behind(&m, &mut rng)],
            ("Certificate", 11) => vec![wrong_length(m, &mut rng)],
            ("CertificateRequest", 12) => vec![m.clone(), m],
            _ => vec![m],
        }
    };
    let Some(mut a) = reach(c, s, false, Phase::Keys, which, &mut edit, id.as_ref()) else { return };
    let prot = a.prot.clone();
    let fr = if kind == 3 { Framing::PerMessage } else { Framing::random(&mut c.rng) };
    let mut d = a.out.clone().unwrap();
    for r in protect(&mut d, &prot, fr, 0, &mut c.rng) {
        a.e.conn.feed(&r);
    }
    judge(c, &mut a, (f.0.into(), f.1));
}
/// Alerts written by the application
fn written(c: &mut Case, s: &Set) {
    let server = c.rng.bool();
    let all = all_errors();
    let Some(mut a) = reach(c, s, server, Phase::Data, PLAIN, &mut no_edit, None) else { return };
    if c.rng.one_in(8) {
        // no channel at all
        a.e = Eut::new(Some(NOW));
        a.e.bare();
        let st = a.e.wait(c);
        assert!(st.is_ok());
        a.sent = None;
    }
    for _ in 0..c.rng.range(1, 3) {
        let (code, e) = *c.rng.pick(&all);
        if c.rng.bool() && a.sent.is_some() {
            a.e.write(vec![9; 10]);
            a.e.wait(c);
            match a.sent() {
                Ok(v) if v.len() <= 1 => {}
                r => return c.fail("write before an alert", format!("{r:?}")),
            }
        }
        a.e.alert(e);
        let st = a.e.wait(c);
        let r = a.sent();
        let want = vec![(ALERT, vec![if code == 0 { 1 } else { 2 }, code])];
        c.check(st.is_ok() && r.as_ref() == Ok(&want), "alert written differs", || format!("{} write_alert({e:?}): {st:?}, sent {r:02x?}", a.label()));
        c.ev(format!("written {} {code} {}", a.label(), a.sent.is_some()));
        c.count("alerts written", 1);
        c.count(&format!("written {code}"), 1);
    }
}
/// The connection ends without an alert: an error other than the orderly close, and sticky calls do not crash
fn abrupt(c: &mut Case, s: &Set) {
    let server = c.rng.bool();
    let phase = *c.rng.pick(&[Phase::Start, Phase::Keys, Phase::Data]);
    let Some(mut a) = reach(c, s, server, phase, 0, &mut no_edit, None) else { return };
    a.arm();
    let t = if phase == Phase::Data { APP } else { HS };
    let b = a.seal(t, &[1; 50], 0);
    let n = c.rng.below(b.len());
    a.e.conn.feed(&b[..n]);
    if c.rng.bool() {
        a.e.conn.eof();
    } else {
        a.e.conn.rst();
    }
    let what = format!("{} ended after {n} bytes of a record", a.label());
    match a.e.wait(c) {
        Status::Done(Res::Err(e)) => {
            c.check(e != TlsError::CloseNotify && named(e.as_u8()).is_none(), "abrupt end reported as an alert", || format!("{what}: {e:?}"));
            c.ev(format!("abrupt {} {e:?} {}", a.label(), n.min(6)));
        }
        s => c.fail("abrupt end not reported", format!("{what}: {s:?}")),
    }
    match a.sent() {
        Ok(v) => {
            c.check(v.len() <= 1 && v.iter().all(|r| r.0 == ALERT), "sent after an abrupt end", || format!("{what}: {v:?}"));
        }
        Err(e) => c.fail("sent after an abrupt end", format!("{what}: {e}")),
    }
    c.count("abrupt ends", 1);
}
fn codes(c: &mut Case) {
    for code in 0..=255u8 {
        c.evals(1);
        let e = TlsError::new(code);
        match named(code) {
            Some(n) => {
                c.check(format!("{e:?}") == n, "code names another error", || format!("new({code}) = {e:?}, RFC 8446: {n}"));
                c.check(e.as_u8() == code, "code does not convert back", || format!("new({code}).as_u8() = {}", e.as_u8()));
            }
            None => {
                c.check(e != TlsError::CloseNotify, "unknown code taken for close_notify", || format!("new({code}) = {e:?}"));
            }
        }
        c.distinct(&[code]);
    }
    for (code, e) in all_errors() {
        c.check(e.as_u8() == code, "error has another code", || format!("{e:?}.as_u8() = {}, RFC 8446: {code}", e.as_u8()));
        c.check(TlsError::new(code) == e, "error does not convert back", || format!("{e:?}"));
        let l = AlertLevel::get_from_error(e) as u8;
        c.check(l == if code == 0 { 1 } else { 2 }, "level of an error", || format!("{e:?}: {l}"));
    }
    c.ev("codes");
    c.count("codes", 256);
}

pub fn run(rep: &Rep) {
    let s = Set::new(rep.seed);
    let _ = CertSpec::new;
    let _ = tls::no_edit;
    rep.group("codes", 1, codes);
    rep.group("received", rep.n(3_000, 60_000), |c| received(c, &s));
    rep.group("records", rep.n(3_000, 60_000), |c| records_fault(c, &s));
    rep.group("client hello", rep.n(1_500, 30_000), |c| hello_fault(c, &s));
    rep.group("server hello", rep.n(1_500, 30_000), |c| server_hello_fault(c, &s));
    rep.group("client flight", rep.n(1_500, 20_000), |c| client_flight_fault(c, &s));
    rep.group("server flight", rep.n(1_500, 20_000), |c| server_flight_fault(c, &s));
    rep.group("written", rep.n(800, 10_000), |c| written(c, &s));
    rep.group("abrupt", rep.n(600, 6_000), |c| abrupt(c, &s));
    for r in ["server", "client"] {
        for p in ["Start", "Keys", "Data"] {
            rep.require(&format!("received {p} {r}"), 100);
            rep.require(&format!("abort {p} {r}"), 100);
        }
    }
    for a in [10, 20, 22, 40, 45, 47, 48, 49, 50, 51, 70, 112, 116] {
        rep.require(&format!("alert {a}"), 3);
    }
    rep.require("codes", 256);
    rep.require("alerts written", 200);
}
