//! C08: the server completes TLS 1.3 with every conforming client
use crate::der::{self, pem64, CertSpec};
use crate::eut::*;
use crate::hello::conforming;
use crate::ossl::{EcKey, Ssl, SslOpts, SslRes};
use crate::rep::{Case, Rep};
use crate::rng::Rng;
use crate::sim::{self, Caps, Eut, Res, Status};
use crate::tls::*;
use anothertls::ServerConnection;
use std::sync::Arc;

pub const RULE: &str = "distinct = (suites offered, suite chosen, extension types in their order, session id length, framing, client certificate, server identity); OpenSSL clients: their settings";

pub struct Srv {
    pub srv: Arc<ServerConnection>,
    pub der: Vec<u8>,
    pub auth: bool,
    pub what: String,
}
/// Servers with different identities, certificates up to more than one record
pub fn servers(w: &World, seed: u64, n: usize) -> Vec<Srv> {
    let mut rng = Rng::new(seed ^ 0x5e27e25);
    (0..n)
        .map(|i| {
            let key = match i {
                // public point coordinates with leading zero bytes
                1 => loop {
                    let k = EcKey::random(&mut rng);
                    if k.public[1] == 0 || k.public[33] == 0 {
                        break k;
                    }
                },
                2 => {
                    let mut s = [0u8; 32];
                    s[31] = 5;
                    EcKey::from_secret(s)
                }
                _ => EcKey::random(&mut rng),
            };
            let mut spec = CertSpec::new("server.test", "server.test", NOW - 1000, NOW + 1000, &key.public, &mut rng);
            let extra = [0, 0, 0, 300, 3000, 16300, 17000, 40000][i % 8];
            if extra > 0 {
                let v = der::ext("2.16.840.1.113730.1.13", None, &der::tlv(0x16, &vec![b'x'; extra]));
                spec.extensions = Some(vec![v]);
            }
            let d = spec.sign(&key);
            let cert = w.dir.file(&format!("c08-{i}.cert"), pem64("CERTIFICATE", &d).as_bytes());
            let kf = w.dir.file(&format!("c08-{i}.key"), pem64("EC PRIVATE KEY", &key.sec1_der()).as_bytes());
            let auth = i % 2 == 1;
            let mut b = anothertls::ServerConfigBuilder::new().add_cert_pem(cert).add_privkey_pem(kf);
            if auth {
                b = b.add_client_cert_ca(w.ca_cert.clone());
            }
            Srv { srv: sim::server(b.build().expect("config")), der: d, auth, what: format!("identity {i} ({extra} bytes of extension)") }
        })
        .collect()
}

fn talk(c: &mut Case, l: &mut Link, ctx: &str) {
    for _ in 0..2 {
        let n = c.rng.range(1, 500);
        let d = c.rng.bytes(n);
        let r = l.tx().seal(APP, &d, 0);
        l.eut.conn.feed(&r);
        let (got, _) = read_all(c, &mut l.eut, &mut || 1000, 10_000);
        if got != d {
            c.fail("data exchange", format!("{ctx}: {} of {} bytes arrive", got.len(), n));
            return;
        }
        // the reader is waiting now
        let r = l.tx().seal(APP, b"!", 0);
        l.eut.conn.feed(&r);
        if !matches!(l.eut.wait(c), Status::Done(Res::Ok(d)) if d == b"!") {
            c.fail("data exchange", format!("{ctx}: a single byte does not arrive"));
            return;
        }
        l.eut.write(d.clone());
        let st = l.eut.wait(c);
        let out = l.eut.conn.take();
        match open_app(l.rx(), &out) {
            Ok(o) if o.data == d && o.alerts.is_empty() && o.other.is_empty() => {}
            x => {
                c.fail("data exchange", format!("{ctx}: {st:?}; {:?}", x.map(|o| o.data.len())));
                return;
            }
        }
    }
    c.count("connections with data exchange", 1);
}

fn one(c: &mut Case, w: &World, srvs: &[Srv]) {
    let s = c.rng.pick(srvs);
    let h = conforming(&mut c.rng);
    let mut o = Opts::new(0);
    let exts: Vec<u16> = h.exts.iter().map(|e| e.0).collect();
    o.framing = Framing::random(&mut c.rng);
    o.pad = *c.rng.pick(&[0, 0, 1, 40, 3000]);
    o.recv = Caps::random(&mut c.rng);
    o.send = Caps::random(&mut c.rng);
    o.ccs = c.rng.bool();
    o.more_ccs = *c.rng.pick(&[0, 0, 1, 2, 5]);
    o.client_auth = s.auth;
    let ctx = format!(
        "suites {:04x?}, extensions {exts:04x?}, session id of {} bytes, ClientHello of {} bytes, {:?}, ccs {} {}, {}",
        h.suites.iter().take(12).collect::<Vec<_>>(),
        h.sid.len(),
        h.msg().len(),
        o.framing,
        o.ccs,
        o.more_ccs,
        s.what
    );
    let key = format!("{:x?} {exts:x?} {} {:?} {}", h.suites, h.sid.len(), o.framing, s.what);
    let big = h.msg().len() > 16384;
    o.hello = Some(h);
    let more = o.more_ccs;
    match link_server(c, w, &s.srv, o) {
        Ok(mut l) => {
            if l.sess.server_chain != [s.der.clone()] {
                c.fail("certificate", format!("{ctx}: the server sent {} certificates, not exactly the configured one", l.sess.server_chain.len()));
                return;
            }
            if s.auth != l.sess.cert_request.is_some() {
                c.fail("certificate request", ctx);
                return;
            }
            c.count(&format!("suite {:04x}", l.sess.suite), 1);
            c.count("ClientHello longer than one record", big as u64);
            c.count("client certificates", s.auth as u64);
            c.count("with more change_cipher_spec", (more > 0) as u64);
            c.ev(key);
            talk(c, &mut l, &ctx);
            c.sample(&format!("{:04x}", l.sess.suite), || ctx);
        }
        Err(e) => c.fail("handshake with a conforming client fails", format!("{ctx}: {e}")),
    }
}

/// The server's own certificate at every size where a length field or a record boundary is near
fn sizes(c: &mut Case, w: &World, sizes: &[usize]) {
    let n = sizes[c.idx % sizes.len()];
    let key = EcKey::random(&mut c.rng);
    let spec = CertSpec::new("server.test", "server.test", NOW - 1000, NOW + 1000, &key.public, &mut c.rng);
    let Some(d) = der::sign_sized(&spec, &key, n) else {
        c.count("sizes not reachable", 1);
        return;
    };
    let cert = w.dir.file(&format!("c08-s{}.cert", c.idx), pem64("CERTIFICATE", &d).as_bytes());
    let kf = w.dir.file(&format!("c08-s{}.key", c.idx), pem64("EC PRIVATE KEY", &key.sec1_der()).as_bytes());
    let ctx = format!("certificate of exactly {n} bytes");
    let b = anothertls::ServerConfigBuilder::new().add_cert_pem(cert).add_privkey_pem(kf).build();
    let Some(b) = c.ok(b.map_err(|e| format!("{ctx}: {e:?}")), "configuration refused") else { return };
    let srv = sim::server(b);
    let mut o = Opts::new(*c.rng.pick(&SUITES));
    o.recv = Caps::random(&mut c.rng);
    match link_server(c, w, &srv, o) {
        Ok(mut l) => {
            if l.sess.server_chain != [d.clone()] {
                c.fail("certificate", format!("{ctx}: not what the server sends"));
                return;
            }
            c.ev(format!("size {n}"));
            c.count("certificate sizes", 1);
            talk(c, &mut l, &ctx);
        }
        Err(e) => c.fail("handshake with a conforming client fails", format!("{ctx}: {e}")),
    }
    if c.idx % 4 == 0 && n < 100_000 {
        // and OpenSSL, which takes up to 100 KiB, thinks so too
        let srvs = [Srv { srv, der: d, auth: false, what: ctx }];
        openssl(c, w, &srvs);
    }
}
fn openssl(c: &mut Case, w: &World, srvs: &[Srv]) {
    let s = c.rng.pick(srvs);
    let mut names = vec!["TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256"];
    c.rng.shuffle(&mut names);
    names.truncate(c.rng.range(1, 3));
    let suites = names.join(":");
    let groups = *c.rng.pick(&["X25519", "X25519:P-256", "X25519:P-384:X448"]);
    let name = if c.rng.bool() { Some("server.test") } else { None };
    let so = SslOpts {
        cert: if s.auth { Some((&w.client.der, &w.client.key)) } else { None },
        suites: &suites,
        groups: Some(groups),
        sigalgs: *c.rng.pick(&[None, Some("ECDSA+SHA256"), Some("RSA+SHA256:ECDSA+SHA384:ECDSA+SHA256")]),
        server_name: name,
        block_padding: *c.rng.pick(&[0, 0, 16, 512]),
        no_middlebox_compat: c.rng.bool(),
        ..Default::default()
    };
    let ctx = format!("OpenSSL client: {suites}, {groups}, {:?}, sni {name:?}, {}", so.sigalgs, s.what);
    let mut cl = Ssl::new(&so);
    let mut e = Eut::new(Some(NOW));
    e.conn.set_caps(Caps::random(&mut c.rng), Caps::random(&mut c.rng));
    e.accept(&s.srv);
    let mut hs = SslRes::WantRead;
    let mut st = Status::Blocked;
    for _ in 0..6 {
        if hs == SslRes::WantRead {
            hs = cl.handshake();
        }
        let t = cl.take();
        e.conn.feed(&t);
        st = e.wait(c);
        cl.feed(&e.conn.take());
        if !st.blocked() && hs != SslRes::WantRead {
            break;
        }
    }
    if !matches!(&st, Status::Done(Res::Ok(_))) || !matches!(hs, SslRes::Ok(_)) {
        c.fail("handshake with OpenSSL fails", format!("{ctx}: server {st:?}, OpenSSL {hs:?}"));
        return;
    }
    if cl.peer_cert().as_ref() != Some(&s.der) {
        c.fail("certificate", format!("{ctx}: OpenSSL got another certificate"));
    }
    let n = c.rng.range(1, 2000);
    let d = c.rng.bytes(n);
    assert!(matches!(cl.write(&d), SslRes::Ok(k) if k == d.len()));
    let t = cl.take();
    e.conn.feed(&t);
    let mut got = vec![];
    while got.len() < d.len() {
        e.read(3000);
        match e.wait(c) {
            Status::Done(Res::Ok(x)) => got.extend(x),
            s => {
                c.fail("data exchange", format!("{ctx}: {s:?}"));
                return;
            }
        }
    }
    e.write(d.clone());
    e.wait(c);
    cl.feed(&e.conn.take());
    let mut b = vec![0; 4000];
    let r = cl.read(&mut b);
    if got != d || r != SslRes::Ok(n) || b[..n] != d[..] {
        c.fail("data exchange", format!("{ctx}: OpenSSL reads {r:?}"));
        return;
    }
    c.count("OpenSSL clients", 1);
    c.ev(format!("{ctx} {}", cl.suite()));
    c.sample("openssl", || ctx);
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    let srvs = servers(&w, r.seed, r.n(8, 24));
    r.group("conforming", r.n(1600, 30000), |c| one(c, &w, &srvs));
    r.group("openssl", r.n(300, 4000), |c| openssl(c, &w, &srvs));
    let cs = der::cert_sizes();
    r.group("certificate sizes", cs.len() * r.n(1, 8), |c| sizes(c, &w, &cs));
    r.require("certificate sizes", 90);
    r.require("connections with data exchange", 500);
    r.require("handshakes with interrupted socket calls", 150);
    r.require("OpenSSL clients", 50);
    for s in SUITES {
        r.require(&format!("suite {s:04x}"), 20);
    }
    r.require("ClientHello longer than one record", 20);
    r.require("client certificates", 50);
    r.require("with more change_cipher_spec", 100);
}
