//! C09: the client completes TLS 1.3 with every conforming server
use crate::der::{self, pem64, CertSpec};
use crate::eut::*;
use crate::hello::{host, unknown_ext, GREASE, SIGS};
use crate::ossl::{EcKey, Ssl, SslOpts, SslRes};
use crate::rep::{Case, Rep};
use crate::rng::Rng;
use crate::sim::{Caps, Eut, Res, Status};
use crate::tls::*;
use anothertls::net::client::ClientConfig;
use anothertls::ClientConfigBuilder;
use std::sync::Arc;

pub const RULE: &str = "distinct = (suite, server certificate, chain length, encrypted extensions, certificate request, framing, tickets, client configuration); OpenSSL servers: their settings";

pub struct Cli {
    cfg: Arc<ClientConfig>,
    name: Option<String>,
    cert: Option<Vec<u8>>,
}
fn clients(w: &World, seed: u64) -> Vec<Cli> {
    let mut rng = Rng::new(seed ^ 0xc11e);
    let mut v = vec![];
    for i in 0..8 {
        let name = if i % 2 == 0 { None } else { Some(if i == 1 { "server.test".to_string() } else { host(&mut rng) }) };
        let mut b = ClientConfigBuilder::new();
        if let Some(n) = &name {
            b = b.set_server_name(n.clone());
        }
        let mut cert = None;
        if i >= 4 {
            // certificates of different sizes
            let key = EcKey::random(&mut rng);
            let mut spec = CertSpec::new("client.test", "Test CA", NOW - 1000, NOW + 1000, &key.public, &mut rng);
            let extra = [0, 3000, 17000, 40000][i - 4];
            if extra > 0 {
                spec.extensions = Some(vec![der::ext("2.16.840.1.113730.1.13", None, &der::tlv(0x16, &vec![b'x'; extra]))]);
            }
            let d = spec.sign(&w.ca.key);
            let c = w.dir.file(&format!("c09-{i}.cert"), pem64("CERTIFICATE", &d).as_bytes());
            let k = w.dir.file(&format!("c09-{i}.key"), pem64("EC PRIVATE KEY", &key.sec1_der()).as_bytes());
            b = b.add_client_cert_pem(c).add_client_key_pem(k);
            cert = Some(d);
        }
        v.push(Cli { cfg: Arc::new(b.build().expect("config")), name, cert });
    }
    v
}

fn ticket(c: &mut Case, suite: u16) -> Vec<u8> {
    let _ = suite;
    let mut b = vec![];
    b.extend(c.rng.bytes(4)); // lifetime
    b[0] = 0;
    b.extend(c.rng.bytes(4)); // age_add
    let n = *c.rng.pick(&[0, 1, 8, 255]);
    b.extend(vec8(&c.rng.bytes(n)));
    let n = match c.rng.below(8) {
        0 => c.rng.range(16000, 40000),
        _ => c.rng.range(1, 300),
    };
    b.extend(vec16(&c.rng.bytes(n)));
    let e = match c.rng.below(3) {
        0 => vec![],
        1 => ext(0x2a, &[0, 0, 0x40, 0]),
        _ if c.rng.bool() => ext(unknown_ext(&mut c.rng), &[1, 2]),
        _ => ext(*c.rng.pick(&GREASE), &[1, 2]),
    };
    b.extend(vec16(&e));
    msg(NST, &b)
}

fn one(c: &mut Case, w: &World, clis: &[Cli]) {
    let cl = c.rng.pick(clis);
    let suite = *c.rng.pick(&SUITES);
    // the server's identity
    let id = ident("any.server", None, &mut c.rng);
    let use_world = c.rng.one_in(3);
    let (der, key) = if use_world {
        (w.server.der.clone(), &w.server.key)
    } else {
        let mut spec = CertSpec::new("any.server", "any.issuer", NOW - 1000, NOW + 1000, &id.key.public, &mut c.rng);
        let extra = match c.rng.below(8) {
            0 => c.rng.range(15000, 60000),
            1 | 2 => c.rng.range(1, 4000),
            _ => 0,
        };
        let mut e = vec![
            der::ext("2.5.29.19", Some(true), &der::seq(&[])),
            der::ext("2.5.29.15", Some(true), &der::tlv(3, &[7, 0x80])),
            der::ext("2.5.29.14", None, &der::tlv(4, &c.rng.bytes(20))),
        ];
        if extra > 0 {
            e.push(der::ext("2.16.840.1.113730.1.13", None, &der::tlv(0x16, &vec![b'x'; extra])));
        }
        c.rng.shuffle(&mut e);
        spec.extensions = Some(e);
        (spec.sign(&w.ca.key), &id.key)
    };
    let mut spec = ServerSpec::new(suite, &w.server, &mut c.rng);
    spec.key = key;
    spec.chain = vec![(der.clone(), vec![])];
    let extra_certs = match c.rng.below(4) {
        0 => c.rng.range(1, 3),
        _ => 0,
    };
    for i in 0..extra_certs {
        spec.chain.push((if i == 0 { w.ca.der.clone() } else { w.other_ca.der.clone() }, vec![]));
    }
    let mut what = vec![];
    if c.rng.one_in(3) {
        spec.ee.push((0x0a, u16list(&[X25519, 0x17])));
        what.push("groups");
    }
    if cl.name.is_some() && c.rng.bool() {
        spec.ee.insert(c.rng.below(spec.ee.len() + 1), (0, vec![]));
        what.push("sni");
    }
    let auth = c.rng.bool();
    if auth {
        let n = *c.rng.pick(&[0, 0, 1, 32, 255]);
        spec.request = Some(c.rng.bytes(n));
        let mut s = vec![0x0403u16];
        for x in SIGS {
            if c.rng.one_in(4) {
                s.insert(c.rng.below(s.len() + 1), x);
            }
        }
        let mut e = vec![(0x0d, u16list(&s))];
        if c.rng.one_in(3) {
            e.push((0x2f, vec16(&vec16(&der::name(&der::cn("Test CA"))))));
            what.push("authorities");
        }
        if c.rng.one_in(3) {
            e.push((0x32, u16list(&s)));
        }
        if c.rng.one_in(4) {
            e.push((*c.rng.pick(&GREASE), vec![]));
            what.push("grease");
        }
        if c.rng.one_in(3) {
            let n = c.rng.below(30);
            e.push((unknown_ext(&mut c.rng), c.rng.bytes(n)));
            what.push("unknown");
        }
        c.rng.shuffle(&mut e);
        spec.request_exts = e;
    }
    let mut o = Opts::new(suite);
    o.framing = Framing::random(&mut c.rng);
    o.pad = *c.rng.pick(&[0, 0, 1, 40, 3000]);
    o.recv = Caps::random(&mut c.rng);
    o.send = Caps::random(&mut c.rng);
    o.ccs = c.rng.one_in(3) == false;
    o.client_auth = auth;
    let ctx = format!(
        "suite {suite:04x}, certificate of {} bytes, {extra_certs} more, {what:?}, request {:?}, {:?}, padding {}, ccs {}; client: name {}, certificate {:?}",
        der.len(),
        spec.request.as_ref().map(|r| r.len()),
        o.framing,
        o.pad,
        o.ccs,
        cl.name.is_some(),
        cl.cert.as_ref().map(|x| x.len())
    );
    // link_client with the own view on the ClientHello and the client's certificate
    let (mut eut, info, raw) = match start_client(c, &cl.cfg, o.recv.clone(), o.send.clone(), NOW) {
        Ok(x) => x,
        Err(e) => {
            c.fail("ClientHello", format!("{ctx}: {e}"));
            return;
        }
    };
    if info.sni != cl.name {
        c.fail("server_name", format!("configured {:?}, sent {:?}", cl.name, info.sni));
        return;
    }
    let mut offered = info.suites.clone();
    offered.sort();
    if offered != SUITES {
        c.fail("offered suites", format!("{:04x?}", info.suites));
        return;
    }
    let (mut sess, plain, prot) = server_flight(&spec, &info, &raw, &mut no_edit).expect("flight");
    let mut b = vec![];
    let mut more_ccs = 0;
    if c.rng.one_in(4) {
        // "at any time after the first ClientHello message has been sent"
        b.extend(record(CCS, &[1]));
        c.count("change_cipher_spec before the ServerHello", 1);
        more_ccs += 1;
    }
    for p in o.framing.cut(&plain, &mut c.rng) {
        b.extend(record(HS, &p));
    }
    if o.ccs {
        b.extend(record(CCS, &[1]));
    }
    let mut d = sess.s_hs.clone();
    let max = *c.rng.pick(&[0, 0, 1, 2, 5]);
    let (recs, n) = protect_ccs(&mut d, &prot, o.framing, o.pad, max, &mut c.rng);
    more_ccs += n;
    for r in recs {
        b.extend(r);
    }
    let ctx = format!("{ctx}, {more_ccs} more change_cipher_spec");
    c.count("with more change_cipher_spec", (n > 0) as u64);
    sess.s_hs = d;
    // tickets and data may follow at once
    let mut want = vec![];
    let mut late = 0;
    for _ in 0..c.rng.below(4) {
        if c.rng.bool() {
            let n = c.rng.range(1, 300);
            let x = c.rng.bytes(n);
            b.extend(sess.s_ap.seal(APP, &x, 0));
            want.extend(x);
        } else {
            let t = ticket(c, suite);
            late += 1;
            for p in Framing::random(&mut c.rng).cut(&[t], &mut c.rng) {
                b.extend(sess.s_ap.seal(HS, &p, 0));
            }
        }
    }
    eut.conn.feed(&b);
    let st = eut.wait(c);
    let out = eut.conn.take();
    if !matches!(&st, Status::Done(Res::Ok(_))) {
        c.fail("handshake with a conforming server fails", format!("{ctx}: {st:?}, alerts {:?}", alerts(&out, &mut [&mut sess.c_hs.clone()])));
        return;
    }
    match sess.server_process(&out) {
        Ok(fl) => {
            let want = if auth { Some(cl.cert.iter().cloned().collect::<Vec<_>>()) } else { None };
            if fl.chain != want || fl.verified != (auth && cl.cert.is_some()) {
                c.fail("client certificate", format!("{ctx}: got {:?} certificates, verified {}", fl.chain.map(|x| x.len()), fl.verified));
                return;
            }
        }
        Err(e) => {
            c.fail("second flight of the client", format!("{ctx}: {e}"));
            return;
        }
    }
    c.ev(format!(
        "{suite} {} {extra_certs} {what:?} {:?} {:?} {late} {:?} {}",
        der.len() / 100,
        spec.request.as_ref().map(|r| r.len()),
        o.framing,
        cl.name.is_some(),
        cl.cert.is_some()
    ));
    c.count(&format!("suite {suite:04x}"), 1);
    c.count("certificate requests", auth as u64);
    c.count("tickets", late as u64);
    let mut l = Link { eut, sess, eut_is_server: false, hs_out: 0 };
    for _ in 0..3 {
        // client -> server
        let n = c.rng.range(1, 500);
        let x = c.rng.bytes(n);
        l.eut.write(x.clone());
        let st = l.eut.wait(c);
        let out = l.eut.conn.take();
        match open_app(l.rx(), &out) {
            Ok(o) if o.data == x && o.alerts.is_empty() && o.other.is_empty() => {}
            r => {
                c.fail("data exchange", format!("{ctx}: write {st:?}, {:?}", r.map(|o| (o.data.len(), o.alerts))));
                return;
            }
        }
        // server -> client, with tickets in between
        for _ in 0..c.rng.below(3) {
            let t = ticket(c, suite);
            for p in Framing::random(&mut c.rng).cut(&[t], &mut c.rng) {
                let r = l.tx().seal(HS, &p, 0);
                l.eut.conn.feed(&r);
            }
            c.count("tickets", 1);
        }
        let n = c.rng.range(1, 2000);
        let x = c.rng.bytes(n);
        let pad = c.rng.below(50);
        let r = l.tx().seal(APP, &x, pad);
        l.eut.conn.feed(&r);
        want.extend(x);
        let mut got = vec![];
        while got.len() < want.len() {
            l.eut.read(5000);
            match l.eut.wait(c) {
                Status::Done(Res::Ok(d)) => got.extend(d),
                s => {
                    c.fail("data exchange", format!("{ctx}: read {s:?} after {} of {} bytes", got.len(), want.len()));
                    return;
                }
            }
        }
        if got != want {
            c.fail("data exchange", format!("{ctx}: other data"));
            return;
        }
        want.clear();
    }
    interrupted(c, &l.eut);
    c.count("connections with data exchange", 1);
    c.sample(&format!("{suite:04x} {auth}"), || ctx);
}

/// Certificates of every critical size, the server's and the client's own
fn sizes(c: &mut Case, w: &World, sizes: &[usize]) {
    let n = sizes[c.idx / 2 % sizes.len()];
    let own = c.idx % 2 == 1;
    let suite = *c.rng.pick(&SUITES);
    let key = EcKey::random(&mut c.rng);
    let cs = CertSpec::new("any.name", "any.issuer", NOW - 1000, NOW + 1000, &key.public, &mut c.rng);
    let Some(d) = der::sign_sized(&cs, &w.ca.key, n) else {
        c.count("sizes not reachable", 1);
        return;
    };
    let ctx = format!("certificate of exactly {n} bytes for the {}, suite {suite:04x}", if own { "client" } else { "server" });
    let mut b = ClientConfigBuilder::new();
    let mut spec = ServerSpec::new(suite, &w.server, &mut c.rng);
    if own {
        let cf = w.dir.file(&format!("c09-s{}.cert", c.idx), pem64("CERTIFICATE", &d).as_bytes());
        let kf = w.dir.file(&format!("c09-s{}.key", c.idx), pem64("EC PRIVATE KEY", &key.sec1_der()).as_bytes());
        b = b.add_client_cert_pem(cf).add_client_key_pem(kf);
        let k = *c.rng.pick(&[0, 0, 1, 255]);
        spec.request = Some(c.rng.bytes(k));
    } else {
        spec.key = &key;
        spec.chain = vec![(d.clone(), vec![])];
        if n < 60000 && c.rng.one_in(3) {
            // the list's length is larger than the certificate's
            let exact = ident("more", None, &mut c.rng);
            spec.chain.push((exact.der.clone(), vec![]));
        }
    }
    let Some(cfg) = c.ok(b.build().map_err(|e| format!("{ctx}: {e:?}")), "configuration refused") else { return };
    let mut o = Opts::new(suite);
    o.framing = Framing::random(&mut c.rng);
    let caps = Caps::random(&mut c.rng);
    let (mut eut, info, raw) = match start_client(c, &Arc::new(cfg), caps, Caps::All, NOW) {
        Ok(x) => x,
        Err(e) => {
            c.fail("ClientHello", format!("{ctx}: {e}"));
            return;
        }
    };
    let (mut sess, plain, prot) = server_flight(&spec, &info, &raw, &mut no_edit).expect("flight");
    let mut b = vec![];
    for p in o.framing.cut(&plain, &mut c.rng) {
        b.extend(record(HS, &p));
    }
    let mut dd = sess.s_hs.clone();
    for r in protect(&mut dd, &prot, o.framing, 0, &mut c.rng) {
        b.extend(r);
    }
    sess.s_hs = dd;
    b.extend(sess.s_ap.seal(APP, b"hello", 0));
    eut.conn.feed(&b);
    let st = eut.wait(c);
    let out = eut.conn.take();
    if !matches!(&st, Status::Done(Res::Ok(_))) {
        c.fail("handshake with a conforming server fails", format!("{ctx}: {st:?}"));
        return;
    }
    match sess.server_process(&out) {
        Ok(fl) if !own || fl.chain == Some(vec![d.clone()]) && fl.verified => {}
        Ok(fl) => {
            c.fail("client certificate", format!("{ctx}: got {:?}", fl.chain.map(|x| x.iter().map(|d| d.len()).collect::<Vec<_>>())));
            return;
        }
        Err(e) => {
            c.fail("second flight of the client", format!("{ctx}: {e}"));
            return;
        }
    }
    eut.read(100);
    let st = eut.wait(c);
    c.check(matches!(&st, Status::Done(Res::Ok(d)) if d == b"hello"), "data exchange", || format!("{ctx}: {st:?}"));
    c.ev(format!("size {n} {own}"));
    c.count("certificate sizes", 1);
}
fn openssl(c: &mut Case, w: &World, clis: &[Cli]) {
    let cl = c.rng.pick(clis);
    let suites = *c.rng.pick(&["TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256"]);
    let so = SslOpts {
        server: true,
        cert: Some((&w.server.der, &w.server.key)),
        suites,
        groups: Some(*c.rng.pick(&["X25519", "X25519:P-256"])),
        tickets: c.rng.below(5),
        block_padding: *c.rng.pick(&[0, 0, 16, 512, 4096]),
        max_fragment: *c.rng.pick(&[0, 0, 512, 1000]),
        request_client_cert: c.rng.bool(),
        require_client_cert: cl.cert.is_some() && c.rng.bool(),
        extra_chain: if c.rng.one_in(3) { vec![w.ca.der.clone(), w.other_ca.der.clone()] } else { vec![] },
        ..Default::default()
    };
    let ctx = format!(
        "OpenSSL server: {suites}, {:?}, tickets {}, padding {}, fragment {}, client certificate {}/{}, chain {}; client certificate {}",
        so.groups,
        so.tickets,
        so.block_padding,
        so.max_fragment,
        so.request_client_cert,
        so.require_client_cert,
        so.extra_chain.len(),
        cl.cert.is_some()
    );
    let mut s = Ssl::new(&so);
    let mut e = Eut::new(Some(NOW));
    e.conn.set_caps(Caps::random(&mut c.rng), Caps::random(&mut c.rng));
    e.connect(&cl.cfg);
    let mut hs = SslRes::WantRead;
    let mut st = Status::Blocked;
    for _ in 0..6 {
        st = e.wait(c);
        s.feed(&e.conn.take());
        if hs == SslRes::WantRead {
            hs = s.handshake();
        }
        let t = s.take();
        e.conn.feed(&t);
        if !st.blocked() && hs != SslRes::WantRead {
            break;
        }
    }
    if !matches!(&st, Status::Done(Res::Ok(_))) || !matches!(hs, SslRes::Ok(_)) {
        c.fail("handshake with OpenSSL fails", format!("{ctx}: client {st:?}, OpenSSL {hs:?}"));
        return;
    }
    let asked = so.request_client_cert || so.require_client_cert;
    let want = if asked { cl.cert.clone() } else { None };
    if s.peer_cert() != want || (cl.name.is_some() && s.sni() != cl.name) {
        c.fail("client identity", format!("{ctx}: OpenSSL has certificate {}, name {:?}", s.peer_cert().is_some(), s.sni()));
        return;
    }
    for _ in 0..2 {
        let n = c.rng.range(1, 20000);
        let d = c.rng.bytes(n);
        e.write(d.clone());
        e.wait(c);
        s.feed(&e.conn.take());
        let mut got = vec![];
        let mut b = vec![0; 20000];
        while let SslRes::Ok(k) = s.read(&mut b) {
            got.extend_from_slice(&b[..k]);
        }
        let mut p = 0;
        while p < n {
            match s.write(&d[p..]) {
                SslRes::Ok(k) => p += k,
                x => panic!("SSL_write: {x:?}"),
            }
        }
        let t = s.take();
        e.conn.feed(&t);
        let mut got2 = vec![];
        while got2.len() < n {
            e.read(5000);
            match e.wait(c) {
                Status::Done(Res::Ok(d)) => got2.extend(d),
                s => {
                    c.fail("data exchange", format!("{ctx}: read {s:?}"));
                    return;
                }
            }
        }
        if got != d || got2 != d {
            c.fail("data exchange", format!("{ctx}: other data"));
            return;
        }
    }
    c.count("OpenSSL servers", 1);
    c.ev(ctx.clone());
    c.sample("openssl", || ctx);
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    let clis = clients(&w, r.seed);
    r.group("conforming", r.n(1600, 30000), |c| one(c, &w, &clis));
    r.group("openssl", r.n(300, 4000), |c| openssl(c, &w, &clis));
    let cs = der::cert_sizes();
    r.group("certificate sizes", cs.len() * r.n(2, 16), |c| sizes(c, &w, &cs));
    r.require("certificate sizes", 180);
    r.require("connections with data exchange", 500);
    r.require("handshakes with interrupted socket calls", 150);
    r.require("change_cipher_spec before the ServerHello", 100);
    r.require("with more change_cipher_spec", 100);
    r.require("OpenSSL servers", 50);
    for s in SUITES {
        r.require(&format!("suite {s:04x}"), 20);
    }
    r.require("certificate requests", 50);
    r.require("tickets", 100);
}
