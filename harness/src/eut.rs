//! Identities, configurations and whole sessions with the endpoint under test
use crate::der::{pem64, CertSpec};
use crate::ossl::EcKey;
use crate::rep::{hexs, Case};
use crate::rng::Rng;
use crate::sim::{self, Caps, Eut, Res, Status};
use crate::tls::{self, *};
use anothertls::net::client::ClientConfig;
use anothertls::net::server::ServerConfig;
use anothertls::rand::PRNG;
use anothertls::{ClientConfigBuilder, ServerConfigBuilder, ServerConnection};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// The simulated present
pub const NOW: i64 = 1_717_243_200; // 2024-06-01 12:00:00
pub const YEAR: i64 = 365 * 86400;

/// Scratch directory, removed when dropped
pub struct Scratch(pub String);
static NEXT: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let d = format!("{base}/vh-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst));
        std::fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
    pub fn file(&self, name: &str, content: &[u8]) -> String {
        let p = format!("{}/{}", self.0, name);
        std::fs::write(&p, content).expect("scratch file");
        p
    }
    pub fn path(&self, name: &str) -> String {
        format!("{}/{}", self.0, name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn ident(subject: &str, issuer: Option<(&str, &EcKey)>, rng: &mut Rng) -> Ident {
    ident_at(subject, issuer, NOW - YEAR, NOW + YEAR, rng)
}
pub fn ident_at(subject: &str, issuer: Option<(&str, &EcKey)>, from: i64, to: i64, rng: &mut Rng) -> Ident {
    let key = EcKey::random(rng);
    let (iname, ikey) = issuer.unwrap_or((subject, &key));
    let der = CertSpec::new(subject, iname, from, to, &key.public, rng).sign(ikey);
    Ident { der, key }
}

pub struct World {
    pub dir: Scratch,
    pub ca: Ident,
    pub other_ca: Ident,
    pub server: Ident,
    pub client: Ident,
    pub srv_cert: String,
    pub srv_key: String,
    pub ca_cert: String,
    pub cli_cert: String,
    pub cli_key: String,
}
impl World {
    pub fn new(seed: u64) -> World {
        let mut rng = Rng::new(seed ^ 0x776f_726c_6421);
        let ca = ident("Test CA", None, &mut rng);
        let other_ca = ident("Test CA", None, &mut rng);
        let server = ident("server.test", None, &mut rng);
        let client = ident("client.test", Some(("Test CA", &ca.key)), &mut rng);
        let dir = Scratch::new();
        let srv_cert = dir.file("server.cert", pem64("CERTIFICATE", &server.der).as_bytes());
        let srv_key = dir.file("server.key", pem64("EC PRIVATE KEY", &server.key.sec1_der()).as_bytes());
        let ca_cert = dir.file("ca.cert", pem64("CERTIFICATE", &ca.der).as_bytes());
        let cli_cert = dir.file("client.cert", pem64("CERTIFICATE", &client.der).as_bytes());
        let cli_key = dir.file("client.key", pem64("EC PRIVATE KEY", &client.key.sec1_der()).as_bytes());
        World { dir, ca, other_ca, server, client, srv_cert, srv_key, ca_cert, cli_cert, cli_key }
    }
    pub fn server_builder(&self) -> ServerConfigBuilder {
        ServerConfigBuilder::new().add_cert_pem(self.srv_cert.clone()).add_privkey_pem(self.srv_key.clone())
    }
    pub fn server_cfg(&self, auth: bool) -> ServerConfig {
        let mut b = self.server_builder();
        if auth {
            b = b.add_client_cert_ca(self.ca_cert.clone());
        }
        b.build().expect("server config")
    }
    pub fn server(&self, auth: bool) -> Arc<ServerConnection> {
        sim::server(self.server_cfg(auth))
    }
    pub fn simple_server(&self) -> Arc<ServerConnection> {
        sim::server(self.server_builder().set_prng(PRNG::Simple).build().expect("server config"))
    }
    pub fn client_builder(&self, auth: bool) -> ClientConfigBuilder {
        let b = ClientConfigBuilder::new();
        if auth {
            b.add_client_cert_pem(self.cli_cert.clone()).add_client_key_pem(self.cli_key.clone())
        } else {
            b
        }
    }
    pub fn client_cfg(&self, auth: bool) -> Arc<ClientConfig> {
        Arc::new(self.client_builder(auth).build().expect("client config"))
    }
}

/// An established connection between the EUT and the reference endpoint
pub struct Link {
    pub eut: Eut,
    pub sess: Session,
    pub eut_is_server: bool,
    /// bytes the EUT sent during the handshake
    pub hs_out: usize,
}
impl Link {
    /// direction written by the reference / by the EUT
    pub fn tx(&mut self) -> &mut Dir {
        if self.eut_is_server {
            &mut self.sess.c_ap
        } else {
            &mut self.sess.s_ap
        }
    }
    pub fn rx(&mut self) -> &mut Dir {
        if self.eut_is_server {
            &mut self.sess.s_ap
        } else {
            &mut self.sess.c_ap
        }
    }
}
fn outcome(s: &Status, out: &[u8]) -> String {
    format!("EUT: {s:?}, it sent {}", hexs(out))
}

pub struct Opts<'a> {
    pub suite: u16,
    pub framing: Framing,
    pub pad: usize,
    pub recv: Caps,
    pub send: Caps,
    pub client_auth: bool,
    /// sent right behind the reference's last handshake message
    pub early: Vec<u8>,
    pub early_pad: usize,
    pub clock: i64,
    pub ccs: bool,
    /// at most so many more, anywhere they are allowed
    pub more_ccs: usize,
    pub hello: Option<Hello>,
    pub spec: Option<ServerSpec<'a>>,
}
impl Opts<'_> {
    pub fn new(suite: u16) -> Self {
        Opts {
            suite,
            framing: Framing::PerMessage,
            pad: 0,
            recv: Caps::All,
            send: Caps::All,
            client_auth: false,
            early: vec![],
            early_pad: 0,
            clock: NOW,
            ccs: true,
            more_ccs: 0,
            hello: None,
            spec: None,
        }
    }
}

/// Reference client against the server under test. Err: what went wrong (not necessarily a defect
/// of the property being checked)
pub fn link_server(c: &mut Case, w: &World, srv: &Arc<ServerConnection>, o: Opts) -> Result<Link, String> {
    let mut eut = Eut::new(Some(o.clock));
    let sess = link_server_on(c, w, srv, o, &mut eut)?;
    let hs_out = eut.conn.sent_len();
    interrupted(c, &eut);
    Ok(Link { eut, sess, eut_is_server: true, hs_out })
}
pub fn link_server_on(c: &mut Case, w: &World, srv: &Arc<ServerConnection>, o: Opts, eut: &mut Eut) -> Result<Session, String> {
    eut.conn.set_caps(o.recv, o.send);
    eut.accept(srv);
    let hello = match o.hello {
        Some(h) => h,
        None => {
            let mut h = Hello::new(&mut c.rng);
            h.suites = vec![o.suite];
            h
        }
    };
    let ch = hello.msg();
    let ver = *c.rng.pick(&[0x0301, 0x0301, 0x0303]);
    for p in o.framing.cut(&[ch.clone()], &mut c.rng) {
        eut.conn.feed(&record_v(HS, ver, &p));
    }
    let st = eut.wait(c);
    let out = eut.conn.take();
    if !st.blocked() {
        return Err(format!("the server did not answer the ClientHello: {}", outcome(&st, &out)));
    }
    let mut sess = tls::client_process(&out, &hello, &ch)?;
    let auth = ClientAuth { chain: vec![(w.client.der.clone(), vec![])], key: Some(&w.client.key) };
    let auth = if sess.cert_request.is_some() { Some(&auth) } else { None };
    if auth.is_some() && !o.client_auth {
        return Err("unexpected CertificateRequest".into());
    }
    let fl = sess.client_flight(auth, &mut no_edit);
    let mut b = vec![];
    if o.ccs {
        b.extend(record(CCS, &[1]));
    }
    let mut d = sess.c_hs.clone();
    for r in protect_ccs(&mut d, &fl, o.framing, o.pad, o.more_ccs, &mut c.rng).0 {
        b.extend(r);
    }
    sess.c_hs = d;
    if !o.early.is_empty() {
        for ch in o.early.chunks(16384) {
            b.extend(sess.c_ap.seal(APP, ch, o.early_pad.min(16384 - ch.len())));
        }
    }
    eut.conn.feed(&b);
    let st = eut.wait(c);
    match &st {
        Status::Done(Res::Ok(_)) => {}
        _ => return Err(format!("the server did not accept the client's second flight: {}", outcome(&st, &eut.conn.take()))),
    }
    let rest = eut.conn.take();
    if !rest.is_empty() {
        return Err(format!("the server sent {} behind the handshake", hexs(&rest)));
    }
    Ok(sess)
}

pub fn interrupted(c: &mut Case, eut: &Eut) {
    if eut.conn.with(|i| i.interrupted) > 0 {
        c.count("handshakes with interrupted socket calls", 1);
    }
}

/// Start the client under test and get its ClientHello
pub fn start_client(c: &mut Case, cfg: &Arc<ClientConfig>, recv: Caps, send: Caps, clock: i64) -> Result<(Eut, ClientHelloInfo, Vec<u8>), String> {
    let mut eut = Eut::new(Some(clock));
    let (info, raw) = start_client_on(c, cfg, recv, send, &mut eut)?;
    Ok((eut, info, raw))
}
pub fn start_client_on(c: &mut Case, cfg: &Arc<ClientConfig>, recv: Caps, send: Caps, eut: &mut Eut) -> Result<(ClientHelloInfo, Vec<u8>), String> {
    eut.conn.set_caps(recv, send);
    eut.connect(cfg);
    let st = eut.wait(c);
    let out = eut.conn.take();
    if !st.blocked() {
        return Err(format!("no ClientHello: {}", outcome(&st, &out)));
    }
    let (recs, rest) = records(&out);
    if !rest.is_empty() || recs.iter().any(|r| r.typ != HS || !(r.ver == 0x0301 || r.ver == 0x0303)) {
        return Err(format!("ClientHello record: {}", hexs(&out)));
    }
    let all: Vec<u8> = recs.iter().flat_map(|r| r.body.clone()).collect();
    let (ms, rest) = messages(&all);
    if ms.len() != 1 || !rest.is_empty() {
        return Err(format!("{} messages in the first flight", ms.len()));
    }
    let info = parse_client_hello(&ms[0].1)?;
    let raw = ms[0].1.clone();
    Ok((info, raw))
}
/// Client under test against the reference server
pub fn link_client(c: &mut Case, w: &World, cfg: &Arc<ClientConfig>, o: Opts) -> Result<Link, String> {
    let mut eut = Eut::new(Some(o.clock));
    let sess = link_client_on(c, w, cfg, o, &mut eut)?;
    let hs_out = eut.conn.sent_len();
    interrupted(c, &eut);
    Ok(Link { eut, sess, eut_is_server: false, hs_out })
}
pub fn link_client_on(c: &mut Case, w: &World, cfg: &Arc<ClientConfig>, o: Opts, eut: &mut Eut) -> Result<Session, String> {
    let (info, raw) = start_client_on(c, cfg, o.recv, o.send, eut)?;
    let mut spec = match o.spec {
        Some(s) => s,
        None => ServerSpec::new(o.suite, &w.server, &mut c.rng),
    };
    if o.client_auth && spec.request.is_none() {
        spec.request = Some(vec![]);
    }
    let (mut sess, plain, prot) = tls::server_flight(&spec, &info, &raw, &mut no_edit)?;
    let mut b = vec![];
    for p in o.framing.cut(&plain, &mut c.rng) {
        b.extend(record(HS, &p));
    }
    if o.ccs {
        b.extend(record(CCS, &[1]));
    }
    let mut d = sess.s_hs.clone();
    for r in protect(&mut d, &prot, o.framing, o.pad, &mut c.rng) {
        b.extend(r);
    }
    sess.s_hs = d;
    for ch in o.early.chunks(16384) {
        b.extend(sess.s_ap.seal(APP, ch, o.early_pad.min(16384 - ch.len())));
    }
    eut.conn.feed(&b);
    let st = eut.wait(c);
    let out = eut.conn.take();
    match &st {
        Status::Done(Res::Ok(_)) => {}
        _ => return Err(format!("the client did not accept the server's flight: {}", outcome(&st, &out))),
    }
    sess.server_process(&out)?;
    Ok(sess)
}
/// Either role
pub fn link(c: &mut Case, w: &World, server_role: bool, o: Opts) -> Result<Link, String> {
    if server_role {
        let s = w.server(o.client_auth);
        link_server(c, w, &s, o)
    } else {
        let cfg = w.client_cfg(o.client_auth);
        link_client(c, w, &cfg, o)
    }
}
/// Read from the EUT until it blocks, fails or `max` bytes were read
pub fn read_all(c: &Case, eut: &mut Eut, bufsize: &mut dyn FnMut() -> usize, max: usize) -> (Vec<u8>, Status) {
    let mut o = vec![];
    loop {
        let n = bufsize();
        eut.read(n);
        match eut.wait(c) {
            Status::Done(Res::Ok(d)) => o.extend(d),
            s => return (o, s),
        }
        if o.len() > max {
            return (o, Status::Done(Res::Ok(vec![])));
        }
    }
}
/// The alert records in what the EUT sent, given the session keys in the order they may be used.
/// (plaintext alerts, protected alerts, records after the first alert, undecryptable records)
#[derive(Debug, Default)]
pub struct Alerts {
    pub plain: Vec<Vec<u8>>,
    pub protected: Vec<Vec<u8>>,
    pub after: usize,
    pub bad: Vec<String>,
}
impl Alerts {
    pub fn all(&self) -> Vec<Vec<u8>> {
        let mut v = self.plain.clone();
        v.extend(self.protected.clone());
        v
    }
    /// The code of the only alert
    pub fn code(&self) -> Option<u8> {
        let a = self.all();
        if a.len() == 1 && a[0].len() == 2 {
            Some(a[0][1])
        } else {
            None
        }
    }
}
pub fn alerts(out: &[u8], dirs: &mut [&mut Dir]) -> Alerts {
    let mut a = Alerts::default();
    let (recs, rest) = records(out);
    if !rest.is_empty() {
        a.bad.push(format!("{} bytes behind the last record", rest.len()));
    }
    for r in recs {
        if !a.plain.is_empty() || !a.protected.is_empty() {
            a.after += 1;
        }
        match r.typ {
            ALERT => a.plain.push(r.body.clone()),
            APP => {
                let mut ok = false;
                for d in dirs.iter_mut() {
                    let mut t = d.clone();
                    if let Ok((t2, p, _)) = t.open(&r) {
                        **d = t;
                        ok = true;
                        if t2 == ALERT {
                            a.protected.push(p);
                        }
                        break;
                    }
                }
                if !ok {
                    a.bad.push(format!("record {} does not decrypt", hexs(&r.raw())));
                }
            }
            _ => {}
        }
    }
    a
}
/// Carries bytes between two EUTs until both are done or wait for each other
pub fn pump(c: &Case, a: &mut Eut, b: &mut Eut, mitm: &mut dyn FnMut(bool, Vec<u8>) -> Vec<u8>) -> (Status, Status) {
    loop {
        let sa = a.wait(c);
        let x = a.conn.take();
        if !x.is_empty() {
            let y = mitm(true, x);
            b.conn.feed(&y);
        }
        let sb = b.wait(c);
        let x = b.conn.take();
        if x.is_empty() {
            // nothing moved back: if a has nothing new either, the exchange is over
            if a.conn.unread() == 0 {
                return (sa, sb);
            }
            continue;
        }
        let y = mitm(false, x);
        a.conn.feed(&y);
    }
}
