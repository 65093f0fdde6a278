//! The key log
use crate::eut::*;
use crate::rep::{hex, hexs, Case, Rep};
use crate::rng::Rng;
use crate::sim::{self, Caps, Eut, FileEv, Res, Status};
use crate::tls::{self, *};
use anothertls::net::client::ClientConfig;
use anothertls::ServerConnection;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub const RULE: &str = "a case is one history of connections against one key log file (or none), after which the file and every write made by the endpoint are compared with the secrets the independent peer computed; distinct = (roles, suites, client authentication, completed or failed, prior content, number of concurrent connections)";

fn lines(s: &Session) -> Vec<String> {
    let r = hex(&s.transcript[6..38]);
    vec![
        format!("SERVER_HANDSHAKE_TRAFFIC_SECRET {r} {}", hex(&s.secrets.shs)),
        format!("CLIENT_HANDSHAKE_TRAFFIC_SECRET {r} {}", hex(&s.secrets.chs)),
        format!("SERVER_TRAFFIC_SECRET_0 {r} {}", hex(&s.s_ap.secret)),
        format!("CLIENT_TRAFFIC_SECRET_0 {r} {}", hex(&s.c_ap.secret)),
    ]
}
/// Lower-case hex digits in everything but the label
fn norm(l: &str) -> String {
    match l.split_once(' ') {
        Some((a, b)) => format!("{a} {}", b.to_lowercase()),
        None => l.to_string(),
    }
}
fn prior(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![],
        1 => b"# a comment\n".to_vec(),
        2 => b"CLIENT_RANDOM 00 11\nSERVER_TRAFFIC_SECRET_0 00 22\n".to_vec(),
        3 => {
            let bits = rng.range(1, 21);
            let n = rng.range(1, 1 << bits);
            let mut b = rng.bytes(n);
            b.push(b'\n');
            b
        }
        4 => b"\n".to_vec(),
        _ => b"no end of line".to_vec(),
    }
}
/// A key log that is already large
fn large(c: &mut Case, w: &World) {
    let n = [0xffff, 0x10001, 0x100001, (4 << 20) + 1, (10 << 20) + 3, (32 << 20) + 1, (100 << 20) + 1][c.idx as usize % 7];
    let mut log = Log::new(w, c);
    let mut p = vec![b'x'; n];
    for i in (99..n).step_by(100) {
        p[i] = b'\n';
    }
    p[n - 1] = b'\n';
    std::fs::write(&log.path, &p).unwrap();
    log.prior = Some(p);
    let s = setup(w, Some(&log.path), false);
    for server in [true, false] {
        match one(c, w, &s, server) {
            Ok((l, _)) => log.must.extend(lines(&l.sess)),
            Err(e) => return c.inconclusive(&e.chars().take(60).collect::<String>()),
        }
    }
    c.ev(format!("large {n}"));
    log.check(c, "large key log");
}
struct Log {
    path: String,
    prior: Option<Vec<u8>>,
    must: Vec<String>,
    may: Vec<String>,
}
impl Log {
    fn new(w: &World, c: &mut Case) -> Log {
        let path = w.dir.path(&format!("kl-{}-{}-{}", c.group, c.idx, c.rng.u64()));
        let prior = if c.rng.one_in(3) { None } else { Some(prior(&mut c.rng)) };
        if let Some(p) = &prior {
            std::fs::write(&path, p).unwrap();
        }
        Log { path, prior, must: vec![], may: vec![] }
    }
    fn check(&self, c: &mut Case, what: &str) {
        let got = std::fs::read(&self.path).unwrap_or_default();
        let pre = self.prior.clone().unwrap_or_default();
        if !got.starts_with(&pre) {
            c.fail("existing content destroyed", format!("{what}: {} instead of {} at the begin", hexs(&got), hexs(&pre)));
            return;
        }
        let new = String::from_utf8_lossy(&got[pre.len()..]).into_owned();
        let mut want: BTreeMap<String, i64> = BTreeMap::new();
        for l in &self.must {
            *want.entry(norm(l)).or_default() += 1;
        }
        if !new.is_empty() && !new.ends_with('\n') {
            c.fail("line not ended", format!("{what}: the log ends with {:?}", &new[new.len().saturating_sub(100)..]));
            return;
        }
        let mut n = 0;
        let mut may: Vec<String> = self.may.iter().map(|l| norm(l)).collect();
        for l in new.lines() {
            n += 1;
            match want.get_mut(&norm(l)) {
                Some(k) if *k > 0 => *k -= 1,
                _ => {
                    if let Some(i) = may.iter().position(|m| *m == norm(l)) {
                        may.remove(i);
                        continue;
                    }
                    let label = l.split(' ').next().unwrap_or("");
                    let label: String = label.chars().filter(|c| c.is_ascii_uppercase() || *c == '_').take(40).collect();
                    c.fail(&format!("unexpected line {label}"), format!("{what}: {:?} is none of the {} lines expected", l, self.must.len()));
                    return;
                }
            }
        }
        for (l, k) in &want {
            if *k > 0 {
                c.fail(
                    &format!("missing line {}", l.split(' ').next().unwrap()),
                    format!("{what}: {l} is missing, the new content has {n} lines: {:?}", new.lines().take(8).collect::<Vec<_>>()),
                );
                return;
            }
        }
        c.count("lines verified", n);
        c.count("files compared", 1);
        let _ = std::fs::remove_file(&self.path);
    }
}

/// Everything secret, as bytes and as hex text
fn secrets(s: Option<&Session>, w: &World) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![("server key".to_string(), w.server.key.secret.to_vec()), ("client key".to_string(), w.client.key.secret.to_vec())];
    if let Some(s) = s {
        for (n, d) in [("c hs", &s.c_hs), ("s hs", &s.s_hs), ("c ap", &s.c_ap), ("s ap", &s.s_ap)] {
            v.push((format!("{n} secret"), d.secret.clone()));
            v.push((format!("{n} key"), d.key.clone()));
            v.push((format!("{n} iv"), d.iv.clone()));
        }
        v.push(("master secret".into(), s.secrets.master.clone()));
    }
    v
}
fn find(h: &[u8], n: &[u8]) -> bool {
    n.len() <= h.len() && h.windows(n.len()).any(|w| w == n)
}
/// No secret in anything the endpoint wrote, except in the key log
fn leaks(c: &mut Case, e: &Eut, s: Option<&Session>, w: &World, log: Option<&str>, what: &str) {
    let ev = e.files();
    let sec = secrets(s, w);
    let mut all = vec![];
    let mut to_log = 0;
    let mut open_log = false;
    for e in &ev {
        match e {
            FileEv::Open { path, write: true, .. } => {
                if Some(path.as_str()) == log {
                    open_log = true;
                } else if path != "/dev/null" {
                    c.fail("file opened for writing", format!("{what}: {path}"));
                }
            }
            FileEv::Open { .. } => {}
            FileEv::Remove { path } => c.fail("file removed", format!("{what}: {path}")),
            FileEv::Write { fd, data } => {
                if *fd > 2 && open_log {
                    to_log += data.len();
                    continue;
                }
                all.extend(data);
            }
        }
    }
    c.count("bytes written to files", to_log as u64);
    c.count("bytes written elsewhere", all.len() as u64);
    let low = all.to_ascii_lowercase();
    let strip: Vec<u8> = low.iter().copied().filter(|b| b.is_ascii_alphanumeric()).collect();
    for (n, v) in &sec {
        let h = hex(v).into_bytes();
        // as decimal list, as printed with {:?}
        let dec: Vec<u8> = v.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ").into_bytes();
        if find(&all, v) || find(&low, &h) || find(&strip, &h) || find(&all, &dec) {
            c.fail("secret written elsewhere", format!("{what}: the {n} is in what was written besides the log: {}", String::from_utf8_lossy(&all[..all.len().min(300)])));
            return;
        }
    }
}

struct Setup {
    srv: Arc<ServerConnection>,
    cfg: Arc<ClientConfig>,
    auth: bool,
}
fn setup(w: &World, path: Option<&str>, auth: bool) -> Setup {
    sim::quiet(|| {
        let mut b = w.server_builder();
        if auth {
            b = b.add_client_cert_ca(w.ca_cert.clone());
        }
        let mut k = w.client_builder(auth);
        if let Some(p) = path {
            b = b.set_keylog_path(p.to_string());
            k = k.set_keylog_path(p.to_string());
        }
        Setup { srv: sim::server(b.build().expect("config")), cfg: Arc::new(k.build().expect("config")), auth }
    })
}
fn opts(c: &mut Case, auth: bool) -> Opts<'static> {
    let suite = *c.rng.pick(&SUITES);
    let mut o = Opts::new(suite);
    o.framing = Framing::random(&mut c.rng);
    o.recv = Caps::random(&mut c.rng);
    o.send = Caps::random(&mut c.rng);
    o.client_auth = auth;
    o
}
fn one(c: &mut Case, w: &World, s: &Setup, server: bool) -> Result<(Link, u16), String> {
    let mut o = opts(c, s.auth);
    let suite = o.suite;
    if server {
        let mut h = Hello::new(&mut c.rng);
        h.suites = vec![suite];
        match c.rng.below(6) {
            0 => h.random = [0; 32],
            1 => h.random[0] = 0,
            2 => h.random[..5].fill(0),
            _ => {}
        }
        o.hello = Some(h);
        link_server(c, w, &s.srv, o).map(|l| (l, suite))
    } else {
        link_client(c, w, &s.cfg, o).map(|l| (l, suite))
    }
}
fn exchange(c: &mut Case, l: &mut Link) {
    let n = c.rng.below(200);
    let d = c.rng.bytes(n);
    l.eut.write(d.clone());
    l.eut.wait(c);
    let out = l.eut.conn.take();
    match open_app(l.rx(), &out) {
        Ok(o) if o.data == d => c.count("captured data decrypted with the logged secrets", 1),
        r => c.fail("traffic not protected with the logged secrets", format!("{:?}", r.map(|o| o.data.len()))),
    }
}
/// A history of completed and failed connections on one file
fn history(c: &mut Case, w: &World, on: bool) {
    let mut log = Log::new(w, c);
    let auth = c.rng.bool();
    let s = setup(w, on.then_some(log.path.as_str()), auth);
    let n = c.rng.range(1, 5);
    let mut key = format!("{on} {auth} {:?}", log.prior.as_ref().map(|p| p.len().min(50)));
    for _ in 0..n {
        let server = c.rng.bool();
        let role = if server { "server" } else { "client" };
        if c.rng.one_in(3) {
            let (e, sess) = match fails(c, w, &s, server) {
                Ok(x) => x,
                Err(e) => return c.inconclusive(&e),
            };
            if on {
                log.may.extend(lines(&sess));
            }
            leaks(c, &e, Some(&sess), w, on.then_some(log.path.as_str()), role);
            c.count("failed handshakes", 1);
            key += &format!(" {role} fail");
            continue;
        }
        let (mut l, suite) = match one(c, w, &s, server) {
            Ok(x) => x,
            Err(e) => return c.inconclusive(&e.chars().take(60).collect::<String>()),
        };
        if on {
            log.must.extend(lines(&l.sess));
            let rnd = &l.sess.transcript[6..38];
            let z = [&l.sess.secrets.chs, &l.sess.secrets.shs, &l.sess.c_ap.secret, &l.sess.s_ap.secret].iter().any(|s| s[0] == 0) || rnd[0] == 0;
            if z {
                c.count("values that begin with a zero byte", 1);
            }
        }
        if c.rng.bool() {
            exchange(c, &mut l);
        }
        leaks(c, &l.eut, Some(&l.sess), w, on.then_some(log.path.as_str()), role);
        c.count(&format!("{role}, key log {}", if on { "on" } else { "off" }), 1);
        key += &format!(" {role} {suite:04x}");
    }
    c.ev(key.as_bytes());
    c.sample(if on { "on" } else { "off" }, || key.clone());
    if on {
        log.check(c, &key);
    } else if log.prior.is_none() {
        c.check(!std::path::Path::new(&log.path).exists(), "file created", || key.clone());
    } else {
        log.check(c, &key);
    }
}
/// A handshake that does not complete; the secrets are known nevertheless
fn fails(c: &mut Case, w: &World, s: &Setup, server: bool) -> Result<(Eut, Session), String> {
    let suite = *c.rng.pick(&SUITES);
    if server {
        let mut eut = Eut::new(Some(NOW));
        eut.accept(&s.srv);
        let mut hello = Hello::new(&mut c.rng);
        hello.suites = vec![suite];
        let ch = hello.msg();
        eut.conn.feed(&record(HS, &ch));
        let _ = eut.wait(c);
        let out = eut.conn.take();
        let mut sess = tls::client_process(&out, &hello, &ch)?;
        let kind = c.rng.below(4);
        let auth = ClientAuth { chain: vec![(w.client.der.clone(), vec![])], key: Some(&w.client.key) };
        let mut bad = |l: &'static str, mut m: Vec<u8>| {
            if l == "Finished" {
                let n = m.len();
                m[n - 1] ^= 1;
            }
            vec![m]
        };
        let mut none = no_edit;
        let fl = sess.client_flight(if sess.cert_request.is_some() { Some(&auth) } else { None }, if kind == 0 { &mut bad } else { &mut none });
        let mut d = sess.c_hs.clone();
        let recs = protect(&mut d, &fl, Framing::PerMessage, 0, &mut c.rng);
        match kind {
            0 => recs.iter().for_each(|r| eut.conn.feed(r)),
            1 => {}
            2 => {
                let mut r = recs[0].clone();
                r[9] ^= 4;
                eut.conn.feed(&r);
            }
            _ => eut.conn.feed(&record(ALERT, &[2, 40])),
        }
        let mut st = eut.wait(c);
        if st.blocked() {
            eut.conn.eof();
            st = eut.wait(c);
        }
        match st {
            Status::Done(Res::Err(_)) => Ok((eut, sess)),
            s => Err(format!("broken handshake ended with {s:?}")),
        }
    } else {
        let (mut eut, info, raw) = start_client(c, &s.cfg, Caps::All, Caps::All, NOW)?;
        let kind = c.rng.below(3);
        let mut bad = |l: &'static str, mut m: Vec<u8>| {
            if kind == 0 && l == "Finished" || kind == 1 && l == "CertificateVerify" {
                let n = m.len();
                m[n - 1] ^= 1;
            }
            vec![m]
        };
        let spec = ServerSpec::new(suite, &w.server, &mut c.rng);
        let (sess, plain, prot) = tls::server_flight(&spec, &info, &raw, &mut bad)?;
        eut.conn.feed(&record(HS, &plain[0]));
        let mut d = sess.s_hs.clone();
        let mut recs = protect(&mut d, &prot, Framing::PerMessage, 0, &mut c.rng);
        if kind == 2 {
            recs.truncate(c.rng.below(recs.len()));
        }
        recs.iter().for_each(|r| eut.conn.feed(r));
        let mut st = eut.wait(c);
        if st.blocked() {
            eut.conn.eof();
            st = eut.wait(c);
        }
        match st {
            Status::Done(Res::Err(_)) => Ok((eut, sess)),
            s => Err(format!("broken handshake ended with {s:?}")),
        }
    }
}
/// Many connections at once, both roles, one file
fn concurrent(c: &mut Case, w: &World) {
    let mut log = Log::new(w, c);
    let auth = c.rng.bool();
    let s = setup(w, Some(&log.path), auth);
    let n = c.rng.range(2, 8);
    struct One {
        eut: Eut,
        server: bool,
        hello: Option<(Hello, Vec<u8>)>,
        sess: Option<Session>,
    }
    let mut v: Vec<One> = vec![];
    // the clients under test have to speak first
    for _ in 0..n {
        let server = c.rng.bool();
        let mut eut = Eut::new(Some(NOW));
        if server {
            eut.accept(&s.srv);
        } else {
            eut.connect(&s.cfg);
        }
        v.push(One { eut, server, hello: None, sess: None });
    }
    let mut feed = vec![];
    for o in v.iter_mut() {
        let st = o.eut.wait(c);
        let out = o.eut.conn.take();
        if !st.blocked() {
            return c.inconclusive("no first wait");
        }
        let suite = *c.rng.pick(&SUITES);
        if o.server {
            let mut h = Hello::new(&mut c.rng);
            h.suites = vec![suite];
            let m = h.msg();
            feed.push(record(HS, &m));
            o.hello = Some((h, m));
        } else {
            let (recs, _) = records(&out);
            let raw: Vec<u8> = recs.iter().flat_map(|r| r.body.clone()).collect();
            let info = match parse_client_hello(&raw) {
                Ok(i) => i,
                Err(e) => return c.inconclusive(&e),
            };
            let spec = ServerSpec::new(suite, &w.server, &mut c.rng);
            let (sess, plain, prot) = tls::server_flight(&spec, &info, &raw, &mut no_edit).unwrap();
            let mut b = record(HS, &plain[0]);
            let mut d = sess.s_hs.clone();
            for r in protect(&mut d, &prot, Framing::PerMessage, 0, &mut c.rng) {
                b.extend(r);
            }
            feed.push(b);
            o.sess = Some(sess);
        }
    }
    // all of them at the same time
    for (o, f) in v.iter().zip(&feed) {
        o.eut.conn.feed(f);
    }
    for o in v.iter_mut() {
        let st = o.eut.wait(c);
        let out = o.eut.conn.take();
        if o.server {
            let (h, m) = o.hello.as_ref().unwrap();
            let mut sess = match tls::client_process(&out, h, m) {
                Ok(s) => s,
                Err(e) => return c.inconclusive(&e.chars().take(60).collect::<String>()),
            };
            let a = ClientAuth { chain: vec![(w.client.der.clone(), vec![])], key: Some(&w.client.key) };
            let fl = sess.client_flight(if auth { Some(&a) } else { None }, &mut no_edit);
            let mut d = sess.c_hs.clone();
            for r in protect(&mut d, &fl, Framing::PerMessage, 0, &mut c.rng) {
                o.eut.conn.feed(&r);
            }
            log.must.extend(lines(&sess));
            o.sess = Some(sess);
        } else {
            if !matches!(st, Status::Done(Res::Ok(_))) {
                return c.inconclusive("client not done");
            }
            log.must.extend(lines(o.sess.as_ref().unwrap()));
        }
    }
    for o in v.iter_mut() {
        if !matches!(o.eut.wait(c), Status::Done(Res::Ok(_))) {
            return c.inconclusive("not done");
        }
        leaks(c, &o.eut, o.sess.as_ref(), w, Some(&log.path), "concurrent");
    }
    let order: Vec<String> = String::from_utf8_lossy(&std::fs::read(&log.path).unwrap_or_default()[log.prior.as_ref().map_or(0, |p| p.len())..])
        .lines()
        .map(|l| {
            let r = l.split(' ').nth(1).unwrap_or("").to_string();
            let k = v.iter().position(|o| o.sess.as_ref().is_some_and(|s| hex(&s.transcript[6..38]) == r));
            format!("{k:?}{}", &l[..1.min(l.len())])
        })
        .collect();
    // the interleaving seen
    c.ev(format!("{n} {auth} {}", order.join(",")));
    let runs = order.windows(5).filter(|w| w[0][..7.min(w[0].len())] == w[4][..7.min(w[4].len())] && w[2][..7.min(w[2].len())] != w[0][..7.min(w[0].len())]).count();
    if runs > 0 {
        c.count("interleaved logs", 1);
    }
    c.count("concurrent connections", n as u64);
    log.check(c, &format!("{n} connections at once"));
}
/// Both ends under test, one file
fn both(c: &mut Case, w: &World) {
    let mut log = Log::new(w, c);
    let s = setup(w, Some(&log.path), c.rng.bool());
    let mut sv = Eut::new(Some(NOW));
    let mut cl = Eut::new(Some(NOW));
    sv.accept(&s.srv);
    cl.connect(&s.cfg);
    let mut tap: [Vec<u8>; 2] = [vec![], vec![]];
    let (a, b) = pump(c, &mut cl, &mut sv, &mut |client, x| {
        tap[client as usize].extend(&x);
        x
    });
    if !matches!((&a, &b), (Status::Done(Res::Ok(_)), Status::Done(Res::Ok(_)))) {
        return c.inconclusive("pair not done");
    }
    // every line twice; the secrets have to open the traffic
    let pre = log.prior.clone().unwrap_or_default();
    let got = std::fs::read(&log.path).unwrap_or_default();
    let new = String::from_utf8_lossy(&got[pre.len().min(got.len())..]).into_owned();
    let rnd = hex(&tap[1][11..43]);
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in new.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        if f.len() != 3 || f[1].to_lowercase() != rnd {
            return c.fail("unexpected line", format!("pair: {l:?}, client random {rnd}"));
        }
        m.entry(f[0].into()).or_default().push(f[2].to_lowercase());
    }
    let labels: Vec<&str> = m.keys().map(|s| s.as_str()).collect();
    if labels != ["CLIENT_HANDSHAKE_TRAFFIC_SECRET", "CLIENT_TRAFFIC_SECRET_0", "SERVER_HANDSHAKE_TRAFFIC_SECRET", "SERVER_TRAFFIC_SECRET_0"] {
        return c.fail("lines of a pair", format!("{labels:?}"));
    }
    for (k, v) in &m {
        c.check(v.len() == 2 && v[0] == v[1], "both ends log different secrets", || format!("{k}: {v:?}"));
    }
    let unhex = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() };
    let (recs, _) = records(&tap[0]);
    let suite = recs.first().and_then(|r| parse_server_hello(&r.body).ok()).map_or(0, |h| h.suite);
    if suite_ha(suite).is_none() {
        return c.inconclusive("suite");
    }
    let mut d = Dir::new(suite, &unhex(&m["SERVER_HANDSHAKE_TRAFFIC_SECRET"][0]));
    for r in recs.iter().filter(|r| r.typ == APP) {
        c.check(d.open(r).is_ok(), "logged secret does not open the traffic", || "server handshake record".into());
    }
    let mut d = Dir::new(suite, &unhex(&m["CLIENT_HANDSHAKE_TRAFFIC_SECRET"][0]));
    for r in records(&tap[1]).0.iter().filter(|r| r.typ == APP) {
        c.check(d.open(r).is_ok(), "logged secret does not open the traffic", || "client handshake record".into());
    }
    for (client, label) in [(true, "CLIENT_TRAFFIC_SECRET_0"), (false, "SERVER_TRAFFIC_SECRET_0")] {
        let e = if client { &mut cl } else { &mut sv };
        let x = c.rng.bytes(50);
        e.write(x.clone());
        e.wait(c);
        let out = e.conn.take();
        let mut d = Dir::new(suite, &unhex(&m[label][0]));
        let ok = open_app(&mut d, &out).is_ok_and(|o| o.data == x);
        c.check(ok, "logged secret does not open the traffic", || label.to_string());
    }
    c.ev(format!("pair {suite:04x} {:?}", log.prior.as_ref().map(|p| p.len().min(40))));
    c.count("pairs", 1);
    log.may = new.lines().map(|s| s.to_string()).collect();
    log.check(c, "pair");
}

pub fn run(rep: &Rep) {
    let w = World::new(rep.seed);
    // must not be used without being configured
    let trap = w.dir.path("env-keylog");
    std::env::set_var("SSLKEYLOGFILE", &trap);
    // a relative default name would land here
    let cwd = w.dir.path("cwd");
    std::fs::create_dir_all(&cwd).unwrap();
    let old = std::env::current_dir().ok();
    std::env::set_current_dir(&cwd).unwrap();
    rep.group("on", rep.n(500, 20_000), |c| history(c, &w, true));
    rep.group("off", rep.n(250, 8_000), |c| history(c, &w, false));
    rep.group("pair", rep.n(100, 3_000), |c| both(c, &w));
    sim::FILE_DELAY.store(400, Ordering::SeqCst);
    rep.group("concurrent", rep.n(250, 8_000), |c| concurrent(c, &w));
    sim::FILE_DELAY.store(0, Ordering::SeqCst);
    rep.group("stray files", 1, |c| {
        c.evals(1);
        c.check(!std::path::Path::new(&trap).exists(), "file created", || "SSLKEYLOGFILE".into());
        let n = std::fs::read_dir(&cwd).unwrap().count();
        c.check(n == 0, "file created", || format!("{n} files in the working directory"));
    });
    rep.group_t("large", 7, 2, |c| large(c, &w));
    // the default name
    rep.group_t("default name", 6, 1, |c| {
        let server = c.idx % 2 == 0;
        let mut log = Log { path: format!("{cwd}/keylog.txt"), prior: None, must: vec![], may: vec![] };
        let _ = std::fs::remove_file(&log.path);
        let s = Setup {
            srv: sim::server(w.server_builder().enable_keylog().build().expect("config")),
            cfg: Arc::new(w.client_builder(false).enable_keylog().build().expect("config")),
            auth: false,
        };
        match one(c, &w, &s, server) {
            Ok((l, _)) => log.must.extend(lines(&l.sess)),
            Err(e) => return c.inconclusive(&e.chars().take(60).collect::<String>()),
        }
        c.ev(format!("default name {server}"));
        log.check(c, "enable_keylog()");
    });
    // the most talkative log level must not tell secrets either
    std::env::set_var("RUST_LOG", "fixme");
    sim::SWALLOW.store(true, Ordering::SeqCst);
    anothertls::log::init();
    rep.group("log level", rep.n(120, 2_000), |c| {
        let on = c.rng.bool();
        history(c, &w, on);
    });
    sim::quiet(|| ());
    if let Some(o) = old {
        let _ = std::env::set_current_dir(o);
    }
    rep.require("lines verified", 2000);
    rep.require("captured data decrypted with the logged secrets", 100);
    rep.require("values that begin with a zero byte", 5);
    rep.require("server, key log off", 50);
    rep.require("client, key log off", 50);
    rep.require("failed handshakes", 50);
    rep.require("concurrent connections", 500);
    rep.require("bytes written elsewhere", 1000);
}
