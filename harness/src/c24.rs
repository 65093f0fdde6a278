//! C24: a configuration is exactly what its builder was told
use crate::eut::*;
use crate::rep::{guarded, hex, Case, Rep};
use crate::rng::Rng;
use crate::sim::{self, Res, Status};
use crate::tls::*;
use anothertls::utils::x509::X509;
use anothertls::{ClientConfigBuilder, ServerConfigBuilder};
use std::sync::Arc;

pub const RULE: &str = "a case is one sequence of builder calls in random order, with repetitions, omissions and unusable files, for a server or a client; if the configuration is refused, this has to be what the calls deserve; if not, connections with it have to show the certificate, key, client CA, callback, server name and key log of the last call each and nothing else, also after the files were replaced; distinct = (role, sequence of calls, verdict)";

fn yes(_: &X509) -> bool {
    true
}
fn no(_: &X509) -> bool {
    false
}
fn lines(p: &str) -> usize {
    std::fs::read_to_string(p).map(|s| s.lines().count()).unwrap_or(0)
}
/// Lines about this connection in the file every `enable_keylog` configuration shares, from `at` on
fn shared(random: &[u8], at: u64) -> usize {
    use std::io::{Read, Seek, SeekFrom};
    let mut s = String::new();
    if let Ok(mut f) = std::fs::File::open(SHARED) {
        let _ = f.seek(SeekFrom::Start(at)).and_then(|_| f.read_to_string(&mut s));
    }
    let h = hex(random);
    s.lines().filter(|l| l.to_ascii_lowercase().contains(&h)).count()
}
fn shared_len() -> u64 {
    std::fs::metadata(SHARED).map(|m| m.len()).unwrap_or(0)
}
const SHARED: &str = "keylog.txt";
/// Copies of the file, so that they can be replaced after the builder has read them
fn copy(dir: &Scratch, from: &str, name: String) -> String {
    dir.file(&name, &std::fs::read(from).expect("file"))
}
fn add_sni(h: &mut Hello, n: &str) {
    let e = [&[0][..], &vec16(n.as_bytes())].concat();
    h.set_ext(0, vec16(&e));
    h.sni = Some(n.into());
}

#[derive(Default, Clone)]
struct Want {
    cert: Option<usize>,
    key: Option<usize>,
    ca: Option<usize>,
    cb: Option<bool>,
    log: Option<usize>,
    name: Option<usize>,
    bad: bool,
}
const NAMES: [&str; 3] = ["a.test", "b.test", "ab.test"];

fn server(c: &mut Case, ws: &[World]) {
    let dir = Scratch::new();
    let mut b = Some(ServerConfigBuilder::new());
    let mut w = Want::default();
    let mut what = vec![];
    let mut files = vec![];
    let logs: Vec<String> = (0..2).map(|i| dir.path(&format!("log{i}"))).collect();
    // mostly complete ones
    let mut ops: Vec<usize> = (0..c.rng.below(7)).map(|_| c.rng.below(6)).collect();
    if !c.rng.one_in(8) {
        ops.push(0);
    }
    if !c.rng.one_in(8) {
        ops.push(1);
    }
    c.rng.shuffle(&mut ops);
    for (i, op) in ops.iter().enumerate() {
        let k = c.rng.below(2);
        let bad = *op < 3 && c.rng.one_in(60);
        let old = b.take().unwrap();
        let path = |c: &mut Case, good: &str| {
            if bad {
                match c.rng.below(3) {
                    0 => dir.path("not there"),
                    1 => dir.file(&format!("{i}"), b""),
                    _ => dir.file(&format!("{i}"), b"-----BEGIN NOTHING-----\nAAAA\n-----END NOTHING-----\n"),
                }
            } else {
                copy(&dir, good, format!("{i}"))
            }
        };
        let r = match op {
            0 => {
                what.push(format!("cert{k}"));
                w.cert = Some(k);
                let p = path(c, &ws[k].srv_cert);
                files.push(p.clone());
                guarded(move || old.add_cert_pem(p))
            }
            1 => {
                what.push(format!("key{k}"));
                w.key = Some(k);
                let p = path(c, &ws[k].srv_key);
                files.push(p.clone());
                guarded(move || old.add_privkey_pem(p))
            }
            2 => {
                what.push(format!("ca{k}"));
                w.ca = Some(k);
                let p = path(c, &ws[k].ca_cert);
                files.push(p.clone());
                guarded(move || old.add_client_cert_ca(p))
            }
            3 => {
                let f = !c.rng.one_in(4);
                what.push(format!("callback {f}"));
                w.cb = Some(f);
                guarded(move || old.set_client_cert_custom_verify_fn(if f { yes } else { no }))
            }
            4 if c.rng.one_in(4) => {
                what.push("enable_keylog".into());
                w.log = Some(2);
                guarded(move || old.enable_keylog())
            }
            4 => {
                what.push(format!("log{k}"));
                w.log = Some(k);
                let p = logs[k].clone();
                guarded(move || old.set_keylog_path(p))
            }
            _ => {
                let k = c.rng.below(3);
                what.push(format!("name {}", NAMES[k]));
                w.name = Some(k);
                guarded(move || old.set_server_name(NAMES[k].into()))
            }
        };
        if bad {
            w.bad = true;
            *what.last_mut().unwrap() += " (unusable)";
        }
        match r {
            Ok(x) => b = Some(x),
            Err(e) => {
                c.check(w.bad, "usable file refused", || format!("server: {what:?}: {e}"));
                c.count("unusable files refused", 1);
                c.ev(format!("server {what:?} refused"));
                return;
            }
        }
    }
    let b = b.unwrap();
    let cfg = match guarded(move || b.build()) {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    let incomplete = w.bad || w.cert.is_none() || w.key.is_none() || w.cb.is_some() && w.ca.is_none();
    c.ev(format!("server {what:?} {}", cfg.is_ok()));
    let cfg = match cfg {
        Ok(x) => x,
        Err(e) => {
            c.check(incomplete, "complete configuration refused", || format!("server: {what:?}: {e}"));
            c.count("incomplete configurations refused", 1);
            return;
        }
    };
    if !c.check(!incomplete, "incomplete configuration accepted", || format!("server: {what:?}")) {
        return;
    }
    for l in &logs {
        c.check(!std::path::Path::new(l).exists(), "key log", || format!("server: {what:?}: {l} exists before a handshake"));
    }
    // what the files hold now must not matter
    for f in &files {
        match c.rng.below(3) {
            0 => {
                let _ = std::fs::remove_file(f);
            }
            1 => std::fs::write(f, b"nothing").unwrap(),
            _ => {}
        }
    }
    let srv = sim::server(cfg);
    let (cert, key) = (w.cert.unwrap(), w.key.unwrap());
    for round in 0..3 {
        // who connects: the right or another world's client, asking for some name
        let who = if c.rng.one_in(3) { 1 - w.ca.unwrap_or(0) } else { w.ca.unwrap_or(0) };
        let mut h = Hello::new(&mut c.rng);
        let suite = *c.rng.pick(&SUITES);
        h.suites = vec![suite];
        let asks = if c.rng.one_in(3) { c.rng.below(3) } else { w.name.unwrap_or(0) };
        add_sni(&mut h, NAMES[asks]);
        let mut o = Opts::new(suite);
        let h_random = h.random.to_vec();
        o.hello = Some(h);
        o.client_auth = w.ca.is_some();
        let before: Vec<usize> = logs.iter().map(|l| lines(l)).collect();
        let (shared_at, random) = (shared_len(), h_random);
        let ctx = format!("server: {what:?}; client {who} asks for {}", NAMES[asks]);
        let r = link_server(c, &ws[who], &srv, o);
        let should = cert == key && w.name.is_none_or(|n| n == asks) && w.ca.is_none_or(|a| a == who && w.cb != Some(false));
        match r {
            Ok(l) => {
                if !c.check(should, "configuration not enforced", || ctx.clone()) {
                    return;
                }
                c.check(l.sess.server_chain == [ws[cert].server.der.clone()], "certificate", || format!("{ctx}: another certificate than configured"));
                c.check(l.sess.cert_request.is_some() == w.ca.is_some(), "certificate request", || ctx.clone());
                for (i, p) in logs.iter().enumerate() {
                    let grown = lines(p) - before[i];
                    let want = if w.log == Some(i) { 4 } else { 0 };
                    c.check(grown == want, "key log", || format!("{ctx}: {grown} new lines in log{i}"));
                }
                let (n, want) = (shared(&random, shared_at), if w.log == Some(2) { 4 } else { 0 });
                c.check(n == want, "key log", || format!("{ctx}: {n} lines in {SHARED}"));
                c.count("connections logged in the default file", (want > 0) as u64);
                c.count("connections as configured", 1);
            }
            Err(e) => {
                if !c.check(!should, "conforming client refused", || format!("{ctx}: {e}")) {
                    return;
                }
                for (i, p) in logs.iter().enumerate() {
                    if w.log != Some(i) {
                        c.check(!std::path::Path::new(p).exists(), "key log", || format!("{ctx}: log{i} was not asked for"));
                    }
                }
                if w.log != Some(2) {
                    c.check(shared(&random, shared_at) == 0, "key log", || format!("{ctx}: {SHARED} was not asked for"));
                }
                c.count("connections refused as configured", 1);
            }
        }
        c.ev(format!("server {what:?} {who} {asks} {round} {should}"));
    }
    c.sample("server", || format!("{what:?}"));
}

fn client(c: &mut Case, ws: &[World]) {
    let dir = Scratch::new();
    let mut b = Some(ClientConfigBuilder::new());
    let mut w = Want::default();
    let mut what = vec![];
    let mut files = vec![];
    let logs: Vec<String> = (0..2).map(|i| dir.path(&format!("log{i}"))).collect();
    let mut ops: Vec<usize> = (0..c.rng.below(6)).map(|_| *c.rng.pick(&[0usize, 1, 4, 5])).collect();
    if ops.contains(&0) && !c.rng.one_in(6) {
        ops.push(1);
    }
    c.rng.shuffle(&mut ops);
    for (i, op) in ops.iter().enumerate() {
        let k = c.rng.below(2);
        let bad = *op < 2 && c.rng.one_in(40);
        let old = b.take().unwrap();
        let path = |c: &mut Case, good: &str| {
            if bad {
                match c.rng.below(2) {
                    0 => dir.path("not there"),
                    _ => dir.file(&format!("{i}"), b"-----BEGIN NOTHING-----\nAAAA\n-----END NOTHING-----\n"),
                }
            } else {
                copy(&dir, good, format!("{i}"))
            }
        };
        let r = match op {
            0 => {
                what.push(format!("cert{k}"));
                w.cert = Some(k);
                let p = path(c, &ws[k].cli_cert);
                files.push(p.clone());
                guarded(move || old.add_client_cert_pem(p))
            }
            1 => {
                what.push(format!("key{k}"));
                w.key = Some(k);
                let p = path(c, &ws[k].cli_key);
                files.push(p.clone());
                guarded(move || old.add_client_key_pem(p))
            }
            4 if c.rng.one_in(4) => {
                what.push("enable_keylog".into());
                w.log = Some(2);
                guarded(move || old.enable_keylog())
            }
            4 => {
                what.push(format!("log{k}"));
                w.log = Some(k);
                let p = logs[k].clone();
                guarded(move || old.set_keylog_path(p))
            }
            _ => {
                let k = c.rng.below(3);
                what.push(format!("name {}", NAMES[k]));
                w.name = Some(k);
                guarded(move || old.set_server_name(NAMES[k].into()))
            }
        };
        if bad {
            w.bad = true;
            *what.last_mut().unwrap() += " (unusable)";
        }
        match r {
            Ok(x) => b = Some(x),
            Err(e) => {
                c.check(w.bad, "usable file refused", || format!("client: {what:?}: {e}"));
                c.count("unusable files refused", 1);
                c.ev(format!("client {what:?} refused"));
                return;
            }
        }
    }
    let b = b.unwrap();
    let cfg = match guarded(move || b.build()) {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    let incomplete = w.bad || w.cert.is_some() && w.key.is_none();
    c.ev(format!("client {what:?} {}", cfg.is_ok()));
    let cfg = match cfg {
        Ok(x) => Arc::new(x),
        Err(e) => {
            c.check(incomplete, "complete configuration refused", || format!("client: {what:?}: {e}"));
            c.count("incomplete configurations refused", 1);
            return;
        }
    };
    if !c.check(!incomplete, "incomplete configuration accepted", || format!("client: {what:?}")) {
        return;
    }
    for f in &files {
        match c.rng.below(3) {
            0 => {
                let _ = std::fs::remove_file(f);
            }
            1 => std::fs::write(f, b"nothing").unwrap(),
            _ => {}
        }
    }
    for round in 0..3 {
        let suite = *c.rng.pick(&SUITES);
        let asked = c.rng.bool();
        let ctx = format!("client: {what:?}; certificate asked for: {asked}");
        let before: Vec<usize> = logs.iter().map(|l| lines(l)).collect();
        let shared_at = shared_len();
        let (mut eut, info, raw) = match start_client(c, &cfg, sim::Caps::All, sim::Caps::All, NOW) {
            Ok(x) => x,
            Err(e) => {
                c.fail("ClientHello", format!("{ctx}: {e}"));
                return;
            }
        };
        let name = w.name.map(|n| NAMES[n].to_string());
        c.check(info.sni == name, "server name", || format!("{ctx}: {:?} sent", info.sni));
        let mut spec = ServerSpec::new(suite, &ws[0].server, &mut c.rng);
        if asked {
            spec.request = Some(vec![]);
        }
        let (mut sess, plain, prot) = server_flight(&spec, &info, &raw, &mut no_edit).expect("flight");
        let mut b = vec![];
        for p in plain {
            b.extend(record(HS, &p));
        }
        let mut d = sess.s_hs.clone();
        for r in protect(&mut d, &prot, Framing::PerMessage, 0, &mut c.rng) {
            b.extend(r);
        }
        sess.s_hs = d;
        eut.conn.feed(&b);
        let st = eut.wait(c);
        let out = eut.conn.take();
        // a certificate with the key of another one is shown, but can't be verified
        let fits = w.cert.is_none() || w.cert == w.key;
        if !matches!(&st, Status::Done(Res::Ok(_))) {
            c.fail("handshake with a conforming server fails", format!("{ctx}: {st:?}"));
            return;
        }
        match sess.server_process(&out) {
            Ok(fl) => {
                let want = asked.then(|| w.cert.map(|i| ws[i].client.der.clone()).into_iter().collect::<Vec<_>>());
                c.check(fl.chain == want, "client certificate", || format!("{ctx}: {:?} certificates sent", fl.chain.as_ref().map(|x| x.len())));
                c.check(!asked || fl.verified == w.cert.is_some() && fits, "client certificate", || format!("{ctx}: verified {}", fl.verified));
            }
            Err(e) => {
                c.check(asked && !fits, "second flight of the client", || format!("{ctx}: {e}"));
            }
        }
        for (i, p) in logs.iter().enumerate() {
            let grown = lines(p) - before[i];
            let want = if w.log == Some(i) { 4 } else { 0 };
            c.check(grown == want, "key log", || format!("{ctx}: {grown} new lines in log{i}"));
        }
        let (n, want) = (shared(&info.random, shared_at), if w.log == Some(2) { 4 } else { 0 });
        c.check(n == want, "key log", || format!("{ctx}: {n} lines in {SHARED}"));
        c.count("connections logged in the default file", (want > 0) as u64);
        c.count("connections as configured", 1);
        c.ev(format!("client {what:?} {asked} {round}"));
    }
    c.sample("client", || format!("{what:?}"));
}

pub fn run(r: &Rep) {
    let mut rng = Rng::new(r.seed ^ 0xc24);
    let ws = [World::new(rng.u64()), World::new(rng.u64())];
    // enable_keylog() names a file in the working directory
    let cwd = Scratch::new();
    let old = std::env::current_dir().ok();
    std::env::set_current_dir(cwd.path(".")).expect("working directory");
    r.group("server", r.n(1200, 25_000), |c| server(c, &ws));
    r.group("client", r.n(1200, 25_000), |c| client(c, &ws));
    if let Some(o) = old {
        let _ = std::env::set_current_dir(o);
    }
    r.require("connections logged in the default file", 50);
    r.require("connections as configured", 800);
    r.require("connections refused as configured", 200);
    r.require("incomplete configurations refused", 100);
    r.require("unusable files refused", 30);
}
