//! What the crate prints, and that it does not matter to the connections
use crate::c25;
use crate::eut::*;
use crate::rep::{guarded, Case, Rep};
use crate::rng::Rng;
use crate::robust;
use crate::sim::{self, Eut, FileEv};
use crate::tls;
use std::collections::BTreeSet;
use std::io::Write;
use std::os::fd::{FromRawFd, OwnedFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::Mutex;

pub const RULE: &str = "a case is either a connection of one fate whose thread must not write anything to standard output or error, or a set of connections run in processes that differ in RUST_LOG, in other environment variables and in where standard output goes, whose traces have to be equal and whose lines have to be those of the level; distinct = (role, fate, outcome) and (variants compared, fates)";

/// Fates whose outcome does not depend on the length of signatures
fn fates() -> Vec<&'static str> {
    c25::FATES.iter().copied().filter(|f| *f != "send fails").collect()
}

static TRACE: Mutex<Vec<String>> = Mutex::new(vec![]);
fn traced(_: &mut Case, s: &robust::Set, a: &mut robust::At, kind: &str, _: &dyn Fn() -> String) {
    let (recs, _) = tls::records(&a.e.conn.sent());
    let mut types: Vec<u8> = recs.iter().map(|r| r.typ).collect();
    types.dedup();
    let last: String = format!("{:?}", a.e.last()).chars().take_while(|x| *x != '[').collect();
    TRACE.lock().unwrap().push(format!("server {}, {:?} {kind} {:04x}: {last}, sent {types:?}", s.server, a.stage, a.suite));
}
/// Certificates, signatures, keys and configurations of all kinds
fn objects(rng: &mut Rng) {
    use anothertls::crypto::ellipticcurve::Signature;
    let dir = Scratch::new();
    for _ in 0..40 {
        let d = crate::c15::any(rng);
        let r = guarded(|| {
            crate::sim::set_clock(Some(NOW));
            let r = anothertls::utils::x509::X509::from_raw(&d).map(|x| {
                let t = x.tbs_certificate;
                format!("valid {}, {}, {}", t.validity.is_valid(), t.issuer, t.subject)
            });
            crate::sim::set_clock(None);
            r.map_err(|e| format!("{e:?}"))
        });
        TRACE.lock().unwrap().push(format!("certificate: {r:?}"));
    }
    let key = crate::ossl::EcKey::random(rng);
    for _ in 0..20 {
        // not OpenSSL's, which are other ones each time
        let s = crate::der::sig_der(&rng.bytes(32), &rng.bytes(32));
        let s = if rng.bool() { crate::mutate::der(rng, &s) } else { crate::mutate::corrupt(rng, &s).1 };
        let r = guarded(|| Signature::from_der(&s).is_ok());
        TRACE.lock().unwrap().push(format!("signature: {r:?}"));
        let d = crate::c15::any(rng);
        let mut t = crate::der::pem64("CERTIFICATE", &d).into_bytes();
        if rng.bool() {
            t = crate::mutate::corrupt(rng, &t).1;
        }
        let cert = dir.file("cert", &t);
        let mut k = crate::der::pem64("EC PRIVATE KEY", &key.sec1_der()).into_bytes();
        if rng.bool() {
            k = crate::mutate::corrupt(rng, &k).1;
        }
        let key = dir.file("key", &k);
        let prng = rng.bool();
        let r = guarded(|| {
            let mut b = anothertls::ServerConfigBuilder::new().add_cert_pem(cert.clone()).add_privkey_pem(key.clone());
            if prng {
                b = b.set_prng(anothertls::rand::PRNG::Simple);
            }
            let c = anothertls::ClientConfigBuilder::new().add_client_cert_pem(cert.clone()).add_client_key_pem(key.clone());
            (b.build().is_ok(), c.build().is_ok())
        });
        TRACE.lock().unwrap().push(format!("configurations: {r:?}"));
    }
}
/// Certificates with names and dates of all kinds
fn people(s: &mut c25::Cfgs, rng: &mut Rng) {
    for client in [false, true] {
        let w = &mut s.w;
        let i = if client { &w.client } else { &w.server };
        let d = |rng: &mut Rng| (rng.below(2900) * 86400 + rng.below(86400)) as i64;
        let (from, to) = (NOW - d(rng), NOW + d(rng));
        let mut p = crate::der::CertSpec::new(if client { "client.test" } else { "server.test" }, if client { "Test CA" } else { "server.test" }, from, to, &i.key.public, rng);
        for o in ["2.5.4.6", "2.5.4.8", "2.5.4.10", "2.5.4.11", "2.5.4.7", "2.5.4.5"] {
            if rng.bool() {
                let n = rng.below(30);
                let v: String = (0..n).map(|_| *rng.pick(&['a', 'Z', ' ', ';', '=', '{', '}', '%', '\u{e9}', '\u{4e2d}', '\u{1f300}'])).collect();
                p.subject.insert(rng.below(p.subject.len() + 1), (o, 0x0c, v.into_bytes()));
            }
        }
        let der = p.sign(if client { &w.ca.key } else { &i.key });
        if client {
            w.client.der = der;
        } else {
            w.server.der = der;
        }
    }
}
/// Runs connections in a process of their own: `vh diag <seed> <file for the trace> <hostile or not>`
pub fn child(seed: u64, out: &str, hostile: bool) -> i32 {
    let mut trace = vec![];
    // a flood of calls does not matter either
    for _ in 0..3 {
        if let Err(p) = guarded(anothertls::log::init) {
            trace.push(format!("init: {p}"));
        }
    }
    let rep = Rep::new("C26", "quick", seed, std::time::Duration::from_secs(600), None, None);
    let mut s = c25::cfgs(seed);
    people(&mut s, &mut Rng::new(seed ^ 1));
    let t = Mutex::new(trace);
    if hostile {
        objects(&mut Rng::new(seed));
        for server in [true, false] {
            let s = robust::watched(seed, server, traced);
            rep.group_t(if server { "child hostile server" } else { "child hostile client" }, 40, 1, |c| {
                c.rng = Rng::new(seed ^ (c.idx as u64 * 2 + server as u64 + 1) << 20);
                robust::any(c, &s);
            });
        }
        let _ = guarded(|| std::io::stdout().flush());
        t.lock().unwrap().append(&mut TRACE.lock().unwrap());
        return std::fs::write(out, t.lock().unwrap().join("\n")).map_or(2, |_| 0);
    }
    rep.group_t("child", 1, 1, |c| {
        c.rng = Rng::new(seed);
        let fates = fates();
        for _ in 0..5 {
            let fate = *c.rng.pick(&fates);
            let (server, conf, suite) = (c.rng.bool(), c.rng.below(4), *c.rng.pick(&tls::SUITES));
            let mut e = Eut::new(Some(NOW));
            let st = c25::connection(c, &s, &mut e, server, conf, suite, fate);
            let sent = e.conn.sent();
            let (recs, rest) = tls::records(&sent);
            let types: Vec<u8> = recs.iter().map(|r| r.typ).collect();
            let status: String = st.chars().take_while(|x| *x != '[').collect();
            t.lock().unwrap().push(format!("server {server}, configuration {conf}, {suite:04x}, {fate}: {status}, sent {types:?} and {} bytes", rest.len()));
            e.drop_stream();
            e.wait(c);
        }
        let _ = guarded(|| std::io::stdout().flush());
    });
    let t = t.into_inner().unwrap();
    std::fs::write(out, t.join("\n")).map_or(2, |_| 0)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Pipe,
    Closed,
    Broken,
    Full,
}
struct Ran {
    trace: Vec<String>,
    printed: Vec<u8>,
}
struct Variant {
    name: String,
    level: Option<Vec<u8>>,
    other: Option<(Vec<u8>, Vec<u8>)>,
    out: Out,
    hostile: bool,
}
fn run_child(c: &mut Case, dir: &Scratch, seed: u64, k: usize, v: &Variant) -> Option<Ran> {
    use std::ffi::OsStr;
    let file = dir.path(&format!("trace-{}-{k}", c.idx));
    let mut p = Command::new(std::env::current_exe().expect("exe"));
    p.arg("diag").arg(seed.to_string()).arg(&file).arg(if v.hostile { "hostile" } else { "-" }).env_remove("RUST_LOG");
    if let Some(l) = &v.level {
        p.env("RUST_LOG", OsStr::from_bytes(l));
    }
    if let Some((k, x)) = &v.other {
        p.env(OsStr::from_bytes(k), OsStr::from_bytes(x));
    }
    p.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    match v.out {
        Out::Pipe => {}
        Out::Closed => unsafe {
            p.pre_exec(|| {
                libc::close(1);
                Ok(())
            });
        },
        Out::Broken => {
            let mut f = [0; 2];
            unsafe {
                assert_eq!(libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC), 0);
                libc::close(f[0]);
                p.stdout(OwnedFd::from_raw_fd(f[1]));
            }
        }
        Out::Full => {
            p.stdout(std::fs::File::options().write(true).open("/dev/full").expect("/dev/full"));
        }
    }
    let o = p.output().expect("child");
    let trace = std::fs::read_to_string(&file).ok();
    let _ = std::fs::remove_file(&file);
    if !o.status.success() || trace.is_none() {
        c.inconclusive("a process with connections failed");
        return None;
    }
    let mut printed = o.stdout;
    printed.extend(o.stderr);
    c.count("processes", 1);
    c.count("bytes printed", printed.len() as u64);
    Some(Ran { trace: trace.unwrap().lines().map(|l| l.to_string()).collect(), printed })
}
/// Lines with what differs from connection to connection taken out, and the colour that tells the level
fn lines(b: &[u8]) -> BTreeSet<(u8, String)> {
    let mut r = BTreeSet::new();
    for l in String::from_utf8_lossy(b).split('\n') {
        let mut l = l;
        let mut level = 0;
        while let Some(x) = l.strip_prefix("\x1b[") {
            let Some((code, x)) = x.split_once('m') else { break };
            level = match code.split(';').next() {
                Some("31") => 1,
                Some("33") => 2,
                Some("36") => 3,
                _ => level,
            };
            l = x;
        }
        if l.trim().is_empty() {
            continue;
        }
        let mut s = String::new();
        for ch in l.chars() {
            let ch = if ch.is_ascii_digit() || ch.is_ascii_hexdigit() { '#' } else { ch };
            if ch != '#' || !s.ends_with('#') {
                s.push(ch);
            }
        }
        r.insert((level, s));
    }
    r
}
fn levels(c: &mut Case, dir: &Scratch) {
    let seed = c.rng.u64();
    let v = |name: &str, level: Option<&[u8]>| Variant { name: name.into(), level: level.map(|x| x.to_vec()), other: None, out: Out::Pipe, hostile: false };
    let Some(none) = run_child(c, dir, seed, 0, &v("RUST_LOG not set", None)) else { return };
    c.check(none.printed.is_empty(), "the crate prints without being asked to", || format!("{}: {}", none.trace.join(" / "), String::from_utf8_lossy(&none.printed)));
    c.check(!none.trace.iter().any(|t| t.starts_with("init")), "log::init fails", || none.trace.join(" / "));
    if none.trace.iter().any(|t| t.contains("Panic")) {
        return c.inconclusive("panic (C13 and C14 judge that)");
    }
    let mut all = vec![];
    for (i, l) in ["error", "debug", "fixme"].iter().enumerate() {
        let mut x = v(&format!("RUST_LOG={l}"), Some(l.as_bytes()));
        let Some(r) = run_child(c, dir, seed, 1 + i, &x) else { return };
        c.check(r.trace == none.trace, "the log level changes a connection", || format!("{}: {} instead of {}", x.name, r.trace.join(" / "), none.trace.join(" / ")));
        all.push(lines(&r.printed));
        // in other letters, and with somewhere else to go
        if c.rng.one_in(2) {
            let other: String = l.chars().map(|ch| if c.rng.bool() { ch.to_ascii_uppercase() } else { ch }).collect();
            let y = v(&format!("RUST_LOG={other}"), Some(other.as_bytes()));
            let Some(r2) = run_child(c, dir, seed, 10 + i, &y) else { return };
            c.check(lines(&r2.printed) == all[i], "the case of RUST_LOG matters", || format!("{}: {:?} instead of {:?}", y.name, lines(&r2.printed), all[i]));
            c.count("spellings", 1);
        } else {
            x.out = *c.rng.pick(&[Out::Closed, Out::Broken, Out::Full]);
            let Some(r2) = run_child(c, dir, seed, 20 + i, &x) else { return };
            c.check(r2.trace == none.trace, "a fault of standard output disturbs a connection", || format!("{} {:?}: {} instead of {}", x.name, x.out, r2.trace.join(" / "), none.trace.join(" / ")));
            c.count(&format!("standard output {:?}", x.out), 1);
        }
    }
    for (i, l) in ["error", "debug"].iter().enumerate() {
        let want: BTreeSet<_> = all[2].iter().filter(|x| x.0 as usize <= i + 1).cloned().collect();
        c.check(all[i] == want, "not the lines of the log level", || format!("RUST_LOG={l}: {:?} instead of {:?}", all[i], want));
    }
    c.count("lines of level error", all[0].len() as u64);
    c.count("lines of level debug", all[1].len() as u64);
    // values that mean nothing, and other variables
    let strange: [&[u8]; 14] = [b"", b"none", b"info", b"trace", b"warn", b"off", b"0", b"error ", b"debug,", b"anothertls=debug", b"errors", b"\xff\xfe", b"debug\xff", b"err"];
    let s = *c.rng.pick(&strange);
    let mut x = v(&format!("RUST_LOG={:?}", String::from_utf8_lossy(s)), Some(s));
    x.out = *c.rng.pick(&[Out::Pipe, Out::Pipe, Out::Closed, Out::Broken, Out::Full]);
    let Some(r) = run_child(c, dir, seed, 30, &x) else { return };
    c.check(r.trace == none.trace, "log::init or a connection fails", || format!("{} {:?}: {} instead of {}", x.name, x.out, r.trace.join(" / "), none.trace.join(" / ")));
    c.check(r.printed.is_empty(), "an unknown level prints", || format!("{}: {}", x.name, String::from_utf8_lossy(&r.printed)));
    c.count("values without a meaning", 1);
    let (name, value): (&[u8], &[u8]) = *c.rng.pick(&[(b"WHERE" as &[u8], b"\xff\xfe" as &[u8]), (b"NA\xf0ME", b"x"), (b"RUST_LOGGER", b"fixme"), (b"rust_log", b"fixme"), (b"XRUST_LOG", b"debug"), (b"EMPTY", b"")]);
    let mut x = v("error", Some(b"error"));
    x.other = Some((name.to_vec(), value.to_vec()));
    let Some(r) = run_child(c, dir, seed, 31, &x) else { return };
    let what = || format!("RUST_LOG=error and {:?}={:?}", String::from_utf8_lossy(name), String::from_utf8_lossy(value));
    c.check(r.trace == none.trace, "log::init or a connection fails", || format!("{}: {} instead of {}", what(), r.trace.join(" / "), none.trace.join(" / ")));
    c.check(lines(&r.printed) == all[0], "another variable changes what is printed", || format!("{}: {:?} instead of {:?}", what(), lines(&r.printed), all[0]));
    c.count("other variables", 1);
    c.ev(format!("levels {:?}", none.trace));
    c.sample("levels", || format!("{}: {} error, {} debug, {} fixme lines", none.trace.join(" / "), all[0].len(), all[1].len(), all[2].len()));
}
/// Hostile connections, certificates, keys: no level and no state of standard output changes what comes of them
fn courses(c: &mut Case, dir: &Scratch) {
    let seed = c.rng.u64();
    let mut k = 0;
    let mut go = |c: &mut Case, level: Option<&str>, out: Out| {
        k += 1;
        let v = Variant { name: String::new(), level: level.map(|l| l.as_bytes().to_vec()), other: None, out, hostile: true };
        run_child(c, dir, seed, 100 + k, &v)
    };
    let Some(none) = go(c, None, Out::Pipe) else { return };
    c.check(none.printed.is_empty(), "the crate prints without being asked to", || String::from_utf8_lossy(&none.printed).into_owned());
    for l in ["error", "debug", "fixme"] {
        let out = *c.rng.pick(&[Out::Pipe, Out::Pipe, Out::Closed, Out::Broken, Out::Full]);
        let Some(r) = go(c, Some(l), out) else { return };
        let differs = |a: &[String], b: &[String]| (0..a.len().max(b.len())).filter(|i| a.get(*i) != b.get(*i)).collect::<Vec<_>>();
        let mut d = differs(&r.trace, &none.trace);
        if !d.is_empty() {
            // what the endpoints choose at random may matter, too: again
            for _ in 0..16 {
                if d.is_empty() {
                    break;
                }
                let (Some(a), Some(b)) = (go(c, None, Out::Pipe), go(c, Some(l), out)) else { return };
                d.retain(|i| a.trace.get(*i) == none.trace.get(*i) && b.trace.get(*i) == r.trace.get(*i));
                c.count("repeated comparisons", 1);
            }
        }
        if let Some(i) = d.first() {
            c.fail("the log level changes what comes of an input", format!("RUST_LOG={l}, {out:?}: {:?} instead of {:?}", r.trace.get(*i), none.trace.get(*i)));
            return;
        }
        c.count("courses compared", r.trace.len() as u64);
    }
    let panics = none.trace.iter().filter(|t| t.contains("panic") || t.contains("Panic")).count();
    c.count("panics (judged by others)", panics as u64);
    for t in &none.trace {
        c.ev(t);
    }
    c.sample("courses", || none.trace.iter().rev().take(3).cloned().collect::<Vec<_>>().join(" / "));
}
/// Nothing is printed for one connection of any kind
fn silent(c: &mut Case, s: &c25::Cfgs) {
    let fate = c25::FATES[c.idx % c25::FATES.len()];
    let (server, conf, suite) = (c.rng.bool(), c.rng.below(4), *c.rng.pick(&tls::SUITES));
    let mut e = Eut::new(Some(NOW));
    let st = c25::connection(c, s, &mut e, server, conf, suite, fate);
    quiet(c, &mut e, || format!("server {server}, configuration {conf}, {suite:04x}, {fate}: {st}"));
    let st: String = st.chars().take(40).collect();
    c.ev(format!("silent {server} {fate} {st}"));
    c.count("connections without a line", 1);
}
fn quiet(c: &mut Case, e: &mut Eut, what: impl FnOnce() -> String) {
    e.start(|_| {
        let _ = std::io::stdout().flush();
        sim::Res::Ok(vec![])
    });
    e.wait(c);
    let mut t = vec![];
    for f in e.files() {
        if let FileEv::Write { fd: 1 | 2, data } = f {
            t.extend(data);
        }
    }
    c.check(t.is_empty(), "the crate prints without being asked to", || format!("{}: {}", what(), String::from_utf8_lossy(&t)));
}
/// Nor for calls without a connection
fn calls(c: &mut Case) {
    use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, Point, PublicKey, Signature};
    let mut e = Eut::new(Some(NOW));
    let n = c.rng.below(6);
    let mut v = c.rng.bytes(64);
    let key = crate::ossl::EcKey::random(&mut c.rng);
    if n < 2 {
        v.copy_from_slice(&key.public[1..65]);
    }
    if n == 1 {
        v[c.rng.below(64)] ^= 1 << c.rng.below(8);
    }
    let junk = c.rng.bytes(200);
    let certs: Vec<Vec<u8>> = (0..4).map(|_| crate::c15::any(&mut c.rng)).collect();
    let what = format!("{n} {}", crate::rep::hex(&v));
    e.start(move |_| {
        let p = |b: &[u8]| anothertls::utils::bytes::to_ibig_be(b);
        let k = PublicKey::new(Point::new(p(&v[..32]), p(&v[32..])), Curve::secp256r1());
        let _ = Ecdsa::verify(k, &Signature::new(p(&junk[..31]), p(&junk[32..63])), &junk[..32]);
        let _ = Signature::from_der(&junk);
        let _ = anothertls::utils::x509::X509::from_raw(&junk);
        for d in certs {
            if let Ok(x) = anothertls::utils::x509::X509::from_raw(&d) {
                x.tbs_certificate.validity.is_valid();
                let _ = x.get_public_key();
            }
        }
        let _ = anothertls::utils::base64::decode(&String::from_utf8_lossy(&junk));
        sim::Res::Ok(vec![])
    });
    if let sim::Status::Done(sim::Res::Panic(_)) = e.wait(c) {
        c.inconclusive("panic (others judge that)");
        return;
    }
    quiet(c, &mut e, || what.clone());
    c.ev(what);
    c.count("calls without a line", 1);
}

/// Nor for hostile input of any kind
fn hostile(c: &mut Case, s: &robust::Set, a: &mut robust::At, kind: &str, detail: &dyn Fn() -> String) {
    quiet(c, &mut a.e, || format!("server {}, {:?}, {kind}: {}", s.server, a.stage, detail()));
    c.count("hostile connections without a line", 1);
}

/// Nor in whatever the other checks do
fn silent_endpoint(c: &mut Case, s: &crate::rep::Seen) {
    c.check(s.printed.is_empty(), "the crate prints without being asked to", || format!("{s:?}: {}", String::from_utf8_lossy(&s.printed)));
}

pub fn run(r: &Rep) {
    sim::SWALLOW.store(true, std::sync::atomic::Ordering::SeqCst);
    let s = c25::cfgs(r.seed);
    r.group("silent", 17 * r.n(40, 1500), |c| silent(c, &s));
    r.group("calls", r.n(400, 10_000), calls);
    for server in [false, true] {
        robust::watch(r, &robust::watched(r.seed, server, hostile));
    }
    #[cfg(feature = "c01")]
    r.watch("C01", 4, silent_endpoint, crate::c01::run);
    #[cfg(feature = "c02")]
    r.watch("C02", 4, silent_endpoint, crate::c02::run);
    #[cfg(feature = "c08")]
    r.watch("C08", 4, silent_endpoint, crate::c08::run);
    #[cfg(feature = "c09")]
    r.watch("C09", 4, silent_endpoint, crate::c09::run);
    #[cfg(feature = "c10")]
    r.watch("C10", 4, silent_endpoint, crate::c10::run);
    #[cfg(feature = "c11")]
    r.watch("C11", 4, silent_endpoint, crate::c11::run);
    #[cfg(feature = "c12")]
    r.watch("C12", 5, silent_endpoint, crate::c12::run);
    #[cfg(feature = "c19")]
    r.watch("C19", 5, silent_endpoint, crate::c19::run);
    #[cfg(feature = "c20")]
    r.watch("C20", 5, silent_endpoint, crate::c20::run);
    let dir = Scratch::new();
    r.group("levels", r.n(48, 1200), |c| levels(c, &dir));
    r.group("courses", r.n(16, 600), |c| courses(c, &dir));
    r.require("courses compared", 3000);
    r.require("connections without a line", 300);
    r.require("calls without a line", 200);
    r.require("hostile connections without a line", 5000);
    r.require("processes", 200);
    r.require("lines of level error", 20);
    r.require("lines of level debug", 100);
    r.require("values without a meaning", 20);
    for o in ["Closed", "Broken", "Full"] {
        r.require(&format!("standard output {o}"), 8);
    }
}
