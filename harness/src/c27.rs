//! Faults of the host: no descriptors, files that cannot be opened, written or read in one go,
//! a listener that fails, a clock that is anywhere
use crate::eut::*;
use crate::rep::{hex, Case, Rep};
use crate::rng::Rng;
use crate::sim::{self, Caps, Eut, Faults, Res, Status};
use crate::tls::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const RULE: &str = "a case is a history of connections of one thread, in some of which a fault of the host (or several) is injected from some operation on: none may panic, the connections either work in full or are refused, random values stay unpredictable, files are only appended to, and the next connection without a fault works; distinct = (kind of fault, role, suite, configuration, place, outcome)";

struct Seen(Mutex<HashMap<u64, u64>>);
impl Seen {
    /// Nothing in these random values was there before
    fn random(&self, c: &mut Case, what: &str, v: &[u8], how: &dyn Fn() -> String) {
        let id = c.rng.u64();
        let mut m = self.0.lock().unwrap();
        for w in v.windows(8) {
            if let Some(o) = m.insert(u64::from_be_bytes(w.try_into().unwrap()), id) {
                drop(m);
                return c.fail("random values repeat under faults", format!("{what} {}: {} was there before{}: {}", hex(v), hex(w), if o == id { " in the same value" } else { "" }, how()));
            }
        }
        c.count("random values judged", 1);
    }
}
struct Set {
    w: World,
    seen: Seen,
}

/// Echo in both directions
fn exchange(c: &mut Case, e: &mut Eut, s: &mut Session, server: bool) -> Result<(), String> {
    for _ in 0..2 {
        let n = c.rng.range(1, 3000);
        let d = c.rng.bytes(n);
        e.write(d.clone());
        match e.wait(c) {
            Status::Done(Res::Ok(_)) => {}
            st => return Err(format!("write: {st:?}")),
        }
        let sent = e.conn.take();
        let dir = if server { &mut s.s_ap } else { &mut s.c_ap };
        let mut got = vec![];
        for r in records(&sent).0 {
            match dir.open(&r) {
                Ok((APP, x, _)) => got.extend(x),
                x => return Err(format!("sent {x:?}")),
            }
        }
        if got != d {
            return Err("other bytes arrive".into());
        }
        let r = if server { &mut s.c_ap } else { &mut s.s_ap }.seal(APP, &d, 0);
        e.conn.feed(&r);
        e.read(n);
        match e.wait(c) {
            Status::Done(Res::Ok(x)) if x == d => {}
            st => return Err(format!("read: {st:?}")),
        }
    }
    Ok(())
}
/// What this role chose at random in the handshake
impl std::fmt::Debug for Went {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Went::Well(_) => write!(f, "it works"),
            Went::Refused(t) => write!(f, "refused: {t}"),
            Went::Panicked(t) | Went::Wrong(t) => write!(f, "{t}"),
        }
    }
}
fn randoms(s: &Session, server: bool) -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![];
    if server {
        if let Some(sh) = &s.sh {
            v.push(("server random", sh.random.to_vec()));
            v.push(("server key share", sh.share.to_vec()));
        }
    } else {
        v.push(("client random", s.transcript[6..38].to_vec()));
    }
    v
}
fn lines(s: &Session) -> Vec<String> {
    let r = hex(&s.transcript[6..38]);
    [("SERVER_HANDSHAKE_TRAFFIC_SECRET", &s.secrets.shs), ("CLIENT_HANDSHAKE_TRAFFIC_SECRET", &s.secrets.chs), ("SERVER_TRAFFIC_SECRET_0", &s.s_ap.secret), ("CLIENT_TRAFFIC_SECRET_0", &s.c_ap.secret)]
        .iter()
        .map(|(n, v)| format!("{n} {r} {}", hex(v)))
        .collect()
}
struct Ends {
    srv: Arc<anothertls::ServerConnection>,
    cli: Arc<anothertls::net::client::ClientConfig>,
}
fn ends(s: &Set, auth: bool, log: Option<&str>) -> Ends {
    let mut b = s.w.server_builder();
    let mut d = s.w.client_builder(auth);
    if auth {
        b = b.add_client_cert_ca(s.w.ca_cert.clone());
    }
    if let Some(l) = log {
        b = b.set_keylog_path(l.into());
        d = d.set_keylog_path(l.into());
    }
    Ends { srv: sim::server(b.build().expect("server config")), cli: Arc::new(d.build().expect("client config")) }
}
enum Went {
    Well(Box<Session>),
    Refused(String),
    Panicked(String),
    Wrong(String),
}
/// One connection with this fault in force (Faults::default(): none). When: before the handshake or
/// after it
#[allow(clippy::too_many_arguments)]
fn connection(c: &mut Case, s: &Set, x: &Ends, e: &mut Eut, server: bool, auth: bool, suite: u16, f: &Faults, late: bool) -> Went {
    e.renew(c);
    let mut o = Opts::new(suite);
    o.client_auth = auth;
    o.recv = Caps::random(&mut c.rng);
    o.send = Caps::random(&mut c.rng);
    e.faults(c, if late { Faults::default() } else { f.clone() });
    let r = if server { link_server_on(c, &s.w, &x.srv, o, e) } else { link_client_on(c, &s.w, &x.cli, o, e) };
    let panicked = |e: &Eut| match e.last() {
        Some(Res::Panic(p)) => Some(p.clone()),
        _ => None,
    };
    let went = match r {
        Ok(mut sess) => {
            for (what, v) in randoms(&sess, server) {
                s.seen.random(c, what, &v, &|| format!("server {server}"));
            }
            if late {
                e.faults(c, f.clone());
            }
            match exchange(c, e, &mut sess, server) {
                Ok(()) => Went::Well(Box::new(sess)),
                Err(t) => match panicked(e) {
                    Some(p) => Went::Panicked(p),
                    None => Went::Wrong(t),
                },
            }
        }
        Err(t) => {
            let st = e.try_wait().ok();
            match (panicked(e), st) {
                (Some(p), _) => Went::Panicked(p),
                (_, Some(Status::Done(Res::Err(_)))) => Went::Refused(t),
                _ => Went::Wrong(t),
            }
        }
    };
    went
}
fn over(c: &mut Case, e: &mut Eut) -> u64 {
    e.conn.eof();
    e.wait(c);
    let n = e.faults(c, Faults::default());
    e.drop_stream();
    e.wait(c);
    n
}

/// The next connection, without a fault
fn afterwards(c: &mut Case, s: &Set, x: &Ends, e: &mut Eut, server: bool, auth: bool, what: &dyn Fn() -> String) -> Option<Vec<String>> {
    let suite = *c.rng.pick(&SUITES);
    let went = connection(c, s, x, e, server, auth, suite, &Faults::default(), false);
    let well = matches!(went, Went::Well(_));
    if !well {
        c.fail("a fault outlives its cause", format!("{went:?} afterwards: {}", what()));
    }
    over(c, e);
    c.count("connections after a fault", well as u64);
    match went {
        Went::Well(l) => Some(lines(&l)),
        _ => None,
    }
}
fn judge(c: &mut Case, went: &Went, what: &dyn Fn() -> String) -> bool {
    match went {
        Went::Well(_) => c.count("connections that work in spite of the fault", 1),
        Went::Refused(_) => c.count("connections that the fault ends", 1),
        Went::Panicked(p) => {
            c.fail("a fault of the host panics", format!("{p}: {}", what()));
            return false;
        }
        Went::Wrong(t) => {
            c.fail("a fault of the host disturbs a connection", format!("{t}: {}", what()));
            return false;
        }
    }
    true
}
fn kind(w: &Went) -> &'static str {
    match w {
        Went::Well(_) => "works",
        Went::Refused(_) => "refused",
        _ => "fails",
    }
}
/// No files can be opened, from some file on
fn descriptors(c: &mut Case, s: &Set) {
    let server = c.idx % 2 == 0;
    let (auth, log) = (c.rng.bool(), c.rng.bool());
    let path = s.w.dir.path(&format!("log-{}", c.idx));
    let x = ends(s, auth, log.then_some(&path));
    let mut e = Eut::new(Some(NOW));
    // the process has had connections before
    let mut written = vec![];
    match connection(c, s, &x, &mut e, server, auth, SUITES[0], &Faults::default(), false) {
        Went::Well(l) => written.extend(lines(&l)),
        _ => return c.inconclusive("no connection without a fault"),
    }
    over(c, &mut e);
    for _ in 0..3 {
        let suite = *c.rng.pick(&SUITES);
        let at = c.rng.below(6);
        let errno = *c.rng.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM]);
        let f = Faults { open: Some((at, errno)), ..Default::default() };
        let late = c.rng.one_in(4);
        let what = || format!("server {server}, auth {auth}, key log {log}, opening files fails with {errno} after {at}, late {late}");
        let went = connection(c, s, &x, &mut e, server, auth, suite, &f, late);
        let n = over(c, &mut e);
        if !judge(c, &went, &what) {
            return;
        }
        c.count("files that could not be opened", n);
        c.ev(format!("descriptors {server} {auth} {log} {suite:04x} {at} {late} {}", kind(&went)));
        let Some(l) = afterwards(c, s, &x, &mut e, server, auth, &what) else { return };
        written.extend(l);
    }
    if log {
        // whatever happened, what was written before is still there
        let got = std::fs::read_to_string(&path).unwrap_or_default().to_lowercase();
        let have: std::collections::HashSet<&str> = got.lines().collect();
        let gone: Vec<String> = written.iter().map(|l| l.to_lowercase()).filter(|l| !have.contains(l.as_str())).collect();
        c.check(gone.is_empty(), "a fault destroys what was in the key log", || format!("server {server}, auth {auth}: {gone:?} of {} lines", written.len()));
        c.count("lines still in the key log", (written.len() - gone.len()) as u64);
    }
    let _ = std::fs::remove_file(path);
}
const PLACES: [&str; 8] = ["missing directory", "a directory", "no file system space", "loop", "a name that is too long", "a file as directory", "directory removed", "write fails"];
/// The key log cannot be used
fn keylog(c: &mut Case, s: &Set) {
    let server = c.idx % 2 == 0;
    let place = PLACES[c.idx / 2 % PLACES.len()];
    let auth = c.rng.bool();
    let dir = Scratch::new();
    let mut f = Faults::default();
    let mut path = dir.path("log");
    match place {
        "missing directory" => path = dir.path("none/log"),
        "a directory" => std::fs::create_dir(&path).expect("mkdir"),
        "no file system space" => path = "/dev/full".into(),
        "loop" => std::os::unix::fs::symlink("log", &path).expect("symlink"),
        "a name that is too long" => path = dir.path(&"x".repeat(300)),
        "a file as directory" => {
            dir.file("f", b"x");
            path = dir.path("f/log");
        }
        "directory removed" => {
            std::fs::create_dir(dir.path("d")).expect("mkdir");
            path = dir.path("d/log");
        }
        _ => {}
    }
    let x = ends(s, auth, Some(&path));
    let mut e = Eut::new(Some(NOW));
    let prior = "# something else\n";
    if place == "directory removed" {
        connection(c, s, &x, &mut e, server, auth, SUITES[0], &f, false);
        over(c, &mut e);
        let _ = std::fs::remove_dir_all(dir.path("d"));
    }
    if place == "write fails" {
        std::fs::write(&path, prior).expect("write");
        f.write = Some((c.rng.below(900), *c.rng.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG])));
    }
    let suite = *c.rng.pick(&SUITES);
    let what = || format!("server {server}, auth {auth}, {suite:04x}, key log: {place}");
    let went = connection(c, s, &x, &mut e, server, auth, suite, &f, false);
    let n = over(c, &mut e);
    if !judge(c, &went, &what) {
        return;
    }
    if place == "write fails" {
        c.count("failing writes", n);
        let t = std::fs::read(&path).unwrap_or_default();
        c.check(t.starts_with(prior.as_bytes()), "a fault destroys what was in the key log", || format!("{}: {:?}", what(), String::from_utf8_lossy(&t)));
        if let Went::Well(sess) = &went {
            // nothing but what belongs there
            let all: String = lines(sess).join("\n");
            let got = String::from_utf8_lossy(&t[prior.len().min(t.len())..]).to_lowercase();
            let all = all.to_lowercase();
            c.check(got.lines().all(|l| all.contains(l)), "a fault writes something else to the key log", || format!("{}: {got:?}", what()));
        }
    }
    c.ev(format!("key log {place} {server} {auth} {suite:04x} {}", kind(&went)));
    c.count(&format!("key log: {place}"), 1);
    let log = dir.path("another");
    let y = ends(s, auth, Some(&log));
    if afterwards(c, s, &y, &mut e, server, auth, &what).is_none() {
        return;
    }
    if place == "write fails" {
        let _ = afterwards(c, s, &x, &mut e, server, auth, &what);
    }
    c.sample(place, || format!("{}: {}", what(), kind(&went)));
}
/// Reads and writes of files transfer less than asked for or are interrupted
fn pieces(c: &mut Case, s: &Set) {
    let server = c.idx % 2 == 0;
    let auth = c.rng.bool();
    let dir = Scratch::new();
    let path = dir.path("log");
    let x = ends(s, auth, Some(&path));
    let mut e = Eut::new(Some(NOW));
    let mut want: Vec<String> = vec![];
    for _ in 0..3 {
        let suite = *c.rng.pick(&SUITES);
        let f = Faults { short: Some(Rng::new(c.rng.u64())), ..Default::default() };
        let what = || format!("server {server}, auth {auth}, {suite:04x}, reads and writes of files in pieces");
        let went = connection(c, s, &x, &mut e, server, auth, suite, &f, false);
        let n = over(c, &mut e);
        let Went::Well(sess) = &went else {
            c.fail("a short transfer disturbs a connection", format!("{went:?}: {}", what()));
            return;
        };
        c.count("short transfers and interrupted calls", n);
        want.extend(lines(sess));
        want.sort();
        let mut got: Vec<String> = std::fs::read_to_string(&path).unwrap_or_default().lines().map(|l| l.split_once(' ').map_or(l.into(), |(a, b)| format!("{a} {}", b.to_lowercase()))).collect();
        got.sort();
        if got != want {
            return c.fail("short writes damage the key log", format!("{}: {got:?} instead of {want:?}", what()));
        }
        c.ev(format!("pieces {server} {auth} {suite:04x}"));
    }
}
/// The listener fails
fn listener(c: &mut Case, s: &Set) {
    let auth = c.rng.bool();
    let x = ends(s, auth, None);
    let mut e = Eut::new(Some(NOW));
    for _ in 0..c.rng.range(1, 6) {
        let errno = *c.rng.pick(&[libc::ECONNABORTED, libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EPROTO, libc::EPERM, libc::ETIMEDOUT, libc::EAGAIN, libc::EHOSTUNREACH, libc::EINTR]);
        e.renew(c);
        // of a signal there is one
        let times = if errno == libc::EINTR { 1 } else { *c.rng.pick(&[1, 1, 2, 1_000_000_000]) };
        e.faults(c, Faults { accept: Some((errno, times)), ..Default::default() });
        let what = || format!("accept fails {times} times with {errno}");
        e.accept(&x.srv);
        let mut st = e.wait(c);
        if st.blocked() {
            // tried again
            e.conn.eof();
            st = e.wait(c);
        }
        match st {
            Status::Done(Res::Err(_)) => {}
            st => return c.fail("a failing accept is not an error", format!("{st:?}: {}", what())),
        }
        over(c, &mut e);
        c.ev(format!("listener {errno}"));
        c.count("failing accepts", 1);
        if afterwards(c, s, &x, &mut e, true, auth, &what).is_none() {
            return;
        }
    }
}
/// The clock shows anything
fn clock(c: &mut Case, s: &Set) {
    let server = c.idx % 2 == 0;
    let k = c.rng.range(1, 62);
    let t = *c.rng.pick(&[0i64, -1, 1, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, 1 << 33, 253_402_300_799, 253_402_300_800, -62_135_596_800, -1 << k, 1 << k, NOW, NOW + YEAR / 2, i64::MIN / 4, i64::MAX / 4]);
    let x = ends(s, true, None);
    let mut e = Eut::new(Some(t));
    let suite = *c.rng.pick(&SUITES);
    let went = connection(c, s, &x, &mut e, server, true, suite, &Faults::default(), false);
    over(c, &mut e);
    let what = || format!("server {server}, {suite:04x}, the clock shows {t}");
    if !judge(c, &went, &what) {
        return;
    }
    let valid = (NOW - YEAR..=NOW + YEAR).contains(&t);
    c.check(matches!(went, Went::Well(_)) == valid, "the clock is not understood", || format!("{}: {}", what(), kind(&went)));
    c.ev(format!("clock {server} {t}"));
    c.count("clock readings", 1);
}

pub fn run(r: &Rep) {
    // what is said about key logs that cannot be written goes nowhere
    sim::SWALLOW.store(true, std::sync::atomic::Ordering::SeqCst);
    let s = Set { w: World::new(r.seed), seen: Seen(Mutex::new(HashMap::new())) };
    r.group("descriptors", r.n(160, 5000), |c| descriptors(c, &s));
    r.group("key log", 16 * r.n(12, 400), |c| keylog(c, &s));
    r.group("pieces", r.n(120, 4000), |c| pieces(c, &s));
    r.group("listener", r.n(60, 2000), |c| listener(c, &s));
    r.group("clock", r.n(300, 6000), |c| clock(c, &s));
    for p in PLACES {
        r.require(&format!("key log: {p}"), 8);
    }
    r.require("connections that work in spite of the fault", 100);
    r.require("connections after a fault", 300);
    r.require("short transfers and interrupted calls", 200);
    r.require("failing accepts", 50);
    r.require("lines still in the key log", 300);
    r.require("clock readings", 100);
    r.require("random values judged", 500);
}
