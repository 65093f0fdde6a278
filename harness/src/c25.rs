//! What an endpoint holds: memory, sockets, files
use crate::der::CertSpec;
use crate::eut::*;
use crate::ossl::EcKey;
use crate::rep::{Case, Rep};
use crate::robust;
use crate::sim::{Caps, Eut, Res, Status};
use crate::tls::{self, *};
use anothertls::net::alert::TlsError;
use anothertls::net::client::ClientConfig;
use anothertls::ServerConnection;
use std::sync::Arc;

pub const RULE: &str = "a case is either a series of connections of one thread (same role and fate, or mixed), of which after each the heap bytes not given back, the open files and the socket are looked at, or one long connection with the memory held and the work done in each of several hundred rounds; distinct = (workload, role, fate or operation, suite, configuration)";

pub struct Cfgs {
    pub w: World,
    pub srv: Vec<Arc<ServerConnection>>,
    pub cli: Vec<Arc<ClientConfig>>,
    foreign: (Vec<u8>, EcKey),
}
pub fn cfgs(seed: u64) -> Cfgs {
    let w = World::new(seed);
    let log = w.dir.path("keylog");
    let mut srv = vec![];
    let mut cli = vec![];
    for k in 0..4 {
        let mut b = w.server_builder();
        if k & 1 != 0 {
            b = b.add_client_cert_ca(w.ca_cert.clone());
        }
        let mut d = w.client_builder(k & 1 != 0);
        if k & 2 != 0 {
            b = b.set_keylog_path(log.clone());
            d = d.set_keylog_path(log.clone());
        }
        srv.push(crate::sim::server(b.build().expect("server config")));
        cli.push(Arc::new(d.build().expect("client config")));
    }
    let mut rng = crate::rng::Rng::new(seed ^ 0x6332_3520);
    let key = EcKey::random(&mut rng);
    let der = CertSpec::new("client.test", "Test CA", NOW - 1000, NOW + 1000, &key.public, &mut rng).sign(&w.other_ca.key);
    Cfgs { w, srv, cli, foreign: (der, key) }
}

pub const FATES: [&str; 17] = [
    "served", "reset", "abandoned", "bad record", "part of a message", "ended by the peer", "silence", "half of the hello", "garbage", "hello only", "refused hello", "alert", "bad Finished", "bad MAC", "send fails",
    "no certificate", "foreign certificate",
];

/// A connection in the thread of this endpoint, to its end
pub fn connection(c: &mut Case, s: &Cfgs, e: &mut Eut, server: bool, conf: usize, suite: u16, fate: &str) -> String {
    e.renew(c);
    let auth = conf & 1 != 0;
    let w = &s.w;
    let mut o = Opts::new(suite);
    o.client_auth = auth;
    o.recv = Caps::random(&mut c.rng);
    o.send = Caps::random(&mut c.rng);
    match fate {
        "served" | "reset" | "abandoned" | "bad record" | "part of a message" | "ended by the peer" => {
            let r = if server { link_server_on(c, w, &s.srv[conf], o, e) } else { link_client_on(c, w, &s.cli[conf], o, e) };
            let mut sess = match r {
                Ok(s) => s,
                Err(x) => return format!("no handshake: {}", x.chars().take(60).collect::<String>()),
            };
            established(c, e, &mut sess, server, fate)
        }
        _ => handshake(c, s, e, server, conf, o, fate),
    }
}
fn to_eut(s: &mut Session, server: bool) -> &mut Dir {
    if server {
        &mut s.c_ap
    } else {
        &mut s.s_ap
    }
}
fn end(c: &Case, e: &mut Eut) -> Status {
    let mut st = e.wait(c);
    if st.blocked() {
        e.conn.eof();
        st = e.wait(c);
    }
    st
}
fn established(c: &mut Case, e: &mut Eut, sess: &mut Session, server: bool, fate: &str) -> String {
    for _ in 0..c.rng.below(3) {
        let n = *c.rng.pick(&[0usize, 1, 100, 3000, 16384, 20000, 50000]);
        e.write(c.rng.bytes(n));
        e.wait(c);
        let n = c.rng.range(1, 16384);
        let d = c.rng.bytes(n);
        let r = to_eut(sess, server).seal(APP, &d, 0);
        e.conn.feed(&r);
        e.read(20000);
        e.wait(c);
    }
    let d = to_eut(sess, server);
    match fate {
        "served" => {
            e.alert(TlsError::CloseNotify);
            e.wait(c);
            let r = d.seal(ALERT, &[1, 0], 0);
            e.conn.feed(&r);
            e.read(100);
        }
        "reset" => {
            e.read(100);
            e.conn.rst();
        }
        "abandoned" => {
            for _ in 0..c.rng.range(1, 5) {
                let n = c.rng.range(100, 16000);
                let x = c.rng.bytes(n);
                let r = d.seal(APP, &x, 0);
                e.conn.feed(&r);
            }
            let mut r = d.seal(APP, &[7; 3000], 0);
            r.truncate(2000);
            e.conn.feed(&r);
            e.read(c.rng.range(1, 50));
        }
        "bad record" => {
            let mut r = d.seal(APP, b"12345678", 0);
            let k = r.len() - 1;
            r[k] ^= 1;
            e.conn.feed(&r);
            e.read(100);
        }
        "part of a message" => {
            let k = c.rng.range(1, 3000);
            let mut m = vec![4, 0, 0x20, 0];
            m.extend(c.rng.bytes(k));
            let r = d.seal(HS, &m, 0);
            e.conn.feed(&r);
            e.read(100);
        }
        _ => {
            let r = d.seal(ALERT, &[2, 80], 0);
            e.conn.feed(&r);
            e.read(100);
        }
    }
    format!("{:?}", end(c, e))
}
fn handshake(c: &mut Case, s: &Cfgs, e: &mut Eut, server: bool, conf: usize, o: Opts, fate: &str) -> String {
    let w = &s.w;
    if fate == "send fails" {
        let n = if server { c.rng.below(1200) } else { c.rng.below(180) };
        e.conn.fail_send_at(Some(n));
    }
    e.conn.set_caps(o.recv, o.send);
    let plain: Vec<u8>;
    let mut flight = vec![];
    let mut dir = None;
    if server {
        e.accept(&s.srv[conf]);
        let mut h = Hello::new(&mut c.rng);
        h.suites = if fate == "refused hello" { vec![0x1304, 0xc02b] } else { vec![o.suite] };
        let ch = h.msg();
        plain = record(HS, &ch);
        if !matches!(fate, "silence" | "half of the hello" | "garbage" | "refused hello" | "alert") {
            e.conn.feed(&plain);
            let st = e.wait(c);
            if fate != "hello only" && st.blocked() {
                if let Ok(mut se) = tls::client_process(&e.conn.take(), &h, &ch) {
                    let own = (w.client.der.clone(), &w.client.key);
                    let foreign = (s.foreign.0.clone(), &s.foreign.1);
                    let a = match fate {
                        "no certificate" => ClientAuth { chain: vec![], key: None },
                        "foreign certificate" => ClientAuth { chain: vec![(foreign.0, vec![])], key: Some(foreign.1) },
                        _ => ClientAuth { chain: vec![(own.0, vec![])], key: Some(own.1) },
                    };
                    flight = se.client_flight(se.cert_request.is_some().then_some(&a), &mut no_edit);
                    dir = Some(se.c_hs.clone());
                }
            }
        }
    } else {
        let cfg = &s.cli[conf];
        let started = start_client_on(c, cfg, Caps::All, Caps::All, e);
        let (info, raw) = match started {
            Ok(x) => x,
            Err(_) => return format!("{:?}", end(c, e)),
        };
        let mut sp = ServerSpec::new(o.suite, &w.server, &mut c.rng);
        if fate == "foreign certificate" {
            // of another key
            sp.key = &s.foreign.1;
        }
        if conf & 1 != 0 {
            sp.request = Some(vec![]);
        }
        let Ok((se, p, mut prot)) = tls::server_flight(&sp, &info, &raw, &mut no_edit) else { return "no flight".into() };
        if fate == "no certificate" && prot.len() > 3 {
            let k = prot.len() - 3;
            prot.remove(k);
        }
        let mut m = p.concat();
        if fate == "refused hello" {
            // another suite than any offered
            let at = 4 + 2 + 32 + 1 + m[38] as usize;
            m[at + 1] = 4;
        }
        plain = record(HS, &m);
        if !matches!(fate, "silence" | "half of the hello" | "garbage" | "refused hello" | "alert") {
            e.conn.feed(&plain);
            if fate != "hello only" {
                flight = prot;
                dir = Some(se.s_hs.clone());
            }
        }
    }
    match fate {
        "half of the hello" => {
            let k = c.rng.range(1, plain.len() - 1);
            e.conn.feed(&plain[..k]);
        }
        "garbage" => {
            let n = c.rng.range(1, 3000);
            let b = c.rng.bytes(n);
            e.conn.feed(&b);
        }
        "refused hello" => e.conn.feed(&plain),
        "alert" => e.conn.feed(&record(ALERT, &[2, 40])),
        "bad Finished" => {
            if let Some(x) = flight.last_mut().and_then(|m| m.last_mut()) {
                *x ^= 1;
            }
        }
        _ => {}
    }
    if let Some(mut d) = dir {
        let mut recs = protect(&mut d, &flight, o.framing, 0, &mut c.rng);
        if fate == "bad MAC" {
            let k = c.rng.below(recs.len());
            let n = recs[k].len();
            recs[k][n - 1] ^= 1;
        }
        for r in recs {
            e.conn.feed(&r);
        }
    }
    format!("{:?}", end(c, e))
}

struct Held {
    live: Vec<i64>,
    opened: Vec<u64>,
}
/// How often more is held than ever before
fn maxima<T: PartialOrd + Copy>(v: &[T], from: usize) -> usize {
    let mut n = 0;
    let mut m = v[0];
    for (i, x) in v.iter().enumerate() {
        if *x > m {
            m = *x;
            n += (i >= from) as usize;
        }
    }
    n
}
impl Held {
    fn after(&mut self, c: &mut Case, e: &mut Eut, what: &dyn Fn() -> String) -> bool {
        e.drop_stream();
        e.wait(c);
        self.live.push(e.live());
        self.opened.push(e.opened());
        c.count("connections over", 1);
        c.check(e.conn.is_closed(), "the socket stays open when the connection is over", || format!("connection {}: {}", self.live.len(), what()));
        e.conn.is_closed()
    }
    fn judge(&self, c: &mut Case, from: usize, limit: usize, what: &dyn Fn() -> String) {
        let n = maxima(&self.live, from);
        if n >= limit {
            c.fail("memory of ended connections is not given back", format!("{n} of the last {} connections left more than any before, at last {} bytes after {} in the beginning: {}", self.live.len() - from, self.live.last().unwrap(), self.live[from - 1], what()));
        }
        let n = maxima(&self.opened, from);
        if n >= limit {
            c.fail("files of ended connections stay open", format!("{n} of the last {} connections, at last {} files: {}", self.live.len() - from, self.opened.last().unwrap(), what()));
        }
    }
}
/// One after the other in one thread, all with the same fate
fn series(c: &mut Case, s: &Cfgs) {
    let fate = FATES[c.idx % FATES.len()];
    let server = c.idx / FATES.len() % 2 == 0;
    let mut conf = c.rng.below(4);
    if server && matches!(fate, "no certificate" | "foreign certificate") {
        conf |= 1;
    }
    let suite = *c.rng.pick(&SUITES);
    let mut e = Eut::new(Some(NOW));
    let mut h = Held { live: vec![], opened: vec![] };
    let mut last = String::new();
    for _ in 0..18 {
        last = connection(c, s, &mut e, server, conf, suite, fate);
        if last.contains("Panic") {
            return c.inconclusive("panic (C13 and C14 judge that)");
        }
        if !h.after(c, &mut e, &|| format!("server {server}, configuration {conf}, {suite:04x}, {fate}: {last}")) {
            return;
        }
    }
    let what = || format!("server {server}, configuration {conf}, {suite:04x}, {fate} ({last})");
    h.judge(c, 12, 4, &what);
    let outcome: String = last.chars().take_while(|x| x.is_ascii_alphabetic() || "( ".contains(*x)).collect();
    c.ev(format!("series {server} {conf} {suite:04x} {fate} {outcome}"));
    c.count(&format!("connections: {fate}"), 18);
    c.sample(fate, || format!("{}: {} bytes and {} files held after the first, {} and {} after the last", what(), h.live[0], h.opened[0], h.live[17], h.opened[17]));
}
/// Many, with any fate
fn mixed(c: &mut Case, s: &Cfgs) {
    let server = c.rng.bool();
    let mut e = Eut::new(Some(NOW));
    let mut h = Held { live: vec![], opened: vec![] };
    for _ in 0..250 {
        let fate = *c.rng.pick(&FATES);
        let (conf, suite) = (c.rng.below(4), *c.rng.pick(&SUITES));
        let last = connection(c, s, &mut e, server, conf, suite, fate);
        if last.contains("Panic") {
            return c.inconclusive("panic (C13 and C14 judge that)");
        }
        if !h.after(c, &mut e, &|| format!("server {server}, configuration {conf}, {suite:04x}, {fate}: {last}")) {
            return;
        }
    }
    h.judge(c, 100, 10, &|| format!("server {server}, any fate"));
    c.ev(format!("mixed {server}"));
    c.count("connections in mixed series", 250);
}

/// What is held after an eighth, a quarter, half of them and all
fn growth(v: &[i64]) -> Option<Vec<i64>> {
    let n = v.len();
    // the lowest of a few, as what is held may go up and down
    let at = |k: usize| *v[k - (n / 50).max(1)..k].iter().min().unwrap();
    let p: Vec<i64> = [n / 8, n / 4, n / 2, n].iter().map(|k| at(*k)).collect();
    let grows = p.windows(2).all(|w| w[1] > w[0]) && p[3] - p[0] >= n as i64;
    grows.then_some(p)
}
/// `vh march <seed> <fate> <role> <n> <file>`: connections one after the other, in a process of their own
pub fn child(seed: u64, fate: &str, server: bool, n: usize, out: &str) -> i32 {
    let rep = Rep::new("C25", "quick", seed, std::time::Duration::from_secs(800), None, None);
    crate::sim::SWALLOW.store(true, std::sync::atomic::Ordering::SeqCst);
    let s = cfgs(seed);
    let t = std::sync::Mutex::new(vec![]);
    rep.group_t("child", 1, 1, |c| {
        c.rng = crate::rng::Rng::new(seed);
        let fate = FATES.iter().find(|f| **f == fate).expect("fate");
        let suite = *c.rng.pick(&SUITES);
        let conf = c.rng.below(4) | matches!(*fate, "no certificate" | "foreign certificate") as usize;
        let mut e = Eut::new(Some(NOW));
        for _ in 0..n {
            let last = connection(c, &s, &mut e, server, conf, suite, fate);
            e.drop_stream();
            e.wait(c);
            let open = std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count());
            let l = format!("{} {} {open} {} {last}", e.live(), e.opened(), e.conn.is_closed());
            let l = l.replace('\n', " ");
            t.lock().unwrap().push(l);
        }
    });
    let t = t.into_inner().unwrap();
    std::fs::write(out, t.join("\n")).map_or(2, |_| 0)
}
const MARCHES: [(&str, bool); 16] = [
    ("garbage", true), ("silence", true), ("hello only", true), ("half of the hello", true), ("refused hello", true), ("alert", true), ("served", true), ("bad MAC", true),
    ("garbage", false), ("silence", false), ("refused hello", false), ("served", false), ("foreign certificate", true), ("bad Finished", false), ("reset", true), ("send fails", true),
];
/// Thousands of connections with the same fate in one process
fn march(c: &mut Case, dir: &Scratch) {
    let (fate, server) = MARCHES[c.idx % MARCHES.len()];
    let cheap = matches!(fate, "garbage" | "silence" | "half of the hello" | "refused hello" | "alert") && server;
    let n = if cheap { c.rep.n(4000, 40_000) } else { c.rep.n(400, 4000) };
    let file = dir.path(&format!("march-{}", c.idx));
    let seed = c.rng.u64();
    let ran = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(["march", &seed.to_string(), fate, if server { "server" } else { "client" }, &n.to_string(), &file])
        .stdout(std::process::Stdio::null())
        .status()
        .expect("child");
    let t = std::fs::read_to_string(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    if !ran.success() || t.is_empty() {
        return c.inconclusive("a process with connections failed");
    }
    let rows: Vec<Vec<&str>> = t.lines().map(|l| l.splitn(5, ' ').collect()).collect();
    let column = |k: usize| rows.iter().map(|r| r[k].parse().unwrap_or(0)).collect::<Vec<i64>>();
    let what = || format!("server {server}, {fate}, {} connections", rows.len());
    if let Some(p) = growth(&column(0)) {
        c.fail("memory of ended connections is not given back", format!("{p:?} bytes held after an eighth, a quarter, half of them and all: {}", what()));
    }
    for (k, name) in [(1, "files of ended connections stay open"), (2, "descriptors of ended connections stay open")] {
        let v = column(k);
        let p: Vec<i64> = [8, 4, 2, 1].iter().map(|x| v[v.len() / x - 1]).collect();
        c.check(p.windows(2).any(|w| w[1] <= w[0]), name, || format!("{p:?} after an eighth, a quarter, half of them and all: {}", what()));
    }
    if let Some(r) = rows.iter().position(|r| r[3] != "true") {
        c.fail("the socket stays open when the connection is over", format!("connection {r}: {}: {}", rows[r][4], what()));
    }
    c.count("connections of marches", rows.len() as u64);
    c.ev(format!("march {server} {fate} {n}"));
    c.sample("march", || format!("{}: {} bytes and {} descriptors after the first, {} and {} after the last", what(), rows[0][0], rows[0][2], rows[rows.len() - 1][0], rows[rows.len() - 1][2]));
}
/// Hostile input of any kind: nothing stays open
fn hostile(c: &mut Case, s: &robust::Set, a: &mut robust::At, kind: &str, detail: &dyn Fn() -> String) {
    a.e.drop_stream();
    a.e.wait(c);
    let what = || format!("server {}, {:?}, {kind}: {}", s.server, a.stage, detail());
    c.check(a.e.conn.is_closed(), "the socket stays open when the connection is over", what);
    c.check(a.e.opened() == 0, "files of ended connections stay open", || format!("{}: {}", a.e.opened(), what()));
    c.count("hostile connections over", 1);
}

const OPS: [&str; 13] = ["write", "write large", "write nothing", "read", "read in pieces", "read large", "empty records", "tickets", "pieces of tickets", "timeouts", "both", "alternate", "read, never all"];
/// One connection, hundreds of rounds of the same
fn stream(c: &mut Case, s: &Cfgs) {
    let op = OPS[c.idx % OPS.len()];
    let server = c.idx / OPS.len() % 2 == 0 && !op.contains("ticket");
    let suite = SUITES[c.rng.below(3)];
    let mut o = Opts::new(suite);
    o.recv = if c.rng.bool() { Caps::All } else { Caps::Random(crate::rng::Rng::new(c.rng.u64()), 5000) };
    o.send = if c.rng.bool() { Caps::All } else { Caps::Random(crate::rng::Rng::new(c.rng.u64()), 5000) };
    let conf = c.rng.below(2) * 2;
    let mut e = Eut::new(Some(NOW));
    let r = if server { link_server_on(c, &s.w, &s.srv[conf], o, &mut e) } else { link_client_on(c, &s.w, &s.cli[conf], o, &mut e) };
    let mut sess = match r {
        Ok(s) => s,
        Err(_) => return c.inconclusive("no handshake"),
    };
    let rounds = if c.thorough() { 1500 } else { 240 };
    let warm = rounds / 4;
    let mut live = vec![];
    let mut work = vec![];
    let mut largest = 0;
    for i in 0..rounds {
        let before = e.cpu_us();
        let d = to_eut(&mut sess, server);
        let mut want = 0;
        let size = match op {
            "write large" | "read large" => 16384,
            _ => 100 + i % 7,
        };
        if op.starts_with("write") || op == "both" || (op == "alternate" && i % 2 == 0) {
            let n = if op == "write nothing" { 0 } else if op == "write large" { 40_000 } else { size };
            e.write(vec![i as u8; n]);
            if !matches!(e.wait(c), Status::Done(Res::Ok(_))) {
                return c.inconclusive("a write failed");
            }
            e.conn.take();
        }
        if op.starts_with("read") || op == "both" || op == "timeouts" || (op == "alternate" && i % 2 == 1) {
            let r = d.seal(APP, &vec![i as u8; size], if size < 1000 { i % 5 } else { 0 });
            e.conn.feed(&r);
            want = if op == "read, never all" && i == 0 { size - 7 } else { size };
        }
        match op {
            "empty records" => {
                for _ in 0..3 {
                    let r = d.seal(APP, &[], 0);
                    e.conn.feed(&r);
                }
            }
            "tickets" | "pieces of tickets" => {
                let t = [[i as u8; 8].to_vec(), vec![1, 7], vec![1, 44], vec![i as u8; 300], vec![0, 0]].concat();
                let mut m = vec![4, 0, (t.len() >> 8) as u8, t.len() as u8];
                m.extend(t);
                if op == "tickets" {
                    let r = d.seal(HS, &m, 0);
                    e.conn.feed(&r);
                } else {
                    for p in m.chunks(100) {
                        let r = d.seal(HS, p, 0);
                        e.conn.feed(&r);
                    }
                }
            }
            _ => {}
        }
        if op.contains("ticket") || op == "empty records" {
            // so that the round has an end
            let r = d.seal(APP, &[1; 10], 0);
            e.conn.feed(&r);
            want = 10;
        }
        if op == "timeouts" {
            e.conn.recv_faults(Some((crate::rng::Rng::new(c.rng.u64()), 2)));
        }
        let mut got = 0;
        let mut calls = 0;
        while got < want {
            e.read(match op {
                "read in pieces" => 13,
                "read, never all" => want - got,
                _ => 20_000,
            });
            calls += 1;
            match e.wait(c) {
                Status::Done(Res::Ok(x)) => got += x.len(),
                Status::Done(Res::Err(_)) if op == "timeouts" && calls < 1000 => {}
                _ => return c.inconclusive("a read failed"),
            }
        }
        e.conn.recv_faults(None);
        live.push(e.live());
        work.push(e.cpu_us() - before);
        largest = largest.max(size as i64);
    }
    let what = || format!("server {server}, {suite:04x}, {rounds} rounds of \"{op}\"");
    let n = maxima(&live, warm);
    if n >= rounds / 8 {
        c.fail("memory grows with the records of a connection", format!("{n} times more than before, {} bytes after {warm} rounds, {} at last: {}", live[warm], live.last().unwrap(), what()));
    }
    if let Some(p) = growth(&live) {
        c.fail("memory grows with the records of a connection", format!("{p:?} bytes held after an eighth, a quarter, half of them and all: {}", what()));
    }
    c.check(*live.last().unwrap() < 1 << 20, "a connection at rest holds much memory", || format!("{} bytes: {}", live.last().unwrap(), what()));
    // the work of a round does not grow with the age of the connection
    let q = rounds / 6;
    let first = work[q..2 * q].iter().sum::<u64>();
    let late = work[rounds - q..].iter().sum::<u64>();
    if late > 8 * first + 60_000 {
        c.fail("the work for a record grows with the age of the connection", format!("{late} us of CPU time for the last {q} rounds, {first} us for as many in the beginning: {}", what()));
    }
    e.drop_stream();
    e.wait(c);
    c.check(e.conn.is_closed(), "the socket stays open when the connection is over", what);
    c.count("rounds on long connections", rounds as u64);
    c.ev(format!("stream {server} {suite:04x} {op} {conf}"));
    c.sample(op, || format!("{}: {} bytes held after {warm} rounds, {} at last; {first} and {late} us for {q} rounds", what(), live[warm], live.last().unwrap()));
}
/// The peer sends much more than the application wants to read
fn ahead(c: &mut Case, s: &Cfgs) {
    let server = c.rng.bool();
    let suite = *c.rng.pick(&SUITES);
    let mut e = Eut::new(Some(NOW));
    let o = Opts::new(suite);
    let r = if server { link_server_on(c, &s.w, &s.srv[0], o, &mut e) } else { link_client_on(c, &s.w, &s.cli[0], o, &mut e) };
    let mut sess = match r {
        Ok(s) => s,
        Err(_) => return c.inconclusive("no handshake"),
    };
    let size = *c.rng.pick(&[1usize, 100, 5000, 16384]);
    let n = if size < 1000 { 3000 } else { 4_000_000 / size };
    let mut all = vec![];
    for _ in 0..n {
        all.extend(to_eut(&mut sess, server).seal(APP, &vec![3; size], 0));
    }
    let total = all.len();
    e.conn.feed(&all);
    let before = e.live();
    let mut most = 0;
    for _ in 0..40 {
        e.read(c.rng.range(1, 200));
        if !matches!(e.wait(c), Status::Done(Res::Ok(_))) {
            return c.inconclusive("a read failed");
        }
        most = most.max(e.live() - before);
    }
    let what = || format!("server {server}, {suite:04x}: {total} bytes in records of {size} wait, 40 small reads");
    c.check(most < 400_000, "more is read ahead than records need", || format!("{most} bytes held: {}", what()));
    c.count("bytes not read ahead", e.conn.unread() as u64);
    c.ev(format!("ahead {server} {suite:04x} {size}"));
    c.sample("ahead", || format!("{}: at most {most} bytes held", what()));
}

/// In whatever the other checks do, nothing is left behind by a connection that is over
fn nothing_held(c: &mut Case, s: &crate::rep::Seen) {
    if !(s.server || s.client) || !s.panics.is_empty() {
        return;
    }
    c.check(s.closed, "the socket stays open when the connection is over", || format!("{s:?}"));
    c.check(s.opened == 0, "files of ended connections stay open", || format!("{s:?}"));
    c.check(s.live < 4096, "memory of ended connections is not given back", || format!("{s:?}"));
    c.count("connections of other checks over", 1);
}

pub fn run(r: &Rep) {
    let s = cfgs(r.seed);
    r.group("series", 34 * r.n(6, 80), |c| series(c, &s));
    r.group("mixed", r.n(12, 160), |c| mixed(c, &s));
    r.group("stream", 26 * r.n(3, 40), |c| stream(c, &s));
    let dir = Scratch::new();
    r.group("march", 16 * r.n(1, 4), |c| march(c, &dir));
    for server in [false, true] {
        robust::watch(r, &robust::watched(r.seed, server, hostile));
    }
    r.group("ahead", r.n(40, 400), |c| ahead(c, &s));
    #[cfg(feature = "c01")]
    r.watch("C01", 4, nothing_held, crate::c01::run);
    #[cfg(feature = "c08")]
    r.watch("C08", 4, nothing_held, crate::c08::run);
    #[cfg(feature = "c09")]
    r.watch("C09", 4, nothing_held, crate::c09::run);
    #[cfg(feature = "c10")]
    r.watch("C10", 4, nothing_held, crate::c10::run);
    #[cfg(feature = "c11")]
    r.watch("C11", 4, nothing_held, crate::c11::run);
    #[cfg(feature = "c12")]
    r.watch("C12", 5, nothing_held, crate::c12::run);
    #[cfg(feature = "c19")]
    r.watch("C19", 5, nothing_held, crate::c19::run);
    #[cfg(feature = "c20")]
    r.watch("C20", 5, nothing_held, crate::c20::run);
    for f in FATES {
        r.require(&format!("connections: {f}"), 100);
    }
    r.require("connections over", 5_000);
    r.require("connections of marches", 20_000);
    r.require("hostile connections over", 5_000);
    r.require("rounds on long connections", 10_000);
    r.require("bytes not read ahead", 1_000_000);
}
