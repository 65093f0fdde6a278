//! Real threads and loopback sockets: endpoints under test against each other, among malicious
//! peers. Built with a sanitizer. Everything observed goes to an event log, which is judged
//! afterwards (by the C17 monitor); the sanitizer writes its own reports.
//!
//! usage: vt <directory with certificates, for the logs too> <seed> <connections> <rounds> <rounds of computations>
#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;
mod calc;

use anothertls::net::alert::TlsError;
use anothertls::net::client::ClientConfig;
use anothertls::net::stream::TlsStream;
use anothertls::rand::PRNG;
use anothertls::utils::x509::X509;
use anothertls::{ClientConfigBuilder, ClientConnection, ServerConfigBuilder, ServerConnection};
use rng::Rng;
use std::io::Write;
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// The event log. Each thread has a part of its own and the numbers are relaxed, so that the log
/// orders nothing and hides no race
pub struct Log {
    n: AtomicUsize,
    parts: Mutex<Vec<Part>>,
}
type Part = Arc<Mutex<Vec<(usize, String)>>>;
thread_local! {
    static PART: std::cell::RefCell<Option<Part>> = const { std::cell::RefCell::new(None) };
}
impl Log {
    pub fn ev(&self, s: String) {
        PART.with(|p| {
            let mut p = p.borrow_mut();
            let p = p.get_or_insert_with(|| {
                let x = Part::default();
                self.parts.lock().unwrap().push(x.clone());
                x
            });
            let n = self.n.fetch_add(1, Relaxed);
            p.lock().unwrap().push((n, s));
        })
    }
    fn write(&self, path: &str) {
        let mut all: Vec<(usize, String)> = self.parts.lock().unwrap().iter().flat_map(|p| p.lock().unwrap().clone()).collect();
        all.sort();
        let t: String = all.iter().map(|(n, s)| format!("{n} {s}\n")).collect();
        std::fs::write(path, t).expect("event log");
    }
}
/// A connection from an address of its own: 127.1.x.y. (Ports are used again.)
fn connect(to: std::net::SocketAddr) -> (TcpStream, u16) {
    use std::os::fd::FromRawFd;
    extern "C" {
        fn socket(domain: i32, typ: i32, protocol: i32) -> i32;
        fn bind(fd: i32, addr: *const u8, len: u32) -> i32;
        fn connect(fd: i32, addr: *const u8, len: u32) -> i32;
    }
    static N: AtomicU32 = AtomicU32::new(1);
    let n = u16::try_from(N.fetch_add(1, Relaxed)).expect("connections");
    let addr = |ip: [u8; 4], port: u16| {
        let mut a = [0u8; 16];
        a[..2].copy_from_slice(&2u16.to_ne_bytes());
        a[2..4].copy_from_slice(&port.to_be_bytes());
        a[4..8].copy_from_slice(&ip);
        a
    };
    let [h, l] = n.to_be_bytes();
    let (from, to) = (addr([127, 1, h, l], 0), addr([127, 0, 0, 1], to.port()));
    unsafe {
        let fd = socket(2, 1 | 0o2000000, 0);
        assert!(fd >= 0, "socket");
        let t = TcpStream::from_raw_fd(fd);
        assert_eq!(bind(fd, from.as_ptr(), 16), 0, "bind");
        assert_eq!(connect(fd, to.as_ptr(), 16), 0, "connect: {}", std::io::Error::last_os_error());
        (t, n)
    }
}
/// The number in the address of a client
fn number(a: &std::net::SocketAddr) -> u16 {
    match a.ip() {
        std::net::IpAddr::V4(a) => u16::from_be_bytes([a.octets()[2], a.octets()[3]]),
        _ => 0,
    }
}
/// How many steps of a server's connection (server, number of the client) do not wait for the client
static READY: [[AtomicU32; 65536]; 3] = [const { [const { AtomicU32::new(0) }; 65536] }; 3];
fn ready(s: usize, port: u16, n: u32) {
    READY[s][port as usize].fetch_add(n, Relaxed);
}

/// Bytes of a connection in one direction: everybody can tell what they have to be
struct Gen(Rng);
impl Gen {
    fn new(id: u64, server: bool) -> Gen {
        Gen(Rng::new(id.wrapping_mul(2).wrapping_add(server as u64) ^ 0x5eed))
    }
    fn next(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.0.u8()).collect()
    }
}
fn read_exact(s: &mut TlsStream, n: usize) -> Result<Vec<u8>, TlsError> {
    let mut o = vec![0; n];
    let mut at = 0;
    while at < n {
        let k = s.tls_read(&mut o[at..])?;
        at += k;
    }
    Ok(o)
}

/// A connection accepted by a server, wherever it is
struct Served {
    s: TlsStream,
    server: usize,
    port: u16,
    id: Option<u64>,
    rx: Gen,
    tx: Gen,
    chunks: u32,
}
impl Served {
    fn new(s: TlsStream, server: usize, port: u16) -> Served {
        Served { s, server, port, id: None, rx: Gen::new(0, false), tx: Gen::new(0, true), chunks: 0 }
    }
    /// One request and its answer. true: the connection is over
    fn step(&mut self, log: &Log) -> bool {
        match self.exchange() {
            Ok(true) => return false,
            Ok(false) => log.ev(format!("srv {}/{} end", self.server, self.port)),
            Err((what, e)) => log.ev(format!("srv {}/{} fail {what} {e:?}", self.server, self.port)),
        }
        true
    }
    fn exchange(&mut self) -> Result<bool, (String, TlsError)> {
        if self.id.is_none() {
            let h = read_exact(&mut self.s, 8).map_err(|e| ("id".to_string(), e))?;
            let id = u64::from_be_bytes(h.try_into().unwrap());
            self.id = Some(id);
            self.rx = Gen::new(id, false);
            self.tx = Gen::new(id, true);
        }
        // request: length of it and of the answer
        let h = match read_exact(&mut self.s, 8) {
            Ok(h) => h,
            Err(TlsError::CloseNotify) => return Ok(false),
            Err(e) => return Err((format!("id={} chunks={} request", self.id.unwrap(), self.chunks), e)),
        };
        let n = u32::from_be_bytes(h[..4].try_into().unwrap()) as usize;
        let m = u32::from_be_bytes(h[4..].try_into().unwrap()) as usize;
        if n > 1 << 20 || m > 1 << 20 {
            return Err((format!("id={} chunks={} WRONG length {n} {m}", self.id.unwrap(), self.chunks), TlsError::InternalError));
        }
        let d = read_exact(&mut self.s, n).map_err(|e| (format!("id={} chunks={} data", self.id.unwrap(), self.chunks), e))?;
        if d != self.rx.next(n) {
            return Err((format!("id={} chunks={} WRONG data", self.id.unwrap(), self.chunks), TlsError::InternalError));
        }
        let a = self.tx.next(m);
        self.s.tls_write(&a).map_err(|e| (format!("id={} chunks={} answer", self.id.unwrap(), self.chunks), e))?;
        self.chunks += 1;
        Ok(true)
    }
}

/// The client's end
struct Used {
    s: TlsStream,
    id: u64,
    server: usize,
    port: u16,
    rx: Gen,
    tx: Gen,
    chunks: u32,
    bytes: usize,
    pending: usize,
}
impl Used {
    fn new(mut s: TlsStream, id: u64, server: usize, port: u16) -> Result<Used, TlsError> {
        s.tls_write(&id.to_be_bytes())?;
        Ok(Used { s, id, server, port, rx: Gen::new(id, true), tx: Gen::new(id, false), chunks: 0, bytes: 0, pending: 0 })
    }
    fn ask(&mut self, r: &mut Rng) -> Result<(), TlsError> {
        let n = *r.pick(&[0usize, 1, 100, 1000, 5000, 16384, 20000]);
        self.pending = *r.pick(&[1usize, 10, 1000, 5000, 16384, 20000]);
        let mut h = (n as u32).to_be_bytes().to_vec();
        h.extend((self.pending as u32).to_be_bytes());
        let d = self.tx.next(n);
        if r.bool() {
            h.extend(d);
            self.s.tls_write(&h)?;
        } else {
            self.s.tls_write(&h)?;
            self.s.tls_write(&d)?;
        }
        self.bytes += n;
        ready(self.server, self.port, 1);
        Ok(())
    }
    fn answer(&mut self) -> Result<bool, TlsError> {
        let d = read_exact(&mut self.s, self.pending)?;
        self.bytes += d.len();
        self.chunks += 1;
        Ok(d == self.rx.next(self.pending))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Good,
    /// bytes which are no TLS
    Garbage,
    /// the beginning of a ClientHello
    Half,
    /// nothing is sent until all others are done
    Silent,
    /// no client certificate where there has to be one
    NoCert,
    /// certificate of another CA
    WrongCa,
    /// refused by the verify function
    Refused,
    /// after the handshake something else than records is sent
    Inject,
    /// after the handshake the connection breaks
    Break,
}
use Kind::*;

fn verify(x: &X509) -> bool {
    x.tbs_certificate.subject.get("commonName").is_ok_and(|n| n == "client.test")
}

struct Server {
    auth: bool,
    verify: bool,
    conn: ServerConnection,
    addr: std::net::SocketAddr,
}
struct Shared {
    log: Arc<Log>,
    servers: Vec<Arc<Server>>,
    plain: Arc<ClientConfig>,
    good: Arc<ClientConfig>,
    wrong: Arc<ClientConfig>,
    refused: Arc<ClientConfig>,
    hello: Vec<u8>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let conns: usize = a[3].parse().unwrap();
    let rounds: usize = a[4].parse().unwrap();
    let log = Arc::new(Log { n: AtomicUsize::new(0), parts: Mutex::new(vec![]) });
    // a run without progress is reported, not waited for
    let done = Arc::new(AtomicBool::new(false));
    {
        let (log, done, dir) = (log.clone(), done.clone(), dir.clone());
        std::thread::spawn(move || {
            let mut last = (0, 0);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let n = log.n.load(Relaxed);
                last = if n == last.0 { (n, last.1 + 1) } else { (n, 0) };
                if last.1 > 2 * 75 && !done.load(SeqCst) {
                    log.ev("stuck".into());
                    log.write(&format!("{dir}/events"));
                    std::process::exit(3);
                }
            }
        });
    }
    let mut r = Rng::new(seed);
    let calc_rounds = a[5].parse().unwrap();
    calc::run(&log, &mut r, &dir, calc_rounds);
    for round in 0..rounds {
        one_round(&dir, &log, &mut r, round, conns);
    }
    done.store(true, SeqCst);
    log.ev("done".into());
    log.write(&format!("{dir}/events"));
}

fn one_round(dir: &str, log: &Arc<Log>, r: &mut Rng, round: usize, conns: usize) {
    for p in READY.iter().flatten() {
        p.store(0, Relaxed);
    }
    let f = |n: &str| format!("{dir}/{n}");
    let keylog = f("keylog");
    let mut servers = vec![];
    for i in 0..3 {
        let mut b = ServerConfigBuilder::new().add_cert_pem(f("server.cert")).add_privkey_pem(f("server.key")).set_keylog_path(keylog.clone());
        if i > 0 {
            b = b.add_client_cert_ca(f("ca.cert"));
        }
        if i > 1 {
            b = b.set_client_cert_custom_verify_fn(verify);
        }
        if r.one_in(4) {
            b = b.set_prng(PRNG::Simple);
        }
        let l = TcpListener::bind("127.0.0.1:0").expect("listen");
        let addr = l.local_addr().unwrap();
        servers.push(Arc::new(Server { auth: i > 0, verify: i > 1, conn: ServerConnection::new(l, b.build().expect("config")), addr }));
    }
    let client = |cert: &str| {
        let mut b = ClientConfigBuilder::new().set_server_name("server.test".into()).set_keylog_path(keylog.clone());
        if !cert.is_empty() {
            b = b.add_client_cert_pem(f(&format!("{cert}.cert"))).add_client_key_pem(f(&format!("{cert}.key")));
        }
        Arc::new(b.build().unwrap())
    };
    let sh = Arc::new(Shared {
        log: log.clone(),
        servers,
        plain: client(""),
        good: client("client"),
        wrong: client("wrong"),
        refused: client("refused"),
        hello: std::fs::read(f("hello.bin")).expect("hello"),
    });
    // what will happen
    let mut plan: Vec<(u64, usize, Kind)> = vec![];
    let bad_share = *r.pick(&[0usize, 20, 50]);
    for _ in 0..conns {
        let s = r.below(3);
        let mut k = Good;
        if r.below(100) < bad_share {
            k = *r.pick(&[Garbage, Half, Silent, NoCert, WrongCa, Refused, Inject, Break]);
            if (s == 0 && matches!(k, NoCert | WrongCa | Refused)) || (s == 1 && k == Refused) {
                k = Inject;
            }
        }
        // at most a few which keep a thread of the server
        if k == Silent && plan.iter().filter(|p| p.2 == Silent).count() >= 4 {
            k = Garbage;
        }
        plan.push((r.u64(), s, k));
    }
    log.ev(format!("round {round} bad={bad_share}"));
    for (id, s, k) in &plan {
        log.ev(format!("plan {id} server={s} {k:?}"));
    }
    // servers: each accepts as many as there will be
    let mut threads = vec![];
    let serving: Arc<Mutex<Vec<std::thread::JoinHandle<()>>>> = Default::default();
    let mux = *r.pick(&[0usize, 1, 3]);
    let (mut txs, mut rxs) = (vec![], vec![]);
    for _ in 0..mux {
        let (t, x) = channel::<Served>();
        txs.push(t);
        rxs.push(x);
    }
    for (i, s) in sh.servers.iter().enumerate() {
        let n = plan.iter().filter(|p| p.1 == i).count();
        let left = Arc::new(AtomicUsize::new(n));
        for t in 0..r.range(2, 4) + plan.iter().filter(|p| p.1 == i && p.2 == Silent).count() {
            let (s, left, sh) = (s.clone(), left.clone(), sh.clone());
            let tx = txs.clone();
            let serving = serving.clone();
            let mut rg = Rng::new(r.u64());
            threads.push(std::thread::spawn(move || {
                anothertls::log::init();
                while left.fetch_update(SeqCst, SeqCst, |n| n.checked_sub(1)).is_ok() {
                    accept(&sh, i, &s, &mut rg, &tx, &serving);
                }
                let _ = t;
            }));
        }
    }
    drop(txs);
    for x in rxs {
        let log = log.clone();
        let mut rg = Rng::new(r.u64());
        threads.push(std::thread::spawn(move || serve_many(&log, x, &mut rg)));
    }
    // clients
    let silent_done = Arc::new(AtomicBool::new(false));
    let mut silent = vec![];
    let (quiet, others): (Vec<_>, Vec<_>) = plan.into_iter().partition(|p| p.2 == Silent);
    for (id, s, _) in quiet {
        let (sh, d) = (sh.clone(), silent_done.clone());
        silent.push(std::thread::spawn(move || {
            let (t, port) = connect(sh.servers[s].addr);
            sh.log.ev(format!("cli {id} start port={port}"));
            let _t = t;
            while !d.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(5));
            }
            sh.log.ev(format!("cli {id} end"));
        }));
    }
    let n = r.range(4, 10);
    let mut hands: Vec<Vec<(u64, usize, Kind)>> = (0..n).map(|_| vec![]).collect();
    for p in others {
        hands[r.below(n)].push(p);
    }
    let mut cl = vec![];
    for mut work in hands {
        let sh = sh.clone();
        let mut rg = Rng::new(r.u64());
        cl.push(std::thread::spawn(move || {
            anothertls::log::init();
            while !work.is_empty() {
                // some connections at a time, all driven by this thread
                let k = work.len() - work.len().min(*rg.pick(&[1usize, 1, 2, 4]));
                let batch = work.split_off(k);
                clients(&sh, batch, &mut rg);
            }
        }));
    }
    let mut ok = true;
    for t in cl {
        ok &= t.join().is_ok();
    }
    silent_done.store(true, SeqCst);
    for t in silent.into_iter().chain(threads) {
        ok &= t.join().is_ok();
    }
    for t in std::mem::take(&mut *serving.lock().unwrap()) {
        ok &= t.join().is_ok();
    }
    if !ok {
        log.ev("panic of a thread".into());
    }
}
fn accept(sh: &Shared, i: usize, s: &Server, r: &mut Rng, mux: &[Sender<Served>], serving: &Mutex<Vec<std::thread::JoinHandle<()>>>) {
    match s.conn.accept() {
        Ok((st, addr)) => {
            sh.log.ev(format!("srv {i}/{} accept", number(&addr)));
            let mut c = Served::new(st, i, number(&addr));
            if !mux.is_empty() && r.bool() {
                let _ = r.pick(mux).send(c);
                return;
            }
            // the connection moves to another thread, sometimes again and again
            let (log, hop) = (sh.log.clone(), r.one_in(4));
            let t = std::thread::spawn(move || {
                while !c.step(&log) {
                    if hop {
                        let log = log.clone();
                        c = match std::thread::spawn(move || (c.step(&log), c)).join().unwrap() {
                            (true, _) => break,
                            (false, c) => c,
                        };
                    }
                }
            });
            serving.lock().unwrap().push(t);
        }
        Err(e) => sh.log.ev(format!("srv {i} refuse {e:?}")),
    }
}
/// One thread for a lot of connections
fn serve_many(log: &Log, x: Receiver<Served>, r: &mut Rng) {
    let mut all: Vec<Served> = vec![];
    let mut open = true;
    while open || !all.is_empty() {
        loop {
            let n = if all.is_empty() && open { x.recv_timeout(Duration::from_millis(20)).map_err(|e| e == std::sync::mpsc::RecvTimeoutError::Disconnected) } else { x.try_recv().map_err(|e| e == std::sync::mpsc::TryRecvError::Disconnected) };
            match n {
                Ok(c) => all.push(c),
                Err(gone) => {
                    open &= !gone;
                    break;
                }
            }
        }
        let can: Vec<usize> = (0..all.len()).filter(|i| READY[all[*i].server][all[*i].port as usize].load(Relaxed) > 0).collect();
        if can.is_empty() {
            std::thread::sleep(Duration::from_micros(200));
            continue;
        }
        let i = *r.pick(&can);
        READY[all[i].server][all[i].port as usize].fetch_sub(1, Relaxed);
        if all[i].step(log) {
            all.swap_remove(i);
        }
    }
}
fn clients(sh: &Shared, batch: Vec<(u64, usize, Kind)>, r: &mut Rng) {
    let mut live: Vec<(Used, u32)> = vec![];
    for (id, si, k) in batch {
        let s = &sh.servers[si];
        let (mut t, port) = connect(s.addr);
        let _ = t.set_nodelay(true);
        sh.log.ev(format!("cli {id} start port={port}"));
        match k {
            Garbage => {
                let n = r.range(1, 3000);
                let b: Vec<u8> = r.bytes(n);
                let _ = t.write_all(&b);
                let _ = t.shutdown(Shutdown::Write);
                drain(&mut t);
                sh.log.ev(format!("cli {id} end"));
                continue;
            }
            Half => {
                let n = r.range(0, sh.hello.len() - 1);
                let _ = t.write_all(&sh.hello[..n]);
                let _ = t.shutdown(Shutdown::Write);
                drain(&mut t);
                sh.log.ev(format!("cli {id} end"));
                continue;
            }
            _ => {}
        }
        let cfg = match k {
            NoCert => &sh.plain,
            WrongCa => &sh.wrong,
            Refused => &sh.refused,
            _ if s.auth => &sh.good,
            _ if r.bool() => &sh.good,
            _ => &sh.plain,
        };
        let _ = s.verify;
        let raw = t.try_clone().expect("clone");
        let st = match ClientConnection::connect(t, cfg) {
            Ok(st) => st,
            Err(e) => {
                sh.log.ev(format!("cli {id} refused {e:?}"));
                continue;
            }
        };
        sh.log.ev(format!("cli {id} connected"));
        let mut u = match Used::new(st, id, si, port) {
            Ok(u) => u,
            Err(e) => {
                sh.log.ev(format!("cli {id} fail id {e:?}"));
                continue;
            }
        };
        match k {
            NoCert | WrongCa | Refused => {
                // the server says no
                ready(si, port, 1);
                let e = u.s.tls_read(&mut [0; 10]);
                sh.log.ev(format!("cli {id} told {}", e.map(|n| format!("{n} bytes")).unwrap_or_else(|e| format!("{e:?}"))));
            }
            Inject | Break => {
                let _ = u.ask(r);
                let a = u.answer();
                if !matches!(a, Ok(true)) {
                    sh.log.ev(format!("cli {id} fail answer {a:?}"));
                }
                ready(si, port, 1);
                if k == Inject {
                    let n = r.range(1, 100);
                    let mut b = vec![23, 3, 3, 0, 40];
                    b.extend(r.bytes(n + 40));
                    let mut raw = &raw;
                    let _ = raw.write_all(&b);
                    let e = u.s.tls_read(&mut [0; 10]);
                    sh.log.ev(format!("cli {id} told {}", e.map(|n| format!("{n} bytes")).unwrap_or_else(|e| format!("{e:?}"))));
                } else {
                    let _ = raw.shutdown(Shutdown::Both);
                    sh.log.ev(format!("cli {id} end"));
                }
            }
            _ => {
                let n = r.range(1, 6) as u32;
                live.push((u, n));
                // finish some before the next handshake, others later
                while r.bool() && !live.is_empty() {
                    step_one(sh, &mut live, r);
                }
            }
        }
    }
    while !live.is_empty() {
        step_one(sh, &mut live, r);
    }
}
fn step_one(sh: &Shared, live: &mut Vec<(Used, u32)>, r: &mut Rng) {
    let i = r.below(live.len());
    let (u, n) = &mut live[i];
    let res = if *n == 0 {
        let res = u.s.write_alert(TlsError::CloseNotify);
        ready(u.server, u.port, 1);
        if res.is_ok() {
            sh.log.ev(format!("cli {} end chunks={} bytes={}", u.id, u.chunks, u.bytes));
        }
        Some(("close", res))
    } else if u.pending == 0 {
        match u.ask(r) {
            Ok(()) => None,
            e => Some(("ask", e)),
        }
    } else {
        *n -= 1;
        let a = u.answer();
        u.pending = 0;
        match a {
            Ok(true) => None,
            Ok(false) => Some(("WRONG answer", Err(TlsError::InternalError))),
            Err(e) => Some(("answer", Err(e))),
        }
    };
    if let Some((what, res)) = res {
        if let Err(e) = res {
            sh.log.ev(format!("cli {} fail {what} {e:?}", u.id));
        }
        live.swap_remove(i);
    }
}
fn drain(t: &mut TcpStream) {
    use std::io::Read;
    let _ = t.set_read_timeout(Some(Duration::from_secs(60)));
    let mut b = [0; 4096];
    while matches!(t.read(&mut b), Ok(n) if n > 0) {}
}
