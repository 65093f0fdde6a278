//! Many connections at once
use crate::der::pem64;
use crate::eut::*;
use crate::ossl::EcKey;
use crate::rep::{Case, Rep};
use crate::rng::Rng;
use crate::sim::{self, Caps, Eut, Res, Status};
use crate::tls::{self, *};
use anothertls::net::client::ClientConfig;
use anothertls::utils::x509::X509;
use anothertls::ServerConnection;
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const RULE: &str = "a case is (a) a set of connections, healthy and failing, on shared configurations whose steps are interleaved at random (or which run at the same time), each compared with the same connection made alone, or (b) one run of endpoints and malicious peers over loopback in threads under a sanitizer, judged from its event log, its key log and the sanitizer's reports; distinct = orders of steps, and (kind of connection, server, outcome, size of the run)";

// ------------------------------------------------------------------ (a) steps
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Healthy,
    Noise,
    Part,
    BadHello,
    BadFinished,
    NoCert,
    OtherCa,
    Refused,
    BadVerify,
    Tampered,
    Alert,
    Reset,
}
use Kind::*;
const KINDS: &[Kind] = &[Noise, Part, BadHello, BadFinished, NoCert, OtherCa, Refused, BadVerify, Tampered, Alert, Reset];

fn allow(x: &X509) -> bool {
    x.tbs_certificate.subject.get("commonName").is_ok_and(|n| n == "client.test")
}
/// What connections share
struct Shared {
    /// without, with client certificates, with a function that decides
    servers: Vec<Arc<ServerConnection>>,
    clients: Vec<Arc<ClientConfig>>,
}
impl Shared {
    fn new(w: &World) -> Shared {
        sim::quiet(|| {
            let f = sim::server(w.server_builder().add_client_cert_ca(w.ca_cert.clone()).set_client_cert_custom_verify_fn(allow).build().expect("config"));
            Shared { servers: vec![w.server(false), w.server(true), f], clients: vec![w.client_cfg(false), w.client_cfg(true)] }
        })
    }
}
struct Extra {
    refused: Ident,
    wrong: Ident,
}
#[derive(Clone)]
struct Plan {
    kind: Kind,
    server: bool,
    which: usize,
    seed: u64,
}
fn status(s: &Status) -> String {
    match s {
        Status::Blocked => "waits".into(),
        Status::Done(Res::Ok(d)) => format!("ok {}", d.len()),
        Status::Done(Res::Err(e)) => format!("error {e:?}"),
        Status::Done(Res::Panic(p)) => format!("PANIC {p}"),
    }
}
fn codes(out: &[u8], s: Option<&mut Session>) -> String {
    let a = match s {
        Some(s) => {
            let Session { c_hs, s_hs, c_ap, s_ap, .. } = s;
            alerts(out, &mut [s_hs, s_ap, c_hs, c_ap])
        }
        None => alerts(out, &mut []),
    };
    format!("alerts {:?}", a.all())
}
/// One connection from begin to end; what can be seen of it
fn connection(c: &mut Case, w: &World, x: &Extra, sh: &Shared, p: &Plan) -> Vec<String> {
    let mut t = vec![];
    let suite = *c.rng.pick(&SUITES);
    if p.server {
        if !server_side(c, w, x, sh, p, suite, &mut t) {
            t.push("end".into());
        }
    } else if !client_side(c, w, sh, p, suite, &mut t) {
        t.push("end".into());
    }
    t
}
fn end_of(c: &mut Case, e: &mut Eut, s: Option<&mut Session>, t: &mut Vec<String>) -> bool {
    e.conn.eof();
    let st = e.wait(c);
    t.push(status(&st));
    t.push(codes(&e.conn.take(), s));
    true
}
fn server_side(c: &mut Case, w: &World, x: &Extra, sh: &Shared, p: &Plan, suite: u16, t: &mut Vec<String>) -> bool {
    let srv = &sh.servers[p.which];
    let mut o = Opts::new(suite);
    o.framing = Framing::random(&mut c.rng);
    o.client_auth = p.which > 0;
    o.recv = Caps::random(&mut c.rng);
    o.send = Caps::random(&mut c.rng);
    if matches!(p.kind, Healthy | Tampered | Alert | Reset) {
        return match link_server(c, w, srv, o) {
            Ok(l) => after(c, l, p, t),
            Err(e) => {
                // what was received is different each time
                t.push(format!("no connection: {}", e.split(", it sent").next().unwrap()));
                false
            }
        };
    }
    let mut e = Eut::new(Some(NOW));
    e.conn.set_caps(o.recv, o.send);
    e.accept(srv);
    let mut h = Hello::new(&mut c.rng);
    h.suites = vec![suite];
    match p.kind {
        Noise => {
            let n = c.rng.range(1, 400);
            let b = c.rng.odd_bytes(n);
            e.conn.feed(&b);
            return end_of(c, &mut e, None, t);
        }
        Part => {
            let r = record(HS, &h.msg());
            let n = c.rng.range(0, r.len() - 1);
            e.conn.feed(&r[..n]);
            return end_of(c, &mut e, None, t);
        }
        BadHello => {
            match c.rng.below(4) {
                0 => h.suites = vec![0x1304, 0xc02f],
                1 => h.set_ext(0x2b, vec![2, 3, 3]),
                2 => h.set_ext(0x33, ks_client(&[(0x17, vec![4; 65])])),
                _ => h.set_ext(0x0a, u16list(&[0x17])),
            }
            e.conn.feed(&record(HS, &h.msg()));
            return end_of(c, &mut e, None, t);
        }
        _ => {}
    }
    let ch = h.msg();
    e.conn.feed(&record(HS, &ch));
    let st = e.wait(c);
    let out = e.conn.take();
    let mut s = match tls::client_process(&out, &h, &ch) {
        Ok(s) => s,
        Err(err) => {
            t.push(format!("{}: {err}", status(&st)));
            return false;
        }
    };
    let id = match p.kind {
        OtherCa => &x.wrong,
        Refused => &x.refused,
        _ => &w.client,
    };
    let chain = if p.kind == NoCert { vec![] } else { vec![(id.der.clone(), vec![])] };
    let key = match p.kind {
        NoCert => None,
        BadVerify => Some(&x.wrong.key),
        _ => Some(&id.key),
    };
    let auth = ClientAuth { chain, key };
    let auth = if s.cert_request.is_some() { Some(&auth) } else { None };
    let bad_finished = p.kind == BadFinished;
    let fl = s.client_flight(auth, &mut |l, mut m| {
        if l == "Finished" && bad_finished {
            *m.last_mut().unwrap() ^= 1;
        }
        vec![m]
    });
    let mut d = s.c_hs.clone();
    let b: Vec<u8> = protect(&mut d, &fl, o.framing, 0, &mut c.rng).concat();
    s.c_hs = d;
    e.conn.feed(&b);
    let st = e.wait(c);
    t.push(status(&st));
    end_of(c, &mut e, Some(&mut s), t)
}
fn client_side(c: &mut Case, w: &World, sh: &Shared, p: &Plan, suite: u16, t: &mut Vec<String>) -> bool {
    let cfg = &sh.clients[p.which];
    let mut o = Opts::new(suite);
    o.framing = Framing::random(&mut c.rng);
    o.client_auth = p.which > 0;
    o.recv = Caps::random(&mut c.rng);
    o.send = Caps::random(&mut c.rng);
    if matches!(p.kind, Healthy | Tampered | Alert | Reset) {
        return match link_client(c, w, cfg, o) {
            Ok(l) => after(c, l, p, t),
            Err(e) => {
                t.push(format!("no connection: {}", e.split(", it sent").next().unwrap()));
                false
            }
        };
    }
    let (mut e, info, raw) = match start_client(c, cfg, o.recv, o.send, NOW) {
        Ok(x) => x,
        Err(e) => {
            t.push(e.split(", it sent").next().unwrap().into());
            return false;
        }
    };
    if p.kind == Noise {
        let n = c.rng.range(1, 400);
        let b = c.rng.odd_bytes(n);
        e.conn.feed(&b);
        return end_of(c, &mut e, None, t);
    }
    let spec = ServerSpec::new(suite, &w.server, &mut c.rng);
    let (kind, how) = (p.kind, c.rng.below(4));
    let (mut s, plain, prot) = tls::server_flight(&spec, &info, &raw, &mut |l, mut m| {
        let n = m.len();
        match (kind, l) {
            (BadFinished, "Finished") => m[n - 1] ^= 1,
            (BadVerify, "CertificateVerify") => m[n - 1] ^= 1,
            // legacy version
            (BadHello, "ServerHello") if how == 0 => m[5] ^= 1,
            (BadHello, "ServerHello") if how == 1 => m[4] = 9,
            (BadHello, "EncryptedExtensions") if how == 2 => m[0] = 99,
            (BadHello, "Certificate") if how == 3 => return vec![],
            _ => {}
        }
        vec![m]
    })
    .expect("flight");
    let mut b: Vec<u8> = o.framing.cut(&plain, &mut c.rng).iter().flat_map(|p| record(HS, p)).collect();
    let mut d = s.s_hs.clone();
    for r in protect(&mut d, &prot, o.framing, 0, &mut c.rng) {
        b.extend(r);
    }
    s.s_hs = d;
    if matches!(kind, Part | NoCert | OtherCa | Refused) {
        let n = c.rng.range(0, plain[0].len());
        b.truncate(n);
    }
    e.conn.feed(&b);
    let st = e.wait(c);
    t.push(status(&st));
    end_of(c, &mut e, Some(&mut s), t)
}
fn after(c: &mut Case, mut l: Link, p: &Plan, t: &mut Vec<String>) -> bool {
    t.push("connected".into());
    for _ in 0..c.rng.range(1, 4) {
        let n = *c.rng.pick(&[1usize, 100, 5000, 16384, 20000]);
        let d = c.rng.bytes(n);
        if c.rng.bool() {
            l.eut.write(d.clone());
            let st = l.eut.wait(c);
            t.push(format!("write {}", status(&st)));
            let out = l.eut.conn.take();
            let mut got = vec![];
            for r in &records(&out).0 {
                match l.rx().open(r) {
                    Ok((APP, b, _)) => got.extend(b),
                    x => t.push(format!("WRONG record {x:?}")),
                }
            }
            if got != d {
                t.push(format!("WRONG bytes sent: {} of {}", got.len(), d.len()));
            }
        } else {
            let mut b = vec![];
            for ch in d.chunks(16384) {
                b.extend(l.tx().seal(APP, ch, 0));
            }
            l.eut.conn.feed(&b);
            let mut got = vec![];
            let st = loop {
                l.eut.read(8000);
                match l.eut.wait(c) {
                    Status::Done(Res::Ok(b)) => got.extend(b),
                    s => break s,
                }
                if got.len() >= n {
                    break Status::Done(Res::Ok(vec![]));
                }
            };
            t.push(format!("read {}", status(&st)));
            if got != d {
                t.push(format!("WRONG bytes read: {} of {n}", got.len()));
            }
        }
    }
    match p.kind {
        Tampered => {
            let mut r = l.tx().seal(APP, b"do not read this", 0);
            let n = r.len();
            r[c.rng.range(5, n - 1)] ^= 4;
            l.eut.conn.feed(&r);
        }
        Alert => {
            let code = *c.rng.pick(&[20u8, 40, 80, 90]);
            let r = l.tx().seal(ALERT, &[2, code], 0);
            l.eut.conn.feed(&r);
        }
        Reset => l.eut.conn.rst(),
        _ => {
            let r = l.tx().seal(ALERT, &[1, 0], 0);
            l.eut.conn.feed(&r);
        }
    }
    l.eut.read(100);
    let st = l.eut.wait(c);
    t.push(format!("at the end {}", status(&st)));
    let out = l.eut.conn.take();
    t.push(codes(&out, Some(&mut l.sess)));
    true
}
fn alone(c: &Case, w: &World, x: &Extra, p: &Plan) -> Vec<String> {
    let sh = Shared::new(w);
    let mut k = c.part(p.seed);
    let _s = sim::stepping(None, 0, Rng::new(p.seed ^ 1));
    connection(&mut k, w, x, &sh, p)
}
/// Connections on shared objects, interleaved (or at the same time)
fn together(c: &mut Case, w: &World, x: &Extra, in_turns: bool) {
    let n = if in_turns { c.rng.range(2, 6) } else { c.rng.range(4, 12) };
    let bad = *c.rng.pick(&[0usize, 30, 70]);
    let plans: Vec<Plan> = (0..n)
        .map(|_| {
            let kind = if c.rng.below(100) < bad { *c.rng.pick(KINDS) } else { Healthy };
            let server = c.rng.below(3) > 0;
            let which = if server { if kind == Refused { 2 } else { c.rng.below(3) } } else { c.rng.below(2) };
            Plan { kind, server, which, seed: c.rng.u64() }
        })
        .collect();
    let want: Vec<Vec<String>> = plans.iter().map(|p| alone(c, w, x, p)).collect();
    let sh = Shared::new(w);
    let turns = if in_turns { Some(sim::Turns::new(n, Rng::new(c.rng.u64()))) } else { None };
    let got: Vec<Result<Vec<String>, String>> = std::thread::scope(|s| {
        let th: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let (t, sh, mut k) = (turns.clone(), &sh, c.part(p.seed));
                s.spawn(move || {
                    let _s = sim::stepping(t, i, Rng::new(p.seed ^ 1));
                    crate::rep::guarded(|| connection(&mut k, w, x, sh, p))
                })
            })
            .collect();
        th.into_iter().map(|t| t.join().expect("thread")).collect()
    });
    for ((p, want), got) in plans.iter().zip(&want).zip(got) {
        let got = match got {
            Ok(g) => g,
            Err(e) => panic!("{e}"),
        };
        let role = if p.server { "server" } else { "client" };
        let wrong = |t: &[String]| t.iter().any(|l| l.starts_with("WRONG") || l.contains("PANIC") || (p.kind == Healthy && (l == "end" || l.contains("error") && !l.starts_with("at the end error CloseNotify"))));
        if wrong(&got) && !wrong(want) {
            c.fail("connection disturbed", format!("{role}, {:?}, one of {n}: {got:?}, alone {want:?}", p.kind));
        } else if got != *want {
            c.fail("connection behaves differently", format!("{role}, {:?}, one of {n}: {got:?}, alone {want:?}", p.kind));
        } else if wrong(want) {
            c.count("inconclusive: fails alone too", 1);
            c.inconclusive("the connection fails alone too");
        }
        c.ev(format!("{role} {:?} {} {in_turns} {n} {}", p.kind, p.which, want.last().cloned().unwrap_or_default()));
        c.count(&format!("{role} {:?}", p.kind), 1);
        c.count(if p.kind == Healthy { "healthy connections compared" } else { "failing connections compared" }, 1);
    }
    if let Some(t) = turns {
        let o = t.order();
        c.count("steps interleaved", o.len() as u64);
        c.count("switches between connections", o.windows(2).filter(|w| w[0] != w[1]).count() as u64);
        let mut key = vec![n as u8];
        key.extend(&o);
        c.distinct(&key);
        c.count("orders of steps", 1);
        c.sample("order", || format!("{:?} in the order {o:?}", plans.iter().map(|p| (p.kind, p.server, p.which)).collect::<Vec<_>>()));
    }
}

/// Random values asked for by several threads at the same time are all different
fn generators(c: &mut Case) {
    use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, PrivateKey};
    use anothertls::rand::{RngCore, URandomRng};
    use ibig::IBig;
    let n = c.rng.range(2, 8);
    let barrier = std::sync::Barrier::new(n);
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let rounds = if c.thorough() { 600 } else { 250 };
    let all: Vec<Result<Vec<(&str, Vec<u8>)>, String>> = std::thread::scope(|s| {
        let th: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let b = &barrier;
                s.spawn(move || {
                    let mut rng = Rng::new(*seed);
                    let key = PrivateKey::new(Curve::secp256r1(), IBig::from(*seed | 1) * IBig::from(0x1_0000_0001u64));
                    b.wait();
                    sim::jitter(*seed);
                    let r = crate::rep::guarded(|| {
                        let mut r = URandomRng::new();
                        let mut out = vec![];
                        for _ in 0..rounds {
                            match rng.below(60) {
                                0 => {
                                    if let Ok(g) = Ecdsa::urandom().sign(&key, &[7; 32]) {
                                        out.push(("nonces of signatures", g.r.to_string().into_bytes()));
                                    }
                                }
                                1..=9 => {
                                    let v: IBig = r.between(31, 32);
                                    out.push(("numbers", v.to_string().into_bytes()));
                                }
                                _ => {
                                    let k = rng.range(16, 250);
                                    let v = RngCore::<IBig>::bytes(&mut r, k);
                                    for w in v.chunks_exact(16) {
                                        out.push(("bytes", w.to_vec()));
                                    }
                                    if v.len() != k {
                                        out.push(("length", vec![]));
                                    }
                                }
                            }
                        }
                        out
                    });
                    sim::jitter(0);
                    r
                })
            })
            .collect();
        th.into_iter().map(|t| t.join().expect("thread")).collect()
    });
    let mut seen = std::collections::HashMap::new();
    for (t, r) in all.into_iter().enumerate() {
        let v = match r {
            Ok(v) => v,
            Err(e) => return c.fail("generator panics", format!("{n} threads: {e}")),
        };
        c.count("random values of concurrent threads", v.len() as u64);
        for (what, v) in v {
            if what == "length" {
                return c.fail("another number of random bytes", format!("{n} threads"));
            }
            if let Some(u) = seen.insert(v.clone(), t) {
                return c.fail("random values repeat between threads", format!("{what}: {} in threads {u} and {t} of {n}", crate::rep::hex(&v)));
            }
        }
    }
    c.ev(format!("generators {n} {}", seen.len()));
}

// ------------------------------------------------------------------ (b) threads
/// Certificates and keys, valid whenever the sandbox thinks it is
fn material(c: &mut Case) -> Scratch {
    let d = Scratch::new();
    let (from, to) = (0, 2_493_000_000);
    let r = &mut c.rng;
    let ca = ident_at("Test CA", None, from, to, r);
    let other = ident_at("Test CA", None, from, to, r);
    let put = |n: &str, i: &Ident| {
        d.file(&format!("{n}.cert"), pem64("CERTIFICATE", &i.der).as_bytes());
        d.file(&format!("{n}.key"), pem64("EC PRIVATE KEY", &i.key.sec1_der()).as_bytes());
    };
    let by = |n: &str, k: &EcKey, r: &mut Rng| ident_at(n, Some(("Test CA", k)), from, to, r);
    put("ca", &ca);
    put("server", &ident_at("server.test", None, from, to, r));
    put("client", &by("client.test", &ca.key, r));
    put("refused", &by("other.test", &ca.key, r));
    put("wrong", &by("client.test", &other.key, r));
    d.file("hello.bin", &record(HS, &Hello::new(r).msg()));
    d
}
fn vt(which: &str) -> String {
    format!("{}/.build/vt-{which}/x86_64-unknown-linux-gnu/release/vt", crate::verif_dir())
}
struct Size {
    conns: usize,
    rounds: usize,
    calc: usize,
}
fn threads(c: &mut Case, which: &str, z: Size) {
    let d = material(c);
    let seed = c.rng.u64() >> 1;
    let what = format!("{which} sanitizer, seed {seed}");
    let opts = format!("halt_on_error=0:exitcode=0:history_size=7:detect_leaks=0:log_path={}/san", d.0);
    let mut k = Command::new(vt(which));
    k.arg(&d.0).args([seed.to_string(), z.conns.to_string(), z.rounds.to_string(), z.calc.to_string()]);
    k.env("TSAN_OPTIONS", &opts).env("ASAN_OPTIONS", &opts).env("RUST_LOG", *c.rng.pick(&["debug", "debug", "error", "fixme"]));
    k.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(d.path("stderr")).expect("stderr"));
    let mut p = k.spawn().unwrap_or_else(|e| panic!("{}: {e}", vt(which)));
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = p.try_wait().expect("wait") {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(400) {
            let _ = p.kill();
            let _ = p.wait();
            c.inconclusive("the run under the sanitizer took too long");
            return;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let err = std::fs::read_to_string(d.path("stderr")).unwrap_or_default();
    // reports of the sanitizer
    let mut reports = String::new();
    for f in std::fs::read_dir(&d.0).expect("dir").flatten() {
        if f.file_name().to_string_lossy().starts_with("san.") {
            reports += &String::from_utf8_lossy(&std::fs::read(f.path()).unwrap_or_default());
        }
    }
    c.count(&format!("runs with the {which} sanitizer"), 1);
    c.evals(1);
    if reports.contains("WARNING: ThreadSanitizer") || reports.contains("ERROR: ") || reports.contains("runtime error") {
        let kind = reports.lines().find(|l| l.contains("WARNING: ") || l.contains("ERROR: ")).unwrap_or("report").to_string();
        let kind: String = kind.split("anitizer: ").nth(1).unwrap_or(&kind).split(" (").next().unwrap().split(" on ").next().unwrap().chars().take(60).collect();
        c.fail(&format!("sanitizer: {kind}"), format!("{what}\n{}", reports.chars().take(6000).collect::<String>()));
    }
    let ev = std::fs::read_to_string(d.path("events")).unwrap_or_default();
    if ev.is_empty() {
        if c.failed() {
            return;
        }
        use std::os::unix::process::ExitStatusExt;
        match st.signal() {
            Some(s) if s != libc::SIGKILL && s != libc::SIGTERM => c.fail("the process died", format!("{what}: signal {s}: {}", err.chars().take(3000).collect::<String>())),
            _ => panic!("{what}: no event log, {st:?}: {}", err.chars().take(1000).collect::<String>()),
        }
        return;
    }
    judge(c, &what, &ev, &err);
    keylog(c, &what, &std::fs::read_to_string(d.path("keylog")).unwrap_or_default());
}
#[derive(Default)]
struct Seen {
    server: usize,
    kind: String,
    round: usize,
    port: String,
    cli: Vec<String>,
}
/// The event log tells, for each connection, that it went as if it were alone
fn judge(c: &mut Case, what: &str, ev: &str, err: &str) {
    let mut round = 0;
    let mut conns: BTreeMap<String, Seen> = BTreeMap::new();
    // (round, server, port) -> events
    let mut srv: BTreeMap<(usize, usize, String), Vec<String>> = BTreeMap::new();
    let mut refuse: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
    let mut done = false;
    for l in ev.lines() {
        let (_, e) = l.split_once(' ').unwrap_or(("", l));
        let w: Vec<&str> = e.split(' ').collect();
        c.count("events", 1);
        match w[0] {
            "round" => round = w[1].parse().expect("round"),
            "plan" => {
                conns.insert(w[1].into(), Seen { server: w[2][7..].parse().unwrap(), kind: w[3].into(), round, ..Seen::default() });
            }
            "cli" => {
                let s = conns.get_mut(w[1]).expect("planned");
                if let Some(p) = w[2..].iter().find_map(|x| x.strip_prefix("port=")) {
                    s.port = p.into();
                } else {
                    s.cli.push(w[2..].join(" "));
                }
            }
            "srv" if w[2] == "refuse" => refuse.entry((round, w[1].parse().unwrap())).or_default().push(w[3..].join(" ")),
            "srv" => {
                let (s, p) = w[1].split_once('/').unwrap();
                srv.entry((round, s.parse().unwrap(), p.into())).or_default().push(w[2..].join(" "));
            }
            "calc" if w[1] == "WRONG" => c.fail("computation disturbed", format!("{what}: {e}")),
            "calc" => c.count("computations beside each other", w[1].parse().unwrap_or(0)),
            "panic" => c.fail("panic of a thread", format!("{what}: {}", err.chars().take(2000).collect::<String>())),
            "stuck" => c.fail("no progress", format!("{what}: no event for 75 s; last: {:?}; {}", ev.lines().rev().take(12).collect::<Vec<_>>(), err.chars().take(1000).collect::<String>())),
            "done" => done = true,
            _ => panic!("event {e}"),
        }
    }
    if !done || c.failed() {
        if !c.failed() {
            c.fail("the run did not end", format!("{what}: {}", err.chars().take(2000).collect::<String>()));
        }
        return;
    }
    let mut bad: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (id, s) in &conns {
        let key = (s.round, s.server, s.port.clone());
        let sv = srv.get(&key).cloned().unwrap_or_default();
        let all = format!("{what}: connection {id} ({}) to server {}: client {:?}, server {sv:?}", s.kind, s.server, s.cli);
        let good = |sv: &[String]| sv.len() == 2 && sv[0] == "accept";
        match s.kind.as_str() {
            "Good" => {
                let chunks = s.cli.last().and_then(|l| l.strip_prefix("end ")).map(|l| l.to_string());
                if s.cli.len() != 2 || s.cli[0] != "connected" || chunks.is_none() || !good(&sv) || sv[1] != "end" {
                    c.fail("connection disturbed", all);
                    continue;
                }
                let b = chunks.unwrap().rsplit('=').next().unwrap().parse().unwrap_or(0);
                c.count("bytes exchanged under a sanitizer", b);
                c.count("healthy connections under a sanitizer", 1);
            }
            "Inject" | "Break" => {
                if s.cli.first().map(|s| s.as_str()) != Some("connected") || s.cli.iter().any(|l| l.starts_with("fail")) || !good(&sv) || !sv[1].starts_with("fail id=") || sv[1].contains("WRONG") || !sv[1].contains(&format!("id={id} chunks=1 request")) {
                    c.fail("connection disturbed", all);
                    continue;
                }
                c.count("failing connections under a sanitizer", 1);
            }
            k => {
                if !sv.is_empty() {
                    c.fail("failing connection accepted", all);
                    continue;
                }
                if matches!(k, "NoCert" | "WrongCa" | "Refused") && s.cli.iter().any(|l| l.starts_with("told") && l.ends_with("bytes")) {
                    c.fail("failing connection accepted", all);
                    continue;
                }
                *bad.entry((s.round, s.server)).or_default() += 1;
                c.count("failing connections under a sanitizer", 1);
            }
        }
        c.distinct(format!("{} {} {}", s.kind, s.server, sv.last().map(|s| s.split(' ').next_back().unwrap_or("")).unwrap_or("")).as_bytes());
    }
    c.evals(conns.len() as u64);
    for (k, v) in &srv {
        if !conns.values().any(|s| (s.round, s.server, &s.port) == (k.0, k.1, &k.2)) {
            c.fail("connection from nowhere", format!("{what}: server {} port {}: {v:?}", k.1, k.2));
        }
    }
    let keys: BTreeSet<_> = bad.keys().chain(refuse.keys()).copied().collect();
    for k in keys {
        let (b, r) = (bad.get(&k).copied().unwrap_or(0), refuse.get(&k).map(|r| r.len()).unwrap_or(0));
        if b != r {
            c.fail("refused connections", format!("{what}: round {} server {}: {b} connections have to fail, {r} did: {:?}", k.0, k.1, refuse.get(&k)));
        }
    }
    c.sample("events", || ev.lines().rev().take(8).collect::<Vec<_>>().join(" | "));
}
/// All connections write to one key log: no line is torn or mixed up
fn keylog(c: &mut Case, what: &str, log: &str) {
    if c.failed() {
        return;
    }
    const LABELS: [&str; 4] = ["SERVER_HANDSHAKE_TRAFFIC_SECRET", "CLIENT_HANDSHAKE_TRAFFIC_SECRET", "SERVER_TRAFFIC_SECRET_0", "CLIENT_TRAFFIC_SECRET_0"];
    let mut seen: BTreeMap<(String, String), String> = BTreeMap::new();
    let mut secrets: BTreeMap<String, String> = BTreeMap::new();
    for l in log.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let hexn = |s: &str, n: &[usize]| n.contains(&s.len()) && s.bytes().all(|b| b.is_ascii_hexdigit());
        if w.len() != 3 || !LABELS.contains(&w[0]) || !hexn(w[1], &[64]) || !hexn(w[2], &[64, 96]) {
            c.fail("key log mixed up", format!("{what}: line {l:?}"));
            return;
        }
        if let Some(o) = seen.insert((w[0].into(), w[1].into()), w[2].into()) {
            // both ends write the same
            if o != w[2] {
                c.fail("key log mixed up", format!("{what}: two secrets for {} {}: {o} {}", w[0], w[1], w[2]));
                return;
            }
        }
        let who = format!("{} {}", w[0], w[1]);
        if let Some(o) = secrets.insert(w[2].into(), who.clone()) {
            if o != who {
                c.fail("secret of two connections", format!("{what}: {o} and {who} have the secret {}", w[2]));
                return;
            }
        }
        c.count("key log lines", 1);
    }
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    let mut rng = Rng::new(r.seed ^ 17);
    let x = Extra { refused: ident("other.test", Some(("Test CA", &w.ca.key)), &mut rng), wrong: ident("client.test", Some(("Test CA", &w.other_ca.key)), &mut rng) };
    r.group_t("threads", r.n(4, 40), 2, |c| threads(c, "thread", if c.thorough() { Size { conns: 60, rounds: 4, calc: 3 } } else { Size { conns: 40, rounds: 2, calc: 1 } }));
    r.group_t("addresses", r.n(2, 20), 2, |c| threads(c, "address", if c.thorough() { Size { conns: 60, rounds: 6, calc: 6 } } else { Size { conns: 40, rounds: 2, calc: 2 } }));
    r.group_t("turns", r.n(120, 4000), 4, |c| together(c, &w, &x, true));
    r.group_t("generators", r.n(24, 800), 1, generators);
    sim::jitter_endpoints(true);
    r.group_t("at once", r.n(60, 2000), 2, |c| together(c, &w, &x, false));
    sim::jitter_endpoints(false);
    r.require("random values of concurrent threads", 10_000);
    r.require("healthy connections compared", 200);
    r.require("failing connections compared", 60);
    r.require("steps interleaved", 2000);
    r.require("healthy connections under a sanitizer", 150);
    r.require("failing connections under a sanitizer", 20);
    r.require("key log lines", 1000);
    r.require("computations beside each other", 200);
}
