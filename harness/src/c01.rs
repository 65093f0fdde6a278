//! Application data is an intact byte stream
use crate::eut::*;
use crate::ossl::{Ssl, SslOpts, SslRes};
use crate::rep::{hexs, Case, Rep};
use crate::sim::{Caps, Eut, Res, Status};
use crate::tls::*;

pub const RULE: &str = "a case is one connection: random suite, role, client authentication, handshake framing and padding, TCP segmentation of both directions, then a random interleaving of writes and reads with boundary-biased sizes in both directions (reference endpoint, OpenSSL, or a second endpoint under test as peer); distinct = (peer kind, role, suite, direction, size class, buffer class, segmentation class); every byte delivered is compared with what was sent";

const SIZES: &[usize] = &[0, 1, 2, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 2047, 2048, 4091, 4096, 16383, 16384];
const BIG: &[usize] = &[16385, 16640, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 70001];

fn size(c: &mut Case, big: bool) -> usize {
    match c.rng.below(10) {
        0..=5 => *c.rng.pick(SIZES),
        6 if big => *c.rng.pick(BIG),
        7 => c.rng.range(0, 16384),
        _ => c.rng.range(0, 300),
    }
}
fn class(n: usize) -> String {
    if SIZES.contains(&n) || BIG.contains(&n) {
        format!("{n}")
    } else {
        format!("~{}", usize::BITS - n.leading_zeros())
    }
}
fn data(c: &mut Case, n: usize) -> Vec<u8> {
    // recognisable in both directions, zeros at the end are common (padding!)
    let mut d = c.rng.bytes(n);
    if n > 0 && c.rng.one_in(3) {
        let z = c.rng.range(1, n.min(40));
        for b in d[n - z..].iter_mut() {
            *b = 0;
        }
    }
    d
}
fn bufsize(c: &mut Case) -> usize {
    match c.rng.below(6) {
        0 => 1,
        1 => *c.rng.pick(&[2, 3, 7, 15, 16, 17, 100]),
        2 => *c.rng.pick(&[1000, 4096, 16383, 16384, 16385, 65536]),
        3 => c.rng.range(1, 50),
        _ => c.rng.range(1, 20000),
    }
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("expected {} bytes, got {}, first difference at {}", a.len(), b.len(), i)
}

/// Reads exactly `want` from the EUT; everything must be delivered before it blocks
fn expect_read(c: &mut Case, l: &mut Eut, want: &[u8], what: &str) -> bool {
    let mut got = vec![];
    let fixed = if c.rng.one_in(3) { Some(bufsize(c)) } else { None };
    let mut zero = 0;
    while got.len() < want.len() {
        let n = fixed.unwrap_or_else(|| bufsize(c)).max(want.len() / 3000).max(1);
        l.read(n);
        match l.wait(c) {
            Status::Done(Res::Ok(d)) => {
                if d.is_empty() {
                    zero += 1;
                    if zero > 1000 {
                        c.fail("data lost", format!("{what}: read returns nothing although data is there"));
                        return false;
                    }
                }
                got.extend(d);
            }
            Status::Blocked => {
                c.fail("data lost", format!("{what}: the reader blocks although everything was delivered by TCP; {}", diff(want, &got)));
                return false;
            }
            s => {
                c.fail("read failed", format!("{what}: {s:?} on an intact stream; {}", diff(want, &got)));
                return false;
            }
        }
    }
    if got != want {
        c.fail("data differs", format!("{what}: {}", diff(want, &got)));
        return false;
    }
    true
}

fn session(c: &mut Case, w: &World, server: bool) {
    let suite = *c.rng.pick(&SUITES);
    let mut o = Opts::new(suite);
    o.framing = Framing::random(&mut c.rng);
    o.pad = *c.rng.pick(&[0, 0, 1, 40]);
    o.recv = Caps::random(&mut c.rng);
    o.send = Caps::random(&mut c.rng);
    o.client_auth = c.rng.one_in(4);
    let seg = format!("{:?}", std::mem::discriminant(&o.recv));
    let n = if c.rng.bool() { size(c, true) } else { 0 };
    let early = data(c, n);
    o.early = early.clone();
    o.early_pad = c.rng.below(40);
    let role = if server { "server" } else { "client" };
    let fr = o.framing;
    let auth = o.client_auth;
    let mut l = match link(c, w, server, o) {
        Ok(l) => l,
        Err(e) => {
            c.fail("no connection", format!("{role}, suite {suite:04x}, {fr:?}: {e}"));
            return;
        }
    };
    c.count("connections", 1);
    let mut log = format!("{role} {suite:04x} {fr:?} auth={auth} early={}", early.len());
    if !early.is_empty() {
        if !expect_read(c, &mut l.eut, &early, "data sent together with the last handshake message") {
            return;
        }
        c.ev(format!("early {role} {suite:x} {}", class(early.len())));
    }
    let rounds = c.rng.range(3, 8);
    let mut pending: Vec<u8> = vec![];
    for _ in 0..rounds {
        match c.rng.below(3) {
            // EUT -> reference
            0 => {
                let k = c.rng.range(1, 3);
                let mut want = vec![];
                for _ in 0..k {
                    let n = size(c, true);
                    let d = data(c, n);
                    want.extend_from_slice(&d);
                    l.eut.write(d);
                    match l.eut.wait(c) {
                        Status::Done(Res::Ok(_)) => {}
                        s => {
                            c.fail("write failed", format!("{role}: writing {n} bytes: {s:?}"));
                            return;
                        }
                    }
                    c.ev(format!("w {role} {suite:x} {}", class(n)));
                    log += &format!(" w{n}");
                }
                let out = l.eut.conn.take();
                match open_app(l.rx(), &out) {
                    Ok(x) => {
                        c.count("records from the EUT", x.sizes.len() as u64);
                        c.count("bytes from the EUT", x.data.len() as u64);
                        if x.data != want || !x.alerts.is_empty() || !x.other.is_empty() {
                            c.fail("sent data differs", format!("{role}, suite {suite:04x}: {} alerts={:?} other={:?}; {log}", diff(&want, &x.data), x.alerts, x.other));
                            return;
                        }
                    }
                    Err(e) => {
                        c.fail("bad record sent", format!("{role}, suite {suite:04x}: {e}; {log}"));
                        return;
                    }
                }
            }
            // reference -> EUT
            1 => {
                let k = c.rng.range(1, 4);
                let mut raw = vec![];
                for _ in 0..k {
                    let n = size(c, false);
                    let d = data(c, n);
                    let pad = match c.rng.below(5) {
                        0 => c.rng.below(300),
                        1 => 16384,
                        _ => 0,
                    }
                    .min(16384 - n);
                    pending.extend_from_slice(&d);
                    raw.extend(l.tx().seal(APP, &d, pad));
                    c.ev(format!("r {role} {suite:x} {} {}", class(n), pad > 0));
                    log += &format!(" r{n}+{pad}");
                }
                let seg2 = Caps::random(&mut c.rng);
                l.eut.conn.set_caps(seg2, Caps::random(&mut c.rng));
                // the segments may also arrive while the reader is already waiting
                if c.rng.bool() && !raw.is_empty() {
                    let cut = c.rng.below(raw.len());
                    l.eut.conn.feed(&raw[..cut]);
                    let n = bufsize(c);
                    l.eut.read(n);
                    let mut st = l.eut.wait(c);
                    l.eut.conn.feed(&raw[cut..]);
                    if st.blocked() {
                        st = l.eut.wait(c);
                    }
                    match st {
                        Status::Done(Res::Ok(d)) => {
                            if d.len() > pending.len() || d != pending[..d.len()] {
                                c.fail("data differs", format!("{role}: {} ; {log}", diff(&pending, &d)));
                                return;
                            }
                            pending.drain(..d.len());
                        }
                        Status::Blocked => {
                            // only empty records
                            if !pending.is_empty() {
                                c.fail("data lost", format!("{role}: reader blocks with {} bytes pending; {log}", pending.len()));
                                return;
                            }
                            // the reader is left waiting, wake it with one byte
                            let r = l.tx().seal(APP, &[0x5a], 0);
                            l.eut.conn.feed(&r);
                            match l.eut.wait(c) {
                                Status::Done(Res::Ok(d)) if d == [0x5a] => {}
                                s => {
                                    c.fail("data lost", format!("{role}: after empty records: {s:?}; {log}"));
                                    return;
                                }
                            }
                        }
                        s => {
                            c.fail("read failed", format!("{role}: {s:?} on an intact stream; {log}"));
                            return;
                        }
                    }
                } else {
                    l.eut.conn.feed(&raw);
                }
            }
            _ => {
                if !pending.is_empty() {
                    let want = std::mem::take(&mut pending);
                    c.count("bytes to the EUT", want.len() as u64);
                    if !expect_read(c, &mut l.eut, &want, &format!("{role} {suite:04x} {seg} {log}")) {
                        return;
                    }
                }
            }
        }
    }
    let want = std::mem::take(&mut pending);
    if !expect_read(c, &mut l.eut, &want, &log) {
        return;
    }
    // an orderly close delivers everything before it
    let n = size(c, false);
    let last = data(c, n);
    let mut raw = l.tx().seal(APP, &last, 0);
    raw.extend(l.tx().seal(ALERT, &[1, 0], 0));
    l.eut.conn.feed(&raw);
    l.eut.conn.eof();
    if !expect_read(c, &mut l.eut, &last, "data before close_notify") {
        return;
    }
    l.eut.read(10);
    match l.eut.wait(c) {
        Status::Done(Res::Err(_)) => {}
        Status::Done(Res::Ok(d)) if d.is_empty() => {}
        s => c.fail("data invented", format!("{role}: read behind the end of the stream: {s:?}")),
    }
    // the peer has closed its direction only
    for _ in 0..c.rng.below(3) {
        let n = size(c, true);
        let d = data(c, n);
        l.eut.write(d.clone());
        match l.eut.wait(c) {
            Status::Done(Res::Ok(_)) => {}
            s => {
                c.fail("write failed", format!("{role}: writing {n} bytes after the peer's close_notify: {s:?}; {log}"));
                return;
            }
        }
        let out = l.eut.conn.take();
        match open_app(l.rx(), &out) {
            Ok(x) if x.data == d && x.other.is_empty() => c.count("writes after the peer's close_notify", 1),
            Ok(x) => return c.fail("sent data differs", format!("{role}, after the peer's close_notify: {} other={:?}; {log}", diff(&d, &x.data), x.other)),
            Err(e) => return c.fail("bad record sent", format!("{role}, after the peer's close_notify: {e}; {log}")),
        }
    }
    c.sample(role, || log);
}

/// Socket calls that fail now and then (timeouts, signals, a full or broken connection): a read that
/// reports an error has lost nothing, a write that reports success has sent everything, and behind a
/// failed write the peer never gets anything but a prefix of what was written
fn faults(c: &mut Case, w: &World, server: bool) {
    let suite = *c.rng.pick(&SUITES);
    let role = if server { "server" } else { "client" };
    let mut l = match link(c, w, server, Opts::new(suite)) {
        Ok(l) => l,
        Err(e) => {
            c.fail("no connection", format!("{role}, suite {suite:04x}: {e}"));
            return;
        }
    };
    let mut errors = 0;
    for round in 0..c.rng.range(1, 4) {
        let mut want = vec![];
        let mut raw = vec![];
        for _ in 0..c.rng.range(1, 5) {
            let n = size(c, false);
            let d = data(c, n);
            let pad = c.rng.below(60).min(16384 - n);
            raw.extend(l.tx().seal(APP, &d, pad));
            want.extend(d);
        }
        let caps = Caps::random(&mut c.rng);
        l.eut.conn.set_caps(caps, Caps::All);
        let one_in = c.rng.range(2, 30);
        let fr = crate::rng::Rng::new(c.rng.u64());
        l.eut.conn.recv_faults(Some((fr, one_in)));
        // delivered in pieces, with reads in between
        let mut got: Vec<u8> = vec![];
        let mut cuts: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.below(raw.len() + 1)).collect();
        cuts.sort();
        cuts.push(raw.len());
        let mut at = 0;
        let mut calls = 0;
        for k in cuts {
            l.eut.conn.feed(&raw[at..k]);
            at = k;
            let whole = k == raw.len();
            loop {
                // stop before the read that would have to wait
                if got.len() >= want.len() || !whole && calls % 7 == 6 {
                    calls += 1;
                    break;
                }
                calls += 1;
                if calls > 200_000 {
                    c.inconclusive("no progress under faults");
                    return;
                }
                let n = bufsize(c).max(want.len() / 3000).max(1);
                let before = l.eut.conn.with(|i| i.recv_failed);
                l.eut.read(n);
                let mut st = l.eut.wait(c);
                if st.blocked() {
                    if whole {
                        c.fail("data lost", format!("{role}: the reader blocks after {errors} failed reads; {}", diff(&want, &got)));
                        return;
                    }
                    // more arrives while the reader waits
                    l.eut.conn.feed(&raw[at..]);
                    at = raw.len();
                    st = l.eut.wait(c);
                }
                match st {
                    Status::Done(Res::Ok(d)) => got.extend(d),
                    Status::Done(Res::Err(_)) if l.eut.conn.with(|i| i.recv_failed) > before => {
                        errors += 1;
                    }
                    s => {
                        c.fail("read failed", format!("{role}: {s:?} on an intact stream, after {errors} failed reads; {}", diff(&want, &got)));
                        return;
                    }
                }
                if got.len() > want.len() || got != want[..got.len()] {
                    c.fail("data differs", format!("{role}, suite {suite:04x}, after {errors} failed reads: {}", diff(&want, &got)));
                    return;
                }
            }
            if at == raw.len() && !whole {
                break;
            }
        }
        l.eut.conn.recv_faults(None);
        while got.len() < want.len() {
            l.eut.read(70000);
            match l.eut.wait(c) {
                Status::Done(Res::Ok(d)) => got.extend(d),
                s => {
                    c.fail("data lost", format!("{role}: {s:?} after {errors} failed reads; {}", diff(&want, &got)));
                    return;
                }
            }
        }
        if got != want {
            c.fail("data differs", format!("{role}, suite {suite:04x}, after {errors} failed reads: {}", diff(&want, &got)));
            return;
        }
        c.ev(format!("read faults {role} {suite:x} {round} {}", errors.min(20)));
    }
    c.count("reads that failed and were repeated", errors);
    c.count("socket calls interrupted by a signal", l.eut.conn.with(|i| i.interrupted));
    // writes
    let limit = l.eut.conn.sent_len() + if c.rng.bool() { c.rng.below(200) } else { c.rng.below(60000) };
    l.eut.conn.set_caps(Caps::All, Caps::random(&mut c.rng));
    l.eut.conn.send_errno(*c.rng.pick(&[libc::EPIPE, libc::EAGAIN, libc::ECONNRESET]));
    l.eut.conn.fail_send_at(Some(limit));
    let start = l.eut.conn.sent_len();
    let mut written = vec![];
    let mut acked = 0;
    let mut failed = 0;
    for _ in 0..60 {
        let n = size(c, true);
        let d = data(c, n);
        written.extend_from_slice(&d);
        l.eut.write(d);
        match l.eut.wait(c) {
            Status::Done(Res::Ok(_)) => {
                if failed == 0 {
                    acked = written.len();
                }
            }
            Status::Done(Res::Err(_)) => {
                failed += 1;
                if failed == 1 && c.rng.bool() {
                    // the connection works again
                    l.eut.conn.fail_send_at(None);
                } else if failed > 2 {
                    break;
                }
            }
            s => {
                c.fail("write failed", format!("{role}: {s:?}"));
                return;
            }
        }
        if failed > 0 && c.rng.bool() {
            break;
        }
    }
    let out = l.eut.conn.sent()[start..].to_vec();
    // the peer takes record after record until one is bad or incomplete
    let mut got = vec![];
    let (recs, _) = records(&out);
    for r in &recs {
        match l.rx().open(r) {
            Ok((APP, d, _)) => got.extend(d),
            Ok(_) => {}
            Err(_) => break,
        }
    }
    if got.len() > written.len() || got != written[..got.len()] {
        c.fail("sent data differs", format!("{role}, suite {suite:04x}: the peer gets something else than was written around a failed write: {}", diff(&written, &got)));
    }
    if got.len() < acked {
        c.fail("data lost", format!("{role}, suite {suite:04x}: {acked} bytes written successfully, {} arrive", got.len()));
    }
    c.count("writes that failed", failed);
    c.ev(format!("write faults {role} {suite:x} {}", class(got.len())));
}

fn ssl_io(c: &mut Case, s: &mut Ssl, e: &mut Eut) {
    let o = e.conn.take();
    s.feed(&o);
    let _ = c;
}
fn openssl(c: &mut Case, w: &World, server: bool) {
    let suite = *c.rng.pick(&SUITES);
    let name = match suite {
        AES128 => "TLS_AES_128_GCM_SHA256",
        AES256 => "TLS_AES_256_GCM_SHA384",
        _ => "TLS_CHACHA20_POLY1305_SHA256",
    };
    let role = if server { "server" } else { "client" };
    let so = SslOpts {
        server: !server,
        cert: Some((&w.server.der, &w.server.key)),
        suites: name,
        groups: Some("X25519"),
        // the server under test knows only the ECDSA schemes
        sigalgs: Some("ECDSA+SHA256"),
        tickets: c.rng.below(4),
        block_padding: *c.rng.pick(&[0, 0, 16, 100, 4096]),
        max_fragment: *c.rng.pick(&[0, 0, 512, 600, 1023, 8000, 16384]),
        no_middlebox_compat: c.rng.bool(),
        ..Default::default()
    };
    let mut s = Ssl::new(&so);
    let mut e = Eut::new(Some(NOW));
    e.conn.set_caps(Caps::random(&mut c.rng), Caps::random(&mut c.rng));
    if server {
        e.accept(&w.server(false));
    } else {
        e.connect(&w.client_cfg(false));
    }
    let mut hs = SslRes::WantRead;
    for _ in 0..10 {
        if hs == SslRes::WantRead {
            hs = s.handshake();
        }
        let t = s.take();
        e.conn.feed(&t);
        let st = e.wait(c);
        ssl_io(c, &mut s, &mut e);
        if matches!(st, Status::Done(_)) && hs != SslRes::WantRead {
            break;
        }
    }
    let st = e.wait(c);
    if !matches!(&st, Status::Done(Res::Ok(_))) || !matches!(hs, SslRes::Ok(_)) {
        c.fail("no connection", format!("OpenSSL peer, {role}, {name}: EUT {st:?}, OpenSSL {hs:?}"));
        return;
    }
    c.count("connections with OpenSSL", 1);
    for _ in 0..c.rng.range(2, 5) {
        // EUT -> OpenSSL
        let n = size(c, true);
        let d = data(c, n);
        e.write(d.clone());
        if !matches!(e.wait(c), Status::Done(Res::Ok(_))) {
            c.fail("write failed", format!("{role}, {n} bytes"));
            return;
        }
        ssl_io(c, &mut s, &mut e);
        let mut got = vec![];
        let mut b = vec![0; 20000];
        loop {
            match s.read(&mut b) {
                SslRes::Ok(k) => got.extend_from_slice(&b[..k]),
                SslRes::WantRead => break,
                x => {
                    c.fail("OpenSSL rejects a record", format!("{role} {name} write of {n}: {x:?}"));
                    return;
                }
            }
        }
        if got != d {
            c.fail("sent data differs", format!("OpenSSL reads: {}", diff(&d, &got)));
            return;
        }
        c.ev(format!("o w {role} {suite:x} {}", class(n)));
        // OpenSSL -> EUT
        let n = size(c, true).max(1);
        let d = data(c, n);
        let mut p = 0;
        while p < n {
            match s.write(&d[p..]) {
                SslRes::Ok(k) => p += k,
                x => panic!("SSL_write: {x:?}"),
            }
        }
        let t = s.take();
        e.conn.set_caps(Caps::random(&mut c.rng), Caps::All);
        e.conn.feed(&t);
        if !expect_read(c, &mut e, &d, &format!("OpenSSL writes {n}, {role} {name}")) {
            return;
        }
        c.ev(format!("o r {role} {suite:x} {}", class(n)));
    }
}

fn pair(c: &mut Case, w: &World) {
    let auth = c.rng.one_in(3);
    let mut a = Eut::new(Some(NOW));
    let mut b = Eut::new(Some(NOW));
    a.conn.set_caps(Caps::random(&mut c.rng), Caps::random(&mut c.rng));
    b.conn.set_caps(Caps::random(&mut c.rng), Caps::random(&mut c.rng));
    a.connect(&w.client_cfg(auth));
    b.accept(&w.server(auth));
    let (x, y) = pump(c, &mut a, &mut b, &mut |_, d| d);
    if !matches!((&x, &y), (Status::Done(Res::Ok(_)), Status::Done(Res::Ok(_)))) {
        c.fail("no connection", format!("both ends under test, client auth {auth}: client {x:?}, server {y:?}"));
        return;
    }
    for _ in 0..c.rng.range(2, 6) {
        let n = size(c, true);
        let d = data(c, n);
        let fwd = c.rng.bool();
        let (s, r) = if fwd { (&mut a, &mut b) } else { (&mut b, &mut a) };
        s.write(d.clone());
        if !matches!(s.wait(c), Status::Done(Res::Ok(_))) {
            c.fail("write failed", format!("{n} bytes"));
            return;
        }
        let raw = s.conn.take();
        r.conn.feed(&raw);
        if !expect_read(c, r, &d, &format!("pair, {n} bytes")) {
            return;
        }
        c.ev(format!("p {fwd} {auth} {}", class(n)));
    }
    c.sample("pair", || hexs(&a.conn.sent()[..40]));
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    r.group("server", r.n(260, 6000), |c| session(c, &w, true));
    r.group("client", r.n(260, 6000), |c| session(c, &w, false));
    r.group("openssl-server", r.n(60, 1500), |c| openssl(c, &w, true));
    r.group("openssl-client", r.n(60, 1500), |c| openssl(c, &w, false));
    r.group("faults-server", r.n(150, 4000), |c| faults(c, &w, true));
    r.group("faults-client", r.n(150, 4000), |c| faults(c, &w, false));
    r.require("reads that failed and were repeated", 300);
    r.require("socket calls interrupted by a signal", 300);
    r.require("writes that failed", 150);
    r.group("pair", r.n(60, 1500), |c| pair(c, &w));
    r.require("connections", 200);
    r.require("bytes from the EUT", 100_000);
    r.require("bytes to the EUT", 100_000);
}
