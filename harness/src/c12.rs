//! C12: whatever is altered on the way, client and server never both complete
use crate::eut::*;
use crate::ossl::EcKey;
use crate::rep::{hex, hexs, Case, Rep};
use crate::sim::{self, Eut, Res, Status};
use crate::tls::*;
use anothertls::net::client::ClientConfig;
use anothertls::ServerConnection;
use std::sync::Arc;

pub const RULE: &str = "distinct = (flight, kind of change, message and field or byte position it hits, how each end finished)";

struct Pair {
    cfg: Arc<ClientConfig>,
    srv: Arc<ServerConnection>,
    ks: String,
    kc: String,
    auth: bool,
    sni: Option<String>,
}
impl Drop for Pair {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.ks);
        let _ = std::fs::remove_file(&self.kc);
    }
}
fn pair(c: &mut Case, w: &World, auth: bool) -> Pair {
    let tag = format!("c12-{}-{}", c.group.replace("/", "-"), c.idx);
    let (ks, kc) = (w.dir.path(&format!("{tag}-s.log")), w.dir.path(&format!("{tag}-c.log")));
    let sni = if c.rng.bool() { Some("server.test".to_string()) } else { None };
    let mut b = w.server_builder().set_keylog_path(ks.clone());
    if auth {
        b = b.add_client_cert_ca(w.ca_cert.clone());
    }
    let mut cb = w.client_builder(auth).set_keylog_path(kc.clone());
    if let Some(s) = &sni {
        cb = cb.set_server_name(s.clone());
        if c.rng.bool() {
            b = b.set_server_name(s.clone());
        }
    }
    Pair { cfg: Arc::new(cb.build().expect("config")), srv: sim::server(b.build().expect("config")), ks, kc, auth, sni }
}
fn keylog(path: &str) -> Vec<(String, String, Vec<u8>)> {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let mut p = l.split(' ');
            let (a, b, s) = (p.next()?, p.next()?, p.next()?);
            let s = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
            Some((a.to_string(), b.to_string(), s))
        })
        .collect()
}
fn secret(path: &str, label: &str) -> Option<Vec<u8>> {
    keylog(path).into_iter().find(|l| l.0 == label).map(|l| l.2)
}

/// The handshake content of a flight: plaintext handshake bytes and protected records
#[derive(PartialEq, Clone, Debug)]
enum Item {
    Hs(Vec<u8>),
    App(Vec<u8>),
    Junk,
}
fn items(b: &[u8]) -> Vec<Item> {
    let mut o: Vec<Item> = vec![];
    let (recs, rest) = records(b);
    for r in recs {
        match r.typ {
            HS => match o.last_mut() {
                Some(Item::Hs(v)) => v.extend(&r.body),
                _ => o.push(Item::Hs(r.body.clone())),
            },
            APP => o.push(Item::App(r.raw())),
            CCS | ALERT => {}
            _ => o.push(Item::Junk),
        }
    }
    if !rest.is_empty() {
        o.push(Item::Junk);
    }
    o
}
fn altered(orig: &[u8], new: &[u8]) -> bool {
    let (a, b) = (items(orig), items(new));
    b.len() < a.len() || b[..a.len()] != a[..]
}
/// The whole original content is there, followed by something else
fn extended(orig: &[u8], new: &[u8]) -> bool {
    let (a, b) = (items(orig), items(new));
    match (a.first(), b.first()) {
        (Some(Item::Hs(x)), Some(Item::Hs(y))) => a.len() == 1 && y.starts_with(x),
        _ => false,
    }
}

struct Outcome {
    client: Status,
    server: Status,
    c: Eut,
    s: Eut,
    /// (flight, is its handshake content changed)
    hit: Option<(usize, bool)>,
    /// the client's whole message arrives, and then more
    extended: bool,
    what: String,
}
fn ok(s: &Status) -> bool {
    matches!(s, Status::Done(Res::Ok(_)))
}
fn label(s: &Status) -> String {
    match s {
        Status::Done(Res::Ok(_)) => "completed".into(),
        Status::Done(Res::Err(e)) => format!("{e:?}"),
        s => format!("{s:?}"),
    }
}
/// Runs a handshake; `edit(case, flight, bytes)` returns what to deliver instead and a description
fn duel(c: &mut Case, p: &Pair, edit: &mut dyn FnMut(&mut Case, usize, &[u8]) -> Option<(Vec<u8>, String)>) -> Outcome {
    let mut cl = Eut::new(Some(NOW));
    let mut sv = Eut::new(Some(NOW));
    sv.accept(&p.srv);
    cl.connect(&p.cfg);
    let mut hit = None;
    let mut ext = false;
    let mut what = String::new();
    let mut flight = 0;
    let (mut a, mut b) = (Status::Blocked, Status::Blocked);
    let mut idle = 0;
    while idle < 2 {
        for client in [true, false] {
            let e = if client { &mut cl } else { &mut sv };
            let st = e.wait(c);
            let x = e.conn.take();
            if client {
                a = st;
            } else {
                b = st;
            }
            if x.is_empty() {
                idle += 1;
                continue;
            }
            idle = 0;
            let mut y = x.clone();
            // flights alternate, the client begins
            if flight < 3 && client == (flight % 2 == 0) {
                if let Some((n, d)) = edit(c, flight, &x) {
                    hit = Some((flight, altered(&x, &n)));
                    ext = extended(&x, &n);
                    what = d;
                    y = n;
                }
                flight += 1;
            }
            if client {
                sv.conn.feed(&y);
            } else {
                cl.conn.feed(&y);
            }
        }
    }
    if a.blocked() {
        cl.conn.eof();
        a = cl.wait(c);
        let x = cl.conn.take();
        sv.conn.feed(&x);
    }
    if b.blocked() {
        sv.conn.eof();
        b = sv.wait(c);
    }
    Outcome { client: a, server: b, c: cl, s: sv, hit, extended: ext, what }
}

/// Both ends completed: same secrets, and data arrives
fn agree(c: &mut Case, p: &Pair, o: &mut Outcome, data: bool) {
    let (ks, kc) = (keylog(&p.ks), keylog(&p.kc));
    let sort = |v: &[(String, String, Vec<u8>)]| {
        let mut o: Vec<String> = v.iter().map(|l| format!("{} {} {}", l.0, l.1, hex(&l.2))).collect();
        o.sort();
        o
    };
    if sort(&ks) != sort(&kc) || ks.len() != 4 {
        c.fail("different secrets", format!("{}: server {:?}, client {:?}", o.what, sort(&ks), sort(&kc)));
        return;
    }
    c.count("pairs with equal secrets", 1);
    if !data {
        // what was inserted behind the handshake may end the connection
        return;
    }
    let n = c.rng.range(1, 300);
    let d = c.rng.bytes(n);
    for (a, b) in [(true, false), (false, true)] {
        let _ = b;
        let (x, y) = if a { (&mut o.c, &mut o.s) } else { (&mut o.s, &mut o.c) };
        x.write(d.clone());
        x.wait(c);
        let t = x.conn.take();
        y.conn.feed(&t);
        y.read(1000);
        let st = y.wait(c);
        c.check(matches!(&st, Status::Done(Res::Ok(g)) if *g == d), "data", || format!("{}: {st:?}", o.what));
    }
}
fn judge(c: &mut Case, p: &Pair, mut o: Outcome, must_complete: bool) {
    let Some((flight, alt)) = o.hit else {
        c.inconclusive("the flight to change was never sent");
        return;
    };
    let (cok, sok) = (ok(&o.client), ok(&o.server));
    let ctx = format!("client auth {}, sni {:?}, flight {flight}: {}: client {}, server {}", p.auth, p.sni, o.what, label(&o.client), label(&o.server));
    c.ev(format!("{flight} {} {alt} {} {}", o.what.split(" [").next().unwrap(), label(&o.client), label(&o.server)));
    c.count(if alt { "changed handshakes" } else { "handshakes with equal content" }, 1);
    c.sample(&format!("{flight} {}", o.what.split_whitespace().next().unwrap_or("")), || ctx.clone());
    if alt {
        if cok && sok {
            c.fail("both complete after a change", ctx);
        } else if sok {
            c.fail("the server completes after a change", ctx);
        } else if cok && flight < 2 && !o.extended {
            c.fail("the client completes after a change", ctx);
        }
        return;
    }
    if must_complete && !(cok && sok) {
        c.fail("unchanged handshake fails", ctx);
        return;
    }
    if cok && sok {
        agree(c, p, &mut o, must_complete);
    }
}

/// Every byte of every flight
fn bits(c: &mut Case, w: &World) {
    let p = pair(c, w, true);
    let target = c.idx % 3;
    let at = c.idx / 3;
    let o = duel(c, &p, &mut |c, f, b| {
        if f != target {
            return None;
        }
        let mut v = b.to_vec();
        let i = at % v.len();
        let bit = 1u8 << c.rng.below(8);
        v[i] ^= bit;
        c.count(&format!("positions of flight {f}"), 1);
        Some((v, format!("byte {i} xor {bit:02x}")))
    });
    judge(c, &p, o, false);
}

/// Whole records
fn structure(c: &mut Case, w: &World, foreign: &[Vec<Vec<u8>>]) {
    let auth = c.rng.bool();
    let p = pair(c, w, auth);
    let target = c.rng.below(3);
    let o = duel(c, &p, &mut |c, f, b| {
        if f != target {
            return None;
        }
        let (recs, _) = records(b);
        let mut v: Vec<Vec<u8>> = recs.iter().map(|r| r.raw()).collect();
        let n = v.len();
        let k = c.rng.below(n);
        let d = match c.rng.below(13) {
            0 => {
                v.remove(k);
                format!("drop record {k}")
            }
            1 => {
                let r = v[k].clone();
                v.insert(k, r);
                format!("duplicate record {k}")
            }
            2 => {
                let j = c.rng.below(n);
                v.swap(k, j);
                format!("swap records {k} and {j}")
            }
            3 => {
                let at = c.rng.below(n + 1);
                v.insert(at, record(CCS, &[1]));
                format!("insert CCS at {at}")
            }
            4 => {
                let at = c.rng.below(n + 1);
                v.insert(at, record(ALERT, c.rng.pick(&[[1, 0], [1, 90], [2, 40], [1, 100]])));
                format!("insert alert at {at}")
            }
            5 => {
                let at = c.rng.below(n + 1);
                let m = match c.rng.below(4) {
                    0 => msg(c.rng.u8(), &[]),
                    1 => msg(EE, &[0, 0]),
                    2 => msg(FIN, &[0; 32]),
                    _ => certificate_msg(&[], &[(w.server.der.clone(), vec![])]),
                };
                v.insert(at, record(HS, &m));
                format!("insert plaintext message {} at {at}", m[0])
            }
            6 => {
                let at = c.rng.below(n + 1);
                let k = c.rng.range(17, 400);
                v.insert(at, record(APP, &c.rng.bytes(k)));
                format!("insert random record at {at}")
            }
            7 | 8 => {
                // from another handshake of the same parties
                let other = c.rng.pick(foreign);
                let (r, _) = records(&other[f]);
                let r = c.rng.pick(&r).raw();
                if c.rng.bool() {
                    v[k] = r;
                    format!("record {k} of another handshake")
                } else {
                    v.insert(k, r);
                    format!("insert a record of another handshake at {k}")
                }
            }
            9 => {
                let other = c.rng.pick(foreign);
                v = vec![other[f].clone()];
                "flight of another handshake".into()
            }
            10 => {
                v.truncate(k);
                format!("cut after record {k}")
            }
            11 if c.rng.bool() => {
                let r = &recs[k];
                if r.body.len() < 2 {
                    return None;
                }
                let (w, b) = crate::mutate::corrupt(&mut c.rng, &r.body);
                v[k] = record_v(r.typ, r.ver, &b);
                format!("record {k} [{w}]")
            }
            11 => {
                // truncate a record, length adjusted
                let r = &recs[k];
                let l = c.rng.below(r.body.len().max(1));
                v[k] = record_v(r.typ, r.ver, &r.body[..l]);
                format!("shorten record {k}")
            }
            _ => {
                let r = &recs[k];
                let t = *c.rng.pick(&[CCS, ALERT, HS, APP]);
                v[k] = record_v(t, r.ver, &r.body);
                format!("type of record {k} is {t}")
            }
        };
        Some((v.concat(), d))
    });
    judge(c, &p, o, false);
}

/// Only how the messages are cut into records and segments changes
fn reframed(c: &mut Case, w: &World) {
    let auth = c.rng.bool();
    let p = pair(c, w, auth);
    let target = c.rng.below(2);
    let fr = Framing::random(&mut c.rng);
    let o = duel(c, &p, &mut |c, f, b| {
        if f != target {
            return None;
        }
        let (recs, _) = records(b);
        let mut out = vec![];
        for r in &recs {
            if r.typ == HS {
                let ver = if f == 0 { *c.rng.pick(&[0x301, 0x303]) } else { 0x303 };
                for x in fr.cut(&[r.body.clone()], &mut c.rng) {
                    out.extend(record_v(HS, ver, &x));
                }
            } else {
                out.extend(r.raw());
            }
        }
        Some((out, format!("reframed {fr:?}")))
    });
    judge(c, &p, o, true);
}

/// One structured change of a hello message; the result is still well-formed
fn edit_hello(c: &mut Case, m: &[u8], server: bool) -> Option<(Vec<u8>, String)> {
    let mut r = Rd::new(&m[4..]);
    let ver = r.take(2).ok()?.to_vec();
    let mut random = r.take(32).ok()?.to_vec();
    let mut sid = r.vec(1).ok()?.to_vec();
    let mut suites: Vec<u16> = if server { vec![r.num(2).ok()? as u16] } else { r.vec(2).ok()?.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect() };
    let comp = if server { r.take(1).ok()?.to_vec() } else { r.vec(1).ok()?.to_vec() };
    let mut er = Rd::new(r.vec(2).ok()?);
    let mut exts = vec![];
    while er.left() > 0 {
        let t = er.num(2).ok()? as u16;
        exts.push((t, er.vec(2).ok()?.to_vec()));
    }
    let n = exts.len();
    let k = c.rng.below(n);
    let what = match c.rng.below(if server { 8 } else { 16 }) {
        0 => {
            let i = c.rng.below(32);
            random[i] ^= 1 << c.rng.below(8);
            "random".to_string()
        }
        1 => {
            let how = c.rng.below(3);
            match how {
                0 if !sid.is_empty() => sid[0] ^= 1,
                1 => sid.clear(),
                _ => sid = c.rng.bytes(32),
            }
            format!("session id {how}")
        }
        2 => {
            // another supported suite
            if server {
                suites[0] = *c.rng.pick(&SUITES);
            } else {
                suites = vec![*c.rng.pick(&SUITES)];
            }
            format!("suite {:04x}", suites[0])
        }
        3 => {
            let e = exts.iter_mut().find(|e| e.0 == 0x33)?;
            let l = e.1.len();
            let how = c.rng.below(2);
            if how == 0 {
                let i = c.rng.range(l - 32, l - 1);
                e.1[i] ^= 1 << c.rng.below(8);
            } else {
                let s: [u8; 32] = c.rng.arr();
                e.1[l - 32..].copy_from_slice(&crate::ossl::x25519_public(&s));
            }
            format!("key share {how}")
        }
        4 => {
            if n < 2 {
                return None;
            }
            let j = (k + 1 + c.rng.below(n - 1)) % n;
            exts.swap(k, j);
            format!("order of extensions {:04x} {:04x}", exts[k].0, exts[j].0)
        }
        5 => {
            let t = *c.rng.pick(&[0x0a0au16, 0x0029, 0x002c, 0x1234, 0x0015, 0x002d, 0x0010]);
            let d = c.rng.bytes(3);
            exts.insert(k, (t, d));
            format!("inserted extension {t:04x}")
        }
        6 => {
            let e = exts[k].clone();
            exts.push(e.clone());
            format!("duplicated extension {:04x}", e.0)
        }
        7 => {
            let t = exts.remove(k).0;
            format!("removed extension {t:04x}")
        }
        8 => {
            suites.push(*c.rng.pick(&[0x1301u16, 0x1304, 0xc02b, 0x5600]));
            "suite added".into()
        }
        9 => {
            let j = c.rng.below(suites.len());
            suites.remove(j);
            "suite removed".into()
        }
        10 => {
            c.rng.shuffle(&mut suites);
            "order of suites".into()
        }
        11 => {
            let e = exts.iter_mut().find(|e| e.0 == 0x2b)?;
            e.1 = [vec![4], u16list(&[0x0304, 0x0303])[2..].to_vec()].concat();
            "versions".into()
        }
        12 => {
            let e = exts.iter_mut().find(|e| e.0 == 0x0d)?;
            e.1 = u16list(&[0x0403, 0x0804]);
            "signature algorithms".into()
        }
        13 => {
            let e = exts.iter_mut().find(|e| e.0 == 0x0a)?;
            e.1 = u16list(&[X25519, 0x17]);
            "groups".into()
        }
        14 => {
            match exts.iter_mut().find(|e| e.0 == 0) {
                Some(e) => e.1 = sni_ext("other.test"),
                None => exts.push((0, sni_ext("other.test"))),
            }
            "server name".into()
        }
        _ => {
            // another share in front
            let e = exts.iter_mut().find(|e| e.0 == 0x33)?;
            let own = e.1[6..].to_vec();
            let p = c.rng.bytes(65);
            e.1 = ks_client(&[(0x17, p), (X25519, own)]);
            "share of another group added".into()
        }
    };
    let mut b = ver;
    b.extend(random);
    b.extend(vec8(&sid));
    if server {
        b.extend(suites[0].to_be_bytes());
        b.extend(comp);
    } else {
        b.extend(u16list(&suites));
        b.extend(vec8(&comp));
    }
    b.extend(exts_body(&exts));
    let m2 = msg(if server { SH } else { CH }, &b);
    if m2 == m {
        return None;
    }
    Some((m2, what))
}
fn hellos(c: &mut Case, w: &World) {
    let auth = c.rng.one_in(3);
    let p = pair(c, w, auth);
    let target = c.rng.below(2);
    let o = duel(c, &p, &mut |c, f, b| {
        if f != target {
            return None;
        }
        let (recs, _) = records(b);
        let mut out = vec![];
        let mut what = String::new();
        for r in &recs {
            if r.typ == HS {
                let (m, d) = edit_hello(c, &r.body, f == 1).unwrap_or((r.body.clone(), "nothing".into()));
                out.extend(record(HS, &m));
                what = d;
            } else {
                out.extend(r.raw());
            }
        }
        Some((out, format!("{} {what}", ["ClientHello", "ServerHello"][f])))
    });
    judge(c, &p, o, false);
}

/// The attacker knows the handshake traffic keys but leaves the Finished as it was
fn inner(c: &mut Case, w: &World) {
    let auth = c.rng.one_in(2);
    let p = pair(c, w, auth);
    let target = if auth { c.rng.range(1, 2) } else { 1 };
    let control = c.rng.one_in(8);
    let fr = Framing::random(&mut c.rng);
    let evil = ident("server.test", None, &mut c.rng);
    let mut changed = true;
    let mut same = false;
    let mut suite = CHACHA;
    let mut transcript: Vec<u8> = vec![];
    let path = p.ks.clone();
    let o = duel(c, &p, &mut |c, f, b| {
        let (recs, _) = records(b);
        if f <= 1 {
            for r in recs.iter().filter(|r| r.typ == HS) {
                transcript.extend(&r.body);
            }
        }
        if f == 1 {
            if let Ok(i) = recs.iter().find(|r| r.typ == HS).map(|r| parse_server_hello(&r.body)).unwrap_or(Err(String::new())) {
                suite = i.suite;
            }
        }
        if f == 0 {
            return None;
        }
        let s = secret(&path, if f == 1 { "SERVER_HANDSHAKE_TRAFFIC_SECRET" } else { "CLIENT_HANDSHAKE_TRAFFIC_SECRET" })?;
        let mut d = Dir::new(suite, &s);
        let mut plain = vec![];
        let mut all = vec![];
        for r in &recs {
            if r.typ == APP {
                match d.open(r) {
                    Ok((HS, p, _)) => all.extend(p),
                    Ok((ALERT, _, _)) => return None,
                    x if f != target => {
                        let _ = x;
                        return None;
                    }
                    x => panic!("record of flight {f} does not open with the logged secret: {:?}", x.map(|x| x.0)),
                }
            } else {
                plain.extend(r.raw());
            }
        }
        let (ms, rest) = messages(&all);
        assert!(rest.is_empty());
        let mut ms: Vec<Vec<u8>> = ms.into_iter().map(|m| m.1).collect();
        if f == 1 && target != 1 {
            transcript.extend(&all);
            return None;
        }
        if f != target {
            return None;
        }
        let orig = ms.concat();
        let n = ms.len();
        let th = |t: &[u8], ms: &[Vec<u8>]| crate::ossl::digest(suite_ha(suite).unwrap().0, &[t.to_vec(), ms.concat()].concat());
        let pos = |ms: &[Vec<u8>], t: u8| ms.iter().position(|m| m[0] == t);
        let what = if control {
            "nothing".to_string()
        } else {
            let key: &EcKey = if f == 1 { &w.server.key } else { &w.client.key };
            match c.rng.below(14) {
                0 => {
                    // another valid signature of the same key
                    let i = pos(&ms, CV)?;
                    let t = th(&transcript, &ms[..i]);
                    ms[i] = cv_msg(0x403, &key.sign(&cv_digest(f == 1, &t)));
                    "CertificateVerify signed again".into()
                }
                1 => {
                    // the attacker's own certificate with a valid signature
                    let i = pos(&ms, CERT)?;
                    let ctx = parse_certificate(&ms[i]).map(|x| x.0).unwrap_or_default();
                    ms[i] = certificate_msg(&ctx, &[(evil.der.clone(), vec![])]);
                    let j = pos(&ms, CV)?;
                    let t = th(&transcript, &ms[..j]);
                    ms[j] = cv_msg(0x403, &evil.key.sign(&cv_digest(f == 1, &t)));
                    "certificate of the attacker, signed".into()
                }
                2 => {
                    let i = pos(&ms, CERT)?;
                    let (ctx, mut chain) = parse_certificate(&ms[i]).ok()?;
                    chain.push((w.ca.der.clone(), vec![]));
                    ms[i] = certificate_msg(&ctx, &chain);
                    let j = pos(&ms, CV)?;
                    let t = th(&transcript, &ms[..j]);
                    ms[j] = cv_msg(0x403, &key.sign(&cv_digest(f == 1, &t)));
                    "longer chain, signed again".into()
                }
                3 => {
                    let i = c.rng.below(n);
                    let l = ms[i].len();
                    let k = c.rng.below(l);
                    ms[i][k] ^= 1 << c.rng.below(8);
                    format!("bit of message {} byte {k}", ms[i][0])
                }
                4 => {
                    let i = c.rng.below(n);
                    let t = ms.remove(i)[0];
                    format!("message {t} removed")
                }
                5 => {
                    let i = c.rng.below(n);
                    let m = ms[i].clone();
                    ms.insert(i, m);
                    format!("message {} duplicated", ms[i][0])
                }
                6 => {
                    let i = c.rng.below(n);
                    let j = c.rng.below(n);
                    ms.swap(i, j);
                    format!("messages {} and {} swapped", ms[i][0], ms[j][0])
                }
                7 => {
                    let i = c.rng.below(n);
                    let m = match c.rng.below(4) {
                        0 => msg(NST, &[0, 0, 0, 9, 1, 2, 3, 4, 1, 7, 0, 2, 8, 8, 0, 0]),
                        1 => msg(KU, &[0]),
                        2 => msg(EE, &[0, 0]),
                        _ => {
                            let mut b = vec8(&[]);
                            b.extend(exts_body(&[(0x0d, u16list(&[0x0403]))]));
                            msg(CR, &b)
                        }
                    };
                    let t = m[0];
                    ms.insert(i, m);
                    format!("message {t} inserted before {}", ms[i + 1][0])
                }
                8 => {
                    let i = pos(&ms, EE)?;
                    ms[i] = msg(EE, &exts_body(&[(0x0a, u16list(&[X25519]))]));
                    let j = pos(&ms, CV)?;
                    let t = th(&transcript, &ms[..j]);
                    ms[j] = cv_msg(0x403, &key.sign(&cv_digest(true, &t)));
                    "EncryptedExtensions changed, signed again".into()
                }
                9 => {
                    let i = pos(&ms, CR)?;
                    ms[i][6] ^= 1;
                    let j = pos(&ms, CV)?;
                    let t = th(&transcript, &ms[..j]);
                    ms[j] = cv_msg(0x403, &key.sign(&cv_digest(true, &t)));
                    "CertificateRequest changed, signed again".into()
                }
                10 => {
                    let i = pos(&ms, CERT)?;
                    let j = pos(&ms, CV)?;
                    ms.remove(j);
                    ms.remove(i);
                    "Certificate and CertificateVerify removed".into()
                }
                _ => {
                    let i = pos(&ms, FIN)?;
                    let l = ms[i].len();
                    let mut how = "Finished changed".to_string();
                    match c.rng.below(6) {
                        0 => ms[i] = msg(FIN, &vec![0; l - 4]),
                        1 => ms[i] = msg(FIN, &[]),
                        _ => {
                            let (w, f) = crate::mutate::corrupt(&mut c.rng, &ms[i][4..]);
                            ms[i] = msg(FIN, &f);
                            how = format!("Finished changed: {w}");
                        }
                    }
                    how
                }
            }
        };
        // more behind the Finished is no longer part of the handshake
        changed = !ms.concat().starts_with(&orig);
        same = ms.concat() == orig;
        let mut d = Dir::new(suite, &s);
        let mut out = plain;
        let framing = if control { fr } else { Framing::PerMessage };
        for r in protect(&mut d, &ms, framing, 20, &mut c.rng) {
            out.extend(r);
        }
        Some((out, format!("inside of flight {f}: {what}")))
    });
    // what counts is the content behind the protection
    let mut o = o;
    if let Some((f, _)) = o.hit {
        o.hit = Some((f, changed));
    } else {
        // the chosen message doesn't occur in this flight
        return;
    }
    c.count(if changed { "changes under the keys" } else { "reprotected without a change" }, 1);
    judge(c, &p, o, same);
}

/// All suites: an honest reference on one side
fn with_reference(c: &mut Case, w: &World, srv: &Arc<ServerConnection>, cfg: &Arc<ClientConfig>) {
    let suite = SUITES[c.idx % 3];
    match c.idx / 3 % 3 {
        0 => {
            // ClientHello changed on its way to the server under test
            let mut h = Hello::new(&mut c.rng);
            h.suites = vec![suite];
            let ch = h.msg();
            let Some((bad, what)) = edit_hello(c, &ch, false) else { return };
            let mut e = Eut::new(Some(NOW));
            e.accept(srv);
            e.conn.feed(&record(HS, &bad));
            let st = e.wait(c);
            let out = e.conn.take();
            c.ev(format!("to server {what} {suite:04x} {}", label(&st)));
            c.count("against a reference", 1);
            if st.blocked() {
                if let Ok(mut s) = client_process(&out, &h, &ch) {
                    // a real client would go on
                    let fl = s.client_flight(None, &mut no_edit);
                    let mut d = s.c_hs.clone();
                    for r in protect(&mut d, &fl, Framing::PerMessage, 0, &mut c.rng) {
                        e.conn.feed(&r);
                    }
                    let st = e.wait(c);
                    c.fail("the reference client is content with a changed ClientHello", format!("{what}, suite {suite:04x}: server {}", label(&st)));
                }
            }
        }
        1 => {
            // ClientHello of the client under test changed on its way
            let Ok((mut e, _, raw)) = start_client(c, cfg, sim::Caps::All, sim::Caps::All, NOW) else { return };
            let Some((bad, what)) = edit_hello(c, &raw, false) else { return };
            let Ok(info) = parse_client_hello(&bad) else {
                c.evals(1);
                return;
            };
            let spec = ServerSpec::new(suite, &w.server, &mut c.rng);
            if !info.suites.contains(&suite) {
                return;
            }
            finish(c, &mut e, &spec, &info, &bad, None, format!("from client {what}"));
        }
        _ => {
            let Ok((mut e, info, raw)) = start_client(c, cfg, sim::Caps::All, sim::Caps::All, NOW) else { return };
            let spec = ServerSpec::new(suite, &w.server, &mut c.rng);
            let sh = server_hello_msg(&spec, &info);
            let Some((bad, what)) = edit_hello(c, &sh, true) else { return };
            finish(c, &mut e, &spec, &info, &raw, Some(bad), format!("ServerHello {what}"));
        }
    }
}
fn finish(c: &mut Case, e: &mut Eut, spec: &ServerSpec, info: &ClientHelloInfo, raw: &[u8], sh: Option<Vec<u8>>, what: String) {
    let Ok((s, plain, prot)) = server_flight(spec, info, raw, &mut no_edit) else {
        c.evals(1);
        return;
    };
    e.conn.feed(&record(HS, &sh.unwrap_or(plain[0].clone())));
    let mut d = s.s_hs.clone();
    for r in protect(&mut d, &prot, Framing::PerMessage, 0, &mut c.rng) {
        e.conn.feed(&r);
    }
    let mut st = e.wait(c);
    if st.blocked() {
        e.conn.eof();
        st = e.wait(c);
    }
    c.ev(format!("{what} {:04x} {}", spec.suite, label(&st)));
    c.count("against a reference", 1);
    if ok(&st) {
        c.fail("the client completes after a change", format!("{what}, suite {:04x}, reference server: {}", spec.suite, hexs(&e.conn.take())));
    }
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    // flights of other handshakes between the same parties
    let foreign = std::sync::Mutex::new(vec![]);
    r.group("recorded", 4, |c| {
        let p = pair(c, &w, c.idx % 2 == 0);
        let mut fl: Vec<Vec<u8>> = vec![];
        let o = duel(c, &p, &mut |_, f, b| {
            fl.push(b.to_vec());
            if f == 2 {
                return Some((b.to_vec(), "nothing".into()));
            }
            None
        });
        if fl.len() == 3 {
            foreign.lock().unwrap().push((c.idx, fl));
        }
        judge(c, &p, o, true);
    });
    let mut f = foreign.into_inner().unwrap();
    if f.len() < 4 && !r.is_replay() {
        return;
    }
    f.sort();
    let foreign: Vec<Vec<Vec<u8>>> = f.into_iter().map(|x| x.1).collect();
    r.group("reframed", r.n(200, 2000), |c| reframed(c, &w));
    r.group("bits", r.n(3000, 30000), |c| bits(c, &w));
    r.group("structure", r.n(1500, 15000), |c| structure(c, &w, &foreign));
    r.group("hellos", r.n(1500, 10000), |c| hellos(c, &w));
    r.group("inner", r.n(1500, 15000), |c| inner(c, &w));
    let srv = w.server(false);
    let cfg = w.client_cfg(false);
    r.group("reference", r.n(2000, 20000), |c| with_reference(c, &w, &srv, &cfg));
    r.require("changed handshakes", 3000);
    r.require("pairs with equal secrets", 100);
    r.require("changes under the keys", 500);
    r.require("against a reference", 500);
}
