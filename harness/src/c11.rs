//! C11: with a client CA configured only clients which prove an accepted certificate get in
use crate::der::{self, cn, int, pem64, sig_der, utc_time, CertSpec};
use crate::eut::*;
use crate::ossl::{self, Cert, EcKey, H};
use crate::rep::{hex, hexs, Case, Rep};
use crate::sim::{self, Caps, Eut, Res, Status};
use crate::tls::*;
use anothertls::utils::x509::X509;
use anothertls::ServerConnection;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const RULE: &str = "distinct = (order of the messages sent | kind and place of the flaw, suite, framing, server configuration, the server's result | shape of the admitted certificate)";

/// What the verify callback was asked, by the serial number it saw
struct Asked {
    deny: bool,
    calls: Vec<String>,
}
static ASKED: Mutex<Option<HashMap<String, Asked>>> = Mutex::new(None);
fn asked<T>(f: impl FnOnce(&mut HashMap<String, Asked>) -> T) -> T {
    let mut g = ASKED.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(HashMap::new))
}
/// Everything a verify callback can learn about the identity
fn identity(x: &X509) -> String {
    let t = &x.tbs_certificate;
    let mut o = format!("serial {:x}", t.serial_number);
    for (who, n) in [("subject", &t.subject), ("issuer", &t.issuer)] {
        for a in ["commonName", "countryName", "organizationName", "organizationalUnitName"] {
            if let Ok(v) = n.get(a) {
                o += &format!(" {who}.{a}={v}");
            }
        }
    }
    o + &format!(" key {}", hex(t.subject_public_key_info.subject_public_key.as_slice()))
}
/// Denies what the case asked to deny
fn callback(x: &X509) -> bool {
    let k = format!("{:x}", x.tbs_certificate.serial_number);
    let id = identity(x);
    asked(|m| match m.get_mut(&k) {
        Some(a) => {
            a.calls.push(id);
            !a.deny
        }
        None => {
            m.insert(k, Asked { deny: true, calls: vec![id] });
            false
        }
    })
}
fn serial_hex(der_int: &[u8]) -> String {
    let body = &der_int[2..];
    let h = hex(body);
    let t = h.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

struct Srv {
    srv: Arc<ServerConnection>,
    callback: bool,
    suite: u16,
}
struct Cl {
    s: Session,
    ctx: Vec<u8>,
}
/// Handshake up to the server's Finished
fn open(c: &mut Case, srv: &Arc<ServerConnection>, suite: u16) -> Option<(Eut, Cl)> {
    let mut e = Eut::new(Some(NOW));
    e.accept(srv);
    let mut h = Hello::new(&mut c.rng);
    h.suites = vec![suite];
    let ch = h.msg();
    e.conn.feed(&record_v(HS, 0x301, &ch));
    let st = e.wait(c);
    let out = e.conn.take();
    match client_process(&out, &h, &ch) {
        Ok(s) if st.blocked() => match &s.cert_request {
            Some((ctx, _)) => {
                let ctx = ctx.clone();
                Some((e, Cl { s, ctx }))
            }
            None => {
                c.fail("no certificate is asked for", format!("suite {suite:04x}: {}", hexs(&out)));
                None
            }
        },
        x => {
            c.inconclusive(&format!("first flight {st:?} {:?}", x.err()).chars().take(70).collect::<String>());
            None
        }
    }
}
#[derive(Clone)]
struct Who {
    chain: Vec<(Vec<u8>, Vec<u8>)>,
    key: Arc<EcKey>,
}
impl Cl {
    fn make(&mut self, c: &mut Case, who: &Who, kind: u8) -> Vec<u8> {
        match kind {
            CERT => certificate_msg(&self.ctx, &who.chain),
            CV => cv_msg(0x0403, &who.key.sign(&cv_digest(false, &self.s.th()))),
            FIN => msg(FIN, &finished(self.s.h, &self.s.secrets.chs, &self.s.th())),
            KU => msg(KU, &[0]),
            EE => msg(EE, &[0, 0]),
            k => {
                let n = c.rng.below(60);
                msg(k, &c.rng.bytes(n))
            }
        }
    }
}
fn verdict(c: &mut Case, e: &mut Eut) -> Status {
    let st = e.wait(c);
    if st.blocked() {
        e.conn.eof();
        return e.wait(c);
    }
    st
}
fn label(s: &Status) -> String {
    match s {
        Status::Done(Res::Ok(_)) => "admitted".into(),
        Status::Done(Res::Err(e)) => format!("{e:?}"),
        s => format!("{s:?}"),
    }
}
fn new_spec(c: &mut Case, key: &EcKey) -> CertSpec {
    let mut s = CertSpec::new("client.test", "Test CA", NOW - 5000, NOW + 5000, &key.public, &mut c.rng).bulk(13000, &mut c.rng);
    if c.rng.one_in(4) {
        s.tbs_alg = der::alg_ecdsa_sha384();
        s.outer_alg = s.tbs_alg.clone();
        c.count("certificates signed with SHA-384", 1);
    }
    s
}
/// A client whose certificate the CA signed
fn legit(c: &mut Case, w: &World) -> (Who, String) {
    let key = EcKey::random(&mut c.rng);
    let s = new_spec(c, &key);
    let k = serial_hex(&s.serial);
    (Who { chain: vec![(s.sign(&w.ca.key), vec![])], key: Arc::new(key) }, k)
}
fn expect(serial: &str, deny: bool) {
    asked(|m| m.insert(serial.into(), Asked { deny, calls: vec![] }));
}
fn calls(serial: &str) -> Vec<String> {
    asked(|m| m.remove(serial)).map(|a| a.calls).unwrap_or_default()
}

fn sequence(c: &mut Case, w: &World, srvs: &[Srv], seq: &[u8]) {
    let sv = &srvs[c.idx % srvs.len()];
    let Some((mut e, mut cl)) = open(c, &sv.srv, sv.suite) else { return };
    let (who, serial) = legit(c, w);
    expect(&serial, false);
    let mut payload = vec![];
    for k in seq {
        let m = cl.make(c, &who, *k);
        cl.s.transcript.extend(&m);
        payload.push(m);
    }
    let good = seq.starts_with(&[CERT, CV, FIN]);
    let exact = seq == [CERT, CV, FIN];
    let coalesced = c.rng.one_in(3);
    let mut d = cl.s.c_hs.clone();
    if coalesced {
        for p in Framing::Coalesced.cut(&payload, &mut c.rng) {
            e.conn.feed(&d.seal(HS, &p, 0));
        }
    } else {
        for m in &payload {
            e.conn.feed(&d.seal(HS, m, 0));
        }
    }
    let st = verdict(c, &mut e);
    let ok = matches!(&st, Status::Done(Res::Ok(_)));
    calls(&serial);
    c.ev(format!("{seq:?} {coalesced} {} {}", sv.callback, label(&st)));
    c.count(if exact { "correct sequences" } else { "wrong sequences" }, 1);
    if ok && !good {
        c.fail("admitted after a wrong message sequence", format!("suite {:04x}, handshake types {seq:?}, coalesced {coalesced}", sv.suite));
    } else if !ok && exact {
        c.fail("legitimate client refused", format!("suite {:04x}, handshake types {seq:?}: {}", sv.suite, label(&st)));
    }
}

const N: [u8; 32] = ossl::P256_N;

fn bad_cv(c: &mut Case, w: &World, cl: &Cl, who: &Who, stale: &[u8]) -> (String, Vec<u8>) {
    let th = cl.s.th();
    let key = &who.key;
    let good = key.sign(&cv_digest(false, &th));
    let sha = |v: &[u8]| ossl::digest(H::Sha256, v);
    let ctx = |spaces: usize, label: &str, th: &[u8]| [vec![0x20; spaces], label.as_bytes().to_vec(), th.to_vec()].concat();
    let mut one = [0u8; 32];
    one[31] = 1;
    let (name, sig): (&str, Vec<u8>) = match c.rng.below(24) {
        0 => ("key of another client of this CA", w.client.key.sign(&cv_digest(false, &th))),
        1 => ("random key", EcKey::random(&mut c.rng).sign(&cv_digest(false, &th))),
        2 => ("CA's key", w.ca.key.sign(&cv_digest(false, &th))),
        3 => ("server context", key.sign(&cv_digest(true, &th))),
        4 => ("another handshake", stale.to_vec()),
        5 => ("bare transcript hash", key.sign(&th[..32])),
        6 => ("without padding", key.sign(&sha(&ctx(0, "TLS 1.3, client CertificateVerify\0", &th)))),
        7 => ("without separator", key.sign(&sha(&ctx(64, "TLS 1.3, client CertificateVerify", &th)))),
        8 => ("65 spaces", key.sign(&sha(&ctx(65, "TLS 1.3, client CertificateVerify\0", &th)))),
        9 => ("other version label", key.sign(&sha(&ctx(64, "TLS 1.2, client CertificateVerify\0", &th)))),
        10 => {
            let t = &cl.s.transcript;
            let cut = c.rng.below(t.len());
            ("part of the transcript", key.sign(&cv_digest(false, &ossl::digest(cl.s.h, &t[..cut]))))
        }
        11 => ("zero r and s", sig_der(&[0], &[0])),
        12 => ("r = 0", sig_der(&[0], &one)),
        13 => ("s = 0", sig_der(&one, &[0])),
        14 => ("r = s = n", sig_der(&N, &N)),
        15 => ("r = s = 1", sig_der(&one, &one)),
        16 | 17 => {
            crate::mutate::corrupt(&mut c.rng, &good)
        }
        18 => {
            let mut s = good.clone();
            s.truncate(c.rng.below(s.len()));
            ("truncated", s)
        }
        19 => {
            let mut s = good.clone();
            let n = c.rng.range(1, 4);
            s.extend(c.rng.bytes(n));
            ("trailing bytes", s)
        }
        20 => ("empty", vec![]),
        21 => {
            let n = c.rng.range(60, 75);
            ("random bytes", c.rng.bytes(n))
        }
        22 => ("transcript without the certificate", {
            let t = &cl.s.transcript;
            let n = certificate_msg(&cl.ctx, &who.chain).len();
            key.sign(&cv_digest(false, &ossl::digest(cl.s.h, &t[..t.len() - n])))
        }),
        _ => ("signature of the certificate itself", {
            let d = &who.chain[0].0;
            // the BIT STRING at the end holds the CA's signature
            let at = (d.len() - 74).max(0);
            let p = d[at..].windows(2).position(|x| x[0] == 0x30).unwrap_or(0);
            d[at + p..].to_vec()
        }),
    };
    (format!("CertificateVerify: {name}"), cv_msg(0x0403, &sig))
}
fn bad_fin(c: &mut Case, cl: &Cl) -> (String, Vec<u8>) {
    let th = cl.s.th();
    let good = finished(cl.s.h, &cl.s.secrets.chs, &th);
    let (name, f): (&str, Vec<u8>) = match c.rng.below(12) {
        0..=2 => {
            crate::mutate::corrupt(&mut c.rng, &good)
        }
        3 => ("server's key", finished(cl.s.h, &cl.s.secrets.shs, &th)),
        4 => ("zeros", vec![0; good.len()]),
        5 => ("empty", vec![]),
        6 => ("truncated", good[..c.rng.below(good.len())].to_vec()),
        7 => ("extended", [good, vec![0]].concat()),
        8 => {
            let t = &cl.s.transcript;
            let cut = c.rng.below(t.len());
            ("part of the transcript", finished(cl.s.h, &cl.s.secrets.chs, &ossl::digest(cl.s.h, &t[..cut])))
        }
        9 => ("random", c.rng.bytes(good.len())),
        10 => ("application transcript", finished(cl.s.h, &cl.s.secrets.chs, &ossl::digest(cl.s.h, &cl.s.app_th))),
        _ => ("master secret", finished(cl.s.h, &cl.s.secrets.master, &th)),
    };
    (format!("Finished: {name}"), msg(FIN, &f))
}
/// A certificate that must not be accepted; the client owns its key
/// The DER signature in the BIT STRING at the end of a certificate
fn signature_of(d: &[u8]) -> &[u8] {
    let at = d.len() - 74;
    // an ECDSA P-256 signature has at most 72 bytes and its own length says where it begins
    let p = (at..d.len()).find(|&i| d[i] == 0x30 && d.get(i + 1).is_some_and(|n| *n as usize == d.len() - i - 2)).unwrap();
    &d[p..]
}
fn bad_cert(c: &mut Case, w: &World) -> (String, Vec<(Vec<u8>, Vec<u8>)>, EcKey, Option<String>) {
    let key = EcKey::random(&mut c.rng);
    let mut s = new_spec(c, &key);
    let one = |d: Vec<u8>| vec![(d, vec![])];
    let day = 86400;
    let mut deny = None;
    let (name, chain) = match c.rng.below(29) {
        0 => {
            s.not_after = utc_time(NOW - 1);
            ("expired a second ago", one(s.sign(&w.ca.key)))
        }
        1 => {
            s.not_before = utc_time(NOW - 800 * day);
            s.not_after = utc_time(NOW - c.rng.range(1, 700 * day as usize) as i64);
            ("expired", one(s.sign(&w.ca.key)))
        }
        2 => {
            s.not_before = utc_time(NOW + 1);
            ("valid in a second", one(s.sign(&w.ca.key)))
        }
        3 => {
            s.not_before = utc_time(NOW + c.rng.range(1, 700 * day as usize) as i64);
            s.not_after = utc_time(NOW + 900 * day);
            ("not yet valid", one(s.sign(&w.ca.key)))
        }
        4 => ("other CA of the same name", one(s.sign(&w.other_ca.key))),
        5 => ("random CA", one(s.sign(&EcKey::random(&mut c.rng)))),
        6 => ("self-signed", {
            s.issuer = cn("client.test");
            one(s.sign(&key))
        }),
        7 => ("self-signed with the CA's name", {
            s.subject = cn("Test CA");
            one(s.sign(&key))
        }),
        8 => {
            // issued by a client certificate
            ("issued by another client", vec![(s.sign(&w.client.key), vec![]), (w.client.der.clone(), vec![])])
        }
        9 | 10 => {
            // any bit of the signed part: the signature doesn't cover it any more
            let d = s.sign(&w.ca.key);
            let t = s.tbs();
            let at = d.windows(t.len()).position(|x| x == t).unwrap();
            let mut d = d;
            // not inside of the key: that would only change who owns it
            let i = c.rng.below(t.len());
            d[at + i] ^= 1 << c.rng.below(8);
            ("bit of the signed part flipped", one(d))
        }
        11 => {
            let good = s.sign(&w.ca.key);
            s.subject = cn("admin.test");
            let t = s.tbs();
            let _ = t;
            // the old signature under a new name
            let sig = good[good.len() - 72..].to_vec();
            let p = sig.iter().position(|x| *x == 0x30).unwrap_or(0);
            ("signature of another certificate", one(s.with_sig(&sig[p..])))
        }
        12 => ("zero signature", one(s.with_sig(&sig_der(&[0], &[0])))),
        13 => ("empty signature", one(s.with_sig(&[]))),
        26 => {
            // the CA's signature with something behind it, as OpenSSL refuses it
            let d = s.sign(&w.ca.key);
            let mut sig = signature_of(&d).to_vec();
            let n = c.rng.range(1, 8);
            sig.extend(if c.rng.bool() { vec![0; n] } else { c.rng.bytes(n) });
            ("bytes behind the CA's signature", one(s.with_sig(&sig)))
        }
        28 => {
            // a BIT STRING that isn't made of whole bytes is no signature, as OpenSSL has it
            let mut d = s.sign(&w.ca.key);
            let n = signature_of(&d).len();
            let at = d.len() - n - 1;
            d[at] = c.rng.range(1, 255) as u8;
            if c.rng.bool() {
                d[at] %= 8;
                d[at] += (d[at] == 0) as u8;
            }
            ("CA's signature with unused bits", one(d))
        }
        27 => {
            let d = s.sign(&w.ca.key);
            let (n, sig) = crate::mutate::corrupt(&mut c.rng, signature_of(&d));
            (n, one(s.with_sig(&sig)))
        }
        14 => {
            let r: [u8; 32] = c.rng.arr();
            let t: [u8; 32] = c.rng.arr();
            ("random signature", one(s.with_sig(&sig_der(&r, &t))))
        }
        15 => ("r = s = n", one(s.with_sig(&sig_der(&N, &N)))),
        16 => ("no certificate", vec![]),
        17 => ("empty certificate", one(vec![])),
        18 => {
            let n = c.rng.range(1, 400);
            ("garbage", one(c.rng.bytes(n)))
        }
        19 => {
            // the accepted certificate of somebody else behind the own one
            ("second certificate is the accepted one", vec![(s.sign(&w.other_ca.key), vec![]), (w.client.der.clone(), vec![])])
        }
        20 => ("accepted certificate of somebody else in front", vec![(w.client.der.clone(), vec![]), (s.sign(&w.ca.key), vec![])]),
        21 => {
            // signed over more / less than the signed part
            let mut t = s.tbs();
            let over = c.rng.below(3);
            match over {
                0 => t.push(0),
                1 => {
                    t.pop();
                }
                _ => t = t[4..].to_vec(),
            }
            let sig = w.ca.key.sign(&ossl::digest(H::Sha256, &t));
            ("signature over other bytes", one(s.with_sig(&sig)))
        }
        22 => {
            deny = Some(serial_hex(&s.serial));
            ("denied by the callback", one(s.sign(&w.ca.key)))
        }
        23 => {
            s.not_before = utc_time(NOW + 10);
            s.not_after = utc_time(NOW - 10);
            ("swapped dates", one(s.sign(&w.ca.key)))
        }
        24 => {
            let t: &[u8] = c.rng.pick(&[&b"291399000000Z"[..], b"", b"Z", b"2912310000Z", b"291231235959", b"aaaaaaaaaaaaZ", b"290229000000Z"]);
            s.not_after = der::tlv(0x17, t);
            ("malformed date", one(s.sign(&w.ca.key)))
        }
        _ => {
            // truncated or extended
            let mut d = s.sign(&w.ca.key);
            if c.rng.bool() {
                d.truncate(c.rng.below(d.len()));
            } else {
                // a second outer element, the real one inside
                d = der::seq(&[d]);
            }
            ("truncated or wrapped", one(d))
        }
    };
    (format!("Certificate: {name}"), chain, key, deny)
}

fn flaw(c: &mut Case, w: &World, srvs: &[Srv], stale: &[u8]) {
    let sv = c.rng.pick(srvs);
    let Some((mut e, mut cl)) = open(c, &sv.srv, sv.suite) else { return };
    let (mut who, serial) = legit(c, w);
    expect(&serial, false);
    let kind = c.rng.below(14);
    let pos = c.rng.below(3);
    let mut name = String::new();
    let mut deny = None;
    #[derive(PartialEq, Clone, Copy)]
    enum P {
        Hs,
        Plain,
        App,
        ServerHs,
        Other,
    }
    let mut out: Vec<(u8, Vec<u8>, P)> = vec![];
    let seq = [CERT, CV, FIN];
    let hide = if kind == 0 { Some(c.rng.below(2)) } else { None };
    for (i, k) in seq.iter().enumerate() {
        if *k == CERT && (5..=8).contains(&kind) {
            let (n, chain, key, d) = bad_cert(c, w);
            if d.is_some() && !sv.callback {
                calls(&serial);
                return;
            }
            name = n;
            who = Who { chain, key: Arc::new(key) };
            if let Some(d) = d {
                expect(&d, true);
                deny = Some(d);
            }
        }
        let mut m = cl.make(c, &who, *k);
        let mut p = P::Hs;
        match (kind, *k) {
            (1..=3, CV) => {
                let (n, b) = bad_cv(c, w, &cl, &who, stale);
                name = n;
                m = b;
            }
            (4, FIN) => {
                let (n, b) = bad_fin(c, &cl);
                name = n;
                m = b;
            }
            (9, CV) => {
                let s = *c.rng.pick(&[0x0503u16, 0x0603, 0x0804, 0x0401, 0x0807, 0x0203, 0x0000, 0x0402, 0x0a0a]);
                m = cv_msg(s, &who.key.sign(&cv_digest(false, &cl.s.th())));
                name = format!("signature scheme {s:04x}");
            }
            (10, CERT) => {
                let mut ctx = cl.ctx.clone();
                match c.rng.below(6) {
                    0 => ctx = vec![],
                    4 | 5 if ctx.len() >= 2 => ctx = crate::mutate::corrupt(&mut c.rng, &ctx).1,
                    1 => {
                        let i = c.rng.below(ctx.len().max(1));
                        if let Some(b) = ctx.get_mut(i) {
                            *b ^= 1 << c.rng.below(8);
                        }
                    }
                    2 => {
                        ctx.pop();
                    }
                    _ => ctx.push(0),
                }
                m = certificate_msg(&ctx, &who.chain);
                name = "context of another request".into();
            }
            (11, _) if i == pos => {
                p = *c.rng.pick(&[P::Plain, P::App, P::ServerHs, P::Other]);
                name = format!("message {k} {}", ["protected", "in the clear", "under application keys", "under the server's keys", "under other keys"][p as usize]);
            }
            _ => {}
        }
        if kind == 12 && i == pos {
            let (what, t, b, pp) = match c.rng.below(8) {
                0 => ("application data", APP, vec![1, 2, 3], P::Hs),
                1 => ("application data under application keys", APP, vec![1, 2, 3], P::App),
                2 => ("KeyUpdate", HS, cl.make(c, &who, KU), P::Hs),
                3 => ("EndOfEarlyData", HS, msg(5, &[]), P::Hs),
                4 => ("unknown message", HS, msg(c.rng.range(90, 200) as u8, &[]), P::Hs),
                5 => ("alert", ALERT, vec![2, 40], P::Hs),
                6 => ("plaintext alert", ALERT, vec![1, 0], P::Plain),
                _ => ("ClientHello", HS, Hello::new(&mut c.rng).msg(), P::Hs),
            };
            name = format!("{what} before message {k}");
            if t == HS {
                cl.s.transcript.extend(&b);
            }
            out.push((t, b, pp));
        }
        if kind == 13 && i == pos {
            name = format!("connection ends before message {k}");
            break;
        }
        if hide == Some(i) {
            let h = match *k {
                CERT => certificate_msg(&cl.ctx, &[who.chain[0].clone(), (w.ca.der.clone(), vec![])]),
                _ => {
                    let h = cv_msg(0x0403, &who.key.sign(&cv_digest(false, &cl.s.th())));
                    if h == m {
                        return;
                    }
                    h
                }
            };
            name = format!("message {k} altered behind the sender's back");
            out.push((HS, h, p));
        } else {
            out.push((HS, m.clone(), p));
        }
        cl.s.transcript.extend(&m);
    }
    let (mut hs, mut ap, mut sh) = (cl.s.c_hs.clone(), cl.s.c_ap.clone(), cl.s.s_hs.clone());
    let mut other = Dir::new(sv.suite, &vec![0; cl.s.h.len()]);
    e.conn.set_caps(Caps::random(&mut c.rng), Caps::All);
    let fr = Framing::random(&mut c.rng);
    for (t, m, p) in &out {
        let cuts = if *t == HS { fr.cut(&[m.clone()], &mut c.rng) } else { vec![m.clone()] };
        for x in cuts {
            let r = match p {
                P::Hs => hs.seal(*t, &x, 0),
                P::Plain => record(*t, &x),
                P::App => ap.seal(*t, &x, 0),
                P::ServerHs => sh.seal(*t, &x, 0),
                P::Other => other.seal(*t, &x, 0),
            };
            e.conn.feed(&r);
        }
    }
    let st = verdict(c, &mut e);
    calls(&serial);
    if let Some(d) = deny {
        let n = calls(&d).len();
        c.check(n == 1, "callback calls", || format!("{name}: the callback was asked {n} times"));
    }
    c.ev(format!("{name} {:04x} {} {}", sv.suite, sv.callback, label(&st)));
    c.count(name.split(':').next().unwrap().split(" before").next().unwrap(), 1);
    match &st {
        Status::Done(Res::Err(_)) => {}
        Status::Done(Res::Ok(_)) => c.fail("admitted without proof", format!("suite {:04x}, callback {}, {fr:?}: {name}; certificate {}", sv.suite, sv.callback, who.chain.first().map(|x| hex(&x.0)).unwrap_or_default())),
        s => c.fail("no verdict", format!("{name}: {s:?}")),
    }
    c.sample(&name, || format!("{name}: {}", label(&st)));
}

/// A refused message is not made good by sending it again, rightly this time. Whether the refused
/// messages count in the transcript is up to the sender: all choices are tried
fn again(c: &mut Case, w: &World, srvs: &[Srv], stale: &[u8]) {
    let sv = c.rng.pick(srvs);
    let Some((mut e, mut cl)) = open(c, &sv.srv, sv.suite) else { return };
    let (genuine, serial) = legit(c, w);
    expect(&serial, false);
    let wrong = *c.rng.pick(&[CERT, CERT, CV, CV, FIN]);
    let all = [CERT, CV, FIN];
    let at = all.iter().position(|k| *k == wrong).unwrap();
    let mut seq: Vec<(u8, bool)> = all[..at].iter().map(|k| (*k, true)).collect();
    for _ in 0..c.rng.range(1, 2) {
        seq.push((wrong, false));
        if wrong == CERT && c.rng.bool() {
            // the CertificateVerify that belongs to it
            seq.push((CV, true));
        }
    }
    let last = seq.iter().rposition(|(_, r)| !r).unwrap();
    let from = if wrong == CERT { c.rng.below(2) } else { c.rng.below(at + 1) };
    seq.extend(all[from..].iter().map(|k| (*k, true)));
    let counted = c.rng.bool();
    let mut who = Who { chain: genuine.chain.clone(), key: genuine.key.clone() };
    let mut out = vec![];
    let mut name = String::new();
    let mut denied = vec![];
    for (i, (k, right)) in seq.iter().enumerate() {
        if i > last + 1 || (i == last + 1 && *k != CV) || c.rng.one_in(3) {
            who = Who { chain: genuine.chain.clone(), key: genuine.key.clone() };
        }
        let m;
        if *right {
            m = cl.make(c, &who, *k);
            if name.is_empty() || counted || i > last {
                cl.s.transcript.extend(&m);
            }
        } else {
            let (n, b) = match wrong {
                CERT => loop {
                    let (n, chain, key, d) = bad_cert(c, w);
                    if d.is_some() && !sv.callback {
                        continue;
                    }
                    if let Some(d) = d {
                        expect(&d, true);
                        denied.push(d);
                    }
                    who = Who { chain, key: Arc::new(key) };
                    break (n, cl.make(c, &who, CERT));
                },
                CV => bad_cv(c, w, &cl, &who, stale),
                _ => bad_fin(c, &cl),
            };
            name = n;
            m = b;
            if counted {
                cl.s.transcript.extend(&m);
            }
        }
        out.push(m);
    }
    e.conn.set_caps(Caps::random(&mut c.rng), Caps::All);
    let fr = *c.rng.pick(&[Framing::PerMessage, Framing::PerMessage, Framing::Coalesced]);
    let mut hs = cl.s.c_hs.clone();
    for r in protect(&mut hs, &out, fr, 0, &mut c.rng) {
        e.conn.feed(&r);
    }
    let st = verdict(c, &mut e);
    calls(&serial);
    for d in denied {
        calls(&d);
    }
    let kinds: Vec<String> = seq.iter().map(|(k, r)| format!("{k}{}", if *r { "" } else { "!" })).collect();
    c.ev(format!("again {name} {kinds:?} {counted} {fr:?} {:04x} {} {}", sv.suite, sv.callback, label(&st)));
    c.count("refused messages sent again", 1);
    match &st {
        Status::Done(Res::Err(_)) => {}
        Status::Done(Res::Ok(_)) => c.fail(
            "admitted after a refused message",
            format!("suite {:04x}, callback {}, {fr:?}, handshake types {kinds:?} (! = {name}), in the transcript: {counted}", sv.suite, sv.callback),
        ),
        s => c.fail("no verdict", format!("{kinds:?} {name}: {s:?}")),
    }
    c.sample(&format!("again {}", name.split(':').next().unwrap()), || format!("{kinds:?} {name}: {}", label(&st)));
}

/// Every client which satisfies the conditions is admitted, and the callback gets its identity
fn admitted(c: &mut Case, w: &World, srvs: &[Srv]) {
    let sv = c.rng.pick(srvs);
    let Some((mut e, mut cl)) = open(c, &sv.srv, sv.suite) else { return };
    let key = match c.rng.below(6) {
        0 => {
            let mut s = [0u8; 32];
            s[31] = c.rng.range(1, 255) as u8;
            EcKey::from_secret(s)
        }
        1 => loop {
            let k = EcKey::random(&mut c.rng);
            if k.public[1] == 0 || k.public[33] == 0 {
                break k;
            }
        },
        _ => EcKey::random(&mut c.rng),
    };
    let mut s = new_spec(c, &key);
    let mut shape = vec![];
    let n = *c.rng.pick(&[16usize, 4, 8, 19, 20]);
    let mut sn = c.rng.bytes(n);
    sn[0] = (sn[0] & 0x7f) | 1;
    s.serial = int(&sn);
    shape.push(format!("serial {n}"));
    match c.rng.below(5) {
        0 => {
            s.not_before = utc_time(NOW);
            shape.push("from now".into());
        }
        1 => {
            s.not_after = utc_time(NOW);
            shape.push("until now".into());
        }
        2 => {
            s.not_before = utc_time(NOW);
            s.not_after = utc_time(NOW);
            shape.push("only now".into());
        }
        _ => {
            s.not_before = utc_time(NOW - c.rng.range(0, 1_500_000_000) as i64);
            s.not_after = utc_time(NOW + c.rng.range(0, 800_000_000) as i64);
        }
    }
    // names
    let word = |c: &mut Case| -> Vec<u8> {
        let n = c.rng.range(1, 40);
        (0..n).map(|_| *c.rng.pick(b"abcdefghijklmnopqrstuvwxyzABCDEF0123456789 .-")).collect()
    };
    // every character of the identity counts
    let odd = |c: &mut Case, tag: u8, mut v: Vec<u8>| -> (u8, Vec<u8>) {
        if tag == 0x0c && c.rng.one_in(3) {
            for _ in 0..c.rng.range(1, 3) {
                let x = *c.rng.pick(&["\0", "\0", " ", "\t", "\n", "\r\n", "\u{7f}", "\u{a0}", "\u{200b}", "\u{202e}", "\u{feff}", "\u{fffd}", "\u{e9}", "\u{1f600}", "A", "\0.example"]);
                let at = *c.rng.pick(&[0, v.len(), v.len()]);
                v.splice(at..at, x.bytes());
            }
        }
        (tag, v)
    };
    let mut name: der::Name = vec![];
    for oid in ["2.5.4.6", "2.5.4.8", "2.5.4.7", "2.5.4.10", "2.5.4.11"] {
        if c.rng.one_in(3) {
            let v = if oid == "2.5.4.6" { b"DE".to_vec() } else { word(c) };
            let tag = *c.rng.pick(&[0x0c, 0x13]);
            let (tag, v) = odd(c, tag, v);
            name.push((oid, tag, v));
        }
    }
    let (tag, v) = (*c.rng.pick(&[0x0c, 0x13]), word(c));
    let (tag, v) = odd(c, tag, v);
    name.push(("2.5.4.3", tag, v));
    if c.rng.bool() {
        c.rng.shuffle(&mut name);
    }
    shape.push(format!("{:?}", name.iter().map(|n| n.0).collect::<Vec<_>>()));
    s.subject = name;
    let extra = *c.rng.pick(&[0usize, 0, 10, 300, 5000, 20000, 60000]);
    if extra > 0 {
        let x = der::ext("2.16.840.1.113730.1.13", None, &der::tlv(0x16, &vec![b'x'; extra]));
        s.extensions = Some(vec![x]);
        shape.push(format!("extension {extra}"));
    }
    let ca_itself = c.rng.one_in(25);
    let d = if c.rng.one_in(4) {
        let n = *c.rng.pick(&der::cert_sizes());
        match der::sign_sized(&s, &w.ca.key, n) {
            Some(d) => {
                shape.push(format!("{n} bytes"));
                c.count("certificates of exact sizes", 1);
                d
            }
            None => s.sign(&w.ca.key),
        }
    } else {
        s.sign(&w.ca.key)
    };
    let serial = serial_hex(&s.serial);
    let mut who = Who { chain: vec![(d.clone(), vec![])], key: Arc::new(key) };
    let mut d = d;
    let mut wait_serial = serial.clone();
    if ca_itself {
        who = Who { chain: vec![(w.ca.der.clone(), vec![])], key: Arc::new(EcKey::from_secret(w.ca.key.secret)) };
        d = w.ca.der.clone();
        shape = vec!["the CA itself".into()];
        wait_serial = String::new();
    } else if c.rng.one_in(3) {
        who.chain.push((w.ca.der.clone(), vec![]));
        shape.push("chain".into());
    }
    if sv.callback && ca_itself {
        // concurrent cases share this serial number
        return;
    }
    expect(&serial, false);
    let mut payload = vec![];
    for k in [CERT, CV, FIN] {
        let m = cl.make(c, &who, k);
        cl.s.transcript.extend(&m);
        payload.push(m);
    }
    e.conn.set_caps(Caps::random(&mut c.rng), Caps::All);
    let fr = Framing::random(&mut c.rng);
    let mut dd = cl.s.c_hs.clone();
    if c.rng.bool() {
        e.conn.feed(&record(CCS, &[1]));
    }
    let pad = *c.rng.pick(&[0, 0, 30, 2000]);
    for r in protect(&mut dd, &payload, fr, pad, &mut c.rng) {
        e.conn.feed(&r);
    }
    let st = e.wait(c);
    let got = calls(&serial);
    let ctx = format!("suite {:04x}, callback {}, {fr:?}, {shape:?}, certificate {}", sv.suite, sv.callback, hexs(&d));
    if !matches!(&st, Status::Done(Res::Ok(_))) {
        c.fail("legitimate client refused", format!("{ctx}: {}", label(&st)));
        return;
    }
    c.count("admitted clients", 1);
    if s.outer_alg == der::alg_ecdsa_sha384() && !ca_itself {
        c.count("admitted clients with SHA-384", 1);
    }
    if sv.callback && !wait_serial.is_empty() {
        c.count("identities seen by the callback", 1);
        let info = Cert::parse(&d).unwrap().0.info();
        let mut want = format!("serial {serial}");
        let long = [("2.5.4.3", "commonName"), ("2.5.4.6", "countryName"), ("2.5.4.10", "organizationName"), ("2.5.4.11", "organizationalUnitName")];
        for (who, n) in [("subject", &info.subject), ("issuer", &info.issuer)] {
            for (s, l) in long {
                for (_, v) in n.iter().filter(|x| x.0 == s) {
                    want += &format!(" {who}.{l}={v}");
                }
            }
        }
        want += &format!(" key {}", hex(&info.pubkey.clone().unwrap_or_default()));
        if got != [want.clone()] {
            c.fail("identity in the callback", format!("{ctx}: the callback saw {got:?}, the certificate says {want}"));
            return;
        }
    }
    // the connection belongs to this client
    let data = b"hello from the authenticated client";
    let r = cl.s.c_ap.seal(APP, data, 0);
    e.conn.feed(&r);
    e.read(100);
    let st = e.wait(c);
    c.check(matches!(&st, Status::Done(Res::Ok(d)) if d == data), "data", || format!("{ctx}: {st:?}"));
    c.ev(format!("{shape:?} {fr:?} {:04x} {}", sv.suite, sv.callback));
    c.sample("admitted", || ctx);
}

/// Sends the client's second flight; the verdict and whether it is admitted
fn present(c: &mut Case, sv: &Srv, chain: &[(Vec<u8>, Vec<u8>)], cv: &dyn Fn(&Cl) -> Vec<u8>) -> Option<(Status, Vec<Vec<u8>>)> {
    let (mut e, mut cl) = open(c, &sv.srv, sv.suite)?;
    let mut ms = vec![certificate_msg(&cl.ctx, chain)];
    cl.s.transcript.extend(&ms[0]);
    ms.push(cv(&cl));
    cl.s.transcript.extend(&ms[1]);
    ms.push(msg(FIN, &finished(cl.s.h, &cl.s.secrets.chs, &cl.s.th())));
    let mut d = cl.s.c_hs.clone();
    for r in protect(&mut d, &ms, Framing::random(&mut c.rng), 0, &mut c.rng) {
        e.conn.feed(&r);
    }
    Some((verdict(c, &mut e), ms))
}
/// What was accepted or refused before has no influence: impostors of a client which was admitted,
/// and clients after impostors of them
fn history(c: &mut Case, w: &World, srvs: &[Srv]) {
    let sv = c.rng.pick(srvs);
    let key = EcKey::random(&mut c.rng);
    let s = new_spec(c, &key);
    let serial = serial_hex(&s.serial);
    expect(&serial, false);
    let good = s.sign(&w.ca.key);
    let honest = |c: &mut Case, sv: &Srv| present(c, sv, &[(good.clone(), vec![])], &|cl| cv_msg(0x0403, &key.sign(&cv_digest(false, &cl.s.th()))));
    let mut last: Option<Vec<Vec<u8>>> = None;
    let evil = EcKey::random(&mut c.rng);
    let steps = c.rng.range(2, 5);
    let mut trace = vec![];
    for i in 0..steps {
        // the same server, or another one of the process which trusts the same CA
        let sv = if c.rng.one_in(3) { c.rng.pick(srvs) } else { sv };
        if i == 0 && c.rng.bool() || c.rng.one_in(3) {
            let Some((st, ms)) = honest(c, sv) else { break };
            trace.push("client".to_string());
            if !matches!(&st, Status::Done(Res::Ok(_))) {
                c.fail("legitimate client refused", format!("history {trace:?}: {}", label(&st)));
                break;
            }
            c.count("admitted again", (i > 0) as u64);
            last = Some(ms);
            continue;
        }
        let sig = {
            let p = good.len() - 74;
            let at = p + good[p..].windows(2).position(|x| x[0] == 0x30 && x[1] > 0x40).unwrap_or(0);
            good[at..].to_vec()
        };
        let cases = c.rng.below(9);
        let mut k = &evil;
        let mut b = CertSpec { ..s.clone() };
        let (what, chain): (&str, Vec<u8>) = match cases {
            0 => {
                // the same names, number and dates with the attacker's key and the old signature
                b.spki = der::spki(&evil.public);
                ("own key, signature of the genuine certificate", b.with_sig(&sig))
            }
            1 => {
                b.spki = der::spki(&evil.public);
                ("own key, signed by another CA of the same name", b.sign(&w.other_ca.key))
            }
            2 => {
                b.spki = der::spki(&evil.public);
                ("own key, signed by itself", b.sign(&evil))
            }
            3 => ("genuine certificate without its key", good.clone()),
            4 => {
                k = &key;
                b.not_after = utc_time(NOW - 1);
                ("genuine key and number, expired", b.sign(&w.ca.key))
            }
            5 => {
                k = &key;
                b.not_before = utc_time(NOW + 1);
                ("genuine key and number, not yet valid", b.sign(&w.ca.key))
            }
            6 => {
                k = &key;
                b.subject = cn("admin.test");
                ("another subject, signature of the genuine certificate", b.with_sig(&sig))
            }
            7 => {
                k = &key;
                // the same signed part, another signature
                let (_, x) = crate::mutate::corrupt(&mut c.rng, &sig);
                ("genuine certificate, corrupt signature", b.with_sig(&x))
            }
            _ => ("replay of the genuine client's flight", good.clone()),
        };
        let old = last.clone();
        let r = match (cases, &old) {
            (8, None) => continue,
            (8, Some(ms)) => present(c, sv, &[(good.clone(), vec![])], &|_| ms[1].clone()),
            _ => present(c, sv, &[(chain.clone(), vec![])], &|cl| cv_msg(0x0403, &k.sign(&cv_digest(false, &cl.s.th())))),
        };
        let Some((st, _)) = r else { break };
        trace.push(what.to_string());
        match &st {
            Status::Done(Res::Err(_)) => {
                c.count("impostors refused", 1);
                c.count("impostors of an admitted client refused", last.is_some() as u64);
            }
            Status::Done(Res::Ok(_)) => {
                c.fail("admitted without proof", format!("suite {:04x}, callback {}, history {trace:?}; certificate {}", sv.suite, sv.callback, hex(&chain)));
                break;
            }
            x => {
                c.fail("no verdict", format!("{trace:?}: {x:?}"));
                break;
            }
        }
    }
    calls(&serial);
    c.ev(format!("history {trace:?} {:04x} {}", sv.suite, sv.callback));
    c.sample("history", || format!("{trace:?}"));
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    let mut srvs = vec![];
    for callback_on in [true, false] {
        for suite in SUITES {
            let mut b = w.server_builder().add_client_cert_ca(w.ca_cert.clone());
            if callback_on {
                b = b.set_client_cert_custom_verify_fn(callback);
            }
            srvs.push(Srv { srv: sim::server(b.build().expect("config")), callback: callback_on, suite });
        }
    }
    let _ = pem64;
    let kinds = [CERT, CV, FIN, EE, KU];
    let mut seqs: Vec<Vec<u8>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..r.n(5, 6) {
        let mut next = vec![];
        for s in &last {
            if s.starts_with(&[CERT, CV, FIN]) {
                continue;
            }
            for k in kinds {
                let mut t = s.clone();
                t.push(k);
                next.push(t);
            }
        }
        seqs.extend(next.clone());
        last = next;
    }
    r.group("sequences", seqs.len(), |c| sequence(c, &w, &srvs, &seqs[c.idx]));
    let stale = w.client.key.sign(&cv_digest(false, &ossl::digest(H::Sha256, b"another handshake")));
    r.group("flaws", r.n(6000, 100_000), |c| flaw(c, &w, &srvs, &stale));
    r.group("again", r.n(4000, 80_000), |c| again(c, &w, &srvs, &stale));
    r.require("refused messages sent again", 3000);
    r.group("admitted", r.n(1500, 25000), |c| admitted(c, &w, &srvs));
    r.group("history", r.n(1000, 20000), |c| history(c, &w, &srvs));
    r.require("impostors of an admitted client refused", 300);
    r.require("admitted again", 100);
    r.require("correct sequences", 1);
    r.require("wrong sequences", 1000);
    r.require("admitted clients", 500);
    r.require("admitted clients with SHA-384", 10);
    r.require("identities seen by the callback", 200);
    for k in ["CertificateVerify", "Finished", "Certificate"] {
        r.require(k, 300);
    }
}
