//! C10: the client never completes with a server that has not proved its key
use crate::der::{self, sig_der, CertSpec};
use crate::eut::*;
use crate::ossl::{self, EcKey, H};
use crate::rep::{hexs, Case, Rep};
use crate::sim::{Caps, Eut, Res, Status};
use crate::tls::*;
use anothertls::net::client::ClientConfig;
use std::sync::Arc;

pub const RULE: &str = "distinct = (order of the messages sent | kind and place of the flaw, suite, certificate request, framing, the client's error)";

/// Opens the handshake: ServerHello done, ready to send protected messages
struct Srv<'a> {
    spec: ServerSpec<'a>,
    s: Session,
    plain: Vec<u8>,
}
fn open<'a>(c: &mut Case, w: &'a World, cfg: &Arc<ClientConfig>, suite: u16) -> Option<(Eut, Srv<'a>)> {
    let (eut, info, raw) = match start_client(c, cfg, Caps::All, Caps::All, NOW) {
        Ok(x) => x,
        Err(e) => {
            c.inconclusive(&e.chars().take(60).collect::<String>());
            return None;
        }
    };
    let spec = ServerSpec::new(suite, &w.server, &mut c.rng);
    let (mut s, plain, _) = server_flight(&spec, &info, &raw, &mut no_edit).unwrap();
    s.transcript = [raw, plain[0].clone()].concat();
    Some((eut, Srv { spec, s, plain: plain[0].clone() }))
}
impl Srv<'_> {
    /// The honest message of a kind for the transcript so far
    fn make(&mut self, c: &mut Case, kind: u8) -> Vec<u8> {
        match kind {
            EE => msg(EE, &[0, 0]),
            CR => {
                let mut b = vec8(&[]);
                b.extend(exts_body(&[(0x0d, u16list(&[0x0403]))]));
                self.s.cert_request = Some((vec![], vec![]));
                msg(CR, &b)
            }
            CERT => certificate_msg(&[], &self.spec.chain),
            CV => cv_msg(0x0403, &self.spec.key.sign(&cv_digest(true, &self.s.th()))),
            FIN => msg(FIN, &finished(self.s.h, &self.s.secrets.shs, &self.s.th())),
            NST => msg(NST, &[0, 0, 0, 9, 1, 2, 3, 4, 1, 7, 0, 2, 8, 8, 0, 0]),
            KU => msg(KU, &[0]),
            k => {
                let n = c.rng.below(60);
                msg(k, &c.rng.bytes(n))
            }
        }
    }
}
fn good(seq: &[u8]) -> bool {
    seq.starts_with(&[EE, CERT, CV, FIN]) || seq.starts_with(&[EE, CR, CERT, CV, FIN])
}
fn verdict(c: &mut Case, eut: &mut Eut) -> Status {
    let st = eut.wait(c);
    if st.blocked() {
        eut.conn.eof();
        return eut.wait(c);
    }
    st
}
fn label(s: &Status) -> String {
    match s {
        Status::Done(Res::Ok(_)) => "completed".into(),
        Status::Done(Res::Err(e)) => format!("{e:?}"),
        s => format!("{s:?}"),
    }
}

/// Message sequences in which every message is right by itself: valid signature, valid Finished
fn sequence(c: &mut Case, w: &World, cfg: &Arc<ClientConfig>, seq: &[u8]) {
    let suite = SUITES[c.idx % 3];
    let Some((mut eut, mut sv)) = open(c, w, cfg, suite) else { return };
    eut.conn.feed(&record(HS, &sv.plain));
    let coalesced = c.rng.one_in(3);
    let mut payload = vec![];
    for k in seq {
        let m = sv.make(c, *k);
        sv.s.transcript.extend(&m);
        payload.push(m);
    }
    let mut d = sv.s.s_hs.clone();
    if coalesced && !(good(seq) && seq[seq.len() - 1] != FIN) {
        for p in Framing::Coalesced.cut(&payload, &mut c.rng) {
            eut.conn.feed(&d.seal(HS, &p, 0));
        }
    } else {
        for m in &payload {
            eut.conn.feed(&d.seal(HS, m, 0));
        }
    }
    let st = verdict(c, &mut eut);
    let ok = matches!(&st, Status::Done(Res::Ok(_)));
    c.ev(format!("{seq:?} {coalesced} {}", label(&st)));
    let mut may = good(seq);
    let must = may;
    if coalesced && good(seq) {
        // trailing messages in the same record are refused
        may = true;
    }
    c.count(if must { "correct sequences" } else { "wrong sequences" }, 1);
    if ok && !may {
        c.fail("completed with a wrong message sequence", format!("suite {suite:04x}, handshake types {seq:?}, coalesced {coalesced}"));
    } else if !ok && must && seq.len() == (if seq[1] == CR { 5 } else { 4 }) {
        c.fail("correct sequence refused", format!("suite {suite:04x}, handshake types {seq:?}: {}", label(&st)));
    }
    if !ok {
        c.sample(&label(&st), || format!("{seq:?}: {}", label(&st)));
    }
}

const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63,
    0x25, 0x51,
];

/// A signature which doesn't prove possession of the key for this handshake
fn bad_cv(c: &mut Case, w: &World, sv: &Srv, stale: &[u8]) -> (String, Vec<u8>) {
    let th = sv.s.th();
    let good = sv.spec.key.sign(&cv_digest(true, &th));
    let ctx = |head: &[u8], th: &[u8]| {
        let mut v = head.to_vec();
        v.extend_from_slice(th);
        v
    };
    let sha = |v: &[u8]| ossl::digest(H::Sha256, v);
    let k = c.rng.below(22);
    let one = {
        let mut o = [0u8; 32];
        o[31] = 1;
        o
    };
    let (name, sig): (&str, Vec<u8>) = match k {
        0 => ("other key", w.client.key.sign(&cv_digest(true, &th))),
        1 => ("random key", EcKey::random(&mut c.rng).sign(&cv_digest(true, &th))),
        2 => ("client context", sv.spec.key.sign(&cv_digest(false, &th))),
        3 => ("from another handshake", stale.to_vec()),
        4 => ("bare transcript hash", sv.spec.key.sign(&th[..32])),
        5 => ("transcript hash hashed", sv.spec.key.sign(&sha(&th))),
        6 => ("without padding", sv.spec.key.sign(&sha(&ctx(b"TLS 1.3, server CertificateVerify\0", &th)))),
        7 => {
            let mut h = vec![0x20; 64];
            h.extend_from_slice(b"TLS 1.3, server CertificateVerify");
            ("without separator", sv.spec.key.sign(&sha(&ctx(&h, &th))))
        }
        8 => {
            let mut h = vec![0x20; 63];
            h.extend_from_slice(b"TLS 1.3, server CertificateVerify\0");
            ("63 spaces", sv.spec.key.sign(&sha(&ctx(&h, &th))))
        }
        9 => {
            let mut h = vec![0x20; 64];
            h.extend_from_slice(b"TLS 1.2, server CertificateVerify\0");
            ("other version label", sv.spec.key.sign(&sha(&ctx(&h, &th))))
        }
        10 => {
            // signs the transcript without the certificate
            let t = &sv.s.transcript;
            let cut = c.rng.below(t.len());
            ("part of the transcript", sv.spec.key.sign(&cv_digest(true, &ossl::digest(sv.s.h, &t[..cut]))))
        }
        11 => ("zero r and s", sig_der(&[0], &[0])),
        12 => ("r = 0", sig_der(&[0], &one)),
        13 => ("s = 0", sig_der(&one, &[0])),
        14 => ("r = s = n", sig_der(&N, &N)),
        15 => ("r = s = 1", sig_der(&one, &one)),
        16 => {
            crate::mutate::corrupt(&mut c.rng, &good)
        }
        17 => {
            let mut s = good.clone();
            s.truncate(c.rng.below(s.len()));
            ("truncated", s)
        }
        18 => {
            let mut s = good.clone();
            let n = c.rng.range(1, 4);
            s.extend(c.rng.bytes(n));
            ("trailing bytes", s)
        }
        19 => ("empty", vec![]),
        20 => {
            let n = c.rng.range(60, 75);
            ("random bytes", c.rng.bytes(n))
        }
        _ => {
            let t: [u8; 32] = c.rng.arr();
            let u: [u8; 32] = c.rng.arr();
            ("random r and s", sig_der(&t, &u))
        }
    };
    (format!("CertificateVerify: {name}"), cv_msg(0x0403, &sig))
}
fn bad_fin(c: &mut Case, sv: &Srv) -> (String, Vec<u8>) {
    let th = sv.s.th();
    let good = finished(sv.s.h, &sv.s.secrets.shs, &th);
    let (name, f): (&str, Vec<u8>) = match c.rng.below(11) {
        0..=2 => {
            crate::mutate::corrupt(&mut c.rng, &good)
        }
        3 => ("client's key", finished(sv.s.h, &sv.s.secrets.chs, &th)),
        4 => ("zeros", vec![0; good.len()]),
        5 => ("empty", vec![]),
        6 => ("truncated", good[..c.rng.below(good.len())].to_vec()),
        7 => ("extended", [good, vec![0]].concat()),
        8 => {
            let t = &sv.s.transcript;
            let cut = c.rng.below(t.len());
            ("part of the transcript", finished(sv.s.h, &sv.s.secrets.shs, &ossl::digest(sv.s.h, &t[..cut])))
        }
        9 => ("random", c.rng.bytes(good.len())),
        _ => ("master secret", finished(sv.s.h, &sv.s.secrets.master, &th)),
    };
    (format!("Finished: {name}"), msg(FIN, &f))
}
fn bad_cert(c: &mut Case, w: &World) -> (String, Vec<u8>, Option<EcKey>) {
    let key = EcKey::random(&mut c.rng);
    let mk = |c: &mut Case, from: i64, to: i64| CertSpec::new("server.test", "server.test", from, to, &key.public, &mut c.rng).bulk(13000, &mut c.rng).sign(&key);
    let one = |d: Vec<u8>| certificate_msg(&[], &[(d, vec![])]);
    let (name, m) = match c.rng.below(13) {
        0 => ("just expired", one(mk(c, NOW - 5000, NOW - 1))),
        1 => ("expired", one(mk(c, NOW - 500_000_000, NOW - 400_000_000))),
        2 => ("valid in one second", one(mk(c, NOW + 1, NOW + 5000))),
        3 => ("future", one(mk(c, NOW + 86400 * 365, NOW + 86400 * 900))),
        4 => ("swapped dates", one(mk(c, NOW + 10, NOW - 10))),
        5 => ("empty list", certificate_msg(&[], &[])),
        6 => ("empty certificate", one(vec![])),
        7 => {
            let n = c.rng.range(1, 300);
            ("garbage", one(c.rng.bytes(n)))
        }
        8 => {
            // the signature can't be checked: no P-256 key
            let mut s = CertSpec::new("server.test", "server.test", NOW - 10, NOW + 10, &key.public, &mut c.rng);
            let n = c.rng.range(1, 64);
            s.spki = der::spki(&c.rng.bytes(n));
            ("broken key", one(s.sign(&key)))
        }
        9 => {
            // point at infinity / not on the curve
            let mut p = vec![4u8];
            p.extend(if c.rng.bool() { vec![0; 64] } else { c.rng.bytes(64) });
            let mut s = CertSpec::new("server.test", "server.test", NOW - 10, NOW + 10, &key.public, &mut c.rng);
            s.spki = der::spki(&p);
            ("point off the curve", one(s.sign(&key)))
        }
        10 => {
            let mut s = CertSpec::new("server.test", "server.test", NOW - 10, NOW + 10, &key.public, &mut c.rng);
            s.not_after = der::tlv(0x17, b"991399000000Z");
            ("impossible date", one(s.sign(&key)))
        }
        11 => {
            // the valid certificate is not the first one
            let d = mk(c, NOW - 5000, NOW - 1);
            ("valid certificate behind an expired one", certificate_msg(&[], &[(d, vec![]), (w.server.der.clone(), vec![])]))
        }
        _ => {
            // the key belongs to the second certificate
            let d = mk(c, NOW - 10, NOW + 10);
            return ("Certificate: key of the second certificate".into(), certificate_msg(&[], &[(w.server.der.clone(), vec![]), (d, vec![])]), Some(key));
        }
    };
    (format!("Certificate: {name}"), m, Some(key))
}

fn flaw(c: &mut Case, w: &World, cfg: &Arc<ClientConfig>, stale: &[u8]) {
    let suite = *c.rng.pick(&SUITES);
    let Some((mut eut, mut sv)) = open(c, w, cfg, suite) else { return };
    let request = c.rng.one_in(3);
    let mut seq = vec![EE, CERT, CV, FIN];
    if request {
        seq.insert(1, CR);
    }
    let n = seq.len();
    let kind = c.rng.below(12);
    let pos = c.rng.below(n);
    let mut name = String::new();
    // (record type, payload, protection)
    #[derive(PartialEq, Clone, Copy)]
    enum P {
        Hs,
        Plain,
        App,
        ClientHs,
        Other,
    }
    let mut out: Vec<(u8, Vec<u8>, P)> = vec![];
    let mut hide = None;
    if kind == 0 {
        // the message is not covered by the transcript of the later ones
        hide = Some(c.rng.below(n - 1));
    }
    for (i, k) in seq.iter().enumerate() {
        let mut m = sv.make(c, *k);
        let mut p = P::Hs;
        match (kind, *k) {
            (1..=3, CV) => {
                let (n, b) = bad_cv(c, w, &sv, stale);
                name = n;
                m = b;
            }
            (4 | 5, FIN) => {
                let (n, b) = bad_fin(c, &sv);
                name = n;
                m = b;
            }
            (6 | 7, CERT) => {
                let (n, b, key) = bad_cert(c, w);
                name = n;
                m = b;
                if let Some(k) = key {
                    // the attacker signs with the key of its certificate
                    sv.spec.key = Box::leak(Box::new(k));
                }
            }
            (8, _) if i == pos => {
                p = *c.rng.pick(&[P::Plain, P::App, P::ClientHs, P::Other]);
                name = format!("message {k} {}", ["protected", "in the clear", "under application keys", "under the client's keys", "under other keys"][p as usize]);
            }
            (9, CV) => {
                let s = *c.rng.pick(&[0x0503u16, 0x0603, 0x0804, 0x0401, 0x0807, 0x0203, 0x0000, 0x0402, 0x0a0a]);
                m = cv_msg(s, &sv.spec.key.sign(&cv_digest(true, &sv.s.th())));
                name = format!("signature scheme {s:04x}");
            }
            _ => {}
        }
        if kind == 10 && i == pos {
            // something else first
            let (what, t, b, pp) = match c.rng.below(9) {
                0 => ("application data", APP, vec![1, 2, 3], P::Hs),
                1 => ("application data under application keys", APP, vec![1, 2, 3], P::App),
                2 => ("ticket", HS, sv.make(c, NST), P::Hs),
                3 => ("KeyUpdate", HS, sv.make(c, KU), P::Hs),
                4 => ("second ServerHello", HS, sv.plain.clone(), P::Hs),
                5 => ("unknown message", HS, msg(c.rng.range(90, 200) as u8, &[]), P::Hs),
                6 => ("alert", ALERT, vec![2, 40], P::Hs),
                7 => ("plaintext alert", ALERT, vec![1, 0], P::Plain),
                _ => ("ClientHello", HS, msg(CH, &[0; 50]), P::Hs),
            };
            name = format!("{what} before message {k}");
            if t == HS {
                sv.s.transcript.extend(&b);
            }
            out.push((t, b, pp));
        }
        if kind == 11 && i == pos {
            name = format!("connection ends before message {k}");
            break;
        }
        if hide == Some(i) {
            // sent with a change that the signature or the Finished don't cover
            let mut h = m.clone();
            match *k {
                EE => h = msg(EE, &exts_body(&[(0x0a, u16list(&[X25519]))])),
                CR => h = msg(CR, &[vec8(&[7]), exts_body(&[(0x0d, u16list(&[0x0403]))])].concat()),
                CERT => h = certificate_msg(&[], &[(w.server.der.clone(), vec![]), (w.ca.der.clone(), vec![])]),
                _ => {
                    // another valid encoding is impossible, so sign again: ECDSA is randomised
                    h = cv_msg(0x0403, &sv.spec.key.sign(&cv_digest(true, &sv.s.th())));
                    if h == m {
                        return;
                    }
                }
            }
            name = format!("message {k} altered behind the sender's back");
            out.push((HS, h, p));
        } else {
            out.push((HS, m.clone(), p));
        }
        sv.s.transcript.extend(&m);
    }
    let (mut hs, mut ap, mut ch) = (sv.s.s_hs.clone(), sv.s.s_ap.clone(), sv.s.c_hs.clone());
    let mut other = Dir::new(suite, &vec![0; sv.s.h.len()]);
    eut.conn.set_caps(Caps::random(&mut c.rng), Caps::All);
    eut.conn.feed(&record(HS, &sv.plain));
    let fr = Framing::random(&mut c.rng);
    for (t, m, p) in &out {
        let cuts = if *t == HS { fr.cut(&[m.clone()], &mut c.rng) } else { vec![m.clone()] };
        for x in cuts {
            let r = match p {
                P::Hs => hs.seal(*t, &x, 0),
                P::Plain => record(*t, &x),
                P::App => ap.seal(*t, &x, 0),
                P::ClientHs => ch.seal(*t, &x, 0),
                P::Other => other.seal(*t, &x, 0),
            };
            eut.conn.feed(&r);
        }
    }
    let st = verdict(c, &mut eut);
    c.ev(format!("{name} {suite} {request} {}", label(&st)));
    c.count(&name.split(':').next().unwrap().split(" before").next().unwrap().to_string(), 1);
    match &st {
        Status::Done(Res::Err(_)) => {}
        Status::Done(Res::Ok(_)) => c.fail("completed without proof of the server", format!("suite {suite:04x}, certificate request {request}, {fr:?}: {name}")),
        s => c.fail("no verdict", format!("{name}: {s:?}")),
    }
    let o = eut.conn.sent();
    let a = alerts(&o, &mut [&mut sv.s.c_hs.clone(), &mut sv.s.c_ap.clone()]);
    c.sample(&name, || format!("{name}: {}, alerts {:?}", label(&st), a.all()));
    let _ = hexs;
}

/// A refused message is not made good by sending it again, rightly this time. Whether the refused
/// messages count in the transcript is up to the sender: all choices are tried
fn again(c: &mut Case, w: &World, cfg: &Arc<ClientConfig>, stale: &[u8]) {
    let suite = *c.rng.pick(&SUITES);
    let Some((mut eut, mut sv)) = open(c, w, cfg, suite) else { return };
    let request = c.rng.one_in(3);
    let genuine = sv.spec.key;
    let wrong = *c.rng.pick(&[CERT, CV, CV, FIN]);
    let back = match wrong {
        CERT => c.rng.below(2),
        CV => c.rng.below(2),
        _ => c.rng.below(3),
    };
    let mut seq = vec![(EE, true)];
    if request {
        seq.push((CR, true));
    }
    let all = [CERT, CV, FIN];
    let at = all.iter().position(|k| *k == wrong).unwrap();
    seq.extend(all[..at].iter().map(|k| (*k, true)));
    let times = c.rng.range(1, 2);
    for _ in 0..times {
        seq.push((wrong, false));
        if wrong == CERT && c.rng.bool() {
            // the CertificateVerify that belongs to it
            seq.push((CV, true));
        }
    }
    // the right messages, from the refused one or an earlier one
    let from = if wrong == CERT { back } else { at - back };
    seq.extend(all[from..].iter().map(|k| (*k, true)));
    let counted = c.rng.bool();
    let mut out = vec![];
    let mut name = String::new();
    for (i, (k, right)) in seq.iter().enumerate() {
        let m;
        let last_wrong = seq.iter().rposition(|(_, r)| !r).unwrap();
        if i > last_wrong + 1 || (i == last_wrong + 1 && *k != CV) || c.rng.one_in(3) {
            // this one is the genuine server's
            sv.spec.key = genuine;
        }
        if *right {
            m = sv.make(c, *k);
            if name.is_empty() || counted || i > last_wrong {
                sv.s.transcript.extend(&m);
            }
        } else {
            let (n, b) = match wrong {
                CERT => {
                    let (mut n, mut b, mut key) = bad_cert(c, w);
                    while n.contains("second certificate") {
                        // nothing is wrong with this message itself
                        (n, b, key) = bad_cert(c, w);
                    }
                    if let Some(k) = key {
                        sv.spec.key = Box::leak(Box::new(k));
                    }
                    (n, b)
                }
                CV => bad_cv(c, w, &sv, stale),
                _ => bad_fin(c, &sv),
            };
            name = n;
            m = b;
            if counted {
                sv.s.transcript.extend(&m);
            }
        }
        out.push(m);
    }
    eut.conn.set_caps(Caps::random(&mut c.rng), Caps::All);
    eut.conn.feed(&record(HS, &sv.plain));
    let fr = *c.rng.pick(&[Framing::PerMessage, Framing::PerMessage, Framing::Coalesced]);
    let mut d = sv.s.s_hs.clone();
    for r in protect(&mut d, &out, fr, 0, &mut c.rng) {
        eut.conn.feed(&r);
    }
    let kinds: Vec<String> = seq.iter().map(|(k, r)| format!("{k}{}", if *r { "" } else { "!" })).collect();
    let st = verdict(c, &mut eut);
    c.ev(format!("again {name} {kinds:?} {counted} {fr:?} {suite} {}", label(&st)));
    c.count("refused messages sent again", 1);
    match &st {
        Status::Done(Res::Err(_)) => {}
        Status::Done(Res::Ok(_)) => c.fail("completed after a refused message", format!("suite {suite:04x}, {fr:?}, handshake types {kinds:?} (! = {name}), in the transcript: {counted}")),
        s => c.fail("no verdict", format!("{kinds:?} {name}: {s:?}")),
    }
    c.sample(&format!("again {}", name.split(':').next().unwrap()), || format!("{kinds:?} {name}: {}", label(&st)));
}

/// What an earlier connection has shown has no influence on the next one
fn history(c: &mut Case, w: &World, cfg: &Arc<ClientConfig>) {
    let key = EcKey::random(&mut c.rng);
    let s = CertSpec::new("server.test", "Test CA", NOW - 1000, NOW + 1000, &key.public, &mut c.rng).bulk(13000, &mut c.rng);
    let good = s.sign(&w.ca.key);
    let evil = EcKey::random(&mut c.rng);
    let mut last: Option<Vec<u8>> = None;
    let mut trace: Vec<&str> = vec![];
    for i in 0..c.rng.range(2, 5) {
        let suite = *c.rng.pick(&SUITES);
        let Some((mut eut, mut sv)) = open(c, w, cfg, suite) else { return };
        let kind = if i == 0 && c.rng.bool() { 0 } else { c.rng.below(8) };
        let mut der = good.clone();
        let mut k = &key;
        let mut replay = None;
        let what = match kind {
            0 | 1 => "server",
            2 => {
                k = &evil;
                "genuine certificate without its key"
            }
            3 if last.is_some() => {
                replay = last.clone();
                "CertificateVerify of an earlier connection"
            }
            4 => {
                der = CertSpec { not_after: der::utc_time(NOW - 1), ..s.clone() }.sign(&w.ca.key);
                "genuine key and number, expired"
            }
            5 => {
                der = CertSpec { not_before: der::utc_time(NOW + 1), ..s.clone() }.sign(&w.ca.key);
                "genuine key and number, not yet valid"
            }
            6 => {
                // the certificate says one key, the signature is made with the other
                der = CertSpec { spki: der::spki(&evil.public), ..s.clone() }.sign(&w.ca.key);
                "another key under the same number, signature with the genuine key"
            }
            _ => "wrong Finished",
        };
        let mut ms = vec![msg(EE, &[0, 0]), certificate_msg(&[], &[(der, vec![])])];
        sv.s.transcript.extend(ms.concat());
        let cv = replay.unwrap_or_else(|| cv_msg(0x0403, &k.sign(&cv_digest(true, &sv.s.th()))));
        sv.s.transcript.extend(&cv);
        ms.push(cv.clone());
        let mut f = finished(sv.s.h, &sv.s.secrets.shs, &sv.s.th());
        if what == "wrong Finished" {
            f = crate::mutate::corrupt(&mut c.rng, &f).1;
        }
        ms.push(msg(FIN, &f));
        eut.conn.feed(&record(HS, &sv.plain));
        let mut d = sv.s.s_hs.clone();
        for r in protect(&mut d, &ms, Framing::random(&mut c.rng), 0, &mut c.rng) {
            eut.conn.feed(&r);
        }
        let st = verdict(c, &mut eut);
        trace.push(what);
        match (&st, what == "server") {
            (Status::Done(Res::Ok(_)), true) => {
                c.count("genuine again", (i > 0) as u64);
                last = Some(cv);
            }
            (Status::Done(Res::Err(_)), false) => c.count("impostors after a genuine server", last.is_some() as u64),
            (Status::Done(Res::Ok(_)), false) => return c.fail("completed without proof of the server", format!("suite {suite:04x}, history {trace:?}")),
            (s, true) => return c.fail("genuine server refused", format!("suite {suite:04x}, history {trace:?}: {}", label(s))),
            (s, _) => return c.fail("no verdict", format!("{trace:?}: {s:?}")),
        }
    }
    c.ev(format!("history {trace:?}"));
    c.sample("history", || format!("{trace:?}"));
}

fn sequences(len: usize) -> Vec<Vec<u8>> {
    let kinds = [EE, CR, CERT, CV, FIN];
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..len {
        let mut next = vec![];
        for s in &last {
            // nothing has to be tried behind a complete handshake
            if good(s) {
                continue;
            }
            for k in kinds {
                let mut t = s.clone();
                t.push(k);
                next.push(t);
            }
        }
        all.extend(next.clone());
        last = next;
    }
    all
}

/// The right sequences with one more message anywhere, or two in a row
fn inserted() -> Vec<Vec<u8>> {
    let mut all = vec![];
    for base in [&[EE, CERT, CV, FIN][..], &[EE, CR, CERT, CV, FIN]] {
        for at in 0..base.len() {
            for k in [EE, CR, CERT, CV, FIN, CH, SH, NST, KU, 4, 99] {
                for n in [1, 2] {
                    let mut s = base.to_vec();
                    for _ in 0..n {
                        s.insert(at, k);
                    }
                    all.push(s);
                }
            }
        }
    }
    all
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    let cfgs = [w.client_cfg(false), w.client_cfg(true)];
    let seqs = sequences(r.n(5, 6));
    r.group("sequences", seqs.len(), |c| {
        let cfg = cfgs[c.rng.below(2)].clone();
        sequence(c, &w, &cfg, &seqs[c.idx])
    });
    // one or two messages too many, for clients with and without a certificate
    let ins = inserted();
    r.group("inserted", r.n(2, 10) * ins.len(), |c| {
        let cfg = cfgs[c.rng.below(2)].clone();
        sequence(c, &w, &cfg, &ins[c.idx % ins.len()])
    });
    // a genuine signature from another handshake of the same server
    let stale = w.server.key.sign(&cv_digest(true, &ossl::digest(H::Sha256, b"another handshake")));
    r.group("flaws", r.n(4000, 60000), |c| {
        let cfg = cfgs[c.rng.below(2)].clone();
        flaw(c, &w, &cfg, &stale)
    });
    r.group("again", r.n(4000, 60000), |c| {
        let cfg = cfgs[c.rng.below(2)].clone();
        again(c, &w, &cfg, &stale)
    });
    r.require("refused messages sent again", 3000);
    r.group("history", r.n(800, 15000), |c| {
        let cfg = cfgs[c.rng.below(2)].clone();
        history(c, &w, &cfg)
    });
    r.require("impostors after a genuine server", 200);
    r.require("genuine again", 100);
    r.require("correct sequences", 2);
    r.require("wrong sequences", 1000);
    for k in ["CertificateVerify", "Finished", "Certificate"] {
        r.require(k, 200);
    }
}
