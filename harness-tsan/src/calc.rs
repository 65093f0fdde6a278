//! Computations that share nothing: whatever runs beside them, the result is the same as alone
use crate::rng::Rng;
use crate::Log;
use anothertls::crypto::ellipticcurve::{math, Curve, Ecdsa, Point, PrivateKey, Signature};
use anothertls::crypto::{Cipher, CipherSuite};
use anothertls::hash::{sha_x, HashType, Hkdf, Hmac, Sha256, Sha384, TranscriptHash};
use anothertls::rand::{RngCore, SeedableRng, SimpleRng};
use anothertls::utils::x509::X509;
use anothertls::utils::{base64, pem};
use ibig::{IBig, UBig};
use std::sync::Arc;

type Task = (String, Box<dyn Fn() -> Vec<u8> + Send + Sync>);

fn big(b: &[u8]) -> IBig {
    UBig::from_be_bytes(b).into()
}
pub fn tasks(r: &mut Rng, dir: &str) -> Vec<Task> {
    let mut t: Vec<Task> = vec![];
    // objects used by all threads
    let ciphers: Vec<Arc<dyn Cipher + Send + Sync>> =
        [CipherSuite::TLS_AES_128_GCM_SHA256, CipherSuite::TLS_AES_256_GCM_SHA384, CipherSuite::TLS_CHACHA20_POLY1305_SHA256].iter().map(|c| c.get_cipher().ok().unwrap()).collect();
    for i in 0..9 {
        let c = ciphers[i % 3].clone();
        let (key, iv) = (r.bytes([16, 32, 32][i % 3]), r.bytes(12));
        let n = r.below(300);
        let (d, a) = (r.bytes(n), r.bytes(5));
        t.push((
            format!("aead {i}"),
            Box::new(move || {
                let (mut ct, tag) = c.encrypt(&key, &iv, &d, &a).ok().unwrap();
                let p = c.decrypt(&key, &iv, &ct, &a, &tag).ok();
                assert!(p.as_ref() == Some(&d), "decryption");
                ct.extend(tag);
                ct
            }),
        ));
    }
    for i in 0..6 {
        let n = r.below(500);
        let (k, d) = (r.bytes(40), r.bytes(n));
        t.push((
            format!("hash {i}"),
            Box::new(move || {
                let mut o = vec![];
                for h in [HashType::SHA256, HashType::SHA384] {
                    o.extend(sha_x(h, &d));
                    let mut m = Hmac::new(h, &k);
                    m.update(&d);
                    o.extend(m.result());
                    o.extend(Hkdf::extract(h, &k, &d).expand(&k, 42).unwrap());
                }
                let mut a: Vec<Box<dyn TranscriptHash>> = vec![Box::new(Sha256::new()), Box::new(Sha384::new())];
                for x in a.iter_mut() {
                    for p in d.chunks(33) {
                        x.update(p);
                        o.extend(x.clone().finalize());
                    }
                }
                o
            }),
        ));
    }
    for i in 0..4 {
        let k: [u8; 32] = r.arr();
        t.push((
            format!("x25519 {i}"),
            Box::new(move || {
                let c = Curve::curve25519();
                let p = math::multiply(&c.g, UBig::from_le_bytes(&k).into(), &c);
                UBig::try_from(p.x).unwrap().to_be_bytes()
            }),
        ));
    }
    let key = Arc::new(PrivateKey::from_pem(format!("{dir}/server.key")).expect("key"));
    let public = Arc::new(key.get_public_key());
    for i in 0..3 {
        let d = r.bytes(32);
        let (key, public) = (key.clone(), public.clone());
        t.push((
            format!("ecdsa {i}"),
            Box::new(move || {
                let s: Signature = Ecdsa::urandom().sign(&key, &d).ok().unwrap();
                let pk = anothertls::crypto::ellipticcurve::PublicKey::new(Point::new(public.point.x.clone(), public.point.y.clone()), Curve::secp256r1());
                let good = Ecdsa::verify(pk, &s, &d);
                let pk = anothertls::crypto::ellipticcurve::PublicKey::new(Point::new(public.point.x.clone(), public.point.y.clone()), Curve::secp256r1());
                let bad = Ecdsa::verify(pk, &Signature::new(s.s.clone() + IBig::from(1), s.r.clone()), &d);
                vec![good as u8, bad as u8]
            }),
        ));
    }
    let der = pem::get_pem_content_from_file(format!("{dir}/client.cert")).expect("pem")["CERTIFICATE"].clone();
    let ca = pem::get_pem_content_from_file(format!("{dir}/ca.cert")).expect("pem")["CERTIFICATE"].clone();
    {
        let dir = dir.to_string();
        t.push((
            "x509".into(),
            Box::new(move || {
                let (x, ca) = (X509::from_raw(&der).ok().unwrap(), X509::from_raw(&ca).ok().unwrap());
                let again = pem::get_pem_content_from_file(format!("{dir}/client.cert")).expect("pem")["CERTIFICATE"].clone();
                let mut o = vec![];
                for x in [x, ca] {
                    let t = &x.tbs_certificate;
                    o.extend(format!("{} {} {}", t.subject.get("commonName").unwrap_or_default(), t.issuer.get("commonName").unwrap_or_default(), t.validity.is_valid()).into_bytes());
                    o.extend(t.subject_public_key_info.subject_public_key.as_slice());
                }
                o.extend(again);
                o
            }),
        ));
    }
    for i in 0..3 {
        let n = r.below(200);
        let d = r.bytes(n);
        t.push((
            format!("base64 {i}"),
            Box::new(move || {
                let e = base64::encode(&d);
                assert!(base64::decode(&e).as_ref() == Some(&d), "base64");
                e.into_bytes()
            }),
        ));
    }
    for i in 0..3 {
        let seed = big(&r.bytes(4));
        t.push((
            format!("generator {i}"),
            Box::new(move || {
                let mut g = SimpleRng::<IBig>::from_seed(seed.clone());
                let mut o = g.bytes(33);
                o.extend(g.bytes(5));
                o
            }),
        ));
    }
    t
}
pub fn run(log: &Arc<Log>, r: &mut Rng, dir: &str, rounds: usize) {
    let t = Arc::new(tasks(r, dir));
    let want: Arc<Vec<Vec<u8>>> = Arc::new(t.iter().map(|x| x.1()).collect());
    let mut th = vec![];
    for _ in 0..8 {
        let (t, want, log) = (t.clone(), want.clone(), log.clone());
        let mut g = Rng::new(r.u64());
        th.push(std::thread::spawn(move || {
            let mut order: Vec<usize> = (0..t.len()).collect();
            let mut bad = vec![];
            for _ in 0..rounds {
                g.shuffle(&mut order);
                for i in &order {
                    if t[*i].1() != want[*i] {
                        bad.push(t[*i].0.clone());
                    }
                }
            }
            for b in bad {
                log.ev(format!("calc WRONG {b}"));
            }
            log.ev(format!("calc {}", rounds * t.len()));
        }));
    }
    for x in th {
        if x.join().is_err() {
            log.ev("calc WRONG panic".into());
        }
    }
}
