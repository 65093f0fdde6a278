//! The validity window is exact
use crate::der::*;
use crate::eut::*;
use crate::ossl::{self, EcKey};
use crate::rep::{hex, Case, Rep};
use crate::rng::Rng;
use crate::sim::{self, Caps, Eut, Res, Status};
use crate::tls::{self, *};
use anothertls::net::client::ClientConfig;
use anothertls::utils::x509::X509;
use anothertls::ServerConnection;
use std::sync::Arc;

pub const RULE: &str = "a case is one certificate (its two dates in their encoded form) judged at several clock readings, directly or by a handshake in either role; distinct = (encoded dates, place of the clock relative to them)";

const FIRST: i64 = -631152000; // 1950-01-01
const LAST: i64 = 2524607999; // 2049-12-31 23:59:59

struct Base {
    key: EcKey,
    sig: Vec<u8>,
}
/// A certificate with these encodings in its validity field (the signature is not looked at)
fn cert(b: &Base, validity: &[u8], rng: &mut Rng, extra: Option<Vec<u8>>) -> Vec<u8> {
    let mut p = vec![
        tlv(0xa0, &tlv(2, &[2])),
        int(&rng.bytes(8)),
        alg_ecdsa(),
        name(&cn("Test CA")),
        tlv(0x30, validity),
        name(&cn("someone")),
        spki(&b.key.public),
    ];
    if let Some(e) = extra {
        p.push(tlv(0xa3, &seq(&[e])));
    }
    let mut s = vec![0];
    s.extend(&b.sig);
    seq(&[seq(&p), alg_ecdsa(), tlv(3, &s)])
}
fn at(x: &X509, now: i64) -> bool {
    sim::set_clock(Some(now));
    let v = x.tbs_certificate.validity.is_valid();
    sim::set_clock(None);
    v
}
fn parsed(c: &mut Case, d: &[u8]) -> Option<Option<X509>> {
    c.eut("parser", || hex(d), || X509::from_raw(d).ok())
}
fn place(now: i64, from: i64, to: i64) -> &'static str {
    match () {
        _ if now == from - 1 => "just before",
        _ if now == from => "first second",
        _ if now == to => "last second",
        _ if now == to + 1 => "just after",
        _ if now < from => "before",
        _ if now > to => "after",
        _ => "inside",
    }
}
fn judge(c: &mut Case, x: &X509, from: i64, to: i64, now: i64, what: &str) {
    c.sample(what, || format!("{} .. {} at {now}: {}", from, to, place(now, from, to)));
    let v = at(x, now);
    let want = from <= now && now <= to;
    c.evals(1);
    c.count(if want { "valid readings" } else { "invalid readings" }, 1);
    c.check(v == want, &format!("validity decided wrongly: {}", place(now, from, to)), || {
        format!("{what}: is_valid() = {v} at {now} ({:?}), notBefore {from} ({:?}), notAfter {to} ({:?})", civil(now), civil(from), civil(to))
    });
}
fn exact(c: &mut Case, b: &Base, from: i64, to: i64, nows: &[i64], extra: Option<Vec<u8>>) {
    let v = [utc_time(from), utc_time(to)].concat();
    let d = cert(b, &v, &mut c.rng, extra);
    c.distinct(&v);
    let Some(x) = parsed(c, &d) else { return };
    let Some(x) = x else { return c.fail("well-formed dates refused", format!("{:?} {:?}: {}", civil(from), civil(to), hex(&d))) };
    for n in nows {
        judge(c, &x, from, to, *n, "UTCTime");
    }
    // the oracle itself against OpenSSL
    if c.rng.one_in(50) {
        if let Some((o, _)) = ossl::Cert::parse(&d) {
            let i = o.info();
            assert_eq!((i.not_before.map(unix), i.not_after.map(unix)), (Some(from), Some(to)));
            for n in nows {
                let (p, q) = o.cmp_times(*n);
                let want = from <= *n && *n <= to;
                // equal counts as past for OpenSSL
                let ossl = p == -1 && (q == 1 || *n == to);
                assert_eq!(want, ossl, "{from} {to} {n}");
                c.count("OpenSSL agrees with the oracle", 1);
            }
        }
    }
}
/// Every day the encoding can carry, as the first and as the last day
fn calendar(c: &mut Case, b: &Base, idx: usize) {
    for part in 0..50 {
        let day = idx as i64 * 50 + part;
        let t0 = FIRST + day * 86400;
        if t0 > LAST {
            return;
        }
        let s = match c.rng.below(4) {
            0 => 0,
            1 => 86399,
            _ => c.rng.below(86400) as i64,
        };
        let t = t0 + s;
        let month = 2_678_400;
        let nows = [t - 1, t, t + 1, t - 86400, t + 86400, t - month, t + month, t - 365 * 86400, t + 366 * 86400, t - 36525 * 86400, t + 36525 * 86400];
        exact(c, b, t, LAST, &nows, None);
        exact(c, b, FIRST, t, &nows, None);
        let len = c.rng.below(400 * 86400) as i64;
        exact(c, b, t, (t + len).min(LAST), &[t - 1, t, t + len / 2, (t + len).min(LAST), (t + len).min(LAST) + 1], None);
        c.count("days", 1);
        c.sample("calendar", || format!("{t0}: first or last valid second {t}, readings {nows:?}"));
    }
}
fn any(c: &mut Case, b: &Base) {
    let r = |rng: &mut Rng| match rng.below(5) {
        0 => FIRST + rng.below(2 * 86400) as i64,
        1 => LAST - rng.below(2 * 86400) as i64,
        2 => *rng.pick(&[0i64, -1, 1, 951782400, 951868800, 946684799, 946684800, 2147483647, 2147483648, 4294967295 - 2208988800]),
        _ => FIRST + rng.below((LAST - FIRST) as usize) as i64,
    };
    let (from, to) = (r(&mut c.rng), r(&mut c.rng));
    let to = if c.rng.one_in(8) { from } else { to };
    let mut nows = vec![from - 1, from, from + 1, to - 1, to, to + 1, 0, -1, NOW, i32::MAX as i64 + 1, u32::MAX as i64 + 1, 253402300800, -62135596800];
    for _ in 0..4 {
        nows.push(r(&mut c.rng));
    }
    // other dates nearby must not matter
    let extra = if c.rng.bool() {
        let (p, q) = (r(&mut c.rng), r(&mut c.rng));
        let v = seq(&[utc_time(p), utc_time(q)]);
        let o = *c.rng.pick(&["2.5.29.16", "2.999.1"]);
        Some(crate::der::ext(o, None, &v))
    } else {
        None
    };
    if extra.is_some() {
        c.count("other dates in an extension", 1);
    }
    exact(c, b, from, to, &nows, extra);
}
/// What the format allows: YYMMDDHHMMSSZ with a real date
fn meaning(s: &[u8]) -> Option<i64> {
    if s.len() != 13 || s[12] != b'Z' || !s[..12].iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let f = |i: usize| ((s[i] - b'0') * 10 + s[i + 1] - b'0') as i32;
    let y = if f(0) < 50 { 2000 + f(0) } else { 1900 + f(0) };
    let t = [y, f(2), f(4), f(6), f(8), f(10)];
    if !(1..=12).contains(&t[1]) || t[3] > 23 || t[4] > 59 || t[5] > 59 {
        return None;
    }
    let u = unix(t);
    // no 30th of February
    if civil(u) == t {
        Some(u)
    } else {
        None
    }
}
/// A date of any content next to a right one
fn content(c: &mut Case, b: &Base, s: &[u8]) {
    for first in [true, false] {
        let good = if first { utc_time(LAST) } else { utc_time(FIRST) };
        let odd = tlv(0x17, s);
        let v = if first { [odd, good].concat() } else { [good, odd].concat() };
        let d = cert(b, &v, &mut c.rng, None);
        c.evals(1);
        let Some(x) = parsed(c, &d) else { return };
        match (meaning(s), x) {
            (Some(t), Some(x)) => {
                let (from, to) = if first { (t, LAST) } else { (FIRST, t) };
                c.count("well-formed variants", 1);
                for n in [t - 1, t, t + 1] {
                    judge(c, &x, from, to, n, "variant");
                }
            }
            (Some(_), None) => c.fail("well-formed dates refused", format!("UTCTime {:?}", String::from_utf8_lossy(s))),
            (None, None) => c.count("malformed dates refused", 1),
            (None, Some(x)) => {
                c.count("malformed dates parsed", 1);
                never(c, &x, &format!("UTCTime {:?}", String::from_utf8_lossy(s)));
            }
        }
    }
}
fn never(c: &mut Case, x: &X509, what: &str) {
    for n in [FIRST, FIRST + 1, -1, 0, 1, 946684800, NOW, 1900000000, 2147483647, 2147483648, LAST, LAST + 1] {
        if at(x, n) {
            return c.fail("malformed or missing date treated as valid", format!("{what}: valid at {n} ({:?})", civil(n)));
        }
    }
    for _ in 0..30 {
        let n = FIRST + c.rng.below((LAST - FIRST) as usize) as i64;
        if at(x, n) {
            return c.fail("malformed or missing date treated as valid", format!("{what}: valid at {n} ({:?})", civil(n)));
        }
    }
}
fn malformed(c: &mut Case, b: &Base) {
    let t = FIRST + c.rng.below((LAST - FIRST) as usize) as i64;
    let s = utc_time(t)[2..].to_vec();
    // every value of one byte
    let i = c.idx % 13;
    let mut m = s.clone();
    for v in 0..=255u8 {
        m[i] = v;
        content(c, b, &m);
    }
    // every value of one two-digit field
    let f = c.idx % 6 * 2;
    let mut m = s.clone();
    for v in 0..100u8 {
        m[f] = b'0' + v / 10;
        m[f + 1] = b'0' + v % 10;
        content(c, b, &m);
    }
    // other forms and lengths
    let y = civil(t)[0];
    let long = [format!("{:02}", y / 100).as_bytes(), &s[..]].concat();
    let mut forms: Vec<Vec<u8>> = vec![
        [&s[..10], b"Z"].concat(),
        [&s[..12], b"+0100"].concat(),
        [&s[..12], b"-0000"].concat(),
        [&s[..10], b"+0100"].concat(),
        [&s[..12], b".5Z"].concat(),
        s[..12].to_vec(),
        [&s[..12], b"z"].concat(),
        [&s[..12], b"Z "].concat(),
        [&s[..12], b"ZZ"].concat(),
        [b" ", &s[..]].concat(),
        [b"+", &s[1..]].concat(),
        [&s[..12], b"Z\0"].concat(),
        long.clone(),
        s.iter().flat_map(|b| [0, *b]).collect(),
        "６０１２０１０１０１０１Z".as_bytes().to_vec(),
    ];
    for z in ["+0000", "-0100", "+0030", "-0030", "+1200", "-1200", "+1400", "+00", "+00:00", "-00", "+0000Z", "Z+0000", "Z+0100", "UTC", "GMT", " Z", ".Z", ",0Z", ".000Z", ".0+0000"] {
        forms.push([&s[..12], z.as_bytes()].concat());
        forms.push([&s[..10], z.as_bytes()].concat());
    }
    for k in 0..13 {
        forms.push(s[..k].to_vec());
        forms.push([&s[..k], b"Z"].concat());
        forms.push([&s[..k], &s[k + 1..]].concat());
        forms.push([&s[..k], b"0", &s[k..]].concat());
        let mut u = s.clone();
        u.splice(k..k + 1, "é".bytes());
        forms.push(u);
    }
    for f in forms {
        content(c, b, &f);
    }
}
/// GeneralizedTime: not supported or exact; other types: never valid
fn other_types(c: &mut Case, b: &Base) {
    let y = c.rng.range(0, 9999) as i32;
    let t = if c.rng.bool() {
        FIRST + c.rng.below((LAST - FIRST) as usize) as i64
    } else {
        unix([y, 1, 1, 0, 0, 0]) + c.rng.below(365 * 86400) as i64
    };
    let both = c.rng.bool();
    let (p, q) = match c.rng.below(2) {
        0 => (gen_time(t), if both { gen_time(253402300799) } else { utc_time(LAST) }),
        _ => (if both { gen_time(-62135596800) } else { utc_time(FIRST) }, gen_time(t)),
    };
    let (from, to) = (general(&p), general(&q));
    let d = cert(b, &[p, q].concat(), &mut c.rng, None);
    c.distinct(&d[d.len() - 200..]);
    let Some(x) = parsed(c, &d) else { return };
    match x {
        None => c.count("GeneralizedTime refused", 1),
        Some(x) => {
            let mut nows = vec![t - 1, t, t + 1, from - 1, to + 1];
            nows.push(FIRST + c.rng.below((LAST - FIRST) as usize) as i64);
            // either exact or, as unsupported, never valid
            let all: Vec<bool> = nows.iter().map(|n| at(&x, *n)).collect();
            if all.iter().any(|v| *v) {
                for n in nows {
                    judge(c, &x, from, to, n, "GeneralizedTime");
                }
            }
            c.count("GeneralizedTime parsed", 1);
        }
    }
    // not a time at all, or not two of them
    let u = utc_time(t.clamp(FIRST, LAST));
    let g = utc_time(FIRST);
    let l = utc_time(LAST);
    let mut list: Vec<(&str, Vec<u8>)> = vec![
        ("no dates", vec![]),
        ("only one date", g.clone()),
        ("only one date", l.clone()),
        ("empty date", [tlv(0x17, b""), l.clone()].concat()),
        ("empty date", [g.clone(), tlv(0x17, b"")].concat()),
        ("null", [tlv(5, b""), l.clone()].concat()),
        ("null", [g.clone(), tlv(5, b"")].concat()),
        ("nested", [tlv(0x30, &[g.clone(), l.clone()].concat())].concat()),
        ("swapped", [l.clone(), g.clone()].concat()),
    ];
    for tag in [0x02u8, 0x04, 0x06, 0x0c, 0x13, 0x16, 0x1a, 0x57, 0x97, 0x37, 0x80, 0x81] {
        list.push(("another type", [tlv(tag, &u[2..]), l.clone()].concat()));
        list.push(("another type", [g.clone(), tlv(tag, &u[2..])].concat()));
    }
    for (what, v) in list {
        let d = cert(b, &v, &mut c.rng, None);
        c.evals(1);
        let Some(x) = parsed(c, &d) else { return };
        match x {
            None => c.count("missing or foreign dates refused", 1),
            Some(x) => {
                c.count("missing or foreign dates parsed", 1);
                never(c, &x, &format!("{what}: {}", hex(&v)));
            }
        }
    }
    // a third date counts for nothing
    let (a, z) = (NOW - 1000, NOW + 1000);
    for third in [utc_time(FIRST), utc_time(LAST), utc_time(NOW - 5000), utc_time(NOW + 5000)] {
        let d = cert(b, &[utc_time(a), utc_time(z), third].concat(), &mut c.rng, None);
        let Some(x) = parsed(c, &d) else { return };
        if let Some(x) = x {
            for n in [a - 1, a, z, z + 1, NOW - 5000, NOW + 5000, LAST] {
                if at(&x, n) && !(a <= n && n <= z) {
                    c.fail("date outside the validity field matters", format!("valid at {n} with an additional date, window {a}..{z}"));
                }
            }
        }
    }
}
fn general(t: &[u8]) -> i64 {
    let s = std::str::from_utf8(&t[2..]).unwrap();
    if t[0] == 0x17 {
        return meaning(s.as_bytes()).unwrap();
    }
    let f = |a: usize, b: usize| s[a..b].parse::<i32>().unwrap();
    unix([f(0, 4), f(4, 6), f(6, 8), f(8, 10), f(10, 12), f(12, 14)])
}

// ------------------------------------------------------------- in handshakes
/// Reference client with this identity; the clock may move between the flights
fn serve(c: &mut Case, srv: &Arc<ServerConnection>, id: &Ident, chain: &[Vec<u8>], clock: i64) -> Result<Status, String> {
    let mut eut = Eut::new(Some(clock));
    eut.accept(srv);
    let mut hello = Hello::new(&mut c.rng);
    hello.suites = vec![*c.rng.pick(&SUITES)];
    let ch = hello.msg();
    eut.conn.feed(&record(HS, &ch));
    let st = eut.wait(c);
    let out = eut.conn.take();
    if !st.blocked() {
        return Err(format!("no answer to the ClientHello: {st:?}"));
    }
    let mut s = tls::client_process(&out, &hello, &ch)?;
    if s.cert_request.is_none() {
        return Err("no CertificateRequest".into());
    }
    let mut l = vec![(id.der.clone(), vec![])];
    l.extend(chain.iter().map(|d| (d.clone(), vec![])));
    let fl = s.client_flight(Some(&ClientAuth { chain: l, key: Some(&id.key) }), &mut no_edit);
    let mut d = s.c_hs.clone();
    for r in protect(&mut d, &fl, Framing::PerMessage, 0, &mut c.rng) {
        eut.conn.feed(&r);
    }
    let st = eut.wait(c);
    if st.blocked() {
        eut.conn.eof();
        return Ok(eut.wait(c));
    }
    Ok(st)
}
fn connect(c: &mut Case, cfg: &Arc<ClientConfig>, id: &Ident, chain: &[Vec<u8>], clock: i64) -> Result<Status, String> {
    let (mut eut, info, raw) = start_client(c, cfg, Caps::All, Caps::All, clock)?;
    let suite = *c.rng.pick(&SUITES);
    let mut spec = ServerSpec::new(suite, id, &mut c.rng);
    spec.chain = vec![(id.der.clone(), vec![])];
    spec.chain.extend(chain.iter().map(|d| (d.clone(), vec![])));
    let (s, plain, prot) = tls::server_flight(&spec, &info, &raw, &mut no_edit)?;
    for p in &plain {
        eut.conn.feed(&record(HS, p));
    }
    let mut d = s.s_hs.clone();
    for r in protect(&mut d, &prot, Framing::PerMessage, 0, &mut c.rng) {
        eut.conn.feed(&r);
    }
    let st = eut.wait(c);
    if st.blocked() {
        eut.conn.eof();
        return Ok(eut.wait(c));
    }
    Ok(st)
}
fn handshakes(c: &mut Case, w: &World, srv: &Arc<ServerConnection>, cfg: &Arc<ClientConfig>) {
    let server_role = c.rng.bool();
    let span = *c.rng.pick(&[0i64, 1, 86400, 365 * 86400, 20 * 365 * 86400]);
    let from = match c.rng.below(4) {
        0 => NOW - c.rng.below(86400) as i64,
        1 => *c.rng.pick(&[951782400i64, 1709164800, 1709251200, 946684800, 0, -1, 2147483600]),
        _ => FIRST + c.rng.below((LAST - FIRST) as usize - 2) as i64,
    };
    let to = (from + span).min(LAST);
    let key = EcKey::random(&mut c.rng);
    let (who, by, with) = if server_role { ("client.test", "Test CA", &w.ca.key) } else { ("server.test", "server.test", &key) };
    let der = CertSpec::new(who, by, from, to, &key.public, &mut c.rng).bulk(60000, &mut c.rng).sign(with);
    c.count("large certificates in handshakes", (der.len() > 16384) as u64);
    let id = Ident { der, key };
    // certificates behind the first one with other dates
    let mut chain = vec![];
    for _ in 0..c.rng.below(3) {
        let f = FIRST + c.rng.below((LAST - FIRST) as usize / 2) as i64;
        chain.push(ident_at("Test CA", None, f, f + c.rng.below((LAST - f) as usize) as i64, &mut c.rng).der);
    }
    // the same configuration under a moving clock
    for now in [from, to + 1, to, from - 1, (from + to) / 2, NOW] {
        let want = from <= now && now <= to;
        let r = if server_role { serve(c, srv, &id, &chain, now) } else { connect(c, cfg, &id, &chain, now) };
        let role = if server_role { "server" } else { "client" };
        match r {
            Err(e) => c.inconclusive(&e.chars().take(70).collect::<String>()),
            Ok(Status::Done(Res::Panic(p))) => c.fail("panic", format!("{role} at {now}, window {from}..{to}: {p}")),
            Ok(st) => {
                let got = matches!(st, Status::Done(Res::Ok(_)));
                c.evals(1);
                c.count(&format!("{role} handshakes, certificate {}", if want { "valid" } else { "not valid" }), 1);
                c.distinct(format!("{role} {} {}", place(now, from, to), civil(from)[0]).as_bytes());
                c.check(got == want, &format!("handshake decided wrongly: {}", place(now, from, to)), || {
                    format!("{role}: {st:?} at {now} ({:?}) with a certificate for {:?} .. {:?}, {} further certificates", civil(now), civil(from), civil(to), chain.len())
                });
            }
        }
    }
}
/// Malformed dates in handshakes
fn bad_handshakes(c: &mut Case, w: &World, srv: &Arc<ServerConnection>, cfg: &Arc<ClientConfig>) {
    let server_role = c.rng.bool();
    let key = EcKey::random(&mut c.rng);
    let mut spec = CertSpec::new("client.test", "Test CA", NOW - 1000, NOW + 1000, &key.public, &mut c.rng).bulk(60000, &mut c.rng);
    let good = utc_time(NOW)[2..].to_vec();
    let bad = |c: &mut Case| -> Vec<u8> {
        loop {
            let mut s = good.clone();
            match c.rng.below(5) {
                4 => {
                    s.truncate(12);
                    s.extend(*c.rng.pick(&[&b"+0000"[..], b"-0000", b"+0100", b"-0130", b".5Z", b"Z+0000"]));
                }
                0 => s[0] = *c.rng.pick(b" -:/x\0"),
                1 => s.truncate(c.rng.below(13)),
                2 => {
                    let i = c.rng.range(1, 5) * 2;
                    let f = *c.rng.pick(&[b"99", b"61", b"24", b"60", b"13", b"00", b"32"]);
                    s[i..i + 2].copy_from_slice(f);
                }
                _ => {
                    let i = c.rng.below(13);
                    s[i] = c.rng.u8();
                }
            }
            if meaning(&s).is_none() {
                return tlv(*c.rng.pick(&[0x17, 0x17, 0x17, 0x18, 0x0c]), &s);
            }
        }
    };
    let which = c.rng.below(3);
    if which != 1 {
        spec.not_before = bad(c);
    }
    if which != 0 {
        spec.not_after = bad(c);
    }
    let what = format!("{}{}", hex(&spec.not_before), hex(&spec.not_after));
    let id = Ident { der: spec.sign(&w.ca.key), key };
    let now = *c.rng.pick(&[NOW, NOW - 2_000_000_000, NOW + 500_000_000]);
    let r = if server_role { serve(c, srv, &id, &[], now) } else { connect(c, cfg, &id, &[], now) };
    c.ev(&what);
    match r {
        Err(e) => c.inconclusive(&e.chars().take(70).collect::<String>()),
        Ok(Status::Done(Res::Panic(p))) => c.fail("panic", format!("{what}: {p}")),
        Ok(st) => {
            c.count("handshakes with malformed dates", 1);
            c.check(!matches!(st, Status::Done(Res::Ok(_))), "handshake with malformed date completed", || format!("{} with dates {what}", if server_role { "server" } else { "client" }));
        }
    }
}

pub fn run(rep: &Rep) {
    let mut rng = Rng::new(rep.seed ^ 0xc16);
    let key = EcKey::random(&mut rng);
    let sig = key.sign(&[7; 32]);
    let b = Base { key, sig };
    let days = (LAST - FIRST + 1) / 86400;
    let blocks = days as usize / 50 + 1;
    rep.group("calendar", blocks * if rep.thorough { 20 } else { 1 }, |c| {
        let i = c.idx % blocks;
        calendar(c, &b, i)
    });
    rep.group("any", rep.n(20_000, 1_000_000), |c| any(c, &b));
    rep.group("malformed", rep.n(13 * 6, 13 * 6 * 40), |c| malformed(c, &b));
    rep.group("other types", rep.n(1500, 50_000), |c| other_types(c, &b));
    let w = World::new(rep.seed);
    let srv = w.server(true);
    let cfg = w.client_cfg(false);
    rep.group("handshakes", rep.n(250, 8000), |c| handshakes(c, &w, &srv, &cfg));
    rep.group("malformed handshakes", rep.n(300, 8000), |c| bad_handshakes(c, &w, &srv, &cfg));
    rep.require("days", 36525);
    rep.require("OpenSSL agrees with the oracle", 1000);
    rep.require("malformed dates refused", 1000);
    rep.require("large certificates in handshakes", 5);
    rep.require("well-formed variants", 1000);
    rep.require("server handshakes, certificate valid", 100);
    rep.require("client handshakes, certificate valid", 100);
}
