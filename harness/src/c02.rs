//! C02: tampered, replayed, reordered, dropped or injected records never yield wrong data
use crate::eut::*;
use crate::rep::{hexs, Case, Rep};
use crate::sim::{Caps, Res, Status};
use crate::tls::*;

pub const RULE: &str = "distinct = (role, suite, kind of attack, where in the stream and in the record it hits, what the reader answered)";

struct Attack {
    name: String,
    raw: Vec<u8>,
    /// The change may be ignored (unauthenticated change_cipher_spec): the genuine stream may go on
    may_ignore: bool,
}

fn mutate_record(c: &mut Case, r: &[u8]) -> (String, Vec<u8>) {
    let mut v = r.to_vec();
    let n = v.len();
    match c.rng.below(14) {
        0 => {
            let i = c.rng.below(5);
            v[i] ^= 1 << c.rng.below(8);
            (format!("flip header byte {i}"), v)
        }
        1 | 2 => {
            let i = c.rng.range(5, n - 17);
            v[i] ^= 1 << c.rng.below(8);
            ("flip ciphertext".into(), v)
        }
        3 => {
            let i = c.rng.range(n - 16, n - 1);
            v[i] ^= 1 << c.rng.below(8);
            (format!("flip tag byte {}", i + 16 - n), v)
        }
        4 => {
            // shortened, with the length field adjusted
            let k = c.rng.range(1, (n - 5).min(40));
            v.truncate(n - k);
            let l = u16b(v.len() - 5);
            v[3..5].copy_from_slice(&l);
            (format!("shorten {k}"), v)
        }
        5 => {
            let k = c.rng.range(1, 40);
            v.extend(c.rng.bytes(k));
            let l = u16b(v.len() - 5);
            v[3..5].copy_from_slice(&l);
            ("extend".into(), v)
        }
        6 => {
            let k = c.rng.range(1, (n - 5).min(40));
            v.truncate(n - k);
            (format!("cut {k} bytes out"), v)
        }
        7 => {
            v.insert(c.rng.range(5, n), 0);
            ("insert a zero byte".into(), v)
        }
        8 => {
            let (w, t) = crate::mutate::corrupt(&mut c.rng, &r[n - 16..]);
            v[n - 16..].copy_from_slice(&t);
            (format!("tag: {w}"), v)
        }
        9 => {
            v[0] = *c.rng.pick(&[20, 21, 22, 24, 0, 255]);
            (format!("outer type {}", v[0]), v)
        }
        10 => {
            let ver = *c.rng.pick(&[[3u8, 1], [3, 4], [0, 0], [3, 2], [2, 3]]);
            v[1..3].copy_from_slice(&ver);
            (format!("version {ver:?}"), v)
        }
        11 => {
            let k = c.rng.range(0, 16);
            v.truncate(5 + k);
            let l = u16b(k);
            v[3..5].copy_from_slice(&l);
            (format!("only {k} bytes left"), v)
        }
        12 => {
            // several flips
            for _ in 0..c.rng.range(2, 8) {
                let i = c.rng.range(5, n - 1);
                v[i] ^= c.rng.u8() | 1;
            }
            if v == r {
                v[n - 1] ^= 1;
            }
            ("several flips".into(), v)
        }
        _ => {
            // rotate the payload by one block
            let (w, p) = crate::mutate::corrupt(&mut c.rng, &r[5..]);
            v[5..].copy_from_slice(&p);
            (format!("payload: {w}"), v)
        }
    }
}

/// recs: honest records with increasing sequence numbers; own: a record the EUT sent;
/// old: genuine records of other keys
fn attack(c: &mut Case, recs: &[Vec<u8>], own: &[u8], old: &[Vec<u8>]) -> Attack {
    let n = recs.len();
    let k = c.rng.below(n);
    let mut v: Vec<Vec<u8>> = recs.to_vec();
    let mut may_ignore = false;
    let name = match c.rng.below(15) {
        0..=4 => {
            let (name, m) = mutate_record(c, &recs[k]);
            v[k] = m;
            name
        }
        5 => {
            v.remove(k);
            "drop".into()
        }
        6 => {
            let r = recs[k].clone();
            v.insert(k, r);
            "duplicate".into()
        }
        7 => {
            let r = recs[k].clone();
            let at = c.rng.range(k + 1, n);
            v.insert(at, r);
            "replay later".into()
        }
        8 => {
            let j = (k + 1) % n;
            v.swap(k, j);
            "swap".into()
        }
        9 => {
            v[k..].reverse();
            if k + 1 == n {
                v.remove(0);
            }
            "reverse".into()
        }
        10 => {
            v.insert(k, own.to_vec());
            "reflect".into()
        }
        11 => {
            let o = c.rng.pick(old).clone();
            v.insert(k, o);
            "record of other keys".into()
        }
        12 => {
            // one record split in two / two records merged into one
            if c.rng.bool() || n < 2 {
                let b = &recs[k][5..];
                let cut = c.rng.range(1, b.len() - 1);
                v[k] = [record(APP, &b[..cut]), record(APP, &b[cut..])].concat();
                "split".into()
            } else {
                let j = if k + 1 < n { k } else { k - 1 };
                let m = [&recs[j][5..], &recs[j + 1][5..]].concat();
                if m.len() < 16000 {
                    v[j] = record(APP, &m);
                    v.remove(j + 1);
                    "merge".into()
                } else {
                    v.remove(j);
                    "drop".into()
                }
            }
        }
        13 => {
            // head of one record, tail of another
            let j = (k + 1) % n;
            let (a, b) = (&recs[k][5..], &recs[j][5..]);
            let cut = c.rng.below(a.len().min(b.len()));
            v[k] = record(APP, &[&a[..cut], &b[cut..]].concat());
            "splice".into()
        }
        _ => {
            let body = c.rng.range(0, 60);
            let body = c.rng.bytes(body);
            let (r, what) = match c.rng.below(9) {
                0 => (record(APP, &body), "garbage application record"),
                1 => (record(ALERT, &[1, 0]), "plaintext close_notify"),
                2 => (record(ALERT, &[2, 40]), "plaintext alert"),
                3 => (record(HS, &msg(NST, &body)), "plaintext handshake"),
                4 => {
                    may_ignore = true;
                    (record(CCS, &[1]), "change_cipher_spec")
                }
                5 => (record(CCS, &body), "odd change_cipher_spec"),
                6 => (record(c.rng.u8(), &body), "record of any type"),
                7 => (record(APP, &[]), "empty application record"),
                _ => {
                    let l = c.rng.range(16385, 20000);
                    (record(APP, &c.rng.bytes(l)), "huge garbage record")
                }
            };
            v.insert(k, r);
            format!("inject {what}")
        }
    };
    Attack {
        name,
        raw: v.concat(),
        may_ignore,
    }
}

/// Feeds `raw` instead of the honest records and judges what the application gets
#[allow(clippy::too_many_arguments)]
fn judge(c: &mut Case, l: &mut Link, name: &str, raw: &[u8], may_ignore: bool, recs: &[Vec<u8>], data: &[Vec<u8>], more: &[Vec<u8>], tag: &str) {
    let honest: Vec<u8> = recs.concat();
    if honest == raw {
        return;
    }
    let dev = honest.iter().zip(raw).position(|(a, b)| a != b).unwrap_or(honest.len().min(raw.len()));
    // records which are complete before the first difference
    let mut end = 0;
    let mut intact = vec![];
    let mut first = recs.len();
    for (i, r) in recs.iter().enumerate() {
        end += r.len();
        if end <= dev {
            intact.extend_from_slice(&data[i]);
        } else {
            first = i;
            break;
        }
    }
    let all: Vec<u8> = data.concat();
    let at = if first < recs.len() {
        dev - recs[..first].iter().map(|r| r.len()).sum::<usize>()
    } else {
        0
    };
    let ctx = format!("{tag}, {name}, first difference in record {first} of {} at its byte {at}", recs.len());
    l.eut.conn.feed(raw);
    let mut bs = {
        let mut r = c.rng.clone();
        c.rng.u64();
        move || *r.pick(&[1usize, 7, 100, 20000, 20000])
    };
    let (mut got, mut st) = read_all(c, &mut l.eut, &mut bs, 1 << 20);
    let mut waited = false;
    if st.blocked() {
        // the attacker may have lengthened a record: let the rest of the honest stream follow
        waited = true;
        l.eut.conn.feed(&more.concat());
        if let Status::Done(Res::Ok(d)) = l.eut.wait(c) {
            got.extend(d);
            let (g, s) = read_all(c, &mut l.eut, &mut bs, 1 << 20);
            got.extend(g);
            st = s;
        } else {
            st = l.eut.wait(c);
        }
        if st.blocked() {
            l.eut.conn.eof();
            st = l.eut.wait(c);
        }
    }
    c.count("bytes delivered and compared", got.len() as u64);
    if !all.starts_with(&got) {
        c.fail(
            "wrong data delivered",
            format!("{ctx}: delivered {} bytes that are no prefix of what was sent: {}", got.len(), hexs(&got)),
        );
        return;
    }
    if got.len() > intact.len() && !may_ignore {
        c.fail(
            "data delivered behind a tampered record",
            format!("{ctx}: delivered {} bytes, only {} lie before the change", got.len(), intact.len()),
        );
        return;
    }
    let err = match &st {
        Status::Done(Res::Err(e)) => *e,
        _ => {
            if !may_ignore {
                c.fail("no error reported", format!("{ctx}: {st:?}"));
            }
            return;
        }
    };
    c.ev(format!("{tag} {name} {first} {at} {waited} {err:?}"));
    c.count(&format!("error {err:?}"), 1);
    // the error is final: neither the honest continuation nor anything else is delivered
    l.eut.conn.feed(&recs[first.min(recs.len() - 1)..].concat());
    l.eut.conn.feed(&more.concat());
    for i in 0..4 {
        let n = [1, 100, 20000, 5][i];
        l.eut.read(n);
        let st = match l.eut.wait(c) {
            Status::Blocked => {
                l.eut.conn.eof();
                l.eut.wait(c)
            }
            s => s,
        };
        match st {
            Status::Done(Res::Err(_)) => {}
            s => {
                c.fail("data after an error", format!("{ctx}: the read failed with {err:?}, a later read gives {s:?}"));
                return;
            }
        }
    }
    c.sample(name, || format!("{ctx}: {err:?} after {} bytes", got.len()));
}

struct Setup {
    l: Link,
    recs: Vec<Vec<u8>>,
    data: Vec<Vec<u8>>,
    more: Vec<Vec<u8>>,
    own: Vec<u8>,
    old: Vec<Vec<u8>>,
    tag: String,
}
fn setup(c: &mut Case, w: &World, server: bool, suite: u16, n: usize, sizes: &mut dyn FnMut(&mut Case) -> usize) -> Option<Setup> {
    let mut o = Opts::new(suite);
    o.client_auth = c.rng.one_in(5);
    let role = if server { "server" } else { "client" };
    let mut l = match link(c, w, server, o) {
        Ok(l) => l,
        Err(e) => {
            // judged by C08 and C09
            c.inconclusive(&format!("no connection: {}", e.chars().take(80).collect::<String>()));
            return None;
        }
    };
    // a record the EUT itself sent with application keys
    l.eut.write(b"reflected text".to_vec());
    let _ = l.eut.wait(c);
    let own = l.eut.conn.take();
    let mut hs = if server { l.sess.c_hs.clone() } else { l.sess.s_hs.clone() };
    let mut hs0 = hs.clone();
    hs0.seq = 0;
    let mut other = l.tx().clone();
    other.key[3] ^= 1;
    let mut wrong_iv = l.tx().clone();
    wrong_iv.iv[0] ^= 1;
    let mut future = l.tx().clone();
    future.seq = 1 << 32;
    let old = vec![
        hs.seal(APP, b"sealed with handshake keys", 0),
        hs0.seal(APP, b"sealed with handshake keys", 0),
        other.seal(APP, b"sealed with another key", 0),
        wrong_iv.seal(APP, b"sealed with another iv", 0),
        future.seal(APP, b"sealed far ahead", 0),
    ];
    let mut recs = vec![];
    let mut data = vec![];
    for _ in 0..n {
        let k = sizes(c);
        let d = c.rng.bytes(k);
        let pad = if c.rng.one_in(3) { c.rng.below(30) } else { 0 };
        recs.push(l.tx().seal(APP, &d, pad));
        data.push(d);
    }
    let mut more = vec![];
    for _ in 0..2 {
        let d = c.rng.bytes(700);
        more.push(l.tx().seal(APP, &d, 0));
    }
    Some(Setup {
        l,
        recs,
        data,
        more,
        own,
        old,
        tag: format!("{role} {suite:04x}"),
    })
}

fn random(c: &mut Case, w: &World, server: bool) {
    let suite = *c.rng.pick(&SUITES);
    let n = c.rng.range(1, 6);
    let Some(mut s) = setup(c, w, server, suite, n, &mut |c| match c.rng.below(8) {
        0 => 1,
        1 => c.rng.range(1, 17),
        2 => c.rng.range(1000, 16384),
        _ => c.rng.range(1, 200),
    }) else {
        return;
    };
    let a = attack(c, &s.recs, &s.own, &s.old);
    s.l.eut.conn.set_caps(Caps::random(&mut c.rng), Caps::All);
    judge(c, &mut s.l, &a.name, &a.raw, a.may_ignore, &s.recs, &s.data, &s.more, &s.tag);
}

/// Every single bit of a short record
fn every_bit(c: &mut Case, w: &World, suite: u16, server: bool, bit: usize) {
    let Some(mut s) = setup(c, w, server, suite, 2, &mut |_| 9) else {
        return;
    };
    // the first record is 5 + 9 + 1 + 16 (+ padding) long
    let mut raw = s.recs.concat();
    let b = bit % (raw.len() * 8);
    raw[b / 8] ^= 1 << (b % 8);
    judge(c, &mut s.l, "single bit", &raw, false, &s.recs, &s.data, &s.more, &s.tag);
}
/// Every truncated tag and every length
fn every_cut(c: &mut Case, w: &World, suite: u16, server: bool, k: usize) {
    let Some(mut s) = setup(c, w, server, suite, 2, &mut |_| 9) else {
        return;
    };
    let r = &s.recs[0];
    let n = r.len() - 5;
    let k = k % n;
    let raw = [record(APP, &r[5..5 + k]), s.recs[1].clone()].concat();
    judge(c, &mut s.l, "shortened", &raw, false, &s.recs, &s.data, &s.more, &s.tag);
}

/// Replays over a long distance: the record that was valid 2^k records earlier (or later)
fn distant(c: &mut Case, w: &World) {
    let server = c.idx % 2 == 0;
    let suite = SUITES[c.idx / 2 % 3];
    let k = c.idx / 6 % 64;
    let Some(mut s) = setup(c, w, server, suite, 1, &mut |_| 9) else {
        return;
    };
    let low = 1u64 << k;
    let now = low + c.rng.u64() % (u64::MAX - 8 - low);
    let later = now.checked_add(low);
    let (what, seq) = match later {
        Some(l) if c.rng.bool() => ("later", l),
        _ => ("earlier", now - low),
    };
    {
        if !crate::seq::set(c, &mut s.l.eut, false, now) {
            c.count("hook not available", 1);
            return;
        }
        let mut d = s.l.tx().clone();
        d.seq = seq;
        let raw = d.seal(APP, b"not now", 0);
        d.seq = now;
        let good = vec![d.seal(APP, b"this is the one", 0)];
        let more = vec![d.seal(APP, b"behind it", 0)];
        let data = vec![b"this is the one".to_vec()];
        let tag = format!("{} now={now:#x}", s.tag);
        judge(
            c,
            &mut s.l,
            &format!("record sealed 2^{k} records {what}"),
            &raw,
            false,
            &good,
            &data,
            &more,
            &tag,
        );
    }
}

pub fn run(r: &Rep) {
    let w = World::new(r.seed);
    r.group("server", r.n(1200, 20000), |c| random(c, &w, true));
    r.group("client", r.n(1200, 20000), |c| random(c, &w, false));
    // 2 records, each up to (5 + 10 + 29 + 16) bytes; the shortest two are 62 bytes = 496 bits
    let bits = r.n(496, 800);
    r.group("every-bit", bits * r.n(1, 6), |c| {
        let (role, suite) = if c.thorough() {
            (c.idx / bits % 2 == 0, SUITES[c.idx / bits / 2])
        } else {
            (c.idx % 2 == 0, SUITES[c.idx % 3])
        };
        every_bit(c, &w, suite, role, c.idx % bits)
    });
    r.group("every-length", r.n(60, 600), |c| {
        let i = c.idx;
        every_cut(c, &w, SUITES[i % 3], i % 2 == 0, i / 6 * r.n(3, 1))
    });
    r.group("distant", r.n(64 * 6, 64 * 6 * 20), |c| distant(c, &w));
    r.require("error BadRecordMac", 300);
    r.require("bytes delivered and compared", 10_000);
}
