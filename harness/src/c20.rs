//! Negotiation: the server's choice among any offer, the client's view of any selection
use crate::eut::*;
use crate::hello::{conforming, host, GREASE, GROUPS, OTHER_SUITES};
use crate::ossl;
use crate::rep::{hexs, Case, Rep};
use crate::rng::Rng;
use crate::sim::{self, Caps, Eut, Res, Status};
use crate::tls::*;
use anothertls::net::client::ClientConfig;
use anothertls::ServerConnection;
use std::sync::Arc;

pub const RULE: &str = "a case is one ClientHello with any offer against a configured server, one server selection presented to the client, or two endpoints under test; distinct = (role, what was offered or selected in which order, configuration, outcome)";

struct Named {
    name: Option<String>,
    srv: Arc<ServerConnection>,
    cfg: Arc<ClientConfig>,
}
struct Set {
    w: World,
    named: Vec<Named>,
}
impl Set {
    fn new(seed: u64) -> Set {
        let w = World::new(seed);
        let mut rng = Rng::new(seed ^ 0x6e616d65);
        let mut names: Vec<Option<String>> = vec![None];
        for n in ["a", "server.test", "server.tes", "server.testx", "xn--bcher-kva.example", "localhost"] {
            names.push(Some(n.into()));
        }
        names.push(Some(host(&mut rng)));
        names.push(Some("x".repeat(255)));
        let named = names
            .into_iter()
            .map(|n| {
                let mut b = w.server_builder();
                let mut k = w.client_builder(false);
                if let Some(n) = &n {
                    b = b.set_server_name(n.clone());
                    k = k.set_server_name(n.clone());
                }
                Named { name: n, srv: sim::server(b.build().unwrap()), cfg: Arc::new(k.build().unwrap()) }
            })
            .collect();
        Set { w, named }
    }
}
fn list(rng: &mut Rng, good: &[u16], other: &[u16], max: usize) -> Vec<u16> {
    let mut v: Vec<u16> = good.iter().filter(|_| rng.bool()).copied().collect();
    for _ in 0..rng.below(max + 1) {
        v.push(if rng.bool() { *rng.pick(other) } else { *rng.pick(&GREASE) });
    }
    rng.shuffle(&mut v);
    let mut o = vec![];
    for x in v {
        if !o.contains(&x) {
            o.push(x);
        }
    }
    o
}
/// Any offer; the server has to find what both can do, or refuse
fn server(c: &mut Case, s: &Set) {
    let n = c.rng.pick_ref(&s.named);
    let mut h = conforming(&mut c.rng);
    // the versions
    let mut why: Vec<&str> = vec![];
    let mut vers = parse_u16s(&h.get_ext(0x2b).unwrap()[1..]);
    if c.rng.one_in(5) {
        match c.rng.below(3) {
            0 => vers.retain(|v| *v != 0x0304),
            1 => vers = list(&mut c.rng, &[], &[0x0303, 0x0302, 0x0301, 0x0300, 0x0305, 0x0403, 0x7f1c, 0x0034, 0x0404, 0x0004, 0x7f04, 0x8304], 6),
            _ => {}
        }
        if c.rng.one_in(6) {
            // as many as there can be
            while vers.len() < 120 {
                let at = c.rng.below(vers.len() + 1);
                vers.insert(at, 0x7e00 + c.rng.below(256) as u16);
            }
        }
        if vers.is_empty() && c.rng.bool() {
            h.del_ext(0x2b);
        } else if vers.is_empty() {
            vers.push(0x0303);
        }
        if h.get_ext(0x2b).is_some() {
            let mut d = vec![vers.len() as u8 * 2];
            for v in &vers {
                d.extend(u16b(*v as usize));
            }
            h.set_ext(0x2b, d);
        }
        if h.get_ext(0x2b).is_none() || !vers.contains(&0x0304) {
            why.push("version");
            impostor(&mut c.rng, &mut h, 0x2b, vec![2, 3, 4]);
        }
    }
    // the suites
    if c.rng.one_in(4) {
        h.suites = list(&mut c.rng, &SUITES, &[&OTHER_SUITES[..], &[0x1300, 0x1306, 0x0113, 0x0313, 0x1203, 0x1403, 0x0001, 0x0002, 0x0003, 0xc001, 0xcc02, 0x5603, 0x9301]].concat(), 6);
        if h.suites.is_empty() {
            h.suites = vec![0x1304];
        }
    } else if c.rng.one_in(3) {
        // every order of the three
        let mut v = SUITES.to_vec();
        c.rng.shuffle(&mut v);
        v.truncate(c.rng.range(1, 3));
        h.suites = v;
    }
    let common: Vec<u16> = h.suites.iter().copied().filter(|x| SUITES.contains(x)).collect();
    if common.is_empty() {
        why.push("suite");
    }
    // the shares
    let own = (X25519, ossl::x25519_public(&h.secret).to_vec());
    if c.rng.one_in(4) {
        let mut g: Vec<(u16, usize)> = GROUPS.iter().filter(|_| c.rng.one_in(3)).copied().collect();
        let with = c.rng.bool();
        if with {
            g.push((X25519, 32));
        }
        // unknown groups with 32 byte shares are no X25519
        for _ in 0..c.rng.below(3) {
            g.push((*c.rng.pick(&[0x1c, 0x1f, 0x20, 0x21d, 0x1d00, 0x0a0a]), 32));
        }
        c.rng.shuffle(&mut g);
        let sh: Vec<(u16, Vec<u8>)> = g.iter().map(|(i, n)| if *i == X25519 { own.clone() } else { (*i, c.rng.bytes(*n)) }).collect();
        let mut groups: Vec<u16> = g.iter().map(|x| x.0).collect();
        if !with && c.rng.bool() {
            // in the list, but without a share: would need a HelloRetryRequest
            groups.push(X25519);
        }
        if groups.is_empty() {
            groups.push(0x17);
        }
        h.set_ext(0x0a, u16list(&groups));
        h.set_ext(0x33, ks_client(&sh));
        if !with {
            why.push("group");
            impostor(&mut c.rng, &mut h, 0x33, ks_client(&[own.clone()]));
            if sh.is_empty() && c.rng.bool() {
                h.del_ext(0x33);
            }
        }
    }
    // the name
    h.del_ext(0);
    h.sni = None;
    let mut name = None;
    if c.rng.one_in(3) {
        let x = match (c.rng.below(6), &n.name) {
            (0, _) | (_, None) => host(&mut c.rng),
            (1, Some(n)) => format!("{n}."),
            (2, Some(n)) => format!("x{n}"),
            (3, Some(n)) if n.len() > 1 => n[..n.len() - 1].to_string(),
            (4, Some(n)) if n.len() > 1 => n[1..].to_string(),
            (_, Some(n)) => n.clone(),
        };
        name = Some(x);
    } else if c.rng.bool() {
        name = n.name.clone();
    }
    if let Some(x) = &name {
        h.set_ext(0, sni_ext(x));
        h.sni = name.clone();
        if n.name.is_some() && n.name != name {
            why.push("server name");
        }
    }
    c.rng.shuffle(&mut h.exts);
    if h.exts.iter().map(|e| e.1.len() + 4).sum::<usize>() > 65000 {
        return c.inconclusive("offer too long");
    }
    let what = format!(
        "versions {} suites {:04x?} shares {} groups {} name {:?}, server name {:?}, session id of {}",
        h.get_ext(0x2b).map(|d| hexs(d)).unwrap_or("none".into()),
        &h.suites[..h.suites.len().min(12)],
        h.get_ext(0x33).map(|d| hexs(d)).unwrap_or("none".into()),
        h.get_ext(0x0a).map(|d| hexs(d)).unwrap_or("none".into()),
        name.as_deref().map(|s| &s[..s.len().min(40)]),
        n.name.as_deref().map(|s| &s[..s.len().min(40)]),
        h.sid.len()
    );
    let key = format!("server {:?} {:04x?} {:?} {} {}", why, common, name.is_some(), n.name.is_some(), h.sid.len());
    if why.is_empty() {
        let mut o = Opts::new(common[0]);
        let sid = h.sid.clone();
        o.hello = Some(h);
        o.framing = Framing::random(&mut c.rng);
        // session id echoed, offered suite, X25519 share and TLS 1.3 are checked by the reference client
        match link_server(c, &s.w, &n.srv, o) {
            Ok(l) => {
                let sh = l.sess.sh.clone().unwrap();
                c.check(sh.sid == sid, "session id not echoed", || what.clone());
                c.check(common.contains(&sh.suite), "suite neither offered nor supported", || format!("{what}: {:04x}", sh.suite));
                if common.contains(&CHACHA) {
                    c.check(sh.suite == CHACHA, "ChaCha20-Poly1305 not preferred", || format!("{what}: {:04x}", sh.suite));
                }
                c.count(&format!("server chose {:04x}", sh.suite), 1);
                c.count("offers accepted", 1);
                if common.len() > 1 {
                    c.count("offers with several common suites", 1);
                }
                c.ev(format!("{key} {:04x}", sh.suite));
                c.sample("accepted", || format!("{what}: {:04x}", sh.suite));
            }
            Err(e) => {
                let sig = if e.contains("session id") {
                    "session id not echoed"
                } else if e.contains("was not offered") {
                    "suite neither offered nor supported"
                } else {
                    "offer with a common choice refused"
                };
                c.fail(sig, format!("{what}: {e}"))
            }
        }
        return;
    }
    let mut eut = Eut::new(Some(NOW));
    eut.accept(&n.srv);
    let m = h.msg();
    for p in Framing::random(&mut c.rng).cut(&[m.clone()], &mut c.rng) {
        eut.conn.feed(&record(HS, &p));
    }
    let st = eut.wait(c);
    let out = eut.conn.take();
    match &st {
        Status::Done(Res::Err(e)) => {
            let (recs, _) = records(&out);
            c.check(recs.iter().all(|r| r.typ == ALERT), "server selection sent although refused", || format!("{what}: {e:?}, sent {}", hexs(&out)));
            for w in &why {
                c.count(&format!("refused: {w}"), 1);
            }
            c.ev(format!("{key} {e:?}"));
            c.sample(why[0], || format!("{what}: {e:?}"));
        }
        Status::Done(Res::Panic(p)) => c.fail("panic", format!("{what}: {p}")),
        // it answered: does it complete?
        s => {
            c.fail(&format!("not refused: {}", why[0]), format!("{what}: {s:?}, sent {}", hexs(&out)));
        }
    }
}
fn parse_u16s(b: &[u8]) -> Vec<u16> {
    b.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect()
}
trait PickRef {
    fn pick_ref<'a, T>(&mut self, v: &'a [T]) -> &'a T;
}
impl PickRef for Rng {
    fn pick_ref<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Sometimes: what is missing, in an extension whose number looks similar
fn impostor(rng: &mut Rng, h: &mut Hello, t: u16, d: Vec<u8>) {
    if rng.one_in(3) {
        let t = alike(rng, t);
        h.set_ext(t, d);
    }
}
fn alike(rng: &mut Rng, t: u16) -> u16 {
    match rng.below(3) {
        0 => t << 8 | rng.u8() as u16,
        1 => t | 0x8000,
        _ => t | (rng.range(1, 255) as u16) << 8,
    }
}
const CLASS: [&str; 16] = [
    "version", "version", "version", "legacy version", "suite", "suite", "group", "group", "key share", "session id", "session id", "compression", "key share",
    "extension", "", "",
];
/// Any selection, the remaining handshake being consistent with it
fn client(c: &mut Case, s: &Set) {
    let n = c.rng.pick_ref(&s.named);
    let caps = Caps::random(&mut c.rng);
    let (mut eut, info, raw) = match start_client(c, &n.cfg, caps, Caps::All, NOW) {
        Ok(x) => x,
        Err(e) => return c.inconclusive(&e.chars().take(60).collect::<String>()),
    };
    c.check(info.sni == n.name, "name offered differs from the configured one", || format!("{:?} instead of {:?}", info.sni, n.name));
    let vers = parse_u16s(&info.exts.iter().find(|e| e.0 == 0x2b).unwrap().1[1..]);
    c.check(vers == [0x0304], "another version offered", || format!("{vers:04x?}"));
    c.check(info.suites.iter().all(|x| SUITES.contains(x)), "a suite offered that is not implemented", || format!("{:04x?}", info.suites));
    let offered: Vec<u16> = info.suites.iter().copied().filter(|x| SUITES.contains(x)).collect();
    let suite = *c.rng.pick(&offered);
    let mut spec = ServerSpec::new(suite, &s.w.server, &mut c.rng);
    spec.ccs = true;
    if c.rng.one_in(6) {
        // a downgrade mark is no reason against TLS 1.3 itself
        spec.random[24..31].copy_from_slice(b"DOWNGRD");
    }
    let kind = c.rng.below(16);
    let mut rng = c.rng.clone();
    let mut what = "as offered".to_string();
    let order = rng.bool();
    let mut edit = |l: &'static str, m: Vec<u8>| -> Vec<Vec<u8>> {
        if l != "ServerHello" {
            return vec![m];
        }
        let sh = parse_server_hello(&m).unwrap();
        let (mut ver, mut sid, mut id, mut comp) = (0x0303usize, sh.sid.clone(), sh.suite, 0u8);
        let mut vers: Option<Vec<u8>> = Some(vec![3, 4]);
        let mut group = X25519;
        let mut key = Some(sh.share.to_vec());
        let mut types = [0x2bu16, 0x33];
        match kind {
            0 => {
                let v = *rng.pick(&[[3u8, 3], [3, 2], [3, 1], [3, 0], [3, 5], [0x7f, 0x1c], [0x0a, 0x0a], [4, 3], [0, 0]]);
                vers = Some(v.to_vec());
                what = format!("supported_versions {v:?}");
            }
            1 => {
                vers = None;
                what = "no supported_versions".into();
            }
            2 => {
                let v = *rng.pick(&[&[3u8][..], &[], &[3, 4, 3], &[2, 3, 4], &[3, 3, 3, 4], &[3, 4, 3, 3]]);
                vers = Some(v.to_vec());
                what = format!("supported_versions {v:?}");
            }
            3 => {
                ver = *rng.pick(&[0x0301, 0x0302, 0x0300, 0x0304, 0x0203, 0xfefd]);
                what = format!("legacy version {ver:04x}");
                if rng.bool() {
                    vers = None
                }
            }
            4 | 5 => {
                id = loop {
                    let x = match rng.below(4) {
                        0 => *rng.pick(&OTHER_SUITES),
                        1 => *rng.pick(&GREASE),
                        2 => sh.suite ^ (1 << rng.below(16)),
                        _ => rng.u16(),
                    };
                    if !info.suites.contains(&x) {
                        break x;
                    }
                };
                what = format!("suite {id:04x}");
            }
            6 | 7 => {
                group = *rng.pick(&[0x17u16, 0x18, 0x1e, 0x1c, 0x1f, 0x11ec, 0x0a0a, 0x1d00, 0x2d, 0x9d, 0, 0x100]);
                what = format!("group {group:04x}");
                if rng.one_in(4) {
                    // right length for the group
                    let n = GROUPS.iter().find(|g| g.0 == group).map(|g| g.1).unwrap_or(32);
                    key = Some(rng.bytes(n));
                }
            }
            8 => {
                key = None;
                what = "no key share".into();
            }
            9 | 10 => {
                match rng.below(7) {
                    0 => {
                        let i = rng.below(sid.len());
                        sid[i] ^= 1 << rng.below(8)
                    }
                    1 => sid.clear(),
                    2 => {
                        sid.pop();
                    }
                    3 => {
                        sid.remove(0);
                    }
                    4 => sid = rng.bytes(32),
                    5 => sid = crate::mutate::corrupt(&mut rng, &sid).1,
                    _ => {
                        let i = rng.below(sid.len());
                        sid.truncate(i)
                    }
                }
                what = format!("session id {}", hexs(&sid));
            }
            11 => {
                comp = 1 << rng.below(8);
                what = format!("compression {comp}");
            }
            12 => {
                // a share of wrong length or low order
                let k = key.as_mut().unwrap();
                match rng.below(4) {
                    0 => k.push(0),
                    1 => {
                        k.pop();
                    }
                    2 => k.clear(),
                    _ => k.insert(0, 4),
                }
                what = format!("share of {} bytes", k.len());
            }
            13 => {
                types[rng.below(2)] = 0;
                for (t, w) in types.iter_mut().zip([0x2b, 0x33]) {
                    if *t == 0 {
                        *t = alike(&mut rng, w);
                    }
                }
                what = format!("extensions {types:04x?}");
            }
            _ => {}
        }
        let mut b = u16b(ver).to_vec();
        b.extend(sh.random);
        b.extend(vec8(&sid));
        b.extend(u16b(id as usize));
        b.push(comp);
        let mut e = vec![];
        if let Some(v) = &vers {
            e.push(ext(types[0], v));
        }
        if let Some(k) = &key {
            let mut d = u16b(group as usize).to_vec();
            d.extend(vec16(k));
            e.push(ext(types[1], &d));
        }
        if order {
            e.reverse();
        }
        b.extend(vec16(&e.concat()));
        vec![msg(SH, &b)]
    };
    let r = server_flight(&spec, &info, &raw, &mut edit);
    let (mut sess, plain, prot) = match r {
        Ok(x) => x,
        Err(e) => return c.inconclusive(&e),
    };
    let ok = what == "as offered";
    for p in &plain {
        eut.conn.feed(&record(HS, p));
    }
    let mut d = sess.s_hs.clone();
    for r in protect(&mut d, &prot, Framing::random(&mut c.rng), 0, &mut c.rng) {
        eut.conn.feed(&r);
    }
    sess.s_hs = d;
    let mut st = eut.wait(c);
    if st.blocked() {
        eut.conn.eof();
        st = eut.wait(c);
    }
    let out = eut.conn.take();
    let key: String = what.chars().take(24).collect();
    match (&st, ok) {
        (Status::Done(Res::Ok(_)), true) => {
            if let Err(e) = sess.server_process(&out) {
                c.fail("client's second flight does not fit the selection", format!("suite {suite:04x}: {e}"));
            }
            c.count(&format!("client accepted {suite:04x}"), 1);
            c.count("selections accepted", 1);
        }
        (Status::Done(Res::Ok(_)), false) => {
            let cl = CLASS[kind];
            c.fail(&format!("selection not offered accepted: {}", cl), format!("{what}, suite {suite:04x}"))
        }
        (Status::Done(Res::Err(e)), false) => {
            // nothing but alerts
            let (recs, _) = records(&out);
            c.check(recs.len() <= 1, "client goes on with a selection it did not offer", || format!("{what}: {e:?}, sent {}", hexs(&out)));
            let cl = CLASS[kind];
            c.count(&format!("client refused: {}", cl), 1);
            c.count("selections refused", 1);
        }
        (s, _) => c.fail(if ok { "offered selection refused" } else { "no refusal" }, format!("{what}, suite {suite:04x}: {s:?}, sent {}", hexs(&out))),
    }
    c.ev(format!("client {key} {suite:04x} {:?}", matches!(st, Status::Done(Res::Ok(_)))));
    c.sample(if ok { "as offered" } else { "deviation" }, || format!("{what}, suite {suite:04x}: {st:?}"));
}
/// Two endpoints under test: complete exactly when the names agree
fn both(c: &mut Case, s: &Set) {
    let a = c.rng.pick_ref(&s.named);
    let b = if c.rng.bool() { a } else { c.rng.pick_ref(&s.named) };
    let mut srv = Eut::new(Some(NOW));
    let mut cli = Eut::new(Some(NOW));
    srv.conn.set_caps(Caps::random(&mut c.rng), Caps::All);
    cli.conn.set_caps(Caps::random(&mut c.rng), Caps::All);
    srv.accept(&a.srv);
    cli.connect(&b.cfg);
    let (mut c2s, mut s2c) = (vec![], vec![]);
    let (_, st) = {
        let r = pump(c, &mut cli, &mut srv, &mut |x, d| {
            if x {
                c2s.extend(&d)
            } else {
                s2c.extend(&d)
            }
            d
        });
        (r.0, r.1)
    };
    let ct = cli.wait(c);
    let want = a.name.is_none() || b.name.is_none() || a.name == b.name;
    let done = |s: &Status| matches!(s, Status::Done(Res::Ok(_)));
    let what = format!("server name {:?}, client {:?}: server {st:?}, client {ct:?}", a.name, b.name);
    if want {
        c.check(done(&st) && done(&ct), "endpoints with matching configurations do not connect", || what.clone());
        c.count("pairs connected", 1);
        if let Some(r) = records(&s2c).0.first() {
            match parse_server_hello(&r.body) {
                Ok(h) => {
                    c.check(h.suite == CHACHA, "ChaCha20-Poly1305 not preferred", || format!("{:04x}", h.suite));
                    let m = records(&c2s).0[0].body.clone();
                    if let Ok(i) = parse_client_hello(&m) {
                        c.check(i.sid == h.sid, "session id not echoed", || hexs(&r.body));
                    }
                }
                Err(e) => c.fail("ServerHello", e),
            }
        }
    } else {
        c.check(!done(&st) && !done(&ct), "endpoints with different names connect", || what.clone());
        c.count("pairs refused", 1);
    }
    c.ev(format!("both {:?} {:?}", a.name.as_ref().map(|n| n.len()), b.name.as_ref().map(|n| n.len())));
}

pub fn run(rep: &Rep) {
    let s = Set::new(rep.seed);
    rep.group("server", rep.n(4_000, 80_000), |c| server(c, &s));
    rep.group("client", rep.n(3_000, 60_000), |c| client(c, &s));
    rep.group("both", rep.n(300, 4_000), |c| both(c, &s));
    for x in SUITES {
        rep.require(&format!("server chose {x:04x}"), 50);
        rep.require(&format!("client accepted {x:04x}"), 20);
    }
    for x in ["version", "suite", "group", "server name"] {
        rep.require(&format!("refused: {x}"), 50);
    }
    rep.require("offers with several common suites", 100);
    for x in ["version", "legacy version", "suite", "group", "key share", "session id", "compression", "extension"] {
        rep.require(&format!("client refused: {x}"), 50);
    }
    rep.require("pairs connected", 50);
    rep.require("pairs refused", 50);
}
