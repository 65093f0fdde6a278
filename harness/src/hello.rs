//! ClientHello messages as conforming TLS 1.3 clients send them
use crate::rng::Rng;
use crate::tls::*;

pub const GREASE: [u16; 16] =
    [0x0a0a, 0x1a1a, 0x2a2a, 0x3a3a, 0x4a4a, 0x5a5a, 0x6a6a, 0x7a7a, 0x8a8a, 0x9a9a, 0xaaaa, 0xbaba, 0xcaca, 0xdada, 0xeaea, 0xfafa];
/// Other groups with the length of their shares
pub const GROUPS: [(u16, usize); 8] = [(0x17, 65), (0x18, 97), (0x19, 133), (0x1e, 56), (0x100, 256), (0x101, 384), (0x6399, 1216), (0x11ec, 1216)];
/// Signature schemes other than ecdsa_secp256r1_sha256
pub const SIGS: [u16; 14] = [0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601, 0x0807, 0x0808, 0x0809, 0x0201, 0x0203, 0x081a];
/// Suites a server has to ignore: TLS 1.2, CCM, SCSVs
pub const OTHER_SUITES: [u16; 12] = [0x1304, 0x1305, 0xc02b, 0xc02f, 0xc02c, 0xc030, 0xcca9, 0xcca8, 0x009c, 0x002f, 0x00ff, 0x5600];

fn sub<T: Copy>(rng: &mut Rng, v: &[T]) -> Vec<T> {
    let mut o: Vec<T> = v.iter().filter(|_| rng.bool()).copied().collect();
    rng.shuffle(&mut o);
    o
}
pub fn host(rng: &mut Rng) -> String {
    let n = *rng.pick(&[1usize, 4, 11, 63, 200, 255]);
    (0..n).map(|i| if i > 0 && i + 1 < n && i % 20 == 13 { '.' } else { (b'a' + rng.below(26) as u8) as char }).collect()
}

/// Extension types from the registry which a TLS 1.3 endpoint may look at
const KNOWN: [u16; 26] = [
    0, 1, 5, 0x0a, 0x0b, 0x0d, 0x0f, 0x10, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x1b, 0x1c, 0x23, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2f, 0x31, 0x32, 0x33,
];
/// An extension type which is none of the known ones, but may look like one
pub fn unknown_ext(rng: &mut Rng) -> u16 {
    loop {
        let k = *rng.pick(&KNOWN);
        let t = match rng.below(6) {
            0 | 1 => k | (rng.range(1, 255) as u16) << 8,
            2 => k << 8 | rng.u8() as u16,
            3 => k.swap_bytes(),
            4 => k ^ 1 << rng.below(16),
            _ => rng.u16(),
        };
        if !KNOWN.contains(&t) && t != 0xff01 && t != 0xfe0d && t != 0x30 && t > 0x3a {
            return t;
        }
    }
}

/// Any conforming client which can talk to this server
pub fn conforming(rng: &mut Rng) -> Hello {
    let mut h = Hello::new(rng);
    let own = h.get_ext(0x33).unwrap()[6..].to_vec();
    let n = *rng.pick(&[0usize, 32, 32, 1, 31, 16, 8]);
    h.sid = rng.bytes(n);
    // suites: at least one supported, the others around it
    let mut s = sub(rng, &SUITES);
    if s.is_empty() {
        s.push(*rng.pick(&SUITES));
    }
    for _ in 0..rng.below(4) {
        let at = rng.below(s.len() + 1);
        let v = if rng.bool() { *rng.pick(&OTHER_SUITES) } else { *rng.pick(&GREASE) };
        if !s.contains(&v) {
            s.insert(at, v);
        }
    }
    if rng.one_in(30) {
        // hundreds of suites
        let n = rng.range(100, 3000);
        for i in 0..n {
            s.insert(0, 0xd000 + i as u16);
        }
    }
    h.suites = s;
    // versions
    let mut v = vec![0x0304u16];
    for x in [0x0303, 0x0302, 0x0301, 0x7f1c, *rng.pick(&GREASE)] {
        if rng.one_in(3) {
            let at = rng.below(v.len() + 1);
            v.insert(at, x);
        }
    }
    if rng.one_in(20) {
        // as many as there can be
        for _ in 0..rng.range(5, 127 - v.len()) {
            let at = rng.below(v.len() + 1);
            v.insert(at, 0x7e00 + rng.below(256) as u16);
        }
    }
    let mut d = vec![v.len() as u8 * 2];
    for x in v {
        d.extend(u16b(x as usize));
    }
    h.set_ext(0x2b, d);
    // groups and shares: the shares are a subset of the groups in the same order
    let mut groups: Vec<(u16, usize)> = sub(rng, &GROUPS);
    let at = rng.below(groups.len() + 1);
    groups.insert(at, (X25519, 32));
    if rng.bool() {
        groups.insert(0, (*rng.pick(&GREASE), 1));
    }
    if rng.one_in(20) {
        // dozens of groups nobody knows, and shares for some of them
        for i in 0..rng.range(10, 100) {
            let at = rng.below(groups.len() + 1);
            groups.insert(at, (0x4000 + i as u16, rng.below(200) + 1));
        }
    }
    let mut shares = vec![];
    for (g, n) in &groups {
        if *g == X25519 {
            shares.push((*g, own.clone()));
        } else if rng.one_in(3) {
            let mut k = rng.bytes(*n);
            if [0x17, 0x18, 0x19].contains(g) {
                k[0] = 4;
            }
            shares.push((*g, k));
        }
    }
    h.set_ext(0x0a, u16list(&groups.iter().map(|g| g.0).collect::<Vec<_>>()));
    h.set_ext(0x33, ks_client(&shares));
    // signature schemes
    let mut s = sub(rng, &SIGS);
    let at = rng.below(s.len() + 1);
    s.insert(at, 0x0403);
    if rng.one_in(4) {
        s.insert(0, *rng.pick(&GREASE));
    }
    h.set_ext(0x0d, u16list(&s));
    if rng.one_in(3) {
        h.set_ext(0x32, u16list(&s));
    }
    // everything else
    if rng.one_in(3) {
        let n = host(rng);
        h.set_ext(0, sni_ext(&n));
        h.sni = Some(n);
    }
    let mut opt: Vec<(u16, Vec<u8>)> = vec![
        (0x2d, vec![1, 1]),                                    // psk_key_exchange_modes
        (0x2d, vec![2, 1, 0]),
        (0x10, vec16(&[vec8(b"h2"), vec8(b"http/1.1")].concat())), // ALPN
        (0x05, vec![1, 0, 0, 0, 0]),                           // status_request
        (0x12, vec![]),                                        // SCT
        (0x17, vec![]),                                        // extended_master_secret
        (0x23, vec![]),                                        // session_ticket
        (0x0b, vec![1, 0]),                                    // ec_point_formats
        (0xff01, vec![0]),                                     // renegotiation_info
        (0x1b, vec![4, 0, 2, 0, 1]),                           // compress_certificate
        (0x31, vec![]),                                        // post_handshake_auth
        (0x1c, vec![0x40, 0x01]),                              // record_size_limit
        (0x01, vec![4]),                                       // max_fragment_length (may be ignored)
        (0x4469, vec16(&vec8(b"h2"))),                         // ALPS
    ];
    opt.push((*rng.pick(&GREASE), vec![]));
    opt.push((*rng.pick(&GREASE), vec![0]));
    let many = if rng.one_in(20) { rng.range(20, 300) } else { 0 };
    for _ in 0..rng.below(4) + many {
        // numbers nobody knows, also those which share a byte with one that is known
        let n = rng.below(40);
        opt.push((unknown_ext(rng), rng.bytes(n)));
    }
    let l = rng.below(600);
    opt.push((0xfe0d, rng.bytes(l)));
    let l = match rng.below(12) {
        0 => rng.range(15000, 17000),
        1 => rng.range(17000, 50000),
        2..=4 => rng.range(1, 600),
        _ => 0,
    };
    opt.push((0x15, vec![0; l])); // padding
    rng.shuffle(&mut opt);
    for (t, d) in opt {
        let big = d.len() > 10000;
        if (big || rng.one_in(4)) && h.get_ext(t).is_none() {
            h.exts.push((t, d));
        }
    }
    rng.shuffle(&mut h.exts);
    if h.exts.iter().map(|e| e.1.len() + 4).sum::<usize>() > 65000 {
        h.del_ext(0x15);
    }
    h
}
