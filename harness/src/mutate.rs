//! Mutations of byte strings and DER trees
use crate::der;
use crate::rng::Rng;

pub fn bytes(rng: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    for _ in 0..*rng.pick(&[1usize, 1, 1, 2, 3, 6]) {
        if v.is_empty() {
            let n = rng.range(1, 8);
            v = rng.bytes(n);
            continue;
        }
        let n = v.len();
        let i = rng.below(n);
        match rng.below(12) {
            0 | 1 => v[i] ^= 1 << rng.below(8),
            2 | 3 => v[i] = *rng.pick(&[0u8, 1, 2, 3, 4, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xfe, 0xff]),
            4 => v[i] = v[i].wrapping_add(*rng.pick(&[1u8, 255, 2, 16])),
            5 => {
                let k = rng.range(1, (n - i).min(40));
                v.drain(i..i + k);
            }
            6 => {
                let k = rng.range(1, (n - i).min(60));
                let s = v[i..i + k].to_vec();
                let at = rng.below(v.len() + 1);
                v.splice(at..at, s);
            }
            7 => {
                let k = rng.range(1, 20);
                let s = if rng.bool() { vec![*rng.pick(&[0u8, 0xff]); k] } else { rng.bytes(k) };
                v.splice(i..i, s);
            }
            8 => v.truncate(i),
            9 => {
                // 16-bit length fields
                if i + 1 < n {
                    let x = *rng.pick(&[0u16, 1, 2, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x4000, 0x4001]);
                    v[i..i + 2].copy_from_slice(&x.to_be_bytes());
                }
            }
            10 => {
                if i + 2 < n {
                    let x = *rng.pick(&[0u32, 1, 0xffffff, 0x800000, 0x10000, 0x20000, 0xffff]);
                    v[i..i + 3].copy_from_slice(&x.to_be_bytes()[1..]);
                }
            }
            _ => {
                let k = rng.range(1, 30);
                v.extend(rng.bytes(k));
            }
        }
    }
    v
}

/// Another value of the same length: also those which a sloppy comparison takes for the same,
/// because of a checksum, an order or a part that is not looked at
pub fn corrupt(rng: &mut Rng, d: &[u8]) -> (&'static str, Vec<u8>) {
    let n = d.len();
    assert!(n >= 2);
    loop {
        let mut v = d.to_vec();
        let (i, mut j) = (rng.below(n), rng.below(n - 1));
        if j >= i {
            j += 1;
        }
        let x = rng.range(1, 255) as u8;
        let what = match rng.below(16) {
            0 | 1 => {
                v[i] ^= 1 << rng.below(8);
                "bit flip"
            }
            2 => {
                v[i] ^= x;
                v[j] ^= x;
                "two bytes changed alike"
            }
            3 => {
                v[i] = v[i].wrapping_add(x);
                v[j] = v[j].wrapping_sub(x);
                "two bytes changed, same sum"
            }
            4 => {
                v.swap(i, j);
                "two bytes swapped"
            }
            5 => {
                v.reverse();
                "reversed"
            }
            6 => {
                v.rotate_left(i);
                "rotated"
            }
            7 => {
                let k = *rng.pick(&[2usize, 4, 8]);
                v.chunks_mut(k).for_each(|w| w.reverse());
                "words reversed"
            }
            8 => {
                rng.shuffle(&mut v);
                "shuffled"
            }
            9 => {
                let r = rng.bytes(n - i);
                v[i..].copy_from_slice(&r);
                "end replaced"
            }
            10 => {
                let r = rng.bytes(i + 1);
                v[..i + 1].copy_from_slice(&r);
                "beginning replaced"
            }
            11 => {
                v.iter_mut().for_each(|b| *b = !*b);
                "complement"
            }
            12 => {
                v.fill(0);
                "zeros"
            }
            13 => {
                v[n - 1] ^= x;
                "last byte changed"
            }
            14 => {
                v[0] ^= x;
                "first byte changed"
            }
            _ => {
                // everything but a few bytes
                let k = rng.range(1, n.min(8));
                let r = rng.bytes(n);
                let at = rng.below(n - k + 1);
                let keep = v[at..at + k].to_vec();
                v.copy_from_slice(&r);
                v[at..at + k].copy_from_slice(&keep);
                "few bytes kept"
            }
        };
        if v != d {
            return (what, v);
        }
    }
}

#[derive(Clone)]
pub enum Node {
    Prim(u8, Vec<u8>),
    Cons(u8, Vec<Node>),
    Raw(Vec<u8>),
}
/// Parses definite-length DER; anything else becomes Raw
pub fn parse(d: &[u8]) -> Vec<Node> {
    let mut o = vec![];
    let mut p = 0;
    while p < d.len() {
        let (Some(tag), Some(l)) = (d.get(p), d.get(p + 1)) else {
            o.push(Node::Raw(d[p..].to_vec()));
            break;
        };
        let (len, head) = if *l < 0x80 {
            (*l as usize, 2)
        } else {
            let k = (*l & 0x7f) as usize;
            if k == 0 || k > 3 || p + 2 + k > d.len() {
                o.push(Node::Raw(d[p..].to_vec()));
                break;
            }
            (d[p + 2..p + 2 + k].iter().fold(0, |a, b| a << 8 | *b as usize), 2 + k)
        };
        if p + head + len > d.len() {
            o.push(Node::Raw(d[p..].to_vec()));
            break;
        }
        let body = &d[p + head..p + head + len];
        if tag & 0x20 != 0 {
            o.push(Node::Cons(*tag, parse(body)));
        } else {
            o.push(Node::Prim(*tag, body.to_vec()));
        }
        p += head + len;
    }
    o
}
pub fn encode(n: &[Node]) -> Vec<u8> {
    n.iter()
        .flat_map(|n| match n {
            Node::Prim(t, b) => der::tlv(*t, b),
            Node::Cons(t, c) => der::tlv(*t, &encode(c)),
            Node::Raw(b) => b.clone(),
        })
        .collect()
}
fn count(n: &[Node]) -> usize {
    n.iter().map(|x| if let Node::Cons(_, c) = x { 1 + count(c) } else { 1 }).sum()
}
fn apply(n: &mut Vec<Node>, k: &mut usize, f: &mut dyn FnMut(&mut Vec<Node>, usize)) -> bool {
    for i in 0..n.len() {
        if *k == 0 {
            f(n, i);
            return true;
        }
        *k -= 1;
        if let Node::Cons(_, c) = &mut n[i] {
            if apply(c, k, f) {
                return true;
            }
        }
    }
    false
}
/// A length in another form: non-minimal, indefinite, too large, too many length bytes
pub fn odd_length(rng: &mut Rng, tag: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut v = vec![tag];
    match rng.below(9) {
        0 => v.extend([0x81, n as u8]),
        1 => v.extend([0x82, (n >> 8) as u8, n as u8]),
        2 => v.extend([0x84, 0, 0, (n >> 8) as u8, n as u8]),
        3 => v.push(0x80),
        4 => {
            let k = rng.range(1, 127);
            v.push(0x80 | k as u8);
            v.extend(vec![0u8; k - 1]);
            v.push(n as u8);
        }
        5 => {
            let k = rng.range(1, 127);
            v.push(0x80 | k as u8);
            v.extend(vec![0xffu8; k]);
        }
        6 => v.push(((n + rng.range(1, 5)) as u8) & 0x7f),
        7 => v.push((n.saturating_sub(rng.range(1, 5)) as u8) & 0x7f),
        _ => v.push(0xff),
    }
    v.extend_from_slice(body);
    v
}
fn deep(rng: &mut Rng) -> Vec<u8> {
    // thousands of levels; lengths are right as far as they can be
    let tag = *rng.pick(&[0x30u8, 0x31, 0xa0, 0xa3]);
    let n = *rng.pick(&[10usize, 100, 1000, 6000]);
    if rng.bool() {
        let mut v = vec![];
        for _ in 0..n.min(1500) {
            v = der::tlv(tag, &v);
        }
        v
    } else {
        [tag, 0x80].repeat(n)
    }
}
/// Changes one or a few nodes, the lengths around them stay consistent
pub fn der(rng: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut t = parse(d);
    for _ in 0..*rng.pick(&[1usize, 1, 1, 2, 3]) {
        let total = count(&t);
        if total == 0 {
            return rng.bytes(5);
        }
        let mut k = rng.below(total);
        apply(&mut t, &mut k, &mut |v, i| {
            let n = v[i].clone();
            let (tag, body) = match &n {
                Node::Prim(t, b) => (*t, b.clone()),
                Node::Cons(t, c) => (*t, encode(c)),
                Node::Raw(b) => (b.first().copied().unwrap_or(0), b.clone()),
            };
            match rng.below(12) {
                0 => {
                    let t = *rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x1f, 0x30, 0x31, 0x80, 0xa0, 0xa1, 0xa3, 0xff]);
                    v[i] = Node::Raw(der::tlv(t, &body));
                }
                1 => v[i] = Node::Raw(odd_length(rng, tag, &body)),
                2 => {
                    v.remove(i);
                }
                3 => {
                    let at = rng.below(v.len() + 1);
                    v.insert(at, n);
                }
                4 => v[i] = Node::Prim(tag, vec![]),
                5 => {
                    let b = bytes(rng, &body);
                    v[i] = Node::Raw(der::tlv(tag, &b));
                }
                6 => {
                    let k = *rng.pick(&[1usize, 20, 127, 128, 255, 256, 4000]);
                    let b = rng.bytes(k);
                    v[i] = Node::Raw(der::tlv(tag, &b));
                }
                7 => v[i] = Node::Raw(deep(rng)),
                8 => {
                    let j = rng.below(v.len());
                    v.swap(i, j);
                }
                9 => v[i] = Node::Cons(0x30, vec![n]),
                10 => {
                    let b = bytes(rng, &body);
                    v[i] = Node::Prim(tag & !0x20, b);
                }
                _ => {
                    let k = rng.below(body.len() + 1);
                    v[i] = Node::Raw(der::tlv(tag, &body[..k]));
                }
            }
        });
    }
    encode(&t)
}
