//! Small things shared by several checks
use crate::ossl::A;
use crate::rep::Case;
use ibig::{IBig, UBig};

pub const SUITES: [(u16, A); 3] = [(0x1301, A::Aes128Gcm), (0x1302, A::Aes256Gcm), (0x1303, A::ChaPoly)];

pub fn content(c: &mut Case, n: usize) -> Vec<u8> {
    match c.rng.below(8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => c.rng.odd_bytes(n),
        _ => c.rng.bytes(n),
    }
}

pub fn big(b: &[u8]) -> IBig {
    IBig::from(UBig::from_be_bytes(b))
}
pub fn bytes32(x: &IBig) -> Option<[u8; 32]> {
    let b = UBig::try_from(x.clone()).ok()?.to_be_bytes();
    let mut o = [0; 32];
    if b.len() > 32 {
        return None;
    }
    o[32 - b.len()..].copy_from_slice(&b);
    Some(o)
}
