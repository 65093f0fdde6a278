//! OpenSSL (libcrypto / libssl) as the independent implementation, over plain FFI.
#![allow(non_camel_case_types, clippy::upper_case_acronyms)]
use std::ffi::{c_char, c_int, c_long, c_uchar, c_uint, c_void, CString};
use std::ptr;

type P = *mut c_void;

#[link(name = "crypto")]
extern "C" {
    fn EVP_MD_CTX_new() -> P;
    fn EVP_MD_CTX_free(c: P);
    fn EVP_sha256() -> P;
    fn EVP_sha384() -> P;
    fn EVP_DigestInit_ex(c: P, t: P, e: P) -> c_int;
    fn EVP_DigestUpdate(c: P, d: *const c_void, n: usize) -> c_int;
    fn EVP_DigestFinal_ex(c: P, md: *mut c_uchar, n: *mut c_uint) -> c_int;
    fn HMAC(md: P, key: *const c_void, kl: c_int, d: *const c_uchar, n: usize, out: *mut c_uchar, ol: *mut c_uint) -> *mut c_uchar;

    fn EVP_CIPHER_CTX_new() -> P;
    fn EVP_CIPHER_CTX_free(c: P);
    fn EVP_aes_128_gcm() -> P;
    fn EVP_aes_256_gcm() -> P;
    fn EVP_chacha20_poly1305() -> P;
    fn EVP_chacha20() -> P;
    fn EVP_aes_128_ecb() -> P;
    fn EVP_aes_192_ecb() -> P;
    fn EVP_aes_256_ecb() -> P;
    fn EVP_CIPHER_CTX_set_padding(c: P, p: c_int) -> c_int;
    fn EVP_CIPHER_CTX_ctrl(c: P, t: c_int, a: c_int, p: P) -> c_int;
    fn EVP_EncryptInit_ex(c: P, t: P, e: P, k: *const c_uchar, iv: *const c_uchar) -> c_int;
    fn EVP_EncryptUpdate(c: P, out: *mut c_uchar, ol: *mut c_int, d: *const c_uchar, n: c_int) -> c_int;
    fn EVP_EncryptFinal_ex(c: P, out: *mut c_uchar, ol: *mut c_int) -> c_int;
    fn EVP_DecryptInit_ex(c: P, t: P, e: P, k: *const c_uchar, iv: *const c_uchar) -> c_int;
    fn EVP_DecryptUpdate(c: P, out: *mut c_uchar, ol: *mut c_int, d: *const c_uchar, n: c_int) -> c_int;
    fn EVP_DecryptFinal_ex(c: P, out: *mut c_uchar, ol: *mut c_int) -> c_int;

    fn EVP_PKEY_new_raw_private_key(t: c_int, e: P, k: *const c_uchar, n: usize) -> P;
    fn EVP_PKEY_new_raw_public_key(t: c_int, e: P, k: *const c_uchar, n: usize) -> P;
    fn EVP_PKEY_get_raw_public_key(p: P, o: *mut c_uchar, n: *mut usize) -> c_int;
    fn EVP_PKEY_free(p: P);
    fn EVP_PKEY_CTX_new(p: P, e: P) -> P;
    fn EVP_PKEY_CTX_free(p: P);
    fn EVP_PKEY_derive_init(c: P) -> c_int;
    fn EVP_PKEY_derive_set_peer(c: P, p: P) -> c_int;
    fn EVP_PKEY_derive(c: P, o: *mut c_uchar, n: *mut usize) -> c_int;

    fn EVP_MAC_fetch(ctx: P, name: *const c_char, props: *const c_char) -> P;
    fn EVP_MAC_CTX_new(m: P) -> P;
    fn EVP_MAC_CTX_free(m: P);
    fn EVP_MAC_free(m: P);
    fn EVP_MAC_init(c: P, k: *const c_uchar, kl: usize, params: P) -> c_int;
    fn EVP_MAC_update(c: P, d: *const c_uchar, n: usize) -> c_int;
    fn EVP_MAC_final(c: P, o: *mut c_uchar, ol: *mut usize, os: usize) -> c_int;

    fn EC_KEY_new_by_curve_name(n: c_int) -> P;
    fn EC_KEY_free(k: P);
    fn EC_KEY_get0_group(k: P) -> P;
    fn EC_KEY_set_private_key(k: P, b: P) -> c_int;
    fn EC_KEY_set_public_key(k: P, p: P) -> c_int;
    fn EC_POINT_new(g: P) -> P;
    fn EC_POINT_free(p: P);
    fn EC_POINT_mul(g: P, r: P, n: P, q: P, m: P, c: P) -> c_int;
    fn EC_POINT_point2oct(g: P, p: P, form: c_int, b: *mut c_uchar, n: usize, c: P) -> usize;
    fn EC_POINT_oct2point(g: P, p: P, b: *const c_uchar, n: usize, c: P) -> c_int;
    fn BN_bin2bn(b: *const c_uchar, n: c_int, r: P) -> P;
    fn BN_bn2bin(b: P, o: *mut c_uchar) -> c_int;
    fn BN_num_bits(b: P) -> c_int;
    fn BN_is_negative(b: P) -> c_int;
    fn BN_free(b: P);
    fn ECDSA_sign(t: c_int, d: *const c_uchar, n: c_int, sig: *mut c_uchar, sl: *mut c_uint, k: P) -> c_int;
    fn ECDSA_verify(t: c_int, d: *const c_uchar, n: c_int, sig: *const c_uchar, sl: c_int, k: P) -> c_int;
    fn ECDSA_SIG_new() -> P;
    fn ECDSA_SIG_free(p: P);
    fn ECDSA_SIG_set0(s: P, r: P, ss: P) -> c_int;
    fn ECDSA_do_verify(d: *const c_uchar, n: c_int, s: P, k: P) -> c_int;
    fn i2d_ECPrivateKey(k: P, o: *mut *mut c_uchar) -> c_int;

    fn d2i_X509(p: *mut P, d: *mut *const c_uchar, n: c_long) -> P;
    fn X509_free(x: P);
    fn X509_get_version(x: P) -> c_long;
    fn X509_get_serialNumber(x: P) -> P;
    fn ASN1_INTEGER_to_BN(a: P, b: P) -> P;
    fn X509_get_issuer_name(x: P) -> P;
    fn X509_get_subject_name(x: P) -> P;
    fn X509_NAME_entry_count(n: P) -> c_int;
    fn X509_NAME_get_entry(n: P, i: c_int) -> P;
    fn X509_NAME_ENTRY_get_object(e: P) -> P;
    fn X509_NAME_ENTRY_get_data(e: P) -> P;
    fn OBJ_obj2txt(b: *mut c_char, n: c_int, o: P, nn: c_int) -> c_int;
    fn ASN1_STRING_to_UTF8(o: *mut *mut c_uchar, s: P) -> c_int;
    fn CRYPTO_free(p: P, f: *const c_char, l: c_int);
    fn X509_get0_notBefore(x: P) -> P;
    fn X509_get0_notAfter(x: P) -> P;
    fn ASN1_TIME_to_tm(s: P, tm: *mut libc::tm) -> c_int;
    fn X509_cmp_time(s: P, t: *mut i64) -> c_int;
    fn X509_get_pubkey(x: P) -> P;
    fn X509_verify(x: P, k: P) -> c_int;
    fn EVP_PKEY_get1_encoded_public_key(p: P, o: *mut *mut c_uchar) -> usize;
    fn EVP_PKEY_get_base_id(p: P) -> c_int;
    fn X509_get_signature_nid(x: P) -> c_int;
    fn OBJ_nid2sn(n: c_int) -> *const c_char;
    fn EVP_EncodeBlock(o: *mut c_uchar, d: *const c_uchar, n: c_int) -> c_int;
    fn ERR_clear_error();
    fn ERR_get_error() -> u64;
    fn ERR_reason_error_string(e: u64) -> *const c_char;
    fn i2d_X509_NAME(n: P, o: *mut *mut c_uchar) -> c_int;

    fn BIO_new(m: P) -> P;
    fn BIO_s_mem() -> P;
    fn BIO_read(b: P, d: P, n: c_int) -> c_int;
    fn BIO_write(b: P, d: *const c_void, n: c_int) -> c_int;
    fn BIO_ctrl_pending(b: P) -> usize;
    fn d2i_PrivateKey(t: c_int, k: *mut P, d: *mut *const c_uchar, n: c_long) -> P;
    fn X509_STORE_new() -> P;
    fn X509_STORE_add_cert(s: P, x: P) -> c_int;
}

#[link(name = "ssl")]
extern "C" {
    fn TLS_client_method() -> P;
    fn TLS_server_method() -> P;
    fn SSL_CTX_new(m: P) -> P;
    fn SSL_CTX_free(c: P);
    fn SSL_CTX_use_certificate_ASN1(c: P, n: c_int, d: *const c_uchar) -> c_int;
    fn SSL_CTX_use_PrivateKey(c: P, k: P) -> c_int;
    fn SSL_CTX_set_ciphersuites(c: P, s: *const c_char) -> c_int;
    fn SSL_CTX_ctrl(c: P, cmd: c_int, l: c_long, p: P) -> c_long;
    fn SSL_CTX_set_verify(c: P, mode: c_int, cb: Option<extern "C" fn(c_int, P) -> c_int>);
    fn SSL_CTX_set_cert_verify_callback(c: P, cb: Option<extern "C" fn(P, P) -> c_int>, arg: P);
    fn SSL_CTX_set_num_tickets(c: P, n: usize) -> c_int;
    fn SSL_CTX_set_block_padding(c: P, n: usize) -> c_int;
    fn SSL_CTX_set_keylog_callback(c: P, cb: Option<extern "C" fn(P, *const c_char)>);
    fn SSL_new(c: P) -> P;
    fn SSL_free(s: P);
    fn SSL_set_bio(s: P, r: P, w: P);
    fn SSL_set_connect_state(s: P);
    fn SSL_set_accept_state(s: P);
    fn SSL_do_handshake(s: P) -> c_int;
    fn SSL_read(s: P, d: P, n: c_int) -> c_int;
    fn SSL_write(s: P, d: *const c_void, n: c_int) -> c_int;
    fn SSL_shutdown(s: P) -> c_int;
    fn SSL_get_error(s: P, r: c_int) -> c_int;
    fn SSL_version(s: P) -> c_int;
    fn SSL_get_current_cipher(s: P) -> P;
    fn SSL_CIPHER_get_id(c: P) -> u32;
    fn SSL_ctrl(s: P, cmd: c_int, l: c_long, p: P) -> c_long;
    fn SSL_get1_peer_certificate(s: P) -> P;
    fn i2d_X509(x: P, o: *mut *mut c_uchar) -> c_int;
    fn SSL_get_verify_result(s: P) -> c_long;
    fn SSL_CTX_set_options(c: P, o: u64) -> u64;
    fn SSL_get_servername(s: P, t: c_int) -> *const c_char;
    fn SSL_CTX_set_ex_data(c: P, i: c_int, d: P) -> c_int;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum H {
    Sha256,
    Sha384,
}
impl H {
    fn md(self) -> P {
        unsafe {
            match self {
                H::Sha256 => EVP_sha256(),
                H::Sha384 => EVP_sha384(),
            }
        }
    }
    pub fn len(self) -> usize {
        match self {
            H::Sha256 => 32,
            H::Sha384 => 48,
        }
    }
}

pub fn digest(h: H, data: &[u8]) -> Vec<u8> {
    unsafe {
        let c = EVP_MD_CTX_new();
        let mut out = vec![0u8; 64];
        let mut n = 0;
        assert_eq!(EVP_DigestInit_ex(c, h.md(), ptr::null_mut()), 1);
        assert_eq!(EVP_DigestUpdate(c, data.as_ptr().cast(), data.len()), 1);
        assert_eq!(EVP_DigestFinal_ex(c, out.as_mut_ptr(), &mut n), 1);
        EVP_MD_CTX_free(c);
        out.truncate(n as usize);
        out
    }
}

/// Incremental digest
pub struct Md(P);
impl Md {
    pub fn new(h: H) -> Md {
        unsafe {
            let c = EVP_MD_CTX_new();
            assert_eq!(EVP_DigestInit_ex(c, h.md(), ptr::null_mut()), 1);
            Md(c)
        }
    }
    pub fn update(&mut self, d: &[u8]) {
        unsafe { assert_eq!(EVP_DigestUpdate(self.0, d.as_ptr().cast(), d.len()), 1) }
    }
    pub fn finish(self) -> Vec<u8> {
        let mut out = vec![0u8; 64];
        let mut n = 0;
        unsafe {
            assert_eq!(EVP_DigestFinal_ex(self.0, out.as_mut_ptr(), &mut n), 1);
            EVP_MD_CTX_free(self.0);
        }
        out.truncate(n as usize);
        out
    }
}

pub fn hmac(h: H, key: &[u8], data: &[u8]) -> Vec<u8> {
    unsafe {
        let mut out = vec![0u8; 64];
        let mut n = 0;
        // a null key with length 0 means "no key change", so always pass a valid pointer
        let k = if key.is_empty() { [0u8; 1].as_ptr() } else { key.as_ptr() };
        assert!(!HMAC(h.md(), k.cast(), key.len() as c_int, data.as_ptr(), data.len(), out.as_mut_ptr(), &mut n).is_null());
        out.truncate(n as usize);
        out
    }
}

pub fn hkdf_extract(h: H, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    hmac(h, salt, ikm)
}

pub fn hkdf_expand(h: H, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u16;
    while out.len() < len {
        assert!(i <= 255);
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i as u8);
        t = hmac(h, prk, &m);
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(len);
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum A {
    Aes128Gcm,
    Aes256Gcm,
    ChaPoly,
}
impl A {
    fn c(self) -> P {
        unsafe {
            match self {
                A::Aes128Gcm => EVP_aes_128_gcm(),
                A::Aes256Gcm => EVP_aes_256_gcm(),
                A::ChaPoly => EVP_chacha20_poly1305(),
            }
        }
    }
    pub fn key_len(self) -> usize {
        match self {
            A::Aes128Gcm => 16,
            _ => 32,
        }
    }
}
const IVLEN: c_int = 9;
const GETTAG: c_int = 0x10;
const SETTAG: c_int = 0x11;

/// Returns None when OpenSSL refuses the parameters
pub fn seal(a: A, key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> Option<(Vec<u8>, [u8; 16])> {
    assert_eq!(key.len(), a.key_len());
    unsafe {
        let c = EVP_CIPHER_CTX_new();
        let r = (|| {
            let mut n = 0;
            if EVP_EncryptInit_ex(c, a.c(), ptr::null_mut(), ptr::null(), ptr::null()) != 1
                || EVP_CIPHER_CTX_ctrl(c, IVLEN, iv.len() as c_int, ptr::null_mut()) != 1
                || EVP_EncryptInit_ex(c, ptr::null_mut(), ptr::null_mut(), key.as_ptr(), iv.as_ptr()) != 1
            {
                return None;
            }
            if !aad.is_empty() && EVP_EncryptUpdate(c, ptr::null_mut(), &mut n, aad.as_ptr(), aad.len() as c_int) != 1 {
                return None;
            }
            let mut out = vec![0u8; pt.len() + 16];
            let mut used = 0;
            if !pt.is_empty() {
                if EVP_EncryptUpdate(c, out.as_mut_ptr(), &mut n, pt.as_ptr(), pt.len() as c_int) != 1 {
                    return None;
                }
                used = n as usize;
            }
            if EVP_EncryptFinal_ex(c, out.as_mut_ptr().add(used), &mut n) != 1 {
                return None;
            }
            out.truncate(pt.len());
            let mut tag = [0u8; 16];
            if EVP_CIPHER_CTX_ctrl(c, GETTAG, 16, tag.as_mut_ptr().cast()) != 1 {
                return None;
            }
            Some((out, tag))
        })();
        EVP_CIPHER_CTX_free(c);
        ERR_clear_error();
        r
    }
}

pub fn open(a: A, key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    if tag.len() != 16 || key.len() != a.key_len() {
        return None;
    }
    unsafe {
        let c = EVP_CIPHER_CTX_new();
        let r = (|| {
            let mut n = 0;
            if EVP_DecryptInit_ex(c, a.c(), ptr::null_mut(), ptr::null(), ptr::null()) != 1
                || EVP_CIPHER_CTX_ctrl(c, IVLEN, iv.len() as c_int, ptr::null_mut()) != 1
                || EVP_DecryptInit_ex(c, ptr::null_mut(), ptr::null_mut(), key.as_ptr(), iv.as_ptr()) != 1
            {
                return None;
            }
            if !aad.is_empty() && EVP_DecryptUpdate(c, ptr::null_mut(), &mut n, aad.as_ptr(), aad.len() as c_int) != 1 {
                return None;
            }
            let mut out = vec![0u8; ct.len() + 16];
            let mut used = 0;
            if !ct.is_empty() {
                if EVP_DecryptUpdate(c, out.as_mut_ptr(), &mut n, ct.as_ptr(), ct.len() as c_int) != 1 {
                    return None;
                }
                used = n as usize;
            }
            let mut t = tag.to_vec();
            if EVP_CIPHER_CTX_ctrl(c, SETTAG, 16, t.as_mut_ptr().cast()) != 1 {
                return None;
            }
            if EVP_DecryptFinal_ex(c, out.as_mut_ptr().add(used), &mut n) != 1 {
                return None;
            }
            out.truncate(ct.len());
            Some(out)
        })();
        EVP_CIPHER_CTX_free(c);
        ERR_clear_error();
        r
    }
}

/// Raw ChaCha20 keystream XOR; `ctr_nonce` = 4 byte LE counter || 12 byte nonce
pub fn chacha20(key: &[u8; 32], ctr_nonce: &[u8; 16], data: &[u8]) -> Vec<u8> {
    unsafe {
        let c = EVP_CIPHER_CTX_new();
        let mut out = vec![0u8; data.len() + 64];
        let mut n = 0;
        assert_eq!(EVP_EncryptInit_ex(c, EVP_chacha20(), ptr::null_mut(), key.as_ptr(), ctr_nonce.as_ptr()), 1);
        assert_eq!(EVP_EncryptUpdate(c, out.as_mut_ptr(), &mut n, data.as_ptr(), data.len() as c_int), 1);
        out.truncate(n as usize);
        EVP_CIPHER_CTX_free(c);
        out
    }
}

pub fn aes_block(key: &[u8], block: &[u8; 16], enc: bool) -> [u8; 16] {
    unsafe {
        let c = EVP_CIPHER_CTX_new();
        let t = match key.len() {
            16 => EVP_aes_128_ecb(),
            24 => EVP_aes_192_ecb(),
            32 => EVP_aes_256_ecb(),
            _ => unreachable!(),
        };
        let mut out = [0u8; 48];
        let mut n = 0;
        if enc {
            assert_eq!(EVP_EncryptInit_ex(c, t, ptr::null_mut(), key.as_ptr(), ptr::null()), 1);
            EVP_CIPHER_CTX_set_padding(c, 0);
            assert_eq!(EVP_EncryptUpdate(c, out.as_mut_ptr(), &mut n, block.as_ptr(), 16), 1);
        } else {
            assert_eq!(EVP_DecryptInit_ex(c, t, ptr::null_mut(), key.as_ptr(), ptr::null()), 1);
            EVP_CIPHER_CTX_set_padding(c, 0);
            assert_eq!(EVP_DecryptUpdate(c, out.as_mut_ptr(), &mut n, block.as_ptr(), 16), 1);
        }
        EVP_CIPHER_CTX_free(c);
        out[..16].try_into().unwrap()
    }
}

pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    unsafe {
        let name = CString::new("POLY1305").unwrap();
        let m = EVP_MAC_fetch(ptr::null_mut(), name.as_ptr(), ptr::null());
        assert!(!m.is_null());
        let c = EVP_MAC_CTX_new(m);
        assert_eq!(EVP_MAC_init(c, key.as_ptr(), 32, ptr::null_mut()), 1);
        assert_eq!(EVP_MAC_update(c, msg.as_ptr(), msg.len()), 1);
        let mut out = [0u8; 16];
        let mut n = 0;
        assert_eq!(EVP_MAC_final(c, out.as_mut_ptr(), &mut n, 16), 1);
        EVP_MAC_CTX_free(c);
        EVP_MAC_free(m);
        out
    }
}

const NID_X25519: c_int = 1034;
const NID_P256: c_int = 415;

pub fn x25519_public(secret: &[u8; 32]) -> [u8; 32] {
    unsafe {
        let k = EVP_PKEY_new_raw_private_key(NID_X25519, ptr::null_mut(), secret.as_ptr(), 32);
        assert!(!k.is_null());
        let mut o = [0u8; 32];
        let mut n = 32;
        assert_eq!(EVP_PKEY_get_raw_public_key(k, o.as_mut_ptr(), &mut n), 1);
        EVP_PKEY_free(k);
        o
    }
}

/// None: all-zero result (OpenSSL refuses it)
pub fn x25519(secret: &[u8; 32], public: &[u8; 32]) -> Option<[u8; 32]> {
    unsafe {
        let k = EVP_PKEY_new_raw_private_key(NID_X25519, ptr::null_mut(), secret.as_ptr(), 32);
        let p = EVP_PKEY_new_raw_public_key(NID_X25519, ptr::null_mut(), public.as_ptr(), 32);
        assert!(!k.is_null() && !p.is_null());
        let c = EVP_PKEY_CTX_new(k, ptr::null_mut());
        assert_eq!(EVP_PKEY_derive_init(c), 1);
        assert_eq!(EVP_PKEY_derive_set_peer(c, p), 1);
        let mut o = [0u8; 32];
        let mut n = 32;
        let ok = EVP_PKEY_derive(c, o.as_mut_ptr(), &mut n) == 1;
        EVP_PKEY_CTX_free(c);
        EVP_PKEY_free(k);
        EVP_PKEY_free(p);
        ERR_clear_error();
        if ok {
            Some(o)
        } else {
            None
        }
    }
}

/// P-256 key pair
pub struct EcKey {
    k: P,
    pub secret: [u8; 32],
    /// 04 || X || Y
    pub public: Vec<u8>,
}
unsafe impl Send for EcKey {}
unsafe impl Sync for EcKey {}
impl Drop for EcKey {
    fn drop(&mut self) {
        unsafe { EC_KEY_free(self.k) }
    }
}
fn bn(b: &[u8]) -> P {
    unsafe { BN_bin2bn(b.as_ptr(), b.len() as c_int, ptr::null_mut()) }
}
/// Order of P-256
pub const P256_N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84, 0xf3,
    0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
];
/// 04||X||Y of `secret`*G
pub fn p256_mul_g(secret: &[u8]) -> Option<Vec<u8>> {
    unsafe {
        let k = EC_KEY_new_by_curve_name(NID_P256);
        let g = EC_KEY_get0_group(k);
        let s = bn(secret);
        let p = EC_POINT_new(g);
        EC_POINT_mul(g, p, s, ptr::null_mut(), ptr::null_mut(), ptr::null_mut());
        let mut o = vec![0u8; 65];
        let n = EC_POINT_point2oct(g, p, 4, o.as_mut_ptr(), 65, ptr::null_mut());
        EC_POINT_free(p);
        BN_free(s);
        EC_KEY_free(k);
        ERR_clear_error();
        if n == 65 {
            Some(o)
        } else {
            None
        }
    }
}
/// The point with this x coordinate and even y
pub fn p256_from_x(x: &[u8; 32]) -> Option<Vec<u8>> {
    unsafe {
        let k = EC_KEY_new_by_curve_name(NID_P256);
        let g = EC_KEY_get0_group(k);
        let p = EC_POINT_new(g);
        let mut c = vec![2u8];
        c.extend(x);
        let mut o = vec![0u8; 65];
        let mut n = 0;
        if EC_POINT_oct2point(g, p, c.as_ptr(), c.len(), ptr::null_mut()) == 1 {
            n = EC_POINT_point2oct(g, p, 4, o.as_mut_ptr(), 65, ptr::null_mut());
        }
        EC_POINT_free(p);
        EC_KEY_free(k);
        ERR_clear_error();
        (n == 65).then_some(o)
    }
}
/// a*P + b*G
pub fn p256_lin(a: &[u8], p: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    unsafe {
        let k = EC_KEY_new_by_curve_name(NID_P256);
        let g = EC_KEY_get0_group(k);
        let q = EC_POINT_new(g);
        let r = EC_POINT_new(g);
        assert_eq!(EC_POINT_oct2point(g, q, p.as_ptr(), p.len(), ptr::null_mut()), 1);
        let (x, y) = (bn(b), bn(a));
        EC_POINT_mul(g, r, x, q, y, ptr::null_mut());
        let mut o = vec![0u8; 65];
        let n = EC_POINT_point2oct(g, r, 4, o.as_mut_ptr(), 65, ptr::null_mut());
        BN_free(x);
        BN_free(y);
        EC_POINT_free(q);
        EC_POINT_free(r);
        EC_KEY_free(k);
        ERR_clear_error();
        (n == 65).then_some(o)
    }
}
impl EcKey {
    /// secret must be in 1..n
    pub fn from_secret(secret: [u8; 32]) -> EcKey {
        unsafe {
            let k = EC_KEY_new_by_curve_name(NID_P256);
            let g = EC_KEY_get0_group(k);
            let s = bn(&secret);
            let p = EC_POINT_new(g);
            assert_eq!(EC_POINT_mul(g, p, s, ptr::null_mut(), ptr::null_mut(), ptr::null_mut()), 1);
            assert_eq!(EC_KEY_set_private_key(k, s), 1);
            assert_eq!(EC_KEY_set_public_key(k, p), 1);
            let mut o = vec![0u8; 65];
            assert_eq!(EC_POINT_point2oct(g, p, 4, o.as_mut_ptr(), 65, ptr::null_mut()), 65);
            EC_POINT_free(p);
            BN_free(s);
            EcKey { k, secret, public: o }
        }
    }
    pub fn random(rng: &mut crate::rng::Rng) -> EcKey {
        loop {
            let mut s = [0u8; 32];
            rng.fill(&mut s);
            s[0] &= 0x7f; // < n
            if s.iter().any(|b| *b != 0) {
                return EcKey::from_secret(s);
            }
        }
    }
    /// DER signature over a digest
    pub fn sign(&self, digest: &[u8]) -> Vec<u8> {
        unsafe {
            let mut o = vec![0u8; 80];
            let mut n = 80;
            assert_eq!(ECDSA_sign(0, digest.as_ptr(), digest.len() as c_int, o.as_mut_ptr(), &mut n, self.k), 1);
            o.truncate(n as usize);
            o
        }
    }
    pub fn verify(&self, digest: &[u8], sig: &[u8]) -> bool {
        unsafe {
            let r = ECDSA_verify(0, digest.as_ptr(), digest.len() as c_int, sig.as_ptr(), sig.len() as c_int, self.k) == 1;
            ERR_clear_error();
            r
        }
    }
    pub fn sec1_der(&self) -> Vec<u8> {
        unsafe {
            let n = i2d_ECPrivateKey(self.k, ptr::null_mut());
            let mut o = vec![0u8; n as usize];
            let mut p = o.as_mut_ptr();
            assert_eq!(i2d_ECPrivateKey(self.k, &mut p), n);
            o
        }
    }
}

/// ECDSA verification with raw (big-endian, non-negative) r and s and an encoded public key.
/// Public keys OpenSSL refuses make it false.
pub fn ecdsa_verify_raw(public: &[u8], digest: &[u8], r: &[u8], s: &[u8]) -> bool {
    unsafe {
        let k = EC_KEY_new_by_curve_name(NID_P256);
        let g = EC_KEY_get0_group(k);
        let p = EC_POINT_new(g);
        let mut ok = EC_POINT_oct2point(g, p, public.as_ptr(), public.len(), ptr::null_mut()) == 1 && EC_KEY_set_public_key(k, p) == 1;
        if ok {
            let sig = ECDSA_SIG_new();
            assert_eq!(ECDSA_SIG_set0(sig, bn(r), bn(s)), 1);
            ok = ECDSA_do_verify(digest.as_ptr(), digest.len() as c_int, sig, k) == 1;
            ECDSA_SIG_free(sig);
        }
        EC_POINT_free(p);
        EC_KEY_free(k);
        ERR_clear_error();
        ok
    }
}
/// ECDSA verification of a DER signature with an encoded public key
pub fn ecdsa_verify_der(public: &[u8], digest: &[u8], sig: &[u8]) -> bool {
    unsafe {
        let k = EC_KEY_new_by_curve_name(NID_P256);
        let g = EC_KEY_get0_group(k);
        let p = EC_POINT_new(g);
        let mut ok = EC_POINT_oct2point(g, p, public.as_ptr(), public.len(), ptr::null_mut()) == 1 && EC_KEY_set_public_key(k, p) == 1;
        if ok {
            ok = ECDSA_verify(0, digest.as_ptr(), digest.len() as c_int, sig.as_ptr(), sig.len() as c_int, k) == 1;
        }
        EC_POINT_free(p);
        EC_KEY_free(k);
        ERR_clear_error();
        ok
    }
}

pub fn base64(data: &[u8]) -> String {
    let mut o = vec![0u8; data.len() / 3 * 4 + 8];
    let n = unsafe { EVP_EncodeBlock(o.as_mut_ptr(), data.as_ptr(), data.len() as c_int) };
    o.truncate(n as usize);
    String::from_utf8(o).unwrap()
}

/// What OpenSSL reads out of a certificate
#[derive(Debug, Clone)]
pub struct CertInfo {
    pub version: i64,
    pub serial: Vec<u8>,
    pub serial_negative: bool,
    /// (oid text, utf8 value)
    pub issuer: Vec<(String, String)>,
    pub subject: Vec<(String, String)>,
    /// (y, m, d, h, m, s)
    pub not_before: Option<[i32; 6]>,
    pub not_after: Option<[i32; 6]>,
    pub pubkey: Option<Vec<u8>>,
    pub pubkey_type: i32,
    pub sig_alg: String,
    pub consumed: usize,
}
pub struct Cert(P);
impl Drop for Cert {
    fn drop(&mut self) {
        unsafe { X509_free(self.0) }
    }
}
unsafe fn names(n: P) -> Vec<(String, String)> {
    let mut out = vec![];
    for i in 0..X509_NAME_entry_count(n) {
        let e = X509_NAME_get_entry(n, i);
        let mut b = vec![0u8; 200];
        let l = OBJ_obj2txt(b.as_mut_ptr().cast(), 200, X509_NAME_ENTRY_get_object(e), 1);
        b.truncate(l.clamp(0, 199) as usize);
        let mut p: *mut c_uchar = ptr::null_mut();
        let l = ASN1_STRING_to_UTF8(&mut p, X509_NAME_ENTRY_get_data(e));
        let v = if l >= 0 {
            let v = String::from_utf8_lossy(std::slice::from_raw_parts(p, l as usize)).into_owned();
            CRYPTO_free(p.cast(), ptr::null(), 0);
            v
        } else {
            "<undecodable>".to_string()
        };
        out.push((String::from_utf8_lossy(&b).into_owned(), v));
    }
    out
}
unsafe fn time(t: P) -> Option<[i32; 6]> {
    let mut tm: libc::tm = std::mem::zeroed();
    if ASN1_TIME_to_tm(t, &mut tm) != 1 {
        return None;
    }
    Some([tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec])
}
impl Cert {
    pub fn parse(der: &[u8]) -> Option<(Cert, usize)> {
        unsafe {
            let mut p = der.as_ptr();
            let x = d2i_X509(ptr::null_mut(), &mut p, der.len() as c_long);
            ERR_clear_error();
            if x.is_null() {
                return None;
            }
            Some((Cert(x), p as usize - der.as_ptr() as usize))
        }
    }
    pub fn info(&self) -> CertInfo {
        unsafe {
            let b = ASN1_INTEGER_to_BN(X509_get_serialNumber(self.0), ptr::null_mut());
            let mut serial = vec![0u8; (BN_num_bits(b) as usize).div_ceil(8)];
            BN_bn2bin(b, serial.as_mut_ptr());
            let neg = BN_is_negative(b) == 1;
            BN_free(b);
            let k = X509_get_pubkey(self.0);
            let mut pubkey = None;
            let mut pt = 0;
            if !k.is_null() {
                pt = EVP_PKEY_get_base_id(k);
                let mut o: *mut c_uchar = ptr::null_mut();
                let n = EVP_PKEY_get1_encoded_public_key(k, &mut o);
                if n > 0 {
                    pubkey = Some(std::slice::from_raw_parts(o, n).to_vec());
                    CRYPTO_free(o.cast(), ptr::null(), 0);
                }
                EVP_PKEY_free(k);
            }
            let nid = X509_get_signature_nid(self.0);
            let sn = OBJ_nid2sn(nid);
            let sig_alg = if sn.is_null() { String::new() } else { std::ffi::CStr::from_ptr(sn).to_string_lossy().into_owned() };
            let r = CertInfo {
                version: X509_get_version(self.0),
                serial,
                serial_negative: neg,
                issuer: names(X509_get_issuer_name(self.0)),
                subject: names(X509_get_subject_name(self.0)),
                not_before: time(X509_get0_notBefore(self.0)),
                not_after: time(X509_get0_notAfter(self.0)),
                pubkey,
                pubkey_type: pt,
                sig_alg,
                consumed: 0,
            };
            ERR_clear_error();
            r
        }
    }
    /// OpenSSL's own opinion: (-1 = in the past, 1 = in the future, 0 = error)
    pub fn cmp_times(&self, now: i64) -> (i32, i32) {
        unsafe {
            let mut t = now;
            let a = X509_cmp_time(X509_get0_notBefore(self.0), &mut t);
            let mut t = now;
            let b = X509_cmp_time(X509_get0_notAfter(self.0), &mut t);
            ERR_clear_error();
            (a, b)
        }
    }
    /// Is this certificate's signature made by the key of `issuer`?
    pub fn signed_by(&self, issuer: &Cert) -> bool {
        unsafe {
            let k = X509_get_pubkey(issuer.0);
            if k.is_null() {
                ERR_clear_error();
                return false;
            }
            let r = X509_verify(self.0, k) == 1;
            EVP_PKEY_free(k);
            ERR_clear_error();
            r
        }
    }
}

// ------------------------------------------------------------------ libssl

extern "C" fn verify_all(_x: P, _a: P) -> c_int {
    1
}

/// libssl endpoint over memory BIOs
pub struct Ssl {
    ctx: P,
    s: P,
    rb: P,
    wb: P,
}
unsafe impl Send for Ssl {}
impl Drop for Ssl {
    fn drop(&mut self) {
        unsafe {
            SSL_free(self.s);
            SSL_CTX_free(self.ctx);
        }
    }
}
#[derive(Clone)]
pub struct SslOpts<'a> {
    pub server: bool,
    pub cert: Option<(&'a [u8], &'a EcKey)>,
    pub suites: &'a str,
    pub groups: Option<&'a str>,
    pub request_client_cert: bool,
    pub require_client_cert: bool,
    pub tickets: usize,
    pub block_padding: usize,
    pub server_name: Option<&'a str>,
    pub extra_chain: Vec<Vec<u8>>,
    pub no_middlebox_compat: bool,
    pub max_fragment: usize,
    pub sigalgs: Option<&'a str>,
}
impl Default for SslOpts<'_> {
    fn default() -> Self {
        Self {
            server: false,
            cert: None,
            suites: "TLS_AES_128_GCM_SHA256:TLS_AES_256_GCM_SHA384:TLS_CHACHA20_POLY1305_SHA256",
            groups: None,
            request_client_cert: false,
            require_client_cert: false,
            tickets: 2,
            block_padding: 0,
            server_name: None,
            extra_chain: vec![],
            no_middlebox_compat: false,
            max_fragment: 0,
            sigalgs: None,
        }
    }
}
#[derive(Debug, PartialEq, Clone)]
pub enum SslRes {
    Ok(usize),
    WantRead,
    Closed,
    Err(String),
}

impl Ssl {
    pub fn new(o: &SslOpts) -> Ssl {
        unsafe {
            ERR_clear_error();
            let ctx = SSL_CTX_new(if o.server { TLS_server_method() } else { TLS_client_method() });
            assert!(!ctx.is_null());
            // SSL_CTRL_SET_MIN_PROTO_VERSION
            assert_eq!(SSL_CTX_ctrl(ctx, 123, 0x0304, ptr::null_mut()), 1);
            let su = CString::new(o.suites).unwrap();
            assert_eq!(SSL_CTX_set_ciphersuites(ctx, su.as_ptr()), 1);
            if let Some((der, key)) = o.cert {
                assert_eq!(SSL_CTX_use_certificate_ASN1(ctx, der.len() as c_int, der.as_ptr()), 1);
                let kd = key.sec1_der();
                let mut p = kd.as_ptr();
                let pk = d2i_PrivateKey(408, ptr::null_mut(), &mut p, kd.len() as c_long);
                assert!(!pk.is_null());
                assert_eq!(SSL_CTX_use_PrivateKey(ctx, pk), 1);
                EVP_PKEY_free(pk);
            }
            for c in o.extra_chain.iter() {
                let mut p = c.as_ptr();
                let x = d2i_X509(ptr::null_mut(), &mut p, c.len() as c_long);
                assert!(!x.is_null());
                // SSL_CTRL_EXTRA_CHAIN_CERT takes ownership
                SSL_CTX_ctrl(ctx, 14, 0, x);
            }
            let mut mode = 0;
            if o.request_client_cert {
                mode |= 1;
            }
            if o.require_client_cert {
                mode |= 3;
            }
            if !o.server {
                mode = 1;
            }
            SSL_CTX_set_verify(ctx, mode, None);
            SSL_CTX_set_cert_verify_callback(ctx, Some(verify_all), ptr::null_mut());
            if o.server {
                SSL_CTX_set_num_tickets(ctx, o.tickets);
            }
            if o.block_padding > 0 {
                assert_eq!(SSL_CTX_set_block_padding(ctx, o.block_padding), 1);
            }
            if o.no_middlebox_compat {
                // SSL_OP_ENABLE_MIDDLEBOX_COMPAT = bit 20; it is on by default
                extern "C" {
                    fn SSL_CTX_clear_options(c: P, o: u64) -> u64;
                }
                SSL_CTX_clear_options(ctx, 1 << 20);
            }
            if o.max_fragment > 0 {
                // SSL_CTRL_SET_MAX_SEND_FRAGMENT
                assert_eq!(SSL_CTX_ctrl(ctx, 52, o.max_fragment as c_long, ptr::null_mut()), 1);
            }
            if let Some(g) = o.groups {
                let g = CString::new(g).unwrap();
                // SSL_CTRL_SET_GROUPS_LIST
                assert_eq!(SSL_CTX_ctrl(ctx, 92, 0, g.as_ptr() as P), 1);
            }
            if let Some(g) = o.sigalgs {
                let g = CString::new(g).unwrap();
                // SSL_CTRL_SET_SIGALGS_LIST
                assert_eq!(SSL_CTX_ctrl(ctx, 98, 0, g.as_ptr() as P), 1);
            }
            let s = SSL_new(ctx);
            assert!(!s.is_null());
            if let Some(n) = o.server_name {
                let n = CString::new(n).unwrap();
                // SSL_CTRL_SET_TLSEXT_HOSTNAME, TLSEXT_NAMETYPE_host_name
                assert_eq!(SSL_ctrl(s, 55, 0, n.as_ptr() as P), 1);
            }
            let rb = BIO_new(BIO_s_mem());
            let wb = BIO_new(BIO_s_mem());
            SSL_set_bio(s, rb, wb);
            if o.server {
                SSL_set_accept_state(s)
            } else {
                SSL_set_connect_state(s)
            }
            Ssl { ctx, s, rb, wb }
        }
    }
    pub fn feed(&mut self, d: &[u8]) {
        if d.is_empty() {
            return;
        }
        unsafe {
            assert_eq!(BIO_write(self.rb, d.as_ptr().cast(), d.len() as c_int), d.len() as c_int);
        }
    }
    pub fn take(&mut self) -> Vec<u8> {
        unsafe {
            let n = BIO_ctrl_pending(self.wb);
            let mut v = vec![0u8; n];
            if n > 0 {
                assert_eq!(BIO_read(self.wb, v.as_mut_ptr().cast(), n as c_int), n as c_int);
            }
            v
        }
    }
    fn res(&self, r: c_int) -> SslRes {
        unsafe {
            if r > 0 {
                return SslRes::Ok(r as usize);
            }
            match SSL_get_error(self.s, r) {
                2 | 3 => SslRes::WantRead,
                6 => SslRes::Closed,
                e => {
                    let c = ERR_get_error();
                    let s = ERR_reason_error_string(c);
                    let t = if s.is_null() { String::new() } else { std::ffi::CStr::from_ptr(s).to_string_lossy().into_owned() };
                    ERR_clear_error();
                    SslRes::Err(format!("ssl_error {e} {t}"))
                }
            }
        }
    }
    pub fn handshake(&mut self) -> SslRes {
        unsafe {
            ERR_clear_error();
            let r = SSL_do_handshake(self.s);
            self.res(r)
        }
    }
    pub fn read(&mut self, buf: &mut [u8]) -> SslRes {
        unsafe {
            ERR_clear_error();
            let r = SSL_read(self.s, buf.as_mut_ptr().cast(), buf.len() as c_int);
            self.res(r)
        }
    }
    pub fn write(&mut self, buf: &[u8]) -> SslRes {
        unsafe {
            ERR_clear_error();
            let r = SSL_write(self.s, buf.as_ptr().cast(), buf.len() as c_int);
            self.res(r)
        }
    }
    pub fn shutdown(&mut self) {
        unsafe {
            ERR_clear_error();
            SSL_shutdown(self.s);
            ERR_clear_error();
        }
    }
    pub fn version(&self) -> i32 {
        unsafe { SSL_version(self.s) }
    }
    pub fn suite(&self) -> u16 {
        unsafe {
            let c = SSL_get_current_cipher(self.s);
            if c.is_null() {
                0
            } else {
                SSL_CIPHER_get_id(c) as u16
            }
        }
    }
    pub fn peer_cert(&self) -> Option<Vec<u8>> {
        unsafe {
            let x = SSL_get1_peer_certificate(self.s);
            if x.is_null() {
                return None;
            }
            let n = i2d_X509(x, ptr::null_mut());
            let mut v = vec![0u8; n as usize];
            let mut p = v.as_mut_ptr();
            i2d_X509(x, &mut p);
            X509_free(x);
            Some(v)
        }
    }
    pub fn sni(&self) -> Option<String> {
        unsafe {
            let p = SSL_get_servername(self.s, 0);
            if p.is_null() {
                None
            } else {
                Some(std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned())
            }
        }
    }
}
