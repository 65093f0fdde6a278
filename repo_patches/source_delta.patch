From 409c779f1413cf7b36a98f4af5381016f179b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 01/51] fix: reject truncated records instead of slicing out of
 bounds

---
 anothertls/src/net/record.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index a4c9736..ea61e10 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -85,10 +85,10 @@ impl<'a> Record<'a> {
         let content_type = RecordType::new(buf[0])?;
         let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
-        if buf.len() < (2 + len) {
+        let consumed = 5 + len;
+        if buf.len() < consumed {
             return Err(TlsError::DecodeError);
         }
-        let consumed = 5 + len;
         Ok((
             consumed,
             Record {
@@ -205,6 +205,11 @@ impl RecordPayloadProtection {
             &mut self.handshake_keys
         };
 
+        // The smallest possible record has only the inner content type and the tag
+        if record.fraqment.len() < 1 + 16 {
+            return Err(TlsError::DecodeError);
+        }
+
         let ciphertext = &record.fraqment.as_ref()[..record.fraqment.len() - 16]; // 1 = Inner ContentType
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
-- 
2.43.0


From 80eb6a22833ca230ab2b86234f53af9b7c65cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 02/51] fix: alert codes convert to and from their numbers
 without loss

---
 anothertls/src/net/alert.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index a190ec7..728f7ec 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -21,6 +21,7 @@ pub enum TlsError {
     CloseNotify = 0,
     UnexpectedMessage = 10,
     BadRecordMac = 20,
+    RecordOverflow = 22,
     HandshakeFailure = 40,
     BadCertificate = 42,
     UnsupportedCertificate = 43,
@@ -35,9 +36,15 @@ pub enum TlsError {
     ProtocolVersion = 70,
     InsufficientSecurity = 71,
     InternalError = 80,
+    InappropriateFallback = 86,
+    UserCanceled = 90,
     MissingExtension = 109,
+    UnsupportedExtension = 110,
     UnrecognizedName = 112,
+    BadCertificateStatusResponse = 113,
+    UnknownPskIdentity = 115,
     CertificateRequired = 116,
+    NoApplicationProtocol = 120,
 
     NotOfficial = 250,
     GotAlert(u8) = 253, // Not official
@@ -49,6 +56,8 @@ impl TlsError {
         match code {
             0 => TlsError::CloseNotify,
             10 => TlsError::UnexpectedMessage,
+            20 => TlsError::BadRecordMac,
+            22 => TlsError::RecordOverflow,
             40 => TlsError::HandshakeFailure,
             42 => TlsError::BadCertificate,
             43 => TlsError::UnsupportedCertificate,
@@ -63,9 +72,15 @@ impl TlsError {
             70 => TlsError::ProtocolVersion,
             71 => TlsError::InsufficientSecurity,
             80 => TlsError::InternalError,
+            86 => TlsError::InappropriateFallback,
+            90 => TlsError::UserCanceled,
             109 => TlsError::MissingExtension,
+            110 => TlsError::UnsupportedExtension,
             112 => TlsError::UnrecognizedName,
+            113 => TlsError::BadCertificateStatusResponse,
+            115 => TlsError::UnknownPskIdentity,
             116 => TlsError::CertificateRequired,
+            120 => TlsError::NoApplicationProtocol,
             250 => TlsError::NotOfficial,
             253 => TlsError::NotOfficial, // GotAlert has an associated value that we can't match here
             254 => TlsError::BrokenPipe,
@@ -78,6 +93,8 @@ impl TlsError {
         match self {
             TlsError::CloseNotify => 0,
             TlsError::UnexpectedMessage => 10,
+            TlsError::BadRecordMac => 20,
+            TlsError::RecordOverflow => 22,
             TlsError::HandshakeFailure => 40,
             TlsError::BadCertificate => 42,
             TlsError::UnsupportedCertificate => 43,
@@ -92,12 +109,18 @@ impl TlsError {
             TlsError::ProtocolVersion => 70,
             TlsError::InsufficientSecurity => 71,
             TlsError::InternalError => 80,
+            TlsError::InappropriateFallback => 86,
+            TlsError::UserCanceled => 90,
             TlsError::MissingExtension => 109,
+            TlsError::UnsupportedExtension => 110,
             TlsError::UnrecognizedName => 112,
+            TlsError::BadCertificateStatusResponse => 113,
+            TlsError::UnknownPskIdentity => 115,
             TlsError::CertificateRequired => 116,
+            TlsError::NoApplicationProtocol => 120,
+            TlsError::NotOfficial => 250,
             TlsError::GotAlert(alert) => *alert,
             TlsError::BrokenPipe => 254,
-            _ => 0,
         }
     }
 }
-- 
2.43.0


From 7f63bb971f64ca2d5730084c364b1171323b2982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 03/51] fix: report records failing authentication as
 bad_record_mac (RFC 8446 5.2)

---
 anothertls/src/net/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index ea61e10..808c966 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -224,7 +224,7 @@ impl RecordPayloadProtection {
             .decrypt(key, &nonce, ciphertext, &record.header, ahead)
         {
             Ok(e) => e,
-            Err(_) => return Err(TlsError::DecryptError),
+            Err(_) => return Err(TlsError::BadRecordMac),
         };
 
         // 5.4. Record Padding
-- 
2.43.0


From c9aa07249e1ec03208cd89a6231dee7834fb5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 04/51] fix: keep leading zero bytes when converting numbers to
 32 bytes

The big-endian conversion shifted every value with a leading zero byte, which
broke X25519 shared secrets and ECDSA signatures in 1 of 256 cases. The X25519
base point relied on that shift; DER integers must be minimal instead.
---
 anothertls/src/crypto/ellipticcurve/curve.rs     | 4 +++-
 anothertls/src/crypto/ellipticcurve/signature.rs | 8 ++++++--
 anothertls/src/utils/bytes.rs                    | 7 ++++++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/curve.rs b/anothertls/src/crypto/ellipticcurve/curve.rs
index 3f1bd22..da86f07 100644
--- a/anothertls/src/crypto/ellipticcurve/curve.rs
+++ b/anothertls/src/crypto/ellipticcurve/curve.rs
@@ -49,7 +49,9 @@ impl Curve {
             b: ibig!(1),
             n: ibig!(_1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed base 16),
             g: Point {
-                x: ibig!(9),
+                // u = 9, in the form used for all X25519 points: the little-endian
+                // encoding of u read as a big-endian number
+                x: ibig!(_0900000000000000000000000000000000000000000000000000000000000000 base 16),
                 y: ibig!(_20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9 base 16),
             },
         }
diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index e903fc5..df73606 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -63,6 +63,10 @@ impl Signature {
         let s = bytes::ibig_to_32bytes(self.s.clone(), bytes::ByteOrder::Big);
         let r = bytes::ibig_to_32bytes(self.r.clone(), bytes::ByteOrder::Big);
 
+        // DER integers have no unnecessary leading zero bytes
+        let s = &s[s.iter().position(|b| *b != 0).unwrap_or(31)..];
+        let r = &r[r.iter().position(|b| *b != 0).unwrap_or(31)..];
+
         let integer_type = 0x02;
         let sequence_type = 0x30;
 
@@ -74,7 +78,7 @@ impl Signature {
             *der.last_mut().unwrap() += 1;
             der.push(00);
         }
-        der.extend_from_slice(&r);
+        der.extend_from_slice(r);
 
         der.push(integer_type);
         der.push(s.len() as u8);
@@ -82,7 +86,7 @@ impl Signature {
             *der.last_mut().unwrap() += 1;
             der.push(00);
         }
-        der.extend_from_slice(&s);
+        der.extend_from_slice(s);
         let len = der.len() - 2;
         der[1] = len as u8;
         der
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index 3a56cb9..cb308bc 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -33,7 +33,9 @@ pub fn ibig_to_vec(num: IBig, order: ByteOrder) -> Vec<u8> {
     }
 }
 pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
-    let b = ibig_to_vec(num, order);
+    // The value is always 32 bytes long: the less significant bytes are
+    // the first (Little) or the last (Big) ones.
+    let b = ibig_to_vec(num, ByteOrder::Little);
     let mut c = [0; 32];
     for (i, d) in b.iter().enumerate() {
         if i >= 32 {
@@ -41,6 +43,9 @@ pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
         }
         c[i] = *d;
     }
+    if order == ByteOrder::Big {
+        c.reverse();
+    }
     c
 }
 pub fn u128_to_bytes_be(num: u128) -> [u8; 16] {
-- 
2.43.0


From 70733ee5036b59adc50a5b541a2c45a0a6d71ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 05/51] fix: ChaCha20 left the last block unencrypted for
 multiples of 64 bytes

The number of blocks was also computed with single precision floats.
---
 anothertls/src/crypto/chacha20/cipher.rs   | 7 ++-----
 anothertls/src/crypto/chacha20/poly1305.rs | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/crypto/chacha20/cipher.rs b/anothertls/src/crypto/chacha20/cipher.rs
index 007c158..4e47143 100644
--- a/anothertls/src/crypto/chacha20/cipher.rs
+++ b/anothertls/src/crypto/chacha20/cipher.rs
@@ -91,15 +91,12 @@ impl ChaCha20 {
     pub fn encrypt(input: &[u8], key: &[u8], iv: &[u8], counter: usize) -> Option<Vec<u8>> {
         let mut output = input.to_vec();
         let chacha20 = ChaCha20Block::init(key, iv, 0);
-        let blocks_len = (input.len() as f32 / 64.0).ceil() as usize;
+        let blocks_len = (input.len() + 63) / 64;
         for j in 0..blocks_len {
             let mut current_block = chacha20.clone()?;
             current_block.set_counter((counter + j) as u32);
             let key_stream = current_block.get_block();
-            let mut count = key_stream.len();
-            if (j * 64) + 64 >= input.len() {
-                count = input.len() % 64;
-            }
+            let count = core::cmp::min(key_stream.len(), input.len() - j * 64);
             for i in 0..count {
                 output[j * 64 + i] ^= key_stream[i];
             }
diff --git a/anothertls/src/crypto/chacha20/poly1305.rs b/anothertls/src/crypto/chacha20/poly1305.rs
index 16bf986..9ad69ac 100644
--- a/anothertls/src/crypto/chacha20/poly1305.rs
+++ b/anothertls/src/crypto/chacha20/poly1305.rs
@@ -29,7 +29,7 @@ impl Poly1305 {
         let mut a = ibig!(0);
         let p = ibig!(_3fffffffffffffffffffffffffffffffb base 16);
 
-        for i in 1..=(msg.len() as f32 / 16.0).ceil() as usize {
+        for i in 1..=(msg.len() + 15) / 16 {
             let n = if i * 16 > msg.len() {
                 let mut buf = vec![];
                 buf.extend_from_slice(&msg[(i - 1) * 16..]);
-- 
2.43.0


From f159c766d8b3179986000b71133ee3e473e5560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 06/51] fix: GCM counter wraps within its 32 bits for nonces
 other than 96 bits

For other nonce lengths the counter carried into the upper bits and overflowed.
---
 anothertls/src/crypto/aes/gcm.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/crypto/aes/gcm.rs b/anothertls/src/crypto/aes/gcm.rs
index 90ddb61..b1f19f2 100644
--- a/anothertls/src/crypto/aes/gcm.rs
+++ b/anothertls/src/crypto/aes/gcm.rs
@@ -50,7 +50,6 @@ impl Gcm {
 
         let mut output = Vec::default();
         let mut aes = AES::init(key, blocksize);
-        let mut counter = 0u128;
         let mut X = 0u128; // for i == 0
 
         let H = bytes::to_u128_be(&aes.encrypt([0; 16]));
@@ -69,9 +68,10 @@ impl Gcm {
             let len = (iv.len() * 8) as u128;
             Gcm::gmult(N ^ len, H)
         } else {
-            counter = 1;
             bytes::to_u128_be(iv) | 1
         };
+        // Only the last 32 bits are incremented and they wrap around
+        let mut counter = Yi & 0xFFFFFFFF;
 
         let mut auth_tag = bytes::to_u128_be(&aes.encrypt(bytes::u128_to_bytes_be(Yi)));
 
@@ -89,11 +89,7 @@ impl Gcm {
         for i in (0..n).step_by(16) {
             counter = (counter + 1) % 0x100000000; // 2^32
 
-            let Yi = if (iv.len() * 8) != 96 {
-                Yi + counter
-            } else {
-                (Yi & !0xFFFFFFFF) | counter
-            };
+            let Yi = (Yi & !0xFFFFFFFF) | counter;
 
             let Ek_Y = aes.encrypt(bytes::u128_to_bytes_be(Yi));
 
-- 
2.43.0


From cf732a521aab080bcaa9e022e70789e29261f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 07/51] fix: AEAD ciphers return an error for unusable key and
 nonce lengths instead of a panic

---
 anothertls/src/crypto/aes/gcm.rs           |  5 ++++-
 anothertls/src/crypto/chacha20/poly1305.rs | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/aes/gcm.rs b/anothertls/src/crypto/aes/gcm.rs
index b1f19f2..d42ca0e 100644
--- a/anothertls/src/crypto/aes/gcm.rs
+++ b/anothertls/src/crypto/aes/gcm.rs
@@ -46,7 +46,10 @@ impl Gcm {
         additional_data: &[u8],
         encrypt: bool,
     ) -> Result<(Vec<u8>, [u8; 16]), TlsError> {
-        let blocksize = Blocksize::new(key.len() * 8).unwrap();
+        let blocksize = match Blocksize::new(key.len() * 8) {
+            Some(e) if !iv.is_empty() => e,
+            _ => return Err(TlsError::InternalError),
+        };
 
         let mut output = Vec::default();
         let mut aes = AES::init(key, blocksize);
diff --git a/anothertls/src/crypto/chacha20/poly1305.rs b/anothertls/src/crypto/chacha20/poly1305.rs
index 9ad69ac..c6dbd80 100644
--- a/anothertls/src/crypto/chacha20/poly1305.rs
+++ b/anothertls/src/crypto/chacha20/poly1305.rs
@@ -74,7 +74,13 @@ impl Cipher for Poly1305 {
         plaintext: &[u8],
         additional_data: &[u8],
     ) -> Result<(Vec<u8>, [u8; 16]), TlsError> {
-        let ciphertext = ChaCha20::encrypt(plaintext, key, iv, 1).unwrap();
+        if key.len() != 32 || iv.len() != 12 {
+            return Err(TlsError::InternalError);
+        }
+        let ciphertext = match ChaCha20::encrypt(plaintext, key, iv, 1) {
+            Some(e) => e,
+            None => return Err(TlsError::InternalError),
+        };
         let otk = Poly1305::key_gen(key, iv);
         let tag = Poly1305::mac(&otk, &Poly1305::get_mac_data(&ciphertext, additional_data));
         Ok((ciphertext, tag))
@@ -88,6 +94,9 @@ impl Cipher for Poly1305 {
         additional_data: &[u8],
         auth_tag: &[u8],
     ) -> Result<Vec<u8>, TlsError> {
+        if key.len() != 32 || iv.len() != 12 {
+            return Err(TlsError::InternalError);
+        }
         let otk = Poly1305::key_gen(key, iv);
         let tag = Poly1305::mac(&otk, &Poly1305::get_mac_data(ciphertext, additional_data));
         if tag == auth_tag {
-- 
2.43.0


From 6e5a669f91c10c6bdcb79185707cf35e78a146ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 08/51] fix: HMAC hashes only keys longer than the block size
 of the hash

---
 anothertls/src/hash/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/hash/hmac.rs b/anothertls/src/hash/hmac.rs
index a88ea8d..1304f07 100644
--- a/anothertls/src/hash/hmac.rs
+++ b/anothertls/src/hash/hmac.rs
@@ -38,7 +38,7 @@ impl<'a> Hmac<'a> {
 
         let hashed_key;
 
-        let key = if self.key.len() > 64 {
+        let key = if self.key.len() > size {
             hashed_key = match self.hash {
                 HashType::SHA256 => sha256(self.key),
                 HashType::SHA384 => sha384(self.key),
-- 
2.43.0


From 7d6d056551ed8deb9179b7aca5b7966c9bbc7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 09/51] fix: SimpleRng returns the requested number of bytes

---
 anothertls/src/rand/simplerng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/rand/simplerng.rs b/anothertls/src/rand/simplerng.rs
index aaf7624..833393b 100644
--- a/anothertls/src/rand/simplerng.rs
+++ b/anothertls/src/rand/simplerng.rs
@@ -32,7 +32,7 @@ impl RngCore<u32> for SimpleRng<u32> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.push(self.next() as u8)
         }
         res
@@ -61,12 +61,13 @@ impl RngCore<IBig> for SimpleRng<IBig> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.extend_from_slice(&bytes::ibig_to_32bytes(
                 self.next(),
                 bytes::ByteOrder::Little,
             ));
         }
+        res.truncate(size);
         res
     }
 }
-- 
2.43.0


From 78f58f1dfb2045d69e7a8a2aa6b777ea23f52eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 10/51] fix: URandomRng returns more than 100 bytes on request
 instead of a panic

---
 anothertls/src/rand/urandom.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/rand/urandom.rs b/anothertls/src/rand/urandom.rs
index a2c14b3..aa021c7 100644
--- a/anothertls/src/rand/urandom.rs
+++ b/anothertls/src/rand/urandom.rs
@@ -48,7 +48,11 @@ impl RngCore<IBig> for URandomRng {
         self.next() % (max - min.clone()) + min
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
-        let rand_bytes = self.read_from_urandom();
-        rand_bytes[..size].to_owned()
+        let mut res = Vec::with_capacity(size);
+        while res.len() < size {
+            res.extend_from_slice(&self.read_from_urandom());
+        }
+        res.truncate(size);
+        res
     }
 }
-- 
2.43.0


From 2f1efeb9c134bfe81599bfa762366e3c3c942c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 11/51] fix: abort on X25519 key shares of wrong length or with
 an all-zero shared secret

---
 anothertls/src/net/key_schedule.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 8c5d5c7..28a194d 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -135,6 +135,10 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
+        if key_share_entry.opaque.len() != 32 {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let client_public_key = bytes::to_ibig_be(&key_share_entry.opaque);
         let client_public_key = Point::new(client_public_key, ibig!(0));
 
@@ -144,6 +148,12 @@ impl KeySchedule {
         let shared_secret = math::multiply(&client_public_key, server_private_key, curve);
         let shared_secret = bytes::ibig_to_32bytes(shared_secret.x, bytes::ByteOrder::Big);
 
+        // 7.4.2. Implementations MUST check whether the computed Diffie-Hellman
+        // shared secret is the all-zero value and abort if so
+        if shared_secret.iter().all(|b| *b == 0) {
+            return Err(TlsError::IllegalParameter);
+        }
+
         match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &shared_secret) {
             Some(keys) => Ok(keys),
             None => Err(TlsError::HandshakeFailure),
-- 
2.43.0


From ea125a6db3546ef34e817d88be5b81adc0609f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 12/51] fix: terminate the connection instead of wrapping the
 record sequence number

---
 anothertls/src/net/key_schedule.rs | 11 +++++++----
 anothertls/src/net/record.rs       |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 28a194d..a0e2018 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -48,7 +48,7 @@ impl Key {
             sequence_number: 0,
         })
     }
-    pub fn get_per_record_nonce(&mut self) -> Vec<u8> {
+    pub fn get_per_record_nonce(&mut self) -> Result<Vec<u8>, TlsError> {
         // 5.3.  Per-Record Nonce
         let mut out = self.iv.to_vec();
 
@@ -56,11 +56,14 @@ impl Key {
             out[(12 - 1) - i] ^= (self.sequence_number >> (i * 8)) as u8;
         }
 
-        // FIXME: Because the size of sequence numbers is 64-bit, they should not wrap. If a TLS
+        // Because the size of sequence numbers is 64-bit, they should not wrap. If a TLS
         // implementation would need to wrap a sequence number, it MUST either rekey (Section
         // 4.6.3) or terminate the connection.
-        self.sequence_number += 1;
-        out
+        self.sequence_number = match self.sequence_number.checked_add(1) {
+            Some(e) => e,
+            None => return Err(TlsError::InternalError),
+        };
+        Ok(out)
     }
 }
 
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 808c966..e487318 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -183,9 +183,9 @@ impl RecordPayloadProtection {
         ];
 
         let (nonce, key) = if self.is_client {
-            (keys.client.get_per_record_nonce(), &keys.client.key)
+            (keys.client.get_per_record_nonce()?, &keys.client.key)
         } else {
-            (keys.server.get_per_record_nonce(), &keys.server.key)
+            (keys.server.get_per_record_nonce()?, &keys.server.key)
         };
 
         let (encrypted_record, ahead) =
@@ -214,9 +214,9 @@ impl RecordPayloadProtection {
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
         let (nonce, key) = if self.is_client {
-            (keys.server.get_per_record_nonce(), &keys.server.key)
+            (keys.server.get_per_record_nonce()?, &keys.server.key)
         } else {
-            (keys.client.get_per_record_nonce(), &keys.client.key)
+            (keys.client.get_per_record_nonce()?, &keys.client.key)
         };
 
         let plaintext = match self
-- 
2.43.0


From 3c21b47b184975a80de4274bf805c11c59f27cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 13/51] fix: reject handshake messages longer than the received
 data instead of slicing out of bounds

---
 anothertls/src/net/handshake/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index a36218d..cc40cdc 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -63,6 +63,9 @@ impl<'a> Handshake<'a> {
         };
 
         let len = (((buf[1] as u32) << 16) | ((buf[2] as u32) << 8) | buf[3] as u32) as usize;
+        if buf.len() < len + 4 {
+            return Err(TlsError::DecodeError);
+        }
         Ok(Handshake {
             handshake_type,
             fraqment: &buf[4..(len + 4)],
-- 
2.43.0


From ac50b6a795e26f58b669031bad494b871664f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 14/51] fix: check all lengths when parsing hello extensions

Malformed extensions from the peer led to slicing out of bounds and known but
unhandled extensions were not skipped.
---
 .../src/net/extensions/certificate_request.rs | 21 ++++------
 anothertls/src/net/extensions/client.rs       | 42 ++++++++-----------
 anothertls/src/net/extensions/key_share.rs    | 29 +++++--------
 anothertls/src/net/extensions/server.rs       | 36 +++++++---------
 anothertls/src/net/extensions/server_name.rs  | 26 ++++++------
 anothertls/src/net/extensions/shared.rs       | 19 +++++++++
 .../src/net/extensions/signature_algorithm.rs | 11 +++--
 .../src/net/extensions/supported_versions.rs  | 17 ++++----
 8 files changed, 97 insertions(+), 104 deletions(-)

diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index 4d67eaa..0f8628d 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -5,9 +5,9 @@
 
 use crate::net::alert::TlsError;
 use crate::net::extensions::{
-    Extension, ExtensionType, ExtensionWrapper, Extensions, SignatureAlgorithms,
+    shared::next_extension, Extension, ExtensionType, ExtensionWrapper, Extensions,
+    SignatureAlgorithms,
 };
-use crate::utils::bytes;
 
 pub enum CertificateRequestExtension {
     SignatureAlgorithms(SignatureAlgorithms),
@@ -29,25 +29,20 @@ impl CertificateRequestExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
-            }
-            let extension_type = extension_type.unwrap();
+            let (extension_type, data) = next_extension(&mut consumed, buf)?;
+            let extension_type = match extension_type {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
                 ExtensionType::SignatureAlgorithms => {
                     CertificateRequestExtension::SignatureAlgorithms(
-                        SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                        SignatureAlgorithms::client_parse(data)?,
                     )
                 }
                 _ => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index f1362a5..1824ff3 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -5,10 +5,9 @@
 
 use crate::net::alert::TlsError;
 use crate::net::extensions::{
-    Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare, ServerName,
-    SignatureAlgorithms, SupportedGroups, SupportedVersions,
+    shared::next_extension, Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare,
+    ServerName, SignatureAlgorithms, SupportedGroups, SupportedVersions,
 };
-use crate::utils::bytes;
 
 pub type ClientExtensions = Extensions<ClientExtension>;
 
@@ -38,32 +37,25 @@ impl ClientExtension {
         let mut extensions = ClientExtensions::new();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
-            }
-            let extension_type = extension_type.unwrap();
+            let (extension_type, data) = next_extension(&mut consumed, buf)?;
+            let extension_type = match extension_type {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
-                ExtensionType::ServerName => ClientExtension::ServerName(ServerName::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ClientExtension::SupportedVersion(
-                    SupportedVersions::server_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ClientExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::server_parse(&buf[consumed..])?,
-                ),
+                ExtensionType::ServerName => {
+                    ClientExtension::ServerName(ServerName::server_parse(data)?)
+                }
+                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(data)?),
+                ExtensionType::SupportedVersions => {
+                    ClientExtension::SupportedVersion(SupportedVersions::server_parse(data)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ClientExtension::SignatureAlgorithms(SignatureAlgorithms::server_parse(data)?)
+                }
                 ExtensionType::SupportedGroups => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index b7ec5ab..34995de 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -20,19 +20,17 @@ impl KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
     fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
+        if buf.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
         let group = bytes::to_u16(buf);
         let group = match NamedGroup::new(group) {
             Some(x) => x,
             None => return Err(TlsError::IllegalParameter),
         };
-        let public_key_len = bytes::to_u16(&buf[2..]);
-        Ok((
-            4 + public_key_len as usize,
-            KeyShareEntry {
-                group,
-                opaque: (buf[4..(public_key_len + 4) as usize]).to_vec(),
-            },
-        ))
+        let consumed = 4 + bytes::to_u16(&buf[2..]) as usize;
+        let opaque = buf.get(4..consumed).ok_or(TlsError::DecodeError)?.to_vec();
+        Ok((consumed, KeyShareEntry { group, opaque }))
     }
     fn as_bytes(&self) -> Vec<u8> {
         let mut out = vec![];
@@ -57,23 +55,18 @@ impl KeyShare {
     }
     fn parse(buf: &[u8], is_client: bool) -> Result<Self, TlsError> {
         let mut entries = vec![];
-        let mut len = 0;
         let mut consumed = 0;
         if !is_client {
-            len = bytes::to_u16(buf) as usize;
+            // The list of the client has a length, the server sends one entry only
+            if buf.len() < 2 || bytes::to_u16(buf) as usize != buf.len() - 2 {
+                return Err(TlsError::DecodeError);
+            }
             consumed += 2;
         }
-        loop {
+        while consumed < buf.len() {
             let (used, entry) = KeyShareEntry::parse(&buf[consumed..])?;
-            if used <= 7 {
-                break;
-            }
             entries.push(entry);
             consumed += used;
-            // len is for server 0, so it should always break here
-            if consumed >= len {
-                break;
-            }
         }
         Ok(KeyShare(entries))
     }
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index dab9dca..60d359f 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -6,10 +6,9 @@
 // use crate::utils::x509::Extensions;
 use crate::net::alert::TlsError;
 use crate::net::extensions::{
-    Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare, SignatureAlgorithms,
-    SupportedVersions,
+    shared::next_extension, Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare,
+    SignatureAlgorithms, SupportedVersions,
 };
-use crate::utils::bytes;
 
 pub enum ServerExtension {
     SupportedVersions(SupportedVersions),
@@ -36,29 +35,22 @@ impl ServerExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
-            }
-            let extension_type = extension_type.unwrap();
+            let (extension_type, data) = next_extension(&mut consumed, buf)?;
+            let extension_type = match extension_type {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
-                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ServerExtension::SupportedVersions(
-                    SupportedVersions::client_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ServerExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::client_parse(&buf[consumed..])?,
-                ), // ExtensionType::SupportedGroups => continue, // TODO
+                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(data)?),
+                ExtensionType::SupportedVersions => {
+                    ServerExtension::SupportedVersions(SupportedVersions::client_parse(data)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ServerExtension::SignatureAlgorithms(SignatureAlgorithms::client_parse(data)?)
+                } // ExtensionType::SupportedGroups => continue, // TODO
                 _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index 6b524aa..3487a7f 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -41,22 +41,22 @@ impl Extension for ServerName {
     where
         Self: Sized,
     {
-        let server_name_list_len = bytes::to_u16(buf);
-        let mut consumed = 2;
+        if buf.len() < 2 || bytes::to_u16(buf) as usize != buf.len() - 2 {
+            return Err(TlsError::DecodeError);
+        }
         let mut server_name = String::new();
-        if server_name_list_len > 0 {
-            let name_type = buf[consumed];
-            consumed += 1;
-            if name_type != 0 {
+        if buf.len() > 2 {
+            if buf.len() < 5 || buf[2] != 0 {
                 return Err(TlsError::DecodeError);
             }
-            let server_name_len = bytes::to_u16(&buf[consumed..]) as usize;
-            consumed += 2;
-            server_name =
-                match String::from_utf8(buf[consumed..server_name_len + consumed].to_vec()) {
-                    Ok(a) => a,
-                    Err(_) => return Err(TlsError::DecodeError),
-                };
+            let server_name_len = bytes::to_u16(&buf[3..]) as usize;
+            let name = buf
+                .get(5..5 + server_name_len)
+                .ok_or(TlsError::DecodeError)?;
+            server_name = match String::from_utf8(name.to_vec()) {
+                Ok(a) => a,
+                Err(_) => return Err(TlsError::DecodeError),
+            };
         }
         Ok(ServerName(server_name))
     }
diff --git a/anothertls/src/net/extensions/shared.rs b/anothertls/src/net/extensions/shared.rs
index dc1e7fd..9fceeeb 100644
--- a/anothertls/src/net/extensions/shared.rs
+++ b/anothertls/src/net/extensions/shared.rs
@@ -4,6 +4,7 @@
  */
 
 use crate::net::alert::TlsError;
+use crate::utils::bytes;
 
 pub trait Extension {
     fn server_parse(buf: &[u8]) -> Result<Self, TlsError>
@@ -27,6 +28,24 @@ pub trait ExtensionWrapper {
     fn get_extension(&self) -> Box<&dyn Extension>;
 }
 
+/// Get the type and the data of the extension at the position `consumed`,
+/// which is moved to the extension after it.
+pub fn next_extension<'a>(
+    consumed: &mut usize,
+    buf: &'a [u8],
+) -> Result<(Option<ExtensionType>, &'a [u8]), TlsError> {
+    let header = buf
+        .get(*consumed..*consumed + 4)
+        .ok_or(TlsError::DecodeError)?;
+    let size = bytes::to_u16(&header[2..4]) as usize;
+    *consumed += 4;
+    let data = buf
+        .get(*consumed..*consumed + size)
+        .ok_or(TlsError::DecodeError)?;
+    *consumed += size;
+    Ok((ExtensionType::new(bytes::to_u16(&header[..2])), data))
+}
+
 pub struct Extensions<T: ExtensionWrapper> {
     extensions: Vec<T>,
     is_client: bool,
diff --git a/anothertls/src/net/extensions/signature_algorithm.rs b/anothertls/src/net/extensions/signature_algorithm.rs
index eb8a90d..06247f1 100644
--- a/anothertls/src/net/extensions/signature_algorithm.rs
+++ b/anothertls/src/net/extensions/signature_algorithm.rs
@@ -96,13 +96,12 @@ impl Extension for SignatureAlgorithms {
     where
         Self: Sized,
     {
-        let len = bytes::to_u16(buf) as usize;
+        if buf.len() < 2 || bytes::to_u16(buf) as usize != buf.len() - 2 || buf.len() % 2 != 0 {
+            return Err(TlsError::DecodeError);
+        }
         let mut out = vec![];
-        if len % 2 == 0 {
-            for i in (2..len).step_by(2) {
-                let tes = bytes::to_u16(&buf[i..(i + 2)]);
-                out.push(SignatureScheme::new(tes)?);
-            }
+        for scheme in buf[2..].chunks(2) {
+            out.push(SignatureScheme::new(bytes::to_u16(scheme))?);
         }
         Ok(SignatureAlgorithms(out))
     }
diff --git a/anothertls/src/net/extensions/supported_versions.rs b/anothertls/src/net/extensions/supported_versions.rs
index 8ce7fd1..7da66db 100644
--- a/anothertls/src/net/extensions/supported_versions.rs
+++ b/anothertls/src/net/extensions/supported_versions.rs
@@ -34,12 +34,12 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        let len = buf[0] as usize;
-        if len % 2 == 0 {
-            for i in (1..len + 1).step_by(2) {
-                if bytes::to_u16(&buf[i..(i + 2)]) == 0x0304 {
-                    return Ok(SupportedVersions::new(true));
-                }
+        if buf.is_empty() || buf[0] as usize != buf.len() - 1 || buf[0] % 2 != 0 {
+            return Err(TlsError::DecodeError);
+        }
+        for version in buf[1..].chunks(2) {
+            if bytes::to_u16(version) == 0x0304 {
+                return Ok(SupportedVersions::new(true));
             }
         }
         Ok(SupportedVersions::new(false))
@@ -48,7 +48,10 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        if bytes::to_u16(&buf[0..2]) == 0x0304 {
+        if buf.len() != 2 {
+            return Err(TlsError::DecodeError);
+        }
+        if bytes::to_u16(buf) == 0x0304 {
             return Ok(SupportedVersions::new(true));
         }
         Ok(SupportedVersions::new(false))
-- 
2.43.0


From d15f91b9700af4758f241b861ca8616d5784cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 15/51] fix: check all lengths and the compression methods when
 parsing the ClientHello

Session ids with a length other than 32 were misread and truncated hellos led
to slicing out of bounds.
---
 anothertls/src/net/client/client_hello.rs | 60 ++++++++++++++++-------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index ddb9232..0b6e59b 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -10,7 +10,7 @@ use crate::{
         alert::TlsError,
         extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
     },
-    utils::log,
+    utils::{bytes, log},
 };
 use std::result::Result;
 
@@ -71,10 +71,9 @@ impl<'a> ClientHello<'a> {
         Ok(out)
     }
     pub fn from_raw(buf: &[u8]) -> Result<ClientHello, TlsError> {
-        if buf.len() < 45 {
-            // FIXME: make this dynamic -> extensions_len...
-            // 45 -> minimum handshake size (without session id, and extensions)
-            return Err(TlsError::IllegalParameter);
+        if buf.len() < 35 {
+            // 35 -> version, random and length of the session id
+            return Err(TlsError::DecodeError);
         }
 
         let legacy_version = ((buf[0] as u16) << 8) | buf[1] as u16;
@@ -83,24 +82,33 @@ impl<'a> ClientHello<'a> {
         }
 
         let random = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
+        if session_id_length > 32 {
+            return Err(TlsError::DecodeError);
+        }
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            legacy_session_id_echo = Some(
+                buf.get(consumed..consumed + session_id_length)
+                    .ok_or(TlsError::DecodeError)?,
+            );
+            consumed += session_id_length;
         }
 
         // Cipher Suites
-        let cipher_suites_len = ((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16);
-        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + cipher_suites_len as usize) {
-            return Err(TlsError::IllegalParameter);
-        }
+        let cipher_suites_len = match buf.get(consumed..consumed + 2) {
+            Some(e) => bytes::to_u16(e) as usize,
+            None => return Err(TlsError::DecodeError),
+        };
         consumed += 2;
+        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + cipher_suites_len) {
+            return Err(TlsError::DecodeError);
+        }
         let mut cipher_suites = vec![];
         log::debug!("Clients CipherSuites:");
-        for i in (consumed..(consumed + cipher_suites_len as usize)).step_by(2) {
+        for i in (consumed..(consumed + cipher_suites_len)).step_by(2) {
             let cs = CipherSuite::new(((buf[i] as u16) << 8) | (buf[i + 1] as u16));
             if let Ok(cs) = cs {
                 log::debug!("  {cs:?}");
@@ -108,17 +116,31 @@ impl<'a> ClientHello<'a> {
             }
         }
 
-        consumed += cipher_suites_len as usize;
+        consumed += cipher_suites_len;
 
         // Compression Methode
-        // TLS 1.3 no longer allows compression
+        let compression_len = *buf.get(consumed).ok_or(TlsError::DecodeError)? as usize;
+        consumed += 1;
+        let compression_methods = buf
+            .get(consumed..consumed + compression_len)
+            .ok_or(TlsError::DecodeError)?;
+        consumed += compression_len;
+
+        let extensions_len = match buf.get(consumed..consumed + 2) {
+            Some(e) => bytes::to_u16(e) as usize,
+            None => return Err(TlsError::DecodeError),
+        };
         consumed += 2;
+        if buf.len() != consumed + extensions_len {
+            return Err(TlsError::DecodeError);
+        }
 
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
-        consumed += 2;
+        let extensions = ClientExtension::from_client_hello(&buf[consumed..])?;
 
-        let extensions =
-            ClientExtension::from_client_hello(&buf[consumed..(consumed + extensions_len)])?;
+        // TLS 1.3 no longer allows compression
+        if compression_methods != [0x00] {
+            return Err(TlsError::IllegalParameter);
+        }
 
         Ok(ClientHello {
             random,
-- 
2.43.0


From 95250258b2cb983dd091ee59245485a8f20a08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 16/51] fix: refuse clients which do not offer TLS 1.3

A ClientHello without the supported_versions extension was accepted as TLS 1.3.
---
 anothertls/src/net/client/client_hello.rs | 15 +++++++++++++++
 anothertls/src/net/server/server_hello.rs |  7 ++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index 0b6e59b..013db97 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -126,6 +126,11 @@ impl<'a> ClientHello<'a> {
             .ok_or(TlsError::DecodeError)?;
         consumed += compression_len;
 
+        if consumed == buf.len() {
+            // Without extensions the client can't support TLS 1.3
+            return Err(TlsError::ProtocolVersion);
+        }
+
         let extensions_len = match buf.get(consumed..consumed + 2) {
             Some(e) => bytes::to_u16(e) as usize,
             None => return Err(TlsError::DecodeError),
@@ -137,6 +142,16 @@ impl<'a> ClientHello<'a> {
 
         let extensions = ClientExtension::from_client_hello(&buf[consumed..])?;
 
+        let mut tls13_is_supported = false;
+        for ext in extensions.as_vec().iter() {
+            if let ClientExtension::SupportedVersion(version) = ext {
+                tls13_is_supported = version.is_tls13_supported();
+            }
+        }
+        if !tls13_is_supported {
+            return Err(TlsError::ProtocolVersion);
+        }
+
         // TLS 1.3 no longer allows compression
         if compression_methods != [0x00] {
             return Err(TlsError::IllegalParameter);
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 581e7c4..8e50df1 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -99,11 +99,8 @@ impl<'a> ServerHello<'a> {
 
         for ext in client_hello.extensions.as_vec().iter() {
             match ext {
-                ClientExtension::SupportedVersion(version) => {
-                    if !version.is_tls13_supported() {
-                        return Err(TlsError::InsufficientSecurity);
-                    }
-                }
+                // Already checked by parsing the ClientHello
+                ClientExtension::SupportedVersion(_version) => (),
                 ClientExtension::KeyShare(key_share) => {
                     for key in key_share.0.iter() {
                         match key.group {
-- 
2.43.0


From 005d2377066d8db055bbc89a578ca7685f7e0238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 17/51] fix: check all lengths and the compression method when
 parsing the ServerHello

---
 anothertls/src/net/server/server_hello.rs | 38 ++++++++++++++++-------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 8e50df1..8b160f6 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -27,8 +27,9 @@ pub struct ServerHello<'a> {
 
 impl<'a> ServerHello<'a> {
     pub fn from_raw(buf: &[u8]) -> Result<ServerHello, TlsError> {
-        if buf.len() < 36 {
-            return Err(TlsError::IllegalParameter);
+        if buf.len() < 35 {
+            // 35 -> version, random and length of the session id
+            return Err(TlsError::DecodeError);
         }
 
         let legacy_version = ((buf[0] as u16) << 8) | buf[1] as u16;
@@ -37,25 +38,38 @@ impl<'a> ServerHello<'a> {
         }
 
         let random: [u8; 32] = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
+        if session_id_length > 32 {
+            return Err(TlsError::DecodeError);
+        }
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            legacy_session_id_echo = Some(
+                buf.get(consumed..consumed + session_id_length)
+                    .ok_or(TlsError::DecodeError)?,
+            );
+            consumed += session_id_length;
         }
 
-        let cipher_suite =
-            CipherSuite::new(((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16))?;
+        let header = buf
+            .get(consumed..consumed + 5)
+            .ok_or(TlsError::DecodeError)?;
+        consumed += 5; // CipherSuite + Compression Method + Extensions Length
+
+        let cipher_suite = CipherSuite::new(bytes::to_u16(&header[..2]))?;
 
-        consumed += 3; // CipherSuite + Compression Method
+        if header[2] != 0x00 {
+            // TLS 1.3 no longer allows compression
+            return Err(TlsError::IllegalParameter);
+        }
 
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
-        consumed += 2;
+        if buf.len() != consumed + bytes::to_u16(&header[3..]) as usize {
+            return Err(TlsError::DecodeError);
+        }
 
-        let extensions =
-            ServerExtensions::from_server_hello(&buf[consumed..(consumed + extensions_len)])?;
+        let extensions = ServerExtensions::from_server_hello(&buf[consumed..])?;
 
         let mut tls13_is_supported = false;
         for ext in extensions.as_vec().iter() {
-- 
2.43.0


From 3c269b76c68962f7d9a770182158122fcd047eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 18/51] fix: select the X25519 key share wherever it is in the
 list

Clients listing a secp256r1 share first crashed the server, unknown groups
(GREASE) aborted the handshake and any other first entry was used as X25519.
---
 anothertls/src/net/client/client_hello.rs  |  9 +++++----
 anothertls/src/net/extensions/key_share.rs | 18 ++++++++++--------
 anothertls/src/net/server/server_hello.rs  |  5 +----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index 013db97..fb09744 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -8,7 +8,7 @@ use crate::{
     crypto::CipherSuite,
     net::{
         alert::TlsError,
-        extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
+        extensions::{ClientExtension, ClientExtensions, KeyShareEntry, NamedGroup},
     },
     utils::{bytes, log},
 };
@@ -168,9 +168,10 @@ impl<'a> ClientHello<'a> {
     pub fn get_public_key_share(&self) -> Option<&KeyShareEntry> {
         for ext in self.extensions.as_vec().iter() {
             if let ClientExtension::KeyShare(key_share) = ext {
-                if !key_share.0.is_empty() {
-                    return Some(&key_share.0[0]);
-                }
+                return key_share
+                    .0
+                    .iter()
+                    .find(|entry| entry.group == NamedGroup::X25519);
             }
         }
         None
diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index 34995de..f6d7821 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -19,18 +19,15 @@ impl KeyShareEntry {
     pub fn new(group: NamedGroup, opaque: Vec<u8>) -> KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
-    fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
+    /// The entry is None, when the group is unknown
+    fn parse(buf: &[u8]) -> Result<(usize, Option<KeyShareEntry>), TlsError> {
         if buf.len() < 4 {
             return Err(TlsError::DecodeError);
         }
-        let group = bytes::to_u16(buf);
-        let group = match NamedGroup::new(group) {
-            Some(x) => x,
-            None => return Err(TlsError::IllegalParameter),
-        };
+        let group = NamedGroup::new(bytes::to_u16(buf));
         let consumed = 4 + bytes::to_u16(&buf[2..]) as usize;
         let opaque = buf.get(4..consumed).ok_or(TlsError::DecodeError)?.to_vec();
-        Ok((consumed, KeyShareEntry { group, opaque }))
+        Ok((consumed, group.map(|group| KeyShareEntry { group, opaque })))
     }
     fn as_bytes(&self) -> Vec<u8> {
         let mut out = vec![];
@@ -65,8 +62,13 @@ impl KeyShare {
         }
         while consumed < buf.len() {
             let (used, entry) = KeyShareEntry::parse(&buf[consumed..])?;
-            entries.push(entry);
             consumed += used;
+            match entry {
+                Some(entry) => entries.push(entry),
+                // Clients can offer groups (e.g. GREASE) unknown to the server
+                None if !is_client => continue,
+                None => return Err(TlsError::IllegalParameter),
+            }
         }
         Ok(KeyShare(entries))
     }
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 8b160f6..afc0e48 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -133,10 +133,7 @@ impl<'a> ServerHello<'a> {
                                 named_group = Some(NamedGroup::X25519);
                                 break;
                             }
-                            NamedGroup::Secp256r1 => {
-                                todo!("Add support for secp256 key exchange");
-                                // named_group = Some(NamedGroup::Secp256r1);
-                            }
+                            // TODO: Add support for secp256 key exchange
                             _ => {}
                         }
                     }
-- 
2.43.0


From e4e41dc7ee0b1e0cf8999e016c0ab0249b06e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 19/51] fix: reassemble records regardless of how TCP splits or
 merges them

Records coalesced into one read were dropped, records split over several reads
aborted the connection, records bigger than the caller's buffer panicked and
the client processed records twice after a split.
---
 anothertls/src/net/client/connection.rs | 39 +------------
 anothertls/src/net/record.rs            | 14 ++++-
 anothertls/src/net/server/connection.rs | 11 +---
 anothertls/src/net/stream.rs            | 77 ++++++++++++++++---------
 4 files changed, 67 insertions(+), 74 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 6109c45..c0365db 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -102,44 +102,9 @@ impl<'a> ClientHandshake<'a> {
         self.send_client_hello()?;
         log::debug!("<-- ClientHello");
 
-        let mut defragmented = Vec::with_capacity(2048);
-        let mut rxbuf = [0; 2048];
-
         while self.state != ClientHsState::Ready {
-            let n = self.stream.tcp_read(&mut rxbuf)?;
-
-            if n == 0 {
-                log::error!("Got empty tcp");
-                return Err(TlsError::BrokenPipe);
-            }
-
-            let mut offset = 0;
-
-            if !defragmented.is_empty() {
-                defragmented.extend_from_slice(&rxbuf[..n]);
-            }
-
-            while offset < n || !defragmented.is_empty() {
-                let record_buf = if defragmented.is_empty() {
-                    &rxbuf[offset..n]
-                } else {
-                    &defragmented[offset..]
-                };
-
-                if let Ok((consumed, record)) = Record::from_raw(record_buf) {
-                    self.handle_handshake_record(record)?;
-                    offset += consumed;
-                    if offset == defragmented.len() {
-                        defragmented.clear();
-                        break;
-                    }
-                } else {
-                    if defragmented.is_empty() {
-                        defragmented.extend_from_slice(&rxbuf[offset..n]);
-                    }
-                    break;
-                }
-            }
+            let record = self.stream.read_record()?;
+            self.handle_handshake_record(record)?;
 
             // send server handshake records to the client
             self.stream.flush()?;
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index e487318..82e9749 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -10,6 +10,9 @@ use crate::net::key_schedule::KeySchedule;
 use crate::net::{alert::TlsError, key_schedule::WriteKeys};
 use std::sync::Arc;
 
+/// 5.2. The length of a (protected) record MUST NOT exceed 2^14 + 256 bytes
+pub const MAX_RECORD_LEN: usize = (1 << 14) + 256;
+
 #[derive(PartialEq, Clone, Copy, Debug)]
 pub enum RecordType {
     Invalid = 0,
@@ -68,7 +71,7 @@ pub struct Record<'a> {
 }
 
 impl<'a> Record<'a> {
-    pub fn new(content_type: RecordType, fraqment: Value) -> Record {
+    pub fn new(content_type: RecordType, fraqment: Value<'a>) -> Record<'a> {
         Record {
             content_type,
             version: 0x0303,
@@ -100,6 +103,15 @@ impl<'a> Record<'a> {
             },
         ))
     }
+    pub fn into_owned(self) -> Record<'static> {
+        Record {
+            content_type: self.content_type,
+            version: self.version,
+            len: self.len,
+            header: self.header,
+            fraqment: Value::Owned(self.fraqment.as_ref().to_vec()),
+        }
+    }
     pub fn as_bytes(&self) -> Vec<u8> {
         let len = self.fraqment.len();
         let mut t = vec![
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 119853c..acd80b1 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -106,16 +106,9 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn do_handshake(&mut self) -> Result<(), TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
         while self.state != ServerHsState::Ready {
-            let n = self.stream.tcp_read(&mut rx_buf)?;
-            let mut consumed_total = 0;
-            while consumed_total < n {
-                let (consumed, record) = Record::from_raw(&rx_buf[consumed_total..n])?;
-                consumed_total += consumed;
-                self.handle_handshake_record(record)?;
-            }
+            let record = self.stream.read_record()?;
+            self.handle_handshake_record(record)?;
             // send server handshake records to the client
             self.stream.flush()?;
         }
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 1e126f7..3cca2c1 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -4,8 +4,8 @@
  */
 
 use crate::net::alert::{AlertLevel, TlsError};
-use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
-use crate::utils::log;
+use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value, MAX_RECORD_LEN};
+use crate::utils::{bytes, log};
 
 use core::result::Result;
 use std::io::{Read, Write};
@@ -15,6 +15,10 @@ pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
     buffer: Vec<u8>,
+    /// Received bytes, which are not yet processed as records
+    rx_buffer: Vec<u8>,
+    /// Decrypted data, which is not yet read by the application
+    rx_data: Vec<u8>,
 }
 
 impl TlsStream {
@@ -23,6 +27,8 @@ impl TlsStream {
             stream,
             protection: None,
             buffer: Vec::with_capacity(2048),
+            rx_buffer: Vec::with_capacity(4096),
+            rx_data: vec![],
         }
     }
 
@@ -74,6 +80,29 @@ impl TlsStream {
         }
     }
 
+    /// Read the next complete record, regardless of how TCP has split or merged the records
+    pub fn read_record(&mut self) -> Result<Record<'static>, TlsError> {
+        let mut rx_buf: [u8; 4096] = [0; 4096];
+
+        loop {
+            if self.rx_buffer.len() >= 5 {
+                RecordType::new(self.rx_buffer[0])?;
+                let len = bytes::to_u16(&self.rx_buffer[3..5]) as usize;
+                if len > MAX_RECORD_LEN {
+                    return Err(TlsError::RecordOverflow);
+                }
+                if self.rx_buffer.len() >= 5 + len {
+                    let (consumed, record) = Record::from_raw(&self.rx_buffer)?;
+                    let record = record.into_owned();
+                    self.rx_buffer.drain(..consumed);
+                    return Ok(record);
+                }
+            }
+            let n = self.tcp_read(&mut rx_buf)?;
+            self.rx_buffer.extend_from_slice(&rx_buf[..n]);
+        }
+    }
+
     /// Write an TLS Alert message
     pub fn write_alert(&mut self, err: TlsError) -> Result<(), TlsError> {
         let data = vec![AlertLevel::get_from_error(err) as u8, err.as_u8()];
@@ -95,39 +124,33 @@ impl TlsStream {
 
     /// Read from the TLS stream.
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
-        let n = self.tcp_read(&mut rx_buf)?;
-
-        let (_consumed, mut record) = Record::from_raw(&rx_buf[..n])?;
+        if buf.is_empty() {
+            return Ok(0);
+        }
 
-        log::debug!("--> EncryptedData");
+        while self.rx_data.is_empty() {
+            let mut record = self.read_record()?;
 
-        if record.len != record.fraqment.len() {
-            // create internal buffer to store the decrypted TLS packages
-            todo!("Problem, when multiple TLS packages in one TCP package");
-        }
+            log::debug!("--> EncryptedData");
 
-        if let Some(protection) = self.protection.as_mut() {
-            let (typ, data) = protection.decrypt(record)?;
-            record = Record::new(typ, Value::Owned(data));
-            if record.content_type != RecordType::ApplicationData {
-                log::error!("Not yet implemented: Handle handshake messages");
+            if let Some(protection) = self.protection.as_mut() {
+                let (typ, data) = protection.decrypt(record)?;
+                record = Record::new(typ, Value::Owned(data));
+                if record.content_type != RecordType::ApplicationData {
+                    log::error!("Not yet implemented: Handle handshake messages");
+                    return Err(TlsError::UnexpectedMessage);
+                }
+            } else if record.content_type != RecordType::Handshake {
                 return Err(TlsError::UnexpectedMessage);
             }
-        } else if record.content_type != RecordType::Handshake {
-            return Err(TlsError::UnexpectedMessage);
-        }
-
-        if record.len > buf.len() {
-            todo!("Handle records bigger than the buf.len()");
-        }
 
-        for (i, b) in record.fraqment.as_ref().iter().enumerate() {
-            buf[i] = *b;
+            self.rx_data.extend_from_slice(record.fraqment.as_ref());
         }
 
-        Ok(record.fraqment.len())
+        let n = core::cmp::min(buf.len(), self.rx_data.len());
+        buf[..n].copy_from_slice(&self.rx_data[..n]);
+        self.rx_data.drain(..n);
+        Ok(n)
     }
 
     /// Write to the TLS stream.
-- 
2.43.0


From 263f425849d06e5f45cdf305e152a801169e9b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 20/51] fix: split data bigger than a record over several
 records

Bigger writes produced records over the limit of 2^14 bytes, and from 64 KiB on
with a truncated length.
---
 anothertls/src/net/record.rs |  3 +++
 anothertls/src/net/stream.rs | 36 ++++++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 82e9749..00f471d 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -13,6 +13,9 @@ use std::sync::Arc;
 /// 5.2. The length of a (protected) record MUST NOT exceed 2^14 + 256 bytes
 pub const MAX_RECORD_LEN: usize = (1 << 14) + 256;
 
+/// 5.1. The length of a plaintext fragment MUST NOT exceed 2^14 bytes
+pub const MAX_FRAGMENT_LEN: usize = 1 << 14;
+
 #[derive(PartialEq, Clone, Copy, Debug)]
 pub enum RecordType {
     Invalid = 0,
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 3cca2c1..8f2a2e4 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -4,7 +4,9 @@
  */
 
 use crate::net::alert::{AlertLevel, TlsError};
-use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value, MAX_RECORD_LEN};
+use crate::net::record::{
+    Record, RecordPayloadProtection, RecordType, Value, MAX_FRAGMENT_LEN, MAX_RECORD_LEN,
+};
 use crate::utils::{bytes, log};
 
 use core::result::Result;
@@ -36,12 +38,14 @@ impl TlsStream {
     /// This is useful in the handshake process, where multiple
     /// TLS records are send to the client.
     pub fn write_record(&mut self, typ: RecordType, data: &[u8]) -> Result<(), TlsError> {
-        let record = Record::new(typ, Value::Ref(data));
+        for fragment in data.chunks(MAX_FRAGMENT_LEN) {
+            let record = Record::new(typ, Value::Ref(fragment));
 
-        if let Some(protect) = self.protection.as_mut() {
-            self.buffer.append(&mut protect.encrypt(record)?);
-        } else {
-            self.buffer.append(&mut record.as_bytes());
+            if let Some(protect) = self.protection.as_mut() {
+                self.buffer.append(&mut protect.encrypt(record)?);
+            } else {
+                self.buffer.append(&mut record.as_bytes());
+            }
         }
 
         // TODO: Find a smart value
@@ -161,13 +165,21 @@ impl TlsStream {
             return Err(TlsError::InternalError);
         }
 
-        let record = Record::new(RecordType::ApplicationData, Value::Ref(src));
-        let record = self.protection.as_mut().unwrap().encrypt(record)?;
+        // An empty write sends an empty record
+        let fragments = core::cmp::max(1, (src.len() + MAX_FRAGMENT_LEN - 1) / MAX_FRAGMENT_LEN);
 
-        log::debug!("<-- EncryptedData");
-        if self.stream.write_all(&record).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
+        for i in 0..fragments {
+            let end = core::cmp::min(src.len(), (i + 1) * MAX_FRAGMENT_LEN);
+            let fragment = &src[i * MAX_FRAGMENT_LEN..end];
+
+            let record = Record::new(RecordType::ApplicationData, Value::Ref(fragment));
+            let record = self.protection.as_mut().unwrap().encrypt(record)?;
+
+            log::debug!("<-- EncryptedData");
+            if self.stream.write_all(&record).is_err() {
+                return Err(TlsError::BrokenPipe);
+            };
+        }
 
         Ok(())
     }
-- 
2.43.0


From 2956813f4b3aa060ce0edada26e7dd33e9d1e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 21/51] fix: handle handshake messages split over or sharing
 records

---
 anothertls/src/net/client/connection.rs | 41 +++++++++----
 anothertls/src/net/handshake/mod.rs     | 34 ++++++++++
 anothertls/src/net/server/connection.rs | 82 +++++++++++++++----------
 3 files changed, 113 insertions(+), 44 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index c0365db..54d9048 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -12,7 +12,8 @@ use crate::net::extensions::{
     SignatureAlgorithms, SignatureScheme, SupportedGroups, SupportedVersions,
 };
 use crate::net::handshake::{
-    get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
+    get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeBuffer,
+    HandshakeType,
 };
 use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::net::server::ServerHello;
@@ -54,6 +55,7 @@ pub struct ClientHandshake<'a> {
     stream: &'a mut TlsStream,
     config: &'a ClientConfig,
     state: ClientHsState,
+    handshake_buffer: HandshakeBuffer,
     certificate_request: Option<Vec<u8>>,
     keylog: Option<KeyLog>,
     rng: Box<dyn RngCore<IBig>>,
@@ -74,6 +76,7 @@ impl<'a> ClientHandshake<'a> {
             stream,
             config,
             state: ClientHsState::ServerHello,
+            handshake_buffer: HandshakeBuffer::default(),
             certificate_request: None,
             keylog: None,
             rng,
@@ -171,6 +174,11 @@ impl<'a> ClientHandshake<'a> {
     }
 
     fn handle_handshake_record(&mut self, record: Record) -> Result<(), TlsError> {
+        if record.content_type == RecordType::ChangeCipherSpec && !self.handshake_buffer.is_empty()
+        {
+            // No other record is allowed between the parts of a handshake message
+            return Err(TlsError::UnexpectedMessage);
+        }
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
@@ -193,7 +201,8 @@ impl<'a> ClientHandshake<'a> {
                     if record.content_type != RecordType::Handshake {
                         return Err(TlsError::UnexpectedMessage);
                     }
-                    self.handle_server_hello(record)?;
+                    self.handshake_buffer.push(record.fraqment.as_ref());
+                    self.handle_handshake_messages()?;
                 }
                 ClientHsState::EncryptedExtensions
                 | ClientHsState::ClientCertificateRequest
@@ -208,9 +217,7 @@ impl<'a> ClientHandshake<'a> {
         }
         Ok(())
     }
-    pub fn handle_server_hello(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_server_hello(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::ServerHello {
             return Err(TlsError::UnexpectedMessage);
         }
@@ -222,7 +229,7 @@ impl<'a> ClientHandshake<'a> {
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
 
         log::debug!("--> ServerHello");
-        tshash.update(record.fraqment.as_ref());
+        tshash.update(handshake.as_bytes());
 
         let key_share_entry = match server_hello.get_public_key_share() {
             Some(kse) => kse,
@@ -270,13 +277,25 @@ impl<'a> ClientHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        let mut consumed = 0;
+        self.handshake_buffer.push(record.fraqment.as_ref());
+        self.handle_handshake_messages()
+    }
 
-        while consumed < record.fraqment.len() {
-            let handshake = Handshake::from_raw(&record.fraqment.as_ref()[consumed..])?;
-            consumed += handshake.as_bytes().len();
+    fn handle_handshake_messages(&mut self) -> Result<(), TlsError> {
+        while let Some(message) = self.handshake_buffer.next_message()? {
+            let handshake = Handshake::from_raw(&message)?;
+
+            // Messages right before a key change must be the last ones of their record
+            if matches!(
+                handshake.handshake_type,
+                HandshakeType::ServerHello | HandshakeType::Finished
+            ) && !self.handshake_buffer.is_empty()
+            {
+                return Err(TlsError::UnexpectedMessage);
+            }
 
             match self.state {
+                ClientHsState::ServerHello => self.handle_server_hello(handshake)?,
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
                 ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
                     if handshake.handshake_type == HandshakeType::CertificateRequest {
@@ -294,7 +313,7 @@ impl<'a> ClientHandshake<'a> {
                 ClientHsState::Finished | ClientHsState::FinishWithError(_) => {
                     self.handle_server_finish(handshake)?
                 }
-                _ => (),
+                ClientHsState::Ready => return Err(TlsError::UnexpectedMessage),
             }
         }
         Ok(())
diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index cc40cdc..5212040 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -46,6 +46,40 @@ impl HandshakeType {
     }
 }
 
+/// Upper limit for the length of a single handshake message
+pub const MAX_HANDSHAKE_LEN: usize = 1 << 17;
+
+/// Collects handshake messages, which can be split over several records or
+/// share one record.
+#[derive(Default)]
+pub struct HandshakeBuffer(Vec<u8>);
+
+impl HandshakeBuffer {
+    pub fn push(&mut self, fraqment: &[u8]) {
+        self.0.extend_from_slice(fraqment);
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    /// Get the next complete handshake message including its header
+    pub fn next_message(&mut self) -> Result<Option<Vec<u8>>, TlsError> {
+        if self.0.len() < 4 {
+            return Ok(None);
+        }
+        if HandshakeType::new(self.0[0]).is_none() {
+            return Err(TlsError::UnexpectedMessage);
+        }
+        let len = ((self.0[1] as usize) << 16) | ((self.0[2] as usize) << 8) | self.0[3] as usize;
+        if len > MAX_HANDSHAKE_LEN {
+            return Err(TlsError::DecodeError);
+        }
+        if self.0.len() < len + 4 {
+            return Ok(None);
+        }
+        Ok(Some(self.0.drain(..len + 4).collect()))
+    }
+}
+
 pub struct Handshake<'a> {
     pub handshake_type: HandshakeType,
     pub fraqment: &'a [u8],
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index acd80b1..e21bcbc 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -12,7 +12,8 @@ use crate::net::{
     client::ClientHello,
     extensions::{ServerExtensions, SignatureScheme},
     handshake::{
-        get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
+        get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake,
+        HandshakeBuffer, HandshakeType,
     },
 };
 use crate::net::{KeySchedule, TlsStream};
@@ -66,6 +67,7 @@ struct ServerHandshake<'a> {
     stream: &'a mut TlsStream,
     config: &'a ServerConfig,
     state: ServerHsState,
+    handshake_buffer: HandshakeBuffer,
     keylog: Option<KeyLog>,
     client_cert: Option<Certificate>,
     certificate_request_context: Option<Vec<u8>>,
@@ -80,6 +82,7 @@ impl<'a> ServerHandshake<'a> {
             stream,
             config,
             state: ServerHsState::ClientHello,
+            handshake_buffer: HandshakeBuffer::default(),
             keylog: None,
             client_cert: None,
             certificate_request_context: None,
@@ -116,6 +119,11 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn handle_handshake_record(&mut self, record: Record) -> Result<(), TlsError> {
+        if record.content_type == RecordType::ChangeCipherSpec && !self.handshake_buffer.is_empty()
+        {
+            // No other record is allowed between the parts of a handshake message
+            return Err(TlsError::UnexpectedMessage);
+        }
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
@@ -138,7 +146,8 @@ impl<'a> ServerHandshake<'a> {
                     if record.content_type != RecordType::Handshake {
                         return Err(TlsError::UnexpectedMessage);
                     }
-                    self.handle_client_hello(record)?;
+                    self.handshake_buffer.push(record.fraqment.as_ref());
+                    self.handle_handshake_messages()?;
                 }
                 ServerHsState::ClientCertificate
                 | ServerHsState::ClientCertificateVerify
@@ -151,9 +160,34 @@ impl<'a> ServerHandshake<'a> {
         }
         Ok(())
     }
-    fn handle_client_hello(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
+    fn handle_handshake_messages(&mut self) -> Result<(), TlsError> {
+        while let Some(message) = self.handshake_buffer.next_message()? {
+            let handshake = Handshake::from_raw(&message)?;
+
+            // Messages right before a key change must be the last ones of their record
+            if matches!(
+                handshake.handshake_type,
+                HandshakeType::ClientHello | HandshakeType::Finished
+            ) && !self.handshake_buffer.is_empty()
+            {
+                return Err(TlsError::UnexpectedMessage);
+            }
 
+            match self.state {
+                ServerHsState::ClientHello => self.handle_client_hello(handshake)?,
+                ServerHsState::ClientCertificate => self.handle_client_certificate(handshake)?,
+                ServerHsState::ClientCertificateVerify => {
+                    self.handle_client_certificate_verify(handshake)?
+                }
+                ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
+                    self.handle_client_finish(handshake)?
+                }
+                ServerHsState::Ready => return Err(TlsError::UnexpectedMessage),
+            }
+        }
+        Ok(())
+    }
+    fn handle_client_hello(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::ClientHello {
             return Err(TlsError::UnexpectedMessage);
         }
@@ -166,7 +200,7 @@ impl<'a> ServerHandshake<'a> {
 
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
         // Add ClientHello
-        tshash.update(record.fraqment.as_ref());
+        tshash.update(handshake.as_bytes());
 
         // -- ServerHello --
         let handshake_raw =
@@ -303,22 +337,11 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        match self.state {
-            ServerHsState::ClientCertificate => self.handle_client_certificate(record)?,
-            ServerHsState::ClientCertificateVerify => {
-                self.handle_client_certificate_verify(record)?
-            }
-            ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
-                self.handle_client_finish(record)?
-            }
-            _ => (),
-        }
-        Ok(())
+        self.handshake_buffer.push(record.fraqment.as_ref());
+        self.handle_handshake_messages()
     }
 
-    pub fn handle_client_certificate(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_certificate(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::Certificate
             || self.config.client_cert_ca.is_none()
         {
@@ -327,10 +350,7 @@ impl<'a> ServerHandshake<'a> {
 
         self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());
 
-        self.tshash
-            .as_mut()
-            .unwrap()
-            .update(record.fraqment.as_ref());
+        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         log::debug!("--> ClientCertificate");
 
@@ -376,9 +396,10 @@ impl<'a> ServerHandshake<'a> {
         Ok(())
     }
 
-    pub fn handle_client_certificate_verify(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_certificate_verify(
+        &mut self,
+        handshake: Handshake,
+    ) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::CertificateVerify
             || self.client_cert.is_none()
         {
@@ -421,17 +442,12 @@ impl<'a> ServerHandshake<'a> {
             return Ok(());
         }
 
-        self.tshash
-            .as_mut()
-            .unwrap()
-            .update(record.fraqment.as_ref());
+        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         self.state = ServerHsState::ClientFinished;
         Ok(())
     }
-    pub fn handle_client_finish(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_finish(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::Finished {
             if let ServerHsState::FinishWithError(_) = self.state {
                 // When error in Certificate, then CertificateVerify will follow
-- 
2.43.0


From 53a60a0dc8f6ad4e53eae6b5fd155d5587597d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 22/51] fix: check the length of received alerts instead of
 slicing out of bounds

---
 anothertls/src/net/alert.rs             | 8 ++++++++
 anothertls/src/net/client/connection.rs | 7 +++----
 anothertls/src/net/server/connection.rs | 7 +++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index 728f7ec..f5d399a 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -88,6 +88,14 @@ impl TlsError {
         }
     }
 
+    /// Get the error for a received alert record (level and description)
+    pub fn from_alert(fraqment: &[u8]) -> TlsError {
+        match fraqment {
+            [_level, description] => TlsError::GotAlert(*description),
+            _ => TlsError::DecodeError,
+        }
+    }
+
     pub fn as_u8(&self) -> u8 {
         // TODO: Ho to solve this better? ChatGPT is currently the best solution?
         match self {
diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 54d9048..703acc0 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -188,13 +188,12 @@ impl<'a> ClientHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
-                let alert = TlsError::new(alert_code);
+                let alert = TlsError::from_alert(record.fraqment.as_ref());
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ClientHsState::Ready {
                     log::error!("Handshake aborted by client");
                 }
-                return Err(TlsError::GotAlert(alert_code));
+                return Err(alert);
             }
             _ => match self.state {
                 ClientHsState::ServerHello => {
@@ -272,7 +271,7 @@ impl<'a> ClientHandshake<'a> {
 
         if record.content_type != RecordType::Handshake {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                return Err(TlsError::from_alert(record.fraqment.as_ref()));
             }
             return Err(TlsError::UnexpectedMessage);
         }
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index e21bcbc..0d96109 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -133,13 +133,12 @@ impl<'a> ServerHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
-                let alert = TlsError::new(alert_code);
+                let alert = TlsError::from_alert(record.fraqment.as_ref());
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ServerHsState::Ready {
                     log::error!("Handshake aborted by client");
                 }
-                return Err(TlsError::GotAlert(alert_code));
+                return Err(alert);
             }
             _ => match self.state {
                 ServerHsState::ClientHello => {
@@ -332,7 +331,7 @@ impl<'a> ServerHandshake<'a> {
             || (self.config.client_cert_ca.is_some() && self.certificate_request_context.is_none())
         {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                return Err(TlsError::from_alert(record.fraqment.as_ref()));
             }
             return Err(TlsError::UnexpectedMessage);
         }
-- 
2.43.0


From 1efeedebadd4d27d0a58be485619865ac6be41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 23/51] fix: check the types and lengths of records as required
 by RFC 8446 section 5

---
 anothertls/src/net/client/connection.rs |  2 +-
 anothertls/src/net/record.rs            | 12 +++++++++++-
 anothertls/src/net/server/connection.rs |  2 +-
 anothertls/src/net/stream.rs            |  7 +++++--
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 703acc0..1730532 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -182,7 +182,7 @@ impl<'a> ClientHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
-                if self.state == ClientHsState::ServerHello {
+                if self.state == ClientHsState::ServerHello || record.fraqment.as_ref() != [0x01] {
                     return Err(TlsError::UnexpectedMessage);
                 }
                 return Ok(());
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 00f471d..6c15bdb 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -33,7 +33,7 @@ impl RecordType {
             21 => RecordType::Alert,
             22 => RecordType::Handshake,
             23 => RecordType::ApplicationData,
-            _ => return Err(TlsError::DecodeError),
+            _ => return Err(TlsError::UnexpectedMessage),
         })
     }
 }
@@ -220,6 +220,11 @@ impl RecordPayloadProtection {
             &mut self.handshake_keys
         };
 
+        // Every protected record has the outer type application_data
+        if record.content_type != RecordType::ApplicationData {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
         // The smallest possible record has only the inner content type and the tag
         if record.fraqment.len() < 1 + 16 {
             return Err(TlsError::DecodeError);
@@ -242,6 +247,11 @@ impl RecordPayloadProtection {
             Err(_) => return Err(TlsError::BadRecordMac),
         };
 
+        // 5.4. The full encoded TLSInnerPlaintext MUST NOT exceed 2^14 + 1 octets
+        if plaintext.len() > MAX_FRAGMENT_LEN + 1 {
+            return Err(TlsError::RecordOverflow);
+        }
+
         // 5.4. Record Padding
         // The receiving implementation scans the field from the end toward the beginning until it
         // finds a non-zero octet. This non-zero octet is the content type of the message
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 0d96109..120a04d 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -127,7 +127,7 @@ impl<'a> ServerHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
-                if self.state == ServerHsState::ClientHello {
+                if self.state == ServerHsState::ClientHello || record.fraqment.as_ref() != [0x01] {
                     return Err(TlsError::UnexpectedMessage);
                 }
                 return Ok(());
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 8f2a2e4..b23e8e3 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -90,9 +90,12 @@ impl TlsStream {
 
         loop {
             if self.rx_buffer.len() >= 5 {
-                RecordType::new(self.rx_buffer[0])?;
+                let max_len = match RecordType::new(self.rx_buffer[0])? {
+                    RecordType::ApplicationData => MAX_RECORD_LEN,
+                    _ => MAX_FRAGMENT_LEN,
+                };
                 let len = bytes::to_u16(&self.rx_buffer[3..5]) as usize;
-                if len > MAX_RECORD_LEN {
+                if len > max_len {
                     return Err(TlsError::RecordOverflow);
                 }
                 if self.rx_buffer.len() >= 5 + len {
-- 
2.43.0


From 81ad550f931148be9bce88723403e64604095639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 24/51] fix: handle alerts and session tickets after the
 handshake and stop after an error

---
 anothertls/src/net/stream.rs | 94 ++++++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 15 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index b23e8e3..9f2fbae 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -4,6 +4,7 @@
  */
 
 use crate::net::alert::{AlertLevel, TlsError};
+use crate::net::handshake::{Handshake, HandshakeBuffer, HandshakeType};
 use crate::net::record::{
     Record, RecordPayloadProtection, RecordType, Value, MAX_FRAGMENT_LEN, MAX_RECORD_LEN,
 };
@@ -21,6 +22,12 @@ pub struct TlsStream {
     rx_buffer: Vec<u8>,
     /// Decrypted data, which is not yet read by the application
     rx_data: Vec<u8>,
+    /// Received handshake messages after the handshake, which are not yet complete
+    rx_handshake: HandshakeBuffer,
+    /// The reason why no more data can be read
+    read_error: Option<TlsError>,
+    /// Set after a fatal error, no more data can be written
+    write_closed: bool,
 }
 
 impl TlsStream {
@@ -31,6 +38,9 @@ impl TlsStream {
             buffer: Vec::with_capacity(2048),
             rx_buffer: Vec::with_capacity(4096),
             rx_data: vec![],
+            rx_handshake: HandshakeBuffer::default(),
+            read_error: None,
+            write_closed: false,
         }
     }
 
@@ -136,22 +146,12 @@ impl TlsStream {
         }
 
         while self.rx_data.is_empty() {
-            let mut record = self.read_record()?;
-
-            log::debug!("--> EncryptedData");
-
-            if let Some(protection) = self.protection.as_mut() {
-                let (typ, data) = protection.decrypt(record)?;
-                record = Record::new(typ, Value::Owned(data));
-                if record.content_type != RecordType::ApplicationData {
-                    log::error!("Not yet implemented: Handle handshake messages");
-                    return Err(TlsError::UnexpectedMessage);
-                }
-            } else if record.content_type != RecordType::Handshake {
-                return Err(TlsError::UnexpectedMessage);
+            if let Some(err) = self.read_error {
+                return Err(err);
+            }
+            if let Err(err) = self.read_application_data() {
+                return Err(self.handle_read_error(err));
             }
-
-            self.rx_data.extend_from_slice(record.fraqment.as_ref());
         }
 
         let n = core::cmp::min(buf.len(), self.rx_data.len());
@@ -160,6 +160,66 @@ impl TlsStream {
         Ok(n)
     }
 
+    fn read_application_data(&mut self) -> Result<(), TlsError> {
+        let mut record = self.read_record()?;
+
+        log::debug!("--> EncryptedData");
+
+        if let Some(protection) = self.protection.as_mut() {
+            let is_client = protection.is_client;
+            let (typ, data) = protection.decrypt(record)?;
+            record = Record::new(typ, Value::Owned(data));
+
+            if record.content_type != RecordType::Handshake && !self.rx_handshake.is_empty() {
+                // No other record is allowed between the parts of a handshake message
+                return Err(TlsError::UnexpectedMessage);
+            }
+
+            match record.content_type {
+                RecordType::ApplicationData => {}
+                RecordType::Alert => return Err(TlsError::from_alert(record.fraqment.as_ref())),
+                RecordType::Handshake => {
+                    self.rx_handshake.push(record.fraqment.as_ref());
+                    while let Some(message) = self.rx_handshake.next_message()? {
+                        match Handshake::from_raw(&message)?.handshake_type {
+                            // Session resumption is not supported, so the ticket is not needed
+                            HandshakeType::NewSessionTicket if is_client => {}
+                            typ => {
+                                log::error!("Not yet implemented: Handle {typ:?}");
+                                return Err(TlsError::UnexpectedMessage);
+                            }
+                        }
+                    }
+                    return Ok(());
+                }
+                _ => return Err(TlsError::UnexpectedMessage),
+            }
+        } else if record.content_type != RecordType::Handshake {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
+        self.rx_data.extend_from_slice(record.fraqment.as_ref());
+        Ok(())
+    }
+
+    /// After an error no more data is read. The peer is informed about the
+    /// error, except if it is an alert sent by the peer.
+    fn handle_read_error(&mut self, err: TlsError) -> TlsError {
+        let err = match err {
+            TlsError::BrokenPipe => return err,
+            TlsError::GotAlert(code) => TlsError::new(code),
+            err => {
+                log::error!("<-- Alert ({err:?})");
+                let _ = self.write_alert(err);
+                err
+            }
+        };
+        // 6.1. close_notify closes only one direction of the connection
+        self.write_closed |= err != TlsError::CloseNotify;
+        self.read_error = Some(err);
+        err
+    }
+
     /// Write to the TLS stream.
     pub fn tls_write<'b>(&'b mut self, src: &'b [u8]) -> Result<(), TlsError> {
         if self.protection.is_none() {
@@ -168,6 +228,10 @@ impl TlsStream {
             return Err(TlsError::InternalError);
         }
 
+        if self.write_closed {
+            return Err(self.read_error.unwrap_or(TlsError::InternalError));
+        }
+
         // An empty write sends an empty record
         let fragments = core::cmp::max(1, (src.len() + MAX_FRAGMENT_LEN - 1) / MAX_FRAGMENT_LEN);
 
-- 
2.43.0


From 6ff66f0b84b496e723669b7d6443a7a8445f9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 25/51] fix: return the reason of an aborted handshake even if
 the alert can not be sent

---
 anothertls/src/net/client/connection.rs | 3 ++-
 anothertls/src/net/server/connection.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 1730532..412f8f4 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -91,7 +91,8 @@ impl<'a> ClientHandshake<'a> {
     pub fn do_handshake_with_error(&mut self) -> Result<(), TlsError> {
         if let Err(mut err) = self.do_handshake() {
             if err < TlsError::NotOfficial {
-                self.stream.write_alert(err)?;
+                // The reason of the abort is more important than a failing write
+                let _ = self.stream.write_alert(err);
             }
             if let TlsError::GotAlert(err_code) = err {
                 err = TlsError::new(err_code);
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 120a04d..9d2ec28 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -98,7 +98,8 @@ impl<'a> ServerHandshake<'a> {
         if let Err(mut err) = self.do_handshake() {
             if err < TlsError::NotOfficial {
                 log::error!("<-- Alert ({err:?})");
-                self.stream.write_alert(err)?;
+                // The reason of the abort is more important than a failing write
+                let _ = self.stream.write_alert(err);
             }
             if let TlsError::GotAlert(err_code) = err {
                 err = TlsError::new(err_code);
-- 
2.43.0


From 11d50703286d62f9b3688e6cf8c9425456d3771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 26/51] fix: send the whole ClientHello even if a write is only
 partial

---
 anothertls/src/net/client/connection.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 412f8f4..9a98d66 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -15,7 +15,7 @@ use crate::net::handshake::{
     get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeBuffer,
     HandshakeType,
 };
-use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
+use crate::net::record::{Record, RecordPayloadProtection, RecordType};
 use crate::net::server::ServerHello;
 use crate::net::{KeySchedule, TlsStream};
 use crate::rand::{RngCore, URandomRng};
@@ -165,13 +165,11 @@ impl<'a> ClientHandshake<'a> {
         self.client_hello_random = Some(random);
         self.client_hello_bytes = Some(handshake_raw);
 
-        let record = Record::new(
+        self.stream.write_record(
             RecordType::Handshake,
-            Value::Ref(self.client_hello_bytes.as_ref().unwrap()),
-        );
-
-        self.stream.tcp_write(&record.as_bytes())?;
-        Ok(())
+            self.client_hello_bytes.as_ref().unwrap(),
+        )?;
+        self.stream.flush()
     }
 
     fn handle_handshake_record(&mut self, record: Record) -> Result<(), TlsError> {
-- 
2.43.0


From 4972365389561214b9b7f536d4e12d21137fd78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 27/51] fix: the server uses the application keys for
 everything it sends after its Finished

---
 anothertls/src/net/record.rs            | 10 +++++----
 anothertls/src/net/server/connection.rs | 27 ++++++++++---------------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 6c15bdb..7e3c6d1 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -135,6 +135,8 @@ pub struct RecordPayloadProtection {
     pub handshake_keys: WriteKeys,
     pub is_client: bool,
     pub application_keys: Option<WriteKeys>,
+    /// The peer still uses the handshake keys, although the own application keys are already used
+    pub read_with_handshake_keys: bool,
 }
 
 impl RecordPayloadProtection {
@@ -151,6 +153,7 @@ impl RecordPayloadProtection {
             // application_keys: WriteKeys::handshake_keys(&key_schedule)?,
             key_schedule,
             is_client,
+            read_with_handshake_keys: false,
         })
     }
 
@@ -214,10 +217,9 @@ impl RecordPayloadProtection {
 
     /// Returns Vec instead of a Record because of the borrow checker <3
     pub fn decrypt(&mut self, record: Record) -> Result<(RecordType, Vec<u8>), TlsError> {
-        let keys = if self.application_keys.is_some() {
-            self.application_keys.as_mut().unwrap()
-        } else {
-            &mut self.handshake_keys
+        let keys = match self.application_keys.as_mut() {
+            Some(keys) if !self.read_with_handshake_keys => keys,
+            _ => &mut self.handshake_keys,
         };
 
         // Every protected record has the outer type application_data
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 9d2ec28..58a9f7c 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -73,7 +73,6 @@ struct ServerHandshake<'a> {
     certificate_request_context: Option<Vec<u8>>,
     rng: Box<dyn RngCore<IBig>>,
     tshash: Option<Box<dyn TranscriptHash>>,
-    tshash_clienthello_serverfinished: Option<Box<dyn TranscriptHash>>,
 }
 
 impl<'a> ServerHandshake<'a> {
@@ -91,7 +90,6 @@ impl<'a> ServerHandshake<'a> {
                 PRNG::URandom => Box::new(URandomRng::new()),
             },
             tshash: None,
-            tshash_clienthello_serverfinished: None,
         }
     }
     pub fn do_handshake_with_error(&mut self) -> Result<(), TlsError> {
@@ -313,6 +311,16 @@ impl<'a> ServerHandshake<'a> {
             .write_record(RecordType::Handshake, &handshake_raw)?;
         log::debug!("<-- ServerFinished");
 
+        // Everything after the Finished is sent with the application keys
+        // Derive-Secret: ClientHello..server Finished
+        let protection = self.stream.protection.as_mut().unwrap();
+        protection.generate_application_keys(tshash.as_ref())?;
+        protection.read_with_handshake_keys = true;
+
+        if let Some(k) = &self.keylog {
+            k.append_from_record_payload_protection(protection);
+        }
+
         self.state = if self.config.client_cert_ca.is_some() {
             ServerHsState::ClientCertificate
         } else {
@@ -348,8 +356,6 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());
-
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         log::debug!("--> ClientCertificate");
@@ -470,18 +476,7 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::DecryptError);
         }
 
-        // Derive-Secret: ClientHello..server Finished
-        let tshash = if self.tshash_clienthello_serverfinished.is_some() {
-            self.tshash_clienthello_serverfinished.as_mut().unwrap()
-        } else {
-            self.tshash.as_mut().unwrap()
-        };
-
-        protection.generate_application_keys(tshash.as_ref())?;
-
-        if let Some(k) = &self.keylog {
-            k.append_from_record_payload_protection(protection);
-        }
+        protection.read_with_handshake_keys = false;
 
         if let ServerHsState::FinishWithError(err) = self.state {
             log::error!("Abort connection: {err:?}");
-- 
2.43.0


From b841a4e19f130d20fcfac1c1a008b7b108fe1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 28/51] fix: check lengths and tags when parsing DER and ECDSA
 signatures

---
 .../src/crypto/ellipticcurve/signature.rs     | 12 +++++-
 anothertls/src/utils/der.rs                   | 37 ++++++++++++-------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index df73606..57e87f4 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -41,6 +41,9 @@ impl Signature {
                     return Err(TlsError::BadCertificate);
                 }
             } else {
+                if der_type != EncodedForm::Primitive(DerType::Integer) {
+                    return Err(TlsError::BadCertificate);
+                }
                 let int = bytes::to_ibig_be(&buf[consumed..consumed + size]);
                 consumed += size;
                 if r.is_none() {
@@ -55,7 +58,14 @@ impl Signature {
             return Err(TlsError::BadCertificate);
         }
 
-        Ok((Signature::new(s.unwrap(), r.unwrap()), consumed))
+        let signature = Signature::new(s.unwrap(), r.unwrap());
+
+        // Only the DER encoding is valid
+        if signature.to_der() != buf[..consumed] {
+            return Err(TlsError::BadCertificate);
+        }
+
+        Ok((signature, consumed))
     }
 
     pub fn to_der(&self) -> Vec<u8> {
diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index a1083f3..ada71aa 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -39,6 +39,8 @@ impl DerType {
         let der_type = if (tag >> 6 & 0x3) == 0x2 {
             // Context-specific
             DerType::ContextSpecific(tag & 0xf)
+        } else if tag >> 6 != 0 {
+            return None; // Application and private
         } else {
             match content {
                 0x02 => DerType::Integer,
@@ -73,29 +75,36 @@ impl DerType {
     }
 }
 
+/// Parse the tag and the length of the element at `consumed`, after which
+/// `data[*consumed..*consumed + size]` is the content of the element.
 pub fn der_parse(consumed: &mut usize, data: &[u8]) -> Result<(usize, EncodedForm), ParseError> {
-    let der_type = match DerType::from_u8(data[*consumed]) {
+    let tag = *data.get(*consumed).ok_or(ParseError::DerParseLen)?;
+    let der_type = match DerType::from_u8(tag) {
         Some(a) => a,
         None => return Err(ParseError::DerParseType),
     };
     *consumed += 1;
-    let size = get_len(data, consumed);
-    if size > data.len() {
+    let size = get_len(data, consumed)?;
+    if size > data.len() - *consumed {
         return Err(ParseError::DerParseLen);
     }
     Ok((size, der_type))
 }
 
-fn get_len(len: &[u8], consumed: &mut usize) -> usize {
-    let size;
-    if len[*consumed] >> 7 & 1 == 1 {
-        let consume_len = len[*consumed] & 0x7F;
-        *consumed += 1;
-        size = bytes::to_u128_be_fill(&len[*consumed..*consumed + consume_len as usize]) as usize;
-        *consumed += consume_len as usize;
-    } else {
-        size = len[*consumed] as usize;
-        *consumed += 1;
+fn get_len(data: &[u8], consumed: &mut usize) -> Result<usize, ParseError> {
+    let first = *data.get(*consumed).ok_or(ParseError::DerParseLen)?;
+    *consumed += 1;
+    if first >> 7 & 1 == 0 {
+        return Ok(first as usize);
+    }
+    let consume_len = (first & 0x7F) as usize;
+    if consume_len == 0 || consume_len > 4 {
+        // Either the indefinite form, which is not allowed in DER, or way too big
+        return Err(ParseError::DerParseLen);
     }
-    size
+    let size = data
+        .get(*consumed..*consumed + consume_len)
+        .ok_or(ParseError::DerParseLen)?;
+    *consumed += consume_len;
+    Ok(bytes::to_u128_be_fill(size) as usize)
 }
-- 
2.43.0


From 1cccf1dafbe85401fbf54edc4d060b7bbd7b10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 29/51] fix: exact certificate validity for every date and
 clock

---
 anothertls/src/utils/x509.rs | 78 ++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 31 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index fca8476..1160377 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -45,8 +45,10 @@ pub struct UtcTime {
 }
 
 impl UtcTime {
+    /// Parse YYMMDDHHMMSSZ, see RFC 5280 4.1.2.5.1
     fn from_utc_timestamp(t: &str) -> Option<UtcTime> {
-        if t.len() < 12 {
+        let digits = t.strip_suffix('Z')?;
+        if digits.len() != 12 || !digits.bytes().all(|c| c.is_ascii_digit()) {
             return None;
         }
         let (mut year, month, day, hour, minute, second) = (
@@ -62,6 +64,17 @@ impl UtcTime {
         } else {
             year += 1900;
         }
+        let is_leap_year = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
+        let days_in_month = match month {
+            2 if is_leap_year => 29,
+            2 => 28,
+            4 | 6 | 9 | 11 => 30,
+            1..=12 => 31,
+            _ => return None,
+        };
+        if day == 0 || day > days_in_month || hour > 23 || minute > 59 || second > 59 {
+            return None;
+        }
         Some(UtcTime {
             year,
             month,
@@ -71,21 +84,22 @@ impl UtcTime {
             second,
         })
     }
-    pub fn get_unix_timestamp(&self) -> u64 {
-        let days_since_year_start = [0_u64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
-        let year = self.year as u64;
-
-        let leap_years =
-            ((year - 1) - 1968) / 4 - ((year - 1) - 1900) / 100 + ((year - 1) - 1600) / 400;
-        let mut days = (year - 1970) * 365 + leap_years;
-        days += days_since_year_start[(self.month - 1) as usize];
-        days += (self.day - 1) as u64;
-
-        let mut res = 0;
-        res += days * 86400;
-        res += ((self.hour) as u64) * 3600;
-        res += ((self.minute) as u64) * 60;
-        res += (self.second) as u64;
+    /// Seconds since 1970, negative for the years before
+    pub fn get_unix_timestamp(&self) -> i64 {
+        // The year starts with March, so the leap day is the last day of the year
+        let (year, month) = match self.month {
+            1 | 2 => (self.year as i64 - 1, self.month as i64 + 9),
+            _ => (self.year as i64, self.month as i64 - 3),
+        };
+        let leap_years = year.div_euclid(4) - year.div_euclid(100) + year.div_euclid(400);
+        let days_since_year_start = (153 * month + 2).div_euclid(5);
+        // 719468 = days from 0000-03-01 until 1970-01-01
+        let days = year * 365 + leap_years + days_since_year_start + (self.day as i64 - 1) - 719468;
+
+        let mut res = days * 86400;
+        res += (self.hour as i64) * 3600;
+        res += (self.minute as i64) * 60;
+        res += self.second as i64;
         res
     }
 }
@@ -112,24 +126,26 @@ impl Validity {
         }
     }
     pub fn is_valid(&self) -> bool {
-        let current_time = SystemTime::now();
-        let since_the_epoch = current_time
-            .duration_since(UNIX_EPOCH)
-            .expect("Time went backwards");
-        let current = since_the_epoch.as_secs();
-
-        if let Some(not_before) = self.not_before.as_ref() {
-            if current < not_before.get_unix_timestamp() {
-                return false;
+        let (not_before, not_after) = match (self.not_before.as_ref(), self.not_after.as_ref()) {
+            (Some(not_before), Some(not_after)) => (not_before, not_after),
+            _ => return false,
+        };
+        let current = match SystemTime::now().duration_since(UNIX_EPOCH) {
+            Ok(since_the_epoch) => since_the_epoch.as_secs() as i64,
+            Err(before_the_epoch) => {
+                let before_the_epoch = before_the_epoch.duration();
+                -(before_the_epoch.as_secs() as i64) - (before_the_epoch.subsec_nanos() > 0) as i64
             }
-            log::debug!("   start date: {not_before}");
+        };
+
+        log::debug!("   start date: {not_before}");
+        if current < not_before.get_unix_timestamp() {
+            return false;
         }
 
-        if let Some(not_after) = self.not_after.as_ref() {
-            if current > not_after.get_unix_timestamp() {
-                return false;
-            }
-            log::debug!("   end date: {not_after}");
+        log::debug!("   end date: {not_after}");
+        if current > not_after.get_unix_timestamp() {
+            return false;
         }
 
         true
-- 
2.43.0


From 629db118bca8a3d2cb29d676e0e4182d904272f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 30/51] fix: parse X.509 certificates by their structure
 instead of the order of their elements

---
 anothertls/src/net/handshake/certificate.rs |  15 +-
 anothertls/src/utils/x509.rs                | 407 ++++++++++----------
 2 files changed, 209 insertions(+), 213 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 0b2c8e3..715e971 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -175,12 +175,10 @@ impl Certificate {
             return Err(TlsError::InternalError);
         }
 
-        let ca_public_key = self
-            .x509
-            .as_ref()
-            .unwrap()
-            .get_public_key()
-            .expect("CA for client certificate has no public key");
+        let ca_public_key = match self.x509.as_ref().unwrap().get_public_key() {
+            Some(e) => e,
+            None => return Err(TlsError::UnsupportedCertificate),
+        };
 
         let other_x509 = other.x509.as_ref().unwrap();
         let signature = match &other_x509.signature {
@@ -188,7 +186,10 @@ impl Certificate {
             None => return Err(TlsError::DecryptError),
         };
 
-        let context = &other.raw[4..4 + other_x509.tbs_certificate_size];
+        let context = match &other_x509.tbs_certificate.raw_data {
+            Some(e) => e,
+            None => return Err(TlsError::InternalError),
+        };
 
         let hash = sha256(context);
 
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 1160377..4074379 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -210,37 +210,36 @@ impl SubjectPublicKeyInfoBuilder {
         }
     }
     fn build(self) -> Result<SubjectPublicKeyInfo, ParseError> {
-        if self.algorithm.is_none() {
-            return Err(ParseError::SubjectPublicKeyInfo);
-        }
         Ok(SubjectPublicKeyInfo {
-            algorithm: self.algorithm.unwrap(),
-            subject_public_key: self.subject_public_key.unwrap(),
+            algorithm: self.algorithm.ok_or(ParseError::SubjectPublicKeyInfo)?,
+            subject_public_key: self
+                .subject_public_key
+                .ok_or(ParseError::SubjectPublicKeyInfo)?,
         })
     }
 }
-fn parse_object_identifier(id: &[u8]) -> Result<String, ParseError> {
-    let id = bytes::to_u128_be_fill(id);
-    Ok(match id {
-        0x550406 => "countryName".to_string(),
-        0x550408 => "stateOrProvinceName".to_string(),
-        0x55040a => "organizationName".to_string(),
-        0x550403 => "commonName".to_string(),
-        0x2a8648ce3d040302 => "ecdsaWithSHA256".to_string(),
-        0x2a8648ce3d040303 => "ecdsaWithSHA384".to_string(),
-        0x2a8648ce3d030107 => "prime256v1".to_string(),
-        0x2a8648ce3d0201 => "ecPublicKey".to_string(),
-        0x2a864886f70d010901 => "emailAddress".to_string(),
-        0x2a864886f70d01010b => "sha256WithRSAEncryption".to_string(),
-        0x2a864886f70d010101 => "sha256WithRSAEncryption".to_string(),
-        0x550407 => "localityName".to_string(),
-        0x55040B => "organizationalUnitName".to_string(),
+fn parse_object_identifier(id: &[u8]) -> String {
+    match id {
+        [0x55, 0x04, 0x06] => "countryName",
+        [0x55, 0x04, 0x08] => "stateOrProvinceName",
+        [0x55, 0x04, 0x0a] => "organizationName",
+        [0x55, 0x04, 0x03] => "commonName",
+        [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02] => "ecdsaWithSHA256",
+        [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x03] => "ecdsaWithSHA384",
+        [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07] => "prime256v1",
+        [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01] => "ecPublicKey",
+        [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x09, 0x01] => "emailAddress",
+        [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b] => "sha256WithRSAEncryption",
+        [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01] => "sha256WithRSAEncryption",
+        [0x55, 0x04, 0x07] => "localityName",
+        [0x55, 0x04, 0x0b] => "organizationalUnitName",
         _ => {
-            log::error!("Missing ObjectIdentifier: = {id:#x} (x509.rs)");
-            "UNKOWN".to_string()
-            // return Err(ParseError::MissingObjectIdentifier);
+            let id = bytes::to_hex(id);
+            log::error!("Missing ObjectIdentifier: = {id} (x509.rs)");
+            "UNKOWN"
         }
-    })
+    }
+    .to_string()
 }
 
 pub struct BitString(Vec<u8>);
@@ -267,7 +266,7 @@ impl Name {
         Err(ParseError::NameGet)
     }
     pub fn add_object_identifier(&mut self, id: &[u8]) -> Result<(), ParseError> {
-        self.1 = Some(parse_object_identifier(id)?);
+        self.1 = Some(parse_object_identifier(id));
         Ok(())
     }
     pub fn add_value(&mut self, value: String) -> Result<(), ParseError> {
@@ -370,10 +369,26 @@ pub struct X509 {
 }
 impl X509 {
     pub fn from_raw(data: &[u8]) -> Result<X509, ParseError> {
-        let mut res = X509Builder::new();
-        let mut consumed = 0;
         log::debug!("Start parsing X509 certificate");
-        parse(&mut res, ParsingState::Init, data, &mut consumed)?;
+        let mut res = X509Builder::new();
+        let mut input = DerReader::new(data);
+        let mut certificate = input.sequence()?;
+        input.finish()?;
+
+        let tbs_certificate = certificate.remaining();
+        parse_tbs_certificate(&mut res.tbs_certificate, certificate.sequence()?)?;
+        res.tbs_certificate_size = tbs_certificate.len() - certificate.remaining().len();
+        res.tbs_certificate.raw_data = Some(tbs_certificate[..res.tbs_certificate_size].to_vec());
+
+        res.signature_algorithm = Some(parse_algorithm(certificate.sequence()?)?.algorithm);
+
+        // Only ECDSA signatures can be used
+        let raw_signature = certificate.bit_string()?;
+        res.signature = match Signature::from_der(raw_signature) {
+            Ok((signature, size)) if size == raw_signature.len() => Some(signature),
+            _ => None,
+        };
+        certificate.finish()?;
         res.build()
     }
     pub fn get_public_key(&self) -> Option<PublicKey> {
@@ -405,8 +420,9 @@ impl X509 {
             .subject_public_key
             .as_slice();
 
-        if pubkey[0] != 0x4 {
-            todo!("Handle compressed points");
+        if pubkey.len() != 65 || pubkey[0] != 0x4 {
+            log::error!("Only uncompressed points are supported");
+            return None;
         }
 
         let x = bytes::to_ibig_be(&pubkey[1..33]);
@@ -419,7 +435,7 @@ pub struct X509Builder {
     tbs_certificate: TBSCertificateBuilder,
     tbs_certificate_size: usize,
     signature_algorithm: Option<Algorithms>,
-    signature: (Option<IBig>, Option<IBig>),
+    signature: Option<Signature>,
 }
 impl X509Builder {
     fn new() -> X509Builder {
@@ -427,35 +443,19 @@ impl X509Builder {
             tbs_certificate: TBSCertificateBuilder::new(),
             tbs_certificate_size: 0,
             signature_algorithm: None,
-            signature: (None, None),
+            signature: None,
         }
     }
     fn build(self) -> Result<X509, ParseError> {
-        let mut signature = None;
-
-        if self.signature.0.is_some() && self.signature.1.is_some() {
-            signature = Some(Signature::new(
-                self.signature.1.unwrap(),
-                self.signature.0.unwrap(),
-            ));
-        }
-
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
             tbs_certificate_size: self.tbs_certificate_size,
-            signature_algorithm: self.signature_algorithm.unwrap(),
-            signature,
+            signature_algorithm: self.signature_algorithm.ok_or(ParseError::Algorithms)?,
+            signature: self.signature,
         })
     }
 }
 
-#[derive(PartialEq, Debug, Clone)]
-enum ParsingState {
-    Init,
-    InBitString,
-    InSet,
-}
-
 #[derive(Debug, Clone)]
 pub enum Version {
     V1 = 0,
@@ -475,172 +475,167 @@ impl Version {
         Err(ParseError::Version)
     }
 }
-fn parse(
-    res: &mut X509Builder,
-    state: ParsingState,
-    data: &[u8],
-    consumed: &mut usize,
-) -> Result<(), ParseError> {
-    let (size, der) = der_parse(consumed, data)?;
-    let body = &data[*consumed..*consumed + size];
-
-    match der {
-        EncodedForm::Constructed(cons) => match cons {
-            DerType::Sequence => {
-                if res.tbs_certificate_size == 0 {
-                    res.tbs_certificate_size = 1; // Size of tbs_certificate + signature_algorithm + signature
-                } else if res.tbs_certificate_size == 1 {
-                    res.tbs_certificate_size = size + 4;
-                }
-                let size_should = size + *consumed;
-                while size_should > *consumed {
-                    parse(res, state.clone(), data, consumed)?;
-                }
-            }
-            DerType::ContextSpecific(tag) => {
-                match tag {
-                    0x00 => {
-                        res.tbs_certificate.version = Some(Version::parse(&body[2..])?);
-                    }
-                    0x03 => log::fixme!("TODO: certificate extenstions"),
-                    _ => (),
-                }
-                *consumed += size;
-            }
-            DerType::Set => {
-                parse(res, ParsingState::InSet, data, consumed)?;
-                // *consumed += size;
+
+/// Reads the elements inside of one constructed element one after the other
+struct DerReader<'a> {
+    data: &'a [u8],
+    consumed: usize,
+}
+
+impl<'a> DerReader<'a> {
+    fn new(data: &'a [u8]) -> DerReader<'a> {
+        DerReader { data, consumed: 0 }
+    }
+    fn remaining(&self) -> &'a [u8] {
+        &self.data[self.consumed..]
+    }
+    fn is_empty(&self) -> bool {
+        self.remaining().is_empty()
+    }
+    fn finish(&self) -> Result<(), ParseError> {
+        if !self.is_empty() {
+            return Err(ParseError::DerParseLen);
+        }
+        Ok(())
+    }
+    fn next(&mut self) -> Result<(EncodedForm, &'a [u8]), ParseError> {
+        let (size, der_type) = der_parse(&mut self.consumed, self.data)?;
+        let body = &self.data[self.consumed..self.consumed + size];
+        self.consumed += size;
+        Ok((der_type, body))
+    }
+    fn expect(&mut self, expected: EncodedForm) -> Result<&'a [u8], ParseError> {
+        match self.next()? {
+            (der_type, body) if der_type == expected => Ok(body),
+            (der_type, _) => {
+                log::error!("expected {expected:?}, but got {der_type:?}");
+                Err(ParseError::DerParseType)
             }
+        }
+    }
+    fn sequence(&mut self) -> Result<DerReader<'a>, ParseError> {
+        Ok(Self::new(
+            self.expect(EncodedForm::Constructed(DerType::Sequence))?,
+        ))
+    }
+    fn integer(&mut self) -> Result<&'a [u8], ParseError> {
+        self.expect(EncodedForm::Primitive(DerType::Integer))
+    }
+    fn object_identifier(&mut self) -> Result<&'a [u8], ParseError> {
+        self.expect(EncodedForm::Primitive(DerType::ObjectIdentifier))
+    }
+    fn bit_string(&mut self) -> Result<&'a [u8], ParseError> {
+        match self.expect(EncodedForm::Primitive(DerType::BitString))? {
+            [0, bits @ ..] => Ok(bits),
             _ => {
-                todo!("cons={cons:?}");
+                log::error!("Number of unused bits is not 0");
+                Err(ParseError::NotYetImplemented)
             }
-        },
-        EncodedForm::Primitive(prim) => match prim {
-            DerType::Integer => {
-                let int = bytes::to_ibig_be(body);
-                *consumed += size;
-                if res.tbs_certificate.serial_number.is_none() {
-                    res.tbs_certificate.serial_number = Some(int);
-                } else if res.signature.0.is_none() {
-                    res.signature.0 = Some(int);
-                } else {
-                    res.signature.1 = Some(int);
-                }
-            }
-            DerType::ObjectIdentifier => match state {
-                ParsingState::InSet => {
-                    if res.tbs_certificate.validity.not_after.is_none() {
-                        res.tbs_certificate.issuer.add_object_identifier(body)?;
-                    } else {
-                        res.tbs_certificate.subject.add_object_identifier(body)?;
-                    }
-                    *consumed += size;
-                }
-                ParsingState::Init => {
-                    let oji = parse_object_identifier(body)?;
-                    if res.tbs_certificate.signature.is_none() {
-                        res.tbs_certificate.signature =
-                            Some(AlgorithmIdentifier::new(Algorithms::new(&oji)?));
-                    } else if res
-                        .tbs_certificate
-                        .subject_public_key_info
-                        .algorithm
-                        .is_none()
-                    {
-                        res.tbs_certificate.subject_public_key_info.algorithm =
-                            Some(AlgorithmIdentifier::new(Algorithms::new(&oji)?));
-                    } else if res
-                        .tbs_certificate
-                        .subject_public_key_info
-                        .algorithm
-                        .as_ref()
-                        .unwrap()
-                        .parameters
-                        .is_none()
-                    {
-                        res.tbs_certificate
-                            .subject_public_key_info
-                            .algorithm
-                            .as_mut()
-                            .unwrap()
-                            .parameters = Some(oji);
-                    } else if res.signature_algorithm.is_none() {
-                        res.signature_algorithm = Some(Algorithms::new(&oji)?);
-                    }
-                    *consumed += size;
-                }
-                _ => todo!("ObjectIdentifier {state:?}"),
-            },
-            DerType::PrintableString | DerType::UTF8String => {
-                let string = match String::from_utf8(body.to_vec()) {
-                    Ok(e) => e,
-                    Err(_) => return Err(ParseError::UTF8String),
-                };
-                if res.tbs_certificate.validity.not_after.is_none() {
-                    res.tbs_certificate.issuer.add_value(string)?;
-                } else {
-                    res.tbs_certificate.subject.add_value(string)?;
-                }
-                *consumed += size;
-            }
-            DerType::OctetString => {
-                *consumed += size;
-                todo!("GOT OctetString");
+        }
+    }
+}
+
+fn parse_tbs_certificate(
+    res: &mut TBSCertificateBuilder,
+    mut tbs: DerReader,
+) -> Result<(), ParseError> {
+    // The version is optional
+    let mut element = tbs.next()?;
+    if let (EncodedForm::Constructed(DerType::ContextSpecific(0)), body) = element {
+        let mut version = DerReader::new(body);
+        res.version = Some(Version::parse(version.integer()?)?);
+        version.finish()?;
+        element = tbs.next()?;
+    }
+    match element {
+        (EncodedForm::Primitive(DerType::Integer), serial_number) => {
+            res.serial_number = Some(bytes::to_ibig_be(serial_number))
+        }
+        _ => return Err(ParseError::DerParseType),
+    }
+    res.signature = Some(parse_algorithm(tbs.sequence()?)?);
+    parse_name(&mut res.issuer, tbs.sequence()?)?;
+
+    let mut validity = tbs.sequence()?;
+    res.validity.not_before = Some(parse_time(&mut validity)?);
+    res.validity.not_after = Some(parse_time(&mut validity)?);
+    validity.finish()?;
+
+    parse_name(&mut res.subject, tbs.sequence()?)?;
+
+    let mut public_key_info = tbs.sequence()?;
+    res.subject_public_key_info.algorithm = Some(parse_algorithm(public_key_info.sequence()?)?);
+    res.subject_public_key_info.subject_public_key =
+        Some(BitString(public_key_info.bit_string()?.to_vec()));
+    public_key_info.finish()?;
+
+    // Unique identifiers and extensions
+    while !tbs.is_empty() {
+        match tbs.next()?.0 {
+            EncodedForm::Constructed(DerType::ContextSpecific(0x03)) => {
+                log::fixme!("TODO: certificate extenstions")
             }
-            DerType::UTCTime => {
-                let timestamp = match String::from_utf8(body.to_vec()) {
-                    Ok(e) => e,
-                    Err(_) => return Err(ParseError::UTF8StringTimestamp),
-                };
-                let timestamp = UtcTime::from_utc_timestamp(&timestamp);
-                if timestamp.is_none() {
-                    return Err(ParseError::TimeStamp);
-                }
-                if res.tbs_certificate.validity.not_before.is_none() {
-                    res.tbs_certificate.validity.not_before = timestamp;
-                } else {
-                    res.tbs_certificate.validity.not_after = timestamp;
+            EncodedForm::Constructed(DerType::ContextSpecific(0x01 | 0x02))
+            | EncodedForm::Primitive(DerType::ContextSpecific(0x01 | 0x02)) => (),
+            _ => return Err(ParseError::DerParseType),
+        }
+    }
+    Ok(())
+}
+
+fn parse_algorithm(mut identifier: DerReader) -> Result<AlgorithmIdentifier, ParseError> {
+    let algorithm = parse_object_identifier(identifier.object_identifier()?);
+    let mut res = AlgorithmIdentifier::new(Algorithms::new(&algorithm)?);
+    if !identifier.is_empty() {
+        if let (EncodedForm::Primitive(DerType::ObjectIdentifier), id) = identifier.next()? {
+            res.parameters = Some(parse_object_identifier(id));
+        }
+    }
+    identifier.finish()?;
+    Ok(res)
+}
+
+fn parse_name(res: &mut Name, mut name: DerReader) -> Result<(), ParseError> {
+    while !name.is_empty() {
+        let mut set = DerReader::new(name.expect(EncodedForm::Constructed(DerType::Set))?);
+        while !set.is_empty() {
+            let mut attribute = set.sequence()?;
+            res.add_object_identifier(attribute.object_identifier()?)?;
+            let value = match attribute.next()? {
+                (EncodedForm::Primitive(DerType::PrintableString | DerType::UTF8String), value) => {
+                    value
                 }
-                *consumed += size;
-            }
-            DerType::BitString => {
-                if data[*consumed + 1] == 0x30 {
-                    *consumed += 1;
-                    let size_should = size + *consumed - 1;
-                    while size_should > *consumed {
-                        parse(res, ParsingState::InBitString, data, consumed)?;
-                    }
-                } else {
-                    let number_of_unused_bits = data[*consumed];
-                    if number_of_unused_bits != 0 {
-                        todo!("Number of unused bits is not 0");
-                    }
-
-                    if res
-                        .tbs_certificate
-                        .subject_public_key_info
-                        .subject_public_key
-                        .is_none()
-                    {
-                        res.tbs_certificate
-                            .subject_public_key_info
-                            .subject_public_key = Some(BitString(body[1..].to_vec()));
-                    }
-                    *consumed += size;
+                (der_type, _) => {
+                    log::error!("not yet implemented: {der_type:?}");
+                    return Err(ParseError::NotYetImplemented);
                 }
+            };
+            attribute.finish()?;
+            match String::from_utf8(value.to_vec()) {
+                Ok(value) => res.add_value(value)?,
+                Err(_) => return Err(ParseError::UTF8String),
             }
-            DerType::Null => {
-                todo!("Null");
-            }
-            _ => {
-                log::error!("not yet implemented: prim={prim:?}");
-                return Err(ParseError::NotYetImplemented);
-            }
-        },
+        }
     }
     Ok(())
 }
 
+fn parse_time(validity: &mut DerReader) -> Result<UtcTime, ParseError> {
+    match validity.next()? {
+        (EncodedForm::Primitive(DerType::UTCTime), time) => {
+            let time = match std::str::from_utf8(time) {
+                Ok(e) => e,
+                Err(_) => return Err(ParseError::UTF8StringTimestamp),
+            };
+            UtcTime::from_utc_timestamp(time).ok_or(ParseError::TimeStamp)
+        }
+        (der_type, _) => {
+            log::error!("not yet implemented: {der_type:?}");
+            Err(ParseError::NotYetImplemented)
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From f4f35a99bbbe4651bcbb405fa8d39a9a09f97f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 31/51] fix: check all lengths of received Certificate messages

---
 anothertls/src/net/handshake/certificate.rs | 50 +++++++++++++--------
 anothertls/src/net/server/connection.rs     |  6 ++-
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 715e971..00df9f6 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -49,35 +49,49 @@ impl Certificate {
         })
     }
 
+    /// Get the next part of `buf`, which is prefixed with its length
+    fn next_vector<'a>(
+        buf: &'a [u8],
+        consumed: &mut usize,
+        len_size: usize,
+    ) -> Result<&'a [u8], TlsError> {
+        let len = buf
+            .get(*consumed..*consumed + len_size)
+            .ok_or(TlsError::DecodeError)?;
+        let len = bytes::to_u128_be_fill(len) as usize;
+        *consumed += len_size;
+        let data = buf
+            .get(*consumed..*consumed + len)
+            .ok_or(TlsError::DecodeError)?;
+        *consumed += len;
+        Ok(data)
+    }
+
     pub fn from_hello(buf: &[u8]) -> Result<Vec<Certificate>, TlsError> {
-        let mut consumed = 1;
-        let cert_request_context_len = buf[0] as usize;
+        let mut consumed = 0;
 
-        consumed += cert_request_context_len;
+        let _cert_request_context = Self::next_vector(buf, &mut consumed, 1)?;
+        let cert_list = Self::next_vector(buf, &mut consumed, 3)?;
 
-        let certs_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
-        consumed += 3;
+        if consumed != buf.len() {
+            return Err(TlsError::DecodeError);
+        }
 
-        if certs_len == 0 {
+        if cert_list.is_empty() {
             log::debug!("Client send no certificate!");
             return Err(TlsError::CertificateRequired);
         }
 
         let mut certs = vec![];
-
-        let prev_len = consumed;
+        let mut consumed = 0;
 
         #[allow(clippy::never_loop)]
-        while certs_len > (consumed - prev_len) {
-            let cert_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
-            consumed += 3;
-            let cert = Certificate::from_raw_x509(buf[consumed..consumed + cert_len].to_vec())?;
-            consumed += cert_len;
-            let cert_ext_len = bytes::to_u16(&buf[consumed..consumed + 2]);
-            consumed += 2;
-            if cert_ext_len > 0 {
+        while consumed < cert_list.len() {
+            let cert = Self::next_vector(cert_list, &mut consumed, 3)?;
+            let cert_ext = Self::next_vector(cert_list, &mut consumed, 2)?;
+            let cert = Certificate::from_raw_x509(cert.to_vec())?;
+            if !cert_ext.is_empty() {
                 log::error!("Certificate has Extensions");
-                consumed += cert_ext_len as usize;
             }
 
             if !cert
@@ -102,7 +116,7 @@ impl Certificate {
 
             certs.push(cert);
 
-            if certs_len > (consumed - prev_len) {
+            if consumed < cert_list.len() {
                 log::error!("More then one certificate. NOT YET IMPLEMENTED, so ignoring them!");
                 break;
             }
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 58a9f7c..f987cd3 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -360,8 +360,10 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificate");
 
-        let cert_request_context_len = handshake.fraqment[0] as usize;
-        let cert_request_context = &handshake.fraqment[1..cert_request_context_len + 1];
+        let cert_request_context = match handshake.fraqment.split_first() {
+            Some((len, data)) => data.get(..*len as usize).ok_or(TlsError::DecodeError)?,
+            None => return Err(TlsError::DecodeError),
+        };
 
         if cert_request_context != self.certificate_request_context.as_ref().unwrap() {
             return Err(TlsError::HandshakeFailure);
-- 
2.43.0


From 5f3cceddde5b9f4c0ffa76cfbd649de40bc89e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 32/51] fix: check lengths and the scheme of CertificateVerify
 messages instead of a panic

---
 anothertls/src/net/client/connection.rs     | 24 +++++++++---------
 anothertls/src/net/handshake/certificate.rs | 12 +++++++++
 anothertls/src/net/server/connection.rs     | 27 +++++++++------------
 3 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 9a98d66..c792d22 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -383,21 +383,22 @@ impl<'a> ClientHandshake<'a> {
 
         log::debug!("--> ServerCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
+        let (algo, signature) = Certificate::parse_certificate_verify(handshake.fraqment)?;
 
-        let mut consumed = 4; // algo and len
         match algo {
             SignatureScheme::ecdsa_secp256r1_sha256 => {
-                let (signature, size) = match Signature::from_der(&handshake.fraqment[consumed..]) {
-                    Ok(e) => e,
+                let signature = match Signature::from_der(signature) {
+                    Ok((e, size)) if size == signature.len() => e,
+                    Ok(_) => {
+                        self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
+                        return Ok(());
+                    }
                     Err(e) => {
                         self.state = ClientHsState::FinishWithError(e);
                         return Ok(());
                     }
                 };
 
-                consumed += size;
-
                 if !self.server_cert.as_ref().unwrap().is_certificate_valid(
                     signature,
                     self.tshash.as_ref().unwrap().as_ref(),
@@ -407,17 +408,14 @@ impl<'a> ClientHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for server cert not implemented yet"),
+            e => {
+                log::error!("SignatureScheme {e:?} was not offered");
+                return Err(TlsError::IllegalParameter);
+            }
         }
 
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-        if sign_len != consumed - 4 {
-            self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
-            return Ok(());
-        }
-
         self.state = ClientHsState::Finished;
         Ok(())
     }
diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 00df9f6..6e55726 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -125,6 +125,18 @@ impl Certificate {
         Ok(certs)
     }
 
+    /// Get the signature scheme and the signature of a CertificateVerify message
+    pub fn parse_certificate_verify(buf: &[u8]) -> Result<(SignatureScheme, &[u8]), TlsError> {
+        if buf.len() < 4 || buf.len() != 4 + bytes::to_u16(&buf[2..4]) as usize {
+            return Err(TlsError::DecodeError);
+        }
+        match SignatureScheme::new(bytes::to_u16(&buf[0..2])) {
+            Ok(algo) => Ok((algo, &buf[4..])),
+            // Only offered schemes are allowed
+            Err(_) => Err(TlsError::IllegalParameter),
+        }
+    }
+
     pub fn get_certificate_request(&self, random: &[u8]) -> Vec<u8> {
         let mut extensions = ServerExtensions::new();
         let algs = SignatureAlgorithms::new(SignatureScheme::ecdsa_secp256r1_sha256);
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index f987cd3..c7ea634 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -18,7 +18,7 @@ use crate::net::{
 };
 use crate::net::{KeySchedule, TlsStream};
 use crate::rand::{RngCore, SeedableRng, SimpleRng, URandomRng, PRNG};
-use crate::utils::{bytes, keylog::KeyLog, log};
+use crate::utils::{keylog::KeyLog, log};
 use core::result::Result;
 use ibig::{ibig, IBig};
 use std::net::SocketAddr;
@@ -416,22 +416,22 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
-
-        let mut consumed = 4; // algo and len
+        let (algo, signature) = Certificate::parse_certificate_verify(handshake.fraqment)?;
 
         match algo {
             SignatureScheme::ecdsa_secp256r1_sha256 => {
-                let (signature, size) = match Signature::from_der(&handshake.fraqment[consumed..]) {
-                    Ok(e) => e,
+                let signature = match Signature::from_der(signature) {
+                    Ok((e, size)) if size == signature.len() => e,
+                    Ok(_) => {
+                        self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
+                        return Ok(());
+                    }
                     Err(e) => {
                         self.state = ServerHsState::FinishWithError(e);
                         return Ok(());
                     }
                 };
 
-                consumed += size;
-
                 if !self.client_cert.as_ref().unwrap().is_certificate_valid(
                     signature,
                     self.tshash.as_ref().unwrap().as_ref(),
@@ -441,13 +441,10 @@ impl<'a> ServerHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for client cert not implemented yet"),
-        }
-
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-        if sign_len != consumed - 4 {
-            self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
-            return Ok(());
+            e => {
+                log::error!("SignatureScheme {e:?} was not offered");
+                return Err(TlsError::IllegalParameter);
+            }
         }
 
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
-- 
2.43.0


From 9292fd9f90ce56b335d09f7fbf096dee1c997a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 33/51] fix: answer certificate requests correctly and only one
 of them

---
 anothertls/src/net/client/connection.rs | 36 +++++++++++++++----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index c792d22..ff96416 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -296,7 +296,9 @@ impl<'a> ClientHandshake<'a> {
                 ClientHsState::ServerHello => self.handle_server_hello(handshake)?,
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
                 ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
-                    if handshake.handshake_type == HandshakeType::CertificateRequest {
+                    if handshake.handshake_type == HandshakeType::CertificateRequest
+                        && self.certificate_request.is_none()
+                    {
                         log::debug!("--> CertificateRequest");
                         self.certificate_request = Some(handshake.fraqment.to_vec());
                         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
@@ -338,6 +340,11 @@ impl<'a> ClientHandshake<'a> {
         log::debug!("--> ServerCertificate");
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
+        // In the context of server authentication, the certificate request context is empty
+        if handshake.fraqment.first() != Some(&0) {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let mut certs = match Certificate::from_hello(handshake.fraqment) {
             Ok(e) => e,
             Err(e) => {
@@ -480,25 +487,26 @@ impl<'a> ClientHandshake<'a> {
     pub fn handle_certificate_request(&mut self) -> Result<(), TlsError> {
         let request = self.certificate_request.as_ref().unwrap();
 
-        let mut response: Vec<u8> = vec![request[0]];
-        let context_len = request[0] as usize;
+        let context_len = *request.first().ok_or(TlsError::DecodeError)? as usize;
+        let consumed = 1 + context_len;
 
-        let mut consumed = 1;
-        if context_len > 0 {
-            response.extend_from_slice(&request[1..context_len + 1]);
-            consumed += context_len;
-        }
+        // Context with its length
+        let mut response = request
+            .get(..consumed)
+            .ok_or(TlsError::DecodeError)?
+            .to_vec();
 
-        let ext_len = bytes::to_u16(&request[consumed..]) as usize;
-        consumed += 2;
-        let _extensions =
-            CertificateRequestExtensions::from_request(&request[consumed..consumed + ext_len]);
+        let extensions = &request[consumed..];
+        if extensions.len() < 2 || bytes::to_u16(extensions) as usize != extensions.len() - 2 {
+            return Err(TlsError::DecodeError);
+        }
+        let _extensions = CertificateRequestExtensions::from_request(&extensions[2..])?;
 
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
         } else {
-            log::fixme!("Check if this works");
-            response.extend_from_slice(&[0x00, 0x00, 0x00, 0x02, 0x00, 0x00]);
+            // Empty certificate list
+            response.extend_from_slice(&[0x00, 0x00, 0x00]);
         }
 
         let handshake_raw = Handshake::to_bytes(HandshakeType::Certificate, response);
-- 
2.43.0


From 0b1b7476ffcb96ceb1f010305cfb38193f569605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 34/51] fix: the client refuses session ids and cipher suites
 it did not offer

---
 anothertls/src/net/client/connection.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index ff96416..62666e6 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -4,6 +4,7 @@
  */
 
 use crate::crypto::ellipticcurve::{Curve, PrivateKey, Signature};
+use crate::crypto::CipherSuite;
 use crate::hash::TranscriptHash;
 use crate::net::alert::TlsError;
 use crate::net::client::{ClientConfig, ClientHello};
@@ -64,6 +65,8 @@ pub struct ClientHandshake<'a> {
     server_cert: Option<Certificate>,
     client_hello_bytes: Option<Vec<u8>>,
     client_hello_random: Option<Vec<u8>>,
+    session_id: Option<Vec<u8>>,
+    offered_cipher_suites: Vec<CipherSuite>,
 }
 
 impl<'a> ClientHandshake<'a> {
@@ -85,6 +88,8 @@ impl<'a> ClientHandshake<'a> {
             private_key,
             client_hello_bytes: None,
             client_hello_random: None,
+            session_id: None,
+            offered_cipher_suites: vec![],
         }
     }
 
@@ -162,7 +167,9 @@ impl<'a> ClientHandshake<'a> {
         let handshake_raw =
             Handshake::to_bytes(HandshakeType::ClientHello, client_hello.as_bytes()?);
 
+        self.offered_cipher_suites = client_hello.cipher_suites;
         self.client_hello_random = Some(random);
+        self.session_id = Some(session_id);
         self.client_hello_bytes = Some(handshake_raw);
 
         self.stream.write_record(
@@ -222,6 +229,15 @@ impl<'a> ClientHandshake<'a> {
 
         let server_hello = ServerHello::from_raw(handshake.fraqment)?;
 
+        // The server has to choose from what was offered
+        if server_hello.legacy_session_id_echo != self.session_id.as_deref()
+            || !self
+                .offered_cipher_suites
+                .contains(&server_hello.cipher_suite)
+        {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
 
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
-- 
2.43.0


From c1b3b97805c98e8bb31a730d2b42862355bc7092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 35/51] fix: base64 decoding returns None for malformed input
 instead of a panic or wrong bytes

---
 anothertls/src/utils/base64.rs | 40 ++++++++++++++++------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/anothertls/src/utils/base64.rs b/anothertls/src/utils/base64.rs
index f20426a..780aca0 100644
--- a/anothertls/src/utils/base64.rs
+++ b/anothertls/src/utils/base64.rs
@@ -51,32 +51,27 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
         return None;
     }
 
-    let mut tmp = [0u8; 4];
+    // Padding is only allowed at the end
+    let data = match input {
+        _ if input.ends_with("==") => &input[..len - 2],
+        _ if input.ends_with('=') => &input[..len - 1],
+        _ => input,
+    };
+    let padding_len = len - data.len();
 
-    let mut reverse_characters = [0u8; 'z' as usize + 1];
+    let mut reverse_characters = [None; 256];
 
     for (i, &c) in CHARS.as_bytes().iter().enumerate() {
-        reverse_characters[c as usize] = i as u8;
+        reverse_characters[c as usize] = Some(i as u8);
     }
 
-    let mut input_iter = input.chars();
+    let mut tmp = [0u8; 4];
     let mut out = vec![];
-    let mut padding_len = 0;
-
-    let mut consumed = 0;
-    while consumed < input.len() {
-        consumed += 4;
-        for (i, t) in tmp.iter_mut().enumerate() {
-            let idx = i + 1;
-            let ch = input_iter
-                .next()
-                .unwrap_or(if idx <= 2 { '=' } else { '\0' });
-            if ch == '=' {
-                *t = 0;
-                padding_len += 1;
-            } else {
-                *t = reverse_characters[ch as usize];
-            }
+
+    for chunk in data.as_bytes().chunks(4) {
+        tmp.fill(0);
+        for (t, &ch) in tmp.iter_mut().zip(chunk) {
+            *t = reverse_characters[ch as usize]?;
         }
 
         out.push((tmp[0] << 2) | (tmp[1] >> 4));
@@ -84,8 +79,11 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
         out.push((tmp[2] << 6) | tmp[3]);
     }
 
+    // The bits, which are not used because of the padding, have to be zero
     for _ in 0..padding_len {
-        out.pop();
+        if out.pop() != Some(0) {
+            return None;
+        }
     }
 
     Some(out)
-- 
2.43.0


From 9ebd0c2bb94b2aef69eca40c3559b6fce606a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 36/51] fix: PEM files with CRLF line endings, chains and
 malformed lines

---
 anothertls/src/utils/pem.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/utils/pem.rs b/anothertls/src/utils/pem.rs
index dc00b21..1e44b83 100644
--- a/anothertls/src/utils/pem.rs
+++ b/anothertls/src/utils/pem.rs
@@ -15,20 +15,25 @@ enum PemState {
 }
 
 pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec<u8>>> {
-    let pem = match fs::read_to_string(filepath) {
-        Ok(e) => e,
+    let pem = match fs::read(filepath) {
+        // The encoding of the text around the objects is unknown
+        Ok(e) => String::from_utf8_lossy(&e).into_owned(),
         Err(_) => return None,
     };
     let mut content = HashMap::new();
     let mut state = PemState::Start;
     let mut current_title = String::new();
     let mut current_content = String::new();
-    for line in pem.split('\n') {
+    for line in pem.split(['\n', '\r']).map(str::trim) {
         match state {
             PemState::InContent => {
-                if line.starts_with("-----END") {
+                if line.starts_with("-----END ") {
+                    if line != format!("-----END {current_title}-----") {
+                        return None;
+                    }
                     let raw = base64::decode(&current_content)?;
-                    content.insert(current_title.to_owned(), raw);
+                    // If there is more than one object, the first one is used (e.g. in a chain)
+                    content.entry(current_title.to_owned()).or_insert(raw);
                     state = PemState::End;
                     current_content.clear();
                 } else {
@@ -36,8 +41,8 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
                 }
             }
             PemState::End | PemState::Start => {
-                if line.starts_with("-----BEGIN") {
-                    current_title = line[11..(line.len() - 5)].to_string();
+                if let Some(title) = line.strip_prefix("-----BEGIN ") {
+                    current_title = title.strip_suffix("-----")?.to_string();
                     state = PemState::InContent;
                 }
             }
-- 
2.43.0


From 4ebbb7e059f3f4a37fecb8db5e50f74b273ba746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 37/51] fix: parse EC private keys instead of using the bytes
 at a fixed position

---
 .../src/crypto/ellipticcurve/privatekey.rs    | 47 ++++++++++++++++---
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/privatekey.rs b/anothertls/src/crypto/ellipticcurve/privatekey.rs
index d2fe4ff..2dd1bd8 100644
--- a/anothertls/src/crypto/ellipticcurve/privatekey.rs
+++ b/anothertls/src/crypto/ellipticcurve/privatekey.rs
@@ -4,8 +4,9 @@
  */
 
 use super::{curve::Curve, math, publickey::PublicKey};
+use crate::utils::der::{der_parse, DerType, EncodedForm};
 use crate::utils::{bytes, pem::get_pem_content_from_file};
-use ibig::IBig;
+use ibig::{ibig, IBig};
 
 pub struct PrivateKey {
     pub curve: Curve,
@@ -19,12 +20,44 @@ impl PrivateKey {
     pub fn from_pem(filepath: String) -> Option<PrivateKey> {
         let raw = get_pem_content_from_file(filepath)?;
         let secret = raw.get("EC PRIVATE KEY")?;
-        let secret = bytes::to_ibig_be(&secret[7..39]);
-        // FIXME: PARSE ASN1 OID
-        Some(PrivateKey {
-            curve: Curve::secp256r1(),
-            secret,
-        })
+        Self::from_der(secret)
+    }
+    /// Parse an ECPrivateKey, see RFC 5915
+    fn from_der(der: &[u8]) -> Option<PrivateKey> {
+        let element = |data: &mut &[u8], expected: EncodedForm| {
+            let mut consumed = 0;
+            let (size, der_type) = der_parse(&mut consumed, data).ok()?;
+            let content = data[consumed..].get(..size)?.to_vec();
+            *data = &data[consumed + size..];
+            (der_type == expected).then_some(content)
+        };
+        let mut key = der;
+        let content = element(&mut key, EncodedForm::Constructed(DerType::Sequence))?;
+        let mut content = &content[..];
+        let version = element(&mut content, EncodedForm::Primitive(DerType::Integer))?;
+        let secret = element(&mut content, EncodedForm::Primitive(DerType::OctetString))?;
+
+        if !key.is_empty() || version != [1] || secret.len() != 32 {
+            return None;
+        }
+
+        // The parameters are optional
+        if content.first() == Some(&0xa0) {
+            let parameters = EncodedForm::Constructed(DerType::ContextSpecific(0));
+            // OID of prime256v1
+            if element(&mut content, parameters)?
+                != [0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07]
+            {
+                return None;
+            }
+        }
+
+        let curve = Curve::secp256r1();
+        let secret = bytes::to_ibig_be(&secret);
+        if secret == ibig!(0) || secret >= curve.n {
+            return None;
+        }
+        Some(PrivateKey { curve, secret })
     }
     pub fn get_public_key(&self) -> PublicKey {
         let point = math::multiply(&self.curve.g, self.secret.clone(), &self.curve);
-- 
2.43.0


From 4e29de15815556e87351e4e5200e7a5447eadf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 38/51] fix: write the lines of the key log at once

---
 anothertls/src/utils/keylog.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/utils/keylog.rs b/anothertls/src/utils/keylog.rs
index 9d07c2e..a537c62 100644
--- a/anothertls/src/utils/keylog.rs
+++ b/anothertls/src/utils/keylog.rs
@@ -66,7 +66,9 @@ impl KeyLog {
         self.append_to_file(content)
     }
 
-    fn append_to_file(&self, content: String) {
+    fn append_to_file(&self, mut content: String) {
+        // Only one write, so the lines of several connections are not mixed up
+        content += "\n";
         let mut file = OpenOptions::new()
             .create(true)
             .write(true)
@@ -74,7 +76,7 @@ impl KeyLog {
             .open(&self.filepath)
             .unwrap_or_else(|_| panic!("Couldn't open or create keylog file {}", self.filepath));
 
-        if let Err(e) = writeln!(file, "{}", content) {
+        if let Err(e) = file.write_all(content.as_bytes()) {
             eprintln!("Couldn't write to file: {}", e);
         }
     }
-- 
2.43.0


From dba35edb8c1e0916ab37d36d346068fb50bf3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 39/51] fix: data race of the log level

---
 anothertls/src/utils/log.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/utils/log.rs b/anothertls/src/utils/log.rs
index 18c4579..34fecbe 100644
--- a/anothertls/src/utils/log.rs
+++ b/anothertls/src/utils/log.rs
@@ -4,6 +4,7 @@
  */
 
 use std::env;
+use std::sync::atomic::{AtomicU8, Ordering};
 
 #[derive(PartialEq, PartialOrd, Clone, Debug)]
 pub enum LogLevel {
@@ -14,19 +15,19 @@ pub enum LogLevel {
     Fixme = 3,
 }
 
-pub static mut LOG_LEVEL: LogLevel = LogLevel::None;
+pub static LOG_LEVEL: AtomicU8 = AtomicU8::new(LogLevel::None as u8);
 
 pub fn check_log_level(level: LogLevel) -> bool {
-    unsafe { LOG_LEVEL >= level }
+    LOG_LEVEL.load(Ordering::Relaxed) >= level as u8
 }
 
 pub fn init() {
     for (key, value) in env::vars() {
         if key == "RUST_LOG" {
             match value.to_lowercase().as_str() {
-                "debug" => unsafe { LOG_LEVEL = LogLevel::Debug },
-                "error" => unsafe { LOG_LEVEL = LogLevel::Error },
-                "fixme" => unsafe { LOG_LEVEL = LogLevel::Fixme },
+                "debug" => LOG_LEVEL.store(LogLevel::Debug as u8, Ordering::Relaxed),
+                "error" => LOG_LEVEL.store(LogLevel::Error as u8, Ordering::Relaxed),
+                "fixme" => LOG_LEVEL.store(LogLevel::Fixme as u8, Ordering::Relaxed),
                 _ => (),
             }
             break;
-- 
2.43.0


From 94e4a1fd60159a8b5c295eba8376033ee2a5f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 40/51] fix: refuse duplicated extensions

---
 anothertls/src/net/extensions/certificate_request.rs |  2 +-
 anothertls/src/net/extensions/client.rs              |  2 +-
 anothertls/src/net/extensions/server.rs              |  2 +-
 anothertls/src/net/extensions/shared.rs              | 10 ++++++++++
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index 0f8628d..31de0c4 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -43,7 +43,7 @@ impl CertificateRequestExtensions {
                 }
                 _ => continue,
             };
-            extensions.push(extension);
+            extensions.push_received(extension)?;
         }
         Ok(extensions)
     }
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index 1824ff3..0eb0d25 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -56,7 +56,7 @@ impl ClientExtension {
                 }
                 ExtensionType::SupportedGroups => continue,
             };
-            extensions.push(extension);
+            extensions.push_received(extension)?;
         }
         Ok(extensions)
     }
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index 60d359f..7177ede 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -51,7 +51,7 @@ impl ServerExtensions {
                 } // ExtensionType::SupportedGroups => continue, // TODO
                 _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
-            extensions.push(extension);
+            extensions.push_received(extension)?;
         }
         Ok(extensions)
     }
diff --git a/anothertls/src/net/extensions/shared.rs b/anothertls/src/net/extensions/shared.rs
index 9fceeeb..d336cf7 100644
--- a/anothertls/src/net/extensions/shared.rs
+++ b/anothertls/src/net/extensions/shared.rs
@@ -64,6 +64,16 @@ impl<T: ExtensionWrapper> Extensions<T> {
     pub fn push(&mut self, ext: T) {
         self.extensions.push(ext)
     }
+    /// Add a received extension, there must be only one of the same type
+    pub fn push_received(&mut self, ext: T) -> Result<(), TlsError> {
+        for other in self.extensions.iter() {
+            if core::mem::discriminant(other) == core::mem::discriminant(&ext) {
+                return Err(TlsError::IllegalParameter);
+            }
+        }
+        self.push(ext);
+        Ok(())
+    }
     pub fn set_is_client(&mut self) {
         self.is_client = true;
     }
-- 
2.43.0


From 710dbb8e19b989d428e345c4b8e3936491c50113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 41/51] hook: set the record sequence number (only with --cfg
 anothertls_verif)

---
 anothertls/src/net/key_schedule.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index a0e2018..9be778f 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -3,6 +3,8 @@
  *
  */
 
+#![allow(unexpected_cfgs)] // anothertls_verif
+
 use crate::crypto::ellipticcurve::PrivateKey;
 use crate::crypto::CipherSuite;
 use crate::hash::{sha_x, HashType, TranscriptHash};
@@ -48,6 +50,11 @@ impl Key {
             sequence_number: 0,
         })
     }
+    /// Verification hook: start at another record, because 2^64 records can't be sent
+    #[cfg(anothertls_verif)]
+    pub fn verif_set_sequence_number(&mut self, sequence_number: u64) {
+        self.sequence_number = sequence_number;
+    }
     pub fn get_per_record_nonce(&mut self) -> Result<Vec<u8>, TlsError> {
         // 5.3.  Per-Record Nonce
         let mut out = self.iv.to_vec();
-- 
2.43.0


From 01c021d812e8afb53e7514980805c11335ef0c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 42/51] fix: decode_error is alert 50 and decrypt_error is
 alert 51

---
 anothertls/src/net/alert.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index f5d399a..123016b 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -31,8 +31,8 @@ pub enum TlsError {
     IllegalParameter = 47,
     UnknownCa = 48,
     AccessDenied = 49,
-    DecryptError = 50,
-    DecodeError = 51,
+    DecodeError = 50,
+    DecryptError = 51,
     ProtocolVersion = 70,
     InsufficientSecurity = 71,
     InternalError = 80,
@@ -67,8 +67,8 @@ impl TlsError {
             47 => TlsError::IllegalParameter,
             48 => TlsError::UnknownCa,
             49 => TlsError::AccessDenied,
-            50 => TlsError::DecryptError,
-            51 => TlsError::DecodeError,
+            50 => TlsError::DecodeError,
+            51 => TlsError::DecryptError,
             70 => TlsError::ProtocolVersion,
             71 => TlsError::InsufficientSecurity,
             80 => TlsError::InternalError,
@@ -112,8 +112,8 @@ impl TlsError {
             TlsError::IllegalParameter => 47,
             TlsError::UnknownCa => 48,
             TlsError::AccessDenied => 49,
-            TlsError::DecryptError => 50,
-            TlsError::DecodeError => 51,
+            TlsError::DecodeError => 50,
+            TlsError::DecryptError => 51,
             TlsError::ProtocolVersion => 70,
             TlsError::InsufficientSecurity => 71,
             TlsError::InternalError => 80,
-- 
2.43.0


From b54d1e6880daffb36c25fabda9fee36956e46c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 43/51] fix: drop a change_cipher_spec which arrives before the
 ServerHello

RFC 8446 section 5 allows the record at any time after the first ClientHello was sent
---
 anothertls/src/net/client/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 62666e6..5535d31 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -188,7 +188,7 @@ impl<'a> ClientHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
-                if self.state == ClientHsState::ServerHello || record.fraqment.as_ref() != [0x01] {
+                if record.fraqment.as_ref() != [0x01] {
                     return Err(TlsError::UnexpectedMessage);
                 }
                 return Ok(());
-- 
2.43.0


From d6ab90372f58c8a320fdbbeda2baff58334bc864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 44/51] fix: make a socket read again after a signal has
 interrupted it

---
 anothertls/src/net/stream.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 9f2fbae..ec8e1a0 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -11,7 +11,7 @@ use crate::net::record::{
 use crate::utils::{bytes, log};
 
 use core::result::Result;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::net::TcpStream;
 
 pub struct TlsStream {
@@ -88,9 +88,12 @@ impl TlsStream {
 
     /// Read directly from the TCP socket
     pub fn tcp_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        match self.stream.read(buf) {
-            Ok(n) if n != 0 => Ok(n),
-            _ => Err(TlsError::BrokenPipe),
+        loop {
+            return match self.stream.read(buf) {
+                Ok(n) if n != 0 => Ok(n),
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                _ => Err(TlsError::BrokenPipe),
+            };
         }
     }
 
-- 
2.43.0


From 77fcb3d6d36ae569e1f934a0e383745a956f93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 45/51] fix: a public key off the curve no longer prints on
 standard output

Ecdsa::verify printed a line with println!() for every such key, which any
peer can present, whether or not logging is switched on (and panicked if
the standard output was closed).
---
 anothertls/src/crypto/ellipticcurve/ecdsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/ecdsa.rs b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
index 3b2a95e..736c0d7 100644
--- a/anothertls/src/crypto/ellipticcurve/ecdsa.rs
+++ b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
@@ -3,7 +3,7 @@
  *
  */
 
-use crate::utils::bytes;
+use crate::utils::{bytes, log};
 use ibig::{ibig, IBig};
 
 use crate::rand::{RngCore, SeedableRng, SimpleRng, URandomRng};
@@ -78,7 +78,7 @@ impl Ecdsa {
         }
         // 2.
         if !pub_key.curve.contains(&pub_key.point) {
-            println!("not containes");
+            log::error!("The public key is not a point of the curve");
             return false;
         }
         // 3. n * pub_key.point == 0
-- 
2.43.0


From 6b4bdebe7f6dc8c954919e1e4f0162c429eab47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 46/51] fix: log::init() no longer panics because of
 environment variables that are not unicode

env::vars() panics if the name or value of any variable is not valid
unicode, whatever RUST_LOG is.
---
 anothertls/src/utils/log.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/anothertls/src/utils/log.rs b/anothertls/src/utils/log.rs
index 34fecbe..63d4e0f 100644
--- a/anothertls/src/utils/log.rs
+++ b/anothertls/src/utils/log.rs
@@ -22,15 +22,13 @@ pub fn check_log_level(level: LogLevel) -> bool {
 }
 
 pub fn init() {
-    for (key, value) in env::vars() {
-        if key == "RUST_LOG" {
-            match value.to_lowercase().as_str() {
-                "debug" => LOG_LEVEL.store(LogLevel::Debug as u8, Ordering::Relaxed),
-                "error" => LOG_LEVEL.store(LogLevel::Error as u8, Ordering::Relaxed),
-                "fixme" => LOG_LEVEL.store(LogLevel::Fixme as u8, Ordering::Relaxed),
-                _ => (),
-            }
-            break;
+    // env::vars() panics if any of the variables is not valid unicode
+    if let Ok(value) = env::var("RUST_LOG") {
+        match value.to_lowercase().as_str() {
+            "debug" => LOG_LEVEL.store(LogLevel::Debug as u8, Ordering::Relaxed),
+            "error" => LOG_LEVEL.store(LogLevel::Error as u8, Ordering::Relaxed),
+            "fixme" => LOG_LEVEL.store(LogLevel::Fixme as u8, Ordering::Relaxed),
+            _ => (),
         }
     }
 }
-- 
2.43.0


From 7b9c7560f01ddca22820138e0546d95166153315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 47/51] fix: logging no longer panics if the standard output is
 closed or full

print!() and println!() panic then, so a log message ended the connection
(and the thread that serves it).
---
 anothertls/src/utils/log.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/anothertls/src/utils/log.rs b/anothertls/src/utils/log.rs
index 63d4e0f..a77c265 100644
--- a/anothertls/src/utils/log.rs
+++ b/anothertls/src/utils/log.rs
@@ -4,6 +4,8 @@
  */
 
 use std::env;
+use std::fmt::Arguments;
+use std::io::Write;
 use std::sync::atomic::{AtomicU8, Ordering};
 
 #[derive(PartialEq, PartialOrd, Clone, Debug)]
@@ -33,14 +35,17 @@ pub fn init() {
     }
 }
 
+/// Unlike print!() this does not panic if the standard output is closed or full
+pub fn print(prefix: &str, message: Arguments) {
+    let _ = write!(std::io::stdout(), "{prefix}{message}\n\x1b[0m");
+}
+
 #[macro_export]
 macro_rules! fixme {
     ($($x: expr),*) => {{
         $(
             if $crate::utils::log::check_log_level($crate::utils::log::LogLevel::Fixme) {
-                print!("\x1b[36;2m! ");
-                println!($x);
-                print!("\x1b[0m");
+                $crate::utils::log::print("\x1b[36;2m! ", format_args!($x));
             }
         )*
     }}
@@ -52,9 +57,7 @@ macro_rules! debug {
     ($($x: expr),*) => {{
         $(
             if $crate::utils::log::check_log_level($crate::utils::log::LogLevel::Debug) {
-                    print!("\x1b[33;2m* ");
-                    println!($x);
-                    print!("\x1b[0m");
+                $crate::utils::log::print("\x1b[33;2m* ", format_args!($x));
             }
         )*
     }}
@@ -67,9 +70,7 @@ macro_rules! error {
         $(
 
             if $crate::utils::log::check_log_level($crate::utils::log::LogLevel::Error) {
-                print!("\x1b[31;1m* ");
-                println!($x);
-                print!("\x1b[0m");
+                $crate::utils::log::print("\x1b[31;1m* ", format_args!($x));
             }
 
         )*
-- 
2.43.0


From ec46d72f79b363962cb01897a95190b0fe3cc86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 48/51] fix: a process without free file descriptors no longer
 panics for random bytes

/dev/urandom was opened for every request, so a server whose clients use up
the file descriptors panicked in accept(). The file now stays open.
---
 anothertls/src/rand/urandom.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/rand/urandom.rs b/anothertls/src/rand/urandom.rs
index aa021c7..0c155c8 100644
--- a/anothertls/src/rand/urandom.rs
+++ b/anothertls/src/rand/urandom.rs
@@ -4,13 +4,17 @@
  */
 
 use std::fs::File;
-use std::io::{BufReader, Read};
+use std::io::Read;
+use std::sync::OnceLock;
 
 use ibig::{ibig, IBig};
 
 use crate::rand::RngCore;
 use crate::utils::bytes;
 
+// Stays open, so that a process that later runs out of file descriptors still gets random bytes
+static URANDOM: OnceLock<File> = OnceLock::new();
+
 pub struct URandomRng();
 
 impl URandomRng {
@@ -20,10 +24,14 @@ impl URandomRng {
 
     fn read_from_urandom(&self) -> [u8; 100] {
         let mut buffer: [u8; 100] = [0; 100];
-        let file = File::open("/dev/urandom").expect("/dev/urandom not found");
-        let mut reader = BufReader::with_capacity(100, file);
-        reader
-            .read_exact(&mut buffer)
+        let mut file = match URANDOM.get() {
+            Some(file) => file,
+            None => {
+                let file = File::open("/dev/urandom").expect("/dev/urandom not found");
+                URANDOM.get_or_init(|| file)
+            }
+        };
+        file.read_exact(&mut buffer)
             .expect("Reading from /dev/urandom");
         buffer
     }
-- 
2.43.0


From aef8542627c7252d76c4be4c12abbe8a78f9bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 49/51] fix: a key log that cannot be opened no longer panics
 in the handshake

A failing write was only reported, a failing open (no space for the file,
directory removed, no free file descriptor) ended the thread of the
connection with a panic.
---
 anothertls/src/utils/keylog.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/utils/keylog.rs b/anothertls/src/utils/keylog.rs
index a537c62..d2bff9c 100644
--- a/anothertls/src/utils/keylog.rs
+++ b/anothertls/src/utils/keylog.rs
@@ -69,15 +69,21 @@ impl KeyLog {
     fn append_to_file(&self, mut content: String) {
         // Only one write, so the lines of several connections are not mixed up
         content += "\n";
-        let mut file = OpenOptions::new()
+        let result = OpenOptions::new()
             .create(true)
             .write(true)
             .append(true)
             .open(&self.filepath)
-            .unwrap_or_else(|_| panic!("Couldn't open or create keylog file {}", self.filepath));
+            .and_then(|mut file| file.write_all(content.as_bytes()));
 
-        if let Err(e) = file.write_all(content.as_bytes()) {
-            eprintln!("Couldn't write to file: {}", e);
+        // The connection does not depend on the key log
+        if let Err(e) = result {
+            let _ = writeln!(
+                std::io::stderr(),
+                "Couldn't write to keylog file {}: {}",
+                self.filepath,
+                e
+            );
         }
     }
 }
-- 
2.43.0


From c5f245fc8329b35d1671b01420428bd2ce101251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 50/51] fix: ECDSA used all bits of hashes longer than the
 order of the curve

---
 anothertls/src/crypto/ellipticcurve/ecdsa.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/ecdsa.rs b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
index 736c0d7..a20b7bf 100644
--- a/anothertls/src/crypto/ellipticcurve/ecdsa.rs
+++ b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
@@ -33,7 +33,7 @@ impl Ecdsa {
         privkey: &PrivateKey,
         hashed_message: &[u8],
     ) -> Result<Signature, String> {
-        let msg = bytes::to_ibig_be(hashed_message);
+        let msg = bytes::to_ibig_be(leftmost_bits(hashed_message));
         let curve = privkey.curve.clone();
         let d = privkey.secret.clone();
 
@@ -92,7 +92,7 @@ impl Ecdsa {
             return false;
         }
 
-        let z = bytes::to_ibig_be(hashed_message);
+        let z = bytes::to_ibig_be(leftmost_bits(hashed_message));
         let curve = pub_key.curve;
 
         let s_inv = math::inv(&sign.s, &curve.n);
@@ -120,6 +120,11 @@ impl Ecdsa {
     }
 }
 
+/// Only as many bits of a hash are used as the order of the curve (secp256r1) has
+fn leftmost_bits(hashed_message: &[u8]) -> &[u8] {
+    &hashed_message[..core::cmp::min(hashed_message.len(), 32)]
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From bd4a8a8300b8c5f40faf0bd09405cf4b724d8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 51/51] fix: client certificates signed with ecdsa-with-SHA384
 were refused

---
 anothertls/src/net/handshake/certificate.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 6e55726..d779857 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -5,12 +5,16 @@
 
 use crate::{
     crypto::ellipticcurve::{Ecdsa, PrivateKey, Signature},
-    hash::{sha256, TranscriptHash},
+    hash::{sha256, sha384, TranscriptHash},
     net::{
         alert::TlsError,
         extensions::{ServerExtension, ServerExtensions, SignatureAlgorithms, SignatureScheme},
     },
-    utils::{bytes, log, pem::get_pem_content_from_file, x509::X509},
+    utils::{
+        bytes, log,
+        pem::get_pem_content_from_file,
+        x509::{Algorithms, X509},
+    },
 };
 
 pub struct Certificate {
@@ -217,7 +221,11 @@ impl Certificate {
             None => return Err(TlsError::InternalError),
         };
 
-        let hash = sha256(context);
+        let hash = match other_x509.signature_algorithm {
+            Algorithms::EcdsaWithSha256 => sha256(context),
+            Algorithms::EcdsaWithSha384 => sha384(context),
+            _ => return Err(TlsError::UnsupportedCertificate),
+        };
 
         if Ecdsa::verify(ca_public_key, signature, &hash) {
             return Ok(());
-- 
2.43.0

