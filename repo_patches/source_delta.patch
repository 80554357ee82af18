From 22c0c4d4419edfd0c492d5ef6d06daf2fdc9f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 1/9] fix: split 64-bit digests into 8-byte words

Converting a Hash384/Hash512 to [u64; N] always panicked, because the bytes were split into 4-byte chunks.
---
 src/sha/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/hash.rs b/src/sha/hash.rs
index d914300..18c1f38 100644
--- a/src/sha/hash.rs
+++ b/src/sha/hash.rs
@@ -124,7 +124,7 @@ fn bytes_to_u32s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u32; W] {
 
 fn bytes_to_u64s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u64; W] {
     let mut words = [0; W];
-    for (i, chunk) in bytes.chunks_exact(4).enumerate() {
+    for (i, chunk) in bytes.chunks_exact(8).enumerate() {
         let chunk = <[u8; 8]>::try_from(chunk).unwrap();
         words[i] = u64::from_be_bytes(chunk);
     }
-- 
2.43.0


From af6fca92d98a9a9e84d05641ba22048e9df37a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 2/9] fix: keep BigUint zero canonical when shifted left by
 whole bytes

Zero shifted by 8 or more bits became a vector of zero bytes, which is not equal to zero and makes bits_used() panic.
---
 src/big/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 0019e9a..15bca85 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -269,7 +269,7 @@ impl ShlAssign<u32> for BigUint {
             self.trim_trailing_zeroes()
         }
 
-        if steps > 0 {
+        if steps > 0 && !self.bytes.is_empty() {
             self.bytes
                 .splice(0..0, std::iter::repeat_n(0, steps as usize));
         }
-- 
2.43.0


From 01ab18454b25caa47e36aef8590f6f75f26bef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 3/9] fix: allow BigUint to be shifted right by more bits than
 it has

The splice range was not clamped, so e.g. 1 >> 16 panicked instead of giving 0.
---
 src/big/uint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 15bca85..c0d2cb9 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -281,7 +281,8 @@ impl ShrAssign<u32> for BigUint {
         if rhs >= 8 {
             let steps = rhs / 8;
 
-            self.bytes.splice(0..steps as usize, []);
+            let removed = (steps as usize).min(self.bytes.len());
+            self.bytes.splice(0..removed, []);
 
             rhs -= steps * 8;
         }
-- 
2.43.0


From 9f1d8be9cfe5a44108aa0c087b28f23661f28b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 4/9] fix: BigUint remainder by zero panics instead of
 returning the dividend

---
 src/big/uint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index c0d2cb9..22e5905 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -233,6 +233,9 @@ impl Sub<&BigUint> for BigUint {
 
 impl RemAssign<&BigUint> for BigUint {
     fn rem_assign(&mut self, rhs: &BigUint) {
+        if rhs.bytes.is_empty() {
+            panic!("division by zero");
+        }
         if rhs.bits_used() > self.bits_used() {
             return;
         }
-- 
2.43.0


From b67d83ff0fa916bc7e6b8eb11066a47d614d4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 5/9] fix: accept an empty RC5 key

RC5 allows 0..=255 key bytes and says that an empty key gives c = 1 and L[0] = 0; the key expansion panicked.
---
 src/rc/rc5.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rc/rc5.rs b/src/rc/rc5.rs
index a6aa350..206cfe4 100644
--- a/src/rc/rc5.rs
+++ b/src/rc/rc5.rs
@@ -16,13 +16,16 @@ impl RC5 {
     }
 
     fn expand_key(key: &[u8], r: u8) -> Vec<u32> {
-        let c = key.len().div_ceil(4);
+        let c = key.len().div_ceil(4).max(1);
         let mut l: Vec<u32> = Vec::with_capacity(c);
         for chunk in key.chunks(4) {
             let mut word = [0_u8; 4];
             word[..chunk.len()].copy_from_slice(chunk);
             l.push(u32::from_le_bytes(word));
         }
+        if l.is_empty() {
+            l.push(0);
+        }
 
         let t = 2 * (r as usize + 1);
         let mut s: Vec<u32> = Vec::with_capacity(t);
-- 
2.43.0


From b72e2e05411a4fef09e58c1bfd56d59c48b2e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 6/9] fix: reject a zero PKCS padding byte

Padding always adds between 1 and N bytes, so a last byte of 0 is not valid padding.
---
 src/pad.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pad.rs b/src/pad.rs
index 0c654da..49c7add 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -44,6 +44,9 @@ impl<const N: usize> PkcsPadding<N> {
 
     pub fn unpad(&self, block: Block<N>) -> usize {
         let amt = block[N-1];
+        if amt == 0 {
+            panic!("padding byte is zero");
+        }
         if amt as usize > N {
             panic!("padding byte is too big");
         }
-- 
2.43.0


From 8620d3846c59a12549e8546e951432763352e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 7/9] fix: OAEP decode returns an error for a message of the
 wrong length

It panicked on messages that are too short or not n_len bytes long.
---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 0df957d..04f8ec7 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -57,6 +57,9 @@ where
         encoded_message: &[u8],
         n_len: usize,
     ) -> Result<Vec<u8>, &'static str> {
+        if encoded_message.len() != n_len || n_len < 2 * N + 2 {
+            return Err("wrong length");
+        }
         if encoded_message[0] != 0 {
             return Err("first byte is not 0");
         }
-- 
2.43.0


From 98f359e9c257b3ff88f9315fe3291f2733e9b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 8/9] fix: RSA ciphertexts are as long as the modulus

Leading zero bytes of the ciphertext were dropped, and decryption then used the length of the ciphertext as the length of the modulus, so about one in 256 messages could not be decrypted.
---
 src/rsa/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 5a94121..b6d0c03 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -119,17 +119,17 @@ impl TryFrom<PEM> for PublicKey {
 
 impl RsaEncryption {
     pub fn encrypt_message(&self, plaintext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let m = padding.encode(
-            b"",
-            plaintext,
-            (self.modulo.bits_used() - 1) as usize / 8 + 1,
-        );
+        let n_len = (self.modulo.bits_used() - 1) as usize / 8 + 1;
+        let m = padding.encode(b"", plaintext, n_len);
         let m = BigUint::from_be_bytes(m);
         assert!(
             m < self.modulo,
             "the padding scheme did not put a zero as the first byte"
         );
-        self.encrypt(m).to_be_bytes()
+        let enc = self.encrypt(m).to_be_bytes();
+        let mut c: Vec<u8> = std::iter::repeat_n(0, n_len - enc.len()).collect();
+        c.extend_from_slice(&enc);
+        c
     }
 
     pub fn encrypt(&self, m: BigUint) -> BigUint {
@@ -137,7 +137,8 @@ impl RsaEncryption {
     }
 
     pub fn decrypt_message(&self, ciphertext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let mut m: Vec<u8> = std::iter::repeat_n(0, ciphertext.len()).collect();
+        let n_len = (self.modulo.bits_used() - 1) as usize / 8 + 1;
+        let mut m: Vec<u8> = std::iter::repeat_n(0, n_len).collect();
         let d = self.decrypt(BigUint::from_be_bytes(ciphertext));
         let dec = d.to_be_bytes();
         let start = m.len() - dec.len();
-- 
2.43.0


From 454740fc5cc6d3b0fd9509cd68fbd7d3a59c586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 9/9] fix: malformed ASN.1 lengths are errors instead of panics

A truncated or over-long length, and an empty bit string, made the parser panic; a length above 2^64 was silently truncated.
---
 src/pem/asn1.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 21e7255..5e9ddd3 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -16,12 +16,16 @@ impl Asn1 {
         let tag = bytes[0];
         let (rest, length) = if bytes[1] & 0x80 != 0 {
             let length_bytes = (bytes[1] & !0x80) as usize;
+            if length_bytes > 16 || length_bytes > bytes.len() - 2 {
+                return Err("tag had an invalid length".to_string());
+            }
             let mut length = 0u128.to_be_bytes();
             length[(16 - length_bytes)..].copy_from_slice(&bytes[2..(2 + length_bytes)]);
-            (
-                &bytes[(2 + length_bytes)..],
-                <u128>::from_be_bytes(length) as usize,
-            )
+            let length = <u128>::from_be_bytes(length);
+            if length > usize::MAX as u128 {
+                return Err("tag had an invalid length".to_string());
+            }
+            (&bytes[(2 + length_bytes)..], length as usize)
         } else {
             (&bytes[2..], bytes[1] as usize)
         };
@@ -36,6 +40,7 @@ impl Asn1 {
         let asn1 = match tag {
             0x02 => Asn1::Integer(rest[..length].to_owned()),
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
+            0x03 if length == 0 => return Err("bit string had no data".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
-- 
2.43.0

