From 066447a85f53b33c4f3c490584e6dd0cb8369af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 01/14] fix: refuse a descriptor that points outside the
 message instead of panicking

---
 src/messages/field.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/messages/field.rs b/src/messages/field.rs
index b76411f..87e0770 100644
--- a/src/messages/field.rs
+++ b/src/messages/field.rs
@@ -55,6 +55,15 @@ impl Field {
         start..end
     }
 
+    fn get_data<'a, E>(&self, input: &'a [u8]) -> Result<&'a [u8], nom::Err<E>>
+    where
+        E: NomError<'a>,
+    {
+        input.get(self.get_range()).ok_or_else(|| {
+            nom::Err::Error(E::from_error_kind(input, nom::error::ErrorKind::Eof))
+        })
+    }
+
     pub(super) fn get_data_if<'a, T, E>(
         &self,
         typename: &'static str,
@@ -70,7 +79,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(None)
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_data(input)?;
                 let (rest, value) =
                     context(typename, context("Field::get_data", T::deserialize))(data)?;
                 if !rest.is_empty() {
@@ -102,7 +111,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(Vec::new())
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_data(input)?;
                 let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;
                 if !rest.is_empty() {
                     log::warn!(
-- 
2.43.0


From 9140700acc4c7c2edf506b909be3b1950361c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 02/14] fix: refuse an attribute whose value is not exactly of
 its type instead of panicking

---
 src/messages/structures/avid.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 03ac26c..293f5b1 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::mem::size_of;
 
 use nom::bytes::complete::take;
-use nom::combinator::{map_opt, verify};
+use nom::combinator::{all_consuming, map_opt, verify};
 use nom::error::context;
 use nom::multi::length_data;
 use nom::number::complete::{le_u16, le_u32};
@@ -240,54 +240,44 @@ impl<'a> Wire<'a> for AvPair {
                 Ok((rest, Self::MsvAvEOL))
             }
             AvId::MsvAvNbComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbComputerName(s.into())))
             }
             AvId::MsvAvNbDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbDomainName(s.into())))
             }
             AvId::MsvAvDnsComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsComputerName(s.into())))
             }
             AvId::MsvAvDnsDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsDomainName(s.into())))
             }
             AvId::MsvAvDnsTreeName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsTreeName(s.into())))
             }
             AvId::MsvAvFlags => {
-                let (r, f) = MsvAvFlags::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, f) = all_consuming(MsvAvFlags::deserialize)(data)?;
                 Ok((rest, Self::MsvAvFlags(f)))
             }
             AvId::MsvAvTimestamp => {
-                let (r, ts) = FileTime::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, ts) = all_consuming(FileTime::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTimestamp(ts)))
             }
             AvId::MsvAvSingleHost => {
-                let (r, shd) = SingleHostData::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, shd) = all_consuming(SingleHostData::deserialize)(data)?;
                 Ok((rest, Self::MsvAvSingleHost(shd)))
             }
             AvId::MsvAvTargetName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTargetName(s.into())))
             }
             AvId::MsvAvChannelBindings => {
                 let mut buf = [0u8; 16];
-                let (r, s) = take(buf.len())(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(take(buf.len()))(data)?;
                 buf.copy_from_slice(s);
                 Ok((rest, Self::MsvAvChannelBindings(buf)))
             }
-- 
2.43.0


From f349fa5d9634e26d37cbc42b0b1e7195d67b69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 03/14] fix: decode UTF-16 names completely, surrogate pairs
 and NULs included

---
 src/messages/unicode_string.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/messages/unicode_string.rs b/src/messages/unicode_string.rs
index fe42c04..876986e 100644
--- a/src/messages/unicode_string.rs
+++ b/src/messages/unicode_string.rs
@@ -4,7 +4,7 @@ use std::ops::{Deref, DerefMut};
 
 use nom::combinator::{map, map_opt};
 use nom::error::context;
-use nom::multi::fold_many0;
+use nom::multi::many0;
 use nom::number::complete::le_u16;
 
 use crate::messages::{utils::write_u16, Wire};
@@ -108,20 +108,9 @@ impl<'a> Wire<'a> for UnicodeString {
         context(
             "Unicode string",
             map(
-                fold_many0(
-                    map_opt(le_u16, |b| {
-                        if b == 0 {
-                            None
-                        } else {
-                            char::decode_utf16(std::iter::once(b)).next().unwrap().ok()
-                        }
-                    }),
-                    String::new,
-                    |mut acc: String, c| {
-                        acc.push(c);
-                        acc
-                    },
-                ),
+                map_opt(many0(le_u16), |units: Vec<u16>| {
+                    String::from_utf16(&units).ok()
+                }),
                 |s| UnicodeString(s),
             ),
         )(input)
-- 
2.43.0


From 53dc1199417b2f4898263bba12d4cba3162c5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 04/14] fix: pad and cut the LM password by bytes, so that
 non-ASCII passwords do not panic

---
 src/crypto/lm.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/crypto/lm.rs b/src/crypto/lm.rs
index 8dcb7ae..6e96c47 100644
--- a/src/crypto/lm.rs
+++ b/src/crypto/lm.rs
@@ -1,15 +1,9 @@
 use super::des::des7_encrypt;
 
-fn prepare_password(password: &str) -> String {
-    if password.len() < 14 {
-        let mut p = password.to_uppercase();
-        while p.len() < 14 {
-            p.push('\0');
-        }
-        p
-    } else {
-        (&password[..14]).to_uppercase()
-    }
+fn prepare_password(password: &str) -> Vec<u8> {
+    let mut p = password.to_uppercase().into_bytes();
+    p.resize(14, 0);
+    p
 }
 
 pub type LmHash = [u8; 16];
@@ -20,8 +14,8 @@ pub fn lmowfv1(password: &str) -> LmHash {
     let password = prepare_password(password);
     let (key1, key2) = password.split_at(7);
 
-    des7_encrypt(key1.as_bytes(), &magic[..], &mut lm_hash[..8]);
-    des7_encrypt(key2.as_bytes(), &magic[..], &mut lm_hash[8..]);
+    des7_encrypt(key1, &magic[..], &mut lm_hash[..8]);
+    des7_encrypt(key2, &magic[..], &mut lm_hash[8..]);
 
     lm_hash
 }
-- 
2.43.0


From 3ae66e9fcd88303c1efa04c940de326b66d00c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 05/14] fix: no workstation name, rather than a panic, for an
 empty /etc/hostname

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 117a26c..3433c05 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -259,7 +259,7 @@ where
             return Some(computer_name);
         }
         let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
-        let firstline = hostname.lines().next().unwrap();
+        let firstline = hostname.lines().next()?;
         if let Some((cn, _)) = firstline.split_once('.') {
             Some(cn.trim().to_uppercase())
         } else {
-- 
2.43.0


From 7d84767588e5aad0379e79f9713b0895663cdc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 06/14] fix: do not print the size of negotiate messages on
 stderr

---
 src/client.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 3433c05..51ae6b7 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -133,8 +133,6 @@ where
         self.buffer.clear();
         let size = msg.serialize_into(&mut self.buffer).unwrap();
         self.state = ClientState::NegociateSent(msg);
-        dbg!(self.buffer.len());
-        dbg!(size);
         &self.buffer[..size]
     }
 
-- 
2.43.0


From 94a1f39c86a1258893331f1a5267013a917c19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 07/14] fix: write attribute strings completely

---
 src/messages/structures/avid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 293f5b1..21509ab 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -167,7 +167,8 @@ where
     let utf16: Vec<_> = s.encode_utf16().collect();
     let data = unsafe { std::slice::from_raw_parts(utf16.as_ptr().cast(), utf16.len() * 2) };
     written += write_u16(writer, data.len().try_into().expect("String too long"))?;
-    written += writer.write(&data[..])?;
+    writer.write_all(data)?;
+    written += data.len();
 
     Ok(written)
 }
-- 
2.43.0


From c8e956893a2f8ad987f72bcc7660342d1cb52514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 08/14] fix: make the strict checks of the flags depend on the
 strict feature

---
 src/messages/flags.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/messages/flags.rs b/src/messages/flags.rs
index ad18e92..2dbafd6 100644
--- a/src/messages/flags.rs
+++ b/src/messages/flags.rs
@@ -209,52 +209,52 @@ impl Flags {
 
         if flags.has_flag(R1) {
             log::warn!("flags.has_flag(R1)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R2) {
             log::warn!("flags.has_flag(R2)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R3) {
             log::warn!("flags.has_flag(R3)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R4) {
             log::warn!("flags.has_flag(R4)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R5) {
             log::warn!("flags.has_flag(R5)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R6) {
             log::warn!("flags.has_flag(R6)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R7) {
             log::warn!("flags.has_flag(R7)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R8) {
             log::warn!("flags.has_flag(R8)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R9) {
             log::warn!("flags.has_flag(R9)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R10) {
             log::warn!("flags.has_flag(R10)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -263,7 +263,7 @@ impl Flags {
             log::warn!(
                 "flags cannot have NTLMSSP_TARGET_TYPE_DOMAIN and NTLMSSP_TARGET_TYPE_SERVER"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -271,7 +271,7 @@ impl Flags {
             log::warn!(
                 "!flags.has_flag(NTLMSSP_NEGOTIATE_UNICODE) && !flags.has_flag(NTLM_NEGOTIATE_OEM)"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -279,7 +279,7 @@ impl Flags {
             && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)
         {
             log::warn!("flags.has_flag(NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY) && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         true
-- 
2.43.0


From 5beba16a0e62b4e16fb2ae634c2a12add0bbb643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 09/14] fix: derive the key exchange key from the challenges
 only with extended session security

---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 51ae6b7..90ffab7 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -180,7 +180,10 @@ where
             &session_base_key,
             &lm_challenge.response[..8],
             &self.lm_hash,
-            Some(&challenge.server_challenge),
+            challenge
+                .negotiate_flags
+                .has_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY)
+                .then(|| &challenge.server_challenge),
         );
 
         let (exported_session_key, encrypted_random_session_key) =
-- 
2.43.0


From 77a39a52b5d5a4b3c15cb0369fb92129314b25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 10/14] fix: send an encrypted session key, and announce it,
 only when one is exchanged

---
 src/client.rs         | 14 ++++++++++++--
 src/messages/flags.rs |  5 +++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 90ffab7..75788fd 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -196,7 +196,12 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            challenge
+                .negotiate_flags
+                .is_key_exchanged()
+                .then(|| encrypted_random_session_key),
+        );
         // auth.mic = mic;
         auth.exported_session_key = Some(exported_session_key);
         auth
@@ -236,7 +241,12 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            challenge
+                .negotiate_flags
+                .is_key_exchanged()
+                .then(|| encrypted_random_session_key),
+        );
         auth.exported_session_key = Some(exported_session_key);
         auth.compute_mic(negotiate, challenge);
 
diff --git a/src/messages/flags.rs b/src/messages/flags.rs
index 2dbafd6..0502a03 100644
--- a/src/messages/flags.rs
+++ b/src/messages/flags.rs
@@ -204,6 +204,11 @@ impl Flags {
         self.0 &= u32::MAX & !(1 << bit);
     }
 
+    pub(crate) fn is_key_exchanged(&self) -> bool {
+        self.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
+            && (self.has_flag(NTLMSSP_NEGOTIATE_SIGN) || self.has_flag(NTLMSSP_NEGOTIATE_SEAL))
+    }
+
     fn validate(flags: &u32) -> bool {
         let flags = Self(*flags);
 
-- 
2.43.0


From 466cb31964b148c76b7c0bc558a01e9dad36aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 11/14] fix: do not announce a version that the authenticate
 message does not carry

---
 src/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index 75788fd..b4faf5f 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -292,6 +292,9 @@ where
             auth.negotiate_flags
                 .set_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
             auth.version = Some(v);
+        } else {
+            auth.negotiate_flags
+                .clear_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
         }
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
-- 
2.43.0


From 299f8a80a5f25b685e0c56b2b0570d46f6c56f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 12/14] fix: compute the message integrity code over the
 authenticate message as sent

---
 src/client.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index b4faf5f..75887da 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -208,7 +208,6 @@ where
     }
 
     fn send_authenticate_ntlmv2(&mut self, client_challenge: ClientChallenge) -> Authenticate {
-        let negotiate = self.get_negotiate();
         let challenge = self.get_challenge();
         let mut time = None;
         for val in &challenge.target_infos[..] {
@@ -248,8 +247,6 @@ where
                 .then(|| encrypted_random_session_key),
         );
         auth.exported_session_key = Some(exported_session_key);
-        auth.compute_mic(negotiate, challenge);
-
         auth
     }
 
@@ -302,6 +299,9 @@ where
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
+        if V::version() >= 3 {
+            auth.compute_mic(self.get_negotiate(), self.get_challenge());
+        }
         self.buffer.clear();
         auth.serialize_into(&mut self.buffer).unwrap();
         self.set_authenticated_state(auth);
-- 
2.43.0


From d7e5bb6f402a8e834b361bce408ad56fa3da728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 13/14] fix: count file times in 100-nanosecond intervals since
 1601

---
 src/messages/structures/filetime.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/messages/structures/filetime.rs b/src/messages/structures/filetime.rs
index 76ec5d4..b97980d 100644
--- a/src/messages/structures/filetime.rs
+++ b/src/messages/structures/filetime.rs
@@ -11,25 +11,36 @@ pub struct FileTime {
     pub low: u32,
     pub high: u32,
 }
-const NANO_TO_MILLI: u64 = 1_000_000;
+/// Number of 100-nanosecond intervals in a second
+const TICKS_PER_SECOND: u64 = 10_000_000;
+/// Number of seconds between 1601-01-01 and `UNIX_EPOCH`
+const EPOCH_DIFFERENCE: u64 = 11_644_473_600;
 
 impl TryFrom<SystemTime> for FileTime {
     type Error = Option<SystemTimeError>;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let seconds = value.duration_since(UNIX_EPOCH).map_err(Some)?.as_secs();
-        let nsec = seconds.checked_mul(NANO_TO_MILLI).ok_or(None)?;
+        let since_epoch = value.duration_since(UNIX_EPOCH).map_err(Some)?;
+        let ticks = since_epoch
+            .as_secs()
+            .checked_add(EPOCH_DIFFERENCE)
+            .and_then(|seconds| seconds.checked_mul(TICKS_PER_SECOND))
+            .and_then(|ticks| ticks.checked_add(u64::from(since_epoch.subsec_nanos() / 100)))
+            .ok_or(None)?;
         Ok(Self {
-            high: (nsec >> 32) as u32,
-            low: (nsec & 0xffff_ffff) as u32,
+            high: (ticks >> 32) as u32,
+            low: (ticks & 0xffff_ffff) as u32,
         })
     }
 }
 
 impl FileTime {
     pub fn to_system_time(&self) -> Option<SystemTime> {
-        let ts = self.as_u64() / NANO_TO_MILLI;
-        UNIX_EPOCH.checked_add(Duration::from_secs(ts))
+        let seconds = self.as_u64() / TICKS_PER_SECOND;
+        let ticks = (self.as_u64() % TICKS_PER_SECOND) as u32;
+        UNIX_EPOCH
+            .checked_sub(Duration::from_secs(EPOCH_DIFFERENCE))?
+            .checked_add(Duration::new(seconds, ticks * 100))
     }
 
     pub fn as_u64(&self) -> u64 {
-- 
2.43.0


From f598b39bd93293ffb5ff363b5005c82c95a39329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:29 +0000
Subject: [PATCH 14/14] fix: report errors of InitializeSecurityContext and
 keep no context it did not make

---
 src/win.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/win.rs b/src/win.rs
index 43b82c3..71eedf0 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -130,9 +130,12 @@ impl WinClient {
                     Some(ptr::addr_of_mut!(self.lifetime)),
                 )
             };
+            // An error leaves the new context untouched
+            ret.ok()?;
             self.context = Some(unsafe { new_context.assume_init() });
             ret
         };
+        ret.ok()?;
         unsafe {
             self.output_buffer
                 .set_len(output_sec_buffer.cbBuffer.try_into().unwrap());
-- 
2.43.0

