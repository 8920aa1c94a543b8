From 887aab83d7f7b649e4461690796df2bec06f70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 01/11] fix: check lengths of incoming data instead of
 panicking

---
 src/encryption/chacha20_poly1305_aead.rs |  4 +++
 src/reader.rs                            | 37 +++++++++++++++++++-----
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 7f8569c..6d08c80 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -15,6 +15,7 @@
 
 //! Manage cryptographic encryption operations with Chacha20Poly1305Aead algorithm.
 
+use crate::errors::IncomingMsgErr;
 use crate::seeds::Seed48;
 use crate::{Error, Result};
 use std::io::{BufWriter, Read, Write};
@@ -50,6 +51,9 @@ pub fn decrypt<W: Write>(
     secret_key: &SecretKey,
     writer: &mut BufWriter<W>,
 ) -> Result<()> {
+    if encrypted_data.len() < CHACHA20_TAG_SIZE {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let payload_len = encrypted_data.len() - CHACHA20_TAG_SIZE;
 
     chacha20_poly1305_aead::decrypt(
diff --git a/src/reader.rs b/src/reader.rs
index d1c1539..56d6a24 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -27,6 +27,7 @@ const MAGIC_VALUE_END: usize = 4;
 const VERSION_END: usize = 8;
 pub(crate) const ENCAPSULED_MSG_BEGIN: usize = 16;
 const NONCE_SIZE: usize = 8;
+const SIG_PUBKEY_SIZE: usize = 32;
 
 #[derive(Debug, PartialEq)]
 pub(crate) struct DecryptedIncomingData {
@@ -45,7 +46,7 @@ pub(crate) fn read(
     // Decrypt data
     let data_encrypted;
     let mut buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
-    if incoming_data[..MAGIC_VALUE_END] == MAGIC_VALUE {
+    if incoming_data.starts_with(&MAGIC_VALUE) {
         // Data are not encrypted
         data_encrypted = false;
         buffer.write(incoming_data).map_err(Error::WriteError)?;
@@ -61,20 +62,21 @@ pub(crate) fn read(
     let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
 
     // Check magic value
-    if decrypted_data[..MAGIC_VALUE_END] != MAGIC_VALUE {
+    if !decrypted_data.starts_with(&MAGIC_VALUE) {
         return Err(IncomingMsgErr::InvalidMagicValue.into());
     }
 
     // Check version
+    check_len(&decrypted_data, VERSION_END)?;
     if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {
         return Err(IncomingMsgErr::UnsupportedVersion.into());
     }
 
     // Read ENCAPSULED_MSG_SIZE
+    check_len(&decrypted_data, ENCAPSULED_MSG_BEGIN)?;
     let mut buffer_8_bytes: [u8; 8] = <[u8; 8]>::default();
     buffer_8_bytes.copy_from_slice(&decrypted_data[VERSION_END..ENCAPSULED_MSG_BEGIN]);
-    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes) as usize;
-    let user_msg_end = ENCAPSULED_MSG_BEGIN + encapsuled_msg_size;
+    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);
 
     // Read type headers
     let (msg_type_headers, type_headers_len) =
@@ -84,20 +86,37 @@ pub(crate) fn read(
         Err(Error::RecvInvalidMsg(
             IncomingMsgErr::UnexpectedEncryptionState,
         ))
+    } else if encapsuled_msg_size < type_headers_len as u64
+        || encapsuled_msg_size > (decrypted_data.len() - ENCAPSULED_MSG_BEGIN) as u64
+    {
+        // The encapsuled message must contain its type headers and be entirely present in the data
+        Err(IncomingMsgErr::MessageTooShort.into())
     } else {
         Ok(DecryptedIncomingData {
             data: decrypted_data,
             user_msg_begin: ENCAPSULED_MSG_BEGIN + type_headers_len,
-            user_msg_end,
+            user_msg_end: ENCAPSULED_MSG_BEGIN + encapsuled_msg_size as usize,
             msg_type_headers,
         })
     }
 }
 
+#[inline]
+fn check_len(data: &[u8], min_len: usize) -> Result<()> {
+    if data.len() < min_len {
+        Err(IncomingMsgErr::MessageTooShort.into())
+    } else {
+        Ok(())
+    }
+}
+
 fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
+    check_len(type_headers, MSG_TYPE_LEN)?;
+
     // Match message type
     match &type_headers[..MSG_TYPE_LEN] {
         USER_MSG_TYPE => {
+            check_len(type_headers, MSG_TYPE_LEN + NONCE_SIZE)?;
             let mut nonce = [0u8; NONCE_SIZE];
             nonce.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + NONCE_SIZE]);
             Ok((
@@ -108,6 +127,8 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             ))
         }
         CONNECT_MSG_TYPE => {
+            check_len(type_headers, SIG_PUBKEY_BEGIN + SIG_PUBKEY_SIZE)?;
+
             // Read PEER_EPHEMERAL_PUBKEY
             let mut peer_ephemeral_pk = [0u8; EPK_SIZE];
             peer_ephemeral_pk.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + EPK_SIZE]);
@@ -123,16 +144,18 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
                         MsgTypeHeaders::Connect {
                             peer_ephemeral_pk,
                             sig_algo,
-                            sig_pubkey: type_headers[SIG_PUBKEY_BEGIN..(SIG_PUBKEY_BEGIN + 32)]
+                            sig_pubkey: type_headers
+                                [SIG_PUBKEY_BEGIN..(SIG_PUBKEY_BEGIN + SIG_PUBKEY_SIZE)]
                                 .to_vec(),
                         },
-                        SIG_PUBKEY_BEGIN + 32,
+                        SIG_PUBKEY_BEGIN + SIG_PUBKEY_SIZE,
                     ))
                 }
                 _ => Err(IncomingMsgErr::UnsupportedSigAlgo.into()),
             }
         }
         ACK_MSG_TYPE => {
+            check_len(type_headers, MSG_TYPE_LEN + CHALLENGE_SIZE)?;
             let mut challenge = [0u8; CHALLENGE_SIZE];
             challenge
                 .copy_from_slice(&&type_headers[MSG_TYPE_LEN..(MSG_TYPE_LEN + CHALLENGE_SIZE)]);
-- 
2.43.0


From 67172ddd1debcc75625fce8d99721db07116234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 02/11] fix: pin the peer public key only after verifying the
 CONNECT signature

---
 src/minimal.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index c631832..a6da274 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -189,13 +189,11 @@ impl MinimalSecureLayer {
                 ref sig_pubkey,
                 ..
             } => {
-                // Verify (or get) peer sig pubkey
+                // Verify peer sig pubkey
                 if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                     if sig_pubkey != peer_sig_pubkey {
                         return Err(Error::UnexpectedRemoteSigPubKey);
                     }
-                } else {
-                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
                 }
 
                 // Verify sig
@@ -209,6 +207,9 @@ impl MinimalSecureLayer {
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
 
+                // Get peer sig pubkey (only now that the signature is verified)
+                self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
+
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
                 self.compute_shared_secret(&peer_ephemeral_pk[..])?;
-- 
2.43.0


From 9a1897dc186a40deff409b93a7337248ba2106e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 03/11] fix: refuse our own CONNECT message reflected by the
 network

---
 src/minimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/minimal.rs b/src/minimal.rs
index a6da274..d22b763 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -189,6 +189,11 @@ impl MinimalSecureLayer {
                 ref sig_pubkey,
                 ..
             } => {
+                // Refuse our own connect message reflected by the network
+                if &peer_ephemeral_pk[..] == self.ephemeral_pubkey.as_ref() {
+                    return Err(IncomingMsgErr::UnexpectedConnectMsg.into());
+                }
+
                 // Verify peer sig pubkey
                 if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                     if sig_pubkey != peer_sig_pubkey {
-- 
2.43.0


From 94f353e2f185b443f0607b5e18509905a45d8179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 04/11] fix: an unusable peer ephemeral key fails the
 connection

---
 src/minimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index d22b763..3eaef6d 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -217,7 +217,10 @@ impl MinimalSecureLayer {
 
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
-                self.compute_shared_secret(&peer_ephemeral_pk[..])?;
+                if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(e);
+                }
             }
             MsgTypeHeaders::Ack { challenge } => {
                 // Verify challenge
-- 
2.43.0


From e65acaf893a79d91489bba876f1708ac96cb8d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 05/11] fix: write whole messages even when the output accepts
 only a part of them at once

---
 src/complete/writer.rs                   | 7 +++----
 src/encryption/chacha20_poly1305_aead.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/complete/writer.rs b/src/complete/writer.rs
index 8f15d72..4ab7d5b 100644
--- a/src/complete/writer.rs
+++ b/src/complete/writer.rs
@@ -42,7 +42,7 @@ where
 
         // Write connect message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -72,7 +72,7 @@ where
 
         // Write ack message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -92,8 +92,7 @@ where
     W: Write,
 {
     writer
-        .write(sig_key_pair.sign(bin_msg).as_ref())
-        .map(|_| ())
+        .write_all(sig_key_pair.sign(bin_msg).as_ref())
         .map_err(|_| Error::BufferFlushError)
 }
 
diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 6d08c80..90ec107 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -85,7 +85,7 @@ pub fn encrypt<R: Read, W: Write>(
     .map_err(Error::FailToEncryptData)?;
 
     writer
-        .write(&tag.to_vec())
+        .write_all(&tag.to_vec())
         .map_err(Error::FailToEncryptData)?;
 
     Ok(())
-- 
2.43.0


From b59e0d3c5cabb60f7a5fe06f805d3cabb1dd2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 06/11] fix: an output error while writing CONNECT or ACK fails
 the connection

---
 src/complete/writer.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/complete/writer.rs b/src/complete/writer.rs
index 4ab7d5b..5671de5 100644
--- a/src/complete/writer.rs
+++ b/src/complete/writer.rs
@@ -17,6 +17,7 @@
 //! Sub-module define write operations.
 
 use super::SecureLayer;
+use crate::status::SecureLayerStatus;
 use crate::{Error, Result};
 use ring::signature::{Ed25519KeyPair, KeyPair};
 use std::io::{BufWriter, Write};
@@ -41,12 +42,17 @@ where
         )?;
 
         // Write connect message
-        writer
+        let result = writer
             .write_all(&bin_connect_msg)
-            .map_err(|_| Error::BufferFlushError)?;
+            .map_err(|_| Error::BufferFlushError)
+            // Sign message and write signature
+            .and_then(|_| sign_bin_msg_and_write_sig(sig_key_pair, &bin_connect_msg, writer));
 
-        // Sign message and write signature
-        sign_bin_msg_and_write_sig(sig_key_pair, &bin_connect_msg, writer)
+        // An output error fails the connection
+        if result.is_err() {
+            sl.minimal_secure_layer.status = SecureLayerStatus::Fail;
+        }
+        result
     } else {
         Err(Error::ConnectMsgAlreadyWritten)
     }
@@ -71,12 +77,17 @@ where
             })?;
 
         // Write ack message
-        writer
+        let result = writer
             .write_all(&bin_connect_msg)
-            .map_err(|_| Error::BufferFlushError)?;
+            .map_err(|_| Error::BufferFlushError)
+            // Sign message and write signature
+            .and_then(|_| sign_bin_msg_and_write_sig(sig_key_pair, &bin_connect_msg, writer));
 
-        // Sign message and write signature
-        sign_bin_msg_and_write_sig(sig_key_pair, &bin_connect_msg, writer)
+        // An output error fails the connection
+        if result.is_err() {
+            sl.minimal_secure_layer.status = SecureLayerStatus::Fail;
+        }
+        result
     } else {
         Err(Error::ConnectMsgAlreadyWritten)
     }
-- 
2.43.0


From b93e22ba75c11ed5f5aa3c96a27fb4ea35501d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 07/11] fix: refuse the plain text format in typed functions
 instead of panicking

---
 src/complete/serde/deserializer.rs | 5 +++--
 src/complete/serde/serializer.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/complete/serde/deserializer.rs b/src/complete/serde/deserializer.rs
index 2024ea0..efeeba7 100644
--- a/src/complete/serde/deserializer.rs
+++ b/src/complete/serde/deserializer.rs
@@ -89,7 +89,9 @@ where
     M: Debug + DeserializeOwned,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::deserialize::<M>(binary_message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -101,6 +103,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
diff --git a/src/complete/serde/serializer.rs b/src/complete/serde/serializer.rs
index 478737f..57288d2 100644
--- a/src/complete/serde/serializer.rs
+++ b/src/complete/serde/serializer.rs
@@ -104,7 +104,9 @@ where
     W: Write,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::serialize_into(writer, message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -116,6 +118,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::to_writer(writer, message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
-- 
2.43.0


From b603610e652906db0670cc9a2e54405644cb574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 08/11] fix: register the nonce of user messages held back
 during the negotiation

---
 src/minimal.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index 3eaef6d..a646605 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -47,7 +47,7 @@ pub struct MinimalSecureLayer {
     peer_epk: Option<Vec<u8>>,
     peer_sig_pubkey: Option<Vec<u8>>,
     pub(crate) status: SecureLayerStatus,
-    tmp_stack_user_msgs: Vec<Vec<u8>>,
+    tmp_stack_user_msgs: Vec<Message>,
 }
 
 impl MinimalSecureLayer {
@@ -131,14 +131,16 @@ impl MinimalSecureLayer {
     }
     /// Drain temporary stack of remote messages
     pub fn drain_tmp_stack_user_msgs(&mut self) -> Result<Vec<Message>> {
-        let bin_msgs: Vec<Vec<u8>> = self.tmp_stack_user_msgs.drain(..).collect();
-        let mut msgs = Vec::with_capacity(bin_msgs.len());
-        for bin_msg in bin_msgs {
-            if let Some(msg) = self.read_inner(&bin_msg, false)? {
-                msgs.push(msg);
+        match self.status {
+            SecureLayerStatus::NegotiationSuccessful => {
+                Ok(self.tmp_stack_user_msgs.drain(..).collect())
             }
+            SecureLayerStatus::Fail if !self.tmp_stack_user_msgs.is_empty() => {
+                self.tmp_stack_user_msgs.clear();
+                Err(Error::ConnectionHadFail)
+            }
+            _ => Ok(Vec::new()),
         }
-        Ok(msgs)
     }
     #[inline]
     /// Encapsulate message
@@ -157,13 +159,6 @@ impl MinimalSecureLayer {
     #[inline]
     /// Read incoming data
     pub fn read(&mut self, incoming_data: &[u8]) -> Result<Option<Message>> {
-        self.read_inner(incoming_data, true)
-    }
-    fn read_inner(
-        &mut self,
-        incoming_data: &[u8],
-        check_encrypt_state: bool,
-    ) -> Result<Option<Message>> {
         // Decrypt incoming messsage and parse headers
         let DecryptedIncomingData {
             mut data,
@@ -173,7 +168,7 @@ impl MinimalSecureLayer {
         } = match reader::read(
             self.encrypt_algo_with_secret.as_ref(),
             incoming_data,
-            check_encrypt_state,
+            true,
         ) {
             Ok(decrypted_incoming_data) => decrypted_incoming_data,
             Err(e) => {
@@ -182,6 +177,9 @@ impl MinimalSecureLayer {
             }
         };
 
+        // User message received before the end of the negotiation
+        let mut recv_too_early = false;
+
         //println!("DEBUG TMP: msg_type_headers={:#?}", msg_type_headers);
         match msg_type_headers {
             MsgTypeHeaders::Connect {
@@ -259,8 +257,7 @@ impl MinimalSecureLayer {
                     .status
                     .apply_action(Action::Receive(MsgType::UserMsg))?
                 {
-                    self.tmp_stack_user_msgs.push(data);
-                    return Ok(None);
+                    recv_too_early = true;
                 }
 
                 // Verify hash
@@ -293,7 +290,12 @@ impl MinimalSecureLayer {
             msg_type_headers,
         )?;
 
-        Ok(Some(message))
+        if recv_too_early {
+            self.tmp_stack_user_msgs.push(message);
+            Ok(None)
+        } else {
+            Ok(Some(message))
+        }
     }
     /// Encrypt and write message on a writer
     #[inline]
-- 
2.43.0


From 81d994cc852cd398c325d65e901f0106bcb3c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 09/11] fix: never use a message number twice when an endpoint
 and its clone both write

---
 src/minimal.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index a646605..0b9a3b9 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -28,6 +28,8 @@ use crate::status::SecureLayerStatus;
 use crate::{Action, ActionSideEffects, Error, MsgType, Result};
 use std::collections::BTreeSet;
 use std::io::{BufReader, BufWriter, Write};
+use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::Arc;
 
 /// Minimal secure layer
 #[derive(Debug)]
@@ -40,8 +42,8 @@ pub struct MinimalSecureLayer {
     pub(crate) ephemeral_pubkey: EphemeralPublicKey,
     /// Minimal expected nonce in the next received message
     next_nonce_expected: u64,
-    /// Nonce for the next message to be sent
-    next_nonce_sent: u64,
+    /// Nonce for the next message to be sent (shared between clones)
+    next_nonce_sent: Arc<AtomicU64>,
     /// List of orphan nonces (greater than next_nonce_expected)
     orphan_nonce_list: BTreeSet<u64>,
     peer_epk: Option<Vec<u8>>,
@@ -66,7 +68,7 @@ impl MinimalSecureLayer {
                 peer_epk: None,
                 peer_sig_pubkey: None,
                 next_nonce_expected: self.next_nonce_expected,
-                next_nonce_sent: self.next_nonce_sent,
+                next_nonce_sent: self.next_nonce_sent.clone(),
                 status: SecureLayerStatus::NegotiationSuccessful,
                 tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),
             })
@@ -102,7 +104,7 @@ impl MinimalSecureLayer {
             peer_epk: None,
             peer_sig_pubkey: expected_remote_sig_public_key,
             next_nonce_expected: 0,
-            next_nonce_sent: 0,
+            next_nonce_sent: Arc::new(AtomicU64::new(0)),
             status: SecureLayerStatus::init(),
             tmp_stack_user_msgs: Vec::new(),
         };
@@ -390,7 +392,6 @@ impl MinimalSecureLayer {
             Ok(()) => {
                 self.status = SecureLayerStatus::NegotiationSuccessful;
 
-                self.next_nonce_sent += 1;
                 Ok(())
             }
             Err(e) => {
@@ -406,7 +407,7 @@ impl MinimalSecureLayer {
         writer: &mut BufWriter<W>,
     ) -> Result<()> {
         let encapsuled_msg = self.encapsulate_message(&MessageRef::Message {
-            nonce: self.next_nonce_sent,
+            nonce: self.next_nonce_sent.fetch_add(1, Ordering::SeqCst),
             custom_data: Some(data),
         })?;
         self.encrypt_and_write(&encapsuled_msg, writer)
-- 
2.43.0


From a90c2632d299bb6d875d8fda7b73916e1581d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 10/11] fix: a forged early ACK message does not hide the
 CONNECT message

---
 src/complete.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index d7fa065..66cc33e 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -23,6 +23,7 @@ pub mod writer;
 #[cfg(feature = "ser")]
 pub use self::serde::IncomingMessage;
 
+use crate::status::SecureLayerStatus;
 use crate::{Error, Message, MinimalSecureLayer, Result, SecureLayerConfig, Seed32};
 use flate2::write::{DeflateDecoder, DeflateEncoder};
 use message::IncomingBinaryMessage;
@@ -130,16 +131,23 @@ impl SecureLayer {
                         },
                         peer_sig_public_key: sig_pubkey,
                     });
-                    if let Some(Message::Ack { custom_data }) =
-                        self.minimal_secure_layer.take_ack_msg_recv_too_early()?
-                    {
-                        messages.push(IncomingBinaryMessage::Ack {
-                            custom_data: if let Some(custom_data) = custom_data {
-                                Some(Self::uncompress(&custom_data)?)
-                            } else {
-                                None
-                            },
-                        });
+                    match self.minimal_secure_layer.take_ack_msg_recv_too_early() {
+                        Ok(Some(Message::Ack { custom_data })) => {
+                            messages.push(IncomingBinaryMessage::Ack {
+                                custom_data: if let Some(custom_data) = custom_data {
+                                    Some(Self::uncompress(&custom_data)?)
+                                } else {
+                                    None
+                                },
+                            });
+                        }
+                        Ok(_) => {}
+                        Err(e) => {
+                            // A forged ACK message must not hide the connect message
+                            if self.minimal_secure_layer.status == SecureLayerStatus::Fail {
+                                return Err(e);
+                            }
+                        }
                     }
                 }
                 Message::Ack { custom_data } => {
-- 
2.43.0


From 1d9ed8c6058cd5132e30cefa2f20112f47d87f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 11/11] fix: a clone keeps the public signature key of the peer

A clone did not know who its peer is: a CONNECT message of any stranger
failed it, where the original endpoint only refuses it, and an ACK message
was kept as if the negotiation had not taken place.
---
 src/minimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index 0b9a3b9..3651fc3 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -66,7 +66,7 @@ impl MinimalSecureLayer {
                 ephemeral_pubkey: self.ephemeral_pubkey.clone(),
                 orphan_nonce_list: self.orphan_nonce_list.clone(),
                 peer_epk: None,
-                peer_sig_pubkey: None,
+                peer_sig_pubkey: self.peer_sig_pubkey.clone(),
                 next_nonce_expected: self.next_nonce_expected,
                 next_nonce_sent: self.next_nonce_sent.clone(),
                 status: SecureLayerStatus::NegotiationSuccessful,
-- 
2.43.0

